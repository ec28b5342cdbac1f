"""C39: the grammar of a command interpreter consists of its classes' and its parents' texts, each once and in order."""

import re

from ..repo import Repo
from ..values import C, S, R, TRUE, FALSE, NONE, Exc
from ..state import Obj, mk_eq
from ..cliclient import need_class, need_method
from ..cmdinit import Hierarchy, construct, docstring
from ..result import Anchor
from .command_grammar import flat

BASE = 'NessaidCmd'
WITNESS = '''
from nessaid_cli.cmd import NessaidCmd


class SaPlain:
    """not a grammar"""


class SaBase(NessaidCmd):
    """base grammar"""
    def do_base(self, one):
        """doc base"""


class SaNoText(SaBase):
    def do_one(self):
        """doc one"""


class SaTop(SaNoText):
    """top grammar"""


class SaDeep(SaTop):
    """deep grammar"""


class SaOther(NessaidCmd):
    """other grammar"""


class SaBoth(SaBase, SaOther):
    """both grammar"""


class SaDiamond(SaTop, SaBoth):
    """diamond grammar"""


class SaMixed(SaPlain, SaBase):
    """mixed grammar"""


class SaAfter(SaBase, SaPlain):
    """after grammar"""


class SaBetween(SaTop, SaPlain, SaOther):
    """between grammar"""


class SaSilent(NessaidCmd):
    def do_it(self):
        """doc it"""


class SaChild(NessaidCmd):
    """child grammar"""
    def do_it(self):
        """doc it"""


class SaSmall(SaOther):
    def do_it(self):
        """doc it"""
'''


class Sources:
    def __init__(self, repo):
        self.repo = repo
        self.base = need_class(repo, BASE)

    def text(self, cid):
        return docstring(self.repo.classes[cid].node) is not None

    def derived(self, cid):
        return self.base in self.repo.mro(cid)

    def inherited(self, cid):
        """Base first"""
        up = [c for c in self.repo.mro(cid)[1:] if c in self.repo.classes and c != self.base and self.derived(c) and self.text(c)]
        return up[::-1]

    def handed_down(self, parents):
        """[(class, uses its parent's grammar)], the nearest first -> texts, the farthest first"""
        if not parents:
            return []
        cid, use = parents[0]
        return (self.handed_down(parents[1:]) if use else []) + ([cid] if self.text(cid) else [])

    def due(self, cid, use_base, use_parent, parents):
        groups = []
        if use_base and cid != self.base and self.text(self.base):
            groups.append([self.base])
        groups.append(self.inherited(cid))
        groups.append(self.handed_down(parents) if use_parent else [])
        return groups, ([cid] if self.text(cid) else [])


def name(c):
    return c.split('.')[-1]


def run(repo, res):
    res.rules = ['missing: the text of the class, of every base class that is a command interpreter, of the package and of the parents is in the grammar as the settings say',
                 'not-asked-for: no other text is', 'twice: no text is there twice', 'order: bases come before what derives from them, parents before their contexts, and all of them before the commands']
    res.explanation = ("The interpreter's constructor is followed on witness classes (chains, classes without text, several bases, other classes among the bases), alone and as a context of one or two parents, "
                       "for the settings that choose the texts; the class table answers what the classes are, texts stay symbolic. The texts found in the generated grammar are compared with those due.")
    res.assumptions = ["the constructor treats classes alike apart from their place in the hierarchy and having a text (witness classes)",
                       "of a parent, its class's own text and that of its parents is handed down, not that of its base classes"]
    rp = Repo(repo.root, {'sawitness': WITNESS})
    src = Sources(rp)
    init = need_method(rp, BASE, '__init__')
    classes = [BASE, 'SaBase', 'SaNoText', 'SaTop', 'SaDeep', 'SaBoth', 'SaDiamond', 'SaMixed', 'SaAfter', 'SaBetween', 'SaSilent']
    settings = [(c, b, None, ()) for c in classes for b in (None, FALSE, TRUE)]
    settings += [(c, None, u, ps) for c in ('SaChild', 'SaSilent', 'SaSmall') for u in (None, FALSE, TRUE) for ps in (
        (('SaTop', None),), (('SaSilent', None),), (('SaBoth', TRUE), ('SaDeep', None)), (('SaBoth', FALSE), ('SaDeep', None)), (('SaNoText', TRUE), ('SaDeep', TRUE)),
        (('SaTop', TRUE), ('SaBase', TRUE), ('SaDeep', FALSE)))]
    defaults = {}
    a = init.node.args
    for x, d in list(zip(reversed(a.posonlyargs + a.args), reversed(a.defaults))) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if d is not None and hasattr(d, 'value'):
            defaults[x.arg] = d.value
    for k in ('use_base_grammar', 'use_parent_grammar', 'parent'):
        if k not in init.params and k not in [x.arg for x in a.kwonlyargs]:
            raise Anchor("the constructor of %s has no setting %s" % (BASE, k))

    def given(v, k):
        return bool(defaults.get(k)) if v is None else v == TRUE

    for cls, use_base, use_parent, parents in settings:
        config = {}
        if use_base is not None:
            config['use_base_grammar'] = use_base
        if use_parent is not None:
            config['use_parent_grammar'] = use_parent
        chain = []

        def before(eng, st):
            """Construct the parents, the farthest first"""
            up = NONE
            for i, (pc, use) in enumerate(reversed(parents)):
                oid = 'parent%d' % (len(parents) - i)
                st = st.setobj(oid, Obj('inst', need_class(rp, pc), {}))
                st = st.setvar('$held', oid, R(oid))
                kw = {'loop': S('p', 'loop'), 'stdin': S('in'), 'stdout': S('out'), 'stderr': S('err'), 'parent': up}
                if use is not None:
                    kw['use_parent_grammar'] = use
                eng.client.texts = []
                outs = [(s, v) for s, v in eng.run_entry(init, st, R(oid), [], kw) if not isinstance(v, Exc) and not s.guess]
                if len(outs) != 1:
                    chain.append(len(outs))
                if outs:
                    st = outs[0][0]
                up = R(oid)
            eng.client.texts = []
            return st
        if parents:
            config['parent'] = R('parent1')
        eng, cl, texts = construct(rp, cls, config, Hierarchy, before)
        res.absorb(eng)
        res.count('configurations')
        cid = need_class(rp, cls)
        what = cls + ''.join(' %s=%s' % (k, v[2]) for k, v in sorted(config.items()) if k != 'parent') + \
            ''.join(' in %s%s' % (p, '' if u is None else '(use_parent_grammar=%s)' % u[2]) for p, u in parents)
        groups, own = src.due(cid, given(use_base, 'use_base_grammar'), given(use_parent, 'use_parent_grammar'),
                              [(need_class(rp, p), given(u, 'use_parent_grammar')) for p, u in parents])
        due = [c for g in groups for c in g] + own
        if not texts or chain:
            res.count('undecided')
            continue
        found = []
        for t, st in texts:
            marks = re.findall('\1([^\2]*)\2', flat(t))
            first = next((i for i, m in enumerate(marks) if ':' in m), len(marks))
            got = [m for m in marks if ':' not in m]
            out = set()
            found.append(out)
            if '!' in got and len(groups[1]) > 1:
                out.add(('order', "%s: the texts of %s are in no fixed order" % (what, ', '.join(map(name, groups[1])))))
                continue
            if '?' in got or '!' in got or st.guess:
                out.add('undecided')
                continue
            for c in sorted(set(due) - set(got)):
                out.add(('missing', "%s: the text of %s is not in the grammar" % (what, name(c))))
            for c in sorted(set(got) - set(due)):
                out.add(('not-asked-for', "%s: the text of %s is in the grammar" % (what, name(c))))
            for c in sorted(set(got)):
                if got.count(c) > 1:
                    out.add(('twice', "%s: the text of %s is in the grammar %d times" % (what, name(c), got.count(c))))
            if not out:
                for g in groups + [[c] + own for g in groups for c in g]:
                    for x, y in zip(g, g[1:]):
                        if got.index(x) > got.index(y) and (y in own or src.base == x or x in rp.mro(y) or g is groups[-1]):
                            out.add(('order', "%s: the text of %s comes after that of %s" % (what, name(x), name(y))))
                for i, m in enumerate(marks):
                    if ':' not in m and i > first:
                        out.add(('order', "%s: the text of %s comes after commands" % (what, name(m))))
        if any('undecided' in f for f in found):
            res.count('undecided')
            continue
        res.count('grammars_decided')
        res.sample('grammars', '%s: %s' % (what, ' '.join(map(name, due))))
        for k in sorted(set.union(*found)):
            if all(k in f for f in found):
                res.violate(k[0], init.where, init.qual, k[1])
            else:
                res.count('undecided')
    res.need('grammars_decided', 1, 'generated grammars understood')

"""C41: a nested context works on its parent's surroundings, with the settings it was entered with."""

from ..repo import Repo
from ..values import C, S, R, TRUE, FALSE, NONE, Exc, is_c, mentions, show
from ..state import mk_eq
from ..cliclient import start, need_class, need_method
from ..cmdinit import Hierarchy
from ..result import Anchor
from .command_grammar import flat

WITNESS = '''
from nessaid_cli.cmd import NessaidCmd
from nessaid_cli.cli import NessaidCli


class SaTop(NessaidCmd):
    """top grammar"""
    def do_a(self):
        """doc a"""


class SaKid(NessaidCmd):
    """kid grammar"""
    def do_b(self):
        """doc b"""

    def run_c(self):
        """doc c"""


class SaBad(NessaidCmd):
    def __init__(self, **kwargs):
        raise LookupError("refused")


class SaPlainCli(NessaidCli):
    pass


def sa_pair(grammar, loop, stdin, stdout, stderr, prompt, key, raw, size):
    p = SaPlainCli(grammar, loop=loop, stdin=stdin, stdout=stdout, stderr=stderr)
    c = SaPlainCli(grammar, parent=p, loop=loop, prompt=prompt, stdin=stdin, stdout=stdout, stderr=stderr)
    return p, c


def sa_cmd_pair(loop, stdin, stdout, stderr, prompt):
    p = SaTop(loop=loop, stdin=stdin, stdout=stdout, stderr=stderr)
    c = SaKid(parent=p, loop=loop, prompt=prompt, stdin=stdin, stdout=stdout, stderr=stderr)
    return p, c


def sa_other_streams(loop, stdin, stdout, stderr, prompt, in2, out2, err2):
    p = SaTop(loop=loop, stdin=stdin, stdout=stdout, stderr=stderr)
    c = SaKid(parent=p, loop=loop, prompt=prompt, stdin=in2, stdout=out2, stderr=err2)
    return p, c


async def sa_enter(loop, stdin, stdout, stderr, key, raw, size, trace, first, prompt, upg, mpg, ddh, nargs, prefix, base, bell, deep):
    p = SaTop(loop=loop, stdin=stdin, stdout=stdout, stderr=stderr, completekey=key, use_rawinput=raw, str_cache_size=size, do_tracemalloc=trace, prompt=first)
    if deep:
        p = SaTop(loop=loop, stdin=stdin, stdout=stdout, stderr=stderr, completekey=key, use_rawinput=raw, str_cache_size=size, do_tracemalloc=trace, prompt=first, parent=p)
    await p.enter_context(SaKid, prompt=prompt, use_parent_grammar=upg, match_parent_grammar=mpg, disable_default_hooks=ddh,
                          cli_nargs=nargs, cli_hook_prefix=prefix, use_base_grammar=base, enable_bell=bell)
    return p, p.child_cli


async def sa_direct(loop, stdin, stdout, stderr, key, raw, size, trace, first, prompt, upg, mpg, ddh, nargs, prefix, base, bell, deep):
    p = SaTop(loop=loop, stdin=stdin, stdout=stdout, stderr=stderr, completekey=key, use_rawinput=raw, str_cache_size=size, do_tracemalloc=trace, prompt=first)
    if deep:
        p = SaTop(loop=loop, stdin=stdin, stdout=stdout, stderr=stderr, completekey=key, use_rawinput=raw, str_cache_size=size, do_tracemalloc=trace, prompt=first, parent=p)
    c = SaKid(loop=loop, stdin=stdin, stdout=stdout, stderr=stderr, completekey=key, use_rawinput=raw, str_cache_size=size, do_tracemalloc=trace, prompt=prompt,
              parent=p, use_parent_grammar=upg, match_parent_grammar=mpg, disable_default_hooks=ddh,
              cli_nargs=nargs, cli_hook_prefix=prefix, use_base_grammar=base, enable_bell=bell)
    return p, c


async def sa_refused(loop, stdin, stdout, stderr):
    p = SaTop(loop=loop, stdin=stdin, stdout=stdout, stderr=stderr)
    try:
        await p.enter_context(SaBad)
    except LookupError:
        return p, p.child_cli
    return p, False
'''
SHARED = ('readline', 'loop', 'stdin', 'stdout', 'stderr', 'file_data')


class Full(Hierarchy):
    """The constructors below the command interpreter's are followed too."""

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        fi = tgt.fi
        if fi is not None and fi.name == '__init__' and fi.cls is not None and fi.cls.name in ('NessaidCli', 'CliInterface'):
            return None
        out = super().on_call(eng, st, ctx, tgt, args, kwargs, node)
        if out is None and tgt.kind in ('ext', 'class') and tgt.name.split('.')[-1][:1].isupper() and (tgt.kind == 'ext' or tgt.val[1] not in self.repo.classes):
            # an object of a library is something
            out = [(a if isinstance(v, Exc) else a.assume(v, True) or a, v) for a, v in eng.opaque(tgt, args, kwargs, st, ctx, node)]
        return out


def known(v, objs):
    """A value that is what it is: a constant, something given, or one of the two interpreters"""
    return v is not None and (is_c(v) or v[0] == 's' and v[1] == 'v' or v in objs)


class Witnesses:
    def __init__(self, repo, res):
        self.repo, self.res = repo, res

    def run(self, fname, **given):
        fi = next(f for f in self.repo.funcs.values() if f.name == fname and f.fid.startswith('sawitness'))
        cl = Full(self.repo)
        eng, st = start(self.repo, cl, 'SaTop')
        args = {p: given.get(p, S('v', p)) for p in fi.params}
        for v in args.values():
            if v[0] == 's':
                st = st.assume(v, True) or st
                st = st.assume(mk_eq(v, NONE), False) or st
        names = [v for v in args.values() if v[0] == 's'] if fname == 'sa_other_streams' else []
        for i, v in enumerate(names):
            for x in names[:i]:
                st = st.assume(mk_eq(v, x), False) or st
        ends = eng.run_entry(fi, st, None, [], args)
        self.res.absorb(eng)
        self.res.count('witnesses')
        return fi, cl, eng, ends

    def pair(self, fname, **given):
        """The one ordinary end -> (engine, client, state, parent, child) or the failures that leave"""
        fi, cl, eng, ends = self.run(fname, **given)
        good = [(s, v) for s, v in ends if not isinstance(v, Exc)]
        if len(good) != 1 or good[0][1][0] != 't' or len(good[0][1][1]) != 2:
            return fi, cl, eng, ends, None
        s, v = good[0]
        return fi, cl, eng, ends, (s,) + tuple(v[1])

    def attr(self, eng, fi, st, v, name):
        outs = [(s, x) for s, x in eng.get_attr(st, v, name, eng.root_ctx(fi), fi.node) if not isinstance(x, Exc)]
        return outs[0][1] if len(outs) == 1 else None


def constructed(w, res, fname, cls, given={}):
    init = need_method(w.repo, cls, '__init__')
    fi, cl, eng, ends, got = w.pair(fname)
    if got is None:
        bad = [v for s, v in ends if isinstance(v, Exc) and v.kind == ('cls', 'builtins.AttributeError') and not s.guess]
        if bad and not any(not isinstance(v, Exc) for s, v in ends):
            res.violate('constructed', init.where, init.qual, "a %s with a parent cannot be made: AttributeError in line %d" % (cls, bad[0].line))
        else:
            res.count('undecided')
        return
    s, p, c = got
    res.count('pairs')
    for name in SHARED + ('parent', 'prompt'):
        mine = w.attr(eng, fi, s, c, name)
        due = p if name == 'parent' else S('v', 'prompt') if name == 'prompt' else S('v', given[name]) if name in given else w.attr(eng, fi, s, p, name)
        if mine is None or due is None:
            res.count('undecided')
            continue
        res.count('surroundings_compared')
        if mine != due and s.known_eq(mine, due) is not True and (known(mine, (p, c)) or mine[0] in 'rs') and (known(due, (p, c)) or due[0] in 'rs'):
            res.violate('surroundings', init.where, init.qual, "a %s made with a parent has a %s of its own: %s" % (cls, name, show(mine)) if name in SHARED and name not in given else
                        "the %s of a %s is not what was given" % (name, cls))


def compare(w, res, **given):
    enter = need_method(w.repo, 'NessaidCmd', 'enter_context')
    fi, cl, eng, ends, got = w.pair('sa_enter', **given)
    f2, cl2, eng2, ends2, due = w.pair('sa_direct', **given)
    if due is None:
        res.count('undecided')
        return
    if got is None:
        bad = [v for s, v in ends if isinstance(v, Exc) and v.kind in (('cls', 'builtins.AttributeError'), ('cls', 'builtins.TypeError')) and not s.guess]
        if bad and not any(not isinstance(v, Exc) for s, v in ends):
            res.violate('entered', enter.where, enter.qual, "entering a context ends in %s" % bad[0].kind[1].split('.')[-1])
        else:
            res.count('undecided')
        return
    (s, p, c), (s2, p2, c2) = got, due
    if c == NONE or c == p:
        res.violate('entered', enter.where, enter.qual, "the context entered is not the active one")
        return
    if c[0] != 'r' or s.heap[c[1]].kind != 'inst' or s.heap[c[1]].cls != s2.heap[c2[1]].cls:
        res.count('undecided')
        return
    res.count('contexts')
    d, d2, pd, pd2 = s.heap[c[1]].data, s2.heap[c2[1]].data, s.heap[p[1]].data, s2.heap[p2[1]].data
    for a in sorted(set(d) | set(d2)):
        if a.startswith('$'):
            continue
        x, y = d.get(a), d2.get(a)
        if x is None or y is None:
            if known(x if y is None else y, (p, p2)):
                res.violate('settings', enter.where, enter.qual, "%s of the context entered is %s" % (a, 'not set' if x is None else 'set'))
            continue
        if y == pd2.get(a) and y[0] == 's' and a in pd:
            due_v = pd[a]
        elif y == p2:
            due_v = p
        elif known(y, ()):
            due_v = y
        else:
            continue
        res.count('attributes_compared')
        if x != due_v and s.known_eq(x, due_v) is not True and (known(x, (p, c)) or x[0] == 's') and not s.guess:
            res.violate('settings', enter.where, enter.qual, "%s of the context entered is %s instead of %s" % (a, show(x), show(due_v)))
    t, t2 = ([flat(x) for x, q in z.texts] for z in (cl, cl2))
    if t and t2 and not any(m in x for x in t + t2 for m in '?!'):
        res.count('grammars_compared')
        if t[-1] != t2[-1]:
            res.violate('settings', enter.where, enter.qual, "the grammar of the context entered is another than its settings say")


def run(repo, res):
    res.rules = ['constructed: an interpreter can be made with a parent', 'surroundings: it has the parent\'s terminal, loop, streams and script lines',
                 'entered: entering a context makes it the active one', 'settings: the context is what making it directly, with the parent\'s surroundings and the settings asked for, gives',
                 'refused: a context that cannot be made leaves the parent as it is']
    res.explanation = ("All constructors are followed on a witness class with unknown settings: a child made directly with the surroundings of its parent, and one made by entering a context from it. The attributes of the two, and the "
                       "text of their grammars, are compared symbol by symbol; for the constructors the shared parts are compared with the parent's.")
    res.assumptions = ["the witness class stands for every class that keeps the constructor of the package"]
    rp = Repo(repo.root, {'sawitness': WITNESS})
    need_class(rp, 'NessaidCmd')
    enter = need_method(rp, 'NessaidCmd', 'enter_context')
    w = Witnesses(rp, res)
    constructed(w, res, 'sa_pair', 'NessaidCli')
    constructed(w, res, 'sa_cmd_pair', 'NessaidCmd')
    constructed(w, res, 'sa_other_streams', 'NessaidCmd', {'stdin': 'in2', 'stdout': 'out2', 'stderr': 'err2'})
    p, t, f = S('v', 'prompt'), TRUE, FALSE
    for raw, trace, upg, mpg, ddh, base, bell, prefix, deep, prompt in (
            (t, f, t, f, f, f, t, 'do_', f, p), (f, t, f, t, t, t, f, 'run_', f, p), (t, t, t, t, t, t, f, 'do_', t, p), (f, f, f, f, f, f, f, 'do_', t, C('')), (t, f, f, f, t, t, f, 'do_', f, NONE)):
        compare(w, res, raw=raw, trace=trace, upg=upg, mpg=mpg, ddh=ddh, base=base, bell=bell, prefix=C(prefix), nargs=C(7), deep=deep, prompt=prompt)
    fi, cl, eng, ends, got = w.pair('sa_refused')
    if got is None:
        res.count('undecided')
    else:
        s, p, c = got
        res.count('refusals')
        if c == FALSE:
            res.violate('refused', enter.where, enter.qual, "the failure of the constructor is kept back")
        elif c != NONE and (known(c, ()) or c[0] == 'r'):
            res.violate('refused', enter.where, enter.qual, "a context that could not be made is the active one")
    res.need('contexts', 1, 'contexts entered')

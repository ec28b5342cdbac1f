"""C28 built-in commands offered per configuration; C29 each command method's generated grammar and its call."""

import ast
import re

from ..repo import Repo
from ..values import C, S, R, is_c, Exc, TRUE, FALSE, show
from ..cliclient import start, CliClient, need_class
from ..cmdinit import WITNESS, construct, docstring
from ..result import Anchor

BASE = 'NessaidCmd'
KEEPS = {'dedent', 'rstrip', 'strip', 'lstrip', 'str', 'expandtabs'}

BARE = '''
from nessaid_cli.cmd import NessaidCmd


class SaBare(NessaidCmd):
    """grammar without commands"""
    def do_nothing(self, one):
        return one
'''


def flat(t):
    """A text term -> string; docstrings become \\1name\\2, anything not understood \\1?\\2."""
    if is_c(t) and isinstance(t[2], str):
        return t[2]
    if t[0] == 's':
        return '\1%s\2' % (t[2] if t[1] == 'doc' else '?')
    if t[0] == 'o':
        if t[1] == 'cat':
            return ''.join(flat(x) for x in t[2:])
        if t[1] == 'join' and t[2][0] == 'o' and t[2][1] == 'unordered':
            return ' \1!\2 '
        if t[1] in KEEPS and len(t) == 3:
            return flat(t[2])
        if t[1] == 'replace' and len(t) == 5 and is_c(t[3]) and is_c(t[4]) and not str(t[3][2]).strip():
            return flat(t[2])
    return '\1?\2'


TOK = re.compile(r'(\x01[^\x02]*\x02)|("(?:[^"\\]|\\.)*")|(<<|>>)|([$]?[A-Za-z_][A-Za-z0-9_]*)|(\s+)|(.)', re.S)


def lex(text):
    return [m.group(0) for m in TOK.finditer(text) if not m.group(5)]


class Rule:
    def __init__(self, name, params, body):
        self.name, self.params, self.body = name, params, body
        self.known = '\1?\2' not in body
        self.docs = [t[1:-1] for t in body if t[0] == '\1' and t[1] not in '?!']
        # elements outside the code blocks, and the blocks in order
        self.blocks, self.outer, self.order = [], [], []
        depth, cur = 0, None
        for t in body:
            if t == '<<' and cur is None:
                cur = []
            elif t == '>>' and cur is not None:
                self.blocks.append(cur)
                self.order.append(('block', cur, depth))
                cur = None
            elif cur is not None:
                cur.append(t)
            else:
                if t in '({[' and len(t) == 1:
                    depth += 1
                elif t in ')}]' and len(t) == 1:
                    depth -= 1
                else:
                    self.order.append(('elem', t, depth))
                self.outer.append((t, depth))

    @property
    def alternatives(self):
        out = [[]]
        for t, d in self.outer:
            if t == '|' and d == 0:
                out.append([])
            else:
                out[-1].append(t)
        return out

    def assignments(self):
        out = []
        for k, (what, b, d) in enumerate(self.order):
            if what != 'block':
                continue
            i = 0
            while i + 2 < len(b):
                if b[i].startswith('$') and b[i + 1] == '=':
                    j = i + 2
                    while j < len(b) and b[j] != ';':
                        j += 1
                    out.append((k, b[i], b[i + 2:j]))
                    i = j
                i += 1
        return out

    def calls(self):
        out = []
        for k, (what, b, d) in enumerate(self.order):
            if what != 'block':
                continue
            for i, t in enumerate(b):
                if t == 'call' and i + 2 < len(b) and b[i + 2] == '(':
                    args, j, cur, dep = [], i + 3, [], 0
                    while j < len(b):
                        if b[j] == ')' and not dep:
                            break
                        dep += {'(': 1, ')': -1}.get(b[j], 0)
                        if b[j] == ',' and not dep:
                            args.append(cur)
                            cur = []
                        else:
                            cur.append(b[j])
                        j += 1
                    if cur or args:
                        args.append(cur)
                    out.append((k, d, b[i + 1], args))
        return out


def rules(toks):
    """Rules of a grammar text: name [params] : body ;"""
    out, i, n = [], 0, len(toks)
    while i < n:
        j = i + 1
        params = []
        if re.match(r'[A-Za-z_]', toks[i]) and j < n:
            if toks[j] == '[':
                k = j
                while k < n and toks[k] != ']':
                    k += 1
                params = [t for t in toks[j + 1:k] if t != ',']
                j = k + 1
            if j < n and toks[j] == ':':
                body, k, inblock = [], j + 1, False
                while k < n:
                    if toks[k] == '<<':
                        inblock = True
                    elif toks[k] == '>>':
                        inblock = False
                    elif toks[k] == ';' and not inblock:
                        break
                    body.append(toks[k])
                    k += 1
                out.append(Rule(toks[i], params, body))
                i = k + 1
                continue
        i += 1
    return out


class Names(CliClient):
    boundary = frozenset()

    def may_raise(self, eng, st, ctx, tgt, node):
        return []


def hook_of(repo, cls, st, name):
    """Method that a call of this name in the grammar runs: what get_cli_hook makes of it, looked up on the instance."""
    fi = repo.method(cls, 'get_cli_hook')
    if fi is None:
        raise Anchor('get_cli_hook is gone')
    eng, s0 = start(repo, Names(repo), cls)
    # the prefix the constructor stored
    s0 = s0.setobj('self', st.heap['self']) if 'self' in st.heap else s0
    vals = {v for s, v in eng.run_entry(fi, s0, R('self'), [C(name)]) if not isinstance(v, Exc)}
    if len(vals) != 1:
        return None
    v = next(iter(vals))
    return v[2] if is_c(v) and isinstance(v[2], str) else None


def root_name(repo, cls):
    fi = repo.method(cls, 'generate_root_grammar_name')
    eng, s0 = start(repo, Names(repo), cls)
    vals = {v for s, v in eng.run_entry(fi, s0, R('self'), []) if not isinstance(v, Exc)} if fi else set()
    v = next(iter(vals)) if len(vals) == 1 else None
    return v[2] if v is not None and is_c(v) else None


class Found:
    """What one variant of a configuration's grammar shows."""

    def __init__(self, res):
        self.res, self.out = res, []
        self.sample, self.count = res.sample, res.count

    def violate(self, *v):
        self.out.append(v)


class Generated:
    """The grammar a configuration generates, understood or not."""

    def __init__(self, repo, cls, config, res):
        self.repo, self.cls = repo, cls
        eng, cl, texts = construct(repo, cls, config)
        res.absorb(eng)
        res.count('configurations')
        self.variants = []
        for t, st in texts:
            rs = rules(lex(flat(t)))
            if (rs, st) not in self.variants:
                self.variants.append((rs, st))
        if not texts:
            raise Anchor("no grammar text is compiled by the constructor of %s" % cls)

    def agreed(self, res, found):
        """Report what every variant of the configuration shows: variants come from something not understood."""
        keys = [set(f.out) for f in found]
        for k in sorted(set().union(*keys)) if keys else ():
            if all(k in ks for ks in keys):
                res.violate(*k)
            else:
                res.count('undecided')

    def roots(self):
        """(rule list, state, root rule) for each variant; root None when not identified"""
        want = root_name(self.repo, self.cls)
        for rs, st in self.variants:
            named = [r for r in rs if r.name == want] or rs[-1:]
            yield rs, st, (named[0] if len(named) == 1 and named[0].known else None)


def other_settings(init, skip):
    """One configuration per further parameter of the constructor, set to something else than its default."""
    a = init.node.args
    names = [x.arg for x in a.posonlyargs + a.args][1:]
    pairs = list(zip(names[len(names) - len(a.defaults):], a.defaults)) + \
        [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    out = [{}]
    for n, d in pairs:
        if n in skip or not isinstance(d, ast.Constant):
            continue
        v = d.value
        if isinstance(v, bool):
            out.append({n: C(not v)})
        elif v is None:
            out.append({n: S('p', n)})
        elif isinstance(v, int):
            out.append({n: C(v + 2)})
    return out


def command_methods(repo, cls, prefix):
    """name -> FuncInfo of the methods with the prefix and a grammar text"""
    out = {}
    for c in reversed(repo.mro(need_class(repo, cls))):
        ci = repo.classes.get(c)
        if ci is None:
            continue
        for n in list(ci.attrs):
            out.pop(n, None)
        for n, fid in ci.methods.items():
            out[n] = repo.funcs[fid]
    return {n: f for n, f in out.items() if n.startswith(prefix) and docstring(f.node)}


def run_c28(repo, res):
    res.rules = ['builtin-offered-when-disabled', 'builtin-missing', 'tracing-offered-unasked', 'tracing-missing']
    res.explanation = ("The interpreter's constructor is analysed on a witness class for each combination of the settings, with reflection "
                       "resolved over the class table; the built-in commands among the alternatives of the generated root rule are "
                       "compared with those the settings call for.")
    res.assumptions = ["built-in commands are the prefixed, documented methods that NessaidCmd itself defines"]
    repo = Repo(repo.root, {'sawitness': WITNESS})

    builtin = {n: f for n, f in command_methods(repo, BASE, 'do_').items()}
    res.count('builtin_commands', len(builtin))
    trace = {n for n in builtin if 'tracemalloc' in n or 'trace' in n}
    if not trace or len(builtin) < 4:
        raise Anchor("built-in commands of %s not found" % BASE)
    init = repo.method(BASE, '__init__')
    settings = [(c, d, t, {}) for c in ('SaWitness', BASE) for d in (FALSE, TRUE, None) for t in (FALSE, TRUE, None)]
    settings += [('SaWitness', d, t, o) for d in (FALSE, TRUE) for t in (FALSE, TRUE)
                 for o in other_settings(init, ('disable_default_hooks', 'do_tracemalloc')) if o]
    for cls, dis, tr, other in settings:
        config = dict(other)
        if dis is not None:
            config['disable_default_hooks'] = dis
        if tr is not None:
            config['do_tracemalloc'] = tr
        want = set() if dis == TRUE else set(builtin) - trace
        if tr == TRUE:
            want |= trace
        g = Generated(repo, cls, config, res)
        text = 'disable_default_hooks=%s do_tracemalloc=%s' % tuple('default' if x is None else x[2] for x in (dis, tr))
        text += ''.join(' %s=%s' % (k, v[2]) for k, v in sorted(other.items()))
        found = []
        for rs, st, root in g.roots():
            f = Found(res)
            found.append(f)
            if root is None:
                res.count('undecided')
                continue
            by = {r.name: r for r in rs}
            alts = [a[0] for a in root.alternatives if len(a) == 1]
            if len(alts) != len(root.alternatives) or any(a in by and (not by[a].known or len(by[a].docs) != 1) for a in alts):
                res.count('undecided')
                continue
            ids = {by[a].docs[0] for a in alts if a in by}
            got = {n for n, m in builtin.items() if m.fid in ids}
            res.count('grammars_decided')
            res.sample('grammars', '%s %s: %s' % (cls, text, ' '.join(sorted(got)) or 'none'))
            for n in sorted(got - want):
                f.violate('tracing-offered-unasked' if n in trace else 'builtin-offered-when-disabled',
                            init.where, init.qual, "%s is offered with %s" % (n, text))
            for n in sorted(want - got):
                f.violate('tracing-missing' if n in trace else 'builtin-missing',
                            init.where, init.qual, "%s is not offered with %s" % (n, text))
        g.agreed(res, found)
    res.need('grammars_decided', 1, 'generated grammars understood')


def check_command(f, repo, cls, init, st, name, fi, rs, alts):
    """One documented command method against the rules generated."""
    mine = [r for r in rs if fi.fid in r.docs]
    what = '%s.%s' % (cls, name)
    if not mine and not all(r.known for r in rs):
        f.count('undecided')
        return
    if not mine:
        f.violate('command-has-no-rule', init.where, init.qual, "the grammar text of %s is not in the generated grammar" % what)
        return
    reach = [r for r in mine if r.name in alts]
    if len(mine) != 1 or not mine[0].known or mine[0].docs != [fi.fid]:
        if not reach and all(r.known for r in mine):
            f.violate('command-not-an-alternative', init.where, init.qual, "the rule with the grammar text of %s is not an alternative" % what)
        f.count('undecided')
        return
    r = mine[0]
    if r.name not in alts:
        f.violate('command-not-an-alternative', init.where, init.qual, "rule %s for %s is not an alternative of the root rule" % (r.name, what))
        return
    if alts.count(r.name) != 1:
        f.violate('command-not-one-alternative', init.where, init.qual,
                    "rule %s for %s is %d alternatives of the root rule" % (r.name, what, alts.count(r.name)))
    at = [k for k, (w, t, d) in enumerate(r.order) if w == 'elem' and t[0] == '\1'][0]
    if r.order[at][2] == 0:
        f.violate('grammar-text-not-enclosed', init.where, init.qual,
                    "the grammar text of %s is not enclosed: alternatives in it leave out the call" % what)
    if len(r.alternatives) != 1:
        f.count('undecided')
        return
    params = ['$' + p for p in fi.params[1:]]
    calls = r.calls()
    if len(calls) != 1:
        f.violate('called-once', init.where, init.qual, "rule %s for %s makes %d calls" % (r.name, what, len(calls)))
        return
    k, d, target, args = calls[0]
    if k < at:
        f.violate('called-after-the-match', init.where, init.qual, "%s is called before its own input is matched" % what)
    run = hook_of(repo, cls, st, target)
    if run is None:
        f.count('undecided')
    else:
        m = repo.method(cls, run)
        if m is None or m.fid != fi.fid:
            f.violate('calls-the-method', init.where, init.qual,
                        "the rule with the grammar text of %s runs %s" % (what, run))
    got = [' '.join('in no fixed order' if t == '\1!\2' else t for t in a) for a in args]
    if got != params:
        f.violate('arguments-in-declared-order', init.where, init.qual,
                    "%s declared (%s) is called with (%s)" % (what, ', '.join(params), ', '.join(got)))
    inits = {}
    for kk, v, rhs in r.assignments():
        if kk < at:
            inits[v] = rhs
    for p in params:
        if inits.get(p) != ['""']:
            f.violate('parameter-starts-empty', init.where, init.qual,
                        "parameter %s of %s starts as %s" % (p, what, ' '.join(inits[p]) if p in inits else 'nothing'))
    f.count('parameters', len(params))
    f.count('commands_decided')
    f.sample('commands', '%s -> %s -> %s(%s)' % (what, r.name, run, ', '.join(got)))


def run_c29(repo, res):
    res.rules = ['command-has-no-rule', 'command-not-an-alternative', 'command-not-one-alternative', 'alternative-without-command',
                 'grammar-text-not-enclosed', 'called-once', 'called-after-the-match', 'calls-the-method',
                 'arguments-in-declared-order', 'parameter-starts-empty']
    res.explanation = ("The interpreter's constructor is analysed on witness classes (plain and async methods, no to four parameters in "
                       "non-alphabetical order, defaults, attributes and undocumented methods, another prefix) with reflection resolved "
                       "over the class table and grammar texts kept symbolic; the generated text is parsed and each command's rule is compared with its method.")
    res.assumptions = ["the generator treats methods alike apart from name, parameters, and having a grammar text (witness classes)"]
    for mod, cls, extra in ((WITNESS, 'SaWitness', ('do_', 'run_', 'd')), (WITNESS, BASE, ('do_',)), (BARE, 'SaBare', ('do_',))):
        rp = Repo(repo.root, {'sawitness': mod})
        init = rp.method(BASE, '__init__')
        if init is None:
            raise Anchor("no constructor of %s" % BASE)
        settings = [(p, d, {}) for p in extra for d in (TRUE, FALSE)]
        if cls == 'SaWitness':
            settings += [('do_', FALSE, o) for o in other_settings(init, ('disable_default_hooks', 'cli_hook_prefix')) if o]
        for prefix, dis, other in settings:
            config = {'disable_default_hooks': dis, 'do_tracemalloc': FALSE}
            config.update(other)
            if prefix != 'do_':
                config['cli_hook_prefix'] = C(prefix)
            g = Generated(rp, cls, config, res)
            cmds = command_methods(rp, cls, prefix)
            own = {n: m for n, m in cmds.items() if m.cls is not None and m.cls.name != BASE}
            if cls == BASE:
                own = {}
            found = []
            for rs, st, root in g.roots():
                f = Found(res)
                found.append(f)
                if root is None:
                    res.count('undecided')
                    continue
                alts = [a[0] if len(a) == 1 else None for a in root.alternatives]
                if None in alts:
                    res.count('undecided')
                    continue
                by = {r.name: r for r in rs}
                res.count('grammars_decided')
                # the built-ins present are commands like any other
                here = dict(own)
                for n, m in cmds.items():
                    if any(m.fid in r.docs for r in rs):
                        here[n] = m
                for n, m in sorted(here.items()):
                    check_command(f, rp, cls, init, st, n, m, rs, alts)
                docs = {m.fid for m in here.values()}
                for a in alts:
                    r = by.get(a)
                    if r is None:
                        f.violate('alternative-without-command', init.where, init.qual, "alternative %s has no rule" % a)
                    elif here and r.known and not (set(r.docs) & docs):
                        f.violate('alternative-without-command', init.where, init.qual,
                                    "alternative %s is not the grammar text of a command" % a)
            g.agreed(res, found)
    res.need('commands_decided', 1, 'command rules understood')

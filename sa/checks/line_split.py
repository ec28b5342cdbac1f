"""C15: a line is split into tokens without losing, changing or reordering anything, or it is rejected."""

import itertools

from ..values import C, S, O, NONE, is_c, Exc
from ..cliclient import CliClient
from ..drive import Drive
from ..lexers import Lexer, classes
from ..productions import derivations, reduce_tree, start_symbol
from ..result import Anchor
from ..repo import Repo

LETTERS = '0nrtbva"\\'


def documented(line):
    """([(text, quoted, closed)], acceptable to reject?)"""
    out, i, doubt = [], 0, False
    while i < len(line):
        c = line[i]
        if c in ' \t':
            i += 1
        elif c == '"':
            j = i + 1
            while j < len(line) and line[j] != '"':
                if line[j] == '\\':
                    if j + 1 < len(line) and line[j + 1] not in LETTERS:
                        doubt = True
                    j += 1
                elif line[j] < ' ' or line[j] == '\x7f' or line[j].isspace() and line[j] != ' ':
                    doubt = True
                j += 1
            closed = j < len(line)
            j = min(j + 1, len(line))
            out.append((line[i:j], True, closed))
            i = j
        else:
            j = i
            while j < len(line) and line[j] not in ' \t"':
                if line[j] == '\\' or line[j] < ' ' or line[j] == '\x7f' or line[j].isspace():
                    doubt = True
                j += 1
            out.append((line[i:j], False, True))
            i = j
    return out, doubt


class Parsing(CliClient):
    merge_limit = 400
    items_limit = 12
    boundary = frozenset()
    boundary_raises = {}
    failing = None

    def is_opaque(self, eng, st, ctx, tgt):
        return False

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        if self.failing is not None and tgt.kind in ('meth', 'sym') and tgt.name.split('.')[-1] == 'parse':
            return [(st, Exc(('cls', self.failing), S('p', 'error'), getattr(node, 'lineno', 0)))]
        return None


def run(repo, res):
    res.rules = ['tokens: what the rules of the tokenizer make of a line is what is documented', 'rejected: a line of ordinary characters is not rejected',
                 'marks: position, length and the marks for quotes belong to the text', 'order: the grammar actions keep all tokens in order',
                 'whole: a line that cannot be split gives an error, not a part of its tokens']
    res.explanation = ('The lexical rules are read from the source in the order ply tries them; the action of every rule is interpreted with an unknown lexeme. For every line over one '
                       'character of each class that the expressions or the documentation tell apart, up to a bound on its length, the tokens of the rules are compared with the documented '
                       'ones. The grammar actions are interpreted along the derivations of sequences of unknown tokens.')
    res.assumptions = ['ply takes, at a position, the first rule in its order that matches, functions by line first, then strings by decreasing length.']
    lx = Lexer(repo, 'NessaidCliTokenizerLexer')
    rules = lx.rules['INITIAL']
    res.count('rules', len(rules))
    if lx.odd or lx.states or not rules:
        res.count('undecided-rules', len(lx.odd) + len(lx.states))
        raise Anchor('lexical rules not understood: %s' % ', '.join(lx.odd or ['states']))
    drv = Drive(repo, Parsing(repo), rules[0].fi or next(r.fi for r in rules if r.fi))
    where = rules[0].fi.where if rules[0].fi else lx.cls
    extra = [lambda c: c in ' \t', lambda c: c == '"', lambda c: c == '\\', lambda c: c in LETTERS, lambda c: c < ' ', lambda c: c == '-',
             lambda c: c == '#', lambda c: c > '\x7f', lambda c: c.isdigit(), lambda c: c.isalpha(), lambda c: c == '\x7f'] + [lambda c, x=x: c == x for x in ''.join(lx.ignore.values()) + lx.literals]
    reps = classes([r.text for r in rules], extra)
    res.count('character-classes', len(reps))
    cache, told = {}, set()
    act = lx.act

    def cached(rule, text, r):
        k = (rule.name, text)
        if k not in cache:
            cache[k] = act(rule, text, r)
        return cache[k]
    lx.act = cached

    def tell(rule, text, line, fi):
        key = (rule, fi.qual if fi else '')
        if key in told:
            return
        told.add(key)
        drv.eng.report(rule, fi.where if fi else where, fi.qual if fi else lx.cls, text, drv.start())

    few = [c for c in reps if c in ' \t"\\nx!a-']
    n = 4 if res.tier == 'quick' else 5
    lines = itertools.chain((''.join(w) for k in range(n + 1) for w in itertools.product(reps, repeat=k)),
                            (''.join(w) for k in range(n + 1, n + 3) for w in itertools.product(few, repeat=k)))
    err = lx.errorf.get('INITIAL')
    rejecting = error_raises(repo, lx, err, res)
    for line in lines:
        want, doubt = documented(line)
        got, end = lx.scan(line, res)
        res.count('lines')
        if end == 'unsure' or end == 'error' and rejecting is None:
            res.count('undecided')
            continue
        if end == 'error' and rejecting:
            if not doubt:
                tell('rejected', 'the line %r is rejected although it has nothing but words%s' % (line, ' and quoted texts' if '"' in line else ''), line, err)
            continue
        if end == 'error':
            tell('tokens', 'in the line %r a character that no rule takes does not reject the line' % line, line, err)
            continue
        texts = [t[1] for t in got]
        if texts != [w[0] for w in want]:
            if any(t in ([w[0] for w in want]) for t in texts) or True:
                bad = next((t for t, w in itertools.zip_longest(got, want) if t is None or w is None or t[1] != w[0]), None) or (got[-1] if got else None)
                tell('tokens', 'the line %r is split into %r instead of %r' % (line, texts, [w[0] for w in want]), line, bad[4].fi if bad else None)
            continue
        for t, w in zip(got, want):
            for mark, exp in (('quoted', w[1]), ('quote_incomplete', w[1] and not w[2]), ('lexpos', 'at'), ('lexlen', len(w[0]))):
                v = t[2].get(mark, False if isinstance(exp, bool) else None)
                if v is None or isinstance(v, object) and type(v) is object:
                    res.count('undecided-marks')
                elif bool(v) != exp if isinstance(exp, bool) else v != exp:
                    tell('marks', 'the token %s of the line %r has %s %r' % (t[1], line, mark, v), line, t[4].fi)
                else:
                    res.count('marks')
    grammar(repo, res, lx, drv)
    outer(repo, res, drv)
    for r in rules:
        if getattr(r, 'drive', None) is not None:
            res.absorb(r.drive.eng)
    res.absorb(drv.eng)
    res.need('lines', 500, 'lines')


def error_raises(repo, lx, fi, res):
    """True: the error action always raises; False: on some path it definitely does not; None: not known."""
    if fi is None:
        return True      # ply raises
    d = Drive(repo, CliQuiet(repo), fi)
    st = d.start()
    st, tok = lx.token(d, st, 'error')
    st, me = d.eng.alloc(st, d.ctx, d.node(), 'inst', lx.cid, {})
    outs = d.guard(lambda: d.eng.invoke(('b', me, fi.fid), [tok], {}, st.setvar('$script', 'a', tok).setvar('$script', 'b', me), d.ctx, d.node(), run=True))
    res.count('error-paths', len(outs))
    if d.eng.incomplete or not outs or any(s.guess for s, _ in outs):
        return None
    if all(isinstance(v, Exc) for _, v in outs):
        return True
    return False


class CliQuiet(Parsing):
    pass


def grammar(repo, res, lx, drv):
    kinds = sorted({r.kind for r in lx.rules['INITIAL'] if r.kind in lx.tokens})
    cls = 'NessaidCliTokenizer'
    from ..cliclient import need_class
    cid = need_class(repo, cls)
    shapes = [k for n in range(4) for k in itertools.product(kinds, repeat=n)]
    for k in shapes:
        trees = derivations(repo, cls, k)
        if len(trees) != 1:
            if not trees:
                fi = repo.method(cls, 'parse')
                drv.eng.report('order', fi.where if fi else cls, cls, 'the grammar of lines has no derivation for the tokens %s' % (' '.join(k) or '(none)'), drv.start())
                return
            res.count('undecided-derivations')
            continue
        st = drv.start()
        vals = [S('p', 'tok', i) for i in range(len(k))]
        for v in vals:
            st = st.setfact(O('truth', v), True)
            from ..state import mk_eq
            st = st.assume(mk_eq(v, NONE), False) or st
        st, me = drv.eng.alloc(st, drv.ctx, drv.node(), 'inst', cid, {})
        st = st.setvar('$script', 'me', me)
        for s, v in reduce_tree(drv, st, me, trees[0], vals):
            res.count('derivations')
            if s.guess:
                res.count('undecided-derivations')
                continue
            if isinstance(v, Exc):
                drv.eng.report('order', trees[0][0].where, cls, 'the actions for the tokens %s end with an exception' % ' '.join(k), s)
                return
            got = listed(s, v)
            if got is None:
                res.count('undecided-derivations')
            elif got != vals:
                fi = trees[0][0]
                drv.eng.report('order', fi.where, fi.qual, 'of the tokens %s the actions keep %s' % (
                    ', '.join('%d %s' % (i + 1, x) for i, x in enumerate(k)), ', '.join(str(vals.index(g) + 1) if g in vals else '?' for g in got) or 'nothing'), s)
                return


def listed(s, v):
    if v[0] != 'r' or v[1] not in s.heap or s.heap[v[1]].kind != 'list':
        return [] if v == NONE else None
    out = []
    for g in s.heap[v[1]].data[0]:
        if g[0] != 'I':
            return None
        out.append(g[1])
    return out


def outer(repo, res, drv):
    """An illegal character met while parsing must come out as an exception."""
    fi = repo.method('NessaidCliTokenizer', 'parse')
    if fi is None:
        raise Anchor('NessaidCliTokenizer.parse not found')
    err = next((c for c, ci in repo.classes.items() if ci.name == 'TokenizerIllegalCharError'), None)
    if err is None:
        res.count('undecided-outer')
        return
    cl = Parsing(repo)
    cl.failing = err
    d = Drive(repo, cl, fi)
    st = d.start()
    from ..cliclient import need_class
    st, me = d.eng.alloc(st, d.ctx, d.node(), 'inst', need_class(repo, 'NessaidCliTokenizer'), {'_lexer': S('p', 'lexer'), '_parser': S('p', 'parser')})
    st = st.setvar('$script', 'me', me)
    for s, v in d.guard(lambda: d.eng.invoke(('b', me, fi.fid), [S('p', 'line')], {}, st, d.ctx, d.node(), run=True)):
        res.count('ends-of-parse')
        if s.guess or isinstance(v, Exc):
            continue
        if v == NONE or v[0] in ('r', 't', 'c'):
            o = s.heap.get(v[1]) if v[0] == 'r' else None
            if o is not None and o.kind not in ('list', 'set', 'dict'):
                continue
            d.eng.report('whole', fi.where, fi.qual, 'a line with an illegal character is answered with a value instead of an error', s)
    res.absorb(d.eng)

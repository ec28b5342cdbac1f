"""C14: caches answer only equal requests, hold only computed results, and are emptied when they grow."""

import ast
import itertools

from ..values import C, S, O, R, T, NONE, TRUE, FALSE, is_c, Exc, ANY_EXC, show, mentions
from ..cliclient import CliClient, start, need_method
from ..state import Obj
from ..result import Anchor
from . import token_calls as tc

TEXT = S('p', 'cli_string')
CACHEABLE = O('attr', tc.TOKEN, 'cacheable')
LOSSY = {'lower', 'upper', 'casefold', 'strip', 'lstrip', 'rstrip', 'len', 'split', 'item', 'slice', 'hash', 'type', 'truth', 'bool', 'replace',
         'removeprefix', 'removesuffix', 'title', 'capitalize', 'swapcase', 'partition', 'sorted', 'set', 'startswith', 'endswith', 'not', 'int',
         'expandtabs', 'splitlines', 'translate', 'getitem', 'ord'}
LOSSY_TOKEN = {'attr', 'type', 'str', 'repr', 'len', 'truth', 'bool', 'not'}


def images(v, x, lossy, out):
    """Collects how x enters v: itself, or through a mapping that forgets part of it."""
    if v == x:
        out.add(x)
    elif isinstance(v, tuple):
        if v[:1] == ('o',) and v[1] in lossy and mentions(v, x) and not (v[1] == 'str' and lossy is LOSSY):
            out.add(v)
            return
        for e in v:
            if isinstance(e, (tuple, frozenset)):
                images(e, x, lossy, out)
    elif isinstance(v, frozenset):
        for e in v:
            images(e, x, lossy, out)


def keeps(v, x, lossy):
    """Does the key v determine x?  True, False, or None when not known."""
    if v == x:
        return True
    if not mentions(v, x):
        return None if unknown(v) else False
    if v[0] == 't':
        r = [keeps(e, x, lossy) for e in v[1]]
        if True in r:
            return True
    out = set()
    images(v, x, lossy, out)
    return False if len(out) == 1 and x not in out and not unknown(v) else None


def unknown(v):
    if isinstance(v, tuple):
        if v[:1] == ('s',):
            return v[1] not in ('p', 'init', 'glob')
        if v[:1] == ('r',):
            return True
        return any(unknown(e) for e in v if isinstance(e, tuple))
    return isinstance(v, frozenset)


class CacheClient(tc.Wrapper):
    """Records what happens to containers held by the interpreter."""
    def __init__(self, repo, routine, is_async):
        super().__init__(repo, routine, is_async)
        self.reads = []
        self.writes = []

    def bad_key(self, eng, st, ctx, key, node, how):
        key = st.eqc(key) or key
        for x, lossy, what in ((tc.TOKEN, LOSSY_TOKEN, 'token'), (tc.INPUT, LOSSY, 'input')):
            if keeps(key, x, lossy) is False:
                eng.report('key-identifies-request', eng.loc(ctx, node), ctx.fi.qual,
                           "the key %s of a remembered token value does not determine the %s" % (show(key), what), st)
        if st.known_truth(CACHEABLE) is not True:
            eng.report('only-cacheable', eng.loc(ctx, node), ctx.fi.qual, "a value is %s for a token that may not allow it" % how, st)

    @staticmethod
    def is_cache(obj):
        return obj[0] == 's' and obj[1] == 'init' and obj[2] == 'self'

    def on_setitem(self, eng, st, ctx, obj, key, val, node):
        if self.is_cache(obj):
            self.writes.append(obj[3])
            self.bad_key(eng, st, ctx, key, node, 'remembered')
            if st.mon[1][1] == TRUE:
                eng.report('only-computed', eng.loc(ctx, node), ctx.fi.qual, "something is remembered although the token's routine failed", st)
            elif val != tc.RES and (tc.definite(st, val) or val[0] == 'o' and val[1] in ('str', 'not', 'truth')):
                eng.report('only-computed', eng.loc(ctx, node), ctx.fi.qual, "%s is remembered, not the value of the token" % show(val), st)
        return st

    def on_getitem(self, eng, st, ctx, obj, key, node):
        if self.is_cache(obj):
            self.reads.append(obj[3])
            self.bad_key(eng, st, ctx, key, node, 'taken from the cache')
        return None

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        if tgt.kind == 'meth' and self.is_cache(tgt.recv) and tgt.name in ('get', 'pop', 'setdefault') and args:
            self.on_getitem(eng, st, ctx, tgt.recv, args[0], node)
            if tgt.name == 'setdefault' and len(args) > 1:
                self.on_setitem(eng, st, ctx, tgt.recv, args[0], args[1], node)
        return super().on_call(eng, st, ctx, tgt, args, kwargs, node)


def token_cache(repo, res):
    used = set()
    for fi, cl, eng, outs, is_async in tc.runs(repo, res, 'CliInterface', 'get_token_value', 'get_value', CacheClient):
        for s, v in outs:
            res.count('exits')
        res.count('cache_reads', len(cl.reads))
        res.count('cache_writes', len(cl.writes))
        used |= set(cl.writes) & set(cl.reads)
        res.absorb(eng)
    return used


# -- converted strings --------------------------------------------------------
class StringClient(CliClient):
    merge_limit = 120

    def __init__(self, repo):
        super().__init__(repo)
        self.writes = []
        self.reads = []

    def on_setitem(self, eng, st, ctx, obj, key, val, node):
        if CacheClient.is_cache(obj):
            self.writes.append((obj[3], key, val, st, eng.loc(ctx, node), ctx.fi.qual))
        return st

    def on_getitem(self, eng, st, ctx, obj, key, node):
        if CacheClient.is_cache(obj):
            self.reads.append((obj[3], key, st, eng.loc(ctx, node), ctx.fi.qual))
        return None


def deep(st, v, fuel=6):
    """The value without names of places: what it is made of."""
    if not isinstance(v, tuple):
        return v
    if fuel == 0:
        return '...'
    if v[:1] == ('s',):
        return ('s', '@', v[2]) if v[1] == '@' else v
    if v[:1] == ('r',) and v[1] in st.heap:
        o = st.heap[v[1]]
        if o.kind in ('list', 'set'):
            return ('list', tuple(deep(st, e, fuel - 1) for e in o.data) if isinstance(o.data, tuple) else '?')
        return ('r', o.kind, o.cls)
    if v[:1] == ('c',):
        return v
    return tuple(deep(st, e, fuel - 1) if isinstance(e, tuple) else e for e in v)


def resolve(st, key):
    """The key with what is known on the path put in."""
    if not isinstance(key, tuple) or key[:1] == ('c',):
        return key
    if key[:1] in (('s',), ('o',)):
        e = st.eqc(key)
        if e is not None:
            return e
        if key[0] == 'o':
            t = st.known_truth(key) if key[1] in ('truth', 'not', 'startswith', 'endswith', 'in', '==') else None
            if t is not None:
                return C(t)
            return ('o', key[1]) + tuple(resolve(st, e) if isinstance(e, tuple) else e for e in key[2:])
        return key
    if key[:1] == ('t',):
        return T(tuple(resolve(st, e) for e in key[1]))
    return key


def holds_cache(v):
    if isinstance(v, tuple):
        return CacheClient.is_cache(v) if v[:2] == ('s', 'init') else any(holds_cache(e) for e in v if isinstance(e, (tuple, frozenset)))
    return isinstance(v, frozenset) and any(holds_cache(e) for e in v)


def clash(a, b):
    """Do two paths make different assumptions about the text?"""
    for k, t in a.facts.items():
        if mentions(k, TEXT) and not holds_cache(k) and b.facts.get(k, t) != t:
            return True
    return False


ATTRS = ('quoted', 'quote_incomplete')


def attributes(repo, fi):
    names = set(ATTRS)
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('getattr', 'hasattr') and len(n.args) > 1 and \
                isinstance(n.args[1], ast.Constant) and isinstance(n.args[1].value, str):
            names.add(n.args[1].value)
    return sorted(n for n in names if not hasattr(str, n))[:4]


def string_cache(repo, res):
    fi = repo.func('utils', 'convert_to_python_string')
    if fi is None:
        raise Anchor("convert_to_python_string not found")
    names = attributes(repo, fi)
    cases = []
    used = set()
    for vals in itertools.product((TRUE, FALSE), repeat=len(names)):
        cl = StringClient(repo)
        eng, st = start(repo, cl, 'CliInterface')
        st = st.setobj(('ov', TEXT), Obj('inst', None, dict(zip(names, vals))))
        outs = eng.run_entry(fi, st, None, [TEXT, R('self')], {})
        done = []
        for s, v in outs:
            res.count('exits')
            if isinstance(v, Exc) or v[0] == 'o' and v[1] in ('item', 'get') and CacheClient.is_cache(v[2]):
                continue
            done.append((s, v))
        cases.append((vals, cl, done, eng))
        used |= {w[0] for w in cl.writes}
        res.count('cache_reads', len(cl.reads))
        res.count('cache_writes', len(cl.writes))
    for vals, cl, done, eng in cases:
        for cache, key, st, loc, qual in [(w[0], w[1], w[3], w[4], w[5]) for w in cl.writes] + cl.reads:
            res.count('keys_judged')
            if keeps(resolve(st, key), TEXT, LOSSY) is False:
                eng.report('key-identifies-request', loc, qual, "the key %s of a converted text does not determine the text" % show(resolve(st, key)), st)
        for (cache, rkey, rst, loc, qual), (_, ocl, _, _) in itertools.product(cl.reads, cases):
            if ocl is cl:
                continue
            for wc, wkey, wval, wst, wloc, _q in ocl.writes:
                if wc != cache:
                    continue
                wk = resolve(wst, wkey)
                same = [(ps, pv) for ps, pv in done if not clash(ps, wst) and resolve(ps, rkey) == wk and not unknown(wk)]
                if not same:
                    continue
                res.count('pairs_compared')
                if deep(wst, wval) not in [deep(ps, pv) for ps, pv in same]:
                    how = ', '.join('%s=%s' % (n, show(v)) for n, v in zip(names, vals))
                    eng.report('same-reading', loc, qual, "the key %s does not tell apart texts that are read differently (%s)" % (show(wk), how), wst)
        res.absorb(eng)
    return used


# -- bounds -------------------------------------------------------------------
def empties(repo, used):
    """method -> caches it empties, directly or through its own calls"""
    cid = repo.cls('CliInterface')
    ms = {n: repo.funcs[f] for n, f in repo.classes[cid].methods.items() if n != '__init__'}
    out = {n: set() for n in ms}
    for n, fi in ms.items():
        me = fi.params[0] if fi.params else None
        for x in ast.walk(fi.node):
            tgt = None
            if isinstance(x, ast.Assign):
                tgt = [t for t in x.targets if isinstance(t, ast.Attribute)]
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('clear', 'popitem') and isinstance(x.func.value, ast.Attribute):
                tgt = [x.func.value]
            for t in tgt or ():
                if isinstance(t.value, ast.Name) and t.value.id == me and t.attr in used:
                    out[n].add(t.attr)
    direct = {n for n in out if out[n]}
    again = True
    while again:
        again = False
        for n, fi in ms.items():
            if n == 'match':
                continue
            for x in ast.walk(fi.node):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == (fi.params or [None])[0] and \
                        x.attr in out and not out[x.attr] <= out[n]:
                    out[n] |= out[x.attr]
                    again = True
    return {n: c for n, c in out.items() if c}, direct


class Clear(CliClient):
    """Emptying routines: is a cache larger than its limit replaced?"""
    merge_limit = 64

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        if tgt.kind == 'meth' and tgt.name in ('clear', 'popitem') and CacheClient.is_cache(tgt.recv):
            return [(st.setfact(O('emptied', tgt.recv), True), NONE)]
        return None


def bounded_above(st, cache):
    """Is the number of entries known to be at most something on this path?"""
    n = O('len', cache)
    for a, t in st.facts.items():
        if a[0] != 'o' or not mentions(a, n):
            continue
        if a[1] in ('<', '<=', '>', '>=') and len(a) == 4:
            left, right = a[2], a[3]
            if a[1] in ('>', '>='):
                left, right = right, left
            # left < right
            if left == n and t is True or right == n and t is False:
                return True
            if left != n and right != n:
                return True         # an expression of the length: not judged
        elif a[1] == '==' and t is True:
            return True
        elif a[1] in ('truth', 'not'):
            continue
    if st.facts.get(O('truth', cache)) is False or st.facts.get(n) is False:
        return True
    return False


def clearing(repo, res, used, makers, direct):
    for cache in sorted(used):
        own = [n for n in makers if cache in makers[n]]
        if not own:
            fi = need_method(repo, 'CliInterface', '__init__')
            res.violate('emptied-over-limit', fi.where, fi.qual, "nothing empties %s" % cache)
            continue
        sym = S('init', 'self', cache)
        good = 0
        last = None
        for n in sorted(own):
            fi = repo.method('CliInterface', n)
            cl = Clear(repo)
            eng, st = start(repo, cl, 'CliInterface')
            if len(fi.params) > 1:
                continue
            bad = False
            for s, v in eng.run_entry(fi, st, R('self'), [], {}):
                res.count('exits')
                if isinstance(v, Exc):
                    continue
                now = s.heap['self'].data.get(cache, sym)
                if now != sym:
                    if tc.empty(s, now) is False or now[0] == 'r' and s.heap[now[1]].kind == 'dict' and s.heap[now[1]].data[0]:
                        bad = True
                        last = (eng, fi, s, "%s is replaced by something that is not empty")
                    continue
                if s.facts.get(O('emptied', sym)) or bounded_above(s, sym):
                    continue
                bad = True
                last = (eng, fi, s, "%s is kept whatever its size")
            if bad and n in direct:
                last[0].report('emptied-over-limit', last[1].where, last[1].qual, last[3] % cache, last[2])
                res.absorb(last[0])
            elif not bad:
                good += 1
        res.count('emptying_routines', good)


class Leave(CliClient):
    """The match driver: have the caches been seen to when it returns?"""
    merge_limit = 12
    loop_join = True
    unify = True

    def __init__(self, repo, makers):
        super().__init__(repo)
        self.makers = makers
        self.boundary = frozenset([('CliInterface', n) for n in ('match_token', 'complete_token', 'get_token_value', 'check_orderless_set_elements',
                                                                 'execute_success_sequence', 'get_token')] + [('ParsingResult', 'set_next_tokens')])

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        if tgt.kind != 'func' or tgt.fi is None or tgt.fi.cls is None or tgt.fi.cls.name != 'CliInterface':
            return None
        used, seen = st.mon
        n = tgt.fi.name
        if n in ('get_token_value', 'execute_success_sequence'):
            return [(a.setmon((True, seen)), v) for a, v in eng.opaque(tgt, args, kwargs, st, ctx, node)]
        if n in self.makers and not args:
            return [(st.setmon((used, seen | frozenset(self.makers[n]))), NONE)]
        return None


def leaving(repo, res, used, makers):
    fi = need_method(repo, 'CliInterface', 'match')
    calls = {}
    for f in repo.funcs.values():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and x.attr in makers and f.name not in makers:
                calls.setdefault(f.name, set()).update(makers[x.attr])
    res.count('emptying_call_sites', len(calls))
    for cache in sorted(used):
        if not any(cache in c for c in calls.values()):
            res.violate('emptied-after-match', fi.where, fi.qual, "%s is never emptied" % cache)
    cl = Leave(repo, makers)
    eng, st = start(repo, cl, 'CliInterface')
    st = st.setmon((False, frozenset()))
    outs = eng.run_entry(fi, st, R('self'), [S('p', 'tok_list')], {'dry_run': S('p', 'dry'), 'last_token_complete': S('p', 'ltc'), 'arglist': S('p', 'args')})
    outs = [(s, v) for s, v in outs if not isinstance(v, Exc)]
    here = set().union(*[s.mon[1] for s, v in outs]) if outs else set()
    for s, v in outs:
        res.count('exits')
        if s.mon[0]:
            left = (used & here) - s.mon[1]
            if left:
                eng.report('emptied-after-match', fi.where, fi.qual, "an exit of match does not see to %s" % ', '.join(sorted(left)), s)
            else:
                res.count('exits_decided')
    res.absorb(eng)


def run(repo, res):
    res.rules = ['key-identifies-request', 'only-cacheable', 'only-computed', 'same-reading', 'emptied-over-limit', 'emptied-after-match']
    res.explanation = ("All paths of the token value wrapper and of the string conversion (once for every combination of the ways a text can be read): what is read from and written "
                       "to the interpreter's caches under which key; all paths of the emptying routines; all exits of the match driver.")
    res.assumptions = ["token objects are compared by identity"]
    used = token_cache(repo, res)
    used |= string_cache(repo, res)
    res.need('cache_writes', 2, 'writes of the caches')
    res.need('cache_reads', 2, 'reads of the caches')
    res.count('caches', len(used))
    makers, direct = empties(repo, used)
    clearing(repo, res, used, makers, direct)
    leaving(repo, res, used, makers)
    res.need('emptying_routines', 1, 'routines that empty the caches')

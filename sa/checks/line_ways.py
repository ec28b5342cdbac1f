"""C44: a line is matched word by word along every way the grammar offers, and along no other."""

import itertools

from ..repo import Repo
from ..values import C, S, O, R, T, NONE, TRUE, FALSE, is_c, Exc
from ..lexers import TokenClient
from ..cliclient import need_class, need_method, const
from ..drive import Drive
from ..state import mk_eq
from ..result import Anchor

CLI = 'CliInterface'
WITNESS = '''
class SaPlace:
    """a place of the grammar: a word that may come, and what may follow it"""
    constant = False
    helpstring = None

    def next(self):
        return list(self.following)


class SaTokenOf:
    pass


class SaTree:
    def first(self):
        return list(self.firsts)
'''
# what a word is for a token
FULL, NOT, ONLY, SOME, OPEN, EMPTY, TOO_MANY, STUCK = ('full', 'no', 'only completion', 'unfinished', 'unfinished, no value', 'full, no value', 'many completions',
                                                               'unfinished, no completion')
STEPS = ('get_token', 'match_token', 'complete_token', 'get_token_value', 'set_next_tokens', 'execute_success_sequence', 'fix_sequences',
         'check_orderless_set_elements')

FAILS = ('builtins.AssertionError', 'builtins.IndexError', 'builtins.KeyError')
# grammars: what may come first, and after each place; 0 is the end of the line
GRAPHS = [
    ('ab', {'a': 'c0', 'b': 'd', 'c': '0', 'd': 'a0'}),
    ('ab', {'a': 'cd', 'b': 'c', 'c': '0', 'd': 'b0'}),
    ('abc', {'a': '0', 'b': 'a0', 'c': 'b'}),
    ('a', {'a': 'ab', 'b': 'ba0'}),
    ('abc', {'a': 'a0', 'b': 'b0', 'c': 'bc0'}),
]


class Ways(TokenClient):
    merge_limit = 60
    unroll = 12
    distinct = 40
    recursion = 8
    table = {}
    names = {}

    def init_attr(self, eng, st, oid, cls, name):
        f = getattr(super(), 'init_attr', None)
        return f(eng, st, oid, cls, name) if f else None

    def name_of(self, st, v):
        v = st.eqc(v) or v
        if is_c(v):
            return v[2]
        o = st.heap.get(v[1]) if v[0] == 'r' else None
        n = o.data.get('name') if o is not None and o.kind == 'inst' else None
        return n[2] if n is not None and is_c(n) else None

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        last = tgt.name.split('.')[-1] if tgt.name else ''
        if last in STEPS and tgt.kind in ('func', 'meth', 'sym'):
            return self.step(eng, st, ctx, last, tgt, list(args), kwargs, node)
        if last in ('clear_caches', 'error', 'print') and tgt.kind in ('func', 'meth', 'sym'):
            return [(st, NONE)]
        if tgt.name == 'asyncio.iscoroutinefunction':
            return [(st, FALSE)]
        return super().on_call(eng, st, ctx, tgt, args, kwargs, node)

    def arg(self, tgt, args, kwargs, i, *names):
        for n in names:
            if n in kwargs:
                return kwargs[n]
        return args[i] if i < len(args) else None

    def step(self, eng, st, ctx, last, tgt, args, kwargs, node):
        if last == 'get_token':
            n = self.name_of(st, args[0] if args else kwargs.get('name', NONE))
            return [(st, R(('token', n)))] if ('token', n) in st.heap else None
        if last == 'check_orderless_set_elements':
            return [(st, FALSE)]
        if last == 'fix_sequences':
            return [(st, args[0])] if args else None
        if last == 'execute_success_sequence':
            ways = self.sequence(st, args[0]) if args else None
            vals = self.items(st, args[1]) if len(args) > 1 else None
            st = self.log(st, ('run', ways, None if vals is None else tuple(vals)))
            st, r = eng.new_list(st, ctx, node, [])
            return [(st, r)]
        if last == 'set_next_tokens':
            w = args[1] if len(args) > 1 else None
            t = self.items(st, args[2]) if len(args) > 2 else None
            got = None if t is None else tuple(sorted((self.name_of(st, x) or ('0' if x == self.end else '?')) for x in t))
            return [(self.log(st, ('offer', got, None if w is None else self.name_of(st, w) if w != NONE else '')), NONE)]
        tok = self.name_of(st, args[0]) if args else None
        w = self.name_of(st, args[1]) if len(args) > 1 else None
        k = self.table.get((tok, w))
        if k is None:
            return [(st.copy_guess() if hasattr(st, 'copy_guess') else st, S('p', 'unknown word'))]
        if last == 'match_token':
            return [(st, C({FULL: self.codes[0], EMPTY: self.codes[0], NOT: self.codes[2]}.get(k, self.codes[1])))]
        if last == 'get_token_value':
            return [(st, S('p', 'value', tok, w) if k in (FULL, ONLY, SOME) else self.null)]
        n = {ONLY: 1, TOO_MANY: 2}.get(k, 0)
        st, l = eng.new_list(st, ctx, node, [C('%s%d' % (tok, i)) for i in range(n)])
        return [(st, T((C(n), l)))]

    def items(self, st, v):
        v = st.eqc(v) or v
        if v[0] == 't':
            return list(v[1])
        o = st.heap.get(v[1]) if v[0] == 'r' else None
        if o is None or o.kind not in ('list', 'set'):
            return None
        segs = o.data[0]
        if any(s[0] != 'I' for s in segs):
            return None
        return [st.eqc(s[1]) or s[1] for s in segs]

    def sequence(self, st, v):
        l = self.items(st, v)
        return None if l is None else tuple(self.name_of(st, x) for x in l)

    def log(self, st, what):
        m = st.mon[1] if st.mon is not None else ()
        return st.setmon(T(m + (S('log', what),)))


class Check:
    def __init__(self, repo, res):
        self.repo, self.res = repo, res
        self.cl = Ways(repo)
        self.fi = need_method(repo, CLI, 'match')
        self.d = Drive(repo, self.cl, self.fi)
        self.cl.codes = [const(repo, 'tokens', n)[2] for n in ('MATCH_SUCCESS', 'MATCH_PARTIAL', 'MATCH_FAILURE')]
        g = self.d.eng.global_value
        self.cl.end = g(self.fi.module, 'EndOfInpuToken')
        self.cl.null = g(self.fi.module, 'NullTokenValue')
        self.result = {'success': const(repo, 'interface', 'MATCH_SUCCESS'), 'partial': const(repo, 'interface', 'MATCH_PARTIAL'),
                       'failure': const(repo, 'interface', 'MATCH_FAILURE'), 'ambiguous': const(repo, 'interface', 'MATCH_AMBIGUOUS')}
        self.found = {}

    def make(self, graph, words):
        d, cl = self.d, self.cl
        st = d.start()
        firsts, after = graph
        place, tok, tree = (need_class(self.repo, n) for n in ('SaPlace', 'SaTokenOf', 'SaTree'))
        from ..state import Obj

        def ref(x):
            return cl.end if x == '0' else R(('place', x))

        for n in sorted(after):
            st, l = d.eng.new_list(st, d.ctx, d.node(), [ref(x) for x in after[n]])
            st = st.setobj(('place', n), Obj('inst', place, {'name': C(n), 'following': l, 'constant': FALSE, 'helpstring': NONE}))
            kinds = {cl.table.get((n, w)) for w in words}
            st = st.setobj(('token', n), Obj('inst', tok, {'name': C(n), 'completable': TRUE if cl.completable[n] else FALSE, 'helpstring': NONE, 'constant': FALSE}))
        st, l = d.eng.new_list(st, d.ctx, d.node(), [ref(x) for x in firsts])
        st = st.setobj('tree', Obj('inst', tree, {'firsts': l}))
        st = st.setobj('cli', Obj('inst', need_class(self.repo, CLI), {'_parse_tree': R('tree'), '_matched_values': NONE, '_executing': FALSE}))
        st = st.assume(cl.end, False) or st
        for n in after:
            st = st.assume(mk_eq(R(('place', n)), cl.end), False) or st
            for w in words:
                v = S('p', 'value', n, w)
                st = st.assume(mk_eq(v, cl.null), False) or st
                st = st.assume(O('is', v, cl.null), False) or st
        for x, y in ((cl.end, cl.null), (cl.end, NONE), (cl.null, NONE)):
            st = st.assume(mk_eq(x, y), False) or st
            st = st.assume(O('is', x, y), False) or st
        st, l = d.eng.new_list(st, d.ctx, d.node(), [C(w) for w in words])
        for n in after:
            st = st.setvar('$script', 'token ' + n, R(('token', n))).setvar('$script', 'place ' + n, R(('place', n)))
        return st.setvar('$script', 'line', l).setvar('$script', 'cli', R('cli')), l

    def due(self, graph, words, dry, complete):
        """-> (result, offered, what was asked, ways executed, index of the word nobody takes)"""
        firsts, after = graph
        ways = [()]
        for i, w in enumerate(words):
            loose = dry and not complete and i == len(words) - 1
            new = []
            for way in ways:
                for c in (after[way[-1]] if way else firsts):
                    k = self.cl.table.get((c, w)) if c != '0' else NOT
                    if k in (FULL, ONLY, SOME) or loose and k in (OPEN, TOO_MANY, STUCK):
                        new.append(way + (c,))
            if not new:
                return 'failure', None, None, None, i
            ways = new
        if not words:
            return 'partial', tuple(sorted(firsts)), '', None, None
        ends = [w for w in ways if '0' in after[w[-1]]]
        if dry and not complete:
            return 'taken', tuple(sorted({w[-1] for w in ways})), words[-1], None, None
        offered = tuple(sorted({x for w in ways for x in after[w[-1]]}))
        if dry:
            return 'taken', offered, '', None, None
        return ('success' if len(ends) == 1 else 'ambiguous' if ends else 'partial'), None, None, ends, None

    def one(self, graph, words, table, dry, complete):
        cl, res, d = self.cl, self.res, self.d
        cl.table = table
        cl.completable = {n: any(k in (ONLY, TOO_MANY, STUCK) for (m, w), k in table.items() if m == n) for n in graph[1]}
        want = self.due(graph, words, dry, complete)
        if d.eng.steps > 300000:
            res.absorb(d.eng)
            d = self.d = Drive(self.repo, cl, self.fi)
        st, line = self.make(graph, words)
        outs = d.call(st, R('cli'), 'match', line, dry_run=TRUE if dry else FALSE, last_token_complete=TRUE if complete else FALSE)
        res.count('lines_matched')
        bad = []
        if not outs:
            res.count('undecided')
            return
        for s, v in outs:
            if isinstance(v, Exc) and not s.guess and v.kind[0] == 'cls' and v.kind[1] in FAILS:
                bad.append(('fails', "matching ends with %s" % v.kind[1].split('.')[-1]))
                continue
            if s.guess or isinstance(v, Exc):
                res.count('undecided')
                return
            bad.append(self.compare(s, v, want, graph, words, dry))
        if None in bad:
            res.count('undecided')
            return
        res.count('lines_decided')
        if all(bad):
            self.found.setdefault(bad[0][0], [0, self.tell(graph, words, table, dry, complete) + ': ' + bad[0][1]])[0] += 1

    def compare(self, s, v, want, graph, words, dry):
        """-> (rule, message), '' when right, None when not understood"""
        result, offered, asked, ways, index = want
        o = s.heap.get(v[1]) if v[0] == 'r' else None
        got = o.data.get('result') if o is not None and o.kind == 'inst' else None
        got = got if got is None else s.eqc(got) or got
        name = next((k for k, c in self.result.items() if c == got), None)
        if name is None:
            return None
        if result == 'taken':
            if name in ('failure', 'success'):
                return 'result', "the trial ends with %s" % name
        elif name != result and not (dry and name == 'partial' and result != 'failure'):
            return 'result', "the result is %s, must be %s" % (name, result)
        log = [x[2] for x in s.mon[1]] if s.mon is not None else []
        runs = [x for x in log if x[0] == 'run']
        if index is not None:
            at = s.eqc(o.data['offending_token_position']) or o.data['offending_token_position']
            what = s.eqc(o.data['offending_token']) or o.data['offending_token']
            if is_c(at) and at[2] is not None and at != C(index) or is_c(what) and what != C(words[index]):
                return 'offending', "the word that does not fit is %s (word %d), given is %s (word %s)" % (
                    words[index], index + 1, self.cl.name_of(s, what), at[2] + 1 if is_c(at) and isinstance(at[2], int) else at[2])
            return ''
        if runs and (dry or result != 'success'):
            return 'executed', "a way is executed"
        if offered is not None:
            offers = [x for x in log if x[0] == 'offer']
            if not offers:
                return 'offered', "nothing is offered, must be %s" % said(offered)
            if offers[-1][1] is None or '?' in offers[-1][1]:
                return None
            if set(offers[-1][1]) != set(offered):
                return 'offered', "offered is %s, must be %s" % (said(offers[-1][1]), said(offered))
            if (offers[-1][2] or '') != asked:
                return 'offered-for', "the completions are those of '%s', must be of '%s'" % (offers[-1][2], asked)
        if result == 'success':
            if len(runs) != 1:
                return 'executed', "%d ways are executed" % len(runs)
            if runs[0][1] is None or runs[0][2] is None:
                return None
            if runs[0][1] != ways[0]:
                return 'executed', "executed is the way %s, must be %s" % (said(runs[0][1]), said(ways[0]))
            if runs[0][2] != tuple(S('p', 'value', n, w) for n, w in zip(ways[0], words)):
                return 'values', "the way is executed with other values than those of its words"
            vals = self.cl.items(s, o.data['matched_values'])
            if vals is not None and tuple(vals) != runs[0][2]:
                return 'values', "the response carries other values than those of the words"
        return ''

    def tell(self, graph, words, table, dry, complete):
        firsts, after = graph
        g = 'first %s; ' % said(firsts) + '; '.join('after %s %s' % (n, said(after[n])) for n in sorted(after))
        t = ', '.join('%s for %s: %s' % (w, n, k) for (n, w), k in sorted(table.items()) if k != NOT)
        return "grammar (%s), line '%s'%s, %s [%s]" % (g, ' '.join(words), '' if complete else ' (last word unfinished)', 'trial' if dry else 'executed', t)


def said(names):
    return ', '.join('the end' if x == '0' else str(x) for x in names) or 'nothing'


def lines(graph, tier):
    """(words, table)"""
    names = sorted(graph[1])
    yield (), {}
    # which tokens take each word in full
    sets = [c for n in (0, 1, 2, len(names) if len(names) == 3 else 9) for c in itertools.combinations(names, n)]
    some = sets if tier == 'thorough' else [x for x in sets if len(x) < 2] + [x for x in sets if len(x) == 2][::2]
    for n in (1, 2, 3):
        for pick in itertools.product(sets if n < 3 else some, repeat=n):
            if any(not p for p in pick[:-1]):
                continue
            yield tuple('w%d' % i for i in range(n)), {(m, 'w%d' % i): FULL if m in p else NOT for i, p in enumerate(pick) for m in names}
    # words that are unfinished
    for n in (1, 2):
        for i in range(n):
            for m in names:
                for k in (ONLY, SOME, OPEN, EMPTY, TOO_MANY, STUCK):
                    for other in [()] + [(x, y) for x in names if x != m for y in (FULL, SOME)][:4 if tier != 'thorough' else None]:
                        if k in (TOO_MANY, STUCK) and other:
                            continue
                        t = {(a, 'w%d' % j): FULL if j != i else NOT for j in range(n) for a in names}
                        t[(m, 'w%d' % i)] = k
                        if other:
                            t[(other[0], 'w%d' % i)] = other[1]
                        yield tuple('w%d' % j for j in range(n)), t


def run(repo, res):
    res.rules = ['fails: matching a line ends with a response', 'result: success, partial, ambiguous or failure as the ways through the grammar say', 'offered: a trial offers exactly what may come',
                 'offered-for: completions are those of the unfinished word', 'executed: the one complete way is executed, and nothing else', 'values: with the values of its words, in order',
                 'offending: the first word no way takes is named']
    res.explanation = ("The matching routine is followed on small grammars given as places and what may follow them, for lines of up to three words; what a word is for a token is tabulated, texts and values stay symbolic. "
                       "Response, offers and what is executed are compared with the set of ways through the grammar.")
    res.assumptions = ["the routine asks places only what may follow and tokens only what they answer (witness classes)", "which of several complete ways is meant is decided elsewhere (the choice is taken as given)"]
    rp = Repo(repo.root, {'sawitness': WITNESS})
    c = Check(rp, res)
    for graph in GRAPHS:
        for words, table in lines(graph, res.tier):
            for dry, complete in ((True, False), (True, True), (False, True)):
                if not words and complete and dry:
                    continue
                c.one(graph, words, table, dry, complete)
    for rule, (n, msg) in sorted(c.found.items()):
        res.violate(rule, c.fi.where, c.fi.qual, '%s (and %d more)' % (msg, n - 1))
    res.absorb(c.d.eng)
    res.need('lines_decided', 50, 'lines understood')

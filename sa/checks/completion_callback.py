"""C38: the completion callback shows what matching offers, one entry per request, and inserts only what is missing."""

import itertools

from ..values import C, S, O, T, NONE, TRUE, FALSE, is_c, Exc, ANY_EXC, show
from ..cliclient import CliClient, const, need_class, need_method
from ..drive import Drive
from ..state import mk_eq
from ..terms import compare
from ..result import Anchor

TEXTS = ['', 'set', 'settings', 'a name that is much longer than any of the columns of the list', ' x']
HELPS = ['', 'what it is for', 'set']
LEN = 3
MANY = 24


class Callback(CliClient):
    merge_limit = 400
    items_limit = 40
    unroll = 30
    distinct = 40
    any_order = True        # the order of a sorted list is not judged
    boundary = frozenset()
    boundary_raises = {}

    def __init__(self, repo):
        super().__init__(repo)
        self.icid = need_class(repo, 'CliInterface')
        self.rcid = need_class(repo, 'ParsingResult')
        self.line = ''
        self.outcome = None
        self.shown = LEN
        self.fails = ()
        self.params = {n: need_method(repo, 'CliInterface', n).params[1:] for n in ('match',)}
        self.seen = {}

    def is_opaque(self, eng, st, ctx, tgt):
        return False

    def note(self, st, kind, *v):
        self.seen[kind] = self.seen.get(kind, 0) + 1
        return st.setmon(T(tuple(st.mon[1]) + (T((C(kind),) + v),)))

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        if tgt.kind not in ('func', 'meth', 'sym', 'ext'):
            return None
        last = tgt.name.split('.')[-1] if tgt.name else ''
        if last == 'process_completion_tokens' and self.outcome is not None:
            l = args[0] if args else None
            if l is None or l[0] != 'r' or st.heap[l[1]].kind not in ('list', 'set') or \
                    any(x[0] != 'I' for x in st.heap[l[1]].data[0]):
                items = S('p', 'unknown')
            else:
                items = T(x[1] for x in st.heap[l[1]].data[0])
            st = self.note(st, 'format', items)
            n = len(st.mon[1])
            st, r = eng.new_list(st, ctx, node, [S('p', 'entry%d.%d' % (n, i)) for i in range(self.shown)], tag='entries')
            return [(st, r)]
        if last == 'match' and tgt.kind == 'func' and tgt.fi.cls is not None and self.outcome is not None and \
                self.icid in self.repo.mro(tgt.fi.cls.cid):
            given = dict(zip(self.params['match'], args))
            given.update(kwargs or {})
            words = given.get(self.params['match'][0], NONE)
            if words[0] == 'r' and st.heap[words[1]].kind == 'list' and all(x[0] == 'I' for x in st.heap[words[1]].data[0]):
                words = T(x[1] for x in st.heap[words[1]].data[0])
            st = self.note(st, 'match', words, given.get('last_token_complete', S('p', 'left out')))
            if 'match' in self.fails:
                return [(st, Exc(ANY_EXC, None, getattr(node, 'lineno', 0)))]
            result, offers, last_token, constant, fold = self.outcome
            st, l = eng.new_list(st, ctx, node, list(offers), tag='next')
            st, o = eng.alloc(st, ctx, node, 'inst', self.rcid, {
                'result': result, 'next_tokens': l, 'last_token': last_token, 'next_constant_token': constant, 'error': S('p', 'error'),
                'case_insensitive': fold, 'offending_token': NONE, 'offending_token_position': NONE})
            return [(st, o)]
        if last == 'tokenize' and self.outcome is not None:
            if 'tokenize' in self.fails:
                return [(st, T((FALSE, S('p', 'why'), eng.new_list(st, ctx, node, [], tag='none')[1])))]
            st, l = eng.new_list(st, ctx, node, [C(x) for x in self.line.split()], tag='words')
            return [(st, T((TRUE, NONE, l)))]
        if tgt.kind != 'func':
            if last == 'get_line_buffer':
                return [(st, C(self.line))]
            if last == 'insert_text':
                return [(self.note(st, 'insert', *args[:1]), NONE)]
        return None


class Check:
    def __init__(self, repo, res):
        self.repo, self.res = repo, res
        self.fmt = need_method(repo, 'NessaidCli', 'process_completion_tokens')
        self.fi = need_method(repo, 'NessaidCli', 'complete')
        self.init = need_method(repo, 'NessaidCli', '__init__')
        self.cid = need_class(repo, 'NessaidCli')
        self.tcid = need_class(repo, 'TokenCompletion')
        self.cl = Callback(repo)
        self.d = Drive(repo, self.cl, self.fi, 4000000)
        self.d.eng.exact = True
        self.marker = None
        self.end = None

    def tell(self, rule, fi, msg, s):
        self.d.eng.report(rule, fi.where, fi.qual, msg, s)

    def fresh(self):
        d = self.d
        s = d.start().setmon(T(()))
        s, cli = d.eng.alloc(s, d.ctx, d.node(), 'inst', self.cid, {})
        s = s.setvar('$script', 'cli', cli)
        for i in range(MANY):
            s = s.assume(mk_eq(S('p', 'offer%d' % i), self.end), False) or s
            s = s.assume(mk_eq(S('p', 'offer%d' % i), NONE), False) or s
        out = []
        for s2, v in d.func(s, self.init, cli, S('p', 'grammars'), S('p', 'loop')):
            if isinstance(v, Exc) or s2.guess:
                continue
            out.append((s2.setmon(T(())), cli))
        return out

    # -- the entries shown -----------------------------------------------------
    def entries(self, most):
        d = self.d
        self.cl.outcome = None
        fi = self.fmt
        for n, more, first in [(n, m, f) for n in range(most + 1) for m in (False, True) for f in (None, 'no text', 'plain')
                               if (n or m) and (f is None or 1 <= n <= 2)]:
            if more and self.marker is None:
                continue
            text, help = [S('p', 'text%d' % i) for i in range(n)], [S('p', 'help%d' % i) for i in range(n)]
            s, cli = d.eng.alloc(d.start().setmon(T(())), d.ctx, d.node(), 'inst', self.cid, {})
            s = s.setvar('$script', 'cli', cli)
            items = []
            for t, h in zip(text, help):
                for x in (t, h):
                    s = (s.assume(mk_eq(x, NONE), False) or s).setfact(O('isinst', x, 'str'), True)
                if first == 'plain' and not items:
                    items.append(t)
                    s = s.assume(mk_eq(t, self.marker or NONE), False) or s
                    continue
                s, o = d.eng.alloc(s, d.ctx, d.node(), 'inst', self.tcid, {
                    'completion': NONE if first and not items else t, 'helpstring': h})
                s = s.setvar('$script', 't' + t[2], o)
                items.append(o)
            if more:
                items.append(self.marker)
            s, l = d.eng.new_list(s, d.ctx, d.node(), items, tag='offers')
            s = s.setvar('$script', 'offers', l)
            outs = [(s2, v) for s2, v in d.call(s, cli, 'process_completion_tokens', l) if not s2.guess]

            def env_of(w):
                return dict([(t, a) for t, (a, b) in zip(text, w)] + [(h, b) for h, (a, b) in zip(help, w)])

            dom = [w for w in itertools.product(itertools.product(TEXTS, HELPS), repeat=n)
                   if all(a or b for a, b in w) and len(set(w)) == n and (first is None or not w[0][first == 'plain']) and (n < 3 or len({a for a, b in w}) == 3)]
            if n == 3:
                dom = dom[::7]
            diffs, stats = compare(outs, dom, env_of, lambda w: (w, more), lists_all)
            self.res.count('lists_judged', stats['elements'])
            self.res.count('undecided', stats['undecided'])
            for w, s2, got, exp in diffs[:1]:
                self.tell('all-shown', fi, "for the offers %s%s the entries are %s" % (
                    ', '.join('%r (%r)' % x for x in w), ' and the end of the command' if more else '', got), s2)

    def long_list(self):
        """As many offers as a big grammar or a directory gives"""
        d = self.d
        self.cl.outcome = None
        words = ['word%02d' % i for i in range(MANY)]
        s, cli = d.eng.alloc(d.start().setmon(T(())), d.ctx, d.node(), 'inst', self.cid, {})
        s = s.setvar('$script', 'cli', cli)
        items = []
        for w in words:
            s, o = d.eng.alloc(s, d.ctx, d.node(), 'inst', self.tcid, {'completion': C(w), 'helpstring': C('about ' + w)})
            s = s.setvar('$script', w, o)
            items.append(o)
        s, l = d.eng.new_list(s, d.ctx, d.node(), items + ([self.marker] if self.marker else []), tag='offers')
        s = s.setvar('$script', 'offers', l)
        outs = [(s2, v) for s2, v in d.call(s, cli, 'process_completion_tokens', l) if not s2.guess]
        diffs, stats = compare(outs, [None], lambda w: {}, lambda w: ([(w, 'about ' + w) for w in words], bool(self.marker)), lists_all)
        self.res.count('lists_judged', stats['elements'])
        self.res.count('undecided', stats['undecided'])
        for w, s2, got, exp in diffs[:1]:
            self.tell('all-shown', self.fmt, "for %d offers there are %s entries" % (MANY, len(got) if isinstance(got, list) else got), s2)

    # -- requests --------------------------------------------------------------
    def request(self, s, cli, line, outcome, state=0, fails=()):
        self.cl.line, self.cl.outcome, self.cl.fails = line, outcome, fails
        s = s.setmon(T(()))
        return self.d.call(s, cli, 'complete', C(''), C(state))

    def after(self, s):
        ev = [(e[1][0][2], list(e[1][1:])) for e in s.mon[1]]
        return ev

    def text(self, ev):
        """Everything inserted, None when not known"""
        out = ''
        for k, v in ev:
            if k == 'insert':
                if not v or not is_c(v[0]) or not isinstance(v[0][2], str):
                    return None
                out += v[0][2]
        return out

    def where_text(self, line, outcome):
        r, offers, last, constant, fold = outcome
        return "line %r (%s, offered: %s%s%s)" % (
            line, self.names.get(r, show(r)), ', '.join('the end' if o == self.end else show(o) for o in offers) or 'nothing',
            ', last word %s' % show(last) if last != NONE else '', ', only %s may follow' % show(constant) if constant != NONE else '')

    def judge(self, line, outcome, s, v, again):
        """One first request (state 0)."""
        res = self.res
        what = self.where_text(line, outcome) + again
        res.count('requests_judged')
        if isinstance(v, Exc):
            if v.kind[0] == 'cls' or s.guess:
                res.count('undecided')
            else:
                self.tell('contained', self.fi, what + ": the exception of matching leaves the callback", s)
            return
        if s.guess:
            res.count('undecided')
            return
        r, offers, last, constant, fold = outcome
        ev = self.after(s)
        matches = [x for k, x in ev if k == 'match']
        if len(matches) == 1:
            words, complete = matches[0]
            if words[0] == 't' and all(is_c(x) for x in words[1]) and list(words[1]) != [C(x) for x in line.split()]:
                self.tell('matched', self.fi, what + ": the words matched are " + show(words), s)
            if is_c(complete) and bool(complete[2]) != line.endswith(' '):
                self.tell('matched', self.fi, what + ": the last word is matched as %s" % ('complete' if complete[2] else 'unfinished'), s)
        elif not matches:
            self.tell('matched', self.fi, what + ": the line is not matched", s)
        text = self.text(ev)
        listed = [x[0] for k, x in ev if k == 'format']
        if text is None or any(x[0] != 't' for x in listed):
            res.count('undecided')
            return
        failed = r == self.failure
        if text:
            ok = set()
            if not failed and r != self.success:
                if last != NONE:
                    inp, rep = last[1][0][2], last[1][1][2]
                    if rep != inp and (rep.startswith(inp) or fold == TRUE and rep.lower().startswith(inp.lower())):
                        ok.add(rep[len(inp):])
                        if len(offers) == 1:
                            ok.add(rep[len(inp):] + ' ')
                    if rep == inp and constant == C(inp) and not line.endswith(' '):
                        ok.add(' ')
                elif constant != NONE and (not line or line.endswith(' ')):
                    ok |= {constant[2], constant[2] + ' '}
            if text not in ok:
                self.tell('inserts-the-rest', self.fi, what + ": %r is inserted" % text, s)
            return
        if v == NONE or not listed:
            if v == NONE:
                self.tell('shown', self.fi, what + ": nothing is inserted and nothing is shown", s)
            else:
                self.tell('shown', self.fi, what + ": what is shown was not made from this match (%s)" % show(v), s)
            return
        now = list(listed[-1][1])
        n = [i for i, (k, x) in enumerate(ev) if k == 'format'][-1] + 1
        if v[0] == 's' and v != S('p', 'entry%d.0' % n):
            self.tell('shown', self.fi, what + ": the first entry given is %s of %s" % (show(v), show(listed[-1])), s)
            return
        if self.cl.fails:
            return
        if failed:
            if len(now) != 1 or not mentions_error(now[0]):
                self.tell('offers', self.fi, what + ": the error is not what is shown (%s)" % show(listed[-1]), s)
            return
        due = [] if r == self.success else [o for o in offers if o != self.end]
        rest = list(now)
        for o in due:
            if o in rest:
                rest.remove(o)
            else:
                self.tell('offers', self.fi, what + ": %s is not shown" % show(o), s)
                return
        newline = r == self.success or self.end in offers
        if r == self.success and self.marker is None and len(rest) == 1 and is_c(rest[0]):
            self.marker = rest[0]
        if self.marker is None:
            res.count('undecided')
            return
        if newline and rest != [self.marker]:
            self.tell('offers', self.fi, what + (": the end of the command is not shown" if not rest else
                                                 ": also shown: " + show(T(rest))), s)
        elif not newline and rest:
            self.tell('offers', self.fi, what + ": also shown: " + show(T(rest)), s)

    def later(self, line, s, cli, n):
        """The requests after the first one"""
        ev = self.after(s)
        for state in range(1, n + 3):
            for s2, v in self.request(s, cli, line, self.cl.outcome, state):
                self.res.count('later_requests')
                if s2.guess:
                    self.res.count('undecided')
                    continue
                want = None if state >= n else state
                if isinstance(v, Exc):
                    if not (v.kind[0] == 'cls'):
                        continue
                    self.tell('one-each', self.fi, "request %d of %d entries ends with %s" % (state, n, v.kind[1].split('.')[-1]), s2)
                elif want is None and v != NONE and (v[0] == 's' or is_c(v)):
                    self.tell('one-each', self.fi, "request %d of %d entries is answered with %s" % (state, n, show(v)), s2)
                elif want is not None and (v == NONE or is_c(v) or v[0] == 's' and not v[2].endswith('.%d' % want)):
                    self.tell('one-each', self.fi, "request %d of %d entries is answered with %s" % (state, n, show(v)), s2)
                if [k for k, x in self.after(s2) if k in ('match', 'insert', 'format')]:
                    self.tell('one-each', self.fi, "request %d matches, inserts or lists again" % state, s2)

    def history(self, steps, tell_from=0):
        """steps: [(line, outcome)]; each is a request of the user, one after the other."""
        states = self.fresh()[:1]
        for i, (line, outcome) in enumerate(steps):
            out = []
            for s, cli in states:
                for s2, v in self.request(s, cli, line, outcome):
                    if i >= tell_from:
                        self.judge(line, outcome, s2, v, '' if i == 0 else ' after %d other request%s' % (i, 's' if i > 1 else ''))
                    if not isinstance(v, Exc) and not s2.guess:
                        out.append((s2, cli))
            seen, states = set(), []
            for s, cli in out:
                k = s.key() if hasattr(s, 'key') else id(s)
                if k not in seen:
                    seen.add(k)
                    states.append((s, cli))
            states = states[:8]
        return states

    def results(self):
        rep = self.repo
        self.success, self.failure = const(rep, 'tokens', 'MATCH_SUCCESS'), const(rep, 'tokens', 'MATCH_FAILURE')
        self.partial, self.ambiguous = const(rep, 'tokens', 'MATCH_PARTIAL'), const(rep, 'tokens', 'MATCH_AMBIGUOUS')
        self.names = {self.success: 'complete', self.failure: 'not matching', self.partial: 'unfinished', self.ambiguous: 'ambiguous'}


def mentions_error(t):
    if t == S('p', 'error'):
        return True
    return isinstance(t, tuple) and any(mentions_error(x) for x in t if isinstance(x, tuple))


def lists_all(got, exp):
    """Is there one entry for each offer, with its text and help?"""
    offers, more = exp
    if not isinstance(got, list) or not all(isinstance(x, str) for x in got) or len(got) != len(offers) + more:
        return False

    def fits(entry, offer):
        if offer is None:
            return 'NEWLINE' in entry.upper() or 'complete command' in entry.lower()
        text, help = offer
        return entry.startswith(text) and help in entry[len(text):] and entry.count(help) >= (1 if help else 0)

    def assign(i, free):
        if i == len(want):
            return True
        return any(fits(got[j], want[i]) and assign(i + 1, free - {j}) for j in free)

    want = list(offers) + ([None] if more else [])
    return assign(0, frozenset(range(len(got))))


LAST = [('se', 'se', 'set'), ('show se', 'se', 'settings'), ('set', 'set', 'set'), ('show set', 'set', 'set'), ('set set', 'set', 'settings'),
        ('SE', 'SE', 'set'), ('set ', 'set', 'set'), ('se', 'se', 'other'), ('a', 'a', 'a')]


def run(repo, res):
    res.rules = ['all-shown: the formatter makes one entry for each offer, with its text and its help string, and one for the end of the command when it may end there',
                 'matched: the words of the edit line are what is matched, the last one being complete exactly when a blank follows it',
                 'offers: what is formatted is what matching offered, with the end of the command exactly when matching says so; a failure shows its error',
                 'shown: a first request that inserts nothing is answered with the first entry of the list made from it',
                 'one-each: request n is answered with entry n, and with nothing past the end, without matching again',
                 'inserts-the-rest: text is only inserted when one continuation is left, and is what is missing of it',
                 'contained: an exception of matching does not leave the callback']
    ck = Check(repo, res)
    ck.results()
    d = ck.d
    ck.end = find_end(repo, d)
    offer = [S('p', 'offer%d' % i) for i in range(3)]
    N, no = NONE, FALSE

    def outcome(r, n, end=False, last=N, constant=N, fold=no):
        o = offer[:n]
        return (r, tuple(o[:1] + ([ck.end] if end else []) + o[1:]), last, constant, fold)

    if ck.fresh() == []:
        raise Anchor("the constructor of NessaidCli is not understood")
    plain = [outcome(ck.success, 0), outcome(ck.success, 0, True)] + \
        [outcome(r, n, e) for r in (ck.partial, ck.ambiguous) for n in (1, 2, 3) for e in (False, True)] + \
        [outcome(ck.partial, 0, True), outcome(ck.failure, 0)]
    for o in plain:
        for line in ('', 'se', 'show ', 'show se', 'show set '):
            ck.history([(line, o)])
    for n in range(1, 5):
        ck.cl.shown = n
        for o in plain[:4:2] + [plain[-1]]:
            for s, cli in ck.history([('show ', o)]):
                ck.cl.outcome = o
                ck.later('show ', s, cli, n)
    ck.cl.shown = LEN
    many = (ck.partial, tuple([S('p', 'offer%d' % i) for i in range(MANY)] + [ck.end]), N, N, no)
    for before in ([], [('show se', outcome(ck.partial, 1, False, T((C('se'), C('set')))))], [('show ', many)]):
        ck.history(before + [('show ', many)])
    # a text is completed
    for line, inp, rep in LAST:
        for r, n, e, c, fold in itertools.product((ck.partial, ck.ambiguous), (1, 2), (False, True), (N, C(rep)), (no, TRUE)):
            o = outcome(r, n, e, T((C(inp), C(rep))), c, fold)
            for before in ([], [(line, o)], [(line[:-1], outcome(r, 2, False, T((C(inp[:-1]), C(inp[:-1]))) if inp[:-1] else N))],
                           [('other', plain[3])]):
                ck.history(before + [(line, o)], tell_from=len(before))
    for line in ('', 'show ', 'show'):
        for r, n, e in itertools.product((ck.partial, ck.ambiguous), (1, 2), (False, True)):
            o = outcome(r, n, e, N, C('set'))
            for before in ([], [(line, o)], [('', o)], [('other', plain[3])]):
                ck.history(before + [(line, o)], tell_from=len(before))
    # matching fails with an exception
    for line in ('', 'show '):
        for s, cli in ck.fresh()[:1]:
            for s2, v in ck.request(s, cli, line, plain[0], fails=('match',)):
                ck.judge(line, plain[0], s2, v, ' with an exception')
    ck.cl.fails = ()
    ck.entries(3)
    ck.long_list()
    res.need('requests_judged', 50, 'requests')
    res.need('lists_judged', 10, 'lists')
    for k, n in sorted(ck.cl.seen.items()):
        res.count('events_' + k, n)
    res.absorb(d.eng)


def find_end(repo, d):
    """The value standing for the end of the line among what may come next."""
    for m in repo.modules.values():
        if 'EndOfInpuToken' in m.names and repo.resolve_global(m, 'EndOfInpuToken') is not None:
            return d.eng.global_value(m, 'EndOfInpuToken')
    raise Anchor("EndOfInpuToken not found")

"""C09: continuation lines and comments."""

import itertools

from ..values import C, S, O, R, T, NONE, TRUE, FALSE, is_c, Exc, mentions, show
from ..loopclient import LoopClient, USER
from ..cliclient import CliClient, start, need_method, is_instance_call
from ..terms import compare

TYPED, TYPED0 = S('@', 'typed'), S('@', 'typed', 'earlier')
JOINED, JOINED0 = S('@', 'joined'), S('@', 'joined', 'earlier')


class Assembly(LoopClient):
    """phases: start, got (line read), goton (line read, goes on with an earlier one), partial, whole, wholeon,
    comment, plain, plainon, parsed"""

    def event(self, st, ctx, tgt):
        if tgt.kind == 'func' and tgt.fi is not None and tgt.fi.name == 'get_next_line' and tgt.fi.cls is not None:
            return 'read'
        return super().event(st, ctx, tgt)

    def ph(self, st):
        return st.mon[1][0][2] if st.mon is not None else 'start'

    def setph(self, st, p):
        return st.setmon(T((C(p),)))

    def expected(self, p):
        return O('cat', JOINED, TYPED) if p.endswith('on') else TYPED

    def check_text(self, eng, st, ctx, node, arg, p, what):
        want = self.expected(p)
        if arg == want or arg is None:
            return
        here = eng.loc(ctx, node)
        if mentions(arg, TYPED0) or mentions(arg, JOINED0) or not p.endswith('on') and mentions(arg, JOINED):
            eng.report('nothing-left-behind', here, ctx.fi.qual, "the text %s still contains part of an earlier line" % what, st)
        elif mentions(arg, TYPED) and p.endswith('on') and not mentions(arg, JOINED):
            eng.report('joined', here, ctx.fi.qual, "the text %s lacks the earlier part of a continued line" % what, st)
        elif mentions(arg, JOINED) and not mentions(arg, TYPED):
            eng.report('joined', here, ctx.fi.qual, "the text %s lacks the line that continues it" % what, st)
        elif arg[0] == 'o' and arg[1] == 'cat' and set(arg[2:]) != set(want[2:] if want[0] == 'o' else [want]) and \
                all(x in (JOINED, TYPED) or is_c(x) for x in arg[2:]):
            eng.report('joined', here, ctx.fi.qual, "the text %s has something put between its parts" % what, st)
        elif arg[0] == 'o' and arg[1] == 'cat' and len(arg) == 4 and arg[2:] == (TYPED, JOINED):
            eng.report('joined', here, ctx.fi.qual, "the text %s has its parts in the wrong order" % what, st)
        elif is_c(arg) and st.known_eq(want, arg) is not True and what != 'parsed':
            eng.report('joined', here, ctx.fi.qual, "the text %s is a constant" % what, st)

    def before(self, eng, st, ctx, ev, tgt, args, kwargs, node):
        p = self.ph(st)
        here = eng.loc(ctx, node)
        if ev == 'read':
            if p in ('got', 'goton', 'whole', 'wholeon', 'plain', 'plainon'):
                eng.report('parsed', here, ctx.fi.qual, "the next line is read although the previous one was neither parsed, continued nor a comment", st)
            st = st.rename(TYPED, TYPED0, facts=False) if st.occurs(TYPED) else st
        if ev == 'parse' and p != 'start':
            if p == 'comment':
                eng.report('comment-skipped', here, ctx.fi.qual, "a comment line is parsed", st)
            elif p == 'partial':
                eng.report('joined', here, ctx.fi.qual, "a line that is to be continued is parsed before its continuation is read", st)
            elif p in ('got', 'goton'):
                eng.report('joined', here, ctx.fi.qual, "a line is parsed without a look for its continuation", st)
            elif p in ('whole', 'wholeon'):
                eng.report('comment-skipped', here, ctx.fi.qual, "a line is parsed without a look for the comment sign", st)
            elif p in ('plain', 'plainon'):
                self.hit('parsed')
                self.check_text(eng, st, ctx, node, args[-1] if args else None, p, 'parsed')
            return self.setph(st, 'parsed')
        return st

    def after(self, eng, st, ctx, ev, tgt, args, kwargs, v, node):
        if ev == 'read':
            if isinstance(v, Exc):
                return st
            return self.setph(st, 'goton' if self.ph(st) == 'partial' else 'got')
        return st

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        ev = self.event(st, ctx, tgt)
        if ev == 'read':
            out = super().on_call(eng, st, ctx, tgt, args, kwargs, node)
            res = []
            for a, v in out:
                if not isinstance(v, Exc):
                    a = a.rename(v, TYPED)
                    v = TYPED
                res.append((a, v))
            return res
        return super().on_call(eng, st, ctx, tgt, args, kwargs, node)

    def other_call(self, eng, st, ctx, tgt, args, kwargs, node):
        p = self.ph(st)
        if tgt.kind == 'func' and tgt.fi is not None and tgt.fi.cls is not None and tgt.fi.name in ('is_partial_line', 'commented_line'):
            arg = [x for x in list(args) + list(kwargs.values()) if x != R('self')]
            arg = arg[0] if arg else None
            if tgt.fi.name == 'is_partial_line':
                if p not in ('got', 'goton'):
                    return None
                self.hit('continuation')
                self.check_text(eng, st, ctx, node, arg, p, 'looked at for a continuation')
                a = st.rename(JOINED, JOINED0, facts=False) if st.occurs(JOINED) else st
                a = self.setph(a, 'partial')
                b = self.setph(st, 'whole' + p[3:])
                return [(a, T((TRUE, JOINED))), (b, T((FALSE, arg)))]
            if p not in ('whole', 'wholeon'):
                return None
            self.hit('comment')
            self.check_text(eng, st, ctx, node, arg, p, 'looked at for the comment sign')
            return [(self.setph(st, 'comment'), TRUE), (self.setph(st, 'plain' + p[5:]), FALSE)]
        return None


def run(repo, res):
    res.rules = ['joined', 'comment-skipped', 'parsed', 'nothing-left-behind', 'continuation-recognised', 'comment-recognised']
    res.explanation = ("Typestate dataflow over the interpreter loop: from each line read, the text is followed through the look for "
                       "a continuation and for the comment sign to the parser. The two recognisers are summarised path by path and "
                       "compared with the documented answer on the finite domain of line shapes (all lines of up to five characters "
                       "over blank, tab, comment sign, backslash and one ordinary character), which separates every combination of "
                       "leading, trailing and visible characters their conditions can look at.")
    res.assumptions = ["completion at the terminal, which may take back a partial line, is not modelled"]
    recognisers(repo, res)
    for cls, name, args in (('NessaidCmd', 'cmdloop', []), ('NessaidCli', 'cmdloop', [S('p', 'grammarname')])):
        cl = Assembly(repo)
        eng, st = start(repo, cl, cls)
        fi = need_method(repo, cls, name)
        for s, v in eng.run_entry(fi, st, R('self'), args):
            res.count('outcomes')
        for k, n in cl.hits.items():
            res.count('calls_' + k, n)
        res.absorb(eng)
    res.need('calls_continuation', 2, 'looks for a continuation')
    res.need('calls_comment', 2, 'looks for the comment sign')
    res.need('calls_parsed', 2, 'lines parsed')


def constants(t):
    if isinstance(t, tuple):
        if t[:2] == ('c', 'str'):
            return set(t[2])
        return set().union(*[constants(x) for x in t if isinstance(x, tuple)]) if t else set()
    return set()


def recognisers(repo, res):

    def words(outs):
        # the characters the conditions look at, two kinds of blank, and one other
        chars = set(' \t#\\x')
        for s, v in outs:
            for x in list(s.facts) + ([v] if not isinstance(v, Exc) else []):
                chars |= constants(x)
        chars = sorted(chars)[:12]
        return [''.join(w) for n in range(6 if len(chars) < 7 else 5) for w in itertools.product(chars, repeat=n)]

    def partial(w):
        r = w.rstrip()
        return (True, r[:-1]) if r.endswith('\\') else (False, w)

    def comment(w):
        return w.lstrip().startswith('#')
    for name, want, rule, msg in (('is_partial_line', partial, 'continuation-recognised', "line %r: continued or not, and the text, must be %r, is %r"),
                                  ('commented_line', comment, 'comment-recognised', "line %r: a comment must be %r, is %r")):
        cl = CliClient(repo)
        eng, st = start(repo, cl, 'NessaidCli')
        fi = need_method(repo, 'NessaidCli', name)
        par = S('p', 'line')
        outs = eng.run_entry(fi, st.setfact(O('isinst', par, 'str'), True), R('self'), [par])
        same = (lambda g, e: isinstance(g, tuple) and len(g) == 2 and bool(g[0]) == e[0] and g[1] == e[1]) if name == 'is_partial_line' \
            else (lambda g, e: bool(g) == e)
        diffs, stats = compare(outs, words(outs), lambda w: {par: w}, want, same)
        res.count('line_shapes', stats['elements'])
        if stats['undecided']:
            res.count('undecided', stats['undecided'])
        for w, s, got, exp in diffs[:1]:
            eng.report(rule, fi.where, fi.qual, msg % (w, exp, got), s)
        res.absorb(eng)

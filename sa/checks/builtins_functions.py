"""C23: the functions available in actions do what is documented."""

import itertools

from ..values import C, S, O, R, T, NONE, TRUE, FALSE, is_c, Exc, ANY_EXC, show
from ..cliclient import CliClient, need_class, need_method, keep
from ..drive import Drive, normal
from ..state import Obj, mk_eq

ARGS = [S('p', 'arg%d' % i) for i in range(5)]
OLD = [S('p', 'old%d' % i) for i in range(2)]
TEXT, SHOW, PROMPT = S('p', 'text_read'), S('p', 'show_char'), S('p', 'prompt')


class Funcs(CliClient):
    """Monitor: the calls of the interpreter's print and input, in order."""
    merge_limit = 200
    unroll = 9
    distinct = 8

    def is_opaque(self, eng, st, ctx, tgt):
        return False

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        last = tgt.name.split('.')[-1]
        own = tgt.kind == 'func' and tgt.fi is not None and tgt.fi.cls is not None or tgt.kind == 'meth' and tgt.recv == R('self')
        if own and last in ('print', 'input', 'error', 'warning'):
            if any(a[0] == 'star' for a in args):
                what = None
            else:
                what = tuple(args) + tuple(kwargs[k] for k in sorted(kwargs or {}) if k not in ('end', 'sep', 'flush', 'file'))
            st = st.setmon((st.mon or ()) + ((last, what),))
            return [(st, TEXT if last == 'input' else NONE)]
        return None


class Script:
    def __init__(self, repo, res):
        self.repo, self.res = repo, res
        self.fi = need_method(repo, 'CliInterface', 'execute_binding_call')
        self.cid = need_class(repo, 'NessaidCmd')
        fn = repo.method('CliInterface', 'resolve_local_function_call')
        self.where, self.qual = (fn or self.fi).where, (fn or self.fi).qual

    def fresh(self):
        d = Drive(self.repo, Funcs(self.repo), self.fi)
        st = d.start().setobj('self', Obj('inst', self.cid, {})).setmon(())
        st = keep(st, 'self')
        for a in ARGS + OLD + [TEXT, PROMPT]:
            st = st.assume(mk_eq(a, NONE), False)
        for a, b in itertools.combinations(ARGS + OLD, 2):
            st = st.assume(mk_eq(a, b), False)
        return d, st

    def ask(self, d, st, name, args):
        self.res.count('calls')
        return [(s, v) for s, v in d.call(st, R('self'), 'execute_binding_call', C(name), TRUE, *args)]

    def bad(self, d, s, msg, rule):
        d.eng.report(rule, self.where, self.qual, msg, s)

    def failed(self, d, s, v, what, rule):
        """The call was not executed: its error was reported or left the routine."""
        if isinstance(v, Exc) or any(n == 'error' for n, _ in s.mon):
            self.bad(d, s, "%s fails" % what, rule)
            return True
        return False

    def verdict(self, ok):
        self.res.count('undecided' if ok is None else 'results_right')


def items(d, s, v):
    """What the collection holds, None when not known"""
    if v[0] == 'r' and v[1] in s.heap:
        o = s.heap[v[1]]
        if o.kind in ('list', 'set') and all(x[0] == 'I' for x in o.data[0]) and (o.kind == 'set' or len(o.data[0]) == o.data[1]):
            return [s.eqc(x[1]) or x[1] for x in o.data[0]]
        if o.kind == 'dict' and not o.data[1]:
            return [(s.eqc(k) or k, s.eqc(x) or x) for k, x in o.data[0]]
    return None


def definite(v):
    return is_c(v) or v in ARGS + OLD or v[0] in ('r', 't') or v[0] == 'o' and v[1] in ('str', 'repr', 'not', 'truth')


def same_set(a, b):
    return len(a) == len(b) and all(x in b for x in a)


def collections(sc):
    for name, kind in (('list', 'list'), ('set', 'set'), ('dict', 'dict')):
        for n in range(4 if kind != 'dict' else 1):
            d, st = sc.fresh()
            what = "%s() with %d arguments" % (name, n)
            for s, v in sc.ask(d, st, name, ARGS[:n]):
                if sc.failed(d, s, v, what, 'new-collection'):
                    continue
                got = items(d, s, v)
                if got is None:
                    if is_c(v) or v in ARGS or v[0] == 't' or v[:2] in (('s', 'init'), ('o', 'cdict'), ('o', 'clist'), ('o', 'cset')):
                        sc.bad(d, s, "%s gives %s" % (what, show(v)), 'new-collection')
                    else:
                        sc.verdict(None)
                    continue
                if s.heap[v[1]].kind != kind:
                    sc.bad(d, s, "%s gives a %s" % (what, s.heap[v[1]].kind), 'new-collection')
                elif not (got == ARGS[:n] if kind == 'list' else same_set(got, ARGS[:n])):
                    if all(definite(x) for x in got):
                        sc.bad(d, s, "%s holds %s instead of exactly the arguments" % (what, [show(x) for x in got]), 'new-collection')
                    else:
                        sc.verdict(None)
                else:
                    sc.verdict(True)
                    # a second call gives another one
                    for s2, w in sc.ask(d, s, name, ARGS[:n]):
                        if w == v:
                            sc.bad(d, s2, "%s gives the same object every time" % what, 'new-collection')
            sc.res.absorb(d.eng)


def growing(sc):
    for kind in ('list', 'set'):
        for old, n, nested in itertools.product((0, 2), (1, 2, 3), (False, True)):
            d, st = sc.fresh()
            new = list(ARGS[:n])
            if nested:
                if kind == 'set':
                    continue
                st, r = d.eng.new_list(st, d.ctx, d.node(), [ARGS[3], ARGS[4]])
                (st, r), = d.hold([(st, r)])
                new[0] = r
            st, coll = d.eng.new_list(st, d.ctx, d.node(), OLD[:old], kind)
            (st, coll), = d.hold([(st, coll)])
            what = "append() of %d values to a %s of %d" % (n, kind, old)
            want = OLD[:old] + new
            for s, v in sc.ask(d, st, 'append', [coll] + new):
                if sc.failed(d, s, v, what, 'append'):
                    continue
                if v != coll:
                    if definite(v):
                        sc.bad(d, s, "%s gives %s instead of the collection" % (what, 'another object' if v[0] == 'r' else show(v)), 'append')
                    else:
                        sc.verdict(None)
                    continue
                got = items(d, s, coll)
                if got is None:
                    sc.verdict(None)
                elif got != want if kind == 'list' else not same_set(got, want):
                    if all(definite(x) for x in got):
                        sc.bad(d, s, "after %s it holds %s" % (what, [show(x) for x in got]), 'append')
                    else:
                        sc.verdict(None)
                else:
                    sc.verdict(True)
            sc.res.absorb(d.eng)
    K, V = ARGS[0], ARGS[1]
    for have in ((), ((OLD[0], OLD[1]),), ((K, OLD[1]),), ((OLD[0], OLD[1]), (K, ARGS[2]))):
        d, st = sc.fresh()
        st, dic = d.eng.alloc(st, d.ctx, d.node(), 'dict', None, (tuple(have), False), 'given')
        (st, dic), = d.hold([(st, dic)])
        want = [(k, V if k == K else x) for k, x in have] + ([(K, V)] if K not in dict(have) else [])
        what = "update() of a dict with %d entries" % len(have) + (", one of them with that key" if K in dict(have) else '')
        for s, v in sc.ask(d, st, 'update', [dic, K, V]):
            if sc.failed(d, s, v, what, 'update'):
                continue
            if v != dic:
                if definite(v):
                    sc.bad(d, s, "%s gives %s instead of the dict" % (what, 'another object' if v[0] == 'r' else show(v)), 'update')
                else:
                    sc.verdict(None)
                continue
            got = items(d, s, dic)
            if got is None:
                sc.verdict(None)
            elif not same_set(got, want):
                if all(definite(k) and definite(x) for k, x in got):
                    sc.bad(d, s, "after %s it holds %s" % (what, ["%s: %s" % (show(k), show(x)) for k, x in got]), 'update')
                else:
                    sc.verdict(None)
            else:
                sc.verdict(True)
        sc.res.absorb(d.eng)


NUMBERS = (0, 1, -1, 2, -7, 41, 255, 256, 10 ** 6, 0.5, -2.25, True, False)


def arithmetic(sc):
    for name, delta in (('inc', 1), ('dec', -1)):
        for x in NUMBERS:
            number(sc, name, [C(x)], C(x + delta), "%s(%r)" % (name, x))
    for n in (1, 2, 3, 4):
        for vals in itertools.product((0, 3, -5, 1.5) if n < 4 else (0, 7), repeat=n):
            number(sc, 'add', [C(x) for x in vals], C(sum(vals[1:], vals[0])), "add%r" % (tuple(vals),))
    unknown_numbers(sc)


def number(sc, name, args, want, what):
    d, st = sc.fresh()
    for s, v in sc.ask(d, st, name, args):
        if sc.failed(d, s, v, what, 'arithmetic'):
            continue
        x = s.eqc(v) or v
        if not is_c(x):
            if x[0] in ('t', 'r'):
                sc.bad(d, s, "%s is %s" % (what, show(x)), 'arithmetic')
            else:
                sc.verdict(None)
        elif x[2] != want[2] or isinstance(x[2], bool):
            sc.bad(d, s, "%s is %r" % (what, x[2]), 'arithmetic')
        else:
            sc.verdict(True)
    sc.res.absorb(d.eng)


def unknown_numbers(sc):
    """The same with numbers of which nothing is known: every path must add the same."""
    for name, n in (('inc', 1), ('dec', 1), ('add', 1), ('add', 2), ('add', 3), ('add', 4)):
        d, st = sc.fresh()
        for a in ARGS[:n]:
            st = st.setfact(O('isinst', a, 'int'), True).setfact(O('isinst', a, 'str'), False)
        for s, v in sc.ask(d, st, name, ARGS[:n]):
            what = "%s() of %d unknown integers" % (name, n)
            if sc.failed(d, s, v, what, 'arithmetic'):
                continue
            got = linear(s, v)
            const = {'inc': 1, 'dec': -1, 'add': 0}[name]
            want = ({a: 1 for a in ARGS[:n]}, const)
            if got is None or not constrained_free(s, ARGS[:n]):
                sc.verdict(None)
            elif got != want:
                sc.bad(d, s, "%s gives %s" % (what, show(v)), 'arithmetic')
            else:
                sc.verdict(True)
        sc.res.absorb(d.eng)


def constrained_free(s, syms):
    """The path does not say what the numbers are."""
    return not any(s.eqc(a) for a in syms)


def linear(s, v):
    """The value as a sum of arguments and a number."""
    v = s.eqc(v) or v
    if is_c(v) and isinstance(v[2], (int, float)):
        return {}, v[2]
    if v in ARGS:
        return {v: 1}, 0
    if v[0] == 'lin':
        out, const = {}, v[1]
        for part, n in [(linear(s, t), n) for t, n in v[2]]:
            if part is None:
                return None
            const += part[1] * n
            for k, m in part[0].items():
                out[k] = out.get(k, 0) + m * n
        return {k: n for k, n in out.items() if n}, const
    if v[0] == 'o' and v[1] in ('+', '-', 'add', 'sub') and len(v) == 4:
        a, b = linear(s, v[2]), linear(s, v[3])
        if a is None or b is None:
            return None
        sign = -1 if v[1] in ('-', 'sub') else 1
        out = dict(a[0])
        for k, n in b[0].items():
            out[k] = out.get(k, 0) + sign * n
        return {k: n for k, n in out.items() if n}, a[1] + sign * b[1]
    return None


def printing(sc):
    for args in [ARGS[:n] for n in range(5)] + [[C(3), C(1), C(2)], [C('b'), C('a'), C('b')], [C(''), C(0), NONE]]:
        n = len(args)
        d, st = sc.fresh()
        what = "print(%s)" % ', '.join(show(a) for a in args)
        for s, v in sc.ask(d, st, 'print', args):
            if sc.failed(d, s, v, what, 'print'):
                continue
            if any(a is None for _, a in s.mon):
                sc.verdict(None)
                continue
            outs = [a for name, a in s.mon if name == 'print']
            if len(outs) != 1:
                sc.bad(d, s, "%s prints %s" % (what, 'nothing' if not outs else 'more than once'), 'print')
            elif list(outs[0]) != args:
                if all(definite(x) for x in outs[0]):
                    sc.bad(d, s, "%s prints %s" % (what, [show(x) for x in outs[0]]), 'print')
                else:
                    sc.verdict(None)
            else:
                sc.verdict(True)
        sc.res.absorb(d.eng)


def reading(sc):
    for n in range(3):
        d, st = sc.fresh()
        st = st.setfact(O('isinst', PROMPT, 'str'), True)
        st = st.assume(mk_eq(O('type', PROMPT), ('x', 'builtins.str')), True) or st
        what = "input() with %d arguments" % n
        want = [PROMPT if n else C(""), SHOW if n > 1 else TRUE]
        for s, v in sc.ask(d, st, 'input', [PROMPT, SHOW][:n]):
            if sc.failed(d, s, v, what, 'input'):
                continue
            asks = [a for name, a in s.mon if name == 'input']
            if any(a is None for a in asks):
                sc.verdict(None)
                continue
            if len(asks) != 1:
                sc.bad(d, s, "%s reads %s" % (what, 'nothing' if not asks else 'more than once'), 'input')
                continue
            given = [strip_str(s.eqc(x) or x) for x in asks[0]]
            for i, (x, y) in enumerate(itertools.zip_longest(given, want, fillvalue=None)):
                if x == y or x is None and i == 1 and n < 2:
                    continue
                if x is not None and y is not None and s.known_truth(x) is not None and s.known_truth(x) == s.known_truth(y) and i == 1:
                    continue
                if x is None or is_c(x) or x in (PROMPT, SHOW) or x[0] == 'o' and x[1] in ('not', 'truth', 'repr'):
                    sc.bad(d, s, "%s asks with %s as the %s" % (what, show(x) if x else 'nothing', ('prompt', 'choice to show what is typed')[i] if i < 2 else 'extra argument'), 'input')
                    break
                sc.verdict(None)
                break
            else:
                if v == TEXT:
                    sc.verdict(True)
                elif is_c(v) or v in (PROMPT, SHOW) or v[0] == 'co':
                    sc.bad(d, s, "%s gives %s instead of the text read" % (what, show(v)), 'input')
                else:
                    sc.verdict(None)
        sc.res.absorb(d.eng)


def strip_str(x):
    while x[0] == 'o' and x[1] in ('str', 'call:builtins.str') and len(x) == 3:
        x = x[2]
    return x


def run(repo, res):
    res.rules = ['new-collection: list, set and dict give a new collection of exactly the arguments',
                 'append: the values are added to the given list or set one by one, in order, and it is given back',
                 'update: the key has the value in the given dict, the other entries stay, and it is given back',
                 'arithmetic: inc and dec change a number by one, add adds up all its arguments',
                 'print: the arguments are printed once, all of them, in order',
                 'input: the text read with the given prompt and choice to show it is given back']
    res.explanation = ('Every function is called through the routine that actions use, with arguments of which nothing is known (and with constants where the '
                       'result is a number), and what is built, changed, printed, asked and given back is compared with the documentation on every path.')
    res.assumptions = ['Up to four arguments; arguments are different from each other and not None.']
    sc = Script(repo, res)
    collections(sc)
    growing(sc)
    arithmetic(sc)
    printing(sc)
    reading(sc)
    res.need('calls', 40, 'calls of the functions')
    res.need('results_right', 20, 'results compared')

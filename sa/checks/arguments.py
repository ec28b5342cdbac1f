"""C27: arguments reach parameters by position, name and default."""

import itertools

from ..values import C, S, O, R, T, NONE, TRUE, FALSE, is_c, Exc, show, mentions
from ..cliclient import CliClient, need_class, need_method, keep
from ..drive import Drive, normal
from ..state import Obj, mk_eq
from ..result import Anchor
from ..productions import action
from .repetition import reduce_by, prepare

PARAMS = [S('p', 'param%d' % i) for i in range(3)]
DEFAULTS = [S('p', 'default%d' % i) for i in range(3)]
VALUES = [S('p', 'value%d' % i) for i in range(4)]
OTHER = S('p', 'no_param')


class Args(CliClient):
    merge_limit = 200
    unroll = 9
    distinct = 8

    def is_opaque(self, eng, st, ctx, tgt):
        return False


def of_class(repo, st, v, cls):
    """The symbol is an instance of exactly this (string) class."""
    cid = need_class(repo, cls)
    st = st.setfact(O('isinst', v, cid), True)
    st = st.setfact(O('isinst', v, 'str'), True)
    s = st.assume(mk_eq(O('type', v), ('k', cid)), True)
    st = s if s is not None else st
    return st.assume(v, True) or st


def params_in(repo, d, st, n, defaults):
    """n parameters with pairwise different names -> (state, list)"""
    for i in range(n):
        st = of_class(repo, st, PARAMS[i], 'CliParameter')
        has = TRUE if defaults[i] else FALSE
        st = st.setobj(('ov', PARAMS[i]), Obj('inst', None, {'has_def_value': has, 'defvalue': DEFAULTS[i] if defaults[i] else NONE, 'name': PARAMS[i]}))
    for a, b in itertools.combinations(PARAMS[:n] + [OTHER], 2):
        st = st.assume(mk_eq(a, b), False)
    return d.eng.new_list(st, d.ctx, d.node(), PARAMS[:n])


def args_in(repo, d, st, names):
    """Arguments: None is positional, otherwise the name -> (state, list)"""
    items = []
    for i, nm in enumerate(names):
        a = S('p', 'arg%d' % i)
        if nm is not None:
            st = of_class(repo, st, nm, 'DollarVariable') if nm == OTHER else st
        st = st.setobj(('ov', a), Obj('inst', None, {'value': VALUES[i], 'param_name': nm if nm is not None else NONE,
                                                     '_value': VALUES[i], '_param_name': nm if nm is not None else NONE}))
        st = st.setfact(O('isinst', a, need_class(repo, 'CliArgument')), True)
        st = st.assume(a, True) or st
        items.append(a)
    return d.eng.new_list(st, d.ctx, d.node(), items)


def expected(n, names, defaults):
    """{parameter index: value} or None when the reference is to be rejected."""
    out = {}
    named = False
    if len(names) > n:
        return None
    for i, nm in enumerate(names):
        if nm is None:
            if named:
                return None
            out[i] = VALUES[i]
        else:
            named = True
            j = PARAMS.index(nm) if nm in PARAMS[:n] else None
            if j is None or j in out:
                return None
            out[j] = VALUES[i]
    for j in range(n):
        out.setdefault(j, DEFAULTS[j] if defaults[j] else NONE)
    return out


def shapes(most):
    for n in range(0, most + 1):
        for m in range(0, min(n + 1, 3) + 1):
            for names in itertools.product([None] + PARAMS[:n] + [OTHER], repeat=m):
                dset = {(False,) * n, (True,) * n, tuple(i % 2 == 0 for i in range(n)), tuple(i % 2 == 1 for i in range(n))} if m < 3 else {(True,) * n, (False,) * n}
                for defaults in sorted(dset):
                    yield n, names, defaults


def tell(n, names, defaults):
    a = ', '.join('positional' if x is None else 'unknown name' if x == OTHER else 'parameter %d by name' % (PARAMS.index(x) + 1) for x in names)
    return "%d parameters and the arguments (%s)" % (n, a)


def value_of(d, st, m, key):
    """The value bound to a parameter in the result -> [(state, value or None)]"""
    out = []
    for s, arg in d.guard(lambda: d.eng.get_item(st, m, key, d.ctx, d.node())):
        if isinstance(arg, Exc):
            out.append((s, arg))
            continue
        for s2, v in d.get(s, arg, 'value'):
            out.append((s2, v))
    return out


def judge(repo, res, d, fi, n, names, defaults, outs):
    want = expected(n, names, defaults)
    for s, v in outs:
        res.count('references')
        if isinstance(v, Exc):
            if want is None:
                res.count('rejected')
            elif v.kind[0] == 'cls':
                d.eng.report('arguments-accepted', fi.where, fi.qual, "%s: rejected" % tell(n, names, defaults), s)
            continue
        if want is None:
            if v[0] == 'r':
                d.eng.report('senseless-rejected', fi.where, fi.qual, "%s: accepted" % tell(n, names, defaults), s)
            else:
                res.count('undecided')
            continue
        if v[0] != 'r' or v[1] not in s.heap or s.heap[v[1]].kind != 'dict':
            res.count('undecided')
            continue
        for j in range(n):
            for s2, got in value_of(d, s, v, PARAMS[j]):
                if isinstance(got, Exc):
                    if s2.heap[v[1]].data[1] is False or not s2.heap[v[1]].data[1]:
                        d.eng.report('bound-right', fi.where, fi.qual, "%s: parameter %d gets nothing at all" % (tell(n, names, defaults), j + 1), s2)
                    continue
                if got == want[j]:
                    res.count('bindings_right')
                elif got in VALUES or got in DEFAULTS or is_c(got) or got in PARAMS:
                    d.eng.report('bound-right', fi.where, fi.qual, "%s: parameter %d gets %s instead of %s" % (
                        tell(n, names, defaults), j + 1, show(got), show(want[j])), s2)
                else:
                    res.count('undecided')


def attr_is(d, st, v, name, want):
    """[(state, True / False / None)]"""
    out = []
    for s, x in d.get(st, v, name):
        if isinstance(x, Exc):
            continue
        if isinstance(want, bool):
            known = s.known_truth(x)
            if known is None and depends_only(x, VALUES) and s.assume(x, not want) is not None:
                known = not want            # it turns on what is written
            out.append((s, known == want if known is not None else None))
        else:
            out.append((s, True if x == want or s.eqc(x) == want else False if x in VALUES or x in PARAMS or is_c(x) else None))
    return out


def depends_only(x, syms):
    if not isinstance(x, tuple):
        return True
    if x in syms:
        return True
    if x and x[0] in ('s', 'r'):
        return False
    if x and x[0] in ('c', 'k'):
        return True
    return any(isinstance(y, tuple) for y in x) and all(depends_only(y, syms) for y in x if isinstance(y, tuple))


def written(repo, res):
    """The grammar actions make of the text the arguments and parameters that are written there."""
    P = 'NessaidCliParser'

    def one(fi, items, wants, what):
        d, st = prepare(repo, fi)
        st = of_class(repo, st, PARAMS[0], 'DollarVariable')
        for v in VALUES:
            st = st.assume(mk_eq(v, NONE), False)
        for s, v in reduce_by(d, st, fi, items):
            res.count('written')
            if isinstance(v, Exc):
                if v.kind[0] == 'cls':
                    d.eng.report('as-written', fi.where, fi.qual, "%s is rejected" % what, s)
                continue
            for name, want in wants:
                for s2, ok in attr_is(d, s, v, name, want):
                    if ok is False:
                        d.eng.report('as-written', fi.where, fi.qual, "%s does not have the written %s" % (what, name.replace('_', ' ')), s2)
                    else:
                        res.count('written_right' if ok else 'undecided')
        res.absorb(d.eng)
    one(action(repo, P, 'argument', 'argument_types'), [VALUES[0]], [('value', VALUES[0]), ('param_name', NONE)], 'a positional argument')
    one(action(repo, P, 'argument', 'parameter_name', 'ASSIGN', 'argument_types'), [PARAMS[0], C('='), VALUES[0]],
        [('value', VALUES[0]), ('param_name', PARAMS[0])], 'a named argument')
    one(action(repo, P, 'parameter', 'parameter_name'), [PARAMS[0]], [('has_def_value', False)], 'a parameter')
    one(action(repo, P, 'parameter', 'parameter_name', 'ASSIGN', 'parameter_value'), [PARAMS[0], C('='), VALUES[0]],
        [('has_def_value', True), ('defvalue', VALUES[0])], 'a parameter with a default')
    # lists keep their order
    for head, item in (('argument_sequence', 'argument'), ('parameter_list', 'parameter')):
        first = action(repo, P, head, item)
        more = action(repo, P, head, head, 'COMMA', item)
        d, st = prepare(repo, first)
        work = [r for r in reduce_by(d, st, first, [VALUES[0]]) if not isinstance(r[1], Exc)]
        for i in (1, 2):
            work = [x for s, v in work for x in reduce_by(d, s, more, [v, C(','), VALUES[i]]) if not isinstance(x[1], Exc)]
        for s, v in work:
            got = d.eng.iter_items(s, v)
            res.count('written')
            if got is None:
                res.count('undecided')
            elif got != VALUES[:3]:
                d.eng.report('as-written', more.where, more.qual, "a list of three is read as %s" % ', '.join(show(x) for x in got), s)
            else:
                res.count('written_right')
        res.absorb(d.eng)


def run(repo, res):
    res.rules = ['bound-right: every parameter of the referenced rule is bound to its positional argument, to the argument of its name, or to its default or nothing',
                 'arguments-accepted: arguments that fit the parameters are not rejected',
                 'senseless-rejected: too many arguments, an unknown or repeated name, or a positional argument after a named one is rejected',
                 'as-written: arguments, parameters and their lists are read with the written values, names, defaults and order',
                 'grammar-untouched: binding changes neither the rule nor the reference',
                 'defined-by-reference: a reference to a rule is built and entered with the same binding']
    res.explanation = ('The binding of arguments is run for every shape of up to three parameters and three or four arguments, with names, values and defaults '
                       'of which only the names\' difference is known; what each parameter is bound to on each path is compared with the rule.')
    res.assumptions = ['Up to three parameters and three arguments (four when they are too many).']
    fi = repo.func('elements', 'map_grammar_arguments')
    if fi is None:
        raise Anchor("map_grammar_arguments not found")
    for n, names, defaults in shapes(3):
        d = Drive(repo, Args(repo), fi)
        st, pl = params_in(repo, d, d.start(), n, defaults)
        st = keep(st, pl[1])
        st, al = args_in(repo, d, st, names)
        st = keep(st, al[1])
        judge(repo, res, d, fi, n, names, defaults, d.func(st, fi, C('rule'), pl, al))
        # the parameters and arguments belong to the grammar and stay as they are
        for s, v in d.func(st, fi, C('rule'), pl, al):
            if isinstance(v, Exc):
                continue
            for l, what in ((pl, 'parameters of the rule'), (al, 'arguments of the reference')):
                if s.heap.get(l[1]) is not None and s.heap[l[1]] != st.heap[l[1]]:
                    d.eng.report('grammar-untouched', fi.where, fi.qual, "binding arguments changes the %s" % what, s)
        res.count('shapes')
        res.absorb(d.eng)
    # through a reference in a grammar
    ctor = need_method(repo, 'GrammarRefElement', '__init__')
    for n, names, defaults in shapes(2):
        if not names:
            continue
        d = Drive(repo, Args(repo), ctor)
        body = S('p', 'body')
        st, pl = params_in(repo, d, d.start(), n, defaults)
        st = keep(st, pl[1]).setfact(O('isinst', body, need_class(repo, 'InputElement')), True)
        st, al = args_in(repo, d, st, names)
        st = keep(st, al[1])
        for s, g in normal(d.new(st, 'NamedGrammar', C('rule'), pl, body)):
            outs = []
            for s2, e in d.new(s, 'GrammarRefElement', g, al):
                outs += [(s2, e)] if isinstance(e, Exc) else d.get(s2, e, 'param_mapping')
            judge(repo, res, d, ctor, n, names, defaults, outs)
            res.count('shapes')
        res.absorb(d.eng)
    written(repo, res)
    res.need('shapes', 100, 'shapes of references')
    res.need('bindings_right', 100, 'bindings compared')
    res.need('rejected', 20, 'rejected references')

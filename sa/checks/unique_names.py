"""C18: a name is defined at most once, and a repeated definition is rejected without touching the first."""

import itertools

from ..values import C, S, O, R, T, NONE, is_c, Exc, ANY_EXC, show, mentions
from ..cliclient import CliClient, need_class, need_method, keep
from ..drive import Drive, normal
from ..state import Obj, mk_eq
from ..result import Anchor
from ..productions import action

NAMES = [S('p', 'first_name'), S('p', 'second_name'), S('p', 'third_name')]
BODY = [S('p', 'first_body'), S('p', 'second_body'), S('p', 'third_body')]


class Names(CliClient):
    merge_limit = 200
    unroll = 9
    distinct = 4

    def is_opaque(self, eng, st, ctx, tgt):
        return False


def same(st, a, b):
    """Are the two names equal on this path?"""
    if a == b:
        return True
    x, y = st.eqc(a) or a, st.eqc(b) or b
    if x == y:
        return True
    if is_c(x) and is_c(y):
        return False
    k = st.known_truth(mk_eq(a, b))
    return k


def typed(repo, st):
    for b in BODY:
        st = st.setfact(O('isinst', b, need_class(repo, 'InputElement')), True)
    for n in NAMES:
        st = st.setfact(O('isinst', n, 'str'), True)
    return st


# -- ways to define a name: (label, definer(d, st, parser, spec, i) -> results) ---
def define(repo, d, st, spec, kind, i):
    """Direct use of the specification object."""
    if kind == 'rule':
        out = []
        for s, g in normal(d.new(st, 'NamedGrammar', NAMES[i], NONE, BODY[i])):
            out += [(s2, v, g) for s2, v in d.call(s, spec, 'add_grammar', g)]
        return out
    out = []
    for s, l in [d.eng.new_list(st, d.ctx, d.node())]:
        for s2, t in normal(d.new(s, 'TokenClassDef', C('CliToken'), l)):
            out += [(s3, v, t) for s3, v in d.call(s2, spec, 'add_token_def', NAMES[i], t)]
    return out


def define_parsed(repo, d, st, parser, kind, i):
    """Through the grammar action that handles the definition."""
    out = []
    if kind == 'rule':
        fi = action(repo, 'NessaidCliParser', 'named_grammar', 'identifier', 'optional_parameter_list', 'COLON', 'rule', 'SEMICOLON')
        s, params = d.eng.new_list(st, d.ctx, d.node())
        s, t = d.eng.new_list(s, d.ctx, d.node(), [NONE, NAMES[i], params, C(':'), BODY[i], C(';')])
        s = keep(s, t[1])
        for s2, v in d.call(s, parser, fi.name, t):
            g = None
            if not isinstance(v, Exc):
                got = normal(d.guard(lambda: d.eng.get_item(s2, t, C(0), d.ctx, d.node())))
                g = got[0][1] if len(got) == 1 else None
            out.append((s2, v, g))
        return out
    fi = action(repo, 'NessaidCliParser', 'token_block', 'TOKEN', 'token_spec_list', 'SEMICOLON')
    s, l = d.eng.new_list(st, d.ctx, d.node())
    for s2, td in normal(d.new(s, 'TokenClassDef', C('CliToken'), l)):
        s3, specs = d.eng.new_list(s2, d.ctx, d.node(), [T((NAMES[i], td))])
        s3, t = d.eng.new_list(s3, d.ctx, d.node(), [NONE, C('token'), specs, C(';')])
        s3 = keep(s3, t[1])
        out += [(s4, v, td) for s4, v in d.call(s3, parser, fi.name, t)]
    return out


def lookup(d, st, spec, name):
    """What the specification knows the name as: [(state, rule, token)]"""
    out = []
    for s, g in normal(d.call(st, spec, 'get_grammar', name)):
        for s2, t in normal(d.call(s, spec, 'get_tokendef', name)):
            out.append((s2, g, t))
    return out


def histories(repo, res, n, how):
    fi = need_method(repo, 'GrammarSpecification', 'add_grammar')
    need_method(repo, 'GrammarSpecification', 'add_token_def')
    need_method(repo, 'GrammarSpecification', 'get_grammar')
    need_method(repo, 'GrammarSpecification', 'get_tokendef')
    for kinds in itertools.product(('rule', 'token'), repeat=n):
        d = Drive(repo, Names(repo), fi)
        st = typed(repo, d.start())
        for s, spec in normal(d.new(st, 'GrammarSpecification')):
            parser = R('self')
            s = s.setobj('self', Obj('inst', need_class(repo, 'NessaidCliParser'), {'_grammar_spec': spec}))
            work = [(s, [])]
            for i, kind in enumerate(kinds):
                nxt = []
                last = i == len(kinds) - 1
                for s1, defs in work:
                    made = define(repo, d, s1, spec, kind, i) if how == 'spec' else define_parsed(repo, d, s1, parser, kind, i)
                    for s2, v, obj in made:
                        res.count('definitions')
                        eqs = [same(s2, NAMES[i], NAMES[j]) for j, _, _ in defs]
                        failed = isinstance(v, Exc)
                        target = repo.method('GrammarSpecification', 'add_grammar' if kind == 'rule' else 'add_token_def')
                        story = ' then '.join('a %s' % k for k in kinds[:i + 1])
                        if not failed and True in eqs:
                            d.eng.report('defined-once', target.where, target.qual, "the same name is accepted as %s" % story, s2)
                            continue
                        if not failed and None in eqs:
                            # nothing asked about the two names: they may be the same
                            j = [defs[k][0] for k, e in enumerate(eqs) if e is None]
                            if any(s2.assume(mk_eq(NAMES[i], NAMES[k]), True) is not None and not consulted(s2, NAMES[i], NAMES[k]) for k in j):
                                d.eng.report('defined-once', target.where, target.qual, "the same name is accepted as %s" % story, s2)
                            else:
                                res.count('undecided')
                            continue
                        if failed:
                            if True in eqs:
                                res.count('rejections')
                            elif None in eqs:
                                res.count('undecided')
                            elif all(e is False for e in eqs) and (v.kind[0] == 'cls'):
                                d.eng.report('new-name-accepted', target.where, target.qual, "a new name is rejected after %s" % story, s2)
                        if not failed:
                            res.count('accepted')
                        now = defs if failed else defs + [(i, kind, obj)]
                        intact(repo, res, d, s2, spec, now, target, failed)
                        if not failed and not last:
                            nxt.append((s2, now))
                work = nxt
        res.count('histories')
        res.absorb(d.eng)


def consulted(st, a, b):
    """Is some other fact about both names known on the path?"""
    return any(mentions(k, a) and mentions(k, b) for k in st.facts)


def intact(repo, res, d, st, spec, defs, target, failed):
    """Every definition made so far is still the one that is found."""
    for j, kind, obj in defs:
        if obj is None:
            continue
        for s, g, t in lookup(d, st, spec, NAMES[j]):
            res.count('lookups')
            want = (obj, NONE) if kind == 'rule' else (NONE, obj)
            for got, w in zip((g, t), want):
                if got == w:
                    continue
                if got == NONE or got[0] == 'r' and got[1] in s.heap or is_c(got):
                    d.eng.report('first-kept', target.where, target.qual, "%s a definition, the %s it defined first is found as %s" % (
                        'after rejecting' if failed else 'after accepting', kind, show(got)), s)
                else:
                    res.count('undecided')


def block(repo, res):
    """Two names in one token statement."""
    fi = action(repo, 'NessaidCliParser', 'token_block', 'TOKEN', 'token_spec_list', 'SEMICOLON')
    d = Drive(repo, Names(repo), fi)
    st = typed(repo, d.start())
    for s, spec in normal(d.new(st, 'GrammarSpecification')):
        s = s.setobj('self', Obj('inst', need_class(repo, 'NessaidCliParser'), {'_grammar_spec': spec}))
        s, l = d.eng.new_list(s, d.ctx, d.node())
        s = keep(s, l[1])
        for s1, a in normal(d.new(s, 'TokenClassDef', C('CliToken'), l)):
            for s2, b in normal(d.new(s1, 'TokenClassDef', C('StringToken'), l)):
                s3, specs = d.eng.new_list(s2, d.ctx, d.node(), [T((NAMES[0], a)), T((NAMES[1], b))])
                s3, t = d.eng.new_list(s3, d.ctx, d.node(), [NONE, C('token'), specs, C(';')])
                s3 = keep(s3, t[1])
                for s4, v in d.call(s3, R('self'), fi.name, t):
                    eq = same(s4, NAMES[0], NAMES[1])
                    if isinstance(v, Exc):
                        if eq is True:
                            res.count('rejections')
                        continue
                    if eq is True or eq is None and not consulted(s4, NAMES[0], NAMES[1]):
                        d.eng.report('defined-once', fi.where, fi.qual, "the same name is accepted twice in one token statement", s4)
                    elif eq is False:
                        res.count('accepted')
                        intact(repo, res, d, s4, spec, [(0, 'token', a), (1, 'token', b)], fi, False)
    res.absorb(d.eng)


# -- parameters of one rule ---------------------------------------------------
def parameters(repo, res):
    fi = need_method(repo, 'NamedGrammar', '__init__')
    for n in (1, 2, 3):
        d = Drive(repo, Names(repo), fi)
        st = typed(repo, d.start())
        s, l = d.eng.new_list(st, d.ctx, d.node(), NAMES[:n])
        s = keep(s, l[1])
        for s2, v in d.new(s, 'NamedGrammar', C('rule'), l, BODY[0]):
            pairs = list(itertools.combinations(range(n), 2))
            eqs = [same(s2, NAMES[i], NAMES[j]) for i, j in pairs]
            res.count('parameter_lists')
            if isinstance(v, Exc):
                if True in eqs:
                    res.count('rejections')
                elif all(e is False for e in eqs) and v.kind[0] == 'cls':
                    d.eng.report('distinct-parameters', fi.where, fi.qual, "%d different parameters are rejected" % n, s2)
                continue
            free = [p for p, e in zip(pairs, eqs) if e is None and not consulted(s2, NAMES[p[0]], NAMES[p[1]])]
            if True in eqs or any(s2.assume(mk_eq(NAMES[i], NAMES[j]), True) is not None for i, j in free):
                d.eng.report('distinct-parameters', fi.where, fi.qual, "a rule is accepted with the same parameter twice among %d" % n, s2)
            elif None in eqs:
                res.count('undecided')
            else:
                res.count('accepted')
        res.absorb(d.eng)


# -- rejection reaches the caller ------------------------------------------------
class Through(CliClient):
    """The parser machinery runs the grammar actions, so it raises what they raise."""
    def is_opaque(self, eng, st, ctx, tgt):
        return tgt.fi is not None and tgt.fi.cls is not None and tgt.fi.name in ('__init__', 'enter_state')

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        if tgt.kind == 'class':
            st, r = eng.alloc(st, ctx, node, 'inst', tgt.val[1], {})
            return [(st, r)]
        if tgt.kind in ('meth', 'sym') and str(tgt.name).split('.')[-1] == 'parse':
            return [(st.setmon('parsed'), S('spec', getattr(node, 'lineno', 0))), (st.setmon('rejected'), Exc(ANY_EXC, tag='dup'))]
        return None

    def may_raise(self, eng, st, ctx, tgt, node):
        return []


def reaches(repo, res):
    fi = repo.func('compiler', 'compile_grammar')
    if fi is None:
        raise Anchor("compile_grammar not found")
    cl = Through(repo)
    d = Drive(repo, cl, fi)
    n = 0
    for s, v in d.func(d.start(), fi, S('p', 'text')):
        if s.mon != 'rejected':
            continue
        n += 1
        if not isinstance(v, Exc):
            d.eng.report('rejection-reaches-caller', fi.where, fi.qual, "a definition rejected while parsing ends in the result %s" % show(v), s)
        else:
            res.count('rejections_passed_on')
    res.absorb(d.eng)


def run(repo, res):
    res.rules = ['defined-once: after any one or two definitions, no further definition of one of their names is accepted, whether as rule or as token',
                 'first-kept: after every definition, accepted or rejected, each name is found exactly as it was first defined',
                 'new-name-accepted: a name that differs from all earlier ones is not rejected',
                 'distinct-parameters: a rule is accepted only with parameters that are pairwise different',
                 'rejection-reaches-caller: compile_grammar does not turn a rejection into a result']
    res.explanation = ('The specification object and the grammar actions are run on definitions whose names are unknown; each path knows which of the '
                       'names are equal, and what is accepted, rejected and found afterwards is compared with that.')
    res.assumptions = ['Histories of two and three definitions through the specification object and two through the grammar actions.',
                       'The parser generator passes on exceptions of grammar actions (other than SyntaxError, which none of them raises).']
    histories(repo, res, 2, 'spec')
    histories(repo, res, 3, 'spec')
    histories(repo, res, 2, 'parser')
    block(repo, res)
    parameters(repo, res)
    reaches(repo, res)
    res.need('histories', 16, 'histories of definitions')
    res.need('rejections', 8, 'rejected definitions')
    res.need('accepted', 8, 'accepted definitions')

"""C19: a repetition admits exactly the counts its bounds allow, and its actions are kept."""

import itertools

from ..values import C, S, O, R, T, NONE, is_c, Exc, lin_add, lin_mul, show
from ..cliclient import CliClient, need_class, need_method, keep
from ..drive import Drive, normal
from ..state import Obj, mk_eq
from ..productions import action

PARSER = 'NessaidCliParser'

PRE, POST = S('p', 'action_before'), S('p', 'action_after')
LOW, HIGH = S('p', 'lower'), S('p', 'upper')
TOP = 6


class Reps(CliClient):
    merge_limit = 200
    unroll = 9
    distinct = 8

    def is_opaque(self, eng, st, ctx, tgt):
        return False


class Tree:
    """Reads an element tree out of a state."""

    def __init__(self, d, st):
        self.d, self.st, self.repo = d, st, d.repo

    def attr(self, v, name):
        r = normal(self.d.get(self.st, v, name))
        return r[0][1] if len(r) == 1 else None

    def is_a(self, v, cls):
        o = self.st.heap.get(v[1]) if v[0] == 'r' else None
        return o is not None and o.kind == 'inst' and o.cls in self.repo.classes and need_class(self.repo, cls) in self.repo.mro(o.cls)

    def parts(self, v):
        x = self.attr(v, 'value')
        return x[1] if x is not None and x[0] == 't' else None

    def leaf(self, v):
        return self.is_a(v, 'InputElement') and not self.is_a(v, 'InputElementHolder')

    def counts(self, v):
        """The numbers of words the element admits, as a set; None when not known."""
        if self.leaf(v):
            return {1}
        ps = self.parts(v) if self.is_a(v, 'InputElementCollection') else None
        n = self.attr(v, 'repeat_count') if ps is not None else None
        if ps is None or n is None or not is_c(n) or not 0 < n[2] <= 4 * TOP:
            return None
        sets = [self.counts(p) for p in ps]
        if None in sets:
            return None
        if self.is_a(v, 'AlternativeInputElement'):
            out = set().union(*sets)
        else:
            out = fold(sets)
        if self.is_a(v, 'OptionalInputElement'):
            return out | {0}
        return fold([out] * n[2])

    def span(self, v):
        """(least, most) of an element that admits everything between; None when not known."""
        if self.leaf(v):
            return C(1), C(1)
        ps = self.parts(v) if self.is_a(v, 'InputElementCollection') else None
        n = self.attr(v, 'repeat_count') if ps is not None else None
        if ps is None or n is None or self.is_a(v, 'AlternativeInputElement') and len(ps) > 1:
            return None
        lo = hi = C(0)
        for p in ps:
            s = self.span(p)
            if s is None:
                return None
            lo, hi = lin_add(lo, s[0]), lin_add(hi, s[1])
        lo, hi = lin_mul(lo, n), lin_mul(hi, n)
        if lo is None or hi is None:
            return None
        if self.is_a(v, 'OptionalInputElement'):
            return (C(0), hi) if is_c(lo) and lo[2] in (0, 1) else None
        return lo, hi

    def leaves(self, v):
        if self.leaf(v):
            return [v]
        ps = self.parts(v) if self.is_a(v, 'InputElementCollection') else None
        if ps is None:
            return None
        out = []
        for p in ps:
            x = self.leaves(p)
            if x is None:
                return None
            out += x
        return out

    def nodes(self, v):
        if self.leaf(v):
            return [v]
        ps = self.parts(v) if self.is_a(v, 'InputElementCollection') else None
        out = [v]
        for p in ps or ():
            out += self.nodes(p)
        return out

    def actions(self, v):
        """Actions before and after it, where they are known"""
        out = []
        for n in ('pre_match_binding', 'post_match_binding'):
            x = self.attr(v, n)
            out.append(x[1] if x is not None and x[0] == 't' else None)
        return out


def fold(sets):
    out = {0}
    for s in sets:
        out = {a + b for a in out for b in s}
    return out


def times(base, ks):
    out = set()
    for k in ks:
        out |= fold([base] * k)
    return out


# -- terms that are repeated -------------------------------------------------------
def word(d, st):
    return d.new(st, 'KeywordInputElement', C('word'), NONE)


def pair(d, st):
    return [(s2, v) for s, a in normal(word(d, st)) for s1, b in normal(word(d, s)) for s2, v in d.new(s1, 'SequenceInputElement', T((a, b)))]


def twice(d, st):
    out = []
    for s, a in normal(word(d, st)):
        for s1, v in normal(d.new(s, 'SequenceInputElement', T((a,)))):
            out += [(s2, v) for s2, r in d.set(s1, v, 'repeat_count', C(2)) if not isinstance(r, Exc)]
    return out


def optional(d, st):
    return [r for s, a in normal(word(d, st)) for r in d.new(s, 'OptionalInputElement', T((a,)))]


def either(d, st):
    return [r for s, a in normal(word(d, st)) for s1, b in normal(pair(d, s)) for r in d.new(s1, 'AlternativeInputElement', T((a, b)))]


TERMS = [('a word', word), ('a sequence of two words', pair), ('a word twice', twice), ('an optional word', optional), ('a choice of one or two words', either)]


def with_actions(d, results):
    out = []
    for s, v in normal(results):
        for s1, r in d.set(s, v, 'pre_match_binding', T((PRE,))):
            for s2, r2 in d.set(s1, v, 'post_match_binding', T((POST,))):
                if not isinstance(r, Exc) and not isinstance(r2, Exc):
                    out.append((s2, v))
    return out


def reduce_by(d, st, fi, items):
    """Run a grammar action on the right-hand side -> [(state, value of the left-hand side or Exc)]"""
    s, t = d.eng.new_list(st, d.ctx, d.node(), [NONE] + list(items))
    s = keep(s, t[1])
    out = []
    for s2, v in d.call(s, R('self'), fi.name, t):
        if isinstance(v, Exc):
            out.append((s2, v))
        else:
            out += d.hold(d.guard(lambda: d.eng.get_item(s2, t, C(0), d.ctx, d.node())))
    return out


def prepare(repo, fi):
    d = Drive(repo, Reps(repo), fi)
    return d, d.start().setobj('self', Obj('inst', need_class(repo, 'NessaidCliParser'), {}))


def check_actions(repo, res, d, st, fi, term, tree, what):
    """Every copy of the repeated block carries the block's actions."""
    t = Tree(d, st)
    heads = [n for n in t.nodes(tree) if n == term or t.is_a(n, 'InputElement') and st.heap[n[1]].cls == st.heap[term[1]].cls and
             [PRE] == list((t.actions(n)[0] or ())[-1:])]
    acts = [t.actions(n) for n in t.nodes(tree)]
    if any(a is None for p in acts for a in p):
        res.count('undecided')
        return
    lv = t.leaves(tree)
    if not heads or lv is None:
        res.count('undecided')
        return
    # every word lies inside a node with the actions
    covered = set()
    for which in (0, 1):
        want = (PRE, POST)[which]
        cov = set()
        for n, a in zip(t.nodes(tree), acts):
            if want in a[which]:
                cov |= set(t.leaves(n) or ())
        missing = [x for x in lv if x not in cov]
        if missing:
            d.eng.report('actions-kept', fi.where, fi.qual, "a round of %s has lost the actions %s it" % (what, ('before', 'after')[which]), st)
            return
        covered |= cov
    res.count('actions_kept')


def multiplied(repo, res, texts, ks, what, terms, refuse=False, either_way=False):
    """term * repeater for constant bounds"""
    rep = action(repo, PARSER, 'repeater', *{1: ('INTEGER',), 3: ('LPAREN', 'INTEGER', 'RPAREN')}.get(
        len(texts), ('LPAREN', 'INTEGER', 'COLON', 'INTEGER', 'RPAREN')))
    mul = action(repo, PARSER, 'term', 'term', 'MULTIPLY', 'repeater')
    for label, make in terms:
        d, st = prepare(repo, mul)
        for s, term in with_actions(d, make(d, st)):
            base = Tree(d, s).counts(term)
            for s1, r in reduce_by(d, s, rep, [C(x) for x in texts]):
                if isinstance(r, Exc):
                    outs = [(s1, r)]
                elif r[0] != 't' or not all(is_c(x) for x in r[1]):
                    res.count('undecided')
                    continue
                else:
                    outs = reduce_by(d, s1, mul, [term, C('*'), r])
                for s2, e in outs:
                    res.count('repetitions')
                    if isinstance(e, Exc):
                        if refuse or either_way:
                            res.count('rejected')
                        elif e.kind[0] == 'cls':
                            d.eng.report('counts-admitted', mul.where, mul.qual, "repeating %s %s is rejected" % (label, what), s2)
                        continue
                    if refuse:
                        d.eng.report('senseless-rejected', mul.where, mul.qual, "repeating %s %s is accepted" % (label, what), s2)
                        continue
                    got = Tree(d, s2).counts(e)
                    if got is None or base is None:
                        res.count('undecided')
                        continue
                    want = times(base, ks)
                    if got != want:
                        d.eng.report('counts-admitted', mul.where, mul.qual, "repeating %s %s admits %s words instead of %s" % (
                            label, what, sorted(got), sorted(want)), s2)
                        continue
                    res.count('counts_right')
                    check_actions(repo, res, d, s2, mul, term, e, label)
        res.absorb(d.eng)


def differ(d, res, st, mul, got, want, name):
    eq = mk_eq(got, want)
    if st.assume(eq, True) is None:
        d.eng.report('counts-admitted', mul.where, mul.qual, "the %s rounds of a repetition are %s instead of the %s bound" % (
            name, show(got), 'lower' if want == LOW else 'upper'), st)
    elif st.assume(eq, False) is None:
        res.count('bounds_right')
    else:
        res.count('undecided')


def inner(v):
    """A least or greatest of two inside the value."""
    if not isinstance(v, tuple):
        return None
    if v[:1] == ('o',) and v[1] in ('min', 'max') and len(v) == 4:
        return v
    for x in v:
        r = inner(x)
        if r is not None:
            return r
    return None


def cases(st, vals, fuel=4):
    """The values with every least or greatest of two decided, one state per case."""
    m = next((x for x in map(inner, vals) if x is not None), None)
    if m is None or fuel == 0:
        return [(st, vals)]
    out = []
    for less in (True, False):
        s = st.assume(O('<', m[2], m[3]), less)
        if s is not None:
            pick = m[2] if less == (m[1] == 'min') else m[3]
            out += cases(s, tuple(relin(v, m, pick) for v in vals), fuel - 1)
    return out


def relin(v, old, new):
    if v == old:
        return new
    if v[0] == 'lin':
        out = C(0)
        for t, c in v[2]:
            term = lin_mul(relin(t, old, new), C(int(c))) if c.denominator == 1 else None
            out = lin_add(out, term) if term is not None and out is not None else None
        return lin_add(out, C(int(v[1]))) if out is not None and v[1].denominator == 1 else v
    return v


def any_bounds(repo, res):
    """The bounds as unknowns: lower <= upper, the path says which case they are in."""
    mul = action(repo, PARSER, 'term', 'term', 'MULTIPLY', 'repeater')
    for known in ((), ((LOW, 0),), ((LOW, 1),), ((LOW, 2),)):
        d, st = prepare(repo, mul)
        for x in (LOW, HIGH):
            st = st.setfact(O('isinst', x, 'int'), True)
        for x, k in known:
            st = st.assume(mk_eq(x, C(k)), True) or st
        st = st.assume(O('<', HIGH, LOW), False) or st
        st = st.assume(O('<', LOW, C(0)), False) or st
        for s, term in with_actions(d, word(d, st)):
            for s1, e in reduce_by(d, s, mul, [term, C('*'), T((LOW, HIGH))]):
                res.count('bounds_cases')
                if isinstance(e, Exc):
                    continue
                sp = Tree(d, s1).span(e)
                if sp is None:
                    res.count('undecided')
                    continue
                for s1, sp in cases(s1, sp):
                    for got, want, name in ((sp[0], LOW, 'fewest'), (sp[1], HIGH, 'most')):
                        differ(d, res, s1, mul, got, want, name)
        res.absorb(d.eng)


def optional_block(repo, res):
    """{ rule } admits nothing or what the rule admits, with the rule's actions."""
    fi = action(repo, PARSER, 'term', 'LBRACE', 'rule', 'RBRACE')
    for label, make in TERMS:
        d, st = prepare(repo, fi)
        for s, rule in with_actions(d, make(d, st)):
            base = Tree(d, s).counts(rule)
            for s1, e in reduce_by(d, s, fi, [C('{'), rule, C('}')]):
                if isinstance(e, Exc):
                    continue
                res.count('optional_blocks')
                t = Tree(d, s1)
                got = t.counts(e)
                if got is None or base is None:
                    res.count('undecided')
                    continue
                if got != base | {0}:
                    d.eng.report('counts-admitted', fi.where, fi.qual, "making %s optional admits %s words instead of %s" % (
                        label, sorted(got), sorted(base | {0})), s1)
                    continue
                res.count('counts_right')
                acts = [t.actions(n) for n in t.nodes(e)]
                if any(a is None for p in acts for a in p):
                    res.count('undecided')
                    continue
                for which, want in ((0, PRE), (1, POST)):
                    if not any(want in a[which] for a in acts):
                        d.eng.report('actions-kept', fi.where, fi.qual, "making %s optional loses its actions" % label, s1)
        res.absorb(d.eng)


def walked(repo, res):
    """The walk sees a repeated element as that many rounds."""
    fi = need_method(repo, 'TreeNode', 'child_count')
    for n in range(1, TOP):
        d = Drive(repo, Reps(repo), fi)
        for s, a in normal(word(d, d.start())):
            for s1, e in normal(d.new(s, 'SequenceInputElement', T((a,)))):
                for s2, r in d.set(s1, e, 'repeat_count', C(n)):
                    if isinstance(r, Exc):
                        continue
                    for s3, node in normal(d.new(s2, 'TreeNode', NONE, NONE, C(0), e)):
                        for s4, c in normal(d.get(s3, node, 'child_count')):
                            res.count('walk_rounds')
                            if is_c(c) and c[2] != n:
                                d.eng.report('rounds-walked', fi.where, fi.qual, "%d rounds are walked as %s" % (n, show(c)), s4)
        res.absorb(d.eng)


def run(repo, res):
    res.rules = ['counts-admitted: the element built for a repetition admits exactly the counts between its bounds (words counted over sequences, '
                 'choices, optional blocks and nested repetitions)',
                 'senseless-rejected: repeating zero times, or a negative number of times, is rejected',
                 'actions-kept: every round carries the actions of the repeated block; an optional block keeps those of its rule',
                 'rounds-walked: the walk gives a repeated element as many rounds as its count']
    res.explanation = ('The grammar actions for repetitions and optional blocks are run on unknown bounds and on all pairs of small constant ones; the element '
                       'they build is read out of the abstract state and the set of counts it admits is computed from its structure.')
    res.assumptions = ['Constant bounds up to %d for five kinds of repeated block; unknown bounds for one word.' % TOP]
    small = TERMS[:1]
    for n in range(0, TOP + 1):
        terms = TERMS if n <= 3 else small
        for texts in ([str(n)], ['(', str(n), ')']):
            multiplied(repo, res, texts, [n], 'exactly %d times' % n, terms, refuse=n == 0)
    for lo, hi in itertools.product(range(0, TOP + 1), repeat=2):
        a, b = min(lo, hi), max(lo, hi)
        terms = TERMS if max(lo, hi) <= 3 and lo <= hi else small
        multiplied(repo, res, ['(', str(lo), ':', str(hi), ')'], range(a, b + 1), 'from %d to %d times' % (lo, hi), terms,
                   refuse=a == b == 0, either_way=lo > hi)
    for texts, what in ((['-1'], 'a negative number of times'), (['(', '-2', ':', '3', ')'], 'with a negative bound'),
                        (['(', '-2', ':', '-1', ')'], 'with negative bounds')):
        multiplied(repo, res, texts, [], what, small, refuse=True)
    any_bounds(repo, res)
    optional_block(repo, res)
    walked(repo, res)
    res.need('counts_right', 40, 'repetitions with computed counts')
    res.need('rejected', 3, 'rejected repetitions')

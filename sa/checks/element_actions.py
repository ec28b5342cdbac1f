"""C35: actions run once around their element, and $n is what the n-th element of the block was given."""

import itertools

from ..values import C, S, O, T, NONE, Exc, show
from ..cliclient import is_instance_call, need_method
from ..drive import Drive, normal
from ..state import mk_eq
from . import walk
from .references import Play, call
from .variables import Scene
from .walk import WORD

NUM = [S('p', 'number%d' % i) for i in range(1, 5)]
MARK = {x: S('p', x) for x in ('before', 'after', 'block', 'element0', 'element1', 'element2')}
TV = [S('p', 'token%d' % i) for i in range(5)]
KINDS = ('SequenceInputElement', 'OptionalInputElement', 'OrderlessSetInputElement', 'AlternativeInputElement')


class Block(Play):
    """A rule whose body is a block of words with actions before and after each of them."""

    def __init__(self, repo, res, kind, n=3, rounds=1, nested=None):
        self.kind, self.size, self.nested = kind, n, nested
        super().__init__(repo, res)
        self.leave_scene()
        self.each(self.facts)
        for i in range(n):
            self.op('word%d' % i, lambda s, m, i=i: self.d.new(s, 'ConstantInputElement', C('w%d' % i)))
            self.bind('word%d' % i, i)
        if nested is not None:
            # the part at that place is a block of two words
            for j in range(2):
                self.op('sub%d' % j, lambda s, m, j=j: self.d.new(s, 'ConstantInputElement', C('s%d' % j)))
            self.op('word%d' % nested, lambda s, m: self.d.new(s, 'SequenceInputElement', T((m['sub0'], m['sub1']))))
            self.bind('word%d' % nested, nested)
        self.op('block', lambda s, m: self.d.new(s, kind, T([m['word%d' % i] for i in range(n)])))
        if rounds > 1:
            self.op('_', lambda s, m: self.d.set(s, m['block'], 'repeat_count', C(rounds)))
        self.bind('block', 'block')
        self.op('block.node', lambda s, m: self.d.new(s, 'TreeNode', NONE, m['main'], C(0), m['block']))
        for i in range(n if rounds == 1 else rounds):
            self.op('node%d' % i, lambda s, m, i=i: self.d.new(s, 'TreeNode', NONE, m['block.node'], C(i), m['word%d' % (i if rounds == 1 else 0)]))
        if nested is not None:
            for j in range(2 * rounds):
                self.op('subnode%d' % j, lambda s, m, j=j: self.d.new(s, 'TreeNode', NONE, m['node%d' % (nested + j // 2)], C(j % 2), m['sub%d' % (j % 2)]))

    def leave_scene(self):
        """Play enters a rule and a body; here the rule only is entered, with the first word."""
        self.leave()
        self.leave()

    def facts(self, s, n):
        # $1, $2, ... as they are written in actions and as they are numbered
        for i, v in enumerate(NUM):
            s = of_number(self.repo, s, v)
            for j in range(6):
                s = s.setfact(mk_eq(v, C('$%d' % (j + 1))), i == j)
        for v in TV + list(MARK.values()):
            s = self.plain(s, v)
            s = s.assume(v, True) or s
        known = TV + list(MARK.values())
        for i, v in enumerate(known):
            for w in known[:i]:
                s = s.assume(mk_eq(v, w), False) or s
        return [(s, n)]

    def bind(self, name, mark):
        """Actions around an element: before it, its mark; after it, its mark and $1..$3"""
        def one(s, n):
            out = []
            for s1, pre in self.sc.code(self.d, s, [call(MARK['before'], mark_of(mark))]):
                for s2, post in self.sc.code(self.d, s1, [call(MARK['after'], mark_of(mark), *NUM[:3])]):
                    for s3, r in normal(self.d.set(s2, n[name], 'pre_match_binding', T((pre,)))):
                        out += [(s4, n) for s4, r2 in normal(self.d.set(s3, n[name], 'post_match_binding', T((post,))))]
            return out
        self.each(one)

    def path(self, *nodes):
        return ['main', 'block.node'] + list(nodes)

    def give(self, value, *nodes, done=()):
        """A token with this value is matched below the given nodes; `done`: what ends with it, innermost first"""
        for x in self.path(*nodes):
            self.op('_', lambda s, n, x=x: self.d.call(s, n['ex'], 'enter', n[x], value), "entering an element")
        for x in done:
            self.op('_', lambda s, n, x=x: self.d.call(s, n['ex'], 'exit', n[x]), "leaving an element")


def of_number(repo, st, v):
    from .arguments import of_class
    from ..cliclient import need_class
    st = of_class(repo, st, v, 'DollarNumber')
    cid = need_class(repo, 'DollarVariable')
    st = st.setfact(O('isinst', v, cid), False)
    return st.assume(mk_eq(O('type', v), ('k', cid)), False) or st


def mark_of(x):
    return MARK[x if isinstance(x, str) else 'element%d' % x]


def before(x):
    return [MARK['before'], mark_of(x)]


def after(x, *vals):
    vals = list(vals) + [NONE] * (3 - len(vals))
    return [MARK['after'], mark_of(x)] + vals


def values_of(p, s, g):
    """Lists of values read in actions are shown by what they hold."""
    out = []
    for x in g:
        items = p.d.eng.iter_items(s, x) if x[0] == 'r' else None
        out.append(('seen',) + tuple(items) if items is not None else x)
    return out


def finish(p, want, what):
    from .variables import given
    p.res.count('scripts')
    for s, n in p.work:
        got = [[s.eqc(x) or x for x in g] for g in (given(m) for m in s.mon if m and m[0] == C('f'))]
        compare(p, s, got, want, what)
    p.res.absorb(p.d.eng)


def plainly(x):
    return x[0] in ('c', 'seen') or x[:2] == ('s', 'p')


def compare(p, s, got, want, what):
    fi = p.where
    marks = [g[:2] for g in got if len(g) > 1]
    if not all(plainly(x) for g in marks for x in g) or any(len(g) < 2 for g in got):
        p.res.count('undecided')
        return
    if marks != [w[:2] for w in want]:
        p.d.eng.report('once-around', fi.where, fi.qual, "%s: the actions run are %s instead of %s" % (
            what, ', '.join(text(m) for m in marks) or 'none', ', '.join(text(w[:2]) for w in want)), s)
        return
    for g, w in zip(got, want):
        for i, (x, y) in enumerate(zip(g[2:], w[2:])):
            x = x if x[0] != 'r' else seen(p, s, x)
            if x == y:
                p.res.count('values_right')
            elif plainly(x):
                p.d.eng.report('numbered-value', fi.where, fi.qual, "%s: %s, $%d is %s instead of %s" % (what, text(w[:2]), i + 1, shown(x), shown(y)), s)
                return
            else:
                p.res.count('undecided')


def seen(p, s, x):
    items = p.d.eng.iter_items(s, x)
    return ('seen',) + tuple(s.eqc(i) or i for i in items) if items is not None else x


def shown(x):
    return '[' + ', '.join(show(i) for i in x[1:]) + ']' if x[0] == 'seen' else show(x)


def text(m):
    return ' '.join(str(x[2]) if x[0] == 'c' else show(x) for x in m)


class Whole(walk.Rule):
    """A rule with actions around each of its elements: a match of it is executed, from its tokens."""

    def __init__(self, repo, res, shape):
        super().__init__(repo, res, shape)
        from .variables import Vars

        class Calls(Vars):
            def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
                if is_instance_call(tgt, repo, 'CliInterface', 'execute_binding_call'):
                    return [(st.setmon((st.mon or ()) + (tuple(args),)), NONE)]
                return None
        self.where = need_method(repo, 'CliInterface', 'execute_success_sequence')
        self.d = Drive(repo, Calls(repo), self.where)
        self.sc = Scene(repo, res)
        self.marks = {}

    def bind(self, st, v, at):
        """Actions around the element at this place of the shape"""
        mark = S('p', 'element_at', *['%d' % i for i in at]) if at else S('p', 'element')
        self.marks[at] = mark
        out = []
        for s1, pre in self.sc.code(self.d, st, [call(MARK['before'], mark)]):
            for s2, post in self.sc.code(self.d, s1, [call(MARK['after'], mark, *NUM[:3])]):
                for s3, r in normal(self.d.set(s2, v, 'pre_match_binding', T((pre,)))):
                    out += [(s4, v) for s4, r2 in normal(self.d.set(s3, v, 'post_match_binding', T((post,))))]
        return out

    def make(self, st, x, at=()):
        if x[0] == 'word':
            return [r for s, v in normal(self.d.new(st, 'ConstantInputElement', WORD[x[1]])) for r in self.bind(s, v, at)]
        if x[0] == 'ref':
            out = []
            for s, v in self.make(st, x[1], at + (0, 0)):
                for s2, g in normal(self.d.new(s, 'NamedGrammar', C('rule'), NONE, v)):
                    for s3, g in self.bind(s2, g, at + (0,)):
                        out += [r for s4, e in normal(self.d.new(s3, 'GrammarRefElement', g, NONE)) for r in self.bind(s4, e, at)]
            return out
        work = [(st, [])]
        for i, p in enumerate(x[2:] if x[0] == 'rep' else x[1:]):
            work = [(s2, l + [v]) for s, l in work for s2, v in self.make(s, p, at + (i,))]
        out = []
        for s, l in work:
            for s2, v in normal(self.d.new(s, walk.KINDS['seq' if x[0] == 'rep' else x[0]], T(l))):
                if x[0] == 'rep':
                    out += [r for s3, r in normal(self.d.set(s2, v, 'repeat_count', C(x[1]))) for r in self.bind(s3, v, at)]
                else:
                    out += self.bind(s2, v, at)
        return out

    def facts(self, s):
        # $1, $2, ... as they are written in actions and as they are numbered
        for i, v in enumerate(NUM):
            s = of_number(self.repo, s, v)
            for j in range(9):
                s = s.setfact(mk_eq(v, C('$%d' % (j + 1))), i == j)
        known = TV + list(MARK.values()) + list(self.marks.values())
        for i, v in enumerate(known):
            s = Play.plain(self, s, v)
            s = s.assume(v, True) or s
            for w in known[:i]:
                s = s.assume(mk_eq(v, w), False) or s
        return s

    def analyse(self, limit):
        work = []
        for s, body in self.make(self.start(), self.shape):
            s = self.facts(s)
            for s2, g in normal(self.d.new(s, 'NamedGrammar', C('main'), NONE, body)):
                for s3, spec in normal(self.d.new(s2, 'GrammarSpecification')):
                    for s4, r in normal(self.d.call(s3, spec, 'add_grammar', g)):
                        for s5, ci in normal(self.d.new(s4, 'CliInterface', NONE, spec)):
                            for s6, r in normal(self.d.call(s5, ci, 'enter_grammar', C('main'))):
                                for s7, root in normal(self.d.new(s6, 'GrammarWalkTree', g)):
                                    work.append((s7.setmon(()), ci, root))
        trees = [t for t in derivations(self.shape, ()) if t is not None and len(t[1]) <= len(TV)]
        for t in thinned(trees, limit):
            for s, ci, root in work:
                self.match(s, ci, root, t)
        self.res.absorb(self.d.eng)

    def match(self, st, ci, root, tree):
        # the tokens, found by walking
        work = [(s, [v]) for s, v in self.pick(self.d.call(st, root, 'first'), tree[1][0])]
        for w in tree[1][1:]:
            work = [(s2, l + [v]) for s, l in work for s2, v in self.pick(self.d.call(s, l[-1], 'next'), w)]
        for s, toks in work:
            s, seq = self.sc.seq(self.d, s, toks)
            s, vals = self.sc.seq(self.d, s, TV[:len(toks)])
            s, none = self.sc.seq(self.d, s, [])
            self.d.hold([(s, T((seq, vals, none)))])
            what = "matching %s by %s" % (' '.join(walk.show_shape(i) for i in tree[1]), walk.show_shape(self.shape))
            want = []
            events(tree, list(TV), {}, 1, self.marks, want)
            for s2, r in self.d.call(s, ci, self.where.name, seq, vals, none):
                if isinstance(r, Exc):
                    self.d.eng.report('once-around', self.where.where, self.where.qual, "%s: executing it fails" % what, s2)
                else:
                    got = [[s2.eqc(x) or x for x in m[2:]] for m in s2.mon]
                    compare(self, s2, got, want, what)

    def pick(self, results, word):
        out = []
        for s, v in normal(results):
            ts = self.tokens(s, v)
            if ts is None:
                self.res.count('undecided')
                continue
            out += [(s, x) for x, t in ts if t == word][:1]
        return out


def derivations(x, at):
    """[None (left out) or (place, words, [(number, derivation)])]"""
    if x[0] == 'word':
        return [(at, [x[1]], [])]
    if x[0] == 'ref':
        return [t and (at, t[1], [(1, (at + (0,), t[1], [(1, t)]))]) for t in derivations(x[1], at + (0, 0))]
    if x[0] == 'rep':
        parts = [derivations(x[2], at + (0,))] * x[1]
        orders = [range(x[1])]
    else:
        parts = [derivations(p, at + (i,)) for i, p in enumerate(x[1:])]
        orders = itertools.permutations(range(len(parts))) if x[0] == 'set' else [[i] for i in range(len(parts))] if x[0] == 'alt' else [range(len(parts))]
    out = [None] if x[0] == 'opt' else []
    for order in orders:
        for c in itertools.product(*[parts[i] for i in order]):
            ch = [(1 if x[0] in ('alt', 'rep') else i + 1, t) for i, t in zip(order, c) if t is not None]
            out.append((at, [w for n, t in ch for w in t[1]], ch) if ch else None)
    return out


def events(tree, values, outer, number, marks, out):
    """The calls a match makes; `outer`: the numbered values of the enclosing block"""
    at, words, parts = tree
    mark = marks[at]
    out.append([MARK['before'], mark])
    mine, inner = list(values[:len(words)]), {}
    for n, t in parts:
        events(t, values, inner, n, marks, out)
    if not parts:
        values.pop(0)
    outer[number] = mine[0] if len(mine) == 1 else ('seen',) + tuple(mine)
    out.append([MARK['after'], mark] + [outer.get(i, NONE) for i in (1, 2, 3)])


def thinned(l, limit):
    step = max(1, len(l) // limit)
    return l[::step]


def run(repo, res):
    res.rules = ['once-around: the actions before an element run once, when it is entered, and those after it once, when it is left, however many tokens it takes',
                 'numbered-value: after an element, $n is the value of the n-th element of the block that is being matched, nothing when that was skipped, '
                 'and the list of the values when it took several tokens; a choice and a repetition have $1 only']
    res.explanation = ('Blocks of each kind, with actions before and after the block and each of its elements, are entered and left token by token the way a match is '
                       'executed; the values of the tokens are unknown. The calls the actions make and what they see in $1 to $3 are compared.')
    res.assumptions = ['Rules of up to three levels and five tokens, with actions around every element.']
    t = TV
    for kind in ('SequenceInputElement', 'OptionalInputElement', 'OrderlessSetInputElement'):
        p = Block(repo, res, kind)
        p.give(t[0], 'node0', done=['node0'])
        p.give(t[1], 'node1', done=['node1'])
        p.give(t[2], 'node2', done=['node2', 'block.node', 'main'])
        finish(p, [before('block'), before(0), after(0, t[0]), before(1), after(1, t[0], t[1]), before(2), after(2, *t[:3]),
                   after('block', ('seen',) + tuple(t[:3]))], "three words in a %s" % kind)
        p = Block(repo, res, kind)
        p.give(t[0], 'node0', done=['node0'])
        p.give(t[1], 'node2', done=['node2', 'block.node', 'main'])
        finish(p, [before('block'), before(0), after(0, t[0]), before(2), after(2, t[0], NONE, t[1]), after('block', ('seen', t[0], t[1]))], "the second of three words skipped in a %s" % kind)
        p = Block(repo, res, kind)
        p.give(t[0], 'node1', done=['node1', 'block.node', 'main'])
        finish(p, [before('block'), before(1), after(1, NONE, t[0]), after('block', t[0])], "only the second of three words in a %s" % kind)
        p = Block(repo, res, kind, nested=1)
        p.give(t[0], 'node0', done=['node0'])
        p.give(t[1], 'node1', 'subnode0', done=['subnode0'])
        p.give(t[2], 'node1', 'subnode1', done=['subnode1', 'node1'])
        p.give(t[3], 'node2', done=['node2', 'block.node', 'main'])
        finish(p, [before('block'), before(0), after(0, t[0]), before(1), after(1, t[0], ('seen', t[1], t[2])), before(2),
                   after(2, t[0], ('seen', t[1], t[2]), t[3]), after('block', ('seen',) + tuple(t[:4]))], "a block of two words inside a %s" % kind)
        p = Block(repo, res, kind, nested=0)
        p.give(t[0], 'node0', 'subnode0', done=['subnode0', 'node0'])
        p.give(t[1], 'node1', done=['node1', 'block.node', 'main'])
        finish(p, [before('block'), before(0), after(0, t[0]), before(1), after(1, t[0], t[1]), after('block', ('seen', t[0], t[1]))], "a block of which one word is taken inside a %s" % kind)
    p = Block(repo, res, 'OrderlessSetInputElement')
    p.give(t[0], 'node2', done=['node2'])
    p.give(t[1], 'node0', done=['node0'])
    p.give(t[2], 'node1', done=['node1', 'block.node', 'main'])
    finish(p, [before('block'), before(2), after(2, NONE, NONE, t[0]), before(0), after(0, t[1], NONE, t[0]), before(1), after(1, t[1], t[2], t[0]),
               after('block', ('seen',) + tuple(t[:3]))], "three words of a set in another order")
    for i in range(3):
        p = Block(repo, res, 'AlternativeInputElement')
        p.give(t[0], 'node%d' % i, done=['node%d' % i, 'block.node', 'main'])
        finish(p, [before('block'), before(i), after(i, t[0]), after('block', t[0])], "alternative %d" % (i + 1))
    p = Block(repo, res, 'AlternativeInputElement', nested=1)
    p.give(t[0], 'node1', 'subnode0', done=['subnode0'])
    p.give(t[1], 'node1', 'subnode1', done=['subnode1', 'node1', 'block.node', 'main'])
    finish(p, [before('block'), before(1), after(1, ('seen', t[0], t[1])), after('block', ('seen', t[0], t[1]))], "an alternative of two words")
    p = Block(repo, res, 'SequenceInputElement', n=1, rounds=2, nested=0)
    p.give(t[0], 'node0', 'subnode0', done=['subnode0'])
    p.give(t[1], 'node0', 'subnode1', done=['subnode1', 'node0'])
    p.give(t[2], 'node1', 'subnode2', done=['subnode2'])
    p.give(t[3], 'node1', 'subnode3', done=['subnode3', 'node1', 'block.node', 'main'])
    finish(p, [before('block'), before(0), after(0, ('seen', t[0], t[1])), before(0), after(0, ('seen', t[2], t[3])),
               after('block', ('seen',) + tuple(t[:4]))], "two rounds of a repetition of two words")
    p = Block(repo, res, 'SequenceInputElement', n=1, rounds=3)
    for i in range(3):
        p.give(t[i], 'node%d' % i, done=['node%d' % i] + ([] if i < 2 else ['block.node', 'main']))
    finish(p, [before('block')] + [x for i in range(3) for x in (before(0), after(0, t[i]))] + [after('block', ('seen',) + tuple(t[:3]))], "three rounds of a repetition")
    # running it again: nothing is left of the first time
    p = Block(repo, res, 'SequenceInputElement')
    p.give(t[0], 'node0', done=['node0'])
    p.give(t[1], 'node1', done=['node1', 'block.node', 'main'])
    p.give(t[2], 'node1', done=['node1', 'block.node', 'main'])
    finish(p, [before('block'), before(0), after(0, t[0]), before(1), after(1, t[0], t[1]), after('block', ('seen', t[0], t[1])),
               before('block'), before(1), after(1, NONE, t[2]), after('block', t[2])], "matching the same words a second time")
    o = ('opt', 'x')
    todo = [('seq', ('seq', 'x', o, o), 'x'), ('set', ('seq', 'x', o, o), 'x'), ('seq', ('rep', 2, ('seq', 'x', o)), 'x'), ('seq', ('set', o, o, 'x'), 'x')]
    todo = [walk.as_words(walk.numbered(x, itertools.count())) for x in todo]
    for k in walk.KINDS:
        for p in walk.INNER:
            for x in [(k, p, 'x'), (k, 'x', p)] + ([(k, p, p)] if res.tier == 'thorough' else []):
                todo.append(walk.as_words(walk.numbered(x, itertools.count())))
    if res.tier == 'thorough':
        todo += [x for x in (walk.as_words(y) for y in walk.shapes(False)) if x not in todo][::3]
    for x in todo:
        if not res.violations:
            Whole(repo, res, x).analyse(12 if res.tier == 'thorough' else 5)
            res.count('rules')
    res.need('scripts', 8, 'matches of blocks')
    res.need('values_right', 8, 'values compared')

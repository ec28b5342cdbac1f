"""C31: what may come next at each point of a match is what the grammar allows."""

import itertools

from ..values import C, S, O, T, NONE, is_c, Exc, show
from ..cliclient import CliClient, need_class, need_method
from ..drive import Drive, normal
from ..state import Obj, mk_eq

PART = [S('p', 'part%d' % i) for i in range(6)]
WORD = [S('p', 'word%d' % i) for i in range(6)]
NEEDED = [S('p', 'part%d_needed' % i) for i in range(6)]
KINDS = {'seq': 'SequenceInputElement', 'opt': 'OptionalInputElement', 'alt': 'AlternativeInputElement', 'set': 'OrderlessSetInputElement'}
END = 'end'


class Walk(CliClient):
    merge_limit = 400
    unroll = 9
    distinct = 80
    recursion = 9
    closed_objects = True
    max_depth = 40

    def is_opaque(self, eng, st, ctx, tgt):
        return False


def show_shape(x):
    """How such a rule is written"""
    if isinstance(x, int):
        return 'abcdef'[x]
    if x[0] == 'word':
        return show_shape(x[1])
    if x[0] == 'rep':
        return '(%s)*%d' % (show_shape(x[2]), x[1])
    if x[0] == 'ref':
        return 'rule(%s)' % show_shape(x[1])
    parts = [show_shape(p) for p in x[1:]]
    return {'seq': '(%s)', 'opt': '[%s]', 'alt': '(%s)', 'set': '{%s}'}[x[0]] % {'seq': ' ', 'opt': ' ', 'alt': ' | ', 'set': ', '}[x[0]].join(parts)


def leaves(x):
    if isinstance(x, int):
        return {x}
    return set().union(*[leaves(p) for p in (x[2:] if x[0] == 'rep' else x[1:])])


def plain_words(x):
    if isinstance(x, int):
        return set()
    return {x[1]} if x[0] == 'word' else set().union(*[plain_words(p) for p in (x[2:] if x[0] == 'rep' else x[1:])])


def words(x, needed):
    """Every sequence of parts the rule derives; `needed`: the parts that may not be left out"""
    if isinstance(x, int):
        return {(x,)} | (set() if needed[x] else {()})
    if x[0] == 'word':
        return {(x[1],)}
    if x[0] == 'ref':
        return words(x[1], needed)
    if x[0] == 'rep':
        w = words(x[2], needed)
        return concat([w] * x[1])
    sets = [words(p, needed) for p in x[1:]]
    if x[0] == 'alt':
        return set().union(*sets)
    if x[0] == 'set':
        out = set()
        for p in itertools.permutations(sets):
            out |= concat(p)
        return out
    return concat(sets) | ({()} if x[0] == 'opt' else set())


def concat(sets):
    out = {()}
    for s in sets:
        out = {a + b for a in out for b in s}
    return out


def following(lang, prefix):
    n = len(prefix)
    return {w[n] if len(w) > n else END for w in lang if w[:n] == prefix}


class Rule:
    def __init__(self, repo, res, shape):
        self.repo, self.res, self.shape = repo, res, shape
        self.where = need_method(repo, 'LookupToken', 'next')
        self.d = Drive(repo, Walk(repo), self.where)
        self.parts = sorted(leaves(shape))
        self.words = plain_words(shape)
        self.stuck = False

    def start(self):
        st = self.d.start()
        for i in self.parts:
            p = PART[i]
            st = st.setfact(O('isinst', p, need_class(self.repo, 'InputElement')), True)
            for c in ('InputElementHolder', 'GrammarRefElement'):
                st = st.setfact(O('isinst', p, need_class(self.repo, c)), False)
            for c in self.repo.classes:
                if self.repo.classes[c].name.endswith(('InputElement', 'InputElementHolder', 'InputElementCollection', 'GrammarRefElement', 'NamedGrammar')) \
                        and not self.single(c):
                    st = st.setfact(O('isinst', p, c), False)
                    st = st.assume(mk_eq(O('type', p), ('k', c)), False) or st
            st = st.setobj(('ov', p), Obj('inst', None, {'mandatory': NEEDED[i], 'value': WORD[i], 'repeat_count': C(1)}))
            st = st.setfact(O('isinst', NEEDED[i], 'bool'), True)
            st = st.assume(mk_eq(NEEDED[i], NONE), False) or st
        for a, b in itertools.combinations(self.parts, 2):
            st = st.assume(mk_eq(PART[a], PART[b]), False)
            st = st.assume(mk_eq(WORD[a], WORD[b]), False)
        return st

    def single(self, c):
        holders = {need_class(self.repo, 'InputElementHolder'), need_class(self.repo, 'GrammarRefElement')}
        return not holders & set(self.repo.mro(c))

    def make(self, st, x):
        if isinstance(x, int):
            return [(st, PART[x])]
        if x[0] == 'word':
            return normal(self.d.new(st, 'ConstantInputElement', WORD[x[1]]))
        if x[0] == 'ref':
            out = []
            for s, v in self.make(st, x[1]):
                for s2, g in normal(self.d.new(s, 'NamedGrammar', C('rule'), NONE, v)):
                    out += normal(self.d.new(s2, 'GrammarRefElement', g, NONE))
            return out
        work = [(st, [])]
        for p in (x[2:] if x[0] == 'rep' else x[1:]):
            work = [(s2, l + [v]) for s, l in work for s2, v in self.make(s, p)]
        out = []
        for s, l in work:
            for s2, v in normal(self.d.new(s, KINDS['seq' if x[0] == 'rep' else x[0]], T(l))):
                if x[0] == 'rep':
                    out += [(s3, v) for s3, r in normal(self.d.set(s2, v, 'repeat_count', C(x[1])))]
                else:
                    out.append((s2, v))
        return out

    def cases(self, st):
        """The ways the parts may be optional in this state"""
        opts = []
        for i in self.parts:
            if i in self.words:
                opts.append([True])
                continue
            t = st.known_truth(NEEDED[i])
            opts.append([True, False] if t is None else [t])
        return [dict(zip(self.parts, c)) for c in itertools.product(*opts)]

    def tokens(self, st, v):
        """[(token, part or END)] of a list of what comes next; None if it is not known"""
        items = self.d.eng.iter_items(st, v)
        if items is None:
            return None
        out = []
        for x in items:
            if self.is_end(x):
                out.append((x, END))
                continue
            r = normal(self.d.get(st, x, 'name'))
            if len(r) != 1 or r[0][1] not in WORD:
                return None
            out.append((x, WORD.index(r[0][1])))
        return out

    def is_end(self, x):
        # the one object that stands for the end of the line is made when the module is loaded
        return x[0] == 's' and x[1] == 'glob'

    def analyse(self):
        st = self.start()
        for s, body in self.make(st, self.shape):
            for s2, g in normal(self.d.new(s, 'NamedGrammar', C('main'), NONE, body)):
                for s3, root in normal(self.d.new(s2, 'GrammarWalkTree', g)):
                    results = self.d.call(s3, root, 'first')
                    for s4, v in results:
                        if isinstance(v, Exc):
                            self.d.eng.report('next', self.where.where, self.where.qual, "%s: asking for the first words fails" % show_shape(self.shape), s4)
                        else:
                            self.step(s4, (), self.tokens(s4, v))
        self.res.absorb(self.d.eng)

    def step(self, st, prefix, toks):
        if toks is None or self.stuck:
            self.res.count('undecided')
            return
        got = {t for x, t in toks}
        for needed in self.cases(st):
            lang = words(self.shape, needed)
            want = following(lang, prefix)
            if not prefix:
                want.discard(END)       # an empty line is not matched
                if not want:
                    continue
            if got != want:
                self.d.eng.report('next', self.where.where, self.where.qual, "in %s, after %s the next may be %s instead of %s%s" % (
                    show_shape(self.shape), ' '.join(show_shape(p) for p in prefix) or 'nothing', names(got), names(want), self.note(needed)), st)
                self.stuck = True
                return
            self.res.count('points')
        # every token that begins the same way is followed together
        for part in sorted(t for t in got if t != END):
            work = [(st, [])]
            for x, t in toks:
                if t == part:
                    nxt = []
                    for s, l in work:
                        for s2, v in self.d.call(s, x, 'next'):
                            if isinstance(v, Exc):
                                self.d.eng.report('next', self.where.where, self.where.qual, "in %s, asking what follows %s fails" % (
                                    show_shape(self.shape), ' '.join(show_shape(p) for p in prefix + (part,))), s2)
                                self.stuck = True
                                return
                            ts = self.tokens(s2, v)
                            nxt.append((s2, None if ts is None or l is None else l + ts))
                    work = nxt
            for s, l in work:
                self.step(s, prefix + (part,), l)
                if self.stuck:
                    return

    def note(self, needed):
        opt = [i for i in self.parts if not needed[i]]
        return '' if not opt else ' (%s optional)' % ', '.join(show_shape(i) for i in opt)


def names(s):
    return ', '.join([show_shape(x) for x in sorted(x for x in s if x != END)] + (['the end'] if END in s else [])) or 'nothing'


def as_words(x):
    """The shape with words that are always needed in place of its parts"""
    if isinstance(x, int):
        return ('word', x)
    if x[0] == 'word':
        return x
    return (x[0],) + tuple(p if x[0] == 'rep' and i == 0 else as_words(p) for i, p in enumerate(x[1:]))


def numbered(x, count):
    """Number the parts from left to right."""
    if x == 'x':
        return next(count)
    if x[0] == 'rep':
        return ('rep', x[1], as_words(numbered(x[2], count)))
    return (x[0],) + tuple(p if isinstance(p, int) else numbered(p, count) for p in x[1:])


INNER = [('opt', 'x'), ('ref', 'x'), ('rep', 2, 'x'), ('rep', 3, ('seq', 'x', 'x')), ('rep', 2, ('alt', 'x', 'x'))] + [(k, 'x', 'x') for k in KINDS]


def shapes(deep):
    out = []
    for k in KINDS:
        for p in ['x'] + INNER:
            for at in range(3):
                out.append((k,) + tuple(p if i == at else 'x' for i in range(3)))
    for k in KINDS:
        for p, q in itertools.product(INNER, repeat=2):
            out.append((k, p, q) if deep else ('all', (k, p, q)))
    for k in KINDS:
        for mid in KINDS:
            for p in INNER:
                for at in range(2):
                    inner = (mid,) + tuple(p if i == at else 'x' for i in range(2))
                    out.append(('all', (k, inner, 'x')))
                    out.append(('all', (k, 'x', inner)))
    seen, res = set(), []
    for x in out:
        # larger rules are made of words, which are never left out, and of blocks
        y = as_words(numbered(x[1], itertools.count())) if x[0] == 'all' else numbered(x, itertools.count())
        if y not in seen:
            seen.add(y)
            res.append(y)
    return res


def run(repo, res):
    for shape in shapes(res.tier == 'thorough'):
        Rule(repo, res, shape).analyse()
        res.count('rules')
        if res.violations:
            break
    res.rules = ['next: at each point of a match the tokens that may come next are those with which some derivation of the grammar goes on, and it may end there '
                 'when a derivation ends there']
    res.explanation = ('The walk through the grammar is interpreted for rules of every combination of sequence, option, choice, set, repetition and reference, two to three '
                       'levels deep, whose parts have unknown names and may or may not be optional; at each point it is compared with the derivations of the rule.')
    res.assumptions = ['Rules of up to six parts; deeper rules are walked by the same routines, level by level.']
    res.need('points', 8, 'points of matches')

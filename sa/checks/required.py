"""C21: whether a block may be left out follows from its parts."""

import itertools

from ..values import C, S, O, T, NONE, Exc, mentions
from ..cliclient import CliClient, need_class
from ..drive import Drive, normal

PARTS = [S('p', 'part%d' % i) for i in range(4)]


class Parts(CliClient):
    """The parts are opaque: being required is a property of theirs, nothing else is known."""
    merge_limit = 200
    unroll = 9

    def is_opaque(self, eng, st, ctx, tgt):
        return False


def any_of(atoms):
    if True in atoms:
        return True
    return None if None in atoms else False


def all_of(atoms):
    if False in atoms:
        return False
    return None if None in atoms else True


def tells(atom, truth, part):
    """May the fact settle whether the part is required?"""
    if not mentions(atom, part):
        return False
    if atom[:3] == ('o', 'isinst', part):
        return truth is True and 'InputElement' != str(atom[3][-1] if isinstance(atom[3], tuple) else atom[3]).split('.')[-1]
    return True


def kinds(repo):
    """(label, constructor arguments as a function of the number of parts, how the parts decide)"""
    name, arg = C('name'), S('p', 'text')
    yield 'SequenceInputElement', (0, 1, 2, 3), lambda d, st, n: d.new(st, 'SequenceInputElement', T(PARTS[:n])), any_of
    yield 'OrderlessSetInputElement', (2, 3), lambda d, st, n: d.new(st, 'OrderlessSetInputElement', T(PARTS[:n])), any_of
    yield 'AlternativeInputElement', (1, 2, 3), lambda d, st, n: d.new(st, 'AlternativeInputElement', T(PARTS[:n])), all_of
    yield 'OptionalInputElement', (0, 1, 2, 3), lambda d, st, n: d.new(st, 'OptionalInputElement', T(PARTS[:n])), lambda a: False
    yield 'InputElement', (0,), lambda d, st, n: d.new(st, 'InputElement'), lambda a: False
    yield 'ConstantInputElement', (0,), lambda d, st, n: d.new(st, 'ConstantInputElement', C('word')), lambda a: True
    yield 'KeywordInputElement', (0,), lambda d, st, n: d.new(st, 'KeywordInputElement', C('word')), lambda a: True
    yield 'UnresolvedInputElement', (0,), lambda d, st, n: d.new(st, 'UnresolvedInputElement', C('word')), lambda a: True
    yield 'NamedGrammar', (1,), lambda d, st, n: d.new(st, 'NamedGrammar', name, NONE, PARTS[0]), any_of

    def ref(d, st, n):
        out = []
        for s, g in normal(d.new(st, 'NamedGrammar', name, NONE, PARTS[0])):
            s, l = d.eng.new_list(s, d.ctx, d.node())
            out += d.new(s, 'GrammarRefElement', g, l)
        return out
    yield 'GrammarRefElement', (1,), ref, any_of


def truth(d, st, v):
    """[(state, bool)] of a required-answer; None when it is not understood"""
    out = []
    for s, t in d.eng.branch(st, v, d.ctx, d.node()):
        out.append((s, t))
    return out


def judge(repo, res, label, d, st, owner, v, parts, decide, what):
    for s, t in truth(d, st, v):
        res.count('answers')
        atoms = [s.known_truth(O('attr', p, 'mandatory')) for p in parts]
        # a part nothing is known about on this path may be either
        free = [i for i, p in enumerate(parts) if atoms[i] is None and not any(tells(k, t2, p) for k, t2 in s.facts.items())]
        wants = {}
        for vals in itertools.product((True, False), repeat=len(free)):
            a = list(atoms)
            for i, x in zip(free, vals):
                a[i] = x
            wants.setdefault(decide(a), a)
        wrong = [a for w, a in wants.items() if w is not None and w != t]
        if None in wants and not wrong:
            res.count('undecided')
            continue
        res.count('answers_decided')
        if wrong:
            atoms = wrong[0]
            how = ', '.join({True: 'required', False: 'not required'}[a] for a in atoms if a is not None)
            fi = repo.method(label, 'mandatory')
            d.eng.report('required-by-parts', fi.where if fi else owner.where, label + '.mandatory',
                         "%s %s counts as %srequired%s" % (what, label, '' if t else 'not ', ' with parts that are %s' % how if how else ''), s)


def run(repo, res):
    res.rules = ['required-by-parts: the answer of `mandatory` of every kind of element is, on every path, the one its parts decide: any part '
                 'for sequences and sets, all for choices, the body for rules, never for optional and empty elements, always for words',
                 'required-again: asking again, asking a copy of the element at a round of a repetition, or asking the node of the walk gives the same answer']
    res.explanation = ('Each kind of element is built by its own constructor around 0 to 3 parts of which nothing is known; the answer of '
                       '`mandatory` on each path is compared with what the answers of the parts, as established on that path, decide.')
    res.assumptions = ['Parts are any elements at all: their own answers are unknown, so nesting of any depth is covered by the rule for each kind.',
                       'Sequences, sets and choices are analysed with up to three parts.']
    for label, sizes, make, decide in kinds(repo):
        need_class(repo, label)
        fi = repo.method(label, '__init__') or repo.method('InputElement', '__init__')
        for n in sizes:
            for rounds in ((1, 3) if label == 'SequenceInputElement' and n == 1 else (1,)):
                d = Drive(repo, Parts(repo), fi)
                st = d.start()
                done = 0
                for s0, e in normal(make(d, st, n)):
                    states = [s0]
                    if rounds > 1:
                        states = [s for s, r in d.set(s0, e, 'repeat_count', C(rounds)) if not isinstance(r, Exc)]
                    for s in states:
                        for s1, v in normal(d.get(s, e, 'mandatory')):
                            done += 1
                            judge(repo, res, label, d, s1, fi, v, PARTS[:n], decide, 'a')
                            for s2, v2 in normal(d.get(s1, e, 'mandatory')):
                                judge(repo, res, label, d, s2, fi, v2, PARTS[:n], decide, 'asked again, a')
                        for s1, node in normal(d.new(s, 'TreeNode', NONE, NONE, C(0), e)):
                            for s2, v in normal(d.get(s1, node, 'mandatory')):
                                judge(repo, res, label, d, s2, fi, v, PARTS[:n], decide, 'the node of a')
                if done:
                    res.count('kinds_and_sizes')
                res.absorb(d.eng)
    res.need('kinds_and_sizes', 12, 'kinds of element with their numbers of parts')
    res.need('answers_decided', 10, 'answers decided')

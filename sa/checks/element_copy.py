"""C20: a copied element of a grammar keeps everything that matters, and its parts belong to the copy."""

import itertools

from ..values import C, S, O, R, T, NONE, is_c, Exc, show
from ..cliclient import CliClient, need_class, need_method
from ..drive import Drive, normal

PARTS = [S('p', 'part%d' % i) for i in range(3)]
PRE, POST = T((S('p', 'action_before'),)), T((S('p', 'action_after'),))
HELP = S('p', 'help')
ARGS = S('p', 'arguments')


class Copying(CliClient):
    """Copying a part is the part's own business: it gives a new element."""
    merge_limit = 100
    unroll = 9

    def is_opaque(self, eng, st, ctx, tgt):
        return False

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        src = None
        if tgt.kind == 'meth' and tgt.name in ('copy', '__copy__', '__deepcopy__') and original(tgt.recv) is not None:
            src = tgt.recv
        elif tgt.kind == 'ext' and tgt.name == 'copy.deepcopy' and args and original(args[0]) is not None:
            src = args[0]
        if src is None:
            return None
        n = (st.mon or 0) + 1
        return [(st.setmon(n), S('copyof', original(src), n))]


def original(v):
    if v in PARTS:
        return v
    return v[2] if v[:2] == ('s', 'copyof') else None


def kinds(repo):
    word = C('word')

    def ref(d, st):
        out = []
        for s, g in normal(d.new(st, 'NamedGrammar', C('rule'), NONE, PARTS[0])):
            s, l = d.eng.new_list(s, d.ctx, d.node())
            out += d.new(s, 'GrammarRefElement', g, l)
        return out

    def ref_args(d, st):
        out = []
        for s, pl in new_list(d, st, [S('p', 'param')]):
            s = s.setfact(O('isinst', S('p', 'param'), 'str'), True)
            for s, g in normal(d.new(s, 'NamedGrammar', C('rule'), pl, PARTS[0])):
                for s2, a in normal(d.new(s, 'CliArgument', S('p', 'value'))):
                    for s3, l in new_list(d, s2, [a]):
                        out += d.new(s3, 'GrammarRefElement', g, l)
        return out

    def grammar(d, st):
        out = []
        p = S('p', 'param')
        st = st.setfact(O('isinst', p, 'str'), True)
        for s, pl in new_list(d, st, [p]):
            out += d.new(s, 'NamedGrammar', C('rule'), pl, PARTS[0])
        return out

    def unresolved(d, st):
        out = []
        for s, a in normal(d.new(st, 'CliArgument', S('p', 'value'))):
            for s2, l in new_list(d, s, [a]):
                out += d.new(s2, 'UnresolvedInputElement', word, l)
        return out
    for n in (1, 2, 3):
        yield 'SequenceInputElement', PARTS[:n], lambda d, st, n=n: d.new(st, 'SequenceInputElement', T(PARTS[:n]))
        yield 'OptionalInputElement', PARTS[:n], lambda d, st, n=n: d.new(st, 'OptionalInputElement', T(PARTS[:n]))
    for n in (2, 3):
        yield 'OrderlessSetInputElement', PARTS[:n], lambda d, st, n=n: d.new(st, 'OrderlessSetInputElement', T(PARTS[:n]))
        yield 'AlternativeInputElement', PARTS[:n], lambda d, st, n=n: d.new(st, 'AlternativeInputElement', T(PARTS[:n]))
    yield 'ConstantInputElement', [], lambda d, st: d.new(st, 'ConstantInputElement', word, HELP)
    yield 'KeywordInputElement', [], lambda d, st: d.new(st, 'KeywordInputElement', word, HELP)
    yield 'UnresolvedInputElement', [], unresolved
    yield 'GrammarRefElement', [], ref
    yield 'GrammarRefElement', [], ref_args
    yield 'NamedGrammar', PARTS[:1], grammar


def new_list(d, st, items):
    s, l = d.eng.new_list(st, d.ctx, d.node(), items)
    return d.hold([(s, l)])


def deep(st, v, fuel=5):
    """What the value holds, without the identity of containers."""
    if not isinstance(v, tuple) or fuel == 0:
        return v
    if v[:1] == ('r',) and v[1] in st.heap:
        o = st.heap[v[1]]
        if o.kind == 'list' and isinstance(o.data, tuple) and isinstance(o.data[0], tuple):
            return ('list', tuple(deep(st, e, fuel - 1) for e in o.data[0]))
        return v
    if v[:1] == ('t',):
        return ('t', tuple(deep(st, e, fuel - 1) for e in v[1]))
    if v[:1] == ('I',):
        return ('I', deep(st, v[1], fuel - 1))
    e = st.eqc(v) if v[0] in ('s', 'o') else None
    return e or v


def known(v):
    """Is it clear what the value is?"""
    if not isinstance(v, tuple):
        return True
    if v[:1] == ('s',):
        return v[1] in ('p', 'copyof')
    if v[:1] in (('o',), ('lin',)):
        return False
    return all(known(e) for e in v[1:] if isinstance(e, tuple))


CONTENT = ('helpstring', 'pre_match_binding', 'post_match_binding', 'repeat_count', 'arg_list', 'name', 'param_list')
WHAT = {'helpstring': 'help text', 'pre_match_binding': 'actions before it', 'post_match_binding': 'actions after it',
        'repeat_count': 'repetition count', 'arg_list': 'arguments', 'name': 'name', 'param_list': 'parameters', 'value': 'content'}


def compare(repo, res, d, st, label, orig, cp, parts, fi):
    def bad(rule, msg, s=st):
        d.eng.report(rule, fi.where, fi.qual, msg, s)
    res.count('copies')
    if cp[0] != 'r' or cp[1] not in st.heap:
        if is_c(cp):
            bad('same-kind', "copying a %s gives %s" % (label, show(cp)))
        return
    if cp == orig:
        bad('same-kind', "copying a %s gives the element itself" % label)
        return
    if st.heap[cp[1]].kind != 'inst' or st.heap[cp[1]].cls != st.heap[orig[1]].cls:
        bad('same-kind', "copying a %s gives a %s" % (label, str(st.heap[cp[1]].cls or st.heap[cp[1]].kind).split('.')[-1]))
        return
    cls = st.heap[orig[1]].cls
    for name in CONTENT:
        if repo.find_member(cls, name) is None:
            continue
        for s, a in normal(d.get(st, orig, name)):
            for s2, b in normal(d.get(s, cp, name)):
                x, y = deep(s2, a), deep(s2, b)
                if x == y or name == 'helpstring' and s2.known_truth(x) is False and s2.known_truth(y) is False:
                    res.count('contents_equal')
                elif known(x) and known(y):
                    bad('same-content', "the copy of a %s has %s %s where the element has %s" % (label, WHAT[name], show(b), show(a)), s2)
                else:
                    res.count('undecided')
    for s, a in normal(d.get(st, orig, 'value')):
        for s2, b in normal(d.get(s, cp, 'value')):
            if not parts:
                if deep(s2, a) == deep(s2, b):
                    res.count('contents_equal')
                elif known(a) and known(b):
                    bad('same-content', "the copy of a %s has content %s where the element has %s" % (label, show(b), show(a)), s2)
                else:
                    res.count('undecided')
                continue
            items = b[1] if b[0] == 't' else [b] if label == 'NamedGrammar' else None
            if items is None or not all(known(x) for x in items):
                res.count('undecided')
                continue
            if [original(x) for x in items] != list(parts):
                bad('same-content', "the copy of a %s with %d parts has the parts %s" % (label, len(parts), show(b)), s2)
                continue
            res.count('contents_equal')
            for x in items:
                if x in PARTS:
                    bad('own-parts', "the copy of a %s shares its part with the element" % label, s2)
                    continue
                if label == 'NamedGrammar':
                    continue
                for s3, p in normal(d.get(s2, x, 'parent')):
                    if p == cp:
                        res.count('parents_right')
                    elif p[0] in ('r', 'o') and (p == orig or p == O('attr', x, 'parent')):
                        bad('own-parts', "a part of the copy of a %s does not have the copy as its parent" % label, s3)
                    else:
                        res.count('undecided')


def rounds(repo, res):
    """The walk over a repeated element: every round has an element of its own."""
    fi = need_method(repo, 'TreeNode', 'get')
    cl = Copying(repo)
    d = Drive(repo, cl, fi)
    part = PARTS[0]
    for s, e in normal(d.new(d.start(), 'SequenceInputElement', T((part,)))):
        for s, r in d.set(s, e, 'repeat_count', C(3)):
            if isinstance(r, Exc):
                continue
            for s, node in normal(d.new(s, 'TreeNode', NONE, NONE, C(0), e)):
                work = [(s, [])]
                for i in range(3):
                    nxt = []
                    for s1, seen in work:
                        for s2, child in normal(d.call(s1, node, 'get', C(i))):
                            for s3, el in normal(d.get(s2, child, 'element')):
                                nxt.append((s3, seen + [(child, el)]))
                    work = nxt
                for s1, seen in work:
                    res.count('walks_of_rounds')
                    for i, (c, el) in enumerate(seen):
                        if not known(el):
                            continue
                        if el in [x for _, x in seen[:i]] or c in [y for y, _ in seen[:i]]:
                            d.eng.report('own-round', fi.where, fi.qual, "round %d of a repetition shares its element with an earlier round" % (i + 1), s1)
                        elif original(el) != part:
                            d.eng.report('own-round', fi.where, fi.qual, "round %d of a repetition is not the repeated element" % (i + 1), s1)
                        else:
                            res.count('rounds_right')
    res.absorb(d.eng)


def run(repo, res):
    res.rules = ['same-kind: copy() gives a new element of the class it is called on',
                 'same-content: the copy has the same content, help text, actions, repetition count, arguments, name and parameters',
                 'own-parts: the parts of a copied collection are copies of the parts, in order, and have the copy as their parent',
                 'own-round: each round of a repetition is walked with an element of its own']
    res.explanation = ('Each kind of element is built by its own constructor with contents of which nothing is known, given actions before and after it '
                       'and a repetition count, and copied; every property of the copy is compared with that of the element on every path.')
    res.assumptions = ['Copying a part gives a copy of that part (the same rule, applied to the kind of the part), so nesting of any depth is covered.',
                       'Collections are analysed with up to three parts.', 'A rule is never a part of another element, so its body need not be linked to the copy.']
    for label, parts, make in kinds(repo):
        need_class(repo, label)
        fi = repo.method(label, 'copy')
        if fi is None:
            continue
        d = Drive(repo, Copying(repo), fi)
        done = 0
        count = 3 if len(parts) <= 1 and label != 'NamedGrammar' else 1
        for s, e in normal(make(d, d.start())):
            work = []
            for pre, post in itertools.product((PRE, T(())), (POST, T(()))):
                with_extras = [s]
                for name, val in (('pre_match_binding', pre), ('post_match_binding', post), ('repeat_count', C(count))):
                    with_extras = [b for a in with_extras for b, r in d.set(a, e, name, val) if not isinstance(r, Exc)]
                work += with_extras
            for s1 in work:
                for s2, cp in normal(d.call(s1, e, 'copy')):
                    done += 1
                    compare(repo, res, d, s2, label, e, cp, parts, fi)
        if done:
            res.count('kinds_and_sizes')
        res.absorb(d.eng)
    rounds(repo, res)
    res.need('kinds_and_sizes', 10, 'kinds of element with their contents')
    res.need('contents_equal', 20, 'contents compared')

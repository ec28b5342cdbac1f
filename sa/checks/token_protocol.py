"""C12: match, complete and value routines of the built-in tokens answer in the agreed form."""

import time

from ..values import C, S, O, T, NONE, is_c, Exc, show
from ..cliclient import const, need_class, need_method
from ..drive import Drive, normal
from ..state import mk_eq
from .bounded_tokens import Numbers

TEXT, CLI = S('p', 'text'), S('p', 'cli')
MATCHES = ('MATCH_SUCCESS', 'MATCH_FAILURE', 'MATCH_PARTIAL', 'MATCH_AMBIGUOUS')
ANSWERS = ('match', 'complete', 'get_value')


class Forms(Numbers):
    merge_limit = 80
    unroll = 0


def token_classes(repo):
    base = need_class(repo, 'CliToken')
    mod = repo.classes[base].module
    return [c for c in repo.subclasses(base) if repo.classes[c].module is mod] or [base]


def scene(repo, fi):
    d = Drive(repo, Forms(repo), fi)
    d.eng.exact = True
    st = d.start()
    for x in (TEXT, CLI):
        st = st.assume(mk_eq(x, NONE), False) or st
    st = st.setfact(O('isinst', TEXT, 'str'), True)
    return d, st


def configurations(repo, cid, d, st):
    """Argument lists of the constructor: what has no default is an unknown of the kind its use implies."""
    r = repo.find_member(cid, '__init__')
    fi = repo.funcs[r[1]] if r and r[0] == 'method' else None
    n = len(fi.node.args.defaults) if fi else 0
    names = (fi.params[1:len(fi.params) - n] if n else fi.params[1:]) if fi else ['name']
    lists = [p for p in names if 'altern' in p or fi.vararg and p == names[-1]]
    for k in ((0, 1, 2, 3) if lists else (0,)):
        s, args = st, []
        for p in names:
            if p == 'name':
                args.append(C('name'))
            elif p in lists:
                words = [C('alpha'), C('alps'), C('beta')][:k]
                s, l = d.eng.new_list(s, d.ctx, d.node(), words)
                (s, l), = d.hold([(s, l)])
                args.append(l)
            else:
                v = S('p', p)
                s = s.assume(mk_eq(v, NONE), False) or s
                if not p.startswith('path'):
                    s = s.setfact(O('isinst', v, 'int'), True)
                args.append(v)
        yield s, args, ' with %d alternatives' % k if lists else ''


def look(d, s, v):
    return s.eqc(v) or v


def is_text(d, s, v):
    """True, False, or None when not known."""
    v = look(d, s, v)
    k = d.eng.kind_of(s, v)
    if k == 'str':
        return True
    if v[0] == 's' and v[1] == 'rng' or v[0] == 'lin' or k in ('int', 'float', 'bool', 'NoneType', 'tuple', 'list', 'dict', 'set'):
        return False
    if k in d.repo.classes:
        return 'str' in [c.split('.')[-1] for c in d.repo.mro(k)] or None if any(c not in d.repo.classes for c in d.repo.mro(k)) else False
    return None


def form(d, s, name, v, consts):
    """None: in the agreed form; 'unknown'; or what is wrong."""
    v = look(d, s, v)
    if v[0] == 'co':
        return 'gives a coroutine'
    if name == 'get_value':
        return 'gives nothing at all' if v == NONE else None if is_c(v) or v[0] in ('r', 't', 'lin') else 'unknown' if v[0] == 's' and v[1] not in ('p', 'glob') else None
    if name == 'match':
        if is_c(v):
            return None if v in consts else 'gives nothing at all' if v == NONE else 'gives %s, which is no match result' % show(v)
        return 'gives %s, which is no match result' % ('a pair' if v[0] == 't' else 'a collection') if v[0] in ('t', 'r') else 'unknown'
    if is_c(v):
        return 'gives nothing at all' if v == NONE else 'gives %s instead of a count and a list' % show(v)
    if v[0] == 'r':
        return 'gives one object instead of a count and a list'
    if v[0] != 't':
        return 'unknown'
    if len(v[1]) != 2:
        return 'gives %d values instead of a count and a list' % len(v[1])
    n, l = look(d, s, v[1][0]), look(d, s, v[1][1])
    if is_c(n) and (not isinstance(n[2], int) or isinstance(n[2], bool)) or n[0] in ('r', 't'):
        return 'gives %s as the count' % show(n)
    if is_c(l) or l[0] in ('t', 'lin') or l[0] == 'o' and l[1] in ('len', 'int'):
        return 'gives %s instead of a list' % show(l)
    if l[0] == 'r' and l[1] in s.heap:
        o = s.heap[l[1]]
        if o.kind != 'list':
            return 'gives a %s instead of a list' % o.kind
        for seg in o.data[0]:
            if seg[0] == 'I' and is_text(d, s, seg[1]) is False:
                return 'offers %s, which is no text' % show(seg[1])
            if seg[0] == '*' and any(a[0] == 'o' and a[1] == 'isinst' and a[3] in ('int', 'float') and t is True for a, t in (seg[1] or ())):
                return 'offers numbers instead of texts'
        return None
    if l[0] == 'o' and l[1] == 'list' and l[2][0] == 'o' and l[2][1] == 'range':
        return 'offers numbers instead of texts'
    return 'unknown'


def routine(repo, cid, name):
    r = repo.find_member(cid, name)
    return repo.funcs[r[1]] if r and r[0] == 'method' else None


def follow(repo, cid, fi, name, coarse):
    d, st0 = scene(repo, fi)
    d.eng.deadline = min(d.eng.deadline, time.time() + (80 if coarse else 25))
    if coarse:
        d.eng.client.merge_limit = 16
        d.eng.client.loop_join = True
    found = []
    for st, args, how in configurations(repo, cid, d, st0):
        for s, tok in normal(d.new(st, ('k', cid), *args)):
            found += [(how, s2, v) for s2, v in normal(d.call(s, tok, name, TEXT))]
    return d, found


def run(repo, res):
    res.rules = ['match-result: every path of a matching routine gives one of the defined results',
                 'completion-form: every path of a completion routine gives a number and a list of texts',
                 'value-form: every path of a value routine gives a value or the no-value marker, never nothing']
    res.explanation = ('The constructor and the three routines of every built-in token class are interpreted with unknown settings and an unknown text; the form of the result of '
                       'every path is compared with the agreed one. Ends of a routine without a return count as giving nothing.')
    res.assumptions = ['A path that depends on something outside the program (files, directories) is used only when its conditions are about the text and the settings.',
                       'The text is a string; the callers pass nothing else.']
    consts = [const(repo, 'tokens', n) for n in MATCHES]
    for cid in token_classes(repo):
        cls = cid.split('.')[-1]
        for name in ANSWERS:
            fi = routine(repo, cid, name)
            if fi is None:
                continue
            # first every path of its own; a routine with too many is followed with paths joined at loops
            for coarse in (False, True):
                d, found = follow(repo, cid, fi, name, coarse)
                if not d.eng.incomplete:
                    break
            for how, s, v in found:
                res.count('answers')
                bad = form(d, s, name, v, consts)
                if bad == 'unknown':
                    res.count('undecided')
                elif bad is None:
                    res.count('answers_in_form')
                else:
                    rule = {'match': 'match-result', 'complete': 'completion-form', 'get_value': 'value-form'}[name]
                    d.eng.report(rule, fi.where, '%s.%s' % (cls, name), '%s.%s%s %s' % (cls, name, how, bad), s)
            res.count('routines')
            res.absorb(d.eng)
    res.need('answers_in_form', 20, 'answers of token routines')
    res.need('routines', 12, 'token routines')

"""The grammar actions of the ply parsers, by the rule they reduce."""

import ast

from .cliclient import need_class
from .result import Anchor


def productions(repo, cls):
    """[(left-hand side, right-hand side, function)] of a parser class"""
    cid = need_class(repo, cls)
    out = []
    seen = set()
    for c in repo.mro(cid):
        if c not in repo.classes:
            continue
        for n, f in sorted(repo.classes[c].methods.items()):
            if not n.startswith('p_') or n in seen:
                continue
            seen.add(n)
            fi = repo.funcs[f]
            head = None
            for line in (ast.get_docstring(fi.node) or '').splitlines():
                w = line.split()
                if len(w) > 1 and w[1] in (':', '::='):
                    head, w = w[0], w[2:]
                elif w[:1] == ['|']:
                    w = w[1:]
                elif head is None or not w:
                    continue
                if head is None:
                    continue
                alt = []
                for x in w + ['|']:
                    if x == '|':
                        out.append((head, tuple(alt), fi))
                        alt = []
                    else:
                        alt.append(x)
    return out


def action(repo, cls, head, *rhs):
    """The function that reduces head : rhs (None stands for any symbol)."""
    for h, r, fi in productions(repo, cls):
        if h == head and len(r) == len(rhs) and all(b is None or a == b for a, b in zip(r, rhs)):
            return fi
    raise Anchor("no grammar action for %s : %s" % (head, ' '.join(str(x) for x in rhs)))


def start_symbol(repo, cls):
    """ply starts with the rule of the first grammar function."""
    best = None
    for h, r, fi in productions(repo, cls):
        key = fi.node.lineno
        if best is None or key < best[0]:
            best = (key, h)
    return best and best[1]


def derivations(repo, cls, kinds, start=None, limit=2):
    """Derivation trees (function, children) of a sequence of token types; a token is its index."""
    prods = {}
    for h, r, fi in productions(repo, cls):
        prods.setdefault(h, []).append((r, fi))
    memo, busy = {}, {}
    # what a symbol can begin with, and whether it can be empty
    first, empty = {x: set() for x in prods}, set()
    grown = True
    while grown:
        grown = False
        for h, rs in prods.items():
            for r, fi in rs:
                add, all_empty = set(), True
                for x in r:
                    add |= first[x] if x in prods else {x}
                    if x not in empty:
                        all_empty = False
                        break
                if not add <= first[h] or all_empty and h not in empty:
                    first[h] |= add
                    if all_empty:
                        empty.add(h)
                    grown = True

    def sym(x, i, j):
        """-> (derivations, how far up the stack a cut depends on)"""
        if x not in prods:
            return ([i] if j == i + 1 and kinds[i] == x else []), 1 << 30
        if i == j and x not in empty or i < j and kinds[i] not in first[x]:
            return [], 1 << 30
        k = (x, i, j)
        if k in memo:
            return memo[k], 1 << 30
        if k in busy:
            return [], busy[k]
        depth = len(busy)
        busy[k] = depth
        out, low = [], 1 << 30
        for r, fi in prods[x]:
            got, l = seq(r, i, j)
            low = min(low, l)
            out += [(fi, ch) for ch in got]
        del busy[k]
        out = out[:limit]
        if low >= depth:
            memo[k] = out
            low = 1 << 30
        return out, low

    def seq(r, i, j):
        if not r:
            return ([()] if i == j else []), 1 << 30
        k = (r, i, j)
        if k in memo:
            return memo[k], 1 << 30
        low = 1 << 30
        if len(r) == 1:
            got, low = sym(r[0], i, j)
            out = [(t,) for t in got]
        else:
            out = []
            for m in range(i, j + 1) if r[0] in prods else (i + 1,):
                if m > j:
                    break
                rest, l = seq(r[1:], m, j)
                low = min(low, l)
                if rest:
                    head, l = sym(r[0], i, m)
                    low = min(low, l)
                    out += [(t,) + q for t in head for q in rest]
            out = out[:limit]
        if low == 1 << 30:
            memo[k] = out
        return out, low
    return sym(start or start_symbol(repo, cls), 0, len(kinds))[0]


def reduce_tree(d, st, me, tree, values, results=None):
    """Run the actions of a derivation bottom up -> [(State, value or Exc)]"""
    from .values import Exc, NONE, C
    if isinstance(tree, int):
        return [(st, values[tree])]
    fi, children = tree
    cur = [(st, [])]
    for c in children:
        nxt = []
        for s, vs in cur:
            if isinstance(vs, Exc):
                nxt.append((s, vs))
                continue
            for s2, v in reduce_tree(d, s, me, c, values):
                nxt.append((s2, v if isinstance(v, Exc) else vs + [v]))
        cur = nxt
    out = []
    for s, vs in cur:
        if isinstance(vs, Exc):
            out.append((s, vs))
            continue
        s, t = d.eng.new_list(s, d.ctx, d.node(), [NONE] + vs)
        d.n += 1
        s = s.setvar('$script', 't%d' % d.n, t)
        for s2, v in d.guard(lambda: d.eng.invoke(('b', me, fi.fid), [t], {}, s, d.ctx, d.node(), run=True)):
            if isinstance(v, Exc):
                out.append((s2, v))
                continue
            segs = s2.heap[t[1]].data[0]
            if segs and segs[0][0] == 'I':
                out.append((s2, segs[0][1]))
            else:
                s2 = s2.copy()
                s2.guess = True
                out.append((s2, NONE))
    return out

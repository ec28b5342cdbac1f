"""C08: lines of command files are fed once each, in order, and before the terminal."""

import itertools

from ..values import C, S, O, R, T, NONE, TRUE, FALSE, is_c, Exc, mentions, show
from ..state import Obj
from ..cliclient import CliClient, start, need_method, need_class
from ..result import Anchor

# an interpreter, a context nested in it, one nested in that, ..
CONTEXTS = ('self', 'child', 'third', 'fourth')


def line(f, i):
    return S('fileline', f, i)


class Feed(CliClient):
    """files are abstract: a number of named lines, possibly followed by any number more.
    monitor: how often the terminal was read"""

    unroll = 8
    distinct = 24
    recursion = 16

    def __init__(self, repo, shapes):
        super().__init__(repo)
        self.shapes = shapes
        self.reads = 0
        self.opened = 0

    def is_opaque(self, eng, st, ctx, tgt):
        if tgt.kind == 'func' and tgt.fi is not None and tgt.fi.cls is not None:
            c, f = tgt.fi.cls.name, tgt.fi.name
            if (c, f) in (('StdStreamsHolder', 'print'), ('StdStreamsHolder', 'error'), ('NessaidCli', 'validate_token_classes')):
                return True
            if f == '__init__' and c == 'CliInterface':
                return True
        return super().is_opaque(eng, st, ctx, tgt)

    def terminal(self, st):
        return st.mon[1][0][2] if st.mon is not None else 0

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        if tgt.kind == 'ext' and tgt.name in ('builtins.open', 'open', 'io.open', 'codecs.open'):
            self.opened += 1
            name = args[0] if args else kwargs.get('file', NONE)
            return [(st, O('file', name))]
        if tgt.kind == 'meth' and tgt.name in ('readlines', 'read') and tgt.recv is not None and mentions(tgt.recv, S('file')) is False:
            f = self.file_of(tgt.recv)
            if f is not None:
                if tgt.name == 'read':
                    return [(st, O('content', C(f)))]
                n, more = self.shapes[f]
                segs = tuple(('I', line(f, i)) for i in range(n))
                if more:
                    segs += (('*', frozenset(), O('rest', C(f))),)
                st, r = eng.alloc(st, ctx, node, 'list', None, (segs, n, None if more else n), tag=f)
                return [(st, r)]
        if tgt.kind == 'meth' and tgt.name in ('readline', 'input') and not self.file_of(tgt.recv):
            self.reads += 1
            st = st.setmon(T((C(min(self.terminal(st) + 1, 3)),)))
            st, s = eng.fresh(st, ctx, node, 'typed')
            return [(st, s)]
        return None

    def file_of(self, v):
        while v is not None and v[0] == 'o' and v[1] == 'entered':
            v = v[2]
        if v is not None and v[0] == 'o' and v[1] == 'file' and is_c(v[2]):
            return v[2][2]
        return None


def origin(v):
    """(file, index) of the line a value is made from, 'typed', None or 'unknown'."""
    if v == NONE:
        return 'nothing'
    found = set()

    def walk(x):
        if isinstance(x, tuple):
            if x[:2] == ('s', 'fileline'):
                found.add((x[2], x[3]))
                return
            if len(x) > 2 and x[0] == 's' and x[1] == '@' and x[2] == 'typed':
                found.add('typed')
                return
            for e in x:
                walk(e)
        elif isinstance(x, frozenset):
            for e in x:
                walk(e)
    walk(v)
    return found.pop() if len(found) == 1 else 'unknown'


# a scenario: the shapes of the files, the calls made in turn, what each must give
# ('add', who, file) / ('line', who) / ('typed', who) / ('ask', who)
SCENARIOS = [
    ('two lines of one file, then the terminal', {'FA': (2, False)},
     [('add', 'self', 'FA'), ('next', 'self', ('FA', 0)), ('next', 'self', ('FA', 1)), ('next', 'self', 'typed')]),
    ('the file added last comes first', {'FA': (2, False), 'FB': (1, False)},
     [('add', 'self', 'FA'), ('add', 'self', 'FB'), ('next', 'self', ('FB', 0)), ('next', 'self', ('FA', 0)),
      ('next', 'self', ('FA', 1)), ('next', 'self', 'typed')]),
    ('a file added in the middle of another', {'FA': (2, False), 'FB': (2, False)},
     [('add', 'self', 'FA'), ('next', 'self', ('FA', 0)), ('add', 'self', 'FB'), ('next', 'self', ('FB', 0)),
      ('next', 'self', ('FB', 1)), ('next', 'self', ('FA', 1)), ('next', 'self', 'typed')]),
    ('an empty file hides nothing', {'FA': (1, False), 'FB': (0, False)},
     [('add', 'self', 'FA'), ('add', 'self', 'FB'), ('next', 'self', ('FA', 0)), ('next', 'self', 'typed')]),
    ('two empty files hide nothing', {'FA': (1, False), 'FB': (0, False), 'FC': (0, False)},
     [('add', 'self', 'FB'), ('add', 'self', 'FA'), ('add', 'self', 'FC'), ('next', 'self', ('FA', 0)), ('next', 'self', 'typed')]),
    ('terminal input that is asked for leaves the file alone', {'FA': (2, False)},
     [('add', 'self', 'FA'), ('ask', 'self', 'typed'), ('next', 'self', ('FA', 0)), ('ask', 'self', 'typed'),
      ('next', 'self', ('FA', 1)), ('next', 'self', 'typed')]),
    ('prompts for values take file lines in turn', {'FA': (3, False)},
     [('add', 'self', 'FA'), ('next', 'self', ('FA', 0)), ('value', 'self', ('FA', 1)), ('next', 'self', ('FA', 2)),
      ('value', 'self', 'typed')]),
    ('terminal values that are asked for leave the file alone', {'FA': (1, False)},
     [('add', 'self', 'FA'), ('askvalue', 'self', 'typed'), ('next', 'self', ('FA', 0)), ('next', 'self', 'typed')]),
    ('a nested context goes on with its parent\'s file', {'FA': (2, False), 'FB': (1, False)},
     [('add', 'self', 'FA'), ('next', 'self', ('FA', 0)), ('add', 'child', 'FB'), ('next', 'child', ('FB', 0)),
      ('next', 'child', ('FA', 1)), ('next', 'self', 'typed')]),
    ('what a nested context leaves goes to its parent', {'FA': (1, False), 'FB': (2, False)},
     [('add', 'self', 'FA'), ('add', 'child', 'FB'), ('value', 'child', ('FB', 0)), ('next', 'self', ('FB', 1)),
      ('next', 'self', ('FA', 0)), ('next', 'child', 'typed')]),
    ('contexts nested deeper', {'FA': (3, False), 'FB': (2, False), 'FC': (1, False)},
     [('add', 'self', 'FA'), ('next', 'third', ('FA', 0)), ('add', 'fourth', 'FB'), ('next', 'child', ('FB', 0)), ('add', 'third', 'FC'),
      ('value', 'fourth', ('FC', 0)), ('next', 'fourth', ('FB', 1)), ('ask', 'fourth', 'typed'), ('next', 'child', ('FA', 1)), ('next', 'self', ('FA', 2)),
      ('next', 'fourth', 'typed')]),
    ('three files deep', {'FA': (3, False), 'FB': (3, False), 'FC': (3, False)},
     [('add', 'self', 'FA'), ('next', 'self', ('FA', 0)), ('add', 'self', 'FB'), ('next', 'self', ('FB', 0)),
      ('add', 'self', 'FC'), ('next', 'self', ('FC', 0)), ('next', 'self', ('FC', 1)), ('next', 'self', ('FC', 2)),
      ('next', 'self', ('FB', 1)), ('next', 'self', ('FB', 2)), ('next', 'self', ('FA', 1)), ('next', 'self', ('FA', 2)),
      ('next', 'self', 'typed')]),
    ('a file that has no lines at all', {'FA': (0, False)},
     [('add', 'self', 'FA'), ('next', 'self', 'typed'), ('add', 'self', 'FA'), ('value', 'self', 'typed')]),
]


# orders of adding and reading, with the files' lines worked out
SHORT = {'FA': (1, False), 'FB': (2, False), 'FC': (0, False)}
DOES = [('add', 'self', 'FA'), ('add', 'third', 'FB'), ('add', 'child', 'FC'), ('next', 'self'), ('next', 'third'), ('value', 'child'), ('ask', 'child')]


def orders(n):
    for ops in itertools.product(DOES, repeat=n):
        adds = [o for o in ops if o[0] == 'add']
        if len(set(adds)) < len(adds) or not adds or ops[-1][0] == 'add':
            continue
        files, steps = [], []
        for o in ops:
            want = 'typed'
            if o[0] == 'add':
                files.append([(o[2], i) for i in range(SHORT[o[2]][0])])
                want = o[2]
            elif o[0] != 'ask':
                while files and not files[-1]:
                    files.pop()
                want = files[-1].pop(0) if files else 'typed'
            steps.append((o[0], o[1], want))
        yield ('in turn: ' + ', '.join('%s %s' % (a, w if a == 'add' else 'by ' + m) for a, m, w in steps), SHORT, steps)


def prepared(repo, cl):
    """An interpreter and a nested one as their constructors leave them."""
    fi = need_method(repo, 'NessaidCli', '__init__')
    eng, st = start(repo, cl, 'NessaidCli')
    cid = need_class(repo, 'NessaidCli')
    for n in CONTEXTS[1:]:
        st = st.setobj(n, Obj('inst', cid, {}))
    out = []
    for s, v in eng.run_entry(fi, st, R('self'), [S('p', 'grammarset'), S('p', 'loop')], {'stdin': S('in'), 'stdout': S('out'), 'stderr': S('err')}):
        if isinstance(v, Exc):
            continue
        made = [s]
        for up, n in zip(CONTEXTS, CONTEXTS[1:]):
            made = [q for m in made for q, w in eng.run_entry(fi, m, R(n), [S('p', 'grammarset'), S('p', 'loop'), R(up)]) if not isinstance(w, Exc)]
        out += made
    if not out:
        raise Anchor("the constructor of NessaidCli has no normal exit")
    return eng, out


def settle(res, cl, eng):
    res.count('files_opened', cl.opened)
    res.count('terminal_reads', cl.reads)
    res.absorb(eng)


def run(repo, res):
    res.rules = ['file-lines-in-order', 'terminal-only-when-no-line-is-left', 'file-given-at-start']
    res.explanation = ("Abstract interpretation of the routines that add files and hand out lines, over an abstract store holding "
                       "the files as lists of named lines of unknown content; after each call of a "
                       "scenario, the value handed out on every path is traced to the line it is made from.")
    res.assumptions = ["a file reads back its lines in order"]
    nx = need_method(repo, 'NessaidCli', 'get_next_line')
    vl = need_method(repo, 'NessaidCli', 'input')
    ad = need_method(repo, 'NessaidCli', 'add_file_to_execute')
    made = None
    for title, shapes, steps in itertools.chain(SCENARIOS, *(orders(n) for n in range(2, 6 if res.tier == 'thorough' else 5))):
        if shapes is SHORT and made is not None and made[1].steps < 250000:
            cl, eng, states = made
        else:
            cl = Feed(repo, shapes)
            eng, states = prepared(repo, cl)
            if shapes is SHORT:
                if made is not None:
                    settle(res, *made[:2])
                made = cl, eng, states
        res.count('scenarios')
        for i, (what, who, want) in enumerate(steps):
            nxt = []
            for s in states:
                me = R(who)
                if what == 'add':
                    outs = eng.run_entry(ad, s, me, [C(want)])
                    for a, v in outs:
                        if not isinstance(v, Exc):
                            nxt.append(a)
                    continue
                t0 = cl.terminal(s)
                if what in ('next', 'ask'):
                    kw = {'from_stdin': TRUE} if what == 'ask' else {}
                    outs = eng.run_entry(nx, s, me, [S('p', 'prompt')], kw)
                    fi = nx
                else:
                    kw = {'from_stdin': TRUE} if what == 'askvalue' else {}
                    outs = eng.run_entry(vl, s, me, [S('p', 'prompt')], kw)
                    fi = vl
                for a, v in outs:
                    if isinstance(v, Exc):
                        continue
                    res.count('lines_traced')
                    got = origin(v)
                    used = cl.terminal(a) > t0
                    a = a.setmon(T((C(0),)))
                    if want == 'typed':
                        if got not in ('typed', 'unknown') and not used:
                            eng.report('terminal-only-when-no-line-is-left' if what == 'next' else 'file-lines-in-order', fi.where, fi.qual,
                                       "%s: step %d gives %s, must read the terminal" % (title, i + 1, say(got)), a)
                            continue
                        if not used:
                            res.count('undecided')
                    else:
                        if used or got == 'typed':
                            eng.report('terminal-only-when-no-line-is-left', fi.where, fi.qual,
                                       "%s: step %d reads the terminal although line %s of file %s is left" % (title, i + 1, want[1] + 1, want[0][1]), a)
                            continue
                        if got == 'unknown':
                            res.count('undecided')
                        elif got != want:
                            eng.report('file-lines-in-order', fi.where, fi.qual,
                                       "%s: step %d gives %s, must give %s" % (title, i + 1, say(got), say(want)), a)
                            continue
                    nxt.append(a)
            states = eng.reduce(nxt, 12) if hasattr(eng, 'reduce') else nxt
        if shapes is not SHORT:
            settle(res, cl, eng)
    if made is not None:
        settle(res, *made[:2])
    res.need('lines_traced', 30, 'lines handed out')
    res.need('files_opened', 10, 'files opened')
    res.need('terminal_reads', 8, 'terminal reads')


def say(x):
    if isinstance(x, tuple):
        return "line %d of file %s" % (x[1] + 1, x[0][1])
    return {'typed': 'terminal input', 'nothing': 'nothing'}.get(x, 'something else')

"""C10: hidden input is never shown."""

from ..values import C, S, O, R, T, NONE, TRUE, FALSE, is_c, Exc, mentions, show
from ..cliclient import need_method, need_class, is_instance_call
from ..state import Obj
from .script_feed import Feed, prepared, line

OUT = ('write', 'writelines', 'insert_text', 'send', 'put')


def reveals(v):
    """Is part of the entered text in the value (its length does not count)?"""
    if isinstance(v, tuple):
        if v[:2] == ('s', 'fileline') or v[:3] == ('s', '@', 'typed'):
            return True
        if v[:1] == ('o',) and len(v) > 1 and v[1] in ('len', '==', '<', 'not', 'truth', 'isinst'):
            return False
        return any(reveals(x) for x in v if isinstance(x, (tuple, frozenset)))
    if isinstance(v, frozenset):
        return any(reveals(x) for x in v)
    return False


def value_of(st, v):
    """The value with the content of fresh lists put in."""
    if v[0] == 'r' and v[1] in st.heap and st.heap[v[1]].kind in ('list', 'set', 'dict'):
        return ('t', (v, st.heap[v[1]].data))
    return v


class Masked(Feed):
    """monitor: (terminal reads, what was shown: none / mask / text / other)"""

    def __init__(self, repo, shapes, hidden):
        super().__init__(repo, shapes)
        self.hidden = hidden
        self.outs = 0
        self.asked = 0
        self.active = False
        self.consts = set()

    def shown(self, st):
        return st.mon[1][1][2] if st.mon is not None and len(st.mon[1]) > 1 else ''

    def terminal(self, st):
        return st.mon[1][0][2] if st.mon is not None else 0

    def is_opaque(self, eng, st, ctx, tgt):
        return super().is_opaque(eng, st, ctx, tgt)

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        if not self.active:
            return super().on_call(eng, st, ctx, tgt, args, kwargs, node)
        here = eng.loc(ctx, node)
        if is_instance_call(tgt, self.repo, 'StdStreamsHolder', 'print') or is_instance_call(tgt, self.repo, 'StdStreamsHolder', 'error') or \
                tgt.kind == 'ext' and tgt.name in ('builtins.print', 'print', 'sys.stdout.write', 'sys.stderr.write') or \
                tgt.kind == 'ext' and tgt.name.startswith(('logging.', 'traceback.')) or \
                tgt.kind == 'meth' and tgt.name in OUT and tgt.recv is not None and tgt.recv[0] in 'so':
            self.outs += 1
            vals = [value_of(st, a) for a in args if a != R('self')] + [kwargs[k] for k in kwargs if k not in ('file', 'flush')]
            n, sh = self.terminal(st), self.shown(st)
            for v in vals:
                if reveals(v):
                    if self.hidden:
                        eng.report('never-shown', here, ctx.fi.qual, "input that is to stay hidden is written to the output", st)
                    sh += 'T'
                elif self.is_mask(v) is not None:
                    sh += 'M' if self.is_mask(v) else 'W'
                elif is_c(v) and isinstance(v[2], str) and v[2].strip() and self.hidden:
                    sh += 'K'
                    self.consts.add(v[2])
                elif mentions(v, line('FA', 0)) and not is_c(v):
                    sh += '?'
            st = st.setmon(T((C(n), C(sh[:4]))))
            return eng.opaque(tgt, args, kwargs, st, ctx, node)
        if tgt.kind == 'meth' and tgt.name in ('readline', 'input') and not self.file_of(tgt.recv):
            self.asked += 1
            sh = self.shown(st)
            mask = kwargs.get('mask_input', args[1] if len(args) > 1 else FALSE)
            t = st.known_truth(mask) if tgt.name == 'input' else False
            if self.hidden and t is False:
                eng.report('reader-masks', here, ctx.fi.qual, "the terminal is not asked to mask input that is to stay hidden", st)
            elif not self.hidden and t is True:
                eng.report('shown-when-allowed', here, ctx.fi.qual, "the terminal is asked to mask input that may be shown", st)
            elif t is None:
                eng.report('reader-masks', here, ctx.fi.qual, "whether the terminal masks the input does not follow what was asked for", st)
            st = st.setmon(T((C(min(self.terminal(st) + 1, 3)), C(sh))))
            st, s = eng.fresh(st, ctx, node, 'typed')
            return [(st, s)]
        return super().on_call(eng, st, ctx, tgt, args, kwargs, node)

    def is_mask(self, v):
        """True: one character repeated as often as the text is long; False: surely not; None: unclear."""
        if v[0] == 'o' and v[1] in ('*', 'rep') and len(v) == 4:
            for a, b in ((v[2], v[3]), (v[3], v[2])):
                if is_c(a) and isinstance(a[2], str):
                    if b[:2] == ('o', 'len') and reveals(b[2]):
                        return len(a[2]) == 1
                    if b[0] == 'lin' and len(b[2]) == 1 and b[2][0][0][:2] == ('o', 'len'):
                        return False
                    if is_c(b):
                        return False
        return None


def run(repo, res):
    res.rules = ['never-shown', 'mask-length', 'reader-masks', 'shown-when-allowed']
    res.explanation = ("Information-flow (taint) analysis of the routines that read a value: the text entered, from a file or the "
                       "terminal, is followed to everything written to an output; a flow that is not through its length is a "
                       "leak when the characters are to stay hidden. The setting passed to the terminal reader is traced back to the request.")
    res.assumptions = ["the terminal library masks what it is asked to mask"]
    vl = need_method(repo, 'NessaidCli', 'input')
    fn = need_method(repo, 'CliInterface', 'resolve_local_function_call')
    ad = need_method(repo, 'NessaidCli', 'add_file_to_execute')
    for hidden in (True, False):
        for src in ('file', 'terminal'):
            for call in ('input', 'keyword', 'action'):
                cl = Masked(repo, {'FA': (2, False)}, hidden)
                eng, states = prepared(repo, cl)
                if src == 'file':
                    states = [a for s in states for a, v in eng.run_entry(ad, s, R('self'), [C('FA')]) if not isinstance(v, Exc)]
                cl.active = True
                shown = FALSE if hidden else TRUE
                for s in states:
                    s = s.setmon(T((C(0), C(''))))
                    if call == 'input':
                        outs, fi = eng.run_entry(vl, s, R('self'), [S('p', 'prompt'), shown]), vl
                    elif call == 'keyword':
                        kw = {'show_char': shown} if hidden else {}
                        outs, fi = eng.run_entry(vl, s, R('self'), [S('p', 'prompt')], kw), vl
                    else:
                        args = [C('input'), S('p', 'prompt')] + ([shown] if hidden else [])
                        outs, fi = eng.run_entry(fn, s, R('self'), args), fn
                    for a, v in outs:
                        if isinstance(v, Exc):
                            continue
                        res.count('requests')
                        if src == 'terminal' or cl.terminal(a):
                            continue
                        sh = cl.shown(a)
                        if hidden:
                            if sh.count('M') > 1 or 'W' in sh or 'K' in sh and 'M' not in sh and len(cl.consts) == 1:
                                eng.report('mask-length', fi.where, fi.qual, "the number of mask characters is not the length of the text", a)
                            elif 'M' not in sh:
                                res.count('undecided')
                        elif 'T' not in sh and '?' not in sh:
                            eng.report('shown-when-allowed', fi.where, fi.qual, "input read from a command file that may be shown is not shown", a)
                res.count('outputs', cl.outs)
                res.count('terminal_reads', cl.asked)
                res.absorb(eng)
    res.need('requests', 6, 'requests for input')
    res.need('outputs', 4, 'outputs')
    res.need('terminal_reads', 4, 'terminal reads')

"""running other programs: subprocess.Popen, paths relative to a working directory, the output of the program as a sequence of lines"""
from .common import *

NAME = z3.DeclareSort('Name')
RES = z3.Function('resolved', NAME, NAME, NAME)         # what a path means in a working directory
DIRN, BASEN = z3.Function('dirname', NAME, NAME), z3.Function('basename', NAME, NAME)
NONEMPTY = z3.Function('nonempty', NAME, B)
CWD0 = z3.Const('cwd', NAME)
TEXT_MODES = ('text', 'universal_newlines', 'encoding', 'errors')


def one(x):
    """the symbol an argument text consists of"""
    if isinstance(x, StrCat) and len(x.parts) == 1:
        x = x.parts[0]
    if isinstance(x, Fmt) and x.spec in (None, ''):
        x = x.v
    return x


class Line(Model):
    """a line the program printed (never empty)"""
    kind = 'Line'
    def __init__(self, t):
        super().__init__()
        self.t = t
    def truth(self, I): return True
    def getitem(self, I, i): return Opaque('part of a line')
    def eq(self, I, o):
        if o == '':
            return False
        raise Undecided('line compared')
    def m_strip(self, I, *a): return Opaque('line')
    def m_rstrip(self, I, *a): return Opaque('line')
    def m_removesuffix(self, I, *a): return Opaque('line')


class Out(Model):
    kind = 'process output'

    def __init__(self, n):
        super().__init__()
        self.n, self.pos = n, z3.IntVal(0)

    def m_readline(self, I):
        if not I.branch(zint(self.pos) < self.n):
            return ''
        I.note_write(self)
        r = Line(self.pos)
        self.pos = z3.simplify(zint(self.pos) + 1)
        return r

    def iterate(self, I):
        if not same(self.pos, 0):
            raise Undecided('the output is read twice')
        I.note_write(self)
        self.pos = self.n
        return IterSpec('process output', self.n, lambda I, k: Line(k))
    def m_close(self, I): return None


class Proc(Model):
    kind = 'Popen'

    def __init__(self, I, st, args, kw):
        super().__init__()
        self.st, self.args, self.kw = st, args, kw
        self.out, self.waited = st.out, False

    def getattr(self, I, n):
        if n == 'stdout':
            return self.out if isinstance(self.kw.get('stdout'), External) and self.kw['stdout'].dotted == 'subprocess.PIPE' else None
        if n == 'returncode':
            return self.st.rc if self.waited else None
        return super().getattr(I, n)

    def m_wait(self, I, *a, **k):
        if a or k:
            raise Undecided('wait with a time limit')
        I.prove('the output is read to its end before the end of the program is awaited', zint(self.out.pos) == self.out.n)
        self.waited = True
        return self.st.rc

    def m_poll(self, I): return self.st.rc if self.waited else None
    def on_exit(self, I): self.m_wait(I)


class Reading(Spec):
    """while loop that reads the output and writes it to the log"""
    is_while = True

    def __init__(self, st):
        super().__init__('output', lambda I, it: bool(st.procs))
        self.st = st

    def own(self, L):
        for o in L.written:
            if o is not self.st.out and o is not self.st.tr:
                raise Undecided(f'the loop that reads the output writes {o!r}')

    def pre(self, I, L): self.own(L)

    def havoc(self, I, L, k):
        st = self.st
        L.ghost['pre_events'] = list(st.tr.events)
        st.out.pos = k
        st.tr.events = [('sofar', self.name)]
        mark_havoc(L, *L.written)

    def inv(self, I, L, k): return [('read so far', z3.And(zint(self.st.out.pos) == k, k >= 0, k <= self.st.out.n))]

    def elem_done(self, I, L, k, ctx):
        ev = self.st.tr.events
        if not ev or ev[0] != ('sofar', self.name):
            raise Undecided('trace was replaced')
        self.st.line_done(I, k, ev[1:])

    def on_break(self, I, L, k): self.st.tr.events = L.ghost['pre_events'] + [('loop', self.name, L)] + self.st.tr.events[1:]
    def after(self, I, L): self.st.tr.events = L.ghost['pre_events'] + [('loop', self.name, L)]


class State:
    def __init__(self, I):
        self.I = I
        self.tr = Trace()
        n = I.fresh('n_lines', Z)
        I.assume(n >= 0)
        self.out, self.rc = Out(n), I.fresh('status', Z)
        self.procs, self.cwd = [], CWD0
        self.opened = []
        I.roots = [self.tr, self.out]

        def path(x):
            x = one(x)
            if not (is_sym(x) and x.sort() == NAME):
                raise Undecided(f'path {x!r}')
            return x
        self.path = path

        self.abs, self.dirs = [], [CWD0]

        def res(c, x):
            r = RES(c, x)
            I.assume(NONEMPTY(DIRN(r)), RES(DIRN(r), BASEN(x)) == r, RES(DIRN(r), BASEN(r)) == r)
            for z in (r, DIRN(r)):
                if not any(z3.eq(z, y) for y in self.abs):
                    self.abs.append(z)
            if not any(z3.eq(c, y) for y in self.dirs):
                self.dirs.append(c)
            I.assume(*[RES(d, y) == y for d in self.dirs for y in self.abs])
            return r
        self.res = res
        ext = dict(abspath=lambda I, a, k: res(self.cwd, path(a[0])), realpath=lambda I, a, k: _no('realpath'),
                   dirname=lambda I, a, k: DIRN(path(a[0])), basename=lambda I, a, k: BASEN(path(a[0])))
        for n_, f in ext.items():
            I.externals['os.path.' + n_] = Builtin(n_, f)
        I.externals['os.getcwd'] = Builtin('getcwd', lambda I, a, k: self.cwd)

        def chdir(I, a, k):
            self.cwd = self.res(self.cwd, path(a[0]))
        I.externals['os.chdir'] = Builtin('chdir', chdir)
        I.ghost[('truth', 'Name')] = lambda x: NONEMPTY(x)

        def popen(I, a, k):
            args = a[0] if a else k.pop('args')
            if len(a) > 1 or not isinstance(args, (ListVal, tuple, list)):
                raise Undecided('Popen arguments')
            for x in k:
                if x not in ('stdin', 'stdout', 'stderr', 'cwd', 'bufsize', 'close_fds') + TEXT_MODES:
                    raise Undecided(f'Popen({x}=)')
            if any(k.get(x) for x in TEXT_MODES):
                enc, err = k.get('encoding'), k.get('errors')
                I.prove('whatever bytes the program prints are text, UTF-8 being read as it is', z3.BoolVal(
                    isinstance(enc, str) and enc.lower().replace('_', '-') in ('utf-8', 'utf8') and err in ('replace', 'backslashreplace')))
            p = Proc(I, self, list(args.items if isinstance(args, ListVal) else args), k)
            p.dir = self.res(self.cwd, path(k['cwd'])) if k.get('cwd') is not None else self.cwd
            if self.procs:
                raise Undecided('several programs')
            self.procs.append(p)
            return p
        I.externals['subprocess.Popen'] = Builtin('Popen', popen)

        def op(I, p, mode='r', **kw):
            if mode in ('a', 'at', 'a+', 'r+'):
                I.prove('what an earlier run left is replaced', z3.BoolVal(False))
            elif mode not in ('w', 'wt', 'w+'):
                raise Undecided(f'open mode {mode}')
            self.tr.emit(I, 'open', res(self.cwd, path(p)))
            self.opened.append(kw.get('encoding'))
            return FileOut(self.tr, p, mode, kw)
        I.ghost['open'] = op
        I.ghost['encodings'] = True
        I.loop_specs = [Reading(self), TraceSpec('output', lambda I, it: it.tag == 'process output', self.tr, lambda I, L, k, ev: self.line_done(I, k, ev))]

    def line_done(self, I, k, ev):
        """what one round of the reading loop writes"""
        t = text_of(ev)
        if any(e[0] not in ('w',) for e in ev):
            raise Undecided('the reading loop opens files')
        if any(isinstance(x, Opaque) for x in t) and all(isinstance(x, (Opaque, Line, str)) for x in t):
            raise Undecided('part of a line is written')
        I.prove('every line goes to the log as it is', z3.And(z3.BoolVal(len(t) == 1 and isinstance(t[0], Line)), *[zint(x.t) == k for x in t if isinstance(x, Line)]))

    def run(self, I, mod, qual, args, kw, log, raises=True):
        """calls the runner; returns the started program"""
        try:
            I.call(I.repo(mod, qual), args, kw)
            raised = False
        except PyRaise as e:
            raised = True
            self.exc = e.exc
        if not self.procs:
            if raised:
                raise Undecided(f'raises {self.exc.cls} before the program is started')
            I.prove('the program is run', z3.BoolVal(False))
            return None
        p = self.procs[0]
        for n in ('stdout', 'stderr', 'stdin'):
            v = p.kw.get(n)
            want = dict(stdout='PIPE', stderr='STDOUT', stdin='DEVNULL')[n]
            I.prove(dict(stdout='the output is read', stderr='error messages are kept with the output', stdin='the program never waits for input')[n],
                    z3.BoolVal(isinstance(v, External) and v.dotted == 'subprocess.' + want))
        I.prove('the output is read as text', z3.BoolVal(any(p.kw.get(x) not in (None, False) for x in TEXT_MODES)))
        ev = self.tr.events
        I.prove('one log file is written', z3.BoolVal(len([e for e in ev if e[0] == 'open']) == 1))
        for e in ev:
            if e[0] == 'open':
                I.prove('the log is where it was asked for', e[1] == self.res(CWD0, log))
        I.prove('the log holds the whole output and nothing else', z3.And(z3.BoolVal([e[0] for e in ev if e[0] != 'open'] == ['loop']), zint(self.out.pos) == self.out.n))
        I.prove('the working directory stays', self.cwd == CWD0)
        I.prove('the end of the program is awaited', z3.BoolVal(p.waited))
        if raises:
            I.prove('a failed run is an error, a successful one is not', (self.rc != 0) if raised else (self.rc == 0))
        else:
            I.prove('no error is raised', z3.BoolVal(not raised))
        return p

    def names(self, p, arg, want, what):
        """the argument names the wanted file in the directory the program runs in"""
        x = one(arg)
        if not (is_sym(x) and x.sort() == NAME):
            self.I.prove(what, z3.BoolVal(False))
            return
        self.I.prove(what, self.res(p.dir, x) == self.res(CWD0, want))


def _no(w): raise Undecided(w)


def split_arg(x, flags):
    """(flag, rest) of an argument text such as -a0.05"""
    if isinstance(x, str):
        for f in flags:
            if x.startswith(f):
                return f, x[len(f):]
        return None, x
    if isinstance(x, StrCat) and x.parts and isinstance(x.parts[0], str) and x.parts[0] in flags and len(x.parts) == 2:
        return x.parts[0], x.parts[1]
    return None, x


def value_is(I, what, got, want):
    """the text of an option is the wanted value, in full"""
    g = one(got)
    if isinstance(g, Fmt):
        I.prove(what + ': in full', z3.BoolVal(False))
        return
    if is_sym(want) and not is_sym(g) and not is_num(g):
        I.prove(what, z3.BoolVal(False))
        return
    if isinstance(want, str) or want is None or not is_sym(want) and not is_sym(g):
        I.prove(what, z3.BoolVal(g == want))
        return
    if is_sym(want) and want.sort() == NAME or is_sym(g) and g.sort() == NAME:
        I.prove(what, g == want if is_sym(g) and is_sym(want) and g.sort() == want.sort() else z3.BoolVal(False))
        return
    I.prove(what, zreal(g) == zreal(want))


__all__ = [n for n in dir() if not n.startswith('__')]

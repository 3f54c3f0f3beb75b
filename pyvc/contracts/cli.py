"""the command line: the namespace of arguments, files, other programs"""
from .common import *

NAME = z3.DeclareSort('Name')
MOD = 'klayout_pex.kpex_cli'


def key(x):
    """a path text as a key"""
    if isinstance(x, StrCat):
        return ''.join(key(p) for p in x.parts)
    if isinstance(x, Fmt):
        if isinstance(x.v, tuple):
            return f'<{x.spec}({", ".join(key(y) for y in x.v)})>'
        return key(x.v) if x.spec in (None, '') else f'<{x.v}:{x.spec}>'
    if isinstance(x, str):
        return x
    if is_sym(x):
        return f'<{z3.simplify(x).sexpr()}>'
    if isinstance(x, EnumMember):
        return str(x.value)
    raise Undecided(f'path {x!r}')


def flat(x):
    """parts of a text"""
    if isinstance(x, StrCat):
        return [y for p in x.parts for y in flat(p)]
    if isinstance(x, Fmt) and x.spec in (None, '') and not isinstance(x.v, tuple):
        return flat(x.v)
    return [x]


class Args(Model):
    """argparse.Namespace"""
    kind = 'Namespace'

    def __init__(self, **kw):
        super().__init__()
        self.d = dict(kw)

    def getattr(self, I, n):
        if n in self.d:
            return self.d[n]
        I.raise_('AttributeError', n)

    def setattr(self, I, n, v):
        I.note_write(self)
        self.d[n] = v
    def has_attr(self, I, n): return n in self.d
    def snapshot(self): return dict(self.d)
    def restore(self, s): self.d = dict(s)


class Files(Model):
    """files: existence, age and content, each path its own file"""
    kind = 'files'

    def __init__(self, I):
        super().__init__()
        self.I, self.st, self.log = I, {}, []

    def f(self, x):
        k = key(x)
        if k not in self.st:
            I = self.I
            self.st[k] = dict(exists=z3.Const(f'exists {k}', B), mtime=z3.Const(f'mtime {k}', R), content=z3.Const(f'content {k}', NAME), path=x, isfile=z3.Const(f'is_file {k}', B))
            I.assume(z3.Implies(self.st[k]['isfile'], self.st[k]['exists']))
            self.st[k]['first'] = dict(self.st[k])
        return self.st[k]

    def install(self, I):
        ext = lambda n, f: I.externals.__setitem__(n, Builtin(n, lambda I, a, k: f(*a, **k)))
        ext('os.path.exists', lambda p: self.f(p)['exists'])
        ext('os.path.isfile', lambda p: self.f(p)['isfile'])
        ext('os.path.getmtime', lambda p: self.need(p)['mtime'])
        ext('os.remove', self.remove)
        ext('os.unlink', self.remove)
        ext('os.makedirs', self.makedirs)
        ext('shutil.copy', self.copy)
        ext('shutil.copyfile', self.copy)
        ext('shutil.copy2', self.copy)
        ext('shutil.move', lambda a, b: (self.copy(a, b), self.remove(a))[0])
        ext('datetime.datetime.fromtimestamp', lambda t: t)
        ext('os.path.splitroot', lambda p: ('', Fmt((p,), 'root'), StrCat([Fmt((p,), 'without root')])))
        I.ghost['open'] = self.open
        I.roots = getattr(I, 'roots', []) + [self]

    def need(self, p):
        f = self.f(p)
        if not self.I.branch(f['exists']):
            self.I.raise_('FileNotFoundError')
        return f

    def remove(self, p):
        f = self.need(p)
        f['exists'] = f['isfile'] = z3.BoolVal(False)
        self.log.append(('remove', key(p)))

    def makedirs(self, p, mode=None, exist_ok=False):
        f = self.f(p)
        if exist_ok is not True and self.I.branch(f['exists']):
            self.I.raise_('FileExistsError')
        f['exists'] = z3.BoolVal(True)
        self.log.append(('makedirs', key(p)))

    def put(self, p, content, mtime=None):
        f = self.f(p)
        f['exists'] = f['isfile'] = z3.BoolVal(True)
        f['content'], f['mtime'] = content, mtime if mtime is not None else self.I.fresh('now', R)
        self.log.append(('put', key(p)))

    def copy(self, a, b):
        f = self.need(a)
        self.put(b, f['content'])
        return b

    def open(self, I, p, mode='r', **kw):
        if mode in ('w', 'wt'):
            tr = Trace()
            self.put(p, tr)
            return FileOut(tr, p, mode, kw)
        raise Undecided(f'open {key(p)} {mode}')


NONEMPTY = z3.Function('nonempty', NAME, B)
STEM = z3.Function('stem', NAME, NAME)


class SplitName(Model):
    kind = 'split name'
    def __init__(self, x):
        super().__init__()
        self.x = x
    def getitem(self, I, i):
        if i == 0:
            return STEM(self.x)
        raise Undecided('part of a file name')


def names(I):
    I.ghost[('truth', 'Name')] = lambda x: NONEMPTY(x)
    I.externals['os.path.basename'] = Builtin('basename', lambda I, a, k: a[0] if is_sym(a[0]) else _no('basename'))


def _no(w): raise Undecided(w)


def N(n): return z3.Const(n, NAME)


__all__ = [n for n in dir() if not n.startswith('__')]

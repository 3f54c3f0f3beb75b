"""messages: levels, console, log files, choices of options"""
from .cli import *
from . import C33 as c33
from .C34 import Parser, Environ, contract, dest_of

LOG = 'klayout_pex.log.logger'
ASSUMPTIONS = ['logging.Logger: a record of a level not below that of the logger goes to every handler of the logger, a handler shows the records that its level and all its filters let pass, with the text '
               'its formatter gives', 'rich.logging.RichHandler with markup shows what rich.markup.escape gives as it was, and [red], [yellow] as colours', 'logging.FileHandler appends what it gets to its file',
               'os, shutil as documented; different path texts are different files', 'the level names are DEBUG (10), SUBPROCESS (12), ..., as in the documentation']
LEVELS = dict(debug=10, subproc=12, info=20, warning=30, error=40)
MSG = z3.DeclareSort('Message')
ESC = z3.Function('escaped', MSG, MSG)


class Logger(Model):
    """logging.Logger"""
    kind = 'Logger'

    def __init__(self):
        super().__init__()
        self.calls, self.handlers, self.level = [], [], None

    def getattr(self, I, n):
        if n in ('debug', 'info', 'warning', 'warn', 'error', 'critical'):
            return Builtin(n, lambda I, a, k: self.log(I, dict(debug=10, info=20, warning=30, warn=30, error=40, critical=50)[n], a, k))
        if n == 'log':
            return Builtin(n, lambda I, a, k: self.log(I, a[0], a[1:], k))
        if n == 'level':
            return self.level
        if n == 'handlers':
            return HandlerList(self)
        if n in ('setLevel', 'addHandler', 'removeHandler'):
            return Builtin(n, lambda I, a, k: getattr(self, 'do_' + n)(*a))
        if n in ('getEffectiveLevel',):
            return Builtin(n, lambda I, a, k: self.level)
        raise Undecided(f'logger {n}')

    def log(self, I, level, a, k):
        self.calls.append((level.value if isinstance(level, EnumMember) else level, list(a), dict(k)))

    def do_setLevel(self, l): self.level = l

    def do_addHandler(self, h):
        if not any(x is h for x in self.handlers):
            self.handlers.append(h)

    def do_removeHandler(self, h):
        self.handlers = [x for x in self.handlers if x is not h]
    def snapshot(self): return (list(self.calls), list(self.handlers), self.level)
    def restore(self, s): self.calls, self.handlers, self.level = list(s[0]), list(s[1]), s[2]


class HandlerList(Model):
    kind = 'handlers'
    def __init__(self, l):
        super().__init__()
        self.l = l
    def m_clear(self, I): self.l.handlers = []
    def m_append(self, I, h): self.l.do_addHandler(h)
    def iterate(self, I): return list(self.l.handlers)
    def length(self, I): return len(self.l.handlers)


class Handler(Model):
    """logging.Handler, RichHandler or FileHandler"""
    kind = 'Handler'

    def __init__(self, kw, path=None, fs=None):
        super().__init__()
        self.kw, self.path, self.fs, self.filters, self.formatter, self.level, self.open = kw, path, fs, [], None, 0, True

    def m_addFilter(self, I, f): self.filters.append(f)
    def m_setFormatter(self, I, f): self.formatter = f
    def m_setLevel(self, I, l): self.level = l
    def m_flush(self, I): pass
    def m_close(self, I): self.open = False
    def snapshot(self): return (list(self.filters), self.formatter, self.level, self.open)
    def restore(self, s): self.filters, self.formatter, self.level, self.open = list(s[0]), *s[1:]


def num(l): return l.value if isinstance(l, EnumMember) else l


def logger(I):
    lg = Logger()
    I.externals['logging.getLogger'] = Builtin('getLogger', lambda I, a, k: lg)
    cons = Record('console', {})
    I.externals['rich.console.Console'] = Builtin('Console', lambda I, a, k: cons)
    I.externals['logging.Filter'] = External('logging.Filter')
    I.roots = getattr(I, 'roots', []) + [lg]
    lg.console = cons
    return lg


def functions(I):
    """debug, subproc, info, warning, error.  ensures: one record of the level of the function's name with exactly the given message and arguments, at the place of the caller"""
    lg = logger(I)
    name = list(LEVELS)[I.choose(5)]
    f = I.repo(LOG, name)
    m, st = z3.Const('message', MSG), I.fresh('stacklevel', Z)
    I.assume(st >= 1)
    with_args = name != 'subproc' and I.choose(2)
    given = I.choose(2)
    r = I.call(f, [m] + ([z3.Const('arg', MSG)] if with_args else []), dict(stacklevel=st) if given else {})
    I.prove(f'{name}: one record', z3.BoolVal(len(lg.calls) == 1))
    if len(lg.calls) != 1:
        return
    level, a, k = lg.calls[0]
    I.prove(f'{name}: its level', z3.BoolVal(level == LEVELS[name]))
    I.prove(f'{name}: the message', z3.BoolVal(len(a) == 1 + with_args and a[0] is m))
    I.prove(f'{name}: nothing is added', z3.BoolVal(set(k) <= {'stacklevel'}))
    s = k.get('stacklevel', 1)
    I.prove(f'{name}: the place of the caller', zint(s) == (st if given else 2))


def levels(I):
    """set_log_level, get_log_level.  ensures: what is set is what is used and what is returned"""
    lg = logger(I)
    cls = I.repo(LOG, 'LogLevel')
    ms = list(cls.members.values())
    m = ms[I.choose(len(ms))]
    want = dict(DEBUG=10, SUBPROCESS=12, VERBOSE=15, INFO=20, WARNING=30, ERROR=40, CRITICAL=50, DEFAULT=12)
    I.prove('the levels', z3.BoolVal({n: x.value for n, x in cls.members.items() if n in want} == want))
    I.prove('ALL is below every level', z3.BoolVal(all(cls.members['ALL'].value < v for v in want.values()) if 'ALL' in cls.members else False))
    I.prove('a level of its own, not that of the root logger', z3.BoolVal(m.value > 0))
    I.call(I.repo(LOG, 'set_log_level'), [m])
    I.prove('the level set is that of the logger', z3.BoolVal(num(lg.level) == m.value))
    I.prove('the level set is returned', z3.BoolVal(I.call(I.repo(LOG, 'get_log_level'), []) is m))


def record_(I, name, no):
    m = z3.Const('message', MSG)
    return Record('record', dict(levelname=name, levelno=no, getMessage=Builtin('getMessage', lambda I, a, k: m), msg=m)), m


def lets_pass(I, f, rec):
    fn = I.getattr(f, 'filter')
    return I.call(fn, [rec])


def configure(I):
    """configure_logger.  ensures: exactly one handler shows a record: solver output plain, all others with colours; the text is complete; every level has its name"""
    lg = logger(I)
    old = Handler({})
    lg.handlers = [old]
    made, named = [], {}

    def rich(I, a, k):
        h = Handler(dict(k))
        made.append(h)
        I.roots = I.roots + [h]
        return h
    I.externals['rich.logging.RichHandler'] = Builtin('RichHandler', rich)
    I.externals['logging.addLevelName'] = Builtin('addLevelName', lambda I, a, k: named.__setitem__(num((list(a) + [k.get('level')])[0]), a[1] if len(a) > 1 else k.get('levelName')))
    I.contracts[f'{LOG}:LogLevelFormatter'] = lambda I, a, k: Obj(I.repo(LOG, 'LogLevelFormatter'), {})
    esc = lambda I, a, k: ESC(a[0]) if is_sym(a[0]) else _no('escape')
    I.externals['rich.markup.escape'] = Builtin('escape', esc)
    I.ghost[('attr', 'Message')] = lambda I, x, n: _no(f'message {n}')
    I.call(I.repo(LOG, 'configure_logger'), [])
    names = dict(ALL=I.getattr(I.repo(LOG, 'LogLevel'), 'ALL').value, DEBUG=10, SUBPROCESS=12, VERBOSE=15, INFO=20, WARNING=30, ERROR=40, CRITICAL=50)
    I.prove('every level has its name', z3.BoolVal(all(named.get(v) == n for n, v in names.items())))
    I.prove('solver output is shown unless asked otherwise', z3.BoolVal(num(lg.level) == 12))
    hs = lg.handlers
    I.prove('no handler of before', z3.BoolVal(not any(h is old for h in hs)))
    n = list(names)[I.choose(len(names))]
    rec, m = record_(I, n, names[n])
    shown = []
    for h in hs:
        p = True
        if not (isinstance(num(h.level), int) and num(h.level) <= names[n]):
            p = False
        for f in h.filters:
            r = lets_pass(I, f, rec)
            if is_sym(r):
                r = I.branch(r)
            p = p and bool(r)
        if p:
            shown.append(h)
    I.prove(f'{n}: shown once', z3.BoolVal(len(shown) == 1))
    if len(shown) != 1:
        return
    h = shown[0]
    I.prove('shown on the console', z3.BoolVal(h.kw.get('console') is lg.console))
    mk = h.kw.get('markup', False)
    if n == 'SUBPROCESS':
        I.prove('solver output without colours', z3.BoolVal(mk is False and h.kw.get('show_level', True) is False))
    txt = m
    if h.formatter is not None:
        if not (isinstance(h.formatter, Obj) and isinstance(h.formatter.cls, ClassVal)):
            raise Undecided('formatter')
        txt = I.call(I.getattr(h.formatter, 'format'), [rec])
    parts = flat(txt)
    parts = [x for x in parts if not isinstance(x, str) or x]
    want = ESC(m) if mk else m
    pre = {'WARNING': ['[yellow]'], 'ERROR': ['[red]']}.get(n, [])
    I.prove(f'{n}: the whole message is shown', z3.BoolVal(is_sym(parts[-1]) and z3.eq(parts[-1], want) if not any(isinstance(x, str) and not x.startswith('[') for x in parts) else False))
    I.prove(f'{n}: its colour', z3.BoolVal(parts[:-1] == pre))


GIVEN = z3.Function('is a given level', NAME, B)


class Names(Model):
    """the given levels"""
    kind = 'levels'
    def contains(self, I, x): return GIVEN(x)


def filters(I):
    """LogLevelFilter.  ensures: exactly the records of the given levels, or all others if inverted"""
    logger(I)
    inv = I.choose(2)
    n = z3.Const('level of the record', NAME)
    I.externals['logging.Filter'] = External('logging.Filter')
    f = I.instantiate(I.repo(LOG, 'LogLevelFilter'), [Names(), bool(inv)], {})
    r = I.call(I.getattr(f, 'filter'), [Record('record', dict(levelname=n))])
    r = r if is_sym(r) else z3.BoolVal(bool(r))
    I.prove('a record of a given level, or of another if inverted', r == z3.Xor(GIVEN(n), z3.BoolVal(bool(inv))))


# ---------------------------------------------------------------------------------------------- log files
class LogFiles(Files):
    """files whose content is a list of pieces; an open file stays the same file when it is moved"""

    def snapshot(self): return ({k: dict(v) for k, v in self.st.items()}, list(self.moves))

    def restore(self, s): self.st, self.moves = {k: dict(v) for k, v in s[0].items()}, list(s[1])

    def pieces(self, p):
        f = self.f(p)
        if 'pieces' not in f:
            f['pieces'] = [('before', key(p))]
        return f

    def move(self, a, b):
        f = self.need(a)
        ps = self.pieces(a)['pieces']
        self.moves.append((key(a), key(b)))
        self.f(b)
        self.st[key(b)].update(exists=z3.BoolVal(True), isfile=z3.BoolVal(True), pieces=ps)
        f.update(exists=z3.BoolVal(False), isfile=z3.BoolVal(False), pieces=[])
        return b


def setup_logging(I):
    """KpexCLI.setup_logging.  ensures: kpex.log and kpex_plain.log in the output directory have every message since the start, also of a failed validation (exit code 1), and get all
    later ones, once; a log that was there is kept; the log level is the one asked for"""
    lg = logger(I)
    con = Handler({})
    lg.handlers = [con]
    fs = LogFiles(I)
    fs.install(I)
    fs.moves = []
    names(I)
    install_join(I)
    I.externals['shutil.move'] = Builtin('move', lambda I, a, k: fs.move(*a))
    I.externals['os.path.basename'] = Builtin('basename', lambda I, a, k: basename(a[0]))
    I.externals['os.path.getctime'] = Builtin('getctime', lambda I, a, k: fs.need(a[0])['mtime'])
    STAMP = z3.Function('timestamp', R, NAME)
    I.externals['datetime.datetime.fromtimestamp'] = Builtin('fromtimestamp', lambda I, a, k: Record('date', dict(strftime=Builtin('strftime', lambda I, x, y: stamp(a[0], x[0])))))
    I.externals['logging.Formatter'] = Builtin('Formatter', lambda I, a, k: Record('formatter', dict(fmt=(list(a) + [k.get('fmt')])[0])))

    def stamp(t, f):
        I.prove('backups of different times have different names', z3.BoolVal(isinstance(f, str) and (any(w in f for w in ('%s', '%c')) or ('%S' in f and '%M' in f and '%H' in f or '%T' in f or '%X' in f)
                                                                              and (('%d' in f and '%m' in f or '%j' in f) and ('%Y' in f or '%y' in f) or '%F' in f or '%x' in f or '%D' in f))))
        return STAMP(t)
    files = []

    def fileh(I, a, k):
        a = list(a)
        p = a[0] if a else k['filename']
        mode = a[1] if len(a) > 1 else k.get('mode', 'a')
        enc = a[2] if len(a) > 2 else k.get('encoding')
        I.prove('every message can be written, whatever the locale', z3.BoolVal(isinstance(enc, str) and enc.lower().replace('_', '-') in ('utf-8', 'utf8')))
        fs.pieces(p)
        fs.f(p).update(exists=z3.BoolVal(True), isfile=z3.BoolVal(True))
        if mode == 'w':
            fs.f(p)['pieces'][:] = []
        h = Handler(dict(mode=mode), path=p, fs=fs)
        h.content = fs.f(p)['pieces']
        files.append(h)
        I.roots = I.roots + [h]
        return h
    I.externals['logging.FileHandler'] = Builtin('FileHandler', fileh)
    lvl = I.repo(LOG, 'LogLevel')
    ms = list({id(m): m for m in lvl.members.values()}.values())
    level = ms[1]
    I.externals['sys.exit'] = Builtin('exit', lambda I, a, k: I.raise_('SystemExit', a[0] if a else None))
    a = Args(output_dir_base_path=N('base'), log_level='debug')
    fails = I.choose(3)       # 0: valid  1: fails with an output directory  2: fails before

    def log(what):
        for h in lg.handlers:
            if isinstance(h, Handler) and h.path is not None:
                I.prove('the log file is open', z3.BoolVal(h.open))
                I.prove('solver output and above are logged', z3.BoolVal(num(h.level) <= 12))
                h.content.append((what, h))

    def validate(I, args, kw):
        I.prove('the arguments given are validated', z3.BoolVal(args[-1] is a))
        I.prove('the console is kept', z3.BoolVal(any(h is con for h in lg.handlers)))
        log('validation')
        if fails != 2:
            a.d['output_dir_path'] = N('output_dir')
            fs.f(N('output_dir'))['exists'] = z3.BoolVal(True)
        if fails:
            I.raise_('ArgumentValidationError')
        a.d['log_level'] = level
    I.contracts[f'{MOD}:KpexCLI.validate_args'] = validate
    cli = I.instantiate(I.repo(MOD, 'KpexCLI'), [], {})
    try:
        I.call(I.getattr(cli, 'setup_logging'), [a])
        err = None
    except PyRaise as e:
        err = e.exc
    if fails:
        I.prove('a failed validation ends the run', z3.BoolVal(err is not None and 'SystemExit' in repr(err)))
        code = getattr(err, 'args', None)
        if isinstance(code, (list, tuple)) and code:
            I.prove('a failed validation is an error code', z3.BoolVal(code[0] not in (0, None, False)))
    else:
        I.prove('valid arguments are no error', z3.BoolVal(err is None))
        if err is None:
            I.prove('the log level asked for', z3.BoolVal(num(lg.level) == level.value))
    log('later')
    I.prove('the console is kept', z3.BoolVal(any(h is con for h in lg.handlers)))
    d = 'base' if fails == 2 else 'output_dir'
    for n, plain in (('kpex.log', False), ('kpex_plain.log', True)):
        p = f'<{d}>/{n}'
        if p not in fs.st:
            I.prove(f'{n} is in the output directory', z3.BoolVal(False))
            continue
        f = fs.st[p]
        I.prove(f'{n} is in the output directory', f['exists'])
        ps = f.get('pieces', [])
        own = [x for x in ps if x[0] != 'before']
        I.prove(f'{n} has every message once', z3.BoolVal([x[0] for x in own] == ['validation', 'later']))
        fm = [x[1].formatter for x in own]
        if plain:
            I.prove(f'{n} is plain', z3.BoolVal(all(x is None or x.fields['fmt'] in (None, '%(message)s') for x in fm)))
        else:
            I.prove(f'{n} shows time, level and message', z3.BoolVal(all(x is not None and all(w in str(x.fields['fmt']) for w in ('%(asctime)s', '%(levelname)s', '%(message)s')) for x in fm)))
        if fails != 2:
            was = z3.And(f['first']['exists'], z3.BoolVal(True))
            kept = any(('before', p) in g.get('pieces', []) and k != p for k, g in fs.st.items())
            I.prove('a log that was there is kept', z3.Or(z3.Not(was), z3.BoolVal(kept)))
            I.prove(f'no later copy of {n}', z3.Not(fs.f(StrCat([N('base'), '/' + n]))['exists']))


def basename(p):
    x = flat(p)
    if isinstance(x[-1], str) and '/' in x[-1]:
        return x[-1].rsplit('/', 1)[1]
    raise Undecided('basename')


# ---------------------------------------------------------------------------------------------- choices
def level_names(I):
    """KpexCLI.validate_args.  ensures: the name of every level, in any case, is that level"""
    lvl = I.repo(LOG, 'LogLevel')
    ns = list(lvl.members)
    n = ns[I.choose(len(ns))]
    I.ghost['level'] = ([n, n.lower(), n.title()][I.choose(3)], n)
    I.ghost['case'] = 'lvsdb'
    c33.validate(I, 'input')


def parser_of(I, mod, cls):
    names(I)
    env = Environ(I)
    I.externals['os.environ'] = env
    I.externals['os.getenv'] = Builtin('getenv', lambda I, a, k: env.m_get(I, *a, **k))
    I.externals['os.cpu_count'] = Builtin('cpu_count', lambda I, a, k: z3.Int('cpus'))
    I.externals['os.path.abspath'] = Builtin('abspath', lambda I, a, k: a[0])
    install_join(I)
    for n in ('rich.text.Text', 'rich.markdown.Markdown', 'rich.console.Group'):
        I.externals[n] = Builtin(n, lambda I, a, k: Record('rich text', {}))
    contract(I, 'klayout_pex.env:EnvVar.help_epilog_table', lambda I, v: 'help')


class Stop(Exception):
    pass


def text(I, x):
    x = flat(x)
    if not all(isinstance(p, str) for p in x):
        raise Undecided('help text')
    return ''.join(x)


def help_texts(I):
    """render_enum_help, as used by the options.  ensures: the help of an option with choices shows exactly the values it accepts, and its default"""
    parser_of(I, MOD, 'KpexCLI')
    got = []
    lst = ListVal(['a'])

    def done(opts, l):
        got.extend(opts)
        raise Stop()
    I.externals['argparse.ArgumentParser'] = Builtin('ArgumentParser', lambda I, a, k: Parser([], done))
    cli = I.repo(MOD, 'KpexCLI')
    e = I.call(I.getattr(I.repo('klayout_pex.env', 'Env'), 'from_os_environ'), [])
    try:
        I.call(I.getattr(cli, 'parse_args'), [lst, e])
    except Stop:
        pass
    n = 0
    for flags, k in got:
        t, h = k.get('type'), k.get('help')
        level = dest_of(flags, k) == 'log_level'
        if not (isinstance(t, ClassVal) and t.is_enum or level):
            continue
        n += 1
        h = text(I, h)
        if level:
            accepted = [x.lower() for x in I.repo(LOG, 'LogLevel').members if x != 'DEFAULT']
            default = k.get('default')
        else:
            accepted = [m.value for m in {id(m): m for m in t.members.values()}.values()]
            d = k.get('default')
            default = d.value if isinstance(d, EnumMember) else d
            ch = k.get('choices')
            ch = [m.value if isinstance(m, EnumMember) else m for m in I.iterate(ch)] if ch is not None else None
            I.prove(f'{flags[0]}: every choice is accepted', z3.BoolVal(ch is None or sorted(map(str, ch)) == sorted(map(str, accepted))))
        b, e = h.find('{'), h.find('}')
        shown = [x.strip().strip("'\"") for x in h[b + 1:e].split(',')] if 0 <= b < e else []
        I.prove(f'{flags[0]}: the choices shown are those accepted', z3.BoolVal(sorted(shown) == sorted(map(str, accepted))))
        if default is not None and not k.get('required'):
            I.prove(f'{flags[0]}: the default shown is the default', z3.BoolVal(h[e + 1:].strip().lower().replace("'", '').endswith(f'defaults to {default}'.lower())))
    I.prove('options with choices', z3.BoolVal(n >= 6))


def netlist_level(I):
    """NetlistCLI.  ensures: the name of every level, in any case, sets that level; other names are an error"""
    lg = logger(I)
    NMOD = 'klayout_pex.netlist.netlist_cli'
    parser_of(I, NMOD, 'NetlistCLI')
    for n in ('print', 'rich.print'):
        I.externals[n] = Builtin(n, lambda I, a, k: None)
    lvl = I.repo(LOG, 'LogLevel')
    ns = list(lvl.members) + ['bogus', None]
    n = ns[I.choose(len(ns))]
    txt = n if n in ('bogus', None) else [n, n.lower(), n.title()][I.choose(3)]
    I.externals['os.path.isfile'] = Builtin('isfile', lambda I, a, k: True)

    def done(opts, l):
        a = Args(command='svg', netlistsvg_exe_path=N('exe'))
        for flags, k in opts:
            if dest_of(flags, k) != 'log_level':
                continue
            v = k.get('default') if txt is None else txt
            t = k.get('type')
            if t is not None and isinstance(v, str):
                try:
                    v = I.call(t, [v])
                except PyRaise:
                    I.raise_('SystemExit', 2)
            ch = k.get('choices')
            if ch is not None and txt is not None:
                if not any(I.eq(v, c) is True for c in I.iterate(ch)):
                    I.raise_('SystemExit', 2)
            a.d['log_level'] = v
        return a

    class Subs(Parser):
        def m_add_subparsers(self, I, **k): return Subs([], done)
        def m_add_parser(self, I, *a, **k): return Subs([], done)
    I.externals['argparse.ArgumentParser'] = Builtin('ArgumentParser', lambda I, a, k: Subs([], done))
    cli = I.instantiate(I.repo(NMOD, 'NetlistCLI'), [], {})
    try:
        a = I.call(I.getattr(cli, 'parse_args'), [ListVal(['x'])])
        I.call(I.getattr(cli, 'setup_logging'), [a])
        err = None
    except PyRaise as e:
        err = e.exc
    if n == 'bogus':
        I.prove('another name is an error', z3.BoolVal(err is not None))
        return
    I.prove(f'the name of a level is accepted', z3.BoolVal(err is None))
    if err is None:
        I.prove('the level of the name', z3.BoolVal(num(lg.level) == (12 if n is None else lvl.members[n].value)))


HARNESSES = [('functions', functions), ('levels', levels), ('configure_logger', configure), ('filter', filters), ('setup_logging', setup_logging), ('level names', level_names), ('help', help_texts),
             ('netlist log level', netlist_level)]

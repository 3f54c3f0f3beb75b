"""messages: levels, console, log files, choices of options"""
import contextlib, io, os, re, shutil, string, sys, tempfile
RULE = ('random messages (with brackets, quotes, percent signs) of every level under every log level: console text, colours and place of the caller; set-up of the log files by kpex with valid and invalid arguments, '
        'earlier logs there or not, a history of three runs; level names in any case, for kpex and the netlist tool; help texts of random enumerations; non-trivial: something is logged or shown')
N = 400
LEV = dict(ALL=1, DEBUG=10, SUBPROCESS=12, VERBOSE=15, INFO=20, WARNING=30, ERROR=40, CRITICAL=50, DEFAULT=12)
FN = dict(debug=10, subproc=12, info=20, warning=30, error=40)
WORDS = ['net', 'a[x]', 'b[0]', '[red]', '[/tmp/a]', '[/]', '50%', "it's", 'R1', '[bold', 'x]', '\\', '[a=1]', 'VDD', '%s', '{x}', '[link]']


def case_of(rng, n):
    f = rng.choice([str.lower, str.upper, str.title, lambda s: ''.join(rng.choice([c.lower(), c.upper()]) for c in s)])
    return f(n)


def cases(rng, n):
    yield dict(k='history')
    for i in range(n):
        k = rng.choice(['log'] * 5 + ['files', 'files', 'netlist', 'help', 'help'])
        if k == 'log':
            ms = [(rng.choice(list(FN)), ' '.join(rng.choice(WORDS) for _ in range(rng.randrange(1, 5)))) for _ in range(rng.randrange(1, 5))]
            yield dict(k=k, level=rng.choice(list(LEV)), ms=[(f, f'm{j}. {m} .{j}m') for j, (f, m) in enumerate(ms)])
        elif k == 'files':
            nm = rng.choice(list(LEV))
            yield dict(k=k, level=case_of(rng, nm) if rng.random() < .8 else 'bogus', what=rng.choice(['ok', 'ok', 'no file', 'no cell']), old=rng.choice([0, 1, 2, 3]), want=nm,
                       locale=rng.choice([None, None, 'latin-1', 'ascii']))
        elif k == 'netlist':
            nm = rng.choice(list(LEV) + ['bogus', None])
            yield dict(k=k, level=nm and case_of(rng, nm), want=nm)
        else:
            ns = rng.sample(['ONE', 'Two', 'three', 'FOUR_5', 'MixedCase'], rng.randrange(1, 5))
            strs = rng.random() < .6
            vals = {x: (rng.choice([x, x.lower(), x.upper()]) if strs else j * 3) for j, x in enumerate(ns)}
            if strs and len(set(v.lower() for v in vals.values())) < len(vals):
                continue
            yield dict(k=k, strs=strs, vals=vals, default=rng.choice(ns + [None]), lower=rng.random() < .4, show=rng.random() < .7)


def trivial(c): return False


def plain(s): return re.sub(r'\x1b\[[0-9;]*m|\x1b\][^\x1b]*\x1b\\', '', s)


def say(log, f, m, far): helper(log, f, m) if far else getattr(log, f)(m)


def helper(log, f, m): getattr(log, f)(m, stacklevel=3)


@contextlib.contextmanager
def console():
    """the console as a text (wide, with colours)"""
    from klayout_pex.log import logger
    import rich.console
    c = logger.console
    was = c._file, c._width, c._force_terminal, c._color_system
    c._file, c._width, c._force_terminal, c._color_system = io.StringIO(), 4000, True, rich.console.ColorSystem.STANDARD
    lvl = logger.get_log_level()
    try:
        yield c._file
    finally:
        c._file, c._width, c._force_terminal, c._color_system = was
        logger.set_log_level(lvl)


def log_case(c):
    import logging
    from klayout_pex import log
    recs = []

    class H(logging.Handler):
        def emit(self, r): recs.append(r)
    h = H()
    with console() as out:
        log.set_log_level(log.LogLevel[c['level']])
        if log.get_log_level() != log.LogLevel[c['level']]:
            return f'log level {c["level"]}: get_log_level gives {log.get_log_level()!r}'
        log.register_additional_handler(h)
        for j, (f, m) in enumerate(c['ms']):
            say(log, f, m, j % 2)
        log.deregister_additional_handler(h)
        log.error('the end')
        txt = out.getvalue()
    want = [(FN[f], m) for f, m in c['ms'] if FN[f] >= LEV[c['level']]]
    got = [(r.levelno, r.getMessage()) for r in recs]
    if got != want:
        return f'level {c["level"]}: {c["ms"]} gives the records {got}'
    for r in recs:
        if r.funcName != 'say':
            return f'the place of a message is {r.filename}:{r.funcName}, not that of the caller'
    for f, m in c['ms']:
        n = plain(txt).count(m)
        if n != (FN[f] >= LEV[c['level']]):
            return f'level {c["level"]}: the console shows {f}({m!r}) {n} times: {plain(txt)[:300]!r}'
        if n and f in ('warning', 'error'):
            line = [l for l in txt.split('\n') if m in plain(l)][0]
            col = {'warning': '33', 'error': '31'}[f]
            if not re.search(rf'\x1b\[(?:\d+;)*{col}m[^\x1b]*{re.escape(m[:3])}', line) and f'\x1b[{col}m' not in line and f';{col}m' not in line:
                return f'{f}({m!r}) is shown without its colour: {line!r}'


def files_case(c):
    import klayout.db as kdb
    from klayout_pex import log
    from klayout_pex.kpex_cli import KpexCLI
    from klayout_pex.env import Env
    from klayout_pex.log import logger
    import logging
    d = tempfile.mkdtemp(prefix='c27')
    lg = logging.getLogger('__kpex__')
    before = list(lg.handlers)
    import builtins
    opn = builtins.open
    try:
        if c.get('locale'):         # a locale of another encoding
            builtins.open = lambda f, mode='r', buffering=-1, encoding=None, *a, **k: opn(
                f, mode, buffering, encoding if 'b' in mode or encoding not in (None, 'locale') else c['locale'], *a, **k)
        ly = kdb.Layout()
        ly.create_cell('TOP')
        gds, base = f'{d}/lay.gds', f'{d}/out'
        ly.write(gds)
        os.makedirs(base)
        run = f'{base}/lay__TOP'
        old = {}
        if c['old']:
            os.makedirs(run)
            for i, n in enumerate(('kpex.log', 'kpex_plain.log')):
                if c['old'] >> i & 1:
                    old[n] = f'earlier run {i}\n'
                    open(f'{run}/{n}', 'w').write(old[n])
        argv = ['--pdk', 'sky130A', '--gds', gds if c['what'] != 'no file' else f'{d}/none.gds', '--2.5D', '--out_dir', base, '--log_level', c['level']]
        if c['what'] == 'no cell':
            argv += ['--cell', 'NOCELL']
        cli = KpexCLI()
        real = KpexCLI.validate_args

        def validate(args):
            log.error('first [x] message')
            r = real(args)
            log.error('second message µΩ')
            return r
        with console(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            log.set_log_level(log.LogLevel.SUBPROCESS)
            try:
                args = cli.parse_args(argv, Env.from_os_environ())
            except SystemExit as e:
                return f'{argv}: not parsed'
            args.klayout_exe_path = '/bin/true'
            import types
            open(f'{d}/tech', 'w').close()
            args.pdk = types.SimpleNamespace(config=types.SimpleNamespace(tech_pb_json_path=f'{d}/tech', pex_lvs_script_path=f'{d}/tech', name='sky130A'))
            KpexCLI.validate_args = staticmethod(validate)
            try:
                cli.setup_logging(args)
                code = None
            except SystemExit as e:
                code = e.code
            finally:
                KpexCLI.validate_args = staticmethod(real)
            level = log.get_log_level()
            log.error('a later message')
            bad = c['what'] != 'ok' or c['level'] == 'bogus'
            if (code is not None) != bad or bad and not code:
                return f'{argv}: exit code {code!r}'
            if not bad and level != log.LogLevel[c['want']]:
                return f'--log_level {c["level"]} sets level {level!r}'
        ds = [base, run] + sorted({r for r, _, fs in os.walk(base)} - {base, run})
        has = lambda x: all(os.path.isfile(f'{x}/{n}') and 'first [x] message' in open(f'{x}/{n}', encoding='utf-8').read() for n in ('kpex.log', 'kpex_plain.log'))
        w = next((x for x in ds if has(x) and (c['what'] != 'ok' or x != base)), None)
        if w is None:
            return f'{argv}: no log with all messages in the output directory'
        if w != run:
            old = {}
        for n in ('kpex.log', 'kpex_plain.log'):
            t = open(f'{w}/{n}', encoding='utf-8').read()
            for m in ['first [x] message'] + (['a later message'] if bad or c['want'] != 'CRITICAL' else []) + (['second message µΩ'] if not bad else []):
                if t.count(m) != 1:
                    return f'{argv}: {n} has {m!r} {t.count(m)} times'
            if n == 'kpex.log' and not re.search(r'ERROR.*first \[x\] message', t):
                return f'{argv}: kpex.log does not show the level of a message: {t[:200]!r}'
            if n == 'kpex_plain.log' and 'first [x] message' not in t.split('\n'):
                return f'{argv}: kpex_plain.log has more than the message: {t[:200]!r}'
            if n in old and not any(open(f'{w}/{f}', encoding='utf-8').read() == old[n] for f in os.listdir(w) if os.path.isfile(f'{w}/{f}') and f != n):
                return f'{argv}: the earlier {n} is lost'
            if c['what'] == 'ok' and os.path.exists(f'{base}/{n}'):
                return f'{argv}: {n} is left in {base}'
    finally:
        builtins.open = opn
        for h in list(lg.handlers):
            if h not in before:
                lg.removeHandler(h)
                h.close()
        shutil.rmtree(d)


def history_case(c):
    """three runs, more than a second apart: all three logs are there"""
    import argparse, logging, time
    from klayout_pex import log
    from klayout_pex.kpex_cli import KpexCLI
    d = tempfile.mkdtemp(prefix='c27')
    lg = logging.getLogger('__kpex__')
    before = list(lg.handlers)
    real = KpexCLI.validate_args
    try:
        cli = KpexCLI()

        def validate(args):
            args.output_dir_path, args.log_level = f'{d}/run', log.LogLevel.INFO
            os.makedirs(args.output_dir_path, exist_ok=True)
        KpexCLI.validate_args = staticmethod(validate)
        with console():
            for i in range(3):
                cli.setup_logging(argparse.Namespace(output_dir_base_path=d, log_level='info'))
                log.error(f'message of run {i}')
                for h in list(lg.handlers):
                    if h not in before:
                        lg.removeHandler(h)
                        h.close()
                if i < 2:
                    time.sleep(1.2)
        all_ = [open(f'{d}/run/{f}').read() for f in os.listdir(f'{d}/run')]
        for i in range(3):
            k = sum(f'message of run {i}' in t for t in all_)
            if k != 2:
                return f'three runs into one directory: the log of run {i} is there {k} times, not twice (plain and formatted)'
        for n in ('kpex.log', 'kpex_plain.log'):
            if 'message of run 2' not in open(f'{d}/run/{n}').read():
                return f'{n} is not that of the last run'
    finally:
        KpexCLI.validate_args = staticmethod(real)
        for h in list(lg.handlers):
            if h not in before:
                lg.removeHandler(h)
                h.close()
        shutil.rmtree(d)


def netlist_case(c):
    from klayout_pex import log
    from klayout_pex.netlist.netlist_cli import NetlistCLI
    cli = NetlistCLI()
    argv = (['--log_level', c['level']] if c['level'] else []) + ['svg', 'a.spice', '--exe', '/bin/true']
    with console(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        log.set_log_level(log.LogLevel.SUBPROCESS)
        try:
            cli.setup_logging(cli.parse_args(argv))
            err, lv = None, log.get_log_level()
        except (SystemExit, Exception) as e:
            err, lv = e, None
    if c['want'] == 'bogus':
        return None if err is not None else f'{argv} is accepted'
    if err is not None:
        return f'{argv}: {type(err).__name__}: {err}'
    if lv != log.LogLevel[c['want'] or 'DEFAULT']:
        return f'{argv} sets the level {lv!r}'


def help_case(c):
    import enum
    from klayout_pex.util.argparse_helpers import render_enum_help
    ms = dict(c['vals'])
    if c['default']:
        ms['DEFAULT'] = ms[c['default']]
    cls = (enum.StrEnum if c['strs'] else enum.IntEnum)('E', list(ms.items()))
    h = render_enum_help(topic='topic', enum_cls=cls, print_default=c['show'], lowercase_strenum=c['lower'])
    name = lambda n: (c['vals'][n].lower() if c['lower'] else c['vals'][n]) if c['strs'] else n.lower()
    m = re.fullmatch(r"(.*?)\{(.*?)\}(.*)", h, re.S)
    if not m or 'topic' not in m.group(1):
        return f'help {h!r}'
    shown = [x.strip().strip("'") for x in m.group(2).split(',')]
    if sorted(shown) != sorted(name(n) for n in c['vals']):
        return f'help of {ms} shows {h!r}'
    want = name(c['default']) if c['default'] and c['show'] else None
    d = re.search(r"[Dd]efaults to '?(.*?)'?$", m.group(3).strip())
    if (d.group(1) if d else None) != want:
        return f'help of {ms} (default {c["default"]}) shows {h!r}'


def check(c):
    return dict(log=log_case, files=files_case, netlist=netlist_case, history=history_case, help=help_case)[c['k']](c)

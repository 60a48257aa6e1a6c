"""
One process of C22: converts a batch of generated inputs in some interpreter mode and
writes what came out. Run as: python [options] child.py SEED IDX N SETTING OUT
"""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WATCH = False
EVENTS = []
FORBIDDEN = ('os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.putenv', 'os.unsetenv', 'os.system', 'os.chdir', 'os.fork',
             'os.exec', 'os.posix_spawn', 'os.spawn', 'os.kill', 'os.chmod', 'os.chown', 'os.link', 'os.symlink', 'os.truncate', 'os.utime',
             'subprocess.Popen', 'socket.', 'shutil.', 'ctypes.', 'sqlite3.', 'tempfile.', 'urllib.', 'http.', 'smtplib.', 'ftplib.',
             'time.sleep', 'builtins.input', 'webbrowser.', 'pty.', 'syslog.', 'signal.', 'resource.', 'fcntl.', 'mmap.')
LONG = ['\n', ' ', '\t', '\r\n', '-- note\n', '/* note */\n', '# note\n', "'', ", '%%', '::', 'x, ', '"a".', '(', '$$ ', 'caf\xe9\n']
WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_APPEND | os.O_TRUNC


def audit(event, args):
    if not WATCH:
        return
    if event == 'open':
        mode, flags = args[1], args[2]
        if (isinstance(mode, str) and set(mode) & set('wax+')) or (isinstance(flags, int) and flags & WRITE):
            EVENTS.append('open %r %r' % (args[0], mode))
    elif event.startswith(FORBIDDEN):
        EVENTS.append(event)


def state():
    """What a conversion has no business to change."""
    import atexit
    import builtins
    import codecs
    import decimal
    import gc
    import locale
    import logging
    import random
    import re
    import signal
    import threading
    import warnings
    return {
        'random generator': hash(random.getstate()),
        'environment': sorted(os.environ.items()),
        'working directory': os.getcwd(),
        'locale': locale.setlocale(locale.LC_ALL),
        'recursion limit': sys.getrecursionlimit(),
        'switch interval': sys.getswitchinterval(),
        'threads': threading.active_count(),
        'gc': (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        'warning filters': list(map(repr, warnings.filters)),
        'decimal context': repr(decimal.getcontext()),
        'builtins': sorted((k, id(v)) for k, v in vars(builtins).items() if k != '_'),
        're': sorted((k, id(v)) for k, v in vars(re).items() if callable(v)),
        'open files': sorted(os.listdir('/proc/self/fd')),
        'umask': _umask(),
        'hooks': (id(sys.excepthook), id(sys.displayhook), id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        'signal handlers': [repr(signal.getsignal(s)) for s in (2, 15, 10, 14)],
        'integer digits': sys.get_int_max_str_digits(),
        'exit functions': atexit._ncallbacks(),
        'import system': (list(sys.path), list(map(repr, sys.meta_path)), list(map(repr, sys.path_hooks))),
        'tracing': (repr(sys.gettrace()), repr(sys.getprofile()), threading.gettrace(), threading.getprofile()),
        'logging': (logging.root.level, list(map(repr, logging.root.handlers)), logging.root.manager.disable, logging.raiseExceptions),
        'encoding errors': [id(codecs.lookup_error(x)) for x in ('strict', 'replace', 'ignore')],
    }


def watch(on):
    global WATCH
    WATCH = on


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def batch(seed, idx, n):
    """The calls: (label of the input, function to make it)."""
    import random
    from mon import gen, ref
    from mon.lib import SQLParams, Skip, call
    from mon.props import c13
    rng = random.Random('%d:C22:batch:%d' % (seed, idx))
    gen._uid = 0
    gen.BYTES_KEYS = False
    while n:
        cfg = gen.gen_cfg(rng)
        try:
            c = gen.gen_case(rng, cfg, clean=0.4)
        except Skip:
            continue
        n -= 1
        gen.gen_shapes(rng, c, 0.3)
        keys = gen.oracle_keys(rng, c.refs) if cfg.in_style == 'named_oracle' else None
        logical = gen.gen_values(rng, c, 0.5)
        sql = c.sql
        if rng.random() < 0.08:
            # A long text around the query.
            filler = rng.choice(LONG)
            k = rng.choice([200, 350, 600])
            sql = rng.choice(['%s%s', '%s\n%s'] if rng.random() < 0.5 else ['%s\n%s\n'])  % (
                (filler * k, sql) if rng.random() < 0.6 else (sql, filler * k))
        if rng.random() < 0.15:
            try:
                sql = sql.encode('latin1')
            except UnicodeEncodeError:
                pass
        k = rng.random()
        if k < 0.12 and c.refs:
            _, p = c13.make_missing(rng, cfg, c, logical, keys, bytes_keys=False)
            kind = 'missing'
        elif k < 0.2:
            p = c13.wrong_containers(rng, cfg, c, logical)
            kind = 'wrong %s' % type(p).__name__
        else:
            p = gen.container(rng, cfg, logical, keys=keys)
            kind = 'sound'
        if rng.random() < 0.05:
            sql = rng.choice([None, 1, 2.5])
            kind += ', no query'
        many = rng.random() < 0.35
        if many:
            rows = [gen.container(rng, cfg, gen.gen_values(rng, c, 0.3), keys=keys) for _ in range(rng.randint(0, 3))]
            rows.insert(rng.randint(0, len(rows)), p)
            if kind == 'sound' and rng.random() < 0.1 and c.refs:
                # Misfitting sizes and kinds.
                gen.gen_shapes(rng, c, 0.6)
                rows.append(gen.container(rng, cfg, gen.gen_values(rng, c, 0.3), keys=keys))
                kind = 'misfit'
            if rng.random() < 0.04:
                rows = rng.choice([None, 5, 'abc', []])
                kind = 'bad batch'
            p = rows
        style = cfg.in_style
        if rng.random() < 0.03:
            style = rng.choice(['nosuch', None, 3, style.upper()])
            kind = 'bad style'

        def go(cfg=cfg, style=style, sql=sql, p=p, many=many):
            def convert():
                x = cfg.make() if style == cfg.in_style else SQLParams(style, cfg.out_style)
                r = (x.formatmany if many else x.format)(sql, p)
                return r, (x.in_style, x.out_style, x.escape_char, x.expand_tuples, x.strip_comments, repr(x))
            return call(convert)
        yield kind, ascii((repr(cfg), sql)), go


def random_day(idx):
    return [0.0, 1.0, 9e8, 1.7e9, 2.2e9, 3.3e9, 1.6e9 + idx % 10 ** 9][idx % 7]


def show(x):
    if x is None or type(x) in (str, bytes, int, bool, float):
        return ascii(x)
    if type(x) in (tuple, list):
        return '%s(%s)' % (type(x).__name__, ', '.join(map(show, x)))
    if type(x) is dict:
        return '{%s}' % ', '.join('%s: %s' % (show(k), show(v)) for k, v in x.items())
    # Other objects may have their address in their text.
    return '<%s %s>' % (type(x).__name__, getattr(x, 'uid', ''))


def render(out):
    if out[0] != 'ok':
        return 'error ' + type(out[1]).__name__
    return show(out[1])


def main(argv):
    global WATCH
    seed, idx, n, setting, path = int(argv[0]), int(argv[1]), int(argv[2]), argv[3], argv[4]
    sys.addaudithook(audit)
    first = state()
    # The import of the library is part of the experiment.
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    from mon import lib  # noqa: F401
    second = state()
    changed = ['import: ' + k for k in first if first[k] != second[k] and k != 'import system']
    todo = list(batch(seed, idx, n))
    lines = []

    def work():
        for kind, label, go in todo:
            lines.append((kind, label, render(go())))

    if setting == 'clock':
        # As if it were another day.
        import time
        day = random_day(idx)
        for name in ('time', 'monotonic', 'perf_counter', 'process_time'):
            setattr(time, name, lambda: day)
        for name in ('time_ns', 'monotonic_ns', 'perf_counter_ns'):
            setattr(time, name, lambda: int(day * 10 ** 9))
        for name in ('localtime', 'gmtime'):
            setattr(time, name, lambda t=None, f=getattr(time, name): f(day if t is None else t))
    if setting == 'thread':
        import threading
        run = lambda: (lambda t: (t.start(), t.join()))(threading.Thread(target=work))  # noqa: E731
    elif setting == 'stack':
        def down(k):
            if k:
                return down(k - 1)
            return work()
        frame, d = sys._getframe(), 0
        while frame:
            frame, d = frame.f_back, d + 1
        run = lambda: down(sys.getrecursionlimit() - d - 260)  # noqa: E731
    elif setting == 'trace':
        def run():
            def tr(frame, event, arg):
                return tr
            sys.settrace(tr)
            try:
                work()
            finally:
                sys.settrace(None)
    elif setting == 'profile':
        def run():
            sys.setprofile(lambda *a: None)
            try:
                work()
            finally:
                sys.setprofile(None)
    elif setting == 'monitor':
        def run():
            m = sys.monitoring
            m.use_tool_id(m.DEBUGGER_ID, 'verif-child')
            for e in (m.events.LINE, m.events.PY_START, m.events.CALL, m.events.RAISE):
                m.register_callback(m.DEBUGGER_ID, e, lambda *a: None)
            m.set_events(m.DEBUGGER_ID, m.events.LINE | m.events.PY_START | m.events.CALL | m.events.RAISE)
            try:
                work()
            finally:
                m.set_events(m.DEBUGGER_ID, 0)
                m.free_tool_id(m.DEBUGGER_ID)
    elif setting == 'interactive':
        import builtins
        sys.ps1, sys.ps2 = '>>> ', '... '
        builtins._ = None
        run = work
    elif setting == 'loop':
        import asyncio

        async def within():
            work()
        loop = asyncio.new_event_loop()
        loop.set_debug(False)
        run = lambda: loop.run_until_complete(within())  # noqa: E731
    elif setting == 'fork':
        def run():
            # Children of a process which has used the library.
            work()
            del lines[:]
            r, w = os.pipe()
            watch(False)
            pid = os.fork()
            watch(True)
            if pid == 0:
                try:
                    work()
                    text = repr(lines)
                except BaseException as e:
                    text = repr('the child ended by %r' % e)
                with os.fdopen(w, 'w', encoding='ascii') as f:
                    f.write(text)
                os._exit(0)
            os.close(w)
            with os.fdopen(r, encoding='ascii') as f:
                text = f.read()
            os.waitpid(pid, 0)
            import ast
            lines[:] = ast.literal_eval(text)
    elif setting == 'embedded':
        # As in a program which embeds Python.
        sys.argv = []
        import __main__
        for name in ('__file__', '__spec__', '__loader__'):
            if hasattr(__main__, name):
                setattr(__main__, name, None)
        run = work
    elif setting == 'nostdio':
        def run():
            keep = sys.stdin, sys.stdout, sys.stderr
            sys.stdin = sys.stdout = sys.stderr = None
            try:
                work()
            finally:
                sys.stdin, sys.stdout, sys.stderr = keep
    else:
        run = work
        if setting == 'gc':
            import gc
            gc.set_threshold(1)
        elif setting == 'tracemalloc':
            import tracemalloc
            tracemalloc.start()
        elif setting == 'random':
            import random
            random.seed(idx)
        elif setting == 'locale':
            import locale
            for name in ('tr_TR.UTF-8', 'de_DE.UTF-8', 'C.UTF-8', 'C'):
                try:
                    locale.setlocale(locale.LC_ALL, name)
                    break
                except locale.Error:
                    pass
        elif setting == 'decimal':
            import decimal
            decimal.getcontext().prec = 1
            decimal.getcontext().traps[decimal.Inexact] = True
        elif setting == 'unusual':
            # Nothing is as it is in a new process.
            import gc
            import logging
            import threading
            import warnings
            gc.disable()
            sys.setrecursionlimit(sys.getrecursionlimit() + 777)
            sys.setswitchinterval(0.0123)
            warnings.simplefilter('error')
            logging.disable(35)
            logging.root.setLevel(13)
            threading.stack_size(512 * 1024)
            sys.excepthook = lambda *a: None
    before = state()
    if setting in ('thread', 'nostdio'):
        before['gc'] = before['gc']
    WATCH = True
    try:
        run()
    finally:
        WATCH = False
    after = state()
    changed += [k for k in before if before[k] != after[k]]
    with open(path, 'w', encoding='ascii') as f:
        import json
        json.dump({'lines': lines, 'changed': changed, 'events': EVENTS}, f)


if __name__ == '__main__':
    main(sys.argv[1:])

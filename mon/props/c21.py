"""Large and hostile queries convert correctly, with work in proportion to their size."""
import gc
import os
import signal
import sys
import time

from .. import gen, judge, magic, ref
from ..lib import REPO, Skip, SQLParams, call

QUICK, THOROUGH = 3200, 120000
RULE = ('queries of up to thousands of parameters, tuples of thousands of elements, batches of thousands of sets, long names, and '
        'texts of tens of thousands of characters made of repeated hostile fragments; results are judged by the reference, the '
        'steps (lines and turns of loops) the library executes are counted at sizes n and 2n (at most 2.5 times as many), processor time is compared at n and 8n, and calls have a processor time limit; '
        'non-trivial: every case')
FLOORS = {'growth measured': 100, 'growth of time measured': 50, 'hostile texts': 100, 'unfinished beginnings': 3000, 'placeholders judged': 100000}
ASSUMPTIONS = ['growth is measured in executed lines of the package, at sizes where constants no longer matter; Oracle in-style '
               'look-ups scan the mapping by design and are exempt', 'the processor time limit is 20 s, about a hundred times '
               'what the calls take']
NO_COVERAGE = True
LIMIT = 20
MON = sys.monitoring
TOOL = MON.PROFILER_ID
PRE = os.path.join(REPO, 'sqlparams')
# Steps: lines, and the turns of loops within one line.
EVENTS = [MON.events.LINE, MON.events.JUMP, MON.events.BRANCH, MON.events.PY_YIELD]
ALL = 0
for _e in EVENTS:
    ALL |= _e
LINES = [0]


class TooLong(BaseException):
    pass


def setup(ctx):
    if MON.get_tool(TOOL) is None:
        MON.use_tool_id(TOOL, 'verif-count')

        def line(code, *at):
            if not code.co_filename.startswith(PRE):
                return MON.DISABLE
            LINES[0] += 1
        for e in EVENTS:
            MON.register_callback(TOOL, e, line)


def timed(fn, *a):
    """The call under a limit of processor time."""
    def stop(sig, frame):
        raise TooLong
    old = signal.signal(signal.SIGVTALRM, stop)
    signal.setitimer(signal.ITIMER_VIRTUAL, LIMIT)
    try:
        return call(fn, *a)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def counted(fn, *a):
    LINES[0] = 0
    MON.set_events(TOOL, ALL)
    try:
        r = timed(fn, *a)
    finally:
        MON.set_events(TOOL, 0)
    return r, LINES[0]


def too_long(out, case, what):
    if out[0] == 'exc' and isinstance(out[1], TooLong):
        judge.fail('no result after %d s of processor time: %s' % (LIMIT, what), case)


HOSTILE = [':', '::', ':"', ':"a', '%', '%%', '%(', '%(a', '%(a)', '%(a)s%', '?', '??', '$', '$a', '$1', '@', '@a', ':a', ':1', ':::a',
           '\\', '\\:', '!!', ' ', '\t', '\n', '\n ', '\n\t', '\r\n', '--', '-', '\n--', '\n--x', '/*', '*/', '\n/**/', '\n/* x */',
           '/**', '*', "'", '"', 'a', '_', '1', 'é', '\x00', '((', '{}', '\n--\n', ' --', '-- ', '\n /*', '%s%', '%(_', ':_', 'aA1_']


def build(kind, n, rng_state, cfg):
    """Query, logical values and shape of size n."""
    import random
    rng = random.Random(rng_state)
    s = cfg.in_style
    named = ref.kind(s) == 'named'

    def par(i):
        if s == 'format':
            return '%s'
        if s == 'qmark':
            return '?'
        if ref.kind(s) == 'numeric':
            return ref.SIG[s] + str(i + 1)
        if s == 'pyformat':
            return '%%(n%d)s' % i
        if s == 'named_oracle':
            return ':"n%d"' % i
        return ref.SIG[s] + 'n%d' % i

    def key(i):
        return 'n%d' % i if named else i + 1 if ref.kind(s) == 'numeric' else i

    if kind == 'distinct':
        order = list(range(n))
        if rng.random() < 0.5:
            rng.shuffle(order)
        return ' , '.join(map(par, order)), {key(i): None for i in range(n)}
    if kind == 'repeated':
        return ' , '.join(par(i % 3) for i in range(n)), {key(i): None for i in range(n if ref.kind(s) == 'ordinal' else 3)}
    if kind == 'tuple':
        return 'x IN %s AND y = %s' % (par(0), par(1)), {key(0): n, key(1): None}
    if kind == 'tuples':
        return ' , '.join(par(i) for i in range(n)), {key(i): 3 if i % 2 else None for i in range(n)}
    return 'a = %s AND b IN %s AND c = %s' % (par(0), par(1), par(2)), {key(0): None, key(1): 2, key(2): None}


def one(rng_state, kind, n, cfg, ctx, watch, many=False):
    sql, sizes = build(kind, n, rng_state, cfg)
    c = gen.analyse(cfg, sql)
    if c is None:
        raise Skip
    c.sizes = sizes
    conv = cfg.make()
    vals = lambda u: {r: gen.Val(u) if k is None else tuple(gen.Val((u, i)) for i in range(k)) for r, k in sizes.items()}

    def box(l):
        if cfg.in_style == 'named_oracle':
            return {'"%s"' % r: v for r, v in l.items()}
        if ref.kind(cfg.in_style) == 'named':
            return dict(l)
        return [l[r] for r in sorted(l)]
    if kind == 'rows':
        logicals = [vals(i) for i in range(n)]
        rows = [box(l) for l in logicals]
        out, lines = counted(conv.formatmany, sql, rows) if watch else (timed(conv.formatmany, sql, rows), 0)
    elif many:
        logicals = [vals(0), vals(1)]
        rows = [box(l) for l in logicals]
        out, lines = counted(conv.formatmany, sql, rows) if watch else (timed(conv.formatmany, sql, rows), 0)
    else:
        logicals = [vals(0)]
        rows = [box(logicals[0])]
        out, lines = counted(conv.format, sql, rows[0]) if watch else (timed(conv.format, sql, rows[0]), 0)
    ctx.calls += 1
    too_long(out, c, '%s %d' % (kind, n))
    got = judge.expect_ok(out, c, None)
    outs = got[1] if kind == 'rows' or many else [got[1]]
    if len(outs) != len(rows):
        judge.fail('%d sets became %d' % (len(rows), len(outs)), c)
    keys = None
    for i, (l, o) in enumerate(zip(logicals, outs)):
        items = judge.items_of(c, l)
        if keys is None:
            keys = judge.check_text(c, items, None, got)
        phs = [x for x in items if x[0] == 'ph']
        judge.container_type(c, o, None, got)
        judge.check_values(c, phs, keys, None, (got[0], o))
        judge.check_exact(c, phs, keys, None, (got[0], o))
        ctx.count('placeholders judged', len(phs))
    return lines


def case(rng, ctx):
    r = rng.random()
    if r < 0.4:
        hostile(rng, ctx)
        return opened(rng, ctx)
    if r < 0.5:
        return growth(rng, ctx)
    if r < 0.525:
        return same_rows(rng, ctx)
    cfg = gen.gen_cfg(rng, escape=rng.choice([None, True]), expand=rng.choice([True, True, None, False]), strip=rng.choice([None, True]))
    kind = rng.choice(['distinct', 'repeated', 'tuple', 'tuples', 'rows'])
    st = rng.random()
    if rng.random() < 0.3:
        n = rng.choice([1000, 1023, 1024, 1025, 2000, 3000, 4097])
        if rng.random() < 0.3:
            n = rng.choice(magic.BIG or [70000]) if rng.random() < 0.3 else rng.choice([33000, 66000, 70000, 100001])
            ctx.count('conversions of over 30000')
        if cfg.in_style == 'named_oracle' and kind in ('distinct', 'tuples'):
            n = min(n, 400)
        one(st, kind, n, cfg, ctx, False, rng.random() < 0.5)
        ctx.count('large conversions')
    else:
        n = rng.randint(150, 400)
        many = rng.random() < 0.3
        a = one(st, kind, n, cfg, ctx, True, many)
        b = one(st, kind, 2 * n, cfg, ctx, True, many)
        d = one(st, kind, 4 * n, cfg, ctx, True, many) if n < 250 else None
        if not (cfg.in_style == 'named_oracle' and kind in ('distinct', 'tuples')):
            for x, y in ((a, b), (b, d)):
                if x and y and y > 2.5 * x + 200:
                    judge.fail('twice the size takes %d lines instead of %d (%s of %d)' % (y, x, kind, n), cfg=cfg,
                               sql=build(kind, 3, st, cfg)[0])
            ctx.count('growth measured')
    ctx.seen('kinds', (kind, ref.kind(cfg.in_style), ref.kind(cfg.out_style)))
    ctx.nontrivial(hash((cfg.key(), kind, n)))
    ctx.sample('%s of %d by %r' % (kind, n, cfg))


def same_rows(rng, ctx):
    """One set of parameters, tens of thousands of times."""
    pick = lambda: rng.choice([s for k in [rng.choice(['named', 'numeric', 'ordinal'])] for s in ref.STYLES if ref.kind(s) == k])
    cfg = gen.Cfg(pick(), pick(), expand=rng.choice([True, None, False]))
    sql, sizes = build('rows', 0, rng.random(), cfg)
    c = Case_of(cfg, sql, sizes)
    n = rng.choice(magic.BIG or [70000]) if rng.random() < 0.3 else rng.choice([33000, 66000, 70000, 100001])
    row = {r: gen.Val(r) if k is None else tuple(gen.Val((r, i)) for i in range(k)) for r, k in sizes.items()}
    if cfg.in_style == 'named_oracle':
        row = {'"%s"' % r: v for r, v in row.items()}
    elif ref.kind(cfg.in_style) != 'named':
        row = [row[r] for r in sorted(row)]
    conv = cfg.make()
    ctx.calls += 2
    one = judge.expect_ok(timed(conv.format, sql, row), c, row)
    out = timed(conv.formatmany, sql, (row for _ in range(n)))
    too_long(out, c, 'rows %d' % n)
    got = judge.expect_ok(out, c, None)
    if got[0] != one[0] or len(got[1]) != n:
        judge.fail('%d sets became %d' % (n, len(got[1])), c, row, got[0], one=one)
    for i, o in enumerate(got[1]):
        if not judge.same_params(o, one[1]):
            judge.fail('set %d of %d is another than the first' % (i, n), c, row, o, one=one)
    ctx.count('sets of long batches', n)
    ctx.nontrivial(hash((cfg.key(), sql, n)))


def growth(rng, ctx):
    """Processor time at eight times the size. Catches what no step of Python shows."""
    cfg = gen.gen_cfg(rng, escape=rng.choice([None, True]), expand=rng.choice([True, True, None, False]), strip=rng.choice([None, True]))
    kind = rng.choice(['distinct', 'repeated', 'tuple', 'tuples', 'rows'])
    if cfg.in_style == 'named_oracle' and kind in ('distinct', 'tuples'):
        raise Skip
    st = rng.random()
    n = 8000 if kind == 'tuple' else rng.choice([2500, 3000, 6000])

    def best(k, tries):
        sql, sizes = build(kind, k, st, cfg)
        c = Case_of(cfg, sql, sizes)
        base = {r: (0 if s is None else (0,) * s) for r, s in sizes.items()}
        if cfg.in_style == 'named_oracle':
            base = {'"%s"' % r: v for r, v in base.items()}
        elif ref.kind(cfg.in_style) != 'named':
            base = [base[r] for r in sorted(base)]
        conv = cfg.make()
        fn, arg = (conv.formatmany, [base] * k) if kind == 'rows' else (conv.format, base)
        t = None
        for _ in range(tries):
            ctx.calls += 1
            gc.collect()
            gc.disable()
            try:
                a = time.thread_time()
                out = timed(fn, sql, arg)
                b = time.thread_time() - a
            finally:
                gc.enable()
            too_long(out, c, '%s %d' % (kind, k))
            judge.expect_ok(out, c, None)
            t = b if t is None else min(t, b)
        return t

    a = best(n, 3)
    b = best(8 * n, 1)
    if b > 24 * a + 0.4:
        a, b = best(n, 5), best(8 * n, 3)
        if b > 24 * a + 0.4:
            judge.fail('eight times the size takes %.2f s instead of %.3f s (%s of %d)' % (b, a, kind, n), cfg=cfg,
                       sql=build(kind, 3, st, cfg)[0])
    m = n
    while b > 10.5 * a + 0.05 and m < 4 * n and not (kind == 'rows' and ref.kind(cfg.out_style) == 'named' and m > n):
        # More than in proportion: at still larger sizes it would dominate.
        m *= 2
        ctx.count('growth of time measured at a larger size')
        a, b = best(m, 3), best(8 * m, 1)
        if b > 20 * a + 0.4:
            a, b = best(m, 5), best(8 * m, 3)
            if b > 20 * a + 0.4:
                judge.fail('eight times the size takes %.2f s instead of %.3f s (%s of %d)' % (b, a, kind, m), cfg=cfg,
                           sql=build(kind, 3, st, cfg)[0])
    ctx.count('growth of time measured')
    ctx.seen('kinds', (kind, ref.kind(cfg.in_style), ref.kind(cfg.out_style)))
    ctx.nontrivial(hash((cfg.key(), kind, n, 't')))


class Case_of:
    def __init__(self, cfg, sql, sizes):
        self.cfg, self.sql, self.sizes = cfg, sql, sizes


def opened(rng, ctx):
    """The begin of a parameter, comment or escape, and a long run of one character which never completes it."""
    for _ in range(12):
        cfg = gen.gen_cfg(rng, strip=rng.choice([None, True, ['#', ('/*', '*/')]]))
        sig = ref.SIG[cfg.in_style]
        begin = rng.choice([sig, sig + 'a', sig + '1', sig + '_', sig + '(', sig + '(a', sig + '"', sig + '"a', sig * 2, '\n--', '\n/*', '\n#', '\n', '\n ', ' ', cfg.esc or sig])
        unit = rng.choice(['a', '_', '1', 'é', ' ', '\t', '\n', '\r\n', '"', '(', ')', '-', '*', '/', sig, cfg.esc or '\\', 'a_', 'a1', ' \n', '\n\t', "'", 's', '%', '#'])
        end = rng.choice(['', '', '"', ')', ')s', 'é', ' ', '\n', '!', sig])
        n = rng.choice([1000, 3000])
        if rng.random() < 0.03:
            n = 30000
        if cfg.in_style in ref.NUMERIC and '1' in unit:
            # The interpreter's own limit of digits.
            n = 1000
        text = begin + unit * n + end
        c = gen.analyse(cfg, text)
        if c is None or (cfg.in_style in ref.NUMERIC and (0 in c.refs or max(c.refs, default=0) > 10 ** 6)):
            continue
        c.sizes = {r: None for r in c.refs}
        logical = {r: gen.Val(0) for r in c.refs}
        params = gen.container(rng, cfg, logical, plain=True, extras=False)
        ctx.calls += 1
        conv = cfg.make()
        a = time.thread_time()
        out = timed(conv.format, text, params)
        a = time.thread_time() - a
        too_long(out, c, '%r and %d times %r' % (begin, n, unit))
        judge.full(c, logical, None, out)
        if a > 0.25 and len(text) < 100000:
            # Usually it is a hundredth of this. What does half of it take?
            half = begin + unit * (n // 2) + end
            d = gen.analyse(cfg, half)
            if d is not None and set(d.refs) <= set(c.refs):
                best = []
                for t in (half, text):
                    best.append(min(measure(conv, t, params) for _ in range(3)))
                if best[1] > 0.2 and best[1] > 3 * best[0]:
                    judge.fail('twice the size takes %.2f s instead of %.2f s: %r and %d times %r' % (best[1], best[0], begin, n, unit), c)
        ctx.count('unfinished beginnings')
        ctx.seen('unfinished beginnings and their runs', (cfg.in_style, begin, unit))


def measure(conv, text, params):
    gc.collect()
    gc.disable()
    try:
        a = time.thread_time()
        timed(conv.format, text, params)
        return time.thread_time() - a
    finally:
        gc.enable()


def hostile(rng, ctx):
    cfg = gen.gen_cfg(rng, strip=rng.choice([None, True, True, ['#', ('/*', '*/')]]))
    frs = [rng.choice(HOSTILE) for _ in range(rng.choice([1, 1, 2, 3]))]
    n = rng.choice([2000, 5000, 20000, 20000, 70000])
    unit = ''.join(frs)
    text = unit * (n // len(unit))
    if rng.random() < 0.5:
        text += rng.choice(['', ')', ' ', '\n', 'x', '"', '*/', 's'])
    if cfg.comments and '/*' in text:
        # Each unclosed comment is searched for its end to the end of the text.
        text = text[:6000]
    c = gen.analyse(cfg, text)
    if c is None or (cfg.in_style in ref.NUMERIC and (0 in c.refs or max(c.refs, default=0) > 10 ** 6)):
        raise Skip
    c.sizes = {r: None for r in c.refs}
    logical = {r: gen.Val(0) for r in c.refs}
    params = gen.container(rng, cfg, logical, plain=True, extras=False)
    ctx.calls += 1
    out = timed(cfg.make().format, text, params)
    too_long(out, c, 'repeated %r' % unit)
    judge.full(c, logical, None, out)
    ctx.count('hostile texts')
    ctx.count('placeholders judged', c.npar)
    ctx.seen('repeated fragments', unit)
    ctx.nontrivial(hash((cfg.key(), text)))

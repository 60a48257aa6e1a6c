"""A process which converts for ever does not grow."""
import gc
import sys
import threading
import tracemalloc
import weakref

from .. import gen, judge, ref
from ..lib import SQLParams, Skip, call

QUICK, THOROUGH = 1600, 40000
RULE = ('one kind of work (ever new queries, names, numbers, tuple sizes, values, batches, instances, comments, bytes, failing calls) repeated '
        'hundreds or thousands of times on one or many instances; memory traced after three windows of calls must not grow in each of them (if it does, measured again after thousands of calls, when caches are full), and dropped '
        'instances must be freed; non-trivial: every kind of work on a style pair')
FLOORS = {'windows of calls measured': 1200}
ASSUMPTIONS = ['caches of up to some thousand entries are no growth']
NO_COVERAGE = True

KINDS = ['queries', 'names', 'names of tuples', 'sizes', 'values', 'batches', 'instances', 'settings', 'bytes', 'comments', 'missing', 'misfit', 'wrong type', 'numbers', 'long batch', 'threads']
WARM, WINDOW = 5000, 800


def ph(cfg, name, number):
    k = ref.kind(cfg.in_style)
    return gen.param_text(None, cfg.in_style, None) if k == 'ordinal' else (
        ref.SIG[cfg.in_style] + str(number) if k == 'numeric' else '%%(%s)s' % name if cfg.in_style == 'pyformat' else ref.SIG[cfg.in_style] + name)




def case(rng, ctx):
    kind = KINDS[rng.randrange(len(KINDS))]
    if kind == 'settings' and rng.random() < 0.6:
        kind = 'missing'
    slow = kind == 'settings'   # regular expressions are compiled
    esc = rng.choice([None, None, True, '!'])
    cfg = gen.gen_cfg(rng, escape=esc, strip=True if kind == 'comments' else 'any', expand=True if kind in ('misfit', 'sizes', 'names of tuples') else 'any')
    k = ref.kind(cfg.in_style)
    conv = cfg.make()
    sig = ref.SIG[cfg.in_style]
    dead = []
    many = kind in ('batches', 'misfit', 'long batch') or rng.random() < 0.3

    def params(name, vals):
        if k == 'named':
            return {name: vals[0], 'B': vals[1]}
        return list(vals)

    def step(i):
        name, lit = 'A', "'x'"
        vals = ['v', i]
        use = conv
        if kind == 'queries':
            lit = "'%d'" % i
        elif kind == 'names':
            name = 'N%d' % i
        elif kind == 'names of tuples':
            name = 'N%d' % i
            vals = [('v', i), (i,)]
        elif kind == 'sizes':
            vals = [(1,) * (i % 1500), (2,) * (i % 7)] if i % 50 == 0 else ['v', (i,) * (i % 40)]
        elif kind == 'values':
            vals = ['value number %d' % i, [i, object()]]
        elif kind in ('instances', 'settings'):
            if kind == 'settings':
                use = SQLParams(cfg.in_style, cfg.out_style, escape_char='e%d' % i, strip_comments=['c%d' % i, ('a%d' % i, 'b%d' % i)])
            else:
                use = cfg.make()
            if i % 23 == 0:
                try:
                    dead.append(weakref.ref(use))
                except TypeError:
                    pass
        elif kind == 'comments':
            lit = '\n-- comment %d\n' % i
        p1 = gen.param_text(NO_RNG, cfg.in_style, [name]) if k == 'named' else ph(cfg, name, 1)
        p2 = gen.param_text(NO_RNG, cfg.in_style, ['B']) if k == 'named' else ph(cfg, 'B', 2)
        sql = 'SELECT %s FROM t WHERE a = %s AND b = %s' % (lit, p1, p2)
        p = params(name, vals)
        if kind == 'numbers' and k == 'numeric':
            sql = 'SELECT %s%d, %s%d' % (sig, i + 1, sig, i + 2)
            p = {i + 1: 1, str(i + 2): 2}
        if kind == 'missing':
            sql += " AND '%d'" % i
            p = {} if k == 'named' else []
        elif kind == 'wrong type':
            sql, p = rng.choice([(i, p), (sql, i + 5.0)])
        if kind == 'bytes':
            sql = ('%s %d' % (sql, i)).encode()
        if kind == 'threads':
            # Each call in a thread of its own.
            box = []
            t = threading.Thread(target=lambda: box.append(call(use.formatmany, sql, [p, p]) if many else call(use.format, sql, p)))
            t.start()
            t.join()
            return box[0]
        if many:
            rows = [p] if kind == 'wrong type' else [p, params(name, vals) if kind != 'numbers' else p]
            if kind == 'batches':
                rows = [params(name, ('x', i + j)) for j in range(i % 5 + 1)]
            elif kind == 'misfit':
                rows = [params(name, ((1, 2), i)), params(name, ((1,) * (i % 2), i))]
            elif kind == 'long batch':
                rows = (params(name, (i, j)) for j in range(400 if i % 100 == 0 else 3))
            return call(use.formatmany, sql, rows)
        return call(use.format, sql, p)

    want = 'exc' if kind in ('missing', 'misfit', 'wrong type') else 'ok'

    def measure(i, warm, window, first, factor=1):
        """Memory after each window, and the number of the next call."""
        out = None
        for _ in range(warm):
            out = step(i)
            i += 1
        # The work is what it is meant to be.
        if first and out[0] != want and kind != 'misfit':
            judge.fail('%s calls end as %r' % (kind, out[0]), cfg=cfg, got=out[1])
        del out
        gc.collect()
        tracemalloc.start(1)
        try:
            step(i)
            gc.collect()
            marks = [tracemalloc.get_traced_memory()[0]]
            blocks = [sys.getallocatedblocks()]
            rates, brates = [], []
            for k in range(3):
                n = window * factor ** k
                for _ in range(n):
                    step(i)
                    i += 1
                gc.collect()
                marks.append(tracemalloc.get_traced_memory()[0])
                blocks.append(sys.getallocatedblocks())
                rates.append((marks[-1] - marks[-2]) / n)
                brates.append((blocks[-1] - blocks[-2]) / n)
                ctx.count('windows of calls measured')
        finally:
            tracemalloc.stop()
        grown = [b - a for a, b in zip(marks, marks[1:])]
        gblocks = [b - a for a, b in zip(blocks, blocks[1:])]
        return i, grown, gblocks, min(rates) > 8 or min(brates) > 1 / 8

    i, grown, gblocks, suspect = measure(0, 260 if slow else 150, 50 if slow else 120, True)
    if suspect:
        # Is it a cache which fills up?
        ctx.count('measured again after a longer time')
        i, grown, gblocks, suspect = measure(i, 1700 if slow else WARM, 200 if slow else WINDOW, False)
        if suspect:
            # Or an accident of allocation? Growth goes on in proportion to the calls.
            i, grown, gblocks, suspect = measure(i, 0, 500 if slow else 2 * WINDOW, False, 2)
        if suspect:
            judge.fail('memory grows with every window of calls (%s): bytes %s, blocks %s' % (kind, grown, gblocks), cfg=cfg)
    ctx.calls += i
    ctx.seen('growth of a window in KiB', max(grown) // 1024)
    alive = [w() for w in dead[:-1]].count(None)
    if dead and alive < len(dead) - 1:
        judge.fail('%d of %d dropped instances are alive' % (len(dead) - 1 - alive, len(dead) - 1), cfg=cfg)
    ctx.count('dropped instances freed', alive)
    ctx.count('kind: ' + kind)
    ctx.seen('kinds of work on style pairs', (kind, cfg.in_style, cfg.out_style))
    ctx.nontrivial(hash((kind, cfg.key(), many)))
    ctx.sample('%s %r: growth %s bytes' % (kind, cfg, grown))


class _First:
    """A generator of one choice: the first, never an odd spelling."""

    def random(self):
        return 0.99

    def choice(self, x):
        return x[0]


NO_RNG = _First()

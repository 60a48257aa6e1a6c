"""Batches whose tuples do not fit the first set are rejected."""
from .. import gen, judge, magic, ref
from ..lib import Skip, SQLParams, call
from .c05 import count_rows, iterable

QUICK, THOROUGH = 400000, 7000000
RULE = ('batches whose first set expands a tuple, with one value of another size or kind (empty, shorter, longer, list, '
        'string, None, opaque) planted in one later set, and uniform control batches; the verdict of the call is compared; '
        'non-trivial: a planted misfit')
FLOORS = {'misfits refused with ValueError': 3000, 'misfits refused with TypeError': 2000, 'uniform batches accepted': 3000}


def probes(ctx):
    # "formatmany() dropped tuples when the first one was empty"
    for i in ref.STYLES:
        for o in ref.STYLES:
            sql = {'named': ':a', 'named_oracle': ':a', 'named_dollar': '$a', 'named_sqlserver': '@a', 'pyformat': '%(a)s',
                   'numeric': ':1', 'numeric_dollar': '$1', 'format': '%s', 'qmark': '?'}[i]
            rows = [{'a': v} if ref.kind(i) == 'named' else [v] for v in ((), ('x', 'y'))]
            ctx.calls += 1
            r = call(SQLParams(i, o, expand_tuples=True).formatmany, sql, rows)
            if r[0] == 'ok':
                judge.fail('a tuple which does not fit is accepted', cfg=(i, o), sql=sql, params=rows, got=r[1])


def case(rng, ctx):
    cfg = gen.gen_cfg(rng, expand=True)
    c = gen.gen_case(rng, cfg, clean=0.5)
    gen.gen_shapes(rng, c, 0.6)
    tup = [r for r in c.refs if c.sizes[r] is not None]
    if not tup:
        raise Skip
    n = min(count_rows(rng), 300) + 1
    very = rng.random() < 0.002
    if very:
        n = magic.long_count(rng)
    if n > 40:
        for r in tup:
            c.sizes[r] = min(c.sizes[r], 12)
        if c.npar > 10:
            raise Skip
    keys = gen.oracle_keys(rng, c.refs) if cfg.in_style == 'named_oracle' else None
    few = [gen.gen_values(rng, c, 0.2) for _ in range(4 if very else n)]
    logicals = [few[i % len(few)] for i in range(n)]
    plant = rng.random() < 0.75
    if plant:
        at = rng.choice([1, n - 1, rng.randrange(1, n)])
        r = rng.choice(tup)
        size = c.sizes[r]
        row = dict(logicals[at])
        if rng.random() < 0.55:
            new = rng.choice([s for s in (0, 1, size - 1, size + 1, size + 2, 2 * size, size + 10, 2)
                              if s >= 0 and s != size])
            row[r] = gen.make_tuple(rng, new, 77, 0.2)
            want = ValueError
        else:
            fill = [gen.Val(i) for i in range(size)]
            row[r] = rng.choice([fill, 'x' * size, b'x' * size, None, gen.Val(1), 0, set(range(size)),
                                 dict.fromkeys(range(size)), iter(fill), False, range(size)])
            want = TypeError
        logicals[at] = row
    if very:
        # The same sets again and again.
        few = [gen.container(rng, cfg, l, keys=keys, plain=True) for l in few]
        rows = [few[i % len(few)] for i in range(n)]
        if plant:
            rows[at] = gen.container(rng, cfg, logicals[at], keys=keys)
        ctx.count('batches of over a thousand sets')
    else:
        rows = [gen.container(rng, cfg, l, keys=keys) for l in logicals]
    ctx.calls += 1
    out = call(cfg.make().formatmany, c.sql, iterable(rng, rows))
    if not plant:
        got = judge.expect_ok(out, c, rows)
        if len(got[1]) != n:
            judge.fail('%d sets became %d' % (n, len(got[1])), c, rows, got)
        ctx.count('uniform batches accepted')
        return
    what = '%s of size %s in set %d where the first has a tuple of %d for %r' % (
        type(row[r]).__name__, len(row[r]) if hasattr(row[r], '__len__') else '-', at, size, r)
    if out[0] == 'ok':
        judge.fail('accepted: ' + what, c, rows, out[1])
    if not isinstance(out[1], want):
        judge.fail('%s instead of %s: %s' % (type(out[1]).__name__, want.__name__, what), c, rows, out[1])
    ctx.count('misfits refused with %s' % want.__name__)
    ctx.seen('style pairs', (cfg.in_style, cfg.out_style))
    ctx.seen('sizes', (size, len(row[r]) if isinstance(row[r], tuple) else type(row[r]).__name__))
    ctx.nontrivial(hash((gen.sig(c), n, at, str(r), what)))
    ctx.sample('%r: %s' % (c.sql, what))

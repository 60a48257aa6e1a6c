"""The converted parameters are exactly those the query references."""
from .. import gen, judge, magic, ref
from ..lib import Skip, call

QUICK, THOROUGH = 440000, 8000000
RULE = ('queries which repeat, skip and reorder their parameters, with unused extra parameters; the converted parameters '
        'must hold one entry per placeholder (ordinal), one entry per distinct parameter or element numbered in order of first '
        'appearance (numeric) or under distinct valid names which are those of the query (named); non-trivial: a parameter '
        'is repeated, skipped or unused')
FLOORS = {'repeated parameters': 10000, 'rows checked': 30000, 'references skipped': 3000}


def case(rng, ctx):
    cfg = gen.gen_cfg(rng, strip=None, escape=rng.choice([None, None, True]))
    names = gen.gen_numbers(rng) if cfg.in_style in ref.NUMERIC else gen.gen_names(rng)
    names = names[:rng.randint(1, 3)] if rng.random() < 0.5 else names
    c = None
    for _ in range(8):
        n = rng.choice([0, 1, 2, 3, 5, 8, 12, 25]) if rng.random() < 0.9 else rng.randint(26, 130)
        if n == 130 and rng.random() < 0.1:
            n = min(magic.long_count(rng), 10001)
            if cfg.in_style == 'named_oracle':
                n = 600
            ctx.count('very long queries')
        c = gen.analyse(cfg, gen.gen_sql(rng, cfg, names, nparams=n, clean=0.8, wild=0.02, adj=0.02))
        if c is not None and not (cfg.in_style in ref.NUMERIC and 0 in c.refs):
            break
        c = None
    if c is None:
        raise Skip
    gen.gen_shapes(rng, c, rng.choice([0.0, 0.3, 0.7]))
    if c.npar > 30:
        for r in c.refs:
            if c.sizes[r] is not None:
                c.sizes[r] = min(c.sizes[r], 12)
    elif gen.huge_tuple(rng, c):
        ctx.count('very long tuples')
    conv = cfg.make()
    keys0 = gen.oracle_keys(rng, c.refs) if cfg.in_style == 'named_oracle' else None
    many = rng.random() < 0.3
    logicals = [gen.gen_values(rng, c, 0.2) for _ in range(rng.randint(1, 4) if many else 1)]
    rows = [gen.container(rng, cfg, l, keys=keys0, extras=rng.random() < 0.5) for l in logicals]
    ctx.calls += 1
    if many:
        got = judge.expect_ok(call(conv.formatmany, c.sql, rows), c, rows)
        outs = got[1]
        if not isinstance(outs, list) or len(outs) != len(rows):
            judge.fail('%d sets became %r' % (len(rows), outs), c, rows, got)
    else:
        got = judge.expect_ok(call(conv.format, c.sql, rows[0]), c, rows[0])
        outs = [got[1]]
    if gen.has_tuple_collision(c, logicals[0]):
        return
    for l, row, out in zip(logicals, rows, outs):
        items = judge.items_of(c, l)
        one = (got[0], out)
        judge.container_type(c, out, row, one)
        keys, _ = ref.walk(items, cfg.out_style, got[0])
        if keys is None:
            # Literal text differs: C02's business. Count at least.
            if not ref.clean_for(cfg.out_style, items, cfg.in_style in ref.PERCENT):
                raise Skip
            try:
                keys = [x[1] for x in ref.read_out(cfg.out_style, got[0]) if x[0] == 'ph']
            except ref.Unreadable:
                raise Skip
        phs = [i for i in items if i[0] == 'ph']
        if len(keys) != len(phs):
            judge.fail('%d placeholders for %d values' % (len(keys), len(phs)), c, row, one)
        judge.check_exact(c, phs, keys, row, one)
        ctx.count('rows checked')
    if ref.kind(cfg.in_style) == 'ordinal':
        skipped = rep = 0
    else:
        rep = c.npar - len(c.refs)
        skipped = max(c.refs, default=0) - len(c.refs) if cfg.in_style in ref.NUMERIC else 0
    ctx.count('repeated parameters', rep)
    ctx.count('references skipped', skipped)
    ctx.seen('style pairs', (cfg.in_style, cfg.out_style))
    if rep or skipped or any(len(r) != len(c.refs) for r in rows):
        ctx.nontrivial(gen.sig(c))
    ctx.sample('%r -> %r' % (c.sql, got))

"""Every placeholder stays bound to its own value."""
from .. import gen, judge, ref
from ..lib import call

QUICK, THOROUGH = 720000, 12000000
RULE = ('random queries for all pairs of styles, scalars and tuples of unique opaque values; the converted query is '
        'read like a driver of the out-style (where its literal text leaves that determined) and along the expected '
        'text, and every placeholder is resolved in the converted parameters by identity; non-trivial: at least one parameter')
FLOORS = {'driver readings': 2000, 'placeholders resolved': 20000}


def probes(ctx):
    # The defect fixed by "the numeric parameter 0 was bound to the last parameter".
    from ..lib import SQLParams
    for o in ref.STYLES:
        r = call(SQLParams('numeric', o).format, "'12:00' :1", ['a', 'b'])
        ctx.calls += 1
        if r[0] == 'ok':
            judge.fail('number 0 is bound to a value', cfg=('numeric', o), sql="'12:00' :1", got=r[1])
    # K-NAME: a parameter called like an element of an expanded one.
    r = call(SQLParams('named', 'named', expand_tuples=True).format, ':n :n__0_sqlp', {'n': ('a',), 'n__0_sqlp': 'b'})
    bad = True
    if r[0] == 'ok':
        keys = [k[1] for k in ref.read_out('named', r[1][0]) if k[0] == 'ph']
        bad = [r[1][1].get(k) for k in keys] != ['a', 'b']
    judge.probe_known(ctx, 'K-NAME', bad, got=r[1])


def case(rng, ctx):
    cfg = gen.gen_cfg(rng)
    c = gen.gen_case(rng, cfg, collide=rng.random() < 0.01, clean=0.8)
    gen.gen_shapes(rng, c)
    if gen.huge_tuple(rng, c):
        ctx.count('very long tuples')
    logical = gen.gen_values(rng, c)
    params = gen.container(rng, cfg, logical)
    for values, row, out in judge.observe(rng, ctx, c, logical, params):
        got = judge.expect_ok(out, c, row)
        items = judge.items_of(c, values)
        phs = [i for i in items if i[0] == 'ph']
        if gen.has_tuple_collision(c, values) and ctx.is_known('K-NAME'):
            ctx.count('name collisions (known)')
            return
        keys, clean = judge.check_binding(c, items, row, got)
        ctx.seen('style pairs', (cfg.in_style, cfg.out_style))
        if clean:
            ctx.count('driver readings')
        if clean or keys is not None:
            ctx.count('placeholders resolved', len(phs))
        if keys is not None and ref.kind(cfg.in_style) == 'named' == ref.kind(cfg.out_style) and not cfg.quotes:
            for it, key in zip(phs, keys):
                if it[2][1] is None and key != it[2][0]:
                    judge.fail('parameter %r is renamed to %r' % (it[2][0], key), c, row, got)
                ctx.count('names kept')
    if phs:
        ctx.nontrivial(gen.sig(c))
    ctx.sample('%r  ->  %r' % (c.sql, got[0]))

"""Tuple expansion."""
from .. import gen, judge, ref
from ..lib import SQLParams, Violation, call

QUICK, THOROUGH = 520000, 9000000
RULE = ('queries whose parameters are mostly tuples (sizes 0 to 1025, subclasses, nested tuples) or look-alikes (lists, '
        'strings, sets), for each way to set expansion; the parenthesised lists in the query and the values in order are '
        'compared; non-trivial: at least one tuple')
FLOORS = {'tuples expanded': 5000, 'empty tuples expanded': 500, 'tuples passed whole': 1000, 'look-alikes passed whole': 300}


def probes(ctx):
    # "converting a query without parameters to a numeric style raised IndexError"
    for i in ref.STYLES:
        for o in ref.STYLES:
            for v in ((), ((),)):
                p = list(v)
                sql = 'x'
                if v:
                    sql = {'named': ':a', 'named_oracle': ':a', 'named_dollar': '$a', 'named_sqlserver': '@a', 'pyformat': '%(a)s',
                           'numeric': ':1', 'numeric_dollar': '$1', 'format': '%s', 'qmark': '?'}[i]
                if ref.kind(i) == 'named':
                    p = {'a': ()} if v else {}
                ctx.calls += 1
                r = call(SQLParams(i, o, expand_tuples=True).format, sql, p)
                want = ('(NULL)' if v else 'x', {} if ref.kind(o) == 'named' else [])
                if r[0] != 'ok' or r[1] != want:
                    judge.fail('empty expansion', cfg=(i, o), sql=sql, params=p, got=r[1], expected=want)


def case(rng, ctx):
    cfg = gen.gen_cfg(rng, escape=rng.choice([None, None, True]), strip=None)
    c = gen.gen_case(rng, cfg, clean=0.5)
    gen.gen_shapes(rng, c, rng.choice([0.5, 0.8, 1.0]))
    if gen.huge_tuple(rng, c):
        ctx.count('very long tuples')
    logical = gen.gen_values(rng, c, 0.3)
    for r in c.refs:
        if c.sizes[r] is None and rng.random() < 0.3:
            v = rng.choice([[gen.Val(1), gen.Val(2)], 'ab', b'ab', {1, 2}, frozenset([1]), {'a': 1}, range(3), iter(()), []])
            logical[r] = v
            ctx.count('look-alikes passed whole')
    params = gen.container(rng, cfg, logical)
    for values, row, out in judge.observe(rng, ctx, c, logical, params):
        judge.full(c, values, row, out)
    for r in c.refs:
        n = c.sizes[r]
        if n is not None:
            if cfg.exp:
                ctx.count('tuples expanded' if n else 'empty tuples expanded')
                ctx.seen('tuple sizes', n)
            else:
                ctx.count('tuples passed whole')
    ctx.seen('style pairs and expansion', (cfg.in_style, cfg.out_style, cfg.exp))
    if any(s is not None for s in c.sizes.values()):
        ctx.nontrivial(gen.sig(c))
    ctx.sample('%r %r sizes=%r' % (cfg, c.sql, c.sizes))

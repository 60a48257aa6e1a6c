"""Byte strings and strings convert alike."""
from .. import gen, judge, ref
from ..lib import Skip, SQLParams, call

QUICK, THOROUGH = 520000, 9000000
RULE = ('queries over all 256 byte values, converted as bytes and as the string of the same code points; types, bytes and '
        'parameters are compared; non-trivial: bytes above 127 or control bytes')
FLOORS = {'bytes compared': 300000, 'batches': 3000}


def probes(ctx):
    r = call(SQLParams('named_oracle', 'named').format, b':a\xff', {'a\xff': 1})
    judge.probe_known(ctx, 'K-UPPER', r[0] != 'ok', got=r[1])


class Str(str):
    pass


def case(rng, ctx):
    cfg = gen.gen_cfg(rng)
    try:
        repr(cfg.esc).encode('latin1')
    except UnicodeError:
        raise Skip
    names = gen.gen_numbers(rng) if cfg.in_style in ref.NUMERIC else [
        n for n in gen.gen_names(rng) if all(ord(x) < 256 for x in n)] or ['a']
    c = None
    for _ in range(8):
        sql = gen.gen_sql(rng, cfg, names, clean=0.4)
        sql = ''.join(ch if ord(ch) < 256 else chr(rng.randrange(128, 256)) for ch in sql)
        for _ in range(rng.randint(0, 6)):
            i = rng.randint(0, len(sql))
            sql = sql[:i] + chr(rng.randrange(256)) * rng.randint(1, 2) + sql[i:]
        if rng.random() < 0.05:
            sql += ' ' + ''.join(map(chr, range(128, 256)))
        c = gen.analyse(cfg, sql)
        if c is not None and not (cfg.in_style in ref.NUMERIC and 0 in c.refs):
            break
        c = None
    if c is None:
        raise Skip
    gen.gen_shapes(rng, c, 0.2)
    logical = gen.gen_values(rng, c, 0.1)
    params = gen.container(rng, cfg, logical)
    conv = cfg.make()
    ctx.calls += 2
    many = rng.random() < 0.35
    fn = conv.formatmany if many else conv.format
    arg = [params] * rng.randint(1, 3) if many else params
    a = judge.expect_ok(call(fn, c.sql, arg), c, arg)
    rb = call(fn, c.sql.encode('latin1'), arg)
    if rb[0] != 'ok':
        if cfg.in_style == 'named_oracle' and ref.kind(cfg.out_style) == 'named' and isinstance(rb[1], UnicodeEncodeError) \
                and any(ord(x) > 255 for r in c.refs for x in r) and ctx.is_known('K-UPPER'):
            ctx.count('upper case outside of latin1 (known)')
            return
        judge.fail('bytes raise an error', c, params, rb[1])
    b = rb[1]
    if type(b) is not tuple or len(b) != 2 or type(b[0]) is not bytes:
        judge.fail('bytes become %s' % type(b[0]).__name__, c, params, b)
    if type(a[0]) is not str:
        judge.fail('str becomes %s' % type(a[0]).__name__, c, params, a)
    try:
        same = a[0].encode('latin1') == b[0]
    except UnicodeEncodeError:
        same = False
    if not same:
        judge.fail('the queries differ', c, params, b[0], str_query=a[0])
    if many:
        ok = len(a[1]) == len(b[1]) and all(map(judge.same_params, a[1], b[1]))
        ctx.count('batches')
    else:
        ok = judge.same_params(a[1], b[1])
    if not ok:
        judge.fail('the parameters differ', c, params, b[1], str_params=a[1])
    # Both against the reference, literal bytes included.
    items = judge.items_of(c, logical)
    judge.check_text(c, items, params, (b[0].decode('latin1'), None))
    ctx.count('bytes compared', len(c.sql))
    for ch in set(c.sql):
        ctx.seen('byte values', ch)
    ctx.seen('style pairs', (cfg.in_style, cfg.out_style))
    if any(ord(ch) > 126 or ord(ch) < 32 for ch in c.sql):
        ctx.nontrivial(gen.sig(c))
    ctx.sample('%r -> %r' % (c.sql.encode('latin1'), b[0]))

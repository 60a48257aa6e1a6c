"""Oracle names: case and quotes."""
from .. import gen, judge, ref
from ..lib import Skip, call

QUICK, THOROUGH = 520000, 9000000
RULE = ('queries whose names differ only in case and quotes, from and to the Oracle style; the binding is compared with the '
        'canonical reading (unquoted = upper case), the same query is converted in a second spelling, and case-sensitive '
        'names whose exact spelling is missing must be refused; non-trivial: two names of the query differ only in case or quotes')
FLOORS = {'respelled queries compared': 6000, 'missing spellings refused': 1500, 'quoted out-names': 3000}

BASES = ['name', 'Name', 'NAME', 'nAmE', 'n', 'N', 'id', 'ID', 'Id', 'a_1', 'A_1', '_x', '_X', 'namE2', 'NAME2',
         'user_id', 'User_Id', 'USER_ID', 'names', 'NAMES']


def respell(rng, raw):
    """Another spelling of the same Oracle parameter."""
    if raw[1] == '"':
        n = raw[2:-1]
        if n == n.upper() and n.isascii() and rng.random() < 0.6:
            return ':' + rng.choice([n, n.lower(), n.title()])
        return raw
    n = raw[1:]
    if not n.isascii():
        return raw
    return rng.choice([':' + n.upper(), ':' + n.lower(), ':' + n.swapcase(), ':"%s"' % n.upper()])


MALFORMED = ['x%s"', '"%sx', '%s"', '"%s', '""%s""', "'%s'", ' %s', '%s ', '[%s]', ':%s', '"%s" ', '%s\x00', 'x%sx', '%s_', '_%s', '"%s""']


def case(rng, ctx):
    if rng.random() < 0.75:
        cfg = gen.gen_cfg(rng, ins=['named_oracle'], escape=rng.choice([None, None, None, True]), strip=None)
    else:
        cfg = gen.gen_cfg(rng, outs=['named_oracle'], escape=None, strip=None)
    if cfg.in_style in ref.NUMERIC:
        names = gen.gen_numbers(rng)
    elif rng.random() < 0.8:
        names = rng.sample(BASES, rng.randint(1, 5))
    else:
        names = gen.gen_names(rng)
    c = None
    for _ in range(8):
        c = gen.analyse(cfg, gen.gen_sql(rng, cfg, names, clean=0.6, wild=0.02, adj=0.02))
        if c is not None and not (cfg.in_style in ref.NUMERIC and 0 in c.refs):
            break
        c = None
    if c is None:
        raise Skip
    gen.gen_shapes(rng, c, 0.2)
    logical = gen.gen_values(rng, c, 0.1)
    params = gen.container(rng, cfg, logical)
    conv = cfg.make()
    for values, row, out in judge.observe(rng, ctx, c, logical, params, conv=conv, rich=0.1):
        got, items, keys = judge.full(c, values, row, out)
        if values is logical:
            mine = got, items, keys
    got, items, keys = mine
    if cfg.out_style == 'named_oracle':
        for key in keys:
            if key.startswith('"') != cfg.quotes:
                judge.fail('out-name %s with allow_out_quotes=%r' % (key, cfg.outq), c, params, got)
            ctx.count('quoted out-names' if cfg.quotes else 'unquoted out-names')
    if cfg.in_style != 'named_oracle':
        ctx.nontrivial(gen.sig(c))
        return
    # The same query, spelled otherwise, with keys spelled otherwise.
    sql2 = ''.join(respell(rng, t[1]) if t[0] == 'par' and rng.random() < 0.7 else t[1] for t in c.toks)
    c2 = gen.analyse(cfg, sql2)
    same_reading = c2 is not None and [t[2] if t[0] == 'par' else t for t in c2.toks] == [t[2] if t[0] == 'par' else t for t in c.toks]
    if same_reading:
        p2 = gen.container(rng, cfg, logical)
        ctx.calls += 1
        two = judge.expect_ok(call(conv.format, sql2, p2), c2, p2)
        if not judge.same_result(got, two):
            judge.fail('another spelling of the query converts differently', c, params, got, other_sql=sql2,
                       other_params=p2, other=two)
        ctx.count('respelled queries compared')
    # A case-sensitive name is not found under another spelling.
    low = [r for r in c.refs if r != r.upper()]
    if low:
        r = rng.choice(low)
        d = gen.container(rng, cfg, {k: v for k, v in logical.items() if k != r}, plain=True, extras=False)
        taken = {k[1:-1] if k[:1] == '"' else k.upper() for k in d}
        for wrong in (r, r.upper(), '"%s"' % r.swapcase()):
            canon = wrong[1:-1] if wrong[0] == '"' else wrong.upper()
            if canon not in taken and canon != r:
                taken.add(canon)
                d[wrong] = gen.Val('wrong')
        ctx.calls += 1
        out = call(conv.format, c.sql, d)
        if out[0] == 'ok':
            judge.fail('a case-sensitive name found another spelling', c, d, out[1])
        if not isinstance(out[1], LookupError):
            judge.fail('%s instead of a LookupError' % type(out[1]).__name__, c, d, out[1])
        ctx.count('missing spellings refused')
    # Neither is any name found under a key which is no spelling of it.
    if c.refs:
        r = rng.choice(c.refs)
        d = gen.container(rng, cfg, {k: v for k, v in logical.items() if k != r}, plain=True, extras=False)
        d[rng.choice(MALFORMED) % rng.choice([r, r.lower()])] = gen.Val('wrong')
        ctx.calls += 1
        out = call(conv.format, c.sql, d) if rng.random() < 0.6 else call(conv.formatmany, c.sql, [d])
        if r not in {k[1:-1] if k[:1] == '"' else k.upper() for k in d}:
            if out[0] == 'ok':
                judge.fail('a name found a key which is no spelling of it', c, d, out[1])
            if not isinstance(out[1], LookupError):
                judge.fail('%s instead of a LookupError' % type(out[1]).__name__, c, d, out[1])
            ctx.count('malformed keys refused')
    raws = {t[1].lower().replace('"', '') for t in c.toks if t[0] == 'par'}
    if len(raws) < len({t[1] for t in c.toks if t[0] == 'par'}):
        ctx.nontrivial(gen.sig(c))
    ctx.sample('%r %r -> %r' % (c.sql, params, got))

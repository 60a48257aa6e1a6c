"""Queries converted to a percent style survive the driver's formatting."""
from .. import gen, judge, ref
from ..lib import Skip

QUICK, THOROUGH = 720000, 12000000
RULE = ('queries dense in percent signs converted to "format" and "pyformat"; the converted query is formatted with Python\'s '
        'own % operator, as such drivers do, with unique markers for the values, and compared with the source text with its '
        'parameters replaced by the same markers; non-trivial: literal percent signs')
FLOORS = {'percents restored': 20000, 'queries formatted': 15000}


class Marks(dict):
    pass


def original(cfg, toks):
    """The literal texts as the source means them; None when it leaves it open."""
    out = []
    for t in toks:
        if t[0] == 'lit':
            x = t[1]
            if cfg.in_style in ref.PERCENT:
                if '%' in x.replace('%%', ''):
                    return None
                x = x.replace('%%', '%')
            out.append(x)
        elif t[0] == 'esc':
            out.append(t[2])
        else:
            out.append(None)
    return out


def case(rng, ctx):
    cfg = gen.gen_cfg(rng, outs=ref.PERCENT, strip=rng.choice([None, None, True]))
    names = gen.gen_numbers(rng) if cfg.in_style in ref.NUMERIC else gen.gen_names(rng)
    c = None
    for _ in range(8):
        sql = gen.gen_sql(rng, cfg, names, wild=0.05, clean=0.0)
        # Sprinkle percents.
        for _ in range(rng.randint(0, 4)):
            i = rng.randint(0, len(sql))
            sql = sql[:i] + rng.choice(['%', '%', '%%', '%s', '%d', '%(', '%(x)s', '% ', '100%', '%5.2f', "%'"]) + sql[i:]
        c = gen.analyse(cfg, sql)
        if c is None or (cfg.in_style in ref.NUMERIC and 0 in c.refs):
            c = None
            continue
        orig = original(cfg, c.toks)
        if orig is not None:
            break
        c = None
    if c is None:
        raise Skip
    gen.gen_shapes(rng, c, 0.2)
    for r in c.refs:
        if c.sizes[r] is not None and c.sizes[r] > 20:
            c.sizes[r] = 20
    logical = {r: gen.Val('a%s' % r) if c.sizes[r] is None else tuple(gen.Val('t%s_%d' % (r, k)) for k in range(c.sizes[r]))
               for r in c.refs}
    if gen.has_tuple_collision(c, logical):
        raise Skip
    params = gen.container(rng, cfg, logical)
    def fresh():
        return {r: gen.Val('b%s' % r) if c.sizes[r] is None else tuple(gen.Val('u%s_%d' % (r, k)) for k in range(c.sizes[r]))
                for r in c.refs}

    mark = lambda v: '<%r>' % (v,)
    for values, row, out in judge.observe(rng, ctx, c, logical, params, rows=fresh):
        got = judge.expect_ok(out, c, row)
        marks = {k: mark(v) for k, v in got[1].items()} if isinstance(got[1], dict) else tuple(mark(v) for v in got[1])
        try:
            final = got[0] % marks
        except (TypeError, ValueError, KeyError) as e:
            judge.fail('the driver cannot format the converted query: %r' % e, c, row, got)
        want, pos = [], 0
        for t, o in zip(c.toks, orig):
            if o is not None:
                want.append(o)
                continue
            r = t[2]
            if r is None:
                r, pos = pos, pos + 1
            v = values[r]
            if cfg.exp and isinstance(v, tuple):
                want.append('(NULL)' if not v else '(' + ','.join(map(mark, v)) + ')')
            else:
                want.append(mark(v))
        want = ''.join(want)
        if final != want:
            judge.fail('after the driver\'s formatting the query reads differently', c, row, got, final=final, expected=want)
    n = sum(o.count('%') for o in orig if o)
    ctx.count('percents restored', n)
    ctx.count('queries formatted')
    ctx.seen('style pairs and escape', (cfg.in_style, cfg.out_style, cfg.esc))
    if n:
        ctx.nontrivial(gen.sig(c))
    ctx.sample('%r -> %r -> %r' % (c.sql, got[0], final))

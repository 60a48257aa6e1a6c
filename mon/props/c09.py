"""Comment stripping."""
from .. import gen, judge, magic, ref
from ..lib import Skip, call

QUICK, THOROUGH = 800000, 14000000
RULE = ('queries with single-line and multiline comments at line starts, trailing, unclosed, nested in each other, with '
        'every line ending and custom markers; the result is compared with a line-based reference, and with the conversion '
        'of the hand-stripped query by an instance which does not strip; non-trivial: something is stripped, or a comment '
        'that must stay is there')
FLOORS = {'queries with something stripped': 8000, 'queries with comments kept': 4000, 'parameters without value in comments': 3000}


def gen_commented(rng, cfg, names):
    out = []
    marks = []
    for cm in cfg.comments or ref.DEFAULT_COMMENTS:
        marks += [cm] if isinstance(cm, str) else list(cm)
    r = rng.random()
    many = rng.choice([i for i in magic.INTS if 7 < i < 300] or [9]) if r < 0.01 else rng.randint(8, 70) if r < 0.05 else rng.choice([1100, 3000, 9000]) if r < 0.0503 else rng.randint(1, 7)
    for _ in range(many):
        k = rng.randrange(9)
        if k <= 2 and cfg.comments:
            out.append(gen.comment_text(rng, cfg, names))
        elif k == 3:
            out.append(rng.choice(['\n', ' ', '', '\r\n', '\t']) + rng.choice(marks))
        elif k == 4:
            out.append(rng.choice(gen.LITS))
        elif k == 5:
            out.append(rng.choice(['\n', '\n\n', '\r\n', '\r', '\n \t', '\x0b', '\u2028', '\x85', '\n  ']))
        elif k == 6:
            out.append('SELECT x' + rng.choice([' ', '\n']))
        else:
            out.append(gen.param_text(rng, cfg.in_style, names) + rng.choice(gen.SAFE_AFTER))
    return ''.join(out)


def case(rng, ctx):
    cfg = gen.gen_cfg(rng, strip=rng.choice([True, True, True, None, False] + [gen.gen_comments(rng)] * 4),
                      escape=rng.choice([None, None, True]))
    names = gen.gen_numbers(rng) if cfg.in_style in ref.NUMERIC else gen.gen_names(rng)
    c = None
    for _ in range(8):
        c = gen.analyse(cfg, gen_commented(rng, cfg, names))
        if c is not None and not (cfg.in_style in ref.NUMERIC and 0 in c.refs):
            break
        c = None
    if c is None:
        raise Skip
    gen.gen_shapes(rng, c, 0.15)
    logical = gen.gen_values(rng, c, 0.1)
    params = gen.container(rng, cfg, logical, extras=False)
    many = rng.random() < 0.25
    ctx.calls += 2
    if many:
        r = call(cfg.make().formatmany, c.sql, [params])
        if r[0] == 'ok':
            r = ('ok', (r[1][0], r[1][1][0]))
    else:
        r = call(cfg.make().format, c.sql, params)
    got, _, _ = judge.full(c, logical, params, r)
    plain = gen.Cfg(cfg.in_style, cfg.out_style, cfg.escape, cfg.expand, None, cfg.outq)
    two = judge.expect_ok(call(plain.make().format, c.stripped, params), c, params)
    if not judge.same_result(got, two):
        judge.fail('differs from the conversion of the stripped query', c, params, got, stripped=c.stripped, other=two)
    if c.stripped != c.sql:
        ctx.count('queries with something stripped')
        raw = ref.scan(cfg.in_style, cfg.esc, c.sql)[0]
        hidden = {t[2] for t in raw if t[0] == 'par'} - {t[2] for t in c.toks if t[0] == 'par'}
        ctx.count('parameters without value in comments', len(hidden))
        ctx.nontrivial(gen.sig(c))
    elif any((m if isinstance(m, str) else m[0]) in c.sql for m in cfg.comments or ref.DEFAULT_COMMENTS):
        ctx.count('queries with comments kept')
        ctx.nontrivial(gen.sig(c))
    ctx.seen('comment settings', repr(cfg.strip))
    ctx.seen('style pairs', (cfg.in_style, cfg.out_style))
    ctx.sample('%r %r -> %r' % (cfg.strip, c.sql, got[0]))

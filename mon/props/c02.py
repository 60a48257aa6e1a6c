"""Query text outside parameters survives unchanged."""
from .. import gen, judge, ref

QUICK, THOROUGH = 800000, 14000000
RULE = ('random and hostile query texts (doubled initial characters, casts, other styles\' placeholders, control '
        'characters, every line ending, non-BMP); the converted query is compared with the source character by character '
        'around the parameters; non-trivial: literal text holds an initial character, a percent or a non-ASCII character')
FLOORS = {'literal characters compared': 200000}
SPECIAL = set(':$@%?')


def case(rng, ctx):
    r = rng.random()
    cfg = gen.gen_cfg(rng, escape=None if r < 0.6 else 'any', strip=None if r < 0.75 else 'any')
    c = gen.gen_case(rng, cfg, adj=0.3, wild=rng.choice([0.05, 0.3, 0.7]), clean=0.2)
    gen.gen_shapes(rng, c, 0.2)
    logical = gen.gen_values(rng, c, 0.1)
    params = gen.container(rng, cfg, logical)
    for values, row, out in judge.observe(rng, ctx, c, logical, params, rich=0.1, plain_bytes=0.15):
        got = judge.expect_ok(out, c, row)
        judge.check_text(c, judge.items_of(c, values), row, got)
    text = ''.join(t[1] for t in c.toks if t[0] == 'lit')
    ctx.count('literal characters compared', len(text))
    ctx.seen('style pairs', (cfg.in_style, cfg.out_style))
    for ch in set(text):
        ctx.seen('distinct characters', ch)
    if SPECIAL & set(text) or not text.isascii():
        ctx.nontrivial(gen.sig(c))
    ctx.sample('%r  ->  %r' % (c.sql, got[0]))

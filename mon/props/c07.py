"""Escape sequences become literals, and only when enabled."""
from .. import gen, judge, ref
from ..lib import SQLParams, call

QUICK, THOROUGH = 1000000, 16000000
RULE = ('queries dense in runs of the initial character and of default, custom and multi-character escapes around '
        'parameters; the converted query and the binding of the parameters that remain are compared with a left-to-right '
        'reference reading; non-trivial: an escape sequence or a literal run of initial characters')
FLOORS = {'escape sequences': 10000, 'escapes off, doubled characters kept': 2000, 'parameter right after an escape': 200}


def probes(ctx):
    # "%" as the escape character; parameter directly after an escape sequence;
    # percent between percent styles.
    for a, sql, p, want in [
        (('named', 'format', '%'), '%:a :a', {'a': 1}, (':a %s', [1])),
        (('qmark', 'pyformat', '%'), '%? ?', [1], None),
        (('format', 'qmark', True), 'a %%%s AND b=%s', [1, 2], ('a %? AND b=?', [1, 2])),
        (('pyformat', 'numeric', True), '%%%(a)s', {'a': 1}, ('%:1', [1])),
        (('named', 'qmark', True), ':::a', {'a': 1}, (':?', [1])),
        (('format', 'format', True), "'a%%' %s", [1], ("'a%%' %s", [1])),
    ]:
        ctx.calls += 1
        r = call(SQLParams(a[0], a[1], escape_char=a[2]).format, sql, p)
        if r[0] != 'ok' or (want is not None and r[1] != want) or (want is None and r[1][0].count('%(') != 1):
            judge.fail('escape', cfg=a, sql=sql, params=p, got=r[1], expected=want)


def gen_escapes(rng, cfg, names):
    s = ref.SIG[cfg.in_style]
    out = []
    for _ in range(rng.randint(1, 8)):
        k = rng.randrange(7)
        if k == 0:
            out.append(s * rng.randint(1, 5))
        elif k == 1 and cfg.esc:
            out.append((cfg.esc + s) * rng.randint(1, 3))
        elif k == 2 and cfg.esc:
            out.append(cfg.esc + gen.param_text(rng, cfg.in_style, names))
        elif k == 3:
            out.append(rng.choice([cfg.esc or s, s + gen.param_text(rng, cfg.in_style, names), '%', '%%', ' ']))
        elif k == 4:
            out.append(rng.choice(gen.LITS))
        else:
            out.append(gen.param_text(rng, cfg.in_style, names))
        if rng.random() < 0.5:
            out.append(rng.choice(gen.SAFE_AFTER))
    return ''.join(out)


def case(rng, ctx):
    cfg = gen.gen_cfg(rng, strip=None)
    names = gen.gen_numbers(rng) if cfg.in_style in ref.NUMERIC else gen.gen_names(rng)
    c = None
    for _ in range(6):
        c = gen.analyse(cfg, gen_escapes(rng, cfg, names))
        if c is not None and 0 not in (c.refs if cfg.in_style in ref.NUMERIC else ()):
            break
        c = None
    if c is None:
        raise gen.Skip
    gen.gen_shapes(rng, c, 0.15)
    logical = gen.gen_values(rng, c, 0.1)
    params = gen.container(rng, cfg, logical)
    for values, row, out in judge.observe(rng, ctx, c, logical, params, rich=0.1):
        judge.full(c, values, row, out)
    n = sum(1 for t in c.toks if t[0] == 'esc')
    s = ref.SIG[cfg.in_style]
    ctx.count('escape sequences', n)
    runs = not cfg.esc and any(t[0] == 'lit' and s * 2 in t[1] for t in c.toks)
    if runs:
        ctx.count('escapes off, doubled characters kept')
    for a, b in zip(c.toks, c.toks[1:]):
        if a[0] == 'esc' and b[0] == 'par':
            ctx.count('parameter right after an escape')
    ctx.seen('style pairs and escape', (cfg.in_style, cfg.out_style, cfg.esc))
    if n or runs:
        ctx.nontrivial(gen.sig(c))
    ctx.sample('%r %r' % (cfg, c.sql))

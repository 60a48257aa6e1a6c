"""Conversions compose: chains of styles keep text and binding."""
from .. import gen, judge, magic, ref
from ..lib import Skip, SQLParams, call

QUICK, THOROUGH = 480000, 8000000
RULE = ('queries converted through 2 to 5 styles in a row, each result being the next input (percent in-styles with their '
        'percent escape on), back to the first style half of the time; the last result, read like its driver does, must '
        'hold the literal text of the first query and bind the same values; non-trivial: a chain over three styles or more')
FLOORS = {'steps': 20000, 'placeholders resolved': 30000, 'round trips': 3000, 'chains through a percent style': 5000}
ASSUMPTIONS = ['literal text holds no initial characters of the styles of the chain except percents']

LIT = ['SELECT * FROM users WHERE id = ', ' AND ', ' OR x IN ', ' = ', ', ', ' ', '\n', '(', ')', "'it''s'", "LIKE 'a%'", "'100%'",
       ' % 5', '%', 'é', '日本', ' -> ', "'%d'", '[1]', '{0}', '\\', '\\1', ' 1 ', '-- x\n', '/* c */', '%(', ' %s ', '%%', '"Q"']
AFTER = [' ', ')', ',', '\n', ' AND ', ';', '-', '||']


def probes(ctx):
    # K-FOLD: names which differ in case alone, through Oracle style without quotes.
    r = call(lambda: SQLParams('named_oracle', 'qmark').format(*SQLParams('named', 'named_oracle').format(':a :A', {'a': 1, 'A': 2})))
    judge.probe_known(ctx, 'K-FOLD', r[0] != 'ok' or r[1] != ('? ?', [1, 2]), got=r[1])


def case(rng, ctx):
    n = rng.choice([2, 2, 3, 3, 4, 5])
    styles = [rng.choice(ref.STYLES) for _ in range(n + 1)]
    if rng.random() < 0.5:
        styles[-1] = styles[0]
    pct_in = styles[0] in ref.PERCENT
    names = gen.gen_numbers(rng) if styles[0] in ref.NUMERIC else [
        x for x in gen.gen_names(rng) if (x.isascii() or 'named_oracle' not in styles) and 'sqlp' not in x]
    if not names:
        raise Skip
    exps = [rng.choice([None, None, True, False]) for _ in range(n)]
    cfgs = []
    for i in range(n):
        cfgs.append(gen.Cfg(styles[i], styles[i + 1], True if styles[i] in ref.PERCENT else None, exps[i], None,
                            rng.choice([None, True]) if styles[i + 1] == 'named_oracle' else None))
    # Oracle folds the case of unquoted names (known finding K-FOLD).
    folds = any(x.out_style == 'named_oracle' and not x.quotes for x in cfgs)
    if folds:
        fold = {}
        names = [x for x in names if fold.setdefault(x.lower(), x) == x]
    names = [x for x in names if not x.lstrip('_').isdigit() or styles[0] in ref.NUMERIC]
    if not names:
        raise Skip
    sql = []
    for _ in range(rng.randint(1, 8)):
        for _ in range(rng.randint(0, 2)):
            t = rng.choice(LIT)
            if pct_in:
                t = t.replace('%', '%%')
            sql.append(t)
        if sql and sql[-1][-1:].isalnum():
            sql.append(' ')
        p = gen.param_text(rng, styles[0], names)
        sql.append(p)
        sql.append(rng.choice(AFTER))
    sql = ''.join(sql)
    c = gen.analyse(cfgs[0], sql)
    if c is None or (styles[0] in ref.NUMERIC and 0 in c.refs):
        raise Skip
    if any(t[0] == 'lit' and any(ref.SIG[s] in t[1] for s in set(styles) if s not in ref.PERCENT) for t in c.toks):
        raise Skip
    if pct_in and any(t[0] == 'lit' and '%' in t[1] for t in c.toks):
        raise Skip
    if styles[0] in ref.NAMED and len({r.upper() for r in c.refs}) < len(c.refs):
        if folds:
            ctx.count('names which fold (known)')
            raise Skip
        ctx.count('names which differ in case alone')
    gen.gen_shapes(rng, c, 0.3)
    for r in c.refs:
        if c.sizes[r] is not None and c.sizes[r] > 25:
            c.sizes[r] = 25
    if c.sizes and rng.random() < 0.006:
        # A large tuple.
        big = [i for i in magic.INTS if 25 < i <= 2500] + [130, 260, 1001, 1100, 2100]
        if 'named_oracle' in styles[1:-1]:
            # Names are looked up in quadratic time.
            big = [i for i in big if i < 300]
        c.sizes[rng.choice(list(c.sizes))] = rng.choice(big)
        ctx.count('chains with a large tuple')
    logical = {r: gen.Val('v%s' % r) if c.sizes[r] is None else tuple(gen.Val('t%s.%d' % (r, k)) for k in range(c.sizes[r]))
               for r in c.refs}
    # What the source means.
    expand = any(cfg.exp for cfg in cfgs)
    want, pos = [], 0
    for t in c.toks:
        if t[0] == 'lit':
            want.append(t[1])
        elif t[0] == 'esc':
            want.append(t[2])
        else:
            r = t[2]
            if r is None:
                r, pos = pos, pos + 1
            v = logical[r]
            if expand and isinstance(v, tuple):
                if not v:
                    want.append('(NULL)')
                else:
                    want.append('(')
                    for k, sub in enumerate(v):
                        if k:
                            want.append(',')
                        want.append((sub,))
                    want.append(')')
            else:
                want.append((v,))
    params = gen.container(rng, cfgs[0], logical)
    cur, cur_p = sql, params
    trail = []
    many = rng.random() < 0.2
    if many:
        cur_p = [params, params]
    for cfg in cfgs:
        ctx.calls += 1
        conv = cfg.make()
        out = call(conv.formatmany if many else conv.format, cur, cur_p)
        trail.append('%s(%r)' % (cfg, cur))
        if out[0] != 'ok':
            judge.fail('a step of the chain raises an error', c, cur_p, out[1], trail=trail)
        cur, cur_p = out[1]
        ctx.count('steps')
    trail.append(repr(cur))
    last = styles[-1]
    try:
        read = ref.read_out(last, cur)
    except ref.Unreadable as e:
        judge.fail('a driver cannot read the result at offset %s' % e, c, params, (cur, cur_p), trail=trail)
    for row in cur_p if many else [cur_p]:
        flat, pos = [], 0
        for x in read:
            if x[0] == 'lit':
                flat.append(x[1])
                continue
            try:
                v = ref.lookup_out(last, x[1], row, pos)
            except (LookupError, TypeError) as e:
                judge.fail('placeholder %d (%r) has no value' % (pos, x[1]), c, params, (cur, row), trail=trail)
            pos += 1
            flat.append((v,))
        a, b = merge(want), merge(flat)
        if len(a) != len(b) or any(x is not y if not isinstance(x, str) or not isinstance(y, str) else x != y
                                   for x, y in zip(a, b)):
            judge.fail('text or binding changed on the way', c, params, (cur, row), trail=trail, want=a, read=b)
        ctx.count('placeholders resolved', pos)
    if styles[0] == last:
        ctx.count('round trips')
    if set(styles) & set(ref.PERCENT):
        ctx.count('chains through a percent style')
    for i in range(n - 1):
        ctx.seen('style triples', tuple(styles[i:i + 3]))
    ctx.seen('chains', tuple(styles))
    if len(set(styles)) > 2:
        ctx.nontrivial(hash((tuple(styles), sql)))
    ctx.sample(' -> '.join(trail))


def merge(xs):
    """Adjacent texts joined; values unwrapped."""
    out = []
    for x in xs:
        if isinstance(x, str):
            if out and isinstance(out[-1], str):
                out[-1] += x
            elif x:
                out.append(x)
        else:
            out.append(x[0])
    return out

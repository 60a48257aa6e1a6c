"""Oracles over one observed call, shared by the properties."""
from . import gen, ref
from .lib import Violation, call


def clip(x, n=700):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...(%d chars)' % len(s)


def fail(what, case=None, params=None, got=None, cfg=None, sql=None, **more):
    d = {'what': what}
    if case is not None:
        cfg, sql = case.cfg, case.sql
    if cfg is not None:
        d['instance'] = clip(cfg)
    if sql is not None:
        d['sql'] = clip(repr(sql))
    if params is not None:
        d['params'] = clip(repr(params))
    if got is not None:
        d['got'] = clip(repr(got))
    for k, v in more.items():
        d[k] = clip(v)
    raise Violation(d)


def expect_ok(outcome, case, params):
    if outcome[0] != 'ok':
        fail('the call raised an error', case, params, outcome[1])
    r = outcome[1]
    if type(r) is not tuple or len(r) != 2:
        fail('the result is not a pair', case, params, r)
    if type(r[0]) is not type(case.sql):
        fail('the converted query is not a %s' % type(case.sql).__name__, case, params, r)
    return r


def probe_known(ctx, kid, fails, **detail):
    """A directed probe of a listed finding."""
    ctx.calls += 1
    if not fails:
        return
    if not ctx.is_known(kid):
        fail('unlisted finding ' + kid, **detail)
    if not hasattr(ctx, 'probe_failed'):
        ctx.probe_failed = {}
    ctx.probe_failed[kid] = True


def items_of(case, logical):
    cfg = case.cfg
    return ref.expected_items(cfg.in_style, cfg.out_style, cfg.exp, case.toks, logical)


def container_type(case, out_params, params, got):
    want = dict if ref.kind(case.cfg.out_style) == 'named' else list
    if type(out_params) is not want:
        fail('the converted parameters are not a %s' % want.__name__, case, params, got)


def check_text(case, items, params, got):
    """The converted query, character by character. Returns the out-references."""
    keys, off = ref.walk(items, case.cfg.out_style, got[0])
    if keys is None:
        fail('the converted query differs at offset %d' % off, case, params, got,
             expected=''.join(i[1] if i[0] == 'lit' else '<param>' for i in items))
    return keys


def check_values(case, phs, keys, params, got):
    """Each out-reference resolves to its very own value."""
    out_style = case.cfg.out_style
    if len(keys) != len(phs):
        fail('%d placeholders read where %d values are expected' % (len(keys), len(phs)), case, params, got)
    for pos, (it, key) in enumerate(zip(phs, keys)):
        try:
            v = ref.lookup_out(out_style, key, got[1], pos)
        except (LookupError, TypeError) as e:
            fail('placeholder %d (%r) has no value: %r' % (pos, key, e), case, params, got)
        if v is not it[1]:
            fail('placeholder %d (%r) is bound to %s instead of %s' % (pos, key, clip(repr(v), 60), clip(repr(it[1]), 60)),
                 case, params, got)


def check_binding(case, items, params, got):
    """Binding by walking along and, where determined, by the driver's own reading.
    Returns (walked keys or None, was the driver's reading determined)."""
    container_type(case, got[1], params, got)
    cfg = case.cfg
    phs = [i for i in items if i[0] == 'ph']
    keys, _ = ref.walk(items, cfg.out_style, got[0])
    clean = ref.clean_for(cfg.out_style, items, cfg.in_style in ref.PERCENT)
    if clean:
        try:
            blind = [x[1] for x in ref.read_out(cfg.out_style, got[0]) if x[0] == 'ph']
        except ref.Unreadable as e:
            fail('a driver cannot read the converted query at offset %s' % e, case, params, got)
        check_values(case, phs, blind, params, got)
    if keys is not None:
        check_values(case, phs, keys, params, got)
    return keys, clean


def observe(rng, ctx, case, logical, params, keys=None, conv=None, many=0.35, rich=0.3, plain_bytes=0.08, warm=0.1, rows=None):
    """Convert the case in one of the ways a caller may: format(), or formatmany()
    with the set anywhere in a batch; as str or bytes; with a fresh or a used
    instance. Yields (values, params, outcome) for every set, ready to be judged."""
    cfg = case.cfg
    conv = conv or cfg.make()
    if rng.random() < warm:
        # Earlier uses of the instance are to leave no trace.
        other = gen.copy_case(case)
        gen.gen_shapes(rng, other, 0.4)
        for r in other.refs:
            if other.sizes[r]:
                other.sizes[r] = min(other.sizes[r], 6)
        use = gen.gen_values(rng, other, 0.1)
        if use and rng.random() < 0.4:
            del use[rng.choice(list(use))]
        p = gen.container(rng, cfg, use, form=rng.choice(['int', 'str', None]))
        ctx.calls += 1
        call(conv.format, case.sql, p) if rng.random() < 0.7 else call(conv.formatmany, case.sql, [p])
        ctx.count('used instances')
    sql = case.sql
    as_bytes = False
    if rng.random() < plain_bytes and (sql.isascii() or ref.kind(cfg.out_style) != 'named'):
        try:
            sql, as_bytes = sql.encode('latin1'), True
        except UnicodeEncodeError:
            pass

    def typed(q):
        if type(q) is not type(sql):
            fail('a query of type %s became %s' % (type(sql).__name__, type(q).__name__), case, params, q)
        return q.decode('latin1') if as_bytes else q

    ctx.calls += 1
    if rng.random() >= many:
        out = call(conv.format, sql, params)
        if out[0] == 'ok':
            if type(out[1]) is not tuple or len(out[1]) != 2:
                fail('the result is not a pair', case, params, out[1])
            out = 'ok', (typed(out[1][0]), out[1][1])
        ctx.count('format() judged')
        return [(logical, params, out)]
    if cfg.in_style == 'named_oracle':
        keys = keys or {canon: k for k in params if isinstance(k, str) for canon in case.refs
                        if (k[1:-1] if k[:1] == '"' and len(k) > 1 else k.upper()) == canon}
    n = rng.choice([1, 2, 2, 3, 5])
    at = rng.randrange(n)
    batch = []
    for i in range(n):
        if i == at:
            batch.append((logical, params))
        else:
            v = rows() if rows else gen.gen_values(rng, case, rich)
            batch.append((v, gen.container(rng, cfg, v, keys=keys)))
    arg = [p for _, p in batch]
    r = rng.random()
    out = call(conv.formatmany, sql, arg if r < 0.6 else tuple(arg) if r < 0.8 else iter(arg))
    ctx.count('sets of formatmany() judged', n)
    if out[0] != 'ok':
        return [(logical, arg, out)]
    if type(out[1]) is not tuple or len(out[1]) != 2 or type(out[1][1]) is not list or len(out[1][1]) != n:
        fail('the result is not a query with a list of %d sets' % n, case, arg, out[1])
    q = typed(out[1][0])
    return [(v, p, ('ok', (q, o))) for (v, p), o in zip(batch, out[1][1])]


def full(case, logical, params, outcome):
    """Everything the reference determines about a format() call."""
    got = expect_ok(outcome, case, params)
    items = items_of(case, logical)
    container_type(case, got[1], params, got)
    keys = check_text(case, items, params, got)
    phs = [i for i in items if i[0] == 'ph']
    if gen.has_tuple_collision(case, logical):
        return got, items, keys
    check_values(case, phs, keys, params, got)
    check_exact(case, phs, keys, params, got)
    return got, items, keys


def check_exact(case, phs, keys, params, got):
    """The parameters hold exactly what the query references; canonical numbers,
    one name or number per in-parameter."""
    cfg = case.cfg
    out = got[1]
    k = ref.kind(cfg.out_style)
    if k == 'ordinal':
        if len(out) != len(phs):
            fail('%d values for %d placeholders' % (len(out), len(phs)), case, params, got)
        return
    idents = [it[2] for it in phs]
    if k == 'numeric':
        seen = {}
        nxt = 1
        for ident, key in zip(idents, keys):
            if ident in seen:
                if seen[ident] != key:
                    fail('two numbers, %r and %r, for one parameter' % (seen[ident], key), case, params, got)
            else:
                if key != nxt:
                    fail('number %r where %r is next' % (key, nxt), case, params, got)
                seen[ident] = key
                nxt += 1
        if len(out) != nxt - 1:
            fail('%d values for the numbers up to %d' % (len(out), nxt - 1), case, params, got)
        return
    if set(out) != set(keys):
        fail('the names of the parameters are not those in the query', case, params, got)
    zero = cfg.in_style in ref.NUMERIC and any(t[0] == 'par' and t[1][1:2] == '0' for t in case.toks)
    fwd, back = {}, {}
    for ident, key in zip(idents, keys):
        if back.setdefault(key, ident) != ident:
            fail('one name, %r, for two parameters' % key, case, params, got)
        if not zero and fwd.setdefault(ident, key) != key:
            fail('two names, %r and %r, for one parameter' % (fwd[ident], key), case, params, got)
        bare = key[1:-1] if cfg.quotes and key[:1] == '"' == key[-1:] else key
        if not bare or bare[0].isdigit() or not all(ref.is_word(ch) for ch in bare):
            fail('%r is not a name' % key, case, params, got)


def same_result(a, b):
    """Same query, same type of parameters, the very same values."""
    if a[0] != b[0] or type(a[0]) is not type(b[0]):
        return False
    return same_params(a[1], b[1])


def same_params(x, y):
    if type(x) is not type(y) or len(x) != len(y):
        return False
    if isinstance(x, dict):
        return all(k in y and y[k] is v for k, v in x.items())
    return all(p is q for p, q in zip(x, y))

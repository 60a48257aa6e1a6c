"""Input which does not fit is rejected, never bound to something else."""
import collections

from .. import gen, judge, magic, ref
from ..lib import Skip, SQLParams, call

QUICK, THOROUGH = 800000, 14000000
RULE = ('one needed value removed (name, number, key, position; in format() and in every set of a batch) with near-miss '
        'keys left behind, number 0, containers and queries of the wrong type, empty and non-iterable batches, unknown styles, '
        'wrong settings; the call must raise, within the documented kinds of errors; non-trivial: every planted fault')
FLOORS = {'missing value refused': 8000, 'missing value in a later set refused': 3000, 'wrong container refused': 3000,
          'wrong query type refused': 800, 'bad batch refused': 800, 'bad setting refused': 800, 'errors of the caller passed on': 500, 'number zero refused': 300,
          'sound twin accepted': 2500}
MISFIT = (TypeError, ValueError, LookupError)


class Thing:
    pass


class Duck:
    """Has every method of a mapping, and is none."""

    def __init__(self, d):
        self._d = dict(d)

    def __getitem__(self, k):
        return self._d[k]

    def __contains__(self, k):
        return k in self._d

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def keys(self):
        return self._d.keys()

    def values(self):
        return self._d.values()

    def items(self):
        return self._d.items()

    def get(self, k, default=None):
        return self._d.get(k, default)


def prolong(rng, c, rows):
    """Seldom, the sets again and again."""
    if rows and c.npar <= 5 and rng.random() < 0.0025:
        n = magic.long_count(rng)
        rows = [rows[i % len(rows)] for i in range(n)]
    return rows


def probes(ctx):
    # "the numeric parameter 0 was bound to the last parameter"
    for i in ref.NUMERIC:
        for o in ref.STYLES:
            for p in (['a', 'b'], {1: 'a', 2: 'b'}, {'1': 'a'}):
                refuse(ctx, call(SQLParams(i, o).format, 'x ' + ref.SIG[i] + '0', p), MISFIT, 'number 0', cfg=(i, o), params=p)
                refuse(ctx, call(SQLParams(i, o).formatmany, 'x ' + ref.SIG[i] + '0', [p, p]), MISFIT, 'number 0', cfg=(i, o), params=p)
    # "formatmany() leaked StopIteration"
    for i in ref.STYLES:
        for o in ref.STYLES:
            for e in ([], (), iter(()), {}, set(), (x for x in ())):
                refuse(ctx, call(SQLParams(i, o).formatmany, 'x', e), (ValueError,), 'empty batch', cfg=(i, o), params=e)
    for a in (('nosuch', 'qmark'), ('qmark', 'nosuch'), ('', ''), ('Named', 'qmark'), ('named ', 'qmark'), ('qmark', 'NUMERIC')):
        refuse(ctx, call(SQLParams, *a), (LookupError, ValueError), 'unknown style', cfg=a)
    for a in ((None, 'qmark'), ('qmark', None), (b'named', 'qmark'), ('qmark', b'named'), (1, 'qmark'), ('qmark', 2)):
        refuse(ctx, call(SQLParams, *a), (TypeError, LookupError, ValueError), 'style of a wrong type', cfg=a)


def refuse(ctx, out, kinds, what, **detail):
    ctx.calls += 1
    if out[0] == 'ok':
        judge.fail('accepted: ' + what, got=out[1], **detail)
    if not isinstance(out[1], kinds):
        judge.fail('%s instead of %s: %s' % (type(out[1]).__name__, '/'.join(k.__name__ for k in kinds), what),
                   got=repr(out[1]), **detail)


def decoys(rng, cfg, c, r):
    """Keys which must not stand in for the missing reference *r*."""
    k = ref.kind(cfg.in_style)
    if k == 'named':
        if cfg.in_style == 'named_oracle':
            out = ['"%s_"' % r, '"_%s"' % r, r + '_', r.encode('utf8'), (r,), None, 0]
            if r != r.upper():
                out += [r.upper()]
            elif r.lower() != r and r.isascii():
                out += ['"%s"' % r.lower()]
            return out
        return [r + '_', '_' + r, r.swapcase() if r.swapcase() != r else r + 'x', r.encode('utf8'), '"%s"' % r,
                ref.SIG[cfg.in_style] + r, ' ' + r, r + ' ', r[:-1] or 'zz', '', 0, None, (r,)]
    out = [-1, '-1', -2, r + 1000, str(r + 1000), 'zz', None, '', 'x%d' % r, ' %d' % r, '+%d' % r, '%d.0' % r, -r or -5,
           '%d ' % r, (r,)]
    if k == 'numeric':
        out += [0, '0']
    return out


def make_missing(rng, cfg, c, logical, keys, bytes_keys=True):
    """Parameters without the value of one needed reference."""
    r = rng.choice(c.refs)
    rest = {k: v for k, v in logical.items() if k != r}
    k = ref.kind(cfg.in_style)
    if rng.random() < 0.06 and (k == 'named' or (max(c.refs) > (k == 'numeric') and c.sizes.get(int(k == 'numeric')) is None)):
        # All of them, one level too deep.
        if k == 'named':
            inner = gen.container(rng, cfg, logical, keys=keys, plain=True, extras=False)
            return r, gen.wrap_mapping(rng, {rng.choice([x for x in ('params', 'p', '_', 'zz_', 'zz__zz') if x not in c.refs and x.upper() not in c.refs]): rng.choice([inner, (inner,), [inner]])})
        base = 1 if k == 'numeric' else 0
        r = max(c.refs)
        whole = [logical.get(i, gen.Val('fill')) for i in range(base, min(r, 5000) + 1)]
        whole = rng.choice([tuple, list, lambda s: dict(enumerate(s, base))])(whole)
        return r, rng.choice([gen.wrap_sequence(rng, [whole]), gen.wrap_mapping(rng, {base: whole})])
    if k != 'named' and max(c.refs) < 5000 and rng.random() < 0.5:
        base = 1 if k == 'numeric' else 0
        # Sequences can only be too short.
        r = max(c.refs)
        n = rng.choice([0, r - base, max(0, r - base - 1)])
        s = [logical.get(i + base, gen.Val('fill')) for i in range(n)]
        return r, gen.wrap_sequence(rng, s)
    d = gen.container(rng, cfg, rest, keys={x: y for x, y in keys.items() if x != r} if keys else None,
                      form=rng.choice(['int', 'str', 'mix']), extras=rng.random() < 0.3, plain=True)
    if k != 'named':
        d.pop(r, None)
        d.pop(str(r), None)
    have = set(c.refs) | {str(x) for x in c.refs}
    if cfg.in_style == 'named_oracle':
        canon = {x[1:-1] if x[:1] == '"' else x.upper() for x in d if isinstance(x, str)} | {x for x in c.refs}
    for dk in decoys(rng, cfg, c, r):
        if not bytes_keys and isinstance(dk, bytes):
            continue
        if rng.random() < 0.4:
            if cfg.in_style == 'named_oracle' and isinstance(dk, str):
                cc = dk[1:-1] if dk[:1] == '"' else dk.upper()
                if cc in canon:
                    continue
            if dk in have:
                continue
            try:
                if not isinstance(dk, (str, int)) or isinstance(dk, str) or dk not in have:
                    d[dk] = rng.choice([gen.Val('decoy'), (gen.Val('decoy'),)])
            except TypeError:
                pass
    return r, gen.wrap_mapping(rng, d)


WRONG_SQL = [None, 1, 1.5, bytearray(b':a'), memoryview(b':a'), [':a'], (':a',), {'a': ':a'}, object(), Thing]


def wrong_containers(rng, cfg, c, logical):
    k = ref.kind(cfg.in_style)
    vals = list(logical.values())
    out = [None, 1, 'abc', b'abc', 'a', object(), Thing(), set(range(3)), frozenset([1]), iter(vals), (v for v in vals),
           True, 1.0, Thing, Duck(logical)]
    if k == 'named':
        out += [vals, tuple(vals), list(zip(map(str, c.refs), vals)), collections.deque(vals), [dict(zip(map(str, c.refs), vals))],
                range(3), zip(c.refs, vals)]
    else:
        out += [dict(enumerate(vals)).values(), dict(enumerate(vals, 1)).items(), map(id, vals)]
    return rng.choice(out)


def case(rng, ctx):
    r = rng.random()
    if r < 0.06:
        return bad_setting(rng, ctx)
    cfg = gen.gen_cfg(rng)
    if r < 0.12 and cfg.in_style in ref.NUMERIC:
        return zero(rng, ctx, cfg)
    c = gen.gen_case(rng, cfg, clean=0.5)
    gen.gen_shapes(rng, c, 0.2)
    for x in c.refs:
        if c.sizes[x] and c.sizes[x] > 20:
            c.sizes[x] = 20
    logical = gen.gen_values(rng, c, 0.3)
    keys = gen.oracle_keys(rng, c.refs) if cfg.in_style == 'named_oracle' else None
    conv = cfg.make()
    sql = c.sql
    if sql.isascii() and rng.random() < 0.1:
        sql = sql.encode()
    if r < 0.55 and c.refs:
        what, p = make_missing(rng, cfg, c, logical, keys)
        if rng.random() < 0.6:
            refuse(ctx, call(conv.format, sql, p), (LookupError,), 'no value for %r' % (what,), cfg=cfg, sql=repr(sql), params=p)
            ctx.count('missing value refused')
        else:
            n = rng.randint(1, 8)
            rows = [gen.container(rng, cfg, gen.gen_values(rng, c, 0.2), keys=keys) for _ in range(n)]
            rows = prolong(rng, c, rows)
            n = len(rows)
            at = rng.choice([n, n, rng.randint(1, n), 0])
            rows.insert(at, p)
            refuse(ctx, call(conv.formatmany, sql, rng.choice([rows, iter(rows)])), (LookupError,),
                   'no value for %r in set %d' % (what, at), cfg=cfg, sql=repr(sql), params=rows)
            ctx.count('missing value in a later set refused' if at else 'missing value in the first set refused')
        ctx.seen('style pairs of missing values', (cfg.in_style, cfg.out_style))
    elif r < 0.78:
        bad = wrong_containers(rng, cfg, c, logical)
        if rng.random() < 0.5:
            refuse(ctx, call(conv.format, sql, bad), (TypeError,), 'parameters of type %s' % type(bad).__name__, cfg=cfg, sql=repr(sql), params=bad)
        else:
            n = rng.randint(0, 5)
            rows = [gen.container(rng, cfg, gen.gen_values(rng, c, 0.2), keys=keys) for _ in range(n)]
            rows = prolong(rng, c, rows)
            n = len(rows)
            at = rng.choice([n, rng.randint(0, n)])
            rows.insert(at, bad)
            refuse(ctx, call(conv.formatmany, sql, rng.choice([rows, iter(rows), tuple(rows)])), (TypeError,),
                   'set %d of type %s' % (at, type(bad).__name__), cfg=cfg, sql=repr(sql), params=rows)
        ctx.count('wrong container refused')
        ctx.seen('wrong containers', (ref.kind(cfg.in_style), type(bad).__name__))
    elif r < 0.83:
        bad = rng.choice(WRONG_SQL)
        p = gen.container(rng, cfg, logical, keys=keys)
        fn = rng.choice([conv.format, conv.formatmany])
        refuse(ctx, call(fn, bad, p if fn == conv.format else [p]), (TypeError,), 'a query of type %s' % type(bad).__name__, cfg=cfg, sql=repr(bad), params=p)
        ctx.count('wrong query type refused')
    elif r < 0.855:
        raising(rng, ctx, cfg, c, logical, keys, conv, sql)
    elif r < 0.88:
        bad = rng.choice([None, 1, 'abc', b'abc', '', b'', object(), 2.5, True, Thing(), Thing])
        refuse(ctx, call(conv.formatmany, sql, bad), (TypeError,), 'a batch of type %s' % type(bad).__name__, cfg=cfg, sql=repr(sql), params=bad)
        bad = rng.choice([[], (), iter([]), {}, (x for x in ()), collections.deque(), map(id, [])])
        refuse(ctx, call(conv.formatmany, sql, bad), (ValueError,), 'an empty batch', cfg=cfg, sql=repr(sql), params=bad)
        ctx.count('bad batch refused')
    else:
        # The twin without a fault: the refusals above are due to the faults.
        p = gen.container(rng, cfg, logical, keys=keys)
        ctx.calls += 2
        judge.expect_ok(call(conv.format, c.sql, p), c, p)
        judge.expect_ok(call(conv.formatmany, c.sql, [p, p]), c, p)
        ctx.count('sound twin accepted')
        return
    ctx.nontrivial(hash((cfg.key(), c.sql, r)))
    ctx.sample('%r %r' % (cfg, c.sql))


class Raise:
    """Stands for a value which cannot be read."""

    def __init__(self, error):
        self.error = error


class RaisingMapping(gen.MyMapping):
    def __getitem__(self, k):
        v = self._d[k]
        if isinstance(v, Raise):
            raise v.error
        return v


class RaisingSequence(gen.MySequence):
    def __getitem__(self, i):
        v = self._s[i]
        if isinstance(v, Raise):
            raise v.error
        return v


def raising(rng, ctx, cfg, c, logical, keys, conv, sql):
    """An error of the caller's own containers is not taken for their end."""
    error = rng.choice([RuntimeError, ValueError, OSError, AttributeError, ZeroDivisionError, MemoryError, ArithmeticError, KeyError, TypeError,
                        NotImplementedError, Exception, EOFError, UnicodeError, BufferError])('planted')
    rows = [gen.container(rng, cfg, gen.gen_values(rng, c, 0.2), keys=keys) for _ in range(rng.randint(0, 5))]
    if rng.random() < 0.5 or not c.refs:
        def sets():
            yield from rows
            raise error
        what = '%s raised by the batch after %d sets' % (type(error).__name__, len(rows))
        out = call(conv.formatmany, sql, rng.choice([lambda g: g, lambda g: map(lambda r: r, g)])(sets()))
    else:
        bad = dict(logical)
        bad[rng.choice(c.refs)] = Raise(error)
        p = gen.container(rng, cfg, bad, keys=keys, plain=True, extras=False)
        p = RaisingMapping(p) if isinstance(p, dict) else RaisingSequence(p)
        if rng.random() < 0.5:
            what = '%s raised by the parameters' % type(error).__name__
            out = call(conv.format, sql, p)
        else:
            at = rng.randint(0, len(rows))
            rows.insert(at, p)
            what = '%s raised by set %d' % (type(error).__name__, at)
            out = call(conv.formatmany, sql, rows)
    ctx.calls += 1
    if out[0] == 'ok':
        judge.fail('a result in spite of ' + what, got=out[1], cfg=cfg, sql=repr(sql), params=rows)
    ctx.count('errors of the caller passed on')


def zero(rng, ctx, cfg):
    names = gen.gen_numbers(rng)[:3] + rng.sample(['0', '00', '000'], rng.randint(1, 2))
    for _ in range(8):
        c = gen.analyse(cfg, gen.gen_sql(rng, cfg, names, nparams=rng.randint(1, 5), clean=0.5))
        if c is not None and 0 in c.refs:
            break
    else:
        raise Skip
    top = max(c.refs)
    c.sizes = {r: None for r in c.refs}
    logical = {r: gen.Val(r) for r in c.refs if r} or {1: gen.Val(1)}
    # Mapping keys 0 are left open: offer only the numbers which exist.
    p = gen.container(rng, cfg, logical)
    refuse(ctx, call(cfg.make().format, c.sql, p), MISFIT, 'number 0', cfg=cfg, sql=repr(c.sql), params=p)
    refuse(ctx, call(cfg.make().formatmany, c.sql, [p, p]), MISFIT, 'number 0', cfg=cfg, sql=repr(c.sql), params=p)
    ctx.count('number zero refused')
    ctx.nontrivial(hash((cfg.key(), c.sql, top)))


def bad_setting(rng, ctx):
    i, o = rng.choice(ref.STYLES), rng.choice(ref.STYLES)
    k = rng.randrange(5)
    if k == 0:
        bad = rng.choice([1, 2.0, b'\\', b'%', ['%'], ('!',), object(), Thing, {'a': 1}])
        refuse(ctx, call(SQLParams, i, o, escape_char=bad), (TypeError,), 'escape_char=%r' % (bad,), cfg=(i, o))
    elif k == 1:
        bad = rng.choice([1, None, b'--', 2.5, object(), True, {'/*': '*/'}])
        lst = ['#', ('/*', '*/')]
        lst.insert(rng.randint(0, 2), bad)
        refuse(ctx, call(SQLParams, i, o, strip_comments=lst), (TypeError,), 'strip_comments=%r' % (lst,), cfg=(i, o))
    elif k == 2:
        bad = rng.choice([('/*',), ('/*', '*/', 'x'), ['a'], ()])
        refuse(ctx, call(SQLParams, i, o, strip_comments=['--', bad]), (ValueError, TypeError), 'comment style %r' % (bad,), cfg=(i, o))
    elif k == 3:
        bad = rng.choice(['', 'nosuch', i.upper(), i + ' ', ' ' + i, i[:-1], i + 's', '?', ':', '%s', 'named-dollar', 'ordinal', 'sqlite'])
        a = rng.choice([(bad, o), (i, bad)])
        refuse(ctx, call(SQLParams, *a), (LookupError, ValueError), 'unknown style', cfg=a)
    else:
        bad = rng.choice([None, 1, i.encode(), True, object()])
        a = rng.choice([(bad, o), (i, bad)])
        refuse(ctx, call(SQLParams, *a), (TypeError, LookupError, ValueError), 'style of a wrong type', cfg=a)
    ctx.count('bad setting refused')
    ctx.nontrivial(hash((i, o, k, repr(type(bad)), bad if isinstance(bad, str) else 0)))

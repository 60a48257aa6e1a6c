"""formatmany() agrees with format() on every set of parameters."""
import collections
import collections.abc
import itertools
import types

from .. import gen, judge, magic, ref
from ..lib import SQLParams, Skip, call

QUICK, THOROUGH = 240000, 4000000
RULE = ('batches of 1 to 1100 uniform parameter sets in lists, tuples, deques, one-shot generators, custom iterables, sets and keys of mappings, '
        'mixed container kinds within a batch; the query and sampled rows are compared with format() of the set, all rows with '
        'the reference binding, and the pulls of the iterable are recorded; non-trivial: at least two sets and one parameter')
FLOORS = {'rows compared with format()': 10000, 'rows resolved': 20000, 'one-shot iterables drained': 2000}


class OneShot:
    """An iterable which records how it is consumed."""

    def __init__(self, rows):
        self.rows = rows
        self.iters = 0
        self.pulled = 0

    def __iter__(self):
        self.iters += 1
        return self._gen()

    def _gen(self):
        for r in self.rows:
            self.pulled += 1
            yield r


class OneShotIterator:
    def __init__(self, rows):
        self._it = iter(rows)
        self.pulled = 0
        self.iters = 0

    def __iter__(self):
        self.iters += 1
        return self

    def __next__(self):
        r = next(self._it)
        self.pulled += 1
        return r


class HashMapping(gen.MyMapping):
    """A mapping which can be a member of a set."""
    __hash__ = object.__hash__


class HashList(list):
    __hash__ = object.__hash__
    __eq__ = object.__eq__


class OrderedSet(collections.abc.Set):
    def __init__(self, rows):
        self._d = list(rows)

    def __contains__(self, x):
        return any(x is y for y in self._d)

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)


class OnlyGetItem:
    """Iterable by the protocol of sequences."""

    def __init__(self, rows):
        self._rows = rows

    def __iter__(self):
        return (self._rows[i] for i in range(len(self._rows)))

    def __getitem__(self, i):
        return self._rows[i]


def hashed(rng, rows, sets):
    """The sets of parameters as the members of a set or the keys of a mapping; *rows* is changed in place to what can be that."""
    for i, r in enumerate(rows):
        if isinstance(r, collections.abc.Mapping):
            rows[i] = HashMapping(r)
        elif type(r) is not tuple:
            rows[i] = rng.choice([tuple, HashList])(r)
    try:
        d = dict.fromkeys(rows, ('not', 'a', 'set'))
    except Exception:
        return rows
    if len(d) != len(rows) or any(a is not b for a, b in zip(d, rows)):
        return rows
    k = rng.randrange(6)
    if k == 0 and (sets or len(rows) == 1):
        return rng.choice([set, frozenset])(rows)
    if k == 1:
        return d.keys()
    if k == 2:
        return OrderedSet(rows)
    if k == 3:
        return collections.OrderedDict(d)
    if k == 4:
        return types.MappingProxyType(d)
    return d


def iterable(rng, rows, sets=False):
    if rng.random() < 0.1 and len(rows) <= 300:
        return hashed(rng, rows, sets)
    k = rng.randrange(10)
    if k == 8:
        return rng.choice([gen.MySequence, collections.UserList, gen.ListSub, gen.TupleSub, OnlyGetItem])(rows)
    if k == 9:
        return itertools.chain(rows[:1], rows[1:])
    if k == 0:
        return rows
    if k == 1:
        return tuple(rows)
    if k == 2:
        return collections.deque(rows)
    if k == 3:
        return (r for r in rows)
    if k == 4:
        return dict(enumerate(rows)).values()
    if k == 5:
        return map(lambda r: r, rows)
    if k == 6:
        return OneShot(rows)
    return OneShotIterator(rows)


def count_rows(rng):
    r = rng.random()
    if r < 0.75:
        return rng.randint(1, 5)
    if r < 0.95:
        return rng.randint(6, 40)
    if r < 0.985 and magic.INTS:
        return max(1, rng.choice([i for i in magic.INTS if i <= 1100]))
    return rng.choice([100, 101, 128, 255, 256, 257, 500, 999, 1000, 1001, 1024, 1100])


def probes(ctx):
    # K-CASE: the batch of an Oracle query must spell names as in its first set.
    conv = SQLParams('named_oracle', 'qmark')
    r = call(conv.formatmany, ':n', [{'n': 1}, {'N': 2}])
    judge.probe_known(ctx, 'K-CASE', r[0] != 'ok' or r[1] != ('?', [[1], [2]]), got=r[1])
    # "converting a query without parameters to a numeric style", in batches.
    for i in ref.STYLES:
        for o in ref.STYLES:
            e = {} if ref.kind(i) == 'named' else []
            ctx.calls += 1
            r = call(SQLParams(i, o).formatmany, 'x', [e, e])
            w = {} if ref.kind(o) == 'named' else []
            if r[0] != 'ok' or r[1] != ('x', [w, w]):
                judge.fail('batch without parameters', cfg=(i, o), sql='x', params=[e, e], got=r[1])


def long_batch(rng, ctx):
    """Very many sets, of a few kinds which come again and again."""
    cfg = gen.gen_cfg(rng)
    c = gen.gen_case(rng, cfg, clean=0.6, nparams=rng.randint(1, 4))
    gen.gen_shapes(rng, c, 0.3)
    for r in c.refs:
        if c.sizes[r] and c.sizes[r] > 3:
            c.sizes[r] = rng.randint(1, 3)
    n = magic.long_count(rng)
    keys = gen.oracle_keys(rng, c.refs) if cfg.in_style == 'named_oracle' else None
    k = rng.choice([1, 2, 3, 5])
    rows = [gen.container(rng, cfg, gen.gen_values(rng, c, 0.2), keys=keys, plain=True) for _ in range(k)]
    conv = cfg.make()
    pulled = [0]

    def sets():
        for i in range(n):
            pulled[0] += 1
            yield rows[i % k]
    ctx.calls += 1 + k
    got = judge.expect_ok(call(conv.formatmany, c.sql, sets() if rng.random() < 0.7 else [rows[i % k] for i in range(n)]), c, None)
    out = got[1]
    if type(out) is not list or len(out) != n or pulled[0] not in (0, n):
        judge.fail('%d sets of parameters became %s' % (n, len(out) if hasattr(out, '__len__') else type(out)), c, rows)
    if len(set(map(id, out))) != n:
        judge.fail('two sets share one result object', c, rows)
    ones = [judge.expect_ok(call(conv.format, c.sql, row), c, row) for row in rows]
    if any(o[0] != got[0] for o in ones):
        judge.fail('the query differs from that of format()', c, rows, got[0], one=ones)
    for i, o in enumerate(out):
        if not judge.same_params(ones[i % k][1], o):
            judge.fail('set %d of %d differs from format()' % (i, n), c, rows, o, one=ones[i % k])
    ctx.count('rows of long batches', n)
    ctx.seen('batch sizes', n)
    ctx.nontrivial(hash((gen.sig(c), n)))


def case(rng, ctx):
    if rng.random() < 0.002:
        return long_batch(rng, ctx)
    cfg = gen.gen_cfg(rng)
    c = gen.gen_case(rng, cfg, clean=0.5, collide=rng.random() < 0.005)
    gen.gen_shapes(rng, c, 0.25)
    n = count_rows(rng)
    if n > 50:
        for r in c.refs:
            if c.sizes[r] and c.sizes[r] > 12:
                c.sizes[r] = rng.randint(1, 12)
        if c.npar > 10:
            raise Skip
    keys = gen.oracle_keys(rng, c.refs) if cfg.in_style == 'named_oracle' else None
    rich = rng.choice([0.0, 0.3])
    logicals = [gen.gen_values(rng, c, rich) for _ in range(n)]
    if n > 2 and rng.random() < 0.3:
        logicals[rng.randrange(n)] = logicals[0]
    form = rng.choice([None, None, 'seq', 'int', 'str'])
    rows = [gen.container(rng, cfg, l, keys=keys, form=form) for l in logicals]
    if n > 1 and rng.random() < 0.1:
        k = rng.randrange(1, n)
        rows[k], logicals[k] = rows[0], logicals[0]
    if cfg.in_style == 'named_oracle' and n > 1 and rng.random() < 0.03:
        respell(rng, ctx, cfg, c, keys, logicals, rows)
        return
    it = iterable(rng, rows, True)
    if isinstance(it, (set, frozenset)):
        # In the order in which it iterates.
        place = {id(r): i for i, r in enumerate(rows)}
        order = [place[id(r)] for r in it]
        rows, logicals = [rows[i] for i in order], [logicals[i] for i in order]
    conv = cfg.make()
    ctx.calls += 1
    ctx.seen('iterables', type(it).__name__)
    got = judge.expect_ok(call(conv.formatmany, c.sql, it), c, rows)
    out = got[1]
    if type(out) is not list or len(out) != n:
        judge.fail('%d sets of parameters became %s' % (n, len(out) if hasattr(out, '__len__') else type(out)), c, rows, got)
    if isinstance(it, (OneShot, OneShotIterator)):
        ctx.count('one-shot iterables drained')
        if it.pulled != n or (it.iters > 1 and isinstance(it, OneShot)):
            judge.fail('%d sets, but %d pulled in %d iterations' % (n, it.pulled, it.iters), c, rows, got)
    if len({id(o) for o in out}) != n:
        judge.fail('two sets share one result object', c, rows, got)
    coll = gen.has_tuple_collision(c, logicals[0])
    pick = range(n) if n <= 6 else sorted({0, 1, n - 1} | {rng.randrange(n) for _ in range(4)})
    for i in pick:
        ctx.calls += 1
        one = judge.expect_ok(call(conv.format, c.sql, rows[i]), c, rows[i])
        if one[0] != got[0]:
            judge.fail('the query differs from that of format() on set %d' % i, c, rows, got, one=one)
        if not judge.same_params(one[1], out[i]):
            judge.fail('set %d differs from format()' % i, c, rows, out[i], one=one)
        ctx.count('rows compared with format()')
    keys_walked = None
    for i in range(n):
        if out[i] is rows[i]:
            judge.fail('set %d is returned as it is' % i, c, rows, got)
        if coll:
            continue
        items = judge.items_of(c, logicals[i])
        if keys_walked is None:
            keys_walked, _ = ref.walk(items, cfg.out_style, got[0])
            if keys_walked is None:
                break
        phs = [x for x in items if x[0] == 'ph']
        judge.container_type(c, out[i], rows[i], (got[0], out[i]))
        judge.check_values(c, phs, keys_walked, rows[i], (got[0], out[i]))
        judge.check_exact(c, phs, keys_walked, rows[i], (got[0], out[i]))
        ctx.count('rows resolved')
    ctx.seen('style pairs', (cfg.in_style, cfg.out_style))
    ctx.seen('batch sizes', n)
    if n > 1 and c.npar:
        ctx.nontrivial(hash((gen.sig(c), n)))
    ctx.sample('%r x %d -> %r' % (c.sql, n, got[0]))


def respell(rng, ctx, cfg, c, keys, logicals, rows):
    """Known finding K-CASE: a later set spells an unquoted name differently."""
    n = len(rows)
    k = rng.randrange(1, n)
    keys2 = gen.oracle_keys(rng, c.refs)
    rows[k] = gen.container(rng, cfg, logicals[k], keys=keys2)
    differs = any(keys2[r] != keys[r] for r in c.refs)
    ctx.calls += 1
    r = call(cfg.make().formatmany, c.sql, rows)
    if r[0] == 'exc':
        if differs and isinstance(r[1], KeyError) and ctx.is_known('K-CASE'):
            ctx.count('respelled sets refused (known)')
            return
        judge.fail('the call raised an error', c, rows, r[1])
    one = call(cfg.make().format, c.sql, rows[k])
    if one[0] != 'ok' or not judge.same_params(one[1][1], r[1][1][k]):
        judge.fail('set %d differs from format()' % k, c, rows, r[1])

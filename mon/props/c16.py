"""Every way to pass the same parameters gives the same result."""
import array
import collections
import collections.abc
import enum
import time
import types

from .. import gen, judge, ref
from ..lib import Skip, SQLParams, call

QUICK, THOROUGH = 360000, 6000000
RULE = ('the same logical parameters in every container the documentation admits (sequences, mappings with integer, string '
        'and mixed keys, dict subclasses, proxies, chain maps, user-written Mapping and Sequence classes, tuples, deques, '
        'shuffled orders, keys of subclasses of int and str, unused extra entries); all results must be the same by identity of values; non-trivial: at least '
        'two parameters')
FLOORS = {'containers compared': 80000, 'extra entries ignored': 20000, 'batches of mixed containers': 3000}


def probes(ctx):
    # "an unrelated key of non-decimal digits raised ValueError"
    for i in ref.NUMERIC + ref.ORDINAL:
        for o in ref.STYLES:
            b = 0 if i in ref.ORDINAL else 1
            s = '?' if i == 'qmark' else '%s' if i == 'format' else ref.SIG[i] + '1'
            for key in ('\u00b2', '\u2460', '1\u00b2', '', ' ', 'x', None, 1.5, (1,), b'x', b'', b'1x', b'\xb2', 'x' * 70, '-1', '+1', '1.0', '0x1', '1_0', -7, frozenset()):
                ctx.calls += 1
                r = call(SQLParams(i, o).format, s, {b: 'v', key: 'x'})
                r2 = call(SQLParams(i, o).format, s, {b: 'v'})
                if r[0] != 'ok' or r2[0] != 'ok' or r[1] != r2[1]:
                    judge.fail('the unrelated key %r matters' % (key,), cfg=(i, o), sql=s, got=r[1])
    # Everything which says it is a sequence.
    for i in ref.NUMERIC + ref.ORDINAL:
        for o in ref.STYLES:
            s = {'qmark': '? ?', 'format': '%s %s'}.get(i) or '%s1 %s2' % (ref.SIG[i], ref.SIG[i])
            for p in (range(5, 7), range(6, 4, -1), array.array('i', [5, 6]), array.array('d', [5, 6, 7]), memoryview(bytes([5, 6])), bytearray([5, 6]),
                      gen.Pair(5, 6), time.struct_time(range(5, 14)), collections.deque([5, 6], maxlen=2)):
                if not isinstance(p, collections.abc.Sequence):
                    continue
                for many in (False, True):
                    ctx.calls += 1
                    q = SQLParams(i, o)
                    r = call(q.formatmany, s, [list(p), p, p]) if many else call(q.format, s, p)
                    r2 = call(q.format, s, list(p))
                    if r[0] != 'ok' or r2[0] != 'ok' or r[1] != ((r2[1][0], [r2[1][1]] * 3) if many else r2[1]):
                        judge.fail('the sequence %r is not taken as one' % (p,), cfg=(i, o), sql=s, got=r[1])
    # "an unrelated key which is no string raised TypeError in Oracle style"
    for i in ref.NAMED:
        for o in ref.STYLES:
            s = '%(N)s' if i == 'pyformat' else ref.SIG[i] + 'N'
            for key in (5, 0, None, (), (1,), b'x', b'N', b'', 1.5, frozenset(), '', ' ', 'x y', '%', 'N N', True, ...):
                for first in (True, False):
                    ctx.calls += 1
                    d = {key: 'x', 'N': 'v'} if first else {'N': 'v', key: 'x'}
                    r = call(SQLParams(i, o).format, s, d)
                    r2 = call(SQLParams(i, o).format, s, {'N': 'v'})
                    if r[0] != 'ok' or r2[0] != 'ok' or r[1] != r2[1]:
                        judge.fail('the unrelated key %r matters' % (key,), cfg=(i, o), sql=s, got=r[1])


class Dict(dict):
    pass


class Missing(dict):
    """Without the keys it has, like a dict; __missing__ is only for absent ones."""

    def __missing__(self, k):
        raise KeyError(k)


class SlowMapping(gen.MyMapping):
    """Reports its items in another order each time."""

    def __iter__(self):
        k = list(self._d)
        k.reverse()
        self._d = {x: self._d[x] for x in k}
        return iter(k)


class NegSafe(gen.MySequence):
    """Accepts no negative index and no slice."""

    def __getitem__(self, i):
        if not isinstance(i, int) or i < 0:
            raise IndexError(i)
        return self._s[i]


class ListSub(list):
    pass


Named = {}


class StrEnum(str, enum.Enum):
    """Its members are strings, but print as something else."""


class Loud(str):
    def __str__(self):
        return 'loud'

    __repr__ = __str__


_members = {}


def other_key(rng, key):
    """An equal key of a subclass."""
    if rng.random() < 0.3:
        return key
    t = type(key)
    if t is str:
        k = rng.randrange(3)
        if k == 2:
            if key not in _members:
                if len(_members) > 3000:
                    _members.clear()
                _members[key] = StrEnum('Keys', {'MEMBER': key}).MEMBER
            return _members[key]
        return (gen.Str, Loud)[k](key)
    if t is int:
        if rng.random() < 0.5:
            return gen.Int(key)
        if key not in _members:
            if len(_members) > 3000:
                _members.clear()
            _members[key] = enum.IntEnum('Keys', {'MEMBER': key}).MEMBER
        return _members[key]
    return key


def mappings(d):
    items = list(d.items())
    yield dict(items)
    yield dict(reversed(items))
    yield collections.OrderedDict(items)
    yield types.MappingProxyType(d)
    yield collections.UserDict(d)
    yield collections.ChainMap(dict(items[1::2]), dict(items[::2]))
    yield gen.MyMapping(d)
    yield SlowMapping(d)
    yield Dict(items)
    yield Missing(items)


def sequences(s):
    yield list(s)
    yield tuple(s)
    yield collections.UserList(s)
    yield collections.deque(s)
    yield gen.MySequence(s)
    yield NegSafe(s)
    yield ListSub(s)
    yield gen.TupleSub(s)


def case(rng, ctx):
    cfg = gen.gen_cfg(rng)
    c = gen.gen_case(rng, cfg, clean=0.5)
    gen.gen_shapes(rng, c, 0.25)
    logical = gen.gen_values(rng, c, 0.2)
    conv = cfg.make()
    forms = []
    k = ref.kind(cfg.in_style)
    for _ in range(4):
        extras = rng.random() < 0.5
        if k == 'named':
            d = gen.container(rng, cfg, logical, extras=extras, plain=True)
            if rng.random() < 0.15:
                d = {other_key(rng, key): v for key, v in d.items()}
            forms.append(rng.choice(list(mappings(d))))
        else:
            form = rng.choice(['seq', 'int', 'str', 'mix'])
            x = gen.container(rng, cfg, logical, form=form, extras=extras, plain=True)
            if isinstance(x, dict):
                if rng.random() < 0.25:
                    # A key which is a string of bytes, or padded with zeros.
                    for key in list(x):
                        if isinstance(key, str) and key.isdigit() and rng.random() < 0.5:
                            pad = '0' * rng.choice([0, 0, 1, 2]) + key
                            x[rng.choice([pad.encode(), pad])] = x.pop(key)
                if rng.random() < 0.15:
                    x = {other_key(rng, key): v for key, v in x.items()}
                forms.append(rng.choice(list(mappings(x))))
            else:
                forms.append(rng.choice(list(sequences(x))))
        if extras:
            ctx.count('extra entries ignored')
        ctx.seen('containers', (k, type(forms[-1]).__name__))
    first = None
    for p in forms:
        ctx.calls += 1
        got = judge.expect_ok(call(conv.format, c.sql, p), c, p)
        if first is None:
            first = got
            if not gen.has_tuple_collision(c, logical):
                judge.full(c, logical, p, ('ok', got))
        elif not judge.same_result(first, got):
            judge.fail('two containers of the same parameters differ', c, p, got, first=first, first_params=forms[0])
        ctx.count('containers compared')
    if cfg.in_style == 'named_oracle':
        keys = gen.oracle_keys(rng, c.refs)
        forms = [rng.choice(list(mappings(gen.container(rng, cfg, logical, keys=keys, plain=True)))) for _ in range(3)]
    if rng.random() < 0.4:
        ctx.calls += 1
        got = judge.expect_ok(call(conv.formatmany, c.sql, forms), c, forms)
        if got[0] != first[0] or len(got[1]) != len(forms) or not all(judge.same_params(first[1], x) for x in got[1]):
            judge.fail('a batch of several containers of the same parameters differs', c, forms, got, first=first)
        ctx.count('batches of mixed containers')
    ctx.seen('style pairs', (cfg.in_style, cfg.out_style))
    if len(c.refs) > 1:
        ctx.nontrivial(gen.sig(c))
    ctx.sample('%r %r -> %r' % (c.sql, [type(f).__name__ for f in forms], first))

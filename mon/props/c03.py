"""Parameter values never reach or influence the query."""
from .. import gen, judge, ref
from ..lib import call

QUICK, THOROUGH = 520000, 9000000
RULE = ('each query is converted with hostile values which record being rendered, iterated, measured or copied, and again '
        'with values of the same shapes drawn from placeholder-like strings, containers, None, numbers; the queries must '
        'be equal and the values passed on by identity; non-trivial: at least one scalar value')
FLOORS = {'hostile values passed': 20000, 'query pairs compared': 20000}
ASSUMPTIONS = ['only whether a value is a tuple, and its size, may influence the query']

TOUCHED = []


def _rec(name, result):
    def method(self, *a, **k):
        TOUCHED.append(name)
        return result() if callable(result) else result
    method.__name__ = name
    return method


class Hostile:
    """A value which records what is done to it."""


for _n, _r in [('__str__', ':hostile ?'), ('__repr__', ':hostile ?'), ('__format__', ':hostile ?'),
               ('__bytes__', b':hostile'), ('__len__', 2), ('__iter__', lambda: iter((1, 2))), ('__getitem__', 1),
               ('__int__', 1), ('__float__', 1.0), ('__index__', 1), ('__copy__', None), ('__deepcopy__', None),
               ('__reduce_ex__', lambda: (int, ())), ('__add__', ''), ('__radd__', ''), ('__mod__', ''), ('__rmod__', ''),
               ('__contains__', True), ('__call__', 1), ('__enter__', None), ('__fspath__', '/x'), ('__next__', 1),
               ('__bool__', False), ('__eq__', True), ('__ne__', False), ('__hash__', 1), ('__lt__', True), ('__gt__', True)]:
    setattr(Hostile, _n, _rec(_n, _r))
for _n in ('__le__', '__ge__', '__mul__', '__rmul__', '__sub__', '__rsub__', '__iadd__', '__and__', '__or__', '__ror__', '__neg__', '__pos__', '__invert__', '__abs__',
           '__complex__', '__round__', '__trunc__', '__reversed__', '__length_hint__', '__reduce__', '__getstate__', '__dir__', '__sizeof__', '__exit__',
           '__await__', '__aiter__', '__setitem__', '__delitem__', '__get__', '__setattr__', '__delattr__', '__missing__'):
    setattr(Hostile, _n, _rec(_n, 1))


def _attribute(self, name):
    # Every isinstance() asks for the class.
    if name != '__class__':
        TOUCHED.append('attribute ' + name)
        if name.startswith('__'):
            return object.__getattribute__(self, name)
    else:
        return object.__getattribute__(self, name)
    return lambda *a, **k: ':hostile ?'


Hostile.__getattribute__ = _attribute


def hostile_like(case):
    out = {}
    for r in case.refs:
        n = case.sizes[r]
        out[r] = Hostile() if n is None else tuple(Hostile() for _ in range(n))
    return out


def case(rng, ctx):
    cfg = gen.gen_cfg(rng)
    c = gen.gen_case(rng, cfg, clean=0.4)
    gen.gen_shapes(rng, c)
    keys = gen.oracle_keys(rng, c.refs) if cfg.in_style == 'named_oracle' else None
    conv = cfg.make()
    a = hostile_like(c)
    b = gen.gen_values(rng, c, 1.0)
    many = rng.random() < 0.3
    a2 = hostile_like(c) if many else None
    pa = gen.container(rng, cfg, a, keys=keys, extras=False)
    pa2 = gen.container(rng, cfg, a2, keys=keys, extras=False) if many else None
    pb = gen.container(rng, cfg, b, keys=keys, extras=False)
    del TOUCHED[:]
    ctx.calls += 2
    if many:
        ra = call(conv.formatmany, c.sql, [pa, pa2, pa])
    else:
        ra = call(conv.format, c.sql, pa)
    touched = list(TOUCHED)
    if ra[0] != 'ok':
        judge.fail('the call raised an error', c, None, type(ra[1]).__name__)
    if touched:
        judge.fail('values were inspected: %s' % sorted(set(touched)), c, None, None)
    pairs = [(a, [ra[1][1][0], ra[1][1][2]], ra[1][0]), (a2, [ra[1][1][1]], ra[1][0])] if many else [(a, [ra[1][1]], ra[1][0])]
    for values, row, out in judge.observe(rng, ctx, c, b, pb, keys=keys, conv=conv, rich=1.0):
        rb = judge.expect_ok(out, c, row)
        pairs.append((values, [rb[1]], rb[0]))
        if ra[1][0] != rb[0]:
            judge.fail('the query depends on the values', c, row, rb[0], other=ra[1][0])
    if not gen.has_tuple_collision(c, a):
        for logical, rows, q in pairs:
            items = judge.items_of(c, logical)
            k, _ = ref.walk(items, cfg.out_style, q)
            phs = [i for i in items if i[0] == 'ph']
            if k is None:
                continue
            for row in rows:
                for pos, (it, key) in enumerate(zip(phs, k)):
                    try:
                        v = ref.lookup_out(cfg.out_style, key, row, pos)
                    except LookupError:
                        judge.fail('a value is lost', c, None, q)
                    if v is not it[1]:
                        judge.fail('a value of type %s was replaced' % type(it[1]).__name__, c, None, q)
                    ctx.count('values identical')
    n = sum(1 if s is None else s for s in c.sizes.values())
    ctx.count('hostile values passed', n)
    ctx.count('query pairs compared')
    if n:
        ctx.nontrivial(gen.sig(c))
    ctx.sample('%r %r -> %r' % (c.sql, pb, rb[0]))

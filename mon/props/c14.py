"""Instances can be used again and again, and calls have no side effects."""
import copy
import gc
import sys
import weakref

import sqlparams

from .. import gen, judge, ref
from ..lib import REPO, SQLParams, Skip, call

QUICK, THOROUGH = 30000, 700000
LEVEL = 'exploration'
RULE = ('histories of 6 to 40 calls over a pool of shared instances and a pool of few queries with changing shapes and values: '
        'format, formatmany, bytes, attribute reads, calls which fail, calls aborted by an exception injected at a random '
        'executed line of the library, callers which raise or call back from their containers, and callers which vandalise '
        'results afterwards; after every call its result is compared with a fresh instance and with the reference, and inputs '
        'and module state with snapshots; non-trivial: every history')
FLOORS = {'calls compared with a fresh instance': 40000, 'failing calls': 3000, 'aborted by injection': 1500,
          'results vandalised': 5000, 'reentrant calls': 500, 'earlier results rechecked': 3000}
ASSUMPTIONS = ['faults are injected at line boundaries of the library and in the caller\'s own containers']
NO_COVERAGE = True


class Boom(Exception):
    pass


class Injector:
    """Raises Boom at the k-th line event in the library on this thread."""

    def __init__(self, k):
        self.k = k
        self.n = 0
        self.fired = False
        self.where = None

    def glob(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(REPO + '/sqlparams'):
            return self.loc
        return None

    def loc(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            if self.n == self.k:
                self.fired = True
                self.where = (frame.f_code.co_filename.rsplit('/', 1)[1], frame.f_lineno)
                raise Boom('injected')
        return self.loc

    def run(self, fn, *a):
        sys.settrace(self.glob)
        try:
            return call(fn, *a)
        finally:
            sys.settrace(None)


class Evil(gen.MyMapping):
    """A mapping which runs code of the caller at each look-up."""

    def __init__(self, d, hook):
        super().__init__(d)
        self._hook = hook

    def __getitem__(self, k):
        self._hook()
        return super().__getitem__(k)


class EvilSeq(gen.MySequence):
    def __init__(self, s, hook):
        super().__init__(s)
        self._hook = hook

    def __getitem__(self, i):
        self._hook()
        return super().__getitem__(i)


def freeze(p):
    """A snapshot of a container: its entries by identity."""
    if hasattr(p, 'keys'):
        return [(k, id(p[k])) for k in p]
    return [id(v) for v in p]


def vandalise(rng, out):
    if isinstance(out, dict):
        k = rng.randrange(3)
        if k == 0:
            out.clear()
        elif k == 1:
            for x in list(out):
                out[x] = 'vandal'
        out['vandal'] = 1
    elif isinstance(out, list):
        for x in out:
            if isinstance(x, (dict, list)) and rng.random() < 0.7:
                vandalise(rng, x)
        k = rng.randrange(3)
        if k == 0:
            out.clear()
        elif k == 1:
            out[:] = ['vandal'] * len(out)
        else:
            out.append('vandal')


def module_state():
    """The documented constants, and the plain attributes which the styles had at first (others may be made when they are needed)."""
    global FIELDS
    s = sqlparams._styles.STYLES if hasattr(sqlparams, '_styles') and hasattr(sqlparams._styles, 'STYLES') else {}
    if FIELDS is None:
        FIELDS = {k: [a for a, b in getattr(v, '__dict__', {}).items() if isinstance(b, (str, int, type(None)))] for k, v in s.items()}
    return (repr(sqlparams.DEFAULT_COMMENTS), [k for k in FIELDS if k in s],
            [(k, [(a, repr(getattr(s.get(k), a, '<deleted>'))) for a in f]) for k, f in FIELDS.items()])


FIELDS = None


def attrs(conv):
    return (conv.in_style, conv.out_style, conv.escape_char, conv.expand_tuples, repr(conv.strip_comments), repr(conv))


STATE = None


def setup(ctx):
    global STATE
    STATE = module_state()


def pool(rng):
    """A few instances, related to each other, and a few queries."""
    cfgs = [gen.gen_cfg(rng)]
    for _ in range(rng.randint(0, 3)):
        b = rng.choice(cfgs)
        r = rng.random()
        if r < 0.3:
            cfgs.append(gen.Cfg(b.in_style, b.out_style, rng.choice([None, True, '!']), rng.choice([None, True, False]),
                                rng.choice([None, True, ['#']]), rng.choice([None, True])))
        elif r < 0.5:
            cfgs.append(gen.Cfg(b.in_style, rng.choice(ref.STYLES), b.escape, b.expand, b.strip, b.outq))
        elif r < 0.65:
            cfgs.append(gen.Cfg(b.in_style, b.out_style, b.escape, b.expand, b.strip, b.outq))
        else:
            cfgs.append(gen.gen_cfg(rng))
    return cfgs


def judge_ok(rng, ctx, case, logicals, rows, out, many):
    got = judge.expect_ok(out, case, rows)
    outs = got[1] if many else [got[1]]
    if len(outs) != len(logicals):
        judge.fail('%d sets became %d' % (len(logicals), len(outs)), case, rows, got)
    if gen.has_tuple_collision(case, logicals[0]):
        return got
    keys = None
    for l, o in zip(logicals, outs):
        items = judge.items_of(case, l)
        if keys is None:
            keys = judge.check_text(case, items, rows, got)
        phs = [i for i in items if i[0] == 'ph']
        judge.container_type(case, o, rows, got)
        judge.check_values(case, phs, keys, rows, (got[0], o))
        judge.check_exact(case, phs, keys, rows, (got[0], o))
    return got


def case(rng, ctx):
    cfgs = pool(rng)
    convs = [c.make() for c in cfgs]
    before = [attrs(c) for c in convs]
    cases = []
    for cfg in cfgs:
        for _ in range(rng.randint(1, 2)):
            try:
                c = gen.gen_case(rng, cfg, clean=0.5, nparams=rng.choice([1, 2, 3, 4, 6]))
            except Skip:
                continue
            cases.append((len(cases), c))
            # Queries which resemble it.
            for _ in range(rng.choice([0, 0, 1, 2])):
                v = resembling(rng, c.sql)
                c2 = gen.analyse(cfg, v)
                if c2 is not None and not (cfg.in_style in ref.NUMERIC and (0 in c2.refs or max(c2.refs, default=0) > 500)):
                    cases.append((len(cases), c2))
            # The very same text for the related instances.
            for j, other in enumerate(cfgs):
                if other.in_style == cfg.in_style and other is not cfg:
                    c2 = gen.analyse(other, c.sql)
                    if c2 is not None and not (other.in_style in ref.NUMERIC and 0 in c2.refs):
                        cases.append((len(cases), c2))
    if not cases:
        raise Skip
    conv_of = {id(cfg): conv for cfg, conv in zip(cfgs, convs)}
    trail = []
    kept = []
    long = rng.random() < 0.012
    if long:
        ctx.count('long histories')
    few = cases[:2]
    for step in range(rng.choice([150, 300, 600, 1100, 2300]) if long else rng.randint(6, 40)):
        _, c = rng.choice(cases)
        if long and rng.random() < 0.8:
            _, c = rng.choice(few)
            if rng.random() < 0.3:
                # Ever new queries.
                c2 = gen.analyse(c.cfg, c.sql + ' -%d' % step)
                c = c2 or c
        cfg = c.cfg
        if rng.random() < 0.06:
            # An instance goes and another one of other settings comes, maybe at its address.
            other = rng.choice(cfgs)
            conv_of[id(other)] = None
            j = [x is other for x in cfgs].index(True)
            convs[j] = None
            tmp = gen.gen_cfg(rng).make()
            convs[j] = conv_of[id(other)] = other.make()
            del tmp
            trail.append('instance %d renewed' % j)
            ctx.count('instances renewed')
        conv = conv_of[id(cfg)]
        c = copy.copy(c)
        gen.gen_shapes(rng, c, rng.choice([0.0, 0.3, 0.8]))
        for r in c.refs:
            if c.sizes[r] is not None and c.sizes[r] > 6:
                c.sizes[r] = rng.randint(0, 6)
        many = rng.random() < 0.35
        keys = gen.oracle_keys(rng, c.refs) if cfg.in_style == 'named_oracle' else None
        n = rng.randint(1, 4) if many else 1
        logicals = [gen.gen_values(rng, c, 0.2) for _ in range(n)]
        plain = [gen.container(rng, cfg, l, keys=keys) for l in logicals]
        fn = conv.formatmany if many else conv.format
        arg = plain if many else plain[0]
        kind = rng.random()
        snap = [freeze(p) for p in plain]
        if kind < 0.1:
            # A call which fails.
            bad = rng.choice([None, 3, 'x', [], {}, [None], object()])
            ctx.calls += 1
            call(fn, c.sql if rng.random() < 0.8 else 7, bad)
            ctx.count('failing calls')
            trail.append('failing %s(%r, %r)' % ('formatmany' if many else 'format', c.sql, bad))
            continue
        if kind < 0.16 and many and n > 1 and c.npar:
            # A batch which fails in its last set, or whose iterable raises.
            def rows():
                yield from plain
                raise Boom('iterable')
            ctx.calls += 1
            r = call(conv.formatmany, c.sql, rows())
            if r[0] == 'ok' or not isinstance(r[1], Boom):
                judge.fail('an error of the iterable of sets is swallowed', c, plain, r[1], trail=trail)
            ctx.count('failing calls')
            trail.append('formatmany(%r) with a raising iterable' % c.sql)
            continue
        if kind < 0.26:
            # Aborted in the middle of the library.
            inj = Injector(rng.choice([rng.randint(1, 12), rng.randint(1, 60), rng.randint(1, 400)]))
            ctx.calls += 1
            r = inj.run(fn, c.sql, arg)
            if inj.fired:
                ctx.count('aborted by injection')
                ctx.seen('lines aborted at', inj.where)
                if r[0] == 'ok':
                    ctx.count('injected errors absorbed')
            trail.append('%s(%r, %r) aborted at %r' % (fn.__name__, c.sql, arg, inj.where))
            if [freeze(p) for p in plain] != snap:
                judge.fail('an aborted call changed its input', c, plain, None, trail=trail)
            continue
        if kind < 0.36 and c.npar:
            # Look-ups of the caller's container raise, or call back.
            state = {'left': rng.randint(1, 4), 'deep': 0}
            raising = rng.random() < 0.4
            inner = []

            def hook():
                if raising:
                    state['left'] -= 1
                    if state['left'] == 0:
                        raise Boom('container')
                elif state['deep'] == 0 and rng.random() < 0.5:
                    state['deep'] = 1
                    try:
                        _, d = rng.choice(cases)
                        d = copy.copy(d)
                        gen.gen_shapes(rng, d, 0.3)
                        for x in d.refs:
                            if d.sizes[x]:
                                d.sizes[x] = min(d.sizes[x], 5)
                        l = gen.gen_values(rng, d, 0.2)
                        p = gen.container(rng, d.cfg, l, plain=True)
                        inner.append((d, l, p, call(conv_of[id(d.cfg)].format, d.sql, p)))
                    finally:
                        state['deep'] = 0
            evil = [Evil(p, hook) if hasattr(p, 'keys') else EvilSeq(p, hook) for p in plain]
            ctx.calls += 1
            if many and rng.random() < 0.4:
                # The batch itself raises, or calls back, between its sets.
                def pulled(rows):
                    for p in rows:
                        hook()
                        yield p
                evil = pulled(evil if rng.random() < 0.5 else plain)
            r = call(fn, c.sql, evil if many else evil[0])
            trail.append('%s(%r, %r) %s' % (fn.__name__, c.sql, arg, 'raising' if raising else 'reentrant'))
            for d, l, p, o in inner:
                judge_ok(rng, ctx, d, [l], p, o, False)
                ctx.count('reentrant calls')
            if r[0] == 'exc' and isinstance(r[1], Boom) and raising and state['left'] <= 0:
                ctx.count('failing calls')
                continue
            if r[0] == 'ok' and raising and state['left'] <= 0:
                judge.fail('an error of the container is swallowed', c, plain, r[1], trail=trail)
            judge_ok(rng, ctx, c, logicals, plain, r, many)
            continue
        sql = c.sql
        asbytes = rng.random() < 0.12 and sql.isascii() and cfg.in_style != 'named_oracle' and repr(cfg.esc).isascii()
        ctx.calls += 2
        if asbytes:
            r = call(fn, sql.encode(), arg)
            r2 = call(getattr(cfg.make(), fn.__name__), sql.encode(), arg)
            if r[0] == 'ok':
                r = ('ok', (r[1][0].decode('latin1'), r[1][1]))
            if r2[0] == 'ok':
                r2 = ('ok', (r2[1][0].decode('latin1'), r2[1][1]))
        else:
            r = call(fn, sql, arg)
            r2 = call(getattr(cfg.make(), fn.__name__), sql, arg)
        trail.append('%s.%s(%r, %r)' % (cfg, fn.__name__, sql, arg))
        try:
            got = judge_ok(rng, ctx, c, logicals, arg, r, many)
        except judge.Violation as v:
            v.args[0]['trail'] = [judge.clip(t, 300) for t in trail[-12:]]
            raise
        fresh = judge.expect_ok(r2, c, arg)
        eq = judge.same_result(got, fresh) if not many else (
            got[0] == fresh[0] and len(got[1]) == len(fresh[1]) and all(map(judge.same_params, got[1], fresh[1])))
        if not eq:
            judge.fail('the used instance and a fresh one differ', c, arg, got, fresh=fresh, trail=trail)
        if [freeze(p) for p in plain] != snap:
            judge.fail('the call changed its input', c, plain, got, trail=trail)
        ctx.count('calls compared with a fresh instance')
        if got[1] is fresh[1] or any(got[1] is p for p in plain):
            judge.fail('a result object is shared', c, arg, got, trail=trail)
        # Earlier results must not change by later calls.
        if kept and rng.random() < 0.3:
            kr, ks = rng.choice(kept)
            if freeze(kr) != ks:
                judge.fail('an earlier result was changed by later calls', c, arg, kr, trail=trail)
            ctx.count('earlier results rechecked')
        if rng.random() < 0.4:
            vandalise(rng, got[1])
            ctx.count('results vandalised')
        elif not many:
            kept.append((got[1], freeze(got[1])))
        if rng.random() < 0.1:
            # The caller may also change its own containers afterwards.
            for p in plain:
                if isinstance(p, dict):
                    p.clear()
                elif isinstance(p, list):
                    p[:] = ['changed'] * len(p)
            if kept and kept[-1][0] is got[1] and freeze(got[1]) != kept[-1][1]:
                judge.fail('the result follows its input', c, arg, got, trail=trail)
    if [attrs(c) for c in convs] != before:
        judge.fail('the attributes of an instance changed', cases[0][1], None, [attrs(c) for c in convs], before=before, trail=trail)
    if rng.random() < 0.2:
        if module_state() != STATE:
            judge.fail('the module changed', cases[0][1], None, module_state(), before=STATE, trail=trail)
        ctx.count('module state compared')
    if rng.random() < 0.02:
        released(rng, ctx, cases)
    ctx.nontrivial(hash(tuple(trail)))
    ctx.count('histories')
    ctx.sample(' ; '.join(t[:120] for t in trail[:4]))


def resembling(rng, sql):
    """Another query of the same length, start, end or letters."""
    k = rng.randrange(6)
    if not sql:
        return ' '
    i = rng.randrange(len(sql))
    if k == 0:
        return sql[:i] + rng.choice('abxyAB_019 :$@%?,()') + sql[i + 1:]
    if k == 1:
        return sql + rng.choice(' ;x)\n')
    if k == 2:
        return rng.choice(' (\n') + sql
    if k == 3:
        return sql.swapcase()
    if k == 4:
        return sql.strip()
    j = rng.randrange(len(sql))
    a, b = min(i, j), max(i, j)
    return sql[:a] + sql[b:b + 1] + sql[a + 1:b] + sql[a:a + 1] + sql[b + 1:] if a < b else sql


class Big:
    pass


def released(rng, ctx, cases):
    """Values are not kept alive once the caller has dropped the result."""
    _, c = rng.choice(cases)
    vals = {r: Big() for r in c.refs}
    refs = [weakref.ref(v) for v in vals.values()]
    p = gen.container(rng, c.cfg, vals, plain=True, extras=False)
    conv = c.cfg.make()
    how = rng.randrange(4)
    if how == 0:
        r = call(conv.format, c.sql, p)
    elif how == 1:
        r = call(conv.formatmany, c.sql, [p] * rng.randint(1, 3))
    elif how == 2:
        # A failing call keeps nothing, either.
        broken = {k: v for k, v in p.items() if v is not vals[c.refs[-1]]} if isinstance(p, dict) and c.refs else p
        r = call(conv.format, c.sql, broken)
        del broken
    else:
        r = call(conv.formatmany, c.sql, [p, p, 5])
    vals.clear()
    del p, r
    if any(w() is not None for w in refs):
        gc.collect()
    if any(w() is not None for w in refs):
        judge.fail('values are kept alive after the %s was dropped' % ('result' if how < 2 else 'error'), c, None, None)
    ctx.count('values released', len(refs))
    ctx.seen('values released after', ('format', 'formatmany', 'format which fails', 'formatmany which fails')[how])
    del conv

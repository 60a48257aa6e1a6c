"""End to end: a real database answers as if the values had been written into the query."""
import re
import sqlite3
import warnings

from .. import gen, judge, magic, ref
from ..lib import Skip, call

QUICK, THOROUGH = 320000, 5000000
RULE = ('SELECT and INSERT statements over a small table are converted from every style to every style and executed by '
        'SQLite (named styles by name, numeric ones by number, percent styles rendered by Python\'s % with quoted values, as their '
        'drivers do); the rows must be those of the same statement with its values written in as literals; non-trivial: at '
        'least one parameter')
FLOORS = {'queries executed': 6000, 'rows compared': 6000, 'batches executed': 1000, 'hostile strings stored or compared': 3000}
ASSUMPTIONS = ['SQLite %s is the judge' % sqlite3.sqlite_version]

HOSTILE = ["'; DROP TABLE t; --", "' OR '1'='1", ':1', '?', '%s', '%(name)s', '@p', '$1', '%', '%%', "''", '"', '\\', "\\'",
           '/* x */', '-- x', 'é日本', '', ' ', 'NULL', '(NULL)', "a'b", 'Anna', 'Bob', ':name', '::', '%d', '{}', '\n', 'x\ty']
PIECES = ['\x00', ' ', '\t', '\n', '\r', '\x1a', '\x08', 'a', 'B', '1', "'", '"', '\\', '%', '?', ':x', '$1', '@p', '%s', 'é', 'İ', 'ß',
          'e\u0301', '\u00e9', '\u200b', '\ufeff', '\U0001f40d', '\x7f', '\x85', '\u2028', '--', '/*', '*/', ';', '{', '}', '0', '-', '.']
ROWS = [(1, 'Anna', 30, None), (2, 'Bob', 41, 1.5), (3, "O'Neil", 30, 2.5), (4, '100%', None, -1.0), (5, '?', 55, 0.0), (6, ':1', 7, 3.25)]
DB = None


def setup(ctx):
    warnings.simplefilter('ignore', DeprecationWarning)


def db():
    global DB
    if DB is None:
        DB = sqlite3.connect(':memory:', isolation_level=None)
    DB.execute('DROP TABLE IF EXISTS t')
    DB.execute('CREATE TABLE t (id INTEGER, name TEXT, age INTEGER, score REAL)')
    DB.executemany('INSERT INTO t VALUES (?, ?, ?, ?)', ROWS)
    return DB


def literal(v):
    if v is None:
        return 'NULL'
    if isinstance(v, bool):
        return '1' if v else '0'
    if isinstance(v, (int, float)):
        return repr(v)
    if isinstance(v, bytes):
        return "X'%s'" % v.hex()
    if '\x00' in v:
        return "CAST(X'%s' AS TEXT)" % v.encode().hex()
    return "'%s'" % v.replace("'", "''")


def execute(d, style, sql, params, many=False):
    """As a driver of the style would."""
    if style in ref.PERCENT:
        q = lambda p: {k: literal(v) for k, v in p.items()} if isinstance(p, dict) else tuple(map(literal, p))
        if many:
            return [d.execute(sql % q(p)).fetchall() for p in params]
        return d.execute(sql % q(params)).fetchall()
    if style in ref.NUMERIC:
        w = lambda p: {str(i): v for i, v in enumerate(p, 1)}
    else:
        w = lambda p: p
    if many:
        d.executemany(sql, [w(p) for p in params])
        return []
    return d.execute(sql, w(params)).fetchall()


def value(rng, ctx):
    k = rng.randrange(8)
    if k <= 3:
        ctx.count('hostile strings stored or compared')
        r = rng.random()
        if r < 0.6:
            return rng.choice(HOSTILE)
        if r < 0.7:
            return rng.choice(ROWS)[1]
        if r < 0.95:
            s = ''.join(rng.choice(PIECES) for _ in range(rng.randint(1, 7)))
            return s if r < 0.9 else s.encode()
        n = rng.choice([33, 65, 129, 256, 257, 1025, 4097, 9000]) if not magic.INTS or rng.random() < 0.7 else rng.choice(magic.INTS)
        s = rng.choice(PIECES) + rng.choice(["x", "'", '%', ':a '])
        return s * (n // len(s) + 1)
    if k == 4:
        return rng.choice([None, True, False])
    if k == 5:
        return rng.choice([1.5, -1.0, 0.0, 2.25, 1e100, 0.1, -1e-9])
    if k == 6:
        return rng.choice([b'', b'\x00\xff', b"'"])
    return rng.choice([0, 1, 2, 3, 5, 30, 41, -7, 2 ** 40])


EXPRS = ['name = {}', 'id = {}', 'age > {}', 'id IN {t}', 'name IN {t}', 'id NOT IN {t}', 'name || {} = name', 'coalesce({}, id) = id',
         'score <= {}', "name LIKE '%' || {}", "name LIKE '%n%' AND id <> {}", "name <> ':x ? $1 @p' AND age = {}", 'id % 2 = {}',
         "name <> '100%' OR name = {}", '{} IS NULL', 'id BETWEEN {} AND {}', "name <> '%s' AND id < {}", "'12:30' < {}", "name <> 'it''s' OR id = {}"]


BATCHES = ['INSERT INTO t (id, name, age, score) VALUES ({}, {}, {}, {})'] * 3 + [
    'INSERT INTO t (id, name, age, score) VALUES {t4}', 'INSERT INTO t (id, name, age, score) VALUES {t4}',
    'INSERT INTO t (id, name, age, score) VALUES ({}, {}, {} IN {t}, {})',
    'UPDATE t SET name = {}, age = {} WHERE id IN {t}', "UPDATE t SET name = name || {} WHERE name IN {t} OR age = {}",
    'DELETE FROM t WHERE id IN {t} OR name = {}', 'DELETE FROM t WHERE name NOT IN {t} AND id > {}']


def case(rng, ctx):
    outs = ref.STYLES
    cfg = gen.gen_cfg(rng, outs=outs, escape=None, expand=True, strip=rng.choice([None, None, True]), outq=None)
    s = ref.SIG[cfg.in_style]
    names = gen.gen_numbers(rng) if cfg.in_style in ref.NUMERIC else [
        x for x in gen.gen_names(rng) if x.isascii() and 'sqlp' not in x]
    if not names:
        raise Skip
    # One value per reference, of a fixed shape: "n" names are scalars, tuples apart.
    half = max(1, len(names) // 2)
    scal, tups = names[:half], names[half:]
    toks = []

    def param(is_tuple):
        pool = (tups or None) if is_tuple else scal
        if pool is None:
            return None
        return gen.param_text(rng, cfg.in_style, pool)

    many = rng.random() < 0.2
    parts = []
    shapes = []
    nexp = rng.randint(1, 5)
    if many:
        # Batches change the table: a row of scalars, a tuple as the row, or conditions.
        batch = rng.choice(BATCHES)
        for e in re.split(r'(\{t?4?\})', batch):
            if e in ('{}', '{t}', '{t4}'):
                parts.append(('P', e != '{}'))
            else:
                parts.append(e)
    else:
        parts.append('SELECT id, name, ')
        parts.append(('P', False))
        # Every expression is a column, or all make a condition.
        columns = rng.random() < 0.6
        parts.append(', ' if columns else ', age FROM t WHERE ')
        for i in range(nexp):
            if i:
                parts.append(', ' if columns else rng.choice([' AND ', ' OR ']))
            e = rng.choice(EXPRS)
            while e:
                a, b = e.find('{}'), e.find('{t}')
                hits = [x for x in (a, b) if x >= 0]
                if not hits:
                    parts.append(e)
                    break
                x = min(hits)
                parts.append(e[:x])
                parts.append(('P', x == b))
                e = e[x + (3 if x == b else 2):]
        parts.append(' FROM t ORDER BY rowid' if columns else ' ORDER BY id')
        if rng.random() < 0.2:
            parts.append('\n-- the end: :x ? %s\n')
    text = []
    ordinal = ref.kind(cfg.in_style) == 'ordinal'
    for p in parts:
        if isinstance(p, tuple):
            raw = param(p[1])
            if raw is None:
                if p[1]:
                    text.append('(1, 2)')
                    continue
                raw = param(False)
            text.append((raw, p[1]))
            shapes.append(p[1])
        else:
            # Literal text which the in-style or the driver would read as a parameter is not used.
            if (s in p and not (s == '%' and False)) or (cfg.out_style not in ref.PERCENT and ref.SIG[cfg.out_style] in p):
                p2 = p
                for ch in {s, ref.SIG[cfg.out_style]} - ({'%'} if cfg.in_style not in ref.PERCENT else set()):
                    p2 = p2.replace(ch, '')
                p = p2.replace('id  2', 'id - 2')
            text.append(p)
    sql = ''.join(x if isinstance(x, str) else x[0] for x in text)
    c = gen.analyse(cfg, sql)
    if c is None or (cfg.in_style in ref.NUMERIC and 0 in c.refs) or c.npar != len(shapes):
        raise Skip
    refs = [t[2] for t in c.toks if t[0] == 'par']
    if ordinal:
        refs = list(range(len(refs)))
    shape = {}
    for r, t in zip(refs, shapes):
        if shape.setdefault(r, t) != t:
            raise Skip
    c.sizes = {r: ((4 if many and 'S {t4}' in batch else rng.choice([0, 1, 2, 3, 12])) if t else None) for r, t in shape.items()}
    fix = {}

    def values():
        return {r: value(rng, ctx) if c.sizes[r] is None else tuple(value(rng, ctx) for _ in range(c.sizes[r])) for r in c.refs}

    n = rng.randint(1, 4) if many else 1
    logicals = [values() for _ in range(n)]
    if many and cfg.in_style == 'named_oracle':
        keys = gen.oracle_keys(rng, c.refs)
    else:
        keys = None
    rows = [gen.container(rng, cfg, l, keys=keys) for l in logicals]
    conv = cfg.make()
    ctx.calls += 1
    got = judge.expect_ok(call(conv.formatmany, c.sql, rows) if many else call(conv.format, c.sql, rows[0]), c, rows)

    def inlined(l):
        it = iter(refs)
        out = []
        for t in text:
            if isinstance(t, str):
                out.append(t.replace('%%', '%') if cfg.in_style in ref.PERCENT else t)
                continue
            v = l[next(it)]
            if isinstance(v, tuple):
                out.append('(%s)' % (','.join(map(literal, v)) or 'NULL'))
            else:
                out.append(literal(v))
        return ''.join(out)

    d = db()
    try:
        want = [d.execute(inlined(l)).fetchall() for l in logicals]
        want_t = d.execute('SELECT * FROM t ORDER BY rowid').fetchall()
    except sqlite3.Error as e:
        raise Skip from e
    d = db()
    try:
        have = execute(d, cfg.out_style, got[0], got[1], many)
    except (sqlite3.Error, TypeError, ValueError, KeyError) as e:
        judge.fail('the database refuses the converted query: %r' % e, c, rows, got)
    have_t = d.execute('SELECT * FROM t ORDER BY rowid').fetchall()
    if not many and repr(have) != repr(want[0]):
        judge.fail('the database answers differently', c, rows, got, have=have, want=want[0], inlined=inlined(logicals[0]))
    if repr(have_t) != repr(want_t):
        judge.fail('the table differs afterwards', c, rows, got, have=have_t, want=want_t)
    ctx.count('batches executed' if many else 'queries executed')
    ctx.count('rows compared', len(have) + len(have_t) - (0 if many else len(ROWS)))
    ctx.seen('style pairs', (cfg.in_style, cfg.out_style))
    ctx.nontrivial(gen.sig(c))
    ctx.sample('%r %r -> %r: %r' % (c.sql, rows, got[0], have))

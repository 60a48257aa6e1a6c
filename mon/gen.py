"""Workload generators. Every random choice comes from the case's own PRNG."""
import array
import collections
import collections.abc
import dataclasses
import datetime
import decimal
import enum
import fractions
import io
import ipaddress
import pathlib
import re
import sqlite3
import types
import uuid
import weakref

from . import magic, ref
from .lib import SQLParams, Skip

# ---------------------------------------------------------------- values


class Val:
    """An opaque parameter value, compared by identity only."""
    __slots__ = ('uid',)

    def __init__(self, uid):
        self.uid = uid

    def __repr__(self):
        return 'V%s' % self.uid


class TupleSub(tuple):
    pass


Pair = collections.namedtuple('Pair', 'x y')

PLACEHOLDERISH = ['?', '%s', ':1', '$1', ':name', '%(name)s', '@p', ':"a"', '%%', '::', '??',
                  "'; DROP TABLE users; --", '/* x */', '-- c', '\\', '{}', '{param}', '\\1', '',
                  '(NULL)', 'NULL', '\x00', 'é', '?,?', '(?,?)']


class Colour(enum.Enum):
    RED = 'red'


class Level(enum.IntEnum):
    LOW = 1


class Str(str):
    """A string with attributes."""


class Int(int):
    pass


class ListSub(list):
    pass


class DictSub(dict):
    pass


@dataclasses.dataclass
class Record:
    value: int


class Rich:
    """An object which answers to most of what a converter might try."""
    value, name, id, values, items, key = 1, 'n', 2, (1, 2), {'a': 1}, 'k'

    def __init__(self, uid):
        self.uid = uid

    def __str__(self):
        return ':rich ?'

    __repr__ = __str__

    def __call__(self):
        return 'called'

    def __iter__(self):
        return iter((1, 2))

    def __len__(self):
        return 2

    def __getitem__(self, i):
        return (1, 2)[i]

    def isoformat(self, *a):
        return '2020-01-01'

    as_sql = sql = to_sql = getvalue = read = tolist = keys = item = hex = __html__ = __sql__ = __conform__ = __composite_values__ = \
        _asdict = get_secret_value = resolve = __clause_element__ = total_seconds = timestamp = tobytes = encode = decode = strip = __call__


def _generator(uid):
    yield uid


# One more of nearly every kind of object which is ever passed to a database.
KINDS = [
    lambda u: Colour.RED, lambda u: Level.LOW, lambda u: Str('s%d' % u), lambda u: Int(u), lambda u: ListSub([u]), lambda u: DictSub(a=u), Record, Rich,
    lambda u: datetime.datetime(2020, 1, 2, 3, 4, 5, u % 1000), lambda u: datetime.date(2020, 1, 1 + u % 28), lambda u: datetime.time(1, 2, u % 60),
    lambda u: datetime.datetime(2020, 1, 2, tzinfo=datetime.timezone.utc), lambda u: datetime.timedelta(seconds=u % 10 ** 9),
    lambda u: decimal.Decimal(u) / 100, lambda u: fractions.Fraction(u, 7), lambda u: complex(u, 1), lambda u: uuid.UUID(int=u),
    lambda u: bytearray(b'x%d' % u), lambda u: memoryview(b'x%d' % u), lambda u: array.array('q', [u]), lambda u: pathlib.PurePosixPath('/x/%d' % u),
    lambda u: {u}, lambda u: collections.deque([u]), lambda u: collections.OrderedDict(a=u), lambda u: collections.UserDict(a=u),
    lambda u: collections.UserString('u%d' % u), lambda u: collections.UserList([u]), _generator, lambda u: iter([u]), lambda u: map(str, [u]),
    lambda u: (lambda: u), lambda u: len, lambda u: Record, lambda u: types.SimpleNamespace(value=u, id=u), lambda u: ..., lambda u: NotImplemented,
    lambda u: io.StringIO('text'), lambda u: io.BytesIO(b'blob'), lambda u: ipaddress.ip_address(u % 2 ** 32), lambda u: slice(u), lambda u: float('inf'), lambda u: -0.0,
    lambda u: 2 ** 63 + u, lambda u: re.compile('x%d' % (u % 50)), lambda u: ValueError(u), lambda u: 'x' * (u % 5000), lambda u: "it's %d" % u, lambda u: ' padded %d ' % u,
    lambda u: '\ud800%d' % u, lambda u: {'$ref': [u]}.items(), lambda u: types.MappingProxyType({'a': u}), lambda u: weakref.ref(Record), lambda u: sqlite3.Binary(b'%d' % u),
]


def scalar(rng, uid, rich=0.3):
    """A scalar that can be told from every other one of the case by identity."""
    if rng.random() >= rich:
        return Val(uid)
    if rng.random() < 0.3:
        return rng.choice(KINDS)(uid)
    k = rng.randrange(14)
    if k == 0:
        return None
    if k == 1:
        return rng.choice([True, False])
    if k == 2:
        return rng.choice([0, 1, -1, 2, 10 ** 20 + uid])
    if k == 3:
        return ''.join([rng.choice(PLACEHOLDERISH), str(uid)])
    if k == 4:
        return rng.choice(PLACEHOLDERISH)
    if k == 5:
        return [Val(uid), uid]
    if k == 6:
        return []
    if k == 7:
        return {'k': uid}
    if k == 8:
        return ('b%d' % uid).encode()
    if k == 9:
        return float(uid) + 0.5
    if k == 10:
        return frozenset([uid])
    if k == 11:
        return float('nan')
    if k == 12:
        return range(2)
    return rng.choice([magic.NAMES, PLACEHOLDERISH])[0] if not magic.NAMES else rng.choice(magic.NAMES)


def tuple_len(rng):
    r = rng.random()
    if r < 0.12:
        return 0
    if r < 0.75:
        return rng.randint(1, 4)
    if r < 0.93:
        return rng.randint(5, 14)
    if r < 0.975 and magic.INTS:
        m = [i for i in magic.INTS if i <= 1200]
        return rng.choice(m)
    if r < 0.995:
        return rng.randint(15, 140)
    return rng.choice([255, 256, 257, 500, 999, 1000, 1001, 1025])


def make_tuple(rng, n, uid, rich=0.3):
    items = []
    for k in range(n):
        if rich and rng.random() < 0.06:
            items.append(tuple(Val(uid * 10000 + k) for _ in range(rng.randint(0, 3))))  # nested: one level only
        elif rich and rng.random() < 0.04 and items:
            items.append(items[0])
        else:
            items.append(scalar(rng, uid * 10000 + k, rich))
    if n == 2 and rng.random() < 0.15:
        return Pair(*items)
    if rng.random() < 0.1:
        return TupleSub(items)
    return tuple(items)


# ---------------------------------------------------------------- configuration

class Cfg:
    __slots__ = ('in_style', 'out_style', 'escape', 'expand', 'strip', 'outq',
                 'esc', 'exp', 'comments', 'quotes')

    def __init__(self, in_style, out_style, escape=None, expand=None, strip=None, outq=None):
        self.in_style, self.out_style = in_style, out_style
        self.escape, self.expand, self.strip, self.outq = escape, expand, strip, outq
        self.esc = ref.SIG[in_style] if escape is True else (escape or None)
        self.exp = ref.kind(out_style) != 'named' if expand is None else bool(expand)
        if strip is True:
            self.comments = ref.DEFAULT_COMMENTS
        elif strip is None or strip is False:
            self.comments = None
        else:
            self.comments = strip
        self.quotes = bool(outq) and out_style == 'named_oracle'

    def make(self, cls=SQLParams):
        kw = {}
        if self.escape is not None:
            kw['escape_char'] = self.escape
        if self.expand is not None:
            kw['expand_tuples'] = self.expand
        if self.strip is not None:
            kw['strip_comments'] = self.strip
        if self.outq is not None:
            kw['allow_out_quotes'] = self.outq
        return cls(self.in_style, self.out_style, **kw)

    def key(self):
        return (self.in_style, self.out_style, self.esc, self.exp, self.quotes,
                repr(self.comments))

    def __repr__(self):
        return 'SQLParams(%r, %r, escape_char=%r, expand_tuples=%r, strip_comments=%r, allow_out_quotes=%r)' % (
            self.in_style, self.out_style, self.escape, self.expand, self.strip, self.outq)


CUSTOM_ESC = ['\\', '!', '^', '|', '~', '*', '.', '+', '[', ']', '(', ')', '{', '}', '#', '&', '-',
              '<', 'E', '=', ';', '`', '/', '"', "'", ' ', '\n', 'é', '!!', '\\\\', '{}', 'ESC']
COMMENTS = [["--"], ["#"], ["--", "#"], [("/*", "*/")], ["//", ("/*", "*/")], [("{-", "-}"), "--"],
            ("REM ",), [("(*", "*)"), "#"], [";", "--"], [["/*", "*/"], "#"], [], ["..", ("[[", "]]")],
            ["^", "|"], ["--", "#", "//", ";"], ["#", ("/*", "*/"), "--", ("{-", "-}"), "REM ", ";"],
            [("<!--", "-->"), ("/*", "*/"), ("(*", "*)"), ("{", "}")], tuple("-- # // ; \\ ' %% REM".split()),
            [("/*", "*/"), "--", ("/*+", "+*/"), "---"], [("'", "'"), "--"], [("#", "#")],
            [("BEGIN ", " END"), "REM\t"], [("/* ", " */"), "-- "], [("/*\t", "*/")]]


def gen_comments(rng):
    if rng.random() < 0.7:
        return rng.choice(COMMENTS)
    # Markers of any characters, those of regular expressions and format strings above all.
    mark = lambda: ''.join(rng.choice('.*+?^$|()[]{}\\/#-!<>=&,;:"\'%~@aZ1_é') for _ in range(rng.choice([1, 1, 2, 2, 3]))) + rng.choice([''] * 9 + [' ', '\t'])
    return [mark() if rng.random() < 0.4 else (mark(), mark()) for _ in range(rng.choice([1, 1, 2, 3]))]


def gen_escape(rng, in_style, allow_custom=True):
    r = rng.random()
    if r < 0.4:
        return rng.choice([None, None, False, ''])
    if r < 0.72 or not allow_custom:
        return True
    if r < 0.8:
        return ref.SIG[in_style]
    words = magic.NAMES + magic.FRAGS if r > 0.99 else []
    cands = [c for c in (words or CUSTOM_ESC + list(':$@%?')) if ref.SIG[in_style] not in c]
    return rng.choice(cands)


def gen_cfg(rng, ins=ref.STYLES, outs=ref.STYLES, escape='any', expand='any', strip='any', outq='any'):
    i, o = rng.choice(ins), rng.choice(outs)
    if escape == 'any':
        escape = gen_escape(rng, i)
    if expand == 'any':
        expand = rng.choice([None, None, True, True, False])
    if strip == 'any':
        strip = rng.choice([None, None, None, False, True, gen_comments(rng)])
    if outq == 'any':
        outq = rng.choice([None, False, True]) if o == 'named_oracle' or rng.random() < 0.1 else None
    return Cfg(i, o, escape, expand, strip, outq)


# ---------------------------------------------------------------- names

NAME_GROUPS = [
    ['id', 'name', 'names', 'race', 'age', 'user_id', 'start_date', 'end_date'],
    ['a', 'b', 'c', 'ab', 'abc', 'a_', '_a', '_', '__'],
    ['a', 'a1', 'a10', 'a11', 'a_1', 'a_1_0', 'a__0', 'a__1', 'a0'],
    ['name', 'Name', 'NAME', 'nAmE', 'name_', 'name1', 'names'],
    ['_0', '_1', '_1_0', '_2', '_01', '_10', '_0_1', '_1_10'],
    ['p', 'param', 'escape', 'quote', 'out_percent', 'sql', 'params', 's', 'd', 'self'],
    ['class', 'None', 'True', 'select', 'NULL', 'def', 'lambda', 'IN', 'x'],
    ['café', 'naïve', 'n日本', 'x_é', 'zß', 'Ae', 'e', 'aİ'],
    ['very_long_parameter_name_which_goes_on_and_on_and_on_and_on_and_on', 'x' * 31, 'x' * 30, 'x' * 64,
     'x' * 128, 'x' * 129],
    ['names', 'names_sqlp', 'names_0_sqlp', 'sqlp', '__0_sqlp', 'x__sqlp'],
]
# What tuple expansion is seen to generate, for the name collision probe.
COLLIDING = ['names', 'names__0_sqlp', 'names__1_sqlp', 'a', 'a__0_sqlp']


def gen_names(rng, many=0.02):
    r = rng.random()
    if r < many:
        stem = rng.choice(['n', 'name_', 'A', 'x_', '_'])
        return [stem + str(i) for i in range(rng.choice([9, 17, 33, 45, 70, 130]))]
    if r < 0.8:
        g = rng.choice(NAME_GROUPS)
    elif r < 0.9 and magic.NAMES:
        g = [rng.choice(magic.NAMES) for _ in range(6)]
    else:
        alpha = 'abxyAB_019'
        g = [rng.choice('abAB_') + ''.join(rng.choice(alpha) for _ in range(rng.randint(0, 6))) for _ in range(6)]
    k = rng.randint(1, min(len(g), 5))
    return rng.sample(g, k)


# ---------------------------------------------------------------- query text

LITS = [
    'SELECT * FROM users WHERE id = ', ' AND ', ' OR ', ' IN ', ' = ', ', ', ' ', '\n', '\t', '\r\n', '(', ')',
    ';', "'it''s'", '"Col"', "LIKE 'a%'", "LIKE '%'", "'100%'", ' % 5', '%%', '%d', '%(', '%)s', '%( x)s',
    '::int', '::text[]', "'12:00:00'", "TIME '23:59'", '@@ROWCOUNT', '@@', '$$', '$$body$$', '$', '@', ':', '%',
    ' -> ', '->>', '??', '??|', ' := ', ':=', '"', "'", '`t`', '\\', '\\n', '{', '}', '{0}', '{param}', '\\1',
    '\\g<0>', '[1]', 'é', '日本', '\U0001f40d', '\x00', '\x1c', '\x85', '\u2028', '\x0b', '\x0c', '\ufeff',
    'e\u0301', '\ud83d', '\udc80', '\ud800x', '\u0130', '\xdf', '\ufb01', '\xad', '\u0663', '\r', '\x1a', '\x1b[0m', '\x7f', '--', '/*', '*/', '#', '-- x\n', '/* c */', 'NULL', '(NULL)', '1', '42', 'a', 'Z', '_', '.', '5',
    'UPDATE t SET x = ', ' BETWEEN ', "E'\\\\'", 'N\'x\'', '||', '&&', '<>', '!=', '^', '~', '*', '+', '-', '/',
    'x?', '?', ':a', '$a', '@a', '%s', '%(a)s', ':1', '$1', ':"a"', ':"a', ':::', '$$$', '%%%', '???', '@@@',
]
SAFE_AFTER = [' ', ')', ',', ', ', '\n', ' AND x = ', ';', ' OR y IN ', '\t', ') ', '.', '-', '+', '||', "'", '"']


def param_text(rng, style, names):
    if style == 'format':
        return '%s'
    if style == 'qmark':
        return '?'
    n = rng.choice(names)
    if style == 'pyformat':
        return '%%(%s)s' % n
    if style == 'named_oracle':
        r = rng.random()
        if r < 0.35:
            return ':"%s"' % n
        if r < 0.5:
            n = rng.choice([n.upper() if n.isascii() else n, n.swapcase() if n.isascii() else n, n])
        return ':' + n
    return ref.SIG[style] + str(n)


def near_miss(rng, style, names):
    """The text of a parameter, off by a character or two."""
    t = param_text(rng, style, names)
    for _ in range(rng.choice([1, 1, 2])):
        ch = rng.choice([chr(rng.randrange(32, 127)), rng.choice('\n\t\r\x00\x0b\x1f\x7f\xa0\xad\u00b2\u0301\u200d\u200b'), ref.SIG[style], '"'])
        i = rng.randint(0, len(t)) if rng.random() < 0.5 else rng.choice([1, min(2, len(t))])
        t = t[:i] + ch + t[i + rng.choice([0, 1]):]
    return t


def gen_numbers(rng, many=0.02):
    r = rng.random()
    if r < many:
        top = rng.choice([9, 17, 33, 45, 70, 130])
        return [str(x) for x in rng.sample(range(1, top + 1), rng.randint(top // 2, top))]
    r = rng.random()
    top = rng.randint(1, 4) if r < 0.6 else rng.randint(5, 14) if r < 0.93 else rng.choice([99, 100, 101, 120, 257])
    k = rng.randint(1, min(top, 6))
    nums = [str(x) for x in rng.sample(range(1, top + 1), k)]
    if rng.random() < 0.1:
        nums.append('0' * rng.randint(1, 2) + rng.choice(nums))
    if rng.random() < 0.04:
        # Numbers which only a mapping can serve, and the shorter ones they begin with.
        big = str(rng.choice([1000, 9999, 10000, 32768, 65535, 65536, 99999, 123456, 1234567, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64, 10 ** 20, 10 ** 60]) + rng.choice([0, 0, 1]))
        nums.append(big)
        if rng.random() < 0.5:
            nums.append(big[:rng.randint(1, len(big) - 1)])
    return nums


def gen_sql(rng, cfg, names, nparams=None, adj=0.06, wild=0.12, clean=0.5):
    """A query. With probability *clean* its literal text avoids the initial
    character of the out-style, so that a driver's reading is determined."""
    style = cfg.in_style
    out_sig = ref.SIG[cfg.out_style]
    in_sig = ref.SIG[style]
    is_clean = rng.random() < clean
    if nparams is None and len(names) > 8 and rng.random() < 0.6:
        nparams = rng.randint(len(names) // 2, len(names) * 2)
    if nparams is None:
        r = rng.random()
        nparams = rng.randint(0, 4) if r < 0.7 else rng.randint(5, 12) if r < 0.96 else rng.randint(13, 60)
    frags = []
    slots = [True] * nparams + [False] * rng.randint(0, 5)
    rng.shuffle(slots)
    for is_param in slots:
        for _ in range(rng.choice([0, 1, 1, 2])):
            r = rng.random()
            if r < wild:
                t = ''.join(rng.choice(in_sig * 3 + out_sig + (cfg.esc or '') + 'as1 ("\\\n)%:') for _ in range(rng.randint(1, 5)))
            elif r < wild + 0.06:
                t = near_miss(rng, style, names)
            elif r < wild + 0.09 and magic.FRAGS:
                t = rng.choice(magic.FRAGS)
            else:
                t = rng.choice(LITS)
            if is_clean and out_sig in t and (out_sig != in_sig):
                continue
            if frags and frags[-1][1] and rng.random() >= adj:
                frags.append((rng.choice(SAFE_AFTER), False))
            frags.append((t, False))
        if cfg.esc and rng.random() < 0.12:
            frags.append((cfg.esc + in_sig, False))
            if rng.random() < 0.5:
                frags.append((param_text(rng, style, names)[1:], False))
        if is_param:
            if frags and frags[-1][1] and rng.random() >= adj:
                frags.append((rng.choice(SAFE_AFTER), False))
            frags.append((param_text(rng, style, names), True))
    if cfg.comments and rng.random() < 0.6:
        for _ in range(rng.randint(1, 3)):
            frags.insert(rng.randint(0, len(frags)), (comment_text(rng, cfg, names), False))
    if rng.random() < 0.25 and frags:
        del frags[-1]
    r = rng.random()
    if r < 0.02:
        # A long text.
        n = rng.choice(magic.INTS) if magic.INTS and rng.random() < 0.3 else rng.choice([130, 300, 600, 1100, 2100, 4200, 9000])
        unit = rng.choice([' ', 'x', ' x = 1 AND', "'it''s' ", '\n', 'é ', '(', rng.choice(LITS) + ' '])
        if not (is_clean and out_sig in unit):
            i = rng.choice([0, len(frags), rng.randint(0, len(frags))])
            frags.insert(i, (' ' + (unit * (n // len(unit) + 1))[:n] + ' ', False))
    sql = ''.join(f for f, _ in frags)
    if r > 0.999:
        # The bound of some buffer falls into the query.
        bound = rng.choice(magic.BIG) if magic.BIG and rng.random() < 0.5 else rng.choice([1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65536] + [100000, 131072] * (r > 0.9997))
        bound = max(0, bound - rng.randint(0, len(sql)))
        unit = rng.choice([' ', 'x ', 'é ', 'x = 1 AND ', '\n'])
        if not (is_clean and out_sig in unit):
            sql = (unit * (bound // len(unit) + 1))[:bound] + sql
    return sql


ODD_SPACE = ['\f', '\v', '\r', ' \f', '\xa0', '\u2003', '\u3000', '\x1c', '\x85', '\u2028', '\ufeff', '\u200b', '\x00']


def comment_text(rng, cfg, names):
    c = rng.choice(list(cfg.comments))
    inner = ''.join(rng.choice([' ', 'note', param_text(rng, cfg.in_style, names), ' x', "'", '%', '?'])
                    for _ in range(rng.randint(0, 4)))
    lead = rng.choice(['\n', '\n', '\n  ', '\n\t', '\r\n', '', ' ', '\n \t '])
    if rng.random() < 0.06:
        lead = '\n' + rng.choice(ODD_SPACE) + rng.choice(['', ' '])
    if isinstance(c, str):
        return lead + c + inner + rng.choice(['\n', '\n', '\r\n', ''])
    body = inner + rng.choice(['', '\n', '\n  ', '\r\n']) + inner
    return lead + c[0] + body + rng.choice([c[1], c[1], c[1] + '\n', c[1] + '\r\n', ''])


# ---------------------------------------------------------------- cases

class Case:
    __slots__ = ('cfg', 'sql', 'stripped', 'toks', 'refs', 'npar', 'sizes', 'logical')


def analyse(cfg, sql):
    """The reference reading of a query; None when the documentation leaves it open."""
    stripped, f1 = ref.strip_comments(cfg.comments, sql)
    if f1:
        return None
    toks, f2 = ref.scan(cfg.in_style, cfg.esc, stripped)
    if f2:
        return None
    c = Case()
    c.cfg, c.sql, c.stripped, c.toks = cfg, sql, stripped, toks
    pars = [t[2] for t in toks if t[0] == 'par']
    c.npar = len(pars)
    c.refs = list(range(len(pars))) if ref.kind(cfg.in_style) == 'ordinal' else list(dict.fromkeys(pars))
    return c


def gen_case(rng, cfg, allow_zero=False, tries=12, collide=False, **kw):
    names_g = gen_numbers(rng) if cfg.in_style in ref.NUMERIC else (
        COLLIDING if collide else gen_names(rng))
    for _ in range(tries):
        c = analyse(cfg, gen_sql(rng, cfg, names_g, **kw))
        if c is None:
            continue
        if cfg.in_style in ref.NUMERIC and not allow_zero and 0 in c.refs:
            continue
        return c
    raise Skip


def gen_shapes(rng, case, p_tuple=0.3):
    """Scalar (None) or tuple size for every reference."""
    case.sizes = {r: tuple_len(rng) if rng.random() < p_tuple else None for r in case.refs}


def huge_tuple(rng, case, p=0.0003):
    """Once in a while one of thousands of elements."""
    if case.cfg.exp and case.refs and case.npar <= 12 and rng.random() < p:
        case.sizes[rng.choice(list(case.refs))] = min(magic.long_count(rng), 40000)
        return True
    return False


_uid = 0


class Eq:
    """Values which are all equal, yet each its own."""
    __slots__ = ('uid',)

    def __init__(self, uid):
        self.uid = uid

    def __eq__(self, other):
        return isinstance(other, Eq) or NotImplemented

    def __hash__(self):
        return 7

    def __repr__(self):
        return 'E%s' % self.uid


def twin(rng, uid):
    """Equal to other twins of its kind, seldom identical."""
    k = rng.randrange(6)
    if k == 0:
        return float('2.5')
    if k == 1:
        return rng.choice([1, True, float('1'), decimal.Decimal(1), fractions.Fraction(1)])
    if k == 2:
        return rng.choice([0, False, float('0'), -0.0, ''.join(['']), None])
    if k == 3:
        return ''.join(['same ', 'text'])
    if k == 4:
        return int('1000000')
    return Eq(uid)


def gen_values(rng, case, rich=0.3):
    """A set of values of the case's shapes, as reference -> value."""
    global _uid
    out = {}
    if rich and rng.random() < 0.06:
        # Many equal values.
        for r in case.refs:
            _uid += 1
            n = case.sizes[r]
            out[r] = twin(rng, _uid) if n is None else tuple(twin(rng, _uid * 10000 + k) for k in range(n))
        return out
    if rich and rng.random() < 0.05:
        # A few objects, each used for several parameters.
        _uid += 1
        pool = [scalar(rng, _uid * 10000 + k, rich) for k in range(rng.randint(1, 3))]
        tuples = {}
        for r in case.refs:
            n = case.sizes[r]
            if n is None:
                out[r] = rng.choice(pool)
            else:
                if n not in tuples or rng.random() < 0.5:
                    tuples[n] = tuple(rng.choice(pool) for _ in range(n))
                out[r] = tuples[n]
        return out
    for r in case.refs:
        _uid += 1
        n = case.sizes[r]
        out[r] = scalar(rng, _uid, rich) if n is None else make_tuple(rng, n, _uid, rich)
    return out


# ---------------------------------------------------------------- containers

class MyMapping(collections.abc.Mapping):
    def __init__(self, d):
        self._d = dict(d)

    def __getitem__(self, k):
        return self._d[k]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)


class MySequence(collections.abc.Sequence):
    def __init__(self, s):
        self._s = list(s)

    def __getitem__(self, i):
        return self._s[i]

    def __len__(self):
        return len(self._s)


def wrap_mapping(rng, d):
    r = rng.random()
    if r < 0.6:
        return d
    k = rng.randrange(5)
    if k == 0:
        return collections.OrderedDict(d)
    if k == 1:
        return types.MappingProxyType(d)
    if k == 2:
        return collections.UserDict(d)
    if k == 3:
        items = list(d.items())
        h = len(items) // 2
        return collections.ChainMap(dict(items[:h]), dict(items[h:]))
    return MyMapping(d)


def wrap_sequence(rng, s):
    r = rng.random()
    if r < 0.5:
        return list(s)
    if r < 0.8:
        return tuple(s)
    k = rng.randrange(3)
    if k == 0:
        return collections.UserList(s)
    if k == 1:
        return MySequence(s)
    return collections.deque(s)


def oracle_key(rng, canon):
    """A spelling of the canonical (case-sensitive) Oracle name."""
    if canon == canon.upper() and rng.random() < 0.8:
        if not canon.isascii():
            return canon
        return rng.choice([canon, canon.lower(), canon.title(), canon.swapcase()])
    return '"%s"' % canon


def oracle_keys(rng, refs):
    return {r: oracle_key(rng, r) for r in refs}


def many_extras(rng):
    """Seldom, entries by the hundred which the query does not use."""
    if rng.random() >= 0.04:
        return ()
    return range(rng.choice([i for i in magic.INTS if 8 < i <= 1200] or [300]) if rng.random() < 0.4 else rng.choice([20, 70, 130, 300, 600, 1100]))


EXTRA = ['zz_unused', 'Zz', 'q9']
# Keys which have nothing to do with any parameter.
UNRELATED = {'named': [5, 0, 1, None, (1,), b'bytes', 1.5, frozenset(), '', ' ', 'a b', '1x', '\u00b2', '?', '%s', ':a', 'a-b', Val('key'), ('a',), -1, True],
             'numeric': [None, (1,), b'bytes', 1.5, frozenset(), '', ' ', 'a b', '1x', '\u00b2', '-1', '+1', '1.0', '1_0', '0x1', ':1', '?', Val('key'), -7, 'None', b'9x'],
             'ordinal': [None, (1,), b'bytes', 1.5, frozenset(), '', ' ', 'a b', '1x', '\u00b2', '-1', '+1', '1.0', '1_0', '0x1', ':1', '?', Val('key'), -7, 'None', b'9x']}


# Under -bb, keys which are bytes may not meet others.
BYTES_KEYS = True


def unrelated(rng, d, kind):
    for e in rng.sample(UNRELATED[kind], rng.randint(1, 3)):
        if isinstance(e, bytes) and not BYTES_KEYS:
            continue
        if e not in d:
            d[e] = rng.choice([None, 1, (1, 2), 'unrelated'])




def container(rng, cfg, logical, keys=None, form=None, extras=None, plain=False):
    """The parameters as the caller passes them."""
    global _uid
    k = ref.kind(cfg.in_style)
    if extras is None:
        extras = rng.random() < 0.25
    if k == 'named':
        if cfg.in_style == 'named_oracle':
            keys = keys or oracle_keys(rng, logical)
            d = {keys[r]: v for r, v in logical.items()}
        else:
            d = dict(logical)
        if extras:
            taken = {str(x).upper() for x in logical}
            for e in many_extras(rng):
                d['zz_%d' % e] = e
            for e in rng.sample(EXTRA, rng.randint(1, 2)):
                if e.upper() not in taken:
                    taken.add(e.upper())
                    _uid += 1
                    d[e] = rng.choice([Val(_uid), (Val(_uid),), None])
            if rng.random() < 0.2:
                unrelated(rng, d, k)
        if rng.random() < 0.3:
            items = list(d.items())
            rng.shuffle(items)
            d = dict(items)
        return d if plain else wrap_mapping(rng, d)
    base = 1 if k == 'numeric' else 0
    top = max(logical, default=base - 1)
    if form is None:
        form = rng.choice(['seq', 'seq', 'int', 'str', 'mix'])
    if form == 'seq' and top > 3000:
        form = 'int'
    if form == 'seq':
        s = []
        for i in range(base, top + 1):
            if i in logical:
                s.append(logical[i])
            else:
                _uid += 1
                s.append(rng.choice([Val(_uid), (Val(_uid),), ()]))
        if extras:
            for _ in range(rng.randint(1, 3)):
                _uid += 1
                s.append(Val(_uid))
        return s if plain else wrap_sequence(rng, s)
    d = {}
    for r, v in logical.items():
        d[r if form == 'int' or (form == 'mix' and rng.random() < 0.5) else str(r)] = v
    if extras:
        _uid += 1
        d[top + rng.randint(1, 3)] = Val(_uid)
        d['zz'] = Val(_uid)
        for e in many_extras(rng):
            d[top + 4 + e if e % 3 else str(top + 4 + e)] = e
        if rng.random() < 0.2:
            unrelated(rng, d, k)
        if rng.random() < 0.3:
            items = list(d.items())
            rng.shuffle(items)
            d = dict(items)
    return d if plain else wrap_mapping(rng, d)


def has_tuple_collision(case, logical):
    """Known finding K2: a named parameter called like an expanded element of
    another one in a named to named conversion."""
    cfg = case.cfg
    if ref.kind(cfg.in_style) != 'named' or ref.kind(cfg.out_style) != 'named' or not cfg.exp:
        return False
    for r, v in logical.items():
        if isinstance(v, tuple):
            for r2, v2 in logical.items():
                if r2 != r and r2.startswith(r + '__') and r2.endswith('_sqlp') and not isinstance(v2, tuple):
                    mid = r2[len(r) + 2:-5]
                    if mid.isdecimal() and int(mid) < len(v):
                        return True
    return False


def same(a, b):
    return a is b


def sig(case):
    """What makes two cases the same for counting distinct ones."""
    return hash((case.cfg.key(), case.sql, tuple(sorted((str(k), v) for k, v in case.sizes.items()))))


def copy_case(c):
    d = Case()
    for a in Case.__slots__:
        if hasattr(c, a):
            setattr(d, a, getattr(c, a))
    return d

"""The settings of an instance are what its attributes say."""
import collections

import sqlparams

from .. import gen, judge, ref
from ..lib import SQLParams, Skip, call

QUICK, THOROUGH = 360000, 6000000
RULE = ('instances built from every way to spell their settings (default, None, False, empty, True, explicit default, custom; '
        'positional and by keyword; subclasses); attributes and repr are compared with the documented effective settings, and '
        'instances rebuilt from them, or from an equivalent spelling, must convert a random query to the same result; '
        'non-trivial: a setting other than the default')
FLOORS = {'instances compared': 40000, 'instances rebuilt from their attributes': 15000, 'repr evaluated': 5000}


class Sub(SQLParams):
    pass


def probes(ctx):
    dc = sqlparams.DEFAULT_COMMENTS
    if sorted(map(repr, dc)) != sorted(map(repr, ref.DEFAULT_COMMENTS)):
        judge.fail('DEFAULT_COMMENTS is %r' % (dc,))
    for i in ref.STYLES:
        for o in ref.STYLES:
            x = SQLParams(i, o)
            ctx.calls += 1
            have = (x.in_style, x.out_style, x.escape_char, x.expand_tuples, x.strip_comments)
            want = (i, o, None, ref.kind(o) != 'named', None)
            if have != want or type(x.expand_tuples) is not bool:
                judge.fail('default settings', cfg=(i, o), got=have, expected=want)


def spellings(rng, cfg):
    """Other spellings of the same settings, as keyword arguments."""
    kw = {}
    e = cfg.esc
    if e is None:
        kw['escape_char'] = rng.choice([None, False, ''])
    elif e == ref.SIG[cfg.in_style]:
        kw['escape_char'] = rng.choice([True, e])
    else:
        kw['escape_char'] = e
    default = ref.kind(cfg.out_style) != 'named'
    kw['expand_tuples'] = rng.choice([None, cfg.exp]) if cfg.exp == default else cfg.exp
    if rng.random() < 0.2 and kw['expand_tuples'] is not None:
        kw['expand_tuples'] = 1 if cfg.exp else 0
    if cfg.comments is None:
        kw['strip_comments'] = rng.choice([None, False, [], ()])
    elif cfg.comments is ref.DEFAULT_COMMENTS:
        kw['strip_comments'] = rng.choice([True, sqlparams.DEFAULT_COMMENTS, list(sqlparams.DEFAULT_COMMENTS), [("/*", "*/"), "--"],
                                           (["/*", "*/"], "--")])
    else:
        kw['strip_comments'] = rng.choice([list(cfg.comments), tuple(cfg.comments)])
    kw['allow_out_quotes'] = cfg.outq if cfg.out_style == 'named_oracle' and cfg.outq else rng.choice([None, False])
    return kw


def check_attrs(x, cfg, kw):
    bad = []
    if x.in_style != cfg.in_style or x.out_style != cfg.out_style:
        bad.append('styles %r, %r' % (x.in_style, x.out_style))
    if x.escape_char != cfg.esc:
        bad.append('escape_char is %r where %r is in effect' % (x.escape_char, cfg.esc))
    if x.expand_tuples is not cfg.exp:
        bad.append('expand_tuples is %r where %r is in effect' % (x.expand_tuples, cfg.exp))
    have = None if not x.strip_comments else [c if isinstance(c, str) else tuple(c) for c in x.strip_comments]
    want = None if not cfg.comments else [c if isinstance(c, str) else tuple(c) for c in cfg.comments]
    if have != want:
        bad.append('strip_comments is %r where %r is in effect' % (have, want))
    if bad:
        judge.fail('; '.join(bad), cfg=cfg, got=kw)


def case(rng, ctx):
    cfg = gen.gen_cfg(rng)
    c = gen.gen_case(rng, cfg, clean=0.5)
    gen.gen_shapes(rng, c, 0.4)
    for r in c.refs:
        if c.sizes[r] and c.sizes[r] > 30:
            c.sizes[r] = 30
    logical = gen.gen_values(rng, c, 0.2)
    params = gen.container(rng, cfg, logical)
    a = cfg.make()
    check_attrs(a, cfg, 'as first built')
    outq = cfg.outq
    others = []
    kw = spellings(rng, cfg)
    others.append(('respelled %r' % kw, SQLParams(cfg.in_style, cfg.out_style, **kw)))
    kw = spellings(rng, cfg)
    others.append(('positional %r' % list(kw.values()), SQLParams(cfg.in_style, cfg.out_style, *[
        kw[k] for k in ('escape_char', 'expand_tuples', 'strip_comments', 'allow_out_quotes')])))
    others.append(('rebuilt from its attributes', SQLParams(
        in_style=a.in_style, out_style=a.out_style, escape_char=a.escape_char, expand_tuples=a.expand_tuples,
        strip_comments=a.strip_comments, allow_out_quotes=outq)))
    ctx.count('instances rebuilt from their attributes')
    if rng.random() < 0.3:
        kw = spellings(rng, cfg)
        others.append(('a subclass', Sub(cfg.in_style, cfg.out_style, **kw)))
    if rng.random() < 0.1:
        kw = spellings(rng, cfg)
        if isinstance(kw['escape_char'], str):
            kw['escape_char'] = gen.Str(kw['escape_char'])
        if isinstance(kw['strip_comments'], (list, tuple)):
            kw['strip_comments'] = rng.choice([gen.ListSub, gen.TupleSub, collections.UserList, collections.deque, gen.MySequence])(
                [gen.Str(x) if isinstance(x, str) else rng.choice([tuple, list, gen.TupleSub])(x) for x in kw['strip_comments']])
        others.append(('settings of subclasses', SQLParams(gen.Str(cfg.in_style), gen.Str(cfg.out_style), **kw)))
    ctx.calls += 1 + len(others)
    got = judge.expect_ok(call(a.format, c.sql, params), c, params)
    if not gen.has_tuple_collision(c, logical):
        judge.full(c, logical, params, ('ok', got))
    for what, b in others:
        check_attrs(b, cfg, what)
        r = judge.expect_ok(call(b.format, c.sql, params), c, params)
        if not judge.same_result(got, r):
            judge.fail('an instance of the same settings converts differently: ' + what, c, params, got, other=r)
        ctx.count('instances compared')
    if rng.random() < 0.4:
        text = repr(a)
        try:
            e = eval(text, {'sqlparams': sqlparams})
        except Exception as x:
            judge.fail('repr cannot be evaluated: %s: %r' % (text, x), c)
        if type(e) is not SQLParams or (e.in_style, e.out_style) != (cfg.in_style, cfg.out_style):
            judge.fail('repr evaluates to something else: ' + text, c)
        ctx.count('repr evaluated')
    ctx.seen('settings', (cfg.in_style, cfg.out_style, repr(cfg.escape), repr(cfg.expand), repr(cfg.strip), repr(cfg.outq)))
    if cfg.esc or cfg.comments or cfg.quotes or cfg.expand is not None:
        ctx.nontrivial(gen.sig(c))
    ctx.sample('%r %r' % (cfg, c.sql))

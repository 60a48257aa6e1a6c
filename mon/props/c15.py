"""Instances can be shared by threads."""
import os
import sys
import threading
import time

from .. import gen, judge, magic, ref
from ..lib import REPO, SQLParams, Skip, call, fresh

QUICK, THOROUGH = 19200, 400000
RULE = ('2 to 4 threads run format, formatmany and attribute reads on one shared instance (or two related ones, or build '
        'instances), under a scheduler which owns the baton and switches at random executed lines or bytecode instructions of the '
        'library, chosen by the seed; or free-running with a switch interval of a microsecond; every result is compared with '
        'the reference and with the same call made alone; non-trivial: threads really were switched inside the library')
# Low, because a library which takes a lock may not be schedulable.
FLOORS = {'calls judged': 5000, 'free-running cases': 100}
ASSUMPTIONS = ['schedules are interleavings at lines or instructions of the package under the GIL; C code of re is atomic']
NO_COVERAGE = True

PRE = os.path.join(REPO, 'sqlparams')
MON = sys.monitoring
TOOL = MON.DEBUGGER_ID
CUR = None


class Sched:
    """One thread runs at a time; the baton moves at monitored events."""

    def __init__(self, rng, n, p):
        self.rng, self.n, self.p = rng, n, p
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.live = set(range(n))
        self.ids = {}
        self.owner = None
        self.free = False      # given up: somebody blocked while holding the baton
        self.switches = 0
        self.events = 0
        self.trace = []

    def pick(self, others):
        o = sorted(others)
        return o[self.rng.randrange(len(o))]

    def give(self, to):
        self.owner = to
        self.sems[to].release()

    def wait(self, me):
        # A thread blocked on a lock of the library cannot pass the baton on.
        for _ in range(8):
            if self.sems[me].acquire(timeout=0.05):
                return
            if self.free:
                return
        self.free = True

    def event(self, code, no):
        me = self.ids.get(threading.get_ident())
        if me is None or self.free or self.owner != me:
            return
        self.events += 1
        if self.rng.random() >= self.p:
            return
        others = self.live - {me}
        if not others:
            return
        to = self.pick(others)
        self.switches += 1
        self.trace.append((me, to, code.co_name, no))
        self.give(to)
        self.wait(me)

    def done(self, me):
        self.live.discard(me)
        if not self.free and self.owner == me and self.live:
            self.give(self.pick(self.live))


def on_line(code, no):
    if not code.co_filename.startswith(PRE):
        return MON.DISABLE
    s = CUR
    if s is not None:
        s.event(code, no)


def on_instr(code, off):
    if not code.co_filename.startswith(PRE):
        return MON.DISABLE
    s = CUR
    if s is not None:
        s.event(code, off)


def setup(ctx):
    if MON.get_tool(TOOL) is None:
        MON.use_tool_id(TOOL, 'verif-sched')
        MON.register_callback(TOOL, MON.events.LINE, on_line)
        MON.register_callback(TOOL, MON.events.INSTRUCTION, on_instr)


class Op:
    pass


def plan(rng, conv, cfg, cases, cls):
    """One call with everything needed to judge it."""
    op = Op()
    op.conv, op.cfg, op.cls = conv, cfg, cls
    c = gen.copy_case(rng.choice(cases))
    gen.gen_shapes(rng, c, rng.choice([0.0, 0.4]))
    for r in c.refs:
        if c.sizes[r] is not None and c.sizes[r] > 4:
            c.sizes[r] = rng.randint(0, 4)
    op.many = rng.random() < 0.3
    keys = gen.oracle_keys(rng, c.refs) if cfg.in_style == 'named_oracle' else None
    n = rng.randint(1, 3) if op.many else 1
    op.logicals = [gen.gen_values(rng, c, 0.1) for _ in range(n)]
    op.rows = [gen.container(rng, cfg, l, keys=keys, plain=rng.random() < 0.7) for l in op.logicals]
    op.case = c
    # A call without a value fails, which is nothing to the other threads.
    op.fails = c.refs and rng.random() < 0.1
    if op.fails:
        op.rows[-1] = op.rows[-1][:0] if isinstance(op.rows[-1], (list, tuple)) else {'other': 1}
    op.make = conv is None or rng.random() < 0.1
    op.sql = c.sql
    if c.sql.isascii() and rng.random() < 0.3:
        op.sql = c.sql.encode('ascii')
    op.out = None
    return op


def warm_up(rng, conv, cfg, cases, n):
    """Ever new queries."""
    params = []
    for c in cases:
        c = gen.copy_case(c)
        c.sizes = {r: None for r in c.refs}
        params.append(gen.container(rng, cfg, gen.gen_values(rng, c, 0.0), plain=True, extras=False))
    for i in range(min(n, 1200)):
        k = i % len(cases)
        call(conv.format, '%s x%d' % (cases[k].sql, i), params[k])


def run_op(op):
    def go():
        conv = op.cfg.make(op.cls) if op.make else op.conv
        r = conv.formatmany(op.sql, op.rows) if op.many else conv.format(op.sql, op.rows[0])
        return r, (conv.in_style, conv.out_style, conv.escape_char, conv.expand_tuples, repr(conv.strip_comments))
    op.out = call(go)


def case(rng, ctx):
    # In some cases the package is new, so that the first use of it is raced for.
    if rng.random() < 0.25:
        with fresh() as cls:
            ctx.count('first uses of the package')
            one(rng, ctx, cls)
    else:
        one(rng, ctx, SQLParams)


def one(rng, ctx, cls):
    global CUR
    n = rng.choice([2, 2, 2, 3, 4])
    cfg = gen.gen_cfg(rng)
    cfgs = [cfg]
    if rng.random() < 0.3:
        cfgs.append(gen.Cfg(cfg.in_style, rng.choice([cfg.out_style, rng.choice(ref.STYLES)]), rng.choice([None, True]), rng.choice([None, True, False]),
                            rng.choice([None, True]), None))
    elif rng.random() < 0.2:
        cfgs.append(gen.gen_cfg(rng))
    new = cls is not SQLParams and rng.random() < 0.6
    convs = [None if new else c.make(cls) for c in cfgs]
    used = not new and rng.random() < 0.06
    cases = []
    for x in cfgs:
        mine = [gen.gen_case(rng, x, clean=0.6, nparams=rng.choice([1, 2, 3, 4])) for _ in range(rng.randint(3, 8) if used else rng.randint(1, 2))]
        cases.append(mine)
    if used:
        # Whatever is kept for queries is full.
        for k, conv in enumerate(convs):
            if conv is not None:
                warm_up(rng, conv, cfgs[k], cases[k], rng.choice([4, 12, 40, 150, 300, 600] + magic.INTS[-6:]))
        ctx.count('cases after a long use')
    threads_ops = []
    for _ in range(n):
        ops = []
        for _ in range(rng.randint(1, 3)):
            k = rng.randrange(len(cfgs))
            ops.append(plan(rng, convs[k], cfgs[k], cases[k], cls))
        threads_ops.append(ops)
    free = rng.random() < 0.08 or ctx.counts.get('given up to a lock', 0) >= 5
    instr = rng.random() < 0.35
    if free:
        free_run(rng, ctx, threads_ops)
        ctx.count('free-running cases')
    else:
        p = rng.choice([0.02, 0.1, 0.3, 0.6]) if instr else rng.choice([0.1, 0.3, 0.6, 1.0])
        s = Sched(rng, n, p)

        def body(me):
            s.ids[threading.get_ident()] = me
            s.wait(me)
            try:
                for op in threads_ops[me]:
                    run_op(op)
            finally:
                s.done(me)

        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        while len(s.ids) < n:
            time.sleep(0)
        CUR = s
        MON.set_events(TOOL, MON.events.INSTRUCTION if instr else MON.events.LINE)
        try:
            s.give(s.pick(s.live))
            for t in ts:
                t.join(60)
        finally:
            MON.set_events(TOOL, 0)
            CUR = None
        if any(t.is_alive() for t in ts):
            judge.fail('threads which share an instance do not finish', threads_ops[0][0].case, None, None)
        ctx.count('switches inside the library', s.switches)
        ctx.count('monitored events', s.events)
        ctx.count('given up to a lock' if s.free else 'scheduled cases')
        if s.switches:
            h = hash(tuple(s.trace))
            ctx.seen('distinct interleavings', h)
            ctx.nontrivial(h)
    for me, ops in enumerate(threads_ops):
        for op in ops:
            judge_op(ctx, op, me, n)
    ctx.seen('style pairs', (cfg.in_style, cfg.out_style))
    ctx.sample('%d threads: %r' % (n, [[(o.case.sql[:40], o.many) for o in ops] for ops in threads_ops]))


def free_run(rng, ctx, threads_ops):
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    bar = threading.Barrier(len(threads_ops))

    def body(ops):
        bar.wait(30)
        for _ in range(12):
            for op in ops:
                run_op(op)
                if op.out[0] != 'ok':
                    if op.fails:
                        continue
                    return
                if not quick_same(op):
                    return

    try:
        ts = [threading.Thread(target=body, args=(o,), daemon=True) for o in threads_ops]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
    finally:
        sys.setswitchinterval(old)


def quick_same(op):
    """Is this repetition's result that of the first one?"""
    first = getattr(op, 'first', None)
    if first is None:
        op.first = op.out[1][0]
        return True
    a, b = first, op.out[1][0]
    if a[0] != b[0]:
        return False
    xs, ys = (a[1], b[1]) if op.many else ([a[1]], [b[1]])
    return len(xs) == len(ys) and all(map(judge.same_params, xs, ys))


def same_words(a, b):
    plain = lambda e: [x for x in e.args if type(x) in (str, int)]
    return plain(a) == plain(b)


def judge_op(ctx, op, me, n):
    ctx.calls += 1
    c = op.case
    alone = call(op.cfg.make().formatmany if op.many else op.cfg.make().format, op.sql, op.rows if op.many else op.rows[0])
    detail = {'thread': '%d of %d' % (me, n), 'alone': alone}
    if op.fails:
        # By format() and formatmany() alike.
        if alone[0] != 'exc':
            return
        if op.out is None or op.out[0] != 'exc' or type(op.out[1]) is not type(alone[1]) or not same_words(op.out[1], alone[1]):
            judge.fail('the call fails alone, among threads it does not, or in another way', c, op.rows, op.out and op.out[1], **detail)
        ctx.count('failing calls')
        return
    if op.out is None or op.out[0] != 'ok':
        judge.fail('the call fails among threads', c, op.rows, op.out and op.out[1], **detail)
    got, at = op.out[1]
    if alone[0] != 'ok':
        judge.fail('the call fails alone', c, op.rows, alone[1])
    want = alone[1]
    xs, ys = (got[1], want[1]) if op.many else ([got[1]], [want[1]])
    if type(got[0]) is not type(op.sql) or got[0] != want[0] or len(xs) != len(ys) or not all(map(judge.same_params, xs, ys)):
        judge.fail('the result among threads differs from that of the call alone', c, op.rows, got, **detail)
    if getattr(op, 'first', None) is not None and not quick_same(op):
        judge.fail('repeated calls among threads differ', c, op.rows, got, **detail)
    x = op.cfg.make()
    if at != (x.in_style, x.out_style, x.escape_char, x.expand_tuples, repr(x.strip_comments)):
        judge.fail('the attributes of a shared instance differ', c, None, at, **detail)
    if not gen.has_tuple_collision(c, op.logicals[0]):
        for l, o, row in zip(op.logicals, xs, op.rows):
            items = judge.items_of(c, l)
            q = got[0].decode('ascii') if isinstance(got[0], bytes) else got[0]
            keys = judge.check_text(c, items, row, (q, o))
            phs = [i for i in items if i[0] == 'ph']
            judge.check_values(c, phs, keys, row, (q, o))
    ctx.count('calls judged')

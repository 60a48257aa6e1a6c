"""Conversions are the same in every process and leave it as it was."""
import json
import os
import subprocess
import sys
import tempfile
import zipfile

from .. import CWD, ENV, UMASK, child, judge
from ..lib import REPO

QUICK, THOROUGH = 480, 11000
RULE = ('batches of 60 sound and faulty calls, made in the check\'s own process and again in a new process of another interpreter mode '
        '(hash seed, -O, -OO, -bb, -W error, -X dev, locale, UTF-8 mode, isolated, thread, shallow stack, tracing, no standard streams, '
        'collector at every allocation); results and kinds of errors must be the same; an audit hook and snapshots of the interpreter '
        'watch for output, warnings, files, processes, sockets and changed global state; non-trivial: every batch and mode')
FLOORS = {'calls compared with another process': 15000, 'errors compared with another process': 1500}
ASSUMPTIONS = ['processes of one version of CPython are compared']

MODES = [
    ('hash seed', [], {}, '-'),
    ('-O', ['-O'], {}, '-'),
    ('-OO', ['-OO'], {}, '-'),
    ('-bb', ['-bb'], {}, '-'),
    ('-W error', ['-W', 'error', '-W', 'ignore::SyntaxWarning'], {}, '-'),
    ('-bb -W error -O', ['-bb', '-O', '-W', 'error', '-W', 'ignore::SyntaxWarning'], {}, '-'),
    ('-X dev', ['-X', 'dev', '-W', 'error', '-W', 'ignore::SyntaxWarning'], {}, '-'),
    ('-I', ['-I'], {}, '-'),
    ('C locale', ['-X', 'utf8=0'], {'LC_ALL': 'C', 'PYTHONCOERCECLOCALE': '0'}, '-'),
    ('ascii streams', [], {'PYTHONIOENCODING': 'ascii', 'LC_ALL': 'POSIX'}, '-'),
    ('no home, no zone', [], {'HOME': '/nonexistent', 'TZ': 'Pacific/Chatham', 'USER': ''}, '-'),
    ('debug allocator', [], {'PYTHONMALLOC': 'debug'}, '-'),
    ('thread', [], {}, 'thread'),
    ('shallow stack', [], {}, 'stack'),
    ('tracing', [], {}, 'trace'),
    ('no streams', [], {}, 'nostdio'),
    ('collector', [], {}, 'gc'),
    ('seeded generator', [], {}, 'random'),
    ('other locale', [], {}, 'locale'),
    ('another day', [], {}, 'clock'),
    ('decimal context', [], {}, 'decimal'),
    ('unusual settings', [], {}, 'unusual'),
    ('profiling', [], {}, 'profile'),
    ('monitoring', [], {}, 'monitor'),
    ('interactive', [], {}, 'interactive'),
    ('event loop', [], {}, 'loop'),
    ('forked', [], {}, 'fork'),
    ('embedded', [], {}, 'embedded'),
    ('memory traced', [], {}, 'tracemalloc'),
    ('memory traced from the start', ['-X', 'tracemalloc=3'], {}, '-'),
    ('zip file', [], {}, 'zip'),
]
N = 60


def archive(path):
    """The package, in a zip file."""
    with zipfile.ZipFile(path, 'w') as z:
        d = os.path.join(REPO, 'sqlparams')
        for f in sorted(os.listdir(d)):
            if os.path.isfile(os.path.join(d, f)):
                z.write(os.path.join(d, f), 'sqlparams/' + f)
    return path


def case(rng, ctx):
    idx = rng.randrange(10 ** 9)
    name, opts, env, setting = rng.choice(MODES)
    hashseed = rng.choice(['0', '1', str(rng.randrange(2 ** 32 - 1))])
    want = [(kind, label, child.render(go())) for kind, label, go in child.batch(ctx.seed, idx, N)]
    fd, path = tempfile.mkstemp(prefix='c22-')
    os.close(fd)
    try:
        e = {k: v for k, v in ENV.items() if not k.startswith('PYTHON')}
        e['PYTHONHASHSEED'] = hashseed
        e.update(env)
        if setting == 'zip':
            e['VERIF_C22_ZIP'] = archive(path + '.zip')
        r = subprocess.run([sys.executable, '-B'] + opts + [os.path.abspath(child.__file__), str(ctx.seed), str(idx), str(N), setting, path],
                           env=e, cwd=CWD, umask=UMASK, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
        text = open(path).read()
    finally:
        os.unlink(path)
        if setting == 'zip':
            os.unlink(path + '.zip')
    where = {'mode': name, 'hash_seed': hashseed}
    if r.returncode != 0 or not text:
        judge.fail('the process of mode %r ended with %d' % (name, r.returncode), got=r.stderr.decode('latin1')[-1500:], **where)
    got = json.loads(text)
    lines = [tuple(x) for x in got['lines']]
    ctx.calls += 2 * len(want)
    if [x[:2] for x in lines] != [x[:2] for x in want]:
        raise RuntimeError('the inputs themselves differ in mode %r' % name)
    for a, b in zip(want, lines):
        if a != b:
            judge.fail('the outcome is another in a process of mode %r' % name, got=b, here=a, **where)
        ctx.count('calls compared with another process')
        if a[2].startswith('error '):
            ctx.count('errors compared with another process')
    if r.stdout or r.stderr:
        judge.fail('the library writes output in mode %r' % name, got=(r.stdout + r.stderr).decode('latin1')[:1500], **where)
    if got['changed']:
        judge.fail('the state of the interpreter changed: %s' % ', '.join(got['changed']), **where)
    if got['events']:
        judge.fail('forbidden actions during conversions: %s' % ', '.join(sorted(set(got['events']))), **where)
    ctx.count('processes')
    ctx.seen('modes', name)
    ctx.seen('hash seeds', hashseed)
    ctx.nontrivial(hash((idx, name)))
    ctx.sample('%s: %r' % (name, want[0]))

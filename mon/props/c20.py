"""The generated README files follow from their sources."""
import os
import re
import shutil
import subprocess
import sys
import tempfile

from .. import judge
from ..lib import REPO, Skip

QUICK, THOROUGH = 3600, 80000
RULE = ('a copy of prebuild.py is run in a scratch directory on random README.rst.in and CHANGES.rst (all roles, repeated, adjacent, '
        'near-misses, non-ASCII, no final newline, empty) under several locales, once or twice; the files written, and their '
        'texts, are compared with the documented substitution; non-trivial: at least one role')
FLOORS = {'runs': 400, 'roles replaced': 1500, 'near-misses kept': 500}
NO_COVERAGE = True
ROLES = [(":class:`dict`", "*dict*"), (":class:`tuple`", "*tuple*"), (":class:`.SQLParams`", "`SQLParams`_"),
         (":meth:`.SQLParams.format`", "`SQLParams.format`_"), (":meth:`.SQLParams.formatmany`", "`SQLParams.formatmany`_"),
         (":mod:`sqlparams`", "*sqlparams*")]
NEAR = [":class:`list`", ":class:`dict", "class:`dict`", ":meth:`.SQLParams`", ":mod:`.sqlparams`", ":class:`SQLParams`", "*dict*",
        ":meth:`.SQLParams.formatmany", "`SQLParams`_", ":attr:`x`", "``:class:``", ":class:`.SQLParams.format`", ":func:`f`",
        ":class:`Dict`", ":CLASS:`dict`", ":class:`DICT`", ":class:\n`dict`", ":class: `dict`", ":class:`dict `", ":class:`~.SQLParams`", ":meth:`SQLParams.format`", ":meth:`.SQLParams.Format`",
        ":meth:`.SQLParams.format()`", ":mod:`sqlparams.prebuild`", ":py:class`dict`", ":class:`tuples`", ":class:`a dict`", ".. _`SQLParams`: http://elsewhere\n", ":obj:`dict`", ":class:'dict'"]
TEXT = ['SQL Params\n==========\n', '\n', '\n\n', ' and ', 'é日本', '\U0001f40d', '.. code-block:: python\n\n\tsql.format("x")\n',
        'WHERE x = :name', '%s', '\\', '\t', ' ', '{0}', '$1', '.. _`x`: http://x\n', '\u2028', '\x85', 'a', ':', '`', '::\n', '\ufeff', 'e\u0301', '``', '  \n', ' \t\n', '\n\n\n', '\x0c', '\x00', '&lt;', '<b>', '\\ s', '**', '\u0130', '\\n', '%(x)s', '\n=====\n', '    indented\n', '\xa0']


ONE = re.compile('|'.join(re.escape(a) for a, _ in ROLES))


def _passes(text, roles):
    for a, b in roles:
        text = text.replace(a, b)
    return text


def case(rng, ctx):
    parts, want = [], []
    for _ in range(rng.choice([0, 1, 3, 10, 40, 40, 300]) if rng.random() < 0.99 else 30000):
        r = rng.random()
        if r < 0.45:
            a, b = rng.choice(ROLES)
            ctx.count('roles replaced')
        elif r < 0.65:
            a = b = rng.choice(NEAR)
            ctx.count('near-misses kept')
        else:
            a = b = rng.choice(TEXT)
        parts.append(a)
        want.append(b)
        if rng.random() < 0.6:
            parts.append(' ')
            want.append(' ')
    src, body = ''.join(parts), ''.join(want)
    # Text joined by chance must mean the same: substitute the source, too.
    alt = src
    for a, b in ROLES:
        alt = alt.replace(a, b)
    if alt != body:
        body = alt
    # Roles which overlap, or come out of a substitution, are open.
    if any(_passes(src, order) != body for order in (ROLES[::-1], ROLES[3:] + ROLES[:3], ROLES[::-1][3:] + ROLES[::-1][:3])) or ONE.sub(
            lambda m: dict(ROLES)[m.group()], src) != body:
        ctx.count('roles overlap')
        raise Skip
    changes = ''.join(rng.choice(TEXT + NEAR + [r[0] for r in ROLES]) for _ in range(rng.choice([0, 2, 10]) if rng.random() < 0.99 else 20000))
    old = rng.random() < 0.5
    d = tempfile.mkdtemp(prefix='verif-c20-')
    try:
        os.chmod(d, 0o700)
        shutil.copy(os.path.join(REPO, 'prebuild.py'), os.path.join(d, 'prebuild.py'))
        files = {'README.rst.in': src, 'CHANGES.rst': changes, 'other.txt': 'keep'}
        if old:
            # Shorter and longer than what is written over them.
            for f in ('README.rst', 'README-dist.rst'):
                files[f] = rng.choice(['', 'old', 'old text which is longer than the new one ' * (50 + len(src + changes) // 20)])
        for f, t in files.items():
            with open(os.path.join(d, f), 'w', encoding='utf8', newline='') as fh:
                fh.write(t)
        env = dict(os.environ)
        env.update(rng.choice([{'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}, {'LC_ALL': 'C.UTF-8'}, {'LANG': 'POSIX'}]))
        times = rng.choice([1, 1, 2])
        for _ in range(times):
            p = subprocess.run([sys.executable, '-B', 'prebuild.py'], cwd=d, env=env, capture_output=True, timeout=60)
            ctx.calls += 1
            if p.returncode:
                judge.fail('prebuild.py fails: %s' % p.stderr.decode('utf8', 'replace')[-400:], sql=src)
        now = {}
        for f in sorted(os.listdir(d)):
            if f != 'prebuild.py':
                with open(os.path.join(d, f), encoding='utf8', newline='') as fh:
                    now[f] = fh.read()
        if set(now) != set(files) | {'README.rst', 'README-dist.rst'}:
            judge.fail('files written: %s' % sorted(now), sql=src)
        for f in ('README.rst.in', 'CHANGES.rst', 'other.txt'):
            if now[f] != files[f]:
                judge.fail('%s was changed' % f, sql=src)
        r = now['README.rst']
        if not r.startswith(body):
            judge.fail('the text of README.rst', sql=src, got=r, expected=body)
        foot = r[len(body):]
        if not foot.startswith('\n'):
            judge.fail('the link targets do not start on their own line', sql=src, got=foot)
        links = re.findall(r'^\.\. _`(.+?)`: (\S+)$', foot, re.M)
        if sorted(l for l, _ in links) != ['SQLParams', 'SQLParams.format', 'SQLParams.formatmany']:
            judge.fail('the link targets', sql=src, got=foot)
        for l, u in links:
            if not u.endswith('#sqlparams.' + l):
                judge.fail('the target of %s is %s' % (l, u), sql=src, got=foot)
        if re.sub(r'^\.\. _`(.+?)`: (\S+)$', '', foot, flags=re.M).strip():
            judge.fail('extra text after the links', sql=src, got=foot)
        if now['README-dist.rst'] != r + '\n\n' + changes:
            judge.fail('README-dist.rst is not README.rst and CHANGES.rst', sql=src, got=now['README-dist.rst'])
        ctx.count('runs', times)
        ctx.seen('environments', repr(sorted(set(env.items()) - set(os.environ.items()))))
        if src != body:
            ctx.nontrivial(hash((src, changes)))
        ctx.sample('%r -> %r' % (src[:100], r[:100]))
    finally:
        shutil.rmtree(d, ignore_errors=True)

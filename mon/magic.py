"""
A dictionary for the generators: integer and string constants found in the
tree under test, as fuzzers take one from a binary. It only steers inputs.
"""
import ast
import os
import re

from .lib import REPO


def harvest():
    ints, strs, big = set(), set(), set()
    d = os.path.join(REPO, 'sqlparams')
    for f in sorted(os.listdir(d)):
        if not f.endswith('.py') or f == '_meta.py':
            continue
        try:
            with open(os.path.join(d, f), encoding='utf8') as fh:
                tree = ast.parse(fh.read())
        except SyntaxError:
            continue
        # Numbers as the compiler folds them.
        todo = [compile(tree, f, 'exec', dont_inherit=True)]
        while todo:
            k = todo.pop()
            if hasattr(k, 'co_consts'):
                todo.extend(k.co_consts)
            elif isinstance(k, (tuple, frozenset)):
                todo.extend(k)
            elif type(k) is int and 0 <= k <= 5000:
                ints.update((max(k - 1, 0), k, k + 1))
            elif type(k) is int and 5000 < k <= 150000:
                big.update((k - 1, k + 1))
        doc = set()
        for node in ast.walk(tree):
            if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                doc.add(id(node.value))
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant) and id(node) not in doc:
                v = node.value
                if isinstance(v, int):
                    continue
                if isinstance(v, bytes):
                    strs.add(v.decode('latin1'))
                elif isinstance(v, str) and len(v) <= 40:
                    strs.add(v)
    names = sorted({w for s in strs for w in re.findall(r'[A-Za-z_][A-Za-z0-9_]*', s)
                    if len(w) <= 30})
    frags = sorted(s for s in strs if s and len(s) <= 12)
    return sorted(ints), names, frags, sorted(big)


INTS, NAMES, FRAGS, BIG = harvest()


def long_count(rng):
    """How many sets or parameters are very many."""
    r = rng.random()
    if BIG and r < 0.3:
        return rng.choice(BIG)
    if r < 0.88:
        return rng.choice([1001, 1025, 2049, 3000, 4097, 5001, 8193, 10001])
    return rng.choice([16385, 20001, 32769, 50001, 65537, 70000, 100001])

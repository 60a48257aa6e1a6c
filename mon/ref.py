"""
Reference semantics, written from the documentation and independent of the
implementation (no regular expressions are shared with it): scanners for the
in-styles, comment stripping, the expected item sequence, and readers which
take a converted query apart the way a database driver does.

Everything the documentation leaves open is *flagged*, and flagged cases are
never judged.
"""

STYLES = ['format', 'named', 'named_dollar', 'named_oracle', 'named_sqlserver',
          'numeric', 'numeric_dollar', 'pyformat', 'qmark']
SIG = {'format': '%', 'named': ':', 'named_dollar': '$', 'named_oracle': ':',
       'named_sqlserver': '@', 'numeric': ':', 'numeric_dollar': '$',
       'pyformat': '%', 'qmark': '?'}
NAMED = ['named', 'named_dollar', 'named_oracle', 'named_sqlserver', 'pyformat']
NUMERIC = ['numeric', 'numeric_dollar']
ORDINAL = ['format', 'qmark']
PERCENT = ['format', 'pyformat']
DEFAULT_COMMENTS = (("/*", "*/"), "--")


def kind(style):
    if style in NAMED:
        return 'named'
    if style in NUMERIC:
        return 'numeric'
    return 'ordinal'


ASCII_START = frozenset('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_')
ASCII_DIGIT = frozenset('0123456789')


def is_word(c):
    return c == '_' or c.isalnum()


def _name(text, i, flags):
    """Longest name at i: (end, name) or None."""
    n = len(text)
    if i >= n:
        return None
    c = text[i]
    if c not in ASCII_START:
        if ord(c) > 127 and is_word(c):
            flags.add('non-ascii start')
        return None
    j = i + 1
    while j < n and is_word(text[j]):
        if ord(text[j]) > 127 and not ('a' + text[j]).isidentifier():
            flags.add('non-identifier word character')
        j += 1
    return j, text[i:j]


def _param(style, text, i, flags):
    """Parse the parameter whose initial character is at i: (end, ref) or None."""
    n = len(text)
    if style == 'format':
        return (i + 2, None) if text[i + 1:i + 2] == 's' else None
    if style == 'qmark':
        return (i + 1, None) if text[i + 1:i + 2] != '?' else None
    if style == 'pyformat':
        if text[i + 1:i + 2] != '(':
            return None
        r = _name(text, i + 2, flags)
        if r is None or text[r[0]:r[0] + 2] != ')s':
            return None
        return r[0] + 2, r[1]
    if style in NUMERIC:
        j = i + 1
        while j < n and text[j] in ASCII_DIGIT:
            j += 1
        if j < n and ord(text[j]) > 127 and text[j].isdecimal():
            flags.add('non-ascii digit')
        if j == i + 1:
            return None
        return j, int(text[i + 1:j])
    if style == 'named_oracle':
        if text[i + 1:i + 2] == '"':
            r = _name(text, i + 2, flags)
            if r is None or text[r[0]:r[0] + 1] != '"':
                return None
            if text[r[0] + 1:r[0] + 2] == '"':
                flags.add('doubled quote')
            return r[0] + 1, r[1]
        r = _name(text, i + 1, flags)
        if r is None:
            return None
        return r[0], r[1].upper()
    r = _name(text, i + 1, flags)
    return r


def scan(style, esc, text):
    """
    Split text by the in-style: list of ('lit', text), ('esc', raw, literal) and
    ('par', raw, ref); plus the set of flags for everything unspecified.
    """
    sig = SIG[style]
    flags = set()
    toks = []
    lit = []
    i = 0
    n = len(text)
    doubling = esc is not None and esc == sig
    after_esc = False
    while i < n:
        if esc is not None and text.startswith(esc, i) and text.startswith(sig, i + len(esc)):
            if not doubling and lit and text[:i].endswith(esc):
                flags.add('escape after escape character')
            if lit:
                toks.append(('lit', ''.join(lit)))
                lit = []
            end = i + len(esc) + 1
            toks.append(('esc', text[i:end], sig))
            i = end
            after_esc = True
            continue
        c = text[i]
        if c == sig:
            if after_esc and not doubling:
                flags.add('initial character after custom escape')
            guarded = not doubling and i > 0 and text[i - 1] == sig
            r = None if guarded else _param(style, text, i, flags)
            if r is not None:
                if lit:
                    toks.append(('lit', ''.join(lit)))
                    lit = []
                toks.append(('par', text[i:r[0]], r[1]))
                i = r[0]
                after_esc = False
                continue
        lit.append(c)
        i += 1
        after_esc = False
    if lit:
        toks.append(('lit', ''.join(lit)))
    return toks, flags


# ---------------------------------------------------------------- comments

def _lines(text):
    """Split after each newline character only."""
    out = []
    i = 0
    while i < len(text):
        j = text.find('\n', i)
        j = len(text) if j < 0 else j + 1
        out.append((i, j))
        i = j
    return out


def _strip_pass(styles, text, flags):
    out = []
    i = 0
    n = len(text)
    at_start = True
    while i < n:
        if at_start:
            j = i
            while j < n and text[j] in ' \t':
                j += 1
            hit = None
            for c in styles:
                start = c if isinstance(c, str) else c[0]
                if text.startswith(start, j) and hit is None:
                    if isinstance(c, str):
                        e = text.find('\n', j + len(start))
                        hit = (n if e < 0 else e + 1, True)
                    else:
                        e = text.find(c[1], j + len(start))
                        if e >= 0:
                            e += len(c[1])
                            if text.startswith('\r\n', e):
                                hit = (e + 2, True)
                            elif text.startswith('\n', e):
                                hit = (e + 1, True)
                            else:
                                hit = (e, False)
            if hit is not None:
                i, at_start = hit
                continue
        e = text.find('\n', i)
        e = n if e < 0 else e + 1
        out.append(text[i:e])
        i = e
        at_start = True
    return ''.join(out)


def strip_comments(styles, text):
    """Returns the stripped text and flags. Flags what depends on the order of
    the comment styles."""
    flags = set()
    if not styles:
        return text, flags
    one = _strip_pass(styles, text, flags)
    seq = text
    for c in styles:
        seq = _strip_pass([c], seq, flags)
    if one != seq:
        flags.add('order of comment styles')
    return seq, flags


# ---------------------------------------------------------------- expectation

def expected_items(in_style, out_style, expand, toks, logical):
    """
    The converted query by the documentation: list of ('lit', text as it appears
    in the converted query) and ('ph', value, identity).

    *logical* maps reference -> value (ordinal: position -> value).
    """
    items = []
    lit = []

    def flush():
        if lit:
            items.append(('lit', ''.join(lit)))
            lit.clear()

    double = in_style not in PERCENT and out_style in PERCENT
    pos = 0
    for t in toks:
        if t[0] == 'lit':
            lit.append(t[1].replace('%', '%%') if double else t[1])
        elif t[0] == 'esc':
            lit.append('%%' if t[2] == '%' and out_style in PERCENT else t[2])
        else:
            ref = t[2]
            if ref is None:
                ref = pos
                pos += 1
            v = logical[ref]
            if expand and isinstance(v, tuple):
                if not len(v):
                    lit.append('(NULL)')
                else:
                    lit.append('(')
                    for k, sub in enumerate(v):
                        if k:
                            lit.append(',')
                        flush()
                        items.append(('ph', sub, (ref, k)))
                    lit.append(')')
            else:
                flush()
                items.append(('ph', v, (ref, None)))
    flush()
    return items


def walk(items, out_style, sql):
    """
    Walk the converted query along the expected items. Returns (keys, None): the
    out-reference at each placeholder (None for ordinal), or (None, offset) at
    the first difference.
    """
    i = 0
    keys = []
    n = len(sql)
    for x, it in enumerate(items):
        if it[0] == 'lit':
            if not sql.startswith(it[1], i):
                return None, i
            i += len(it[1])
            continue
        if out_style == 'qmark':
            if sql[i:i + 1] != '?':
                return None, i
            i += 1
            keys.append(None)
        elif out_style == 'format':
            if sql[i:i + 2] != '%s':
                return None, i
            i += 2
            keys.append(None)
        elif out_style == 'pyformat':
            if sql[i:i + 2] != '%(':
                return None, i
            j = sql.find(')s', i)
            if j < 0:
                return None, i
            keys.append(sql[i + 2:j])
            i = j + 2
        else:
            if sql[i:i + 1] != SIG[out_style]:
                return None, i
            if out_style == 'named_oracle' and sql[i + 1:i + 2] == '"':
                j = sql.find('"', i + 2)
                if j < 0:
                    return None, i
                keys.append(sql[i + 1:j + 1])
                i = j + 1
                continue
            j = i + 1
            while j < n and is_word(sql[j]):
                j += 1
            # Literal text may directly continue the placeholder.
            cut = 0
            if x + 1 < len(items) and items[x + 1][0] == 'lit':
                nxt = items[x + 1][1]
                while cut < len(nxt) and is_word(nxt[cut]):
                    cut += 1
                if sql[j - cut:j] != nxt[:cut]:
                    return None, i
            key = sql[i + 1:j - cut]
            if not key or j - cut <= i + 1:
                return None, i
            if out_style in NUMERIC:
                if not (key.isdecimal() and key.isascii()):
                    return None, i
                key = int(key)
            keys.append(key)
            i = j - cut
    if i != n:
        return None, i
    return keys, None


class Unreadable(Exception):
    pass


def read_out(style, sql):
    """
    Read a converted query like a driver of the style: list of ('lit', text) with
    percents unescaped, and ('ph', key). Raises Unreadable where a driver would.
    """
    out = []
    lit = []
    i = 0
    n = len(sql)
    sig = SIG[style]

    def flush():
        if lit:
            out.append(('lit', ''.join(lit)))
            lit.clear()

    while i < n:
        c = sql[i]
        if c != sig:
            lit.append(c)
            i += 1
            continue
        if style in PERCENT:
            if sql[i + 1:i + 2] == '%':
                lit.append('%')
                i += 2
            elif style == 'format' and sql[i + 1:i + 2] == 's':
                flush()
                out.append(('ph', None))
                i += 2
            elif style == 'pyformat' and sql[i + 1:i + 2] == '(':
                j = sql.find(')s', i)
                if j < 0:
                    raise Unreadable(i)
                flush()
                out.append(('ph', sql[i + 2:j]))
                i = j + 2
            else:
                raise Unreadable(i)
            continue
        if style == 'qmark':
            flush()
            out.append(('ph', None))
            i += 1
            continue
        j = i + 1
        if style == 'named_oracle' and sql[j:j + 1] == '"':
            e = sql.find('"', j + 1)
            if e < 0:
                raise Unreadable(i)
            flush()
            out.append(('ph', sql[j:e + 1]))
            i = e + 1
            continue
        while j < n and is_word(sql[j]):
            j += 1
        if j == i + 1:
            lit.append(c)
            i += 1
            continue
        key = sql[i + 1:j]
        if style in NUMERIC:
            if not (key.isascii() and key.isdecimal()):
                raise Unreadable(i)
            key = int(key)
        flush()
        out.append(('ph', key))
        i = j
    flush()
    return out


def clean_for(out_style, items, in_percent):
    """Whether no literal text could be taken for (a part of) an out-placeholder,
    so that the driver's reading of the converted query is determined."""
    sig = SIG[out_style]
    glue = out_style in NUMERIC or (out_style in NAMED and out_style != 'pyformat')
    prev_ph = False
    for it in items:
        if it[0] == 'lit':
            t = it[1]
            if out_style in PERCENT:
                if in_percent and '%' in t.replace('%%', ''):
                    return False
            elif sig in t:
                return False
            if glue and prev_ph and is_word(t[0]):
                return False
            prev_ph = False
        else:
            if prev_ph and out_style == 'qmark':
                pass
            prev_ph = True
    return True


def lookup_out(out_style, key, params, pos):
    """What the driver binds to an out-reference."""
    if key is None:
        return params[pos]
    if out_style in NUMERIC:
        if key < 1:
            raise IndexError(key)
        return params[key - 1]
    return params[key]

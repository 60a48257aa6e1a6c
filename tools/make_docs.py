#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INIT, CONV, STY = 'sqlparams/__init__.py', 'sqlparams/_converting.py', 'sqlparams/_styles.py'
TESTS = 'The existing tests convert a few dozen fixed queries per pair of styles with one or two values each; '

P = []


def add(id, title, statement, over, quant, why, files, mech, observe, technique, note, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, state=state, hook=hook))


FM = ['SQLParams.format() return value', 'SQLParams.formatmany() return value']

add('C01', 'Every placeholder stays bound to its own value',
    'For every pair of styles, each parameter of the source query whose value is V appears in the converted query, at the same place, '
    'as a placeholder of the out-style which a driver resolves in the converted parameters to that same object V (for an expanded '
    'tuple: one placeholder per element, in order). Converting between named styles keeps each name. '
    '(Literal text that itself reads as a placeholder of the out-style is outside of this property.)',
    ['inputs', 'configurations'],
    'all 81 pairs of styles, all queries (parameter order, repetition, adjacency, names which are prefixes of each other, numbers '
    'of several digits), all values and shapes, all settings',
    TESTS + 'misbinding needs a particular combination of order, repetition, names, tuple sizes and style pair.',
    [INIT, CONV, STY],
    [('__regex_replace callbacks and out_lookup tables', CONV), ('__convert_params', CONV), ('param_regex and out_format', STY)],
    FM, 'runtime monitor: driver-side reader of the converted query plus identity check of every resolved value, on random and hostile workloads',
    'each observed call is judged by an independent reader of all nine placeholder syntaxes; nothing is claimed about unexecuted inputs')

add('C02', 'Query text outside of parameters survives unchanged',
    'Everything in the query that is not a parameter (or an enabled escape sequence or stripped comment) appears in the converted '
    'query unchanged and in the same place: doubled initial characters such as "::", casts, times, other styles\' placeholders, '
    'quotes, line endings, control and non-ASCII characters. The only rewriting is that "%" is doubled when converting from a '
    'non-percent style to "format" or "pyformat".',
    ['inputs', 'configurations'], 'all query texts over all of Unicode, all pairs of styles, with escaping on and off',
    TESTS + 'the set of texts that must not be taken for a parameter is unbounded.',
    [INIT, CONV, STY],
    [('in-style regular expression', INIT + ' __create_in_regex'), ('out_percent replacement', CONV), ('param_regex guards', STY)],
    FM, 'runtime monitor: character-by-character comparison with a hand-written scanner (no regular expressions) on random and hostile texts',
    'the reference scanner is the reading of the documentation; what that leaves open (non-ASCII first characters and digits) is skipped and counted')

add('C03', 'Parameter values never reach or influence the query',
    'The converted query depends only on the source query, the settings, and which values are tuples and how long they are; no value is ever '
    'rendered into it. Values are passed on as the same objects, never inspected, copied, converted or iterated (except that tuples '
    'are taken apart).',
    ['inputs', 'configurations'], 'all values of all types, including objects with hostile methods and strings which look like placeholders or SQL',
    TESTS + 'they use plain strings and integers, so leaking or inspecting other kinds of values shows nothing.',
    [CONV], [('replacement strings built from names and counters only', CONV + ' __regex_replace'), ('__convert_params, __convert_many_params', CONV)],
    FM, 'runtime monitor: hostile values which record every operation on them; differential comparison of queries under changed values',
    'hooked magic methods of the values are the monitor; any recorded touch, replaced object or value-dependent query is a violation')

add('C04', 'Tuples expand to parenthesised lists of exactly their elements',
    'When expansion is on (by default exactly for numeric and ordinal out-styles), a tuple (or instance of a tuple subclass) becomes '
    '"(p1,p2,...)" with one placeholder per element in order, and an empty tuple becomes "(NULL)" with no parameter; only one level is '
    'expanded. Lists, strings, sets and all other values, and tuples when expansion is off, are passed whole as one parameter.',
    ['inputs', 'configurations'], 'all tuple sizes from 0 to over a thousand, subclasses, nesting, mixtures with scalars, repeated tuples, all pairs of styles and ways to set expansion',
    TESTS + 'tuples have two or three elements and stand alone.',
    [INIT, CONV], [('expand_tuples default', INIT + ' __init__'), ('tuple branch of __regex_replace', CONV)],
    FM, 'runtime monitor: structural comparison of every expanded list, its numbering and its values with the reference expansion',
    'sizes 0 to 1025 and dictionary-harvested sizes are exercised, values are compared by identity')

add('C05', 'formatmany() agrees with format() on every set of parameters',
    'For a batch of parameter sets with the same shapes (same scalars, same tuple sizes), formatmany() returns the query which format() returns '
    'for any one of them, and a list holding for each set, in order, an own object equal to the parameters format() returns for that set. '
    'The batch may be any iterable, is iterated once, and the kind of container may differ from set to set.',
    ['inputs', 'histories'], 'all batches of 1 to over 1000 sets, all iterables including one-shot generators, all pairs of styles',
    TESTS + 'batches have three uniform sets given as lists.',
    [INIT, CONV], [('convert_many and __convert_many_params', CONV), ('first set chained back in front', CONV)],
    FM + ['pulls of the iterable'], 'runtime monitor: differential comparison of formatmany() rows with format() and with the reference; recording iterables',
    'rows are sampled for format(), all rows are judged by the reference; Oracle sets which respell a name differently than the first set are a known finding')

add('C06', 'Batches whose tuples do not fit the first set are rejected',
    'If the first set of a batch expands a tuple of size n for some parameter, then formatmany() raises ValueError when a later set has a tuple of '
    'another size there (larger, smaller, empty, or non-empty after an empty first one), and TypeError when it has a non-tuple. It never returns truncated, '
    'padded or shifted parameters.',
    ['inputs', 'histories'], 'all sizes, all positions of the misfit in the batch and in the query, all pairs of styles',
    'The existing tests have one longer and one shorter tuple in the second set of a few style pairs; a check missing in one converter or for one size stays unseen.',
    [CONV], [('length and type checks in __convert_many_params', CONV)],
    ['errors raised by SQLParams.formatmany()'], 'runtime monitor: fault injection of one misfit per batch, exception oracle, uniform control batches',
    'one planted misfit per execution; controls must pass')

add('C07', 'Escape sequences become literals, and only when enabled',
    'With an escape character set, the escape followed by the initial character of the in-style becomes that single character (kept escaped as "%%" if the out-style is a '
    'percent style and the character is "%"), is never taken for a parameter, and the parameter or text after it is read normally. With the default escape (doubling), runs '
    'are read from left to right in pairs. Without an escape character, doubled initial characters stay as they are and start no parameter.',
    ['inputs', 'configurations'], 'all runs of initial and escape characters around parameters, default, custom, regex-special and multi-character escapes, all pairs of styles',
    TESTS + 'escapes stand alone between spaces, with the default or a backslash.',
    [INIT, CONV, STY], [('escape_regex', STY), ('__create_in_regex', INIT), ('Converter._unescape', CONV)],
    FM, 'runtime monitor: comparison with a left-to-right reference scanner on escape-dense workloads',
    'sequences whose reading the documentation leaves open (initial character right after a custom escape sequence, escape of an escape) are skipped and counted')

add('C08', 'Queries converted to a percent style survive the driver\'s formatting',
    'When a query is converted to "format" or "pyformat" and a driver applies Python\'s "%" operator to it with the converted parameters, formatting succeeds and every literal percent '
    'sign of the source comes out as it was meant, with each value in its place. This holds from every in-style, with escaping on or off, '
    'provided that a percent in-style source escapes its own literal percents as "%%".',
    ['inputs', 'configurations'], 'all placements of percent signs (LIKE patterns, modulo, "%s", "%(", "%%") in literal text, all in-styles, both percent out-styles',
    'The existing tests check a handful of literal outputs and never apply the % operator.',
    [INIT, CONV, STY], [('out_percent group', INIT + ' __create_in_regex'), ('_unescape and out_percent branches', CONV)],
    ['converted query and parameters under Python % formatting'], 'runtime monitor: Python\'s own % operator as the driver, against the source with markers substituted',
    'the oracle is the interpreter\'s % operator and does not use the reference for the out-style')

add('C09', 'Comment stripping removes exactly whole-line comments',
    'With comment stripping on, a comment which is the first thing on its line (after spaces or tabs) is removed: single-line ones with their line, multi-line ones up to their end '
    'marker and the line break after it; trailing comments, markers inside lines and unclosed comments stay. Parameters and escapes inside removed comments need no values, and the conversion equals '
    'that of the stripped query; with stripping off (None or False) nothing is removed.',
    ['inputs', 'configurations'], 'all placements of comments, line endings, custom single-line and multi-line markers with regex-special characters, all pairs of styles',
    'The existing tests strip a few fixed queries with "\\n" line ends.',
    [INIT], [('__create_strip_comment_regexes', INIT), ('__strip_comments_from_sql before conversion', INIT)],
    FM, 'runtime monitor: comparison with a line-based reference stripper, and with the non-stripping conversion of the stripped text',
    'texts whose result would depend on the order of the comment styles, or with odd white space before a comment, are skipped and counted')

add('C10', 'Byte strings and strings convert alike',
    'A bytes query gives a bytes query and a str query a str query; for every bytes query the result is byte for byte that of the str query with the same code points (latin-1), '
    'all 256 byte values in literal text survive, and the converted parameters are the same. This holds for format() and formatmany().',
    ['inputs', 'configurations'], 'all byte values in all positions, all pairs of styles and settings',
    'The existing tests convert one ASCII bytes query per style pair.',
    [INIT], [('_BYTES_ENCODING decode and encode', INIT + ' format, formatmany')],
    FM, 'runtime monitor: differential comparison of bytes and str conversions, and of the bytes with the reference text',
    'Oracle names whose upper case leaves latin-1 are a known finding')

add('C11', 'Oracle names: case-insensitive unless quoted',
    'In the "named_oracle" in-style, :name, :NAME and :"NAME" are one parameter and :"name" is another; keys of the parameters follow the same rule, with a quoted key for a quoted name, and '
    'a case-sensitive name is never served by another spelling (LookupError). As the out-style, names are quoted, in the query and as keys of the parameters alike, exactly when '
    'allow_out_quotes is set.',
    ['inputs', 'configurations'], 'all spellings of names in query and parameters, mixtures of quoted and unquoted names, every other style on the other side',
    'The existing tests have a few queries with one or two names each.',
    [CONV, STY], [('upper() and quote handling in __regex_replace', CONV), ('_unquote_oracle_param, _quote_oracle_param', CONV)],
    FM, 'runtime monitor: reference canonicalisation, metamorphic respelling, and planted wrong spellings',
    'doubled quotes and malformed quotes are left open by the documentation and skipped')

add('C12', 'Converted parameters are exactly those the query references',
    'The converted parameters are a list (numeric and ordinal out-styles) or a dict (named), holding nothing but what the converted query references: one entry per placeholder for ordinal, '
    'numbers 1..n without gaps in order of first appearance for numeric (repeats of a parameter or expanded tuple reuse its numbers), and one valid distinct name per parameter or tuple element for named. '
    'Unused parameters are dropped.',
    ['inputs', 'configurations'], 'all patterns of repetition, skipping, reordering and unused extras, with tuples, all pairs of styles, format() and formatmany()',
    TESTS + 'few repeat or skip parameters, or repeat tuples.',
    [CONV], [('out_lookup and out_counter', CONV), ('param_conversions', CONV)],
    FM, 'runtime monitor: conservation check between references read from the query and entries of the parameters',
    'numbering, reuse and completeness are checked on every observed result')

add('C13', 'Input which does not fit is rejected, never bound to something else',
    'If a parameter of the query has no value (absent name, number or key, too short a sequence, number 0, in the only or any later set), the call raises LookupError instead of binding any other value. Containers of the wrong type (a non-mapping '
    'for named styles; neither mapping nor sequence, or a string, for the others), queries that are neither str nor bytes, and non-iterable batches raise TypeError; an empty batch raises ValueError. An error raised by the caller\'s own containers or batch ends the call; it gives no result. Unknown styles and settings of the wrong '
    'type are refused when the instance is made (LookupError, TypeError or ValueError).',
    ['inputs', 'configurations', 'fault_sequences'], 'all positions of the missing value, near-miss keys left in its place, all wrong types, all pairs of styles',
    'The existing tests probe almost no bad input.',
    [INIT, CONV, 'sqlparams/_util.py'], [('isinstance checks in convert and convert_many', CONV), ('look-ups that raise', CONV), ('argument checks', INIT), ('is_iterable, is_sequence', 'sqlparams/_util.py')],
    ['errors raised by SQLParams(), format(), formatmany()'], 'runtime monitor: single-fault injection into otherwise sound calls, exception oracle, sound twins',
    'each execution plants one fault; sound twins show that the refusal is due to it')

add('C14', 'Instances can be reused and calls have no side effects',
    'The result of a call depends on its arguments and the settings alone: after any history of other calls on the same or other instances, successful, failing, aborted by an exception at any point, or re-entered from the caller\'s containers, a '
    'call returns what a fresh instance returns. Arguments, module-level state, attributes and earlier results are never changed, and results are new objects which the caller may modify and whose values are not kept alive.',
    ['histories', 'fault_sequences'], 'all sequences of calls over shared instances, related instances and repeated queries, with exceptions injected at any executed line',
    'The existing tests make a new instance per test and call it once.',
    [INIT, CONV, STY], [('per-call lookup tables and lists', CONV), ('converter object shared by calls', INIT + ' __init__'), ('shared style objects', STY)],
    FM + ['attributes', 'input containers', 'sqlparams._styles.STYLES'], 'runtime monitor: random histories with exception injection at line events; fresh-instance differential; snapshots',
    'histories of 6 to 40 calls; injected exceptions at line boundaries', state=[dict(name='SQLParams instance', meaning='settings and one converter, meant to be immutable', where=INIT)])

add('C15', 'Instances can be shared by threads',
    'Any number of threads may call format() and formatmany() and read the attributes of one instance (and create instances) at the same time; each call returns what it returns when made alone.',
    ['schedules'], 'all interleavings of the executed lines and bytecode instructions of 2 to 4 threads',
    'The existing tests are single-threaded.',
    [INIT, CONV], [('all per-call state is local', CONV)],
    FM, 'runtime monitor: deterministic scheduler at sys.monitoring LINE and INSTRUCTION events, free-running stress, differential and reference oracles',
    'interleavings are sampled, switches inside the library are counted; the C code of re is atomic under the GIL', state=[dict(name='SQLParams instance', meaning='shared by threads', where=INIT)])

add('C16', 'Every way to pass the same parameters gives the same result',
    'Parameters may be passed in any Mapping (named styles) and any Sequence or Mapping (numeric styles: keys 1, 2, ...; ordinal styles: keys 0, 1, ...; as integers, as strings of digits, or mixed); the result is the same for all of them. The order of entries and unused extra entries or unrelated '
    'keys make no difference (named_oracle takes strings as keys, and refuses half-quoted ones).',
    ['inputs', 'configurations'], 'all container classes, key types, orders and extras, within one batch as well',
    'The existing tests pass plain dicts and lists, and uniform keys.',
    [CONV, 'sqlparams/_util.py'], [('_mapping_as_sequence', CONV), ('Mapping and is_sequence dispatch', CONV)],
    FM, 'runtime monitor: differential comparison of four containers of the same logical parameters per case',
    'user-written minimal Mapping and Sequence classes are included')

add('C17', 'Conversions compose and round-trip',
    'The converted query and parameters are valid input for an instance whose in-style is the out-style used; converting through any chain of styles (percent in-styles with their percent escape on) preserves literal text and binding, '
    'whatever the intermediate styles. Converting back to the first style gives a query with the same text which binds the same values.',
    ['programs', 'configurations'], 'all chains of 2 to 5 conversions over the nine styles, with names distinct regardless of case and text free of the initial characters of the chain',
    'The existing tests make single conversions only.',
    [INIT, CONV, STY], [('out_format against param_regex of the same style', STY), ('percent doubling and unescaping', CONV)],
    FM, 'runtime monitor: end-to-end oracle over chains, reading the last result like its driver',
    'no intermediate result is judged, only that meaning is conserved over the chain')

add('C18', 'A real database answers as if the values were literals',
    'Executing the converted query with the converted parameters gives the rows, and leaves the table, of the source query with its values written in as properly quoted literals, whatever characters the values contain.',
    ['inputs', 'configurations', 'programs'], 'all statements and values, from every style to every style',
    'The existing tests never execute a converted query.',
    [INIT, CONV, STY], [('whole conversion', CONV)],
    ['rows returned by SQLite', 'table contents'], 'runtime monitor: differential execution on SQLite against literal-inlined statements',
    'SQLite 3 is the judge; percent and numeric styles are fed through a thin driver shim')

add('C19', 'The settings of an instance are what its attributes say',
    'in_style, out_style, escape_char, expand_tuples and strip_comments give the settings in effect, after defaults, and every documented spelling of a setting (None, False, True, explicit default; list or tuple) is equivalent. An instance '
    'rebuilt from these attributes converts identically, and repr() evaluates to an instance of the same two styles.',
    ['configurations', 'inputs'], 'all combinations of settings and spellings, with the conversion of random queries as the comparison',
    'The existing tests read no attribute and compare no spellings.',
    [INIT], [('argument normalisation', INIT + ' __init__'), ('properties and __repr__', INIT)],
    ['attributes and repr of SQLParams', 'results of format()'], 'runtime monitor: attribute oracle and differential conversion of equivalent instances',
    'quoting of Oracle out-names has no attribute and is passed on by the check')

add('C20', 'The README generator substitutes roles and nothing else',
    'Running prebuild.py turns README.rst.in into README.rst by replacing each of its six documentation roles everywhere, leaving all other text unchanged, and appending the link targets; README-dist.rst is that text, a blank line and CHANGES.rst. Only these two files are written, '
    'encoded as UTF-8 whatever the locale, and running it again changes nothing.',
    ['inputs', 'histories'], 'all source texts, locales, pre-existing outputs and repeated runs',
    'No test runs prebuild.py.',
    ['prebuild.py'], [('generate_readme, generate_readme_dist', 'prebuild.py')],
    ['files written'], 'runtime monitor: runs in scratch directories, file system and text oracle',
    'a copy of the script is run as a subprocess in a scratch directory')

add('C21', 'Large and hostile queries convert correctly in proportionate time',
    'Queries with thousands of parameters, tuples with thousands of elements, batches of thousands of sets and long texts of repeated fragments are converted correctly, and the work grows in proportion to the size of the input. No query text '
    'makes conversion hang (a multitude of unclosed comments, and Oracle names looked up in large mappings, may take quadratic time).',
    ['inputs'], 'all sizes up to tens of thousands, all repeated fragments, all pairs of styles',
    'The existing tests use queries of a few words.',
    [INIT, CONV, STY], [('regular expressions without nested repetition', STY), ('dictionary look-ups per parameter', CONV)],
    FM + ['executed lines', 'processor time'], 'runtime monitor: counted line events at sizes n, 2n and 4n, processor time watchdog, reference oracle',
    'growth is judged on counted lines with a factor 2.5 per doubling; the time limit is 20 s of processor time')

add('C22', 'The outcome is the same in every process, which is left as it was',
    'A call gives the same result, or the same kind of error, in every process, whatever the hash seed, the interpreter options (-O, -OO, -bb, -W error, -X dev), the locale, the thread, the depth of the stack or the standard streams. '
    'It writes no output, issues no warnings, opens no files for writing, starts nothing, and leaves the global state of the interpreter (random generator, environment, locale, limits, filters) as it was.',
    ['inputs', 'configurations'], 'all calls, sound or faulty, in all modes of the interpreter and all hash seeds',
    'The existing tests run in one process, of one mode, with a random hash seed nobody compares.',
    [INIT, CONV, 'sqlparams/_util.py'], [('checks by if and raise, not by assert', CONV), ('look-ups by equality of names', CONV), ('no module-level side effects', INIT)],
    FM + ['standard streams', 'audit events', 'interpreter state'], 'runtime monitor: differential execution in processes of twenty modes, audit hook, snapshots of interpreter state',
    'one version of CPython; twenty modes and random hash seeds')

add('C23', 'A process which converts for ever does not grow',
    'Memory in use does not grow with the number of calls, whatever the queries, names, values, sizes, settings and outcomes (errors included); dropped instances, queries and values are freed. Caches of a bounded number of entries are no growth.',
    ['histories', 'inputs'], 'all endless sequences of calls, with ever new queries, names, numbers, sizes, batches, instances or errors',
    'The existing tests end after a few hundred calls and never look at memory.',
    [INIT, CONV], [('per-call lookup tables and lists', CONV), ('no caches keyed by queries', INIT)],
    ['traced memory', 'allocated blocks', 'weak references to instances'], 'runtime monitor: tracemalloc and block counts over windows of thousands of calls, weak references',
    'growth is judged over three windows of 800 calls after 4600 calls to warm up, and only reported after confirmation over up to 10000 further calls')

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], observe_at=p['observe'], hook_needed=p['hook'])
        if p['state']:
            a['state'] = p['state']
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'], anchors=a)) + '\n')

PY = '/opt/venv/bin/python -B'
m = dict(version=1, setup_cmd=PY + ' -c "import sys; sys.path.insert(0, \'.\'); from mon import lib; print(lib.SQLParams)"',
         checks=[dict(property=p['id'], quick_cmd='%s check.py %s --tier quick' % (PY, p['id']),
                      thorough_cmd='%s check.py %s --tier thorough' % (PY, p['id']),
                      evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='exploration', level_note=p['note'])
                 for p in P],
         not_applicable=[],
         notes='No hooks in /repo: all monitoring is outside of it (API boundary, values and containers, sys.monitoring, sys.settrace). '
               'Known findings and fixed defects are in known_findings.json. The code is pure Python, nothing is built.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')

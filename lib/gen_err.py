"""The errors of the crates, and the localisation strings that ship with these; localisers on SQLite files."""
import os
import re
import sqlite3

import gen_loc
import gen_pat
from core import ToolError
from gen_pat import val

SHIPPED = ['crates/lexer/l10n/i18n_lexer.sqlite3', 'crates/localiser/l10n/i18n_localiser.sqlite3',
           'crates/provider/core/l10n/i18n_provider.sqlite3', 'crates/provider/sqlite3/l10n/i18n_provider_sqlite3.sqlite3']
S, U, B = 'str', 'uns', 'bool'
#: type -> variant -> kinds of its values; or the type of error that it wraps; or the foreign error
CATALOGUE = {
    'IcuError': {'Grapheme': [], 'Syntax': [], 'WhiteSpace': []},
    'LexerError': {'NoGrammar': [], 'EmptyString': []},
    'RegistryError': {'LanguageIdentifier': ('tag',)},
    'ProviderError': {'ComponentNotFound': [S], 'LanguageTagRegistry': 'RegistryError', 'DefaultLanguage': [S], 'InvalidDefaultLanguage': [S],
                      'DefaultLanguageCount': [S, S], 'Custom': 'ProviderSqlite3Error'},
    'ProviderSqlite3Error': {'Io': ('io', S), 'Sqlite3': ('sqlite', S), 'NotDirectory': [S], 'NoSqlite3Files': [S], 'PathConversion': [],
                             'NotExists': [S], 'SchemaInvalid': 'SchemaError'},
    'SchemaError': {'Sqlite3': ('sqlite', S), 'MissingTable': [S], 'Version': [S, S], 'MissingVersion': [S], 'MissingColumn': [S, S],
                    'ColumnProperty': [S, S, S], 'ColumnDefault': [S, S, S], 'ColumnMismatch': [S, S]},
    'TreeError': {'LexerError': 'LexerError', 'EndedAbruptly': [], 'UniquePattern': [S], 'MultiNumberSign': [U], 'UniqueNamed': [S]},
    'CommandError': {'Custom': '*', 'AlreadyExists': [S], 'NotFound': [S], 'ParameterMissing': [S, U], 'InvalidType': [S, U]},
    'LocaliserError': {'Registry': 'RegistryError', 'Formatter': 'FormatterError', 'Provider': 'ProviderError', 'StringNotFound': [S, S, S, B],
                       'CacheEntry': [S, S], 'NeverReached': []},
    'FormatterError': {'Localiser': 'LocaliserError', 'Tree': 'TreeError', 'Command': 'CommandError', 'Locale': ('language',),
                       'Calendar': ('calendar',), 'ParseInt': ('int', 'notint'), 'FixedDecimal': ('limit',), 'InvalidRoot': [], 'NoGrammar': [],
                       'PatternNamed': [S], 'PatternPart': [S, U], 'InvalidOptionValue': [S, S, S], 'InvalidKeyword': [S, S],
                       'SelectorNamed': [S, S, S], 'SelectorOther': [S, S], 'InvalidOption': [S, S, S], 'InvalidSelector': [S, S, S],
                       'NumberSignString': [U], 'SelectorsIndex': [U], 'SelectorsIndexNamed': [S, U], 'PlaceholderValue': [S, S],
                       'InvalidValue': [S], 'NamedStringIdentifier': [S], 'NoIcuProvider': [], 'NeverReached': []},
}
LANGS = ['en-ZA', 'it', 'en', 'en-US', 'it-IT', 'it-CH', 'de', 'fr-CA', 'ja', 'ar']


def database(path):
    db = sqlite3.connect('file:%s?mode=ro&immutable=1' % path, uri=True)
    try:
        rows = [list(r) for r in db.execute('SELECT component, identifier, languageTag, string FROM pattern ORDER BY rowID')]
        defs = dict(db.execute('SELECT identifier, languageTag FROM component'))
        return rows, defs
    finally:
        db.close()


def shipped(repo):
    rows, defs, paths = [], {}, []
    for x in SHIPPED:
        p = os.path.join(repo, x)
        if not os.path.exists(p):
            raise ToolError('not there: ' + p)
        stem = os.path.basename(p)[:-len('.sqlite3')]
        r, d = database(p)
        # a file has the strings of the component that it is named after
        rows += [y for y in r if y[0] == stem]
        defs.update({k: v for k, v in d.items() if k == stem})
        paths.append(p)
    return rows, defs, paths


def argument(rng, kind, n):
    if kind == U:
        return val('uns', str(rng.choice([0, 1, 2, 3, 7, 11, 99, 1000, 12345, 1234567, 2 ** 32, 2 ** 63, 2 ** 64 - 1])))
    if kind == B:
        return val('str', rng.choice(['true', 'false']))
    if kind == 'notint':
        return val('str', rng.choice(['', 'x', '-', '99999999999999', '1 ', '-99999999999999']))
    # distinct, so that exchanged values show
    return val('str', rng.choice(['v%d' % n, 'v%d' % n, rng.choice(gen_pat.TEXTS) + str(n), '{x%d}' % n, '`#%d{' % n, 'ä€%d' % n]))


def error(rng, t=None, v=None, depth=0):
    t = t or rng.choice(list(CATALOGUE))
    v = v or rng.choice(list(CATALOGUE[t]))
    spec = CATALOGUE[t][v]
    e = {'T': t, 'V': v, 'a': [], 'in': []}
    if isinstance(spec, tuple):
        e['foreign'] = spec[0]
        e['a'] = [argument(rng, x, 0) for x in spec[1:]]
    elif isinstance(spec, str):
        inner = rng.choice([x for x in CATALOGUE if depth < 4 or x == 'LexerError']) if spec == '*' else spec
        choice = None
        if depth > 4:
            choice = rng.choice([x for x, y in CATALOGUE[inner].items() if not isinstance(y, str)])
        e['in'] = [error(rng, inner, choice, depth + 1)]
    else:
        e['a'] = [argument(rng, x, k) for k, x in enumerate(spec)]
    return e


def fix_registry(e, ext):
    """With icu_extended the variant of a registry error is another."""
    if e['T'] == 'RegistryError' and ext:
        e['V'] = 'Locale'
    for x in e['in']:
        fix_registry(x, ext)
    return e


BROKEN = ['{', '{a', '{a}}', '{a b}', '{a decimal x#y}', '{a decimal sign#q}', '{a plural one#s}', '{a plural one#s other#t}#{s x}',
          '{a plural one#s other#t}#{s x}{s y}', '{a plural uno#s other#t}#{s x}{t y}', '##', '{#}', '{#nix}', '{#fail}', '{#fail#}', '{a} {a decimal}',
          '{b}', '{n}', '{a decimal}', '{d date_time}', 'x`', '{`x}', '{a select x#s}', '{a select x#s}#{s S}', '{a} #', 'a#b', '{a date_time date#x}',
          '{n date_time}', '{a plural}', '{a ordinal one#s}', '{n select x#s other#t}#{s S}{t T}', '{#file_path# a}', '{#english_a_or_an `x`}', '#{',
          '{a plural one#_ other#_}', '#{_ x}', '{a a a}', '{,}', '{a,}', '{ }']


PADDING = ['x', 'ä', 'e\u0301', '\u4e00', ' ']


def app_file(rng, comp, rows, default, aio=False):
    tags = sorted({r[2] for r in rows} | {default})
    return {'name': ('__all_in_one__' if aio else comp) + '.sqlite3', 'version': '1.0', 'comps': [[comp, default]], 'rows': rows,
            'contribs': [[comp, t, 'w'] for t in tags]}


def made(rng, repo, ext=False, rounds=1):
    """Every error, with values that tell the places apart, in the shipped languages and others."""
    rows, defs, paths = shipped(repo)
    out = []
    for _ in range(rounds):
        steps = []
        for t in CATALOGUE:
            for v in CATALOGUE[t]:
                for lang in ('en-ZA', 'it', rng.choice(LANGS)):
                    e = fix_registry(error(rng, t, v), ext)
                    steps.append({'op': 'e', 'e': e, 't': lang, 'fb': rng.random() < .8, 'ca': rng.choice([True, False, None])})
                    if rng.random() < .15:
                        steps.append({'op': 'ed', 'e': e})
                    if rng.random() < .05:
                        steps.append({'op': 'defaults', 't': rng.choice(LANGS), 'fb': rng.random() < .8, 'ca': rng.random() < .5})
        rng.shuffle(steps)
        for k in range(0, len(steps), 25):
            out.append({'k': 'loc', 'db': {'rows': rows, 'def': defs}, 'files': [], 'ship': paths, 'tag': rng.choice(LANGS),
                        'fb': rng.random() < .8, 'ca': rng.random() < .5, 'steps': steps[k:k + 25]})
    return out


def happened(rng, repo, count):
    """Errors that occur in the localiser, which are then localised."""
    rows, defs, paths = shipped(repo)
    out = []
    for _ in range(count):
        texts = rng.sample(BROKEN, 12)
        # some go wrong late
        late = rng.sample(range(12), 2)
        texts = [rng.choice(PADDING) * rng.choice([126, 254, 256, 257, 300, 700]) + x if k in late else x for k, x in enumerate(texts)]
        app = [['app', 'i%d' % k, 'en-ZA', x] for k, x in enumerate(texts)]
        steps = []
        for k in range(len(texts) + 2):
            v = {'a': val('str', 'va'), 'n': val('int', '3'), 'd': val('str', rng.choice(['2001-13-01', 'x', '2001-02-30', '+12345678901-01-01']))}
            c = 'app' if rng.random() < .97 else 'nowhere'
            steps.append({'op': 'format', 'c': c, 'i': 'i%d' % k, 'v': v, 't': 'en-ZA', 'fb': rng.random() < .5, 'ca': rng.random() < .5})
            steps.append({'op': 'last', 't': rng.choice(LANGS), 'fb': rng.random() < .9, 'ca': rng.random() < .5})
        out.append({'k': 'loc', 'db': {'rows': rows + app, 'def': dict(defs, app='en-ZA')}, 'files': [app_file(rng, 'app', app, 'en-ZA')],
                    'ship': paths, 'tag': 'en-ZA', 'fb': True, 'ca': False, 'steps': steps})
    return out


def strings(rng, repo):
    """Every shipped string, with a value for each of its placeholders."""
    rows, defs, paths = shipped(repo)
    steps = []
    for c, i, t, text in rows:
        names = sorted(set(re.findall(r'\{(\w+)', text)))
        v = {n: val('uns', '4321') if re.search(r'\{%s decimal' % n, text) else val('str', 'true' if n == 'fallback' else 'v' + n) for n in names}
        steps.append({'op': 'format', 'c': c, 'i': i, 'v': v, 't': t, 'fb': False, 'ca': rng.random() < .5})
        steps.append({'op': 'literal', 'c': c, 'i': i, 't': t, 'fb': False, 'ca': rng.random() < .5})
    return [{'k': 'loc', 'db': {'rows': rows, 'def': defs}, 'files': [], 'ship': paths, 'tag': 'en-ZA', 'fb': False, 'ca': False,
             'steps': steps[k:k + 40]} for k in range(0, len(steps), 40)]


def on_files(rng, focus, count, length):
    """Histories of a localiser on SQLite files."""
    out = []
    ops = [x for x in gen_loc.FOCUS[focus] if x not in ('put', 'putdef', 'fail')]
    for _ in range(count):
        w = gen_loc.World(rng, alike=0)
        w.defs = {c: w.defs.get(c, w.tags[0]) for c in w.comps}
        sc = w.scenario(ops, rng.randint(length // 2, length))
        files = []
        whole = [c for c in w.comps if rng.random() < .4]
        for c in w.comps:
            if c not in whole:
                files.append(app_file(rng, c, [r for r in w.rows if r[0] == c], w.defs[c]))
        if whole:
            rows = [r for r in w.rows if r[0] in whole]
            files.append({'name': '__all_in_one__.sqlite3', 'version': '1.0', 'comps': [[c, w.defs[c]] for c in whole], 'rows': rows,
                          'contribs': [[c, t, 'w'] for c in whole for t in sorted({r[2] for r in rows if r[0] == c} | {w.defs[c]})]})
        sc['files'] = files
        sc['db'] = {'rows': w.rows, 'def': w.defs}
        out.append(sc)
    return out

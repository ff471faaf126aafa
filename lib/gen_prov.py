"""Repositories for the Sqlite3 provider."""
import copy
from family import AIO, STANDARD, plain_tables, sql_of

ASKED = ['en', 'en-ZA', 'en-ZA-boont', 'enm', 'en-GB', 'de', 'en-Latn-ZA']
TAGS = ['en', 'en-ZA', 'en-GB', 'en-US', 'en-GB-oxendict', 'enm', 'eng', 'de', 'de-AT', 'de-1996', 'de-AT-1996', 'de-Latn', 'de-Latn-AT', 'fr', 'fr-CA',
        'zh', 'zh-Hant', 'zh-Hans', 'zh-Hant-TW', 'zh-TW', 'sr', 'sr-Latn', 'sr-Cyrl-RS', 'sr-Latn-RS', 'ca', 'ca-valencia', 'sl', 'sl-rozaj',
        'sl-nedis', 'pt', 'pt-BR', 'ja', 'es-419', 'es', 'es-MX', 'e', 'frr', 'fro', 'zho', 'za', 'hy-Latn-IT-arevela']
TAGS = [t for t in TAGS if len(t) > 1]
# with the feature icu_extended, tags keep their extensions
EXT_TAGS = TAGS[:12] + ['en-u-nu-thai', 'en-u-ca-buddhist', 'en-u-ca-buddhist-nu-thai', 'en-GB-u-nu-thai', 'en-ZA-u-co-phonebk', 'de-t-en', 'de-u-nu-latn', 'de-AT-u-nu-latn',
                        'de-1996-u-co-phonebk', 'en-x-own', 'en-GB-x-own-us', 'enm-x-own', 'de-u-co-phonebk-x-own', 'en-t-de-x-own']
IDS = ['i', 'id', 'i_d', 'ixd', 'i%', "it's", 'Id', 'ID', '漢字', 'a b', 'x.y', '', '%', '_', 'é', 'i"', 'hello-world', 'i\\']
COMPS = ['comp', 'Comp', 'my.comp', "o'comp", 'c%', 'c_1', 'cx1', 'composé', 'application', 'x', 'applications', 'Application', 'my application', 'comp ']


def from_model(db, details):
    """A repository printed by MCProv."""
    files = []
    for f in sorted(db['files']):
        files.append({'name': f + '.sqlite3', 'version': '1.0', 'comps': [[x['c'], x['d']] for x in db['comps'] if x['f'] == f],
                      'contribs': [[x['c'], x['t'], x['w']] for x in db['contribs'] if x['f'] == f],
                      'rows': [[x['c'], x['i'], x['t'], x['s']] for x in db['rows'] if x['f'] == f]})
    steps = []
    if not details:
        for t in ASKED:
            steps += [{'op': op, 'c': 'c', 'i': 'i', 't': t} for op in ('string', 'exact', 'strings')]
        steps += [{'op': op, 'c': 'c', 'i': 'none', 't': 'en'} for op in ('string', 'exact', 'strings')]
        steps += [{'op': op, 'c': 'zz', 'i': 'i', 't': 'en'} for op in ('string', 'exact', 'strings')]
    else:
        steps += [{'op': 'iddet', 'c': 'c', 'i': 'i'}, {'op': 'compdet', 'c': 'c'}, {'op': 'repdet'}, {'op': 'iddet', 'c': 'c', 'i': 'none'},
                  {'op': 'compdet', 'c': 'zz'}, {'op': 'iddet', 'c': 'zz', 'i': 'i'}, {'op': 'compdet', 'c': 'other'}, {'op': 'repdet'}]
    return {'k': 'prov', 'files': files, 'steps': steps}


class Repo:
    """A random repository."""

    def __init__(self, rng, sound=True, big=False, tags=TAGS):
        self.rng, self.all = rng, tags
        self.comps = rng.sample(COMPS, len(COMPS) if big else rng.randint(1, 4))
        if rng.random() < .5 and 'application' not in self.comps:
            self.comps.append('application')
        self.ids = rng.sample(IDS, rng.randint(1, 5))
        fam = rng.choice(tags).split('-')[0][:2]
        near = [t for t in tags if t.startswith(fam)]
        self.tags = list(dict.fromkeys(rng.sample(near, min(len(near), rng.randint(1, 6))) + rng.sample(tags, rng.randint(1, 4))))
        if big:
            self.ids = IDS + ['n%d' % k for k in range(rng.choice([0, 30, 80]))]
            self.tags = rng.sample(tags, rng.choice([12, 25, len(tags)]))
            self.comps = rng.sample(self.comps, rng.choice([2, 4, len(self.comps)]))
        people = ['Ann', 'Bob', 'Çağ', "O'Neil", 'Ann '] + (['p%d' % k for k in range(30)] if big else [])
        self.files = {}
        serial = 0
        for c in self.comps:
            where = rng.choice([[AIO], [c], [AIO, c]])
            default = rng.choice(self.tags)
            for n, f in enumerate(where):
                x = self.files.setdefault(f, {'name': f + '.sqlite3', 'version': '1.0', 'comps': [], 'contribs': [], 'rows': []})
                mine = [default] + [t for t in self.tags if rng.random() < .6 and t != default]
                if sound or rng.random() < .8:
                    x['comps'].append([c, default if sound or rng.random() < .8 else rng.choice(self.tags)])
                for t in mine:
                    if (sound and t == default) or rng.random() < .8:
                        for w in rng.sample(people, rng.randint(1, 20 if big and rng.random() < .2 else 3)):
                            x['contribs'].append([c, t, w])
                    for i in self.ids:
                        if rng.random() < (.15 if big else .5):
                            serial += 1
                            x['rows'].append([c, i, t, '%s|%s|%s|%s|%d' % (f, c, i, t, serial)])
                if not sound and rng.random() < .1:
                    x['contribs'] = [y for y in x['contribs'] if y[1] != default or y[0] != c]
        if rng.random() < .1:
            # strings of a component in a file of another component do not count
            for f, x in self.files.items():
                if f != AIO:
                    row = [rng.choice(COMPS), self.ids[0], self.tags[0]]
                    if row not in [y[:3] for y in x['rows']]:
                        x['rows'].append(row + ['stray'])
                    break
        for x in self.files.values():
            rng.shuffle(x['rows'])
            rng.shuffle(x['contribs'])

    def asked(self):
        rng = self.rng
        r = rng.random()
        if r < .6:
            return rng.choice(self.tags)
        return rng.choice(self.all)

    def string_steps(self, n, ops=('string', 'exact', 'strings')):
        rng = self.rng
        out = []
        for _ in range(n):
            c = rng.choice(self.comps) if rng.random() < .95 else rng.choice(COMPS + ['nowhere', AIO, ''])
            i = rng.choice(self.ids) if rng.random() < .85 else rng.choice(IDS)
            out.append({'op': rng.choice(ops), 'c': c, 'i': i, 't': self.asked()})
        return out

    def detail_steps(self, n):
        rng = self.rng
        out = []
        for _ in range(n):
            c = rng.choice(self.comps) if rng.random() < .95 else rng.choice(COMPS + ['nowhere', AIO])
            out.append(rng.choice([{'op': 'repdet'}, {'op': 'compdet', 'c': c},
                                   {'op': 'iddet', 'c': c, 'i': rng.choice(self.ids) if rng.random() < .85 else rng.choice(IDS)}]))
        return out

    def scenario(self, steps):
        files = list(self.files.values())
        self.rng.shuffle(files)
        return {'k': 'prov', 'files': files, 'steps': steps}


def big_repos(rng, count, n, details=False):
    out = []
    for _ in range(count):
        r = Repo(rng, big=True)
        out.append(r.scenario(r.detail_steps(n) if details else r.string_steps(n)))
    return out


def string_repos(rng, count, n, ops=('string', 'exact', 'strings'), tags=TAGS):
    out = []
    for _ in range(count):
        r = Repo(rng, tags=tags)
        out.append(r.scenario(r.string_steps(n, ops)))
    return out


def detail_repos(rng, count, n, tags=TAGS):
    out = []
    for _ in range(count):
        r = Repo(rng, sound=rng.random() < .75, tags=tags)
        out.append(r.scenario(r.detail_steps(n) + r.string_steps(2)))
    return out


def watched(rng, count, n):
    """All kinds of queries, and some files go missing; the files must stay as they are."""
    out = []
    for _ in range(count):
        r = Repo(rng, sound=rng.random() < .75)
        steps = r.string_steps(n) + r.detail_steps(n)
        rng.shuffle(steps)
        if rng.random() < .5:
            for f in rng.sample(sorted(r.files), rng.randint(1, len(r.files))):
                steps.insert(rng.randint(0, len(steps)), {'op': 'gone', 'n': f + '.sqlite3'})
        for _ in range(3):
            steps.insert(rng.randint(0, len(steps)), {'op': 'disk'})
        sc = r.scenario(steps + [{'op': 'disk'}])
        if rng.random() < .3:
            sc['files'] = sc['files'] + [{'name': rng.choice(['notes.txt', 'x.sqlite', 'x.db', 'comp']), 'raw': 'text'}]
        out.append(sc)
    return out


def faulty(rng, count, n):
    """Queries during which an access to a file fails, once or from then on; each is repeated without failures."""
    out = []
    for _ in range(count):
        r = Repo(rng, sound=rng.random() < .9)
        steps = []
        for st in r.detail_steps(n) + r.string_steps(n):
            for _ in range(rng.choice([1, 1, 2, 4])):
                steps.append(dict(st, fail=rng.choice([rng.randrange(4), rng.randrange(12), rng.randrange(60), rng.randrange(300)]), rest=rng.random() < .4))
            steps.append(st)
            if rng.random() < .3:
                steps.append(rng.choice(r.detail_steps(1) + r.string_steps(1)))
        sc = dict(r.scenario(steps), layer=True)
        if rng.random() < .3:
            sc.update(fail=rng.randrange(60), rest=rng.random() < .4)
        out.append(sc)
    for _ in range(max(3, count // 12)):
        # every single access of a call
        r = Repo(rng)
        st = rng.choice([{'op': 'repdet'}, {'op': 'repdet'}] + r.detail_steps(1) + r.string_steps(1))
        for k in range(40):
            out.append(dict(r.scenario([dict(st, fail=k, rest=rng.random() < .3), st] + r.detail_steps(1) + r.string_steps(1)), layer=True))
    return out


# ---------------------------------------------------------------- opening

def plain(name, **kw):
    stem = name[:-8] if name.endswith('.sqlite3') else name
    return dict({'name': name, 'version': '1.0', 'comps': [[stem, 'en']], 'contribs': [[stem, 'en', 'Ann']], 'rows': [[stem, 'i', 'en', 'text']]}, **kw)


ASK = [{'op': 'string', 'c': 'comp', 'i': 'i', 't': 'en'}, {'op': 'repdet'}]


def with_tables(tables, name='comp.sqlite3', versions=('1.0',), rows=False):
    """A file with its own schema; it holds nothing but the versions."""
    f = {'name': name, 'version': None, 'comps': [], 'contribs': [], 'rows': [], 'schema': sql_of(tables), 'tables': plain_tables(tables), 'sql': [],
         'versions': list(versions)}
    if 'metadata' in tables:
        cols = [x['n'] for x in tables['metadata']]
        if 'key' in cols and 'value' in cols:
            for v in versions:
                extra = [c for c in tables['metadata'] if c['nn'] and not c['pk'] and c['n'] not in ('key', 'value') and not c['df']]
                names = ['key', 'value'] + [c['n'] for c in extra]
                vals = ["'schema_version'", "'%s'" % v] + ["'x'" for c in extra]
                f['sql'].append('INSERT INTO metadata(%s) VALUES(%s);' % (','.join('"%s"' % x for x in names), ','.join(vals)))
        else:
            f['versions'] = []
    else:
        f['versions'] = []
    return f


def damages():
    """The standard schema with one flaw, in every place."""
    out = [('standard', STANDARD)]
    for t, cols in STANDARD.items():
        x = copy.deepcopy(STANDARD)
        del x[t]
        out.append(('no table ' + t, x))
        x = copy.deepcopy(STANDARD)
        x[t].append({'n': 'more', 't': 'TEXT', 'nn': False, 'pk': False, 'df': False})
        out.append(('one more column in ' + t, x))
        x = copy.deepcopy(STANDARD)
        x[t + 'x'] = x.pop(t)
        out.append(('other name of ' + t, x))
        if t == 'metadata':  # only its being there and holding the version is promised
            continue
        for k, c in enumerate(cols):
            def put(what, **kw):
                y = copy.deepcopy(STANDARD)
                y[t][k].update(kw)
                out.append(('%s of %s.%s' % (what, t, c['n']), y))
            put('name', n=c['n'] + 'x')
            for ty in ('BLOB', 'VARCHAR(9)', 'DATETIME', ''):
                put('type', t=ty)
            if not c['pk']:
                put('null', nn=not c['nn'])
                put('key', pk=True)
                for dx in ("('1')", "''", '0', 'CURRENT_DATE', 'CURRENT_TIMESTAMP', "'2024-01-01'", '(1+1)'):
                    put('default', df=True, dx=dx)
                put('swapped type', t='INTEGER' if c['t'] != 'INTEGER' else 'TEXT')
            else:
                put('no key', pk=False)
                put('key null', nn=False)
            y = copy.deepcopy(STANDARD)
            del y[t][k]
            if y[t]:
                out.append(('no %s.%s' % (t, c['n']), y))
            if k + 1 < len(cols):
                y = copy.deepcopy(STANDARD)
                y[t][k], y[t][k + 1] = y[t][k + 1], y[t][k]
                out.append(('order of %s.%s' % (t, c['n']), y))
    return out


def open_scenarios(rng):
    out = []

    def add(files, **kw):
        out.append(dict({'k': 'prov', 'files': files, 'steps': ASK}, **kw))

    flaws = damages()
    for what, tables in flaws:
        add([with_tables(tables)])
        if rng.random() < .3:
            add([plain('good.sqlite3'), with_tables(tables)])
    for more in ('CREATE TABLE more (a);', 'CREATE VIEW seen AS SELECT * FROM pattern;', 'CREATE INDEX x ON pattern (identifier);',
                 'CREATE TRIGGER t AFTER INSERT ON pattern BEGIN SELECT 1; END;'):
        f = with_tables(STANDARD)
        f['schema'] += '\n' + more
        add([f])
    for versions in ([], ['1.1'], ['1'], ['1.0.0'], ['2.0'], [''], [' 1.0'], ['2.0', '3.0'], ['1.0']):
        add([with_tables(STANDARD, versions=versions)])
        add([plain('good.sqlite3'), with_tables(STANDARD, versions=versions, name=AIO + '.sqlite3')])
    add([])
    add([plain('comp.sqlite3')])
    add([plain('comp.sqlite3'), plain('x.sqlite')])
    add([plain('comp.db')])
    add([plain('comp.sqlite3'), {'name': 'raw.sqlite3', 'raw': 'this is no database, but long enough to be looked at: ' * 20, 'comps': [], 'contribs': [], 'rows': []}])
    add([{'name': 'raw.sqlite3', 'raw': 'no database', 'comps': [], 'contribs': [], 'rows': []}])
    add([{'name': 'raw.sqlite3', 'raw': '', 'comps': [], 'contribs': [], 'rows': []}])
    add([plain('comp.sqlite3'), {'name': 'readme.txt', 'raw': 'text', 'comps': [], 'contribs': [], 'rows': []}])
    add([plain('comp.sqlite3'), {'name': 'sub.sqlite3', 'dir': True, 'comps': [], 'contribs': [], 'rows': []}])
    add([{'name': 'sub.sqlite3', 'dir': True, 'comps': [], 'contribs': [], 'rows': []}])
    add([{'name': 'sub', 'dir': True, 'comps': [], 'contribs': [], 'rows': []}])
    add([plain('comp.sqlite3'), {'name': 'sub', 'dir': True, 'comps': [], 'contribs': [], 'rows': []}])
    add([dict(plain(AIO + '.sqlite3'), comps=[], contribs=[], rows=[])])
    add([dict(plain(AIO + '.sqlite3'), comps=[['comp', 'en']], contribs=[['comp', 'en', 'Ann']], rows=[['comp', 'i', 'en', 'text']])])
    add([plain('comp.sqlite3')], open='none', path='missing')
    add([plain('comp.sqlite3')], open='comp.sqlite3', path='file')
    add([plain('comp.SQLITE3')])
    add([plain('comp.sqlite3'), plain('two.sqlite3')])
    for raw in (b'\xff', b'caf\xe9', b'a\xc3', b'\xed\xa0\x80'):
        # names that are no text
        name = dict(plain('n.sqlite3'), bytes=list(raw + b'.sqlite3'))
        add([name])
        add([plain('comp.sqlite3'), name])
        add([plain('comp.sqlite3'), {'name': 'n.txt', 'bytes': list(raw + b'.txt'), 'raw': 'text'}])
        add([plain('comp.sqlite3'), {'name': 'n', 'bytes': list(raw), 'raw': 'text'}])
    for files in ([plain('comp.sqlite3')], [dict(plain(AIO + '.sqlite3'), comps=[['comp', 'en']], contribs=[['comp', 'en', 'Ann']], rows=[['comp', 'i', 'en', 'text']])],
                  [plain('comp?mode=memory.sqlite3')], [plain('a#b.sqlite3'), plain('a%20b.sqlite3')], []):
        # a directory that looks like a URI
        for here in (False, True):
            add(files, here=here, steps=ASK + [dict(ASK[0], c=f['name'][:-8]) for f in files])
    for raw in (b'\xff', b'caf\xe9', b'a\xc3', b'\xed\xa0\x80'):
        # the directory, too
        for f in (plain('comp.sqlite3'), plain(AIO + '.sqlite3'), with_tables(STANDARD, versions=[]), with_tables(STANDARD, versions=['2.0'])):
            add([f], place=list(raw))
        add([], place=list(raw))
        add([plain('comp.sqlite3')], place=list(raw), open='comp.sqlite3', path='file')
    return out


def astray(rng, count):
    """Repositories with components that have no sound default language, and questions about components that are not there."""
    out = []
    for _ in range(count):
        r = Repo(rng, sound=rng.random() < .4)
        steps = r.detail_steps(5) + r.string_steps(5) + [dict(st, c=rng.choice(['nowhere', AIO, '', 'Comp', 'é'])) for st in r.string_steps(3) + r.detail_steps(3)]
        rng.shuffle(steps)
        out.append(r.scenario(steps))
    return out


def rotten(rng, count):
    """Files with damaged bytes and odd values: nothing is promised but that nothing panics."""
    out = []
    odd = ["x'ff00'", 'NULL', '7', '1.5', "'not a tag!'", "''", "CAST(x'c328' AS TEXT)", "'en_ZA'", "'x-'", "char(0)"]
    for _ in range(count):
        r = Repo(rng)
        steps = r.string_steps(8) + r.detail_steps(6)
        rng.shuffle(steps)
        sc = r.scenario(steps)
        sc['rot'] = True
        f = rng.choice(sc['files'])
        if rng.random() < .4:
            f['flip'] = [[rng.random(), rng.choice([0, 1, 255, 128, rng.randrange(256)])] for _ in range(rng.choice([1, 3, 20, 200]))]
            if rng.random() < .3:
                f['cut'] = rng.random()
        else:
            t, c = rng.choice([('pattern', 'string'), ('pattern', 'languageTag'), ('pattern', 'identifier'), ('pattern', 'component'), ('component', 'languageTag'),
                               ('component', 'identifier'), ('contributor', 'contributor'), ('contributor', 'languageTag'), ('metadata', 'value')])
            f['sql'] = ['UPDATE OR IGNORE %s SET %s = %s%s;' % (t, c, rng.choice(odd), rng.choice([' WHERE rowid = 1', '']))]
        out.append(sc)
    return out


def concurrent(rng, count, n):
    """Threads on one provider; most ask the same at the same time, on a provider that nobody asked before."""
    out = []
    for _ in range(count):
        r = Repo(rng)
        common = r.string_steps(n) + r.detail_steps(max(2, n // 2))
        rng.shuffle(common)
        threads = []
        for _ in range(rng.choice([2, 4, 8])):
            mine = list(common)
            if rng.random() < .4:
                rng.shuffle(mine)
            threads.append(mine)
        sc = r.scenario([])
        del sc['steps']
        sc = dict(sc, k='cprov', threads=threads)
        if rng.random() < .6:
            sc['slow'] = rng.randrange(1 << 40)  # accesses to files take their time, so calls overlap in more ways
        out.append(sc)
    return out

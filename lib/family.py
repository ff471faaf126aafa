"""Families of scenarios: how a scenario and what was observed are merged for the trace specification."""
import copy
import json
import re

import core
from core import ToolError, drive, report, validate

FNS = {'echo': 'echo', 'fail': 'fail', 'file_path': 'file_path', 'english_a_or_an': 'english_a_or_an'}
AIO = '__all_in_one__'


def lost(o):
    """The driver did not survive the scenario."""
    return o.get('r') in ('crash', 'hang')


# ---------------------------------------------------------------- lexer

def merge_lex(n, sc, o):
    x = {'n': n, 'cls': o.get('cls', []), 'g': list(sc['g']), 'o': {'r': o['r']}}
    if lost(o) or o['r'] == 'panic':
        x['g'], x['cls'] = ['{'], [['a', 'I', 1]]
    elif o['r'] == 'ok':
        x['o']['tokens'] = o['tokens']
    else:
        x['o']['e'] = o['e']
    return x, 1


def canary_lex(lines):
    for x in lines:
        if x['o']['r'] == 'ok' and x['o']['tokens']:
            y = copy.deepcopy(x)
            y['o']['tokens'][-1]['lc'] += 1
            return y


# ---------------------------------------------------------------- localiser

def parents(tag):
    out = [tag]
    while '-' in tag:
        tag = tag.rsplit('-', 1)[0]
        out.append(tag)
    return out


ISO = [re.compile(r'^(?:([+-]?)(\d{4,9})(?:-(\d\d)(?:-(\d\d))?)?)?(T.*)?$', re.S), re.compile(r'^()(\d{4})(\d\d)(\d\d)(T.*)?$', re.S)]
ISOT = re.compile(r'^(?:(\d\d)(?::?(\d\d)(?::?(\d\d)(?:\.(\d{1,9}))?)?)?)?(?:Z|[+-]\d\d:?\d\d)?$')


def iso_keys(text):
    """Generous readings of an ISO date and time: which facts may be asked for it."""
    out = []
    for form in ISO:
        m = form.match(text)
        if not m:
            continue
        y, mo, d = 1970, 1, 1
        if m[2]:
            y = int(m[2]) * (-1 if m[1] == '-' else 1)
            mo, d = int(m[3] or 1), int(m[4] or 1)
        h = mi = s = ns = 0
        if m[5]:
            t = ISOT.match(m[5][1:])
            if not t:
                continue
            h, mi, s, ns = (int(t[k] or 0) for k in (1, 2, 3, 4))
        if not (1 <= mo <= 12 and 1 <= d <= 31 and h <= 24 and mi <= 60 and s <= 61):
            continue
        kind = 'dt' if m[2] and m[5] else 'date' if m[2] else 'time' if m[5] else None
        if kind:
            out.append((kind, '%d,%d,%d,%d,%d,%d,%d' % (y, mo, d, h, mi, s, ns)))
    return out


def data_values(d):
    for v in (d.get('vals') or {}).values():
        if v['k'] == 'ld':
            yield from data_values(v)
        else:
            yield v


def data_ids(d):
    yield d['c'], d['i']
    for v in (d.get('vals') or {}).values():
        if v['k'] == 'ld':
            yield from data_ids(v)


def errors_in(e):
    yield e
    for x in e.get('in', []):
        yield from errors_in(x)


def texts_of(sc):
    out = [r[3] for r in sc['db']['rows']]
    for st in sc['steps']:
        if st['op'] == 'put' and st['s'] is not None:
            out.append(st['s'])
    return list(dict.fromkeys(out))


def tags_of(sc):
    out = [sc['tag']]
    out += [r[2] for r in sc['db']['rows']] + list(sc['db']['def'].values())
    for st in sc['steps']:
        if st.get('t') and st['op'] != 'make':
            out.append(st['t'])
    return list(dict.fromkeys(out))


def options(text, name, values):
    return [''] + sorted(set(re.findall(name + r'#(' + values + r')\b', text)))


def pattern_questions(q, text, lang, vals):
    decimal = 'decimal' in text
    plural = decimal or 'plural' in text or 'ordinal' in text
    signs = options(text, 'sign', 'auto|never|always|except_zero|negative') if decimal else ['']
    groups = options(text, 'group', 'auto|never|always|min2') if decimal else ['']
    dates = 'date_time' in text
    ds = options(text, 'date', 'full|long|medium|short')
    ts = options(text, 'time', 'full|long|medium|short')
    cs = options(text, 'calendar', 'gregory|buddhist|japanese|ethiopic|indian|coptic|iso')
    for v in vals:
        if plural and v['k'] in ('int', 'uns', 'flt', 'dec'):
            for a in signs:
                for b in groups:
                    q[('dec', lang, v['k'], v['v'], a, b)] = 1
            q[('card', lang, v['k'], v['v'])] = 1
            if v['k'] == 'uns':
                q[('ord', lang, v['k'], v['v'])] = 1
        if dates:
            for w in [(v['k'], v['v'])] if v['k'] in ('dt', 'date', 'time') else iso_keys(v['v']) if v['k'] == 'str' else []:
                for a in ds:
                    for b in ts:
                        for c in cs:
                            q[('dt', lang, w[0], w[1], a, b, c)] = 1


def questions(sc):
    """Facts of ICU4X that the specification may need for a scenario."""
    q = {}
    for t in texts_of(sc):
        q[('cls', t)] = 1
        if sc.get('why'):
            q[('places', t)] = 1
    for st in sc['steps']:
        if st['op'] == 'make':
            q[('canon', st['t'])] = 1
    held = {}
    for r in sc['db']['rows']:
        held.setdefault((r[0], r[1]), []).append((r[2], r[3]))
    for st in sc['steps']:
        if st['op'] == 'put' and st['s'] is not None:
            held.setdefault((st['c'], st['i']), []).append((st['t'], st['s']))
    errors = [x for st in sc['steps'] if 'e' in st for x in errors_in(st['e'])]
    for x in errors:
        if 'foreign' in x:
            q[('foreign', x['foreign'], x['a'][0]['v'] if x['a'] else '')] = 1
    if errors or any(st['op'] == 'last' for st in sc['steps']):
        numbers = {v['v'] for x in errors for v in x['a'] if v['k'] == 'uns'}
        for r in sc['db']['rows']:
            pattern_questions(q, r[3], r[2], [{'k': 'uns', 'v': n} for n in sorted(numbers)])
    for st in sc['steps']:
        if 'd' in st:
            ids, vals = list(data_ids(st['d'])), list(data_values(st['d']))
        elif 'v' in st:
            ids, vals = [(st['c'], st['i'])], list(st['v'].values())
        else:
            continue
        for k in ids:
            for lang, text in held.get(k, []):
                pattern_questions(q, text, lang, vals)
    if any(st['op'] in ('script', 'scriptfor') for st in sc['steps']):
        for t in tags_of(sc):
            q[('script', t)] = 1
            q[('dir', t)] = 1
    return [list(x) for x in q]


def late_questions(sc, o):
    """Facts that are needed because of the errors that occurred."""
    numbers = set()
    for x in o.get('obs') or []:
        if x.get('what'):
            numbers |= {v['v'] for e in errors_in(x['what']) for v in e['a'] if v['k'] == 'uns'}
    q = {}
    for r in sc['db']['rows'] if numbers else []:
        pattern_questions(q, r[3], r[2], [{'k': 'uns', 'v': n} for n in sorted(numbers)])
    return [list(x) for x in q]


def tlv(v):
    """A value, for TLC."""
    if v['k'] == 'ld':
        return tld(v)
    x = {'k': v['k'], 'v': v['v']}
    if v['k'] == 'str':
        x['ch'] = list(v['v'])
    return x


def tld(d):
    return {'k': 'ld', 'c': d['c'], 'i': d['i'], 'hasv': d.get('vals') is not None, 'v': '?',
            'vals': {k: tlv(v) for k, v in (d.get('vals') or {}).items()}}


def tle(e, orc):
    """An error, for TLC; null in an error that could not be told."""
    if e is None:
        return None
    inner = [tle(x, orc) for x in e.get('in', [])]
    if None in inner:
        return None
    a = e['a']
    if 'foreign' in e:
        a = [{'k': 'str', 'v': orc.get('foreign|%s|%s' % (e['foreign'], a[0]['v'] if a else ''), '?')}]
    return {'T': e['T'], 'V': e['V'], 'a': [tlv(x) for x in a], 'in': inner}


def blamed(e):
    """What an error says is at fault; ? if it could not be told."""
    while e and e['V'] in ('Formatter', 'Tree', 'Command', 'Provider', 'LexerError'):
        e = e['in'][0]
    return [e['V']] + [x['v'] for x in e['a']] if e else ['?']


TRI = {None: 'n', True: 't', False: 'f'}


def merge_loc(n, sc, o):
    texts = texts_of(sc)
    orc = dict(o.get('orc') or {'_': '_'})
    strs, places = [], []
    for t in texts:
        c = orc.pop('cls|' + t, 'I' * len(t))
        strs.append({'ch': list(t), 'cl': list(c)})
        places.append(orc.pop('places|' + t, '').split(','))
    index = {t: i + 1 for i, t in enumerate(texts)}
    steps = []
    dead = lost(o) or o.get('open', {}).get('r') != 'ok'
    for k, st in enumerate(sc['steps']):
        x = {'op': st['op']}
        for f in ('c', 'i', 't', 'n', 'f'):
            if st.get(f) is not None:
                x[f] = st[f]
        if st['op'] == 'defaults' and st.get('t') is None:
            x['t'] = ''
        if st['op'] in ('format', 'literal', 'data', 'err', 'e', 'last', 'defaults'):
            x['fb'], x['ca'] = TRI[st.get('fb')], TRI[st.get('ca')]
        if 'v' in st:
            x['v'] = {a: tlv(b) for a, b in st['v'].items()}
        if 'd' in st:
            x['d'] = tld(st['d'])
        if 'a' in st:
            x['a'] = [tlv(b) for b in st['a']]
        if st['op'] == 'put':
            x['s'] = 0 if st['s'] is None else index[st['s']]
        if dead:
            x['o'] = {'r': 'crash'}
        else:
            x['o'] = {a: b for a, b in o['obs'][k].items() if b is not None and a != 'what'}
            if sc.get('why') and x['o']['r'] == 'err':
                x['o']['w'] = blamed(o['obs'][k].get('what'))
        if 'e' in st:
            x['e'] = tle(st['e'], orc)
        if st['op'] == 'last':
            # an error that occurred is localised as one that was made; nothing to say if there was none
            x['op'], x['e'] = 'e', tle(None if dead else o['obs'][k].get('what'), orc)
            if x['e'] is None:
                x = {'op': 'seen', 'o': x['o']}
        steps.append(x)
        if dead:
            break
    line = {'n': n, 'strs': strs, 'rows': [[r[0], r[1], r[2], index[r[3]]] for r in sc['db']['rows']],
            'def': sc['db']['def'], 'chain': {t: parents(t) for t in tags_of(sc)}, 'tag': sc['tag'],
            'fb': sc['fb'], 'ca': sc['ca'], 'cmds': FNS, 'living': sc.get('living', []), 'fixed': 'files' in sc, 'why': bool(sc.get('why')),
            'plain': bool(sc.get('plain')), 'places': places, 'orc': orc, 'steps': steps}
    return line, len(steps)


def canary_loc(lines):
    sc = {'k': 'loc', 'db': {'rows': [['c', 'i', 'en', 'A']], 'def': {'c': 'en'}}, 'tag': 'en', 'fb': False, 'ca': False,
          'steps': [{'op': 'literal', 'c': 'c', 'i': 'i', 't': 'en'}]}
    return merge_loc(-1, sc, {'open': {'r': 'ok'}, 'obs': [{'r': 'ok', 's': 'A\u00a4', 't': 'en'}]})[0]


# ---------------------------------------------------------------- command registry on its own

def merge_cmd(n, sc, o):
    full = dict(sc, db={'rows': [], 'def': {}}, tag='en', fb=False, ca=False)
    line, k = merge_loc(n, full, dict(o, open={'r': 'ok'}) if not lost(o) else o)
    line['cmds'] = {}
    return line, k


# ---------------------------------------------------------------- provider

REQUIRED = {
    'component': 'rowID,identifier TEXT 1,languageTag TEXT 1,comment TEXT 0,added DATE 1',
    'contributor': 'rowID,component TEXT 1,languageTag TEXT 1,contributor TEXT 1,substituteFor TEXT 0,'
                   'comment TEXT 0,verified DATE 0',
    'language': 'rowID,tag TEXT 1,englishName TEXT 0,added DATE 1',
    'languageData': 'rowID,component TEXT 1,languageTag TEXT 1,count INTEGER 1,ratio REAL 1',
    'metadata': 'rowID,component TEXT 1,key TEXT 1,value TEXT 1,comment TEXT 0,verified DATE 0',
    'pattern': 'rowID,component TEXT 1,identifier TEXT 1,languageTag TEXT 1,string TEXT 1,comment TEXT 0,'
               'verified DATE 0',
}


def standard_tables():
    out = {}
    for t, text in REQUIRED.items():
        cols = []
        for c in text.split(','):
            f = c.split()
            if len(f) == 1:
                cols.append({'n': 'rowID', 't': 'INTEGER', 'nn': True, 'pk': True, 'df': False})
            else:
                cols.append({'n': f[0], 't': f[1], 'nn': f[2] == '1', 'pk': False, 'df': False})
        out[t] = cols
    return out


STANDARD = standard_tables()


def sql_of(tables):
    """Definitions of the tables; a column may say in dx what its default is."""
    out = []
    for t, cols in tables.items():
        keys = [x['n'] for x in cols if x['pk']]
        c = ['"%s" %s%s%s%s' % (x['n'], x['t'], ' PRIMARY KEY' if x['pk'] and len(keys) == 1 else '',
                                ' NOT NULL' if x['nn'] else '', ' DEFAULT ' + x.get('dx', "('1')") if x['df'] else '')
             for x in cols]
        if len(keys) > 1:
            c.append('PRIMARY KEY (%s)' % ', '.join('"%s"' % x for x in keys))
        out.append('CREATE TABLE "%s" (%s);' % (t, ', '.join(c)))
    return '\n'.join(out)


def plain_tables(tables):
    return {t: [{k: x[k] for k in ('n', 't', 'nn', 'pk', 'df')} for x in cols] for t, cols in tables.items()}


def merge_prov(n, sc, o, steps=None):
    stems, comps, contribs, rows, entries = [], [], [], [], []
    tags = set()
    for f in sc['files']:
        stem, dot, ext = f['name'].rpartition('.')
        if 'bytes' in f:
            stem = '\ufffd' + str(len(entries))
        if not dot:
            stem, ext = f['name'], ''
        kind = 'dir' if f.get('dir') else 'raw' if 'raw' in f else 'db'
        e = {'kind': kind, 'stem': stem, 'ext': ext, 'tables': f.get('tables', STANDARD), 'ncomps': len(f.get('comps', [])),
             'versions': f.get('versions', [f['version']] if f.get('version') is not None else [])}
        entries.append(e)
        if kind == 'db' and ext == 'sqlite3':
            stems.append(stem)
            comps += [[stem, c, d] for c, d in f.get('comps', [])]
            contribs += [[stem] + list(x) for x in f.get('contribs', [])]
            rows += [[stem] + list(x) for x in f.get('rows', [])]
    tags |= {x[2] for x in comps} | {x[2] for x in contribs} | {x[3] for x in rows}
    todo = sc['steps'] if steps is None else steps
    tags |= {st['t'] for st in todo if 't' in st}
    line = {'n': n, 'path': sc.get('path', 'dir'), 'entries': entries, 'stems': stems, 'comps': comps,
            'contribs': contribs, 'rows': rows, 'sub': {t: t.lower().split('-') for t in tags} or {'en': ['en']},
            'o': {'r': 'crash'} if lost(o) else o['open'], 'same': lost(o) or o.get('same', True), 'rot': sc.get('rot', False), 'steps': [],
            # names that are not UTF-8 are not promised to be told
            'why': bool(sc.get('why')) and 'place' not in sc and not any('bytes' in f for f in sc['files'])}
    if not lost(o) and o['open']['r'] == 'ok':
        line['steps'] = [dict(st, o=x) for st, x in zip(todo, o['obs'])]
    return line, 1 + len(line['steps'])


def canary_prov(lines):
    for x in lines:
        if x['rot']:
            break
        for k, st in enumerate(x['steps']):
            if st['op'] in ('string', 'exact', 'strings') and st['o']['r'] == 'ok' and st['o']['l']:
                y = copy.deepcopy(x)
                y['steps'] = y['steps'][:k + 1]
                y['steps'][k]['o']['l'][0][0] += '\u00a4'
                return y
            if st['op'] == 'compdet' and st['o']['r'] == 'ok':
                y = copy.deepcopy(x)
                y['steps'] = y['steps'][:k + 1]
                y['steps'][k]['o']['n'] += 1
                return y
    y = copy.deepcopy(lines[0])
    y['o'] = {'r': 'panic'}
    y['steps'] = []
    return y


def merge_cprov(n, sc, o):
    """Calls of several threads on a provider: the provider does not change, so every answer stands alone."""
    if lost(o):
        return merge_prov(n, sc, o, steps=[])
    log = sorted(o['log'], key=lambda x: x['a'])
    if not log:
        return merge_prov(n, sc, {'open': {'r': 'crash'}, 'obs': []}, steps=[])
    steps = [sc['threads'][x['th']][x['st']] for x in log]
    return merge_prov(n, sc, {'open': {'r': 'ok'}, 'obs': [x['o'] for x in log]}, steps=steps)


# ---------------------------------------------------------------- registry

def canon_of(o):
    return {k[6:]: v for k, v in (o.get('orc') or {}).items() if k.startswith('canon|')}


def merge_reg(n, sc, o):
    canon = canon_of(o)
    line = {'n': n, 'canon': dict(canon, _='_'), 'steps': []}
    if lost(o):
        line['steps'] = [{'op': 'list', 'o': {'r': 'crash'}}]
    else:
        line['steps'] = [dict(st, o=x) for st, x in zip(sc['steps'], o['obs'])]
    return line, len(line['steps'])


def canary_reg(lines):
    for x in lines:
        for k, st in enumerate(x['steps']):
            if st['op'] in ('tag', 'icu') and st['o']['r'] == 'ok':
                y = copy.deepcopy(x)
                y['steps'] = y['steps'][:k + 1]
                y['steps'][k]['o']['t'] += 'x'
                return y


def merge_creg(n, sc, o):
    canon = dict(canon_of(o), _='_')
    if lost(o):
        log = [{'a': 0, 'b': 1, 'op': {'op': 'list'}, 'o': {'r': 'crash'}}]
        return {'n': n, 'canon': canon, 'log': log, 'end': {'r': 'crash', 'same': []}}, 1
    log = [{'a': x['a'], 'b': x['b'], 'op': sc['threads'][x['th']][x['st']], 'o': x['o']} for x in o['log']]
    end = o['end']
    if end['r'] != 'ok':
        end = {'r': end['r'], 'same': [False], 'list': [], 'depr': [], 'all': []}
    return {'n': n, 'canon': canon, 'log': log, 'end': end}, len(log)


def canary_creg(lines):
    for x in lines:
        if x['end']['r'] == 'ok' and x['end']['list']:
            y = copy.deepcopy(x)
            y['end']['list'] = y['end']['list'][1:]
            return y


FAMILIES = {
    'lex': ('TraceLex', merge_lex, canary_lex),
    'loc': ('TraceLoc', merge_loc, canary_loc),
    'cmd': ('TraceLoc', merge_cmd, canary_loc),
    'prov': ('TraceProv', merge_prov, canary_prov),
    'cprov': ('TraceProv', merge_cprov, canary_prov),
    'reg': ('TraceReg', merge_reg, canary_reg),
    'creg': ('TraceConc', merge_creg, canary_creg),
}


def prepare(sc):
    """Adds the questions about ICU4X to a scenario."""
    sc = dict(sc)
    if sc['k'] == 'loc':
        sc['orq'] = questions(sc)
    elif sc['k'] in ('reg', 'creg'):
        steps = sc['steps'] if sc['k'] == 'reg' else [x for t in sc['threads'] for x in t]
        sc['orq'] = [['canon', t] for t in sorted({st['t'] for st in steps if 't' in st})]
    return sc


def execute(run, binary, scenarios, label, shards=None, tlc_shards=None, workers=2, hang=25.0, features=''):
    """Runs scenarios (of one kind), validates the observations, and reports what is not allowed."""
    if not scenarios:
        return []
    if getattr(run, 'executed', None) is not None:
        run.executed.append((scenarios, label))
    full = [prepare(s) for s in scenarios]
    obs = drive(run, binary, full, shards=shards, hang=hang)
    if scenarios[0]['k'] == 'loc' and any(st['op'] == 'last' for sc in scenarios for st in sc['steps']):
        ask = {n: late_questions(sc, o) for n, (sc, o) in enumerate(zip(scenarios, obs)) if not lost(o)}
        ask = {n: q for n, q in ask.items() if q}
        for n, o in zip(ask, drive(run, binary, [dict(full[n], steps=[], orq=q) for n, q in ask.items()], shards=shards, hang=hang)):
            obs[n] = dict(obs[n], orc=dict(obs[n].get('orc') or {}, **(o.get('orc') or {})))
    judge(run, scenarios, full, obs, label, tlc_shards, workers, features)
    return obs


def schedules(run, binary, scenarios, label, seconds, features='sync'):
    """Runs scenarios of several threads with schedules taken from seeds."""
    orc = {json.dumps(s): o.get('orc') for s, o in
           zip(scenarios, drive(run, binary, [dict(prepare(s), threads=[]) for s in scenarios]))}
    got = core.schedules(run, scenarios, seconds)
    if got:
        sc = [s for s, _ in got]
        judge(run, sc, sc, [dict(o, orc=orc[json.dumps(s)]) for s, o in got], label, None, 2, features)


def judge(run, scenarios, full, obs, label, tlc_shards, workers, features):
    kind = scenarios[0]['k']
    module, merge, canary = FAMILIES[kind]
    merged = [merge(n, s, o) for n, (s, o) in enumerate(zip(full, obs))]
    lines, steps = [m[0] for m in merged], [m[1] for m in merged]
    c = canary(lines)
    if c is None:
        # nothing to corrupt: every scenario failed; the failures themselves must then be reported
        c = dict(lines[0])
    bad = validate(run, module, lines, steps, c, accept=(kind == 'creg'), shards=tlc_shards, workers=workers)
    for n in sorted(bad):
        o = {a: b for a, b in obs[n].items() if a != 'orc'}
        report(run, kind, scenarios[n], o, bad[n], features)
    run.families.append({'family': label, 'scenarios': len(scenarios), 'steps': sum(steps)})
    for k in range(0, len(scenarios), max(1, len(scenarios) // 2)):
        o = json.dumps({a: b for a, b in obs[k].items() if a not in ('orc', 'cls')}, ensure_ascii=False)
        run.samples.append({'family': label, 'scenario': json.dumps(scenarios[k], ensure_ascii=False)[:700],
                            'observed': o[:500]})

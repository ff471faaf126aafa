"""Patterns and values for the localiser."""
import re
import decimal
import unicodedata

import gen_lex

LANGS = ['en', 'de', 'fr', 'pl', 'ar', 'ja', 'hi', 'cy', 'ga', 'lt', 'sl', 'en-ZA', 'zh-Hant', 'th', 'sr-Latn', 'de-CH', 'he', 'fa',
         'es-MX', 'af', 'ru', 'mt', 'br', 'it', 'sv', 'hu', 'bn', 'my', 'und', 'en-GB', 'pt-PT', 'ro', 'cs', 'uk', 'lv', 'sq']
INTS = ['0', '1', '-1', '2', '-2', '3', '5', '11', '-21', '100', '999', '1000', '-1000', '9999', '10000', '1234567', '-9876543210',
        '170141183460469231731687303715884105727', '-170141183460469231731687303715884105728']
UNSS = ['0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '10', '11', '12', '13', '14', '20', '21', '22', '23', '31', '80', '81', '100',
        '101', '102', '103', '111', '112', '113', '121', '999', '1000', '1001', '10000', '1000000', '1234567',
        '340282366920938463463374607431768211455']
FLTS = ['0', '1', '-1', '0.5', '1.5', '-2.5', '2', '10.25', '1000', '1234.5', '-12345.678', '0.001', '1000000.25', '-0', '21', '3.14159', 'NaN', 'inf', '-inf', '1' + '0' * 308, '0.' + '0' * 323 + '5', '123456789012345680000', '0.1', '-0.25']
DECS = ['0', '-0', '1', '1.0', '1.50', '-1.50', '+1', '2', '2.0', '0.00', '1000', '12345.6700', '-9999.9', '1234567.89', '0.1', '11',
        '21', '100000', '+0', '5']
STRS = ['x', 'y', 'other', 'one', 'vA', '', 'male', 'female', 'a`b', '{z}', '#', 'früh', '漢字', 'e\u0301', '👩\u200d👩\u200d👧', ' pad ', 'hour',
        'apple', 'b\nc', '}', '{`', 'zero', 'two', 'few', 'many', '_', '1', '\u202ertl', 'z' * 70]
DATES = ['2024-02-29', '1999-12-31', '20240131', '2023-07', '2020', '-0044-03-15', '+12345-06-07', '2024-02-30', '2023-02-29']
TIMES = ['T10:20:30', 'T102030', 'T23', 'T05:06', 'T00:00:00.5', 'T12:00:00Z', 'T12:00:00+02:00', 'T25:00', 'T12:60']
RAWS = ['2024,2,29,10,20,30,0', '1970,1,1,0,0,0,0', '1999,12,31,23,59,59,999999999', '-44,3,15,12,0,0,1', '2000,10,9,8,7,6,5',
        '622,7,16,0,30,0,0', '1868,10,23,11,59,0,0', '2019,5,1,12,0,0,0', '10000,1,1,1,1,1,1']
SIGNS = ['auto', 'never', 'always', 'except_zero', 'negative']
GROUPS = ['auto', 'never', 'always', 'min2']
LENGTHS = ['full', 'long', 'medium', 'short']
CALENDARS = ['gregory', 'buddhist', 'japanese', 'ethiopic', 'indian', 'coptic', 'iso']
CATEGORIES = ['zero', 'one', 'two', 'few', 'many', 'other']
NAMES = ['a', 'b', 'c', 'd', 'e', 'n_1', 'größe', '数', '9', '_', 'decimal', 'other', 'sign']
TEXTS = ['\ufeff', '\0', '\r\n', '\u200b', 'a', 'b', ' ', '  ', '!', ', ', '.', 'é', '漢字', '\n', '→', '👩\u200d👩', 'e\u0301', '"', "'", '\\', '%s', '$1', '<b>', '&amp;', '\t', '\u00a0',
         '\u200e', '٣', 'one', 'word', '123', '(', ')', '_', 'ß', '\u0301', '-', '~']


def val(k, v, **kw):
    return dict({'k': k, 'v': v}, **kw)


def plain_float(x):
    """As Rust shows it: without exponent, and without fraction if it is zero."""
    t = format(decimal.Decimal(repr(x)), 'f')
    return t.rstrip('0').rstrip('.') if '.' in t else t


def number(rng):
    if rng.random() < .3:
        n = rng.randint(0, 10 ** rng.randint(1, 30))
        sign = rng.choice(['', '', '-'])
        k = rng.choice(['int', 'uns', 'flt', 'dec'])
        if k == 'uns':
            return val(k, str(n))
        if k == 'int':
            return val(k, sign + str(n) if n else '0')
        if k == 'dec':
            return val(k, rng.choice(['', '-', '+']) + str(n) + rng.choice(['', '.' + ''.join(rng.choice('0123456789') for _ in range(rng.randint(1, 8)))]))
        x = rng.choice([rng.random(), rng.random() * 10 ** rng.randint(1, 12), rng.randint(0, 10 ** 6) / 8, rng.randint(1, 9) * 10.0 ** rng.randint(-8, 12)])
        return val(k, sign + plain_float(x))
    return rng.choice([lambda: val('int', rng.choice(INTS)), lambda: val('uns', rng.choice(UNSS)), lambda: val('flt', rng.choice(FLTS)),
                       lambda: val('dec', rng.choice(DECS))])()


EDGES = ['\0', '\ufeff', '\u00a0', '\n', '\r\n', '\t', ' ', '\u200e', '\u200b', '\u2028', '\u0301', '`', '{', '}', '#', '\\', '"', '%', '&', '<', '\x7f', '\x1b']


def string(rng):
    k = rng.choice(['str', 'str', 'str', 'tag', 'loc'])
    v = rng.choice(STRS)
    if rng.random() < .25:  # something odd at an end, or in the middle
        x = rng.choice(EDGES)
        v = rng.choice([x + v, v + x, v + x + v, x])
    return val(k, v, t=rng.choice(['en', 'de', 'ja'] + LANGS)) if k != 'str' else val(k, v)


def near(rng, name):
    """Another text that could be taken for the name."""
    out = [' ' + name, name + ' ', ' ' + name + ' ', name.upper(), name.capitalize(), name[:-1], name + name[-1:], '{%s}' % name, '#' + name,
           name + '#', unicodedata.normalize('NFD', name), name + '\u200b', '\ufeff' + name, name + '\n', '_' + name, name + '0', '"%s"' % name]
    return rng.choice([x for x in out if x != name])


def moment(rng):
    if rng.random() < .5:
        return val(rng.choice(['dt', 'date', 'time']), rng.choice(RAWS))
    x = rng.choice(['d', 't', 'dt'])
    return val('str', (rng.choice(DATES) if 'd' in x else '') + (rng.choice(TIMES) if 't' in x else ''))


def value(rng):
    return rng.choice([number, number, string, string, string, moment])(rng)


class Builder:
    """One random pattern, with values that mostly suit it."""

    def __init__(self, rng, focus='mixed', depth=2, wide=False):
        self.rng, self.focus, self.depth, self.wide = rng, focus, depth, wide
        self.ids, self.named, self.vals = [], [], {}
        self.names = rng.sample(NAMES, len(NAMES))

    def text(self, special=True):
        rng = self.rng
        out = ''
        for _ in range(rng.randint(1, 4)):
            if special and rng.random() < .25:
                out += '`' + rng.choice('{}`#')
            elif special and rng.random() < .05:
                out += '`' + rng.choice(['a', '!', ' ', 'é'])
            elif rng.random() < .01:
                out += 'long ' * rng.choice([60, 300])
            else:
                x = rng.choice(TEXTS) if rng.random() < .8 else rng.choice(rng.choice(gen_lex.POOL))
                out += ''.join(c for c in x if c not in '{}`#')
        return out

    def ws(self, optional=False):
        if optional and self.rng.random() < .7:
            return ''
        return self.rng.choice([' ', ' ', ' ', '  ', '\t', '\n', ' \u2028', '\u200e'])

    def name(self):
        if not self.names:
            self.names.append('k%d' % len(self.ids))
        n = self.names.pop()
        self.ids.append(n)
        return n

    def give(self, name, v):
        r = self.rng.random()
        if self.rng.random() < .08:
            # a value that is not meant
            self.vals[near(self.rng, name)] = v if self.rng.random() < .3 else string(self.rng)
        if r < .04:
            return
        self.vals[name] = value(self.rng) if r < .09 else v

    def options(self, names):
        opts = []
        for n, vals in names:
            if self.rng.random() < .5:
                opts.append('%s#%s' % (n, self.rng.choice(vals)))
        self.rng.shuffle(opts)
        return ''.join(self.ws() + o for o in opts)

    def placeholder(self):
        n = self.name()
        self.give(n, string(self.rng))
        return '{' + n + self.ws(True) + '}'

    def decimal(self):
        n = self.name()
        self.give(n, number(self.rng))
        return '{' + n + self.ws() + 'decimal' + self.options([('sign', SIGNS), ('group', GROUPS)]) + self.ws(True) + '}'

    def date_time(self):
        n = self.name()
        self.give(n, moment(self.rng))
        return '{' + n + self.ws() + 'date_time' + self.options([('date', LENGTHS), ('time', LENGTHS), ('calendar', CALENDARS)]) + \
            self.ws(True) + '}'

    def branch(self, level):
        rng = self.rng
        kind = rng.choice(['plural', 'ordinal', 'select', 'plural', 'select'])
        n = self.name()
        if kind == 'select':
            v = string(rng)
            self.give(n, v)
            keys = rng.sample(['x', 'y', 'other', 'one', 'vA', 'male', 'female', 'hour'], rng.randint(1, 4))
            if rng.random() < .7 and 'other' not in keys:
                keys.append('other')
            if rng.random() < .5 and v['v'] in STRS and v['v'] in ('x', 'y', 'one', 'vA', 'male', 'female') and v['v'] not in keys:
                keys.append(v['v'])
            if rng.random() < .12:
                self.give(n, dict(v, v=near(rng, rng.choice(keys))))
        else:
            self.give(n, val('uns', rng.choice(UNSS)) if kind == 'ordinal' else number(rng))
            keys = [c for c in CATEGORIES[:5] if rng.random() < .6]
            if rng.random() < .97:
                keys.append('other')
        rng.shuffle(keys)
        opts = []
        for k in keys:
            if self.named and rng.random() < .2:
                t = rng.choice(self.named)[0]
            else:
                t = rng.choice(['s', 't', 'u', 'w', 'one', 'other', 'x'] + ['v%d' % len(self.named)]) + str(len(self.named))
                if all(t != y[0] for y in self.named):
                    self.named.append((t, self.parts(level + 1, True)))
            opts.append('%s#%s' % (k, t))
        if opts and rng.random() < .05:
            opts.append(rng.choice(opts))
        return '{' + n + self.ws() + kind + ''.join(self.ws() + o for o in opts) + self.ws(True) + '}'

    def literal(self):
        x = ''.join(self.rng.choice(TEXTS + ['``', '{', '}', '#', '``']) for _ in range(self.rng.randint(0, 3)))
        return '{`' + x + '`}'

    def command(self):
        rng = self.rng
        delay = rng.random() < .5
        name = rng.choice(['echo', 'echo', 'file_path', 'english_a_or_an', 'echo', 'fail', 'nope'] if rng.random() < .3 else ['echo', 'english_a_or_an'])
        args = []
        for _ in range(rng.randint(1, 3) if name != 'echo' else rng.randint(0, 3)):
            r = rng.random()
            if self.vals and r < .1:
                args.append('`' + near(rng, rng.choice(list(self.vals))).replace('`', '``') + '`')
            elif r < .4:
                args.append('`' + ''.join(rng.choice(TEXTS + ['``', '{', '}', '#']) for _ in range(rng.randint(1, 3))) + '`')
            elif self.vals and r < .7:
                args.append(rng.choice(list(self.vals)) or 'hour')
            else:
                args.append(rng.choice(['hour', 'apple', 'b', 'zzz', 'größe']))
        mark = '#' if delay else ''
        if delay:
            for x in args:
                if x[0] != '`' and x not in self.vals and rng.random() < .4:
                    self.vals[x] = value(rng)
        return '{#' + self.ws(True) + name + self.ws(True) + mark + ''.join(self.ws() + x for x in args) + self.ws(True) + '}'

    def parts(self, level, sub=False):
        rng, out = self.rng, ''
        weights = {
            'mixed': ['text', 'text', 'ph', 'decimal', 'date', 'branch', 'literal', 'command'],
            'text': ['text', 'text', 'text', 'ph', 'literal', 'ph', 'text'],
            'branch': ['text', 'text', 'branch', 'branch', 'ph'],
            'number': ['text', 'decimal', 'decimal'],
            'date': ['text', 'date'],
            'command': ['text', 'command', 'command', 'ph'],
        }[self.focus]
        for _ in range(rng.randint(8, 30) if self.wide and level == 0 else rng.randint(1, 4)):
            if sub and rng.random() < .35 and not out.endswith('#'):
                out += '#'
            p = rng.choice(weights)
            if p == 'branch' and (level >= self.depth or len(self.named) > 25):
                p = 'text'
            x = {'text': self.text, 'ph': self.placeholder, 'decimal': self.decimal, 'date': self.date_time,
                 'branch': lambda: self.branch(level), 'literal': self.literal, 'command': self.command}[p]()
            out += x
        return out

    def pattern(self):
        main = self.parts(0)
        if not self.named and self.rng.random() > .05:
            return main
        return main + '#' + ''.join(self.ws(True) + '{' + n + self.rng.choice([' ', ' ', '\n', '\u2028', '  ']) + t + '}'
                                    for n, t in self.named) + self.ws(True)


def mutate(rng, text):
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randrange(len(text) + 1)
        r = rng.random()
        if r < .4 and i < len(text):
            text = text[:i] + text[i + 1:]
        elif r < .8:
            text = text[:i] + rng.choice(['{', '}', '`', '#', ' ', 'a', '!', '``', '{a}', '#}', '{#']) + text[i:]
        elif i + 1 < len(text):
            text = text[:i] + text[i + 1] + text[i] + text[i + 2:]
    return text


WORD = re.compile(r'\w+')
GROUP = re.compile(r'\{[^{}]*\}')
OPTION = re.compile(r'(\w+)#(\w+)')
KEYWORDS = ['plural', 'ordinal', 'select', 'decimal', 'date_time', 'other', 'one', 'sign', 'group', 'date', 'time', 'calendar', 'auto', 'long', 'buddhist', 'zz']


def slip(rng, text):
    """A slip of somebody who knows the grammar: names and parts that are repeated, exchanged, left out, or in the wrong place."""
    words, groups, options = [[m for m in x.finditer(text)] for x in (WORD, GROUP, OPTION)]
    put = lambda m, x: text[:m.start()] + x + text[m.end():]
    ways = []
    if words:
        m, o = rng.choice(words), rng.choice(words)
        ways += [lambda: put(m, o.group()), lambda: put(m, o.group()), lambda: put(m, o.group()), lambda: put(m, rng.choice(KEYWORDS)), lambda: put(m, m.group() + ' ' + m.group()),
                 lambda: put(m, ''), lambda: put(m, m.group() + '#' + o.group())]
    if groups:
        g, h = rng.choice(groups), rng.choice(groups)
        ways += [lambda: put(g, g.group() * 2), lambda: put(g, ''), lambda: put(g, h.group()), lambda: put(g, h.group()), lambda: put(g, g.group() + '#' + h.group())]
    if options:
        a, b = rng.choice(options), rng.choice(options)
        ways += [lambda: put(a, a.group() + ' ' + a.group()), lambda: put(a, a.group(2) + '#' + a.group(1)), lambda: put(a, b.group()), lambda: put(a, a.group() + ' ' + b.group()),
                 lambda: put(a, a.group(1)), lambda: put(a, ''), lambda: put(a, a.group(1) + ' # ' + a.group(2)), lambda: put(a, a.group(1) + '#' + b.group(2)),
                 lambda: put(a, a.group(1) + '##' + a.group(2))]
    return rng.choice(ways)() if ways else mutate(rng, text)


def slips(rng, count):
    out = []
    while len(out) < count:
        b = Builder(rng, rng.choice(['mixed', 'branch', 'branch']), rng.choice([1, 2, 2, 3]))
        t = b.pattern()
        for _ in range(6):
            x = slip(rng, t)
            out.append((slip(rng, x) if rng.random() < .15 else x, b.vals))
    return out


def random_patterns(rng, count, focus, broken=.25):
    """(text, values)"""
    out = []
    for _ in range(count):
        big = rng.random() < .03
        b = Builder(rng, focus, rng.choice([4, 6]) if big and rng.random() < .4 else rng.choice([1, 2, 2, 3]), big)
        t = b.pattern()
        if rng.random() < broken:
            t = mutate(rng, t)
        out.append((t, b.vals))
    return out


def towers(rng, count):
    """(text, values) Branches within branches, many levels."""
    out = []
    for _ in range(count):
        n = rng.choice([12, 30, 60, 110])
        level, vals = [rng.choice(['end', '#', 'e#d', '{a plural other#zz}'])], {'a': val('uns', '1')}
        for k in range(n):
            kind = rng.choice(['select', 'plural', 'ordinal', 'select'])
            vals['a%d' % k] = val('str', rng.choice(['x', 'y'])) if kind == 'select' else val('uns', rng.choice(UNSS[:12]))
            first = 'x' if kind == 'select' else 'one'
            # the other branch leads to the same or to an earlier string
            to = 's%d' % (k if rng.random() < .8 else max(0, k - rng.choice([1, 2, 5])))
            level.append('%s{a%d %s %s#s%d other#%s}%s' % (rng.choice(['', 'S', '#', 'b ']), k, kind, first, k, to, rng.choice(['', '', '#', ' e'])))
        head = '{b select other#s%d}' % n
        vals['b'] = val('str', 'q')
        body = ''.join('{s%d %s}' % (k, t) for k, t in enumerate(level))
        if 'zz' in level[0]:
            body = '{zz z#}' + body
        out.append((head + '#' + body, vals))
    return out


def shuffled(rng, parts):
    rng.shuffle(parts)
    return ''.join(' ' + x for x in parts)


def options_grid(rng, langs):
    """For each language all pairs of options, each with a few numbers or moments."""
    out = []
    for lang in langs:
        rows, steps = [], []

        def ask(text, values):
            i = 'p%d' % len(rows)
            rows.append(['c', i, lang, text])
            steps.extend({'op': 'format', 'c': 'c', 'i': i, 'v': {'n': v}, 't': lang} for v in values)
        for sign in [None] + SIGNS:
            for group in [None] + GROUPS:
                o = shuffled(rng, (['sign#' + sign] if sign else []) + (['group#' + group] if group else []))
                ask('{n decimal%s}' % o, [number(rng) for _ in range(3)])
        for calendar in [None] + CALENDARS:
            for date in [None] + LENGTHS:
                time = rng.choice([None] + LENGTHS)
                o = shuffled(rng, (['calendar#' + calendar] if calendar else []) + (['date#' + date] if date else []) + (['time#' + time] if time else []))
                ask('{n date_time%s}' % o, [moment(rng) for _ in range(2)])
        out.append({'k': 'loc', 'db': {'rows': rows, 'def': {'c': lang}}, 'tag': lang, 'fb': False, 'ca': rng.random() < .5, 'steps': steps})
    return out


def numbers_grid(rng, langs, count):
    """For each language branches of all categories, asked for many numbers."""
    out = []
    branches = ' '.join('%s#%s' % (c, c) for c in CATEGORIES)
    named = ''.join('{%s %s #}' % (c, c) for c in CATEGORIES)
    for lang in langs:
        rows = [['c', 'p', lang, '{n plural %s}#%s' % (branches, named)], ['c', 'o', lang, '{n ordinal %s}#%s' % (branches, named)]]
        some = [val('int', x) for x in INTS] + [val('uns', x) for x in UNSS] + [val('flt', x) for x in FLTS] + [val('dec', x) for x in DECS]
        steps = [{'op': 'format', 'c': 'c', 'i': 'p', 'v': {'n': v}, 't': lang} for v in rng.sample(some, min(count, len(some)))]
        steps += [{'op': 'format', 'c': 'c', 'i': 'o', 'v': {'n': val('uns', x)}, 't': lang} for x in rng.sample(UNSS, min(count // 2, len(UNSS)))]
        out.append({'k': 'loc', 'db': {'rows': rows, 'def': {'c': lang}}, 'tag': lang, 'fb': False, 'ca': rng.random() < .5, 'steps': steps})
    return out


def edges(rng, langs):
    """Odd characters at every end of every sort of value and of every piece of text."""
    out = []
    for kind in ('str', 'tag', 'loc'):
        lang = rng.choice(langs)
        rows = [['c', 'p', lang, '{a}'], ['c', 'q', lang, 'x {a} y'], ['c', 'k', lang, '{#echo# a `b` a}'], ['c', 's', lang, '{a select x#s b#t other#o}#{s S}{t T {a}}{o O {a}}']]
        steps = []
        for x in EDGES:
            for v in (x, x + 'b', 'b' + x, x + 'b' + x, 'b' + x + 'b', x + x):
                value = val(kind, v, t=rng.choice(['en', lang])) if kind != 'str' else val(kind, v)
                steps.append({'op': 'format', 'c': 'c', 'i': rng.choice('ppqqks'), 'v': {'a': value}, 't': lang})
        rng.shuffle(steps)
        out.append({'k': 'loc', 'db': {'rows': rows, 'def': {'c': lang}}, 'tag': lang, 'fb': False, 'ca': True, 'steps': steps})
    texts = []
    for x in EDGES + ['}}'.join('ab'), '\r', '\x1c', '\u3000', '\u2003', '\u180e', '\ufffd', '\ue000', '\U0010fffd']:
        e = '`' + x if x in '`{}#' else x
        lit = '``' if x == '`' else x
        texts += [e, e + e, e + '{a}', '{a}' + e, e + '{a}' + e, 'b' + e + '{a}' + e + 'b', '{`' + lit + '`}', '{`' + lit + 'b' + lit + '`}', '{a}{`' + lit + '`}{b}',
                  '{b select x#s other#s}#{s ' + e + '}', '{b select x#s other#s}#{s ' + e + 'b' + e + '}', '{#echo `' + lit + '`}', '{#echo `b' + lit + '` `' + lit + 'b`}']
    vals = {'a': val('str', 'A'), 'b': val('str', 'x')}
    return out + batch(rng, [(t, vals) for t in texts], langs=langs)


FIXED = [
    {n: val('str', v) for n, v in zip(['a', 'b', 'q', 'z'], ['x', 'vA', 'other', 'zz'])},
    {'a': val('uns', '1'), 'b': val('dec', '1.50'), 'q': val('str', 'Q'), 'z': val('int', '-7')},
    {'a': val('str', '2024-02-29T10:20:30'), 'b': val('uns', '22'), 'q': val('str', ''), 'z': val('flt', '0.5')},
]


def batch(rng, patterns, per=20, langs=('en',), extra=None):
    """Scenarios with many patterns each. patterns: texts or (text, values)."""
    out = []
    for i in range(0, len(patterns), per):
        lang = rng.choice(langs)
        rows, steps = [], []
        for n, p in enumerate(patterns[i:i + per]):
            text, vals = p if isinstance(p, tuple) else (p, None)
            rows.append(['c', 'p%d' % n, lang, text])
            use = [vals] if vals is not None else rng.sample(FIXED, 2)
            for v in use:
                st = {'op': 'format', 'c': 'c', 'i': 'p%d' % n, 'v': v, 't': lang}
                if rng.random() < .1:
                    st['ca'] = True
                steps.append(st)
                if extra and rng.random() < extra:
                    w = {k: (x if rng.random() < .7 else value(rng)) for k, x in v.items() if rng.random() < .9}
                    steps.append(dict(st, v=w))
            if rng.random() < .1:
                steps.append({'op': 'literal', 'c': 'c', 'i': 'p%d' % n, 't': lang})
        out.append({'k': 'loc', 'db': {'rows': rows, 'def': {'c': lang}}, 'tag': lang, 'fb': True, 'ca': False, 'steps': steps})
    return out


def dates(rng, texts, langs):
    """Many values for few patterns."""
    out = []
    for i in range(0, len(texts), 40):
        lang = rng.choice(langs)
        rows = [['c', 'p', lang, '{d date_time date#%s time#%s}' % (rng.choice(LENGTHS), rng.choice(['medium', 'medium', 'short']))],
                ['c', 'q', lang, '[{d date_time}]'],
                ['c', 'r', lang, '{d date_time calendar#%s date#%s}' % (rng.choice(CALENDARS), rng.choice(LENGTHS))]]
        steps = [{'op': 'format', 'c': 'c', 'i': rng.choice('pqpr'), 'v': {'d': val('str', x)}, 't': lang} for x in texts[i:i + 40]]
        out.append({'k': 'loc', 'db': {'rows': rows, 'def': {'c': lang}}, 'tag': lang, 'fb': False, 'ca': True, 'steps': steps})
    return out


def odd_dates(rng, count, texts):
    """Texts that are nearly dates, of no documented form."""
    out = []
    for _ in range(count):
        x = rng.choice(texts)
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.randrange(len(x) + 1)
            r = rng.random()
            if r < .3:
                x = x[:k] + x[k + 1:]
            elif r < .55:
                x = x[:k] + rng.choice(list('0123456789+-:.TZ tz,e٣') + ['é', 'W', '99999999999']) + x[k:]
            elif r < .85:
                n = rng.choice([1, 1, 2, 2, 3])
                x = x[:k] + rng.choice(list(' xe/_azt,+-.0٣')) * len(x[k:k + n]) + x[k + n:]
            else:
                x = x[:k] + x[:k:-1]
        out.append(x)
    return out + ['', 'T', '-', '+', 'Z', 'TZ', 'T+', '--', '-T-', '0', 'now', '2024-', '2024-01-01T', '2024-01-01 ', '99999999999999999999',
                  '-99999999999999999999-01-01', '+999999999-12-31', '-999999999-01-01', '2024-001', '2024-W01', '24:00', 'T24:00:00']


EXT_LANGS = ['en-u-nu-thai', 'ar-u-nu-latn', 'th-u-ca-buddhist', 'ja-u-ca-japanese', 'de-u-ca-coptic-nu-deva', 'hi-u-nu-deva', 'fa-u-ca-gregory',
             'en-ZA-u-ca-iso8601', 'en-x-private', 'fr-t-en', 'en-u-ca-ethiopic', 'en-a-foo-x-bar', 'en-u-hc-h23']

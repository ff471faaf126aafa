"""Histories of calls on a localiser."""
import gen_pat
import gen_reg
from gen_pat import val

TAGS = ['en', 'en-ZA', 'en-GB', 'de', 'de-AT', 'de-Latn-AT', 'fr', 'fr-CA', 'zh', 'zh-Hant', 'zh-Hant-TW', 'sr', 'sr-Latn', 'sr-Latn-RS',
        'ca', 'ca-valencia', 'sl', 'sl-rozaj', 'ja', 'ar', 'he', 'pt-BR', 'pt', 'fa-IR', 'ur', 'hi', 'th', 'ru', 'und', 'ko', 'uz-Arab']
MC_TEXTS = [None, 'A', 'P{a}', '{', 'B`{', '{#k}']
MC_ROWS = [['c', 'i', 'en', 'P{a}'], ['c', 'i', 'de', 'A'], ['c', 'j', 'de', '{'], ['c', 'k', 'fr', 'B`{'], ['c', 'k', 'de', '{#k}']]
TRI = {'t': True, 'f': False, 'n': None}


def from_model(history):
    """A history printed by MCLoc."""
    start, steps = history[0], []
    for op in history[1:]:
        st = {k: v for k, v in op.items() if k not in ('fb', 'ca', 'v')}
        if op['op'] in ('format', 'literal', 'defaults'):
            st['fb'], st['ca'] = TRI[op['fb']], TRI[op['ca']]
        if 'v' in op:
            st['v'] = {k: val(x['k'], x['v']) for k, x in op['v'].items()}
        if op['op'] == 'put':
            st['s'] = None if op['s'] == 0 else MC_TEXTS[op['s']]
        if op['op'] == 'defaults' and op['t'] == '':
            st['t'] = None
        steps.append(st)
    return {'k': 'loc', 'db': {'rows': MC_ROWS, 'def': {'c': 'de'}}, 'tag': 'en-ZA', 'fb': start['fb'], 'ca': start['ca'], 'steps': steps}


def text_for(rng, c, i, t, generation=0):
    """A text that shows where it comes from."""
    mark = '%s/%s/%s%s' % (c, i, t, '/%d' % generation if generation else '')
    if rng.random() < .05:
        return ''
    return rng.choice([mark, mark, mark + ' {a}', '{a} ' + mark, mark + '`{', '{`' + mark + '`}{a}', mark + ' {b decimal}',
                       mark + '{#echo# a `' + mark + '`}', '{a select x#s other#t}' + mark + '#{s S}{t T}', mark + ' {a} {b}',
                       mark + ' {b plural one#s other#t}#{s # s}{t # t}', mark + '{', mark if rng.random() < .7 else mark + ' {a} {a}'])


class World:
    def __init__(self, rng, tags=None, comps=None, ids=None, alike=.3):
        self.rng = rng
        self.tags = tags or rng.sample(TAGS, rng.randint(3, 7))
        base = [t.split('-')[0] for t in self.tags]
        self.tags = list(dict.fromkeys(self.tags + [b for b in base if rng.random() < .5]))
        self.comps = comps or ['c%d' % k for k in range(rng.randint(1, 3))]
        self.ids = ids or ['i%d' % k for k in range(rng.randint(1, 3))]
        if not comps and not ids and rng.random() < alike:
            # names that are alike: when joined, in another case, as parts of each other
            a, b, sep = rng.choice(['a', 'x1', 'é']), rng.choice(['b', '1', 'a']), rng.choice(['', '', '/', '.', ':', '_', '-', ' ', '\0', '\n'])
            self.comps = list(dict.fromkeys(rng.sample([a, a + sep + b, a + sep, a.upper(), b], rng.randint(2, 3))))
            self.ids = list(dict.fromkeys(rng.sample([b, b + sep + b, sep + b, b + sep + a, b.upper(), a, a + sep + b], rng.randint(2, 3))))
        self.rows = []
        for c in self.comps:
            for i in self.ids:
                for t in self.tags:
                    if rng.random() < .45:
                        self.rows.append([c, i, t, text_for(rng, c, i, t)])
        self.defs = {c: rng.choice(self.tags) for c in self.comps if rng.random() < .95}
        self.generation = 0
        self.linear = False

    def tri(self, p=.5):
        return self.rng.choice([None, True, False])

    def asked(self):
        return self.rng.choice(self.tags) if self.rng.random() < .85 else self.rng.choice(TAGS)

    def comp(self):
        return self.rng.choice(self.comps) if self.rng.random() < .96 else 'nowhere'

    def ident(self):
        return self.rng.choice(self.ids) if self.rng.random() < .93 else 'missing'

    def values(self):
        rng = self.rng
        v = {'a': rng.choice([val('str', rng.choice(['x', 'y', 'v', 'ä'])), gen_pat.string(rng)])}
        if rng.random() < .8:
            v['b'] = gen_pat.number(rng)
        return v if rng.random() < .95 else {}

    def data(self, depth=0):
        rng = self.rng
        d = {'k': 'ld', 'c': self.comp(), 'i': self.ident()}
        r = rng.random()
        if r < .25:
            d['vals'] = None
        else:
            v = self.values()
            for name in ('a', 'b', 'z'):
                if depth < 3 and rng.random() < .35:
                    v[name] = self.data(depth + 1)
                    if self.linear:
                        # where one part fails, it is open which of the others were cached
                        break
            d['vals'] = v
        return d

    def step(self, ops):
        rng = self.rng
        op = rng.choice(ops)
        if op == 'format':
            return {'op': op, 'c': self.comp(), 'i': self.ident(), 'v': self.values(), 't': self.asked(), 'fb': self.tri(), 'ca': self.tri()}
        if op == 'formatd':
            return {'op': op, 'c': self.comp(), 'i': self.ident(), 'v': self.values()}
        if op == 'literal':
            return {'op': op, 'c': self.comp(), 'i': self.ident(), 't': self.asked(), 'fb': self.tri(), 'ca': self.tri()}
        if op == 'literald':
            return {'op': op, 'c': self.comp(), 'i': self.ident()}
        if op in ('data', 'err'):
            return {'op': op, 'd': self.data(), 't': self.asked(), 'fb': self.tri(), 'ca': self.tri()}
        if op in ('datad', 'errd'):
            return {'op': op, 'd': self.data()}
        if op == 'defaults':
            return {'op': op, 't': rng.choice([None, self.asked()]), 'fb': self.tri(), 'ca': self.tri()}
        if op == 'put':
            self.generation += 1
            c, i, t = rng.choice(self.comps), rng.choice(self.ids), rng.choice(self.tags)
            return {'op': op, 'c': c, 'i': i, 't': t, 's': None if rng.random() < .35 else text_for(rng, c, i, t, self.generation)}
        if op == 'fail':
            kind = rng.choice(['string', 'string', 'details'])
            st = {'op': op, 'n': kind, 'c': rng.choice(self.comps), 'f': rng.choice(['Custom', 'Custom', 'DefaultLanguage', 'ComponentNotFound', '', '', ''])}
            if kind == 'string':
                st['t'] = rng.choice([self.asked(), self.defs.get(st['c'], 'en')])
            return st
        if op == 'make':
            t = rng.choice(gen_reg.BAD) if rng.random() < .4 else gen_reg.spelling(rng, rng.choice(gen_reg.BASES))
            return {'op': op, 't': t}
        if op == 'putdef':
            return {'op': op, 'c': rng.choice(self.comps), 't': rng.choice(self.tags)}
        if op == 'scriptfor':
            return {'op': op, 't': self.asked()}
        if op == 'cmdinsert':
            return {'op': op, 'n': rng.choice(['k', 'echo', 'm', 'k2']), 'f': rng.choice(['echo', 'echo2', 'fail'])}
        if op == 'cmdget':
            return {'op': op, 'n': rng.choice(['k', 'echo', 'm', 'zz', ''])}
        return {'op': op}

    def far(self, st):
        # now and then the tag is of another registry
        if st['op'] in ('format', 'literal', 'data', 'err', 'scriptfor') and self.rng.random() < .1:
            st['far'] = True
        return st

    def scenario(self, ops, n):
        rng = self.rng
        return {'k': 'loc', 'db': {'rows': self.rows, 'def': self.defs}, 'tag': self.asked(), 'fb': rng.random() < .5, 'ca': rng.random() < .5,
                'steps': [self.far(self.step(ops)) for _ in range(n)]}


FOCUS = {
    'cache': ['format'] * 6 + ['literal'] * 5 + ['formatd'] * 3 + ['literald'] * 3 + ['put'] * 4 + ['fail', 'fail', 'putdef', 'defaults', 'defaults', 'data'],
    'fallback': ['format'] * 6 + ['literal'] * 6 + ['formatd', 'literald', 'defaults', 'put', 'fail', 'fail'],
    'defaults': ['formatd', 'literald', 'datad', 'errd', 'formatd', 'literald', 'defaults', 'defaults', 'defaults', 'deflang', 'script', 'format', 'make',
                 'literal'],
    'nested': ['data', 'datad', 'err', 'errd', 'data', 'err', 'defaults', 'literal', 'format'],
}


def command_histories(rng, count, length):
    """A localiser whose commands grow, with patterns that use these."""
    out = []
    ops = ['cmdinsert', 'cmdinsert', 'cmdget', 'cmdlist', 'format', 'format', 'format', 'cmdcall', 'literal', 'put']
    for _ in range(count):
        w = World(rng, tags=['en', 'de'], comps=['c'], ids=['i', 'j', 'k'])
        w.rows = [['c', i, t, command_text(rng)] for i in w.ids for t in w.tags]
        w.defs = {'c': 'de'}
        sc = w.scenario(ops, rng.randint(3, length))
        for st in sc['steps']:
            if st['op'] == 'put' and st['s'] is not None:
                st['s'] = command_text(rng)
            if st['op'] == 'cmdcall':
                st.update(call(rng))
        out.append(sc)
    return out


NAMES = ['k', 'echo', 'm', 'k2', 'fail', 'file_path', 'english_a_or_an', 'file-path', 'K', '', ' k', 'ÿ']


def command_text(rng):
    n = rng.choice(['k', 'echo', 'm', 'k2', 'zz', 'k'])
    return rng.choice(['{#%s `x`}', '{#%s# a}', '{a} {#%s# `p` a}', '{#%s a}', '{#%s}', '{#%s#}', 't{#%s `q` `r`}{#m `s`}']).replace('%s', n)


def call(rng):
    return {'n': rng.choice(NAMES), 'a': [val('str', rng.choice(['hour', 'b', 'apple', 'path', 'x.rs', '', 'é', '1']))
                                         for _ in range(rng.randint(1, 3))]}


def registries(rng, count, length):
    """A command registry on its own."""
    out = []
    for _ in range(count):
        steps = []
        for _ in range(rng.randint(2, length)):
            op = rng.choice(['cmdinsert', 'cmdinsert', 'cmdget', 'cmdlist', 'cmdcall'])
            if op == 'cmdinsert':
                steps.append({'op': op, 'n': rng.choice(NAMES), 'f': rng.choice(['echo', 'echo2', 'fail', 'file_path', 'english_a_or_an'])})
            elif op == 'cmdget':
                steps.append({'op': op, 'n': rng.choice(NAMES)})
            elif op == 'cmdcall':
                steps.append(dict({'op': op}, **call(rng)))
            else:
                steps.append({'op': op})
        out.append({'k': 'cmd', 'steps': steps})
    return out


def histories(rng, focus, count, length):
    out = []
    for _ in range(count):
        w = World(rng)
        w.linear = focus == 'cache'
        if focus == 'cache' and rng.random() < .6:
            # few different requests, so that these are repeated
            w.ids, w.comps = w.ids[:1], w.comps[:2]
            w.tags = w.tags[:3]
            w.rows = [r for r in w.rows if r[2] in w.tags and r[1] in w.ids]
            w.defs = {c: (t if t in w.tags else w.tags[0]) for c, t in w.defs.items()}
        ops = FOCUS[focus]
        if focus == 'nested' and rng.random() < .3:
            # what was stored shows when the provider fails
            w.linear, ops = True, ops + ['fail', 'fail']
        out.append(w.scenario(ops, rng.randint(length // 2, length)))
    return out


SEPARATORS = ['', '.', '/', ':', '::', '-', '_', ' ', '|', ',', '#', '\0', '\n', ';', '\t', '=', '@', '\x1f', '\\', '->', '&', '+', '*', '~', '$', '%']


def joined(rng):
    """Components and identifiers that are the same when put together, one way or another."""
    out = []
    for sep in SEPARATORS:
        a, b, c = rng.choice([('a', 'b', 'c'), ('é', 'x', 'é'), ('c1', '1', '1')])
        w = World(rng, tags=rng.choice([['en'], ['en', 'de'], ['en', 'en-ZA']]), comps=[a, a + sep + b, c], ids=[c, b + sep + c, a])
        w.rows = [[x, y, t, '%s %s {a}' % (x, y) if rng.random() < .7 else text_for(rng, x, y, t)] for x in w.comps for y in w.ids for t in w.tags]
        pairs = [(x, y) for x in w.comps for y in w.ids]
        steps = []
        for op in rng.sample(['format', 'literal', 'data'], 3):
            rng.shuffle(pairs)
            for x, y in pairs:
                st = dict(w.step([op]), t='en', ca=True, fb=True)
                if op == 'data':
                    st['d'] = {'k': 'ld', 'c': x, 'i': y, 'vals': w.values()}
                else:
                    st.update(c=x, i=y)
                steps.append(st)
        out.append({'k': 'loc', 'db': {'rows': w.rows, 'def': {x: 'en' for x in w.comps}}, 'tag': 'en', 'fb': True, 'ca': True, 'steps': steps})
    return out


def long_histories(rng, focus, count, length):
    """Many strings and languages, and long histories in which requests come back after many others."""
    out = []
    for _ in range(count):
        w = World(rng, tags=list(TAGS), comps=['c%d' % k for k in range(rng.choice([1, 6]))], ids=['i%d' % k for k in range(rng.choice([3, 25]))])
        w.linear = focus == 'cache'
        sc = w.scenario(FOCUS[focus], length // 2)
        again = [st for st in sc['steps'] if st['op'] in ('format', 'literal', 'put')] or sc['steps']
        for _ in range(length // 2):
            st = w.step(FOCUS[focus]) if rng.random() < .5 else dict(rng.choice(again))
            if st['op'] == 'put' and st['s']:
                w.generation += 1
                st['s'] = text_for(rng, st['c'], st['i'], st['t'], w.generation)
            sc['steps'].append(st)
        out.append(sc)
    return out

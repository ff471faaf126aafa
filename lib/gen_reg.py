"""Histories of a language tag registry, of one thread and of several."""

BASES = ['en', 'en-ZA', 'de', 'fr-CA', 'zh-Hant-TW', 'sr-Latn', 'sl-rozaj', 'es-419', 'az-Cyrl-AZ', 'ca-valencia',
         'de-1996', 'root', 'und', 'und-Latn', 'haw', 'sl-IT-nedis', 'ja', 'pt-BR', 'iw', 'no', 'sh', 'x-default',
         'en-u-nu-latn', 'en-a-foo-x-bar', 'de-t-en', 'th-u-ca-buddhist-nu-thai']
BAD = ['', '-', 'e', 'en-', '-en', 'en--ZA', 'en ZA', 'en-\u00e9', '12', 'abcdefghijk', 'en-Z', 'en-ZAA-', 'hnfg_lku',
       'en-ZA-ZA', '\u0435n', 'en\0', ' en', 'en ', 'i-klingon']


def spelling(rng, base):
    parts = base.split('-')
    r = rng.random()
    if r < .35:
        return base
    case = rng.choice([str.lower, str.upper, str.title, str.swapcase, lambda x: x])
    parts = [case(x) for x in parts]
    if rng.random() < .3:
        parts = [rng.choice([str.lower, str.upper])(x) for x in parts]
    out = parts[0]
    for x in parts[1:]:
        out += rng.choice('-__') + x
    if len(parts) > 2 and rng.random() < .2:
        out = '-'.join([parts[0]] + parts[:0:-1])
    return out


def from_model(h):
    return {'k': 'reg', 'steps': h}


def step(rng, bases, reads=.25, bad=.08, far=False):
    if rng.random() < reads:
        return {'op': rng.choice(['list', 'depr', 'all'])}
    if rng.random() < bad:
        return {'op': 'tag', 't': rng.choice(BAD)}
    return {'op': 'icux' if far and rng.random() < .08 else rng.choice(['tag', 'tag', 'icu']), 't': spelling(rng, rng.choice(bases))}


def histories(rng, count, length):
    out = []
    for _ in range(count):
        bases = rng.sample(BASES, rng.randint(2, 8))
        out.append({'k': 'reg', 'steps': [step(rng, bases, far=True) for _ in range(rng.randint(2, length))]})
    return out


def long_histories(rng, count, length):
    """Many different tags."""
    langs = ['en', 'de', 'fr', 'iw', 'zh', 'sr', 'pt', 'es', 'ar', 'ja', 'no', 'tl', 'mo', 'sh', 'ji']
    rest = ['', '-za', '-us', '-latn', '-cyrl-rs', '-hant-tw', '-150', '-valencia', '-latn-su', '-dd']
    every = [a + b for a in langs for b in rest]
    return [{'k': 'reg', 'steps': [step(rng, every, reads=.04, bad=.03, far=True) for _ in range(length)]} for _ in range(count)]


def concurrent_readers(rng, count):
    """Few calls, some of which read everything: for each an order is searched that explains it."""
    out = []
    for _ in range(count):
        bases = rng.sample(BASES, rng.randint(1, 3))
        threads = rng.choice([2, 3, 4])
        out.append({'k': 'creg', 'threads': [[step(rng, bases, .3, .03) for _ in range(rng.randint(2, 5))]
                                             for _ in range(threads)]})
    return out


def concurrent_askers(rng, count, length):
    """Many threads that ask for the same new tags at the same time."""
    out = []
    for _ in range(count):
        bases = rng.sample(BASES, rng.randint(4, 12))
        common = [step(rng, bases, 0, .03) for _ in range(length)]
        threads = []
        for _ in range(rng.choice([4, 6, 8])):
            mine = []
            for x in common:
                if rng.random() < .3:
                    x = dict(x, op=rng.choice(['tag', 'icu']))
                if rng.random() < .3 and x['t'].lower() not in [y.lower() for y in BAD]:
                    x = dict(x, t=spelling(rng, x['t'].replace('_', '-').lower()))
                mine.append(x)
            threads.append(mine)
        out.append({'k': 'creg', 'threads': threads})
    return out


def concurrent_small(rng, count):
    """Two or three threads with one or two calls each, most of them about the same tag."""
    out = []
    for _ in range(count):
        bases = rng.sample(BASES, rng.choice([1, 1, 2]))
        spellings = [spelling(rng, b) for b in bases for _ in range(2)] + bases
        one = lambda: {'op': rng.choice(['tag', 'tag', 'icu']), 't': rng.choice(spellings)}
        threads = [[one() for _ in range(rng.choice([1, 1, 2]))] for _ in range(rng.choice([2, 2, 3]))]
        if rng.random() < .4:
            rng.choice(threads).append({'op': rng.choice(['list', 'depr', 'all'])})
        out.append({'k': 'creg', 'threads': threads})
    return out

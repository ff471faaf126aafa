"""The checks: for every property the driver build, the models, and the scenarios."""
from concurrent.futures import ThreadPoolExecutor

import core
import family
import gen_err
import gen_lex
import gen_loc
import gen_pat
import gen_prov
import gen_reg
import gen_script

PROPS = {}
PART = .25
TRUST = ['ICU4X (character classes, graphemes, canonical tags, plural categories, formatted numbers and dates) is '
         'trusted: the specification asks it through the driver',
         'the driver in /verif/harness reports truthfully what the public API answered',
         'TLC evaluates the specification correctly']


class Prop:
    """other: another build flavour, on which a part of the scenarios is executed as well."""
    def __init__(self, name, check, assumptions=(), other=None):
        self.name, self.check, self.assumptions, self.other = name, check, TRUST + list(assumptions), other
        PROPS[name] = self

    def run(self, run):
        if not self.other:
            return self.check(run)
        run.executed = []
        with ThreadPoolExecutor(1) as ex:
            binary = ex.submit(core.build, run, self.other)
            self.check(run)
            try:
                binary = binary.result()
            except core.ToolError as e:  # C20 is about that
                run.log('without the features %s: %s' % (self.other, e))
                return
        done, run.executed = run.executed, None
        sc = {}
        for scenarios, label in done:
            n = max(12, int(len(scenarios) * (.5 if run.thorough else PART)))
            sc.setdefault(scenarios[0]['k'], []).extend(run.rng.sample(scenarios, min(n, len(scenarios))))
        for kind in sc:
            family.execute(run, binary, sc[kind], 'a part of these, with the features ' + self.other, features=self.other)


def gen(run, module, cfg=None, **kw):
    return list(core.printed(core.model(run, module, cfg, **kw), 'GEN'))


# ---------------------------------------------------------------- lexer

def lex_model(run):
    texts = gen(run, 'MCLexer', 'MCLexer_thorough.cfg' if run.thorough else None)
    return [{'k': 'lex', 's': x['s'], 'g': x['g']} for x in texts]


def c01(run):
    binary = core.build(run)
    family.execute(run, binary, lex_model(run), 'all short texts')
    family.execute(run, binary, gen_lex.randoms(run.rng, 20000 if run.thorough else 1500), 'random texts')
    family.execute(run, binary, gen_lex.large(run.rng), 'large texts')


def c02(run):
    binary = core.build(run)
    ranges = gen_lex.FULL if run.thorough else gen_lex.QUICK
    family.execute(run, binary, gen_lex.sweep_apart(run.rng, ranges, 60), 'every character on its own')
    family.execute(run, binary, gen_lex.sweep(ranges, 200), 'runs of neighbouring code points')
    family.execute(run, binary, lex_model(run), 'all short texts')
    family.execute(run, binary, gen_lex.randoms(run.rng, 20000 if run.thorough else 800), 'random texts')


Prop('C01', c01, other='sync,ext')
Prop('C02', c02, other='sync,ext')


# ---------------------------------------------------------------- patterns

def model_patterns(run, quick):
    """Patterns of the parser machine: all short ones, and a sample of those that cover its states."""
    short = gen(run, 'MCPattern', 'MCPattern_thorough.cfg' if run.thorough else None)
    deep = gen(run, 'MCPattern', 'MCPattern_view.cfg', workers=1)
    short, deep = sorted(set(short)), sorted(set(deep))
    if not run.thorough:
        deep = run.rng.sample(deep, min(len(deep), quick))
    return short, deep


def c03(run):
    binary = core.build(run, 'loc')
    short, deep = model_patterns(run, 5000)
    ex = lambda pats, label: family.execute(run, binary, gen_pat.batch(run.rng, pats), label, features='loc')
    ex([x for x in short if x], 'all short patterns')
    ex(deep, 'patterns that cover the parser')
    ex(gen_pat.random_patterns(run.rng, 20000 if run.thorough else 1200, 'mixed', .7), 'random and damaged patterns')
    ex(gen_pat.slips(run.rng, 30000 if run.thorough else 2400), 'patterns with slips')


Prop('C03', c03, other='loc,sync,ext')


def pat_check(focuses, quick=1200, thorough=20000, broken=.1):
    def check(run):
        for focus in focuses.split():
            one(run, focus)

    def one(run, focus):
        binary = core.build(run, 'loc')
        pats = gen_pat.random_patterns(run.rng, thorough if run.thorough else quick, focus, broken)
        family.execute(run, binary, gen_pat.batch(run.rng, pats, per=12, langs=gen_pat.LANGS, extra=.4), focus, features='loc')
        if focus == 'branch':
            towers = gen_pat.towers(run.rng, 300 if run.thorough else 24)
            family.execute(run, binary, gen_pat.batch(run.rng, towers, per=2, langs=gen_pat.LANGS), 'branches in many levels', features='loc')
            family.execute(run, binary, gen_pat.numbers_grid(run.rng, gen_pat.LANGS, 200 if run.thorough else 40), 'numbers for each language', features='loc')
        if focus == 'text':
            for _ in range(6 if run.thorough else 1):
                family.execute(run, binary, gen_pat.edges(run.rng, gen_pat.LANGS), 'odd characters at every end', features='loc')
        if focus == 'date':
            for _ in range(20 if run.thorough else 1):
                family.execute(run, binary, gen_pat.options_grid(run.rng, gen_pat.LANGS), 'pairs of options for each language', features='loc')
    return check


def c07(run):
    binary = core.build(run, 'loc')
    pat_check('command', 700)(run)
    n = 5000 if run.thorough else 250
    family.execute(run, binary, gen_loc.command_histories(run.rng, n, 15), 'growing commands', features='loc')
    family.execute(run, binary, gen_loc.registries(run.rng, n, 15), 'command registries', features='loc')


def c19(run):
    binary = core.build(run, 'loc')
    texts = sorted(set(gen(run, 'MCIso', 'MCIso_thorough.cfg' if run.thorough else None)))
    odd = gen_pat.odd_dates(run.rng, 20000 if run.thorough else 1500, texts)
    run.rng.shuffle(texts)
    langs = ['en', 'de', 'ja', 'ar', 'th', 'fa', 'pl', 'en-ZA']
    family.execute(run, binary, gen_pat.dates(run.rng, texts, langs), 'dates and times of all forms', features='loc')
    family.execute(run, binary, gen_pat.dates(run.rng, odd, langs), 'damaged dates and times', features='loc')


def hist_check(focus, quick, length, thorough):
    def check(run):
        binary = core.build(run, 'loc')
        hs = gen(run, 'MCLoc', 'MCLoc_deep.cfg' if run.thorough else 'MCLoc_wide.cfg', workers=1)
        if not run.thorough:
            hs = run.rng.sample(hs, min(len(hs), 6000))
        family.execute(run, binary, [gen_loc.from_model(h) for h in hs], 'all short histories', features='loc')
        family.execute(run, binary, gen_loc.histories(run.rng, focus, thorough if run.thorough else quick, length), focus, features='loc')
        family.execute(run, binary, gen_loc.long_histories(run.rng, focus, 100 if run.thorough else 6, 150), 'long histories', features='loc')
        family.execute(run, binary, gen_loc.joined(run.rng), 'names that are alike when joined', features='loc')
        files = gen_err.on_files(run.rng, focus, (thorough if run.thorough else quick) // 5, length)
        family.execute(run, binary, files, focus + ' on files', features='loc')
    return check


Prop('C04', pat_check('text'), other='loc,sync,ext')
Prop('C05', pat_check('branch'), other='loc,sync,ext')
Prop('C06', pat_check('number date', 900), other='loc,sync,ext')
Prop('C07', c07, other='loc,sync,ext')
Prop('C08', hist_check('cache', 200, 40, 3000), other='loc,sync,ext')
Prop('C09', hist_check('fallback', 200, 25, 3000), other='loc,sync,ext')
Prop('C10', hist_check('defaults', 200, 25, 3000), other='loc,sync,ext')
Prop('C11', hist_check('nested', 200, 15, 3000), other='loc,sync,ext')
Prop('C19', c19, other='loc,sync,ext')


# ---------------------------------------------------------------- provider

def prov_check(ops, details=False):
    def check(run):
        binary = core.build(run)
        if details:
            dbs = gen(run, 'MCProv', 'MCProv_details.cfg')
        else:
            dbs = gen(run, 'MCProv', 'MCProv_thorough.cfg' if run.thorough else None)
        sc = [gen_prov.from_model(x, details) for x in dbs]
        family.execute(run, binary, sc, 'all small repositories')
        n = 3000 if run.thorough else 150
        sc = gen_prov.detail_repos(run.rng, n, 12) if details else gen_prov.string_repos(run.rng, n, 30, ops)
        family.execute(run, binary, sc, 'random repositories')
        family.execute(run, binary, gen_prov.big_repos(run.rng, 60 if run.thorough else 4, 30, details), 'large repositories')
        binary = core.build(run, 'ext')
        tags = gen_prov.EXT_TAGS
        sc = gen_prov.detail_repos(run.rng, n // 3, 12, tags) if details else gen_prov.string_repos(run.rng, n // 3, 30, ops, tags)
        family.execute(run, binary, sc, 'languages with extensions (ext)', features='ext')
    return check


def c15(run):
    binary = core.build(run)
    family.execute(run, binary, gen_prov.open_scenarios(run.rng), 'damaged schemas and directories')
    family.execute(run, binary, gen_prov.rotten(run.rng, 5000 if run.thorough else 400), 'damaged files')


Prop('C12', prov_check(('string', 'exact', 'string')), other='sync,ext')
Prop('C13', prov_check(('strings', 'string', 'strings')), other='sync,ext')
Prop('C14', prov_check((), True), other='sync,ext')
Prop('C15', c15, other='sync')


# ---------------------------------------------------------------- registry

def c16(run):
    binary = core.build(run)
    hs = gen(run, 'MCReg', 'MCReg_thorough.cfg' if run.thorough else None)
    family.execute(run, binary, [gen_reg.from_model(h) for h in hs], 'all short histories')
    family.execute(run, binary, gen_reg.histories(run.rng, 10000 if run.thorough else 500, 40), 'random histories')
    family.execute(run, binary, gen_reg.long_histories(run.rng, 100 if run.thorough else 5, 250), 'long histories')


def c17(run):
    binary = core.build(run, 'sync')
    core.model(run, 'MCRegConc')
    core.model_fails(run, 'MCRegConc', 'MCRegConc_wrong.cfg', 'Invariant Registered is violated')
    ex = lambda sc, label: family.execute(run, binary, sc, label, shards=1, features='sync')
    ex(gen_reg.concurrent_askers(run.rng, 3000 if run.thorough else 250, 12), 'threads that ask for the same tags')
    ex(gen_reg.concurrent_readers(run.rng, 4000 if run.thorough else 300), 'threads that ask and list')
    family.schedules(run, binary, gen_reg.concurrent_small(run.rng, 8000 if run.thorough else 800),
                     'threads with chosen schedules', 400 if run.thorough else 60)


Prop('C16', c16, other='sync,ext')
Prop('C17', c17)


def c18(run):
    binary = core.build(run, 'sync')
    core.model(run, 'MCProvConc')
    core.model(run, 'MCProvConc', 'MCProvConc_once.cfg')
    core.model_fails(run, 'MCProvConc', 'MCProvConc_wrong.cfg', 'Invariant Right is violated')
    n = 1500 if run.thorough else 80
    family.execute(run, binary, gen_prov.concurrent(run.rng, n, 8), 'threads on one provider', shards=1, features='sync')


Prop('C18', c18)


# ---------------------------------------------------------------- build flavours

def flavour_build(run, flavour):
    """A flavour that does not compile, although the usual one does, is a violation."""
    try:
        return core.build(run, flavour)
    except core.ToolError as e:
        core.build(run, 'loc')
        core.report(run, 'build', {'k': 'build', 'features': flavour}, str(e)[-1500:], {'want': 'it compiles'}, flavour)


def c20(run):
    most = 4000 if run.thorough else 300
    for flavour, langs, n in (('loc,sync', gen_pat.LANGS, most), ('loc,ext', gen_pat.EXT_LANGS, most), ('loc,sync,ext,log', gen_pat.EXT_LANGS, most // 5)):
        binary = flavour_build(run, flavour)
        if binary is None:
            continue
        ex = lambda sc, label: family.execute(run, binary, sc, '%s (%s)' % (label, flavour), features=flavour)
        sc = []
        for focus in ('mixed', 'branch', 'number', 'date', 'command'):
            pats = gen_pat.random_patterns(run.rng, n, focus, .1)
            sc += gen_pat.batch(run.rng, pats, langs=langs, extra=.3)
        ex(sc, 'patterns')
        ex([x for focus in ('cache', 'defaults', 'nested') for x in gen_loc.histories(run.rng, focus, n // 5, 25)], 'histories')
        ex([x for focus in ('cache', 'defaults', 'nested') for x in gen_err.on_files(run.rng, focus, n // 20, 25)], 'histories on files')
        ex(gen_reg.histories(run.rng, n // 2, 30), 'registries')
        ex(gen_prov.detail_repos(run.rng, n // 6, 12) + gen_prov.string_repos(run.rng, n // 6, 20), 'repositories')
        ex(gen_err.made(run.rng, core.REPO, ext='ext' in flavour), 'every error')


Prop('C20', c20)


def c21(run):
    binary = core.build(run, 'loc')
    family.execute(run, binary, gen_script.scenarios(run.rng, 3000 if run.thorough else 300), 'scripts', features='loc')


Prop('C21', c21, other='loc,sync,ext')


# ---------------------------------------------------------------- errors

def c22(run):
    binary = core.build(run, 'loc')
    ex = lambda sc, label: family.execute(run, binary, sc, label, features='loc')
    ex(gen_err.strings(run.rng, core.REPO), 'every shipped string')
    ex(gen_err.made(run.rng, core.REPO, rounds=20 if run.thorough else 2), 'every error')
    happened = gen_err.happened(run.rng, core.REPO, 500 if run.thorough else 30)
    ex(happened, 'errors that occur')
    other = 'loc,sync,ext'
    binary = core.build(run, other)
    family.execute(run, binary, gen_err.made(run.rng, core.REPO, ext=True), 'every error (%s)' % other, features=other)
    family.execute(run, binary, happened[::3], 'errors that occur (%s)' % other, features=other)


Prop('C22', c22)


def c23(run):
    n = 3000 if run.thorough else 150
    for flavour in ('', 'sync'):
        binary = core.build(run, flavour)
        label = 'queries while files are watched' + (' (sync)' if flavour else '')
        family.execute(run, binary, gen_prov.watched(run.rng, n, 12), label, features=flavour)
        bad = [dict(x, steps=list(x['steps']) + [{'op': 'disk'}]) for x in gen_prov.open_scenarios(run.rng)]
        family.execute(run, binary, bad if run.thorough else run.rng.sample(bad, 150), 'opening, ' + label, features=flavour)


Prop('C23', c23)


def c24(run):
    core.model(run, 'MCProvFault')
    core.model_fails(run, 'MCProvFault', 'MCProvFault_early.cfg', 'is violated')
    core.model_fails(run, 'MCProvFault', 'MCProvFault_skip.cfg', 'Invariant Right is violated')
    n = 2500 if run.thorough else 250
    for flavour in ('', 'sync'):
        binary = core.build(run, flavour)
        label = 'accesses to files that fail' + (' (sync)' if flavour else '')
        family.execute(run, binary, gen_prov.faulty(run.rng, n, 6), label, features=flavour)


Prop('C24', c24)


# ---------------------------------------------------------------- what errors point at

def why(scenarios):
    return [dict(x, why=True) for x in scenarios]


def c25(run):
    binary = core.build(run, 'loc')
    ex = lambda sc, label: family.execute(run, binary, why(sc), label, features='loc')
    pats = lambda ps, **kw: gen_pat.batch(run.rng, ps, **kw)
    short, deep = model_patterns(run, 3000)
    ex(pats([x for x in short if x] + deep), 'patterns of the model')
    ex(pats(gen_pat.slips(run.rng, 30000 if run.thorough else 2000), langs=gen_pat.LANGS), 'patterns with slips')
    ex(pats(gen_pat.random_patterns(run.rng, 20000 if run.thorough else 600, 'mixed', .6), langs=gen_pat.LANGS, extra=.6), 'damaged patterns')
    for focus in ('mixed', 'branch', 'command'):
        ps = gen_pat.random_patterns(run.rng, 10000 if run.thorough else 300, focus, 0)
        ex(pats(ps, langs=gen_pat.LANGS, extra=1), 'unsuitable values: ' + focus)
    ex(gen_loc.histories(run.rng, 'cache', 1000 if run.thorough else 60, 25), 'histories')
    ex(gen_prov.open_scenarios(run.rng), 'damaged schemas and directories')
    ex(gen_prov.astray(run.rng, 3000 if run.thorough else 250), 'components that are amiss')


Prop('C25', c25, other='loc,sync,ext')


# ---------------------------------------------------------------- what errors say by themselves

def plain(sc):
    for x in sc:
        x['plain'] = True
    return sc


def c26(run):
    for flavour in ('loc', 'loc,sync,ext'):
        binary = core.build(run, flavour)
        made = gen_err.made(run.rng, core.REPO, ext='ext' in flavour, rounds=20 if run.thorough else 2)
        family.execute(run, binary, plain(made), 'every error (%s)' % flavour, features=flavour)
        happened = gen_err.happened(run.rng, core.REPO, 500 if run.thorough else 30)
        family.execute(run, binary, plain(happened), 'errors that occur (%s)' % flavour, features=flavour)


Prop('C26', c26)

"""Machinery shared by the checks: builds the driver from /repo, runs scenarios on it, and has TLC validate
what was observed against the specification in /verif/spec."""
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

REPO = '/repo'
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, '.build')
SPEC = os.path.join(ROOT, 'spec')
CORES = max(2, os.cpu_count() or 2)
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class ToolError(Exception):
    """The check itself failed: no verdict."""


class Run:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.start = time.time()
        self.states = self.transitions = self.traces = 0
        self.models = []          # design-level models that were explored
        self.samples = []
        self.violations = []      # (what, replay object)
        self.known = []
        self.families = []
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix='run_%s_' % prop, dir=BUILD)

    def log(self, text):
        print('[%6.1f s] %s' % (time.time() - self.start, text), flush=True)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ---------------------------------------------------------------- build

def cargo_env(target):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('CARGO_', 'RUSTFLAGS', 'RUSTC_W'))}
    e.update(HOME='/root', PATH='/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin',
             RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', RUSTC_WRAPPER='', RUST_BACKTRACE='0',
             CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0', CARGO_TERM_COLOR='never', CARGO_TARGET_DIR=target)
    return e


def build(run, features=''):
    """Builds the driver against /repo's working tree. features: '', 'loc', 'sync', 'loc,sync', ..."""
    target = os.path.join(BUILD, 'target_' + (features.replace(',', '_') or 'base'))
    fp = os.path.join(target, 'debug', '.fingerprint')
    if os.path.isdir(fp):  # cargo judges by mtime: always recompile the crates of /repo and the driver
        for d in os.listdir(fp):
            if d.startswith(('i18n', 'harness')):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    cmd = ['cargo', 'build', '--offline', '--locked', '--quiet']
    if features:
        cmd += ['--features', features]
    p = subprocess.run(cmd, cwd=os.path.join(ROOT, 'harness'), env=cargo_env(target), text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise ToolError('build of the driver failed:\n' + p.stdout[-4000:])
    run.log('driver built (%s)' % (features or 'base'))
    return os.path.join(target, 'debug', 'harness')


# ---------------------------------------------------------------- drive

HANG = 25.0


def _drive_shard(binary, items, work, hang):
    """items: list of scenarios; returns the observations, one for each."""
    os.makedirs(work, exist_ok=True)
    src, out, scratch = (os.path.join(work, x) for x in ('in.ndjson', 'out.ndjson', 'scratch'))
    os.makedirs(scratch, exist_ok=True)
    with open(src, 'w', encoding='utf-8') as f:
        for x in items:
            f.write(json.dumps(x, ensure_ascii=False) + '\n')
    open(out, 'w').close()
    result = {}

    def collect():
        with open(out, encoding='utf-8') as f:
            text = f.read()
        for line in text.split('\n'):
            if line:
                try:
                    o = json.loads(line)
                except ValueError:
                    continue
                result[o['n']] = o
        return len(result)

    start = 0
    while start < len(items):
        err = open(os.path.join(work, 'err'), 'w')
        p = subprocess.Popen([binary, src, out, str(start), scratch], stdout=subprocess.DEVNULL, stderr=err,
                             preexec_fn=os.setsid)
        size, since, hung = -1, time.time(), False
        while True:
            try:
                p.wait(0.1)
                break
            except subprocess.TimeoutExpired:
                now = os.path.getsize(out)
                if now != size:
                    size, since = now, time.time()
                elif time.time() - since > hang:
                    hung = True
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    break
        err.close()
        collect()
        done = start
        while done in result:
            done += 1
        if done >= len(items):
            break
        said = open(os.path.join(work, 'err'), errors='replace').read()
        last = [x for x in said.splitlines() if x.startswith('panic at ')][-1:]
        if p.returncode in (0, 3) or (p.returncode == 101 and last and last[0].startswith('panic at src/')):
            raise ToolError('driver: ' + said[-2000:] + ' in ' + json.dumps(items[done], ensure_ascii=False)[:2000])
        result[done] = {'n': done, 'r': 'hang' if hung else 'crash', 'm': str(p.returncode)}
        start = done + 1
        # A cut line of a killed process is dropped, and the next one starts afresh.
        with open(out, 'w', encoding='utf-8') as f:
            for k in sorted(result):
                f.write(json.dumps(result[k], ensure_ascii=False) + '\n')
    shutil.rmtree(work, ignore_errors=True)
    return [result[k] for k in range(len(items))]


def drive(run, binary, scenarios, shards=None, hang=HANG):
    shards = shards or min(CORES, max(1, len(scenarios) // 20))
    parts = [list(range(k, len(scenarios), shards)) for k in range(shards)]
    base = tempfile.mkdtemp(dir=run.dir)
    out = [None] * len(scenarios)
    with ThreadPoolExecutor(shards) as ex:
        futures = [ex.submit(_drive_shard, binary, [scenarios[i] for i in part], os.path.join(base, str(k)), hang)
                   for k, part in enumerate(parts)]
        for part, f in zip(parts, futures):
            for i, o in zip(part, f.result()):
                out[i] = o
    shutil.rmtree(base, ignore_errors=True)
    run.log('%d scenarios executed' % len(scenarios))
    return out


# ---------------------------------------------------------------- schedules

MIRI = ('-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows -Zmiri-disable-validation '
        '-Zmiri-preemption-rate=%s -Zmiri-seed=%d')
RATES = (0.02, 0.05, 0.1, 0.3)


def schedules(run, scenarios, seconds):
    """Runs concurrent scenarios in Miri, which takes the schedule of the threads from a seed, for at most the
    given time. Returns (scenario, observation) for those that were executed, and what else was said."""
    target = os.path.join(BUILD, 'target_sched')
    env = cargo_env(target)
    env['RUSTUP_TOOLCHAIN'] = 'nightly-x86_64-unknown-linux-gnu'
    fp = os.path.join(target, 'miri', 'x86_64-unknown-linux-gnu', 'debug', '.fingerprint')
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith(('i18n', 'sched')):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    base = tempfile.mkdtemp(dir=run.dir)
    cmd = ['cargo', 'miri', 'run', '--offline', '--locked', '--quiet', '--']

    def one(k, items, until):
        src, out, err = (os.path.join(base, '%s%d' % (x, k)) for x in ('in', 'out', 'err'))
        with open(src, 'w', encoding='utf-8') as f:
            for x in items:
                f.write(json.dumps(x, ensure_ascii=False) + '\n')
        open(out, 'w').close()
        done, start, note = {}, 0, None
        while start < len(items) and time.time() < until:
            e = dict(env, MIRIFLAGS=MIRI % (RATES[(k + start) % len(RATES)], run.seed * 1000 + k * 100 + start))
            with open(err, 'w') as f:
                p = subprocess.Popen(cmd + [src, out, str(start)], cwd=os.path.join(ROOT, 'sched'), env=e,
                                     stdout=subprocess.DEVNULL, stderr=f, preexec_fn=os.setsid)
                try:
                    p.wait(max(1, until - time.time()))
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
            for line in open(out, encoding='utf-8'):
                try:
                    o = json.loads(line)
                    done[o['n']] = o
                except ValueError:
                    pass
            if p.returncode in (0, -signal.SIGKILL):
                break
            said = open(err, errors='replace').read()
            at = max([start - 1] + [n for n in done]) + 1
            if 'the evaluated program deadlocked' in said:
                done[at] = {'n': at, 'r': 'hang', 'm': 'deadlock'}
            elif 'Data race detected' in said:
                done[at] = {'n': at, 'r': 'crash', 'm': 'data race'}
            else:  # the interpreter cannot run it: no verdict
                note = said[-600:]
                break
            start = at + 1
        return [(items[n], o) for n, o in sorted(done.items()) if n < len(items)], note

    one(0, [{'k': 'creg', 'threads': [[]]}], time.time() + 300)   # builds
    until = time.time() + seconds
    with ThreadPoolExecutor(CORES) as ex:
        results = list(ex.map(lambda k: one(k, scenarios[k::CORES], until), range(CORES)))
    shutil.rmtree(base, ignore_errors=True)
    out = [x for r in results for x in r[0]]
    notes = [r[1] for r in results if r[1]]
    run.log('%d scenarios executed with chosen schedules%s' % (len(out), (', %d workers stopped: %s' % (len(notes), notes[0])) if notes else ''))
    return out


# ---------------------------------------------------------------- TLC

def tlc(run, module, cfg=None, workers=2, trace=None, heap='3g', timeout=800, extra=(), env=None):
    """Runs TLC; returns (output lines, distinct states, generated states)."""
    meta = tempfile.mkdtemp(dir=run.dir)
    e = dict(os.environ)
    if trace:
        e['TRACE'] = trace
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4', '-Xss64m', '-Xmx' + heap, '-Dfile.encoding=UTF-8',
           '-Dstdout.encoding=UTF-8', '-Djava.io.tmpdir=' + meta, '-cp', JAR, 'tlc2.TLC', '-config', cfg or module + '.cfg', '-workers',
           str(workers), '-metadir', meta, '-noTE', *extra, module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC: %s took too long' % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    text = p.stdout.decode('utf-8', 'replace')
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', text)
    return p.returncode, text, (int(m[-1][1]), int(m[-1][0])) if m else (0, 0)


def printed(text, word):
    """JSON values that a specification printed as "WORD json"."""
    for line in text.split('\n'):
        if line.startswith('"%s ' % word):
            try:
                yield json.loads(json.loads(line)[len(word) + 1:])
            except ValueError:
                raise ToolError('unreadable line of TLC: ' + line[:300])


def model(run, module, cfg=None, workers=CORES, timeout=800, **kw):
    """Explores a model of the specification itself; an error of the model is an error of the check."""
    rc, text, (distinct, generated) = tlc(run, module, cfg, workers=workers, timeout=timeout, **kw)
    if rc != 0 or 'No error has been found' not in text:
        raise ToolError('model %s: %s' % (cfg or module, text[-3000:]))
    run.states += distinct
    run.transitions += generated
    run.models.append({'model': cfg or module, 'states': distinct, 'generated': generated})
    run.log('model %s: %d distinct states' % (cfg or module, distinct))
    return text


def model_fails(run, module, cfg, what, **kw):
    """A model of a design that is known to be wrong: the specification has to refuse it."""
    rc, text, (distinct, generated) = tlc(run, module, cfg, workers=1, **kw)
    if what not in text:
        raise ToolError('model %s does not fail: %s' % (cfg, text[-3000:]))
    run.models.append({'model': cfg, 'states': distinct, 'generated': generated, 'refused': what})
    run.log('model %s: refused, as it must be' % cfg)


def validate(run, module, lines, steps, canary, accept=False, shards=None, workers=2, timeout=800):
    """lines: merged scenarios for the trace specification, each with a number n (from 0);
    steps: number of steps of each; canary: a corrupted scenario which must be rejected.
    Returns {n: mismatch}."""
    if not lines:
        return {}
    shards = shards or max(1, min(CORES // 2, len(lines), sum(steps) // 400))
    order = sorted(range(len(lines)), key=lambda i: -steps[i])
    parts = [order[k::shards] for k in range(shards)]

    def one(k):
        path = os.path.join(run.dir, 'trace_%s_%d.ndjson' % (module, k))
        with open(path, 'w', encoding='utf-8') as f:
            for i in parts[k]:
                f.write(json.dumps(lines[i], ensure_ascii=False) + '\n')
            if k == 0:
                f.write(json.dumps(dict(canary, n=-1), ensure_ascii=False) + '\n')
        rc, text, counts = tlc(run, module, trace=path, workers=workers, timeout=timeout)
        os.unlink(path)
        if rc != 0 or 'Model checking completed' not in text:
            open(os.path.join(BUILD, 'tlc_error.txt'), 'w').write(text)
            first = text.find('Error: ')
            raise ToolError('TLC on %s: %s' % (module, ' '.join(re.findall(r'Error: (?!The behavior).*(?:\n.*){1,8}|line \d+, column.*', text)[:6])[:1500] if first >= 0 else text[-3000:]))
        return text, counts

    with ThreadPoolExecutor(shards) as ex:
        results = list(ex.map(one, range(shards)))
    bad, accepted, distinct, generated = {}, set(), 0, 0
    for text, counts in results:
        for m in printed(text, 'MISMATCH'):
            bad.setdefault(m['n'], m)
        for m in printed(text, 'ACCEPT'):
            accepted.add(m['n'])
        distinct += counts[0]
        generated += counts[1]
    if accept:  # a history is fine when an explanation was found
        for x in lines:
            if x['n'] not in accepted and x['n'] not in bad:
                bad[x['n']] = {'n': x['n'], 'k': 0, 'want': 'no order of the calls explains the answers'}
        if -1 not in accepted and -1 not in bad:
            bad[-1] = {}
    if -1 not in bad:
        raise ToolError('%s accepted a corrupted history' % module)
    del bad[-1]
    if not accept and not bad:
        want = sum(s + 1 for s in steps)
        if not want <= distinct <= want + len(canary.get('steps', [])) + 3:
            raise ToolError('%s: %d states for %d expected' % (module, distinct, want))
    run.states += distinct
    run.transitions += generated
    run.traces += len(lines)
    run.log('%s: %d histories validated, %d distinct states, %d rejected' % (module, len(lines), distinct, len(bad)))
    return bad


# ---------------------------------------------------------------- findings and evidence

def signature(kind, scenario, k):
    x = {a: b for a, b in scenario.items() if a not in ('orq', 'n')}
    return hashlib.sha256(json.dumps([kind, x, k], sort_keys=True, ensure_ascii=False).encode()).hexdigest()[:16]


def known_findings():
    path = os.path.join(ROOT, 'known-findings.txt')
    out = {}
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            m = re.match(r'finding: property=(\w+) sig=(\w+) (.*)', line)
            if m:
                out[(m[1], m[2])] = m[3].strip()
    return out


def report(run, family, scenario, observation, mismatch, features=''):
    sig = signature(family, scenario, mismatch.get('k', 0))
    known = known_findings().get((run.prop, sig))
    if known:
        run.known.append(known)
        return
    run.violations.append({'property': run.prop, 'family': family, 'signature': sig, 'features': features, 'scenario': scenario,
                           'observed': observation, 'step': mismatch.get('k', 0), 'allowed': mismatch.get('want')})


def finish(run, level, assumptions):
    os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
    for f in os.listdir(os.path.join(ROOT, 'evidence', 'replay')):
        if f.startswith(run.prop + '-'):
            os.unlink(os.path.join(ROOT, 'evidence', 'replay', f))
    for what in sorted(set(run.known)):
        print('KNOWN-FINDING: property=%s %s' % (run.prop, what))
    paths = []
    for k, v in enumerate(run.violations[:10]):
        path = os.path.join(ROOT, 'evidence', 'replay', '%s-%d.json' % (run.prop, k + 1))
        with open(path, 'w', encoding='utf-8') as f:
            json.dump(v, f, ensure_ascii=False, indent=1)
        paths.append(path)
    coverage = {'states': run.states, 'transitions': run.transitions, 'traces_validated_against_impl': run.traces,
                'samples': run.samples[:6], 'models': run.models, 'families': run.families}
    e = {'property': run.prop, 'tier': run.tier, 'seed': run.seed, 'level': level, 'coverage': coverage,
         'assumptions': assumptions, 'wall_s': round(time.time() - run.start, 2), 'violations': len(run.violations)}
    with open(os.path.join(ROOT, 'evidence', run.prop + '.json'), 'w', encoding='utf-8') as f:
        json.dump(e, f, ensure_ascii=False, indent=1)
    for k, path in enumerate(paths):
        v = run.violations[k]
        print('scenario: %s' % json.dumps(v['scenario'], ensure_ascii=False)[:1500])
        print('step %s, allowed: %s' % (v['step'], json.dumps(v['allowed'], ensure_ascii=False)[:600]))
        print('observed: %s' % json.dumps(v['observed'], ensure_ascii=False)[:600])
        print('VIOLATION property=%s replay=%s' % (run.prop, path))
    run.log('%d states, %d histories, %d violations' % (run.states, run.traces, len(run.violations)))
    return 1 if run.violations else 0

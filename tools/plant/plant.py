#!/usr/bin/env python3
"""Plants bugs: plant.py SPEC.py [ID...] writes /verif/seeded/ID for every BUG of SPEC and confirms it in a scratch copy:
the patch applies, the tests still pass, the demonstration passes without it and fails with it.

SPEC.py: BUGS = [dict(id, prop, features, edits=[(file, old, new)], main, needs, breaks)]"""
import json, os, runpy, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.normpath(os.path.join(HERE, '..', '..', 'seeded'))
COPY = '/tmp/plant/repo'
DEMO = '/tmp/plant/demo_target'


def sh(cmd, cwd=COPY, env=None, **kw):
    e = dict(os.environ, CARGO_NET_OFFLINE='true', RUST_BACKTRACE='0', CARGO_TARGET_DIR=COPY + '/target', **(env or {}))
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, **kw)


def clean():
    if not os.path.isdir(COPY):
        os.makedirs('/tmp/plant', exist_ok=True)
        subprocess.run(['cp', '-a', '/repo', COPY], check=True)
    head = subprocess.run(['git', '-C', '/repo', 'rev-parse', 'HEAD'], capture_output=True, text=True).stdout.strip()
    sh('git fetch -q /repo HEAD; git checkout -q -f %s && git checkout -q -f . && find . -name "*.rs" -newermt now' % head)


def passing():
    out = sh('rm -rf target/debug/.fingerprint/i18n*; cargo test --workspace --no-fail-fast --offline -- --test-threads 8')
    text = out.stdout + out.stderr
    if 'could not compile' in text:
        return None, text
    passed = sum(int(l.split('.')[1].split()[0]) for l in text.splitlines() if l.startswith('test result:'))
    return passed, text


def demo(folder):
    out = sh('rm -rf %s/debug/.fingerprint/i18n*; bash %s/demo.sh' % (DEMO, folder), env={'DEMO_TARGET': DEMO})
    return out.returncode, (out.stdout + out.stderr)[-400:]


def plant(bug):
    folder = os.path.join(SEEDED, bug['id'])
    clean()
    for file, old, new in bug['edits']:
        path = os.path.join(COPY, file)
        text = open(path).read()
        if text.count(old) != bug.get('count', 1):
            return 'edit of %s: found %d times' % (file, text.count(old))
        open(path, 'w').write(text.replace(old, new))
    os.makedirs(folder, exist_ok=True)
    diff = sh('git diff').stdout
    open(folder + '/patch.diff', 'w').write(diff)
    shutil.copy(HERE + '/common.rs', folder)
    script = open(HERE + '/demo.sh').read().replace('@FEATURES@', '"%s"' % bug.get('features', ''))
    open(folder + '/demo.sh', 'w').write(script)
    open(folder + '/main.rs', 'w').write('mod common;\n#[allow(unused_imports)]\nuse common::*;\n\n' + bug['main'].strip() + '\n')
    json.dump({'property': bug['prop'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, open(folder + '/meta.json', 'w'), indent=1)
    n, text = passing()
    if n is None:
        return 'does not compile\n' + text[-1500:]
    rc, out = demo(folder)
    if rc == 0 or rc == 2:
        return 'demo with the bug: exit %d\n%s' % (rc, out)
    msg = out.strip().splitlines()[:2]
    clean()
    rc, out = demo(folder)
    if rc:
        return 'demo without the bug: exit %d\n%s' % (rc, out)
    return 'ok, %s tests pass (failed: %s), demo: %s' % (n, [l for l in text.splitlines() if l.endswith('FAILED')][:5], ' '.join(msg)[:160])


if __name__ == '__main__':
    for bug in runpy.run_path(sys.argv[1])['BUGS']:
        if len(sys.argv) == 2 or bug['id'] in sys.argv[2:]:
            print(bug['id'], bug['prop'], plant(bug), flush=True)

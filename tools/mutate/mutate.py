#!/usr/bin/env python3
"""Small changes to the code of /repo, one at a time, in scratch copies, to see which the checks miss.

  mutate.py list FILE...                    the changes for these files (paths below /repo)
  mutate.py run OUT.jsonl WORKERS [N] FILE...   tries (a sample of N of) them: compile, tests, then the quick checks
Nothing in /repo or /verif changes; the copies are in /tmp/mut."""
import concurrent.futures, json, os, queue, random, re, shutil, subprocess, sys, time
BASE = '/tmp/mut'
CHECKS = [('crates/lexer/src/error', ['C22', 'C26']), ('crates/lexer', ['C01', 'C02', 'C03']), ('crates/localiser/src/error', ['C26', 'C22', 'C03', 'C11']),
          ('crates/localiser/src/formatter', ['C04', 'C05', 'C06', 'C19', 'C07', 'C03', 'C20', 'C25']), ('crates/localiser/src/tree', ['C03', 'C04', 'C07', 'C25']),
          ('crates/localiser/src/localiser', ['C08', 'C09', 'C11', 'C10', 'C21', 'C22', 'C20']), ('crates/localiser/src/command', ['C07', 'C20']),
          ('crates/localiser/src/script', ['C21']), ('crates/utility/src/script', ['C21']), ('crates/utility/src/language', ['C16', 'C17', 'C20']),
          ('crates/utility/src/error', ['C22', 'C26']), ('crates/utility', ['C16', 'C11', 'C22', 'C20']), ('crates/provider/sqlite3/src/error', ['C26', 'C22', 'C15']),
          ('crates/provider/core', ['C22', 'C26', 'C12', 'C14']), ('crates/provider/sqlite3', ['C12', 'C13', 'C14', 'C15', 'C23', 'C24', 'C18', 'C25'])]
SWAPS = [(r'==', '!='), (r'!=', '=='), (r' < ', ' <= '), (r' > ', ' >= '), (r' <= ', ' < '), (r' >= ', ' > '), (r'&&', '||'), (r'\|\|', '&&'),
         (r'\+ 1\b', '+ 2'), (r'- 1\b', '- 0'), (r'\+= 1\b', '+= 2'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\.is_some\(\)', '.is_none()'),
         (r'\.is_none\(\)', '.is_some()'), (r'\.is_empty\(\)', '.is_empty() == false'), (r'\.first\(\)', '.last()'), (r'\.last\(\)', '.first()'),
         (r' \+ ', ' - '), (r' - ', ' + '), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b2\b', '3'), (r'\bif !', 'if '), (r'\bNone\b', 'Default::default()'),
         (r'\bSome\((\w+)\)$', 'None'), (r'\.any\(', '.all('), (r'\.pop\(\)', '.last()'), (r'\.min\(', '.max('), (r'starts_with', 'ends_with'),
         (r'\*true\b', '*false')]


def lines(path):
    """Lines that are code: no comments, no attributes, no tests, no uses."""
    out, test, use = [], False, False
    for n, l in enumerate(open(path, encoding='utf-8').read().split('\n')):
        s = l.strip()
        if s.startswith('#[cfg(test)]'):
            test = True
        if s.startswith(('use ', 'pub use ')):
            use = not s.endswith(';')
            continue
        if use:
            use = not s.endswith(';')
            continue
        if test or not s or re.match(r"(debug|trace|error|warn|info)!", s) or s.startswith(('//', '#', '/*', '*', 'pub fn', 'fn ', 'pub struct', 'pub enum', 'impl', 'pub trait', 'mod ', 'pub mod')):
            continue
        out.append((n, l))
    return out


def mutants(repo, file):
    out = []
    for n, l in lines(os.path.join(repo, file)):
        seen = {l}

        def add(kind, new):
            if new not in seen:
                seen.add(new)
                out.append({'file': file, 'line': n + 1, 'kind': kind, 'old': l, 'new': new})
        code = l.split(' // ')[0]
        quoted = [(m.start(), m.end()) for m in re.finditer(r'"(?:[^"\\]|\\.)*"', code)]
        for pat, rep in SWAPS:
            for m in re.finditer(pat, code):
                if any(a <= m.start() < b for a, b in quoted) or '->' in code[max(0, m.start() - 1):m.end() + 1] or '=>' in m.group():
                    continue
                add('%s -> %s' % (pat, rep), code[:m.start()] + re.sub(pat, rep, m.group()) + code[m.end():])
        m = re.match(r'^(\s*(?:\} else )?if )(?!let\b)(.*) \{$', code)
        if m:
            for c in ('true', 'false'):
                add('condition ' + c, '%s%s && (%s) {' % (m[1], 'false', m[2]) if c == 'false' else '%strue || (%s) {' % (m[1], m[2]))
        if re.match(r'^\s*(?!let |return |use |\}|\))[\w\*&][^{}]*;$', code) and code.count('(') == code.count(')'):
            add('delete', re.match(r'\s*', code).group() + '();')
        for a, b in quoted:
            if b - a > 2:
                add('text', code[:b - 1] + 'x' + code[b - 1:])
    return out


def prepare(w):
    d = '%s/w%d' % (BASE, w)
    if not os.path.isdir(d):
        os.makedirs(d)
        subprocess.run(['git', 'clone', '-q', '/repo', d + '/repo'], check=True)
        subprocess.run(['git', 'clone', '-q', '/verif', d + '/verif'], check=True)
    for x, source in (('repo', '/repo'), ('verif', os.environ.get('VERIF_SRC', '/verif'))):
        subprocess.run('git fetch -q %s HEAD && git checkout -q -f FETCH_HEAD && git clean -qfd' % source, shell=True, cwd='%s/%s' % (d, x), check=True)
    for f in ('harness/Cargo.toml', 'sched/Cargo.toml', 'lib/core.py'):
        p = '%s/verif/%s' % (d, f)
        t = open(p).read()
        open(p, 'w').write(t.replace('"/repo/', '"%s/repo/' % d).replace("'/repo'", "'%s/repo'" % d))
    shutil.copy('/repo/Cargo.lock', d + '/repo/Cargo.lock') if os.path.exists('/repo/Cargo.lock') else None
    return d


def sh(cmd, cwd, timeout=600, **env):
    e = dict(os.environ, CARGO_NET_OFFLINE='true', RUST_BACKTRACE='0', VERIF_SEED='1', **env)
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        return p.communicate(timeout=timeout)[0], p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 'timeout', -1


def attempt(d, m):
    path = os.path.join(d, 'repo', m['file'])
    text = open(path, encoding='utf-8').read()
    ls = text.split('\n')
    assert ls[m['line'] - 1] == m['old']
    ls[m['line'] - 1] = m['new']
    open(path, 'w', encoding='utf-8').write('\n'.join(ls))
    try:
        out, rc = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 4', d + '/repo', 120, CARGO_TARGET_DIR=d + '/target')
        if 'could not compile' in out or re.search(r'^error', out, re.M) and 'test result' not in out:
            return 'no compile', []
        if rc != 0:
            return 'tests', []
        log = []
        for prefix, checks in CHECKS:
            if m['file'].startswith(prefix):
                for c in checks:
                    t = time.time()
                    out, rc = sh('python3 check.py %s quick' % c, d + '/verif', 900)
                    log.append([c, rc, round(time.time() - t)])
                    if rc == 1:
                        return c, log
                    if rc != 0:
                        return 'ERROR ' + c + ': ' + out[-300:], log
                return 'SURVIVED', log
        return 'no checks', log
    finally:
        open(path, 'w', encoding='utf-8').write(text)


def main():
    if sys.argv[1] == 'list':
        for f in sys.argv[2:]:
            for m in mutants('/repo', f):
                print('%s:%d %s\n  %s\n  %s' % (m['file'], m['line'], m['kind'], m['old'].strip(), m['new'].strip()))
        return
    out, workers, rest = sys.argv[2], int(sys.argv[3]), sys.argv[4:]
    n = int(rest.pop(0)) if rest[0].isdigit() else None
    todo = [m for f in rest for m in mutants('/repo', f)]
    done = set()
    if os.path.exists(out):
        done = {(x['file'], x['line'], x['new']) for x in map(json.loads, open(out))}
    todo = [m for m in todo if (m['file'], m['line'], m['new']) not in done]
    random.Random(os.environ.get('MUT_SEED', '7')).shuffle(todo)
    todo = todo[:n]
    print(len(todo), 'changes', flush=True)
    free = queue.Queue()
    for w in range(workers):
        free.put(prepare(w))

    def one(m):
        d = free.get()
        try:
            t = time.time()
            verdict, log = attempt(d, m)
            m.update(verdict=verdict, log=log, seconds=round(time.time() - t))
            with open(out, 'a') as f:
                f.write(json.dumps(m) + '\n')
            print(m['file'], m['line'], m['verdict'][:60], '|', m['new'].strip()[:90], flush=True)
        finally:
            free.put(d)
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        list(ex.map(one, todo))


if __name__ == '__main__':
    main()

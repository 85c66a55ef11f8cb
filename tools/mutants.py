#!/usr/bin/env python3
"""Mutation survey: plant small mechanical changes in scratch copies of /repo, keep those the existing
tests do not notice, and run the checks on them. Development aid only: no registered check reads it.

  mutants.py gen OUT.json                       list the candidate mutations
  mutants.py survive IN.json OUT.json [procs]   keep those that build and pass the existing tests
  mutants.py check IN.json OUT.json [procs] [ids...]  run the quick checks on each
Scratch copies live under {MUT}.
"""
import json, os, re, shutil, subprocess, sys, threading, queue, random
REPO = '/repo'
MUT = os.environ.get('MUT', '/tmp/mut')
SRC = 'tree_iterators_rs/src'
SKIP = ('examples.rs', 'lib.rs')
SUBS = [
    (r' > ', ' >= '), (r' >= ', ' > '), (r' < ', ' <= '), (r' <= ', ' < '), (r' == ', ' != '), (r' != ', ' == '),
    (r' > ', ' != '), (r' == ', ' >= '), (r' == ', ' <= '),
    (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ 2\b', ' + 1'), (r' - 3\b', ' - 2'), (r'> 1\b', '> 0'), (r'> 1\b', '> 2'),
    (r'> 0\b', '> 1'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'if !', 'if '), (r'&& !', '&& '), (r' && ', ' || '),
    (r'if self', 'if !self'), (r'\bpush_back\b', 'push_front'), (r'\bpush_front\b', 'push_back'), (r'\bpop_front\b', 'pop_back'),
    (r'\.last_mut\(\)', '.first_mut()'), (r'\.last\(\)', '.first()'), (r'\bis_some\b', 'is_none'), (r'\bis_none\b', 'is_some'),
    (r'\[left, right\]', '[right, left]'), (r'\b0 =>', '1 =>'), (r'push\(0\)', 'push(1)'), (r'push\(1\)', 'push(0)'),
    (r'usize::MAX', '0'), (r'wrapping_add\(1\)', 'wrapping_add(2)'), (r'self\.path_counter = 0', 'self.path_counter = 1'),
    (r'\.into_iter\(\)', '.into_iter().rev()'), (r'\.iter\(\)', '.iter().rev()'), (r'break;', 'continue;'), (r'continue;', 'break;'),
    (r'WentLeft', 'ReturnedSelf'), (r'ReturnedSelf', 'WentRight'), (r'WentRight', 'WentLeft'),
    (r'saturating_sub\(\*pruned\)', 'saturating_sub(0)'), (r'\.fuse\(\)', ''), (r'Some\(item\)', 'None'), (r'\.flatten\(\)', '.flatten().filter(|_| false)'),
    (r'children: None', 'children: Default::default()'), (r'\.take\(\)', '.as_ref()'), (r'\.left', '.right'), (r'\.right', '.left'),
    (r'0 => (.*)left = ', r'0 => \1right = '), (r'1 => (.*)right = ', r'1 => \1left = '),
]
STMT = re.compile(r'^\s*(self|return|break|continue|\*?\w+)\b.*;\s*$')

def files():
    out = []
    for d, _, fs in os.walk(f'{REPO}/{SRC}'):
        for f in sorted(fs):
            if f.endswith('.rs') and f not in SKIP:
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(out)

def gen():
    muts = []
    for f in files():
        lines = open(f'{REPO}/{f}').read().split('\n')
        for i, l in enumerate(lines):
            s = l.strip()
            if not s or s.startswith('//') or s.startswith('use ') or s.startswith('#[') or 'pub(crate) use' in s:
                continue
            seen = set()
            code = l.split(' // ')[0]
            for pat, rep in SUBS:
                for m in re.finditer(pat, code):
                    new = code[:m.start()] + m.expand(rep) + code[m.end():]
                    if new != code and new not in seen and not ('->' in code and pat.strip() in ('>', '<')):
                        seen.add(new); muts.append(dict(file=f, line=i, old=l, new=new))
            if STMT.match(code) and not re.match(r'^\s*(let|type|use|pub|mod)\b', code):
                muts.append(dict(file=f, line=i, old=l, new='// removed'))
    return muts

def sh(cmd, cwd, timeout, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return 'timeout', ''

ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_BUILD_JOBS='2', CARGO_INCREMENTAL='1')
for k in ('VERIF_SEED',): ENV.setdefault(k, '1')

def worker_repo(i):
    w = f'{MUT}/w{i}'
    if not os.path.isdir(f'{w}/repo'):
        os.makedirs(w, exist_ok=True)
        subprocess.check_call(['cp', '-a', REPO, f'{w}/repo'])
    subprocess.check_call('git checkout -q -- .', cwd=f'{w}/repo', shell=True)
    return f'{w}/repo'

def apply(repo, m):
    if 'patch' in m:
        subprocess.check_call(['git', 'apply', m['patch']], cwd=repo); return
    p = f'{repo}/{m["file"]}'
    ls = open(p).read().split('\n')
    assert ls[m['line']] == m['old'], m
    ls[m['line']] = m['new']
    open(p, 'w').write('\n'.join(ls))

def undo(repo):
    subprocess.check_call('git checkout -q -- .', cwd=repo, shell=True)

def survive(repo, m):
    apply(repo, m)
    try:
        rc, out = sh('cargo build --workspace --offline', repo, 120, ENV)
        if rc != 0: return 'nobuild'
        rc, out = sh('cargo test --workspace --all-features --offline --no-run', repo, 120, ENV)
        if rc != 0: return 'nobuild'
        rc, out = sh('ulimit -v 6000000; cargo test --workspace --all-features --offline --lib -- --test-threads 4', repo, 15, ENV)
        if rc != 0: return 'killed'
        rc, out = sh('ulimit -v 6000000; cargo test --workspace --all-features --offline --doc -- --test-threads 4', repo, 60, ENV)
        return 'survives' if rc == 0 else 'killed'
    finally:
        undo(repo)

def check(repo, wdir, m, ids):
    v = f'{wdir}/verif'
    apply(repo, m)
    res = {}
    try:
        rc, out = sh('cargo build --offline --bin vharness', f'{v}/harness', 600, ENV)
        if rc != 0: return {'build': out[-2000:]}
        for c in ids:
            e = dict(ENV, VERIF_ROOT=f'{wdir}/out', VH_JOBS='2')
            os.makedirs(f'{wdir}/out', exist_ok=True)
            rc, out = sh(f'./target/debug/vharness check {c} quick', f'{v}/harness', 600, e)
            if rc != 0:
                line = next((x for x in out.split('\n') if 'VIOLATION' in x), '')
                res[c] = f'rc={rc} {line} {out[-300:] if not line else ""}'
                if os.environ.get('FIRST') and line: break
        return res
    finally:
        undo(repo)

def pool(n, items, fn, out):
    q = queue.Queue(); [q.put((k, x)) for k, x in enumerate(items)]
    res = []; lock = threading.Lock()
    def run(i):
        repo = worker_repo(i); w = f'{MUT}/w{i}'
        while True:
            try: k, x = q.get_nowait()
            except queue.Empty: return
            try: r = fn(i, repo, w, x)
            except Exception as e: r = f'error {e!r}'
            with lock:
                res.append(dict(x, result=r))
                json.dump(res, open(out, 'w'), indent=1)
    ts = [threading.Thread(target=run, args=(i,)) for i in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
    return res

def main():
    cmd = sys.argv[1]
    if cmd == 'gen':
        ms = gen(); json.dump(ms, open(sys.argv[2], 'w'), indent=1); print(len(ms))
    elif cmd == 'survive':
        ms = json.load(open(sys.argv[2])); n = int(sys.argv[4]) if len(sys.argv) > 4 else 8
        res = pool(n, ms, lambda i, repo, w, m: survive(repo, m), sys.argv[3])
        from collections import Counter; print(Counter(r['result'] for r in res))
    elif cmd == 'check':
        ms = json.load(open(sys.argv[2])); n = int(sys.argv[4]) if len(sys.argv) > 4 else 4
        ms = [{k: x for k, x in m.items() if k != 'result'} for m in ms if m.get('result', 'survives') == 'survives']
        ids = sys.argv[5:] or [f'C{i:02}' for i in range(1, 21) if i != 18]
        def fn(i, repo, w, m):
            v = f'{w}/verif'
            if not os.path.isdir(v):
                shutil.copytree('/verif/harness', f'{v}/harness', ignore=shutil.ignore_patterns('target'))
                c = f'{v}/harness/Cargo.toml'
                s = open(c).read().replace('/repo/tree_iterators_rs', f'{repo}/tree_iterators_rs'); open(c, 'w').write(s)
            if not sys.argv[5:]:   # the checks most likely to tell come first
                f = m.get('file', '')
                first = (['C08', 'C17'] if 'src/collection_iterators' in f else ['C13', 'C12', 'C10'] if 'tree_collection_iterators' in f
                    else ['C12', 'C11', 'C10', 'C09'] if 'src/tree_iterators' in f else ['C06', 'C05'] if 'leaves_iterators' in f
                    else ['C01', 'C04', 'C03', 'C06', 'C05', 'C02'])
                return check(repo, w, m, first + [c for c in ids if c not in first])
            return check(repo, w, m, ids)
        res = pool(n, ms, fn, sys.argv[3])
        missed = [r for r in res if not r['result']]
        print(len(res), 'checked', len(missed), 'missed')
        for r in missed: print(r.get('patch') or f"{r['file']}:{r['line']+1}\n   - {r['old'].strip()}\n   + {r['new'].strip()}")
main()

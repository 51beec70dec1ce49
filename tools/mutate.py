#!/usr/bin/env python3
"""mutate.py [-j N] [-t THREADS] [--all] [ID...]: measures the checks against tools/mutants.py in scratch copies under
/tmp/mut.*; prints, per change, whether the repository's own tests catch it and what the checks say."""
import os, re, shutil, subprocess, sys, threading, queue, argparse
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from mutants import M
import plant as _P
_P.plant = lambda id, prop, needs, breaks, edits, main, extra=(): M.append((id, [prop], edits))
_argv, sys.argv = sys.argv, sys.argv[:1]
import plants  # the planted bugs, by their own names
sys.argv = _argv
ap = argparse.ArgumentParser(); ap.add_argument('-j', type=int, default=3); ap.add_argument('-t', type=int, default=3)
ap.add_argument('--all', action='store_true'); ap.add_argument('--seed', default='1'); ap.add_argument('--out', default='/tmp/mutate.log'); ap.add_argument('ids', nargs='*')
a = ap.parse_args()
todo = [x for x in M if not a.ids or x[0] in a.ids or any(p in a.ids for p in x[1])]
env = dict(os.environ, PATH='/root/.cargo/bin:' + os.environ['PATH'], RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='',
           CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never')
q = queue.Queue(); [q.put(x) for x in todo]
lock = threading.Lock(); out = open(a.out, 'a')
def say(s):
    with lock: print(s, flush=True); out.write(s + '\n'); out.flush()
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, env={**env, **k.pop('e', {})}, **k)
def worker(n):
    w = f'/tmp/mut.{n}'; repo, har, tgt = w + '/repo', w + '/harness', w + '/target'
    os.makedirs(w, exist_ok=True)
    sh(f'rsync -a --delete --exclude target/verif /repo/ {repo}/ || (rm -rf {repo}; cp -a /repo {repo}; rm -rf {repo}/target/verif)')
    sh(f'rm -rf {har}; cp -a {ROOT}/harness {har}; sed -i "s#/repo/#{repo}/#" {har}/Cargo.toml')
    sh(f'git -C {repo} checkout -q -- .')
    if not os.path.isdir(tgt) and os.path.isdir('/tmp/wt'): sh(f'cp -a /tmp/wt {tgt}')
    while True:
        try: id, props, edits = q.get_nowait()
        except queue.Empty: return
        sh(f'git -C {repo} checkout -q -- .')
        try:
            for path, old, new in edits:
                s = open(f'{repo}/{path}').read()
                if s.count(old) != 1: raise Exception(f'{path}: {s.count(old)} matches')
                open(f'{repo}/{path}', 'w').write(s.replace(old, new))
        except Exception as ex: say(f'{id}: BAD EDIT {ex}'); continue
        r = sh('cargo test --workspace --exclude ibcx-pool --exclude ibcx-tests --lib --bins --tests --no-fail-fast --locked --offline', cwd=repo)
        if 'could not compile' in r.stderr: say(f'{id}: DOES NOT COMPILE ' + ' '.join(re.findall(r'error.*', r.stderr)[:3])); continue
        tests = 'tests:catch' if r.returncode else 'tests:pass'
        if r.returncode and not a.all: say(f'{id}: {tests}'); continue
        r = sh('cargo build --offline --locked', cwd=har, e={'CARGO_TARGET_DIR': tgt})
        if r.returncode: say(f'{id}: HARNESS DOES NOT BUILD'); continue
        res = []
        for p in props:
            r = sh(f'timeout 600 {tgt}/debug/ibcx-verif check {p} --tier quick --seed {a.seed} --threads {a.t} --evidence {w}/e --replays {w}/rp --known {ROOT}/known-findings.txt --report {w}/r >/dev/null', e={'IBCX_REPO': repo})
            rep = open(f'{w}/r').read() if os.path.exists(f'{w}/r') else ''
            k = re.findall(r'\(([^()]*)\)', rep)
            res.append(f'{p}:' + {0: 'MISS', 1: 'caught'}.get(r.returncode, f'rc{r.returncode}'))
        c = any('caught' in x for x in res)
        say(f'{id}: {tests} {" ".join(res)}{"" if c else "   <<<<"}')
ts = [threading.Thread(target=worker, args=(i,)) for i in range(a.j)]
[t.start() for t in ts]; [t.join() for t in ts]

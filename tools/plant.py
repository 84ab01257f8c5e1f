"""Plant, verify and measure seeded bugs.

  plant.py make DEFS.py [id...]   build patch.diff/demo/meta for each bug, confirm them, keep the good ones
  plant.py run [id...]            apply each kept bug, run its property's quick check, report caught/missed
DEFS.py holds BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)].
"""
import json, os, re, shutil, subprocess, sys, time, importlib.util

SRC, SEED, WORK = '/repo', '/verif/seeded', os.environ.get('PLANT_DIR', '/tmp/plant')
REPO = f'{WORK}/repo'  # everything happens in this scratch copy of /repo's HEAD
HELPER = r'''// Planted-bug demonstration: drives the built SDK with a fake fetch (no network).
const { Resend } = require(process.cwd() + '/dist/index.cjs');
const assert = require('node:assert');
console.error = () => {};
const calls = [];
let respond = () => json({ id: 'x' });
function json(v, status = 200, headers = {}) {
  return new Response(typeof v === 'string' ? v : JSON.stringify(v), { status, headers: { 'content-type': 'application/json', ...headers } });
}
globalThis.fetch = async (url, opts = {}) => {
  const c = { url: String(url), method: opts.method || 'GET', headers: new Headers(opts.headers), raw: opts.body };
  try { c.body = typeof opts.body === 'string' ? JSON.parse(opts.body) : opts.body; } catch { c.body = opts.body; }
  calls.push(c);
  return respond(c, calls.length);
};
const client = (key = 're_key', o) => new Resend(key, o);
const last = () => calls[calls.length - 1];
(async () => {
%s
})().then(() => process.exit(0), (e) => { console.log('demo failed:', e && e.message); process.exit(1); });
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, cwd=REPO, capture_output=True, text=True, **k)

def clean():
    os.makedirs(WORK, exist_ok=True)
    if not os.path.exists(REPO):
        subprocess.run(['cp', '-a', SRC, REPO], check=True)
        for n in ('build.sh', 'test.sh', 'tsconfig.build.json'):
            t = open(f'/opt/vp/{n}').read().replace('/repo', REPO).replace('/opt/vp/tsconfig', f'{WORK}/tsconfig')
            open(f'{WORK}/{n}', 'w').write(t)
    sh(f'git fetch -q {SRC} HEAD && git checkout -q -f FETCH_HEAD && git clean -qfd src')
    assert not sh('git status --porcelain').stdout.strip(), 'copy not clean'

def build():
    r = sh(f'bash {WORK}/build.sh', timeout=600)
    return r.returncode == 0, (r.stdout + r.stderr)[-800:]

def tests():
    base = json.load(open('/opt/vp/BASELINE.json'))
    r = sh(f'bash {WORK}/test.sh {WORK}/out.json', timeout=900)
    out = json.load(open(f'{WORK}/out.json'))
    def passed(d):
        for k in ('passed', 'pass', 'stable'):
            if k in d: return {re.sub(r'^.*?(?=src/)', '', str(x)) for x in d[k]}
        raise KeyError(list(d))
    missing = passed(base) - passed(out)
    return not missing, sorted(missing)[:4]

def demo(d):
    r = sh(f'bash {d}/demo.sh', timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-300:]

def make(b):
    d = f'{SEED}/{b["id"]}'
    shutil.rmtree(d, ignore_errors=True)
    clean()
    for f, old, new in b['edits']:
        p = f'{REPO}/src/{f}'
        s = open(p).read()
        if s.count(old) < 1: return f'edit not found in {f}: {old[:60]!r}'
        if s.count(old) > 1 and not b.get('multi'): return f'edit ambiguous ({s.count(old)}) in {f}: {old[:60]!r}'
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff').stdout
    os.makedirs(d)
    open(f'{d}/patch.diff', 'w').write(diff)
    open(f'{d}/demo.cjs', 'w').write(HELPER % b['demo'].rstrip('\n'))
    open(f'{d}/demo.sh', 'w').write('#!/bin/bash\nexec node "$(dirname "$0")/demo.cjs"\n')
    json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(f'{d}/meta.json', 'w'), indent=1)
    why = None
    ok, msg = build()
    if not ok: why = 'build: ' + msg
    if not why:
        r = sh('npx tsc --noEmit -p .')
        if r.returncode: why = 'tsc: ' + r.stdout[:500]
    if not why:
        ok, msg = tests()
        if not ok: why = f'tests fail: {msg}'
    if not why:
        rc, msg = demo(d)
        if rc == 0: why = 'demo passes with the bug'
        else: print('   demo with bug:', msg.strip()[:150].replace('\n', ' '))
    clean(); 
    ok, msg = build(); assert ok, msg
    if not why:
        rc, msg = demo(d)
        if rc: why = 'demo fails without the bug: ' + msg
    if why: shutil.rmtree(d, ignore_errors=True)
    return why

def run(bid, prop=None):
    """the check against the bug, in a scratch copy of /repo (the checks read it through SYM_REPO)"""
    d, copy = f'{SEED}/{bid}', REPO
    prop = prop or json.load(open(f'{d}/meta.json'))['property']
    clean()
    r = sh(f'git apply {d}/patch.diff'); assert r.returncode == 0, r.stderr
    t = time.time()
    r = subprocess.run(['node', 'engine/check.mjs', prop, '--tier', 'quick'], cwd='/verif', capture_output=True, text=True, env={**os.environ, 'SYM_REPO': copy})
    clean()
    open(f'{WORK}/{bid}.{prop}.log', 'w').write(r.stdout + r.stderr)
    v = [l for l in r.stdout.split('\n') if l.startswith(f'VIOLATION property={prop}')]
    st = 'CAUGHT' if r.returncode == 1 and v else 'MISSED' if r.returncode == 0 else f'BROKEN rc={r.returncode}'
    return st, round(time.time() - t)

if __name__ == '__main__':
    if sys.argv[1] == 'make':
        spec = importlib.util.spec_from_file_location('defs', sys.argv[2]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        for b in m.BUGS:
            if sys.argv[3:] and b['id'] not in sys.argv[3:]: continue
            w = make(b)
            print(b['id'], 'KEPT' if not w else 'DROPPED ' + w, flush=True)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEED))
        for i in ids:
            st, s = run(i)
            print(f'{st:8} {i} {s}s', flush=True)
            f = '/verif/tools/results.json'
            res = json.load(open(f)) if os.path.exists(f) else {}
            res.setdefault(i, {})[json.load(open(f'{SEED}/{i}/meta.json'))['property']] = st
            json.dump(res, open(f, 'w'), indent=0, sort_keys=True)

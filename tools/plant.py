#!/usr/bin/env python3
"""Plants bugs: writes /verif/seeded/<id>/ from a specification and evaluates it in scratch copies.

usage: plant.py SPEC.py... [--ids a,b] [--slots N] [--no-check] [--recheck]

A SPEC file calls plant(id, prop, edits, demo, needs, breaks, libs=...).  Each edit is (file, old, new[, count]).
Every evaluation runs in a private mount namespace in which a scratch copy of /repo (and of /verif) is mounted at its
usual place; nothing of it reaches the real ones.
"""
import argparse, concurrent.futures, json, os, queue, shutil, subprocess, sys, textwrap

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PLANTS = []
SCRATCH = '/tmp/plant'

SH = r'''#!/bin/bash
# Builds the demonstration against the libraries in the working directory and runs it.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
L=$R/_build/lib
I=""
for d in base-framework core-library neuron-traits-library meta-library synapse-traits-library \
    backends/cpu/cpu-single-threaded-backend backends/cpu/cpu-multi-threaded-backend backends/cpu/cpu-devices \
    backends/cpu/thread_pool backends/cpu/cpu-library; do
    I="$I -I$R/knp/$d/include"
done
export KNP_REPO=$R KNP_SCRATCH=$T
g++ -std=c++17 @OPT@ -w -DFMT_SHARED -DSPDLOG_ACTIVE_LEVEL=6 -DSPDLOG_FMT_EXTERNAL $I -I/usr/include/opencv4 \
    "$D/demo.cpp" -o "$T/demo" @EXTRA@ "$L/libknp-base-framework-core.a" "$L/libknp-cpu-single-threaded-backend.a" \
    "$L/libknp-cpu-multi-threaded-backend.a" "$L/libknp-thread-pool-library.a" "$L/libknp-cpu-devices.a" \
    "$L/libknp-core.a" -lzmq -lflatbuffers -lfmt -lboost_filesystem @LIBS@ -lpthread || exit 3
cd "$T" && timeout 200 "$T/demo"
'''


def plant(id, prop, edits, demo, needs, breaks, libs='', opt='-O1', extra=''):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, libs=libs, opt=opt,
                       extra=extra))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def inside(slot, cmd, timeout=900):
    s = f'{SCRATCH}/{slot}'
    script = f'mount --bind {s}/repo /repo && mount --bind {s}/verif /verif && cd /repo && {cmd}'
    try:
        p = subprocess.run(['unshare', '-m', 'bash', '-c', script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode() if isinstance(e.stdout, bytes) else (e.stdout or '')


def write(p):
    d = f'{VERIF}/seeded/{p["id"]}'
    os.makedirs(d, exist_ok=True)
    libs = '-lopencv_highgui -lopencv_imgproc -lopencv_core' if p['libs'] == 'vis' else p['libs']
    with open(f'{d}/demo.sh', 'w') as f:
        f.write(SH.replace('@OPT@', p['opt']).replace('@LIBS@', libs).replace('@EXTRA@', p['extra']))
    os.chmod(f'{d}/demo.sh', 0o755)
    with open(f'{d}/demo.cpp', 'w') as f:
        f.write(p['demo'].lstrip('\n'))
    if '$D/shim' in p['extra']: sh(f'rsync -a --delete {VERIF}/lib/shim {d}/')
    with open(f'{d}/meta.json', 'w') as f:
        json.dump({'property': p['prop'], 'needs': p['needs'], 'what_it_breaks': p['breaks']}, f, indent=2)
        f.write('\n')
    return d


def evaluate(p, slot, args):
    s = f'{SCRATCH}/{slot}'
    d = write(p)
    res = {'id': p['id'], 'prop': p['prop']}
    sh(f'git -C {s}/repo checkout -q -- . && git -C {s}/repo clean -fdq')
    sh(f'rsync -a --delete --exclude .build --exclude .git --exclude evidence --exclude replays {VERIF}/ {s}/verif/')
    for e in p['edits']:
        f, old, new = e[:3]
        path = f'{s}/repo/{f}'
        t = open(path, newline='').read()
        n = t.count(old)
        want = e[3] if len(e) > 3 else 1
        if n != want:
            res['error'] = f'{f}: old text found {n} times'
            return res
        open(path, 'w', newline='').write(t.replace(old, new))
    diff = sh(f'git -C {s}/repo diff').stdout
    open(f'{d}/patch.diff', 'w').write(diff)
    sh(f'git -C {s}/repo checkout -q -- .')
    sh(f'mkdir -p {s}/verif/seeded && cp -a {d} {s}/verif/seeded/')
    log = open(f'{SCRATCH}/{p["id"]}.log', 'w')

    def step(name, cmd, timeout=900):
        rc, out = inside(slot, cmd, timeout)
        log.write(f'=== {name} rc={rc}\n{out}\n')
        log.flush()
        return rc, out

    # The unchanged tree is the real one, which is built once by main().
    done = sh(f'cd /repo && timeout 300 bash {d}/demo.sh')
    rc = done.returncode
    log.write(f'=== demo-clean rc={rc}\n{done.stdout}\n')
    if rc != 0:
        res['error'] = f'demo fails on clean tree rc={rc}'
        return res
    rc, out = step('apply', f'git apply /verif/seeded/{p["id"]}/patch.diff')
    if rc != 0:
        res['error'] = 'does not apply'
        return res
    rc, out = step('build', 'bash /opt/vp/build.sh')
    if rc != 0:
        res['error'] = 'does not build'
        return res
    rc, out = step('demo', f'bash /verif/seeded/{p["id"]}/demo.sh', 300)
    res['demo_rc'] = rc
    if rc in (0, 3):
        res['error'] = f'demo rc={rc} with the patch'
        return res
    if not args.recheck:
        step('test', f'bash /opt/vp/test.sh {s}/out.json')
        base = json.load(open('/opt/vp/BASELINE.json'))
        stable = set(json.dumps(x) for x in base.get('stable', base.get('passed', base)))
        out = json.load(open(f'{s}/out.json'))
        passed = set(json.dumps(x) for x in out['passed'])
        lost = stable - passed
        if lost:
            res['error'] = f'tests fail: {sorted(lost)[:5]}'
            return res
    if not args.no_check:
        rc, out = step('check', f'cd /verif && VERIF_SEED={args.seed} VERIF_TIER=quick ./check {p["prop"]}')
        v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
        res['check_rc'] = rc
        res['caught'] = rc == 1 and any(f'property={p["prop"]}' in l for l in v)
        res['line'] = (v or out.splitlines()[-1:] or [''])[0]
    sh(f'git -C {s}/repo checkout -q -- .')
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('specs', nargs='+')
    ap.add_argument('--ids')
    ap.add_argument('--slots', type=int, default=3)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--no-check', action='store_true')
    ap.add_argument('--demo-only', action='store_true', help='run the demonstrations on the unchanged tree only')
    ap.add_argument('--recheck', action='store_true')
    args = ap.parse_args()
    for s in args.specs:
        exec(compile(open(s).read(), s, 'exec'), {'plant': plant})
    todo = [p for p in PLANTS if not args.ids or p['id'] in args.ids.split(',')]
    os.makedirs(SCRATCH, exist_ok=True)
    if args.demo_only:
        def demo(p):
            for e in p['edits']:
                n = open(f'/repo/{e[0]}').read().count(e[1])
                if n != (e[3] if len(e) > 3 else 1): print(f'{p["id"]}: old text found {n} times in {e[0]}')
            r = sh(f'cd /repo && timeout 300 bash {write(p)}/demo.sh')
            if r.returncode: print(f'{p["id"]}: rc={r.returncode}\n{r.stdout[:500]}')
        with concurrent.futures.ThreadPoolExecutor(args.slots) as ex:
            list(ex.map(demo, todo))
        return
    if sh('git -C /repo status --porcelain').stdout: raise SystemExit('/repo is not clean')
    if sh('bash /opt/vp/build.sh').returncode: raise SystemExit('/repo does not build')
    slots = queue.Queue()
    for i in range(min(args.slots, len(todo))):
        s = f's{i}'
        if not os.path.isdir(f'{SCRATCH}/{s}/verif'):
            os.makedirs(f'{SCRATCH}/{s}', exist_ok=True)
            sh(f'cp -a /repo {SCRATCH}/{s}/repo && cp -a {VERIF} {SCRATCH}/{s}/verif')
        elif sh(f'git -C {SCRATCH}/{s}/repo rev-parse HEAD').stdout != sh('git -C /repo rev-parse HEAD').stdout:
            sh(f'git -C {SCRATCH}/{s}/repo fetch -q /repo && git -C {SCRATCH}/{s}/repo reset -q --hard FETCH_HEAD')
        slots.put(s)

    def one(p):
        slot = slots.get()
        try:
            r = evaluate(p, slot, args)
        except Exception as e:
            r = {'id': p['id'], 'error': repr(e)}
        finally:
            slots.put(slot)
        print(json.dumps(r), flush=True)
        with open(f'{SCRATCH}/results.jsonl', 'a') as f:
            f.write(json.dumps(r) + '\n')
        return r

    with concurrent.futures.ThreadPoolExecutor(max(1, slots.qsize())) as ex:
        rs = list(ex.map(one, todo))
    bad = [r for r in rs if r.get('error')]
    missed = [r['id'] for r in rs if not r.get('error') and not r.get('caught')]
    print(f'{len(rs)} plants, {len(bad)} unusable {[r["id"] for r in bad]}, missed {missed}')


main()

#!/usr/bin/env python3
"""Planting bugs: python3 tools/mkseed.py SPEC.py  -- each SPEC.py calls seed(...) below.
Confirms in a scratch copy that the change compiles, keeps the stable tests, and that the demo
passes without and fails with it; then says which of our checks report it."""
import os, subprocess, sys, tempfile, shutil, json, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -O1 -w -fpermissive -Wno-changes-meaning -include cstring -include cstdlib -include cmath -include cxxabi.h -include algorithm -include map -include vector \\
  %(flags)s-I"$here" -I. "$here/demo.cpp" %(src)s -o "$t/demo" -lpthread || exit 3
cd "$t" && timeout 60 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def apply(root, path, pairs):
    p = root + '/flut/' + path; b = open(p, 'rb').read()
    for old, new in pairs:
        o, n = old.encode(), new.encode(); oc, nc = o.replace(b'\n', b'\r\n'), n.replace(b'\n', b'\r\n')
        if b'\r\n' in b and (b'\n' in o or b'\n' in n) and oc in b: o, n = oc, nc
        if b.count(o) != 1: raise SystemExit('%s: %r occurs %d times' % (path, old, b.count(o)))
        b = b.replace(o, n)
    open(p, 'wb').write(b)
def build_test(root):
    h = root + '.h'; shutil.copytree('/opt/vp/harness', h, dirs_exist_ok=True)
    for f in os.listdir(h):
        t = open(h + '/' + f).read(); open(h + '/' + f, 'w').write(t.replace('/repo', root))
    r = sh('cmake -S %s -B %s/_b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo && ninja -C %s/_b' % (h, root, root))
    if r.returncode: return 'BUILD FAILED ' + (r.stdout + r.stderr)[-1500:]
    os.makedirs(root + '/_b/run', exist_ok=True)
    sh('cd %s/_b/run && timeout 300 ../flut_test > log.txt 2>&1; python3 %s/parse.py log.txt results.txt; python3 /opt/vp/results.py o.json lines:%s/_b/run/results.txt' % (root, h, root))
    o = json.load(open(root + '/_b/run/o.json')); st = json.load(open('/opt/vp/BASELINE.json'))['stable']
    miss = [s for s in st if s not in o['passed']]
    return 'TESTS LOST %s' % miss if miss else ''
def seed(id, prop, edits, src, demo, needs, breaks, flags='', extra=(), check=True):
    d = os.path.join(HERE, 'seeded', id)
    only = os.environ.get('ONLY')
    if only and id not in only.split(','): return
    root = tempfile.mkdtemp(prefix='seed.') ; os.rmdir(root)
    try:
        sh('git clone -q /repo %s' % root)
        os.makedirs(d, exist_ok=True)
        stub = ''
        open(d + '/demo.cpp', 'w').write(demo.strip() + '\n')
        for e in extra: shutil.copy(os.path.join(HERE, 'stubs_native', e), d)
        open(d + '/demo.sh', 'w').write(DEMO % dict(flags=flags + (' ' if flags else ''), src=' '.join('flut/' + s for s in src.split()))); os.chmod(d + '/demo.sh', 0o755)
        r0 = sh('cd %s && bash %s/demo.sh' % (root, d))
        for path, *pairs in edits: apply(root, path, pairs)
        diff = subprocess.run(['git', '-C', root, 'diff', '--binary', '--', 'flut'], capture_output=True).stdout
        open(d + '/patch.diff', 'wb').write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
        bt = build_test(root)
        base = sh('git -C %s log --format=%%H | tail -1' % root).stdout.strip()
        for f, *_ in edits:
            old = sh('git -C %s blame -s HEAD -- flut/%s' % (root, f)).stdout.split('\n'); cur = None
            dd = sh('git -C %s diff -U0 -- flut/%s' % (root, f)).stdout
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', dd, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                for l in range(a - 1, a - 1 + n):
                    if not (old[l].startswith('^') or old[l].startswith(base[:7])): bt += ' NOT-ORIGINAL ' + old[l][:60]
        r1 = sh('cd %s && bash %s/demo.sh' % (root, d))
        ok = not bt and r0.returncode == 0 and r1.returncode not in (0, 3)
        chk = ''
        if ok and check:
            r = sh('cd %s && VP_REPO=%s VP_EVID=%s.ev python3 run.py %s' % (HERE, root, root, prop)); chk = 'CAUGHT' if r.returncode == 1 and 'VIOLATION' in r.stdout else 'MISSED(rc=%d)' % r.returncode
            if 'CAUGHT' not in chk: chk += r.stdout[-300:] + r.stderr[-300:]
        print('%-28s %s demo %d->%d %s %s' % (id, 'OK' if ok else 'BAD', r0.returncode, r1.returncode, bt, chk))
        if not ok: print((r0.stdout + r0.stderr)[-600:] if r0.returncode else '', (r1.stdout + r1.stderr)[-600:])
        if not ok: shutil.rmtree(d)
        sys.stdout.flush()
    finally:
        for x in (root, root + '.h', root + '.ev'): shutil.rmtree(x, ignore_errors=True)
if __name__ == '__main__':
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), {'seed': seed})

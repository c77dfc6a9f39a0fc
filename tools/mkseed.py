#!/usr/bin/env python3
"""makes and confirms planted bugs: mkseed.py SPEC.py [ids...]; the result goes to /verif/seeded/<id>/ (not read by any check)"""
import sys, os, subprocess, shutil, json, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the behaviour holds; anything else: it does not
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
rustc --edition 2015 --cap-lints allow --crate-type rlib --crate-name mazth lib/mod.rs -o "$t/libmazth.rlib" || exit 3
rustc --edition 2021 --cap-lints allow --extern mazth="$t/libmazth.rlib" "$here/demo.rs" -o "$t/demo" || exit 4
timeout 120 "$t/demo"
'''
SC = '/tmp/seed-scratch'


def sh(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def main():
    specs = runpy.run_path(sys.argv[1])['SEEDS']
    ids = sys.argv[2:]
    if not os.path.exists(SC):
        sh('cp -a /repo ' + SC, '/')
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD", SC)
    base = subprocess.run("git diff -U0 178fb86 HEAD | grep '^+' | cut -c2-", shell=True, cwd='/repo', stdout=subprocess.PIPE, text=True).stdout
    own = {l.strip() for l in base.splitlines() if len(l.strip()) > 6}
    for s in specs:
        if ids and s['id'] not in ids:
            continue
        sh('git checkout -q -f .', SC)
        bad = None
        for e in s['edits']:
            f = SC + '/' + e[0]
            t = open(f).read()
            n = t.count(e[1])
            k = e[3] if len(e) > 3 else None
            if n == 0 or (n > 1 and k is None):
                bad = 'edit matches %d times: %s' % (n, e[1][:60])
                break
            if k == 'all':
                t = t.replace(e[1], e[2])
            else:
                p = -1
                for _ in range((k or 0) + 1):
                    p = t.index(e[1], p + 1)
                t = t[:p] + e[2] + t[p + len(e[1]):]
            open(f, 'w').write(t)
        if bad:
            print(s['id'], 'BAD', bad)
            continue
        d = V + '/seeded/' + s['id']
        os.makedirs(d, exist_ok=True)
        _, diff = sh('git diff', SC)
        touched = [l[1:].strip() for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        if touched and all(l in own for l in touched):
            print(s['id'], 'WARNING: only changes lines of fix commits')
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.rs', 'w').write(s['demo'].lstrip('\n'))
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        rc, o = sh('. /opt/vp/env.sh; cd ' + SC + '; export CARGO_TARGET_DIR=/tmp/seed-target; rm -rf /tmp/seed-target/debug/.fingerprint/mazth-*; timeout 300 cargo test --offline 2>&1', SC)
        okt = '23 passed; 0 failed' in o
        rc1, o1 = sh('bash %s/demo.sh' % d, SC)
        sh('git checkout -q -f .', SC)
        rc0, o0 = sh('bash %s/demo.sh' % d, SC)
        good = okt and rc1 not in (0, 3, 4) and rc0 == 0
        print(s['id'], 'ok' if good else 'BAD', 'tests' if okt else 'TESTS-FAIL', 'demo %d/%d' % (rc0, rc1), '' if good else (o[-1500:] if not okt else '') + o0[-600:] + o1[-600:])
        if not good:
            shutil.rmtree(d)


main()

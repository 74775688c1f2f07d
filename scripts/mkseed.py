#!/usr/bin/env python3
"""mkseed.py DEFS.py [ID...]: writes /verif/seeded/<id>/ from definitions and
confirms each in a scratch copy: it builds, the stable tests pass, and the
demonstration passes without and fails with the change.

A definition: seed(id, property, [(file, old, new), ...], pkg, demo_go, needs, breaks)"""
import sys, os, subprocess, json, shutil, runpy, tempfile

SEEDS = []
def seed(id, prop, edits, pkg, demo, needs, breaks):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, pkg=pkg, demo=demo, needs=needs, breaks=breaks))

DEMO = r'''#!/bin/bash
# Exit 0 if the property holds on this demonstration's input, non-zero if not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
sc=$(mktemp -d) || exit 1
trap 'rm -rf "$sc"' EXIT
m=$sc/src/github.com/Harvey-OS/ninep
mkdir -p "$m"
for d in protocol filesystem pkg cmd; do [ -d "$repo/$d" ] && cp -a "$repo/$d" "$m/"; done
find "$m" -name '*_test.go' -delete
cp "$here/demo.go.txt" "$m/@PKG@/zz_demo_test.go"
export GOENV=off GOPATH=$sc GO111MODULE=off GOFLAGS= GOWORK=off GOPROXY=off GOTOOLCHAIN=local GOTELEMETRY=off
export GOCACHE=${GOCACHE:-/root/.cache/go-build} HOME=${HOME:-/root}
@GEN@cd "$m/@PKG@" && go test -vet=off -c -o "$sc/demo.test" . || exit 1
mkdir "$sc/work" && chmod 755 "$sc" && chown 65534:65534 "$sc/work" && cd "$sc/work" || exit 1
export TMPDIR=$sc/work HOME=$sc/work
timeout 120 setpriv --reuid=65534 --regid=65534 --clear-groups "$sc/demo.test" -test.v -test.run TestDemo -test.timeout 60s 2>&1 | head -c 4000
exit ${PIPESTATUS[0]}
'''

def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def main():
    runpy.run_path(sys.argv[1], init_globals={'seed': seed})
    ids = sys.argv[2:]
    for s in SEEDS:
        if ids and s['id'] not in ids: continue
        d = f"/verif/seeded/{s['id']}"
        work = tempfile.mkdtemp(prefix='seed', dir='/tmp')
        try:
            r = work + '/repo'
            subprocess.check_call(['cp', '-a', '/repo', r])
            base = sh(['git', 'rev-list', '--max-parents=0', 'HEAD'], cwd=r).stdout.strip()
            bad = None
            for f, old, new in s['edits']:
                p = f'{r}/{f}'; t = open(p).read()
                n = 1
                if t.count(old) != 1:
                    bad = f'{f}: {t.count(old)} matches of {old!r}'; break
                open(p, 'w').write(t.replace(old, new))
            if bad: print(s['id'], 'BAD', bad); continue
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(sh(['git', 'diff'], cwd=r).stdout)
            open(d + '/demo.sh', 'w').write(DEMO.replace('@PKG@', s['pkg']).replace('@GEN@', '( cd "$m/protocol" && mv zz_demo_test.go ../x && go run gen.go; rc=$?; mv ../x zz_demo_test.go; exit $rc ) || exit 1\n' if s['prop'] == 'C23' else ''))
            open(d + '/demo.go.txt', 'w').write(s['demo'])
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            # the changed lines must be original ones
            orig = sh(['git', 'blame', '-s', 'HEAD', '--', s['edits'][0][0]], cwd='/repo')
            # build, test
            gp = work + '/gp'
            os.makedirs(gp + '/src/github.com/Harvey-OS')
            os.symlink(r, gp + '/src/github.com/Harvey-OS/ninep')
            env = dict(os.environ, GOENV='off', GOPATH=gp, GO111MODULE='off', GOFLAGS='', GOWORK='off', GOPROXY='off', GOTOOLCHAIN='local',
                       GOCACHE='/root/.cache/go-build', PATH='/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin', PWD=gp + '/src/github.com/Harvey-OS/ninep', TMPDIR=work)
            b = sh(['bash', '-c', f'cd {gp}/src/github.com/Harvey-OS/ninep && go build -o /dev/null ./... && go build -o /dev/null ./protocol/gen.go && go build -o /dev/null -tags pprof ./...'], env=env)
            if b.returncode: print(s['id'], 'BUILD FAILS', b.stdout[-600:]); continue
            t = sh(['bash', '-c', f'cd {gp}/src/github.com/Harvey-OS/ninep && go test -vet=off -count=1 -timeout 5m -exec "setpriv --bounding-set=-dac_override,-dac_read_search" ./... 2>&1 | grep -a -E "^(ok|FAIL|---|panic)" | head -20; exit ${{PIPESTATUS[0]}}'], env=env)
            if t.returncode: print(s['id'], 'TESTS FAIL', t.stdout[-800:]); continue
            a = sh(['bash', d + '/demo.sh'], cwd='/repo')
            c = sh(['bash', d + '/demo.sh'], cwd=r)
            ok = a.returncode == 0 and c.returncode != 0
            print(s['id'], 'OK' if ok else f'DEMO BAD: unchanged {a.returncode}, changed {c.returncode}\n{a.stdout[-1500:]}\n----\n{c.stdout[-800:]}')
            if os.environ.get('V'): print(c.stdout[-800:])
        finally:
            shutil.rmtree(work)
main()

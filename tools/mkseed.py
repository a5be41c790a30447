#!/usr/bin/env python3
"""Builds a planted bug under /verif/seeded/<id>/ from a description file and tries it out on a copy of /repo.

The description is a python file setting ID, PROP, PKG, NEEDS, BREAKS, EDITS [(file, old, new)], TEST (go test source).
"""
import json, os, runpy, shutil, subprocess, sys, re

def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr

DEMO = '''#!/bin/bash
# Runs the test lying beside this file inside package %(pkg)s of the source tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 1
trap 'rm -rf "$work"' EXIT
export HOME=/root PATH=/opt/veriftools/go1.23.12/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=readonly -buildvcs=false" CGO_ENABLED=1
mkdir "$work/tmp" && export TMPDIR="$work/tmp"
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}\\n' "$PWD" "$here" > "$work/overlay.json"
timeout 240 go test -vet=off -overlay "$work/overlay.json" -count=1 -timeout 200s -run '^TestSeededDemo$' "./%(pkg)s"
'''

def main():
    quick = '--quick' in sys.argv
    for desc in [a for a in sys.argv[1:] if not a.startswith('--')]:
        d = runpy.run_path(desc)
        out = '/verif/seeded/' + d['ID']
        wt = '/tmp/seedwt-' + d['ID']
        shutil.rmtree(wt, ignore_errors=True)
        sh('cp -a /repo ' + wt)
        try:
            os.makedirs(out, exist_ok=True)
            open(out + '/demo.sh', 'w').write(DEMO % {'pkg': d['PKG']})
            os.chmod(out + '/demo.sh', 0o755)
            open(out + '/demo_test.go', 'w').write(d['TEST'].lstrip())
            json.dump({'property': d['PROP'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
            open(out + '/meta.json', 'a').write('\n')
            if not quick:
                rc, o = sh('bash %s/demo.sh' % out, cwd=wt)
                print(d['ID'], 'demo on unchanged tree:', rc)
                if rc != 0:
                    print(o[-3000:]); continue
            for f, old, new in d['EDITS']:
                p = wt + '/' + f
                s = open(p).read()
                if s.count(old) != 1:
                    print(d['ID'], 'EDIT does not match once:', f, s.count(old)); return
                open(p, 'w').write(s.replace(old, new))
            rc, o = sh('git diff', cwd=wt)
            open(out + '/patch.diff', 'w').write(o)
            env = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.23.12/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=readonly -buildvcs=false')
            rc, o = sh('gofmt -l cmd pkg server internal 2>/dev/null; go build ./...', cwd=wt, env=env)
            print(d['ID'], 'build:', rc, o.strip()[-500:])
            rc, o = sh('bash %s/demo.sh' % out, cwd=wt)
            print(d['ID'], 'demo with change:', rc, '' if rc else 'DEMO DOES NOT FAIL')
            print('   ', ' | '.join([l.strip() for l in o.splitlines() if 'demo_test.go' in l or 'panic' in l][:3]))
            if not quick:
                rc, o = sh('go test -vet=off -count=1 ./... 2>&1 | grep -v "no test files"', cwd=wt, env=env)
                print(d['ID'], 'tests:', 'FAIL' if 'FAIL' in o else 'pass', '' if 'FAIL' not in o else o[-1500:])
            rc, o = sh('/verif/check.sh ' + d['PROP'], env=dict(os.environ, VERIF_REPO=wt, VERIF_ROOT=wt))
            print(d['ID'], 'check', d['PROP'], 'CAUGHT' if rc == 1 else 'MISSED rc=%d' % rc)
            print('   ', '\n    '.join(o.strip().splitlines()[:2]))
        finally:
            shutil.rmtree(wt, ignore_errors=True)

main()

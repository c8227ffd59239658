"""Development tool: plants bugs. Each bug is built in a scratch copy of /repo,
confirmed (builds, passes the existing tests, demo passes without and fails with
the change) and only then kept as /verif/seeded/<id>/. With 'check' the property's
check is run against the scratch copy as well."""
import json, os, re, shutil, subprocess, sys, tempfile

ENV = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
           GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', CGO_ENABLED='1', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build', GOSUMDB='off')

DEMO = '''#!/bin/bash
# Runs the demonstration beside this file against the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}" > "$tmp/overlay.json"
go test %(flags)s-vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestDemo$' ./%(pkg)s
'''

def sh(cmd, cwd, t=300):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, shell=isinstance(cmd, str))
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return 99, 'timeout ' + (e.stdout or b'').decode(errors='replace')

def bug(id, edits, pkg, demo, needs, breaks, race=False, check=True, budget='75'):
    only = sys.argv[1:] and sys.argv[1] not in ('all',) and sys.argv[1] not in id
    if only: return
    prop = id.split('-')[0]
    w = tempfile.mkdtemp(prefix='plant-', dir='/tmp/seedwork')
    try:
        repo = w + '/repo'
        shutil.copytree('/repo', repo, symlinks=True)
        d = w + '/demo'; os.mkdir(d)
        open(d + '/demo.sh', 'w').write(DEMO % dict(pkg=pkg, flags='-race ' if race else ''))
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo_test.go', 'w').write(demo)
        rc, out = sh(['bash', d + '/demo.sh'], repo)
        if rc: return print(id, 'REJECT demo fails on clean tree', out[-1500:])
        for f, a, b in edits:
            p = repo + '/' + f; s = open(p).read()
            # blank lines need not be given
            m = list(re.finditer('\n(?:[ \t]*\n)*'.join(re.escape(l) for l in a.split('\n')), s))
            if len(m) != 1: return print(id, 'REJECT edit', f, len(m), repr(a[:80]))
            open(p, 'w').write(s[:m[0].start()] + b + s[m[0].end():])
        rc, out = sh('go build ./...', repo)
        if rc or out.strip(): print(id, 'note', out[-800:])
        if rc: return print(id, 'REJECT build')
        rc, diff = sh('git diff', repo)
        # lines of the original repository must change
        base = {f: subprocess.run(['git', 'show', 'c55ddcb:' + f], cwd='/repo', stdout=subprocess.PIPE).stdout.decode().split('\n') for f, _, _ in edits}
        rem = [l[1:] for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')]
        if not any(l.strip() and l in sum(base.values(), []) for l in rem): print(id, 'NOTE: no original line changed', rem)
        for k in range(2):
            rc, out = sh('go test -race -vet=off -count=1 -timeout 5m ./... 2>&1 | grep -v "no test files"', repo)
            if 'FAIL' in out: return print(id, 'REJECT existing tests notice it', [l for l in out.split(chr(10)) if 'FAIL' in l][:4])
        bad = 0
        for k in range(3):
            rc, out = sh(['bash', d + '/demo.sh'], repo)
            bad += rc != 0
        if bad < 3: return print(id, 'REJECT demo fails only', bad, 'of 3 with the change', out[-500:])
        dst = '/verif/seeded/' + id
        os.makedirs(dst, exist_ok=True)
        for f in ('demo.sh', 'demo_test.go'): shutil.copy(d + '/' + f, dst)
        open(dst + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(dst + '/meta.json', 'w'), indent=1)
        r = ''
        if check: r = runcheck(prop, repo, w)
        print(id, 'KEPT', r, flush=True)
    finally:
        shutil.rmtree(w)

def runcheck(prop, repo, w, tier='quick'):
    env = dict(ENV, VERIF_REPO=repo, VERIF_DIR=w + '/v', VERIF_SEED='1')
    os.makedirs(w + '/v/evidence'); os.makedirs(w + '/v/replay')
    for x in ('harness', 'engine', 'KNOWN_FINDINGS'): os.symlink('/verif/' + x, w + '/v/' + x)
    p = subprocess.run(['/tmp/eng', 'check', prop, '-tier', tier], cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = p.stdout.decode(errors='replace')
    v = [l for l in out.split('\n') if 'VIOLATION' in l]
    return ('CAUGHT ' if p.returncode == 1 and v else 'MISSED rc=%d ' % p.returncode) + (out.strip().split('\n')[-1] + (' | ' + '; '.join(v)[:200]))

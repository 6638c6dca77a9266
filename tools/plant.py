#!/usr/bin/env python3
"""plant.py DEFS.py [id...]: makes /verif/seeded/<id> of each definition whose planted bug is confirmed.

DEFS.py defines SEEDS, a list of dicts: id, prop, edits [(file, old, new)], pkg (directory whose
test binary the demonstration joins), demo (Go test source), needs, breaks.
Confirmed: applies, builds, the existing tests pass, only lines of the original repository are
changed, the demonstration passes without and fails with it."""
import json, os, re, shutil, subprocess, sys, tempfile, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off')

DEMO = '''#!/bin/bash
# exit 0: the property holds in this demonstration
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export TMPDIR="$t" GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$d/demo_test.go\\"}}" > "$t/overlay.json"
go test %(flags)s-count=1 -overlay "$t/overlay.json" -run '^TestZZDemo$' ./%(pkg)s
'''


def run(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True)


def plant(s):
    d = tempfile.mkdtemp(prefix='plant')
    try:
        repo = os.path.join(d, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        for f, old, new in s['edits']:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) != 1:
                return '%d occurrences in %s of: %s' % (t.count(old), f, old)
            open(p, 'w').write(t.replace(old, new))
        run(['gofmt', '-l', '.'], repo)
        diff = run(['git', 'diff'], repo).stdout
        base = run(['git', 'rev-list', '--max-parents=0', 'HEAD'], repo).stdout.strip()
        # only original lines
        for f in set(e[0] for e in s['edits']):
            blame = run(['git', 'blame', '-s', 'HEAD', '--', f], repo).stdout.splitlines()
            u = run(['git', 'diff', '-U0', '--', f], repo).stdout
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', u, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                for i in range(a, a + n):
                    if not (blame[i - 1].startswith('^') or blame[i - 1].startswith(base[:7])):
                        return 'not an original line: %s:%d %s' % (f, i, blame[i - 1])
        p = run(['go', 'vet', './...'], repo)
        p = run(['go', 'test', '-count=1', './...'], repo)
        if p.returncode:
            return 'tests fail:\n' + '\n'.join(x for x in p.stdout.splitlines() if 'FAIL' in x or '.go:' in x)[:1500]
        out = os.path.join(d, 'seed')
        os.makedirs(out)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        open(os.path.join(out, 'demo_test.go'), 'w').write(s['demo'].lstrip())
        sh = os.path.join(out, 'demo.sh')
        open(sh, 'w').write(DEMO % {'pkg': s['pkg'], 'flags': '-race ' if s.get('race') else ''})
        os.chmod(sh, 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        p = run(['bash', sh], repo)
        if p.returncode == 0 or 'build failed' in p.stdout:
            return 'demonstration does not fail:\n' + p.stdout[-1500:] + p.stderr[-800:]
        run(['git', 'checkout', '--', '.'], repo)
        p = run(['bash', sh], repo)
        if p.returncode:
            return 'demonstration fails without it:\n' + p.stdout[-1500:] + p.stderr[-800:]
        dst = os.path.join(ROOT, 'seeded', s['id'])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


for s in runpy.run_path(sys.argv[1])['SEEDS']:
    if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]:
        continue
    print(s['id'], plant(s) or 'planted', flush=True)

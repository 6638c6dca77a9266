#!/usr/bin/env python3
"""Runs checks against scratch copies of /repo with a change applied.

  trial.py PATCH ID...      applies PATCH (a file, or -COMMIT to undo that commit of /repo)
  trial.py seeded           every /verif/seeded/*: its own property's check (or all with ALL=1)
Prints one line per check: what it reported.
"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def trial(patch, ids, tests=False):
    d = tempfile.mkdtemp(prefix='trial')
    try:
        repo = os.path.join(d, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        if patch.startswith('-'):
            p = subprocess.run(['git', '-C', repo, 'revert', '-n', patch[1:]], capture_output=True, text=True)
        else:
            p = subprocess.run(['git', '-C', repo, 'apply', os.path.abspath(patch)], capture_output=True, text=True)
        if p.returncode:
            return {'apply': p.stderr}
        if tests:
            env = dict(os.environ, GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off')
            p = subprocess.run(['go', 'test', './...'], cwd=repo, env=env, capture_output=True, text=True)
            if p.returncode:
                print('   TESTS FAIL', [l for l in p.stdout.splitlines() if 'FAIL' in l][:6])
        res = {}
        for i in ids:
            env = dict(os.environ, VERIF_TRIAL_REPO=repo, VERIF_TRIAL_OUT=os.path.join(d, 'out'))
            p = subprocess.run([sys.executable, os.path.join(ROOT, 'check.py'), i], env=env, capture_output=True, text=True)
            lines = p.stdout.splitlines()
            res[i] = (p.returncode, [l for l in lines if ' x ' in l][:4] if p.returncode == 1 else lines[-12:] + p.stderr.splitlines()[-5:])
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == 'seeded':
        only = sys.argv[2:]
        for s in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
            if only and s not in only:
                continue
            meta = json.load(open(os.path.join(ROOT, 'seeded', s, 'meta.json')))
            r = trial(os.path.join(ROOT, 'seeded', s, 'patch.diff'), [meta['property']])
            for k, v in r.items():
                print(s, k, 'caught' if v[0] == 1 else 'MISSED' if v[0] == 0 else 'ERROR', v[1] if v[0] else '', flush=True)
    else:
        for k, v in trial(sys.argv[1], sys.argv[2:], tests=True).items():
            print(k, *((v,) if isinstance(v, str) else (v[0], *v[1])), sep='\n   ')

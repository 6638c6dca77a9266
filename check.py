#!/usr/bin/env python3
"""Runs the check of one property:  check.py <id> [quick|thorough]

  design     TLC explores the design models of the property's module
  scenarios  TLC enumerates inputs for the real code
  execution  the Go driver performs them on /repo's code and records a trace
  conformance TLC judges every event of the trace with the specification

Exit 0: everything explained (known findings are printed).  Exit 1: a VIOLATION line.
Anything else is an error of the check itself.
"""
import json, os, re, resource, shutil, subprocess, sys, time, hashlib
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from checks import CHECKS

SPEC = os.path.join(ROOT, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SHARDS = 8
REPO = os.environ.get('VERIF_TRIAL_REPO', '/repo')
OUT = os.environ.get('VERIF_TRIAL_OUT', os.path.join(ROOT, 'out'))


class CheckError(Exception):
    pass


def go_env():
    env = dict(os.environ)
    env.update(GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off', GOENV='off')
    for k in ('GOROOT', 'GOEXPERIMENT', 'GODEBUG'):
        env.pop(k, None)
    return env


def build(out, race):
    """Builds the driver from /repo's working tree."""
    exe = os.path.join(out, 'driver-race' if race else 'driver')
    # pointer checks: -race implies them
    cmd = ['go', 'build'] + (['-race'] if race else ['-gcflags=github.com/qmuntal/gltf/...=-d=checkptr']) + ['-o', exe]
    if REPO != '/repo':   # trials of planted bugs in scratch copies
        mod = os.path.join(out, 'trial.mod')
        with open(os.path.join(ROOT, 'harness', 'go.mod')) as f, open(mod, 'w') as g:
            g.write(f.read().replace('=> /repo', '=> ' + REPO))
        cmd += ['-modfile', mod]
    cmd += ['.']
    p = subprocess.run(cmd, cwd=os.path.join(ROOT, 'harness'), env=go_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode != 0:
        raise CheckError('driver does not build:\n' + p.stdout)
    return exe


def tlc(out, name, module, cfg, env=None, workers='1', heap='2g', timeout=800, extra=()):
    """Runs TLC and returns its output; raises on any failure."""
    meta = os.path.join(out, 'meta-' + name)
    shutil.rmtree(meta, ignore_errors=True)
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    os.makedirs(meta)
    cmd = ['java', '-Djava.io.tmpdir=' + meta, '-Xmx' + heap, '-Xss64m', '-XX:+UseSerialGC' if workers == '1' else '-XX:+UseParallelGC',
           '-XX:TieredStopAtLevel=4', '-cp', CP, 'tlc2.TLC', '-noGenerateSpecTE', '-workers', workers,
           '-metadir', meta, '-config', cfg, *extra, module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError('TLC timed out on ' + name)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    log = os.path.join(out, 'tlc-%s.log' % name)
    with open(log, 'w') as f:
        f.write(p.stdout)
    if p.returncode != 0:
        tail = '\n'.join(p.stdout.splitlines()[-40:])
        raise CheckError('TLC failed on %s (exit %d, %s):\n%s' % (name, p.returncode, log, tail))
    return p.stdout


STATES = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def unquote(line):
    """A TLA+ string printed by PrintT, as text."""
    line = line.strip()
    if line.startswith('"') and line.endswith('"'):
        line = line[1:-1].replace('\\"', '"').replace('\\\\', '\\')
    return line


def known_findings():
    keys = {}
    with open(os.path.join(ROOT, 'known-findings.txt')) as f:
        for line in f:
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
            if m:
                keys[(m.group(1), m.group(2))] = m.group(3).strip()
    return keys


def run_driver(exe, sub, scope, out, tier, seed, scn, timeout, race, parts=1):
    """Runs the driver, in several processes; (exit code, stdout, stderr, trace, journal) of the first that failed."""
    env = dict(os.environ)
    env['GORACE'] = 'halt_on_error=1 exitcode=66'
    env['GOTRACEBACK'] = 'all'
    for k in ('GODEBUG', 'GOGC', 'GOMEMLIMIT', 'GOMAXPROCS'):
        env.pop(k, None)

    def one(i):
        trace, journal, scratch = [os.path.join(out, '%s%d' % (x, i)) for x in ('trace-part', 'journal', 'scratch')]
        cmd = [exe, sub, '-scope', scope, '-out', trace, '-tier', tier, '-seed', str(seed), '-journal', journal,
               '-scratch', scratch, '-part', str(i), '-parts', str(parts)]
        if scn:
            cmd += ['-scn', scn]
        shutil.rmtree(scratch, ignore_errors=True)
        os.makedirs(scratch)
        for f in (trace, journal):
            if os.path.exists(f):
                os.unlink(f)
        try:
            # an allocation that no input justifies ends the driver, not the sandbox
            limit = None if race else (lambda: resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30)))
            p = subprocess.run(cmd, cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, errors='replace', timeout=timeout, preexec_fn=limit)
            rc, err, so = p.returncode, p.stderr, p.stdout
        except subprocess.TimeoutExpired:
            raise CheckError('driver timed out')
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        j = ''
        if os.path.exists(journal):
            j = open(journal, errors='replace').read()
            os.unlink(journal)
        return rc, so, err, trace, j

    with ThreadPoolExecutor(parts) as ex:
        res = list(ex.map(one, range(parts)))
    trace = os.path.join(out, 'trace.ndjson')
    with open(trace, 'wb') as f:
        for r in res:
            if os.path.exists(r[3]):
                with open(r[3], 'rb') as g:
                    shutil.copyfileobj(g, f)
                os.unlink(r[3])
    bad = [r for r in res if r[0] != 0] or res[:1]
    rc, so, err, _, j = bad[0]
    return rc, so, err, trace, j


def classify_crash(rc, err):
    """How the code under test brought the driver down, or None if it did not."""
    if rc == 66 or 'WARNING: DATA RACE' in err:
        return 'data race'
    if rc == 7:
        return 'hang'
    if 'fatal error:' in err or '\npanic:' in err or err.startswith('panic:') or 'SIGSEGV' in err:
        # the harness itself does not touch memory that it does not own
        corrupt = re.search(r'found bad pointer|unexpected fault address|fatal error: (unexpected signal|sweep|bad|fault|invalid)|'
                            r'found pointer to free object|invalid pointer found', err)
        if 'qmuntal/gltf' in err or corrupt:
            m = re.search(r'(fatal error|panic): .*', err)
            return m.group(0)[:200] if m else 'crash'
    return None


def split_trace(trace, out, shards):
    """Distributes the sessions of the trace over the shards."""
    files = [open(os.path.join(out, 'shard%d.ndjson' % i), 'w', errors='surrogateescape') for i in range(shards)]
    size = [0] * shards
    cur, k, n, sessions = None, 0, 0, 0
    index = [[] for _ in range(shards)]
    with open(trace, errors='surrogateescape') as f:
        for line in f:
            m = re.match(r'\{"s":(\d+),', line)
            if not m:
                raise CheckError('bad trace line: ' + line[:200])
            if m.group(1) != cur:
                cur = m.group(1)
                k = min(range(shards), key=lambda i: size[i])
                sessions += 1
            files[k].write(line)
            size[k] += len(line) + 200
            index[k].append(n)
            n += 1
    for f in files:
        f.close()
    return n, sessions, [i for i in range(shards) if index[i]]


def validate(out, spec, trace, tier, props, timeout):
    """Judges the trace; returns (#events, #sessions, [(event, [reasons])], stats)."""
    n, sessions, used = split_trace(trace, out, SHARDS)
    if n == 0:
        raise CheckError('empty trace')

    def one(i):
        f = os.path.join(out, 'shard%d.ndjson' % i)
        return i, tlc(out, 'trace%d' % i, spec, spec + '.cfg', env={'TRACE': f}, heap='3g', timeout=timeout)

    bad, done, stats = [], 0, {}
    with ThreadPoolExecutor(SHARDS) as ex:
        for i, o in ex.map(one, used):
            lines = None
            for line in o.splitlines():
                t = unquote(line)
                if t.startswith('@@BAD '):
                    r = json.loads(t[6:])
                    if lines is None:
                        lines = open(os.path.join(out, 'shard%d.ndjson' % i)).read().splitlines()
                    bad.append((i, r['l'], lines[r['l'] - 1], r['r']))
                elif t.startswith('@@DONE '):
                    done += int(t[7:])
    if done != n:
        raise CheckError('only %d of %d events were judged' % (done, n))
    return n, sessions, bad


def session_of(out, shard, l):
    """The lines of the session up to event l of the shard (the replay)."""
    lines = open(os.path.join(out, 'shard%d.ndjson' % shard)).read().splitlines()
    s = re.match(r'\{"s":(\d+),', lines[l - 1]).group(1)
    return [x for x in lines[:l] if re.match(r'\{"s":%s,' % s, x)]


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        print('usage: check.py <id> [quick|thorough]; ids: ' + ' '.join(sorted(CHECKS)))
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = int(hashlib.sha1(os.environ['VERIF_SEED'].encode()).hexdigest()[:7], 16)
    t0 = time.time()
    cfg = CHECKS[prop]
    out = os.path.join(OUT, prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    evidence = os.path.join(ROOT if REPO == '/repo' else OUT, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    if os.path.exists(evidence):
        os.unlink(evidence)
    timeout = 850 if tier == 'quick' else 14000
    states = trans = 0
    designs, timing = {}, {}

    with ThreadPoolExecutor(4) as ex:
        fb = ex.submit(build, out, cfg.get('race', False))

        def design(d):
            c = d + ('_thorough' if tier == 'thorough' and
                     os.path.exists(os.path.join(SPEC, d + '_thorough.cfg')) else '') + '.cfg'
            return d, tlc(out, d, d, c, workers='4', heap='4g', timeout=timeout)
        fd = [ex.submit(design, d) for d in cfg.get('design', [])]

        def gen(g):
            c = g + ('_thorough' if tier == 'thorough' and
                     os.path.exists(os.path.join(SPEC, g + '_thorough.cfg')) else '') + '.cfg'
            return g, tlc(out, g, g, c, workers='1', heap='4g', timeout=timeout)
        fg = [ex.submit(gen, g) for g in cfg.get('gen', [])]
        for f in fd:
            d, o = f.result()
            m = STATES.search(o)
            if not m:
                raise CheckError('no state count from ' + d)
            designs[d] = {'states': int(m.group(2)), 'generated': int(m.group(1))}
            states += int(m.group(2))
            trans += int(m.group(1))
        scn, nscn = None, 0
        if fg:
            scn = os.path.join(out, 'scenarios.ndjson')
            with open(scn, 'w') as f:
                for x in fg:
                    g, o = x.result()
                    m = STATES.search(o)
                    k = 0
                    for line in o.splitlines():
                        t = unquote(line)
                        if t.startswith('@S '):
                            f.write(t[3:] + '\n')
                            k += 1
                    nscn += k
                    if k == 0:
                        raise CheckError('no scenario from ' + g)
                    designs[g] = {'states': int(m.group(2)), 'generated': int(m.group(1)), 'scenarios': k}
                    states += int(m.group(2))
                    trans += int(m.group(1))
        exe = fb.result()
    timing['design+build'] = round(time.time() - t0, 1)

    t1 = time.time()
    violations = []   # (reasons, replay lines)
    rc, so, err, trace, journal = run_driver(exe, cfg['driver'], prop, out, tier, seed, scn, timeout, cfg.get('race'), cfg.get('parts', 1))
    if rc != 0:
        kind = classify_crash(rc, err)
        if kind is None:
            raise CheckError('driver exit %d\n%s\n%s' % (rc, so[-2000:], err[-6000:]))
        # a crash counts only if it happens again
        again = None
        for _ in range(3):
            rc2, so2, err2, trace, journal2 = run_driver(exe, cfg['driver'], prop, out, tier, seed, scn, timeout,
                                                         cfg.get('race'), cfg.get('parts', 1))
            again = classify_crash(rc2, err2) if rc2 else None
            if again:
                break
        if not again:
            raise CheckError('driver died once (%s) but not again\n%s' % (kind, err[-6000:]))
        violations.append((['%s the code under test brought the process down: %s' % (prop, kind)],
                           [json.dumps({'crash': kind, 'during': journal, 'stderr': err[:20000]})]))
    timing['driver'] = round(time.time() - t1, 1)
    t1 = time.time()
    n = sessions = 0
    known, seen_known = known_findings(), {}
    samples = []
    other = 0
    if not violations:
        n, sessions, bad = validate(out, cfg['trace'], trace, tier, [prop], timeout)
        for shard, l, line, reasons in bad:
            mine = [r for r in reasons if r.startswith(prop + ' ')]
            if not mine:
                other += 1
                continue
            unknown = []
            for r in mine:
                m = re.search(r'\[key=(\S+)\]', r)
                if m and (prop, m.group(1)) in known:
                    seen_known[m.group(1)] = seen_known.get(m.group(1), 0) + 1
                else:
                    unknown.append(r)
            if unknown:
                violations.append((unknown, (shard, l)))
        with open(trace) as f:
            for i, line in enumerate(f):
                if i in (0, n // 2, n - 1):
                    samples.append(line.strip()[:1500])
    timing['conformance'] = round(time.time() - t1, 1)

    for k, c in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s (%d events)' % (prop, known[(prop, k)], c))
    replay = None
    if violations:
        rdir = os.path.join(OUT, 'replay')
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, prop + '.ndjson')
        with open(replay, 'w') as f:
            picked, got = [], set()
            for v in violations:
                if not set(v[0]) <= got:
                    picked.append(v)
                    got |= set(v[0])
            for reasons, ev in picked[:12]:
                f.write(json.dumps({'reasons': reasons}) + '\n')
                for line in (session_of(out, *ev) if isinstance(ev, tuple) else ev):
                    f.write(line + '\n')
        hist = {}
        for reasons, _ in violations:
            for r in reasons:
                hist[r] = hist.get(r, 0) + 1
        for r, c in sorted(hist.items(), key=lambda x: -x[1])[:12]:
            print('  %6d x %s' % (c, r))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': states, 'transitions': trans,
            'traces_validated_against_impl': sessions,
            'events_judged': n,
            'scenarios_from_specification': nscn,
            'models': designs,
            'events_of_other_properties_unexplained': other,
            'known_findings_seen': seen_known,
            'samples': samples or ['(driver crashed)'],
            'timing_s': timing,
        },
        'assumptions': cfg.get('assumptions', []),
        'wall_s': round(time.time() - t0, 1),
        'violations': len(violations),
    }
    with open(evidence, 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s %s seed=%d: %d design states, %d events in %d traces judged, %d unexplained, %.1fs %s' %
          (prop, tier, seed, states, n, sessions, len(violations), time.time() - t0, timing))
    for f in os.listdir(out):
        if (f.endswith('.ndjson') and 'VERIF_KEEP' not in os.environ) or f.startswith('driver'):
            os.unlink(os.path.join(out, f))
    if violations:
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except CheckError as e:
        print('CHECK ERROR: %s' % e)
        sys.exit(3)

#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE] [--case N] [--keep]

Builds the monitoring harness into the module at /repo (through a build overlay, nothing is written there),
runs the check of property ID against it and reports.
Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Exit 2: no answer.
"""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
ENV = dict(os.environ)
ENV.setdefault('HOME', '/root')
if not os.environ.get('VERIF_KEEP_ENV'):
    ENV.update(PATH='/usr/local/go/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin',
               GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOTOOLCHAIN='local', GOPROXY='off',
               GOFLAGS='-mod=mod', GOWORK='off')
    ENV.setdefault('GOCACHE', '/root/.cache/go-build')
    for k in ('GOMAXPROCS', 'GODEBUG', 'GOGC', 'GOMEMLIMIT', 'GORACE', 'GOOS', 'GOARCH', 'CGO_ENABLED'):
        ENV.pop(k, None)

# builds: which binaries run the cases of a property. Each entry is (race detector?, number of shards, share of the cases).
PLAN = {
    'C12': [('race', 1, 1.0)],
    'C13': [('race', 1, 1.0)],
    'C14': [('shard', 8, 1.0)],
    'C18': [('plain', 1, 1.0), ('race', 1, 0.15)],
    'C25': [('plain', 1, 1.0), ('race', 1, 0.2)],
    'C27': [('plain', 1, 1.0), ('race', 1, 0.1)],
}
LIMIT = {'quick': 840, 'thorough': 4 * 3600}


class NoAnswer(Exception):
    pass


def overlay(tmp):
    r = {}
    for f in glob.glob(HERE + '/harness/*.go'):
        r[f'{REPO}/internal/zzverif/{os.path.basename(f)}'] = f
    for f in glob.glob(HERE + '/harness/porcupine/*.go'):
        r[f'{REPO}/internal/zzporcupine/{os.path.basename(f)}'] = f
    p = os.path.join(tmp, 'overlay.json')
    with open(p, 'w') as fh:
        json.dump({'Replace': r}, fh)
    return p


def build(tmp, race, extra=()):
    out = os.path.join(tmp, 'zzverif-race' if race else 'zzverif')
    env = dict(ENV)
    if race:
        env['CGO_ENABLED'] = '1'
    cmd = ['go', 'build', *(['-race'] if race else []), *extra, '-overlay', overlay(tmp), '-o', out, './internal/zzverif']
    p = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise NoAnswer('the harness does not build:\n' + p.stdout[-4000:])
    return out


def repo_frames(text):
    """Does a race report or crash have a frame of the code under test?"""
    mod = 'github.com/tylantz/go-tailwind-merge'
    for line in text.splitlines():
        s = line.strip()
        if s.startswith(mod) and not s.startswith(mod + '/internal/zz'):
            return True
    return False


class Run:
    def __init__(self, tmp, binary, args, name, env=None):
        self.name, self.args = name, args
        self.out = os.path.join(tmp, name + '.json')
        self.err = os.path.join(tmp, name + '.err')
        self.racelog = os.path.join(tmp, name + '.race')
        e = dict(ENV)
        e['GORACE'] = f'halt_on_error=0 exitcode=0 history_size=3 log_path={self.racelog}'
        e['GOTRACEBACK'] = 'all'
        e['VERIF_CURRENT'] = os.path.join(tmp, name + '.current')
        e.update(env or {})
        self.current = e['VERIF_CURRENT']
        self.p = subprocess.Popen([binary, *args, '-out', self.out], env=e, cwd=tmp, stdin=subprocess.DEVNULL,
                                  stdout=subprocess.DEVNULL, stderr=open(self.err, 'w'), start_new_session=True)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()


def known_findings(pid):
    out, pre = set(), f'known: property={pid} '
    for line in open(HERE + '/known_findings.txt'):
        if line.startswith(pre):
            out.add(line[len(pre):].rstrip('\n'))
    return out


def clip(s, n=6000):
    return s if len(s) <= n else s[:n // 2] + f'\n... ({len(s)} bytes) ...\n' + s[-n // 2:]


def main():
    argv = sys.argv[1:]
    if not argv:
        print(__doc__)
        return 2
    pid = argv.pop(0)
    if pid == '--build-only':
        tmp = tempfile.mkdtemp(prefix='verif-build-')
        try:
            build(tmp, False)
            build(tmp, True)
            print('the harness builds')
            return 0
        except NoAnswer as e:
            print(e)
            return 2
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    tier = os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    only, keep, cases = None, False, None
    while argv:
        a = argv.pop(0)
        if a == '--tier':
            tier = argv.pop(0)
        elif a == '--replay':
            r = json.load(open(argv.pop(0)))
            only, seed, tier = r['case'], r['seed'], r['tier']
        elif a == '--case':
            only = int(argv.pop(0))
        elif a == '--cases':
            cases = int(argv.pop(0))
        elif a == '--seed':
            seed = int(argv.pop(0))
        elif a == '--keep':
            keep = True
        else:
            raise SystemExit('unknown argument ' + a)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='verif-' + pid + '-')
    runs = []
    listed, known = known_findings(pid), []
    try:
        results, violations = [], []
        plan = PLAN.get(pid, [('plain', 1, 1.0)])
        ncpu = os.cpu_count() or 1
        for kind, shards, share in plan:
            binary = build(tmp, kind == 'race')
            base = ['-prop', pid, '-tier', tier, '-seed', str(seed), '-data', os.path.join(HERE, 'harness/data')]
            if share != 1.0:
                base += ['-share', str(share)]
            if cases:
                base += ['-cases', str(cases)]
            env = {}
            batch = []
            if kind == 'shard' and only is None:
                for i in range(shards):
                    batch.append(Run(tmp, binary, base + ['-from', str(i), '-step', str(shards)], f'{kind}{i}', env))
            else:
                batch.append(Run(tmp, binary, base + (['-only', str(only)] if only is not None else []), kind, env))
            runs += batch
            while any(r.p.poll() is None for r in batch):
                if time.time() - t0 > LIMIT[tier]:
                    raise NoAnswer('the run did not finish in time')
                time.sleep(0.05)
            for r in batch:
                err = open(r.err, errors='replace').read()
                code = r.p.returncode
                res = None
                if code in (0, 1, 3) and os.path.exists(r.out):
                    res = json.load(open(r.out))
                    if kind == 'race':
                        res['counters'] = {('race build: ' if len(plan) > 1 else '') + k: v for k, v in res['counters'].items()}
                    results.append(res)
                    violations += res['violations'] or []
                    for k in res.get('known') or []:
                        if k['kind'] in listed:
                            if k['kind'] not in known:
                                known.append(k['kind'])
                        else:
                            violations.append(k)
                elif code == 2 and 'goroutine ' in err and ('fatal error:' in err or 'panic:' in err or 'runtime:' in err) or code == -signal.SIGKILL:
                    cur = open(r.current, errors='replace').read() if os.path.exists(r.current) else ''
                    if code == -signal.SIGKILL or not repo_frames(err):
                        raise NoAnswer(f'the harness ended abnormally ({code}): ' + clip(err))
                    c = re.search(r'"case": *(\d+)', cur)
                    violations.append({'property': pid, 'kind': 'crash', 'case': int(c.group(1)) if c else -1, 'seed': seed, 'tier': tier,
                                       'detail': {'exit': code, 'output': clip(err), 'current': clip(cur, 20000)}})
                else:
                    raise NoAnswer(f'the harness ended abnormally ({code}): ' + clip(err))
                seen = set()
                for f in glob.glob(r.racelog + '.*'):
                    for rep in open(f, errors='replace').read().split('==================\n'):
                        if 'DATA RACE' not in rep:
                            continue
                        if not repo_frames(rep):
                            raise NoAnswer('data race inside the harness:\n' + clip(rep))
                        key = tuple(re.findall(r'^  ([\w./()*-]+)\(', rep, re.M)[:6])
                        if key not in seen and len(seen) < 5:
                            seen.add(key)
                            violations.append({'property': pid, 'kind': 'data race', 'case': -1, 'seed': seed, 'tier': tier,
                                               'detail': {'report': clip(rep)}})
            if violations:
                break
        for r in results:
            if r['inconclusive'] and not violations:
                raise NoAnswer('inconclusive: ' + r['inconclusive'])
        # evidence
        counters, samples, evals, hashes, distinct, ncases = {}, [], 0, set(), 0, 0
        for r in results:
            for k, v in r['counters'].items():
                counters[k] = counters.get(k, 0) + v
            samples += r['samples'] or []
            evals += r['evaluations']
            ncases += r['cases']
            if r.get('hashes'):
                hashes.update(r['hashes'])
            elif len(results) > 1 and not r.get('hashes'):
                distinct = max(distinct, r['distinct_nontrivial'])  # runs of the same cases in another build
            else:
                distinct = r['distinct_nontrivial']
        distinct = max(distinct, len(hashes))
        ev = {
            'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
            'coverage': {
                'evaluations': evals, 'distinct_nontrivial': distinct,
                'rule': (results[0]['rule'] if results else 'the run crashed before it ended'),
                'samples': samples[:6] or (['the run ended with a violation before a sample was recorded'] if violations else []),
                'cases': ncases, 'observed': counters,
                'builds': [k for k, _, _ in plan],
            },
            'assumptions': ['decides only the executions it produced; see level_note in MANIFEST.json and DESIGN.md'],
            'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
        }
        os.makedirs(HERE + '/evidence', exist_ok=True)
        if only is None:
            with open(f'{HERE}/evidence/{pid}.json', 'w') as fh:
                json.dump(ev, fh, indent=1)
        for k in known:
            print(f'KNOWN-FINDING: property={pid} {k}')
        if violations:
            os.makedirs(HERE + '/evidence/replay', exist_ok=True)
            for i, v in enumerate(violations[:5]):
                path = f'{HERE}/evidence/replay/{pid}-{i}.json'
                v['how_to_replay'] = f'python3 {HERE}/check.py {pid} --replay {path}'
                with open(path, 'w') as fh:
                    json.dump(v, fh, indent=1)
                print(f'{pid}: {v["kind"]} (case {v["case"]}, seed {seed})')
                for k, x in (v['detail'] or {}).items():
                    print('   ', k, ':', str(x)[:1500])
                print(f'VIOLATION property={pid} replay={path}')
            return 1
        print(f'{pid}: held on {evals} evaluations ({distinct} distinct, non-trivial) in {ncases} cases; {time.time() - t0:.1f} s')
        for k in sorted(counters):
            print(f'    {k}: {counters[k]}')
        return 0
    except NoAnswer as e:
        print(f'{pid}: no answer: {e}', file=sys.stderr)
        print(f'{pid}: no answer')
        return 2
    finally:
        for r in runs:
            if r.p.poll() is None:
                r.kill()
        if not keep:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())

#!/usr/bin/env python3
"""check.py C01            run the check of a property (VERIF_SEED, VERIF_TIER from the environment)
check.py --replay FILE   run one replay file again and show the program and the verdict
check.py --setup         build everything"""
import glob, json, os, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, wrap
from plan import PLAN

VERIF = build.VERIF
FINDINGS = os.path.join(VERIF, 'known_findings.json')


def findings(prop):
    try:
        return [f for f in json.load(open(FINDINGS)) if f['property'] == prop]
    except FileNotFoundError:
        return []


def run_host(host, imgs, prop, cfg, seed, cases, tlim, shrink, tier, asan=False):
    fd, out = tempfile.mkstemp(prefix='oshv', suffix='.json')
    os.close(fd)
    try:
        cmd = [host, '--prop', prop, '--images', imgs, '--cfg', cfg, '--seed', str(seed), '--cases', str(cases), '--time', str(tlim),
               '--shrink', str(shrink), '--out', out, '--tier', tier, '--workers', str(max(2, min(16, os.cpu_count() or 2)))]
        env = dict(os.environ)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=tlim + shrink + 400)
        if r.returncode not in (0, 1):
            raise RuntimeError('%s\nended with %d\n%s' % (' '.join(cmd), r.returncode, r.stdout.decode('utf8', 'replace')[-3000:]))
        return json.load(open(out))
    finally:
        os.unlink(out)


def replay(path):
    d = json.load(open(path))
    if d['property'] == 'C27':
        return wrap.replay(d)
    libs, host = build.build_all([d['cfg']])
    with tempfile.NamedTemporaryFile('w', suffix='.rep') as f:
        f.write('\n'.join(map(str, d['choices'])))
        f.flush()
        return subprocess.call([host, '--prop', d.get('driver', d['property']), '--images', libs[d['cfg']], '--cfg', d['cfg'], '--tier', d.get('tier', 'quick'),
                                '--replay', f.name, '--verbose'])


def known(prop, libs, host):
    """Replays every listed finding of the property; returns the KNOWN-FINDING lines."""
    out = []
    for k in findings(prop):
        if k['status'] != 'known':
            continue
        d = json.load(open(os.path.join(VERIF, k['replay'])))
        with tempfile.NamedTemporaryFile('w', suffix='.rep') as f:
            f.write('\n'.join(map(str, d['choices'])))
            f.flush()
            r = subprocess.run([host, '--prop', d.get('driver', prop), '--images', libs[d['cfg']], '--cfg', d['cfg'], '--replay', f.name],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode == 1:
            out.append('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    return out


def write_evidence(prop, ev):
    ev_path = os.path.join(VERIF, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    tmp = ev_path + '.tmp'
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.rename(tmp, ev_path)


def wrappers(seed, tier):
    t0 = time.time()
    cov, v = wrap.run(seed, tier)
    print('C27: %d cases, %d distinct non-trivial, %.1f s' % (cov['evaluations'], cov['distinct_nontrivial'], time.time() - t0))
    ev = {'property': 'C27', 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': ['the wrappers are made by the rules of env/Makefile.mk from generated settings; the compiler is a stub that records its arguments, and for some cases gcc and g++'],
          'wall_s': round(time.time() - t0, 1), 'violations': 1 if v else 0}
    if v:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        rp = os.path.join(VERIF, 'replays', 'C27-%d.json' % seed)
        json.dump(dict(v, property='C27'), open(rp, 'w'), indent=1)
        print(json.dumps(v.get('case', {}))[:3000])
        print(v['message'][:3000])
        print('VIOLATION property=C27 replay=%s' % rp)
    write_evidence('C27', ev)
    return 1 if v else 0


def main():
    if sys.argv[1] == '--setup':
        t = time.time()
        build.build_all(list(build.CONFIGS))
        print('built in %.1f s' % (time.time() - t))
        return 0
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    if prop == 'C27':
        return wrappers(seed, tier)
    plan = PLAN[prop]
    runs = plan[tier]
    libs, host = build.build_all(sorted(set(r[0] for r in runs)))
    tb = time.time() - t0
    shrink = 45 if tier == 'quick' else 240
    results, bad = [], None
    for i, (cfg, cases, *rest) in enumerate(runs):
        driver = rest[0] if rest else prop
        tlim = plan.get('limit', {}).get(tier, 150 if tier == 'quick' else 3600)
        d = run_host(host, libs[cfg], driver, cfg, seed * 1000003 + i, cases, tlim, shrink, tier)
        results.append(d)
        print('%s %s%s: %d cases, %d distinct non-trivial, %.1f s%s' % (prop, cfg, '' if driver == prop else ' ' + driver, d['evaluations'], d['distinct_nontrivial'], d['total_s'],
                                                                        (' (' + d['note'] + ')') if d['note'] else ''), flush=True)
        if d['violation']:
            bad = (d, driver)
            break
    counters = {}
    for d in results:
        for k, v in d['counters'].items():
            counters[k] = counters.get(k, 0) + v
    samples = []
    for d in results:
        for s in d['samples'][:2]:
            samples.append({'config': d['cfg'], 'case': s})
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': sum(d['evaluations'] for d in results),
                       'distinct_nontrivial': sum(d['distinct_nontrivial'] for d in results),
                       'rule': results[0]['rule'], 'samples': samples[:10],
                       'per_config': [{k: d[k] for k in ('cfg', 'evaluations', 'distinct_nontrivial', 'discarded', 'steps', 'events', 'search_s')} for d in results],
                       'counters': counters, 'build_s': round(tb, 1)},
          'assumptions': plan.get('assumptions', []) + [
              'the library runs against simMPI, an MPI-3 model in which delivery, RMA application and scheduling are chosen by the generator within what MPI allows',
              'up to %d PEs per program' % build.NPE],
          'wall_s': round(time.time() - t0, 1), 'violations': 1 if bad else 0}
    rc = 0
    if bad:
        d, driver = bad
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        rp = os.path.join(VERIF, 'replays', '%s-%s-%d.json' % (prop, d['cfg'], seed))
        json.dump({'property': prop, 'driver': driver, 'cfg': d['cfg'], 'tier': tier, 'message': d['message'], 'program': d['program'].split('\n'),
                   'choices': d['choices']}, open(rp, 'w'), indent=1)
        ev['coverage']['violation'] = {'config': d['cfg'], 'message': d['message'], 'program': d['program']}
        print(d['program'][:6000])
        print(d['message'][:3000])
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        rc = 1
    for line in known(prop, libs, host):
        print(line)
    write_evidence(prop, ev)
    return rc


if __name__ == '__main__':
    try:
        sys.exit(main())
    except build.BuildError as e:
        print('build failed:\n%s' % e)
        sys.exit(2)
    except Exception:  # an interpreter error is no verdict
        import traceback
        traceback.print_exc(file=sys.stdout)
        sys.exit(2)

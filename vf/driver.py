"""Parent process of a check: builds a private copy of the code under test from
/repo's working tree, runs N shards of Hypothesis-driven search, merges their
statistics, replays any failure in a fresh worker and writes the evidence.

    driver.py <property> <quick|thorough>
"""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')

from client import Worker, HarnessError, build_copy, worker_env  # noqa: E402
import registry  # noqa: E402


def load_known():
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(path) as f:
            return json.load(f)
    except FileNotFoundError:
        return []


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    spec = registry.SPECS[prop]
    nshards = int(os.environ.get('VERIF_SHARDS', '8'))
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    ncases = int((spec.quick if tier == 'quick' else spec.thorough) * scale)
    budget = float(os.environ.get('VERIF_BUDGET',
        spec.quick_s if tier == 'quick' else spec.thorough_s))
    scratch = tempfile.mkdtemp(prefix='vf-%s-' % prop)
    rc = 2
    try:
        rc = run(prop, tier, seed, spec, nshards, ncases, budget, scratch, t0)
    except HarnessError as e:
        print('HARNESS-ERROR %s: %s' % (prop, e), file=sys.stderr)
        rc = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def run(prop, tier, seed, spec, nshards, ncases, budget, scratch, t0):
    lib = os.path.join(scratch, 'lib')
    build_copy(REPO, lib)
    # The copy must import; if it does not, the tree is broken for every user.
    w = Worker(lib, prop, cwd=scratch)
    w.start()
    w.stop()

    known = [k for k in load_known() if k.get('property') == prop and k.get('kind') == 'known']
    for k in known:
        if still_fails(lib, prop, k, scratch):
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        else:
            print('note: the listed finding no longer shows: %s' % k['what'])

    procs = []
    for sh in range(nshards):
        out = os.path.join(scratch, 'shard%d.json' % sh)
        cmd = [sys.executable, os.path.join(HERE, 'shard.py'), prop, tier,
               str(seed), str(sh), str(nshards), str(ncases), str(budget), lib, out]
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.Popen(cmd, env=env, cwd=scratch,
                             stdout=subprocess.PIPE, stderr=open(out + '.err', 'w'))
        procs.append((p, out))

    deadline = time.time() + budget * 2 + 240
    first_fail = None
    while True:
        alive = [p for p, _ in procs if p.poll() is None]
        fails = [o for p, o in procs if p.poll() is not None and os.path.exists(o)
                 and json.load(open(o)).get('failure')]
        if fails and first_fail is None:
            first_fail = time.time()
        if not alive:
            break
        if (first_fail and time.time() - first_fail > 3) or time.time() > deadline:
            for p in alive:
                p.terminate()
            time.sleep(0.5)
            for p in alive:
                if p.poll() is None:
                    p.kill()
            break
        time.sleep(0.1)

    results, errors = [], []
    for p, o in procs:
        p.wait()
        if os.path.exists(o):
            r = json.load(open(o))
            results.append(r)
            if r.get('error'):
                errors.append(r['error'])
        elif not first_fail:
            err = open(o + '.err').read()[-3000:]
            if time.time() > deadline:
                results.append({'stats': None, 'killed': True})
            else:
                errors.append('shard died rc=%s\n%s' % (p.returncode, err))

    # Merge statistics.
    tot = dict(evaluations=0, ok=0, discards=0, timeouts=0, known_hits=0, harness_errors=0)
    hashes, tags, samples, discards, hsamples = set(), {}, [], {}, []
    for r in results:
        s = r.get('stats')
        if not s:
            continue
        for k in tot:
            tot[k] += s.get(k, 0)
        hashes.update(s['hashes'])
        for k, v in s['tags'].items():
            tags[k] = tags.get(k, 0) + v
        for k, v in s['discard_reasons'].items():
            discards[k] = discards.get(k, 0) + v
        samples.extend(s['samples'])
        hsamples.extend(s['harness_samples'])

    # Confirm failures in a fresh worker.
    violation = None
    unconfirmed = []
    for r in results:
        f = r.get('failure')
        if not f:
            continue
        conf = confirm(lib, prop, f, scratch)
        if conf:
            violation = conf
            break
        unconfirmed.append({'why': f['why'], 'case': f['case']})

    wall = time.time() - t0
    samples = samples[:6]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': tot['evaluations'],
            'distinct_nontrivial': len(hashes),
            'rule': spec.rule,
            'samples': samples,
            'discarded': tot['discards'],
            'discard_reasons': dict(sorted(discards.items(), key=lambda kv: -kv[1])[:12]),
            'timeouts_inconclusive': tot['timeouts'],
            'harness_errors': tot['harness_errors'], 'harness_error_samples': hsamples[:3],
            'known_finding_hits': tot['known_hits'],
            'shards': nshards, 'cases_requested': ncases,
            'class_counts': dict(sorted(tags.items(), key=lambda kv: -kv[1])),
            'unconfirmed_failures': unconfirmed,
        },
        'assumptions': spec.assumptions,
        'wall_s': round(wall, 2),
        'violations': 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    if violation:
        rdir = os.path.join(VERIF, 'replay')
        os.makedirs(rdir, exist_ok=True)
        name = hashlib.sha1(json.dumps(violation, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(rdir, '%s-%s.json' % (prop, name))
        with open(path, 'w') as f:
            json.dump(violation, f, indent=1)
        print('failing case: %s' % json.dumps(violation['cases'][-1])[:2000])
        print('why: %s' % violation['why'][:2500])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        print('HARNESS-ERROR %s: %s' % (prop, errors[0][-3000:]), file=sys.stderr)
        return 2
    print('OK %s: %d cases, %d distinct non-trivial, %d discarded, %d inconclusive, %.1fs'
          % (prop, tot['evaluations'], len(hashes), tot['discards'], tot['timeouts'], wall))
    if hsamples:
        print('note: %d cases not decided because the harness failed, e.g.\n%s'
              % (tot['harness_errors'], hsamples[0][-1500:]))
    if unconfirmed:
        print('note: %d failures did not reproduce in a fresh process (recorded in evidence)'
              % len(unconfirmed))
    return 0


def still_fails(lib, prop, k, scratch):
    """Does the recorded case of a known finding still fail?"""
    w = Worker(lib, prop, cwd=scratch)
    w.start()
    try:
        res = w.run(dict(k['case'], probe=True), timeout=120)
        return bool(res) and res['status'] == 'fail'
    finally:
        w.stop()


def confirm(lib, prop, failure, scratch):
    """A failure counts when it shows again in a fresh worker, alone or after
    the cases that ran before it in the same worker."""
    for cases in ([failure['case']], failure.get('history', []) + [failure['case']]):
        w = Worker(lib, prop, cwd=scratch)
        w.start()
        try:
            res = None
            for c in cases:
                res = w.run(c, timeout=120)
                if res is None:
                    break
            if res and res['status'] == 'fail':
                return {'property': prop, 'why': res['why'], 'cases': cases}
            if res and res['status'] == 'error':
                raise HarnessError(res['why'])
        finally:
            w.stop()
        if len(failure.get('history', [])) == 0:
            break
    return None


if __name__ == '__main__':
    main()

"""One shard: Hypothesis generates cases, a PyPy worker decides them."""
import hashlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from client import Worker, HarnessError  # noqa: E402
import registry  # noqa: E402


class Stop(KeyboardInterrupt):
    pass


class Fail(Exception):
    pass


def main():
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, 9, 0, 0, 0)        # die with the driver
    except Exception:
        pass
    prop, tier, seed, sh, nsh, ncases, budget, lib, out = sys.argv[1:]
    seed, sh, nsh, ncases, budget = int(seed), int(sh), int(nsh), int(ncases), float(budget)
    spec = registry.SPECS[prop]
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    w = Worker(lib, prop, cwd=os.path.dirname(out))
    stats = dict(evaluations=0, ok=0, discards=0, timeouts=0, known_hits=0,
                 harness_errors=0, harness_samples=[],
                 hashes=[], tags={}, samples=[], discard_reasons={})
    hashes = set()
    state = dict(best=None, best_size=None, t_fail=None, history=[], error=None)
    t0 = time.time()
    SHRINK = 25 if tier == 'quick' else 90
    known = registry.known_matchers(prop)

    def body(case):
        now = time.time()
        if state['t_fail'] is None:
            if now - t0 > budget:
                raise Stop()
        elif now - state['t_fail'] > SHRINK:
            raise Stop()
        stats['evaluations'] += 1
        try:
            res = w.run(case, timeout=spec.case_timeout)
        except HarnessError as e:
            state['error'] = '%s\ncase: %s' % (e, json.dumps(case)[:3000])
            raise Stop()
        if res is None:
            stats['timeouts'] += 1
            state['history'] = []
            return
        st = res['status']
        if st == 'error':
            # The harness itself failed on this case: it decides nothing.
            stats['harness_errors'] += 1
            if len(stats['harness_samples']) < 2:
                stats['harness_samples'].append('%s\ncase: %s' % (res['why'], json.dumps(case)[:3000]))
            if stats['harness_errors'] > 10 + stats['evaluations'] // 20:
                state['error'] = stats['harness_samples'][0]
                raise Stop()
            return
        for t in res.get('tags', ()):
            stats['tags'][t] = stats['tags'].get(t, 0) + 1
        if st == 'discard':
            stats['discards'] += 1
            k = res.get('why', '')[:60]
            stats['discard_reasons'][k] = stats['discard_reasons'].get(k, 0) + 1
            return
        if st == 'fail':
            if any(m(case, res['why']) for m in known):
                stats['known_hits'] += 1
                return
            size = len(json.dumps(case))
            if state['t_fail'] is None:
                state['t_fail'] = time.time()
                state['first_history'] = list(state['history'][-300:])
            if state['best'] is None or size <= state['best_size']:
                state['best'] = {'case': case, 'why': res['why'],
                                 'history': state['first_history']}
                state['best_size'] = size
            raise Fail(res['why'])
        state['history'].append(case)
        if len(state['history']) > 600:
            del state['history'][:300]
        stats['ok'] += 1
        if res.get('nt'):
            h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
            if h not in hashes:
                hashes.add(h)
                if len(stats['samples']) < 2 and len(hashes) % 7 == 3:
                    stats['samples'].append(case)

    n = max(1, (ncases + nsh - 1) // nsh)

    def search(strat, n, seed):
        test = hypothesis.seed(seed)(
            settings(max_examples=n, database=None, deadline=None, derandomize=False,
                     phases=[Phase.generate, Phase.shrink], print_blob=False,
                     report_multiple_bugs=False,
                     suppress_health_check=list(HealthCheck))(
                given(strat)(body)))
        test()
    try:
        w.start()
        parts = spec.partitions(tier)
        if parts is None:
            search(spec.strategy(tier), n, seed * 1000 + sh)
        else:
            # Every part of the domain gets its own searches, in rounds.
            mine = parts[sh::nsh]
            k = 4
            rounds = max(1, n // (k * len(mine)))
            for r in range(rounds):
                for i, (part, wt) in enumerate(mine):
                    search(part, int(k * wt), (seed * 1000 + sh) * 1000003 + r * 1009 + i)
                k = 12
    except Stop:
        pass
    except Fail:
        pass
    except HarnessError as e:
        state['error'] = str(e)
    except BaseException:
        if state['best'] is None:
            state['error'] = traceback.format_exc()
    finally:
        w.stop()
    stats['hashes'] = sorted(hashes)
    res = {'stats': stats, 'failure': state['best'], 'error': state['error']}
    tmp = out + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(res, f)
    os.replace(tmp, out)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()

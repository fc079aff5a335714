"""Entry point: runs one property's check or replays one saved case."""

import importlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

from vlib import core

T0 = time.time()
BUDGET = {'quick': 330.0, 'thorough': 5400.0}  # generation stops after this
SHRINK = {'quick': 40.0, 'thorough': 180.0}
CASE = {'quick': 270.0, 'thorough': 1200.0}  # no case takes anywhere near this


class Late(BaseException):
    pass


def _late(*_):
    raise Late()


def timed(sub, case, limit):
    """core.evaluate, but a case which never ends is a violation."""
    signal.signal(signal.SIGALRM, _late)
    signal.setitimer(signal.ITIMER_REAL, max(limit, 1.0))
    try:
        return core.evaluate(sub, case)
    except Late:
        return core.Rec(), core.Violation('no result after %d s, cases take a few seconds' % limit)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def load(prop):
    return importlib.import_module('checks.%s' % prop.lower())


def known():
    """Keys of recorded (not repaired) findings: {property: {key: text}}."""
    out = {}
    path = os.path.join(core.HOME, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: '):
                parts = line.split(' ', 3)
                prop = parts[1].split('=', 1)[1]
                key = parts[2].split('=', 1)[1]
                out.setdefault(prop, {})[key] = parts[3]
    return out


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.known = {}
        self.skipped = 0


def run_task(prop, subname, shard, n, seed, tier, deadline):
    """Run one shard of one sub-check in this process."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    mod = load(prop)
    sub = {s.name: s for s in mod.SUBCHECKS}[subname]
    st = Stats()
    kn = known().get(prop, {})
    fail = {}

    def body(case):
        if fail and time.time() > fail['until']:
            raise core.Abort()
        if not fail and time.time() > deadline:
            st.skipped += 1
            return
        if fail:
            left = fail['until'] - time.time()
            t1 = time.time()
            rec, viol = timed(sub, case, left)
            if time.time() - t1 >= left:
                raise core.Abort()
        else:
            rec, viol = timed(sub, case, CASE[tier])
        if not fail:
            st.evaluations += 1
            for lb in rec.labels:
                st.labels[lb] = st.labels.get(lb, 0) + 1
            if rec.nontrivial:
                d = core.digest(case)
                if d not in st.nontrivial:
                    st.nontrivial.add(d)
                    if len(st.samples) < 2:
                        st.samples.append(case)
        if viol is None:
            return
        if viol.key is not None and viol.key in kn:
            st.known[viol.key] = kn[viol.key]
            return
        size = len(core.canon(case))
        if not fail:
            fail['until'] = time.time() + SHRINK[tier]
        if 'size' not in fail or size <= fail['size']:
            fail.update(size=size, case=case, msg=str(viol))
        raise viol

    phases = (Phase.explicit, Phase.generate, Phase.shrink)
    test = settings(
        max_examples=n,
        database=None,
        deadline=None,
        phases=phases,
        report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck),
        print_blob=False,
    )(hypothesis.seed(seed)(given(sub.strategy())(body)))
    err = None
    try:
        test()
    except core.Abort:
        pass
    except core.Violation:
        pass
    except BaseException as exc:  # Flaky and the like after a real failure
        if not fail:
            err = ''.join(
                traceback.format_exception(type(exc), exc, exc.__traceback__)
            )[-4000:]
    return dict(
        sub=subname,
        shard=shard,
        evaluations=st.evaluations,
        nontrivial=sorted(st.nontrivial),
        labels=st.labels,
        samples=st.samples,
        known=st.known,
        skipped=st.skipped,
        fail={k: fail[k] for k in ('case', 'msg')} if fail else None,
        error=err,
    )


def child(prop, tasks, tier, deadline, q):
    real = sys.stderr
    sys.stdout = io.StringIO() if False else open(os.devnull, 'w')
    scratch = os.path.join(
        os.environ.get('VERIF_SCRATCH', '/tmp'), 'w%d' % os.getpid()
    )
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    while True:
        try:
            t = tasks.get_nowait()
        except Exception:
            time.sleep(0.02)
            try:
                t = tasks.get(timeout=0.2)
            except Exception:
                break
        if t is None:
            break
        try:
            res = run_task(prop, *t, tier, deadline)
        except BaseException as exc:
            res = dict(
                sub=t[0], shard=t[1], evaluations=0, nontrivial=[], labels={},
                samples=[], known={}, skipped=0, fail=None,
                error=''.join(
                    traceback.format_exception(
                        type(exc), exc, exc.__traceback__
                    )
                )[-4000:],
            )
        q.put(res)
    real.flush()


def main(argv):
    if argv and argv[0] == '--replay':
        return replay(argv[1])
    if argv and argv[0] == '--selftest':
        import hypothesis

        for fn in sorted(os.listdir(os.path.join(core.HOME, 'checks'))):
            if fn.startswith('c') and fn.endswith('.py'):
                load(fn[:-3])
        print('ready, hypothesis', hypothesis.__version__)
        return 0
    prop, tier = argv[0], (argv[1] if len(argv) > 1 else 'quick')
    only = argv[2] if len(argv) > 2 else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = load(prop)
    if hasattr(mod, 'preload'):
        mod.preload()
    tasks = []
    for s in mod.SUBCHECKS:
        if only and s.name != only:
            continue
        n = s.quick if tier == 'quick' else s.thorough
        if os.environ.get('VERIF_SCALE'):
            n = max(1, int(n * float(os.environ['VERIF_SCALE'])))
        shards = min(s.shards, n)
        for k in range(shards):
            m = n // shards + (1 if k < n % shards else 0)
            if m:
                tasks.append((s.name, k, m, seed * 100003 + k * 101 + 7))
    # spread the sub-checks over the workers
    tasks.sort(key=lambda t: (t[1], t[0]))
    ctx = mp.get_context('fork')
    tq, rq = ctx.Queue(), ctx.Queue()
    for t in tasks:
        tq.put(t)
    nproc = min(int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4)), len(tasks), 16)
    nproc = max(nproc, 1)
    for _ in range(nproc):
        tq.put(None)
    deadline = T0 + BUDGET[tier]
    procs = [
        ctx.Process(target=child, args=(prop, tq, tier, deadline, rq))
        for _ in range(nproc)
    ]
    for p in procs:
        p.start()
    results, fails = [], []
    hard = deadline + CASE[tier] + SHRINK[tier] + 30
    import queue as _q

    while len(results) < len(tasks):
        try:
            results.append(rq.get(timeout=1.0))
            if results[-1]['fail'] and tier == 'quick' and not fails:
                # one shrunk counterexample is enough for an answer
                fails.append(results[-1])
                break
        except _q.Empty:
            if not any(p.is_alive() for p in procs):
                try:
                    while True:
                        results.append(rq.get(timeout=0.5))
                except _q.Empty:
                    break
            if time.time() > hard:
                break
    for p in procs:
        if p.is_alive():
            p.terminate()
    for p in procs:
        p.join(10)
    fails = [r for r in results if r['fail']]
    errors = [r for r in results if r['error']]
    if not fails and len(results) < len(tasks):
        errors.append(dict(sub='*', shard=-1, error='%d of %d shards gave no result' % (len(tasks) - len(results), len(tasks))))

    # ------------------------------------------------------------- evidence
    per = {}
    for r in results:
        d = per.setdefault(r['sub'], dict(evaluations=0, nt=set(), labels={}, samples=[], skipped=0))
        d['evaluations'] += r['evaluations']
        d['skipped'] += r['skipped']
        d['nt'].update(r['nontrivial'])
        for k, v in r['labels'].items():
            d['labels'][k] = d['labels'].get(k, 0) + v
        if len(d['samples']) < 2:
            d['samples'].extend(r['samples'][:1])
    samples = []
    for name, d in per.items():
        for s in d['samples'][:2]:
            txt = core.canon(s)
            samples.append(dict(sub=name, case=json.loads(txt) if len(txt) < 4000 else txt[:4000]))
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level='exploration',
        coverage=dict(
            evaluations=sum(d['evaluations'] for d in per.values()),
            distinct_nontrivial=sum(len(d['nt']) for d in per.values()),
            rule=mod.RULE,
            samples=samples,
            per_subcheck={
                k: dict(
                    evaluations=d['evaluations'],
                    distinct_nontrivial=len(d['nt']),
                    not_run_time_budget=d['skipped'],
                    labels=dict(sorted(d['labels'].items())),
                )
                for k, d in sorted(per.items())
            },
        ),
        assumptions=getattr(mod, 'ASSUMPTIONS', []),
        wall_s=round(time.time() - T0, 2),
        violations=len(fails),
    )
    os.makedirs(os.path.join(core.HOME, 'evidence'), exist_ok=True)
    with open(os.path.join(core.HOME, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=core._default)
    # -------------------------------------------------------------- verdict
    kn = {}
    for r in results:
        kn.update(r['known'])
    for k, txt in sorted(kn.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, txt))
    if fails:
        os.makedirs(os.path.join(core.HOME, 'replays'), exist_ok=True)
        for r in fails:
            path = os.path.join(
                core.HOME, 'replays',
                '%s-%s-%s.json' % (prop, r['sub'], core.digest(r['fail']['case'])),
            )
            with open(path, 'w') as f:
                json.dump(dict(property=prop, sub=r['sub'], case=r['fail']['case'], message=r['fail']['msg']), f, indent=1, default=core._default)
            print('%s/%s: %s' % (prop, r['sub'], r['fail']['msg']))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        for r in errors[:3]:
            print('HARNESS ERROR %s shard %s\n%s' % (r['sub'], r['shard'], r['error']))
        return 3
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s' % (prop, tier, seed, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], ev['wall_s']))
    return 0


def replay(path):
    d = json.load(open(path))
    mod = load(d['property'])
    if hasattr(mod, 'preload'):
        mod.preload()
    sub = {s.name: s for s in mod.SUBCHECKS}[d['sub']]
    out, sys.stdout = sys.stdout, open(os.devnull, 'w')
    rec, viol = timed(sub, d['case'], CASE['quick'])
    sys.stdout = out
    if viol is None:
        print('replay passes')
        return 0
    print(str(viol))
    print('VIOLATION property=%s replay=%s' % (d['property'], path))
    return 1


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)

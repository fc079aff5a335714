"""C22: compiled and interpreted runs give the same results."""

import numpy as np
from hypothesis import strategies as st

from checks import c14, c15, c21
from vlib import ctrlkit, jit, nets, simkit
from vlib.core import Sub, require
from vlib.nets import fl

RULE = 'a case counts when a run took at least three steps with a nonzero flow and temperatures which differ, and was done compiled and interpreted'
ASSUMPTIONS = [
    'compiled runs take place in a process of their own on the same machine; results may differ by rounding only',
    'steps of adaptive runs may be accepted or rejected by rounding; such runs are compared at their end',
]


def preload():
    simkit.ms()
    c14.model(1)


# ------------------------------------------------- run here and in the worker
def record(s):
    out = {'time': np.asarray(s.time_vec, float)}
    for n, p in s.parts.items():
        for a in ('res', 'res_dm', 'res_dQ', 'res_Pel', 'res_Pgas', '_chp_state'):
            v = getattr(p, a, None)
            if isinstance(v, (np.ndarray, list)) and np.size(v):
                out['%s of %s' % (a, n)] = np.asarray(v, float)
    return out


def net_of(case):
    k = case['kind']
    if k == 'net':
        return dict(case['net'], timeframe=case['tf'], tf=case['steps'])
    if k == 'loop':
        return dict(ctrlkit.system(case), timeframe=case['dt'] * case['n'], tf=case['steps'])
    if k == 'condensing':
        return c14.net_condensing(case)
    if k == 'plant':
        return c15.build(case)[0]


def outcome(case):
    if case['kind'] == 'system':
        c = case['system']
        s, _, _ = c21.simulate(c, [(c['seg'], 'tes')], dict(c21.KINDS[c['kind']].args(c), df=None))
        return record(s)
    try:
        return record(simkit.run(net_of(case)))
    except (AssertionError, ValueError) as e:
        # left the range of the model, or steps beyond stability
        if 'Temperature range' in str(e) or 'stab' in str(e).lower():
            return {'stopped': np.zeros(1)}
        raise


# -------------------------------------------------------------------- compare
def compare(case, rec):
    a = outcome(case)
    how, b = jit.compiled('checks.c22', 'outcome', case)
    require(how == 'ok', 'interpreted runs end, but compiled: %s', b)
    require(('stopped' in a) == ('stopped' in b), 'only the %s run was stopped because its temperatures left the range', 'compiled' if 'stopped' in b else 'interpreted')
    if 'stopped' in a:
        rec.label('stopped')
        return
    require(sorted(a) == sorted(b), 'recorded only in one of both runs: %s', sorted(set(a) ^ set(b)))
    ta, tb = a['time'], b['time']
    same = ta.shape == tb.shape and np.abs(ta - tb).max() <= 1e-6 * max(ta[-1], 1e-3)
    require(same or case.get('adaptive'), 'steps %s and (compiled) %s', ta, tb)
    if not same:
        rec.label('other steps')
        require(abs(ta[-1] - tb[-1]) <= 0.2 * ta[-1] + 1e-3 and abs(len(ta) - len(tb)) <= 3 + 0.05 * len(ta), 'ends after %d steps at %.6g s, compiled after %d steps at %.6g s', len(ta), ta[-1], len(tb), tb[-1])
    for n in a:
        x, y = a[n], b[n]
        if not same:
            continue
        require(x.shape == y.shape, '%s: shape %s, compiled %s', n, x.shape, y.shape)
        bad = np.isnan(x) != np.isnan(y)
        d = np.where(np.isnan(x) | np.isnan(y), 0.0, np.abs(x - y))
        scale = max(1.0, float(np.nanmax(np.abs(x))) if not np.isnan(x).all() else 1.0) if 'res_d' not in n else max(float(np.nanmax(np.abs(x))) if x.size and not np.isnan(x).all() else 0.0, 1e-3)
        k = np.unravel_index(int((d / scale + bad).argmax()), d.shape)
        require(d[k] <= TOL * scale and not bad[k], '%s: %.12g in row %d, compiled %.12g', n, x[k], k[0], y[k])
    flow = any(np.abs(v).max() > 0 for n, v in a.items() if n.startswith('res_dm') and v.size)
    warm = any(np.ptp(v) > 0.1 for n, v in a.items() if n.startswith('res of') and v.size)
    rec.mark(len(ta) > 3 and flow and warm)


TOL = 1e-7


# ------------------------------------------------------------------ the cases
def steps(draw, dt):
    if draw(st.booleans()):
        return False, dict(adaptive_steps=False, timestep=dt)
    return True, dict(adaptive_steps=True, max_stepsize=draw(st.sampled_from([0.5, 5.0])), rtol=draw(st.sampled_from([1e-2, 1e-3])))


@st.composite
def networks(draw, **kw):
    case = draw(nets.networks(heat=True, **kw))
    ad, tf = steps(draw, draw(st.sampled_from([0.001, 0.005])))
    out = dict(case, kind='net', adaptive=ad, steps=tf)
    if draw(st.integers(0, 5)) == 0:
        # one temperature everywhere: the estimated error is zero
        out['labels'] = out['labels'] + ['equilibrium']
        T = draw(st.sampled_from([20.0, 65.0]))
        n = dict(out['net'])
        n['parts'] = [{k: T if k in ('T_init', 'T_amb') else v for k, v in p.items()} for p in n['parts']]
        n['bcs'] = [dict(name=b['name'], T=T) for b in n['bcs']]
        out['net'] = n
    out['tf'] = draw(fl(0.5, 3.0, 2)) if ad else tf['timestep'] * draw(st.integers(3, 40))
    return out


@st.composite
def numeric(draw):
    case = draw(c14.numeric())
    return dict(case, kind='net', adaptive=False, steps=dict(adaptive_steps=False, timestep=1e-4), tf=1e-4 * 20.5)


@st.composite
def plants(draw):
    case = draw(c15.cases())
    while sum(p[0] for p in case['pieces']) > 60 and len(case['pieces']) > 1:
        case['pieces'] = case['pieces'][:-1]
    case['pieces'][0][0] = min(case['pieces'][0][0], 60)
    case['dt'] = draw(st.sampled_from([4.0, 2.5, 3.2]))
    # water which is too hot decides by comparison
    case['hot'] = 0
    if case['eta'] + case['eta'] / case['p2h'] > 0.955:
        case['eta'] = 0.3 if case['p2h'] < 0.6 else 0.32
    return dict(case, kind='plant')


@st.composite
def loops(draw):
    case = draw(ctrlkit.loops(('PID',), 2))
    return dict(case, kind='loop', adaptive=False, steps=dict(adaptive_steps=False, timestep=case['dt']))


def run_net(case, rec):
    rec.label(*case['labels'], 'adaptive' if case['adaptive'] else 'constant')
    compare(case, rec)


def run_loop(case, rec):
    rec.label(*[c['actuator'] for c in case['ctrls']])
    compare(case, rec)


def run_plant(case, rec):
    rec.label(case['spread'], 'condensing' if case['hex'] else 'alone')
    compare(case, rec)


def run_system(case, rec):
    rec.label(case['system']['kind'])
    compare(case, rec)


def run_condensing(case, rec):
    compare(dict(case, kind='condensing'), rec)


def sysm(kind):
    return st.fixed_dictionaries(dict(kind=st.just('system'), adaptive=st.just(True), system=c21.system(kind)))


SUBCHECKS = [
    Sub('networks', networks, run_net, 160, 4000),
    Sub('numeric', numeric, run_net, 24, 600),
    Sub('control', loops, run_loop, 48, 1200),
    Sub('plants', plants, run_plant, 24, 600),
    Sub('condensing', c14.condensing, run_condensing, 24, 600),
] + [Sub(k, lambda k=k: sysm(k), run_system, 12, 160, 2) for k in ('gas', 'chp', 'lowex', 'heating')]

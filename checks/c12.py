"""C12: controllers keep actuators within all their limits."""

import numpy as np
from hypothesis import strategies as st

from vlib import ctrlkit, ctrlref, nets, simkit
from vlib.core import Sub, require
from vlib.nets import fl
from vlib.simkit import BC, GS

RULE = (
    'a case counts when an actuator moves and meets a limit, a slope, a '
    'dependency on another controller or the emergency shut-down'
)
ASSUMPTIONS = ['actuator values before the first controller call are start values']


def preload():
    simkit.ms()


def values(s, case, a):
    if a in ('w', 'v'):
        A, AB = ctrlkit.recorded(s, a)
        with np.errstate(all='ignore'):
            return np.where(np.abs(AB) < 1e-9, np.nan, np.abs(A) / np.abs(AB))
    return ctrlkit.recorded(s, a)


def run_mixed(case, rec):
    tf = dict(adaptive_steps=False, timestep=case['dt'])
    if case['adaptive']:
        tf = dict(adaptive_steps=True, max_stepsize=case['dt'], rtol=1e-2)
    s = simkit.run(dict(ctrlkit.system(case), timeframe=case['dt'] * case['n'], tf=tf))
    t = np.asarray(s.time_vec)
    dt = np.diff(t)
    got = {k['actuator']: values(s, case, k['actuator']) for k in case['ctrls']}
    names = {k['name']: k for k in case['ctrls']}
    hit = False
    hot = np.asarray(s.parts['h'].res).max(axis=1) if 'h' in s.parts else np.zeros(len(t))
    if hot.max() > 105:
        rec.label('hot')
        return
    for k in case['ctrls']:
        a, v = k['actuator'], got[k['actuator']]
        lo, hi = case['limits'][a]
        scale = max(abs(hi), abs(lo))
        c = v[2:]
        c = c[~np.isnan(c)]
        if not c.size:
            continue
        require(c.min() >= lo - 1e-9 * scale and c.max() <= hi + 1e-9 * scale, '%s is set to %r..%r, limits are %r..%r', a, c.min(), c.max(), lo, hi)
        f = case['maxflow'] if a == 'pp' and k['process_CV_mode'] == 'part_specific' else 1.0
        sat = [x * f for x in k['CV_saturation']['@tuple']]
        sl = k['slope']['@tuple']
        if sl != [0, 0]:
            d = np.diff(v[2:])
            h = dt[1 : 1 + len(d)]
            ok = ~np.isnan(d)
            up, dn = d - sl[1] * f * h, sl[0] * f * h - d
            tol = 1e-6 * scale
            require((up[ok] <= tol).all() and (dn[ok] <= tol).all(), '%s changes by more than its slope: %s per s', a, (d[ok] / h[ok])[:5])
            hit = hit or bool(np.any(np.abs(up[ok]) < tol) or np.any(np.abs(dn[ok]) < tol))
            rec.label('slope')
        elif k['cls'] == 'PID' and not k['sub_controller']:
            lo2, hi2 = max(lo, min(sat[0], hi)), min(hi, max(sat[1], lo))
            require(c.min() >= lo2 - 1e-6 * scale and c.max() <= hi2 + 1e-6 * scale, '%s is set to %r..%r, saturation is %s', a, c.min(), c.max(), sat)
        hit = hit or bool(np.any(np.isclose(c, lo)) or np.any(np.isclose(c, hi))) and np.ptp(c) > 0
        if k['sub_controller'] and sl == [0, 0]:
            if k['master_type'] == 'controller':
                mk = names[k['master_controller']]
                ma, off = mk['actuator'], float(mk['off_state'])
                if ma == 'pp' and mk['process_CV_mode'] == 'part_specific' and off:
                    continue  # off state and flow have different units
            else:
                ma, off = k['master_part'], 0.0
            mv = got[ma]
            want = ctrlkit.applied(case, k, float(k['off_state']))
            for i in range(2, len(t)):
                if np.isnan(mv[i]) or np.isnan(v[i]):
                    continue
                if 0 < abs(mv[i] - off) < 1e-9 * scale:
                    continue
                if (mv[i] != off) != (k['dependency_kind'] == 'concurrent'):
                    hit = True
                    rec.label('held off')
                    require(abs(v[i] - want) <= 1e-9 * scale, '%s runs at %r (off state %r) while its master is at %r (off state %r)', a, v[i], want, mv[i], off)
    rec.mark(hit)
    # and the complete model
    ctrlkit.run_loop(case, type(rec)())


# ------------------------------------------------------------- heater shut-down
@st.composite
def heaters(draw):
    n = draw(st.integers(3, 8))
    how = draw(st.sampled_from(['all', 'single', 'range']))
    d = dict(n=n, how=how, length=draw(fl(0.3, 4, 1)), T=draw(fl(95, 109, 1)), rate=draw(fl(1.0, 6.0, 2)), steps=draw(st.integers(12, 60)), flow=draw(st.sampled_from([0.0, 0.002, 0.03, 0.1])), bc=draw(fl(10, 90, 1)))
    if how == 'single':
        d['cells'] = draw(st.integers(0, n - 1))
    elif how == 'range':
        a = draw(st.integers(0, n - 2))
        d['cells'] = [a, draw(st.integers(a + 1, n - 1))]
    return d


def run_heater(case, rec):
    P = dict(GS, insulation_thickness=0.001)
    n = case['n']
    W = 12000.0
    h = dict(P, cls='HeatedPipe', name='h', length=case['length'], grid_points=n, heat_spread=case['how'], lower_limit=0.0, upper_limit=1e5, T_init=case['T'])
    m = n
    if 'cells' in case:
        h['heated_cells'] = case['cells']
        m = 1 if case['how'] == 'single' else case['cells'][1] - case['cells'][0]
    # power and step chosen for a heating rate of ``rate`` kelvin per step
    C = 1000.0 * 4200 * 0.0006 * case['length'] / n * m
    dt = min(0.2, 0.2 * 0.0006 * case['length'] / n * 1000 / max(case['flow'], 1e-9))
    W = round(case['rate'] * C / dt, 1)
    net = dict(
        parts=[h, dict(P, cls='PipeWithPump', name='p', length=2.0, grid_points=3, start_massflow=case['flow'], ctrl_required=False, const_val=case['flow'], lower_limit=0.0, upper_limit=1.0, maximum_flow=1.0)],
        bcs=[dict(name='BC_1', T=case['bc']), dict(name='BC_2', T=case['bc'])],
        conns=[['p', 'in', BC, 'BC_1'], ['p', 'out', 'h', 'in'], ['h', 'out', BC, 'BC_2']],
        ctrls=[nets.bang('c', 'h', 'h', W, port=0, process_CV_mode='direct', CV_saturation={'@tuple': [0.0, W]})],
        timeframe=dt * case['steps'], tf=dict(adaptive_steps=False, timestep=dt),
    )
    net['parts'][0]['upper_limit'] = W * 2
    s = simkit.run(net)
    T = np.asarray(s.parts['h'].res)
    Q = np.asarray(s.parts['h'].res_dQ)[:, 0]
    off = on = 0
    for k in range(2, len(T)):
        if T[k - 1].max() >= 110.0 + 1e-9:
            require(Q[k] == 0.0, 'heating %r W at %.6g degC', Q[k], T[k - 1].max())
            off += 1
        elif T[k - 1].max() < 110.0 - 1e-9 and max(T[k - 1][0], T[k - 1][-1]) < 110.0 - 1e-9:
            require(abs(Q[k] - W) < 1e-9 * W, 'heating %r W of %r W at %.6g degC', Q[k], W, T[k - 1].max())
            on += 1
    rec.label('shut down' if off else 'below', 'back on' if off and on and T[-1].max() < 110 else '')
    rec.mark(off > 0 and on > 0)


SUBCHECKS = [
    Sub('mixed', lambda: ctrlkit.loops(('PID', 'BangBang', 'TwoSensors'), 4), run_mixed, 600, 10000),
    Sub('dependencies', lambda: ctrlkit.histories(('PID', 'BangBang', 'TwoSensors'), 4, 2, 4, True), ctrlkit.run_history, 800, 20000),
    Sub('heater', heaters, run_heater, 160, 4000),
]

"""C06: time-dependent boundary conditions, actuator values and set points."""

import warnings

import numpy as np
from hypothesis import strategies as st

from vlib import nets, simkit, thermal
from vlib.core import Sub, require
from vlib.nets import fl, temps
from vlib.ref import RefNet
from vlib.simkit import BC

RULE = (
    'a case counts when at least one series is not constant and at least four '
    'steps were taken'
)
ASSUMPTIONS = [
    'series cover some samples more than the simulated time (documented)',
    'a step uses the value valid at its beginning; the very first step may use the '
    'start value of the actuator',
]


def preload():
    simkit.ms()


class Expected:
    """value (or admissible range) of a series at the end of a step"""

    def __init__(self, values, spacing, exact=False):
        self.v, self.dt = np.asarray(values, float), spacing
        self.exact = exact  # constant steps of exactly the spacing

    def at(self, t):
        x = t / self.dt
        i = int(np.floor(x + 1e-9))
        i = min(i, len(self.v) - 2)
        f = x - i
        return self.v[i] * (1 - f) + self.v[i + 1] * f

    def after(self, t0, t1):
        """(low, high) of the value set at the end of a step t0 -> t1"""
        if (t1 - t0) <= self.dt * (1 + 1e-9):
            v = self.at(t1)
            tol = 1e-9 * max(1.0, np.abs(self.v).max())
            if self.exact or (t1 - t0) < self.dt * (1 - 1e-9):
                return v - tol, v + tol
        i0 = int(np.floor(t0 / self.dt + 1e-9))
        i1 = int(np.ceil(t1 / self.dt - 1e-9)) + 1
        w = self.v[max(i0 - 0, 0) : i1 + 1]
        return w.min() - 1e-9, w.max() + 1e-9


def series(draw, n, lo, hi, nd=2):
    kind = draw(st.integers(0, 4))
    if kind == 0:
        return [draw(fl(lo, hi, nd))] * n
    if kind == 1:  # ramp
        a, b = draw(fl(lo, hi, nd)), draw(fl(lo, hi, nd))
        return [round(a + (b - a) * i / (n - 1), 6) for i in range(n)]
    if kind == 2:  # single jump
        a, b, k = draw(fl(lo, hi, nd)), draw(fl(lo, hi, nd)), draw(st.integers(1, n - 1))
        return [a] * k + [b] * (n - k)
    return draw(st.lists(fl(lo, hi, nd), min_size=n, max_size=n))


@st.composite
def cases(draw):
    spacing = draw(st.sampled_from([0.02, 0.05, 0.2, 0.5, 1.0, 2.0, 10.0]))
    n = draw(st.integers(4, 14))
    case = dict(spacing=spacing, n=n, series={}, labels=[])
    nb = nets.NB(draw, nets.Env(tes=True, neg=False))
    kind = draw(st.sampled_from(['chain', 'valve', 'tes']))
    case['labels'].append(kind)
    # pump
    lo = 0.0
    pump = nb.pipe('PipeWithPump', pre='pp', start_massflow=0.1, ctrl_required=False, const_val=0.1, lower_limit=-1.0, upper_limit=1.0, maximum_flow=1.0)
    b1, b2 = nb.bc(), nb.bc()
    nb.conns.append([pump['name'], 'in', b1[0], b1[1]])
    end = (pump['name'], 'out')
    if draw(st.booleans()):
        end = nb.add_pipe(end)
    if kind == 'tes':
        t = nb.tespart()
        nb.conns.append([end[0], end[1], t['name'], 'in'])
        nb.conns.append([t['name'], 'out', b2[0], b2[1]])
    elif kind == 'valve':
        m = draw(st.integers(4, 6))
        w = nb.pipe('PipeWith3wValve', pre='w', grid_points=m, valve_location=draw(st.integers(1, m - 2)), start_portA_opening=0.5, ctrl_required=False, const_val=0.5)
        b3 = nb.bc()
        nb.conns += [[end[0], end[1], w['name'], 'AB'], [w['name'], 'A', b2[0], b2[1]], [w['name'], 'B', b3[0], b3[1]]]
        if draw(st.booleans()):
            case['series']['valve:' + w['name']] = series(draw, n, 0.0, 1.0)
    else:
        nb.conns.append([end[0], end[1], b2[0], b2[1]])
    if draw(st.integers(0, 3)):
        case['series']['pump:' + pump['name']] = series(draw, n, lo, 0.5, 3)
    if draw(st.integers(0, 3)):
        case['series']['bc:' + b1[1]] = series(draw, n, 8.0, 88.0)
    if draw(st.booleans()):
        case['series']['bc:' + b2[1]] = series(draw, n, 8.0, 88.0)
    if draw(st.integers(0, 3)) == 0:
        case['series']['amb:' + pump['name']] = series(draw, n, -10.0, 60.0)
    if not case['series']:
        case['series']['bc:' + b1[1]] = series(draw, n, 8.0, 88.0)
    out = nb.done()
    case['net'] = out['net']
    case['adaptive'] = draw(st.integers(0, 3)) == 0
    case['ratio'] = draw(st.sampled_from([0.1, 0.25, 0.37, 0.5, 0.8, 1.0, 1.0, 1.0, 1.5, 2.3, 4.0]))
    return case


def run(case, rec):
    sp, n = case['spacing'], case['n']
    flat = dict(net=case['net'])
    parts, bcs = [], []
    ser = {k: {'@series': {'values': v, 'freq_s': sp}} for k, v in case['series'].items()}
    for p in flat['net']['parts']:
        p = dict(p)
        k = [x for x in ser if x.split(':')[0] in ('pump', 'valve') and x.split(':')[1] == p['name']]
        if k:
            p.pop('const_val')
            p['time_series'] = ser[k[0]]
            if p['cls'] == 'PipeWithPump':
                p['start_massflow'] = case['series'][k[0]][0]
            else:
                p['start_portA_opening'] = case['series'][k[0]][0]
        parts.append(p)
    for b in flat['net']['bcs']:
        k = 'bc:' + b['name']
        bcs.append({'name': b['name'], 'series': ser[k]['@series']} if k in ser else b)
    # stable steps only
    r = RefNet(case['net'])
    pump = [p['name'] for p in parts if p['cls'] == 'PipeWithPump'][0]
    valve = [p['name'] for p in parts if p['cls'] == 'PipeWith3wValve']
    fmax = max(case['series'].get('pump:' + pump, [0.1]))
    r.rhs(r.init_state(), r.port_flows({pump: fmax}, {w: 0.5 for w in valve}), terms=True)
    if any(p['cls'] == 'Tes' for p in parts):
        inv = {m: np.linspace(7, 90, v.size) for m, v in r.init_state().items()}
        r.rhs(inv, r.port_flows({pump: fmax}, {w: 0.5 for w in valve}), terms=True)
    dt = min(case['ratio'] * sp, 0.25 / r.rate)
    total = min((n - 3) * sp, 60 * dt)
    tf = dict(adaptive_steps=False, timestep=dt)
    if case['adaptive']:
        tf = dict(adaptive_steps=True, max_stepsize=min(dt * 3, sp * 2), rtol=1e-2)
    elif total > (n - 2) * sp - 1.01 * dt:
        total = max((n - 2) * sp - 1.01 * dt, 0.5 * sp)
    if total < 3 * dt:
        dt = total / 6
        tf = dict(adaptive_steps=False, timestep=dt)
    net = dict(case['net'], parts=parts, bcs=bcs, timeframe=total, tf=tf, disk=dict(save=False, start_date='infer'))
    s = simkit.build(net)
    for k in ser:
        if k.startswith('amb:'):
            part = s.parts[k[4:]]
            var = 'T_amb' if hasattr(part, 'T_amb') else '_T_amb'
            with simkit.quiet(), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                s.assign_boundary_cond(time_series=simkit.mkseries(ser[k]['@series']), part=k[4:], variable_name=var, array_index=0)
    s = simkit.run(s)
    t = np.asarray(s.time_vec)
    steps = np.diff(t)
    exact = not case['adaptive'] and tf['timestep'] == sp
    rec.label(*['steps = spacing'] * exact)
    exp = {k: Expected(v, sp, exact) for k, v in case['series'].items()}
    rec.label(*case['labels'])
    rec.label(*[k.split(':')[0] for k in case['series']])
    rec.label('adaptive' if case['adaptive'] else 'steps > spacing' if steps.max() > sp * 1.001 else 'steps <= spacing')
    rec.mark(len(t) > 4 and any(len(set(v)) > 1 for v in case['series'].values()))
    # ------------------------------------------------ actuators: recorded flows
    dm = np.asarray(s.parts[pump].res_dm)[:, 0]
    if 'pump:' + pump in exp:
        e = exp['pump:' + pump]
        require(abs(dm[1] - e.v[0]) < 1e-9, 'first step runs with %r kg/s instead of %r kg/s', dm[1], e.v[0])
        for k in range(2, len(t)):
            lo, hi = e.after(t[k - 2], t[k - 1])
            require(lo <= dm[k] <= hi, 'pump runs at %.10g kg/s after %.6g s (previous step %.6g s), the series gives %.10g..%.10g', dm[k], t[k - 1], t[k - 1] - t[k - 2], lo, hi)
    else:
        require(np.abs(dm[1:] - 0.1).max() < 1e-9, 'constant pump flow changed: %s', dm)
    for w in valve:
        part = [p for p in r.parts if p == w][0]
        rd = np.asarray(s.parts[w].res_dm)
        e = exp.get('valve:' + w)
        for k in range(1, len(t)):
            if abs(dm[k]) < 1e-9:
                continue
            # A is at the first cell, AB at the last one, flow enters at AB
            x = rd[k, 0] / -dm[k]
            if e is None:
                require(abs(x - 0.5) < 1e-9, 'constant valve opening changed to %r', x)
            elif k == 1:
                require(abs(x - e.v[0]) < 1e-9, 'valve starts at %r instead of %r', x, e.v[0])
            else:
                lo, hi = e.after(t[k - 2], t[k - 1])
                require(lo <= x <= hi, 'valve is open by %.10g after %.6g s, the series gives %.10g..%.10g', x, t[k - 1], lo, hi)
    # ----------------------------------------- temperatures: replay of the steps
    tk = [k for k in exp if k.split(':')[0] in ('bc', 'amb')]
    if not tk:
        return
    for k in sorted(set(np.linspace(6, len(t) - 1, 5).astype(int))):
        if k < 6 or k >= len(t):
            continue
        if steps[k - 2] >= sp * (1 - 1e-9):
            continue  # averaged value: only bounded, see the flows
        bcT = {}
        for b in net['bcs']:
            key = 'bc:' + b['name']
            bcT[b['name']] = exp[key].at(t[k - 1]) if key in exp else b['T']
        for key in tk:
            if key.startswith('amb:'):
                r.parts[key[4:]].g.T_amb = exp[key].at(t[k - 1])
        vv = {w: (np.asarray(s.parts[w].res_dm)[k, 0] / -dm[k] if abs(dm[k]) > 1e-9 else 0.5) for w in valve}
        pf = r.port_flows({pump: float(dm[k])}, vv)
        st0, st1 = thermal.series_state(s, r, k - 1), thermal.series_state(s, r, k)
        h = t[k] - t[k - 1]
        ref, pred, m0 = thermal.heun_reference(r, pf, None, st0, h, bcT0=bcT)
        near = thermal.neighbourhood(r, m0)
        for nme in ref:
            d = np.abs(ref[nme] - st1[nme])
            # the loss coefficient follows moving ambients and flows with delay
            w = dm[k - 5 : k + 1]
            tol = 0.02 if any(x.startswith('amb:') for x in tk) else 5e-3
            tol = 0.1 if np.ptp(w) > 1e-3 * np.abs(w).max() else tol
            lim = tol * h * (m0[nme] + 0.05 * near[nme]) + 1e-8
            i = int((d / lim).argmax())
            require(
                d[i] <= lim[i],
                't=%.6g s %r cell %d: %.8g -> %.8g degC, with the series values at that time %.8g degC (open ports %s)',
                t[k - 1], nme, i, st0[nme][i], st1[nme][i], ref[nme][i], bcT,
            )


# --------------------------------------------------------------- set points
@st.composite
def setpoints(draw):
    n = draw(st.integers(6, 14))
    return dict(
        values=series(draw, n, 20.0, 60.0), spacing=draw(st.sampled_from([0.5, 1.0, 2.0])),
        ratio=draw(st.sampled_from([0.2, 0.5, 0.9])), T=draw(temps(20, 60)),
        power=float(draw(st.integers(200, 6000))), hyst=draw(fl(0.1, 4.0, 1)),
    )


def run_setpoint(case, rec):
    sp, n = case['spacing'], len(case['values'])
    dt = sp * case['ratio']
    P = dict(simkit.GS, T_init=case['T'])
    net = dict(
        parts=[
            dict(P, cls='HeatedPipe', name='h', length=2.0, grid_points=4, heat_spread='all', lower_limit=0.0, upper_limit=1e5),
            dict(P, cls='PipeWithPump', name='p', length=1.0, grid_points=3, start_massflow=0.02, ctrl_required=False, const_val=0.02, lower_limit=0.0, upper_limit=1.0, maximum_flow=1.0),
        ],
        bcs=[dict(name='BC_1', T=15.0), dict(name='BC_2', T=15.0)],
        conns=[['p', 'in', BC, 'BC_1'], ['p', 'out', 'h', 'in'], ['h', 'out', BC, 'BC_2']],
        ctrls=[nets.bang('c', 'h', 'h', case['power'], port=3, process_CV_mode='direct', setpoint=float(case['values'][0]), hysteresis=case['hyst'])],
        timeframe=(n - 3) * sp, tf=dict(adaptive_steps=False, timestep=dt),
    )
    s = simkit.build(net)
    with simkit.quiet():
        s.assign_boundary_cond(time_series=simkit.mkseries(dict(values=case['values'], freq_s=sp)), control='c')
    s = simkit.run(s)
    t = np.asarray(s.time_vec)
    T = np.asarray(s.parts['h'].res)[:, 3]
    Q = np.asarray(s.parts['h'].res_dQ)[:, 0]
    e = Expected(case['values'], sp)
    sw = 0
    for k in range(2, len(t)):
        # the controller runs after step k-1, with the set point of its start
        sv = e.at(t[k - 2]) if k > 2 else case['values'][0]
        lo, hi = sv - case['hyst'] / 2, sv + case['hyst'] / 2
        if abs(T[k - 1] - lo) < 1e-6 or abs(T[k - 1] - hi) < 1e-6:
            continue
        want = case['power'] if T[k - 1] < lo else 0.0 if T[k - 1] > hi else Q[k - 1]
        require(abs(Q[k] - want) < 1e-9, 't=%.6g s: heating %.6g W, expected %.6g W (%.6g degC, set point %.6g +- %.3g degC)', t[k - 1], Q[k], want, T[k - 1], sv, case['hyst'] / 2)
        sw += Q[k] != Q[k - 1]
    rec.label('switches>0' if sw else 'no switch')
    rec.mark(sw > 0 and len(set(case['values'])) > 1)


SUBCHECKS = [
    Sub('series', cases, run, 400, 12000),
    Sub('setpoint', setpoints, run_setpoint, 160, 4000),
]

"""C15: combined heat and power plants."""

import numpy as np
from hypothesis import strategies as st

from checks import c14
from vlib import simkit, thermal
from vlib.core import Sub, require
from vlib.nets import fl
from vlib.ref import RefNet
from vlib.simkit import BC, GS

RULE = 'a case counts when the plant starts at least once'
ASSUMPTIONS = [
    'the demanded modulation comes from a time series without samples shorter than the step; steps of constant length',
    'thresholds of time are not hit exactly (the limits are no multiples of the step)',
]


def preload():
    simkit.ms()


# characteristic curves of the plant (EC Power XRGi20), as documented
def f_th(t):
    return 1 / (1 + (1 / 4.3715647889609857e-4 - 1) * np.exp(-8.61423130773867e-3 * t))


def f_el(t):
    s, b, k = 4.6611096613889975, -3.6832212021813398e-09, 0.9997484824090741
    return s - (s - b) * k ** t


def f_gas(t):
    return f_el(t) / 0.32733 + f_th(t) / 0.6334


def p_th(m):
    return 0.60275 - (0.60275 - 0.972917) * 3.5990506789130166 ** m


def p_gas(m):
    return -1.17 + (1.17 + 0.995828402366862) * 1.9507547298681704 ** m


def f_off(t):
    return -1.2532286835042036e-09 * (t - 927.5198588530006) ** 3


def clip(x):
    return min(max(x, 0.0), 1.0)


@st.composite
def cases(draw):
    dt = float(draw(st.sampled_from([4, 6, 10])))
    d = dict(
        dt=dt, rise=float(draw(st.sampled_from([5, 20, 35, 50, 60, 75]))), p2h=draw(st.sampled_from([0.516796, 0.6, 0.8, 0.55])), eta=draw(st.sampled_from([0.32733, 0.25, 0.3])),
        lo=draw(st.sampled_from([0.5, 0.3, 0.6])), hi=draw(st.sampled_from([1.0, 1.0, 0.8])), slope=draw(st.sampled_from([0.05, 0.01, 0.002, 1.0])),
        on=draw(st.integers(0, 40)) * dt + 0.37 * dt, off=draw(st.integers(0, 40)) * dt + 0.37 * dt, n=draw(st.integers(2, 6)),
        spread=draw(st.sampled_from(['all', 'single', 'range'])), cell=draw(st.integers(0, 20)), flow=draw(st.sampled_from([0.05, 0.1, 0.2, 0.4])),
        Tin=draw(fl(20, 60, 1)), hot=draw(st.sampled_from([0, 0, 0, 1, 1, 2])), hex=draw(st.integers(0, 2)) == 0, fg=draw(st.sampled_from([None, 0.8, 1.5])),
    )
    d['el'] = float(round(d['rise'] * d['flow'] * 4186 * d['p2h']))
    # demand: pieces of constant modulation, some of them ramps
    pieces = []
    for _ in range(draw(st.integers(2, 8))):
        pieces.append([draw(st.integers(1, 30)), draw(st.sampled_from([0.0, 0.0, 0.2, 0.45, 0.5, 0.55, 0.7, 0.9, 1.0, 1.0]))])
    if draw(st.booleans()):
        pieces.append([draw(st.sampled_from([60, 90])), draw(st.sampled_from([0.7, 1.0]))])
        pieces.append([draw(st.integers(1, 40)), 0.0])
        pieces.append([draw(st.integers(1, 40)), 1.0])
    if draw(st.integers(0, 3)) == 0:
        # started, stopped, started again while warm, stopped until it is cold, started
        pieces = [[int(600 / dt), 1.0], [draw(st.integers(1, 15)), 0.0], [draw(st.integers(1, 30)), 0.9], [int(draw(st.sampled_from([300, 950])) / dt), 0.0], [8, 1.0]]
        d['on'] = min(d['on'], 20.37)
    d['pieces'] = pieces
    # times (in steps) at which the water before the plant gets hot and cold again
    d['heat'] = [draw(st.integers(1, 100)), draw(st.integers(1, 80)), draw(st.sampled_from([80.0, 77.0, 90.0]))]
    d['pulses'] = None
    if draw(st.integers(0, 4)) == 0:
        # hot again and again, with pauses in between
        d['hot'] = 1
        d['heat'] = [draw(st.integers(5, 30)), 0, draw(st.sampled_from([85.0, 92.0]))]
        d['Tin'] = draw(st.sampled_from([50.0, 60.0, 66.0]))
        d['pulses'] = [int(draw(st.sampled_from([80, 100, 120, 150])) / dt), int(draw(st.sampled_from([40, 60, 100])) / dt), draw(st.integers(2, 5))]
        d['pieces'] = [[sum(d['pulses'][:2]) * d['pulses'][2] + 25, draw(st.sampled_from([0.6, 0.8, 1.0]))]] + pieces[-1:]
        d['flow'] = draw(st.sampled_from([0.6, 1.0]))
        d['rise'] = float(draw(st.sampled_from([3, 6, 10])))
        d['el'] = float(round(d['rise'] * d['flow'] * 4186 * d['p2h']))
    return d


def build(case):
    dt = case['dt']
    dem = [v for n, v in case['pieces'] for _ in range(n)]
    steps = len(dem)
    dem = dem + dem[-1:] * 8
    T = [case['Tin']] * len(dem)
    if case['hot']:
        a, n, v = case['heat']
        for i in range(min(a, len(T)), min(a + n, len(T))):
            T[i] = v
        if case['pulses']:
            up, pause, many = case['pulses']
            for j in range(many):
                for i in range(a + j * (up + pause), min(a + j * (up + pause) + up, len(T))):
                    T[i] = v
    n = case['n'] + 1
    P = dict(GS, pipe_specs={'all': {'pipe_type': 'EN10255_medium', 'DN': 'DN100'}}, T_init=case['Tin'])
    kw = {}
    cells = list(range(n))
    if case['spread'] == 'single':
        kw['heated_cells'] = case['cell'] % n
        cells = [case['cell'] % n]
    elif case['spread'] == 'range':
        a = case['cell'] % (n - 1)
        b = a + 1 + (case['cell'] // 3) % (n - 1 - a)
        kw['heated_cells'] = [a, b]
        cells = list(range(a, b))
    if case['fg'] is not None:
        kw['fluegas_flow'] = case['fg']
    if case['hex']:
        kw.update(connect_fluegas_hex=True, fg_hex_name='x')
    else:
        kw['connect_fluegas_hex'] = False
    f = case['flow']
    chp = dict(
        P, cls='CHPPlant', name='chp', length=1.2 * n, grid_points=n, power_electrical=case['el'], modulation_range=[case['lo'], case['hi']], heat_spread=case['spread'],
        p2h_ratio=case['p2h'], eta_el=case['eta'], max_slope_el=case['slope'], min_on_time=case['on'], min_off_time=case['off'], lower_limit=0.0, upper_limit=1.0, start_modulation=dem[0],
        ctrl_required=False, time_series={'@series': dict(values=dem, freq_s=dt)}, **kw
    )
    pp = dict(P, cls='PipeWithPump', name='pp', length=1.5, grid_points=2, start_massflow=f, ctrl_required=False, const_val=f, lower_limit=-1.0, upper_limit=9.0, maximum_flow=9.0)
    q = dict(P, cls='Pipe', name='q', length=2.0, grid_points=2)
    bcs = [dict(name='BC_a', series=dict(values=T, freq_s=dt)) if case['hot'] else dict(name='BC_a', T=case['Tin']), dict(name='BC_b', T=case['Tin'])]
    conns = [[BC, 'BC_a', 'pp', 'in'], ['pp', 'out', 'chp', 'in'], ['chp', 'out', 'q', 'in'], ['q', 'out', BC, 'BC_b']]
    parts = [pp, chp, q]
    plain = dict(parts=[dict(p) for p in parts], bcs=[dict(name=b['name'], T=case['Tin']) for b in bcs], conns=list(conns))
    if case['hex']:
        x = dict(
            P, cls='HEXCondPoly', name='x', regression_pipeline=c14.model(0), max_gas_Nm3h=5000.0, fluegas_flow_range={'@tuple': [0.0, 1.05]}, water_flow_range={'@tuple': [0.0, 1.05]},
        )
        bcs += [dict(name='BC_c', T=90.0), dict(name='BC_d', T=40.0)]
        conns = conns[:3] + [['q', 'out', 'x', 'water_in'], ['x', 'water_out', BC, 'BC_b'], ['x', 'fluegas_in', BC, 'BC_c'], ['x', 'fluegas_out', BC, 'BC_d']]
        parts = [pp, x, chp, q]
    net = dict(parts=parts, bcs=bcs, conns=conns, timeframe=dt * (steps - 0.5), tf=dict(adaptive_steps=False, timestep=dt))
    return net, plain, dem, cells


def run(case, rec):
    net, plain, dem, cells = build(case)
    if case['eta'] + case['eta'] / case['p2h'] > 0.961:
        # more heat and power than gas
        try:
            simkit.build(net)
        except AssertionError:
            rec.label('refused')
            return
        require(False, 'a plant with an efficiency of %.3f was accepted', case['eta'] * (1 + 1 / case['p2h']))
    try:
        s = simkit.run(net)
    except (AssertionError, ValueError) as e:
        # too hot for the model (0 < T < 150 degC), or steps beyond stability
        if 'Temperature range' in str(e) or 'stab' in str(e).lower():
            rec.label('left the range')
            return
        raise
    c = s.parts['chp']
    t = np.asarray(s.time_vec)
    T = np.asarray(c.res)
    if not np.isfinite(T).all() or T.max() > 116:
        rec.label('left the range')
        return
    state, el, dq, gas = [np.asarray(a, float).ravel() for a in (c._chp_state, c.res_Pel, c.res_dQ, c.res_Pgas)]
    n = t.size
    require(min(state.size, el.size, dq.size, gas.size) == n, 'records of %d, %d, %d, %d rows for %d steps', state.size, el.size, dq.size, gas.size, n)
    E = case['el']
    on = False
    started = t_on = None
    t_off = -1e9
    last = frac = rest = 0.0
    over = 0.0
    starts = 0
    done = off_done = True
    tol = lambda x: 1e-9 * abs(x) + 1e-6
    for k in range(1, n):
        h = t[k] - t[k - 1]
        m = dem[k - 1]
        want_on = m >= case['lo'] - 1e-12
        m = min(m, case['hi'])
        hotin, boil = T[k - 1][0] > 75, T[k - 1].max() > 110
        if on and not want_on and t[k] - t_on < case['on']:
            want_on, m = True, case['lo']
            rec.label('kept on')
        elif on and want_on:
            lim = case['slope'] * h
            if abs(m - state[k - 1]) > lim:
                m = state[k - 1] + (lim if m > state[k - 1] else -lim)
                rec.label('ramp')
        if not on and want_on and (t[k] - t_off < case['off'] or hotin or boil):
            want_on = False
            rec.label('kept off')
        if want_on and (hotin or boil):
            if boil or over > 120:
                want_on = False
                rec.label('emergency' if boil else 'shut down')
            else:
                over += h
        else:
            if over and want_on and case['pulses']:
                rec.label('hot for %d s' % (over // 20 * 20))
            over = 0.0
        if want_on and not on:
            starts += 1
            t_on = t[k]
            rest = 0.0
            done = False
            if frac > 0.01:
                # startup continues where its curve shows the heat which is left
                rest = np.log((1 / 4.3715647889609857e-4 - 1) / (1 / min(frac, 0.999) - 1)) / 8.61423130773867e-3
                rec.label('warm start')
        if on and not want_on:
            t_off = t[k]
            off_done = False
        if want_on != on or k == 1:
            last = dq[k - 1]
        on = want_on
        if not on:
            require(state[k] == 0 and el[k] == 0 and gas[k] == 0, 'plant is off at %.6g s: state %r, power %r W, gas %r W', t[k], state[k], el[k], gas[k])
            frac = f_off(t[k] - t_off)
            if off_done or frac < 0.01:
                off_done, frac = True, 0.0
            require(abs(dq[k] - last * frac) <= tol(dq[k]), 'heat %.9g W at %.6g s after the stop, %.9g W expected', dq[k], t[k] - t_off, last * frac)
            continue
        frac = 0.0
        require(abs(state[k] - m) < 1e-9, 'modulation %.9g at %.6g s, expected %.9g (demand %.4g, before %.6g)', state[k], t[k], m, dem[k - 1], state[k - 1])
        lo_hi = []
        for e in ((-2.0, 2.0) if rest else (0.0, 0.0)):
            x = t[k] - t_on + rest + e
            lo_hi.append((clip(f_el(x)), clip(f_th(x)), clip(f_gas(x))))
        if lo_hi[0][1] > 0.999:
            done = True
        if done:
            lo_hi = [(1.0, 1.0, 1.0)] * 2
        elif lo_hi[1][1] > 0.999:
            lo_hi[1] = (1.0, 1.0, 1.0)
        full = (m * E, p_th(m) * E / (p_th(1.0) * case['p2h']), p_gas(m) * E / (p_gas(1.0) * case['eta']))
        for what, got, a, b, f in zip(('electrical power', 'heat', 'gas power'), (el[k], dq[k], gas[k]), lo_hi[0], lo_hi[1], full):
            require(a * f - tol(f) <= got <= b * f + tol(f), '%s is %.9g W %.6g s after the start, %.9g to %.9g W expected', what, got, t[k] - t_on, a * f, b * f)
    rec.mark(starts > 0)
    rec.label('starts %d' % min(starts, 3), case['spread'])
    if case['hex']:
        D = np.asarray(s.parts['x'].res_dm)
        fg = 70 / 61.1 if case['fg'] is None else case['fg']
        want = gas * fg / 3.6e6
        # (the flue gas of a step is known to the exchanger one step later at most)
        got = D[:, 1]
        ok = (np.abs(got[1:] - want[1:]) <= 1e-9 * want.max() + 1e-12) | (np.abs(got[1:] - want[:-1]) <= 1e-9 * want.max() + 1e-12)
        k = int(np.flatnonzero(~ok)[0]) + 1 if not ok.all() else 0
        require(ok.all(), 'flue gas flow %.9g Nm3/s at %.6g s, %.9g expected from %.6g W of gas', got[k], t[k], want[k], gas[k])
        rec.label('flue gas')
    # the heat goes into the water of the heated cells
    if n < 6 or T.max() > 105:
        return
    r = RefNet(plain)
    pf = r.port_flows({'pp': case['flow']}, {})
    for k in {n // 3, n // 2, n - 2}:
        if k < 2:
            continue
        st0 = {x: np.asarray(s.parts[x].res)[k - 1] for x in ('pp', 'chp', 'q')}
        ref, pred, m0 = thermal.heun_reference(r, pf, {'chp': [(cells[0], cells[-1] + 1), dq[k]]}, st0, t[k] - t[k - 1])
        g, w = T[k], ref['chp']
        bad = np.abs(g - w) > 5e-3 * (t[k] - t[k - 1]) * m0['chp'] + 2e-4
        i = int(np.argmax(bad))
        require(not bad.any(), 'cell %d of the plant goes from %.7g to %.7g degC, %.7g expected with %.6g W', i, st0['chp'][i], g[i], w[i], dq[k])


SUBCHECKS = [Sub('plant', cases, run, 200, 6000)]

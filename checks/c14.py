"""C14: heat exchangers."""

import functools

import numpy as np
from hypothesis import strategies as st

from vlib import nets, simkit, thermal
from vlib.core import Sub, require
from vlib.nets import fl
from vlib.ref import PIPES, SOLIDS, RefNet, cp_w, lam_w, rho_w
from vlib.simkit import BC, GS

RULE = (
    'a case counts when both sides flow and their inlets differ by more than '
    '1 K (condensing: flows within the range of the regression or below it)'
)
ASSUMPTIONS = [
    'fluid properties of a heat exchanger are taken at the mean of the '
    'temperatures next to its ports',
    'the regression model of the condensing heat exchanger is given by the user',
]
PORTS = ('sup_in', 'sup_out', 'dmd_in', 'dmd_out')


def preload():
    simkit.ms()
    model(0)


# ------------------------------------------------------------- NTU plate hex
def run_plate(case, rec):
    s, r, pf, worst = thermal.step_check(case['net'], case['pump'], case['valve'], case['heat'])
    rec.label(*case['labels'])
    for n, p in r.parts.items():
        if p.cls != 'HeatExchanger':
            continue
        x = s.parts[n]
        R, D = np.asarray(x.res), np.asarray(x.res_dm)
        fl_ = {q: pf[(n, q)] for q in PORTS}
        sign = ''.join('+-0'[0 if fl_[q] > 0 else 1 if fl_[q] < 0 else 2] for q in ('sup_in', 'dmd_in'))
        rec.label('flows ' + sign)
        for k in (3, 6, 8):
            require(np.abs(D[k] - [fl_['sup_in'], fl_['dmd_in']]).max() < 1e-9, '%s: flows %s recorded, %s expected', n, D[k], (fl_['sup_in'], fl_['dmd_in']))
            st0, st1 = thermal.series_state(s, r, k - 1), thermal.series_state(s, r, k)
            a, b = r.shown(st0, pf), r.shown(st1, pf)
            near = [r.link[(n, q)][0] for q in PORTS]
            move = 1e-9 + 3 * max([np.abs(st1[m] - st0[m]).max() for m in near if m in st1])
            T = dict(zip(PORTS, R[k]))
            for q in PORTS:
                lo, hi = min(a[(n, q)], b[(n, q)]), max(a[(n, q)], b[(n, q)])
                require(lo - move <= T[q] <= hi + move, '%s port %s: %.8g degC, expected %.8g degC (flows %s)', n, q, T[q], b[(n, q)], fl_)
            # heat leaves the warmer side, and neither outlet passes the other inlet
            fs, fd = fl_['sup_in'], fl_['dmd_in']
            if fs and fd:
                si, so = ('sup_in', 'sup_out') if fs > 0 else ('sup_out', 'sup_in')
                di, do = ('dmd_in', 'dmd_out') if fd > 0 else ('dmd_out', 'dmd_in')
                lo, hi = min(T[si], T[di]) - 1e-9, max(T[si], T[di]) + 1e-9
                require(lo <= T[so] <= hi and lo <= T[do] <= hi, '%s: outlets %.8g, %.8g outside of the inlets %.8g, %.8g', n, T[so], T[do], T[si], T[di])
                rec.mark(abs(T[si] - T[di]) > 1.0)
                # balance: properties at the mean of the neighbouring ports
                nb = {}
                for q in PORTS:
                    on, oq = r.link[(n, q)][:2]
                    nb[q] = r.bcs[oq]['T'] if on == BC else b[(on, oq)]
                qs = abs(fs) * cp_w((nb['sup_in'] + nb['sup_out']) / 2) * (T[si] - T[so])
                qd = abs(fd) * cp_w((nb['dmd_in'] + nb['dmd_out']) / 2) * (T[do] - T[di])
                big = (abs(fs) + abs(fd)) * 4200
                require(abs(qs - qd) <= big * (move * 0.01 + 1e-9) + 1e-4 * abs(qs), '%s: supply side loses %.8g W, demand side gains %.8g W', n, qs, qd)


# --------------------------------------------------------------- numeric hex
@st.composite
def numeric(draw):
    nb = nets.NB(draw, nets.Env(zero=True))
    x = nb.hexpart('x')
    x.pop('Reynolds_correction', None)
    n = draw(st.integers(2, 6))
    if 'mass_per_plate' not in x:
        x['mass_per_plate'] = draw(fl(0.05, 0.5, 2))
        x['plate_thickness'] = x.get('plate_thickness', 0.0005)
        if 'V_channel' in x and 'depth_per_plate' not in x:
            x['depth_per_plate'] = 0.004
    if draw(st.booleans()):
        T = draw(nets.temps())
    else:
        T = {'@array': draw(st.lists(st.lists(nets.temps(), min_size=3, max_size=3), min_size=n, max_size=n))}
    x.update(cls='HexNum', flow_type='counter', grid_points=n, T_init=T)
    if draw(st.booleans()):
        x['reynolds_correction'] = float(draw(st.integers(1, 4000)))
    for side in ('sup', 'dmd'):
        i, o = side + '_in', side + '_out'
        if draw(st.integers(0, 3)) == 0:
            i, o = o, i
        e = nb.add_pump(nb.bc())
        nb.con(e, ('x', i))
        e = nb.add_pipe(('x', o))
        nb.con(e, nb.bc())
    out = nb.done()
    out['uniform'] = draw(st.integers(0, 3)) == 0
    return out


def run_numeric(case, rec):
    net = case['net']
    if case['uniform']:
        # thermal equilibrium
        T = next(p for p in net['parts'] if p['name'] == 'x')['T_amb']
        T = min(max(T, 10.0), 80.0)
        net = dict(
            net, parts=[dict(p, T_init=T, T_amb=T) for p in net['parts']],
            bcs=[dict(b, T=T) for b in net['bcs']],
        )
    d = next(p for p in net['parts'] if p['name'] == 'x')
    n = d['grid_points']
    # flows from the pipes alone: replace the part by a plain heat exchanger
    alt = {k: v for k, v in d.items()}
    alt['cls'] = 'HeatExchanger'
    r = RefNet(dict(net, parts=[alt if p['name'] == 'x' else p for p in net['parts']]))
    pf = r.port_flows(case['pump'], case['valve'])
    fs, fd = pf[('x', 'sup_in')], pf[('x', 'dmd_in')]
    # channel volume and plates (documented geometry)
    g = geometry(d)
    mat = SOLIDS[d['material']]
    V = g['V'] / n
    mw = d['mass_per_plate'] * mat['c_p'] / n
    # fast exchange between fluid and plate: bounded by alpha = 3e4 W/m2K
    rate = max(abs(fs) / g['n'][0], abs(fd) / g['n'][1]) / (V * 960) + 2 * 3e4 * g['A'] / min(mw, V * 960 * 4180)
    dt = 0.05 / rate
    net = dict(net, timeframe=dt * 12.5, tf=dict(adaptive_steps=False, timestep=dt))
    s = simkit.run(net)
    x = s.parts['x']
    t = np.asarray(s.time_vec)
    R = np.asarray(x.res)
    require(R.shape == (len(t), n, 3), 'recorded shape %s', R.shape)
    D = np.asarray(x.res_dm)
    require(np.abs(D[4] - [fs, -fd]).max() < 1e-9, 'flows %s recorded, %s expected', D[4], (fs, -fd))
    if case['uniform']:
        for m, p in s.parts.items():
            a = np.asarray(p.res)
            require(np.abs(a - T).max() < 1e-7, '%s leaves equilibrium: %.8g degC instead of %.8g degC', m, a.ravel()[np.abs(a - T).argmax()], T)
        rec.label('equilibrium')
        rec.mark(bool(fs and fd))
        return
    own = PIPES[d['pipe_specs']['all']['pipe_type']][d['pipe_specs']['all']['DN']]
    gsp = d['length'] / n
    cells = {'sup_in': (0, 0), 'sup_out': (n - 1, 0), 'dmd_out': (0, 2), 'dmd_in': (n - 1, 2)}
    lo = min(float(np.min(p.res[0])) for p in s.parts.values() if np.size(p.res[0]) > 2)
    lo = min([lo] + [b['T'] for b in net['bcs']] + [p['T_amb'] for p in net['parts']])
    hi = max(float(np.max(p.res[0])) for p in s.parts.values() if np.size(p.res[0]) > 2)
    hi = max([hi] + [b['T'] for b in net['bcs']] + [p['T_amb'] for p in net['parts']])
    require(R.min() >= lo - 1e-6 and R.max() <= hi + 1e-6, 'temperatures %.6g..%.6g leave the range %.6g..%.6g', R.min(), R.max(), lo, hi)

    def budget(k):
        """heat flowing into the plate and the channels next to it"""
        T = R[k]
        h = cp_w(T) * T
        Q, M = 0.0, 0.0
        for j, (f, m, a, b) in enumerate(((fs, g['n'][0], 'sup_in', 'sup_out'), (fd, g['n'][1], 'dmd_in', 'dmd_out'))):
            for q, inflow in ((a, f), (b, -f)):
                on, oq = r.link[('x', q)][:2]
                c = cells[q]
                if on in s.parts:
                    i = r.parts[on].ports[oq]
                    Tp = np.asarray(s.parts[on].res)[k][i]
                    sp = r.parts[on]
                    o = dict(A_i=sp.g.A_cell, A_wall=PIPES[sp.d['pipe_specs']['all']['pipe_type']][sp.d['pipe_specs']['all']['DN']]['A_wall'], gsp=sp.g.gsp, lam=sp.g.lam_wll)
                ua = (own['A_i'] + o['A_i']) / 2 / (o['gsp'] / 2 / lam_w(Tp) + gsp / 2 / lam_w(T[c])) + (own['A_wall'] + o['A_wall']) / 2 / (
                    o['gsp'] / 2 / o['lam'] + gsp / 2 / mat['lambda'])
                Q += ua * (Tp - T[c])
                M += abs(ua * (Tp - T[c]))
                if inflow > 0:
                    Q += inflow * cp_w(Tp) * Tp / m
                    M += inflow * 4200 * abs(Tp - T[c]) / m
                else:
                    Q += inflow * h[c] / m
            # cp of the cell a flow enters and leaves
        # the scheme transports cp(T)*T relative to the receiving cell, so the
        # channel as a whole takes up inflow minus outflow
        return Q, M

    # ports may touch massless pumps; only pipes are neighbours here
    hyd = [r.link[('x', q)][0] for q in PORTS]
    if any(m not in r.parts or not r.parts[m].numeric for m in hyd):
        rec.label('pump next to it')
        return
    for k in (4, 9):
        h = t[k + 1] - t[k]
        q0, m0 = budget(k)
        q1, _ = budget(k + 1)
        dT = R[k + 1] - R[k]
        Tm = (R[k + 1] + R[k]) / 2
        C = np.empty((n, 3))
        C[:, [0, 2]] = V * rho_w(Tm[:, [0, 2]]) * cp_w(Tm[:, [0, 2]])
        C[:, 1] = mw
        got = float((C * dT).sum()) / h
        tol = 2e-3 * (m0 + float(np.abs(C * dT).sum()) / h) + 1e-6
        require(abs(got - (q0 + q1) / 2) <= tol, 'channels and plate store %.8g W, %.8g W flow in (flows %s)', got, (q0 + q1) / 2, (fs, fd))
    rec.label(*case['labels'])
    rec.mark(bool(fs and fd) and float(np.ptp(R[4])) > 1.0)


# ------------------------------------------------- implicit solution of it
@st.composite
def implicit(draw):
    case = draw(numeric())
    case['big'] = draw(st.sampled_from([1.0, 1.0, 4.0, 40.0]))
    # tight tolerances: steps are rejected and repeated
    case['tol'] = draw(st.sampled_from([0.5, 1e-4, 1e-5]))
    case['n'] = draw(st.integers(8, 25))
    return case


def run_implicit(case, rec):
    net = case['net']
    d = next(p for p in net['parts'] if p['name'] == 'x')
    n = d['grid_points']
    alt = dict(d, cls='HeatExchanger')
    r = RefNet(dict(net, parts=[alt if p['name'] == 'x' else p for p in net['parts']]))
    pf = r.port_flows(case['pump'], case['valve'])
    fs, fd = pf[('x', 'sup_in')], pf[('x', 'dmd_in')]
    g = geometry(d)
    mat = SOLIDS[d['material']]
    V = g['V'] / n
    mw = d['mass_per_plate'] * mat['c_p'] / n
    rate = max(abs(fs) / g['n'][0], abs(fd) / g['n'][1]) / (V * 960) + 2 * 3e4 * g['A'] / min(mw, V * 960 * 4180)
    dt = 0.05 / rate
    T = None
    if case['uniform']:
        T = min(max(d['T_amb'], 10.0), 80.0)
        net = dict(net, parts=[dict(p, T_init=T, T_amb=T) for p in net['parts']], bcs=[dict(b, T=T) for b in net['bcs']])
    h = dt * case['big']
    own = dict(solve_implicit=True, implicit_root_diff={'@function': 'hexnum_imp_root_diff'})
    end = h * case['n']
    imp = dict(net, implicit=True, parts=[dict(p, **own) if p['name'] == 'x' else p for p in net['parts']], timeframe=end, tf=dict(adaptive_steps=True, max_stepsize=h, min_stepsize=min(1e-6, h / 100), rtol=min(case['tol'], 0.1), atol=case['tol']))
    s = simkit.run(imp)
    x = s.parts['x']
    t, R = np.asarray(s.time_vec), np.asarray(x.res)
    require(R.shape == (len(t), n, 3), 'recorded shape %s', R.shape)
    require(np.isfinite(R).all(), 'not finite')
    D = np.asarray(x.res_dm)
    require(np.abs(D[4] - [fs, -fd]).max() < 1e-9, 'flows %s recorded, %s expected', D[4], (fs, -fd))
    if T is not None:
        require(np.abs(R - T).max() < 1e-6, 'leaves equilibrium: %.8g degC instead of %.8g degC', R.ravel()[np.abs(R - T).argmax()], T)
        rec.label('equilibrium')
        rec.mark(bool(fs and fd))
        return
    e = simkit.run(dict(net, timeframe=end * 1.05 + 2 * dt, tf=dict(adaptive_steps=False, timestep=dt)))
    te, E = np.asarray(e.time_vec), np.asarray(e.parts['x'].res)
    want = np.array([[np.interp(t, te, E[:, i, j]) for j in range(3)] for i in range(n)]).transpose(2, 0, 1)
    keep = t <= te[-1]
    speed = np.abs(np.diff(E, axis=0)).max() / dt
    err = np.abs(R - want)[keep]
    k = np.unravel_index(int((np.abs(R - want) * keep[:, None, None]).argmax()), R.shape)
    require(err.max() <= 0.2 * speed * h + 1e-7, 'implicit solution with steps of %.3g s: %.8g degC in cell %s at %.6g s, explicit solution %.8g degC (changes by %.3g K per step)', h, R[k], k[1:], t[k[0]], want[k], speed * h)
    rec.label('steps x %g' % case['big'], *['repeated steps'] * bool(np.sum(s._failed_steps)))
    rec.mark(bool(fs and fd) and float(np.ptp(R[4])) > 1.0)


def geometry(d):
    from vlib.ref import plate_geometry

    g = plate_geometry(d)
    L, W, dp, rc = d['length'], d['width'], d['port_diameter'], d['corner_radius']
    corners = 4 * rc ** 2 - np.pi * rc ** 2
    A = L * W - corners - np.pi * dp ** 2
    if 'V_channel' in d:
        V = d['V_channel']
    elif 'channel_width' in d:
        V = g.gap * A
    else:
        V = (L * W - corners - 2 * np.pi * dp ** 2 / 4) * g.gap
    return dict(V=V, n=(g.n_sup, g.n_dmd), A=A * d['passes'])


# ------------------------------------------------------------ condensing hex
@functools.lru_cache(None)
def model(i):
    """Regression models of different degree (fitted to a made-up exchanger)."""
    from sklearn.decomposition import PCA
    from sklearn.linear_model import LinearRegression
    from sklearn.pipeline import make_pipeline
    from sklearn.preprocessing import PolynomialFeatures

    rng = np.random.default_rng(i)
    X = np.column_stack([rng.uniform(a, b, 300) for a, b in ((10, 70), (80, 140), (0.1, 1.1), (0.3, 1.1))])
    k = rng.uniform(2, 8)
    y = np.column_stack([
        X[:, 0] + k * X[:, 3] / X[:, 2] * 0.5 + 0.02 * (X[:, 1] - X[:, 0]),
        X[:, 0] + 5 + k * X[:, 3] - 2 * X[:, 2],
    ])
    deg, pca = ((1, 3), (2, 8), (2, 14), (3, 12))[i % 4]
    return make_pipeline(PolynomialFeatures(deg, include_bias=i % 2 == 0), PCA(pca), LinearRegression()).fit(X, y)


@st.composite
def condensing(draw):
    gas = float(draw(st.integers(20, 200)))
    d = dict(model=draw(st.integers(0, 7)), gas=gas, water=draw(st.sampled_from([None, 1e-3, 2e-3])))
    lo = draw(st.sampled_from([0.0, 0.0, 0.05, 0.2]))
    d['wr'] = [lo, draw(st.sampled_from([1.0, 1.05, 0.7]))]
    d['gr'] = [draw(st.sampled_from([0.0, 0.4])), draw(st.sampled_from([1.0, 1.05]))]
    d['fw'] = draw(st.one_of(st.just(0.0), fl(0.0, 0.12, 4), fl(0.1, 1.6, 3)))
    d['fg'] = draw(st.one_of(st.just(0.0), fl(0.02, 0.4, 3), fl(0.4, 0.99, 3)))
    d['T'] = draw(st.lists(fl(12, 68, 1), min_size=2, max_size=2)) + draw(st.lists(fl(82, 105, 1), min_size=1, max_size=1)) + [40.0]
    d['flip'] = draw(st.lists(st.booleans(), min_size=4, max_size=4))
    return d


def expected(case, Tw, Tg):
    m = model(case['model'])
    fw, fg = case['fw'], case['fg']
    excess = 0.0
    lo, hi = case['wr']
    if lo and fw < lo:
        fw = lo if fw / lo > 0.5 else 0.0
    elif fw > hi:
        excess, fw = fw - hi, hi
    lo = case['gr'][0]
    if lo and fg < lo:
        fg = lo if fg / lo > 0.5 else 0.0
    if not fw or not fg:
        return Tw, Tg
    if fw > 0.1:
        w, g = m.predict([[Tw, Tg, fw, fg]])[0]
    else:
        # parabola from the gas inlet temperature at rest to the regression at 10 %
        w1, g1 = m.predict([[Tw, Tg, 0.1, fg]])[0]
        f = ((fw - 0.1) / 0.1) ** 2
        w, g = w1 + (Tg - w1) * f, g1 + (Tg - g1) * f
    if excess:
        a, b = cp_w(Tw) * excess, cp_w(w) * hi
        w = (a * Tw + b * w) / (a + b)
    return w, g


def run_condensing(case, rec):
    for rng_, f in ((case['wr'], case['fw']), (case['gr'], case['fg'])):
        if rng_[0] and abs(f / rng_[0] - 0.5) < 1e-6:
            return  # which side half of the bound belongs to is rounding
    w, g = expected(case, case['T'][0], case['T'][2])
    if not (5 < w < 145 and 5 < g < 145):
        rec.label('regression leaves its range')
        return
    check_condensing(case, rec, simkit.run(net_condensing(case)))


def net_condensing(case):
    P = dict(GS)
    kw = {} if case['water'] is None else dict(max_water_kgs=case['water'])
    sw = (case['water'] or 1 / 700) * case['gas']
    sg = case['gas'] / 3600
    fw, fg = case['fw'] * sw, case['fg'] * sg
    Tw, Tb, Tg, Td = case['T']

    def pipe(n, T):
        return dict(P, cls='Pipe', name=n, length=5.0, grid_points=4, T_init=T)

    def pump(n, T, f):
        return dict(P, cls='PipeWithPump', name=n, length=5.0, grid_points=4, T_init=T, start_massflow=f, ctrl_required=False, const_val=f, lower_limit=-1.0, upper_limit=9.0, maximum_flow=9.0)

    x = dict(P, cls='HEXCondPoly', name='x', regression_pipeline=model(case['model']), max_gas_Nm3h=case['gas'], fluegas_flow_range={'@tuple': case['gr']}, water_flow_range={'@tuple': case['wr']}, **kw)
    conns = [['a', 'out', 'x', 'water_in'], ['x', 'water_out', 'b', 'in'], ['c', 'out', 'x', 'fluegas_in'], ['x', 'fluegas_out', 'd', 'in']]
    conns = [c[2:] + c[:2] if f else c for c, f in zip(conns, case['flip'])]
    dt = 0.02
    return dict(
        parts=[pump('a', Tw, fw), pipe('b', Tb), pump('c', Tg, fg), pipe('d', Td), x],
        bcs=[dict(name='BC_%d' % i, T=T) for i, T in enumerate((Tw, Tb, Tg, Td))],
        conns=conns + [['a', 'in', BC, 'BC_0'], ['b', 'out', BC, 'BC_1'], ['c', 'in', BC, 'BC_2'], ['d', 'out', BC, 'BC_3']],
        timeframe=dt * 8, tf=dict(adaptive_steps=False, timestep=dt),
    )


def check_condensing(case, rec, s):
    sw = (case['water'] or 1 / 700) * case['gas']
    fw, fg = case['fw'] * sw, case['fg'] * case['gas'] / 3600
    Tw, Tb, Tg, Td = case['T']
    dt = 0.02
    R, D = np.asarray(s.parts['x'].res), np.asarray(s.parts['x'].res_dm)
    if fw and fg:
        rec.label('below' if case['fw'] <= 0.1 else 'bypass' if case['fw'] > case['wr'][1] else 'range')
        rec.mark(True)
    else:
        rec.label('no flow')
    for k in (3, 6):
        require(np.abs(D[k] - [fw, fg]).max() < 1e-12, 'flows %s recorded, %s expected', D[k], (fw, fg))
        ti, tg = R[k][0]
        require(abs(ti - Tw) < 0.5 and abs(tg - Tg) < 2.0, 'inlets %.6g, %.6g degC instead of %.6g, %.6g degC', ti, tg, Tw, Tg)
        w, g = expected(case, ti, tg)
        tol = 1e-7 * (abs(w) + abs(g) + 10)
        require(abs(R[k][1, 0] - w) <= tol and abs(R[k][1, 1] - g) <= tol, 'outlets %s degC, regression gives %.8g, %.8g degC (flows %r, %r of the maximum)', R[k][1], w, g, case['fw'], case['fg'])
    # the pipe behind the exchanger receives the outlet temperature
    if fw:
        b = np.asarray(s.parts['b'].res)
        k = 4
        V = PIPES['EN10255_medium']['DN25']['A_i'] * 5.0 / 4
        T0, T1 = b[k][0], b[k + 1][0]
        Tx = R[k][1, 0]
        m = SOLIDS['carbon_steel']
        own = PIPES['EN10255_medium']['DN25']
        C = V * rho_w(T0) * cp_w(T0) + m['c_p'] * m['rho'] * own['A_wall'] * 5.0 / 4
        rate = fw * (cp_w(Tx) * Tx - cp_w(T0) * T0) / C
        loss = 0.02 * (abs(T0 - 20) + abs(b[k][1] - T0)) * 50 / C
        require(abs((T1 - T0) / dt - rate) <= 5e-3 * abs(rate) + loss + 1e-7, 'pipe behind the exchanger: dT/dt %.6g K/s, %.6g K/s expected', (T1 - T0) / dt, rate)


SUBCHECKS = [
    Sub('plate', lambda: nets.networks(kinds=('hex',), depth=1, maxlen=2), run_plate, 400, 12000),
    Sub('numeric', numeric, run_numeric, 160, 4000),
    Sub('implicit', implicit, run_implicit, 96, 2400),
    Sub('condensing', condensing, run_condensing, 240, 6000),
]

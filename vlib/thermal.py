"""Step-wise comparison of a simulated network with the reference physics."""

import numpy as np

from vlib import simkit
from vlib.core import require
from vlib.ref import RefNet


def series_state(s, r, k):
    return {n: np.array(s.parts[n].res[k]) for n, p in r.parts.items() if p.numeric}


def mixed_shown(sh_num, sh_jun, r):
    """numeric ports from one state, junction ports from another one"""
    return {
        key: (sh_num if r.parts[key[0]].numeric else sh_jun)[key] for key in sh_num
    }


def neighbourhood(r, m):
    """Largest balance term in a part and the parts connected to it (its
    change within one step is what limits the accuracy of the comparison)."""
    top = {n: float(v.max()) for n, v in m.items()}
    for _ in range(2):
        new = dict(top)
        for a, _, b, _ in r.conns:
            if a in r.parts and b in r.parts:
                x = max(top.get(a, 0.0), top.get(b, 0.0))
                new[a] = max(new.get(a, 0.0), x)
                new[b] = max(new.get(b, 0.0), x)
        top = new
    return top


def noise_flows(s, r, pf, row=1):
    """A connector port whose flow vanishes only up to rounding counts as in-
    or outflow depending on that rounding: take the recorded sign there."""
    for n, p in r.parts.items():
        if p.cls == 'Connector3w':
            rec_dm = np.asarray(s.parts[n].res_dm)[row]
            for q, v in zip('ABC', rec_dm):
                if pf[(n, q)] == 0 and abs(v) < 1e-12:
                    pf[(n, q)] = float(v)


def step_check(net, pump, valve, heat=None, nsteps=9, probe=(5, 8), tol=3e-4, rec=None, cls=None, dtfac=0.002, dtmax=0.05):
    """Run a few small constant steps and compare the temperature changes of
    every part with the reference energy balance."""
    r = RefNet(net)
    pf = r.port_flows(pump, valve)
    _, mags = r.rhs(r.init_state(), pf, heat, terms=True)
    # heaters switch off at 110 degC and may heat by hundreds of K per second
    top = max([float(m.max()) for n, m in mags.items() if heat and n in heat] + [1e-9])
    dt = min(dtmax, dtfac / max(r.rate, 1e-9), 0.3 / top)
    net = dict(net, timeframe=dt * (nsteps + 0.5), tf=dict(adaptive_steps=False, timestep=dt))
    s = simkit.run(net)
    t = np.asarray(s.time_vec)
    require(len(t) >= nsteps, 'only %d steps recorded', len(t))
    noise_flows(s, r, pf, probe[0])
    worst = {}
    for k in probe:
        st0, st1 = series_state(s, r, k), series_state(s, r, k + 1)
        h = t[k + 1] - t[k]
        sh0, sh1 = r.shown(st0, pf), r.shown(st1, pf)
        f0, m0 = r.rhs(st0, pf, heat, terms=True, shown=sh0)
        near = neighbourhood(r, m0)
        f1a = r.rhs(st1, pf, heat, shown=sh1)
        f1b = r.rhs(st1, pf, heat, shown=mixed_shown(sh1, sh0, r))
        for n in f0:
            g = (st1[n] - st0[n]) / h
            ea, eb = (f0[n] + f1a[n]) / 2, (f0[n] + f1b[n]) / 2
            lo, hi = np.minimum(ea, eb), np.maximum(ea, eb)
            # temperatures are stored with ~1e-14 relative precision
            # and a predictor step differs from the true mean where the rates
            # themselves change within the step (onset of buoyancy)
            df = np.abs(f1a[n] - f0[n])
            df = np.maximum(df, np.maximum(np.append(df[1:], 0), np.append(0, df[:-1])))
            slack = tol * (m0[n] + 0.05 * near[n]) + 0.1 * df + 2e-12 / h
            bad = np.maximum(lo - g, g - hi) / slack
            worst[n] = max(worst.get(n, 0.0), float(bad.max()))
            i = int(bad.argmax())
            require(
                bad[i] <= 1.0,
                '%s %r cell %d: dT/dt is %.8g K/s, energy balance gives %.8g K/s '
                '(balance terms up to %.3g K/s, step %d of %.3g s)',
                r.parts[n].cls, n, i, g[i], (ea[i] + eb[i]) / 2, m0[n][i], k, h,
            ) if tol else None
    return s, r, pf, worst


def heun_reference(r, pf, heat, st0, h, jun=None, bcT0=None):
    """One predictor/corrector step from st0.  ``jun``: state which the
    junctions (massless parts) showed at the beginning of the step; they are
    one solver stage behind the parts they connect."""
    sh0 = r.shown(st0, pf, bcT0)
    shown0 = mixed_shown(sh0, r.shown(jun, pf, bcT0), r) if jun is not None else sh0
    f0, m0 = r.rhs(st0, pf, heat, terms=True, shown=shown0, bcT=bcT0)
    pred = {n: st0[n] + h * f0[n] for n in f0}
    shp = r.shown(pred, pf, bcT0)
    f1 = r.rhs(pred, pf, heat, shown=mixed_shown(shp, sh0, r), bcT=bcT0)
    res = {n: st0[n] + h / 2 * (f0[n] + f1[n]) for n in f0}
    return res, pred, m0

"""C05: time marching (constant and adaptive step sizes)."""

import math

import numpy as np
from hypothesis import strategies as st

from vlib import nets, simkit, thermal
from vlib.core import Sub, require
from vlib.nets import fl
from vlib.ref import RefNet

RULE = (
    'a case counts when at least five steps were recorded and temperatures '
    'changed by more than 0.01 K'
)
ASSUMPTIONS = [
    'massless parts lag the parts they connect by one solver stage (this is '
    'how the scheme is defined); the reference step accounts for it'
]


def preload():
    simkit.ms()


def compare(r, k, h, st0, st1, ref, pred, m0, tol, loss=None):
    near = thermal.neighbourhood(r, m0)
    loss = thermal.neighbourhood(r, loss) if loss else None
    for n in ref:
        d = np.abs(ref[n] - st1[n])
        lim = tol * h * (m0[n] + 0.05 * near[n]) + 1e-9 + (1.2 * h * loss[n] if loss else 0)
        i = int((d / lim).argmax())
        require(
            d[i] <= lim[i],
            'step %d (%.6g s) %s %r cell %d: %.10g -> %.10g degC, a second order step gives %.10g degC',
            k, h, r.parts[n].cls, n, i, st0[n][i], st1[n][i], ref[n][i],
        )
    return k, h, st0, ref, pred


def replay(s, r, pf, heat, t, ks, tol=1e-3):
    """Recorded steps against reference predictor/corrector steps; yields the
    local error estimate terms."""
    thermal.noise_flows(s, r, pf)
    for k in ks:
        if k == 1:  # junctions show what they see, heaters are still off
            st0, st1 = thermal.series_state(s, r, 0), thermal.series_state(s, r, 1)
            h = t[1] - t[0]
            ref, pred, m0 = thermal.heun_reference(r, pf, None, st0, h)
            # the ambient film coefficients settle after it
            yield compare(r, k, h, st0, st1, ref, pred, m0, tol, r.loss)
            continue
        prev = thermal.series_state(s, r, k - 2)
        # junctions show what they saw in the second stage of step k-1; that
        # needs the predictor of that step, and its own junction states
        back = thermal.heun_reference(r, pf, heat, thermal.series_state(s, r, k - 3), t[k - 2] - t[k - 3])[1]
        pred1 = thermal.heun_reference(r, pf, heat, prev, t[k - 1] - t[k - 2], back)[1]
        st0, st1 = thermal.series_state(s, r, k - 1), thermal.series_state(s, r, k)
        h = t[k] - t[k - 1]
        ref, pred, m0 = thermal.heun_reference(r, pf, heat, st0, h, pred1)
        yield compare(r, k, h, st0, st1, ref, pred, m0, tol)


def pick(K, m=5):
    if K <= 6:
        return [1][:K - 1]
    ks = sorted(set(np.linspace(6, K - 1, m).astype(int)))
    return [1] + [int(k) for k in ks]


def common(case, rec, net):
    r = RefNet(net)
    pf = r.port_flows(case['pump'], case['valve'])
    s = simkit.run(net)
    t = np.asarray(s.time_vec)
    require(t.ndim == 1 and t[0] == 0.0, 'time does not start at 0: %r', t[:2])
    steps = np.diff(t)
    require((steps > 0).all(), 'time does not increase: %s', t[:-1][steps <= 0][:3])
    require(t[-1] >= net['timeframe'] * (1 - 1e-12), 'stopped at %r of %r s', t[-1], net['timeframe'])
    require(len(t) < 2 or t[-2] < net['timeframe'], 'went on after %r s to %r s of %r s', t[-2], t[-1], net['timeframe'])
    ch = 0.0
    for n, p in r.parts.items():
        R = np.asarray(s.parts[n].res)
        require(len(R) == len(t), '%s has %d rows for %d times', n, len(R), len(t))
        require(np.isfinite(R).all(), '%s has non-finite results', n)
        if p.numeric:
            T0 = r.init_state()[n]
            require(np.abs(R[0] - T0).max() < 1e-12, '%s does not start at its initial temperature', n)
            ch = max(ch, float(np.abs(R[-1] - R[0]).max()))
    dmrows = {n: np.asarray(s.parts[n].res_dm) for n in r.parts}
    for n, v in dmrows.items():
        require(len(v) == len(t), '%s has %d massflow rows for %d times', n, len(v), len(t))
    rec.label(*case['labels'])
    rec.mark(len(t) >= 6 and ch > 0.01)
    return s, r, pf, t, steps


# ------------------------------------------------------------------ adaptive
@st.composite
def adaptive(draw):
    case = draw(nets.networks(depth=1, maxlen=2, heat=draw(st.booleans())))
    tf = dict(adaptive_steps=True)
    tf['rtol'] = draw(st.sampled_from([1e-2, 1e-3, 1e-4, 1e-5]))
    if draw(st.booleans()):
        tf['atol'] = draw(st.sampled_from([1e-3, 1e-6, 1e-9]))
    big = draw(st.sampled_from([None, 0.02, 0.3, 2.0, 30.0]))
    if big:
        tf['max_stepsize'] = big
    if draw(st.integers(0, 2)) == 0:
        tf['min_stepsize'] = draw(st.sampled_from([1e-6, 1e-3, 0.01, 0.2]))
        if tf['min_stepsize'] >= tf.get('max_stepsize', 100):
            tf['min_stepsize'] = tf['max_stepsize'] / 2
    if draw(st.booleans()):
        tf['max_factor'] = draw(fl(1.1, 4.0, 1))
    if draw(st.booleans()):
        tf['min_factor'] = draw(fl(0.1, 0.8, 1))
    if draw(st.booleans()):
        tf['safety_factor'] = draw(fl(0.5, 0.95, 2))
    if draw(st.booleans()):
        tf['factor_recovery'] = draw(st.sampled_from([1, 5, 20.0]))
    case['tf'] = tf
    case['len'] = draw(fl(5.0, 80.0, 1))
    return case


def run_adaptive(case, rec):
    tf = dict(case['tf'])
    r = RefNet(case['net'])
    pf = r.port_flows(case['pump'], case['valve'])
    _, mags = r.rhs(r.init_state(), pf, case['heat'], terms=True)
    # a minimum step above the stability limit leaves no solution
    if 'min_stepsize' in tf:
        tf['min_stepsize'] = min(tf['min_stepsize'], 0.1 / max(r.rate, 1e-9))
    # heaters switch off at 110 degC: keep their total effect small
    top = max([float(m.max()) for n, m in mags.items() if n in case['heat']] + [1e-9])
    hs = min(tf.get('max_stepsize', 100.0), 0.7 / max(r.rate, 1e-9), 3.0)
    total = min(case['len'] * hs, 15.0 / top)
    if any(p.cls == 'Tes' for p in r.parts.values()):
        # mixing layers need small steps: bound the number of steps
        inv = {n: np.linspace(v.min(), v.max() + 1, v.size) for n, v in r.init_state().items()}
        r.rhs(inv, pf, case['heat'], terms=True)
        total = min(total, 250.0 / r.rate)
    # tight tolerances need many steps
    total *= {1e-4: 0.4, 1e-5: 0.15}.get(tf['rtol'], 1.0)
    net = dict(case['net'], timeframe=total, tf=tf)
    s, r, pf, t, steps = common(case, rec, net)
    big = tf.get('max_stepsize', 100.0)
    require(steps.max() <= big * (1 + 1e-9), 'step of %r s exceeds max_stepsize=%r s', steps.max(), big)
    if len(steps) > 1:
        g = (steps[1:] / steps[:-1]).max()
        mf = tf.get('max_factor', 2.0)
        require(g <= mf * (1 + 1e-6), 'step grew by a factor of %r, max_factor=%r', g, mf)
    # water never crosses more than one cell per step
    for n, p in r.parts.items():
        if p.numeric:
            f = np.abs(r.cell_flows(n, pf)).max()
            c = f * steps.max() / (p.g.V * 1000.5)
            require(c <= 1 + 1e-6, '%s: Courant number %.4g', n, c)
    rtol, atol = tf['rtol'], tf.get('atol', 1e-6)
    hmin = tf.get('min_stepsize', 1e-8)
    for k, h, st0, ref, pred in replay(s, r, pf, case['heat'], t, pick(len(t))):
        if k == 1:
            rec.label('first step repeated' if s._failed_steps[1] else 'first step at once')
            continue
        e = np.concatenate([
            ((ref[n] - pred[n]) / (np.maximum(st0[n], ref[n]) * rtol + atol)).ravel() for n in ref
        ])
        err = math.sqrt((e ** 2).mean())
        rep = float(np.asarray(s._sys_trnc_err)[k])
        require(abs(rep - err) <= 0.02 * err + 1e-3, 'step %d (%.6g s): truncation error recorded as %.6g, it is %.6g', k, h, rep, err)
        # rounding of the temperatures limits the estimate at tiny steps
        if h > hmin * (1 + 1e-9):
            require(
                err <= 1.0 + 0.02,
                'step %d (%.6g s) was accepted with an error of %.4g times the tolerance', k, h, err,
            )
        else:
            rec.label('min step')
        rec.label('err>0.3' if err > 0.3 else 'err<=0.3')


# ------------------------------------------------------------------ constant
@st.composite
def constant(draw):
    case = draw(nets.networks(depth=1, maxlen=2, heat=draw(st.booleans())))
    case['frac'] = draw(fl(0.01, 0.45, 3))
    case['n'] = draw(st.one_of(st.integers(1, 40).map(float), fl(0.1, 40, 2)))
    case['round'] = draw(st.booleans())
    return case


def run_constant(case, rec):
    r = RefNet(case['net'])
    pf = r.port_flows(case['pump'], case['valve'])
    _, mags = r.rhs(r.init_state(), pf, case['heat'], terms=True)
    if any(p.cls == 'Tes' for p in r.parts.values()):
        # fixed steps have to be stable when layers turn over, too
        inv = {n: np.linspace(v.min() - 1, v.max() + 1, v.size) for n, v in r.init_state().items()}
        r.rhs(inv, pf, case['heat'], terms=True)
    top = max([float(m.max()) for n, m in mags.items() if n in case['heat']] + [1e-9])
    dt = min(case['frac'] / max(r.rate, 1e-9), 5.0, 12.0 / top / max(case['n'], 1))
    if case['round']:
        dt = 2.0 ** math.floor(math.log2(dt))
    total = dt * case['n']
    net = dict(case['net'], timeframe=total, tf=dict(adaptive_steps=False, timestep=dt))
    s, r, pf, t, steps = common(case, rec, net)
    require(np.abs(steps - dt).max() <= 1e-9 * dt * len(t), 'steps of %r..%r s instead of %r s', steps.min(), steps.max(), dt)
    n = math.ceil(case['n'] - 1e-9)
    require(n <= len(steps) <= math.ceil(case['n'] + 1e-6) + (0 if case['round'] else 1), '%d steps of %r s for %r s', len(steps), dt, total)
    rec.label('exact multiple' if case['n'] == n else 'fractional')
    for _ in replay(s, r, pf, case['heat'], t, pick(len(t), 4)):
        pass


SUBCHECKS = [
    Sub('adaptive', adaptive, run_adaptive, 360, 12000),
    Sub('constant', constant, run_constant, 280, 8000),
]

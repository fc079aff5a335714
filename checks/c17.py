"""C17: heat transfer coefficients."""

import numpy as np
from hypothesis import strategies as st

from vlib import ref, simkit
from vlib.core import Sub, require
from vlib.nets import fl

RULE = 'a case counts when flow or temperature difference is not zero'
ASSUMPTIONS = ['VDI Waermeatlas 2013 chapters F1, F2 and G1, at the functions the parts use; water 1..98 degC, air -10..95 degC']


def preload():
    simkit.ms()


def fun(name):
    return getattr(simkit.ms().precomp_funs, name, None)


def near(got, want, what, *args, rtol=1e-7):
    got, want = np.asarray(got, float), np.asarray(want, float)
    require(
        got.shape == want.shape and (np.abs(got - want) <= rtol * np.abs(want) + 1e-300).all(),
        what + ': %s, expected %s', *args, got, want,
    )


temps = lambda: fl(1, 98, 2)
WATER = st.one_of(fl(1, 98, 2), st.sampled_from([1.0, 20.0, 98.0]))


# ----------------------------------------------------------------- inner side
@st.composite
def inner(draw):
    n = draw(st.integers(2, 8))
    d = dict(
        kind=draw(st.sampled_from(['pipe', 'pipe', 'pipe', 'wall', 'plate', 'plates'])),
        T=draw(st.lists(WATER, min_size=n, max_size=n)), Tw=draw(st.lists(WATER, min_size=n, max_size=n)),
        d=draw(st.one_of(fl(0.008, 0.1, 4), fl(0.1, 1.5, 2))), L=draw(fl(0.1, 60, 2)),
    )
    # flows around the transition and far away from it
    re = draw(st.one_of(st.just(0.0), fl(1, 2200, 1), fl(2200, 2400, 2), fl(2400, 2e5, 0)))
    d['Re'] = re
    d['sign'] = draw(st.sampled_from([1, 1, -1]))
    d['many'] = draw(st.booleans())
    if d['many']:
        d['scale'] = draw(st.lists(fl(-2, 2, 2), min_size=n, max_size=n))
    d['corr'] = draw(st.sampled_from([1e-6, 1.0, 700.0, 2500.0]))
    return d


def run_inner(case, rec):
    T = np.asarray(case['T'], float)
    n = len(T)
    di, L = case['d'], case['L']
    A = np.pi * di ** 2 / 4
    x = (np.arange(n) + 0.5) * L / n
    rho, ny, lam = ref.rho_w(T), ref.ny_w(T), ref.lam_w(T)
    dm0 = case['sign'] * case['Re'] * ref.rho_w(T[0]) * A * ref.ny_w(T[0]) / di
    kind = case['kind']
    rec.label(kind)
    rec.mark(case['Re'] > 0)
    if kind in ('pipe', 'wall'):
        if case['many']:
            dm = dm0 * np.asarray(case['scale'])
            x = np.full(n, L)  # cells of a storage: no distance from an inlet
        else:
            dm = np.array([dm0])
        Re = np.abs(dm) / (rho * A) * di / ny
        if (np.abs(Re - 2300) < 1e-4).any():
            return
        out = np.full(n, np.nan)
        want = ref.alpha_inner(dm if len(dm) == n else np.full(n, dm0), T, A, di, x)
        keep = [a.copy() for a in (dm, T, rho, ny, lam, x)]
        if kind == 'pipe':
            f = fun('pipe_alpha_i')
            if f is None:
                return
            f(dm, T, rho, ny, lam, A, di, x, out)
        else:
            f = fun('pipe_alpha_i_wll_sep')
            if f is None:
                return
            Tw = np.asarray(case['Tw'], float)
            f(dm, np.column_stack([T, Tw]), rho, ny, lam, A, di, x, out)
            want = want * (ref.pr_w(T) / ref.pr_w(Tw)) ** 0.11
        near(out, want, 'coefficient inside a pipe (d %s m, flow %s kg/s, %s degC)', di, dm, T, rtol=1e-5)
        require(all((a == b).all() for a, b in zip(keep, (dm, T, rho, ny, lam, x))), 'the arguments are changed')
        require((out >= 3.65 * lam / di * 0.7).all(), 'coefficient below the one of laminar flow: %s', out)
    else:
        gap, W = 0.002, 0.1
        A, dh = gap * W, 2 * gap
        L = 0.2 + L / 100
        Tw = np.asarray(case['Tw'], float)
        f = fun('phex_alpha_i_wll_sep' if kind == 'plate' else 'phex_alpha_i_wll_sep_discretized')
        if f is None:
            return
        m = 1 if kind == 'plate' else n
        dm = case['sign'] * case['Re'] * rho[:m] * A * ny[:m] / dh
        if (np.abs(case['Re'] + case['corr'] - 2300) < 1e-4).any():
            return
        out = np.full(m, np.nan)
        if kind == 'plate':
            f(dm, T[:1], Tw[:1], rho[:1], ny[:1], lam[:1], A, dh, L, case['corr'], out)
        else:
            f(dm, T, Tw, rho, ny, lam, A, dh, np.full(n, L), case['corr'], out)
        want = np.array([ref.alpha_plate(q, t, A, dh, L, case['corr']) for q, t in zip(dm, T)])
        want = want * (ref.pr_w(T[:m]) / ref.pr_w(Tw[:m])) ** 0.11
        near(out, want, 'coefficient in a plate channel (flow %s kg/s, %s degC)', dm, T[:m], rtol=1e-5)


# ----------------------------------------------------------------- outer side
@st.composite
def outer(draw):
    n = draw(st.integers(1, 6))
    return dict(
        kind=draw(st.sampled_from(['cylinder', 'plane', 'length', 'rayleigh'])), vertical=draw(st.booleans()),
        Ts=draw(st.lists(st.one_of(fl(-10, 95, 2), st.just(20.0)), min_size=n, max_size=n)), Ta=draw(st.one_of(fl(-10, 40, 1), st.just(20.0))),
        L=draw(st.one_of(fl(0.01, 0.3, 3), fl(0.3, 4, 2))), r=draw(fl(0.005, 1.2, 3)),
        top=draw(st.lists(st.booleans(), min_size=n, max_size=n)), w=draw(fl(0.1, 3, 2)),
        shape=draw(st.sampled_from(['plane', 'cylinder', 'sphere'])),
    )


def run_outer(case, rec):
    Ts, Ta, L, v = np.asarray(case['Ts'], float), case['Ta'], case['L'], case['vertical']
    kind = case['kind']
    rec.label(kind, 'vertical' if v else 'horizontal')
    rec.mark((Ts != Ta).any())
    if kind == 'cylinder':
        f = fun('cylinder_alpha_inf')
        if f is None:
            return
        for ta in (Ta, np.array([Ta])):
            out = np.full(Ts.shape, np.nan)
            f(Ts, ta, L, v, case['r'], out)
            near(out, ref.alpha_outer_cyl(Ts, Ta, L, v, case['r']), 'coefficient outside of a cylinder (surface %s, air %s degC, length %s m)', Ts, Ta, L, rtol=1e-6)
    elif kind == 'plane':
        f = fun('plane_alpha_inf')
        if f is None:
            return
        top = np.asarray(case['top'], bool)
        got = f(Ts, Ta, L, v, top)
        if v:
            lam = ref._poly(ref._LAMA, (Ts + Ta) / 2)
            fp = (1 + (0.492 / ref.PR_AIR) ** (9 / 16)) ** (-16 / 9)
            want = (0.825 + 0.387 * (ref._ra_air(Ts, Ta, L) * fp) ** (1 / 6)) ** 2 * lam / L
        else:
            for a in Ts:
                raf = ref._ra_air(a, Ta, L) * (1 + (0.322 / ref.PR_AIR) ** (11 / 20)) ** (-20 / 11)
                if abs(raf / 7e4 - 1) < 1e-6:
                    return
            want = np.array([ref.alpha_outer_hplane(a, Ta, L, t) for a, t in zip(Ts, top)])
        near(got, want, 'coefficient at a plane (surface %s, air %s degC, length %s m, top %s)', Ts, Ta, L, case['top'], rtol=1e-6)
    elif kind == 'rayleigh':
        f = fun('rayleigh_number')
        if f is None:
            return
        ny = ref._poly(ref._NYA, (Ts + Ta) / 2)
        a = f(Ts, Ta, 0.708, ny, 273.15, L)
        b = f(Ts + 273.15, Ta + 273.15, 0.708, ny, 0.0, L)
        near(a, ref._ra_air(Ts, Ta, L), 'Rayleigh number (%s, %s degC)', Ts, Ta)
        require(np.allclose(a, b, rtol=1e-6, atol=1e-6), 'Rayleigh number differs between degC and K: %s, %s', a, b)
    else:
        f = fun('calc_flow_length')
        if f is None:
            return
        kw = {
            ('plane', True): dict(height=L), ('cylinder', True): dict(height=L), ('plane', False): dict(width=case['w'], depth=L),
            ('cylinder', False): dict(diameter=L),
        }.get((case['shape'], v), dict(diameter=L))
        got = f(part_shape=case['shape'], vertical=v, **kw)
        want = {'height': L, 'width': case['w'] * L / (2 * (case['w'] + L)), 'diameter': L * (np.pi / 2 if case['shape'] == 'cylinder' else 1)}[next(iter(kw))]
        near(got, want, 'flow length %s %s', case['shape'], v)


# -------------------------------------------------------- thermal resistances
@st.composite
def resist(draw):
    n = draw(st.integers(1, 5))
    pos = lambda a, b: st.lists(fl(a, b, 3), min_size=n, max_size=n)
    return dict(
        ri=draw(fl(0.004, 0.6, 4)), sw=draw(fl(0.0005, 0.01, 4)), si=draw(st.one_of(st.just(0.0), fl(0.001, 0.2, 3))),
        gsp=draw(fl(0.01, 3, 3)), lw=draw(fl(10, 400, 1)), li=draw(fl(0.02, 0.2, 3)),
        ai=draw(pos(5, 5000)), ao=draw(pos(0.5, 30)), T=draw(pos(1, 98)), Ta=draw(fl(-10, 40, 1)),
        uas=draw(st.lists(pos(0.1, 500), min_size=2, max_size=4)),
        dA=draw(fl(0.5, 60, 2)), dB=draw(fl(0.5, 60, 2)), base=draw(fl(10, 60, 1)), sign=draw(st.sampled_from([1, -1])),
        same=draw(st.integers(0, 5)) == 0,
    )


def run_resist(case, rec):
    ri, ro = case['ri'], case['ri'] + case['sw']
    rt = ro + case['si']
    ai, ao, T = (np.asarray(case[k], float) for k in ('ai', 'ao', 'T'))
    lw, li, Ta = case['lw'], case['li'], case['Ta']
    A = 2 * np.pi * ri * case['gsp']
    As = 2 * np.pi * rt * case['gsp']
    rec.mark(True)
    # resistances of the layers, summed up
    Rw, Rin = np.log(ro / ri) / (2 * np.pi * case['gsp'] * lw), np.log(rt / ro) / (2 * np.pi * case['gsp'] * li)
    Ri, Ra = 1 / (ai * A), 1 / (ao * As)
    full = 1 / (Ri + Rw + Rin + Ra)

    def inplace(name, want, *args):
        f = fun(name)
        if f is not None:
            out = np.full(T.shape, np.nan)
            f(*args, out)
            near(out, want, name + ' (r %s, %s, %s m)', ri, ro, rt)

    inplace('UA_fld_wll_ins_amb_cyl', full, A, ri * np.log(ro / ri), ri * np.log(rt / ro), ri / rt, ai, ao, lw, li)
    rm = (ri + ro) / 2
    Rwo = np.log(ro / rm) / (2 * np.pi * case['gsp'] * lw)
    inplace('UA_wll_ins_amb_cyl', 1 / (Rwo + Rin + Ra), A, ri, ro, ri * np.log(rt / ro), ri / rt, ao, lw, li)
    if case['si'] == 0:
        inplace('UA_fld_wll_amb_cyl', 1 / (Ri + Rw + Ra), A, ri * np.log(ro / ri), ri / ro, ai, ao, lw)
        inplace('UA_wll_amb_cyl', 1 / (Rwo + Ra), A, ri, ro, ao, lw)
    # plates
    s, si = case['sw'], case['si']
    for name, want, args in (
        ('UA_fld_wll_plate', A / (1 / ai + s / lw), (A, s, ai, lw)),
        ('UA_fld_wll_ins_amb_plate', A / (1 / ai + s / lw + si / li + 1 / ao), (A, s, si, ai, ao, lw, li)),
        ('UA_wll_ins_amb_plate', A / (s / lw + si / li + 1 / ao), (A, s, si, lw, li, ao)),
    ):
        f = fun(name)
        if f is not None:
            near(f(*args), want, name)
    # what reaches the surface leaves the surface
    ts = np.full(T.shape, np.nan)
    f = fun('surface_temp_steady_state_inplace')
    if f is not None:
        f(T, Ta, As, ao, full, ts)
        q_in = (T - ts) / (Ri + Rw + Rin)
        q_out = (ts - Ta) / Ra
        require(np.allclose(q_in, q_out, rtol=1e-6, atol=1e-9), 'surface temperature %s: %s W arrive, %s W leave', ts, q_in, q_out)
        g = fun('surface_temp_steady_state')
        if g is not None:
            near(g(T, Ta, As, ao, full), ts, 'surface temperature', rtol=1e-12)
    # combinations
    uas = [np.asarray(u, float) for u in case['uas']]
    if case['same']:
        uas = [float(u[0]) for u in uas]
    keep = [np.array(u, copy=True) for u in uas]
    for name, want in (('series_circuit_UA', 1 / sum(1 / u for u in uas)), ('parallel_circuit_UA', sum(uas))):
        f = fun(name)
        if f is not None:
            near(f(*uas), want, name)
            require(all((a == b).all() for a, b in zip(keep, [np.asarray(u) for u in uas])), '%s changes the conductances it is given', name)
    f = fun('log_mean_temp_diff')
    if f is not None and abs(case['dA'] - case['dB']) > 0.01:
        a, b = case['sign'] * case['dA'], case['sign'] * case['dB']
        got = f(case['base'] + a, case['base'], case['base'] + 5 + b, case['base'] + 5)
        near(got, (a - b) / np.log(a / b), 'logarithmic mean temperature difference', rtol=1e-6)
        require(min(a, b) <= got <= max(a, b), 'mean difference %s outside of %s, %s', got, a, b)


# ----------------------------------------------------------- buoyancy in tanks
@st.composite
def buoy(draw):
    n = draw(st.integers(2, 10))
    return dict(T=draw(st.lists(fl(1, 98, 2), min_size=n, max_size=n)), d=draw(fl(0.1, 2, 2)), sort=draw(st.integers(0, 3)) == 0)


def run_buoy(case, rec):
    T = np.asarray(case['T'], float)
    if case['sort']:
        T = np.sort(T)[::-1].copy()
    f = fun('buoyancy_byNusselt')
    if f is None:
        return
    dT = np.maximum(np.diff(T), 0)
    Pr, Tb = ref.pr_w(T[1:]), T[1:]
    Ra = Pr * 9.81 * (case['d'] / 4) ** 3 * np.abs(ref.beta_w(Tb)) * dT / ref.ny_w(Tb) ** 2
    raf = Ra * (1 + (0.322 / Pr) ** (11 / 20)) ** (-20 / 11)
    lamv = ref.lam_w(T)
    lam = 2 / (1 / lamv[:-1] + 1 / lamv[1:])
    if (np.abs(raf / 7e4 - 1) < 1e-6).any() or (np.abs(0.766 * raf ** 0.2 - 1) < 1e-6).any():
        return
    out = lam.copy()
    f(T.copy(), ref.ny_w(T), case['d'], out)
    near(out, lam * ref.buoyancy_factor(T, case['d']), 'conductivity between storage cells at %s degC', T, rtol=1e-6)
    require((out[dT == 0] == lam[dT == 0]).all(), 'mixing without an inversion')
    rec.label('stable' if not dT.any() else 'inverted')
    rec.mark(dT.any())


SUBCHECKS = [
    Sub('inner', inner, run_inner, 2500, 60000),
    Sub('outer', outer, run_outer, 2000, 50000),
    Sub('resistances', resist, run_resist, 1500, 40000),
    Sub('buoyancy', buoy, run_buoy, 800, 20000),
]

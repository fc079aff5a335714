"""C16: properties of water and air."""

import numpy as np
from hypothesis import strategies as st

from vlib import ref, simkit
from vlib.core import Sub, require
from vlib.nets import fl

RULE = 'a case counts when it evaluates a property at two or more different temperatures of the valid range'
ASSUMPTIONS = [
    'tables of VDI Waermeatlas / IAPWS at 1 bar; valid ranges: water 0..100 degC, dry air -20..100 degC, humid air -20..80 degC',
]

TT = np.arange(0.0, 101.0, 10.0)
# IAPWS / VDI Waermeatlas D2.1 at 1 bar, degC 0, 10, .. 100
TAB = {
    'rho': [999.84, 999.70, 998.21, 995.65, 992.22, 988.04, 983.20, 977.77, 971.80, 965.32, 958.35],
    'cp': [4219, 4195, 4185, 4180, 4179, 4180, 4184, 4189, 4197, 4206, 4217],
    'lam': [0.5611, 0.5800, 0.5984, 0.6155, 0.6306, 0.6436, 0.6544, 0.6632, 0.6701, 0.6753, 0.6791],
    'ny': [1.7920e-6, 1.3063e-6, 1.0034e-6, 0.8008e-6, 0.6580e-6, 0.5536e-6, 0.4743e-6, 0.4131e-6, 0.3647e-6, 0.3257e-6, 0.2938e-6],
    'pr': [13.47, 9.45, 7.004, 5.415, 4.328, 3.555, 2.984, 2.553, 2.219, 1.958, 1.751],
    'beta': [-0.068e-3, 0.088e-3, 0.2066e-3, 0.3034e-3, 0.3852e-3, 0.4577e-3, 0.5230e-3, 0.5833e-3, 0.6404e-3, 0.6958e-3, 0.7504e-3],
}
# allowed deviation from the tables (relative, absolute)
TOL = {
    'rho': (2e-4, 0), 'cp': (2e-3, 0), 'lam': (0.025, 0), 'ny': (0.06, 0), 'pr': (0.16, 0), 'beta': (0.015, 1.2e-5),
}
# property -> (reference, in-place name, returning name)
PROPS = {
    'rho': (ref.rho_w, 'get_rho_water', 'rho_water'),
    'cp': (ref.cp_w, 'get_cp_water', 'cp_water'),
    'lam': (ref.lam_w, 'get_lambda_water', 'lambda_water'),
    'ny': (ref.ny_w, 'get_ny_water', 'ny_water'),
    'pr': (ref.pr_w, 'get_Pr_water', 'Pr_water_return'),
    'beta': (ref.beta_w, 'get_beta_water', 'beta_water_return'),
    'rho_air': (lambda T: ref._poly((1.2767987012987012, -0.0046968614718614701, 1.4296536796536256e-05), T), 'get_rho_dryair', None),
    'lam_air': (lambda T: ref._poly(ref._LAMA, T), 'get_lam_dryair', 'lam_dryair_return'),
    'ny_air': (lambda T: ref._poly(ref._NYA, T), 'get_ny_dryair', 'ny_dryair_return'),
    'p_sat': (None, None, 'humid_air_saturation_pressure'),
    'x_sat': (None, None, 'humid_air_sat_water_mass'),
}


def preload():
    simkit.ms()


def modules():
    ms = simkit.ms()
    return [m for m in (ms.precomp_funs, getattr(ms, 'matprops', None)) if m is not None]


def interp(name, T):
    """cubic Lagrange through the four nearest table points"""
    y = np.asarray(TAB[name], float)
    T = np.asarray(T, float)
    i = np.clip((T // 10).astype(int) - 1, 0, len(TT) - 4)
    out = np.zeros(T.shape)
    for a in range(4):
        w = np.ones(T.shape)
        for b in range(4):
            if a != b:
                w = w * (T - TT[i + b]) / (TT[i + a] - TT[i + b])
        out = out + w * y[i + a]
    return out


def p_sat(T):
    """Magnus formula (Sonntag) over water and ice"""
    T = np.asarray(T, float)
    return np.where(T >= 0, 611.2 * np.exp(17.62 * T / (243.12 + T)), 611.2 * np.exp(22.46 * T / (272.62 + T)))


@st.composite
def cases(draw):
    name = draw(st.sampled_from(sorted(PROPS)))
    lo, hi = (0, 100) if name in TAB else (-20, 100) if 'air' in name else (-20, 80)
    T = draw(st.lists(st.one_of(fl(lo, hi, 3), st.integers(lo, hi).map(float), st.sampled_from([float(lo), float(hi)])), min_size=1, max_size=12))
    return dict(
        name=name, T=T, form=draw(st.sampled_from(['flat', 'rows', 'view', 'reversed'])), module=draw(st.integers(0, 1)),
        scalar=draw(st.booleans()),
    )


def physical(name, T, got):
    if name in TAB:
        want = interp(name, T)
        r, a = TOL[name]
        bad = np.abs(got - want) > r * np.abs(want) + a
        require(not bad.any(), '%s of water at %s degC: %s, tables give %s', name, T, got, want)
    elif name == 'rho_air':
        want = 1e5 / (287.06 * (T + 273.15))
        require((np.abs(got / want - 1) < 0.025).all(), 'density of air at %s degC: %s, ideal gas %s', T, got, want)
    elif name == 'ny_air':
        mu = 1.458e-6 * (T + 273.15) ** 1.5 / (T + 273.15 + 110.4)
        want = mu / (1e5 / (287.06 * (T + 273.15)))
        require((np.abs(got / want - 1) < 0.015).all(), 'viscosity of air at %s degC: %s, Sutherland %s', T, got, want)
    elif name == 'lam_air':
        K = T + 273.15
        want = 2.64638e-3 * K ** 1.5 / (K + 245.4 * 10 ** (-12 / K))
        require((np.abs(got / want - 1) < 0.02).all(), 'conductivity of air at %s degC: %s, %s expected', T, got, want)
    elif name == 'p_sat':
        want = p_sat(T)
        require((np.abs(got - want) <= 0.025 * want + 12).all(), 'saturation pressure at %s degC: %s, Magnus %s', T, got, want)
    else:
        p = p_sat(T)
        want = 0.622 * p / (1e5 - p)
        require((np.abs(got - want) <= 0.03 * want + 1e-4).all(), 'water in saturated air at %s degC: %s, %s expected', T, got, want)


def shaped(T, form):
    """the same temperatures in differently laid out arrays"""
    T = np.asarray(T, float)
    n = len(T)
    if form == 'rows':
        a = np.zeros((2, n))
        a[0], a[1] = T, T[::-1]
    elif form == 'view':
        a = np.zeros((n, 3))[:, 1]
        a[:] = T
    elif form == 'reversed':
        a = T[::-1].copy()[::-1]
    else:
        a = T.copy()
    return a


def run(case, rec):
    name = case['name']
    exact, inplace, ret = PROPS[name]
    m = modules()[case['module'] % len(modules())]
    T = shaped(case['T'], case['form'])
    T0 = T.copy()
    outs = []
    f = getattr(m, ret, None) if ret else None
    if f is not None:
        outs.append(('returned', np.asarray(f(T))))
        if case['scalar']:
            one = np.array([float(f(float(x))) for x in T.ravel()]).reshape(T.shape)
            outs.append(('scalar', one))
    f = getattr(m, inplace, None) if inplace else None
    if f is not None:
        out = np.full(T.shape, np.nan)
        f(T, out)
        outs.append(('in place', out))
    require((T == T0).all(), '%s changes its temperatures', name)
    for how, got in outs:
        require(got.shape == T.shape and np.isfinite(got).all(), '%s (%s) at %s degC: %s', name, how, T, got)
        require((np.abs(got - outs[0][1]) <= 1e-12 * np.abs(got)).all(), '%s at %s degC: %s %s, %s %s', name, T, how, got, outs[0][0], outs[0][1])
        physical(name, T, got)
        if exact is not None:
            w = exact(T)
            require((np.abs(got - w) <= 1e-9 * np.abs(w) + 1e-16).all(), '%s at %s degC: %s, fit gives %s', name, T, got, w)
        elif name == 'p_sat':
            require((got > 0).all(), 'negative pressure')
    # further from 0 degC means more water and higher pressure
    if name in ('p_sat', 'x_sat', 'lam_air', 'ny_air'):
        o = np.argsort(T.ravel())
        require((np.diff(outs[0][1].ravel()[o]) >= -1e-12).all(), '%s does not grow with temperature: %s -> %s', name, T.ravel()[o], outs[0][1].ravel()[o])
    rec.label(name)
    rec.mark(len(set(case['T'])) > 1)


@st.composite
def bundles(draw):
    n = draw(st.integers(3, 10))
    return dict(
        T=draw(st.lists(fl(0, 100, 2), min_size=n, max_size=n)), V=draw(fl(1e-5, 0.5, 5)), wall=draw(fl(0, 5000, 1)), shape=draw(st.integers(1, 2)),
    )


def run_bundle(case, rec):
    """property bundles used by the parts: all at once, for all cells"""
    pf = simkit.ms().precomp_funs
    T = np.asarray(case['T'], float)
    if case['shape'] == 2:
        T = np.column_stack([T, T[::-1]])
    z = lambda: np.full(T.shape, np.nan)
    cp, lam, rho, ny = z(), z(), z(), z()
    f = getattr(pf, 'water_mat_props', None)
    if f is not None:
        f(T, cp, lam, rho, ny)
        for a, g, b in (('cp', cp, ref.cp_w(T)), ('lam', lam, ref.lam_w(T)), ('rho', rho, ref.rho_w(T)), ('ny', ny, ref.ny_w(T))):
            require(np.allclose(g, b, rtol=1e-9, atol=0), '%s at %s degC: %s, expected %s', a, T, g, b)
    cp, rho = ref.cp_w(T), ref.rho_w(T)
    f = getattr(pf, 'cell_temp_props', None)
    if f is not None:
        rhocp, mcp, ui = z(), z(), z()
        f(T, case['V'], cp, rho, case['wall'], rhocp, mcp, ui)
        require(np.allclose(rhocp, rho * cp, rtol=1e-9), 'rho*cp %s', rhocp)
        require(np.allclose(mcp, case['V'] * rho * cp + case['wall'], rtol=1e-9), 'heat capacity of the cells %s', mcp)
        require(np.allclose(ui, cp * T, rtol=1e-9), 'specific energy %s', ui)
    f = getattr(pf, '_lambda_mean', None)
    if f is not None and case['shape'] == 1:
        lam = ref.lam_w(T)
        got = f(lam)
        # two half cells in series
        want = 2 / (1 / lam[:-1] + 1 / lam[1:])
        require(np.allclose(got, want, rtol=1e-9), 'conductivity between cells %s, series connection gives %s', got, want)
    rec.mark(len(set(case['T'])) > 1)


SUBCHECKS = [
    Sub('properties', cases, run, 3000, 60000),
    Sub('bundles', bundles, run_bundle, 600, 12000),
]

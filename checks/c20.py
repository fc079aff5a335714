"""C20: preparation of input data: boundary condition series, pipe data, cleaning of series."""

import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import simkit
from vlib.core import Sub, require
from vlib.nets import fl

RULE = 'a case counts when the series varies (series), or the size is no table size (pipes)'
ASSUMPTIONS = [
    'slots of resampled series are aligned to midnight of the first day, as pandas does',
    'pipe areas within the table of the pipe type; outlier thresholds are not hit exactly',
]


def preload():
    simkit.ms()


def ut():
    return simkit.ms().ut


def close(got, want, what, *args, rtol=1e-9, atol=1e-9):
    got, want = np.asarray(got, float), np.asarray(want, float)
    require(got.shape == want.shape, what + ': %d values, expected %d', *args, got.size, want.size)
    ok = (np.abs(got - want) <= rtol * np.abs(want) + atol) | (np.isnan(got) & np.isnan(want))
    if not ok.all():
        i = int(np.flatnonzero(~ok.ravel())[0])
        require(False, what + ': value %d is %.10g, expected %.10g', *args, i, got.ravel()[i], want.ravel()[i])


# ---------------------------------------------------- boundary condition series
@st.composite
def bcs(draw):
    n = draw(st.integers(2, 12))
    # milliseconds between the given values and between the wanted ones
    return dict(
        values=draw(st.lists(fl(-20, 95, 1), min_size=n, max_size=n)), dt=draw(st.sampled_from([500, 1000, 2000, 4000, 5000, 10000])),
        ts=draw(st.sampled_from([250, 500, 1000, 2000, 2500, 5000, 20000])),
        steps=draw(st.one_of(st.integers(1, 40), st.just(n - 1))), odd=draw(st.sampled_from([0, 0, 0, 100, 700])),
        stack=draw(st.booleans()), start=draw(st.sampled_from(['2018-04-02 00:00:00', '2018-04-02', '2020-02-28 23:59:40'])),
        down=draw(st.sampled_from(['mean', 'mean', 'max', 'first', 'sum'])), up=draw(st.sampled_from(['ffill', 'ffill', 'bfill'])),
        default=draw(st.booleans()),
    )


def run_bc(case, rec):
    x = np.asarray(case['values'], float)
    x0 = x.copy()
    n, dt, ts = x.size, case['dt'], case['ts']
    dur = case['steps'] * dt + case['odd']  # ms
    kw = {} if case['default'] else dict(downsample_method=case['down'], upsample_method=case['up'])
    down, up = ('mean', 'ffill') if case['default'] else (case['down'], case['up'])
    if case['stack']:
        kw['bc_too_short'] = 'stack'
    call = lambda: ut().make_boundarycond_timeseries(x, 1000.0 / dt, case['start'], dur / 1000.0, 1000.0 / ts, **kw)
    rec.label('longer' if (n - 1) * dt > dur else ('shorter' if (n - 1) * dt < dur else 'equal'), 'down' if ts >= dt else 'up')
    if (n - 1) * dt < dur and not case['stack']:
        try:
            call()
        except ValueError:
            return
        require(False, 'a series of %.1f s was accepted for %.1f s', (n - 1) * dt / 1e3, dur / 1e3)
    got = call()
    require(np.array_equal(x, x0), 'input was changed')
    rec.mark(np.ptp(x) > 0)
    m = dur // dt + 1  # values until the end
    t = dt * np.arange(m)
    v = x[np.arange(m) % n]
    t0 = pd.Timestamp(case['start'])
    off = int((t0 - t0.normalize()).total_seconds() * 1000)
    lo, hi = (off + t[0]) // ts * ts, (off + t[-1]) // ts * ts
    grid = np.arange(lo, hi + ts, ts)
    want = np.full(grid.size, np.nan)
    for i, g in enumerate(grid):
        if ts >= dt:
            k = (off + t >= g) & (off + t < g + ts)
            if k.any():
                want[i] = dict(mean=np.mean, max=np.max, first=lambda a: a[0], sum=np.sum)[down](v[k])
            elif down == 'sum':
                want[i] = 0
        elif up == 'ffill':
            k = off + t <= g
            want[i] = v[k][-1] if k.any() else np.nan
        else:
            k = off + t >= g
            want[i] = v[k][0] if k.any() else np.nan
    close(got.values, want, 'series of %d ms from %d ms', ts, dt)
    require((got.index == t0.normalize() + pd.to_timedelta(grid, unit='ms')).all(), 'series is dated %s..%s', got.index[0], got.index[-1])


# -------------------------------------------------------------------- pipes
@st.composite
def pipes(draw):
    k = draw(st.integers(1, 4))
    return dict(
        tp=draw(st.sampled_from(['EN10255_medium', 'EN10255_heavy'])), pick=[(draw(st.integers(0, 11)), draw(st.one_of(st.just(0.0), fl(0, 1, 3)))) for _ in range(k)],
        mult=draw(st.one_of(st.just(1.0), st.just(1), fl(0.6, 1.9, 3))),
    )


_TAB = {}


def table(tp):
    if not _TAB:
        import os

        d = os.path.dirname(simkit.ms().__file__)
        _TAB['x'] = pd.read_pickle(os.path.join(d, 'data_tables', 'pipe_specs.pkl'))
    q = _TAB['x'][tp].T.astype(float)
    q = q[q['A_i'] > 0].copy()
    # (the table gives a wall area for DN150 which does not fit its diameters)
    q['A_wall'] = q['A_o'] - q['A_i']
    return q


def check_pipe(row, A, q, what):
    a = q['A_i'].values
    require(abs(row['A_i'] - A) <= 1e-12 * A, '%s: area %.9g instead of %.9g', what, row['A_i'], A)
    close(row['d_i'], np.sqrt(4 * A / np.pi), what + ': inner diameter')
    close(row['d_o'], np.sqrt(4 * row['A_o'] / np.pi), what + ': outer diameter')
    close(row['s'], (row['d_o'] - row['d_i']) / 2, what + ': wall thickness')
    close(row['A_wall'], row['A_o'] - A, what + ': wall area')
    hit = np.abs(a - A) <= 1e-12 * A
    if hit.any():
        r = q.iloc[int(np.flatnonzero(hit)[0])]
        for c in q.columns:
            close(row[c], r[c], what + ': %s of a table pipe', c)
        return False
    j = int(np.searchsorted(a, A))
    lo, hi = q.iloc[j - 1], q.iloc[j]
    for c in ('A_o', 'A_wall', 'R', 'd_i', 'd_o'):
        require(
            min(lo[c], hi[c]) * (1 - 1e-9) <= row[c] <= max(lo[c], hi[c]) * (1 + 1e-9),
            '%s: %s is %.6g, the neighbouring pipes have %.6g and %.6g', what, c, row[c], lo[c], hi[c],
        )
    # smooth between the neighbours: close to the line between them
    w = (A - a[j - 1]) / (a[j] - a[j - 1])
    for c in ('A_o', 'R'):
        line = lo[c] * (1 - w) + hi[c] * w
        require(abs(row[c] - line) <= 0.15 * line, '%s: %s is %.6g, %.6g expected between the neighbours', what, c, row[c], line)
    return True


def run_pipes(case, rec):
    q = table(case['tp'])
    a = q['A_i'].values
    A = [float(a[i % (len(a) - 1)] * (1 - w) + a[i % (len(a) - 1) + 1] * w) if w else float(a[i % len(a)]) for i, w in case['pick']]
    A = sorted(set(A))
    r = ut().interp_pipe_specs(A, pipe_type=case['tp'])
    require(len(r) == len(A), '%d pipes for %d areas', len(r), len(A))
    new = False
    for i, x in enumerate(A):
        row = r.iloc[i]
        new |= check_pipe(row, x, q, 'pipe of %.4g m2' % x)
        one = ut().interp_pipe_specs(x, pipe_type=case['tp']).iloc[0]
        close(one.values, row[one.index].values, 'pipe of %.4g m2 alone and in a list', x, rtol=1e-6)
    if case['tp'] == 'EN10255_medium':
        close(ut().interp_pipe_specs(A).values, r.values, 'default pipe type')
    rec.mark(new)
    rec.label('interpolated' if new else 'table sizes', case['tp'])
    # pipes scaled in their cross section
    spec = {}
    for i, (k, w) in enumerate(case['pick']):
        f = case['mult'] if i == 0 else 1.0
        dn = q.index[k % len(a)]
        if not a[0] <= q.loc[dn, 'A_i'] * f <= a[-1]:
            f = 1
        keys = {'pipe_type': case['tp'], 'DN': dn}
        if k % 2:
            keys = dict(reversed(list(keys.items())))
        spec['part%d' % i] = ({'all': keys}, f)
    out = ut().adjust_pipes(spec)
    require(set(out) == set(spec), 'adjusted pipes of %s', sorted(out))
    for k, (s, f) in spec.items():
        o = out[k]['all']
        require(o['pipe_type'] == case['tp'], '%s: pipe type %s', k, o['pipe_type'])
        check_pipe(o, q.loc[s['all']['DN'], 'A_i'] * f, q, '%s (%s x %.3f)' % (k, s['all']['DN'], f))


# ----------------------------------------------------------------- cleaning
@st.composite
def cleaning(draw):
    n = draw(st.integers(6, 30))
    return dict(
        x=draw(st.lists(fl(-10, 10, 2), min_size=n, max_size=n)), spikes=draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from([-900.0, 400.0, 1000.0])), max_size=3)),
        fun=draw(st.sampled_from(['roll', 'mad', 'rolling', 'rolling'])), fill=draw(st.sampled_from(['interpolate', 'nan', 'remove', 0.0, 7.5])),
        window=draw(st.integers(1, 6)), half=draw(st.booleans()), sd=draw(st.sampled_from([1, 2, 3, 2.5])), frame=draw(st.booleans()), gaps=draw(st.booleans()),
        method=draw(st.sampled_from(['mean', 'max', 'min', 'median', 'sum'])), minp=draw(st.sampled_from([0, 0, 1, 2, None, 's'])), nan=draw(st.lists(st.integers(0, n - 1), max_size=2)),
    )


def filled(t, x, out, fill, frame, inside):
    if fill == 'interpolate':
        y = np.full(x.shape, np.nan)
        k = ~out
        if k.any():
            y = np.interp(t, t[k], x[k])
            if not (t[k][0] <= t[0]):  # nothing before the first value
                y[t < t[k][0]] = np.nan
            if inside:
                y[t > t[k][-1]] = np.nan
        return t, y
    if fill == 'remove' and not frame:
        return t[~out], x[~out]
    return t, np.where(out, np.nan if fill in ('nan', 'remove') else fill, x)


def run_cleaning(case, rec):
    x = np.asarray(case['x'], float)
    n = x.size
    for i, v in case['spikes']:
        x[i] = v
    step = (1 + np.arange(n) % 3) if case['gaps'] and case['fun'] != 'rolling' else np.ones(n)
    t = np.cumsum(step)
    idx = pd.date_range('2021-01-01', periods=n, freq='1s') if case['fun'] == 'rolling' else pd.Index(t)
    frame = case['frame']
    cols = [x, x[::-1].copy()] if frame else [x]
    mk = lambda: pd.DataFrame(dict(zip('ab', [c.copy() for c in cols])), index=idx) if frame else pd.Series(x.copy(), index=idx)
    a = mk()
    rec.mark(np.ptp(x) > 0)
    rec.label(case['fun'], str(case['fill']) if case['fun'] != 'rolling' else case['method'])
    if case['fun'] == 'rolling':
        w = case['window']
        win = '%ds' % w
        minp = case['minp']
        kw = {} if minp == 0 else dict(min_periods={'s': '%ds' % w}.get(minp, minp))
        if isinstance(minp, int) and minp > w:
            return
        for i in case['nan']:
            x[i] = np.nan
            if frame:
                cols[1] = x[::-1].copy()
        a = mk()
        b = a.copy()
        got = ut().rolling_centered(a, win, method=case['method'], **kw)
        require(a.equals(b), 'input was changed')
        need = w if minp in (None, 's') else minp
        f = dict(mean=np.mean, max=np.max, min=np.min, median=np.median, sum=np.sum)[case['method']]
        for c, g in zip(cols, [got[k].values for k in 'ab'] if frame else [got.values]):
            want = np.full(n, np.nan)
            for i in range(n):
                stop = i + (w - 1) // 2 + 1
                z = c[max(0, stop - w):stop]
                z = z[~np.isnan(z)]
                if z.size >= need and z.size:
                    want[i] = f(z)
                elif case['method'] == 'sum' and need == 0:
                    want[i] = 0
            close(g, want, 'centered %s over %s, min_periods %s', case['method'], win, minp)
        require((got.index == idx).all(), 'index changed')
        return
    outs = []
    for c in cols:
        if case['fun'] == 'mad':
            d = np.abs(c - np.median(c))
            thr = case['sd'] * 1.4826 * np.median(d)
        else:
            w = case['window']
            med = np.full(n, np.nan)
            for i in range(n):
                stop = i + (w - 1) // 2 + 1
                if stop - w >= 0 and stop <= n:
                    med[i] = np.median(c[stop - w:stop])
            med = pd.Series(med).bfill().ffill().values
            d = np.abs(c - med)
            thr = case['sd'] * d.std(ddof=1)
        if (np.abs(d - thr) <= 1e-9 * max(1.0, thr)).any() and d.max() > 0:
            rec.label('threshold hit')
            return
        outs.append(d > thr)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        b = a.copy()
        if case['fun'] == 'mad':
            got = ut().remove_outliers_mad(data=a, threshold=case['sd'], fill_value=case['fill'])
        else:
            got = ut().remove_outliers_roll(data=a, window=case['window'], stdevs=case['sd'], fill_value=case['fill'])
    require(a.equals(b), 'input was changed')
    rec.label('outliers' if any(o.any() for o in outs) else 'no outliers')
    for c, o, g in zip(cols, outs, [got[k] for k in 'ab'] if frame else [got]):
        tt, want = filled(t, c, o, case['fill'], frame, inside=case['fun'] == 'roll')
        close(g.index.values, tt, 'places of the cleaned series')
        close(g.values, want, 'cleaned series (%s, %s)', case['fun'], case['fill'])


SUBCHECKS = [
    Sub('boundary series', bcs, run_bc, 1500, 40000),
    Sub('pipes', pipes, run_pipes, 250, 6000),
    Sub('cleaning', cleaning, run_cleaning, 1500, 40000),
]

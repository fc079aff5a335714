"""C19: error measures and performance indicators."""

import contextlib
import io
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import simkit
from vlib.core import Sub, require
from vlib.nets import fl

RULE = 'a case counts when prediction and observation differ and the observation varies'
ASSUMPTIONS = ['finite values; observations of one series compared with one or several predictions; several columns with the same labels']


def preload():
    simkit.ms()


def modules():
    ms = simkit.ms()
    return [m for m in (getattr(ms, 'stat_err_meas', None), ms.ut) if m is not None]


def same(got, want, what, *args):
    got, want = np.asarray(got, float), np.asarray(want, float)
    require(got.shape == want.shape, what + ': shape %s, expected %s', *args, got.shape, want.shape)
    ok = (np.abs(got - want) <= 1e-9 * np.abs(want) + 1e-10) | (np.isnan(got) & np.isnan(want))
    require(ok.all(), what + ': %s, expected %s', *args, got, want)


VAL = st.one_of(fl(-50, 50, 2), st.sampled_from([0.0, 1.0, -1.0]))


@st.composite
def measures(draw):
    n = draw(st.integers(3, 14))
    k = draw(st.integers(0, 3))  # columns of the prediction, 0: one-dimensional
    y = draw(st.lists(VAL, min_size=n, max_size=n))
    return dict(
        y=y, y_hat=[[v + draw(VAL) / 10 for v in y] for _ in range(max(k, 1))], k=k, y2=k > 1 and draw(st.booleans()),
        shift=draw(fl(-5, 5, 1)), form=draw(st.sampled_from(['array', 'pandas', 'series'])), p=draw(st.integers(1, 3)),
        window=draw(st.integers(1, n + 1)), minp=draw(st.one_of(st.none(), st.integers(1, 4))),
    )


def rolled(e, w, minp):
    """mean over a centered window"""
    n = e.shape[0]
    out = np.full(e.shape, np.nan)
    need = w if minp is None else minp
    for i in range(n):
        stop = i + (w - 1) // 2 + 1
        a, b = max(0, stop - w), min(n, stop)
        if b - a >= need and b > a:
            out[i] = e[a:b].mean(axis=0)
    return out


def run_measures(case, rec):
    y = np.asarray(case['y'])
    yh = np.asarray(case['y_hat']).T
    if case['y2']:
        y = np.column_stack([y + j * case['shift'] * np.cos(np.arange(y.size)) for j in range(yh.shape[1])])
    if not case['k']:
        yh = yh[:, 0]
    Y = y[:, None] if y.ndim == 1 and yh.ndim == 2 else y
    E = yh - Y
    rec.label('dim %d/%d' % (y.ndim, yh.ndim), case['form'])
    vary = bool((np.ptp(Y, axis=0) > 1e-3).all())
    rec.mark(vary and bool(np.abs(E).max() > 1e-6))
    idx = pd.date_range('2021-01-01', periods=len(y), freq='1s') if case['form'] == 'pandas' else range(len(y))

    def form(a):
        if case['form'] == 'array':
            return a.copy()
        return pd.Series(a.copy(), index=idx) if a.ndim == 1 else pd.DataFrame(a.copy(), index=idx)

    want = {
        'mean_squared_err': (E ** 2), 'mean_abs_err': np.abs(E), 'mean_signed_deviation': E,
    }
    kw = dict(roll=True, window=case['window'], min_periods=case['minp'])
    skip_roll = case['minp'] is not None and case['minp'] > case['window']
    for m in modules():
        w = m.__name__.split('.')[-1] + '.'
        a, b = form(y), form(yh)
        for f, e in want.items():
            same(getattr(m, f)(a, b), e.mean(axis=0), w + f)
            if not skip_roll:
                r = getattr(m, f)(a, b, **kw)
                same(np.asarray(r).reshape(e.shape), rolled(e, case['window'], case['minp']), w + f + ' over window %s, %s', case['window'], case['minp'])
        mse = (E ** 2).mean(axis=0)
        same(m.rmse(a, b), np.sqrt(mse), w + 'rmse')
        if not skip_roll:
            same(np.asarray(m.rmse(a, b, **kw)).reshape(E.shape), np.sqrt(rolled(E ** 2, case['window'], case['minp'])), w + 'rmse over window')
        if y.ndim == 1:
            if abs(y.mean()) > 1e-3:
                same(m.cv_rmse(a, b), np.sqrt(mse) / y.mean(), w + 'cv_rmse')
            norms = {'mean': y.mean(), 'median': np.median(y), 'range': y.max() - y.min(), 'IQR': np.quantile(y, 0.75) - np.quantile(y, 0.25)}
            errs = {'MSE': mse, 'RMSE': np.sqrt(mse), 'MAE': np.abs(E).mean(axis=0), 'MSD': E.mean(axis=0)}
            for nn, nv in norms.items():
                if abs(nv) < 1e-3:
                    continue
                for en, ev in errs.items():
                    same(m.normalized_err(a, b, err_method=en, norm=nn), ev / nv, w + 'normalized_err %s %s', en, nn)
        if vary:
            r2 = 1 - (E ** 2).sum(axis=0) / ((Y - Y.mean(axis=0)) ** 2).sum(axis=0)
            same(m.r_squared(a, b), r2, w + 'r_squared')
            n, p = len(y), case['p']
            if n > p + 1:
                adj = 1 - (1 - r2) * (n - 1) / (n - p - 1)
                same(m.r_squared_adj(p, y=a, y_hat=b), adj, w + 'r_squared_adj')
                for q in np.atleast_1d(r2):
                    same(m.r_squared_adj(p, r_sqrd=float(q), n=n), 1 - (1 - q) * (n - 1) / (n - p - 1), w + 'r_squared_adj of R2')
        # inputs stay as they were
        require(np.array_equal(np.asarray(a), y) and np.array_equal(np.asarray(b), yh), 'inputs were changed')


# ------------------------------------------------------------ time series
@st.composite
def series(draw):
    n = draw(st.integers(4, 14))
    idx = draw(st.sampled_from(['even', 'even', 'range', 'float', 'uneven', 'uneven', 'mixed']))
    gap = lambda: draw(st.lists(st.sampled_from([1, 2, 5, 7, 13, 20, 33]), min_size=n, max_size=n))
    y = draw(st.lists(VAL, min_size=n, max_size=n))
    return dict(
        idx=idx, rlz=y, pred=[draw(st.sampled_from([0.0, v, v + draw(VAL) / 10])) for v in y], g1=gap(), g2=gap(), freq=draw(st.sampled_from([2, 5, 10, 30])),
        how=draw(st.sampled_from(['interpolate', 'forward_fill', 'backward_fill'])), zeros=draw(st.booleans()),
        start=draw(st.sampled_from(['2021-01-01 00:00:00', '2021-03-04 05:06:00', '2021-03-04 05:06:07'])), off=draw(st.integers(0, 5)),
    )


def resampled(t, y, f, how):
    """samples at seconds t brought to multiples of f"""
    lo, hi = t[0] // f * f, t[-1] // f * f
    grid = np.arange(lo, hi + f, f)
    out = np.full(grid.size, np.nan)
    for i, g in enumerate(grid):
        if how == 'interpolate':
            k = (t >= g) & (t < g + f)
            if k.any():
                out[i] = y[k].mean()
        elif how == 'forward_fill':
            k = t <= g
            if k.any():
                out[i] = y[k][-1]
        else:
            k = t >= g
            if k.any():
                out[i] = y[k][0]
    if how == 'interpolate':
        k = ~np.isnan(out)
        out = np.interp(grid, grid[k], out[k])
    return grid, out


def run_series(case, rec):
    ms = simkit.ms()
    pred, rlz = np.asarray(case['pred']), np.asarray(case['rlz'])
    n = pred.size
    kw = {}
    f = case['freq']
    t0 = pd.Timestamp(case['start'])
    s0 = (t0 - t0.normalize()).total_seconds()
    if case['idx'] in ('even', 'range', 'float'):
        if case['idx'] == 'even':
            i1 = i2 = pd.date_range(t0, periods=n, freq='%ds' % f)
            if case['off'] % 2:  # naming its own frequency changes nothing
                kw = dict(freq='%ds' % f, how=case['how'])
        elif case['idx'] == 'range':
            i1, i2 = range(n), range(case['off'], case['off'] + n)
        else:
            i1, i2 = np.linspace(0, 1, n), np.cumsum(case['g2']) / 2.0
        P, R = pred, rlz
        index = None
    else:
        t1 = s0 + np.append(0, np.cumsum(case['g1'][:-1])).astype(float)
        even2 = case['idx'] == 'mixed'
        if even2:
            # the observation is evenly spaced already and covers the same slots
            k = int(t1[-1] // f - t1[0] // f) + 1
            rlz = np.resize(rlz, k)
            t2 = t1[0] // f * f + f * np.arange(k)
            i2 = pd.date_range(t0.normalize() + pd.Timedelta(seconds=t2[0]), periods=k, freq='%ds' % f)
        else:
            t2 = np.sort(np.append(np.resize(s0 + np.cumsum(case['g2']), n - 2) % max(t1[-1] - t1[0], 1) + t1[0], [t1[0], t1[-1]]))
            t2 = np.unique(t2)
            rlz = rlz[:t2.size]
            i2 = pd.DatetimeIndex([t0.normalize() + pd.Timedelta(seconds=x) for x in t2])
        i1 = pd.DatetimeIndex([t0.normalize() + pd.Timedelta(seconds=x) for x in t1])
        grid, P = resampled(t1, pred, f, case['how'])
        R = rlz if even2 else resampled(t2, rlz, f, case['how'])[1]
        kw = dict(freq='%ds' % f, how=case['how'])
        index = [t0.normalize() + pd.Timedelta(seconds=x) for x in grid]
        require(P.shape == R.shape, 'harness: shapes')
    a, b = pd.Series(pred, index=i1, name='p'), pd.Series(rlz, index=i2, name='r')
    a0, b0 = a.copy(), b.copy()
    rec.label(case['idx'], case['how'] if index is not None else 'no resampling')
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        df = ms.ut.fit_time_series(pred=a, rlz=b, return_df=True, **kw)
        one, two = ms.ut.fit_time_series(pred=a, rlz=b, return_df=False, **kw)
        ind = ms.ut.ts_performance_indicators(pred=a, rlz=b, exclude_zeros=case['zeros'], **kw)
    require(df.shape == (P.size, 2), 'fitted table has shape %s, expected %s', df.shape, (P.size, 2))
    same(df.iloc[:, 0], P, 'fitted prediction')
    same(df.iloc[:, 1], R, 'fitted realization')
    same(one, P, 'fitted prediction series')
    same(two, R, 'fitted realization series')
    if index is not None:
        require(list(df.index) == index, 'fitted series is dated %s..%s', df.index[0], df.index[-1])
    if case['zeros']:
        k = ~((P == 0) & (R == 0))
        P, R = P[k], R[k]
        rec.label('zeros dropped' if not k.all() else 'no zeros')
    if np.isnan(P).any() or np.isnan(R).any() or P.size < 2:
        return
    rec.mark(bool(np.ptp(R) > 1e-3 and np.abs(P - R).max() > 1e-6))
    e = P - R
    want = {'n_samples': P.size, 'MBE': e.mean(), 'MAE': np.abs(e).mean(), 'MSE': (e ** 2).mean(), 'RMSE': np.sqrt((e ** 2).mean())}
    if abs(R.mean()) > 1e-3:
        want.update({'NMBE': e.mean() / R.mean(), 'CV(RMSE)': want['RMSE'] / R.mean()})
    if np.ptp(R) > 1e-3:
        want.update({'NRMSE': want['RMSE'] / np.ptp(R), 'R2': 1 - (e ** 2).sum() / ((R - R.mean()) ** 2).sum()})
    q = np.quantile(R, 0.75) - np.quantile(R, 0.25)
    if q > 1e-3:
        want['NRMSE_IQR'] = want['RMSE'] / q
    for key, v in want.items():
        same(ind[key], v, key)
    require(a.equals(a0) and b.equals(b0), 'inputs were changed')


SUBCHECKS = [
    Sub('measures', measures, run_measures, 1500, 40000),
    Sub('indicators', series, run_series, 1500, 40000),
]

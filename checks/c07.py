"""C07: results kept in memory and on disk are complete and the same."""

import csv
import os
import shutil
import tempfile
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks import c15
from vlib import nets, simkit
from vlib.core import Sub, require
from vlib.nets import fl
from vlib.ref import RefNet

RULE = (
    'a case counts when the run is stored in at least two pieces (memory grown '
    'or written to disk while running) and temperatures change'
)
ASSUMPTIONS = [
    'growth of the arrays in memory (after 1e6 steps) is provoked earlier by '
    'setting the number of preallocated steps',
    'the path given for storing ends with a separator (documented form)',
]


def preload():
    simkit.ms()


@st.composite
def cases(draw):
    case = draw(nets.networks(depth=1, maxlen=2, heat=draw(st.booleans()), kinds=('chain', 'mix', 'tes', 'v3w', 'loop', 'hex')))
    case['steps'] = draw(st.integers(6, 70))
    case['piece'] = draw(st.one_of(st.integers(2, 12), st.integers(2, 80)))
    case['adaptive'] = draw(st.booleans())
    case['frac'] = draw(fl(0.02, 0.4, 3))
    case['mode'] = draw(st.sampled_from(['memory', 'disk', 'disk', 'disk']))
    case['complevel'] = draw(st.sampled_from([9, 9, 1, 0]))
    case['complib'] = draw(st.sampled_from(['zlib', 'blosc']))
    case['resample'] = draw(st.booleans())
    case['freq'] = draw(st.sampled_from([100, 250, 1000, 3000, 60000]))
    case['start'] = draw(st.sampled_from(['2021-01-01 00:00:00', '2019-09-01 12:34:56', '2020-02-29 23:59:58']))
    case['load'] = draw(st.lists(st.integers(0, 30), max_size=4))
    case['loadas'] = draw(st.sampled_from(['folder', 'folder/', 'full', 'none']))
    case['slash'] = draw(st.booleans())
    keep = {}
    for p in case['net']['parts']:
        n = p.get('grid_points')
        k = draw(st.integers(0, 7))
        if k == 0:
            keep[p['name']] = False
        elif n and k == 1:
            keep[p['name']] = draw(st.integers(0, n - 1))
        elif n and k == 2:
            keep[p['name']] = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=3, unique=True))
    case['keep'] = keep
    return case


def table(s, n):
    p = s.parts[n]
    out = {'res': np.asarray(p.res), 'dm': np.asarray(p.res_dm)}
    cls = p.__class__.__name__
    if cls in ('HeatedPipe', 'CHPPlant'):
        out['heating'] = np.asarray(p.res_dQ)
    if cls == 'CHPPlant':
        out.update(Pel=np.asarray(p.res_Pel), Pgas=np.asarray(p.res_Pgas), chp_state=np.asarray(p._chp_state))
    return out


def resampled(idx_ns, data, freq_ms, start):
    """mean per time slot, linear in between (slots are counted from midnight)"""
    f = freq_ms * 1000000
    day = pd.Timestamp(start).normalize().value
    b = (idx_ns - day) // f
    nb = int(b[-1] - b[0]) + 1
    out = np.full((nb, data.shape[1]), np.nan)
    for i in range(nb):
        m = b == b[0] + i
        if m.any():
            out[i] = data[m].mean(axis=0)
    ok = ~np.isnan(out[:, 0])
    x = np.arange(nb)
    for j in range(data.shape[1]):
        out[:, j] = np.interp(x, x[ok], out[ok, j])
    return day + (b[0] + x) * f, out


def same(a, b, what):
    require(a.shape == b.shape, '%s: shape %s instead of %s', what, a.shape, b.shape)
    if a.size:
        e = np.abs(a - b) / (1e-12 + 1e-12 * np.abs(b))
        i = np.unravel_index(int(e.argmax()), e.shape)
        require(e[i] <= 1, '%s: row %s is %r instead of %r', what, i, a[i], b[i])


def run(case, rec):
    r = RefNet(case['net'])
    pf = r.port_flows(case['pump'], case['valve'])
    _, mags = r.rhs(r.init_state(), pf, case['heat'], terms=True)
    if any(p.cls == 'Tes' for p in r.parts.values()):
        inv = {n: np.linspace(v.min() - 1, v.max() + 1, v.size) for n, v in r.init_state().items()}
        r.rhs(inv, pf, case['heat'], terms=True)
    top = max([float(m.max()) for n, m in mags.items() if n in case['heat']] + [1e-9])
    dt = min(case['frac'] / max(r.rate, 1e-9), 5.0, 12.0 / top / case['steps'])
    total = dt * (case['steps'] - 0.5)
    tf = dict(adaptive_steps=False, timestep=dt)
    if case['adaptive']:
        tf = dict(adaptive_steps=True, max_stepsize=dt, rtol=1e-2)
    both(case, rec, dict(case['net'], timeframe=total, tf=tf))


def both(case, rec, net):
    """the same run stored at once and in pieces"""
    a = simkit.run(net)
    t = np.asarray(a.time_vec)
    ref = {n: table(a, n) for n in a.parts}
    rec.label(case['mode'], *case['labels'][-1:])
    moved = max(float(np.abs(v['res'][-1] - v['res'][0]).max()) for v in ref.values())
    rec.mark(moved > 1e-6 and case['piece'] < len(t) - 1)
    if case['mode'] == 'memory':
        b = simkit.build(net, initialize=False)
        b._save_every_n_steps = case['piece']
        with simkit.quiet():
            b.initialize_sim()
        b = simkit.run(b)
        rec.label('grown' if case['piece'] < len(t) - 1 else 'fits')
        compare(a, b, t, ref)
        return
    d = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH', None))
    try:
        disk(case, rec, net, a, t, ref, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def compare(a, b, t, ref):
    same(np.asarray(b.time_vec), t, 'time')
    for n in ref:
        for k, v in table(b, n).items():
            same(v, ref[n][k], '%s of %s in memory' % (k, n))


def disk(case, rec, net, a, t, ref, d):
    parts = [dict(p, store_results=case['keep'][p['name']]) if p['name'] in case['keep'] else p for p in net['parts']]
    net = dict(net, parts=parts, disk=dict(
        save=True, save_every_n_steps=case['piece'], sim_name='x', path=d + '/', start_date=case['start'],
        resample_final=case['resample'], resample_freq='%dms' % case['freq'], complevel=case['complevel'], complib=case['complib'],
    ))
    rec.label('resampled' if case['resample'] else 'all rows', 'complevel %d' % case['complevel'])
    rec.label('several pieces' if case['piece'] < len(t) - 1 else 'one piece')
    b = simkit.run(net)
    compare(a, b, t, ref)
    files = sorted(os.listdir(d))
    h5 = [f for f in files if f.endswith('.h5')]
    require(len(h5) == 1 and not [f for f in files if 'tmp' in f], 'files in the result folder: %s', files)
    with simkit.quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = b.return_stored_data()
    idx = (pd.Timestamp(case['start']) + pd.to_timedelta(t, unit='s')).values.astype('int64')
    direct = {}
    with pd.HDFStore(os.path.join(d, h5[0]), mode='r') as store:
        for k in store.keys():
            direct[k] = store[k]
    load(case, rec, os.path.join(d, h5[0]), direct)
    for n in ref:
        keep = case['keep'].get(n, True)
        if keep is False:
            require(n not in got, 'results of %s are stored with store_results=False', n)
            require(not any(k.startswith('/%s/' % n) for k in direct), 'results of %s are on disk with store_results=False', n)
            continue
        require(n in got, 'results of %s are not stored', n)
        for k, v in ref[n].items():
            what = '%s of %s on disk' % (k, n)
            require(k in got[n], '%s missing', what)
            df = got[n][k]
            v = v.reshape(len(v), -1)
            if keep is not True and v.shape[1] > 1:
                v = v[:, [keep] if isinstance(keep, int) else list(keep)]
            if case['resample']:
                want_i, want = resampled(idx, v, case['freq'], case['start'])
            else:
                want_i, want = idx, v
            gi = df.index.values.astype('int64')
            require(len(gi) == len(want_i), '%s: %d rows instead of %d', what, len(gi), len(want_i))
            require(np.abs(gi - want_i).max() <= 1, '%s: row is dated %s instead of %s', what, df.index[0], pd.Timestamp(int(want_i[0])))
            if case['resample']:
                e = np.abs(df.values - want)
                require(df.shape == want.shape and (e <= 1e-9 * (1 + np.abs(want))).all(), '%s: resampled values differ by up to %.3g', what, e.max() if df.shape == want.shape else np.nan)
            else:
                same(df.values, want, what)
            require('/%s/%s' % (n, k) in direct, '%s: table is not in the file', what)
            require(np.array_equal(direct['/%s/%s' % (n, k)].values, df.values), '%s: file differs from return_stored_data', what)
    sv = got['sim_vecs']
    same(sv['time'].values, t, 'stored time')
    st_ = np.diff(t)
    same(sv['timestep'].values[:-1], st_, 'stored step sizes')
    require(np.abs(sv.index.values.astype('int64') - idx).max() <= 1, 'stored time vector is dated wrongly')
    rep = [f for f in files if f.endswith('_REPORT.csv')]
    require(len(rep) == 1, 'no report written: %s', files)
    rows = {}
    for row in csv.reader(open(os.path.join(d, rep[0])), delimiter=';'):
        if len(row) == 2:
            rows[row[0]] = row[1]
    require(rows.get('Simulation success') == 'True', 'report: success=%s', rows.get('Simulation success'))
    require(rows.get('Sim. solved in n steps') == str(len(t)), 'report: %s steps, %d recorded', rows.get('Sim. solved in n steps'), len(t))
    require(abs(float(rows['Total timeframe in s']) - t[-1]) <= 1e-9 * t[-1], 'report: total time %s s of %r s', rows['Total timeframe in s'], t[-1])


def load(case, rec, fn, direct):
    """load_sim_results gives the tables of the file"""
    import multisim.utility_functions as uf

    how = case['loadas']
    folder, name = os.path.split(fn)
    arg = {'folder': (name, folder), 'folder/': (name, folder + '/'), 'full': (fn, ''), 'none': (fn, None)}[how]
    tabs = sorted(k for k in direct if k != '/sim_vecs')
    pick = [tabs[i % len(tabs)] for i in case['load']] if tabs else []
    keys = 'all'
    want = set(tabs)
    if pick:
        want = set(pick)
        keys = [k if case['slash'] else k[1:] for k in pick]
        keys = keys[0] if len(keys) == 1 else tuple(keys) if case['slash'] else keys
    if not want:
        return
    rec.label('loaded %s' % ('all' if keys == 'all' else 'selection'))
    flat = uf.load_sim_results(arg[0], path=arg[1], keys=keys, multiindex=False)
    got = {}
    for k, v in flat.items():
        if isinstance(v, dict):
            got.update(('/%s/%s' % (k, k2), v2) for k2, v2 in v.items())
        else:
            got['/' + k] = v
    want_all = want | ({'/sim_vecs'} if keys == 'all' else set())
    require(set(got) == want_all, 'loaded %s instead of %s', sorted(got), sorted(want_all))
    for k in want_all:
        require(got[k].equals(direct[k]), 'loaded table %s differs from the stored one', k)
    mi = uf.load_sim_results(arg[0], path=arg[1], keys=keys, multiindex=True)
    if keys == 'all':
        require(isinstance(mi, dict) and set(mi) == {'data', 'sim_vecs'}, 'loaded tables have no simulation vectors')
        require(mi['sim_vecs'].equals(direct['/sim_vecs']), 'loaded simulation vectors differ from the stored ones')
        mi = mi['data']
    cols = [tuple(k[1:].split('/')) + (c,) for k in want for c in direct[k].columns]
    require(sorted(map(str, mi.columns)) == sorted(map(str, cols)), 'loaded columns %s instead of %s', list(mi.columns)[:6], cols[:6])
    for k in want:
        a, b = k[1:].split('/')
        require(np.array_equal(mi[a][b].values, direct[k].values) and (mi.index == direct[k].index).all(), 'loaded columns of %s differ from the stored ones', k)


# ------------------------------------------------ parts with more to record
@st.composite
def plants(draw):
    case = dict(plant=draw(c15.cases()), labels=['plant'])
    case['plant']['pieces'] = [[min(n, 25), v] for n, v in case['plant']['pieces'][:4]]
    case['piece'] = draw(st.one_of(st.integers(2, 12), st.integers(2, 80)))
    case['mode'] = draw(st.sampled_from(['memory', 'disk', 'disk']))
    case['complevel'], case['complib'] = 0, 'zlib'
    case['resample'] = draw(st.integers(0, 3)) == 0
    case['freq'] = draw(st.sampled_from([1000, 3000, 60000]))
    case['start'] = simkit.START
    case['load'], case['loadas'], case['slash'] = [], 'folder', True
    case['keep'] = {n: False for n in ('chp', 'q', 'pp') if draw(st.integers(0, 9)) == 0}
    return case


def run_plants(case, rec):
    if case['plant']['eta'] * (1 + 1 / case['plant']['p2h']) > 0.961:
        rec.label('refused')
        return
    net = c15.build(case['plant'])[0]
    try:
        both(case, rec, net)
    except (AssertionError, ValueError) as e:
        if 'Temperature range' in str(e) or 'stab' in str(e).lower():
            rec.label('left the range')
            return
        raise


SUBCHECKS = [
    Sub('storage', cases, run, 180, 9000),
    Sub('plants', plants, run_plants, 60, 3000),
]

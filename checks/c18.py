"""C18: meters."""

import os
import shutil
import tempfile
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks import c07
from vlib import nets, simkit
from vlib.core import Sub, require
from vlib.nets import fl
from vlib.ref import RefNet, cp_w, rho_w

RULE = 'a case counts when a heat meter sees a flow and a temperature difference that are not zero'
ASSUMPTIONS = [
    'cells and massflows are the recorded ones (res, res_dm), whose correctness is C01 to C08',
    'a meter is named once; meters of the same name and different type are not stored on disk together',
]


def preload():
    simkit.ms()


@st.composite
def cases(draw):
    case = draw(nets.networks(depth=1, maxlen=2, heat=draw(st.booleans()), kinds=('chain', 'mix', 'tes', 'v3w', 'loop', 'hex', 'hex')))
    case['steps'] = draw(st.integers(3, 25))
    case['adaptive'] = draw(st.booleans())
    case['frac'] = draw(fl(0.02, 0.4, 3))
    case['disk'] = draw(st.integers(0, 4)) == 0
    case['resample'] = draw(st.booleans())
    case['freq'] = draw(st.sampled_from([100, 250, 1000, 3000]))
    case['start'] = draw(st.sampled_from(['2021-01-01 00:00:00', '2019-09-01 12:34:56', '2020-02-29 23:59:58']))
    case['cls'] = draw(st.integers(0, 1))
    n = draw(st.integers(1, 5))
    names = [p['name'] for p in case['net']['parts']]
    ms = []
    for i in range(n):
        ms.append(dict(
            kind=draw(st.sampled_from(['heat', 'heat', 'temperature', 'massflow', 'volumeflow'])), name='m%d' % i,
            a=draw(st.sampled_from(names)), b=draw(st.sampled_from(names)), ca=draw(st.integers(0, 40)), cb=draw(st.integers(0, 40)),
            hot=draw(st.booleans()), full=draw(st.booleans()),
        ))
    case['meters'] = ms
    case['dup'] = draw(st.integers(0, 3)) == 0
    return case


def flow_of(s, r, n, cell):
    """recorded massflow at a cell"""
    D = np.asarray(s.parts[n].res_dm)
    p = r.parts[n]
    if p.cls == 'HeatExchanger':
        return D[:, 0 if cell < 2 else 1]
    return D[:, 0] if D.shape[1] == 1 else D[:, cell]


def run(case, rec):
    r = RefNet(case['net'])
    pf = r.port_flows(case['pump'], case['valve'])
    r.rhs(r.init_state(), pf, case['heat'], terms=True)
    if any(p.cls == 'Tes' for p in r.parts.values()):
        inv = {n: np.linspace(v.min() - 1, v.max() + 1, v.size) for n, v in r.init_state().items()}
        r.rhs(inv, pf, case['heat'], terms=True)
    dt = min(case['frac'] / max(r.rate, 1e-9), 5.0)
    tf = dict(adaptive_steps=True, max_stepsize=dt, rtol=1e-2) if case['adaptive'] else dict(adaptive_steps=False, timestep=dt)
    net = dict(case['net'], timeframe=dt * (case['steps'] - 0.5), tf=tf)
    d = None
    try:
        if case['disk']:
            d = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH', '/tmp'))
            net['disk'] = dict(
                save=True, path=d + os.sep, sim_name='x', start_date=case['start'], resample_final=case['resample'],
                resample_freq='%dL' % case['freq'], save_every_n_steps=1000000,
            )
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            meter(case, rec, simkit.run(net), r, d)
    finally:
        if d:
            shutil.rmtree(d, ignore_errors=True)


def meter(case, rec, s, r, d):
    m = simkit.ms()
    M = (m.Meters, m.ut.Meters)[case['cls']](s, start_time=case['start'])
    t = np.asarray(s.time_vec)
    start = pd.Timestamp(case['start']).value
    # every sample holds until the next one, the last as long as the one before
    h = np.append(np.diff(t), t[-1] - t[-2])
    for q in case['meters']:
        n = q['a']
        size = np.asarray(s.parts[n].res)[0].size
        ca, cb = q['ca'] % size, q['cb'] % np.asarray(s.parts[q['b']].res)[0].size
        R = np.asarray(s.parts[n].res)
        want = {}
        if q['kind'] == 'heat':
            B = np.asarray(s.parts[q['b']].res)
            kw = dict(massflow_from_hot_part=True) if q['hot'] else {}
            M.heat_meter(name=q['name'], warm_part=n, warm_cell=ca, cold_part=q['b'], cold_cell=cb, full_output=q['full'], **kw)
            got = M.meters['heat_meter'][q['name']]
            f = flow_of(s, r, n, ca) if q['hot'] else flow_of(s, r, q['b'], cb)
            a, b = R[:, ca], B[:, cb]
            vol = f / rho_w(b)
            heat = (a - b) * f * (cp_w(a) + cp_w(b)) / 2 / 1e3
            want.update({
                'T_ff': a, 'T_rf': b, 'T_diff': a - b, 'massflow_kgps': f, 'volume_flow_m3ps': vol, 'flown_mass_kg': np.cumsum(f * h),
                'flown_volume_m3': np.cumsum(vol * h), 'heatflow_kW': heat, 'flown_heat_MJ': np.cumsum(heat * h) / 1e3,
                'flown_heat_kWh': np.cumsum(heat * h) / 3600,
            })
            if q['full']:
                want.update({
                    'flown_mass_pos_kg': np.cumsum(np.maximum(f, 0) * h), 'flown_volume_pos_m3': np.cumsum(np.maximum(vol, 0) * h),
                    'flown_heat_pos_MJ': np.cumsum(np.maximum(heat, 0) * h) / 1e3, 'flown_heat_pos_kWh': np.cumsum(np.maximum(heat, 0) * h) / 3600,
                })
            rec.mark(bool((np.abs(heat) > 1e-9).any()))
            if (f < 0).any():
                rec.label('reverse flow')
        elif q['kind'] == 'temperature':
            M.temperature(name=q['name'], part=n, cell=ca)
            got = M.meters['temperature'][q['name']]
            want['T_' + q['name']] = R[:, ca]
        elif q['kind'] == 'massflow':
            M.massflow(name=q['name'], part=n, cell=ca)
            got = M.meters['massflow'][q['name']]
            want[q['name']] = flow_of(s, r, n, ca)
        else:
            M.volumeflow(name=q['name'], part=n, cell=ca)
            got = M.meters['volumeflow'][q['name']]
            want[q['name']] = flow_of(s, r, n, ca) / rho_w(R[:, ca])
        what = '%s meter at %s[%d]' % (q['kind'], n, ca)
        require(set(got.columns) == set(want), '%s: columns %s', what, list(got.columns))
        data = np.column_stack([want[c] for c in got.columns])
        idx = start + np.round(t * 1e9).astype('int64')
        if case['disk'] and case['resample']:
            idx, data = c07.resampled(pd.to_datetime(t, origin=pd.Timestamp(case['start']), unit='s').asi8, data, case['freq'], case['start'])
        require(len(got) == len(idx), '%s: %d rows, %d expected', what, len(got), len(idx))
        require((np.abs(got.index.asi8 - idx) <= 1000).all(), '%s: dated %s..%s', what, got.index[0], got.index[-1])
        scale = 1e-9 * np.abs(data).max(axis=0) + 1e-12
        bad = np.abs(got.values - data) > scale + 1e-9 * np.abs(data)
        if bad.any():
            i, j = np.argwhere(bad)[0]
            require(False, '%s: %s is %.10g in row %d, %.10g expected', what, got.columns[j], got.values[i, j], i, data[i, j])
        # the table of all meters holds the same
        kind = {'heat': 'heat_meter'}.get(q['kind'], q['kind'])
        df = M.get_sensors_df()
        for j, c in enumerate(got.columns):
            col = df[(kind, q['name'], c)]
            require(np.array_equal(np.asarray(col.values, float), got[c].values), '%s: column %s differs in the table of all meters', what, c)
        require(M.get_sensors_dict()[kind][q['name']] is not None, 'meter is not listed')
        if d and case['disk']:
            path = [os.path.join(d, f) for f in os.listdir(d) if f.endswith('.h5')]
            require(len(path) == 1, 'stores %s', path)
            s._disk_store['store'].close()
            with pd.HDFStore(path[0], 'r') as st_:
                x = st_['meters/' + q['name']]
            require(np.array_equal(x.values, got.values) and (x.index == got.index).all(), '%s: stored table differs', what)
        rec.label(q['kind'], r.parts[n].cls)
        if case['dup']:
            # the same name must not replace the meter
            f = dict(heat=M.heat_meter, temperature=M.temperature, massflow=M.massflow, volumeflow=M.volumeflow)[q['kind']]
            try:
                if q['kind'] == 'heat':
                    f(name=q['name'], warm_part=n, warm_cell=0, cold_part=n, cold_cell=0)
                else:
                    f(name=q['name'], part=n, cell=0)
            except AssertionError:
                pass
            else:
                require(False, '%s: a second meter of this name replaced it', what)


SUBCHECKS = [Sub('meters', cases, run, 700, 20000)]

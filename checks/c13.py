"""C13: runs which become invalid are stopped and reported as failed."""

import contextlib
import csv
import io
import os
import random
import shutil
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

from vlib import nets, simkit
from vlib.core import Sub, require
from vlib.nets import fl
from vlib.ref import RefNet
from vlib.simkit import BC

RULE = 'a case counts when invalid values occurred in the run'
ASSUMPTIONS = [
    'invalid values are provoked with temperatures above the range of the correlations for water (about 117 degC) or with an undefined mass flow',
    'invalid values have to be found within 5000 steps, or at the end of the run',
    'an exception in place of a failed run is a stop, too',
]
EVERY = 5000


def preload():
    simkit.ms()


def load_report(d):
    rep = [f for f in sorted(os.listdir(d)) if f.endswith('_REPORT.csv')]
    require(len(rep) == 1, 'no report written: %s', sorted(os.listdir(d)))
    with open(os.path.join(d, rep[0])) as f:
        return {r[0]: r[1] for r in csv.reader(f, delimiter=';') if len(r) == 2}


def bad_rows(s):
    """first row with an invalid value, over all parts"""
    k = None
    for p in s.parts.values():
        for a in (p.res, p.res_dm):
            a = np.asarray(a, float)
            n = np.flatnonzero(np.isnan(a.reshape(len(a), -1)).any(axis=1))
            if n.size:
                k = n[0] if k is None else min(k, n[0])
    return k


def final_bad(s):
    return any(np.isnan(np.asarray(a, float)).any() for p in s.parts.values() for a in (p.T, p.dm))


def go(net, rec):
    """(simulation, report, printed text) or None when it was refused"""
    d = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH', None))
    try:
        net = dict(net, disk=dict(net.get('disk') or {}, save=True, sim_name='x', path=d + '/', start_date=simkit.START, resample_final=False, complevel=0))
        s = simkit.build(net)
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                s.start_sim()
        except Exception as e:
            return s, None, e
        return s, load_report(d), out.getvalue()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(net, s, rep, text, rec):
    t = np.asarray(s.time_vec)
    T = net['timeframe']
    k = bad_rows(s)
    state = np.asarray(s._solver_state).astype(int)
    require(len(state) == len(t), '%d solver states for %d steps', len(state), len(t))
    require(rep.get('Simulation success') in ('True', 'False'), 'report: success=%s', rep.get('Simulation success'))
    ok = rep['Simulation success'] == 'True'
    if k is None:
        require(ok, 'a run without invalid values is reported as failed')
        require('WARNING' not in text and not (state >= 98).any(), 'a run without invalid values is marked as failed')
        require(t[-1] >= T * (1 - 1e-12), 'a run without invalid values was stopped at %r of %r s', t[-1], T)
        rec.label('valid')
    elif not final_bad(s):
        # values which were invalid only for a moment need not be found
        rec.label('recovered')
        return k
    else:
        rec.mark()
        last = len(t) - 1
        require(not ok, 'invalid values from step %d (%.6g s) on: reported as a success', k, t[k])
        require(rep.get('failure reason') == 'Invalid value encountered', 'invalid values from step %d on: failure reason is %r', k, rep.get('failure reason'))
        require(last - k <= EVERY, 'invalid values from step %d on, stopped only at step %d', k, last)
        require(state[last] == 98, 'invalid values: last solver state is %d', state[last])
        require(not (state[:last] >= 98).any(), 'steps before the last one are marked as failed')
        require('WARNING: Invalid value found' in text, 'invalid values: no warning printed')
        rec.label('stopped early' if t[-1] < T else 'found at the end')
    n = rep.get('Sim. solved in n steps' if ok else 'Sim. failed at step')
    require(n == str(len(t)), 'report: %s steps, %d recorded', n, len(t))
    tsv = np.append(np.diff(t), t[-1] - t[-2])
    for key, want in (
        ('Total timeframe in s', t.max()), ('Total timeframe in d', t.max() / 86400), ('Mean stepsize in s', tsv.mean()), ('Median stepsize in s', np.percentile(tsv, 50)),
        ('25% quartile stepsize in s', np.percentile(tsv, 25)), ('75% quartile stepsize in s', np.percentile(tsv, 75)),
        ('Number of repeated steps', float(np.asarray(s._failed_steps).sum())), ('Normal steps (including repeated)', (state == 4).sum()),
        ('Steps limited to maximum stepsize', (state == 5).sum()), ('Steps limited to minimum stepsize', (state == 6).sum()),
    ):
        require(abs(float(rep[key]) - want) <= 1e-9 * abs(want), 'report: %s is %s, it is %.10g', key, rep[key], want)
    return k


# ------------------------------------------------------------- any network
@st.composite
def networks(draw):
    case = draw(nets.networks(depth=1, maxlen=2, heat=draw(st.booleans())))
    case['inject'] = draw(st.sampled_from(['none', 'bc', 'bc', 'init', 'init', 'amb']))
    case['T'] = draw(st.sampled_from([125.0, 140.0, 300.0]))
    case['which'] = draw(st.integers(0, 30))
    case['cell'] = draw(st.integers(0, 30))
    case['at'] = draw(fl(0.0, 0.9, 2))
    case['n'] = draw(st.integers(2, 60))
    case['frac'] = draw(fl(0.02, 0.3, 2))
    case['adaptive'] = draw(st.integers(0, 2)) == 0
    case['piece'] = draw(st.integers(2, 80))
    return case


def run_networks(case, rec):
    net = dict(case['net'])
    r = RefNet(net)
    pf = r.port_flows(case['pump'], case['valve'])
    _, mags = r.rhs(r.init_state(), pf, case['heat'], terms=True)
    top = max([float(m.max()) for n, m in mags.items() if n in case['heat']] + [1e-9])
    dt = min(case['frac'] / max(r.rate, 1e-9), 5.0, 10.0 / top / case['n'])
    total = dt * (case['n'] - 0.5)
    if case['adaptive']:
        tf = dict(adaptive_steps=True, min_stepsize=dt / 10, max_stepsize=dt * 10, rtol=1e-3)
    else:
        tf = dict(adaptive_steps=False, timestep=dt)
    how = case['inject']
    if how == 'bc' and net['bcs']:
        b = net['bcs'][case['which'] % len(net['bcs'])]
        jump = int(case['at'] * case['n'])
        q = dict(name=b['name'], series=dict(values=[b['T']] * jump + [case['T']] * (case['n'] + 3 - jump), freq_s=max(dt, 1e-6)))
        q['series']['freq_s'] = float(np.ceil(dt * 1e6) / 1e6)
        net['bcs'] = [q if x is b else x for x in net['bcs']]
    elif how == 'init':
        num = [p for p in net['parts'] if p['name'] in r.init_state() and p['cls'] != 'Tes'] or net['parts'][:1]
        p = num[case['which'] % len(num)]
        T0 = r.init_state().get(p['name'], np.array([20.0])).copy()
        T0[case['cell'] % T0.size] = case['T']
        net['parts'] = [dict(x, T_init={'@array': [float(v) for v in T0]}) if x is p else x for x in net['parts']]
    elif how == 'amb':
        p = net['parts'][case['which'] % len(net['parts'])]
        net['parts'] = [dict(x, T_amb=case['T'] * 4) if x is p else x for x in net['parts']]
    net.update(timeframe=total, tf=tf, disk=dict(save_every_n_steps=case['piece']))
    s, rep, text = go(net, rec)
    rec.label('inject ' + how, 'adaptive' if case['adaptive'] else 'constant')
    if rep is None:
        if how == 'none' or (how == 'bc' and not net['bcs']):
            raise text
        rec.label('raised ' + type(text).__name__)
        return
    judge(net, s, rep, text, rec)


# --------------------------------------------------------------- long runs
@st.composite
def long(draw):
    g = random.Random(draw(st.integers(0, 2 ** 40)))
    return dict(
        T=g.choice([130.0, 200.0]), at=g.choice([0.0, 0.02, 0.3, 0.45, 1.0]), steps=g.choice([5200, 7000, 12000]),
        piece=g.choice([700, 3000, 4999, 5000, 5001, 100000]), adaptive=g.random() < 0.5,
    )


def run_long(case, rec):
    P = dict(pipe_specs={'all': {'pipe_type': 'EN10255_medium', 'DN': 'DN25'}}, T_init=20.0, T_amb=20.0, insulation_thickness=0.01, insulation_lambda=0.035, material='carbon_steel')
    dt = 0.05
    n = case['steps']
    total = dt * n
    if case['adaptive']:
        # invalid steps are taken with the smallest step size, which never gets to the end
        tf = dict(adaptive_steps=True, max_stepsize=dt)
    else:
        tf = dict(adaptive_steps=False, timestep=dt)
    a = dict(P, cls='PipeWithPump', name='a', length=1.0, grid_points=2, start_massflow=0.05, ctrl_required=False, const_val=0.05, lower_limit=-1.0, upper_limit=1.0, maximum_flow=1.0)
    m = int(total) + 3
    j = int(case['at'] * m)
    bcs = [dict(name='BC_0', series=dict(values=[20.0] * j + [case['T']] * (m - j), freq_s=1.0)), dict(name='BC_1', T=20.0)]
    net = dict(
        parts=[a], bcs=bcs, conns=[[BC, 'BC_0', 'a', 'in'], ['a', 'out', BC, 'BC_1']],
        timeframe=total, tf=tf, disk=dict(save_every_n_steps=case['piece']),
    )
    s, rep, text = go(net, rec)
    if rep is None:
        rec.label('raised ' + type(text).__name__)
        return
    k = judge(net, s, rep, text, rec)
    rec.label('adaptive' if case['adaptive'] else 'constant', 'from step %s' % ('none' if k is None else '0' if k < 100 else 'later'))


SUBCHECKS = [
    Sub('networks', networks, run_networks, 160, 8000),
    Sub('long', long, run_long, 24, 240),
]

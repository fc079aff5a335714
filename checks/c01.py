"""C01: massflows solve the mass balances of the network."""

import numpy as np
from hypothesis import strategies as st

from vlib import nets, simkit
from vlib.core import Sub, require
from vlib.nets import fl
from vlib.ref import RefNet

RULE = (
    'a case counts when the network has at least one branching part (valve, '
    'connector, branched pipe, storage with extra ports) or a reversed/negative '
    'flow, and at least one nonzero flow'
)
ASSUMPTIONS = [
    'networks are drawn from a grammar of well-posed topologies; the expected '
    'flows are the unique solution of the linear mass balances'
]


def preload():
    simkit.ms()


def mark(rec, case, pf):
    rec.label(*case['labels'])
    branching = any(
        x in lb
        for lb in case['labels']
        for x in ('valve', 'bypass', 'branch')
    )
    neg = any(v < 0 for (n, q), v in pf.items() if q in ('in', 'A'))
    rec.mark((branching or neg) and any(abs(v) > 0 for v in pf.values()))


def compare(s, r, pf, rows, what=''):
    for n in r.parts:
        exp = r.cell_flows(n, pf)
        got = np.asarray(s.parts[n].res_dm)[rows]
        require(
            got.ndim == 2 and got.shape[1] == exp.size,
            '%s%s: %d recorded flows, expected %d', what, n, got.shape[-1], exp.size,
        )
        err = np.abs(got - exp)
        k = np.unravel_index(int(err.argmax()), err.shape)
        require(
            err[k] <= 1e-9,
            '%s%s %r: recorded flow %.12g kg/s in column %d, mass balance gives %.12g',
            what, r.parts[n].cls, n, got[k], k[1], exp[k[1]],
        )


# ------------------------------------------------------------------ constant
def run_const(case, rec):
    net = dict(case['net'], timeframe=0.0025, tf=dict(adaptive_steps=False, timestep=0.001))
    r = RefNet(net)
    pf = r.port_flows(case['pump'], case['valve'])
    s = simkit.run(net)
    compare(s, r, pf, slice(1, None))
    mark(rec, case, pf)
    # the flow entering each port of every part balances
    for n, p in r.parts.items():
        if p.cls == 'Connector3w':
            tot = np.abs(np.asarray(s.parts[n].res_dm)[1:].sum(axis=1)).max()
            require(tot < 1e-9, '%s: %g kg/s are lost in the connector', n, tot)


# ------------------------------------------------------------------- series
@st.composite
def varying(draw):
    case = draw(nets.networks(depth=1, maxlen=2))
    # every pump follows its own schedule (sign changes and zero included)
    sched = {}
    fwd = any('valve' in lb for lb in case['labels'])
    for n, f in case['pump'].items():
        part = [p for p in case['net']['parts'] if p['name'] == n][0]
        lo = 0.0 if fwd or part['cls'] == 'PipeWithPump' else -0.5
        v = draw(st.lists(fl(lo, 0.5, 3), min_size=6, max_size=6))
        if draw(st.integers(0, 3)) == 0:
            v[draw(st.integers(0, 5))] = 0.0
        sched[n] = v
    case['sched'] = sched
    return case


def run_series(case, rec):
    parts = []
    for p in case['net']['parts']:
        p = dict(p)
        if p['name'] in case['sched']:
            v = case['sched'][p['name']]
            ser = {'@series': {'values': v, 'freq_s': 1.0}}
            if p['cls'] == 'Pump':
                p.pop('dm_const')
                p['time_series'] = ser
                p['start_massflow'] = v[0]
            else:
                p.pop('const_val')
                p['time_series'] = ser
                p['start_massflow'] = v[0]
        parts.append(p)
    net = dict(case['net'], parts=parts, timeframe=2.9, tf=dict(adaptive_steps=False, timestep=0.25))
    r = RefNet(net)
    s = simkit.run(net)
    t = np.asarray(s.time_vec)
    # recorded pump flows decide what all others have to be
    for k in range(1, len(t)):
        pump = {n: float(np.asarray(s.parts[n].res_dm)[k, 0]) for n in case['sched']}
        pf = r.port_flows(pump, case['valve'])
        compare(s, r, pf, slice(k, k + 1), 't=%.3g s ' % t[k])
    mark(rec, case, pf)


# ------------------------------------------------------ controlled valves/pumps
@st.composite
def stepped(draw):
    """the openings and pump speeds change while the simulation runs"""
    case = draw(nets.networks(kinds=('chain', 'loop', 'mix'), depth=2, maxlen=3, tes=False).filter(
        lambda c: any('valve' in lb for lb in c['labels'])))
    case['amp'] = {n: draw(fl(0.0, 1.0, 2)) for n in case['valve']}
    return case


def run_stepped(case, rec):
    """valves driven at a limited slope from their start opening"""
    parts, ctrls = [], []
    for p in case['net']['parts']:
        p = dict(p)
        if p['name'] in case['amp']:
            p['port_A_init'] = case['amp'][p['name']]
        parts.append(p)
    for c in case['net']['ctrls']:
        c = dict(c, slope={'@tuple': [-0.6, 0.7]})
        ctrls.append(c)
    net = dict(case['net'], parts=parts, ctrls=ctrls, timeframe=1.0, tf=dict(adaptive_steps=False, timestep=0.125))
    r = RefNet(net)
    s = simkit.run(net)
    n_rows = len(np.asarray(s.time_vec))
    moved = False
    for k in range(1, n_rows):
        valve = {}
        for n in case['valve']:
            a, b, ab = np.abs(np.asarray(s.parts[n].res_dm)[k])
            require(abs(a + b - ab) < 1e-9, '%s: %g + %g is not %g kg/s', n, a, b, ab)
            valve[n] = a / ab if ab > 1e-12 else case['valve'][n]
            require(-1e-9 <= valve[n] <= 1 + 1e-9, '%s: opening %g', n, valve[n])
            moved = moved or abs(valve[n] - case['valve'][n]) > 0.01
        pf = r.port_flows(case['pump'], valve)
        compare(s, r, pf, slice(k, k + 1), 'step %d ' % k)
    rec.label(*case['labels'])
    rec.mark(moved)


SUBCHECKS = [
    Sub('constant', lambda: nets.networks(), run_const, 560, 16000),
    Sub('series', varying, run_series, 200, 6000),
    Sub('stepped', stepped, run_stepped, 120, 4000),
]

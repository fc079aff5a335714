"""C04: pumps, mixing/splitting valves and connectors conserve energy."""

import numpy as np

from vlib import nets, simkit
from vlib.core import Sub, require
from vlib.ref import RefNet, cp_w
from vlib.thermal import series_state

RULE = (
    'a case counts when a junction with a nonzero flow joins ports whose '
    'temperatures differ by more than 1 K'
)
ASSUMPTIONS = [
    'the outflow heat capacity of a mixture is the one at the mean of the two '
    'inflow temperatures (documented approximation, error far below 0.5 %)'
]
ORDER = {'Pump': ('in', 'out'), 'MixingValve': ('A', 'B', 'AB'), 'Connector3w': ('A', 'B', 'C')}


def preload():
    simkit.ms()


def run(case, rec):
    r = RefNet(case['net'])
    pf = r.port_flows(case['pump'], case['valve'])
    r.rhs(r.init_state(), pf, case['heat'], terms=True)
    dt = min(0.02, 0.0005 / max(r.rate, 1e-9))
    net = dict(case['net'], timeframe=dt * 6.5, tf=dict(adaptive_steps=False, timestep=dt))
    s = simkit.run(net)
    n_rows = len(np.asarray(s.time_vec))
    require(n_rows >= 7, 'only %d steps recorded', n_rows)
    rec.label(*case['labels'])
    for n, p in r.parts.items():
        if p.cls == 'Connector3w':
            for q, v in zip('ABC', np.asarray(s.parts[n].res_dm)[3]):
                if pf[(n, q)] == 0 and abs(v) < 1e-12:
                    pf[(n, q)] = float(v)
    for k in range(2, n_rows):
        st0, st1 = series_state(s, r, k - 1), series_state(s, r, k)
        a, b = r.shown(st0, pf), r.shown(st1, pf)
        for n, p in r.parts.items():
            if p.numeric:
                continue
            got = np.asarray(s.parts[n].res)[k]
            require(got.shape == (len(ORDER[p.cls]),), '%s: %d recorded temperatures', n, got.size)
            fl = {q: pf[(n, q)] for q in p.ports}
            # temperatures arriving at the junction
            T = {}
            for q in p.ports:
                on, oq = r.link[(n, q)][:2]
                T[q] = r.bcs[oq]['T'] if on == 'BoundaryCondition' else b[(on, oq)]
            # junctions use intermediate states of the step
            near = [r.link[(n, q)][0] for q in p.ports]
            move = 1e-9 + 2 * max([np.abs(st1[m] - st0[m]).max() for m in near if m in st1])
            if k == 2:
                rec.mark(any(fl.values()) and max(T.values()) - min(T.values()) > 1.0)
                rec.label('%s %s' % (p.cls, ''.join('+-0'[0 if f > 0 else 1 if f < 0 else 2] for f in fl.values())))
            for q, g in zip(ORDER[p.cls], got):
                x, y = a[(n, q)], b[(n, q)]
                tol = move + abs(x - y)
                require(
                    min(x, y) - tol <= g <= max(x, y) + tol,
                    '%s %r shows %.10g degC at port %s, expected %.10g degC (flows %s, arriving %s)',
                    p.cls, n, g, q, y, fl, T,
                )
            # energy: what flows in, flows out; between the inflow temperatures
            inn = [q for q in fl if fl[q] > 1e-9]
            out = [q for q in fl if fl[q] < -1e-9]
            if inn and out:
                hin = sum(fl[q] * cp_w(T[q]) * T[q] for q in inn)
                g = dict(zip(ORDER[p.cls], got))
                hout = -sum(fl[q] * cp_w(g[q]) * g[q] for q in out)
                scale = sum(fl[q] for q in inn) * 4200.0
                # the mean heat capacity of a mixture is good for 0.6 %
                mix = 0.01 * abs(hin) if p.cls != 'Pump' and len(inn) + len([q for q in fl if abs(fl[q]) <= 1e-9]) > 1 else 0.0
                require(
                    abs(hin - hout) <= scale * 2 * move + mix,
                    '%s %r: enthalpy flow in %.8g W, out %.8g W', p.cls, n, hin, hout,
                )


SUBCHECKS = [
    Sub('networks', lambda: nets.networks(kinds=('chain', 'loop', 'mix'), tes=False), run, 640, 20000),
    Sub('mixing', lambda: nets.networks(kinds=('mix',), depth=1, tes=False), run, 320, 10000),
]

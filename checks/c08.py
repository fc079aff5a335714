"""C08: results depend on the described system only."""

import copy

import numpy as np
from hypothesis import strategies as st

from vlib import nets, simkit
from vlib.core import Sub, require
from vlib.nets import fl
from vlib.ref import RefNet

RULE = 'a case counts when temperatures change by more than 0.01 K during the run'
ASSUMPTIONS = [
    'constant steps where rounding may differ (a different order of summation '
    'may flip the acceptance of an adaptive step)',
]


NAMES = [
    'p', 'pp', 'p1', 'p10', 'p_1', 'p 1', 'p-1', 'p.1', 'in', 'out', 'A', 'B', 'AB', 'T', 'dm', 'none', 'all', 'res', '0', '10', 'Pümpe',
    'port', 'p_gasb1_ff', 'a:b', '1p', 'a', 'b', 'ab', 'A_in', 'in_A',
]


def preload():
    simkit.ms()


def step(case, n):
    r = RefNet(case['net'])
    pf = r.port_flows(case['pump'], case['valve'])
    _, mags = r.rhs(r.init_state(), pf, case['heat'], terms=True)
    if any(p.cls == 'Tes' for p in r.parts.values()):
        inv = {m: np.linspace(v.min() - 1, v.max() + 1, v.size) for m, v in r.init_state().items()}
        r.rhs(inv, pf, case['heat'], terms=True)
    top = max([float(m.max()) for m_, m in mags.items() if m_ in case['heat']] + [1e-9])
    return min(0.3 / max(r.rate, 1e-9), 5.0, 12.0 / top / n)


def tables(s):
    out = {}
    for n, p in s.parts.items():
        out[n] = (np.array(p.res), np.array(p.res_dm)) + ((np.array(p.res_dQ),) if p.__class__.__name__ == 'HeatedPipe' else ())
    return np.array(s.time_vec), out


def same(a, b, names, what, tol, junctions=True):
    ta, ra = a
    tb, rb = b
    require(ta.shape == tb.shape and np.abs(ta - tb).max() <= tol, '%s: different times', what)
    for n, m in names.items():
        for k, (x, y) in enumerate(zip(ra[n], rb[m])):
            lab = ('temperatures', 'massflows', 'heating')[k]
            require(x.shape == y.shape, '%s: %s of %s: %s instead of %s', what, lab, n, y.shape, x.shape)
            if k == 0 and not junctions and x.shape[1] < 4 and n[0] not in 'pwt':
                continue
            e = np.abs(x - y)
            i = np.unravel_index(int(e.argmax()), e.shape)
            require(e[i] <= tol * max(1.0, abs(x[i])), '%s: %s of %s at step %d: %r and %r', what, lab, n, i[0], x[i], y[i])


def moved(t):
    return max(float(np.abs(v[0][-1] - v[0][0]).max()) for n, v in t[1].items())


def gen(draw, **kw):
    return draw(nets.networks(depth=1, maxlen=2, heat=draw(st.booleans()), **kw))


# ------------------------------------------------------------- repeatability
@st.composite
def twice(draw):
    return dict(a=gen(draw), b=gen(draw), adaptive=draw(st.booleans()), mid=draw(st.booleans()))


def run_twice(case, rec):
    na, nb = case['a'], case['b']
    def net(c):
        dt = step(c, 40)
        tf = dict(adaptive_steps=True, max_stepsize=dt) if case['adaptive'] else dict(adaptive_steps=False, timestep=dt)
        return dict(c['net'], timeframe=20 * dt, tf=tf)
    A, B = net(na), net(nb)
    keep = copy.deepcopy(A)
    one = tables(simkit.run(A))
    require(A == keep, 'the arguments were changed by the simulation')
    s1 = simkit.build(A)
    s2 = simkit.build(B, initialize=case['mid'])
    if not case['mid']:
        with simkit.quiet():
            s2.initialize_sim()
    two_b = tables(simkit.run(s2))
    two = tables(simkit.run(s1))
    same(one, two, {n: n for n in one[1]}, 'second run next to another simulation', 0.0)
    tb = tables(simkit.run(B))
    same(two_b, tb, {n: n for n in tb[1]}, 'run after another simulation', 0.0)
    rec.label(na['labels'][-1])
    rec.mark(moved(one) > 0.01)


# -------------------------------------------------------- order of description
@st.composite
def orders(draw):
    case = gen(draw)
    n = case['net']
    case['parts'] = draw(st.permutations(range(len(n['parts']))))
    case['conns'] = draw(st.permutations(range(len(n['conns']))))
    case['swap'] = draw(st.lists(st.booleans(), min_size=len(n['conns']), max_size=len(n['conns'])))
    case['bcs'] = draw(st.permutations(range(len(n['bcs']))))
    names = ['%s_%d' % (c, i) for i, c in enumerate(draw(st.permutations('abcdefghijklmnopqrstuvwxyz' * 2)))]
    if draw(st.booleans()):  # names containing each other, port names, odd signs
        names = list(draw(st.permutations(NAMES))) + names
    case['names'] = draw(st.booleans()) and names[: len(n['parts'])]
    case['n'] = draw(st.integers(5, 30))
    return case


def rename(net, names):
    m = {p['name']: q for p, q in zip(net['parts'], names)}
    out = copy.deepcopy(net)
    for p in out['parts']:
        p['name'] = m[p['name']]
    for c in out['conns']:
        c[0], c[2] = m.get(c[0], c[0]), m.get(c[2], c[2])
    for c in out['ctrls']:
        for k in ('actuator', 'controlled_part'):
            c[k] = m[c[k]]
    return out, m


def run_orders(case, rec):
    n0 = case['net']
    dt = step(case, case['n'])
    tf = dict(adaptive_steps=False, timestep=dt)
    a = dict(n0, timeframe=dt * case['n'], tf=tf)
    conns = [n0['conns'][i] for i in case['conns']]
    conns = [c[2:] + c[:2] if s else c for c, s in zip(conns, case['swap'])]
    b = dict(n0, timeframe=dt * case['n'], tf=tf, conns=conns)
    b['parts'] = [n0['parts'][i] for i in case['parts']]
    b['bcs'] = [n0['bcs'][i] for i in case['bcs']]
    m = {p['name']: p['name'] for p in n0['parts']}
    if case['names']:
        b, m = rename(b, case['names'])
    x, y = tables(simkit.run(a)), tables(simkit.run(b))
    same(x, y, m, 'described in another order', 1e-9)
    rec.label(case['labels'][-1], 'renamed' if case['names'] else 'same names')
    rec.mark(moved(x) > 0.01 and (case['parts'] != sorted(case['parts']) or case['conns'] != sorted(case['conns']) or any(case['swap'])))


# --------------------------------------------------------- unconnected systems
@st.composite
def unions(draw):
    return dict(a=gen(draw), b=gen(draw), first=draw(st.booleans()), n=draw(st.integers(5, 25)))


def prefix(net, pre):
    out = copy.deepcopy(net)
    for p in out['parts']:
        p['name'] = pre + p['name']
    for b in out['bcs']:
        b['name'] = 'BC_' + pre + b['name']
    for c in out['conns']:
        for i in (0, 2):
            if c[i] == simkit.BC:
                c[i + 1] = 'BC_' + pre + c[i + 1]
            else:
                c[i] = pre + c[i]
    for c in out['ctrls']:
        c['name'] = pre + c['name']
        for k in ('actuator', 'controlled_part'):
            c[k] = pre + c[k]
    return out


def run_unions(case, rec):
    A, B = case['a'], case['b']
    dt = min(step(A, case['n']), step(B, case['n']))
    tf = dict(adaptive_steps=False, timestep=dt)
    tot = dict(timeframe=dt * case['n'], tf=tf)
    xa = tables(simkit.run(dict(A['net'], **tot)))
    xb = tables(simkit.run(dict(B['net'], **tot)))
    pa, pb = prefix(A['net'], 'a'), prefix(B['net'], 'b')
    u = {k: (pa[k] + pb[k] if case['first'] else pb[k] + pa[k]) for k in ('parts', 'bcs', 'conns', 'ctrls')}
    xu = tables(simkit.run(dict(u, **tot)))
    same(xa, xu, {n: 'a' + n for n in xa[1]}, 'next to an unconnected system', 1e-9)
    same(xb, xu, {n: 'b' + n for n in xb[1]}, 'next to an unconnected system', 1e-9)
    rec.label(A['labels'][-1] + '+' + B['labels'][-1])
    rec.mark(moved(xa) > 0.01 and moved(xb) > 0.01)


SUBCHECKS = [
    Sub('twice', twice, run_twice, 64, 2500),
    Sub('orders', orders, run_orders, 240, 5000),
    Sub('unions', unions, run_unions, 120, 3000),
]

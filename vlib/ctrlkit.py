"""Drives controllers with generated histories and compares them with
:mod:`vlib.ctrlref` (shared by C10, C11 and C12)."""

import numpy as np
from hypothesis import strategies as st

from vlib import ctrlref, simkit
from vlib.core import require
from vlib.ctrlref import grid
from vlib.nets import fl
from vlib.simkit import BC, GS

# actuator -> (process_CV_mode, typical control variable range)
ACT = {
    'pp': ('part_specific', 1.0), 'pp direct': ('direct', 0.5), 'pu': ('part_specific', 0.5),
    'w': ('part_specific', 1.0), 'h': ('direct', 8000.0), 'v': ('part_specific', 1.0),
}


def system(case):
    """Heater, storage pipe and the actuators in one small system."""
    P = dict(GS)
    kinds = [c['actuator'] for c in case['ctrls']]
    parts = [
        dict(P, cls='Pipe', name='a', length=3.0, grid_points=4, T_init=case.get('Ta', 40.0)),
        dict(P, cls='Pipe', name='b', length=2.0, grid_points=4, T_init=case.get('Tb', 40.0)),
    ]
    L = case['limits']
    bcs = [dict(name='BC_%d' % i, T=t) for i, t in enumerate(case.get('bc', [70.0, 20.0, 20.0]))]
    conns = []
    # BC_0 - pump - a - [heater] - [valve to BC_2] - b - BC_1
    f = case.get('flow', 0.05)
    if 'pp' in kinds:
        parts.append(dict(P, cls='PipeWithPump', name='pp', length=1.0, grid_points=3, start_massflow=f, lower_limit=L['pp'][0], upper_limit=L['pp'][1], maximum_flow=case['maxflow']))
    else:
        parts.append(dict(P, cls='Pump', name='pu', start_massflow=f, **(dict(lower_limit=L['pu'][0], upper_limit=L['pu'][1]) if 'pu' in kinds else dict(no_control=True, dm_const=f))))
    if 'pp' in kinds:
        conns += [[BC, 'BC_0', 'pp', 'in'], ['pp', 'out', 'a', 'in']]
    else:
        parts.append(dict(P, cls='Pipe', name='s', length=1.0, grid_points=3))
        conns += [[BC, 'BC_0', 's', 'in'], ['s', 'out', 'pu', 'in'], ['pu', 'out', 'a', 'in']]
    end = ['a', 'out']
    if 'h' in kinds:
        parts.append(dict(P, cls='HeatedPipe', name='h', length=2.0, grid_points=4, heat_spread='all', lower_limit=L['h'][0], upper_limit=L['h'][1]))
        conns.append(end + ['h', 'in'])
        end = ['h', 'out']
    if 'w' in kinds:
        parts.append(dict(P, cls='PipeWith3wValve', name='w', length=2.0, grid_points=5, valve_location=2, start_portA_opening=0.5, lower_limit=L['w'][0], upper_limit=L['w'][1]))
        conns += [end + ['w', 'AB'], ['w', 'B', BC, 'BC_2']]
        end = ['w', 'A']
    if 'v' in kinds:
        parts.append(dict(P, cls='MixingValve', name='v', mix_or_split='split', port_A_init=0.5, lower_limit=L['v'][0], upper_limit=L['v'][1]))
        parts.append(dict(P, cls='Pipe', name='c', length=1.0, grid_points=3))
        bcs.append(dict(name='BC_9', T=20.0))
        conns += [end + ['v', 'AB'], ['v', 'B', 'c', 'in'], ['c', 'out', BC, 'BC_9']]
        end = ['v', 'A']
    conns += [end + ['b', 'in'], ['b', 'out', BC, 'BC_1']]
    if 'w' not in kinds:
        bcs = [b for b in bcs if b['name'] != 'BC_2']
    return dict(parts=parts, bcs=bcs, conns=conns, ctrls=[ctl(c) for c in case['ctrls']])


def ctl(c):
    return {k: v for k, v in c.items()}


def limits(draw, reverse=False):
    out = {}
    for a, m in (('pp', 0.5), ('pu', 0.5), ('w', 1.0), ('v', 1.0), ('h', 8000.0)):
        lo = draw(st.sampled_from([0.0, 0.0, 0.1] + ([-1.0, -1.0, -0.5] if reverse and a in ('pp', 'pu') else []))) * m
        hi = draw(st.sampled_from([1.0, 1.0, 0.6])) * m
        out[a] = [lo, hi]
    return out


def controllers(draw, classes, n, deadtime=True, slope=True, sub=True, port=None, dep=1):
    acts = draw(st.permutations(['pp', 'w', 'h', 'v', 'pu']))
    acts = [a for a in acts if a != 'pu'] if acts.index('pp') < acts.index('pu') else [a for a in acts if a != 'pp']
    out = []
    for i, a in enumerate(acts[:n]):
        key = 'pp direct' if a == 'pp' and draw(st.booleans()) else a
        mode, m = ACT[key]
        part, pt = draw(st.sampled_from(['a', 'b'])), draw(st.integers(0, 3))
        k = ctrlref.base(draw, 'c%d' % i, a, mode, m, part, pt, deadtime, slope)
        cls = draw(st.sampled_from(list(classes)))
        if cls == 'TwoSensors':
            k['deadtime'] = 0.0
        if cls == 'PID':
            k = ctrlref.pid(draw, m, **k)
        elif cls == 'BangBang':
            k = ctrlref.bangbang(draw, m, **k)
        else:
            k = ctrlref.twosensors(draw, m, draw(st.sampled_from(['a', 'b'])), draw(st.integers(0, 3)), **k)
        if draw(st.integers(0, 3)) == 0:
            k.update(reference_part=draw(st.sampled_from(['a', 'b'])), reference_port=draw(st.integers(0, 3)), ref_SP_diff=draw(grid(-10, 10)))
            del k['setpoint']
        if sub and i and draw(st.integers(0, dep)):
            k['sub_controller'] = True
            k['dependency_kind'] = draw(st.sampled_from(['concurrent', 'sequential']))
            if draw(st.booleans()):
                k.update(master_type='controller', master_controller='c%d' % draw(st.integers(0, i - 1)))
            else:
                mp = draw(st.sampled_from([o['actuator'] for o in out]))
                var = {'pp': 'dm', 'pu': 'dm', 'w': 'pf_arr', 'v': 'pf_arr', 'h': '_dQ_heating'}[mp]
                if mp == 'pu':
                    k.update(master_type='controller', master_controller=[o['name'] for o in out if o['actuator'] == mp][0])
                else:
                    k.update(master_type='part', master_part=mp, master_variable=var, master_variable_index=0)
        out.append(k)
    return out


def actuator(s, a):
    p = s.parts[a]
    return float(p.dm[0] if a in ('pp', 'pu') else p.pf_arr[0] if a in ('w', 'v') else p._dQ_heating[0])


def applied(case, k, cv):
    """value of the actuator for a control variable"""
    if k['actuator'] == 'pp' and k['process_CV_mode'] == 'part_specific':
        cv = cv * case['maxflow']
    return ctrlref.clip(cv, *case['limits'][k['actuator']])


class Bank:
    """all controllers of a case, in the order they run"""

    def __init__(self, case):
        self.case = case
        self.models = [ctrlref.Model(k) for k in case['ctrls']]

    def step(self, dt, val, act):
        """val(part, cell) -> temperature; act(actuator): value before (and for
        controllers which ran already: after) this call. Returns the values."""
        out = {}
        names = {k['name']: k for k in self.case['ctrls']}
        for k, m in zip(self.case['ctrls'], self.models):
            pv = val(k['controlled_part'], k['controlled_port'])
            if k['reference_part'] != 'none':
                sp = val(k['reference_part'], k['reference_port']) + k['ref_SP_diff']
            else:
                sp = k['setpoint']
            on = val(k['on_sensor_part'], k['on_sensor_port']) if k['cls'] == 'TwoSensors' else None
            master = None
            if k['sub_controller']:
                if k['master_type'] == 'controller':
                    mk = names[k['master_controller']]
                    a, off = mk['actuator'], float(mk['off_state'])
                else:
                    a, off = k['master_part'], 0.0
                v = act(a)
                master = v != off
            out[k['actuator']] = applied(self.case, k, m.step(dt, pv, sp, on, master))
            yield k, m, out[k['actuator']]


# ------------------------------------------------------------ given histories
@st.composite
def histories(draw, classes, n=2, least=1, dep=1, reverse=False):
    case = dict(limits=limits(draw, reverse), maxflow=draw(st.sampled_from([0.2, 0.5, 1.0])))
    case['ctrls'] = controllers(draw, classes, draw(st.integers(least, n)), dep=dep)
    steps = []
    dts = st.sampled_from([0.0005, 0.004, 0.05, 0.25, 1.0, 3.0, 20.0])
    same = draw(dts)
    fixed = draw(st.booleans())
    T = draw(grid(0, 100))
    for _ in range(draw(st.integers(2, 40))):
        if draw(st.integers(0, 2)):
            T = min(max(T + draw(grid(-6, 6)), 0.0), 100.0)
        else:
            T = draw(grid(0, 100))
        steps.append([same if fixed else draw(dts), draw(st.integers(0, 3)), T])
    case['steps'] = steps
    return case


def run_history(case, rec):
    net = dict(system(case), timeframe=10.0, tf=dict(adaptive_steps=False, timestep=0.01))
    s = simkit.build(net)
    bank = Bank(case)
    seen = {k['name']: [] for k in case['ctrls']}
    for j, (dt, cell, T) in enumerate(case['steps']):
        # move both pipes, in opposite directions
        off = np.array([0.0, 1.5, -2.25, 5.0])
        s.parts['a'].T[:] = T + np.roll(off, cell)
        s.parts['b'].T[:] = 100.0 - T - np.roll(off, cell)
        val = lambda p, c: float(s.parts[p].T[c])
        gen = bank.step(dt, val, lambda a: actuator(s, a))
        for i, k in enumerate(case['ctrls']):
            before = {c['actuator']: actuator(s, c['actuator']) for c in case['ctrls']}
            want = next(gen)[2]
            if bank.models[i].ambiguous:
                return mark(rec, case, seen)
            s.ctrls[k['name']].ctrl(dt)
            got = actuator(s, k['actuator'])
            m = bank.models[i]
            tol = 1e-9 * max(abs(x) for x in (*m.sat, 1e-3)) + 1e-9 * (abs(m.kd) / dt * 100 if k['cls'] == 'PID' else 0)
            if k['actuator'] == 'pp':
                tol *= 2
            require(
                abs(got - want) <= tol,
                'call %d (after %.6g s): %s %s sets %s to %.10g instead of %.10g',
                j, dt, k['cls'], k['name'], k['actuator'], got, want,
            )
            for c, v in before.items():
                if c != k['actuator']:
                    require(actuator(s, c) == v, '%s changed the foreign actuator %s', k['name'], c)
            if k['actuator'] in ('w', 'v'):
                pf = s.parts[k['actuator']].pf_arr
                require(abs(pf[0] + pf[1] - 1) < 1e-12, 'valve ports are open by %r', pf)
            seen[k['name']].append(got)
    mark(rec, case, seen)


def mark(rec, case, seen):
    good = False
    for k in case['ctrls']:
        v = seen[k['name']]
        lim = case['limits'][k['actuator']]
        n = len(set(round(x, 9) for x in v))
        rec.label(k['cls'], k['actuator'])
        if k['deadtime']:
            rec.label('deadtime')
        if k['slope']['@tuple'] != [0, 0]:
            rec.label('slope')
        if k['sub_controller']:
            rec.label('sub ' + k['dependency_kind'])
        if k['cls'] == 'PID':
            rec.label(k['terms'] + ' ' + k['time_domain'], k['loop_tuning'])
            good = good or (n > 2 and any(lim[0] < x < lim[1] for x in v))
        else:
            good = good or n > 1
    rec.mark(good)


# -------------------------------------------------------------- closed loops
@st.composite
def loops(draw, classes, n=3):
    case = dict(limits=limits(draw), maxflow=draw(st.sampled_from([0.2, 0.5, 1.0])))
    case['ctrls'] = controllers(draw, classes, draw(st.integers(1, n)))
    case['bc'] = [draw(fl(10, 85, 1)) for _ in range(3)]
    case['Ta'], case['Tb'] = draw(fl(15, 80, 1)), draw(fl(15, 80, 1))
    for k in case['ctrls']:
        # set points near the temperatures which occur
        if 'setpoint' in k:
            T = case['Ta' if k['controlled_part'] == 'a' else 'Tb']
            k['setpoint'] = round(T + draw(fl(-3, 3, 1)), 2)
        if k['cls'] == 'TwoSensors':
            T = case['Ta' if k['on_sensor_part'] == 'a' else 'Tb']
            k['activation_value'] = round(T + draw(fl(-3, 3, 1)), 2)
    case['adaptive'] = draw(st.booleans())
    case['dt'] = draw(st.sampled_from([0.02, 0.1, 0.25, 0.4]))
    case['n'] = draw(st.integers(10, 80))
    return case


def recorded(s, a):
    p = s.parts[a]
    if a in ('pp', 'pu'):
        return np.asarray(p.res_dm)[:, 0]
    if a == 'h':
        return np.asarray(p.res_dQ)[:, 0]
    dm = np.asarray(p.res_dm)
    # A and AB side of the valve
    A, AB = (dm[:, 0], dm[:, -1]) if a == 'w' else (dm[:, 0], dm[:, 2])
    return A, AB


def run_loop(case, rec):
    tf = dict(adaptive_steps=False, timestep=case['dt'])
    if case['adaptive']:
        tf = dict(adaptive_steps=True, max_stepsize=case['dt'], rtol=1e-2)
    net = dict(system(case), timeframe=case['dt'] * case['n'], tf=tf)
    s = simkit.run(net)
    t = np.asarray(s.time_vec)
    R = {p: np.asarray(s.parts[p].res) for p in ('a', 'b')}
    bank = Bank(case)
    seen = {k['name']: [] for k in case['ctrls']}
    now = {k['actuator']: None for k in case['ctrls']}
    hot = np.asarray(s.parts['h'].res).max(axis=1) if 'h' in s.parts else None
    for k in range(1, len(t) - 1):
        dt = t[k] - t[k - 1]
        for c, m, want in bank.step(dt, lambda p, i: float(R[p][k, i]), lambda a: now[a] if now[a] is not None else start(case, a)):
            a = c['actuator']
            now[a] = want
            if m.ambiguous:
                return mark(rec, case, seen)
            seen[c['name']].append(want)
            if a == 'h' and hot[max(k - 1, 0) : k + 2].max() > 105.0:
                return mark(rec, case, seen)  # emergency shut-down, see C12
            scale = max(abs(x) for x in (*m.sat, 1e-3))
            # temperatures are exact, times are differences of sums
            tol = 1e-6 * scale + (1e-7 * abs(m.kd) / dt if c['cls'] == 'PID' else 0)
            if a in ('w', 'v'):
                A, AB = recorded(s, a)
                if abs(AB[k + 1]) < 1e-9:
                    continue
                got = abs(A[k + 1]) / abs(AB[k + 1])
            else:
                got = recorded(s, a)[k + 1]
            require(
                abs(got - want) <= tol,
                't=%.6g s (step %.6g s): %s %s on %s: %.8g instead of %.8g (%s=%.6g degC)',
                t[k], dt, c['cls'], c['name'], a, got, want, c['controlled_part'], R[c['controlled_part']][k, c['controlled_port']],
            )
    mark(rec, case, seen)


def start(case, a):
    return {'pp': case.get('flow', 0.05), 'pu': case.get('flow', 0.05), 'w': 0.5, 'v': 0.5, 'h': 0.0}[a]

"""C09: incomplete or contradictory descriptions are refused before a run."""

import copy

import numpy as np
from hypothesis import strategies as st

from vlib import ctrlkit, nets, simkit
from vlib.core import Sub, Violation, require
from vlib.simkit import BC

RULE = 'every case counts: the valid description has to be accepted and the defective one refused'
ASSUMPTIONS = [
    'any exception before the first step counts as a refusal',
    'arguments without influence on a part (insulation of massless parts, limits of uncontrolled parts) are not made defective',
]
DEL = '@missing'
NONE = ['x', None, DEL]

# class -> argument -> defective values
PIPE = dict(
    grid_points=['x', -1.0, None, 0, 2.5, DEL], length=['x', -1.0, None, 0, DEL],
    pipe_specs=['x', None, DEL, {'all': {'DN': 'DN25'}}, {'all': {'pipe_type': 'EN10255_medium'}},
                {'all': {'pipe_type': 'EN10255_medium', 'DN': 'DN26'}}, {'all': {'pipe_type': 'EN_1', 'DN': 'DN25'}}],
    material=['x', None, DEL, 1.0], T_init=['x', None, DEL], T_amb=['x', None, DEL],
    insulation_thickness=['x', -0.01, None, DEL], insulation_lambda=['x', -1.0, None, DEL],
)
SMALL = {k: PIPE[k] for k in ('pipe_specs', 'material')}
LIM = dict(lower_limit=['x', None, DEL], upper_limit=['x', None, DEL])
BAD = {
    'Pipe': PIPE, 'PipeBranched': PIPE, 'PipeWithPump': dict(PIPE, start_massflow=NONE[:2], const_val=NONE),
    'PipeWith3wValve': dict(PIPE, valve_location=NONE, const_val=NONE),
    'HeatedPipe': dict(PIPE, heat_spread=['x', None, DEL], heated_cells=['x', -1.0], **LIM),
    'Tes': dict({k: v for k, v in PIPE.items() if k != 'length'}, volume=['x', -1.0, 0, None, DEL], outer_diameter=['x', -1.0, None, 0, DEL], shell_thickness=['x', -0.1, None, DEL]),
    'Connector3w': SMALL, 'Pump': SMALL, 'MixingValve': dict(SMALL, mix_or_split=['x', None, DEL]),
}


def preload():
    simkit.ms()


def net_of(draw):
    c = draw(nets.networks(depth=draw(st.integers(0, 1)), maxlen=2, heat=draw(st.booleans())))
    return dict(c['net'], timeframe=1.0, tf=dict(adaptive_steps=False, timestep=0.01))


def side(c, i):
    return list(c[2 * i:2 * i + 2])


@st.composite
def topology(draw):
    d = draw
    N = net_of(d)
    bad = copy.deepcopy(N)
    P, K = bad['parts'], bad['conns']
    i = d(st.integers(0, len(K) - 1))
    j = d(st.integers(0, 1))
    if K[i][2 * j] == BC:
        j = 1 - j
    pp = [p for p in P if p['cls'] in ('PipeWithPump', 'Pump')]
    how = d(st.sampled_from(['drop', 'dupname', 'twice', 'unknown part', 'unknown port', 'self', 'second pump']
                            + (['bc missing', 'bc twice'] if bad['bcs'] else []) + ['bc unused'] + (['no pump'] if pp else [])))
    if how == 'drop':
        K.pop(i)
    elif how == 'dupname':
        q = copy.deepcopy(d(st.sampled_from(P)))
        if d(st.booleans()):
            o = d(st.sampled_from(P))
            q = dict(copy.deepcopy(o), name=q['name'])
        P.insert(d(st.integers(0, len(P))), q)
    elif how == 'twice':
        bad['bcs'].append(dict(name='BC_zz', T=30.0))
        new = side(K[i], j) + [BC, 'BC_zz']
        K.insert(d(st.integers(0, len(K))), new if d(st.booleans()) else new[2:] + new[:2])
    elif how == 'unknown part':
        K[i][2 * j] = 'nope'
    elif how == 'unknown port':
        K[i][2 * j + 1] = d(st.sampled_from(['nope', 'D', 'in2', '']))
    elif how == 'self':  # a port connected to itself
        K[i] = side(K[i], j) * 2
    elif how == 'bc missing':
        n = d(st.sampled_from(bad['bcs']))['name']
        bad['bcs'] = [b for b in bad['bcs'] if b['name'] != n]
    elif how == 'bc twice':  # one boundary condition at two ports
        n = d(st.sampled_from(bad['bcs']))
        bad['bcs'].append(dict(n))
    elif how == 'bc unused':
        bad['bcs'].append(dict(name='BC_zz', T=30.0))
    elif how == 'no pump':
        p = d(st.sampled_from(pp))
        keep = ('name', 'insulation_thickness', 'insulation_lambda', 'T_init', 'T_amb', 'material', 'pipe_specs', 'grid_points', 'length')
        q = {k: v for k, v in p.items() if k in keep}
        q['cls'] = 'Pipe'
        q.setdefault('grid_points', 4)
        q.setdefault('length', 1.0)
        P[P.index(p)] = q
    elif how == 'second pump':  # two pumps in one branch
        if not pp:
            how = 'drop'
            K.pop(i)
        else:
            p = d(st.sampled_from(pp))
            k = next(k for k, c in enumerate(K) if p['name'] in (c[0], c[2]) and (p['name'], ) != (c[1],))
            a, b = side(K[k], 0), side(K[k], 1)
            P.append({**{k_: copy.deepcopy(p[k_]) for k_ in ('insulation_thickness', 'insulation_lambda', 'T_amb', 'material', 'pipe_specs')},
                      'cls': 'PipeWithPump', 'name': 'zz', 'T_init': 30.0, 'grid_points': 3, 'length': 1.0, 'start_massflow': 0.1, 'ctrl_required': False, 'const_val': 0.1,
                      'lower_limit': -1.0, 'upper_limit': 1.0, 'maximum_flow': 1.0})
            K[k] = a + ['zz', 'in']
            K.append(['zz', 'out'] + b)
    return dict(good=N, bad=bad, how=how)


@st.composite
def arguments(draw):
    d = draw
    N = net_of(d)
    bad = copy.deepcopy(N)
    c = [p for p in bad['parts'] if p['cls'] in BAD]
    p = d(st.sampled_from(c))
    args = [a for a in sorted(BAD[p['cls']]) if a in p]
    a = d(st.sampled_from(args))
    v = d(st.sampled_from(BAD[p['cls']][a]))
    if a == 'T_init' and d(st.integers(0, 2)) == 0 and p['cls'] not in ('Pump', 'MixingValve', 'Connector3w'):
        n = p['grid_points']
        v = {'@array': [40.0] * d(st.sampled_from([n - 1, n + 1, 2]))} if n not in (2,) else 'x'
    if v == DEL:
        del p[a]
    else:
        p[a] = v
    return dict(good=N, bad=bad, how='%s.%s = %s' % (p['cls'], a, v))


NAN = float('nan')
SBAD = dict(
    timeframe=['x', None, -1.0, 0, NAN], timestep=['x', None, -1.0, 0, NAN, DEL], max_stepsize=['x', None, -1.0, 0, NAN], min_stepsize=['x', None, -1.0, 0, NAN],
    rtol=['x', None, -1.0, 0, NAN], atol=['x', None, -1.0, 0, NAN], max_factor=['x', None, -1.0, 0, NAN, 1.0], min_factor=['x', None, -1.0, 0, NAN, 1.5],
    adaptive_steps=['x', None, 2.0],
)


@st.composite
def settings(draw):
    """time frame, step control, boundary conditions and time series"""
    d = draw
    N = net_of(d)
    tf = d(st.sampled_from([5.0, 20.0]))
    fr = d(st.sampled_from([0.5, 1.0, 2.0]))
    n = int(tf / fr) + 3
    series = []
    for b in N['bcs']:
        if d(st.booleans()):
            b['series'] = dict(values=[float(40 + k % 5) for k in range(n)], freq_s=fr)
            series.append(b['series'])
            del b['T']
    for p in N['parts']:
        if p['cls'] in ('PipeWithPump',) and 'const_val' in p and d(st.booleans()):
            f = abs(p.pop('const_val'))
            p['time_series'] = {'@series': dict(values=[f] * n, freq_s=fr)}
            series.append(p['time_series']['@series'])
    N['timeframe'] = tf
    N['tf'] = d(st.sampled_from([
        dict(adaptive_steps=False, timestep=0.01),
        dict(adaptive_steps=True, max_stepsize=2.0, min_stepsize=1e-3, rtol=1e-3, atol=1e-3, max_factor=2.0, min_factor=0.1),
    ]))
    bad = copy.deepcopy(N)
    ser = [b['series'] for b in bad['bcs'] if 'series' in b] + [p['time_series']['@series'] for p in bad['parts'] if 'time_series' in p]
    flat = [b for b in bad['bcs'] if 'T' in b]
    how = d(st.sampled_from(['tf'] * 3 + (['series'] * 5 if ser else []) + (['bc'] if flat else []) + (['min>max'] if bad['tf']['adaptive_steps'] else [])))
    if how == 'tf':
        a = d(st.sampled_from(['timeframe'] + sorted(bad['tf'])))
        v = d(st.sampled_from(SBAD[a]))
        w = bad if a == 'timeframe' else bad['tf']
        if v == DEL:
            del w[a]
        else:
            w[a] = v
        how = '%s = %s' % (a, v)
    elif how == 'min>max':
        bad['tf'].update(min_stepsize=0.2, max_stepsize=0.1)
    elif how == 'bc':
        v = d(st.sampled_from(['x', None, NAN]))
        d(st.sampled_from(flat))['T'] = v
        how = 'temperature = %s' % v
    else:
        q = d(st.sampled_from(ser))
        what = d(st.sampled_from(['short', 'nan', 'one'] + (['start', 'spacing'] * 2 if len(ser) > 1 else [])))
        if what == 'short':  # ends before the time frame
            q['values'] = q['values'][:max(2, int(tf / fr * d(st.sampled_from([0.3, 0.6, 0.8]))))]
        elif what == 'nan':
            q['values'][d(st.integers(0, n - 1))] = NAN
        elif what == 'one':
            q['values'] = q['values'][:1]
        elif what == 'spacing':  # same start and number of samples
            q['freq_s'] = fr * d(st.sampled_from([1.5, 2.0, 10.0]))
        else:
            q['start'] = '2021-01-02 00:00:00'
        how = 'series ' + what
    return dict(good=N, bad=bad, how=how)


CBAD = dict(
    CV_saturation=['x', None, DEL, {'@tuple': [2.0, 1.0]}, {'@tuple': [1.0]}], actuator=['x', DEL, 'a'], controlled_part=['x', None, DEL],
    controlled_port=['x', None, DEL, 4, 99, 2.5], deadtime=['x', -1.0, None, DEL], dependency_kind=['x', None, DEL], hysteresis=['x', None, DEL],
    invert=['x', None, DEL], master_controller=['x', DEL], master_part=['x', DEL], master_type=['x', None, DEL], master_variable=['x', None, DEL],
    master_variable_index=['x', None, DEL, 99], off_state=['x', None, DEL], process_CV_mode=['x', None, DEL], reference_part=['x', None, DEL],
    reference_port=['x', None, DEL, 4, 99], ref_SP_diff=['x', None, DEL], setpoint=['x', None, DEL], slope=['x', None, DEL, {'@tuple': [1.0]}, {'@tuple': [0.1, -0.1]}], sub_controller=['x', None, DEL],
    time_domain=['x', None, DEL], Kp=['x', None, DEL], loop_tuning=['x', None, DEL], terms=['x', None, DEL], cutoff_freq=['x', None, 0], filter_derivative=['x', None, DEL],
    activation_sign=['x', None, DEL], activation_value=['x', None, DEL], deactivation_sign=['x', None, DEL], on_sensor_part=['x', None, DEL],
    on_sensor_port=['x', None, DEL, 4, 99],
)


@st.composite
def controls(draw):
    d = draw
    case = dict(limits=ctrlkit.limits(d), maxflow=0.4)
    case['ctrls'] = ctrlkit.controllers(d, ('PID', 'BangBang', 'TwoSensors'), d(st.integers(1, 3)))
    N = dict(ctrlkit.system(case), timeframe=1.0, tf=dict(adaptive_steps=False, timestep=0.01))
    bad = copy.deepcopy(N)
    C = bad['ctrls']
    c = d(st.sampled_from(C))
    how = d(st.sampled_from(['arg'] * 9 + ['missing', 'second', 'same name', 'limits']))
    if how == 'arg':
        a = d(st.sampled_from([a for a in sorted(CBAD) if a in c]))
        v = d(st.sampled_from(CBAD[a]))
        if v == DEL:
            del c[a]
        else:
            c[a] = v
        how = '%s.%s = %s' % (c['cls'], a, v)
    elif how == 'missing':
        C.remove(c)
    elif how == 'second':
        C.append(dict(copy.deepcopy(c), name='zz'))
    elif how == 'same name':
        q = copy.deepcopy(c)
        q['actuator'] = d(st.sampled_from([o['actuator'] for o in C]))
        C.append(q)
    else:
        p = next(p for p in bad['parts'] if p['name'] == c['actuator'])
        p['lower_limit'], p['upper_limit'] = 0.5, 0.25
    return dict(good=N, bad=bad, how=how)


def run(case, rec):
    rec.label(case['how'].split(' =')[0])
    simkit.build(copy.deepcopy(case['good']))
    try:
        s = simkit.build(copy.deepcopy(case['bad']))
    except Exception:
        rec.mark()
        return
    raise Violation('accepted: %s' % case['how'])


SUBCHECKS = [
    Sub('topology', topology, run, quick=400, thorough=8000),
    Sub('arguments', arguments, run, quick=500, thorough=10000),
    Sub('settings', settings, run, quick=400, thorough=8000),
    Sub('controls', controls, run, quick=500, thorough=10000),
]

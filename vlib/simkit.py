"""Builds a multisim simulation from a plain JSON description and runs it.

net = {
  'parts': [{'cls': 'Pipe', 'name': 'p0', ...constructor arguments...}, ...],
  'bcs':   [{'name': 'b0', 'T': 20.0}  or  {'name': 'b0', 'series': {...}}],
  'conns': [['p0', 'in', 'BoundaryCondition', 'b0'], ...],
  'ctrls': [{'cls': 'PID', 'name': ..., ...}],
  'timeframe': 20.0, 'tf': {...set_timeframe arguments...},
  'disk': {...set_disksaving arguments...},
}
Series are {'values': [...], 'freq_s': 1.0, 'start': '2021-01-01', 'cols': n}.
"""

import contextlib
import io
import os
import warnings

import numpy as np
import pandas as pd

BC = 'BoundaryCondition'
START = '2021-01-01 00:00:00'

GS = dict(
    insulation_thickness=1e-2,
    insulation_lambda=0.035,
    T_init=20.0,
    T_amb=20.0,
    material='carbon_steel',
    pipe_specs={'all': {'pipe_type': 'EN10255_medium', 'DN': 'DN25'}},
)


def ms():
    import multisim

    return multisim


def mkseries(d):
    idx = pd.date_range(
        d.get('start', START),
        periods=len(d['values']),
        freq='%dL' % int(round(d.get('freq_s', 1.0) * 1000)),
    )
    if d.get('frame'):
        return pd.DataFrame(np.asarray(d['values'], float), index=idx)
    return pd.Series(np.asarray(d['values'], float), index=idx)


def decode(v):
    """JSON -> argument value ('@series' dicts, everything else as is)."""
    if isinstance(v, dict) and '@series' in v:
        return mkseries(v['@series'])
    if isinstance(v, dict) and '@array' in v:
        return np.asarray(v['@array'], float)
    if isinstance(v, dict) and '@function' in v:
        return getattr(ms().precomp_funs, v['@function'])
    if isinstance(v, dict) and '@tuple' in v:
        return tuple(v['@tuple'])
    return v


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def build(net, initialize=True):
    m = ms()
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s = m.SimEnv(suppress_printing=True)
        has_dyn = any('series' in b for b in net.get('bcs', [])) or any(
            isinstance(v, dict) and '@series' in v
            for p in net['parts']
            for v in p.values()
        )
        disk = dict(net.get('disk') or {})
        disk.setdefault('save', False)
        disk.setdefault('start_date', 'infer' if has_dyn else START)
        s.set_disksaving(**disk)
        tf = dict(net.get('tf') or {})
        tf.setdefault('adaptive_steps', True)
        s.set_timeframe(timeframe=net['timeframe'], **tf)
        s.set_solver(solver='heun', allow_implicit=bool(net.get('implicit')))
        for p in net['parts']:
            a = {k: decode(v) for k, v in p.items() if k != 'cls'}
            s.add_part(getattr(m.ap, p['cls']), **a)
        for b in net.get('bcs', []):
            if 'series' in b:
                s.add_open_port(
                    b['name'], constant=False, temperature=mkseries(b['series'])
                )
            else:
                s.add_open_port(b['name'], constant=True, temperature=b['T'])
        for c in net['conns']:
            s.connect_ports(*c)
        for c in net.get('ctrls', []):
            a = {k: decode(v) for k, v in c.items() if k != 'cls'}
            s.add_control(getattr(m.ap, c['cls']), **a)
        if initialize:
            s.initialize_sim()
    return s


def run(net_or_sim):
    s = build(net_or_sim) if isinstance(net_or_sim, dict) else net_or_sim
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s.start_sim()
    return s


def scratch():
    d = os.environ.get('VERIF_SCRATCH', '/tmp')
    return os.path.join(d, 'w%d' % os.getpid())

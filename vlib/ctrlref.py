"""Reference models of the controllers, and generators of their arguments."""

import math

import numpy as np
from hypothesis import strategies as st

from vlib.nets import fl

ZN = {
    'P': (0.5, None, None), 'PI': (0.45, 0.85, None), 'PD': (0.55, None, 0.15),
    'classic': (0.6, 0.5, 0.125), 'pessen-int': (0.7, 0.4, 0.15),
    'some-os': (0.33, 0.5, 0.33), 'no-os': (0.2, 0.5, 0.33),
}


def clip(x, lo, hi):
    return lo if x < lo else hi if x > hi else x


def coefficients(k):
    """(kp, ki, kd) from the arguments of a PID controller."""
    terms = k['terms']
    if k['loop_tuning'] == 'manual':
        c = [k.get('Kp', 0.0) if 'P' in terms else 0.0, k['Ki'] if 'I' in terms else 0.0, k['Kd'] if 'D' in terms else 0.0]
    elif k['loop_tuning'] == 'tune':
        c = [k['Kp'], 0.0, 0.0]
    else:
        a, tn, tv = ZN[k['rule'] if terms == 'PID' else terms]
        kp = k['Kp_crit'] * a
        c = [kp, kp / (k['T_crit'] * tn) if tn else 0.0, kp * k['T_crit'] * tv if tv else 0.0]
    if 'K_mult' in k:
        c = [x * m for x, m in zip(c, k['K_mult'])]
    return c


class Model:
    """One controller: step(dt, pv, sp, ...) -> control variable."""

    def __init__(self, k):
        self.k = k
        self.sat = k['CV_saturation']['@tuple']
        self.slope = k['slope']['@tuple']
        self.inv = -1.0 if k['invert'] else 1.0
        self.cv, self.err, self.perr, self.pperr = 0.0, 0.0, 0.0, 0.0
        self.i, self.d = 0.0, 0.0
        self.ambiguous = False
        self.t, self.hist = 0.0, [(0.0, 25.0)]
        if k['cls'] == 'PID':
            self.kp, self.ki, self.kd = coefficients(k)
            aw = k.get('anti_windup', math.inf)
            if 'I' not in k['terms'] or k['loop_tuning'] == 'tune':
                aw = math.inf
            if isinstance(aw, str):
                aw = (float(aw.split('_')[1]) if '_' in aw else 1.0) / self.ki
            self.aw = aw

    def delayed(self, dt, pv):
        self.t += dt
        self.hist.append((self.t, pv))
        x = self.t - self.k['deadtime']
        if x <= 0:
            return 25.0
        ts = [h[0] for h in self.hist]
        return float(np.interp(x, ts, [h[1] for h in self.hist]))

    def step(self, dt, pv, sp, on=None, master=None):
        k = self.k
        prev = self.cv
        self.pperr, self.perr = self.perr, self.err
        if k['deadtime']:
            pv = self.delayed(dt, pv)
        self.err = sp - pv
        getattr(self, 'run_' + k['cls'])(dt, pv, sp, on)
        if master is not None:
            # master: is the master in action?
            if master != (k['dependency_kind'] == 'concurrent'):
                self.cv = float(k['off_state'])
                self.i = 0.0
        lo, hi = self.slope
        if lo or hi:
            self.cv = clip(self.cv, prev + lo * dt, prev + hi * dt)
        return self.cv

    def deriv(self, dt, raw):
        if self.k.get('filter_derivative'):
            rc = 1 / (2 * math.pi * self.k['cutoff_freq'])
            self.d += dt / (rc + dt) * (raw - self.d)
        else:
            self.d = raw
        return self.d

    def run_PID(self, dt, pv, sp, on):
        e, p, pp = self.err, self.perr, self.pperr
        if self.k['time_domain'] == 'discrete':
            if self.ki != 0:
                d = self.deriv(dt, e - 2 * p + pp)
                cv = clip(self.cv, -self.aw, self.aw) + self.inv * (self.kp * (e - p) + self.ki * dt * e + self.kd / dt * d)
            else:
                cv = self.inv * (self.kp * e + self.kd / dt * self.deriv(dt, e - p))
        else:
            self.i = clip(self.i + dt * e, -self.aw, self.aw)
            cv = self.inv * (self.kp * e + self.ki * self.i + self.kd * self.deriv(dt, e - p) / dt)
        self.cv = clip(cv, *self.sat)

    def run_BangBang(self, dt, pv, sp, on):
        h = self.k['hysteresis']
        if self.k['deadtime'] and abs(abs(pv - sp) - abs(h) / 2) < 1e-6:
            self.ambiguous = True  # rounding of the interpolation decides
        low, high = pv < sp - abs(h) / 2, pv > sp + abs(h) / 2
        if h < 0:
            low, high = high, low
        if low:
            self.cv = self.inv * self.sat[1]
        elif high:
            self.cv = self.inv * float(self.k['off_state'])

    def run_TwoSensors(self, dt, pv, sp, on):
        k = self.k
        act = on < k['activation_value'] if k['activation_sign'] == 'lower' else on > k['activation_value']
        dea = pv < sp if k['deactivation_sign'] == 'lower' else pv > sp
        if dea:
            self.cv = self.inv * float(k['off_state'])
        elif act:
            self.cv = self.inv * self.sat[1]


# ---------------------------------------------------------------- generators
def grid(lo, hi):
    """multiples of 1/8: sums and halves are exact"""
    return st.integers(int(lo * 8), int(hi * 8)).map(lambda i: i / 8)


def base(draw, name, actuator, mode, cvmax, part, port, deadtime=True, slope=True):
    lo = draw(st.sampled_from([0.0, 0.0, -1.0, 0.1]))
    hi = draw(st.sampled_from([1.0, 1.0, 0.5, 0.3, 2.0]))
    k = dict(
        name=name, actuator=actuator, process_CV_mode=mode, controlled_part=part, controlled_port=port,
        reference_part='none', setpoint=draw(grid(20, 80)), sub_controller=False, off_state=0.0,
        CV_saturation={'@tuple': [lo * cvmax, hi * cvmax]},
        time_domain=draw(st.sampled_from(['continuous', 'discrete'])), deadtime=0.0,
        slope={'@tuple': [0, 0]}, invert=draw(st.integers(0, 3)) == 0,
    )
    if draw(st.integers(0, 4)) == 0:
        k['off_state'] = draw(st.sampled_from([0.25, 0.125])) * cvmax
    if deadtime and draw(st.integers(0, 2)) == 0:
        k['deadtime'] = draw(st.sampled_from([0.004, 0.02, 0.3, 1, 2.5, 10.0]))
    if slope and draw(st.integers(0, 2)) == 0:
        k['slope'] = {'@tuple': [-draw(fl(0.01, 1.0, 2)) * cvmax, draw(fl(0.01, 1.0, 2)) * cvmax]}
    return k


def pid(draw, cvmax, **kw):
    k = dict(cls='PID', terms=draw(st.sampled_from(['P', 'I', 'PI', 'PD', 'PID'])))
    k.update(kw)
    T = k['terms']
    k['loop_tuning'] = draw(st.sampled_from(['manual', 'manual', 'ziegler-nichols', 'tune'])) if T != 'I' else 'manual'
    g = st.one_of(fl(0.0005, 0.02, 4), fl(0.0005, 0.02, 4), fl(0.001, 0.4, 3))
    if k['loop_tuning'] == 'ziegler-nichols':
        k['Kp_crit'] = round(draw(g) * cvmax, 8)
        k['T_crit'] = draw(fl(0.5, 60.0, 1))
        if T == 'PID':
            k['rule'] = draw(st.sampled_from(['classic', 'pessen-int', 'some-os', 'no-os']))
    else:
        if 'P' in T or k['loop_tuning'] == 'tune':
            k['Kp'] = round(draw(g) * cvmax, 8)
        if 'I' in T:
            k['Ki'] = round(draw(g) * cvmax * draw(st.sampled_from([0.01, 0.1, 1.0])), 8)
        if 'D' in T:
            k['Kd'] = round(draw(g) * cvmax * draw(st.sampled_from([0.1, 1.0, 5.0])), 8)
    if draw(st.integers(0, 2)) == 0:
        k['K_mult'] = [draw(fl(0.2, 3.0, 1)) for _ in range(3)]
    if 'D' in T:
        k['filter_derivative'] = draw(st.booleans())
        if k['filter_derivative']:
            k['cutoff_freq'] = draw(st.sampled_from([0.01, 0.2, 1.0, 10.0]))
    if 'I' in T:
        k['anti_windup'] = draw(st.sampled_from([1, 5.0, 50.0, 'auto', 'auto_2', 'auto_0.5', 1e6]))
        if k['anti_windup'] in (1, 5.0) and k['time_domain'] == 'discrete':
            k['anti_windup'] = k['anti_windup'] * cvmax
        if k['loop_tuning'] == 'tune' and isinstance(k['anti_windup'], str):
            k['anti_windup'] = 1.0
    return k


def bangbang(draw, cvmax, **kw):
    h = draw(st.one_of(grid(0, 2), grid(0, 20))) * draw(st.sampled_from([1, 1, -1]))
    return dict(cls='BangBang', hysteresis=h, **kw)


def twosensors(draw, cvmax, part, port, **kw):
    sg = st.sampled_from(['lower', 'greater'])
    return dict(
        cls='TwoSensors', on_sensor_part=part, on_sensor_port=port, activation_value=draw(grid(20, 80)),
        activation_sign=draw(sg), deactivation_sign=draw(sg), silence_slope_warning=True, **kw
    )

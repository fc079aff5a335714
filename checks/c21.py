"""C21: ready-made supply and demand systems (part modules)."""

import copy
import functools

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks import c14
from vlib import simkit
from vlib.core import Sub, require
from vlib.nets import fl
from vlib.ref import PIPES
from vlib.simkit import BC

RULE = (
    'a case counts when the size of the system differs by more than 10 % from '
    'its reference size and water moved in the run'
)
ASSUMPTIONS = [
    'the reference sizes, temperatures and safety factors of the ready-made '
    'systems are those written down in their source',
    'controller gains of the ready-made systems are free',
]
TRACE = 0.02  # K; a rejected first attempt leaves a trace in the ambient film
TABLE = PIPES['EN10255_medium']


def preload():
    simkit.ms()
    c14.model(1)


def su():
    from multisim.parts.part_modules import suppliers

    return suppliers


def co():
    from multisim.parts.part_modules import consumers

    return consumers


class LHS:
    """The data of the building the consumers ask for."""

    def __init__(self, case):
        self.wfl = case['wfl']
        self.v_stor_phw = case.get('v_stor')
        self.theta_ff = case.get('theta_ff')


class Watch:
    """Hands every call on to the simulation environment and keeps a note."""

    def __init__(self, s):
        self._s = s
        self.parts, self.conns, self.bcs, self.ctrls = {}, set(), {}, {}

    def __getattr__(self, k):
        return getattr(self._s, k)

    def add_part(self, part, name=None, **kw):
        self.parts[name] = dict(kw, cls=part.__name__)
        return self._s.add_part(part, name, **kw)

    def connect_ports(self, first_part, first_port, scnd_part, scnd_port, **kw):
        self.conns.add(edge(first_part, first_port, scnd_part, scnd_port))
        return self._s.connect_ports(first_part, first_port, scnd_part, scnd_port, **kw)

    def add_open_port(self, name, constant, temperature, **kw):
        self.bcs[name] = (constant, temperature)
        return self._s.add_open_port(name, constant, temperature, **kw)

    def add_control(self, controller, name=None, **kw):
        self.ctrls[name] = dict(kw, cls=controller.__name__)
        return self._s.add_control(controller, name, **kw)


def edge(a, p, b, q):
    return tuple(sorted([(str(a), str(p)), (str(b), str(q))]))


def env(case):
    m = simkit.ms()
    s = m.SimEnv(suppress_printing=True)
    s.set_disksaving(save=False, start_date=simkit.START)
    s.set_timeframe(timeframe=case['tf'], adaptive_steps=True)
    s.set_solver('heun', allow_implicit=True)
    return s


def store(s, case, name):
    s.add_part(
        simkit.ms().ap.Tes, name=name, volume=2.0, grid_points=20, outer_diameter=1.0, shell_thickness=0.005,
        new_ports={k: [v, 'index'] for k, v in case.get('ports', {}).items()}, insulation_thickness=0.1, insulation_lambda=0.035,
        T_init=case['T_tes'], T_amb=20.0, material='carbon_steel', pipe_specs={'all': {'pipe_type': 'EN10255_medium', 'DN': 'DN50'}}, store_results=True,
    )


def add(w, case, seg, tes, args):
    """Adds the system of the case; args are the (shared) caller's objects."""
    return getattr(KINDS[case['kind']], 'add')(w, case, seg, tes, args)


# --------------------------------------------------------------- the systems
class Gas:
    @staticmethod
    def args(case):
        return dict(ctrl=dict(on_sens_part='tes', on_sens_port=case['on'], setpoint=case['sp'], off_sens_part='tes', off_sens_port=case['off'], off_val=case['off_val'], theta_ff_gasb=case['ff']))

    @staticmethod
    def add(w, case, seg, tes, a):
        ctrl = dict(a['ctrl'], on_sens_part=tes, off_sens_part=tes)
        return su().gasboiler(w, case['P'], None, None, None, segment_name=seg, adjust_pipes=case['adjust'], ff_connector={tes: case['con'][0]}, ltrf_connector={tes: case['con'][1]}, gasboiler_ctrl=ctrl, Tamb=case['Tamb'], calculations_df=a.get('df'))

    @staticmethod
    def spec(case, seg, tes):
        P, ff = case['P'], case['ff']
        f = P / 150e3 * 15.0 / (ff - 60.0)
        lim = P / (4180.0 * (ff - 60.0))
        pu, he, rf = ('pwp_gasb_ff_%s' % seg, 'ph_gasb_%s' % seg, 'p_gasb_rf_%s' % seg)
        parts = {
            pu: dict(cls='PipeWithPump', DN='DN50', f=f, lims=(0.0, lim), fmax=lim),
            he: dict(cls='HeatedPipe', DN='DN125', f=f, lims=(0.0, P)),
            rf: dict(cls='Pipe', DN='DN50', f=f),
        }
        conns = [(tes, case['con'][0], pu, 'out'), (pu, 'in', he, 'out'), (he, 'in', rf, 'out'), (rf, 'in', tes, case['con'][1])]
        ctrls = {
            'c_gasb_pth_%s' % seg: dict(cls='TwoSensors', actuator=he, CV_saturation=(0.0, P), controlled_part=tes, controlled_port=case['off'], setpoint=case['off_val'], on_sensor_part=tes, on_sensor_port=case['on'], activation_value=case['sp'], activation_sign='lower', deactivation_sign='greater', slope=(-P / 10, P / 10), sub_controller=False, invert=False),
            'c_gasb_pump_%s' % seg: dict(cls='PID', actuator=pu, CV_saturation=(0.0, 1.0), controlled_part=he, controlled_port=4, setpoint=ff, invert=True, sub_controller=True, master_type='part', master_part=he, master_variable='_dQ_heating', dependency_kind='concurrent', off_state=0.0),
        }
        calc = {'max_pump_flow': lim, 'pipe_scaling': f}
        return parts, conns, {}, ctrls, ('Gasboiler_%s' % seg, calc), abs(f - 1)


class Chp:
    @staticmethod
    def args(case):
        kw = dict(
            power_electrical=case['Pel'], eta_el=case['eta'], p2h_ratio=case['p2h'], modulation_range=tuple(case['mod']), theta_ff=case['ff'], heat_spread='range',
            heated_cells=(1, 5), no_control=False, lower_limit=0.0, upper_limit=1.0, fluegas_flow=case['Pel'] / 20e3 * 70 / 61.1,
        )
        if case['DN']:
            kw['pipe_specs'] = {'all': {'pipe_type': 'EN10255_medium', 'DN': case['DN']}}
        return dict(
            chp=kw, ctrl=dict(ctrld_part='tes', on_sensor_port=case['on'], setpoint=case['sp'], off_val=case['off_val'], chp_mode='heat'),
            fg=dict(regression_pipeline=c14.model(1), max_gas_Nm3h=70.0),
        )

    @staticmethod
    def add(w, case, seg, tes, a):
        n = case['n']
        con = [(tes, x) for x in case['con']]
        con += [None] * (4 - len(con))
        return su().chp_with_fghex(
            w, None, n, *con, segment_name=seg, chp_kwds=a['chp'], chp_ctrl=dict(a['ctrl'], ctrld_part=tes), fluegashex_theta_out_water=case['t_hex'],
            ht_rf_theta_mix=case['t_mix'], adjust_pipes=case['adjust'], Tamb=case['Tamb'], ctrl_chp_pump_by_ts=case['ts'][0], ctrl_hex_by_ts=case['ts'][1],
            ctrl_htrf_by_ts=case['ts'][2], fluegas_hex_kwds=a['fg'], calculations_df=a.get('df'),
        )

    @staticmethod
    def spec(case, seg, tes):
        n, con = case['n'], case['con']
        pth = case['Pel'] / case['p2h']
        f = pth / 38.7e3 * 9.5 / (case['ff'] - case['off_val'])
        lim = pth / (4180.0 * (case['ff'] - case['off_val']))
        chp, pu = 'CHP%s' % seg, 'pwp_chp_ff_%s' % seg
        rf, rv, lt, hx = 'p_chp_rf_%s' % seg, 'p3v_chp_rf_%s' % seg, 'p_chp_rf_lt_%s' % seg, 'hex_chp_fg_%s' % seg
        ha, hb, ht = 'p3v_chp_rf_htA_%s' % seg, 'p_chp_rf_htB_%s' % seg, 'p_chp_rf_ht_%s' % seg
        b0, b1 = 'BC_fg_in_%s' % seg, 'BC_fg_out_%s' % seg
        parts = {chp: dict(cls='CHPPlant', DN=case['DN'] or 'DN80', f=f, lims=(0.0, 1.0), kw=dict(power_electrical=case['Pel'], eta_el=case['eta'], p2h_ratio=case['p2h'])), pu: dict(cls='PipeWithPump', DN='DN40', f=f, lims=(0.0, lim), fmax=lim)}
        conns = [(chp, 'out', pu, 'in'), (pu, 'out', tes, con[0])]
        bcs = {}
        if n == 0.5:
            parts[rf] = dict(cls='Pipe', DN='DN40', f=f)
            conns += [(rf, 'out', chp, 'in'), (rf, 'in', tes, con[1])]
        else:
            bcs = {b0: 110.0, b1: 50.0}
            parts[hx] = dict(cls='HEXCondPoly', DN='DN40', f=f)
            parts[lt] = dict(cls='Pipe', DN='DN25' if n > 1 else 'DN40', f=f)
            conns += [(lt, 'in', tes, con[1]), (lt, 'out', hx, 'water_in'), (BC, b0, hx, 'fluegas_in'), (BC, b1, hx, 'fluegas_out')]
            if n == 1:
                parts[rf] = dict(cls='Pipe', DN='DN40', f=f)
                conns += [(hx, 'water_out', rf, 'in'), (rf, 'out', chp, 'in')]
            else:
                parts[rv] = dict(cls='PipeWith3wValve', DN='DN40', f=f, lims=(0.01, 0.9))
                conns += [(hx, 'water_out', rv, 'A'), (rv, 'AB', chp, 'in')]
            if n == 2:
                parts[ht] = dict(cls='Pipe', DN='DN40', f=f)
                conns += [(ht, 'out', rv, 'B'), (ht, 'in', tes, con[2])]
            if n == 3:
                parts[ha] = dict(cls='PipeWith3wValve', DN='DN32', f=f, lims=(0.0, 1.0))
                parts[hb] = dict(cls='Pipe', DN='DN32', f=f)
                conns += [(ha, 'AB', rv, 'B'), (hb, 'out', ha, 'B'), (ha, 'A', tes, con[2]), (hb, 'in', tes, con[3])]
        ctrls = {
            'c_chp_pel_%s' % seg: dict(cls='TwoSensors', actuator=chp, controlled_part=rv if n >= 2 else rf, controlled_port=-1, setpoint=case['off_val'], on_sensor_part=tes, on_sensor_port=case['on'], activation_value=case['sp'], activation_sign='lower', deactivation_sign='greater', CV_saturation=(0.0, 1.0), invert=False, sub_controller=False),
            'c_chp_pump_%s' % seg: dict(cls='PID', actuator=pu, controlled_part=chp, controlled_port=4, setpoint=case['ff'], CV_saturation=(0.0, 1.0), invert=True, sub_controller=True, master_type='part', master_part=chp, master_variable='_dQ_heating', dependency_kind='concurrent', off_state=0.0),
        }
        if n >= 2:
            ctrls['c_chp_3v_hex_fg_%s' % seg] = dict(cls='PID', actuator=rv, actuator_port='A', controlled_part=rv, controlled_port=1, setpoint=case['t_hex'], invert=True, sub_controller=False)
        if n == 3:
            ctrls['c_chp_3v_htrf_%s' % seg] = dict(cls='PID', actuator=ha, actuator_port='A', controlled_part=ha, controlled_port=7, setpoint=case['t_mix'], invert=True, sub_controller=False)
        return parts, conns, bcs, ctrls, ('CHP%s' % seg, {'max_pump_flow': lim, 'pipe_scaling': f}), abs(f - 1)


def flows(case):
    idx = pd.date_range(simkit.START, periods=len(case['phw']), freq='1s')
    return pd.Series(np.asarray(case['phw'], float), index=idx), np.float64(case['rc'])


def plates(x, passes):
    n = int(round(x))
    while (n % 2 if passes == 1 else ((n - 1) / passes) % 2) != 0:
        n += 1
    return n


PHW, RC = 0.020426520552047665, 0.11555245060523046


class Lowex:
    @staticmethod
    def args(case):
        return dict(zip(('phw', 'rc'), flows(case)), lhs=LHS(case))

    @staticmethod
    def add(w, case, seg, tes, a):
        return co().lowex_phwrc(w, a['lhs'], a['phw'], a['rc'], segment_name=seg, adjust_pipes=case['adjust'], ff_connector={tes: case['con'][0]}, rf_connector={tes: case['con'][1]}, rc_connector={tes: case['con'][2]}, Tamb=case['Tamb'], calculations_df=a.get('df'))

    @staticmethod
    def spec(case, seg, tes):
        fp, fr = np.mean(case['phw']) / PHW, case['rc'] / RC
        fs = fp / 3 + fr * 2 / 3
        n1, n2 = plates(61 / 1607 * case['wfl'], 2), plates(8 / RC * case['rc'], 1)
        N = {k: '%s_%s' % (k, seg) for k in 'p3v_phwrc_ff_mix pb_phwrc_ff pwp_phw_ff pwp_rc_ff hex_phw hex_rc pb_rc_rf p_phw_rf p_rc_dmd pb_phwrc_dmd pwp_rc pwp_cw'.split()}
        N['mix'] = 'p_rc_to_mix%s' % seg
        g = lambda k: N[k]
        b = {k: 'BC_%s_%s' % (k, seg) for k in ('phwrc_theta_ff', 'rc_theta_rf', 'phw_theta_cw')}
        P = lambda cls, DN, f, **kw: dict(cls=cls, DN=DN, f=f, **kw)
        parts = {
            g('p3v_phwrc_ff_mix'): P('PipeWith3wValve', 'DN32', fs, lims=(0.0, 1.0)), g('pb_phwrc_ff'): P('PipeBranched', 'DN32', fs),
            g('pwp_phw_ff'): P('PipeWithPump', 'DN25', fp, lims=(0.0, 0.5 * fp), fmax=0.5 * fp), g('pwp_rc_ff'): P('PipeWithPump', 'DN25', fr, lims=(0.0, 0.2 * fr), fmax=0.2 * fr),
            g('hex_phw'): P('HexNum', 'DN25', fp, kw=dict(plates=n1, passes=2, flow_type='counter')), g('hex_rc'): P('HeatExchanger', 'DN25', fr, kw=dict(plates=n2, passes=1)),
            g('pb_rc_rf'): P('PipeBranched', 'DN25', fr), g('mix'): P('Pipe', 'DN25', fr), g('p_phw_rf'): P('Pipe', 'DN25', fp), g('p_rc_dmd'): P('Pipe', 'DN25', fr),
            g('pb_phwrc_dmd'): P('PipeBranched', 'DN50', fs), g('pwp_rc'): P('PipeWithPump', 'DN25', fr, const=case['rc']), g('pwp_cw'): P('PipeWithPump', 'DN32', fp, series=case['phw']),
        }
        conns = [
            (tes, case['con'][0], g('p3v_phwrc_ff_mix'), 'A'), (g('p3v_phwrc_ff_mix'), 'AB', g('pb_phwrc_ff'), 'in'), (g('pb_phwrc_ff'), 'out', g('pwp_phw_ff'), 'in'), (g('pb_phwrc_ff'), 'out_rc', g('pwp_rc_ff'), 'in'),
            (g('pwp_phw_ff'), 'out', g('hex_phw'), 'sup_in'), (g('pwp_rc_ff'), 'out', g('hex_rc'), 'sup_in'), (g('hex_rc'), 'sup_out', g('pb_rc_rf'), 'in'), (g('pb_rc_rf'), 'out', tes, case['con'][2]),
            (g('pb_rc_rf'), 'rc_to_mix', g('mix'), 'in'), (g('mix'), 'out', g('p3v_phwrc_ff_mix'), 'B'), (g('hex_phw'), 'sup_out', g('p_phw_rf'), 'in'), (g('p_phw_rf'), 'out', tes, case['con'][1]),
            (g('hex_rc'), 'dmd_out', g('p_rc_dmd'), 'in'), (g('hex_phw'), 'dmd_out', g('pb_phwrc_dmd'), 'in'), (g('p_rc_dmd'), 'out', g('pb_phwrc_dmd'), 'in_rc_flow'), (g('pb_phwrc_dmd'), 'out', BC, b['phwrc_theta_ff']),
            (g('pwp_rc'), 'out', g('hex_rc'), 'dmd_in'), (BC, b['rc_theta_rf'], g('pwp_rc'), 'in'), (BC, b['phw_theta_cw'], g('pwp_cw'), 'in'), (g('pwp_cw'), 'out', g('hex_phw'), 'dmd_in'),
        ]
        bcs = {b['phwrc_theta_ff']: 60.0, b['rc_theta_rf']: 55.0, b['phw_theta_cw']: 13.0}
        ctrls = {
            'c_3v_mix%s' % seg: dict(cls='PID', actuator=g('p3v_phwrc_ff_mix'), actuator_port='A', controlled_part=g('p3v_phwrc_ff_mix'), controlled_port=7, setpoint=65.0, invert=False, sub_controller=False),
            'c_pump_phw_%s' % seg: dict(cls='PID', actuator=g('pwp_phw_ff'), controlled_part=g('pb_phwrc_dmd'), controlled_port=1, setpoint=60.0, invert=False, sub_controller=True, master_type='part', master_part=g('pwp_cw'), master_variable='dm', dependency_kind='concurrent', off_state=0.0),
            'c_pump_rc%s' % seg: dict(cls='PID', actuator=g('pwp_rc_ff'), controlled_part=g('p_rc_dmd'), controlled_port=1, setpoint=60.0, invert=False, sub_controller=False),
        }
        calc = dict(hex_phw_n_plates=n1, hex_rc_n_plates=n2, pipe_scaling_phw=fp, pipe_scaling_rc=fr, pipe_scaling_sum=fs, theta_phw=60.0, theta_rc=55.0, theta_coldwater=13.0, theta_mix=65.0)
        return parts, conns, bcs, ctrls, ('LowEx%s' % seg, calc), abs(fp - 1) + abs(fr - 1)


class Sps:
    @staticmethod
    def args(case):
        return dict(zip(('phw', 'rc'), flows(case)), lhs=LHS(case), ports=None if case['ports_s'] is None else {k: list(v) for k, v in case['ports_s'].items()})

    @staticmethod
    def add(w, case, seg, tes, a):
        kw = {} if a['ports'] is None else dict(store_gp=case['gp'], store_ports=a['ports'])
        return co().speicherladesys(w, a['lhs'], a['phw'], a['rc'], theta_ff_phwstore=case['ff'], store_dia=case['dia'], store_init=case['T_store'], segment_name=seg, adjust_pipes=case['adjust'], ff_connector={tes: case['con'][0]}, rf_connector={tes: case['con'][1]}, Tamb=case['Tamb'], calculations_df=a.get('df'), **kw)

    @staticmethod
    def spec(case, seg, tes):
        ph, rc = np.mean(case['phw']), case['rc']
        fp, fr = ph / PHW, rc / RC
        fs = fp / 3 + fr * 2 / 3
        power = (ph * 47.0 + rc * 5.0) * 4180.0
        f = power / 20e3
        l1, l2 = 5 * power / (4180 * (case['ff'] - 55.0)), 5 * power / (4180 * (60.15 - 53.0))
        n = plates(61 / 1607 * case['wfl'] / 7, 1)
        gp = 40 if case['ports_s'] is None else case['gp']
        N = {k: 'sps_%s_%s' % (k, seg) for k in 'store_phw p3v_ff_hex pwp_ff_hex pb_rf_hex p_rf_hex_to_mix hex_phw_store p_ff_store pwp_rf_store p_phwrc_dmd pwp_rc pwp_cw'.split()}
        g = lambda k: N[k]
        b = {k: 'BC_%s_%s' % (k, seg) for k in ('phwrc_theta_ff', 'rc_theta_rf', 'phw_theta_cw')}
        P = lambda cls, DN, f, **kw: dict(cls=cls, DN=DN, f=f, **kw)
        parts = {
            g('store_phw'): P('Tes', 'DN40', None, kw=dict(volume=case['v_stor'], grid_points=gp, outer_diameter=case['dia'])), g('p3v_ff_hex'): P('PipeWith3wValve', 'DN25', 1.1 * f, lims=(0.0, 1.0)),
            g('pwp_ff_hex'): P('PipeWithPump', 'DN25', 1.03 * f, lims=(0.0, l1), fmax=l1), g('pb_rf_hex'): P('PipeBranched', 'DN25', 0.95 * f), g('p_rf_hex_to_mix'): P('Pipe', 'DN25', 0.95 * f),
            g('hex_phw_store'): P('HexNum', 'DN25', f, kw=dict(plates=n, passes=1, flow_type='counter')), g('p_ff_store'): P('Pipe', 'DN32', 0.92 * f), g('pwp_rf_store'): P('PipeWithPump', 'DN32', f, lims=(0.0, l2), fmax=l2),
            g('p_phwrc_dmd'): P('Pipe', 'DN50', fs), g('pwp_rc'): P('PipeWithPump', 'DN25', fr, const=rc), g('pwp_cw'): P('PipeWithPump', 'DN32', fp, series=case['phw']),
        }
        conns = [
            (tes, case['con'][0], g('p3v_ff_hex'), 'A'), (g('p3v_ff_hex'), 'AB', g('pwp_ff_hex'), 'in'), (g('pb_rf_hex'), 'out', tes, case['con'][1]), (g('pb_rf_hex'), 'out_mix_sps_ff', g('p_rf_hex_to_mix'), 'in'), (g('p_rf_hex_to_mix'), 'out', g('p3v_ff_hex'), 'B'),
            (g('pwp_ff_hex'), 'out', g('hex_phw_store'), 'sup_in'), (g('hex_phw_store'), 'sup_out', g('pb_rf_hex'), 'in'), (g('hex_phw_store'), 'dmd_out', g('p_ff_store'), 'in'), (g('p_ff_store'), 'out', g('store_phw'), 'ff_tes'),
            (g('store_phw'), 'out', g('pwp_rf_store'), 'in'), (g('pwp_rf_store'), 'out', g('hex_phw_store'), 'dmd_in'), (g('store_phw'), 'in', g('p_phwrc_dmd'), 'in'), (g('p_phwrc_dmd'), 'out', BC, b['phwrc_theta_ff']),
            (g('pwp_rc'), 'out', g('store_phw'), 'rc'), (BC, b['rc_theta_rf'], g('pwp_rc'), 'in'), (BC, b['phw_theta_cw'], g('pwp_cw'), 'in'), (g('pwp_cw'), 'out', g('store_phw'), 'cw'),
        ]
        bcs = {b['phwrc_theta_ff']: 60.0, b['rc_theta_rf']: 55.0, b['phw_theta_cw']: 13.0}
        ctrls = {
            'sps_c_3v_hex_ff_%s' % seg: dict(cls='PID', actuator=g('p3v_ff_hex'), actuator_port='A', controlled_part=g('p3v_ff_hex'), controlled_port=4, setpoint=case['ff'], invert=False, sub_controller=False),
            'sps_c_pump_hex_%s' % seg: dict(cls='PID', actuator=g('pwp_ff_hex'), controlled_part=g('p_ff_store'), controlled_port=1, setpoint=60.15, invert=False, sub_controller=True, master_type='part', master_part=g('pwp_rf_store'), master_variable='dm', dependency_kind='concurrent', off_state=0.0),
            'sps_c_pump_store_%s' % seg: dict(cls='PID', actuator=g('pwp_rf_store'), controlled_part=g('store_phw'), controlled_port=int(0.35 * gp), setpoint=58.5, invert=False, sub_controller=False),
        }
        calc = dict(hex_store_n_plates=n, pipe_scaling_phw=fp, pipe_scaling_rc=fr, pipe_scaling_sum=fs, pipe_scaling_store_charging=f, theta_phw=60.0, theta_rc=55.0, theta_coldwater=13.0, sp_theta_mix_ff_HEX=case['ff'], pump_ff_HEX_max_massflow=l1, pump_storage_max_massflow=l2, store_theta_ctrl_idx=int(0.35 * gp), sp_theta_storage_ctrl=58.5, sp_theta_ff_storage=60.15)
        return parts, conns, bcs, ctrls, ('SPS%s' % seg, calc), abs(f - 1)


class Heating:
    @staticmethod
    def args(case):
        idx = pd.date_range(simkit.START, periods=len(case['dmd']), freq='1s')
        return dict(sh=pd.DataFrame({'sh_dmd': case['dmd'], 'theta_ff': case['tff'], 'theta_rf': case['trf']}, index=idx, dtype=float), lhs=LHS(case))

    @staticmethod
    def add(w, case, seg, tes, a):
        return co().space_heating(w, a['lhs'], a['sh'], case['P'], case['ffg'], segment_name=seg, adjust_pipes=case['adjust'], tes_ff_connector={tes: case['con'][0]}, tes_rf_connector={tes: case['con'][1]}, Tamb=case['Tamb'], calculations_df=a.get('df'))

    @staticmethod
    def spec(case, seg, tes):
        ff, rf, dm = (np.asarray(case[k], float) for k in ('tff', 'trf', 'dmd'))
        f = dm.mean() / (ff.max() - rf.max()) * 25.0
        fg = case['P'] / 150e3 / (case['ffg'] - rf.mean()) * 15.0
        N = {k: '%s_%s' % (k, seg) for k in 'pwp_sh_ff pb_sh_rf p3v_sh_tes_gb p3v_sh_tes_rf p_sh_gasb_ff ph_sh_gasb'.split()}
        g = lambda k: N[k]
        b = ['BC_sh_theta_ff_%s' % seg, 'BC_sh_theta_rf_%s' % seg]
        P = lambda cls, DN, f, **kw: dict(cls=cls, DN=DN, f=f, **kw)
        parts = {
            g('pwp_sh_ff'): P('PipeWithPump', 'DN40', f, series=case['dmd']), g('pb_sh_rf'): P('PipeBranched', 'DN40', f), g('p3v_sh_tes_gb'): P('PipeWith3wValve', 'DN40', f, lims=(0.01, 0.99)),
            g('p3v_sh_tes_rf'): P('PipeWith3wValve', 'DN32', f, lims=(0.01, 0.99)), g('p_sh_gasb_ff'): P('Pipe', 'DN50', fg), g('ph_sh_gasb'): P('HeatedPipe', 'DN125', fg, lims=(0.0, case['P'])),
        }
        conns = [
            (g('pwp_sh_ff'), 'out', BC, b[0]), (BC, b[1], g('pb_sh_rf'), 'in'), (g('pb_sh_rf'), 'out', tes, case['con'][1]), (g('p3v_sh_tes_gb'), 'AB', g('pwp_sh_ff'), 'in'), (g('p3v_sh_tes_rf'), 'AB', g('p3v_sh_tes_gb'), 'B'),
            (tes, case['con'][0], g('p3v_sh_tes_rf'), 'A'), (g('p3v_sh_tes_rf'), 'B', g('pb_sh_rf'), 'rf_to_valve'), (g('p3v_sh_tes_gb'), 'A', g('p_sh_gasb_ff'), 'out'), (g('p_sh_gasb_ff'), 'in', g('ph_sh_gasb'), 'out'), (g('ph_sh_gasb'), 'in', g('pb_sh_rf'), 'rf_to_gb'),
        ]
        bcs = {b[0]: ff.mean(), b[1]: rf}
        pth = case['P']
        ctrls = {
            'c_sh_3v_tesrf_%s' % seg: dict(cls='PID', actuator=g('p3v_sh_tes_rf'), actuator_port='A', controlled_part=g('p3v_sh_tes_rf'), controlled_port=5, setpoint=ff[0] + 0.01, invert=False, sub_controller=False),
            'c_sh_3v_tesgb_%s' % seg: dict(cls='PID', actuator=g('p3v_sh_tes_gb'), actuator_port='A', controlled_part=g('p3v_sh_tes_gb'), controlled_port=2, setpoint=ff[0], invert=False, sub_controller=False),
            'c_sh_gasb_pth_%s' % seg: dict(cls='PID', actuator=g('ph_sh_gasb'), controlled_part=g('ph_sh_gasb'), controlled_port=4, setpoint=case['ffg'], invert=False, sub_controller=True, master_type='controller', master_controller='c_sh_3v_tesgb_%s' % seg, dependency_kind='concurrent', off_state=0.0, CV_saturation=(0.0, pth)),
        }
        calc = dict(pipe_scaling_sh=f, pipe_scaling_sh_gasboiler=fg, theta_sh_ff_max=ff.max(), theta_sh_rf_max=rf.max(), theta_sh_ff_mean=ff.mean(), theta_sh_rf_mean=rf.mean(), theta_sh_ff_min=ff.min(), theta_sh_rf_min=rf.min(), theta_sh_gasb_ff=case['ffg'])
        return parts, conns, bcs, ctrls, ('space_heating%s' % seg, calc), abs(f - 1)


KINDS = dict(gas=Gas, chp=Chp, lowex=Lowex, sps=Sps, heating=Heating)


# ---------------------------------------------------------------- strategies
SEGS = ['1', '2', 'A', 'east_3', 7]


@st.composite
def system(draw, kind):
    c = dict(kind=kind, seg=draw(st.sampled_from(SEGS)), adjust=draw(st.sampled_from([True, True, True, False])), Tamb=draw(fl(10, 30, 1)), tf=draw(fl(3, 8, 1)), T_tes=draw(fl(45, 78, 1)), df=draw(st.booleans()), dup=draw(st.sampled_from([None, None, 'B', '11'])))
    if kind == 'gas':
        c['P'] = draw(fl(1e4, 3e5, 0))
        c['ff'] = draw(fl(66, 88, 1))
        c['on'], c['off'] = draw(st.integers(0, 19)), draw(st.integers(0, 19))
        c['off_val'] = draw(fl(50, 80, 1))
        c['sp'] = c['off_val'] - draw(fl(1, 12, 1))
        c['con'] = draw(st.sampled_from([['in', 'out'], ['in', 'out'], ['out', 'in']]))
        c['tf'] = draw(fl(4, 16, 1))
    elif kind == 'chp':
        c['Pel'] = draw(fl(6e3, 6e4, 0))
        c['eta'] = draw(fl(0.25, 0.38, 3))
        c['p2h'] = draw(fl(max(0.4, round(c['eta'] / (0.94 - c['eta']) + 0.01, 3)), 0.8, 3))
        c['mod'] = draw(st.sampled_from([(0.5, 1), (0.4, 1), (0.6, 1)]))
        c['ff'] = draw(fl(76, 90, 1))
        c['off_val'] = c['ff'] - draw(fl(5, 14, 1))
        c['sp'] = draw(fl(50, 75, 1))
        c['on'] = draw(st.integers(0, 19))
        c['n'] = draw(st.sampled_from([0.5, 1, 2, 3]))
        c['con'] = ['in', 'out', 'ha', 'hb'][: {0.5: 2, 1: 2, 2: 3, 3: 4}[c['n']]]
        c['ports'] = {'ha': 12, 'hb': 8} if c['n'] == 3 else {'ha': 12} if c['n'] == 2 else {}
        c['DN'] = draw(st.sampled_from(['DN80', 'DN65', None]))
        c['t_hex'], c['t_mix'] = draw(fl(50, 60, 1)), draw(fl(58, 68, 1))
        c['ts'] = [draw(st.booleans()) for _ in range(3)]
    elif kind in ('lowex', 'sps'):
        c['wfl'] = draw(fl(600, 4000, 0))
        n = draw(st.integers(12, 30))
        base = draw(fl(0.006, 0.06, 3))
        c['phw'] = [round(base * k, 4) for k in draw(st.lists(st.sampled_from([0.5, 1.0, 1.5, 2.0]), min_size=n, max_size=n))]
        c['rc'] = draw(fl(0.05, 0.4, 3))
        c['con'] = ['in', 'out', 'rc'][: 3 if kind == 'lowex' else 2]
        c['ports'] = {'rc': draw(st.integers(5, 14))} if kind == 'lowex' else {}
        c['T_tes'] = draw(fl(66, 80, 1))
        c['tf'] = draw(fl(3, 5, 1))
        if kind == 'sps':
            c['theta_ff'], c['v_stor'], c['dia'] = draw(fl(68, 80, 1)), draw(fl(0.4, 1.5, 2)), draw(fl(0.7, 1.2, 1))
            c['ff'] = draw(fl(62, 68, 1))
            c['T_store'] = draw(fl(50, 62, 1))
            c['gp'] = draw(st.integers(12, 40))
            c['ports_s'] = draw(st.sampled_from([None, {'ff_tes': [0.0, 'volume'], 'rc': [5, 'index'], 'cw': [c['gp'] - 2, 'index']}, {'ff_tes': [1, 'index'], 'rc': [7, 'index'], 'cw': [c['gp'] - 3, 'index']}]))
    else:
        n = draw(st.integers(12, 30))
        c['wfl'] = 1000.0
        base = draw(fl(0.05, 1.5, 2))
        c['dmd'] = [round(base * k, 4) for k in draw(st.lists(st.sampled_from([0.5, 1.0, 1.5]), min_size=n, max_size=n))]
        t0 = draw(fl(50, 65, 1))
        c['tff'] = [t0 + k for k in draw(st.lists(st.integers(0, 8), min_size=n, max_size=n))]
        c['trf'] = [t0 - 12 - k for k in draw(st.lists(st.integers(0, 8), min_size=n, max_size=n))]
        c['P'] = draw(fl(1e4, 2e5, 0))
        c['ffg'] = draw(fl(74, 85, 1))
        c['con'] = ['in', 'out']
        c['T_tes'] = draw(fl(60, 80, 1))
    return c


# --------------------------------------------------------------------- checks
def close(a, b):
    return abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(b)))


def same(a, b):
    if isinstance(b, str) or isinstance(a, str):
        return str(a) == str(b)
    if isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return close(a, b)


def area(spec):
    q = spec['all']
    return q['A_i'] if 'A_i' in q else TABLE[q['DN']]['A_i']


def frozen(a):
    return {k: copy.deepcopy(v.__dict__ if isinstance(v, LHS) else v) for k, v in a.items() if k != 'df'}


def unaltered(a, old):
    for k, v in old.items():
        n = a[k].__dict__ if isinstance(a[k], LHS) else a[k]
        if k == 'fg':
            require(set(n) == set(v) and n['max_gas_Nm3h'] == v['max_gas_Nm3h'], 'argument %s was altered', k)
        elif isinstance(v, (pd.Series, pd.DataFrame)):
            require(n.equals(v), 'argument %s was altered', k)
        else:
            require(n == v, 'argument %s was altered: %s, given %s', k, n, v)


def declared(w, case, seg, tes):
    parts, conns, bcs, ctrls, calc, _ = KINDS[case['kind']].spec(case, seg, tes)
    return parts, {edge(*c) for c in conns}, bcs, ctrls


def check_declaration(w, case, names):
    parts, conns, bcs, ctrls = {}, set(), {}, {}
    for seg, tes in names:
        p, c, b, k = declared(w, case, seg, tes)
        parts.update(p), conns.update(c), bcs.update(b), ctrls.update(k)
    require(set(w.parts) == set(parts), 'parts %s added, expected %s', sorted(w.parts), sorted(parts))
    require(w.conns == conns, 'connections %s differ from those expected', sorted(w.conns ^ conns))
    require(set(w.bcs) == set(bcs), 'boundary conditions %s', sorted(w.bcs))
    for k, v in bcs.items():
        got = np.asarray(w.bcs[k][1], float)
        require(got.size == np.size(v) and np.allclose(got, v, rtol=1e-9, atol=0) and bool(w.bcs[k][0]) == (np.size(v) == 1), 'boundary condition %s: %s, expected %s', k, w.bcs[k], v)
    for n, e in parts.items():
        p = w.parts[n]
        require(p['cls'] == e['cls'], '%s is a %s', n, p['cls'])
        if e['f'] is not None:
            A = TABLE[e['DN']]['A_i']
            A = A * (e['f'] if case['adjust'] else 1.0)
            require(abs(area(p['pipe_specs']) - A) <= 1e-9 * A, '%s: pipe area %.8g m2, expected %.8g m2', n, area(p['pipe_specs']), A)
        if 'lims' in e:
            require(same((p['lower_limit'], p['upper_limit']), e['lims']), '%s: limits %s, expected %s', n, (p['lower_limit'], p['upper_limit']), e['lims'])
        if 'fmax' in e:
            require(close(p['maximum_flow'], e['fmax']), '%s: maximum flow %s, expected %s', n, p['maximum_flow'], e['fmax'])
        for k, v in e.get('kw', {}).items():
            require(same(p[k], v), '%s: %s=%s, expected %s', n, k, p[k], v)
    require(set(w.ctrls) == set(ctrls), 'controllers %s, expected %s', sorted(w.ctrls), sorted(ctrls))
    for n, e in ctrls.items():
        for k, v in e.items():
            require(k in w.ctrls[n] and same(w.ctrls[n][k], v), '%s: %s=%s, expected %s', n, k, w.ctrls[n].get(k), v)
    return parts


def simulate(case, names, args, stores=None):
    s = env(case)
    w = Watch(s)
    with simkit.quiet():
        for tes in stores or sorted({t for _, t in names}):
            store(s, case, tes)
        for seg, tes in names:
            out = add(w, case, seg, tes, args)
            if args.get('df') is not None:
                require(out is args['df'], 'the given table of calculations is not returned')
        parts = check_declaration(w, case, names)
        s.initialize_sim()
    simkit.run(s)
    return s, w, parts


def run_system(case, rec):
    K = KINDS[case['kind']]
    seg = case['seg']
    args = K.args(case)
    df = pd.DataFrame() if case['df'] else None
    args['df'] = df
    old = frozen(args)
    s, w, parts = simulate(case, [(seg, 'tes')], args)
    unaltered(args, old)
    rec.label(case['kind'], 'adjust %s' % case['adjust'], *(['ports %s' % case['n']] if 'n' in case else []))
    if df is not None:
        col, calc = K.spec(case, seg, 'tes')[4]
        require(col in df.columns, 'no column %s in the table of calculations', col)
        for k, v in calc.items():
            require(close(df.loc[k, col], v), 'calculation %s: %s, expected %s', k, df.loc[k, col], v)
    t = np.asarray(s.time_vec, float)
    moved = False
    for n, e in parts.items():
        x = s.parts[n]
        R, D = np.asarray(x.res, float), np.asarray(x.res_dm, float)
        require(len(R) == len(t) and np.isfinite(R).all() and np.isfinite(D).all(), '%s: results not finite', n)
        require(R.min() > 0 and R.max() < 150, '%s: temperatures %s to %s degC', n, R.min(), R.max())
        if e['cls'] == 'PipeWithPump':
            f = D[:, 0]
            moved = moved or np.abs(f).max() > 0
            if 'const' in e:
                require(np.abs(f - e['const']).max() <= 1e-12, '%s: flow %s, expected %s', n, f, e['const'])
            elif 'series' in e:
                y = np.asarray(e['series'], float)
                k = np.floor(t + 1e-9).astype(int)
                near = np.array([y[np.clip(k + j, 0, len(y) - 1)] for j in (-2, -1, 0, 1)])
                lo, hi = near.min(axis=0), near.max(axis=0)
                require(((f >= lo - 1e-9) & (f <= hi + 1e-9)).all(), '%s: flows %s do not follow the demand %s', n, f, e['series'])
            else:
                require(f.min() >= -1e-12 and f.max() <= e['lims'][1] * (1 + 1e-9), '%s: flow %s outside of 0 to %s', n, f.max(), e['lims'][1])
    if case['kind'] == 'gas':
        q = np.asarray(s.parts['ph_gasb_%s' % seg].res_dQ, float)[:, 0]
        T = np.asarray(s.parts['tes'].res, float)
        on = (T[:, case['on']] < case['sp']).all() and (T[:, case['off']] < case['off_val']).all()
        off = (T[:, case['on']] > case['sp']).all()
        P = case['P']
        if on:
            ramp = np.minimum(P, np.concatenate([[0.0], t[:-1] * P / 10]))
            require(np.abs(q - ramp).max() <= 1e-6 * P, 'boiler power %s, expected %s', q, ramp)
            rec.label('boiler on')
        if off:
            require(np.abs(q).max() == 0, 'boiler runs at %s W although its store is hot', q.max())
            require(np.abs(np.asarray(s.parts['pwp_gasb_ff_%s' % seg].res_dm)).max() == 0, 'pump of a cold boiler runs')
            rec.label('boiler off')
        moved = moved or off
    if case['kind'] == 'chp':
        x = s.parts['CHP%s' % seg]
        q = np.asarray(x.res_dQ, float)
        T = np.asarray(s.parts['tes'].res, float)[:, case['on']]
        if (T > case['sp']).all():
            require(np.abs(q).max() == 0, 'plant runs at %s W although its store is hot', q.max())
            rec.label('chp off')
            moved = True
        else:
            rec.label('chp on')
        require(q.max() <= case['Pel'] / case['p2h'] * (1 + 1e-9), 'heat %s W of a plant of %s W', q.max(), case['Pel'] / case['p2h'])
    rec.mark(moved and K.spec(case, seg, 'tes')[5] > 0.1)
    if case['dup'] is not None:
        # the same system twice, on stores of their own: nothing is shared, not
        # even when the arguments are the same objects
        rec.label('two systems')
        args['df'] = None
        two, w2, _ = simulate(case, [(seg, 'tes'), (case['dup'], 'other')], args)
        unaltered(args, old)
        t2 = np.asarray(two.time_vec, float)
        ren = name_map(case, seg, case['dup'])
        for n in parts:
            a, b = np.asarray(two.parts[n].res, float), np.asarray(two.parts[ren[n]].res, float)
            require(a.shape == b.shape and np.abs(a - b).max() <= TRACE, '%s and %s, the same part of two equal systems, differ by %.3g K', n, ren[n], np.abs(a - b).max() if a.shape == b.shape else np.inf)
        if len(t2) == len(t) and np.abs(t2 - t).max() <= 1e-9:
            rec.label('same steps')
            for n in list(parts) + ['tes']:
                d = np.abs(np.asarray(two.parts[n].res, float) - np.asarray(s.parts[n].res, float)).max()
                require(d <= TRACE, '%s differs by %.3g K when a second system is added', n, d)


def name_map(case, seg, dup):
    a, b = (list(KINDS[case['kind']].spec(case, q, 'tes')[0]) for q in (seg, dup))
    return dict(zip(a, b))


SUBCHECKS = [
    Sub('gas', lambda: system('gas'), run_system, 80, 1200),
    Sub('chp', lambda: system('chp'), run_system, 64, 800),
    Sub('heating', lambda: system('heating'), run_system, 48, 600),
    Sub('lowex', lambda: system('lowex'), run_system, 24, 240),
    Sub('sps', lambda: system('sps'), run_system, 24, 240),
]

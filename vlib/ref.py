"""Independent reference model of the simulated physics.

Written from the model equations (finite volume energy balance with upwind
advection, conduction between cells, wall heat capacity and wall conduction,
losses to ambient after VDI Waermeatlas 2013, buoyancy mixing in storages,
lossless massless connectors), not from the implementation's data flow.
``RefNet(net)`` takes the same JSON description as simkit.build().
"""

import json
import os

import numpy as np

_TAB = json.load(
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tables.json'))
)
SOLIDS, PIPES = _TAB['solids'], _TAB['pipes']
BC = 'BoundaryCondition'


# ------------------------------------------------------------ fluid properties
def _poly(c, T):
    r = 0.0
    for a in reversed(c):
        r = r * T + a
    return r


_CP = (4215.4023574179992, -2.8853943283519348, 7.490580684801168e-02,
       -7.7807143441700321e-04, 3.2109328970410432e-06)
_RHO = (999.88785713136213, 4.9604454990529602e-02, -7.4722666453460717e-03,
        4.1094484438154484e-05, -1.2915789546323614e-07)
_LAM = (5.6987912853229539e-01, 1.7878370402545738e-03,
        -5.9998217273879795e-06, -8.6964577115093407e-09)
_NY = (1.7764473380494155e-06, -5.5640275781265404e-08, 1.0243072887494426e-09,
       -9.7954460136981165e-12, 3.6460468745062724e-14)
_PR = (12.5780108199379058, -0.35124680571767508, 4.3225480444706085e-03,
       -1.9174193923188898e-05)
_BETA = (-5.87985364766666e-05, 1.5641955219950547e-05, -1.3587684743777981e-07,
         6.1220503308149086e-10)
_LAMA = (0.024358670995670989, 7.6533982683982561e-05, -4.2099567099572201e-08)
_NYA = (1.3500069264069257e-05, 8.8810389610389459e-08, 1.0974025974025443e-10)


def cp_w(T):
    return _poly(_CP, T)


def rho_w(T):
    return _poly(_RHO, T)


def lam_w(T):
    return _poly(_LAM, T)


def ny_w(T):
    return _poly(_NY, T)


def pr_w(T):
    return _poly(_PR, T)


def beta_w(T):
    return _poly(_BETA, T)


# ----------------------------------------------------------- heat transfer
def alpha_inner(dm, T, A, d_i, x):
    """VDI G1: laminar entry / turbulent pipe flow, per cell."""
    T = np.asarray(T, float)
    dm = np.broadcast_to(np.asarray(dm, float), T.shape)
    x = np.asarray(x, float)
    if dm.ravel()[0] < 0:
        x = x[::-1]
    Re = np.abs(dm) / (rho_w(T) * A) * d_i / ny_w(T)
    Pr = pr_w(T)
    with np.errstate(all='ignore'):
        f = (1.8 * np.log10(np.maximum(Re, 1e-300)) - 1.5) ** -2
        Nt = (
            f / 8 * Re * Pr
            / (1 + 12.7 * np.sqrt(f / 8) * (Pr ** (2 / 3) - 1))
            * (1 + (d_i / x) ** (2 / 3) / 3)
        )
        N2 = 1.077 * (Re * Pr * d_i / x) ** (1 / 3)
        Nl = (49.371 + (N2 - 0.7) ** 3) ** (1 / 3)
    Nu = np.where(Re > 2300, Nt, Nl)
    return Nu * lam_w(T) / d_i


PR_AIR = 0.708


def _ra_air(Ts, Tinf, L):
    ny = _poly(_NYA, (Ts + Tinf) / 2)
    return abs(Ts - Tinf) * 9.81 * L ** 3 * PR_AIR / ((Tinf + 273.15) * ny ** 2)


def alpha_outer_cyl(Ts, Tinf, L, vertical, r_total):
    """VDI F2.1 / F2.4, scalars."""
    lam = _poly(_LAMA, (Ts + Tinf) / 2)
    Ra = _ra_air(Ts, Tinf, L)
    if vertical:
        f = (1 + (0.492 / PR_AIR) ** (9 / 16)) ** (-16 / 9)
        Nu = (0.825 + 0.387 * (Ra * f) ** (1 / 6)) ** 2 + 0.435 * L / (2 * r_total)
    else:
        f = (1 + (0.559 / PR_AIR) ** (9 / 16)) ** (-16 / 9)
        Nu = (0.752 + 0.387 * (Ra * f) ** (1 / 6)) ** 2
    return Nu * lam / L


def alpha_outer_hplane(Ts, Tinf, L, top):
    lam = _poly(_LAMA, (Ts + Tinf) / 2)
    Ra = _ra_air(Ts, Tinf, L)
    if (top and Ts >= Tinf) or (not top and Ts < Tinf):
        raf = Ra * (1 + (0.322 / PR_AIR) ** (11 / 20)) ** (-20 / 11)
        Nu = 0.766 * raf ** 0.2 if raf <= 7e4 else 0.15 * raf ** (1 / 3)
    else:
        f = (1 + (0.492 / PR_AIR) ** (9 / 16)) ** (-16 / 9)
        Nu = 0.6 * (Ra * f) ** 0.2
    return Nu * lam / L


def ua_cyl(A_i, r_i, r_o, r_t, a_i, a_o, lw, li):
    return A_i / (
        1 / a_i + r_i * np.log(r_o / r_i) / lw + r_i * np.log(r_t / r_o) / li
        + r_i / r_t / a_o
    )


def ambient_ua(T, Tinf, g, alpha_i, iters=60):
    """UA to ambient with the surface temperature it implies (fixed point)."""
    T = np.asarray(T, float)
    ts = np.full(T.shape, float(Tinf))
    for _ in range(iters):
        ao = alpha_outer_cyl(ts, Tinf, g.flow_length, g.vertical, g.r_t)
        ua = ua_cyl(g.A_i, g.r_i, g.r_o, g.r_t, alpha_i, ao, g.lam_wll, g.lam_ins)
        tn = Tinf + (T - Tinf) * ua / (ao * g.A_s)
        done = np.abs(tn - ts).max() < 1e-11
        ts = tn
        if done:
            break
    return ua, ts


def buoyancy_factor(T, d_i):
    """Multiplier of the conductivity between neighbouring storage cells."""
    dT = np.maximum(T[1:] - T[:-1], 0.0)
    Tb = T[1:]
    Pr = pr_w(Tb)
    Ra = Pr * 9.81 * (d_i / 4) ** 3 * np.abs(beta_w(Tb)) * dT / ny_w(Tb) ** 2
    raf = Ra * (1 + (0.322 / Pr) ** (11 / 20)) ** (-20 / 11)
    Nu = np.where(raf > 7e4, 0.15 * raf ** (1 / 3), 0.766 * raf ** 0.2)
    return np.where(Nu >= 1, Nu * 20.0, 1.0)


class G:
    pass


# ------------------------------------------------------ plate heat exchangers
def alpha_plate(dm_channel, T, A, d_h, x, corr):
    """VDI G1 mean Nusselt numbers (entry flow laminar, Gnielinski turbulent)."""
    Re = abs(dm_channel) / (rho_w(T) * A) * d_h / ny_w(T) + corr
    Pr = pr_w(T)
    if Re > 2300:
        f = (1.8 * np.log10(Re) - 1.5) ** -2
        Nu = f / 8 * Re * Pr / (1 + 12.7 * np.sqrt(f / 8) * (Pr ** (2 / 3) - 1)) * (1 + (d_h / x) ** (2 / 3))
    else:
        z = Re * Pr * d_h / x
        n2 = 1.615 * z ** (1 / 3)
        n3 = (2 / (1 + 22 * Pr)) ** (1 / 6) * z ** 0.5
        Nu = (3.66 ** 3 + 0.7 ** 3 + (n2 - 0.7) ** 3 + n3 ** 3) ** (1 / 3)
    return Nu * lam_w(T) / d_h


def plate_geometry(d):
    """Areas, gaps and channel numbers of a plate heat exchanger."""
    g = G()
    mat = SOLIDS[d.get('material', 'carbon_steel')]
    n, passes = d['plates'], d['passes']
    if passes == 1:
        big, small = n // 2, n // 2 - 1
        g.n_sup, g.n_dmd = (big, small) if d['max_channels'] == 'supply' else (small, big)
    else:
        g.n_sup = g.n_dmd = (n - 1) // (2 * passes)
    g.num_A = (n - 2) // passes
    L, W, dp, rc = d['length'], d['width'], d['port_diameter'], d['corner_radius']
    corners = 4 * rc ** 2 - np.pi * rc ** 2
    full = L * W - corners
    A = d.get('A_plate', full - 4 * np.pi * dp ** 2 / 4)
    if 'channel_width' in d:
        gap = d['channel_width']
        plate = d['plate_thickness'] if 'plate_thickness' in d else d['depth_per_plate'] - gap
    elif 'mass_per_plate' in d:
        if 'plate_thickness' in d:
            plate = d['plate_thickness']
        else:
            U = 2 * L + 2 * W - 8 * rc + 2 * np.pi * rc
            plate = d['mass_per_plate'] / ((A + d['depth_per_plate'] * U) * mat['rho'])
        gap = d['depth_per_plate'] - plate
    else:
        gap = d['V_channel'] / full
        plate = d['plate_thickness'] if 'plate_thickness' in d else d['depth_per_plate'] - gap
    g.gap, g.plate, g.A = gap, plate, A * passes
    g.A_channel = d.get('channel_area', gap * W)
    g.d_h = 2 * gap
    g.x = L
    g.lam = mat['lambda']
    g.corr = d.get('Reynolds_correction', 1e-6)
    return g


def plate_hex_outlets(d, T, fl):
    """Outlet temperatures of the counterflow NTU heat exchanger."""
    g = plate_geometry(d)
    fs, fd = fl['sup_in'], fl['dmd_in']
    si, so = ('sup_in', 'sup_out') if fs >= 0 else ('sup_out', 'sup_in')
    di, do = ('dmd_in', 'dmd_out') if fd >= 0 else ('dmd_out', 'dmd_in')
    out = {q: T[q] for q in ('sup_in', 'sup_out', 'dmd_in', 'dmd_out')}
    if fs == 0 or fd == 0:
        if fs:
            out[so] = T[si]
        if fd:
            out[do] = T[di]
        return out
    tm = [(T['sup_in'] + T['sup_out']) / 2, (T['dmd_in'] + T['dmd_out']) / 2]
    a_s = alpha_plate(fs / g.n_sup, tm[0], g.A_channel, g.d_h, g.x, g.corr)
    a_d = alpha_plate(fd / g.n_dmd, tm[1], g.A_channel, g.d_h, g.x, g.corr)
    UA = g.num_A * g.A / (1 / a_s + g.plate / g.lam + 1 / a_d)
    Cs, Cd = abs(fs) * cp_w(tm[0]), abs(fd) * cp_w(tm[1])
    lo, hi = min(Cs, Cd), max(Cs, Cd)
    r, ntu = lo / hi, UA / lo
    if 1 - r < 1e-9:
        eps = ntu / (1 + ntu)
    else:
        e = np.exp(-ntu * (1 - r))
        eps = (1 - e) / (1 - r * e)
    Q = eps * lo * (T[si] - T[di])
    out[so] = T[si] - Q / Cs
    out[do] = T[di] + Q / Cd
    return out


PIPELIKE = ('Pipe', 'PipeWithPump', 'HeatedPipe', 'CHPPlant', 'PipeBranched', 'PipeWith3wValve')
NONNUM = ('Pump', 'MixingValve', 'Connector3w', 'HeatExchanger')


def spec_of(ps, port=None):
    d = ps['all'] if 'all' in ps else ps[port]
    if 'DN' in d:
        return PIPES[d['pipe_type']][d['DN']]
    return dict(A_i=d['A_i'], A_wall=d['A_wall'])


class RefPart:
    def __init__(self, d):
        self.d, self.cls, self.name = d, d['cls'], d['name']
        c = self.cls
        self.numeric = c in PIPELIKE or c == 'Tes'
        mat = SOLIDS[d.get('material', 'carbon_steel')]
        g = self.g = G()
        g.lam_wll = mat['lambda']
        if c in PIPELIKE:
            s = spec_of(d['pipe_specs'])
            n = self.n = d['grid_points']
            g.vertical = False
            g.d_i, g.d_o = s['d_i'], s['d_o']
            g.length = d['length']
            g.A_cell = s['A_i']
        elif c == 'Tes':
            n = self.n = d['grid_points']
            g.vertical = True
            g.d_o = d['outer_diameter']
            g.d_i = g.d_o - 2 * d['shell_thickness']
            g.A_cell = np.pi * g.d_i ** 2 / 4
            g.length = d['volume'] / g.A_cell
        if self.numeric:
            g.gsp = g.length / n
            g.V = g.A_cell * g.gsp
            g.r_i, g.r_o = g.d_i / 2, g.d_o / 2
            g.r_t = g.r_o + d['insulation_thickness']
            g.lam_ins = d['insulation_lambda']
            g.A_i = np.pi * g.d_i * g.gsp
            g.A_s = 2 * np.pi * g.r_t * g.gsp
            shell = np.pi / 4 * (g.d_o ** 2 - g.d_i ** 2)
            g.UA_tb_wll = shell / g.gsp * g.lam_wll
            g.mcp_wll = mat['c_p'] * mat['rho'] * shell * g.gsp
            g.T_amb = d['T_amb']
            if c == 'Tes':
                g.x = np.full(n, g.length * (1.077 / 1.615) ** 3)
                g.flow_length = g.gsp
                w = g.r_t * 2
                g.flow_length_lid = w * w / (2 * w + 2 * w)
            else:
                g.x = (np.arange(n) + 0.5) * g.gsp
                g.flow_length = np.pi * g.r_t
        # ports: name -> cell
        if c in ('Pipe', 'PipeWithPump', 'HeatedPipe', 'CHPPlant'):
            self.ports = {'in': 0, 'out': n - 1}
        elif c in ('PipeBranched', 'Tes'):
            self.ports = {'in': 0, 'out': n - 1}
            for k, (pos, how) in (d.get('new_ports') or {}).items():
                if how == 'volume':
                    vc = g.V
                    pos = int(min(max(round((pos - (vc / 2 - 1e-9)) / vc), 0), n - 1))
                self.ports[k] = pos
        elif c == 'PipeWith3wValve':
            self.ports = {'A': 0, 'B': d['valve_location'], 'AB': n - 1}
        elif c == 'Pump':
            self.ports = {'in': 0, 'out': 1}
        elif c == 'MixingValve':
            self.ports = {'A': 0, 'B': 1, 'AB': 2}
        elif c == 'Connector3w':
            self.ports = {'A': 0, 'B': 1, 'C': 2}
        elif c == 'HeatExchanger':
            self.ports = {'sup_in': 0, 'sup_out': 1, 'dmd_in': 2, 'dmd_out': 3}
        else:
            raise ValueError(c)


class RefNet:
    def __init__(self, net):
        self.net = net
        self.parts = {p['name']: RefPart(p) for p in net['parts']}
        self.bcs = {b['name']: b for b in net.get('bcs', [])}
        self.conns = [tuple(c) for c in net['conns']]
        self.link = {}
        for i, (p1, q1, p2, q2) in enumerate(self.conns):
            if p1 != BC:
                self.link[(p1, q1)] = (p2, q2, i, -1)
            if p2 != BC:
                self.link[(p2, q2)] = (p1, q1, i, +1)
        # sign: +1 -> a positive connection flow enters the part at this port
        self._geom()

    # ------------------------------------------------------------------ flows
    def port_flows(self, pump, valve):
        """Flow into each part port, from mass balances alone.

        pump: {name: kg/s from 'in' to 'out'}, valve: {name: opening of A}.
        """
        m = len(self.conns)
        rows, rhs = [], []

        def row(terms, b=0.0):
            r = np.zeros(m)
            for (name, port), f in terms:
                _, _, i, s = self.link[(name, port)]
                r[i] += f * s
            rows.append(r)
            rhs.append(b)

        for n, p in self.parts.items():
            if p.cls == 'HeatExchanger':
                row([((n, 'sup_in'), 1), ((n, 'sup_out'), 1)])
                row([((n, 'dmd_in'), 1), ((n, 'dmd_out'), 1)])
                continue
            row([((n, q), 1) for q in p.ports])
            if p.cls in ('Pump', 'PipeWithPump'):
                row([((n, 'in'), 1)], pump[n])
            if p.cls in ('MixingValve', 'PipeWith3wValve'):
                x = valve[n]
                row([((n, 'A'), 1), ((n, 'AB'), x)])
        A, b = np.array(rows), np.array(rhs)
        sol, _, rank, _ = np.linalg.lstsq(A, b, rcond=None)
        if rank < m:
            raise ValueError('flows not determined')
        if np.abs(A @ sol - b).max() > 1e-9:
            raise ValueError('flows over-determined')
        sol[np.abs(sol) < 1e-13] = 0.0
        return {
            (n, q): float(self.link[(n, q)][3] * sol[self.link[(n, q)][2]])
            for n, p in self.parts.items()
            for q in p.ports
        }

    def cell_flows(self, name, pf):
        """Flow recorded per cell of a part (positive from first to last)."""
        p = self.parts[name]
        c = p.cls
        if c in ('Pipe', 'PipeWithPump', 'HeatedPipe', 'CHPPlant', 'Pump'):
            return np.array([pf[(name, 'in')]])
        if c == 'MixingValve':
            return np.abs([pf[(name, q)] for q in ('A', 'B', 'AB')])
        if c == 'Connector3w':
            return np.array([pf[(name, q)] for q in ('A', 'B', 'C')])
        if c == 'HeatExchanger':
            return np.array([pf[(name, 'sup_in')], pf[(name, 'dmd_in')]])
        net_in = np.zeros(p.n)
        for q, idx in p.ports.items():
            net_in[idx] += pf[(name, q)]
        cum = np.cumsum(net_in)  # through the border below cell i
        out = cum.copy()
        out[-1] = cum[-2] if p.n > 1 else 0.0
        return out

    # --------------------------------------------------------------- geometry
    def _own(self, name, port):
        p = self.parts[name]
        if p.numeric:
            s = spec_of(p.d['pipe_specs'], port)
            return dict(Af=s['A_i'], Aw=s['A_wall'], gsp=p.g.gsp, lam=p.g.lam_wll)
        return None

    def _geom(self):
        self.pg = {}
        own = {}
        for n, p in self.parts.items():
            for q in p.ports:
                own[(n, q)] = self._own(n, q)
        for n, p in self.parts.items():
            if p.numeric or p.cls == 'HeatExchanger':
                continue
            direct = {}
            for q in p.ports:
                o = self.link[(n, q)][:2]
                direct[q] = own.get(o)
            for q in p.ports:
                oth = [direct[r] for r in p.ports if r != q and direct[r]]
                if oth and len(oth) == len(p.ports) - 1:
                    own[(n, q)] = {
                        k: float(np.mean([o[k] for o in oth])) for k in oth[0]
                    }
        for n, p in self.parts.items():
            if not p.numeric:
                continue
            for q in p.ports:
                me = own[(n, q)]
                on, oq = self.link[(n, q)][:2]
                ot = me if on == BC else own[(on, oq)]
                if ot is None:  # heat exchanger: no conduction over its ports
                    self.pg[(n, q)] = None
                    continue
                Aw = (me['Aw'] + ot['Aw']) / 2
                self.pg[(n, q)] = dict(
                    Af=(me['Af'] + ot['Af']) / 2,
                    gsp=ot['gsp'],
                    UAw=Aw / (ot['gsp'] / (2 * ot['lam']) + me['gsp'] / (2 * me['lam'])),
                )

    # ------------------------------------------------------------------ ports
    def bc_T(self, name, t=None):
        b = self.bcs[name]
        return b['T']

    def shown(self, state, pf, bcT=None):
        """Temperature each port shows to the part connected to it."""
        out = {}
        for n, p in self.parts.items():
            if p.numeric:
                for q, i in p.ports.items():
                    out[(n, q)] = state[n][i]

        def other(n, q):
            on, oq = self.link[(n, q)][:2]
            if on == BC:
                return (bcT or {}).get(oq, self.bcs[oq].get('T'))
            return out[(on, oq)]

        for n, p in self.parts.items():
            if p.numeric:
                continue
            T = {q: other(n, q) for q in p.ports}
            fl = {q: pf[(n, q)] for q in p.ports}
            out.update({(n, q): v for q, v in junction(p.cls, p.d, T, fl).items()})
        return out

    def init_state(self):
        out = {}
        for n, p in self.parts.items():
            if p.numeric:
                T = p.d['T_init']
                T = T['@array'] if isinstance(T, dict) else T
                out[n] = np.broadcast_to(np.asarray(T, float), (p.n,)).copy()
        return out

    # -------------------------------------------------------------------- rhs
    def rhs(self, state, pf, heat=None, bcT=None, terms=False, shown=None):
        sh = self.shown(state, pf, bcT) if shown is None else shown
        res, mags = {}, {}
        if terms:
            self.loss = {}  # heat losses
        for n, p in self.parts.items():
            if not p.numeric:
                continue
            g, T = p.g, np.asarray(state[n], float)
            cp, rho, lam = cp_w(T), rho_w(T), lam_w(T)
            mcp = g.V * rho * cp + g.mcp_wll
            lm = 2 * lam[:-1] * lam[1:] / (lam[:-1] + lam[1:])
            if p.cls == 'Tes':
                lm = lm * buoyancy_factor(T, g.d_i)
            UA = g.A_cell / g.gsp * lm + g.UA_tb_wll
            q = UA * (T[1:] - T[:-1])
            Q = np.zeros(p.n)
            M = np.zeros(p.n)
            Q[:-1] += q
            Q[1:] -= q
            M[:-1] += abs(q)
            M[1:] += abs(q)
            fl = self.cell_flows(n, pf)
            dm_c = fl if fl.size == p.n else np.full(p.n, fl[0])
            a_i = alpha_inner(dm_c, T, g.A_cell, g.d_i, g.x)
            ua, ts = ambient_ua(T, g.T_amb, g, a_i)
            ql = ua * (g.T_amb - T)
            Q += ql
            M += abs(ql)
            L = abs(ql)
            if p.cls == 'Tes':
                for e, top in ((0, True), (p.n - 1, False)):
                    ao = alpha_outer_hplane(ts[e], g.T_amb, g.flow_length_lid, top)
                    with np.errstate(divide='ignore'):
                        ul = g.A_cell / (
                            1 / a_i[e] + (g.r_o - g.r_i) / g.lam_wll
                            + (g.r_t - g.r_o) / g.lam_ins + np.divide(1.0, ao)
                        )
                    Q[e] += ul * (g.T_amb - T[e])
                    M[e] += abs(ul * (g.T_amb - T[e]))
                    L[e] += abs(ul * (g.T_amb - T[e]))
            # advection between cells (border i: between cell i and i+1)
            net_in = np.zeros(p.n)
            for qn, i in p.ports.items():
                net_in[i] += pf[(n, qn)]
            b = np.cumsum(net_in)[:-1]
            h = cp * T
            down = np.maximum(b, 0) * (h[:-1] - h[1:])
            up = np.maximum(-b, 0) * (h[1:] - h[:-1])
            Q[1:] += down
            Q[:-1] += up
            M[1:] += abs(down)
            M[:-1] += abs(up)
            for qn, i in p.ports.items():
                on, oq = self.link[(n, qn)][:2]
                Tp = (bcT or {}).get(oq, self.bcs[oq].get('T')) if on == BC else sh[(on, oq)]
                pg = self.pg[(n, qn)]
                if pg is not None:
                    uap = pg['Af'] / (
                        pg['gsp'] / (2 * lam_w(Tp)) + g.gsp / (2 * lam[i])
                    ) + pg['UAw']
                    Q[i] += uap * (Tp - T[i])
                    M[i] += abs(uap * (Tp - T[i]))
                f = pf[(n, qn)]
                if f > 0:
                    a = f * (cp_w(Tp) * Tp - h[i])
                    Q[i] += a
                    M[i] += abs(a)
            if heat and n in heat:
                cells, W = heat[n]
                Q[cells[0]:cells[1]] += W / (cells[1] - cells[0])
                M[cells[0]:cells[1]] += abs(W / (cells[1] - cells[0]))
            res[n] = Q / mcp
            mags[n] = M / mcp
            if terms:
                self.loss[n] = L / mcp
                R = (UA.max() * 2 + ua.max() + np.abs(fl).max() * 4300) / mcp.min()
                self.rate = max(getattr(self, 'rate', 0.0), float(R))
        return (res, mags) if terms else res


def junction(cls, d, T, fl):
    """Temperatures shown by a massless junction at its ports."""
    if cls == 'Pump':
        return {'in': T['out'], 'out': T['in']}
    if cls == 'MixingValve' and d.get('mix_or_split', 'mix') == 'split':
        return {'A': T['AB'], 'B': T['AB'], 'AB': (T['A'] + T['B']) / 2}
    if cls == 'MixingValve':
        if fl['AB'] == 0:
            return {
                'A': (T['B'] + T['AB']) / 2,
                'B': (T['A'] + T['AB']) / 2,
                'AB': (T['A'] + T['B']) / 2,
            }
        m = (T['A'] + T['B']) / 2
        mix = sum(abs(fl[q]) * cp_w(T[q]) * T[q] for q in 'AB') / (
            abs(fl['AB']) * cp_w(m)
        )
        return {'A': m, 'B': m, 'AB': mix}
    if cls == 'HeatExchanger':
        return plate_hex_outlets(d, T, fl)
    if cls == 'Connector3w':
        inn = [q for q in 'ABC' if fl[q] > 0]
        out = [q for q in 'ABC' if fl[q] < 0]
        zero = [q for q in 'ABC' if fl[q] == 0]
        if len(inn) == 2:
            m = (T[inn[0]] + T[inn[1]]) / 2
            mix = sum(fl[q] * cp_w(T[q]) * T[q] for q in inn) / (
                -fl[out[0]] * cp_w(m)
            )
            return {out[0]: mix, inn[0]: T[out[0]], inn[1]: T[out[0]]}
        if len(out) == 2:
            return {
                out[0]: T[inn[0]],
                out[1]: T[inn[0]],
                inn[0]: (T[out[0]] + T[out[1]]) / 2,
            }
        if len(inn) == 1:
            z = (T[inn[0]] + T[out[0]]) / 2
            return {zero[0]: z, out[0]: T[inn[0]], inn[0]: (T[inn[0]] + z) / 2}
        return {
            'A': (T['B'] + T['C']) / 2,
            'B': (T['A'] + T['C']) / 2,
            'C': (T['A'] + T['B']) / 2,
        }
    raise ValueError(cls)

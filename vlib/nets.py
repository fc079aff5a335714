"""Hypothesis generators of hydraulic networks (JSON, see simkit).

Networks are drawn from a grammar, so every one is well posed by construction:

  net      := open chain between two boundary conditions | closed loop
              | storage with several independently pumped branches
  segment  := element+            (flow known)
  element  := pipe | storage | pipe with valve block | parallel block | bypass
  parallel := split valve, two segments, connector  (ratio set by the valve)
            | connector, pumped segment, segment, connector
            | branched pipe, pumped segment, segment, branched pipe
            | two segments joined by a mixing valve
"""

from hypothesis import strategies as st

from vlib.simkit import BC

DNS = ['DN10', 'DN15', 'DN20', 'DN25', 'DN32', 'DN40', 'DN50', 'DN65', 'DN80']


def fl(lo, hi, nd=4):
    """Floats which are short in JSON."""
    return st.integers(int(round(lo * 10 ** nd)), int(round(hi * 10 ** nd))).map(
        lambda i: i / 10 ** nd
    )


def temps(lo=2.0, hi=97.0):
    return fl(lo, hi, 2)


def cellnum(lo=3, hi=8, big=24):
    """Numbers of cells: mostly small, sometimes two or many."""
    return st.integers(0, 11).flatmap(
        lambda r: st.integers(lo, hi) if r < 10
        else (st.just(2) if r == 10 and lo == 3 else st.integers(hi + 1, big))
    )


def bang(name, act, part, cv, port=0, **kw):
    d = dict(
        cls='BangBang', name=name, actuator=act,
        process_CV_mode='part_specific', CV_saturation={'@tuple': [-1.0, cv]},
        controlled_part=part, controlled_port=port, reference_part='none',
        setpoint=1000.0, sub_controller=False, off_state=0.0,
        time_domain='continuous', deadtime=0.0, slope={'@tuple': [0, 0]},
        invert=False, hysteresis=1.0,
    )
    d.update(kw)
    return d


class Env:
    """Knobs of the generator."""

    def __init__(self, **kw):
        self.tes = True
        self.depth = 2
        self.maxlen = 3
        self.neg = True  # negative pump flows and reversed parts
        self.zero = True  # pumps at rest
        self.blocks = ('split', 'conn', 'branch', 'mix', 'v3w')
        self.uniform_T = False
        self.heat = False
        self.tiny = False  # flows of a few g/s and less
        self.__dict__.update(kw)


class NB:
    def __init__(self, draw, env):
        self.draw, self.env = draw, env
        self.parts, self.bcs, self.conns, self.ctrls = [], [], [], []
        self.pump, self.valve, self.heat = {}, {}, {}
        self.k = 0
        self.labels = set()

    def name(self, pre):
        self.k += 1
        return '%s%d' % (pre, self.k)

    # ------------------------------------------------------------- parts
    def spec(self):
        d = self.draw
        return {
            'all': {
                'pipe_type': d(st.sampled_from(['EN10255_medium', 'EN10255_heavy'])),
                'DN': d(st.sampled_from(DNS)),
            }
        }

    def common(self, n):
        d = self.draw
        if self.env.uniform_T:
            T = d(temps())
        elif d(st.integers(0, 5)) == 0:
            T = d(temps())
        else:
            T = {'@array': d(st.lists(temps(), min_size=n, max_size=n))}
        return dict(
            insulation_thickness=d(st.sampled_from([0.0, 0.001, 0.005, 0.02, 0.05, 0.1])),
            insulation_lambda=d(fl(0.02, 0.2, 3)),
            T_init=T,
            T_amb=d(st.one_of(fl(-10, 60, 1), st.sampled_from([20.0, 0.0]))),
            material=d(st.sampled_from(['carbon_steel', 'stainless_steel'])),
        )

    def pipe(self, cls='Pipe', **kw):
        d = self.draw
        n = kw.pop('grid_points', None) or d(cellnum())
        p = dict(
            cls=cls, name=self.name(kw.pop('pre', 'p')), grid_points=n,
            length=d(fl(0.2, 12.0, 2)), pipe_specs=self.spec(), **self.common(n)
        )
        p.update(kw)
        self.parts.append(p)
        return p

    def tespart(self, ports=None):
        d = self.draw
        n = d(cellnum(4, 9, 30))
        spec = self.spec()
        od = d(fl(0.3, 1.2, 2))
        p = dict(
            cls='Tes', name=self.name('t'), grid_points=n, volume=d(fl(0.03, 1.5, 2)),
            outer_diameter=od, shell_thickness=d(fl(0.002, 0.01, 3)),
            new_ports=None, pipe_specs=spec, **self.common(n)
        )
        self.parts.append(p)
        return p

    def nonnum(self, cls, name, **kw):
        d = self.draw
        p = dict(
            cls=cls, name=name, pipe_specs=self.spec(), **self.common(3)
        )
        p['T_init'] = d(temps())
        p.update(kw)
        self.parts.append(p)
        return p

    # ----------------------------------------------------------- segments
    def con(self, a, b):
        if self.draw(st.booleans()) and self.env.neg:
            a, b = b, a
        self.conns.append([a[0], a[1], b[0], b[1]])

    def thru(self, end, part, i='in', o='out', rev=True):
        """Append a two-port part behind the open end, in either direction."""
        if rev and self.env.neg and self.draw(st.integers(0, 3)) == 0:
            i, o = o, i
        self.con(end, (part['name'], i))
        return (part['name'], o)

    def add_pipe(self, end, **kw):
        return self.thru(end, self.pipe(**kw))

    def flow(self):
        d = self.draw
        r = d(st.integers(0, 9))
        if r == 0 and self.env.zero:
            return 0.0
        if self.env.tiny:
            f = d(st.one_of(fl(0.00001, 0.0005, 6), fl(0.0005, 0.005, 5)))
        else:
            f = d(st.one_of(fl(0.001, 0.05), fl(0.05, 0.6)))
        if self.env.neg and r < 4:
            return -f
        return f

    def add_pump(self, end, f=None, rev=True):
        """pipe - pump - pipe (or a pipe with an integrated pump)."""
        d = self.draw
        f = self.flow() if f is None else f
        if f >= 0 and d(st.integers(0, 2)) == 0:
            p = self.pipe('PipeWithPump', pre='pp', start_massflow=f, ctrl_required=False, const_val=f, lower_limit=-1.0, upper_limit=1.0, maximum_flow=1.0)
            self.pump[p['name']] = f
            self.labels.add('PipeWithPump')
            return self.thru(end, p, rev=rev)
        end = self.add_pipe(end)
        n = self.name('pu')
        p = self.nonnum('Pump', n, start_massflow=f, no_control=True, dm_const=f)
        self.pump[n] = f
        end = self.thru(end, p, rev=rev)
        return self.add_pipe(end)

    def add_heated(self, end):
        d = self.draw
        n = d(st.integers(3, 8))
        W = float(d(st.one_of(st.integers(1, 200), st.integers(200, 20000), st.just(0))))
        how = d(st.sampled_from(['all', 'single', 'range']))
        kw = {}
        if how == 'all':
            cells = [0, n]
        elif how == 'single':
            i = d(st.integers(0, n - 1))
            kw['heated_cells'] = i
            cells = [i, i + 1]
        else:
            a = d(st.integers(0, n - 2))
            cells = [a, d(st.integers(a + 1, n - 1))]
            kw['heated_cells'] = list(cells)
        self.labels.add('heated:' + how)
        p = self.pipe('HeatedPipe', pre='h', grid_points=n, heat_spread=how,
                      lower_limit=0.0, upper_limit=30000.0, **kw)
        self.heat[p['name']] = [cells, W]
        self.ctrls.append(bang(self.name('c'), p['name'], p['name'], W, process_CV_mode='direct'))
        return self.thru(end, p)

    def add_valve(self, name, ms, x):
        self.nonnum('MixingValve', name, mix_or_split=ms, port_A_init=x, lower_limit=0.0, upper_limit=1.0)
        self.valve[name] = x
        num = [p['name'] for p in self.parts if p['cls'] in ('Pipe', 'PipeWithPump', 'Tes')]
        self.ctrls.append(bang(self.name('c'), name, num[0], x))

    def ratio(self):
        return self.draw(st.one_of(fl(0.0, 1.0, 2), st.sampled_from([0.0, 1.0, 0.5])))

    def segment(self, end, depth, positive):
        """Chain of elements behind an open end.  ``positive``: the flow is
        known to run in the direction of the segment (or to be zero)."""
        d = self.draw
        end = self.add_pipe(end)
        for _ in range(d(st.integers(0, self.env.maxlen - 1))):
            kinds = ['pipe']
            if self.env.tes:
                kinds.append('tes')
            if self.env.heat:
                kinds.append('heat')
            if depth > 0:
                kinds += [b for b in self.env.blocks if b in ('conn', 'branch')]
                if positive:
                    kinds += [b for b in self.env.blocks if b == 'split']
            kind = d(st.sampled_from(kinds))
            if kind == 'pipe':
                end = self.add_pipe(end)
            elif kind == 'tes':
                self.labels.add('tes')
                end = self.thru(end, self.tespart())
            elif kind == 'heat':
                end = self.add_heated(end)
            else:
                end = getattr(self, 'b_' + kind)(end, depth - 1)
                end = self.add_pipe(end)
        return end

    def b_split(self, end, depth):
        """split valve, two segments, connector; flow must be positive."""
        self.labels.add('split valve')
        v, k = self.name('v'), self.name('k')
        self.add_valve(v, 'split', self.ratio())
        self.con(end, (v, 'AB'))
        ea = self.segment((v, 'A'), depth, True)
        eb = self.segment((v, 'B'), depth, True)
        if self.draw(st.booleans()):
            pt = self.draw(st.permutations(['A', 'B', 'C']))
            self.nonnum('Connector3w', k)
            self.con(ea, (k, pt[0]))
            self.con(eb, (k, pt[1]))
            return (k, pt[2])
        p = self.branched()
        pt = self.draw(st.permutations(['in', 'out', 'n']))
        self.con(ea, (p['name'], pt[0]))
        self.con(eb, (p['name'], pt[1]))
        return (p['name'], pt[2])

    def branched(self):
        n = self.draw(st.integers(4, 7))
        self.labels.add('branched pipe')
        return self.pipe(
            'PipeBranched', pre='br', grid_points=n,
            new_ports={'n': [self.draw(st.integers(1, n - 2)), 'index']},
        )

    def b_conn(self, end, depth):
        """connector, pumped segment parallel to a free one, connector."""
        self.labels.add('connector bypass')
        k, l = self.name('k'), self.name('k')
        self.nonnum('Connector3w', k)
        self.nonnum('Connector3w', l)
        a = self.draw(st.permutations(['A', 'B', 'C']))
        b = self.draw(st.permutations(['A', 'B', 'C']))
        self.con(end, (k, a[0]))
        f, valves = self.main_pump()
        e = self.add_pipe((k, a[1]))
        e = self.add_pump(e, f, rev=not valves)
        e = self.segment(e, depth, valves)
        self.con(e, (l, b[1]))
        e = self.segment((k, a[2]), 0, False)
        self.con(e, (l, b[2]))
        return (l, b[0])

    def b_branch(self, end, depth):
        self.labels.add('branched bypass')
        k, l = self.branched()['name'], self.branched()['name']
        a = self.draw(st.permutations(['in', 'out', 'n']))
        b = self.draw(st.permutations(['in', 'out', 'n']))
        self.con(end, (k, a[0]))
        f, valves = self.main_pump()
        e = self.add_pump((k, a[1]), f, rev=not valves)
        e = self.segment(e, depth, valves)
        self.con(e, (l, b[1]))
        e = self.segment((k, a[2]), 0, False)
        self.con(e, (l, b[2]))
        return (l, b[0])

    def bc(self):
        n = 'BC_%d' % (len(self.bcs) + 1)
        self.bcs.append({'name': n, 'T': self.draw(temps())})
        return (BC, n)

    # ---------------------------------------------------------------- nets
    def main_pump(self):
        """(flow, valves allowed): valves need a pump which pushes forward."""
        valves = self.draw(st.booleans()) and 'split' in self.env.blocks
        f = self.flow()
        return (abs(f) if valves else f), valves

    def net_chain(self):
        """BC - segment - pump - segment - BC"""
        f, valves = self.main_pump()
        e = self.segment(self.bc(), self.env.depth, False)
        e = self.add_pump(e, f, rev=not valves)
        e = self.segment(e, self.env.depth, valves)
        self.con(e, self.bc())

    def net_loop(self):
        f, valves = self.main_pump()
        first = self.pipe()
        e = self.add_pump((first['name'], 'out'), f, rev=not valves)
        e = self.segment(e, self.env.depth, valves)
        self.con(e, (first['name'], 'in'))

    def net_mix(self):
        """two sources - mixing valve - pump - BC"""
        self.labels.add('mixing valve')
        f = abs(self.flow())
        v = self.name('v')
        ea = self.segment(self.bc(), 0, True)
        eb = self.segment(self.bc(), 0, True)
        self.add_valve(v, 'mix', self.ratio())
        self.con(ea, (v, 'A'))
        self.con(eb, (v, 'B'))
        e = self.add_pipe((v, 'AB'))
        e = self.add_pump(e, f, rev=False)
        e = self.segment(e, max(self.env.depth - 1, 0), True)
        self.con(e, self.bc())

    def net_v3w(self):
        """BC - pump - pipe with 3-way valve - two BC"""
        self.labels.add('pipe with 3w valve')
        d = self.draw
        f = abs(self.flow())
        n = d(st.integers(4, 7))
        x = self.ratio()
        e = self.segment(self.bc(), 0, True)
        e = self.add_pump(e, f, rev=False)
        p = self.pipe(
            'PipeWith3wValve', pre='w', grid_points=n,
            valve_location=d(st.integers(1, n - 2)), start_portA_opening=x,
            ctrl_required=False, const_val=x,
        )
        self.valve[p['name']] = x
        self.con(e, (p['name'], 'AB'))
        ea = self.segment((p['name'], 'A'), 0, True)
        self.con(ea, self.bc())
        eb = self.segment((p['name'], 'B'), 0, True)
        self.con(eb, self.bc())

    def net_tes(self):
        """storage with pumped branches; one free port closes the balance."""
        self.labels.add('tes branches')
        d = self.draw
        t = self.tespart()
        n = t['grid_points']
        nb = d(st.integers(1, 3))
        names = ['in', 'out']
        np_ = {}
        cells = d(st.lists(st.integers(1, n - 2), min_size=nb, max_size=nb, unique=n - 2 >= nb))
        for i, c in enumerate(cells):
            if d(st.booleans()):
                np_['x%d' % i] = [c, 'index']
            else:
                V = t['volume'] / n
                np_['x%d' % i] = [(c + 0.5) * V, 'volume']
            names.append('x%d' % i)
        t['new_ports'] = np_
        if d(st.booleans()):
            t['pipe_specs'] = {q: self.spec()['all'] for q in names}
        names = d(st.permutations(names))
        free = names[0]
        e = self.segment((t['name'], free), 0, False)
        self.con(e, self.bc())
        rest = list(names[1:])
        while rest:
            q = rest.pop(0)
            e = self.add_pump((t['name'], q))
            if rest and d(st.booleans()):
                e = self.segment(e, max(self.env.depth - 1, 0), False)
                self.con(e, (t['name'], rest.pop(0)))
            else:
                e = self.segment(e, 0, False)
                self.con(e, self.bc())

    def hexpart(self, name=None):
        """plate heat exchanger with one of the documented geometry forms"""
        d = self.draw
        passes = d(st.sampled_from([1, 1, 1, 2, 3]))
        plates = 2 * d(st.integers(2, 25)) if passes == 1 else 2 * passes * d(st.integers(1, 6)) + 1
        kw = dict(
            HEx_type='plate_hex', passes=passes, plates=plates,
            length=d(fl(0.15, 0.8, 2)), width=d(fl(0.08, 0.3, 2)),
            port_diameter=d(fl(0.01, 0.035, 3)), corner_radius=d(fl(0, 0.02, 3)),
        )
        if passes == 1:
            kw['max_channels'] = d(st.sampled_from(['supply', 'demand']))
        per = d(fl(0.0015, 0.005, 4))
        form = d(st.sampled_from(['width', 'width', 'mass', 'volume']))
        thick = d(fl(0.0003, 0.0009, 4))
        if form == 'width':
            kw['channel_width'] = d(fl(0.0008, 0.004, 4))
            if d(st.booleans()):
                kw['plate_thickness'] = thick
            else:
                kw['depth_per_plate'] = round(kw['channel_width'] + thick, 6)
        elif form == 'mass':
            kw['depth_per_plate'] = per
            A = kw['length'] * kw['width']
            kw['mass_per_plate'] = round(A * thick * 7900, 4)
            if d(st.booleans()):
                kw['plate_thickness'] = thick
        else:
            kw['V_channel'] = round(kw['length'] * kw['width'] * per, 9)
            if d(st.booleans()):
                kw['plate_thickness'] = thick
            else:
                kw['depth_per_plate'] = round(per * 1.3, 6)
        if 'depth_per_plate' in kw and d(st.booleans()):
            kw['depth_base'] = 0.01
        else:
            kw['depth'] = d(fl(0.03, 0.3, 2))
        if 'mass_per_plate' in kw and d(st.booleans()):
            kw['mass_base'] = 1.5
        else:
            kw['mass_total'] = d(fl(1, 20, 1))
        if d(st.integers(0, 3)) == 0:
            kw['channel_area'] = d(fl(0.0002, 0.001, 5))
        if d(st.booleans()):
            kw['Reynolds_correction'] = float(d(st.integers(1, 4000)))
        self.labels.add('hex:%s:%d' % (form, passes))
        return self.nonnum('HeatExchanger', name or self.name('x'), **kw)

    def net_hex(self):
        """two circuits (open or closed) coupled by a heat exchanger"""
        d = self.draw
        self.labels.add('heat exchanger')
        x = self.hexpart()['name']
        for side in ('sup', 'dmd'):
            i, o = (side + '_in', side + '_out')
            if self.env.neg and d(st.integers(0, 3)) == 0:
                i, o = o, i
            if d(st.integers(0, 2)):
                e = self.segment(self.bc(), 0, False)
                e = self.add_pump(e)
                self.con(e, (x, i))
                e = self.segment((x, o), 0, False)
                self.con(e, self.bc())
            else:
                first = self.pipe()
                e = self.add_pump((first['name'], 'out'))
                self.con(e, (x, i))
                e = self.segment((x, o), 0, False)
                self.con(e, (first['name'], 'in'))

    def done(self):
        d = self.draw
        parts, conns = self.parts, self.conns
        if d(st.booleans()):
            parts = d(st.permutations(parts))
            conns = d(st.permutations(conns))
            self.labels.add('shuffled')
        return dict(
            net=dict(parts=list(parts), bcs=self.bcs, conns=[list(c) for c in conns], ctrls=self.ctrls),
            pump=self.pump, valve=self.valve, heat=self.heat, labels=sorted(self.labels),
        )


NETS = ('chain', 'loop', 'mix', 'v3w', 'tes', 'hex')


@st.composite
def networks(draw, kinds=NETS, **env):
    nb = NB(draw, Env(**env))
    kind = draw(st.sampled_from(list(kinds)))
    getattr(nb, 'net_' + kind)()
    out = nb.done()
    out['labels'].append('net:' + kind)
    return out

"""Floating-point types: everything computes in the precision it was configured with (abstract interpretation over types)."""
import ast
from . import prop
from engine.floats import Analysis, Frame, num, ten, tup, join, NONE, BOT, CPLX, WIDTH, const
from engine.interp import Unsupported
from engine.world import PKG, CHAN

STR = frozenset([('s', None)])
BOOL = num('bool')
FL = num('float')
INT = num('int')
NODE = ast.parse('f()').body[0].value
# (precision of sionna.phy.config, precision argument)
SETTINGS = (('single', None), ('double', None), ('single', 'double'), ('double', 'single'))


class Client:
    """a user program with every public entry point, on values of the configured type"""

    def __init__(self, config, prec):
        self.prec = const(prec)
        w = prec or config
        self.r = 'f32' if w == 'single' else 'f64'
        self.c = CPLX[self.r]
        self.results = {}

    def __call__(self, an):
        self.an, self.n = an, 0
        self.results = {}
        self.arrays()
        self.helpers()
        for cls in sorted(CHAN.values()):
            self.channel(cls)
        self.tdl()
        return self.results

    def at(self):
        self.n += 1
        return Frame(Anon, None, None, ('client', self.n))

    def get(self, name, mod=None):
        for m in ([mod] if mod else sorted(self.an.mods)):
            if m in self.an.mods and name in self.an.mods[m].ns and self.an.mods[m].ns[name][0] in ('def', 'cls'):
                return self.an.lookup_mod(self.an.mods[m], name)
        raise Unsupported('entry point %s is not defined in the package' % name)

    def do(self, f, *args, **kw):
        return self.an.apply(f, list(args), kw, NODE, {}, self.at())

    def attr(self, o, name):
        return self.an.getattr(o, name, self.at())

    def opt(self):
        """an optional parameter: absent, a Python number or a tensor"""
        return join(NONE, FL, ten(self.r))

    def expect(self, what, v, kind='rc', soft=False):
        self.results[what] = (soft, v, {'r': {self.r}, 'c': {self.c}, 'rc': {self.r, self.c}}[kind])

    # ------------------------------------------------------------------
    def arrays(self):
        r = ten(self.r)
        an = self.an
        el = self.do(self.get('AntennaElement'), STR, FL, precision=self.prec)
        for k, v in enumerate(('omni', '38.901', 'aperture', 'dlp')):
            e = self.do(self.get('AntennaElement'), const(v), join(FL, r), precision=self.prec)
            f = self.do(self.attr(e, 'field'), r, r)
            for a in an.elems(f):
                self.expect('AntennaElement(%s).field' % v, frozenset([a]), 'r')
        self.arr = BOT
        p = self.do(self.get('PanelArray'), INT, INT, STR, STR, STR, FL, INT, INT, *[self.opt()] * 4,
                    precision=self.prec)
        a = self.do(self.get('Antenna'), STR, STR, STR, FL, precision=self.prec)
        aa = self.do(self.get('AntennaArray'), INT, INT, STR, STR, STR, FL, self.opt(), self.opt(),
                     precision=self.prec)
        self.props('PanelArray', p)
        self.arr = join(p, a, aa)

    def props(self, what, o):
        for a in o:
            if a[0] == 'obj':
                seen = set()
                for c in a[2].mro()[0]:
                    for n, (kind, node) in c.members.items():
                        if kind == 'prop' and not n.startswith('_') and n not in seen:
                            seen.add(n)
                            self.expect('%s.%s' % (a[2].name, n), self.attr(frozenset([a]), n), soft=True)

    def helpers(self):
        r, c = ten(self.r), ten(self.c)
        u = lambda n: self.get(n, 'utils')
        pr = dict(precision=self.prec)
        self.expect('subcarrier_frequencies', self.do(u('subcarrier_frequencies'), INT, FL, **pr), 'r')
        self.expect('time_frequency_vector', self.do(u('time_frequency_vector'), INT, FL, **pr), 'r')
        self.expect('cir_to_ofdm_channel', self.do(u('cir_to_ofdm_channel'), r, c, r, BOOL), 'c')
        self.expect('cir_to_time_channel', self.do(u('cir_to_time_channel'), FL, c, r, INT, INT, BOOL), 'c')
        self.expect('time_to_ofdm_channel', self.do(u('time_to_ofdm_channel'), c, BOT, INT), 'c')
        self.expect('exp_corr_mat', self.do(u('exp_corr_mat'), join(FL, r, c), INT, **pr), 'c')
        self.expect('one_ring_corr_mat', self.do(u('one_ring_corr_mat'), join(FL, r), INT, FL, FL, **pr), 'c')
        self.expect('deg_2_rad', self.do(u('deg_2_rad'), r), 'r')
        self.expect('rad_2_deg', self.do(u('rad_2_deg'), r), 'r')
        self.expect('wrap_angle_0_360', self.do(u('wrap_angle_0_360'), r), 'r')
        self.expect('drop_uts_in_sector', self.do(u('drop_uts_in_sector'), INT, INT, join(FL, r), join(FL, r),
                                                  join(FL, r), **pr), 'r')
        self.expect('compute_satellite_speed', self.do(u('compute_satellite_speed'), r), 'r')
        self.expect('compute_stallite_doppler', self.do(u('compute_stallite_doppler'), r, join(FL, r), join(FL, r)),
                    'r')

    def topology(self):
        t = self.do(self.get('gen_single_sector_topology', 'utils'), INT, INT, STR,
                    *[self.opt()] * 8, precision=self.prec)
        names = ('ut_loc', 'bs_loc', 'ut_orientations', 'bs_orientations', 'ut_velocities')
        for a in t:
            if a[0] == 'tup':
                for n, v in zip(names, a[1]):
                    self.expect('gen_single_sector_topology: ' + n, v, 'r')
        return t

    def channel(self, cls):
        r = ten(self.r)
        ch = self.do(self.get(cls), FL, self.arr, self.arr, STR, FL, enable_pathloss=BOOL, enable_shadow_fading=BOOL,
                     always_generate_lsp=BOOL, doppler_enabled=BOOL, precision=self.prec)
        self.topology()
        st = self.attr(ch, 'set_topology')
        self.do(st, *[join(NONE, r)] * 5, join(NONE, ten('bool')), join(NONE, BOOL, ten('bool')))
        h = self.do(self.attr(ch, '__call__'), INT, FL)
        for a in h:
            if a[0] == 'tup':
                for n, v, k in zip(('path coefficients', 'path delays'), a[1], 'cr'):
                    self.expect('%s.__call__: %s' % (cls, n), v, k)
        sc = self.attr(ch, '_scenario')
        if any(a[0] == 'obj' for a in sc):
            w = {k: self.opt() for k in ('rain_rate', 'atmospheric_pressure', 'temperature', 'water_vapor_density',
                                         'relative_humidity', 'diameter_earth_antenna', 'antenna_efficiency')}
            self.do(self.attr(sc, 'set_topology'), *[join(NONE, r)] * 5, **w)
            self.props('scenario', sc)

    def tdl(self):
        r, c = ten(self.r), ten(self.c)
        corr = lambda: join(NONE, c)
        for m in ('A', 'C', 'C300'):
            t = self.do(self.get('TDL'), const(m), FL, FL, num_sinusoids=INT, los_angle_of_arrival=FL, min_speed=FL,
                        max_speed=join(NONE, FL), num_rx_ant=INT, num_tx_ant=INT, spatial_corr_mat=corr(),
                        rx_corr_mat=corr(), tx_corr_mat=corr(), basestation_height=FL, elevation_angle=FL,
                        precision=self.prec)
            h = self.do(self.attr(t, '__call__'), INT, INT, FL)
            for a in h:
                if a[0] == 'tup':
                    for n, v, k in zip(('path coefficients', 'path delays'), a[1], 'cr'):
                        self.expect('TDL-%s.__call__: %s' % (m, n), v, k)
            self.props('TDL-' + m, t)


class Anon:
    name, file = 'client', '<client>'
    ns = {}


@prop('D02')
def precision(ctx):
    nodes = fns = sites = 0
    seen = set()
    for config, prec in SETTINGS:
        an = Analysis(PKG, config)
        cl = Client(config, prec)
        an.wide = cl.r == 'f64' and 'single' not in (config, prec)
        res = an.run(cl)
        tag = 'config %s, precision %s' % (config, prec)
        fns = max(fns, len(an.fns))
        ctx.an.update({fn: f for f, fn in an.fns})
        sites += len(an.sites)
        ctx.files |= {f for f, *_ in an.sites}
        bad = set()
        for (file, fn, op, tys), (line, src) in sorted(an.reports.items()):
            bad.add((file, line))
            if (file, fn, op) in seen:
                continue
            seen.add((file, fn, op))
            ctx.rule('%s:%s: one floating-point type in %s' % (file, fn, op), False, '%s:%d (%s)' % (file, line, fn),
                     '%s mixes %s (%s): %s' % (op, ' and '.join(tys), tag, src), key='%s: %s' % (fn, op))
        for s in sorted(an.sites):
            if (s[0], s[1]) not in bad:
                ctx.obl.append(('%s:%d:%d %s [%s]' % (s[0], s[1], s[2], s[3], tag), True))
        for what, (soft, v, exp) in sorted(res.items()):
            ty = {a[1] for a in an.strong(v) if a[0] == 't' and a[1] in WIDTH}
            if ty - exp and ('res', what) not in seen:
                seen.add(('res', what))
                ctx.rule('type of ' + what, False, what, '%s has type %s instead of %s (%s)' %
                         (what, ' and '.join(sorted(ty - exp)), ' or '.join(sorted(exp)), tag), key='type of ' + what)
            elif not ty and not soft:
                raise Unsupported('no type could be inferred for %s [%s]' % (what, tag))
            else:
                ctx.obl.append(('type of %s [%s]' % (what, tag), True))
    ctx.extra['functions analysed'] = fns
    ctx.extra['operation sites (4 settings)'] = sites

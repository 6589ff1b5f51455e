"""Symbolic worlds: public entry points of the package applied to symbolic inputs.

The scenario object is built by interpreting the real constructor and
set_topology(); its public results are then abstracted by symbols (one per
public property) so that each consumer can be analysed in isolation.
"""
import os
from . import terms as tm
from .terms import mk, sym, num, const, NONE, TRUE, FALSE, RANKS, T
from .interp import Engine, Ref, TupleV, Cell, Unsupported, AnchorMissing

REPO = os.environ.get('OPENNTN_REPO', '/repo')
PKG = os.path.join(REPO, 'OpenNTN')
SPECS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs')

SCEN = ('DenseUrbanScenario', 'UrbanScenario', 'SubUrbanScenario')
CHAN = {'DenseUrbanScenario': 'DenseUrban', 'UrbanScenario': 'Urban', 'SubUrbanScenario': 'SubUrban'}

_L = ('B', 'NB', 'NU')
TOPO_ARGS = (('ut_loc', ('B', 'NU', 3)), ('bs_loc', ('B', 'NB', 3)), ('ut_orientations', ('B', 'NU', 3)),
             ('bs_orientations', ('B', 'NB', 3)), ('ut_velocities', ('B', 'NU', 3)), ('in_state', ('B', 'NU')))

# public results of the topology update that consumers read, with their shape
PUBLIC = tuple((n, _L) for n in (
    'los', 'distance_2d', 'distance_2d_in', 'distance_2d_out', 'distance_3d', 'distance_3d_in',
    'distance_3d_out', 'los_aod', 'los_aoa', 'los_zod', 'los_zoa', 'zod_offset', 'basic_pathloss',
    'gas_pathloss', 'scintillation_pathloss', 'entry_pathloss', 'free_space_pathloss')) + (
    ('matrix_ut_distance_2d', ('B', 'NU', 'NU')), ('lsp_log_mean', _L + (7,)), ('lsp_log_std', _L + (7,)))


BOOL = ('in_state', 'in_state2', 'scenario.los', 'scenario2.los', 'los')


def s(name, r=None, notnone=None):
    t = sym(name)
    if name in BOOL:
        tm.BOOLEAN.add(t)
    if isinstance(r, (tuple, list)):
        tm.declare_shape(t, [sym(d) if isinstance(d, str) else num(d) for d in r])
    elif r is not None:
        tm.declare_rank(t, r)
    if notnone is not None:
        notnone.tf.notnone.add(t)
    return t


# a link is never in line of sight to an indoor terminal (S02)
from . import compare as _cmp      # noqa: E402
for _l, _i in (('scenario.los', 'in_state'), ('scenario2.los', 'in_state'), ('scenario2.los', 'in_state2')):
    _cmp.EXCLUSIVE.append((sym(_l), sym(_i), lambda i: (i[0], i[2])))


def engine():
    E = Engine(PKG, specdir=SPECS)
    return E


class World:
    CARRIER = None
    def __init__(self, E=None, nb='NB'):
        self.E = E or engine()
        self.st = self.E.fresh()
        self.nb = nb

    def sym(self, name, r=None):
        return s(name, r, self.E)

    def spec(self, file, name):
        E, st = self.E, self.st
        m = E.load_spec(os.path.join(SPECS, file + '.py'))
        return E.module_lookup(m, name, st)

    def array(self, name, pol='single', lam=None, pol1=(0, 2), pol2=(1, 3)):
        """array known only through its public interface"""
        E, st = self.E, self.st
        if pol == 'single':
            na = s(name + '.num_ant', 0)
            pos = s(name + '.ant_pos', (name + '.num_ant', 3))
            i1, i2 = s(name + '.ind1', (name + '.num_ant',)), mk('list')
        else:
            n = len(pol1) + len(pol2)
            na = num(n)
            pos = s(name + '.ant_pos', (n, 3))
            i1, i2 = mk('list', *[num(i) for i in pol1]), mk('list', *[num(i) for i in pol2])
        second = TupleV([const(i in pol2) for i in range(len(pol1) + len(pol2))])
        lam = lam if lam is not None else s(name + '.lambda_0', 0)
        a = E.run(self.spec('stubs', 'SymArray'), const(name), const(pol), na, pos, i1, i2, lam, second, st=st)
        for k, of_frequency in self.carrier_names():
            E.setattr(a, k, tm.div(tm.num(299792458), lam) if of_frequency else lam, st)
        return a

    def carrier_names(self):
        """attributes in which the arrays of the package keep their carrier: wavelengths (False) or frequencies (True)"""
        if World.CARRIER is None:
            w = World.__new__(World)
            World.CARRIER = ()
            World.__init__(w)
            E, st = w.E, w.st
            fc = w.sym('fc', 0)
            try:
                a = E.new(st, 'Antenna', const('single'), const('V'), const('omni'), fc)
            except Exception:                     # judged by A02
                a = None
            if a is None:
                return World.CARRIER
            lam = tm.div(tm.num(299792458), fc)
            out = []
            for k, v in E.cell(st, a).attrs.items():
                try:
                    v = E.term(v, st)
                except Exception:
                    continue
                if v is fc or v is lam:
                    out.append((k, v is fc))
            World.CARRIER = tuple(out)
        return World.CARRIER

    def arrays(self):
        """two symbolic antenna arrays"""
        return self.array('ut_array'), self.array('bs_array')

    def scenario(self, cls='DenseUrbanScenario', direction=None, fc=None, elev=None, facts=(), **kw):
        E, st = self.E, self.st
        for c, v in facts:
            st.assume('a', c if v else tm.bnot(c))
        ua, ba = self.arrays()
        self.ua, self.ba = ua, ba
        fc = fc if fc is not None else self.sym('fc', 0)
        elev = elev if elev is not None else self.sym('elevation', 0)
        d = const(direction) if direction else self.sym('direction', 0)
        args = dict(carrier_frequency=fc, ut_array=ua, bs_array=ba, direction=d, elevation_angle=elev,
                    enable_pathloss=self.sym('enable_pathloss', 0),
                    enable_shadow_fading=self.sym('enable_shadow_fading', 0),
                    doppler_enabled=self.sym('doppler_enabled', 0),
                    precision=self.sym('precision', 0))
        args.update(kw)
        sc = E.new(st, cls, **args)
        if sc is None:
            raise Unsupported('constructor of %s rejects every input' % cls)
        self.sc = sc
        return sc

    def topology(self, sc=None, **over):
        """set_topology with every topology argument given"""
        E, st = self.E, self.st
        sc = sc or self.sc
        kw = self.topo_args(over)
        return E.method(st, sc, 'set_topology', **kw)

    def topo_args(self, over=(), suffix=''):
        kw = {n: self.sym(n + suffix, self._nb(r)) for n, r in TOPO_ARGS}
        kw.update(over)
        self.topo = kw
        return kw

    def _nb(self, r):
        return tuple(self.nb if d == 'NB' else d for d in r)

    def channel(self, cls='DenseUrbanScenario', direction='downlink', facts=(), **kw):
        """channel model built by its public constructor; its scenario object becomes self.sc"""
        E, st = self.E, self.st
        for c, v in facts:
            st.assume('a', c if v else tm.bnot(c))
        self.ua, self.ba = self.arrays()
        ch = E.new(st, CHAN[cls], carrier_frequency=self.sym('fc', 0), ut_array=self.ua, bs_array=self.ba,
                   direction=const(direction), elevation_angle=self.sym('elevation', 0), **kw)
        sc = [r for r, c in st.heap.items() if c.kind == 'obj' and c.cls.subclass_of('SystemLevelScenario')]
        if len(sc) != 1:
            raise Unsupported('%d scenario objects behind a channel model' % len(sc))
        self.sc = sc[0] if isinstance(sc[0], Ref) else Ref(sc[0])
        return ch

    def values(self, obj, names):
        out = {}
        for n in names:
            out[n] = self.E.getattr(obj, n, self.st)
        return out

    def abstract(self, sc=None, names=None, prefix='scenario.'):
        """replace the public results of the topology update by symbols everywhere in the heap"""
        E, st = self.E, self.st
        sc = sc or self.sc
        mp = {}
        n0 = len(st.effects)
        for n, r in PUBLIC:
            if names is not None and n not in names:
                continue
            r = self._nb(r)
            try:
                v = E.getattr(sc, n, st)
            except Exception:
                continue
            if isinstance(v, T) and v.op not in ('num', 'const', 'undefattr', 'undef'):
                mp.setdefault(v, s(prefix + n, r))
                if prefix + n in ('scenario.los',):
                    pass
        del st.effects[n0:]
        for n, r in PUBLIC:
            E.tf.notnone.add(sym(prefix + n))
        self.replace(mp)
        self.abstraction = mp
        return sc

    def replace(self, mp):
        st = self.st
        memo = {}

        def go(v):
            if isinstance(v, T):
                return tm.subst(v, mp, memo)
            if isinstance(v, TupleV):
                return TupleV([go(x) for x in v.items])
            if isinstance(v, list):
                return [go(x) for x in v]
            return v
        for c in st.heap.values():
            for k in list(c.attrs):
                c.attrs[k] = go(c.attrs[k])
            if isinstance(c.items, list):
                c.items = [go(x) for x in c.items]
            elif isinstance(c.items, dict):
                c.items = {k: go(v) for k, v in c.items.items()}
            if isinstance(c.base, T):
                c.base = go(c.base)

    def reset_log(self):
        self.st.effects = []
        self.E.dtype_events = []
        self.E.rng_events = []
        self.st.counters = {}


def ready(cls='DenseUrbanScenario', direction=None, E=None, **kw):
    """world with a scenario whose topology was set and abstracted"""
    w = World(E)
    w.scenario(cls, direction, **kw)
    w.topology()
    w.abstract()
    w.reset_log()
    return w

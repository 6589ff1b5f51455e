"""Checks of the scenario object: geometry, tables, statistics, path loss."""
from . import prop
from fractions import Fraction
from engine import world
from engine.terms import *
from engine.world import World, SCEN, CHAN, TOPO_ARGS, s


def built(ctx, cls='DenseUrbanScenario', topology=True, direction='downlink', over=None, notnone=(), **kw):
    w = World()
    ctx.engine(w.E)
    w.E.tf.notnone.update(notnone)
    w.scenario(cls, direction, **kw)
    if topology:
        w.topology(**(over or {}))
    return w


def get(w, *names):
    return [w.E.getattr(w.sc, n, w.st) for n in names]


def call(w, file, fn, *args, **kw):
    w.st.counters = {}
    return w.E.run(w.spec(file, fn), *args, st=w.st, **kw)


@prop('G01')
def geometry(ctx):
    def one(ctx, cls):
        w = built(ctx, cls)
        t = w.topo
        u, b = t['ut_loc'], t['bs_loc']
        el = sym('elevation')
        d2, d3, aod, aoa, zod, zoa, uu = get(w, 'distance_2d', 'distance_3d', 'los_aod', 'los_aoa', 'los_zod',
                                             'los_zoa', 'matrix_ut_distance_2d')
        an = call(w, 'geometry', 'angles', u, b)
        ctx.same([(cls + '.distance_2d', d2, call(w, 'geometry', 'dist2d', u, b)),
                  (cls + '.distance_3d', d3, call(w, 'geometry', 'slant_range', u, b, el)),
                  (cls + '.matrix_ut_distance_2d', uu, call(w, 'geometry', 'ut_distances', u))] +
                 [(cls + '.' + n, x, y) for n, x, y in zip(('los_aod', 'los_aoa', 'los_zod', 'los_zoa'),
                                                            (aod, aoa, zod, zoa), an.items)])
    ctx.par(SCEN, one)


BASE_PARAMS = ('CPhiNLoS CThetaNLoS cASA cASD cDS cZSA corrASAvsDS corrASAvsK corrASAvsSF corrASDvsASA corrASDvsDS '
               'corrASDvsK corrASDvsSF corrDSvsK corrDSvsSF corrDistASA corrDistASD corrDistDS corrDistK corrDistSF '
               'corrDistZSA corrDistZSD corrSFvsK corrZSAvsASA corrZSAvsASD corrZSAvsDS corrZSAvsK corrZSAvsSF '
               'corrZSDvsASA corrZSDvsASD corrZSDvsDS corrZSDvsK corrZSDvsSF corrZSDvsZSA muASA muASD muDS muK '
               'muXPR muZSA muZSD rTau sigmaASA sigmaASD sigmaDS sigmaK sigmaSF sigmaXPR sigmaZSA sigmaZSD '
               'zeta').split()

GHZ = 10 ** 9
FC = s('fc', 0)


def band(name):
    """validity facts of a carrier frequency band"""
    lo, hi = {'S': (Fraction(19, 10) * GHZ, 4 * GHZ), 'Ka': (19 * GHZ, 40 * GHZ)}[name]
    return ((gt0(sub(num(lo), FC)), False), (gt0(sub(FC, num(hi))), False))


def each(ctx, fn, bands=('S', 'Ka'), scen=SCEN, dirs=('uplink', 'downlink')):
    """fn(ctx, world, class, direction, band) for every configuration"""
    def one(c, cls, d, b):
        c.facts = band(b)
        fn(c, built(c, cls, direction=d, facts=band(b)), cls, d, b)
    ctx.par([(cls, d, b) for cls in scen for d in dirs for b in bands], one)


@prop('T01')
def tables_selected(ctx):
    def one(ctx, w, cls, d, b):
        los, = get(w, 'los')
        outs = []
        a = (const(cls), const(d), FC, sym('elevation'))
        for n in BASE_PARAMS:
            v = w.E.method(w.st, w.sc, 'get_param', const(n))
            outs.append((n, v, call(w, 'tables', 'param', *a, los, const(n))))
        lo = call(w, 'tables', 'entry', const(cls), const('LOS'), *a[1:], const('numClusters'))
        nl = call(w, 'tables', 'entry', const(cls), const('NLOS'), *a[1:], const('numClusters'))
        x = get(w, 'num_clusters_los', 'num_clusters_nlos', 'num_clusters_max', 'rays_per_cluster')
        outs += [('num_clusters_los', x[0], lo), ('num_clusters_nlos', x[1], nl),
                 ('num_clusters_max', x[2], minmax('max', [lo, nl])), ('rays_per_cluster', x[3], num(20))]
        ctx.same([('%s.%s.%s.%s' % (cls, d, b, n), p, q) for n, p, q in outs])
    each(ctx, one)


def table_args(cls, d):
    return (const(cls), const(d), FC, sym('elevation'))


@prop('S02')
def los_state(ctx):
    def sampled(ctx, w, cls, d, b):
        t = w.topo
        los, = get(w, 'los')
        ctx.same([('%s.%s.%s.los' % (cls, d, b), los,
                   call(w, 'propagation', 'los', *table_args(cls, d), t['in_state'], t['bs_loc']))])

    def requested(ctx, cls, req):
        w = built(ctx, cls, over={'los': req})
        t = w.topo
        los, = get(w, 'los')
        ctx.same([('%s.los requested %s' % (cls, req), los,
                   call(w, 'propagation', 'los_requested', t['in_state'], t['bs_loc'], req))])

    def indoor(ctx, cls):
        w = built(ctx, cls)
        t = w.topo
        names = ('distance_2d_in', 'distance_2d_out', 'distance_3d_in', 'distance_3d_out')
        d2, d3, ind = get(w, 'distance_2d', 'distance_3d', 'indoor')
        sp = call(w, 'propagation', 'indoor', t['in_state'], t['bs_loc'], d2, d3)
        ctx.same([(cls + '.' + n, x, y) for n, x, y in zip(names, get(w, *names), sp.items)] +
                 [(cls + '.indoor', ind, t['in_state'])])
    each(ctx, sampled)
    ctx.par([(cls, req) for cls in SCEN for req in (TRUE, FALSE)], requested)
    ctx.par(SCEN, indoor)


@prop('S03')
def lsp_statistics(ctx):
    def one(ctx, w, cls, d, b):
        los, d2, m, s_, z = get(w, 'los', 'distance_2d', 'lsp_log_mean', 'lsp_log_std', 'zod_offset')
        nm = '%s.%s.%s.' % (cls, d, b)
        a = table_args(cls, d)
        ctx.same([(nm + 'lsp_log_mean', m, call(w, 'propagation', 'lsp_mean', *a, los)),
                  (nm + 'lsp_log_std', s_, call(w, 'propagation', 'lsp_std', *a, los)),
                  (nm + 'zod_offset', z, call(w, 'propagation', 'zod_offset', los, d2))])
    each(ctx, one)


@prop('P01')
def basic_pathloss(ctx):
    def one(ctx, w, cls, d, b):
        los, d3, f, pb = get(w, 'los', 'distance_3d', 'free_space_pathloss', 'basic_pathloss')
        nm = '%s.%s.%s.' % (cls, d, b)
        ctx.same([(nm + 'free_space', f, call(w, 'pathloss', 'free_space', FC, d3)),
                  (nm + 'basic', pb, call(w, 'pathloss', 'basic', *table_args(cls, d), los, d3,
                                        sym('enable_shadow_fading')))])
    each(ctx, one)


WEATHER = dict(latitude=47, lwc=Fraction(41, 100), rain_rate=40, atmospheric_pressure=1020, temperature=273,
               water_vapor_density=Fraction(15, 2), relative_humidity=50, diameter_earth_antenna=Fraction(18, 5),
               antenna_efficiency=Fraction(1, 2))


def weather_world(ctx, cls, given, **kw):
    w = World()
    ctx.engine(w.E)
    w.scenario(cls, 'downlink', **kw)
    over = {}
    vals = {}
    for n, v in WEATHER.items():
        if given:
            vals[n] = over[n] = w.sym(n, 0)
        else:
            vals[n] = num(v)
    w.topology(**over)
    return w, vals


WEATHER_CASES = [(cls, given, b) for cls in SCEN for given in (False, True) for b in ('S', 'Ka')]


@prop('P02')
def gas_pathloss(ctx):
    def one(ctx, cls, given, b):
        ctx.facts = band(b)
        w, v = weather_world(ctx, cls, given, facts=band(b))
        los, g = get(w, 'los', 'gas_pathloss')
        ctx.same([('%s.%s.gas(%s)' % (cls, b, 'given' if given else 'default'), g, call(
            w, 'pathloss', 'gas', FC, sym('elevation'), v['temperature'], v['atmospheric_pressure'],
            v['water_vapor_density'], los))])
    ctx.par(WEATHER_CASES, one)


@prop('P03')
def scintillation_pathloss(ctx):
    def one(ctx, cls, given, b):
        ctx.facts = band(b)
        w, v = weather_world(ctx, cls, given, facts=band(b))
        los, g = get(w, 'los', 'scintillation_pathloss')
        tag = '%s.%s.%%s(%s)' % (cls, b, 'given' if given else 'default')
        ctx.same([(tag % 'scintillation', g, call(
            w, 'pathloss', 'scintillation', FC, sym('elevation'), v['temperature'], v['relative_humidity'],
            v['diameter_earth_antenna'], v['antenna_efficiency'], los))])
    ctx.par(WEATHER_CASES, one)


STATE = ('ut_loc', 'bs_loc', 'ut_orientations', 'bs_orientations', 'ut_velocities')
RESULTS = ('los', 'indoor', 'distance_2d', 'distance_3d', 'distance_2d_in', 'distance_2d_out', 'distance_3d_in',
           'distance_3d_out', 'matrix_ut_distance_2d', 'los_aod', 'los_aoa', 'los_zod', 'los_zoa', 'lsp_log_mean',
           'lsp_log_std', 'zod_offset', 'basic_pathloss', 'gas_pathloss', 'scintillation_pathloss',
           'entry_pathloss', 'free_space_pathloss', 'batch_size', 'num_ut', 'num_bs', 'h_ut', 'h_bs', 'carrier_frequency',
           'elevation_angle', 'lambda_0')


SHOWN = STATE + ('los', 'indoor', 'distance_3d', 'los_aoa', 'los_zod', 'matrix_ut_distance_2d', 'batch_size', 'num_ut')
PARAMS_SEEN = ('muDS', 'zeta', 'rTau', 'CPhiNLoS', 'sigmaSF')


def params(w):
    return [w.E.method(w.st, w.sc, 'get_param', const(n)) for n in PARAMS_SEEN]


def observe(w):
    n = len(w.st.effects)
    get(w, *(STATE + RESULTS))
    params(w)
    del w.st.effects[n:]


@prop('S04')
def freshness(ctx):
    """state after a sequence of partial updates = state after one call with the latest values"""
    def one(ctx, cls, steps, los):
        over = {} if los is None else {'los': los}
        ctx.facts = band('S')
        w = built(ctx, cls, over=over, facts=ctx.facts)
        latest = dict(w.topo)
        for i, names in enumerate(steps):
            kw = {}
            for n in names:
                r = dict(TOPO_ARGS).get(n, 0)
                # a new drop may have another number of terminals only if every terminal argument changes
                kw[n] = FALSE if n == 'los' else w.sym(n + str(i + 2), r)
            observe(w)               # whatever an observation caches must not survive the update
            w.E.method(w.st, w.sc, 'set_topology', **kw)
            latest.update(kw)
        f = built(ctx, cls, over=latest, facts=ctx.facts, notnone=w.E.tf.notnone)
        nm = '%s.%s%s.' % (cls, '+'.join('/'.join(x) for x in steps), '' if los is None else '(los %s)' % los)
        names = STATE + RESULTS
        w.st.counters = f.st.counters = {}
        ctx.same([(nm + n, x, y) for n, x, y in zip(names, get(w, *names), get(f, *names))])
        ctx.same([(nm + n, x, y) for n, x, y in zip(PARAMS_SEEN, params(w), params(f))])
    seqs = [(('ut_loc',),), (('bs_loc',),), (('in_state',),), (('ut_velocities',),), (('ut_orientations',),),
            (('bs_orientations',),), (('los',),), (('temperature',),), (('atmospheric_pressure', 'relative_humidity'),),
            (('ut_loc', 'bs_loc', 'in_state', 'ut_velocities', 'ut_orientations', 'bs_orientations'),),
            (('temperature',), ('ut_loc',)), (('los',), ('ut_loc',)), (('ut_loc',), ('bs_loc',), ('ut_velocities',)),
            (('water_vapor_density', 'ut_loc'), ('diameter_earth_antenna', 'antenna_efficiency', 'bs_loc'), ('in_state',))]

    def model(ctx, cls, d, steps, los):
        """updates made through a channel model reach its scenario"""
        over = {} if los is None else {'los': const(los)}
        ctx.facts = band('S')
        w = World()
        ctx.engine(w.E)
        ch = w.channel(cls, d, ctx.facts)
        kw = dict(w.topo_args(), **over)
        latest = dict(kw)
        w.E.method(w.st, ch, 'set_topology', **kw)
        for i, names in enumerate(steps):
            kw = {n: FALSE if n == 'los' else w.sym(n + str(i + 2), dict(TOPO_ARGS)[n]) for n in names}
            w.E.method(w.st, ch, 'set_topology', **kw)
            latest.update(kw)
        f = built(ctx, cls, direction=d, over=latest, facts=ctx.facts, notnone=w.E.tf.notnone)
        nm = '%s.%s.model(%s%s).' % (cls, d, '+'.join('/'.join(x) for x in steps), '' if los is None else ' los %s' % los)
        w.st.counters = f.st.counters = {}
        ctx.same([(nm + n, x, y) for n, x, y in zip(SHOWN, get(w, *SHOWN), get(f, *SHOWN))])

    def either(ctx, kind, *a):
        (one if kind == 'scenario' else model)(ctx, *a)
    ctx.par([('scenario', c, q, l) for c in SCEN for q in seqs for l in (None, TRUE)] +
            [('model', c, d, q, l) for c, d in zip(SCEN, ('uplink', 'downlink', 'uplink'))
             for q in ((), (('ut_loc',),), (('bs_orientations',), ('los',)), (('in_state', 'ut_velocities'), ('bs_loc',)))
             for l in (None, True)], either)


@prop('P04')
def entry_loss(ctx):
    def one(ctx, cls, d):
        w = built(ctx, cls, direction=d)
        e, = get(w, 'entry_pathloss')
        z = w.E.run(w.spec('pathloss', 'no_entry'), *get(w, 'los'), st=w.st)
        ctx.same([('%s.%s.entry' % (cls, d), e, z)])
    ctx.par([(c, d) for c in SCEN for d in ('uplink', 'downlink')], one)

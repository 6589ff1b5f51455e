"""Checks of helper functions: satellite speed, topologies, time/frequency responses, correlation matrices."""
from . import prop
from fractions import Fraction
from engine.terms import *
from engine.world import World, s


def fn(w, name):
    return w.E.module_lookup(w.E.modules['utils'], name, w.st)


def run(w, name, *args, **kw):
    w.st.counters = {}
    return w.E.run(fn(w, name), *args, st=w.st, **kw)


def ref(w, name, *args, **kw):
    w.st.counters = {}
    return w.E.run(w.spec('utilities', name), *args, st=w.st, **kw)


def new(ctx):
    w = World()
    ctx.engine(w.E)
    return w


def seq(w, v):
    r = w.E.iterate(v, w.st)
    return r if r is not None else list(w.E.term(v, w.st).args)


@prop('D01')
def orbit(ctx):
    w = new(ctx)
    for shape in ((), ('P',)):
        h, el, fc = [w.sym(n + str(len(shape)), shape if shape else 0) for n in ('h', 'elevation', 'fc')]
        ctx.same([('satellite_speed/rank%d' % len(shape), run(w, 'compute_satellite_speed', h), ref(w, 'satellite_speed', h)),
                  ('doppler/rank%d' % len(shape), run(w, 'compute_stallite_doppler', h, el, fc),
                   ref(w, 'satellite_doppler', h, el, fc))])


PARAMS = ('isd', 'bs_height', 'elevation_angle', 'min_ut_height', 'max_ut_height', 'indoor_probability',
          'min_ut_velocity', 'max_ut_velocity')
SCENARIOS = ('urb', 'dur', 'sur')


@prop('U02')
def topologies(ctx):
    def defaults(ctx):
        for sc in SCENARIOS:
            for given in ((), PARAMS, PARAMS[::2], PARAMS[1::2]):
                w = new(ctx)
                kw = {n: w.sym(n, 0) for n in given}
                w.E.tf.notnone.update(kw.values())
                got = seq(w, run(w, 'set_3gpp_scenario_parameters', const(sc), **kw))
                want = seq(w, ref(w, 'defaults', const(sc)))
                ctx.rule('count:%s/%s' % (sc, len(given)), len(got) == len(PARAMS), 'utils.py',
                         'set_3gpp_scenario_parameters returns %d values' % len(got))
                ctx.same([('%s.%s/%s' % (sc, n, ','.join(given) or 'none'), g, kw.get(n, d))
                          for n, g, d in zip(PARAMS, got, want)])

    def topology(ctx, sc, given):
        w = new(ctx)
        b, n = w.sym('batch', 0), w.sym('num_ut', 0)
        kw = {k: w.sym(k, 0) for k in given}
        w.E.tf.notnone.update(kw.values())
        got = seq(w, run(w, 'gen_single_sector_topology', b, n, const(sc), **kw))
        d = dict(zip(PARAMS, seq(w, ref(w, 'defaults', const(sc)))))
        d.update(kw)
        want = seq(w, ref(w, 'topology', b, n, d['bs_height'], d['elevation_angle'], d['isd'], d['min_ut_height'],
                          d['max_ut_height'], d['min_ut_velocity'], d['max_ut_velocity']))
        names = ('ut_loc', 'bs_loc', 'ut_orientations', 'bs_orientations', 'ut_velocities', 'in_state')
        ctx.rule('count:topology', len(got) == 6, 'utils.py', 'gen_single_sector_topology returns %d values' % len(got))
        ctx.same([('%s/%s.%s' % (sc, len(given), m), x, y) for m, x, y in zip(names, got, want)])

    def placement(ctx):
        for cell in ((2,), ('P', 'Q', 2)):
            w = new(ctx)
            x, i, c = w.sym('xy', ('P', 'Q', 2)), w.sym('sector', ('P', 'Q')), w.sym('cell%d' % len(cell), cell)
            got = run(w, 'relocate_uts', x, i, c)
            ctx.same([('relocate_uts/%s' % len(cell), got, ref(w, 'rotate', x, i, c))])
        w = new(ctx)
        a = [w.sym(n, 0) for n in ('batch', 'num_ut', 'height', 'elevation', 'isd')]
        ctx.same([('drop_uts_in_sector', run(w, 'drop_uts_in_sector', *a), ref(w, 'drop', *a))])

    def users(ctx, area):
        w = new(ctx)
        a = [w.sym(n, 0) for n in ('batch', 'num_ut')] + [w.sym('cell', (2,))] + [
            w.sym(n, 0) for n in ('height', 'elevation', 'isd', 'min_ut_height', 'max_ut_height')]
        v = [w.sym(n, 0) for n in ('min_ut_velocity', 'max_ut_velocity')]
        got = seq(w, run(w, 'generate_uts_topology', a[0], a[1], const(area), *a[2:], w.sym('indoor_probability', 0), *v))
        want = seq(w, ref(w, 'users', const(area), *a, *v))
        ctx.rule('count:users', len(got) == 4, 'utils.py', 'generate_uts_topology returns %d values' % len(got))
        ctx.same([('generate_uts_topology/%s.%s' % (area, m), x, y) for m, x, y in
                  zip(('ut_loc', 'ut_orientations', 'ut_velocities', 'in_state'), got, want)])

    ctx.par([(defaults,), (placement,), (users, 'sector'), (users, 'cell')] + [(topology, sc, g) for sc in SCENARIOS for g in (PARAMS, ())],
            lambda ctx, f, *a: f(ctx, *a))


def unwrap(t):
    """x mod 360 as x - 360 floor(x / 360)"""
    return subst(t, {x: sub(x.args[0], mul(num(360), mk('floor', mul(num(Fraction(1, 360)), x.args[0]))))
                     for x in subterms(t) if x.op == 'wrap360'})


@prop('U04')
def angles_and_states(ctx):
    for dims in ((), ('P',), ('P', 'Q', 'R')):
        w = new(ctx)
        x = w.sym('x', dims or 0)
        ctx.same([('%s/rank%d' % (f, len(dims)), unwrap(run(w, f, x)), unwrap(ref(w, r, x))) for f, r in
                  (('deg_2_rad', 'radian'), ('rad_2_deg', 'degree'), ('wrap_angle_0_360', 'wrapped'))])
    for name, prec in (('default', NONE), ('single', const('single')), ('double', const('double'))):
        for dims in ((), ('Q',), ('P', 'Q')):
            w = new(ctx)
            p = w.sym('prob', dims or 0)
            sh = w.E.new_list(w.st, [s('P', 0), s('Q', 0)])
            ctx.same([('sample_bernoulli/%s/rank%d' % (name, len(dims)), run(w, 'sample_bernoulli', sh, p, prec),
                       ref(w, 'bernoulli', sh, p))])


@prop('U01')
def responses(ctx):
    w = new(ctx)
    a = w.sym('a', ('B', 'NR', 'NA', 'NT', 'NB', 'P', 'T'))
    w.E.tf.complex_syms.add(a)
    f = w.sym('frequencies', ('F',))
    wd, lo, hi = w.sym('bandwidth', 0), w.sym('l_min', 0), w.sym('l_max', 0)
    for tau in (w.sym('tau4', ('B', 'NR', 'NT', 'P')), w.sym('tau6', ('B', 'NR', 'NA', 'NT', 'NB', 'P'))):
        for nz in (FALSE, TRUE):
            tag = 'tau%d%s' % (rank(tau), '/normalized' if nz is TRUE else '')
            ctx.same([('cir_to_ofdm/' + tag, run(w, 'cir_to_ofdm_channel', f, a, tau, nz), ref(w, 'ofdm', f, a, tau, nz))])
            ctx.same([('cir_to_time/' + tag, run(w, 'cir_to_time_channel', wd, a, tau, lo, hi, nz),
                       ref(w, 'taps', wd, a, tau, lo, hi, nz))])
    w = new(ctx)
    lo = w.sym('l_min', 0)
    rg = w.E.run(w.spec('utilities', 'Grid'), *[w.sym(n, 0) for n in ('fft_size', 'prefix', 'samples')], st=w.st)
    for dims in (('T', 'L'), ('B', 'T', 'L'), ('B', 'NR', 'NA', 'NT', 'NB', 'T', 'L')):
        h = w.sym('h%d' % len(dims), dims)
        w.E.tf.complex_syms.add(h)
        ctx.same([('time_to_ofdm/rank%d' % len(dims), run(w, 'time_to_ofdm_channel', h, rg, lo),
                   ref(w, 'ofdm_of_taps', h, rg, lo))])
    for n in list(range(1, 9)) + [64, 75]:
        w = new(ctx)
        sp = w.sym('spacing', 0)
        ctx.same([('subcarrier_frequencies/%d' % n, run(w, 'subcarrier_frequencies', num(n), sp),
                   ref(w, 'subcarriers', num(n), sp))])
        if n > 1:
            t, f = seq(w, run(w, 'time_frequency_vector', num(n), sp))
            ctx.same([('time_vector/%d' % n, t, ref(w, 'subcarriers', num(n), sp)),
                      ('frequency_vector/%d' % n, f, ref(w, 'subcarriers', num(n), div(ONE, mul(num(n), sp))))])
    w = new(ctx)
    bw, ds = w.sym('bandwidth', 0), w.sym('max_delay', 0)
    lo, hi = seq(w, run(w, 'time_lag_discrete_time_channel', bw, ds))
    ctx.same([('l_min', lo, num(-6)), ('l_max', hi, ref(w, 'last_lag', bw, ds))])
    lo, hi = seq(w, run(w, 'time_lag_discrete_time_channel', bw))
    ctx.same([('l_min/default', lo, num(-6)), ('l_max/default', hi, ref(w, 'last_lag', bw, num(Fraction(3, 10**6))))])


@prop('U03')
def correlations(ctx):
    w = new(ctx)
    for shape in ((), ('P',)):
        a, phi = [w.sym(n + str(len(shape)), shape if shape else 0) for n in ('a', 'phi')]
        w.E.tf.complex_syms.add(a)
        n, d, sg = w.sym('n', 0), w.sym('d_h', 0), w.sym('sigma', 0)
        ctx.same([('exp_corr_mat/rank%d' % len(shape), run(w, 'exp_corr_mat', a, n), ref(w, 'exponential', a, n))])
        ctx.same([('one_ring_corr_mat/rank%d' % len(shape), run(w, 'one_ring_corr_mat', phi, n, d, sg),
                   ref(w, 'one_ring', phi, n, d, sg))])

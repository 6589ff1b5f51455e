"""Checks of the channel models as a whole: roles, gains, parameter lifetime, output layout."""
from . import prop
from engine.terms import *
from engine.pw import ix
from engine.interp import Ref
from engine.world import World, SCEN, CHAN, TOPO_ARGS, s
from .scenario import call, FC, band
from .smallscale import LSP_NAMES, RAY_NAMES
from .coefficients import record

GEO = ('los', 'distance_3d', 'los_aoa', 'los_aod', 'los_zoa', 'los_zod', 'ut_velocities', 'ut_orientations',
       'bs_orientations', 'bs_loc')


class Sampled(BaseException):
    """the rays of a call are known"""


def stub_samplers(w, log):
    """the samplers of large- and small-scale parameters return a new arbitrary sample at every call"""
    E = w.E
    L = w._nb(('B', 'NB', 'NU'))

    def lsp(args, kw, st):
        k = len([x for x in log if x[0] == 'lsp'])
        log.append(('lsp', k))
        v = {n: s('lsp%d.%s' % (k, n), L) for n in LSP_NAMES}
        return E.new(st, 'LSP', **v)

    def rays(args, kw, st):
        a = (list(args) + list(kw.values()))[1]
        src = show(E.getattr(a, 'k_factor', st)).split('.')[0]
        k = len([x for x in log if x[0] == 'rays'])
        log.append(('rays', k, src))
        v = {n: s('rays%d(%s).%s' % (k, src, n), L + (('C', 20) if n in RAY_NAMES[2:] else ('C',)))
             for n in RAY_NAMES}
        return E.new(st, 'Rays', **v)
    E.get_class('LSPGenerator').members['__call__'] = lsp
    E.get_class('RaysGenerator').members['__call__'] = rays


def build(ctx, cls, d, b, sat=True, dop=TRUE, pl=TRUE, sf=TRUE, always=FALSE, samplers=True, **kw):
    w = World(nb=1)
    ctx.engine(w.E)
    ctx.facts = band(b)
    log = []
    if samplers:
        stub_samplers(w, log)
    ch = w.channel(cls, d, ctx.facts, enable_pathloss=pl, enable_shadow_fading=sf, doppler_enabled=dop,
                   always_generate_lsp=always, **kw)
    w.flags = dict(doppler=dop, pathloss=pl, shadowing=sf)
    w.cls, w.dir = cls, d
    return w, ch, log


def drop(w, ch, suffix='', sat=True, **over):
    E, st = w.E, w.st
    kw = w.topo_args(over, suffix)
    E.method(st, ch, 'set_topology', **kw)
    w.abstract(prefix='scenario%s.' % suffix)


def assume_height(ctx, w, sat):
    w.flags['satellite'] = const(sat)
    f = tuple((gt0(sub(num(600000), mk('at', w.topo['bs_loc'], b, num(0), num(2)))), not sat) for b in (num(0), ix(0)))
    c, v = f[0]
    w.st.assume('a', c if v else bnot(c))
    ctx.facts = ctx.facts + f


OTHER_HEIGHT = 'height of the other batch examples'


def as_expected(ctx, w, name, h, tau, k_lsp, k_rays, n, fs):
    """the response is the reference one; reports if the satellite height of batch example 0 serves all examples"""
    def outs(own):
        hs, ts = expected(w, k_lsp, k_rays, n, fs, own)
        return [(name + 'delays', tau, ts), (name + 'h', h, hs)]
    if ctx.trial(outs(False)):
        return False
    ctx.same(outs(True))
    return True


def expected(w, k_lsp, k_rays, n, fs, own_height):
    E, st = w.E, w.st
    L = w._nb(('B', 'NB', 'NU'))
    g = {x: w.topo[x] if x in w.topo else E.getattr(w.sc, x, st) for x in GEO}
    lsp = {x: s('lsp%d.%s' % (k_lsp, x), L) for x in LSP_NAMES}
    rays = {x: s('rays%d(lsp%d).%s' % (k_rays, k_lsp, x), L + (('C', 20) if x in RAY_NAMES[2:] else ('C',)))
            for x in RAY_NAMES}
    pl = E.getattr(w.sc, 'basic_pathloss', st)
    for x in ('gas', 'scintillation', 'entry'):
        pl = add(E.tf.pw_term(pl) if hasattr(E.tf, 'pw_term') else pl, E.getattr(w.sc, x + '_pathloss', st))
    r = call(w, 'pipeline', 'channel', const(w.cls), const(w.dir), FC, sym('elevation'), w.ua, w.ba,
             record(w, **g), record(w, **lsp), record(w, **rays), pl, record(w, **w.flags), n, fs, const(own_height))
    return E.iterate(r, st)


@prop('M01')
def composition(ctx):
    def one(ctx, cls, d, b, kw):
        kw = dict(kw)
        sat = kw.pop('sat', True)
        w, ch, log = build(ctx, cls, d, b, **kw)
        E, st = w.E, w.st
        drop(w, ch)
        assume_height(ctx, w, sat)
        st.counters = {}
        n, fs = w.sym('num_time_samples', 0), w.sym('fs', 0)
        h, tau = E.iterate(E.run(ch, n, fs, st=st), st)
        f = ctx.facts
        los = E.getattr(w.sc, 'los', st)
        for v in (True, False):
            i = [ix(i) for i in range(7)]
            ctx.facts = f + ((mk('truthy', mk('at', los, i[0], num(0), i[1] if d == 'downlink' else i[3])), v),)
            nm = '%s.%s.%s.%s.%s.' % (cls, d, b, '+'.join(sorted(kw)) or 'all', 'los' if v else 'nlos')
            own = as_expected(ctx, w, nm, h, tau, 0, 0, n, fs)
            if sat and w.flags['doppler'] is TRUE:
                ctx.rule('satellite height: ' + nm, own, 'OpenNTN/system_level_channel.py',
                         'the Doppler shift of every batch example is that of the satellite height of example 0',
                         OTHER_HEIGHT)
    cases = [(c, d, 'S', {}) for c in SCEN for d in ('uplink', 'downlink')]
    cases += [(SCEN[0], d, 'Ka', x) for d in ('uplink', 'downlink')
              for x in ({}, {'pl': FALSE}, {'sf': FALSE}, {'dop': FALSE}, {'sat': False})]
    ctx.par(cases, one)


@prop('M02')
def lifetime(ctx):
    """which sample of the large-scale parameters every call uses"""
    L2 = ('B', 'NB', 'NU')

    def one(ctx, cls, d, always, second, form):
        w, ch, log = build(ctx, cls, d, 'S', always=always)
        E, st = w.E, w.st
        n, fs = w.sym('num_time_samples', 0), w.sym('fs', 0)
        f0 = ctx.facts

        def use(k_lsp, k_rays, what, full):
            ctx.facts = f0
            assume_height(ctx, w, True)
            st.counters = {}
            args = (n, fs) if form == 'short' else (w.sym('batch_size', 0), n, fs)
            h, tau = E.iterate(E.run(ch, *args, st=st), st)
            r = [x for x in log if x[0] == 'rays']
            nm = '%s.%s.%s.%s.' % (cls, d, 'always' if always is TRUE else 'kept', what)
            ctx.rule(nm + 'fresh rays', len(r) == k_rays + 1, 'system_level_channel.py',
                     'expected one new ray sample per call, got %d after call %d' % (len(r), k_rays + 1))
            ctx.rule(nm + 'LSP sample', r[-1][2] == 'lsp%d' % k_lsp, 'system_level_channel.py',
                     'rays generated from %s instead of lsp%d' % (r[-1][2], k_lsp))
            if full and r[-1][2] == 'lsp%d' % k_lsp and len(r) == k_rays + 1:
                ctx.facts = ctx.facts + ((mk('truthy', mk('at', E.getattr(w.sc, 'los', st), ix(0), num(0), ix(
                    1 if d == 'downlink' else 3))), True),)
                as_expected(ctx, w, nm, h, tau, k_lsp, k_rays, n, fs)
        drop(w, ch)
        k = [x[0] for x in log].count('lsp')
        new = always is TRUE
        base = k if new else k - 1
        use(base, 0, 'first call', False)
        use(base + 1 if new else base, 1, 'second call', True)
        # the topology changes
        if second == 'all':
            kw = w.topo_args((), '2')
        else:
            kw = {second: w.sym(second + '2', w._nb(dict(TOPO_ARGS)[second]))}
            w.topo = dict(w.topo, **kw)
        lsp_before = [x[0] for x in log].count('lsp')
        E.method(st, ch, 'set_topology', **kw)
        made = [x[0] for x in log].count('lsp') - lsp_before
        update = second in ('all', 'ut_loc', 'bs_loc', 'in_state')
        if update:
            w.abstract(prefix='scenario2.')
            if not new:
                ctx.rule('%s.%s.%s resamples' % (cls, d, second), made >= 1, 'system_level_channel.py',
                         'large-scale parameters of the previous topology are kept although the links changed')
        else:
            if not new:
                ctx.rule('%s.%s.%s does not resample' % (cls, d, second), made == 0, 'system_level_channel.py',
                         'new large-scale parameters although the links did not change')
        last = [x[0] for x in log].count('lsp')
        use(last if new else last - 1, 2, 'after ' + second, True)
    def samplers(ctx, cls, d, always, second):
        """after a topology update the model samples from the current topology"""
        w, ch, log = build(ctx, cls, d, 'S', always=always, samplers=False)
        E, st = w.E, w.st
        names = ('los', 'indoor', 'bs_loc', 'los_aod', 'los_aoa', 'los_zod', 'los_zoa', 'zod_offset', 'lsp_log_mean',
                 'lsp_log_std', 'matrix_ut_distance_2d')
        v = {n: s('lsp.' + n, ('B', 'NB', 'NU')) for n in LSP_NAMES}
        seen = {}
        real = {c: E.get_class(c).members['__call__'] for c in ('LSPGenerator', 'RaysGenerator')}

        def update(args, kw, st):
            r = E.call(real['update'], [w.sc] + list(args), dict(kw), st)
            if seen.get('watch'):
                w.st = st
                w.abstract(prefix='scenario2.')
            return r

        def lsp(args, kw, st):
            if seen.get('watch'):
                st.counters = {}
                r = E.call(real['LSPGenerator'], list(args), dict(kw), st)
                seen['lsp'] = [E.getattr(r, n, st) for n in LSP_NAMES]
            return E.new(st, 'LSP', **v)

        def rays(args, kw, st):
            st.counters = {}
            seen['rays'] = E.call(real['RaysGenerator'], list(args), dict(kw), st)
            w.st = st
            raise Sampled
        E.get_class('LSPGenerator').members['__call__'] = lsp
        E.get_class('RaysGenerator').members['__call__'] = rays
        _, real['update'], owner = E.get_class(cls).lookup('set_topology')
        owner.members['set_topology'] = update
        E.method(st, ch, 'set_topology', **w.topo_args())
        seen['watch'] = True
        if second == 'all':
            kw = w.topo_args((), '2')
        else:
            kw = {second: w.sym(second + '2', w._nb(dict(TOPO_ARGS)[second]))}
        E.method(st, ch, 'set_topology', **kw)
        w.st = st
        try:
            E.run(ch, w.sym('num_time_samples', 0), w.sym('fs', 0), st=st)
        except Sampled:
            st = w.st
        nm = '%s.%s.%s.sampled after %s.' % (cls, d, 'always' if always is TRUE else 'kept', second)
        x = dict(zip(names, [E.getattr(w.sc, n, st) for n in names]))
        a = (const(cls), const(d), FC, sym('elevation'))
        sp = E.iterate(call(w, 'largescale', 'sample', *a, *[x[n] for n in (
            'los', 'indoor', 'matrix_ut_distance_2d', 'lsp_log_mean', 'lsp_log_std')]), st)
        ctx.same([(nm + n, p, q) for n, p, q in zip(LSP_NAMES, seen['lsp'], sp)])
        sp = E.iterate(call(w, 'smallscale', 'generate', *a, *[x[n] for n in names[:9]], v['ds'], v['asd'], v['asa'],
                            v['k_factor'], v['zsa'], v['zsd']), st)
        ctx.same([(nm + n, E.getattr(seen['rays'], n, st), y) for n, y in zip(RAY_NAMES, sp)
                  if n in ('delays', 'powers', 'xpr')])

    def either(ctx, kind, *a):
        (one if kind == 'lifetime' else samplers)(ctx, *a)
    cases = [(SCEN[0], d, a, sec, f) for a in (TRUE, FALSE) for d, sec, f in (
        ('downlink', 'all', 'short'), ('uplink', 'ut_loc', 'long'), ('uplink', 'ut_velocities', 'short'),
        ('downlink', 'bs_loc', 'short'), ('downlink', 'in_state', 'long'), ('downlink', 'ut_orientations', 'short'))]
    ctx.par([('lifetime',) + c for c in cases] + [
        ('samplers', c, d, a, sec) for c, d, a, sec in zip(SCEN + SCEN[:1], ('downlink', 'uplink', 'uplink', 'downlink'), (
            TRUE, FALSE, TRUE, FALSE), ('all', 'ut_loc', 'in_state', 'bs_loc'))], either)


@prop('P05')
def shadowing_once(ctx):
    """where shadow fading enters the gain of a link"""
    def has(t, p, seen):
        if isinstance(t, tuple):
            return any(has(x, p, seen) for x in t)
        if not isinstance(t, T) or t.id in seen:
            return False
        seen.add(t.id)
        return p(t) or any(has(x, p, seen) for x in t.args)

    def one(ctx, cls, d, b, on):
        w, ch, log = build(ctx, cls, d, b, sf=const(on))
        E, st = w.E, w.st
        kw = w.topo_args()
        E.method(st, ch, 'set_topology', **kw)
        pl = E.term(E.getattr(w.sc, 'basic_pathloss', st), st)
        table = has(pl, lambda t: t.op == 'rand' and t.args[0] == const('normal'), set())
        w.abstract()
        h, tau = E.iterate(E.run(ch, w.sym('num_time_samples', 0), w.sym('fs', 0), st=st), st)
        sf = {s('lsp%d.sf' % k) for k in range(len(log))}
        link = has(E.term(h, st), lambda t: t in sf, set())
        nm = '%s.%s.%s.%s' % (cls, d, b, 'on' if on else 'off')
        if not on:
            ctx.rule(nm, not table and not link, 'system_level_channel.py', 'shadow fading although it is disabled')
        else:
            ctx.rule(nm, table or link, 'system_level_channel.py', 'no shadow fading although it is enabled')
            ctx.rule(nm + ' once', not (table and link), 'system_level_channel.py: _step_12, utils.py: '
                     'compute_pathloss_basic', 'the gain contains the uncorrelated shadow fading of the basic path loss '
                     'and the correlated one of the large-scale parameters', key='shadow fading twice')
    ctx.par([(c, d, b, on) for c in SCEN for d in ('uplink', 'downlink') for b in ('S', 'Ka') for on in (True, False)], one)

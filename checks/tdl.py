"""Check of the tapped delay line models."""
import json
import os
from fractions import Fraction
from . import prop
from engine.terms import *
from .validation import rejects
from engine import pw
from engine.world import World, PKG

WHERE = 'OpenNTN/tdl.py'
MODELS = ('A', 'B', 'C', 'D', 'A30', 'B100', 'C300')
SCALARS = ('delay_spread', 'carrier_frequency', 'los_angle_of_arrival', 'min_speed', 'max_speed', 'basestation_height',
           'elevation_angle')
ORBIT = 'orbital Doppler shift'


def load(w):
    w.E.tf.contents = {}
    for f in os.listdir(os.path.join(PKG, 'models')):
        if f.endswith('.json') and f.startswith(('TDL', 'CDL')):
            w.E.tf.contents[f] = json.load(open(os.path.join(PKG, 'models', f)), parse_float=Fraction)


def build(ctx, model, corr, default=(), plain=False):
    w = World()
    ctx.engine(w.E)
    load(w)
    v = {k: w.sym(k, 0) for k in SCALARS}
    v.update(S=w.sym('S', 0), NR=w.sym('NR', 0), NT=w.sym('NT', 0))
    kw = {k: v[k] for k in SCALARS if k not in default}
    m = {'all': ('spatial_corr_mat', None), 'rx': ('rx_corr_mat', ('NR', 'NR')), 'tx': ('tx_corr_mat', ('NT', 'NT'))}
    mats = {k: w.sym(n, d) if d else w.sym(n, 2) for k, (n, d) in m.items()}
    nt = mul(v['NR'], v['NT'])
    declare_shape(mats['all'], [nt, nt])
    w.E.tf.complex_syms.update(mats.values())
    for k in ('rx', 'tx') if corr == 'both' else (corr,) if corr else ():
        kw[m[k][0]] = mats[k]
    w.E.tf.notnone.update(kw.values())
    if not plain:
        kw.update(num_sinusoids=v['S'], num_rx_ant=v['NR'], num_tx_ant=v['NT'])
    t = w.E.new(w.st, 'TDL', const(model), **kw)
    return w, t, v, mats


def ref(w, name, *args):
    w.st.counters = {}
    return w.E.iterate(w.E.run(w.spec('tdl', name), *args, st=w.st), w.st)


@prop('T03')
def tdl(ctx):
    pw.EXPLICIT = max(pw.EXPLICIT, 12)      # every tap on its own

    def response(ctx, model, corr):
        w, t, v, mats = build(ctx, model, corr)
        n, k, fs = w.sym('B', 0), w.sym('T', 0), w.sym('fs', 0)
        w.st.counters = {}
        h, d = w.E.iterate(w.E.method(w.st, t, '__call__', n, k, fs), w.st)

        def outs(kilo):
            hs, dl = ref(w, 'response', const(model), v['delay_spread'], v['carrier_frequency'], v['S'],
                         v['los_angle_of_arrival'], v['min_speed'], v['max_speed'], v['NR'], v['NT'],
                         v['basestation_height'], v['elevation_angle'], n, k, fs, const(kilo), const(corr),
                         mats['all'], mats['rx'], mats['tx'])
            nm = 'TDL-%s/%s.' % (model, corr or 'uncorrelated')
            return [(nm + 'delays', d, dl), (nm + 'h', h, hs)]
        shipped = ctx.trial(outs(True))
        if not shipped:
            ctx.same(outs(False))
        ctx.rule('orbit: TDL-%s/%s' % (model, corr), not shipped, WHERE, 'the Doppler shift of the satellite is not that '
                 'of its orbit (km/s are divided by km/h, and 2 pi is missing)', ORBIT)

    def properties(ctx, model):
        w, t, v, mats = build(ctx, model, None)
        d, p, los, k = ref(w, 'reported', const(model), v['delay_spread'])
        get = lambda x: w.E.getattr(t, x, w.st)
        nm = 'TDL-%s.' % model
        c = ref(w, 'number', const(model))
        ctx.same([(nm + 'delays', get('delays'), d), (nm + 'mean_powers', get('mean_powers'), p),
                  (nm + 'num_clusters', get('num_clusters'), c[0])])
        has = los is not NONE
        ctx.same([(nm + 'los', get('los'), TRUE if has else FALSE)])
        if has:
            ctx.same([(nm + 'mean_power_los', get('mean_power_los'), los), (nm + 'k_factor', get('k_factor'), k)])
    def accepted(ctx):
        for m in MODELS + ('E', 'a', 'A10', ''):
            w, t, v, rej = attempt(ctx, m)
            want = w.E.run(w.spec('tdl', 'accepted'), const(m), v['min_speed'], v['max_speed'], v['basestation_height'],
                           v['elevation_angle'], st=w.E.fresh())
            ctx.same([('TDL-%s.accepted' % m, bnot(rej), want)])

    def attempt(ctx, m):
        w = World()
        ctx.engine(w.E)
        load(w)
        v = {k: w.sym(k, 0) for k in SCALARS}
        w.E.tf.notnone.update(v.values())
        rej, t = rejects(w, lambda: w.E.new(w.st, 'TDL', const(m), **v))
        return w, t, v, rej

    def defaults(ctx, model):
        """omitted arguments, and a delay spread that is changed afterwards"""
        w, t, v, mats = build(ctx, model, None, ('max_speed', 'los_angle_of_arrival', 'basestation_height', 'elevation_angle'),
                              True)
        n, k, fs = w.sym('B', 0), w.sym('T', 0), w.sym('fs', 0)
        ds = w.sym('new_delay_spread', 0)
        w.E.setattr(t, 'delay_spread', ds, w.st)
        w.st.counters = {}
        h, d = w.E.iterate(w.E.method(w.st, t, '__call__', n, k, fs), w.st)

        def outs(kilo):
            hs, dl = ref(w, 'response', const(model), ds, v['carrier_frequency'], num(20), mul(PI, num(Fraction(1, 4))),
                         v['min_speed'], v['min_speed'], ONE, ONE, num(600000), num(80), n, k, fs, const(kilo), const(None),
                         NONE, NONE, NONE)
            return [('TDL-%s/defaults.delays' % model, d, dl), ('TDL-%s/defaults.h' % model, h, hs)]
        if not ctx.trial(outs(True)):
            ctx.same(outs(False))
        d, p, los, k = ref(w, 'reported', const(model), ds)
        ctx.same([('TDL-%s/changed.delays' % model, w.E.getattr(t, 'delays', w.st), d),
                  ('TDL-%s/changed.delay_spread' % model, w.E.getattr(t, 'delay_spread', w.st),
                   w.E.run(w.spec('tdl', 'spread'), const(model), ds, st=w.st))])
    cases = [('r', m, c) for m in MODELS for c in (None, 'all', 'rx', 'tx', 'both')]
    cases += [(x, m) for x in 'pd' for m in MODELS] + [('a',)]
    ctx.par(cases, lambda ctx, x, *a: dict(r=response, p=properties, d=defaults, a=accepted)[x](ctx, *a))

"""Check of the acceptance of configurations: the reject conditions of the interpreted code against their specification."""
import itertools
from . import prop
from engine import terms as tm
from engine.terms import *
from engine.world import World, SCEN, CHAN, TOPO_ARGS
from engine.interp import TupleV


def rejects(w, f):
    """condition under which f() raises"""
    n = len(w.st.effects)
    r = f()
    if r is None:
        return TRUE, None
    return tm.bor(*[e.cond for e in w.st.effects[n:] if e.kind == 'reject']), r


@prop('S01')
def validation(ctx):
    def construct(ctx, cls, chan):
        name = CHAN[cls] if chan else cls
        for du, db in ((0, 0), (1, 0), (0, 1), (1, 1)):       # which array may be made for another wavelength
            w = World()
            ctx.engine(w.E)
            a = dict(carrier_frequency=w.sym('fc', 0), direction=w.sym('direction', 0), elevation_angle=w.sym('elevation', 0))
            for k in ('enable_pathloss', 'enable_shadow_fading', 'doppler_enabled'):
                a[k] = w.sym(k, 0)
                tm.BOOLEAN.add(a[k])
            off = w.sym('wavelength_offset', 0)
            lam = [w.E.run(w.spec('validation', 'wavelength'), a['carrier_frequency'], off if x else num(0), st=w.st)
                   for x in (du, db)]
            a.update(ut_array=w.array('ut_array', lam=lam[0]), bs_array=w.array('bs_array', lam=lam[1]))
            rej, r = rejects(w, lambda: w.E.new(w.st, name, **a))
            want = w.E.run(w.spec('validation', 'scenario'), a['direction'], a['carrier_frequency'],
                           a['elevation_angle'], lam[0], lam[1], st=w.E.fresh())
            ctx.same([('%s.accepts/%d%d' % (name, du, db), bnot(rej), want)])
        for bad in ('ut_array', 'bs_array'):
            for v in (NONE, num(3), TupleV([num(1)])):
                w = World()
                ctx.engine(w.E)
                ua, ba = w.arrays()
                b = dict(a, ut_array=ua, bs_array=ba)
                b[bad] = v
                rej, r = rejects(w, lambda: w.E.new(w.st, name, **b))
                ctx.rule('%s.%s not an array' % (name, bad), rej is TRUE, name, '%s=%s is accepted' % (bad, v))

    def topo(ctx, cls):
        names = [n for n, _ in TOPO_ARGS]
        for missing in [()] + [(n,) for n in names] + [tuple(names)]:
            w = World()
            ctx.engine(w.E)
            sc = w.scenario(cls, 'downlink')
            kw = {k: v for k, v in w.topo_args().items() if k not in missing}
            w.E.tf.notnone.update(kw.values())
            rej, r = rejects(w, lambda: w.E.method(w.st, sc, 'set_topology', **kw))
            ctx.rule('%s.set_topology without %s' % (cls, ', '.join(missing) or 'omission'),
                     rej is (TRUE if missing else FALSE), cls + '.set_topology',
                     'a first topology without %s is %s' % (', '.join(missing) or 'omissions',
                                                            'accepted' if missing else 'rejected: %s' % tm.show(rej, 4)))

    def antennas(ctx):
        for pat in ('omni', '38.901', 'aperture', 'dlp', 'OMNI', '', 'tr38901', '38901'):
            w = World()
            ctx.engine(w.E)
            rej, _ = rejects(w, lambda: w.E.new(w.st, 'AntennaElement', const(pat), num(0)))
            ok = pat in ('omni', '38.901', 'aperture', 'dlp')
            ctx.rule('pattern %r' % pat, rej is (FALSE if ok else TRUE), 'AntennaElement',
                     'pattern %r is %s' % (pat, 'rejected' if ok else 'accepted'))
        for pol, typ in itertools.product(('single', 'dual', 'triple'), ('V', 'H', 'VH', 'cross', 'X')):
            w = World()
            ctx.engine(w.E)
            fc = w.sym('fc', 0)
            ok = (pol, typ) in (('single', 'V'), ('single', 'H'), ('dual', 'VH'), ('dual', 'cross'))
            for cls, n in (('PanelArray', (num(2), num(3))), ('AntennaArray', (num(2), num(3))), ('Antenna', ())):
                rej, _ = rejects(w, lambda: w.E.new(w.st, cls, *n, polarization=const(pol), polarization_type=const(typ),
                                                    antenna_pattern=const('omni'), carrier_frequency=fc))
                ctx.rule('%s %s/%s' % (cls, pol, typ), rej is (FALSE if ok else TRUE), cls,
                         'polarization %s/%s is %s' % (pol, typ, 'rejected' if ok else 'accepted'))
        for rows, cols, given in itertools.product((1, 2, 5), (1, 3), itertools.product((0, 1), repeat=4)):
            w = World()
            ctx.engine(w.E)
            names = ('element_vertical_spacing', 'element_horizontal_spacing', 'panel_vertical_spacing',
                     'panel_horizontal_spacing')
            kw = {n: w.sym(n, 0) for n, g in zip(names, given) if g}
            w.E.tf.notnone.update(kw.values())
            rej, _ = rejects(w, lambda: w.E.new(w.st, 'PanelArray', num(rows), num(cols), const('single'), const('V'),
                                                const('omni'), w.sym('fc', 0), num(2), num(2), **kw))
            want = w.E.run(w.spec('validation', 'panels'), num(rows), num(cols), st=w.E.fresh(),
                           **{k: kw[n] for k, n in zip(('v', 'h', 'pv', 'ph'), names) if n in kw})
            ctx.same([('spacing %dx%d %s' % (rows, cols, ''.join(map(str, given))), bnot(rej), want)])

    def helpers(ctx):
        for sc in ('urb', 'dur', 'sur', 'umi', 'rural', ''):
            ok = sc in ('urb', 'dur', 'sur')
            for f, a in (('set_3gpp_scenario_parameters', (const(sc),)),
                         ('gen_single_sector_topology', (num(2), num(3), const(sc)))):
                w = World()
                ctx.engine(w.E)
                g = w.E.module_lookup(w.E.modules['utils'], f, w.st)
                rej, _ = rejects(w, lambda: w.E.run(g, *a, st=w.st))
                ctx.rule('%s %r' % (f, sc), rej is (FALSE if ok else TRUE), 'utils.' + f,
                         'scenario %r is %s' % (sc, 'rejected' if ok else 'accepted'))

    ctx.par([(construct, c, x) for c in SCEN for x in (False, True)] + [(topo, c) for c in SCEN] +
            [(antennas,), (helpers,)], lambda ctx, f, *a: f(ctx, *a))

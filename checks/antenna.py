"""Checks of antenna elements and arrays."""
from . import prop
from fractions import Fraction
from engine.terms import *
from engine.world import World, s


PATTERNS = ('omni', '38.901', 'aperture', 'dlp')


@prop('A01')
def elements(ctx):
    def one(ctx, pat, direct):
        w = World()
        ctx.engine(w.E)
        E, st = w.E, w.st
        th, ph, sl = w.sym('theta', ('P', 'Q')), w.sym('phi', ('P', 'Q')), w.sym('slant', 0)
        el = E.new(st, 'AntennaElement', const(pat), sl)
        f = E.method(st, el, 'field', th, ph)
        ref = E.run(w.spec('antenna', 'field'), const(pat), sl, th, ph, st=st)
        a, b = E.iterate(f, st), E.iterate(ref, st)
        ctx.same([('%s.field.%s' % (pat, n), x, y) for n, x, y in zip(('theta', 'phi'), a, b)])
    ctx.par([(p, 0) for p in PATTERNS], one)


SIZES = [(1, 1, 1, 1), (2, 3, 1, 1), (1, 2, 2, 1), (2, 1, 1, 3), (3, 2, 2, 2), (2, 2, 3, 2), (1, 4, 1, 1), (4, 1, 1, 1)]
KINDS = [('single', 'V'), ('single', 'H'), ('dual', 'VH'), ('dual', 'cross')]


def _seq(w, v):
    return w.E.iterate(v, w.st)


@prop('A02')
def arrays(ctx):
    def one(ctx, nr, nc, pr, pc, pol, kind):
        pat = PATTERNS[(nr + 2 * nc + KINDS.index((pol, kind))) % 4]
        tag = '%dx%d of %dx%d %s/%s' % (pr, pc, nr, nc, pol, kind)
        w = World()
        ctx.engine(w.E)
        E, st = w.E, w.st
        ev, eh, pv, ph, fc = [w.sym(n, 0) for n in ('ev', 'eh', 'pv', 'ph', 'fc')]
        w.E.tf.notnone.update((ev, eh, pv, ph))
        # spacings accepted by the constructor
        st.assume('a', gt0(sub(ph, mul(num(nc - 1), eh))))
        st.assume('a', gt0(sub(pv, mul(num(nr - 1), ev))))
        st.assume('a', gt0(sub(ph, num(Fraction(nc - 1, 2)))))
        st.assume('a', gt0(sub(pv, num(Fraction(nr - 1, 2)))))
        kw = dict(polarization=const(pol), polarization_type=const(kind), antenna_pattern=const(pat),
                  carrier_frequency=fc)
        lam = div(num(299792458), fc)
        forms = [('PanelArray', dict(num_rows_per_panel=num(nr), num_cols_per_panel=num(nc), num_rows=num(pr),
                                     num_cols=num(pc), panel_vertical_spacing=pv, panel_horizontal_spacing=ph,
                                     element_vertical_spacing=ev, element_horizontal_spacing=eh), (ev, eh, pv, ph)),
                 ('PanelArray:defaults', dict(num_rows_per_panel=num(nr), num_cols_per_panel=num(nc),
                                              num_rows=num(pr), num_cols=num(pc)), None)]
        names = ('element_vertical_spacing', 'element_horizontal_spacing', 'panel_vertical_spacing',
                 'panel_horizontal_spacing')
        for given in ((1, 1, 0, 0), (0, 0, 1, 1), (1, 0, 0, 1), (0, 1, 1, 0)):
            half = num(Fraction(1, 2))
            v, h = ev if given[0] else half, eh if given[1] else half
            sp = (v, h, pv if given[2] else add(mul(num(nr - 1), v), half), ph if given[3] else add(mul(num(nc - 1), h), half))
            forms.append(('PanelArray:given%d%d%d%d' % given, dict(
                num_rows_per_panel=num(nr), num_cols_per_panel=num(nc), num_rows=num(pr), num_cols=num(pc),
                **{k: x for k, x, y in zip(names, (ev, eh, pv, ph), given) if y}), sp))
        if (pr, pc) == (1, 1):
            forms.append(('AntennaArray', dict(num_rows=num(nr), num_cols=num(nc), vertical_spacing=ev,
                                               horizontal_spacing=eh), (ev, eh, ONE, ONE)))
            forms.append(('AntennaArray:defaults', dict(num_rows=num(nr), num_cols=num(nc)), None))
        if (nr, nc, pr, pc) == (1, 1, 1, 1):
            forms.append(('Antenna', {}, None))
        if (pr, pc) == (1, 1):
            p = E.new(st, 'AntennaPanel', num(nr), num(nc), const(pol), ev, eh)
            ref = E.run(w.spec('antenna', 'panel'), num(nr), num(nc), const(pol), ev, eh, st=st)
            ctx.same([('AntennaPanel %s.ant_pos' % tag, E.getattr(p, 'ant_pos', st), E.term(ref, st))] + [
                ('AntennaPanel %s.%s' % (tag, n), E.term(E.getattr(p, n, st), st), v) for n, v in (
                    ('num_rows', num(nr)), ('num_cols', num(nc)), ('vertical_spacing', ev), ('horizontal_spacing', eh))])
        for form, extra, sp in forms:
            if sp is None:
                h = num(Fraction(1, 2))
                sp = (h, h, num(Fraction(nr, 2)), num(Fraction(nc, 2)))
            name = '%s %s' % (form, tag)
            a = E.new(st, form.split(':')[0], **kw, **extra)
            if a is None:
                ctx.fail(name, 'antenna.py', 'constructor rejects a valid array')
                continue
            g = lambda n: E.getattr(a, n, st)
            ref = _seq(w, E.run(w.spec('antenna', 'array'), num(nr), num(nc), const(pol), num(pr), num(pc), *sp, lam, st=st))
            n = nr * nc * pr * pc * (2 if pol == 'dual' else 1)
            out = [(name + '.ant_pos', g('ant_pos'), ref[0]), (name + '.ant_ind_pol1', g('ant_ind_pol1'), ref[1]),
                   (name + '.num_ant', g('num_ant'), num(n))]
            out += [('%s.%s' % (name, k), g(k), fc if of else lam) for k, of in w.carrier_names()]
            sl = _seq(w, E.run(w.spec('antenna', 'slants'), const(pol), const(kind), st=st))
            els = ['ant_pol1'] + (['ant_pol2'] if pol == 'dual' else [])
            pts, i1, i2 = [_seq(w, x) for x in ref]
            at = lambda idx: E.term(E.new_list(st, [pts[int(i.args[0])] for i in idx]), st)
            out.append((name + '.ant_pos_pol1', g('ant_pos_pol1'), at(i1)))
            if pol == 'dual':
                out += [(name + '.ant_ind_pol2', g('ant_ind_pol2'), ref[2]),
                        (name + '.ant_pos_pol2', g('ant_pos_pol2'), at(i2))]
            asked = dict(num_rows=num(pr), num_cols=num(pc), num_rows_per_panel=num(nr), num_cols_per_panel=num(nc),
                         num_panels=num(pr * pc), num_panels_ant=num(n // (pr * pc)), element_vertical_spacing=sp[0],
                         element_horizontal_spacing=sp[1], polarization=const(pol), polarization_type=const(kind))
            if form.startswith('PanelArray'):
                asked.update(panel_vertical_spacing=sp[2], panel_horizontal_spacing=sp[3])
            out += [('%s.%s' % (name, k), g(k), v) for k, v in asked.items()]
            th, ph2 = w.sym('theta', 0), w.sym('phi', 0)
            for e, x in zip(els, sl):
                f = _seq(w, E.method(st, g(e), 'field', th, ph2))
                r = _seq(w, E.run(w.spec('antenna', 'field'), const(pat), x, th, ph2, st=st))
                out += [('%s.%s.field.%s' % (name, e, q), x1, x2) for q, x1, x2 in zip(('theta', 'phi'), f, r)]
            ctx.same([(n_, E.term(x, st), E.term(y, st)) for n_, x, y in out])
    ctx.par([z + k for z in SIZES for k in KINDS], one)

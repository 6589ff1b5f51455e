"""Check that objects are independent: results of one never depend on another one existing, being updated or called."""
from . import prop
from engine.terms import *
from engine.world import World, SCEN, PUBLIC, TOPO_ARGS, s
from .scenario import band, BASE_PARAMS
from .smallscale import LSP_NAMES, RAY_NAMES

B_S, B_KA = ('downlink', 'S'), ('uplink', 'Ka')


class Sim:
    """several scenarios (with their samplers) in one world"""
    def __init__(self, ctx):
        self.w = World()
        ctx.engine(self.w.E)
        self.sc, self.gen, self.topo = {}, {}, {}

    def facts(self, x, b):
        lo, hi = {'S': (1900000000, 4000000000), 'Ka': (19000000000, 40000000000)}[b]
        fc = s('fc_' + x, 0)
        return ((gt0(sub(num(lo), fc)), False), (gt0(sub(fc, num(hi))), False))

    def build(self, x, cls, direction, b):
        w = self.w
        w.st.counters = {}
        for c, v in self.facts(x, b):
            w.st.assume('a', c if v else bnot(c))
        fc, el = s('fc_' + x, 0), s('elevation_' + x, 0)
        ua, ba = w.array('ut_array_' + x), w.array('bs_array_' + x)
        self.sc[x] = w.E.new(w.st, cls, fc, ua, ba, direction=const(direction), elevation_angle=el)
        self.gen[x] = [w.E.new(w.st, g, self.sc[x]) for g in ('LSPGenerator', 'RaysGenerator')]

    def update(self, x, only=None, suffix=''):
        w = self.w
        w.st.counters = {}
        kw = {n: s('%s_%s%s' % (n, x, suffix), r) for n, r in TOPO_ARGS if only is None or n in only}
        for n in kw:
            if n == 'in_state':
                from engine import terms as tm
                tm.BOOLEAN.add(kw[n])
        w.E.method(w.st, self.sc[x], 'set_topology', **kw)

    def values(self, x):
        w = self.w
        n = len(w.st.effects)
        out = [(n_, w.E.getattr(self.sc[x], n_, w.st)) for n_, _ in PUBLIC]
        out += [('get_param(%s)' % p, w.E.method(w.st, self.sc[x], 'get_param', const(p))) for p in BASE_PARAMS[::4]]
        del w.st.effects[n:]
        return out

    def sample(self, x):
        """one draw of large-scale parameters and rays"""
        w = self.w
        E, st = w.E, w.st
        w.abstract(self.sc[x], prefix='scenario_%s.' % x)
        for g in self.gen[x]:
            E.method(st, g, 'topology_updated_callback')
        st.counters = {}
        lsp = E.run(self.gen[x][0], st=st)
        out = [('lsp.' + n, E.getattr(lsp, n, st)) for n in LSP_NAMES]
        v = {n: s('lsp_%s.%s' % (x, n), ('B', 'NB', 'NU')) for n in LSP_NAMES}
        st.counters = {}
        r = E.run(self.gen[x][1], E.new(st, 'LSP', **v), st=st)
        return out + [('rays.' + n, E.getattr(r, n, st)) for n in RAY_NAMES]


def same(ctx, pre, got, want):
    for (n, a), (m, b) in zip(got, want):
        if a is b:
            ctx.ok(pre + n)
        else:
            ctx.same([(pre + n, a, b)])


@prop('I01')
def isolation(ctx):
    def one(ctx, ca, cb):
        nm = '%s+%s.' % (ca, cb)
        both = Sim(ctx)
        both.build('a', ca, *B_S)
        both.update('a')
        before = both.values('a')
        both.build('b', cb, *B_KA)
        both.update('b')
        same(ctx, nm + 'first after second: ', both.values('a'), before)
        alone = Sim(ctx)
        alone.build('b', cb, *B_KA)
        alone.update('b')
        ctx.facts = both.facts('b', 'Ka')
        same(ctx, nm + 'second after first: ', both.values('b'), alone.values('b'))
        # the first one goes on after the second one was used
        solo = Sim(ctx)
        solo.build('a', ca, *B_S)
        solo.update('a')
        for x in (both, solo):
            x.update('a', ('ut_loc',), '2')
        ctx.facts = both.facts('a', 'S')
        same(ctx, nm + 'first updated after second: ', both.values('a'), solo.values('a'))
        sa, sb = both.sample('a'), both.sample('b')
        same(ctx, nm + 'samples of first: ', sa, solo.sample('a'))
        ctx.facts = both.facts('b', 'Ka')
        same(ctx, nm + 'samples of second: ', sb, alone.sample('b'))

    def arrays(ctx):
        names = ('num_ant', 'ant_pos', 'lambda_0', 'ant_pos_pol1', 'ant_pos_pol2', 'ant_ind_pol1', 'ant_ind_pol2')

        def make(w, x, n, pol, typ):
            return w.E.new(w.st, 'PanelArray', num(n), num(n + 1), const(pol), const(typ), const('38.901'),
                           w.sym('fc_' + x, 0))

        def vals(w, a, dual):
            E, st = w.E, w.st
            out = [(n, E.getattr(a, n, st)) for n in names if dual or 'pol2' not in n]
            th, ph = w.sym('theta', ('P',)), w.sym('phi', ('P',))
            for e in ('ant_pol1', 'ant_pol2')[:1 + dual]:
                f = E.iterate(E.method(st, E.getattr(a, e, st), 'field', th, ph), st)
                out += [('%s.field%d' % (e, i), y) for i, y in enumerate(f)]
            return out
        for (p1, t1), (p2, t2) in ((('single', 'H'), ('dual', 'cross')), (('dual', 'VH'), ('single', 'V')),
                                   (('dual', 'cross'), ('dual', 'VH'))):
            w, alone = World(), World()
            ctx.engine(w.E)
            ctx.engine(alone.E)
            a = make(w, 'a', 2, p1, t1)
            x = vals(w, a, p1 == 'dual')
            b = make(w, 'b', 3, p2, t2)
            nm = '%s%s+%s%s.' % (p1, t1, p2, t2)
            same(ctx, nm + 'first after second: ', vals(w, a, p1 == 'dual'), x)
            same(ctx, nm + 'second after first: ', vals(w, b, p2 == 'dual'),
                 vals(alone, make(alone, 'b', 3, p2, t2), p2 == 'dual'))
    ctx.par([(one, a, b) for a in SCEN for b in SCEN] + [(arrays,)], lambda ctx, f, *a: f(ctx, *a))

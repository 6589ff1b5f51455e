"""Checks of large- and small-scale parameter generation (steps 4 to 9)."""
from . import prop
from engine.terms import *
from engine.world import World, SCEN, s
from .scenario import built, get, call, band, each, table_args, FC

LSP_NAMES = ('ds', 'asd', 'asa', 'sf', 'k_factor', 'zsa', 'zsd')


def abstracted(ctx, fn, **kw):
    """fn(ctx, world, class, direction, prefix, table arguments): public topology results are arbitrary"""
    def one(ctx, w, cls, d, b):
        w.abstract()
        fn(ctx, w, cls, d, '%s.%s.%s.' % (cls, d, b), table_args(cls, d))
    each(ctx, one, **kw)


@prop('L01')
def lsp_sampling(ctx):
    def one(ctx, w, cls, d, nm, a):
        E, st = w.E, w.st
        g = E.new(st, 'LSPGenerator', w.sc)
        E.method(st, g, 'topology_updated_callback')
        st.counters = {}
        lsp = E.run(g, st=st)
        los, dist, m, sd, ind = get(w, 'los', 'matrix_ut_distance_2d', 'lsp_log_mean', 'lsp_log_std', 'indoor')
        sp = call(w, 'largescale', 'sample', *a, los, ind, dist, m, sd)
        sp = E.iterate(sp, st)
        ctx.same([(nm + n, E.getattr(lsp, n, st), x) for n, x in zip(LSP_NAMES, sp)])
    abstracted(ctx, one)


RAY_NAMES = ('delays', 'powers', 'aoa', 'aod', 'zoa', 'zod', 'xpr')


def ray_outputs(ctx, pick, **kw):
    def one(ctx, w, cls, d, nm, a):
        E, st = w.E, w.st
        g = E.new(st, 'RaysGenerator', w.sc)
        E.method(st, g, 'topology_updated_callback')
        v = {n: s('lsp.' + n, ('B', 'NB', 'NU')) for n in LSP_NAMES}
        lsp = E.new(st, 'LSP', **v)
        st.counters = {}
        r = E.run(g, lsp, st=st)
        x = get(w, 'los', 'indoor', 'bs_loc', 'los_aod', 'los_aoa', 'los_zod', 'los_zoa', 'zod_offset',
                'lsp_log_mean')
        sp = call(w, 'smallscale', 'generate', *a, *x, v['ds'], v['asd'], v['asa'], v['k_factor'], v['zsa'],
                  v['zsd'])
        sp = E.iterate(sp, st)
        ctx.same([(nm + n, E.getattr(r, n, st), y) for n, y in zip(RAY_NAMES, sp) if n in pick])
    abstracted(ctx, one, **kw)


@prop('R01')
def cluster_delays(ctx):
    ray_outputs(ctx, ('delays',))


@prop('R02')
def cluster_powers(ctx):
    ray_outputs(ctx, ('delays', 'powers'))


@prop('R03')
def arrival_departure_angles(ctx):
    ray_outputs(ctx, ('aoa', 'aod', 'zoa', 'zod'))


@prop('R04')
def xpr(ctx):
    ray_outputs(ctx, ('xpr',))

"""Checks of the channel coefficient generation (steps 10 and 11)."""
from . import prop
from engine.terms import *
from engine.pw import ix
from engine.world import World, s
from .scenario import call, FC

RY = ('B', 'TX', 'RX', 'C', 'M')
L = ('B', 'TX', 'RX')


def record(w, **kw):
    return w.E.run(w.spec('stubs', 'Record'), st=w.st, **kw)


def setup(ctx, polt, polr, split, moving, sat=True, dop=True, big=False):
    w = World()
    ctx.engine(w.E)
    E, st = w.E, w.st
    ind = dict(tx=((1, 3), (0, 2)), rx=((0, 1), (2, 3))) if big else dict(tx=((1,), (0,)), rx=((0,), (1,)))
    tx, rx = [w.array(n + '_array', p, pol1=ind[n][0], pol2=ind[n][1]) for n, p in (('tx', polt), ('rx', polr))]
    cc = E.new(st, 'ChannelCoefficientsGenerator', FC, tx, rx, const(split))
    ry = RY[:4] + (20,)
    rv = {n: s('rays.' + n, ry[:r]) for n, r in dict(delays=4, powers=4, aoa=5, aod=5, zoa=5, zod=5, xpr=5).items()}
    rays = E.new(st, 'Rays', **rv)
    end = 'RX' if moving == 'rx' else 'TX'
    top = dict(velocities=('B', end, 3), los_aoa=L, los_aod=L, los_zoa=L, los_zod=L, los=L, distance_3d=L,
               tx_orientations=('B', 'TX', 3), rx_orientations=('B', 'RX', 3), bs_height=(1,), elevation_angle=0,
               doppler_enabled=0)
    tv = {n: s('topology.' + n, r) for n, r in top.items()}
    facts = ((gt0(sub(num(600000), mk('at', tv['bs_height'], num(0)))), not sat),
             (mk('truthy', tv['doppler_enabled']), dop))
    for c, v in facts:
        st.assume('a', c if v else bnot(c))
    ctx.facts = facts
    topo = E.new(st, 'Topology', moving_end=const(moving), **tv)
    st.counters = {}
    a = dict(num=w.sym('num_time_samples', 0), fs=w.sym('fs', 0), k=s('k_factor', L), c_ds=s('c_ds', L))
    h, tau = E.iterate(E.run(cc, a['num'], a['fs'], a['k'], rays, topo, a['c_ds'], st=st), st)
    hs, ts = E.iterate(call(w, 'coefficients', 'coefficients', tx, rx, FC, const(split), a['num'], a['fs'], a['k'],
                            record(w, **rv), record(w, moving_end=const(moving), satellite=const(sat), **tv), a['c_ds']), st)
    return w, topo, tv, (h, tau), (hs, ts)


CASES = (('single', 'single'), ('dual', 'dual'), ('single', 'dual'), ('dual', 'single'))


@prop('C01')
def coefficients(ctx):
    def one(ctx, polt, polr, split, moving, sat, dop):
        w, topo, tv, c, sp = setup(ctx, polt, polr, split, moving, sat, dop, ctx.tier == 'thorough' and not split)
        f = ctx.facts
        for los in (True, False):
            ctx.facts = f + ((mk('truthy', mk('at', tv['los'], *[ix(i) for i in range(3)])), los),)
            nm = '%s-%s.%s.%s moves.%s%s.%s.' % (polt, polr, 'split' if split else 'plain', moving,
                                               'sat' if sat else 'low', '+doppler' if dop else '',
                                               'los' if los else 'nlos')
            ctx.same([(nm + 'delays', c[1], sp[1]), (nm + 'h', c[0], sp[0])])
    alls = [(a, b, split, m, sat, dop) for a, b in CASES for split in (True, False) for m in ('rx', 'tx')
            for sat, dop in ((True, True), (True, False), (False, True))]
    quick = [c for c in alls if c[:2] == CASES[0]] + [
        ('dual', 'dual', True, 'rx', True, True), ('dual', 'dual', False, 'tx', True, False),
        ('single', 'dual', False, 'rx', False, True), ('dual', 'single', False, 'rx', True, True)]
    ctx.par(alls if ctx.tier == 'thorough' else quick, one)

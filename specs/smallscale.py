"""Reference small-scale parameters: clusters, powers, angles, XPR, random coupling (steps 5 to 9)."""
import math
import tensorflow as tf
from sionna.phy.channel.utils import deg_2_rad, wrap_angle_0_360
from specs.tables import entry, param

NUM_RAYS = 20
# TR 38.901 Table 7.5-3
OFFSETS = [0.0447, -0.0447, 0.1413, -0.1413, 0.2492, -0.2492, 0.3715, -0.3715, 0.5129, -0.5129,
           0.6797, -0.6797, 0.8844, -0.8844, 1.1481, -1.1481, 1.5195, -1.5195, 2.1551, -2.1551]


def log10(x):
    return tf.math.log(x) / tf.math.log(10.)


def x4(t):
    return t[:, :, :, None]


def x5(t):
    return t[:, :, :, None, None]


def num_clusters(cls, direction, fc, elevation):
    l = entry(cls, 'LOS', direction, fc, elevation, 'numClusters')
    n = entry(cls, 'NLOS', direction, fc, elevation, 'numClusters')
    return l, n, tf.maximum(l, n)


def cluster_off(l, n, c, los, in_state):
    """1 for the clusters a link does not have"""
    def tail(k):
        return tf.concat([tf.zeros([k]), tf.ones([c - k])], axis=0)
    ind = tf.broadcast_to(in_state[:, None, :], tf.shape(los))
    m = tf.where(x4(los), tail(l), tail(n))
    e = tf.where(x4(los), tail(l), 0. * tail(n))
    return tf.where(x4(ind), e + tf.ones([c]), m)


def dims(los):
    s = tf.shape(los)
    return s[0], s[1], s[2]


def delays(a, los, off, c, ds, k):
    """(delays used for the channel, delays used for the cluster powers)"""
    b, nb, nu = dims(los)
    r = x4(param(*a, los, 'rTau'))
    u = tf.random.uniform([b, nb, nu, c], 1e-6, 1.)
    t = -r * x4(ds) * tf.math.log(u)
    t = t * (1. - off) + off
    t = tf.sort(t - tf.reduce_min(t, axis=3, keepdims=True), axis=3)
    kd = 10. * log10(k)
    s = 0.7705 - 0.0433 * kd + 0.0002 * kd ** 2 + 0.000017 * kd ** 3
    return tf.where(x4(los), t / x4(s), t), t


def powers(a, los, off, c, ds, k, t):
    """(normalised cluster powers, powers including the LoS ray for the angles)"""
    b, nb, nu = dims(los)
    r = x4(param(*a, los, 'rTau'))
    z = tf.random.normal([b, nb, nu, c], 0., x4(param(*a, los, 'zeta')))
    p = tf.exp(-t * (r - 1.) / (r * x4(ds))) * 10. ** (-z / 10.)
    p = p * (1. - off)
    p = p / tf.reduce_sum(p, axis=3, keepdims=True)
    kk = x4(k)
    first = p[:, :, :, :1] / (kk + 1.) + kk / (kk + 1.)
    rest = p[:, :, :, 1:] / (kk + 1.)
    return p, tf.where(x4(los), tf.concat([first, rest], axis=3), p)


def signs(los, c):
    b, nb, nu = dims(los)
    return 2. * tf.cast(tf.random.uniform([b, nb, 1, c], 0, 2, dtype=tf.int32), tf.float32) - 1.


def relative(p):
    return tf.clip_by_value(p / tf.reduce_max(p, axis=3, keepdims=True), 1e-6, 1.)


def rays(centre, spread):
    return centre[:, :, :, :, None] + x5(spread) * tf.constant(OFFSETS)


def azimuth(a, los, c, spread, k, p, direct, cluster_spread):
    b, nb, nu = dims(los)
    kd = 10. * log10(k)
    cn = param(*a, los, 'CPhiNLoS')
    cl = cn * (1.1035 - 0.028 * kd - 0.002 * kd ** 2 + 0.0001 * kd ** 3)
    cphi = x4(tf.where(los, cl, cn))
    phi = 2. * (x4(spread) / 1.4) * tf.sqrt(-tf.math.log(relative(p))) / cphi
    sg = signs(los, c)
    y = tf.random.normal([b, nb, nu, c], 0., x4(spread) / 7.)
    phi = sg * phi + y
    phi = phi - tf.where(x4(los), phi[:, :, :, :1], 0. * phi[:, :, :, :1]) + x4(direct)
    phi = wrap_angle_0_360(rays(phi, cluster_spread))
    return tf.where(phi > 180., phi - 360., phi)


def zenith(a, los, in_state, c, spread, k, p, direct, cluster_spread, offset, arrival):
    b, nb, nu = dims(los)
    ind = in_state[:, None, :]
    kd = 10. * log10(k)
    cn = param(*a, los, 'CThetaNLoS')
    cl = cn * (1.3086 + 0.0339 * kd - 0.0077 * kd ** 2 + 0.0002 * kd ** 3)
    ctheta = x4(tf.where(los & ~ind, cl, cn))
    th = -x4(spread) * tf.math.log(relative(p)) / ctheta
    sg = signs(los, c)
    y = tf.random.normal([b, nb, nu, c], 0., x4(spread) / 7.)
    th = sg * th + y
    d = x4(direct)
    if arrival:
        # an indoor terminal receives from the horizontal direction
        shift = tf.where(x4(ind & ~(los & ~ind)), 90., d)
    else:
        shift = d + x4(offset)
    shift = tf.where(x4(los & ~ind), d - th[:, :, :, :1], shift)
    th = wrap_angle_0_360(rays(th + shift, cluster_spread))
    return tf.where(th > 180., 360. - th, th)


def coupled(x, los, c):
    """random permutation of the rays inside each cluster"""
    b, nb, nu = dims(los)
    i = tf.argsort(tf.random.normal([b, nb, 1, c, NUM_RAYS]))
    i = tf.tile(i, [1, 1, nu, 1, 1])
    return deg_2_rad(tf.gather(x, i, batch_dims=4))


def generate(cls, direction, fc, elevation, los, in_state, bs_loc, aod, aoa, zod, zoa, offset, mean,
             ds, asd, asa, k, zsa, zsd):
    a = (cls, direction, fc, elevation)
    l, n, c = num_clusters(*a)
    off = cluster_off(l, n, c, los, in_state)
    tau, t = delays(a, los, off, c, ds, k)
    p, pa = powers(a, los, off, c, ds, k, t)
    # no departure spread at satellites
    if bs_loc[0, 0, 2] >= 160000.:
        asd, zsd = tf.zeros_like(asd), tf.zeros_like(zsd)
    aoa = azimuth(a, los, c, asa, k, pa, aoa, param(*a, los, 'cASA'))
    aod = azimuth(a, los, c, asd, k, pa, aod, param(*a, los, 'cASD'))
    zoa = zenith(a, los, in_state, c, zsa, k, pa, zoa, param(*a, los, 'cZSA'), offset, True)
    zod = zenith(a, los, in_state, c, zsd, k, pa, zod, 3. / 8. * 10. ** mean[:, :, :, 6], offset, False)
    b, nb, nu = dims(los)
    x = tf.random.normal([b, nb, nu, c, NUM_RAYS], x5(param(*a, los, 'muXPR')), x5(param(*a, los, 'sigmaXPR')))
    return tau, p, coupled(aoa, los, c), coupled(aod, los, c), coupled(zoa, los, c), coupled(zod, los, c), \
        10. ** (x / 10.)

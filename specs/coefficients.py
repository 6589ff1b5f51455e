"""Reference channel coefficients (TR 38.901 steps 10 and 11 with the TR 38.811 extensions)."""
import tensorflow as tf
from sionna.phy.constants import PI, SPEED_OF_LIGHT

SUB_CLUSTERS = ([0, 1, 2, 3, 4, 5, 6, 7, 18, 19], [8, 9, 10, 11, 16, 17], [12, 13, 14, 15])
SUB_DELAYS = [0., 1.28, 2.56]
EARTH_RADIUS = 6371000.
SATELLITE = 600000.


def cexp(x):
    return tf.exp(tf.complex(tf.zeros_like(x), x))


def real(x):
    return tf.complex(x, tf.zeros_like(x))


def rotation(o):
    """columns of the rotation from the local to the global frame, as three lists of rows"""
    a, b, c = o[..., 0], o[..., 1], o[..., 2]
    ca, sa, cb, sb, cc, sc = tf.cos(a), tf.sin(a), tf.cos(b), tf.sin(b), tf.cos(c), tf.sin(c)
    return ((ca * cb, ca * sb * sc - sa * cc, ca * sb * cc + sa * sc),
            (sa * cb, sa * sb * sc + ca * cc, sa * sb * cc - ca * sc),
            (-sb, cb * sc, cb * cc))


def direction(theta, phi):
    return tf.sin(theta) * tf.cos(phi), tf.sin(theta) * tf.sin(phi), tf.cos(theta)


def local_angles(o, theta, phi):
    r = rotation(o)
    d = direction(theta, phi)
    x, y, z = [r[0][i] * d[0] + r[1][i] * d[1] + r[2][i] * d[2] for i in range(3)]
    return tf.acos(tf.clip_by_value(z, -1., 1.)), tf.math.angle(tf.complex(x, y))


def psi(o, theta, phi):
    a, b, c = o[..., 0], o[..., 1], o[..., 2]
    re = tf.sin(c) * tf.cos(theta) * tf.sin(phi - a) + tf.cos(c) * (
        tf.cos(b) * tf.sin(theta) - tf.sin(b) * tf.cos(theta) * tf.cos(phi - a))
    im = tf.sin(c) * tf.cos(phi - a) + tf.sin(b) * tf.cos(c) * tf.sin(phi - a)
    return tf.math.angle(tf.complex(re, im))


def element_field(el, o, theta, phi):
    t, p = local_angles(o, theta, phi)
    ft, fp = el.field(t, p)
    s = psi(o, theta, phi)
    return tf.cos(s) * ft - tf.sin(s) * fp, tf.sin(s) * ft + tf.cos(s) * fp


def array_field(arr, o, theta, phi):
    """field components of every antenna of the array: [..., antenna]"""
    t1, p1 = element_field(arr.ant_pol1, o, theta, phi)
    if arr.polarization == 'single':
        return t1[..., None], p1[..., None]
    t2, p2 = element_field(arr.ant_pol2, o, theta, phi)
    second = list(arr.second)
    return tf.stack([t2 if x else t1 for x in second], axis=-1), tf.stack([p2 if x else p1 for x in second], axis=-1)


def steering(arr, o, theta, phi, lam):
    """phase (radian) of every antenna for a plane wave: [..., antenna]"""
    r = rotation(o)
    d = direction(theta, phi)
    p = arr.ant_pos
    out = 0.
    for g in range(3):
        pos = r[g][0][..., None] * p[:, 0] + r[g][1][..., None] * p[:, 1] + r[g][2][..., None] * p[:, 2]
        out = out + d[g][..., None] * pos
    return 2. * PI / lam * out


def per_tx(x):
    return x[:, :, None, None, None]


def per_rx(x):
    return x[:, None, :, None, None]


def response(tx, rx, tx_or, rx_or, aoa, aod, zoa, zod, pol, lam):
    """array response for polarisation transfer pol = ((tt, tp), (pt, pp)): [B,TX,RX,C,M,rx ant,tx ant]"""
    to, ro = per_tx(tx_or), per_rx(rx_or)
    tt, tp = array_field(tx, to, zod, aod)
    rt, rp = array_field(rx, ro, zoa, aoa)
    h = 0.
    for i, fr in enumerate((rt, rp)):
        for j, ft in enumerate((tt, tp)):
            g = real(fr)[..., :, None] * real(ft)[..., None, :]
            h = h + g * pol[i][j][..., None, None]
    ph = steering(rx, ro, zoa, aoa, lam)[..., :, None] + steering(tx, to, zod, aod, lam)[..., None, :]
    return h * cexp(ph)


def faraday(pol, fc):
    """rotation of the transmitted polarisation in the ionosphere"""
    g = fc / 1e9
    w = 108. / g ** 2 * PI / 180.
    c, s = tf.complex(tf.cos(w), 0.), tf.complex(tf.sin(w), 0.)
    return [[pol[i][0] * c + pol[i][1] * s, pol[i][1] * c - pol[i][0] * s] for i in range(2)]


def doppler(top, speed, aoa, aod, zoa, zod, t, lam):
    """rotation over time [B,TX,RX,C,M,T]: moving terminal and, for satellites, the satellite"""
    v = top.velocities
    if top.moving_end == 'rx':
        d = direction(zoa, aoa)
        v = v[:, None, :, None, None, :]
    else:
        d = direction(zod, aod)
        v = v[:, :, None, None, None, :]
    x = 2. * PI / lam * (d[0] * v[..., 0] + d[1] * v[..., 1] + d[2] * v[..., 2])
    x = x[..., None] * t
    if top.satellite and top.doppler_enabled:
        x = x + (2. * PI / lam * speed)[:, None, None, None, None, None] * t
    return cexp(x)


def nlos(tx, rx, fc, rays, top, speed, t, lam):
    """coefficients of every ray [B,TX,RX,C,M,rx ant,tx ant,T]"""
    ph = tf.random.uniform(tf.concat([tf.shape(rays.aoa), [4]], axis=0), -PI, PI)
    k = real(tf.sqrt(1. / rays.xpr))
    pol = [[cexp(ph[..., 0]), k * cexp(ph[..., 1])], [k * cexp(ph[..., 2]), cexp(ph[..., 3])]]
    if top.satellite:
        pol = faraday(pol, fc)
    h = response(tx, rx, top.tx_orientations, top.rx_orientations, rays.aoa, rays.aod, rays.zoa, rays.zod, pol, lam)
    d = doppler(top, speed, rays.aoa, rays.aod, rays.zoa, rays.zod, t, lam)
    h = h[..., None] * d[..., None, None, :]
    m = tf.cast(tf.shape(rays.aoa)[4], tf.float32)
    return h * real(tf.sqrt(rays.powers / m))[:, :, :, :, None, None, None, None]


def los(tx, rx, fc, top, speed, t, lam):
    a = [x[:, :, :, None, None] for x in (top.los_aoa, top.los_aod, top.los_zoa, top.los_zod)]
    one = tf.complex(1., 0.) * tf.ones([1, 1, 1, 1, 1])
    pol = [[one, 0. * one], [0. * one, -one]]
    if top.satellite:
        pol = faraday(pol, fc)
    h = response(tx, rx, top.tx_orientations, top.rx_orientations, *a, pol, lam)[..., None]
    h = h * doppler(top, speed, *a, t, lam)[..., None, None, :]
    d = cexp(2. * PI * top.distance_3d / lam)
    return h[:, :, :, :, 0] * d[:, :, :, None, None, None, None]


def clusters(h, rays, c_ds, split):
    """sum over the rays; the two strongest clusters are split in three sub-clusters; paths sorted by delay"""
    tau = rays.delays
    if split:
        order = tf.argsort(rays.powers, axis=-1, direction='DESCENDING')
        tau = tf.gather(tau, order, batch_dims=3, axis=3)
        h = tf.gather(h, order, batch_dims=3, axis=3)
        hs, ts = [], []
        for rays_, off in zip(SUB_CLUSTERS, SUB_DELAYS):
            hs.append(tf.reduce_sum(tf.gather(h[:, :, :, :2], rays_, axis=4), axis=4))
            ts.append(tau[..., :2] + off * c_ds[..., None])
        hs.append(tf.reduce_sum(h[:, :, :, 2:], axis=4))
        ts.append(tau[..., 2:])
        h, tau = tf.concat(hs, axis=3), tf.concat(ts, axis=3)
    else:
        h = tf.reduce_sum(h, axis=4)
    order = tf.argsort(tau, axis=-1, direction='ASCENDING')
    return tf.gather(h, order, batch_dims=3, axis=3), tf.gather(tau, order, batch_dims=3, axis=3)


def coefficients(tx, rx, fc, split, num_samples, fs, k, rays, top, c_ds):
    lam = SPEED_OF_LIGHT / fc
    t = tf.range(num_samples, dtype=tf.float32) / fs
    speed = radial_speed(top.los_aoa, top.bs_height, top.elevation_angle)
    hn, tau = clusters(nlos(tx, rx, fc, rays, top, speed, t, lam), rays, c_ds, split)
    hl = los(tx, rx, fc, top, speed, t, lam)
    k = k[:, :, :, None, None, None, None]
    s = real(tf.sqrt(1. / (k + 1.)))
    first = hl * real(tf.sqrt(k / (k + 1.))) + hn[:, :, :, :1] * s
    h = tf.concat([first, hn[:, :, :, 1:] * s], axis=3)
    return tf.where(top.los[:, :, :, None, None, None, None], h, hn), tau


def satellite_speed(h):
    """circular orbit"""
    return tf.sqrt(6.6743e-11 * 5.972e24 / (EARTH_RADIUS + h))


def radial_speed(like, h, elevation):
    """satellite speed seen by the terminals of each batch example, random orbit heading"""
    u = tf.random.uniform([tf.shape(like)[0]], 0., 2. * PI)
    return tf.cos(u) * tf.cos(elevation * PI / 180.) * satellite_speed(h)

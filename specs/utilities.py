"""Reference definitions of the helper functions (topologies, time/frequency responses, correlation matrices)."""
import tensorflow as tf
import math


# ------------------------------------------------------------------ orbit
def satellite_speed(h):
    return tf.sqrt(6.6743e-11 * 5.972e24 / (6371000. + h))


def satellite_doppler(h, elevation, fc):
    shift = satellite_speed(h) / 299792458. * 6371000. / (6371000. + h) * tf.cos(elevation * math.pi / 180.) * fc
    return fc + shift


# ------------------------------------------------------------------ topology
DEFAULTS = {'dur': 200., 'urb': 500., 'sur': 5000.}


def defaults(scenario):
    """isd, satellite height, elevation, lowest and highest terminal, indoor share, lowest and highest speed"""
    return [DEFAULTS[scenario], 600000., 80., 1.5, 1.5, 0., 0., 0.]


def drop(b, n, h, elevation, isd):
    """square of side isd around a random centre seen at the elevation angle (flat ground)"""
    slant = h / tf.sin(elevation * math.pi / 180.)
    ground = tf.sqrt(slant**2 - h**2)
    x0 = tf.random.uniform([1], 0., ground)
    y0 = tf.sqrt(slant**2 - h**2 - x0**2)
    dx = tf.random.uniform([b, n], -isd / 2., isd / 2.)
    dy = tf.random.uniform([b, n], -isd / 2., isd / 2.)
    return tf.stack([x0 + dx, y0 + dy], axis=-1)


def rotate(x, sector, cell):
    a = sector * 2. * math.pi / 3.
    return tf.stack([tf.cos(a) * x[..., 0] - tf.sin(a) * x[..., 1],
                     tf.sin(a) * x[..., 0] + tf.cos(a) * x[..., 1]], axis=-1) + cell


def users(area, b, n, cell, h, elevation, isd, lo, hi, vlo, vhi):
    """terminals dropped around a cell centre, in its first sector or in a sector of their own"""
    xy = drop(b, n, h, elevation, isd)
    sector = 0. if area == 'sector' else tf.cast(tf.random.uniform([b, n], 0, 3, dtype=tf.int32), tf.float32)
    xy = rotate(xy, sector, cell)
    loc = tf.concat([xy, tf.random.uniform([b, n, 1], lo, hi)], axis=-1)
    ang = tf.random.uniform([b, n], -math.pi, math.pi)
    v = tf.random.uniform([b, n], vlo, vhi)
    vel = tf.stack([v * tf.cos(ang), v * tf.sin(ang), tf.zeros([b, n])], axis=-1)
    one = tf.ones([b, n])
    ori = tf.stack([tf.atan2(xy[:, :, 1], xy[:, :, 0]), one * (elevation + 180.) * math.pi / 180.,
                    one * (elevation + 90.) * math.pi / 180.], axis=-1)
    return [loc, ori, vel, tf.zeros([b, n], tf.bool)]


def topology(b, n, h, elevation, isd, lo, hi, vlo, vhi):
    """terminal positions, orientations, velocities, indoor states and the satellite above the origin"""
    xy = drop(b, n, h, elevation, isd)
    z = tf.random.uniform([b, n, 1], lo, hi)
    loc = tf.concat([xy, z], axis=-1)
    ang = tf.random.uniform([b, n], -math.pi, math.pi)
    v = tf.random.uniform([b, n], vlo, vhi)
    vel = tf.stack([v * tf.cos(ang), v * tf.sin(ang), tf.zeros([b, n])], axis=-1)
    one = tf.ones([b, n])
    ori = tf.stack([tf.atan2(xy[:, :, 1], xy[:, :, 0]), one * (elevation + 180.) * math.pi / 180.,
                    one * (elevation + 90.) * math.pi / 180.], axis=-1)
    z = tf.zeros([b, 1])
    sat = tf.stack([z, z, tf.fill([b, 1], h)], axis=-1)
    sat_ori = tf.stack([z, tf.fill([b, 1], math.pi / 2.), z], axis=-1)
    return [loc, sat, ori, sat_ori, vel, tf.zeros([b, n], tf.bool)]


# ------------------------------------------------------------------ responses
def subcarriers(n, spacing):
    """n equally spaced frequencies, the lowest at -floor(n/2) spacings"""
    return (tf.range(n) - n // 2) * spacing


def last_lag(w, spread):
    return tf.cast(tf.math.ceil(spread * w), tf.int32) + 6


def ofdm(f, a, tau, normalize):
    """a [B, NR, NA, NT, NB, P, T], tau [B, NR, NT, P] or [B, NR, NA, NT, NB, P]"""
    if len(tau.shape) == 4:
        tau = tau[:, :, None, :, None, :]
    h = tf.reduce_sum(a[..., None] * tf.exp(-2.j * math.pi * f * tau[..., None, None]), axis=-3)
    if normalize:
        c = tf.sqrt(tf.reduce_mean(tf.abs(h)**2, axis=[2, 4, 5, 6], keepdims=True))
        h = tf.math.divide_no_nan(h, c)
    return h


def taps(w, a, tau, lo, hi, normalize):
    if len(tau.shape) == 4:
        tau = tau[:, :, None, :, None, :]
    l = tf.range(lo, hi + 1)
    h = tf.reduce_sum(a[..., None] * tf.experimental.numpy.sinc(l - w * tau[..., None, None]), axis=-3)
    if normalize:
        c = tf.reduce_mean(tf.reduce_sum(tf.abs(h)**2, axis=6, keepdims=True), axis=[2, 4, 5], keepdims=True)
        h = tf.math.divide_no_nan(h, tf.sqrt(c))
    return h


# ------------------------------------------------------------------ correlation
def exponential(a, n):
    """R[i, j] = a^(i-j) below the diagonal, its conjugate above, one on the diagonal"""
    k = tf.range(n)
    d = k[:, None] - k[None, :]
    low = tf.pow(a[..., None, None], tf.abs(d))
    low = tf.where(tf.math.is_nan(tf.math.real(low)), 1., low)      # 0^0 = 1
    return tf.where(d >= 0, low, tf.math.conj(low))


def one_ring(phi, n, spacing, spread):
    k = tf.range(n)
    d = k[:, None] - k[None, :]
    m = tf.abs(d)
    p = (phi * math.pi / 180.)[..., None, None]
    s = spread * math.pi / 180.
    x = 2. * math.pi * spacing * m
    low = tf.exp(1.j * x * tf.sin(p)) * tf.exp(-0.5 * (s * x * tf.cos(p))**2)
    return tf.where(d >= 0, low, tf.math.conj(low))


def ofdm_of_taps(h, rg, l_min):
    """one response per OFDM symbol: DFT of the taps at the first sample after the cyclic prefix, tap l at lag
    l + l_min (circular), zero padded to the DFT size, lowest frequency first"""
    n, c = rg.fft_size, rg.cyclic_prefix_length
    x = h[..., c:rg.num_time_samples:n + c, :]
    s = tf.shape(x)
    x = tf.concat([x, tf.zeros(tf.concat([s[:-1], [n - s[-1]]], axis=0))], axis=-1)
    return tf.signal.fftshift(tf.signal.fft(tf.roll(x, l_min, axis=-1)), axes=-1)


class Grid:
    """what a resource grid offers to the helpers"""

    def __init__(self, fft_size, cyclic_prefix_length, num_time_samples):
        self.fft_size = fft_size
        self.cyclic_prefix_length = cyclic_prefix_length
        self.num_time_samples = num_time_samples


# ------------------------------------------------------------------ angles and random states
def radian(x):
    return x * math.pi / 180.


def degree(x):
    return x * 180. / math.pi


def wrapped(x):
    return x - 360. * tf.floor(x / 360.)


def bernoulli(shape, p):
    return tf.random.uniform(shape, 0., 1.) < p

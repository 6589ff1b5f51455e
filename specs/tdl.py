"""Reference definition of the tapped delay line models (taps of TR 38.811 table 6.9.2 and of the models with fixed delay
spread, sum of sinusoids, spatial correlation)."""
import tensorflow as tf
import math

# model: (specular power of the first tap in dB, powers of the Rayleigh taps in dB, delays, delay spread in seconds if fixed)
TAPS = {
    'A': (None, [0., -4.675, -6.482], [0., 1.0811, 2.8416], None),
    'B': (None, [0., -1.973, -4.332, -11.914], [0., 0.7249, 0.7410, 5.7392], None),
    'C': (-0.394, [-10.618, -23.373], [0., 14.8124], None),
    'D': (-0.284, [-11.991, -9.887, -16.771], [0., 0.5596, 7.3340], None),
    'A30': (None, [-15.5, 0., -5.1, -5.1, -9.6, -8.2, -13.1, -11.5, -11., -16.2, -16.6, -26.2],
            [0., 10., 15., 20., 25., 50., 65., 75., 105., 135., 150., 290.], 30e-9),
    'B100': (None, [0., -2.2, -0.6, -0.6, -0.3, -1.2, -5.9, -2.2, -0.8, -6.3, -7.5, -7.1],
             [0., 10., 20., 30., 35., 45., 55., 120., 170., 245., 330., 480.], 100e-9),
    'C300': (None, [-6.9, 0., -7.7, -2.5, -2.4, -9.9, -8., -6.6, -7.1, -13., -14.2, -16.],
             [0., 65., 70., 190., 195., 200., 240., 325., 520., 1045., 1510., 2595.], 300e-9),
}


def power(db):
    return 10. ** (db / 10.)


def taps(model, delay_spread):
    """specular power (None without line of sight), powers of the Rayleigh taps, delays in seconds"""
    los, db, delays, fixed = TAPS[model]
    total = sum([power(x) for x in db]) + (0. if los is None else power(los))
    scale = delay_spread if fixed is None else 1e-9
    return (None if los is None else power(los) / total, [power(x) / total for x in db], [x * scale for x in delays])


def spread(model, delay_spread):
    return delay_spread if TAPS[model][3] is None else TAPS[model][3]


def orbital(fc, height, elevation, kilo):
    """Doppler shift of a satellite on a circular orbit; `kilo`: the shipped expression, which divides a speed in km/s by the
    speed of light in km/h and takes the result for an angular frequency"""
    v = tf.sqrt(6.6743e-11 * 5.972e24 / (6371000. + height))
    x = v / 299792458. * 6371000. / (6371000. + height) * tf.cos(elevation * math.pi / 180.) * fc
    return x / 3600. if kilo else 2. * math.pi * x


def doppler(v, fc, height, elevation, kilo):
    return 2. * math.pi * v / 299792458. * fc + orbital(fc, height, elevation, kilo)


def response(model, delay_spread, fc, sinusoids, aoa, v_min, v_max, nr, nt, height, elevation, batch, steps, fs, kilo,
             corr, r_all, r_rx, r_tx):
    los, powers, delays = taps(model, delay_spread)
    n = len(powers)
    t = tf.range(steps) / fs
    f = tf.random.uniform([batch, 1, 1, 1, 1, 1, 1, 1], doppler(v_min, fc, height, elevation, kilo),
                          doppler(v_max, fc, height, elevation, kilo))
    theta = tf.random.uniform([batch, 1, 1, 1, 1, n, 1, sinusoids], -math.pi / sinusoids, math.pi / sinusoids)
    alpha = 2. * math.pi * tf.range(1., sinusoids + 1.) / sinusoids + theta
    phi = tf.random.uniform([batch, 1, nr, 1, nt, n, 1, sinusoids], -math.pi, math.pi)
    h = tf.reduce_sum(tf.exp(1.j * (f * t[:, None] * tf.cos(alpha) + phi)), axis=-1)
    h = h / tf.sqrt(sinusoids) * tf.sqrt(tf.constant(powers))[:, None]
    if los is not None:
        phi0 = tf.random.uniform([batch, 1, 1, 1, 1, 1, 1], -math.pi, math.pi)
        direct = tf.sqrt(los) * tf.exp(1.j * (f[..., 0] * t * tf.cos(aoa) + phi0))
        h = h + direct * tf.one_hot(0, n)[:, None]
    # the vector of all antenna pairs (receiver major) is coloured by the Cholesky factor of its covariance matrix
    if corr == 'all':
        l = tf.linalg.cholesky(r_all)
        x = tf.transpose(h, [0, 1, 3, 5, 6, 2, 4])
        x = tf.reshape(x, [batch, 1, 1, n, steps, nr * nt])
        x = tf.linalg.matvec(l, x)
        x = tf.reshape(x, [batch, 1, 1, n, steps, nr, nt])
        h = tf.transpose(x, [0, 1, 5, 2, 6, 3, 4])
    else:
        if corr in ('rx', 'both'):
            h = tf.einsum('ab,xybztps->xyaztps', tf.linalg.cholesky(r_rx), h)
        if corr in ('tx', 'both'):
            h = tf.einsum('ab,xyrzbps->xyrzaps', tf.linalg.cholesky(r_tx), h)
    d = tf.tile(tf.constant(delays)[None, None, None, :], [batch, 1, 1, 1])
    return h, d


def reported(model, delay_spread):
    los, powers, delays = taps(model, delay_spread)
    mean = powers if los is None else [powers[0] + los] + powers[1:]
    return (tf.constant(delays), tf.constant(mean), None if los is None else los,
            None if los is None else los / powers[0])


def number(model):
    return [len(TAPS[model][1])]


def accepted(model, v_min, v_max, height, elevation):
    return model in TAPS and v_max >= v_min and height >= 160000. and 0. <= elevation <= 90.

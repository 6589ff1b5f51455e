"""Reference path loss components of TR 38.811 section 6.6 (dB)."""
import math
import tensorflow as tf
from specs.tables import entry


def log10(x):
    return tf.math.log(x) / tf.math.log(10.)


def free_space(fc, d3):
    return 32.45 + 20. * log10(fc / 1e9) + 20. * log10(d3)


def shadow(los, sigma):
    return tf.random.normal(tf.shape(los), 0., sigma)


def basic(cls, direction, fc, elevation, los, d3, shadowing):
    f = free_space(fc, d3)
    sl = shadow(los, entry(cls, 'LOS', direction, fc, elevation, 'sigmaSF'))
    sn = shadow(los, entry(cls, 'NLOS', direction, fc, elevation, 'sigmaSF'))
    cl = entry(cls, 'NLOS', direction, fc, elevation, 'CL')
    if not shadowing:
        return tf.where(los, f, f + cl)
    return tf.where(los, f + sl, f + sn + cl)


def gas(fc, elevation, temperature, pressure, vapor, like):
    """ITU-R P.676 annex 2: oxygen and water vapour, equivalent heights, slant path"""
    f = fc / 1e9
    rt, rp = 288. / temperature, pressure / 1013.
    t = 1. - rt
    n1 = 0.955 * rp * rt ** 0.68 + 0.006 * vapor
    n2 = 0.735 * rp * rt ** 0.5 + 0.0353 * rt ** 4 * vapor

    def g(f0):
        return 1. + ((f - f0) / (f + f0)) ** 2
    lines = 0.
    # (strength, temperature exponent, centre, width, extra factor)
    for s, e, f0, w, extra in ((3.98, 2.23, 22.235, 9.42, 22.), (11.96, 0.7, 183.31, 11.14, None),
                               (0.081, 6.44, 321.226, 6.29, None), (3.66, 1.6, 325.153, 9.22, None),
                               (25.37, 1.09, 380., None, None), (17.4, 1.46, 448., None, None),
                               (844.6, 0.17, 557., None, 557.), (290., 0.41, 752., None, 752.)):
        den = (f - f0) ** 2
        if w is not None:
            den = den + w * n1 ** 2
        x = s * n1 * tf.exp(e * t) / den
        if extra is not None:
            x = x * g(extra)
        lines = lines + x
    lines = lines + 8.3328e4 * n2 * tf.exp(0.99 * t) / (f - 1780.) ** 2 * g(1780.)
    y_w = lines * f ** 2 * rt ** 2.5 * vapor * 1e-4
    c = 1.013 / (1. + tf.exp(-8.1 * (rp - 0.57)))
    h_w = 1.66 * (1. + 1.39 * c / ((f - 22.235) ** 2 + 2.56 * c) + 3.37 * c / ((f - 183.31) ** 2 + 4.69 * c)
                  + 1.5 * c / ((f - 325.1) ** 2 + 2.89 * c))

    def phi(a, b, c_, d):
        return rp ** a * rt ** b * tf.exp(c_ * (1. - rp) + d * t)
    e1, e2, e3 = (phi(0.0717, -1.8132, 0.0156, -1.6515), phi(0.5146, -4.6368, -0.1921, -5.7416),
                  phi(0.3414, -6.5851, 0.2130, -8.5854))
    # below 54 GHz (both supported bands)
    y_o = (7.2 * rt ** 2.8 / (f ** 2 + 0.34 * rp ** 2 * rt ** 1.6)
           + 0.62 * e3 / ((54. - f) ** (1.16 * e1) + 0.83 * e2)) * f ** 2 * rp ** 2 * 1e-3
    t1 = 4.64 / (1. + 0.066 * rp ** (-2.3)) * tf.exp(-((f - 59.7) / (2.87 + 12.4 * tf.exp(-7.9 * rp))) ** 2)
    t2 = 0.14 * tf.exp(2.12 * rp) / ((f - 118.75) ** 2 + 0.031 * tf.exp(2.2 * rp))
    t3 = 0.0114 / (1. + 0.14 * rp ** (-2.6)) * f * (
        (-0.0247 + 0.0001 * f + 1.61e-6 * f ** 2) / (1. - 0.0169 * f + 4.1e-5 * f ** 2 + 3.2e-7 * f ** 3))
    h_o = 6.1 / (1. + 0.17 * rp ** (-1.1)) * (1. + t1 + t2 + t3)
    a = (y_o * h_o + y_w * h_w) / tf.sin(elevation * math.pi / 180.)
    return tf.abs(a) + tf.zeros(tf.shape(like))


def scintillation(fc, elevation, temperature, humidity, diameter, efficiency, like):
    """ionospheric below 6 GHz, tropospheric (ITU-R P.618, exceeded 0.01 % of the time) above"""
    f = fc / 1e9
    iono = 1.1 * (f / 4.) ** (-1.5) / math.sqrt(2.)
    s = tf.sin(elevation * math.pi / 180.)
    tc = temperature - 273.
    es = 6.1121 * tf.exp(17.502 * tc / (tc + 240.97))
    nwet = 3732. * humidity * es / (tc + 273.) ** 2
    ref = 0.0036 + 1e-4 * nwet
    length = 2. * 1000. / tf.sqrt(s ** 2 + 2.35e-4 + s)
    deff = tf.sqrt(efficiency) * diameter
    x = 1.22 * deff ** 2 * f / length
    g = tf.sqrt(3.86 * (x ** 2 + 1.) ** (11. / 12.) * tf.sin(11. / 6. * tf.atan(1. / x)) - 7.08 * x ** (5. / 6.))
    sigma = ref * f ** (7. / 12.) * g / s ** 1.2
    lp = math.log10(0.01)
    a = -0.061 * lp ** 3 + 0.072 * lp ** 2 - 1.71 * lp + 3.
    v = tf.abs(a * sigma) if f >= 6. else iono
    return v + tf.zeros(tf.shape(like))


def total(basic, gas, scint, entry):
    return basic + gas + scint + entry


def no_entry(los):
    """terminals are outdoors"""
    return tf.zeros(tf.shape(los))

"""Reference antenna elements and arrays (TR 38.901 sections 7.1, 7.3; TR 38.811 section 6.4.1)."""
import tensorflow as tf
import math


def pattern(name, theta, phi):
    """power gain of an element towards zenith theta, azimuth phi (radians)"""
    if name == 'omni':
        return tf.ones_like(theta)
    if name == '38.901':
        w = 65. / 180. * math.pi
        v = tf.minimum(12. * ((theta - math.pi / 2.) / w)**2, 30.)
        h = tf.minimum(12. * (phi / w)**2, 30.)
        return tf.pow(10., (8. - tf.minimum(v + h, 30.)) / 10.)
    if name == 'dlp':
        t, p = theta * 180. / math.pi, phi * 180. / math.pi
        v = tf.minimum(12. * ((t - 90.) / 90.)**2, 25.)
        h = tf.minimum(12. * (p / 90.)**2, 25.)
        return tf.pow(10., -tf.minimum(v + h, 25.) / 10.)
    if name == 'aperture':
        off = tf.acos(tf.sin(theta) * tf.cos(phi))      # angle from the boresight (x axis)
        ka = 2. * math.pi * 10.                         # aperture radius of ten wavelengths
        g = 4. * tf.abs(tf.math.special.bessel_j1(ka * tf.sin(off)) / (ka * tf.sin(off)))**2
        g = tf.where(tf.equal(off, 0.), 1., g)
        return tf.where(tf.abs(off) > math.pi / 2., 0., g)


def field(name, slant, theta, phi):
    a = tf.sqrt(pattern(name, theta, phi))
    return [a * tf.cos(slant), a * tf.sin(slant)]


def grid(nr, nc, dv, dh):
    """centred grid in the y-z plane, column by column from the top, unit of the spacings"""
    out = []
    for j in range(nc):
        for i in range(nr):
            out.append([0., (j - (nc - 1) / 2.) * dh, ((nr - 1) / 2. - i) * dv])
    return out


def panel(nr, nc, pol, dv, dh):
    g = grid(nr, nc, dv, dh)
    return g + g if pol == 'dual' else g


def array(nr, nc, pol, panels_r, panels_c, ev, eh, pv, ph, lam):
    """positions in metres, panel after panel (column by column), and the antennas of each polarization"""
    pts = []
    i1, i2 = [], []
    for c in grid(panels_r, panels_c, pv, ph):
        for k in range(2 if pol == 'dual' else 1):
            for e in grid(nr, nc, ev, eh):
                (i2 if k else i1).append(len(pts))
                pts.append([0., lam * (c[1] + e[1]), lam * (c[2] + e[2])])
    return [pts, i1, i2]


def slants(pol, kind):
    if pol == 'single':
        return [0. if kind == 'V' else math.pi / 2.]
    if kind == 'VH':
        return [0., math.pi / 2.]
    return [-math.pi / 4., math.pi / 4.]

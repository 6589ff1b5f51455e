"""Reference propagation conditions: line of sight, indoor distances, LSP statistics."""
import tensorflow as tf
from sionna.phy.channel.utils import sample_bernoulli
from specs.tables import entry, param


def links(in_state, bs_loc):
    return [tf.shape(in_state)[0], tf.shape(bs_loc)[1], tf.shape(in_state)[1]]


def los(cls, direction, fc, elevation, in_state, bs_loc):
    """outdoor links are in line of sight with the tabulated probability; indoor ones never are"""
    p = entry(cls, 'LOS', direction, fc, elevation, 'LoS_p')
    draw = tf.random.uniform(links(in_state, bs_loc), 0., 1.) < p
    return draw & ~in_state[:, None, :]


def los_requested(in_state, bs_loc, requested):
    return tf.fill(links(in_state, bs_loc), requested) & ~in_state[:, None, :]


def indoor(in_state, bs_loc, d2, d3):
    """(2D indoor, 2D outdoor, 3D indoor, 3D outdoor) parts of the distances"""
    u = tf.random.uniform(links(in_state, bs_loc), 0., 10.)
    d2_in = tf.where(in_state[:, None, :], u, 0. * u)
    d3_in = d2_in / d2 * d3
    return d2_in, d2 - d2_in, d3_in, d3 - d3_in


def lsp_mean(cls, direction, fc, elevation, los):
    """log-domain means, order DS ASD ASA SF K ZSA ZSD; shadow fading has zero mean, K is in dB/10"""
    m = []
    for n in ('muDS', 'muASD', 'muASA', None, 'muK', 'muZSA', 'muZSD'):
        if n is None:
            m.append(tf.zeros(tf.shape(los)))
            continue
        v = param(cls, direction, fc, elevation, los, n)
        if n == 'muK':
            v = v / 10.
        if n == 'muZSD':
            v = tf.where(v != float('-inf'), tf.maximum(v, -100.), v)
        m.append(v)
    return tf.stack(m, axis=3)


def lsp_std(cls, direction, fc, elevation, los):
    m = []
    for n in ('sigmaDS', 'sigmaASD', 'sigmaASA', 'sigmaSF', 'sigmaK', 'sigmaZSA', 'sigmaZSD'):
        v = param(cls, direction, fc, elevation, los, n)
        if n in ('sigmaSF', 'sigmaK'):
            v = v / 10.
        m.append(v)
    return tf.stack(m, axis=3)


def zod_offset(los, d2):
    o = tf.atan(31.5 / d2) - tf.atan(33.5 / d2)
    return tf.where(los, 0., o)

"""Reference geometry: positions in metres, angles in degrees in [0, 360)."""
import tensorflow as tf
from sionna.phy.constants import PI
from sionna.phy.channel.utils import rad_2_deg, wrap_angle_0_360


def dist2d(ut_loc, bs_loc):
    d = ut_loc[:, None, :, :] - bs_loc[:, :, None, :]
    return tf.sqrt(d[..., 0] ** 2 + d[..., 1] ** 2)


def slant_range(ut_loc, bs_loc, elevation):
    """TR 38.811 eq. (6.6-3): spherical earth of radius 6371 km"""
    r_e = 6371000.
    s = tf.sin(elevation * PI / 180.)
    h = bs_loc[:, :, None, 2]
    d = tf.sqrt(r_e ** 2 * s ** 2 + h ** 2 + 2. * h * r_e) - r_e * s
    return tf.broadcast_to(d, tf.shape(dist2d(ut_loc, bs_loc)))


def deg360(x):
    return wrap_angle_0_360(rad_2_deg(x))


def angles(ut_loc, bs_loc):
    """(AoD, AoA, ZoD, ZoA) of the direct path, departure at the satellite"""
    d = ut_loc[:, None, :, :] - bs_loc[:, :, None, :]
    az = tf.atan2(d[..., 1], d[..., 0])
    ze = tf.atan2(dist2d(ut_loc, bs_loc), d[..., 2])
    return deg360(az), deg360(az + PI), deg360(ze), deg360(PI - ze)


def ut_distances(ut_loc):
    d = ut_loc[:, None, :, :] - ut_loc[:, :, None, :]
    return tf.sqrt(d[..., 0] ** 2 + d[..., 1] ** 2)

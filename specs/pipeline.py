"""Reference composition of a channel model: transmitter/receiver roles, gains and output layout."""
import tensorflow as tf
from sionna.phy.constants import PI
from specs.coefficients import coefficients, real
from specs.stubs import Record
from specs.tables import param


def swap(x):
    """[satellite, terminal] <-> [terminal, satellite]"""
    r = len(x.shape)
    return tf.transpose(x, [0, 2, 1] + list(range(3, r)))


def same(x):
    return x


def channel(cls, direction, fc, elevation, ut_array, bs_array, geo, lsp, rays, pathloss, flags, num, fs, own_height=True):
    """own_height: the satellite of every batch example has its own height; otherwise that of example 0 is used"""
    up = direction == 'uplink'
    tx, rx = (ut_array, bs_array) if up else (bs_array, ut_array)
    tr = swap if up else same
    deg = PI / 180.
    if up:
        aoa, aod, zoa, zod = geo.los_aod, geo.los_aoa, geo.los_zod, geo.los_zoa
        raoa, raod, rzoa, rzod = rays.aod, rays.aoa, rays.zod, rays.zoa
    else:
        aoa, aod, zoa, zod = geo.los_aoa, geo.los_aod, geo.los_zoa, geo.los_zod
        raoa, raod, rzoa, rzod = rays.aoa, rays.aod, rays.zoa, rays.zod
    top = Record(velocities=geo.ut_velocities, moving_end='tx' if up else 'rx',
                 los_aoa=tr(aoa) * deg, los_aod=tr(aod) * deg, los_zoa=tr(zoa) * deg, los_zod=tr(zod) * deg,
                 los=tr(geo.los), distance_3d=tr(geo.distance_3d),
                 tx_orientations=geo.ut_orientations if up else geo.bs_orientations,
                 rx_orientations=geo.bs_orientations if up else geo.ut_orientations,
                 bs_height=geo.bs_loc[:, 0, 2] if own_height else geo.bs_loc[0, :, 2],
                 satellite=flags.satellite, elevation_angle=elevation, doppler_enabled=flags.doppler)
    r = Record(delays=tr(rays.delays), powers=tr(rays.powers), aoa=tr(raoa), aod=tr(raod), zoa=tr(rzoa),
               zod=tr(rzod), xpr=tr(rays.xpr))
    c_ds = tr(param(cls, direction, fc, elevation, geo.los, 'cDS')) * 1e-9
    h, tau = coefficients(tx, rx, fc, True, num, fs, tr(lsp.k_factor), r, top, c_ds)
    gain = tf.ones([1, 1, 1])
    if flags.pathloss:
        gain = gain * tf.pow(10., -tr(pathloss) / 20.)
    if flags.shadowing:
        gain = gain * tf.sqrt(tr(lsp.sf))
    h = h * real(gain)[:, :, :, None, None, None, None]
    # [batch, tx, rx, path, rx ant, tx ant, time] -> [batch, rx, rx ant, tx, tx ant, path, time]
    return tf.transpose(h, [0, 2, 4, 1, 5, 3, 6]), tf.transpose(tau, [0, 2, 1, 3])

"""Reference generation of correlated large-scale parameters (step 4)."""
import tensorflow as tf
from specs.tables import param

ORDER = ('DS', 'ASD', 'ASA', 'SF', 'K', 'ZSA', 'ZSD')
CORR = ('corrASDvsDS', 'corrASAvsDS', 'corrASAvsSF', 'corrASDvsSF', 'corrDSvsSF', 'corrASDvsASA', 'corrASDvsK',
        'corrASAvsK', 'corrDSvsK', 'corrSFvsK', 'corrZSDvsSF', 'corrZSAvsSF', 'corrZSDvsK', 'corrZSAvsK',
        'corrZSDvsDS', 'corrZSAvsDS', 'corrZSDvsASD', 'corrZSAvsASD', 'corrZSDvsASA', 'corrZSAvsASA',
        'corrZSDvsZSA')


def cross_correlation(cls, direction, fc, elevation, los):
    """symmetric 7x7 matrix, unit diagonal, one tabulated coefficient per pair of parameters"""
    rows = []
    for a in ORDER:
        row = []
        for b in ORDER:
            if a == b:
                v = tf.ones(tf.shape(los))
            else:
                n = 'corr' + a + 'vs' + b
                if n not in CORR:
                    n = 'corr' + b + 'vs' + a
                v = param(cls, direction, fc, elevation, los, n)
            row.append(v)
        rows.append(tf.stack(row, axis=-1))
    return tf.stack(rows, axis=-2)


def spatial_correlation(cls, direction, fc, elevation, los, in_state, dist):
    """exponential decorrelation between terminals in the same propagation state, none otherwise"""
    ind = tf.broadcast_to(in_state[:, None, :], tf.shape(los))
    nlos = ~los & ~ind

    def pairs(x):
        return x[:, :, :, None] & x[:, :, None, :]
    same = pairs(los) | pairs(nlos) | pairs(ind)
    n = tf.shape(los)[2]
    eye = tf.eye(n, n)[None, None, :, :]
    mats = []
    for p in ORDER:
        d = param(cls, direction, fc, elevation, los, 'corrDist' + p)
        keep = tf.where(same, 1., eye)
        mats.append(tf.exp(-dist[:, None, :, :] / d[:, :, :, None]) * keep)
    return tf.stack(mats, axis=2)


def sample(cls, direction, fc, elevation, los, in_state, dist, mean, std):
    """DS, ASD, ASA, SF, K, ZSA, ZSD in linear scale"""
    b, nb, nu = tf.shape(los)[0], tf.shape(los)[1], tf.shape(los)[2]
    x = tf.random.normal([b, nb, nu, 7])
    c = tf.linalg.cholesky(cross_correlation(cls, direction, fc, elevation, los))
    s = tf.linalg.cholesky(spatial_correlation(cls, direction, fc, elevation, los, in_state, dist))
    x = tf.reduce_sum(c * x[:, :, :, None, :], axis=4)            # correlated over parameters
    x = tf.transpose(x, [0, 1, 3, 2])                             # ... then over terminals
    x = tf.reduce_sum(s * x[:, :, :, None, :], axis=4)
    x = tf.transpose(x, [0, 1, 3, 2])
    v = tf.pow(10., mean + std * x)
    lim = (None, 104., 104., None, None, 52., 52.)
    out = []
    for i in range(7):
        y = v[:, :, :, i]
        if lim[i] is not None:
            y = tf.minimum(y, lim[i])
        out.append(y)
    return out

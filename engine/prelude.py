"""Meaning of derived TensorFlow / NumPy operations in terms of primitive ones (interpreted, never executed)."""
import tensorflow as tf


def reduce_variance(x, axis=None, keepdims=False):
    m = tf.reduce_mean(x, axis=axis, keepdims=True)
    return tf.reduce_mean((x - m)**2, axis=axis, keepdims=keepdims)


def var(x, axis=None, keepdims=False):
    return reduce_variance(x, axis, keepdims)


def reduce_std(x, axis=None, keepdims=False):
    return tf.sqrt(reduce_variance(x, axis, keepdims))


def std(x, axis=None, keepdims=False):
    return tf.sqrt(reduce_variance(x, axis, keepdims))


def log1p(x):
    return tf.math.log(1 + x)


def expm1(x):
    return tf.exp(x) - 1


def exp2(x):
    return tf.pow(2., x)


def cbrt(x):
    return tf.pow(x, 1./3.)


def sigmoid(x):
    return 1/(1 + tf.exp(-x))


def xdivy(x, y):
    return tf.where(tf.equal(x, 0), tf.zeros_like(x), x/y)


def multiply_no_nan(x, y):
    return x*y


def cumsum(x, axis=0):
    """last or any statically known axis"""
    if axis != -1 and axis != len(tf.shape(x)) - 1:
        x = tf.experimental.numpy.moveaxis(x, axis, -1)
        return tf.experimental.numpy.moveaxis(cumsum(x, -1), -1, axis)
    n = tf.shape(x)[-1]
    i = tf.range(n)
    return tf.reduce_sum(tf.where(i[:, None] >= i[None, :], 1., 0.)*x[..., None, :], axis=-1)


def swapaxes(x, a, b):
    r = len(tf.shape(x))
    p = list(range(r))
    p[a], p[b] = p[b], p[a]
    return tf.transpose(x, p)


def moveaxis(x, source, destination):
    r = len(tf.shape(x))
    s = source % r
    d = destination % r
    p = [k for k in range(r) if k != s]
    p = p[:d] + [s] + p[d:]
    return tf.transpose(x, p)


def matrix_transpose(x):
    return swapaxes(x, -1, -2)


def flip(x, axis):
    n = tf.shape(x)[axis]
    return tf.gather(x, n - 1 - tf.range(n), axis=axis)


def reverse(x, axis):
    for a in axis:
        x = flip(x, a)
    return x


def outer(a, b):
    return a[:, None]*b[None, :]


def inner(a, b):
    return tf.reduce_sum(a*b, axis=-1)


def vdot(a, b):
    return tf.reduce_sum(tf.math.conj(a)*b, axis=-1)


def cross(a, b):
    return tf.stack([a[..., 1]*b[..., 2] - a[..., 2]*b[..., 1],
                     a[..., 2]*b[..., 0] - a[..., 0]*b[..., 2],
                     a[..., 0]*b[..., 1] - a[..., 1]*b[..., 0]], axis=-1)


def trace(x):
    return tf.reduce_sum(diag_part(x), axis=-1)


def diag_part(x):
    n = tf.shape(x)[-1]
    i = tf.range(n)
    return tf.reduce_sum(tf.where(i[:, None] == i[None, :], 1., 0.)*x, axis=-1)


def diagonal(x):
    return diag_part(x)


def diag(x):
    n = tf.shape(x)[-1]
    i = tf.range(n)
    return tf.where(i[:, None] == i[None, :], 1., 0.)*x[..., None, :]


def set_diag(x, d):
    n = tf.shape(x)[-1]
    i = tf.range(n)
    return tf.where(i[:, None] == i[None, :], d[..., None, :], x)


def tril(x, k=0):
    i, j = tf.range(tf.shape(x)[-2]), tf.range(tf.shape(x)[-1])
    return tf.where(i[:, None] + k >= j[None, :], x, 0.)


def triu(x, k=0):
    i, j = tf.range(tf.shape(x)[-2]), tf.range(tf.shape(x)[-1])
    return tf.where(i[:, None] + k <= j[None, :], x, 0.)


def band_part(x, lower, upper):
    i, j = tf.range(tf.shape(x)[-2])[:, None], tf.range(tf.shape(x)[-1])[None, :]
    if lower >= 0:
        x = tf.where(i - j <= lower, x, 0.)
    if upper >= 0:
        x = tf.where(j - i <= upper, x, 0.)
    return x


def l2_normalize(x, axis):
    return x/tf.sqrt(tf.reduce_sum(x**2, axis=axis, keepdims=True))


def hstack(xs):
    return tf.concat(xs, axis=0 if len(tf.shape(xs[0])) == 1 else 1)


def vstack(xs):
    return tf.stack(xs, axis=0) if len(tf.shape(xs[0])) == 1 else tf.concat(xs, axis=0)


def column_stack(xs):
    return tf.stack(xs, axis=1) if len(tf.shape(xs[0])) == 1 else tf.concat(xs, axis=1)


def meshgrid(a, b, indexing='xy'):
    if indexing == 'ij':
        return [tf.broadcast_to(a[:, None], [tf.shape(a)[0], tf.shape(b)[0]]),
                tf.broadcast_to(b[None, :], [tf.shape(a)[0], tf.shape(b)[0]])]
    return [tf.broadcast_to(a[None, :], [tf.shape(b)[0], tf.shape(a)[0]]),
            tf.broadcast_to(b[:, None], [tf.shape(b)[0], tf.shape(a)[0]])]


def is_finite(x):
    return tf.logical_not(tf.math.is_nan(x))


def add_n(xs):
    t = xs[0]
    for x in xs[1:]:
        t = t + x
    return t


def accumulate_n(xs):
    return add_n(xs)


def truediv(x, y):
    return x/y


def asinh(x):
    return tf.math.log(x + tf.sqrt(x**2 + 1))


def acosh(x):
    return tf.math.log(x + tf.sqrt(x**2 - 1))


def atanh(x):
    return 0.5*tf.math.log((1 + x)/(1 - x))


class LinearOperatorToeplitz:
    def __init__(self, col, row):
        self.col = col
        self.row = row

    def to_dense(self):
        k = tf.range(tf.shape(self.col)[-1])
        d = k[:, None] - k[None, :]
        m = tf.abs(d)
        return tf.where(d >= 0, tf.gather(self.col, m, axis=-1), tf.gather(self.row, m, axis=-1))


def linspace(start, stop, num=50):
    if num == 1:
        return tf.stack([start])
    return start + tf.range(num)*((stop - start)/(num - 1))


def roll(input, shift, axis):
    n = tf.shape(input)[axis]
    return tf.gather(input, tf.math.floormod(tf.range(n) - shift, n), axis=axis)


def fftshift(x, axes):
    n = tf.shape(x)[axes]
    return roll(x, n // 2, axes)


def ifftshift(x, axes):
    n = tf.shape(x)[axes]
    return roll(x, -(n // 2), axes)


def fft(input):
    n = tf.shape(input)[-1]
    k = tf.cast(tf.range(n), tf.float32)
    w = tf.exp(-2.j*3.141592653589793*k[:, None]*k[None, :]/tf.cast(n, tf.float32))
    return tf.reduce_sum(input[..., None, :]*w, axis=-1)


def ifft(input):
    n = tf.shape(input)[-1]
    k = tf.cast(tf.range(n), tf.float32)
    w = tf.exp(2.j*3.141592653589793*k[:, None]*k[None, :]/tf.cast(n, tf.float32))
    return tf.reduce_mean(input[..., None, :]*w, axis=-1)

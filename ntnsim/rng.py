"""Randomness seam.

While installed, every random draw of the code under test (``tf.random.*`` and
Sionna's ``config.tf_rng``) is answered by the *current stream*: an actor-owned
Philox sequence that is a pure function of (run key, actor name, draw counter).
Streams can be tuned (extreme tails, constant normals, impulses) and can inject a
failure at the k-th draw.
"""
import hashlib
import threading

import numpy as np


class InjectedFault(RuntimeError):
    """An error raised by the simulator inside the code under test"""


def key_of(*parts):
    """128-bit key of a tuple of ints/strings"""
    d = hashlib.sha256("|".join(map(str, parts)).encode()).digest()
    return int.from_bytes(d[:16], "little")


class Stream:
    """One actor's random stream.

    mode: "nominal" | "extreme" | "const" (every normal draw is mean + c*std) |
          "impulse" (normal draws are 0 except flat element `imp`, which is c*std) |
          "strat" (uniform draws cover their range evenly, in random order)
    """

    def __init__(self, key, mode="nominal", c=0.0, imp=None, ext_p=0.02,
                 fail_at=None, fail_exc=InjectedFault, stateless=False,
                 record=False, coarse=False):
        self.key = key
        self.coarse = coarse      # draws of single precision carry a (monotone) rounding error of 1e-6
        self.mode = mode
        self.c = c
        self.imp = imp
        self.ext_p = ext_p
        self.fail_at = fail_at
        self.fail_exc = fail_exc
        self.stateless = stateless
        self.count = 0
        self.normals = 0          # number of normal scalars drawn so far
        self.fired = False
        self.log = [] if record else None
        self.key_var = None       # tf.Variable (stateless mode in graphs)

    # -- raw randomness
    def _gen(self):
        g = np.random.Generator(np.random.Philox(key=[self.key & (2**64-1),
                                                     self.key >> 64],
                                                counter=[0, 0, 0, self.count]))
        self.count += 1
        return g

    def _enter(self, kind, shape):
        if self.fail_at is not None and self.count == self.fail_at \
                and not self.fired:
            self.fired = True
            raise self.fail_exc(f"injected at draw {self.count} ({kind})")
        if self.log is not None:
            self.log.append((kind, tuple(int(s) for s in shape)))

    def uniform(self, shape, lo, hi, integer):
        self._enter("uniform", shape)
        g = self._gen()
        if integer:
            lo_, hi_ = int(np.min(lo)), int(np.max(hi))
            return g.integers(lo_, hi_, size=shape)
        u = g.random(size=shape)
        if self.mode == "strat":
            n = int(np.prod(shape, dtype=np.int64))
            u = ((g.permutation(n)+g.random(n))/n).reshape(shape)
        if self.mode == "extreme":
            m = g.random(size=shape)
            u = np.where(m < self.ext_p, 0.0, u)
            u = np.where(m > 1 - self.ext_p, 1.0 - 2.0**-24, u)
        lo = np.asarray(lo, np.float64)
        hi = np.asarray(hi, np.float64)
        return lo + u*(hi-lo)

    def normal(self, shape, mean, std):
        self._enter("normal", shape)
        g = self._gen()
        n = int(np.prod(shape, dtype=np.int64))
        if self.mode == "const":
            z = np.full(shape, self.c)
        elif self.mode == "impulse":
            z = np.zeros(n)
            k = self.imp - self.normals
            if 0 <= k < n:
                z[k] = self.c
            z = z.reshape(shape)
        else:
            z = g.standard_normal(size=shape)
            if self.mode == "extreme":
                m = g.random(size=shape)
                z = np.where(m < self.ext_p, np.sign(z)*4.5, z)
        self.normals += n
        return np.asarray(mean, np.float64) + np.asarray(std, np.float64)*z

    def permutation(self, n):
        self._enter("shuffle", (n,))
        return self._gen().permutation(n)


class _State(threading.local):
    stream = None


_state = _State()
_default = {"stream": None}
_installed = {}


def current():
    return _state.stream if _state.stream is not None else _default["stream"]


class use:
    """Context manager: `stream` answers the draws of this thread"""
    def __init__(self, stream):
        self.stream = stream

    def __enter__(self):
        self.old = _state.stream
        _state.stream = self.stream
        return self.stream

    def __exit__(self, *a):
        _state.stream = self.old
        return False


def _np(x):
    return x.numpy() if hasattr(x, "numpy") else np.asarray(x)


def _shape(shape):
    import tensorflow as tf
    if hasattr(shape, "numpy"):
        shape = shape.numpy()
    elif isinstance(shape, tf.TensorShape):
        shape = shape.as_list()
    elif np.isscalar(shape):
        shape = [shape]
    return tuple(int(_np(s)) for s in shape)


def install():
    """Put the randomness seam in place (idempotent)"""
    if _installed:
        # config.seed may have replaced the generator
        _refresh_config()
        return
    import tensorflow as tf
    real = {n: getattr(tf.random, n) for n in
            ("uniform", "normal", "truncated_normal", "shuffle")}
    _installed["real"] = real

    def _hash01(s, shape):
        """Uniform [0,1) from integer hashing: the same numbers in eager, graph and
        XLA execution"""
        s._enter("graph", ())
        s.count += 1
        key = tf.constant(s.key & 0x7fffffff, tf.int32) if s.key_var is None else s.key_var
        shape = tf.cast(tf.convert_to_tensor(shape), tf.int32)
        x = tf.cast(tf.range(tf.reduce_prod(shape)), tf.uint32)
        k = tf.cast(key, tf.uint32)

        def mix(v):
            v = tf.bitwise.bitwise_xor(v, tf.bitwise.right_shift(v, tf.constant(16, tf.uint32)))
            v = v*tf.constant(0x7feb352d, tf.uint32)
            v = tf.bitwise.bitwise_xor(v, tf.bitwise.right_shift(v, tf.constant(15, tf.uint32)))
            v = v*tf.constant(0x846ca68b, tf.uint32)
            return tf.bitwise.bitwise_xor(v, tf.bitwise.right_shift(v, tf.constant(16, tf.uint32)))
        k = mix(k + tf.constant((s.count*0x9e3779b9) & 0xffffffff, tf.uint32))
        x = mix(mix(x + k) + k*tf.constant(0x85ebca6b, tf.uint32))
        x = tf.cast(tf.bitwise.right_shift(x, tf.constant(8, tf.uint32)), tf.float32)
        return tf.reshape((x+0.5)*2.**-24, shape)

    def uniform(shape, minval=0, maxval=None, dtype=tf.float32, seed=None,
                name=None):
        s = current()
        if s is None:
            return real["uniform"](shape, minval=minval, maxval=maxval,
                                   dtype=dtype, seed=seed, name=name)
        dtype = tf.as_dtype(dtype)
        if maxval is None:
            assert not dtype.is_integer
            maxval = 1
        if s.stateless or not tf.executing_eagerly():
            u = _hash01(s, shape)
            if dtype.is_integer:
                lo, hi = tf.cast(minval, tf.float32), tf.cast(maxval, tf.float32)
                return tf.cast(tf.floor(lo+u*(hi-lo)), dtype)
            u = tf.cast(u, dtype)
            return tf.cast(minval, dtype)+u*(tf.cast(maxval, dtype)-tf.cast(minval, dtype))
        v = s.uniform(_shape(shape), _np(minval), _np(maxval),
                      dtype.is_integer)
        if s.coarse and dtype == tf.float32:
            v = v*(1-2.0**-20)
        v = np.asarray(v, dtype.as_numpy_dtype)
        return tf.constant(v, dtype)

    def normal(shape, mean=0.0, stddev=1.0, dtype=tf.float32, seed=None,
               name=None):
        s = current()
        if s is None:
            return real["normal"](shape, mean=mean, stddev=stddev, dtype=dtype,
                                  seed=seed, name=name)
        dtype = tf.as_dtype(dtype)
        if s.stateless or not tf.executing_eagerly():
            z = tf.cast(tf.math.ndtri(_hash01(s, shape)), dtype)
            return tf.cast(mean, dtype)+tf.cast(stddev, dtype)*z
        v = s.normal(_shape(shape), _np(mean), _np(stddev))
        if s.coarse and dtype == tf.float32:
            v = v*(1-2.0**-20)
        return tf.constant(np.asarray(v, dtype.as_numpy_dtype), dtype)

    def truncated_normal(shape, mean=0.0, stddev=1.0, dtype=tf.float32,
                         seed=None, name=None):
        s = current()
        if s is None:
            return real["truncated_normal"](shape, mean=mean, stddev=stddev,
                                            dtype=dtype, seed=seed, name=name)
        dtype = tf.as_dtype(dtype)
        z = normal(shape, 0.0, 1.0, dtype)
        return mean + stddev*tf.clip_by_value(z, -2., 2.)

    def shuffle(value, seed=None, name=None):
        s = current()
        if s is None:
            return real["shuffle"](value, seed=seed, name=name)
        value = tf.convert_to_tensor(value)
        if s.stateless or not tf.executing_eagerly():
            n = tf.shape(value)[0]
            return tf.gather(value, tf.argsort(_hash01(s, [n])), axis=0)
        return tf.gather(value, s.permutation(int(value.shape[0])), axis=0)

    tf.random.uniform = uniform
    tf.random.normal = normal
    tf.random.truncated_normal = truncated_normal
    tf.random.shuffle = shuffle
    _installed["fns"] = dict(uniform=uniform, normal=normal,
                             truncated_normal=truncated_normal)
    _refresh_config()


class ConfigRng:
    """Stands in for Sionna's ``config.tf_rng``"""

    def __init__(self, real):
        self._real = real

    def uniform(self, shape, minval=0, maxval=None, dtype=None, name=None):
        import tensorflow as tf
        if current() is None:
            kw = {} if dtype is None else {"dtype": dtype}
            return self._real.uniform(shape, minval=minval, maxval=maxval, **kw)
        return tf.random.uniform(shape, minval, maxval, dtype or tf.float32)

    def normal(self, shape, mean=0.0, stddev=1.0, dtype=None, name=None):
        import tensorflow as tf
        if current() is None:
            kw = {} if dtype is None else {"dtype": dtype}
            return self._real.normal(shape, mean=mean, stddev=stddev, **kw)
        return tf.random.normal(shape, mean, stddev, dtype or tf.float32)

    def truncated_normal(self, shape, mean=0.0, stddev=1.0, dtype=None,
                         name=None):
        import tensorflow as tf
        return tf.random.truncated_normal(shape, mean, stddev,
                                          dtype or tf.float32)

    def __getattr__(self, name):
        return getattr(self._real, name)


def _refresh_config():
    from sionna.phy import config
    if not isinstance(config._tf_rng, ConfigRng):
        config._tf_rng = ConfigRng(config.tf_rng)


def reset_ambient(seed):
    """Seed everything that is *not* answered by a stream"""
    import random
    import tensorflow as tf
    from sionna.phy import config
    config.seed = int(seed) & 0x7fffffff
    _refresh_config()
    np.random.seed(int(seed) & 0x7fffffff)
    random.seed(int(seed))
    tf.random.set_seed(int(seed) & 0x7fffffff)

import hashlib, json
import numpy as np


class Violation(Exception):
    """An oracle found the property broken."""

    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls = cls
        self.msg = msg


class Injected(Exception):
    """A fault raised by the simulator through one of the seams."""


class InjectedBase(BaseException):
    """Like Injected, but not an Exception (as KeyboardInterrupt)."""


class HarnessError(BaseException):
    """The simulator itself failed: never a verdict about the library."""


def h64(*parts):
    s = json.dumps(parts, sort_keys=True, default=str).encode()
    return int.from_bytes(hashlib.blake2b(s, digest_size=8).digest(), 'big')


def rng_for(*parts):
    return np.random.Generator(np.random.Philox(key=h64(*parts)))


def pick(rng, seq, p=None):
    if p is not None:
        p = np.asarray(p, float)
        p = p / p.sum()
    return seq[int(rng.choice(len(seq), p=p))]


def arr(a):
    """numpy copy of an array, tensor or scalar"""
    if a is None:
        return None
    if hasattr(a, 'detach'):
        a = a.detach().cpu().numpy()
    return np.array(a)


def same(a, b):
    """bitwise equality with equal NaNs"""
    if isinstance(a, tuple) and isinstance(b, tuple) and (a[-1:] == (Ellipsis,) or b[-1:] == (Ellipsis,)):     # indices
        return len(a) == len(b) and all(same(u, v) for u, v in zip(a[:-1], b[:-1])) and a[-1] is b[-1]
    a, b = arr(a), arr(b)
    if a is None or b is None:
        return a is None and b is None
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f' and b.dtype.kind == 'f')


def rows(a, d):
    return np.asarray(a).reshape(-1, int(np.prod(d)))

"""Book-keeping of simulated runs."""
import hashlib

import numpy as np


class Viol(Exception):
    def __init__(self, cls, msg, key=None):
        super().__init__(msg)
        self.viol = dict(cls=cls, msg=str(msg)[:1500], **({"key": key} if key else {}))


class Digest:
    def __init__(self):
        self.h = hashlib.sha256()

    def add(self, *xs):
        for x in xs:
            if isinstance(x, dict):
                for k in sorted(x):
                    self.h.update(str(k).encode())
                    self.add(x[k])
            elif isinstance(x, (list, tuple)):
                self.h.update(b"[")
                self.add(*x)
            elif isinstance(x, np.ndarray):
                self.h.update(str((x.shape, x.dtype)).encode())
                self.h.update(np.ascontiguousarray(x).tobytes())
            else:
                self.h.update(repr(x).encode())

    def hex(self):
        return self.h.hexdigest()[:16]


class Run:
    """Book-keeping of one simulated run"""

    def __init__(self, plan):
        self.plan = plan
        self.dg = Digest()
        self.stats = {}
        self.known = []
        self.sig = []

    def n(self, key, v=1):
        self.stats[key] = self.stats.get(key, 0) + v

    def result(self, viol=None, nontrivial=True):
        s = hashlib.sha256(repr(self.sig).encode()).hexdigest()[:12]
        return dict(viol=viol, known=self.known, sig=s, stats=self.stats,
                    digest=self.dg.hex() + ("!" + viol["cls"] if viol else ""),
                    nontrivial=nontrivial)


def check(cond, cls, msg, key=None):
    if not cond:
        raise Viol(cls, msg() if callable(msg) else msg, key)

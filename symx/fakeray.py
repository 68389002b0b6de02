"""In-process stand-in for ray: same call surface, deep-copying object store, and a
completion order under the control of the harness (a symbolic choice per ray.wait)."""
from __future__ import annotations

import copy


class ObjectRef:
    def __init__(self, value=None, exc=None):
        self._v = value
        self._e = exc

    def __deepcopy__(self, memo):
        return self

    def value(self):
        if self._e is not None:
            raise self._e
        return self._v


class Remote:
    def __init__(self, fn, ray):
        self._function = fn
        self._ray = ray
        self.__name__ = getattr(fn, "__name__", "remote")

    def options(self, **k):
        return self

    def remote(self, *args, **kwargs):
        args = [a.value() if isinstance(a, ObjectRef) else copy.deepcopy(a) for a in args]
        kwargs = {
            k: a.value() if isinstance(a, ObjectRef) else copy.deepcopy(a)
            for k, a in kwargs.items()
        }
        self._ray.tasks += 1
        try:
            r = self._function(*args, **kwargs)
        except Exception as e:  # re-raised at get(), as ray does
            return ObjectRef(exc=e)
        return ObjectRef(r)

    def __call__(self, *a, **k):
        raise TypeError("Remote functions cannot be called directly")


class FakeRay:
    ObjectRef = ObjectRef

    def __init__(self):
        self.reset()

    def reset(self):
        self.cpus = 4
        self.order = "fifo"
        self.chooser = None
        self.tasks = 0

    def put(self, v):
        return ObjectRef(copy.deepcopy(v))

    def get(self, r, timeout=None):
        if isinstance(r, (list, tuple)):
            return [x.value() for x in r]
        return r.value()

    def wait(self, refs, num_returns=1, timeout=None, fetch_local=True):
        refs = list(refs)
        if not refs:
            raise ValueError("ray.wait: empty list")
        done = []
        for _ in range(min(num_returns, len(refs))):
            if self.order == "fifo":
                k = 0
            elif self.order == "lifo":
                k = len(refs) - 1
            else:
                k = self.chooser(len(refs))
            done.append(refs.pop(k))
        return done, refs

    def remote(self, *a, **k):
        if len(a) == 1 and callable(a[0]) and not k:
            return Remote(a[0], self)
        return lambda fn: Remote(fn, self)

    def is_initialized(self):
        return True

    def init(self, *a, **k):
        return None

    def shutdown(self, *a, **k):
        return None

    def cluster_resources(self):
        return {"CPU": float(self.cpus), "memory": 8e9}

    available_resources = cluster_resources

    def nodes(self):
        return [{"NodeManagerHostname": "fake"}]


RAY = FakeRay()

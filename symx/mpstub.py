"""A process pool that runs its tasks in this process, in a given order (both
sides of a harness use it; Python 3.9 syntax).  Each worker sees its own copy of
the module's globals and of the initializer's arguments, as a forked process
does; shared arrays are shared; task parameters arrive as copies, as pickled
ones do."""
import itertools

import numpy as np


class Pool(object):
    def __init__(self, env, processes=None, initializer=None, initargs=()):
        if processes is not None and processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self.env = env
        self.n = processes or env.cpus
        self.initializer, self.initargs = initializer, initargs
        env.pools.append(self.n)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self): pass
    def join(self): pass
    def terminate(self): pass

    def _run(self, f, tasks):
        tasks = list(tasks)
        n = len(tasks)
        order, sharing = self.env.schedule(n)
        res = [None] * n
        state = None
        for k in order:
            mods = self.env.modules()
            saved = [(m, dict(vars(m))) for m in mods]
            try:
                if sharing and state is not None:
                    # the worker that did the previous task goes on
                    for m, d in state:
                        vars(m).update(d)
                else:
                    for m, d in saved:
                        for key, v in d.items():
                            if isinstance(v, (dict, list, np.ndarray)) and not key.startswith("__"):
                                vars(m)[key] = clone(v)
                    if self.initializer is not None:
                        self.initializer(*clone(tuple(self.initargs)))
                res[k] = f(*clone(tasks[k]))
                if sharing:
                    state = [(m, dict(vars(m))) for m in mods]
            finally:
                for m, d in saved:
                    for key in [x for x in vars(m) if x not in d]:
                        del vars(m)[key]
                    vars(m).update(d)
        return res

    def map(self, f, xs, chunksize=None):
        return self._run(f, [(x,) for x in xs])

    def starmap(self, f, xs, chunksize=None):
        return self._run(f, [tuple(x) for x in xs])

    def imap(self, f, xs, chunksize=1):
        return iter(self.map(f, xs))

    imap_unordered = imap

    def apply(self, f, args=(), kwds={}):
        return self._run(lambda *a: f(*a, **kwds), [tuple(args)])[0]

    def map_async(self, f, xs, chunksize=None):
        return Res(self.map(f, xs))

    def starmap_async(self, f, xs, chunksize=None):
        return Res(self.starmap(f, xs))

    def apply_async(self, f, args=(), kwds={}):
        return Res(self.apply(f, args, kwds))


class Res(object):
    def __init__(self, v): self.v = v
    def get(self, timeout=None): return self.v
    def wait(self, timeout=None): pass


def clone(x):
    if isinstance(x, dict):
        return type(x)((k, clone(v)) for k, v in x.items()) if type(x) is dict else x
    if isinstance(x, list):
        return [clone(v) for v in x]
    if type(x) is tuple:
        return tuple(clone(v) for v in x)
    if isinstance(x, np.ndarray) and x.flags.owndata:
        return x.copy()
    return x


class Env(object):
    """cpus, and the schedule: "order" names an order of the tasks, "same" is
    true when one worker ends up doing all of them"""

    def __init__(self, cpus, order, same, modules):
        self.cpus, self.order, self.same, self.modules = cpus, order, same, modules
        self.pools = []

    def schedule(self, n):
        ks = list(range(n))
        if self.order == "reverse":
            ks = ks[::-1]
        elif self.order == "rotated":
            ks = ks[1:] + ks[:1]
        elif isinstance(self.order, int):
            ps = itertools.islice(itertools.permutations(ks), self.order, None)
            ks = list(next(ps, ks))
        return ks, self.same


def times(v):
    """("monthly" | "daily", first year, number of times) or a list of dates"""
    if isinstance(v, (tuple, list)) and v and v[0] in ("monthly", "daily"):
        kind, y, n = v
        if kind == "monthly":
            t = np.datetime64("%04d-01" % y, "M") + np.arange(n)
        else:
            t = np.datetime64("%04d-01-01" % y, "D") + np.arange(n)
        return t.astype("datetime64[ns]")
    return np.array(v, dtype="datetime64[ns]")

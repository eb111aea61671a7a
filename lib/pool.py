"""In-process replacement of multiprocess.pool.Pool.

The methods of the class itself are replaced, so the code under test uses the
replacement however it imported the class.  ORDER decides the order in which
the tasks of one call run, BETWEEN is called before each task, ISOLATE passes
arguments and results through pickling like a real worker process does.
"""

import dill
import multiprocess.pool as mpp

ORDER = None  # callable: number of tasks -> execution order
BETWEEN = None  # callable(k): called before the k-th executed task
ISOLATE = False
REAL = {}
LOG = []  # sizes of the task batches


class Result:
    def __init__(self, value=None, error=None):
        self.value, self.error = value, error

    def get(self, timeout=None):
        if self.error is not None:
            raise self.error
        return self.value

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return self.error is None


def _call(fn, args, kwargs=None):
    if ISOLATE:
        fn, args, kwargs = dill.loads(dill.dumps((fn, args, kwargs)))
    out = fn(*args, **(kwargs or {}))
    if ISOLATE:
        out = dill.loads(dill.dumps(out))
    return out


def _batch(fn, argslist):
    """Returns [(submission index, result)] in completion order."""
    argslist = list(argslist)
    n = len(argslist)
    LOG.append(n)
    order = list(ORDER(n)) if ORDER else list(range(n))
    done = []
    for k, i in enumerate(order):
        if BETWEEN:
            BETWEEN(k)
        done.append((i, _call(fn, argslist[i])))
    return done


def _ordered(fn, argslist):
    return [r for _, r in sorted(_batch(fn, argslist), key=lambda d: d[0])]


def install():
    P = mpp.Pool
    if REAL:
        return
    names = (
        "__init__ __del__ __enter__ __exit__ __reduce__ apply apply_async map "
        "map_async starmap starmap_async imap imap_unordered close join terminate"
    ).split()
    for n in names:
        REAL[n] = P.__dict__.get(n)

    def init(self, *a, **k):
        self._vp = True

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        try:
            r = Result(_call(func, args, kwds))
        except Exception as e:
            if error_callback:
                error_callback(e)
            return Result(error=e)
        if callback:
            callback(r.value)
        return r

    def _async(f, callback, error_callback):
        try:
            r = Result(f())
        except Exception as e:
            if error_callback:
                error_callback(e)
            return Result(error=e)
        if callback:
            callback(r.value)
        return r

    new = dict(
        __init__=init,
        __del__=lambda self, *a, **k: None,
        __enter__=lambda self: self,
        __exit__=lambda self, *a: None,
        apply=lambda self, func, args=(), kwds={}: _call(func, args, kwds),
        apply_async=apply_async,
        map=lambda self, func, it, chunksize=None: _ordered(func, [(x,) for x in it]),
        starmap=lambda self, func, it, chunksize=None: _ordered(
            func, [tuple(x) for x in it]
        ),
        map_async=lambda self, func, it, chunksize=None, callback=None, error_callback=None: _async(
            lambda: _ordered(func, [(x,) for x in it]), callback, error_callback
        ),
        starmap_async=lambda self, func, it, chunksize=None, callback=None, error_callback=None: _async(
            lambda: _ordered(func, [tuple(x) for x in it]), callback, error_callback
        ),
        imap=lambda self, func, it, chunksize=1: iter(
            _ordered(func, [(x,) for x in it])
        ),
        imap_unordered=lambda self, func, it, chunksize=1: iter(
            [r for _, r in _batch(func, [(x,) for x in it])]
        ),
        close=lambda self: None,
        join=lambda self: None,
        terminate=lambda self: None,
    )
    for n, f in new.items():
        setattr(P, n, f)


def uninstall():
    for n, f in REAL.items():
        if f is None:
            if n in mpp.Pool.__dict__:
                delattr(mpp.Pool, n)
        else:
            setattr(mpp.Pool, n, f)
    REAL.clear()

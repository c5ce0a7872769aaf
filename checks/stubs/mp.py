"""Stand-in for multiprocessing: tasks run on copies of their arguments (read by the analysis only, never executed)."""
POOLS = []


def cpu_count():
    return 8


def current_process():
    return None


class Lock(object):
    def acquire(self, block=True, timeout=None):
        return True

    def release(self):
        pass

    def __enter__(self):
        return True

    def __exit__(self, a, b, c):
        return False


RLock = Lock


def copied(v):
    """what a task receives: containers of numbers are copies"""
    if isinstance(v, tuple):
        return tuple([copied(x) for x in v])
    if isinstance(v, list):
        return [copied(x) for x in v]
    if hasattr(v, 'astype') and hasattr(v, '__len__'):
        return v.copy()
    return v


class Result(object):
    def __init__(self, value, error):
        self.value = value
        self.error = error

    def get(self, timeout=None):
        if self.error is not None:
            raise self.error
        return self.value

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return self.error is None


class Pool(object):
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        POOLS.append(processes)
        if initializer is not None:
            initializer(*copied(tuple(initargs)))

    def map(self, f, items, chunksize=None):
        return [copied(f(copied(x))) for x in items]

    def map_async(self, f, items, chunksize=None, callback=None):
        try:
            value, error = self.map(f, items), None
        except Exception as e:
            value, error = None, e
        if callback is not None and error is None:
            callback(value)
        return Result(value, error)

    def imap(self, f, items, chunksize=1):
        return self.map(f, items)

    def imap_unordered(self, f, items, chunksize=1):
        # any order may be returned
        return self.map(f, items)[::-1]

    def apply(self, f, args=(), kwds={}):
        return copied(f(*copied(tuple(args)), **kwds))

    def apply_async(self, f, args=(), kwds={}, callback=None):
        try:
            value, error = self.apply(f, args, kwds), None
        except Exception as e:
            value, error = None, e
        if callback is not None and error is None:
            callback(value)
        return Result(value, error)

    def close(self):
        pass

    def terminate(self):
        pass

    def join(self):
        pass

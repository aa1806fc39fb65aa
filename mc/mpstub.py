"""
A controlled replacement of processes: the manager dictionaries and the process
pool used by the homogenization engine. The tasks are run in threads that hand
over a baton; every access to a shared dictionary is a scheduling point, the
schedules are determined by a chooser. The process isolation is emulated by
pickling everything that a real process pool would pickle.
"""
import io
import pickle
import threading

_shared = {}

def _get_shared(key):
    return _shared[key]

class Pickler(pickle.Pickler):
    pass

def transfer(obj):
    """
    An object as seen by another process.
    """
    return pickle.loads(pickle.dumps(obj, protocol=4))

class Sched:
    """
    Hand over the baton among the main thread (0) and the tasks.
    """
    def __init__(self):
        self.reset()

    def reset(self, choose=None, bound=0):
        self.choose = choose if choose is not None else (lambda num: 0)
        self.bound = bound
        self.events = [threading.Event()]
        self.done = [False]
        self.waits = [None]
        self.current = 0
        self.n_points = 0
        self.n_tasks = 0

    def runnable(self):
        return [ii for ii, done in enumerate(self.done)
                if not done
                and ((self.waits[ii] is None) or self.done[self.waits[ii]])]

    def give(self, new, me):
        if new == me:
            return
        self.current = new
        self.events[me].clear()
        self.events[new].set()

    def point(self):
        """
        A shared access of the current thread.
        """
        self.n_points += 1
        if self.bound < 1:
            return
        me = self.current
        others = [ii for ii in self.runnable() if ii != me]
        if not others:
            return
        ic = self.choose(1 + len(others))
        if ic:
            self.bound -= 1
            self.switch(others[ic - 1], me)

    def switch(self, new, me):
        self.events[me].clear()
        self.current = new
        self.events[new].set()
        self.events[me].wait()

    def spawn(self, fun):
        self.n_tasks += 1
        ii = len(self.done)
        self.events.append(threading.Event())
        self.done.append(False)
        self.waits.append(None)

        def target():
            self.events[ii].wait()
            try:
                fun()
            finally:
                self.done[ii] = True
                run = self.runnable()
                new = run[self.choose(len(run)) if len(run) > 1 else 0]
                self.current = new
                self.events[new].set()

        thread = threading.Thread(target=target, daemon=True)
        thread.start()
        return ii

    def join(self, ii):
        """
        The main thread waits for a task.
        """
        if self.done[ii]:
            return
        self.waits[0] = ii
        run = self.runnable()
        new = run[self.choose(len(run)) if len(run) > 1 else 0]
        self.switch(new, 0)
        self.waits[0] = None

sched = Sched()

class SharedDict:
    """
    A proxy of a dictionary in a manager process: everything is passed by
    value.
    """
    def __init__(self, *args, **kwargs):
        self._data = {}
        self._key = id(self)
        _shared[self._key] = self
        self._data.update(transfer(dict(*args, **kwargs)))

    def __reduce__(self):
        return (_get_shared, (self._key,))

    def _access(self):
        sched.point()
        return self._data

    def __getitem__(self, key):
        return transfer(self._access()[key])

    def __setitem__(self, key, val):
        self._access()[transfer(key)] = transfer(val)

    def __delitem__(self, key):
        del self._access()[key]

    def __contains__(self, key):
        return key in self._access()

    def __len__(self):
        return len(self._access())

    def __iter__(self):
        return iter(list(self._access().keys()))

    def keys(self):
        return transfer(list(self._access().keys()))

    def values(self):
        return transfer(list(self._access().values()))

    def items(self):
        return transfer(list(self._access().items()))

    def get(self, key, default=None):
        data = self._access()
        return transfer(data[key]) if key in data else default

    def update(self, *args, **kwargs):
        self._access().update(transfer(dict(*args, **kwargs)))

    def clear(self):
        self._access().clear()

    def copy(self):
        return transfer(dict(self._access()))

    def pop(self, key, *args):
        return transfer(self._access().pop(key, *args))

    def setdefault(self, key, default=None):
        return transfer(self._access().setdefault(transfer(key),
                                                  transfer(default)))

class Manager:
    def __init__(self, *args, **kwargs):
        pass

    def dict(self, *args, **kwargs):
        return SharedDict(*args, **kwargs)

class Process:
    """
    The current process as seen by a task.
    """
    @property
    def name(self):
        if sched.current == 0:
            return 'MainProcess'
        return 'SpawnProcess-%d' % sched.current

class Future:
    def __init__(self, fun, args, kwargs):
        self.call = transfer((fun, args, kwargs))
        self.result_, self.error = None, None
        self.index = sched.spawn(self.run)

    def run(self):
        fun, args, kwargs = self.call
        try:
            self.result_ = transfer(fun(*args, **kwargs))
        except Exception as err:
            self.error = err

    def done(self):
        return sched.done[self.index]

    def result(self, timeout=None):
        sched.join(self.index)
        if self.error is not None:
            raise self.error
        return self.result_

class Pool:
    """
    A process pool.
    """
    def __init__(self, max_workers=None, **kwargs):
        self.max_workers = max_workers

    def submit(self, fun, *args, **kwargs):
        return Future(fun, args, kwargs)

    def map(self, fun, *iterables, timeout=None, chunksize=1):
        futures = [self.submit(fun, *args) for args in zip(*iterables)]

        def iterate():
            for future in futures:
                yield future.result()

        return iterate()

    def shutdown(self, wait=True, **kwargs):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False

def install(n_cpu=3):
    """
    Replace the functions of the standard library prior to the import of
    `sfepy.homogenization.multiproc`.
    """
    import multiprocessing
    import concurrent.futures

    multiprocessing.Manager = Manager
    multiprocessing.cpu_count = lambda: n_cpu
    multiprocessing.current_process = Process
    multiprocessing.set_start_method = lambda *args, **kwargs: None
    concurrent.futures.ProcessPoolExecutor = Pool

"""Simulated worker pools.

Stands in for multiprocessing.Pool and the concurrent.futures executors when a
world is active.  Work is executed on simulated workers; a seeded scheduler
decides when work is fed, which worker takes it, when it finishes, and in which
order results arrive.  Workers are isolated: arguments and results are pickled,
and in ``fork`` mode every worker really is a forked process that answers one
request at a time.
"""
import concurrent.futures as _cf
import itertools
import multiprocessing
import multiprocessing.context as _mpc
import multiprocessing.pool as _mpp
import os
import pickle
import random
import signal
import struct
import sys

from . import world as W

real_cpu_count = os.cpu_count


class WorkerDied(Exception):
    pass


class PoolSim:
    """Per-world configuration and record of all pools."""

    def __init__(self, cpus=4, seed=0, mode="inline", faults=(), policy="random"):
        self.cpus, self.seed, self.mode, self.policy = cpus, seed, mode, policy
        self.faults = list(faults)  # dicts
        self.pools = []
        self.tasks = 0  # executed items, over all pools
        self.created = 0
        self.waits = 0
        self.fired = []
        self.orders = []  # completion orders
        self.slow = 0  # seconds the next step takes, as far as a wait has a limit
        self.debt = self.timeouts = 0

    def fire(self, name):
        self.fired.append(name)
        W.cur().hit("fault:" + name)
        W.cur().ev("fault", name)

    def leaked(self):
        return [p for p in self.pools if not p.released and p.state == "RUN"]


def exc_of(name):
    return {"MemoryError": MemoryError("simulated"), "OSError": OSError(5, "simulated"),
            "ValueError": ValueError("simulated"), "FloatingPointError": FloatingPointError("simulated"),
            "KeyboardInterrupt": KeyboardInterrupt("simulated"), "RuntimeError": RuntimeError("simulated"),
            "ZeroDivisionError": ZeroDivisionError("simulated"),
            "LinAlgError": __import__("numpy").linalg.LinAlgError("simulated"),
            "StopIteration": StopIteration("simulated")}[name]


class _Raise:
    def __init__(self, name):
        self.name = name


def _call(func, args, kwds, fault):
    """One item in a worker, with the fault (if any) raised inside it."""
    if fault is None:
        return func(*args, **kwds)
    if fault["kind"] == "raise_at_line":
        from . import tsim

        with tsim.Interrupt(fault["line"], lambda: exc_of(fault["exc"])) as it:
            r = func(*args, **kwds)
        return r if it.fired else _NotFired(r)
    raise exc_of(fault["exc"])


class _NotFired:
    def __init__(self, r):
        self.r = r


class _Proc:
    """A forked worker: request / answer, one at a time."""

    def __init__(self):
        self.r1, self.w1 = os.pipe()
        self.r2, self.w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                from . import proc

                proc._die_with_parent()
                W.cur().fs = None
                W.cur().sched = None
                sys.settrace(None)
                while True:
                    n = struct.unpack("<Q", self._read(self.r1, 8))[0]
                    req = pickle.loads(self._read(self.r1, n))
                    try:
                        out = (True, _call(*req))
                    except BaseException as e:
                        out = (False, e)
                    try:
                        d = pickle.dumps(out, 5)
                    except Exception as e:
                        d = pickle.dumps((False, _mpp.MaybeEncodingError(e, out[1])), 5)
                    self._write(self.w2, struct.pack("<Q", len(d)) + d)
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(self.r1)
        os.close(self.w2)

    @staticmethod
    def _read(fd, n):
        b = bytearray()
        while len(b) < n:
            c = os.read(fd, min(n - len(b), 1 << 20))
            if not c:
                raise EOFError
            b += c
        return bytes(b)

    @staticmethod
    def _write(fd, d):
        while d:
            d = d[os.write(fd, d[:65536]):]

    def ask(self, req):
        d = pickle.dumps(req, 5)
        self._write(self.w1, struct.pack("<Q", len(d)) + d)
        n = struct.unpack("<Q", self._read(self.r2, 8))[0]
        return pickle.loads(self._read(self.r2, n))

    def stop(self):
        if self.pid:
            for fd in (self.w1, self.r2):
                os.close(fd)
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
            self.pid = 0


class _Job:
    """A set of items handed to the pool; chunks are the unit of scheduling."""

    def __init__(self, pool, source, chunk, unordered=False, callback=None, error_callback=None):
        self.pool, self.source, self.chunk = pool, source, chunk
        self.unordered = unordered
        self.next_chunk = 0
        self.exhausted = False
        self.results = {}  # chunk no -> (ok, [values] or exception)
        self.arrival = []
        self.inflight = 0
        self.lost = 0
        self.callback, self.error_callback = callback, error_callback
        self.total_chunks = None

    def done(self):
        return self.exhausted and not self.inflight and not self.lost and \
            len(self.results) == self.next_chunk

    def feed(self):
        items = []
        try:
            items = list(itertools.islice(self.source, self.chunk))
        except Exception as e:  # as _guarded_task_generation does
            self.exhausted = True
            self.results[self.next_chunk] = (False, e)
            self.arrival.append(self.next_chunk)
            self.next_chunk += 1
            return None
        if not items:
            self.exhausted = True
            return None
        k = self.next_chunk
        self.next_chunk += 1
        self.inflight += 1
        return (self, k, items)


class SimPool:
    _isolate = True

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None,
                 context=None, **kw):
        ps = W.cur().pools
        self.ps = ps
        n = processes if processes is not None else (ps.cpus or 1)
        if n < 1:
            raise ValueError("Number of processes must be at least 1")
        if initializer is not None and not callable(initializer):
            raise TypeError("initializer must be a callable")
        ps.created += 1
        W.cur().hit("pools")
        for f in ps.faults:
            if f["kind"] == "create" and f["at"] == ps.created - 1:
                ps.fire("pool_create_error")
                raise OSError(f.get("eno", 11), "simulated: cannot start worker")
        self.n = n
        self.rng = random.Random(ps.seed * 1000003 + ps.created)
        self.state = "RUN"
        self.released = False
        self.queue = []
        self.workers = [None] * n  # None or (task)
        self.dead = set()
        self.ready = []  # finished, not yet delivered
        self.jobs = []
        self.init = (initializer, initargs)
        self.inited = set()
        self.procs = {}
        self.order = []
        ps.pools.append(self)
        if ps.mode == "fork" and self._isolate:
            self.procs = {i: _Proc() for i in range(min(n, 6))}
        W.cur().ev("pool", n, ps.mode)

    # -- the scheduler --------------------------------------------------------
    def _actions(self):
        a = []
        for j in self.jobs:
            if not j.exhausted:
                a.append(("feed", j))
        if self.queue:
            for i, wk in enumerate(self.workers):
                if wk is None and i not in self.dead:
                    a.append(("take", i))
        for i, wk in enumerate(self.workers):
            if wk is not None:
                a.append(("finish", i))
        for k in range(len(self.ready)):
            a.append(("deliver", k))
        return a

    def _step(self):
        """One event. False if there is none."""
        acts = self._actions()
        if not acts:
            return False
        p = self.ps.policy
        if p == "fifo":
            order = {"deliver": 0, "finish": 1, "take": 2, "feed": 3}
            a = min(acts, key=lambda x: order[x[0]])
        elif p == "lifo":  # take everything first, finish the youngest first
            order = {"feed": 0, "take": 1, "finish": 2, "deliver": 3}
            m = min(order[x[0]] for x in acts)
            a = [x for x in acts if order[x[0]] == m][-1]
        elif p == "starve":  # one worker is much slower than the others
            fast = [x for x in acts if not (x[0] == "finish" and x[1] == 0)]
            a = fast[self.rng.randrange(len(fast))] if fast else acts[0]
        else:
            a = acts[self.rng.randrange(len(acts))]
        W.cur().hit("pool_events")
        if W.cur().clock is not None:
            W.cur().clock.tick(0.002)
        kind, x = a
        if kind == "feed":
            t = x.feed()
            if t is not None:
                self.queue.append(t)
            self._maybe_done(x)
        elif kind == "take":
            self.workers[x] = self.queue.pop(0)
            W.cur().ev("take", x, self.workers[x][1])
        elif kind == "finish":
            t = self.workers[x]
            self.workers[x] = None
            self._execute(x, t)
        else:
            job, k, res = self.ready.pop(x)
            W.cur().ev("deliver", k, res[0])
            self.order.append(k)
            job.inflight -= 1
            job.results[k] = res
            job.arrival.append(k)
            self._maybe_done(job)
        return True

    def _maybe_done(self, job):
        if job.done() and not getattr(job, "called", False):
            job.called = True
            if job.callback or job.error_callback:
                ok, v = job.final()
                cb = job.callback if ok else job.error_callback
                if cb:
                    cb(v)

    def _execute(self, wk, task):
        job, k, items = task
        ps = self.ps
        out = []
        res = None
        for it in items:
            no = ps.tasks
            ps.tasks += 1
            W.cur().hit("pool_tasks")
            fault = next((f for f in ps.faults if f["kind"] in ("raise", "raise_at_line", "die")
                          and f["at"] == no), None)
            if fault is not None and fault["kind"] == "die":
                ps.fire("worker_death")
                self._die(wk, task)
                return
            if fault is not None and fault["kind"] == "raise":
                ps.fire("worker_exception")
            try:
                v = self._run(wk, it, fault)
                if isinstance(v, _NotFired):
                    v = v.r
                elif fault is not None:
                    ps.fire("worker_exception_swallowed")
                out.append(v)
            except BaseException as e:
                if fault is not None and fault["kind"] == "raise_at_line":
                    ps.fire("worker_exception")
                if isinstance(e, (W.Violation, W.HarnessError, W.SimDeadlock)):
                    raise
                if not isinstance(e, Exception):
                    # multiprocessing workers catch Exception only; on
                    # SystemExit / KeyboardInterrupt the process goes away
                    ps.fire("worker_death")
                    self._die(wk, task)
                    return
                res = (False, e)
                break
        if res is None:
            res = (True, out)
        self.ready.append((job, k, res))

    def _die(self, wk, task):
        # multiprocessing.Pool replaces the worker but never learns which task
        # it had: the task is lost
        task[0].lost += 1
        task[0].inflight -= 1
        p = self.procs.pop(wk, None)
        if p:
            p.stop()
            self.procs[wk] = _Proc()

    def _run(self, wk, item, fault):
        func, args, kwds = item
        if not self._isolate:
            return _call(func, args, kwds, fault)
        d = pickle.dumps((func, args, kwds), 5)
        if self.procs:
            ok, v = self.procs[sorted(self.procs)[wk % len(self.procs)]].ask((*pickle.loads(d), fault))
            if not ok:
                raise v
            return v
        func, args, kwds = pickle.loads(d)
        if wk not in self.inited:
            self.inited.add(wk)
            if self.init[0]:
                self.init[0](*self.init[1])
        return pickle.loads(pickle.dumps(_call(func, args, kwds, fault), 5))

    def _wait(self, cond, timeout=None, exc=multiprocessing.TimeoutError):
        ps = self.ps
        left = timeout
        while not cond():
            if left is not None and ps.slow and ps.timeouts < 60:
                # the next chunk takes this much longer
                ps.debt = ps.debt or ps.slow
                if ps.debt > left:
                    ps.debt -= max(left, 0)
                    ps.timeouts += 1
                    ps.fire("wait_timed_out")
                    if W.cur().clock is not None:
                        W.cur().clock.tick(max(left, 0))
                    raise exc("simulated: workers are slow")
                left -= ps.debt
                ps.debt = 0
            k = ps.waits
            ps.waits += 1
            for f in ps.faults:
                if f["kind"] == "interrupt" and f["at"] == k:
                    ps.fire("interrupt_in_wait")
                    raise KeyboardInterrupt("simulated")
            if not self._step():
                raise W.SimDeadlock("result of a lost task" if any(j.lost for j in self.jobs)
                                    else "no runnable worker")

    def _add(self, job):
        if self.state != "RUN":
            raise ValueError("Pool not running")
        self.jobs.append(job)
        return job

    # -- multiprocessing.Pool interface ----------------------------------------
    def imap(self, func, iterable, chunksize=1):
        return _It(self._add(_Job(self, _items(func, iterable), chunksize)))

    def imap_unordered(self, func, iterable, chunksize=1):
        return _It(self._add(_Job(self, _items(func, iterable), chunksize, True)))

    def _map_async(self, items, chunksize, callback=None, error_callback=None):
        items = list(items)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.n * 4)
            chunksize += bool(extra)
        return _Async(self._add(_Job(self, iter(items), max(1, chunksize), callback=callback,
                                     error_callback=error_callback)))

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map_async(_items(func, iterable), chunksize, callback, error_callback)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map_async(((func, tuple(a), {}) for a in iterable), chunksize, callback, error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        r = _Async(self._add(_Job(self, iter([(func, tuple(args), dict(kwds))]), 1,
                                  callback=callback, error_callback=error_callback)), True)
        return r

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def close(self):
        if self.state == "RUN":
            self.state = "CLOSE"

    def terminate(self):
        self.state = "TERMINATE"
        self._release()

    def join(self):
        if self.state == "RUN":
            raise ValueError("Pool is still running")
        if self.state == "CLOSE":
            self._wait(lambda: not self._actions())
        self._release()

    def _release(self):
        if not self.released:
            self.released = True
            self.ps.orders.append(tuple(self.order))
            for p in self.procs.values():
                p.stop()
            self.procs = {}

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


def _items(func, iterable):
    return ((func, (x,), {}) for x in iterable)


def _final(job):
    for k in sorted(job.results):
        ok, v = job.results[k]
        if not ok:
            return False, v
    out = []
    for k in sorted(job.results):
        out.extend(job.results[k][1])
    return True, (out[0] if getattr(job, "single", False) else out)


_Job.final = _final


class _It:
    """Result iterator of imap / imap_unordered."""

    def __init__(self, job):
        self.job, self.buf, self.k, self.closed = job, [], 0, False

    def __iter__(self):
        return self

    def __next__(self):
        return self.next()

    def next(self, timeout=None):
        j = self.job
        if self.buf:
            return self.buf.pop(0)
        if self.closed:
            raise StopIteration
        if j.unordered:
            j.pool._wait(lambda: len(j.arrival) > self.k or
                         (j.exhausted and self.k == j.next_chunk), timeout)
            if len(j.arrival) <= self.k:
                raise StopIteration
            ok, v = j.results[j.arrival[self.k]]
        else:
            j.pool._wait(lambda: self.k in j.results or (j.exhausted and self.k == j.next_chunk),
                         timeout)
            if self.k not in j.results:
                raise StopIteration
            ok, v = j.results[self.k]
        self.k += 1
        if not ok:
            # with chunks of more than one item the real iterator is a generator
            self.closed = j.chunk > 1
            raise v
        self.buf = list(v)
        return self.__next__()


class _Async:
    def __init__(self, job, single=False):
        self.job = job
        job.single = single

    def ready(self):
        self.job.pool._step()
        return self.job.done()

    def successful(self):
        if not self.job.done():
            raise ValueError("not ready")
        return self.job.final()[0]

    def wait(self, timeout=None):
        try:
            self.job.pool._wait(self.job.done, timeout)
        except multiprocessing.TimeoutError:
            pass

    def get(self, timeout=None):
        self.job.pool._wait(lambda: self.job.done() or any(
            not ok for ok, _ in self.job.results.values()), timeout)
        ok, v = self.job.final()
        if not ok:
            raise v
        return v


class SimThreadPool(SimPool):
    _isolate = False


# -- concurrent.futures ---------------------------------------------------------
class SimFuture(_cf.Future):
    _pool = None
    _job = None

    def _pump(self, timeout=None):
        j = self._job
        if j.pool.broken and not self._settled():
            raise _cf.process.BrokenProcessPool("a worker died")
        j.pool._wait(lambda: j.pool.broken or self._settled(), timeout, TimeoutError)
        if j.pool.broken and not self._settled():
            raise _cf.process.BrokenProcessPool("a worker died")

    def _settled(self):
        return self._job.done()

    def result(self, timeout=None):
        self._pump(timeout)
        ok, v = self._job.final()
        if not ok:
            raise v
        return v

    def exception(self, timeout=None):
        self._pump(timeout)
        ok, v = self._job.final()
        return None if ok else v

    def done(self):
        self._job.pool._step()
        return self._settled()

    def cancel(self):
        return False


class SimExecutor(SimPool):
    broken = False

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        super().__init__(max_workers, initializer, initargs)

    def _die(self, wk, task):
        self.broken = True
        task[0].inflight -= 1
        task[0].results[task[1]] = (False, _cf.process.BrokenProcessPool("a worker died"))
        task[0].arrival.append(task[1])

    def submit(self, fn, /, *args, **kwargs):
        if self.state != "RUN":
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = SimFuture()
        f._job = self._add(_Job(self, iter([(fn, args, kwargs)]), 1))
        f._job.single = True
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        items = [(fn, a, {}) for a in zip(*iterables)]
        job = self._add(_Job(self, iter(items), chunksize if self._isolate else 1))
        return self._results(_It(job), timeout)

    @staticmethod
    def _results(it, timeout):
        # a generator, as in concurrent.futures: StopIteration from a task becomes RuntimeError
        j = it.job
        while True:
            if not it.buf:
                j.pool._wait(lambda: it.k in j.results or (j.exhausted and it.k == j.next_chunk),
                             timeout, TimeoutError)
                if it.k not in j.results:
                    return
                ok, v = j.results[it.k]
                if not ok:
                    raise v
            yield next(it)

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.state = "CLOSE"
        if wait and not self.broken:
            self._wait(lambda: not self._actions())
        self._release()

    def __exit__(self, *a):
        self.shutdown()
        return False


class SimThreadExecutor(SimExecutor):
    _isolate = False


def _as_completed(real):
    def as_completed(fs, timeout=None):
        fs = list(fs)
        if not any(isinstance(f, SimFuture) for f in fs):
            yield from real(fs, timeout)
            return
        left = list(dict.fromkeys(fs))
        while left:
            for f in left:
                if f._settled():
                    left.remove(f)
                    yield f
                    break
            else:
                p = left[0]._job.pool
                if not p._step():
                    raise W.SimDeadlock("as_completed")

    return as_completed


def install():
    real_pool, real_tp = _mpp.Pool, _mpp.ThreadPool
    real_ppe, real_tpe = _cf.ProcessPoolExecutor, _cf.ThreadPoolExecutor

    def factory(simcls, realcls):
        class Dispatch(realcls):
            def __new__(cls, *a, **k):
                if W.cur().pools is not None:
                    return simcls(*a, **k)
                return realcls(*a, **k)

        Dispatch.__name__ = realcls.__name__
        return Dispatch

    pool = factory(SimPool, real_pool)
    tpool = factory(SimThreadPool, real_tp)
    real_ctx_pool = _mpc.BaseContext.Pool

    def ctx_pool(self, *a, **k):
        if W.cur().pools is not None:
            return SimPool(*a, **k)
        return real_ctx_pool(self, *a, **k)

    def top_pool(*a, **k):
        if W.cur().pools is not None:
            return SimPool(*a, **k)
        return _mpc._default_context.Pool(*a, **k) if hasattr(_mpc, "_default_context") else real_pool(*a, **k)

    def cpu_count(*a):
        ps = W.cur().pools
        return real_cpu_count() if ps is None else ps.cpus

    def mp_cpu_count(*a):
        n = cpu_count()
        if n is None:
            raise NotImplementedError("cannot determine number of cpus")
        return n

    _mpc.BaseContext.Pool = ctx_pool
    _mpc.BaseContext.cpu_count = mp_cpu_count
    multiprocessing.Pool = top_pool
    multiprocessing.cpu_count = mp_cpu_count
    _mpp.Pool, _mpp.ThreadPool = pool, tpool
    os.cpu_count = cpu_count
    if hasattr(os, "process_cpu_count"):
        os.process_cpu_count = cpu_count
    real_aff = os.sched_getaffinity

    def aff(pid=0):
        ps = W.cur().pools
        return real_aff(pid) if ps is None else set(range(ps.cpus or 1))

    aff.real = real_aff
    os.sched_getaffinity = aff
    _cf.ProcessPoolExecutor = factory(SimExecutor, real_ppe)
    _cf.ThreadPoolExecutor = factory(SimThreadExecutor, real_tpe)
    _cf.process.ProcessPoolExecutor = _cf.ProcessPoolExecutor
    _cf.thread.ThreadPoolExecutor = _cf.ThreadPoolExecutor
    _cf.as_completed = _as_completed(_cf.as_completed)

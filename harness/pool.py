"""A stand-in for multiprocessing.Pool that runs the submitted jobs in a prescribed
schedule: S (submit; happens when the caller submits), P (the job's arguments are
pickled, as the feeder thread of a real pool does some time after submission) and
C (the job runs in its worker and its result is pickled back)."""
import contextlib
import multiprocessing as mp
import pickle


class Run:
    def __init__(self, sched):
        self.sched = list(sched)        # e.g. ["S1","P1","S2",...]
        self.k = 0
        self.jobs = []

    def submit(self, f, a, kw):
        h = Handle(self, f, a, kw)
        self.jobs.append(h)
        n = len(self.jobs)
        # run what the schedule puts before this submission ...
        while self.k < len(self.sched) and self.sched[self.k] != "S%d" % n:
            self.step()
        self.k += 1
        # ... and what follows it up to the next one
        while self.k < len(self.sched) and self.sched[self.k][0] != "S":
            self.step()
        return h

    def step(self):
        op, j = self.sched[self.k][0], int(self.sched[self.k][1:])
        self.k += 1
        if j <= len(self.jobs) and op in "PC":
            self.jobs[j - 1].take() if op == "P" else self.jobs[j - 1].finish()

    def drain(self):
        while self.k < len(self.sched):
            self.step()
        for h in self.jobs:
            h.take()
        for h in self.jobs:
            h.finish()


class Handle:
    def __init__(self, run, f, a, kw):
        self.run, self.job, self.blob, self.out = run, (f, tuple(a), dict(kw or {})), None, None

    def take(self):
        if self.blob is None:
            self.blob = pickle.dumps(self.job)

    def finish(self):
        if self.out is None:
            self.take()
            f, a, kw = pickle.loads(self.blob)
            try:
                self.out = pickle.dumps((True, f(*a, **kw)))
            except Exception as e:  # noqa: BLE001
                self.out = pickle.dumps((False, e))

    def get(self, timeout=None):
        self.run.drain()
        ok, v = pickle.loads(self.out)
        if not ok:
            raise v
        return v

    def wait(self, timeout=None):
        self.run.drain()

    def ready(self):
        return self.out is not None

    def successful(self):
        return pickle.loads(self.out)[0]


@contextlib.contextmanager
def scheduled(sched):
    """multiprocessing.Pool replaced; yields the run (run.jobs: what was submitted)."""
    run = Run(sched)

    class Pool:
        def __init__(self, *a, **k):
            pass

        def apply_async(self, f, args=(), kwds=None, callback=None, error_callback=None):
            return run.submit(f, args, kwds)

        def apply(self, f, args=(), kwds=None):
            return run.submit(f, args, kwds).get()

        def starmap_async(self, f, it, chunksize=None):
            hs = [run.submit(f, a, None) for a in it]

            class All:
                def get(self, timeout=None):
                    return [h.get() for h in hs]
            return All()

        def starmap(self, f, it, chunksize=None):
            return self.starmap_async(f, it).get()

        def map(self, f, it, chunksize=None):
            return self.starmap(f, [(a,) for a in it])

        def map_async(self, f, it, chunksize=None):
            return self.starmap_async(f, [(a,) for a in it])

        imap = map

        def close(self):
            pass

        def terminate(self):
            pass

        def join(self):
            run.drain()

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    old = mp.Pool
    mp.Pool = Pool
    try:
        yield run
    finally:
        mp.Pool = old

"""A simulated MPI world: one thread per rank, exactly one running at a time,
every communication call a scheduling point, messages delivered by the
scheduler. Schedules are drawn from a seed and fair with probability one."""
import pickle as _pickle
import sys
import threading
import types

import numpy as np

ANY_SOURCE = -1
ANY_TAG = -1


class Abort(BaseException):
    """The simulation is being torn down."""


class Status:
    def __init__(self):
        self.source = -1
        self.tag = -1
        self.error = 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag

    def Get_count(self, *a):
        return 0


class Pickle:
    def __init__(self, dumps=None, loads=None, protocol=None):
        self._d = dumps or _pickle.dumps
        self._l = loads or _pickle.loads

    def dumps(self, o, *a):
        return self._d(o)

    def loads(self, b, *a):
        return self._l(b)


class Msg:
    __slots__ = ("src", "dst", "tag", "data", "matched", "raw")


class World:
    def __init__(self, size, seed, mode="eager", max_steps=400000, pickle=None):
        self.size = size
        self.rng = np.random.RandomState(seed % 2**32)
        self.mode = mode
        self.pickle = pickle or Pickle()
        self.max_steps = max_steps
        self.flight = {}                     # (src, dst) -> list of messages
        self.mail = [[] for _ in range(size)]
        self.sems = [threading.Semaphore(0) for _ in range(size)]
        self.main = threading.Semaphore(0)
        self.block = [None] * size           # None or a predicate
        self.done = [False] * size
        self.outcome = [None] * size
        self.exits = [[] for _ in range(size)]
        self.steps = 0
        self.aborted = None
        self.events = []
        self.weight = np.exp(self.rng.uniform(-3, 0, size)) if seed % 3 else np.ones(size)
        self.lag = float(np.exp(self.rng.uniform(-4, 1)))
        self.trace = []
        self.local = threading.local()

    # -- scheduling

    def rank(self):
        return self.local.rank

    def _pick(self):
        """Deliver messages and choose the next rank. None: everybody finished or the world is stuck."""
        while True:
            self.steps += 1
            if self.steps > self.max_steps:
                self.aborted = "no progress after %d steps" % self.steps
                return None
            run = [r for r in range(self.size) if not self.done[r] and (self.block[r] is None or self.block[r]())]
            chan = [c for c, q in self.flight.items() if q]
            if not run and not chan:
                if not all(self.done):
                    self.aborted = "deadlock: ranks %r wait" % [r for r in range(self.size) if not self.done[r]]
                return None
            w = np.concatenate([self.weight[run] if run else np.zeros(0), np.full(len(chan), self.lag)])
            k = int(np.searchsorted(np.cumsum(w), self.rng.random_sample() * w.sum(), side="right"))
            k = min(k, len(w) - 1)
            if k < len(run):
                self.trace.append(run[k])
                return run[k]
            c = chan[k - len(run)]
            m = self.flight[c].pop(0)
            self.mail[m.dst].append(m)
            self.trace.append(-1 - m.dst)

    def _switch(self, me):
        nxt = self._pick()
        if nxt == me:
            return
        if nxt is None:
            self.main.release()
        else:
            self.sems[nxt].release()
        if me is not None and not self.done[me]:
            self.sems[me].acquire()
            if self.aborted:
                raise Abort()

    def yield_(self):
        me = self.rank()
        self._switch(me)
        if self.aborted:
            raise Abort()

    def wait_for(self, pred):
        me = self.rank()
        self.block[me] = pred
        self._switch(me)
        if self.aborted:
            raise Abort()
        self.block[me] = None

    # -- messages

    def post(self, obj, dst, tag, sync):
        me = self.rank()
        if not 0 <= dst < self.size:
            raise ValueError("invalid rank %r" % dst)
        if tag < 0:
            raise ValueError("invalid tag %r" % tag)
        m = Msg()
        m.src, m.dst, m.tag, m.matched = me, dst, int(tag), False
        m.data = self.pickle.dumps(obj)
        small = obj is None
        self.event("send", me, dst, tag, obj)
        self.flight.setdefault((me, dst), []).append(m)
        if sync or (self.mode == "sync" and not small):
            self.wait_for(lambda: m.matched)
        else:
            self.yield_()
        return m

    def _match(self, source, tag):
        me = self.rank()
        first, out = set(), []
        for m in self.mail[me]:
            if source not in (ANY_SOURCE, m.src):
                continue
            if tag not in (ANY_TAG, m.tag):
                continue
            if (m.src, m.tag if tag != ANY_TAG else None) in first:
                continue
            first.add((m.src, m.tag if tag != ANY_TAG else None))
            out.append(m)
        return out

    def take(self, source, tag, status):
        me = self.rank()
        self.wait_for(lambda: bool(self._match_for(me, source, tag)))
        opts = self._match_for(me, source, tag)
        m = opts[self.rng.randint(len(opts))]
        self.mail[me].remove(m)
        m.matched = True
        if status is not None:
            status.source, status.tag = m.src, m.tag
        obj = self.pickle.loads(m.data)
        self.event("recv", me, m.src, m.tag, obj)
        return obj

    def _match_for(self, rank, source, tag):
        seen, out = set(), []
        for m in self.mail[rank]:
            if source in (ANY_SOURCE, m.src) and tag in (ANY_TAG, m.tag) and m.src not in seen:
                seen.add(m.src)
                out.append(m)
        return out

    def probe(self, source, tag, status, block):
        me = self.rank()
        if block:
            self.wait_for(lambda: bool(self._match_for(me, source, tag)))
        else:
            self.yield_()
        opts = self._match_for(me, source, tag)
        if not opts:
            return False
        m = opts[self.rng.randint(len(opts))]
        if status is not None:
            status.source, status.tag = m.src, m.tag
        return True

    def event(self, *ev):
        self.events.append(ev)
        if self.on_event is not None:
            self.on_event(*ev)

    on_event = None

    # -- running

    def run(self, programs):
        """programs[r]() is run as rank r. Returns None, or why the world was stopped."""
        def body(r):
            self.local.rank = r
            self.sems[r].acquire()
            try:
                if not self.aborted:
                    try:
                        self.outcome[r] = ("returned", programs[r]())
                    except SystemExit as e:
                        self.outcome[r] = ("exit", e.code)
                    except Abort:
                        raise
                    except BaseException as e:
                        self.outcome[r] = ("raised", e)
                    for f, a, k in reversed(self.exits[r]):
                        try:
                            f(*a, **k)
                        except Abort:
                            raise
                        except BaseException as e:
                            self.outcome[r] = ("raised at exit", e)
            except Abort:
                pass
            self.done[r] = True
            if not self.aborted:
                self._switch(r)
        ts = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(self.size)]
        [t.start() for t in ts]
        first = self._pick()
        if first is not None:
            self.sems[first].release()
        self.main.acquire()
        if self.aborted:
            for s in self.sems:
                s.release()
        for t in ts:
            t.join(20)
        return self.aborted


class Request:
    def __init__(self, done):
        self.f = done

    def wait(self, status=None):
        return self.f()

    def test(self, status=None):
        return True, self.f()


class Comm:
    """What a rank sees as its communicator (one object serves all ranks)."""

    def __init__(self, world):
        self.w = world

    def Get_rank(self):
        return self.w().rank()

    def Get_size(self):
        return self.w().size

    rank = property(Get_rank)
    size = property(Get_size)

    def send(self, obj, dest, tag=0):
        self.w().post(obj, dest, tag, False)

    def ssend(self, obj, dest, tag=0):
        self.w().post(obj, dest, tag, True)

    bsend = send

    def isend(self, obj, dest, tag=0):
        w = self.w()
        mode, w.mode = w.mode, "eager"
        try:
            w.post(obj, dest, tag, False)
        finally:
            w.mode = mode
        return Request(lambda: None)

    issend = isend

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return self.w().take(source, tag, status)

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return Request(lambda: self.w().take(source, tag, None))

    def Iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return self.w().probe(source, tag, status, False)

    def Probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return self.w().probe(source, tag, status, True)

    iprobe = Iprobe
    probe = Probe


CURRENT = [None]


def install():
    """Put a fake mpi4py in place. Returns the MPI module."""
    pk = types.ModuleType("mpi4py")
    mp = types.ModuleType("mpi4py.MPI")
    mp.ANY_SOURCE, mp.ANY_TAG, mp.Status = ANY_SOURCE, ANY_TAG, Status
    mp.pickle = Pickle()
    mp.COMM_WORLD = Comm(lambda: CURRENT[0])
    mp.PROC_NULL = -2
    pk.MPI = mp
    pk.rc = types.SimpleNamespace()
    sys.modules["mpi4py"] = pk
    sys.modules["mpi4py.MPI"] = mp
    return mp

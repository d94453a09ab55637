"""A deterministic stand-in for an MPI world: every rank runs the real code in
its own thread, one at a time; collectives rendezvous.  A rank that finishes or
fails while others wait in a collective is reported as a deadlock."""
import copy
import threading

import numpy as np


class Deadlock(Exception):
    """Some rank waits for a collective that never completes."""


class Comm:
    def __init__(self, world, rank):
        self.w, self.rank = world, rank
        self.size = world.size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _c(self, op, *a):
        return self.w.collective(self.rank, op, a)

    def Barrier(self):
        return self._c("Barrier")

    barrier = Barrier

    def bcast(self, obj=None, root=0):
        return self._c("bcast", obj, root)

    def Bcast(self, buf, root=0):
        r = self._c("Bcast", buf, root)
        if self.rank != root:
            buf[:] = r

    def allreduce(self, obj, op="SUM"):
        return self._c("allreduce", obj, op)

    def reduce(self, obj, op="SUM", root=0):
        r = self._c("allreduce", obj, op)
        return r if self.rank == root else None

    def gather(self, obj, root=0):
        r = self._c("allgather", obj)
        return r if self.rank == root else None

    def allgather(self, obj):
        return self._c("allgather", obj)

    def scatter(self, obj, root=0):
        r = self._c("bcast", obj, root)
        return r[self.rank]

    def Allreduce(self, send, recv, op="SUM"):
        inpl = isinstance(send, str)
        r = self._c("Allreduce", (recv if inpl else send), op)
        recv[...] = r

    def Reduce(self, send, recv, op="SUM", root=0):
        inpl = isinstance(send, str)
        r = self._c("Allreduce", (recv if inpl else send), op)
        if self.rank == root:
            recv[...] = r

    def Abort(self, code=1):
        raise SystemExit(code)


def _cp(x, memo=None):
    """What another rank receives: a copy; classes of the package are sent by
    reference (as pickle does) and resolve to the receiver's own."""
    try:
        return copy.deepcopy(x, dict(memo or {}))
    except Exception:
        return x


class _Err:
    def __init__(self, ex):
        self.ex = ex


def _fold(xs, op):
    r = xs[0]
    for x in xs[1:]:
        if op == "SUM":
            r = r + x
        elif op == "MAX":
            r = x if x > r else r
        elif op == "MIN":
            r = x if x < r else r
        elif callable(op):      # mpi4py takes any function of two objects
            r = op(r, x)
        else:
            raise NotImplementedError(op)
    return r


class World:
    def __init__(self, size):
        self.size = size
        self.cv = threading.Condition()
        self.turn = 0
        self.state = ["ready"] * size
        self.pend = [None] * size
        self.res = [None] * size
        self.out = [None] * size
        self.exc = [None] * size
        self.dead = False
        self.nops = 0
        self.loaders = None

    def collective(self, rank, op, args):
        if self.size == 1 and False:
            pass
        with self.cv:
            if self.dead:
                raise Deadlock()
            self.pend[rank] = (op, args)
            self.state[rank] = "wait"
            self._next(rank)
            while not (self.turn == rank and self.state[rank] == "ready"):
                if self.dead:
                    raise Deadlock()
                self.cv.wait()
            if self.dead:
                raise Deadlock()
            r = self.res[rank]
            if isinstance(r, _Err):
                raise r.ex
            return r

    def _next(self, rank):
        """Pass the baton (lock held)."""
        if all(s in ("wait", "done") for s in self.state):
            if all(s == "done" for s in self.state):
                self.turn = -1
            elif any(s == "done" for s in self.state) or \
                    len({p[0] for p in self.pend}) > 1:
                self.dead = True
                self.turn = -1
            else:
                self._complete()
        for d in range(1, self.size + 1):
            r = (rank + d) % self.size
            if self.state[r] == "ready":
                self.turn = r
                break
        self.cv.notify_all()

    def _complete(self):
        self.nops += 1
        op = self.pend[0][0]
        A = [p[1] for p in self.pend]
        try:
            if op in ("bcast", "Bcast"):
                root = A[0][1]
                v = A[root][0]
                out = [v if r == root else _cp(v, self._memo(root, r))
                       for r in range(self.size)]
            elif op == "Barrier":
                out = [None] * self.size
            elif op == "allgather":
                out = [[_cp(a[0], self._memo(q, r)) for q, a in enumerate(A)]
                       for r in range(self.size)]
            elif op == "allreduce":
                v = _fold([_cp(a[0]) for a in A], A[0][1])
                out = [_cp(v) for _ in range(self.size)]
            elif op == "Allreduce":
                v = _fold([a[0].copy() for a in A], A[0][1])
                out = [v] * self.size
            else:
                raise NotImplementedError(op)
        except BaseException as ex:
            out = [_Err(ex)] * self.size
        for r in range(self.size):
            self.res[r] = out[r]
            self.pend[r] = None
            self.state[r] = "ready"

    def _memo(self, src, dst):
        m = {}
        if self.loaders and src != dst:
            a, b = self.loaders[src].mods, self.loaders[dst].mods
            for name, mod in list(a.items()):
                for k, v in list(mod.__dict__.items()):
                    if isinstance(v, type) and v.__module__ == name:
                        if name not in b:
                            self.loaders[dst].load(name)
                        w = b[name].__dict__.get(k)
                        if w is not None:
                            m[id(v)] = w
        return m

    def run(self, fn):
        """fn(comm) on every rank; returns [(value, exception)]."""
        def body(rank):
            with self.cv:
                while self.turn != rank:
                    if self.dead:
                        break
                    self.cv.wait()
            try:
                if self.dead:
                    raise Deadlock()
                self.out[rank] = fn(Comm(self, rank))
            except BaseException as e:
                self.exc[rank] = e
            with self.cv:
                self.state[rank] = "done"
                self._next(rank)
        ts = [threading.Thread(target=body, args=(r,), daemon=True)
              for r in range(self.size)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return list(zip(self.out, self.exc))


class SoloComm:
    """A single rank, no threads."""
    rank, size = 0, 1

    def Get_rank(self):
        return 0

    def Get_size(self):
        return 1

    def Barrier(self):
        pass

    barrier = Barrier

    def bcast(self, obj=None, root=0):
        return obj

    def Bcast(self, buf, root=0):
        pass

    def allreduce(self, obj, op="SUM"):
        return obj

    def reduce(self, obj, op="SUM", root=0):
        return obj

    def gather(self, obj, root=0):
        return [obj]

    def allgather(self, obj):
        return [obj]

    def scatter(self, obj, root=0):
        return obj[0]

    def Allreduce(self, send, recv, op="SUM"):
        if not isinstance(send, str):
            recv[...] = send

    Reduce = lambda self, send, recv, op="SUM", root=0: self.Allreduce(
        send, recv, op)

    def Abort(self, code=1):
        raise SystemExit(code)

"""Path-exploring symbolic engine: the verification-condition generator.

The real functions run under CPython on symbolic values; every conditional on
a symbolic value splits the path (both sides explored by re-execution), every
contract clause becomes an obligation  path condition & facts => clause  that
z3 (cvc5 as second opinion) must discharge."""
import itertools
import numbers
import time

import z3

from .solver import DualSolver

from .terms import (
    simp_int,
    Unsupported, TRUE, FALSE, R0, R1, rv, iv, num, same, zand, zor, znot, zite,
    toreal, toint_b, zadd, zsub, zneg, zmul, poly, padd, pdiv, unpoly,
    as_int_affine, pzero, frac, pmulm, _ATOMS)

_cur = [None]


def _site():
    import sys
    f = sys._getframe(2)
    while f is not None and "/vf/" in f.f_code.co_filename:
        f = f.f_back
    return f"{f.f_code.co_filename[-24:]}:{f.f_lineno}" if f else ""


def E():
    e = _cur[0]
    if e is None:
        raise Unsupported("no engine")
    return e


class PathEnd(BaseException):
    """The current path is infeasible (assume failed)."""


def _decls(e):
    out, seen, st = set(), set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED \
                and x.num_args():
            out.add(x.decl().name())
        st.extend(x.children())
    return out


class Sum:
    __slots__ = ("c", "n", "body", "kind", "cbody")

    def __init__(self, c, n, body, kind, cbody):
        self.c, self.n, self.body, self.kind = c, n, body, kind
        self.cbody = cbody


class Ob:
    """One discharged / failed obligation."""
    __slots__ = ("label", "status", "model", "t", "backend", "info")

    def __init__(self, label, status, model=None, t=0., backend="z3", info=""):
        self.label, self.status, self.model = label, status, model
        self.t, self.backend, self.info = t, backend, info


class Eng:
    MAXDEPTH = 1

    def __init__(self, prefix, timeout=8000, deadline=None):
        self.prefix = prefix
        self.trace = []          # decisions taken: (bool, alternative open?)
        self.pc = []
        self.solver = DualSolver()
        self.solver.set("timeout", timeout)
        self.timeout = timeout
        self.deadline = deadline
        self.cnt = itertools.count()
        self.nterms = 0
        self.root = {}           # index-space union-find (length term ids)
        self.sterms = {}         # space -> [(term, depth)]
        self.sset = {}           # space -> term ids
        self.sufs = {}           # space -> [(fn, done ids)]
        self.depth = 0
        self.maxdepth = self.MAXDEPTH
        self.deferred = {}
        self.pending = []
        self.trigs = []
        self.sumeq = {}
        self.symmemo = {}
        self.mb_s = 0.0
        self.noreg = 0
        self.sums = []
        self.sumkey = {}
        self.sumbyc = {}
        self.sumlem = {}
        self.positive = set()
        self.intfns = {}
        self.obs = []
        self.rec = None
        self.range_rule = None
        self.wlog = None
        self.tokens = {}
        self.inputs = []
        self.solver_s = 0.0
        self.nq = 0
        self.havoc = False       # an over-approximation was used on this path
        self.unsup = None
        self.objs = []           # keep-alive
        self.ent_cache = {}
        self.alen = []           # input length terms (for small models)
        self.loops = 0
        self.nbr = 0
        self.spec = 0
        self.covered = set()

    # ---------------------------------------------------------------- names
    def fresh(self, base, sort):
        return z3.Const(f"{base}!{next(self.cnt)}", sort)

    def fint(self, base="i"):
        return self.fresh(base, z3.IntSort())

    def freal(self, base="x"):
        return self.fresh(base, z3.RealSort())

    def fbool(self, base="b"):
        return self.fresh(base, z3.BoolSort())

    def ffun(self, base, *sorts):
        return z3.Function(f"{base}!{next(self.cnt)}", *sorts)

    # ---------------------------------------------------------------- facts
    def fact(self, c):
        """Ground fact, valid on this path from now on."""
        if z3.is_true(c):
            return
        self.solver.add(c)

    # index terms are typed by the length they range over; a universal fact
    # over 0<=i<n is instantiated on the terms of space n only
    def space(self, n):
        n = num(n) if num(n) is not None else simp_int(n)
        while z3.is_expr(n) and z3.is_app_of(n, z3.Z3_OP_ITE):
            # a length clamped at 0 shares the space of the unclamped one
            # (facts carry their own range)
            if num(n.arg(2)) == 0:
                n = simp_int(n.arg(1))
            elif num(n.arg(1)) == 0:
                n = simp_int(n.arg(2))
            else:
                break
        if z3.is_expr(n) and num(n) is not None:
            n = num(n)
        i = ("c", int(n)) if not z3.is_expr(n) else n.get_id()
        if i not in self.root:
            self.root[i] = i
            self.objs.append(n)
            self.sterms[i], self.sset[i], self.sufs[i] = [], set(), []
        r = i
        while self.root[r] != r:
            r = self.root[r]
        self.root[i] = r
        return r

    def same_space(self, a, b):
        a, b = self.space(a), self.space(b)
        if a == b:
            return
        self.root[b] = a
        for t, d in self.sterms.pop(b):
            if t.get_id() not in self.sset[a]:
                self.sset[a].add(t.get_id())
                self.sterms[a].append((t, d))
        self.sset.pop(b)
        self.sufs[a].extend(self.sufs.pop(b))

    def ufact(self, fn, n):
        """Universal fact over indices of space n: fn(term) -> z3 Bool."""
        self.sufs[self.space(n)].append((fn, set()))

    def reg(self, t, n):
        """Register an index term of space n for instantiation."""
        if self.noreg:
            return
        r = self.space(n)
        i = t.get_id()
        if i in self.sset[r]:
            return
        d = self.depth
        if d > self.maxdepth:
            self.deferred.setdefault((i, r), (t, d))
            return
        if len(self.sterms[r]) > 60 and d > 0:
            return
        self.sset[r].add(i)
        self.sterms[r].append((t, d))
        self.nterms += 1

    def deepen(self):
        """Allow one more level of instantiation; True if terms appeared."""
        if self.maxdepth >= 3 or not self.deferred:
            return False
        self.maxdepth += 1
        n = self.nterms
        for (i, r), (t, d) in list(self.deferred.items()):
            while self.root[r] != r:
                r = self.root[r]
            if d <= self.maxdepth and i not in self.sset[r] and \
                    len(self.sterms[r]) <= 60:
                self.sset[r].add(i)
                self.sterms[r].append((t, d))
                self.nterms += 1
        self.deferred = {k: v for k, v in self.deferred.items()
                         if v[1] > self.maxdepth}
        return self.nterms > n

    def trigger(self, fn1=None, fn2=None):
        """Fact instantiated only on the terms passed to the returned
        callable: fn1(t) per term, fn2(s, t) per ordered pair."""
        seen, ids = [], set()
        self.trigs.append((fn1, fn2))

        def trig(t):
            if self.noreg:
                return
            i = t.get_id()
            if i in ids:
                return
            if len(ids) > 40:
                return
            ids.add(i)
            self.pending.append((fn1, fn2, t, list(seen)))
            seen.append(t)
        return trig

    def flush(self):
        done = False
        guard = 0
        while not done:
            done = True
            guard += 1
            if guard > 60:
                break
            while self.pending:
                f1, f2, t, seen = self.pending.pop()
                sv = self.depth
                self.depth = self.maxdepth + 1
                try:
                    if f1 is not None:
                        self.fact(f1(t))
                    if f2 is not None:
                        for q in seen:
                            self.fact(f2(q, t))
                            self.fact(f2(t, q))
                finally:
                    self.depth = sv
            for r in list(self.sufs):
                if r not in self.sufs:
                    continue
                for fn, seen in list(self.sufs[r]):
                    if r not in self.sufs:
                        break
                    if len(seen) >= len(self.sterms[r]):
                        continue
                    for t, d in list(self.sterms[r]):
                        if t.get_id() in seen:
                            continue
                        seen.add(t.get_id())
                        done = False
                        sv = self.depth
                        self.depth = d + 1
                        try:
                            c = fn(t)
                        finally:
                            self.depth = sv
                        if not z3.is_true(c):
                            self.solver.add(c)
            if self.pending:
                done = False
            if time.time() > (self.deadline or 1e18):
                raise Unsupported("time budget exhausted")

    # --------------------------------------------------------------- solver
    def _check(self, *assump, timeout=None, full=True):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget exhausted")
        t0 = time.time()
        self.nq += 1
        if timeout:
            self.solver.set("timeout", timeout)
        r = self.solver.check(*assump, full=full)
        if timeout:
            self.solver.set("timeout", self.timeout)
        self.solver_s += time.time() - t0
        return r

    def entail(self, c, timeout=2000, full=False):
        """pc & facts |= c ?  (sound: False when unknown)"""
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = (c.get_id(), len(self.pc), full)
        hit = self.ent_cache.get(key)
        if hit is not None and (hit[1] or hit[2] == self.nterms):
            return hit[1]
        self.flush()
        self.solver.push()
        self.solver.add(znot(c))
        r = self._check(timeout=timeout, full=full) == z3.unsat
        self.solver.pop()
        self.ent_cache[key] = (c, r, self.nterms)
        return r

    def add_pc(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def branch(self, c):
        """Decide a symbolic condition on this path."""
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        cs = z3.simplify(c)
        if z3.is_true(cs):
            return True
        if z3.is_false(cs):
            return False
        k = len(self.trace)
        site = _site()
        if k < len(self.prefix):
            # replay: every earlier decision is recorded, forced ones too
            v, psite = self.prefix[k]
            if psite != site:
                raise Unsupported(f"replay misaligned: {psite} / {site}")
            self.trace.append((v, False, site))
            self.add_pc(c if v else znot(c))
            return v
        if self.entail(c, full=True, timeout=500):
            self.trace.append((True, False, site))
            return True
        if self.entail(znot(c), full=True, timeout=500):
            self.trace.append((False, False, site))
            return False
        if self.rec is not None:
            raise Unsupported("data-dependent branch inside a symbolic loop")
        self.nbr += 1
        if self.nbr > 80:
            raise Unsupported("too many branches on one path")
        self.trace.append((True, True, site))
        self.add_pc(c)
        return True

    def choose(self, n):
        """Nondeterministic choice among n (complete enumeration)."""
        site = _site()
        for i in range(n - 1):
            k = len(self.trace)
            if k < len(self.prefix):
                v, psite = self.prefix[k]
                if psite != site:
                    raise Unsupported("replay misaligned")
                self.trace.append((v, False, site))
            else:
                v = True
                self.trace.append((True, True, site))
            if v:
                return i
        return n - 1

    def assume(self, c):
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd()
        self.add_pc(c)

    def feasible(self):
        self.flush()
        return self._check(timeout=800) != z3.unsat

    # ----------------------------------------------------------------- sums
    KSUM = z3.Int("k!sum")

    def mksum(self, n, body, kind="sum"):
        """Sum (or product) over 0<=k<n of body(k) (z3 Real)."""
        n = simp_int(n)
        nn = num(n)
        if nn is not None and nn <= 12:
            acc = R0 if kind != "prod" else R1
            for i in range(int(nn)):
                b = toreal(body(iv(i)))
                acc = zmul(acc, b) if kind == "prod" else zadd(acc, b)
            return acc
        self.noreg += 1
        try:
            cb = toreal(body(self.KSUM))
        finally:
            self.noreg -= 1
        if kind != "prod" and num(cb) is not None:
            return zmul(toreal(zite(n >= 0, n, iv(0))), cb)
        key = (n.get_id(), cb.get_id(), kind)
        if key in self.sumkey:
            return self.sumkey[key].c
        c = self.freal(kind)
        s = Sum(c, n, body, kind, cb)
        self.objs.append((n, cb))
        self.sumkey[key] = s
        self.sums.append(s)
        self.sumbyc[c.get_id()] = s
        return c

    def mkcount(self, n, pred):
        """Number of 0<=k<n with pred(k): Int term."""
        n = simp_int(n)
        nn = num(n)
        if nn is not None and nn <= 12:
            acc = iv(0)
            for i in range(int(nn)):
                acc = zadd(acc, zite(pred(iv(i)), iv(1), iv(0)))
            return acc
        self.noreg += 1
        try:
            cb = pred(self.KSUM)
        finally:
            self.noreg -= 1
        if z3.is_true(cb):
            return zite(n >= 0, n, iv(0))
        if z3.is_false(cb):
            return iv(0)
        key = (n.get_id(), cb.get_id(), "count")
        if key in self.sumkey:
            return self.sumkey[key].c
        c = self.fint("count")
        s = Sum(c, n, pred, "count", cb)
        self.objs.append((n, cb))
        self.sumkey[key] = s
        self.sums.append(s)
        self.sumbyc[c.get_id()] = s
        w = self.fint("wit")
        self.fact(c >= 0)
        self.fact(z3.Implies(n >= 0, c <= n))
        self.reg(w, n)
        sv, self.noreg = self.noreg, 0
        self.fact(zor(c == 0, zand(w >= 0, w < n, pred(w))))
        w2 = self.fint("wit")
        self.reg(w2, n)
        self.fact(zor(c >= n, zand(w2 >= 0, w2 < n, znot(pred(w2)))))
        self.noreg = sv
        self.ufact(lambda i: z3.Implies(
            zand(i >= 0, i < n), zite(pred(i), c >= 1, c < n)), n)
        return c

    def _sumconsts(self, e, acc, seen):
        st = [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if i in self.sumbyc:
                acc[i] = self.sumbyc[i]
            st.extend(x.children())

    def sum_lemma(self, a, b):
        """Try to prove a.c == b.c by pointwise equality of the bodies."""
        key = (a.c.get_id(), b.c.get_id())
        if key in self.sumlem:
            return
        self.sumlem[key] = True
        kinds = {a.kind, b.kind}
        if "prod" in kinds and len(kinds) > 1:
            return
        sk = self.fint("sk")
        self.reg(sk, a.n)
        ba, bb = a.body(sk), b.body(sk)
        if a.kind == b.kind == "count":
            eq = ba == bb
        else:
            ba, bb = toreal(ba), toreal(bb)
            eq = TRUE if pzero(ba, bb) else ba == bb
        if not (same(a.n, b.n) or self.entail(a.n == b.n, full=False)):
            return
        self.same_space(a.n, b.n)
        if not z3.is_true(eq):
            self.flush()
            self.solver.push()
            self.solver.add(sk >= 0, sk < a.n, znot(eq))
            r = self._check(timeout=2000, full=_decls(ba) == _decls(bb))
            self.solver.pop()
            if r != z3.unsat:
                return
        self.fact(toreal(a.c) == toreal(b.c))
        ra, rb = self.sumrep(a.c), self.sumrep(b.c)
        if not ra.eq(rb) and ra.sort() == rb.sort():
            self.sumeq[rb.get_id()] = (rb, ra)

    def sumrep(self, c):
        while c.get_id() in self.sumeq:
            c = self.sumeq[c.get_id()][1]
        return c

    def _isolated(self, goal):
        """The goal over canonical sums with the facts about its own symbols
        only: small enough for nonlinear reasoning."""
        if self.sumeq:
            goal = z3.substitute(goal, *[
                (b, self.sumrep(b)) for b, _ in self.sumeq.values()])
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return True
        if self.solver.abs(goal).eq(goal):
            return False         # nothing nonlinear
        gs = self._syms(goal)
        if len(gs) > 12:
            return False
        s = z3.Solver()
        s.set("timeout", 2500)
        k = 0
        for c in self.solver.assertions():
            cs = self._syms(c)
            if cs and cs <= gs:
                s.add(c)
                k += 1
                if k > 150:
                    break
        s.add(znot(goal))
        t0 = time.time()
        self.nq += 1
        r = s.check()
        self.solver_s += time.time() - t0
        return r == z3.unsat

    def _local(self, goal):
        """The goal with the facts about its own symbols only, when the
        context is large."""
        goal = z3.simplify(goal)
        asr = self.solver.assertions()
        if len(asr) < 250:
            return False
        gs = self._syms(goal)
        if len(gs) > 150:
            return False
        s = z3.Solver()
        s.set("timeout", 1500)
        for c in asr:
            cs = self._syms(c)
            if cs and cs <= gs:
                s.add(c)
        s.add(znot(goal))
        t0 = time.time()
        self.nq += 1
        r = s.check()
        self.solver_s += time.time() - t0
        return r == z3.unsat

    def _syms(self, e):
        i = e.get_id()
        hit = self.symmemo.get(i)
        if hit is not None:
            return hit[1]
        out, seen, st = set(), set(), [e]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st.extend(x.children())
        self.symmemo[i] = (e, out)
        return out

    def sum_sign(self, a):
        key = (a.c.get_id(), "sign")
        if key in self.sumlem or a.kind == "count":
            return
        self.sumlem[key] = True
        sk = self.fint("sk")
        self.reg(sk, a.n)
        b = toreal(a.body(sk))
        self.flush()
        self.solver.push()
        self.solver.add(sk >= 0, sk < a.n)
        if a.kind == "prod":
            self.solver.add(z3.Not(b > 0))
        else:
            self.solver.add(z3.Not(b >= 0))
        r = self._check(timeout=3000)
        self.solver.pop()
        if r == z3.unsat:
            if a.kind == "prod":
                self.fact(a.c > 0)
            else:
                self.fact(a.c >= 0)
                self.ufact(lambda i: z3.Implies(
                    zand(i >= 0, i < a.n), toreal(a.body(i)) <= a.c), a.n)
                w = self.fint("wit")
                self.reg(w, a.n)
                self.fact(zor(a.c <= 0, zand(
                    w >= 0, w < a.n, toreal(a.body(w)) > 0)))

    # ---------------------------------------------------------------- prove
    def prove(self, label, goal, timeout=None):
        t0 = time.time()
        timeout = timeout or self.timeout
        self.covered.add(label)
        if z3.is_true(goal):
            self.obs.append(Ob(label, "proved", t=0., backend="syntactic"))
            return True
        goals = [goal]
        if z3.is_and(goal):
            goals = goal.children()
        status, model, backend, info = "proved", None, "z3", ""
        for g in goals:
            s, m, b, inf = self._prove1(g, timeout)
            if b != "z3":
                backend = b
            if s != "proved":
                status, model, info = s, m, inf
                break
        self.obs.append(
            Ob(label, status, model, time.time() - t0, backend, info))
        if status == "proved":
            self.fact(goal)
        return status == "proved"

    def _prove1(self, goal, timeout):
        if z3.is_true(goal):
            return "proved", None, "z3", ""
        r, why = z3.unknown, ""
        for rnd in range(6):
            full = False
            if rnd == 1:
                acc = {}
                self._sumconsts(goal, acc, set())
                inpc = dict(acc)
                seen = set()
                for c in self.pc:
                    self._sumconsts(c, inpc, seen)
                if not inpc:
                    continue
                for a in list(acc.values()):
                    for b in inpc.values():
                        if a is not b and a.c.get_id() < b.c.get_id() \
                                or b.c.get_id() not in acc:
                            self.sum_lemma(a, b)
            elif rnd == 2:
                acc = {}
                self._sumconsts(goal, acc, set())
                inpc = dict(acc)
                for c in self.pc:
                    self._sumconsts(c, inpc, set())
                if not inpc:
                    continue
                for a in list(inpc.values()):
                    self.sum_sign(a)
                cs = list(inpc.values())
                for a in cs:
                    for b in cs:
                        if a.c.get_id() < b.c.get_id():
                            self.sum_lemma(a, b)
            elif rnd == 3:
                full = True
            elif rnd == 4:
                if not self.deepen() and r != z3.unknown:
                    continue
                full = "nra"
            elif rnd == 5:
                if not self.deepen():
                    break
                full = "nra"
            if rnd == 0 and self._local(goal):
                return "proved", None, "z3", ""
            self.flush()
            if rnd < 3 and self._isolated(goal):
                return "proved", None, "z3", ""
            self.solver.push()
            self.solver.add(znot(goal))
            r = self._check(timeout=timeout, full=full)
            why = self.solver.reason_unknown() if r == z3.unknown else ""
            self.solver.pop()
            if r == z3.unsat:
                return "proved", None, "z3", ""
        if r == z3.sat:
            st, m = self._model_based(goal, timeout)
            if st == "unsat":
                return "proved", None, "z3", ""
            if st == "sat":
                return "failed", m, "z3", "sat"
            # a candidate only: not every universal fact was checked on it
            return "unknown", m, "z3", "no complete model within the limits"
        r2 = self._cvc5(goal, timeout)
        if r2 == "unsat":
            return "proved", None, "cvc5", ""
        return "unknown", None, "z3", why

    def _model_based(self, goal, timeout, rounds=14):
        """The solver has a model of the instances chosen so far: look for
        universal facts the model breaks and add those instances, on index
        terms of the same value when there are any, until the model respects
        every fact, or none is left."""
        t0 = time.time()
        st, m = "partial", None
        self.solver.push()
        keep = []
        try:
            self.solver.add(znot(goal))
            for rnd in range(rounds):
                r = self._check(timeout=timeout, full="nra")
                if r == z3.unsat:
                    st, m = "unsat", None
                    break
                if r != z3.sat:
                    st = "unknown" if m is None else st
                    break
                m = self._small_model()
                if self.mb_s + time.time() - t0 > 40 or \
                        time.time() - t0 > 15:
                    break
                new = self._violated(m)
                if not new:
                    st = "sat"
                    break
                for c in new:
                    keep.append(c)
                    self.solver.add(c)
        finally:
            self.solver.pop()
            self.mb_s += time.time() - t0
        if st == "unsat":
            for c in keep:
                self.solver.add(c)
        return st, m

    def _violated(self, m, limit=40):
        def val(t):
            v = m.eval(t, model_completion=True)
            return v.as_long() if z3.is_int_value(v) else None
        byval = {}
        for r in list(self.sterms):
            for t, d in self.sterms[r]:
                v = val(t)
                if v is not None and v >= 0:
                    byval.setdefault(v, [])
                    if len(byval[v]) < 6 and not any(
                            t.eq(q) for q in byval[v]):
                        byval[v].append(t)
        vals = sorted(set(range(6)) | {v for v in byval if v <= 40})
        out = []
        sv, self.noreg = self.noreg, self.noreg + 1

        def bad(c):
            return z3.is_false(m.eval(c, model_completion=True))
        try:
            for r in list(self.sufs):
                for fn, seen in list(self.sufs[r]):
                    for v in vals:
                        c = fn(iv(v))
                        if z3.is_true(c) or not bad(c):
                            continue
                        ts = [t for t in byval.get(v, [])]
                        k = len(out)
                        for t in ts:
                            c2 = fn(t)
                            if bad(c2):
                                out.append(c2)
                        if len(out) == k:
                            out.append(c)
                        if len(out) >= limit:
                            return out
            for f1, f2 in self.trigs:
                for v in vals:
                    if f1 is not None:
                        c = f1(iv(v))
                        if bad(c):
                            k = len(out)
                            for t in byval.get(v, []):
                                c2 = f1(t)
                                if bad(c2):
                                    out.append(c2)
                            if len(out) == k:
                                out.append(c)
                    if f2 is None:
                        continue
                    for w in vals:
                        if v == w:
                            continue
                        c = f2(iv(v), iv(w))
                        if not bad(c):
                            continue
                        k = len(out)
                        for t in byval.get(v, [])[:3]:
                            for u in byval.get(w, [])[:3]:
                                c2 = f2(t, u)
                                if bad(c2):
                                    out.append(c2)
                        if len(out) == k:
                            out.append(c)
                    if len(out) >= limit:
                        return out
        finally:
            self.noreg = sv
        return out

    def _small_model(self):
        m = self.solver.model()
        for bound in (4, 7, 12):
            self.solver.push()
            for n in self.alen:
                self.solver.add(n <= bound)
            if self._check(timeout=3000, full="nra") == z3.sat:
                m = self.solver.model()
                self.solver.pop()
                return m
            self.solver.pop()
        return m

    def _cvc5(self, goal, timeout):
        try:
            import cvc5
        except Exception:
            return "unknown"
        s = z3.Solver()
        s.add(self.solver.assertions())
        s.add(znot(goal))
        txt = s.to_smt2()
        try:
            tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
            sl = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
            sl.setOption("tlimit-per", str(int(timeout)))
            p = cvc5.InputParser(sl)
            p.setStringInput(
                cvc5.InputLanguage.SMT_LIB_2_6,
                "(set-logic ALL)\n" + txt, "q")
            sm = p.getSymbolManager()
            t0 = time.time()
            out = "unknown"
            while True:
                cmd = p.nextCommand()
                if cmd.isNull():
                    break
                o = str(cmd.invoke(sl, sm)).strip()
                if o in ("unsat", "sat"):
                    out = o
            self.solver_s += time.time() - t0
            return out
        except Exception:
            return "unknown"


# ------------------------------------------------------------------- scalars
def pos_factor(p):
    """Divide the polynomial by powers of atoms known to be positive."""
    e = _cur[0]
    if e is None or not p:
        return p
    for a in e.positive:
        exps = [dict(m).get(a, 0) for m in p]
        mn = min(exps)
        if mn != 0:
            p = {pmulm(m, ((a, -mn),)): c for m, c in p.items()}
    return p


def zcmp(op, a, b):
    """a op b for Int/Real z3 terms, op in < <= > >= == !=."""
    if op == ">":
        return zcmp("<", b, a)
    if op == ">=":
        return zcmp("<=", b, a)
    if op == "!=":
        return znot(zcmp("==", a, b))
    if a.sort() != b.sort():
        a, b = toreal(a), toreal(b)
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return z3.BoolVal({"<": na < nb, "<=": na <= nb, "==": na == nb}[op])
    if same(a, b):
        return z3.BoolVal(op != "<")
    if a.sort() == z3.RealSort():
        try:
            p0 = padd(poly(a), poly(b), -1)
        except Unsupported:
            p0 = None
        if p0 is not None:
            c = None if p0 and () not in p0 else (
                p0.get((), 0) if len(p0) <= 1 else None)
            if c is not None:
                return z3.BoolVal({"<": c < 0, "<=": c <= 0, "==": c == 0}[op])
            p = pos_factor(p0)
            af = as_int_affine(p)
            if af is not None:
                n, f = af
                if op == "<":
                    return zcmp("<", n, iv(0)) if f == 0 else \
                        zcmp("<=", n, iv(-1))
                if op == "<=":
                    return zcmp("<=", n, iv(0)) if f == 0 else \
                        zcmp("<=", n, iv(-1))
                return zcmp("==", n, iv(0)) if f == 0 else FALSE
            if p != p0:
                t = unpoly(p)
                return {"<": t < 0, "<=": t <= 0, "==": t == 0}[op]
    return {"<": a < b, "<=": a <= b, "==": a == b}[op]


def zdiv_real(a, b):
    nb = num(b)
    if nb is not None and nb != 0:
        na = num(a)
        if na is not None:
            return rv(na / nb)
        return a * rv(1 / nb) if nb != 1 else a
    try:
        p, q = poly(a), poly(b)
        r = pdiv(p, q)
        if len(r) <= 8 and not any(
                k < 0 for m in r for k, _ in m):
            neg = any(x < 0 for m in r for _, x in m)
            if not neg:
                return unpoly(r)
    except Unsupported:
        pass
    return a / b


_INTERN = {}
_INTERN_REV = {}


def intern(s):
    s = str(s)
    if s not in _INTERN:
        _INTERN[s] = len(_INTERN) + 1000
        _INTERN_REV[_INTERN[s]] = s
    return _INTERN[s]


class Sc:
    """Symbolic scalar."""
    __slots__ = ("k", "v", "bad")
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, k, v, bad=None):
        self.k, self.v = k, v
        self.bad = FALSE if bad is None else bad

    # -- python protocol
    def __bool__(self):
        if self.k == 'b':
            return E().branch(self.v)
        if self.k in 'if':
            return E().branch(zor(self.bad, zcmp("!=", self.v, num0(self.v))))
        raise Unsupported("truth of a symbolic string")

    def __hash__(self):
        return 7

    def __index__(self):
        n = num(self.v)
        if n is not None and self.k in 'ib':
            return int(n)
        if self.k in 'ib':
            e = E()
            v = toint_b(self.v)
            for c in range(9):
                if e.branch(zcmp("==", v, iv(c))):
                    return c
        raise Unsupported("symbolic value used as a concrete index")

    def __int__(self):
        n = num(z3.simplify(self.v)) if self.k != 'b' else None
        if n is not None:
            return int(n)
        raise Unsupported("int() of a symbolic value")

    def __float__(self):
        n = num(z3.simplify(self.v)) if self.k != 'b' else None
        if n is not None:
            return float(n)
        raise Unsupported("float() of a symbolic value")

    def __format__(self, spec):
        return token(self)

    def __str__(self):
        return token(self)

    def __repr__(self):
        return f"Sc({self.k},{self.v})"

    def __deepcopy__(self, memo):
        return self

    # -- numpy-scalar-like surface
    shape = ()
    ndim = 0
    size = 1

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        return DT(self.k)

    def copy(self, *a):
        return self

    def item(self):
        return self

    def astype(self, t):
        return cast(self, kind_of_dtype(t))

    def sum(self, *a, **k):
        return self

    def all(self):
        return self

    any = all

    def max(self):
        return self

    min = max

    def __round__(self, nd=None):
        return s_round(self)

    def is_integer(self):
        return Sc('b', self.v == z3.ToReal(z3.ToInt(self.v)))

    # -- operators
    def __add__(self, o):
        return arith("+", self, o)

    def __radd__(self, o):
        return arith("+", o, self)

    def __sub__(self, o):
        return arith("-", self, o)

    def __rsub__(self, o):
        return arith("-", o, self)

    def __mul__(self, o):
        return arith("*", self, o)

    def __rmul__(self, o):
        return arith("*", o, self)

    def __truediv__(self, o):
        return arith("/", self, o)

    def __rtruediv__(self, o):
        return arith("/", o, self)

    def __floordiv__(self, o):
        return arith("//", self, o)

    def __rfloordiv__(self, o):
        return arith("//", o, self)

    def __mod__(self, o):
        return arith("%", self, o)

    def __rmod__(self, o):
        return arith("%", o, self)

    def __pow__(self, o):
        return arith("**", self, o)

    def __rpow__(self, o):
        return arith("**", o, self)

    def __neg__(self):
        if self.k == 'b':
            raise Unsupported("negative of bool")
        return Sc(self.k, zneg(self.v), self.bad)

    def __pos__(self):
        return self

    def __abs__(self):
        return s_abs(self)

    def __invert__(self):
        if self.k == 'b':
            return Sc('b', znot(self.v))
        return Sc('i', zsub(iv(-1), self.v))

    def __and__(self, o):
        return arith("&", self, o)

    def __rand__(self, o):
        return arith("&", o, self)

    def __or__(self, o):
        return arith("|", self, o)

    def __ror__(self, o):
        return arith("|", o, self)

    def __xor__(self, o):
        return arith("^", self, o)

    __rxor__ = __xor__

    def __lt__(self, o):
        return arith("<", self, o)

    def __le__(self, o):
        return arith("<=", self, o)

    def __gt__(self, o):
        return arith(">", self, o)

    def __ge__(self, o):
        return arith(">=", self, o)

    def __eq__(self, o):
        return arith("==", self, o)

    def __ne__(self, o):
        return arith("!=", self, o)


def num0(v):
    return iv(0) if v.sort() == z3.IntSort() else R0


class DT:
    """Stand-in for a numpy dtype."""
    def __init__(self, k, names=None, kinds=None):
        self.kind = {'s': 'U'}.get(k, k)
        self.k = k
        self.names = names
        self.fields = kinds

    def __eq__(self, o):
        try:
            return kind_of_dtype(o) == self.k
        except Exception:
            return False

    def __hash__(self):
        return 3


def kind_of_dtype(t):
    import numpy as np
    if t is None:
        return 'f'
    if isinstance(t, DT):
        return t.k
    if callable(t) and getattr(t, "_vfkind", None):
        return t._vfkind
    if t is float:
        return 'f'
    if t is int:
        return 'i'
    if t is bool:
        return 'b'
    if t is str:
        return 's'
    k = np.dtype(t).kind
    if k in 'iu':
        return 'i'
    if k in 'US':
        return 's'
    if k in 'fb':
        return k
    raise Unsupported(f"dtype {t}")


def token(s):
    e = E()
    n = num(s.v) if s.k in 'is' else None
    if n is not None:
        if s.k == 'i':
            return str(int(n))
        if int(n) in _INTERN_REV:
            return _INTERN_REV[int(n)]
    key = f"\u27e6{s.k}{s.v.get_id()}\u27e7"
    e.tokens[key] = s
    return key


def is_scalar(x):
    import numpy as np
    return isinstance(x, (Sc, numbers.Number, np.generic, bool)) \
        and not isinstance(x, complex)


def lift(x):
    import numpy as np
    if isinstance(x, Sc):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Sc('b', z3.BoolVal(bool(x)))
    if isinstance(x, (int, np.integer)):
        return Sc('i', iv(int(x)))
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if f != f or f in (float("inf"), float("-inf")):
            return Sc('f', R0, TRUE)
        return Sc('f', rv(f))
    if isinstance(x, (str, np.str_, bytes)):
        return Sc('s', iv(intern(x)))
    raise Unsupported(f"cannot lift {type(x)}")


def promote(a, b):
    """Same numeric kind for arithmetic."""
    if a.k == 's' or b.k == 's':
        raise Unsupported("arithmetic on strings")
    if a.k == 'f' or b.k == 'f':
        return 'f', toreal(a.v), toreal(b.v)
    return 'i', toint_b(a.v), toint_b(b.v)


def arith(op, a, b):
    import numpy as np
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        from . import arr
        return arr.binop(op, arr.as_arr(a), arr.as_arr(b))
    try:
        if not is_scalar(a) and not isinstance(a, str):
            return NotImplemented
        if not is_scalar(b) and not isinstance(b, str):
            return NotImplemented
        a, b = lift(a), lift(b)
    except Unsupported:
        if op == "==":
            return False
        if op == "!=":
            return True
        raise
    return arith_s(op, a, b)


def arith_s(op, a, b):
    bad = zor(a.bad, b.bad)
    if op in ("==", "!=", "<", "<=", ">", ">="):
        if a.k == 's' or b.k == 's':
            if a.k != b.k:
                return Sc('b', z3.BoolVal(op == "!="))
            return Sc('b', zcmp(op, a.v, b.v))
        if a.k == 'b' and b.k == 'b' and op in ("==", "!="):
            r = a.v == b.v
            if z3.is_true(b.v):
                r = a.v
            elif z3.is_false(b.v):
                r = znot(a.v)
            return Sc('b', r if op == "==" else znot(r))
        _, x, y = promote(a, b)
        r = zcmp(op, x, y)
        if op == "!=":
            r = zor(bad, r)
        else:
            r = zand(znot(bad), r)
        return Sc('b', r)
    if op in ("&", "|", "^"):
        if a.k == 'b' and b.k == 'b':
            if op == "&":
                return Sc('b', zand(a.v, b.v))
            if op == "|":
                return Sc('b', zor(a.v, b.v))
            return Sc('b', z3.Xor(a.v, b.v))
        raise Unsupported("integer bit operation")
    k, x, y = promote(a, b)
    if op == "+":
        return Sc(k, zadd(x, y), bad)
    if op == "-":
        return Sc(k, zsub(x, y), bad)
    if op == "*":
        return Sc(k, zmul(x, y), bad)
    if op == "/":
        x, y = toreal(x), toreal(y)
        bad = zor(bad, zcmp("==", y, R0))
        if z3.is_true(bad):
            return Sc('f', R0, TRUE)
        return Sc('f', zdiv_real(x, y), bad)
    if op in ("//", "%"):
        n = num(y)
        if k == 'i':
            if n is None or n == 0:
                if not E().entail(y > 0):
                    raise Unsupported("integer division by a symbolic value")
            if n is not None and n < 0:
                raise Unsupported("division by a negative integer")
            nx = num(x)
            if nx is not None and n is not None:
                return Sc('i', iv(nx // n if op == "//" else nx % n))
            if op == "%" and E().entail(zand(x >= 0, x < y)):
                return Sc('i', x)
            return Sc('i', x / y if op == "//" else x % y)
        raise Unsupported("float floor division")
    if op == "**":
        return s_pow(a, b)
    raise Unsupported(op)


def s_pow(a, b):
    n = num(b.v)
    if n is not None and n.denominator == 1:
        n = int(n)
        v = a.v if a.k != 'b' else toint_b(a.v)
        if 0 <= n <= 8:
            r = iv(1) if v.sort() == z3.IntSort() else R1
            for _ in range(n):
                r = zmul(r, v)
            return Sc(a.k if a.k != 'b' else 'i', r, a.bad)
        if -4 <= n < 0:
            return arith_s("/", lift(1.0), s_pow(Sc('f', toreal(v), a.bad),
                                                 lift(-n)))
    if n is not None and n == frac(0.5):
        return s_fun("sqrt", a)
    if num(a.v) is not None and b.k in 'if':
        f = z3.Function("powc", z3.RealSort(), z3.RealSort(), z3.RealSort())
        base = toreal(a.v)
        r = f(base, toreal(b.v))
        if num(base) > 0:
            E().fact(r > 0)
        return Sc('f', r, zor(a.bad, b.bad))
    # symbolic exponent, integer power of a symbolic base
    f = z3.Function("pows", z3.RealSort(), z3.RealSort(), z3.RealSort())
    return Sc('f', f(toreal(a.v), toreal(b.v)), zor(a.bad, b.bad))


_UF = {}


def ufun(name, nargs=1):
    key = (name, nargs)
    if key not in _UF:
        _UF[key] = z3.Function(name, *([z3.RealSort()] * (nargs + 1)))
    return _UF[key]


def s_fun(name, a):
    """sqrt exp log log10 ... of a scalar (uninterpreted + ground axioms)."""
    a = lift(a)
    x = toreal(a.v)
    n = num(x)
    e = E()
    f = ufun("np_" + name)
    r = f(x)
    bad = a.bad
    if name == "log10" and n is not None and n > 0:
        # of a power of ten (as the floating-point value)
        import math
        q = round(math.log10(float(n)))
        if float(n) == 10.0 ** q:
            return Sc('f', rv(q), bad)
    if name == "sqrt":
        if n is not None and n >= 0:
            import math
            p, q = math.isqrt(n.numerator), math.isqrt(n.denominator)
            if p * p == n.numerator and q * q == n.denominator:
                from fractions import Fraction
                return Sc('f', rv(Fraction(p, q)), bad)
        e.fact(z3.Implies(x >= 0, zand(r >= 0, r * r == x)))
        e.fact(z3.Implies(x > 0, r > 0))
        bad = zor(bad, zcmp("<", x, R0))
    elif name == "exp":
        e.fact(r > 0)
        e.fact(z3.And(z3.Implies(x <= 0, r <= 1), z3.Implies(x >= 0, r >= 1)))
    elif name in ("log", "log10"):
        bad = zor(bad, zcmp("<=", x, R0))
        e.fact(z3.Implies(x == 1, r == 0))
        e.fact(z3.Implies(x > 1, r > 0))
        e.fact(z3.Implies(zand(x > 0, x < 1), r < 0))
    return Sc('f', r, bad)


def s_abs(a):
    z = num0(a.v)
    return Sc(a.k, zite(zcmp("<", a.v, z), zneg(a.v), a.v), a.bad)


def affine_of(x):
    """(Int term N, fraction c) with x == N + c, 0<=c<1, or None."""
    try:
        return as_int_affine(poly(x))
    except Unsupported:
        return None


def s_trunc(a):
    """C-style truncation of a real to int."""
    if a.k != 'f':
        return Sc('i', toint_b(a.v))
    x = a.v
    n = num(x)
    if n is not None:
        return Sc('i', iv(int(n)))
    af = affine_of(x)
    if af is not None:
        N, c = af
        if c == 0:
            return Sc('i', N)
        return Sc('i', zite(N >= 0, N, zadd(N, iv(1))))
    f = z3.ToInt(x)
    return Sc('i', zite(x >= 0, f, zneg(z3.ToInt(-x))))


def s_round(a):
    """Round half to even."""
    if a.k != 'f':
        return a
    x = a.v
    n = num(x)
    if n is not None:
        return Sc('i', iv(round(n)))
    af = affine_of(x)
    if af is not None:
        N, c = af
        if c * 2 < 1:
            return Sc('i', N)
        if c * 2 > 1:
            return Sc('i', zadd(N, iv(1)))
        return Sc('i', zite(N % 2 == 0, N, zadd(N, iv(1))))
    f = z3.ToInt(x)
    d = x - z3.ToReal(f)
    h = rv("1/2") if False else z3.RealVal("1/2")
    return Sc('i', zite(d < h, f, zite(d > h, f + 1, zite(
        f % 2 == 0, f, f + 1))))


def cast(a, k):
    a = lift(a)
    if a.k == k:
        return a
    if k == 'f':
        return Sc('f', toreal(a.v), a.bad)
    if k == 'i':
        return s_trunc(a)
    if k == 'b':
        if a.k == 's':
            raise Unsupported("bool of string")
        return Sc('b', zor(a.bad, zcmp("!=", a.v, num0(a.v))))
    raise Unsupported(f"cast {a.k} to {k}")


def s_ite(c, a, b):
    """c: z3 Bool."""
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    a, b = lift(a), lift(b)
    if a.k == b.k:
        return Sc(a.k, zite(c, a.v, b.v), zite(c, a.bad, b.bad))
    k, x, y = promote(a, b)
    return Sc(k, zite(c, x, y), zite(c, a.bad, b.bad))


def s_isnan(a):
    return Sc('b', lift(a).bad)


def mk(k, v):
    return Sc(k, v)

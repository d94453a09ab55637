"""Solver front: every query goes first to a linear abstraction (products of
unknowns become uninterpreted symbols with sign facts), which is sound for
'unsat'; only what it cannot refute goes to the full theory."""
import z3

R = z3.RealSort()
I = z3.IntSort()
_MUL = {"r": z3.Function("vf_mul", R, R, R), "i": z3.Function(
    "vf_muli", I, I, I)}
_DIV = z3.Function("vf_div", R, R, R)
_ARITH = {z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD,
          z3.Z3_OP_POWER, z3.Z3_OP_REM}


def _raw(name):
    """The foreign function without the per-call error check."""
    f = getattr(z3.z3core, name)
    try:
        return f.__defaults__[0].f
    except (TypeError, AttributeError, IndexError):
        return f


# accessors cannot fail on well-formed terms: skip their error checks
for _n in ("get_ast_id", "get_ast_kind", "get_app_num_args", "get_app_arg",
           "get_app_decl", "get_decl_kind", "inc_ref", "dec_ref", "is_app",
           "get_sort", "get_sort_kind", "is_eq_ast", "get_sort_id",
           "is_numeral_ast", "to_app", "to_func_decl", "get_decl_num_parameters",
           "is_well_sorted", "mk_int_sort", "mk_real_sort", "mk_bool_sort"):
    try:
        getattr(z3.z3core, "Z3_" + _n).__defaults__[0].Check = \
            lambda ctx: None
    except (TypeError, AttributeError, IndexError):
        pass

_C = z3.main_ctx().ref()
_ID, _KIND, _NARGS, _ARG, _DECL, _DK = (
    _raw("Z3_get_ast_id"), _raw("Z3_get_ast_kind"), _raw("Z3_get_app_num_args"),
    _raw("Z3_get_app_arg"), _raw("Z3_get_app_decl"), _raw("Z3_get_decl_kind"))


def _isnum(t):
    return z3.is_rational_value(t) or z3.is_int_value(t) or (
        z3.is_app_of(t, z3.Z3_OP_TO_REAL) and z3.is_int_value(t.arg(0)))


class Abs:
    def __init__(self):
        self.memo = {}
        self.keep = []
        self.facts = []
        self.nl = False
        self.lin, self.nlset = set(), set()
        self.seen = set()

    def product(self, a, b):
        if a.get_id() > b.get_id():
            a, b = b, a
        f = _MUL["r" if a.sort() == R else "i"]
        p = f(a, b)
        if p.get_id() not in self.seen:
            self.seen.add(p.get_id())
            self.keep.append(p)
            self.facts += [
                (p == 0) == z3.Or(a == 0, b == 0),
                (p > 0) == z3.Or(z3.And(a > 0, b > 0), z3.And(a < 0, b < 0))]
            if a.eq(b):
                self.facts.append(p >= 0)
            else:
                self.facts.append(p == f(b, a))
        return p

    def quotient(self, a, b):
        q = _DIV(a, b)
        if q.get_id() not in self.seen:
            self.seen.add(q.get_id())
            self.keep.append(q)
            self.facts += [
                z3.Implies(b != 0, (q == 0) == (a == 0)),
                z3.Implies(b > 0, (q > 0) == (a > 0)),
                z3.Implies(b < 0, (q > 0) == (a < 0)),
                z3.Implies(z3.And(a == b, b != 0), q == 1)]
        return q

    def islinear(self, t):
        """No product or quotient of unknowns below t (raw traversal)."""
        ok, nlset = self.lin, self.nlset
        ast = t.as_ast()
        st = [ast]
        while st:
            x = st[-1]
            i = _ID(_C, x)
            if i in ok or i in nlset:
                st.pop()
                continue
            if _KIND(_C, x) != z3.Z3_APP_AST:
                ok.add(i)
                st.pop()
                continue
            n = _NARGS(_C, x)
            if n == 0:
                ok.add(i)
                st.pop()
                continue
            todo, bad = [], False
            ch = [_ARG(_C, x, j) for j in range(n)]
            for c in ch:
                j = _ID(_C, c)
                if j in nlset:
                    bad = True
                elif j not in ok:
                    todo.append(c)
            if todo and not bad:
                st.extend(todo)
                continue
            st.pop()
            if bad:
                nlset.add(i)
                continue
            k = _DK(_C, _DECL(_C, x))
            if k == z3.Z3_OP_MUL:
                m = 0
                for c in ch:
                    if _KIND(_C, c) != z3.Z3_NUMERAL_AST and not (
                            _NARGS(_C, c) == 1 and _DK(_C, _DECL(_C, c))
                            == z3.Z3_OP_TO_REAL and _KIND(_C, _ARG(
                                _C, c, 0)) == z3.Z3_NUMERAL_AST):
                        m += 1
                bad = m > 1
            elif k == z3.Z3_OP_DIV:
                bad = _KIND(_C, ch[1]) != z3.Z3_NUMERAL_AST
            elif k == z3.Z3_OP_POWER:
                bad = True
            (nlset if bad else ok).add(i)
        return t.get_id() in ok

    def __call__(self, t):
        self.keep.append(t)
        if self.islinear(t):
            return t
        memo = self.memo
        st = [t]
        while st:
            x = st[-1]
            i = x.get_id()
            if i in memo:
                st.pop()
                continue
            if i in self.lin:
                memo[i] = x
                st.pop()
                continue
            ch = x.children()
            todo = [c for c in ch if c.get_id() not in memo]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            memo[i] = self.node(x, ch)
            self.keep.append(x)
        return memo[t.get_id()]

    def node(self, x, ch):
        if not ch:
            return x
        nc = [self.memo[c.get_id()] for c in ch]
        k = x.decl().kind()
        if k == z3.Z3_OP_MUL:
            nums = [c for c in nc if _isnum(c)]
            oth = [c for c in nc if not _isnum(c)]
            if len(oth) > 1:
                self.nl = True
                oth = sorted(oth, key=lambda c: c.get_id())
                p = oth[0]
                for c in oth[1:]:
                    p = self.product(p, c)
                for c in nums:
                    p = c * p
                return p
        elif k == z3.Z3_OP_DIV:
            if not _isnum(nc[1]):
                self.nl = True
                return self.quotient(nc[0], nc[1])
        elif k == z3.Z3_OP_POWER:
            self.nl = True
        if all(a.eq(b) for a, b in zip(ch, nc)):
            return x
        if k == z3.Z3_OP_AND:
            return z3.And(*nc)
        if k == z3.Z3_OP_OR:
            return z3.Or(*nc)
        return x.decl()(*nc)


class DualSolver:
    def __init__(self):
        self.full = z3.Solver()
        self.lin = z3.Solver()
        self.abs = Abs()
        self.pend = []           # abstraction facts to add at level 0
        self.frames = [[]]       # assertions, for the lazily fed full solver
        self.fsync = [0]
        self.timeout = 8000
        self.last = None
        self.lin_ms = 1500
        self.nra = True
        self.nlin = self.nfull = 0

    def set(self, k, v):
        if k == "timeout":
            self.timeout = v
        self.full.set(k, v)
        # without products the linear solver is the full one
        self.lin.set(k, min(v, self.lin_ms) if self.abs.nl else v)

    def add(self, *cs):
        for c in cs:
            if isinstance(c, (list, tuple)):
                self.add(*c)
                continue
            if isinstance(c, bool):
                c = z3.BoolVal(c)
            self.frames[-1].append(c)
            self.lin.add(self.abs(c))
        if self.abs.facts:
            # sign facts are valid everywhere; those added inside a push are
            # re-added when it ends
            fs, self.abs.facts = self.abs.facts, []
            self.lin.add(*fs)
            if len(self.frames) > 1:
                self.pend.extend(fs)

    def push(self):
        self.frames.append([])
        self.lin.push()

    def pop(self):
        self.frames.pop()
        self.lin.pop()
        if len(self.fsync) > len(self.frames):
            self.full.pop()
            self.fsync.pop()
        if self.pend:
            self.lin.add(*self.pend)
            if len(self.frames) == 1:
                self.pend = []

    def sync(self):
        for i, fr in enumerate(self.frames):
            if i >= len(self.fsync):
                # what was added below since must come before the push
                self.full.push()
                self.fsync.append(0)
            elif i < len(self.fsync) - 1 and self.fsync[i] < len(fr):
                while len(self.fsync) > i + 1:
                    self.full.pop()
                    self.fsync.pop()
            if self.fsync[i] < len(fr):
                self.full.add(*fr[self.fsync[i]:])
                self.fsync[i] = len(fr)

    def check(self, *a, full=True):
        r = self.lin.check(*a)
        self.nlin += 1
        if r == z3.unsat or not self.abs.nl:
            self.last = self.lin
            return r
        if not full:
            self.last = self.lin
            return z3.unknown
        self.nfull += 1
        self.last = self.full
        self.sync()
        # nlsat only where the answer decides an obligation: it ignores
        # time limits
        nra = full == "nra"
        if nra != self.nra:
            self.nra = nra
            self.full.set("smt.arith.nl.nra", nra)
        return self.full.check(*a)

    def model(self):
        return self.last.model()

    def reason_unknown(self):
        return self.last.reason_unknown()

    def assertions(self):
        return [c for fr in self.frames for c in fr]

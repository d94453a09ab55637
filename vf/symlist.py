"""Lists of symbolic length and the loop rule.

`for x in lst` over a SymList is decided by an invariant the contract
registers (engine.loop_rule): established before the loop, assumed for an
arbitrary state, preserved by one execution of the *real* loop body on an
arbitrary element, and assumed on exit.  No iteration is unrolled."""
import sys

import z3

from .terms import Unsupported, iv, num, zand
from .engine import E, Sc, lift, PathEnd, zcmp
from . import arr as A

IS = z3.IntSort()


def _snap(loc, skip):
    """Shallow picture of the locals the loop body might carry state in."""
    out = {}
    for k, v in loc.items():
        if any(v is s for s in skip):
            continue
        c = None
        if type(v) in (list, tuple):
            c = tuple(id(x) for x in v)
        elif type(v) is dict:
            c = tuple((str(a), id(b)) for a, b in v.items())
        elif type(v) is set:
            c = len(v)
        elif isinstance(v, A.SymArr):
            c = id(v.buf._fn)
        out[k] = (id(v), c, v)
    return out


class SymList:
    def __init__(self, n, elem, ghost=None):
        self.n = A.zi(n)
        self.elem = elem            # z3 Int -> element
        self.perm = None            # element order relative to the original
        self.sorted_by = None

    def size_sc(self):
        return A.pyint(self.n)

    def __len__(self):
        c = num(self.n)
        if c is None:
            raise Unsupported("len() of a symbolic list")
        return int(c)

    def at(self, k):
        return self.elem(self.perm(k) if self.perm else k)

    def __getitem__(self, k):
        if isinstance(k, slice):
            raise Unsupported("slice of a symbolic list")
        k = A.zi(k)
        e = E()
        if num(k) is not None and num(k) < 0:
            k = self.n + k
        if not e.branch(zand(k >= 0, k < self.n)):
            raise IndexError("list index out of range")
        return self.at(k)

    def sort(self, key=None, reverse=False):
        """Any permutation (ordering facts are not needed so far)."""
        e = E()
        p, q = e.ffun("lperm", IS, IS), e.ffun("liperm", IS, IS)
        n = self.n

        def uf(t):
            e.reg(p(t), n)
            e.reg(q(t), n)
            return z3.Implies(zand(t >= 0, t < n), zand(
                p(t) >= 0, p(t) < n, q(p(t)) == t, q(t) >= 0, q(t) < n,
                p(q(t)) == t))
        e.ufact(uf, n)
        old = self.perm
        if old is None:
            self.perm = lambda k: p(k)
        else:
            self.perm = lambda k: old(p(k))

    def _vf_sorted(self, key=None, reverse=False):
        r = SymList(self.n, self.elem)
        r.perm = self.perm
        r.sort(key=key, reverse=reverse)
        return r

    def __iter__(self):
        e = E()
        rule = getattr(e, "loop_rule", None)
        if rule is None:
            raise Unsupported("loop over a symbolic list")
        fr = sys._getframe(1)
        loc0 = dict(fr.f_locals)
        st = rule.state(loc0)
        rule.init(st)
        if e.choose(2) == 0:
            rule.havoc(st)
            k = e.fint("iter")
            e.add_pc(zand(k >= 0, k < self.n))
            e.reg(k, self.n)
            x = self.at(k)
            rule.element(self, k, x)
            pre = _snap(loc0, st)
            yield x
            # reached only when the body completed normally
            loc2 = dict(sys._getframe(1).f_locals)
            post = _snap(loc2, st)
            for nm in pre:
                # state the invariant does not cover
                if nm in post and pre[nm][:2] != post[nm][:2]:
                    raise Unsupported(f"loop changes {nm}: not covered by "
                                      "the invariant")
            rule.preserved(rule.state(loc2), x)
            raise PathEnd()
        rule.havoc(st)
        return

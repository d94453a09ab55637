"""Scalar terms: z3 expressions with smart constructors and a rational-function
normaliser.  Reals are mathematical reals; "bad" marks a non-finite value."""
from fractions import Fraction
import numbers

import z3

R0, R1 = z3.RealVal(0), z3.RealVal(1)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


class Unsupported(Exception):
    """A construct outside the engine's subset: the run is undecided."""


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    return Fraction(repr(float(x)))


def rv(x):
    return z3.RealVal(str(frac(x)))


def iv(x):
    return z3.IntVal(int(x))


def num(e):
    """Fraction value if e is a numeral, else None."""
    if _gak(_ctx, e.ast) != _NUM:
        return None
    i = e.get_id()
    h = _NC.get(i)
    if h is not None:
        return h[1]
    if z3.is_int_value(e):
        r = Fraction(e.as_long())
    elif z3.is_rational_value(e):
        r = Fraction(e.numerator_as_long(), e.denominator_as_long())
    else:
        return None
    _NC[i] = (e, r)
    return r


_gak = z3.Z3_get_ast_kind
_NUM = z3.Z3_NUMERAL_AST
_ctx = z3.main_ctx().ref()
_NC = {}


def same(a, b):
    return a.get_id() == b.get_id()


_T, _F = TRUE.get_id(), FALSE.get_id()


def zand(*cs):
    out, seen = [], set()
    for c in cs:
        i = c.get_id()
        if i == _T:
            continue
        if i == _F:
            return FALSE
        if i not in seen:
            seen.add(i)
            out.append(c)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else z3.And(*out)


def zor(*cs):
    out, seen = [], set()
    for c in cs:
        i = c.get_id()
        if i == _F:
            continue
        if i == _T:
            return TRUE
        if i not in seen:
            seen.add(i)
            out.append(c)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else z3.Or(*out)


def znot(c):
    i = c.get_id()
    if i == _T:
        return FALSE
    if i == _F:
        return TRUE
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def zite(c, a, b):
    i = c.get_id()
    if i == _T:
        return a
    if i == _F:
        return b
    if same(a, b):
        return a
    return z3.If(c, a, b)


def toreal(e):
    if e.sort() == z3.RealSort():
        return e
    n = num(e)
    if n is not None:
        return rv(n)
    if e.sort() == z3.BoolSort():
        return zite(e, R1, R0)
    return z3.ToReal(e)


def toint_b(e):
    if e.sort() == z3.BoolSort():
        return zite(e, iv(1), iv(0))
    return e


def zadd(a, b):
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return iv(na + nb) if a.sort() == z3.IntSort() else rv(na + nb)
    if na == 0:
        return b
    if nb == 0:
        return a
    return a + b


def zsub(a, b):
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return iv(na - nb) if a.sort() == z3.IntSort() else rv(na - nb)
    if nb == 0:
        return a
    if same(a, b):
        return iv(0) if a.sort() == z3.IntSort() else R0
    return a - b


def zneg(a):
    n = num(a)
    if n is not None:
        return iv(-n) if a.sort() == z3.IntSort() else rv(-n)
    return -a


def zmul(a, b):
    na, nb = num(a), num(b)
    isint = a.sort() == z3.IntSort()
    if na is not None and nb is not None:
        return iv(na * nb) if isint else rv(na * nb)
    if na == 0 or nb == 0:
        return iv(0) if isint else R0
    if na == 1:
        return b
    if nb == 1:
        return a
    # distribute over ite with numeral zero branches keeps products small
    return a * b


# ---------------------------------------------------------------- polynomials
# poly: dict  monomial -> Fraction, monomial: tuple of (atom key, exponent)
_ATOMS = {}


def _atom(e):
    _ATOMS[e.get_id()] = e
    return {((e.get_id(), 1),): Fraction(1)}


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def pmulm(m1, m2):
    d = dict(m1)
    for a, e in m2:
        x = d.get(a, 0) + e
        if x == 0:
            d.pop(a)
        else:
            d[a] = x
    return tuple(sorted(d.items()))


def pmul(p, q):
    r = {}
    if len(p) * len(q) > 400:
        raise Unsupported("polynomial too large")
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = pmulm(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return r


def pconst(p):
    if not p:
        return Fraction(0)
    if len(p) == 1 and () in p:
        return p[()]
    return None


_PC = {}


def poly(e):
    """Laurent polynomial over atoms.  Division by a non-monomial becomes a
    product with an opaque inverse atom."""
    key = e.get_id()
    hit = _PC.get(key)
    if hit is not None:
        return hit[1]
    r = _poly(e)
    _PC[key] = (e, r)
    return r


def _poly(e):
    n = num(e)
    if n is not None:
        return {(): n} if n != 0 else {}
    k = e.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return poly(e.arg(0))
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in e.children():
            r = padd(r, poly(c))
        return r
    if k == z3.Z3_OP_SUB:
        r = poly(e.arg(0))
        for c in e.children()[1:]:
            r = padd(r, poly(c), -1)
        return r
    if k == z3.Z3_OP_UMINUS:
        return padd({}, poly(e.arg(0)), -1)
    if k == z3.Z3_OP_MUL:
        r = {(): Fraction(1)}
        try:
            for c in e.children():
                r = pmul(r, poly(c))
        except Unsupported:
            return _atom(e)
        return r
    if k == z3.Z3_OP_DIV:
        d = pdiv(poly(e.arg(0)), poly(e.arg(1)))
        return d
    if k == z3.Z3_OP_POWER:
        n = num(e.arg(1))
        if n is not None and n.denominator == 1 and 0 <= n <= 6:
            r = {(): Fraction(1)}
            for _ in range(int(n)):
                r = pmul(r, poly(e.arg(0)))
            return r
    return _atom(e)


def pdiv(p, q):
    """p / q, cancelling where possible (q assumed nonzero: callers carry a
    separate bad flag for q == 0)."""
    if not p:
        return {}
    c = pconst(q)
    if c is not None:
        if c == 0:
            return _atom(z3.Real("div!by!zero"))
        return {m: v / c for m, v in p.items()}
    if len(q) == 1:
        (m, c), = q.items()
        inv = tuple((a, -e) for a, e in m)
        return {pmulm(m1, inv): v / c for m1, v in p.items()}
    # exact quotient by one monomial?
    qs = sorted(q.items())
    for m1, c1 in p.items():
        for mq, cq in qs:
            f = pmulm(m1, tuple((a, -e) for a, e in mq))
            t = {f: c1 / cq}
            if pmul(t, q) == p:
                return t
    # normalise q: divide by the leading coefficient and monomial content
    lead = qs[0][1]
    qn = {m: v / lead for m, v in q.items()}
    atom = z3.simplify(unpoly(qn))
    inv = {((-1 - _reg(qn, atom), 1),): 1 / lead}
    return pmul(p, inv)


_INV = {}


def _reg(qn, e):
    key = tuple(sorted(qn.items()))
    if key not in _INV:
        _INV[key] = (len(_INV), e)
        _ATOMS[-len(_INV)] = R1 / e
    return _INV[key][0]


def unpoly(p, sort=None):
    """z3 Real term from poly."""
    terms = []
    for m, c in sorted(p.items(), key=lambda t: str(t[0])):
        t = None
        den = None
        for a, e in m:
            x = toreal(_ATOMS[a])
            for _ in range(abs(e)):
                if e > 0:
                    t = x if t is None else t * x
                else:
                    den = x if den is None else den * x
        if t is None:
            t = rv(c)
        elif c != 1:
            t = rv(c) * t
        if den is not None:
            t = t / den
        terms.append(t)
    if not terms:
        return R0
    r = terms[0]
    for t in terms[1:]:
        r = r + t
    return r


def as_int_affine(p):
    """If poly p is an integer-coefficient combination of Int atoms plus a
    rational constant, return (z3 Int term without the constant, constant)."""
    if len(p) > 12:
        return None
    const = Fraction(0)
    acc = iv(0)
    for m, c in p.items():
        if m == ():
            const = c
            continue
        if c.denominator != 1:
            return None
        t = None
        for a, e in m:
            x = _ATOMS[a]
            if e < 0 or x.sort() != z3.IntSort():
                return None
            for _ in range(e):
                t = x if t is None else t * x
        acc = zadd(acc, zmul(iv(c), t))
    import math
    fl = math.floor(const)
    if fl:
        acc = zadd(acc, iv(fl))
    return acc, const - fl


def pzero(a, b):
    """True if a - b is syntactically the zero rational function."""
    try:
        return not padd(poly(a), poly(b), -1)
    except Unsupported:
        return False


def simp_int(t):
    """Normalise an Int term through the polynomial normal form."""
    if num(t) is not None or t.num_args() == 0:
        return t
    h = _SI.get(t.get_id())
    if h is not None:
        return h[1]
    try:
        af = as_int_affine(poly(t))
    except Unsupported:
        af = None
    r = t if af is None or af[1] != 0 else af[0]
    _SI[t.get_id()] = (t, r)
    return r


_SI = {}

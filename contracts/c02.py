"""C02: work distribution assigns every quasar to exactly one rank."""
from vf.run import scenario
from vf.terms import Unsupported

ASSUME = ["the loop over groups is decided by its invariant for any number "
          "of groups; the number of ranks is enumerated (1 to 4)"]


class Prefix:
    """The groups a rank already holds (arbitrary many); total = rows."""
    def __init__(self, r, total):
        self.r, self.total = r, total

    def __deepcopy__(self, memo):
        return self


class Greedy:
    """Invariant of the assignment loop: each rank's load is the number of
    rows in its queue, and loads differ by at most the largest group."""

    def __init__(self, cx, P, M, group=None):
        self.cx, self.P, self.M, self.group = cx, P, M, group
        self.loads = None

    def state(self, loc):
        cx = self.cx
        q = [v for v in loc.values() if type(v) is list and len(v) == self.P
             and all(type(x) is list for x in v)]
        a = [v for v in loc.values() if cx.is_array(v) and v.ndim == 1
             and v.k == 'i' and cx.e.entail(cx.z(cx.eq(cx.n(v), self.P)))]
        if len(q) != 1 or len(a) != 1:
            raise Unsupported("loop state of balance_load not recognised")
        return q[0], a[0]

    def init(self, st):
        q, a = st
        self.cx.check("every rank starts empty", self.cx.And(
            all(not x for x in q),
            *[self.cx.eq(a[r], 0) for r in range(self.P)]))

    def gap(self, L):
        return [x - y <= self.M for x in L for y in L]

    def havoc(self, st):
        cx = self.cx
        q, a = st
        self.loads = [cx.fresh_int("load") for _ in q]
        for r in range(self.P):
            cx.assume(self.loads[r] >= 0)
            a[r] = self.loads[r]
            q[r][:] = [Prefix(r, self.loads[r])]
        cx.assume(cx.And(*self.gap(self.loads)))

    def element(self, lst, k, x):
        cx = self.cx
        if self.group:
            self.group(lst, k, x)
        cx.assume(cx.And(x.size >= 0, x.size <= self.M))

    def preserved(self, st, x):
        cx = self.cx
        q, a = st
        new = []
        hits = 0
        for r in range(self.P):
            items = list(q[r])
            ok = len(items) >= 1 and isinstance(items[0], Prefix) \
                and items[0].r == r
            cx.check("earlier assignments kept", ok)
            if not ok:
                return
            extra = items[1:]
            hits += len(extra)
            cx.check("only this group is assigned", all(
                y is x for y in extra))
            t = items[0].total
            for y in extra:
                t = t + y.size
            new.append(t)
        cx.check("the group goes to exactly one rank", hits == 1)
        cx.check("load equals rows held", cx.And(*[
            cx.eq(a[r], new[r]) for r in range(self.P)]))
        cx.check("balanced: loads differ by at most the largest group",
                 cx.And(*self.gap(new)))


LEVEL = "other"     # every contract carries a bound (see scenarios)


@scenario("C02", ["balance_load"],
          bound="1 to 4 ranks; any number of groups of any sizes")
def balance_unbounded(cx):
    """Any number of groups (loop invariant)."""
    M_ = cx.load("qsonic.mpi_utils")
    P = cx.choice("ranks", [1, 2, 3, 4])
    big = cx.int("largest", 0, conc=(1, 6))
    ng = cx.length("ngroups", 0, conc=(0, 9))
    if cx.symbolic:
        sz = cx.array("size", ng, 'i', lo=0)

        class Grp:
            def __init__(self, k):
                self.k, self.size = k, sz[k]

            def __deepcopy__(self, memo):
                return self
        cx.loop_rule(Greedy(cx, P, big))
        out, ex = cx.call(M_.balance_load, cx.symlist(ng, Grp), P)
        cx.no_exc("completes", ex)
        cx.check("one queue per rank", len(out) == P)
        cx.check("every queue holds what the loop put there", all(
            len(out[r]) == 1 and isinstance(out[r][0], Prefix)
            and out[r][0].r == r for r in range(P)))
        return
    np = cx.np()
    sizes = [cx.int(f"size{i}", 0, int(big)) for i in range(ng)]
    groups = [np.full(s, i) for i, s in enumerate(sizes)]
    ids = [id(g) for g in groups]
    out = M_.balance_load(list(groups), P)
    cx.check("one queue per rank", len(out) == P)
    cx.check("the group goes to exactly one rank", sorted(
        id(g) for q in out for g in q) == sorted(ids))
    tot = [sum(g.size for g in q) for q in out]
    cx.check("balanced: loads differ by at most the largest group",
             max(tot) - min(tot) <= max(sizes + [0]))


def _checkgroup(cx, cat, key):
    def group(lst, k, x):
        lo, hi = x._vf_range
        from vf.engine import Sc
        lo, hi = Sc('i', lo), Sc('i', hi)
        n = cx.n(cat)
        cx.check("group is a row range of the catalog", cx.And(
            lo >= 0, lo < hi, hi <= n))
        j = cx.fresh_int("row")
        cx.assume(cx.And(j >= lo, j < hi))
        cx.hint(j, n)
        col = cat[key]
        cx.check("one pixel per group",
                 cx.eq(col[j], col[lo]))
        # neighbours: the rows just outside belong to other pixels, so a
        # pixel is never split over groups
        cx.check("a pixel is not split", cx.And(
            cx.Or(lo <= 0, cx.Not(cx.eq(col[cx.ite(lo <= 0, 0, lo - 1)],
                                        col[lo]))),
            cx.Or(hi >= n, cx.Not(cx.eq(col[cx.ite(hi >= n, 0, hi)],
                                        col[lo])))))
    return group


@scenario("C02", ["mpi_get_local_queue", "balance_load"], conc_n=40,
          bound="1 to 3 ranks; any catalog")
def local_queue(cx):
    """Rank r receives its part; parts cover the catalog, pixels whole.
    read_quasar_catalog is used through its contract (C01): it returns a
    table sorted by the split key."""
    P = cx.choice("ranks", [1, 2, 3])
    is_tile = cx.flag("tile")
    key = "TILEID" if is_tile else "HPXPIXEL"
    n = cx.length("n", 1, conc=(1, 14))
    if cx.symbolic:
        kcol = cx.array("key", n, 'i', lo=0)
        g = kcol.buf.fn
        cx.sorted_fact(kcol)
        cat = cx.table("cat", n, TARGETID=dict(kind='i', lo=1), **{key: kcol})
    else:
        np = cx.np()
        cat = cx.table("cat", n, TARGETID=np.arange(int(n)) + 1, Z=dict(
            kind='f', lo=2, hi=3), RA=dict(kind='f', lo=0, hi=300), DEC=dict(
            kind='f', lo=0, hi=80), SURVEY=dict(kind='s', pool=["main"]),
            HPXPIXEL=dict(kind='i', pool=[3, 4, 5, 9, 11]),
            TILEID=dict(kind='i', pool=[70, 71, 75]),
            PETAL_LOC=dict(kind='i', pool=[0, 1]),
            LASTNIGHT=np.full(int(n), 20220101))
    fname = cx.tmp() + "/cat.fits"
    cx.put_file(fname, [("PRIMARY", None, {}), ("QSO_CAT", cat, {})])

    if cx.symbolic:
        big = cx.int("largest", 1)
        cx.loop_rule(Greedy(cx, P, big, _checkgroup(cx, cat, key)))

    def body(comm, load):
        C = load("qsonic.catalog")
        if cx.symbolic:
            C.read_quasar_catalog = lambda *a, **k: cat
        return C.mpi_get_local_queue(fname, comm, comm.rank, P, False,
                                     is_tile, None)
    res = cx.world(P, body)
    for r in range(P):
        cx.no_exc("completes", res[r][1])
    qs = [res[r][0] for r in range(P)]
    if cx.symbolic:
        cx.check("rank r gets the r-th queue", all(
            len(q) == 1 and isinstance(q[0], Prefix) and q[0].r == r
            for r, q in enumerate(qs)))
        return
    ids = [int(t) for q in qs for c in q for t in c["TARGETID"]]
    cx.check("every quasar on exactly one rank",
             sorted(ids) == list(range(1, int(n) + 1)))
    own = {}
    for r, q in enumerate(qs):
        for c in q:
            cx.check("one pixel per group", len(set(c[key])) == 1)
            for p in set(c[key].tolist()):
                own.setdefault(p, []).append(r)
            for row in c:
                s = cat[int(row["TARGETID"]) - 1]
                cx.check("rows keep their values", all(
                    row[k] == s[k] for k in ("Z", "RA", "HPXPIXEL")))
    cx.check("a pixel is not split", all(len(v) == 1 for v in own.values()))
    tot = [sum(c.size for c in q) for q in qs]
    big = max(c.size for q in qs for c in q)
    cx.check("balanced: loads differ by at most the largest group",
             max(tot) - min(tot) <= big)


@scenario("C02", ["mpi_get_local_queue"], conc_n=10,
          bound="1 to 3 ranks")
def unreadable_catalog(cx):
    """A catalog that can not be read fails on every rank."""
    P = cx.choice("ranks", [1, 2, 3])

    def body(comm, load):
        C = load("qsonic.catalog")
        return C.mpi_get_local_queue(cx.tmp() + "/none.fits", comm,
                                     comm.rank, P)
    res = cx.world(P, body)
    from vf.world import Deadlock
    for v, ex in res:
        cx.check("fails on every rank", isinstance(ex, Exception)
                 and not isinstance(ex, Deadlock))

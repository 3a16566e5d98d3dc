"""P23: the compiler's tables lose, repeat and confuse nothing.

The hash table's operations are interpreted on every valid arrangement of a table of the smallest capacity (each subset of occupied buckets,
each home bucket that probing from it reaches the element), and what the table holds afterwards is compared with the set it stands for.
The string pool's comparisons are interpreted on pairs of strings that agree up to some point, as the hash may be equal for any two."""
import itertools

from absint import Engine, Ev, Limit, Policy
from build import AnalysisBroken
from heap import Heap, name_of

LEVEL = "other"
CAP, OCC, ES = 7, 1 << 31, 2          # smallest capacity of the table, mark of an occupied bucket, bytes of an element
ELEMS, KEY = 1000, 900
HASHES = ("&", ("idx", ("h", "hashes"), 0))


def cell(a):
    return ("ram", a)


def hcell(base, i):
    """element i of an array at an address or in an object"""
    if isinstance(base, tuple):
        if base[0] != "&" or base[1][0] != "idx" or not isinstance(base[1][2], int):
            raise Wrong("an address is lost: %s" % name_of(base))
        return ("idx", base[1][1], base[1][2] + i)
    return ("*", base) if i == 0 else ("idx", ("*", base), i)


def flat(v):
    """the address that a pointer into plain memory stands for"""
    if isinstance(v, tuple) and v[0] == "&":
        l = v[1]
        if l[0] == "*" and isinstance(l[1], int):
            return l[1]
        if l[0] == "idx" and l[1][0] == "*" and isinstance(l[1][1], int) and isinstance(l[2], int):
            return l[1][1] + l[2]
    return v


class Memory(Engine):
    def ev_un(self, e, st, fr):
        r = super().ev_un(e, st, fr)
        return [(s, flat(v)) for s, v in r] if e[3] == "&" else r


class Wrong(Exception):
    pass


class World:
    def __init__(self, P):
        self.P = P
        self.names = {f.name for f in P.all_fns() if f.file in (P.need("findInHashTable").file, P.need("nextPrime").file)}

    def engine(self, big=False):
        self.allocs = {}

        def ram(eng, st, a, what):
            if not isinstance(a, int):
                raise Wrong("%s an address that is none: %s" % (what, name_of(a)))
            return a

        def copy(eng, st, fr, a, node):
            if not isinstance(a[2], int):
                raise Wrong("an unknown number of bytes is copied")
            if a[2] > 100 * ES:
                raise Wrong("%d bytes are copied" % a[2])
            vs = [st.mem.get(cell(ram(eng, st, a[1], "copied from") + i), ("junk", i)) for i in range(a[2])]
            for i, v in enumerate(vs):
                st.mem[cell(ram(eng, st, a[0], "copied to") + i)] = v
            return [(st, a[0])]

        def fill(eng, st, fr, a, node):
            n = a[2]
            if a[1] != 0 or not isinstance(n, int) or n % 4 or n > 10**5:
                raise Wrong("memory is filled with something else than zeros")
            for i in range(n // 4):
                eng.write(st, hcell(flat(a[0]), i), 0)
            return [(st, a[0])]

        def alloc(zero):
            def f(eng, st, fr, a, node):
                n = a[0] * a[1] if zero else a[0]
                if not isinstance(n, int) or n > 10**5:
                    raise Wrong("memory of unknown size is allocated")
                base = 100000 * (len(self.allocs) + 1)
                if zero:
                    base = ("&", ("idx", ("h", "zeros %d" % base), 0))
                self.allocs[base] = n
                if zero:
                    for i in range(n // 4):
                        eng.write(st, hcell(base, i), 0)
                return [(st, base)]
            return f

        def free(eng, st, fr, a, node):
            eng.record(st, Ev("free", str(a[0]), (a[0],), fr.fn.loc(node[1])))
            return [(st, ("void", 1))]

        def compare(eng, st, fr, a, node):
            l, r = a[1], a[2]
            if r != KEY:
                raise Wrong("the second operand of the comparison is not the element that is looked for")
            return [(st, int(all(st.mem.get(cell(l + i)) == st.mem.get(cell(r + i), 1) for i in range(ES))))]
        ms = {"memcpy": copy, "memmove": copy, "__builtin_memcpy": copy, "memset": fill, "mallocOrDie": alloc(False), "malloc": alloc(False), "callocOrDie": alloc(True),
              "calloc": alloc(True), "free": free, "<indirect>": compare}

        class Pol(Policy):
            max_states, loop_bound, max_depth, const_loop = 400, 400, 20, 400
        Pol.only = frozenset(self.names - set(ms))
        Pol.models = ms
        return Memory(self.P, Pol())


class Table:
    """a table: slots {bucket: (element, hash)}"""

    def __init__(self, P, slots, cap=CAP):
        self.h, self.slots, self.cap = Heap(P), slots, cap
        self.t = self.h.obj("table", elems=ELEMS, hashes=HASHES, capacity=cap, size=len(slots))
        for i in range(cap):
            self.h.mem[hcell(HASHES, i)] = slots[i][1] if i in slots else 0
            if i in slots:
                for b in range(ES):
                    self.h.mem[cell(ELEMS + ES * i + b)] = (slots[i][0], b)

    def key(self, e):
        for b in range(ES):
            self.h.mem[cell(KEY + b)] = (e, b)

    def text(self):
        return " ".join("-" if i not in self.slots else "%s@%d" % (self.slots[i][0], self.slots[i][1] % self.cap) for i in range(self.cap))


def content(st, t):
    """what a table holds: ({element: (bucket, hash)}, capacity), or a reason why it is no table"""
    f = lambda n: st.mem.get(("fld", t[1], n))
    cap, size, el, ha = f("capacity"), f("size"), f("elems"), f("hashes")
    if not all(isinstance(x, int) for x in (cap, size, el)):
        raise Wrong("the table is lost")
    got = {}
    for i in range(cap):
        h = st.mem.get(hcell(ha, i), "?")
        if not isinstance(h, int):
            raise Wrong("bucket %d is not initialised" % i)
        if not h & OCC:
            if h:
                raise Wrong("bucket %d is neither free nor occupied" % i)
            continue
        e = [st.mem.get(cell(el + ES * i + b)) for b in range(ES)]
        if any(not isinstance(x, tuple) or x[0] != e[0][0] or x[1] != b for b, x in enumerate(e)):
            raise Wrong("bucket %d holds parts of elements" % i)
        if e[0][0] in got:
            raise Wrong("%s is in two buckets" % e[0][0])
        got[e[0][0]] = (i, h)
    if size != len(got):
        raise Wrong("the table says it has %d elements and holds %d" % (size, len(got)))
    if len(got) >= cap:
        raise Wrong("no bucket is free: the search for an element that is not there does not end")
    occ = {i for i, _ in got.values()}
    for e, (i, h) in got.items():
        j = h % cap
        while j != i:
            if j not in occ:
                raise Wrong("%s (home bucket %d) in bucket %d is not found any more: bucket %d is free" % (e, h % cap, i, j))
            j = (j + 1) % cap
    return got, cap


def layouts(n, equal):
    """every valid arrangement of n elements"""
    for occ in itertools.combinations(range(CAP), n):
        homes = []
        for i in occ:
            hs, j = [i], (i - 1) % CAP
            while j in occ and j != i:
                hs.append(j)
                j = (j - 1) % CAP
            homes.append(hs)
        for hs in itertools.product(*homes):
            yield {i: ("abcdefg"[k], hash_of(h, 0 if equal else k + 1)) for k, (i, h) in enumerate(zip(occ, hs))}


def hash_of(home, k):
    h = OCC + 7 * 1000 * k
    return h + (home - h) % CAP


def run_one(w, e, tab, fn, args):
    try:
        ps = e.run(fn, lambda en, st: tab.h.install(en, st), args)
    except (RecursionError, Limit) as x:
        raise Wrong("no result (%s)" % type(x).__name__)
    if len(ps) != 1:
        raise Wrong("the compiler stops" if not ps else "depends on " + ps[0].describe(4))
    return ps[0]


def tables(ctx, w):
    P = w.P
    find, ins, rem = P.need("findInHashTable"), P.need("insertInHashTable"), P.need("removeFromHashTable")
    e = w.engine()
    cmpf = ("cmp",)
    runs = 0

    def sets(tab):
        return {x: h for x, h in tab.slots.values()}

    def expect(p, tab, want):
        got, cap = content(p.st, tab.t)
        if {x: h for x, (i, h) in got.items()} != want:
            raise Wrong("the table holds %s instead of %s" % (sorted(got), sorted(want)))
        return got, cap
    for n in range(0, 5):
        for equal in (False, True):
            if equal and n not in (2, 3):
                continue
            bad = {"find": None, "insert": None, "remove": None}
            where = {"find": find, "insert": ins, "remove": rem}
            for slots in layouts(n, equal):
                # present elements
                for i, (x, h) in slots.items():
                    try:
                        tab = Table(P, slots)
                        tab.key(x)
                        op = "find"
                        p = run_one(w, e, tab, find, [tab.t, KEY, h & ~OCC, ES, cmpf])
                        if p.ret != ELEMS + ES * i:
                            raise Wrong("%s is not found" % x)
                        expect(p, tab, sets(tab))
                        op = "insert"
                        p = run_one(w, e, tab, ins, [tab.t, KEY, h & ~OCC, ES, cmpf])
                        if p.ret != 0:
                            raise Wrong("%s is inserted twice" % x)
                        expect(p, tab, sets(tab))
                        op = "remove"
                        p = run_one(w, e, tab, rem, [tab.t, ELEMS + ES * i, ES])
                        expect(p, tab, {y: g for y, g in sets(tab).items() if y != x})
                        runs += 3
                    except Wrong as x_:
                        bad[op] = bad[op] or "%s of %s in [%s]: %s" % (op, x, tab.text(), x_)
                # one that is not there
                for home in range(CAP):
                    h = hash_of(home, 0 if equal else 9)
                    try:
                        tab = Table(P, slots)
                        tab.key("x")
                        op = "find"
                        p = run_one(w, e, tab, find, [tab.t, KEY, h & ~OCC, ES, cmpf])
                        if p.ret != 0:
                            raise Wrong("something is found")
                        if n == 4 and home not in (0, CAP - 1):
                            continue            # the table grows: slow to interpret
                        op = "insert"
                        w.allocs.clear()
                        p = run_one(w, e, tab, ins, [tab.t, KEY, h & ~OCC, ES, cmpf])
                        if p.ret != 1:
                            raise Wrong("it is not inserted")
                        got, cap = expect(p, tab, dict(sets(tab), x=h))
                        if cap != CAP:
                            el, ha = p.st.mem[("fld", tab.t[1], "elems")], p.st.mem[("fld", tab.t[1], "hashes")]
                            if w.allocs.get(el, 0) < cap * ES or w.allocs.get(ha, 0) < cap * 4:
                                raise Wrong("the grown table has %s and %s bytes for %d elements and hashes" % (w.allocs.get(el), w.allocs.get(ha), cap))
                            if sorted((x.args[0] for x in p.events if x.kind == "free"), key=str) != [HASHES, ELEMS]:
                                raise Wrong("the memory of the old table is not freed once")
                        elif len(got) * 10 >= cap * 9:
                            raise Wrong("the table has %d of %d buckets occupied and does not grow" % (len(got), cap))
                        runs += 2
                    except Wrong as x_:
                        bad[op] = bad[op] or "%s of x (home bucket %d) in [%s]: %s" % (op, home, tab.text(), x_)
            for op, b in sorted(bad.items()):
                if op != "remove" or n:
                    ctx.check(b is None, "R1-table", "%s in a table of %d elements%s" % (op, n, " with equal hashes" if equal else ""), where[op].loc(), b)
    ctx.engine(e)
    ctx.floor("R1-table", 20)
    # long chains
    for cap, n, home in ((31, 20, 28), (257, 170, 200)):
        slots = {(home + k) % cap: ("e%d" % k, OCC + home + (-(OCC % cap)) % cap + cap * k) for k in range(n)}
        assert all((h % cap) == home for _, h in slots.values())
        bad = None
        for k in (0, 1, n // 2, n - 1, None):
            tab = Table(P, slots, cap)
            x, h = slots[(home + k) % cap] if k is not None else ("x", OCC + home + (-(OCC % cap)) % cap + cap * 1000)
            tab.key(x)
            try:
                p = run_one(w, e, tab, find, [tab.t, KEY, h & ~OCC, ES, cmpf])
                if p.ret != (ELEMS + ES * ((home + k) % cap) if k is not None else 0):
                    raise Wrong("it is %s" % ("not found" if k is not None else "found"))
                if k is not None and cap < 100:
                    p = run_one(w, e, tab, rem, [tab.t, ELEMS + ES * ((home + k) % cap), ES])
                    expect(p, tab, {y: g for y, g in sets(tab).items() if y != x})
            except Wrong as x_:
                bad = bad or "element %s of %d: %s" % (k, n, x_)
        ctx.check(bad is None, "R1-table", "a chain of %d elements with one home bucket" % n, find.loc(), bad)
    # all elements are enumerated
    nxt, more = P.need("hashTableItNext"), P.need("hashTableItHasNext")
    clr, en = P.need("clearHashTable"), P.need("enumerateHashTable")
    visit = w.engine()
    visit.pol.models = dict(visit.pol.models, **{"<indirect>": lambda E, s, f, a, n: (E.record(s, Ev("visit", "v", (a[2],), f.fn.loc(n[1]))), [(s, 1)])[1]})
    bad, bad2, bad3 = None, None, None
    for n in range(0, 4):
        for occ in itertools.combinations(range(CAP), n):
            tab = Table(P, {i: ("abcdefg"[k], hash_of(i, k)) for k, i in enumerate(occ)})
            try:
                p = run_one(w, visit, tab, en, [tab.t, 77, ("with",), ES])
                if [x.args[0] for x in p.events if x.kind == "visit"] != [ELEMS + ES * i for i in occ]:
                    raise Wrong("the elements that are visited are not the ones of the table")
            except Wrong as x:
                bad = bad or "[%s]: %s" % (tab.text(), x)
            try:
                it = tab.h.obj("iterator", table=tab.t, i=0, elemSize=ES)
                for want in [ELEMS + ES * i for i in occ] + [0, 0]:
                    p = run_one(w, e, tab, more, [it])
                    if p.ret != int(want != 0):
                        raise Wrong("the iterator says that there are %s elements" % ("more" if p.ret else "no more"))
                    for m in ("i", "table"):
                        tab.h.mem[("fld", it[1], m)] = p.st.mem.get(("fld", it[1], m))
                    p = run_one(w, e, tab, nxt, [it])
                    if p.ret != want:
                        raise Wrong("the iterator misses or repeats elements")
                    for m in ("i", "table"):
                        tab.h.mem[("fld", it[1], m)] = p.st.mem.get(("fld", it[1], m))
            except Wrong as x:
                bad3 = bad3 or "[%s]: %s" % (tab.text(), x)
            try:
                p = run_one(w, e, tab, clr, [tab.t])
                expect(p, tab, {})
            except Wrong as x:
                bad2 = bad2 or "[%s]: %s" % (tab.text(), x)
    ctx.check(bad is None, "R1-enumerate", "enumerateHashTable", en.loc(), bad)
    ctx.check(bad3 is None, "R1-enumerate", "hashTableItNext", nxt.loc(), bad3)
    ctx.check(bad2 is None, "R1-enumerate", "clearHashTable", clr.loc(), bad2)
    # capacities
    np, mp = P.need("nextPrime"), P.need("modPrime")
    tab = Table(P, {})
    known, i = [], 0
    for _ in range(40):
        try:
            r = run_one(w, e, tab, np, [i]).ret
        except Wrong as x:
            r = None
        if not isinstance(r, int) or r <= i:
            break
        known.append(r)
        i = r
    ctx.check(len(known) >= 8 and r == known[-1], "R1-capacity", "nextPrime grows up to its last prime", np.loc(), "after %s comes %s" % (known[-3:], r))
    for a, b in zip([0] + known, known):
        bad = None
        for i in (a, (a + b) // 2, b - 1):
            r = run_one(w, e, tab, np, [i]).ret
            if r != b:
                bad = bad or "the capacity after %d is %s" % (i, r)
        for i in (0, 1, b - 1, b, b + 1, OCC, OCC + 12345, 2**32 - 1):
            r = run_one(w, e, tab, mp, [i, b]).ret
            if r != i % b:
                bad = bad or "modPrime(%d, %d) is %s" % (i, b, r)
        ctx.check(bad is None, "R1-capacity", "capacity %d" % b, np.loc(), bad)


STRINGS = ["", "a", "b", "ab", "abc", "abd", "abcabc", "bab", "A", "a b", "_", "ab_"]


def strings(ctx, w):
    P = w.P
    fn = P.need("makeStringSized")
    files = {f.name for f in P.all_fns() if f.file == fn.file}
    h = Heap(P)
    pool = h.obj("pool", mem_pool=("&", ("h", "memory")))
    h.mem[("h", "cell")] = 0
    seen = []

    def keep(kind):
        def f(eng, st, fr, a, node):
            seen.append((kind, a[-1], a[1], dict(st.mem), a[2], a[3]))
            return [(st, w.found if kind == "find" else 1)]
        return f

    def copy(eng, st, fr, a, node):
        src, n = a[1], a[2]
        if src[0] != "str" or not isinstance(n, int):
            raise AnalysisBroken("the string pool copies from %s" % name_of(src))
        if n > len(src[1]) + 1:
            raise Wrong("%d characters of a string of %d are copied" % (n, len(src[1])))
        for i in range(n):
            eng.write(st, hcell(a[0], i), ord((src[1] + "\0")[i]) if i <= len(src[1]) else ("junk", i))
        return [(st, a[0])]

    def alloc(eng, st, fr, a, node):
        eng.record(st, Ev("alloc", "alloc", tuple(a), fr.fn.loc(node[1])))
        return [(st, ("&", ("idx", ("h", "new string"), 0)))]
    ms = {"findInHashTable": keep("find"), "insertInHashTable": keep("insert"), "memcpy": copy, "__builtin_memcpy": copy, "memmove": copy, "allocFromMemPool": alloc,
          "hashInit": lambda eng, st, fr, a, node: [(st, 1)], "hashRawBytes": lambda eng, st, fr, a, node: [(st, ("hash", a[1], a[2]))]}

    class Pol(Policy):
        max_states, loop_bound, max_depth = 400, 40, 12
        only = frozenset(files)
        models = ms
    e = Engine(P, Pol())
    for s in STRINGS:
        for n in range(len(s) + 1):
            bad = None
            want = s[:n]
            for found in (True, False):
                del seen[:]
                w.found = ("&", ("h", "cell")) if found else 0
                h.mem[("h", "cell")] = ("str", want)
                try:
                    ps = e.run(fn, lambda en, st: h.install(en, st), [pool, ("str", s), n])
                except Wrong as x:
                    bad = bad or str(x)
                    continue
                if len(ps) != 1:
                    bad = bad or "the compiler stops"
                    continue
                p = ps[0]
                finds = [x for x in seen if x[0] == "find"]
                inss = [x for x in seen if x[0] == "insert"]
                if len(finds) != 1 or len(inss) != (0 if found else 1):
                    bad = bad or "the pool is not searched once, or a string is inserted that is there"
                    continue
                if found and p.ret != ("str", want):
                    bad = bad or "the string in the pool is not the result"
                if not found:
                    al = [x for x in p.events if x.kind == "alloc"]
                    if p.ret != ("&", ("idx", ("h", "new string"), 0)):
                        bad = bad or "the result is not the new string"
                    elif len(al) != 1 or not isinstance(al[0].args[1], int) or al[0].args[1] < n + 1:
                        bad = bad or "the new string of %d characters has no room for its end" % n
                    elif [p.st.mem.get(("idx", ("h", "new string"), i)) for i in range(n)] != [ord(c) for c in want]:
                        bad = bad or "the new string is not a copy of the characters"
                    elif p.st.mem.get(("idx", ("h", "new string"), n)) != 0:
                        bad = bad or "the new string is not terminated"
                    elif finds[0][4] != inss[0][4]:
                        bad = bad or "the string is inserted under another hash than it is searched"
                if any(x[4] != ("hash", ("str", s), n) for x in seen):
                    bad = bad or "the hash is not the hash of the characters"
                for kind, cf, key, mem, _, size in seen:
                    if not (isinstance(cf, tuple) and cf[0] == "fn"):
                        raise AnalysisBroken("the comparison of the string pool is not a function")
                    for t in STRINGS:
                        m = dict(mem)
                        m[("h", "cell")] = ("str", t)
                        if kind == "insert":        # what is inserted is the new string
                            m[key[1] if isinstance(key, tuple) else key] = ("str", want)
                        qs = e.run(P.need(cf[1]), lambda en, st: st.mem.update(m), [("&", ("h", "cell")), key])
                        r = qs[0].ret if len(qs) == 1 else None
                        if not isinstance(r, int):
                            bad = bad or "whether %r is the %r that is %s depends on %s" % (t, want, "inserted" if kind == "insert" else "looked for", qs[0].describe(3) if qs else "nothing")
                        elif bool(r) != (t == want):
                            bad = bad or "with equal hashes, %r %s for %r" % (want, "is taken" if r else "is not found", t)
            ctx.check(bad is None, "R2-strings", "the first %d characters of %r" % (n, s), fn.loc(), bad)
    ctx.engine(e)
    ctx.floor("R2-strings", 30)


def run(ctx):
    import prog
    P = prog.full()
    ctx.rule("R1-table", "searching, inserting and removing act on a hash table as on the set of its elements, whatever their order and home buckets")
    ctx.rule("R1-enumerate", "enumerating visits each element once; clearing leaves none")
    ctx.rule("R1-capacity", "the capacities of a growing table increase, and home buckets are remainders")
    ctx.rule("R2-strings", "a string of the pool is shared exactly by equal strings, whatever their hashes")
    w = World(P)
    tables(ctx, w)
    strings(ctx, w)

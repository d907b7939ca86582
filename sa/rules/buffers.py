"""B01: what buffers and arrays do with their bytes and items."""
import engine
from base import Result
from engine import V, Lsym, mkop, mkptr, base_off
from rules.bounds import Lin, Linear

MAX = (1 << 31) - 1 - 16
B = "wickr_buffer"
A = "wickr_array"


class Buffers(Linear):
    """one function, its arguments as the scenario says"""
    def __init__(self, m, tier, root, case=None):
        super().__init__(m, tier)
        engine.KEEP, engine.SUMMAX, engine.STATEMAX = 24, 48, 128         # small functions, all of whose paths count
        for n in [n for n in self.models.named if n.startswith("wickr_array_")]:
            del self.models.named[n]            # the others use their contracts; here their bodies are what is judged
        self.root, self.case = root, case

    def widening(self, f):
        return 10 if f.name == self.root and self.case else engine.WIDEN

    def add(self, st, *f):
        st.facts = st.facts | {f}

    def get(self, st, v, s, n, size=8):
        """member of the structure v points to"""
        b, o = base_off(st.norm(v))
        return st.norm(self.read(st, b, mkop("add", 64, o, self.fieldof(s, n)), size, (s, n)))

    def on_entry(self, st, f):
        super().on_entry(st, f)
        if f.name == self.root and self.case:
            self.case(self, st, f)

    # -- events
    def overwritten(self, st, db, do, n):
        for x in [x for x in st.facts if x[0] in ("moved", "stored") and base_off(st.norm(x[1]))[0] is db]:
            a, k = base_off(mkptr(st.norm(x[1]), st.norm(x[2])))[1], x[5] if x[0] == "moved" else 8
            d = self.lin(st, do).plus(self.lin(st, a), -1)              # do - a
            if not self.prove(st, Lin().plus(self.lin(st, k)).plus(d, -1)) and not self.prove(st, d.plus(self.lin(st, n))):
                st.facts = st.facts - {x}

    def on_memcpy(self, st, I, db, do, sb, so, n):
        super().on_memcpy(st, I, db, do, sb, so, n)
        db, do, sb, so, n = (st.norm(x) for x in (db, do, sb, so, n))
        db, do, sb, so = base_off(mkptr(db, do)) + base_off(mkptr(sb, so))
        self.overwritten(st, db, do, n)
        v = st.mem[sb].cells.get(so) if sb in st.mem else None
        if sb.k == "alc" and v is not None and n == 8 and v[0] == 8:
            self.add(st, "stored", db, do, st.norm(v[1]))
        else:
            self.add(st, "moved", db, do, sb, so, n)

    def on_memset(self, st, I, b, off, c, n):
        super().on_memset(st, I, b, off, c, n)
        if isinstance(st.norm(b), V):
            self.overwritten(st, st.norm(b), st.norm(off), st.norm(n))

    def on_store(self, st, I, b, off, size, v):
        super().on_store(st, I, b, off, size, v)
        b = st.norm(b)
        if b.k == "alc":
            return
        self.overwritten(st, b, st.norm(off), size)
        if isinstance(st.norm(off), V) or size == 1 and b.field == (B, "bytes") or size == 1 and b.k == "new":
            self.add(st, "bytewise", b)
        if size == 8 and b.field == (B, "bytes"):
            self.add(st, "stored", b, st.norm(off), st.norm(v))

    def on_external(self, st, I, name, args, r):
        super().on_external(st, I, name, args, r)
        if name in ("memcmp", "CRYPTO_memcmp", "bcmp"):
            self.add(st, "compared", r, st.norm(args[0]), st.norm(args[1]), st.norm(args[2]))

    def on_callback(self, st, I, v, args, r):
        super().on_callback(st, I, v, args, r)
        n = v.field[1] if v.field else None
        if n == "item_copy_func":
            self.add(st, "copied", r, st.norm(args[0]))
        elif n == "item_destroy_func":
            b, o = base_off(st.norm(args[0]))
            self.add(st, "destroyed", st.norm(self.read(st, b, o, 8)))
            self.write(st, b, o, 8, 0)
        elif len(args) == 3 and v.k == "arg":
            self.add(st, "compared", r, st.norm(args[0]), st.norm(args[1]), st.norm(args[2]))

    def on_result(self, st, I, name, args, r):
        super().on_result(st, I, name, args, r)
        if name == B + "_modify_section":                       # which, in a function of its own, does not see what a local holds
            for x in [x for x in st.facts if x[0] == "moved"]:
                s, so = base_off(mkptr(st.norm(x[3]), st.norm(x[4])))
                v = st.mem[s].cells.get(so) if s in st.mem else None
                if s.k == "alc" and v is not None and st.norm(x[5]) == 8 and v[0] == 8:
                    st.facts = st.facts - {x} | {("stored", x[1], x[2], st.norm(v[1]))}
        if name in ("malloc", "calloc", "realloc") and st.norm(r) == 0:
            self.add(st, "nomemory")

    # -- judging
    def facts(self, st):
        """(kind, object written, offset, object read, offset, length), as they are now"""
        for x in st.facts:
            if x[0] == "moved":
                d, s = base_off(mkptr(st.norm(x[1]), st.norm(x[2]))), base_off(mkptr(st.norm(x[3]), st.norm(x[4])))
                yield ("moved",) + d + s + (st.norm(x[5]),)
            elif x[0] == "stored":
                yield ("stored",) + base_off(mkptr(st.norm(x[1]), st.norm(x[2]))) + (st.norm(x[3]),)
            elif x[0] == "bytewise":
                yield ("bytewise", base_off(st.norm(x[1]))[0])

    def on_return(self, st, f, ret, I):
        super().on_return(st, f, ret, I)
        if f.name != self.root or self.ctx:
            return
        r = st.norm(ret) if ret is not None else None
        self.site("returns", I)
        judge = getattr(self, "r_" + f.name)
        if f.rty == "i1" and isinstance(r, V):              # either
            for n in (0, 1):
                s = st.copy()
                try:
                    s.assume(r, bool(n))
                except engine.Infeasible:
                    continue
                judge(s, f, [self.param(f, i) for i in range(len(f.params))], n, I)
            return
        judge(st, f, [self.param(f, i) for i in range(len(f.params))], r, I)

    def ob(self, ok, rule, I, f, msg, st):
        return self.oblige(ok, rule, I, "%s: %s" % (f.name, msg), "%s:%s" % (f.name, msg), st)

    def same(self, st, x, y):
        d = (x if isinstance(x, Lin) else self.lin(st, x)).plus(y if isinstance(y, Lin) else self.lin(st, y), -1)
        return not d.t and d.c == 0 or self.prove(st, d) and self.prove(st, Lin().plus(d, -1))

    def storage(self, st, v):
        """(object, offset) of the bytes of a buffer"""
        p = self.get(st, v, B, "bytes")
        return base_off(p) if isinstance(p, V) else (None, 0)

    def holds(self, st, f, I, buf, pieces, what, whole=True):
        """the bytes of buf are these pieces of others, one after the other"""
        db, at = self.storage(st, buf)
        pos = self.lin(st, at)
        for sb, so, n in pieces:
            n = st.norm(n)
            if n == 0:
                continue
            ok = any(x[0] == "moved" and x[1] is db and x[3] is sb and self.same(st, x[2], pos) and
                     self.same(st, x[4], so) and self.same(st, x[5], n) for x in self.facts(st))
            if not ok and any(x[0] == "bytewise" and x[1] is db for x in self.facts(st)):
                self.site("undecided", I)
                ok = True
            self.site("pieces", I)
            self.ob(ok, "content", I, f, what, st)
            pos = pos.plus(self.lin(st, n))
        if whole:
            self.ob(self.same(st, self.get(st, buf, B, "length"), pos), "length", I, f, "the length of the result is not the sum of its parts", st)

    def refused(self, st, f, I, *reasons):
        """a null or false result has one of the documented reasons"""
        if any(x[0] == "nomemory" for x in st.facts):
            return
        self.site("refusals", I)
        nothing = any(n == 0 and isinstance(v, V) and base_off(v)[0].k == "L" and base_off(v)[0].field == (B, "bytes") for v, n in st.eq.items())
        reasons += (nothing,)               # a buffer without bytes
        ok = any(x is True or x is not False and self.prove(st, x) for x in reasons)
        self.ob(ok, "refused", I, f, "refuses what it should do", st)

    def isnull(self, st, v):
        return st.norm(v) == 0

    def over(self, st, v, k):
        """v > k, as a linear form <= 0"""
        return Lin({}, k + 1).plus(v if isinstance(v, Lin) else self.lin(st, v), -1)

    def section(self, st, buf, start, n):
        """why [start, start + n) may not be one of a buffer"""
        if self.isnull(st, buf):
            return [True]
        start, n, z = self.lin(st, start), self.lin(st, n), self.lin(st, self.get(st, buf, B, "length"))
        s = start.plus(n)
        return [n, self.over(st, start, MAX - 1), self.over(st, n, MAX - 1), self.over(st, s, MAX), Lin({}, 1).plus(z).plus(s, -1), self.over(st, z, MAX)]

    def good(self, st, r):
        return isinstance(r, V) and (r._nz or 0 in st.neq.get(r, ())) or isinstance(r, int) and r != 0

    # -- buffers
    def r_wickr_buffer_create_empty(self, st, f, p, r, I, zero=False):
        if not self.good(st, r):
            return self.refused(st, f, I, self.lin(st, p[0]), self.over(st, p[0], MAX))
        self.ob(self.same(st, self.get(st, r, B, "length"), p[0]), "length", I, f, "the buffer is not as long as asked", st)
        b, o = self.storage(st, r)
        x = st.mem.get(b)
        self.ob(o == 0 and x is not None and x.size is not None and self.same(st, x.size, p[0]), "storage", I, f, "the storage is not as large as asked", st)
        if zero:
            self.ob(x is not None and x.default == "zero", "zero", I, f, "the bytes are not all zero", st)

    def r_wickr_buffer_create_empty_zero(self, st, f, p, r, I):
        self.r_wickr_buffer_create_empty(st, f, p, r, I, True)

    def r_wickr_buffer_create(self, st, f, p, r, I):
        if not self.good(st, r):
            return self.refused(st, f, I, self.isnull(st, p[0]), self.lin(st, p[1]), self.over(st, p[1], MAX))
        b, o = base_off(st.norm(p[0]))
        self.holds(st, f, I, r, [(b, o, p[1])], "the bytes are not those given")

    def r_wickr_buffer_copy(self, st, f, p, r, I):
        if not self.good(st, r):
            z = None if self.isnull(st, p[0]) else self.lin(st, self.get(st, p[0], B, "length"))
            return self.refused(st, f, I, *([True] if z is None else [z, self.over(st, z, MAX), self.storage(st, p[0])[0] is None]))
        b, o = self.storage(st, p[0])
        self.holds(st, f, I, r, [(b, o, self.get(st, p[0], B, "length"))], "the bytes are not those of the source")

    def r_wickr_buffer_copy_section(self, st, f, p, r, I):
        if not self.good(st, r):
            return self.refused(st, f, I, *self.section(st, p[0], p[1], p[2]), not self.isnull(st, p[0]) and self.storage(st, p[0])[0] is None)
        b, o = self.storage(st, p[0])
        self.holds(st, f, I, r, [(b, self.lin(st, o).plus(self.lin(st, p[1])), p[2])], "the bytes are not those of the section")

    def r_wickr_buffer_modify_section(self, st, f, p, r, I):
        if not self.good(st, r):
            return self.refused(st, f, I, self.isnull(st, p[1]), *self.section(st, p[0], p[2], p[3]))
        db, do = self.storage(st, p[0])
        sb, so = base_off(st.norm(p[1]))
        x = [x for x in self.facts(st) if x[0] == "moved"]
        ok = any(y[1] is db and y[3] is sb and self.same(st, y[2], self.lin(st, do).plus(self.lin(st, p[2]))) and
                 self.same(st, y[4], so) and self.same(st, y[5], p[3]) for y in x) or any(y[0] == "bytewise" for y in st.facts)
        self.ob(ok and len(x) <= 1, "content", I, f, "the section does not become what was given, or more than it is changed", st)
        self.ob(self.same(st, self.get(st, p[0], B, "length"), Lsym(p[0], self.fieldof(B, "length"), 8, (B, "length"))), "length", I, f, "the length changes", st)

    def r_wickr_buffer_concat(self, st, f, p, r, I):
        nul = [i for i in (0, 1) if self.isnull(st, p[i])]
        ns = [self.get(st, x, B, "length") for x in p] if not nul else []
        if not self.good(st, r):
            return self.refused(st, f, I, *([True] if nul else [self.over(st, self.lin(st, ns[0]).plus(self.lin(st, ns[1])), MAX), self.lin(st, ns[0]).plus(self.lin(st, ns[1]))]))
        self.holds(st, f, I, r, [self.storage(st, x) + (n,) for x, n in zip(p, ns)], "the bytes are not the first buffer's and then the second's")

    def r_wickr_buffer_concat_multi(self, st, f, p, r, I):
        n = st.norm(p[1])
        bufs = [st.norm(self.read(st, p[0], 8 * i, 8)) for i in range(n)]
        bufs = [b for b in bufs if isinstance(b, V)]
        total = Lin()
        for b in bufs:
            total = total.plus(self.lin(st, self.get(st, b, B, "length")))
        if not self.good(st, r):
            over = [self.over(st, total, MAX)]
            part = Lin()
            for b in bufs:
                part = part.plus(self.lin(st, self.get(st, b, B, "length")))
                over.append(self.over(st, part, MAX))
            return self.refused(st, f, I, total, *over)
        self.holds(st, f, I, r, [self.storage(st, b) + (self.get(st, b, B, "length"),) for b in bufs], "the bytes are not those of the buffers in their order")

    def r_wickr_buffer_is_equal(self, st, f, p, r, I):
        if self.isnull(st, p[0]) or self.isnull(st, p[1]):
            self.ob(r == 0, "equal", I, f, "a buffer equals none", st)
            return
        z = [self.get(st, x, B, "length") for x in p[:2]]
        s = [self.storage(st, x) for x in p[:2]]
        cs = []
        for x in st.facts:
            if x[0] == "compared":
                a, b = base_off(st.norm(x[2])), base_off(st.norm(x[3]))
                if {a, b} == set(s) and self.same(st, x[4], z[0]):
                    cs.append(st.norm(x[1]))
        bytewise = not any(x[0] == "compared" for x in st.facts) and self.storage(st, p[0])[0] is not None and not isinstance(r, int)
        if self.good(st, r) and r == 1:
            self.site("equal", I)
            self.ob(self.same(st, z[0], z[1]), "equal", I, f, "buffers of different lengths are equal", st)
            if not any(x[0] == "compared" for x in st.facts) and self.loops(f):
                self.site("undecided", I)
                return
            self.ob(any(c == 0 for c in cs), "equal", I, f, "buffers are equal although their bytes were not found equal", st)
        elif r == 0:
            self.site("unequal", I)
            d = self.lin(st, z[0]).plus(self.lin(st, z[1]), -1)
            differ = st.simp(mkop("eq", 64, z[0], z[1])) == 0 or self.prove(st, Lin(d.t, d.c + 1)) or self.prove(st, Lin({}, 1).plus(d, -1))
            ne = any(c != 0 and (isinstance(c, int) or 0 in st.neq.get(c, ()) or st.simp(mkop("eq", 32, c, 0)) == 0) for c in cs)
            if not differ and not ne and self.loops(f) and not any(x[0] == "compared" for x in st.facts):
                self.site("undecided", I)
                return
            self.ob(differ or ne, "equal", I, f, "equal buffers are not equal", st)

    def loops(self, f):
        """does the body have a loop?"""
        seen = set()
        for lab in f.order:
            t = f.blocks[lab][-1]
            for x in str((t.a, t.b, t.c, t.x)).split("'"):
                if x in seen | {lab} and x in f.blocks:
                    return True
            seen.add(lab)
        return False

    # -- arrays
    def item(self, st, a, i):
        """what is stored as item i of an array"""
        store = self.get(st, a, A, "item_store")
        if not isinstance(store, V):
            return None, None, None
        b, o = self.storage(st, store)
        at = self.lin(st, o).plus(self.lin(st, i), 8)
        for x in self.facts(st):
            if x[0] == "stored" and x[1] is b and self.same(st, x[2], at):
                return x[3], b, at
            if x[0] == "moved" and x[1] is b:
                d = at.plus(self.lin(st, x[2]), -1)
                if self.prove(st, Lin().plus(d, -1)) and self.prove(st, Lin({}, 8).plus(d).plus(self.lin(st, x[5]), -1)):
                    return (x[3], self.lin(st, x[4]).plus(d)), b, at
        return None, b, at

    def original(self, st, v, b, at):
        """v is what was at this place of the storage"""
        return isinstance(v, V) and v.k == "L" and v.a[0] is b and v.a[2] == 8 and self.same(st, v.a[1], at)

    def inside(self, st, a, i):
        return [True] if self.isnull(st, a) else [self.lin(st, self.get(st, a, A, "size", 4)).plus(self.lin(st, i), -1)]

    def r_wickr_array_new(self, st, f, p, r, I):
        if not self.good(st, r):
            return self.refused(st, f, I, self.isnull(st, p[2]), self.isnull(st, p[3]), self.over(st, Lin().plus(self.lin(st, p[0]), 8), MAX))
        for i, (n, z) in enumerate((("size", 4), ("item_type", 1), ("item_copy_func", 8), ("item_destroy_func", 8))):
            self.ob(self.get(st, r, A, n, z) == st.norm(p[i]), "array", I, f, "its %s is not the one given" % n, st)
        s = self.get(st, r, A, "item_store")
        if isinstance(s, V):
            b = self.storage(st, s)[0]
            self.ob(st.mem.get(b) is not None and st.mem[b].default == "zero", "array", I, f, "the items of a new array are not null", st)

    def r_wickr_array_get_item_count(self, st, f, p, r, I):
        self.ob(r == 0 if self.isnull(st, p[0]) else r == self.get(st, p[0], A, "size", 4), "array", I, f, "the count is not the array's size", st)

    def r_wickr_array_set_item(self, st, f, p, r, I):
        if not self.good(st, r):
            copied = [st.norm(x[1]) == 0 for x in st.facts if x[0] == "copied"]
            z = [] if self.isnull(st, p[0]) else [self.over(st, Lin({}, 8).plus(self.lin(st, p[1]), 8), MAX)]
            return self.refused(st, f, I, any(copied), *self.inside(st, p[0], p[1]), *z, *self.nostore(st, p[0], p[1]))
        v, b, at = self.item(st, p[0], p[1])
        self.site("items", I)
        deep = st.norm(p[3])
        if self.isnull(st, p[2]):
            self.ob(v == 0, "array", I, f, "the item is not the one given", st)
        elif deep == 0:
            self.ob(v is st.norm(p[2]), "array", I, f, "the item is not the one given", st)
        else:
            self.ob(any(x[0] == "copied" and st.norm(x[1]) is v and st.norm(x[2]) is st.norm(p[2]) for x in st.facts), "array", I, f, "the item is not a copy of the one given", st)
        gone = [x[1] for x in st.facts if x[0] == "destroyed"]
        none = any(m == 0 and self.original(st, k, b, at) for k, m in st.eq.items())
        self.ob(deep == 0 or none or bool(gone), "array", I, f, "the item that is replaced by a copy is not destroyed", st)
        self.ob(all(self.original(st, x, b, at) for x in gone) and len(gone) <= 1, "array", I, f, "another item than the one replaced is destroyed", st)
        self.ob(len([x for x in st.facts if x[0] in ("stored", "moved")]) == 1, "array", I, f, "another item is changed", st)

    def nostore(self, st, a, i):
        """an array says no more than its storage has (M04), so that a write that is refused is outside"""
        if self.isnull(st, a):
            return []
        s = self.get(st, a, A, "item_store")
        if not isinstance(s, V):
            return [True]
        z = self.lin(st, self.get(st, s, B, "length"))
        return [Lin({}, 1).plus(z).plus(Lin({}, 8).plus(self.lin(st, i), 8), -1), self.over(st, z, MAX)]

    def r_wickr_array_fetch_item(self, st, f, p, r, I):
        if self.isnull(st, p[0]):
            self.ob(r == 0, "array", I, f, "an item of no array", st)
            return
        v, b, at = self.item(st, p[0], p[1])
        deep = st.norm(p[2])
        if isinstance(r, int):
            got = [x for x in st.facts if x[0] == "copied" and st.norm(x[1]) == 0]
            null = [k for k, n in list(st.eq.items()) if n == 0 and isinstance(k, V) and b is not None and self.original(st, k, b, at)]
            return self.refused(st, f, I, bool(got), bool(null), *self.inside(st, p[0], p[1]))
        self.site("items", I)
        if any(x[0] == "copied" for x in st.facts):
            x = [x for x in st.facts if x[0] == "copied" and st.norm(x[1]) is r]
            self.ob(deep != 0 and len(x) == 1 and self.original(st, st.norm(x[0][2]), b, at), "array", I, f, "the result is not a copy of the item", st)
        else:
            self.ob(deep == 0 and self.original(st, r, b, at), "array", I, f, "the result is not the item", st)

    def r_wickr_array_copy(self, st, f, p, r, I):
        if self.isnull(st, p[0]):
            self.ob(r == 0, "array", I, f, "a copy of no array", st)
            return
        n = self.count
        copied = [st.norm(x[1]) == 0 for x in st.facts if x[0] == "copied"]
        if not self.good(st, r):
            return self.refused(st, f, I, any(copied), self.isnull(st, self.get(st, p[0], A, "item_copy_func")), self.isnull(st, self.get(st, p[0], A, "item_destroy_func")))
        for x, z in (("size", 4), ("item_type", 1), ("item_copy_func", 8), ("item_destroy_func", 8)):
            self.ob(self.get(st, r, A, x, z) == self.get(st, p[0], A, x, z), "array", I, f, "its %s is not that of the source" % x, st)
        deep = st.norm(p[1])
        for i in range(n):
            v, b, at = self.item(st, r, i)
            o, sb, sat = self.item(st, p[0], i)
            self.site("items", I)
            if isinstance(v, tuple):            # the storage is copied as a whole
                ok = deep == 0 and v[0] is sb and self.same(st, v[1], sat)
            elif v == 0 or v is None:          # a null item stays one (the storage of a new array is zero)
                ok = any(isinstance(k, V) and m == 0 and self.original(st, k, sb, sat) for k, m in st.eq.items())
            elif deep == 0:
                ok = self.original(st, v, sb, sat)
            else:
                ok = any(x[0] == "copied" and st.norm(x[1]) is v and self.original(st, st.norm(x[2]), sb, sat) for x in st.facts)
            self.ob(ok, "array", I, f, "an item is not that of the source", st)

    def r_wickr_array_destroy(self, st, f, p, r, I):
        h = st.norm(Lsym(p[0], 0, 8))
        if self.isnull(st, p[0]) or h == 0:
            return
        self.ob(st.norm(self.read(st, p[0], 0, 8)) == 0, "array", I, f, "the array is not forgotten", st)
        gone = [x[1] for x in st.facts if x[0] == "destroyed"]
        deep = st.norm(p[1])
        self.site("items", I)
        if deep == 0:
            self.ob(not gone, "array", I, f, "items are destroyed that are not to be", st)
            return
        s = st.norm(Lsym(h, self.fieldof(A, "item_store"), 8, (A, "item_store")))
        b = Lsym(s, self.fieldof(B, "bytes"), 8, (B, "bytes")) if isinstance(s, V) else None
        for i in range(self.count):
            ok = any(self.original(st, x, b, Lin({}, 8 * i)) for x in gone) or \
                any(isinstance(k, V) and m == 0 and self.original(st, k, b, Lin({}, 8 * i)) for k, m in st.eq.items())
            self.ob(ok, "array", I, f, "an item is not destroyed", st)


def items(n, path=()):
    """the array has n items"""
    def case(e, st, f):
        a = e.param(f, 0)
        st.addneq(a, 0)
        for off in path:
            a = Lsym(a, off, 8)
            st.addneq(a, 0)
        st.seteq(Lsym(a, e.fieldof(A, "size"), 4, (A, "size")), n)
        e.count = n
        if f.name == "wickr_array_copy":
            for x in ("item_copy_func", "item_destroy_func"):
                st.addneq(Lsym(a, e.fieldof(A, x), 8, (A, x)), 0)
        s = Lsym(a, e.fieldof(A, "item_store"), 8, (A, "item_store"))
        if n:
            st.addneq(s, 0)
            st.seteq(Lsym(s, e.fieldof(B, "length"), 8, (B, "length")), 8 * n)
        else:
            st.seteq(s, 0)
    return case


def pieces(n, null=None, empty=None):
    """n buffers, one of them null or empty"""
    def case(e, st, f):
        st.addneq(e.param(f, 0), 0)
        st.seteq(e.param(f, 1), n)
        for i in range(n):
            b = Lsym(e.param(f, 0), 8 * i, 8)
            if i == null:
                st.seteq(b, 0)
                continue
            st.addneq(b, 0)
            z = Lsym(b, e.fieldof(B, "length"), 8, (B, "length"))
            if i == empty:
                st.seteq(z, 0)
            else:
                st.addneq(z, 0)
    return case


def run_B01(m, tier):
    r = Result("what a buffer or array holds at every return of the functions that make or change one, against what it was made of")
    jobs = [("wickr_buffer_" + n, None) for n in ("create_empty", "create_empty_zero", "create", "copy", "copy_section", "modify_section", "concat", "is_equal")]
    for n in range(1, 6 if tier == "thorough" else 5):
        jobs.append(("wickr_buffer_concat_multi", pieces(n)))
        for i in range(n):
            jobs += [("wickr_buffer_concat_multi", pieces(n, i)), ("wickr_buffer_concat_multi", pieces(n, None, i))]
    jobs += [("wickr_array_" + n, None) for n in ("new", "get_item_count", "set_item", "fetch_item")]
    for n in range(0, 7 if tier == "thorough" else 4):
        jobs += [("wickr_array_copy", items(n)), ("wickr_array_destroy", items(n, (0,)))]
    seen = {}
    for root, case in jobs:
        e = Buffers(m, tier, root, case)
        e.run([root])
        r.take(e, {"content", "length", "storage", "zero", "refused", "equal", "array"})
        r.engine_cover(e)
        for k in e.sites:
            seen[k] = seen.get(k, 0) + 1
        r.floor("returns of " + root, len(e.sites.get("returns", ())), 1)
    r.cover(cases=len(jobs))
    for k, n in (("pieces", 10), ("items", 5), ("refusals", 8), ("equal", 1), ("unequal", 1)):
        r.floor("cases with " + k, seen.get(k, 0), n)
    return r

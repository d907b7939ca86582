"""M04: what is read and written lies within its buffer. B01: what buffers and arrays do with their bytes."""
from math import gcd
from base import Base, Result
from engine import V, Lsym, mk, mkop, base_off, leafset_deep

LIMIT = 1 << 48                     # no object is larger than the address space
PER = {"wickr_buffer": ("bytes", "length"), "ProtobufCBinaryData": ("data", "len")}


class Lin:
    """sum of coefficient * atom + constant, over the integers"""
    __slots__ = ("t", "c")

    def __init__(self, t=None, c=0):
        self.t = t or {}
        self.c = c

    def plus(self, o, k=1):
        t = dict(self.t)
        for a, n in o.t.items():
            n = t.get(a, 0) + k * n
            if n:
                t[a] = n
            else:
                t.pop(a, None)
        return Lin(t, self.c + k * o.c)


class Linear(Base):
    """proves linear inequalities between lengths from the conditions of the path, by substituting bounds (no search beyond DEPTH)"""
    FACTS = "all"
    SIZES = True
    DEPTH = 5

    def once(self, key, f, otherwise):
        """a question that comes up again while it is being decided is left open"""
        o = self.__dict__.setdefault("_asked", set())
        if key in o:
            return otherwise
        o.add(key)
        try:
            return f()
        finally:
            o.discard(key)

    def hi(self, st, v):
        if isinstance(v, int) or v.k != "op":
            return self.high(st, v)
        return self.once(("hi", v), lambda: self.high(st, v), st.lo_hi(v)[1])

    def high(self, st, v):
        if isinstance(v, int):
            return v
        lo, hi = st.lo_hi(v)
        if v.field and v.field in self.lengths:
            hi = min(hi, self.lengths[v.field])
        if v.k == "op":
            if v.a[0] == "add":
                if isinstance(v.a[3], int) and v.a[3] >= 1 << v.a[1] - 1:
                    return min(hi, self.hi(st, v.a[2])) if self.prove(st, Lin({}, (1 << v.a[1]) - v.a[3]).plus(self.lin(st, v.a[2], 1), -1), 2) else hi
                hi = min(hi, self.hi(st, st.norm(v.a[2])) + self.hi(st, st.norm(v.a[3])))
            elif v.a[0] == "mul":
                hi = min(hi, self.hi(st, st.norm(v.a[2])) * self.hi(st, st.norm(v.a[3])))
            elif v.a[0] == "and" and isinstance(v.a[3], int):
                hi = min(hi, v.a[3])
            elif v.a[0] in ("lshr", "udiv") and isinstance(v.a[3], int):
                hi = min(hi, self.hi(st, st.norm(v.a[2])) // (1 << v.a[3] if v.a[0] == "lshr" else v.a[3]))
            elif v.a[0] == "urem" and isinstance(v.a[3], int):
                hi = min(hi, v.a[3] - 1)
            elif v.a[0] == "trunc":
                x = self.hi(st, st.norm(v.a[2]))
                hi = min(hi, x) if x < 1 << v.a[1] else hi
            elif v.a[0] == "sdiv" and isinstance(v.a[3], int) and 0 < v.a[3] < 1 << v.a[1] - 1:
                x = self.hi(st, st.norm(v.a[2]))
                hi = min(hi, x // v.a[3]) if x < 1 << v.a[1] - 1 else hi
        return hi

    @property
    def lengths(self):
        if not hasattr(self, "_lengths"):
            self._lengths = {("wickr_buffer", "length"): (1 << 31) - 1, ("wickr_cipher", "iv_len"): 16, ("ProtobufCBinaryData", "len"): LIMIT}
        return self._lengths

    def lin(self, st, v, d=0):
        v = st.norm(v)
        if isinstance(v, int):
            return Lin({}, v)
        if v.k != "op":
            return Lin({v: 1})
        return self.once(("lin", v), lambda: self.parts(st, v, d), Lin({v: 1}))

    def parts(self, st, v, d):
        if v.k == "op" and d < 12:
            op, bits = v.a[0], v.a[1]
            a = st.norm(v.a[2])
            b = st.norm(v.a[3]) if len(v.a) > 3 else None
            if op == "add":
                if isinstance(b, int) and b >= 1 << bits - 1:
                    k = (1 << bits) - b
                    x = self.lin(st, a, d + 1)
                    if self.prove(st, Lin({}, k).plus(x, -1), 3):
                        return Lin(x.t, x.c - k)
                elif self.hi(st, a) + self.hi(st, b) < 1 << bits or isinstance(b, int) and st.lo_hi(v)[0] >= b:
                    return self.lin(st, a, d + 1).plus(self.lin(st, b, d + 1))
            elif op == "sub":
                x, y = self.lin(st, a, d + 1), self.lin(st, b, d + 1)
                if self.prove(st, y.plus(x, -1), 3):
                    return x.plus(y, -1)
            elif op == "mul" and isinstance(b, int) and self.hi(st, a) * b < 1 << bits:
                return Lin().plus(self.lin(st, a, d + 1), b)
            elif op in ("trunc", "zext", "sext") and self.hi(st, a) < 1 << min(bits, 63):
                return self.lin(st, a, d + 1)
        return Lin({v: 1})

    def bounds(self, st, a):
        """linear forms that are <= 0, about this atom"""
        lo, hi = st.lo_hi(a)
        out = [Lin({a: 1}, -min(hi, self.hi(st, a)))]
        if 0 in st.neq.get(a, ()) and lo == 0:
            lo = 1
        out.append(Lin({a: -1}, lo))
        if a.k == "op" and len(a.a) > 3 and isinstance(a.a[3], int):
            k = {"lshr": 1 << a.a[3] if a.a[3] < 64 else 0, "udiv": a.a[3]}.get(a.a[0]) if a.a[0] in ("lshr", "udiv") else None
            if a.a[0] == "sdiv" and self.hi(st, st.norm(a.a[2])) < 1 << a.a[1] - 1 and 0 < a.a[3] < 1 << a.a[1] - 1:
                k = a.a[3]
            if k:
                x = self.lin(st, a.a[2], 6)
                out.append(Lin({a: k}).plus(x, -1))
                out.append(x.plus(Lin({a: k}, k - 1), -1))
            if a.a[0] in ("urem", "and"):
                out.append(Lin({a: 1}).plus(self.lin(st, a.a[2], 6), -1))
        if a.k == "op" and a.a[0] in ("trunc", "zext"):
            out.append(Lin({a: 1}).plus(self.lin(st, a.a[2], 6), -1))
        return out

    def conditions(self, st):
        """the conditions of the path as linear forms that are <= 0"""
        key = tuple(sorted((c.h, n) for c, n in st.eq.items() if isinstance(c, V) and c.k == "op" and c.a[0] in ("ult", "slt", "eq", "add", "sub")))
        memo = getattr(self, "_cond", None)
        if memo is not None and memo[0] == key and memo[2] is st:
            return memo[1]
        out = []
        self._cond = (key, out, st)
        for c, n in list(st.eq.items()):
            if c.k == "op" and c.a[0] in ("add", "sub") and isinstance(n, int):
                x = self.parts(st, c, 4)
                if c not in x.t:
                    out += [Lin(x.t, x.c - n), Lin({}, n).plus(x, -1)]
                continue
            if c.k != "op" or c.a[0] not in ("ult", "eq", "slt") or n not in (0, 1):
                continue
            x, y = self.lin(st, c.a[2], 4), self.lin(st, c.a[3], 4)
            if c.a[0] == "slt" and not (self.hi(st, st.norm(c.a[2])) < 1 << 31 and self.hi(st, st.norm(c.a[3])) < 1 << 31):
                continue
            if c.a[0] == "eq":
                if n:
                    out += [x.plus(y, -1), y.plus(x, -1)]
            elif n:
                z = x.plus(y, -1)
                out.append(Lin(z.t, z.c + 1))
            else:
                out.append(y.plus(x, -1))
        return out

    def prove(self, st, g, d=None):
        """g <= 0 ?"""
        d = self.DEPTH if d is None else d
        if not g.t:
            return g.c <= 0
        if d <= 0:
            return False
        facts = None
        for a, n in sorted(g.t.items(), key=lambda x: x[0].h):
            for f in self.bounds(st, a):
                if f.t.get(a, 0) * n > 0 and self.prove(st, self.without(g, f, n, f.t[a]), d - 1 if len(f.t) > 1 else d - 0.5):
                    return True
        for f in self.conditions(st):
            for a, n in g.t.items():
                k = f.t.get(a, 0)
                if k * n > 0 and self.prove(st, self.without(g, f, n, k), d - 1):
                    return True
        return False

    def without(self, g, f, n, k):
        """g, with the atom that has coefficient n in it and k in f replaced by what f says of it"""
        m = abs(k) // gcd(n, k)
        g = Lin().plus(g, m)                            # g <= 0 iff m * g <= m - 1, over the integers
        return Lin(g.t, g.c - (m - 1)).plus(f, -(n * m // k))

    def within(self, st, off, n, size):
        """off + n <= size"""
        off, n, size = st.norm(off), st.norm(n), st.norm(size)
        if isinstance(off, int) and off < 0:
            return False
        g = self.lin(st, off).plus(self.lin(st, n)).plus(self.lin(st, size), -1)
        ne = None
        for k in range(8):              # g <= 0, or g - k <= 0 and it is none of the values above
            if self.prove(st, Lin(g.t, g.c - k)):
                return True
            ne = self.unequal(st) if ne is None else ne
            z = Lin(g.t, g.c - k - 1)
            if not any(z.t == x.t and z.c == x.c for x in ne):
                return False
        return False

    def unequal(self, st):
        """linear forms that are known not to be 0, with either sign"""
        out = []
        for c, n in st.eq.items():
            if n == 0 and isinstance(c, V) and c.k == "op" and c.a[0] == "eq":
                x, y = st.norm(c.a[2]), st.norm(c.a[3])
                if isinstance(x, V) and isinstance(y, V) and base_off(x)[0] is base_off(y)[0]:
                    x, y = base_off(x)[1], base_off(y)[1]
                z = self.lin(st, x).plus(self.lin(st, y), -1)
                out += [z, Lin().plus(z, -1)]
        for a, ks in st.neq.items():
            for k in ks:
                z = self.lin(st, a)
                out += [Lin(z.t, z.c - k), Lin().plus(Lin(z.t, z.c - k), -1)]
        return out

    def fits(self, st, I, off, n, size):
        if self.within(st, off, n, size):
            return True
        for x in (off, n):          # a loop whose counter no condition bounds from above (it counts down): not decided here
            for a in leafset_deep(st.norm(x)) if isinstance(st.norm(x), V) else ():
                if a.k == "hv" and a not in st.rng and not any(f.t.get(a, 0) > 0 for f in self.conditions(st)):
                    self.site("undecided", I)
                    return True
        return False

    # -- storage
    def size_of(self, st, b):
        """the size of an object, or None when nothing says it"""
        b = st.norm(b)
        if not isinstance(b, V):
            return None
        o = st.mem.get(b)
        if o is not None and o.size is not None:
            return o.size
        if b.field:
            for s, (p, n) in PER.items():
                if b.field == (s, p) and b.k == "L":
                    x = base_off(b.a[0])[0]
                    if x.field == ("wickr_array", "item_store"):
                        return mkop("mul", 64, st.norm(self.read(st, x.a[0], self.fieldof("wickr_array", "size"), 4, ("wickr_array", "size"))), 8)
                    at = mkop("add", 64, b.a[1], self.fieldof(s, n) - self.fieldof(s, p))
                    return st.norm(Lsym(b.a[0], at, 8, (s, n)))      # the length it came with
        if b.k == "L" and b.field == ("_Wickr__Proto__KeyExchangeSet", "exchanges"):
            n = st.norm(self.read(st, b.a[0], self.fieldof("_Wickr__Proto__KeyExchangeSet", "n_exchanges"), 8, (b.field[0], "n_exchanges")))
            if isinstance(n, V):        # there are that many pointers in memory
                st.setrng(n, st.lo_hi(n)[0], min(1 << 60, st.lo_hi(n)[1]))
                for c, v in list(st.eq.items()):
                    if v == 1 and c.k == "op" and c.a[0] == "ult" and st.norm(c.a[3]) is n and isinstance(c.a[2], V):
                        st.setrng(c.a[2], st.lo_hi(c.a[2])[0], min((1 << 60) - 1, st.lo_hi(c.a[2])[1]))
            return mkop("mul", 64, n, 8)
        if b.k == "L" and b.field == ("{ i64, ptr }", "1"):      # a ProtobufCBinaryData passed by value
            return st.norm(self.read(st, b.a[0], mkop("add", 64, b.a[1], (1 << 64) - 8), 8))
        if b.k == "new":
            for k, o in st.mem.items():
                at = self.fieldof("wickr_buffer", "bytes")
                if o.cells.get(at, (0, 0))[1] is b and o.status != "alloca":
                    return st.norm(self.read(st, k, self.fieldof("wickr_buffer", "length"), 8, ("wickr_buffer", "length")))
        if b.k == "glob" and b.a[0] in self.m.globals:
            return self.m.types.size(self.m.globals[b.a[0]][0])
        return None


R, W = "what %s reads", "what %s writes"
EXT = {     # function -> (pointer, how many bytes (argument, constant or product of two arguments), how)
    "EVP_EncryptUpdate": ((1, 4, W), (3, 4, R)), "EVP_DecryptUpdate": ((1, 4, W), (3, 4, R)),
    "RAND_bytes": ((0, 1, W),),
    "EVP_DigestUpdate": ((1, 2, R),), "EVP_DigestSignUpdate": ((1, 2, R),), "EVP_DigestVerifyUpdate": ((1, 2, R),), "EVP_DigestVerifyFinal": ((1, 2, R),),
    "HMAC": ((1, 2, R), (3, 4, R)),
    "fread": ((0, (1, 2), W),), "fwrite": ((0, (1, 2), R),),
    "memcmp": ((0, 2, R), (1, 2, R)), "CRYPTO_memcmp": ((0, 2, R), (1, 2, R)),
    "BN_bin2bn": ((0, 1, R),), "BN_bn2binpad": ((1, 2, W),),
    "EVP_PKEY_CTX_set1_hkdf_key": ((1, 2, R),), "EVP_PKEY_CTX_set1_hkdf_salt": ((1, 2, R),), "EVP_PKEY_CTX_add1_hkdf_info": ((1, 2, R),),
    "libscrypt_scrypt": ((0, 1, R), (2, 3, R), (7, 8, W)),
    "crypt_gensalt_rn": ((2, 3, R), (4, 5, W)),
}


class Bounds(Linear):
    def __init__(self, m, tier):
        super().__init__(m, tier)
        self.contracts = {}
        self.pairs = {}

    # -- a length never says more than the storage has
    def paired(self, I, b, off):
        if I.field and isinstance(off, int):
            if I.field in (("wickr_array", "item_store"), ("wickr_array", "size")):
                self.pairs.setdefault((self.fnstack[-1], b), {})["array"] = off - self.fieldof(*I.field)
            for s, (p, n) in PER.items():
                if I.field in ((s, p), (s, n)):
                    self.pairs.setdefault((self.fnstack[-1], b), {})[off - self.fieldof(s, I.field[1])] = s

    def judge_array(self, st, I, b):
        """the storage of an array has room for as many pointers as it says"""
        o = self.pairs.get((self.fnstack[-1], b), {}).get("array")
        if o is None or b not in st.mem:
            return
        f = lambda x: self.fieldof("wickr_array", x)
        s = st.norm(self.read(st, b, o + f("item_store"), 8, ("wickr_array", "item_store")))
        n = st.norm(self.read(st, b, o + f("size"), 4, ("wickr_array", "size")))
        if isinstance(s, V):
            k = st.norm(self.read(st, s, self.fieldof("wickr_buffer", "length"), 8, ("wickr_buffer", "length")))
            if isinstance(n, V) and n.k == "L" and n.field == ("wickr_array", "size") and s.k == "L" and s.a[0] is n.a[0]:
                return
            k = self.lin(st, k)
            ok = self.prove(st, Lin().plus(self.lin(st, n), 8).plus(k, -1))
        else:
            ok = n == 0
        self.site("arrays", I)
        self.oblige(ok, "bounds", I, "an array's storage need not have room for all of its items", "array", st)

    def judge_pairs(self, st, I, b, why):
        for off, s in self.pairs.get((self.fnstack[-1], b), {}).items():
            if off == "array":
                continue
            if st.mem.get(b) is None or st.mem[b].status == "dead":
                continue
            p, n = PER[s]
            v = st.norm(self.read(st, b, off + self.fieldof(s, p), 8, (s, p)))
            k = st.norm(self.read(st, b, off + self.fieldof(s, n), 8, (s, n)))
            if not isinstance(v, V) or k == 0:
                continue
            x, o = base_off(v)
            if x.k in ("new", "alc", "glob") or x.k == "L" and x.field in BYTES:
                size = self.size_of(st, x)
                if size is not None:
                    self.site("lengths", I)
                    ok = self.fits(st, I, o, k, size)
                    self.oblige(ok, "bounds", I, "a %s whose length need not be within its storage %s" % (s, why), why, st)
                    continue

    def on_return(self, st, f, ret, I):
        super().on_return(st, f, ret, I)
        for b in list(st.mem):
            if (f.name, b) in self.pairs and st.mem[b].status != "alloca" and not self.exempt(I):
                self.judge_pairs(st, I, b, "is left by %s" % f.name)
                self.judge_array(st, I, b)

    def exempt(self, I):
        """loops over characters; B01"""
        return self.locs(I).split(":")[0] in ("util.c", "b32.c") or self.fnstack[-1] == "wickr_buffer_concat_multi"

    def touch(self, st, I, b, off, n, what):
        b = st.norm(b)
        if not isinstance(b, V) or st.norm(n) == 0:
            return
        if self.exempt(I):
            return
        x = b
        while x.k == "L":
            x = base_off(x.a[0])[0]
        if x.k == "glob" and x is not b:
            return
        if x.k == "ret" and x.a[1] == "callback" and self.m.funcs[self.fnstack[-1]].internal:
            return              # analysed with each function it is given
        size = self.size_of(st, b)
        if size is None and b.k == "arg" and b.a[0] == self.fnstack[-1]:
            f = self.m.funcs[b.a[0]]
            for j, q in enumerate(f.params):
                v = self.param(f, j)
                if q[0][0] == "i" and self.within(st, off, n, v):
                    self.contracts[(f.name, b.a[1])] = j
                    self.site("passed_on", I)
                    return
        if size is None:
            self.site("sized_by_its_type", I)
            return
        self.site("accesses", I)
        ok = self.fits(st, I, off, n, size)
        self.oblige(ok, "bounds", I, "%s need not lie within its buffer" % what, what, st)

    def plainbytes(self, st, b, off):
        return isinstance(off, V) or isinstance(b, V) and b.field in BYTES or (b.k == "new" and isinstance(getattr(st.mem.get(b), "size", None), V))

    def on_load(self, st, I, b, off, size, v):
        super().on_load(st, I, b, off, size, v)
        if self.plainbytes(st, b, off):
            self.touch(st, I, b, off, size, "what is read")

    def on_store(self, st, I, b, off, size, v):
        super().on_store(st, I, b, off, size, v)
        self.paired(I, b, off)
        if self.plainbytes(st, b, off):
            self.touch(st, I, b, off, size, "what is written")

    def on_memcpy(self, st, I, db, do, sb, so, n):
        super().on_memcpy(st, I, db, do, sb, so, n)
        self.touch(st, I, db, do, n, "the destination of a copy")
        self.touch(st, I, sb, so, n, "the source of a copy")

    def on_memset(self, st, I, b, off, c, n):
        super().on_memset(st, I, b, off, c, n)
        self.touch(st, I, b, off, n, "what is filled")

    def on_external(self, st, I, name, args, r):
        super().on_external(st, I, name, args, r)
        for i, n, what in EXT.get(name, ()):
            p = st.norm(args[i])
            if isinstance(p, V):
                b, off = base_off(p)
                n = mkop("mul", 64, st.norm(args[n[0]]), st.norm(args[n[1]])) if isinstance(n, tuple) else args[n]
                self.touch(st, I, b, off, n, what % name)
        if name == "strlen":
            b, off = base_off(st.norm(args[0]))
            o = st.mem.get(b)
            if o is not None and isinstance(o.size, int):
                st.setrng(r, 0, o.size - 1)
            if isinstance(b, V) and not (b.k == "L" and base_off(b.a[0])[0].k == "glob"):
                self.oblige(b.field not in BYTES, "bounds", I, "a string is looked for in bytes that need not have an end", "strlen", st)
        if name == "EVP_CIPHER_CTX_ctrl" and st.norm(args[1]) == 0x10 and isinstance(st.norm(args[3]), V):
            b, off = base_off(st.norm(args[3]))
            self.touch(st, I, b, off, args[2], W % name)
        if name in ("EVP_DigestSignFinal", "EVP_PKEY_derive") and isinstance(st.norm(args[1]), V) and 2 in self.before:
            b, off = base_off(st.norm(args[1]))
            self.touch(st, I, b, off, self.before[2], W % name)
            b, off = base_off(st.norm(args[2]))
            v = st.norm(self.read(st, b, off, 8))
            if isinstance(v, V):
                st.eq[mkop("ult", 64, self.before[2], v)] = 0
        if name == "fread" and st.norm(args[1]) == 1 and isinstance(st.norm(args[2]), int):
            st.setrng(r, 0, st.norm(args[2]))
        elif name == "fread" and st.norm(args[1]) == 1:
            st.eq[mkop("ult", 64, st.norm(args[2]), r)] = 0
        if name in ("EVP_EncryptUpdate", "EVP_DecryptUpdate", "EVP_EncryptFinal_ex", "EVP_DecryptFinal_ex"):     # of a stream cipher
            b, off = base_off(st.norm(args[2]))
            v = st.norm(self.read(st, b, off, 4))
            if isinstance(v, V) and v.k == "ret":
                if "Final" in name:
                    st.setrng(v, 0, 0)
                elif st.norm(args[1]) != 0:
                    st.eq[mk("op", "ult", 32, st.norm(args[4]), v)] = 0
                    n = st.norm(args[4])
                    while isinstance(n, V) and n.k == "op" and n.a[0] == "trunc" and st.lo_hi(n.a[2])[1] < 1 << n.a[1]:
                        n = st.norm(n.a[2])
                    if st.lo_hi(n)[1] < 1 << 31 and v not in st.eq:
                        st.setrng(v, st.lo_hi(v)[0], min(st.lo_hi(v)[1], st.lo_hi(n)[1]))
        if name.startswith("d2i_"):
            b, off = base_off(st.norm(args[1]))
            p = st.norm(self.read(st, b, off, 8))
            if isinstance(p, V):
                b, off = base_off(p)
                self.touch(st, I, b, off, args[2], R % name)

    def on_slot(self, st, I, slot, args, r):
        super().on_slot(st, I, slot, args, r)
        if slot.endswith("hmac_create") and isinstance(r, V):       # as long as a digest (C04)
            n = st.norm(self.read(st, r, self.fieldof("wickr_buffer", "length"), 8))
            if isinstance(n, V):
                st.setrng(n, 32, 64)

    def on_unpack(self, st, I, msg, o, b, off, args, src):
        super().on_unpack(st, I, msg, o, b, off, args, src)
        p = st.norm(args[2])
        if isinstance(p, V):
            b, off = base_off(p)
            self.touch(st, I, b, off, args[1], "what is parsed")

    def on_result(self, st, I, name, args, r):
        super().on_result(st, I, name, args, r)
        for a in args:
            if isinstance(a, V) and (self.fnstack[-1], base_off(a)[0]) in self.pairs and not self.exempt(I):
                self.judge_pairs(st, I, base_off(a)[0], "is given to %s" % name)
        for i, a in enumerate(args):
            j = self.contracts.get((name, i))
            if j is not None:
                p = st.norm(a)
                if isinstance(p, V):
                    b, off = base_off(p)
                    self.touch(st, I, b, off, args[j], "what is given to %s" % name)


BYTES = {(s, p) for s, (p, n) in PER.items()}


def run_M04(m, tier):
    e = Bounds(m, tier)
    e.run(e.all_functions(), required=False)
    r = Result("every access of bytes, and every length next to its storage, against the size of what it is in, under the conditions of its path")
    r.take(e, {"bounds"})
    r.engine_cover(e)
    r.floor("accesses", len(e.sites.get("accesses", ())), 150)
    r.floor("lengths", len(e.sites.get("lengths", ())), 20)
    r.floor("sizes that come with a pointer", len(e.sites.get("passed_on", ())), 2)
    return r

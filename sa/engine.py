"""Disjunctive abstract interpretation of the library's IR, with function summaries.

Per function: a forward dataflow fixpoint over abstract states (value facts limited to
null / constant / excluded constants / ranges, an abstract heap addressed by
(base object, byte offset), content labels on byte storage, and typestate facts).
Per call: the callee's summary (a set of outcomes relative to its parameters) is
instantiated in the caller; library calls go through contracts (models.py).
Nothing of the analysed program is run and no path is handed to a solver.
"""
import re
from ir import AnalysisError, split_top, take_type, parse_operand

# ---------------------------------------------------------------- values


class V:
    __slots__ = ("k", "a", "h", "field", "bits", "_nz", "_d")
    table = {}

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.h


_uid = [0]


def mk(k, *a):
    key = (k, a)
    v = V.table.get(key)
    if v is None:
        v = V()
        v.k = k
        v.a = a
        _uid[0] += 1
        v.h = _uid[0] * 2654435761 & 0x7fffffff
        v.field = None
        v.bits = 64
        v._nz = k in ("new", "alc", "glob")
        v._d = None
        V.table[key] = v
    return v


def show(v, d=0):
    if not isinstance(v, V):
        return repr(v)
    k, a = v.k, v.a
    if d > 12:
        return "..."
    if k == "arg":
        return "%s.arg%d" % (a[0], a[1])
    if k == "L":
        b = a[0]
        f = v.field[1] if v.field else ("@%s" % (show(a[1], d + 1),))
        return "%s->%s" % (show(b, d + 1), f)
    if k == "ptr":
        return "%s+%s" % (show(a[0], d + 1), show(a[1], d + 1))
    if k == "op":
        return "%s(%s)" % (a[0], ",".join(show(x, d + 1) for x in a[1:]))
    if k == "glob":
        return "@" + a[0]
    if k in ("new", "ret"):
        return "%s<%s>" % (k, show(a[1], d + 1) if isinstance(a[1], V) else a[1])
    if k == "C":
        return "bytes(%s)" % show(a[0], d + 1)
    return "%s%s" % (k, tuple(show(x, d + 1) if isinstance(x, V) else x for x in a))


def arg(fn, i, bits=64):
    v = mk("arg", fn, i)
    v.bits = bits
    return v


def Lsym(base, off, size, field=None):
    v = mk("L", base, off, size)
    if field and v.field is None:
        v.field = field
    v.bits = size * 8
    return v


def bits_of(v):
    return v.bits if isinstance(v, V) else 64


def mkptr(base, off):
    if isinstance(base, int):
        if isinstance(off, int):
            return (base + off) & (2 ** 64 - 1)
        return mk("op", "add", 64, off, base) if base else off
    if base.k == "ptr":
        off = mkop("add", 64, base.a[1], off)
        base = base.a[0]
    if isinstance(off, int):
        if off >= 2 ** 63:
            off -= 2 ** 64
        if off == 0:
            return base
    return mk("ptr", base, off)


def base_off(p):
    if isinstance(p, V) and p.k == "ptr":
        return p.a
    return p, 0


def depth(v):
    if not isinstance(v, V):
        return 0
    if v._d is None:
        v._d = 1 + max([depth(x) for x in v.a] + [0])
    return v._d


MAXD = 40
BOOLOPS = ("eq", "ult", "slt", "not")


def _s(n, bits):
    n &= (1 << bits) - 1
    return n - (1 << bits) if n >> (bits - 1) else n


def nonnull(v):
    """syntactically non-null pointer"""
    if isinstance(v, int):
        return v != 0
    if v._nz:
        return True
    if v.k == "ptr":
        return nonnull(v.a[0])
    return False


def from_entry(v):
    """a pointer the function was given, or found in memory it was given"""
    while isinstance(v, V) and v.k == "L":
        v = base_off(v.a[0])[0]
    return isinstance(v, V) and v.k == "arg"


def mkop(op, bits, *args):
    M = (1 << bits) - 1
    if op == "not":
        x = args[0]
        if isinstance(x, int):
            return 1 - (x & 1)
        if x.k == "op" and x.a[0] == "not":
            return x.a[2]
        v = mk("op", "not", 1, x)
        v.bits = 1
        return v
    if op in ("zext", "sext", "trunc"):
        x = args[0]
        src = args[1]
        if isinstance(x, int):
            if op == "sext":
                return _s(x, src) & M
            return x & M
        if op == "zext":
            return x
        if op == "sext":
            if x.bits < src:
                return x
            # lengths and counters: signedness does not matter to the rules
            return x
        if x.bits <= bits:
            return x
        if bits == 1 and x.bits == 8:
            return x
        if x.k == "op" and x.a[0] in ("and",) and isinstance(x.a[3], int) and x.a[3] <= M:
            return x
        v = mk("op", "trunc", bits, x)
        v.bits = bits
        return v
    a, b = args[0], args[1]
    ia, ib = isinstance(a, int), isinstance(b, int)
    if op == "ne":
        return mkop("not", 1, mkop("eq", bits, a, b))
    if op in ("ugt", "uge", "sgt", "sge"):
        # a > b == b < a ; a >= b == not (a < b)
        p = op[0] + "lt"
        if op.endswith("gt"):
            return mkop(p, bits, b, a)
        return mkop("not", 1, mkop(p, bits, a, b))
    if op in ("ule", "sle"):
        p = op[0] + "lt"
        return mkop("not", 1, mkop(p, bits, b, a))
    if op == "eq":
        if ia and ib:
            return int((a & M) == (b & M))
        if a is b:
            return 1
        if ia:
            a, b, ia, ib = b, a, ib, ia
        if ib:
            if b == 0 and nonnull(a):
                return 0
            if a.bits == 1 or (a.k == "op" and a.a[0] in BOOLOPS):
                if b == 0:
                    return mkop("not", 1, a)
                if b == 1:
                    return a
                return 0
            if a.k == "op" and a.a[0] == "add" and isinstance(a.a[3], int):
                return mkop("eq", bits, a.a[2], (b - a.a[3]) & M)
            if b == 0 and a.k == "op" and a.a[0] == "or":
                return mkop("and", 1, mkop("eq", bits, a.a[2], 0), mkop("eq", bits, a.a[3], 0))
        else:
            ba, oa = base_off(a)
            bb, ob = base_off(b)
            if isinstance(ba, V) and isinstance(bb, V):
                if ba is bb and isinstance(oa, int) and isinstance(ob, int):
                    return int(oa == ob)
                if ba is bb and not (isinstance(oa, V) and oa.k == "item" or isinstance(ob, V) and ob.k == "item"):
                    return mkop("eq", bits, oa, ob)
                if ba is not bb and ba.k in ("new", "alc", "glob") and bb.k in ("new", "alc", "glob"):
                    return 0
                if ba.k in ("new", "alc") and from_entry(bb) or bb.k in ("new", "alc") and from_entry(ba):
                    return 0        # what was given at entry is not what was allocated since
            if a.h > b.h:
                a, b = b, a
        v = mk("op", "eq", bits, a, b)
        v.bits = 1
        return v
    if op in ("ult", "slt"):
        if ia and ib:
            return int((a & M) < (b & M)) if op == "ult" else int(_s(a, bits) < _s(b, bits))
        if a is b:
            return 0
        if op == "ult":
            if ib and (b & M) == 0:
                return 0
            if ib and b == 1:
                return mkop("eq", bits, a, 0)
            if ia and (a & M) == 0:
                return mkop("ne", bits, b, 0)
            if ib and isinstance(a, V) and a.bits < 64 and (b & M) > (1 << a.bits) - 1:
                return 1
            if ia and isinstance(b, V) and b.bits < 64 and (a & M) >= (1 << b.bits) - 1:
                return 0
        v = mk("op", op, bits, a, b)
        v.bits = 1
        return v
    if ia and ib:
        a &= M
        b &= M
        if op == "add":
            return (a + b) & M
        if op == "sub":
            return (a - b) & M
        if op == "mul":
            return (a * b) & M
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        if op == "shl":
            return (a << b) & M if b < bits else 0
        if op == "lshr":
            return a >> b if b < bits else 0
        if op == "ashr":
            return (_s(a, bits) >> min(b, bits)) & M
        if op == "udiv":
            return a // b if b else 0
        if op == "urem":
            return a % b if b else 0
        if op == "sdiv":
            x, y = _s(a, bits), _s(b, bits)
            return (int(x / y) if y else 0) & M
        if op == "srem":
            x, y = _s(a, bits), _s(b, bits)
            return (x - y * int(x / y) if y else 0) & M
    if bits > 1 and op in ("and", "or", "xor") and isinstance(a, V) and isinstance(b, V) and a.bits == b.bits == 1:
        return mkop(op, 1, a, b)
    if op == "shl" and ib:
        return mkop("mul", bits, a, (1 << b) & M)
    if op == "sub":
        if a is b:
            return 0
        if ib:
            return mkop("add", bits, a, (-b) & M)
        pa, pb = base_off(a), base_off(b)
        if isinstance(pa[0], V) and pa[0] is pb[0] and (a.k == "ptr" or b.k == "ptr"):
            return mkop("sub", bits, pa[1], pb[1])
    if op in ("add", "mul", "and", "or", "xor") and ia:
        a, b, ia, ib = b, a, ib, ia
    if ib:
        b &= M
        if op == "add":
            if b == 0:
                return a
            if a.k == "op" and a.a[0] == "add" and isinstance(a.a[3], int):
                return mkop("add", bits, a.a[2], (a.a[3] + b) & M)
            if a.k in ("ptr", "new", "alc", "glob"):
                return mkptr(a, b)
        elif op == "mul":
            if b == 1:
                return a
            if b == 0:
                return 0
        elif op == "and":
            if b == 0:
                return 0
            if b == M:
                return a
            if bits == 1:
                return a if b else 0
            if a.bits < 64 and b == (1 << a.bits) - 1:
                return a
        elif op == "or":
            if b == 0:
                return a
            if bits == 1 and b:
                return 1
        elif op == "xor":
            if b == 0:
                return a
            if bits == 1:
                return mkop("not", 1, a)
        elif op in ("lshr", "ashr", "udiv", "sdiv") and b == (0 if op in ("lshr", "ashr") else 1):
            return a
    elif op in ("and", "or") and a is b:
        return a
    elif op == "xor" and a is b:
        return 0
    elif op in ("add", "mul", "and", "or", "xor") and isinstance(a, V) and a.h > b.h and a.k not in ("ptr", "new", "alc", "glob") and \
            not (bits == 1 and op in ("and", "or")):
        a, b = b, a
    v = mk("op", op, bits, a, b)
    v.bits = bits
    if depth(v) > MAXD:
        v = mk("deep", op, bits, frozenset(leaves_of(v)))
        v.bits = bits
    return v


def leaves_of(v, out=None):
    if out is None:
        out = set()
    if isinstance(v, V):
        if v.k in ("arg", "L", "new", "ret", "hv", "alc", "glob"):
            out.add(v)
        else:
            for x in v.a:
                if isinstance(x, V):
                    leaves_of(x, out)
                elif isinstance(x, (tuple, frozenset)):
                    for y in x:
                        leaves_of(y, out)
    return out


def ext(v, off, size, whole):
    """bytes [off, off+size) of the value v of `whole` bytes"""
    if isinstance(v, int):
        return (v >> (8 * off)) & ((1 << (8 * size)) - 1)
    if off == 0 and size == whole:
        return v
    if v.k == "cat":
        for (o, s, x) in v.a[0]:
            if o == off and s == size:
                return x
            if o <= off and off + size <= o + s:
                return ext(x, off - o, size, s)
        parts = [(o - off, s, x) for (o, s, x) in v.a[0] if o >= off and o + s <= off + size]
        if sum(p[1] for p in parts) == size:
            return mkcat(parts, size)
    if v.k == "L" and v.a[2] == whole and isinstance(v.a[1], int):
        return Lsym(v.a[0], v.a[1] + off, size)
    r = mk("ext", v, off, size)
    r.bits = size * 8
    return r


def mkcat(parts, size):
    parts = tuple(sorted(parts, key=lambda p: p[0]))
    if len(parts) == 1 and parts[0][1] == size:
        return parts[0][2]
    if all(isinstance(p[2], int) for p in parts):
        n = 0
        for o, s, x in parts:
            n |= (x & ((1 << 8 * s) - 1)) << (8 * o)
        return n
    # contiguous extracts of one value
    p0 = parts[0][2]
    if isinstance(p0, V) and p0.k == "ext":
        src, st = p0.a[0], p0.a[1]
        if all(isinstance(x, V) and x.k == "ext" and x.a[0] is src and x.a[1] == st + o and x.a[2] == s for o, s, x in parts):
            if st == 0 and bits_of(src) == size * 8:
                return src
            return ext(src, st, size, bits_of(src) // 8)
    if isinstance(p0, V) and p0.k == "L" and isinstance(p0.a[1], int):
        b, st = p0.a[0], p0.a[1]
        if size in (2, 4, 8) and len(parts) == size and \
                all(isinstance(x, V) and x.k == "L" and x.a[0] is b and x.a[1] == st + o and x.a[2] == s for o, s, x in parts):
            return Lsym(b, st, size)        # copied byte by byte
    v = mk("cat", parts)
    v.bits = size * 8
    return v


# ---------------------------------------------------------------- heap objects

EMPTY = {}
NOC = frozenset()


class Obj:
    """immutable abstract object"""
    __slots__ = ("status", "default", "cells", "blocks", "content", "size", "kind", "where", "_key", "_h")

    def __init__(self, status, default, cells=EMPTY, blocks=(), content=None, size=None, kind=None, where=None):
        self.status = status      # init heap alloca freed
        self.default = default    # L zero undef
        self.cells = cells
        self.blocks = blocks
        self.content = content
        self.size = size
        self.kind = kind
        self.where = where
        self._key = None

    def key(self):
        if self._key is None:
            self._key = (self.status, self.default, frozenset(self.cells.items()), self.blocks, self.content, self.size, self.kind)
            self._h = hash(self._key)
        return self._key

    def __hash__(self):
        self.key()
        return self._h

    def __eq__(self, o):
        return self is o or (self.key() == o.key())

    def w(self, **kw):
        o = Obj(self.status, self.default, self.cells, self.blocks, self.content, self.size, self.kind, self.where)
        for k, v in kw.items():
            setattr(o, k, v)
        return o


INIT = Obj("init", "L")


class Infeasible(Exception):
    pass


class State:
    __slots__ = ("env", "mem", "eq", "neq", "rng", "facts", "assumed", "touched", "visits", "trace")

    def __init__(self):
        self.env = {}
        self.mem = {}
        self.eq = {}
        self.neq = {}
        self.rng = {}
        self.facts = frozenset()
        self.assumed = {}
        self.touched = frozenset()
        self.visits = ()
        self.trace = ()

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.eq = dict(self.eq)
        s.neq = dict(self.neq)
        s.rng = dict(self.rng)
        s.facts = self.facts
        s.assumed = dict(self.assumed)
        s.touched = self.touched
        s.visits = self.visits
        s.trace = self.trace
        return s

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.mem.items()), frozenset(self.eq.items()),
                frozenset(self.neq.items()), frozenset(self.rng.items()), self.facts,
                frozenset(self.assumed), self.visits)

    def weakkey(self):
        return (frozenset(self.env.items()), frozenset(self.mem.items()), self.facts, frozenset(self.assumed), self.visits)

    # -------- constraints
    def norm(self, v):
        if isinstance(v, V):
            r = self.eq.get(v)
            if r is not None:
                return r
        return v

    def lo_hi(self, v, d=0):
        if isinstance(v, int):
            return v, v
        r = self.rng.get(v)
        if r:
            return r
        if v.k == "op" and v.a[0] == "add" and d < 4:
            al, ah = self.lo_hi(v.a[2], d + 1)
            bl, bh = self.lo_hi(v.a[3], d + 1)
            if ah + bh < (1 << v.a[1]):
                return al + bl, ah + bh
        return 0, (1 << v.bits) - 1

    def simp(self, c):
        """re-simplify a condition under what is known"""
        if isinstance(c, int):
            return c
        r = self.eq.get(c)
        if r is not None:
            return r
        if c.k != "op":
            return c
        op = c.a[0]
        if op == "not":
            return mkop("not", 1, self.simp(c.a[2]))
        if op in ("eq", "ult", "slt"):
            a, b = self.simp(c.a[2]), self.simp(c.a[3])
            n = mkop(op, c.a[1], a, b)
            if isinstance(n, int):
                return n
            r = self.eq.get(n)
            if r is not None:
                return r
            if n.k == "op" and n.a[0] == "eq" and isinstance(n.a[3], int):
                x, k = n.a[2], n.a[3]
                if k in self.neq.get(x, ()):
                    return 0
                lo, hi = self.lo_hi(x)
                if not (lo <= k <= hi):
                    return 0
                if k == 0 and isinstance(x, V) and x.k == "ptr" and 0 in self.neq.get(x.a[0], ()):
                    return 0
            if n.k == "op" and n.a[0] == "ult":
                x, y = n.a[2], n.a[3]
                xl, xh = self.lo_hi(x)
                yl, yh = self.lo_hi(y)
                if xh < yl:
                    return 1
                if xl >= yh:
                    return 0
                # y <= x known through not(ult(x,y)) handled by eq memo; ult(y,x) -> not ult(x,y)
                r = self.eq.get(mk("op", "ult", n.a[1], y, x))
                if r == 1:
                    return 0
            if n.k == "op" and n.a[0] == "slt" and n.a[1] >= 8:
                x, y = n.a[2], n.a[3]
                half = 1 << (n.a[1] - 1)
                xl, xh = self.lo_hi(x) if isinstance(x, V) else (_s(x, n.a[1]),) * 2
                yl, yh = self.lo_hi(y) if isinstance(y, V) else (_s(y, n.a[1]),) * 2
                if xh < half and yh < half:
                    if xh < yl:
                        return 1
                    if xl >= yh:
                        return 0
            return n
        if op in ("and", "or", "add", "sub", "mul", "xor") or op in ("trunc",):
            na = [self.simp(x) if isinstance(x, V) else x for x in c.a[2:]]
            if any(x is not y for x, y in zip(na, c.a[2:])):
                if op == "trunc":
                    return mkop("trunc", c.a[1], na[0], 64)
                return mkop(op, c.a[1], *na)
        return c

    def assume(self, c, truth):
        """refine in place; raise Infeasible"""
        c = self.simp(c)
        if isinstance(c, int):
            if bool(c & 1 if c in (0, 1) else c) != truth:
                raise Infeasible
            return
        if c.k == "op":
            op = c.a[0]
            if op == "not":
                return self.assume(c.a[2], not truth)
            if op == "and" and c.a[1] == 1:
                if truth:
                    self.assume(c.a[2], True)
                    self.assume(c.a[3], True)
                    return
            elif op == "or" and c.a[1] == 1:
                if not truth:
                    self.assume(c.a[2], False)
                    self.assume(c.a[3], False)
                    return
            elif op == "eq":
                a, b = c.a[2], c.a[3]
                if isinstance(b, int):
                    if truth and isinstance(a, V) and a.k == "op" and a.a[0] == "mul" and isinstance(a.a[3], int) and a.a[3] and \
                            isinstance(a.a[2], V) and self.lo_hi(a.a[2])[1] * a.a[3] < 1 << a.a[1]:
                        if b % a.a[3]:                          # a product that does not wrap
                            raise Infeasible
                        self.assume(mkop("eq", a.a[1], a.a[2], b // a.a[3]), True)
                    if truth:
                        lo, hi = self.lo_hi(a)
                        if b in self.neq.get(a, ()) or not lo <= b <= hi:
                            raise Infeasible
                        self.seteq(a, b)
                    else:
                        self.addneq(a, b)
                    return
                self.eq[c] = int(truth)
                return
            elif op == "ult":
                a, b = c.a[2], c.a[3]
                self.eq[c] = int(truth)
                if isinstance(b, int) and isinstance(a, V):
                    lo, hi = self.lo_hi(a)
                    if truth:
                        hi = min(hi, b - 1)
                    else:
                        lo = max(lo, b)
                    self.setrng(a, lo, hi)
                elif isinstance(a, int) and isinstance(b, V):
                    lo, hi = self.lo_hi(b)
                    if truth:
                        lo = max(lo, a + 1)
                    else:
                        hi = min(hi, a)
                    self.setrng(b, lo, hi)
                else:
                    al, ah = self.lo_hi(a)
                    bl, bh = self.lo_hi(b)
                    if truth:      # a < b
                        self.setrng(a, al, min(ah, bh - 1))
                        self.setrng(b, max(bl, al + 1), bh)
                    else:          # b <= a
                        self.setrng(a, max(al, bl), ah)
                        self.setrng(b, bl, min(bh, ah))
                return
            elif op == "slt":
                self.eq[c] = int(truth)
                a, b = c.a[2], c.a[3]
                half = 1 << (c.a[1] - 1)
                if self.lo_hi(a)[1] < half and self.lo_hi(b)[1] < half:
                    return self.assume(mkop("ult", c.a[1], a, b), truth)       # neither can be negative
                if isinstance(b, int) and isinstance(a, V) and a.bits == c.a[1]:
                    k = _s(b, c.a[1])
                    H = (1 << (c.a[1] - 1)) - 1
                    lo, hi = self.lo_hi(a)
                    if not truth and k >= 0:
                        self.setrng(a, max(lo, k), min(hi, H))
                return
        self.seteq(c, int(truth)) if (c.bits == 1 or c.bits == 8) and truth else (
            self.seteq(c, 0) if not truth else self.addneq(c, 0))

    def seteq(self, a, n):
        old = self.eq.get(a)
        if old is not None and old != n:
            raise Infeasible
        if nonnull(a) and n == 0:
            raise Infeasible
        if n in self.neq.get(a, ()):
            raise Infeasible
        self.eq[a] = n
        self.neq.pop(a, None)
        self.rng.pop(a, None)

    def addneq(self, a, n):
        if self.eq.get(a) == n:
            raise Infeasible
        if a in self.eq:
            return
        if n == 0 and nonnull(a):
            return
        self.neq[a] = self.neq.get(a, NOC) | {n}
        lo, hi = self.lo_hi(a)
        if n == lo or n == hi:
            if a.bits < 64 or a in self.rng:
                while lo in self.neq[a] and lo <= hi:
                    lo += 1
                while hi in self.neq[a] and lo <= hi:
                    hi -= 1
                if lo > hi:
                    raise Infeasible
                if lo == hi:
                    self.seteq(a, lo)
                elif a in self.rng:
                    self.setrng(a, lo, hi)

    def setrng(self, a, lo, hi):
        if not isinstance(a, V):
            if not lo <= a <= hi:
                raise Infeasible
            return
        if lo > hi:
            raise Infeasible
        ne = self.neq.get(a, ())
        while lo in ne and lo <= hi:
            lo += 1
        while hi in ne and lo <= hi:
            hi -= 1
        if lo > hi:
            raise Infeasible
        if lo == hi:
            self.seteq(a, lo)
            return
        if (lo, hi) != (0, (1 << a.bits) - 1):
            self.rng[a] = (lo, hi)

    def obj(self, base):
        return self.mem.get(base)


def is_param_rooted(b):
    while isinstance(b, V):
        if b.k == "arg":
            return True
        if b.k in ("L", "ptr"):
            b = b.a[0]
            continue
        return False
    return False


def inreach(b, seen, st):
    """b is read through an object that is in reach and not itself released"""
    while isinstance(b, V) and b.k in ("L", "ptr"):
        b = b.a[0]
        if b in seen:
            o = st.mem.get(b)
            return o is None or o.status != "freed" or b.k != "new"
    return False


def root_of(b):
    while isinstance(b, V) and b.k in ("L", "ptr"):
        b = b.a[0]
    return b


class Outcome:
    __slots__ = ("ret", "mem", "eq", "neq", "rng", "facts", "assumed", "touched", "trace", "visits")


class Report:
    def __init__(self, rule, fn, loc, msg, inst, trace=()):
        self.rule, self.fn, self.loc, self.msg, self.inst, self.trace = rule, fn, loc, msg, inst, trace

    def key(self):
        return (self.rule, self.fn, self.loc, self.inst)


# ---------------------------------------------------------------- the interpreter

CAP = 4000
SUMMAX = 8
STATEMAX = 32
KEEP = 6
ESC = (0, 0, 0)             # at least these limits: an analysis repeated with higher precision
WIDEN = 2
CONCRETE_MAX = 70


def _succ(f, b):
    t = f.blocks[b][-1]
    if t.op == "br":
        return list(dict.fromkeys(t.b))
    if t.op == "switch":
        return list(dict.fromkeys([l for _, l in t.b] + [t.c]))
    return []


class CFG:
    def __init__(self, f):
        self.f = f
        self.succ = {b: _succ(f, b) for b in f.order}
        self.pred = {b: [] for b in f.order}
        for b, ss in self.succ.items():
            for s in ss:
                self.pred[s].append(b)
        entry = f.order[0]
        # back edges through DFS
        color, back = {}, set()
        stack = [(entry, iter(self.succ[entry]))]
        color[entry] = 1
        post = []
        while stack:
            b, it = stack[-1]
            for s in it:
                if color.get(s) == 1:
                    back.add((b, s))
                elif s not in color:
                    color[s] = 1
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                color[b] = 2
                post.append(b)
                stack.pop()
        self.back = back
        self.headers = {h for _, h in back}
        self.loops = {}
        for t, h in back:
            body = {h}
            w = [t]
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w += self.pred[x]
            self.loops.setdefault(h, set()).update(body)
        # loops that are left when a counter reaches a constant, wherever in the loop that is tested
        self.constloops = set()
        alldefs = {I.res: I for b in f.order for I in f.blocks[b] if I.res}
        for h, body in self.loops.items():
            phis = {I.res for I in f.blocks[h] if I.op == "phi"}

            def counts(o, d=0):
                if o[0] != "l" or d > 6:
                    return False
                if o[1] in phis:
                    return True
                I = alldefs.get(o[1])
                if I is None or I.op not in ("add", "sub", "zext", "sext", "trunc"):
                    return False
                return counts(I.a, d + 1) or I.op in ("add", "sub") and counts(I.b, d + 1)
            for x in body:
                t = f.blocks[x][-1]
                if t.op == "br" and t.a is not None and t.a[0] == "l" and not all(y in body for y in self.succ[x]):
                    c = alldefs.get(t.a[1])
                    if c is not None and c.op == "icmp" and c.ty != "ptr" and \
                            any(k[0] == "c" and -1 <= k[1] <= CONCRETE_MAX and counts(v) for k, v in ((c.a, c.b), (c.b, c.a))):
                        self.constloops.add(h)
        # order: RPO in which a loop's body precedes its exits
        depthof = {b: sum(1 for l in self.loops.values() if b in l) for b in f.order}
        color = set()
        post = []

        def visit(b):
            st = [(b, None)]
            color.add(b)
            its = {b: iter(sorted(self.succ[b], key=lambda s: depthof.get(s, 0)))}
            path = [b]
            while path:
                x = path[-1]
                for s in its[x]:
                    if s not in color:
                        color.add(s)
                        its[s] = iter(sorted(self.succ[s], key=lambda y: depthof.get(y, 0)))
                        path.append(s)
                        break
                else:
                    post.append(x)
                    path.pop()
        visit(entry)
        self.rpo = {b: i for i, b in enumerate(reversed(post))}
        self._liveness()

    def _liveness(self):
        f = self.f
        use, defs, phiuse = {}, {}, {}
        for b in f.order:
            u, d = set(), set()
            for I in f.blocks[b]:
                for o in operands(I):
                    if I.op == "phi":
                        continue
                    if o not in d:
                        u.add(o)
                if I.res:
                    d.add(I.res)
            use[b], defs[b] = u, d
            for I in f.blocks[b]:
                if I.op == "phi":
                    for v, l in I.a:
                        for o in _opnames(v):
                            phiuse.setdefault((l, b), set()).add(o)
        live = {b: set() for b in f.order}
        phis = {b: {I.res for I in f.blocks[b] if I.op == "phi"} for b in f.order}
        changed = True
        rev = list(reversed(f.order))
        while changed:
            changed = False
            for b in rev:
                out = set()
                for s in self.succ[b]:
                    out |= (live[s] - phis[s]) | phiuse.get((b, s), set())
                n = use[b] | (out - defs[b]) | phis[b]
                if n != live[b]:
                    live[b] = n
                    changed = True
        self.live = live


def _opnames(o):
    if not isinstance(o, tuple) or not o:
        return
    if o[0] == "l":
        yield o[1]
    elif o[0] == "ce":
        for x in o[1:]:
            if isinstance(x, tuple):
                yield from _opnames(x)
            elif isinstance(x, list):
                for y in x:
                    yield from _opnames(y)


def operands(I):
    if I.op == "phi":
        for v, l in I.a:
            yield from _opnames(v)
        return
    for f in (I.a, I.b, I.c):
        if isinstance(f, tuple):
            yield from _opnames(f)
        elif isinstance(f, list):
            for y in f:
                if isinstance(y, tuple) and y and y[0] in ("l", "ce"):
                    yield from _opnames(y)


_leafmemo = {}


def leafset(v):
    r = _leafmemo.get(v)
    if r is None:
        r = _leafmemo[v] = frozenset(leaves_of(v))
    return r


class Dead(Exception):
    """the current abstract path ends here"""


class Engine:
    def __init__(self, module, models, spec=None):
        self.m = module
        self.models = models
        self.spec = spec or {}
        self.summ = {}
        self.busy = set()
        self.reports = {}
        self.cfgs = {}
        self.ctx = ()
        self.fnstack = []
        self.factkinds = self.spec.get("facts")      # None: none kept; "all" or a set
        self.stats = {"functions": 0, "blocks": 0, "states": 0, "calls": 0, "capped": 0, "opaque": {}, "inlined": 0,
                      "derefs": 0, "frees": 0, "allocs": 0, "returns": 0, "slot_calls": 0}
        uid = 0
        self.aggs = {}
        for name in sorted(self.m.funcs):
            f = self.m.funcs[name]
            for b in f.order:
                for I in f.blocks[b]:
                    uid += 1
                    I.idx = uid
        self._prep_leaves()
        self.gcells = {}

    # ---- static preparation
    def _prep_leaves(self):
        T = self.m.types
        for f in self.m.funcs.values():
            ty = {}
            for b in f.order:
                for I in f.blocks[b]:
                    if I.op == "alloca":
                        ty[I.res] = I.ty
                    elif I.op == "getelementptr":
                        t = I.ty
                        for k, ix in enumerate(I.b):
                            if k == 0:
                                continue
                            if t[0] == "[":
                                t = T.array(t)[1]
                            elif ix[0] == "c" and t[0] in "%{":
                                t = T.fields(t)[ix[1]]
                            else:
                                t = None
                                break
                        if t:
                            ty[I.res] = t
            f.ptrty = ty
            for b in f.order:
                for I in f.blocks[b]:
                    if I.op == "load" and I.ty[0] == "i" and I.a[0] == "l":
                        t = ty.get(I.a[1])
                        if t and t[0] in "%{":
                            sz = T.size(I.ty)
                            lv = [x for x in T.leaves(t) if x[0] + x[1] <= sz]
                            if len(lv) > 1 or (lv and lv[0][1] < sz):
                                I.x = lv

    def cfg(self, f):
        c = self.cfgs.get(f.name)
        if c is None:
            c = self.cfgs[f.name] = CFG(f)
        return c

    def loc(self, I):
        if I is None:
            return ("?", 0)
        return self.m.loc(I.dbg)

    def locs(self, I):
        f, l = self.loc(I)
        return "%s:%d" % (f.split("/")[-1], l)

    def report(self, rule, I, msg, inst, st=None):
        fn = self.fnstack[-1] if self.fnstack else "?"
        r = Report(rule, fn, self.locs(I) if I is not None else "?", msg, inst, tuple(st.trace) if st is not None else ())
        self.reports.setdefault(r.key(), r)

    # ---- values
    def val(self, st, o, ty):
        k = o[0]
        if k == "l":
            return st.norm(st.env[o[1]])
        if k == "c":
            n = o[1]
            if n < 0:
                n &= (1 << 64) - 1 if ty == "ptr" else (1 << int(ty[1:])) - 1
            return n
        if k == "g":
            return self.globv(o[1])
        if k == "u":
            return 0
        if k == "ce":
            if o[1] == "gep":
                base = self.val(st, o[3], "ptr")
                return self.gep(st, o[2], base, o[4])
            return self.val(st, o[2], "i64")
        return mk("hv", "agg", str(o)[:80])

    def globv(self, n):
        return mk("glob", n)

    def gep(self, st, ty, base, idx):
        T = self.m.types
        off = 0
        t = ty
        for k, ix in enumerate(idx):
            if k == 0:
                s = T.size(t)
            elif t[0] == "[":
                t = T.array(t)[1]
                s = T.size(t)
            else:
                lay = T.layout(t)
                off = mkop("add", 64, lay[0][ix[1]], off)
                t = T.fields(t)[ix[1]]
                continue
            v = self.val(st, ix, "i64")
            off = mkop("add", 64, mkop("mul", 64, v, s), off)
        return mkptr(base, off)

    # ---- memory
    def access(self, st, base, I, what, maybe_null=False):
        """the program dereferences `base` here (maybe_null: unless it is null)"""
        self.stats["derefs"] += 1
        b = st.norm(base)
        if isinstance(b, int):
            if b == 0 or b < 4096:
                self.report("null-deref", I, "dereference of a null pointer (%s)" % what, "null:%s" % what, st)
                raise Dead
            raise Dead
        if b.k == "op":
            return b
        o = st.mem.get(b)
        if o is not None and o.status == "freed":
            self.report("use-after-free", I, "use of %s after it was released" % self.describe(b), "uaf:%s" % self.describe(b), st)
            raise Dead
        if not maybe_null and not b._nz and 0 not in st.neq.get(b, ()):
            st.addneq(b, 0)
            if is_param_rooted(b):
                st.assumed.setdefault(b, (self.fnstack[-1], self.locs(I)))
            elif b.k == "ret":
                self.fallible_deref(st, b, I)
        if is_param_rooted(b) and b not in st.touched:
            st.touched = st.touched | {b}
        return b

    def fallible_deref(self, st, b, I):
        pass

    def describe(self, b):
        if isinstance(b, V) and b.k == "new":
            s = b.a[0]
            return "object<%s>" % (self.siteloc.get(s, s),)
        return show(b)

    siteloc = {}

    def getobj(self, st, base):
        o = st.mem.get(base)
        if o is None:
            if isinstance(base, V) and base.k == "glob":
                return self.globobj(base)
            return INIT
        return o

    def globobj(self, g):
        o = self.gcells.get(g)
        if o is None:
            cells = {}
            ent = self.m.globals.get(g.a[0])
            if ent and ent[2]:
                try:
                    self._ginit(ent[0], ent[1], 0, cells)
                    o = Obj("init", "L", cells)
                except Exception:
                    o = INIT
            else:
                o = INIT
            self.gcells[g] = o
        return o

    def _ginit(self, ty, text, off, cells):
        T = self.m.types
        text = text.strip()
        if text == "zeroinitializer":
            for o, s, t in T.leaves(ty, off):
                cells[o] = (s, 0)
            return
        if ty[0] == "[":
            n, e = T.array(ty)
            if text.startswith('c"'):
                bs = self._cstr(text)
                for i, b in enumerate(bs[:256]):
                    cells[off + i] = (1, b)
                return
            parts = split_top(text[1:-1])
            es = T.size(e)
            for i, p in enumerate(parts[:512]):
                t, r = take_type(p)
                self._ginit(e, r, off + i * es, cells)
            return
        if ty[0] in "%{":
            parts = split_top(text.strip()[1:-1])
            for o, ft, p in zip(T.layout(ty)[0], T.fields(ty), parts):
                t, r = take_type(p)
                self._ginit(t, r, off + o, cells)
            return
        v = parse_operand(self.m, ty, text)
        if v[0] == "c":
            n = v[1]
            if n < 0 and ty[0] == "i":
                n &= (1 << int(ty[1:])) - 1
            cells[off] = (T.size(ty), n)
        elif v[0] == "g":
            cells[off] = (8, self.globv(v[1]))

    def _cstr(self, t):
        out = []
        s = t[2:-1]
        i = 0
        while i < len(s):
            if s[i] == "\\":
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
            else:
                out.append(ord(s[i]))
                i += 1
        return out

    def default_read(self, base, o, off, size, field):
        if isinstance(off, int):
            for blk in reversed(o.blocks):
                bo, bs = blk[0], blk[1]
                if isinstance(bs, int) and bo <= off and off + size <= bo + bs:
                    if blk[2] == "Z":
                        return 0
                    return Lsym(blk[3], blk[4] + off - bo, size, field)
            if o.default == "zero":
                return 0
        if o.default == "zero" and not isinstance(off, int):
            return self.fresh_zero_read(base, o, off, size, field)
        return Lsym(base, off, size, field)

    def fresh_zero_read(self, base, o, off, size, field):
        return Lsym(base, off, size, field)

    def read(self, st, base, off, size, field=None, leaves=None):
        o = self.getobj(st, base)
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return st.norm(c[1])
        if not isinstance(off, int):
            return st.norm(self.default_read(base, o, off, size, field))
        if o.cells:
            ov = []
            for co, (cs, cv) in o.cells.items():
                if isinstance(co, int) and co < off + size and off < co + cs:
                    ov.append((co, cs, cv))
            if ov:
                if len(ov) == 1 and ov[0][0] <= off and off + size <= ov[0][0] + ov[0][1]:
                    co, cs, cv = ov[0]
                    return st.norm(ext(st.norm(cv), off - co, size, cs))
                parts = []
                if leaves:
                    for lo, ls, lt in leaves:
                        if lo + ls <= size:
                            parts.append((lo, ls, self.read(st, base, off + lo, ls)))
                    return mkcat(parts, size)
                pos = off
                for co, cs, cv in sorted(ov, key=lambda t: t[0]):
                    if co > pos:
                        parts.append((pos - off, co - pos, self.default_read(base, o, pos, co - pos, None)))
                        pos = co
                    s0 = max(co, off)
                    e0 = min(co + cs, off + size)
                    parts.append((s0 - off, e0 - s0, ext(st.norm(cv), s0 - co, e0 - s0, cs)))
                    pos = e0
                if pos < off + size:
                    parts.append((pos - off, off + size - pos, self.default_read(base, o, pos, off + size - pos, None)))
                return mkcat(parts, size)
        if leaves:
            parts = [(lo, ls, st.norm(self.default_read(base, o, off + lo, ls, None))) for lo, ls, lt in leaves if lo + ls <= size]
            return mkcat(parts, size)
        return st.norm(self.default_read(base, o, off, size, field))

    def write(self, st, base, off, size, v):
        o = self.getobj(st, base)
        cells = dict(o.cells)
        if isinstance(off, V) and off.k == "item":
            # container slots: one abstract slot per stored item
            n = 0
            k = off
            while k in cells and cells[k][1] is not v:
                n += 1
                k = mk("item", off.a[0], n)
            cells[k] = (size, v)
            st.mem[base] = o.w(cells=cells)
            return o
        if isinstance(off, int):
            for co in [co for co, (cs, cv) in cells.items() if isinstance(co, int) and co < off + size and off < co + cs and not (co == off and cs == size)]:
                cs, cv = cells.pop(co)
                # keep the parts that are not overwritten
                if co < off:
                    cells[co] = (off - co, ext(cv, 0, off - co, cs))
                if co + cs > off + size:
                    e = off + size
                    cells[e] = (co + cs - e, ext(cv, e - co, co + cs - e, cs))
        else:
            for co in [co for co in cells if not isinstance(co, int) and co is not off and co.k != "item"]:
                del cells[co]
        if isinstance(v, V) and v.k == "cat" and isinstance(off, int):
            cells.pop(off, None)
            for po, ps, pv in v.a[0]:
                cells[off + po] = (ps, pv)
        else:
            cells[off] = (size, v)
        kw = {"cells": cells}
        if size == 1 or not isinstance(off, int):
            lab = self.labels(st, v)
            if lab:
                kw["content"] = self.content(st, base) | lab
        st.mem[base] = o.w(**kw)
        return o

    def content(self, st, base):
        base = st.norm(base)
        if not isinstance(base, V):
            return NOC
        o = st.mem.get(base)
        if o is None:
            if base.k == "glob":
                return NOC
            return frozenset((mk("C", base),))
        if o.content is None:
            if o.status == "init" or (o.status == "freed" and o.default == "L"):
                return frozenset((mk("C", base),))
            return NOC
        return o.content

    def labels(self, st, v, d=0):
        if not isinstance(v, V) or d > 6:
            return NOC
        if v.k == "L":
            out = NOC
            b = v.a[0]
            if v.a[2] <= 2 and (isinstance(b, V) and b.k != "glob"):
                out = self.content(st, b)
            if isinstance(v.a[1], V):
                out = out | self.labels(st, v.a[1], d + 1)
            return out
        if v.k in ("op", "ext", "deep"):
            out = NOC
            for x in v.a:
                if isinstance(x, V):
                    out = out | self.labels(st, x, d + 1)
                elif isinstance(x, frozenset):
                    for y in x:
                        out = out | self.labels(st, y, d + 1)
            return out
        return NOC

    def set_content(self, st, base, lab, replace=False):
        base = st.norm(base)
        if not isinstance(base, V):
            return
        o = self.getobj(st, base)
        n = frozenset(lab) if replace else self.content(st, base) | frozenset(lab)
        if o.content != n:
            st.mem[base] = o.w(content=n)

    # ---- fresh names
    def sig(self, st):
        return (self.ctx, st.visits)

    def fresh_new(self, st, I, tag, status="heap", default="undef", size=None, kind=None, content=None):
        v = mk("new", I.idx, tag, self.sig(st))
        self.siteloc[I.idx] = self.locs(I)
        st.mem[v] = Obj(status, default, EMPTY, (), content, size, kind, self.locs(I))
        self.stats["allocs"] += 1
        self.forget(st, v)
        return v

    def fresh_ret(self, st, I, tag, bits=64):
        v = mk("ret", I.idx, tag, self.sig(st))
        v.bits = bits
        self.siteloc[I.idx] = self.locs(I)
        self.forget(st, v)
        return v

    def forget(self, st, v):
        for d in (st.eq, st.neq, st.rng):
            for k in [k for k in d if k is v or v in leafset_deep(k)]:
                del d[k]

    # ---- running a function body
    def entry_state(self, f):
        st = State()
        for i, (t, n, attrs) in enumerate(f.params):
            bits = 64 if t == "ptr" else self.m.types.size(t) * 8
            if t == "i1":
                bits = 1
            v = arg(f.name, i, bits)
            if any(a.startswith("byval") or a.startswith("sret") or a == "nonnull" for a in attrs):
                st.neq[v] = frozenset((0,))
            st.env[n] = v
        return st

    def summary(self, name):
        s = self.summ.get(name)
        if s is not None:
            return s
        if name in self.busy:
            return None
        self.busy.add(name)
        f = self.m.funcs[name]
        octx, self.ctx = self.ctx, ()
        self.fnstack.append(name)
        ostack = self.fnstack
        self.fnstack = [name]
        try:
            self.stats["functions"] += 1
            st = self.entry_state(f)
            self.on_entry(st, f)
            outs = self.run_body(f, [st])
            s = self.make_summary(f, outs)
        finally:
            self.busy.discard(name)
            self.ctx = octx
            self.fnstack = ostack
            self.fnstack.pop()
        self.summ[name] = s
        return s

    def on_entry(self, st, f):
        pass

    def on_return(self, st, f, ret, I):
        pass

    def run_body(self, f, states):
        """-> [(state, retval)]"""
        cfg = self.cfg(f)
        entry = f.order[0]
        pending = {entry: {}}
        for s in states:
            pending[entry][s.key()] = s
        outs = []
        while pending:
            b = min(pending, key=lambda x: cfg.rpo[x])
            group = list(pending.pop(b).values())
            group = self.reduce(group)
            self.stats["blocks"] += 1
            self.stats["states"] += len(group)
            for st in group:
                for st2, nxt in self.exec_block(f, cfg, b, st, outs):
                    if nxt is None:
                        continue
                    for st2 in self.flagged(f, cfg, b, nxt, st2):
                        st3 = self.edge(f, cfg, b, nxt, st2)
                        if st3 is not None:
                            pending.setdefault(nxt, {}).setdefault(st3.key(), st3)
        return outs

    def reduce(self, group):
        if len(group) == 1:
            return group
        group = canon(group)
        if len(group) <= max(KEEP, ESC[0]):
            return group
        by = {}
        for s in group:
            by.setdefault(s.weakkey(), []).append(s)
        out = []
        for k, ss in by.items():
            if len(ss) > 1:
                ss = subsume(ss)
            if len(ss) <= max(KEEP, ESC[0]):
                out += ss
            else:
                out += [join_constraints(x) if len(x) > 1 else x[0] for x in bynull(ss)]
        if len(out) > CAP:
            # drop constraints altogether, then give up on the rest
            by = {}
            for s in out:
                by.setdefault(s.weakkey(), []).append(s)
            out = [join_constraints(ss) for ss in by.values()]
        if len(out) > max(STATEMAX, ESC[2]):
            by = {}
            for s in out:
                by.setdefault((frozenset(s.env.items()), s.facts, s.visits, freedset(s), modes(s)), []).append(s)
            out = []
            for ss in by.values():
                if len(ss) > 2:
                    self.stats["joined"] = self.stats.get("joined", 0) + len(ss) - 1
                    j = shape_join(ss)
                    prune(j, list(j.env.values()))
                    out.append(j)
                else:
                    out += ss
            if len(out) > CAP:
                by = {}
                for s in out:
                    by.setdefault((frozenset(s.env.items()), s.facts, s.visits, freedset(s)), []).append(s)
                out = []
                for ss in by.values():
                    if len(ss) > 1:
                        j = shape_join(ss)
                        prune(j, list(j.env.values()))
                        out.append(j)
                    else:
                        out += ss
            if len(out) > CAP:
                self.stats["capped"] += len(out) - CAP
                out = out[:CAP]
        return out

    def fold(self, st, counters):
        """a loop is left in the round that stands for all later ones: what this round stored in
        a table at the index it counts is treated like what the rounds before it stored"""
        drop = {}
        for b, o in st.mem.items():
            for co, (cs, cv) in o.cells.items():
                if isinstance(co, V) and co.k == "op" and co.a[0] == "mul" and isinstance(co.a[2], V) and co.a[2].k == "hv" and \
                        co.a[2].a[0] in counters and cs == 8 and isinstance(cv, V) and base_off(cv)[0].k == "new":
                    drop.setdefault(b, []).append(co)
        if not drop:
            return
        gone = set()
        for b, cs in drop.items():
            cells = dict(st.mem[b].cells)
            for co in cs:
                gone.add(base_off(cells.pop(co)[1])[0])
            st.mem[b] = st.mem[b].w(cells=cells)
        ref = lambda vs: {l for v in vs if isinstance(v, V) for l in leafset_deep(st.norm(v)) if l.k == "new"}
        todo = list(gone)
        while todo:
            o = st.mem.get(todo.pop())
            for x in ref(cv for _, cv in o.cells.values()) if o is not None else ():
                if x not in gone:
                    gone.add(x)
                    todo.append(x)
        todo = list(ref(st.env.values())) + [x for b, o in st.mem.items() if b not in gone for x in ref(cv for _, cv in o.cells.values())]
        while todo:
            x = todo.pop()
            if x in gone:
                gone.discard(x)
                if x in st.mem:
                    todo += ref(cv for _, cv in st.mem[x].cells.values())
        for x in gone:
            st.mem.pop(x, None)

    def cases(self, st, c, truth, d=0):
        """the states in which a condition has this value: one per way for it to have it"""
        c = st.simp(c)
        while isinstance(c, V) and c.k == "op" and c.a[0] == "not":
            c, truth = st.simp(c.a[2]), not truth
        if isinstance(c, V) and c.k == "op" and c.a[0] == ("or" if truth else "and") and c.a[1] == 1 and d < 4:
            s2 = st.copy()
            out = self.cases(st, c.a[2], truth, d + 1)
            for s in self.cases(s2, c.a[2], not truth, d + 1):
                out += self.cases(s, c.a[3], truth, d + 1)
            return out
        x = next((a for a in c.a[2:] if isinstance(a, V)), None) if isinstance(c, V) and c.k == "op" and c.a[0] in ("ult", "slt") and \
            any(isinstance(a, int) for a in c.a[2:]) else None
        few = x is not None and x.k in ("L", "arg", "ret") and self.span(st, x) > 4
        try:
            st.assume(c, truth)
            few = few and self.span(st, x) <= 4
        except Infeasible:
            return []
        if few and x not in st.eq:
            # a range of a few numbers is these numbers, as a switch over them would have it
            out = []
            lo, hi = st.lo_hi(x)
            for n in range(lo, hi + 1):
                s = st.copy()
                try:
                    s.assume(mkop("eq", x.bits, x, n), True)
                except Infeasible:
                    continue
                out.append(s)
            return out
        return [st]

    def span(self, st, x):
        lo, hi = st.lo_hi(x)
        return hi - lo + 1

    def flags(self, f, cfg, h):
        """the flags of a loop: phi nodes at its head that hold nothing but truth values"""
        c = cfg.__dict__.setdefault("flags", {})
        if h not in c:
            defs = {I.res: I for b in f.order for I in f.blocks[b] if I.res is not None}

            def boolean(v, seen):
                if v[0] in "cu":
                    return v[0] == "u" or v[1] in (0, 1)
                I = defs.get(v[1]) if v[0] == "l" else None
                if I is None or v in seen:
                    return I is not None
                if I.op == "phi" and I.ty in ("i1", "i8"):
                    return all(boolean(x, seen | {v}) for x, _ in I.a)
                return I.op == "icmp" or I.op in ("zext", "trunc") and (I.c == "i1" or boolean(I.a, seen | {v}))
            c[h] = {I.res for I in f.blocks[h] if I.op == "phi" and I.ty in ("i1", "i8") and boolean(("l", I.res), frozenset())}
        return c[h]

    def flagged(self, f, cfg, src, dst, st):
        """on the way to the head of a loop every flag of the loop is true or false"""
        if dst not in cfg.headers or not self.flags(f, cfg, dst):
            return [st]
        out = [st]
        for I in f.blocks[dst]:
            if I.op == "phi" and I.res in self.flags(f, cfg, dst):
                x = next(v for v, l in I.a if l == src)
                nxt = []
                for s in out:
                    v = self.val(s, x, I.ty)
                    if isinstance(v, int):
                        nxt.append(s)
                        continue
                    for truth in (True, False):
                        nxt += [(t, v, truth) for t in self.cases(s.copy(), v, truth)]
                    nxt = [t if not isinstance(t, tuple) else self.flag_is(*t) for t in nxt]
                out = nxt
        return out

    def flag_is(self, st, v, truth):
        if st.norm(v) not in (0, 1):
            st.eq[st.norm(v)] = int(truth)
        return st

    def edge(self, f, cfg, src, dst, st):
        """phi nodes, loop bookkeeping, liveness and garbage collection"""
        isback = (src, dst) in cfg.back
        vis = dict(st.visits)
        if dst in cfg.headers:
            hk = (f.name, dst)
            if isback:
                vis[hk] = vis.get(hk, 0) + 1
            else:
                vis[hk] = 0
        for h in cfg.headers:
            if dst not in cfg.loops[h] and (f.name, h) in vis:
                if vis[(f.name, h)] >= self.widening(f):
                    self.fold(st, {I.idx for I in f.blocks[h] if I.op == "phi"})
                del vis[(f.name, h)]
        news = []
        for I in f.blocks[dst]:
            if I.op != "phi":
                break
            for v, l in I.a:
                if l == src:
                    news.append((I, self.val(st, v, I.ty)))
                    break
        if isback:
            n = vis[(f.name, dst)]
            concrete = dst in cfg.constloops and news and any(isinstance(v, int) for _, v in news) and \
                all(isinstance(v, int) or I.ty == "ptr" for I, v in news)
            flags = self.flags(f, cfg, dst)
            lim = CONCRETE_MAX if concrete else self.widening(f)
            if n > lim + (2 if flags and not concrete else 0):
                return None
            if n >= lim:
                nn = []
                for I, v in news:
                    if I.res in flags and isinstance(v, int) or isinstance(v, V) and v.k == "ret" and I.ty != "ptr":
                        nn.append((I, v))       # a flag; what a call of this round returned is any number that this path allows
                    elif st.env.get(I.res) is not v:
                        h = mk("hv", I.idx, self.ctx, tuple(x for x in vis if x != (f.name, dst)))
                        h.bits = 64 if I.ty == "ptr" else int(I.ty[1:])
                        self.forget(st, h)
                        if I.ty == "ptr":
                            nn.append((I, v))
                        else:
                            nn.append((I, h))
                    else:
                        nn.append((I, v))
                news = nn
        st.visits = tuple(sorted(vis.items()))
        for I, v in news:
            st.env[I.res] = v
        live = cfg.live[dst]
        for k in list(st.env):
            if k not in live and k[0] != "^":
                del st.env[k]
        try:
            self.gc(st, f.blocks[src][-1], False)
        except Dead:
            return None
        return st

    def gc(self, st, I, final, extra=()):
        """drop what is unreachable; an owned heap object that is, is leaked"""
        self.on_settle(st, extra)
        seen = set()
        work = []

        def push(v):
            if isinstance(v, V):
                for l in leafset_deep(v):
                    if l not in seen:
                        seen.add(l)
                        work.append(l)
        for v in st.env.values():
            push(v)
        for v in extra:
            push(v)
        lazy = []
        for b, o in st.mem.items():
            if b.k not in ("new",) or o.status == "pinned":
                if b.k == "alc" and final and b.a[2] == self.ctx:
                    continue
                if o.status != "pinned" and b.k in ("L", "hv", "ret") and not is_param_rooted(b) and \
                        (b.k != "L" or root_of(b).k != "glob") and not any(isinstance(v, V) for _, v in o.cells.values()):
                    lazy.append(b)      # matters only while something it hangs from is in reach
                    continue
                push(b)
        while True:
            while work:
                b = work.pop()
                o = st.mem.get(b)
                if o is not None:
                    if self.SIZES:
                        push(o.size)
                    for off, (s, v) in o.cells.items():
                        push(v)
                        push(off)
                    for blk in o.blocks:
                        if blk[2] != "Z":
                            push(blk[3])
            more = [b for b in lazy if b in seen or inreach(b, seen, st)]
            if not more:
                break
            lazy = [b for b in lazy if b not in more]
            for b in more:
                seen.discard(b)
                push(b)
        drop = [b for b in st.mem if b not in seen]
        for b in drop:
            o = st.mem[b]
            if b.k == "new" and o.status == "heap":
                self.leak(st, b, o, I)
            if b.k == "alc":
                self.dead_local(st, b, o, I)
        for b in drop:
            st.mem.pop(b, None)

        factleaves = set()
        for fct in st.facts:
            for x in fct:
                if isinstance(x, V):
                    factleaves |= leafset_deep(x)

        def keep(v):
            for l in leafset(v):
                r = root_of(l)
                if isinstance(r, V) and r.k in ("arg", "glob"):
                    continue
                if l in seen or r in seen or l in factleaves or r in factleaves:
                    continue
                return False
            return True
        for d in (st.eq, st.neq, st.rng):
            for k in [k for k in d if not keep(k)]:
                del d[k]

    def leak(self, st, b, o, I):
        if o.kind == "noleak":
            return
        w = self.siteloc.get(b.a[0], o.where)
        self.report("leak", I, "%s obtained at %s is lost" % (o.kind or "object", w), "leak:%s:%s" % (o.kind or "object", w), st)

    def dead_local(self, st, b, o, I):
        pass

    # ---- blocks
    def exec_block(self, f, cfg, b, st, outs):
        """-> [(state, next block)]"""
        cur = [st]
        ins = f.blocks[b]
        for pos, I in enumerate(ins):
            op = I.op
            if op == "phi":
                continue
            nxt = []
            if op in ("br", "switch", "ret", "unreachable"):
                res = []
                for s in cur:
                    try:
                        res += self.term(f, I, s, outs)
                    except (Dead, Infeasible):
                        pass
                return res
            if op == "call" or op == "select":
                for s in cur:
                    try:
                        nxt += self.multi(f, I, s)
                    except (Dead, Infeasible):
                        pass
                if len(nxt) > 1:
                    d = {}
                    for s in nxt:
                        d.setdefault(s.key(), s)
                    nxt = list(d.values())
                    if len(nxt) > 60:
                        nxt = self.reduce(nxt)
            else:
                for s in cur:
                    try:
                        self.step(f, I, s)
                        nxt.append(s)
                    except (Dead, Infeasible):
                        pass
            cur = nxt
            if not cur:
                return []
        return []

    def term(self, f, I, st, outs):
        if I.op == "br":
            if I.a is None:
                return [(st, I.b[0])]
            c = st.simp(self.val(st, I.a, "i1"))
            if isinstance(c, int):
                return [(st, I.b[0] if c & 1 else I.b[1])]
            r = []
            s2 = st.copy()
            for s, truth, to in ((st, True, I.b[0]), (s2, False, I.b[1])):
                for s3 in self.cases(s, c, truth):
                    r.append((s3, to))
            return r
        if I.op == "switch":
            v = st.norm(self.val(st, I.a, I.ty))
            bits = int(I.ty[1:])
            M = (1 << bits) - 1
            if isinstance(v, int):
                for n, l in I.b:
                    if (n & M) == (v & M):
                        return [(st, l)]
                return [(st, I.c)]
            r = []
            d = st.copy()
            dok = True
            for n, l in I.b:
                s2 = st.copy()
                c = mkop("eq", bits, v, n & M)
                try:
                    s2.assume(c, True)
                    r.append((s2, l))
                except Infeasible:
                    pass
                if dok:
                    try:
                        d.assume(c, False)
                    except Infeasible:
                        dok = False
            if dok:
                r.append((d, I.c))
            return r
        if I.op == "ret":
            rv = self.val(st, I.a, I.ty) if I.a is not None else None
            self.stats["returns"] += 1
            self.on_return(st, f, rv, I)
            # the frame's locals die
            for k in list(st.env):
                if k[0] != "^":
                    del st.env[k]
            self.gc(st, I, True, (rv,) if isinstance(rv, V) else ())
            outs.append((st, rv))
            return []
        return []

    def multi(self, f, I, st):
        if I.op == "select":
            c = st.simp(self.val(st, I.a, "i1"))
            a = self.val(st, I.b, I.ty)
            b = self.val(st, I.c, I.ty)
            if isinstance(c, int):
                st.env[I.res] = a if c & 1 else b
                return [st]
            out = []
            s2 = st.copy()
            for s, t, v in ((st, True, a), (s2, False, b)):
                try:
                    s.assume(c, t)
                    s.env[I.res] = v
                    out.append(s)
                except Infeasible:
                    pass
            return out
        # call
        args = [self.val(st, a, t) for a, t in zip(I.b, I.c)]
        res = self.call(f, I, st, args)
        out = []
        for s, r in res:
            if I.res is not None:
                if r is None:
                    r = self.fresh_ret(s, I, "void")
                s.env[I.res] = r
            out.append(s)
        return out

    def step(self, f, I, st):
        op = I.op
        T = self.m.types
        if op == "load":
            p = self.val(st, I.a, "ptr")
            b, off = base_off(p)
            nb = self.access(st, b, I, show(p))
            if nb is not b:
                b, o2 = base_off(nb)
                off = mkop("add", 64, o2, off) if o2 else off
            size = T.size(I.ty)
            v = self.read(st, b, off, size, I.field, I.x)
            if isinstance(v, V) and I.field and v.field is None and v.k == "L":
                v.field = I.field
            self.on_load(st, I, b, off, size, v)
            st.env[I.res] = v
        elif op == "store":
            p = self.val(st, I.b, "ptr")
            b, off = base_off(p)
            nb = self.access(st, b, I, show(p))
            if nb is not b:
                b, o2 = base_off(nb)
                off = mkop("add", 64, o2, off) if o2 else off
            v = self.val(st, I.a, I.ty)
            self.on_store(st, I, b, off, T.size(I.ty), v)
            self.write(st, b, off, T.size(I.ty), v)
        elif op == "getelementptr":
            base = self.val(st, I.a, "ptr")
            st.env[I.res] = self.gep(st, I.ty, base, I.b)
        elif op == "icmp":
            a, b = self.val(st, I.a, I.ty), self.val(st, I.b, I.ty)
            bits = 64 if I.ty == "ptr" else int(I.ty[1:])
            st.env[I.res] = st.simp(mkop(I.c, bits, a, b))
        elif op in ("zext", "sext", "trunc"):
            v = self.val(st, I.a, I.c)
            st.env[I.res] = mkop(op, int(I.ty[1:]), v, int(I.c[1:]))
        elif op in ("bitcast", "ptrtoint", "inttoptr", "freeze"):
            st.env[I.res] = self.val(st, I.a, I.c if op != "freeze" else I.ty)
        elif op == "alloca":
            v = mk("alc", f.name, I.idx, self.ctx)
            st.mem[v] = Obj("alloca", "undef", EMPTY, (), None, T.size(I.ty) if I.a is None else None, None, self.locs(I))
            st.env[I.res] = v
        elif op == "extractvalue":
            v = self.val(st, I.a, I.ty)
            st.env[I.res] = self.extractv(st, I, v)
        elif op == "insertvalue":
            raise AnalysisError("insertvalue unsupported at %s" % self.locs(I))
        elif op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            a, b = self.val(st, I.a, I.ty), self.val(st, I.b, I.ty)
            r = mkop(op, int(I.ty[1:]), a, b)
            st.env[I.res] = st.simp(r) if isinstance(r, V) and r.bits == 1 else r
        else:
            st.env[I.res] = self.fresh_ret(st, I, op)

    def extractv(self, st, I, v):
        offs = self.m.types.layout(I.ty)[0]
        fs = self.m.types.fields(I.ty)
        i = I.b[0]
        if isinstance(v, int):
            return v
        sz = self.m.types.size(fs[i])
        return ext(v, offs[i], sz, self.m.types.size(I.ty))

    def on_load(self, st, I, b, off, size, v):
        pass

    def on_store(self, st, I, b, off, size, v):
        pass

    # ---- calls
    def call(self, f, I, st, args):
        self.stats["calls"] += 1
        callee = I.a
        if callee[0] == "g":
            outs = self.call_named(f, I, st, callee[1], args)
            for s, r in outs:
                self.on_result(s, I, callee[1], args, r)
            return outs
        v = self.val(st, callee, "ptr")
        outs = self.call_value(f, I, st, v, args)
        name = "slot:" + v.field[1] if v.k == "L" and v.field and v.field[0].endswith("wickr_crypto_engine") else \
            v.a[0] if v.k == "glob" else "callback"
        for s, r in outs:
            self.on_result(s, I, name, args, r)
        return outs

    def on_result(self, st, I, name, args, r):
        pass

    def on_settle(self, st, rv):
        pass

    def call_value(self, f, I, st, v, args):
        if isinstance(v, int):
            self.report("null-deref", I, "call through a null function pointer", "nullcall", st)
            raise Dead
        if v.k == "glob":
            return self.call_named(f, I, st, v.a[0], args)
        if v.k == "L" and v.field and v.field[0].endswith("wickr_crypto_engine"):
            slot = v.field[1]
            self.stats["slot_calls"] += 1
            mdl = self.models.slots.get(slot)
            if mdl is None:
                raise AnalysisError("engine slot %r has no contract (%s)" % (slot, self.locs(I)))
            return mdl(self, st, I, args, slot)
        return self.models.callback(self, st, I, v, args)

    def call_named(self, f, I, st, name, args):
        mdl = self.models.named.get(name)
        if mdl is not None:
            return mdl(self, st, I, args, name)
        if name in self.m.funcs and not self.models.generated(name):
            return self.call_defined(I, st, name, args)
        return self.models.external(self, st, I, name, args)

    def call_defined(self, I, st, name, args):
        if self.must_inline(name, args):
            return self.inline(I, st, name, args)
        s = self.summary(name)
        if s is None:
            return self.models.external(self, st, I, name, args)
        return self.apply(I, st, name, s, args)

    def must_inline(self, name, args):
        if len(self.ctx) >= 4:
            return False
        if any(isinstance(a, V) and a.k == "glob" and (a.a[0] in self.m.funcs or a.a[0] in self.m.decls) for a in args):
            return True
        return False

    def inline(self, I, st, name, args):
        f = self.m.funcs[name]
        if name in self.fnstack:
            return self.models.external(self, st, I, name, args)
        self.stats["inlined"] += 1
        lvl = len(self.ctx)
        s = st.copy()
        saved_vis = s.visits
        pre = "^%d:" % lvl
        s.env = {(pre + k if k[0] != "^" else k): v for k, v in st.env.items()}
        for i, (t, n, attrs) in enumerate(f.params):
            s.env[n] = args[i] if i < len(args) else 0
        octx = self.ctx
        self.ctx = self.ctx + (I.idx,)
        self.fnstack.append(name)
        try:
            outs = self.run_body(f, [s])
        finally:
            self.ctx = octx
            self.fnstack.pop()
        res = []
        for so, rv in outs:
            so.env = {(k[len(pre):] if k.startswith(pre) else k): v for k, v in so.env.items() if k.startswith("^")}
            so.visits = saved_vis
            res.append((so, rv))
        return res

    # ---- summaries
    def make_summary(self, f, outs):
        groups = {}
        allo = []
        for st, rv in outs:
            o = Outcome()
            o.ret = st.norm(rv) if rv is not None else None
            mem = {}
            for b, ob in st.mem.items():
                if b.k == "alc":
                    continue
                mem[b] = ob
            o.mem = mem
            o.eq, o.neq, o.rng = st.eq, st.neq, st.rng
            o.facts = st.facts
            o.assumed = st.assumed
            o.touched = st.touched
            o.trace = st.trace
            o.visits = ()
            allo.append(o)
        if len(allo) > 1:
            allo = canon(allo, True)
        for o in allo:
            groups.setdefault((o.ret, frozenset(o.mem.items()), o.facts, frozenset(o.assumed)), []).append(o)
        res = []
        for k, os_ in groups.items():
            if len(os_) > 1:
                os_ = subsume(os_)
            if len(os_) <= max(KEEP, ESC[0]):
                res += os_
                continue
            for os_ in bynull(os_):
                o = os_[0]
                if len(os_) == 1:
                    res.append(o)
                    continue
                rng = _inter(known_rng(os_), "rng")
                for at in ("eq", "neq"):
                    setattr(o, at, _inter([getattr(x, at) for x in os_], at))
                o.rng = {k: v for k, v in rng.items() if k not in o.eq}
                t = frozenset()
                for x in os_:
                    t |= x.touched
                o.touched = t
                res.append(o)
        if len(res) > max(SUMMAX, ESC[1]):
            g = {}
            for o in res:
                g.setdefault((o.ret, o.facts, freedset(o), modes(o)), []).append(o)
            res = []
            for k, os_ in g.items():
                for os_ in bynull(os_) if len(os_) > 2 else [os_]:
                    if len(os_) > 2 or (len(os_) > 1 and len(g) > 2 * max(SUMMAX, ESC[1])):
                        self.stats["joined"] = self.stats.get("joined", 0) + len(os_) - 1
                        j = shape_join(os_)
                        prune(j, (j.ret,))
                        res.append(j)
                    else:
                        res += os_
        return res

    def apply(self, I, st, name, outs, args):
        f = self.m.funcs[name]
        res = []
        many = len(outs) > 1
        for o in outs:
            s = st.copy() if many else st
            pre = st.copy() if not many else st
            try:
                r = self.instantiate(I, s, pre, name, f, o, args)
                res.append((s, r))
            except (Infeasible, Dead):
                pass
        return res

    def instantiate(self, I, s, pre, name, f, o, args):
        memo = {}
        eng = self
        sg = self.sig(pre)

        def S(v):
            if not isinstance(v, V):
                return v
            r = memo.get(v)
            if r is not None:
                return r
            r = S1(v)
            memo[v] = r
            return r

        def S1(v):
            k = v.k
            if k == "arg":
                return args[v.a[1]] if v.a[0] == name and v.a[1] < len(args) else v
            if k == "glob":
                return v
            if k == "L":
                b = S(v.a[0])
                off = S(v.a[1])
                bb, o2 = base_off(b)
                if isinstance(bb, int):
                    if bb == 0 or bb < 4096:
                        raise NullPath(v.a[0])
                    raise Infeasible
                if o2 != 0:
                    off = mkop("add", 64, off, o2)
                if bb.k == "op":
                    return Lsym(bb, off, v.a[2], v.field)
                return eng.read(pre, bb, off, v.a[2], v.field)
            if k in ("new", "ret"):
                n = mk(k, I.idx, v, sg)
                n.bits = v.bits
                eng.siteloc[I.idx] = eng.locs(I)
                return n
            if k == "hv":
                n = mk("hv", I.idx, v, sg)
                n.bits = v.bits
                return n
            if k == "ptr":
                return mkptr(S(v.a[0]), S(v.a[1]))
            if k == "op":
                if v.a[0] == "not":
                    return mkop("not", 1, S(v.a[2]))
                if v.a[0] in ("trunc",):
                    return mkop(v.a[0], v.a[1], S(v.a[2]), 64)
                return mkop(v.a[0], v.a[1], S(v.a[2]), S(v.a[3]))
            if k == "cat":
                return mkcat([(a, b, S(c)) for a, b, c in v.a[0]], v.bits // 8)
            if k == "ext":
                return ext(S(v.a[0]), v.a[1], v.a[2], bits_of(v.a[0]) // 8)
            if k == "deep":
                ls = set()
                for x in v.a[2]:
                    y = S(x)
                    if isinstance(y, V):
                        ls |= leaves_of(y)
                n = mk("deep", v.a[0], v.a[1], frozenset(ls))
                n.bits = v.bits
                return n
            if k == "alc":
                return v
            if k == "C":
                raise AssertionError
            if k == "lab":
                return eng.map_label(v, S, SL)
            n = mk(k, *[S(x) if isinstance(x, V) else x for x in v.a])
            n.bits = v.bits
            return n

        def SL(lab):
            out = set()
            for l in lab:
                try:
                    if l.k == "C":
                        bb, _ = base_off(S(l.a[0]))
                        if isinstance(bb, V):
                            out |= eng.content(pre, bb)
                    elif l.k == "lab":
                        out.add(eng.map_label(l, S, SL))
                    else:
                        out.add(S(l))
                except NullPath:        # (of a path joined in, on which there is such a buffer)
                    pass
            return frozenset(out)

        # feasibility
        late_null = []
        for d, kind in ((o.eq, "eq"), (o.neq, "neq"), (o.rng, "rng")):
            for v, c in d.items():
                if kind == "neq" and c == frozenset((0,)) and v in o.assumed:
                    continue
                try:
                    x = S(v)
                except NullPath as e:
                    if e.base in o.assumed:
                        late_null.append(e.base)
                        continue
                    raise Infeasible
                x = s.norm(x)
                if kind == "eq":
                    if isinstance(x, int):
                        if x != c:
                            raise Infeasible
                    elif x.bits == 1 or (x.k == "op" and x.a[0] in BOOLOPS):
                        s.assume(x, bool(c))
                    else:
                        s.assume(mkop("eq", x.bits, x, c), True)
                elif kind == "neq":
                    for n in c:
                        if isinstance(x, int):
                            if x == n:
                                raise Infeasible
                        else:
                            s.assume(mkop("eq", x.bits, x, n), False)
                else:
                    if isinstance(x, int):
                        if not c[0] <= x <= c[1]:
                            raise Infeasible
                    else:
                        lo, hi = s.lo_hi(x)
                        s.setrng(x, max(lo, c[0]), min(hi, c[1]))
        for b, where in o.assumed.items():
            try:
                x = s.norm(S(b))
            except NullPath:
                continue
            bb, off = base_off(x)
            bb = s.norm(bb)
            if isinstance(bb, int):
                if bb == 0:
                    self.report("null-deref", I, "%s passes a null %s to %s, which dereferences it (%s)" %
                                (self.fnstack[-1], show(b), name, where[1]), "null:%s:%s" % (name, show(b)), s)
                raise Dead
            if bb.k != "op" and not bb._nz and 0 not in s.neq.get(bb, ()):
                s.addneq(bb, 0)
                if is_param_rooted(bb):
                    s.assumed.setdefault(bb, where)
                elif bb.k == "ret":
                    self.fallible_deref(s, bb, I)
        if late_null:
            raise Dead
        for b in o.touched:
            try:
                x = S(b)
            except NullPath:
                continue
            bb, off = base_off(s.norm(x))
            if isinstance(bb, V):
                ob = pre.mem.get(bb)
                if ob is not None and ob.status == "freed":
                    self.report("use-after-free", I, "%s passes the released %s to %s" % (self.fnstack[-1], self.describe(bb), name),
                                "uaf:%s:%s" % (name, self.describe(bb)), s)
                    raise Dead
                if is_param_rooted(bb) and bb not in s.touched:
                    s.touched = s.touched | {bb}
        # effects
        ops = []
        for b, ob in o.mem.items():
            vacuous = ob.status == "freed" or all(cv == 0 for _, cv in ob.cells.values())
            try:
                x = S(b)
            except NullPath:
                if vacuous:
                    continue
                raise Infeasible
            bb, off0 = base_off(s.norm(x))
            if not isinstance(bb, V):
                if vacuous:
                    continue
                raise Infeasible
            try:
                cells = [(S(co), cs, S(cv)) for co, (cs, cv) in ob.cells.items()]
                content = SL(ob.content) if ob.content is not None else None
                blocks = tuple((bo, bs, "Z") if t == "Z" else (bo, bs, t) + self._blk(S, rest) for bo, bs, t, *rest in ob.blocks)
                blocks = self._unfold(pre, blocks, cells)
                size = S(ob.size) if isinstance(ob.size, V) else ob.size
            except NullPath:
                raise Infeasible
            ops.append((bb, off0, b, ob, cells, content, blocks, size))
        try:
            ret = S(o.ret) if o.ret is not None else None
            facts = frozenset(tuple(self.map_fact(x, S, SL) for x in fct) for fct in o.facts)
        except NullPath:
            raise Infeasible
        for bb, off0, b, ob, cells, content, blocks, size in ops:
            if b.k == "new":
                cd = {}
                for co, cs, cv in cells:
                    if isinstance(cv, V) and cv.k == "cat" and isinstance(co, int):
                        for po, ps, pv in cv.a[0]:
                            cd[co + po] = (ps, pv)
                    else:
                        cd[co] = (cs, cv)
                s.mem[bb] = Obj(ob.status, ob.default, cd, blocks, content, size, ob.kind, ob.where)
                continue
            if ob.status == "freed":
                if ob.kind == "deep":
                    self.models.deep_release(self, s, bb, I, name)
                else:
                    self.release(s, bb, off0, I, name, ob, content)
                continue
            cur = self.getobj(s, bb)
            if cur.status == "freed":
                self.report("use-after-free", I, "%s writes the released %s" % (name, self.describe(bb)), "uaf:%s:%s" % (name, self.describe(bb)), s)
                raise Dead
            if blocks and off0 == 0:
                s.mem[bb] = cur.w(blocks=cur.blocks + blocks)
            for co, cs, cv in sorted(cells, key=lambda t: (isinstance(t[0], V), t[0] if isinstance(t[0], int) else 0)):
                at = mkop("add", 64, co, off0) if off0 != 0 else co
                if isinstance(cv, V) and cv.k == "hv" and cs == 8 and isinstance(at, int):
                    # may or may not have been replaced: what was there is no longer accounted for
                    old = s.mem[bb].cells.get(at) if bb in s.mem else None
                    if old is not None and isinstance(old[1], V):
                        ob2, _ = base_off(old[1])
                        if isinstance(ob2, V) and ob2.k == "new":
                            self.escape(s, ob2)
                self.write(s, bb, at, cs, cv)
            if content is not None:
                self.set_content(s, bb, content, replace=True)
        s.facts = self.merge_facts(s, s.facts, facts, I)
        return ret

    def merge_facts(self, st, old, new, I):
        """what holds after a call, of what held before it and what the called function contributes"""
        return old | new

    def _blk(self, S, rest):
        b = S(rest[0])
        bb, off = base_off(b)
        return (bb, rest[1] + off) if isinstance(off, int) else (bb, rest[1])

    def _unfold(self, pre, blocks, cells):
        """what a copied struct holds, where the caller knows it; adds to cells, the explicit ones of which win"""
        if not any(b[2] == "L" for b in blocks):
            return blocks
        out, got = [], {}
        for b in blocks:
            bo, bs = b[0], b[1]
            out.append(b)
            if not isinstance(bs, int) or not isinstance(bo, int):
                continue
            got = {o: c for o, c in got.items() if o + c[0] <= bo or o >= bo + bs}
            if b[2] != "L":
                continue
            src = pre.mem.get(b[3])
            so = b[4]
            if src is None or src.status == "freed":
                continue
            if src.default == "zero":
                out[-1] = (bo, bs, "Z")
            for x in src.blocks:
                if isinstance(x[1], int) and isinstance(x[0], int):
                    a0, a1 = max(x[0], so), min(x[0] + x[1], so + bs)
                    if a0 < a1:
                        out.append((bo + a0 - so, a1 - a0, "Z") if x[2] == "Z" else (bo + a0 - so, a1 - a0, "L", x[3], x[4] + a0 - x[0]))
            for co, (cs, cv) in src.cells.items():
                if isinstance(co, int) and so <= co and co + cs <= so + bs:
                    got[bo + co - so] = (cs, cv)
        for co, (cs, cv) in got.items():
            if not any(isinstance(o, int) and o < co + cs and co < o + s2 for o, s2, _ in cells):
                cells.append((co, cs, cv))
        return tuple(out)

    def map_fact(self, x, S, SL):
        if isinstance(x, V):
            return S(x)
        if isinstance(x, frozenset):
            return SL(x)
        return x

    def map_label(self, l, S, SL):
        return mk("lab", *[SL(x) if isinstance(x, frozenset) else S(x) if isinstance(x, V) else x for x in l.a])

    # ---- release
    def release(self, st, base, off, I, how, calleeobj=None, content=None):
        self.stats["frees"] += 1
        b = st.norm(base)
        if isinstance(b, int):
            return
        o = self.getobj(st, b)
        if b.k in ("glob",):
            self.report("bad-free", I, "release of static storage %s" % show(b), "free:%s" % show(b), st)
            raise Dead
        if o.status == "freed":
            self.report("double-free", I, "%s is released twice (first at %s)" % (self.describe(b), o.where), "dfree:%s" % self.describe(b), st)
            raise Dead
        if b.k == "alc":
            self.report("bad-free", I, "release of a local variable", "free:local", st)
            raise Dead
        if content is None:
            content = self.content(st, b)
        self.on_release(st, b, o, I, calleeobj, content)
        st.mem[b] = Obj("freed", o.default, EMPTY, (), None if b.k == "new" else content, o.size, o.kind, self.locs(I))

    def on_release(self, st, b, o, I, calleeobj, content):
        pass


def null_implied(d, b):
    while isinstance(b, V):
        if d.get(b) == 0:
            return True
        if b.k not in ("L", "ptr"):
            return False
        b = b.a[0]
    return False


def canon(group, outcome=False):
    """A pointer that is null where another path releases it, or clears it: releasing it would have
    been vacuous, so the paths are given the same heap and joined."""
    freed, zero = {}, {}
    for s in group:
        for b, o in s.mem.items():
            if o.status == "freed":
                if b.k != "new" and b not in freed:
                    freed[b] = o
            elif b.k in ("arg", "L"):
                for off, (sz, v) in o.cells.items():
                    if v == 0 and sz == 8 and isinstance(off, int):
                        zero.setdefault((b, off), o)
    if not freed and not zero:
        return group
    by = {}
    if outcome:
        for s in group:
            by.setdefault((s.ret, s.facts), []).append(s)
    else:
        for s in group:
            by.setdefault((frozenset(s.env.items()), s.facts, s.visits), []).append(s)
    res = []
    for ss in by.values():
        if len(ss) == 1:
            res += ss
            continue
        F, Z, A = {}, {}, {}
        for s in ss:
            for b, w in s.assumed.items():
                A.setdefault(b, w)
            for b, o in s.mem.items():
                if o.status == "freed":
                    if b.k != "new":
                        F.setdefault(b, o)
                elif b.k in ("arg", "L"):
                    for off, (sz, v) in o.cells.items():
                        if v == 0 and sz == 8 and isinstance(off, int):
                            Z.setdefault((b, off), o)
        changed = False
        for s in ss:
            mem = None
            for b, o in F.items():
                cur = s.mem.get(b)
                if (cur is None or (cur.status == "init" and not cur.cells)) and null_implied(s.eq, b):
                    if mem is None:
                        mem = dict(s.mem)
                    mem[b] = o
            for (b, off), o in Z.items():
                cur = s.mem.get(b)
                if cur is not None and (cur.status != "init" or off in cur.cells or cur.blocks):
                    continue
                if s.eq.get(mk("L", b, off, 8)) == 0 or null_implied(s.eq, b):
                    if mem is None:
                        mem = dict(s.mem)
                    c = mem.get(b, INIT)
                    cells = dict(c.cells)
                    cells[off] = (8, 0)
                    mem[b] = c.w(cells=cells)
            if mem is not None:
                s.mem = mem
                changed = True
            for b, w in A.items():
                if b not in s.assumed and b.k == "L" and null_implied(s.eq, b.a[0]):
                    s.assumed = dict(s.assumed)
                    s.assumed[b] = w
                    changed = True
        if not changed:
            res += ss
            continue
        g2 = {}
        for s in ss:
            g2.setdefault((frozenset(s.mem.items()), frozenset(s.assumed)), []).append(s)
        for k, tt in g2.items():
            if len(tt) == 1:
                res += tt
                continue
            fr = [b for b, o in tt[0].mem.items() if o.status == "freed" and b.k != "new"]
            # what was known about the released pointers no longer tells the paths apart
            for at in ("eq", "neq", "rng"):
                ds = [getattr(s, at) for s in tt]
                for s, d in zip(tt, ds):
                    n = {v: c for v, c in d.items() if all(x.get(v) == c for x in ds) or not any(under(v, b) for b in fr)}
                    if len(n) != len(d):
                        setattr(s, at, n)
            res += subsume(tt)
    return res


def under(v, b):
    """v is b or mentions memory reached through b"""
    if v is b:
        return True
    for l in leafset(v):
        x = l
        while isinstance(x, V):
            if x is b:
                return True
            if x.k not in ("L", "ptr"):
                break
            x = x.a[0]
    return False


def shape_join(ss):
    """One state (or outcome) for several that agree on the frame, the facts and on what is released:
    heap cells that agree are kept, others become unknown, and what such a cell owned is from then on
    tracked only through the cell that owns it."""
    o = ss[0]
    bases = set()
    for s in ss:
        bases |= set(s.mem)
    mem = {}
    work = []
    for b in bases:
        obs = [s.mem.get(b) for s in ss]
        if any(x is not None and x.status == "freed" for x in obs):
            f = [x for x in obs if x is not None]
            c = None
            for x in f:
                if x.content is not None:
                    c = (c or NOC) | x.content
            fr = next(x for x in f if x.status == "freed")
            if b.k == "new" and any(x.status == "heap" for x in f):
                # released on some of the paths only: neither owned nor dangling from here on
                mem[b] = Obj("pinned", "L", EMPTY, (), c, fr.size, fr.kind, fr.where)
            else:
                mem[b] = fr.w(content=c)
            continue
        if any(x is None for x in obs):
            if b.k == "new":
                continue        # owned by a cell on which the states differ
            obs = [x if x is not None else (INIT if b.k != "alc" else None) for x in obs]
            if any(x is None for x in obs):
                continue
        work.append((b, obs))
    unified = {}
    dropped = set()
    while work:
        b, obs = work.pop()
        f = obs[0]
        if all(x == f for x in obs):
            mem[b] = f
            continue
        cells = {}
        lazy = False
        offs = set()
        for x in obs:
            offs |= set(x.cells)
        for off in offs:
            cs = [x.cells.get(off) for x in obs]
            if all(c == cs[0] for c in cs):
                cells[off] = cs[0]
                continue
            if all(c is not None and c[0] == 8 and isinstance(c[1], V) and c[1].k == "new" for c in cs):
                # each path built its own object here: one object stands for all of them
                vs = tuple(c[1] for c in cs)
                os2 = [s.mem.get(v) for s, v in zip(ss, vs)]
                if all(x is not None and x.status == "heap" for x in os2):
                    J = unified.get(vs)
                    if J is None:
                        n = 0
                        J = mk("new", "join", b, off)
                        while J in mem or any(J in s.mem for s in ss):
                            n += 1
                            J = mk("new", "join", b, off, n)
                        unified[vs] = J
                        J.bits = 64
                        work.append((J, os2))
                    cells[off] = (8, J)
                    continue
            for c in cs:
                if c is not None and isinstance(c[1], V):
                    x = base_off(c[1])[0]
                    if isinstance(x, V) and x.k == "new":
                        dropped.add(x)
            if b.k != "new" or f.status == "pinned":
                sizes = {c[0] for c in cs if c is not None}
                if len(sizes) == 1 and isinstance(off, int):
                    h = mk("hv", "join", b, off)
                    h.bits = 8 * next(iter(sizes))
                    cells[off] = (next(iter(sizes)), h)
            else:
                lazy = True
                if GRAFT and isinstance(off, int):
                    graft(mem, ss, Lsym(b, off, 8), [c[1] for c in cs if c is not None and c[0] == 8], [s for s, c in zip(ss, cs) if c is not None and c[0] == 8])
        content = None
        for x in obs:
            xc = x.content
            if xc is None and x.status == "init":
                xc = frozenset((mk("C", b),))
            if xc is not None:
                content = (content or NOC) | xc
        if all(x.content is None for x in obs):
            content = None
        blocks = f.blocks if not lazy and all(x.blocks == f.blocks for x in obs) else ()
        d = f.default
        if lazy or any(x.default != d for x in obs) or (f.blocks and not blocks):
            d = "L"
        size = f.size if all(x.size == f.size for x in obs) else None
        mem[b] = Obj(f.status, d, cells, blocks, content, size, f.kind, f.where)
    # what a cell owned that is no longer tracked is not lost when another name for it dies
    for vs, J in unified.items():
        if J in mem and mem[J].status == "heap" and any(v in dropped for v in vs):
            mem[J] = mem[J].w(status="pinned")
    for x in dropped:
        if x in mem and mem[x].status == "heap":
            mem[x] = mem[x].w(status="pinned")
    j = join_constraints(ss) if isinstance(o, State) else o
    if not isinstance(o, State):
        rng = _inter(known_rng(ss), "rng")
        j.eq = _inter([x.eq for x in ss], "eq")
        j.rng = {k: v for k, v in rng.items() if k not in j.eq}
        j.neq = {k: v for k, v in _inter(known_neq(ss), "neq").items() if k not in j.eq}
        t = frozenset()
        for x in ss:
            t |= x.touched
        j.touched = t
    a = dict(ss[0].assumed)
    for s in ss[1:]:
        for k in list(a):
            if k not in s.assumed:
                del a[k]
    j.assumed = a
    # drop heap objects nothing refers to any more
    j.mem = mem
    return j


GRAFT = False


def graft(mem, ss, L, vs, of, d=0):
    """an object that only some of the paths have, under its name from here on: what its bytes are stays known"""
    c = NOC
    inner = {}
    for v, s in zip(vs, of):
        x = base_off(v)[0] if isinstance(v, V) else None
        o = s.mem.get(x) if isinstance(x, V) else None
        if o is None:
            if isinstance(x, V) and x.k in ("L", "arg"):
                c = c | frozenset((mk("C", x),))
            continue
        if o.content is not None:
            c = c | o.content
        elif o.status == "init":
            c = c | frozenset((mk("C", x),))
        for off, (sz, y) in o.cells.items():
            if sz == 8 and isinstance(off, int) and isinstance(y, V):
                inner.setdefault(off, []).append((y, s))
    if c:
        cur = mem.get(L, INIT)
        mem[L] = cur.w(content=(cur.content or NOC) | c)
    if d < 4:
        for off, ys in inner.items():
            graft(mem, ss, Lsym(L, off, 8), [y for y, s in ys], [s for y, s in ys], d + 1)


def prune(j, roots):
    seen = set()
    work = []

    def push(v):
        if isinstance(v, V):
            for l in leafset_deep(v):
                if l not in seen:
                    seen.add(l)
                    work.append(l)
    for v in roots:
        push(v)
    for b in j.mem:
        if b.k == "L" and GRAFT and rootof(b).k == "new":
            continue
        if b.k != "new" or j.mem[b].status == "pinned":
            push(b)
    while work:
        b = work.pop()
        o = j.mem.get(b)
        if o is not None:
            for off, (s, v) in o.cells.items():
                push(v)
            for blk in o.blocks:
                if blk[2] != "Z":
                    push(blk[3])
    j.mem = {b: o for b, o in j.mem.items() if b in seen or b.k != "new" or o.status == "freed"}


def rootof(b):
    while isinstance(b, V) and b.k in ("L", "ptr"):
        b = b.a[0]
    return b


def freedset(s):
    return frozenset(b for b, o in s.mem.items() if o.status == "freed" and b.k != "new")


def bynull(ss):
    """apart by which pointer parameters are null"""
    by = {}
    for s in ss:
        k = frozenset([(v, 0) for v, c in s.eq.items() if v.k == "arg" and c == 0] +
                      [(v, 1) for v, c in s.neq.items() if v.k == "arg" and 0 in c])
        by.setdefault(k, []).append(s)
    return list(by.values()) if len(by) <= 4 else [ss]


def modes(s):
    """enumerations left in the caller's objects (a status field), and which local pointers are null:
    they tell the paths apart"""
    return frozenset((b, off, v if isinstance(v, int) else -1) for b, o in s.mem.items() if o.status in ("init", "alloca")
                     for off, (sz, v) in o.cells.items() if isinstance(off, int) and
                     (sz == 4 and isinstance(v, int) if o.status == "init" else sz == 8))


class NullPath(Exception):
    def __init__(self, base):
        self.base = base


_ldmemo = {}


def leafset_deep(v):
    """every symbol mentioned in v, the bases of loads included"""
    r = _ldmemo.get(v)
    if r is None:
        out = set()
        _ld(v, out)
        r = _ldmemo[v] = frozenset(out)
    return r


def _ld(v, out):
    if not isinstance(v, V) or v in out:
        return
    if v.k in ("arg", "new", "ret", "hv", "alc", "glob"):
        out.add(v)
        return
    if v.k == "L":
        out.add(v)
        _ld(v.a[0], out)
        _ld(v.a[1], out)
        return
    for x in v.a:
        if isinstance(x, V):
            _ld(x, out)
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                if isinstance(y, V):
                    _ld(y, out)
                elif isinstance(y, tuple):
                    for z in y:
                        _ld(z, out)


def _inter(ds, kind):
    r = dict(ds[0])
    for d in ds[1:]:
        for k in list(r):
            if k not in d:
                del r[k]
            elif d[k] != r[k]:
                if kind == "neq":
                    n = r[k] & d[k]
                    if n:
                        r[k] = n
                    else:
                        del r[k]
                elif kind == "rng":
                    r[k] = (min(r[k][0], d[k][0]), max(r[k][1], d[k][1]))
                else:
                    del r[k]
    return r


def known_neq(ss):
    """per state, what its values are known to differ from: an equality tells them apart from whatever another state excludes"""
    seen = {}
    for s in ss:
        for k, v in s.neq.items():
            seen[k] = seen.get(k, NOC) | v
    out = []
    for s in ss:
        d = dict(s.neq)
        for k, c in s.eq.items():
            if isinstance(c, int):
                n = seen.get(k, NOC) - {c}
                if c != 0:
                    n |= {0}
                if n:
                    d[k] = d.get(k, NOC) | n
        out.append(d)
    return out


def known_rng(ss):
    """per state, the range of its values: that of one equal to a constant is just it"""
    keys = set(ss[0].rng) | set(k for k, c in ss[0].eq.items() if isinstance(c, int))
    for s in ss[1:]:
        keys = {k for k in keys if k in s.rng or isinstance(s.eq.get(k), int)}
    return [{k: s.rng[k] if k in s.rng else (s.eq[k], s.eq[k]) for k in keys} for s in ss]


def join_constraints(ss):
    o = ss[0].copy()
    # x==c in one state and x!=d in another: keep what both imply
    o.eq = _inter([s.eq for s in ss], "eq")
    o.neq = {k: v for k, v in _inter(known_neq(ss), "neq").items() if k not in o.eq}
    o.rng = {k: v for k, v in _inter(known_rng(ss), "rng").items() if k not in o.eq}
    t = frozenset()
    for s in ss:
        t |= s.touched
    o.touched = t
    return o


def weaker(a, b):
    """every constraint of a is implied by b"""
    for k, v in a.eq.items():
        if b.eq.get(k) != v:
            return False
    for k, v in a.neq.items():
        bv = b.eq.get(k)
        if bv is not None:
            if bv in v:
                return False
        elif not v <= b.neq.get(k, NOC):
            return False
    for k, (lo, hi) in a.rng.items():
        bv = b.eq.get(k)
        if bv is not None:
            if not lo <= bv <= hi:
                return False
        else:
            r = b.rng.get(k)
            if r is None or r[0] < lo or r[1] > hi:
                return False
    return True


def subsume(ss):
    ss = sorted(ss, key=lambda s: len(s.eq) + len(s.neq) + len(s.rng))
    out = []
    for s in ss:
        for o in out:
            if weaker(o, s):
                o.touched = o.touched | s.touched
                break
        else:
            out.append(s)
    # x == c on one path, x != c on the other, otherwise alike: exactly their union
    again = len(out) > 1 and len(out) < 200
    while again:
        again = False
        for i, a in enumerate(out):
            for j, b in enumerate(out):
                if i != j:
                    m = complement(a, b)
                    if m is not None:
                        m.touched = a.touched | b.touched
                        out = [x for k, x in enumerate(out) if k not in (i, j)]
                        for x in out:
                            if weaker(x, m):
                                x.touched = x.touched | m.touched
                                break
                        else:
                            out = [x for x in out if not weaker(m, x)] + [m]
                        again = True
                        break
            if again:
                break
    return out


def complement(a, b):
    """a has x == c where b has x != c (or the two truth values of a comparison)"""
    if abs(len(a.eq) - len(b.eq)) > 1 or abs(len(a.neq) - len(b.neq)) > 1:
        return None
    k = None
    for x, c in a.eq.items():
        if b.eq.get(x) != c:
            if k is not None:
                return None
            k = x
    if k is None:
        return None
    c = a.eq[k]
    if k in b.eq:
        if k.bits != 1 or b.neq != a.neq or b.rng != a.rng or len(a.eq) != len(b.eq):
            return None
        drop = ("eq",)
    else:
        if len(b.eq) != len(a.eq) - 1 or b.neq.get(k) != frozenset((c,)):
            return None
        if len(b.neq) != len(a.neq) + 1 or any(b.neq.get(x) != y for x, y in a.neq.items()):
            return None
        ra = {x: y for x, y in b.rng.items() if x is not k}
        if ra != a.rng or k in b.rng and (b.rng[k][0] > c + 1 or b.rng[k][1] < (1 << k.bits) - 1):
            return None
    a.eq = {x: y for x, y in a.eq.items() if x is not k}
    return a

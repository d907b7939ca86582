"""Contracts of what the library calls but does not define: libc, OpenSSL, protobuf-c,
and the slots of the pluggable crypto engine."""
import re
from ir import field_off
from engine import (V, mk, mkop, mkptr, base_off, Obj, Dead, Infeasible, NOC, EMPTY, is_param_rooted, leafset_deep,
                    nonnull, Lsym)
from ir import AnalysisError


def lab(*a):
    return mk("lab", *a)


class Models:
    def __init__(self):
        self.named = {}
        self.slots = {}
        for n in dir(self):
            if n.startswith("m_"):
                self.named[n[2:]] = getattr(self, n)
            elif n.startswith("s_"):
                self.slots[n[2:]] = getattr(self, n)
        for n in ALLOC_NULL:
            self.named[n] = self.ext_new
        for n in FREES:
            self.named[n] = self.ext_free
        for n in ("OPENSSL_cleanse", "explicit_bzero", "memset_s", "OPENSSL_clear_free"):
            pass
        self.named["llvm.memcpy.p0.p0.i64"] = self.named["llvm.memmove.p0.p0.i64"] = self.memcpy
        self.named["memcpy"] = self.named["memmove"] = self.memcpy
        self.named["llvm.memset.p0.i64"] = self.memset
        self.named["memset"] = self.memset

    # ------------------------------------------------------------ generic
    def generated(self, name):
        """a function protoc-c generated that has a contract here"""
        return re.match(r"wickr__proto__(.*)__(unpack|pack|free_unpacked|get_packed_size|pack_to_buffer)$", name)

    def external(self, e, st, I, name, args):
        m = self.generated(name)
        if m:
            return getattr(self, "p_" + m.group(2))(e, st, I, args, m.group(1))
        e.stats["opaque"][name] = e.stats["opaque"].get(name, 0) + 1
        e.before = {}
        spec = OUT.get(name)
        if name in DERIVE:
            s2 = st.copy()
            r = e.fresh_ret(s2, I, name, int(I.ty[1:]) if I.ty[0] == "i" else 64)
            bad = [(s2, r)]
            e.on_external(s2, I, name, args, r)
            try:
                s2.assume(mkop("eq", r.bits, r, DERIVE[name][1]), DERIVE[name][0] == "ne")
            except Infeasible:
                bad = []
            good = self._external(e, st, I, name, args, spec)
            try:
                for g, r in good:
                    g.assume(mkop("eq", r.bits, r, DERIVE[name][1]), DERIVE[name][0] != "ne")
            except Infeasible:
                good = []
            return good + bad
        return self._external(e, st, I, name, args, spec)

    def _external(self, e, st, I, name, args, spec):
        e.before = {}               # what an output held before the call
        r = e.fresh_ret(st, I, name, 64)
        if I.ty and I.ty[0] == "i":
            r.bits = int(I.ty[1:])
        if I.ty == "void":
            r = None
        if spec:
            for idx, kind in spec:
                if idx >= len(args):
                    continue
                p = st.norm(args[idx])
                if isinstance(p, int):
                    continue
                b, off = base_off(p)
                if kind[0] == "int":
                    e.before[idx] = st.norm(e.read(st, b, off, kind[1]))
                    v = e.fresh_ret(st, I, "%s.out%d" % (name, idx), kind[1] * 8)
                    e.write(st, b, off, kind[1], v)
                elif kind[0] == "bytes":
                    nb = e.access(st, b, I, "output of %s" % name)
                    src = NOC
                    if kind[2] is not None:
                        q = st.norm(args[kind[2]])
                        if isinstance(q, V):
                            src = e.content(st, base_off(q)[0])
                    e.set_content(st, nb, [lab(kind[1], src)])
                    o = e.getobj(st, nb)
                    if o.cells or o.blocks or o.default == "zero":      # what was there is overwritten
                        keep = {k: c for k, c in o.cells.items() if isinstance(off, int) and isinstance(k, int) and k + c[0] <= off}
                        st.mem[nb] = o.w(cells=keep, blocks=(), default="L")
                        if isinstance(off, int):
                            e.write(st, nb, off, 1, e.fresh_ret(st, I, "%s.byte%d" % (name, idx), 8))
                elif kind[0] == "pbytes":       # writes through *p
                    q = e.read(st, b, off, 8)
                    if isinstance(q, V):
                        e.set_content(st, base_off(q)[0], [lab(kind[1], NOC)])
                        e.write(st, b, off, 8, mkptr(q, e.fresh_ret(st, I, "adv")))
        e.on_external(st, I, name, args, r)
        return [(st, r)]

    def callback(self, e, st, I, v, args):
        for a in args:
            if isinstance(a, V):
                e.escape(st, base_off(a)[0])
        r = None
        if I.ty != "void":
            r = e.fresh_ret(st, I, "callback")
            if I.ty[0] == "i":
                r.bits = int(I.ty[1:])
        e.on_callback(st, I, v, args, r)
        return [(st, r)]

    def ext_new(self, e, st, I, args, name):
        kind = ALLOC_NULL[name]
        s2 = st.copy()
        o = e.fresh_new(st, I, name, default="undef", kind=kind)
        e.on_external(st, I, name, args, o)
        out = [(st, o)]
        if name not in NEVER_NULL:
            out.append((s2, 0))
        return out

    def ext_free(self, e, st, I, args, name):
        p = st.norm(args[0])
        if isinstance(p, int):
            return [(st, e.fresh_ret(st, I, name, 32) if I.ty != "void" else None)]
        b, off = base_off(p)
        self.deep_release(e, st, b, I, name)
        r = e.fresh_ret(st, I, name, 32) if I.ty != "void" else None
        if name == "fclose":
            e.on_external(st, I, name, args, r)
        return [(st, r)]

    def deep_release(self, e, st, b, I, name, seen=None):
        """release b and the owned objects it holds"""
        seen = seen if seen is not None else set()
        if b in seen:
            return
        seen.add(b)
        o = e.getobj(st, b)
        kids = []
        for off, (s, v) in o.cells.items():
            if isinstance(v, V):
                kids.append(base_off(v)[0])
        e.release(st, b, 0, I, name)
        nb = st.norm(b)
        if isinstance(nb, V) and nb in st.mem:
            st.mem[nb] = st.mem[nb].w(kind="deep")
        for k in kids:
            if isinstance(k, V) and k.k == "new":
                ko = st.mem.get(k)
                if ko is not None and ko.status == "heap":
                    self.deep_release(e, st, k, I, name, seen)

    # ------------------------------------------------------------ libc
    def m_malloc(self, e, st, I, args, name):
        s2 = st.copy()
        o = e.fresh_new(st, I, "heap", default="zero" if name == "calloc" else "undef",
                        size=args[0] if name == "malloc" else mkop("mul", 64, args[0], args[1]))
        return [(st, o), (s2, 0)]

    m_calloc = m_malloc

    def m_free(self, e, st, I, args, name):
        p = st.norm(args[0])
        if isinstance(p, int):
            return [(st, None)]
        b, off = base_off(p)
        out = []
        if off != 0:
            e.report("bad-free", I, "release of an interior pointer %r" % p, "free:interior", st)
            raise Dead
        e.release(st, b, off, I, "free")
        out.append((st, None))
        return out

    def memcpy(self, e, st, I, args, name):
        d, s, n = st.norm(args[0]), st.norm(args[1]), st.norm(args[2])
        if n == 0:
            return [(st, args[0])]
        db, do = base_off(d)
        sb, so = base_off(s)
        sb = e.access(st, sb, I, "memcpy source")
        db = e.access(st, db, I, "memcpy destination")
        self.copyrange(e, st, I, db, do, sb, so, n)
        e.on_memcpy(st, I, db, do, sb, so, n)
        return [(st, args[0])]

    def copyrange(self, e, st, I, db, do, sb, so, n):
        attrs = I.x[0] if I.x else []
        structy = isinstance(n, int) and any(a in ("align 4", "align 8", "align 16") for a in attrs)
        if isinstance(n, int) and isinstance(do, int) and isinstance(so, int) and n <= 4096:
            src = e.getobj(st, sb)
            dst = e.getobj(st, db)
            cells = dict(dst.cells)
            for co in [c for c, (cs, cv) in cells.items() if isinstance(c, int) and c < do + n and do < c + cs]:
                del cells[co]
            for co, (cs, cv) in src.cells.items():
                if isinstance(co, int) and so <= co and co + cs <= so + n:
                    cells[do + co - so] = (cs, cv)
                elif isinstance(co, int) and co < so + n and so < co + cs:
                    from engine import ext
                    a, b = max(co, so), min(co + cs, so + n)
                    cells[do + a - so] = (b - a, ext(cv, a - co, b - a, cs))
            blocks = [b for b in dst.blocks if not (isinstance(b[1], int) and do <= b[0] and b[0] + b[1] <= do + n)]
            if src.default == "zero":
                blocks.append((do, n, "Z"))
            else:
                covered = sum(cs for co, (cs, cv) in src.cells.items() if isinstance(co, int) and so <= co < so + n)
                if covered < n:
                    blocks.append((do, n, "L", sb, so))
            for b in src.blocks:
                if isinstance(b[1], int):
                    a0, a1 = max(b[0], so), min(b[0] + b[1], so + n)
                    if a0 < a1:
                        if b[2] == "Z":
                            blocks.append((do + a0 - so, a1 - a0, "Z"))
                        else:
                            blocks.append((do + a0 - so, a1 - a0, "L", b[3], b[4] + a0 - b[0]))
            st.mem[db] = dst.w(cells=cells, blocks=tuple(blocks))
        elif isinstance(n, int) and n <= 16:
            # a word at a symbolic offset
            v = e.read(st, sb, so, n)
            e.write(st, db, do, n, v)
            return
        elif isinstance(n, V) and isinstance(do, int) and isinstance(so, int) and db.k == "new" and \
                (0 in st.neq.get(n, ()) or st.lo_hi(n)[0] > 0):
            # how many bytes is not known, but the first one is among them
            e.write(st, db, do, 1, e.read(st, sb, so, 1))
        if not structy:
            lab_ = e.content(st, sb)
            src = e.getobj(st, sb)
            if isinstance(n, int) and n <= 8 and isinstance(so, int):
                c = src.cells.get(so)
                if c is not None:
                    lab_ = lab_ | e.labels(st, c[1])
            if lab_:
                e.set_content(st, db, lab_)

    def memset(self, e, st, I, args, name):
        d, c, n = st.norm(args[0]), st.norm(args[1]), st.norm(args[2])
        if n == 0:
            return [(st, args[0])]
        b, off = base_off(d)
        b = e.access(st, b, I, "memset")
        o = e.getobj(st, b)
        if c == 0 and isinstance(n, int) and isinstance(off, int):
            cells = {k: v for k, v in o.cells.items() if not (isinstance(k, int) and k < off + n and off < k + v[0])}
            blocks = tuple(x for x in o.blocks if not (isinstance(x[1], int) and off <= x[0] and x[0] + x[1] <= off + n)) + ((off, n, "Z"),)
            st.mem[b] = o.w(cells=cells, blocks=blocks)
        e.on_memset(st, I, b, off, c, n)
        return [(st, args[0])]

    def m_wickr_zero(self, e, st, I, args, name):
        d, n = st.norm(args[0]), st.norm(args[1])
        if isinstance(d, int) or (n == 0 and isinstance(args[1], int)):
            return [(st, None)]
        b, off = base_off(d)
        b = e.access(st, b, I, "wickr_zero", maybe_null=name == "wickr_zero")
        if n == 0:          # a length that turns out to be 0: there is nothing in it
            n = args[1]
        o = e.getobj(st, b)
        full = off == 0
        if full and o.size is not None:
            full = e.same_len(st, o.size, n)
        elif full and isinstance(n, int) and o.status == "init":
            full = n >= 32 if isinstance(n, int) else True
        if full:
            e.set_content(st, b, NOC, replace=True)
        return [(st, args[0] if I.ty == "ptr" else None)]

    m_OPENSSL_cleanse = m_explicit_bzero = m_wickr_zero

    def m_memset_s(self, e, st, I, args, name):
        self.m_wickr_zero(e, st, I, [args[0], args[3]], name)
        return [(st, 0)]

    def m_strlen(self, e, st, I, args, name):
        b, off = base_off(st.norm(args[0]))
        b = e.access(st, b, I, "strlen")
        g = e.m.globals.get(b.a[0]) if isinstance(b, V) and b.k == "glob" else None
        if g and g[2] and off == 0 and g[1].startswith('c"'):
            e.on_external(st, I, name, args, e._cstr(g[1]).index(0))
            return [(st, e._cstr(g[1]).index(0))]
        v = mk("strlen", mkptr(b, off))
        v.bits = 64
        e.on_external(st, I, name, args, v)
        return [(st, v)]

    def m___assert_fail(self, e, st, I, args, name):
        raise Dead

    m_abort = m_exit = m___assert_fail

    # ------------------------------------------------------------ protobuf-c
    def p_unpack(self, e, st, I, args, msg):
        p = st.norm(args[2])
        b, off = base_off(p)
        b = e.access(st, b, I, "protobuf input")
        src = e.content(st, b)
        s2 = st.copy()
        o = e.fresh_new(st, I, "proto:" + msg, default="undef", kind="protobuf %s" % msg)
        e.on_unpack(st, I, msg, o, b, off, args, src)
        return [(st, o), (s2, 0)]

    def p_free_unpacked(self, e, st, I, args, msg):
        p = st.norm(args[0])
        if isinstance(p, int):
            return [(st, None)]
        b, off = base_off(p)
        out = []
        e.in_proto_free = True
        try:
            self.deep_release(e, st, b, I, "free_unpacked")
        finally:
            e.in_proto_free = False
        out.append((st, None))
        return out

    def p_get_packed_size(self, e, st, I, args, msg):
        b, off = base_off(st.norm(args[0]))
        e.access(st, b, I, "protobuf message")
        r = e.fresh_ret(st, I, "packed_size")
        return [(st, r)]

    def deep_content(self, e, st, b, seen=None, depth=0):
        seen = seen if seen is not None else set()
        if b in seen or depth > 8:
            return NOC
        seen.add(b)
        o = e.getobj(st, b)
        out = e.content(st, b) if not (b.k == "new" and o.content is None) else NOC
        if o.status == "init" and not o.cells:
            return frozenset((mk("C", b),))
        for off, (s, v) in o.cells.items():
            if s == 8 and isinstance(v, V):
                k = base_off(v)[0]
                if isinstance(k, V) and k.k in ("new", "L", "arg", "ret", "alc"):
                    out = out | self.deep_content(e, st, k, seen, depth + 1)
        return out

    def p_pack(self, e, st, I, args, msg):
        b, off = base_off(st.norm(args[0]))
        e.access(st, b, I, "protobuf message")
        d, doff = base_off(st.norm(args[1]))
        d = e.access(st, d, I, "protobuf output")
        c = frozenset(x for x in self.deep_content(e, st, b))
        e.set_content(st, d, c)
        e.on_pack(st, I, msg, b, d)
        return [(st, e.fresh_ret(st, I, "packed"))]

    # ------------------------------------------------------------ wickr_array: contracts of the container
    def m_wickr_array_new(self, e, st, I, args, name):
        s2 = st.copy()
        o = e.fresh_new(st, I, "array", default="undef", kind="wickr_array")
        o_ = st.mem[o]
        st.mem[o] = o_.w(cells={0: (4, args[0]), 16: (8, args[2]), 24: (8, args[3])})
        s2a = s2
        return [(st, o), (s2a, 0)]

    def m_wickr_array_get_item_count(self, e, st, I, args, name):
        b, off = base_off(st.norm(args[0]))
        if isinstance(b, int):
            return [(st, 0)]
        out = []
        if not nonnull(b) and 0 not in st.neq.get(b, ()):
            s2 = st.copy()
            try:
                s2.assume(mkop("eq", 64, b, 0), True)
                out.append((s2, 0))
            except Infeasible:
                pass
            try:
                st.assume(mkop("eq", 64, b, 0), False)
            except Infeasible:
                return out
        e.access(st, b, I, "array")
        if e.SMALL and is_param_rooted(b):      # arrays the caller passes have this many items
            out.append((st, e.SMALL))
            return out
        out.append((st, e.read(st, b, 0, 4, ("wickr_array", "size"))))
        return out

    def m_wickr_array_set_item(self, e, st, I, args, name):
        b, off = base_off(st.norm(args[0]))
        idx, item, copy = st.norm(args[1]), st.norm(args[2]), st.norm(args[3])
        if isinstance(b, int):
            return [(st, 0)]
        out = []
        s2 = st.copy()
        out.append((s2, 0))
        if not nonnull(b) and 0 not in st.neq.get(b, ()):
            try:
                st.assume(mkop("eq", 64, b, 0), False)
            except Infeasible:
                return out
        e.access(st, b, I, "array")
        s = st
        it = item
        if copy == 0:
            e.write(s, b, mk("item", idx), 8, it)
            out.append((s, 1))
        else:
            nb = e.fresh_new(s, I, "itemcopy", default="undef", kind="array item copy")
            o = e.getobj(s, b)
            cells = dict(o.cells)
            cells[mk("item", idx, "c")] = (8, nb)
            s.mem[b] = o.w(cells=cells)
            out.append((s, 1))
        return out

    def m_wickr_array_fetch_item(self, e, st, I, args, name):
        b, off = base_off(st.norm(args[0]))
        idx, copy = st.norm(args[1]), st.norm(args[2])
        if isinstance(b, int):
            return [(st, 0)]
        out = []
        s2 = st.copy()
        out.append((s2, 0))
        if not nonnull(b) and 0 not in st.neq.get(b, ()):
            st.addneq(b, 0)
            if is_param_rooted(b):
                pass
        o = e.getobj(st, b)
        if copy != 0:
            nb = e.fresh_new(st, I, "itemcopy", default="undef", kind="array item copy")
            out.append((st, nb))
            return out
        k = mk("item", idx)
        if k in o.cells:
            v = st.norm(o.cells[k][1])
        else:
            v = Lsym(b, k, 8, ("wickr_array", "item"))
            st.addneq(v, 0)
        out.append((st, v))
        return out

    def m_wickr_array_copy(self, e, st, I, args, name):
        b, off = base_off(st.norm(args[0]))
        if isinstance(b, int):
            return [(st, 0)]
        s2 = st.copy()
        o = e.fresh_new(st, I, "array", default="undef", kind="wickr_array",
                        content=frozenset((lab("copyof", frozenset((mk("C", b),))),)))
        src = e.read(st, b, 0, 4, ("wickr_array", "size"))
        ob = st.mem[o]
        st.mem[o] = ob.w(cells={0: (4, src), 16: (8, e.read(st, b, 16, 8)), 24: (8, e.read(st, b, 24, 8))})
        return [(st, o), (s2, 0)]

    def m_wickr_array_destroy(self, e, st, I, args, name):
        p = st.norm(args[0])
        deep = st.norm(args[1])
        pb, po = base_off(p)
        if isinstance(pb, int):
            return [(st, None)]
        pb = e.access(st, pb, I, "array handle")
        v = st.norm(e.read(st, pb, po, 8))
        if isinstance(v, int):
            return [(st, None)]
        b, off = base_off(v)
        out = []
        if not nonnull(v) and 0 not in st.neq.get(v, ()):
            s2 = st.copy()
            try:
                s2.assume(mkop("eq", 64, v, 0), True)
                out.append((s2, None))
            except Infeasible:
                pass
        o = e.getobj(st, b)
        if deep != 0:
            self.deep_release(e, st, b, I, "wickr_array_destroy")
        else:
            e.release(st, b, 0, I, "wickr_array_destroy")
        e.write(st, pb, po, 8, 0)
        out.append((st, None))
        return out

    # ------------------------------------------------------------ OpenSSL specials
    def m_EVP_PKEY_assign(self, e, st, I, args, name):
        b, off = base_off(st.norm(args[0]))
        e.access(st, b, I, name)
        r = e.fresh_ret(st, I, name, 32)
        s2 = st.copy()
        e.on_external(st, I, name, args, r)
        e.on_external(s2, I, name, args, r)
        st.assume(mkop("eq", 32, r, 1), True)
        s2.assume(mkop("eq", 32, r, 1), False)
        e.write(st, b, 64, 8, args[2])
        return [(st, 1), (s2, r)]

    def m_ECDSA_SIG_set0(self, e, st, I, args, name):
        """takes r and s over; fails only when one of them is null"""
        b, off = base_off(st.norm(args[0]))
        b = e.access(st, b, I, name)
        r_, s_ = st.norm(args[1]), st.norm(args[2])
        if r_ == 0 or s_ == 0:
            e.on_external(st, I, name, args, 0)
            return [(st, 0)]
        r = e.fresh_ret(st, I, name, 32)
        e.on_external(st, I, name, args, r)
        st.assume(mkop("eq", 32, r, 1), True)
        e.write(st, b, 0, 8, args[1])
        e.write(st, b, 8, 8, args[2])
        return [(st, 1)]

    def m_BN_bin2bn(self, e, st, I, args, name):
        p = st.norm(args[2])
        if p == 0:
            return self.ext_new(e, st, I, args, name)
        r = e.fresh_ret(st, I, name)
        s2 = st.copy()
        e.on_external(st, I, name, args, p)
        return [(st, p), (s2, 0)]

    def _oec(self, e, st, I, args, name):
        """T *o2i/d2i(T **a, const uint8_t **pp, long len)"""
        kind = {"o2i_ECPublicKey": "EC_KEY", "d2i_ECPrivateKey": "EC_KEY", "d2i_ECDSA_SIG": "ECDSA_SIG"}[name]
        s2 = st.copy()
        a = st.norm(args[0])
        if isinstance(a, int):
            o = e.fresh_new(st, I, name, kind=kind)
            e.on_external(st, I, name, args, o)
            return [(st, o), (s2, 0)]
        b, off = base_off(a)
        b = e.access(st, b, I, name)
        cur = st.norm(e.read(st, b, off, 8))
        if isinstance(cur, int) and cur == 0:
            o = e.fresh_new(st, I, name, kind=kind)
            e.write(st, b, off, 8, o)
            e.on_external(st, I, name, args, o)
            return [(st, o), (s2, 0)]
        e.on_external(st, I, name, args, cur)
        return [(st, cur), (s2, 0)]

    m_o2i_ECPublicKey = m_d2i_ECPrivateKey = m_d2i_ECDSA_SIG = _oec

    def m_BN_hex2bn(self, e, st, I, args, name):
        b, off = base_off(st.norm(args[0]))
        b = e.access(st, b, I, name)
        cur = st.norm(e.read(st, b, off, 8))
        r = e.fresh_ret(st, I, name, 32)
        s2 = st.copy()
        if cur == 0:
            o = e.fresh_new(st, I, name, kind="BIGNUM")
            e.write(st, b, off, 8, o)
        e.on_external(st, I, name, args, r)
        e.on_external(s2, I, name, args, r)
        st.addneq(r, 0)
        s2.seteq(r, 0)
        return [(st, r), (s2, 0)]

    # ------------------------------------------------------------ engine slots
    def buf(self, e, st, I, tag, content=NOC, length=None):
        o = e.fresh_new(st, I, tag, default="undef", kind="wickr_buffer")
        by = e.fresh_new(st, I, tag + ".bytes", default="undef", kind="bytes", content=frozenset(content))
        ln = length if length is not None else e.fresh_ret(st, I, tag + ".length")
        if isinstance(ln, V):
            try:
                st.addneq(ln, 0)
            except Infeasible:
                pass
        st.mem[o] = st.mem[o].w(cells={0: (8, ln), 8: (8, by)})
        st.mem[by] = st.mem[by].w(size=ln)
        return o

    def bufcontent(self, e, st, p):
        p = st.norm(p)
        if isinstance(p, int):
            return NOC
        b, off = base_off(p)
        by = e.read(st, b, mkop("add", 64, off, 8), 8, ("wickr_buffer", "bytes"))
        by = st.norm(by)
        if isinstance(by, int):
            return NOC
        return e.content(st, base_off(by)[0])

    def _slot(self, e, st, I, args, slot, ret):
        e.on_slot(st, I, slot, args, ret)
        return ret

    def s_wickr_crypto_engine_crypto_random(self, e, st, I, args, slot):
        s2 = st.copy()
        o = self.buf(e, st, I, "random", [lab("random", I.idx, e.sig(st))], args[0])
        e.on_slot(st, I, slot, args, o)
        return [(st, o), (s2, 0)]

    def cipherkey(self, e, st, I, tag, cipher, content):
        o = e.fresh_new(st, I, tag, default="undef", kind="wickr_cipher_key")
        b = self.buf(e, st, I, tag + ".key", content)
        st.mem[o] = st.mem[o].w(cells={8: (8, b)})
        e.write(st, o, 0, 8, cipher)
        return o

    def s_wickr_crypto_engine_cipher_key_random(self, e, st, I, args, slot):
        s2 = st.copy()
        o = self.cipherkey(e, st, I, "randkey", args[0], [lab("secret", "random cipher key", I.idx, e.sig(st))])
        e.on_slot(st, I, slot, args, o)
        return [(st, o), (s2, 0)]

    def s_wickr_crypto_engine_cipher_encrypt(self, e, st, I, args, slot):
        for a, w in ((args[0], "plaintext"), (args[2], "key")):
            pass
        s2 = st.copy()
        o = e.fresh_new(st, I, "cipher_result", default="undef", kind="wickr_cipher_result")
        pt = self.bufcontent(e, st, args[0])
        kb, ko = base_off(st.norm(args[2]))
        cells = {}
        st.mem[o] = st.mem[o].w(cells=cells)
        if isinstance(kb, V):
            e.write(st, o, 0, 8, e.read(st, kb, ko, 8, None, CIPHER_LEAVES))
        iv = self.buf(e, st, I, "iv", [lab("iv", self.bufcontent(e, st, args[3]))] if st.norm(args[3]) != 0 else [lab("randiv", I.idx, e.sig(st))])
        ct = self.buf(e, st, I, "ct", [lab("enc", pt)])
        tag = self.buf(e, st, I, "tag", [lab("tag", pt)])
        e.write(st, o, 8, 8, iv)
        e.write(st, o, 16, 8, ct)
        e.write(st, o, 24, 8, tag)
        e.on_slot(st, I, slot, args, o)
        return [(st, o), (s2, 0)]

    def s_wickr_crypto_engine_cipher_decrypt(self, e, st, I, args, slot):
        s2 = st.copy()
        r = st.norm(args[0])
        b, off = base_off(r)
        c = NOC
        if isinstance(b, V):
            b = e.access(st, b, I, "cipher result")
            ct = st.norm(e.read(st, b, 16, 8, ("wickr_cipher_result", "cipher_text")))
            c = self.bufcontent(e, st, ct) if isinstance(ct, V) else NOC
        o = self.buf(e, st, I, "plain", [lab("dec", c, I.idx)])
        e.on_slot(st, I, slot, args, o)
        return [(st, o), (s2, 0)]

    def _boolslot(self, e, st, I, args, slot):
        r = e.fresh_ret(st, I, slot, 1)
        r.bits = 1
        e.on_slot(st, I, slot, args, r)
        return [(st, r)]

    s_wickr_crypto_engine_encrypt_file = s_wickr_crypto_engine_decrypt_file = _boolslot
    s_wickr_crypto_engine_encrypt_ofile = s_wickr_crypto_engine_decrypt_ofile = _boolslot
    s_wickr_crypto_engine_ec_verify = s_wickr_crypto_engine_hmac_verify = _boolslot

    def s_wickr_crypto_engine_digest(self, e, st, I, args, slot):
        s2 = st.copy()
        c = self.bufcontent(e, st, args[0]) | self.bufcontent(e, st, args[1])
        o = self.buf(e, st, I, "digest", [lab("digest", c)])
        e.on_slot(st, I, slot, args, o)
        return [(st, o), (s2, 0)]

    def s_wickr_crypto_engine_digest_file(self, e, st, I, args, slot):
        s2 = st.copy()
        o = self.buf(e, st, I, "digest", [lab("digest", NOC)])
        e.on_slot(st, I, slot, args, o)
        return [(st, o), (s2, 0)]

    def eckey(self, e, st, I, tag, pri):
        o = e.fresh_new(st, I, tag, default="undef", kind="wickr_ec_key")
        pub = self.buf(e, st, I, tag + ".pub", [lab("ecpub", I.idx, e.sig(st))])
        cells = {16: (8, pub), 24: (8, 0)}
        if pri:
            p = self.buf(e, st, I, tag + ".pri", [lab("secret", "EC private key", I.idx, e.sig(st))])
            cells[24] = (8, p)
        st.mem[o] = st.mem[o].w(cells={field_off(e.m, "wickr_ec_key", "pub_data"): cells[16],
                                       field_off(e.m, "wickr_ec_key", "pri_data"): cells[24]})
        return o

    def s_wickr_crypto_engine_ec_rand_key(self, e, st, I, args, slot):
        s2 = st.copy()
        o = self.eckey(e, st, I, "ecrand", True)
        e.on_slot(st, I, slot, args, o)
        return [(st, o), (s2, 0)]

    def s_wickr_crypto_engine_ec_key_import(self, e, st, I, args, slot):
        if st.norm(args[0]) == 0:
            return [(st, 0)]
        s2 = st.copy()
        p = st.norm(args[1])
        out = []
        if not (isinstance(p, int) and p == 0):
            s = st.copy()
            try:
                if isinstance(p, V):
                    s.assume(p, True)
                o = self.eckey(e, s, I, "ecimport", True)
                # public import of the same bytes keeps its provenance
                e.on_slot(s, I, slot, args, o)
                out.append((s, o))
            except Infeasible:
                pass
        if not (isinstance(p, int) and p != 0):
            s = st.copy()
            try:
                if isinstance(p, V):
                    s.assume(p, False)
                o = self.eckey(e, s, I, "ecimport", False)
                e.on_slot(s, I, slot, args, o)
                out.append((s, o))
            except Infeasible:
                pass
        out.append((s2, 0))
        return out

    def s_wickr_crypto_engine_ec_sign(self, e, st, I, args, slot):
        s2 = st.copy()
        o = e.fresh_new(st, I, "signature", default="undef", kind="wickr_ecdsa_result")
        sig = self.buf(e, st, I, "sig", [lab("sig", self.bufcontent(e, st, args[1]))])
        st.mem[o] = st.mem[o].w(cells={field_off(e.m, "wickr_ecdsa_result", "sig_data"): (8, sig)})
        e.on_slot(st, I, slot, args, o)
        return [(st, o), (s2, 0)]

    def _raw(self, e, st, I, args, slot):
        s2 = st.copy()
        o = self.buf(e, st, I, "raw", [lab("rawsig", NOC)])
        e.on_slot(st, I, slot, args, o)
        return [(st, o), (s2, 0)]

    s_wickr_crypto_engine_ecdsa_to_raw = _raw

    def s_wickr_crypto_engine_ecdsa_from_raw(self, e, st, I, args, slot):
        s2 = st.copy()
        o = e.fresh_new(st, I, "signature", default="undef", kind="wickr_ecdsa_result")
        sig = self.buf(e, st, I, "sig", [lab("rawsig", NOC)])
        st.mem[o] = st.mem[o].w(cells={field_off(e.m, "wickr_ecdsa_result", "sig_data"): (8, sig)})
        e.on_slot(st, I, slot, args, o)
        return [(st, o), (s2, 0)]

    def s_wickr_crypto_engine_gen_shared_secret(self, e, st, I, args, slot):
        s2 = st.copy()
        o = self.buf(e, st, I, "shared", [lab("secret", "ECDH shared secret", I.idx, e.sig(st))])
        e.on_slot(st, I, slot, args, o)
        return [(st, o), (s2, 0)]

    def s_wickr_crypto_engine_hmac_create(self, e, st, I, args, slot):
        s2 = st.copy()
        o = self.buf(e, st, I, "hmac", [lab("hmac", self.bufcontent(e, st, args[0]))])
        e.on_slot(st, I, slot, args, o)
        return [(st, o), (s2, 0)]

    def _kdf(self, e, st, I, args, slot):
        s2 = st.copy()
        o = e.fresh_new(st, I, "kdf_result", default="undef", kind="wickr_kdf_result")
        meta = e.fresh_new(st, I, "kdf_meta", default="undef", kind="wickr_kdf_meta")
        salt = self.buf(e, st, I, "salt", [lab("salt", I.idx, e.sig(st))])
        fo = lambda s, f: field_off(e.m, s, f)
        st.mem[meta] = st.mem[meta].w(cells={fo("wickr_kdf_meta", "salt"): (8, salt), fo("wickr_kdf_meta", "info"): (8, 0)})
        c = self.bufcontent(e, st, args[-1])
        h = self.buf(e, st, I, "kdfhash", [lab("secret", "derived key", I.idx, e.sig(st)), lab("kdf", c)])
        st.mem[o] = st.mem[o].w(cells={fo("wickr_kdf_result", "hash"): (8, h), fo("wickr_kdf_result", "meta"): (8, meta)})
        e.on_slot(st, I, slot, args, o)
        return [(st, o), (s2, 0)]

    s_wickr_crypto_kdf_gen = s_wickr_crypto_kdf_meta = _kdf


# what these write is key material only when they succeed
DERIVE = {"EVP_PKEY_derive": ("eq", 1), "libscrypt_scrypt": ("eq", 0), "crypt_rn": ("ne", 0)}

CIPHER_LEAVES = [(0, 4, "i32"), (4, 1, "i8"), (5, 1, "i8"), (6, 1, "i8"), (7, 1, "i8")]

ALLOC_NULL = {
    "EVP_CIPHER_CTX_new": "EVP_CIPHER_CTX", "EVP_MD_CTX_new": "EVP_MD_CTX", "EVP_PKEY_new": "EVP_PKEY",
    "ECDSA_SIG_new": "ECDSA_SIG", "BN_new": "BIGNUM", "EC_POINT_new": "EC_POINT",
    "EVP_PKEY_CTX_new": "EVP_PKEY_CTX", "EVP_PKEY_CTX_new_id": "EVP_PKEY_CTX", "EC_KEY_new_by_curve_name": "EC_KEY",
    "fopen": "FILE", "strdup": "string", "EC_KEY_new": "EC_KEY", "BN_dup": "BIGNUM", "EC_KEY_dup": "EC_KEY",
    "tmpfile": "FILE", "BN_secure_new": "BIGNUM", "EVP_MD_CTX_create": "EVP_MD_CTX", "HMAC_CTX_new": "HMAC_CTX",
}
NEVER_NULL = set()
FREES = ["EVP_CIPHER_CTX_free", "EVP_MD_CTX_free", "EVP_PKEY_free", "ECDSA_SIG_free", "BN_free", "BN_clear_free",
         "EC_POINT_free", "EVP_PKEY_CTX_free", "EC_KEY_free", "fclose", "EC_POINT_clear_free", "HMAC_CTX_free", "EVP_MD_CTX_destroy"]

# out-parameters of opaque library calls: (argument, what is written through it)
OUT = {
    "EVP_EncryptUpdate": [(2, ("int", 4)), (1, ("bytes", "enc", 3))],
    "EVP_EncryptFinal_ex": [(2, ("int", 4)), (1, ("bytes", "enc", None))],
    "EVP_DecryptUpdate": [(2, ("int", 4)), (1, ("bytes", "dec", 3))],
    "EVP_DecryptFinal_ex": [(2, ("int", 4)), (1, ("bytes", "dec", None))],
    "EVP_CIPHER_CTX_ctrl": [],
    "RAND_bytes": [(0, ("bytes", "rand", None))],
    "EVP_DigestFinal": [(1, ("bytes", "digest", None)), (2, ("int", 4))],
    "EVP_DigestFinal_ex": [(1, ("bytes", "digest", None)), (2, ("int", 4))],
    "EVP_DigestSignFinal": [(1, ("bytes", "sig", None)), (2, ("int", 8))],
    "EVP_PKEY_derive": [(1, ("bytes", "secretdh", None)), (2, ("int", 8))],
    "HMAC": [(5, ("bytes", "hmac", None)), (6, ("int", 4))],
    "i2o_ECPublicKey": [(1, ("pbytes", "ecpub"))],
    "i2d_ECPrivateKey": [(1, ("pbytes", "secretec"))],
    "i2d_ECDSA_SIG": [(1, ("pbytes", "sig"))],
    "libscrypt_scrypt": [(7, ("bytes", "secretkdf", 0))],
    "crypt_rn": [(2, ("bytes", "secretkdf", 0))],
    "crypt_gensalt_rn": [(4, ("bytes", "salt", None))],
    "fread": [(0, ("bytes", "file", None))],
    "BN_bn2binpad": [(1, ("bytes", "bn", None))],
}

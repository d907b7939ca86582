"""Provenance terms: the bytes of every buffer the engine produces carry a term that says which operation, under which key, over which
bytes made them; equal bytes, verified signatures and completed checks are facts over the same terms."""
import re
from base import AnalysisError, enum
from engine import V, mk, mkop, mkptr, base_off, Infeasible
from models import lab, NOC
from rules.auth import Auth

P = "wickr_crypto_engine_"


def short(t, d=0):
    """a term for people"""
    if isinstance(t, frozenset):
        return "{" + ", ".join(sorted(short(x, d + 1) for x in t)) + "}" if len(t) != 1 else short(next(iter(t)), d)
    if isinstance(t, tuple):
        return " | ".join(short(x, d + 1) for x in t)
    if isinstance(t, V):
        if t.k == "lab":
            return "%s(%s)" % (t.a[0], "; ".join(short(x, d + 1) for x in t.a[1:] if isinstance(x, (V, frozenset, tuple)))) if d < 4 else t.a[0]
        if t.k == "C":
            return short(t.a[0], d)
        if t.k == "L":
            return "%s.%s" % (short(t.a[0], d + 1), t.field[1] if t.field else t.a[1])
        if t.k == "arg":
            return "arg%s" % (t.a[1] if len(t.a) > 1 else "")
        if t.k in ("new", "ret"):
            return str(t.a[1]) if isinstance(t.a[1], str) else t.k
    return str(t)[:40]


def pointee(m, struct, field):
    """the structure a member points to (or is), from the debug info"""
    if not hasattr(m, "pointees"):
        m.pointees = {}
        comp = {}
        for k, v in m.meta.items():
            x = re.search(r'DICompositeType\(tag: DW_TAG_structure_type.*?name: "([^"]*)"', v)
            if x:
                comp[k] = x.group(1)

        def follow(r, d=0):
            if r in comp or d > 8:
                return comp.get(r)
            x = re.search(r"baseType: (!\d+)", m.meta.get(r, ""))
            return follow(x.group(1), d + 1) if x else None
        for k, n in comp.items():
            el = re.search(r"elements: (!\d+)", m.meta[k])
            for e in re.findall(r"!\d+", m.meta.get(el.group(1), "")) if el else ():
                mt = m.meta.get(e, "")
                f = re.search(r'name: "([^"]*)"', mt)
                b = re.search(r"baseType: (!\d+)", mt)
                if f and b:
                    t = follow(b.group(1))
                    if t:
                        m.pointees.setdefault((n, f.group(1)), (t, "DW_TAG_pointer_type" in m.meta.get(b.group(1), "")))
    if (struct, field) not in m.pointees:
        raise AnalysisError("member %s.%s is gone" % (struct, field))
    return m.pointees[(struct, field)]


M64 = (1 << 64) - 1


class Terms(Auth):
    """events -> terms and facts"""
    KEEP = ()

    def lin(self, st, v, d=0):
        """a number as {term: factor} modulo 2^64; the term 1 is the constant"""
        v = st.norm(v)
        if isinstance(v, int):
            return {1: v & M64} if v & M64 else {}
        if v.k == "op" and d < 12 and v.a[0] in ("add", "sub", "mul", "trunc", "zext", "sext"):
            op, bits = v.a[0], v.a[1]
            if op in ("trunc", "zext", "sext"):
                return self.lin(st, v.a[2], d + 1) if st.lo_hi(v.a[2])[1] < 1 << bits else {v: 1}
            a, b = st.norm(v.a[2]), st.norm(v.a[3])
            top = [x if isinstance(x, int) else st.lo_hi(x)[1] for x in (a, b)]
            if bits == 64 or op == "add" and sum(top) < 1 << bits:
                x, y = self.lin(st, a, d + 1), self.lin(st, b, d + 1)
                if op != "mul":
                    return self.plus(x, y, 1 if op == "add" else -1)
                if isinstance(b, int):
                    return self.plus({}, x, b)
        return {v: 1}

    def plus(self, x, y, k=1):
        x = dict(x)
        for t, c in y.items():
            x[t] = (x.get(t, 0) + k * c) & M64
            if not x[t]:
                del x[t]
        return x

    def same_num(self, st, a, b):
        return a is not None and b is not None and (self.lin(st, a) if not isinstance(a, dict) else a) == (self.lin(st, b) if not isinstance(b, dict) else b)

    # -- storage filled piece by piece: pre(end, piece...) is among the contents while each piece ends where the next one begins
    def content(self, st, base):
        c = super().content(st, base)
        return frozenset(x for x in c if not (x.k == "lab" and x.a[0] == "pre")) if any(x.k == "lab" and x.a[0] == "pre" for x in c) else c

    def set_content(self, st, base, lab, replace=False):
        base = st.norm(base)
        if isinstance(base, V) and not replace:
            lab = super().content(st, base) | frozenset(lab)
        super().set_content(st, base, lab, True)

    def pre(self, st, b):
        c = [x for x in super().content(st, b) if x.k == "lab" and x.a[0] == "pre"]
        return c[0] if len(c) == 1 else None

    def on_memcpy(self, st, I, db, do, sb, so, n):
        super().on_memcpy(st, I, db, do, sb, so, n)
        db = st.norm(db)
        if not isinstance(db, V) or db.k != "new":
            return
        o, do, n = self.getobj(st, db), st.norm(do), st.norm(n)
        old = self.pre(st, db)
        end, parts = (st.norm(old.a[1]), list(old.a[2:])) if old is not None else (0, [])
        while isinstance(end, int) and end in o.cells and end != do and len(parts) < 8:
            sz, v = o.cells[end]
            parts.append(frozenset([lab("val", sz, st.norm(v))]))
            end += sz
        if do == 0:
            parts = []
        elif not self.same_num(st, end, do):
            if o.default != "zero" or do == 0:
                parts = None
            else:
                parts.append(frozenset([lab("zeros", mkop("sub", 64, do, end))]))
        c = frozenset(x for x in super().content(st, db) if not (x.k == "lab" and x.a[0] == "pre"))
        if parts is not None and len(parts) < 8:
            x = self.content(st, sb)
            v = self.getobj(st, sb).cells.get(so) if isinstance(so, int) and (not x or st.norm(sb).k == "alc") else None
            parts.append(x | {lab("val", v[0], st.norm(v[1]))} if v is not None else x)
            end = mkop("add", 64, do, n)
            c |= {lab("pre", end, *parts)}
            if len(parts) > 1 and o.size is not None and self.same_num(st, end, o.size):
                c = self.joined(c, parts)
        super().set_content(st, db, c, True)

    def joined(self, c, parts):
        """the contents are the parts, in this order: what is known of the order of a part is in the part"""
        return frozenset(x for x in c if not (x.k == "lab" and x.a[0] == "cat")) | {lab("cat", *parts)}

    def at(self, st, v, path, size=8):
        """v is a pointer to a structure; path is "struct.member.member..." -> the value of the last member"""
        parts = path.split(".")
        s = parts[0]
        v = st.norm(v)
        for i, f in enumerate(parts[1:]):
            if not isinstance(v, V):
                return None
            b, o = base_off(v)
            if not isinstance(b, V):
                return None
            off = mkop("add", 64, o, self.fieldof(s, f))
            last = i == len(parts) - 2
            if last:
                return st.norm(self.read(st, b, off, size, (s, f)))
            t, ptr = pointee(self.m, s, f)
            v = st.norm(self.read(st, b, off, 8, (s, f))) if ptr else mkptr(v, self.fieldof(s, f)) if self.fieldof(s, f) else v
            s = t
        return v

    def by(self, st, v, path=None):
        """what the bytes of a buffer (at the end of the path) are"""
        if path is not None:
            v = self.at(st, v, path)
        v = st.norm(v) if v is not None else None
        if not isinstance(v, V):
            return NOC
        p = self.bytes_of(st, v)
        b, o = base_off(p) if isinstance(p, V) else (None, 0)
        if not isinstance(b, V):
            return NOC
        c = self.content(st, b)
        if not c or b.k == "alc":
            x = st.mem.get(b)
            x = x.cells.get(o) if x is not None and isinstance(o, int) else None
            if x is not None:
                c = c | {lab("val", x[0], st.norm(x[1]))}
        return c

    def mark(self, st, buf, *t):
        """the bytes of this buffer are t"""
        p = self.bytes_of(st, buf)
        b = base_off(p)[0] if isinstance(p, V) else None
        if isinstance(b, V):
            self.set_content(st, b, [lab(*t)])

    def joins(self, st, buf, parts):
        p = self.bytes_of(st, buf)
        b = base_off(p)[0] if isinstance(p, V) else None
        if isinstance(b, V):
            self.set_content(st, b, self.joined(self.content(st, b), parts), True)

    # -- terms
    def on_slot(self, st, I, slot, args, r):
        super().on_slot(st, I, slot, args, r)
        s = slot[len(P):] if slot.startswith(P) else slot
        h = getattr(self, "t_" + s, None)
        if h:
            h(st, I, args, r)

    def t_gen_shared_secret(self, st, I, a, r):
        self.mark(st, r, "dh", self.by(st, a[0], "wickr_ec_key.pri_data"), self.by(st, a[1], "wickr_ec_key.pub_data"))

    def t_digest(self, st, I, a, r):
        self.mark(st, r, "hash", self.by(st, a[0]), self.by(st, a[1]))

    def t_hmac_create(self, st, I, a, r):
        self.mark(st, r, "mac", self.by(st, a[0]), self.by(st, a[1]))

    def t_ec_sign(self, st, I, a, r):
        self.mark(st, self.at(st, r, "wickr_ecdsa_result.sig_data"), "signed", self.by(st, a[0], "wickr_ec_key.pri_data"), self.by(st, a[1]))
        self.site("signatures", I)

    def t_ec_verify(self, st, I, a, r):
        self.site("verifications", I)
        self.when(st, 1, r, "verified", self.by(st, a[0], "wickr_ecdsa_result.sig_data"), self.by(st, a[1], "wickr_ec_key.pub_data"), self.by(st, a[2]))

    def t_cipher_encrypt(self, st, I, a, r):
        self.site("encryptions", I)
        self.mark(st, self.at(st, r, "wickr_cipher_result.cipher_text"), "sealed", self.by(st, a[0]), self.by(st, a[2], "wickr_cipher_key.key_data"), self.by(st, a[1]))

    def t_cipher_decrypt(self, st, I, a, r):
        self.site("decryptions", I)
        self.mark(st, r, "opened", self.by(st, a[0], "wickr_cipher_result.cipher_text"), self.by(st, a[2], "wickr_cipher_key.key_data"), self.by(st, a[1]))

    def on_external(self, st, I, name, args, r):
        super().on_external(st, I, name, args, r)
        if name in ("memcmp", "CRYPTO_memcmp", "bcmp"):
            a, b = (base_off(st.norm(x))[0] for x in args[:2])
            if isinstance(a, V) and isinstance(b, V):
                self.when(st, 0, r, "equal", self.content(st, a), self.content(st, b))

    def on_result(self, st, I, name, args, r):
        if not isinstance(r, V):
            return
        if name == "wickr_buffer_concat_multi":
            b, o = base_off(st.norm(args[0]))
            n = self.plain(st, args[1])
            if isinstance(n, int) and 0 < n <= 8 and isinstance(b, V):
                parts = tuple(self.by(st, self.read(st, b, mkop("add", 64, o, 8 * i), 8)) for i in range(n))
                self.joins(st, r, parts)
        elif name == "wickr_buffer_concat":
            self.joins(st, r, (self.by(st, args[0]), self.by(st, args[1])))
        elif name == "openssl_hkdf":
            self.mark(st, r, "hkdf", self.by(st, args[0]), self.by(st, args[1]), self.by(st, args[2]))
        elif name == "openssl_hkdf_expand":
            self.mark(st, r, "hkdf", self.by(st, args[0]), NOC, self.by(st, args[1]))

    # -- reading terms
    def terms(self, c, kind):
        return [x for x in c if isinstance(x, V) and x.k == "lab" and x.a[0] == kind]

    def parts(self, c, d=0):
        """a content as the sequence of its parts (None where the order is not known)"""
        cats = self.terms(c, "cat")
        if len(cats) == 1 and d < 5:
            out = []
            for x in cats[0].a[1:]:
                p = self.parts(x, d + 1)
                if p is None:
                    return None
                out += p
            return out
        if cats:
            return None
        return [c]

    def C(self, st, v, path=None):
        """what is wanted: the bytes of a buffer, as they are"""
        return self.by(st, v, path)

    def same(self, have, want):
        """the bytes are exactly those wanted (both are contents)"""
        return bool(want) and bool(have) and want <= have

    def is_cat(self, have, wants):
        """have is the concatenation of the wants, in this order"""
        p = self.parts(have)
        if p is not None and len(p) > 1 or len(wants) == 1:
            p = p or [have]
            return len(p) == len(wants) and all(self.same(a, b) for a, b in zip(p, wants))
        return all(self.same(have, w) for w in wants)

    # -- verdicts
    roots = {}

    def on_return(self, st, f, ret, I):
        if self.ctx:
            return
        self.waiting(st)
        s = self.roots.get(f.name)
        if s is None:
            return
        r = st.norm(ret) if ret is not None else None
        t = st
        if f.rty == "ptr":
            if not (isinstance(r, V) and (r._nz or 0 in st.neq.get(r, ()))):
                return
        elif f.rty != "void":
            if r == 0:
                return
            if isinstance(r, V):
                t = st.copy()
                try:
                    t.assume(r, True)
                except Infeasible:
                    return
                self.waiting(t)
        self.site("results_judged:" + s, I)
        getattr(self, "r_" + s)(t, f, [self.param(f, i) for i in range(len(f.params))], r, I)

    def found(self, st, kind, *wants):
        """there is a fact of this kind whose contents are the wanted ones (None: anything)"""
        return any(x[0] == kind and all(w is None or (w(c) if callable(w) else self.same(c, w)) for c, w in zip(x[1:], wants)) for x in st.facts)

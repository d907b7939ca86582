"""Provenance across serialization: what a protobuf message is packed from and what is read out of one, which part of a buffer was cut
out, and what a derived key was derived from."""
import re
import engine
from base import AnalysisError
from engine import V, mk, mkop, base_off, mkptr, Lsym
from models import lab, NOC
from rules.terms import Terms, P


def members(m, struct):
    """[(name, offset, size, pointed-to or contained structure, is pointer)] from the debug info; unions flattened"""
    if not hasattr(m, "members_"):
        m.members_ = {}
        m.compname = {}
        for k, v in m.meta.items():
            x = re.search(r'DICompositeType\(tag: DW_TAG_structure_type.*?name: "([^"]*)"', v)
            if x and "elements:" in v:
                m.compname.setdefault(x.group(1), k)
    if struct in m.members_:
        return m.members_[struct]
    if struct not in m.compname:
        raise AnalysisError("structure %s is gone" % struct)

    def num(t, k):
        x = re.search(r"\b%s: (\d+)" % k, t)
        return int(x.group(1)) // 8 if x else 0

    def target(r, ptr=0, d=0):
        t = m.meta.get(r, "")
        x = re.search(r'DICompositeType\(tag: DW_TAG_structure_type.*?name: "([^"]*)"', t)
        if x:
            return x.group(1), ptr
        b = re.search(r"baseType: (!\d+)", t)
        if not b or d > 8:
            return None, ptr
        return target(b.group(1), ptr + ("DW_TAG_pointer_type" in t), d + 1)

    def walk(ref, base):
        out = []
        el = re.search(r"elements: (!\d+)", m.meta[ref])
        for e in re.findall(r"!\d+", m.meta.get(el.group(1), "")) if el else ():
            t = m.meta.get(e, "")
            b = re.search(r"baseType: (!\d+)", t)
            off = base + num(t, "offset")
            n = re.search(r'name: "([^"]*)"', t)
            if not b:
                continue
            if not n or "DW_TAG_union_type" in m.meta.get(b.group(1), ""):
                if "DICompositeType" in m.meta.get(b.group(1), ""):
                    out += walk(b.group(1), off)
                continue
            s, p = target(b.group(1))
            out.append((n.group(1), off, num(t, "size"), s, p))
        return out
    m.members_[struct] = walk(m.compname[struct], 0)
    return m.members_[struct]


def proto_struct(m, msg):
    return "_Wickr__Proto__" + "__".join("".join(w.capitalize() for w in p.split("_")) for p in msg.split("__"))


class Wire(Terms):
    def __init__(self, m, tier):
        super().__init__(m, tier)
        engine.GRAFT = True

    def on_pack(self, st, I, msg, b, d):
        super().on_pack(st, I, msg, b, d)
        self.set_content(st, d, [self.message(st, b, proto_struct(self.m, msg))], replace=True)

    def message(self, st, b, struct, d=0):
        """the term of a message that is about to be packed: its type, then the name and content of every member"""
        out = []
        o = self.getobj(st, b)
        for n, off, size, s, ptr in members(self.m, struct):
            if n == "base" or n.startswith("n_") or n.startswith("has_"):
                continue
            if s == "ProtobufCBinaryData":
                dat = off + self.fieldof(s, "data")
                v = st.norm(self.read(st, b, dat, 8, (s, "data")))
                c = self.content(st, base_off(v)[0]) if isinstance(v, V) else NOC
            elif s and ptr == 1:
                v = st.norm(self.read(st, b, off, 8, (struct, n)))
                c = frozenset([self.message(st, base_off(v)[0], s, d + 1)]) if isinstance(v, V) and d < 4 else NOC
            elif s and ptr == 2:
                c = self.elements(st, b, off, struct, n, s, d)
            else:
                v = st.norm(self.read(st, b, off, size, (struct, n)))
                c = frozenset([lab("val", size, v)])
            out += [n, c]
        return lab("msg", struct, *out)

    def elements(self, st, b, off, struct, n, s, d):
        """the elements of a repeated member: one "at" term for each one whose place is known"""
        v = st.norm(self.read(st, b, off, 8, (struct, n)))
        if not isinstance(v, V):
            return NOC
        a, o = base_off(v)
        obj = st.mem.get(a)
        out = set()
        for k, (sz, x) in sorted(obj.cells.items(), key=lambda kv: str(kv[0])) if obj is not None else ():
            x = st.norm(x)
            if sz == 8 and isinstance(x, V) and isinstance(k, int):
                out.add(lab("at", k // 8, frozenset([self.message(st, base_off(x)[0], s, d + 1)])))
        return frozenset(out)

    def on_unpack(self, st, I, msg, o, b, off, args, src):
        super().on_unpack(st, I, msg, o, b, off, args, src)
        self.site("messages_read", I)
        self.unpacked(st, o, proto_struct(self.m, msg), src if off == 0 else NOC)

    def unpacked(self, st, b, struct, src, d=0):
        for n, off, size, s, ptr in members(self.m, struct):
            c = frozenset([lab("member", struct, n, src)])
            if s == "ProtobufCBinaryData":
                self.set_content(st, Lsym(b, off + self.fieldof(s, "data"), 8, (s, "data")), c, replace=True)
            elif s and ptr and d < 3:
                x = Lsym(b, off, 8, (struct, n))
                if ptr == 1:
                    self.unpacked(st, x, s, c, d + 1)
                else:
                    for k in range(max(self.SMALL, 1)):
                        self.unpacked(st, Lsym(x, 8 * k, 8, None), s, frozenset([lab("member", struct, n, src, k)]), d + 1)

    def start(self, t):
        """where a part was cut out"""
        return base_off(t.a[1])[1]

    def t_cipher_key_random(self, st, I, a, r):
        self.mark(st, self.at(st, r, "wickr_cipher_key.key_data"), "random-key")

    def t_ec_rand_key(self, st, I, a, r):
        self.mark(st, self.at(st, r, "wickr_ec_key.pub_data"), "random-public")
        self.mark(st, self.at(st, r, "wickr_ec_key.pri_data"), "random-private")

    def on_result(self, st, I, name, args, r):
        if name not in ("openssl_hkdf", "openssl_hkdf_expand"):
            super().on_result(st, I, name, args, r)
        if not isinstance(r, V):
            return
        if name == "wickr_buffer_copy_section":
            b = base_off(self.bytes_of(st, r))[0]
            c = self.by(st, args[0])
            s = self.bytes_of(st, args[0])
            if isinstance(b, V) and isinstance(s, V) and c:
                x, o = base_off(s)
                whole = st.norm(args[1]) == 0 and self.len_is(st, args[2], self.at(st, args[0], "wickr_buffer.length"))
                self.set_content(st, b, list(c) if whole else [lab("part", mkptr(x, mkop("add", 64, o, st.norm(args[1]))), st.norm(args[2]), c)], replace=True)
        elif name == "wickr_buffer_create":
            b = base_off(self.bytes_of(st, r))[0]
            x, o = base_off(st.norm(args[0]))
            if isinstance(b, V) and isinstance(x, V) and x.k == "L" and x.field == ("wickr_buffer", "bytes"):
                c = self.content(st, x)
                whole = o == 0 and self.len_is(st, args[1], self.at(st, mkptr(x.a[0], mkop("sub", 64, x.a[1], self.fieldof("wickr_buffer", "bytes"))), "wickr_buffer.length"))
                if c and not whole:
                    self.set_content(st, b, [lab("part", st.norm(args[0]), st.norm(args[1]), c)], replace=True)
        elif name == "wickr_kdf_meta_create":
            self.add(st, "algo", self.at(st, r, "wickr_kdf_meta.algo.kdf_id", 4), self.by(st, r, "wickr_kdf_meta.info"))
        elif name == "wickr_perform_kdf_meta":
            K = "wickr_kdf_meta."
            t = self.at(st, args[0], K + "algo.kdf_id", 4), self.by(st, args[1]), self.by(st, args[0], K + "salt"), self.by(st, args[0], K + "info")
            self.add(st, "kdf", *t)
            self.mark(st, self.at(st, r, "wickr_kdf_result.hash"), "kdf", *t)
        elif name == "wickr_buffer_copy":
            a = st.norm(args[0])
            if isinstance(a, V) and a.field == ("wickr_ec_key", "pri_data"):
                self.add(st, "private", a)

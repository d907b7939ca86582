"""C04: an identifier stands for the same algorithm, with the same sizes and costs, everywhere and for ever."""
import re
from base import Base, Result, AnalysisError
from engine import V, mk, mkop, base_off, Lsym

# what is stored and sent: (name, offset, size) of the members, the one that identifies, and the rows
TABLES = {
    "wickr_cipher": ("cipher_id", ["cipher_id", "key_len", "iv_len", "auth_tag_len", "is_authenticated"], {0: (0, 32, 12, 16, 1), 1: (1, 32, 16, 0, 0)}),
    "wickr_digest": ("digest_id", ["type", "digest_id", "size"], {1: (0, 1, 32), 2: (0, 2, 48), 3: (0, 3, 64)}),
    "wickr_ec_curve": ("identifier", ["identifier", "signature_size", "raw_signature_size", "max_pub_size"], {0: (0, 143, 132, 134)}),
    "wickr_kdf_algo": ("kdf_id", ["algo_id", "kdf_id", "salt_size", "output_size", "cost"], {
        1: (1, 1, 16, 32, 17 << 16 | 8 << 8 | 1), 2: (1, 2, 16, 32, 18 << 16 | 8 << 8 | 1), 3: (1, 3, 16, 32, 19 << 16 | 8 << 8 | 1),
        4: (1, 4, 16, 32, 20 << 16 | 8 << 8 | 1), 5: (0, 5, 22, 64, 15), 6: (2, 6, 32, 32, 0), 7: (2, 7, 48, 48, 0), 8: (2, 8, 64, 64, 0),
        9: (2, 9, 64, 0, 0)}),
}
SIZES = {"cipher_id": 4, "digest_id": 4, "type": 4, "identifier": 4, "algo_id": 4, "kdf_id": 4, "cost": 4}
STORED = (1, 2, 3, 4, 5)                # the KDFs whose parameters are stored
MANY = 16                               # identifiers that are tried one by one
HKDF = {1: 6, 2: 7, 3: 8}               # digest -> its HKDF
FIND = {"wickr_cipher_find": "wickr_cipher", "wickr_digest_find_with_id": "wickr_digest", "wickr_ec_curve_find": "wickr_ec_curve"}
MATCH = {"wickr_digest_matching_cipher": ("wickr_digest", 1), "wickr_digest_matching_curve": ("wickr_digest", 3),
         "wickr_exchange_cipher_matching_cipher": ("wickr_cipher", 1)}


def layout(e, struct):
    return [(n, e.fieldof(struct, n), SIZES.get(n, 1)) for n in TABLES[struct][1]]


class Algorithms(Base):
    FACTS = "all"

    def __init__(self, m, tier, case=None):
        super().__init__(m, tier)
        self.case = case
        self.roots = {**{f: self.found for f in FIND}, **{f: self.matching for f in MATCH}, "wickr_hkdf_algo_for_digest": self.hkdf,
                      "wickr_kdf_meta_size_with_buffer": self.kdfsize, "wickr_kdf_meta_create_with_buffer": self.kdfmeta,
                      "wickr_crypto_engine_get_default": self.default}

    def on_entry(self, st, f):
        super().on_entry(st, f)
        if self.case is None or self.ctx or f.name not in self.roots or f.name in MATCH:
            return
        v = self.param(f, 0) if f.params else None
        if f.name == "wickr_hkdf_algo_for_digest":
            v = mk("ext", v, 4, 4)
            v.bits = 32
        elif f.name.startswith("wickr_kdf_meta"):
            v = Lsym(v, self.fieldof("wickr_buffer", "bytes"), 8, ("wickr_buffer", "bytes"))
            v = Lsym(v, 0, 1)
            v.bits = 8
        elif f.name not in FIND:
            return
        if self.case < MANY:
            st.seteq(v, self.case)
        else:
            st.setrng(v, MANY, (1 << v.bits) - 1)

    def on_return(self, st, f, ret, I):
        if self.ctx or f.name not in self.roots:
            return
        self.site("returns_of_" + f.name, I)
        self.roots[f.name](st, f, [self.param(f, i) for i in range(len(f.params))], st.norm(ret) if ret is not None else None, I)

    def ob(self, ok, rule, I, f, msg, st):
        return self.oblige(ok, rule, I, "%s: %s" % (f.name, msg), "%s:%s" % (f.name, msg), st)

    def row(self, st, p, struct, off=0):
        b, o = base_off(st.norm(p))
        return tuple(st.norm(self.read(st, b, mkop("add", 64, o, k + off), z, (struct, n))) for n, k, z in layout(self, struct))

    def judge(self, st, f, I, struct, row, ident, what):
        want = TABLES[struct][2].get(ident)
        self.site("rows", I)
        self.ob(want is None or row == want, "row", I, f, "%s %s has the parameters %s instead of %s" % (what, ident, row, want), st)

    def ident(self, st, v, known):
        """(the identifier the path is about, which of the known ones it may be)"""
        v = st.norm(v)
        may = [k for k in known if (v == k if isinstance(v, int) else st.simp(mkop("eq", v.bits or 32, v, k)) != 0)]
        return v, may

    def looked_up(self, st, f, I, struct, idv, row, known):
        """row: what was found, None if nothing"""
        v, may = self.ident(st, idv, known)
        if row is None:
            self.ob(not may, "lookup", I, f, "an algorithm that exists is not found", st)
            return
        k = row[TABLES[struct][1].index(TABLES[struct][0])]
        self.ob(isinstance(k, int) and (v == k or isinstance(v, V) and st.simp(mkop("eq", v.bits or 32, v, k)) == 1), "lookup", I, f,
                "the algorithm found is not the one with that identifier", st)
        self.judge(st, f, I, struct, row, k, struct)

    def found(self, st, f, p, r, I):
        s = FIND[f.name]
        self.looked_up(st, f, I, s, p[0], self.row(st, r, s) if isinstance(r, V) else None, TABLES[s][2])

    def hkdf(self, st, f, p, r, I):
        v = mk("ext", p[0], 4, 4)
        v.bits = 32
        v, may = self.ident(st, v, HKDF)
        if not isinstance(r, V):
            self.ob(not may, "lookup", I, f, "a digest without its HKDF", st)
            return
        row = self.row(st, r, "wickr_kdf_algo")
        self.ob(len(may) == 1 and row[1] == HKDF[may[0]], "lookup", I, f, "the HKDF found is not the digest's", st)
        self.judge(st, f, I, "wickr_kdf_algo", row, row[1], "wickr_kdf_algo")

    def first(self, st, p):
        b = st.norm(self.read(st, base_off(st.norm(p))[0], self.fieldof("wickr_buffer", "bytes"), 8, ("wickr_buffer", "bytes")))
        return (st.norm(self.read(st, base_off(b)[0], base_off(b)[1], 1)) if isinstance(b, V) else None,
                st.norm(self.read(st, base_off(st.norm(p))[0], self.fieldof("wickr_buffer", "length"), 8, ("wickr_buffer", "length"))))

    def kdfsize(self, st, f, p, r, I):
        if st.norm(p[0]) == 0:
            return
        v, n = self.first(st, p[0])
        if v is None:
            return
        v, may = self.ident(st, v, STORED)
        if r == 0:
            self.ob(not may or st.simp(mkop("ult", 64, 1, n)) == 0, "lookup", I, f, "stored KDF parameters are not recognized", st)
        else:
            self.ob(len(may) == 1 and r == 1 + TABLES["wickr_kdf_algo"][2][may[0]][2], "row", I, f, "the size of stored KDF parameters is not that of the algorithm", st)

    def kdfmeta(self, st, f, p, r, I):
        if not isinstance(r, V):
            return
        v, n = self.first(st, p[0])
        self.looked_up(st, f, I, "wickr_kdf_algo", v, self.row(st, r, "wickr_kdf_algo", self.fieldof("wickr_kdf_meta", "algo")), STORED)

    def matching(self, st, f, p, r, I):
        s, k = MATCH[f.name]
        row = []
        for n, o, z in layout(self, s):
            x = None
            if isinstance(r, int):
                x = r >> 8 * o & (1 << 8 * z) - 1
            elif isinstance(r, V) and r.k == "cat":
                for a, b, c in r.a[0]:
                    if a <= o and o + z <= a + b and isinstance(c, int):
                        x = c >> 8 * (o - a) & (1 << 8 * z) - 1
            row.append(x)
        self.judge(st, f, I, s, tuple(row), k, f.name)

    def default(self, st, f, p, r, I):
        E = "wickr_crypto_engine"
        for n, s in (("default_cipher", "wickr_cipher"), ("default_curve", "wickr_ec_curve")):
            self.judge(st, f, I, s, self.row(st, p[0], s, self.fieldof(E, n)), 0, n)


def run_C04(m, tier):
    r = Result("every description of an algorithm (constants, lookups for every identifier, defaults), against the table of what is stored and sent")
    e = Algorithms(m, tier)
    seen = {}
    for n, (ty, init, const) in sorted(m.globals.items()):
        s = ty.replace("%struct.", "")
        if s not in TABLES or "{" not in init:
            continue
        vals = [int(x) for x in re.findall(r"i\d+ (-?\d+)", init)]
        row = tuple(v & (1 << 8 * z) - 1 for v, (_, _, z) in zip(vals, layout(e, s)))
        k = row[TABLES[s][1].index(TABLES[s][0])]
        want = TABLES[s][2].get(k)
        seen.setdefault(s, set()).add(k)
        name = re.sub(r"\.u\d+$", "", n)
        if not const or want is not None and row != want:
            e.oblige(False, "row", None, "constant %s of %s %s is %s instead of %s" % (name, s, k, row, want), "const:%s:%s" % (s, name), None)
        else:
            e.obligations += 1
    first = e
    roots = list(e.roots)
    sites = {}
    for k in range(MANY + 1):
        e = Algorithms(m, tier, k) if k else first
        e.case = k
        e.run(roots if not k else [f for f in roots if f in FIND or "kdf" in f])
        r.take(e, {"row", "lookup"})
        r.engine_cover(e)
        for x, y in e.sites.items():
            sites.setdefault(x, set()).update(y)
    e.sites = sites
    r.cover(constants=sum(len(x) for x in seen.values()))
    r.floor("algorithms with a constant", sum(len(x) for x in seen.values()), 8)
    r.floor("rows judged", len(e.sites.get("rows", ())), 6)
    for f in e.roots:
        r.floor("returns of " + f, len(e.sites.get("returns_of_" + f, ())), 1)
    return r

"""K02: keys derived from a passphrase are derived from all of it, with the parameters that are stored, and what is exported under a
passphrase is sealed under such a key."""
import engine
from base import Result
from engine import V, mk, mkop, base_off, Lsym, Infeasible
from models import lab, NOC
from rules.algorithms import TABLES
from rules.wire import Wire

ROWS = TABLES["wickr_kdf_algo"][2]
HASH = {6: 1, 7: 2, 8: 3, 9: 3}
FRAMES = {1 + 16, 1 + 12 + 16}          # identifier, IV and tag of each cipher, before the ciphertext
M, A = "wickr_kdf_meta", "wickr_kdf_algo"
FIELDS = ("algo_id", "kdf_id", "salt_size", "output_size", "cost")
SIZE = {"salt_size": 1, "output_size": 1}


class Derive(Wire):
    def __init__(self, m, tier, kdf=None):
        super().__init__(m, tier)
        self.kdf = kdf
        self.done, self.judged = set(), set()
        self.roots = {"wickr_perform_kdf_meta": "meta", "wickr_perform_kdf": "gen", "wickr_kdf_meta_create_hkdf_expand": "expand",
                      "wickr_crypto_engine_kdf_decipher": "open"} if kdf else {
            "wickr_crypto_engine_kdf_cipher": "seal",
            "wickr_ctx_export": "export", "wickr_ctx_export_storage_keys": "export", "wickr_ctx_gen_export_recovery_key_passphrase": "export",
            "wickr_ctx_import_storage_keys": "storage", "wickr_ctx_gen_import_recovery_key_passphrase": "recovery", "wickr_ctx_import": "ctx"}

    # -- one algorithm at a time
    def on_entry(self, st, f):
        super().on_entry(st, f)
        if self.ctx or not self.kdf or f.name not in self.roots:
            return
        row = dict(zip(FIELDS, ROWS[self.kdf]))
        a = self.param(f, 0)
        if f.name == "wickr_perform_kdf_meta":
            for n in FIELDS:
                if n != "output_size" or self.kdf != 9:
                    st.seteq(Lsym(a, self.fieldof(M, "algo") + self.fieldof(A, n), SIZE.get(n, 4)), row[n])
        elif f.name == "wickr_crypto_engine_kdf_decipher":
            st.seteq(Lsym(Lsym(self.param(f, 1), self.fieldof("wickr_buffer", "bytes"), 8), 0, 1), self.kdf)
        elif f.name == "wickr_perform_kdf":
            v = 0
            for n in FIELDS:
                v |= row[n] << 8 * self.fieldof(A, n)
            for i in (0, 1):
                st.env[f.params[i][1]] = v >> 64 * i & (1 << 64) - 1
            self.values = True

    def on_return(self, st, f, ret, I):
        if self.roots.get(f.name) and not self.ctx and st.norm(ret) != 0:
            self.judged.add(f.name)
        super().on_return(st, f, ret, I)

    # -- what the primitives are given
    def contents(self, st, v):
        v = st.norm(v)
        return self.content(st, base_off(v)[0]) if isinstance(v, V) else NOC

    def text(self, v):
        b, o = base_off(v)
        g = self.m.globals.get(b.a[0]) if isinstance(b, V) and b.k == "glob" else None
        return g[1][o:] if g and o == 0 else None

    def made(self, st, v):
        """(what was written where, what the rest is, how large) of the object v points to the start of"""
        b, o = base_off(st.norm(v))
        x = st.mem.get(b)
        w = frozenset(lab("write", *f[2:]) for f in st.facts if f[0] == "wrote" and f[1] is b)
        return lab("made", w, x.default if x is not None else None, st.norm(x.size) if x is not None and x.size is not None else None, o)

    def on_memcpy(self, st, I, db, do, sb, so, n):
        super().on_memcpy(st, I, db, do, sb, so, n)
        if self.kdf == 5:
            self.add(st, "wrote", st.norm(db), st.norm(do), st.norm(sb), self.content(st, st.norm(sb)), st.norm(so), st.norm(n))

    def on_external(self, st, I, name, args, r):
        super().on_external(st, I, name, args, r)
        a = [st.norm(x) for x in args]
        if name == "libscrypt_scrypt":
            self.site("derivations", I)
            self.add(st, "kdf-run", "scrypt", self.contents(st, a[0]), a[1], self.contents(st, a[2]), a[3], a[4], a[5], a[6], base_off(a[7])[0], a[8])
        elif name == "crypt_rn":
            self.site("derivations", I)
            self.add(st, "kdf-run", "bcrypt", self.made(st, a[0]), self.made(st, a[1]), base_off(a[2])[0])
            self.set_content(st, base_off(a[2])[0], [lab("bcrypt")])
        elif name == "crypt_gensalt_rn":
            self.set_content(st, base_off(a[4])[0], [lab("gensalt", str(self.text(a[0])), a[1], self.contents(st, a[2]), a[3])], replace=True)

    def on_result(self, st, I, name, args, r):
        if not (self.kdf and name == "wickr_perform_kdf_meta"):
            super().on_result(st, I, name, args, r)
        if not isinstance(r, V):
            return
        a = [st.norm(x) for x in args]
        if name in ("openssl_hkdf", "openssl_hkdf_expand"):
            self.site("derivations", I)
            e = name.endswith("_expand")
            c0, c1 = a[2:4] if e else a[3:5]
            d = c0 >> 32 if isinstance(c0, int) else st.norm(mk("ext", c0, 4, 4))
            self.add(st, "kdf-run", "expand" if e else "hkdf", self.by(st, a[0]), NOC if e else self.by(st, a[1]), self.by(st, a[1 if e else 2]), d,
                     self.plain(st, a[4] if e else c1), base_off(self.bytes_of(st, r))[0])
        elif name == "openssl_crypto_random":
            self.mark(st, r, "random", self.plain(st, a[0]))
        elif name == "wickr_crypto_engine_kdf_cipher":
            self.mark(st, r, "protected", self.by(st, a[4]), self.by(st, a[5]), a[1], a[2], a[3])
        elif name == "wickr_crypto_engine_kdf_decipher":
            self.mark(st, r, "unprotected", self.by(st, a[1]), self.by(st, a[2]))

    def t_wickr_crypto_kdf_gen(self, st, I, a, r):
        self.site("derivations", I)
        mt = self.at(st, r, "wickr_kdf_result.meta")
        b, o = base_off(mt)
        for i in (0, 1):
            self.write(st, b, mkop("add", 64, o, self.fieldof(M, "algo") + 8 * i), 8, st.norm(a[i]))
        salt = lab("kdf-salt", I.idx)
        self.mark(st, self.at(st, r, "wickr_kdf_result.meta.salt"), "kdf-salt", I.idx)
        self.mark(st, self.at(st, r, "wickr_kdf_result.hash"), "derived", self.by(st, a[2]), st.norm(a[0]), st.norm(a[1]), frozenset([salt]))

    def t_wickr_crypto_kdf_meta(self, st, I, a, r):
        self.site("derivations", I)
        self.mark(st, self.at(st, r, "wickr_kdf_result.hash"), "derived", self.by(st, a[1]), self.at(st, a[0], "wickr_kdf_meta.algo.kdf_id", 4),
                  self.at(st, a[0], "wickr_kdf_meta.algo.cost", 4), self.by(st, a[0], "wickr_kdf_meta.salt"))

    def t_ec_key_import(self, st, I, a, r):
        for n in ("pri_data", "pub_data"):
            self.mark(st, self.at(st, r, "wickr_ec_key." + n), "imported", self.plain(st, a[1]), self.by(st, a[0]))

    # -- verdicts
    def r_meta(self, st, f, p, r, I):
        self.result(st, f, I, r, p[1], self.by(st, p[0], M + ".salt"), self.at(st, p[0], M + ".salt"), self.by(st, p[0], M + ".info"),
                    self.at(st, p[0], M + ".algo.output_size", 1))
        for n in FIELDS:
            z = SIZE.get(n, 4)
            self.ob(self.at(st, r, "wickr_kdf_result.meta.algo." + n, z) == self.at(st, p[0], M + ".algo." + n, z), "stored", I, f,
                    "the parameters of the result are not those used: " + n, st)
        self.ob(self.by(st, r, "wickr_kdf_result.meta.salt") == self.by(st, p[0], M + ".salt") and
                self.by(st, r, "wickr_kdf_result.meta.info") == self.by(st, p[0], M + ".info"), "stored", I, f, "the salt of the result is not the one used", st)

    def r_gen(self, st, f, p, r, I):
        R = "wickr_kdf_result.meta."
        c = self.by(st, r, R + "salt")
        self.result(st, f, I, r, p[2], c, None, NOC, ROWS[self.kdf][3])
        for n, w in zip(FIELDS, ROWS[self.kdf]):
            self.ob(self.at(st, r, R + "algo." + n, SIZE.get(n, 4)) == w, "stored", I, f, "the parameters of the result are not those asked for: " + n, st)
        size = ROWS[self.kdf][2]
        if self.kdf == 5:
            ok = False
            for x in self.terms(c, "part"):
                g = self.terms(x.a[3], "gensalt")
                ok = self.start(x) == 7 and len(g) == 1 and "$2y$" in g[0].a[1] and g[0].a[2] == 15 and g[0].a[4] == 16 and \
                    any(t.a[1] == 16 for t in self.terms(g[0].a[3], "random"))
            self.ob(ok, "salt", I, f, "the salt is not made of sixteen new random bytes", st)
        else:
            ts = self.terms(c, "random")
            self.ob(bool(ts) and all(t.a[1] == size for t in ts), "salt", I, f, "the salt is not as many new random bytes as the algorithm has", st)

    def result(self, st, f, I, r, secret, salt, saltbuf, info, out):
        """the hash of the result r comes from this secret, salt and info"""
        runs = [x[1:] for x in st.facts if x[0] == "kdf-run"]
        self.ob(len(runs) == 1, "derived", I, f, "not derived by one derivation", st)
        h = base_off(self.bytes_of(st, self.at(st, r, "wickr_kdf_result.hash")))[0]
        sec, n = self.by(st, secret), self.at(st, secret, "wickr_buffer.length")
        kind = {0: "bcrypt", 1: "scrypt", 2: "expand" if self.kdf == 9 else "hkdf"}[ROWS[self.kdf][0]]
        for x in runs:
            if not self.ob(x[0] == kind, "derived", I, f, "derived with another algorithm: " + str(x[0]), st):
                continue
            if kind == "scrypt":
                cost = ROWS[self.kdf][4]
                self.ob(x[1] == sec and self.len_is(st, x[2], n), "secret", I, f, "not derived from the whole secret", st)
                self.ob(x[3] == salt and (saltbuf is None or self.len_is(st, x[4], self.at(st, saltbuf, "wickr_buffer.length"))), "salt", I, f,
                        "not derived with the whole salt", st)
                self.ob(tuple(self.plain(st, y) for y in x[5:8]) == (1 << (cost >> 16), cost >> 8 & 255, cost & 255), "cost", I, f,
                        "scrypt does not run with the cost of the algorithm: %s" % (x[5:8],), st)
                self.ob(x[8] is h and self.len_is(st, x[9], out), "output", I, f, "the result is not the output", st)
            elif kind == "bcrypt":
                w, default, size, o = self.unmade(x[1])
                self.ob({y[:1] + y[2:] for y in w} == {(0, sec, 0, n)} and default == "zero" and o == 0 and size is not None and st.simp(mkop("ult", 64, n, size)) != 0 or
                        not w and not n, "secret", I, f, "not derived from the whole secret", st)
                w, default, size, o = self.unmade(x[2])
                head = [y for y in w if self.text(y[1])]
                rest = [y for y in w if y not in head]
                self.ob(o == 0 and len(head) == 1 and head[0][0] == 0 and head[0][3:] == (0, 7) and "$2y$15$" in self.text(head[0][1]), "cost", I, f,
                        "bcrypt does not run with the cost of the algorithm", st)
                self.ob(default == "zero" and len(rest) == 1 and rest[0][0] == 7 and rest[0][2] == salt and rest[0][3] == 0 and
                        (saltbuf is None or self.len_is(st, rest[0][4], self.at(st, saltbuf, "wickr_buffer.length"))), "salt", I, f,
                        "not derived with the whole salt", st)
                self.ob(bool(self.terms(self.by(st, r, "wickr_kdf_result.hash"), "bcrypt")), "output", I, f, "the result is not the output", st)
            else:
                self.ob(x[1] == sec, "secret", I, f, "not derived from the whole secret", st)
                self.ob(kind == "expand" or x[2] == salt, "salt", I, f, "not derived with the salt", st)
                self.ob(x[3] == info, "salt", I, f, "not derived with the context information", st)
                self.ob(x[4] == HASH[self.kdf], "cost", I, f, "not derived with the digest of the algorithm", st)
                self.ob(x[6] is h and self.len_is(st, x[5], out), "output", I, f, "the result is not the output, as long as asked for", st)

    def unmade(self, x):
        return (frozenset(y.a[1:] for y in x.a[1]),) + tuple(x.a[2:])

    def r_expand(self, st, f, p, r, I):
        for n, w in zip(FIELDS, ROWS[9]):
            if n != "output_size":
                self.ob(self.at(st, r, M + ".algo." + n, SIZE.get(n, 4)) == w, "stored", I, f, "not the parameters of an expansion: " + n, st)
        n = st.norm(p[2])
        self.ob(self.len_is(st, self.at(st, r, M + ".algo.output_size", 1), n) or st.lo_hi(n)[1] < 256 if isinstance(n, V) else True,
                "output", I, f, "the output is not as long as asked for", st)
        self.ob(self.by(st, r, M + ".info") == self.by(st, p[1]), "salt", I, f, "not with the context information given", st)

    # -- exports
    def outer(self, c):
        """the concatenations that are not part of another one here"""
        cs = self.terms(c, "cat")
        return [x for x in cs if not any(x in part for y in cs for part in y.a[1:])]

    def r_seal(self, st, f, p, r, I):
        cs = self.outer(self.by(st, r))
        self.ob(len(cs) == 1 and len(cs[0].a) == 3, "frame", I, f, "what is exported is not the parameters and then the ciphertext", st)
        for c in cs:
            mt, ct = self.outer(c.a[1]), self.outer(c.a[2])
            ids = [t.a[2] for x in mt for t in self.terms(x.a[1], "val")]
            want = mk("ext", p[1], 4, 4)
            self.ob(len(mt) == 1 and len(mt[0].a) == 3 and len(ids) == 1 and self.narrow(st, ids[0]) == st.norm(want) and bool(self.terms(mt[0].a[2], "kdf-salt")),
                    "stored", I, f, "the parameters stored are not those of the derivation", st)
            ss = [s for x in ct for s in self.terms(x.a[-1], "sealed")]
            self.ob(bool(ss), "sealed", I, f, "what is exported is not sealed", st)
            for s in ss:
                self.ob(self.same(s.a[1], self.by(st, p[4])), "sealed", I, f, "what is sealed is not what was given", st)
                ks = self.terms(s.a[2], "derived")
                self.ob(bool(ks) and all(self.same(k.a[1], self.by(st, p[5])) and k.a[2] == st.norm(p[1]) and k.a[3] == st.norm(p[2]) and
                                         self.same(mt[0].a[2] if mt else NOC, k.a[4]) for k in ks), "sealed", I, f,
                        "the key is not derived from the passphrase with the parameters stored", st)

    def narrow(self, st, v):
        v = st.norm(v)
        while isinstance(v, V) and v.k == "op" and v.a[0] in ("trunc", "zext", "sext"):
            v = st.norm(v.a[2])
        if isinstance(v, V) and v.k == "ext" and v.a[2] == 1:       # the low byte of a member
            w = mk("ext", v.a[0], v.a[1], 4)
            return st.norm(w)
        return v

    def r_open(self, st, f, p, r, I):
        src = self.by(st, p[1])
        os = self.terms(self.by(st, r), "opened")
        self.ob(bool(os), "opened", I, f, "what is imported is not decrypted", st)
        b, o = base_off(self.bytes_of(st, p[1]))
        first = st.norm(self.read(st, b, o, 1))
        for x in os:
            parts = self.terms(x.a[1], "part")
            if parts:
                self.done.add("opened")
            ks = self.terms(x.a[2], "derived")
            salts = [y for k in ks for y in self.terms(k.a[4], "part")]
            for k in ks:
                self.ob(self.same(k.a[1], self.by(st, p[2])) and first == k.a[2] and k.a[3] == ROWS.get(first, (0,) * 5)[4], "opened", I, f,
                        "the key is not derived from the passphrase with the parameters stored", st)
            self.ob(bool(ks) and len(salts) >= len(ks) and all(y.a[3] == src and self.start(y) == 1 and y.a[2] == ROWS[first][2] for y in salts), "opened", I, f,
                    "the salt is not the one stored", st)
            self.ob(not x.a[1] or bool(parts) and all(self.place(y, src) in {1 + ROWS[self.kdf][2] + n for n in FRAMES} for y in parts), "opened", I, f, "what is opened is not the rest of the input", st)

    def place(self, y, src, d=0):
        """where in src a part of (a part of) it begins"""
        o = self.start(y)
        if y.a[3] == src:
            return o
        at = {self.place(z, src, d + 1) for z in self.terms(y.a[3], "part")} if d < 4 else ()
        x = at.pop() if len(at) == 1 else None
        return o + x if isinstance(o, int) and isinstance(x, int) else None

    def r_export(self, st, f, p, r, I):
        ps = self.terms(self.by(st, r), "protected")
        self.ob(bool(ps), "sealed", I, f, "what is exported is not sealed under the passphrase", st)
        for x in ps:
            self.ob(self.same(x.a[2], self.by(st, p[1])), "sealed", I, f, "not sealed under the passphrase given", st)
            have = tuple(self.cut(st, x.a[3:5], self.fieldof(A, n), SIZE.get(n, 4)) for n in FIELDS)
            self.ob(have[0] == 1 and have in ROWS.values(), "cost", I, f, "the key is not derived with scrypt", st)
            self.ob(self.exported(st, f, p, x.a[1]), "sealed", I, f, "what is sealed is not what is to be exported", st)

    def cut(self, st, words, off, n):
        """a member of a structure passed as two words"""
        v, off = st.norm(words[off // 8]), off % 8
        if isinstance(v, V) and v.k == "cat":
            return next((st.norm(x[2]) for x in v.a[0] if x[:2] == (off, n)), None)
        return v >> 8 * off & (1 << 8 * n) - 1 if isinstance(v, int) else st.norm(mk("ext", v, off, n))

    def exported(self, st, f, p, c):
        """c is the serialization of what this function exports"""
        if "recovery" in f.name:
            return self.is_key(st, c, p[0], "wickr_ctx_gen_result.recovery_key.")
        if "storage" in f.name:
            return self.storage(st, c, p[0])
        w = self.memb(c, "Ctx")
        chain = self.memb(w.get("id_chain", NOC), "IdentityChain")
        ok = self.storage(st, w.get("storage", NOC), p[0])
        for k in ("root", "node"):
            i = self.memb(chain.get(k, NOC), "Identity")
            at = "wickr_ctx.id_chain.%s." % k
            pri = self.at(st, p[0], at + "sig_key.pri_data")
            ok &= self.same(i.get("identifier", NOC), self.by(st, p[0], at + "identifier"))
            ok &= self.same(i.get("sig_key", NOC), self.by(st, p[0], at + "sig_key." + ("pub_data" if pri == 0 else "pri_data")))
            ok &= k == "root" or any(self.same(x.a[-1], self.by(st, p[0], at + "signature.sig_data")) for x in self.terms(i.get("signature", NOC), "cat"))
        return ok

    def memb(self, c, name):
        ms = [x for x in self.terms(c, "msg") if x.a[1] == "_Wickr__Proto__" + name]
        return dict(zip(ms[0].a[2::2], ms[0].a[3::2])) if len(ms) == 1 else {}

    def storage(self, st, c, ctx):
        w = self.memb(c, "StorageKeys")
        return all(self.is_key(st, w.get(k + "_storage", NOC), ctx, "wickr_ctx.storage_keys.%s." % k) for k in ("local", "remote"))

    def is_key(self, st, c, root, path):
        cs = self.outer(c)
        return len(cs) == 1 and len(cs[0].a) == 3 and self.same(cs[0].a[2], self.by(st, root, path + "key_data"))

    def from_input(self, c, p, st, d=0):
        """these bytes were read out of what the passphrase opened"""
        for t in self.terms(c, "unprotected"):
            if self.same(t.a[1], self.by(st, p[0])) and self.same(t.a[2], self.by(st, p[1])):
                return True
        return d < 8 and any(self.from_input(t.a[-1], p, st, d + 1) for k in ("part", "member", "imported") for t in self.terms(c, k))

    def r_storage(self, st, f, p, r, I):
        for k in ("local", "remote"):
            self.ob(self.from_input(self.by(st, r, "wickr_storage_keys.%s.key_data" % k), p[-2:], st), "opened", I, f, "the %s key is not the one exported" % k, st)

    def r_recovery(self, st, f, p, r, I):
        self.ob(self.from_input(self.by(st, r, "wickr_cipher_key.key_data"), p[-2:], st), "opened", I, f, "the recovery key is not the one exported", st)

    def r_ctx(self, st, f, p, r, I):
        X = "wickr_ctx."
        for k in ("storage_keys.local.key_data", "storage_keys.remote.key_data", "id_chain.node.sig_key.pri_data", "id_chain.root.sig_key.pub_data"):
            self.ob(self.from_input(self.by(st, r, X + k), p[-2:], st), "opened", I, f, "%s is not the one exported" % k, st)


OWN = {"stored", "salt", "secret", "cost", "output", "derived", "sealed", "opened", "frame", "never"}


ALWAYS = {"wickr_kdf_meta_create_hkdf_expand"}
NOT = {None: (), 5: ALWAYS | {"wickr_crypto_engine_kdf_decipher"}, 9: {"wickr_perform_kdf"}}


def run_K02(m, tier):
    r = Result("what every key derivation is given and returns, per algorithm, and what is sealed and opened under a passphrase")
    seen = {}
    for k in [None] + sorted(ROWS):
        e = Derive(m, tier, k)
        ran = [f for f in e.roots if f not in NOT.get(k, ALWAYS)]
        e.run(ran)
        for fn, s in e.roots.items():
            if e.kdf is None or fn in ran:
                e.ob(s == "open" and k > 4 or fn in e.judged and (s != "open" or "opened" in e.done or k > 4), "never", None, m.funcs[fn], "never succeeds", None)
        r.take(e, OWN)
        r.engine_cover(e, "kdf_%s_" % k if k else "")
        for s in set(e.roots.values()):
            seen[s] = seen.get(s, 0) + len(e.sites.get("results_judged:" + s, ()))
        seen["derivations"] = seen.get("derivations", 0) + len(e.sites.get("derivations", ()))
    for s, n in seen.items():
        r.floor("outcomes judged: " + s, n, 1)
    return r

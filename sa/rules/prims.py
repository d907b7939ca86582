"""C03: randomness comes from the generator and is complete.  C05: signatures, MACs, digests and key agreement cover all of their inputs.
One run over the functions that implement the engine's slots (and the callers of the engine, for the IVs)."""
from base import AnalysisError, Result, enum, engine_impl
from engine import V, mk, mkop, base_off, ext, Infeasible
from models import NOC
from rules.auth import Auth, origin

P = "wickr_crypto_engine_"
MD = {"EVP_sha256": "DIGEST_ID_SHA256", "EVP_sha384": "DIGEST_ID_SHA384", "EVP_sha512": "DIGEST_ID_SHA512"}
DEC_KIND = {"d2i_ECPrivateKey": "private", "o2i_ECPublicKey": "public"}
MORE_ROOTS = {"openssl_hkdf": "hkdf", "openssl_hkdf_expand": "hkdf_expand"}
HKDF_NID = 1036


class Prims(Auth):
    def __init__(self, m, tier):
        super().__init__(m, tier)
        self.roots = {}
        for s, fs in engine_impl(m).items():
            for f in fs:
                self.roots[f] = s[len(P):] if s.startswith(P) else s[len("wickr_crypto_"):]
        for f, s in MORE_ROOTS.items():
            if f in m.funcs:
                self.roots[f] = s
        self.digest_id = {md: enum(m, n) for md, n in MD.items()}

    # ------------------------------------------------------------------ events
    def b(self, st, v):
        return base_off(st.norm(v))[0]

    def bo(self, st, v):
        return base_off(st.norm(v))

    def seq(self, st, c):
        return min(3, sum(1 for f in st.facts if f[0] == "upd" and f[1] == c))

    def overwritten(self, st, b):
        if st.facts:
            st.facts = frozenset(f for f in st.facts if not (f[0] in ("rand", "fin", "hmac", "derive") and f[1] is b))

    def on_memcpy(self, st, I, db, do, sb, so, n):
        self.overwritten(st, db)

    def on_memset(self, st, I, b, off, c, n):
        self.overwritten(st, b)

    def on_store(self, st, I, b, off, size, v):
        if st.facts:
            self.overwritten(st, b)

    def on_external(self, st, I, name, args, r):
        h = getattr(self, "x_" + name, None)
        if h:
            h(st, I, args, r)
        elif name in ("EVP_EncryptUpdate", "EVP_DecryptUpdate"):
            self.eat(st, self.b(st, args[3]), self.plain(st, args[4]))
            self.add(st, "src", self.b(st, args[3]))
        elif name in ("EVP_EncryptFinal_ex", "EVP_DecryptFinal_ex"):
            self.ended(st, I, "cipher")
        elif name in ("EVP_EncryptInit_ex", "EVP_DecryptInit_ex"):
            if st.norm(args[4]) != 0:
                b = self.b(st, args[4])
                if isinstance(b, V):
                    self.when(st, 1, r, "keyed", self.b(st, args[0]), self.b(st, args[3]), b)

    def x_RAND_bytes(self, st, I, a, r):
        self.site("random_draws", I)
        b, o = self.bo(st, a[0])
        self.overwritten(st, b)
        self.when(st, 1, r, "rand", b, o, self.plain(st, a[1]))

    def good(self, st, r, *fact):
        """a fact that holds once the pointer r is known not to be null"""
        r = st.norm(r)
        if isinstance(r, V) and (r._nz or 0 in st.neq.get(r, ())):
            self.add(st, *fact)
        elif isinstance(r, V):
            self.add(st, "whennz", r, *fact)

    def waiting(self, st, more=()):
        super().waiting(st, more)
        for f in [f for f in st.facts if f[0] == "whennz"]:
            r = st.norm(f[1])
            if isinstance(r, V) and (r._nz or 0 in st.neq.get(r, ())) or isinstance(r, int) and r:
                st.facts = (st.facts - {f}) | {f[2:]}
            elif isinstance(r, int):
                st.facts = st.facts - {f}

    # keys
    def decoded(self, st, I, a, r, kind):
        k = self.b(st, r)
        p = st.norm(a[1])
        # the pointer was advanced by the call; where it started is in the fact made before (see pre)
        b, o = self.bo(st, p)
        if isinstance(k, V):
            pb, po = self.bo(st, self.read(st, b, o, 8))
            st.facts = st.facts | {("key", k, kind, pb, self.plain(st, a[2]))}

    def x_d2i_ECPrivateKey(self, st, I, a, r): self.decoded(st, I, a, r, "private")
    def x_o2i_ECPublicKey(self, st, I, a, r): self.decoded(st, I, a, r, "public")
    def x_d2i_ECDSA_SIG(self, st, I, a, r): self.decoded(st, I, a, r, "sig")

    def x_EC_KEY_generate_key(self, st, I, a, r):
        self.when(st, 1, r, "gen", self.b(st, a[0]))

    def x_EVP_PKEY_assign(self, st, I, a, r):
        self.when(st, 1, r, "pk", self.b(st, a[0]), self.b(st, a[2]))

    def ser(self, st, a, r, kind):
        p = st.norm(a[1])
        if p == 0:
            return
        b, o = self.bo(st, p)
        q = self.b(st, self.read(st, b, o, 8))
        if isinstance(q, V):
            self.overwritten(st, q)
            self.add(st, "ser", q, self.b(st, a[0]), kind)

    def x_i2o_ECPublicKey(self, st, I, a, r): self.ser(st, a, r, "public")
    def x_i2d_ECPrivateKey(self, st, I, a, r): self.ser(st, a, r, "private")
    def x_i2d_ECDSA_SIG(self, st, I, a, r): self.ser(st, a, r, "sig")

    def x_EC_KEY_get0_public_key(self, st, I, a, r):
        self.add(st, "pointof", self.b(st, r), self.b(st, a[0]))

    def x_EVP_PKEY_get0_EC_KEY(self, st, I, a, r):
        p, k = self.b(st, a[0]), self.b(st, r)
        for f in list(st.facts):
            if f[0] == "pk" and f[1] is p:
                self.add(st, "same", k, f[2])

    def x_EC_POINT_is_at_infinity(self, st, I, a, r):
        self.site("infinity_checks", I)
        self.when(st, 0, r, "finite", self.b(st, a[1]))

    # digests, signatures
    def md(self, st, v):
        v = st.norm(v)
        o = origin(v) if isinstance(v, V) else None
        if o in MD:
            return o
        # the digest the context was set up with
        if isinstance(v, V):
            for f in st.facts:
                if f[0] == "mdof" and f[1] is v:
                    return f[2]
        return "?"

    def init(self, st, I, a, r):
        self.site("digest_inits", I)
        c = self.b(st, a[0])
        self.drop(st, "upd", c)
        self.when(st, 1, r, "md", c, self.md(st, a[1]))

    x_EVP_DigestInit = x_EVP_DigestInit_ex = init

    def getmd(self, st, I, a, r):
        for f in list(st.facts):
            if f[0] == "md" and f[1] == self.b(st, a[0]) and isinstance(r, V):
                self.add(st, "mdof", r, f[2])

    x_EVP_MD_CTX_md = x_EVP_MD_CTX_get0_md = x_EVP_MD_CTX_get1_md = getmd

    def sinit(self, st, I, a, r, kind):
        c = self.b(st, a[0])
        self.drop(st, "upd", c)
        self.drop(st, "md", c)
        self.when(st, 1, r, "md", c, self.md(st, a[2]))
        self.when(st, 1, r, "keyed", c, kind, self.b(st, a[4]))

    def x_EVP_DigestSignInit(self, st, I, a, r): self.sinit(st, I, a, r, "sign")
    def x_EVP_DigestVerifyInit(self, st, I, a, r): self.sinit(st, I, a, r, "verify")

    def update(self, st, I, a, r):
        c = self.b(st, a[0])
        b, o = self.bo(st, a[1])
        n = self.plain(st, a[2])
        self.eat(st, b, n)
        self.add(st, "src", b)
        self.when(st, 1, r, "upd", c, self.seq(st, c), b, o, n)

    x_EVP_DigestUpdate = x_EVP_DigestSignUpdate = x_EVP_DigestVerifyUpdate = update

    def final(self, st, I, a, r):
        if st.norm(a[1]) != 0:
            b, o = self.bo(st, a[1])
            if isinstance(b, V):
                self.overwritten(st, b)
                self.ended(st, I, "digest")
                self.when(st, 1, r, "fin", b, self.b(st, a[0]), o)

    x_EVP_DigestFinal = x_EVP_DigestFinal_ex = x_EVP_DigestSignFinal = final

    def x_EVP_DigestVerifyFinal(self, st, I, a, r):
        self.site("verifications", I)
        self.when(st, 1, r, "verified", self.b(st, a[0]), self.b(st, a[1]), self.bo(st, a[1])[1], self.plain(st, a[2]))

    def x_HMAC(self, st, I, a, r):
        self.site("macs", I)
        out = self.b(st, a[5])
        self.overwritten(st, out)
        n = 0
        if st.norm(a[6]) != 0:
            lb, lo = self.bo(st, a[6])
            n = self.read(st, lb, lo, 4)
        kb, ko = self.bo(st, a[1])
        db, do = self.bo(st, a[3])
        self.good(st, r, "hmac", out, self.md(st, a[0]), kb, ko, self.plain(st, a[2]), db, do, self.plain(st, a[4]), n)

    def x_CRYPTO_memcmp(self, st, I, a, r):
        self.site("constant_time_comparisons", I)
        self.when(st, 0, r, "equal", self.bo(st, a[0])[0], self.bo(st, a[0])[1], self.bo(st, a[1])[0], self.bo(st, a[1])[1], self.plain(st, a[2]))

    # files
    def x_fread(self, st, I, a, r):
        b = self.b(st, a[0])
        self.oblige(not any(f[0] == "chunk" and f[1] is b and st.norm(f[2]) != 0 for f in st.facts), "chunk-skipped", I, "file contents that were read are not processed", "skipped", st)
        self.drop(st, "chunk")
        self.drop(st, "want")
        self.drop(st, "at-end")
        self.add(st, "chunk", b, r)
        n = st.norm(a[2])
        if isinstance(n, int) and isinstance(r, V):
            lo, hi = st.lo_hi(r)
            st.setrng(r, lo, min(hi, n))
        self.add(st, "want", r, mkop("mul", 64, st.norm(a[1]), st.norm(a[2])) if st.norm(a[1]) != 1 else st.norm(a[2]))

    def x_feof(self, st, I, a, r):
        self.good(st, r, "at-end")

    def eat(self, st, b, n):
        if ("chunk", b, n) in st.facts:
            self.drop(st, "chunk", b, n)
        else:
            self.add(st, "eaten", b, n)             # a caller may have read it

    def ended(self, st, I, what):
        self.oblige(not self.more_to_read(st), "input-cut", I, "the %s is finished although the input may not be at its end" % what, "cut", st)
        self.add(st, "ended", what)

    def merge_facts(self, st, old, new, I):
        st.facts = old
        for f in new:
            if f[0] == "ended":
                self.oblige(not self.more_to_read(st), "input-cut", I, "the %s is finished although the input may not be at its end" % f[1], "cut", st)
            elif f[0] == "eaten":
                self.drop(st, "chunk", f[1], f[2])
        if any(f[0] == "want" for f in new):
            for f in new:
                if f[0] == "chunk":
                    self.oblige(not any(x[0] == "chunk" and x[1] is f[1] for x in st.facts), "chunk-skipped", I, "file contents that were read are not processed", "skipped", st)
            self.drop(st, "chunk")
            self.drop(st, "want")
        return st.facts | frozenset(f for f in new if f[0] != "ended" or not any(x[0] == "want" for x in old))

    def empty(self, st):
        """the end of the file is reached without anything read from it"""
        self.waiting(st)
        return any(f[0] == "at-end" for f in st.facts) or any(f[0] == "want" for f in st.facts) and not self.more_to_read(st) and not any(f[0] == "chunk" and st.norm(f[2]) != 0 for f in st.facts)

    def more_to_read(self, st):
        self.waiting(st)
        if any(f[0] == "at-end" for f in st.facts):
            return False
        for f in st.facts:
            if f[0] == "want":
                if st.simp(mkop("ult", 64, st.norm(f[1]), st.norm(f[2]))) != 1 and st.norm(f[1]) != 0:
                    return True
        return False

    # key agreement and derivation
    def x_EVP_PKEY_CTX_new(self, st, I, a, r):
        self.good(st, r, "keyed", self.b(st, r), "derive", self.b(st, a[0]))

    def x_EVP_PKEY_CTX_new_id(self, st, I, a, r):
        self.good(st, r, "keyed", self.b(st, r), "kdf", st.norm(a[0]))

    def x_EVP_PKEY_derive_set_peer(self, st, I, a, r):
        self.when(st, 1, r, "peer", self.b(st, a[0]), self.b(st, a[1]))

    def x_EVP_PKEY_derive(self, st, I, a, r):
        if st.norm(a[1]) == 0:
            return
        self.site("derivations", I)
        b, o = self.bo(st, a[1])
        if isinstance(b, V):
            self.overwritten(st, b)
            self.when(st, 1, r, "derive", b, self.b(st, a[0]), o)

    def hk(self, st, a, r, what):
        b, o = self.bo(st, a[1])
        self.when(st, 1, r, "hk", self.b(st, a[0]), what, b, o, self.plain(st, a[2]))

    def x_EVP_PKEY_CTX_set1_hkdf_key(self, st, I, a, r): self.hk(st, a, r, "key")
    def x_EVP_PKEY_CTX_set1_hkdf_salt(self, st, I, a, r): self.hk(st, a, r, "salt")
    def x_EVP_PKEY_CTX_add1_hkdf_info(self, st, I, a, r): self.hk(st, a, r, "info")

    def x_EVP_PKEY_CTX_set_hkdf_mode(self, st, I, a, r):
        self.when(st, 1, r, "hkmode", self.b(st, a[0]), st.norm(a[1]))

    def x_EVP_PKEY_CTX_set_hkdf_md(self, st, I, a, r):
        self.when(st, 1, r, "md", self.b(st, a[0]), self.md(st, a[1]))

    # raw signatures
    def x_BN_bin2bn(self, st, I, a, r):
        b, o = self.bo(st, a[0])
        self.add(st, "bn", self.b(st, r), b, o, self.plain(st, a[1]))

    def x_BN_bn2binpad(self, st, I, a, r):
        b, o = self.bo(st, a[1])
        v = st.norm(a[0])
        self.add(st, "pad", b, o, self.plain(st, a[2]), origin(v) if isinstance(v, V) else "?")

    def x_ECDSA_SIG_set0(self, st, I, a, r):
        self.add(st, "rs", self.b(st, a[0]), self.b(st, a[1]), self.b(st, a[2]))

    # ------------------------------------------------------------------ callers of the engine: IVs
    def on_slot(self, st, I, slot, args, r):
        if slot == P + "hmac_create":
            d = st.norm(args[0])
            k = st.norm(args[1])
            if isinstance(k, V) and k.k == "L" and k.field == ("wickr_stream_iv", "seed"):
                x = base_off(k.a[0])[0]
                db, do = base_off(d)
                dp = st.norm(self.read(st, db, mkop("add", 64, do, self.fieldof("wickr_buffer", "bytes")), 8))
                dn = self.plain(st, self.read(st, db, mkop("add", 64, do, self.fieldof("wickr_buffer", "length")), 8))
                pb, po = base_off(dp)
                ok = dn == 8 and (pb is x and po == self.fieldof("wickr_stream_iv", "gen_count") or self.holds_count(st, pb, po, x))
                self.site("iv_derivations", I)
                if self.ob_(ok, "iv-input", I, "an IV is derived from something other than its generator's whole counter", st):
                    self.add(st, "ivhmac", r, x)
        elif slot in (P + "cipher_encrypt",):
            self.site("encryptions", I)
            iv = st.norm(args[3])
            if isinstance(iv, V) and not (iv.k == "arg"):
                ok = any(f[0] == "ivhmac" and f[1] is iv for f in st.facts) or any(c[0] in ("rand", "random") for c in self.content_of(st, iv))
                self.ob_(ok, "iv-origin", I, "data is encrypted with an IV that is neither random nor from an IV generator", st)

    def content_of(self, st, buf):
        b = self.bytes_of(st, buf)
        b = base_off(b)[0] if isinstance(b, V) else None
        return [getattr(x, "a", x) for x in self.content(st, b)] if isinstance(b, V) else []

    def holds_count(self, st, b, o, x):
        v = st.norm(self.read(st, b, o, 8)) if isinstance(b, V) else None
        n = st.norm(self.read(st, x, self.fieldof("wickr_stream_iv", "gen_count"), 8, ("wickr_stream_iv", "gen_count")))
        return isinstance(v, V) and (v is n or v.k == "L" and v.field == ("wickr_stream_iv", "gen_count"))

    def ob_(self, ok, rule, I, msg, st):
        return self.oblige(ok, rule, I, msg, msg, st)

    # ------------------------------------------------------------------ verdicts
    def on_return(self, st, f, ret, I):
        if self.ctx or not st.facts:
            return
        self.waiting(st)
        if not f.internal:
            for x in st.facts:
                if x[0] == "ivhmac":
                    base = x[2]
                    go = self.fieldof("wickr_stream_iv", "gen_count")
                    now = st.norm(self.read(st, base, go, 8))
                    was = mk("L", base, go, 8)
                    self.oblige(st.simp(mkop("eq", 64, now, mkop("add", 64, st.norm(was), 1))) == 1 or self.advanced(st, now, was), "iv-repeats", I,
                                "%s: the IV generator does not move on, so the next IV repeats this one" % f.name, f.name, st)
        s = self.roots.get(f.name)
        if s is None or ret is None:
            return
        h = getattr(self, "r_" + s, None)
        if h is None:
            return
        r = st.norm(ret)
        t = st
        if f.rty == "ptr":
            if not (isinstance(r, V) and (r._nz or 0 in st.neq.get(r, ()))):
                return
        else:
            if r == 0:
                return
            if isinstance(r, V):
                t = st.copy()
                try:
                    t.assume(r, True)
                except Infeasible:
                    return
                self.waiting(t)
        self.site("results_judged:" + s, I)
        h(t, f, [self.param(f, i) for i in range(len(f.params))], r, I)
        st.facts = frozenset(x for x in st.facts if x[0] in KEEP)

    def advanced(self, st, now, was):
        return isinstance(now, V) and now.k == "op" and now.a[0] == "add" and isinstance(now.a[-1], int) and now.a[-1] != 0

    def full(self, st, b, o, n, buf):
        """bytes, offset and length are exactly those of the buffer"""
        return o == 0 and b is base_off(self.bytes_of(st, buf))[0] and self.len_is(st, n, self.field(st, buf, "wickr_buffer", "length"))

    def facts(self, st, *k):
        return [f for f in st.facts if f[:len(k)] == k]

    def digest_ok(self, st, f, I, md, idv):
        """idv: the digest mode's identifier"""
        want = self.digest_id.get(md)
        self.ob(want is not None and st.norm(st.simp(idv) if isinstance(idv, V) else idv) == want,
                "digest", I, f, "OpenSSL's digest is not the one the digest mode names", st)

    def member(self, f, i, struct, name, size):
        """a member of a structure passed by value from parameter i on (in eight-byte pieces)"""
        o = self.fieldof(struct, name)
        p = self.param(f, i + o // 8)
        return p if isinstance(p, V) and p.bits == 8 * size else ext(p, o % 8, size, 8)

    def mode_id(self, f, i):
        return self.member(f, i, "wickr_digest", "digest_id", 4)

    # randomness
    def random_buffer(self, st, f, I, buf, n, what):
        b = base_off(self.bytes_of(st, buf))[0]
        ln = self.field(st, buf, "wickr_buffer", "length")
        ok = any(x[1] is b and x[2] == 0 and self.len_is(st, x[3], ln) for x in self.facts(st, "rand"))
        self.ob(ok, "not-random", I, f, "%s is not completely filled from the random generator" % what, st)
        if n is not None:
            self.ob(self.len_is(st, ln, n), "random-length", I, f, "%s does not have the requested length" % what, st)

    def r_crypto_random(self, st, f, p, r, I):
        self.random_buffer(st, f, I, r, p[0], "the random buffer")

    def r_cipher_key_random(self, st, f, p, r, I):
        kd = self.field(st, r, "wickr_cipher_key", "key_data")
        kl = self.cipher_field(st, r, "key_len")
        self.random_buffer(st, f, I, kd, kl, "the key")

    def sub(self, st, obj, struct, name, inner, field, size):
        b, o = base_off(st.norm(obj))
        return st.norm(self.read(st, b, mkop("add", 64, o, self.fieldof(struct, name) + self.fieldof(inner, field)), size, (inner, field)))

    def cipher_field(self, st, key, name):
        b, o = base_off(st.norm(key))
        return st.norm(self.read(st, b, mkop("add", 64, o, self.fieldof("wickr_cipher_key", "cipher") + self.fieldof("wickr_cipher", name)), 1, ("wickr_cipher", name)))

    def r_cipher_encrypt(self, st, f, p, r, I):
        iv = self.field(st, r, "wickr_cipher_result", "iv")
        b = base_off(self.bytes_of(st, iv))[0]
        if st.norm(p[3]) == 0:
            self.random_buffer(st, f, I, iv, None, "the IV")
            ln = self.field(st, iv, "wickr_buffer", "length")
            self.ob("iv_len" in repr(ln) or isinstance(ln, int) and ln >= 12 or st.lo_hi(ln)[0] >= 12, "random-length", I, f, "the IV does not have the cipher's IV length", st)
        else:
            c = self.content(st, b)
            src = base_off(self.bytes_of(st, p[3]))[0]
            self.ob(c == self.content(st, src), "iv-copy", I, f, "the IV is not the one the caller gave", st)
        self.ob(any(x[0] == "keyed" and x[3] is b for x in st.facts), "iv-used", I, f, "the IV given to OpenSSL is not the returned one", st)

    def r_encrypt_ofile(self, st, f, p, r, I):
        ks = self.facts(st, "keyed")
        self.ob(bool(ks), "iv-used", I, f, "no IV is given to OpenSSL", st)
        for x in ks:
            ok = any(y[1] is x[3] and y[2] == 0 for y in self.facts(st, "rand"))
            self.ob(ok, "not-random", I, f, "the IV is not drawn from the random generator", st)
        self.files(st, f, I)

    def r_decrypt_ofile(self, st, f, p, r, I):
        self.files(st, f, I)

    def files(self, st, f, I):
        """everything read into a buffer whose contents are processed was processed"""
        src = {x[1] for x in self.facts(st, "src")}
        left = [x for x in self.facts(st, "chunk") if st.norm(x[2]) != 0]
        self.ob((bool(src) or self.empty(st)) and not any(x[1] in src for x in left), "chunk-skipped", I, f, "file contents that were read are not processed", st)

    def key_serialized(self, st, f, I, buf, kind, eckeys):
        b = base_off(self.bytes_of(st, buf))[0] if isinstance(buf, V) else None
        return any(x[1] is b and x[3] == kind and x[2] in eckeys for x in self.facts(st, "ser"))

    def r_ec_rand_key(self, st, f, p, r, I):
        ks = {x[1] for x in self.facts(st, "gen")}
        pub, pri = self.field(st, r, "wickr_ec_key", "pub_data"), self.field(st, r, "wickr_ec_key", "pri_data")
        self.ob(self.key_serialized(st, f, I, pub, "public", ks), "key-generation", I, f, "the public key is not that of a freshly generated key", st)
        self.ob(self.key_serialized(st, f, I, pri, "private", ks), "key-generation", I, f, "the private key is not that of a freshly generated key", st)
        self.curve(st, f, I, pub, r, p[0])

    def curve(self, st, f, I, pub, key, idv):
        b = base_off(self.bytes_of(st, pub))[0]
        first = st.norm(self.read(st, b, 0, 1)) if isinstance(b, V) else None
        c = st.norm(self.field(st, key, "wickr_ec_key", "curve", 4))
        ok = first is not None and (st.simp(mkop("eq", 8, first, mkop("trunc", 8, c, 32))) == 1 or isinstance(c, int) and first == (c & 255))
        self.ob(ok, "curve-tag", I, f, "the public key does not start with the identifier of its curve", st)

    def r_ec_key_import(self, st, f, p, r, I):
        pub, pri = self.field(st, r, "wickr_ec_key", "pub_data"), self.field(st, r, "wickr_ec_key", "pri_data")
        keys = self.facts(st, "key")
        private = st.norm(p[1])
        kind = None
        if private == 0:
            kind = "public"
        elif isinstance(private, int) or 0 in st.neq.get(private, ()):
            kind = "private"
        B = base_off(self.bytes_of(st, p[0]))[0]
        L = self.field(st, p[0], "wickr_buffer", "length")
        good = set()
        for x in keys:
            if x[3] is B and (x[2] == "private" and self.len_is(st, x[4], L) or
                              x[2] == "public" and self.len_is(st, x[4], mkop("add", 64, L, -1 % (1 << 64)))) and (kind is None or x[2] == kind):
                good.add(x[1])
        good |= {x[1] for x in self.facts(st, "same") if x[2] in good}
        self.ob(bool(good), "import-input", I, f, "the key is not decoded from the whole input as the kind of key that was asked for", st)
        fin = {x[1] for x in self.facts(st, "finite")}
        self.ob(any(x[1] in fin and x[2] in good for x in self.facts(st, "pointof")), "infinity", I, f,
                "a key whose public point is the point at infinity is accepted", st)
        self.ob(self.key_serialized(st, f, I, pub, "public", good), "import-output", I, f, "the public key is not the imported one", st)
        if kind == "public":
            self.ob(st.norm(pri) == 0, "import-output", I, f, "importing a public key yields a private one", st)
        if kind == "private":
            self.ob(self.key_serialized(st, f, I, pri, "private", good), "import-output", I, f, "the private key is not the imported one", st)
        c = st.norm(self.field(st, r, "wickr_ec_key", "curve", 4))
        self.ob(isinstance(c, int), "import-curve", I, f, "a key on a curve the library does not know is accepted", st)
        self.curve(st, f, I, pub, r, None)

    # signatures
    def pkey_from(self, st, pkey, kind, buf):
        B = base_off(self.bytes_of(st, buf))[0]
        L = self.field(st, buf, "wickr_buffer", "length")
        eks = {x[2] for x in self.facts(st, "pk", pkey)}
        for x in self.facts(st, "key"):
            if x[1] in eks and x[2] == kind and x[3] is B:
                if kind == "private" and self.len_is(st, x[4], L) or kind == "public" and self.len_is(st, x[4], mkop("add", 64, L, -1 % (1 << 64))):
                    return True
        return False

    def data_ok(self, st, f, I, c, bufs, what):
        us = sorted(self.facts(st, "upd", c), key=lambda x: x[2])
        ok = len(us) == len(bufs) and all(self.full(st, u[3], u[4], u[5], b) for u, b in zip(us, bufs))
        self.ob(ok, "data", I, f, "%s does not cover exactly its whole input" % what, st)

    def signed_with(self, st, f, I, c, kind, which, buf):
        ks = [x for x in self.facts(st, "keyed", c) if x[2] == kind]
        self.ob(bool(ks) and all(self.pkey_from(st, x[3], which, buf) for x in ks), "sig-key", I, f, "the key is not the caller's %s key" % which, st)

    def r_ec_sign(self, st, f, p, r, I):
        sd = self.field(st, r, "wickr_ecdsa_result", "sig_data")
        b = base_off(self.bytes_of(st, sd))[0]
        fs = self.facts(st, "fin", b)
        if not self.ob(bool(fs), "unsigned", I, f, "the returned signature is not what OpenSSL produced", st):
            return
        for x in fs:
            self.signed_with(st, f, I, x[2], "sign", "private", self.field(st, p[0], "wickr_ec_key", "pri_data"))
            self.data_ok(st, f, I, x[2], [p[1]], "the signature")
            for y in self.facts(st, "md", x[2]):
                self.digest_ok(st, f, I, y[2], self.mode_id(f, 2))
        dm = st.norm(self.sub(st, r, "wickr_ecdsa_result", "digest_mode", "wickr_digest", "digest_id", 4))
        self.ob(self.len_is(st, dm, st.norm(self.mode_id(f, 2))), "sig-digest", I, f, "the signature does not name the digest it was made with", st)
        cv = st.norm(self.field(st, r, "wickr_ecdsa_result", "curve", 4))
        self.ob(self.len_is(st, cv, self.field(st, p[0], "wickr_ec_key", "curve", 4)), "sig-curve", I, f, "the signature does not name its key's curve", st)

    def r_ec_verify(self, st, f, p, r, I):
        vs = self.facts(st, "verified")
        if not self.ob(bool(vs), "unverified", I, f, "a signature is accepted although OpenSSL has not verified it", st):
            return
        for x in vs:
            c = x[1]
            sd = self.field(st, p[0], "wickr_ecdsa_result", "sig_data")
            self.ob(self.full(st, x[2], x[3], x[4], sd), "sig-bytes", I, f, "not exactly the whole signature is verified", st)
            self.signed_with(st, f, I, c, "verify", "public", self.field(st, p[1], "wickr_ec_key", "pub_data"))
            self.data_ok(st, f, I, c, [p[2]], "the verification")
            ms = self.facts(st, "md", c)
            self.ob(bool(ms), "digest", I, f, "no digest is set", st)
            for y in ms:
                self.digest_ok(st, f, I, y[2], self.sub(st, p[0], "wickr_ecdsa_result", "digest_mode", "wickr_digest", "digest_id", 4))

    # digests and MACs
    def r_digest(self, st, f, p, r, I):
        b = base_off(self.bytes_of(st, r))[0]
        fs = self.facts(st, "fin", b)
        if not self.ob(bool(fs), "no-digest", I, f, "the returned bytes are not the digest", st):
            return
        for x in fs:
            salt = st.norm(p[1])
            self.data_ok(st, f, I, x[2], [p[0]] if salt == 0 else [p[0], p[1]], "the digest")
            for y in self.facts(st, "md", x[2]):
                self.digest_ok(st, f, I, y[2], self.mode_id(f, 2))
        self.outlen(st, f, I, r, 2, "the digest")

    def outlen(self, st, f, I, buf, i, what):
        ln = self.field(st, buf, "wickr_buffer", "length")
        want = self.member(f, i, "wickr_digest", "size", 1)
        self.ob(self.len_is(st, ln, want), "out-length", I, f, "%s does not have the digest's size" % what, st)

    def r_digest_file(self, st, f, p, r, I):
        b = base_off(self.bytes_of(st, r))[0]
        fs = self.facts(st, "fin", b)
        if not self.ob(bool(fs), "no-digest", I, f, "the returned bytes are not the digest", st):
            return
        for x in fs:
            self.ob(bool(self.facts(st, "upd", x[2])) or self.empty(st), "data", I, f, "no file content is digested", st)
            for y in self.facts(st, "md", x[2]):
                self.digest_ok(st, f, I, y[2], self.mode_id(f, 1))
        self.files(st, f, I)
        self.outlen(st, f, I, r, 1, "the digest")

    def hmac_ok(self, st, f, I, b, data, key, mode, ln):
        hs = self.facts(st, "hmac", b)
        if not self.ob(bool(hs), "no-mac", I, f, "the MAC is not the one OpenSSL computed", st):
            return
        for x in hs:
            self.ob(self.full(st, x[3], x[4], x[5], key), "mac-key", I, f, "the MAC is not computed with the whole key", st)
            self.ob(self.full(st, x[6], x[7], x[8], data), "mac-data", I, f, "the MAC does not cover the whole input", st)
            self.digest_ok(st, f, I, x[2], mode)
            if ln is not None:
                n = self.plain(st, x[9])
                self.ob(self.len_is(st, n, ln) or "HMAC" in repr(n) and st.lo_hi(n)[0] > 0, "out-length", I, f, "the MAC is not of the expected size", st)

    def r_hmac_create(self, st, f, p, r, I):
        b = base_off(self.bytes_of(st, r))[0]
        self.hmac_ok(st, f, I, b, p[0], p[1], self.mode_id(f, 2), self.field(st, r, "wickr_buffer", "length"))
        self.outlen(st, f, I, r, 2, "the MAC")

    def r_hmac_verify(self, st, f, p, r, I):
        es = self.facts(st, "equal")
        E = base_off(self.bytes_of(st, p[4]))[0]
        n = self.field(st, p[4], "wickr_buffer", "length")
        ok = False
        for x in es:
            other = x[1] if x[3] is E else x[3]
            if E in (x[1], x[3]) and x[2] == 0 and x[4] == 0 and self.facts(st, "hmac", other):
                if self.ob(self.len_is(st, x[5], n), "mac-compare", I, f, "not the whole MAC is compared", st):
                    ok = True
                    self.hmac_ok(st, f, I, other, p[0], p[1], self.mode_id(f, 2), None)
                    self.ob(self.len_is(st, n, self.member(f, 2, "wickr_digest", "size", 1)), "mac-length", I, f, "a MAC that is not of the digest's size is accepted", st)
        self.ob(ok, "mac-unchecked", I, f, "a MAC is accepted that was not compared, in constant time, with the computed one", st)

    # key agreement
    def r_gen_shared_secret(self, st, f, p, r, I):
        b = base_off(self.bytes_of(st, r))[0]
        ds = self.facts(st, "derive", b)
        if not self.ob(bool(ds), "no-derivation", I, f, "the returned bytes are not the shared secret", st):
            return
        for x in ds:
            self.signed_with(st, f, I, x[2], "derive", "private", self.field(st, p[0], "wickr_ec_key", "pri_data"))
            ps = self.facts(st, "peer", x[2])
            self.ob(bool(ps) and all(self.pkey_from(st, y[2], "public", self.field(st, p[1], "wickr_ec_key", "pub_data")) for y in ps),
                    "peer-key", I, f, "the secret is not derived with the peer's public key", st)

    def hkdf(self, st, f, p, r, I, salt, info, mode, expand, n):
        b = base_off(self.bytes_of(st, r))[0]
        ds = self.facts(st, "derive", b)
        if not self.ob(bool(ds), "no-derivation", I, f, "the returned bytes are not derived", st):
            return
        for x in ds:
            c = x[2]
            self.ob(any(y[3] == HKDF_NID for y in self.facts(st, "keyed", c)), "hkdf", I, f, "the derivation is not HKDF", st)
            for what, buf in (("key", p[0]), ("salt", salt), ("info", info)):
                hs = [y for y in self.facts(st, "hk", c) if y[2] == what]
                if buf is None or st.norm(buf) == 0:
                    self.ob(not hs, "hkdf-" + what, I, f, "an HKDF %s is used that the caller did not give" % what, st)
                else:
                    self.ob(len(hs) == 1 and self.full(st, hs[0][3], hs[0][4], hs[0][5], buf), "hkdf-" + what, I, f, "the derivation does not use the caller's whole %s" % what, st)
            ms = {y[2] for y in self.facts(st, "hkmode", c)}
            self.ob(ms == ({2} if expand else set()) or not expand and ms == {0}, "hkdf-mode", I, f, "HKDF runs in the wrong mode", st)
            mds = self.facts(st, "md", c)
            self.ob(bool(mds), "digest", I, f, "no digest is set", st)
            for y in mds:
                self.digest_ok(st, f, I, y[2], mode)

    def r_hkdf(self, st, f, p, r, I):
        self.hkdf(st, f, p, r, I, p[1], p[2], self.mode_id(f, 3), False, None)

    def r_hkdf_expand(self, st, f, p, r, I):
        self.hkdf(st, f, p, r, I, None, p[1], self.mode_id(f, 2), True, None)

    # raw signatures
    def r_ecdsa_to_raw(self, st, f, p, r, I):
        b = base_off(self.bytes_of(st, r))[0]
        ln = self.field(st, r, "wickr_buffer", "length")
        half = mkop("udiv", 64, ln, 2)
        sd = self.field(st, p[0], "wickr_ecdsa_result", "sig_data")
        B, L = base_off(self.bytes_of(st, sd))[0], self.field(st, sd, "wickr_buffer", "length")
        self.ob(any(x[2] == "sig" and x[3] is B and self.len_is(st, x[4], L) for x in self.facts(st, "key")), "raw-input", I, f, "not the whole signature is decoded", st)
        ps = self.facts(st, "pad", b)
        self.ob(any(x[2] == 0 and x[4] == "ECDSA_SIG_get0_r" for x in ps) and
                any(self.len_is(st, x[2], x[3]) and x[4] == "ECDSA_SIG_get0_s" for x in ps) and len(ps) == 2 and len({x[3] for x in ps}) == 1,
                "raw-halves", I, f, "the raw form is not r followed by s", st)

    def r_ecdsa_from_raw(self, st, f, p, r, I):
        B = base_off(self.bytes_of(st, p[3]))[0]
        sd = self.field(st, r, "wickr_ecdsa_result", "sig_data")
        sb = base_off(self.bytes_of(st, sd))[0]
        ss = [x for x in self.facts(st, "ser", sb) if x[3] == "sig"]
        ok = False
        for x in ss:
            for y in self.facts(st, "rs", x[2]):
                rr = [z for z in self.facts(st, "bn", y[2]) if z[2] is B and z[3] == 0]
                s2 = [z for z in self.facts(st, "bn", y[3]) if z[2] is B and z[3] != 0]
                ok = ok or bool(rr) and bool(s2) and rr[0][4] == s2[0][4] == s2[0][3]
        self.ob(ok, "raw-halves", I, f, "the signature is not built from r and s in the raw form's halves", st)


KEEP = {"rand", "hmac", "ivhmac", "chunk", "want", "when", "whennz", "eaten", "ended", "at-end"}
C03 = {"not-random", "random-length", "iv-copy", "iv-used", "key-generation", "iv-origin", "iv-repeats", "iv-input"}


def analyse(m, tier):
    e = Prims(m, tier)
    e.run([f for f in e.roots if f in m.funcs])
    e.run(e.all_functions(), required=False)
    missing = sorted(s for s in JUDGED if "results_judged:" + s not in e.sites)
    if missing:
        raise AnalysisError("no successful outcome found for: " + ", ".join(missing))
    return e


JUDGED = {"crypto_random", "cipher_key_random", "cipher_encrypt", "encrypt_ofile", "decrypt_ofile", "digest", "digest_file", "ec_rand_key", "ec_key_import", "ec_sign",
          "ec_verify", "ecdsa_to_raw", "ecdsa_from_raw", "gen_shared_secret", "hmac_create", "hmac_verify", "hkdf", "hkdf_expand"}


def run_C03(m, tier):
    e = analyse(m, tier)
    r = Result("provenance of random bytes, generated keys and IVs in every successful outcome of the functions that implement or use the engine")
    r.take(e, C03)
    r.engine_cover(e)
    r.floor("draws of random bytes", len(e.sites.get("random_draws", ())), 1)
    r.floor("encryptions through the engine", len(e.sites.get("encryptions", ())), 5)
    r.floor("IV derivations", len(e.sites.get("iv_derivations", ())), 1)
    r.floor("kinds of results judged", sum(1 for k in e.sites if k.startswith("results_judged:")), 12)
    return r


def run_C05(m, tier):
    e = analyse(m, tier)
    r = Result("provenance of inputs of signatures, MACs, digests, key imports and key agreements in every successful outcome of their implementations")
    for x in e.reports.values():
        if x.rule in C05:
            r.reports.append(x)
    r.engine_cover(e)
    for k, n in (("verifications", 1), ("macs", 1), ("constant_time_comparisons", 1), ("derivations", 2), ("infinity_checks", 1), ("digest_inits", 2)):
        r.floor(k, len(e.sites.get(k, ())), n)
    r.floor("kinds of results judged", sum(1 for k in e.sites if k.startswith("results_judged:")), 12)
    return r


C05 = {"digest", "curve-tag", "import-input", "infinity", "import-output", "import-curve", "data", "sig-key", "unsigned", "sig-digest", "sig-curve", "unverified",
       "sig-bytes", "no-digest", "out-length", "chunk-skipped", "input-cut", "no-mac", "mac-key", "mac-data", "mac-compare", "mac-length", "mac-unchecked",
       "no-derivation", "peer-key", "hkdf", "hkdf-key", "hkdf-salt", "hkdf-info", "hkdf-mode", "raw-input", "raw-halves"}

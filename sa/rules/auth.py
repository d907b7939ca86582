"""C01: what is decrypted was authenticated, and what is encrypted can be."""
from base import Base, Result, enum, engine_impl
from engine import V, mk, mkop, base_off
from models import lab, NOC

SET_TAG, GET_TAG = 0x11, 0x10
MODE = {"EVP_aes_256_gcm": "gcm", "EVP_aes_256_ctr": "ctr"}
FILEROOTS = {"wickr_crypto_engine_encrypt_ofile", "wickr_crypto_engine_decrypt_ofile"}
DEC = ("wickr_crypto_engine_cipher_decrypt", "wickr_crypto_engine_decrypt_ofile")
ENC = ("wickr_crypto_engine_cipher_encrypt", "wickr_crypto_engine_encrypt_ofile")


def origin(v):
    """the library call a value came from"""
    while isinstance(v, V) and v.k in ("ret", "new") and isinstance(v.a[1], V):
        v = v.a[1]
    return v.a[1] if isinstance(v, V) and v.k in ("ret", "new") else None


class Auth(Base):
    """typestate of one OpenSSL cipher context, as facts on it:
       mode, keyed, aad, data, dec/enc (bytes were produced), final, tag (expected tag given) / gettag"""
    FACTS = "all"

    def __init__(self, m, tier):
        super().__init__(m, tier)
        impl = engine_impl(m)
        self.rootslot = {fn: s for s in DEC + ENC for fn in impl.get(s, ())}
        self.ids = {"gcm": enum(m, "CIPHER_ID_AES256_GCM"), "ctr": enum(m, "CIPHER_ID_AES256_CTR")}

    def has(self, st, *k):
        return any(f[:len(k)] == k for f in st.facts)

    def add(self, st, *f):
        st.facts = st.facts | {f}

    def bytes_of(self, st, obj, off=0):
        """the storage of a buffer object"""
        obj = st.norm(obj)
        if not isinstance(obj, V):
            return None
        b, o = base_off(obj)
        p = st.norm(self.read(st, b, mkop("add", 64, o, self.fieldof("wickr_buffer", "bytes")), 8, ("wickr_buffer", "bytes")))
        return p

    def field(self, st, obj, struct, name, size=8):
        b, o = base_off(st.norm(obj))
        if not isinstance(b, V):
            return 0
        return st.norm(self.read(st, b, mkop("add", 64, o, self.fieldof(struct, name)), size, (struct, name)))

    # -- events on the context
    def on_external(self, st, I, name, args, r):
        if name in ("EVP_EncryptInit_ex", "EVP_DecryptInit_ex"):
            c = base_off(st.norm(args[0]))[0]
            cipher = st.norm(args[1])
            if isinstance(cipher, V):
                self.site("cipher_init", I)
                mode = MODE.get(origin(cipher))
                self.drop(st, "mode", c)
                self.when(st, 1, r, "mode", c, mode or "?")
            if st.norm(args[3]) != 0:
                k = base_off(st.norm(args[3]))[0]
                iv = base_off(st.norm(args[4]))[0]
                if isinstance(iv, V):
                    self.when(st, 1, r, "keyed", c, k, iv)
        elif name in ("EVP_EncryptUpdate", "EVP_DecryptUpdate"):
            c = base_off(st.norm(args[0]))[0]
            src = base_off(st.norm(args[3]))
            if src[1] != 0:
                src = (0, 0)
            if st.norm(args[1]) == 0:
                self.when(st, 1, r, "aad", c, src[0], st.norm(args[4]))
            else:
                out = base_off(st.norm(args[1]))[0]
                self.drop(st, "final", c)
                self.add(st, "dec" if "Decrypt" in name else "enc", c)
                self.add(st, "out", c, out)
                self.when(st, 1, r, "data", c, src[0], st.norm(args[4]))
        elif name in ("EVP_EncryptFinal_ex", "EVP_DecryptFinal_ex"):
            c = base_off(st.norm(args[0]))[0]
            self.when(st, 1, r, "final", c)
        elif name == "EVP_CIPHER_CTX_ctrl":
            c = base_off(st.norm(args[0]))[0]
            op = st.norm(args[1])
            if op in (SET_TAG, GET_TAG):
                b, off = base_off(st.norm(args[3]))
                n = st.norm(args[2])
                self.site("tag_set" if op == SET_TAG else "tag_get", I)
                if op == GET_TAG:
                    self.oblige(self.has(st, "final", c), "tag-early", I, "the tag is taken before the encryption is finished", "early", st)
                    self.set_content(st, b, [lab("tag", NOC)])
                if op == GET_TAG:
                    self.when(st, 1, r, "gettag", c, b, n)
                else:
                    self.when(st, 1, r, "tag", c, b, n, self.whole(st, b, n))
        elif name in ("rewind", "fseek", "fseeko") and self.has(st, "gettag"):
            self.add(st, "rewound")
        elif name == "fwrite" and self.has(st, "rewound"):
            self.add(st, "tagwritten")

    # -- engine callers
    def on_slot(self, st, I, slot, args, r):
        if slot in ("wickr_crypto_engine_cipher_decrypt", "wickr_crypto_engine_decrypt_ofile", "wickr_crypto_engine_decrypt_file"):
            self.site("decrypt_calls", I)
            if st.norm(args[3]) != 1 and not (isinstance(st.norm(args[3]), V) and st.norm(args[3]).k == "arg"):
                self.add(st, "unauth", slot)

    def taglen(self, st, root, cipherof, tagbuf, n):
        """the expected length is the cipher's tag length, and the tag buffer has it"""

    def on_return(self, st, f, ret, I):
        if self.ctx or ret is None or not st.facts:
            return
        self.waiting(st)
        r = st.norm(ret)
        good = (r._nz or 0 in st.neq.get(r, ())) if isinstance(r, V) else r != 0
        if not f.internal and self.has(st, "unauth"):
            if f.name.startswith("wickr_ecdh_cipher_ctx_"):
                self.drop(st, "unauth")
            elif good:
                self.oblige(False, "unauthenticated-accepted", I, "%s accepts ciphertext of an unauthenticated cipher" % f.name, f.name, st)
                self.drop(st, "unauth")
        s = self.rootslot.get(f.name)
        if s is None:
            return
        if good:
            (self.check_dec if s in DEC else self.check_enc)(st, f, s, r, I)
        st.facts = frozenset()

    def ob(self, ok, rule, I, f, msg, st):
        if I is None and not ok:
            I = next((i for b in f.blocks.values() for i in b if i.dbg), None)
            self.fnstack.append(f.name)
            try:
                return self.oblige(ok, rule, I, "%s: %s" % (f.name, msg), "%s:%s" % (f.name, msg), st)
            finally:
                self.fnstack.pop()
        return self.oblige(ok, rule, I, "%s: %s" % (f.name, msg), "%s:%s" % (f.name, msg), st)

    def known(self, st, op, bits, a, b):
        return st.simp(mkop(op, bits, a, b)) == 1

    def authenticated(self, st, ids):
        pass

    def common(self, st, f, s, I, c, key, aad):
        modes = {x[2] for x in st.facts if x[0] == "mode" and x[1] == c}
        if not self.ob(len(modes) == 1 and "?" not in modes, "cipher-mode", I, f, "the context's cipher is not one of the library's", st):
            return None
        mode = modes.pop()
        ko = [x for x in st.facts if x[0] == "keyed" and x[1] == c]
        kd = self.field(st, key, "wickr_cipher_key", "key_data")
        self.ob(any(x[2] == base_off(self.bytes_of(st, kd))[0] for x in ko), "cipher-key", I, f, "the context is not keyed with the caller's key", st)
        self.ob(st.norm(self.field(st, key, "wickr_cipher_key", "cipher", 4)) == self.ids[mode], "cipher-key-id", I, f,
                "the key is used with a cipher it is not for", st)
        if aad is not None and st.norm(aad) != 0:
            ok = any(x[0] == "aad" and x[1] == c and x[2] == base_off(self.bytes_of(st, aad))[0] and
                     self.len_is(st, x[3], self.field(st, aad, "wickr_buffer", "length")) for x in st.facts)
            self.ob(ok, "aad-skipped", I, f, "the additional data is not authenticated", st)
        return mode

    def plain(self, st, n):
        n = st.norm(n)
        while isinstance(n, V) and n.k == "op" and (n.a[0] in ("zext", "sext") or n.a[0] == "trunc" and (n.a[1] >= 32 or self.fits(st, n))):
            n = st.norm(n.a[2])
        return n

    def fits(self, st, n):
        """truncating loses nothing"""
        return st.lo_hi(n.a[2])[1] < 1 << n.a[1]

    def len_is(self, st, n, want):
        n = self.plain(st, n)
        if n is want or n == want:
            return True
        return isinstance(n, (int, V)) and isinstance(want, (int, V)) and st.simp(mkop("eq", 64, n, want)) == 1

    def check_dec(self, st, f, s, r, I):
        P = [self.param(f, i) for i in range(len(f.params))]
        file = s in FILEROOTS
        key, aad, only = (P[1], None, P[3]) if file else (P[2], P[1], P[3])
        cs = {x[1] for x in st.facts if x[0] == "dec" or file and x[0] == "final"}      # there may be nothing in a file
        if not self.ob(bool(cs), "no-decryption", I, f, "reports success without decrypting", st):
            return
        for c in cs:
            self.ob(self.has(st, "final", c), "not-verified", I, f, "plaintext is returned although EVP_DecryptFinal_ex has not succeeded", st)
            mode = self.common(st, f, s, I, c, key, aad)
            if mode is None:
                continue
            if mode == "gcm":
                tags = [x for x in st.facts if x[0] == "tag" and x[1] == c]
                if self.ob(bool(tags), "tag-not-set", I, f, "the expected tag is not given to OpenSSL", st):
                    for x in tags:
                        self.tag_ok(st, f, x, I)
            else:
                o = st.norm(only)
                self.ob(o == 0 or self.authflag(st, P, s), "unauthenticated-accepted", I, f,
                        "an unauthenticated cipher is accepted although the caller asks for authentication", st)
            if not file:
                ct = self.field(st, P[0], "wickr_cipher_result", "cipher_text")
                ok = any(x[0] == "data" and x[1] == c and x[2] == base_off(self.bytes_of(st, ct))[0] and
                         self.len_is(st, x[3], self.field(st, ct, "wickr_buffer", "length")) for x in st.facts)
                self.ob(ok, "partial", I, f, "not all of the ciphertext is decrypted", st)
                iv = self.field(st, P[0], "wickr_cipher_result", "iv")
                self.ob(any(x[0] == "keyed" and x[1] == c and x[3] == base_off(self.bytes_of(st, iv))[0] for x in st.facts), "iv", I, f,
                        "the IV is not the one that came with the ciphertext", st)

    def authflag(self, st, P, s):
        """the cipher of the (caller-built) input claims to be authenticated"""
        if s in FILEROOTS:
            return False
        x = self.field(st, P[0], "wickr_cipher", "is_authenticated", 1)
        return isinstance(x, int) and x != 0 or isinstance(x, V) and 0 in st.neq.get(x, ())

    def tag_ok(self, st, f, x, I):
        b, n = x[2], st.norm(x[3])
        # the storage is that of the tag of a cipher result, and it is as long as the cipher's tag
        self.site("tag_length", I)
        self.ob(x[4], "tag-length", I, f, "the tag that came with the ciphertext need not be as long as the cipher's tag", st)
        self.ob(isinstance(n, int) and n >= 16 or self.is_taglen(st, n), "tag-length", I, f, "the tag given to OpenSSL need not be as long as the cipher's tag", st)

    def whole(self, st, b, n):
        """the buffer whose storage this is holds (at least) n bytes"""
        owner = b.a[0] if isinstance(b, V) and b.k == "L" and b.a[1] == self.fieldof("wickr_buffer", "bytes") else \
            next((k for k, o in st.mem.items() if any(c[1] is b for c in o.cells.values()) and o.status != "alloca"), None)
        if owner is None:
            return False
        if isinstance(owner, V) and owner.k == "L" and owner.field == ("wickr_cipher_result", "auth_tag"):
            if st.norm(self.field(st, owner.a[0], "wickr_cipher", "is_authenticated", 1)) == 0:
                return True         # a result that claims to have no tag: not for an authenticated cipher
        have = self.field(st, owner, "wickr_buffer", "length")
        return self.len_is(st, n, have) or isinstance(n, int) and st.lo_hi(have)[0] >= n

    def is_taglen(self, st, n):
        n = st.norm(n)
        for _ in range(3):
            if isinstance(n, V) and n.k == "op" and n.a[0] in ("trunc", "zext", "sext"):
                n = n.a[2]
        if isinstance(n, V) and n.k == "L" and n.field == ("wickr_cipher", "auth_tag_len"):
            return True
        if isinstance(n, V):
            for c, v in st.eq.items():
                if v == 1 and c.k == "op" and c.a[0] == "eq" and n in (c.a[2], c.a[3]):
                    o = c.a[3] if c.a[2] is n else c.a[2]
                    if isinstance(o, V) and o is not n and "auth_tag_len" in repr(o):
                        return True
        return False

    def check_enc(self, st, f, s, r, I):
        P = [self.param(f, i) for i in range(len(f.params))]
        file = s in FILEROOTS
        key, aad = (P[1], None) if file else (P[2], P[1])
        cs = {x[1] for x in st.facts if x[0] == "enc" or file and x[0] == "final"}
        if not self.ob(bool(cs), "no-encryption", I, f, "reports success without encrypting", st):
            return
        for c in cs:
            self.ob(self.has(st, "final", c), "not-finished", I, f, "ciphertext is returned although EVP_EncryptFinal_ex has not succeeded", st)
            mode = self.common(st, f, s, I, c, key, aad)
            if mode is None:
                continue
            if mode == "gcm" and st.norm(self.field(st, key, "wickr_cipher", "is_authenticated", 1)) != 0:
                tags = [x for x in st.facts if x[0] == "gettag" and x[1] == c]
                if self.ob(bool(tags), "no-tag", I, f, "the tag is not taken from OpenSSL", st):
                    if file:
                        self.ob(self.has(st, "tagwritten"), "tag-not-stored", I, f, "the tag is not written to the file", st)
                    else:
                        t = base_off(self.bytes_of(st, self.field(st, r, "wickr_cipher_result", "auth_tag")))[0]
                        self.ob(all(x[2] == t for x in tags), "tag-not-returned", I, f, "the returned tag is not the one of this encryption", st)
            if not file:
                pt = P[0]
                ok = any(x[0] == "data" and x[1] == c and x[2] == base_off(self.bytes_of(st, pt))[0] and
                         self.len_is(st, x[3], self.field(st, pt, "wickr_buffer", "length")) for x in st.facts)
                self.ob(ok, "partial", I, f, "not all of the plaintext is encrypted", st)
                iv = self.field(st, r, "wickr_cipher_result", "iv")
                self.ob(any(x[0] == "keyed" and x[1] == c and x[3] == base_off(self.bytes_of(st, iv))[0] for x in st.facts), "iv", I, f,
                        "the returned IV is not the one used", st)
                ct = base_off(self.bytes_of(st, self.field(st, r, "wickr_cipher_result", "cipher_text")))[0]
                self.ob(any(x[0] == "out" and x[1] == c and x[2] == ct for x in st.facts), "out", I, f, "the returned bytes are not the ciphertext", st)


def run(m, tier):
    e = Auth(m, tier)
    if len(e.rootslot) < 4:
        from ir import AnalysisError
        raise AnalysisError("the engine has no implementation of encryption or decryption")
    e.run(e.all_functions(), required=False)
    r = Result("typestate of every OpenSSL cipher context from initialisation to the return of plaintext or ciphertext")
    r.take(e, OWN)
    r.engine_cover(e)
    r.floor("cipher initialisations", len(e.sites.get("cipher_init", ())), 4)
    r.floor("decrypt calls through the engine", len(e.sites.get("decrypt_calls", ())), 6)
    return r


OWN = {"tag-early", "unauthenticated-accepted", "cipher-mode", "cipher-key", "cipher-key-id", "aad-skipped", "no-decryption", "not-verified",
       "tag-not-set", "partial", "iv", "tag-length", "no-encryption", "not-finished", "no-tag", "tag-not-stored", "tag-not-returned", "out"}

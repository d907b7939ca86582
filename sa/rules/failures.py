"""C02: no failure of a primitive is swallowed."""
import re
from base import Base, Result
from engine import V, Infeasible, base_off, leafset_deep, mkop
from models import ALLOC_NULL

ONE, NZ, ZERO, POS = "1", "nonzero", "0", "positive"
# library calls whose result says whether they worked
STATUS = {
    "RAND_bytes": ONE, "EVP_EncryptInit_ex": ONE, "EVP_DecryptInit_ex": ONE, "EVP_EncryptUpdate": ONE, "EVP_DecryptUpdate": ONE,
    "EVP_EncryptFinal_ex": ONE, "EVP_DecryptFinal_ex": ONE, "EVP_CIPHER_CTX_ctrl": POS, "EVP_DigestInit_ex": ONE, "EVP_DigestInit": ONE,
    "EVP_DigestUpdate": ONE, "EVP_DigestFinal": ONE, "EVP_DigestFinal_ex": ONE, "EVP_DigestSignInit": ONE, "EVP_DigestVerifyInit": ONE,
    "EVP_DigestSignUpdate": ONE, "EVP_DigestVerifyUpdate": ONE, "EVP_DigestSignFinal": ONE, "EVP_DigestVerifyFinal": ONE,
    "EVP_PKEY_assign": ONE, "EC_KEY_generate_key": ONE, "EVP_PKEY_derive_init": POS, "EVP_PKEY_derive_set_peer": POS, "EVP_PKEY_derive": POS,
    "EVP_PKEY_CTX_ctrl": POS, "EVP_PKEY_CTX_set_hkdf_md": POS, "EVP_PKEY_CTX_set1_hkdf_salt": POS, "EVP_PKEY_CTX_set1_hkdf_key": POS,
    "EVP_PKEY_CTX_add1_hkdf_info": POS, "EVP_PKEY_CTX_hkdf_mode": POS, "EVP_PKEY_CTX_set_hkdf_mode": POS,
    "BN_bn2binpad": POS, "ECDSA_SIG_set0": ONE, "HMAC": NZ, "i2o_ECPublicKey": NZ, "i2d_ECPrivateKey": NZ, "i2d_ECDSA_SIG": POS,
    "libscrypt_scrypt": ZERO, "crypt_rn": NZ, "crypt_gensalt_rn": NZ, "ferror": ZERO, "rename": ZERO, "BN_hex2bn": NZ,
    "EVP_MD_CTX_copy_ex": ONE, "EC_POINT_oct2point": ONE, "EC_KEY_set_public_key": NZ, "EC_KEY_set_private_key": NZ, "EC_POINT_mul": NZ, "EC_KEY_check_key": ONE,
    "SHA256": NZ, "SHA512": NZ, "EVP_Digest": ONE,
}
# those that produce an object, or nothing
OBJ = set(ALLOC_NULL) | {"malloc", "calloc", "realloc", "o2i_ECPublicKey", "d2i_ECPrivateKey", "d2i_ECDSA_SIG", "BN_bin2bn"}
WRITES = {"fwrite"}
VERDICTS = {"slot:wickr_crypto_engine_ec_verify", "slot:wickr_crypto_engine_hmac_verify"}


# functions that answer a question; failing to answer it is the answer "no"
VERDICT_ROOTS = {"wickr_identity_chain_validate", "wickr_node_verify_signature_chain"}


TAGLEN = ("wickr_cipher", "auth_tag_len")


class Failures(Base):
    FACTS = "all"

    def fallible(self, name):
        if name in STATUS:
            return STATUS[name]
        if name in OBJ or name.endswith("__unpack"):
            return NZ
        if name.startswith("slot:") and name not in VERDICTS:
            return NZ
        return None

    def on_result(self, st, I, name, args, r):
        if name in self.m.funcs:
            self.adopt(st, I, name, args)
            return
        c = self.fallible(name)
        if c is None or r is None:
            return
        if name in ("i2o_ECPublicKey", "i2d_ECPrivateKey", "i2d_ECDSA_SIG", "EVP_PKEY_derive", "EVP_DigestSignFinal") \
                and st.norm(args[1]) == 0:
            return          # asks for the length only
        self.site("fallible", I)
        k = self.status(st, c, r)
        if k is None:
            st.facts = st.facts | {("pending", name, c, r)}
        elif k is False:
            n = st.norm(args[-1]) if name in ("malloc", "calloc") else None
            n = n if isinstance(n, V) and n.k in ("arg", "L") else None
            self.fail(st, name, n, I.idx)

    def here(self):
        return self.fnstack[-1] if self.fnstack else "?"

    def fail(self, st, name, size=None, at=None):
        """one failure per path, named by where the function under analysis meets it (paths that failed at
        different places are not joined)"""
        if not any(f[0] == "failed" for f in st.facts):
            st.facts = st.facts | {("failed", name, size, self.here(), at)}

    def adopt(self, st, I, name, args):
        """failures that happened inside a call are this function's, at the call"""
        own = [f for f in st.facts if f[0] == "failed" and f[3] == self.here()]
        got = [f for f in st.facts if f[0] == "failed" and f[3] != self.here()]
        if got:
            st.facts = st.facts - set(got)
            if not own:
                tag = [a for a in map(st.norm, args) if isinstance(a, V) and a.k == "L" and a.field == TAGLEN]
                st.facts = st.facts | {("failed", name, tag[0] if tag else None, self.here(), I.idx)}

    def no_tag(self, st, size):
        """the allocation was for the tag of a cipher that has none (the tables give it length 0: C04)"""
        if not isinstance(size, V) or size.k != "L" or size.field != TAGLEN:
            return False
        lay = self.fieldof("wickr_cipher", "is_authenticated") - self.fieldof("wickr_cipher", "auth_tag_len")
        off = size.a[1]
        return st.norm(self.read(st, size.a[0], off + lay if isinstance(off, int) else off, 1)) == 0

    def verdict_object(self, st, f, r):
        """a result object that says itself that the operation failed"""
        for t in ("wickr_parse_result", "wickr_decode_result"):
            b, off = base_off(r)
            if isinstance(b, V) and off == 0 and b in st.mem and b.k == "new" and f.name.startswith(t):
                x = st.norm(self.read(st, b, self.fieldof(t, "err"), 4))
                return isinstance(x, int) and x != 0 or isinstance(x, V) and 0 in st.neq.get(x, ())
        return False

    def status(self, st, c, r):
        r = st.norm(r)
        if isinstance(r, int):
            if c == ONE:
                return r == 1
            if c == NZ:
                return r != 0
            if c == ZERO:
                return r == 0
            return 0 < r < 2 ** 31
        ne = st.neq.get(r, ())
        if r._nz:
            return c != ZERO
        if c == NZ:
            return True if 0 in ne else None
        if c == ZERO:
            return False if 0 in ne else None
        if c == ONE:
            return False if 1 in ne else None
        lo, hi = st.lo_hi(r)
        if lo >= 1 and hi < 2 ** 31:
            return True
        k = st.simp(mkop("slt", r.bits, 0, r))
        return bool(k) if isinstance(k, int) else None

    def as_announced(self, st, r):
        """the length written is the (non-zero) length announced before"""
        return any(v == 1 and k.k == "op" and k.a[0] == "eq" and r in leafset_deep(k) and len(leafset_deep(k)) > 1
                   for k, v in st.eq.items())

    def settle(self, st):
        p = [f for f in st.facts if f[0] == "pending"]
        for f in p:
            k = self.status(st, f[2], f[3])
            if k is not None:
                st.facts = st.facts - {f}
                if not k:
                    self.fail(st, f[1])

    def on_settle(self, st, rv):
        if st.facts:
            self.settle(st)

    def on_return(self, st, f, ret, I):
        if not st.facts:
            return
        self.settle(st)
        if self.ctx:            # expanded at its call: judged by what its callers report
            r = st.norm(ret) if ret is not None else None
            if isinstance(r, V) and self.verdict_object(st, f, r):
                st.facts = frozenset()
            return
        if f.name in VERDICT_ROOTS:      # their result is the verdict of the signature check; the status cache may be missing
            st.facts = frozenset()
            return
        if ret is None or f.rty not in ("ptr", "i1"):
            return
        r = st.norm(ret)
        good = r._nz or 0 in st.neq.get(r, ()) if isinstance(r, V) else r != 0
        if not good:
            if f.rty == "i1" and isinstance(r, V):
                for x in [x for x in st.facts if x[0] == "failed" and self.no_tag(st, x[2])]:
                    st.facts = st.facts - {x}
                t = st.copy()
                try:
                    t.assume(r, True)
                except Infeasible:
                    return
                self.settle(t)
                self.judge(t, f, r, I)
            return
        if isinstance(r, V) and self.verdict_object(st, f, r):
            st.facts = frozenset()
            return
        self.judge(st, f, r, I)

    def judge(self, st, f, r, I):
        for x in [x for x in st.facts if x[0] in ("failed", "pending")]:
            if x[0] == "pending" and (isinstance(r, V) and x[3] in leafset_deep(r) or self.as_announced(st, x[3])):
                continue
            if x[0] == "failed" and self.no_tag(st, x[2]):
                st.facts = st.facts - {x}
                continue
            self.oblige(False, "failure-swallowed", I, "%s reports success although %s %s" %
                        (f.name, x[1], "failed" if x[0] == "failed" else "may have failed (its result is not checked)"),
                        "%s:%s" % (f.name, x[1]), st)
            st.facts = st.facts - {x}


def run(m, tier):
    e = Failures(m, tier)
    e.run(e.all_functions(), required=False)
    r = Result("typestate dataflow over every function: the result of each fallible call (allocation, OpenSSL status, engine slot, "
               "protobuf decoding) is known to mean success on every abstract path on which the function reports success")
    r.take(e, {"failure-swallowed"})
    r.engine_cover(e)
    r.floor("call sites of fallible operations", len(e.sites.get("fallible", ())), 60)
    return r

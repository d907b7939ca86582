"""I01: a chain, a node or a key pair is valid only if its signatures were verified over the right keys, and what is created is signed by the
right key.  I02: a remembered verdict stands for exactly what was verified."""
from base import Result, enum
from engine import V, mkop, base_off, Infeasible
from rules.terms import Terms

CH, ND, EK, ID = "wickr_identity_chain", "wickr_node", "wickr_ephemeral_keypair", "wickr_identity"
GEN = ["wickr_ctx_gen_new", "wickr_ctx_gen_new_with_sig_key", "wickr_ctx_gen_with_passphrase", "wickr_ctx_gen_with_recovery", "wickr_ctx_gen_with_root_keys"]


class Identity(Terms):
    def __init__(self, m, tier):
        super().__init__(m, tier)
        self.roots = {"wickr_identity_chain_validate": "chain", "wickr_node_verify_signature_chain": "node",
                      "wickr_ephemeral_keypair_verify_owner": "owner", "wickr_node_identity_gen": "nodegen",
                      "wickr_ephemeral_keypair_generate_identity": "keygen", "wickr_identity_sign": "sign",
                      "wickr_ctx_ephemeral_keypair_gen": "ctxkeygen"}
        self.roots.update({g: "ctxgen" for g in GEN})
        self.cvalid, self.nvalid = enum(m, "IDENTITY_CHAIN_STATUS_VALID"), enum(m, "NODE_STATUS_VALID")
        self.unknown = {enum(m, "IDENTITY_CHAIN_STATUS_UNKNOWN"), enum(m, "NODE_STATUS_UNKNOWN")}
        self.root, self.node = enum(m, "IDENTITY_TYPE_ROOT"), enum(m, "IDENTITY_TYPE_NODE")

    # -- what has been verified
    def chain_verified(self, st, c, pre):
        return self.found(st, "verified", self.C(st, c, pre + ".node.signature.sig_data"), self.C(st, c, pre + ".root.sig_key.pub_data"),
                          self.C(st, c, pre + ".node.sig_key.pub_data"))

    def key_verified(self, st, n):
        return self.found(st, "verified", self.C(st, n, ND + ".ephemeral_keypair.signature.sig_data"), self.C(st, n, ND + ".id_chain.node.sig_key.pub_data"),
                          self.C(st, n, ND + ".ephemeral_keypair.ec_key.pub_data"))

    def remembered(self, st, v, cache, wants, status, size=4):
        """the cache was compared with a digest over the wanted parts and the status"""
        cache = self.C(st, v, cache)
        sv = self.at(st, v, status, size)
        for x in st.facts:
            if x[0] == "equal":
                for a, b in ((x[1], x[2]), (x[2], x[1])):
                    if self.same(b, cache):
                        for h in self.terms(a, "hash"):
                            if self.covers(st, h.a[1] | h.a[2], wants, sv):
                                return True
        return False

    def covers(self, st, c, wants, sv):
        p = self.parts(c) or [c]
        flat = frozenset().union(*p)
        vals = [x.a[2] for x in self.terms(flat, "val")]
        return all(any(self.same(q, w) for q in p) for w in wants) and any(self.shows(st, v, sv) for v in vals)

    def shows(self, st, v, sv):
        """the value is the status (or its low byte)"""
        v, w = self.plain8(st, v), st.norm(sv)
        if v is w or v == w:
            return True
        w = self.plain8(st, w)
        return v is w or v == w

    def plain8(self, st, v):
        v = st.norm(v)
        while isinstance(v, V) and v.k in ("op", "ext"):
            if v.k == "op" and v.a[0] in ("zext", "sext", "trunc"):
                v = st.norm(v.a[2])
            elif v.k == "ext":
                v = st.norm(v.a[0])
            else:
                break
        return v

    def chain_remembered(self, st, c, pre):
        return self.remembered(st, c, pre + "._status_cache",
                               [self.C(st, c, pre + ".root.sig_key.pub_data"), self.C(st, c, pre + ".node.signature.sig_data"), self.C(st, c, pre + ".node.sig_key.pub_data")],
                               pre + ".status") and st.norm(self.at(st, c, pre + ".status", 4)) == self.cvalid

    def chain_current(self, st, c, pre):
        return self.chain_verified(st, c, pre) or self.remembered(
            st, c, pre + "._status_cache",
            [self.C(st, c, pre + ".root.sig_key.pub_data"), self.C(st, c, pre + ".node.signature.sig_data"), self.C(st, c, pre + ".node.sig_key.pub_data")], pre + ".status")

    def node_remembered(self, st, n):
        cc = self.C(st, n, ND + ".id_chain._status_cache")
        return self.chain_current(st, n, ND + ".id_chain") and st.norm(self.at(st, n, ND + ".status", 4)) == self.nvalid and \
            self.remembered(st, n, ND + "._status_cache", [self.C(st, n, ND + ".ephemeral_keypair.ec_key.pub_data"),
                                                           self.C(st, n, ND + ".ephemeral_keypair.signature.sig_data"), cc], ND + ".status")

    # -- verdicts
    def r_chain(self, st, f, p, r, I):
        ok = self.chain_verified(st, p[0], CH) or self.chain_remembered(st, p[0], CH)
        self.ob(ok, "chain-unverified", I, f, "a chain is reported valid although the root's signature over the node's key was not verified", st)

    def r_node(self, st, f, p, r, I):
        if self.node_remembered(st, p[0]):
            return
        pre = ND + ".id_chain"
        ok = self.chain_verified(st, p[0], pre) or self.chain_remembered(st, p[0], pre)
        self.ob(ok, "node-chain-unverified", I, f, "a node is reported valid although its identity chain was not verified", st)
        self.ob(self.key_verified(st, p[0]), "node-key-unverified", I, f,
                "a node is reported valid although its node key's signature over the ephemeral key was not verified", st)

    def r_owner(self, st, f, p, r, I):
        ok = self.found(st, "verified", self.C(st, p[0], EK + ".signature.sig_data"), self.C(st, p[2], ID + ".sig_key.pub_data"), self.C(st, p[0], EK + ".ec_key.pub_data"))
        self.ob(ok, "owner-unverified", I, f, "ownership of a key is confirmed although the owner's signature over it was not verified", st)

    def signed(self, st, sig, key, data):
        """sig: content of the signature; made with the key over the data"""
        return any(self.same(x.a[1], key) and self.same(x.a[2], data) for x in self.terms(sig, "signed"))

    def r_sign(self, st, f, p, r, I):
        ok = self.signed(st, self.by(st, r, "wickr_ecdsa_result.sig_data"), self.C(st, p[0], ID + ".sig_key.pri_data"), self.C(st, p[2]))
        self.ob(ok, "signature", I, f, "the signature is not the identity's over the data", st)

    def r_nodegen(self, st, f, p, r, I):
        ok = self.signed(st, self.by(st, r, ID + ".signature.sig_data"), self.C(st, p[1], ID + ".sig_key.pri_data"), self.by(st, r, ID + ".sig_key.pub_data"))
        self.ob(ok, "node-signature", I, f, "the new node identity does not carry the root's signature over its public key", st)
        self.ob(st.norm(self.at(st, r, ID + ".type", 4)) == self.node, "identity-type", I, f, "the new identity is not a node identity", st)
        self.ob(st.norm(self.at(st, p[1], ID + ".type", 4)) == self.root, "identity-type", I, f, "an identity that is not a root signs a node", st)

    def r_keygen(self, st, f, p, r, I, who=None):
        key = self.C(st, p[2], ID + ".sig_key.pri_data") if who is None else who
        ok = self.signed(st, self.by(st, r, EK + ".signature.sig_data"), key, self.by(st, r, EK + ".ec_key.pub_data"))
        self.ob(ok, "key-signature", I, f, "the new key pair does not carry its owner's signature over its public key", st)

    def r_ctxkeygen(self, st, f, p, r, I):
        self.r_keygen(st, f, p, r, I, self.C(st, p[0], "wickr_ctx.id_chain.node.sig_key.pri_data"))

    def r_ctxgen(self, st, f, p, r, I):
        G = "wickr_ctx_gen_result.ctx.id_chain."
        ok = self.signed(st, self.by(st, r, G + "node.signature.sig_data"), self.by(st, r, G + "root.sig_key.pri_data"), self.by(st, r, G + "node.sig_key.pub_data"))
        self.ob(ok, "node-signature", I, f, "the new context's node key does not carry its root key's signature", st)
        a, b = (self.by(st, r, G + "root.sig_key.pri_data"), self.by(st, r, "wickr_ctx_gen_result.root_keys.node_signature_root.pri_data"))
        self.ob(bool(a) and a == b, "root-key", I, f, "the new context's root identity does not have the root signing key", st)
        self.ob(st.norm(self.at(st, r, G + "root.type", 4)) == self.root and st.norm(self.at(st, r, G + "node.type", 4)) == self.node, "identity-type", I, f,
                "the new context's identities have the wrong type", st)

    # -- I02: what is written into status and cache
    def on_store(self, st, I, b, off, size, v):
        super().on_store(st, I, b, off, size, v)
        if I.field in ((CH, "status"), (ND, "status")):
            self.site("status_writes", I)
            self.add(st, "status", I.field[0], b, mkop("sub", 64, off, self.fieldof(*I.field)), I)

    def on_return(self, st, f, ret, I):
        if not self.ctx and not f.internal:
            self.waiting(st)
            for x in [x for x in st.facts if x[0] == "status"]:
                self.written(st, f, *x[1:])
                st.facts = st.facts - {x}
        super().on_return(st, f, ret, I)

    def written(self, st, f, s, b, o, I):
        b, o2 = base_off(st.norm(b))
        if not isinstance(b, V) or st.mem.get(b) is None or st.mem[b].status == "freed":
            return
        v = st.norm(self.read(st, b, mkop("add", 64, o, self.fieldof(s, "status")), 4, (s, "status")))
        good = self.cvalid if s == CH else self.nvalid
        if isinstance(v, int) and v != good:
            return
        self.site("verdicts_written:" + s, I)
        p = b if o == 0 else mkop("add", 64, b, o)
        src = self.plain8(st, v)
        if isinstance(v, V):
            if src.k == "L" and src.field == (s, "status") and not (src.a[0] is b and src.a[1] == mkop("add", 64, o, self.fieldof(s, "status"))):
                self.copied(st, f, s, p, mkop("add", 64, src.a[0], mkop("sub", 64, src.a[1], self.fieldof(s, "status"))) if src.a[1] != self.fieldof(s, "status") else src.a[0], I)
                return
            t = st.copy()
            try:
                t.seteq(v, good)
            except Infeasible:
                return
            self.waiting(t)
            st = t
        if s == CH:
            ok = self.chain_verified(st, p, CH) or self.chain_remembered(st, p, CH)
        else:
            ok = self.key_verified(st, p) and (self.chain_verified(st, p, ND + ".id_chain") or self.chain_remembered(st, p, ND + ".id_chain"))
        self.ob(ok, "verdict-unfounded", I, f, "a %s is marked valid although its signatures were not verified" % s[6:].replace("_", " "), st)

    def copied(self, st, f, s, p, q, I):
        """the verdict of q is given to p: with the digest that binds it to what it is about (or none, and it is computed again)"""
        c = self.at(st, p, s + "._status_cache")
        a, b = self.by(st, p, s + "._status_cache"), self.by(st, q, s + "._status_cache")
        self.ob(c == 0 or bool(a) and a == b, "verdict-copied", I, f, "a %s takes over the verdict on another without what binds it to its parts" % s[6:].replace("_", " "), st)


I01 = {"chain-unverified", "node-chain-unverified", "node-key-unverified", "owner-unverified", "signature", "node-signature", "identity-type", "key-signature", "root-key"}
I02 = {"verdict-unfounded", "verdict-copied", "chain-unverified", "node-chain-unverified", "node-key-unverified"}


def analyse(m, tier):
    e = Identity(m, tier)
    e.run([f for f in e.roots])
    e.run([f for f in e.all_functions() if f not in e.roots], required=False)
    return e


def run_I01(m, tier):
    e = analyse(m, tier)
    r = Result("provenance of signatures and keys from every verification to every verdict, and from every signing key to every new identity").take(e, I01)
    r.engine_cover(e)
    for k in sorted(set(e.roots.values())):
        r.floor("outcomes judged of " + k, len(e.sites.get("results_judged:" + k, ())), 1)
    return r


def run_I02(m, tier):
    e = analyse(m, tier)
    r = Result("every verdict written into a chain or node follows from verified signatures, or is copied together with what it is about").take(e, I02)
    r.engine_cover(e)
    r.floor("status writes", len(e.sites.get("status_writes", ())), 6)
    r.floor("valid chains written", len(e.sites.get("verdicts_written:" + CH, ())), 2)
    r.floor("valid nodes written", len(e.sites.get("verdicts_written:" + ND, ())), 2)
    return r

"""R01: a context consists of the keys and identities it is said to, and a recovered one of those that were saved."""
from base import Result, enum
from engine import V, base_off
from models import lab, NOC
from rules.wire import Wire

RK, CTX, GR, SK, DEV = "wickr_root_keys", "wickr_ctx", "wickr_ctx_gen_result", "wickr_storage_keys", "wickr_dev_info"
KEYS = ("node_signature_root.pri_data", "node_signature_root.pub_data", "node_storage_root.key_data", "remote_storage_root.key_data")
CIPHER = ("cipher_id", "key_len", "iv_len", "auth_tag_len", "is_authenticated")
NEWEST = 4                              # packet version
IDS = {"SHA256": 1, "SHA384": 2, "SHA512": 3}


class Context(Wire):
    roots = {"wickr_root_keys_generate": "fresh", "wickr_root_keys_localize": "local", "wickr_root_keys_export": "saved",
             "wickr_root_keys_create_from_buffer": "parsed", "wickr_ctx_gen_import_recovery": "recovered",
             "wickr_ctx_gen_with_root_keys": "gen", "wickr_ctx_gen_new": "gennew", "wickr_ctx_gen_new_with_sig_key": "gensig",
             "wickr_ctx_gen_with_recovery": "genrec", "wickr_ctx_gen_with_passphrase": "genpass",
             "wickr_ctx_gen_result_make_recovery": "backup", "wickr_ctx_create": "create",
             "wickr_ctx_cipher_local": "seal", "wickr_ctx_cipher_remote": "seal", "wickr_ctx_decipher_local": "unseal", "wickr_ctx_decipher_remote": "unseal"}

    def __init__(self, m, tier):
        super().__init__(m, tier)
        self.judged, self.seen = set(), set()
        self.root, self.node = enum(m, "IDENTITY_TYPE_ROOT"), enum(m, "IDENTITY_TYPE_NODE")

    def on_return(self, st, f, ret, I):
        if self.roots.get(f.name) and not self.ctx and st.norm(ret) != 0:
            self.judged.add(f.name)
        super().on_return(st, f, ret, I)

    # -- terms: what is random is told apart by the buffer it was made in
    def own(self, st, r, path, kind):
        v = self.at(st, r, path)
        p = self.bytes_of(st, v) if isinstance(v, V) else None
        b = base_off(p)[0] if isinstance(p, V) else None
        if isinstance(b, V):
            self.set_content(st, b, [lab(kind, b)])

    def t_cipher_key_random(self, st, I, a, r):
        self.site("random_keys", I)
        self.own(st, r, "wickr_cipher_key.key_data", "random-key")

    def t_ec_rand_key(self, st, I, a, r):
        self.site("random_keys", I)
        self.own(st, r, "wickr_ec_key.pri_data", "random-private")
        self.own(st, r, "wickr_ec_key.pub_data", "random-public")

    def t_digest(self, st, I, a, r):
        d = st.norm(a[2])
        self.mark(st, r, "hash", self.by(st, a[0]), self.by(st, a[1]), d >> 32 if isinstance(d, int) else d)

    def t_ec_key_import(self, st, I, a, r):
        for n in ("pri_data", "pub_data"):
            self.mark(st, self.at(st, r, "wickr_ec_key." + n), "imported", self.plain(st, a[1]), self.by(st, a[0]))

    def t_cipher_encrypt(self, st, I, a, r):
        self.site("encryptions", I)
        self.mark(st, self.at(st, r, "wickr_cipher_result.cipher_text"), "sealed", self.by(st, a[0]), self.by(st, a[2], "wickr_cipher_key.key_data"),
                  self.by(st, a[1]) if st.norm(a[3]) == 0 else frozenset([lab("given-iv")]))

    def t_crypto_random(self, st, I, a, r):
        self.mark(st, r, "random", self.plain(st, a[0]))

    def t_cipher_decrypt(self, st, I, a, r):
        self.site("decryptions", I)
        self.mark(st, r, "opened", self.by(st, a[0], "wickr_cipher_result.cipher_text"), self.by(st, a[2], "wickr_cipher_key.key_data"), self.by(st, a[1]), self.plain(st, a[3]))

    def on_result(self, st, I, name, args, r):
        super().on_result(st, I, name, args, r)
        if isinstance(r, V) and name == "wickr_crypto_engine_kdf_decipher":
            a = [st.norm(x) for x in args]
            self.mark(st, r, "unprotected", self.by(st, a[1]), self.by(st, a[2]))

    # -- parts of verdicts
    def keys(self, st, v):
        return {k: self.by(st, v, RK + "." + k) for k in KEYS}

    def cipher(self, st, v, path):
        return [self.at(st, v, path + ".cipher." + c, 4 if c == "cipher_id" else 1) for c in CIPHER]

    def same_keys(self, st, f, I, have, want, what, why):
        for k in KEYS:
            self.ob(self.same(have[k], want[k]), what, I, f, "%s: %s" % (why, k), st)

    def kinds(self, st, f, I, ks, sig=True):
        """all are fresh and none is another one"""
        fresh = [self.terms(ks[k], "random-key") for k in KEYS[2:]]
        if sig:
            fresh += [self.terms(ks[KEYS[0]], "random-private"), self.terms(ks[KEYS[1]], "random-public")]
        self.ob(all(len(x) == 1 for x in fresh), "fresh", I, f, "a root key is not a new random key", st)
        self.ob(len({x[0] for x in fresh if x}) == len(fresh), "fresh", I, f, "two root keys are the same key", st)

    def derived_local(self, st, c, root, salt):
        return any(self.same(x.a[1], root) and self.same(x.a[2], salt) and x.a[3] == IDS["SHA256"] for x in self.terms(c, "hash"))

    def from_source(self, c, test, d=0):
        """these bytes were read out of what passes the test"""
        return any(test(t) for t in c if isinstance(t, V) and t.k == "lab") or d < 8 and any(
            self.from_source(t.a[-1] if t.a[0] != "member" else t.a[3], test, d + 1) for k in ("part", "member", "imported") for t in self.terms(c, k))

    def context(self, st, f, I, r, ks, dev, ident):
        """r: what was generated; ks: the root keys; dev: device information, ident: identifier given"""
        A = GR + ".ctx."
        C = A + "id_chain."
        self.ob(self.same(self.by(st, r, C + "root.identifier"), self.by(st, ident)), "identity", I, f, "the root identity has not the identifier given", st)
        for k in ("pri_data", "pub_data"):
            self.ob(self.same(self.by(st, r, C + "root.sig_key." + k), ks["node_signature_root." + k]), "identity", I, f, "the root identity does not sign with the signature root key", st)
        self.ob(self.at(st, r, C + "root.type", 4) == self.root and self.at(st, r, C + "node.type", 4) == self.node, "identity", I, f, "the identities are not of their types", st)
        pri = self.by(st, r, C + "node.sig_key.pri_data")
        self.ob(bool(self.terms(pri, "random-private")) and not self.same(pri, ks[KEYS[0]]), "identity", I, f, "the node identity has not a new key of its own", st)
        self.ob(bool(self.terms(self.by(st, r, C + "node.identifier"), "random")), "identity", I, f, "the node identity has not a new random identifier", st)
        self.ob(self.derived_local(st, self.by(st, r, A + "storage_keys.local.key_data"), ks[KEYS[2]], self.by(st, dev, DEV + ".system_salt")), "storage", I, f,
                "the local storage key is not derived from the node storage root and the system salt", st)
        self.ob(self.same(self.by(st, r, A + "storage_keys.remote.key_data"), ks[KEYS[3]]), "storage", I, f, "the remote storage key is not the remote storage root", st)
        self.header(st, f, I, r, A, "the header key is not made of the two identifiers, root first")
        for k in ("dev_salt", "system_salt", "msg_proto_id", "srv_comm_id"):
            self.ob(self.same(self.by(st, r, A + "dev_info." + k), self.by(st, dev, DEV + "." + k)), "device", I, f, "the device information is not that given: " + k, st)
        self.same_keys(st, f, I, {k: self.by(st, r, GR + ".root_keys." + k) for k in KEYS}, ks, "root-keys", "the root keys returned are not those of the context")

    def header(self, st, f, I, r, A, msg):
        self.ob(self.at(st, r, A + "pkt_enc_version", 1) == NEWEST, "identity", I, f, "a new context does not make packets of the newest version", st)
        c = self.by(st, r, A + "packet_header_key.key_data")
        a, b = (self.by(st, r, A + "id_chain.%s.identifier" % k) for k in ("root", "node"))
        self.ob(any(self.same(x.a[1], a) and self.same(x.a[2], b) and x.a[3] == IDS["SHA256"] for x in self.terms(c, "hash")), "header", I, f, msg, st)

    def recovery_key(self, st, f, I, r):
        c = self.by(st, r, GR + ".recovery_key.key_data")
        t = self.terms(c, "random-key")
        used = [x for k in KEYS for x in self.terms(self.by(st, r, GR + ".root_keys." + k), "random-key")]
        self.ob(len(t) == 1 and not any(x in used for x in t), "recovery", I, f, "the recovery key is not a new random key", st)

    # -- verdicts
    def r_fresh(self, st, f, p, r, I):
        self.kinds(st, f, I, self.keys(st, r))

    def r_local(self, st, f, p, r, I):
        ks = self.keys(st, p[0])
        self.ob(self.derived_local(st, self.by(st, r, SK + ".local.key_data"), ks[KEYS[2]], self.by(st, p[2], DEV + ".system_salt")), "storage", I, f,
                "the local storage key is not derived from the node storage root and the system salt", st)
        self.ob(self.same(self.by(st, r, SK + ".remote.key_data"), ks[KEYS[3]]), "storage", I, f, "the remote storage key is not the remote storage root", st)
        for k, root in (("local", "node"), ("remote", "remote")):
            self.ob(self.cipher(st, r, SK + "." + k) == self.cipher(st, p[0], RK + ".%s_storage_root" % root), "storage", I, f,
                    "the %s storage key is not for the cipher of its root" % k, st)

    def root_message(self, st, c, ks):
        """c is the serialization of these root keys"""
        for x in self.terms(c, "msg"):
            w = dict(zip(x.a[2::2], x.a[3::2]))
            if x.a[1].endswith("RootKeys") and self.same(w.get("node_signature_root", NOC), ks[KEYS[0]]) and all(
                    any(self.same(y.a[-1], ks[k]) for y in self.terms(w.get(n, NOC), "cat")) for n, k in (("node_storage_root", KEYS[2]), ("remote_storage_root", KEYS[3]))):
                return True
        return False

    def r_saved(self, st, f, p, r, I):
        ss = self.terms(self.by(st, r, "wickr_cipher_result.cipher_text"), "sealed")
        self.ob(any(self.root_message(st, s.a[1], self.keys(st, p[0])) and self.same(s.a[2], self.by(st, p[2], "wickr_cipher_key.key_data")) and not s.a[3] for s in ss),
                "saved", I, f, "what is exported is not the root keys under the key given", st)

    def r_backup(self, st, f, p, r, I):
        ks = {k: self.by(st, p[0], GR + ".root_keys." + k) for k in KEYS}
        ss = [s for x in self.terms(self.by(st, r), "cat") for y in x.a[1:] for s in self.terms(y, "sealed")]
        self.ob(any(self.root_message(st, s.a[1], ks) and self.same(s.a[2], self.by(st, p[0], GR + ".recovery_key.key_data")) and not s.a[3] for s in ss),
                "saved", I, f, "what is backed up is not the root keys under the recovery key", st)

    def members_of(self, st, f, I, r, path, test, why):
        for k, n in zip(KEYS, ("node_signature_root", "node_signature_root", "node_storage_root", "remote_storage_root")):
            c = self.by(st, r, path + k)
            ms = self.named(c, n)
            self.ob(bool(ms) and all(self.from_source(m.a[3], test) for m in ms), "recovered", I, f, "%s: %s" % (why, k), st)

    def named(self, c, n, d=0):
        out = []
        for t in c if d < 8 else ():
            if isinstance(t, V) and t.k == "lab":
                if t.a[0] == "member" and t.a[2] == n:
                    out.append(t)
                elif t.a[0] in ("part", "imported"):
                    out += self.named(t.a[-1], n, d + 1)
        return out

    def r_parsed(self, st, f, p, r, I):
        src = self.by(st, p[1])
        for k, n in zip(KEYS, ("node_signature_root", "node_signature_root", "node_storage_root", "remote_storage_root")):
            c = self.by(st, r, RK + "." + k)
            ms = self.named(c, n)
            self.ob(bool(ms) and all(self.same(m.a[3], src) for m in ms), "recovered", I, f, "a root key is not the one stored: " + k, st)
            if n == "node_signature_root":
                self.ob(bool(self.terms(c, "imported")) and all(x.a[1] == 1 for x in self.terms(c, "imported")), "recovered", I, f, "the signature root is not read as a private key", st)

    def opened(self, st, data, key):
        """a test: decrypted, authenticated, out of data under the key"""
        src = self.by(st, data)

        def test(t):
            if t.a[0] != "opened" or not self.same(t.a[2], key) or t.a[4] != 1:
                return False
            if any(self.same(y.a[3], src) for y in self.terms(t.a[1], "part")):
                self.seen.add(self.fnstack[-1] if self.fnstack else None)
                return True
            return not t.a[1]           # no ciphertext at all
        return test

    def r_recovered(self, st, f, p, r, I):
        self.members_of(st, f, I, r, RK + ".", self.opened(st, p[-2], self.by(st, p[-1], "wickr_cipher_key.key_data")), "a root key is not the one saved under the recovery key")

    def r_gen(self, st, f, p, r, I):
        self.context(st, f, I, r, self.keys(st, p[-2]), p[-3], p[-1])
        self.recovery_key(st, f, I, r)

    def own_keys(self, st, r):
        return {k: self.by(st, r, GR + ".root_keys." + k) for k in KEYS}

    def r_gennew(self, st, f, p, r, I):
        ks = self.own_keys(st, r)
        self.kinds(st, f, I, ks)
        self.context(st, f, I, r, ks, p[-2], p[-1])
        self.recovery_key(st, f, I, r)

    def r_gensig(self, st, f, p, r, I):
        ks = self.own_keys(st, r)
        self.kinds(st, f, I, ks, False)
        for k in ("pri_data", "pub_data"):
            self.ob(self.same(ks["node_signature_root." + k], self.by(st, p[-2], "wickr_ec_key." + k)), "root-keys", I, f, "the signature root is not the key given", st)
        self.context(st, f, I, r, ks, p[-3], p[-1])
        self.recovery_key(st, f, I, r)

    def r_genrec(self, st, f, p, r, I):
        key = self.by(st, p[-2], "wickr_cipher_key.key_data")
        self.members_of(st, f, I, r, GR + ".root_keys.", self.opened(st, p[-3], key), "a root key is not the one saved under the recovery key")
        self.context(st, f, I, r, self.own_keys(st, r), p[-4], p[-1])
        self.ob(self.same(self.by(st, r, GR + ".recovery_key.key_data"), key), "recovery", I, f, "the recovery key is not the one given", st)

    def r_genpass(self, st, f, p, r, I):
        key = self.by(st, r, GR + ".recovery_key.key_data")
        want = [self.by(st, x) for x in p[-4:-2]]
        self.ob(self.from_source(key, lambda t: t.a[0] == "unprotected" and self.same(t.a[1], want[0]) and self.same(t.a[2], want[1])), "recovery", I, f,
                "the recovery key is not the one exported under the passphrase", st)
        self.members_of(st, f, I, r, GR + ".root_keys.", self.opened(st, p[-2], key), "a root key is not the one saved under the recovery key")
        self.context(st, f, I, r, self.own_keys(st, r), p[-5], p[-1])

    def r_create(self, st, f, p, r, I):
        for n, x in zip(("dev_info", "id_chain", "storage_keys"), p[-3:]):
            self.ob(self.at(st, r, CTX + "." + n) == st.norm(x), "identity", I, f, "the context is not made of what it is given: " + n, st)
        self.header(st, f, I, r, CTX + ".", "the header key is not made of the two identifiers, root first")

    def r_seal(self, st, f, p, r, I):
        k = CTX + ".storage_keys.%s.key_data" % f.name.rpartition("_")[2]
        ss = self.terms(self.by(st, r, "wickr_cipher_result.cipher_text"), "sealed")
        self.ob(len(ss) == 1 and self.same(ss[0].a[1], self.by(st, p[1])) and self.same(ss[0].a[2], self.by(st, p[0], k)) and not ss[0].a[3], "storage", I, f,
                "the data is not encrypted with the storage key of its name", st)

    def r_unseal(self, st, f, p, r, I):
        k = CTX + ".storage_keys.%s.key_data" % f.name.rpartition("_")[2]
        ss = self.terms(self.by(st, r), "opened")
        self.ob(len(ss) == 1 and self.same(ss[0].a[1], self.by(st, p[1], "wickr_cipher_result.cipher_text")) and self.same(ss[0].a[2], self.by(st, p[0], k)) and not ss[0].a[3] and
                ss[0].a[4] == 1, "storage", I, f, "the data is not decrypted with the storage key of its name", st)


OWN = {"fresh", "identity", "storage", "device", "root-keys", "header", "recovery", "recovered", "saved", "never"}


OPENING = {"wickr_ctx_gen_import_recovery", "wickr_ctx_gen_with_recovery", "wickr_ctx_gen_with_passphrase"}


def run_R01(m, tier):
    r = Result("what each member of a generated, recovered or created context is made of, and what the storage keys encrypt")
    e = Context(m, tier)
    e.run(sorted(e.roots))
    for fn in e.roots:
        e.ob(fn in e.judged and (fn in e.seen or fn not in OPENING), "never", None, m.funcs[fn], "never succeeds", None)
    r.take(e, OWN)
    r.engine_cover(e)
    for s in sorted(set(e.roots.values())):
        r.floor("outcomes judged: " + s, len(e.sites.get("results_judged:" + s, ())), 1)
    return r

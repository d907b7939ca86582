"""P01, P02, K01, V01: what a packet is made of, and what is believed about a packet that was received."""
import engine
from base import Result, enum
from engine import V, mk, mkop, base_off, Infeasible, Lsym
from models import NOC, lab
from rules.terms import P, short
from rules.wire import Wire, members

KX, ND, CH, PK = "wickr_key_exchange", "wickr_node", "wickr_identity_chain", "wickr_packet"
PM, KS = "_Wickr__Proto__Packet", "_Wickr__Proto__KeyExchangeSet"
VERSIONS = {2: "KDF_ID_HKDF_SHA256", 3: "KDF_ID_HKDF_SHA256", 4: "KDF_ID_HKDF_SHA512"}


class Packet(Wire):
    def __init__(self, m, tier, small=2):
        super().__init__(m, tier)
        self.SMALL, self.widen = small, max(engine.WIDEN, small)
        self.models.named['wickr_node_verify_signature_chain'] = self.verify_node
        self.kdfid = {v: enum(m, n) for v, n in VERSIONS.items()}
        self.OK, self.VALID = enum(m, "E_SUCCESS"), enum(m, "PACKET_SIGNATURE_VALID")
        self.roots = {"wickr_key_exchange_create_with_data": "seal", "wickr_key_exchange_create_with_packet_key": "sealkey",
                      "wickr_key_exchange_derive_data": "open", "wickr_key_exchange_derive_packet_key": "openkey",
                      "wickr_packet_create_from_components": "write", "wickr_ctx_encode_packet": "encode",
                      "wickr_parse_result_from_packet": "parse", "wickr_ctx_parse_packet": "read", "wickr_ctx_parse_packet_no_decode": "read",
                      "wickr_ctx_stateless_parse_packet": "read",
                      "wickr_decode_result_from_parse_result": "decode", "wickr_ctx_decode_packet": "ctxdecode", "wickr_ctx_create": "ctx",
                      "wickr_packet_create_from_buffer": "frame", "wickr_packet_serialize": "serialize", "wickr_key_exchange_set_find": "find"}

    def verify_node(self, e, st, I, args, name):
        """wickr_node_verify_signature_chain, by its contract (I01)"""
        s2 = st.copy()
        n = st.norm(args[0])
        if n == 0:
            return [(s2, 0)]
        self.add(st, "nodeok", n)
        return [(st, 1), (s2, 0)]

    def item(self, st, arr, i):
        """the i-th element of an array"""
        b = base_off(st.norm(arr))[0]
        o = st.mem.get(b)
        k = mk("item", i)
        if o is not None and k in o.cells:
            return st.norm(o.cells[k][1])
        return Lsym(b, k, 8, ("wickr_array", "item"))

    # -- K01
    def derived(self, st, key, kid, pri, pub, salt, info):
        """every derivation behind this key is the wanted one"""
        ks = self.terms(key, "kdf")
        if not pri:             # (a key without its private half agrees on nothing)
            return True
        return bool(ks) and all(
            k.a[1] == kid and k.a[3] == salt and (self.is_cat(k.a[4], info) if len(info) > 1 else self.same(k.a[4], info[0])) and
            bool(self.terms(k.a[2], "dh")) and all(self.same(d.a[1], pri) and self.same(d.a[2], pub) for d in self.terms(k.a[2], "dh"))
            for k in ks)

    def info(self, st, sender, receiver, v):
        dev = self.by(st, receiver, ND + ".dev_id")
        if v == 2:
            return [dev]
        return [self.by(st, sender, CH + ".root.sig_key.pub_data"), self.by(st, receiver, ND + ".id_chain.root.sig_key.pub_data"), dev]

    def exchange(self, st, I, f, ct, kind, sender, receiver, pri, pub, psk, v):
        v = st.norm(v)
        self.ob(v in self.kdfid, "version", I, f, "a key exchange for a packet version that does not exist", st)
        ss = self.terms(ct, kind)
        self.ob(bool(ss), "exchange-key", I, f, "the exchanged data is not %s" % kind, st)
        for s in ss:
            self.ob(v in self.kdfid and self.derived(st, s.a[2], self.kdfid[v], pri, pub, self.by(st, psk) if isinstance(psk, V) else NOC,
                                                     self.info(st, sender, receiver, v)),
                    "exchange-key", I, f, "version %s: the key is not derived from the agreed secret, the pre-shared key and the parties" % v, st)

    def seal(self, st, f, r, I, sender, receiver, key, psk, v):
        E = "wickr_ephemeral_keypair"
        ct = self.by(st, r, KX + ".exchange_ciphertext.cipher_text")
        self.exchange(st, I, f, ct, "sealed", sender, receiver, self.by(st, key, "wickr_ec_key.pri_data"),
                      self.by(st, receiver, ND + ".ephemeral_keypair.ec_key.pub_data"), psk, v)
        self.ob(self.same(self.by(st, r, KX + ".exchange_id"), self.by(st, receiver, ND + ".id_chain.node.identifier")),
                "exchange-id", I, f, "the exchange does not carry the receiving node's identifier", st)
        self.ob(self.at(st, r, KX + ".key_id") == self.at(st, receiver, ND + ".ephemeral_keypair.identifier"), "exchange-id", I, f,
                "the exchange does not carry the identifier of the receiver's key", st)
        return self.terms(ct, "sealed")

    def r_seal(self, st, f, p, r, I):
        for s in self.seal(st, f, r, I, p[1], p[2], p[3], st.norm(p[6]), p[7]):
            self.ob(self.same(s.a[1], self.by(st, p[4])), "exchange-data", I, f, "what is sealed is not the data given", st)

    def r_sealkey(self, st, f, p, r, I):
        for s in self.seal(st, f, r, I, p[1], p[2], p[3], st.norm(p[5]), p[6]):
            self.ob(self.ser_key(s.a[1], self.by(st, p[4], "wickr_cipher_key.key_data")), "exchange-data", I, f, "what is sealed is not the packet key", st)

    def ser_key(self, c, key):
        """the serialization of a cipher key: its cipher, then its bytes"""
        return any(len(t.a) == 3 and self.terms(t.a[1], "val") and self.same(t.a[2], key) for t in self.terms(c, "cat"))

    def r_open(self, st, f, p, r, I):
        d = self.by(st, r)
        self.exchange(st, I, f, d, "opened", p[1], p[2], self.by(st, p[2], ND + ".ephemeral_keypair.ec_key.pri_data"),
                      self.by(st, p[3], "wickr_ec_key.pub_data"), st.norm(p[5]), p[6])
        for s in self.terms(d, "opened"):
            self.ob(self.same(s.a[1], self.by(st, p[4], KX + ".exchange_ciphertext.cipher_text")), "exchange-data", I, f,
                    "what is opened is not the exchange's ciphertext", st)

    def r_openkey(self, st, f, p, r, I):
        k = self.by(st, r, "wickr_cipher_key.key_data")
        self.ob(any(self.start(x) == 1 and self.terms(x.a[3], "opened") for x in self.terms(k, "part")), "exchange-data", I, f, "the key is not the one that was exchanged", st)
        for x in self.terms(k, "part"):
            self.exchange(st, I, f, x.a[3], "opened", p[1], p[2], self.by(st, p[2], ND + ".ephemeral_keypair.ec_key.pri_data"),
                          self.by(st, p[3], "wickr_ec_key.pub_data"), st.norm(p[5]), p[6])

    # -- P02
    def member(self, msg, struct, name):
        """the content a packed message has for a member"""
        i = msg.a.index(name)
        assert msg.a[1] == struct
        return msg.a[i + 1]

    def sealed_in(self, c):
        """the sealed terms of serialized cipher results"""
        out = []
        for t in self.terms(c, "cat"):
            out += self.terms(t.a[-1], "sealed") or [None]
        return out or [None]

    def r_write(self, st, f, p, r, I):
        eng, hk, pk, xk, pl, rec, snd, ver = p
        K = "wickr_cipher_key.key_data"
        self.packet(st, f, I, r, self.by(st, hk, K), self.by(st, pk, K), self.by(st, xk, "wickr_ec_key.pri_data"), self.by(st, xk, "wickr_ec_key.pub_data"),
                    rec, snd, ver)

    def packet(self, st, f, I, r, hd, kd, xpri, xpub, rec, snd, ver):
        items = [self.item(st, rec, i) for i in range(self.SMALL)]
        for i, n in enumerate(items):
            self.ob(("nodeok", n) in st.facts, "recipient", I, f, "a recipient's chain of signatures was not verified (of %d, number %d)" % (len(items), i), st)
        c = self.by(st, r, PK + ".content")
        ms = self.terms(c, "msg")
        self.ob(bool(ms) and all(m.a[1] == PM for m in ms), "packet-content", I, f, "the content is not a packet message", st)
        for m in ms:
            for s in self.sealed_in(self.member(m, PM, "enc_header")):
                self.ob(s is not None and self.same(s.a[2], hd), "packet-header", I, f, "the header is not sealed with the header key", st)
                hs = self.terms(s.a[1], "msg") if s is not None else []
                self.ob(bool(hs) and all(h.a[1] == KS for h in hs), "packet-header", I, f, "the header is not a set of key exchanges", st)
                for h in hs:
                    self.ob(self.same(self.member(h, KS, "sender_pub"), xpub), "packet-header", I, f, "the header does not carry the public half of the exchange key", st)
                    ats = {a.a[1]: a.a[2] for a in self.terms(self.member(h, KS, "exchanges"), "at")}
                    self.ob(sorted(ats) == list(range(len(items))), "packet-header", I, f, "the header does not have one exchange for every recipient", st)
                    for i, x in ats.items():
                        for e in self.terms(x, "msg") if i < len(items) else ():
                            n = items[i]
                            self.ob(self.same(self.member(e, KS + "__Exchange", "identifier"), self.by(st, n, ND + ".id_chain.node.identifier")),
                                    "packet-header", I, f, "an exchange does not name its recipient", st)
                            for z in self.sealed_in(self.member(e, KS + "__Exchange", "exchange_data")):
                                self.ob(z is not None and self.ser_key(z.a[1], kd), "packet-exchange", I, f, "what a recipient gets is not the packet key", st)
                                self.ob(z is not None and self.derived(st, z.a[2], self.kdfid.get(st.norm(ver)), xpri,
                                                                       self.by(st, n, ND + ".ephemeral_keypair.ec_key.pub_data"), NOC,
                                                                       self.info(st, snd, n, st.norm(ver))),
                                        "packet-exchange", I, f, "what a recipient gets is not sealed for it", st)
            for s in self.sealed_in(self.member(m, PM, "enc_payload")):
                self.ob(s is not None and self.same(s.a[2], kd), "packet-payload", I, f, "the payload is not sealed with the packet key", st)
                self.ob(s is not None and any(x.a[1] == "_Wickr__Proto__Payload" for x in self.terms(s.a[1], "msg")), "packet-payload", I, f,
                        "what is sealed is not the payload", st)
        sg = self.terms(self.by(st, r, PK + ".signature.sig_data"), "signed")
        pri = self.by(st, snd, CH + ".node.sig_key.pri_data")
        self.ob(all(self.same(s.a[1], pri) and s.a[2] <= c for s in sg) and frozenset().union(*[s.a[2] for s in sg]) == c,
                "packet-signature", I, f, "the content is not signed with the sender's node key", st)
        self.ob(self.at(st, r, PK + ".version", 1) == st.norm(ver), "version", I, f, "the packet does not have the version asked for", st)

    def r_encode(self, st, f, p, r, I):
        Q = "wickr_encoder_result."
        X = "wickr_ctx."
        self.packet(st, f, I, self.at(st, r, Q + "packet"), self.by(st, p[0], X + "packet_header_key.key_data"), frozenset([lab("random-key")]),
                    frozenset([lab("random-private")]), frozenset([lab("random-public")]), p[2], self.at(st, p[0], X + "id_chain"),
                    self.at(st, p[0], X + "pkt_enc_version", 1))
        self.ob(self.same(self.by(st, r, Q + "packet_key.key_data"), frozenset([lab("random-key")])), "packet-exchange", I, f,
                "the key returned is not the one the payload was sealed with", st)

    # -- P01
    def r_parse(self, st, f, p, r, I):
        self.parsed(st, f, I, r, p[1], p[2], p[4])

    def r_read(self, st, f, p, r, I):
        Y = "wickr_ctx_packet"
        n = f.name
        who = 0 if n == "wickr_ctx_parse_packet_no_decode" else p[1] if "stateless" in n else self.at(st, p[0], "wickr_ctx.id_chain.node.identifier")
        frm = p[3] if "stateless" in n else p[2]
        self.parsed(st, f, I, self.at(st, r, Y + ".parse_result"), self.at(st, r, Y + ".packet"), who, frm)
        for k in ("root", "node"):
            for x in ("sig_key.pub_data", "identifier"):
                self.ob(self.same(self.by(st, r, Y + ".sender.%s.%s" % (k, x)), self.by(st, frm, CH + ".%s.%s" % (k, x))), "parse-sender", I, f,
                        "the sender recorded is not the one the packet was checked against", st)
        src = self.by(st, p[2] if "stateless" in n else p[1])
        for c in self.terms(self.by(st, r, Y + ".packet.content"), "part") or [None]:
            self.ob(c is not None and c.a[3] == src, "parse-sender", I, f, "the packet recorded is not the one given", st)

    def r_ctx(self, st, f, p, r, I):
        X = "wickr_ctx.id_chain."
        ks = self.terms(self.by(st, r, "wickr_ctx.packet_header_key.key_data"), "hash")
        self.ob(bool(ks) and all(self.same(k.a[1], self.by(st, r, X + "root.identifier")) and self.same(k.a[2], self.by(st, r, X + "node.identifier"))
                                 for k in ks), "context-key", I, f, "the header key of a context is not its identity's", st)

    def keyed(self, c, st, chain):
        """a key that was asked for this chain, or computed from its identifiers"""
        hs = self.terms(c, "hash")
        if hs:
            return all(self.same(h.a[1], self.by(st, chain, CH + ".root.identifier")) and self.same(h.a[2], self.by(st, chain, CH + ".node.identifier"))
                       for h in hs)
        return any(x[0] == "asked" and self.same(c, x[2]) for x in st.facts) and all(x[0] != "asked" or x[1] == st.norm(chain) for x in st.facts)

    def parsed(self, st, f, I, r, packet, who, sender):
        """a parse result r: who is the receiver's node identifier, or null"""
        Q = "wickr_parse_result"
        err, sig = self.at(st, r, Q + ".err", 4), self.at(st, r, Q + ".signature_status", 4)
        self.ob(isinstance(err, int) and isinstance(sig, int), "verdict", I, f, "the verdict of a parse is not a constant", st)
        ok = self.found(st, "verified", self.by(st, packet, PK + ".signature.sig_data"), self.by(st, sender, CH + ".node.sig_key.pub_data"),
                        self.by(st, packet, PK + ".content"))
        if sig == self.VALID:
            self.ob(ok, "verdict", I, f, "the signature counts as valid without having been verified", st)
        self.ob(err != self.OK or sig == self.VALID, "verdict", I, f, "success is reported without a valid signature", st)
        if err != self.OK:
            return
        content = self.by(st, packet, PK + ".content")
        pl = self.by(st, r, Q + ".enc_payload.cipher_text")
        self.ob(self.cut(pl, PM, "enc_payload", content), "parse-payload", I, f, "the payload is not the one in the signed content", st)
        if st.norm(who) == 0:
            return
        X = Q + ".key_exchange."
        xid, ct = self.by(st, r, X + "exchange_id"), self.by(st, r, X + "exchange_ciphertext.cipher_text")
        self.ob(any(x[0] == "equal" and any(self.same(a, self.by(st, who)) and self.same(b, xid) for a, b in (x[1:3], x[2:0:-1])) for x in st.facts),
                "parse-exchange", I, f, "the key exchange was not chosen by the receiver's node identifier", st)
        ids, cts = self.heads(xid), self.heads(ct)
        self.ob(len(ids) == 1 and ids == cts or not cts and not self.terms(ct, "member"), "parse-exchange", I, f,
                "the data of the key exchange is not that of the exchange found", st)
        for o in ids:
            self.ob(self.keyed(o.a[2], st, sender), "parse-header", I, f, "the header is not opened with the sender's header key", st)
            self.ob(not o.a[1] or self.cut(o.a[1], PM, "enc_header", content), "parse-header", I, f, "the header is not the one in the signed content", st)

    def on_result(self, st, I, name, args, r):
        super().on_result(st, I, name, args, r)
        if name.startswith("wickr_parse_result_") and isinstance(r, V):
            self.add(st, "verdict", *[self.at(st, r, "wickr_parse_result." + x, 4) for x in ("err", "signature_status")])    # (kept apart in joins)

    def on_callback(self, st, I, v, args, r):
        super().on_callback(st, I, v, args, r)
        if len(args) == 3:
            self.add(st, "asked", st.norm(args[2]), self.by(st, r, "wickr_cipher_key.key_data"))

    def cut(self, c, struct, name, src):
        """every part of it was cut out of one member of a message read from src"""
        ps = self.terms(c, "part")
        return bool(ps) and all(ms and all(m.a[1] == struct and m.a[2] == name and m.a[3] == src for m in ms)
                                for ms in ([m for m in x.a[3] if m.k == "lab" and m.a[0] == "member"] for x in ps))

    def heads(self, c, d=0):
        """what the bytes were read out of, in the end: the opened terms"""
        out = set(self.terms(c, "opened"))
        for t in self.terms(c, "part") + self.terms(c, "member"):
            if d < 6:
                out |= self.heads(t.a[3], d + 1)
        return out

    def r_decode(self, st, f, p, r, I):
        self.decoded(st, f, I, r, p[2], p[0], p[3], p[4], p[5], p[6])

    def r_ctxdecode(self, st, f, p, r, I):
        X = "wickr_ctx"
        Y = "wickr_ctx_packet"
        self.decoded(st, f, I, r, self.at(st, p[1], Y + ".parse_result"), self.at(st, p[1], Y + ".packet"),
                     self.at(st, p[0], X + ".dev_info.msg_proto_id"), p[2], self.at(st, p[0], X + ".id_chain"), self.at(st, p[1], Y + ".sender"))

    def decoded(self, st, f, I, r, parse, packet, dev, pair, mine, sender):
        """a decoded packet r: parse is what was made of the packet; dev, pair and mine are the receiver"""
        Q = "wickr_decode_result"
        D = "wickr_parse_result"
        if self.at(st, r, Q + ".err", 4) != self.OK:
            return
        self.ob(self.at(st, parse, D + ".err", 4) == self.OK and self.at(st, parse, D + ".signature_status", 4) == self.VALID, "decode-verdict", I, f,
                "a packet is decoded that was not found authentic", st)
        key = self.by(st, r, Q + ".payload_key.key_data")
        v = self.at(st, packet, PK + ".version", 1)
        one, two = self.by(st, sender, CH + ".root.sig_key.pub_data"), self.by(st, mine, CH + ".root.sig_key.pub_data")
        info = [self.by(st, dev)] if v == 2 else [one, two, self.by(st, dev)]
        self.ob(bool(self.terms(key, "part")), "decode-key", I, f, "the payload key is not the one exchanged", st)
        for x in self.terms(key, "part"):
            os = self.terms(x.a[3], "opened")
            self.ob(bool(os), "decode-key", I, f, "the payload key is not the one exchanged", st)
            for o in os:
                self.ob(self.same(o.a[1], self.by(st, parse, D + ".key_exchange.exchange_ciphertext.cipher_text")), "decode-key", I, f,
                        "the key exchange opened is not the one found", st)
                self.ob(v in self.kdfid and self.derived(st, o.a[2], self.kdfid[v], self.by(st, pair, "wickr_ec_key.pri_data"),
                                                         self.by(st, parse, D + ".key_exchange_set.sender_pub.pub_data"), NOC, info), "decode-key", I, f,
                        "the exchange is not opened with the key the sender and this receiver agree on", st)
        body = self.by(st, r, Q + ".decrypted_payload.body")
        for o in self.heads(body) or [None]:
            self.ob(o is not None and self.same(o.a[1], self.by(st, parse, D + ".enc_payload.cipher_text")) and self.heads(o.a[2]) == self.heads(key),
                    "decode-payload", I, f, "the payload is not what the packet key opens", st)

    def r_find(self, st, f, p, r, I):
        xid = self.by(st, r, KX + ".exchange_id")
        self.ob(self.found(st, "equal", self.by(st, p[1]), xid) or self.found(st, "equal", xid, self.by(st, p[1])), "find", I, f,
                "the exchange found is not the one asked for", st)

    def r_frame(self, st, f, p, r, I):
        v = self.at(st, r, PK + ".version", 1)
        self.ob(v in self.kdfid, "version", I, f, "a packet of a version that does not exist is accepted", st)
        n, src = self.at(st, p[0], "wickr_buffer.length"), self.by(st, p[0])
        first = self.read(st, base_off(self.bytes_of(st, p[0]))[0], 0, 1, None)
        self.ob(st.norm(first) == v, "version", I, f, "the version is not the first byte of the packet", st)
        size = self.at(st, r, PK + ".signature.curve.signature_size", 1)
        for c in self.terms(self.by(st, r, PK + ".content"), "part") or [None]:
            self.ob(c is not None and c.a[3] == src and self.start(c) == 2 and self.total(2, c.a[2], size) == self.total(n),
                    "frame", I, f, "the content is not what lies between the two leading bytes and the signature", st)
        for c in self.terms(self.by(st, r, PK + ".signature.sig_data"), "part") or [None]:
            self.ob(c is not None and c.a[3] == src and self.total(self.start(c), c.a[2]) == self.total(n),
                    "frame", I, f, "the signature is not the last part of the packet", st)

    def total(self, *vs):
        """a sum, as the multiset of its summands"""
        out = {}

        def go(v, k):
            if isinstance(v, int):
                out[1] = (out.get(1, 0) + k * v) % (1 << 64)
            elif v.k == "op" and v.a[0] in ("add", "sub") and v.a[1] == 64:
                go(v.a[2], k)
                go(v.a[3], k if v.a[0] == "add" else -k)
            else:
                out[v] = (out.get(v, 0) + k) % (1 << 64)
        for v in vs:
            go(v, 1)
        return {k: v for k, v in out.items() if v}

    def r_serialize(self, st, f, p, r, I):
        for c in self.terms(self.by(st, r), "cat") or [None]:
            self.ob(c is not None and len(c.a) == 5, "frame", I, f, "a packet is not its version, its curve, its content and its signature", st)
            if c is None or len(c.a) != 5:
                continue
            ver = [t.a[2] for t in self.terms(c.a[1], "val")]
            cur = [t.a[2] for t in self.terms(c.a[2], "val")]
            self.ob(ver == [self.at(st, p[0], PK + ".version", 1)], "version", I, f, "the first byte of a packet is not its version", st)
            self.ob(cur == [mkop("trunc", 8, self.at(st, p[0], PK + ".signature.curve.identifier", 4), 32)], "frame", I, f, "the second byte of a packet is not its curve", st)
            self.ob(self.same(c.a[3], self.by(st, p[0], PK + ".content")), "frame", I, f, "the content is not written", st)
            self.ob(any(self.same(t.a[-1], self.by(st, p[0], PK + ".signature.sig_data")) for t in self.terms(c.a[4], "cat")), "frame", I, f,
                    "the signature is not written", st)


P01 = {"verdict", "parse-payload", "parse-exchange", "parse-header", "parse-sender", "context-key", "find", "decode-verdict", "decode-payload"}
P02 = {"recipient", "packet-content", "packet-header", "packet-payload", "packet-signature"}
K01 = {"exchange-key", "exchange-id", "exchange-data", "packet-exchange", "decode-key", "version"}
S02 = {"frame", "version"}


def judge(m, tier, text, rules, kinds):
    r = Result(text)
    for n in (1, 2, 3, 4) if tier == "thorough" else (1, 2):
        e = Packet(m, tier, n)
        e.run([f for f in e.roots if e.roots[f] in kinds])
        r.take(e, rules)
        r.engine_cover(e, "with_%d_recipients_" % n)
        for k in kinds:
            r.floor("outcomes judged of %s with %d recipients" % (k, n), len(e.sites.get("results_judged:" + k, ())), 1)
    return r


def run_P01(m, tier):
    return judge(m, tier, "verdicts and contents of parsed and decoded packets, traced to the signature that was verified and the bytes it covers", P01,
                 ("parse", "read", "ctx", "find", "decode", "ctxdecode"))


def run_P02(m, tier):
    return judge(m, tier, "contents of every packet written, traced to keys, recipients and signer", P02, ("write", "encode"))


def run_K01(m, tier):
    return judge(m, tier, "keys of key exchanges, traced to the agreed secret, the pre-shared key and the parties", K01,
                 ("seal", "sealkey", "open", "openkey", "write", "encode", "decode", "ctxdecode"))


def run_V01(m, tier):
    return judge(m, tier, "the leading bytes and the parts of a packet, on both sides", S02, ("frame", "serialize", "write", "encode"))

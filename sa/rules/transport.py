"""T01, T03, T04: transport packets, the handshake, and what it lets through."""
import re
import engine
from base import Result, enum
from engine import V, mk, mkop, mkptr, base_off, Infeasible, Lsym
from models import NOC, lab
from rules.terms import short
from rules.wire import Wire

PKT, HS, CTX = "wickr_transport_packet", "wickr_transport_handshake_t", "wickr_transport_ctx"
META, HM, DM = "wickr_transport_packet_meta", "wickr_transport_handshake_meta", "wickr_transport_data_meta"


class Frames(Wire):
    """T04"""
    def __init__(self, m, tier):
        super().__init__(m, tier)
        self.P521, self.HAND, self.DATA = (enum(m, n) for n in ("TRANSPORT_MAC_TYPE_EC_P521", "TRANSPORT_PAYLOAD_TYPE_HANDSHAKE",
                                                               "TRANSPORT_PAYLOAD_TYPE_CIPHERTEXT"))
        self.roots = {"wickr_transport_packet_serialize": "serialize", "wickr_transport_packet_create_from_buffer": "parse",
                      "wickr_transport_packet_sign": "sign", "wickr_transport_packet_verify": "verify", "wickr_transport_packet_meta_serialize": "header"}
        self.macs = set()

    # -- headers
    def layout(self, bt):
        """[(structure, member, size)] behind the first byte"""
        return [(DM, "sequence_number", 8)] if bt == self.DATA else [(HM, "protocol_version", 1), (HM, "flags", 8)] if bt == self.HAND else None

    def meta(self, st, v, mac=None):
        """the header term for the metadata at v as it now is"""
        b, o = base_off(st.norm(v))
        rd = lambda s, n, z, o=o: st.norm(self.read(st, b, mkop("add", 64, o, self.fieldof(s, n)), z, (s, n)))
        bt = rd(META, "body_type", 4)
        lay = self.layout(bt)
        if lay is None:
            return None
        o2 = mkop("add", 64, o, self.fieldof(META, "body_meta"))
        return lab("header", bt, rd(META, "mac_type", 4) if mac is None else mac, *[rd(s, n, z, o2) for s, n, z in lay])

    def on_result(self, st, I, name, args, r):
        super().on_result(st, I, name, args, r)
        if name == "wickr_transport_packet_meta_serialize" and isinstance(r, V):
            h = self.meta(st, args[0])
            b = base_off(self.bytes_of(st, r))[0]
            if h is not None and isinstance(b, V):
                self.set_content(st, b, [h], replace=True)
        elif name == "wickr_buffer_modify_section" and st.norm(r) == 1:
            n, at, src = st.norm(args[3]), st.norm(args[2]), st.norm(args[1])
            if n in (1, 2, 4, 8) and isinstance(at, int) and isinstance(src, V):
                b, o = base_off(self.bytes_of(st, args[0]))
                s, so = base_off(src)
                self.write(st, b, mkop("add", 64, o, at), n, self.read(st, s, so, n))
        elif name == "wickr_identity_chain_validate":
            self.when(st, 1, r, "chain", st.norm(args[0]))

    def t_ec_verify(self, st, I, a, r):
        super().t_ec_verify(st, I, a, r)
        self.when(st, 1, r, "signedlen", self.by(st, a[0], "wickr_ecdsa_result.sig_data"), st.norm(self.at(st, a[2], "wickr_buffer.length")))

    def put(self, v, leaf, x):
        """v where the leaf is x"""
        if v == leaf:
            return x
        if not isinstance(v, V):
            return v
        go = lambda y: self.put(y, leaf, x)
        if v.k == "op":
            if v.a[0] == "trunc":
                return mkop("trunc", v.a[1], go(v.a[2]), 64)
            return mkop(v.a[0], v.a[1], *[go(y) for y in v.a[2:]])
        if v.k == "ext":
            return engine.ext(go(v.a[0]), v.a[1], v.a[2], engine.bits_of(v.a[0]) // 8)
        return v

    def values(self, st, leaf, dom):
        """which values of the domain the leaf can have"""
        for x in dom:
            bad = False
            for d, hold in ((st.eq, lambda y, c: y == c), (st.neq, lambda y, c: y not in c), (st.rng, lambda y, c: c[0] <= y <= c[1])):
                for t, c in d.items():
                    y = self.put(t, leaf, x)
                    bad |= isinstance(y, int) and not hold(y, c)
            if not bad:
                yield x

    def r_header(self, st, f, p, r, I):
        b, o = base_off(self.bytes_of(st, r))
        bt = self.at(st, p[0], META + ".body_type", 4)
        lay = self.layout(bt)
        self.ob(lay is not None, "header", I, f, "a header for a kind of payload that does not exist", st)
        if lay is None:
            return
        self.site("header_kinds", I)
        mt = self.at(st, p[0], META + ".mac_type", 4)
        v0 = st.norm(self.read(st, b, o, 1))
        for x in self.values(st, mt, range(3)) if isinstance(mt, V) else [mt]:
            self.ob(self.put(v0, mt, x) == (bt << 4 | x), "header", I, f, "the first byte of a header is not its kind of payload and of authentication", st)
        pos = 1
        base, off = base_off(p[0])
        off = mkop("add", 64, off, self.fieldof(META, "body_meta"))
        for s, n, z in lay:
            have = st.norm(self.read(st, b, mkop("add", 64, o, pos), z))
            want = st.norm(self.read(st, base, mkop("add", 64, off, self.fieldof(s, n)), z, (s, n)))
            self.ob(have == want, "header", I, f, "%s is not in its place in the header" % n, st)
            pos += z
        self.ob(self.at(st, r, "wickr_buffer.length") == pos, "header", I, f, "the header does not have its length", st)

    def r_parse(self, st, f, p, r, I):
        src = self.bytes_of(st, p[0])
        b, o = base_off(src)
        b0 = Lsym(b, o, 1)
        bt, mt = self.at(st, r, PKT + ".meta.body_type", 4), self.at(st, r, PKT + ".meta.mac_type", 4)
        for x in self.values(st, b0, range(256)):
            self.ob(self.put(bt, b0, x) == x >> 4 and self.put(mt, b0, x) == x & 15, "parse-header", I, f, "the kinds of payload and authentication are not those of the first byte", st)
        lay = self.layout(bt)
        self.ob(lay is not None, "parse-header", I, f, "a packet of an unknown kind is accepted", st)
        if lay is None:
            return
        pos = 1
        for s, n, z in lay:
            v = self.at(st, r, PKT + ".meta")
            base, off = base_off(st.norm(r))
            off = mkop("add", 64, off, self.fieldof(PKT, "meta") + self.fieldof(META, "body_meta") + self.fieldof(s, n))
            self.ob(st.norm(self.read(st, base, off, z, (s, n))) == st.norm(Lsym(b, o + pos, z)), "parse-header", I, f, "%s is not the one in the header" % n, st)
            pos += z
        whole = self.by(st, p[0])
        length = self.at(st, p[0], "wickr_buffer.length")
        mac = self.at(st, r, PKT + ".mac")
        signed = mt == self.P521
        self.ob(signed or all(x & 15 != self.P521 for x in self.values(st, b0, range(256))),
                "parse-mac", I, f, "whether there is a signature does not depend on the header", st)
        body, macs = self.piece(st, r, PKT + ".body"), self.piece(st, r, PKT + ".mac")
        n = 0
        if signed:
            n = macs and macs[1]
            self.macs.add(n)
            self.ob(isinstance(n, int) and n > 0 and macs[2] == whole and self.total(macs[0]) == self.total(length, o, -n if isinstance(n, int) else 0),
                    "parse-mac", I, f, "the signature is not the end of the packet", st)
        else:
            self.ob(st.norm(mac) == 0, "parse-mac", I, f, "a packet that is not signed has a signature", st)
        if isinstance(n, int):
            self.ob(body is not None and body[2] == whole and self.total(body[0]) == self.total(o, pos) and
                    self.total(body[1]) == self.total(length, -pos - n), "parse-body", I, f, "the body is not what is between the header and the signature", st)
        self.ob(self.same(self.by(st, r, PKT + ".network_buffer"), whole) and self.at(st, r, PKT + ".network_buffer.length") == length,
                "parse-network", I, f, "the bytes kept for the signature are not those received", st)

    def piece(self, st, v, path):
        """(start, length, source) of a buffer that was cut out of another one"""
        t = self.terms(self.by(st, v, path), "part")
        return (self.start(t[0]), t[0].a[2], t[0].a[3]) if len(t) == 1 else None

    def total(self, *vs):
        """a sum, as the multiset of its summands"""
        out = {}

        def go(v, k):
            if isinstance(v, int):
                out[1] = (out.get(1, 0) + k * v) % (1 << 64)
            elif v.k == "op" and v.a[0] in ("add", "sub") and v.a[1] == 64:
                go(v.a[2], k)
                go(v.a[3], k if v.a[0] == "add" else -k)
            else:
                out[v] = (out.get(v, 0) + k) % (1 << 64)
        for v in vs:
            go(v, 1)
        return {k: v for k, v in out.items() if v}

    def framed(self, have, head, body, mac):
        """have is header, body and (when there is one) signature"""
        cats = self.terms(have, "cat")
        ps = cats[0].a[1:] if len(cats) == 1 else ()
        want = [frozenset([head]), body] + ([mac] if mac else [])
        ps = [x for x in ps if x]
        return head is not None and len(ps) == len(want) and all(self.same(a, b) for a, b in zip(ps, want))

    def r_serialize(self, st, f, p, r, I):
        h = self.meta(st, mkptr(p[0], self.fieldof(PKT, "meta")))
        self.ob(self.framed(self.by(st, r), h, self.by(st, p[0], PKT + ".body"), self.by(st, p[0], PKT + ".mac")), "serialize", I, f,
                "a packet is not its header, its body and its signature", st)

    def r_sign(self, st, f, p, r, I):
        pk = p[0]
        self.ob(self.at(st, pk, PKT + ".meta.mac_type", 4) == self.P521, "sign", I, f, "a signed packet does not say that it is signed", st)
        h = self.meta(st, mkptr(pk, self.fieldof(PKT, "meta")))
        body, mac = self.by(st, pk, PKT + ".body"), self.by(st, pk, PKT + ".mac")
        self.ob(self.framed(self.by(st, pk, PKT + ".network_buffer"), h, body, mac), "sign", I, f, "what is sent is not the header, the body and the signature", st)
        self.ob(body == self.C(st, Lsym(pk, self.fieldof(PKT, "body"), 8, (PKT, "body"))), "sign", I, f, "signing changes the body", st)
        ss = [s for x in self.parts(mac) or () for s in self.terms(x, "signed")]
        self.ob(len(ss) == 1, "sign", I, f, "the signature is not one signature", st)
        for s in ss:
            self.ob(self.same(s.a[1], self.by(st, p[2], "wickr_identity_chain.node.sig_key.pri_data")), "sign", I, f, "the packet is not signed with the node's key", st)
            self.ob(self.framed(s.a[2], h, body, NOC), "sign", I, f, "the signature does not cover exactly what is in front of it", st)

    def r_verify(self, st, f, p, r, I):
        pk, ch = p[0], p[2]
        self.ob(self.at(st, pk, PKT + ".meta.mac_type", 4) == self.P521, "verify", I, f, "a packet that does not say that it is signed is accepted", st)
        self.ob(("chain", st.norm(ch)) in st.facts, "verify", I, f, "the chain of the signer was not validated", st)
        mac, net = self.by(st, pk, PKT + ".mac"), self.by(st, pk, PKT + ".network_buffer")
        pub = self.by(st, ch, "wickr_identity_chain.node.sig_key.pub_data")
        nl, ml = self.at(st, pk, PKT + ".network_buffer.length"), self.at(st, pk, PKT + ".mac.length")
        ok = False
        for x in st.facts:
            if x[0] == "verified" and self.same(x[2], pub) and net and x[3] == net:
                ps = self.terms(x[1], "part")
                cut = bool(ps) and all(q.a[3] == mac for q in ps)
                ln = [y[2] for y in st.facts if y[0] == "signedlen" and y[1] == x[1]]
                ok |= cut and bool(ln) and all(self.total(l) == self.total(mkop("sub", 64, nl, ml)) for l in ln)
        self.ob(ok, "verify", I, f, "the signature of everything in front of it was not verified with the signer's key", st)


def run_T04(m, tier):
    e = Frames(m, tier)
    e.run(list(e.roots))
    r = Result("headers, bodies and signatures of transport packets: the bytes each has when it is sent, and what is made of them when it is received")
    r.take(e, {"header", "parse-header", "parse-mac", "parse-body", "parse-network", "serialize", "sign", "verify"})
    r.engine_cover(e)
    r.cover(signature_lengths=sorted(x for x in e.macs if isinstance(x, int)))
    r.floor("results judged", sum(len(v) for k, v in e.sites.items() if k.startswith("results_judged")), 4)
    r.floor("signed packets parsed", len(e.macs), 1)
    return r


class Gate(Frames):
    """T03"""
    def __init__(self, m, tier):
        super().__init__(m, tier)
        engine.SUMMAX, engine.STATEMAX = 32, 128
        self.ACTIVE, self.ERROR = enum(m, "TRANSPORT_STATUS_ACTIVE"), enum(m, "TRANSPORT_STATUS_ERROR")
        self.NONE = enum(m, "TRANSPORT_STATUS_NONE")
        self.FAILED = enum(m, "TRANSPORT_HANDSHAKE_STATUS_FAILED")
        self.AUTH = enum(m, "TRANSPORT_MAC_TYPE_AUTH_CIPHER")
        self.roots = {"wickr_transport_ctx_process_rx_buffer": "rx", "wickr_transport_ctx_process_tx_buffer": "tx", "wickr_transport_ctx_start": "any"}
        self.models.named["wickr_transport_handshake_process"] = self.process

    def process(self, e, st, I, args, name):
        """wickr_transport_handshake_process, by what T01 says about it: it fails, and there is no packet; or any other status, with a packet or none"""
        h = st.norm(args[0])
        s2, s3 = st.copy(), st.copy()
        v = e.fresh_ret(st, I, "handshake status", 32)
        if isinstance(h, V):
            b, o = base_off(h)
            for t in (st, s2, s3):
                self.write(t, b, mkop("add", 64, o, self.fieldof(HS, "status")), 4, self.FAILED if t is s3 else v)
                self.add(t, "processed", t is not s3)
        for t in (st, s2):
            t.addneq(v, self.FAILED)
        r = e.fresh_ret(st, I, "volley")
        st.addneq(r, 0)
        return [(st, r), (s2, 0), (s3, 0)]

    def on_callback(self, st, I, v, args, r):
        super().on_callback(st, I, v, args, r)
        if v.field and v.field[0] == "wickr_transport_callbacks":
            self.site("callbacks:" + v.field[1], I)
            if v.field[1] in ("rx", "tx"):
                self.add(st, v.field[1], st.norm(args[0]), self.by(st, args[1]), self.at(st, args[0], CTX + ".status", 4))

    def on_result(self, st, I, name, args, r):
        super().on_result(st, I, name, args, r)
        if not isinstance(r, V):
            return
        if name in ("wickr_stream_ctx_decode", "wickr_stream_ctx_encode"):
            s, data, aad, seq = (st.norm(x) for x in args)
            dec = name.endswith("decode")
            given = self.by(st, data, "wickr_cipher_result.cipher_text" if dec else None)
            if dec and self.at(st, data, "wickr_cipher_result.cipher_text") == 0:
                given = frozenset((lab("nothing"),))
            t = lab("decoded" if dec else "encoded", s, given, self.by(st, aad), seq)
            b = base_off(self.bytes_of(st, r if dec else self.at(st, r, "wickr_cipher_result.cipher_text")))[0]
            if isinstance(b, V):
                self.set_content(st, b, [t], replace=True)
        elif name == "wickr_transport_handshake_finalize":
            self.add(st, "finalized", st.norm(args[0]))
            for side in ("local", "remote"):
                for k in ("cipher_key.key_data", "evolution_key"):
                    b = base_off(self.bytes_of(st, self.at(st, r, "wickr_transport_handshake_res_t.%s_key.%s" % (side, k))))[0]
                    if isinstance(b, V):
                        self.set_content(st, b, [lab(side, k)], replace=True)

    def on_entry(self, st, f):
        super().on_entry(st, f)
        if self.roots.get(f.name) in ("rx", "tx"):
            self.when(st, 0, self.param(f, 0), "absent")

    def completions(self):
        """the functions that are handed to the user's identity callback"""
        out = set()
        for n in self.all_functions():
            for ins in self.m.funcs[n].blocks.values():
                for i in ins:
                    if i.op == "call" and i.a and i.a[0] == "l":
                        out |= {x[1] for x in i.b or () if isinstance(x, tuple) and x[0] == "g" and x[1] in self.m.funcs}
        return sorted(out)

    def entry(self, p, struct, name, size=8):
        return Lsym(p, self.fieldof(struct, name), size, (struct, name))

    def may_be(self, st, v, k):
        return v == k if isinstance(v, int) else k not in st.neq.get(v, ()) and st.lo_hi(v)[0] <= k <= st.lo_hi(v)[1]

    def all_of(self, st, f, p, I):
        """what holds wherever the transport is used"""
        ctx = st.norm(p[0])
        if not isinstance(ctx, V):
            return False
        was, now = st.norm(self.entry(ctx, CTX, "status", 4)), self.at(st, ctx, CTX + ".status", 4)
        if now != self.ERROR and now != was:
            self.ob(not self.may_be(st, was, self.ERROR), "error-final", I, f, "a transport that is in the error state leaves it", st)
        done = any(x[0] == "finalized" for x in st.facts)
        changed = []
        for side, name, d in (("local", "tx_stream", "STREAM_DIRECTION_ENCODE"), ("remote", "rx_stream", "STREAM_DIRECTION_DECODE")):
            v = self.at(st, ctx, CTX + "." + name)
            if v == st.norm(self.entry(ctx, CTX, name)):
                continue
            changed.append(name)
            self.site("streams_replaced", I)
            for k in ("cipher_key.key_data", "evolution_key"):
                self.ob(done and isinstance(v, V) and self.by(st, v, "wickr_stream_ctx.key." + k) == {lab(side, k)}, "stream-keys", I, f,
                        "%s does not use the %s key of the finished handshake" % (name, side), st)
            self.ob(isinstance(v, V) and self.at(st, v, "wickr_stream_ctx.direction", 4) == enum(self.m, d), "stream-keys", I, f, "%s has the wrong direction" % name, st)
        self.ob(len(changed) != 1, "stream-keys", I, f, "only one of the streams is replaced", st)
        if changed:
            h = st.norm(self.entry(ctx, CTX, "pending_handshake"))
            self.ob(was == self.NONE or isinstance(h, V) and (h._nz or 0 in st.neq.get(h, ())), "stream-keys", I, f,
                    "streams are replaced without a handshake of this transport", st)
        if now == self.ACTIVE and now != was:
            self.ob(len(changed) == 2, "active", I, f, "the transport becomes active without new streams", st)
        for x in st.facts:
            if x[0] in ("rx", "tx") and x[1] == ctx:
                self.site("deliveries", I)
        return True

    def r_any(self, st, f, p, r, I):
        if self.all_of(st, f, p, I):
            for x in st.facts:
                self.ob(x[0] != "rx", "delivery", I, f, "data is delivered that was not received", st)
                if x[0] == "tx":
                    self.ob(not self.about(x[2], "encoded"), "sent", I, f, "data is sent that was not given", st)

    def about(self, c, kind):
        return [t for t in c if isinstance(t, V) and t.k == "lab" and t.a[0] == kind]

    def deep(self, c, kind, d=0):
        out = list(self.about(c, kind))
        for t in c:
            if isinstance(t, V) and t.k == "lab" and d < 6:
                for y in t.a[1:]:
                    if isinstance(y, frozenset):
                        out += self.deep(y, kind, d + 1)
        return out

    def r_rx(self, st, f, p, r, I):
        if not self.all_of(st, f, p, I):
            return
        ctx = st.norm(p[0])
        was = st.norm(self.entry(ctx, CTX, "status", 4))
        whole = self.by(st, p[1])
        done = [x for x in st.facts if x[0] in ("rx", "absent") or x[0] == "processed" and x[1]]
        self.ob(bool(done) or self.at(st, ctx, CTX + ".status", 4) == self.ERROR, "fail-closed", I, f,
                "a packet that is not accepted does not put the transport in the error state", st)
        for x in st.facts:
            if x[0] == "tx":
                self.ob(not self.deep(x[2], "encoded"), "sent", I, f, "data is sent that was not given", st)
            if x[0] != "rx":
                continue
            self.ob(not self.may_be(st, was, self.ERROR), "error-final", I, f, "data is delivered in the error state", st)
            ds = self.about(x[2], "decoded")
            self.ob(bool(ds) and len(ds) == len(x[2]), "delivery", I, f, "data is delivered that was not decoded", st)
            for t in ds:
                s, ct, aad, seq = t.a[1:]
                self.ob(s == st.norm(self.entry(ctx, CTX, "rx_stream")), "delivery", I, f, "data is not decoded with the receiving stream", st)
                self.ob(self.rooted(ct, whole), "delivery", I, f, "what is decoded was not received", st)
                hs = self.about(aad, "header")
                self.ob(len(hs) == len(aad) == 1 and hs[0].a[1] == self.DATA and hs[0].a[2] == self.AUTH and hs[0].a[3] == seq, "header-bound", I, f,
                        "the header of a data packet is not authenticated with its data", st)
                if len(hs) == 1:
                    b, o = base_off(self.bytes_of(st, p[1]))
                    self.ob(seq == st.norm(Lsym(b, o + 1, 8)), "header-bound", I, f, "the sequence number is not the packet's", st)

    def rooted(self, c, whole, d=0):
        """cut out of these bytes, and of nothing else"""
        return bool(c) and d < 6 and all(x in whole or x == lab("nothing") or isinstance(x, V) and x.k == "lab" and x.a[0] == "part" and self.rooted(x.a[3], whole, d + 1) for x in c)

    def r_tx(self, st, f, p, r, I):
        if not self.all_of(st, f, p, I):
            return
        ctx = st.norm(p[0])
        was = st.norm(self.entry(ctx, CTX, "status", 4))
        stream = st.norm(self.entry(ctx, CTX, "tx_stream"))
        self.ob(any(x[0] in ("tx", "absent") for x in st.facts) or self.at(st, ctx, CTX + ".status", 4) == self.ERROR, "fail-closed", I, f,
                "data that is not sent does not put the transport in the error state", st)
        for x in st.facts:
            self.ob(x[0] != "rx", "delivery", I, f, "data is delivered that was not received", st)
            if x[0] != "tx":
                continue
            self.ob(was == self.ACTIVE, "sent", I, f, "data is sent on a transport that is not active", st)
            cats = [t for t in self.terms(x[2], "cat") if len(t.a) > 2 and self.about(t.a[1], "header")]
            self.ob(len(cats) == 1, "sent", I, f, "what is sent is not a packet", st)
            for c in cats:
                hs, es = self.about(c.a[1], "header"), self.deep(c.a[2], "encoded")
                self.ob(len(set(hs)) == 1 and len(set(es)) == 1, "sent", I, f, "what is sent is not a packet of encoded data", st)
                for e in es:
                    s, data, aad, seq = e.a[1:]
                    self.ob(s == stream, "sent", I, f, "data is not encoded with the sending stream", st)
                    self.ob(self.same(data, self.by(st, p[1])), "sent", I, f, "what is encoded is not the data given", st)
                    self.ob(aad == c.a[1] and hs[0].a[1] == self.DATA and hs[0].a[2] == self.AUTH and hs[0].a[3] == seq, "header-bound", I, f,
                            "the header that is sent is not authenticated with the data", st)
                    last = self.entry(stream, "wickr_stream_ctx", "last_seq")
                    self.ob(seq == mkop("add", 64, st.norm(last), 1), "sent", I, f, "the sequence number is not the next one", st)


class Handshake(Frames):
    """T01"""
    def __init__(self, m, tier):
        super().__init__(m, tier)
        engine.SUMMAX, engine.STATEMAX = 64, 128
        self.S = {n: enum(m, "TRANSPORT_HANDSHAKE_STATUS_" + n) for n in ("UNKNOWN", "IN_PROGRESS", "PENDING_VERIFICATION", "PENDING_FINALIZATION", "COMPLETE", "FAILED")}
        self.roots = {"wickr_transport_handshake_" + n: n for n in ("start", "process", "verify_identity", "finalize")}
        self.roots["wickr_transport_root_key_to_stream_key"] = "stream_key"
        self.models.named["wickr_transport_packet_verify"] = self.checked

    def checked(self, e, st, I, args, name):
        """wickr_transport_packet_verify, by what T04 says about it"""
        r = e.fresh_ret(st, I, "verified", 1)
        self.when(st, 1, r, "authentic", st.norm(args[0]), st.norm(args[2]))
        return [(st, r)]

    def on_return(self, st, f, ret, I):
        if self.ctx or f.name not in self.roots:
            return
        self.waiting(st)
        r = st.norm(ret)
        p = [self.param(f, i) for i in range(len(f.params))]
        h = st.norm(p[0])
        if self.roots[f.name] == "stream_key":
            if r != 0:
                self.f, self.I, self.st = f, I, st
                self.stream_key(p, r)
            return
        now = self.at(st, h, HS + ".status", 4) if isinstance(h, V) else None
        if not isinstance(h, V):
            self.ob(r == 0, "failure", I, f, "something is made of no handshake", st)
            return
        self.site("returns:" + self.roots[f.name], I)
        self.h, self.f, self.I, self.st = h, f, I, st
        was, now = st.norm(self.entry(h, "status", 4)), self.at(st, h, HS + ".status", 4)
        S = self.S
        if was == S["FAILED"] or was == S["COMPLETE"] or isinstance(was, V):
            self.judge(now == S["FAILED"] or isinstance(was, V) and self.excluded(was, "FAILED", "COMPLETE"), "final", "a handshake that has failed or is complete goes on")
        if r != 0:
            self.judge(now != S["FAILED"] and isinstance(now, int), "failure", "a failed handshake yields a result")
        getattr(self, "h_" + self.roots[f.name])(p, r, was, now)

    def judge(self, ok, rule, msg):
        self.ob(ok, rule, self.I, self.f, msg, self.st)

    def entry(self, h, name, size=8):
        return Lsym(h, self.fieldof(HS, name), size, (HS, name))

    def excluded(self, v, *names):
        """this status is known not to be one of these"""
        st = self.st
        lo, hi = st.lo_hi(v)
        return all(self.S[n] in st.neq.get(v, ()) or not lo <= self.S[n] <= hi for n in names)

    def has_root_key(self):
        v = self.at(self.st, self.h, HS + ".root_key")
        return isinstance(v, V) and bool(v._nz or 0 in self.st.neq.get(v, ()))

    # -- the functions
    def h_start(self, p, r, was, now):
        st, h, S = self.st, self.h, self.S
        if r == 0:
            self.judge(now == S["FAILED"], "failure", "a handshake that did not start is not failed")
            return
        self.judge(was == S["UNKNOWN"] and now == S["IN_PROGRESS"], "gate", "a handshake starts that was not new")
        self.judge(self.at(st, h, HS + ".is_initiator", 1) == 1, "role", "who starts is not the initiator")
        pub = self.by(st, h, HS + ".local_ephemeral_key.pub_data")
        self.judge(bool(self.terms(pub, "random-public")), "ephemeral", "the ephemeral key is not new")
        rem = self.at(st, h, HS + ".remote_identity")
        for seed in self.payload(r, "seed"):
            self.judge(self.member(seed, "ephemeral_pubkey") == pub, "message", "the ephemeral key that is sent is not the one that is kept")
            self.sends_chain(seed)
            need = [t.a[2] for t in self.terms(self.member(seed, "identity_required"), "val")]
            self.judge(len(need) == 1 and (need[0] == 1 or need[0] == mkop("eq", 64, rem, 0) or need[0] == 0 and isinstance(rem, V) and bool(rem._nz or 0 in st.neq.get(rem, ()))), "message", "the identity is not asked for when it is not known")
        self.transcript(0, self.by(st, r, PKT + ".network_buffer"))

    def h_process(self, p, r, was, now):
        st, h, S = self.st, self.h, self.S
        asked = [x for x in st.facts if x[0] == "asked"]
        if now == S["FAILED"]:
            return
        ver = Lsym(p[1], self.fieldof(PKT, "meta") + self.fieldof(META, "body_meta") + self.fieldof(HM, "protocol_version"), 1, (HM, "protocol_version"))
        self.judge(was in (S["UNKNOWN"], S["IN_PROGRESS"]), "gate", "a packet is taken in a state in which none is expected")
        mine = self.entry(h, "protocol_version", 1)
        self.judge(any(self.known(st, "eq", n, a, b) for n in (8, 32) for a, b in ((ver, mine), (mine, ver))), "version", "a packet of another version is taken")
        rem, rem0 = self.at(st, h, HS + ".remote_identity"), st.norm(self.entry(h, "remote_identity"))
        self.judge(("authentic", p[1], rem) in st.facts, "authentic", "the packet was not verified against the identity of the peer")
        self.judge(self.has_root_key(), "root-key", "a handshake goes on without a root key")
        pinned = isinstance(rem0, V) and rem == rem0 and 0 in st.neq.get(rem0, ())
        if pinned:
            self.judge(now == S["PENDING_FINALIZATION"], "gate", "the handshake with a known peer is in a wrong state")
        else:
            self.judge(rem0 == 0 and now == S["PENDING_VERIFICATION"] and len(asked) == 1, "asked", "an identity that was not known is used without asking for it")
            pub = self.by(st, rem, "wickr_identity_chain.node.sig_key.pub_data")
            for x in asked:
                self.judge(x[1] == h and x[2] == pub and bool(pub) and x[3] == S["PENDING_VERIFICATION"] and ("authentic", p[1], rem) in st.facts, "asked",
                           "the identity that is asked for is not the one the packet was verified against")
        if was == S["UNKNOWN"]:
            reply = self.at(st, h, HS + ".pending_identity_verify_packet") if asked else r
            self.responded(p, reply, rem)
        elif was == S["IN_PROGRESS"]:
            self.judge(r == 0, "message", "the initiator replies to the response")
            self.completed(p, rem)

    def h_verify_identity(self, p, r, was, now):
        S, st = self.S, self.st
        if now == S["FAILED"]:
            self.judge(r == 0, "failure", "a failed handshake yields a packet")
            self.judge(self.at(st, self.h, HS + ".root_key") == 0, "failure", "the root key of a failed handshake is kept")
            return
        self.judge(was == S["PENDING_VERIFICATION"], "gate", "an identity is accepted that was not asked for")
        v = st.norm(p[1])
        self.judge(v == 1 or isinstance(v, V) and 0 in st.neq.get(v, ()), "asked", "an identity is accepted that is not valid")
        self.judge(now == S["IN_PROGRESS"] or now == S["PENDING_FINALIZATION"] and self.has_root_key(), "root-key", "a handshake can be finished that has no root key")
        self.judge(r == st.norm(self.entry(self.h, "pending_identity_verify_packet")) and self.at(st, self.h, HS + ".pending_identity_verify_packet") == 0, "message",
                   "the packet that was held back is not given")

    def h_finalize(self, p, r, was, now):
        S, st = self.S, self.st
        if r == 0:
            self.judge(now == S["FAILED"], "failure", "a handshake that could not be finished is not failed")
            return
        self.judge(was == S["PENDING_FINALIZATION"] and now == S["COMPLETE"], "gate", "a handshake is finished that is not ready")
        self.judge(self.has_root_key(), "root-key", "a handshake is finished without a root key")
        first = st.norm(self.entry(self.h, "is_initiator", 1))
        self.judge(isinstance(first, int), "role", "the keys do not depend on the role")
        arr = base_off(self.at(st, self.h, HS + ".packet_list"))[0]
        said = [self.by(st, Lsym(arr, mk("item", i), 8, ("wickr_array", "item"))) for i in (0, 1)]
        root = self.by(st, self.h, HS + ".root_key.secret")
        for side in ("local", "remote"):
            name = "sender" if (side == "local") == bool(first) else "receiver"
            at = []
            for k in ("cipher_key.key_data", "evolution_key"):
                ps = self.terms(self.by(st, r, "wickr_transport_handshake_res_t.%s_key.%s" % (side, k)), "part")
                self.judge(len(ps) == 1, "keys", "a stream's key is not a part of what was derived")
                for t in ps[:1]:
                    at.append(t)
                    ks = [x for x in self.terms(t.a[3], "kdf") if len(x.a) > 4]
                    self.judge(bool(ks), "keys", "a stream's key is not derived")
                    for x in ks:
                        _, kid, secret, salt, _ = x.a
                        self.judge(kid == enum(self.m, "KDF_ID_HKDF_SHA512") and secret == root, "keys", "a stream's key is not derived from the root key")
                        hs = self.terms(salt, "hash")
                        self.judge(bool(hs) and all(self.exactly(y.a[1], said) for y in hs), "transcript", "a stream's key is not bound to what both sides said")
                        self.judge([x[2] for x in st.facts if x[0] == "stream-for" and t in x[1]] == [name], "role", "the %s key is not that of the %s" % (side, name))
            n = Lsym(st.norm(self.at(st, self.h, HS + ".root_key")), self.fieldof("wickr_transport_root_key", "packets_per_evo_" + ("send" if name == "sender" else "recv")), 4,
                     ("wickr_transport_root_key", "packets_per_evo_" + ("send" if name == "sender" else "recv")))
            self.judge(self.at(st, r, "wickr_transport_handshake_res_t.%s_key.packets_per_evolution" % side, 4) == n, "role", "the ends do not evolve their keys at the same packets")
            if len(at) == 2:
                self.judge(at[0].a[2] == at[1].a[2] and self.total(self.start(at[1])) == self.total(self.start(at[0]), at[0].a[2]), "keys", "the keys of a stream overlap")

    def stream_key(self, p, r):
        """the key of one direction: both of its parts come from the derivation that names the direction"""
        st = self.st
        self.site("stream_keys", self.I)
        for k in ("cipher_key.key_data", "evolution_key"):
            ks = [x for t in self.terms(self.by(st, r, "wickr_stream_key." + k), "part") for x in self.terms(t.a[3], "kdf") if len(x.a) > 4]
            self.judge(bool(ks) and all(x.a[2:] == (self.by(st, p[0], "wickr_transport_root_key.secret"), self.by(st, p[2]), self.by(st, p[3])) for x in ks), "keys",
                       "a stream's key is not derived from the root key for its direction")

    def on_load(self, st, I, b, off, size, v):
        super().on_load(st, I, b, off, size, v)
        if isinstance(v, V) and v.field in ((HS, "is_initiator"), (HS, "remote_identity"), ("wickr_ec_key", "pri_data")):
            self.when(st, 0, v, "no", v.field[1], v)

    # -- messages
    def payload(self, r, which):
        """the messages of this kind that a packet carries: it was signed with the local identity after it was made"""
        st = self.st
        ts = self.terms(self.by(st, r, PKT + ".network_buffer"), "signed-packet")
        self.judge(bool(ts) and all(t.a[2] == st.norm(self.entry(self.h, "local_identity")) for t in ts), "message", "what is sent is not signed by this side")
        out = []
        kind = enum(self.m, "WICKR__PROTO__HANDSHAKE_V1__PAYLOAD_" + which.upper())
        for t in ts:
            ms = self.terms(t.a[1], "msg")
            self.judge(bool(ms), "message", "what is signed is not a message")
            for x in ms:
                y = self.terms(self.member(x, which), "msg")
                self.judge([v.a[2] for v in self.terms(self.member(x, "payload_case"), "val")] == [kind] and bool(y), "message", "what is sent is not a %s" % which)
                out += y
        return out

    def member(self, t, name):
        return t.a[2 + t.a[2:].index(name) + 1] if t is not None and name in t.a[2:] else NOC

    def sends_chain(self, t):
        """the message has the local identity"""
        st = self.st
        for c in self.terms(self.member(t, "id_chain"), "msg"):
            for who in ("root", "node"):
                for i in self.terms(self.member(c, who), "msg"):
                    self.judge(self.same(self.member(i, "sig_key"), self.by(st, self.h, HS + ".local_identity.%s.sig_key.pub_data" % who)), "message", "the identity that is sent is not the local one")
                    return
        self.judge(False, "message", "the identity is not sent")

    def transcript(self, i, content):
        arr = base_off(self.at(self.st, self.h, HS + ".packet_list"))[0]
        xs = [x for x in self.st.facts if x[0] == "recorded" and x[1] == arr and x[2] == i]
        self.judge(all(x[3] == content for x in xs), "transcript", "the transcript has something else than the packet")
        self.judge(bool(xs) or any(x[0] == "unrecorded" for x in self.st.facts), "transcript", "a packet is left out of the transcript")

    def incoming(self, p, which, name):
        """a member of the message in the packet that arrived"""
        S = "_Wickr__Proto__HandshakeV1"
        body = self.by(self.st, p[1], PKT + ".body")
        return frozenset([lab("member", S + "__" + which.capitalize(), name, frozenset([lab("member", S, which, body)]))])

    def agreed(self, key, private, public, theirs, rem):
        """this key content was derived from the agreement of both ephemeral keys, for both identities and both public keys in the order of the roles"""
        st = self.st
        ks = [k for k in self.terms(key, "kdf") if len(k.a) > 4]
        self.judge(bool(ks), "keys", "the root key is not protected by the agreement of the ephemeral keys")
        first = st.norm(self.entry(self.h, "is_initiator", 1))
        self.judge(isinstance(first, int), "role", "the order of the parties does not depend on the role")
        loc = frozenset([lab("chain", st.norm(self.entry(self.h, "local_identity")))])
        far = frozenset([lab("chain", rem)])
        want = [loc, far, public, theirs] if first else [far, loc, theirs, public]
        for k in ks:
            _, kid, secret, salt, info = k.a
            self.judge(kid == enum(self.m, "KDF_ID_HKDF_SHA512"), "keys", "the root key is not protected with a key of the right derivation")
            dh = self.terms(secret, "dh")
            nokey = ("no", "pri_data", Lsym(st.norm(self.entry(self.h, "local_ephemeral_key")), self.fieldof("wickr_ec_key", "pri_data"), 8, ("wickr_ec_key", "pri_data"))) in st.facts      # no agreement comes of a key without private part
            self.judge(bool(dh) and all((d.a[1] == private or private <= d.a[1] and private or nokey and not d.a[1]) and d.a[2] == theirs for d in dh), "keys",
                       "the agreement is not that of both ephemeral keys")
            hs = self.terms(info, "hash")
            self.judge(bool(hs) and all(self.exactly(x.a[1], want) for x in hs), "keys", "the root key is not bound to both identities and both ephemeral keys")

    def exactly(self, have, wants):
        ps = [x for c in self.terms(have, "cat") for x in [c.a[1:]]]
        return bool(ps) and all(len(x) == len(wants) and all(a == b for a, b in zip(x, wants)) for x in ps)

    def responded(self, p, r, rem):
        """the answer to a seed: a new root key, for the ephemeral key of the seed"""
        st, h = self.st, self.h
        root = self.by(st, h, HS + ".root_key.secret")
        self.judge(bool(self.terms(root, "random")) and len(root) == 1, "root-key", "the root key is not new")
        theirs = frozenset([lab("imported", self.incoming(p, "seed", "ephemeral_pubkey"))])
        self.transcript(0, self.by(st, p[1], PKT + ".network_buffer"))
        self.transcript(1, self.by(st, r, PKT + ".network_buffer"))
        for x in self.payload(r, "response"):
            self.site("responses", self.I)
            pub = self.member(x, "ephemeral_pubkey")
            self.judge(bool(self.terms(pub, "random-public")), "ephemeral", "the ephemeral key of the response is not new")
            for c in self.terms(self.member(x, "id_chain"), "msg")[:1]:
                self.sends_chain(x)
            sealed = self.inside(self.member(x, "encrypted_response_data"), "sealed")
            self.judge(bool(sealed), "response", "the root key is not sealed in the response")
            for y in sealed:
                rk = [k for d in self.terms(y.a[1], "msg") for k in self.terms(self.member(d, "root_key"), "msg")]
                self.judge(bool(rk) and all(self.member(k, "secret") == root for k in rk), "response", "the root key that is sent is not the one that is kept")
                self.agreed(y.a[2], frozenset([lab("random-private")]), pub, theirs, rem)

    def completed(self, p, rem):
        """the response to this side's seed: its root key, opened with the key both sides agreed on"""
        st, h = self.st, self.h
        self.transcript(1, self.by(st, p[1], PKT + ".network_buffer"))
        theirs = frozenset([lab("imported", self.incoming(p, "response", "ephemeral_pubkey"))])
        sealed = self.incoming(p, "response", "encrypted_response_data")
        mine = HS + ".local_ephemeral_key"
        root = self.by(st, h, HS + ".root_key.secret")
        ok = bool(root)
        for t in root:
            ok = ok and isinstance(t, V) and t.k == "lab" and t.a[:3] == ("member", "_Wickr__Proto__TransportRootKey", "secret")
            for u in t.a[3] if ok else ():
                ok = ok and isinstance(u, V) and u.a[:3] == ("member", "_Wickr__Proto__HandshakeV1ResponseData", "root_key")
                os = self.terms(u.a[3], "opened") if ok else ()
                ok = ok and bool(os)
                for o in os:
                    self.site("responses_opened", self.I)
                    ok = ok and all(isinstance(x, V) and x.k == "lab" and (x in sealed or x.a[0] == "part" and x.a[3] <= sealed) for x in o.a[1])
                    self.agreed(o.a[2], self.by(st, h, mine + ".pri_data"), self.by(st, h, mine + ".pub_data"), theirs, rem)
        self.judge(ok, "response", "the root key is not what the peer sent")

    def inside(self, c, kind, d=0):
        out = self.terms(c, kind)
        for x in c:
            if isinstance(x, V) and x.k == "lab" and x.a[0] == "cat" and d < 5:
                out += [z for y in x.a[1:] if isinstance(y, frozenset) for z in self.inside(y, kind, d + 1)]
        return out

    def add(self, st, *fact):
        if fact[0] not in ("algo", "unauth", "private", "kdf"):
            super().add(st, *fact)

    def on_callback(self, st, I, v, args, r):
        super().on_callback(st, I, v, args, r)
        if v.field and v.field[1] == "identity_callback":
            self.add(st, "asked", st.norm(args[0]), self.by(st, args[1], "wickr_identity_chain.node.sig_key.pub_data"), self.at(st, args[0], HS + ".status", 4))

    def on_result(self, st, I, name, args, r):
        if name == "wickr_array_set_item":
            b = base_off(st.norm(args[0]))[0]
            if isinstance(b, V):
                self.when(st, 1, r, "recorded", b, st.norm(args[1]), self.by(st, args[2]))
                self.when(st, 0, r, "unrecorded")
        elif name == "wickr_transport_packet_sign":
            pkt = st.norm(args[0])
            b = base_off(self.bytes_of(st, self.at(st, pkt, PKT + ".network_buffer")))[0]
            if isinstance(b, V) and st.norm(r) != 0:
                self.set_content(st, b, [lab("signed-packet", self.by(st, pkt, PKT + ".body"), st.norm(args[2]))], replace=True)
        elif name == "wickr_transport_root_key_to_stream_key" and isinstance(r, V):
            b = args[3]
            t = self.text(self.bytes_of(st, b), self.at(st, b, "wickr_buffer.length"))
            for k in ("cipher_key.key_data", "evolution_key"):
                self.add(st, "stream-for", self.by(st, r, "wickr_stream_key." + k), t)
        elif name == "wickr_identity_chain_serialize" and isinstance(r, V):
            b = base_off(self.bytes_of(st, r))[0]
            if isinstance(b, V):
                self.set_content(st, b, [lab("chain", st.norm(args[0]))], replace=True)
        else:
            super().on_result(st, I, name, args, r)

    def t_ec_key_import(self, st, I, a, r):
        b = base_off(self.bytes_of(st, self.at(st, r, "wickr_ec_key.pub_data")))[0]
        if isinstance(b, V):
            self.set_content(st, b, [lab("imported", self.by(st, a[0]))], replace=True)

    def t_wickr_crypto_kdf_meta(self, st, I, a, r):
        K = "wickr_kdf_meta."
        self.mark(st, self.at(st, r, "wickr_kdf_result.hash"), "kdf", self.at(st, a[0], K + "algo.kdf_id", 4), self.by(st, a[1]),
                  self.by(st, a[0], K + "salt"), self.by(st, a[0], K + "info"))

    def text(self, v, n):
        """the n bytes of a string literal"""
        if not (isinstance(v, V) and v.k == "glob" and isinstance(n, int)):
            return None
        x = self.m.globals.get(v.a[0])
        q = re.match(r'c"((?:[^"\\]|\\[0-9A-F]{2})*)"', x[1].strip()) if x and x[2] else None
        return re.sub(r"\\([0-9A-F]{2})", lambda y: chr(int(y.group(1), 16)), q.group(1))[:n] if q else None


def run_T01(m, tier):
    e = Handshake(m, tier)
    e.run(list(e.roots))
    r = Result("what every step of a handshake leaves behind: its status, what it sends, what it accepted and from whom, and how its keys were derived")
    r.take(e, {"gate", "final", "failure", "role", "ephemeral", "message", "version", "authentic", "root-key", "asked", "transcript", "response", "keys"})
    r.engine_cover(e)
    for k in ("start", "process", "verify_identity", "finalize"):
        r.floor("returns of " + k, len(e.sites.get("returns:" + k, ())), 1)
    for k in ("responses", "responses_opened", "stream_keys"):
        r.floor(k.replace("_", " "), len(e.sites.get(k, ())), 1)
    return r


def run_T03(m, tier):
    e = Gate(m, tier)
    e.run(list(e.roots))
    more = e.completions()
    for n in more:
        e.roots[n] = "any"
    e.run(more)
    r = Result("what a transport hands to its user and to the network, its streams and its status, at every return of its entry points")
    r.take(e, {"delivery", "sent", "header-bound", "stream-keys", "active", "error-final", "fail-closed"})
    r.engine_cover(e)
    r.floor("entry points", len(e.roots), 4)
    r.floor("results judged", sum(len(v) for k, v in e.sites.items() if k.startswith("results_judged")), 4)
    r.floor("streams replaced", len(e.sites.get("streams_replaced", ())), 2)
    r.floor("deliveries", len(e.sites.get("deliveries", ())), 2)
    return r

"""S01: what a serializer writes is what the parser of the same structure reads back: every member of the structure goes to one place of
the format, whole, and comes back from that place."""
import engine
from base import AnalysisError, Result
from engine import V, Lsym, mk, mkop, base_off
from models import lab, NOC
from rules.wire import Wire, members, proto_struct

SER = {"wickr_cipher_key_serialize": "key", "wickr_cipher_result_serialize": "sealed", "wickr_ecdsa_result_serialize": "signature"}
PARSE = {"wickr_cipher_key_from_buffer": "key", "wickr_cipher_result_from_buffer": "sealed", "wickr_ecdsa_result_create_from_buffer": "signature"}

# structure -> (protobuf message, [(member, kind, member of the message)])
# num: a number; code: the number of an algorithm; bytes: a buffer; key / sealed / signature: an object in its own format; pub / pri: a part of an EC key; ec: which part the
# message says; const: the same constant in every message; a structure's name: that structure
FORMAT = {
    "wickr_payload": ("payload", [
        ("meta.ephemerality_settings.ttl", "num", "metadata.ephemerality_settings.ttl"),
        ("meta.ephemerality_settings.bor", "num", "metadata.ephemerality_settings.bor"),
        ("meta.channel_tag", "bytes", "metadata.channel_tag"),
        ("meta.content_type", "num", "metadata.content_type"),
        ("body", "bytes", "body")]),
    "wickr_ephemeral_keypair": ("ephemeral_keypair", [
        ("identifier", "num", "identifier"), ("ec_key", "pub", "ec_key"), ("signature", "signature", "key_signature")]),
    "wickr_identity": ("identity", [
        ("type", "type", "type"), ("identifier", "bytes", "identifier"), ("sig_key", "ec", "sig_key"),
        ("signature", "signature", "signature"), (None, "private", "is_private")]),
    "wickr_identity_chain": ("identity_chain", [
        ("root", "wickr_identity", "root"), ("node", "wickr_identity", "node"), ("status", "fresh", None), ("_status_cache", "fresh", None)]),
    "wickr_node": ("node", [
        ("dev_id", "bytes", "devid"), ("id_chain", "wickr_identity_chain", "id_chain"),
        ("ephemeral_keypair", "wickr_ephemeral_keypair", "ephemeral_keypair"),
        ("status", "fresh", None), ("_status_cache", "fresh", None)]),
    "wickr_storage_keys": ("storage_keys", [
        (None, "const", "version"), ("local", "key", "local_storage"), ("remote", "key", "remote_storage")]),
    "wickr_root_keys": ("root_keys", [
        (None, "const", "version"), ("node_signature_root", "pri", "node_signature_root"),
        ("node_storage_root", "key", "node_storage_root"), ("remote_storage_root", "key", "remote_storage_root")]),
    "wickr_stream_key": ("stream_key", [
        ("cipher_key", "key", "cipher_key"), ("evolution_key", "bytes", "evolution_key"), ("user_data", "bytes", "user_data"),
        ("packets_per_evolution", "num", "packets_per_evo")]),
    "wickr_transport_root_key": ("transport_root_key", [
        ("secret", "bytes", "secret"), ("cipher.cipher_id", "code", "cipher_id"),
        ("packets_per_evo_send", "num", "packets_per_evo_send"), ("packets_per_evo_recv", "num", "packets_per_evo_recv")]),
    "wickr_key_exchange": ("key_exchange_set__exchange", [
        ("exchange_id", "bytes", "identifier"), ("key_id", "num", "key_id"), ("exchange_ciphertext", "sealed", "exchange_data")]),
    "wickr_key_exchange_set": ("key_exchange_set", [
        ("sender_pub", "pub", "sender_pub"), ("exchanges", "[wickr_key_exchange", "exchanges")]),
    "wickr_ctx": ("ctx", [
        ("id_chain", "wickr_identity_chain", "id_chain"), ("storage_keys", "wickr_storage_keys", "storage"),
        ("engine", "given", None), ("dev_info", "given", None), ("packet_header_key", "fresh", None),
        ("pkt_enc_version", "fresh", None)]),
}
FORMAT = {k: (proto_struct(None, v[0]), v[1]) for k, v in FORMAT.items()}
WRITE = {"wickr_payload_serialize": "wickr_payload", "wickr_ephemeral_keypair_serialize": "wickr_ephemeral_keypair",
         "wickr_identity_serialize": "wickr_identity", "wickr_identity_chain_serialize": "wickr_identity_chain",
         "wickr_identity_chain_serialize_private": "wickr_identity_chain", "wickr_node_serialize": "wickr_node",
         "wickr_storage_keys_serialize": "wickr_storage_keys", "wickr_root_keys_serialize": "wickr_root_keys",
         "wickr_stream_key_serialize": "wickr_stream_key", "wickr_transport_root_key_to_proto": "wickr_transport_root_key",
         "wickr_key_exchange_set_serialize": "wickr_key_exchange_set", "wickr_ctx_serialize": "wickr_ctx"}
READ = {"wickr_payload_create_from_buffer": "wickr_payload", "wickr_ephemeral_keypair_create_from_buffer": "wickr_ephemeral_keypair",
        "wickr_identity_create_from_buffer": "wickr_identity", "wickr_identity_chain_create_from_buffer": "wickr_identity_chain",
        "wickr_node_create_from_buffer": "wickr_node", "wickr_storage_keys_create_from_buffer": "wickr_storage_keys",
        "wickr_root_keys_create_from_buffer": "wickr_root_keys", "wickr_stream_key_create_from_buffer": "wickr_stream_key",
        "wickr_transport_root_key_from_proto": "wickr_transport_root_key",
        "wickr_key_exchange_set_create_from_buffer": "wickr_key_exchange_set", "wickr_ctx_create_from_buffer": "wickr_ctx"}
PRIVATE = {"wickr_identity_chain_serialize_private", "wickr_ctx_serialize"}
OPTIONAL = [("wickr_identity", "signature"), ("wickr_ephemeral_keypair", "signature"), ("wickr_node", "ephemeral_keypair"),
            ("wickr_stream_key", "user_data")]
IDENTITY = proto_struct(None, "identity")


class Agree(Wire):
    """one scenario: what identities are, which optional members are there, how many exchanges there are, what messages say they hold"""

    def __init__(self, m, tier, optional, node, private, small):
        super().__init__(m, tier)
        self.SMALL = small
        self.widen = max(engine.WIDEN, small)
        self.there, self.node, self.private = optional, node, private
        self.given = {("wickr_identity", "type"): node, (IDENTITY, "type"): node, (IDENTITY, "is_private"): private}
        self.has = {}
        for s, f in OPTIONAL:
            if not optional:
                self.given[s, f] = 0
            for path, kind, name in FORMAT[s][1]:
                if path == f:
                    self.has[FORMAT[s][0], name] = int(optional)
        self.roots = dict([(n, "write") for n in WRITE] + [(n, "read") for n in READ])
        self.wrote = {}
        self.judged = set()
        self.omitted = set()

    # -- the scenario
    def read(self, st, base, off, size, field=None, leaves=None):
        v = super().read(st, base, off, size, field, leaves)
        if isinstance(v, V) and v.k == "L" and v.field:
            s, n = v.field
            if v.field in self.given:
                return self.given[v.field]
            if n.startswith("has_") and s.startswith("_Wickr__Proto__"):
                return self.has.get((s, n[4:]), 1)
            if (s, n) in self.has and not self.has[s, n]:
                return 0                # a message that is not there
            if self.there and ((s, n) in OPTIONAL or (s, n) in self.has):
                st.addneq(v, 0)
            if n.startswith("n_") and self.SMALL and s.startswith("_Wickr__Proto__"):
                return self.SMALL
        return v

    # -- provenance
    def message(self, st, b, struct, d=0):
        t = super().message(st, b, struct, d)
        out = []
        for n, off, size, s, ptr in members(self.m, struct):
            if n.startswith("has_") or n.startswith("n_"):
                out += [n, frozenset([lab("val", size, st.norm(self.read(st, b, off, size, (struct, n))))])]
            elif s == "ProtobufCBinaryData":
                out += [n + ".len", frozenset([lab("val", 8, st.norm(self.read(st, b, off + self.fieldof(s, "len"), 8, (s, "len"))))])]
        return lab(*t.a, *out)

    def on_result(self, st, I, name, args, r):
        super().on_result(st, I, name, args, r)
        if not isinstance(r, V):
            return
        if name in SER and isinstance(st.norm(args[0]), V):
            p = self.bytes_of(st, r)
            b, (o, off) = base_off(p)[0] if isinstance(p, V) else None, base_off(st.norm(r))
            x = lab("ser", SER[name], st.norm(args[0]))
            if isinstance(b, V) and isinstance(off, int):
                self.set_content(st, b, [x], replace=True)
                self.write(st, o, off + self.fieldof("wickr_buffer", "length"), 8, mkop("lengthof", 64, x, 1))
        elif name in PARSE:
            self.add(st, "parsed", base_off(st.norm(r))[0], PARSE[name], self.by(st, args[0]), self.at(st, args[0], "wickr_buffer.length"),
                     self.bytes_of(st, args[0]))

    def t_ec_key_import(self, st, I, a, r):
        if isinstance(r, V):
            self.add(st, "imported", base_off(st.norm(r))[0], st.norm(a[1]), self.by(st, a[0]), self.at(st, a[0], "wickr_buffer.length"))

    def on_unpack(self, st, I, msg, o, b, off, args, src):
        super().on_unpack(st, I, msg, o, b, off, args, src)
        self.add(st, "message", o, src if off == 0 else NOC, st.norm(args[1]))

    def on_return(self, st, f, ret, I):
        super().on_return(st, f, ret, I)
        if f.rty == "ptr" and ret is not None and st.norm(ret) == 0:
            for k in ("parsed", "imported", "message"):
                self.drop(st, k)

    # -- writing
    def r_write(self, st, f, p, r, I):
        t = WRITE[f.name]
        self.judged.add(f.name)
        if f.name.endswith("_to_proto"):
            msgs = [self.message(st, base_off(r)[0], FORMAT[t][0])]
        else:
            msgs = [x for x in self.by(st, r) if isinstance(x, V) and x.k == "lab" and x.a[0] == "msg"]
        self.ob(len(msgs) == 1, "written", I, f, "the result is not one packed message", st)
        for m in msgs:
            self.put(st, f, I, m, t, st.norm(p[0]), t, f.name in PRIVATE)

    def get(self, msg, name):
        a = msg.a[2:]
        for k in range(0, len(a), 2):
            if a[k] == name:
                return a[k + 1]
        return None

    def num(self, msg, name):
        for x in self.get(msg, name) or ():
            if x.a[0] == "val":
                return x.a[2]
        return None

    def descend(self, msg, path):
        """(the message that has the last member, its name)"""
        ns = path.split(".")
        for n in ns[:-1]:
            c = [x for x in self.get(msg, n) or () if isinstance(x, V) and x.k == "lab" and x.a[0] == "msg"]
            if len(c) != 1:
                return None, None
            msg = c[0]
        return msg, ns[-1]

    def size(self, struct, path):
        s = struct
        for n in path.split("."):
            e = [x for x in members(self.m, s) if x[0] == n]
            if not e:
                raise AnalysisError("%s has no member %s" % (s, n))
            s = e[0][3]
        return e[0][2]

    def put(self, st, f, I, msg, t, obj, path, private):
        struct, fields = FORMAT[t]
        if not self.ob(msg.a[1] == struct, "written", I, f, "%s is not written as %s" % (path, struct[15:]), st):
            return
        named = {name for _, kind, name in fields if name}
        self.complete(f, I, struct, named, t, fields)
        for fld, kind, name in fields:
            if name is None:
                continue
            what = "%s.%s" % (path, fld or name)
            m, n = self.descend(msg, name)
            if not self.ob(m is not None, "written", I, f, "%s is not written" % what, st):
                continue
            has = self.num(m, "has_" + n) if self.get(m, "has_" + n) is not None else 1
            x = self.at(st, obj, "%s.%s" % (t, fld), self.size(t, fld)) if fld else None
            if kind in ("num", "code", "type", "private", "const"):
                got = self.num(m, n)
                want = x if kind in ("num", "code", "type") else int(private) if kind == "private" else got
                if kind == "const":
                    self.ob(isinstance(got, int), "written", I, f, "%s is not a constant" % what, st)
                    self.wrote.setdefault((struct, n), set()).add(got)
                if kind == "type":
                    want = self.given[IDENTITY, "type"]
                ok = True
                for there in (0, 1):        # a member with the value 0 need not be written
                    s = st.copy()
                    try:
                        s.assume(mkop("eq", 64, has, 0), not there) if isinstance(has, V) else None
                        if isinstance(has, int) and bool(has) != bool(there):
                            continue
                    except engine.Infeasible:
                        continue
                    if not there:
                        self.omitted.add((m.a[1], n))
                    ok = ok and (self.value(s, got, want, 8 * self.size(t, fld) if kind == "num" else 8) if there else
                                 self.equal(s, want, 0) or isinstance(want, V) and s.lo_hi(want)[1] == 0)
                self.ob(ok, "written", I, f, "%s is not written as it is" % what, st)
            elif kind.startswith("["):
                self.array(st, f, I, m, n, kind[1:], x, what, private)
            elif kind in FORMAT:
                c = [y for y in self.get(m, n) or () if isinstance(y, V) and y.k == "lab" and y.a[0] == "msg"]
                if x == 0:
                    self.ob(not c or not self.nonnull(c[0]), "written", I, f, "%s is written although there is none" % what, st)
                elif self.ob(len(c) == 1 and isinstance(x, V), "written", I, f, "%s is not written" % what, st):
                    self.put(st, f, I, c[0], kind, x, what, private)
            else:
                self.put_bytes(st, f, I, m, n, kind, x, what, private, has)

    def nonnull(self, msg):
        return any(isinstance(c, frozenset) and c and not all(x.a[0] == "val" for x in c) for c in msg.a[3::2] if isinstance(c, frozenset))

    def put_bytes(self, st, f, I, m, n, kind, x, what, private, has):
        c, ln = self.get(m, n), self.num(m, n + ".len")
        if x == 0:
            self.ob(self.equal(st, has, 0) or not c, "written", I, f, "%s is written although there is none" % what, st)
            return
        if kind == "signature" and self.given["wickr_identity", "type"] == 0 and what.endswith("signature") and self.equal(st, has, 0) and m.a[1] == IDENTITY:
            return                      # the identity of an account is not signed
        ok = self.equal(st, has, 1)
        if kind in SER.values():
            s = [y for y in c or () if y.a[0] == "ser"]
            ok = ok and len(s) == 1 and s[0].a[1] == kind and st.norm(s[0].a[2]) is x and self.len_is(st, ln, mkop("lengthof", 64, s[0], 1))
        else:
            b = x if kind == "bytes" else self.at(st, x, "wickr_ec_key." + ("pri_data" if kind == "pri" or kind == "ec" and private else "pub_data"))
            ok = ok and isinstance(b, V) and self.same(c, self.by(st, b)) and len(c) == len(self.by(st, b)) and \
                self.len_is(st, ln, self.at(st, b, "wickr_buffer.length"))
        self.ob(ok, "written", I, f, "%s is not written as it is" % what, st)

    def array(self, st, f, I, m, n, t, x, what, private):
        got = {y.a[1]: y.a[2] for y in self.get(m, n) or () if y.a[0] == "at"}
        if not self.SMALL:
            return
        self.ob(self.value(st, self.num(m, "n_" + n), self.SMALL) and sorted(got) == list(range(self.SMALL)), "written", I, f,
                "not all of %s is written" % what, st)
        for k in got:
            for y in got[k]:
                self.put(st, f, I, y, t, self.item(x, k), "%s[%d]" % (what, k), private)

    def item(self, x, k):
        return Lsym(base_off(x)[0], mk("item", k), 8, ("wickr_array", "item"))

    def equal(self, st, a, b):
        return a is b or a == b or (isinstance(a, V) or isinstance(b, V)) and a is not None and b is not None and st.simp(mkop("eq", 64, a, b)) == 1

    def value(self, st, a, b, bits=8):
        """the same number, at least as wide as this"""
        if a is None or b is None:
            return False
        a, b = self.narrow(st, a, bits), self.narrow(st, b, bits)
        return self.equal(st, a, b) or any(self.equal(st, x, mkop("trunc", w, y, 64)) for x, y in ((a, b), (b, a)) if isinstance(y, V)
                                           for w in (8, 16, 32) if bits <= w < y.bits)

    def narrow(self, st, n, bits):
        """a number without the conversions that keep this many bits"""
        n = st.norm(n)
        while isinstance(n, V) and n.k == "op" and n.a[0] == "trunc" and n.a[1] >= bits:
            n = st.norm(n.a[2])
        return n

    def complete(self, f, I, struct, named, t, fields):
        """the table covers the message and the structure"""
        def walk(s, pre, depth, into):
            for n, off, size, s2, ptr in members(self.m, s):
                if n == "base" or n.startswith("has_") or n.startswith("n_") or n == "item_store":
                    continue
                p = pre + n
                if p in into:
                    continue
                if any(q.startswith(p + ".") for q in into) and s2:
                    walk(s2, p + ".", depth + 1, into)
                    continue
                self.ob(t == "wickr_transport_root_key" and p.startswith("cipher."), "complete", I, f,
                        "%s.%s is not part of what is serialized" % (s, n), None)
        walk(struct, "", 0, named)
        walk(t, "", 0, {x[0] for x in fields if x[0]})

    # -- reading
    def r_read(self, st, f, p, r, I):
        t = READ[f.name]
        self.judged.add(f.name)
        if f.name.endswith("_from_proto"):
            o, src = st.norm(p[0]), None
        else:
            buf = [i for i, (ty, nm, at) in enumerate(f.params) if nm.strip("%") == "buffer"] or [len(p) - 1]
            ms = [x for x in st.facts if x[0] == "message" and x[2] and self.same(x[2], self.by(st, p[buf[0]])) and
                  self.len_is(st, x[3], self.at(st, p[buf[0]], "wickr_buffer.length"))]
            if not self.ob(len(ms) == 1, "read", I, f, "it does not read one message, the whole buffer", st):
                return
            o, src = ms[0][1], ms[0][2]
        self.take(st, f, I, t, o, src, st.norm(r), t)

    def locate(self, o, struct, src, path):
        """(object, structure, member, its offset, size, what the message itself was read from)"""
        ns = path.split(".")
        for n in ns[:-1]:
            e = [x for x in members(self.m, struct) if x[0] == n][0]
            o, struct, src = Lsym(o, e[1], 8, (struct, n)), e[3], src if src is None else frozenset([lab("member", struct, n, src)])
        e = [x for x in members(self.m, struct) if x[0] == ns[-1]][0]
        return o, struct, ns[-1], e[1], e[2], src

    def take(self, st, f, I, t, o, src, res, path):
        struct, fields = FORMAT[t]
        for fld, kind, name in fields:
            if fld is None or name is None:
                continue
            what = "%s.%s" % (path, fld)
            b, s, n, off, size, msrc = self.locate(o, struct, src, name)
            x = self.at(st, res, "%s.%s" % (t, fld), self.size(t, fld))
            here = self.has.get((s, n), 1)
            if not here:
                self.ob(x == 0, "read", I, f, "%s is not empty although the message has none" % what, st)
                continue
            if kind in ("num", "code", "type"):
                y = st.norm(self.read(st, b, off, size, (s, n)))
                self.ob(self.value(st, x, y, 8 * self.size(t, fld) if kind == "num" else 8), "read", I, f, "%s is not what the message says" % what, st)
                continue
            if x == 0 or not isinstance(x, V):
                self.ob(False, "read", I, f, "%s is empty although the message has it" % what, st)
                continue
            if kind.startswith("["):
                self.take_array(st, f, I, kind[1:], Lsym(b, off, 8, (s, n)), frozenset() if msrc is None else msrc, x, what, s, n)
            elif kind in FORMAT:
                self.take(st, f, I, kind, Lsym(b, off, 8, (s, n)), None if msrc is None else frozenset([lab("member", s, n, msrc)]), x, what)
            else:
                self.take_bytes(st, f, I, kind, b, s, n, off, msrc, x, what)

    def take_bytes(self, st, f, I, kind, b, s, n, off, msrc, x, what):
        D = "ProtobufCBinaryData"
        ln = st.norm(self.read(st, b, off + self.fieldof(D, "len"), 8, (D, "len")))
        c = self.content(st, Lsym(b, off + self.fieldof(D, "data"), 8, (D, "data"))) if msrc is None else frozenset([lab("member", s, n, msrc)])
        xb = base_off(x)[0]
        if kind == "bytes":
            ok = bool(c) and self.by(st, x) == c and self.len_is(st, self.at(st, x, "wickr_buffer.length"), ln)
        elif kind in ("pub", "pri", "ec"):
            want = self.private if kind == "ec" else int(kind == "pri")
            ok = any(y[0] == "imported" and y[1] is xb and y[2] == want and y[3] == c and self.len_is(st, y[4], ln) for y in st.facts)
        else:
            ok = any(y[0] == "parsed" and y[1] is xb and y[2] == kind and y[3] == c and self.len_is(st, y[4], ln) for y in st.facts)
        self.ob(ok, "read", I, f, "%s is not what the message says" % what, st)

    def take_array(self, st, f, I, t, arr, msrc, x, what, s, n):
        if not self.SMALL:
            return
        xb = base_off(x)[0]
        self.ob(self.value(st, self.read(st, xb, 0, 4, ("wickr_array", "size")), self.SMALL), "read", I, f, "not all of %s is read" % what, st)
        for k in range(self.SMALL):
            e = self.getobj(st, xb).cells.get(mk("item", k))
            e = st.norm(e[1]) if e else None
            if self.ob(isinstance(e, V), "read", I, f, "%s[%d] is not read" % (what, k), st):
                self.take(st, f, I, t, Lsym(arr, 8 * k, 8, None), frozenset([lab("member", s, n, msrc, k)]), e, "%s[%d]" % (what, k))


# the formats that are not protobuf messages: a sequence of pieces
# code: one byte that names algorithms; byte: a number; buf: a buffer; pad: one byte that says how many zero bytes follow, and these
PIECES = {
    "wickr_cipher_key": ("wickr_cipher_key_serialize", "wickr_cipher_key_from_buffer", [
        ("code", "cipher.cipher_id"), ("buf", "key_data", "cipher.key_len")]),
    "wickr_cipher_result": ("wickr_cipher_result_serialize", "wickr_cipher_result_from_buffer", [
        ("code", "cipher.cipher_id"), ("buf", "iv", "cipher.iv_len"), ("buf", "auth_tag", "cipher.auth_tag_len"), ("buf", "cipher_text", None)]),
    "wickr_ecdsa_result": ("wickr_ecdsa_result_serialize", "wickr_ecdsa_result_create_from_buffer", [
        ("code", "curve.identifier", "digest_mode.digest_id"), ("pad", "curve.signature_size", "sig_data"), ("buf", "sig_data", None)]),
    "wickr_kdf_meta": ("wickr_kdf_meta_serialize", "wickr_kdf_meta_create_with_buffer", [
        ("code", "algo.kdf_id"), ("buf", "salt", "algo.salt_size")]),
    "wickr_packet": ("wickr_packet_serialize", "wickr_packet_create_from_buffer", [
        ("byte", "version"), ("code", "signature.curve.identifier"), ("buf", "content", "-signature.curve.signature_size"),
        ("object", "signature", "signature.curve.signature_size")]),
}


class Pieces(Agree):
    def __init__(self, m, tier):
        super().__init__(m, tier, True, 0, 0, 0)
        self.given, self.has = {}, {}
        self.roots = {}
        for t, (w, r, _) in PIECES.items():
            self.roots[w], self.roots[r] = "put", "take"
        self.of = {n: t for t, v in PIECES.items() for n in v[:2]}
        self.written, self.found_ = {}, {}

    def size_of(self, t, path):
        """bytes of the member at the end of a path through structures"""
        return self.size(t, path)

    def field_of(self, st, t, obj, path):
        return self.at(st, obj, t + "." + path, self.size(t, path))

    # -- writing
    def r_put(self, st, f, p, r, I):
        self.judged.add(f.name)
        t = self.of[f.name]
        obj = st.norm(p[0])
        spec = PIECES[t][2]
        want = [q for x in spec if not (x[1] == "auth_tag" and st.norm(self.field_of(st, t, obj, "cipher.is_authenticated")) == 0)
                for q in ([x] if x[0] != "pad" else [x, ("zeros",) + x[1:]])]
        cats = self.terms(self.by(st, r), "cat")
        if not self.ob(bool(cats), "written", I, f, "the result is not a concatenation", st):
            return
        for c in cats:
            parts = list(c.a[1:])
            z = [k for k, x in enumerate(want) if x[0] == "zeros"]
            if z and len(parts) == len(want) - 1 and not self.terms(parts[z[0]], "zeros"):
                parts.insert(z[0], NOC)       # written without any padding: what it says it has is judged
            if not self.ob(len(parts) == len(want), "written", I, f, "it is not of %d pieces" % len(want), st):
                continue
            for x, w in zip(parts, want):
                self.piece(st, f, I, t, obj, x, w)

    def piece(self, st, f, I, t, obj, x, w):
        kind, name = w[0], w[1]
        val = [y.a[2] for y in self.terms(x, "val") if y.a[1] == 1]
        what = "%s.%s" % (t, name)
        if kind == "zeros":
            z = self.terms(x, "zeros")
            ok = not x or len(z) == 1 and self.padding(st, t, obj, w, z[0].a[1])
        elif kind in ("code", "byte", "pad"):
            ok = len(val) == 1
            if ok and kind == "byte":
                ok = self.value(st, val[0], self.field_of(st, t, obj, name))
            elif ok and kind == "pad":
                ok = self.padding(st, t, obj, w, val[0])
            elif ok:
                self.written.setdefault(t, []).append((st.copy(), [self.field_of(st, t, obj, n) for n in w[1:]], val[0], f, I))
        else:
            y = self.field_of(st, t, obj, name)
            if kind == "buf":
                ok = isinstance(y, V) and self.same(x, self.by(st, y)) and len(x) == len(self.by(st, y)) or y == 0 and not x
            else:
                s = self.terms(x, "ser")
                ok = len(s) == 1 and len(x) == 1 and st.norm(s[0].a[2]) is y
        self.ob(ok, "written", I, f, "%s is not written in its place" % what if kind not in ("pad", "zeros") else "the padding of %s is not what it says" % t, st)

    def padding(self, st, t, obj, w, n):
        n = st.norm(n)
        while isinstance(n, V) and n.k == "op" and n.a[0] in ("trunc", "zext"):
            n = st.norm(n.a[2])
        d = self.plus(self.plus(self.lin(st, self.field_of(st, t, obj, w[1])), self.lin(st, self.field_of(st, t, obj, w[2] + ".length")), -1), {1: 2}, -1)
        if self.lin(st, n) == d:
            return True
        return any(v == n and isinstance(k, V) and k.k == "op" and k.a[0] == "trunc" and self.lin(st, k.a[2]) == d for k, v in st.eq.items())

    def on_result(self, st, I, name, args, r):
        super().on_result(st, I, name, args, r)
        if name == "wickr_buffer_create_empty_zero" and isinstance(r, V):
            b = self.bytes_of(st, r)
            b = base_off(b)[0] if isinstance(b, V) else None
            if isinstance(b, V):
                self.set_content(st, b, [lab("zeros", st.norm(args[0]))], replace=True)

    # -- reading
    def r_take(self, st, f, p, r, I):
        self.judged.add(f.name)
        t = self.of[f.name]
        buf = st.norm(p[0])
        res = st.norm(r)
        base, o0 = base_off(self.bytes_of(st, buf))
        total = self.at(st, buf, "wickr_buffer.length")
        src = self.by(st, buf)
        pos = {}
        for x in PIECES[t][2]:
            what = "%s.%s" % (t, x[1])
            here = self.plus(pos, {})
            k = here.get(1, 0)
            byte = st.norm(self.read(st, base, o0 + k, 1)) if set(here) <= {1} and isinstance(o0, int) else None
            if x[0] == "code":
                codes = [self.field_of(st, t, res, n) for n in x[1:]]
                self.found_.setdefault(t, []).append((st.copy(), codes, byte, f, I, len(x) == 2 and t == "wickr_packet"))
                pos = self.plus(pos, {1: 1})
            elif x[0] == "byte":
                self.ob(self.value(st, self.field_of(st, t, res, x[1]), byte), "read", I, f, "%s is not the byte in its place" % what, st)
                pos = self.plus(pos, {1: 1})
            elif x[0] == "pad":
                pos = self.plus(self.plus(pos, {1: 1}), self.lin(st, byte))
            else:
                v = self.field_of(st, t, res, x[1])
                if x[1] == "auth_tag" and st.norm(self.field_of(st, t, res, "cipher.is_authenticated")) == 0:
                    self.ob(v == 0, "read", I, f, "%s is read although there is none" % what, st)
                    continue
                rest = self.plus(self.lin(st, total), pos, -1)
                size = rest
                if x[2]:
                    n = self.lin(st, self.field_of(st, t, res, x[2].strip("-")))
                    size = self.plus(rest, n, -1) if x[2][0] == "-" else n
                self.ob(self.cut(st, x[0], v, base, o0, pos, size, src, rest), "read", I, f, "%s is not what is in its place" % what, st)
                pos = self.plus(pos, size)

    def cut(self, st, kind, v, base, o0, pos, size, src, rest):
        """v holds these bytes of the buffer"""
        if v == 0:
            return not rest or self.is_zero(st, rest)
        if not isinstance(v, V):
            return False
        if kind == "object":
            got = [(y[5], y[4]) for y in st.facts if y[0] == "parsed" and y[1] is base_off(v)[0]]
        else:
            got = [(y.a[1], y.a[2]) for y in self.terms(self.by(st, v), "part") if y.a[3] == src]
            if len(self.by(st, v)) != 1:
                return False
        for ptr, n in got:
            b, o = base_off(st.norm(ptr))
            if b is base and self.same_num(st, self.plus(self.lin(st, o), self.lin(st, o0), -1), pos) and self.same_num(st, n, size):
                return True
        return False

    def is_zero(self, st, d):
        """the condition of the path says that this sum is 0"""
        for k, v in st.eq.items():
            if isinstance(v, int) and isinstance(k, V) and self.plus(self.plus({k: 1}, {1: v}, -1), d, -1) == {}:
                return True
            if isinstance(k, V) and k.k == "op" and k.a[0] in ("eq", "ult") and v == (1 if k.a[0] == "eq" else 0):
                e = self.plus(self.lin(st, k.a[2]), self.lin(st, k.a[3]), -1)
                if e == d or self.plus({}, e, -1) == d:
                    return True
        return False

    # -- codes
    def codes(self):
        for t in PIECES:
            table = {}
            reads = self.found_.get(t, ())
            for st, cs, byte, f, I, loose in reads:
                if self.ob(all(isinstance(c, int) for c in cs) and isinstance(byte, (int, V)), "read", I, f, "the algorithm of %s is not told by its place" % t, None):
                    table.setdefault(tuple(cs), []).append((st, byte, f, I, loose))
            codes = {}
            for cs in table:
                for st, fields, e, f, I in self.written.get(t, ()):
                    s = st.copy()
                    try:
                        for x, c in zip(fields, cs):
                            s.assume(mkop("eq", 64, x, c), True) if isinstance(x, V) else None
                            if isinstance(x, int) and x != c:
                                raise engine.Infeasible()
                    except engine.Infeasible:
                        continue
                    v = self.fold(s, e)
                    if self.ob(isinstance(v, int), "written", I, f, "the algorithm %s of %s has no code" % (cs, t), None):
                        codes.setdefault(cs, set()).add(v)
            for cs, sts in table.items():
                f, I = sts[0][2:4]
                if not self.ob(len(codes.get(cs, ())) == 1, "written", I, f, "the algorithm %s of %s has not one code" % (cs, t), None):
                    continue
                code = next(iter(codes[cs]))
                self.ob(any(self.feasible(st, b, code) for st, b, *_ in sts), "read", I, f,
                        "the code %d, written for the algorithm %s of %s, is read as another" % (code, cs, t), None)
                for st, b, f, I, loose in sts:
                    self.ob(loose or not any(self.feasible(st, b, v) for v in range(256) if v != code), "read", I, f,
                            "what is not a code of %s is read as the algorithm %s" % (t, cs), None)
                    for other, c2 in codes.items():
                        self.ob(other == cs or not any(self.feasible(st, b, c) for c in c2), "read", I, f,
                                "the code of the algorithm %s of %s is read as %s" % (other, t, cs), None)
            self.sites["codes:" + t] = {str(c) for c in table}

    def fold(self, st, e):
        e = st.norm(e)
        if isinstance(e, V) and e.k == "op":
            a = [self.fold(st, x) if isinstance(x, V) else x for x in e.a[2:]]
            if all(isinstance(x, int) for x in a):
                return a[0] & ((1 << e.a[1]) - 1) if e.a[0] == "trunc" else mkop(e.a[0], e.a[1], *a)
        return st.simp(e) if isinstance(e, V) else e

    def put_in(self, e, b, v):
        """the expression with v in the place of b"""
        if e is b:
            return v
        if isinstance(e, V) and e.k == "op":
            a = [self.put_in(x, b, v) for x in e.a[2:]]
            if all(isinstance(x, int) for x in a):
                return a[0] & ((1 << e.a[1]) - 1) if e.a[0] in ("trunc", "zext", "sext") else mkop(e.a[0], e.a[1], *a)
        return e

    def feasible(self, st, b, v):
        """the conditions of the path allow this byte"""
        if isinstance(b, int):
            return b == v
        for c, w in st.eq.items():
            x = self.put_in(c, b, v)
            if isinstance(x, int) and isinstance(w, int) and x != w:
                return False
        for c, ws in st.neq.items():
            if self.put_in(c, b, v) in ws:
                return False
        return all(lo <= x <= hi for x, (lo, hi) in ((self.put_in(c, b, v), r) for c, r in st.rng.items()) if isinstance(x, int))


def refused(e, m, fs, how):
    for n in sorted(set(fs) - e.judged):
        e.ob(False, "refused", None, m.funcs[n], "never succeeds (%s the optional members)" % how, None)


def run_S01(m, tier):
    r = Result("every member of every serialized structure: where the serializer puts it and where the parser takes it from")
    for i, (opt, node, private, small) in enumerate(((True, 1, 0, 1), (False, 0, 1, 2)) + (((True, 1, 1, 3), (False, 0, 0, 3)) if tier == "thorough" else ())):
        e = Agree(m, tier, opt, node, private, small)
        e.run(sorted(WRITE))
        for k, v in e.wrote.items():    # the parser is asked about the version that the serializer writes
            e.ob(len(v) == 1, "written", None, m.funcs[sorted(WRITE)[0]], "%s.%s is not the same constant in every message" % k, None)
            e.given[k] = min(v)
        e.run(sorted(READ))
        refused(e, m, WRITE, "with" if opt else "without")
        refused(e, m, READ, "with" if opt else "without")
        if e.omitted:                   # nor need the parser be given a member with the value 0
            x = Agree(m, tier, opt, node, private, small)
            x.given.update(e.given)
            x.has.update({k: 0 for k in e.omitted})
            x.run(sorted(READ))
            refused(x, m, READ, "without what is 0 and with" if opt else "without what is 0 and")
            r.take(x, {"read", "refused"})
            r.engine_cover(x, "omitted%d_" % i)
        r.take(e, {"written", "read", "refused", "complete"})
        r.engine_cover(e, "scenario%d_" % i)
    e = Pieces(m, tier)
    e.run(sorted(e.roots))
    for n in sorted(set(e.roots) - e.judged):
        e.ob(False, "refused", None, m.funcs[n], "never succeeds", None)
    e.codes()
    r.take(e, {"written", "read", "refused"})
    r.engine_cover(e, "pieces_")
    for t, n in (("wickr_cipher_key", 2), ("wickr_cipher_result", 2), ("wickr_ecdsa_result", 3), ("wickr_kdf_meta", 3)):
        r.floor("algorithms told apart in " + t, len(e.sites.get("codes:" + t, ())), n)
    return r

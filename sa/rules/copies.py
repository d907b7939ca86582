"""S02: a copy is equal to its source in every member, and shares no storage with it."""
import re
from base import Result
from engine import V, Lsym, mkop, base_off
from rules.wire import Wire, members

# what a copy does not take from its source: it has its own reference count, a handshake in progress stays with the context that its
# callbacks name, and the header key is computed again from the (equal) root identity
FRESH = {("wickr_stream_ctx", "ref_count"): 1, ("wickr_transport_ctx", "pending_handshake"): 0, ("wickr_ctx", "packet_header_key"): None}


# what need not be there: its absence does not keep the rest from being copied
OPTIONAL = {"wickr_cipher_result": ["auth_tag"], "wickr_ec_key": ["pri_data"], "wickr_identity": ["signature"], "wickr_kdf_meta": ["salt", "info"],
            "wickr_node": ["ephemeral_keypair"], "wickr_stream_ctx": ["iv_factory"], "wickr_transport_packet": ["mac", "network_buffer"],
            "wickr_ephemeral_keypair": ["signature"], "wickr_parse_result": ["key_exchange_set", "key_exchange", "enc_payload"],
            "wickr_decode_result": ["decrypted_payload", "payload_key"], "wickr_transport_ctx": ["remote_identity", "rx_stream", "tx_stream"]}


def copiers(m):
    """functions T *wickr_T_copy(const T *) of the library -> T"""
    out = {}
    for n, f in m.funcs.items():
        x = re.match(r"(wickr_\w+)_copy$", n)
        for t in (x.group(1), x.group(1) + "_t") if x and len(f.params) == 1 and f.rty == "ptr" and not f.internal else ():
            if "%struct." + t in m.types.structs:
                out[n] = t
    return out


def under(v, root):
    """v is reached from root"""
    while isinstance(v, V) and v.k == "L":
        v = base_off(v.a[0])[0]
        if v is root:
            return True
    return False


class Copies(Wire):
    def __init__(self, m, tier, without=()):
        super().__init__(m, tier)
        self.without = without
        self.roots = {n: "copy" for n in copiers(m) if n not in ("wickr_buffer_copy", "wickr_array_copy")}
        self.of = copiers(m)

    def on_result(self, st, I, name, args, r):
        super().on_result(st, I, name, args, r)
        if name == "wickr_array_copy":
            if st.norm(args[1]) != 1:
                return
        elif name == "wickr_buffer_copy" or not name.endswith("_copy") or "_array_" in name:
            return
        if isinstance(r, V) and args and isinstance(st.norm(args[0]), V):
            a = st.norm(args[0])
            for x in [x for x in st.facts if x[0] == "copied" and under(x[2], a)]:
                self.drop(st, *x)
            self.add(st, "copied", base_off(st.norm(r))[0], a)

    def on_store(self, st, I, b, off, size, v):
        super().on_store(st, I, b, off, size, v)
        for x in [x for x in st.facts if x[0] == "copied" and x[1] is b]:
            self.drop(st, *x)

    def on_return(self, st, f, ret, I):
        super().on_return(st, f, ret, I)
        if ret is not None and st.norm(ret) == 0:
            for x in [x for x in st.facts if x[0] == "copied"]:
                self.drop(st, *x)

    def on_entry(self, st, f):
        super().on_entry(st, f)
        if self.without and not self.ctx and f.name in self.roots:
            for n in self.without:
                st.seteq(Lsym(self.param(f, 0), self.fieldof(self.of[f.name], n), 8, (self.of[f.name], n)), 0)

    def r_copy(self, st, f, p, r, I):
        s = self.of[f.name]
        self.pair(st, f, I, s, st.norm(r), st.norm(p[0]), s, 0)

    def pair(self, st, f, I, struct, a, b, path, d):
        ab, ao = base_off(a)
        bb, bo = base_off(b)
        for name, off, size, s, ptr in members(self.m, struct):
            self.member(st, f, I, struct, name, off, size, s, ptr, ab, ao, bb, bo, "%s.%s" % (path, name), d)

    def member(self, st, f, I, struct, name, off, size, s, ptr, ab, ao, bb, bo, path, d):
        if s and not ptr:
            for n, o, z, s2, p2 in members(self.m, s):
                self.member(st, f, I, s, n, off + o, z, s2, p2, ab, ao, bb, bo, path + "." + n, d)
            return
        x = st.norm(self.read(st, ab, mkop("add", 64, ao, off), size, (struct, name)))
        y = st.norm(self.read(st, bb, mkop("add", 64, bo, off), size, (struct, name)))
        if (struct, name) in FRESH:
            w = FRESH[struct, name]
            return self.ob(x == w or w is None and x != 0, "member", I, f, "%s does not start anew" % path, st)
        if not s or ptr != 1 or not s.startswith("wickr_"):
            return self.ob(x is y or x == y, "member", I, f, "%s is not that of the source" % path, st)
        if x == 0 or y == 0:
            return self.ob(x == 0 and (y == 0 or st.simp(mkop("eq", 64, y, 0)) == 1), "member", I, f, "%s is not that of the source" % path, st)
        if not isinstance(x, V) or not isinstance(y, V):
            return self.ob(False, "member", I, f, "%s is not that of the source" % path, st)
        if x is y:
            return self.ob(d > 4, "shared", I, f, "%s is shared with the source" % path, st)
        if s == "wickr_buffer":
            self.ob(self.by(st, x) == self.by(st, y) and self.len_is(st, self.at(st, x, "wickr_buffer.length"), self.at(st, y, "wickr_buffer.length")),
                    "member", I, f, "%s has not the bytes of the source's" % path, st)
        elif ("copied", base_off(x)[0], y) in st.facts:
            return
        elif s == "wickr_array":
            self.ob(False, "member", I, f, "%s is not a copy of the source's" % path, st)
        elif d < 4:
            self.pair(st, f, I, s, x, y, path, d + 1)


def run_S02(m, tier):
    r = Result("every member of the result of every copy function, against the member of the source")
    e = Copies(m, tier)
    e.run(sorted(e.roots))
    got = e.sites.get("results_judged:copy", ())
    for s, opt in sorted(OPTIONAL.items()):
        f = s + "_copy"
        for n in opt:
            x = Copies(m, tier, (n,))
            x.roots = {f: "copy"}
            x.run([f])
            e.ob(bool(x.sites.get("results_judged:copy")), "refused", None, m.funcs[f], "never succeeds without " + n, None)
            e.reports.update(x.reports)
            r.engine_cover(x, "without_")
    r.take(e, {"member", "shared", "refused"})
    r.engine_cover(e)
    r.floor("copies judged", len(got), 30)
    return r

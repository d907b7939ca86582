"""L01: fingerprints and device identifiers are made of what they are said to be made of."""
import itertools
import engine
from base import Result, enum
from engine import V, mk, mkop, base_off, Lsym
from models import lab, NOC
from rules.context import IDS
from rules.wire import Wire

BYTES = {1: (0, 1, 2, 127, 128, 255), 2: (0, 1, 128, 255), 3: (0, 1, 255)}   # bytes the order is decided for
SIZES = {1: 32, 2: 48, 3: 64}           # what a digest is long
DEV, FP = "wickr_dev_info", "wickr_fingerprint"


class Names(Wire):
    """length, mode: constants for the length of both fingerprints and the output mode"""

    def __init__(self, m, tier, length=None, mode=None):
        super().__init__(m, tier)
        engine.SUMMAX = max(engine.SUMMAX, 16)
        self.length, self.mode = length, mode
        self.judged, self.orders = set(), []
        self.roots = {"wickr_fingerprint_gen_bilateral": "both"} if length else {"wickr_fingerprint_get_b32": "out", "wickr_fingerprint_get_hex": "out"} if mode is not None else {
            "wickr_dev_info_derive": "derive", "wickr_dev_info_create_new": "device", "wickr_fingerprint_gen": "gen", "wickr_ec_key_get_pubdata_fixed_len": "fixed"}
        self.sha512 = enum(m, "WICKR_FINGERPRINT_TYPE_SHA512")

    def widening(self, f):
        return self.length + 2 if self.length else engine.WIDEN

    def on_return(self, st, f, ret, I):
        if self.roots.get(f.name) and not self.ctx and st.norm(ret) != 0:
            self.judged.add(f.name)
        super().on_return(st, f, ret, I)

    def read(self, st, base, off, size, field=None, leaves=None):
        v = super().read(st, base, off, size, field, leaves)
        if self.length and isinstance(v, V) and v.k == "L" and v.field == ("wickr_buffer", "length"):
            return self.length
        return v

    def on_entry(self, st, f):
        super().on_entry(st, f)
        if not self.ctx and f.name in self.roots and self.mode is not None:
            st.env[f.params[1][1]] = self.mode

    # -- terms
    def t_digest(self, st, I, a, r):
        self.site("digests", I)
        d = st.norm(a[2])
        self.mark(st, r, "hash", self.by(st, a[0]), self.by(st, a[1]), d >> 32 if isinstance(d, int) else d)
        n = self.at(st, r, "wickr_buffer.length") if isinstance(d, int) and not self.length else None
        if isinstance(n, V):
            st.seteq(n, SIZES.get(d >> 32, 0))

    def t_crypto_random(self, st, I, a, r):
        self.mark(st, r, "random", self.plain(st, a[0]))

    def on_result(self, st, I, name, args, r):
        super().on_result(st, I, name, args, r)
        if not isinstance(r, V):
            return
        if self.length and name.startswith("wickr_buffer_concat"):
            self.add(st, "on-path", frozenset(lab("is", k, v) for k, v in st.eq.items() if isinstance(v, int)) | frozenset(lab("not", k, *sorted(v)) for k, v in st.neq.items()) |
                     frozenset(lab("in", k, *v) for k, v in st.rng.items()))
        if name == "wickr_ec_key_get_pubdata_fixed_len":
            self.mark(st, r, "fixed", self.by(st, args[0], "wickr_ec_key.pub_data"))
        elif name in ("getHexStringFromData", "base32_encode"):
            self.mark(st, r, "text", name, self.by(st, args[0]), self.at(st, r, "wickr_buffer.length"))
        elif name == "wickr_buffer_create_empty_zero":
            b = self.bytes_of(st, r)
            b = base_off(b)[0] if isinstance(b, V) else None
            if isinstance(b, V):
                self.set_content(st, b, [lab("zeros", st.norm(args[0]))], replace=True)

    def on_external(self, st, I, name, args, r):
        super().on_external(st, I, name, args, r)
        if self.length and name in ("memcmp", "bcmp"):
            self.add(st, "compared", st.norm(r), base_off(st.norm(args[0]))[0], base_off(st.norm(args[1]))[0], st.norm(args[2]))

    def on_memcpy(self, st, I, db, do, sb, so, n):
        super().on_memcpy(st, I, db, do, sb, so, n)
        self.add(st, "copied", db, self.plain(st, do), sb, self.plain(st, so), self.plain(st, n))

    def hashed(self, c, a, b, d):
        return any((self.same(x.a[1], a) if isinstance(a, frozenset) else a(x.a[1])) and (self.same(x.a[2], b) if b else not x.a[2]) and x.a[3] == IDS[d] for x in self.terms(c, "hash"))

    # -- verdicts
    def r_derive(self, st, f, p, r, I, salt=None):
        sid = self.by(st, p[-1])
        given = self.by(st, p[1]) if salt is None else salt
        self.ob(self.same(self.by(st, r, DEV + ".dev_salt"), given), "device", I, f, "the device salt is not the one given", st)
        self.ob(self.hashed(self.by(st, r, DEV + ".system_salt"), sid, None, "SHA256"), "device", I, f, "the system salt is not the SHA-256 of the system identifier", st)
        at = []
        for k, o in (("msg_proto_id", 0), ("srv_comm_id", 32)):
            ps = self.terms(self.by(st, r, DEV + "." + k), "part")
            self.ob(len(ps) == 1 and self.start(ps[0]) == o and self.plain(st, ps[0].a[2]) == 32 and self.hashed(ps[0].a[3], sid, given, "SHA512"), "device", I, f,
                    "%s is not its half of the SHA-512 of the system identifier with the device salt" % k, st)

    def r_device(self, st, f, p, r, I):
        c = self.by(st, r, DEV + ".dev_salt")
        self.ob(any(x.a[1] == 64 for x in self.terms(c, "random")), "device", I, f, "the device salt is not 64 new random bytes", st)
        self.r_derive(st, f, p, r, I, c)

    def r_gen(self, st, f, p, r, I):
        key, ident = p[-3], p[-2]
        pub, name = self.by(st, key, "wickr_ec_key.pub_data"), self.by(st, ident)

        def joined(c):
            return any(len(x.a) == 3 and self.same(x.a[1], name) and any(self.same(y.a[1], pub) for y in self.terms(x.a[2], "fixed")) for x in self.terms(c, "cat"))
        self.ob(self.hashed(self.by(st, r, FP + ".data"), joined, None, "SHA512"), "fingerprint", I, f,
                "the fingerprint is not the SHA-512 of the identifier and the public key of fixed length", st)
        self.ob(self.at(st, r, FP + ".type", 4) == self.sha512, "fingerprint", I, f, "the fingerprint has another type", st)

    def r_fixed(self, st, f, p, r, I):
        src = self.at(st, p[0], "wickr_ec_key.pub_data")
        n = self.at(st, src, "wickr_buffer.length")
        want = self.at(st, p[0], "wickr_ec_key.curve.max_pub_size", self.pubsize())
        b = base_off(self.bytes_of(st, r))[0]
        s = base_off(self.bytes_of(st, src))[0]
        copies = [x for x in st.facts if x[0] == "copied" and x[1] is b]
        self.ob(any(x[2] == 0 and x[3] is s and x[4] == 0 and self.len_is(st, x[5], n) for x in copies), "fixed", I, f, "the key is not at the start of the result", st)
        self.ob(self.len_is(st, self.at(st, r, "wickr_buffer.length"), self.plain(st, want)), "fixed", I, f, "the result is not of the curve's fixed length", st)
        c = self.content(st, b)
        self.ob(self.len_is(st, n, self.plain(st, want)) or any(self.len_is(st, x.a[1], self.plain(st, want)) for x in self.terms(c, "zeros")) or
                st.mem.get(b) is not None and st.mem[b].default == "zero", "fixed", I, f, "the rest of the result is not zero", st)

    def pubsize(self):
        from rules.wire import members
        return next(size for n, off, size, s, ptr in members(self.m, "wickr_ec_curve") if n == "max_pub_size")

    def r_both(self, st, f, p, r, I):
        a, b = p[-3], p[-2]
        ca, cb = self.by(st, a, FP + ".data"), self.by(st, b, FP + ".data")
        order = []
        for x in self.terms(self.by(st, r, FP + ".data"), "hash"):
            for y in self.terms(x.a[1], "cat"):
                if len(y.a) == 3 and not x.a[2] and x.a[3] == IDS["SHA512"]:
                    order += [k for k, (u, v) in enumerate(((ca, cb), (cb, ca))) if self.same(y.a[1], u) and self.same(y.a[2], v)]
        da, db = (self.at(st, x, FP + ".data") for x in (a, b))
        if da is db or self.known(st, "eq", 64, da, db):
            pass                        # one buffer, given twice: there is no order
        elif self.ob(len(order) == 1, "bilateral", I, f, "the result is not the SHA-512 of both fingerprints", st):
            self.orders.append((st.copy(), self.bytes_at(st, a), self.bytes_at(st, b), order[0], f, I))
        self.ob(self.at(st, r, FP + ".type", 4) == self.sha512, "fingerprint", I, f, "the fingerprint has another type", st)
        ta, tb = (self.at(st, x, FP + ".type", 4) for x in (a, b))
        self.ob(ta == tb or self.known(st, "eq", 32, ta, tb), "bilateral", I, f, "fingerprints of two types are combined", st)

    def bytes_at(self, st, v):
        b, o = base_off(self.bytes_of(st, self.at(st, v, FP + ".data")))
        return [st.norm(self.read(st, b, mkop("add", 64, o, i), 1)) for i in range(self.length)]

    # -- the order
    def substituted(self, e, env):
        if isinstance(e, V) and e in env:
            return env[e]
        if isinstance(e, V) and e.k == "op":
            a = [self.substituted(x, env) for x in e.a[2:]]
            if all(isinstance(x, int) for x in a):
                return a[0] & ((1 << e.a[1]) - 1) if e.a[0] in ("trunc", "zext") else mkop(e.a[0], e.a[1], *a)
        return e

    def allows(self, st, env):
        """the conditions of the path allow these bytes"""
        env = dict(env)
        for x in st.facts:
            if x[0] == "compared" and isinstance(x[4], int) and isinstance(x[1], V):
                a, b = ([env.get(st.norm(self.read(st, y, i, 1))) for i in range(x[4])] for y in x[2:4])
                if None not in a + b:
                    env[x[1]] = 0 if a == b else 1 if a > b else (1 << 32) - 1
        conds = [(t.a[0], t.a[1], t.a[2:]) for x in st.facts if x[0] == "on-path" for t in x[1]]
        conds += [("is", k, (v,)) for k, v in st.eq.items()] + [("not", k, v) for k, v in st.neq.items()] + [("in", k, v) for k, v in st.rng.items()]
        for how, c, w in conds:
            x = self.substituted(c, env)
            if isinstance(x, int):
                w = [self.substituted(y, env) for y in w]
                if how == "is" and isinstance(w[0], int) and x != w[0] or how == "not" and x in w or how == "in" and not w[0] <= x <= w[1]:
                    return False
        return True

    def symmetric(self):
        """whichever way round two fingerprints are given, they are joined the same way"""
        n = self.length
        table = {}
        for st, xs, ys, order, f, I in self.orders:
            vs = xs + ys
            for vals in itertools.product(BYTES[n], repeat=2 * n):
                if all(isinstance(v, V) for v in vs) and self.allows(st, dict(zip(vs, vals))):
                    table.setdefault(vals, set()).add((order, f, I))
        for vals, res in sorted(table.items(), key=lambda kv: kv[0]):
            f, I = next(iter(res))[1:]
            x, y = vals[:n], vals[n:]
            mine = {o for o, *_ in res}
            swapped = {o for o, *_ in table.get(y + x, ())}
            self.ob(len(mine) == 1 and (x == y or swapped == {1 - o for o in mine}), "bilateral", I, f,
                    "which fingerprint comes first depends on the order in which they are given", None)
        f, I = self.orders[0][4:] if self.orders else (self.m.funcs["wickr_fingerprint_gen_bilateral"], None)
        for vals in itertools.product(BYTES[n], repeat=2 * n):
            self.ob(vals in table or vals[:n] == vals[n:], "bilateral", I, f, "fingerprints that differ are not combined", None)
        self.sites.setdefault("orders", {}).update({str(k): 1 for k in table})

    # -- text
    def r_out(self, st, f, p, r, I):
        enc = "base32_encode" if f.name.endswith("b32") else "getHexStringFromData"
        src = self.by(st, p[0], FP + ".data")
        ts = [t for t in self.terms(self.by(st, r), "text") if t.a[1] == enc and self.same(t.a[2], src)]
        if not self.ob(len(ts) == 1, "text", I, f, "the text is not the encoding of the fingerprint", st):
            return
        full, n = ts[0].a[3], self.at(st, r, "wickr_buffer.length")
        b, o = base_off(self.bytes_of(st, r))
        if self.mode == enum(self.m, "FINGERPRINT_OUTPUT_SHORT"):
            half = {st.norm(mkop("udiv", 64, full, 2)), st.norm(mkop("lshr", 64, full, 1))}
            self.ob(st.norm(n) in half, "text", I, f, "a short fingerprint is not half of the text", st)
            self.ob(st.norm(self.read(st, b, mkop("add", 64, o, n), 1)) == 0, "text", I, f, "a short fingerprint is not terminated", st)
        else:
            self.ob(self.len_is(st, n, full), "text", I, f, "a long fingerprint is not the whole text", st)


OWN = {"device", "fingerprint", "fixed", "bilateral", "text", "never"}


def run_L01(m, tier):
    r = Result("what fingerprints and device identifiers are hashes of, in which order, and how much of a fingerprint is shown")
    modes = [enum(m, "FINGERPRINT_OUTPUT_SHORT"), enum(m, "FINGERPRINT_OUTPUT_LONG")]
    seen = {}
    runs = [(None, None)] + [(n, None) for n in ((1, 2) if tier == "quick" else (1, 2, 3))] + [(None, k) for k in modes]
    for n, k in runs:
        e = Names(m, tier, n, k)
        e.run(sorted(e.roots))
        if n:
            e.symmetric()
        for fn in e.roots:
            e.ob(fn in e.judged, "never", None, m.funcs[fn], "never succeeds", None)
        r.take(e, OWN)
        r.engine_cover(e, "len%d_" % n if n else "mode%d_" % k if k is not None else "")
        for s in set(e.roots.values()):
            seen[s] = seen.get(s, 0) + len(e.sites.get("results_judged:" + s, ()))
    for s, x in sorted(seen.items()):
        r.floor("outcomes judged: " + s, x, 1)
    return r

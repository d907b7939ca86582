"""T02: sequence numbers and keys of streams."""
import engine
from base import Result, enum
from engine import V, mk, mkop, base_off, Lsym
from models import NOC, lab
from rules.wire import Wire

S, K = "wickr_stream_ctx", "wickr_stream_key"
HALF = 32


class Stream(Wire):
    def __init__(self, m, tier):
        super().__init__(m, tier)
        self.widen = max(engine.WIDEN, 3 if tier == "quick" else 5)
        self.roots = {"wickr_stream_ctx_encode": "encode", "wickr_stream_ctx_decode": "decode", "wickr_stream_ctx_create": "create"}
        self.dir = {"wickr_stream_ctx_encode": enum(m, "STREAM_DIRECTION_ENCODE"), "wickr_stream_ctx_decode": enum(m, "STREAM_DIRECTION_DECODE")}
        self.depths = set()
        engine.SUMMAX, engine.STATEMAX = 40, 128

    def t_hmac_create(self, st, I, a, r):
        super().t_hmac_create(st, I, a, r)
        self.add(st, "macced", self.by(st, a[0]), self.by(st, a[1]))

    def t_cipher_encrypt(self, st, I, a, r):
        super().t_cipher_encrypt(st, I, a, r)
        self.add(st, "ivused", self.by(st, a[3]))

    # -- what was there at entry
    def entry(self, p, struct, name, size=8):
        return Lsym(p, self.fieldof(struct, name), size, (struct, name))

    def entry_bytes(self, st, v, *path):
        """the content that bytes reached through the members had at entry"""
        for s, n in path:
            v = self.entry(v, s, n)
        return frozenset((mk("C", self.entry(v, "wickr_buffer", "bytes")),))

    def depth(self, st, key, evo, key0, evo0, d=0):
        """how many evolutions lead from the entry's key to this one (None: it is not such a key; -1: some number)"""
        if key == key0 and evo == evo0:
            return d
        ks, es = self.terms(key, "part"), self.terms(evo, "part")
        if not ks or not es or d > 8:
            return None
        out = set()
        for k in ks:
            for x in es:
                mk_, me = self.terms(k.a[3], "mac"), self.terms(x.a[3], "mac")
                if self.start(k) != 0 or self.start(x) != HALF or k.a[2] != HALF or x.a[2] != HALF or not mk_ or set(mk_) != set(me):
                    return None
                for t in mk_:
                    out.add(self.depth(st, t.a[1], t.a[2], key0, evo0, d + 1))
        if None in out:
            return None
        return out.pop() if len(out) == 1 else -1

    def distance(self, st, a, b, k):
        """b is known to be a + k"""
        if self.known(st, "eq", 64, mkop("add", 64, a, k), b):
            return True
        d = mkop("sub", 64, b, a)
        if self.known(st, "eq", 64, d, k):
            return True
        def below(i):
            """a + i < b, when that is known"""
            return st.simp(mkop("ult", 64, mkop("add", 64, a, i) if i else a, b))
        if below(k) == 0 and (all(below(i) == 1 for i in range(k)) if k else st.simp(mkop("ult", 64, b, a)) == 0):
            return True
        lo = k == 0 or st.simp(mkop("ult", 64, k - 1, d)) == 1
        return lo and st.simp(mkop("ult", 64, k, d)) == 0

    def judge(self, st, f, p, I, used):
        ctx, seq = st.norm(p[0]), st.norm(p[3])
        self.ob(st.norm(self.entry(ctx, S, "direction", 4)) == self.dir[f.name], "direction", I, f, "the stream is used against its direction", st)
        last = st.norm(self.entry(ctx, S, "last_seq"))
        self.ob(self.known(st, "ult", 64, last, seq), "sequence", I, f, "a packet is processed whose sequence number is not above the last one", st)
        self.ob(self.at(st, ctx, S + ".last_seq") == seq, "sequence", I, f, "the sequence number of a processed packet is not recorded", st)
        k0 = self.entry(ctx, S, "key")
        key0 = self.entry_bytes(st, k0, (K, "cipher_key"), ("wickr_cipher_key", "key_data"))
        evo0 = self.entry_bytes(st, k0, (K, "evolution_key"))
        key, evo = self.by(st, ctx, S + ".key.cipher_key.key_data"), self.by(st, ctx, S + ".key.evolution_key")
        d = self.depth(st, key, evo, key0, evo0)
        self.ob(d is not None, "evolution", I, f, "the stream's key is not an evolution of the one before", st)
        ppe0 = st.norm(self.entry(k0, K, "packets_per_evolution", 4))
        ppe = self.at(st, ctx, S + ".key.packets_per_evolution", 4)
        self.ob(ppe == ppe0, "evolution", I, f, "the evolution rate changes", st)
        if d is not None:
            self.depths.add(d)
            w = mkop("zext", 64, ppe0, 32) if isinstance(ppe0, V) else ppe0
            e0, e1 = (mkop("udiv", 64, x, ppe0) for x in (last, seq))
            self.ob(d == -1 or d >= self.widen or self.distance(st, e0, e1, d), "evolution", I, f,
                    "the key was evolved %d times, whatever the sequence numbers" % d, st)
        self.ob(bool(used) and all(key <= t.a[2] for t in used), "stream-key", I, f, "the key used is not the one for this sequence number", st)
        return key

    def r_encode(self, st, f, p, r, I):
        used = self.terms(self.by(st, r, "wickr_cipher_result.cipher_text"), "sealed")
        self.judge(st, f, p, I, used)
        for t in used:
            self.ob(self.same(t.a[1], self.by(st, p[1])), "stream-data", I, f, "what is encoded is not the data given", st)
            self.ob(st.norm(p[2]) == 0 or self.same(t.a[3], self.by(st, p[2])), "stream-aad", I, f, "the additional data is not authenticated", st)

    def r_decode(self, st, f, p, r, I):
        used = self.terms(self.by(st, r), "opened")
        self.judge(st, f, p, I, used)
        for t in used:
            self.ob(self.same(t.a[1], self.by(st, p[1], "wickr_cipher_result.cipher_text")), "stream-data", I, f, "what is decoded is not the data given", st)
            self.ob(st.norm(p[2]) == 0 or self.same(t.a[3], self.by(st, p[2])), "stream-aad", I, f, "the additional data is not authenticated", st)

    def r_create(self, st, f, p, r, I):
        k, d = st.norm(p[1]), st.norm(p[2])
        if isinstance(k, V):
            a = self.at(st, k, K + ".cipher_key.cipher.is_authenticated", 1)
            self.ob(isinstance(a, int) and a != 0 or isinstance(a, V) and 0 in st.neq.get(a, ()), "stream-create", I, f,
                    "a stream is made with a cipher that does not authenticate", st)
        self.ob(self.at(st, r, S + ".key") == k, "stream-create", I, f, "the stream does not use the key given", st)
        self.ob(self.at(st, r, S + ".last_seq") == 0, "stream-create", I, f, "a new stream does not start at sequence number zero", st)
        self.ob(self.at(st, r, S + ".direction", 4) == d, "stream-create", I, f, "the stream does not have the direction asked for", st)
        if d == self.dir["wickr_stream_ctx_encode"]:
            iv = self.at(st, r, S + ".iv_factory")
            self.ob(isinstance(iv, V) and (iv._nz or 0 in st.neq.get(iv, ())), "stream-create", I, f, "an encoding stream has no source of IVs", st)

    def on_return(self, st, f, ret, I):
        if not self.ctx and self.roots.get(f.name) in ("encode", "decode") and st.norm(ret) == 0:
            ctx = st.norm(self.param(f, 0))
            self.site("failures_judged", I)
            if isinstance(ctx, V):
                for n in ("last_seq", "key"):
                    self.ob(self.at(st, ctx, S + "." + n) == st.norm(self.entry(ctx, S, n)), "stream-failure", I, f, "a packet that is refused changes %s" % n, st)
        super().on_return(st, f, ret, I)


def run_T02(m, tier):
    e = Stream(m, tier)
    e.run(list(e.roots))
    r = Result("terms of the stream's key and sequence number at every return of encode and decode, for each number of evolutions")
    r.take(e, OWN)
    r.engine_cover(e)
    r.cover(evolution_depths=sorted(e.depths))
    r.floor("results judged", sum(len(v) for k, v in e.sites.items() if k.startswith("results_judged")), 3)
    r.floor("failures judged", len(e.sites.get("failures_judged", ())), 2)
    r.floor("evolution depths", len(e.depths), 3)
    return r


OWN = {"direction", "sequence", "evolution", "stream-key", "stream-data", "stream-aad", "stream-create", "stream-failure"}

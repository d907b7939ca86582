"""F01: encrypting and decrypting files is all or nothing."""
from base import Result, engine_impl
from engine import V, mkop, base_off, Infeasible, mk, mkptr
from rules.terms import Terms
from rules.auth import GET_TAG

S = "wickr_crypto_engine_"
DONE = ("opened", "derived", "removed", "renamed", "tried", "flushed", "closing", "late", "final", "early", "root")


class Files(Terms):
    def __init__(self, m, tier):
        super().__init__(m, tier)
        impl = engine_impl(m)
        self.kind = {}
        for s, k in (("encrypt_file", "swap"), ("decrypt_file", "swap"), ("encrypt_ofile", "stream"), ("decrypt_ofile", "stream"), ("digest_file", "digest")):
            for fn in impl.get(S + s, ()):
                self.kind[fn] = k
                self.roots[fn] = k
        self.enc = set(impl.get(S + "encrypt_ofile", ()))

    roots = {}

    # -- events
    def b(self, st, v):
        return base_off(st.norm(v))[0]

    def const(self, st, v):
        b = self.b(st, v)
        g = self.m.globals.get(b.a[0]) if isinstance(b, V) and b.k == "glob" else None
        return bytes(self._cstr(g[1])).split(b"\0")[0].decode() if g and g[2] and g[1].startswith('c"') else None

    def on_external(self, st, I, name, args, r):
        super().on_external(st, I, name, args, r)
        h = getattr(self, "x_" + name, None)
        if h:
            self.site("file operations", I)
            h(st, I, args, r)
        elif name.startswith("EVP_") and name.endswith(("cryptUpdate", "CipherUpdate")):
            self.update(st, I, args, r)
        elif name.startswith("EVP_") and name.endswith(("cryptFinal_ex", "CipherFinal_ex", "cryptFinal", "CipherFinal")):
            self.when(st, 1, r, "final")

    def x_fopen(self, st, I, a, r):
        if isinstance(r, V):
            self.add(st, "opened", st.norm(a[0]), self.const(st, a[1]) or "?", self.b(st, r))

    def x_fclose(self, st, I, a, r):
        s = self.b(st, a[0])
        if any(f[0] == "tried" for f in st.facts):
            self.add(st, "late", s)
        if r is not None:
            self.when(st, 0, r, "flushed", s)

    def x_rename(self, st, I, a, r):
        f, t = st.norm(a[0]), st.norm(a[1])
        self.add(st, "tried", f, t)
        self.when(st, 0, r, "renamed", f, t)
        self.root_event(st)

    def x_remove(self, st, I, a, r):
        self.add(st, "removed", st.norm(a[0]))

    x_unlink = x_remove

    def x_snprintf(self, st, I, a, r):
        self.derive(st, a[0], a[1], a[2], a[3:])

    def x_sprintf(self, st, I, a, r):
        self.derive(st, a[0], None, a[1], a[2:])

    def derive(self, st, buf, n, fmt, rest):
        b, f = self.b(st, buf), self.const(st, fmt)
        if not isinstance(b, V) or not f or not f.startswith("%s") or "%" in f[2:] or not rest:
            return
        src = st.norm(rest[0])
        ok = len(f) > 2
        if n is not None and ok:
            sb, so = base_off(src)
            n = st.norm(n)
            v, d = (n.a[2], n.a[3]) if isinstance(n, V) and n.k == "op" and n.a[0] == "add" else (None, 0)
            ok = isinstance(v, V) and v.k == "strlen" and v == mk("strlen", mkptr(sb, so)) and isinstance(d, int) and len(f) - 1 <= d < 1 << 32
        self.add(st, "derived", b, src, 1 if ok else 0)

    def x_fread(self, st, I, a, r):
        s = self.b(st, a[3])
        self.drop(st, "asked", s)
        self.drop(st, "eof", s)
        self.drop(st, "read", s)
        self.add(st, "read", s, r, st.norm(a[2]))

    def x_ferror(self, st, I, a, r):
        self.drop(st, "asked", self.b(st, a[0]))
        self.add(st, "asked", self.b(st, a[0]), r)

    def x_feof(self, st, I, a, r):
        self.add(st, "eof", self.b(st, a[0]), r)

    def x_rewind(self, st, I, a, r):
        self.add(st, "start", self.b(st, a[0]))

    def x_fseek(self, st, I, a, r):
        s = self.b(st, a[0])
        self.drop(st, "start", s)
        if st.norm(a[1]) == 0 and st.norm(a[2]) == 0:
            self.when(st, 0, r, "start", s)

    x_fseeko = x_fseek

    def x_fwrite(self, st, I, a, r):
        s, src = self.b(st, a[3]), self.b(st, a[0])
        self.written(st, s)
        self.add(st, "wrote", s, r, self.plain(st, a[2]))
        self.put(st, s, src, self.count(st, a), 1 if self.tagged(self.content(st, src)) else 0)

    def written(self, st, s):
        for f in [f for f in st.facts if f[0] == "wrote" and f[1] is s]:
            if not self.eq(st, f[2], f[3]):
                self.add(st, "short", s)
        self.drop(st, "wrote", s)
        self.drop(st, "asked", s)

    def put(self, st, s, src, n, tag):
        """n bytes from src are written to s"""
        for f in [f for f in st.facts if f[0] == "produced" and f[1] is src]:
            if self.eq(st, n, f[2]) or self.eq(st, n, f[3]):        # a stream cipher gives as much as it takes
                self.drop(st, *f)
        if ("start", s) in st.facts:
            self.drop(st, "start", s)
            k = 1 + len([f for f in st.facts if f[0] == "head" and f[1] is s])
            x = [f for f in st.facts if f[0] == "serialized" and f[1] is src]
            self.add(st, "head", s, k, *(x[0][2:] if x else (0, 0, 0)), n, tag)
        elif not any(f[0] == "head" and f[1] is s for f in st.facts):
            if ("top",) in st.facts:
                self.add(st, "unplaced", s)
        else:
            return
        if ("top",) not in st.facts:
            self.add(st, "put", s, src, n)          # for a caller to make sense of

    def merge_facts(self, st, old, new, I):
        st.facts = old
        for f in new:
            if f[0] == "read":
                for k in ("asked", "eof", "read"):
                    self.drop(st, k, f[1])
            elif f[0] == "wrote":
                self.written(st, f[1])
        st.facts = st.facts | frozenset(f for f in new if f[0] not in ("put", "head"))
        for f in new:
            if f[0] == "put":
                self.put(st, f[1], f[2], f[3], 1 if self.tagged(self.content(st, f[2])) else 0)
            elif f[0] == "head":
                k = 1 + len([x for x in st.facts if x[0] == "head" and x[1] is f[1]])
                self.add(st, "head", f[1], k, *f[3:])
        return st.facts

    def count(self, st, a):
        x, y = self.plain(st, a[1]), self.plain(st, a[2])
        return y if x == 1 else x if y == 1 else st.simp(mkop("mul", 64, x, y))

    def eq(self, st, a, b):
        a, b = self.plain(st, a), self.plain(st, b)
        return a is b or a == b or st.simp(mkop("eq", 64, a, b)) == 1

    def tagged(self, c, d=0):
        if isinstance(c, V) and c.k == "lab":
            return c.a[0] == "tag" or any(self.tagged(x, d + 1) for x in c.a)
        return d < 12 and isinstance(c, (frozenset, tuple)) and any(self.tagged(x, d + 1) for x in c)

    def update(self, st, I, a, r):
        if st.norm(a[1]) == 0:
            return
        self.lost(st, I)
        b, o = base_off(st.norm(a[2]))
        self.add(st, "produced", self.b(st, a[1]), st.norm(self.read(st, b, o, 4)), self.plain(st, a[4]))

    def lost(self, st, I):
        for f in [f for f in st.facts if f[0] == "produced"]:
            self.oblige(st.norm(f[2]) == 0, "lost", I, "what the cipher produced is not written in full", "lost", st)
            self.drop(st, *f)

    # -- order of what happens in the functions that swap the file
    def on_entry(self, st, f):
        super().on_entry(st, f)
        if not self.ctx and f.name in self.kind:
            self.add(st, "root" if self.kind[f.name] == "swap" else "top")

    def root_event(self, st):
        if ("root",) in st.facts:
            for f in [f for f in st.facts if f[0] == "tried"]:
                if ("tried0",) + f[1:] not in st.facts:
                    self.add(st, "tried0", *f[1:])
                    if ("final",) not in st.facts or not self.fine(st):
                        self.add(st, "early", *f[1:])
                    for o in [o for o in st.facts if o[0] == "opened" and o[1] is f[1]]:
                        if ("flushed", o[3]) not in st.facts:
                            self.add(st, "early", *f[1:])

    def on_result(self, st, I, name, args, r):
        super().on_result(st, I, name, args, r)
        if name == "wickr_cipher_result_serialize" and isinstance(r, V):
            self.add(st, "serialized", self.b(st, self.bytes_of(st, r)), self.b(st, args[0]), *(self.plain(st, self.at(st, args[0], "wickr_cipher_result.%s.length" % n)) or 0 for n in ("iv", "auth_tag")))
        self.root_event(st)

    # -- results
    def nonzero(self, st, v):
        v = st.norm(v)
        return v != 0 if isinstance(v, int) else 0 in st.neq.get(v, ()) or st.lo_hi(v)[0] > 0

    def fine(self, st):
        for f in st.facts:
            if f[0] in ("read", "wrote") and not self.eq(st, f[2], f[3]) or f[0] == "short":
                if not any(g[0] == "asked" and g[1] is f[1] and st.norm(g[2]) == 0 or g[0] == "eof" and g[1] is f[1] and self.nonzero(st, g[2]) for g in st.facts):
                    return False
        return True

    def on_return(self, st, f, ret, I):
        super().on_return(st, f, ret, I)
        if self.ctx:
            return
        r = st.norm(ret) if ret is not None else None
        k = self.kind.get(f.name)
        if k == "swap":
            self.swapped(st, f, r, I)
        if k or r == 0:
            for x in [x for x in st.facts if x[0] not in DONE or k and x[0] != "final" or r == 0 and x[0] == "final"]:
                self.drop(st, *x)

    def r_digest(self, st, f, p, r, I):
        self.ob(self.fine(st), "error", I, f, "reports success although reading may have failed", st)

    def r_stream(self, st, f, p, r, I):
        self.ob(("final",) in st.facts, "unfinished", I, f, "reports success although the cipher is not finished", st)
        self.ob(self.fine(st), "error", I, f, "reports success although reading or writing may have failed", st)
        self.ob(not any(x[0] == "produced" and st.norm(x[2]) != 0 for x in st.facts), "lost", I, f, "what the cipher produced is not written in full", st)
        if f.name in self.enc:
            hs = {x[2]: x for x in st.facts if x[0] == "head"}
            self.ob(1 in hs and not any(x[0] == "unplaced" for x in st.facts), "header", I, f, "the header is not at the start of the file", st)
            if any(x[0] == "gettag" for x in st.facts) and st.norm(self.field(st, p[1], "wickr_cipher", "is_authenticated", 1)) != 0:
                if self.ob(2 in hs, "header", I, f, "the header is not written again with the tag", st):
                    self.ob(hs[1][3] != 0 and hs[1][3] is hs[2][3] and all(self.eq(st, hs[1][i], hs[2][i]) for i in (4, 5)) or self.eq(st, hs[1][6], hs[2][6]), "header", I, f, "the header with the tag has another length than the one it replaces", st)
                    self.ob(hs[2][7] == 1, "header", I, f, "the header is written again without the tag", st)
            self.ob(max(hs, default=0) < 3, "header", I, f, "the header is overwritten", st)

    def r_swap(self, st, f, p, r, I):
        done = [x for x in st.facts if x[0] == "renamed"]
        if self.ob(bool(done), "not-moved", I, f, "reports success without moving the output into place", st):
            self.ob(all(st.norm(x[2]) is p[2] for x in done), "not-moved", I, f, "the output is moved to another place than asked for", st)

    def swapped(self, st, f, r, I):
        src, dst = self.param(f, 1), self.param(f, 2)
        opened = [x for x in st.facts if x[0] == "opened"]
        for x in opened:
            w = not x[2].startswith("r") or "+" in x[2]
            if w:
                d = [y for y in st.facts if y[0] == "derived" and y[1] is self.b(st, x[1])]
                self.ob(st.norm(x[1]) not in (src, dst), "in-place", I, f, "writes to the file that was named instead of a temporary one", st)
                self.ob(all(y[3] for y in d), "in-place", I, f, "the name of the temporary file need not differ from that of the destination", st)
            else:
                self.ob(st.norm(x[1]) is src, "source", I, f, "does not read the file that was named", st)
        temps = [st.norm(x[1]) for x in opened if not x[2].startswith("r")]
        for x in st.facts:
            if x[0] == "removed":
                self.ob(st.norm(x[1]) in temps or st.norm(x[1]) not in (src, dst), "removes", I, f, "removes a file of the caller", st)
            elif x[0] == "tried":
                self.ob(st.norm(x[1]) in temps and st.norm(x[1]) is not src, "moves", I, f, "moves something else than the output", st)
            elif x[0] in ("early", "late"):
                self.ob(x[0] == "late" and not any(o[3] is x[1] and o[1] in temps for o in opened), "early", I, f, "moves the output into place before it is complete, written and closed", st)
        if any(x[0] == "renamed" for x in st.facts):
            self.ob(r != 0, "reported", I, f, "reports a failure although the destination was replaced", st)
        elif any(x[0] == "opened" and not x[2].startswith("r") for x in opened):
            self.ob(all(any(y[0] == "removed" and st.norm(y[1]) is t for y in st.facts) for t in temps), "left", I, f, "leaves the temporary file behind", st)


OWN = {"lost", "error", "unfinished", "header", "not-moved", "in-place", "source", "removes", "moves", "early", "reported", "left"}


def run_F01(m, tier):
    r = Result("every path through the functions that encrypt and decrypt files: what is opened, read, written, closed, moved and removed")
    e = Files(m, tier)
    e.run(sorted(e.roots))
    r.take(e, OWN)
    r.engine_cover(e)
    r.floor("functions judged", len({k for k in e.sites if k.startswith("results_judged")}), 3)
    r.floor("file operations", len(e.sites.get("file operations", ())), 25)
    return r

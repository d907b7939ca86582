"""What every rule shares: an engine with neutral hooks, the roots it starts from, and the result of a run."""
import re
import engine
import ir
import models
from engine import V, leafset_deep

AnalysisError = ir.AnalysisError


class Base(engine.Engine):
    """engine with no-op hooks; a rule overrides the events it needs"""
    in_proto_free = False
    FACTS = None
    SMALL = 0
    widen = 0

    def widening(self, f):
        """how often a loop is followed before what it changes is forgotten"""
        return self.widen or engine.WIDEN

    SIZES = False               # what is known of the size of an object is kept

    def __init__(self, m, tier="quick"):
        if tier == "thorough":
            engine.SUMMAX, engine.STATEMAX, engine.WIDEN, engine.CAP = 24, 96, 3, 8000
        self.skipped = {}
        self.obligations = 0
        self.failed = 0
        self.sites = {}
        super().__init__(m, models.Models(), {"facts": self.FACTS})

    # -- events
    def on_external(self, st, I, name, args, r): pass
    def on_callback(self, st, I, v, args, r): pass
    def on_slot(self, st, I, slot, args, r): pass
    def on_memcpy(self, st, I, db, do, sb, so, n): pass
    def on_memset(self, st, I, b, off, c, n): pass
    def on_unpack(self, st, I, msg, o, b, off, args, src): pass
    def on_pack(self, st, I, msg, b, d): pass

    def same_len(self, st, a, b):
        return a is b or a == b or st.norm(a) == st.norm(b)

    def escape(self, st, b):
        seen = set()
        w = [b]
        while w:
            x = w.pop()
            if not isinstance(x, V) or x in seen:
                continue
            seen.add(x)
            o = st.mem.get(x)
            if o is None:
                continue
            if o.status == "heap":
                st.mem[x] = o.w(status="pinned")
            for off, (s, v) in o.cells.items():
                if isinstance(v, V):
                    w.extend(leafset_deep(v))

    # -- obligations
    def oblige(self, ok, rule, I, msg, inst, st=None):
        self.obligations += 1
        if not ok:
            self.failed += 1
            self.report(rule, I, msg, inst, st)
        return ok

    def site(self, kind, I):
        self.sites.setdefault(kind, set()).add("%s %s" % (self.fnstack[-1] if self.fnstack else "?", self.locs(I) if I is not None else "?"))

    # -- running
    def generated(self, n):
        f = self.m.funcs[n]
        return n.startswith("wickr__proto__")

    def all_functions(self):
        return [n for n in sorted(self.m.funcs) if not self.generated(n)]

    def run(self, roots, required=True):
        for n in roots:
            if n not in self.m.funcs:
                if required:
                    raise AnalysisError("anchor function %s is gone" % n)
                continue
            try:
                self.summary(n)
            except (AnalysisError, KeyError, AttributeError, TypeError, IndexError, ValueError, RecursionError) as x:
                if required:
                    raise
                self.skipped[n] = "%s: %s" % (type(x).__name__, x)
        return self

    def param(self, f, i):
        return engine.arg(f.name, i, engine.mk("arg", f.name, i).bits)

    # -- conditional events: a fact that holds once the call's status is known to mean success
    def when(self, st, want, r, *fact):
        """fact, as soon as r is known to equal want (never, when it is known to differ)"""
        self.waiting(st, [("when", want, r) + fact])

    def waiting(self, st, more=()):
        for f in [f for f in st.facts if f[0] == "when"] + list(more):
            r = st.norm(f[2])
            if isinstance(r, V) and r.k == "op":
                r = st.simp(r)
            if isinstance(r, int) and r == f[1]:
                st.facts = (st.facts - {f}) | {f[3:]}
            elif isinstance(r, int) or f[1] in st.neq.get(r, ()):
                st.facts = st.facts - {f}
            else:
                st.facts = st.facts | {f}

    def on_settle(self, st, rv):
        if st.facts:
            self.waiting(st)

    def drop(self, st, *kinds_and_key):
        """forget the facts that start with this"""
        k = kinds_and_key
        st.facts = frozenset(f for f in st.facts if f[:len(k)] != k and not (f[0] == "when" and f[3:3 + len(k)] == k))

    def fieldof(self, struct, name):
        return ir.field_off(self.m, struct, name)


def enum(m, name):
    """the value of an enumerator, from the debug info"""
    if not hasattr(m, "enumvals"):
        m.enumvals = {}
        for t in m.meta.values():
            x = ENUM.search(t)
            if x:
                m.enumvals[x.group(1)] = int(x.group(2))
    if name not in m.enumvals:
        raise AnalysisError("enumerator %s is gone" % name)
    return m.enumvals[name]


ENUM = re.compile(r'DIEnumerator\(name: "(\w+)", value: (-?\d+)')


def engine_impl(m):
    """slot of the crypto engine -> the functions that implement it in an engine the library defines"""
    out = {}
    for g, (t, init, const) in m.globals.items():
        if t != "%struct.wickr_crypto_engine" or not init.startswith("{"):
            continue
        for i, x in enumerate(ir.split_top(init[1:-1])):
            mm = re.match(r"\s*ptr @([\w.$]+)\s*$", x)
            if mm:
                out.setdefault(m.fieldnames[("%struct.wickr_crypto_engine", i)], set()).add(mm.group(1))
    return out


class Result:
    def __init__(self, rule_text):
        self.rule = rule_text
        self.reports = []
        self.coverage = {}
        self.floors = []
        self.assumptions = []
        self.samples = []

    def take(self, e, rules=None):
        """the reports of an engine run (of the given rules)"""
        for r in e.reports.values():
            if rules is None or r.rule in rules:
                self.reports.append(r)
        return self

    def cover(self, **kw):
        for k, v in kw.items():
            self.coverage[k] = self.coverage.get(k, 0) + v if isinstance(v, int) else v

    def engine_cover(self, e, tag=""):
        s = e.stats
        self.cover(**{tag + "functions_analysed": s["functions"], tag + "abstract_states": s["states"],
                      tag + "call_instances": s["calls"], tag + "derefs_checked": s["derefs"],
                      tag + "release_sites_evaluated": s["frees"], tag + "paths_capped": s["capped"]})
        if e.skipped:
            self.coverage["functions_not_analysed"] = e.skipped
            self.floor("functions followed of those not analysed to the end", 3 - len(e.skipped), 0)
        if e.obligations:
            self.cover(**{tag + "obligations": e.obligations})
        for k, v in e.sites.items():
            self.cover(**{tag + "sites_" + k: len(v)})

    def floor(self, what, got, least):
        self.floors.append((what, got, least))

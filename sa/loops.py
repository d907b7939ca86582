"""Affine induction analysis of simple byte loops (used to check the wiping primitive)."""


class Unknown(Exception):
    pass


def add(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        r[x] = r.get(x, 0) + k * c
    return {x: c for x, c in r.items() if c}


class Fn:
    def __init__(self, f):
        self.f = f
        self.defs = {I.res: I for b in f.order for I in f.blocks[b] if I.res}
        self.stored = {}
        for b in f.order:
            for I in f.blocks[b]:
                if I.op == "store" and I.b[0] == "l" and I.b[1] in self.defs and self.defs[I.b[1]].op == "alloca":
                    self.stored.setdefault(I.b[1], []).append(I.a)
        self.argi = {}
        for i, p in enumerate(f.params):
            self.argi[p[1].strip()] = i
        self.phis = {}

    def lin(self, o, busy=()):
        """operand -> linear form over arguments, 1, and the loop counter "k" """
        if o[0] == "c":
            return {"1": o[1]} if o[1] else {}
        if o[0] != "l":
            raise Unknown(str(o))
        n = o[1]
        if n in self.argi:
            return {"arg%d" % self.argi[n]: 1}
        if n in busy:
            return {("self", n): 1}
        I = self.defs.get(n)
        if I is None:
            raise Unknown(n)
        b2 = busy
        if I.op == "load":
            st = self.stored.get(I.a[1]) if I.a[0] == "l" else None
            if st and len(st) == 1:
                return self.lin(st[0], b2)
            if st and len(st) == 2:          # a counter kept in memory: an initial value and an update
                return self.pair(("slot", I.a[1]), st, b2)
            raise Unknown("load")
        if I.op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze"):
            return self.lin(I.a, b2)
        if I.op == "add":
            return add(self.lin(I.a, b2), self.lin(I.b, b2))
        if I.op == "sub":
            return add(self.lin(I.a, b2), self.lin(I.b, b2), -1)
        if I.op == "getelementptr":
            if I.ty != "i8" or len(I.b) != 1:
                raise Unknown("gep")
            return add(self.lin(I.a, b2), self.lin(I.b[0], b2))
        if I.op == "phi":
            if len(I.a) == 1:
                return self.lin(I.a[0][0], b2)
            if len(I.a) != 2:
                raise Unknown("phi")
            return self.pair(n, [v for v, l in I.a], b2)
        raise Unknown(I.op)

    def pair(self, key, vals, busy):
        if key in self.phis:
            return self.phis[key]
        for x, y in ((0, 1), (1, 0)):
            try:
                init = self.lin(vals[x], busy + (key,))
                step = self.lin(vals[y], busy + (key,))
            except Unknown:
                continue
            me = ("self", key)
            if me in init or step.get(me) != 1:
                continue
            d = add(step, {me: 1}, -1)
            if any(z != "1" for z in d):
                continue
            r = add(init, {"k": d.get("1", 0)})
            self.phis[key] = r
            return r
        raise Unknown("not an induction")


def byte_fill(f):
    """-> (recognised, problem or None): does f(buf, len) store zero over buf[0..len)?"""
    F = Fn(f)
    stores = [I for b in f.order for I in f.blocks[b] if I.op == "store" and not (I.b[0] == "l" and I.b[1] in F.defs and F.defs[I.b[1]].op == "alloca")]
    calls = [I for b in f.order for I in f.blocks[b] if I.op == "call" and I.a[0] == "g"]
    for I in calls:
        n = I.a[1]
        try:
            if n in ("explicit_bzero", "OPENSSL_cleanse") and len(I.b) == 2:
                a, l, c = F.lin(I.b[0]), F.lin(I.b[1]), {}
            elif n == "memset_s":
                a, l, c = F.lin(I.b[0]), F.lin(I.b[3]), F.lin(I.b[2])
            elif n in ("memset", "memset_explicit") or n.startswith("llvm.memset"):
                a, l, c = F.lin(I.b[0]), F.lin(I.b[2]), F.lin(I.b[1])
            else:
                continue
        except Unknown:
            return False, None
        if a != {"arg0": 1} or l != {"arg1": 1}:
            return True, "%s does not cover the whole of the buffer" % n
        if c:
            return True, "%s writes a value other than zero" % n
        return True, guards(F, f)
    if not stores and not calls:
        return True, "nothing in it writes to the buffer"
    if len(stores) != 1:
        return False, None
    s = stores[0]
    try:
        addr = F.lin(s.b)
        if s.a[0] != "c" or s.ty != "i8":
            return False, None
        if s.a[1] != 0:
            return True, "the loop stores a value other than zero"
        cond = None
        for b in f.order:
            t = f.blocks[b][-1]
            if t.op == "br" and t.a is not None and t.a[0] == "l":
                c = F.defs.get(t.a[1])
                if c is not None and c.op == "icmp":
                    try:
                        x, y = F.lin(c.a), F.lin(c.b)
                    except Unknown:
                        continue
                    if "k" in x or "k" in y:
                        cond = (c.c, x, y, t, b)
        if cond is None:
            return False, None
        pred, x, y, t, blk = cond
        d = add(x, y, -1)          # x - y, affine in k
        kk = d.pop("k", 0)
        if pred in ("ult", "slt", "ne") and kk == 1:
            trips = {z: -c for z, c in d.items()}
        elif pred in ("ugt", "sgt", "ne") and kk == -1:
            trips = d
        elif pred in ("ule", "sle") and kk == 1:
            trips = add({z: -c for z, c in d.items()}, {"1": 1})
        elif pred in ("uge", "sge") and kk == -1:
            trips = add(d, {"1": 1})
        else:
            return False, None
        if tested_after(f, s, blk):
            trips = add(trips, {"1": 1})
        step = addr.pop("k", 0)
        if any(isinstance(z, tuple) for z in list(trips) + list(addr)):
            return False, None
        if step == 1:
            first = addr
        elif step == -1:
            first = add(add(addr, trips, -1), {"1": 1})
        elif step == 0:
            return True, "the loop stores to the same byte every time"
        else:
            return False, None
        if first != {"arg0": 1}:
            return True, "the loop does not start at the first byte"
        if trips != {"arg1": 1}:
            return True, "the loop does not run over the whole length"
        if not s.x:
            return True, "the stores of the loop are not volatile and may be removed"
        return True, guards(F, f)
    except Unknown:
        return False, None


def tested_after(f, s, test):
    """does the loop store before it tests whether to go on?"""
    succ = {}
    for b in f.order:
        t = f.blocks[b][-1]
        succ[b] = t.b if t.op == "br" else [t.c] + [l for _, l in t.b] if t.op == "switch" else []
        for I in f.blocks[b]:
            if I is s:
                home = b

    def reach(b, avoid=None):
        seen, todo = set(), list(succ[b])
        while todo:
            x = todo.pop()
            if x not in seen and x != avoid:
                seen.add(x)
                todo += succ[x]
        return seen
    if home == test:
        return True
    loop = {b for b in f.order if b in reach(test) and test in reach(b)} | {test}
    head = [b for b in loop if b == f.order[0] or any(b in succ[p] for p in f.order if p not in loop)]
    return any(h != test and (h == home or home in reach(h, test)) for h in head)


def guards(F, f):
    """conditions other than `no buffer` and `no bytes` that skip the wipe"""
    for b in f.order:
        t = f.blocks[b][-1]
        if t.op != "br" or t.a is None or t.a[0] != "l":
            continue
        c = F.defs.get(t.a[1])
        if c is None or c.op != "icmp":
            continue
        try:
            x, y = F.lin(c.a), F.lin(c.b)
        except Unknown:
            continue
        if "k" in x or "k" in y:
            continue
        d = add(x, y, -1)
        if set(d) & {"arg1"} and (d.get("1") not in (None, 0)) and not (c.c == "ult" and d == {"arg1": 1, "1": -1}) \
                and not (c.c == "uge" and d == {"arg1": 1, "1": -1}):
            return "lengths other than 0 are left unwiped"
    return None

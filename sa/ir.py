"""Build /repo's current sources to LLVM IR and parse the textual IR.

Every run recompiles every translation unit of the library from /repo's working
tree (clang -O0 -g, the same include path and defines as the CMake build), promotes
them separately to SSA with mem2reg, merges them textually (keeping every struct
name as written: llvm-link would merge isomorphic structs) and parses the result.
"""
import glob
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
STUBS = os.path.join(HERE, "stubs")


class AnalysisError(Exception):
    """The analysis could not be carried out (an error exit, never a verdict)."""


def _find(*names):
    for n in names:
        p = shutil.which(n)
        if p:
            return p
    raise AnalysisError("tool not found: %s" % (names,))


def source_files(repo=None):
    repo = repo or REPO
    fs = sorted(glob.glob(repo + "/src/wickrcrypto/src/*.c")) + \
        sorted(glob.glob(repo + "/src/protobuf/gen/*.c"))
    if not fs:
        raise AnalysisError("no sources under %s" % repo)
    return fs


def known_functions():
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "functions.txt")) as fh:
        return set(fh.read().split())


def compile_module(repo=None, keep=None):
    """-> text of the linked module's IR."""
    repo = repo or REPO
    clang = _find("clang-18", "clang")
    opt = _find("opt-18", "opt")
    files = source_files(repo)
    tmp = tempfile.mkdtemp(prefix="verif-ir-")
    try:
        inc = ["-I" + STUBS,
               "-I" + repo + "/src/wickrcrypto/include/wickrcrypto",
               "-I" + repo + "/src/wickrcrypto/include/wickrcrypto/private",
               "-I" + repo + "/src/wickrcrypto/include",
               "-I" + repo + "/src/wickrcrypto/src",
               "-I" + repo + "/src/protobuf/gen"]

        def one(f):
            bc = os.path.join(tmp, os.path.basename(f) + ".bc")
            cmd = [clang, "-std=gnu99", "-DNDEBUG", "-g", "-O0", "-Xclang", "-disable-O0-optnone",
                   "-fno-discard-value-names", "-w"] + inc + ["-emit-llvm", "-c", f, "-o", bc]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode != 0:
                raise AnalysisError("clang failed on %s:\n%s" % (f, r.stderr[-2000:]))
            ll = bc[:-3] + ".ll"
            r = subprocess.run([opt, "-passes=mem2reg", "-S", bc, "-o", ll], capture_output=True, text=True)
            if r.returncode != 0:
                raise AnalysisError("opt failed on %s:\n%s" % (f, r.stderr[-2000:]))
            with open(ll) as fh:
                return fh.read()
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(one, files))
        text = merge(outs)
        if keep:
            with open(keep, "w") as fh:
                fh.write(text)
        return text, files
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


_DEF = re.compile(r'^@("[^"]*"|[\w.$-]+) = (.*)$', re.M)
_FN = re.compile(r'^define ([^@\n]*)@("[^"]*"|[\w.$-]+)\(', re.M)


def merge(texts):
    """Concatenate the units' IR, renaming what is local to a unit: metadata numbers,
    private and internal globals, colliding static functions, anonymous types."""
    seen = {}
    local = []
    for t in texts:
        loc = set()
        for mm in _DEF.finditer(t):
            if re.match(r"(private|internal) ", mm.group(2)):
                loc.add(mm.group(1))
        for mm in _FN.finditer(t):
            if "internal" in mm.group(1).split():
                loc.add(mm.group(2))
            else:
                seen[mm.group(2)] = seen.get(mm.group(2), 0) + 1
        local.append(loc)
    for loc in local:
        for n in loc:
            seen[n] = seen.get(n, 0) + 1
    out = []
    for k, t in enumerate(texts):
        ren = {n for n in local[k] if n.startswith((".", '".')) or seen[n] > 1}
        base = (k + 1) * 1000000
        t = re.sub(r"!(\d+)\b", lambda x: "!%d" % (base + int(x.group(1))), t)
        t = re.sub(r"%(struct|union)\.anon((?:\.\d+)?)\b",
                   lambda x: "%%%s.anon.%d%s" % (x.group(1), k, x.group(2).replace(".", "0")), t)
        if ren:
            t = re.sub(r'@("[^"]*"|[\w.$-]+)',
                       lambda x: x.group(0) + ".u%d" % k if x.group(1) in ren and x.group(1)[0] != '"'
                       else x.group(0), t)
        out.append(t)
    return "\n".join(out)


# ------------------------------------------------------------------ types

class Types:
    def __init__(self):
        self.structs = {}
        self._lay = {}
        self._size = {}

    def size(self, t):
        r = self._size.get(t)
        if r is None:
            r = self._size[t] = self._sz(t)
        return r

    def _sz(self, t):
        if t == "ptr":
            return 8
        if t[0] == "i" and t[1:].isdigit():
            n = int(t[1:])
            return max(1, (n + 7) // 8)
        if t in ("float",):
            return 4
        if t in ("double",):
            return 8
        if t[0] == "[":
            n, e = self.array(t)
            return n * self.size(e)
        lay = self.layout(t)
        return lay[1]

    def array(self, t):
        m = re.match(r"\[(\d+) x (.*)\]$", t)
        return int(m.group(1)), m.group(2)

    def align(self, t):
        if t[0] == "[":
            return self.align(self.array(t)[1])
        if t == "ptr":
            return 8
        if t[0] in "{<%":
            return self.layout(t)[2]
        return min(8, self.size(t))

    def fields(self, t):
        if t in self.structs:
            t = self.structs[t]
        if t == "opaque":
            return []
        assert t[0] == "{" or t[:2] == "<{", t
        inner = t[1:-1].strip() if t[0] == "{" else t[2:-2].strip()
        return split_top(inner) if inner else []

    def layout(self, t):
        """-> (offsets, size, align)"""
        r = self._lay.get(t)
        if r is None:
            body = self.structs.get(t, t)
            packed = body.startswith("<{")
            offs, o, al = [], 0, 1
            for f in self.fields(t):
                a = 1 if packed else self.align(f)
                al = max(al, a)
                o = (o + a - 1) // a * a
                offs.append(o)
                o += self.size(f)
            o = (o + al - 1) // al * al
            r = self._lay[t] = (offs, o, al)
        return r

    def leaves(self, t, base=0):
        """[(off, size, scalar type)] of an aggregate, flattened."""
        if t[0] == "[":
            n, e = self.array(t)
            out = []
            s = self.size(e)
            for i in range(min(n, 64)):
                out += self.leaves(e, base + i * s)
            return out
        if t[0] in "{<%":
            offs = self.layout(t)[0]
            out = []
            for o, f in zip(offs, self.fields(t)):
                out += self.leaves(f, base + o)
            return out
        return [(base, self.size(t), t)]


def split_top(s, sep=","):
    out, d, cur, q = [], 0, [], False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in "([{<":
                d += 1
            elif ch in ")]}>":
                d -= 1
            elif ch == sep and d == 0:
                out.append("".join(cur).strip())
                cur = []
                continue
        cur.append(ch)
    last = "".join(cur).strip()
    if last:
        out.append(last)
    return out


def take_type(s):
    """split a leading type off s -> (type, rest)"""
    s = s.lstrip()
    if s[0] in "[{<":
        d = 0
        for i, ch in enumerate(s):
            if ch in "[{<(":
                d += 1
            elif ch in "]})>":
                d -= 1
                if d == 0:
                    return s[:i + 1], s[i + 1:].lstrip()
    m = re.match(r'%"[^"]*"|%[\w.$-]+|[\w.]+', s)
    return m.group(0), s[m.end():].lstrip()


# ------------------------------------------------------------------ instructions

class Ins:
    __slots__ = ("op", "res", "ty", "a", "b", "c", "dbg", "idx", "fn", "blk", "field", "x")

    def __init__(self, op, res):
        self.op = op
        self.res = res
        self.ty = self.a = self.b = self.c = self.dbg = self.field = self.x = None

    def __repr__(self):
        return "<%s %s=%s %s %s %s>" % (self.fn.name if self.fn else "?", self.res, self.op, self.ty, self.a, self.b)


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []     # [(type, name, attrs)]
        self.blocks = {}     # label -> [Ins]
        self.order = []
        self.dbg = None
        self.rty = None
        self.internal = False
        self.vararg = False


class Module:
    def __init__(self):
        self.types = Types()
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.meta = {}
        self.fieldnames = {}
        self.files = []

    def loc(self, dbg):
        """!dbg id -> (file, line)"""
        m = self.meta.get(dbg)
        if not m:
            return ("?", 0)
        mm = re.search(r"line: (\d+)", m)
        line = int(mm.group(1)) if mm else 0
        sc = re.search(r"scope: (!\d+)", m)
        f = "?"
        seen = 0
        cur = sc.group(1) if sc else None
        while cur and seen < 40:
            seen += 1
            t = self.meta.get(cur, "")
            fm = re.search(r"file: (!\d+)", t)
            if fm:
                ft = self.meta.get(fm.group(1), "")
                nm = re.search(r'filename: "([^"]*)"', ft)
                f = nm.group(1) if nm else "?"
                break
            s2 = re.search(r"scope: (!\d+)", t)
            cur = s2.group(1) if s2 else None
        return (f, line)


_val_re = re.compile(r'%"[^"]*"|%[\w.$-]+|@"[^"]*"|@[\w.$-]+|-?\d+|null|true|false|undef|poison|zeroinitializer|none')
_ATTR = re.compile(r'^(noundef|nonnull|zeroext|signext|noalias|nocapture|readonly|writeonly|readnone|returned|immarg|inreg|'
                   r'align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|byval\([^()]*\)|sret\([^()]*\)|'
                   r'allocptr|allocalign|noreturn|nofree|dead_on_unwind|writable|dead_on_return|captures\([^()]*\)|range\([^()]*\))\s*')


def parse_operand(m, ty, s):
    """operand text -> ('c', int) | ('l', name) | ('g', name) | ('ce', op, ...) | ('agg', ...)"""
    s = s.strip()
    c = s[0]
    if c == "%":
        return ("l", s)
    if c == "@":
        return ("g", s[1:].strip('"'))
    if c.isdigit() or (c == "-" and s[1:2].isdigit()):
        return ("c", int(s))
    if s in ("null", "false", "zeroinitializer", "none"):
        return ("c", 0)
    if s == "true":
        return ("c", 1)
    if s in ("undef", "poison"):
        return ("u",)
    mm = re.match(r"getelementptr (?:inbounds )?\((.*)\)$", s)
    if mm:
        parts = split_top(mm.group(1))
        sty = parts[0]
        bt, br = take_type(parts[1])
        base = parse_operand(m, bt, br)
        idx = []
        for p in parts[2:]:
            t, r = take_type(p)
            idx.append(parse_operand(m, t, r))
        return ("ce", "gep", sty, base, idx)
    mm = re.match(r"(ptrtoint|inttoptr|bitcast|trunc|zext|sext) \((.*) to (\S+)\)$", s)
    if mm:
        t, r = take_type(mm.group(2))
        return ("ce", "cast", parse_operand(m, t, r))
    if c in "{[<" or s.startswith('c"'):
        return ("agg", s)
    if re.match(r"-?\d+\.\d+e", s) or s.startswith("0x"):
        return ("u",)
    raise AnalysisError("operand: %r" % s)


def strip_attrs(s):
    attrs = []
    while True:
        mm = _ATTR.match(s)
        if not mm:
            return s, attrs
        attrs.append(mm.group(1))
        s = s[mm.end():]


_BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}


def parse_ins(m, line):
    line = line.strip()
    dbg = None
    i = line.rfind(", !dbg ")
    if i >= 0:
        mm = re.match(r", !dbg (!\d+)", line[i:])
        dbg = mm.group(1)
        line = line[:i]
    line = re.sub(r", !(srcloc|tbaa|llvm\.loop|prof|nosanitize|heapallocsite) ![\d]+", "", line)
    line = re.sub(r"( #\d+)+$", "", line)
    res = None
    mm = re.match(r'(%"[^"]*"|%[\w.$-]+) = (.*)$', line)
    if mm:
        res, line = mm.group(1), mm.group(2)
    op, _, rest = line.partition(" ")
    rest = rest.strip()
    if op in ("tail", "musttail", "notail"):
        op, _, rest = rest.partition(" ")
    I = Ins(op, res)
    I.dbg = dbg
    P = lambda t, s: parse_operand(m, t, s)
    if op == "alloca":
        parts = split_top(rest)
        I.ty = parts[0]
        I.a = None
        for p in parts[1:]:
            if not p.startswith("align") and not p.startswith("addrspace"):
                t, r = take_type(p)
                I.a = P(t, r)
    elif op == "load":
        rest = rest.replace("volatile ", "", 1) if rest.startswith("volatile ") else rest
        parts = split_top(rest)
        I.ty = parts[0]
        t, r = take_type(parts[1])
        I.a = P(t, r)
    elif op == "store":
        I.x = rest.startswith("volatile ")
        if I.x:
            rest = rest[9:]
        parts = split_top(rest)
        t, r = take_type(parts[0])
        I.ty = t
        I.a = P(t, r)
        t, r = take_type(parts[1])
        I.b = P(t, r)
    elif op == "getelementptr":
        rest = re.sub(r"^(inbounds |nuw |nusw )+", "", rest)
        parts = split_top(rest)
        I.ty = parts[0]
        t, r = take_type(parts[1])
        I.a = P(t, r)
        I.b = []
        for p in parts[2:]:
            t, r = take_type(p)
            I.b.append(P(t, r))
    elif op == "icmp":
        pred, _, r = rest.partition(" ")
        t, r = take_type(r)
        x, y = split_top(r)
        I.c, I.ty, I.a, I.b = pred, t, P(t, x), P(t, y)
    elif op in _BIN:
        r = re.sub(r"^((nuw|nsw|exact|disjoint) )+", "", rest)
        t, r = take_type(r)
        x, y = split_top(r)
        I.ty, I.a, I.b = t, P(t, x), P(t, y)
    elif op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
        r = re.sub(r"^((nneg|nuw|nsw) )+", "", rest)
        t, r = take_type(r)
        v, _, t2 = r.rpartition(" to ")
        I.c, I.a, I.ty = t, P(t, v), t2.strip()
    elif op == "select":
        x, y, z = split_top(rest)
        t, r = take_type(x)
        I.a = P(t, r)
        t, r = take_type(y)
        I.ty = t
        I.b = P(t, r)
        t, r = take_type(z)
        I.c = P(t, r)
    elif op == "phi":
        t, r = take_type(rest)
        I.ty = t
        I.a = []
        for p in split_top(r):
            p = p.strip()[1:-1]
            v, l = split_top(p)
            I.a.append((P(t, v), l.strip()))
    elif op == "br":
        if rest.startswith("label"):
            I.a = None
            I.b = [rest[6:].strip()]
        else:
            parts = split_top(rest)
            t, r = take_type(parts[0])
            I.a = P(t, r)
            I.b = [p[6:].strip() for p in parts[1:]]
    elif op == "switch":
        mm = re.match(r"(\w+) ([^,]+), label (%\S+) \[(.*)\]$", rest, re.S)
        I.ty = mm.group(1)
        I.a = P(mm.group(1), mm.group(2))
        I.c = mm.group(3)
        I.b = [(int(x), l) for x, l in re.findall(r"\w+ (-?\d+), label (%[\w.$-]+)", mm.group(4))]
    elif op == "ret":
        if rest != "void":
            t, r = take_type(rest)
            I.ty = t
            I.a = P(t, r)
    elif op == "unreachable":
        pass
    elif op == "call":
        r = rest
        r = re.sub(r"^(fastcc |ccc |coldcc )", "", r)
        while True:
            r2, at = strip_attrs(r)
            if not at:
                break
            r = r2
        t, r = take_type(r)
        if r.startswith("("):          # function type of a vararg call
            d = 0
            for i, ch in enumerate(r):
                if ch == "(":
                    d += 1
                elif ch == ")":
                    d -= 1
                    if d == 0:
                        break
            r = r[i + 1:].strip()
        I.ty = t
        mm = re.match(r'(@"[^"]*"|@[\w.$-]+|%"[^"]*"|%[\w.$-]+)\(', r)
        if not mm:
            raise AnalysisError("call: %r" % line)
        I.a = P("ptr", mm.group(1))
        args = r[mm.end():]
        d = 1
        for i, ch in enumerate(args):
            if ch == "(":
                d += 1
            elif ch == ")":
                d -= 1
                if d == 0:
                    break
        args = args[:i]
        I.b = []
        I.c = []
        I.x = []
        if I.a[0] == "g" and I.a[1].startswith("llvm.dbg."):
            return None
        for p in split_top(args):
            t, r = take_type(p)
            r, attrs = strip_attrs(r)
            I.b.append(P(t, r))
            I.c.append(t)
            I.x.append(attrs)
    elif op == "extractvalue":
        t, r = take_type(rest)
        parts = split_top(r)
        I.ty = t
        I.a = P(t, parts[0])
        I.b = [int(x) for x in parts[1:]]
    elif op == "insertvalue":
        t, r = take_type(rest)
        parts = split_top(r)
        I.ty = t
        I.a = P(t, parts[0])
        t2, r2 = take_type(parts[1])
        I.x = t2
        I.b = P(t2, r2)
        I.c = [int(x) for x in parts[2:]]
    elif op == "freeze":
        t, r = take_type(rest)
        I.ty = t
        I.a = P(t, r)
    else:
        raise AnalysisError("unknown instruction %r" % line)
    return I


def parse_module(text):
    m = Module()
    lines = text.split("\n")
    i, n = 0, len(lines)
    bodies, private = [], set()
    while i < n:
        l = lines[i]
        if not l:
            i += 1
            continue
        c = l[0]
        if c == "%":
            mm = re.match(r'(%"[^"]*"|%[\w.$-]+) = type (.*)$', l)
            if mm.group(2) != "opaque" or mm.group(1) not in m.types.structs:
                m.types.structs[mm.group(1)] = mm.group(2)
        elif c == "@":
            mm = re.match(r'@("[^"]*"|[\w.$-]+) = (.*)$', l)
            rest = mm.group(2)
            mm2 = re.match(r"((?:[\w]+ )*?)(?:unnamed_addr |local_unnamed_addr )?((?:external )?)(constant|global) (.*)$", rest)
            if mm2 and not (mm2.group(2) and mm.group(1).strip('"') in m.globals):
                body = mm2.group(4)
                body = re.sub(r", align \d+.*$", "", body)
                body = re.sub(r", !dbg !\d+.*$", "", body)
                body = re.sub(r", section .*$", "", body)
                t, r = take_type(body)
                m.globals[mm.group(1).strip('"')] = (t, r, mm2.group(3) == "constant")
                if mm2.group(3) == "global" and "internal" in mm2.group(1):
                    private.add(mm.group(1))
        elif l.startswith("declare"):
            mm = re.search(r'@("[^"]*"|[\w.$-]+)\(', l)
            m.decls[mm.group(1)] = l
        elif c == "!":
            k, _, v = l.partition(" = ")
            m.meta[k] = v
        elif l.startswith("define"):
            j = i + 1
            while lines[j] != "}":
                j += 1
            bodies.append((l, lines[i + 1:j]))
            i = j
        i += 1
    for n in private:           # one that the program only ever loads from keeps the value it starts with
        ref = re.compile(r"@%s(?![\w.$-])" % re.escape(n))
        load = re.compile(r"= load [^,]*, ptr @%s," % re.escape(n))
        uses = [l for l in lines if ref.search(l) and not l.startswith("@" + n + " ") and not l.startswith("!")]
        if all(load.search(l) and len(ref.findall(l)) == 1 for l in uses):
            t, r, _ = m.globals[n.strip('"')]
            m.globals[n.strip('"')] = (t, r, True)
    for head, body in bodies:
        f = parse_func(m, head, body)
        m.funcs[f.name] = f
    _field_names(m)
    _annotate(m)
    return m


def parse_func(m, head, body):
    mm = re.search(r'@("[^"]*"|[\w.$-]+)\(', head)
    f = Func(mm.group(1).strip('"'))
    pre = head[len("define"):mm.start()].strip()
    f.internal = " internal " in " " + pre + " "
    # return type: the last type in the prefix
    p = pre
    for w in ("internal", "dso_local", "weak", "linkonce_odr", "hidden", "local_unnamed_addr", "extern_weak", "protected"):
        p = re.sub(r"(^| )%s( |$)" % w, " ", p)
    p = p.strip()
    while True:
        p2, at = strip_attrs(p)
        if not at:
            break
        p = p2
    f.rty = take_type(p)[0]
    args = head[mm.end():]
    d = 1
    for i, ch in enumerate(args):
        if ch == "(":
            d += 1
        elif ch == ")":
            d -= 1
            if d == 0:
                break
    tail = args[i + 1:]
    args = args[:i]
    for p in split_top(args):
        if p == "...":
            f.vararg = True
            continue
        t, r = take_type(p)
        r, attrs = strip_attrs(r)
        f.params.append((t, r, attrs))
    dm = re.search(r"!dbg (!\d+)", tail)
    f.dbg = dm.group(1) if dm else None
    # basic blocks
    cur = None
    j = 0
    first = True
    while j < len(body):
        l = body[j]
        j += 1
        if not l.strip():
            continue
        mm = re.match(r'("[^"]*"|[\w.$-]+):', l)
        if mm and not l.startswith(" "):
            cur = "%" + mm.group(1)
            f.blocks[cur] = []
            f.order.append(cur)
            continue
        if cur is None:
            cur = "%__entry"
            f.blocks[cur] = []
            f.order.append(cur)
        s = l
        if s.strip().startswith("switch") and "]" not in s:
            while "]" not in body[j]:
                s += " " + body[j].strip()
                j += 1
            s += " " + body[j].strip()
            j += 1
        I = parse_ins(m, s)
        if I is None:
            continue
        I.fn = f
        I.blk = cur
        I.idx = len(f.blocks[cur])
        f.blocks[cur].append(I)
    # the entry block's implicit label when unnamed
    if f.order and f.order[0] == "%__entry":
        n = len([1 for t, r, a in f.params])
        f.entry_alias = "%" + str(n)
    else:
        f.entry_alias = f.order[0]
    for b in f.order:
        for I in f.blocks[b]:
            if I.op == "phi":
                I.a = [(v, "%__entry" if l not in f.blocks else l) for v, l in I.a]
    return f


def _field_names(m):
    """(struct IR name, index) -> source field name, through the debug info."""
    bydi = {}
    for k, v in m.meta.items():
        if "DICompositeType(tag: DW_TAG_structure_type" in v:
            nm = re.search(r'name: "([^"]*)"', v)
            el = re.search(r"elements: (!\d+)", v)
            if nm and el:
                mem = []
                for e in re.findall(r"!\d+", m.meta.get(el.group(1), "")):
                    mt = m.meta.get(e, "")
                    n2 = re.search(r'name: "([^"]*)"', mt)
                    of = re.search(r"offset: (\d+)", mt)
                    mem.append((int(of.group(1)) // 8 if of else 0, n2.group(1) if n2 else ""))
                bydi.setdefault(nm.group(1), mem)
    for st in m.types.structs:
        nm = re.sub(r"^%(struct|union)\.", "", st)
        nm = re.sub(r"\.\d+$", "", nm)
        mem = bydi.get(nm)
        if not mem:
            continue
        d = {}
        for o, n in mem:
            d.setdefault(o, n)
        try:
            offs = m.types.layout(st)[0]
        except Exception:
            continue
        for i, o in enumerate(offs):
            if o in d:
                m.fieldnames[(st, i)] = d[o]


def field_off(m, struct, field):
    """byte offset of a named field (through the debug info, so reordering a struct is followed)"""
    st = "%struct." + struct
    offs = m.types.layout(st)[0]
    for i, o in enumerate(offs):
        if m.fieldnames.get((st, i)) == field:
            return o
    raise KeyError("%s.%s" % (struct, field))


def _annotate(m):
    """attach the (struct, field) a load/store goes through, from its address' GEP."""
    for f in m.funcs.values():
        geps = {}
        for b in f.order:
            for I in f.blocks[b]:
                if I.op == "getelementptr":
                    geps[I.res] = I
        for b in f.order:
            for I in f.blocks[b]:
                p = I.a if I.op == "load" else I.b if I.op == "store" else None
                if p and p[0] == "l" and p[1] in geps:
                    I.field = gep_field(m, geps[p[1]])


def gep_field(m, G):
    """last struct step of a GEP -> (struct short name, field name) or None"""
    t = G.ty
    last = None
    for k, ix in enumerate(G.b):
        if k == 0:
            continue
        if t[0] == "[":
            t = m.types.array(t)[1]
            continue
        if t[0] in "%{":
            if ix[0] != "c":
                return last
            nm = m.fieldnames.get((t, ix[1]))
            last = (re.sub(r"^%(struct|union)\.", "", t), nm or str(ix[1]))
            t = m.types.fields(t)[ix[1]]
    return last


def splice(m, repo=None, known=None):
    """A function that is not one of the library's (functions.txt) is a helper of those that
    call it: it is analysed as a part of them, its body in the place of each call."""
    known = known_functions() if known is None else known
    new = {n for n in m.funcs if re.sub(r"\.u\d+$", "", n) not in known}
    m.spliced = {}
    if not new:
        return m

    def callees(f):
        return [I.a[1] for b in f.order for I in f.blocks[b] if I.op == "call" and I.a[0] == "g" and I.a[1] in m.funcs]
    calls = {n: [c for c in callees(m.funcs[n]) if c in new] for n in new}
    order, state = [], {}

    def visit(n, path):
        if n in path:
            state[n] = "cyclic"
            return
        if n in state:
            return
        for c in calls[n]:
            visit(c, path + [n])
        if state.get(n) != "cyclic":
            state[n] = "ok"
        order.append(n)
    for n in sorted(new):
        visit(n, [])

    def fit(f):
        return state.get(f.name) == "ok" and not any(x.startswith("byval") for t, n, at in f.params for x in at) and \
            any(I.op == "ret" for b in f.order for I in f.blocks[b]) and not f.vararg
    helpers = {n for n in order if fit(m.funcs[n])}
    for n in order + sorted(set(m.funcs) - new):
        splice_into(m, m.funcs[n], helpers)
    taken = set()
    for n, f in m.funcs.items():
        for b in f.order:
            for I in f.blocks[b]:
                mentioned((I.a, I.b, I.c), taken, helpers)
    for g in m.globals.values():
        mentioned(g, taken, helpers)
    public = ""
    for h in glob.glob((repo or REPO) + "/src/wickrcrypto/include/wickrcrypto/*.h"):
        with open(h, errors="replace") as fh:
            public += fh.read()
    for n in helpers:
        f = m.funcs[n]
        if n in m.spliced and n not in taken and (f.internal or not re.search(r"\b%s\b" % re.escape(n), public)):
            del m.funcs[n]
    return m


def mentioned(x, out, among):
    if isinstance(x, (tuple, list)):
        if len(x) >= 2 and x[0] == "g" and x[1] in among:
            out.add(x[1])
        for y in x:
            mentioned(y, out, among)
    elif isinstance(x, str) and "@" in x:
        for y in re.findall(r"@([\w.$-]+)", x):
            if y in among:
                out.add(y)


def splice_into(m, f, helpers):
    k = 0
    todo = list(f.order)
    order = []
    while todo:
        b = todo.pop(0)
        order.append(b)
        ins = f.blocks[b]
        for i, I in enumerate(ins):
            if I.op != "call" or I.a[0] != "g" or I.a[1] not in helpers or I.a[1] == f.name:
                continue
            g = m.funcs[I.a[1]]
            if len(I.b) != len(g.params):
                continue
            m.spliced[g.name] = m.spliced.get(g.name, 0) + 1
            k += 1
            pre = "%%%s#%d." % (g.name, k)
            env = {n: v for (t, n, at), v in zip(g.params, I.b)}

            def lab(l):
                return pre + l[1:]

            def sub(x):
                if isinstance(x, tuple):
                    if len(x) == 2 and x[0] == "l":
                        return env[x[1]] if x[1] in env else ("l", lab(x[1]))
                    return tuple(sub(y) for y in x)
                if isinstance(x, list):
                    return [sub(y) for y in x]
                return x
            cont = "%%%s#%d" % (g.name, k)
            rets = []
            blocks = []
            for gb in g.order:
                nb = lab(gb)
                blocks.append(nb)
                f.blocks[nb] = out = []
                for G in g.blocks[gb]:
                    N = Ins(G.op, lab(G.res) if G.res else None)
                    N.ty, N.dbg, N.x, N.field, N.fn, N.blk = G.ty, G.dbg, G.x, G.field, f, nb
                    N.a, N.b, N.c = sub(G.a), sub(G.b), sub(G.c)
                    if G.op == "phi":
                        N.a = [(sub(v), lab(l)) for v, l in G.a]
                    elif G.op == "br":
                        N.b = [lab(l) for l in G.b]
                    elif G.op == "switch":
                        N.c = lab(G.c)
                        N.b = [(v, lab(l)) for v, l in G.b]
                    elif G.op == "ret":
                        if G.ty is not None and I.res:
                            rets.append((sub(G.a), nb))
                        N.op, N.a, N.b, N.c, N.ty = "br", None, [cont], None, None
                    out.append(N)
            tail = ins[i + 1:]
            f.blocks[cont] = tail
            if I.res:
                ph = Ins("phi", I.res)
                ph.ty, ph.a, ph.dbg, ph.fn = I.ty, rets, I.dbg, f
                tail.insert(0, ph)
            for T in tail:
                T.blk = cont
            br = Ins("br", None)
            br.a, br.b, br.dbg, br.fn, br.blk = None, [lab(g.order[0])], I.dbg, f, b
            f.blocks[b] = ins[:i] + [br]
            last = tail[-1]
            succ = last.b if last.op == "br" else [last.c] + [l for v, l in last.b] if last.op == "switch" else []
            for x in set(succ):
                for P in f.blocks[x]:
                    if P.op == "phi":
                        P.a = [(v, cont if l == b else l) for v, l in P.a]
            order += blocks
            todo.insert(0, cont)
            break
    f.order = order
    for b in order:
        for i, I in enumerate(f.blocks[b]):
            I.idx = i


def load(repo=None):
    text, files = compile_module(repo)
    m = splice(parse_module(text), repo)
    if m.spliced:
        _annotate(m)
    m.files = files
    return m


if __name__ == "__main__":
    import time
    t0 = time.time()
    m = load()
    print(len(m.funcs), "functions", sum(len(b) for f in m.funcs.values() for b in f.blocks.values()), "instructions",
          time.time() - t0)
    print(list(m.fieldnames.items())[:20])

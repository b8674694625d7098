"""C++ handlers -> C, mechanically: clang compiles the file of /repo (unoptimised) against
the declarations in lib/cxx, this script writes the resulting LLVM IR as C for goto-cc.

One C statement per IR instruction, nothing is simplified.  What is dropped, and only that:
 - exceptional control flow: a call continues at its normal successor, a throw ends the path
   (the HTTP library answers an exception with an error status), landing pads go away;
 - the arguments of logging calls (vlog_, see vpre.h), debug and lifetime markers;
 - alignment, fast-math and aliasing attributes.
Anything else not understood is an error (the check is undecided, never passed)."""
import os, re, subprocess, sys

CLANG = ["clang++", "-std=c++17", "-nostdinc++", "-O0", "-fno-discard-value-names", "-w", "-S", "-emit-llvm", "-Xclang", "-disable-O0-optnone", "-fno-stack-protector"]
HEADERS = ["utils/os.h", "voucher/array.h", "voucher/crypto.h", "voucher/keyvalue.h", "voucher/serialize.h", "voucher/voucher.h",
           "brski/config.h", "brski/masa/masa_config.h", "brski/registrar/registrar_config.h", "brski/pledge/pledge_config.h", "brski/pledge/pledge_utils.h"]
CSTRUCT = {"BinaryArray", "BinaryArrayList", "tm", "crypto_cert_meta", "MasaContext", "RegistrarContext", "masa_config", "registrar_config", "pledge_config", "keyvalue_list", "dl_list"}


class Bad(Exception):
    pass


def split(s):
    out, d, cur, q = [], 0, "", False
    for c in s:
        if c == '"':
            q = not q
        if not q:
            if c in "([{<":
                d += 1
            elif c in ")]}>":
                d -= 1
            elif c == "," and d == 0:
                out.append(cur.strip()); cur = ""; continue
        cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def ident(n):
    n = n.strip('"')
    return re.sub(r"[^A-Za-z0-9_]", lambda m: "_%x_" % ord(m.group()), n)


class Tr:
    def __init__(self, text):
        self.lines = text.split("\n")
        self.types, self.out, self.globals, self.decls, self.defs = {}, [], {}, {}, {}
        self.lits = {}

    # ---- types
    def ty(self, s):
        """(kind, data); parse a type at the start of s -> (type, rest)"""
        s = s.strip()
        m = re.match(r"\[(\d+) x ", s)
        if m:
            t, r = self.ty(s[m.end():])
            return ("arr", int(m.group(1)), t), r.strip()[1:].strip()
        if s.startswith("{"):
            fs, r = [], s[1:].strip()
            while not r.startswith("}"):
                t, r = self.ty(r)
                fs.append(t)
                r = r.strip().lstrip(",").strip()
            return ("st", tuple(fs)), r[1:].strip()
        if s.startswith("<{"):
            fs, r = [], s[2:].strip()
            while not r.startswith("}"):
                t, r = self.ty(r)
                fs.append(t)
                r = r.strip().lstrip(",").strip()
            return ("pk", tuple(fs)), r[1:].strip()[1:].strip()
        m = re.match(r'%("[^"]*"|[-\w.$]+)', s)
        if m:
            return ("nm", m.group(1)), s[m.end():].strip()
        m = re.match(r"(i\d+|ptr|void|double|float)\b", s)
        if m:
            return (m.group(1),), s[m.end():].strip()
        raise Bad("type: " + s[:80])

    def lay(self, t):
        k = t[0]
        if k == "ptr" or k == "double":
            return 8, 8
        if k == "float":
            return 4, 4
        if k[0] == "i" and k[1:].isdigit():
            n = max(1, (int(k[1:]) + 7) // 8)
            n = 1 << (n - 1).bit_length()
            return n, n
        if k == "arr":
            a, b = self.lay(t[2])
            return a * t[1], b
        if k == "nm":
            return self.lay(self.types[t[1]])
        if k == "st":
            o, al = 0, 1
            for f in t[1]:
                a, b = self.lay(f)
                o = (o + b - 1) // b * b + a
                al = max(al, b)
            return (o + al - 1) // al * al, al
        if k == "pk":
            return sum(self.lay(f)[0] for f in t[1]), 1
        raise Bad("layout " + repr(t))

    def off(self, t, i):
        if t[0] == "nm":
            t = self.types[t[1]]
        if t[0] == "arr":
            return self.lay(t[2])[0] * i, t[2]
        o = 0
        for j, f in enumerate(t[1]):
            a, b = self.lay(f)
            b = 1 if t[0] == "pk" else b
            o = (o + b - 1) // b * b
            if j == i:
                return o, f
            o += a
        raise Bad("field")

    def c(self, t):
        k = t[0]
        if k == "ptr":
            return "void *"
        if k in ("void", "double", "float"):
            return k
        if k == "i1":
            return "uint8_t"
        if k[0] == "i" and k[1:] in ("8", "16", "32", "64"):
            return f"uint{k[1:]}_t"
        if k == "nm":
            n = self.sname(t[1])
            return f"struct {n}"
        if k in ("st", "pk"):
            return "struct " + self.lits.setdefault(t, f"L_{len(self.lits)}")
        raise Bad("C type " + repr(t))

    def sname(self, q):
        n = q.strip('"')
        m = re.match(r"(?:struct|class|union)\.(.*)", n)
        return m.group(1) if m and m.group(1) in CSTRUCT else "T_" + ident(n)

    def decl(self, t, n):
        d = ""
        while t[0] == "arr":
            d += f"[{t[1]}]"
            t = t[2]
        return f"{self.c(t)} {n}{d}"

    # ---- values
    def g(self, n):
        n = n.strip('"')
        return self.gname.get(n, ident(n))

    def val(self, s, t=None):
        s = s.strip()
        if s in ("null", "zeroinitializer", "undef", "poison", "false"):
            return f"({self.c(t)}){{0}}" if t and t[0] in ("st", "pk", "nm") else "0"
        if s == "true":
            return "1"
        if re.match(r"-?\d+$", s):
            if t and t[0][0] == "i" and t[0] != "i1" and s[0] == "-":
                return f"({self.c(t)})({s}ll)"
            return s + ("ull" if len(s) > 9 else "")
        if s[0] == "%":
            return "v_" + ident(s[1:])
        if s[0] == "@":
            n = self.g(s[1:])
            self.used.add(s[1:].strip('"'))
            return f"((void *)&{n})" if s[1:].strip('"') not in self.fn else f"((void *){n})"
        m = re.match(r"getelementptr (?:inbounds )?\((.*)\)$", s)
        if m:
            a = split(m.group(1))
            return self.gep(a)
        raise Bad("value: " + s[:80])

    def gep(self, a):
        t, r = self.ty(a[0])
        base = self.val(self.ty(a[1])[1])
        e, cst = "", 0
        for i, x in enumerate(a[2:]):
            it, v = self.ty(x)
            if re.match(r"-?\d+$", v):
                if i == 0:
                    cst += self.lay(t)[0] * int(v)
                else:
                    o, t = self.off(t, int(v))
                    cst += o
            else:
                if i > 0:
                    t = t if t[0] != "nm" else self.types[t[1]]
                    if t[0] != "arr":
                        raise Bad("gep")
                    t = t[2]
                s = "int32_t" if it[0] == "i32" else "int64_t"
                e += f" + (int64_t)({s}){self.val(v)} * {self.lay(t)[0]}"
        return f"((void *)((char *){base} + {cst}{e}))"

    ATTR = re.compile(r"^(?:dead_on_unwind|writable|noundef|nonnull|noalias|signext|zeroext|returned|nocapture|readonly|writeonly|readnone|immarg|inreg|nofree|swiftself|noundef|align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|captures\([^)]*\))\s*")

    def arg(self, s):
        """-> type, byval type, value"""
        t, r = self.ty(s)
        by = None
        while True:
            m = self.ATTR.match(r)
            if m:
                r = r[m.end():]
                continue
            m = re.match(r"(sret|byval)\(", r)
            if m:
                tt, rest = self.ty(r[m.end():])
                if m.group(1) == "byval":
                    by = tt
                r = rest.strip()[1:].strip()
                continue
            return t, by, r

    # ---- module
    def run(self):
        L = self.lines
        bodies = []
        self.fn = {}
        i = 0
        raw = []
        while i < len(L):
            s = L[i]
            m = re.match(r'%("[^"]*"|[-\w.$]+) = type (.*)$', s)
            if m:
                if m.group(2) == "opaque":
                    self.types[m.group(1)] = ("st", ())
                else:
                    raw.append((m.group(1), m.group(2)))
            elif s.startswith("@"):
                m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)$', s)
                self.globals[m.group(1).strip('"')] = m.group(2)
            elif s.startswith("declare ") or s.startswith("define "):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', s)
                n = m.group(1).strip('"')
                self.fn[n] = s
                if s.startswith("define"):
                    j = i + 1
                    while L[j] != "}":
                        j += 1
                    bodies.append((n, s, L[i + 1:j]))
                    i = j
            i += 1
        for n, d in raw:
            self.types[n] = self.ty(d)[0]
        # plain names: the base name of a C++ function, if it is the only one
        names = list(self.fn)
        dem = subprocess.run(["c++filt", "-p"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
        self.gname, cnt = {}, {}
        for n, d in zip(names, dem):
            cnt[d] = cnt.get(d, 0) + 1
        for n, d in zip(names, dem):
            if n.startswith("_Z") and re.match(r"[A-Za-z_]\w*$", d) and cnt[d] == 1 and d not in self.fn:
                self.gname[n] = d
        self.used = set()
        fs = []
        for n, head, b in bodies:
            if "vlog_" in n or n == "__clang_call_terminate":
                continue
            fs.append((n, self.func(n, head, b)))
        # only what is reachable from the functions with external linkage
        o = ["/* written by cxx2c.py */", "#include <stdint.h>", "#include <stddef.h>", "#include <stdlib.h>", "#include <string.h>", "#include <stdio.h>", "#include <unistd.h>", "#include <time.h>"]
        o += [f'#include "{h}"' for h in HEADERS]
        o += ["#ifdef VREPLAY", "void v_assume_fail(void);", "#define V_STOP() v_assume_fail()", "#else", "#define V_STOP() __CPROVER_assume(0)", "#endif"]
        defined = {n for n, _ in fs}
        ctors = re.findall(r"\{ i32 \d+, ptr @([-\w.$]+), ptr", self.globals.get("llvm.global_ctors", ""))
        protos = [self.proto(n) for n in self.fn if n in self.used or n in defined]
        todo, seen, gl = [x for x in self.used if x in self.globals], set(), []
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            before = set(self.used)
            gl.append(self.glob(x))
            todo += [y for y in self.used - before if y in self.globals]
        done = set()

        def emit(t):
            while t[0] == "arr":
                t = t[2]
            if t in done or t[0] not in ("nm", "st", "pk"):
                return
            done.add(t)
            b = self.types[t[1]] if t[0] == "nm" else t
            for f in b[1]:
                emit(f)
            n = self.sname(t[1]) if t[0] == "nm" else self.c(t)[7:]
            if n.startswith("T_") or t[0] != "nm":
                o.append(f"struct {'__attribute__((packed)) ' if b[0] == 'pk' else ''}{n} {{ {' '.join(self.decl(f, f'f{i}') + ';' for i, f in enumerate(b[1]))} }};")
            else:
                o.append(f"_Static_assert(sizeof(struct {n}) == {self.lay(t)[0]}, \"{n}\");")
        for q in self.types:
            emit(("nm", q))
        for t in list(self.lits):
            emit(t)
        o += [p + ";" for p in protos if p]
        o += reversed(gl)
        o += [b for _, b in fs]
        # what runs before main
        o.append("void v_global_init(void) { " + " ".join(f"{self.g(n)}();" for n in ctors) + " }")
        return "\n".join(o) + "\n"

    def glob(self, n):
        d = self.globals[n]
        nm = self.g(n)
        m = re.match(r'(?:[\w()]+ )*?(?:constant|global) (.*)$', d)
        if not m:
            raise Bad("global " + d[:80])
        t, r = self.ty(m.group(1))
        r = re.sub(r", (align \d+|comdat).*$", "", r).strip()
        if "external" in d.split("constant")[0].split("global")[0]:
            if n.startswith("_ZT"):
                return f"char {nm}[8];"
            return f"extern {self.decl(t, nm)};"
        ro = "const " if " constant " in " " + d else ""
        return f"static {ro}{self.decl(t, nm)} = {self.init(t, r)};"

    def init(self, t, r):
        r = r.strip()
        if r.startswith("c\""):
            b, s, i = [], r[2:-1], 0
            while i < len(s):
                if s[i] == "\\":
                    if s[i + 1] == "\\":
                        b.append(92); i += 2
                    else:
                        b.append(int(s[i + 1:i + 3], 16)); i += 3
                else:
                    b.append(ord(s[i])); i += 1
            return "{" + ",".join(map(str, b)) + "}"
        if r in ("zeroinitializer", "undef"):
            return "{0}" if t[0] in ("arr", "st", "pk", "nm") else "0"
        if r.startswith("<{"):
            r = r[1:-1]
        if r[0] in "[{":
            return "{" + ", ".join(self.init(self.ty(x)[0], self.ty(x)[1]) for x in split(r[1:-1])) + "}"
        return self.val(r, t)

    def params(self, head):
        m = re.search(r'@("[^"]*"|[-\w.$]+)\((.*)\)', head)
        # the matching parenthesis
        s, d, i = head[m.end(1) + 1:], 1, 0
        while d:
            d += {"(": 1, ")": -1}.get(s[i], 0)
            i += 1
        return split(s[:i - 1])

    def ret(self, head):
        h = re.sub(r"^(declare|define) ", "", head)
        h = h[:re.search(r'@("[^"]*"|[-\w.$]+)\(', h).start()]
        while True:
            try:
                return self.ty(h)[0] if re.match(r"(\[|\{|%|i\d+\b|ptr\b|void\b|double\b|float\b)", h) else self.ty("!")[0]
            except Bad:
                m = re.match(r"\s*[\w.]+(\([^)]*\))?\s*", h)
                if not m or not m.group():
                    raise
                h = h[m.end():]

    # functions that the C headers declare keep that declaration
    def known(self, n):
        return not n.startswith("_Z") and not n.startswith("vs_")

    def proto(self, n, names=False):
        head = self.fn[n]
        if n.startswith("llvm.") or (self.known(n) and head.startswith("declare")) or (n.startswith("__") and head.startswith("declare")):
            return None
        ps = []
        for i, p in enumerate(self.params(head)):
            if p == "...":
                ps.append("...")
                continue
            t, by, v = self.arg(p)
            ps.append(self.c(t) + (" v_" + ident(v[1:]) if v.startswith("%") else f" a{i}" if names else ""))
        st = "static " if re.search(r"define (linkonce_odr|internal|private)", head) else ""
        return f"{st}{self.c(self.ret(head))} {self.g(n)}({', '.join(ps) or 'void'})"

    def func(self, name, head, lines):
        # blocks
        blocks, cur = [], None
        src, i = [], 0
        while i < len(lines):
            s = lines[i].split(" ;")[0].rstrip() if ";" in lines[i] and 'c"' not in lines[i] else lines[i].rstrip()
            if not s.strip() or s.lstrip().startswith(";"):
                i += 1
                continue
            if re.match(r'\s*(%("[^"]*"|[-\w.$]+) = )?invoke ', s) and " unwind label " not in s:
                s += " " + lines[i + 1].strip(); i += 1
            if re.match(r"\s*switch ", s) and not s.rstrip().endswith("]"):
                while not lines[i].strip().endswith("]"):
                    i += 1
                    s += " " + lines[i].strip()
            src.append(s)
            i += 1
        for s in src:
            m = re.match(r'("[^"]*"|[-\w.$]+):', s)
            if m and not s.startswith(" "):
                cur = (m.group(1).strip('"'), [])
                blocks.append(cur)
            else:
                if cur is None:
                    cur = ("entry", [])
                    blocks.append(cur)
                cur[1].append(s.strip())
        bm = dict(blocks)
        succ = {}
        for b, ins in blocks:
            t = ins[-1]
            if " unwind label " in t:
                succ[b] = [re.search(r'to label %("[^"]*"|[-\w.$]+)', t).group(1).strip('"')]
            else:
                succ[b] = [x.strip('"') for x in re.findall(r'label %("[^"]*"|[-\w.$]+)', t)]
        live, todo = set(), [blocks[0][0]]
        while todo:
            b = todo.pop()
            if b in live:
                continue
            live.add(b)
            todo += succ[b]
        self.cur_vars = {}
        body, phis = [], {}
        for b, ins in blocks:
            if b not in live:
                continue
            for s in ins:
                m = re.match(r'%("[^"]*"|[-\w.$]+) = phi (.*)$', s)
                if m:
                    t, r = self.ty(m.group(2))
                    self.var(m.group(1), t)
                    for v, f in re.findall(r'\[ ([^,]+), %("[^"]*"|[-\w.$]+) \]', r):
                        if f.strip('"') in live:
                            phis.setdefault((f.strip('"'), b), []).append((self.var(m.group(1)), self.val(v, t)))

        def goto(a, b):
            ps = phis.get((a, b), [])
            s = ""
            if len(ps) == 1:
                s = f"{ps[0][0]} = {ps[0][1]}; "
            else:
                s = " ".join(f"{self.decl(self.cur_vars[v], f'p_{k}')} = {x};" for k, (v, x) in enumerate(ps)) + " " + " ".join(f"{v} = p_{k};" for k, (v, x) in enumerate(ps))
            return f"{{ {s}goto L_{ident(b)}; }}"
        for b, ins in blocks:
            if b not in live:
                continue
            body.append(f"L_{ident(b)}: ;")
            for s in ins:
                body.append("  " + self.ins(s, b, goto))
        sig = self.proto(name, True)
        loc = [f"  {self.decl(t, n)};" for n, t in self.cur_vars.items()]
        return sig + " {\n" + "\n".join(loc + body) + "\n}"

    def var(self, n, t=None):
        v = "v_" + ident(n)
        if t is not None:
            self.cur_vars[v] = t
        return v

    BIN = {"add": "+", "sub": "-", "mul": "*", "and": "&", "or": "|", "xor": "^", "shl": "<<", "lshr": ">>", "udiv": "/", "urem": "%"}
    CMP = {"eq": "==", "ne": "!=", "ult": "<", "ule": "<=", "ugt": ">", "uge": ">=", "slt": "<", "sle": "<=", "sgt": ">", "sge": ">="}

    def sg(self, t):
        return self.c(t).replace("uint", "int") if t[0] != "i1" else "int8_t"

    def ins(self, s, b, goto):
        s = re.sub(r", ![\w.]+ ![\w.]+", "", s)
        m = re.match(r'%("[^"]*"|[-\w.$]+) = (.*)$', s)
        dst, s = (m.group(1), m.group(2)) if m else (None, s)
        op = s.split(" ")[0]
        if op in ("tail", "musttail", "notail"):
            s = s[len(op) + 1:]
            op = s.split(" ")[0]
        if op == "phi":
            return ";"
        if op == "alloca":
            t, _ = self.ty(s[7:])
            self.cur_vars["m_" + ident(dst)] = t
            return f"{self.var(dst, ('ptr',))} = &m_{ident(dst)};"
        if op == "load":
            t, r = self.ty(re.sub(r"^load (atomic )?(volatile )?", "", s))
            p = split(r.lstrip(", "))[0]
            v = re.sub(r" (unordered|monotonic|acquire|seq_cst)$", "", self.ty(p)[1])
            return f"{self.var(dst, t)} = *({self.c(t)} *){self.val(v)};"
        if op == "store":
            a = split(re.sub(r"^store (volatile )?", "", s))
            t, v = self.ty(a[0])
            return f"*({self.c(t)} *){self.val(self.ty(a[1])[1])} = {self.val(v, t)};"
        if op == "getelementptr":
            a = split(re.sub(r"^getelementptr (inbounds )?", "", s))
            return f"{self.var(dst, ('ptr',))} = {self.gep(a)};"
        if op in self.BIN or op in ("sdiv", "srem", "ashr"):
            t, r = self.ty(re.sub(r"^\w+ ((nuw|nsw|exact|disjoint) )*", "", s))
            x, y = [self.val(v, t) for v in split(r)]
            if op in self.BIN:
                k = f"({self.c(t)}){x} {self.BIN[op]} ({self.c(t)}){y}"
            else:
                k = f"({self.sg(t)}){x} {dict(sdiv='/', srem='%', ashr='>>')[op]} ({self.sg(t)}){y}"
            return f"{self.var(dst, t)} = ({self.c(t)})({k}){' & 1' if t[0] == 'i1' else ''};"
        if op == "icmp":
            _, pr, rest = s.split(" ", 2)
            t, r = self.ty(rest)
            x, y = [self.val(v, t) for v in split(r)]
            if t[0] != "ptr":
                c = self.sg(t) if pr[0] == "s" else self.c(t)
                x, y = f"({c}){x}", f"({c}){y}"
            else:
                x, y = f"(char *){x}", f"(char *){y}"
            return f"{self.var(dst, ('i1',))} = {x} {self.CMP[pr]} {y};"
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze"):
            t, r = self.ty(re.sub(r"^\w+ (nneg |nuw |nsw )*", "", s))
            if op == "freeze":
                return f"{self.var(dst, t)} = {self.val(r, t)};"
            v, to = r.rsplit(" to ", 1)
            tt, _ = self.ty(to)
            v = self.val(v, t)
            if op == "sext":
                e = f"({self.c(tt)})({self.sg(tt)})({self.sg(t)}){v}" if t[0] != "i1" else f"({self.c(tt)})-(int){v}"
            else:
                e = f"({self.c(tt)}){v}"
                if tt[0] == "i1":
                    e += " & 1"
            return f"{self.var(dst, tt)} = {e};"
        if op == "select":
            a = split(s[7:])
            t, x = self.ty(a[1])
            return f"{self.var(dst, t)} = {self.val(self.ty(a[0])[1])} ? {self.val(x, t)} : {self.val(self.ty(a[2])[1], t)};"
        if op == "br":
            ls = [x.strip('"') for x in re.findall(r'label %("[^"]*"|[-\w.$]+)', s)]
            if len(ls) == 1:
                return goto(b, ls[0])
            c = self.val(re.match(r"br i1 ([^,]+),", s).group(1))
            return f"if ({c}) {goto(b, ls[0])} else {goto(b, ls[1])}"
        if op == "switch":
            m = re.match(r'switch (.*?), label %("[^"]*"|[-\w.$]+) \[(.*)\]', s)
            t, v = self.ty(m.group(1))
            o = ""
            for k, l in re.findall(r'i\d+ (-?\d+), label %("[^"]*"|[-\w.$]+)', m.group(3)):
                o += f"if (({self.c(t)}){self.val(v)} == {self.val(k, t)}) {goto(b, l.strip(chr(34)))} "
            return o + goto(b, m.group(2).strip('"'))
        if op == "ret":
            t, r = self.ty(s[4:])
            return "return;" if t[0] == "void" else f"return {self.val(r, t)};"
        if op == "unreachable":
            return "V_STOP();" + (" return;" if False else "")
        if op == "extractvalue":
            a = split(s[13:])
            t, v = self.ty(a[0])
            e = self.val(v, t)
            for x in a[1:]:
                b2 = self.types[t[1]] if t[0] == "nm" else t
                if b2[0] == "arr":
                    raise Bad("extractvalue")
                e, t = f"{e}.f{int(x)}", b2[1][int(x)]
            return f"{self.var(dst, t)} = {e};"
        if op == "insertvalue":
            a = split(s[12:])
            t, v = self.ty(a[0])
            et, ev = self.ty(a[1])
            if len(a) != 3 or t[0] == "arr":
                raise Bad("insertvalue")
            d = self.var(dst, t)
            return ("" if v in ("undef", "poison") else f"{d} = {self.val(v, t)}; ") + f"{d}.f{int(a[2])} = {self.val(ev, et)};"
        if op in ("call", "invoke"):
            return self.call(s, op, dst, b, goto)
        raise Bad("instruction: " + s[:100])

    def call(self, s, op, dst, b, goto):
        tail = ""
        if op == "invoke":
            m = re.search(r'\bto label %("[^"]*"|[-\w.$]+) unwind label', s)
            tail = " " + goto(b, m.group(1).strip('"'))
            s = s[:m.start()]
        h = s[len(op):].strip()
        while True:
            m = re.match(r"(noundef|nonnull|noalias|zeroext|signext|fastcc|align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\))\s+", h)
            if not m:
                break
            h = h[m.end():]
        t, h = self.ty(h)
        var = False
        if h.startswith("("):
            d, i = 0, 0
            while True:
                d += {"(": 1, ")": -1}.get(h[i], 0)
                i += 1
                if d == 0:
                    break
            var = "..." in h[:i]
            h = h[i:].strip()
        m = re.match(r'([@%])("[^"]*"|[-\w.$]+)\(', h)
        if not m:
            raise Bad("call: " + h[:80])
        d, i = 1, m.end()
        q = False
        while d:
            if h[i] == '"':
                q = not q
            elif not q:
                d += {"(": 1, ")": -1}.get(h[i], 0)
            i += 1
        args = split(h[m.end():i - 1])
        n = m.group(2).strip('"')
        if m.group(1) == "@":
            if n.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.experimental", "llvm.stack")) or "vlog_" in n:
                return ";" + tail
            if n in ("__cxa_allocate_exception", "__cxa_throw", "__cxa_rethrow", "__cxa_begin_catch", "llvm.trap", "__clang_call_terminate", "_ZSt9terminatev"):
                return (f"{self.var(dst, t)} = 0; " if dst and t[0] != "void" else "") + "V_STOP();" + tail
            if n == "__cxa_atexit":
                return (f"{self.var(dst, t)} = 0;" if dst else ";") + tail
            if n == "__cxa_guard_acquire":
                return f"{self.var(dst, t)} = *(uint8_t *){self.val(self.arg(args[0])[2])} == 0;" + tail
            if n == "__cxa_guard_release":
                return f"*(uint8_t *){self.val(self.arg(args[0])[2])} = 1;" + tail
        av, pre = [], ""
        for k, a in enumerate(args):
            at, by, v = self.arg(a)
            x = self.val(v, at)
            if by is not None:
                self.tmp = getattr(self, "tmp", 0) + 1
                self.cur_vars[f"b_{self.tmp}"] = by
                pre += f"memcpy(&b_{self.tmp}, {x}, {self.lay(by)[0]}); "
                x = f"((void *)&b_{self.tmp})"
            elif at[0] not in ("ptr", "double", "float"):
                x = f"({self.c(at)}){x}"
            av.append(x)
        if m.group(1) == "@" and n.startswith("llvm."):
            mm = re.match(r"llvm\.(memcpy|memset|memmove)\.", n)
            if not mm:
                raise Bad("intrinsic " + n)
            return f"{pre}{mm.group(1)}({', '.join(av[:3])});{tail}"
        if m.group(1) == "@":
            self.used.add(n)
            f = self.g(n)
        else:
            f = f"(({self.c(t)} (*)({', '.join(self.c(self.arg(a)[0]) for a in args)}))v_{ident(n)})"
        e = f"{f}({', '.join(av)})"
        if t[0] == "void" or dst is None:
            return f"{pre}{e};{tail}"
        return f"{pre}{self.var(dst, t)} = {'(void *)' if t[0] == 'ptr' else ''}{e};{tail}"


def translate(src, incs, out):
    """incs: include options; raises Bad"""
    ll = out + ".ll"
    p = subprocess.run(CLANG + incs + ["-include", os.path.join(os.path.dirname(os.path.abspath(__file__)), "cxx", "vstd.h")] + [src, "-o", ll], capture_output=True, text=True, timeout=120)
    if p.returncode != 0:
        raise Bad("clang: " + p.stderr[-1500:])
    open(out, "w").write(Tr(open(ll).read()).run())


if __name__ == "__main__":
    R = "/repo"
    translate(sys.argv[1], ["-I/verif/lib/cxx", "-include", "/verif/lib/vpre.h", f"-I{R}/src", f"-I{R}/lib", f"-I{R}/_build"], sys.argv[2])

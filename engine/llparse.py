"""Parser for the textual LLVM-18 IR that clang emits at -O0 (opaque pointers).

Functions are indexed first and parsed on demand.  Anything outside the supported subset raises Unsupported, which the
driver reports as an undecided contract (never as a proof)."""
import re
import math
import struct
from fractions import Fraction


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "w", "elem", "n", "fields", "packed", "_size", "_align", "_offs")

    def __init__(self, k, w=0, elem=None, n=0, fields=None, packed=False):
        self.k, self.w, self.elem, self.n, self.fields, self.packed = k, w, elem, n, fields, packed
        self._size = self._align = self._offs = None

    def size(self):
        if self._size is None:
            self._layout()
        return self._size

    def align(self):
        if self._align is None:
            self._layout()
        return self._align

    def offs(self):
        if self._offs is None:
            self._layout()
        return self._offs

    def _layout(self):
        k = self.k
        if k == "int":
            b = 1
            while b * 8 < self.w:
                b *= 2
            self._size, self._align = b, min(b, 16)
        elif k == "ptr":
            self._size = self._align = 8
        elif k == "float":
            self._size = self._align = 4
        elif k == "double":
            self._size = self._align = 8
        elif k == "x86_fp80":
            self._size = self._align = 16
        elif k == "array":
            self._size = self.elem.size() * self.n
            self._align = self.elem.align()
        elif k == "vector":
            self._size = self.elem.size() * self.n
            self._align = self._size
        elif k == "struct":
            off, al, offs = 0, 1, []
            for f in self.fields:
                a = 1 if self.packed else f.align()
                off = (off + a - 1) // a * a
                offs.append(off)
                off += f.size()
                al = max(al, a)
            self._offs = offs
            self._align = al
            self._size = (off + al - 1) // al * al
        else:
            raise Unsupported("layout of type " + k)

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.w
        if self.k == "array":
            return "[%d x %r]" % (self.n, self.elem)
        if self.k == "struct":
            return "{%s}" % ",".join(map(repr, self.fields))
        return self.k


PTR, VOID, FLOAT, DOUBLE, FP80, LABEL, META = (Ty(x) for x in ("ptr", "void", "float", "double", "x86_fp80", "label", "metadata"))
_INTS = {}


def int_ty(w):
    t = _INTS.get(w)
    if t is None:
        t = _INTS[w] = Ty("int", w)
    return t


TOK = re.compile(r'''\s*(?:
   (?P<str>c?"[^"]*")
 | (?P<id>[%@]"[^"]*"|[%@][-\w.$]+)
 | (?P<md>![\w.]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<dots>\.\.\.)
 | (?P<word>[A-Za-z_$][\w.$]*)
 | (?P<p>[(){}\[\]<>,=*:])
)''', re.X)


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "":
                break
            if s[i:].lstrip().startswith(";"):
                break
            raise Unsupported("tokenize: " + s[i:i + 60])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


# ---------------------------------------------------------------- operands
# ("reg", name) ("int", value) ("fp", Fraction) ("null",) ("undef", ty) ("zero", ty) ("glob", name)
# ("agg", ty, [ops]) ("gep", ty, base, idxs) ("cast", op, ty, operand) ("str", bytes)
PARAM_ATTRS = {"dead_on_unwind", "writable", "captures", "noundef", "nonnull", "zeroext", "signext", "noalias", "nocapture", "readonly", "writeonly", "returned",
               "immarg", "inreg", "nest", "readnone", "allocptr", "nofree", "swiftself", "noreturn", "writable"}
FLAGS = {"nsw", "nuw", "exact", "inbounds", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc",
         "disjoint", "nneg", "volatile", "atomic", "tail", "musttail", "notail"}


def _f32(x):
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return None


def _short(d, single):
    """the shortest decimal that reads back as d"""
    if not single:
        return repr(d)
    for n in range(1, 10):
        r = "%.*g" % (n, d)
        if _f32(float(r)) == d:
            return r
    return repr(d)


def hexfp(tok, single=False):
    """A floating constant stands for the simple number the programmer wrote, not for its rounding: a decimal of few digits (0.1 is one
    tenth), a simple fraction (1/3, folded by the compiler), or pi (the same rational at both precisions)."""
    if tok.startswith("0xK"):
        v = int(tok[3:], 16)
        sign, exp, man = v >> 79, (v >> 64) & 0x7fff, v & ((1 << 64) - 1)
        f = Fraction(man) * Fraction(2) ** (exp - 16383 - 63)
        return -f if sign else f
    bits = int(tok[2:], 16)
    d = struct.unpack("<d", struct.pack("<Q", bits))[0]
    if d != d or d in (float("inf"), float("-inf")):
        return d
    if single and abs(d) == _f32(math.pi):
        return Fraction(math.pi) if d > 0 else -Fraction(math.pi)
    r = _short(d, single)
    if "e" not in r and len(r.strip("-").replace(".", "").strip("0")) <= (5 if single else 7):
        return Fraction(r)
    q = Fraction(d).limit_denominator(64)
    if (_f32(float(q)) if single else float(q)) == d:
        return q
    return Fraction(d)


class P:
    """token stream"""

    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def eat(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.eat(s):
            raise Unsupported("expected %r at %r" % (s, [x[1] for x in self.t[self.i:self.i + 8]]))

    def skip_parens(self):
        self.expect("(")
        d = 1
        while d:
            x = self.next()
            if x == "(":
                d += 1
            elif x == ")":
                d -= 1

    def type(self):
        x = self.next()
        if x == "ptr":
            t = PTR
            if self.peek() == "addrspace":
                self.next()
                self.skip_parens()
        elif x == "void":
            t = VOID
        elif x == "double":
            t = DOUBLE
        elif x == "float":
            t = FLOAT
        elif x == "x86_fp80":
            t = FP80
        elif x == "label":
            t = LABEL
        elif x == "metadata":
            t = META
        elif x[0] == "i" and x[1:].isdigit():
            t = int_ty(int(x[1:]))
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = Ty("array", elem=e, n=n)
        elif x == "<":
            if self.peek() == "{":
                self.next()
                t = self._struct(True)
                self.expect(">")
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = Ty("vector", elem=e, n=n)
        elif x == "{":
            t = self._struct(False)
        elif x[0] == "%":
            t = self.m.named_type(x)
        else:
            raise Unsupported("type " + x)
        if self.peek() == "(" and self.kind(1) in ("word", "p", "id", "dots") and self._looks_fn():
            self.skip_parens()          # function type in a call to a vararg function
        return t

    def _looks_fn(self):
        # "void (ptr, ...) @f(...)": a parenthesised list of types followed by a callee
        j, d = self.i, 0
        while j < len(self.t):
            x = self.t[j][1]
            if x == "(":
                d += 1
            elif x == ")":
                d -= 1
                if d == 0:
                    return j + 1 < len(self.t) and self.t[j + 1][0] == "id"
            j += 1
        return False

    def _struct(self, packed):
        fs = []
        if not self.eat("}"):
            while True:
                fs.append(self.type())
                if self.eat("}"):
                    break
                self.expect(",")
        return Ty("struct", fields=fs, packed=packed)

    def attrs(self):
        sret = byval = None
        while True:
            x = self.peek()
            if x in PARAM_ATTRS:
                self.next()
            elif x == "align" or x == "dereferenceable" or x == "dereferenceable_or_null":
                self.next()
                if self.peek() == "(":
                    self.skip_parens()
                else:
                    self.next()
            elif x in ("sret", "byval", "elementtype", "byref", "inalloca"):
                self.next()
                self.expect("(")
                t = self.type()
                self.expect(")")
                if x == "byval":
                    byval = t
                elif x == "sret":
                    sret = t
            elif x in ("range", "nofpclass", "memory", "allocsize", "initializes"):
                self.next()
                self.skip_parens()
            else:
                return byval

    def operand(self, ty):
        k, x = self.kind(), self.next()
        if k == "id":
            return ("reg", x) if x[0] == "%" else ("glob", x)
        if k == "num":
            if ty.k == "int":
                return ("int", int(x) & ((1 << ty.w) - 1))
            if x.startswith("0x"):
                return ("fp", hexfp(x, ty.k == "float"))
            return ("fp", Fraction(x))
        if k == "str":
            raw = x[2:-1]
            b = bytearray()
            i = 0
            while i < len(raw):
                if raw[i] == "\\":
                    b.append(int(raw[i + 1:i + 3], 16))
                    i += 3
                else:
                    b.append(ord(raw[i]))
                    i += 1
            return ("str", bytes(b))
        if x == "true":
            return ("int", 1)
        if x == "false":
            return ("int", 0)
        if x == "null":
            return ("null",)
        if x in ("undef", "poison"):
            return ("undef", ty)
        if x == "zeroinitializer":
            return ("zero", ty)
        if x == "none":
            return ("zero", ty)
        if x in ("{", "["):
            close = "}" if x == "{" else "]"
            ops = []
            if not self.eat(close):
                while True:
                    t = self.type()
                    ops.append((t, self.operand(t)))
                    if self.eat(close):
                        break
                    self.expect(",")
            return ("agg", ty, ops)
        if x == "<":
            if self.peek() == "{":
                self.next()
                ops = []
                if not self.eat("}"):
                    while True:
                        t = self.type()
                        ops.append((t, self.operand(t)))
                        if self.eat("}"):
                            break
                        self.expect(",")
                self.expect(">")
                return ("agg", ty, ops)
            ops = []
            while True:
                t = self.type()
                ops.append((t, self.operand(t)))
                if self.eat(">"):
                    break
                self.expect(",")
            return ("agg", ty, ops)
        if x == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw", "inrange"):
                if self.next() == "inrange":
                    self.skip_parens()
            self.expect("(")
            t = self.type()
            self.expect(",")
            bt = self.type()
            b = self.operand(bt)
            idx = []
            while self.eat(","):
                while self.peek() == "inrange":
                    self.next()
                    if self.peek() == "(":
                        self.skip_parens()
                it = self.type()
                idx.append((it, self.operand(it)))
            self.expect(")")
            return ("gep", t, b, idx)
        if x in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
            self.expect("(")
            t = self.type()
            o = self.operand(t)
            self.expect("to")
            t2 = self.type()
            self.expect(")")
            return ("cast", x, t, o, t2)
        raise Unsupported("operand " + x)

    def typed(self):
        t = self.type()
        self.attrs()
        return t, self.operand(t)


class Inst:
    __slots__ = ("op", "dst", "a", "line", "text")

    def __init__(self, op, dst, a, line, text):
        self.op, self.dst, self.a, self.line, self.text = op, dst, a, line, text


class Block:
    __slots__ = ("name", "insts", "phis")

    def __init__(self, name):
        self.name, self.insts, self.phis = name, [], []


class Func:
    __slots__ = ("name", "params", "ret", "blocks", "entry", "loops", "vararg")


BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"}
FBIN = {"fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint", "inttoptr", "bitcast"}


class Module:
    def __init__(self, text):
        self.types, self.type_src = {}, {}
        self.globals, self.glob_src = {}, {}
        self.fsrc, self.decls, self.funcs = {}, set(), {}
        self.aliases = {}
        self.loc, self.locsrc = {}, {}
        self._index(text)

    def _index(self, text):
        lines = text.split("\n")
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("define "):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                self.fsrc["@" + m.group(1)] = lines[i:j]
                i = j
            elif l.startswith("declare "):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                self.decls.add("@" + m.group(1))
            elif l.startswith("%") and " = type " in l:
                nme, rest = l.split(" = type ", 1)
                self.type_src[nme] = rest
            elif l.startswith("@"):
                m = re.match(r'(@"[^"]*"|@[-\w.$]+) = (.*)$', l)
                if m:
                    self.glob_src[m.group(1)] = m.group(2)
            elif l.startswith("!") and "!DILocation(line:" in l:
                m = re.match(r'!(\d+) = .*DILocation\(line: (\d+)', l)
                if m:
                    self.loc[m.group(1)] = int(m.group(2))
            i += 1

    def named_type(self, x):
        t = self.types.get(x)
        if t is None:
            src = self.type_src.get(x)
            if src is None:
                raise Unsupported("unknown type " + x)
            if src.strip() == "opaque":
                t = self.types[x] = Ty("opaque")
                return t
            t = self.types[x] = Ty("struct", fields=[])
            p = P(self, tokenize(src))
            r = p.type()
            t.k, t.fields, t.packed, t.elem, t.n, t.w = r.k, r.fields, r.packed, r.elem, r.n, r.w
        return t

    def global_var(self, name):
        """-> (type, initializer operand or None, constant?)  or ("alias", target)"""
        g = self.globals.get(name)
        if g is not None:
            return g
        src = self.glob_src.get(name)
        if src is None:
            raise Unsupported("unknown global " + name)
        src = re.sub(r', (comdat|align|section|!dbg|!srcloc)\b.*$', "", src)
        p = P(self, tokenize(src))
        const = None
        while True:
            x = p.peek()
            if x in ("private", "internal", "external", "linkonce_odr", "linkonce", "weak", "weak_odr", "common", "appending",
                     "available_externally", "unnamed_addr", "local_unnamed_addr", "dso_local", "hidden", "protected",
                     "default", "extern_weak", "thread_local", "dso_preemptable"):
                if x == "external":
                    const = "ext"
                p.next()
                if p.peek() == "(":
                    p.skip_parens()
            elif x == "comdat":
                p.next()
                if p.peek() == "(":
                    p.skip_parens()
            else:
                break
        k = p.next()
        if k == "alias":
            t = p.type()
            p.expect(",")
            p.type()
            g = ("alias", p.operand(PTR))
            self.globals[name] = g
            return g
        if k not in ("global", "constant"):
            raise Unsupported("global kind " + k)
        t = p.type()
        init = None
        if const != "ext" and p.peek() is not None:
            init = p.operand(t)
        g = (t, init, k == "constant")
        self.globals[name] = g
        return g

    def has_body(self, name):
        return name in self.fsrc

    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            f = self.funcs[name] = self._parse_func(name)
        return f

    def _parse_func(self, name):
        src = self.fsrc[name]
        f = Func()
        f.name = name
        f.loops = None
        hdr = src[0]
        p = P(self, tokenize(hdr[len("define "):hdr.rindex("{")].split(" personality ")[0].split(" comdat")[0]))
        while p.peek() in ("dso_local", "linkonce_odr", "internal", "weak_odr", "hidden", "available_externally", "private",
                           "protected", "weak", "external", "unnamed_addr", "local_unnamed_addr", "fastcc"):
            p.next()
        p.attrs()
        f.ret = p.type()
        p.next()
        p.expect("(")
        f.params = []
        f.vararg = False
        if not p.eat(")"):
            while True:
                if p.eat("..."):
                    f.vararg = True
                else:
                    t = p.type()
                    bv = p.attrs()
                    f.params.append((t, p.next(), bv))
                if p.eat(")"):
                    break
                p.expect(",")
        f.blocks = {}
        # implicit entry label number
        npar = len(f.params)
        cur = Block("%" + str(npar))
        f.entry = cur.name
        first = True
        body = src[1:]
        # join continuation lines (invoke, landingpad, switch)
        joined = []
        i = 0
        while i < len(body):
            l = body[i]
            s = l.strip()
            if re.match(r'(%\S+ = )?invoke ', s):
                while "unwind label" not in s:
                    i += 1
                    s += " " + body[i].strip()
            elif s.startswith("switch "):
                while "]" not in s:
                    i += 1
                    s += " " + body[i].strip()
            elif " landingpad " in s or s.startswith("landingpad"):
                while i + 1 < len(body) and re.match(r'\s+(catch|filter|cleanup)\b', body[i + 1]):
                    i += 1
                    s += " " + body[i].strip()
            joined.append(s)
            i += 1
        for s in joined:
            if not s or s.startswith(";") or s.startswith("#dbg"):
                continue
            m = re.match(r'("[^"]*"|[-\w.$]+):(\s|$)', s)
            if m:
                if first and not cur.insts:
                    cur = Block("%" + m.group(1))
                    f.entry = cur.name
                else:
                    cur = Block("%" + m.group(1))
                f.blocks[cur.name] = cur
                first = False
                continue
            if first:
                f.blocks[cur.name] = cur
                first = False
            ins = self._parse_inst(s)
            if ins is None:
                continue
            if ins.op == "phi":
                cur.phis.append(ins)
            else:
                cur.insts.append(ins)
        return f

    def _parse_inst(self, s):
        line = None
        m = re.search(r', !dbg !(\d+)', s)
        if m:
            line = self.loc.get(m.group(1))
        core = re.sub(r'(, ![\w.]+ ![\w.]+)+\s*$', "", s)
        toks = tokenize(core)
        p = P(self, toks)
        dst = None
        if p.kind() == "id" and p.peek(1) == "=":
            dst = p.next()
            p.next()
        op = p.next()
        while op in ("tail", "musttail", "notail"):
            op = p.next()
        I = lambda o, *a: Inst(o, dst, a, line, s)
        if op in BINOPS:
            fl = set()
            while p.peek() in FLAGS:
                fl.add(p.next())
            t = p.type()
            a = p.operand(t)
            p.expect(",")
            b = p.operand(t)
            return I("bin", op, t, a, b, frozenset(fl))
        if op in FBIN:
            while p.peek() in FLAGS:
                p.next()
            t = p.type()
            a = p.operand(t)
            p.expect(",")
            b = p.operand(t)
            return I("fbin", op, t, a, b)
        if op == "fneg":
            while p.peek() in FLAGS:
                p.next()
            t = p.type()
            return I("fneg", t, p.operand(t))
        if op in CASTS:
            while p.peek() in FLAGS:
                p.next()
            t = p.type()
            a = p.operand(t)
            p.expect("to")
            t2 = p.type()
            return I("cast", op, t, a, t2)
        if op == "icmp" or op == "fcmp":
            while p.peek() in FLAGS:
                p.next()
            pred = p.next()
            t = p.type()
            a = p.operand(t)
            p.expect(",")
            b = p.operand(t)
            return I(op, pred, t, a, b)
        if op == "alloca":
            t = p.type()
            cnt = None
            while p.eat(","):
                if p.peek() == "align":
                    p.next()
                    p.next()
                else:
                    ct = p.type()
                    cnt = p.operand(ct)
            return I("alloca", t, cnt)
        if op == "load":
            while p.peek() in FLAGS:
                p.next()
            t = p.type()
            p.expect(",")
            p.type()
            v = p.operand(PTR)
            return I("load", t, v, int(p.next()) if p.eat(",") and p.eat("align") else 1)
        if op == "store":
            while p.peek() in FLAGS:
                p.next()
            t = p.type()
            v = p.operand(t)
            p.expect(",")
            p.type()
            q = p.operand(PTR)
            return I("store", t, v, q, int(p.next()) if p.eat(",") and p.eat("align") else 1)
        if op == "getelementptr":
            inb = False
            while p.peek() in ("inbounds", "nuw", "nusw"):
                inb = True
                p.next()
            t = p.type()
            p.expect(",")
            p.type()
            b = p.operand(PTR)
            idx = []
            while p.eat(","):
                it = p.type()
                idx.append((it, p.operand(it)))
            return I("gep", t, b, idx)
        if op == "br":
            if p.peek() == "label":
                p.next()
                return I("jmp", p.next())
            p.type()
            c = p.operand(int_ty(1))
            p.expect(",")
            p.expect("label")
            a = p.next()
            p.expect(",")
            p.expect("label")
            return I("br", c, a, p.next())
        if op == "switch":
            t = p.type()
            v = p.operand(t)
            p.expect(",")
            p.expect("label")
            d = p.next()
            p.expect("[")
            cases = []
            while not p.eat("]"):
                ct = p.type()
                cv = p.operand(ct)
                p.expect(",")
                p.expect("label")
                cases.append((cv, p.next()))
            return I("switch", t, v, d, cases)
        if op == "ret":
            t = p.type()
            if t.k == "void":
                return I("ret", None, None)
            return I("ret", t, p.operand(t))
        if op == "unreachable":
            return I("unreachable")
        if op == "resume":
            t = p.type()
            return I("resume", t, p.operand(t))
        if op == "phi":
            while p.peek() in FLAGS:
                p.next()
            t = p.type()
            inc = []
            while True:
                p.expect("[")
                v = p.operand(t)
                p.expect(",")
                inc.append((v, p.next()))
                p.expect("]")
                if not p.eat(","):
                    break
            return I("phi", t, inc)
        if op == "select":
            while p.peek() in FLAGS:
                p.next()
            ct = p.type()
            c = p.operand(ct)
            p.expect(",")
            t = p.type()
            a = p.operand(t)
            p.expect(",")
            p.type()
            b = p.operand(t)
            return I("select", ct, c, t, a, b)
        if op == "extractvalue":
            t = p.type()
            a = p.operand(t)
            ix = []
            while p.eat(","):
                ix.append(int(p.next()))
            return I("extractvalue", t, a, ix)
        if op == "insertvalue":
            t = p.type()
            a = p.operand(t)
            p.expect(",")
            t2 = p.type()
            b = p.operand(t2)
            ix = []
            while p.eat(","):
                ix.append(int(p.next()))
            return I("insertvalue", t, a, t2, b, ix)
        if op == "extractelement":
            t = p.type()
            a = p.operand(t)
            p.expect(",")
            it = p.type()
            return I("extractelement", t, a, p.operand(it))
        if op == "insertelement":
            t = p.type()
            a = p.operand(t)
            p.expect(",")
            t2 = p.type()
            b = p.operand(t2)
            p.expect(",")
            it = p.type()
            return I("insertelement", t, a, b, p.operand(it))
        if op == "freeze":
            t = p.type()
            return I("freeze", t, p.operand(t))
        if op == "landingpad":
            t = p.type()
            clauses = []
            cleanup = False
            while p.peek() is not None:
                x = p.next()
                if x == "cleanup":
                    cleanup = True
                elif x == "catch":
                    ct = p.type()
                    clauses.append(p.operand(ct))
                else:
                    raise Unsupported("landingpad " + x)
            return I("landingpad", cleanup, clauses)
        if op in ("call", "invoke"):
            while p.peek() in FLAGS or p.peek() in ("fastcc", "ccc"):
                p.next()
            p.attrs()
            rt = p.type()
            callee = p.operand(PTR)
            p.expect("(")
            args = []
            if not p.eat(")"):
                while True:
                    t = p.type()
                    if t.k == "metadata":
                        d = 0
                        while not (d == 0 and p.peek() in (",", ")")):
                            x = p.next()
                            d += x == "("
                            d -= x == ")"
                    else:
                        bv = p.attrs()
                        args.append((t, p.operand(t), bv))
                    if p.eat(")"):
                        break
                    p.expect(",")
            if callee[0] == "glob" and callee[1].startswith("@llvm.dbg."):
                return None
            norm = unw = None
            if op == "invoke":
                while p.peek() != "to":
                    p.next()
                p.next()
                p.expect("label")
                norm = p.next()
                p.expect("unwind")
                p.expect("label")
                unw = p.next()
            return I("call", rt, callee, args, norm, unw)
        raise Unsupported("instruction " + op)

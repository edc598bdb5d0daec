"""Frame conditions of every library function, checked function by function on the IR of all contracts.

For each function defined in /repo/include (identified by its debug file) and each libstdc++ function it can reach, every instruction is
looked at.  A function satisfies its frame when it
  - mentions no mutable global, static or thread-local variable (so the memory it reads and writes is reached from its arguments only),
  - calls no allocator or deallocator (the exception being thrown is allocated by __cxa_allocate_exception, which is allowed),
  - calls only functions that satisfy their own frame, or externals with a known frame, or the caller's own callables.
A caller is checked against its callees' frames, never against their bodies; the whole is the transitive frame of the public operations."""
import os
import re

ALLOC = re.compile(r"^(_Znw|_Zna|_Zdl|_Zda|malloc$|calloc$|realloc$|reallocarray$|free$|aligned_alloc$|posix_memalign$|memalign$|valloc$|strdup$|mmap$|munmap$|sbrk$)")
GUARD = re.compile(r"^(__cxa_guard_|__cxa_thread_atexit|__cxa_atexit|atexit$|__tls_get_addr|llvm\.threadlocal)")
KNOWN = re.compile(r"^(llvm\.|__gxx_personality|__cxa_|_ZSt9terminatev|__assert_fail|abort$|mem(cpy|move|set|cmp|chr)$|strlen$|strn?cpy$|strn?cmp$|"
                   r"_ZSt\d+__throw_|_ZNSt\d+(out_of_range|bad_function_call|length_error|bad_alloc|logic_error|runtime_error|invalid_argument|exception)|"
                   r"(a?(sin|cos|tan)h?|atan2|exp2?|expm1|log(2|10|1p)?|pow|sqrt|cbrt|hypot|f(abs|ma|min|max|mod|dim)|floor|ceil|l?l?round|trunc|rint|nearbyint|copysign|frexp|ldexp|modf|scalbn|remainder)[fl]?$|_Unwind_)")


class Frames:
    def __init__(self, text, include):
        self.include = include
        files = {k: os.path.normpath(os.path.join(d, f)) for k, f, d in
                 re.findall(r'^(!\d+) = !DIFile\(filename: "([^"]*)", directory: "([^"]*)"', text, re.M)}
        self.sub = {}
        for m in re.finditer(r'^(!\d+) = distinct !DISubprogram\((.*)\)$', text, re.M):
            a = m.group(2)
            n, f, l = re.search(r'name: "([^"]*)"', a), re.search(r'file: (!\d+)', a), re.search(r'line: (\d+)', a)
            self.sub[m.group(1)] = (n.group(1) if n else "?", files.get(f.group(1), "") if f else "", int(l.group(1)) if l else 0)
        self.globals = {}
        for m in re.finditer(r'^@("[^"]*"|[-\w.$]+) = ((?:[\w()]+ )*?)(global|constant|alias|ifunc) ', text, re.M):
            self.globals[m.group(1).strip('"')] = (m.group(3), "thread_local" in m.group(2))
        self.fn = {}
        for m in re.finditer(r'^define ([^\n]*)\{\n(.*?)^\}', text, re.M | re.S):
            head, body = m.groups()
            name = re.search(r'@("[^"]*"|[-\w.$]+)\(', head).group(1).strip('"')
            d = re.search(r'!dbg (!\d+)', head)
            self.fn[name] = (self.sub.get(d.group(1), ("?", "", 0)) if d else ("?", "", 0), body)

    def kind(self, name):
        f = self.fn[name][0][1]
        if "/specs/" in f or not f:
            return "contract"
        if f.startswith(self.include):
            return "library"
        return "std" if f.startswith("/usr") else "contract"

    def check(self):
        """-> {function: (kind, [problems], [unknown externals])} for every library function and every libstdc++ function reachable from one"""
        todo = [n for n in self.fn if self.kind(n) == "library"]
        out = {}
        while todo:
            n = todo.pop()
            if n in out:
                continue
            bad, unk = [], []
            for line in self.fn[n][1].splitlines():
                ins = re.sub(r',? ![a-zA-Z.]+ !\d+', '', line)
                ins = re.sub(r'c"(?:[^"\\]|\\.)*"', '', ins)
                for m in re.finditer(r'@("[^"]*"|[-\w.$]+)', ins):
                    s = m.group(1).strip('"')
                    if s in self.globals:
                        k, tls = self.globals[s]
                        if k == "global" and not s.startswith(("_ZTV", "_ZTI", "_ZTS")):
                            op = "writes" if re.search(r'\bstore\b.*ptr @"?%s\b' % re.escape(s), ins) or re.search(r'\b(atomicrmw|cmpxchg)\b', ins) else "uses"
                            bad.append(("global", "%s the mutable %svariable %s" % (op, "thread-local " if tls else "", s), s))
                    elif s in self.fn:
                        if self.kind(s) != "contract":
                            todo.append(s)
                    elif ALLOC.match(s):
                        bad.append(("alloc", "calls the allocator %s" % s, s))
                    elif GUARD.match(s):
                        bad.append(("global", "initialises a static variable at run time (%s)" % s, s))
                    elif not KNOWN.match(s):
                        unk.append(s)
            out[n] = (self.kind(n), bad, unk)
        return out

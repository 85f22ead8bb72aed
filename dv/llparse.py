"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that opt-18 prints."""
import re
import struct
from fractions import Fraction

TOK = re.compile(r'''
   (?P<ws>[ \t]+|;[^\n]*)
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:[-a-zA-Z$._0-9]+|"(?:[^"\\]|\\.)*")?)
 | (?P<attr>\#[0-9]+)
 | (?P<num>-?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+)
 | (?P<dots>\.\.\.)
 | (?P<word>[-a-zA-Z$._][-a-zA-Z$._0-9]*)
 | (?P<p>[\[\]{}()<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError("tok: %r" % s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k == "ws":
            continue
        out.append((k, m.group()))
    return out


FAST = {"fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"}
PATTR = {"noundef", "nonnull", "zeroext", "signext", "noalias", "nocapture", "readonly", "readnone", "writeonly", "returned",
         "inreg", "immarg", "allocalign", "allocptr", "nofree", "nest", "swiftself", "dead_on_unwind", "writable", "noext"}
PATTR_ARG = {"align", "dereferenceable", "dereferenceable_or_null", "byval", "sret", "byref", "elementtype", "inalloca", "range",
             "preallocated", "initializes", "nofpclass", "memory", "captures"}


class P:
    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise SyntaxError("expected %s got %s in %s" % (v, self.peek(), " ".join(x[1] for x in self.t)))

    # ---- types
    def type(self):
        k, v = self.t[self.i]
        self.i += 1
        if k == "word":
            if re.fullmatch(r"i[0-9]+", v):
                t = ("i", int(v[1:]))
            elif v == "double":
                t = ("f", 64)
            elif v == "float":
                t = ("f", 32)
            elif v == "half":
                t = ("f", 16)
            elif v == "x86_fp80":
                t = ("f", 80)
            elif v == "ptr":
                t = ("ptr",)
            elif v in ("void", "label", "metadata", "token", "opaque"):
                t = (v,)
            else:
                raise SyntaxError("type " + v)
        elif k == "loc":
            t = ("named", v)
        elif v == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = ("arr", n, e)
        elif v == "<":
            if self.peek() == "{":
                self.next()
                t = ("struct", self.typelist("}"), True)
                self.expect(">")
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = ("vec", n, e)
        elif v == "{":
            t = ("struct", self.typelist("}"), False)
        else:
            raise SyntaxError("type " + v)
        while self.peek() == "(" and t[0] != "x":
            # function type
            self.next()
            ps = []
            while not self.accept(")"):
                if self.accept("..."):
                    ps.append(("...",))
                else:
                    ps.append(self.type())
                self.accept(",")
            t = ("fn", t, tuple(ps))
        return t

    def typelist(self, end):
        out = []
        while not self.accept(end):
            out.append(self.type())
            self.accept(",")
        return tuple(out)

    def pattrs(self):
        res = {}
        while True:
            v = self.peek()
            if v in PATTR:
                self.next()
                res[v] = True
            elif v in PATTR_ARG:
                self.next()
                if self.accept("("):
                    d = 1
                    buf = []
                    # sret(T)/byval(T)
                    save = self.i
                    if v in ("sret", "byval"):
                        res[v] = self.type()
                        self.expect(")")
                        continue
                    while d:
                        x = self.next()
                        if x == "(":
                            d += 1
                        elif x == ")":
                            d -= 1
                else:
                    self.next()
            else:
                return res

    # ---- values
    def value(self, ty):
        k, v = self.t[self.i]
        self.i += 1
        if k == "loc":
            return ("loc", v)
        if k == "glob":
            return ("glob", v)
        if k == "num":
            if ty[0] == "i":
                return ("int", int(v))
            return ("fp", parse_fp(v, ty))
        if v in ("true", "false"):
            return ("int", 1 if v == "true" else 0)
        if v == "null":
            return ("null",)
        if v in ("undef", "poison"):
            return ("undef",)
        if v == "zeroinitializer":
            return ("zero",)
        if v == "none":
            return ("undef",)
        if k == "str":
            return ("bytes", unescape(v[2:-1]))
        if v in ("[", "{", "<"):
            if v == "<" and self.peek() == "{":
                self.next()
                r = self.elems("}")
                self.expect(">")
                return ("agg", r)
            end = {"[": "]", "{": "}", "<": ">"}[v]
            return ("agg", self.elems(end))
        if v == "getelementptr":
            flags = []
            while self.peek() in ("inbounds", "nuw", "nusw"):
                flags.append(self.next())
            if self.peek() == "inrange":
                self.next()
                self.skip_paren()
            self.expect("(")
            bt = self.type()
            self.expect(",")
            args = []
            while not self.accept(")"):
                self.accept("inrange")
                t = self.type()
                args.append((t, self.value(t)))
                self.accept(",")
            return ("cgep", bt, args)
        if v in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
            self.expect("(")
            t = self.type()
            x = self.value(t)
            self.expect("to")
            t2 = self.type()
            self.expect(")")
            return ("ccast", v, t, x, t2)
        if v in ("add", "sub", "mul", "shl", "lshr", "and", "or", "xor"):
            while self.peek() in ("nuw", "nsw", "exact"):
                self.next()
            self.expect("(")
            t = self.type()
            a = self.value(t)
            self.expect(",")
            t2 = self.type()
            b = self.value(t2)
            self.expect(")")
            return ("cbin", v, t, a, b)
        if v in ("dso_local_equivalent", "no_cfi"):
            return self.value(ty)
        raise SyntaxError("value %s in %s" % (v, " ".join(x[1] for x in self.t)[:300]))

    def skip_paren(self):
        self.expect("(")
        d = 1
        while d:
            x = self.next()
            d += (x == "(") - (x == ")")

    def elems(self, end):
        out = []
        while not self.accept(end):
            t = self.type()
            out.append((t, self.value(t)))
            self.accept(",")
        return out

    def tv(self):
        t = self.type()
        self.pattrs()
        return (t, self.value(t))


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def parse_fp(v, ty):
    if v.startswith("0xK"):
        h = int(v[3:], 16)
        mant = h & ((1 << 64) - 1)
        ex = (h >> 64) & 0x7fff
        sg = -1 if (h >> 79) else 1
        if ex == 0x7fff:
            return "inf" if sg > 0 else "-inf"
        return sg * Fraction(mant) * Fraction(2) ** (ex - 16383 - 63)
    if v.startswith("0x"):
        d = struct.unpack(">d", int(v[2:], 16).to_bytes(8, "big"))[0]
    else:
        d = float(v)
    if d != d:
        return "nan"
    if d in (float("inf"), float("-inf")):
        return "inf" if d > 0 else "-inf"
    return Fraction(d)


class Inst:
    __slots__ = ("op", "res", "ty", "a", "x", "txt")

    def __init__(self, op, res, ty=None, a=None, x=None):
        self.op, self.res, self.ty, self.a, self.x = op, res, ty, a, x
        self.txt = ""


class Func:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params
        self.blocks = {}
        self.order = []
        self.loops = None


class Module:
    def __init__(self):
        self.types, self.funcs, self.decls, self.globals = {}, {}, {}, {}

    def resolve(self, t):
        while t[0] == "named":
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == "i":
            return max(1, min(16, 1 << ((t[1] + 7) // 8 - 1).bit_length()))
        if k == "f":
            return {16: 2, 32: 4, 64: 8, 80: 16}[t[1]]
        if k == "ptr":
            return 8
        if k == "arr":
            return self.align(t[2])
        if k == "vec":
            return min(64, 1 << (self.size(t) - 1).bit_length())
        if k == "struct":
            if t[2] or not t[1]:
                return 1
            return max(self.align(x) for x in t[1])
        raise TypeError(t)

    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == "i":
            return 1 << ((t[1] + 7) // 8 - 1).bit_length() if t[1] > 8 else 1
        if k == "f":
            return {16: 2, 32: 4, 64: 8, 80: 16}[t[1]]
        if k == "ptr":
            return 8
        if k == "arr":
            return t[1] * self.size(t[2])
        if k == "vec":
            return t[1] * self.size(t[2])
        if k == "struct":
            o = 0
            for x in t[1]:
                if not t[2]:
                    o = -(-o // self.align(x)) * self.align(x)
                o += self.size(x)
            if not t[2] and t[1]:
                o = -(-o // self.align(t)) * self.align(t)
            return o
        raise TypeError(t)

    def offset(self, t, i):
        t = self.resolve(t)
        o = 0
        for j, x in enumerate(t[1]):
            if not t[2]:
                o = -(-o // self.align(x)) * self.align(x)
            if j == i:
                return o
            o += self.size(x)
        raise IndexError


LINK = {"private", "internal", "external", "linkonce", "linkonce_odr", "weak", "weak_odr", "available_externally", "common", "appending",
        "dso_local", "unnamed_addr", "local_unnamed_addr", "constant", "global", "hidden", "protected", "default", "thread_local", "externally_initialized", "extern_weak"}


def parse_module(text):
    mod = Module()
    lines = text.split("\n")
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] in ";!" or ln.startswith(("source_filename", "target ", "attributes", "$", "module asm", "uselistorder")):
            continue
        if ln[0] == "%":
            p = P(tokenize(ln), mod)
            name = p.next()
            p.expect("=")
            p.expect("type")
            mod.types[name] = p.type()
        elif ln[0] == "@":
            parse_global(ln, mod)
        elif ln.startswith("declare"):
            f = parse_header(ln, mod)
            mod.decls[f.name] = f
        elif ln.startswith("define"):
            f = parse_header(ln, mod)
            mod.funcs[f.name] = f
            cur = None
            while True:
                ln = lines[i]
                i += 1
                if ln.startswith("}"):
                    break
                if not ln.strip() or ln.strip().startswith(";"):
                    continue
                if not ln.startswith(" "):
                    m = re.match(r'("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
                    cur = "%" + m.group(1)
                    f.blocks[cur] = []
                    f.order.append(cur)
                    continue
                if cur is None:
                    cur = "%entry"
                    f.blocks[cur] = []
                    f.order.append(cur)
                s = ln.strip()
                # multi-line: switch / landingpad / invoke
                if s.startswith("switch") or re.match(r"(%\S+ = )?(landingpad|invoke|call)\b", s) or " = landingpad" in s or " = invoke" in s or s.startswith("invoke"):
                    if s.startswith("switch") and "[" in s and "]" not in s.split("[", 1)[1]:
                        while "]" not in lines[i]:
                            s += " " + lines[i].strip()
                            i += 1
                        s += " " + lines[i].strip()
                        i += 1
                    elif "invoke" in s.split("(")[0]:
                        while "unwind label" not in s:
                            s += " " + lines[i].strip()
                            i += 1
                    elif "landingpad" in s:
                        while lines[i].strip().startswith(("cleanup", "catch", "filter")):
                            s += " " + lines[i].strip()
                            i += 1
                f.blocks[cur].append(parse_inst(s, mod))
    return mod


def parse_global(ln, mod):
    p = P(tokenize(ln), mod)
    name = p.next()
    p.expect("=")
    const = False
    while p.kind() == "word" and p.peek() in LINK:
        v = p.next()
        if v == "constant":
            const = True
        if p.peek() == "(":
            p.skip_paren()
        if v in ("constant", "global"):
            break
    else:
        if p.peek() in ("alias", "ifunc"):
            return
    try:
        t = p.type()
        init = None
        if p.i < len(p.t) and p.peek() not in (",",):
            init = p.value(t)
        mod.globals[name] = (t, init, const)
    except SyntaxError:
        mod.globals[name] = (("i", 8), None, const)


def parse_header(ln, mod):
    p = P(tokenize(ln.rstrip("{ ")), mod)
    p.next()
    while True:
        v = p.peek()
        if v in LINK or v in ("fastcc", "ccc", "coldcc", "noundef", "zeroext", "signext", "noalias", "nonnull", "inreg", "returned") or v in PATTR:
            p.next()
        elif v in PATTR_ARG:
            p.pattrs()
        else:
            break
    ret = p.type()
    name = p.next()
    p.expect("(")
    params = []
    while not p.accept(")"):
        if p.accept("..."):
            continue
        t = p.type()
        at = p.pattrs()
        nm = None
        if p.kind() == "loc":
            nm = p.next()
        params.append((nm, t, at))
        p.accept(",")
    return Func(name, ret, params)


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint", "inttoptr", "bitcast"}


def parse_inst(s, mod):
    s = re.sub(r', ![-a-zA-Z$._0-9]+ !\S+', '', s)
    p = P(tokenize(s), mod)
    res = None
    if p.kind() == "loc" and p.peek(1) == "=":
        res = p.next()
        p.next()
    op = p.next()
    ins = parse_inst2(p, op, res, mod)
    ins.txt = s
    return ins


def parse_inst2(p, op, res, mod):
    if op in ("tail", "musttail", "notail"):
        op = p.next()
    if op in BIN:
        fl = set()
        while p.peek() in ("nuw", "nsw", "exact", "disjoint") or p.peek() in FAST:
            fl.add(p.next())
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        return Inst("bin", res, t, (a, b), (op, fl))
    if op in CAST:
        fl = set()
        while p.peek() in ("nneg", "nuw", "nsw") or p.peek() in FAST:
            fl.add(p.next())
        t = p.type()
        a = p.value(t)
        p.expect("to")
        t2 = p.type()
        return Inst("cast", res, t2, (a,), (op, t, fl))
    if op == "fneg":
        while p.peek() in FAST:
            p.next()
        t = p.type()
        return Inst("fneg", res, t, (p.value(t),))
    if op in ("icmp", "fcmp"):
        while p.peek() in FAST or p.peek() == "samesign":
            p.next()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        return Inst(op, res, t, (a, b), pred)
    if op == "phi":
        while p.peek() in FAST:
            p.next()
        t = p.type()
        inc = []
        while p.accept("["):
            v = p.value(t)
            p.expect(",")
            b = p.next()
            p.expect("]")
            inc.append((v, b))
            p.accept(",")
        return Inst("phi", res, t, inc)
    if op == "select":
        while p.peek() in FAST:
            p.next()
        c = p.tv()
        p.expect(",")
        a = p.tv()
        p.expect(",")
        b = p.tv()
        return Inst("select", res, a[0], (c, a, b))
    if op == "br":
        if p.peek() == "label":
            p.next()
            return Inst("jmp", None, None, None, p.next())
        t = p.type()
        c = p.value(t)
        p.expect(",")
        p.expect("label")
        a = p.next()
        p.expect(",")
        p.expect("label")
        return Inst("br", None, t, c, (a, p.next()))
    if op == "switch":
        t = p.type()
        v = p.value(t)
        p.expect(",")
        p.expect("label")
        d = p.next()
        p.expect("[")
        cases = []
        while not p.accept("]"):
            ct = p.type()
            cv = p.value(ct)
            p.expect(",")
            p.expect("label")
            cases.append((cv, p.next()))
        return Inst("switch", None, t, v, (d, cases))
    if op == "ret":
        t = p.type()
        if t == ("void",):
            return Inst("ret", None, t, None)
        return Inst("ret", None, t, p.value(t))
    if op == "unreachable":
        return Inst("unreachable", None)
    if op == "resume":
        return Inst("resume", None)
    if op == "alloca":
        t = p.type()
        cnt = None
        while p.accept(","):
            if p.accept("align"):
                p.next()
            else:
                cnt = p.tv()
        return Inst("alloca", res, t, cnt)
    if op == "load":
        p.accept("atomic")
        vol = p.accept("volatile")
        t = p.type()
        p.expect(",")
        return Inst("load", res, t, p.tv())
    if op == "store":
        p.accept("atomic")
        p.accept("volatile")
        v = p.tv()
        p.expect(",")
        a = p.tv()
        return Inst("store", None, v[0], (v, a))
    if op == "getelementptr":
        while p.peek() in ("inbounds", "nuw", "nusw"):
            p.next()
        bt = p.type()
        p.expect(",")
        args = []
        while True:
            args.append(p.tv())
            if not p.accept(","):
                break
        return Inst("gep", res, bt, args)
    if op in ("call", "invoke"):
        while True:
            v = p.peek()
            if v in FAST or v in ("fastcc", "ccc", "coldcc", "zeroext", "signext") or v in PATTR:
                p.next()
            elif v in PATTR_ARG:
                p.pattrs()
            else:
                break
        t = p.type()
        if t[0] == "fn":
            t = t[1]
        k = p.kind()
        callee = p.value(("ptr",))
        p.expect("(")
        args = []
        while not p.accept(")"):
            at = p.type()
            pa = p.pattrs()
            if at == ("metadata",):
                # skip metadata argument
                d = 0
                while not (d == 0 and p.peek() in (",", ")")):
                    x = p.next()
                    d += (x in "([{") - (x in ")]}")
                args.append((at, ("undef",), pa))
            else:
                args.append((at, p.value(at), pa))
            p.accept(",")
        x = None
        if op == "invoke":
            while p.peek() != "to":
                p.next()
            p.next()
            p.expect("label")
            nl = p.next()
            p.expect("unwind")
            p.expect("label")
            x = (nl, p.next())
        return Inst(op, res, t, (callee, args), x)
    if op == "landingpad":
        t = p.type()
        return Inst("landingpad", res, t)
    if op == "extractvalue":
        a = p.tv()
        idx = []
        while p.accept(","):
            idx.append(int(p.next()))
        return Inst("extractvalue", res, a[0], a, idx)
    if op == "insertvalue":
        a = p.tv()
        p.expect(",")
        b = p.tv()
        idx = []
        while p.accept(","):
            idx.append(int(p.next()))
        return Inst("insertvalue", res, a[0], (a, b), idx)
    if op == "extractelement":
        a = p.tv()
        p.expect(",")
        b = p.tv()
        return Inst("extractelement", res, a[0], (a, b))
    if op == "insertelement":
        a = p.tv()
        p.expect(",")
        b = p.tv()
        p.expect(",")
        c = p.tv()
        return Inst("insertelement", res, a[0], (a, b, c))
    if op == "shufflevector":
        a = p.tv()
        p.expect(",")
        b = p.tv()
        p.expect(",")
        t = p.type()
        v = p.value(t)
        return Inst("shufflevector", res, a[0], (a, b), (t, v))
    if op == "freeze":
        t = p.type()
        return Inst("freeze", res, t, (p.value(t),))
    if op in ("atomicrmw", "cmpxchg", "fence"):
        return Inst("unsupported", res, None, None, op)
    raise SyntaxError("inst " + op)


# ----------------------------------------------------------------------------- CFG analysis
def analyse(f):
    """natural loops: header -> set of body blocks"""
    if f.loops is not None:
        return f.loops
    succ, pred = {}, {b: [] for b in f.order}
    for b in f.order:
        t = f.blocks[b][-1]
        if t.op == "jmp":
            s = [t.x]
        elif t.op == "br":
            s = list(t.x)
        elif t.op == "switch":
            s = [t.x[0]] + [c[1] for c in t.x[1]]
        elif t.op == "invoke":
            s = list(t.x)
        else:
            s = []
        succ[b] = s
        for x in s:
            pred[x].append(b)
    entry = f.order[0]
    # reachable, RPO
    seen, order = set(), []

    st = [(entry, iter(succ[entry]))]
    seen.add(entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succ[s])))
                break
        else:
            order.append(b)
            st.pop()
    rpo = order[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in pred[b] if p in idom]
            if not ps:
                continue
            n = ps[0]
            for p in ps[1:]:
                a, c = n, p
                while a != c:
                    while idx[a] > idx[c]:
                        a = idom[a]
                    while idx[c] > idx[a]:
                        c = idom[c]
                n = a
            if idom.get(b) != n:
                idom[b] = n
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]

    loops = {}
    for b in rpo:
        for s in succ[b]:
            if s in idx and dom(s, b):
                body = loops.setdefault(s, {s})
                wl = [b]
                while wl:
                    x = wl.pop()
                    if x not in body:
                        body.add(x)
                        wl.extend(p for p in pred[x] if p in idx)
            elif s in idx and idx[s] <= idx[b]:
                raise ValueError("irreducible flow in " + f.name)
    f.loops, f.succ, f.pred = loops, succ, pred
    return loops

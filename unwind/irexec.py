"""Symbolic execution of LLVM IR with unwinding edges, deciding branches with z3.

Every `i64 nd_u64()` is a fresh symbolic value, and `may_panic()` unwinds at its P-th call, P
symbolic: one run covers every input and every fault point.  Memory is a flat address space with
checked allocations; paths fork where a branch, an address or a fault point is not determined by the
path condition, and the solver decides which sides exist.
"""
import re
import sys
import time

import z3

MASK = {n: (1 << n) - 1 for n in range(0, 257)}


class Unsupported(Exception):
    pass


class Failed(Exception):
    """The path violates the property."""


class Aborted(Exception):
    """The process ends with a panic while unwinding, as it may."""


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()

# ------------------------------------------------------------------ parsing

TOKEN = re.compile(r'''\s*(?:(c"(?:[^"\\]|\\.)*")|([%@](?:"[^"]*"|[-\w.$]+))|("(?:[^"\\]|\\.)*")|(![\w.]*)|(-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9A-FHKLM]+)(?![\w.])|([\w.]+)|(<\{|\}>|\.\.\.|[^\s]))''')


def tokens(s):
    out, i, s = [], 0, s.rstrip()
    while i < len(s):
        m = TOKEN.match(s, i)
        if not m:
            raise Unsupported("token: " + s[i:i + 40])
        out.append(m.group(m.lastindex))
        i = m.end()
    return out


PTR = ("ptr",)
VOID = ("void",)
I1 = ("i", 1)


class P:
    """A cursor over tokens."""

    def __init__(self, text, mod):
        self.t, self.i, self.mod = tokens(text), 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.eat(x):
            raise Unsupported(f"expected {x}: {' '.join(self.t)[:200]}")

    def skip_balanced(self):
        self.need("(")
        d = 1
        while d:
            x = self.next()
            d += (x == "(") - (x == ")")

    def is_type(self):
        x = self.peek()
        return x is not None and (re.fullmatch(r"i\d+|ptr|void|float|double|half|fp128|metadata|label|token", x) is not None
                                  or x in ("{", "[", "<", "<{") or (x[0] == "%" and x in self.mod.types))

    def attrs(self):
        while not self.is_type():
            x = self.next()
            if x is None:
                raise Unsupported("attributes")
            if x == "align" or x == "addrspace":
                if self.peek() == "(":
                    self.skip_balanced()
                else:
                    self.next()
            elif self.peek() == "(":
                self.skip_balanced()

    def type(self):
        x = self.next()
        if x == "ptr":
            if self.peek() == "addrspace":
                self.next()
                self.skip_balanced()
            t = PTR
        elif re.fullmatch(r"i\d+", x):
            t = ("i", int(x[1:]))
        elif x == "void":
            t = VOID
        elif x in ("float", "double", "half", "fp128", "metadata", "label", "token"):
            t = (x,)
        elif x == "[":
            n = int(self.next())
            self.need("x")
            e = self.type()
            self.need("]")
            t = ("arr", n, e)
        elif x in ("{", "<{"):
            close, fs = {"{": "}", "<{": "}>"}[x], []
            if not self.eat(close):
                while True:
                    fs.append(self.type())
                    if self.eat(close):
                        break
                    self.need(",")
            t = ("struct", tuple(fs), x == "<{")
        elif x == "<":
            n = int(self.next())
            self.need("x")
            e = self.type()
            self.need(">")
            t = ("vec", n, e)
        elif x[0] == "%" and x in self.mod.types:
            t = self.mod.types[x]
        else:
            raise Unsupported("type " + str(x))
        return t

    def value(self, t):
        """-> ('c', constant) or ('l', name) or ('g', name) or an aggregate/expr form"""
        x = self.next()
        if x[0] == "%":
            return ("l", x)
        if x[0] == "@":
            return ("g", x)
        if x in ("undef", "poison"):
            return ("c", fill(t, UNDEF))
        if x in ("null", "none"):
            return ("c", 0)
        if x == "zeroinitializer":
            return ("c", fill(t, 0))
        if x == "true":
            return ("c", 1)
        if x == "false":
            return ("c", 0)
        if x.startswith('c"'):
            return ("c", list(cbytes(x[2:-1])))
        if x == "splat":
            self.need("(")
            et = self.type()
            v = self.value(et)
            self.need(")")
            return ("agg", [v] * t[1])
        if x in ("{", "<{", "[", "<"):
            close, vs = {"{": "}", "<{": "}>", "[": "]", "<": ">"}[x], []
            if not self.eat(close):
                while True:
                    et = self.type()
                    vs.append(self.value(et))
                    if self.eat(close):
                        break
                    self.need(",")
            return ("agg", vs)
        if x == "getelementptr":
            while self.peek() != "(":
                self.next()
            self.need("(")
            bt = self.type()
            ops = []
            while self.eat(","):
                self.eat("inrange")
                et = self.type()
                ops.append((et, self.value(et)))
            self.need(")")
            return ("gep", bt, ops)
        if x in ("ptrtoint", "inttoptr", "bitcast", "trunc", "ptrtoaddr"):
            self.need("(")
            et = self.type()
            v = self.value(et)
            self.need("to")
            self.type()
            self.need(")")
            return v
        if x in ("add", "sub"):
            while self.peek() != "(":
                self.next()
            self.need("(")
            et = self.type()
            a = self.value(et)
            self.need(",")
            et = self.type()
            b = self.value(et)
            self.need(")")
            return ("cbin", x, a, b)
        if re.fullmatch(r"-?\d+", x):
            if t[0] != "i":
                raise Unsupported("constant of " + str(t))
            return ("c", int(x) & MASK[t[1]])
        raise Unsupported("value " + x)


def cbytes(s):
    out, i = bytearray(), 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode("utf-8")
            i += 1
    return bytes(out)


def fill(t, x):
    if t[0] == "arr" or t[0] == "vec":
        return [fill(t[2], x) for _ in range(t[1])]
    if t[0] == "struct":
        return [fill(f, x) for f in t[1]]
    return x


def align_of(t):
    if t[0] == "i":
        n = (t[1] + 7) // 8
        a = 1
        while a < n:
            a *= 2
        return min(a, 16)
    if t[0] == "ptr":
        return 8
    if t[0] in ("arr",):
        return align_of(t[2])
    if t[0] == "vec":
        return max(1, t[1] * size_of(t[2]))
    if t[0] == "struct":
        return 1 if t[2] else max([align_of(f) for f in t[1]], default=1)
    if t[0] == "float":
        return 4
    if t[0] == "double":
        return 8
    raise Unsupported("layout of " + str(t))


def up(n, a):
    return (n + a - 1) // a * a


def size_of(t):
    if t[0] == "i":
        return up((t[1] + 7) // 8, align_of(t))
    if t[0] == "ptr":
        return 8
    if t[0] == "arr":
        return t[1] * size_of(t[2])
    if t[0] == "vec":
        return t[1] * size_of(t[2])
    if t[0] == "struct":
        o = 0
        for f in t[1]:
            if not t[2]:
                o = up(o, align_of(f))
            o += size_of(f)
        return o if t[2] else up(o, align_of(t))
    return align_of(t)


def field_offset(t, k):
    o = 0
    for i, f in enumerate(t[1]):
        if not t[2]:
            o = up(o, align_of(f))
        if i == k:
            return o
        o += size_of(f)
    raise Unsupported("field")


class Function:
    __slots__ = ("name", "params", "blocks", "entry", "text", "phis", "ret", "nounwind", "dbg")


class Module:
    def __init__(self, text):
        self.types, self.globals, self.functions, self.declared = {}, {}, {}, set()
        self.meta = dict(re.findall(r"^(!\d+) = (?:distinct )?(!DI(?:Location|Subprogram|LexicalBlock|LexicalBlockFile|File)\(.*\))$", text, re.M))
        lines = text.split("\n")
        i = 0
        bodies = []
        while i < len(lines):
            l = lines[i]
            i += 1
            if l.startswith("%") and " = type " in l:
                n, d = l.split(" = type ", 1)
                if d.strip() != "opaque":
                    self.types[n] = P(d, self).type()
            elif l.startswith("@"):
                self.global_(l)
            elif l.startswith("define "):
                body = []
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                bodies.append((l, body))
            elif l.startswith("declare "):
                m = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', l)
                self.declared.add(m.group(1))
        for head, body in bodies:
            f = Function()
            m = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', head)
            f.name = m.group(1)
            f.text = (head, body)
            f.blocks = None
            self.functions[f.name] = f

    def global_(self, l):
        name, rest = l.split(" = ", 1)
        rest = re.sub(r", !\w+ !\d+", "", rest)
        m = re.match(r"(.*?)\b(global|constant|alias)\b (.*)$", rest)
        if not m or m.group(2) == "alias":
            if m and m.group(2) == "alias":
                self.globals[name] = ("alias", re.findall(r'@(?:"[^"]*"|[-\w.$]+)', m.group(3))[0])
            return
        p = P(m.group(3), self)
        t = p.type()
        if "external" in m.group(1).split() or p.peek() in (None, ","):
            self.globals[name] = ("extern", t)
        else:
            self.globals[name] = ("data", t, p.value(t))

    def body(self, f):
        if f.blocks is not None:
            return f
        head, lines = f.text
        m = re.search(r'@(?:"[^"]*"|[-\w.$]+)(\(.*)$', head)
        p = P(m.group(1).split("{")[0] if False else m.group(1), self)
        p.need("(")
        f.params = []
        while not p.eat(")"):
            if p.eat("..."):
                continue
            t = p.type()
            while p.peek() not in (",", ")") and not p.peek().startswith("%"):
                x = p.next()
                if p.peek() == "(":
                    p.skip_balanced()
            f.params.append((p.next() if p.peek().startswith("%") else None, t))
            p.eat(",")
        # implicit names %0, %1, ... for unnamed parameters
        for k, (n, t) in enumerate(f.params):
            if n is None:
                f.params[k] = (f"%{k}", t)
        f.nounwind = False
        joined = []
        for l in lines:
            if l.lstrip().startswith(";"):
                continue
            if re.match(r'("[^"]*"|[-\w.$]+):', l):
                l = l.split(" ;", 1)[0]
            if not l.strip():
                continue
            if joined and (l.startswith("          ") or (joined[-1].count("[") > joined[-1].count("]") and "switch" in joined[-1])):
                joined[-1] += " " + l.strip()
            else:
                joined.append(l)
        f.blocks, cur = {}, None
        f.phis, f.dbg = {}, {}
        for l in joined:
            m = re.match(r'^("[^"]*"|[-\w.$]+):', l)
            if m:
                cur = "%" + m.group(1)
                f.blocks[cur] = []
                f.phis[cur] = []
                if len(f.blocks) == 1:
                    f.entry = cur
                continue
            if cur is None:
                cur = f"%{len(f.params)}"
                f.blocks[cur], f.phis[cur] = [], []
                f.entry = cur
            m = re.search(r"!dbg (!\d+)", l)
            if m:
                f.dbg.setdefault(cur, set()).add(m.group(1))
            ins = self.instruction(l.strip())
            if ins is None:
                continue
            if ins[0] == "phi":
                f.phis[cur].append(ins)
            else:
                f.blocks[cur].append(ins)
        f.text = None
        return f

    def repo_functions(self, blocks, under="/repo/"):
        """The functions of the crate that executed blocks come from, inlined ones included."""
        todo, seen, out = [], set(), set()
        for name, block in blocks:
            todo.extend(self.functions[name].dbg.get(block, ()))
        while todo:
            n = todo.pop()
            if n in seen or n not in self.meta:
                continue
            seen.add(n)
            d = self.meta[n]
            todo.extend(re.findall(r"(?:scope|inlinedAt): (!\d+)", d) if not d.startswith("!DISubprogram") else ())
            if d.startswith("!DISubprogram"):
                f = self.meta.get((re.findall(r"file: (!\d+)", d) or [""])[0], "")
                path = "/".join(re.findall(r'(?:directory|filename): "([^"]*)"', f)[::-1])
                m = re.search(r'name: "([^"]*)"', d)
                if under in path and m:
                    out.add(path[path.rindex(under) + len(under):] + ": " + re.sub(r"<.*", "", m.group(1)))
        return out

    def instruction(self, l):
        l = re.sub(r", !\S+ ![\w.]+", "", l)
        l = re.sub(r", !\S+ !\{[^}]*\}", "", l)
        if l.startswith("#dbg"):
            return None
        dest = None
        m = re.match(r'^(%(?:"[^"]*"|[-\w.$]+)) = (.*)$', l)
        if m:
            dest, l = m.group(1), m.group(2)
        p = P(l, self)
        op = p.next()
        while op in ("tail", "musttail", "notail"):
            op = p.next()
        if op in ("call", "invoke"):
            p.attrs()
            t = p.type()
            if p.peek() == "(":
                p.skip_balanced()
            callee = p.value(PTR)
            p.need("(")
            args = []
            while not p.eat(")"):
                at = p.type()
                if at == ("metadata",):
                    d = 0
                    while not (d == 0 and p.peek() in (",", ")")):
                        x = p.next()
                        d += (x in "({") - (x in ")}")
                    args.append((at, None))
                else:
                    while not self.value_start(p.peek()):
                        x = p.next()
                        if x == "align" and p.peek() != "(":
                            p.next()
                        elif p.peek() == "(":
                            p.skip_balanced()
                    args.append((at, p.value(at)))
                p.eat(",")
            normal = unwind = None
            if op == "invoke":
                while p.peek() != "to":
                    x = p.next()
                p.next()
                p.need("label")
                normal = p.next()
                p.need("unwind")
                p.need("label")
                unwind = p.next()
            return ("call", dest, t, callee, args, normal, unwind)
        if op == "br":
            if p.eat("label"):
                return ("jmp", p.next())
            p.type()
            c = p.value(I1)
            p.need(",")
            p.need("label")
            a = p.next()
            p.need(",")
            p.need("label")
            return ("br", c, a, p.next())
        if op == "switch":
            t = p.type()
            v = p.value(t)
            p.need(",")
            p.need("label")
            d = p.next()
            p.need("[")
            cases = []
            while not p.eat("]"):
                ct = p.type()
                c = p.value(ct)[1]
                p.need(",")
                p.need("label")
                cases.append((c, p.next()))
            return ("switch", t, v, d, cases)
        if op == "ret":
            t = p.type()
            return ("ret", None if t == VOID else p.value(t))
        if op == "unreachable":
            return ("unreachable",)
        if op == "resume":
            t = p.type()
            return ("resume", p.value(t))
        if op == "landingpad":
            return ("landingpad", dest)
        if op == "alloca":
            p.eat("inalloca")
            t = p.type()
            n = ("c", 1)
            al = 1
            while p.eat(","):
                if p.eat("align"):
                    al = int(p.next())
                else:
                    nt = p.type()
                    n = p.value(nt)
            return ("alloca", dest, size_of(t), n)
        if op == "load":
            while p.peek() in ("atomic", "volatile"):
                p.next()
            t = p.type()
            p.need(",")
            p.type()
            return ("load", dest, t, p.value(PTR))
        if op == "store":
            while p.peek() in ("atomic", "volatile"):
                p.next()
            t = p.type()
            v = p.value(t)
            p.need(",")
            p.type()
            return ("store", t, v, p.value(PTR))
        if op == "getelementptr":
            while not p.is_type():
                x = p.next()
                if p.peek() == "(":
                    p.skip_balanced()
            bt = p.type()
            ops = []
            while p.eat(","):
                et = p.type()
                ops.append((et, p.value(et)))
            return ("gep", dest, bt, ops)
        if op == "phi":
            while not p.is_type():
                p.next()
            t = p.type()
            inc = {}
            while True:
                p.need("[")
                v = p.value(t)
                p.need(",")
                inc[p.next()] = v
                p.need("]")
                if not p.eat(","):
                    break
            return ("phi", dest, t, inc)
        if op == "icmp":
            p.eat("samesign")
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.need(",")
            return ("icmp", dest, pred, t, a, p.value(t))
        if op == "select":
            while not p.is_type():
                p.next()
            ct = p.type()
            c = p.value(ct)
            p.need(",")
            t = p.type()
            a = p.value(t)
            p.need(",")
            p.type()
            return ("select", dest, ct, c, t, a, p.value(t))
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            while not p.is_type():
                p.next()
            t = p.type()
            a = p.value(t)
            p.need(",")
            return ("bin", dest, op, t, a, p.value(t))
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "ptrtoaddr"):
            while not p.is_type():
                p.next()
            t = p.type()
            v = p.value(t)
            p.need("to")
            return ("cast", dest, op, t, v, p.type())
        if op == "freeze":
            t = p.type()
            return ("freeze", dest, t, p.value(t))
        if op == "extractvalue":
            t = p.type()
            v = p.value(t)
            idx = []
            while p.eat(","):
                idx.append(int(p.next()))
            return ("extractvalue", dest, v, idx)
        if op == "insertvalue":
            t = p.type()
            v = p.value(t)
            p.need(",")
            et = p.type()
            e = p.value(et)
            idx = []
            while p.eat(","):
                idx.append(int(p.next()))
            return ("insertvalue", dest, v, e, idx)
        if op == "extractelement":
            t = p.type()
            v = p.value(t)
            p.need(",")
            it = p.type()
            return ("extractelement", dest, v, p.value(it))
        if op == "insertelement":
            t = p.type()
            v = p.value(t)
            p.need(",")
            et = p.type()
            e = p.value(et)
            p.need(",")
            it = p.type()
            return ("insertelement", dest, v, e, p.value(it))
        if op == "shufflevector":
            t = p.type()
            a = p.value(t)
            p.need(",")
            p.type()
            b = p.value(t)
            p.need(",")
            mt = p.type()
            return ("shufflevector", dest, a, b, p.value(mt))
        if op == "fence":
            return None
        return ("unsupported", l)

    @staticmethod
    def value_start(x):
        return (x[0] in "%@" or re.fullmatch(r"-?\d+", x) is not None or x.startswith('c"') or x in (
            "undef", "poison", "null", "none", "zeroinitializer", "true", "false", "{", "<{", "[", "<",
            "getelementptr", "ptrtoint", "inttoptr", "bitcast", "splat", "add", "sub", "ptrtoaddr"))


# ------------------------------------------------------------------ values

def isc(x):
    return type(x) is int


def bv(x, w):
    """As a z3 bit vector of w bits."""
    if type(x) is int:
        return z3.BitVecVal(x, w)
    if z3.is_bool(x):
        return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return x


def norm(x):
    """Back to an int when z3 can tell."""
    if type(x) is int:
        return x
    x = z3.simplify(x)
    if z3.is_bv_value(x):
        return x.as_long()
    if z3.is_true(x):
        return 1
    if z3.is_false(x):
        return 0
    return x


def signed(x, w):
    return x - (1 << w) if x >> (w - 1) else x


FRESH = [0]


def fresh(w):
    """Uninitialised bits: any value, and nothing may depend on it."""
    FRESH[0] += 1
    return z3.BitVec(f"u!{FRESH[0]}", w)


def uninit(e):
    """The uninitialised parts an expression mentions."""
    seen, out, todo = set(), [], [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.num_args() == 0:
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith("u!"):
                out.append(x)
        else:
            todo.extend(x.children())
    return out


def binop(op, w, a, b):
    if a is UNDEF and b is UNDEF:
        return UNDEF
    if a is UNDEF:
        a = fresh(w)
    if b is UNDEF:
        b = fresh(w)
    if isc(a) and isc(b):
        m = MASK[w]
        if op == "add":
            return (a + b) & m
        if op == "sub":
            return (a - b) & m
        if op == "mul":
            return (a * b) & m
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        if op in ("shl", "lshr", "ashr"):
            if b >= w:
                return UNDEF
            return (a << b) & m if op == "shl" else a >> b if op == "lshr" else (signed(a, w) >> b) & m
        if b == 0:
            raise Failed("division by zero")
        if op == "udiv":
            return a // b
        if op == "urem":
            return a % b
        x, y = signed(a, w), signed(b, w)
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        return (q if op == "sdiv" else x - q * y) & m
    if w == 1 and op in ("and", "or", "xor"):
        f = {"and": z3.And, "or": z3.Or, "xor": z3.Xor}[op]
        return norm(f(boolean(a), boolean(b)))
    x, y = bv(a, w), bv(b, w)
    r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y,
         "or": lambda: x | y, "xor": lambda: x ^ y, "shl": lambda: x << y, "lshr": lambda: z3.LShR(x, y),
         "ashr": lambda: x >> y, "udiv": lambda: z3.UDiv(x, y), "urem": lambda: z3.URem(x, y),
         "sdiv": lambda: x / y, "srem": lambda: z3.SRem(x, y)}[op]()
    return norm(r)


def boolean(x):
    if isc(x):
        return z3.BoolVal(bool(x))
    if z3.is_bool(x):
        return x
    return x == 1


def icmp(pred, w, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if isc(a) and isc(b):
        if pred[0] == "s":
            a, b = signed(a, w), signed(b, w)
        return int({"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[pred[-2:]])
    x, y = bv(a, w), bv(b, w)
    r = {"eq": lambda: x == y, "ne": lambda: x != y, "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y),
         "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y), "sgt": lambda: x > y, "sge": lambda: x >= y,
         "slt": lambda: x < y, "sle": lambda: x <= y}[pred]()
    return norm(r)


def cast(op, x, f, t):
    wf = 64 if f == PTR else f[1] if f[0] == "i" else None
    wt = 64 if t == PTR else t[1] if t[0] == "i" else None
    if wf is None or wt is None:
        raise Unsupported(f"cast {f} to {t}")
    if wt == wf or wt < wf and x is UNDEF:
        return x
    if x is UNDEF:
        x = fresh(wf)
    if wt < wf:
        if isc(x):
            return x & MASK[wt]
        return norm(z3.Extract(wt - 1, 0, bv(x, wf)))
    if isc(x):
        return signed(x, wf) & MASK[wt] if op == "sext" else x
    x = bv(x, wf)
    return norm(z3.SignExt(wt - wf, x) if op == "sext" else z3.ZeroExt(wt - wf, x))


# ------------------------------------------------------------------ execution

class Frame:
    __slots__ = ("f", "locals", "block", "prev", "ip", "allocas", "ins")

    def copy(self):
        g = Frame()
        g.f, g.locals, g.block, g.prev, g.ip = self.f, dict(self.locals), self.block, self.prev, self.ip
        g.allocas, g.ins = list(self.allocas), self.ins
        return g


class State:
    __slots__ = ("frames", "mem", "allocs", "top", "pc", "nd", "calls", "panicked", "steps", "exc", "leak_ok", "lenient")

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem, s.allocs, s.top = dict(self.mem), dict(self.allocs), self.top
        s.pc, s.nd, s.calls = list(self.pc), list(self.nd), self.calls
        s.panicked, s.steps, s.exc, s.leak_ok, s.lenient = self.panicked, self.steps, self.exc, self.leak_ok, self.lenient
        return s


PAGE = 1 << 20
PANIC = re.compile(r"9panicking|unwrap_failed|expect_failed|slice_\w*fail|handle_error|handle_alloc_error|panic_display|capacity_overflow|assert_failed|index_fail|copy_from_slice")
ABORT = re.compile(r"panic_in_cleanup|panic_nounwind|panic_cannot_unwind|5abort|_Unwind_Resume_or")
NOOP = re.compile(r"llvm\.(lifetime|experimental\.noalias|assume|dbg|donothing|prefetch|invariant|sideeffect|pseudoprobe)|no_alloc_shim|trap_unused")


class Executor:
    def __init__(self, mod, steps=400000, deadline=None):
        self.mod, self.limit, self.deadline = mod, steps, deadline
        self.queries = self.solver_time = 0
        self.P = z3.BitVec("panic_at", 64)
        self.addr, self.fn_at = {}, {}
        self.base = State()
        s = self.base
        s.frames, s.mem, s.allocs, s.top, s.pc, s.nd = [], {}, {}, 1 << 32, [], []
        s.calls, s.panicked, s.steps, s.exc, s.leak_ok, s.lenient = 0, False, 0, None, False, False
        for k, n in enumerate(sorted(set(mod.functions) | mod.declared)):
            self.addr[n] = 0x100000 + 64 * k
            self.fn_at[self.addr[n]] = n
        data = []
        for n, g in mod.globals.items():
            if g[0] == "alias":
                continue
            self.addr[n] = self.alloc(s, max(1, size_of(g[1])), "global")
            if g[0] == "data":
                data.append((n, g))
        for n, g in mod.globals.items():
            if g[0] == "alias":
                self.addr[n] = self.addr.get(g[1], 0)
        for n, g in data:
            self.write(s, self.addr[n], g[1], self.const(g[2]))
        self.blocks = set()
        self.incomplete = None

    # -------------------------------------------------------------- solver

    def sat(self, pc, model=False):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("out of time")
        t = time.time()
        z = z3.SolverFor("QF_BV")
        z.add(*pc)
        r = z.check()
        self.queries += 1
        self.solver_time += time.time() - t
        if r == z3.unknown:
            raise Unsupported("solver: unknown")
        if r != z3.sat:
            return None
        return z.model()

    def values(self, s, x, w, limit=64):
        """Every value the expression can take here, with its condition."""
        out, pc = [], list(s.pc)
        x = bv(x, w)
        us = uninit(x)
        if us and self.sat(pc + [x != z3.substitute(x, *[(u, fresh(u.size())) for u in us])]) is not None:
            raise Failed("an address depends on an uninitialised value")
        while True:
            m = self.sat(pc)
            if m is None:
                return out
            v = m.eval(x, model_completion=True).as_long()
            out.append(v)
            pc.append(x != v)
            if len(out) > limit:
                # Go on with a few: one of them may show what is wrong; otherwise it is not decided.
                self.incomplete = "too many addresses"
                return out[:8]

    # -------------------------------------------------------------- memory

    def alloc(self, s, n, kind, align=16):
        a = up(s.top, max(64, align))
        s.top = a + up(n, 64) + 64
        s.allocs[a] = (n, kind)
        return a

    def check(self, s, a, n, what):
        if n == 0:
            return
        b = a & ~63
        # Allocations start at multiples of 64; walk back to the one containing a.
        allocs = s.allocs
        k = 0
        while b not in allocs:
            b -= 64
            k += 1
            if k > 70000 or b < (1 << 32):
                raise Failed(f"{what} of invalid memory {a:#x}")
        size, kind = allocs[b]
        if kind == "freed":
            raise Failed(f"{what} after free")
        if a + n > b + size:
            raise Failed(f"{what} out of bounds")

    def read(self, s, a, t):
        if t[0] in ("arr", "vec"):
            z = size_of(t[2])
            return [self.read(s, a + i * z, t[2]) for i in range(t[1])]
        if t[0] == "struct":
            return [self.read(s, a + field_offset(t, i), f) for i, f in enumerate(t[1])]
        w = 64 if t == PTR else t[1] if t[0] == "i" else 8 * size_of(t)
        n = (w + 7) // 8
        self.check(s, a, n, "read")
        bs = [s.mem.get(a + i) for i in range(n)]
        if all(type(b) is int for b in bs):
            return int.from_bytes(bytes(bs), "little") & MASK[w]
        if all(b is None for b in bs):
            return UNDEF
        # Partly uninitialised: the rest may be any value.
        bs = [(fresh(8), 0) if b is None else b for b in bs]
        b0 = bs[0]
        if type(b0) is tuple and b0[1] == 0 and b0[0].size() == 8 * n and all(
                type(b) is tuple and b[0] is b0[0] and b[1] == i for i, b in enumerate(bs)):
            r = b0[0]
        else:
            r = z3.Concat(*[byte(b) for b in reversed(bs)]) if n > 1 else byte(b0)
        if w != 8 * n:
            r = z3.Extract(w - 1, 0, r)
        return norm(r)

    def write(self, s, a, t, v):
        if t[0] in ("arr", "vec"):
            z = size_of(t[2])
            for i in range(t[1]):
                self.write(s, a + i * z, t[2], v if v is UNDEF else v[i])
            return
        if t[0] == "struct":
            for i, f in enumerate(t[1]):
                self.write(s, a + field_offset(t, i), f, v if v is UNDEF else v[i])
            return
        w = 64 if t == PTR else t[1] if t[0] == "i" else 8 * size_of(t)
        n = (w + 7) // 8
        self.check(s, a, n, "write")
        if v is UNDEF:
            for i in range(n):
                s.mem.pop(a + i, None)
        elif type(v) is int:
            for i in range(n):
                s.mem[a + i] = (v >> (8 * i)) & 255
        else:
            v = bv(v, 8 * n) if z3.is_bool(v) else v
            if v.size() != 8 * n:
                v = z3.ZeroExt(8 * n - v.size(), v)
            for i in range(n):
                s.mem[a + i] = (v, i)

    # -------------------------------------------------------------- operands

    def const(self, v):
        k = v[0]
        if k == "c":
            return v[1]
        if k == "g":
            return self.addr[v[1]]
        if k == "agg":
            return [self.const(x) for x in v[1]]
        if k == "gep":
            ops = [(t, self.const(x)) for t, x in v[2]]
            return self.offset(v[1], ops)
        if k == "cbin":
            return binop(v[1], 64, self.const(v[2]), self.const(v[3]))
        raise Unsupported("constant " + k)

    def offset(self, bt, ops):
        a = ops[0][1]
        t = ("arr", 0, bt)
        for it, i in ops[1:]:
            if a is UNDEF or i is UNDEF:
                return UNDEF
            if t[0] in ("arr", "vec"):
                z = size_of(t[2])
                i = cast("sext", i, it, ("i", 64))
                a = binop("add", 64, a, binop("mul", 64, i, z))
                t = t[2]
            else:
                a = binop("add", 64, a, field_offset(t, i))
                t = t[1][i]
        return a

    def val(self, fr, v):
        k = v[0]
        if k == "l":
            return fr.locals[v[1]]
        if k == "c":
            return v[1]
        return self.const(v)

    # -------------------------------------------------------------- paths

    def run(self, entry):
        """-> list of (kind, message, state): kind is 'ok' or 'failed'"""
        s = self.base.copy()
        self.push(s, self.mod.functions[entry], [], None)
        work, done = [s], []
        while work:
            s = work.pop()
            try:
                more = self.path(s)
                if more is None:
                    done.append(("ok", "", s))
                else:
                    work.extend(more)
            except Aborted:
                done.append(("aborted", "", s))
            except Failed as e:
                self.where = [(f.f.name, f.block, f.f.blocks[f.block][f.ip - 1]) for f in s.frames]
                done.append(("failed", str(e), s))
        if self.incomplete and not any(k == "failed" for k, _, _ in done):
            raise Unsupported(self.incomplete)
        return done

    def push(self, s, f, args, ins):
        self.mod.body(f)
        self.blocks.add((f.name, f.entry))
        fr = Frame()
        fr.f, fr.locals, fr.block, fr.prev, fr.ip, fr.allocas, fr.ins = f, {}, f.entry, None, 0, [], ins
        for (n, t), a in zip(f.params, args):
            fr.locals[n] = a
        s.frames.append(fr)
        if len(s.frames) > 500:
            raise Failed("unbounded recursion")

    def jump(self, fr, label):
        f = fr.f
        fr.prev, fr.block, fr.ip = fr.block, label, 0
        self.blocks.add((f.name, label))
        ph = f.phis[label]
        if ph:
            vals = [(i[1], self.val(fr, i[3][fr.prev])) for i in ph]
            for d, v in vals:
                fr.locals[d] = v

    def pop(self, s):
        fr = s.frames.pop()
        for a in fr.allocas:
            s.allocs[a] = (s.allocs[a][0], "freed")

    def ret(self, s, v):
        ins = s.frames[-1].ins
        self.pop(s)
        if not s.frames:
            return
        fr = s.frames[-1]
        if ins[1]:
            fr.locals[ins[1]] = v
        if ins[5]:
            self.jump(fr, ins[5])

    def unwind(self, s, exc):
        """An exception leaves the call that the top frame is at."""
        while s.frames:
            fr = s.frames[-1]
            ins = fr.f.blocks[fr.block][fr.ip - 1]
            if ins[0] == "call" and ins[6]:
                s.exc = exc
                self.jump(fr, ins[6])
                return
            self.pop(s)
        raise Failed("the panic left the harness")

    def split(self, s, cond):
        """-> states in which the condition holds, and does not"""
        cond = boolean(cond)
        us = uninit(cond)
        if us:
            other = z3.substitute(cond, *[(u, fresh(u.size())) for u in us])
            if self.sat(s.pc + [cond, z3.Not(other)]) is not None:
                raise Failed("branch on an uninitialised value")
        yes = self.sat(s.pc + [cond]) is not None
        no = self.sat(s.pc + [z3.Not(cond)]) is not None
        a = b = None
        if yes and no:
            b = s.copy()
            b.pc.append(z3.Not(cond))
            s.pc.append(cond)
            a = s
        elif yes:
            a = s
        else:
            b = s
        return a, b

    def concrete(self, s, fr, name, x, w):
        """Fork so that x is a number: [] if it is already, else the states to go on with."""
        vals = self.values(s, x, w)
        out = []
        for v in vals:
            t = s.copy() if len(vals) > 1 else s
            if len(vals) > 1:
                t.pc.append(bv(x, w) == v)
            g = t.frames[-1]
            g.ip -= 1
            # replace the operand by its value
            g.locals[name] = v
            out.append(t)
        return out

    def path(self, s):
        """Run until the path ends (None) or forks (the states)."""
        while s.frames:
            fr = s.frames[-1]
            ins = fr.f.blocks[fr.block][fr.ip]
            fr.ip += 1
            s.steps += 1
            if s.steps > self.limit:
                raise Failed("does not end")
            op = ins[0]
            if op == "load":
                a = self.val(fr, ins[3])
                if type(a) is not int:
                    if a is UNDEF:
                        raise Failed("read through an uninitialised pointer")
                    return self.concrete(s, fr, ins[3][1], a, 64)
                fr.locals[ins[1]] = self.read(s, a, ins[2])
            elif op == "store":
                a = self.val(fr, ins[3])
                if type(a) is not int:
                    if a is UNDEF:
                        raise Failed("write through an uninitialised pointer")
                    return self.concrete(s, fr, ins[3][1], a, 64)
                self.write(s, a, ins[1], self.val(fr, ins[2]))
            elif op == "bin":
                t = ins[3]
                a, b = self.val(fr, ins[4]), self.val(fr, ins[5])
                if t[0] == "vec":
                    fr.locals[ins[1]] = [binop(ins[2], t[2][1], x, y) for x, y in zip(a, b)]
                else:
                    fr.locals[ins[1]] = binop(ins[2], t[1], a, b)
            elif op == "icmp":
                t = ins[3]
                a, b = self.val(fr, ins[4]), self.val(fr, ins[5])
                if t[0] == "vec":
                    w = 64 if t[2] == PTR else t[2][1]
                    fr.locals[ins[1]] = [icmp(ins[2], w, x, y) for x, y in zip(a, b)]
                else:
                    fr.locals[ins[1]] = icmp(ins[2], 64 if t == PTR else t[1], a, b)
            elif op == "jmp":
                self.jump(fr, ins[1])
            elif op == "br":
                c = self.val(fr, ins[1])
                if type(c) is int:
                    self.jump(fr, ins[2] if c else ins[3])
                else:
                    if c is UNDEF:
                        raise Failed("branch on an uninitialised value")
                    a, b = self.split(s, c)
                    out = []
                    for t, l in ((a, ins[2]), (b, ins[3])):
                        if t is not None:
                            self.jump(t.frames[-1], l)
                            out.append(t)
                    if len(out) > 1:
                        return out
            elif op == "switch":
                v = self.val(fr, ins[2])
                if v is UNDEF:
                    raise Failed("branch on an uninitialised value")
                if type(v) is int:
                    self.jump(fr, next((l for c, l in ins[4] if c == v), ins[3]))
                else:
                    w = ins[1][1]
                    x, out = bv(v, w), []
                    us = uninit(x)
                    if us and self.sat(s.pc + [x != z3.substitute(x, *[(u, fresh(u.size())) for u in us])]) is not None:
                        raise Failed("branch on an uninitialised value")
                    for c, l in ins[4] + [(None, ins[3])]:
                        cond = z3.And(*[x != d for d, _ in ins[4]]) if c is None else x == c
                        if self.sat(s.pc + [cond]) is not None:
                            t = s.copy()
                            t.pc.append(cond)
                            self.jump(t.frames[-1], l)
                            out.append(t)
                    return out
            elif op == "gep":
                fr.locals[ins[1]] = self.offset(ins[2], [(t, self.val(fr, v)) for t, v in ins[3]])
            elif op == "call":
                r = self.call(s, fr, ins)
                if r is not None:
                    return r
            elif op == "ret":
                self.ret(s, None if ins[1] is None else self.val(fr, ins[1]))
            elif op == "cast":
                f, t = ins[3], ins[5]
                v = self.val(fr, ins[4])
                if f[0] == "vec" and t[0] == "vec":
                    fr.locals[ins[1]] = [cast(ins[2], x, f[2], t[2]) for x in v]
                else:
                    fr.locals[ins[1]] = cast(ins[2], v, f, t)
            elif op == "select":
                c = self.val(fr, ins[3])
                a, b = self.val(fr, ins[5]), self.val(fr, ins[6])
                if type(c) is int:
                    fr.locals[ins[1]] = a if c else b
                elif type(c) is list and all(isc(x) for x in c):
                    fr.locals[ins[1]] = [x if k else y for k, x, y in zip(c, a, b)]
                elif c is UNDEF or type(c) is list:
                    raise Unsupported("select")
                else:
                    t = ins[4]
                    if t[0] in ("i", "ptr") and self.plain(a) and self.plain(b):
                        w = 64 if t == PTR else t[1]
                        if w == 1:
                            fr.locals[ins[1]] = norm(z3.If(boolean(c), boolean(a), boolean(b)))
                        else:
                            fr.locals[ins[1]] = norm(z3.If(boolean(c), bv(a, w), bv(b, w)))
                    else:
                        x, y = self.split(s, c)
                        out = []
                        for st, v in ((x, a), (y, b)):
                            if st is not None:
                                st.frames[-1].locals[ins[1]] = v
                                out.append(st)
                        return out
            elif op == "alloca":
                n = self.val(fr, ins[3])
                a = self.alloc(s, max(1, ins[2] * n), "stack")
                fr.allocas.append(a)
                fr.locals[ins[1]] = a
            elif op == "extractvalue":
                v = self.val(fr, ins[2])
                for i in ins[3]:
                    v = UNDEF if v is UNDEF else v[i]
                fr.locals[ins[1]] = v
            elif op == "insertvalue":
                fr.locals[ins[1]] = insert(self.val(fr, ins[2]), ins[4], self.val(fr, ins[3]))
            elif op == "extractelement":
                fr.locals[ins[1]] = self.val(fr, ins[2])[self.val(fr, ins[3])]
            elif op == "insertelement":
                fr.locals[ins[1]] = insert(self.val(fr, ins[2]), [self.val(fr, ins[4])], self.val(fr, ins[3]))
            elif op == "shufflevector":
                a, b, m = (self.val(fr, x) for x in ins[2:5])
                ab = list(a) + (list(b) if b is not UNDEF else [UNDEF] * len(a))
                fr.locals[ins[1]] = [UNDEF if i is UNDEF else ab[i] for i in m]
            elif op == "freeze":
                v = self.val(fr, ins[3])
                if v is UNDEF and ins[2][0] in ("i", "ptr"):
                    v = 0
                fr.locals[ins[1]] = v
            elif op == "landingpad":
                fr.locals[ins[1]] = [s.exc, 0]
            elif op == "resume":
                exc = self.val(fr, ins[1])
                self.pop(s)
                self.unwind(s, exc[0] if type(exc) is list else exc)
            elif op == "unreachable":
                raise Failed("unreachable code is reached")
            else:
                raise Unsupported(str(ins))
        self.finish(s)
        return None

    @staticmethod
    def plain(x):
        return type(x) is int or isinstance(x, z3.ExprRef)

    def finish(self, s):
        if s.leak_ok:
            return
        for a, (n, kind) in s.allocs.items():
            if kind == "heap":
                raise Failed("memory is leaked")

    # -------------------------------------------------------------- calls

    def call(self, s, fr, ins):
        _, dest, rt, callee, args, normal, unwind = ins
        if callee[0] == "g":
            name = callee[1]
        else:
            a = self.val(fr, callee)
            if type(a) is not int:
                return self.concrete(s, fr, callee[1], a, 64)
            if a not in self.fn_at:
                raise Failed("call of something that is no function")
            name = self.fn_at[a]
        f = self.mod.functions.get(name)
        if f is not None:
            self.push(s, f, [self.val(fr, v) for _, v in args], ins)
            return None
        if NOOP.search(name):
            return self.back(fr, ins, None)
        vals = [None if v is None else self.val(fr, v) for _, v in args]
        n = name[1:]

        def need(k, w=64):
            """Argument k as a number, or the forked states."""
            x = vals[k]
            if type(x) is int:
                return None
            if x is UNDEF:
                raise Failed(f"uninitialised argument of {n}")
            return self.concrete(s, fr, args[k][1][1], x, w)

        if n.startswith("llvm."):
            m = re.match(r"llvm\.(memcpy|memmove|memset)", n)
            if m:
                for k in (0, 2) if m.group(1) == "memset" else (0, 1, 2):
                    r = need(k)
                    if r is not None:
                        return r
                d, x, c = vals[:3]
                self.check(s, d, c, m.group(1) + " write")
                if m.group(1) == "memset":
                    for i in range(c):
                        if x is UNDEF:
                            s.mem.pop(d + i, None)
                        else:
                            s.mem[d + i] = x if type(x) is int else (x, 0)
                else:
                    self.check(s, x, c, m.group(1) + " read")
                    bs = [s.mem.get(x + i) for i in range(c)]
                    for i, b in enumerate(bs):
                        if b is None:
                            s.mem.pop(d + i, None)
                        else:
                            s.mem[d + i] = b
                return self.back(fr, ins, None)
            return self.back(fr, ins, self.intrinsic(n, args, vals))
        if n == "nd_u64":
            x = z3.BitVec(f"nd{len(s.nd)}", 64)
            s.nd.append(x)
            return self.back(fr, ins, x)
        if n == "may_panic":
            at = s.calls
            s.calls += 1
            if s.panicked:
                return self.back(fr, ins, None)
            a, b = self.split(s, self.P == at)
            out = []
            if b is not None:
                self.back(b.frames[-1], ins, None)
                out.append(b)
            if a is not None:
                a.panicked = True
                self.unwind(a, 0x5eed)
                out.append(a)
            return out
        if n == "assume":
            x = vals[0]
            if type(x) is int:
                if not x & 1:
                    return []
            else:
                s.pc.append(boolean(x))
                if self.sat(s.pc) is None:
                    return []
            return self.back(fr, ins, None)
        if n == "lenient":
            s.lenient = True
            return self.back(fr, ins, None)
        if n == "leak_ok":
            s.leak_ok = True
            return self.back(fr, ins, None)
        if n == "violation":
            raise Failed(WHAT.get(vals[0], f"violation {vals[0]}"))
        if "__rust_alloc" in n or "__rg_alloc" in n:
            r = need(0) or need(1)
            if r is not None:
                return r
            a = self.alloc(s, max(1, vals[0]), "heap", vals[1])
            if "zeroed" in n:
                for i in range(vals[0]):
                    s.mem[a + i] = 0
            return self.back(fr, ins, a)
        if "__rust_dealloc" in n:
            r = need(0) or need(1)
            if r is not None:
                return r
            a, size = vals[0], vals[1]
            if a not in s.allocs or s.allocs[a][1] not in ("heap", "freed"):
                raise Failed("free of something that was not allocated")
            if s.allocs[a][1] == "freed":
                raise Failed("double free")
            if s.allocs[a][0] != max(1, size):
                raise Failed("free with another size than allocated")
            s.allocs[a] = (s.allocs[a][0], "freed")
            return self.back(fr, ins, None)
        if "__rust_realloc" in n:
            r = need(0) or need(1) or need(3)
            if r is not None:
                return r
            a, old, al, new = vals
            self.check(s, a, old, "realloc")
            b = self.alloc(s, new, "heap", al)
            for i in range(min(old, new)):
                if a + i in s.mem:
                    s.mem[b + i] = s.mem[a + i]
            s.allocs[a] = (s.allocs[a][0], "freed")
            return self.back(fr, ins, b)
        if n in ("memcpy", "memmove", "bcmp", "memcmp"):
            for k in range(3):
                r = need(k)
                if r is not None:
                    return r
            if n in ("bcmp", "memcmp"):
                x = [self.read(s, vals[0] + i, ("i", 8)) for i in range(vals[2])]
                y = [self.read(s, vals[1] + i, ("i", 8)) for i in range(vals[2])]
                if not all(isc(v) for v in x + y):
                    raise Unsupported(n)
                return self.back(fr, ins, (x > y) - (x < y) & MASK[32])
        if ABORT.search(n):
            if s.lenient and s.panicked and "panic_in_cleanup" in n:
                raise Aborted()
            raise Failed("the process is aborted: " + n)
        if PANIC.search(n):
            # A panic of the library's own.
            if s.lenient:
                s.panicked = True
                return self.unwind(s, 0xbad)
            raise Failed("panics by itself: " + n)
        raise Unsupported("external function " + n)

    def back(self, fr, ins, v):
        if ins[1]:
            fr.locals[ins[1]] = v
        if ins[5]:
            self.jump(fr, ins[5])
        return None

    def intrinsic(self, n, args, v):
        m = re.match(r"llvm\.([us])(add|sub|mul)\.with\.overflow\.i(\d+)$", n)
        if m:
            w = int(m.group(3))
            a, b = v
            if a is UNDEF or b is UNDEF:
                return [UNDEF, UNDEF]
            r = binop(m.group(2), w, a, b)
            if isc(a) and isc(b):
                x, y = (signed(a, w), signed(b, w)) if m.group(1) == "s" else (a, b)
                e = {"add": x + y, "sub": x - y, "mul": x * y}[m.group(2)]
                lo, hi = (-(1 << (w - 1)), MASK[w - 1]) if m.group(1) == "s" else (0, MASK[w])
                return [r, int(not lo <= e <= hi)]
            ext = z3.SignExt if m.group(1) == "s" else z3.ZeroExt
            x, y = ext(w, bv(a, w)), ext(w, bv(b, w))
            e = {"add": x + y, "sub": x - y, "mul": x * y}[m.group(2)]
            return [r, norm(e != ext(w, bv(r, w)))]
        m = re.match(r"llvm\.([us])(min|max)\.i(\d+)$", n)
        if m:
            w = int(m.group(3))
            a, b = v
            if a is UNDEF or b is UNDEF:
                return UNDEF
            c = icmp(m.group(1) + ("lt" if m.group(2) == "min" else "gt"), w, a, b)
            return (a if c else b) if isc(c) else norm(z3.If(c, bv(a, w), bv(b, w)))
        m = re.match(r"llvm\.u(add|sub)\.sat\.i(\d+)$", n)
        if m:
            w = int(m.group(2))
            a, b = v
            r = binop(m.group(1), w, a, b)
            c = icmp("ult", w, a, b) if m.group(1) == "sub" else icmp("ult", w, r, a)
            e = 0 if m.group(1) == "sub" else MASK[w]
            return (e if c else r) if isc(c) else norm(z3.If(c, bv(e, w), bv(r, w)))
        m = re.match(r"llvm\.fsh([lr])\.i(\d+)$", n)
        if m:
            w, (a, b, c) = int(m.group(2)), v
            c = binop("urem", w, c, w)
            c2 = binop("urem", w, binop("sub", w, w, c), w) if w & (w - 1) == 0 else None
            if c2 is None:
                raise Unsupported(n)
            hi, lo = (c, c2) if m.group(1) == "l" else (c2, c)
            r = binop("or", w, binop("shl", w, a, hi), binop("lshr", w, b, lo))
            whole = a if m.group(1) == "l" else b
            zero = icmp("eq", w, c, 0)
            return (whole if zero else r) if isc(zero) else norm(z3.If(boolean(zero), bv(whole, w), bv(r, w)))
        m = re.match(r"llvm\.abs\.i(\d+)$", n)
        if m:
            w = int(m.group(1))
            neg = icmp("slt", w, v[0], 0)
            r = binop("sub", w, 0, v[0])
            return (r if neg else v[0]) if isc(neg) else norm(z3.If(boolean(neg), bv(r, w), bv(v[0], w)))
        m = re.match(r"llvm\.vector\.reduce\.(add|and|or|xor|mul)\.v\d+i(\d+)$", n)
        if m:
            r = v[0][0]
            for x in v[0][1:]:
                r = binop(m.group(1), int(m.group(2)), r, x)
            return r
        m = re.match(r"llvm\.(ctpop|ctlz|cttz|bswap)\.i(\d+)$", n)
        if m:
            w, x = int(m.group(2)), v[0]
            if x is UNDEF:
                return UNDEF
            if isc(x):
                return {"ctpop": lambda: bin(x).count("1"), "ctlz": lambda: w - x.bit_length(),
                        "cttz": lambda: w if x == 0 else (x & -x).bit_length() - 1,
                        "bswap": lambda: int.from_bytes(x.to_bytes(w // 8, "little"), "big")}[m.group(1)]()
            bits = [z3.Extract(i, i, x) for i in range(w)]
            if m.group(1) == "ctpop":
                return norm(sum([z3.ZeroExt(w - 1, b) for b in bits[1:]], z3.ZeroExt(w - 1, bits[0])))
            r = z3.BitVecVal(w, w)
            if m.group(1) == "cttz":
                for i in reversed(range(w)):
                    r = z3.If(bits[i] == 1, z3.BitVecVal(i, w), r)
                return norm(r)
            if m.group(1) == "ctlz":
                for i in range(w):
                    r = z3.If(bits[i] == 1, z3.BitVecVal(w - 1 - i, w), r)
                return norm(r)
        m = re.match(r"llvm\.([us])cmp\.i(\d+)\.i(\d+)$", n)
        if m:
            w, d = int(m.group(3)), int(m.group(2))
            lt, gt = icmp(m.group(1) + "lt", w, *v), icmp(m.group(1) + "gt", w, *v)
            if isc(lt) and isc(gt):
                return (gt - lt) & MASK[d]
            return norm(z3.If(boolean(lt), z3.BitVecVal(-1, d), z3.If(boolean(gt), z3.BitVecVal(1, d), z3.BitVecVal(0, d))))
        if n.startswith(("llvm.expect", "llvm.launder", "llvm.strip", "llvm.threadlocal.address", "llvm.ssa.copy")):
            return v[0]
        if n.startswith("llvm.eh.typeid.for") or n.startswith("llvm.is.constant"):
            return 0
        if n.startswith(("llvm.trap", "llvm.ubsantrap", "llvm.debugtrap")):
            raise Failed("the process is aborted")
        raise Unsupported(n)


WHAT = {1: "a value is dropped twice", 2: "a value is leaked or dropped twice", 3: "a value that can be reached is dropped",
        4: "a wrong answer after the panic"}


def byte(b):
    if type(b) is int:
        return z3.BitVecVal(b, 8)
    x, i = b
    return x if x.size() == 8 else z3.Extract(8 * i + 7, 8 * i, x)


def insert(agg, idx, v):
    if not idx:
        return v
    if agg is UNDEF:
        raise Unsupported("insert into undef")
    out = list(agg)
    out[idx[0]] = insert(out[idx[0]], idx[1:], v)
    return out

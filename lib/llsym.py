"""Symbolic executor for LLVM IR (clang -O1 output of the C sources of /repo) on top of symcore/z3."""
import re, time
import z3
import symcore as sc
from symcore import V, Inconclusive


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ("k", "w", "n", "el", "fields", "size", "align", "offs")

    def __init__(self, k):
        self.k = k


_ity = {}


def int_ty(w):
    t = _ity.get(w)
    if t is None:
        t = Ty("i")
        t.w = w
        t.size = max(1, 1 << ((w + 7) // 8 - 1).bit_length()) if w > 8 else 1
        t.align = min(t.size, 16)
        _ity[w] = t
    return t


PTR = Ty("p")
PTR.w, PTR.size, PTR.align = 64, 8, 8
VOID = Ty("v")
VOID.size, VOID.align, VOID.w = 0, 1, 0
DBL = Ty("f")
DBL.size, DBL.align, DBL.w = 8, 8, 64


def arr_ty(n, el):
    t = Ty("a")
    t.n, t.el, t.size, t.align, t.w = n, el, n * el.size, el.align, 0
    return t


def struct_ty(fields, packed=False):
    t = Ty("s")
    t.fields, t.offs = fields, []
    o, al = 0, 1
    for f in fields:
        if not packed:
            o = (o + f.align - 1) // f.align * f.align
            al = max(al, f.align)
        t.offs.append(o)
        o += f.size
    t.size = (o + al - 1) // al * al
    t.align, t.w = al, 0
    return t


class P:
    """pointer: object id + byte offset (int or 64-bit V)"""
    __slots__ = ("o", "off")

    def __init__(self, o, off):
        self.o, self.off = o, off

    def __repr__(self):
        return "P(%s,%s)" % (self.o, self.off)


class FnPtr:
    __slots__ = ("name", "mod")

    def __init__(self, name, mod):
        self.name, self.mod = name, mod


class Agg:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Poison:
    pass


# ------------------------------------------------------------------ parser
class Tok:
    rx = re.compile(r'\s*(c"(?:[^"\\]|\\[0-9A-Fa-f]{2})*"|"(?:[^"\\]|\\.)*"|%"[^"]*"|@"[^"]*"|[%@][-a-zA-Z$._0-9]+|\.\.\.|-?0x[0-9A-Fa-fKLMHR]+|-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|[a-zA-Z_][a-zA-Z0-9_.]*|[][(){}<>,=*!#:;|])')

    def __init__(self, s):
        self.t = self.rx.findall(s)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        y = self.next()
        if y != x:
            raise Inconclusive("IR parse: expected %s got %s in %s" % (x, y, " ".join(self.t)[:200]))


class Module:
    def __init__(self, text, name, prog):
        self.name, self.prog = name, prog
        self.types, self.globs, self.funcs, self.decls, self.meta = {}, {}, {}, set(), {}
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith("%") and " = type " in l:
                n, _, d = l.partition(" = type ")
                self.types[n] = d
            elif l.startswith("@"):
                n, _, d = l.partition(" = ")
                self.globs[n] = d
            elif l.startswith("define"):
                m = re.search(r"(@[-a-zA-Z$._0-9]+|@\"[^\"]*\")\(", l)
                body = []
                i += 1
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                self.funcs[m.group(1)] = (l, body, " internal " in l.split("@")[0])
            elif l.startswith("declare"):
                m = re.search(r"(@[-a-zA-Z$._0-9]+)\(", l)
                self.decls.add(m.group(1))
            i += 1

    def ty(self, tk):
        t = tk.next()
        if t == "ptr":
            r = PTR
        elif t == "void":
            r = VOID
        elif t == "double":
            r = DBL
        elif re.fullmatch(r"i\d+", t):
            r = int_ty(int(t[1:]))
        elif t == "[":
            n = int(tk.next())
            tk.need("x")
            el = self.ty(tk)
            tk.need("]")
            r = arr_ty(n, el)
        elif t == "{":
            fs = []
            while not tk.eat("}"):
                fs.append(self.ty(tk))
                tk.eat(",")
            r = struct_ty(fs)
        elif t == "<" and tk.peek() == "{":
            tk.next()
            fs = []
            while not tk.eat("}"):
                fs.append(self.ty(tk))
                tk.eat(",")
            tk.need(">")
            r = struct_ty(fs, True)
        elif t.startswith("%"):
            d = self.types[t]
            if isinstance(d, str):
                self.types[t] = d = self.ty(Tok(d))
            r = d
        else:
            raise Inconclusive("IR type %s" % t)
        return r


ATTRS = {"noundef", "nonnull", "signext", "zeroext", "readonly", "readnone", "writeonly", "nocapture", "immarg", "noalias",
         "returned", "inreg", "nofree", "swiftself", "noreturn", "nest", "writable"}


class Fn:
    """A function, decoded to Python code objects, one per straight-line segment."""

    def __init__(self, mod, name, header, body):
        self.mod, self.name = mod, name
        self.header, self.body = header, body
        self.regs = {}
        self.params = []
        self.byval = {}
        self._decode()

    def reg(self, n):
        r = self.regs.get(n)
        if r is None:
            r = self.regs[n] = len(self.regs)
        return r

    # operands -> python source expression
    def const(self, ty, tk):
        """parse a constant/operand of type ty, return python expr string"""
        t = tk.next()
        if t.startswith("%"):
            return "R[%d]" % self.reg(t)
        if t.startswith("@"):
            return self.k(("glob", t))
        if t == "true":
            return "True" if ty.w == 1 else "1"
        if t == "false":
            return "False" if ty.w == 1 else "0"
        if t == "null":
            return "0"
        if t in ("undef", "poison"):
            if ty.k == "s" or ty.k == "a":
                return "Agg({})"
            return "UNDEF(st,%d)" % ty.w if ty.w != 1 else "False"
        if t == "zeroinitializer":
            return "Agg({})" if ty.k in "sa" else "0"
        if t == "getelementptr":
            while tk.peek() in ("inbounds", "nuw", "nusw"):
                tk.next()
            if tk.peek() == "inrange":
                while tk.next() != ")":
                    pass
            tk.need("(")
            r = self.gep(tk)
            tk.need(")")
            return r
        if t in ("ptrtoint", "inttoptr", "bitcast"):
            tk.need("(")
            t1 = self.mod.ty(tk)
            r = self.const(t1, tk)
            tk.need("to")
            self.mod.ty(tk)
            tk.need(")")
            return r
        if re.fullmatch(r"-?\d+", t):
            if ty.w == 1:
                return "True" if int(t) else "False"
            return str(int(t) & ((1 << ty.w) - 1))
        raise Inconclusive("IR constant %s in %s" % (t, " ".join(tk.t)[:160]))

    def k(self, v):
        for i, x in enumerate(self.consts):
            if x == v:
                return "K[%d]" % i
        self.consts.append(v)
        return "K[%d]" % (len(self.consts) - 1)

    def gep(self, tk):
        ety = self.mod.ty(tk)
        tk.need(",")
        self.mod.ty(tk)
        base = self.const(PTR, tk)
        coff, dyn = 0, []
        first = True
        cur = ety
        while tk.eat(","):
            if tk.peek() == "!" or (tk.peek() or "").startswith("!"):
                break
            ity = self.mod.ty(tk)
            v = self.const(ity, tk)
            if first:
                sz, first = ety.size, False
                nxt = ety
            elif cur.k == "a":
                sz, nxt = cur.el.size, cur.el
            elif cur.k == "s":
                f = int(v)
                coff += cur.offs[f]
                cur = cur.fields[f]
                continue
            else:
                raise Inconclusive("gep into %s" % cur.k)
            cur = nxt
            if re.fullmatch(r"\d+", v):
                x = int(v)
                if x >> (ity.w - 1):
                    x -= 1 << ity.w
                coff += x * sz
            else:
                dyn.append((v, ity.w, sz))
        e = base
        if coff:
            e = "PADD(%s,%d)" % (e, coff)
        for v, w, sz in dyn:
            e = "PIDX(%s,%s,%d,%d)" % (e, v, w, sz)
        return e

    def _decode(self):
        self.consts = []
        tk = Tok(self.header[self.header.index("@"):])
        tk.next()
        tk.need("(")
        while not tk.eat(")"):
            if tk.peek() == "...":
                tk.next()
                continue
            ty = self.mod.ty(tk)
            bv = None
            while tk.peek() not in (",", ")") and not tk.peek().startswith("%"):
                a = tk.next()
                if tk.peek() == "(":
                    tk.next()
                    if a == "byval":
                        bv = self.mod.ty(tk)
                    while tk.next() != ")":
                        pass
            if tk.peek().startswith("%"):
                n = tk.next()
            else:
                n = "%" + str(len(self.params))
            self.params.append(self.reg(n))
            if bv is not None:
                self.byval[len(self.params) - 1] = bv
            tk.eat(",")
        # blocks
        nparams = len(self.params)
        blocks, cur, name = {}, [], None
        order = []
        for l in self.body:
            if not l.strip() or l.lstrip().startswith(";"):
                continue
            m = re.match(r'^("?[-a-zA-Z$._0-9]+"?):', l)
            if m:
                if name is None and cur:
                    name = "%" + str(nparams)
                    blocks[name] = cur
                    order.append(name)
                elif name is not None:
                    blocks[name] = cur
                    order.append(name)
                name = "%" + m.group(1).strip('"')
                cur = []
                continue
            cur.append(l)
        if name is None:
            name = "%" + str(nparams)
        blocks[name] = cur
        order.append(name)
        # join multi-line switch
        self.blocks = {}
        self.phis = {}
        for b in order:
            ls, acc = [], None
            for l in blocks[b]:
                if acc is not None:
                    acc += " " + l.strip()
                    if l.strip().startswith("]"):
                        ls.append(acc)
                        acc = None
                    continue
                if l.strip().startswith("switch ") and not l.rstrip().endswith("]"):
                    acc = l.strip()
                    continue
                ls.append(l.strip())
            self.blocks[b] = ls
        self.entry = order[0]
        for b in order:
            ph = []
            for l in self.blocks[b]:
                m = re.match(r"(%\S+) = phi (.*)$", l)
                if not m:
                    break
                t = Tok(re.sub(r", !.*$", "", m.group(2)))
                ty = self.mod.ty(t)
                inc = {}
                while True:
                    t.need("[")
                    v = self.const(ty, t)
                    t.need(",")
                    inc[t.next()] = v
                    t.need("]")
                    if not t.eat(","):
                        break
                ph.append((self.reg(m.group(1)), inc))
            self.phis[b] = ph
        src = []
        self.segs = {}
        idx = 0
        for b in order:
            lines = [l for l in self.blocks[b] if " = phi " not in l]
            lst = []
            buf = []
            for l in lines:
                kind, code = self.instr(l, b)
                if kind == "op":
                    buf.append(code)
                elif kind == "skip":
                    pass
                else:
                    fn = "s%d" % idx
                    idx += 1
                    src.append("def %s(R,st,K):" % fn)
                    src.extend("  " + x for c in buf for x in c.split("\n"))
                    src.extend("  " + x for x in code.split("\n"))
                    lst.append((fn, kind))
                    buf = []
            self.segs[b] = lst
        # phi edges
        self.edges = {}
        for b in order:
            preds = set()
            for r, inc in self.phis[b]:
                preds |= set(inc)
            for p in preds:
                fn = "e%d" % idx
                idx += 1
                src.append("def %s(R,st,K):" % fn)
                ph = [(r, inc[p]) for r, inc in self.phis[b]]
                for j, (r, v) in enumerate(ph):
                    src.append("  t%d=%s" % (j, v))
                for j, (r, v) in enumerate(ph):
                    src.append("  R[%d]=t%d" % (r, j))
                self.edges[(p, b)] = fn
        ns = dict(ENV)
        exec(compile("\n".join(src) or "pass", "<ir:%s>" % self.name, "exec"), ns)
        for b in order:
            self.segs[b] = [(ns[f], k) for f, k in self.segs[b]]
        self.edges = {k: ns[f] for k, f in self.edges.items()}
        self.nregs = len(self.regs)
        self.K = None

    def bind(self):
        """resolve constants"""
        self.K = [self.mod.prog.global_ref(self.mod, v[1]) if isinstance(v, tuple) and v[0] == "glob" else v for v in self.consts]
        return self.K

    def instr(self, l, blk):
        l = re.sub(r"(, ![-a-zA-Z0-9._]+( ![0-9]+)?)+$", "", l)
        l = re.sub(r", !srcloc.*$", "", l)
        dst = None
        m = re.match(r"(%[^ ]+) = (.*)$", l)
        if m:
            dst, l = self.reg(m.group(1)), m.group(2)
        tk = Tok(l)
        op = tk.next()
        while op in ("tail", "musttail", "notail"):
            op = tk.next()
        D = "R[%d]=" % dst if dst is not None else ""
        if op in BIN:
            while tk.peek() in ("nuw", "nsw", "exact", "disjoint"):
                tk.next()
            ty = self.mod.ty(tk)
            a = self.const(ty, tk)
            tk.need(",")
            b = self.const(ty, tk)
            return "op", BIN[op](dst, a, b, ty.w)
        if op == "icmp":
            while tk.peek() in ("samesign",):
                tk.next()
            pred = tk.next()
            ty = self.mod.ty(tk)
            a = self.const(ty, tk)
            tk.need(",")
            b = self.const(ty, tk)
            return "op", icmp_code(dst, pred, a, b, ty.w)
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze"):
            while tk.peek() in ("nneg", "nuw", "nsw"):
                tk.next()
            ty = self.mod.ty(tk)
            a = self.const(ty, tk)
            if op == "freeze":
                return "op", D + a
            tk.need("to")
            t2 = self.mod.ty(tk)
            if op in ("ptrtoint", "inttoptr", "bitcast"):
                if op == "bitcast" and ty.w != t2.w:
                    raise Inconclusive("bitcast")
                return "op", D + a
            if op == "zext":
                if ty.w == 1:
                    return "op", D + "ZB(%s,%d)" % (a, t2.w)
                return "op", "x=%s\n%sx if x.__class__ is int else ZEXT(x,%d,%d)" % (a, D, ty.w, t2.w)
            if op == "sext":
                if ty.w == 1:
                    return "op", D + "SB(%s,%d)" % (a, t2.w)
                return "op", D + "SEXT(%s,%d,%d)" % (a, ty.w, t2.w)
            if t2.w == 1:
                return "op", D + "TB(%s,%d)" % (a, ty.w)
            return "op", "x=%s\n%sx&%d if x.__class__ is int else TRUNC(x,%d,%d)" % (a, D, (1 << t2.w) - 1, ty.w, t2.w)
        if op == "getelementptr":
            while tk.peek() in ("inbounds", "nuw", "nusw"):
                tk.next()
            return "op", D + self.gep(tk)
        if op == "load":
            tk.eat("volatile")
            ty = self.mod.ty(tk)
            tk.need(",")
            self.mod.ty(tk)
            p = self.const(PTR, tk)
            if ty.k == "p":
                return "op", D + "st.load(%s,8,64)" % p
            if ty.k != "i":
                raise Inconclusive("load of %s" % ty.k)
            return "op", D + "st.load(%s,%d,%d)" % (p, (ty.w + 7) // 8, ty.w)
        if op == "store":
            tk.eat("volatile")
            ty = self.mod.ty(tk)
            v = self.const(ty, tk)
            tk.need(",")
            self.mod.ty(tk)
            p = self.const(PTR, tk)
            if ty.k == "p":
                return "op", "st.store(%s,%s,8,64)" % (p, v)
            if ty.k != "i":
                raise Inconclusive("store of %s" % ty.k)
            return "op", "st.store(%s,%s,%d,%d)" % (p, v, (ty.w + 7) // 8, ty.w)
        if op == "alloca":
            ty = self.mod.ty(tk)
            n = 1
            if tk.eat(","):
                if tk.peek() != "align":
                    ity = self.mod.ty(tk)
                    n = int(self.const(ity, tk))
            return "op", D + "st.alloc(%d,%r)" % (ty.size * n, "stack:" + self.name)
        if op == "select":
            ct = self.mod.ty(tk)
            c = self.const(ct, tk)
            tk.need(",")
            ty = self.mod.ty(tk)
            a = self.const(ty, tk)
            tk.need(",")
            self.mod.ty(tk)
            b = self.const(ty, tk)
            return "op", D + "SELECT(st,%s,%s,%s,%d)" % (c, a, b, ty.w)
        if op == "extractvalue":
            ty = self.mod.ty(tk)
            a = self.const(ty, tk)
            tk.need(",")
            return "op", D + "%s.v[%d]" % (a, int(tk.next()))
        if op == "insertvalue":
            ty = self.mod.ty(tk)
            a = self.const(ty, tk)
            tk.need(",")
            t2 = self.mod.ty(tk)
            b = self.const(t2, tk)
            tk.need(",")
            return "op", D + "Agg({**%s.v,%d:%s})" % (a, int(tk.next()), b)
        if op == "br":
            if tk.eat("label"):
                return "term", "return %r" % tk.next()
            self.mod.ty(tk)
            c = self.const(int_ty(1), tk)
            tk.need(",")
            tk.need("label")
            t = tk.next()
            tk.need(",")
            tk.need("label")
            f = tk.next()
            return "term", "c=%s\nif c is True: return %r\nif c is False: return %r\nreturn (c,%r,%r)" % (c, t, f, t, f)
        if op == "switch":
            ty = self.mod.ty(tk)
            v = self.const(ty, tk)
            tk.need(",")
            tk.need("label")
            d = tk.next()
            tk.need("[")
            cases = []
            while not tk.eat("]"):
                self.mod.ty(tk)
                c = int(tk.next()) & ((1 << ty.w) - 1)
                tk.need(",")
                tk.need("label")
                cases.append((c, tk.next()))
            return "term", "return SWITCH(st,%s,%d,%r,%r)" % (v, ty.w, d, cases)
        if op == "ret":
            ty = self.mod.ty(tk)
            if ty is VOID:
                return "ret", "return None"
            return "ret", "return %s" % self.const(ty, tk)
        if op == "unreachable":
            return "term", "raise Inconclusive('unreachable executed in %s')" % self.name
        if op == "call":
            while tk.peek() in ATTRS or tk.peek() in ("fastcc", "ccc", "range", "align", "dereferenceable"):
                a = tk.next()
                if tk.peek() == "(":
                    while tk.next() != ")":
                        pass
            ty = self.mod.ty(tk)
            if tk.peek() == "(":
                while tk.next() != ")":
                    pass
            f = tk.next()
            if f == "asm":
                return "skip", ""
            tk.need("(")
            args = []
            while not tk.eat(")"):
                if tk.peek() == "metadata":
                    return "skip", ""
                aty = self.mod.ty(tk)
                while tk.peek() in ATTRS or tk.peek() in ("align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "range", "dead_on_unwind", "captures"):
                    a = tk.next()
                    if a == "align" and tk.peek() != "(":
                        tk.next()
                    elif tk.peek() == "(":
                        depth = 0
                        while True:
                            y = tk.next()
                            depth += (y == "(") - (y == ")")
                            if depth == 0:
                                break
                args.append((self.const(aty, tk), aty.w))
                tk.eat(",")
            name = f
            if name.startswith("@llvm."):
                if re.match(r"@llvm\.(lifetime|experimental|dbg|assume|invariant|donothing|prefetch)", name):
                    return "skip", ""
                base = name[6:].split(".")[0]
                if name.startswith("@llvm.usub.sat") or name.startswith("@llvm.uadd.sat"):
                    base = name[6:14].replace(".", "_")
                m = re.search(r"with\.overflow", name)
                if m:
                    base = name[6:].split(".")[0] + "_ov"
                return "op", D + "INTR_%s(st,%d,%s)" % (base, ty.w, ",".join(a for a, _ in args))
            if name.startswith("%"):
                tgt = "R[%d]" % self.reg(name)
            else:
                tgt = repr(name)
            return "call", "return (%s,%s,[%s])" % (tgt, dst, ",".join(a for a, _ in args))
        raise Inconclusive("IR instruction: " + l)


# ------------------------------------------------------------------ code templates
def _bin_fast(sym, fn):
    def g(d, a, b, w):
        if w == 1:
            return "R[%d]=%s(%s,%s)" % (d, "B" + fn, a, b)
        return "x=%s;y=%s\nR[%d]=((x%sy)&%d) if x.__class__ is int and y.__class__ is int else %s(st,x,y,%d)" % (a, b, d, sym, (1 << w) - 1, fn, w)
    return g


def _bin_slow(fn):
    def g(d, a, b, w):
        return "R[%d]=%s(st,%s,%s,%d)" % (d, fn, a, b, w)
    return g


BIN = {"add": _bin_fast("+", "ADD"), "sub": _bin_fast("-", "SUB"), "mul": _bin_fast("*", "MUL"),
       "and": _bin_fast("&", "AND"), "or": _bin_fast("|", "OR"), "xor": _bin_fast("^", "XOR"),
       "shl": _bin_slow("SHL"), "lshr": _bin_slow("LSHR"), "ashr": _bin_slow("ASHR"),
       "udiv": _bin_slow("UDIV"), "urem": _bin_slow("UREM"), "sdiv": _bin_slow("SDIV"), "srem": _bin_slow("SREM")}


def icmp_code(d, pred, a, b, w):
    py = {"eq": "==", "ne": "!=", "ult": "<", "ule": "<=", "ugt": ">", "uge": ">="}.get(pred)
    if py and w != 1:
        return "x=%s;y=%s\nR[%d]=(x%sy) if x.__class__ is int and y.__class__ is int else ICMP(st,%r,x,y,%d)" % (a, b, d, py, pred, w)
    return "R[%d]=ICMP(st,%r,%s,%s,%d)" % (d, pred, a, b, w)


def ADD(st, a, b, w):
    if a.__class__ is P:
        return PADD(a, b)
    if b.__class__ is P:
        return PADD(b, a)
    return sc.add(a, b, w)


def SUB(st, a, b, w):
    if a.__class__ is P:
        if b.__class__ is P:
            if a.o != b.o:
                return st.undef(w)
            return sc.sub(a.off, b.off, 64)
        return PADD(a, sc.sub(0, b, 64))
    return sc.sub(a, b, w)


def MUL(st, a, b, w):
    d = st.prog.domain
    if d is not None:
        return d.mul(st, a, b, w)
    return sc.mul(a, b, w)


def AND(st, a, b, w):
    if a.__class__ is P or b.__class__ is P:
        return st.ptr_and(a, b)
    return sc.and_(a, b, w)


def OR(st, a, b, w):
    return sc.or_(a, b, w)


def XOR(st, a, b, w):
    return sc.xor_(a, b, w)


def _shift(kind):
    f = {"shl": sc.shl, "lshr": sc.lshr, "ashr": sc.ashr}[kind]

    def g(st, a, b, w):
        if b.__class__ is int:
            if b >= w:
                return st.undef(w)
            return f(a, b, w)
        b = st.simplify_val(b)
        if b.__class__ is int:
            return g(st, a, b, w)
        return sc.shift_sym(kind, a, b, w)
    return g


SHL, LSHR, ASHR = _shift("shl"), _shift("lshr"), _shift("ashr")


def _div(f):
    def g(st, a, b, w):
        if b.__class__ is int and b == 0:
            st.violation("division by zero")
        return f(a, b, w)
    return g


UDIV, UREM, SDIV, SREM = _div(sc.udiv), _div(sc.urem), _div(sc.sdiv), _div(sc.srem)


def ICMP(st, pred, a, b, w):
    if a.__class__ is P or b.__class__ is P or a.__class__ is FnPtr or b.__class__ is FnPtr:
        return st.ptr_cmp(pred, a, b)
    if w == 1:
        x, y = a, b
        if pred == "eq":
            return sc.b_not(sc.b_xor(x, y))
        if pred == "ne":
            return sc.b_xor(x, y)
        if pred == "ult":
            return sc.b_and(sc.b_not(x), y)
        if pred == "ugt":
            return sc.b_and(x, sc.b_not(y))
        raise Inconclusive("icmp i1 " + pred)
    if pred == "eq":
        return sc.eq(a, b, w)
    if pred == "ne":
        return sc.b_not(sc.eq(a, b, w))
    if pred == "ult":
        return sc.ult(a, b, w)
    if pred == "ugt":
        return sc.ult(b, a, w)
    if pred == "ule":
        return sc.ule(a, b, w)
    if pred == "uge":
        return sc.ule(b, a, w)
    if pred == "slt":
        return sc.slt(a, b, w)
    if pred == "sgt":
        return sc.slt(b, a, w)
    if pred == "sle":
        return sc.sle(a, b, w)
    return sc.sle(b, a, w)


def PADD(p, k):
    if p.__class__ is P:
        if p.off.__class__ is int and k.__class__ is int:
            o = (p.off + k) & 0xffffffffffffffff
            return P(p.o, o - (1 << 64) if o >> 63 else o)
        return P(p.o, sc.add(p.off, k, 64))
    if p.__class__ is int and k.__class__ is int:
        return (p + k) & 0xffffffffffffffff
    return sc.add(p, k, 64)


def PIDX(p, i, w, sz):
    if i.__class__ is int:
        if i >> (w - 1):
            i -= 1 << w
        return PADD(p, i * sz)
    return PADD(p, sc.mul(sc.sext(i, w, 64), sz, 64))


def ZB(c, w):
    if c is True:
        return 1
    if c is False:
        return 0
    return sc.zext(sc.bit(c), 1, w)


def SB(c, w):
    if c is True:
        return (1 << w) - 1
    if c is False:
        return 0
    return sc.sext(sc.bit(c), 1, w)


def TB(a, w):
    if a.__class__ is int:
        return bool(a & 1)
    return sc.cond1(sc.extract(a, 0, 1))


def SELECT(st, c, a, b, w):
    if c is True:
        return a
    if c is False:
        return b
    neg = z3.is_not(c)
    r = st.known.get((c.arg(0) if neg else c).get_id())
    if r is not None:
        return a if r != neg else b
    if w == 1:
        return sc.b_or(sc.b_and(c, a), sc.b_and(sc.b_not(c), b))
    if st.prog.select_fork and (a.__class__ is V or b.__class__ is V):
        return a if st.decide(c) else b
    if a.__class__ is P or b.__class__ is P or a.__class__ is FnPtr or b.__class__ is FnPtr:
        if a.__class__ is P and b.__class__ is P and a.o == b.o:
            return P(a.o, sc.ite(c, a.off, b.off, 64))
        return a if st.decide(c) else b
    return sc.ite(c, a, b, w)


def SWITCH(st, v, w, d, cases):
    if v.__class__ is int:
        for c, l in cases:
            if c == v:
                return l
        return d
    for c, l in cases:
        if st.decide(sc.eq(v, c, w)):
            return l
    return d


def UNDEF(st, w):
    return st.undef(w)


def _minmax(lt, first):
    def g(st, w, a, b):
        c = lt(a, b, w)
        return sc.ite(c, a, b, w) if first else sc.ite(c, b, a, w)
    return g


INTR_umin, INTR_umax = _minmax(sc.ult, True), _minmax(sc.ult, False)
INTR_smin, INTR_smax = _minmax(sc.slt, True), _minmax(sc.slt, False)


def INTR_abs(st, w, a, p):
    if st.prog.abs_fork:
        return sc.neg(a, w) if st.decide(sc.slt(a, 0, w)) else a
    return sc.ite(sc.slt(a, 0, w), sc.neg(a, w), a, w)


def INTR_fshl(st, w, a, b, k):
    if k.__class__ is not int:
        k = st.simplify_val(k)
    if k.__class__ is not int:
        x = sc.concat([(b, w), (a, w)])
        kk = sc.zext(sc.and_(k, w - 1, w), w, 2 * w)
        return sc.extract(sc.shift_sym("shl", x, kk, 2 * w), w, w)
    k %= w
    if k == 0:
        return a
    return sc.concat([(sc.extract(b, w - k, k), k), (sc.extract(a, 0, w - k), w - k)])


def INTR_fshr(st, w, a, b, k):
    if k.__class__ is not int:
        raise Inconclusive("fshr symbolic")
    k %= w
    if k == 0:
        return b
    return sc.concat([(sc.extract(b, k, w - k), w - k), (sc.extract(a, 0, k), k)])


def INTR_bswap(st, w, a):
    return sc.concat([(sc.extract(a, w - 8 * (i + 1), 8), 8) for i in range(w // 8)])


def INTR_usub_sat(st, w, a, b):
    return sc.ite(sc.ult(a, b, w), 0, sc.sub(a, b, w), w)


def INTR_ctpop(st, w, a):
    r = 0
    for i in range(w):
        r = sc.add(r, sc.zext(sc.extract(a, i, 1), 1, w), w)
    return r


def INTR_ctlz(st, w, a, p):
    if a.__class__ is int:
        return w - a.bit_length()
    r = w
    for i in range(w):
        r = sc.ite(sc.cond1(sc.extract(a, i, 1)), w - 1 - i, r, w)
    return r


def INTR_cttz(st, w, a, p):
    r = w
    for i in reversed(range(w)):
        r = sc.ite(sc.cond1(sc.extract(a, i, 1)), i, r, w)
    return r


def INTR_uadd_ov(st, w, a, b):
    w = 64
    raise Inconclusive("with.overflow")


INTR_umul_ov = INTR_sadd_ov = INTR_usub_ov = INTR_uadd_ov


def INTR_memcpy(st, w, d, s, n, v=None):
    st.memmove(d, s, n)


INTR_memmove = INTR_memcpy


def INTR_memset(st, w, d, c, n, v=None):
    st.memset(d, c, n)


ENV = {k: v for k, v in list(globals().items()) if k.isupper() or k.startswith("INTR_") or k in ("Agg", "P", "Inconclusive")}
ENV.update(ZEXT=sc.zext, SEXT=sc.sext, TRUNC=sc.trunc, BAND=sc.b_and, BOR=sc.b_or, BXOR=sc.b_xor,
           BADD=sc.b_xor, BSUB=sc.b_xor, BMUL=sc.b_and)


# ------------------------------------------------------------------ memory
class Obj:
    __slots__ = ("size", "name", "data", "own", "ro", "dead")

    def __init__(self, size, name, own):
        self.size, self.name, self.own = size, name, own
        self.data = {}      # byte offset -> (value, nbytes) chunk start, or ('in', start)
        self.ro = False
        self.dead = False

    def clone(self, own):
        o = Obj(self.size, self.name, own)
        o.data = dict(self.data)
        o.ro = self.ro
        return o


class _Kill(Exception):
    pass


class _Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Frame:
    __slots__ = ("fn", "R", "blk", "si", "ret", "allocs")

    def __init__(self, fn, R, blk, si, ret):
        self.fn, self.R, self.blk, self.si, self.ret = fn, R, blk, si, ret
        self.allocs = []


class State:
    def __init__(self, prog):
        self.prog = prog
        self.mem, self.frames, self.pc = {}, [], []
        self.inputs = []          # (term/V, width)
        self.nobj = 0
        self.token = object()
        self.model = None
        self.decisions = []
        self.dpos = 0
        self.steps = 0
        self.nund = 0
        self.known = {}       # ast id of a condition -> its value on this path (conditions kept alive by prog.keep)

    def clone(self):
        s = State(self.prog)
        s.mem = dict(self.mem)
        s.frames = []
        for f in self.frames:
            g = Frame(f.fn, list(f.R), f.blk, f.si, f.ret)
            g.allocs = list(f.allocs)
            s.frames.append(g)
        s.pc = list(self.pc)
        s.inputs = list(self.inputs)
        s.nobj, s.model, s.steps, s.nund = self.nobj, self.model, self.steps, self.nund
        s.known = dict(self.known)
        self.token = object()      # both sides copy on write from now on
        return s

    def flip(self, c, val):
        neg = z3.is_not(c)
        self.known[(c.arg(0) if neg else c).get_id()] = val != neg

    # -- decisions inside a segment (re-executed on fork) --
    def decide(self, c):
        if c is True or c is False:
            return c
        if self.dpos < len(self.decisions):
            r = self.decisions[self.dpos]
            self.dpos += 1
            return r
        raise _Fork(c)

    def simplify_val(self, v):
        if isinstance(v, V):
            t = z3.simplify(v.z())
            if z3.is_bv_value(t):
                return t.as_long()
        return v

    def undef(self, w):
        self.nund += 1
        return sc.var("undef!%d!%d" % (self.prog.uid(), w), w)

    def violation(self, msg):
        self.prog.report(self, True, msg)
        raise _Kill()

    # -- memory --
    def alloc(self, size, name):
        self.nobj += 1
        oid = self.nobj
        self.mem[oid] = Obj(size, name, self.token)
        if self.frames:
            self.frames[-1].allocs.append(oid)
        return P(oid, 0)

    def obj_w(self, oid):
        o = self.mem[oid]
        if o.own is not self.token:
            o = o.clone(self.token)
            self.mem[oid] = o
        return o

    def _addr(self, p, n, what):
        if p.__class__ is not P:
            if p.__class__ is int:
                self.violation("%s through invalid pointer %#x" % (what, p))
            raise Inconclusive("%s through a symbolic integer pointer" % what)
        o = self.mem.get(p.o)
        if o is None:
            self.violation("%s of freed memory" % what)
        off = p.off
        if off.__class__ is int:
            if off < 0 or off + n > o.size:
                self.violation("out-of-bounds %s: %s[%d..%d) of size %d" % (what, o.name, off, off + n, o.size))
            return o, off
        off = self.simplify_val(off)
        if off.__class__ is int:
            if off >> 63:
                off -= 1 << 64
            return self._addr(P(p.o, off), n, what)
        inb = sc.ule(off, o.size - n, 64) if o.size >= n else False
        if inb is not True:
            self.prog.report(self, sc.b_not(inb), "out-of-bounds %s: %s of size %d" % (what, o.name, o.size))
            if inb is False:
                raise _Kill()
            self.assume(inb)
        return o, off

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise _Kill()
        m = self.model
        if m is None or not z3.is_true(m.eval(c, model_completion=True)):
            self.model = self.prog.solver.check(self.pc, c, base=m)
            if self.model is None:
                raise _Kill()
        self.pc.append(c)

    def _cands(self, o, off, n):
        s0 = off.segs[0]
        st, start = 1, 0
        if s0[0] is None:
            st, start = 1 << s0[1], s0[2]
        c = list(range(start, o.size - n + 1, st))
        if len(c) > self.prog.max_cands:
            raise Inconclusive("symbolic address over %d cells of %s" % (len(c), o.name))
        return c

    def load(self, p, n, w):
        if p.__class__ is P and p.off.__class__ is int:
            o = self.mem.get(p.o)
            if o is not None and 0 <= p.off and p.off + n <= o.size:
                c = o.data.get(p.off)
                if c is not None and c[1] == n:
                    v = c[0]
                    if w == 1:
                        return TB(v, 8)
                    return v
                return self._load(o, p.off, n, w)
        o, off = self._addr(p, n, "read")
        if off.__class__ is int:
            return self._load(o, off, n, w)
        cs = self._cands(o, off, n)
        if not cs:
            raise _Kill()
        vals = [self._load(o, c, n, w) for c in cs]
        if any(v.__class__ in (P, FnPtr) for v in vals):
            for c in cs[:-1]:
                if self.decide(sc.eq(off, c, 64)):
                    return self._load(o, c, n, w)
            return vals[-1]
        # balanced ite over the index bits
        return self._ite_tree(off, cs, vals, w)

    def _ite_tree(self, off, cs, vals, w):
        if len(cs) == 1:
            return vals[0]
        if all(v.__class__ is int and v == vals[0] for v in vals):
            return vals[0]
        h = len(cs) // 2
        c = sc.ult(off, cs[h], 64)
        return sc.ite(c, self._ite_tree(off, cs[:h], vals[:h], w), self._ite_tree(off, cs[h:], vals[h:], w), w)

    def _byte(self, o, off):
        c = o.data.get(off)
        if c is None:
            v = self.undef(8)
            o2 = o
            o2.data[off] = (v, 1)
            return v
        if c[0].__class__ is str:
            s = c[1]
            v, n = o.data[s]
            if v.__class__ in (P, FnPtr):
                raise Inconclusive("byte access to a stored pointer")
            return sc.extract(v, 8 * (off - s), 8)
        v, n = c
        if v.__class__ in (P, FnPtr):
            raise Inconclusive("byte access to a stored pointer")
        return sc.extract(v, 0, 8) if n > 1 else v

    def _load(self, o, off, n, w):
        c = o.data.get(off)
        if c is not None and c[1] == n and c[0].__class__ is not str:
            v = c[0]
        elif n == 1:
            v = self._byte(o, off)
        else:
            v = sc.concat([(self._byte(o, off + i), 8) for i in range(n)])
            if v.__class__ is V and v.w != 8 * n:
                raise AssertionError
        if w == 1:
            return TB(v, 8)
        return v

    def store(self, p, v, n, w):
        if w == 1:
            v = ZB(v, 8)
        if p.__class__ is P and p.off.__class__ is int:
            o = self.mem.get(p.o)
            if o is not None and 0 <= p.off and p.off + n <= o.size and not o.ro:
                if o.own is not self.token:
                    o = self.obj_w(p.o)
                self._store(o, p.off, v, n)
                return
        o, off = self._addr(p, n, "write")
        if o.ro:
            self.violation("write to constant %s" % o.name)
        o = self.obj_w(p.o)
        if off.__class__ is int:
            self._store(o, off, v, n)
            return
        cs = self._cands(o, off, n)
        if v.__class__ in (P, FnPtr) or len(cs) > self.prog.store_ite_max:
            # fork on the address
            m = self.get_model()
            for _ in range(self.prog.max_addr_forks):
                a = sc.model_val(m, off, 64)
                if self.decide(sc.eq(off, a, 64)):
                    self._store(o, a, v, n)
                    return
                m = self.prog.solver.check(self.pc + [sc.b_not(sc.eq(off, a, 64))])
                raise Inconclusive("address fork")
            raise Inconclusive("too many addresses")
        for c in cs:
            old = self._load(o, c, n, 8 * n)
            self._store(o, c, sc.ite(sc.eq(off, c, 64), v, old, 8 * n), n)

    def _store(self, o, off, v, n):
        d = o.data
        c = d.get(off)
        if c is None or c[1] != n or c[0].__class__ is str:
            # break overlapping chunks into bytes
            i = off
            end = off + n
            while i < end:
                c = d.get(i)
                if c is not None:
                    s = c[1] if c[0].__class__ is str else i
                    cv, cn = d[s]
                    if cn > 1 or s != i:
                        if s >= off and s + cn <= end:
                            pass
                        else:
                            for j in range(cn):
                                if cv.__class__ in (P, FnPtr):
                                    d.pop(s + j, None)
                                else:
                                    d[s + j] = (sc.extract(cv, 8 * j, 8), 1)
                i += 1
            for j in range(1, n):
                d[off + j] = ("in", off)
        d[off] = (v, n)

    def get_model(self):
        if self.model is None:
            self.model = self.prog.solver.check(self.pc)
            if self.model is None:
                raise _Kill()
        return self.model

    def _n(self, n):
        if n.__class__ is int:
            return n
        n = self.simplify_val(n)
        if n.__class__ is int:
            return n
        # fork over feasible lengths
        m = self.prog.solver.check(self.pc)
        if m is None:
            raise _Kill()
        a = sc.model_val(m, n, 64)
        if self.decide(sc.eq(n, a, 64)):
            return a
        raise _Fork(sc.eq(n, a, 64))

    def concretize(self, v, w):
        """fork until v is concrete"""
        if v.__class__ is int:
            return v
        v2 = self.simplify_val(v)
        if v2.__class__ is int:
            return v2
        k = 0
        while True:
            if self.dpos < len(self.decisions):
                d = self.decisions[self.dpos]
                if d.__class__ is tuple:       # (value, taken)
                    self.dpos += 1
                    if d[1]:
                        return d[0]
                    continue
                raise Inconclusive("decision replay mismatch")
            a = sc.model_val(self.get_model(), v, w)
            f = _Fork(sc.eq(v, a, w))
            f.value = a
            raise f

    def memmove(self, d, s, n):
        n = self.concretize(n, 64)
        if n == 0:
            return
        if s.__class__ is P and s.off.__class__ is not int:
            s = P(s.o, self.concretize(s.off, 64))
        if d.__class__ is P and d.off.__class__ is not int:
            d = P(d.o, self.concretize(d.off, 64))
        so, soff = self._addr(s, n, "read (memcpy)")
        do, doff = self._addr(d, n, "write (memcpy)")
        items = []
        i = 0
        while i < n:
            c = so.data.get(soff + i)
            if c is None:
                items.append((i, None, 1))
                i += 1
            elif c[0].__class__ is not str and i + c[1] <= n:
                items.append((i, c[0], c[1]))
                i += c[1]
            else:
                items.append((i, self._byte(so, soff + i), 1))
                i += 1
        do = self.obj_w(d.o)
        for i, v, k in items:
            if v is None:
                v = self.undef(8)
            self._store(do, doff + i, v, k)

    def memset(self, d, c, n):
        n = self.concretize(n, 64)
        if n == 0:
            return
        do, doff = self._addr(d, n, "write (memset)")
        do = self.obj_w(d.o)
        for i in range(n):
            self._store(do, doff + i, c, 1)

    def ptr_cmp(self, pred, a, b):
        if a.__class__ is P and b.__class__ is P:
            if a.o == b.o:
                x, y = a.off, b.off
                if x.__class__ is int and y.__class__ is int:
                    return {"eq": x == y, "ne": x != y, "ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y,
                            "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y}[pred]
                return ICMP(self, pred.replace("u", "s") if pred not in ("eq", "ne") else pred, x, y, 64)
            if pred == "eq":
                return False
            if pred == "ne":
                return True
            return {"ult": a.o < b.o, "ule": a.o <= b.o, "ugt": a.o > b.o, "uge": a.o >= b.o}.get(pred)
        if pred == "eq":
            return False
        if pred == "ne":
            return True
        return pred in ("ugt", "uge") if a.__class__ is P else pred in ("ult", "ule")

    def ptr_and(self, a, b):
        p, m = (a, b) if a.__class__ is P else (b, a)
        if m.__class__ is int and p.off.__class__ is int:
            # objects are 64-byte aligned
            if m < 64:
                return p.off & m
            if ((1 << 64) - 1) ^ m < 64:
                return P(p.o, p.off & ~(((1 << 64) - 1) ^ m))
        raise Inconclusive("pointer mask")

    def cstr(self, p):
        o = self.mem[p.o]
        s = ""
        i = p.off
        while True:
            b = self._byte(o, i)
            if b == 0:
                return s
            s += chr(b)
            i += 1


class Program:
    """A set of IR modules plus the exploration driver."""

    def __init__(self, texts, timeout_ms=120000):
        self.mods = []
        self.funcs, self.fcache = {}, {}
        self.gobj = {}
        self.domain = None
        self.solver = sc.PathSolver(timeout_ms)
        self.max_cands = 4200
        self.store_ite_max = 256
        self.max_addr_forks = 64
        self._uid = 0
        self.externs = {}
        self.gdef = {}
        self.resolver = None
        for name, t in texts:
            m = Module(t, name, self)
            self.mods.append(m)
        for m in self.mods:
            self._index(m)
        self.init = State(self)
        # results
        self.checks = {}
        self.failures = []
        self.witness = {}
        self.paths = 0
        self.branches = 0
        self.discharged = 0
        self.obligations = 0
        self.used = set()
        self.max_paths = 200000
        self.keep = []
        self.deadline = None
        self.step_limit = 50_000_000

    def uid(self):
        self._uid += 1
        return self._uid

    # -- globals --
    def _index(self, m):
        for f, (h, b, internal) in m.funcs.items():
            if not internal:
                self.funcs.setdefault(f, m)
        for g, d in m.globs.items():
            if g.startswith("@llvm.") or re.match(r"(dso_local )?external ", d):
                continue
            internal = bool(re.match(r"(private|internal)", d))
            self.gdef.setdefault((m.name, g) if internal else g, (m, d))

    def _load_rest(self):
        """an undefined symbol was met: link the remaining sources"""
        if self.resolver is None:
            return False
        rest, self.resolver = self.resolver(), None
        for name, t in rest:
            m = Module(t, name, self)
            self.mods.append(m)
            self._index(m)
        return True

    def global_ref(self, mod, g):
        if g in mod.funcs:
            return FnPtr(g, mod)
        key = (mod.name, g) if (mod.name, g) in self.gdef else g
        if key in self.gobj:
            return P(self.gobj[key], 0)
        if key in self.gdef:
            m, d = self.gdef[key]
            mm = re.search(r"\b(global|constant) ", d)
            tk = Tok(d[mm.end():])
            ty = m.ty(tk)
            st = self.init
            # globals live at negative ids: shared by every state through init_mem
            oid = -(len(self.gobj) + 1)
            self.gobj[key] = oid
            o = Obj(ty.size, g[1:], None)
            self._init(m, o, 0, ty, tk)
            o.ro = mm.group(1) == "constant"
            self.gmem[oid] = o
            for s in self.live:
                s.mem[oid] = o
            return P(oid, 0)
        if g in self.funcs:
            return FnPtr(g, self.funcs[g])
        if g[1:] in self.externs:
            return FnPtr(g, None)
        if self._load_rest():
            return self.global_ref(mod, g)
        raise Inconclusive("undefined symbol %s" % g)

    gmem, live = None, ()
    debug = None
    abs_fork = True
    select_fork = False

    def _init(self, m, o, off, ty, tk):
        t = tk.peek()
        if t == "zeroinitializer":
            tk.next()
            self._zero(o, off, ty)
        elif t in ("undef", "poison"):
            tk.next()
        elif ty.k == "a" and t.startswith('c"'):
            s = tk.next()[2:-1]
            i, k = 0, 0
            while i < len(s):
                if s[i] == "\\":
                    b = int(s[i + 1:i + 3], 16)
                    i += 3
                else:
                    b = ord(s[i])
                    i += 1
                o.data[off + k] = (b, 1)
                k += 1
        elif ty.k == "a":
            tk.need("[")
            for i in range(ty.n):
                et = m.ty(tk)
                self._init(m, o, off + i * et.size, et, tk)
                tk.eat(",")
            tk.need("]")
        elif ty.k == "s":
            packed = tk.eat("<")
            tk.need("{")
            for i, f in enumerate(ty.fields):
                et = m.ty(tk)
                self._init(m, o, off + ty.offs[i], et, tk)
                tk.eat(",")
            tk.need("}")
            if packed:
                tk.need(">")
        elif ty.k == "i":
            x = tk.next()
            v = 1 if x == "true" else 0 if x == "false" else int(x) & ((1 << ty.w) - 1)
            self._put(o, off, v, ty.size)
        elif ty.k == "p":
            x = tk.next()
            if x == "null":
                v = 0
            elif x.startswith("@"):
                v = self.global_ref(m, x)
            else:
                raise Inconclusive("pointer initialiser " + x)
            self._put(o, off, v, 8)
        else:
            raise Inconclusive("initialiser")

    def _put(self, o, off, v, n):
        o.data[off] = (v, n)
        for j in range(1, n):
            o.data[off + j] = ("in", off)

    def _zero(self, o, off, ty):
        if ty.k == "a":
            for i in range(ty.n):
                self._zero(o, off + i * ty.el.size, ty.el)
        elif ty.k == "s":
            for f, fo in zip(ty.fields, ty.offs):
                self._zero(o, off + fo, f)
        else:
            self._put(o, off, 0, ty.size)

    override = frozenset()

    def fn(self, name, mod=None):
        if name in self.override:
            m = self.mods[0]
        else:
            m = mod if mod is not None and name in mod.funcs else self.funcs.get(name)
        if m is None:
            return self.fn(name, mod) if self._load_rest() else None
        k = (m.name, name)
        f = self.fcache.get(k)
        if f is None:
            h, b, _ = m.funcs[name]
            f = self.fcache[k] = Fn(m, name, h, b)
        return f

    # -- reporting --
    def report(self, st, cond, msg):
        """obligation: cond (the bad condition) must be unsatisfiable on this path"""
        self.obligations += 1
        c = self.checks.setdefault(msg, [0, 0])
        c[0] += 1
        if cond is False:
            self.discharged += 1
            return
        m = st.get_model()
        if cond is not True:
            for d in sc.disjuncts(cond):
                m2 = m if d is True else self.solver.check(st.pc, d, base=m)
                if m2 is not None:
                    break
            else:
                self.discharged += 1
                return
            m = m2
        c[1] += 1
        if not any(f[0] == msg for f in self.failures):
            if self.alg is not None:
                for seed in range(4):
                    self.failures.append((msg, self.alg.complete(m, st, seed)))
                for vals in self.alg.candidates(m, st):
                    self.failures.append((msg, vals))
            else:
                self.failures.append((msg, [sc.model_val(m, v, w) for v, w in st.inputs]))

    alg = None
    witness_alt = {}

    def explore(self, f, args, pre):
        """all paths of one pure call: [(path condition, result)]"""
        save = self.alg, self.gmem, self.live
        self.alg = None
        try:
            st = State(self)
            st.pc = list(pre)
            R = [None] * f.nregs
            for pr, a in zip(f.params, args):
                R[pr] = a
            st.frames = [Frame(f, R, f.entry, 0, None)]
            if self.gmem is None:
                self.gmem, self.live = {}, [st]
            stack, out = [st], []
            while stack:
                st = stack.pop()
                try:
                    self._exec(st, stack)
                    out.append((st.pc, st.retval))
                except _Kill:
                    pass
                if len(out) > 64:
                    raise Inconclusive("too many paths in %s" % f.name)
        finally:
            self.alg, self.gmem, self.live = save
        return out

    def run(self, entry="@vp_main"):
        st = State(self)
        self.gmem, self.live = {}, [st]
        f = self.fn(entry)
        st.frames = [Frame(f, [None] * f.nregs, f.entry, 0, None)]
        stack = [st]
        t0 = time.time()
        while stack:
            st = stack.pop()
            self.live = stack + [st]
            try:
                self._exec(st, stack)
                self.paths += 1
            except _Kill:
                self.paths += 1
            if self.paths > self.max_paths:
                raise Inconclusive("more than %d paths" % self.max_paths)
            if self.deadline and time.time() - t0 > self.deadline:
                raise Inconclusive("exploration exceeded %ds (%d paths, %d pending)" % (self.deadline, self.paths, len(stack)))
            if len(set(f[0] for f in self.failures)) >= 3:
                return

    def _branch(self, st, stack, c):
        """returns True/False; pushes the other side when feasible"""
        neg = z3.is_not(c)
        lit = c.arg(0) if neg else c
        lid = lit.get_id()
        r = st.known.get(lid)
        if r is not None:
            return r != neg, None
        self.branches += 1
        if self.debug is not None:
            k = (st.frames[-1].fn.name, st.frames[-1].blk)
            self.debug[k] = self.debug.get(k, 0) + 1
        sv = self.solver
        self.keep.append(lit)
        m = st.get_model()
        v = m.eval(c, model_completion=True)
        v = z3.is_true(v)
        other = z3.Not(c) if v else c
        m2 = sv.check(st.pc, other, base=m)
        st.known[lid] = v != neg
        if m2 is None:
            return v, None
        return v, m2

    def _exec(self, st, stack):
        deadline = time.time() + (self.deadline or 10 ** 9)
        while True:
            fr = st.frames[-1]
            fn = fr.fn
            K = fn.K
            if K is None:
                K = fn.bind()
                self.used.add(fn.name[1:])
            R = fr.R
            code, kind = fn.segs[fr.blk][fr.si]
            st.dpos = 0
            snapshot = None
            try:
                r = code(R, st, K)
            except _Fork as f:
                # decide inside the segment: redo it with one more recorded decision on each side.
                c = f.cond
                val = getattr(f, "value", None)
                v, m2 = self._branch(st, stack, c)
                if m2 is not None:
                    s2 = st.clone()
                    s2.pc.append(z3.Not(c) if v else c)
                    s2.flip(c, not v)
                    s2.model = m2
                    s2.decisions = list(st.decisions) + [(val, not v) if val is not None else (not v)]
                    stack.append(s2)
                    st.pc.append(c if v else z3.Not(c))
                st.decisions.append((val, v) if val is not None else v)
                continue
            if kind != "call":
                st.decisions = []
            st.steps += 1
            if kind == "term":
                if r.__class__ is tuple:
                    c, t, f = r
                    v, m2 = self._branch(st, stack, c)
                    if m2 is not None:
                        s2 = st.clone()
                        s2.pc.append(z3.Not(c) if v else c)
                        s2.flip(c, not v)
                        s2.model = m2
                        self._goto(s2, s2.frames[-1], f if v else t)
                        stack.append(s2)
                        st.pc.append(c if v else z3.Not(c))
                    r = t if v else f
                self._goto(st, fr, r)
                if st.steps & 0xfff == 0 and time.time() > deadline:
                    raise Inconclusive("path too long")
            elif kind == "ret":
                st.frames.pop()
                for o in fr.allocs:
                    st.mem.pop(o, None)
                if not st.frames:
                    st.retval = r
                    return
                if fr.ret is not None:
                    st.frames[-1].R[fr.ret] = r
            else:
                tgt, dst, args = r
                fr.si += 1
                mod = fn.mod
                if tgt.__class__ is FnPtr:
                    mod, tgt = tgt.mod, tgt.name
                elif tgt.__class__ is not str:
                    raise Inconclusive("call through %r" % (tgt,))
                ext = EXT.get(tgt) or self.externs.get(tgt[1:])
                if ext is not None:
                    # externs may fork: redo this call
                    try:
                        v = ext(st, args)
                    except _Fork as f:
                        fr.si -= 1
                        c = f.cond
                        val = getattr(f, "value", None)
                        b, m2 = self._branch(st, stack, c)
                        if m2 is not None:
                            s2 = st.clone()
                            s2.pc.append(z3.Not(c) if b else c)
                            s2.flip(c, not b)
                            s2.model = m2
                            s2.decisions = list(st.decisions) + [(val, not b) if val is not None else (not b)]
                            stack.append(s2)
                            st.pc.append(c if b else z3.Not(c))
                        st.decisions.append((val, b) if val is not None else b)
                        continue
                    st.decisions = []
                    if dst is not None:
                        R[dst] = v
                    continue
                st.decisions = []
                g = self.fn(tgt, mod)
                if g is None:
                    raise Inconclusive("call of undefined function %s" % tgt)
                if self.alg is not None and dst is not None:
                    v = self.alg.call(st, g, args)
                    if v is not None:
                        R[dst] = v
                        continue
                R2 = [None] * g.nregs
                nf = Frame(g, R2, g.entry, 0, dst)
                st.frames.append(nf)
                for i, (pr, a) in enumerate(zip(g.params, args)):
                    if i in g.byval:
                        q = st.alloc(g.byval[i].size, "byval")
                        st.memmove(q, a, g.byval[i].size)
                        a = q
                    R2[pr] = a

    def _goto(self, st, fr, to):
        e = fr.fn.edges.get((fr.blk, to))
        if e is not None:
            e(fr.R, st, fr.fn.K)
        fr.blk, fr.si = to, 0


# ------------------------------------------------------------------ harness externs
def _inp(w):
    def g(st, args):
        v = sc.var("in%d_%d" % (len(st.inputs), w), w)
        st.inputs.append((v, w))
        return v
    return g


def _check(st, args):
    c, p = args
    msg = st.cstr(p)
    bad = sc.eq(c, 0, 32)
    st.prog.report(st, bad, msg)


def _assume(st, args):
    st.assume(sc.b_not(sc.eq(args[0], 0, 32)))


def _witness(st, args):
    c, p = args
    msg = st.cstr(p)
    pr = st.prog
    if pr.witness.get(msg):
        return
    pr.witness.setdefault(msg, None)
    cond = sc.b_not(sc.eq(c, 0, 32))
    if cond is False:
        return
    m = st.get_model() if cond is True else pr.solver.check(st.pc, cond, base=st.get_model())
    if m is not None:
        pr.witness[msg] = [sc.model_val(m, v, w) for v, w in st.inputs]
        if pr.alg is not None:
            pr.witness_alt.setdefault(msg, []).extend(pr.alg.complete(m, st, k) for k in (0, 1, 2))
            pr.witness_alt[msg] += [pr.alg.random_inputs(st, k) for k in range(6)]


def _memcmp(st, args):
    a, b, n = args
    n = st.concretize(n, 64)
    r = 0
    for i in reversed(range(n)):
        x, y = st.load(PADD(a, i), 1, 8), st.load(PADD(b, i), 1, 8)
        r = sc.ite(sc.eq(x, y, 8), r, sc.ite(sc.ult(x, y, 8), 0xffffffff, 1, 32), 32)
    return r


def _conc(w):
    def g(st, args):
        return st.concretize(args[0], w)
    return g


def _bcmp(st, args):
    return _memcmp(st, args)


def _memcpy(st, args):
    st.memmove(args[0], args[1], args[2])
    return args[0]


def _memset(st, args):
    st.memset(args[0], sc.extract(args[1], 0, 8), args[2])
    return args[0]


EXT = {"@memcpy": _memcpy, "@memmove": _memcpy, "@memset": _memset, "@vp_u8": _inp(8), "@vp_u16": _inp(16), "@vp_u32": _inp(32), "@vp_u64": _inp(64), "@vp_check": _check,
       "@vp_assume": _assume, "@vp_witness": _witness, "@memcmp": _memcmp, "@vp_conc": _conc(32), "@vp_conc64": _conc(64), "@bcmp": _bcmp}

"""Forward interprocedural value-flow analysis over the extracted program.

Every function body is visited as structured code.  Joins become gated `ite`
values, loops become closed-form `map`/`fold` values plus bounded universal
facts, in-program callees are inlined (so extracting or inlining a helper does
not change the result), and everything else is an uninterpreted call.
"""
import re

from names import strip
from program import AnalysisError
from terms import *
import terms as tm


class State(object):
    __slots__ = ("vars", "facts", "pc")

    def __init__(self, vars=None, facts=None, pc=()):
        self.vars = vars if vars is not None else {}
        self.facts = facts if facts is not None else Facts()
        self.pc = pc

    def copy(self, *extra):
        s = State(dict(self.vars), self.facts, self.pc)
        if extra:
            s.assume(*extra)
        return s

    def assume(self, *cs):
        cs = [c for c in cs if c is not TRUE]
        if cs:
            self.facts = self.facts.add(*cs)
            self.pc = self.pc + tuple(cs)

    def set(self, o):
        self.vars, self.facts, self.pc = o.vars, o.facts, o.pc

    @property
    def dead(self):
        return self.facts.bottom


class Frame(object):
    __slots__ = ("id", "fn", "tu", "this", "parent", "alias", "rettype")

    def __init__(self, id, fn, tu, this=None, parent=None):
        self.id, self.fn, self.tu, self.this, self.parent = id, fn, tu, this, parent
        self.alias = {}


class Event(object):
    __slots__ = ("name", "args", "facts", "loc", "result", "stack", "loops",
                 "node", "obj", "n")


class Obligation(object):
    __slots__ = ("label", "term", "facts", "loc", "ok", "stack", "detail", "loops")


def ref(root, *path):
    return T("ref", root, tuple(path))


def ptr_add(p, *elems):
    if p.op == "ref":
        return T("ref", p.args[0], p.args[1] + tuple(elems))
    if p.op == "ite":
        return ite(p.args[0], ptr_add(p.args[1], *elems), ptr_add(p.args[2], *elems))
    return T("ref", ("deref", p), tuple(elems))


class NoModel(Exception):
    pass


OPTIONS = ("opaque", "replace", "okfns", "wrap", "straight", "budget", "alloc", "recursion", "effort",
           "lemmas")


def options(sc):
    return {k: v for k, v in sc.items() if k in OPTIONS}


def float_arith(op, a, b):
    if a.op == "flt" and b.op == "flt":
        x, y = float(a.args[0]), float(b.args[0])
        if op in "+-*" or op == "/" and y != 0:
            v = x + y if op == "+" else x - y if op == "-" else x * y if op == "*" else x / y
            return T("flt", repr_float(v))
    if op == "-" and a is b and finite(a):
        return T("flt", "0")
    if op in "+-" and (exact_int(a) is not None and exact_int(b) is not None):
        return T("call", "i2f", (add if op == "+" else sub)(exact_int(a), exact_int(b)))
    for x, y, k in ((a, b, 0), (b, a, 1)):
        if x.op == "ite":
            u, v = [float_arith(op, *((z, y) if not k else (y, z))) for z in x.args[1:]]
            return ite(x.args[0], u, v)
    return T("call", "f" + op, a, b)


def repr_float(v):
    return str(int(v)) if v == int(v) and abs(v) < 1 << 63 else repr(v)


def exact_int(x):
    """the integer whose value x is, if every step up to here was exact"""
    if x.op == "flt" and "." not in x.args[0] and "e" not in x.args[0].lower():
        v = I(int(x.args[0]))
    elif x.op == "call" and x.args[0] == "i2f":
        v = x.args[1]
    else:
        return None
    lo, hi = interval(v)
    return v if lo is not None and hi is not None and -lo < 1 << 50 and hi < 1 << 50 else None


def finite(x):
    """built from constants and integers: never NaN or infinite"""
    if x.op == "flt" or x.op == "call" and x.args[0] == "i2f":
        return True
    if x.op == "ite":
        return finite(x.args[1]) and finite(x.args[2])
    return x.op == "call" and x.args[0] in ("f+", "f-", "f*") and all(finite(y) for y in x.args[1:])


def float_to_int(v):
    if v.op == "flt":
        x = float(v.args[0])
        if x == x and abs(x) < 1 << 63:
            return I(int(x))
    if v.op == "ite":
        return ite(v.args[0], float_to_int(v.args[1]), float_to_int(v.args[2]))
    return T("call", "f2i", v)


def float_compare(op, a, b):
    for x, y, k in ((a, b, 0), (b, a, 1)):
        if x.op == "ite":
            u, v = [float_compare(op, *((z, y) if not k else (y, z))) for z in x.args[1:]]
            return b_or(b_and(x.args[0], u), b_and(b_not(x.args[0]), v))
    if a is b and finite(a):
        return TRUE if op in ("==", "<=", ">=") else FALSE
    if op == "!=":
        return b_not(float_compare("==", a, b))
    if op in (">", ">="):
        return float_compare("<" if op == ">" else "<=", b, a)
    if a.op == "flt" and b.op == "flt":
        x, y = float(a.args[0]), float(b.args[0])
        return TRUE if (x == y if op == "==" else x <= y if op == "<=" else x < y) else FALSE
    num = [b_not(T("batom", T("call", "isnan", x))) for x in (a, b) if not number(x)]
    if op == "==":
        return T("batom", T("call", "feq", a, b))
    # one atom for a <= b and !(b < a); every comparison with NaN is false
    if op == "<":
        return b_and(*(num + [b_not(T("batom", T("call", "f<=", b, a)))]))
    return b_and(*(num + [T("batom", T("call", "f<=", a, b))]))


def number(x):
    """never NaN"""
    if x.op == "flt":
        return x.args[0].lower() not in ("nan", "-nan")
    return finite(x) or x.op == "call" and x.args[0] in ("ceil", "floor") and number(x.args[1])


class Interp(object):
    MAXDEPTH = 60

    def __init__(self, prog, opaque=(), handlers=None, budget=400000,
                 replace=None, okfns=(), wrap=False, straight=None, alloc=False, recursion=2, effort=4000,
                 lemmas=True):
        self.lemmas = lemmas  # what was proved is used from there on
        self.prog = prog
        self.types = prog.types
        self.opaque = [re.compile(x) for x in opaque]
        self.handlers = handlers or {}
        self.replace = [(re.compile(k), v) for k, v in (replace or {}).items()]
        self.okfns = [re.compile(x) for x in okfns]
        self.alloc = alloc    # allocation succeeds
        self.wrap = wrap      # unsigned arithmetic is modulo 2^width
        self.events = []
        self.obligations = []
        self.trial = 0
        self.depth = 0        # loop nesting depth (names bound variables)
        self.rounds = {}      # depth -> iteration of an unrolled loop
        self.nframe = 0
        self.nev = 0
        self.nroot = 0
        self.stack = []
        self.loops = []
        self.rootcls = {}
        self.aligned = set()
        self.lams = {}
        self.lamids = {}
        self.visited = set()
        self.callsites = set()
        self.steps = 0
        self.budget = budget
        self.effort = effort
        self.notes = set()
        self.safety = None        # predicate(kind, frame, stack) or None
        self.safeties = []
        self.safety_ok = 0
        self.unroll = 4
        self.straight = straight or 16
        self.recursion = recursion
        self.over = {}
        self.track_calls = None   # optional callback(fnode, args, st)
        import models
        self.models = models.Models(self)

    # ------------------------------------------------------------- types
    def ty(self, i):
        if i is None or i < 0:
            return {"k": "other", "s": "?"}
        return self.types[i]

    def deref_ty(self, t):
        return self.ty(t["p"]) if t["k"] in ("ref", "rref") else t

    def isint(self, t):
        return t["k"] in ("int", "enum") or self.is128(t)

    def is128(self, t):
        return t["k"] == "rec" and t["n"] in ("absl::uint128", "absl::int128")

    def intinfo(self, t):
        if t["k"] == "int":
            return t["w"], t["sg"]
        if t["k"] == "enum":
            return 32, True
        if self.is128(t):
            return 128, t["n"] == "absl::int128"
        if t["k"] == "bool":
            return 1, False
        return None

    def typed(self, v, t):
        """give an opaque value the range / boolean shape of its type"""
        k = t["k"]
        if k == "bool":
            return self.as_bool(v)
        ii = self.intinfo(t)
        if ii:
            if v.op == "zero":
                return ZERO
            if is_bool(v):
                return ite(v, ONE, ZERO)
            w, sg = ii
            if v.op not in ("int", "lin", "ite"):
                if not sg:
                    set_rng(v, 0, (1 << w) - 1)
                elif w <= 64:
                    set_rng(v, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        elif v.op == "zero" and k == "rec":
            return self.zero_of(t)
        elif v.op == "zero" and k == "ptr":
            return NULL
        elif v.op == "zero" and k == "float":
            return T("flt", "0")
        return v

    def as_bool(self, v):
        if is_bool(v):
            return v
        if v.op == "int":
            return B(v.args[0] != 0)
        if v.op == "zero":
            return FALSE
        if v.op == "ite":
            return b_ite(v.args[0], self.as_bool(v.args[1]), self.as_bool(v.args[2]))
        return T("batom", v)

    def zero_of(self, t):
        k = t["k"]
        if k == "bool":
            return FALSE
        if self.isint(t):
            return ZERO
        if k == "ptr":
            return NULL
        if k == "float":
            return T("flt", "0")
        if k == "arr":
            if "n" in t:
                return T("rep", I(t["n"]), self.zero_of(self.ty(t["p"])))
            return EMPTY
        if k == "rec":
            n = strip(t["n"])
            if n in LISTS:
                if n == "std::array":
                    a = t.get("a") or []
                    if len(a) == 2 and isinstance(a[0], int):
                        return T("rep", I(int(a[1])), self.zero_of(self.ty(a[0])))
                return EMPTY
            if n in ("std::unique_ptr", "std::shared_ptr", "absl::AnyInvocable",
                     "std::function"):
                return NULL
            if n in ("std::optional", "absl::optional"):
                return T("nullopt")
            if n == "absl::Status":
                return OKST
            if n in MAPS:
                return T("emptymap")
            return T("zero", n)
        return T("zero", t["s"])

    # ------------------------------------------------------------- memory
    def fresh_root(self, kind, cls=None):
        self.nroot += 1
        r = (kind, self.nroot)
        if cls:
            self.rootcls[r] = cls
        return r

    def root_value(self, root, st):
        v = st.vars.get(root)
        if v is None:
            if root[0] == "deref":
                v = T("fld", root[1], "*")
            else:
                v = T("undef", str(root))
            st.vars[root] = v
        return v

    def walk(self, v, path, facts):
        for e in path:
            if v.op == "ite":
                v = facts.simp(v)
            if e[0] == "f":
                v = getf(v, e[1])
            elif e[0] == "i":
                v = getidx(v, e[1], facts)
            elif e[0] == "u":
                v = unwrap(v)
            elif e[0] == "o":
                v = T("list", v)
        return v

    def read(self, p, st):
        if p.op == "ref":
            v = self.walk(self.root_value(p.args[0], st), p.args[1], st.facts)
            if v.op == "ite":
                v = st.facts.simp(v)
            return v
        if p.op == "ite":
            c = st.facts.simp(p.args[0])
            if c is TRUE:
                return self.read(p.args[1], st)
            if c is FALSE:
                return self.read(p.args[2], st)
            if p.args[1] is NULL:
                return self.read(p.args[2], st)
            if p.args[2] is NULL:
                return self.read(p.args[1], st)
            return ite(c, self.read(p.args[1], st), self.read(p.args[2], st))
        q = self.joined(p)
        if q is not None:
            # an integer of several bytes (little-endian)
            return T("word", *[self.read(self.ptr_off(q[0], I(j)), st) for j in range(q[1])])
        if p.op == "bitcast":
            return T("bytesof", self.read(p.args[0], st), p.args[1])
        return self.root_value(("deref", p), st)

    @staticmethod
    def byte_ref(p, off):
        return ptr_add(T("ref", p.args[0], p.args[1][:-1]), ("i", add(p.args[1][-1][1], off)))

    def joined(self, p):
        """(pointer to the first byte, number of bytes) of an integer read from bytes"""
        k, b = ZERO, p
        if p.op == "ptroff":
            k, b = p.args[1], p.args[0]
        if b.op == "bitcast" and b.args[2] is ONE and b.args[3].op == "int" and \
                1 < b.args[3].args[0] <= 16 and b.args[0].op == "ref" and b.args[0].args[1] and \
                b.args[0].args[1][-1][0] == "i":
            return self.byte_ref(b.args[0], mul(k, b.args[3])), b.args[3].args[0]
        return None

    def upd(self, v, path, val, facts):
        if not path:
            return val
        if v.op == "ite":
            v = facts.simp(v)
        e = path[0]
        if e[0] == "f":
            return setf(v, e[1], self.upd(getf(v, e[1]), path[1:], val, facts))
        if e[0] == "i":
            return setidx(v, e[1], self.upd(getidx(v, e[1], facts), path[1:], val, facts))
        if e[0] == "u":
            return T("val", self.upd(unwrap(v), path[1:], val, facts))
        if e[0] == "o":
            # the object as an array of one element
            return getidx(self.upd(T("list", v), path[1:], val, facts), ZERO, facts)
        raise AnalysisError("path")

    def write(self, p, val, st):
        if p.op == "ref":
            root, path = p.args
            cur = self.root_value(root, st)
            st.vars[root] = self.upd(cur, path, val, st.facts)
            return
        if p.op == "ite":
            c = st.facts.simp(p.args[0])
            if c is not FALSE:
                a = p.args[1]
                if a is not NULL:
                    self.write(a, ite(c, val, self.read(a, st)), st)
            if c is not TRUE:
                b = p.args[2]
                if b is not NULL:
                    self.write(b, ite(c, self.read(b, st), val), st)
            return
        q = self.joined(p)
        if q is not None and val.op == "word" and len(val.args) == q[1]:
            for j, x in enumerate(val.args):
                self.write(self.ptr_off(q[0], I(j)), x, st)
            return
        if p.op == "bitcast":
            self.write(p.args[0], T("frombytes", val, self.read(p.args[0], st)), st)
            return
        st.vars[("deref", p)] = val

    def temp(self, v, st, cls=None):
        r = self.fresh_root("t", cls)
        st.vars[r] = v
        return ref(r)

    # ------------------------------------------------------------- merging
    def merge(self, c, a, b, base_facts, base_pc):
        """state that is a where c, b elsewhere"""
        if a.dead and b.dead:
            s = State(a.vars, a.facts, base_pc)
            return s
        if a.dead:
            return State(b.vars, b.facts, base_pc)
        if b.dead:
            return State(a.vars, a.facts, base_pc)
        out = {}
        va, vb = a.vars, b.vars
        for k, x in va.items():
            y = vb.get(k)
            if y is None or x is y:
                out[k] = x
            else:
                out[k] = ite(c, x, y)
        for k, y in vb.items():
            if k not in va:
                out[k] = y
        base = set(base_facts.lits) | set(base_facts.clauses)
        nc = b_not(c)
        add_ = []
        ea = [t for t in a.facts.all() if t not in base]
        eb = [t for t in b.facts.all() if t not in base]
        seta, setb = set(ea), set(eb)
        for t in ea:
            if t in setb:
                add_.append(t)
            elif t is not c:
                x = b_or(nc, t)
                if x is not TRUE:
                    add_.append(x)
        for t in eb:
            if t not in seta and t is not nc:
                x = b_or(c, t)
                if x is not TRUE:
                    add_.append(x)
        f = base_facts.add(*add_) if add_ else base_facts
        return State(out, f, base_pc)

    def merge_exits(self, exits, base_facts, base_pc):
        """exits: [(guard tuple, value, state)] in program order -> (value, state)"""
        live = [e for e in exits if not e[2].dead]
        if not live:
            if not exits:
                return None, None
            g, v, s = exits[-1]
            return v, State(s.vars, s.facts, base_pc)
        g, v, s = live[-1]
        acc_v = v
        acc = State(s.vars, s.facts, base_pc)
        for g, v, s in reversed(live[:-1]):
            c = b_and(*g) if g else TRUE
            if acc_v is not None and v is not None:
                acc_v = ite(c, v, acc_v)
            acc = self.merge(c, s, acc, base_facts, base_pc)
        return acc_v, acc

    # ------------------------------------------------------------- variables
    def var_ptr(self, node, fr, st):
        if node.get("lo") or node.get("pa"):
            vid = node["id"]
            f = fr
            while f is not None:
                if vid in f.alias:
                    return f.alias[vid]
                if ("v", f.id, vid) in st.vars:
                    return ref(("v", f.id, vid))
                f = f.parent
            return ref(("v", fr.id, vid))
        q = node.get("q") or node["n"]
        root = ("g", q)
        if root not in st.vars:
            gv = self.prog.vars.get(q)
            val = None
            if gv is not None and gv.get("init") is not None:
                t = self.ty(gv["t"])
                if t.get("const") or gv.get("constexpr"):
                    try:
                        val = self.rval(gv["init"], st, fr)
                    except NoModel:
                        val = None
            if val is None:
                val = T("sym", "global:" + q)
            st.vars[root] = val
        return ref(root)

    def declare(self, d, st, fr, val):
        """bind a declared variable to a value (pointer term for references)"""
        t = self.ty(d["t"])
        root = ("v", fr.id, d["id"])
        if t["k"] in ("ref", "rref"):
            fr.alias[d["id"]] = val
        else:
            fr.alias.pop(d["id"], None)
            st.vars[root] = val
            if self.isint(t) or t["k"] == "bool":
                self.rootcls[root] = t

    # ------------------------------------------------------------- expressions
    def rval(self, node, st, fr):
        v = self.E(node, st, fr)
        if node.get("lv"):
            v = self.read(v, st)
            v = self.typed(v, self.ty(node["t"]))
        return v

    def lval(self, node, st, fr):
        """pointer to the object node denotes; temporaries get a root"""
        v = self.E(node, st, fr)
        if node.get("lv"):
            return v
        t = self.ty(node["t"])
        return self.temp(v, st, t["n"] if t["k"] == "rec" else None)

    def E(self, node, st, fr):
        self.steps += 1
        if self.steps > self.budget:
            raise AnalysisError("step budget exceeded in %s" %
                                (self.stack[-1][0] if self.stack else "?"))
        if self.over and id(node) in self.over:
            return self.over[id(node)]
        return getattr(self, "e_" + node["k"])(node, st, fr)

    def e_int(self, n, st, fr):
        t = self.ty(n["t"])
        v = int(n["v"])
        if t["k"] == "bool":
            return B(v != 0)
        return I(v)

    def e_float(self, n, st, fr):
        return T("flt", n["v"])

    def e_str(self, n, st, fr):
        v = T("str", n["v"])
        if n.get("lv"):
            r = ("lit", n["v"])
            st.vars[r] = v
            return ref(r)
        return v

    def e_null(self, n, st, fr):
        return NULL

    def e_zero(self, n, st, fr):
        return self.zero_of(self.ty(n["t"]))

    def e_fref(self, n, st, fr):
        f = T("fn", n["m"], n["fn"])
        if n.get("lv"):
            r = ("fn", n["m"])
            st.vars[r] = f
            return ref(r)
        return f

    def e_var(self, n, st, fr):
        return self.var_ptr(n, fr, st)

    def e_this(self, n, st, fr):
        f = fr
        while f is not None:
            if f.this is not None:
                return f.this
            f = f.parent
        return T("sym", "this")

    def e_mem(self, n, st, fr):
        b = n["b"]
        f = n["f"]
        if f in ("first", "second") and strip(n.get("cls", "")) in (
                "std::pair", "std::__pair_base"):
            f = "0" if f == "first" else "1"
        if n.get("arrow"):
            p = self.rval(b, st, fr)
            p = self.ptr_add_typed(p, b)
        else:
            if not b.get("lv"):
                v = self.E(b, st, fr)
                if n.get("lv"):
                    return ptr_add(self.temp(v, st), ("f", f))
                return getf(v, f)
            p = self.E(b, st, fr)
        r = ptr_add(p, ("f", f))
        ft = self.ty(n.get("ft", -1))
        if ft["k"] in ("ref", "rref"):
            return self.read(r, st)
        return r

    def ptr_add_typed(self, p, node):
        return p

    def e_tmp(self, n, st, fr):
        e = n["e"]
        v = self.E(e, st, fr)
        if e.get("lv"):
            return v
        t = self.ty(e["t"])
        return self.temp(v, st, t["n"] if t["k"] == "rec" else None)

    def e_cast(self, n, st, fr):
        ck = n["ck"]
        e = n["e"]
        t = self.ty(n["t"])
        if ck == "LValueToRValue":
            v = self.read(self.E(e, st, fr), st)
            return self.typed(v, t)
        if ck == "IntegralCast":
            v = self.rval(e, st, fr)
            if t["k"] == "int" and self._fits(e, t):
                return v
            return self.icast(v, self.ty(e["t"]), t, st.facts)
        if ck == "IntegralToBoolean":
            v = self.rval(e, st, fr)
            if is_bool(v):
                return v
            return b_not(ieq(v, ZERO))
        if ck == "PointerToBoolean":
            v = self.rval(e, st, fr)
            return b_not(eq(v, NULL))
        if ck in ("ToVoid",):
            self.E(e, st, fr)
            return VOID
        if ck in ("ArrayToPointerDecay",):
            if e["k"] == "str":
                return self.E(e, st, fr) if e.get("lv") else self.temp(self.E(e, st, fr), st)
            p = self.lval(e, st, fr)
            return ptr_add(p, ("i", ZERO))
        if ck in ("NullToPointer",):
            return NULL
        if ck in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            v = self.E(e, st, fr)
            return self.read(v, st) if e.get("lv") else v
        if ck in ("IntegralToFloating", "FloatingToIntegral", "FloatingCast",
                  "FloatingToBoolean"):
            v = self.rval(e, st, fr)
            if ck == "IntegralToFloating":
                if v.op == "int":
                    return T("flt", repr_float(float(v.args[0])))
                return T("call", "i2f", v)
            if ck == "FloatingToIntegral":
                return self.typed(float_to_int(v), t)
            if ck == "FloatingToBoolean":
                return T("batom", T("call", "f2b", v))
            return v
        if ck in ("BitCast", "ReinterpretMemberPointer", "LValueBitCast"):
            v = self.E(e, st, fr)
            if ck == "LValueBitCast":
                return self.bitcast(v, self.ty(e["t"]), t, t["s"])
            if v is NULL:
                return v
            a = self.ty(e["t"])
            if t["k"] == "ptr" and self.ty(t["p"])["k"] == "void":
                return v
            if v.op == "bitcast":
                y = self.ty(t["p"]) if t["k"] == "ptr" else t
                if self.bytewidth(y) is v.args[2] and self.intinfo(y):
                    return v.args[0]
                return T("bitcast", v.args[0], t["s"], v.args[2], self.bytewidth(y))
            if a["k"] == "ptr" and t["k"] == "ptr":
                x, y = self.ty(a["p"]), self.ty(t["p"])
                if v.op == "ptroff":
                    # back to a whole number of elements
                    b = v.args[0]
                    k = tm._divided(mul(v.args[1], b.args[3]), b.args[2].args[0]) \
                        if b.args[2].op == "int" else None
                    if k is not None:
                        q = self.ptr_off(b.args[0], k)
                        return q if self.bytewidth(y) is b.args[2] else \
                            self.bitcast(q, T("call", "any"), y, t["s"], b.args[2])
                if x["k"] == "int" and y["k"] == "int" and x.get("w") == y.get("w"):
                    return v
                return self.bitcast(v, x, y, t["s"])
            return v
        if ck == "PointerToIntegral":
            v = self.rval(e, st, fr)
            a = self.ty(e["t"])
            w = self.bytewidth(self.ty(a["p"])) if a["k"] == "ptr" else None
            return self.address(v, w if w is not None and w.op == "int" else None, t)
        # NoOp, DerivedToBase, UncheckedDerivedToBase, BaseToDerived, ...
        return self.E(e, st, fr)

    def bytewidth(self, t):
        ii = self.intinfo(t)
        if not ii and t.get("sz") and t.get("n") == "distributed_point_functions::XorWrapper":
            return I(t["sz"])
        return I(1 if t["k"] == "bool" else ii[0] // 8) if ii else T("call", "sizeof", t["s"])

    def bitcast(self, v, x, y, s, w=None):
        if v.op == "ite":
            return ite(v.args[0], self.bitcast(v.args[1], x, y, s, w), self.bitcast(v.args[2], x, y, s, w))
        return T("bitcast", v, s, w or self.bytewidth(x), self.bytewidth(y))

    def address(self, p, w, t):
        """the address p points to; w: size of the elements"""
        if p.op == "ite":
            return ite(p.args[0], self.address(p.args[1], w, t), self.address(p.args[2], w, t))
        if p.op == "ptroff":
            return add(self.address(p.args[0], w, t), mul(p.args[1], p.args[0].args[3]))
        if p.op == "bitcast" and p.args[2].op == "int":
            return self.address(p.args[0], p.args[2], t)
        if w is not None and p.op == "ref" and p.args[1] and p.args[1][-1][0] == "i":
            k = p.args[1][-1][1]
            return add(self.address(T("ref", p.args[0], p.args[1][:-1] + (("i", ZERO),)), None, t), mul(k, w))
        if p.op == "ref" and p.args[0] in self.aligned and p.args[1] == (("i", ZERO),):
            # Highway allocates at multiples of 128 bytes
            a = T("call", "p2i", p)
            set_rng(a, 0, (1 << 57) - 1)
            return scale(a, 128)
        return self.typed(T("call", "p2i", p), t)

    @staticmethod
    def byte_place(p):
        """the object a byte-wise pointer points into, the width of its elements
        and the offset in bytes"""
        off = ZERO
        if p.op == "ptroff":
            off, p = mul(p.args[1], p.args[0].args[3]), p.args[0]
        q, w = p.args[0], p.args[2]
        if q.op == "ref" and q.args[1] and q.args[1][-1][0] == "i":
            return T("ref", q.args[0], q.args[1][:-1]), w, add(off, mul(w, q.args[1][-1][1]))
        return q, ZERO, off

    def _fits(self, e, t):
        """whether e combines promoted values of type t bit by bit, so that
        converting it to t changes nothing"""
        while e["k"] in ("paren", "tmp"):
            e = e["e"]
        if e["k"] == "bin" and e["op"] in ("^", "&", "|"):
            return self._fits(e["a"], t) and self._fits(e["b"], t)
        if e["k"] == "cast" and e["ck"] == "IntegralCast":
            a = self.ty(e["e"]["t"])
            return a["k"] == "int" and a["w"] == t["w"] and a["sg"] == t["sg"] or \
                self._fits(e["e"], t)
        return False

    def icast(self, v, a, t, facts):
        if t["k"] == "bool":
            return self.as_bool(v)
        ii, aa = self.intinfo(t), self.intinfo(a)
        if is_bool(v):
            return ite(v, ONE, ZERO)
        if not ii:
            return v
        w, sg = ii
        if aa:
            w0, sg0 = aa
            if (sg0 == sg and w >= w0) or (sg and not sg0 and w > w0):
                return v
        return tm.cast(w, sg, v, facts)

    def e_un(self, n, st, fr):
        op = n["op"]
        e = n["e"]
        if op == "&":
            return self.lval(e, st, fr)
        if op == "*":
            return self.rval(e, st, fr)
        if op == "!":
            return b_not(self.as_bool(self.rval(e, st, fr)))
        if op == "-":
            v = self.rval(e, st, fr)
            t = self.ty(n["t"])
            return self.wrapped("-", neg(v), t, st) if self.isint(t) else T("call", "fneg", v)
        if op == "+":
            return self.rval(e, st, fr)
        if op == "~":
            return self.complement(self.rval(e, st, fr), self.ty(n["t"]))
        if op in ("++", "--"):
            p = self.E(e, st, fr)
            v = self.typed(self.read(p, st), self.ty(e["t"]))
            d = ONE if op == "++" else I(-1)
            if self.ty(e["t"])["k"] == "ptr":
                nv = self.ptr_off(v, d)
            else:
                nv = self.wrapped("+", add(v, d), self.ty(e["t"]), st)
            self.write(p, nv, st)
            if n.get("post"):
                return v
            return p if n.get("lv") else nv
        raise AnalysisError("unary " + op)

    def complement(self, v, t):
        ii = self.intinfo(t)
        if v.op == "int" and ii:
            return I(-1 - v.args[0] if ii[1] else ((1 << ii[0]) - 1) ^ v.args[0])
        return bnot(v)

    def ptr_off(self, p, k):
        if p.op == "ref" and p.args[1] and p.args[1][-1][0] == "i":
            path = p.args[1]
            return T("ref", p.args[0], path[:-1] + (("i", add(path[-1][1], k)),))
        if p.op == "ite":
            return ite(p.args[0], self.ptr_off(p.args[1], k), self.ptr_off(p.args[2], k))
        if p.op == "bitcast" and p.args[0].op == "ref":
            return T("ptroff", p, k)
        if p.op == "ptroff":
            return T("ptroff", p.args[0], add(p.args[1], k))
        if k is ZERO:
            return p
        return T("ref", ("deref", p), (("i", k),))

    def arith(self, op, a, b, t, facts=None):
        """t: type of the computation"""
        if t["k"] == "float":
            if op in ("<", ">", "<=", ">=", "==", "!="):
                pass
            return float_arith(op, a, b)
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            return div(a, b)
        if op == "%":
            return mod(a, b)
        if op == "<<":
            return shl(a, b)
        if op == ">>":
            return shr(a, b)
        if op == "^":
            if is_bool(a) or is_bool(b):
                a, b = self.as_bool(a), self.as_bool(b)
                return b_ite(a, b_not(b), b)
            return bxor(self.i1(a), self.i1(b))
        if op == "&":
            if is_bool(a) and is_bool(b):
                return b_and(a, b)
            if facts is not None:
                pass
            return band(self.i1(a), self.i1(b))
        if op == "|":
            if is_bool(a) and is_bool(b):
                return b_or(a, b)
            return bor(self.i1(a), self.i1(b))
        raise AnalysisError("arith " + op)

    def i1(self, v):
        return ite(v, ONE, ZERO) if is_bool(v) else v

    def compare(self, op, a, b, t):
        if t["k"] == "float":
            return float_compare(op, a, b)
        if self.isint(t):
            a, b = self.i1(a), self.i1(b)
            if op == "<":
                return lt(a, b)
            if op == "<=":
                return le(a, b)
            if op == ">":
                return lt(b, a)
            if op == ">=":
                return le(b, a)
            if op == "==":
                return ieq(a, b)
            if op == "!=":
                return b_not(ieq(a, b))
        if op == "==":
            return self.peq(a, b)
        if op == "!=":
            return b_not(self.peq(a, b))
        # pointer comparisons
        d = self.ptr_diff(a, b)
        if d is not None:
            return {"<": lt(d, ZERO), "<=": le(d, ZERO), ">": lt(ZERO, d),
                    ">=": le(ZERO, d)}[op]
        return T("batom", T("call", op, a, b))

    def ptr_diff(self, a, b):
        if a.op == "ref" and b.op == "ref" and a.args[0] == b.args[0]:
            pa, pb = a.args[1], b.args[1]
            if len(pa) == len(pb) and pa and pa[:-1] == pb[:-1] and pa[-1][0] == "i" and pb[-1][0] == "i":
                return sub(pa[-1][1], pb[-1][1])
        if a.op == "ite":
            x, y = self.ptr_diff(a.args[1], b), self.ptr_diff(a.args[2], b)
            if x is not None and y is not None:
                return ite(a.args[0], x, y)
        if b.op == "ite":
            x, y = self.ptr_diff(a, b.args[1]), self.ptr_diff(a, b.args[2])
            if x is not None and y is not None:
                return ite(b.args[0], x, y)
        return None

    def peq(self, a, b):
        if a.op == "mend" and b.op == "mit":
            a, b = b, a
        if a.op == "mit" and b.op == "mend":
            return b_not(a.args[2])
        d = self.ptr_diff(a, b)
        if d is not None:
            return ieq(d, ZERO)
        if a.op == "ref" and b.op == "ref" and a is not b:
            # distinct objects, unless paths contain symbolic indices
            if a.args[0] != b.args[0]:
                return T("eq", *sorted((a, b), key=lambda x: x.id))
        return eq(a, b)

    def e_bin(self, n, st, fr):
        op = n["op"]
        if op == "&&" or op == "||":
            a = self.as_bool(self.rval(n["a"], st, fr))
            a = st.facts.simp(a)
            if op == "&&" and a is FALSE or op == "||" and a is TRUE:
                return a
            if a is TRUE or a is FALSE:
                return self.as_bool(self.rval(n["b"], st, fr))
            s2 = st.copy(a if op == "&&" else b_not(a))
            b = self.as_bool(self.rval(n["b"], s2, fr))
            c = a if op == "&&" else b_not(a)
            if s2.vars != st.vars or s2.facts is not st.facts:
                same = all(s2.vars.get(k) is v for k, v in st.vars.items())
                if not same:
                    m = self.merge(c, s2, st.copy(b_not(c)), st.facts, st.pc)
                    st.set(m)
                else:
                    for k, v in s2.vars.items():
                        if k not in st.vars:
                            st.vars[k] = v
                    base = set(st.facts.all())
                    ex = [b_or(b_not(c), t) for t in s2.facts.all()
                          if t not in base and t is not c]
                    ex = [x for x in ex if x is not TRUE]
                    if ex:
                        st.facts = st.facts.add(*ex)
            return b_and(a, b) if op == "&&" else b_or(a, b)
        if op == ",":
            self.E(n["a"], st, fr)
            return self.E(n["b"], st, fr)
        a = self.rval(n["a"], st, fr)
        b = self.rval(n["b"], st, fr)
        ta, tb = self.ty(n["a"]["t"]), self.ty(n["b"]["t"])
        if op in ("<", "<=", ">", ">=", "==", "!="):
            return self.compare(op, a, b, ta)
        if ta["k"] == "ptr" and tb["k"] == "ptr" and op == "-":
            d = self.ptr_diff(a, b)
            return d if d is not None else T("call", "ptrdiff", a, b)
        if ta["k"] == "ptr":
            return self.ptr_off(a, b if op == "+" else neg(b))
        if tb["k"] == "ptr":
            return self.ptr_off(b, a)
        t = self.ty(n["t"])
        return self.typed(self.wrapped(op, self.arith(op, a, b, t, st.facts), t, st), t)

    def wrapped(self, op, v, t, st):
        """the result of an unsigned operation, reduced to its width"""
        if not self.wrap or op not in ("+", "-", "*", "<<"):
            return v
        ii = self.intinfo(t)
        if not ii or ii[1] or t["k"] == "bool":
            return v
        return tm.cast(ii[0], False, v, st.facts)

    def e_assign(self, n, st, fr):
        v = self.rval(n["b"], st, fr)
        p = self.E(n["a"], st, fr)
        self.write(p, v, st)
        return p if n.get("lv") else v

    def e_opassign(self, n, st, fr):
        b = self.rval(n["b"], st, fr)
        p = self.E(n["a"], st, fr)
        ta = self.ty(n["a"]["t"])
        a = self.typed(self.read(p, st), ta)
        if ta["k"] == "ptr":
            v = self.ptr_off(a, b if n["op"] == "+" else neg(b))
        elif ta["k"] == "bool":
            v = self.as_bool(self.arith(n["op"], a, b, {"k": "int"}))
        else:
            ct = self.ty(n["ct"])
            v = self.wrapped(n["op"], self.arith(n["op"], self.i1(a), self.i1(b), ct), ct, st)
            if self.wrap and self.isint(ta) and self.isint(ct):
                v = self.icast(v, ct, ta, st.facts)
        self.write(p, v, st)
        return p if n.get("lv") else v

    def e_cond(self, n, st, fr):
        c = st.facts.simp(self.as_bool(self.rval(n["c"], st, fr)))
        if c is TRUE:
            return self._cx(n, n["a"], st, fr)
        if c is FALSE:
            return self._cx(n, n["b"], st, fr)
        sa, sb = st.copy(c), st.copy(b_not(c))
        a = self._cx(n, n["a"], sa, fr)
        b = self._cx(n, n["b"], sb, fr)
        st.set(self.merge(c, sa, sb, st.facts, st.pc))
        return ite(c, a, b)

    def _cx(self, n, e, st, fr):
        v = self.E(e, st, fr)
        if e.get("lv") and not n.get("lv"):
            v = self.read(v, st)
        if n.get("lv") and not e.get("lv"):
            v = self.temp(v, st)
        return v

    def e_sub(self, n, st, fr):
        b = self.rval(n["b"], st, fr)
        i = self.rval(n["i"], st, fr)
        return self.ptr_off(b, i)

    def e_ilist(self, n, st, fr):
        t = self.ty(n["t"])
        if t["k"] == "rec" and len(n["a"]) == 1:
            u = self.ty(n["a"][0]["t"])
            if u["k"] == "rec" and u["n"] == t["n"] and strip(t["n"]) not in LISTS:
                return self.rval(n["a"][0], st, fr)   # T{x} for an x of type T
        if t["k"] == "rec" and "fn" in n and strip(t["n"]) != "std::array" and \
                strip(t["n"]) not in LISTS:
            d = {}
            for f, x in zip(n["fn"], n["a"]):
                v = self.rval(x, st, fr)
                if f == "<base>":
                    continue
                d[f] = v
            return mk_with(self.zero_of(t), d)
        if t["k"] == "rec" and strip(t["n"]) == "std::array":
            a = n["a"]
            if len(a) == 1 and a[0]["k"] == "ilist":
                return self.e_ilist(a[0], st, fr)
            if not a:
                return self.zero_of(t)
        if t["k"] in ("int", "bool", "ptr", "enum", "float"):
            if n["a"]:
                return self.rval(n["a"][0], st, fr)
            return self.zero_of(t)
        vals = [self.rval(x, st, fr) for x in n["a"]]
        if t["k"] == "arr" and "n" in t and len(vals) < t["n"]:
            z = self.zero_of(self.ty(t["p"]))
            if t["n"] <= 64:
                vals += [z] * (t["n"] - len(vals))
            elif not vals:
                return T("rep", I(t["n"]), z)
        return T("list", *vals)

    def e_arrcopy(self, n, st, fr):
        return self.rval(n["e"], st, fr)

    def e_new(self, n, st, fr):
        t = self.ty(n["at"])
        cls = t.get("n") if t["k"] == "rec" else None
        root = self.fresh_root("h", t["s"] if cls else None)
        if n.get("n") is not None:
            k = self.rval(n["n"], st, fr)
            st.vars[root] = T("rep", k, T("undef", "new[]"))
            return ref(root, ("i", ZERO))
        p = ref(root)
        st.vars[root] = self.zero_of(t)
        if n.get("e") is not None:
            if n["e"]["k"] == "ctor":
                self.construct(n["e"], p, st, fr)
            else:
                self.write(p, self.rval(n["e"], st, fr), st)
        return p

    def e_delete(self, n, st, fr):
        self.rval(n["e"], st, fr)
        return VOID

    def e_lambda(self, n, st, fr):
        caps = {}
        for c in n["caps"]:
            if c.get("this"):
                continue
            if c.get("byref"):
                caps[c["id"]] = ("ref", self.E(c["e"], st, fr))
            else:
                caps[c["id"]] = ("val", self.rval(c["e"], st, fr) if c.get("e") else VOID)
        # values captured by copy are part of the closure term, so that
        # renaming and merging act on them
        refs = tuple((c, v) for c, (k, v) in caps.items() if k == "ref")
        key = (id(n), fr.id, refs)
        lid = self.lamids.get(key)
        if lid is None:
            lid = self.lamids[key] = len(self.lamids)
            self.lams[lid] = (n, fr, refs, tuple(c for c, (k, v) in caps.items() if k != "ref"))
        return T("lam", lid, *(v for k, v in caps.values() if k != "ref"))

    def e_stmtexpr(self, n, st, fr):
        ex = self.exec(n["body"], st, fr)
        return VOID

    def e_inhctor(self, n, st, fr):
        return T("undef", "inhctor")

    def e_unk(self, n, st, fr):
        self.notes.add("unhandled expression %s" % n["cls"])
        for c in n["ch"]:
            self.E(c, st, fr)
        self.nev += 1
        return T("unk", n["cls"], self.nev)

    # ------------------------------------------------------------- construct
    def e_ctor(self, n, st, fr):
        t = self.ty(n["t"])
        if (n.get("cm") or n.get("mv")) and not self.user_ctor(n, fr):
            return self.rval(n["args"][0], st, fr)
        r = self.models.ctor(n, t, st, fr)
        if r is not None:
            return r
        f = self.prog.lookup(n["m"], fr.tu)
        if f is None:
            if not n["args"]:
                return self.default_construct(t, st, fr)
            self.notes.add("unmodelled constructor " + strip(n["cls"]))
            args = [self.rval(a, st, fr) for a in n["args"]]
            return T("call", "ctor:" + strip(n["cls"]), *args)
        p = self.temp(self.zero_of(t), st, t["s"])
        self.construct(n, p, st, fr)
        return self.read(p, st)

    def user_ctor(self, n, fr):
        return n.get("user") and self.prog.lookup(n["m"], fr.tu) is not None

    def default_construct(self, t, st, fr):
        """implicitly defined default constructor"""
        rec = self.prog.records.get(t["s"])
        v = self.zero_of(t)
        if rec is None:
            return v
        d = {}
        for f in rec["fields"]:
            if f.get("init") is not None:
                d[f["n"]] = self.rval(f["init"], st, fr)
        return mk_with(v, d) if d else v

    def construct(self, n, p, st, fr):
        """run constructor node n on the object at p"""
        t = self.ty(n["t"])
        if (n.get("cm") or n.get("mv")) and not self.user_ctor(n, fr):
            self.write(p, self.rval(n["args"][0], st, fr), st)
            return
        r = self.models.ctor(n, t, st, fr)
        if r is not None:
            self.write(p, r, st)
            return
        f = self.prog.lookup(n["m"], fr.tu)
        if f is None:
            if not n["args"]:
                self.write(p, self.default_construct(t, st, fr), st)
                return
            args = [self.rval(a, st, fr) for a in n["args"]]
            self.write(p, T("call", "ctor:" + strip(n["cls"]), *args), st)
            return
        args = [self.argval(a, self.ty(pt), st, fr) for a, pt in zip(n["args"], n["pt"])]
        self.run_ctor(f, p, args, st)

    def run_ctor(self, f, p, args, st):
        nf = self.push(f, p, args, st)
        try:
            rec = f.get("rec")
            for i in f["inits"]:
                e = i["e"]
                if i.get("f"):
                    tgt = ptr_add(p, ("f", i["f"]))
                    t = self.ty(e["t"])
                    if e["k"] == "ctor":
                        self.write(tgt, self.zero_of(t), st)
                        self.construct(e, tgt, st, nf)
                    elif e.get("lv") and self.field_is_ref(rec, i["f"]):
                        self.write(tgt, self.E(e, st, nf), st)
                    else:
                        self.write(tgt, self.rval(e, st, nf), st)
                else:
                    if e["k"] == "ctor":
                        self.construct(e, p, st, nf)
                    else:
                        self.E(e, st, nf)
            pc = st.pc
            st.pc = ()
            base = st.facts
            exits = self.exec(f["body"], st, nf)
            outs = [(g, VOID, s) for k, g, v, s in exits if k in ("ret", "next")]
            _, s = self.merge_exits(outs, base, pc)
            if s is None:
                st.facts = st.facts.add(FALSE)
                st.pc = pc
            else:
                st.set(s)
        finally:
            self.pop(nf, st)

    def default_ctor(self, cls):
        r = self.prog.records.get(cls)
        if r:
            for m in r["methods"]:
                f = self.prog.funcs.get(m["m"])
                if f is not None and f.get("ctor") and not f["params"]:
                    return f
        return None

    # ------------------------------------------------------------- obligations
    def require(self, label, c, st, n, fr):
        """a stated obligation: must hold in every state that reaches it"""
        if self.trial or st.dead:
            return
        o = Obligation()
        o.label, o.term, o.facts = label, c, st.facts
        o.loc = (fr.fn["f"] if fr and fr.fn else "?", n["l"] if n else 0)
        o.stack = tuple(self.stack)
        o.loops = tuple(self.loops)
        o.ok = st.facts.decide(c, self.effort)
        o.detail = None
        self.obligations.append(o)
        if o.ok and self.lemmas:
            st.assume(c)

    def oblige(self, kind, c, st, n, fr):
        if self.trial or self.safety is None or st.dead:
            return
        if not self.safety(kind, fr, self.stack):
            return
        if c is TRUE:
            self.safety_ok += 1
            return
        o = Obligation()
        o.label, o.term, o.facts = kind, c, st.facts
        o.loc = (fr.fn["f"] if fr and fr.fn else "?", n["l"] if n else 0)
        o.stack = tuple(self.stack)
        o.loops = tuple(self.loops)
        o.ok = st.facts.decide(c, self.effort)
        o.detail = None
        self.safeties.append(o)

    def same(self, a, b):
        if a is b:
            return TRUE
        return eq(a, b)

    def mentions(self, a, b):
        return b in subterms(a)

    def field_is_ref(self, rec, name):
        r = self.prog.records.get(rec)
        if r:
            for f in r["fields"]:
                if f["n"] == name:
                    return self.ty(f["t"])["k"] in ("ref", "rref")
        return False

    # ------------------------------------------------------------- calls
    def argval(self, a, pt, st, fr):
        """argument for a parameter of type pt (pointer term for references)"""
        if pt["k"] in ("ref", "rref"):
            return self.lval(a, st, fr)
        return self.rval(a, st, fr)

    def e_call(self, n, st, fr):
        if "fn" not in n:
            return self.call_indirect(n, st, fr)
        fn = strip(n["fn"])
        if not self.trial:
            self.callsites.add((fr.fn["key"] if fr.fn else None, n["l"], fn))
        h = self.handlers.get(fn)
        if h is not None:
            r = h(self, n, st, fr)
            if r is not None:
                return r
        if fn.endswith("::operator=") and n.get("obj") is not None and \
                len(n["args"]) == 1:
            # the right operand first, and each operand once
            a, o = n["args"][0], n["obj"]
            old = self.over
            x = self.E(a, st, fr)
            y = self.E(o, st, fr)
            if not st.dead:
                self.over = dict(old)
                self.over[id(a)] = x
                self.over[id(o)] = y
                try:
                    return self.e_call2(n, fn, st, fr)
                finally:
                    self.over = old
        return self.e_call2(n, fn, st, fr)

    def e_call2(self, n, fn, st, fr):
        r = self.models.call(fn, n, st, fr)
        if r is not None:
            return r
        # in-program callee
        obj = None
        if "obj" in n and n.get("obj") is not None and not n.get("sm"):
            obj = self.objptr(n, st, fr)
        f = self.resolve(n, obj, fr, st)
        args = [self.argval(a, self.ty(pt), st, fr)
                for a, pt in zip(n["args"], n["pt"])]
        return self.do_call(n, fn, f, obj, args, st, fr)

    def do_call(self, n, fn, f, obj, args, st, fr):
        for rx, name in self.replace:
            if rx.search(fn):
                g = self.prog.byname.get(name)
                if not g:
                    raise AnalysisError("no model function " + name)
                a = ([obj] if obj is not None else []) + args
                return self.inline(g[0], None, a[:len(g[0]["params"])], n, st)
        if f is not None and not self.is_opaque(fn, f) and \
                sum(1 for s in self.stack if s[0] == f["key"]) < self.recursion and \
                len(self.stack) < self.MAXDEPTH:
            return self.inline(f, obj, args, n, st)
        return self.opaque_call(n, fn, obj, args, st, fr)

    def is_opaque(self, fn, f):
        return any(o.search(fn) for o in self.opaque)

    def objptr(self, n, st, fr):
        o = n["obj"]
        if n.get("arrow"):
            return self.rval(o, st, fr)
        return self.lval(o, st, fr)

    def resolve(self, n, obj, fr, st):
        m = n["m"]
        f = self.prog.lookup(m, fr.tu)
        if not n.get("vm"):
            return f
        # dynamic class of the receiver, when it is known
        cls = None
        if obj is not None and obj.op == "ref" and not obj.args[1]:
            cls = self.rootcls.get(obj.args[0])
        if isinstance(cls, str):
            g = self.find_override(m, cls)
            if g is not None:
                return g
        ov = set()
        todo = [m]
        while todo:
            x = todo.pop()
            for k in self.prog.over.get(x, ()):
                if k not in ov:
                    ov.add(k)
                    todo.append(k)
        if f is None and len(ov) == 1:
            return self.prog.funcs[next(iter(ov))]
        if ov:
            return None if f is None or len(ov) >= 1 else f
        return f

    def find_override(self, m, cls):
        """implementation of method m in class cls (printed name)"""
        seen = set()
        c = cls
        while c and c not in seen:
            seen.add(c)
            r = self.prog.records.get(c)
            if r is None:
                return None
            for meth in r["methods"]:
                if meth["m"] == m or self.overrides(meth["m"], m):
                    return self.prog.funcs.get(meth["m"])
            c = self.ty(r["bases"][0])["s"] if r["bases"] else None
        return None

    def overrides(self, a, m):
        """does a (transitively) override m"""
        todo = [m]
        seen = set()
        while todo:
            x = todo.pop()
            for k in self.prog.over.get(x, ()):
                if k == a:
                    return True
                if k not in seen:
                    seen.add(k)
                    todo.append(k)
        return False

    def push(self, f, this, args, st):
        self.nframe += 1
        nf = Frame(self.nframe, f, f["tu"], this)
        for p, a in zip(f["params"], args):
            self.declare(p, st, nf, a)
        self.stack.append((f["key"], f["fn"], f["f"], f["l"]))
        if not self.trial:
            self.visited.add(f["key"])
        return nf

    def pop(self, nf, st):
        self.stack.pop()
        fid = nf.id
        for k in [k for k in st.vars if k[0] == "v" and k[1] == fid]:
            del st.vars[k]

    def inline(self, f, this, args, n, st):
        nf = self.push(f, this, args, st)
        try:
            pc = st.pc
            st.pc = ()
            base = st.facts
            exits = self.exec(f["body"], st, nf)
            outs = [(g, v if v is not None else VOID, s)
                    for k, g, v, s in exits if k in ("ret", "next")]
            v, s = self.merge_exits(outs, base, pc)
            if s is None:  # never returns
                st.facts = st.facts.add(FALSE)
                st.pc = pc
                return VOID
            st.set(s)
        finally:
            self.pop(nf, st)
        return v

    def call_lambda(self, lam, args, st, n=None):
        node, pfr, refs, vals = self.lams[lam.args[0]]
        self.nframe += 1
        nf = Frame(self.nframe, pfr.fn, pfr.tu, pfr.this, pfr)
        for cid, v in refs:
            nf.alias[cid] = v
        for cid, v in zip(vals, lam.args[1:]):
            nf.alias.pop(cid, None)
            st.vars[("v", nf.id, cid)] = v
        for p, a in zip(node["params"], args):
            self.declare(p, st, nf, a)
        self.stack.append((("lambda", node["l"]), "lambda", pfr.fn["f"] if pfr.fn else "", node["l"]))
        try:
            pc = st.pc
            st.pc = ()
            base = st.facts
            exits = self.exec(node["body"], st, nf)
            outs = [(g, v if v is not None else VOID, s)
                    for k, g, v, s in exits if k in ("ret", "next")]
            v, s = self.merge_exits(outs, base, pc)
            if s is None:
                st.facts = st.facts.add(FALSE)
                st.pc = pc
                return VOID
            st.set(s)
        finally:
            self.pop(nf, st)
        return v

    def call_value(self, fv, n, st, fr, args_nodes, pts=None):
        """call a function value"""
        if fv.op == "ite":
            c = st.facts.simp(fv.args[0])
            if c is TRUE:
                return self.call_value(fv.args[1], n, st, fr, args_nodes)
            if c is FALSE:
                return self.call_value(fv.args[2], n, st, fr, args_nodes)
        if fv.op == "lam":
            node = self.lams[fv.args[0]][0]
            args = [self.argval(a, self.ty(p["t"]), st, fr)
                    for a, p in zip(args_nodes, node["params"])]
            v = self.call_lambda(fv, args, st, n)
            rt = self.ty(node["rt"])
            return v
        if fv.op == "fn":
            f = self.prog.lookup(fv.args[0], fr.tu)
            if f is not None and not self.is_opaque(strip(f["fn"]), f):
                args = [self.argval(a, self.ty(p["t"]), st, fr)
                        for a, p in zip(args_nodes, f["params"])]
                return self.inline(f, None, args, n, st)
            args = [self.rval(a, st, fr) for a in args_nodes]
            return self.result(T("call", strip(fv.args[1]), *args), n, st)
        if fv.op == "functor":
            rec = self.prog.records.get(fv.args[0])
            fs = [self.prog.lookup(m["m"], fr.tu) for m in (rec or {}).get("methods", ())
                  if strip(m.get("fn", m.get("n", ""))).endswith("operator()")]
            fs = [f for f in fs if f is not None and len(f["params"]) == len(args_nodes)]
            if len(fs) == 1 and not self.is_opaque(strip(fs[0]["fn"]), fs[0]):
                f = fs[0]
                args = [self.argval(a, self.ty(p["t"]), st, fr)
                        for a, p in zip(args_nodes, f["params"])]
                this = self.temp(fv.args[1], st, fv.args[0])
                return self.inline(f, this, args, n, st)
        args = [self.rval(a, st, fr) for a in args_nodes]
        self.log("invoke", [fv] + args, n, st, fr, None)
        return self.result(T("call", "invoke", fv, *args), n, st)

    def result(self, v, n, st):
        """shape an opaque call result for node n"""
        t = self.ty(n["t"])
        if n.get("lv"):
            # reference into something we cannot see: a stable place
            return ref(("deref", v))
        return self.typed(v, t)

    def call_indirect(self, n, st, fr):
        fv = self.rval(n["fe"], st, fr)
        if fv.op == "ref":
            fv = self.read(fv, st)
        return self.call_value(fv, n, st, fr, n["args"])

    def log(self, name, args, n, st, fr, result, obj=None):
        self.nev += 1
        if self.trial:
            return self.nev
        e = Event()
        e.name, e.args, e.facts, e.result = name, args, st.facts, result
        e.loc = (fr.fn["f"] if fr and fr.fn else "?", n["l"] if n else 0)
        e.stack = tuple(self.stack)
        e.loops = tuple(self.loops)
        e.node = n
        e.obj = obj
        e.n = self.nev
        self.events.append(e)
        return self.nev

    def opaque_call(self, n, fn, obj, args, st, fr):
        """uninterpreted call: pure unless it can write through something"""
        vals = []
        outs = []
        for a, pti in zip(args, n["pt"]):
            pt = self.ty(pti)
            if pt["k"] in ("ref", "rref"):
                vals.append(self.read(a, st))
                if pt["k"] == "ref" and not self.ty(pt["p"]).get("const"):
                    outs.append(a)
            elif pt["k"] == "ptr":
                if a.op == "ref" and a.args[1] and a.args[1][-1][0] == "i":
                    # pointer into an array: everything from there on
                    base, off = self.read(T("ref", a.args[0], a.args[1][:-1]), st), a.args[1][-1][1]
                    vals.append(slice_(base, off, sub(size(base), off)))
                else:
                    vals.append(self.read(a, st) if a is not NULL and
                                a.op in ("ref", "ite", "bitcast") else a)
                if not self.ty(pt["p"]).get("const") and self.ty(pt["p"])["k"] != "func":
                    outs.append(a)
            elif pt["k"] == "rec" and strip(pt["n"]) == "absl::Span" and \
                    a.op == "span":
                vals.append(self.span_value(a, st))
                outs.append(a)
            else:
                vals.append(a)
        # surplus (variadic) args ignored
        if obj is not None:
            ov = self.read(obj, st)
            vals.insert(0, ov)
            if not n.get("cm"):
                outs.append(obj)
        if self.is_impure(n, fn, fr):
            k = self.log(fn, vals, n, st, fr, None, obj)
            evt = T("ev", self.impure_id(fr, n, k), fn,
                    tuple(self.rounds.get(j) or T("bi", j) for j in range(self.depth)))
            if not self.trial:
                self.events[-1].result = evt
            for j, p in enumerate(outs):
                self.havoc(p, T("out", evt, j), st)
            if any(x.search(fn) for x in self.okfns):
                st.assume(ok(evt))
            return self.result(evt, n, st)
        if outs:
            # a deterministic function that also writes through its arguments
            self.log(fn, vals, n, st, fr, None, obj)
            v = T("call", fn, *vals)
            if not self.trial:
                self.events[-1].result = v
            for j, p in enumerate(outs):
                self.havoc(p, T("out", v, j), st)
            if any(x.search(fn) for x in self.okfns):
                st.assume(ok(v))
            return self.result(v, n, st)
        self.log(fn, vals, n, st, fr, None, obj)
        v = T("call", fn, *vals)
        if not self.trial:
            self.events[-1].result = v
        if any(x.search(fn) for x in self.okfns):
            st.assume(ok(v))
        return self.result(v, n, st)

    def impure_id(self, fr, n, k):
        """number of a source of fresh values (stable across the repeated
        visits a loop fixpoint makes)"""
        return k

    def is_impure(self, n, fn, fr):
        if fn in IMPURE:
            return True
        f = self.prog.lookup(n["m"], fr.tu) if "m" in n else None
        if f is None:
            return False
        return f["key"] in self.prog.impure(IMPURE)

    def havoc(self, p, v, st):
        if p is NULL:
            return
        if p.op == "span":
            base, off, ln = p.args
            old = self.read(base, st)
            self.write(base, T("call", "splice", old, off, ln, v), st)
            return
        if p.op == "ref" and p.args[1] and p.args[1][-1][0] == "i":
            # pointer into an array: the array's contents change
            base = T("ref", p.args[0], p.args[1][:-1])
            old = self.read(base, st)
            self.write(base, T("sized", v, size(old)), st)
            return
        self.write(p, v, st)

    def span_value(self, s, st):
        base, off, ln = s.args
        return slice_(self.read(base, st), off, ln)

    # ------------------------------------------------------------- statements
    def exec(self, s, st, fr):
        """-> [(kind, guard, value, state)]; at most one 'next'"""
        if s is None:
            return [("next", st.pc, None, st)]
        self.steps += 1
        return getattr(self, "s_" + s["k"])(s, st, fr)

    def s_block(self, s, st, fr):
        out = []
        cur = st
        for x in s["s"]:
            ex = self.exec(x, cur, fr)
            nxt = None
            for e in ex:
                if e[0] == "next":
                    nxt = e[3]
                else:
                    out.append(e)
            if nxt is None or nxt.dead:
                return out
            cur = nxt
        out.append(("next", cur.pc, None, cur))
        return out

    def s_null(self, s, st, fr):
        return [("next", st.pc, None, st)]

    def s_expr(self, s, st, fr):
        self.E(s["e"], st, fr)
        if s["e"].get("noreturn") or st.dead:
            return []
        if s["e"]["k"] == "call" and "CheckFail" in s["e"].get("fn", "") or \
                self.is_checkfail(s["e"]):
            return []
        return [("next", st.pc, None, st)]

    def is_checkfail(self, e):
        while isinstance(e, dict):
            if e["k"] == "ctor":
                return e["cls"] == "verif_shim::CheckFail"
            if e["k"] == "call":
                e = e.get("obj")
            elif e["k"] in ("tmp", "cast"):
                e = e["e"]
            else:
                return False
        return False

    def s_decl(self, s, st, fr):
        for d in s["d"]:
            t = self.ty(d["t"])
            if d.get("sl"):
                continue
            e = d.get("e")
            if e is None:
                if t["k"] == "rec":
                    v = self.default_construct(t, st, fr)
                elif t["k"] == "arr":
                    v = T("rep", I(t.get("n", 0)), T("undef", d["n"]))
                else:
                    v = T("undef", d["n"])
                    if t["k"] == "bool":
                        v = T("batom", v)
                self.declare(d, st, fr, v)
            elif t["k"] in ("ref", "rref"):
                self.declare(d, st, fr, self.lval(e, st, fr))
            elif e["k"] == "ctor":
                root = ("v", fr.id, d["id"])
                fr.alias.pop(d["id"], None)
                self.rootcls[root] = t["s"]
                v = self.e_ctor(e, st, fr)
                self.declare(d, st, fr, v)
                if t["k"] == "rec":
                    self.rootcls[root] = t["s"]
            else:
                self.declare(d, st, fr, self.rval(e, st, fr))
            if "bind" in d:
                for i, b in enumerate(d["bind"]):
                    if "id" in b and b.get("e"):
                        fr.alias[b["id"]] = self.lval(b["e"], st, fr)
            if st.dead:
                return []
        return [("next", st.pc, None, st)]

    def s_if(self, s, st, fr):
        if s.get("init"):
            for e in self.exec(s["init"], st, fr):
                st = e[3]
        if s.get("cv"):
            self.s_decl({"d": [s["cv"]]}, st, fr)
        c = st.facts.simp(self.as_bool(self.rval(s["c"], st, fr)))
        if st.dead:
            return []
        if c is TRUE:
            return self.exec(s["a"], st, fr)
        if c is FALSE:
            return self.exec(s["b"], st, fr)
        return self.branch(c, st, lambda a: self.exec(s["a"], a, fr),
                           lambda b: self.exec(s["b"], b, fr))

    def branch(self, c, st, fa, fb):
        base, pc = st.facts, st.pc
        sa, sb = st.copy(c), st.copy(b_not(c))
        ea = fa(sa) if not sa.dead else []
        eb = fb(sb) if not sb.dead else []
        out = []
        na = nb = None
        for e in ea:
            if e[0] == "next":
                na = e[3]
            else:
                out.append(e)
        for e in eb:
            if e[0] == "next":
                nb = e[3]
            else:
                out.append(e)
        if na is not None and na.dead:
            na = None
        if nb is not None and nb.dead:
            nb = None
        if na is not None and nb is not None:
            m = self.merge(c, na, nb, base, pc)
            out.append(("next", m.pc, None, m))
        elif na is not None:
            out.append(("next", na.pc, None, na))
        elif nb is not None:
            out.append(("next", nb.pc, None, nb))
        return out

    def s_return(self, s, st, fr):
        v = None
        if s.get("e") is not None:
            f = fr.fn
            e = s["e"]
            rt = self.ret_type(fr)
            if rt is not None and rt["k"] in ("ref", "rref"):
                v = self.lval(e, st, fr)
            else:
                v = self.rval(e, st, fr)
                if rt is not None:
                    v = self.to_ret(v, self.ty(e["t"]), rt)
        if st.dead:
            return []
        v = st.facts.simp(v) if v is not None else v
        if v is not None and v.op not in ("err", "val", "okst"):
            rt = self.ret_type(fr)
            if (rt is None or rt["k"] == "rec") and not is_bool(v) and \
                    st.facts.ev(ok(v)) is FALSE:
                v = mk_err(v)
        return [("ret", st.pc, v, st)]

    def ret_type(self, fr):
        if fr.parent is not None and self.stack and self.stack[-1][1] == "lambda":
            return None
        return self.ty(fr.fn["rt"]) if fr.fn else None

    def to_ret(self, v, a, t):
        return v

    def s_break(self, s, st, fr):
        return [("brk", st.pc, None, st)]

    def s_continue(self, s, st, fr):
        return [("cont", st.pc, None, st)]

    def s_unkstmt(self, s, st, fr):
        self.notes.add("unhandled statement " + s["cls"])
        return [("next", st.pc, None, st)]

    def s_case(self, s, st, fr):
        return self.exec(s["s"], st, fr)

    s_default = s_case

    def s_switch(self, s, st, fr):
        if s.get("init"):
            for e in self.exec(s["init"], st, fr):
                st = e[3]
        if s.get("cv"):
            self.s_decl({"d": [s["cv"]]}, st, fr)
        v = self.rval(s["c"], st, fr)
        # flatten the body to (labels, stmt) items
        items = []

        def unlabel(x, labels):
            while isinstance(x, dict) and x["k"] in ("case", "default"):
                labels.append(x["v"] if x["k"] == "case" else None)
                x = x["s"]
            return x
        body = s["body"]
        for x in (body["s"] if body["k"] == "block" else [body]):
            labels = []
            y = unlabel(x, labels)
            items.append((labels, y))
        conds = []
        default_at = None
        for i, (labels, y) in enumerate(items):
            for l in labels:
                if l is None:
                    default_at = i
                else:
                    conds.append((i, ieq(v, self.rval(l, st, fr))))

        def run_from(i, state):
            blk = {"k": "block", "s": [y for _, y in items[i:]], "l": s["l"]}
            ex = self.exec(blk, state, fr)
            res = []
            nx = []
            for e in ex:
                if e[0] in ("next", "brk"):
                    nx.append(e)
                else:
                    res.append(e)
            return res, nx
        base, pc = st.facts, st.pc
        res = []
        nxs = []
        cur = st
        bynum = {}
        for i, c in conds:
            bynum.setdefault(i, []).append(c)
        for i, cs in bynum.items():
            c = cur.facts.simp(b_or(*cs))
            if c is FALSE:
                continue
            a = cur.copy(c)
            if not a.dead:
                r, nx = run_from(i, a)
                res += r
                nxs += nx
            if c is TRUE:
                cur = None
                break
            cur = cur.copy(b_not(c))
            if cur.dead:
                cur = None
                break
        if cur is not None:
            if default_at is not None:
                r, nx = run_from(default_at, cur)
                res += r
                nxs += nx
            else:
                nxs.append(("next", cur.pc, None, cur))
        if nxs:
            k = len(pc)
            _, m = self.merge_exits([(e[1][k:], VOID, e[3]) for e in nxs], base, pc)
            if m is not None and not m.dead:
                res.append(("next", m.pc, None, m))
        return res

    # ------------------------------------------------------------- loops
    def s_for(self, s, st, fr):
        if s.get("init"):
            ex = self.exec(s["init"], st, fr)
            st = ex[-1][3]
        return self.loop(st, fr, s.get("c"), s.get("inc"), s["body"], s)

    def s_while(self, s, st, fr):
        return self.loop(st, fr, s["c"], None, s["body"], s, cv=s.get("cv"))

    def s_do(self, s, st, fr):
        # body once, then while
        ex = self.exec(s["body"], st, fr)
        out = [e for e in ex if e[0] == "ret"]
        rest = [(e[1], VOID, e[3]) for e in ex if e[0] in ("next", "cont")]
        brk = [e for e in ex if e[0] == "brk"]
        if self.is_false(s["c"]) or (not rest):
            allx = rest + [(e[1], VOID, e[3]) for e in brk]
            if allx:
                _, m = self.merge_exits(allx, st.facts, st.pc)
                out.append(("next", m.pc, None, m))
            return out
        base = rest[0][2].facts
        _, m = self.merge_exits(rest, st.facts, st.pc)
        if m is None or m.dead:
            return out
        r = self.loop(m, fr, s["c"], None, s["body"], s)
        return out + r

    def is_false(self, c):
        return c["k"] == "int" and c["v"] == "0"

    def s_range(self, s, st, fr):
        if s.get("init"):
            for e in self.exec(s["init"], st, fr):
                st = e[3]
        r = s["r"]
        if r.get("lv"):
            cont = self.E(r, st, fr)
        else:
            cont = self.temp(self.E(r, st, fr), st)
        v = self.read(cont, st)
        if v.op == "ite":
            v = st.facts.simp(v)
        if v.op in ("emptymap", "setidx") and "btree" in self.deref_ty(self.ty(r["t"])).get("n", ""):
            es = tm.entries(v)
            if es is not None and (self.ty(s["v"]["t"])["k"] not in ("ref", "rref") or
                                   self.deref_ty(self.ty(s["v"]["t"])).get("const")):
                v = T("list", *[mk_with(T("zero", "tuple"), {"0": a, "1": b}) for a, b in es])
                cont = self.temp(v, st)
        if v.op == "span":
            base, off, ln = v.args
            getp = lambda i: ptr_add(base, ("i", add(off, i)))
            n = ln
        else:
            getp = lambda i: ptr_add(cont, ("i", i))
            n = size(v)
        d = s["v"]
        t = self.ty(d["t"])
        et = self.deref_ty(t)

        def bind(i, state):
            p = getp(i)
            if "bind" in d:
                fr.alias[d["id"]] = p
                if t["k"] not in ("ref", "rref"):
                    p = self.temp(self.read(p, state), state)
                    fr.alias[d["id"]] = p
                for j, b in enumerate(d["bind"]):
                    if "id" in b:
                        fr.alias[b["id"]] = ptr_add(p, ("f", str(j)))
                return
            if t["k"] in ("ref", "rref"):
                self.declare(d, state, fr, p)
            else:
                self.declare(d, state, fr, self.typed(self.read(p, state), et))
        return self.loop(st, fr, None, None, s["body"], s, count=n, bind=bind)

    def changed(self, a, b):
        """paths at which value b differs from a, as list of path tuples"""
        if a is b:
            return []
        ba, da = with_parts(a)
        bb, db = with_parts(b)
        if ba is bb and (da or db):
            out = []
            for k in set(da) | set(db):
                x = da.get(k) or raw_field(ba, k)
                y = db.get(k) or raw_field(bb, k)
                for p in self.changed(x, y):
                    out.append((("f", k),) + p)
            return out
        if a.op == "val" and b.op == "val":
            return [(("u",),) + p for p in self.changed(a.args[0], b.args[0])]
        if a.op == "setidx" and b.op == "setidx" and a.args[0] is b.args[0] and \
                a.args[1] is b.args[1]:
            return [(("i", a.args[1]),) + p
                    for p in self.changed(a.args[2], b.args[2])]
        if a.op == "list" and b.op == "list" and len(a.args) == len(b.args):
            return [(("i", I(k)),) + p for k in range(len(a.args))
                    for p in self.changed(a.args[k], b.args[k])]
        if a.op == "append" and b.op == "append" and a.args[0] is b.args[0]:
            return [(("i", size(a.args[0])),) + p
                    for p in self.changed(a.args[1], b.args[1])]
        if b.op == "setidx" and b.args[0] is a:
            i = b.args[1]
            return [(("i", i),) + p
                    for p in self.changed(getidx(a, i), b.args[2])]
        return [()]

    def loop_local(self, t, d):
        return any((x if isinstance(x, int) else x[1]) >= d for x in free_bi(t))

    def loop(self, st, fr, cond, inc, body, node, count=None, bind=None, cv=None):
        # constant trip counts of small loops could be unrolled; keep uniform
        if cond is None and count is None:
            cond = None
        d = self.depth
        self.depth += 1
        try:
            return self._loop(st, fr, cond, inc, body, node, count, bind, cv, d)
        finally:
            self.depth -= 1

    def _conjuncts(self, c):
        while c["k"] in ("cast", "tmp", "paren"):
            c = c["e"]
        if c["k"] == "bin" and c["op"] == "&&":
            return self._conjuncts(c["a"]) + self._conjuncts(c["b"])
        return [c]

    def _cond(self, c, st, fr):
        """the value of a condition, leaving st as it is"""
        self.trial += 1
        try:
            s = st.copy()
            return s.facts.simp(self.as_bool(self.rval(c, s, fr)))
        finally:
            self.trial -= 1

    def _split_cond(self, S0, s, cond, fr, d):
        """for (; A && B; inc) body, with A bounding the number of iterations:
        B is tested at the start of the body, or at its end if it depends on
        what the body changes (and holds at first).
        -> (A, tests at the start, tests at the end) or None"""
        cs = self._conjuncts(cond)
        if len(cs) < 2:
            return None
        a, pre, until = None, [], []
        st = s.copy()
        for c in cs:
            t = self._cond(c, st, fr)
            st = st.copy(t)
            if a is None and self.trip(t, d, S0.facts) is not None:
                a = c
            elif self.has_bv(t, d):
                until.append(c)
            else:
                pre.append(c)
        if a is None:
            return None
        return a, pre, until

    def _body(self, st, fr, cond, inc, body, bi, bind, d, cv=None, pre=(), until=()):
        """one symbolic iteration. -> (entered cond, cont exits, brk, rets, condstate)"""
        if not pre and not until:
            return self._body1(st, fr, cond, inc, body, bi, bind, d, cv)
        for x in until:
            st.facts = st.facts.add(self._cond(x, st, fr))
        early = []
        old = dict(st.vars)

        def tests(st):
            for x in pre:
                c = st.facts.simp(self.as_bool(self.rval(x, st, fr)))
                if c is TRUE:
                    continue
                e = st.copy(b_not(c))
                if not e.dead:
                    early.append(("brk", e.pc, None, e))
                st.assume(c)
        c, conts, brk, rets = self._body1(st, fr, cond, inc, body, bi, bind, d, cv, tests)
        brk = early + brk
        if until and conts:
            m = conts[0][2]
            gone = [b_not(b_and(*e[1])) for e in brk + rets]
            m.pc = ()
            for g in gone:
                m.assume(g)
            for x in until:
                t = m.facts.simp(self.as_bool(self.rval(x, m, fr)))
                if t is TRUE:
                    continue
                e = m.copy(b_not(t))
                if not e.dead:
                    brk.append(("brk", e.pc, None, e))
                m.assume(t)
            m.pc = ()
            for k, v in m.vars.items():
                if k in old and old[k] is not v and v.flag:
                    m.vars[k] = m.facts.simp(v)
            conts = [((), VOID, m)] if not m.dead else []
        return c, conts, brk, rets

    def _body1(self, st, fr, cond, inc, body, bi, bind, d, cv=None, tests=None):
        common = self._basefacts   # nested loops set their own
        if cv:
            self.s_decl({"d": [cv]}, st, fr)
        c = TRUE
        if cond is not None:
            c = self.as_bool(self.rval(cond, st, fr))
            c = st.facts.simp(c)
        st.pc = ()
        if c is not TRUE:
            st.facts = st.facts.add(c)
        if st.dead:
            return c, [], [], []
        if bind is not None:
            bind(bi, st)
        if tests is not None:
            tests(st)
            if st.dead:
                return c, [], [], []
        if bi.op == "int":
            self.rounds[d] = bi
        try:
            ex = self.exec(body, st, fr)
        finally:
            self.rounds.pop(d, None)
        conts = [(e[1], VOID, e[3]) for e in ex if e[0] in ("next", "cont") and not e[3].dead]
        brk = [e for e in ex if e[0] == "brk" and not e[3].dead]
        rets = [e for e in ex if e[0] == "ret" and not e[3].dead]
        if conts and inc is not None:
            base = st.facts
            _, m = self.merge_exits(conts, common, ())
            self.E(inc, m, fr)
            conts = [((), VOID, m)]
        elif len(conts) > 1:
            _, m = self.merge_exits(conts, common, ())
            conts = [((), VOID, m)]
        return c, conts, brk, rets

    def _loop(self, st, fr, cond, inc, body, node, count, bind, cv, d, tst=(), until=()):
        S0 = st
        bi = T("bi", d)
        if not cv and (cond is not None or count is not None):
            k = self._constant_trip(S0, cond, count, fr)
            if k is not None:
                r = self._unroll(S0, fr, cond, inc, body, bind, max(k, 0), d, tst, until)
                if r is not None:
                    return r
        keys0 = dict(S0.vars)

        def start(over, facts_extra=()):
            s = State(dict(S0.vars), S0.facts, ())
            for root, path, val in over:
                if path:
                    s.vars[root] = self.upd(s.vars[root], path, val, s.facts)
                else:
                    s.vars[root] = val
            if count is not None:
                s.facts = s.facts.add(lt(bi, count))
            if facts_extra:
                s.facts = s.facts.add(*facts_extra)
            return s

        # 1. which places change?  iterate to a fixpoint
        self.trial += 1
        places = []      # (root, path)
        closed = {}      # (root,path) -> ('ind', step) | ('app',)
        try:
            for it in range(6):
                over = [(r, p, self.havoc_sym(S0, r, p, d, i))
                        for i, (r, p) in enumerate(places)]
                s = start(over)
                pre = dict(s.vars)
                self._basefacts = s.facts
                c, conts, brk, rets = self._body(s, fr, cond, inc, body, bi, bind, d, cv, tst, until)
                new = []
                for _, _, e in list(conts) + [(0, 0, b[3]) for b in brk]:
                    for root, v in e.vars.items():
                        o = pre.get(root)
                        if o is None or root not in keys0:
                            continue
                        if o is not v:
                            if o.op == "ite":
                                o2 = s.facts.simp(o)
                                if o2 is not o:
                                    o = o2
                                    S0.vars[root] = o
                            for p in self.changed(o, v):
                                if (root, p) not in new:
                                    new.append((root, p))
                # merge with the existing, prefix-closed
                allp = list(places)
                for q in new:
                    if q not in allp:
                        allp.append(q)
                allp = [q for q in allp if not any(
                    o[0] == q[0] and len(o[1]) < len(q[1]) and q[1][:len(o[1])] == o[1]
                    for o in allp)]
                # an element at a loop-invariant index is a place of its own;
                # otherwise the whole container is
                norm = []
                for root, p in allp:
                    cut = None
                    for k, e in enumerate(p):
                        if e[0] == "i" and self.loop_local(e[1], d):
                            cut = k
                            break
                    q = (root, p if cut is None else p[:cut])
                    if q not in norm:
                        norm.append(q)
                again = True
                while again:
                    again = False
                    for x in norm:
                        for y in norm:
                            if x is y or x[0] != y[0]:
                                continue
                            k = 0
                            while k < len(x[1]) and k < len(y[1]) and x[1][k] == y[1][k]:
                                k += 1
                            if k == len(x[1]) or k == len(y[1]):
                                norm.remove(x if len(x[1]) > len(y[1]) else y)
                                again = True
                            elif x[1][k][0] == "i":
                                q = (x[0], x[1][:k])
                                norm = [z for z in norm if z is not x and z is not y]
                                if q not in norm:
                                    norm.append(q)
                                again = True
                            if again:
                                break
                        if again:
                            break
                if norm == places:
                    break
                places = norm
            else:
                raise AnalysisError("loop at %s:%s does not stabilise" % (fr.fn["fn"] if fr.fn else "", node["l"]))
            for r, p in places:
                v = self.walk(S0.vars[r], p, S0.facts)
                w = S0.facts.simp(v)
                if w is not v:
                    if p:
                        S0.vars[r] = self.upd(S0.vars[r], p, w, S0.facts)
                    else:
                        S0.vars[r] = w
            # 2. closed forms: induction variables, appended lists
            over = [(r, p, self.havoc_sym(S0, r, p, d, i)) for i, (r, p) in enumerate(places)]
            if conts:
                fin = conts[0][2]
                for (r, p, sym) in over:
                    if r not in fin.vars:
                        continue
                    v = self.walk(fin.vars[r], p, fin.facts)
                    o0 = self.walk(S0.vars[r], p, S0.facts)
                    if v is sym:
                        continue
                    k = self.ind_step(sym, v)
                    if k is not None:
                        if isinstance(k, tuple):
                            closed[(r, p)] = ("ptr", o0, k[0])
                        else:
                            closed[(r, p)] = ("ind", o0, k)
                    elif v.op == "slice" and v.args[0] is sym and self.shrinks(v, sym) is not None:
                        closed[(r, p)] = ("slice", o0, self.shrinks(v, sym))
                    elif v.op == "append" and v.args[0] is sym:
                        closed[(r, p)] = ("app", o0)
                    elif o0.op in ("list", "append", "cat", "map") and self.applike(v, sym):
                        closed[(r, p)] = ("appn", o0)
        finally:
            self.trial -= 1

        # 3. final, recorded iteration
        over = []
        extra = []
        syms = {}
        for i, (r, p) in enumerate(places):
            cf = closed.get((r, p))
            sym = self.havoc_sym(S0, r, p, d, i)
            if cf and cf[0] == "ind":
                val = add(cf[1], scale(bi, cf[2]))
            elif cf and cf[0] == "ptr":
                val = self.ptr_off(cf[1], scale(bi, cf[2]))
            elif cf and cf[0] == "slice":
                x = scale(bi, cf[2])
                val = slice_(cf[1], x, sub(size(cf[1]), x))
            else:
                val = sym
                if cf and cf[0] == "app":
                    val = T("sized", sym, add(size(cf[1]), bi))
            syms[(r, p)] = val
            over.append((r, p, val))
        # container sizes that the body does not change
        self.trial += 1
        try:
            s = start(over, extra)
            self._basefacts = s.facts
            c, conts, brk, rets = self._body(s, fr, cond, inc, body, bi, bind, d, cv, tst, until)
            if conts:
                fin = conts[0][2]
                for i, (r, p, val) in enumerate(over):
                    if (r, p) in closed or val.op != "bv" or r not in fin.vars:
                        continue
                    o0 = self.walk(S0.vars[r], p, S0.facts)
                    v = self.walk(fin.vars[r], p, fin.facts)
                    if v.op in ("setidx", "ite", "mapset", "sized", "splice", "map") and \
                            size(v) is size(val) and self.listlike(o0):
                        val = T("sized", val, size(o0))
                        syms[(r, p)] = val
                        over[i] = (r, p, val)
        finally:
            self.trial -= 1

        # trip count
        s = start(over, extra)
        n = None
        condterm = None
        if count is not None:
            n = count
        elif cond is not None:
            s2 = start(over, extra)
            if cv:
                self.trial += 1
                self.s_decl({"d": [cv]}, s2, fr)
                self.trial -= 1
            self.trial += 1
            condterm = s2.facts.simp(self.as_bool(self.rval(cond, s2, fr)))
            self.trial -= 1
            n = self.trip(condterm, d, S0.facts)
            if n is None and not cv and not tst and not until:
                x = self._split_cond(S0, start(over, extra), cond, fr, d)
                if x is not None:
                    # what is tested at the end of the body is tested once before
                    B = b_and(*[S0.facts.simp(self.as_bool(self.rval(y, S0, fr)))
                                for y in x[2]])
                    pc0 = S0.pc
                    skip = S0.copy(b_not(B))
                    S1 = S0.copy(B)
                    if S1.dead:
                        return [("next", pc0, None, S0)]
                    r = self._loop(S1, fr, x[0], inc, body, node, None, bind, None, d, *x[1:])
                    if B is TRUE or skip.dead:
                        return r
                    k = len(pc0)
                    nx = [e for e in r if e[0] == "next"] + [("next", skip.pc, None, skip)]
                    _, m = self.merge_exits([(e[1][k:], VOID, e[3]) for e in nx], S0.facts, pc0)
                    return [e for e in r if e[0] != "next"] + [("next", m.pc, None, m)]
        if n is not None and n.op == "int" and 0 <= n.args[0] <= self.unroll and not cv:
            r = self._unroll(S0, fr, cond, inc, body, bind, n.args[0], d, tst, until)
            if r is not None:
                return r
        if n is not None and count is None:
            s.facts = s.facts.add(lt(bi, n))
        if n is None:
            self.nev += 1
            n_ = T("trip", node["l"], d, self.nev)
            RNG[n_] = (0, None)
        else:
            n_ = n
        self.loops.append((d, n_, node["l"], fr.fn["fn"] if fr.fn else ""))
        self._basefacts = s.facts
        try:
            c, conts, brk, rets = self._body(s, fr, cond, inc, body, bi, bind, d, cv, tst, until)
        finally:
            self.loops.pop()

        out = []
        pc0 = S0.pc
        comps = []
        own = {}
        if conts:
            fin = conts[0][2]
            for (r, p) in places:
                sym = syms[(r, p)]
                v = self.walk(fin.vars[r], p, fin.facts) if r in fin.vars else sym
                comps.append((sym, self.walk(S0.vars[r], p, S0.facts), v))
            own = self.own_map(comps, d, S0.facts)
            if own:
                comps = [(s_, o0, subst(v, own)) for s_, o0, v in comps]
        cmemo = {}

        def entry(t):
            """t with the loop-carried values replaced by their closed form
            on entry to iteration bi"""
            if ("v", d) not in free_bi(t) or not comps:
                return t
            if own:
                t = subst(t, own)
            for i, (s_, o0, v) in enumerate(comps):
                if ("v", d) not in free_bi(t):
                    break
                c = self.core(s_)
                if c.op != "bv" or c not in subterms(t):
                    continue
                val = self.close(i, comps, d, bi, S0.facts, cmemo, ())
                m = {s_: val}
                if c is not s_:
                    m[c] = val
                t = subst(t, m)
            return t
        # early exits: the first iteration in which one of them is taken
        exits = [(k, entry(b_and(*g)) if g else TRUE, v, e) for k, g, v, e in rets + brk]
        noret = []
        nexts = []
        if exits and not brk and all(v is not None and v.op == "err" for _, _, v, _ in exits):
            # failing exits: the state is dead, only the error matters
            for k, G, v, e in exits:
                v = entry(v)
                exist = b_not(mk_forall(d, n_, b_not(G)))
                rs = State(self.scrub(e.vars, places, S0, d, n_), S0.facts.add(exist), pc0 + (exist,))
                if d in free_bi(v):
                    v = T("err", T("some", d, n_, v))
                if not rs.dead:
                    out.append(("ret", rs.pc, v, rs))
                noret.append(mk_forall(d, n_, b_not(G)))
        elif exits:
            G = b_or(*[x[1] for x in exits])
            none = mk_forall(d, n_, b_not(G))
            noret.append(none)
            exist = b_not(none)
            K = mk_first(d, n_, G)
            at = lambda t: subst_bi(t, d, K)
            base = set(self._base_all(S0))
            f0 = S0.facts.add(exist, le(ZERO, K), lt(K, n_), at(G), mk_forall(d, K, b_not(G)))
            kinds = [k for k in ("ret", "brk") if any(x[0] == k for x in exits)]
            for kind in kinds:
                mine = [x for x in exits if x[0] == kind]
                own_g = (at(b_or(*[x[1] for x in mine])),) if len(kinds) > 1 else ()
                xf = f0.add(*own_g)
                if len(mine) == 1:
                    more = []
                    for t in mine[0][3].facts.all():
                        if t not in base:
                            t = entry(t)
                            if not self.has_bv(t, d):
                                more.append(at(t))
                    xf = xf.add(*more)
                if xf.bottom:
                    continue
                xs = State(dict(S0.vars), xf, pc0 + (exist,) + own_g)
                vals = None
                for k, g, v, e in reversed(mine):
                    w = []
                    for (r, p) in places:
                        o0 = self.walk(S0.vars[r], p, S0.facts)
                        if r in e.vars:
                            nv = entry(self.walk(e.vars[r], p, e.facts))
                            if self.has_bv(nv, d):
                                self.nev += 1
                                nv = T("lvx", self.nev)
                                if is_bool(o0):
                                    nv = T("batom", nv)
                            w.append(at(nv))
                        else:
                            w.append(o0)
                    w.append(at(entry(v)) if v is not None else VOID)
                    if vals is None:
                        vals = w
                    else:
                        c = xf.simp(at(g))
                        vals = [ite(c, x, y) if x is not y else x for x, y in zip(w, vals)]
                if not own_g and not any(K in subterms(x) for x in vals):
                    # which iteration it was does not matter
                    xf = xs.facts = S0.facts.add(exist)
                for (r, p), nv in zip(places, vals):
                    xs.vars[r] = self.upd(xs.vars[r], p, nv, xf) if p else nv
                if kind == "ret":
                    out.append(("ret", xs.pc, None if mine[0][2] is None else vals[-1], xs))
                else:
                    nexts.append(((exist,) + own_g, VOID, xs))
        # normal exit
        post = State(dict(S0.vars), S0.facts, pc0)
        if True:
            if not comps:
                comps = [(syms[q], self.walk(S0.vars[q[0]], q[1], S0.facts), syms[q])
                         for q in places]
            for i, (r, p) in enumerate(places):
                o0 = comps[i][1]
                cf = closed.get((r, p))
                sym, _, v = comps[i]
                if not conts:
                    nv = o0
                elif cf and cf[0] == "ind":
                    nv = add(cf[1], scale(self.pos(n_, S0.facts), cf[2])) if True else None
                elif cf and cf[0] == "slice":
                    x = scale(self.pos(n_, S0.facts), cf[2])
                    nv = slice_(cf[1], x, sub(size(cf[1]), x))
                elif cf and cf[0] == "ptr":
                    nv = self.ptr_off(cf[1], scale(self.pos(n_, S0.facts), cf[2]))
                else:
                    nv = self.close(i, comps, d, self.pos(n_, S0.facts), S0.facts, {}, ())
                if is_bool(o0) and not is_bool(nv):
                    nv = self.as_bool(nv)
                post.vars[r] = self.upd(post.vars[r], p, nv, post.facts) if p else nv
            # universal facts from the early exits not taken
            fs = [x for x in noret if x is not TRUE]
            if fs:
                post.facts = post.facts.add(*fs)
            # facts that hold at the end of every iteration
            if conts:
                fin = conts[0][2]
                base = set(self._base_all(S0))
                for t in fin.facts.all():
                    if t in base:
                        continue
                    t = entry(t)
                    if self.has_bv(t, d):
                        continue
                    if t.op == "forall" and d not in free_bi(t):
                        pass
                    if t is lt(bi, n_):
                        continue
                    x = mk_forall(d, n_, t)
                    if x is not TRUE and x not in post.facts.lits:
                        post.facts = post.facts.add(x)
            if condterm is not None and cond is not None:
                # the condition is false on exit
                self.trial += 1
                s3 = post.copy()
                try:
                    ct = self.as_bool(self.rval(cond, s3, fr))
                finally:
                    self.trial -= 1
                if ct is not TRUE:
                    post.facts = post.facts.add(b_not(ct))
            elif cond is None and count is None:
                # no exit except returns and breaks
                post.facts = post.facts.add(FALSE)
        if nexts:
            live = [x for x in nexts if not x[2].dead]
            if not post.dead:
                live.append(((b_and(*noret),), VOID, post))
            if not live:
                return out
            _, post = self.merge_exits(live, S0.facts, pc0)
            if len(kinds) > 1:   # some exits return
                post.pc = pc0 + (b_not(b_or(*[b_and(*o[1][len(pc0):]) for o in out])),)
        if not post.dead:
            out.append(("next", post.pc, None, post))
        return out

    def _unroll(self, S0, fr, cond, inc, body, bind, n, d, pre=(), until=()):
        """a loop with a small constant trip count, as straight-line code"""
        def go():
            cur = S0.copy()
            out = []
            brks = []
            for k in range(n):
                self._basefacts = cur.facts
                pc = cur.pc
                if k and cond is not None and self._is_false(cond, cur, fr):
                    break
                c, conts, brk, rets = self._body(cur, fr, cond, inc, body, I(k), bind, d, None, pre, until)
                if brk and rets:
                    return None
                if c is not TRUE and c is not FALSE and cond is not None:
                    return None
                for e in rets:
                    out.append(("ret", pc + tuple(e[1]), e[2], e[3]))
                for e in brk:
                    brks.append((pc + tuple(e[1]), VOID, e[3]))
                if not conts:
                    cur = None
                    break
                nx = conts[0][2]
                cur = State(nx.vars, nx.facts, pc)
                for e in brk:
                    cur.assume(b_not(b_and(*e[1])))
                if cur.dead:
                    cur = None
                    break
            if cur is not None:
                if cond is not None and cur.facts.simp(
                        self.as_bool(self.rval(cond, cur, fr))) is not FALSE:
                    return None
                brks.append((cur.pc, VOID, cur))
            if brks:
                k = len(S0.pc)
                _, m = self.merge_exits([(p[k:], v, e) for p, v, e in brks], S0.facts, S0.pc)
                if m is not None and not m.dead:
                    out.append(("next", m.pc, None, m))
            return out
        marks = len(self.events), len(self.obligations), len(self.safeties), self.safety_ok
        notes = set(self.notes)
        r = go()
        if r is None:
            del self.events[marks[0]:], self.obligations[marks[1]:], self.safeties[marks[2]:]
            self.safety_ok = marks[3]
            self.notes = notes
        return r

    def _is_false(self, cond, st, fr):
        self.trial += 1
        try:
            s = st.copy()
            return s.facts.simp(self.as_bool(self.rval(cond, s, fr))) is FALSE
        finally:
            self.trial -= 1

    def _constant_trip(self, S0, cond, count, fr):
        """the trip count of a loop between constants, if it is small"""
        if count is not None:
            n = S0.facts.simp(count)
            return n.args[0] if n.op == "int" and 0 <= n.args[0] <= self.straight else None
        c = cond
        while c["k"] in ("cast", "tmp", "paren"):
            c = c["e"]
        if c["k"] != "bin" or c["op"] not in ("<", "<=", ">", ">=", "!="):
            return None
        self.trial += 1
        try:
            s = S0.copy()
            a, b = self.rval(c["a"], s, fr), self.rval(c["b"], s, fr)
            a, b = s.facts.simp(a), s.facts.simp(b)
        finally:
            self.trial -= 1
        if a.op != "int" or b.op != "int":
            return None
        a, b = a.args[0], b.args[0]
        n = {"<": b - a, "<=": b - a + 1, ">": a - b, ">=": a - b + 1, "!=": abs(a - b)}[c["op"]]
        return n if n <= self.straight else None

    def _base_all(self, S0):
        return S0.facts.all()

    def has_bv(self, t, d):
        for x in free_bi(t):
            if isinstance(x, tuple):
                if x[1] >= d:
                    return True
            elif d < x < 500:
                return True
        return False

    def scrub(self, vars_, places, S0, d, n):
        out = {}
        ps = {}
        for i, (r, p) in enumerate(places):
            ps.setdefault(r, []).append(p)
        for k, v in vars_.items():
            if k in S0.vars:
                if k in ps:
                    self.nev += 1
                    out[k] = T("lvr", self.nev)
                elif d in free_bi(v):
                    self.nev += 1
                    out[k] = T("lvr", self.nev)
                else:
                    out[k] = v
        for k, v in S0.vars.items():
            out.setdefault(k, v)
        return out

    def applike(self, v, sym):
        return False

    def listlike(self, v):
        return v.op in tm.LISTLIKE

    def numlike(self, v):
        return v.op in ("int", "lin")

    def havoc_sym(self, S0, r, p, d, i):
        o0 = self.walk(S0.vars[r], p, S0.facts)
        v = T("bv", d, i)
        t = self.rootcls.get(r)
        if not p and isinstance(t, dict):
            w = self.intinfo(t)
            if t["k"] == "bool":
                return T("batom", v)
            if w and not w[1]:
                v = T("bv", d, i, "u%d" % w[0])
                set_rng(v, 0, (1 << w[0]) - 1)
                return v
        if is_bool(o0):
            return T("batom", v)
        return v

    def shrinks(self, v, sym):
        """c if v is sym without its first c elements"""
        c = v.args[1]
        if c.op == "int" and diffconst(v.args[2], size(sym)) == -c.args[0]:
            return c.args[0]
        return None

    def ind_step(self, sym, v):
        if sym.op == "batom":
            return None
        if v.op == "ref" and v.args[0][0] == "deref" and v.args[0][1] is sym and len(v.args[1]) == 1 \
                and v.args[1][0][0] == "i":
            k = v.args[1][0][1]
            if k.op == "int":
                return (k.args[0],)
            return None
        dd = sub(v, sym)
        if dd.op == "int":
            return dd.args[0]
        return None

    def trip(self, c, d, facts):
        """trip count of a loop whose condition at iteration bi(d) is c"""
        bi = T("bi", d)
        if c.op == "and":
            return None
        if c.op == "not" and c.args[0].op == "eq0":
            l = c.args[0].args[0]
            cst, dd = lin_parts(l)
            k = dd.pop(bi, 0)
            if k in (1, -1):
                r = mk_lin(cst, dd)
                if self.has_bv(r, d):
                    return None
                return neg(r) if k == 1 else r
            return None
        if c.op != "le":
            return None
        cst, dd = lin_parts(c.args[0])
        k = dd.pop(bi, 0)
        r = mk_lin(cst, dd)
        if k <= 0 or self.has_bv(r, d):
            return None
        # k*bi + r <= 0  <=> bi <= floor(-r/k) ; n = floor(-r/k)+1
        if k == 1:
            n = add(neg(r), ONE)
        else:
            n = div(add(neg(r), I(k)), I(k))
        return n

    def pos(self, n, facts):
        if n.op == "int":
            return n if n.args[0] >= 0 else ZERO
        lo, _ = interval(n)
        if lo is not None and lo >= 0:
            return n
        if facts.entails(le(ZERO, n)):
            return n
        return T("max0", n)

    def own_map(self, comps, d, facts):
        """A container that iteration i only updates at position i+c still
        has its original element there when iteration i starts."""
        bi = T("bi", d)
        m = {}
        for sym, o0, v in comps:
            if v.op == "setidx" and v.args[0] is sym:
                idx = v.args[1]
                if ("v", d) in free_bi(idx):
                    continue
                off = subst_bi(idx, d, ZERO)
                if d not in free_bi(off) and (diffconst(idx, add(bi, off)) == 0 or
                                              diffconst(idx, sub(off, bi)) == 0):
                    m[T("idx", sym, idx)] = getidx(o0, idx, facts)
        return m

    def deps(self, comps, i):
        """loop-carried components the step of component i reads"""
        t = comps[i][2]
        fv = free_bi(t)
        if not any(isinstance(x, tuple) for x in fv):
            return []
        out = []
        st_ = self.open_subterms(t)
        for j, (s_, _, _) in enumerate(comps):
            c = self.core(s_)
            if c.op == "bv" and c in st_:
                out.append(j)
        return out

    def core(self, s_):
        return s_.args[0] if s_.op in ("batom", "sized") else s_

    def open_subterms(self, t):
        return subterms(t)

    def close(self, i, comps, d, n, facts, memo, busy):
        """value of loop-carried component i after n iterations, in closed
        form (n may be the loop's own iteration index: the value on entry to
        that iteration)"""
        key = (i, n)
        if key in memo:
            return memo[key]
        sym, o0, v = comps[i]
        r = self._close(i, comps, d, n, facts, memo, busy, sym, o0, v)
        memo[key] = r
        return r

    def _close(self, i, comps, d, n, facts, memo, busy, sym, o0, v):
        if v is sym:
            return o0
        bi = T("bi", d)
        # strongly connected component of i
        reach = {}

        def reachable(k):
            if k not in reach:
                reach[k] = set()
                todo = [k]
                seen = set()
                while todo:
                    x = todo.pop()
                    for y in self.deps(comps, x):
                        if y not in seen:
                            seen.add(y)
                            todo.append(y)
                reach[k] = seen
            return reach[k]
        mine = reachable(i)
        scc = [k for k in sorted(mine) if k == i or i in reachable(k)]
        if i not in scc:
            scc.append(i)
        # replace the components outside of it by their value at iteration bi
        m = {}
        for k in mine:
            if k in scc:
                continue
            if comps[k][0] is not comps[k][2] or True:
                val = self.close(k, comps, d, bi, facts, memo, busy + (i,))
                m[comps[k][0]] = val
                c = self.core(comps[k][0])
                if c is not comps[k][0] and c not in m:
                    m[c] = val
        if m:
            v = subst(v, m)
        core = self.core(sym)

        def pure(x):
            return ("v", d) not in free_bi(x)

        # append-only
        if v.op == "append" and v.args[0] is sym and pure(v.args[1]):
            return cat(o0, mk_map(d, n, v.args[1]))
        tail = []
        x = v
        while x.op == "append":
            tail.insert(0, x.args[1])
            x = x.args[0]
        if x.op == "cat" and x.args[0] is sym:
            body = T("list", *tail) if tail else EMPTY
            for y in reversed(x.args[1:]):
                body = cat(y, body)
        else:
            body = T("list", *tail) if x is sym and tail else None
        if body is not None and pure(body) and d not in free_bi(size(body)):
            return cat(o0, mk_flat(d, n, body))
        if v.op == "ite":
            # conditional update where the alternatives touch one element
            pass
        if v.op == "setidx" and v.args[0] is sym:
            idx, f = v.args[1], v.args[2]
            off = subst_bi(idx, d, ZERO)
            if pure(idx) and d not in free_bi(off) and bi not in subterms(n) and \
                    diffconst(idx, sub(off, bi)) == 0:
                # counting down
                if not pure(f):
                    f = subst(f, {T("idx", sym, idx): getidx(o0, idx, facts)})
                if pure(f):
                    up = sub(sub(n, ONE), bi)
                    idx, f = subst_bi(idx, d, up), subst_bi(f, d, up)
                    off = subst_bi(idx, d, ZERO)
            if pure(idx) and d not in free_bi(off) and \
                    diffconst(idx, add(bi, off)) == 0:
                # element-wise: out[bi+off] = f(out[bi+off])
                own = T("idx", sym, idx)
                if not pure(f):
                    f = subst(f, {own: getidx(o0, idx, facts)})
                if pure(f):
                    if off is ZERO and n is size(o0):
                        return mk_map(d, n, f)
                    return T("mapset", o0, d, n, idx, f)
        if pure(v) and d not in free_bi(v):
            # same value whatever the iteration
            return ite(le(n, ZERO), o0, v)
        if pure(v) and sym.op != "batom" or pure(v):
            # value of the last iteration
            return ite(le(n, ZERO), o0, subst_bi(v, d, sub(n, ONE)))
        # reduction with an associative operation
        # general recurrence over the strongly connected component, with
        # canonical variable names
        order = []

        def visit(k):
            if k in order:
                return
            order.append(k)
            for y in self.order_deps(comps, k, scc, m):
                visit(y)
        visit(i)
        ren = {bi: T("bi", d + 500)}
        names = []
        for x, k in enumerate(order):
            s_ = comps[k][0]
            c = self.core(s_)
            assert c.op == "bv", c
            nb = T("bv", d + 500, x, *c.args[2:])
            if c in RNG:
                RNG.setdefault(nb, RNG[c])
            ren[c] = nb
            names.append(s_)
        cs = []
        for x, k in enumerate(order):
            step = comps[k][2]
            if m:
                step = subst(step, m)
            cs.append((subst(names[x], ren), comps[k][1], subst(step, ren)))
        return self.mk_fold(d + 500, n, order.index(i), tuple(cs))

    def mk_fold(self, d, n, k, comps):
        r = T("fold", d, n, k, comps)
        return r

    def order_deps(self, comps, k, scc, m):
        """components of the cycle that k's step reads, in the order met"""
        cores = {self.core(comps[j][0]): j for j in scc}
        out = []
        seen = set()
        todo = [comps[k][2]]
        while todo:
            x = todo.pop()
            if x.__class__ is tuple:
                todo.extend(reversed(x))
                continue
            if x.__class__ is not T or x in seen:
                continue
            seen.add(x)
            if x in cores and cores[x] not in out:
                out.append(cores[x])
            todo.extend(reversed(x.args))
        return out


LISTS = {"std::vector", "std::basic_string", "absl::Span", "absl::string_view",
         "std::array", "absl::InlinedVector", "google::protobuf::RepeatedPtrField",
         "google::protobuf::RepeatedField", "std::initializer_list",
         "std::basic_string_view", "absl::FixedArray", "std::deque",
         "distributed_point_functions::dpf_internal::MaybeDerefSpan",
         "absl::Cord"}
MAPS = {"absl::flat_hash_map", "absl::btree_map", "absl::btree_set",
        "std::map", "std::unordered_map", "absl::flat_hash_set", "std::set"}
IMPURE = {"RAND_bytes", "absl::Uniform", "absl::uniform_int_distribution::operator()",
          "time", "rand"}

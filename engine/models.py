"""Meaning of the library types the repository uses (std, absl, protobuf, hwy).

Each model is a transfer function on value-graph terms.  A name that has no
model is an uninterpreted function (or, when it can write through its
arguments, an event after which those places are unknown).
"""
import re

from names import strip
import terms as tm
from terms import *

ERRS = re.compile(r"^absl::(\w+)Error$")
NOOPS = {"reserve", "Reserve", "shrink_to_fit"}
STRSZ = {"size", "length"}
OPMAP = {"operator+": "+", "operator-": "-", "operator*": "*", "operator/": "/",
         "operator%": "%", "operator^": "^", "operator&": "&", "operator|": "|",
         "operator<<": "<<", "operator>>": ">>"}
CMP = {"operator==": "==", "operator!=": "!=", "operator<": "<", "operator<=": "<=",
       "operator>": ">", "operator>=": ">="}
LISTCLS = re.compile(
    r"^(std::vector|std::(__cxx11::)?basic_string|std::basic_string_view|absl::Span|"
    r"absl::string_view|std::array|absl::InlinedVector|std::initializer_list|"
    r"google::protobuf::RepeatedPtrField|google::protobuf::RepeatedField|absl::Cord|"
    r"absl::FixedArray|std::deque|std::span)$")
SMART = re.compile(r"^(std::unique_ptr|std::shared_ptr|hwy::AlignedFreeUniquePtr)$")
OPTCLS = re.compile(r"^(std|absl)::optional$")
FUNCLS = re.compile(r"^(absl::AnyInvocable|std::function|absl::FunctionRef|"
                    r"absl::internal_any_invocable::(Core)?Impl)$")
MDS = "distributed_point_functions::dpf_internal::MaybeDerefSpan"


def is_span(v):
    return v.op == "span"


class Models(object):
    def __init__(self, interp):
        self.I = interp
        self.protos = {}
        for k, m in interp.prog.protos.items():
            self.protos[k.split("::", 1)[-1]] = m
        self.cache = {}

    # ------------------------------------------------------------ helpers
    def V(self, n, st, fr):
        return self.I.rval(n, st, fr)

    def P(self, n, st, fr):
        return self.I.lval(n, st, fr)

    def L(self, n, st, fr):
        """value of a node as a plain list"""
        v = self.I.rval(n, st, fr)
        return self.aslist(v, st)

    def aslist(self, v, st):
        if v.op == "span":
            return self.I.span_value(v, st)
        if v.op == "ite":
            c = st.facts.simp(v.args[0])
            if c is TRUE:
                return self.aslist(v.args[1], st)
            if c is FALSE:
                return self.aslist(v.args[2], st)
            a, b = self.aslist(v.args[1], st), self.aslist(v.args[2], st)
            if a is v.args[1] and b is v.args[2]:
                return v
            return ite(c, a, b)
        return v

    def eval_all(self, n, st, fr):
        return [self.V(a, st, fr) for a in n["args"]]

    def isconst_elem(self, t):
        a = t.get("a") or []
        if a and isinstance(a[0], int):
            return bool(self.I.ty(a[0]).get("const"))
        return False

    def elem_ty(self, t):
        a = t.get("a") or []
        if a and isinstance(a[0], int):
            return self.I.ty(a[0])
        return None

    # ------------------------------------------------------------ entry
    def call(self, fn, n, st, fr):
        obj = n.get("obj")
        if n.get("proto") and obj is not None:
            r = self.proto_call(fn, n, st, fr)
            if r is not None:
                return r
        if n.get("proto") and fn.endswith("::default_instance"):
            t = self.I.deref_ty(self.I.ty(n["t"]))
            return self.I.temp(self.I.zero_of(t), st)
        f = FREE.get(fn)
        if f is not None:
            return f(self, fn, n, st, fr)
        m = ERRS.match(fn)
        if m:
            return T("err", m.group(1))
        i = fn.rfind("::")
        cls, name = fn[:i], fn[i + 2:]
        if fn.endswith("::operator()") and obj is not None and (
                "(anonymous class)" in fn or "(lambda" in fn or FUNCLS.match(cls)):
            fv = self.I.rval(obj, st, fr) if not n.get("arrow") else \
                self.I.read(self.I.rval(obj, st, fr), st)
            if fv.op == "ref":
                fv = self.I.read(fv, st)
            return self.I.call_value(fv, n, st, fr, n["args"])
        if obj is not None:
            if cls == "google::protobuf::io::CodedOutputStream" and \
                    name in ("SetSerializationDeterministic", "Trim"):
                return VOID
            if cls == MDS:
                return self.list_method(cls, name, n, st, fr)
            if LISTCLS.match(cls):
                return self.list_method(cls, name, n, st, fr)
            if cls in ("absl::Status", "absl::StatusOr") or \
                    cls.startswith("absl::internal_statusor"):
                return self.status_method(cls, name, n, st, fr)
            if SMART.match(cls):
                return self.ptr_method(cls, name, n, st, fr)
            if OPTCLS.match(cls):
                return self.opt_method(cls, name, n, st, fr)
            if FUNCLS.match(cls):
                if name in ("operator bool",):
                    return b_not(eq(self.V(obj, st, fr), NULL))
                if name == "operator=":
                    v = self.V(n["args"][0], st, fr)
                    src = self.I.deref_ty(self.I.ty(n["args"][0]["t"]))
                    p = self.I.objptr(n, st, fr)
                    self.I.write(p, self.functor(v, src), st)
                    return p
                return None
            if cls in ("absl::uint128", "absl::int128"):
                return self.u128_method(cls, name, n, st, fr)
            if cls.endswith("normal_iterator") or cls.endswith("RepeatedPtrIterator") \
                    or cls == "std::move_iterator":
                return self.iter_method(cls, name, n, st, fr)
            if cls == "absl::uniform_int_distribution" and name == "operator()":
                d = self.I.read(self.I.objptr(n, st, fr), st)
                k = self.I.log(fn, [d], n, st, fr, None)
                r = self.I.typed(T("ev", self.I.impure_id(fr, n, k), fn,
                                   tuple(T("bi", j) for j in range(self.I.depth))),
                                 self.I.ty(n["t"]))
                if d.op == "uniform":
                    st.assume(le(d.args[0], r), le(r, d.args[1]))
                return r
            if cls in ("std::tuple", "std::pair") and name == "operator=":
                return self.tuple_assign(n, st, fr)
            if cls in ("absl::variant", "std::variant") and name == "operator=":
                p = self.I.objptr(n, st, fr)
                v = self.V(n["args"][0], st, fr)
                t = self.I.deref_ty(self.I.ty(n["args"][0]["t"]))
                if strip(t.get("n", "")) not in ("absl::variant", "std::variant"):
                    v = T("variant", strip(t.get("n", t["s"])), v)
                self.I.write(p, v, st)
                return p
            if "btree" in cls or "node_handle" in cls or "hash_map" in cls or "hash_set" in cls or \
                    cls in ("absl::flat_hash_map", "absl::flat_hash_set", "std::map", "std::set"):
                return self.map_method(cls, name, n, st, fr)
            if name == "operator=" and self.I.prog.lookup(n["m"], fr.tu) is None and n["args"]:
                return self.assign(n, st, fr)
            if cls.startswith("hwy::N_"):
                if name == "operator=" and n["args"]:
                    return self.assign(n, st, fr)
                return None
        if name in CMP and cls in ("std", "absl", "__gnu_cxx", "std::rel_ops",
                                   "absl::container_internal", "absl::optional_internal"):
            return self.compare(name, n, st, fr)
        if name in OPMAP and cls in ("absl", "std"):
            return self.oper(name, n, st, fr)
        if fn in ("absl::operator~",):
            return self.I.typed(self.I.complement(self.V(n["args"][0], st, fr), self.I.ty(n["t"])),
                                self.I.ty(n["t"]))
        if fn.startswith("verif_shim::"):
            return VOID
        if fn.startswith("absl::StrCat"):
            return self.strcat(n, st, fr)
        if fn.startswith("absl::StrFormat") or fn.startswith("absl::StrJoin"):
            return T("call", "strcat")
        return None

    def strcat(self, n, st, fr):
        """concatenation: string pieces as lists, other pieces as their text"""
        from interp import NoModel
        parts = []
        try:
            for a in n["args"]:
                while True:
                    if a["k"] in ("cast", "tmp", "bindtmp") and "e" in a:
                        a = a["e"]
                    elif a["k"] == "ctor" and strip(a.get("cls", "")) == "absl::AlphaNum" and a["args"]:
                        a = a["args"][0]
                    else:
                        break
                t = self.I.deref_ty(self.I.ty(a["t"]))
                v = self.V(a, st, fr)
                if self.I.isint(t) or t["k"] in ("float", "bool", "enum"):
                    parts.append(T("call", "text", v))
                else:
                    parts.append(self.aslist(v, st))
        except (NoModel, KeyError, AttributeError):
            return T("call", "strcat")
        r = EMPTY
        for p in parts:
            r = cat(r, p)
        return r

    # ------------------------------------------------------------ constructors
    def ctor(self, n, t, st, fr):
        cls = strip(n["cls"])
        a = n["args"]
        pts = [self.I.ty(p) for p in n["pt"]]
        if cls == "absl::Status":
            if not a:
                return OKST
            if len(a) == 2:
                return T("err", "code")
            return self.V(a[0], st, fr)
        if cls == "absl::StatusOr":
            if not a:
                return T("err", "Unknown")
            src = self.I.deref_ty(self.I.ty(a[0]["t"]))
            sn = strip(src.get("n", ""))
            v = self.V(a[0], st, fr)
            if sn == "absl::Status" or sn == "absl::StatusOr":
                if v.op == "okst":
                    return T("err", "Internal")
                return v
            # conversion to the value type
            ta = t.get("a") or []
            if ta and isinstance(ta[0], int):
                v = self.convert(v, src, self.I.ty(ta[0]), st)
            return T("val", v)
        if OPTCLS.match(cls):
            if not a:
                return T("nullopt")
            src = self.I.deref_ty(self.I.ty(a[0]["t"]))
            sn = strip(src.get("n", ""))
            if sn.endswith("nullopt_t"):
                return T("nullopt")
            v = self.V(a[0], st, fr)
            if OPTCLS.match(sn):
                return v
            ta = t.get("a") or []
            if ta and isinstance(ta[0], int):
                v = self.convert(v, src, self.I.ty(ta[0]), st)
            return T("val", v)
        if cls.endswith("nullopt_t"):
            return T("nullopt_t")
        if SMART.match(cls):
            if not a:
                return NULL
            return self.V(a[0], st, fr)
        if FUNCLS.match(cls):
            if not a:
                return NULL
            v = self.V(a[0], st, fr)
            src = self.I.deref_ty(self.I.ty(a[0]["t"]))
            return self.functor(v, src)
        if cls in ("absl::uint128", "absl::int128"):
            if not a:
                return ZERO
            if len(a) == 2:
                hi, lo = self.V(a[0], st, fr), self.V(a[1], st, fr)
                return add(scale(hi, 1 << 64), lo)
            s = self.I.deref_ty(self.I.ty(a[0]["t"]))
            v = self.V(a[0], st, fr)
            return self.I.icast(v, s, {"k": "rec", "n": cls, "s": cls}, st.facts)
        if cls in ("absl::Span", "std::span"):
            return self.span_ctor(t, n, st, fr)
        if cls in ("absl::string_view", "std::basic_string_view"):
            if not a:
                return EMPTY
            if len(a) == 1:
                v = self.V(a[0], st, fr)
                return self.cstr(v, st)
            p, k = self.V(a[0], st, fr), self.V(a[1], st, fr)
            return self.from_ptr(p, k, st)
        if cls in ("std::basic_string", "std::__cxx11::basic_string"):
            return self.string_ctor(n, pts, st, fr)
        if cls == "std::vector" or cls == "absl::InlinedVector" or cls == "absl::FixedArray":
            return self.vector_ctor(n, t, pts, st, fr)
        if cls == "absl::uniform_int_distribution" and len(a) == 2:
            return T("uniform", self.V(a[0], st, fr), self.V(a[1], st, fr))
        if cls == "std::array":
            return self.I.zero_of(t) if not a else self.V(a[0], st, fr)
        if cls == "absl::Cord":
            return self.cstr(self.V(a[0], st, fr), st) if a else EMPTY
        if cls in ("std::pair", "std::tuple"):
            return self.tuple_ctor(n, t, st, fr)
        if cls == MDS:
            v = self.V(a[0], st, fr)
            src = self.I.deref_ty(self.I.ty(a[0]["t"]))
            if strip(src.get("n", "")) == MDS:
                return v
            l = self.aslist(v, st)
            et = self.elem_ty(src)
            if et is None:
                return None
            if et["k"] == "ptr":
                return self.derefs(l, st)
            return l
        if cls in ("absl::variant", "std::variant"):
            if not a:
                return T("variant", "?", T("zero", "variant"))
            s = self.I.deref_ty(self.I.ty(a[0]["t"]))
            v = self.V(a[0], st, fr)
            if strip(s.get("n", "")) in ("absl::variant", "std::variant"):
                return v
            return T("variant", strip(s.get("n", s["s"])), v)
        if cls in ("absl::flat_hash_map", "absl::btree_map", "absl::btree_set", "std::map",
                   "absl::flat_hash_set", "std::set", "std::unordered_map"):
            return T("emptymap") if not a else self.V(a[0], st, fr)
        if cls == "std::allocator":
            return VOID
        if cls == "absl::AlphaNum":
            return T("call", "alphanum", self.V(a[0], st, fr))
        if cls.startswith("absl::str_format_internal"):
            return VOID
        if cls.startswith("verif_shim::"):
            return VOID
        if cls in ("google::protobuf::io::StringOutputStream",
                   "google::protobuf::io::CodedOutputStream"):
            return T("stream", self.V(a[0], st, fr) if a[0].get("lv") is None or not a[0].get("lv")
                     else self.P(a[0], st, fr))
        if cls == "google::protobuf::io::CodedInputStream":
            p, k = self.V(a[0], st, fr), self.V(a[1], st, fr)
            return T("istream", self.from_ptr(p, k, st))
        if n.get("proto") and not a:
            return self.I.zero_of(t)
        if cls.startswith("absl::container_internal") and len(a) == 1:
            return self.V(a[0], st, fr)
        if "normal_iterator" in cls or cls == "std::move_iterator":
            return self.V(a[0], st, fr) if a else NULL
        return None

    def functor(self, v, src):
        if src["k"] == "rec" and v.op not in ("lam", "fn", "null", "ite", "functor") and \
                not FUNCLS.match(strip(src.get("n", ""))) and "(lambda" not in src["s"] and \
                "(anonymous class)" not in src["s"]:
            return T("functor", src["s"], v)
        return v

    def convert(self, v, src, dst, st):
        """implicit conversion when a value enters a template wrapper"""
        if dst["k"] == "rec" and FUNCLS.match(strip(dst.get("n", ""))):
            return self.functor(v, src)
        if self.I.isint(dst) and (self.I.isint(src) or src["k"] == "bool"):
            return self.I.icast(v, src, dst, st.facts)
        if dst["k"] == "rec" and strip(dst["n"]) in ("std::basic_string", "absl::string_view"):
            return self.cstr(v, st)
        return v

    def derefs(self, l, st):
        if l.op == "list":
            return T("list", *[self.I.read(x, st) for x in l.args])
        if l.op == "map":
            d = l.args[0]
            return T("map", d, l.args[1], self.I.read(l.args[2], st))
        if l.op == "cat":
            r = self.derefs(l.args[0], st)
            for x in l.args[1:]:
                r = cat(r, self.derefs(x, st))
            return r
        if l.op == "append":
            return append(self.derefs(l.args[0], st), self.I.read(l.args[1], st))
        if l.op == "slice":
            return slice_(self.derefs(l.args[0], st), l.args[1], l.args[2])
        return T("derefs", l)

    def cstr(self, v, st):
        if v.op == "ref" and v.args[1] and v.args[1][-1][0] == "i":
            base = T("ref", v.args[0], v.args[1][:-1])
            s = self.I.read(base, st)
            off = v.args[1][-1][1]
            if off is ZERO and s.op == "str":
                return s
            return slice_(s, off, sub(size(s), off))
        if v.op == "ref" and v.args[0][0] == "lit":
            return self.I.read(v, st)
        return self.aslist(v, st)

    def from_ptr(self, p, k, st):
        """contents of [p, p+k)"""
        if p.op in ("bitcast", "ptroff"):
            base, w, off = self.I.byte_place(p)
            k = mul(k, p.args[3] if p.op == "bitcast" else p.args[0].args[3])
            return bytes_(self.I.read(base, st), w, off, k)
        if p.op == "ref" and p.args[1] and p.args[1][-1][0] == "i":
            base = T("ref", p.args[0], p.args[1][:-1])
            return slice_(self.I.read(base, st), p.args[1][-1][1], k)
        if p.op == "ite":
            c = st.facts.simp(p.args[0])
            if c is TRUE:
                return self.from_ptr(p.args[1], k, st)
            if c is FALSE:
                return self.from_ptr(p.args[2], k, st)
            if p.args[1] is NULL:
                return self.from_ptr(p.args[2], k, st)
            return ite(c, self.from_ptr(p.args[1], k, st), self.from_ptr(p.args[2], k, st))
        if p is NULL:
            return EMPTY
        if p.op == "ref":
            return T("list", self.I.read(p, st)) if k is ONE else \
                T("sized", T("call", "mem", self.I.read(p, st)), k)
        return T("sized", T("call", "mem", p), k)

    def span_ctor(self, t, n, st, fr):
        a = n["args"]
        if not a:
            return EMPTY
        const = self.isconst_elem(t)
        if len(a) == 2:
            p, k = self.V(a[0], st, fr), self.V(a[1], st, fr)
            if const:
                return self.from_ptr(p, k, st)
            return self.mkspan(p, k)
        x = a[0]
        src = self.I.deref_ty(self.I.ty(x["t"]))
        if const:
            return self.aslist(self.V(x, st, fr), st)
        v = self.V(x, st, fr)
        if is_span(v) or v.op == "ite" and is_span(v.args[1]):
            return v
        if strip(src.get("n", "")) == "absl::Span":
            return v
        p = self.P(x, st, fr)
        return T("span", p, ZERO, size(v))

    def mkspan(self, p, k):
        if p.op == "ref" and p.args[1] and p.args[1][-1][0] == "i":
            return T("span", T("ref", p.args[0], p.args[1][:-1]), p.args[1][-1][1], k)
        if p.op == "ref" and k is ONE:
            return T("span", T("ref", p.args[0], p.args[1] + (("o",),)), ZERO, k)
        return T("span", p, ZERO, k)

    def string_ctor(self, n, pts, st, fr):
        a = n["args"]
        a = [x for x in a if not (self.I.ty(x["t"]).get("n", "").startswith("std::allocator"))]
        if not a:
            return EMPTY
        if len(a) == 1:
            v = self.V(a[0], st, fr)
            return self.cstr(v, st)
        t0 = self.I.deref_ty(self.I.ty(a[0]["t"]))
        if self.I.isint(t0):
            k, c = self.V(a[0], st, fr), self.V(a[1], st, fr)
            return resize(EMPTY, k, c)
        if t0["k"] in ("ptr", "arr"):
            t1 = self.I.deref_ty(self.I.ty(a[1]["t"]))
            p = self.V(a[0], st, fr)
            k = self.V(a[1], st, fr)
            if t1["k"] == "ptr" or "iterator" in t1.get("n", ""):
                return self.range_val(p, k, st)
            return self.from_ptr(p, k, st)
        p, q = self.V(a[0], st, fr), self.V(a[1], st, fr)
        return self.range_val(p, q, st)

    def range_val(self, p, q, st):
        d = self.I.ptr_diff(q, p)
        if d is None:
            return T("call", "range", p, q)
        return self.from_ptr(p, d, st)

    def vector_ctor(self, n, t, pts, st, fr):
        a = [x for x in n["args"] if not (
            strip(str(self.I.deref_ty(self.I.ty(x["t"])).get("n", ""))).startswith("std::allocator"))]
        if not a:
            return EMPTY
        t0 = self.I.deref_ty(self.I.ty(a[0]["t"]))
        et = self.elem_ty(t)
        if len(a) == 1:
            v = self.V(a[0], st, fr)
            if self.I.isint(t0):
                return resize(EMPTY, v, self.I.zero_of(et) if et else ZERO)
            return self.aslist(v, st)
        if self.I.isint(t0):
            k, x = self.V(a[0], st, fr), self.V(a[1], st, fr)
            return resize(EMPTY, k, x)
        p, q = self.V(a[0], st, fr), self.V(a[1], st, fr)
        return self.range_val(p, q, st)

    def tuple_ctor(self, n, t, st, fr):
        a = n["args"]
        ta = [self.I.ty(x) for x in (t.get("a") or []) if isinstance(x, int)]
        if not a:
            d = {}
            for i, x in enumerate(ta):
                d[str(i)] = self.I.zero_of(x)
            return mk_with(T("zero", "tuple"), d)
        if len(a) == 1 and len(ta) != 1:
            return self.V(a[0], st, fr)
        d = {}
        for i, x in enumerate(a):
            if i < len(ta) and ta[i]["k"] in ("ref", "rref"):
                d[str(i)] = self.P(x, st, fr)
                continue
            v = self.V(x, st, fr)
            if i < len(ta):
                v = self.convert(v, self.I.deref_ty(self.I.ty(x["t"])), ta[i], st)
            d[str(i)] = v
        return mk_with(T("zero", "tuple"), d)

    # ------------------------------------------------------------ lists
    def list_obj(self, n, st, fr):
        """(pointer, value) of the receiver"""
        p = self.I.objptr(n, st, fr)
        v = self.I.read(p, st)
        if v.op == "ite":
            v = st.facts.simp(v)
        return p, v

    def elem(self, p, v, i, st):
        """pointer to element i of list value v stored at p"""
        if v.op == "span":
            return ptr_add_(v.args[0], add(v.args[1], i))
        if v.op == "ite" and (v.args[1].op == "span" or v.args[2].op == "span"):
            return ite(v.args[0], self.elem(p, v.args[1], i, st), self.elem(p, v.args[2], i, st))
        return ptr_add_(p, i)

    def vsize(self, v):
        if v.op == "span":
            return v.args[2]
        if v.op == "ite":
            return ite(v.args[0], self.vsize(v.args[1]), self.vsize(v.args[2]))
        return size(v)

    def list_method(self, cls, name, n, st, fr):
        I_ = self.I
        p, v = self.list_obj(n, st, fr)
        a = n["args"]
        if name in STRSZ:
            return I_.typed(self.vsize(v), I_.ty(n["t"]))
        if name == "empty":
            return ieq(self.vsize(v), ZERO)
        if name in ("operator[]", "at", "Get", "Mutable") and len(a) == 1:
            i = self.V(a[0], st, fr)
            it = I_.ty(a[0]["t"])
            I_.oblige("index", b_and(le(ZERO, i), lt(i, self.vsize(v))), st, n, fr)
            r = self.elem(p, v, i, st)
            if name == "Mutable":
                return r
            if not n.get("lv"):
                return I_.typed(I_.read(r, st), I_.ty(n["t"]))
            return r
        if name in ("front", "back"):
            i = ZERO if name == "front" else sub(self.vsize(v), ONE)
            I_.oblige("index", lt(ZERO, self.vsize(v)), st, n, fr)
            return self.elem(p, v, i, st)
        if name in ("begin", "cbegin", "data"):
            if v.op != "span" and cls in ("absl::Span", "absl::string_view",
                                          "std::basic_string_view", MDS):
                r = ("const", v)
                st.vars[r] = v
                return ref(r, ("i", ZERO))
            return self.elem(p, v, ZERO, st)
        if name in ("end", "cend"):
            if v.op != "span" and cls in ("absl::Span", "absl::string_view",
                                          "std::basic_string_view", MDS):
                r = ("const", v)
                st.vars[r] = v
                return ref(r, ("i", size(v)))
            return self.elem(p, v, self.vsize(v), st)
        if name in NOOPS:
            vals = [self.V(x, st, fr) for x in a]
            if p.op == "ref" and cls in ("std::vector", "std::basic_string"):
                if name == "reserve" and vals:
                    # room for that many elements, as long as it is not given up
                    k = ("room",) + p.args
                    st.vars[k] = tmax(st.vars[k], vals[0]) if k in st.vars else vals[0]
                elif name == "shrink_to_fit":
                    st.vars.pop(("room",) + p.args, None)
            return VOID
        if name == "clear":
            I_.write(p, EMPTY, st)
            return VOID
        if name in ("push_back", "Add") and a:
            x = self.V(a[0], st, fr)
            et = None
            v = I_.read(p, st)
            t = I_.deref_ty(I_.ty(n["obj"]["t"]))
            if t["k"] == "ptr":
                t = I_.ty(t["p"])
            et = self.elem_ty(t)
            if et is not None:
                x = self.convert(x, I_.deref_ty(I_.ty(a[0]["t"])), et, st)
            I_.write(p, append(v, x), st)
            return VOID
        if name == "Add":
            t = I_.deref_ty(I_.ty(n["t"]))
            if t["k"] == "ptr":
                t = I_.ty(t["p"])
            I_.write(p, append(v, I_.zero_of(t)), st)
            return ptr_add_(p, size(v))
        if name == "emplace_back":
            x = self.emplace(n, a, st, fr)
            v = I_.read(p, st)
            I_.write(p, append(v, x), st)
            return ptr_add_(p, size(v))
        if name == "pop_back" or name == "RemoveLast":
            I_.write(p, slice_(v, ZERO, sub(size(v), ONE)), st)
            return VOID
        if name == "resize":
            k = self.V(a[0], st, fr)
            t = I_.deref_ty(I_.ty(n["obj"]["t"]))
            if t["k"] == "ptr":
                t = I_.ty(t["p"])
            et = self.elem_ty(t)
            x = self.V(a[1], st, fr) if len(a) > 1 else (
                I_.zero_of(et) if et else ZERO)
            I_.write(p, resize(v, k, x), st)
            return VOID
        if name == "operator=" and p.op == "ref":
            st.vars.pop(("room",) + p.args, None)
        if name in ("operator=",):
            return self.assign(n, st, fr, aslist=(cls not in ("absl::Span",)))
        if name == "assign" and len(a) == 2:
            x, y = self.V(a[0], st, fr), self.V(a[1], st, fr)
            if I_.isint(I_.deref_ty(I_.ty(a[0]["t"]))):
                I_.write(p, resize(EMPTY, x, y), st)
            else:
                I_.write(p, self.range_val(x, y, st), st)
            return VOID
        if name in ("substr", "subspan"):
            off = self.V(a[0], st, fr) if a else ZERO
            sz = self.vsize(v)
            rest = sub(sz, off)
            if len(a) > 1:
                k = self.V(a[1], st, fr)
                if k.op == "int" and k.args[0] >= (1 << 63):
                    k = rest
                elif not st.facts.entails(le(k, rest)):
                    k = tmin(k, rest)
            else:
                k = rest
            I_.oblige("index", le(off, sz), st, n, fr)
            if v.op == "span":
                return T("span", v.args[0], add(v.args[1], off), k)
            return slice_(v, off, k)
        if name in ("remove_prefix", "remove_suffix"):
            k, sz = self.V(a[0], st, fr), self.vsize(v)
            I_.oblige("index", le(k, sz), st, n, fr)
            off = k if name == "remove_prefix" else ZERO
            if v.op == "span":
                v = T("span", v.args[0], add(v.args[1], off), sub(sz, k))
            else:
                v = slice_(v, off, sub(sz, k))
            I_.write(p, v, st)
            return VOID
        if name in ("first", "last") and a:
            k = self.V(a[0], st, fr)
            if v.op == "span":
                return T("span", v.args[0], v.args[1] if name == "first" else
                         add(v.args[1], sub(self.vsize(v), k)), k)
            return slice_(v, ZERO if name == "first" else sub(self.vsize(v), k), k)
        if name.startswith("operator basic_string") or name in ("operator std::string",):
            return v
        if name in ("append", "operator+=") and len(a) == 1:
            x = self.cstr(self.V(a[0], st, fr), st)
            t = I_.deref_ty(I_.ty(a[0]["t"]))
            v = I_.read(p, st)
            if I_.isint(t):
                I_.write(p, append(v, x), st)
            else:
                I_.write(p, cat(v, x), st)
            return p
        if name == "insert" and len(a) == 3:
            pos = self.V(a[0], st, fr)
            x, y = self.V(a[1], st, fr), self.V(a[2], st, fr)
            d = I_.ptr_diff(pos, self.elem(p, v, size(v), st))
            if d is ZERO:
                I_.write(p, cat(v, self.range_val(x, y, st)), st)
                return VOID
            I_.write(p, T("call", "insert", v, x, y), st)
            return VOID
        if name == "swap" and len(a) == 1:
            q = self.P(a[0], st, fr)
            for r in (p, q):
                if r.op == "ref":
                    st.vars.pop(("room",) + r.args, None)
            x, y = I_.read(p, st), I_.read(q, st)
            I_.write(p, y, st)
            I_.write(q, x, st)
            return VOID
        if name == "copy" and len(a) >= 2:   # string::copy(dest, n, pos)
            dst = self.V(a[0], st, fr)
            k = self.V(a[1], st, fr)
            self.write_range(dst, slice_(v, ZERO, k), k, st)
            return k
        if name in ("c_str",):
            return self.elem(p, v, ZERO, st)
        if name == "capacity":
            room = st.vars.get(("room",) + p.args) if p.op == "ref" else None
            def fits(k):
                if k.op == "ite":
                    return b_ite(k.args[0], fits(k.args[1]), fits(k.args[2]))
                return le(k, room)
            if room is not None and st.facts.entails(fits(size(v))):
                return room
            return I_.typed(T("call", "capacity", v), I_.ty(n["t"]))
        if name == "fill":
            I_.write(p, T("rep", size(v), self.V(a[0], st, fr)), st)
            return VOID
        if name == "find" or name == "compare":
            return I_.typed(T("call", name, v, *self.eval_all(n, st, fr)), I_.ty(n["t"]))
        self.I.notes.add("unmodelled list method " + cls + "::" + name)
        args = self.eval_all(n, st, fr)
        if not n.get("cm"):
            I_.nev += 1
            I_.write(p, T("call", name, v, *args), st)
        return I_.result(T("call", cls + "::" + name, v, *args), n, st)

    def emplace(self, n, a, st, fr):
        t = self.I.deref_ty(self.I.ty(n["obj"]["t"]))
        if t["k"] == "ptr":
            t = self.I.ty(t["p"])
        et = self.elem_ty(t)
        vals = [self.V(x, st, fr) for x in a]
        if et is not None and et["k"] == "rec":
            en = strip(et["n"])
            if en in ("std::pair", "std::tuple"):
                if len(vals) >= 2:
                    return mk_with(T("zero", "tuple"),
                                   {str(i): v for i, v in enumerate(vals)})
                return vals[0] if vals else self.I.zero_of(et)
            if en in ("std::basic_string", "absl::string_view"):
                if len(vals) == 2:
                    return self.from_ptr(vals[0], vals[1], st)
                return self.cstr(vals[0], st) if vals else EMPTY
            if not vals:
                return self.I.zero_of(et)
            if len(vals) == 1:
                src = self.I.deref_ty(self.I.ty(a[0]["t"]))
                if src.get("s") == et.get("s") or strip(src.get("n", "")) == en:
                    return vals[0]
                return self.convert(vals[0], src, et, st)
            return T("call", "ctor:" + en, *vals)
        if not vals:
            return self.I.zero_of(et) if et else ZERO
        if et is not None:
            return self.convert(vals[0], self.I.deref_ty(self.I.ty(a[0]["t"])), et, st)
        return vals[0]

    def assign(self, n, st, fr, aslist=True):
        """a = b for value-like classes"""
        v = self.V(n["args"][0], st, fr)
        p = self.I.objptr(n, st, fr)
        src = self.I.deref_ty(self.I.ty(n["args"][0]["t"]))
        dst = self.I.deref_ty(self.I.ty(n["obj"]["t"]))
        if src["k"] in ("arr", "ptr") and strip(dst.get("n", "")) in (
                "std::basic_string", "absl::string_view"):
            v = self.cstr(v, st)
        elif aslist and v.op == "span":
            v = self.aslist(v, st)
        elif self.I.is128(dst):
            v = self.I.icast(v, src, dst, st.facts)
        self.I.write(p, v, st)
        return p

    def write_range(self, dst, vals, k, st):
        """*[dst, dst+k) = vals"""
        I_ = self.I
        if dst.op == "ref" and dst.args[1] and dst.args[1][-1][0] == "i":
            base = T("ref", dst.args[0], dst.args[1][:-1])
            off = dst.args[1][-1][1]
            old = I_.read(base, st)
            if old.op == "ite":
                old = st.facts.simp(old)
            I_.write(base, splice(old, off, k, vals, st.facts), st)
            return
        if dst.op in ("bitcast", "ptroff"):
            base, w, off = I_.byte_place(dst)
            old = I_.read(base, st)
            I_.write(base, setbytes(old, w, off, vals), st)
            return
        if dst.op == "ite":
            c = st.facts.simp(dst.args[0])
            if c is TRUE:
                return self.write_range(dst.args[1], vals, k, st)
            if c is FALSE:
                return self.write_range(dst.args[2], vals, k, st)
            if dst.args[1] is NULL:
                return self.write_range(dst.args[2], vals, k, st)
        if dst.op == "ref":
            if k is ONE:
                I_.write(dst, getidx(vals, ZERO, st.facts), st)
            else:
                I_.write(dst, setbytes(I_.read(dst, st), ZERO, ZERO, vals), st)
            return
        I_.write(dst, T("call", "mem", vals), st)

    # ------------------------------------------------------------ status etc.
    def status_method(self, cls, name, n, st, fr):
        I_ = self.I
        p = I_.objptr(n, st, fr)
        v = I_.read(p, st)
        if name == "ok":
            return st.facts.simp(ok(v))
        if name == "status":
            r = st.facts.simp(status_of(v))
            return I_.temp(r, st) if n.get("lv") else r
        if name in ("value", "operator*", "operator->", "ValueOrDie"):
            I_.oblige("unwrap", ok(v), st, n, fr)
            q = ptr_add(p, ("u",))
            if name == "operator->" or n.get("lv"):
                return q
            return I_.read(q, st)
        if name == "value_or":
            return ite(ok(v), unwrap(v), self.V(n["args"][0], st, fr))
        if name == "operator=":
            x = n["args"][0]
            s = I_.deref_ty(I_.ty(x["t"]))
            sn = strip(s.get("n", ""))
            w = self.V(x, st, fr)
            if cls == "absl::StatusOr" and sn not in ("absl::Status", "absl::StatusOr"):
                w = T("val", w)
            I_.write(p, w, st)
            return p
        if name in ("Update",):
            w = self.V(n["args"][0], st, fr)
            I_.write(p, ite(ok(v), w, v), st)
            return VOID
        if name in ("code", "raw_code") and not n.get("lv"):
            return I_.result(status_code(v), n, st)
        if name in ("message", "ToString") and not n.get("lv"):
            return I_.result(T("call", name, v), n, st)
        if name in ("IgnoreError", "SetPayload"):
            return VOID
        return None

    def ptr_method(self, cls, name, n, st, fr):
        I_ = self.I
        p = I_.objptr(n, st, fr)
        if name in ("operator=", "reset"):
            if n["args"]:
                x = self.V(n["args"][0], st, fr)
            else:
                x = NULL
            I_.write(p, x, st)
            return p if name == "operator=" else VOID
        v = I_.read(p, st)
        if v.op == "ite":
            v = st.facts.simp(v)
        if name == "release":
            I_.write(p, NULL, st)
            return v
        if name == "get":
            return v
        if name in ("operator->", "operator*"):
            I_.oblige("deref", b_not(eq(v, NULL)), st, n, fr)
            return v
        if name == "operator[]":
            return I_.ptr_off(v, self.V(n["args"][0], st, fr))
        if name == "operator bool":
            return b_not(eq(v, NULL))
        return None

    def opt_method(self, cls, name, n, st, fr):
        I_ = self.I
        p = I_.objptr(n, st, fr)
        v = I_.read(p, st)
        if name in ("has_value", "operator bool"):
            return st.facts.simp(has(v))
        if name in ("value", "operator*", "operator->"):
            I_.oblige("unwrap", has(v), st, n, fr)
            q = ptr_add(p, ("u",))
            if name == "operator->" or n.get("lv"):
                return q
            return I_.read(q, st)
        if name == "value_or":
            return ite(has(v), unwrap(v), self.V(n["args"][0], st, fr))
        if name == "reset":
            I_.write(p, T("nullopt"), st)
            return VOID
        if name in ("operator=", "emplace"):
            if not n["args"]:
                return None
            x = n["args"][0]
            s = I_.deref_ty(I_.ty(x["t"]))
            sn = strip(s.get("n", ""))
            w = self.V(x, st, fr)
            if sn.endswith("nullopt_t"):
                w = T("nullopt")
            elif not OPTCLS.match(sn):
                w = T("val", w)
            I_.write(p, w, st)
            return p
        return None

    def iter_method(self, cls, name, n, st, fr):
        I_ = self.I
        p = I_.objptr(n, st, fr)
        v = I_.read(p, st)
        if name in ("operator*", "operator->"):
            return v
        if name in ("operator++", "operator--"):
            d = ONE if name == "operator++" else I(-1)
            I_.write(p, I_.ptr_off(v, d), st)
            return p if not n["args"] else v
        if name in ("operator+", "operator-") and n["args"]:
            x = self.V(n["args"][0], st, fr)
            if I_.isint(I_.deref_ty(I_.ty(n["args"][0]["t"]))):
                return I_.ptr_off(v, x if name == "operator+" else neg(x))
            d = I_.ptr_diff(v, x)
            return d if d is not None else T("call", "ptrdiff", v, x)
        if name in ("operator+=", "operator-="):
            x = self.V(n["args"][0], st, fr)
            I_.write(p, I_.ptr_off(v, x if name == "operator+=" else neg(x)), st)
            return p
        if name in CMP and n["args"]:
            x = self.V(n["args"][0], st, fr)
            return I_.compare(CMP[name], v, x, {"k": "ptr"})
        if name == "operator[]":
            return I_.ptr_off(v, self.V(n["args"][0], st, fr))
        if name == "operator=":
            return self.assign(n, st, fr)
        if name == "base":
            return v
        return None

    def u128_method(self, cls, name, n, st, fr):
        I_ = self.I
        if name == "operator=":
            p = I_.objptr(n, st, fr)
            x = n["args"][0]
            v = I_.icast(self.V(x, st, fr), I_.deref_ty(I_.ty(x["t"])),
                         {"k": "rec", "n": cls, "s": cls}, st.facts)
            I_.write(p, v, st)
            return p
        t128 = {"k": "rec", "n": cls, "s": cls}
        m = re.match(r"operator(\+|-|\*|/|%|\^|&|\||<<|>>)=$", name)
        if m:
            b = self.V(n["args"][0], st, fr)
            p = I_.objptr(n, st, fr)
            a = I_.typed(I_.read(p, st), t128)
            r = I_.wrapped(m.group(1), I_.arith(m.group(1), a, b, t128, st.facts), t128, st)
            I_.write(p, I_.typed(r, t128), st)
            return p
        if name in ("operator++", "operator--"):
            p = I_.objptr(n, st, fr)
            a = I_.typed(I_.read(p, st), t128)
            I_.write(p, I_.wrapped("+", add(a, ONE if name == "operator++" else I(-1)), t128, st), st)
            return a if n["args"] else p
        p = I_.objptr(n, st, fr)
        v = I_.typed(I_.read(p, st), t128)
        if name == "operator bool":
            return b_not(ieq(v, ZERO))
        if name.startswith("operator "):
            t = I_.ty(n["t"])
            if t["k"] == "float":
                from interp import repr_float
                return T("flt", repr_float(float(v.args[0]))) if v.op == "int" else T("call", "i2f", v)
            return I_.icast(v, t128, t, st.facts)
        return None

    def tuple_assign(self, n, st, fr):
        v = self.V(n["args"][0], st, fr)
        p = self.I.objptr(n, st, fr)
        cur = self.I.read(p, st)
        if cur.op == "tie":
            for i, q in enumerate(cur.args):
                if q is not VOID:
                    self.I.write(q, getf(v, str(i)), st)
            return p
        self.I.write(p, v, st)
        return p

    # ------------------------------------------------------------ operators
    def compare(self, name, n, st, fr):
        I_ = self.I
        a, b = n["args"]
        ta, tb = I_.deref_ty(I_.ty(a["t"])), I_.deref_ty(I_.ty(b["t"]))
        va, vb = self.V(a, st, fr), self.V(b, st, fr)
        op = CMP[name]
        if I_.isint(ta) and I_.isint(tb):
            return st.facts.simp(I_.compare(op, va, vb, ta))
        if "iterator" in ta.get("n", "").lower() or va.op == "ref" and vb.op == "ref":
            return I_.compare(op, va, vb, {"k": "ptr"})
        na, nb = strip(ta.get("n", "")), strip(tb.get("n", ""))
        if OPTCLS.match(na) or OPTCLS.match(nb):
            if nb.endswith("nullopt_t"):
                r = b_not(has(va))
                return r if op == "==" else b_not(r)
            if na.endswith("nullopt_t"):
                r = b_not(has(vb))
                return r if op == "==" else b_not(r)
        va, vb = self.cstr(va, st), self.cstr(vb, st)
        if op in ("==", "!="):
            r = eq(va, vb)
            return r if op == "==" else b_not(r)
        return T("batom", T("call", op, va, vb))

    def oper(self, name, n, st, fr):
        I_ = self.I
        a = n["args"]
        t = I_.ty(n["t"])
        if strip(t.get("n", "")) in ("std::basic_string",) and name == "operator+":
            x = self.cstr(self.V(a[0], st, fr), st)
            y = self.cstr(self.V(a[1], st, fr), st)
            return cat(x, y)
        t0 = I_.deref_ty(I_.ty(a[0]["t"]))
        if not I_.isint(t0) and not I_.isint(t):
            return None
        x = self.V(a[0], st, fr)
        if len(a) == 1:
            if name == "operator~":
                return I_.complement(x, t)
            return I_.wrapped("-", neg(x), t, st) if name == "operator-" else x
        y = self.V(a[1], st, fr)
        if name in ("operator<<", "operator>>"):
            I_.oblige("shift", b_and(le(ZERO, y), lt(y, I(I_.intinfo(t)[0] if I_.intinfo(t) else 128))),
                      st, n, fr)
        r = I_.wrapped(OPMAP[name], I_.arith(OPMAP[name], x, y, t, st.facts), t, st)
        return I_.typed(r, t)

    # ------------------------------------------------------------ maps
    def map_method(self, cls, name, n, st, fr):
        """maps: values indexed by key(k); presence is a predicate of the map"""
        I_ = self.I
        p = I_.objptr(n, st, fr)
        v = I_.read(p, st)
        if "node_handle" in cls:
            if name in ("mapped", "key"):
                I_.oblige("key present", getf(v, "has"), st, n, fr)
                return ptr_add(p, ("f", name))
            return b_not(getf(v, "has")) if name == "empty" else None
        if "iterator" in cls:
            if v.op == "mit":
                if name in ("operator->", "operator*"):
                    m = I_.read(v.args[0], st)
                    return I_.temp(mk_with(T("zero", "tuple"), {
                        "0": v.args[1], "1": tm.getidx(m, T("key", v.args[1]), st.facts)}), st)
                if name in CMP:
                    return I_.compare(CMP[name], v, self.V(n["args"][0], st, fr), {"k": "ptr"})
                if name == "operator=":
                    return self.assign(n, st, fr)
            return None
        if name == "operator=":
            return self.assign(n, st, fr)
        if name == "clear":
            I_.write(p, T("emptymap"), st)
            return VOID
        if name == "size":
            return I_.typed(tm.msize(v), I_.ty(n["t"]))
        if name == "empty":
            return ieq(tm.msize(v), ZERO)
        args = [self.cstr(a, st) for a in self.eval_all(n, st, fr)]
        if name in ("end", "cend"):
            return T("mend", p)
        if name == "reserve":
            return VOID
        if name == "find":
            return T("mit", p, args[0], tm.mhas(v, args[0]))
        if name in ("contains", "count"):
            c = tm.mhas(v, args[0])
            return c if name == "contains" else ite(c, ONE, ZERO)
        if name == "at":
            I_.oblige("key present", tm.mhas(v, args[0]), st, n, fr)
            return ptr_add(p, ("i", T("key", args[0])))
        if name == "operator[]":
            k = T("key", args[0])
            c = tm.mhas(v, args[0])
            if c is not TRUE:
                z = I_.zero_of(I_.deref_ty(I_.ty(n["t"])))
                I_.write(p, ite(c, v, tm.setidx(v, k, z)), st)
            return ptr_add(p, ("i", k))
        if name == "extract":
            I_.write(p, tm.merase(v, args[0]), st)
            return mk_with(T("zero", "node"), {"has": tm.mhas(v, args[0]), "key": args[0],
                                               "mapped": tm.getidx(v, T("key", args[0]), st.facts)})
        if name == "erase" and I_.isint(I_.ty(n["t"])):
            I_.write(p, tm.merase(v, args[0]), st)
            return ite(tm.mhas(v, args[0]), ONE, ZERO)
        if name in ("try_emplace", "emplace", "insert", "insert_or_assign", "emplace_hint"):
            if name == "insert" and len(args) == 1:
                args = [getf(args[0], "0"), getf(args[0], "1")]
            hint = len(args) == 3
            if hint:
                args = args[1:]
            if len(args) != 2:
                return None
            k, x = args
            c = tm.mhas(v, k)
            nv = tm.setidx(v, T("key", k), x)
            I_.write(p, nv if name == "insert_or_assign" else ite(c, v, nv), st)
            it = T("mit", p, k, TRUE)
            if hint or name == "emplace_hint":
                return it
            return mk_with(T("zero", "tuple"), {"0": it, "1": b_not(c)})
        return None

    # ------------------------------------------------------------ protobuf
    def proto_msg(self, cls):
        m = self.cache.get(cls)
        if m is None:
            s = strip(cls)
            s = s.replace("distributed_point_functions::", "")
            s = s.replace("fss_gates::", "")
            m = self.protos.get(s)
            self.cache[cls] = m if m is not None else False
        return m or None

    def proto_call(self, fn, n, st, fr):
        i = fn.rfind("::")
        cls, name = fn[:i], fn[i + 2:]
        I_ = self.I
        a = n["args"]
        if cls.startswith("google::protobuf::Message") or name in (
                "SerializeAsString", "SerializeAsCord", "CopyFrom", "MergeFrom", "Clear",
                "ParseFromString", "operator=", "Swap", "swap", "DebugString",
                "ParseFromArray", "SerializeToString", "ByteSizeLong", "IsInitialized"):
            return self.proto_generic(cls, name, n, st, fr)
        m = self.proto_msg(cls)
        if m is None:
            return None
        F = m["fields"]

        def setpres(p, f):
            label, ty, oneof, num = F[f]
            if oneof:
                cur = I_.read(ptr_add(p, ("f", "#case:" + oneof)), st)
                I_.write(ptr_add(p, ("f", "#case:" + oneof)), I(num), st)
                for g, gn in m["oneofs"][oneof]:
                    if g != f:
                        q = ptr_add(p, ("f", g))
                        I_.write(q, T("zero", cls + "." + g), st)
            I_.write(ptr_add(p, ("f", "#has:" + f)), TRUE, st)

        def pres(p, f):
            label, ty, oneof, num = F[f]
            if oneof:
                c = I_.read(ptr_add(p, ("f", "#case:" + oneof)), st)
                c = self.caseval(c)
                return ieq(c, I(num))
            return I_.as_bool(I_.read(ptr_add(p, ("f", "#has:" + f)), st))
        if name in F:
            p = I_.objptr(n, st, fr)
            q = ptr_add(p, ("f", name))
            label = F[name][0]
            if label == "repeated":
                if a:
                    i_ = self.V(a[0], st, fr)
                    I_.oblige("index", b_and(le(ZERO, i_), lt(i_, size(I_.read(q, st)))), st, n, fr)
                    q = ptr_add_(q, i_)
                if n.get("lv"):
                    return q
                return I_.typed(I_.read(q, st), I_.ty(n["t"]))
            if n.get("lv"):
                return q
            return I_.typed(I_.read(q, st), I_.ty(n["t"]))
        for pre in ("set_", "mutable_", "has_", "clear_", "add_"):
            if name.startswith(pre) and name[len(pre):] in F:
                f = name[len(pre):]
                label = F[f][0]
                if pre == "set_":
                    vals = [self.V(x, st, fr) for x in a]
                    p = I_.objptr(n, st, fr)
                    q = ptr_add(p, ("f", f))
                    v = vals[-1]
                    if F[f][1] in ("string", "bytes"):
                        v = self.cstr(v, st) if len(vals) == 1 or label == "repeated" else \
                            self.from_ptr(vals[0], vals[1], st)
                    if label == "repeated":
                        q = ptr_add_(q, vals[0])
                    else:
                        setpres(p, f)
                    I_.write(q, v, st)
                    return VOID
                p = I_.objptr(n, st, fr)
                q = ptr_add(p, ("f", f))
                if pre == "mutable_":
                    if label == "repeated":
                        if a:
                            i_ = self.V(a[0], st, fr)
                            I_.oblige("index", b_and(le(ZERO, i_), lt(i_, size(I_.read(q, st)))),
                                      st, n, fr)
                            return ptr_add_(q, i_)
                        return q
                    setpres(p, f)
                    return q
                if pre == "has_":
                    return st.facts.simp(pres(p, f))
                if pre == "clear_":
                    I_.write(q, EMPTY if label == "repeated" else T("zero", cls + "." + f), st)
                    if F[f][2]:
                        I_.write(ptr_add(p, ("f", "#case:" + F[f][2])), ZERO, st)
                    I_.write(ptr_add(p, ("f", "#has:" + f)), FALSE, st)
                    return VOID
                if pre == "add_":
                    v = I_.read(q, st)
                    if a:
                        x = self.V(a[0], st, fr)
                        if F[f][1] in ("string", "bytes"):
                            x = self.cstr(x, st)
                        I_.write(q, append(I_.read(q, st), x), st)
                        return VOID
                    et = I_.ty(n["t"])
                    if et["k"] == "ptr":
                        et = I_.ty(et["p"])
                    z = EMPTY if F[f][1] in ("string", "bytes") else I_.zero_of(et)
                    I_.write(q, append(v, z), st)
                    return ptr_add_(q, size(v))
        if name.endswith("_size") and name[:-5] in F:
            p = I_.objptr(n, st, fr)
            return self.rep_size(I_.read(ptr_add(p, ("f", name[:-5])), st))
        if name.endswith("_case") and name[:-5] in m["oneofs"]:
            p = I_.objptr(n, st, fr)
            return self.caseval(I_.read(ptr_add(p, ("f", "#case:" + name[:-5])), st))
        return None

    def rep_size(self, v):
        """a repeated protobuf field has at most 2^31-1 elements"""
        r = size(v)
        if r.op == "size" and r in RNG and (RNG[r][1] is None or RNG[r][1] > (1 << 31) - 1):
            RNG[r] = (0, (1 << 31) - 1)
        return r

    def caseval(self, c):
        if c.op == "zero":
            return ZERO
        if c.op == "fld":
            set_rng(c, 0, 1 << 29)
        return c

    def proto_generic(self, cls, name, n, st, fr):
        I_ = self.I
        a = n["args"]
        if name == "SerializeAsString" or name == "SerializeAsCord":
            p = I_.objptr(n, st, fr)
            return T("call", "serialize", I_.read(p, st))
        if name in ("operator=", "CopyFrom"):
            v = self.V(a[0], st, fr)
            p = I_.objptr(n, st, fr)
            I_.write(p, v, st)
            return p if name == "operator=" else VOID
        if name == "Clear":
            p = I_.objptr(n, st, fr)
            t = I_.deref_ty(I_.ty(n["obj"]["t"]))
            if t["k"] == "ptr":
                t = I_.ty(t["p"])
            I_.write(p, I_.zero_of(t), st)
            return VOID
        if name in ("ParseFromString",):
            v = self.cstr(self.V(a[0], st, fr), st)
            p = I_.objptr(n, st, fr)
            t = I_.deref_ty(I_.ty(n["obj"]["t"]))
            if t["k"] == "ptr":
                t = I_.ty(t["p"])
            return self.parse(v, p, strip(t.get("n", "")), st)
        if name == "ParseFromCodedStream":
            s = self.I.read(self.V(a[0], st, fr), st)
            p = I_.objptr(n, st, fr)
            t = I_.deref_ty(I_.ty(n["obj"]["t"]))
            if t["k"] == "ptr":
                t = I_.ty(t["p"])
            src = s.args[0] if s.op == "istream" else s
            return self.parse(src, p, strip(t.get("n", "")), st)
        if name == "SerializeToCodedStream":
            p = I_.objptr(n, st, fr)
            s = self.I.read(self.V(a[0], st, fr), st)
            v = T("call", "serialize", I_.read(p, st))
            tgt = self.stream_target(s, st)
            if tgt is not None:
                I_.write(tgt, v, st)
            return TRUE
        if name == "SerializeToString":
            p = I_.objptr(n, st, fr)
            q = self.V(a[0], st, fr)
            I_.write(q, T("call", "serialize", I_.read(p, st)), st)
            return TRUE
        if name == "DebugString":
            return T("call", "strcat")
        if name in ("Swap", "swap"):
            p = I_.objptr(n, st, fr)
            q = self.V(a[0], st, fr) if I_.ty(n["pt"][0])["k"] == "ptr" else self.P(a[0], st, fr)
            x, y = I_.read(p, st), I_.read(q, st)
            I_.write(p, y, st)
            I_.write(q, x, st)
            return VOID
        return None

    def stream_target(self, s, st):
        k = 0
        while s.op == "stream" and k < 4:
            x = s.args[0]
            y = self.I.read(x, st) if x.op == "ref" else x
            if y.op == "stream":
                s = y
                k += 1
                continue
            return x
        return None

    def parse(self, v, p, cls, st):
        I_ = self.I
        if v.op == "call" and v.args[0] == "serialize":
            I_.write(p, v.args[1], st)
            return TRUE
        I_.write(p, T("call", "parse", cls, v), st)
        return T("batom", T("call", "parses", cls, v))


def has(v):
    if v.op == "val":
        return TRUE
    if v.op == "nullopt" or v.op == "zero":
        return FALSE
    if v.op == "ite":
        return b_ite(v.args[0], has(v.args[1]), has(v.args[2]))
    return T("ok", v)


def ptr_add_(p, i):
    from interp import ptr_add as pa
    return pa(p, ("i", i))


def ptr_add(p, *e):
    from interp import ptr_add as pa
    return pa(p, *e)


def ref(root, *path):
    return T("ref", root, tuple(path))


def splice(old, off, k, vals, facts):
    """old with [off, off+k) replaced by vals (size k)"""
    if off is ZERO and k is size(old):
        return vals
    if k is ONE:
        return setidx(old, off, getidx(vals, ZERO, facts))
    if old.op in ("list", "rep") and off.op == "int" and k.op == "int" and \
            size(old).op == "int" and size(old).args[0] <= 64 and k.args[0] <= 64:
        o, kk, s = off.args[0], k.args[0], size(old).args[0]
        if 0 <= o and o + kk <= s:
            out = [getidx(old, I(j)) for j in range(s)]
            for j in range(kk):
                out[o + j] = getidx(vals, I(j), facts)
            return T("list", *out)
    # element-wise description when vals is a map or repetition
    return T("splice", old, off, k, vals)


# ---------------------------------------------------------------- free functions
def f_move(m, fn, n, st, fr):
    a = n["args"][0]
    if len(n["args"]) > 1:
        return None
    if n.get("lv"):
        return m.P(a, st, fr)
    return m.V(a, st, fr)


def f_expect(m, fn, n, st, fr):
    return m.V(n["args"][0], st, fr)


def f_okstatus(m, fn, n, st, fr):
    return OKST


def f_makespan(m, fn, n, st, fr):
    a = n["args"]
    const = fn.endswith("MakeConstSpan")
    rt = m.I.ty(n["t"])
    if m.isconst_elem(rt):
        const = True
    if len(a) == 2:
        p = m.V(a[0], st, fr)
        t1 = m.I.deref_ty(m.I.ty(a[1]["t"]))
        k = m.V(a[1], st, fr)
        if t1["k"] == "ptr":
            k = m.I.ptr_diff(k, p) or T("call", "ptrdiff", k, p)
        if const:
            return m.from_ptr(p, k, st)
        return m.mkspan(p, k)
    et = m.elem_ty(rt)
    at = m.I.deref_ty(m.I.ty(a[0]["t"]))
    if et is not None and et["k"] == "ptr" and \
            strip(at.get("n", "")) == "google::protobuf::RepeatedPtrField":
        # a span over the pointers to the elements
        p = m.P(a[0], st, fr)
        d = m.I.depth
        return mk_map(d, size(m.I.read(p, st)), ptr_add(p, ("i", T("bi", d))))
    if const:
        return m.L(a[0], st, fr)
    p = m.P(a[0], st, fr)
    v = m.I.read(p, st)
    if v.op == "span":
        return v
    return T("span", p, ZERO, size(v))


def f_copy(m, fn, n, st, fr):
    a = n["args"]
    p = m.V(a[0], st, fr)
    if fn.endswith("copy_n"):
        k = m.V(a[1], st, fr)
    else:
        q = m.V(a[1], st, fr)
        k = m.I.ptr_diff(q, p)
        if k is None:
            k = T("call", "ptrdiff", q, p)
    dst = m.V(a[2], st, fr)
    m.I.log(fn, [p, k, dst], n, st, fr, None)
    vals = m.from_ptr(p, k, st)
    m.write_range(dst, vals, k, st)
    return m.I.ptr_off(dst, k)


def f_memcpy(m, fn, n, st, fr):
    a = n["args"]
    dst, src, k = m.V(a[0], st, fr), m.V(a[1], st, fr), m.V(a[2], st, fr)
    vals = m.from_ptr(src, k, st)
    m.write_range(dst, vals, k, st)
    return dst


def f_fill(m, fn, n, st, fr):
    a = n["args"]
    p = m.V(a[0], st, fr)
    if fn.endswith("fill_n"):
        k, v = m.V(a[1], st, fr), m.V(a[2], st, fr)
    elif fn.endswith("memset"):
        v, k = m.V(a[1], st, fr), m.V(a[2], st, fr)
    else:
        q, v = m.V(a[1], st, fr), m.V(a[2], st, fr)
        k = m.I.ptr_diff(q, p)
        if k is None:
            k = T("call", "ptrdiff", q, p)
    m.write_range(p, T("rep", k, v), k, st)
    return p


def f_count(m, fn, n, st, fr):
    a = n["args"]
    p, q, v = m.V(a[0], st, fr), m.V(a[1], st, fr), m.V(a[2], st, fr)
    k = m.I.ptr_diff(q, p)
    if k is None:
        return None
    k = st.facts.simp(k)
    l = m.from_ptr(p, k, st)
    if k.op == "int" and k.args[0] <= 16 and m.I.isint(m.I.deref_ty(m.I.ty(a[2]["t"]))):
        r = ZERO
        for i in range(k.args[0]):
            r = add(r, ite(ieq(getidx(l, I(i), st.facts), v), ONE, ZERO))
        return r
    return m.I.typed(T("call", "count", l, v), m.I.ty(n["t"]))


def f_iota(m, fn, n, st, fr):
    a = n["args"]
    p, q, v = m.V(a[0], st, fr), m.V(a[1], st, fr), m.V(a[2], st, fr)
    k = m.I.ptr_diff(q, p)
    if k is None:
        k = T("call", "ptrdiff", q, p)
    d = m.I.depth
    t = m.I.deref_ty(m.I.ty(a[2]["t"]))
    m.write_range(p, T("map", d, k, m.I.wrapped("+", add(v, T("bi", d)), t, st)), k, st)
    return VOID


def f_minmax(m, fn, n, st, fr):
    a = n["args"]
    if len(a) == 1:
        v = m.L(a[0], st, fr)
        if v.op == "list" and v.args:
            r = v.args[0]
            for x in v.args[1:]:
                r = tmin(r, x) if fn.endswith("min") else tmax(r, x)
            return r
        return None
    t = m.I.deref_ty(m.I.ty(a[0]["t"]))
    x, y = m.V(a[0], st, fr), m.V(a[1], st, fr)
    if not m.I.isint(t):
        return m.I.temp(T("call", fn, x, y), st) if n.get("lv") else T("call", fn, x, y)
    if fn.endswith("min"):
        r = x if st.facts.entails(le(x, y)) else y if st.facts.entails(le(y, x)) else tmin(x, y)
    else:
        r = y if st.facts.entails(le(x, y)) else x if st.facts.entails(le(y, x)) else tmax(x, y)
    return m.I.temp(r, st) if n.get("lv") else r


def f_swap(m, fn, n, st, fr):
    p, q = m.P(n["args"][0], st, fr), m.P(n["args"][1], st, fr)
    x, y = m.I.read(p, st), m.I.read(q, st)
    m.I.write(p, y, st)
    m.I.write(q, x, st)
    return VOID


def f_pair(m, fn, n, st, fr):
    d = {}
    ts = m.I.ty(n["t"]).get("a") or []
    for i, x in enumerate(n["args"]):
        v = m.V(x, st, fr)
        if v.op == "span":
            pass
        d[str(i)] = v
    return mk_with(T("zero", "tuple"), d)


def f_tie(m, fn, n, st, fr):
    return T("tie", *[m.P(x, st, fr) for x in n["args"]])


def f_get(m, fn, n, st, fr):
    a = n["args"][0]
    t = m.I.deref_ty(m.I.ty(a["t"]))
    ta = n.get("ta") or []
    cls = strip(t.get("n", ""))
    p = m.P(a, st, fr)
    if cls in ("absl::variant", "std::variant"):
        v = m.I.read(p, st)
        inner = v.args[1] if v.op == "variant" else T("fld", v, "alt")
        if n.get("lv"):
            return m.I.temp(inner, st)
        return inner
    idx = None
    for x in ta:
        idx = x
        break
    if isinstance(idx, int):
        want = m.I.ty(idx)["s"]
        for i, y in enumerate(t.get("a") or []):
            if isinstance(y, int) and m.I.ty(y)["s"] == want:
                idx = str(i)
                break
        else:
            return None
    if cls in ("std::array",):
        q = ptr_add_(p, I(int(idx)))
    else:
        q = ptr_add(p, ("f", str(idx)))
        cur = m.I.read(q, st)
        tys = t.get("a") or []
        k = int(idx)
        if k < len(tys) and isinstance(tys[k], int) and m.I.ty(tys[k])["k"] in ("ref", "rref"):
            return cur
    if n.get("lv"):
        return q
    return m.I.read(q, st)


def f_apply(m, fn, n, st, fr):
    """absl::apply of a lambda to the elements of a tuple"""
    lam = m.V(n["args"][0], st, fr)
    if lam.op != "lam":
        return None
    p = m.P(n["args"][1], st, fr)
    args = []
    for k, prm in enumerate(m.I.lams[lam.args[0]][0]["params"]):
        q = ptr_add(p, ("f", str(k)))
        args.append(q if m.I.ty(prm["t"])["k"] in ("ref", "rref") else m.I.read(q, st))
    return m.I.call_lambda(lam, args, st, n)


def f_makeuint128(m, fn, n, st, fr):
    return join64(m.V(n["args"][0], st, fr), m.V(n["args"][1], st, fr))


def f_max128(m, fn, n, st, fr):
    return I((1 << 128) - 1)


def join64(hi, lo):
    if hi.op == "ite" and lo.op == "ite" and hi.args[0] is lo.args[0]:
        return ite(hi.args[0], join64(hi.args[1], lo.args[1]), join64(hi.args[2], lo.args[2]))
    if hi.op == "hi64" and lo.op == "mod" and lo.args[1].op == "int" and \
            lo.args[1].args[0] == 1 << 64 and lo.args[0] is hi.args[0]:
        return hi.args[0]
    if hi.op == "div" and lo.op == "mod" and hi.args[0] is lo.args[0] and \
            hi.args[1] is lo.args[1]:
        return hi.args[0]
    return add(scale(hi, 1 << 64), lo)


def f_hi(m, fn, n, st, fr):
    v = m.V(n["args"][0], st, fr)
    return split64(v)[0]


def f_lo(m, fn, n, st, fr):
    v = m.V(n["args"][0], st, fr)
    return split64(v)[1]


def split64(v):
    k = I(1 << 64)
    if v.op == "int":
        return I(v.args[0] >> 64), I(v.args[0] & ((1 << 64) - 1))
    if tm._high_band(v, 1 << 64):
        return div(v, k), ZERO
    if v.op == "lin":
        c, d = lin_parts(v)
        for a, q in list(d.items()):
            if tm._high_band(a, 1 << 64):
                x = div(a, k)
                set_rng(x, 0, (1 << 64) - 1)
                del d[a]
                d[x] = d.get(x, 0) + (q << 64)
        hi = {a: q >> 64 for a, q in d.items() if q >= 1 << 64}
        lo = {a: q % (1 << 64) if a in hi else q for a, q in d.items() if a not in hi or q % (1 << 64)}
        l = mk_lin(c % (1 << 64), lo)
        lo_, hi_ = interval(l)
        if hi and lo_ is not None and lo_ >= 0 and hi_ is not None and hi_ < (1 << 64):
            return mk_lin(c >> 64, hi), l
    if v.op == "ite":
        a, b = split64(v.args[1]), split64(v.args[2])
        return ite(v.args[0], a[0], b[0]), ite(v.args[0], a[1], b[1])
    lo_, hi_ = interval(v)
    if lo_ is not None and lo_ >= 0 and hi_ is not None and hi_ < (1 << 64):
        return ZERO, v
    return div(v, k), mod(v, k)


def f_float(m, fn, n, st, fr):
    v = m.V(n["args"][0], st, fr)
    nm = fn.split("::")[-1]
    t = m.I.ty(n["t"])
    if nm == "abs" and m.I.isint(t):
        return ite(le(ZERO, v), v, neg(v))
    if v.op == "ite":
        return ite(v.args[0], *[fold_float(m, nm, x) for x in v.args[1:]])
    return fold_float(m, nm, v)


def fold_float(m, nm, v):
    import math
    from interp import repr_float, finite
    if v.op == "int":
        v = T("flt", repr_float(float(v.args[0])))
    if nm in ("log2", "log2l", "log2f"):
        if v.op == "flt" and float(v.args[0]) > 0:
            return T("flt", repr_float(math.log2(float(v.args[0]))))
        return T("call", "log2", v)
    if nm in ("ceil", "floor") and v.op == "flt":
        return T("flt", repr_float(float(getattr(math, nm)(float(v.args[0])))))
    if nm == "isnan" and finite(v):
        return FALSE
    if v.op == "flt" and nm in ("abs", "fabs"):
        return T("flt", v.args[0].lstrip("-"))
    if v.op == "flt" and nm == "isnan":
        return FALSE
    if nm in ("ceil", "floor"):
        return T("call", nm, v)
    if nm == "isnan":
        return T("batom", T("call", "isnan", v))
    return T("call", nm, v)


CODES = {"Cancelled": 1, "Unknown": 2, "InvalidArgument": 3, "DeadlineExceeded": 4, "NotFound": 5,
         "AlreadyExists": 6, "PermissionDenied": 7, "ResourceExhausted": 8,
         "FailedPrecondition": 9, "Aborted": 10, "OutOfRange": 11, "Unimplemented": 12,
         "Internal": 13, "Unavailable": 14, "DataLoss": 15, "Unauthenticated": 16}


def status_code(v):
    if v.op == "err" and v.args[0] in CODES:
        return I(CODES[v.args[0]])
    if v is OKST or v.op == "val":
        return ZERO
    if v.op == "ite":
        return ite(v.args[0], status_code(v.args[1]), status_code(v.args[2]))
    return T("call", "code", v)


def f_wrapunique(m, fn, n, st, fr):
    return m.V(n["args"][0], st, fr)


def f_makeunique(m, fn, n, st, fr):
    I_ = m.I
    t = I_.ty(n["t"])
    ta = t.get("a") or []
    et = I_.ty(ta[0]) if ta and isinstance(ta[0], int) else {"k": "other", "s": "?"}
    root = I_.fresh_root("h", et["s"] if et["k"] == "rec" else None)
    if et["k"] == "arr":
        k = m.V(n["args"][0], st, fr)
        st.vars[root] = T("rep", k, I_.zero_of(I_.ty(et["p"])))
        return ref(root, ("i", ZERO))
    if et["k"] == "rec" and not n["args"]:
        # run the (in-program) default constructor when there is one
        f = I_.default_ctor(et["s"])
        st.vars[root] = I_.default_construct(et, st, fr)
        if f is not None:
            I_.run_ctor(f, ref(root), [], st)
        return ref(root)
    vals = [m.V(x, st, fr) for x in n["args"]]
    st.vars[root] = vals[0] if len(vals) == 1 and et["k"] != "rec" else \
        T("call", "ctor:" + strip(et.get("n", "?")), *vals)
    if et["k"] == "rec" and len(vals) == 1:
        src = I_.deref_ty(I_.ty(n["args"][0]["t"]))
        if src.get("s") == et.get("s"):
            st.vars[root] = vals[0]
    return ref(root)


def f_alloc(m, fn, n, st, fr):
    I_ = m.I
    k = m.V(n["args"][0], st, fr)
    root = I_.fresh_root("h")
    I_.aligned.add(root)
    st.vars[root] = T("rep", k, T("undef", "aligned"))
    I_.nev += 1
    if I_.alloc:
        return ref(root, ("i", ZERO))
    oom = T("batom", T("oom", root[1]))
    return ite(oom, NULL, ref(root, ("i", ZERO)))


def f_holds(m, fn, n, st, fr):
    v = m.V(n["args"][0], st, fr)
    ta = n.get("ta") or []
    want = strip(m.I.ty(ta[0]).get("n", "")) if ta and isinstance(ta[0], int) else "?"
    if v.op == "variant":
        return B(v.args[0] == want)
    return T("batom", T("call", "holds", want, v))


def f_getif(m, fn, n, st, fr):
    p = m.V(n["args"][0], st, fr)
    v = m.I.read(p, st)
    t = m.I.ty(n["t"])
    want = strip(m.I.ty(t["p"]).get("n", "")) if t["k"] == "ptr" else "?"
    if v.op == "variant":
        if v.args[0] == want:
            return m.I.temp(v.args[1], st, m.I.ty(t["p"]).get("s"))
        return NULL
    q = ptr_add(p, ("f", "alt:" + want))
    return ite(T("batom", T("call", "holds", want, v)), q, NULL)


def f_bitcast(m, fn, n, st, fr):
    return m.I.typed(T("call", "bit_cast", m.V(n["args"][0], st, fr)), m.I.ty(n["t"]))


def f_rand(m, fn, n, st, fr):
    I_ = m.I
    p, k = m.V(n["args"][0], st, fr), m.V(n["args"][1], st, fr)
    ev = I_.log("RAND_bytes", [p, k], n, st, fr, None)
    r = T("rand", ev, tuple(x[0] for x in I_.loops))
    if I_.depth:
        r = T("rand", ev, tuple(I_.rounds.get(j) or T("bi", j) for j in range(I_.depth)))
    if not I_.trial:
        I_.events[-1].result = r
    w = ONE
    if p.op in ("bitcast", "ptroff"):
        base, w, off = I_.byte_place(p)
        listy = w is not ZERO
    else:
        listy = p.op == "ref" and p.args[1] and p.args[1][-1][0] == "i"
        base = T("ref", p.args[0], p.args[1][:-1]) if listy else p
        off = p.args[1][-1][1] if listy else ZERO
    if listy:
        old = I_.read(base, st)
        n_old = size(old)
        i, j = (tm._divided(off, w.args[0]), tm._divided(k, w.args[0])) if w.op == "int" else (None, None)
        if i is None or j is None:
            new = T("sized", T("call", "setbytes", old, off, T("sized", r, k), w), n_old)
        elif i is ZERO and st.facts.entails(ieq(j, n_old)):
            new = T("sized", r, n_old)
        else:
            end = add(i, j)
            new = T("sized", r, j)
            if w is not ONE and j.op == "int" and j.args[0] <= 4:
                bits = {"k": "int", "w": 8 * w.args[0], "sg": False}
                new = T("list", *[I_.typed(T("idx", new, I(x)), bits) for x in range(j.args[0])])
            new = cat(cat(slice_(old, ZERO, i), new), slice_(old, end, sub(n_old, end)))
            if old.op == "list" or size(new).op == "int" and size(new).args[0] <= 4:
                new = T("list", *[getidx(new, I(x), st.facts) for x in range(size(new).args[0])])
        I_.write(base, new, st)
    elif off is ZERO:
        I_.write(base, r if k is I(16) else T("partial", r, k), st)
    else:
        I_.write(base, T("call", "setbytes", I_.read(base, st), off, T("sized", r, k), ZERO), st)
    return I_.typed(T("randrc", ev), {"k": "int", "w": 32, "sg": True})


def f_require(m, fn, n, st, fr):
    a = n["args"]
    c = m.I.as_bool(m.V(a[0], st, fr))
    lab = a[1]
    while lab["k"] in ("cast", "tmp"):
        lab = lab["e"]
    m.I.require(lab["v"], c, st, n, fr)
    return VOID


def f_any(m, fn, n, st, fr):
    I_ = m.I
    a = n["args"]
    lab = a[0]
    while lab["k"] in ("cast", "tmp"):
        lab = lab["e"]
    t = I_.ty(n["t"])
    s = T("sym", lab["v"])
    if n.get("lv"):
        t = I_.deref_ty(t)
        r = ("any", lab["v"])
        if r not in st.vars:
            st.vars[r] = I_.typed(s, t)
        if t["k"] == "rec":
            I_.rootcls.setdefault(r, t["s"])
        return ref(r)
    if t["k"] == "ptr":
        return s
    return I_.typed(s, t)


def f_same(m, fn, n, st, fr):
    x, y = m.V(n["args"][0], st, fr), m.V(n["args"][1], st, fr)
    x, y = m.aslist(x, st), m.aslist(y, st)
    return m.I.same(st.facts.simp(x), st.facts.simp(y))


def f_mentions(m, fn, n, st, fr):
    x, y = m.V(n["args"][0], st, fr), m.V(n["args"][1], st, fr)
    x = st.facts.simp(m.aslist(x, st))
    y = st.facts.simp(m.aslist(y, st))
    return B(m.I.mentions(x, y))


def f_random(m, fn, n, st, fr):
    x = st.facts.simp(m.aslist(m.V(n["args"][0], st, fr), st))
    while True:
        if x.op == "sized":
            x = x.args[0]
        elif x.op in ("cast", "typed"):
            x = x.args[-1]
        elif x.op == "call" and x.args[0] == "bit_cast":
            x = x.args[1]
        else:
            break
    return B(x.op == "rand" or x.op == "idx" and x.args[0].op == "sized" and x.args[0].args[0].op == "rand")


def f_unreachable(m, fn, n, st, fr):
    lab = n["args"][0]
    while lab["k"] in ("cast", "tmp"):
        lab = lab["e"]
    m.I.require(lab["v"], FALSE, st, n, fr)
    return VOID


def label_of(lab):
    while lab["k"] in ("cast", "tmp"):
        lab = lab["e"]
    return lab["v"]


def f_assume(m, fn, n, st, fr):
    st.assume(m.I.as_bool(m.V(n["args"][0], st, fr)))
    return VOID


def f_fn(m, fn, n, st, fr):
    """an uninterpreted function of its arguments"""
    I_ = m.I
    vals = [m.aslist(m.V(a, st, fr), st) for a in n["args"][1:]]
    return I_.typed(T("call", "model:" + label_of(n["args"][0]), *vals), I_.ty(n["t"]))


def f_residue(m, fn, n, st, fr):
    """sum or difference of two integers modulo a constant"""
    n_, a, b = [m.V(x, st, fr) for x in n["args"]]
    return res(sub(a, b) if "Difference" in fn else add(a, b), st.facts.simp(n_))


def f_fresh(m, fn, n, st, fr):
    I_ = m.I
    k = I_.log("fresh:" + label_of(n["args"][0]), [], n, st, fr, None)
    return I_.typed(T("ev", k, label_of(n["args"][0]),
                      tuple(I_.rounds.get(j) or T("bi", j) for j in range(I_.depth))), I_.ty(n["t"]))


def f_void(m, fn, n, st, fr):
    return VOID


def f_visit(m, fn, n, st, fr):
    lam = m.V(n["args"][0], st, fr)
    v = m.V(n["args"][1], st, fr)
    m.I.notes.add("visit")
    return m.I.result(T("call", "visit", v), n, st)


def whole(m, p, st):
    """pointer to the first element of an array: the array"""
    if p.op == "ref" and p.args[1] and p.args[1][-1] == ("i", ZERO):
        return T("ref", p.args[0], p.args[1][:-1])
    return None


def f_shainit(m, fn, n, st, fr):
    m.I.write(m.V(n["args"][0], st, fr), EMPTY, st)
    return ONE


def f_shaupdate(m, fn, n, st, fr):
    c, p, k = m.eval_all(n, st, fr)[:3]
    ctx = m.I.read(c, st)
    m.I.write(c, cat(ctx, m.from_ptr(p, k, st)), st)
    return ONE


def f_shafinal(m, fn, n, st, fr):
    md, c = m.eval_all(n, st, fr)[:2]
    ctx = m.I.read(c, st)
    dig = T("sized", T("call", "sha256", ctx), I(32))
    m.write_range(md, dig, I(32), st)
    m.I.write(c, T("call", "shadone", ctx), st)
    return ONE


def f_aesctr(m, fn, n, st, fr):
    """AES in counter mode: the bytes of one key stream, which is a function of
    key and initial counter; the three state variables say how far it was used"""
    I_ = m.I
    src, dst, k, key, iv, ec, num = m.eval_all(n, st, fr)[:7]
    I_.log(fn, [src, dst, k, key, iv, ec, num], n, st, fr, None)
    ivp, ecp = whole(m, iv, st), whole(m, ec, st)
    if ivp is None or ecp is None:
        return None
    kv, ivv, ecv, nv = I_.read(key, st), I_.read(ivp, st), I_.read(ecp, st), I_.read(num, st)
    if nv is ZERO:
        start = (kv, ivv, ZERO)
    elif ivv.op == "sized" and ivv.args[0].op == "ctriv" and ivv.args[0].args[0] is kv and \
            ecv.op == "sized" and ecv.args[0] is T("ctrec", *ivv.args[0].args) and \
            nv is T("ctrnum", *ivv.args[0].args):
        start = ivv.args[0].args
    else:
        start = (T("call", "ctrmix", kv, ivv, ecv, nv), EMPTY, ZERO)
    stream = T("ctrstream", start[0], start[1])
    data = m.from_ptr(src, k, st)
    out = T("slice", stream, start[2], k)
    z = data
    while z.op == "slice" or z.op == "sized":
        z = z.args[0]
    if not (z.op == "rep" and z.args[1] is ZERO):
        out = T("sized", T("call", "xorbytes", out, data), k)
    m.write_range(dst, out, k, st)
    tok = (start[0], start[1], add(start[2], k))
    I_.write(ivp, T("sized", T("ctriv", *tok), I(16)), st)
    I_.write(ecp, T("sized", T("ctrec", *tok), I(16)), st)
    I_.write(num, T("ctrnum", *tok), st)
    return VOID


FREE = {
    "SHA256_Init": f_shainit, "SHA256_Update": f_shaupdate, "SHA256_Final": f_shafinal,
    "AES_ctr128_encrypt": f_aesctr,
    "std::move": f_move, "std::forward": f_move, "absl::move": f_move,
    "__builtin_expect": f_expect, "std::as_const": f_move,
    "absl::OkStatus": f_okstatus,
    "absl::MakeSpan": f_makespan, "absl::MakeConstSpan": f_makespan,
    "std::copy_n": f_copy, "std::copy": f_copy, "std::move_backward": None,
    "absl::c_copy": None, "memcpy": f_memcpy, "std::memcpy": f_memcpy,
    "std::fill": f_fill, "std::fill_n": f_fill, "memset": f_fill, "std::memset": f_fill,
    "std::iota": f_iota, "std::count": f_count, "std::min": f_minmax, "std::max": f_minmax,
    "std::swap": f_swap, "std::make_pair": f_pair, "std::make_tuple": f_pair,
    "std::tie": f_tie, "std::get": f_get, "absl::get": f_get,
    "absl::MakeUint128": f_makeuint128, "absl::Uint128Max": f_max128, "absl::Uint128High64": f_hi,
    "absl::Uint128Low64": f_lo,
    "std::log2": f_float, "log2": f_float, "std::ceil": f_float, "ceil": f_float,
    "std::floor": f_float, "floor": f_float, "std::abs": f_float, "std::isnan": f_float,
    "absl::WrapUnique": f_wrapunique, "std::make_unique": f_makeunique,
    "absl::make_unique": f_makeunique,
    "hwy::AllocateAligned": f_alloc,
    "absl::holds_alternative": f_holds, "absl::get_if": f_getif,
    "std::holds_alternative": f_holds, "std::get_if": f_getif,
    "absl::bit_cast": f_bitcast, "RAND_bytes": f_rand,
    "absl::visit": f_visit, "absl::apply": f_apply, "std::apply": f_apply,
    "verif::Require": f_require, "verif::Any": f_any, "verif::AnyRef": f_any,
    "verif::Same": f_same, "verif::Mentions": f_mentions, "verif::Random": f_random,
    "verif::Unreachable": f_unreachable, "verif::Assume": f_assume,
    "verif::Fn": f_fn, "verif::SumMod": f_residue, "verif::DifferenceMod": f_residue, "verif::Fresh": f_fresh,
}
FREE = {k: v for k, v in FREE.items() if v is not None}

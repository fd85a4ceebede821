"""Hash-consed value-graph terms, their normal forms, and the fact domain.

Terms are the abstract values of the analysis (a gated value graph in the
sense of gated SSA): control-flow joins become `ite` nodes, loops become
`map`/`fold` nodes, calls that cannot be looked into become event nodes.
`Facts` is the must-hold condition domain: boolean literals, linear integer
inequalities, clauses, and bounded universal facts left behind by loops.
"""
import sys
from fractions import Fraction

sys.setrecursionlimit(100000)

_table = {}
_next = [0]


class T(object):
    __slots__ = ("op", "args", "id", "flag", "_fv")

    def __new__(cls, op, *args):
        key = (op, args)
        t = _table.get(key)
        if t is not None:
            return t
        t = object.__new__(cls)
        t.op = op
        t.args = args
        _next[0] += 1
        t.id = _next[0]
        f = op in ("ite", "not", "and", "or", "le", "eq0", "eq", "ok", "forall",
                   "isnull", "cast", "batom", "max", "min") or (op == "idx" and args[0].op in (
                       "flat", "mapset", "cat", "append", "splice", "setidx", "resize", "list")) or (
                           op in ("mod", "div") and args[0].op == "lin" and args[1].op == "int" and
                           args[1].args[0] > 2) or (
                               op == "lin" and len(args[1]) > 1 and any(
                                   k.op == "div" and k.args[1].op == "int" and
                                   v % k.args[1].args[0] == 0 for k, v in args[1]))
        if not f:
            for a in args:
                if a.__class__ is T:
                    if a.flag:
                        f = True
                        break
                elif a.__class__ is tuple and _tupflag(a):
                    f = True
                    break
        t.flag = f
        t._fv = None
        _table[key] = t
        return t

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def _tupflag(a):
    for x in a:
        if x.__class__ is T:
            if x.flag:
                return True
        elif x.__class__ is tuple and _tupflag(x):
            return True
    return False


TRUE = T("true")
FALSE = T("false")
NULL = T("null")
OKST = T("okst")
VOID = T("void")
EMPTY = T("list")

# value ranges of opaque integer atoms, from their C++ types
RNG = {}


def set_rng(t, lo, hi):
    if t.op in ("int", "lin", "ite"):
        return
    if t not in RNG:
        RNG[t] = (lo, hi)


def I(n):
    return T("int", int(n))


ZERO = I(0)
ONE = I(1)


def is_int(t):
    return t.op == "int"


def B(b):
    return TRUE if b else FALSE


# ------------------------------------------------------------------ linear
def lin_parts(t):
    """-> (const, dict atom->coef)"""
    if t.op == "int":
        return t.args[0], {}
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    if t is TRUE:
        return 1, {}
    if t is FALSE:
        return 0, {}
    return 0, {t: 1}


def mk_lin(c, d):
    items = tuple(sorted(((a, k) for a, k in d.items() if k != 0),
                         key=lambda x: x[0].id))
    if not items:
        return I(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return T("lin", c, items)


def _ite_const(t):
    return t.op == "ite" and t.args[1].op == "int" and t.args[2].op == "int"


def add(a, b):
    if a.op == "int" and b.op == "int":
        return I(a.args[0] + b.args[0])
    if a.op == "ite" and b.op == "int":
        return ite(a.args[0], add(a.args[1], b), add(a.args[2], b))
    if b.op == "ite" and a.op == "int":
        return ite(b.args[0], add(a, b.args[1]), add(a, b.args[2]))
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    for k, v in db.items():
        da[k] = da.get(k, 0) + v
    for k, v in da.items():
        if k.op == "div" and v and k.args[1].op == "int":
            m = k.args[1].args[0]
            if m > 1 and v % m == 0 and len(da) > 1:
                r = _recombine(ca + cb, da, k, v // m)
                if r is not None:
                    return r
    return mk_lin(ca + cb, da)


def _recombine(c0, d, q, c):
    """c*m*(x div m) + c*(x mod m) is c*x"""
    x, m = q.args
    if interval(x)[0] is None or interval(x)[0] < 0:
        return None
    yc, yd = lin_parts(mod(x, m))
    if not yd or any(d.get(k) != v * c for k, v in yd.items()):
        return None
    e = {k: v for k, v in d.items() if k not in yd and k is not q}
    return add(mk_lin(c0 - yc * c, e), scale(x, c))


def scale(a, n):
    if a.op == "ite":
        return ite(a.args[0], scale(a.args[1], n), scale(a.args[2], n))
    c, d = lin_parts(a)
    return mk_lin(c * n, {k: v * n for k, v in d.items()})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def _acn(op, parts):
    """n-ary AC node."""
    flat = []
    for p in parts:
        if p.op == op:
            flat.extend(p.args)
        else:
            flat.append(p)
    return sorted(flat, key=lambda x: x.id)


def mul(a, b):
    if a.op == "int":
        return scale(b, a.args[0])
    if b.op == "int":
        return scale(a, b.args[0])
    if a.op == "pow2" and b.op == "pow2":
        return T("pow2", add(a.args[0], b.args[0]))
    return T("mul", *_acn("mul", [a, b]))


def div(a, b):
    if b.op == "int" and b.args[0] != 0:
        n = b.args[0]
        if a.op == "int":
            q = abs(a.args[0]) // abs(n)
            return I(q if (a.args[0] >= 0) == (n > 0) else -q)
        if n == 1:
            return a
        if a.op == "ite" and _ite_const(a):
            return ite(a.args[0], div(a.args[1], b), div(a.args[2], b))
        c, d = lin_parts(a)
        if n > 0 and c % n == 0 and all(v % n == 0 for v in d.values()):
            return mk_lin(c // n, {k: v // n for k, v in d.items()})
        if n > 0 and a.op == "lin" and all(v % n == 0 for v in d.values()) and _nonneg(a):
            return mk_lin(c // n, {k: v // n for k, v in d.items()})
        if a.op == "div" and a.args[1].op == "int":
            return div(a.args[0], I(a.args[1].args[0] * n))
    if a.op == "int" and a.args[0] == 0:
        return ZERO
    return T("div", a, b)


def _nonneg(a):
    lo, _ = interval(a)
    return lo is not None and lo >= 0


def mod(a, b):
    if b.op == "int" and b.args[0] > 0:
        n = b.args[0]
        if a.op == "int" and a.args[0] >= 0:
            return I(a.args[0] % n)
        if n == 1:
            return ZERO
        if a.op == "mod" and a.args[1] is b:
            return a
        if a.op in ("res", "mod", "cast") or n & (n - 1):
            lo, hi = interval(a)
            if lo is not None and hi is not None and lo >= 0 and hi < n:
                return a
        if a.op == "lin" and all(v % n == 0 for _, v in a.args[1]) and _nonneg(a):
            return I(a.args[0] % n)
        if a.op == "lin" and (a.args[0] >= n or any(v % n == 0 for _, v in a.args[1])):
            c, d = lin_parts(a)
            b_ = mk_lin(c % n, {x: v for x, v in d.items() if v % n})
            if _nonneg(a) and (b_.op != "lin" or _nonneg(b_)):
                lo, _ = interval(b_)
                if lo is not None and lo >= 0:
                    return mod(b_, b)
        if n & (n - 1) == 0 and (a.op in ("xor", "band") or a.op == "ite" and _bitsy(a)):
            return _mask(n - 1, a)
        if a.op == "lin" and n & (n - 1):
            if any(x.op in ("res", "mod") and x.args[1].op == "int" and x.args[1].args[0] % n == 0 for x, _ in a.args[1]):
                lo, _ = interval(a)
                if lo is not None and lo >= 0:
                    return res(a, b)
    elif b.op != "int":
        # (.. + k * (u mod b) + ..) mod b == (.. + k * u + ..) mod b
        if a.op == "mod" and a.args[1] is b:
            return a
        if a.op == "lin" and any(x.op == "mod" and x.args[1] is b for x, _ in a.args[1]) and _nonneg(a):
            c, d = lin_parts(a)
            a_ = mk_lin(c, {})
            for x, v in d.items():
                u = x.args[0] if x.op == "mod" and x.args[1] is b else x
                a_ = add(a_, mul(I(v), u))
            if _nonneg(a_):
                return mod(a_, b)
    return T("mod", a, b)


def res(a, n):
    """the residue of a modulo the constant n (an element of 0..n-1, also for
    negative a)"""
    m = n.args[0]
    if a.op == "int":
        return I(a.args[0] % m)
    if a.op == "ite":
        return ite(a.args[0], res(a.args[1], n), res(a.args[2], n))
    lo, hi = interval(a)
    if lo is not None and hi is not None and lo >= 0 and hi < m:
        return a
    c, d = lin_parts(a)
    r = I(c % m)
    for x, k in d.items():
        k = k % m
        if 2 * k > m:
            k -= m
        if x.op in ("res", "mod") and x.args[1].op == "int" and x.args[1].args[0] % m == 0:
            x = x.args[0]
        r = add(r, scale(x, k))
    if r is not a:
        return res(r, n)
    return mod(a, n) if lo is not None and lo >= 0 else T("res", a, n)


def _bitsy(a):
    """a choice between results of bit operations"""
    return all(x.op in ("xor", "band") or x.op == "ite" and _bitsy(x) for x in a.args[1:])


def pow2(a):
    if a.op == "int" and 0 <= a.args[0] < 4096:
        return I(1 << a.args[0])
    if a.op == "lin":
        c, items = a.args
        if c > 0:
            return scale(T("pow2", mk_lin(0, dict(items))), 1 << c)
    return T("pow2", a)


def shl(a, b):
    return mul(a, pow2(b))


def shr(a, b):
    if a.op == "int" and b.op == "int":
        return I(a.args[0] >> b.args[0])
    if b.op == "int":
        return div(a, I(1 << b.args[0]))
    return div(a, pow2(b))


def bxor(a, b):
    if a.op == "word" and b.op == "word" and len(a.args) == len(b.args):
        return T("word", *[bxor(x, y) for x, y in zip(a.args, b.args)])
    if a.op == "int" and b.op == "int":
        return I(a.args[0] ^ b.args[0])
    flat = []
    c = 0
    for p in _acn("xor", [a, b]):
        if p.op == "int":
            c ^= p.args[0]
        elif flat and flat[-1] is p:
            flat.pop()
        else:
            flat.append(p)
    # the same value under complementary masks is the value under both
    masked = {}
    for p in flat:
        m, x = _masked(p)
        if x is not None:
            masked.setdefault(x, []).append((m, p))
    for x, l in masked.items():
        if len(l) > 1:
            m = 0
            for k, p in l:
                flat.remove(p)
                m ^= k
            y = band(I(m), x)
            if y.op == "int":
                c ^= y.args[0]
            else:
                flat.append(y)
    flat.sort(key=lambda x: x.id)
    if c:
        flat.insert(0, I(c))
    if not flat:
        return ZERO
    if len(flat) == 1:
        return flat[0]
    return T("xor", *flat)


def _masked(p):
    """p as (mask, x)"""
    if p.op == "band" and p.args[0].op == "int" and len(p.args) == 2:
        return p.args[0].args[0], p.args[1]
    if p.op == "mod" and p.args[1].op == "int":
        n = p.args[1].args[0]
        if n & (n - 1) == 0 and interval(p.args[0])[0] is not None and interval(p.args[0])[0] >= 0:
            return n - 1, p.args[0]
    return 0, None


def _mask(n, x):
    """x & n for a constant n >= 0"""
    if n == 0:
        return ZERO
    if x.op == "int":
        return I(x.args[0] & n)
    if x.op == "ite":
        return ite(x.args[0], _mask(n, x.args[1]), _mask(n, x.args[2]))
    if x.op == "xor":
        r = ZERO
        for y in x.args:
            r = bxor(r, _mask(n, y))
        return r
    m, y = _masked(x)
    if y is not None:
        return _mask(n & m, y)
    lo, hi = interval(x)
    if lo is not None and lo >= 0 and hi is not None:
        n &= (1 << hi.bit_length()) - 1
        if n == (1 << hi.bit_length()) - 1:
            return x
        if n == 0:
            return ZERO
        low = n & -n
        if n + low == 1 << hi.bit_length() and low > 1:
            # a multiple of a power of two
            return mul(I(low), div(x, I(low)))
    if (n & (n + 1)) == 0:
        return mod(x, I(n + 1))
    return T("band", I(n), x)


def band(a, b):
    if a.op == "int" and b.op == "int":
        return I(a.args[0] & b.args[0])
    for x, y in ((a, b), (b, a)):
        if x.op == "int" and x.args[0] >= 0:
            return _mask(x.args[0], y)
    parts = []
    for p in _acn("band", [a, b]):
        if not parts or parts[-1] is not p:
            parts.append(p)
    if len(parts) == 1:
        return parts[0]
    return T("band", *parts)


def b_xor(a, b):
    return b_ite(a, b_not(b), b)


def _bit_test(l):
    """l (an integer term) != 0 as a condition, where l is some bits"""
    if l.op == "xor":
        c = FALSE
        for p in l.args:
            if p.op == "int" and p.args[0] in (0, 1):
                c = b_xor(c, B(p.args[0]))
                continue
            lo, hi = interval(p)
            if lo is None or lo < 0 or hi is None or hi > 1:
                return None
            c = b_xor(c, b_not(ieq(p, ZERO)))
        return c
    if l.op == "band" and len(l.args) == 2:
        for p, x in (l.args, l.args[::-1]):
            k = None
            if p.op == "pow2":
                k = p.args[0]
            elif p.op == "int" and p.args[0] > 0 and p.args[0] & (p.args[0] - 1) == 0:
                k = I(p.args[0].bit_length() - 1)
            if k is not None:
                return bit(x, k)
    if l.op == "mod" and l.args[1].op == "int" and l.args[1].args[0] == 2 and l.args[0].op == "div":
        return bit(l.args[0], ZERO)
    return None


def bit(x, k):
    """bit k of x"""
    if x.op == "div":
        n = x.args[1]
        s = None
        if n.op == "pow2":
            s = n.args[0]
        elif n.op == "int" and n.args[0] & (n.args[0] - 1) == 0:
            s = I(n.args[0].bit_length() - 1)
        if s is not None:
            return bit(x.args[0], add(k, s))
    if x.op == "int" and k.op == "int":
        return B((x.args[0] >> k.args[0]) & 1)
    if x.op == "ite":
        return b_ite(x.args[0], bit(x.args[1], k), bit(x.args[2], k))
    if k is ZERO:
        return b_not(ieq(mod(x, I(2)), ZERO))
    if x.op == "lin" and k.op == "int" and _nonneg(x):
        j = 0
        while j < k.args[0] and all(v % (2 << j) == 0 for _, v in x.args[1]):
            j += 1
        if j:
            return bit(div(x, I(1 << j)), I(k.args[0] - j))
        if all(v % (2 << k.args[0]) == 0 for _, v in x.args[1]):
            return B(x.args[0] >> k.args[0] & 1)
    return T("batom", T("bit", x, k))


def _bits(x):
    """a mask of the bits which can be set in x, None if unknown"""
    if x.op == "int":
        return x.args[0] if x.args[0] >= 0 else None
    if x.op == "band":
        l = [_bits(y) for y in x.args]
        l = [m for m in l if m is not None]
        if not l:
            return None
        m = l[0]
        for k in l[1:]:
            m &= k
        return m
    if x.op == "ite":
        a, b = _bits(x.args[1]), _bits(x.args[2])
        return None if a is None or b is None else a | b
    lo, hi = interval(x)
    if lo is None or lo < 0 or hi is None:
        return None
    m = (1 << hi.bit_length()) - 1
    if x.op == "lin" and all(interval(v)[0] is not None and interval(v)[0] >= 0 for v, _ in x.args[1]):
        g = x.args[0]
        for _, k in x.args[1]:
            g |= k
        if g:
            m &= ~((g & -g) - 1)
    return m


def bor(a, b):
    if a.op == "int" and b.op == "int":
        return I(a.args[0] | b.args[0])
    m, n = _bits(a), _bits(b)
    if m is not None and n is not None and m & n == 0:
        return add(a, b)
    for x, y in ((a, b), (b, a)):
        if x.op == "int" and x.args[0] == 0:
            return y
    parts = []
    for p in _acn("bor", [a, b]):
        if not parts or parts[-1] is not p:
            parts.append(p)
    if len(parts) == 1:
        return parts[0]
    return T("bor", *parts)


def bnot(a):
    if a.op == "int":
        return T("bnot", a)
    if a.op == "bnot":
        return a.args[0]
    return T("bnot", a)


# ------------------------------------------------------------------ booleans
_notmemo = {}


def b_not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    r = _notmemo.get(a)
    if r is None:
        r = _b_not(a)
        _notmemo[a] = r
        if (a.op in ("and", "or")) == (r.op in ("and", "or")):
            _notmemo.setdefault(r, a)
    return r


def _b_not(a):
    if a.op == "le":  # L<=0 -> L>=1 -> -L+1<=0
        return le0(add(neg(a.args[0]), ONE))
    if a.op == "and":
        return b_or(*[b_not(x) for x in a.args])
    if a.op == "or":
        return b_and(*[b_not(x) for x in a.args])
    return T("not", a)


def _reduce(y, true, depth=4):
    """y, given that the literals in `true` hold"""
    o = y.op
    if o not in ("and", "or"):
        if y in true:
            return TRUE
        if b_not(y) in true:
            return FALSE
        return y
    if depth == 0:
        return y
    out = []
    ch = False
    for p in y.args:
        q = _reduce(p, true, depth - 1)
        if q is not p:
            ch = True
        out.append(q)
    if not ch:
        return y
    return b_and(*out) if o == "and" else b_or(*out)


def _nary(xs, op, unit, zero):
    """flattened operands; None when the whole is `zero`"""
    out = []
    seen = set()
    todo = list(xs)
    todo.reverse()
    while todo:
        y = todo.pop()
        if y.op == op:
            todo.extend(reversed(y.args))
            continue
        if y is zero:
            return None
        if y is unit or y in seen:
            continue
        seen.add(y)
        out.append(y)
    return out


def b_and(*xs):
    for _ in range(8):
        out = _nary(xs, "and", TRUE, FALSE)
        if out is None:
            return FALSE
        units = {y for y in out if y.op != "or"}
        for y in units:
            if b_not(y) in units:
                return FALSE
        if len(units) == len(out) or not units:
            break
        res = [y if y.op != "or" else _reduce(y, units) for y in out]
        if all(a is b for a, b in zip(res, out)):
            break
        xs = res
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return T("and", *sorted(out, key=lambda x: x.id))


def b_or(*xs):
    for _ in range(8):
        out = _nary(xs, "or", FALSE, TRUE)
        if out is None:
            return TRUE
        units = {y for y in out if y.op != "and"}
        for y in units:
            if b_not(y) in units:
                return TRUE
        if len(units) == len(out) or not units:
            break
        # a or f  ==  a or f[not a]
        neg_ = {b_not(y) for y in units}
        res = [y if y.op != "and" else _reduce(y, neg_) for y in out]
        if all(a is b for a, b in zip(res, out)):
            break
        xs = res
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    # (a and x) or (a and not x) -> a
    if len(out) <= 8:
        r = _factor(out)
        if r is not None:
            return r
    return T("or", *sorted(set(out), key=lambda x: x.id))


def _factor(out):
    ands = [(y, frozenset(y.args)) for y in out if y.op == "and"]
    for i in range(len(ands)):
        for j in range(i):
            a, b = ands[i][1], ands[j][1]
            if len(a) != len(b):
                continue
            da, db = a - b, b - a
            if len(da) == 1 and len(db) == 1:
                x, y = next(iter(da)), next(iter(db))
                if b_not(x) is y:
                    rest = [z for z in out if z is not ands[i][0] and z is not ands[j][0]]
                    return b_or(b_and(*(a & b)), *rest)
    return None


def le0(l):
    """l <= 0"""
    if l.op == "int":
        return B(l.args[0] <= 0)
    if l.op == "ite":
        return b_ite(l.args[0], le0(l.args[1]), le0(l.args[2]))
    c, d = lin_parts(l)
    # split a single constant-ite atom
    for a in d:
        if a.op == "ite" and len(d) <= 2:
            rest = mk_lin(c, {k: v for k, v in d.items() if k is not a})
            return b_ite(a.args[0], le0(add(rest, scale(a.args[1], d[a]))),
                         le0(add(rest, scale(a.args[2], d[a]))))
    from math import gcd
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if g > 1:
        # sum >= ... : g*x + c <= 0  <=>  x <= floor(-c/g)
        q = (-c) // g
        c, d = -q, {k: v // g for k, v in d.items()}
        l = mk_lin(c, d)
    lo, hi = interval(l)
    if hi is not None and hi <= 0:
        return TRUE
    if lo is not None and lo > 0:
        return FALSE
    return T("le", l)


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return le0(add(sub(a, b), ONE))


def _strip_mod(t, n):
    """a term congruent to t modulo n, without reductions modulo multiples of n"""
    c, d = lin_parts(t)
    r = I(c % n)
    for x, k in d.items():
        k %= n
        if 2 * k > n:
            k -= n
        if not k:
            continue
        if x.op == "cast" and not x.args[1] and (1 << x.args[0]) % n == 0:
            x = _strip_mod(x.args[2], n)
        elif x.op in ("mod", "res") and x.args[1].op == "int" and x.args[1].args[0] % n == 0:
            x = _strip_mod(x.args[0], n)
        r = add(r, scale(x, k))
    return r


def _congruent(a, b, n):
    """whether a and b are congruent modulo n, where that is decided"""
    d = _strip_mod(sub(a, b), n)
    if d.op == "lin":
        d = _strip_mod(d, n)
    return B(d.args[0] % n == 0) if d.op == "int" else None


def ieq(a, b):
    if a is b:
        return TRUE
    if a.op == "key" and b.op == "key":
        return eq(a.args[0], b.args[0])
    if a.op == "ite" and (b.op == "int" or _ite_const(a)):
        return b_ite(a.args[0], ieq(a.args[1], b), ieq(a.args[2], b))
    if b.op == "ite" and (a.op == "int" or _ite_const(b)):
        return b_ite(b.args[0], ieq(a, b.args[1]), ieq(a, b.args[2]))
    l = sub(a, b)
    if l.op == "int":
        return B(l.args[0] == 0)
    c, d = lin_parts(l)
    if c == 0 and len(d) == 2:
        p, q = d
        if p.op in ("mod", "res") and q.op in ("mod", "res") and p.args[1] is q.args[1] and \
                p.args[1].op == "int" and d[p] * d[q] == -1:
            r = _congruent(p.args[0], q.args[0], p.args[1].args[0])
            if r is not None:
                return r
    if len(d) <= 2:
        for a in d:
            if a.op == "ite":
                rest = mk_lin(c, {k: v for k, v in d.items() if k is not a})
                return b_ite(a.args[0], ieq(add(rest, scale(a.args[1], d[a])), ZERO),
                             ieq(add(rest, scale(a.args[2], d[a])), ZERO))
    first = min(d, key=lambda x: x.id)
    if d[first] < 0:
        l = neg(l)
        c, d = lin_parts(l)
    from math import gcd
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if g > 1:
        if c % g:
            return FALSE
        l = mk_lin(c // g, {k: v // g for k, v in d.items()})
    lo, hi = interval(l)
    if lo is not None and lo > 0 or hi is not None and hi < 0:
        return FALSE
    if l.op == "lin" and l.args[0] == -1 and len(l.args[1]) == 1:
        x, k = l.args[1][0]
        if k == 1 and x.op == "mod" and x.args[1].op == "int" and x.args[1].args[0] == 2 and \
                _nonneg(x.args[0]):
            return b_not(ieq(x, ZERO))
    if l.op == "div" and l.args[1].op == "int" and _high_band(l.args[0], l.args[1].args[0]):
        return ieq(l.args[0], ZERO)
    if l.op in ("xor", "band", "mod"):
        t = _bit_test(l)
        if t is not None:
            return b_not(t)
    return T("eq0", l)


def _high_band(x, m):
    """x is a value masked with a multiple of m"""
    return x.op == "band" and any(a.op == "int" and a.args[0] >= 0 and a.args[0] % m == 0
                                  for a in x.args)


def eq(a, b):
    if a is b:
        return TRUE
    if a in (TRUE, FALSE) or b in (TRUE, FALSE):
        if a in (TRUE, FALSE):
            a, b = b, a
        return a if b is TRUE else b_not(a)
    if a.op == "ite":
        return b_ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == "ite":
        return b_ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if a.op in ("int", "lin") or b.op in ("int", "lin"):
        return ieq(a, b)
    if a is NULL or b is NULL:
        o = b if a is NULL else a
        if o.op in ("ref", "lam", "fn"):
            return FALSE
        if o.op in ("rep", "list", "cat", "append", "map"):
            return FALSE
        return T("isnull", o)
    if a.op == "str" and b.op == "str":
        return B(a.args[0] == b.args[0])
    if EMPTY in (a, b):
        o = b if a is EMPTY else a
        return ieq(size(o), ZERO)
    if a.op == "fn" and b.op == "fn":
        return FALSE                     # distinct functions
    if a.op == "list" and b.op == "list" and (len(a.args) != len(b.args) or any(
            x.op == "int" and y.op == "int" and x is not y for x, y in zip(a.args, b.args))):
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == "err" and x.args[0].__class__ is T and y.op not in ("err", "okst", "val"):
            return eq(x.args[0], y)
    if a.id > b.id:
        a, b = b, a
    return T("eq", a, b)


def b_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE:
        return b_or(c, b)
    if a is FALSE:
        return b_and(b_not(c), b)
    if b is TRUE:
        return b_or(b_not(c), a)
    if b is FALSE:
        return b_and(c, a)
    return b_or(b_and(c, a), b_and(b_not(c), b))


BOOLOPS = {"true", "false", "not", "and", "or", "le", "eq0", "eq", "ok",
           "forall", "isnull", "batom"}


def is_bool(t):
    return t.op in BOOLOPS


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if is_bool(a) and is_bool(b):
        return b_ite(c, a, b)
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if c.op == "eq0" and c.args[0].op == "div":
        # x div k == 0: x mod k is x
        x, k = c.args[0].args
        md = T("mod", x, k)
        if a is md or a is mod(x, k):
            a = x
        elif a.op == "lin" and md in lin_parts(a)[1]:
            a = add(a, scale(sub(x, md), lin_parts(a)[1][md]))
    if a is b:
        return a
    # merge functional updates of the same base
    if a.op == "with" or b.op == "with":
        ba, da = with_parts(a)
        bb, db = with_parts(b)
        if ba is bb:
            ks = set(da) | set(db)
            d = {}
            for k in ks:
                x = da[k] if k in da else raw_field(ba, k)
                y = db[k] if k in db else raw_field(bb, k)
                d[k] = ite(c, x, y)
            return mk_with(ba, d)
    if a.op == "setidx" or b.op == "setidx":
        # element-wise updates of the same container
        xa, ia = (a.args[0], a.args[1]) if a.op == "setidx" else (a, None)
        xb, ib = (b.args[0], b.args[1]) if b.op == "setidx" else (b, None)
        if ia is not None and xa is b:
            return setidx(b, ia, ite(c, a.args[2], getidx(b, ia)))
        if ib is not None and xb is a:
            return setidx(a, ib, ite(c, getidx(a, ib), b.args[2]))
        if ia is not None and ia is ib and xa is xb:
            return setidx(xa, ia, ite(c, a.args[2], b.args[2]))
    if a.op == "append" and b.op == "append" and a.args[0] is b.args[0]:
        return append(a.args[0], ite(c, a.args[1], b.args[1]))
    if a.op == "list" and b.op == "list" and len(a.args) == len(b.args):
        return T("list", *[ite(c, x, y) for x, y in zip(a.args, b.args)])
    if a.op == "val" and b.op == "val":
        return T("val", ite(c, a.args[0], b.args[0]))
    if a.op == "ref" and b.op == "ref" and a.args[0] == b.args[0]:
        pa, pb = a.args[1], b.args[1]
        if len(pa) == len(pb) and pa and pa[:-1] == pb[:-1] and \
                pa[-1][0] == "i" and pb[-1][0] == "i":
            return T("ref", a.args[0],
                     pa[:-1] + (("i", ite(c, pa[-1][1], pb[-1][1])),))
    # factor a common nested alternative: ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
    if b.op == "ite" and b.args[1] is a:
        return ite(b_or(c, b.args[0]), a, b.args[2])
    if b.op == "ite" and b.args[2] is a:
        return ite(b_or(c, b_not(b.args[0])), a, b.args[1])
    if a.op == "ite" and a.args[1] is b:
        return ite(b_and(c, b_not(a.args[0])), a.args[2], b)
    if a.op == "ite" and a.args[2] is b:
        return ite(b_and(c, a.args[0]), a.args[1], b)
    # gate-canonical: order is significant for c only
    return T("ite", c, a, b)


# ------------------------------------------------------------------ records
def with_parts(t):
    if t.op == "with":
        return t.args[0], dict(t.args[1])
    return t, {}


def mk_with(base, d):
    d = {k: v for k, v in d.items()}
    if base.op == "with":
        bb, bd = with_parts(base)
        bd.update(d)
        base, d = bb, bd
    for k in list(d):
        if d[k] is raw_field(base, k):
            del d[k]
    if not d:
        return base
    return T("with", base, tuple(sorted(d.items())))


def raw_field(t, f):
    """field of a term with no update for f at the top."""
    if t.op == "ite":
        return ite(t.args[0], getf(t.args[1], f), getf(t.args[2], f))
    if t.op == "zero":
        if f.startswith("#"):
            return FALSE if f.startswith("#has") else ZERO
        return T("zero", t.args[0] + "." + f)
    return T("fld", t, f)


def getf(t, f):
    if t.op == "with":
        for k, v in t.args[1]:
            if k == f:
                return v
        return getf(t.args[0], f)
    if t.op == "choice":
        return T("fld", t, f)
    return raw_field(t, f)


def setf(t, f, v):
    if t.op == "ite":
        pass
    return mk_with(t, {f: v})


# ------------------------------------------------------------------ lists
_SIZE = {}


def size(t):
    if t.op == "list":
        return I(len(t.args))
    r = _SIZE.get(t)
    if r is None:
        r = _SIZE[t] = _size(t)
    return r


def _size(t):
    o = t.op
    if o == "list":
        return I(len(t.args))
    if o == "str":
        return I(len(t.args[0]))
    if o == "append":
        return add(size(t.args[0]), ONE)
    if o == "setidx":
        return size(t.args[0])
    if o == "rep":
        return t.args[0]
    if o == "map":
        return t.args[1]
    if o == "flat":
        return mul(t.args[1], size(t.args[2]))
    if o == "mapset":
        return size(t.args[0])
    if o == "cat":
        r = ZERO
        for a in t.args:
            r = add(r, size(a))
        return r
    if o == "slice":
        return t.args[2]
    if o == "resize":
        return t.args[1]
    if o == "ite":
        return ite(t.args[0], size(t.args[1]), size(t.args[2]))
    if o == "zero":
        return ZERO
    if o == "derefs" or o == "splice":
        return size(t.args[0])
    if o == "fold" and t.args[3][t.args[2]][0].op == "sized":
        nm = t.args[3][t.args[2]][0].args[1]
        if t.args[0] not in free_bi(nm):
            return nm
        return subst_bi(nm, t.args[0], t.args[1])
    if o == "sized":  # opaque content, known size
        return t.args[1]
    if o == "val":
        return size(t.args[0])
    r = T("size", t)
    RNG.setdefault(r, (0, (1 << 62)))
    return r


def cat(a, b):
    if size(a) is ZERO:
        return b
    if size(b) is ZERO:
        return a
    if b.op == "list" and len(b.args) <= 8 and b.args:
        r = a
        for x in b.args:
            r = append(r, x)
        return r
    parts = (a.args if a.op == "cat" else (a,)) + (b.args if b.op == "cat" else (b,))
    out = []
    for p in parts:
        q = out[-1] if out else None
        if q is not None and q.op == "slice" and p.op == "slice" and q.args[0] is p.args[0] and \
                add(q.args[1], q.args[2]) is p.args[1]:
            out[-1] = slice_(p.args[0], q.args[1], add(q.args[2], p.args[2]))
        else:
            out.append(p)
    return T("cat", *out) if len(out) > 1 else out[0]


def append(t, v):
    if t.op == "list" and len(t.args) < 256:
        return T("list", *(t.args + (v,)))
    if t.op == "zero":
        return T("list", v)
    return T("append", t, v)


def diffconst(a, b):
    l = sub(a, b)
    return l.args[0] if l.op == "int" else None


def getidx(t, i, facts=None):
    o = t.op
    if o == "list":
        if i.op == "int" and 0 <= i.args[0] < len(t.args):
            return t.args[i.args[0]]
        if i.op == "ite":
            return ite(i.args[0], getidx(t, i.args[1], facts), getidx(t, i.args[2], facts))
        if facts is not None and i.op != "int" and len(t.args) <= 16:
            k = [j for j in range(len(t.args)) if facts.ev(ieq(i, I(j))) is not FALSE]
            if len(k) == 1:
                return t.args[k[0]]
    elif o == "append":
        s = size(t.args[0])
        d = diffconst(i, s)
        if d == 0:
            return t.args[1]
        if d is not None and d < 0:
            return getidx(t.args[0], i, facts)
        if facts is not None:
            if facts.entails(lt(i, s)):
                return getidx(t.args[0], i, facts)
            if facts.entails(le(s, i)) and facts.entails(le(i, s)):
                return t.args[1]
    elif o == "setidx":
        d = diffconst(t.args[1], i)
        if d == 0:
            return t.args[2]
        if d is not None:
            return getidx(t.args[0], i, facts)
        same = ieq(t.args[1], i)
        if same is TRUE:
            return t.args[2]
        if same is FALSE:
            return getidx(t.args[0], i, facts)
        if facts is not None:
            if facts.entails(b_not(same)):
                return getidx(t.args[0], i, facts)
            if facts.entails(same):
                return t.args[2]
    elif o == "rep":
        return t.args[1]
    elif o == "map":
        return subst_bi(t.args[2], t.args[0], i)
    elif o == "flat":
        m = size(t.args[2])
        q, r = quot_rem(i, m)
        if q is not None and (facts is None or facts.entails(b_and(le(ZERO, r), lt(r, m)))):
            if facts is not None or (r.op == "int" and m.op == "int" and
                                     0 <= r.args[0] < m.args[0]):
                return getidx(subst_bi(t.args[2], t.args[0], q), r, facts)
    elif o == "cat":
        off = i
        for k, p in enumerate(t.args):
            s = size(p)
            inside = lt(off, s)
            if k == len(t.args) - 1 or inside is TRUE or (
                    facts is not None and facts.entails(inside)):
                return getidx(p, off, facts)
            d = diffconst(off, s)
            if inside is FALSE or (d is not None and d >= 0) or (
                    facts is not None and facts.entails(b_not(inside))):
                off = sub(off, s)
                continue
            break
    elif o == "slice":
        return getidx(t.args[0], add(i, t.args[1]), facts)
    elif o == "splice":
        old, off, k, vals = t.args
        j = sub(i, off)
        inb = b_and(le(ZERO, j), lt(j, k))
        if inb is TRUE or (facts is not None and facts.entails(inb)):
            return getidx(vals, j, facts)
        if inb is FALSE or (facts is not None and facts.entails(b_not(inb))):
            return getidx(old, i, facts)
    elif o == "resize":
        base = t.args[0]
        if size(base) is ZERO:
            return t.args[2]
        if facts is not None and facts.entails(lt(i, size(base))):
            return getidx(base, i, facts)
    elif o == "ite":
        return ite(t.args[0], getidx(t.args[1], i, facts),
                   getidx(t.args[2], i, facts))
    elif o == "str" and i.op == "int" and 0 <= i.args[0] < len(t.args[0]):
        return I(ord(t.args[0][i.args[0]]))
    elif o == "mapset":
        base, d, n, e, f = t.args
        # e(bi) = bi + off with 0<=i-off<n
        off = subst_bi(e, d, ZERO)
        if diffconst(e, add(T("bi", d), off)) == 0:
            k = sub(i, off)
            inb = b_and(le(ZERO, k), lt(k, n))
            if inb is TRUE or (facts is not None and facts.entails(inb)):
                return subst_bi(f, d, k)
            if inb is FALSE or (facts is not None and facts.entails(b_not(inb))):
                return getidx(base, i, facts)
    return T("idx", t, i)


def mhas(m, k, facts=None):
    """the map has the key"""
    if m.op == "emptymap":
        return FALSE
    if m.op == "setidx" and m.args[1].op == "key":
        return b_or(eq(m.args[1].args[0], k), mhas(m.args[0], k, facts))
    if m.op == "ite":
        return b_ite(m.args[0], mhas(m.args[1], k), mhas(m.args[2], k))
    return T("batom", T("mhas", m, k))


def msize(m):
    if m.op == "emptymap":
        return ZERO
    if m.op == "setidx" and m.args[1].op == "key":
        return add(msize(m.args[0]), ite(mhas(m.args[0], m.args[1].args[0]), ZERO, ONE))
    if m.op == "ite":
        return ite(m.args[0], msize(m.args[1]), msize(m.args[2]))
    r = T("msize", m)
    set_rng(r, 0, (1 << 62))
    return r


def merase(m, k):
    """the map without the key"""
    if m.op == "emptymap":
        return m
    if m.op == "setidx" and m.args[1].op == "key":
        c = eq(m.args[1].args[0], k)
        if c is TRUE:
            return merase(m.args[0], k)
        if c is FALSE:
            r = merase(m.args[0], k)
            return T("setidx", r, m.args[1], m.args[2])
    if m.op == "ite":
        return ite(m.args[0], merase(m.args[1], k), merase(m.args[2], k))
    return T("call", "erased", m, k)


def entries(m):
    """the entries of an ordered map with literal keys, in order"""
    out = {}
    while m.op == "setidx" and m.args[1].op == "key" and m.args[1].args[0].op == "str":
        out.setdefault(m.args[1].args[0].args[0], (m.args[1].args[0], m.args[2]))
        m = m.args[0]
    return [out[k] for k in sorted(out)] if m.op == "emptymap" else None


def quot_rem(i, m):
    """i as q*m + r, syntactically"""
    c, d = lin_parts(i)
    qc, qd, rd = 0, {}, {}
    if m.op == "int":
        k = m.args[0]
        if k <= 0:
            return None, None
        for a, v in d.items():
            if v % k == 0:
                qd[a] = v // k
            else:
                rd[a] = v
        qc, rc = divmod(c, k) if not rd else (0, c)
        return mk_lin(qc, qd), mk_lin(rc, rd)
    mc, md = lin_parts(m)
    if mc != 0 or len(md) != 1 or list(md.values()) != [1]:
        return None, None
    fac = list(m.args) if m.op == "mul" else [m]
    q = ZERO
    r = I(c)
    for a, v in d.items():
        if a is m:
            q = add(q, I(v))
            continue
        if a.op == "mul":
            rest = list(a.args)
            try:
                for f in fac:
                    rest.remove(f)
            except ValueError:
                r = add(r, scale(a, v))
                continue
            p = ONE
            for x in rest:
                p = mul(p, x)
            q = add(q, scale(p, v))
        else:
            r = add(r, scale(a, v))
    return q, r


def mk_flat(d, n, body):
    """concatenation of body(0), ..., body(n-1); all of the same size"""
    if size(body) is ZERO or n is ZERO:
        return EMPTY
    if n.op == "int" and 0 < n.args[0] <= 8:
        r = EMPTY
        for k in range(n.args[0]):
            r = cat(r, subst_bi(body, d, I(k)))
        return r
    if body.op == "list" and len(body.args) == 1:
        return mk_map(d, n, body.args[0])
    if body.op == "slice" and d not in free_bi(body.args[0]) and d not in free_bi(body.args[2]):
        # consecutive pieces of one list
        o, c = body.args[1], body.args[2]
        o0 = subst_bi(o, d, ZERO)
        if o is add(o0, mul(T("bi", d), c)):
            return slice_(body.args[0], o0, mul(n, c))
    return T("flat", d, n, body)


def setidx(t, i, v):
    if v.op == "idx" and v.args[0] is t and v.args[1] is i:
        return t
    if t.op == "list" and i.op == "int" and 0 <= i.args[0] < len(t.args):
        a = list(t.args)
        a[i.args[0]] = v
        return T("list", *a)
    if t.op == "setidx":
        d = diffconst(t.args[1], i)
        if d == 0:
            return setidx(t.args[0], i, v)
    if t.op == "append":
        s = size(t.args[0])
        d = diffconst(i, s)
        if d == 0:
            return append(t.args[0], v)
        if d is not None and d < 0:
            return append(setidx(t.args[0], i, v), t.args[1])
    if t.op == "rep" and t.args[0].op == "int" and i.op == "int" and \
            0 <= i.args[0] < t.args[0].args[0] <= 16:
        a = [t.args[1]] * t.args[0].args[0]
        a[i.args[0]] = v
        return T("list", *a)
    return T("setidx", t, i, v)


def slice_(t, off, n):
    if off is ZERO and n is size(t):
        return t
    if n is ZERO:
        return EMPTY
    if t.op == "slice":
        return slice_(t.args[0], add(t.args[1], off), n)
    if t.op == "sized" and t.args[0].op == "call" and t.args[0].args[0] == "bytes":
        return bytes_(t.args[0].args[1], t.args[0].args[3], add(t.args[0].args[2], off), n)
    if t.op == "list" and off.op == "int" and n.op == "int":
        o, k = off.args[0], n.args[0]
        if 0 <= o and o + k <= len(t.args):
            return T("list", *t.args[o:o + k])
    if t.op == "map" and n.op == "int" and 1 <= n.args[0] <= 4:
        return T("list", *[getidx(t, add(off, I(j))) for j in range(n.args[0])])
    if t.op == "cat" and off is ZERO:
        if n is size(t.args[0]):
            return t.args[0]
    if t.op == "cat" and diffconst(off, size(t.args[0])) == 0:
        rest = t.args[1] if len(t.args) == 2 else T("cat", *t.args[1:])
        if n is size(rest):
            return rest
    return T("slice", t, off, n)


LISTLIKE = {"rep", "flat", "mapset", "setidx", "resize", "sized", "map", "list", "append", "cat",
            "zero", "call", "fld", "sym", "idx", "slice", "out", "undef", "ite", "unwrap", "bv", "fold"}


def _divided(t, w):
    """t / w when every part of t is a multiple of w"""
    c, d = lin_parts(t)
    if c % w or any(k % w for k in d.values()):
        return None
    return mk_lin(c // w, {a: k // w for a, k in d.items()})


def bytes_(src, w, off, k):
    """k bytes from byte off of the object src, whose elements (if it has any)
    have w bytes"""
    if src.op == "ite":
        return ite(src.args[0], bytes_(src.args[1], w, off, k), bytes_(src.args[2], w, off, k))
    x = src
    while True:
        if x.op == "sized":
            x = x.args[0]
        elif x.op == "call" and x.args[0] == "setbytes" and x.args[4] is w:
            old, o, vals = x.args[1:4]
            if o is off and size(vals) is k:
                return vals  # just written
            before, after = interval(sub(o, add(off, k)))[0], interval(sub(off, add(o, size(vals))))[0]
            if not (before is not None and before >= 0 or after is not None and after >= 0):
                break
            src = x = old
        elif x.op == "resize" and interval(sub(mul(size(x.args[0]), w), add(off, k)))[0] in range(1 << 64):
            src = x = x.args[0]
        else:
            break
    if w.op == "int" and w.args[0] > 0:
        n = w.args[0]
        first = _divided(off, n)
        if first is not None:
            count = _divided(add(k, I((-k.args[0]) % n)) if k.op == "int" else k, n)
            if count is not None:
                src, off = slice_(src, first, count), ZERO
        elif off.op == "int" and k.op == "int" and off.args[0] >= 0:
            first = off.args[0] // n
            last = (off.args[0] + k.args[0] + n - 1) // n
            src, off = slice_(src, I(first), I(last - first)), I(off.args[0] % n)
    return T("sized", T("call", "bytes", src, off, w), k)


def setbytes(old, w, off, vals):
    """the object old after its bytes from off on were replaced by vals"""
    if vals.op == "sized" and vals.args[0].op == "call" and vals.args[0].args[0] == "bytes":
        src, o, n = vals.args[0].args[1:]
        if o is ZERO and src.op == "list" and len(src.args) == 1 and n is vals.args[1] and \
                w is ZERO and off is ZERO and old is ZERO:
            return src.args[0]  # a whole unsigned integer
    r = T("call", "setbytes", old, off, vals, w)
    return T("sized", r, size(old)) if old.op in LISTLIKE else r


def resize(t, n, v):
    if n is ZERO:
        return EMPTY
    if size(t) is ZERO:
        return T("rep", n, v)
    if size(t) is n:
        return t
    return T("resize", t, n, v)


# ------------------------------------------------------------------ status
def ok(t):
    o = t.op
    if o in ("okst", "val"):
        return TRUE
    if o in ("err", "nullopt"):
        return FALSE
    if o == "ite":
        return b_ite(t.args[0], ok(t.args[1]), ok(t.args[2]))
    if o == "mapst":  # first error of loop: see interp
        return T("ok", t)
    return T("ok", t)


def unwrap(t):
    if t.op == "val":
        return t.args[0]
    if t.op == "ite":
        a, b = t.args[1], t.args[2]
        if a.op in ("err", "okst", "nullopt"):
            return unwrap(b)
        if b.op in ("err", "okst", "nullopt"):
            return unwrap(a)
        return ite(t.args[0], unwrap(a), unwrap(b))
    return T("unwrap", t)


def mk_err(x):
    """the non-ok result that carries the non-ok status x"""
    if x.__class__ is T and x.op == "err":
        return x
    return T("err", x)


def status_of(t):
    if t.op == "val":
        return OKST
    if t.op in ("okst", "err"):
        return t
    if t.op == "ite":
        return ite(t.args[0], status_of(t.args[1]), status_of(t.args[2]))
    return T("status", t)


# fix up: ok(status(x)) is ok(x)
_ok0 = ok


def ok(t):  # noqa: F811
    if t.op == "status":
        return ok(t.args[0])
    if t.op == "ite":
        return b_ite(t.args[0], ok(t.args[1]), ok(t.args[2]))
    return _ok0(t)


# ------------------------------------------------------------------ traversal
def rebuild(t, f):
    """Rebuild t with children mapped by f, renormalising."""
    o, a = t.op, t.args

    def g(x):
        if x.__class__ is T:
            return f(x)
        if x.__class__ is tuple:
            return tuple(g(y) for y in x)
        return x
    if not a:
        return t
    b = tuple(g(x) for x in a)
    if b == a:
        return t
    return mk(o, b)


def tmin(a, b):
    if a is b:
        return a
    if a.op == "int" and b.op == "int":
        return I(min(a.args[0], b.args[0]))
    r = T("min", *sorted((a, b), key=lambda x: x.id))
    return r


def tmax(a, b):
    if a is b:
        return a
    if a.op == "int" and b.op == "int":
        return I(max(a.args[0], b.args[0]))
    return T("max", *sorted((a, b), key=lambda x: x.id))


def mk(o, b):
    if o == "max" or o == "min":
        return (tmax if o == "max" else tmin)(*b)
    if o == "lin":
        c = b[0]
        r = I(c)
        for at, k in b[1]:
            r = add(r, scale(at, k))
        return r
    if o == "mul":
        r = ONE
        for x in b:
            r = mul(r, x)
        return r
    if o in ("xor", "band", "bor"):
        fn = {"xor": bxor, "band": band, "bor": bor}[o]
        r = b[0]
        for x in b[1:]:
            r = fn(r, x)
        return r
    if o == "with":
        return mk_with(b[0], dict(b[1]))
    if o == "append":
        return append(b[0], b[1])
    if o == "cat":
        r = b[0]
        for x in b[1:]:
            r = cat(r, x)
        return r
    fn = _MK.get(o)
    if fn:
        return fn(*b)
    t = T(o, *b)
    return t


_MK = {
    "div": div, "mod": mod, "res": res, "pow2": pow2, "not": b_not, "and": b_and,
    "or": b_or, "le": le0, "eq0": lambda l: ieq(l, ZERO), "eq": eq,
    "ite": ite, "fld": getf, "size": size, "idx": getidx, "setidx": setidx,
    "slice": slice_, "resize": resize, "unwrap": unwrap, "status": status_of,
    "isnull": lambda x: eq(x, NULL), "bnot": bnot,
    "batom": lambda x: bit(*x.args) if x.op == "bit" else mhas(*x.args) if x.op == "mhas"
    else x if is_bool(x) else T("batom", x),
    "msize": msize,
}
_MK["ok"] = lambda x: ok(x)


BINDERS = {"map": (0, (2,)), "forall": (0, (2,)), "fold": (0, None),
           "mapset": (1, (3, 4)), "some": (0, None), "flat": (0, (2,)),
           "first": (0, (2,))}


def binder_parts(t):
    """-> (depth, [outside terms], [inside terms]) of a binder node"""
    o, a = t.op, t.args
    if o in ("map", "forall", "flat", "first"):
        return a[0], [a[1]], [a[2]]
    if o == "mapset":
        return a[1], [a[0], a[2]], [a[3], a[4]]
    if o == "some":
        return a[0], [a[1]], list(a[2:])
    if o == "fold":
        d, n, k, comps = a
        return d, [n] + [c[1] for c in comps], \
            [c[0] for c in comps] + [c[2] for c in comps]


def free_bi(t):
    """free loop variables: depth d for an iteration index, ("v", d) for a
    loop-carried value"""
    if t._fv is not None:
        return t._fv
    if t.op == "bi":
        r = frozenset([t.args[0]])
    elif t.op in BINDERS:
        d, out, ins = binder_parts(t)
        r = set()
        for x in ins:
            r |= free_bi(x)
        r.discard(d)
        r.discard(("v", d))
        for x in out:
            r |= free_bi(x)
        r = frozenset(r)
    else:
        r = set()
        if t.op == "bv":
            r.add(("v", t.args[0]))
        for a in t.args:
            if a.__class__ is T:
                r |= free_bi(a)
            elif a.__class__ is tuple:
                _fbt(a, r)
        r = frozenset(r)
    t._fv = r
    return r


def _fbt(a, r):
    for x in a:
        if x.__class__ is T:
            r |= free_bi(x)
        elif x.__class__ is tuple:
            _fbt(x, r)


def subst_bi(t, d, v):
    key = T("bi", d)
    return subst(t, {key: v}, d)


def subst(t, m, depth=None, memo=None):
    if memo is None:
        memo = {}
    depths = set()
    vfree = set()
    for k, v in m.items():
        depths |= free_bi(k)
        vfree |= free_bi(v)
    only_b = all(k.op in ("bi", "bv") for k in m)

    def go(x):
        if x in m:
            return m[x]
        if only_b and not (free_bi(x) & depths):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in BINDERS:
            d = x.args[BINDERS[x.op][0]]
            if d in depths or ("v", d) in depths:
                # parts outside of the binder only: trip count / init
                r = _subst_binder(x, go)
                memo[x] = r
                return r
            if d in vfree or ("v", d) in vfree:
                r = rebuild(rebind(x, vfree), go)
                memo[x] = r
                return r
        r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def rebind(x, avoid):
    """alpha-rename binder x away from the variables in avoid"""
    d = x.args[BINDERS[x.op][0]]
    used = set(avoid)
    _, out, ins = binder_parts(x)
    for y in ins:
        used |= free_bi(y)
    e = d + 1000
    while e in used or ("v", e) in used:
        e += 1
    m = {T("bi", d): T("bi", e)}
    for y in ins:
        for s in subterms(y):
            if s.op == "bv" and s.args[0] == d:
                nb = T("bv", e, *s.args[1:])
                if s in RNG:
                    RNG.setdefault(nb, RNG[s])
                m[s] = nb
    g = lambda y: subst(y, m)
    a = x.args
    if x.op in ("map", "forall", "flat", "first"):
        return T(x.op, e, a[1], g(a[2]))
    if x.op == "mapset":
        return T("mapset", a[0], e, a[2], g(a[3]), g(a[4]))
    if x.op == "some":
        return T("some", e, a[1], *[g(y) for y in a[2:]])
    return T("fold", e, a[1], a[2],
             tuple((g(b), i, g(s)) for b, i, s in a[3]))


def _subst_binder(x, go):
    o, a = x.op, x.args
    if o in ("map", "forall", "flat", "first"):
        return T(o, a[0], go(a[1]), a[2])
    if o == "mapset":
        return T(o, go(a[0]), a[1], go(a[2]), a[3], a[4])
    if o == "fold":
        d, n, k, comps = a
        return T(o, d, go(n), k, tuple((bv, go(i), s) for bv, i, s in comps))
    if o == "some":
        return T(o, a[0], go(a[1]), *a[2:])
    return x


def _flat_terms(a):
    for y in a:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            for z in _flat_terms(y):
                yield z


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.__class__ is tuple:
            st.extend(x)
            continue
        if x.__class__ is not T or x in seen:
            continue
        seen.add(x)
        st.extend(x.args)
    return seen


# ------------------------------------------------------------------ intervals
def atom_rng(a):
    r = RNG.get(a)
    if a.op in ("mod", "res") and a.args[1].op == "int" and a.args[1].args[0] > 0:
        return (0, a.args[1].args[0] - 1)
    if a.op == "mod":
        lo, hi = interval(a.args[0])
        if lo is not None and lo >= 0:
            lo2, hi2 = interval(a.args[1])
            if hi2 is not None and lo2 is not None and lo2 >= 0:
                hi = hi2 - 1 if hi is None else min(hi, hi2 - 1)
            return (0, hi)
    if a.op == "pow2":
        return (1, None)
    if a.op == "bi":
        return (0, 1 << 62)
    if a.op == "max0":
        h = interval(a.args[0])[1]
        return (0, None if h is None else max(h, 0))
    if a.op == "first":
        return (0, interval(a.args[1])[1])
    if a.op == "size":
        return r if r is not None else (0, 1 << 62)
    if a.op == "div" and a.args[1].op == "int" and a.args[1].args[0] > 0:
        lo, hi = interval(a.args[0])
        n = a.args[1].args[0]
        return (None if lo is None else (lo // n if lo >= 0 else -((-lo) // n)),
                None if hi is None else hi // n)
    if a.op == "div":
        lo, hi = interval(a.args[0])
        lo2, _ = interval(a.args[1])
        if lo is not None and lo >= 0 and lo2 is not None and lo2 >= 0:
            return (0, hi)
    if a.op == "ite":
        l1, h1 = interval(a.args[1])
        l2, h2 = interval(a.args[2])
        return (None if l1 is None or l2 is None else min(l1, l2),
                None if h1 is None or h2 is None else max(h1, h2))
    if a.op == "xor":
        top = 0
        for x in a.args:
            lo, hi = interval(x)
            if lo is None or lo < 0 or hi is None:
                return r if r is not None else (None, None)
            top = max(top, hi)
        return (0, (1 << top.bit_length()) - 1)
    if a.op in ("band",):
        for x in a.args:
            if x.op == "int" and x.args[0] >= 0:
                return (0, x.args[0])
    if r is None and a.op == "mul":
        lo = 1
        for x in a.args:
            l, _ = interval(x)
            if l is None or l < 0:
                return (None, None)
        return (0, None)
    return r if r is not None else (None, None)


def interval(t):
    if t.op == "int":
        return t.args[0], t.args[0]
    c, d = lin_parts(t)
    lo = hi = c
    for a, k in d.items():
        l, h = atom_rng(a)
        if k < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + k * l
        hi = None if hi is None or h is None else hi + k * h
    return lo, hi


def _residue(w, t):
    """a representative of t modulo 2^w without inner reductions"""
    if t.op != "lin":
        return t
    c, d = lin_parts(t)
    m, h = 1 << w, 1 << (w - 1)
    out = None
    for a, k in d.items():
        if not -h < k <= h or a.op == "cast" and a.args[0] >= w:
            out = True
    if not -h < c <= h:
        out = True
    if out is None:
        return t
    c = c % m
    r = I(c - m if c > h else c)
    for a, k in d.items():
        k = k % m
        if k > h:
            k -= m
        if a.op == "cast" and a.args[0] >= w:
            a = a.args[2]
        r = add(r, scale(a, k))
    return _residue(w, r)


def _sizelike(t):
    """the size of a container, up to a small constant (containers are
    assumed to have fewer than 2^31 elements where a size becomes an int)"""
    if t.op == "size":
        return True
    if t.op != "lin":
        return False
    c, d = lin_parts(t)
    return -16 <= c <= 16 and len(d) == 1 and all(k.op == "size" and v == 1 for k, v in d.items())


def cast(w, sg, t, facts=None):
    """integral conversion to width w, signedness sg."""
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
    if t.op == "int":
        v = t.args[0] & ((1 << w) - 1)
        if sg and v >> (w - 1):
            v -= 1 << w
        return I(v)
    if t.op == "ite":
        return ite(t.args[0], cast(w, sg, t.args[1], facts),
                   cast(w, sg, t.args[2], facts))
    if is_bool(t):
        return ite(t, ONE, ZERO)
    l, h = interval(t)
    if l is not None and h is not None and l >= lo and h <= hi:
        return t
    u = _residue(w, t)
    if u is not t:
        return cast(w, sg, u, facts)
    if w == 32 and sg and _sizelike(t):
        return t
    if facts is not None:
        if (l is not None and l >= lo or facts.entails(le(I(lo), t))) and \
           (h is not None and h <= hi or facts.entails(le(t, I(hi)))):
            return t
        # only the sign is in question and the source is no wider
        if not sg and h is not None and h <= hi and facts.entails(le(ZERO, t)):
            return t
        # exactly one wrap-around
        if not sg and l is not None and h is not None:
            if l < 0 and l >= -(1 << w) and h <= hi and facts.entails(le(t, I(-1))):
                return add(t, I(1 << w))
            if h > hi and h < (2 << w) and facts.entails(le(I(1 << w), t)):
                return sub(t, I(1 << w))
    if t.op == "cast":
        w0, sg0, x = t.args
        if w <= w0:
            return cast(w, sg, x, facts)
    r = T("cast", w, sg, t)
    RNG.setdefault(r, (lo, hi))
    return r


def axioms(a):
    """linear facts (<=0 terms) that hold of an atom by its meaning."""
    out = []
    lo, hi = atom_rng(a)
    if lo is not None:
        out.append(sub(I(lo), a))
    if hi is not None and hi < (1 << 62):
        out.append(sub(a, I(hi)))
    if a.op == "cast":
        w, sg, x = a.args
        l, h = interval(x)
        if l is not None and l >= 0:
            out.append(sub(a, x))            # truncation never increases
        elif not sg:
            pass
        if not sg and h is not None and h < (1 << w):
            out.append(sub(x, a))            # x <= (unsigned)x
    if a.op == "div" and a.args[1].op == "int" and a.args[1].args[0] > 0:
        l, _ = interval(a.args[0])
        n = a.args[1].args[0]
        if l is not None and l >= 0:
            out.append(sub(scale(a, n), a.args[0]))
            out.append(add(sub(a.args[0], scale(a, n)), I(1 - n)))
    if a.op == "mod" and a.args[1].op == "int" and a.args[1].args[0] > 0:
        l, _ = interval(a.args[0])
        n = a.args[1].args[0]
        if l is not None and l >= 0:
            e = sub(a.args[0], add(a, scale(div(a.args[0], a.args[1]), n)))
            out.append(e)
            out.append(neg(e))
    if a.op == "max0":
        out.append(sub(a.args[0], a))
    if a.op == "min":
        for x in a.args:
            out.append(sub(a, x))
    if a.op == "max":
        for x in a.args:
            out.append(sub(x, a))
    return out


# ------------------------------------------------------------------ facts
_argset = {}


def argset(t):
    if t.op != "or":
        return None
    r = _argset.get(t)
    if r is None:
        r = _argset[t] = frozenset(t.args)
    return r


class Facts(object):
    __slots__ = ("lits", "les", "clauses", "foralls", "bottom", "memo", "ememo",
                 "nclause")

    def __init__(self):
        self.lits = {}
        self.les = ()
        self.clauses = ()
        self.foralls = ()
        self.bottom = False
        self.memo = {}
        self.ememo = {}

    def copy(self):
        f = Facts()
        f.lits = dict(self.lits)
        f.les = self.les
        f.clauses = self.clauses
        f.foralls = self.foralls
        f.bottom = self.bottom
        return f

    def all(self):
        return list(self.lits) + list(self.clauses)

    def add(self, *ts):
        f = self.copy()
        for t in ts:
            f._add(t, 0)
        return f

    def _add(self, t, depth):
        if self.bottom:
            return
        t = self.simp(t)
        if t is TRUE:
            return
        if t is FALSE:
            self.bottom = True
            return
        if t.op == "and":
            for x in t.args:
                self._add(x, depth)
            return
        if t.op == "or":
            if t not in self.clauses:
                self.clauses = self.clauses + (t,)
                self.memo = {}
                self.ememo = {}
            return
        if t in self.lits:
            return
        self.lits[t] = True
        self.memo = {}
        self.ememo = {}
        if t.op == "forall":
            self.foralls = self.foralls + (t,)
        if t.op == "le":
            self._addle(t.args[0])
        if t.op == "eq0":
            self._addle(t.args[0])
            self._addle(neg(t.args[0]))
        if t.op == "eq0" and t.args[0].op == "div":
            x, m = t.args[0].args
            if _nonneg(x) and m.op == "pow2":
                self._addle(sub(x, sub(m, ONE)))
        if t.op == "not" and t.args[0].op == "eq0":
            l = t.args[0].args[0]
            if l.op == "div":
                x, m = l.args
                if _nonneg(x) and m.op == "pow2":
                    self._addle(sub(m, x))
            lo, hi = interval(l)
            if lo == 0:
                self._addle(sub(ONE, l))
            elif hi == 0:
                self._addle(add(l, ONE))
        # unit propagation
        if depth < 6 and self.clauses:
            old = self.clauses
            self.clauses = ()   # a clause must not justify itself
            keep = []
            new = []
            for c in old:
                s = self.simp(c)
                if s.op == "or":
                    keep.append(s)
                elif s is not TRUE:
                    new.append(s)
            self.clauses = tuple(keep)
            self.memo = {}
            self.ememo = {}
            for n in new:
                self._add(n, depth + 1)

    def _addle(self, l):
        self.les = self.les + (l,)
        self.memo = {}
        self.ememo = {}
        c, d = lin_parts(l)
        # x mod n = x for 0 <= x < n
        for a in d:
            if a.op == "mod" and a.args[1].op == "int":
                self._small(a)
        if len(d) == 1:
            x = next(iter(d))
            # c <= div(x,m) <= d bounds x
            if x.op == "div" and x.args[1].op == "int" and x.args[1].args[0] > 1 and _nonneg(x.args[0]):
                m = x.args[1].args[0]
                if d[x] > 0:
                    e = sub(x.args[0], I((-c // d[x]) * m + m - 1))
                else:
                    e = sub(I(-(-c // -d[x]) * m), x.args[0])
                if e not in self.les and e.op != "int":
                    self._addle(e)
            if d[x] > 0 and x.op != "mod":
                for f in self.les:
                    for a in lin_parts(f)[1]:
                        if a.op == "mod" and a.args[0] is x and a.args[1].op == "int":
                            self._small(a)
        # c + k*x + (something nonnegative) <= 0 -> x <= -c/k
        if 2 <= len(d) <= 4 and all(k > 0 for k in d.values()) and max(d.values()) > 1:
            lows = {a: interval(a)[0] for a in d}
            if all(x is not None and x >= 0 for x in lows.values()):
                for a, k in d.items():
                    m = -(c + sum(y * lows[x] for x, y in d.items() if x is not a)) // k
                    h = interval(a)[1]
                    if h is None or m < h:
                        e = sub(a, I(m))
                        if e not in self.les:
                            self._addle(e)
        # cast_unsigned(x) + rest <= 0 with small bound -> x >= 0
        for a, k in d.items():
            if a.op == "cast" and not a.args[1] and k == 1:
                w = a.args[0]
                rest = mk_lin(c, {x: y for x, y in d.items() if x is not a})
                lo, hi = interval(neg(rest))
                xl, xh = interval(a.args[2])
                if hi is not None and xl is not None and hi < (1 << w) + xl:
                    # a == x
                    x = a.args[2]
                    self.les = self.les + (sub(a, x), sub(x, a), neg(x))

    # -- entailment
    def ev(self, t):
        """TRUE / FALSE / None"""
        if t is TRUE or t is FALSE:
            return t
        if self.bottom:
            return TRUE
        if t in self.lits:
            return TRUE
        n = b_not(t)
        if n in self.lits:
            return FALSE
        r = self.ememo.get(t)
        if r is not None:
            return r if r is not T else None
        r = self._ev(t)
        self.ememo[t] = r if r is not None else T
        return r

    def _ev(self, t):
        o = t.op
        if o == "not":
            r = self.ev(t.args[0])
            return None if r is None else b_not(r)
        if o == "and":
            allt = True
            for x in t.args:
                r = self.ev(x)
                if r is FALSE:
                    return FALSE
                if r is None:
                    allt = False
            if not allt and self.clauses and self._clause(t, True):
                return FALSE
            return TRUE if allt else None
        if o == "or":
            allf = True
            for x in t.args:
                r = self.ev(x)
                if r is TRUE:
                    return TRUE
                if r is None:
                    allf = False
            if not allf and self.clauses and self._clause(t, False):
                return TRUE
            return FALSE if allf else None
        if o == "le":
            if self.prove_le(t.args[0]):
                return TRUE
            if self.prove_le(add(neg(t.args[0]), ONE)):
                return FALSE
            return None
        if o == "eq0":
            l = t.args[0]
            if self.prove_le(add(l, ONE)) or self.prove_le(add(neg(l), ONE)):
                return FALSE
            if self.prove_le(l) and self.prove_le(neg(l)):
                return TRUE
            return None
        return None

    def _clause(self, t, negate):
        """is the disjunction t (or of the negations of the conjunction t)
        implied by one of the known clauses?"""
        have = argset(b_not(t)) if negate else argset(t)
        if have is None:
            return False
        for c in self.clauses:
            if len(c.args) <= len(have) and argset(c) <= have:
                return True
        return False

    def _small(self, a):
        x, n = a.args
        e = sub(x, a)
        if e in self.les or n.args[0] <= 0 or x.op == "int":
            return
        lo, hi = interval(x)
        if (lo is not None and lo >= 0 or self.fact_nonneg(x)) and \
                (hi is not None and hi < n.args[0] or self._bounded(x, n.args[0] - 1)):
            self.les = self.les + (e, neg(e))

    def _bounded(self, x, m):
        c, d = lin_parts(x)
        for f in self.les:
            fc, fd = lin_parts(f)
            if fd == d and fc - c + m >= 0:
                return True
        if x.op == "div" and x.args[1].op == "int" and x.args[1].args[0] > 0 and m >= 0:
            k = x.args[1].args[0]
            return self._bounded(x.args[0], (m + 1) * k - 1)
        return False

    def prove_le(self, l, depth=4):
        """can l <= 0 be derived from the linear facts?"""
        if l.op == "int":
            return l.args[0] <= 0
        _, hi = interval(l)
        if hi is not None and hi <= 0:
            return True
        return self._fm(l, depth, set(), 0)

    def _fm(self, l, depth, seen, slack):
        """l <= slack? (l is an integer: with D*l on the left the right hand
        side may be D*slack + D-1)"""
        if l.op == "int":
            return l.args[0] <= slack
        if (l, slack) in seen:
            return False
        seen.add((l, slack))
        _, hi = interval(l)
        if hi is not None and hi <= slack:
            return True
        if depth == 0:
            return False
        c, d = lin_parts(l)
        # choose an atom to eliminate: try each of the first few
        for a, k in sorted(d.items(), key=lambda x: -x[0].id)[:4]:
            cands = []
            for f in self.les:
                fc, fd = lin_parts(f)
                fk = fd.get(a)
                if fk and (fk > 0) == (k > 0):
                    cands.append((f, fk))
            ax = axioms(a)
            if a.op == "mod" and a.args[1].op != "int" and k > 0:
                m = a.args[1]
                lx, lm = interval(a.args[0])[0], interval(m)[0]
                if lx is not None and lx >= 0 and (
                        lm is not None and lm >= 0 or self.fact_nonneg(m)):
                    ax = ax + [add(sub(a, m), ONE)]
            if a.op == "div" and a.args[1].op == "int" and a.args[1].args[0] > 0 and \
                    (interval(a.args[0])[0] or -1) < 0 and self.fact_nonneg(a.args[0]):
                n = a.args[1].args[0]
                ax = ax + [sub(scale(a, n), a.args[0]), add(sub(a.args[0], scale(a, n)), I(1 - n))]
            if a.op == "cast" and a.args[1] and self.fact_nonneg(a.args[2]):
                ax = ax + [sub(a, a.args[2])]
            if a.op == "cast" and not a.args[1]:
                h = interval(a.args[2])[1]
                if h is not None and h < (1 << a.args[0]) and self.fact_nonneg(a.args[2]):
                    ax = ax + [sub(a, a.args[2]), sub(a.args[2], a)]
            for f in ax:
                fc, fd = lin_parts(f)
                fk = fd.get(a)
                if fk and (fk > 0) == (k > 0):
                    cands.append((f, fk))
            for f, fk in cands:
                # l = (k/fk) f + rest ; rest <= 0 suffices (k/fk > 0)
                fr = Fraction(k, fk)
                rest = sub(scale(l, fr.denominator), scale(f, fr.numerator))
                dn = fr.denominator
                if self._fm(rest, depth - 1, seen, slack * dn + dn - 1):
                    return True
        # not-equal sharpening: x != c and x <= c -> x <= c-1
        return False

    def fact_nonneg(self, x):
        l = neg(x)
        if l in self.les:
            return True
        c, d = lin_parts(l)
        for f in self.les:
            fc, fd = lin_parts(f)
            if fd == d and fc >= c:
                return True
        return False

    def entails(self, t):
        r = self.ev(t)
        if r is TRUE:
            return True
        s = self.simp(t)
        if s is TRUE:
            return True
        return False

    def prove(self, t, extra=(), depth=2):
        """entailment with quantifier instantiation and case splits."""
        if self.bottom:
            return True
        t = self.simp(t)
        if t is TRUE:
            return True
        if t is FALSE and depth == 0:
            return False
        if t.op == "and":
            return all(self.prove(x, extra, depth) for x in t.args)
        if t.op == "forall":
            d, n, body = t.args
            if self.entails(t):
                return True
            _next[0] += 1
            sk = T("sk", _next[0])
            RNG[sk] = (0, None)
            f = self.add(le(ZERO, sk), lt(sk, n))
            return f.prove(subst_bi(body, d, sk), extra + (sk,), depth)
        if self.entails(t):
            return True
        # implication: assume the negated other disjuncts
        if t.op == "or":
            parts = sorted(t.args, key=lambda x: (x.op == "forall" or x.op == "not" and x.args[0].op == "forall", x.id))
            f = self.add(*[b_not(x) for x in parts])
            if f.bottom:
                return True
            return f.refute(extra, depth)
        f = self.add(b_not(t))
        if f.bottom:
            return True
        if depth > 0:
            return f.refute(extra, depth)
        return False

    def decide(self, t, budget=4000):
        """prove; if that fails, normalise goal and facts by expansion over
        the boolean atoms of the remaining guards (bounded)."""
        if self.prove(t):
            return True
        t = self.simp(t)
        if t.op == "and":
            return all(self.decide(x, budget) for x in t.args)
        return self._expand(t, [budget])

    def _expand(self, goal, left):
        if self.bottom:
            return True
        goal = self.simp(goal)
        if goal is TRUE:
            return True
        left[0] -= 1
        if left[0] < 0:
            return False
        if goal is FALSE:
            return self.refute((), 1) or self._by_elimination(goal, left) or \
                self._mod_split(goal, left)
        if goal.op == "and":
            return all(self._expand(x, left) for x in goal.args)
        c = self._mod_guard(goal)
        if c is not None:
            for v in (c, b_not(c)):
                f = self.add(v)
                if not f.bottom and not f._expand(goal, left):
                    left[0] = -1
                    return False
            return True
        count = {}
        stack = [(goal, 1.0)]
        while stack:
            x, w = stack.pop()
            if x.op in ("and", "or", "not"):
                stack.extend((y, w * 0.9) for y in x.args)
            else:
                count[x] = count.get(x, 0) + w
        inner = {}
        for x in count:
            for c in self.guards(x):
                inner[c] = inner.get(c, 0) + 1
        if inner:
            count = inner
        elif len(count) == 1:
            if self.prove(goal) or self.refute((), 0):
                return True
            v = self._from_bits()
            if v:
                f = self.add(*v)
                if f.bottom or f.refute((), 0) or f._expand(goal, left):
                    return True
            if goal.op == "not" and goal.args[0].op == "eq0":
                f = self.add(goal.args[0])
                return f.bottom or f._expand(FALSE, left)
            return self._by_elimination(goal, left)
        a = max(count, key=lambda x: (count[x], -x.id))
        for v in (a, b_not(a)):
            f = self.add(v)
            if not f.bottom and not f._expand(goal, left):
                left[0] = -1
                return False
        return True

    def _from_bits(self):
        """values of the quantities all of whose bits are known"""
        bits = {}
        for l in self.lits:
            yes = l.op != "not"
            x = l if yes else l.args[0]
            if x.op == "batom" and x.args[0].op == "bit" and x.args[0].args[1].op == "int":
                bits.setdefault(x.args[0].args[0], {})[x.args[0].args[1].args[0]] = yes
            elif x.op == "eq0" and x.args[0].op == "mod" and x.args[0].args[1] is I(2):
                bits.setdefault(x.args[0].args[0], {})[0] = not yes
            elif x.op == "eq0":
                for a in lin_parts(x.args[0])[1]:
                    if a.op == "mod" and a.args[1].op == "int" and a.args[1].args[0] in (4, 8, 16):
                        rest = [k for k in range(a.args[1].args[0]) if self.ev(ieq(a, I(k))) is not FALSE]
                        if len(rest) == 1:
                            for j in range(a.args[1].args[0].bit_length() - 1):
                                bits.setdefault(a.args[0], {})[j] = bool(rest[0] >> j & 1)
        out = []
        for a, d in bits.items():
            lo, hi = interval(a)
            if not (lo is not None and lo >= 0 or self.fact_nonneg(a)):
                continue
            n = max(d) + 1
            if not (hi is not None and hi < 1 << n or self._bounded(a, (1 << n) - 1)):
                continue
            m = n
            while m - 1 in d:
                m -= 1
            e = ieq(div(a, I(1 << m)) if m else a, I(sum(1 << j - m for j in range(m, n) if d[j])))
            if self.ev(e) is not TRUE:
                out.append(e)
        return out

    def _residues(self, l):
        """l == 0 for l = x mod n - y with 0 <= y < n"""
        c, d = lin_parts(l)
        for x, k in d.items():
            if x.op != "mod" or abs(k) != 1 or x.args[1].op != "int" or x.args[1].args[0] <= 2:
                continue
            n = x.args[1].args[0]
            y = scale(sub(l, scale(x, k)), -k)
            r = _congruent(x.args[0], y, n)
            if r is TRUE and not (self.prove_le(sub(y, I(n - 1))) and self.prove_le(neg(y))):
                r = None
            if r is not None:
                return r
        return None

    def _within(self, x, lo, hi):
        return self.prove_le(sub(I(lo), x)) and self.prove_le(sub(x, I(hi)))

    def _wraps_once(self, x, n):
        return self.ev(le(I(n), x)) is TRUE and self._within(x, n, 2 * n - 1)

    def _mod_split(self, goal, left):
        """distinguish whether the argument of a reduction is below the modulus"""
        seen = set()
        for l in self.all():
            if l.flag and l.op in ("le", "eq0"):
                subterms(self.simp(l.args[0]), seen)
        c = self._mod_cond(seen)
        if c is None:
            return False
        for v in (c, b_not(c)):
            f = self.add(v)
            if not f.bottom and not f._expand(goal, left):
                return False
        return True

    def _mod_guard(self, goal):
        return self._mod_cond(subterms(goal)) if goal.flag else None

    def _mod_cond(self, terms):
        for x in sorted((y for y in terms if y.op == "mod" and y.flag), key=lambda y: y.id):
            if x.args[1].op != "int" or x.args[0].op != "lin":
                continue
            a, n = x.args[0], x.args[1].args[0]
            if n <= 2 or any(y.flag for y in lin_parts(a)[1]):
                continue
            c = le(a, I(n - 1))
            if self.ev(c) is None and self._within(a, 0, 3 * n - 1):
                return c
        return None

    def _by_elimination(self, goal, left):
        """use an equation between two quantities to remove one of them"""
        every = self.all()
        new = []
        for l in every:
            if l.op in ("le", "eq0") and l.args[0].flag:
                y = self.simp(l.args[0])
                if y is not l.args[0]:
                    y = le0(y) if l.op == "le" else ieq(y, ZERO)
                    if self.simp(y) is not TRUE:
                        new.append(y)
        if new:
            f = self.add(*new)
            if f.bottom or f._expand(goal, left):
                return True
            return False
        inside = set()
        subterms(goal, inside)
        for x in every:
            subterms(x, inside) if x.op != "eq0" else [
                subterms(a, inside) for y, _ in lin_parts(x.args[0])[1].items() for a in y.args
                if isinstance(a, T)]
        for l in every:
            if l.op != "eq0":
                continue
            c, d = lin_parts(l.args[0])
            if len(d) > 3:
                continue
            for a in sorted(d, key=lambda y: -y.id):
                if abs(d[a]) != 1 or a not in inside or a.op in ("ite", "bi"):
                    continue
                rest = scale(sub(l.args[0], scale(a, d[a])), -d[a])
                if a in subterms(rest):
                    continue
                m = {a: rest}
                f = Facts()
                for x in every:
                    if x is not l:
                        f._add(subst(x, m), 0)
                        if f.bottom:
                            return True
                return f._expand(subst(goal, m), left)
        return False

    def guards(self, t):
        """atoms that decide which value the choices inside an atom have"""
        out, seen, todo = [], set(), [t]
        while todo:
            x = todo.pop()
            if x in seen or not x.flag or x.op in BINDERS:
                continue
            seen.add(x)
            g = None
            if x.op == "ite":
                g = x.args[0]
            elif x.op == "max" or x.op == "min":
                g = le(x.args[0], x.args[1])
            elif x.op == "idx":
                b, i = x.args
                if b.op == "list" and len(b.args) <= 16:
                    for k in range(len(b.args) - 1):
                        if self.ev(ieq(i, I(k))) is None:
                            g = ieq(i, I(k))
                            break
                elif b.op == "setidx":
                    g = ieq(b.args[1], i)
                elif b.op == "append":
                    g = lt(i, size(b.args[0]))
                elif b.op == "cat":
                    g = lt(i, size(b.args[0]))
                elif b.op == "splice":
                    j = sub(i, b.args[1])
                    g = b_and(le(ZERO, j), lt(j, b.args[2]))
            if g is not None:
                gs = [g]
                while gs:
                    y = gs.pop()
                    if y.op in ("and", "or", "not"):
                        gs.extend(y.args)
                    elif y is not TRUE and y is not FALSE and self.ev(y) is None:
                        out.append(y)
            for a in x.args:
                if isinstance(a, T):
                    todo.append(a)
                elif isinstance(a, tuple):
                    todo.extend(_flat_terms(a))
        return out

    def refute(self, extra=(), depth=2):
        """is this fact set contradictory? (instances + case splits)"""
        if self.bottom:
            return True
        if self.les:
            for l in self.lits:
                if l.op == "not" and l.args[0].op == "eq0":
                    x = l.args[0].args[0]
                    if self.prove_le(x) and self.prove_le(neg(x)):
                        return True
        if depth <= 0:
            return False
        f = self
        # negated foralls: skolemise
        for l in list(f.lits):
            if l.op == "not" and l.args[0].op == "forall":
                fa = l.args[0]
                d, n, body = fa.args
                sk = T("sk", fa.id)
                RNG[sk] = (0, None)
                f = f.add(le(ZERO, sk), lt(sk, n), b_not(subst_bi(body, d, sk)))
                extra = extra + (sk,)
                if f.bottom:
                    return True
        # instantiate foralls
        cands = set(extra)
        if f.foralls:
            for l in list(f.lits):
                if l.op == "forall":
                    continue
                for s in subterms(l):
                    if s.op == "idx":
                        cands.add(s.args[1])
                    elif s.op in ("bi", "sk"):
                        cands.add(s)
            cands.add(ZERO)
            for fa in f.foralls:
                d, n, body = fa.args
                for c in list(cands):
                    guard = b_and(le(ZERO, c), lt(c, n))
                    f = f.add(b_or(b_not(guard), subst_bi(body, d, c)))
                    if f.bottom:
                        return True
        # case split on small clauses
        for cl in sorted(f.clauses, key=lambda c: len(c.args))[:8]:
            allbad = True
            for x in cl.args:
                g = f.add(x)
                if not g.bottom and not g.refute(extra, depth - 1):
                    allbad = False
                    break
            if allbad:
                return True
        # split not-equal literals
        if depth > 1:
            n = 0
            for l in list(f.lits):
                if l.op == "not" and l.args[0].op == "eq0":
                    n += 1
                    if n > 6:
                        break
                    lin = l.args[0].args[0]
                    a = f.add(le0(add(lin, ONE)))
                    if not a.bottom and not a.refute(extra, depth - 1):
                        continue
                    b = f.add(le0(add(neg(lin), ONE)))
                    if b.bottom or b.refute(extra, depth - 1):
                        return True
        return False

    # -- simplification of a term under the facts
    def simp(self, t):
        if not t.flag:
            return t
        r = self.memo.get(t)
        if r is not None:
            return r
        r = self._simp(t)
        self.memo[t] = r
        return r

    def _remainder(self, t):
        """c*(x - n*(x div n)) is c*(x mod n) for x >= 0"""
        cst, d = lin_parts(t)
        for k, v in d.items():
            if k.op != "div" or k.args[1].op != "int":
                continue
            x, n = k.args[0], k.args[1].args[0]
            if n < 2 or v % n or x is t:
                continue
            c = -v // n
            xc, xd = lin_parts(x)
            if not xd or any(d.get(a) != b * c for a, b in xd.items()):
                continue
            if (interval(x)[0] or -1) >= 0 or interval(x)[0] == 0 or self.fact_nonneg(x):
                e = {a: b for a, b in d.items() if a is not k and a not in xd}
                return add(mk_lin(cst - xc * c, e), scale(mod(x, I(n)), c))
        return None

    def _simp(self, t):
        o = t.op
        if o in ("le", "eq0"):
            if t in self.lits:
                return TRUE
            l = self.simp(t.args[0]) if t.args[0].flag else t.args[0]
            if l is not t.args[0]:
                t = le0(l) if o == "le" else ieq(l, ZERO)
                if t.op not in ("le", "eq0"):
                    return self.simp(t)
            r = self.ev(t)
            if r is None and o == "eq0":
                r = self._residues(t.args[0])
            return r if r is not None else t
        if o in ("not",):
            r = self.ev(t)
            if r is not None:
                return r
            return b_not(self.simp(t.args[0]))
        if o in ("and", "or"):
            r = rebuild(t, self.simp)
            if r.op in ("and", "or"):
                e = self.ev(r)
                if e is not None:
                    return e
            return r
        if o == "ite":
            c = self.simp(t.args[0])
            if c is TRUE:
                return self.simp(t.args[1])
            if c is FALSE:
                return self.simp(t.args[2])
            return ite(c, self.simp(t.args[1]), self.simp(t.args[2]))
        if o == "forall":
            r = self.ev(t)
            if r is not None:
                return r
            n = self.simp(t.args[1])
            b = self.simp(t.args[2]) if not (
                {t.args[0]} & self._depths()) else t.args[2]
            return mk_forall(t.args[0], n, b)
        if o in ("ok", "eq", "isnull", "batom"):
            r = self.ev(t)
            if r is not None:
                return r
            s = rebuild(t, self.simp)
            if s is not t:
                if is_bool(s) and s.op in ("ok", "eq", "isnull", "batom"):
                    r = self.ev(s)
                    return r if r is not None else s
                return self.simp(s)
            return s
        if o in BINDERS:
            return t
        if o == "max" or o == "min":
            x, y = self.simp(t.args[0]), self.simp(t.args[1])
            c = self.ev(le(x, y))
            if c is TRUE or c is FALSE:
                return y if (c is TRUE) == (o == "max") else x
            return (tmax if o == "max" else tmin)(x, y)
        if o == "lin":
            r = self._remainder(t)
            if r is not None:
                return self.simp(r)
        if o == "div" and t.args[1].op == "int" and t.args[1].args[0] > 0:
            x = self.simp(t.args[0])
            if x.op == "lin" and self._within(x, 0, t.args[1].args[0] - 1):
                return ZERO
            return div(x, t.args[1])
        if o == "mod" and t.args[1].op == "int" and t.args[1].args[0] > 0:
            x = self.simp(t.args[0])
            if x.op != "int" and (interval(x)[0] or 0) >= 0 and (
                    interval(x)[0] is not None or self.fact_nonneg(x)) and \
                    self._bounded(x, t.args[1].args[0] - 1):
                return x
            if x.op == "lin" and self._within(x, 0, t.args[1].args[0] - 1):
                return x
            if x.op == "lin" and self._wraps_once(x, t.args[1].args[0]):
                return add(x, I(-t.args[1].args[0]))
            return mod(x, t.args[1])
        if o == "cast":
            x = self.simp(t.args[2])
            r = cast(t.args[0], t.args[1], x, self)
            if r.op == "cast" and x.op == "cast" and r.args[2] is not x:
                return self.simp(r)
            return r
        if o == "idx":
            b, i = self.simp(t.args[0]), self.simp(t.args[1])
            r = getidx(b, i, self)
            return r if r.op == "idx" and r.args == (b, i) else self.simp(r)
        return rebuild(t, self.simp)

    def _depths(self):
        r = set()
        for l in self.lits:
            r |= free_bi(l)
        return r


def mk_forall(d, n, body):
    if body is TRUE or n is ZERO:
        return TRUE
    if d not in free_bi(body):
        if body is FALSE:
            return le(n, ZERO)
        return b_or(le(n, ZERO), body)
    if body.op == "and":
        return b_and(*[mk_forall(d, n, x) for x in body.args])
    if body.op == "or":
        s = split_choice(body)
        if s is not None:
            return b_and(mk_forall(d, n, s[0]), mk_forall(d, n, s[1]))
    d, body = canon_binder(d, body)
    return T("forall", d, n, body)


def split_choice(t):
    """(c && x) || (!c && y) || z  as  (!c || x || z) && (c || y || z)"""
    ands = [a for a in t.args if a.op == "and"]
    for a in ands:
        for c in a.args:
            nc = b_not(c)
            for b in ands:
                if b is not a and nc in b.args:
                    z = [x for x in t.args if x is not a and x is not b]
                    return (b_or(nc, b_and(*[x for x in a.args if x is not c]), *z),
                            b_or(c, b_and(*[x for x in b.args if x is not nc]), *z))
    return None


def canon_binder(d, body):
    """rename the bound variable to the first free name"""
    used = free_bi(body) - {d}
    e = 0
    while e in used or ("v", e) in used:
        e += 1
    if e == d or ("v", d) in free_bi(body):
        return d, body
    return e, subst_bi(body, d, T("bi", e))


def mk_first(d, n, g):
    """the least index below n at which g holds (meaningful if there is one)"""
    if g is TRUE:
        return ZERO
    d, g = canon_binder(d, g)
    return T("first", d, n, g)


def mk_map(d, n, body):
    if n is ZERO:
        return EMPTY
    if n.op == "int" and 0 < n.args[0] <= 32:
        return T("list", *[subst_bi(body, d, I(k)) for k in range(n.args[0])])
    if body.op == "idx" and body.args[1] is T("bi", d) and \
            d not in free_bi(body.args[0]) and size(body.args[0]) is n:
        return body.args[0]
    if not (free_bi(body) & {d}):
        return T("rep", n, body)
    d, body = canon_binder(d, body)
    return T("map", d, n, body)


_MK["forall"] = mk_forall
_MK["map"] = mk_map
_MK["first"] = mk_first
FALSE_ = FALSE


# ------------------------------------------------------------------ printing
def show(t, depth=7):
    if t.__class__ is tuple:
        return "(" + ",".join(show(x, depth) for x in t) + ")"
    if t.__class__ is not T:
        return str(t)
    o, a = t.op, t.args
    if depth == 0 and a:
        return "…"
    s = lambda x: show(x, depth - 1)
    if o == "int":
        return str(a[0])
    if o in ("true", "false", "null", "okst", "void"):
        return o
    if o == "lin":
        r = ""
        for at, k in a[1]:
            r += ("+" if k > 0 else "-") + ("" if abs(k) == 1 else str(abs(k)) + "*") + s(at)
        if a[0]:
            r += "%+d" % a[0]
        return "(" + r.lstrip("+") + ")"
    if o == "le":
        c, d = lin_parts(a[0])
        pos = mk_lin(0, {k: v for k, v in d.items() if v > 0})
        ng = mk_lin(-c, {k: -v for k, v in d.items() if v < 0})
        return s(pos) + " <= " + s(ng)
    if o == "eq0":
        c, d = lin_parts(a[0])
        pos = mk_lin(0, {k: v for k, v in d.items() if v > 0})
        ng = mk_lin(-c, {k: -v for k, v in d.items() if v < 0})
        return s(pos) + " == " + s(ng)
    if o == "eq":
        return s(a[0]) + " == " + s(a[1])
    if o == "not":
        return "!(" + s(a[0]) + ")"
    if o == "and":
        return "(" + " && ".join(s(x) for x in a) + ")"
    if o == "or":
        return "(" + " || ".join(s(x) for x in a) + ")"
    if o == "fld":
        return s(a[0]) + "." + a[1]
    if o == "idx":
        return s(a[0]) + "[" + s(a[1]) + "]"
    if o == "sym":
        return str(a[0])
    if o == "ite":
        return "(" + s(a[0]) + " ? " + s(a[1]) + " : " + s(a[2]) + ")"
    if o == "with":
        return s(a[0]) + "{" + ", ".join(k + ":=" + s(v) for k, v in a[1]) + "}"
    if o == "bi":
        return "i%d" % a[0]
    if o == "str":
        return repr(a[0])
    if o == "ref":
        r = "&" + str(a[0])
        for e in a[1]:
            r += "." + (e[1] if e[0] == "f" else "[" + s(e[1]) + "]" if e[0] == "i" else "*")
        return r
    return o + "(" + ",".join(show(x, depth - 1) for x in a) + ")"

"""Value domains of the symbolic executor.

fp mode   - IEEE floats are bit-vectors (raw bits) and arithmetic is z3's FP theory: bit-precise.
real mode - IEEE floats are exact rational functions num/den over z3 reals (rounding is abstracted away;
            the narrowest format any rounding happened in is tracked as `prec`).
"""
import math
import struct
from fractions import Fraction
import z3
from .poly import TooBig

SORT = {32: z3.Float32(), 64: z3.Float64(), 80: z3.FPSort(15, 64)}
RNE = z3.RNE()
PREC = {32: 24, 64: 53, 80: 64}


class Unsupported(Exception):
    pass


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)


NULL = Ptr(0, 0)


class PIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Blob:
    """bytes copied through an integer register without being interpreted"""
    __slots__ = ('size', 'cells')

    def __init__(self, size, cells):
        self.size, self.cells = size, cells


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def f2bits(d, w):
    if w == 32:
        try:
            return struct.unpack('<I', struct.pack('<f', d))[0]
        except OverflowError:
            return 0x7f800000 if d > 0 else 0xff800000
    return struct.unpack('<Q', struct.pack('<d', d))[0]


def bits2f(b, w):
    if w == 32:
        return struct.unpack('<f', struct.pack('<I', b))[0]
    return struct.unpack('<d', struct.pack('<Q', b))[0]


def bv(x, w):
    return z3.BitVecVal(x, w) if isinstance(x, int) else x


def zbool(x):
    if isinstance(x, (int, bool)):
        return z3.BoolVal(bool(x))
    return x


# ------------------------------------------------------------------ fp mode
class FB:
    """a float given by its bit pattern"""
    __slots__ = ('b', 'w', '_fp', 'iv', 'nar', 'tab')

    def __init__(self, b, w, fp=None, iv=None, nar=None):
        self.b, self.w, self._fp, self.iv = b, w, fp, iv
        self.nar = nar      # the float this double was widened from
        self.tab = None     # {bits: condition}: the few values it can have

    @property
    def conc(self):
        return isinstance(self.b, int)

    @property
    def val(self):
        return bits2f(self.b, self.w)

    def bits(self):
        if self.b is None:
            self.b = z3.fpToIEEEBV(self._fp)
        return self.b

    def fp(self):
        if self._fp is None:
            if self.conc:
                v = self.val
                s = SORT[self.w]
                if math.isnan(v):
                    self._fp = z3.fpNaN(s)
                else:
                    self._fp = z3.fpBVToFP(z3.BitVecVal(self.b, self.w), s)
            else:
                self._fp = z3.fpBVToFP(self.b, SORT[self.w])
        return self._fp

    def __repr__(self):
        return 'FB(%s)' % (self.val if self.conc else self.fp())


# Tables: a value drawn from a few constants stays a table of its possible values under arithmetic, each with the condition
# under which it is taken.  Operations on such values are folded case by case, so the solver only sees propositional logic.
def tab_make(tab, w):
    if len(tab) == 1:
        return FB(next(iter(tab)), w)
    it = iter(tab.items())
    b = z3.BitVecVal(next(it)[0], w)
    for k, c in it:
        b = z3.If(c, z3.BitVecVal(k, w), b)
    r = FB(b, w)
    r.tab = tab
    return r


def tab_of(a):
    return a.tab if a.tab is not None else {a.b: None} if a.conc else None


def tab_and(c, d):
    return d if c is None else c if d is None else z3.And(c, d)


def tab_key(k, w):
    v = bits2f(k, w)
    return (0x7fc00000 if w == 32 else 0x7ff8000000000000) if v != v else k


def tab_op(f, args):
    """f of every combination of the arguments' values: [(result, condition)], or None"""
    if not any(a.tab is not None for a in args):
        return None
    tabs = [tab_of(a) for a in args]
    n = 1
    for t in tabs:
        if t is None:
            return None
        n *= len(t)
    if n > 6000:
        return None
    out = [((), None)]
    for a, t in zip(args, tabs):
        out = [(xs + (FB(k, a.w),), tab_and(c, d)) for xs, c in out for k, d in t.items()]
    return [(f(*xs), c) for xs, c in out]


def tab_float(f, args, w):
    cs = tab_op(f, args)
    if cs is None:
        return None
    tab = {}
    for r, c in cs:
        tab.setdefault(tab_key(r.b, w), []).append(c)
    if len(tab) > 400:
        return None
    return tab_make({k: z3.Or(c) if len(c) > 1 else c[0] for k, c in tab.items()}, w)


def tab_bool(f, args):
    cs = tab_op(f, args)
    if cs is None:
        return None
    yes = [c for r, c in cs if r]
    return 0 if not yes else 1 if len(yes) == len(cs) else z3.Or(yes)


# Integer provenance: a float computed exactly from integers also carries the signed bit-vector it equals (iv).
# Comparisons and conversions back to integers then stay in the bit-vector theory.
def iv_of(a, lim):
    if a.iv is not None:
        return a.iv
    if isinstance(a, FB):
        if not a.conc:
            return None
        v = a.val
        if math.isnan(v) or math.isinf(v) or v != math.trunc(v) or abs(v) >= 2.0 ** (lim - 1):
            return None
        v = int(v)
    else:
        if not a.conc:
            return None
        v = a.n / a.d
        if v.denominator != 1 or abs(v) >= 2 ** (lim - 1):
            return None
        v = int(v)
    return z3.BitVecVal(v, max(v.bit_length() + 1, 2))


def iv_ext(x, w):
    return x if x.size() == w else z3.SignExt(w - x.size(), x)


def iv_pair(a, b, lim=128):
    if a.iv is None and b.iv is None:
        return None
    x, y = iv_of(a, lim), iv_of(b, lim)
    if x is None or y is None:
        return None
    return x, y


def iv_bin(op, a, b, lim):
    p = iv_pair(a, b, lim)
    if p is None or op not in ('fadd', 'fsub', 'fmul'):
        return None
    x, y = p
    w = x.size() + y.size() if op == 'fmul' else max(x.size(), y.size()) + 1
    if w > lim:
        return None
    x, y = iv_ext(x, w), iv_ext(y, w)
    return x + y if op == 'fadd' else x - y if op == 'fsub' else x * y


def iv_cmp(p, a, b):
    q = iv_pair(a, b)
    if q is None:
        return None
    w = max(q[0].size(), q[1].size())
    x, y = iv_ext(q[0], w), iv_ext(q[1], w)
    return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]


def iv_abs(x):
    w = x.size() + 1
    e = z3.SignExt(1, x)
    return z3.If(e < 0, -e, e) if w else e


def iv_ite(c, a, b):
    q = iv_pair(a, b)
    if q is None:
        return None
    w = max(q[0].size(), q[1].size())
    return z3.If(c, iv_ext(q[0], w), iv_ext(q[1], w))


def iv_int(i, iw, signed, lim):
    if isinstance(i, z3.BoolRef):
        return z3.If(i, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2))
    x = z3.simplify(i if signed else z3.ZeroExt(1, i))
    # the significant width
    while True:
        if x.decl().kind() == z3.Z3_OP_SIGN_EXT:
            x = x.arg(0)
        elif x.decl().kind() == z3.Z3_OP_CONCAT and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == 0 \
                and x.arg(0).size() > 1:
            r = x.children()[1:]
            x = z3.Concat(z3.BitVecVal(0, 1), *r)
        else:
            break
    return x if x.size() <= lim else None


def iv_to(x, iw):
    if x.size() >= iw:
        return z3.Extract(iw - 1, 0, x) if x.size() > iw else x
    return z3.SignExt(iw - x.size(), x)


def narrow(a):
    if a.nar is not None:
        return a.nar
    if a.conc and a.w == 64:
        v = a.val
        try:
            if v != v or abs(v) == math.inf or struct.unpack('<f', struct.pack('<f', v))[0] == v:
                return FB(f2bits(v, 32), 32)
        except OverflowError:
            pass
    return None


class FPDom:
    name = 'fp'

    def const(self, d, w):
        if w == 80:
            raise Unsupported('long double in fp mode')
        return FB(f2bits(d, w), w)

    def fresh(self, name, w, prec=None):
        return FB(z3.BitVec(name, w), w)

    def _c(self, d, w):
        if w == 32:
            try:
                d = struct.unpack('<f', struct.pack('<f', d))[0]
            except OverflowError:
                d = math.copysign(math.inf, d)
        return FB(f2bits(d, w), w)

    def bin(self, ex, op, a, b):
        w = a.w
        if a.conc and b.conc:
            x, y = a.val, b.val
            try:
                if op == 'fadd':
                    return self._c(x + y, w)
                if op == 'fsub':
                    return self._c(x - y, w)
                if op == 'fmul':
                    return self._c(x * y, w)
                if op == 'fdiv':
                    if y == 0:
                        if x == 0 or math.isnan(x):
                            return self._c(math.nan, w)
                        s = math.copysign(1, x) * math.copysign(1, y)
                        return self._c(math.copysign(math.inf, s), w)
                    return self._c(x / y, w)
                if op == 'frem':
                    return self._c(math.fmod(x, y), w)
            except (OverflowError, ValueError):
                pass
        r = tab_float(lambda x, y: self.bin(ex, op, x, y), [a, b], w)
        if r is not None:
            return r
        if op == 'fdiv' and ex is not None and ex.o.get('absfp'):
            return self.bounded(ex, op, [a, b], w)
        f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}.get(op)
        if f is None:
            raise Unsupported(op)
        if op == 'fmul' and ex is not None and ex.o.get('absfp') == 2:
            x, y = a.fp(), b.fp()
            memo = ex.__dict__.setdefault('absfp_memo', {})
            key = (op, w, x.get_id(), y.get_id())
            if key not in memo:
                bad = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y), z3.And(z3.fpIsInf(x), z3.fpIsZero(y)), z3.And(z3.fpIsZero(x), z3.fpIsInf(y)))
                v = z3.FP('fmul~%d' % len(memo), SORT[w])
                memo[key] = (FB(None, w, v), z3.fpIsNaN(v) == bad, a, b)
                ex.__dict__.setdefault('absfp_exact', {})[key] = v == z3.fpMul(RNE, x, y)
            r = memo[key][0]
            ex.define(key, [memo[key][1]])
            self.lemmas(ex, a, b, r)
            return r
        r = FB(None, w, f(RNE, a.fp(), b.fp()), iv_bin(op, a, b, 24 if w == 32 else 53))
        if op == 'fmul' and ex is not None and ex.o.get('absfp'):
            self.lemmas(ex, a, b, r)
        return r

    def lemmas(self, ex, a, b, r):
        """facts about a product which save the solver the multiplier"""
        x, y, p = z3.fpAbs(a.fp()), z3.fpAbs(b.fp()), z3.fpAbs(r.fp())
        one, two = z3.FPVal(1, SORT[a.w]), z3.FPVal(1.41421366, SORT[a.w])
        c = []
        for u, v in ((x, y), (y, x)):
            fin = z3.And(z3.Not(z3.fpIsInf(v)), z3.Not(z3.fpIsNaN(v)))
            c += [z3.Implies(z3.And(u <= one, fin), p <= v), z3.Implies(z3.And(u >= one, fin, z3.Not(z3.fpIsZero(v))), p >= v),
                  z3.Implies(z3.And(u <= two, fin), p <= z3.fpAdd(RNE, v, v))]
        c.append(z3.fpIsNegative(r.fp()) == z3.And(z3.Xor(z3.fpIsNegative(a.fp()), z3.fpIsNegative(b.fp())), z3.Not(z3.fpIsNaN(r.fp()))))
        ex.define(('mulfacts', x.get_id(), y.get_id()), c)
        ex.__dict__.setdefault('absfp_keep', []).append((a, b, r))

    def bounded(self, ex, op, args, w):
        """a quotient, root or hypotenuse as an unknown within the bounds that monotone rounding gives it (harness option absfp)"""
        x = args[0].fp()
        y = args[1].fp() if len(args) > 1 else x
        key = ('absfp', op, w, x.get_id(), y.get_id())
        memo = ex.__dict__.setdefault('absfp_memo', {})
        if key not in memo:
            srt = SORT[w]
            r = z3.FP('%s~%d' % (op, len(memo)), srt)
            one, big = z3.FPVal(1, srt), z3.fpPlusInfinity(srt)
            ax, ay, ar = z3.fpAbs(x), z3.fpAbs(y), z3.fpAbs(r)
            nan = z3.fpIsNaN
            if op == 'fdiv':
                bad = z3.Or(nan(x), nan(y), z3.And(z3.fpIsZero(x), z3.fpIsZero(y)), z3.And(z3.fpIsInf(x), z3.fpIsInf(y)))
                c = [nan(r) == bad,
                     z3.Implies(z3.Not(bad), z3.And(
                         z3.fpIsNegative(r) == z3.Xor(z3.fpIsNegative(x), z3.fpIsNegative(y)),
                         z3.Implies(ax <= ay, ar <= one), z3.Implies(ax >= ay, ar >= one),
                         z3.Implies(z3.fpIsZero(x), z3.fpIsZero(r)), z3.Implies(z3.fpIsZero(y), z3.fpIsInf(r)),
                         z3.Implies(z3.fpIsInf(x), z3.fpIsInf(r)), z3.Implies(z3.fpIsInf(y), z3.fpIsZero(r))))]
            elif op == 'sqrt':
                bad = z3.Or(nan(x), z3.And(z3.fpIsNegative(x), z3.Not(z3.fpIsZero(x))))
                root2 = z3.FPVal(1.41421366, srt)
                c = [nan(r) == bad,
                     z3.Implies(z3.Not(bad), z3.And(
                         z3.fpIsNegative(r) == z3.fpIsNegative(x), z3.fpIsZero(r) == z3.fpIsZero(x), z3.fpIsInf(r) == z3.fpIsInf(x),
                         z3.Implies(x >= one, z3.And(r >= one, r <= x)), z3.Implies(x <= one, z3.And(r <= one, r >= x)),
                         z3.Implies(x <= z3.FPVal(2, srt), r <= root2)))]
            else:
                m = z3.If(ax >= ay, ax, ay)
                c = [z3.Implies(z3.Or(z3.fpIsInf(x), z3.fpIsInf(y)), r == big),
                     z3.Implies(z3.And(z3.Not(z3.fpIsInf(x)), z3.Not(z3.fpIsInf(y))), nan(r) == z3.Or(nan(x), nan(y))),
                     z3.Implies(z3.Not(nan(r)), z3.And(r >= m, z3.Not(z3.fpIsNegative(r)), r <= z3.fpMul(RNE, m, z3.FPVal(1.5, srt))))]
            memo[key] = (FB(None, w, r), c, args)
            if op != 'hypot':
                ex.__dict__.setdefault('absfp_exact', {})[key] = r == (z3.fpDiv(RNE, x, y) if op == 'fdiv' else z3.fpSqrt(RNE, x))
        ex.define(key, memo[key][1])
        return memo[key][0]

    def neg(self, a):
        if a.conc:
            return FB(a.b ^ (1 << (a.w - 1)), a.w)
        if a.tab is not None:
            return tab_float(self.neg, [a], a.w)
        if a.b is not None:
            return FB(a.b ^ z3.BitVecVal(1 << (a.w - 1), a.w), a.w)
        if a.nar is not None:
            return self.conv(None, self.neg(a.nar), 64)
        return FB(None, a.w, z3.fpNeg(a.fp()), None if a.iv is None else -z3.SignExt(1, a.iv))

    def fabs(self, a):
        m = (1 << (a.w - 1)) - 1
        if a.conc:
            return FB(a.b & m, a.w)
        if a.tab is not None:
            return tab_float(self.fabs, [a], a.w)
        if a.b is not None:
            return FB(a.b & z3.BitVecVal(m, a.w), a.w)
        if a.nar is not None:
            return self.conv(None, self.fabs(a.nar), 64)
        return FB(None, a.w, z3.fpAbs(a.fp()), None if a.iv is None else iv_abs(a.iv))

    def isnan(self, a):
        if a.conc:
            return int(math.isnan(a.val))
        if a.tab is not None:
            return tab_bool(self.isnan, [a])
        return z3.fpIsNaN(a.fp())

    def isinf(self, a):
        if a.conc:
            return int(math.isinf(a.val))
        if a.tab is not None:
            return tab_bool(self.isinf, [a])
        return z3.fpIsInf(a.fp())

    def signbit(self, a):
        if a.conc:
            return a.b >> (a.w - 1)
        return z3.Extract(a.w - 1, a.w - 1, a.bits()) == z3.BitVecVal(1, 1)

    def cmp(self, ex, pred, a, b):
        if pred == 'false':
            return 0
        if pred == 'true':
            return 1
        if a.conc and b.conc:
            x, y = a.val, b.val
            un = math.isnan(x) or math.isnan(y)
            if pred == 'ord':
                return int(not un)
            if pred == 'uno':
                return int(un)
            r = {'eq': x == y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y, 'ne': x != y}[pred[1:]]
            return int((r and not un) if pred[0] == 'o' else (r or un))
        r = tab_bool(lambda x, y: self.cmp(ex, pred, x, y), [a, b])
        if r is not None:
            return r
        if a.nar is not None or b.nar is not None:
            x, y = narrow(a), narrow(b)
            if x is not None and y is not None:
                return self.cmp(ex, pred, x, y)
        if pred not in ('ord', 'uno'):
            e = iv_cmp(pred[1:], a, b)
            if e is not None:
                return e
        A, B = a.fp(), b.fp()
        un = z3.Or(z3.fpIsNaN(A), z3.fpIsNaN(B))
        if pred == 'ord':
            return z3.Not(un)
        if pred == 'uno':
            return un
        p = pred[1:]
        r = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ}.get(p)
        if p == 'ne':
            e = z3.Not(z3.fpEQ(A, B))
            return z3.And(e, z3.Not(un)) if pred[0] == 'o' else e
        e = r(A, B)
        return e if pred[0] == 'o' else z3.Or(un, e)

    def ite(self, c, a, b):
        w = a.w
        if a.tab is not None or b.tab is not None:
            x, y = tab_of(a), tab_of(b)
            if x is not None and y is not None:
                tab = {}
                for g, u in ((c, x), (z3.Not(c), y)):
                    for k, d in u.items():
                        tab.setdefault(k, []).append(tab_and(g, d))
                return tab_make({k: z3.Or(d) if len(d) > 1 else d[0] for k, d in tab.items()}, w)
        if a.nar is not None or b.nar is not None:
            x, y = narrow(a), narrow(b)
            if x is not None and y is not None:
                return self.conv(None, self.ite(c, x, y), 64)
        if a.b is None or b.b is None:
            return FB(None, w, z3.If(c, a.fp(), b.fp()), iv_ite(c, a, b))
        return FB(z3.If(c, bv(a.b, w), bv(b.b, w)), w)

    def conv(self, ex, a, w):
        if a.w == w:
            return a
        if a.conc:
            return self._c(a.val, w)
        if a.tab is not None:
            return tab_float(lambda x: self.conv(ex, x, w), [a], w)
        iv = a.iv if a.iv is not None and a.iv.size() <= (24 if w == 32 else 53) else None
        if a.nar is not None and w == 32:
            return a.nar
        return FB(None, w, z3.fpFPToFP(RNE, a.fp(), SORT[w]), iv, a if a.w == 32 and w == 64 else None)

    def from_int(self, ex, i, iw, signed, w):
        if isinstance(i, int):
            if signed and i >> (iw - 1):
                i -= 1 << iw
            if w == 32:
                # python int -> float32 with a single rounding
                return FB(f2bits(_round32(i), 32), 32)
            return FB(f2bits(float(i), w), w)
        if isinstance(i, z3.BoolRef):
            i = z3.If(i, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        return FB(None, w, (z3.fpSignedToFP if signed else z3.fpUnsignedToFP)(RNE, i, SORT[w]),
                  iv_int(i, iw, signed, 24 if w == 32 else 53))

    def to_int(self, ex, a, iw, signed):
        if a.conc:
            v = a.val
            if math.isnan(v) or math.isinf(v):
                return UNDEF
            return int(v) & ((1 << iw) - 1)
        if a.iv is not None:
            return iv_to(a.iv, iw)
        return (z3.fpToSBV if signed else z3.fpToUBV)(z3.RTZ(), a.fp(), z3.BitVecSort(iw))

    def to_bits(self, a):
        return a.bits()

    def from_bits(self, b, w):
        return FB(b, w)

    def same(self, ex, a, b):
        """identical values: equal bits or both NaN"""
        if a.conc and b.conc:
            return int(a.b == b.b or (math.isnan(a.val) and math.isnan(b.val)))
        r = tab_bool(lambda x, y: self.same(ex, x, y), [a, b])
        if r is not None:
            return r
        if a.nar is not None or b.nar is not None:
            x, y = narrow(a), narrow(b)
            if x is not None and y is not None:
                return self.same(ex, x, y)
        if a.b is not None and b.b is not None:
            return z3.Or(bv(a.b, a.w) == bv(b.b, b.w), z3.And(z3.fpIsNaN(a.fp()), z3.fpIsNaN(b.fp())))
        return z3.simplify(a.fp() == b.fp())

    def call(self, ex, name, args, w):
        if name in ('sqrt', 'floor', 'ceil', 'trunc', 'rint', 'nearbyint', 'round'):
            r = tab_float(lambda x: self.call(ex, name, [x], w), args, w)
            if r is not None:
                return r
        if name == 'fabs':
            return self.fabs(args[0])
        if name == 'sqrt':
            a = args[0]
            if a.conc:
                return self._c(math.sqrt(a.val) if a.val >= 0 else math.nan, w)
            if ex is not None and ex.o.get('absfp'):
                return self.bounded(ex, name, [a], w)
            return FB(None, w, z3.fpSqrt(RNE, a.fp()))
        if name in ('floor', 'ceil', 'trunc', 'rint', 'nearbyint', 'round'):
            rm = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'rint': RNE, 'nearbyint': RNE,
                  'round': z3.RNA()}[name]
            a = args[0]
            if a.conc:
                return self._c({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'rint': round,
                                'nearbyint': round,
                                'round': lambda v: math.copysign(math.floor(abs(v) + 0.5), v)}[name](a.val), w)
            return FB(None, w, z3.fpRoundToIntegral(rm, a.fp()))
        if name == 'copysign':
            a, b = args
            m = (1 << (w - 1)) - 1
            return FB((bv(a.bits(), w) & z3.BitVecVal(m, w)) | (bv(b.bits(), w) & z3.BitVecVal(1 << (w - 1), w)), w)
        if name in ('fmin', 'fmax'):
            a, b = args
            c = self.cmp(ex, 'olt' if name == 'fmin' else 'ogt', a, b)
            r = self.ite(zbool(c), a, b)
            r = self.ite(zbool(self.isnan(b)), a, r)
            return self.ite(zbool(self.isnan(a)), b, r)
        if name == 'fma':
            a, b, c = args
            return FB(None, w, z3.fpFMA(RNE, a.fp(), b.fp(), c.fp()))
        if name == 'hypot' and ex is not None and ex.o.get('absfp') and not all(a.conc for a in args):
            return self.bounded(ex, name, args, w)
        if all(a.conc for a in args):
            v = [a.val for a in args]
            f = getattr(math, {'fmod': 'fmod', 'pow': 'pow', 'atan2': 'atan2', 'hypot': 'hypot'}.get(name, name), None)
            if f:
                return self._c(f(*v), w)
        raise Unsupported('libm %s in fp mode' % name)


def _round32(i):
    s = -1 if i < 0 else 1
    i = abs(i)
    bl = i.bit_length()
    if bl <= 24:
        return float(s * i)
    sh = bl - 24
    q, r = i >> sh, i & ((1 << sh) - 1)
    half = 1 << (sh - 1)
    if r > half or (r == half and (q & 1)):
        q += 1
    return float(s * (q << sh))


# ---------------------------------------------------------------- real mode
class R:
    """num/den, den != 0 on the current path. n, d: Fraction or z3 real"""
    __slots__ = ('n', 'd', 'prec', 'w', 'dpos', 'iv')

    def __init__(self, n, d=1, prec=53, w=64, dpos=True, iv=None):
        self.n, self.d, self.prec, self.w, self.dpos, self.iv = n, d, prec, w, dpos, iv

    @property
    def conc(self):
        return not is_z3(self.n) and not is_z3(self.d)

    def __repr__(self):
        return 'R(%s / %s)' % (self.n, self.d)


class RS:
    """non-finite: nan, inf, -inf"""
    __slots__ = ('k', 'w', 'prec')

    def __init__(self, k, w=64):
        self.k, self.w, self.prec = k, w, 64

    conc = True

    def __repr__(self):
        return 'RS(%s)' % self.k


def zr(x):
    if is_z3(x):
        return x
    x = Fraction(x)
    return z3.RealVal(x.numerator) if x.denominator == 1 else z3.Q(x.numerator, x.denominator)


def _mul(a, b):
    if not is_z3(a):
        if a == 0:
            return Fraction(0)
        if a == 1:
            return b
        if not is_z3(b):
            return a * b
        if a == -1:
            return -b
        return zr(a) * b
    if not is_z3(b):
        return _mul(b, a)
    return a * b


def _add(a, b):
    if not is_z3(a):
        if not is_z3(b):
            return a + b
        if a == 0:
            return b
        return zr(a) + b
    if not is_z3(b):
        if b == 0:
            return a
        return a + zr(b)
    return a + b


def _neg(a):
    return -a


def _same(a, b):
    if is_z3(a) and is_z3(b):
        return a.eq(b)
    if not is_z3(a) and not is_z3(b):
        return a == b
    return False


class RealDom:
    name = 'real'

    def const(self, d, w):
        if isinstance(d, float):
            if math.isnan(d):
                return RS('nan', w)
            if math.isinf(d):
                return RS('inf' if d > 0 else '-inf', w)
        return R(Fraction(d), Fraction(1), 64, w)

    def fresh(self, name, w, prec=None):
        return R(z3.Real(name), Fraction(1), 64 if prec is None else prec, w)

    def _prec(self, op, a, b, w):
        return min(a.prec, b.prec, PREC[w])

    def bin(self, ex, op, a, b):
        w = a.w
        if isinstance(a, RS) or isinstance(b, RS):
            return self._special(ex, op, a, b)
        p = min(a.prec, b.prec, PREC[w])
        if a.iv is not None or b.iv is not None:
            iv = iv_bin(op, a, b, 128)
            if iv is not None:
                f = {'fadd': _add, 'fsub': lambda x, y: _add(x, _neg(y)), 'fmul': _mul}[op]
                # exact as long as the integer fits the format
                ex_ = iv.size() <= (24 if w == 32 else 53)
                return R(f(_mul(a.n, Fraction(1) / a.d), _mul(b.n, Fraction(1) / b.d)), Fraction(1),
                         min(a.prec, b.prec) if ex_ else p, w, True, iv)
        if op in ('fadd', 'fsub'):
            # exact cases (adding 0) do not round
            if not is_z3(b.n) and b.n == 0:
                return R(a.n, a.d, a.prec, w, a.dpos)
            bn = b.n if op == 'fadd' else _neg(b.n)
            if not is_z3(a.n) and a.n == 0:
                return R(bn, b.d, b.prec, w, b.dpos)
            if _same(a.d, b.d):
                return R(_add(a.n, bn), a.d, p, w, a.dpos)
            return R(_add(_mul(a.n, b.d), _mul(bn, a.d)), _mul(a.d, b.d), p, w, a.dpos and b.dpos)
        if op == 'fmul':
            for x, y in ((a, b), (b, a)):
                if not is_z3(x.n) and not is_z3(x.d) and x.n == x.d:
                    return R(y.n, y.d, min(x.prec, y.prec), w, y.dpos)
            # cancel matching factors
            if is_z3(a.n) and is_z3(b.d) and a.n.eq(b.d):
                return R(b.n, a.d, p, w, a.dpos)
            if is_z3(b.n) and is_z3(a.d) and b.n.eq(a.d):
                return R(a.n, b.d, p, w, b.dpos)
            return self.cancel(ex, R(_mul(a.n, b.n), _mul(a.d, b.d), p, w, a.dpos and b.dpos))
        if op == 'fdiv':
            z = ex.decide(self._eq0(b.n))
            if z:
                return self._special(ex, op, a, b)
            if not is_z3(b.n):
                inv = Fraction(1) / b.n
                return R(_mul(_mul(a.n, b.d), inv), a.d, p, w, a.dpos)
            if is_z3(a.n) and a.n.eq(b.n) and not is_z3(a.d) and not is_z3(b.d):
                return R(b.d / a.d, Fraction(1), p, w)
            sg = ex.sign_of(b.n)
            n = _mul(a.n, b.d)
            d = _mul(a.d, b.n)
            if sg < 0:
                n, d = _neg(n), _neg(d)
            return self.cancel(ex, R(n, d, p, w, a.dpos and sg != 0 and True))
        if op == 'frem':
            if a.conc and b.conc and b.n != 0:
                x, y = a.n / a.d, b.n / b.d
                q = x / y
                q = Fraction(math.trunc(q))
                return R(x - q * y, Fraction(1), p, w)
            raise Unsupported('frem')
        raise Unsupported(op)

    def cancel(self, ex, r):
        """drops a denominator that divides the numerator (both as polynomials)"""
        if not is_z3(r.d) or not is_z3(r.n):
            return r
        P = ex.poly
        q = P.divide(r.n, r.d)
        if q is not None:
            return R(q, Fraction(1), r.prec, r.w)
        try:
            n, d = P.get(r.n), P.get(r.d)
        except TooBig:
            return r
        if not n or not d or len(n) > 400 or len(d) > 40:
            return r
        cut = {(): Fraction(1)}
        if len(d) > 1:
            g = None
            for m in d:
                g = dict(m) if g is None else {x: min(e, dict(m)[x]) for x, e in g.items() if x in dict(m)}
            rest = {tuple((x, e - g.get(x, 0)) for x, e in m if e > g.get(x, 0)): c for m, c in d.items()}
            e = P.exact(n, rest, 200)
            if e is None:
                return r
            n, d, cut = e, {tuple(sorted(g.items())): Fraction(1)}, rest
        (m, k), = d.items()
        g = dict(m)
        for x in n:
            dx = dict(x)
            g = {v: min(e, dx[v]) for v, e in g.items() if v in dx}
            if not g:
                break
        if g:
            n = {tuple((v, e - g.get(v, 0)) for v, e in x if e > g.get(v, 0)): c for x, c in n.items()}
            d = {tuple((v, e - g.get(v, 0)) for v, e in m if e > g.get(v, 0)): k}
            try:
                cut = P.mul(cut, {tuple(sorted(g.items())): Fraction(1)})
            except TooBig:
                return r
        elif cut == {(): Fraction(1)}:
            return r
        dn = P.term(d)
        if () in d:
            return R(P.term({x: c / d[()] for x, c in n.items()}), Fraction(1), r.prec, r.w)
        f = ex.cur.facts
        return R(P.term(n), dn, r.prec, r.w, P.signs(d, f) == {1} or (r.dpos and P.signs(cut, f) == {1}))

    def _special(self, ex, op, a, b):
        w = a.w
        if any(isinstance(v, RS) and v.k == 'anyinf' for v in (a, b)):
            if op == 'fdiv' and isinstance(b, RS) and not isinstance(a, RS):
                return R(Fraction(0), Fraction(1), 64, w)
            o = b if isinstance(a, RS) and a.k == 'anyinf' else a
            if isinstance(o, R) and op != 'fmul':
                return RS('anyinf', w)
            return RS('nan', w)

        def f(v):
            if isinstance(v, RS):
                return {'nan': math.nan, 'inf': math.inf, '-inf': -math.inf}[v.k]
            if v.conc:
                return float(v.n / v.d)
            s = self.sgn(ex, v)
            return float(s)      # only the sign matters against a non-finite operand or a zero divisor
        x, y = f(a), f(b)
        if op == 'fdiv' and y == 0:
            # the sign of a zero divisor is not tracked: the quotient is "some non-finite value"
            return RS('nan' if (x == 0 or math.isnan(x)) else 'anyinf', w)
        try:
            r = {'fadd': x + y, 'fsub': x - y, 'fmul': x * y}.get(op)
            if op == 'fdiv':
                r = x / y
        except (OverflowError, ZeroDivisionError):
            r = math.nan
        if r is None:
            raise Unsupported(op + ' on non-finite')
        if math.isnan(r):
            return RS('nan', w)
        if math.isinf(r):
            return RS('inf' if r > 0 else '-inf', w)
        return R(Fraction(0), Fraction(1), 64, w)

    def sgn(self, ex, v):
        if v.conc:
            x = v.n / v.d
            return (x > 0) - (x < 0)
        n = zr(v.n) * zr(v.d) if is_z3(v.d) else (zr(v.n) if v.d > 0 else -zr(v.n))
        if ex.decide(n == 0):
            return 0
        return 1 if ex.decide(n > 0) else -1

    def _eq0(self, n):
        if not is_z3(n):
            return int(n == 0)
        return n == 0

    def neg(self, a):
        if isinstance(a, RS):
            return RS({'inf': '-inf', '-inf': 'inf'}.get(a.k, a.k), a.w)
        return R(_neg(a.n), a.d, a.prec, a.w, a.dpos, None if a.iv is None else -z3.SignExt(1, a.iv))

    def fabs(self, a, ex=None):
        if isinstance(a, RS):
            return RS({'-inf': 'inf', 'anyinf': 'inf'}.get(a.k, a.k), a.w)
        if a.conc:
            return R(abs(a.n / a.d), Fraction(1), a.prec, a.w)
        c = self._cmp0('ge', a) if a.iv is None else a.iv >= 0
        if isinstance(c, int):
            return a if c else self.neg(a)
        if ex is not None and a.iv is None:
            q = ex.poly.decide(c, ex.cur.facts)
            if q is not None:
                return a if q else self.neg(a)
        if ex is not None and ex.fork_abs:
            return a if ex.decide(c) else self.neg(a)
        return R(z3.If(c, zr(a.n), -zr(a.n)), a.d, a.prec, a.w, a.dpos, None if a.iv is None else iv_abs(a.iv))

    def isnan(self, a):
        return int(isinstance(a, RS) and a.k == 'nan')

    def isinf(self, a):
        return int(isinstance(a, RS) and a.k != 'nan')

    def signbit(self, a):
        return self._cmp0('lt', a)

    def _cmp0(self, p, a):
        return self._rel(p, a.n, a.d, a.dpos)

    def _rel(self, p, n, d, dpos):
        """(n/d) p 0"""
        if not is_z3(n) and not is_z3(d):
            v = n / d
            return int({'eq': v == 0, 'ne': v != 0, 'lt': v < 0, 'le': v <= 0, 'gt': v > 0, 'ge': v >= 0}[p])
        if p in ('eq', 'ne'):
            if not is_z3(n):
                return int((n == 0) == (p == 'eq'))
            return (n == 0) if p == 'eq' else (n != 0)
        if not is_z3(d):
            e = zr(n) if d > 0 else -zr(n)
        elif dpos:
            e = zr(n)
        else:
            e = zr(n) * d
        if not is_z3(e):
            raise Unsupported('rel')
        return {'lt': e < 0, 'le': e <= 0, 'gt': e > 0, 'ge': e >= 0}[p]

    def cmp(self, ex, pred, a, b):
        if pred == 'false':
            return 0
        if pred == 'true':
            return 1
        if isinstance(a, RS) or isinstance(b, RS):
            ka = a.k if isinstance(a, RS) else None
            kb = b.k if isinstance(b, RS) else None
            un = ka == 'nan' or kb == 'nan'
            if pred == 'ord':
                return int(not un)
            if pred == 'uno':
                return int(un)
            if un:
                return int(pred[0] == 'u')
            if 'anyinf' in (ka, kb):
                if pred[1:] in ('eq', 'ne') and (ka is None or kb is None):
                    return int(pred[1:] == 'ne')
                return ex.fresh_bool('inf_sign')
            x = {'inf': 1, '-inf': -1, None: 0}[ka]
            y = {'inf': 1, '-inf': -1, None: 0}[kb]
            return int({'eq': x == y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y, 'ne': x != y}[pred[1:]])
        if pred == 'ord':
            return 1
        if pred == 'uno':
            return 0
        p = pred[1:]
        if a.iv is not None or b.iv is not None:
            e = iv_cmp(p, a, b)
            if e is not None:
                return e
        if _same(a.d, b.d) or (not is_z3(a.d) and not is_z3(b.d)):
            if not is_z3(a.d) and not is_z3(b.d) and not _same(a.d, b.d):
                n = _add(_mul(a.n, b.d), _neg(_mul(b.n, a.d)))
                d = _mul(a.d, b.d)
            else:
                n = _add(a.n, _neg(b.n))
                d = a.d
            if is_z3(a.n) and is_z3(b.n) and a.n.eq(b.n) and _same(a.d, b.d):
                return int(p in ('eq', 'ge', 'le'))
            if not is_z3(d) and d == 1 and p not in ('eq', 'ne') and (is_z3(a.n) or is_z3(b.n)):
                x, y = zr(a.n), zr(b.n)
                return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]
            return self._rel(p, n, d, a.dpos and b.dpos)
        n = _add(_mul(a.n, b.d), _neg(_mul(b.n, a.d)))
        d = _mul(a.d, b.d)
        return self._rel(p, n, d, a.dpos and b.dpos)

    def ite(self, c, a, b):
        if isinstance(a, RS) or isinstance(b, RS):
            if isinstance(a, RS) and isinstance(b, RS) and a.k == b.k:
                return a
            raise NeedFork(c)
        p = min(a.prec, b.prec)
        if _same(a.n, b.n) and _same(a.d, b.d):
            return R(a.n, a.d, p, a.w, a.dpos, a.iv)
        d = a.d if _same(a.d, b.d) else z3.If(c, zr(a.d), zr(b.d))
        return R(z3.If(c, zr(a.n), zr(b.n)), d, p, a.w, a.dpos and b.dpos,
                 iv_ite(c, a, b) if a.iv is not None or b.iv is not None else None)

    def conv(self, ex, a, w):
        if isinstance(a, RS):
            return RS(a.k, w)
        if a.conc:
            # literals: round like the hardware, so that they are what the code really uses; the exact result of a
            # computation (2 / 7) stays exact, and so does a widened value
            v = a.n / a.d
            if w in (32, 64) and PREC[w] < PREC[a.w]:
                try:
                    f = float(v)
                    if Fraction(f) != v:
                        return R(v, Fraction(1), min(a.prec, PREC[w]), w)
                    if w == 32:
                        f = struct.unpack('<f', struct.pack('<f', f))[0]
                except OverflowError:
                    return RS('inf' if v > 0 else '-inf', w)
                return R(Fraction(f), Fraction(1), a.prec if Fraction(f) == v else min(a.prec, PREC[w]), w)
            return R(v, Fraction(1), a.prec, w)
        p = a.prec
        if PREC[w] < PREC[a.w]:
            p = min(p, PREC[w])
        return R(a.n, a.d, p, w, a.dpos, a.iv)

    def from_int(self, ex, i, iw, signed, w):
        if isinstance(i, int):
            if signed and i >> (iw - 1):
                i -= 1 << iw
            return R(Fraction(i), Fraction(1), 64, w)
        if isinstance(i, z3.BoolRef):
            return R(z3.If(i, z3.RealVal(1), z3.RealVal(0)), Fraction(1), 64, w)
        if isinstance(i, z3.ArithRef):
            if not signed:
                i = ex.wrap_u(i, iw)
            return R(z3.ToReal(i), Fraction(1), 64, w)
        iv = iv_int(i, iw, signed, 128)
        if z3.is_bv_value(z3.simplify(iv)):
            return R(Fraction(z3.simplify(iv).as_signed_long()), Fraction(1), 64, w)
        v = ex.int_atom(iv)
        return R(v, Fraction(1), 64 if iv.size() <= (24 if w == 32 else 53) else PREC[w], w, True, iv)

    def to_int(self, ex, a, iw, signed):
        if isinstance(a, RS):
            return UNDEF
        if a.conc:
            return int(math.trunc(a.n / a.d)) & ((1 << iw) - 1)
        if a.iv is not None:
            return iv_to(a.iv, iw)
        x = zr(a.n) / zr(a.d) if is_z3(a.d) or a.d != 1 else zr(a.n)
        # the mathematical integer; stays in Int sort (width kept by the executor)
        return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))

    def to_bits(self, a):
        if isinstance(a, RS):
            v = {'nan': math.nan, 'inf': math.inf, '-inf': -math.inf}.get(a.k)
            if v is None:
                return None
            return f2bits(v, a.w)
        if a.conc and a.w in (32, 64):
            return f2bits(float(a.n / a.d), a.w)
        return None

    def from_bits(self, b, w):
        if isinstance(b, int):
            return self.const(bits2f(b, w), w)
        raise Unsupported('symbolic bits to float in real mode')

    def same(self, ex, a, b):
        if isinstance(a, RS) or isinstance(b, RS):
            if isinstance(a, RS) and isinstance(b, RS):
                return int(a.k == b.k and a.k != 'anyinf')
            return 0
        return self.cmp(ex, 'oeq', a, b)

    # ---- libm by contract
    def call(self, ex, name, args, w):
        a = args[0]
        if name == 'fabs':
            return self.fabs(a, ex)
        if any(isinstance(x, RS) for x in args):
            if name in ('sqrt',) and a.k in ('inf', 'nan'):
                return RS(a.k, w)
            return RS('nan', w)
        p = min([x.prec for x in args] + [PREC[w]])
        if name == 'sqrt':
            return ex.real_sqrt(a, w, p)
        if name in ('sin', 'cos'):
            s, c = ex.real_sincos(a)
            v = s if name == 'sin' else c
            return R(v.n, v.d, p, w, v.dpos)
        if name == 'tan':
            s, c = ex.real_sincos(a)
            r = self.bin(ex, 'fdiv', R(s.n, s.d, p, w, s.dpos), R(c.n, c.d, p, w, c.dpos))
            return r
        if name in ('fmin', 'fmax'):
            b = args[1]
            c = self.cmp(ex, 'olt' if name == 'fmin' else 'ogt', a, b)
            return self.ite(zbool(c), a, b)
        if name == 'fma':
            t = self.bin(ex, 'fmul', args[0], args[1])
            return self.bin(ex, 'fadd', t, args[2])
        if name == 'hypot':
            t = self.bin(ex, 'fadd', self.bin(ex, 'fmul', a, a), self.bin(ex, 'fmul', args[1], args[1]))
            return ex.real_sqrt(t, w, p)
        if name == 'copysign':
            b = args[1]
            neg = ex.decide(self._cmp0('lt', b))
            m = self.fabs(a, ex)
            return self.neg(m) if neg else m
        if name == 'pow':
            return ex.real_pow(a, args[1], w, p)
        if name in ('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint'):
            if a.conc:
                v = a.n / a.d
                r = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'rint': round, 'nearbyint': round,
                     'round': lambda v: math.floor(v + Fraction(1, 2)) if v >= 0 else -math.floor(-v + Fraction(1, 2))
                     }[name](v)
                return R(Fraction(r), Fraction(1), a.prec, w)
            x = zr(a.n) / zr(a.d) if is_z3(a.d) or a.d != 1 else zr(a.n)
            h = z3.Q(1, 2)
            e = {'floor': lambda: z3.ToInt(x), 'ceil': lambda: -z3.ToInt(-x),
                 'trunc': lambda: z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)),
                 'round': lambda: z3.If(x >= 0, z3.ToInt(x + h), -z3.ToInt(-x + h))}.get(name)
            if e is None:
                raise Unsupported(name)
            return R(z3.ToReal(e()), Fraction(1), a.prec, w)
        if name in ('acos', 'asin', 'atan', 'atan2'):
            return ex.real_arc(name, args, w, p)
        if all(x.conc for x in args):
            f = getattr(math, name, None)
            if f:
                return self.const(f(*[float(x.n / x.d) for x in args]), w)
        return ex.real_uf(name, args, w, p)


class NeedFork(Exception):
    def __init__(self, c):
        self.c = c

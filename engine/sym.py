"""Symbolic executor for the LLVM IR of the harnesses (which contain the real vmmlib code).

Every IR instruction reached is executed over symbolic values; branches whose condition is not
determined by the path condition are forked after a solver query; assertions are solver queries.
"""
import math
import re
import time
from fractions import Fraction
import z3
from .values import *
from .values import _mul, _add, _neg
from . import llvmir
from .poly import Poly, TooBig


class Fork(Exception):
    def __init__(self, c):
        self.c = c


class PathEnd(Exception):
    def __init__(self, kind, info=''):
        self.kind, self.info = kind, info


class Budget(Exception):
    pass


class Obj:
    __slots__ = ('id', 'size', 'cells', 'base', 'name', 'owner', 'kind', 'live', 'ro', 'slot')

    def __init__(self, id_, size, base, name, kind):
        self.id, self.size, self.base, self.name, self.kind = id_, size, base, name, kind
        self.cells = {}
        self.owner = None
        self.live = True
        self.ro = False
        self.slot = None

    def clone(self, owner):
        o = Obj(self.id, self.size, self.base, self.name, self.kind)
        o.cells = dict(self.cells)
        o.owner = owner
        o.live = self.live
        o.ro = self.ro
        o.slot = self.slot
        return o


class Frame:
    __slots__ = ('f', 'regs', 'blk', 'idx', 'prev', 'allocas', 'call')

    def __init__(self, f):
        self.f = f
        self.regs = [UNDEF] * f.nregs
        self.blk = 0
        self.idx = 0
        self.prev = -1
        self.allocas = []
        self.call = None

    def clone(self):
        g = Frame.__new__(Frame)
        g.f, g.regs, g.blk, g.idx, g.prev = self.f, list(self.regs), self.blk, self.idx, self.prev
        g.allocas = list(self.allocas)
        g.call = self.call
        return g


# variables of the library (also static locals of its functions and their guards)
STATE = re.compile(r'_Z(GV)?Z*N?K?L?4vmml|_Z(GV)?Z*NK?4vmml')


class State:
    dirty = False
    again = False
    slots = None
    par = guard = 0

    def __init__(self):
        self.frames = []
        self.objs = {}
        self.sid = object()
        self.pc = []
        self.known = {}
        self.signs = {}
        self.facts = {}
        self.defs = set()
        self.next_obj = 1
        self.next_base = 0x100000
        self.fresh = 0
        self.exc = None
        self.caught = []
        self.inputs = {}
        self.events = []
        self.checks = 0
        self.env = {}
        self.forks = 0

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.objs = dict(self.objs)
        s.sid = object()
        self.sid = object()
        s.pc = list(self.pc)
        s.known = dict(self.known)
        s.signs = dict(self.signs)
        s.facts = dict(self.facts)
        s.defs = set(self.defs)
        s.next_obj, s.next_base, s.fresh = self.next_obj, self.next_base, self.fresh
        s.exc = self.exc
        s.caught = list(self.caught)
        s.inputs = dict(self.inputs)
        s.events = list(self.events)
        s.checks = self.checks
        s.env = dict(self.env)
        s.forks = self.forks
        s.dirty, s.again, s.slots = self.dirty, self.again, self.slots
        s.par, s.guard = self.par, self.guard
        return s


def mask(w):
    return (1 << w) - 1


def sx(v, w):
    return v - (1 << w) if v >> (w - 1) else v


LIBM1 = ['sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'log2', 'log10', 'exp2', 'floor', 'ceil',
         'round', 'trunc', 'rint', 'nearbyint', 'fabs', 'cbrt', 'sinh', 'cosh', 'tanh', 'expm1', 'log1p']
LIBM2 = ['pow', 'atan2', 'fmod', 'hypot', 'fmin', 'fmax', 'copysign', 'fdim', 'remainder']
LIBM = {}
for _n in LIBM1 + LIBM2 + ['fma']:
    LIBM[_n] = (_n, 64)
    LIBM[_n + 'f'] = (_n, 32)
    LIBM[_n + 'l'] = (_n, 80)
    for _w, _s in ((32, 'f32'), (64, 'f64'), (80, 'f80')):
        LIBM['llvm.%s.%s' % (_n, _s)] = (_n, _w)
for _w, _s in ((32, 'f32'), (64, 'f64'), (80, 'f80')):
    LIBM['llvm.minnum.' + _s] = ('fmin', _w)
    LIBM['llvm.maxnum.' + _s] = ('fmax', _w)
    LIBM['llvm.fmuladd.' + _s] = ('fma', _w)


class Executor:
    def __init__(self, module, mode, opts=None):
        self.m = module
        self.mode = mode
        self.dom = FPDom() if mode == 'fp' else RealDom()
        self.o = {'max_paths': 4000, 'max_steps': 3000000, 'branch_ms': 3000, 'assume_ms': 800, 'time': 120, 'query_ms': 20000,
                  'fork_abs': False, 'stop_violations': 3, 'twice': 1}
        self.o.update(opts or {})
        self.fork_abs = self.o['fork_abs']
        self.cur = None
        self.stats = {'queries': 0, 'solver_s': 0.0, 'instr': 0, 'paths': 0, 'unknown_branch': 0, 'functions': set(),
                      'ends': {}, 'obligations': 0, 'proved': 0}
        self.sqrt_memo = {}
        self.trig = []            # (linear form, s var, c var)
        self.ufs = {}
        self.on_check = None      # callback(state, cond, label, kind, info)
        self.extra = None         # stub hook
        self.fvals = {}           # name -> obj id (function "objects")
        self.gobj = {}
        self.const_cache = {}
        self.deadline = None
        self.undecided = []
        self.labels = {}
        self.gap_defs = {}
        self.int_links = {}
        self.poly = Poly()
        self.monos = {}
        self.radicands = []

    # ------------------------------------------------------------ solver
    def check_sat(self, cons, ms, want_model=False, links=True):
        t = time.time()
        self.stats['queries'] += 1
        r, m = z3.unknown, None
        try:
            if self.mode == 'real' and len(cons) > 1:
                r, m = self.solve_sliced(cons, ms, want_model)
            else:
                r, m = solve(cons, ms, self.mode, want_model)
            if links and r == z3.sat and self.int_links and self.cur is not None:
                # integers converted to reals are free reals until a model needs them to agree
                ln = [l for k, l in self.int_links.items() if ('int', k) in self.cur.defs]
                if ln:
                    r, m = solve(cons + ln, ms, self.mode, want_model)
        finally:
            self.stats['solver_s'] += time.time() - t
        return (r, m) if want_model else r

    def solve_sliced(self, cons, ms, want_model):
        """normal forms, and first only the constraints that share variables with the last one"""
        full = [c for c in (self.poly.norm(c) for c in cons[:-1]) if not z3.is_true(c)]
        last = z3.simplify(self.poly.norm(cons[-1]))
        if z3.is_false(last):
            return z3.unsat, None
        full.append(last)
        part = self.poly.slice(full)
        if self.poly.linear_unsat(part, self.cur.facts if self.cur is not None else {}):
            self.stats['linear'] = self.stats.get('linear', 0) + 1
            return z3.unsat, None
        if len(part) == len(full):
            return solve(full, ms, self.mode, want_model)
        r, m = solve(part, ms, self.mode, want_model)
        if r != z3.sat or not want_model:
            return r, m
        r2, m2 = solve(full, ms, self.mode, True)
        return (r2, m2) if r2 != z3.unknown else (r, m)

    def decide(self, c):
        if isinstance(c, (int, bool)):
            return bool(c)
        s = self.cur
        k = s.known.get(c.get_id())
        if k is not None:
            return k[0]
        sc = z3.simplify(c)
        if z3.is_true(sc):
            return True
        if z3.is_false(sc):
            return False
        k = s.known.get(sc.get_id())
        if k is not None:
            return k[0]
        if z3.is_not(sc):
            k = s.known.get(sc.arg(0).get_id())
            if k is not None:
                return not k[0]
        if self.mode == 'real':
            q = self.poly.decide(c, s.facts)
            if q is not None:
                s.known[c.get_id()] = (q, c)
                return q
        if self.deadline and time.time() > self.deadline:
            raise Budget('time')
        ms = self.o['branch_ms']
        rt = self.check_sat(s.pc + [c], ms, links=False)
        if rt == z3.unsat:
            s.known[c.get_id()] = (False, c)
            if self.mode == 'real':
                self.poly.learn(c, False, s.facts)
            return False
        rf = self.check_sat(s.pc + [z3.Not(c)], ms, links=False)
        if rf == z3.unsat:
            s.known[c.get_id()] = (True, c)
            if self.mode == 'real':
                self.poly.learn(c, True, s.facts)
            return True
        if rt == z3.unknown or rf == z3.unknown:
            self.stats['unknown_branch'] += 1
        raise Fork(c)

    def valid(self, c, ms=1500):
        """PC => c (no forking)"""
        if isinstance(c, (int, bool)):
            return bool(c)
        s = self.cur
        k = s.known.get(c.get_id())
        if k is not None:
            return k[0]
        if self.mode == 'real':
            q = self.poly.decide(c, s.facts)
            if q is not None:
                return q
        r = self.check_sat(s.pc + [z3.Not(c)], ms) == z3.unsat
        if r:
            s.known[c.get_id()] = (True, c)
        return r

    def sign_of(self, n):
        if not is_z3(n):
            return (n > 0) - (n < 0)
        s = self.cur
        k = s.signs.get(n.get_id())
        if k is None:
            try:
                ps = self.poly.signs(self.poly.get(n), s.facts)
            except TooBig:
                ps = ()
            if ps == {1} or ps == {-1}:
                v = min(ps)
            elif self.check_sat(s.pc + [n <= 0], 1000) == z3.unsat:
                v = 1
            elif self.check_sat(s.pc + [n >= 0], 1000) == z3.unsat:
                v = -1
            else:
                v = 0
            k = (v, n)
            s.signs[n.get_id()] = k
        return k[0]

    def add_pc(self, s, c, val=True):
        s.known[c.get_id()] = (val, c)
        c2 = c if val else z3.Not(c)
        s.pc.append(c2)
        if self.mode == 'real':
            self.poly.learn(c, val, s.facts)

    def assume(self, c):
        if isinstance(c, (int, bool)):
            if not c:
                raise PathEnd('assume')
            return
        s = self.cur
        q = self.poly.decide(c, s.facts) if self.mode == 'real' else None
        if q is True:
            return
        if q is False or self.check_sat(s.pc + [c], self.o['assume_ms']) == z3.unsat:
            raise PathEnd('assume')
        self.add_pc(s, c)

    def define(self, key, cons):
        """adds the definitional constraints of an abstracted function value once per path"""
        s = self.cur
        if key in s.defs:
            return
        s.defs.add(key)
        for c in cons:
            s.pc.append(c)

    def int_atom(self, iv):
        k = iv.get_id()
        v = z3.Real('int!%d' % k)
        if k not in self.int_links:
            self.int_links[k] = v == z3.ToReal(z3.BV2Int(iv, True))
            self.keep = getattr(self, 'keep', [])
            self.keep.append(iv)
        w = iv.size()
        self.define(('int', k), [v >= -(1 << (w - 1)), v <= (1 << (w - 1)) - 1])
        return v

    def fresh_name(self, base):
        s = self.cur
        s.fresh += 1
        return '%s!%d' % (base, s.fresh)

    def fresh_bool(self, base):
        return z3.Bool(self.fresh_name(base))

    # ------------------------------------------------ real-mode contracts
    def real_sqrt(self, a, w, p):
        if a.conc:
            v = a.n / a.d
            if v < 0:
                return RS('nan', w)
            x, y = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if x * x == v.numerator and y * y == v.denominator:
                return R(Fraction(x, y), Fraction(1), a.prec, w)
            n, d = v, Fraction(1)
        else:
            if self.decide(self.dom._cmp0('lt', a)):
                return RS('nan', w)
            n, d = a.n, a.d
            if not is_z3(d) and d != 1:
                n, d = _mul(n, 1 / Fraction(d)), Fraction(1)
        pn = None
        scale = Fraction(1)
        if not is_z3(d):
            try:
                pn = self.poly.get(_mul(n, 1 / Fraction(d)))
                n, d = _mul(n, 1 / Fraction(d)), Fraction(1)
                if not pn or (len(pn) == 1 and () in pn):
                    if not a.conc:
                        return self.real_sqrt(R(pn.get((), Fraction(0)), Fraction(1), a.prec, w), w, p)
                if not a.conc:
                    sp = self.poly.sqrt_parts(pn, self.radicands)
                    if sp is not None:
                        r, q = sp
                        e = self.dom.fabs(R(self.poly.term(r), Fraction(1), p, w), self)
                        if q == {(): Fraction(1)}:
                            return e
                        x = self.real_sqrt(R(self.poly.term(q), Fraction(1), p, w), w, p)
                        if isinstance(x, R):
                            return R(_mul(e.n, x.n), Fraction(1), p, w)
                    key, sg = self.poly.canon(pn)
                    lead = abs(pn[min(pn)])
                    m, = pn if len(pn) == 1 else (None,)
                    if m and all(e % 2 == 0 for _, e in m) and isqrt(lead):
                        # a perfect square
                        e = zr(isqrt(lead))
                        for x, k in m:
                            for _ in range(k // 2):
                                e = e * self.poly.atoms[x]
                        return self.dom.fabs(R(e, Fraction(1), p, w), self) if not self.decide(e >= 0) \
                            else R(e, Fraction(1), p, w)
                    key = (key, sg)
                    ent = self.sqrt_memo.get(key)
                    if ent is not None and ent[4] != lead and isqrt(lead / ent[4]):
                        scale = isqrt(lead / ent[4])
                    elif ent is not None and ent[4] != lead:
                        key = key + (lead,)
                else:
                    lead, key = Fraction(1), frozenset(pn.items())
            except TooBig:
                lead, key = Fraction(1), z3.simplify(zr(n), som=True).get_id()
        else:
            n, d = z3.simplify(zr(n), som=True), z3.simplify(zr(d), som=True)
            lead, key = Fraction(1), (n.get_id(), d.get_id())
        ent = self.sqrt_memo.get(key)
        if ent is None:
            v = z3.Real('sqrt!%d' % len(self.sqrt_memo))
            ent = (v, [v >= 0, _mul(v * v, d) == zr(n)], n, d, lead)
            self.sqrt_memo[key] = ent
            if pn:
                self.poly.set_square(v, pn, True)
                if 1 < len(pn) <= 400:
                    self.radicands.append(pn)
                ck, sg = self.poly.canon(pn)
                self.poly.rad[ck] = (sg, v.get_id())
        self.define(('sqrt', key), ent[1])
        return R(_mul(scale, ent[0]), Fraction(1), p, w)

    def linform(self, a):
        """a (R) as {atom key: (coef, atom)} + const"""
        if not is_z3(a.d):
            try:
                q = self.poly.get(a.n)
                lf, c = {}, Fraction(0)
                for m, k in q.items():
                    k = k / Fraction(a.d)
                    if m == ():
                        c = k
                        continue
                    if len(m) == 1 and m[0][1] == 1:
                        lf[m] = (k, self.poly.atoms[m[0][0]])
                    else:
                        e = self.monos.get(m)
                        if e is None:
                            e = z3.Product([self.poly.atoms[x] for x, n in m for _ in range(n)])
                            self.monos[m] = e
                        lf[m] = (k, e)
                return lf, c
            except TooBig:
                pass
        if is_z3(a.d):
            e = z3.simplify(zr(a.n) / a.d, som=True)
        else:
            e = z3.simplify(zr(_mul(a.n, Fraction(1) / a.d)), som=True)
        terms = {}
        const = Fraction(0)

        def num(x):
            return Fraction(x.numerator_as_long(), x.denominator_as_long())
        stack = [(e, Fraction(1))]
        while stack:
            x, k = stack.pop()
            if z3.is_rational_value(x):
                const += k * num(x)
            elif z3.is_add(x):
                stack.extend((y, k) for y in x.children())
            elif z3.is_app_of(x, z3.Z3_OP_UMINUS):
                stack.append((x.arg(0), -k))
            elif z3.is_mul(x) and z3.is_rational_value(x.arg(0)):
                rest = x.children()[1:]
                y = rest[0] if len(rest) == 1 else z3.simplify(z3.Product(rest), som=True)
                if z3.is_add(y):
                    stack.append((y, k * num(x.arg(0))))
                else:
                    c0, _ = terms.get(y.get_id(), (Fraction(0), y))
                    terms[y.get_id()] = (c0 + k * num(x.arg(0)), y)
            else:
                c0, _ = terms.get(x.get_id(), (Fraction(0), x))
                terms[x.get_id()] = (c0 + k, x)
        return {i: t for i, t in terms.items() if t[0] != 0}, const

    @staticmethod
    def _lf_close(l1, c1, l2, c2, k=1):
        """l1 == k*l2 up to relative rounding of the literal constants"""
        if set(l1) != set(l2):
            return False
        for i in l1:
            x, y = l1[i][0], k * l2[i][0]
            if abs(x - y) > abs(x) * Fraction(1, 10 ** 6):
                return False
        return abs(c1 - k * c2) <= Fraction(1, 10 ** 6)

    @staticmethod
    def _lf_comb(l1, c1, l2, c2, k):
        r = dict(l1)
        for i, (c, a) in l2.items():
            c0 = r.get(i, (Fraction(0), a))[0]
            v = c0 + k * c
            if abs(v) <= abs(c0) * Fraction(1, 10 ** 6):
                r.pop(i, None)
            else:
                r[i] = (v, a)
        return r, c1 + k * c2

    def real_sincos(self, a):
        one = Fraction(1)
        if a.conc:
            v = a.n / a.d
            if v == 0:
                return R(Fraction(0)), R(one)
        lf, c = self.linform(a)
        if not lf and c == 0:
            return R(Fraction(0)), R(one)
        # multiples of pi/2 among the constants (within rounding of the literal)
        pi = Fraction(math.pi)
        if not lf:
            q = round(float(c / (pi / 2)))
            if abs(float(c) - q * math.pi / 2) < 1e-6:
                s_, c_ = [(0, 1), (1, 0), (0, -1), (-1, 0)][q % 4]
                return R(Fraction(s_)), R(Fraction(c_))
            if self.o.get('trigconst'):
                # a known angle: the value of the host libm (harness compares with a tolerance far above its error)
                return R(Fraction(math.sin(float(c)))), R(Fraction(math.cos(float(c))))
        elif c != 0:
            q = round(float(c / (pi / 2)))
            if q != 0 and abs(float(c) - q * math.pi / 2) < 1e-6:
                b = R(zr(a.n), a.d)
                b2 = R(zr(_add(_mul(a.n, Fraction(1)), _neg(_mul(c, a.d) if is_z3(a.d) else c * a.d))), a.d)
                s1, c1 = self.real_sincos(b2)
                ng = lambda r: R(-r.n if is_z3(r.n) else -r.n, r.d)
                return [(s1, c1), (c1, ng(s1)), (ng(s1), ng(c1)), (ng(c1), s1)][q % 4]
        if len(lf) > 1 or (lf and c != 0):
            # sin / cos of a sum by the addition theorems, term by term
            k0 = min(lf, key=lambda k: str(lf[k][1]))
            kc, at = lf[k0]
            t1 = self.real_sincos(R(_mul(kc, at)))
            t2 = self.real_sincos(R(_add(zr(a.n), _neg(_mul(kc, _mul(at, a.d)))), a.d))
            b = self.dom.bin
            sn = b(self, 'fadd', b(self, 'fmul', t1[0], t2[1]), b(self, 'fmul', t1[1], t2[0]))
            cs = b(self, 'fsub', b(self, 'fmul', t1[1], t2[1]), b(self, 'fmul', t1[0], t2[0]))
            return sn, cs
        for i, (l2, c2, s, co, cons) in enumerate(self.trig):
            if self._lf_close(lf, c, l2, c2, 2):
                self._use_trig(i)
                b = self.dom.bin
                sc = b(self, 'fmul', s, co)
                return b(self, 'fadd', sc, sc), b(self, 'fsub', b(self, 'fmul', co, co), b(self, 'fmul', s, s))
            if self._lf_close(lf, c, l2, c2):
                self._use_trig(i)
                return s, co
            if self._lf_close(lf, c, l2, c2, -1):
                self._use_trig(i)
                return R(_neg(s.n), s.d), co
        i = len(self.trig)
        s, co = R(z3.Real('sin!%d' % i)), R(z3.Real('cos!%d' % i))
        self.poly.set_square(s.n, self.poly.get(1 - co.n * co.n), False)
        self._reg_trig(lf, c, s, co)
        self._use_trig(len(self.trig) - 1)
        return s, co

    def _reg_trig(self, lf, c, s, co, extra=()):
        S, K = (lambda r: zr(r.n) / zr(r.d) if is_z3(r.d) else zr(r.n)), None
        cons = []
        if not is_z3(s.d) and not is_z3(co.d):
            cons.append(zr(s.n) * zr(s.n) + zr(co.n) * zr(co.n) == 1)
        cons.extend(extra)
        deps = []
        x, y = S(s), S(co)
        n = len(self.trig)
        for j, (l2, c2, s2, co2, _) in enumerate(self.trig):
            x2, y2 = S(s2), S(co2)
            if self._lf_close(lf, c, l2, c2, 2):
                cons += [x == 2 * x2 * y2, y == y2 * y2 - x2 * x2]
            elif self._lf_close(l2, c2, lf, c, 2):
                cons += [x2 == 2 * x * y, y2 == y * y - x * x]
            for k in range(j):
                l3, c3, s3, co3, _ = self.trig[k]
                x3, y3 = S(s3), S(co3)
                for sg in (1, -1):
                    # new = j + sg*k
                    l, cc = self._lf_comb(l2, c2, l3, c3, sg)
                    if self._lf_close(lf, c, l, cc):
                        cons += [x == x2 * y3 + sg * y2 * x3, y == y2 * y3 - sg * x2 * x3]
                    if self._lf_close(lf, c, l, cc, -1):
                        cons += [-x == x2 * y3 + sg * y2 * x3, y == y2 * y3 - sg * x2 * x3]
                l, cc = self._lf_comb(lf, c, l2, c2, 1)     # new + j = +-k
                for k2 in (1, -1):
                    if self._lf_close(l, cc, l3, c3, k2):
                        cons += [k2 * x3 == x * y2 + y * x2, y3 == y * y2 - x * x2]
        self.trig.append((lf, c, s, co, cons))

    def _use_trig(self, i):
        # relations refer to earlier atoms: pull in the whole prefix that is already defined on this path
        lf, c, s, co, cons = self.trig[i]
        self.define(('trig', i), cons)

    def real_arc(self, name, args, w, p):
        a = args[0]
        one = R(Fraction(1), Fraction(1), 64, a.w)
        if name == 'atan2':
            y, x = args
            b = self.dom.bin
            r = self.real_sqrt(b(self, 'fadd', b(self, 'fmul', x, x), b(self, 'fmul', y, y)), w, p)
            if self.decide(self.dom._cmp0('eq', r)):
                return R(Fraction(0), Fraction(1), p, w)
            s, c = b(self, 'fdiv', y, r), b(self, 'fdiv', x, r)
        else:
            sq = self.dom.bin(self, 'fmul', a, a)
            if name in ('acos', 'asin'):
                rem = self.dom.bin(self, 'fsub', one, sq)
                if self.decide(self.dom._cmp0('lt', rem)):
                    return RS('nan', w)
                other = self.real_sqrt(rem, w, p)
                s, c = (other, a) if name == 'acos' else (a, other)
            else:
                r = self.real_sqrt(self.dom.bin(self, 'fadd', one, sq), w, p)
                c = self.dom.bin(self, 'fdiv', one, r)
                s = self.dom.bin(self, 'fmul', a, c)
        key = (name,) + tuple(self.nkey(x) for x in args)
        ent = self.ufs.get(key)
        if ent is None:
            th = z3.Real('%s!%d' % (name, len(self.ufs)))
            pi = z3.RealVal('3.1415926536')
            lim = {'acos': [th >= 0, th <= pi], 'asin': [2 * th >= -pi, 2 * th <= pi],
                   'atan': [2 * th >= -pi, 2 * th <= pi], 'atan2': [th >= -pi, th <= pi]}[name]
            # theta and its sine vanish together inside these ranges
            sv = zr(s.n)
            if name == 'acos':
                lim.append((th == 0) == (zr(c.n) == zr(c.d)))
            else:
                lim.append(z3.Implies(th == 0, sv == 0))
            ent = (th, lim, args)
            self.ufs[key] = ent
            self._reg_trig(self.linform(R(th))[0], Fraction(0), R(s.n, s.d), R(c.n, c.d))
            ent = ent + (len(self.trig) - 1,)
            self.ufs[key] = ent
        self.define(key, ent[1])
        self._use_trig(ent[3])
        return R(ent[0], Fraction(1), p, w)

    def nkey(self, x):
        """identifies a value up to polynomial identities"""
        try:
            n, d = self.poly.get(x.n), self.poly.get(x.d)
            if not n:
                return ()
            k = d[min(d)]
            return (frozenset((m, c / k) for m, c in n.items()), frozenset((m, c / k) for m, c in d.items()))
        except TooBig:
            return (zr(x.n).get_id(), zr(x.d).get_id())

    def real_pow(self, a, b, w, p):
        if b.conc:
            e = b.n / b.d
            if e.denominator == 1 and abs(e) <= 16:
                if a.conc and a.n == 0 and e < 0:
                    return RS('inf', w)
                r = R(Fraction(1), Fraction(1), 64, w)
                for _ in range(abs(int(e))):
                    r = self.dom.bin(self, 'fmul', r, R(a.n, a.d, a.prec, w, a.dpos))
                if e < 0:
                    r = self.dom.bin(self, 'fdiv', R(Fraction(1), Fraction(1), 64, w), r)
                return r
            if e == Fraction(1, 2):
                return self.real_sqrt(a, w, p)
            if a.conc and e.denominator == 1 and abs(e) < 4096:
                return R((a.n / a.d) ** int(e), Fraction(1), p, w)
        if a.conc and b.conc:
            try:
                return self.dom.const(math.pow(float(a.n / a.d), float(b.n / b.d)), w)
            except (ValueError, OverflowError):
                return RS('nan', w)
        return self.real_uf('pow', [a, b], w, p)

    def real_uf(self, name, args, w, p):
        def ex_(r):
            return z3.simplify(zr(r.n) / zr(r.d) if is_z3(r.d) else zr(_mul(r.n, Fraction(1) / r.d)), som=True)
        es = [ex_(x) for x in args]
        key = (name,) + tuple(self.nkey(x) for x in args)
        ent = self.ufs.get(key)
        if ent is None:
            for k2, e2 in list(self.ufs.items()):
                if k2[0] == name and len(e2) == 2 and e2[0].decl().name().startswith('uf_'):
                    if self.valid(z3.And([x == y for x, y in zip(es, e2[1])])):
                        return R(e2[0], Fraction(1), p, w)
            ent = (z3.Real('uf_%s!%d' % (name, len(self.ufs))), es)
            self.ufs[key] = ent
        return R(ent[0], Fraction(1), p, w)

    # ------------------------------------------------------------ memory
    def new_obj(self, s, size, name, kind):
        oid = s.next_obj
        s.next_obj += 1
        base = s.next_base
        s.next_base += ((size + 15) // 16) * 16 + 64
        o = Obj(oid, size, base, name, kind)
        o.owner = s.sid
        s.objs[oid] = o
        return o

    def wobj(self, s, o):
        if o.kind in ('global', 'tls') and not s.dirty and STATE.match(o.name) and not s.env.get('init'):
            s.dirty = True
        if o.owner is not s.sid:
            o = o.clone(s.sid)
            s.objs[o.id] = o
        return o

    def touch(self, s, o):
        """a write to o while several threads run the same code: only what the thread made itself, thread-local
        variables and static locals inside their guarded initialisation may be written"""
        if not s.par or o.kind == 'tls' or (o.id >= s.par and o.kind != 'global') or (o.kind == 'global' and s.guard):
            return
        if '3vps' in o.name: # the model of the streams
            return
        where = next((f.f.demangled for f in reversed(s.frames) if 'vmml' in f.f.demangled), '?')
        self.stats['obligations'] += 1
        self.on_check(self, s, z3.BoolVal(True), 'race: unsynchronised write to shared %s in %s' % (
            o.name if o.kind == 'global' else 'operand', where), 'race')
        raise PathEnd('race')

    def s_vp_par(self, s, fr, ins, av, tys, name):
        if av[0] == 1:
            s.par = s.next_obj
        else:
            s.par = 0
            self.stats['obligations'] += 1
            self.stats['proved'] += 1
            self.on_proved('threads write nothing they share')
        return None

    def mem_violation(self, what, cond=None):
        """an access outside any live object; cond: z3 condition under which it happens (None: always)"""
        where = self.cur.frames[-1].f.demangled if self.cur.frames else '?'
        lab = 'memory: %s in %s' % (what, where)
        self.report(lab, cond)

    def report(self, lab, bad):
        """an obligation that fails when `bad` holds (None: always)"""
        s = self.cur
        self.stats['obligations'] += 1
        self.on_check(self, s, bad if bad is not None else z3.BoolVal(True), lab, 'mem')
        if bad is None:
            raise PathEnd('memory')
        self.assume(z3.Not(bad))

    def get_obj(self, s, p, what):
        o = s.objs.get(p.obj)
        if o is None or p.obj == 0:
            self.mem_violation('%s through null or invalid pointer' % what)
        if not o.live:
            self.mem_violation('%s of dead object %s' % (what, o.name))
        if o.kind == 'func':
            self.mem_violation('%s of code' % what)
        return o

    def offsets(self, s, p, n, what):
        """[(cond or None, concrete offset)] for an access of n bytes at p"""
        o = self.get_obj(s, p, what)
        off = p.off
        if isinstance(off, int):
            off = sx(off & mask(64), 64)
            if off < 0 or off + n > o.size:
                self.mem_violation('%s of %d bytes at offset %d of %s (%d bytes)' % (what, n, off, o.name, o.size))
            return [(None, off)]
        if not isinstance(off, z3.BitVecRef):
            raise Unsupported('pointer offset')
        key = (p.obj, n, off.get_id())
        cache = s.env.get(('offs', key))
        if cache is not None:
            return cache[0]
        if o.size < n:
            self.mem_violation('%s of %d bytes in %s (%d bytes)' % (what, n, o.name, o.size))
        bad = z3.UGT(off, z3.BitVecVal(o.size - n, 64))
        if not self.valid(z3.Not(bad), 10000):
            self.mem_violation('%s of %d bytes outside %s (%d bytes)' % (what, n, o.name, o.size), bad)
        res = []
        block = []
        while True:
            r, m = self.check_sat(s.pc + block, 10000, True)
            if r == z3.unsat:
                break
            if r != z3.sat or len(res) > 600:
                raise Unsupported('too many targets of a symbolic pointer')
            v = m.eval(off, model_completion=True).as_long()
            c = off == z3.BitVecVal(v, 64)
            res.append((c, v))
            block.append(z3.Not(c))
        res.sort(key=lambda t: t[1])
        if len(res) == 1:
            res = [(None, res[0][1])]
        s.env = dict(s.env)
        s.env[('offs', key)] = (res, off)
        return res

    def cells_in(self, o, off, n):
        """cells overlapping [off, off+n) as list of (start, (size, val))"""
        c = o.cells
        e = c.get(off)
        if e is not None and e[0] >= n:
            return [(off, e)]
        out = []
        if n > 64:
            for k in sorted(c):
                if k < off + n and k + c[k][0] > off:
                    out.append((k, c[k]))
            return out
        for k in range(off - 15, off + n):
            e = c.get(k)
            if e is not None and k + e[0] > off:
                out.append((k, e))
        return out

    def to_int_bits(self, v, size):
        """value of a memory cell as an integer of size*8 bits, or None"""
        if isinstance(v, int):
            return v & mask(size * 8)
        if isinstance(v, z3.BitVecRef):
            return v
        if isinstance(v, (FB, R, RS)):
            if v.w == 80:
                return None
            return self.dom.to_bits(v)
        if isinstance(v, Ptr):
            return self.ptr2int(v)
        return None

    def split(self, o, k):
        """split cell k of o into byte cells"""
        size, v = o.cells[k]
        if size == 1:
            return
        b = UNDEF if v is UNDEF else self.to_int_bits(v, size)
        if b is None:
            raise Unsupported('partial access to an uninterpreted value')
        del o.cells[k]
        for i in range(size):
            if b is UNDEF:
                o.cells[k + i] = (1, UNDEF)
            elif isinstance(b, int):
                o.cells[k + i] = (1, (b >> (8 * i)) & 255)
            else:
                o.cells[k + i] = (1, z3.simplify(z3.Extract(8 * i + 7, 8 * i, b)))

    def put(self, o, off, n, v):
        e = o.cells.get(off)
        if e is not None and e[0] == n:
            o.cells[off] = (n, v)
            return
        for k, e in self.cells_in(o, off, n):
            if k < off or k + e[0] > off + n:
                self.split(o, k)
        for k, e in self.cells_in(o, off, n):
            del o.cells[k]
        if isinstance(v, Blob):
            for rel, sz, val in v.cells:
                o.cells[off + rel] = (sz, val)
            return
        o.cells[off] = (n, v)

    def raw_get(self, o, off, n):
        """cells exactly tiling [off,off+n): list of (rel, size, val)"""
        e = o.cells.get(off)
        if e is not None and e[0] == n:
            return [(0, n, e[1])]
        ov = self.cells_in(o, off, n)
        if any(k < off or k + e[0] > off + n for k, e in ov):
            # split a private copy
            t = o.clone(None)
            for k, e in ov:
                if k < off or k + e[0] > off + n:
                    self.split(t, k)
            ov = self.cells_in(t, off, n)
        out = []
        pos = off
        for k, (sz, v) in ov:
            if k > pos:
                out.append((pos - off, k - pos, UNDEF))
            out.append((k - off, sz, v))
            pos = k + sz
        if pos < off + n:
            out.append((pos - off, off + n - pos, UNDEF))
        return out

    def typed(self, cells, n, t):
        """cells tiling n bytes -> register value of IR type t"""
        k = t.kind
        if len(cells) == 1:
            v = cells[0][2]
            if v is UNDEF:
                return UNDEF
            if k == 'float':
                if isinstance(v, (FB, R, RS)):
                    if v.w == t.w:
                        return v
                    b = self.to_int_bits(v, n)
                else:
                    b = self.to_int_bits(v, n)
                if b is None:
                    raise Unsupported('reinterpreting load')
                return self.dom.from_bits(b, t.w)
            if k == 'ptr':
                if isinstance(v, (Ptr, PIte)):
                    return v
                return self.int2ptr(self.to_int_bits(v, n))
            if k == 'int':
                if isinstance(v, (int, z3.BitVecRef)):
                    return v if t.w == n * 8 else self.trunc(v, n * 8, t.w)
                if isinstance(v, z3.ArithRef):
                    return v
                b = self.to_int_bits(v, n)
                if b is None:
                    return Blob(n, cells)
                return b
            raise Unsupported('load type ' + t.text)
        if any(c[2] is UNDEF for c in cells):
            if k == 'int' and not all(c[2] is UNDEF for c in cells):
                return Blob(n, cells)
            return UNDEF
        parts = []
        for rel, sz, v in cells:
            b = self.to_int_bits(v, sz)
            if b is None:
                if k == 'int':
                    return Blob(n, cells)
                raise Unsupported('reinterpreting load')
            parts.append((b, sz))
        if all(isinstance(b, int) for b, _ in parts):
            r, sh = 0, 0
            for b, sz in parts:
                r |= b << sh
                sh += 8 * sz
        else:
            if self.mode == 'real' and k == 'int' and len(parts) > 1:
                pass
            r = z3.simplify(z3.Concat([bv(b, 8 * sz) for b, sz in reversed(parts)]))
        if k == 'float':
            return self.dom.from_bits(r, t.w)
        if k == 'ptr':
            return self.int2ptr(r)
        return r if t.w == n * 8 else self.trunc(r, n * 8, t.w)

    def load(self, p, t):
        s = self.cur
        if p is UNDEF:
            self.mem_violation('read through an uninitialised pointer')
        if isinstance(p, PIte):
            a, b = self.load(p.a, t), self.load(p.b, t)
            return self.ite(p.c, a, b, t)
        if not isinstance(p, Ptr):
            p = self.int2ptr(p)
        if t.kind == 'vector':
            es = t.el.size
            return [self.load(self.padd(p, i * es), t.el) for i in range(t.n)]
        if t.kind == 'struct':
            return [self.load(self.padd(p, t.offs[i]), t.els[i]) for i in range(t.n)]
        if t.kind == 'array':
            return [self.load(self.padd(p, i * t.el.size), t.el) for i in range(t.n)]
        n = (t.w + 7) // 8
        offs = self.offsets(s, p, n, 'read')
        o = s.objs[p.obj]
        r = self.typed(self.raw_get(o, offs[-1][1], n), n, t)
        for c, off in reversed(offs[:-1]):
            r = self.ite(c, self.typed(self.raw_get(o, off, n), n, t), r, t)
        return r

    def store(self, p, v, t):
        s = self.cur
        if p is UNDEF:
            self.mem_violation('write through an uninitialised pointer')
        if isinstance(p, PIte):
            if self.decide(p.c):
                return self.store(p.a, v, t)
            return self.store(p.b, v, t)
        if not isinstance(p, Ptr):
            p = self.int2ptr(p)
        if t.kind in ('vector', 'array'):
            if v is UNDEF:
                v = [UNDEF] * t.n
            for i in range(t.n):
                self.store(self.padd(p, i * t.el.size), v[i], t.el)
            return
        if t.kind == 'struct':
            if v is UNDEF:
                v = [UNDEF] * t.n
            for i in range(t.n):
                self.store(self.padd(p, t.offs[i]), v[i], t.els[i])
            return
        n = (t.w + 7) // 8
        if t.kind == 'int' and t.w != n * 8:
            v = self.zext(v, t.w, n * 8)
        offs = self.offsets(s, p, n, 'write')
        o = s.objs[p.obj]
        if o.ro and not self.cur.env.get('init'):
            self.mem_violation('write to constant %s' % o.name)
        if s.par:
            self.touch(s, o)
        o = self.wobj(s, o)
        if len(offs) == 1:
            self.put(o, offs[0][1], n, v)
            return
        vals = []
        for c, off in offs:
            old = self.typed(self.raw_get(o, off, n), n, t)
            vals.append((off, v if old is UNDEF and v is UNDEF else self.ite_t(c, v, old, t)))
        for off, x in vals:
            self.put(o, off, n, x)

    def padd(self, p, k):
        if isinstance(p, PIte):
            return PIte(p.c, self.padd(p.a, k), self.padd(p.b, k))
        if isinstance(k, int):
            if k == 0:
                return p
            if isinstance(p.off, int):
                return Ptr(p.obj, p.off + k)
            return Ptr(p.obj, z3.simplify(p.off + z3.BitVecVal(k & mask(64), 64)))
        off = p.off if not isinstance(p.off, int) else z3.BitVecVal(p.off & mask(64), 64)
        return Ptr(p.obj, z3.simplify(off + k))

    def ptr2int(self, p):
        if isinstance(p, PIte):
            a, b = self.ptr2int(p.a), self.ptr2int(p.b)
            return z3.If(p.c, bv(a, 64), bv(b, 64))
        if p is UNDEF:
            return UNDEF
        base = 0 if p.obj == 0 else self.cur.objs[p.obj].base
        if isinstance(p.off, int):
            return (base + p.off) & mask(64)
        return z3.simplify(p.off + z3.BitVecVal(base, 64))

    def int2ptr(self, v):
        if isinstance(v, (Ptr, PIte)):
            return v
        if v is UNDEF:
            return UNDEF
        if isinstance(v, int):
            if v == 0:
                return NULL
            for o in self.cur.objs.values():
                if o.base <= v <= o.base + o.size:
                    return Ptr(o.id, v - o.base)
            return Ptr(0, v)
        raise Unsupported('symbolic inttoptr')

    def memcpy(self, d, sp, n, what='memcpy'):
        s = self.cur
        if n == 0:
            return
        if not isinstance(n, int):
            n = self.concretize(n)
            if n == 0:
                return
        for q in (d, sp):
            if isinstance(q, PIte):
                if self.decide(q.c):
                    q2 = q.a
                else:
                    q2 = q.b
                return self.memcpy(q2 if q is d else d, q2 if q is sp else sp, n, what)
        so = self.offsets(s, sp, n, 'read')
        do = self.offsets(s, d, n, 'write')
        if len(so) > 1:
            for c, off in so:
                if self.decide(c):
                    so = [(None, off)]
                    break
        if len(do) > 1:
            for c, off in do:
                if self.decide(c):
                    do = [(None, off)]
                    break
        cells = self.raw_get(s.objs[sp.obj], so[0][1], n)
        o = s.objs[d.obj]
        if o.ro:
            self.mem_violation('write to constant %s' % o.name)
        if s.par:
            self.touch(s, o)
        o = self.wobj(s, o)
        off = do[0][1]
        for k, e in self.cells_in(o, off, n):
            if k < off or k + e[0] > off + n:
                self.split(o, k)
        for k, e in self.cells_in(o, off, n):
            del o.cells[k]
        for rel, sz, v in cells:
            if v is not UNDEF:
                o.cells[off + rel] = (sz, v)

    def memset(self, d, v, n):
        if not isinstance(n, int):
            n = self.concretize(n)
        if n == 0:
            return
        s = self.cur
        do = self.offsets(s, d, n, 'write')
        if len(do) > 1:
            raise Unsupported('memset symbolic')
        if s.par:
            self.touch(s, s.objs[d.obj])
        o = self.wobj(s, s.objs[d.obj])
        off = do[0][1]
        for k, e in self.cells_in(o, off, n):
            if k < off or k + e[0] > off + n:
                self.split(o, k)
        for k, e in self.cells_in(o, off, n):
            del o.cells[k]
        if v is UNDEF:
            return
        for i in range(n):
            o.cells[off + i] = (1, v)

    def memcmp(self, a, b, n):
        s = self.cur
        if not isinstance(n, int):
            n = self.concretize(n)
        if n == 0:
            return 0
        ca = self.raw_get(s.objs[a.obj], self.one_off(a, n), n)
        cb = self.raw_get(s.objs[b.obj], self.one_off(b, n), n)
        if [(r, z) for r, z, _ in ca] != [(r, z) for r, z, _ in cb]:
            ca, cb = self.bytes_of(ca), self.bytes_of(cb)
        conds = []
        res = None
        fp_cells = False
        for (r, z, x), (_, _, y) in zip(ca, cb):
            if x is UNDEF or y is UNDEF:
                x = y = None
                conds.append(self.fresh_bool('undef_cmp'))
                continue
            if isinstance(x, (FB,)) or isinstance(y, FB) or isinstance(x, (int, z3.BitVecRef)):
                bx, by = self.to_int_bits(x, z), self.to_int_bits(y, z)
                if bx is not None and by is not None:
                    conds.append(self.icmp('eq', bx, by, 8 * z))
                    continue
            if isinstance(x, (R, RS)) and isinstance(y, (R, RS)):
                fp_cells = True
                conds.append(self.dom.same(self, x, y))
                continue
            if isinstance(x, (Ptr, PIte)):
                conds.append(self.pcmp('eq', x, y))
                continue
            raise Unsupported('memcmp')
        if all(isinstance(c, int) for c in conds):
            if all(conds):
                return 0
            if not fp_cells:
                xa = self.bytes_of(ca)
                xb = self.bytes_of(cb)
                for (_, _, x), (_, _, y) in zip(xa, xb):
                    if isinstance(x, int) and isinstance(y, int) and x != y:
                        return 1 if x > y else mask(32)
            return 1
        eq = z3.And([zbool(c) for c in conds])
        try:
            xa, xb = self.bytes_of(ca), self.bytes_of(cb)
            lt = z3.BoolVal(False)
            for (_, _, x), (_, _, y) in reversed(list(zip(xa, xb))):
                lt = z3.Or(z3.ULT(bv(x, 8), bv(y, 8)), z3.And(bv(x, 8) == bv(y, 8), lt))
            return z3.If(eq, z3.BitVecVal(0, 32), z3.If(lt, z3.BitVecVal(mask(32), 32), z3.BitVecVal(1, 32)))
        except Unsupported:
            return z3.If(eq, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32))

    def one_off(self, p, n):
        offs = self.offsets(self.cur, p, n, 'read')
        if len(offs) == 1:
            return offs[0][1]
        for c, off in offs:
            if self.decide(c):
                return off
        raise PathEnd('assume')

    def bytes_of(self, cells):
        out = []
        for r, z, v in cells:
            if v is UNDEF:
                out += [(r + i, 1, UNDEF) for i in range(z)]
                continue
            b = self.to_int_bits(v, z)
            if b is None:
                raise Unsupported('bytes of an uninterpreted value')
            for i in range(z):
                out.append((r + i, 1, (b >> (8 * i)) & 255 if isinstance(b, int) else
                            z3.simplify(z3.Extract(8 * i + 7, 8 * i, b))))
        return out

    def concretize(self, v, limit=300):
        """fork over all values of v"""
        if isinstance(v, int):
            return v
        if v is UNDEF:
            raise Unsupported('uninitialised length')
        s = self.cur
        for _ in range(limit):
            r, m = self.check_sat(s.pc, 5000, True)
            if r != z3.sat:
                raise PathEnd('assume') if r == z3.unsat else Unsupported('concretize')
            x = m.eval(v, model_completion=True)
            if self.decide(v == x):
                return x.as_long()
        raise Unsupported('concretize')

    # ------------------------------------------------------------- values
    def undef_val(self, t):
        nm = self.fresh_name('undef')
        if t.kind == 'int':
            return z3.Bool(nm) if t.w == 1 else z3.BitVec(nm, t.w)
        if t.kind == 'float':
            return self.dom.fresh(nm, t.w)
        raise Unsupported('use of undef ' + t.text)

    def ite(self, c, a, b, t=None):
        if isinstance(c, int):
            return a if c else b
        if a is b:
            return a
        k = self.cur.known.get(c.get_id())
        if k is not None:
            return a if k[0] else b
        if isinstance(a, list) and isinstance(b, list):
            return [self.ite(c, x, y) for x, y in zip(a, b)]
        if a is UNDEF or b is UNDEF:
            raise NeedFork(c)
        if isinstance(a, (FB, R, RS)):
            return self.dom.ite(c, a, b)
        if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and isinstance(a.off, int) and a.off == b.off:
                return a
            return PIte(c, a, b)
        if isinstance(a, Blob) or isinstance(b, Blob):
            raise NeedFork(c)
        if isinstance(a, int) and isinstance(b, int):
            if a == b:
                return a
            return _IntIte(c, a, b)
        if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
            return z3.If(c, zbool(a), zbool(b))
        if isinstance(a, z3.ArithRef) or isinstance(b, z3.ArithRef):
            w = t.w if t is not None and t.kind == 'int' else 64
            cv = lambda x: z3.IntVal(sx(x, w)) if isinstance(x, int) else z3.BV2Int(x, True) \
                if isinstance(x, z3.BitVecRef) else x
            return z3.If(c, cv(a), cv(b))
        w = a.size() if not isinstance(a, int) else b.size()
        return z3.If(c, bv(a, w), bv(b, w))

    def ite_t(self, c, a, b, t):
        r = self.ite(c, a, b, t)
        return self.fix_int(r, t)

    def fix_int(self, r, t):
        if isinstance(r, _IntIte):
            if t.kind == 'int' and t.w == 1:
                return z3.If(r.c, z3.BoolVal(bool(r.a)), z3.BoolVal(bool(r.b)))
            w = t.w if t.kind == 'int' else 64
            return z3.If(r.c, z3.BitVecVal(r.a, w), z3.BitVecVal(r.b, w))
        if isinstance(r, list):
            els = t.els if t.kind == 'struct' else [t.el] * t.n
            return [self.fix_int(x, e) for x, e in zip(r, els)]
        return r

    def trunc(self, v, w0, w1):
        if isinstance(v, int):
            return v & mask(w1)
        if isinstance(v, z3.ArithRef):
            return self.wrap_s(v, w1)
        if v is UNDEF:
            return UNDEF
        if isinstance(v, Blob):
            cells = [c for c in v.cells if c[0] + c[1] <= w1 // 8]
            if sum(c[1] for c in cells) == w1 // 8:
                if len(cells) == 1:
                    b = self.to_int_bits(cells[0][2], cells[0][1]) if cells[0][2] is not UNDEF else UNDEF
                    if b is not None:
                        return b
                return Blob(w1 // 8, cells)
            raise Unsupported('trunc of blob')
        if isinstance(v, z3.BoolRef):
            return v
        if w1 == 1:
            return z3.Extract(0, 0, v) == z3.BitVecVal(1, 1)
        return z3.simplify(z3.Extract(w1 - 1, 0, v))

    def zext(self, v, w0, w1):
        if isinstance(v, int):
            return v
        if v is UNDEF:
            return v
        if isinstance(v, z3.ArithRef):
            return self.wrap_u(v, w0)
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.BitVecVal(1, w1), z3.BitVecVal(0, w1))
        if isinstance(v, Blob):
            k = v.size
            return Blob(w1 // 8, v.cells + [(k + i, 1, 0) for i in range(w1 // 8 - k)])
        return z3.ZeroExt(w1 - w0, v)

    def sext(self, v, w0, w1):
        if isinstance(v, int):
            return sx(v, w0) & mask(w1)
        if v is UNDEF or isinstance(v, z3.ArithRef):
            return v
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.BitVecVal(mask(w1), w1), z3.BitVecVal(0, w1))
        return z3.SignExt(w1 - w0, v)

    # mathematical integers ( from real numbers ) are kept in the signed range of their width
    def wrap_s(self, v, w):
        h = 1 << (w - 1)
        if self.valid(z3.And(v >= -h, v < h)):
            return v
        return v - z3.IntVal(2 * h) * ((v + h) / z3.IntVal(2 * h))

    def wrap_u(self, v, w):
        if self.valid(v >= 0):
            return v
        return z3.If(v < 0, v + (1 << w), v)

    def as_bv(self, v, w):
        if isinstance(v, int):
            return z3.BitVecVal(v, w)
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        return v

    def ibin(self, op, a, b, w, t):
        if a is UNDEF:
            a = self.undef_val(t)
        if b is UNDEF:
            b = self.undef_val(t)
        if isinstance(a, (Ptr, PIte)):
            a = self.ptr2int(a)
        if isinstance(b, (Ptr, PIte)):
            b = self.ptr2int(b)
        if isinstance(a, Blob) or isinstance(b, Blob):
            return self.blob_op(op, a, b, w)
        if isinstance(a, int) and isinstance(b, int):
            M = mask(w)
            if op == 'add':
                return (a + b) & M
            if op == 'sub':
                return (a - b) & M
            if op == 'mul':
                return (a * b) & M
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & M if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            if op == 'ashr':
                return (sx(a, w) >> min(b, w)) & M
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0:
                    self.report('integer division by zero', None)
                if op == 'udiv':
                    return a // b
                if op == 'urem':
                    return a % b
                x, y = sx(a, w), sx(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return (q if op == 'sdiv' else x - q * y) & M
        if isinstance(a, z3.ArithRef) or isinstance(b, z3.ArithRef):
            return self.arith_int(op, a, b, w)
        if w == 1:
            a, b = zbool(a), zbool(b)
            if op == 'and':
                return z3.And(a, b)
            if op == 'or':
                return z3.Or(a, b)
            if op in ('xor', 'add', 'sub'):
                if z3.is_true(b):
                    return z3.Not(a)
                if z3.is_true(a):
                    return z3.Not(b)
                return z3.Xor(a, b)
            if op == 'mul':
                return z3.And(a, b)
            raise Unsupported('i1 ' + op)
        if isinstance(b, int):
            if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr') and b == 0:
                return a
            if op == 'mul' and b == 1:
                return a
            if op in ('udiv', 'sdiv') and b == 1:
                return a
        a, b = self.as_bv(a, w), self.as_bv(b, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            z = b == z3.BitVecVal(0, w)
            if not self.valid(z3.Not(z)):
                self.report('integer division by zero', z)
        r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b,
             'or': lambda: a | b, 'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b),
             'ashr': lambda: a >> b, 'udiv': lambda: z3.UDiv(a, b), 'urem': lambda: z3.URem(a, b),
             'sdiv': lambda: a / b, 'srem': lambda: z3.SRem(a, b)}[op]()
        return r

    def blob_op(self, op, a, b, w):
        """shift/mask of an uninterpreted byte string by whole bytes"""
        if isinstance(b, int) and isinstance(a, Blob) and op == 'lshr' and b % 8 == 0:
            k = b // 8
            cells = []
            for r, z, v in a.cells:
                if r + z <= k:
                    continue
                if r < k:
                    raise Unsupported('blob shift')
                cells.append((r - k, z, v))
            end = a.size - k
            return Blob(a.size, cells + [(end + i, 1, 0) for i in range(k)])
        raise Unsupported('arithmetic on an uninterpreted byte string: ' + op)

    def arith_int(self, op, a, b, w):
        a = z3.IntVal(sx(a, w)) if isinstance(a, int) else a
        b = z3.IntVal(sx(b, w)) if isinstance(b, int) else b
        if isinstance(a, z3.BitVecRef):
            a = z3.BV2Int(a, True)
        if isinstance(b, z3.BitVecRef):
            b = z3.BV2Int(b, True)
        if op == 'add':
            return self.wrap_s(a + b, w)
        if op == 'sub':
            return self.wrap_s(a - b, w)
        if op == 'mul':
            return self.wrap_s(a * b, w)
        raise Unsupported('integer op %s on a mathematical integer' % op)

    def icmp(self, p, a, b, w):
        if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
            return self.pcmp(p, a, b)
        if isinstance(a, Blob) or isinstance(b, Blob):
            raise Unsupported('compare of uninterpreted bytes')
        if isinstance(a, int) and isinstance(b, int):
            if p[0] == 's':
                a, b = sx(a, w), sx(b, w)
            q = p[-2:]
            return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[q])
        if isinstance(a, z3.ArithRef) or isinstance(b, z3.ArithRef):
            cv = lambda x: z3.IntVal(x if p[0] == 'u' else sx(x, w)) if isinstance(x, int) else (
                z3.BV2Int(x, p[0] != 'u') if isinstance(x, z3.BitVecRef) else self.wrap_u(x, w) if p[0] == 'u' else x)
            a, b = cv(a), cv(b)
            q = p[-2:]
            return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[q]
        if w == 1:
            a, b = zbool(a), zbool(b)
            if p == 'eq':
                return a == b
            if p == 'ne':
                return z3.Xor(a, b)
            a, b = self.as_bv(a, 2), self.as_bv(b, 2)
        else:
            a, b = self.as_bv(a, w), self.as_bv(b, w)
        return {'eq': lambda: a == b, 'ne': lambda: a != b, 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b),
                'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'sgt': lambda: a > b, 'sge': lambda: a >= b,
                'slt': lambda: a < b, 'sle': lambda: a <= b}[p]()

    def pcmp(self, p, a, b):
        if isinstance(a, PIte):
            x, y = self.pcmp(p, a.a, b), self.pcmp(p, a.b, b)
            if isinstance(x, int) and isinstance(y, int) and x == y:
                return x
            return z3.If(a.c, zbool(x), zbool(y))
        if isinstance(b, PIte):
            x, y = self.pcmp(p, a, b.a), self.pcmp(p, a, b.b)
            if isinstance(x, int) and isinstance(y, int) and x == y:
                return x
            return z3.If(b.c, zbool(x), zbool(y))
        if not isinstance(a, Ptr):
            a = self.int2ptr(a)
        if not isinstance(b, Ptr):
            b = self.int2ptr(b)
        if a.obj == b.obj:
            if isinstance(a.off, int) and isinstance(b.off, int):
                return self.icmp(p, (a.off) & mask(64), (b.off) & mask(64), 64) if p in ('eq', 'ne') else \
                    self.icmp('s' + p[1:] if p[0] == 'u' else p, a.off & mask(64), b.off & mask(64), 64)
            return self.icmp(p if p in ('eq', 'ne') else 's' + p[1:], bv(a.off & mask(64) if isinstance(a.off, int) else a.off, 64),
                             bv(b.off & mask(64) if isinstance(b.off, int) else b.off, 64), 64)
        if p == 'eq':
            return 0
        if p == 'ne':
            return 1
        return self.icmp(p, self.ptr2int(a), self.ptr2int(b), 64)

    # ---------------------------------------------------------- constants
    def cval(self, c):
        k, v, t = c
        if k == 'int':
            return v
        if k == 'float':
            return self.dom.const(v, t.w)
        if k == 'f80':
            if self.mode == 'fp':
                raise Unsupported('long double in fp mode')
            return parse_f80(v)
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero(t)
        if k == 'agg':
            return [self.cval(x) for x in v]
        if k == 'func':
            return self.fptr(v)
        if k == 'global':
            return Ptr(self.gid(v), 0)
        if k == 'cgep':
            et, ops = v
            return self.gep(et, [self.cval(o) for o in ops], [o[2] for o in ops])
        if k == 'cexpr':
            op, ops = v
            vals = [self.cval(o) for o in ops]
            if op in ('bitcast', 'addrspacecast'):
                return vals[0]
            if op == 'ptrtoint':
                return self.ptr2int(vals[0])
            if op == 'inttoptr':
                return self.int2ptr(vals[0])
            if op in ('sub', 'add'):
                return self.ibin(op, vals[0], vals[1], t.w, t)
            raise Unsupported('constant expression %s' % op)
        if k == 'meta' or k == 'asm':
            return None
        raise Unsupported('constant ' + k)

    def zero(self, t):
        if t.kind == 'int':
            return 0
        if t.kind == 'float':
            return self.dom.const(0.0, t.w)
        if t.kind == 'ptr':
            return NULL
        if t.kind == 'struct':
            return [self.zero(e) for e in t.els]
        return [self.zero(t.el) for _ in range(t.n)]

    def fptr(self, name):
        s = self.cur
        name = self.m.resolve(name)
        k = ('f', name)
        if k not in s.env:
            o = self.new_obj(s, 1, name, 'func')
            s.env = dict(s.env)
            s.env[k] = o.id
        return Ptr(s.env[k], 0)

    def gid(self, name):
        s = self.cur
        if self.m.overrides:
            name = self.m.resolve(name)
        k = ('g', name)
        i = s.env.get(k)
        if i is None:
            g = self.m.globals[name]
            t = self.m.ty(llvmir.GValT(g))
            o = self.new_obj(s, t.size, name, 'tls' if llvmir.IsTls(g) else 'global')
            s.env = dict(s.env)
            s.env[k] = i = o.id
            init = llvmir.GInit(g) if not llvmir.IsDecl(g) else None
            if init:
                v = self.cval(self.m.const(init))
                self.init_store(o, 0, v, t)
                o.ro = bool(llvmir.IsConstG(g))
        return i

    def init_store(self, o, off, v, t):
        if t.kind == 'struct':
            for i in range(t.n):
                self.init_store(o, off + t.offs[i], UNDEF if v is UNDEF else v[i], t.els[i])
        elif t.kind in ('array', 'vector'):
            if t.n > 4096:
                raise Unsupported('huge global')
            for i in range(t.n):
                self.init_store(o, off + i * t.el.size, UNDEF if v is UNDEF else v[i], t.el)
        elif v is not UNDEF:
            self.put(o, off, (t.w + 7) // 8, v)

    def gep(self, et, vals, tys):
        p = vals[0]
        if p is UNDEF:
            raise Unsupported('gep on undef')
        if not isinstance(p, (Ptr, PIte)):
            p = self.int2ptr(p)
        p = self.padd(p, self.scale(vals[1], tys[1], et.size))
        t = et
        for v, vt in zip(vals[2:], tys[2:]):
            if t.kind == 'struct':
                p = self.padd(p, t.offs[v])
                t = t.els[v]
            else:
                p = self.padd(p, self.scale(v, vt, t.el.size))
                t = t.el
        return p

    def scale(self, v, vt, size):
        if isinstance(v, int):
            return sx(v, vt.w) * size
        if v is UNDEF:
            raise Unsupported('uninitialised index')
        if isinstance(v, z3.ArithRef):
            raise Unsupported('mathematical integer used as an index')
        if vt.w < 64:
            v = z3.SignExt(64 - vt.w, v)
        return z3.simplify(v * z3.BitVecVal(size, 64))

    # ----------------------------------------------------------- running
    def cstr(self, p):
        o = self.cur.objs[p.obj]
        out = []
        i = p.off
        while True:
            b = self.raw_get(o, i, 1)[0][2]
            if not isinstance(b, int):
                raise Unsupported('symbolic string')
            if b == 0:
                break
            out.append(b)
            i += 1
        return bytes(out).decode('latin1')

    def start(self, s, fname, args=()):
        f = self.m.func(fname)
        fr = Frame(f)
        for r, a in zip(f.param_regs, args):
            fr.regs[r] = a
        s.frames.append(fr)

    def run_ctors(self, s):
        """static initialisers of the module, concretely"""
        self.cur = s
        g = self.m.globals.get('llvm.global_ctors')
        if not g:
            return
        lst = self.m.const(llvmir.GInit(g))
        if lst[0] != 'agg':
            return
        ent = sorted(lst[1], key=lambda e: e[1][0][1])
        for e in ent:
            fn = e[1][1]
            if fn[0] != 'func':
                continue
            s.env = dict(s.env)
            s.env['init'] = True
            self.start(s, self.m.resolve(fn[1]))
            try:
                while s.frames:
                    self.step(s)
            except (Unsupported, PathEnd, Fork, NeedFork) as x:
                # an initialiser outside the encoded subset: its objects stay unknown
                s.frames = []
                self.stats.setdefault('ctor_skipped', []).append('%s: %s' % (fn[1], x))
            s.env = dict(s.env)
            s.env.pop('init', None)

    def run(self, s0, fname):
        self.start(s0, fname)
        self.deadline = time.time() + self.o['time']
        work = [s0]
        while work:
            s = work.pop()
            self.cur = s
            try:
                while True:
                    try:
                        fr0 = s.fresh
                        self.step(s)
                        if not s.frames:
                            if s.dirty and not s.again and self.o['twice']:
                                # the library keeps state of its own: the same once more, with other inputs
                                s.again = True
                                s.slots = {o.slot: o.id for o in s.objs.values() if o.slot and not o.live}
                                self.start(s, fname)
                                self.stats['twice'] = self.stats.get('twice', 0) + 1
                                continue
                            raise PathEnd('ok')
                    except (Fork, NeedFork) as e:
                        s.fresh = fr0
                        c = e.c
                        if isinstance(e, NeedFork):
                            # ite over values that cannot be merged
                            try:
                                v = self.decide(c)
                                s.known[c.get_id()] = (v, c)
                                continue
                            except Fork:
                                pass
                        s.forks += 1
                        if self.stats['paths'] + len(work) > self.o['max_paths']:
                            raise Budget('paths')
                        s2 = s.clone()
                        self.add_pc(s, c, True)
                        self.add_pc(s2, c, False)
                        work.append(s2)
            except PathEnd as e:
                self.finish(s, e.kind, e.info)
            except Unsupported as e:
                where = s.frames[-1].f.demangled if s.frames else ''
                self.undecided.append('unsupported: %s in %s' % (e, where))
                self.finish(s, 'unsupported', str(e))
            if self.deadline and time.time() > self.deadline:
                raise Budget('time')

    def finish(self, s, kind, info):
        self.stats['paths'] += 1
        self.stats['ends'][kind] = self.stats['ends'].get(kind, 0) + 1
        if self.on_end:
            self.on_end(self, s, kind, info)

    on_end = None

    def val(self, fr, o):
        if o[0] == 'r':
            return fr.regs[o[1]]
        c = o[1]
        k = c[0]
        if k == 'int':
            return c[1]
        return self.cval(c)

    def goto(self, fr, b):
        fr.prev = fr.blk
        fr.blk = b
        fr.idx = 0
        blk = fr.f.blocks[b]
        if blk and blk[0][0] == 'phi':
            vals = []
            n = 0
            for ins in blk:
                if ins[0] != 'phi':
                    break
                vals.append((ins[1], self.val(fr, ins[3][fr.prev])))
                n += 1
            for d, v in vals:
                fr.regs[d] = v
            fr.idx = n

    def step(self, s):
        fr = s.frames[-1]
        ins = fr.f.blocks[fr.blk][fr.idx]
        st = self.stats
        st['instr'] += 1
        if st['instr'] > self.o['max_steps']:
            raise Budget('steps')
        if (st['instr'] & 255) == 0 and self.deadline and time.time() > self.deadline:
            raise Budget('time')
        getattr(self, 'i_' + ins[0])(s, fr, ins)

    # one method per IR opcode ------------------------------------------------
    def i_unsupported(self, s, fr, ins):
        raise Unsupported('instruction ' + ins[3])

    def i_br(self, s, fr, ins):
        self.goto(fr, ins[3])

    def i_condbr(self, s, fr, ins):
        c = self.val(fr, ins[3])
        if c is UNDEF:
            c = self.fresh_bool('undef')
        self.goto(fr, ins[4] if self.decide(c) else ins[5])

    def i_switch(self, s, fr, ins):
        v = self.val(fr, ins[3])
        if v is UNDEF:
            raise Unsupported('switch on undef')
        for k, b in ins[6]:
            if self.decide(self.icmp('eq', v, k, ins[4].w)):
                return self.goto(fr, b)
        self.goto(fr, ins[5])

    def i_ret(self, s, fr, ins):
        v = self.val(fr, ins[3][0]) if ins[3] else None
        self.pop(s, fr)
        if s.frames:
            c = s.frames[-1]
            call = c.call
            c.call = None
            if v is not None:
                c.regs[call[1]] = v
            self.after_call(c, call)

    def after_call(self, fr, ins):
        if ins[0] == 'invoke':
            self.goto(fr, ins[7])
        else:
            fr.idx += 1

    def pop(self, s, fr):
        s.frames.pop()
        for oid in fr.allocas:
            o = self.wobj(s, s.objs[oid])
            o.live = False
            o.cells = {}

    def i_unreachable(self, s, fr, ins):
        self.stats['obligations'] += 1
        self.on_check(self, s, z3.BoolVal(True), 'undefined behaviour: unreachable reached in ' + fr.f.demangled, 'mem')
        raise PathEnd('unreachable')

    def _ibin(self, s, fr, ins):
        op, d, t, ops, tys = ins
        a, b = self.val(fr, ops[0]), self.val(fr, ops[1])
        if t.kind == 'vector':
            a = a if isinstance(a, list) else [UNDEF] * t.n
            b = b if isinstance(b, list) else [UNDEF] * t.n
            fr.regs[d] = [self.ibin(op, x, y, t.el.w, t.el) for x, y in zip(a, b)]
        else:
            fr.regs[d] = self.ibin(op, a, b, t.w, t)
        fr.idx += 1
    i_add = i_sub = i_mul = i_udiv = i_sdiv = i_urem = i_srem = i_shl = i_lshr = i_ashr = i_and = i_or = i_xor = _ibin

    def fbin(self, op, a, b, t):
        if a is UNDEF:
            a = self.undef_val(t)
        if b is UNDEF:
            b = self.undef_val(t)
        return self.dom.bin(self, op, a, b)

    def _fbin(self, s, fr, ins):
        op, d, t, ops, tys = ins
        a, b = self.val(fr, ops[0]), self.val(fr, ops[1])
        if t.kind == 'vector':
            fr.regs[d] = [self.fbin(op, x, y, t.el) for x, y in zip(a, b)]
        else:
            fr.regs[d] = self.fbin(op, a, b, t)
        fr.idx += 1
    i_fadd = i_fsub = i_fmul = i_fdiv = i_frem = _fbin

    def i_fneg(self, s, fr, ins):
        a = self.val(fr, ins[3][0])
        t = ins[2]
        if t.kind == 'vector':
            fr.regs[ins[1]] = [self.dom.neg(x) for x in a]
        else:
            if a is UNDEF:
                a = self.undef_val(t)
            fr.regs[ins[1]] = self.dom.neg(a)
        fr.idx += 1

    def i_alloca(self, s, fr, ins):
        n = self.val(fr, ins[4])
        if not isinstance(n, int):
            raise Unsupported('vla')
        slot = len(s.frames), fr.f.name, len(fr.allocas)
        old = s.slots.get(slot) if s.slots else None
        old = None if old is None else s.objs[old]
        if old is not None and not old.live and old.size == ins[3].size * n:
            # second run: the stack is laid out as in the first one
            o = self.wobj(s, old)
            o.live = True
            o.cells = {}
        else:
            o = self.new_obj(s, ins[3].size * n, 'local in ' + fr.f.demangled[:80], 'stack')
        o.slot = slot
        fr.allocas.append(o.id)
        fr.regs[ins[1]] = Ptr(o.id, 0)
        fr.idx += 1

    def i_load(self, s, fr, ins):
        v = self.load(self.val(fr, ins[3]), ins[2])
        fr.regs[ins[1]] = self.fix_int(v, ins[2])
        fr.idx += 1

    def i_store(self, s, fr, ins):
        v = self.val(fr, ins[3])
        self.store2(self.val(fr, ins[5]), v, ins[4])
        fr.idx += 1

    def store2(self, p, v, t):
        # PIte/NeedFork may be raised before anything is written
        self.store(p, v, t)

    def i_gep(self, s, fr, ins):
        fr.regs[ins[1]] = self.gep(ins[3], [self.val(fr, o) for o in ins[4]], ins[5])
        fr.idx += 1

    def _cast(self, s, fr, ins):
        op, d, t, ops, tys = ins
        v = self.val(fr, ops[0])
        t0 = tys[0]
        if t.kind == 'vector' and t0.kind == 'vector' and t.n == t0.n:
            fr.regs[d] = [self.cast(op, x, t0.el, t.el) for x in v]
        else:
            fr.regs[d] = self.cast(op, v, t0, t)
        fr.idx += 1
    i_trunc = i_zext = i_sext = i_fptoui = i_fptosi = i_uitofp = i_sitofp = i_fptrunc = i_fpext = _cast
    i_ptrtoint = i_inttoptr = i_bitcast = i_addrspacecast = _cast

    def cast(self, op, v, t0, t):
        if v is UNDEF:
            if op in ('trunc', 'zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'fptrunc', 'fpext'):
                return UNDEF
            v = self.undef_val(t0)
        if op == 'trunc':
            return self.trunc(v, t0.w, t.w)
        if op == 'zext':
            return self.zext(v, t0.w, t.w)
        if op == 'sext':
            return self.sext(v, t0.w, t.w)
        if op in ('fptrunc', 'fpext'):
            return self.dom.conv(self, v, t.w)
        if op == 'sitofp' or op == 'uitofp':
            return self.dom.from_int(self, v, t0.w, op == 'sitofp', t.w)
        if op == 'fptosi' or op == 'fptoui':
            r = self.dom.to_int(self, v, t.w, op == 'fptosi')
            if r is UNDEF:
                return r
            if isinstance(r, z3.ArithRef):
                lo, hi = (-(1 << (t.w - 1)), (1 << (t.w - 1)) - 1) if op == 'fptosi' else (0, mask(t.w))
                rng = z3.And(r >= lo, r <= hi)
                if not self.decide(rng):
                    return UNDEF
                if op == 'fptoui':
                    r = self.wrap_s(r, t.w)
            return r
        if op == 'ptrtoint':
            return self.ptr2int(v)
        if op == 'inttoptr':
            return self.int2ptr(v)
        if op == 'bitcast':
            if t.kind == t0.kind and t.kind != 'vector':
                return v
            if t.kind == 'int' and t0.kind == 'float':
                b = self.dom.to_bits(v)
                return b if b is not None else Blob(t.w // 8, [(0, t.w // 8, v)])
            if t.kind == 'float' and t0.kind == 'int':
                if isinstance(v, Blob) and len(v.cells) == 1 and isinstance(v.cells[0][2], (R, RS)):
                    return v.cells[0][2]
                return self.dom.from_bits(v, t.w)
            # vector <-> scalar: through memory
            o = self.new_obj(self.cur, max(t.size, t0.size), 'bitcast', 'stack')
            self.store(Ptr(o.id, 0), v, t0)
            return self.load(Ptr(o.id, 0), t)
        raise Unsupported(op)

    def i_icmp(self, s, fr, ins):
        _, d, t, p, a, b, ot = ins
        a, b = self.val(fr, a), self.val(fr, b)
        if t.kind == 'vector':
            raise Unsupported('vector icmp')
        if a is UNDEF or b is UNDEF:
            fr.regs[d] = self.fresh_bool('undef')
        else:
            fr.regs[d] = self.icmp(p, a, b, ot.w if ot.kind == 'int' else 64)
        fr.idx += 1

    def i_fcmp(self, s, fr, ins):
        _, d, t, p, a, b, ot = ins
        a, b = self.val(fr, a), self.val(fr, b)
        if t.kind == 'vector':
            raise Unsupported('vector fcmp')
        if a is UNDEF or b is UNDEF:
            fr.regs[d] = self.fresh_bool('undef')
        else:
            fr.regs[d] = self.dom.cmp(self, p, a, b)
        fr.idx += 1

    def i_select(self, s, fr, ins):
        c = self.val(fr, ins[3][0])
        a, b = self.val(fr, ins[3][1]), self.val(fr, ins[3][2])
        if c is UNDEF:
            c = self.fresh_bool('undef')
        if isinstance(c, list):
            raise Unsupported('vector select')
        if not isinstance(c, int):
            k = s.known.get(c.get_id())
            if k is not None:
                c = int(k[0])
            else:
                sc = z3.simplify(c)
                if z3.is_true(sc):
                    c = 1
                elif z3.is_false(sc):
                    c = 0
                elif self.mode == 'real' and isinstance(a, R) and isinstance(b, R) and (
                        self.o.get('fork_select') or (a.conc and b.conc and a.iv is None and b.iv is None)):
                    c = int(self.decide(c))
                elif self.mode == 'real':
                    q = self.poly.decide(c, s.facts)
                    if q is not None:
                        c = int(q)
        fr.regs[ins[1]] = self.ite_t(c, a, b, ins[2])
        fr.idx += 1

    def i_freeze(self, s, fr, ins):
        v = self.val(fr, ins[3][0])
        if v is UNDEF:
            v = self.undef_val(ins[2])
        fr.regs[ins[1]] = v
        fr.idx += 1

    def i_extractvalue(self, s, fr, ins):
        v = self.val(fr, ins[3][0])
        for i in ins[4]:
            v = UNDEF if v is UNDEF else v[i]
        fr.regs[ins[1]] = v
        fr.idx += 1

    def i_insertvalue(self, s, fr, ins):
        agg, x = self.val(fr, ins[3][0]), self.val(fr, ins[3][1])

        def rec(a, t, idx):
            n = t.n
            a = [UNDEF] * n if a is UNDEF else list(a)
            i = idx[0]
            if len(idx) == 1:
                a[i] = x
            else:
                a[i] = rec(a[i], t.els[i] if t.kind == 'struct' else t.el, idx[1:])
            return a
        fr.regs[ins[1]] = rec(agg, ins[2], ins[4])
        fr.idx += 1

    def i_extractelement(self, s, fr, ins):
        v, i = self.val(fr, ins[3][0]), self.val(fr, ins[3][1])
        if not isinstance(i, int):
            raise Unsupported('extractelement')
        fr.regs[ins[1]] = UNDEF if v is UNDEF else v[i]
        fr.idx += 1

    def i_insertelement(self, s, fr, ins):
        v, x, i = [self.val(fr, o) for o in ins[3]]
        if not isinstance(i, int):
            raise Unsupported('insertelement')
        v = [UNDEF] * ins[2].n if v is UNDEF else list(v)
        v[i] = x
        fr.regs[ins[1]] = v
        fr.idx += 1

    def i_shufflevector(self, s, fr, ins):
        _, d, t, ops, m, t0 = ins
        a, b = self.val(fr, ops[0]), self.val(fr, ops[1])
        n = t0.n
        a = [UNDEF] * n if a is UNDEF else a
        b = [UNDEF] * n if b is UNDEF else b
        src = list(a) + list(b)
        fr.regs[d] = [UNDEF if k < 0 else src[k] for k in m]
        fr.idx += 1

    def i_fence(self, s, fr, ins):
        fr.idx += 1

    def i_landingpad(self, s, fr, ins):
        exc, tn = s.exc
        sel = 0
        for c in ins[3]:
            if c[0] == 'null':
                sel = 1
                break
            if c[0] == 'global':
                if c[1] in self.bases(tn):
                    sel = self.tid(c[1])
                    break
        fr.regs[ins[1]] = [exc, sel]
        fr.idx += 1

    def tid(self, name):
        ks = sorted(n for n in self.m.globals if n.startswith('_ZTI'))
        return 100 + (ks.index(name) if name in ks else 0)

    def bases(self, tn):
        """type-info names tn derives from (including itself)"""
        out, todo = set(), [tn]
        while todo:
            n = todo.pop()
            if n in out:
                continue
            out.add(n)
            g = self.m.globals.get(n)
            if g and not llvmir.IsDecl(g):
                c = self.m.const(llvmir.GInit(g))
                if c[0] == 'agg':
                    for e in c[1][2:]:
                        if e[0] == 'global' and e[1].startswith('_ZTI'):
                            todo.append(e[1])
            elif n != '_ZTISt9exception':
                todo.append('_ZTISt9exception')     # library exceptions derive from std::exception
        return out

    def throw(self, s, exc, tn):
        s.exc = (exc, tn)
        while s.frames:
            fr = s.frames[-1]
            c = fr.call if fr.call is not None else fr.f.blocks[fr.blk][fr.idx]
            if c[0] == 'invoke':
                ud = c[8]
                lp = fr.f.blocks[ud]
                i = next((x for x in lp if x[0] == 'landingpad'), None)
                takes = i is None or i[4] or any(k[0] == 'null' or (k[0] == 'global' and k[1] in self.bases(tn))
                                                 for k in i[3])
                if takes:
                    fr.call = None
                    self.goto(fr, ud)
                    return
            fr.call = None
            self.pop(s, fr)
        raise PathEnd('uncaught', tn)

    def i_resume(self, s, fr, ins):
        exc, tn = s.exc
        # continue unwinding in the caller
        self.pop(s, fr)
        if not s.frames:
            raise PathEnd('uncaught', tn)
        self.throw(s, exc, tn)

    # ---------------------------------------------------------------- calls
    def i_call(self, s, fr, ins):
        op, d, t, callee, args, tys, byv, nd, ud = ins
        if callee[0] == 'c' and callee[1][0] == 'asm':
            raise Unsupported('inline asm')
        if callee[0] == 'c' and callee[1][0] == 'func':
            name = self.m.resolve(callee[1][1])
        else:
            p = self.val(fr, callee)
            if isinstance(p, PIte):
                p = p.a if self.decide(p.c) else p.b
            if not isinstance(p, Ptr) or p.obj == 0 or s.objs[p.obj].kind != 'func':
                self.mem_violation('call through an invalid function pointer')
            name = s.objs[p.obj].name
        av = [self.val(fr, a) for a in args]
        h = self.find_stub(name)
        if h is not None:
            r = h(s, fr, ins, av, tys, name)
            if r is CONTROL:
                return
            if t.kind != 'void':
                fr.regs[d] = r
            self.after_call(fr, ins)
            return
        if name not in self.m.defined:
            raise Unsupported('external function %s' % self.m.demangle(name))
        f = self.m.func(name)
        if len(s.frames) > 200:
            raise Budget('call depth')
        self.stats['functions'].add(name)
        for i, bt in enumerate(byv):
            if bt is not None:
                o = self.new_obj(s, bt.size, 'byval argument', 'stack')
                self.memcpy(Ptr(o.id, 0), av[i], bt.size)
                av[i] = Ptr(o.id, 0)
        fr.call = ins
        nf = Frame(f)
        for r, a in zip(f.param_regs, av):
            nf.regs[r] = a
        s.frames.append(nf)
    i_invoke = i_call

    # stubs -----------------------------------------------------------------
    def find_stub(self, name):
        if name in ("rand", "srand") and name in self.m.defined:
            return None
        h = _STUBS.get(name)
        if h is not None:
            return h.__get__(self)
        c = self.const_cache.get(name)
        if c is None:
            c = self._match_stub(name)
            self.const_cache[name] = c if c is not None else 0
        return c or None

    def _match_stub(self, name):
        if self.extra:
            h = self.extra(self, name)
            if h:
                return h
        if name in LIBM:
            return self.s_libm
        if name.startswith('llvm.'):
            for pre, h in _LLVM:
                if name.startswith(pre):
                    return h.__get__(self)
            return None
        if name.startswith('vp_'):
            h = getattr(self, 's_' + name, None)
            if h:
                return h
            return None
        dm = self.m.demangle(name)
        if dm.startswith('vmml::exception::exception(') or dm.startswith('vmml::exception::~exception('):
            return self.s_noop
        if dm.startswith('vmml::error_noexcept('):
            return self.s_abort
        if self.m.overrides:
            # the harness models the streams: nothing else is skipped
            if dm.startswith('std::ios_base::Init::'):
                return self.s_noop
            if re.search(r'^(std::__throw_\w+)', dm):
                return self.s_throw_lib
            return None
        if name not in self.m.defined or re.match(r'^std::(__cxx11::)?basic_(string|ostringstream|stringstream|'
                                                  r'istringstream|ostream|istream|ios|stringbuf)<', dm) \
                or re.search(r'\bstd::(operator<<|operator>>|endl|flush|ws|setw|setprecision)\b', dm):
            if re.search(r'^(std::__throw_\w+)', dm):
                return self.s_throw_lib
            if re.match(r'^(std::|virtual thunk to std::|non-virtual thunk to std::|__gnu_cxx::|bool std::|'
                        r'char const\* std::|unsigned long std::|void std::)', dm) \
                    or re.search(r'\bstd::(basic_ostream|operator<<|__cxx11::basic_string|basic_string)', dm):
                if re.search(r'(string|stream|ios|locale|exception|error|logic|range|invalid_argument|allocator|setw|'
                             r'setprecision|endl|flush)', dm):
                    return self.s_noop
        return None

    def s_noop(self, s, fr, ins, av, tys, name):
        t = ins[2]
        if t.kind == 'ptr':
            return av[0] if av and isinstance(av[0], Ptr) else NULL
        if t.kind == 'void':
            return None
        return UNDEF

    def s_abort(self, s, fr, ins, av, tys, name):
        self.stats['obligations'] += 1
        self.on_check(self, s, z3.BoolVal(True), 'aborts: %s called in %s' % (self.m.demangle(name)[:80], fr.f.demangled[:160]),
                      'mem')
        raise PathEnd('abort')

    def s_throw_lib(self, s, fr, ins, av, tys, name):
        self.throw(s, NULL, '_ZTISt9exception')
        return CONTROL

    def s_libm(self, s, fr, ins, av, tys, name):
        f, w = LIBM[name]
        a = [self.undef_val(t) if v is UNDEF else v for v, t in zip(av, tys)]
        if tys and tys[0].kind == 'vector':
            raise Unsupported('vector libm')
        return self.dom.call(self, f, a, w)

    def s_memcpy(self, s, fr, ins, av, tys, name):
        self.memcpy(av[0], av[1], av[2])
        return av[0]

    def s_memset(self, s, fr, ins, av, tys, name):
        v = av[1]
        self.memset(av[0], v & 255 if isinstance(v, int) else self.trunc(v, tys[1].w, 8) if v is not UNDEF else v, av[2])
        return av[0]

    def s_memcmp(self, s, fr, ins, av, tys, name):
        return self.memcmp(av[0], av[1], av[2])

    def s_strlen(self, s, fr, ins, av, tys, name):
        return len(self.cstr(av[0]))

    def s_new(self, s, fr, ins, av, tys, name):
        n = self.concretize(av[0])
        if n > (1 << 24):
            raise Unsupported('huge allocation')
        return Ptr(self.new_obj(s, n, 'heap', 'heap').id, 0)

    def s_delete(self, s, fr, ins, av, tys, name):
        p = av[0]
        if isinstance(p, Ptr) and p.obj != 0:
            o = s.objs[p.obj]
            if not o.live:
                self.mem_violation('double free')
            o = self.wobj(s, o)
            o.live = False
            o.cells = {}
        return None

    def s_zero(self, s, fr, ins, av, tys, name):
        return 0

    def s_guard_acquire(self, s, fr, ins, av, tys, name):
        b = self.raw_get(s.objs[av[0].obj], av[0].off, 1)[0][2]
        if b == 1:
            return 0
        s.guard += 1
        return 1

    def s_guard_release(self, s, fr, ins, av, tys, name):
        s.guard -= 1
        o = self.wobj(s, s.objs[av[0].obj])
        self.put(o, av[0].off, 1, 1)
        return None

    def s_alloc_exc(self, s, fr, ins, av, tys, name):
        return Ptr(self.new_obj(s, max(av[0], 1), 'exception', 'heap').id, 0)

    def s_throw(self, s, fr, ins, av, tys, name):
        tn = s.objs[av[1].obj].name
        self.throw(s, av[0], tn)
        return CONTROL

    def s_begin_catch(self, s, fr, ins, av, tys, name):
        s.caught.append(s.exc)
        return av[0]

    def s_end_catch(self, s, fr, ins, av, tys, name):
        if s.caught:
            s.caught.pop()
        return None

    def s_rethrow(self, s, fr, ins, av, tys, name):
        e = s.caught[-1] if s.caught else s.exc
        self.throw(s, *e)
        return CONTROL

    def s_typeid(self, s, fr, ins, av, tys, name):
        return self.tid(s.objs[av[0].obj].name)

    def s_assert_fail(self, s, fr, ins, av, tys, name):
        self.stats['obligations'] += 1
        self.on_check(self, s, z3.BoolVal(True), 'assertion failure (abort) in ' + fr.f.demangled, 'mem')
        raise PathEnd('abort')

    def s_rand(self, s, fr, ins, av, tys, name):
        k = s.env.get('rand', 0)
        s.env = dict(s.env)
        s.env['rand'] = k + 1
        nm = 'rand_%d' % k
        if self.mode == 'real':
            v = z3.Int(nm)
            s.pc += [v >= 0, v <= 0x7fffffff]
        else:
            v = z3.BitVec(nm, 32)
            s.pc.append(z3.ULE(v, z3.BitVecVal(0x7fffffff, 32)))
        s.inputs[nm] = ('rand', v)
        return v

    def s_ignore(self, s, fr, ins, av, tys, name):
        return 0 if ins[2].kind == 'int' else None

    def s_expect(self, s, fr, ins, av, tys, name):
        return av[0]

    def s_iabs(self, s, fr, ins, av, tys, name):
        v, w = av[0], ins[2].w
        if v is UNDEF:
            v = self.undef_val(tys[0])
        if isinstance(v, int):
            return abs(sx(v, w)) & mask(w)
        if isinstance(v, z3.ArithRef):
            return z3.If(v >= 0, v, -v)
        return z3.If(v < 0, -v, v)

    def s_objsize(self, s, fr, ins, av, tys, name):
        return mask(ins[2].w)           # unknown (min = false) as __builtin_object_size may always answer

    def s_bits(self, s, fr, ins, av, tys, name):
        """llvm.ctpop / ctlz / cttz / bswap / bitreverse / fshl / fshr"""
        w = ins[2].w
        op = name.split('.')[1]
        av = [self.undef_val(tys[0]) if v is UNDEF else v for v in av]
        V = [v if is_z3(v) else z3.BitVecVal(v, w) for v in (av if op in ('fshl', 'fshr') else av[:1])]
        bit = lambda i: z3.Extract(i, i, V[0])
        if op == 'ctpop':
            r = sum((z3.ZeroExt(w - 1, bit(i)) for i in range(1, w)), z3.ZeroExt(w - 1, bit(0)))
        elif op in ('ctlz', 'cttz'):
            r = z3.BitVecVal(w, w)
            for k in range(w - 1, -1, -1):
                i = w - 1 - k if op == 'ctlz' else k
                r = z3.If(bit(i) == 1, z3.BitVecVal(k, w), r)
        elif op == 'bswap':
            r = z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, V[0]) for i in range(w // 8)])
        elif op == 'bitreverse':
            r = z3.Concat(*[bit(i) for i in range(w)])
        else:
            n = z3.URem(V[2], z3.BitVecVal(w, w))
            r = (z3.If(n == 0, V[0], (V[0] << n) | z3.LShR(V[1], w - n)) if op == 'fshl'
                 else z3.If(n == 0, V[1], z3.LShR(V[1], n) | (V[0] << (w - n))))
        r = z3.simplify(r)
        return r.as_long() if z3.is_bv_value(r) else r

    def s_minmax(self, s, fr, ins, av, tys, name):
        a, b = av
        w = ins[2].w
        p = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[name.split('.')[1]]
        return self.fix_int(self.ite(self.icmp(p, a, b, w), a, b, ins[2]), ins[2])

    def s_overflow(self, s, fr, ins, av, tys, name):
        """llvm.{s,u}{add,sub,mul}.with.overflow and saturating forms are rare: value plus overflow flag"""
        a, b = av
        w = tys[0].w
        op = name.split('.')[1]
        sg, op = op[0] == 's', op[1:]
        if isinstance(a, int) and isinstance(b, int):
            x, y = (sx(a, w), sx(b, w)) if sg else (a, b)
            r = x + y if op == 'add' else x - y if op == 'sub' else x * y
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            return [r & mask(w), int(not lo <= r <= hi)]
        if a is UNDEF or b is UNDEF:
            return [UNDEF, UNDEF]
        A = a if is_z3(a) else z3.BitVecVal(a, w)
        B = b if is_z3(b) else z3.BitVecVal(b, w)
        e = 2 * w + 1
        ext = z3.SignExt if sg else z3.ZeroExt
        XA, XB = ext(e - w, A), ext(e - w, B)
        X = XA + XB if op == 'add' else XA - XB if op == 'sub' else XA * XB
        r = z3.simplify(z3.Extract(w - 1, 0, X))
        return [r, z3.simplify(ext(e - w, r) != X)]

    def s_isfpclass(self, s, fr, ins, av, tys, name):
        k = av[1]
        a = av[0]
        if a is UNDEF:
            a = self.undef_val(tys[0])
        if k == 3:
            return self.dom.isnan(a)
        if k == 0x204:
            return self.dom.isinf(a)
        if k == 0x1f8:
            n, i = self.dom.isnan(a), self.dom.isinf(a)
            if isinstance(n, int) and isinstance(i, int):
                return int(not (n or i))
            return z3.Not(z3.Or(zbool(n), zbool(i)))
        raise Unsupported('is.fpclass %s' % k)

    def s_isnan(self, s, fr, ins, av, tys, name):
        return self.ite_t(zb(self.dom.isnan(av[0])), 1, 0, ins[2])

    def s_isinf(self, s, fr, ins, av, tys, name):
        return self.ite_t(zb(self.dom.isinf(av[0])), 1, 0, ins[2])

    # ---- harness intrinsics
    def input(self, s, nm, kind, mk):
        if nm not in s.inputs:
            s.inputs[nm] = (kind, mk())
        return s.inputs[nm][1]

    def iname(self, av):
        b = self.cstr(av[0])
        i = av[1]
        if not isinstance(i, int):
            raise Unsupported('symbolic input name')
        i = sx(i & mask(32), 32)
        if self.cur.again:
            b = '2~' + b
        return b if i < 0 else '%s_%d' % (b, i)

    def s_vp_f32(self, s, fr, ins, av, tys, name):
        nm = self.iname(av)
        return self.input(s, nm, 'f32', lambda: self.dom.fresh(nm, 32))

    def s_vp_f64(self, s, fr, ins, av, tys, name):
        nm = self.iname(av)
        return self.input(s, nm, 'f64', lambda: self.dom.fresh(nm, 64))

    def special(self, s, nm, w):
        k = z3.BitVec(nm + '~k', 3)
        vals = (0.0, -0.0, 1.0, -2.0, 4.0, math.inf, -math.inf, math.nan)
        return tab_make({((0x7fc00000 if w == 32 else 0x7ff8000000000000) if v != v else f2bits(v, w)): k == i for i, v in enumerate(vals)}, w)

    def s_vp_sp_f32(self, s, fr, ins, av, tys, name):
        nm = self.iname(av)
        return self.input(s, nm, 'f32', lambda: self.special(s, nm, 32))

    def s_vp_sp_f64(self, s, fr, ins, av, tys, name):
        nm = self.iname(av)
        return self.input(s, nm, 'f64', lambda: self.special(s, nm, 64))

    def s_vp_i64(self, s, fr, ins, av, tys, name):
        nm = self.iname(av)
        return self.input(s, nm, 'i64', lambda: z3.BitVec(nm, 64))

    def s_vp_i32(self, s, fr, ins, av, tys, name):
        nm = self.iname(av)
        return self.input(s, nm, 'i32', lambda: z3.BitVec(nm, 32))

    def s_vp_i16(self, s, fr, ins, av, tys, name):
        nm = self.iname(av)
        return self.input(s, nm, 'i16', lambda: z3.BitVec(nm, 16))

    def s_vp_i8(self, s, fr, ins, av, tys, name):
        nm = self.iname(av)
        return self.input(s, nm, 'i8', lambda: z3.BitVec(nm, 8))

    def s_vp_bool(self, s, fr, ins, av, tys, name):
        nm = self.iname(av)
        v = self.input(s, nm, 'bool', lambda: z3.Bool(nm))
        return v if ins[2].w == 1 else z3.If(v, z3.BitVecVal(1, ins[2].w), z3.BitVecVal(0, ins[2].w))

    def s_vp_pick(self, s, fr, ins, av, tys, name):
        """an integer in [0, n): one path per value"""
        nm = self.iname(av)
        n = av[2]
        v = self.input(s, nm, 'i64', lambda: z3.BitVec(nm, 64))
        k = ('pick', nm)
        if k not in s.env:
            s.env = dict(s.env)
            s.env[k] = 1
            s.pc.append(z3.ULT(v, z3.BitVecVal(n, 64)))
        for i in range(n - 1):
            if self.decide(v == z3.BitVecVal(i, 64)):
                return i
        return n - 1

    def s_vp_assume(self, s, fr, ins, av, tys, name):
        c = av[0]
        if c is UNDEF:
            raise Unsupported('assume on undef')
        if isinstance(c, z3.BitVecRef):
            c = c != 0
        self.assume(c)
        return None

    def bcond(self, c):
        if c is UNDEF:
            return self.fresh_bool('undef')
        if isinstance(c, z3.BitVecRef):
            return c != 0
        return c

    def do_check(self, s, c, lab, kind, info=None):
        self.stats['obligations'] += 1
        s.checks += 1
        c = self.bcond(c)
        if isinstance(c, (int, bool)):
            if c:
                self.stats['proved'] += 1
                self.on_proved(lab)
                return
            self.on_check(self, s, z3.BoolVal(True), lab, kind, info)
            return
        if s.known.get(c.get_id(), (None,))[0] is True:
            self.stats['proved'] += 1
            self.on_proved(lab)
            return
        self.on_check(self, s, z3.Not(c), lab, kind, info)

    def on_proved(self, lab):
        self.labels[lab] = self.labels.get(lab, 0) + 1

    def s_vp_check(self, s, fr, ins, av, tys, name):
        self.do_check(s, av[0], self.cstr(av[1]), 'bool')
        return None

    def lab(self, av, k):
        i = av[k + 1]
        b = self.cstr(av[k])
        if isinstance(i, int):
            i = sx(i & mask(32), 32)
            return b if i < 0 else '%s[%d]' % (b, i)
        return b

    def _eq(self, s, fr, ins, av, tys, name):
        got, want = av[0], av[1]
        lab = self.lab(av, 2)
        w = tys[0].w
        if got is UNDEF:
            got = self.undef_val(tys[0])
        if want is UNDEF:
            raise Unsupported('oracle value undefined')
        c = self.dom.same(self, got, want)
        info = {'got': got, 'want': want, 'op': 'eq'}
        self.do_check(s, c, lab, 'eq', info)
        if self.mode == 'real' and isinstance(got, R) and isinstance(want, R) and name.endswith('f64') \
                and got.prec < 53 and want.prec >= 53:
            self.stats['obligations'] += 1
            self.on_check(self, s, z3.BoolVal(True), lab, 'prec', info)
        return None
    s_vp_eq_f32 = s_vp_eq_f64 = _eq

    def _le(self, s, fr, ins, av, tys, name):
        a, b = av[0], av[1]
        if a is UNDEF:
            a = self.undef_val(tys[0])
        c = self.dom.cmp(self, 'ole', a, b)
        self.do_check(s, c, self.lab(av, 2), 'le', {'got': a, 'want': b, 'op': 'le'})
        return None
    s_vp_le_f32 = s_vp_le_f64 = _le

    def s_vp_eq_i64(self, s, fr, ins, av, tys, name):
        got, want = av[0], av[1]
        if got is UNDEF:
            got = self.undef_val(tys[0])
        self.do_check(s, self.icmp('eq', got, want, 64), self.lab(av, 2), 'bool')
        return None

    def s_vp_mode(self, s, fr, ins, av, tys, name):
        return 1 if self.mode == 'real' else 0

    def s_vp_symbolic(self, s, fr, ins, av, tys, name):
        return 1

    def s_vp_live(self, s, fr, ins, av, tys, name):
        return sum(1 for o in s.objs.values() if o.kind == 'heap' and o.name == 'heap' and o.live)

    def s_vp_log(self, s, fr, ins, av, tys, name):
        return None


def isqrt(q):
    """the rational square root of q, or None"""
    x, y = math.isqrt(q.numerator), math.isqrt(q.denominator)
    return Fraction(x, y) if x * x == q.numerator and y * y == q.denominator else None


def zb(c):
    return int(c) if isinstance(c, bool) else c


class _IntIte:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class _Control:
    pass


CONTROL = _Control()


def parse_f80(s):
    # 0xK<20 hex digits>
    h = s[3:]
    se = int(h[:4], 16)
    m = int(h[4:], 16)
    sg = -1 if se >> 15 else 1
    e = se & 0x7fff
    if e == 0 and m == 0:
        return R(Fraction(0), Fraction(1), 64, 80)
    if e == 0x7fff:
        return RS('inf' if sg > 0 else '-inf', 80)
    return R(Fraction(sg * m) * (Fraction(2) ** (e - 16383 - 63)), Fraction(1), 64, 80)


E = Executor
_STUBS = {
    'memcpy': E.s_memcpy, 'memmove': E.s_memcpy, 'memset': E.s_memset, 'memcmp': E.s_memcmp, 'bcmp': E.s_memcmp,
    'strlen': E.s_strlen,
    '_Znwm': E.s_new, '_Znam': E.s_new, 'malloc': E.s_new, '_ZnwmRKSt9nothrow_t': E.s_new,
    '_ZdlPv': E.s_delete, '_ZdlPvm': E.s_delete, '_ZdaPv': E.s_delete, '_ZdaPvm': E.s_delete, 'free': E.s_delete,
    '__cxa_atexit': E.s_zero, '__cxa_guard_acquire': E.s_guard_acquire, '__cxa_guard_release': E.s_guard_release,
    '__cxa_guard_abort': E.s_guard_release,
    '__cxa_allocate_exception': E.s_alloc_exc, '__cxa_free_exception': E.s_delete, '__cxa_throw': E.s_throw,
    '__cxa_begin_catch': E.s_begin_catch, '__cxa_end_catch': E.s_end_catch, '__cxa_rethrow': E.s_rethrow,
    '__cxa_bad_cast': E.s_abort, '__clang_call_terminate': E.s_abort, '_ZSt9terminatev': E.s_abort,
    'abort': E.s_abort, 'exit': E.s_abort, '__assert_fail': E.s_assert_fail, '__cxa_pure_virtual': E.s_abort,
    'llvm.eh.typeid.for': E.s_typeid, 'llvm.eh.typeid.for.p0': E.s_typeid,
    'rand': E.s_rand, 'srand': E.s_ignore, 'time': E.s_zero, 'abs': E.s_iabs, 'labs': E.s_iabs, 'llabs': E.s_iabs,
    '__isnan': E.s_isnan, '__isnanf': E.s_isnan, '__isinf': E.s_isinf, '__isinff': E.s_isinf,
    'isnan': E.s_isnan, 'isinf': E.s_isinf,
}
_LLVM = [('llvm.memcpy.', E.s_memcpy), ('llvm.memmove.', E.s_memcpy), ('llvm.memset.', E.s_memset),
         ('llvm.lifetime.', E.s_ignore), ('llvm.dbg.', E.s_ignore), ('llvm.assume', E.s_ignore),
         ('llvm.experimental.noalias', E.s_ignore), ('llvm.stacksave', E.s_noop), ('llvm.stackrestore', E.s_ignore),
         ('llvm.expect.', E.s_expect), ('llvm.threadlocal.address', E.s_expect), ('llvm.launder', E.s_expect), ('llvm.strip', E.s_expect),
         ('llvm.abs.', E.s_iabs), ('llvm.smax', E.s_minmax), ('llvm.smin', E.s_minmax), ('llvm.umax', E.s_minmax),
         ('llvm.umin', E.s_minmax),
         ('llvm.umul.with.overflow', E.s_overflow), ('llvm.smul.with.overflow', E.s_overflow),
         ('llvm.uadd.with.overflow', E.s_overflow), ('llvm.sadd.with.overflow', E.s_overflow),
         ('llvm.usub.with.overflow', E.s_overflow), ('llvm.ssub.with.overflow', E.s_overflow), ('llvm.is.fpclass', E.s_isfpclass), ('llvm.trap', E.s_abort),
         ('llvm.invariant', E.s_noop), ('llvm.is.constant', E.s_zero), ('llvm.objectsize', E.s_objsize),
         ('llvm.prefetch', E.s_ignore), ('llvm.ctpop', E.s_bits), ('llvm.ctlz', E.s_bits), ('llvm.cttz', E.s_bits),
         ('llvm.bswap', E.s_bits), ('llvm.bitreverse', E.s_bits), ('llvm.fshl', E.s_bits), ('llvm.fshr', E.s_bits),
         ('llvm.donothing', E.s_ignore), ('llvm.ubsantrap', E.s_abort)]


# ------------------------------------------------------------------- solving
def _tac(mode):
    if mode == 'real':
        return z3.Then(z3.With('simplify', som=True), 'propagate-values', 'qfnra-nlsat')
    return None


def solve(cons, ms, mode, want_model=False):
    """portfolio; returns (result, model or None)"""
    cons = [c for c in cons if not z3.is_true(c)]
    if mode == 'fp':
        s = z3.Solver()
        s.set('timeout', int(ms))
        s.add(cons)
        r = s.check()
        return r, (s.model() if r == z3.sat and want_model else None)
    # real: short default attempt, then nlsat on the expanded form, then the default solver again
    plan = [('smt', min(ms, 400)), ('nlsat', ms), ('smt', ms)]
    for k, t in plan:
        try:
            if k == 'smt':
                s = z3.Solver()
            else:
                s = _tac('real').solver()
            s.set('timeout', int(t))
            s.add(cons)
            r = s.check()
            if r != z3.unknown:
                return r, (s.model() if r == z3.sat and want_model else None)
        except z3.Z3Exception:
            pass
    return z3.unknown, None

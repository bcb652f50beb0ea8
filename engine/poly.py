"""Polynomial normal forms over the reals: cancels identities before the solver is asked, and keeps sign facts.

Everything here is equality-preserving rewriting: v*v -> radicand for a square root v, sin^2 -> 1 - cos^2."""
import math
from fractions import Fraction
import z3

LIMIT = 6000


def isqrt(f):
    """exact rational square root or None"""
    f = Fraction(f)
    if f < 0:
        return None
    a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
    return Fraction(a, b) if a * a == f.numerator and b * b == f.denominator else None


class TooBig(Exception):
    pass


class Poly:
    def __init__(self):
        self.memo = {}
        self.atoms = {}      # id -> expr
        self.square = {}     # atom id -> poly of its square
        self.nonneg = set()
        self.nmemo = {}
        self.facts = {}
        self.epoch = 0
        self.lmemo = {}
        self.lvars = {}
        self.vmemo = {}
        self.rad = {}        # canonical key of a radicand -> (scale, root atom id)

    # ------------------------------------------------------------ arithmetic
    def add(self, a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + c * k
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return r

    def mono(self, a, b):
        d = dict(a)
        for x, e in b:
            d[x] = d.get(x, 0) + e
        return tuple(sorted(d.items()))

    def mul(self, a, b):
        if len(a) * len(b) > LIMIT * 4:
            raise TooBig()
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = self.mono(m, n)
                v = r.get(k, 0) + c * d
                if v == 0:
                    r.pop(k, None)
                else:
                    r[k] = v
        if self.square:
            r = self.reduce(r)
        if len(r) > LIMIT:
            raise TooBig()
        return r

    def reduce(self, p):
        while True:
            hit = None
            for m in p:
                for x, e in m:
                    if e >= 2 and x in self.square:
                        hit = (m, x, e)
                        break
                if hit:
                    break
            if not hit:
                return p
            todo = []
            r = {}
            for m, c in p.items():
                for x, e in m:
                    if e >= 2 and x in self.square:
                        rest = dict(m)
                        if e % 2:
                            rest[x] = 1
                        else:
                            del rest[x]
                        todo.append((tuple(sorted(rest.items())), c, x, e // 2))
                        break
                else:
                    r[m] = c
            for m, c, x, k in todo:
                q = {m: c}
                sq = self.square[x]
                for _ in range(k):
                    t = {}
                    if len(q) * len(sq) > LIMIT * 4:
                        raise TooBig()
                    for m1, c1 in q.items():
                        for m2, c2 in sq.items():
                            kk = self.mono(m1, m2)
                            v = t.get(kk, 0) + c1 * c2
                            if v == 0:
                                t.pop(kk, None)
                            else:
                                t[kk] = v
                    q = t
                r = self.add(r, q)
            p = r
            if len(p) > LIMIT:
                raise TooBig()

    # ------------------------------------------------------------ conversion
    def get(self, e):
        """z3 real term (or number) -> {monomial: coefficient}; raises TooBig"""
        if not isinstance(e, z3.ExprRef):
            f = Fraction(e)
            return {(): f} if f else {}
        i = e.get_id()
        r = self.memo.get(i)
        if r is not None:
            if r[0] is None:
                raise TooBig()
            return r[0]
        try:
            p = self._get(e)
        except TooBig:
            self.memo[i] = (None, e)
            raise
        self.memo[i] = (p, e)
        return p

    def _get(self, e):
        if z3.is_rational_value(e):
            f = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return {(): f} if f else {}
        if z3.is_int_value(e):
            f = Fraction(e.as_long())
            return {(): f} if f else {}
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in e.children():
                r = self.add(r, self.get(c))
            if len(r) > LIMIT:
                raise TooBig()
            return r
        if k == z3.Z3_OP_SUB:
            ch = e.children()
            r = self.get(ch[0])
            for c in ch[1:]:
                r = self.add(r, self.get(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return {m: -c for m, c in self.get(e.arg(0)).items()}
        if k == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in e.children():
                r = self.mul(r, self.get(c))
            return r
        if k == z3.Z3_OP_DIV:
            d = self.get(e.arg(1))
            if len(d) == 1 and () in d:
                f = 1 / d[()]
                return {m: c * f for m, c in self.get(e.arg(0)).items()}
        if k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)):
            x = Fraction(e.arg(1).numerator_as_long(), e.arg(1).denominator_as_long())
            if x.denominator == 1 and 0 < x <= 8:
                r = {(): Fraction(1)}
                b = self.get(e.arg(0))
                for _ in range(int(x)):
                    r = self.mul(r, b)
                return r
        i = e.get_id()
        self.atoms[i] = e
        return {((i, 1),): Fraction(1)}

    def set_square(self, atom, p, nonneg):
        i = atom.get_id()
        self.atoms[i] = atom
        self.square[i] = p
        if nonneg:
            self.nonneg.add(i)
        self.nmemo = {}
        self.lmemo = {}
        self.memo = {k: v for k, v in self.memo.items() if v[0] is not None and not any(x == i for m in v[0] for x, _ in m)}

    # ------------------------------------------------ exact division and square roots of polynomials
    @staticmethod
    def lead(p, order):
        """leading monomial in lexicographic order"""
        return max(p, key=lambda m: tuple(dict(m).get(x, 0) for x in order))

    def exact(self, p, q, limit=80):
        """p / q when q divides p, else None"""
        order = sorted({x for m in p for x, _ in m} | {x for m in q for x, _ in m})
        lq = self.lead(q, order)
        dq, cq = dict(lq), q[lq]
        p = dict(p)
        r = {}
        while p:
            lp = self.lead(p, order)
            d = dict(lp)
            for x, e in dq.items():
                if d.get(x, 0) < e:
                    return None
                d[x] -= e
            m = tuple(sorted((x, e) for x, e in d.items() if e))
            c = p[lp] / cq
            r[m] = c
            if len(r) > limit:
                return None
            for n, k in q.items():
                t = self.mono(m, n)
                v = p.get(t, 0) - c * k
                if v == 0:
                    p.pop(t, None)
                else:
                    p[t] = v
        return r

    def root(self, p, limit=24):
        """polynomial r with r * r == p, or None"""
        order = sorted({x for m in p for x, _ in m})
        lp = self.lead(p, order)
        c = isqrt(p[lp])
        if not c or any(e % 2 for _, e in lp):
            return None
        l0 = tuple((x, e // 2) for x, e in lp)
        r = {l0: c}
        rem = dict(p)
        del rem[lp]
        while rem:
            lm = self.lead(rem, order)
            d = dict(lm)
            for x, e in l0:
                if d.get(x, 0) < e:
                    return None
                d[x] -= e
            m = tuple(sorted((x, e) for x, e in d.items() if e))
            k = rem[lm] / (2 * c)
            if m in r or len(r) >= limit:
                return None
            # ( r + t )^2 = r^2 + 2 r t + t^2
            for n, v in list(r.items()) + [(m, k / 2)]:
                t = self.mono(n, m)
                w = rem.get(t, 0) - 2 * v * k
                if w == 0:
                    rem.pop(t, None)
                else:
                    rem[t] = w
            r[m] = k
        return r

    def content(self, p):
        """(g, p / g^2) with the largest monomial g such that g^2 divides p"""
        it = iter(p)
        g = dict(next(it))
        for m in it:
            d = dict(m)
            g = {x: min(e, d[x]) for x, e in g.items() if x in d}
        g = {x: e // 2 for x, e in g.items() if e >= 2}
        if not g:
            return None, p
        return tuple(sorted(g.items())), {tuple((x, e - 2 * g.get(x, 0)) for x, e in m if e > 2 * g.get(x, 0)): c
                                          for m, c in p.items()}

    def sqrt_parts(self, p, known):
        """r, q with p == r^2 q and r not constant; known: radicands met before.  None when there is no such split"""
        g, q = self.content(p)
        if g is not None:
            return {g: Fraction(1)}, q
        if len(p) < 2:
            return None
        r = self.root(p)
        if r is not None:
            return r, {(): Fraction(1)}
        if len(p) > 3:
            for k in known:
                if 1 < len(k) < len(p) and k is not p:
                    c = self.exact(p, k)
                    if c is None or len(c) < 2:
                        continue
                    r = self.root(c)
                    if r is not None:
                        return r, k
        return None

    def divide(self, n, d):
        """n / d as a term when d is (a constant times) a monomial that divides n"""
        try:
            q = self.get(d)
            if len(q) != 1:
                return None
            p = self.get(n)
        except TooBig:
            return None
        if len(p) > 60:
            return None
        (m, k), = q.items()
        r = {}
        for x, c in p.items():
            e = dict(x)
            for v, h in m:
                if e.get(v, 0) < h:
                    return None
                e[v] -= h
            r[tuple(sorted((v, h) for v, h in e.items() if h))] = c / k
        return self.term(r)

    def term(self, p):
        if not p:
            return z3.RealVal(0)
        out = []
        for m, c in sorted(p.items(), key=lambda t: str(t[0])):
            f = [self.atoms[v] for v, h in m for _ in range(h)]
            e = z3.Product(f) if len(f) > 1 else (f[0] if f else None)
            k = z3.Q(c.numerator, c.denominator)
            out.append(k if e is None else (e if c == 1 else (-e if c == -1 else k * e)))
        return z3.Sum(out) if len(out) > 1 else out[0]

    # ----------------------------------------------------------------- facts
    def canon(self, p):
        """(key, sign): p = positive * sign * canonical polynomial"""
        m0 = min(p)
        lead = p[m0]
        s = 1 if lead > 0 else -1
        return frozenset((m, c / lead) for m, c in p.items()), s

    def affine(self, p):
        """p = k * q + c with q canonical and free of a constant term: (key of q, k, c)"""
        q = {m: x for m, x in p.items() if m != ()}
        k = q[min(q)]
        return frozenset((m, x / k) for m, x in q.items()), k, p.get((), Fraction(0))

    def strip(self, p, facts):
        """(p / g, sign of g) for the largest monomial g that divides p and whose sign is known"""
        it = iter(p)
        m = next(it)
        if not m:
            return p, 1
        g = dict(m)
        for m in it:
            d = dict(m)
            g = {x: min(e, d[x]) for x, e in g.items() if x in d}
            if not g:
                return p, 1
        s, div = 1, {}
        for x, e in g.items():
            a = self.atom_sign(x, facts, 3)
            if a == {1}:
                div[x] = e
            elif a == {-1}:
                div[x] = e
                s *= -1 if e % 2 else 1
            elif 0 not in a and e >= 2:
                div[x] = e - e % 2
        if not div:
            return p, 1
        return {tuple((x, e - div.get(x, 0)) for x, e in m if e > div.get(x, 0)): c for m, c in p.items()}, s

    def signs(self, p, facts, depth=0):
        """possible signs of p as a set"""
        if len(p) > 1 and depth < 4:
            q, s = self.strip(p, facts)
            if q is not p:
                return {x * s for x in self.signs(q, facts, depth)}
        if not p:
            return {0}
        if len(p) == 1 and () in p:
            return {1 if p[()] > 0 else -1}
        key, sg = self.canon(p)
        out = {-1, 0, 1}
        f = facts.get(key)
        if f is not None:
            out = {x * sg for x in f}
            if len(out) == 1:
                return out
        if () in p:
            f = facts.get(('b',) + self.affine(p)[:1])
            if f is not None:
                _, k, c = self.affine(p)
                t = -c / k          # p = k * (q - t)
                lo, ls, hi, hs = f
                o = {-1, 0, 1}
                if lo is not None and (lo > t or (lo == t and ls)):
                    o = {1}
                elif lo is not None and lo == t:
                    o = {0, 1}
                if hi is not None and (hi < t or (hi == t and hs)):
                    o = {-1}
                elif hi is not None and hi == t:
                    o = o & {-1, 0}
                out = out & {x * (1 if k > 0 else -1) for x in o} or out
                if len(out) == 1:
                    return out
        if depth < 4:
            acc = {0}
            for m, c in p.items():
                t = {1 if c > 0 else -1}
                for x, e in m:
                    if e % 2 == 0 and x not in self.square:
                        a = {abs(v) for v in self.atom_sign(x, facts, depth)}
                    else:
                        a = self.atom_sign(x, facts, depth)
                        if e % 2 == 0:
                            a = {abs(v) for v in a}
                    t = {u * v for u in t for v in a}
                n = set()
                for u in acc:
                    for v in t:
                        if u == 0 or v == 0 or u == v:
                            n.add(u + v if u == 0 or v == 0 else u)
                        else:
                            n |= {-1, 0, 1}
                acc = n
                if len(acc) == 3:
                    break
            out = out & acc or out
        r = self.rad.get(key)
        if r is not None and sg * r[0] > 0 and depth < 4:
            out = out & {v for v in self.atom_sign(r[1], facts, depth + 1)} or out
        return out

    def atom_sign(self, x, facts, depth):
        k = frozenset({(((x, 1),), Fraction(1))})
        out = {-1, 0, 1}
        f = facts.get(k)
        if f is not None:
            out = set(f)
        if x in self.nonneg:
            out &= {0, 1}
            if depth < 3 and x in self.square and 0 in out and 1 in out:
                key, sg = self.canon(self.square[x]) if self.square[x] else (None, 1)
                q = facts.get(key)
                if q is not None:
                    out &= {abs(v) for v in q}
        return out or {-1, 0, 1}

    def shape(self, e, facts, depth=0):
        """possible signs of the term as written (a sum of squares is not negative)"""
        full = {-1, 0, 1}
        try:
            out = self.signs(self.get(e), facts)
        except TooBig:
            out = full
        if len(out) == 1 or depth > 40:
            return out
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD:
            acc = {0}
            for c in e.children():
                t = self.shape(c, facts, depth + 1)
                n = set()
                for u in acc:
                    for v in t:
                        if u == 0 or v == 0 or u == v:
                            n.add(v if u == 0 else u)
                        else:
                            n = full
                            break
                    if n is full:
                        break
                acc = n
                if acc is full or len(acc) == 3:
                    return out
            return out & acc or out
        if k == z3.Z3_OP_MUL:
            ch = e.children()
            if len(ch) == 2:
                same = ch[0].eq(ch[1])
                if not same:
                    try:
                        x, y = self.get(ch[0]), self.get(ch[1])
                        same = x == y
                        if not same and x == {m: -c for m, c in y.items()}:
                            return out & {-1, 0} or out
                    except TooBig:
                        pass
                if same:
                    return out & {abs(x) for x in self.shape(ch[0], facts, depth + 1)} or out
            acc = {1}
            for c in ch:
                t = self.shape(c, facts, depth + 1)
                acc = {u * v for u in acc for v in t}
            return out & acc or out
        if k == z3.Z3_OP_UMINUS:
            return {-x for x in self.shape(e.arg(0), facts, depth + 1)}
        return out

    # ------------------------------------------------------------- formulas
    OPS = {z3.Z3_OP_EQ: {0}, z3.Z3_OP_DISTINCT: {-1, 1}, z3.Z3_OP_LE: {-1, 0}, z3.Z3_OP_LT: {-1},
           z3.Z3_OP_GE: {0, 1}, z3.Z3_OP_GT: {1}}

    def atom(self, c):
        """comparison of reals -> (poly, set of signs for which it holds) or None"""
        if not z3.is_app(c) or c.num_args() != 2:
            return None
        ok = self.OPS.get(c.decl().kind())
        if ok is None or not z3.is_real(c.arg(0)):
            return None
        try:
            return self.add(self.get(c.arg(0)), self.get(c.arg(1)), -1), ok
        except TooBig:
            return None

    def decide(self, c, facts):
        """True / False when the normal form settles c, else None"""
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if not z3.is_app(c):
            return None
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            r = self.decide(c.arg(0), facts)
            return None if r is None else not r
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            dom = k == z3.Z3_OP_OR
            rs = [self.decide(x, facts) for x in c.children()]
            if any(r is dom for r in rs):
                return dom
            if all(r is (not dom) for r in rs):
                return not dom
            return None
        a = self.atom(c)
        if a is None:
            return None
        p, ok = a
        s = self.signs(p, facts)
        if not (s <= ok) and s & ok and len(s) > 1:
            for i in (0, 1):
                z = c.arg(1 - i)
                if z3.is_rational_value(z) and z.numerator_as_long() == 0:
                    t = self.shape(c.arg(i), facts)
                    if i:
                        t = {-x for x in t}
                    s = s & t or s
        if s <= ok:
            return True
        if not (s & ok):
            return False
        return None

    def norm(self, c, depth=0):
        """the same formula with every comparison of reals brought to normal form (definitions of roots stay as they are)"""
        i = c.get_id()
        r = self.nmemo.get(i)
        if r is not None:
            return r[0]
        r = c
        if z3.is_app(c) and c.num_args() and depth < 60:
            a = self.atom(c) if z3.is_bool(c) else None
            if a is not None:
                p = a[0]
                if p and len(p) <= 60:
                    k = c.decl().kind()
                    n = len(self.vars(c))
                    t = self.term(p)
                    z = z3.RealVal(0)
                    q = {z3.Z3_OP_EQ: lambda: t == z, z3.Z3_OP_DISTINCT: lambda: t != z, z3.Z3_OP_LE: lambda: t <= z,
                         z3.Z3_OP_LT: lambda: t < z, z3.Z3_OP_GE: lambda: t >= z, z3.Z3_OP_GT: lambda: t > z}[k]()
                    if len(self.vars(q)) < n:
                        r = q
            elif not z3.is_real(c):
                ch = c.children()
                nw = [self.norm(x, depth + 1) for x in ch]
                if any(not x.eq(y) for x, y in zip(ch, nw)):
                    r = c.decl()(*nw) if c.decl().arity() == len(nw) else self.rebuild(c, nw)
        self.nmemo[i] = (r, c)
        return r

    # ----------------------------------------------- linear abstraction: every monomial becomes a variable
    def lin(self, c, side, depth=0):
        """c with every monomial replaced by a variable; None when it cannot be expressed.  side collects definitions"""
        i = (c.get_id(), self.epoch)
        r = self.lmemo.get(i)
        if r is not None:
            for d in r[1]:
                side[d.get_id()] = d
            return r[0]
        loc = {}
        r = self._lin(c, loc, depth)
        self.lmemo[i] = (r, list(loc.values()), c)
        side.update(loc)
        return r

    def _lin(self, c, side, depth):
        if depth > 40 or not z3.is_app(c):
            return None
        if z3.is_bool(c):
            if not c.num_args():
                return c
            k = c.decl().kind()
            if k in self.OPS and c.num_args() == 2 and z3.is_real(c.arg(0)):
                a = self.atom(c)
                if a is None:
                    return None
                p = a[0]
                if len(p) > 2000:
                    return None
                if len(p) > 1:
                    p, s = self.strip(p, self.facts)
                    if s < 0:
                        p = {m: -x for m, x in p.items()}
                t = self.linterm(p, side, depth)
                z = z3.RealVal(0)
                return {z3.Z3_OP_EQ: lambda: t == z, z3.Z3_OP_DISTINCT: lambda: t != z, z3.Z3_OP_LE: lambda: t <= z,
                        z3.Z3_OP_LT: lambda: t < z, z3.Z3_OP_GE: lambda: t >= z, z3.Z3_OP_GT: lambda: t > z}[k]()
        elif z3.is_real(c):
            try:
                return self.linterm(self.get(c), side, depth)
            except TooBig:
                return None
        elif not c.num_args():
            return c
        ch = []
        for x in c.children():
            y = self.lin(x, side, depth + 1)
            if y is None:
                return None
            ch.append(y)
        k = c.decl().kind()
        if k == z3.Z3_OP_AND:
            return z3.And(*ch)
        if k == z3.Z3_OP_OR:
            return z3.Or(*ch)
        if k == z3.Z3_OP_ITE:
            return z3.If(*ch)
        if all(x.eq(y) for x, y in zip(ch, c.children())):
            return c
        if k in (z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ, z3.Z3_OP_IFF, z3.Z3_OP_XOR, z3.Z3_OP_DISTINCT) or \
                c.decl().arity() == len(ch):
            try:
                return c.decl()(*ch)
            except z3.Z3Exception:
                return None
        return z3.substitute(c, *[(x, y) for x, y in zip(c.children(), ch)])

    def linterm(self, p, side, depth):
        out = []
        for m, c in p.items():
            k = z3.Q(c.numerator, c.denominator)
            if not m:
                out.append(k)
                continue
            v = self.lvars.get(m)
            if v is None:
                v = self.lvars[m] = z3.Real('mono!%d' % len(self.lvars))
            t = {1}
            for x, e in m:
                a = self.atom_sign(x, self.facts, 3)
                if e % 2 == 0:
                    a = {abs(y) for y in a}
                t = {y * z for y in t for z in a}
            d = {(1,): v > 0, (-1,): v < 0, (0,): v == 0, (0, 1): v >= 0, (-1, 0): v <= 0,
                 (-1, 1): v != 0}.get(tuple(sorted(t)))
            if d is not None:
                side[d.get_id()] = d
            if len(m) == 1 and m[0][1] == 1:
                a = self.atoms[m[0][0]]
                if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
                    q = self.lin(a.arg(0), side, depth + 1)
                    if q is not None:
                        for g, arm in ((q, a.arg(1)), (z3.Not(q), a.arg(2))):
                            t = self.lin(arm, side, depth + 1)
                            if t is not None:
                                d = z3.Implies(g, v == t)
                                side[d.get_id()] = d
            out.append(v if c == 1 else k * v)
        return z3.Sum(out) if len(out) > 1 else (out[0] if out else z3.RealVal(0))

    def linear_unsat(self, cons, facts, ms=300):
        """True when the constraints are unsatisfiable already with the monomials as independent variables"""
        self.facts = facts
        self.epoch = hash(frozenset((k, v) for k, v in facts.items()
                                    if isinstance(k, frozenset) and len(k) == 1 and len(v) < 3))
        side, out = {}, []
        for c in cons:
            x = self.lin(c, side)
            if x is not None:
                out.append(x)
            elif c is cons[-1]:
                return False
        s = z3.Solver()
        s.set('timeout', ms)
        s.add(out)
        s.add(list(side.values()))
        return s.check() == z3.unsat

    def rebuild(self, c, ch):
        k = c.decl().kind()
        if k == z3.Z3_OP_AND:
            return z3.And(*ch)
        if k == z3.Z3_OP_OR:
            return z3.Or(*ch)
        return z3.substitute(c, *[(x, y) for x, y in zip(c.children(), ch) if not x.eq(y)])

    def vars(self, e):
        """ids of the uninterpreted constants in e"""
        i = e.get_id()
        r = self.vmemo.get(i)
        if r is None:
            if z3.is_app(e) and e.num_args() == 0:
                r = frozenset((i,)) if e.decl().kind() == z3.Z3_OP_UNINTERPRETED else frozenset()
            elif not z3.is_app(e):
                r = frozenset()
            else:
                r = frozenset().union(*[self.vars(x) for x in e.children()])
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    r = r | {e.decl().get_id() + (1 << 40)}
            self.vmemo[i] = (r, e)
            return r
        return r[0]

    def slice(self, cons):
        """the constraints connected to the last one through common variables"""
        vs = [self.vars(c) for c in cons]
        take = {len(cons) - 1}
        seen = set(vs[-1])
        todo = [i for i in range(len(cons) - 1)]
        while True:
            rest, hit = [], False
            for i in todo:
                if not vs[i] or vs[i] & seen:
                    seen |= vs[i]
                    take.add(i)
                    hit = True
                else:
                    rest.append(i)
            todo = rest
            if not hit:
                break
        return [cons[i] for i in sorted(take)]

    def learn(self, c, val, facts):
        if not z3.is_app(c):
            return
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            return self.learn(c.arg(0), not val, facts)
        if (k == z3.Z3_OP_AND and val) or (k == z3.Z3_OP_OR and not val):
            for x in c.children():
                self.learn(x, val, facts)
            return
        a = self.atom(c)
        if a is None:
            return
        p, ok = a
        if not p or (len(p) == 1 and () in p):
            return
        if not val:
            ok = {-1, 0, 1} - ok
        if len(p) > 1:
            p, s = self.strip(p, facts)
            ok = {x * s for x in ok}
        key, sg = self.canon(p)
        ok = {x * sg for x in ok}
        o = facts.get(key)
        n = ok if o is None else (set(o) & ok)
        if n:
            facts[key] = frozenset(n)
            n = {x * sg for x in n}
            if n <= {0, 1} or n <= {-1, 0}:
                kk, k, c = self.affine(p)
                t = -c / k
                up = (n <= {0, 1}) == (k > 0)      # q >= t or q <= t
                strict = 0 not in n
                lo, ls, hi, hs = facts.get(('b', kk), (None, False, None, False))
                if n == {0}:
                    lo = hi = t
                    ls = hs = False
                elif up and (lo is None or t > lo or (t == lo and strict)):
                    lo, ls = t, strict
                elif not up and (hi is None or t < hi or (t == hi and strict)):
                    hi, hs = t, strict
                facts[('b', kk)] = (lo, ls, hi, hs)

"""Runs one harness symbolically and turns solver models into replayable input assignments."""
import json
import math
import os
import random
import select
import signal
import struct
import time
from fractions import Fraction
import z3
from .values import *
from . import sym


def frac(v):
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return Fraction(0)


def fl(x):
    try:
        return float(x)
    except OverflowError:
        return math.copysign(1e308, x)


def pycond(c, names):
    """a condition over inputs only, as a Python expression over v[...]; None if it mentions anything else"""
    bad = []

    def go(e):
        k = e.decl().kind()
        if z3.is_rational_value(e):
            return 'F(%d,%d)' % (e.numerator_as_long(), e.denominator_as_long()) if e.denominator_as_long() != 1 \
                else '(%d)' % e.numerator_as_long()
        if z3.is_const(e) and k == z3.Z3_OP_UNINTERPRETED:
            if e.decl().name() not in names:
                bad.append(1)
            return 'v[%r]' % e.decl().name()
        op = {z3.Z3_OP_ADD: '+', z3.Z3_OP_MUL: '*', z3.Z3_OP_SUB: '-', z3.Z3_OP_LE: '<=', z3.Z3_OP_GE: '>=', z3.Z3_OP_LT: '<',
              z3.Z3_OP_GT: '>', z3.Z3_OP_EQ: '==', z3.Z3_OP_AND: ' and ', z3.Z3_OP_OR: ' or '}.get(k)
        a = [go(x) for x in e.children()]
        if k == z3.Z3_OP_NOT:
            return '(not %s)' % a[0]
        if k == z3.Z3_OP_UMINUS:
            return '(-%s)' % a[0]
        if k == z3.Z3_OP_TRUE:
            return 'True'
        if k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)) and e.arg(1).denominator_as_long() == 1:
            return '(%s**%s)' % tuple(a)
        if op is None or not a:
            bad.append(1)
            return '0'
        return '(' + op.join(a) + ')'
    r = go(c)
    return None if bad or len(r) > 20000 else r.replace('F(', 'Fraction(')


class Harness:
    def __init__(self, module, state0, name, opts, report=None):
        self.report = report
        self.m, self.s0, self.name = module, state0, name
        self.mode = 'fp' if '_fp_' in name else 'real'
        self.ex = sym.Executor(module, self.mode, opts)
        self.ex.on_check = self.on_check
        self.ex.on_end = self.on_end
        self.violations = []
        self.undecided = []
        self.witnesses = []
        self.proved_s = 0
        self.samples = []
        self.viol_labels = {}
        self.unknown_bool = []
        self.rnd = random.Random(opts.get('seed', 1))
        self.soft_labels = {}
        self.soft_memo = {}
        self.t0 = time.time()

    # ----------------------------------------------------------- obligations
    def on_check(self, ex, s, bad, lab, kind, info=None):
        if kind == 'prec':
            # the value is mathematically right but passed through a narrower format
            self.candidates(s, [], lab, 'prec', info)
            return
        # a non-finite value of the exact model may be a finite one of the format, and such a candidate need
        # not reproduce: it must not use up the attempts of the finite ones
        odd = bool(info) and any(type(info.get(k)).__name__ == 'RS' for k in ('got', 'want'))
        if self.viol_labels.get((lab, odd), 0) >= 2:
            self._continue(s, bad)
            return
        ms = ex.o['query_ms']
        if self.mode == 'real' and ex.poly.decide(bad, s.facts) is False:
            ex.stats['normal_form'] = ex.stats.get('normal_form', 0) + 1
            r, m = z3.unsat, None
        else:
            ite = self.mode == 'real' and kind != 'mem' and self._has_ite(bad)
            r, m = ex.check_sat(s.pc + [bad], min(ms, 3000) if ite else ms, True)
            if r == z3.unknown and ite:
                r, m = self.by_cases(s, bad, ms)
                if r == z3.unsat:
                    ex.stats['by_cases'] = ex.stats.get('by_cases', 0) + 1
                elif r == z3.unknown:
                    r, m = ex.check_sat(s.pc + [bad], ms, True)
        exact = []
        if r == z3.sat and ex.o.get('absfp') == 2:
            # not excluded by the bounds of the abstracted operations: now with their exact meaning
            exact = [c for k, c in ex.__dict__.get('absfp_exact', {}).items() if k in s.defs]
            r, m = ex.check_sat(s.pc + exact + [bad], ms, True)
        if r == z3.unsat:
            ex.stats['proved'] += 1
            ex.on_proved(lab)
            if len(self.samples) < 2:
                self.samples.append({'harness': self.name, 'obligation': lab, 'path_constraints': len(s.pc),
                                     'verdict': 'unsat (holds)'})
            ng = z3.Not(bad)
            s.known[bad.get_id()] = (False, bad)
            if z3.is_not(bad):
                s.known[bad.arg(0).get_id()] = (True, bad.arg(0))
            return
        if r == z3.unknown:
            a0 = self.isolated(lambda emit: self.concretised(s, bad, emit), 25)
            if not a0:
                self.undecided.append(lab)
                self.soft(s, lab, kind, info)
                self.progress()
                return
            m = a0[0]
        elif m is not None:
            m = self.assignment(s, m)
        self.viol_labels[lab, odd] = self.viol_labels.get((lab, odd), 0) + 1
        self.candidates(s, [bad] + exact, lab, kind, info, m)
        self.soft(s, lab, kind, info)
        self.progress()
        if len([v for v in self.violations if not v.get('soft')]) >= ex.o['stop_violations']:
            raise sym.Budget('violations')
        self._continue(s, bad)

    def by_cases(self, s, bad, ms):
        """an undecided query over if-then-else terms: one query per combination of their conditions"""
        def conds(t, seen, out):
            if t.get_id() in seen or len(out) > 4:
                return
            seen.add(t.get_id())
            if z3.is_app_of(t, z3.Z3_OP_ITE) and not z3.is_bool(t):
                c = t.arg(0)
                while z3.is_not(c):
                    c = c.arg(0)
                if all(not c.eq(o) for o in out):
                    out.append(c)
            for k in t.children():
                conds(k, seen, out)
        end = time.time() + 2 * ms / 1000.0

        def go(pc, b, depth):
            if time.time() > end or time.time() - self.t0 > 0.9 * self.ex.o['time']:
                return z3.unknown, None
            cs = []
            conds(b, set(), cs)
            # innermost condition first: it has no if-then-else of its own
            cs = [c for c in cs if not self._has_ite(c)]
            if not cs or depth >= 4:
                if depth == 0:
                    return z3.unknown, None
                return self.ex.check_sat(pc + [b], ms // 4, True)
            c = cs[0]
            res = z3.unsat
            for v in (True, False):
                lit = c if v else z3.Not(c)
                if self.ex.check_sat(pc + [lit], 1000) == z3.unsat:
                    continue
                sub = [(c, z3.BoolVal(v))]
                r, m = go([z3.simplify(z3.substitute(x, sub)) if self._mentions(x, c) else x for x in pc] + [lit],
                          z3.simplify(z3.substitute(b, sub)), depth + 1)
                if r == z3.sat:
                    return r, m
                if r == z3.unknown:
                    res = r
            return res, None
        return go(list(s.pc), bad, 0)

    @staticmethod
    def _has_ite(t):
        st, seen = [t], set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                return True
            st += x.children()
        return False

    @staticmethod
    def _mentions(t, c):
        st, seen = [t], set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.eq(c):
                return True
            st += x.children()
        return False

    def _continue(self, s, bad):
        if z3.is_true(bad):
            return
        r = self.ex.check_sat(s.pc + [z3.Not(bad)], 3000)
        if r == z3.unsat:
            raise sym.PathEnd('violated')
        s.pc.append(z3.Not(bad))

    def inputs_z3(self, s):
        out = []
        for nm, (kind, v) in s.inputs.items():
            if isinstance(v, FB):
                out.append((nm, kind, v.b))
            elif isinstance(v, R):
                out.append((nm, kind, v.n))
            else:
                out.append((nm, kind, v))
        return out

    def progress(self):
        """what is known so far, in case the solver never comes back"""
        if self.report is not None:
            self.report({'harness': self.name, 'mode': self.mode, 'violations': self.violations,
                         'undecided': self.undecided + ['time limit'], 'witnesses': [], 'partial': True})

    def isolated(self, fn, secs):
        """run fn in a child process with a hard limit (the solver does not always obey its own);
        returns the list of what fn emitted"""
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                fn(lambda x: os.write(wr, (json.dumps(x) + '\n').encode()))
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(wr)
        end = time.time() + secs
        t = time.time()
        buf = b''
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([rd], [], [], left)[0]:
                break
            x = os.read(rd, 1 << 16)
            if not x:
                break
            buf += x
        os.close(rd)
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        self.ex.stats['solver_s'] += time.time() - t
        return [json.loads(l) for l in buf.decode().split('\n')[:-1] if l]

    def concretised(self, s, bad, emit):
        """the query was too hard: decide it with most inputs fixed (a smaller stated bound)"""
        ins = [(nm, k, v) for nm, k, v in self.inputs_z3(s) if is_z3(v)]
        if self.mode == 'real':
            ins = [x for x in ins if x[1] in ('f32', 'f64')]
        end = time.time() + 15
        for t in range(12):
            if time.time() > end:
                break
            keep = 1 + (t % 3)
            self.rnd.shuffle(ins)
            fix = []
            for nm, k, v in ins[keep:]:
                if self.mode == 'real':
                    fix.append(v == z3.Q(self.rnd.randint(-12, 12), 4))
                elif k in ('f32', 'f64'):
                    w = 32 if k == 'f32' else 64
                    fix.append(v == z3.BitVecVal(f2bits(self.rnd.randint(-12, 12) / 4.0, w), w))
                elif isinstance(v, z3.BitVecRef):
                    fix.append(v == z3.BitVecVal(self.rnd.randint(0, 8), v.size()))
            r, m = self.ex.check_sat(s.pc + [bad] + fix, 2000, True)
            if r == z3.sat:
                emit(self.assignment(s, m))
                return

    def soft(self, s, lab, kind, info):
        """the solver could not decide this obligation: let it produce generic inputs of this path, which
        the native replay then judges (two of them have to fail; otherwise it stays undecided)"""
        if self.mode != 'real' or kind == 'mem' or self.soft_labels.get(lab, 0) >= 2:
            return
        if time.time() - self.t0 > 0.8 * self.ex.o['time']:
            return
        self.soft_labels[lab] = self.soft_labels.get(lab, 0) + 1
        key = tuple(c.get_id() for c in s.pc)
        cands = self.soft_memo.get(key)
        if cands is None:
            cands = self.isolated(lambda emit: self.generic(s, emit), 15)
            self.soft_memo[key] = cands
        if len(cands) < 2:
            return
        got = info.get('got') if info else None
        tol = 2e-3 if getattr(got, 'w', 32) == 32 else 1e-5
        self.violations.append({'harness': self.name, 'label': lab, 'kind': kind, 'soft': True,
                                'candidates': [{'inputs': a, 'tol': tol} for a in cands],
                                'trace': [f.f.demangled[:160] for f in s.frames]})

    def generic(self, s, emit):
        ins = self.inputs_z3(s)
        fl_ = [x for x in ins if is_z3(x[2]) and x[1] in ('f32', 'f64')]
        names = [v.decl().name() for nm, k, v in fl_]
        tests = [f for f in (pycond(c, set(names)) for c in s.pc) if f]
        code = compile(' and '.join(tests) or 'True', 'pc', 'eval')
        n = 0
        end = time.time() + 14
        while n < 4 and time.time() < end:
            for t in range(3000):
                sc = self.rnd.choice((1, 1, 4, 16))
                vals = {nm: Fraction((2 * self.rnd.randint(-32, 31) + 1) * self.rnd.choice((1, sc)), 64) for nm in names}
                if eval(code, {'v': vals, 'Fraction': Fraction}):
                    break
            fix = [v == zr(vals[v.decl().name()]) for nm, k, v in fl_]
            for nm, k, v in ins:
                if isinstance(v, z3.BitVecRef):
                    fix.append(v == z3.BitVecVal(self.rnd.getrandbits(v.size()), v.size()))
                elif isinstance(v, z3.ArithRef) and v.is_int():
                    fix.append(v == z3.IntVal(self.rnd.getrandbits(31)))
            r, m = self.ex.check_sat(s.pc + fix, 1500, True)
            if r == z3.sat:
                emit(self.assignment(s, m))
                n += 1

    # ------------------------------------------------------------ candidates
    def candidates(self, s, cons, lab, kind, info, m0=None):
        cands = self.isolated(lambda emit: self.refine(s, cons, kind, info, emit), 30)
        if m0 is not None:
            real = self.mode == 'real'
            cands.append([m0, 1e-4 if real else 0])
        seen, out = set(), []
        for a, t in cands:
            k = (tuple(sorted(a.items())), t)
            if k not in seen:
                seen.add(k)
                out.append({'inputs': a, 'tol': t})
        self.violations.append({'harness': self.name, 'label': lab, 'kind': kind, 'candidates': out,
                                'trace': [f.f.demangled[:160] for f in s.frames]})

    def margins(self, cons, eps):
        """both sides of every comparison of reals are kept apart, so that rounding cannot change a decision of the model"""
        seen, out = set(), []
        todo = list(cons)
        while todo:
            e = todo.pop()
            if e.get_id() in seen or not z3.is_expr(e):
                continue
            seen.add(e.get_id())
            k = e.decl().kind()
            if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
                a, b = e.children()
                if a.is_real() and not z3.is_rational_value(a) or b.is_real() and not z3.is_rational_value(b):
                    out.append(z3.Or(a + eps <= b, b + eps <= a))
                    if len(out) > 400:
                        return []
            todo += e.children()
        return out

    def refine(self, s, cons, kind, info, emit):
        ex = self.ex
        end = time.time() + 20
        cands = []
        ins = self.inputs_z3(s)
        real = self.mode == 'real'
        box = []
        if real:
            for nm, k, v in ins:
                if k in ('f32', 'f64'):
                    box += [v <= 16, v >= -16]
            if box and ex.check_sat(s.pc + box, 2000) == z3.unsat:
                box = []                # the harness asks for larger values

        # a difference below the rounding error of the format proves nothing
        got = info.get('got') if info else None
        floor = (1e-4 if getattr(got, 'w', 64) == 32 else 1e-9) if real and kind != 'prec' else 0

        def add(m, tol, extra):
            tol = max(tol, floor)
            cands.append(0)
            emit([self.assignment(s, m), tol])

        if kind == 'prec':
            for seed in range(3):
                fix = []
                rnd = random.Random(seed + 17)
                for nm, k, v in ins:
                    if k in ('f32', 'f64'):
                        fix.append(v == zr(Fraction(rnd.uniform(0.3, 7.7) * (1 if seed == 0 else rnd.choice([1, -1])))))
                r, m = ex.check_sat(s.pc + fix, 3000, True)
                if r == z3.sat:
                    add(m, 1e-11, None)
            r, m = ex.check_sat(s.pc, 3000, True)
            if r == z3.sat:
                add(m, 1e-11, None)
        else:
            if real and info and info.get('op') in ('eq', 'le') and isinstance(info['got'], R) \
                    and isinstance(info['want'], R):
                g, w = info['got'], info['want']
                gd = zr(g.n) / zr(g.d) if is_z3(g.d) else zr(g.n) * zr(1 / Fraction(g.d))
                wd = zr(w.n) / zr(w.d) if is_z3(w.d) else zr(w.n) * zr(1 / Fraction(w.d))
                dv, wv = z3.Real('gap!d'), z3.Real('gap!w')
                defs = [dv == gd - wd, wv == wd]
                for gap in (Fraction(1, 2), Fraction(1, 20), Fraction(1, 1000), Fraction(1, 10 ** 6)):
                    if time.time() > end or len(cands) >= 2:
                        break
                    sc = gap * 1
                    lim = z3.Or(dv >= zr(gap) * (1 + wv), z3.BoolVal(False))
                    aw = z3.If(wv >= 0, wv, -wv)
                    cond = dv >= zr(gap) * (1 + aw)
                    if info['op'] == 'eq':
                        cond = z3.Or(cond, -dv >= zr(gap) * (1 + aw))
                    r, m = ex.check_sat(s.pc + defs + [cond] + box, 4000, True)
                    if r == z3.sat:
                        m2 = self.nicer(s, defs + [cond] + box, ins, m, end)
                        add(m2, float(gap) / 3, None)
                        add(m, float(gap) / 3, None)
            if real and not cands:
                for eps in (z3.Q(1, 8), z3.Q(1, 512)):
                    mg = self.margins(s.pc + cons, eps)
                    r, m = ex.check_sat(mg + s.pc + cons + box, 5000, True) if mg and time.time() < end else (None, None)
                    if r == z3.sat:
                        m2 = self.nicer(s, mg + cons + box, ins, m, time.time() + 5)
                        add(m2, 1e-4, None)
                        add(m, 1e-4, None)
                        break
            if real and not cands:
                # one array of inputs stays free, the others get numbers
                fl_ = [(nm.rstrip('0123456789[]._'), v) for nm, k, v in ins if is_z3(v) and k in ('f32', 'f64')]
                groups = sorted({g for g, _ in fl_}, key=lambda g: sum(1 for h, _ in fl_ if h == g))
                rnd = random.Random(5)
                mg = self.margins(s.pc + cons, z3.Q(1, 64))
                until = min(end, time.time() + 9)
                for t in range(40):
                    if time.time() > until or len(groups) < 2 or len(cands) >= 2:
                        break
                    free = groups[t % len(groups)]
                    fix = [v == z3.Q(rnd.randint(-12, 12) or 1, rnd.choice((1, 2))) for g, v in fl_ if g != free]
                    r, m = ex.check_sat(mg + fix + s.pc + cons + box, 700, True)
                    if r == z3.sat:
                        add(m, 1e-4, None)
            if time.time() < end:
                r, m = ex.check_sat(s.pc + cons + box, 3000, True)
                if r == z3.sat:
                    m2 = self.nicer(s, cons + box, ins, m, end)
                    add(m2, 1e-4 if real else 0, None)
                    add(m, 1e-4 if real else 0, None)
                    if real:
                        add(m2, 1e-9, None)

    def nicer(self, s, cons, ins, m, end):
        """move the inputs of a model to small integers where the violation survives"""
        fix = []
        best = m
        for nm, k, v in ins:
            if time.time() > end or not is_z3(v) or k not in ('f32', 'f64') or self.mode != 'real':
                continue
            cur = frac(best.eval(v, model_completion=True))
            tries = []
            for q in (Fraction(round(cur)), Fraction(round(cur * 2), 2), Fraction(1), Fraction(2), Fraction(round(cur * 64), 64)):
                if q not in tries:
                    tries.append(q)
            for q in tries[:4]:
                r, m2 = self.ex.check_sat(s.pc + cons + fix + [v == zr(q)], 700, True)
                if r == z3.sat:
                    fix.append(v == zr(q))
                    best = m2
                    break
        return best

    def assignment(self, s, m):
        """model -> {input: hex bits}"""
        out = {}
        ang = {}
        if self.mode == 'real':
            names = {nm for nm in s.inputs}
            for lf, c, sn, co, _ in self.ex.trig:
                if len(lf) != 1:
                    continue
                (coef, atom), = lf.values()
                if z3.is_const(atom) and atom.decl().name() in names:
                    sv = frac(m.eval(zr(sn.n) if not is_z3(sn.d) else sn.n / sn.d, model_completion=True))
                    cv = frac(m.eval(zr(co.n) if not is_z3(co.d) else co.n / co.d, model_completion=True))
                    if sv == 0 and cv == 0:
                        continue
                    th = (math.atan2(sv, cv) - float(c)) / float(coef)
                    nm = atom.decl().name()
                    if nm not in ang or abs(coef) < ang[nm][0]:
                        ang[nm] = (abs(coef), th)
        for nm, (kind, v) in s.inputs.items():
            if isinstance(v, FB):
                x = m.eval(v.b, model_completion=True).as_long()
            elif isinstance(v, R):
                w = 32 if kind == 'f32' else 64
                f = ang[nm][1] if nm in ang else fl(frac(m.eval(zr(v.n), model_completion=True)))
                x = f2bits(f, w)
            else:
                e = m.eval(v, model_completion=True)
                if z3.is_bool(e):
                    x = int(z3.is_true(e))
                else:
                    x = e.as_long() & ((1 << 64) - 1)
            out[nm] = '%x' % x
        return out

    # --------------------------------------------------------------- witness
    def on_end(self, ex, s, kind, info):
        if kind == 'uncaught':
            # an exception the harness does not expect
            self.ex.stats['obligations'] += 1
            self.on_check(ex, s, z3.BoolVal(True), 'unexpected exception (%s)' % info, 'mem')
            return
        if kind != 'ok' or len(self.witnesses) >= ex.o.get('witnesses', 2):
            return
        if ex.stats['paths'] > 40 and self.witnesses:
            return
        ins = self.inputs_z3(s)
        fix = []
        r = z3.unknown
        if self.mode == 'real':
            fix = [v == z3.Q(self.rnd.randint(-15, 15) or 3, 4) for nm, k, v in ins if k in ('f32', 'f64')]
            r, m = ex.check_sat(s.pc + fix, 1500, True)
            if r != z3.sat:
                mg = self.margins(s.pc, z3.Q(1, 8))
                if mg:
                    r, m = ex.check_sat(mg + s.pc, 1500, True)
        if r != z3.sat:
            r, m = ex.check_sat(s.pc, 4000, True)
        if r == z3.sat:
            self.witnesses.append(self.assignment(s, m))

    def hang(self, s):
        # the path the budget ran out on may never end: the real code is run on it, only a run that does not come back counts
        try:
            self.ex.deadline = None
            r, m = self.ex.check_sat(s.pc, 4000, True)
            if r == z3.sat:
                self.violations.append({'harness': self.name, 'label': 'the call returns', 'kind': 'hang',
                                        'candidates': [{'inputs': self.assignment(s, m), 'tol': 0}],
                                        'trace': [f.f.demangled[:160] for f in s.frames]})
        except (sym.Budget, z3.Z3Exception):
            pass

    def run(self):
        t = time.time()
        why = None
        try:
            self.ex.run(self.s0.clone(), self.name)
        except sym.Budget as e:
            why = str(e)
            if why != 'violations':
                self.undecided.append('budget: ' + why)
            if why in ('time', 'steps'):
                self.hang(self.ex.cur)
        except RecursionError:
            self.undecided.append('recursion')
        except z3.Z3Exception as e:
            self.undecided.append('solver exception: %s' % e)
        st = self.ex.stats
        st['functions'] = sorted(st['functions'])
        return {'harness': self.name, 'mode': self.mode, 'stats': st, 'violations': self.violations,
                'undecided': self.undecided + self.ex.undecided, 'witnesses': self.witnesses,
                'samples': self.samples, 'labels': self.ex.labels, 'wall': time.time() - t}

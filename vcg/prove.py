"""Discharging obligations.  Back ends: z3 simplifier, exact rational-function normaliser (poly.py),
z3 (nonlinear arithmetic, quantifiers), cvc5.  A failed obligation is only called refuted when a
concrete assignment has been found that an independent numeric evaluation confirms: every hypothesis
true, the goal false."""
import math, random, time, itertools
from fractions import Fraction
import z3
from . import poly
from .values import as_num, as_int, simp, I, R
from .interval import inside
from .symex import RANGES, subterms, range_facts, leaf_range, SQRT, SIN, COS
from .loops import SUMS, RECS, free_consts, free_funs, subs

RealS, IntS, BoolS = z3.RealSort(), z3.IntSort(), z3.BoolSort()


class Result:
    __slots__ = ('status', 'backend', 'time', 'why', 'model')

    def __init__(self, status, backend, t=0.0, why='', model=None):
        self.status, self.backend, self.time, self.why, self.model = status, backend, t, why, model


# ------------------------------------------------------------------ axioms
def axioms(terms):
    """instances of the trusted facts about sqrt, sin, cos and leaf ranges for the given terms"""
    out = []
    subsl = list(subterms(terms))
    bound = {}
    for t in subsl:
        if not z3.is_app(t) or t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            continue
        n = t.decl().name()
        if n == 'sqrt':
            a = t.arg(0)
            if _has_var(a):
                continue
            out.append(t >= 0)
            out.append(z3.Implies(a >= 0, t * t == a))
        elif n in ('sin', 'cos'):
            a = t.arg(0)
            if _has_var(a):
                continue
            s, c = SIN(a), COS(a)
            out.append(s * s + c * c == 1)
            out.append(z3.And(s >= -1, s <= 1, c >= -1, c <= 1))
        elif t.sort() == IntS and n in RANGES and not _has_var(t):
            out += leaf_range(t)
        elif n in SUMS and not _has_var(t):
            out += sum_axioms(t)
    return out


def _has_var(t):
    return any(z3.is_var(s) for s in subterms([t]))


def sum_axioms(t):
    S = SUMS[t.decl().name()]
    args = t.children()[:-1]
    k = t.children()[-1]
    out = [z3.Implies(k == 0, t == (0 if t.sort() == IntS else z3.RealVal(0)))]
    d = z3.substitute(S.delta, *([(S.k, k - 1)] + list(zip(S.args, args))))
    out.append(z3.Implies(k > 0, t == S.fn(*(args + [simp(k - 1)])) + d))
    if _nonneg(S.delta):
        out.append(z3.Implies(k >= 0, t >= 0))
    return out


def _nonneg(t):
    if z3.is_int_value(t) or z3.is_rational_value(t):
        return not (t.as_fraction() < 0 if z3.is_rational_value(t) else t.as_long() < 0)
    if z3.is_app(t):
        kd = t.decl().kind()
        if kd == z3.Z3_OP_ITE:
            return _nonneg(t.arg(1)) and _nonneg(t.arg(2))
        if kd in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
            return all(_nonneg(c) for c in t.children())
    return False


# ------------------------------------------------------------------ ite splitting
def first_ite_cond(t):
    seen, st = set(), [t]
    best = None
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            c = x.arg(0)
            inner = first_ite_cond(c)
            return inner if inner is not None else c
        st.extend(x.children())
    return None


def _negs(c):
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def set_cond(t, c, val):
    """replace condition c by its value"""
    b = z3.BoolVal(val)
    pairs = [(c, b)]
    # complementary comparisons
    if z3.is_app(c):
        k = c.decl().kind()
        a = c.children()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and len(a) == 2:
            x, y = a
            if k == z3.Z3_OP_LE:
                pairs += [(y >= x, b), (x > y, z3.BoolVal(not val)), (y < x, z3.BoolVal(not val))]
            elif k == z3.Z3_OP_GE:
                pairs += [(y <= x, b), (x < y, z3.BoolVal(not val)), (y > x, z3.BoolVal(not val))]
            elif k == z3.Z3_OP_LT:
                pairs += [(y > x, b), (x >= y, z3.BoolVal(not val)), (y <= x, z3.BoolVal(not val))]
            elif k == z3.Z3_OP_GT:
                pairs += [(y < x, b), (x <= y, z3.BoolVal(not val)), (y >= x, z3.BoolVal(not val))]
    return z3.substitute(t, *pairs)


def fold_ite(t):
    """z3.simplify may restructure; fold only constant ites"""
    memo = {}

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k][0]
        if z3.is_quantifier(x) or not x.children():
            r = x
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            c = z3.simplify(go(x.arg(0)))
            if z3.is_true(c):
                r = go(x.arg(1))
            elif z3.is_false(c):
                r = go(x.arg(2))
            else:
                a, b = go(x.arg(1)), go(x.arg(2))
                r = a if a.eq(b) else z3.If(c, a, b)
        else:
            ch = [go(c) for c in x.children()]
            if all(a.eq(b) for a, b in zip(ch, x.children())):
                r = x
            else:
                r = x.decl()(*ch) if x.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL) else _nary(x, ch)
        memo[k] = (r, x)
        return r
    return go(t)


def _nary(x, ch):
    k = x.decl().kind()
    if k == z3.Z3_OP_AND:
        return z3.And(*ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*ch)
    if k == z3.Z3_OP_ADD:
        return z3.Sum(ch)
    return z3.Product(ch)


# ------------------------------------------------------------------ solver back ends
def _solver(timeout):
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    return s


def z3_check(pc, goal, timeout, ax=True):
    s = _solver(timeout)
    allt = list(pc) + [goal]
    for t in pc:
        s.add(t)
    if ax:
        seen = set()
        terms = allt
        for _ in range(2):
            new = [a for a in axioms(terms) if a.get_id() not in seen]
            for a in new:
                seen.add(a.get_id())
                s.add(a)
            terms = new
            if not new:
                break
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unsat:
        return 'proved', None
    if r == z3.sat:
        return 'sat', s.model()
    return 'unknown', None


def z3_again(pc, goal, timeout=3.0, seeds=(1, 2, 3, 4)):
    """the same question in a fresh context and other random seeds: the search of the non-linear solver depends on the
    numbering of the terms, so a proof found in half a second can be missed in twenty"""
    ax = axioms(list(pc) + [goal])
    ax += axioms(ax)
    for seed in seeds:
        ctx = z3.Context()
        s = z3.Solver(ctx=ctx)
        s.set('timeout', int(timeout * 1000))
        s.set('random_seed', seed)
        ts = list(pc) + ax + [z3.Not(goal)]
        if seed % 2:
            ts.reverse()
        for t in ts:
            s.add(t.translate(ctx))
        try:
            r = s.check()
        except z3.Z3Exception:
            continue
        if r == z3.unsat:
            return True
        if r == z3.sat:
            return False
    return False


def abstract_atoms(terms):
    """replace uninterpreted applications of Real sort by constants (sound weakening for proving)"""
    m = {}

    def go(x):
        k = x.get_id()
        if k in m:
            return m[k][0]
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0 and not _has_var(x):
            r = z3.Const('atom!%d' % k, x.sort())
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL:
            r = z3.Const('atom!%d' % k, x.sort())
        elif z3.is_quantifier(x) or not x.children():
            r = x
        else:
            ch = [go(c) for c in x.children()]
            if all(a.eq(b) for a, b in zip(ch, x.children())):
                r = x
            else:
                k2 = x.decl().kind()
                r = _nary(x, ch) if k2 in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL) else x.decl()(*ch)
        m[k] = (r, x)
        return r
    return [go(t) for t in terms]


def nlsat_check(pc, goal, timeout):
    """pure real arithmetic with atoms abstracted"""
    terms = [t for t in pc if not z3.is_quantifier(t)]
    ax = []
    seen = set()
    cur = terms + [goal]
    for _ in range(2):
        new = [a for a in axioms(cur) if a.get_id() not in seen]
        seen |= {a.get_id() for a in new}
        ax += new
        cur = new
        if not new:
            break
    allt = abstract_atoms(terms + ax + [z3.Not(goal)])
    g = z3.Goal()
    for t in allt:
        if any(z3.is_int(s) for s in subterms([t])):
            if t is allt[-1]:
                return 'unknown'
            continue
        g.add(t)
    try:
        tac = z3.TryFor(z3.Then('simplify', 'purify-arith', 'propagate-values', 'solve-eqs', 'elim-term-ite', 'tseitin-cnf', 'qfnra-nlsat'), int(timeout * 1000))
        s = tac.solver()
        s.set('timeout', int(timeout * 1000))
        s.add(*[t for t in g])
        r = s.check()
    except z3.Z3Exception:
        return 'unknown'
    return 'proved' if r == z3.unsat else 'unknown'


def cvc5_check(pc, goal, timeout):
    import os, subprocess, tempfile
    s = z3.Solver()
    for t in pc:
        s.add(t)
    for a in axioms(list(pc) + [goal]):
        s.add(a)
    s.add(z3.Not(goal))
    txt = '(set-logic ALL)\n' + s.to_smt2()
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % int(timeout * 1000), '--nl-ext-tplanes', '-'], input=txt, capture_output=True, text=True, timeout=timeout + 5)
    except (OSError, subprocess.TimeoutExpired):
        return 'unknown'
    return 'proved' if p.stdout.strip().startswith('unsat') else 'unknown'


# ------------------------------------------------------------------ equalities
def equalities(pc):
    out = []
    for t in pc:
        for c in conjuncts(t):
            if z3.is_eq(c) and z3.is_arith(c.arg(0)):
                out.append((c.arg(0), c.arg(1)))
    return out


def conjuncts(t):
    if z3.is_and(t):
        return [x for c in t.children() for x in conjuncts(c)]
    return [t]


def poly_check(pc, goal, timeout=20):
    if not (z3.is_eq(goal) and z3.is_arith(goal.arg(0))):
        return None
    a, b = goal.arg(0), goal.arg(1)
    eqs = [e for e in equalities(pc) if not any(z3.is_app(s) and s.decl().kind() == z3.Z3_OP_ITE for s in subterms([e[0], e[1]]))]
    ok, divs = poly.prove_equal(a, b, eqs)
    if not ok:
        return False
    # side conditions: divisors are not zero
    seen = set()
    for d in divs:
        if d.get_id() in seen or as_num(d) is not None and as_num(d) != 0:
            continue
        seen.add(d.get_id())
        if not nonzero(pc, d, 10):
            return False
    for t in subterms([a, b]):
        if z3.is_app(t) and t.decl().name() == 'sqrt' and t.num_args() == 1:
            r, _ = quick(pc, t.arg(0) >= 0, 5)
            if r != 'proved' and not sumsq(t.arg(0)):
                return False
    return True


def sumsq(t):
    """syntactic sum of squares"""
    if as_num(t) is not None:
        return as_num(t) >= 0
    if z3.is_add(t):
        return all(sumsq(c) for c in t.children())
    if z3.is_mul(t):
        ch = t.children()
        if len(ch) == 2 and ch[0].eq(ch[1]):
            return True
        return all(sumsq(c) for c in ch)
    if z3.is_app(t) and t.decl().name() == 'sqrt':
        return True
    return False


def nonzero(pc, d, timeout):
    for t in pc:
        for c in conjuncts(t):
            if z3.is_not(c) and z3.is_eq(c.arg(0)):
                x, y = c.arg(0).arg(0), c.arg(0).arg(1)
                if (x.eq(d) and as_num(y) == 0) or (y.eq(d) and as_num(x) == 0):
                    return True
            if z3.is_distinct(c) and c.num_args() == 2:
                x, y = c.arg(0), c.arg(1)
                if (x.eq(d) and as_num(y) == 0) or (y.eq(d) and as_num(x) == 0):
                    return True
    if d.sort() == IntS:
        return quick(pc, d != 0, timeout)[0] == 'proved'
    if z3.is_mul(d):
        return all(nonzero(pc, c, timeout) for c in d.children())
    if z3.is_app(d) and d.decl().kind() == z3.Z3_OP_TO_REAL:
        return nonzero(pc, d.arg(0), timeout)
    r, _ = quick(pc, d != 0, timeout)
    return r == 'proved'


def quick(pc, goal, timeout):
    r, m = z3_check(pc, goal, timeout)
    if r == 'proved':
        return r, m
    r2 = nlsat_check(pc, goal, timeout)
    return (r2, None) if r2 == 'proved' else (r, m)


# ------------------------------------------------------------------ sums
def sum_lemmas(pc, goal, depth):
    """equalities between sums over the same range with equal terms"""
    apps = [t for t in subs(z3.And(*(list(pc) + [goal])) if pc else goal) if z3.is_app(t) and t.decl().name() in SUMS and not _has_var(t)]
    out = []
    if depth > 2:
        return out
    for x, y in itertools.combinations(apps, 2):
        if x.sort() != y.sort():
            continue
        S, T = SUMS[x.decl().name()], SUMS[y.decl().name()]
        ux, uy = x.children()[-1], y.children()[-1]
        if not ux.eq(uy) and z3_check(pc, ux == uy, 3)[0] != 'proved':
            continue
        k = z3.Int('k!ext%d' % depth)
        dx = z3.substitute(S.delta, *([(S.k, k)] + list(zip(S.args, x.children()[:-1]))))
        dy = z3.substitute(T.delta, *([(T.k, k)] + list(zip(T.args, y.children()[:-1]))))
        r = prove(list(pc) + [k >= 0, k < ux], dx == dy, 20, depth=depth + 1, refute=False)
        if r.status == 'proved':
            out.append(x == y)
    return out


# ------------------------------------------------------------------ main
def prove(pc, goal, timeout=20, depth=0, refute=True, hints=()):
    t0 = time.time()
    pc = list(pc)

    def done(st, be, why='', model=None):
        return Result(st, be, time.time() - t0, why, model)
    if z3.is_true(goal) or z3.is_true(z3.simplify(goal)):
        return done('proved', 'simplify')
    if inside(pc, goal):
        return done('proved', 'interval')
    # structure
    if z3.is_and(goal):
        bes = set()
        for c in goal.children():
            r = prove(pc, c, timeout, depth, refute)
            if r.status != 'proved':
                r.time = time.time() - t0
                return r
            bes |= set(r.backend.split('+'))
        return done('proved', '+'.join(sorted(bes)))
    if z3.is_implies(goal):
        return prove(pc + [goal.arg(0)], goal.arg(1), timeout, depth, refute)
    if z3.is_quantifier(goal) and goal.is_forall():
        vs = [z3.Const('sk!%s!%d!%d' % (goal.var_name(i), i, depth), goal.var_sort(i)) for i in range(goal.num_vars())]
        body = z3.substitute_vars(goal.body(), *reversed(vs))
        return prove(pc, body, timeout, depth, refute)
    for t in pc:
        if t.eq(goal):
            return done('proved', 'hypothesis')
    return _core(pc, goal, timeout, depth, t0, done, refute, hints)


def _core(pc, goal, timeout, depth, t0, done, refute, hints):
    # fast linear attempt
    try:
        r, m = z3_check(pc, goal, min(2.0, timeout))
    except z3.Z3Exception as e:
        r, m = 'unknown', None
    if r == 'proved':
        return done('proved', 'z3')
    cand = m if r == 'sat' else None
    if cand is not None and refute:
        ref = confirm(pc, goal, model=cand)
        if ref:
            return done('refuted', 'z3', 'counterexample confirmed numerically', ref)
    # sums
    if any(n in SUMS for n in free_funs(goal)):
        lem = sum_lemmas(pc, goal, depth)
        if lem:
            pc = pc + lem
            r, m = z3_check(pc, goal, timeout)
            if r == 'proved':
                return done('proved', 'z3 (sum induction)')
    # case split on ites
    r = split(pc, goal, timeout, 0)
    if r:
        return done('proved', r)
    if refute:
        ref = numeric_refute(pc, goal, 3.0)
        if ref:
            return done('refuted', 'numeric', 'counterexample found by evaluation', ref)
    if cand is None and z3_again(pc, goal):
        return done('proved', 'z3')
    r, m = z3_check(pc, goal, timeout)
    if r == 'proved':
        return done('proved', 'z3')
    if r == 'sat' and refute:
        ref = confirm(pc, goal, model=m)
        if ref:
            return done('refuted', 'z3', 'counterexample confirmed numerically', ref)
    if nlsat_check(pc, goal, timeout) == 'proved':
        return done('proved', 'z3-nlsat')
    if cvc5_check(pc, goal, timeout) == 'proved':
        return done('proved', 'cvc5')
    return done('unknown', 'z3/nlsat/cvc5/poly', 'solver: ' + r)


def infeasible(pc):
    s = _solver(0.5)
    for t in pc:
        if not z3.is_quantifier(t):
            s.add(t)
    for a in range_facts([t for t in pc if not z3.is_quantifier(t)]):
        s.add(a)
    return s.check() == z3.unsat


def split(pc, goal, timeout, d):
    """prove by splitting on ite conditions then the polynomial normaliser / z3 on each leaf"""
    c = first_ite_cond(goal)
    if c is None:
        r = poly_check(pc, goal)
        if r:
            return 'poly'
        if d > 0:
            try:
                rr, _ = z3_check(pc, goal, min(5, timeout))
            except z3.Z3Exception:
                rr = 'unknown'
            if rr == 'proved':
                return 'z3'
            if nlsat_check(pc, goal, min(5, timeout)) == 'proved':
                return 'z3-nlsat'
        return None
    if d >= 10:
        return None
    out = set()
    for val in (True, False):
        g = fold_ite(set_cond(goal, c, val))
        p2 = [fold_ite(set_cond(t, c, val)) if not z3.is_quantifier(t) else t for t in pc] + [c if val else _negs(c)]
        if infeasible(p2):
            continue
        if z3.is_true(z3.simplify(g)):
            continue
        if z3.is_and(g) or z3.is_implies(g):
            r = prove(p2, g, timeout, 1, False)
            r = r.backend if r.status == 'proved' else None
        else:
            r = split(p2, g, timeout, d + 1)
        if not r:
            return None
        out |= set(r.split('+'))
    return '+'.join(sorted(out)) or 'split'


# ------------------------------------------------------------------ numeric evaluation
class EvalError(Exception):
    pass


class NumEnv:
    """assignment: constants and functions by name -> python number; lazily extended"""

    def __init__(self, rnd=None, model=None, fixed=None):
        self.rnd, self.model = rnd, model
        self.val = dict(fixed or {})
        self.mstyle = rnd.choice(['int', 'small', 'wide', 'zeroish']) if rnd else None

    def leaf(self, t, args):
        n = t.decl().name()
        key = (n,) + args
        if key in self.val:
            return self.val[key]
        v = None
        if self.model is not None:
            targs = [z3.IntVal(int(a)) if z3.is_int(c) else z3.RealVal(str(Fraction(a))) if not isinstance(a, bool) else z3.BoolVal(a) for a, c in zip(args, t.children())]
            mv = self.model.eval(t.decl()(*targs) if targs else t, model_completion=True)
            v = _topy(mv)
            if v is None:
                raise EvalError('model value')
            if t.sort() == IntS and n in RANGES:
                lo, hi = self.bounds(t, n, args)
                if (lo is not None and v < lo) or (hi is not None and v > hi):
                    raise EvalError('model value out of the range of ' + n)
        elif self.rnd is not None:
            v = self.draw(t, n, args)
        else:
            raise EvalError('unbound ' + n)
        self.val[key] = v
        return v

    def bounds(self, t, n, args):
        r = RANGES.get(n, (None, None))
        if len(r) > 2 and t.num_args():
            g = r[2]([z3.IntVal(int(a)) for a in args])
            if neval(g, self) is not True:
                return None, None
        out = []
        for b in r[:2]:
            if b is not None and z3.is_expr(b):
                b = neval(b, self)
            out.append(b)
        return out[0], out[1]

    def draw(self, t, n, args=()):
        r = self.rnd
        if t.sort() == BoolS:
            return r.random() < 0.5
        if t.sort() == IntS:
            lo, hi = self.bounds(t, n, args)
            if hi is not None and lo is not None:
                if hi < lo:
                    raise EvalError('empty range')
                return r.choice([lo, hi, r.randint(lo, hi), r.randint(lo, hi)])
            lo = -3 if lo is None else lo
            return r.randint(lo, 6)
        st = self.mstyle
        if st == 'int':
            return float(r.randint(-3, 3))
        if st == 'zeroish':
            return float(r.choice([0, 0, 1, -1, 2, 0.5]))
        if st == 'small':
            return r.uniform(-2, 2)
        return r.uniform(-10, 10)


def _topy(mv):
    if z3.is_true(mv):
        return True
    if z3.is_false(mv):
        return False
    if z3.is_int_value(mv):
        return mv.as_long()
    if z3.is_rational_value(mv):
        return float(Fraction(mv.numerator_as_long(), mv.denominator_as_long()))
    if z3.is_algebraic_value(mv):
        return float(mv.approx(20).as_fraction())
    return None


_REAL = {'sqrt': lambda x: math.sqrt(x) if x >= 0 else _err('sqrt'), 'sin': math.sin, 'cos': math.cos, 'acos': lambda x: math.acos(max(-1, min(1, x))),
         'atan2': math.atan2, 'tan': math.tan, 'exp': math.exp, 'floor': math.floor, 'ceil': math.ceil}


def _err(w):
    raise EvalError(w)


def _f32(x):
    import struct
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        raise EvalError('f32')


class Tri:
    """three-valued comparisons on floats: near ties are undecided"""


EPS = 1e-7


def neval(t, env, memo=None, bound=None):
    """numeric value; booleans are True / False / None (undecided because of rounding)"""
    memo = {} if memo is None else memo
    bound = bound or {}

    def ev(x):
        k = x.get_id()
        if not bound and k in memo:
            return memo[k][0]
        v = ev0(x)
        if not bound:
            memo[k] = (v, x)
        return v

    def ev0(x):
        if z3.is_quantifier(x):
            return quant(x)
        if z3.is_var(x):
            raise EvalError('free var')
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
        n = as_num(x)
        if n is not None:
            return int(n) if z3.is_int(x) else float(n)
        if z3.is_algebraic_value(x):
            return _topy(x)
        kd = x.decl().kind()
        ch = x.children()
        if kd == z3.Z3_OP_UNINTERPRETED:
            nm = x.decl().name()
            if not ch:
                if nm in bound:
                    return bound[nm]
                return env.leaf(x, ())
            a = tuple(ev(c) for c in ch)
            if any(v is None for v in a):
                raise EvalError('undecided')
            if nm in _REAL and len(ch) == (2 if nm == 'atan2' else 1) and x.sort() == RealS:
                return float(_REAL[nm](*a))
            if nm == 'f32':
                return _f32(a[0])
            if nm in SUMS:
                S = SUMS[nm]
                if a[-1] > 2000:
                    raise EvalError('big sum')
                s = 0
                for kk in range(0, int(a[-1])):
                    b2 = dict(zip([g.decl().name() for g in S.args], a[:-1]))
                    b2[S.k.decl().name()] = kk
                    v = neval(S.delta, env, {}, b2)
                    if v is None:
                        raise EvalError('undecided')
                    s += v
                return s
            if nm in RECS:
                return rec(nm, a)
            if nm in ('band', 'bor', 'bxor') and all(isinstance(v, int) for v in a):
                return {'band': a[0] & a[1], 'bor': a[0] | a[1], 'bxor': a[0] ^ a[1]}[nm]
            if nm in ('pow',):
                try:
                    return float(a[0] ** a[1])
                except Exception:
                    raise EvalError('pow')
            return env.leaf(x, a)
        if kd == z3.Z3_OP_AND:
            r = True
            for c in ch:
                v = ev(c)
                if v is False:
                    return False
                if v is None:
                    r = None
            return r
        if kd == z3.Z3_OP_OR:
            r = False
            for c in ch:
                v = ev(c)
                if v is True:
                    return True
                if v is None:
                    r = None
            return r
        if kd == z3.Z3_OP_NOT:
            v = ev(ch[0])
            return None if v is None else not v
        if kd == z3.Z3_OP_IMPLIES:
            a = ev(ch[0])
            if a is False:
                return True
            b = ev(ch[1])
            if b is True:
                return True
            return None if a is None or b is None else False
        if kd == z3.Z3_OP_ITE:
            c = ev(ch[0])
            if c is None:
                raise EvalError('undecided ite')
            return ev(ch[1] if c else ch[2])
        if kd in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_IFF):
            a, b = ev(ch[0]), ev(ch[1])
            if a is None or b is None:
                return None
            if isinstance(a, bool) or isinstance(b, bool) or (isinstance(a, int) and isinstance(b, int)):
                r = a == b
            else:
                d = abs(a - b)
                tol = EPS * (1 + abs(a) + abs(b))
                if d == 0:
                    r = True
                elif d <= tol * 1e-3:
                    r = 'close'
                elif d <= tol * 10:
                    r = None
                else:
                    r = False
            if r == 'close':
                return True if kd == z3.Z3_OP_EQ else None
            if r is None:
                return None
            return r if kd != z3.Z3_OP_DISTINCT else not r
        if kd in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = ev(ch[0]), ev(ch[1])
            if isinstance(a, int) and isinstance(b, int):
                pass
            elif a != b and abs(a - b) <= EPS * (1 + abs(a) + abs(b)):
                return None
            elif a == b and not (_exact(ch[0]) and _exact(ch[1])):
                return None
            return {z3.Z3_OP_LE: a <= b, z3.Z3_OP_LT: a < b, z3.Z3_OP_GE: a >= b, z3.Z3_OP_GT: a > b}[kd]
        a = [ev(c) for c in ch]
        if any(v is None for v in a):
            raise EvalError('undecided')
        if kd == z3.Z3_OP_ADD:
            return sum(a)
        if kd == z3.Z3_OP_SUB:
            r = a[0]
            for v in a[1:]:
                r -= v
            return r
        if kd == z3.Z3_OP_UMINUS:
            return -a[0]
        if kd == z3.Z3_OP_MUL:
            r = 1
            for v in a:
                r *= v
            return r
        if kd == z3.Z3_OP_DIV:
            if abs(a[1]) < 1e-12:
                raise EvalError('div0')
            return a[0] / a[1]
        if kd == z3.Z3_OP_IDIV:
            if a[1] == 0:
                raise EvalError('div0')
            return a[0] // a[1] if a[1] > 0 else -(a[0] // -a[1])
        if kd == z3.Z3_OP_MOD:
            if a[1] == 0:
                raise EvalError('div0')
            return a[0] % abs(a[1])
        if kd == z3.Z3_OP_TO_REAL:
            return float(a[0])
        if kd == z3.Z3_OP_TO_INT:
            f = math.floor(a[0])
            if min(a[0] - f, f + 1 - a[0]) < 1e-9 and a[0] != f:
                raise EvalError('undecided floor')
            return int(f)
        if kd == z3.Z3_OP_POWER:
            return a[0] ** a[1]
        raise EvalError('op %s' % x.decl().name())

    def rec(nm, a):
        R_ = RECS[nm]
        kk = a[-1]
        if kk <= 0:
            b2 = dict(zip([g.decl().name() for g in R_.args], a[:-1]))
            return neval(R_.init, env, {}, b2)
        if kk > 200:
            raise EvalError('big rec')
        key = ('rec', nm) + a
        if key in env.val:
            return env.val[key]
        b2 = dict(zip([g.decl().name() for g in R_.args], a[:-1]))
        b2[R_.k.decl().name()] = kk - 1
        v = neval(R_.step, env, {}, b2)
        env.val[key] = v
        return v

    def quant(q):
        # forall over a bounded integer range:  0 <= k < n => body
        if q.num_vars() != 1 or q.var_sort(0) != IntS:
            raise EvalError('quantifier')
        nm = 'qv!%d' % q.get_id()
        v = z3.Int(nm)
        body = z3.substitute_vars(q.body(), v)
        lo, hi = None, None
        if z3.is_implies(body):
            for c in conjuncts(body.arg(0)):
                if z3.is_app(c) and c.num_args() == 2:
                    a, b = c.children()
                    k2 = c.decl().kind()
                    try:
                        if a.eq(v) and nm not in free_funs(b):
                            x = ev(b)
                            if k2 == z3.Z3_OP_GE:
                                lo = x
                            elif k2 == z3.Z3_OP_GT:
                                lo = x + 1
                            elif k2 == z3.Z3_OP_LT:
                                hi = x
                            elif k2 == z3.Z3_OP_LE:
                                hi = x + 1
                        elif b.eq(v) and nm not in free_funs(a):
                            x = ev(a)
                            if k2 == z3.Z3_OP_LE:
                                lo = x
                            elif k2 == z3.Z3_OP_LT:
                                lo = x + 1
                            elif k2 == z3.Z3_OP_GT:
                                hi = x
                            elif k2 == z3.Z3_OP_GE:
                                hi = x + 1
                    except EvalError:
                        pass
        if lo is None or hi is None or hi - lo > 300:
            raise EvalError('unbounded quantifier')
        r = True
        for i in range(int(lo), int(hi)):
            b2 = dict(bound)
            b2[nm] = i
            x = neval(body, env, {}, b2)
            if x is False:
                r = False
            elif x is None and r is True:
                r = None
        if not q.is_forall():
            raise EvalError('exists')
        return r
    return ev(t)


def _exact(t):
    """value needs no rounding (constant or leaf)"""
    return t.num_args() == 0 if z3.is_app(t) else False


def check_env(pc, goal, env):
    memo = {}
    try:
        for t in pc:
            if neval(t, env, memo) is not True:
                return False
        return neval(goal, env, memo) is False
    except (EvalError, OverflowError, ZeroDivisionError, ValueError, TypeError, RecursionError):
        return False


_SPECIAL = {'sqrt', 'sin', 'cos', 'acos', 'atan2', 'f32', 'pow', 'tan', 'exp', 'log', 'log10', 'asin', 'atan', 'floor', 'ceil', 'round', 'bxor', 'band', 'bor'}


def _has_quant(ts):
    return any(z3.is_quantifier(t) for t in subterms(ts))


def exact_confirm(pc, goal, model):
    """formulas whose only symbols are program inputs: the solver's model is the counterexample"""
    ts = list(pc) + [goal]
    if _has_quant(ts):
        return None
    fs = set()
    for t in ts:
        fs |= set(free_funs(t))
    if any(f in _SPECIAL or f in SUMS or f in RECS or f.startswith(('ph.', 'early', 'str')) for f in fs):
        return None
    for t in ts[:-1]:
        if not z3.is_true(model.eval(t, model_completion=True)):
            return None
    if not z3.is_false(model.eval(goal, model_completion=True)):
        return None
    return {(d.name(),): str(model[d])[:80] for d in model.decls()[:60]}


def confirm(pc, goal, model):
    env = NumEnv(model=model)
    if check_env(pc, goal, env):
        return dict(env.val)
    try:
        return exact_confirm(pc, goal, model)
    except z3.Z3Exception:
        return None


def numeric_refute(pc, goal, budget, seed=1):
    """random search; equalities in pc of the form leaf == term are used as definitions"""
    rnd = random.Random(seed)
    t0 = time.time()
    tries = 0
    pcs = [c for t in pc for c in conjuncts(t)]
    while time.time() - t0 < budget and tries < 400:
        tries += 1
        env = NumEnv(rnd=rnd)
        if check_env(pcs, goal, env):
            return dict(env.val)
    return None

"""Contracts: requires / ensures written in Python over the symbolic executor's values, run against the
real functions of /repo on every invocation."""
import os, sys, time, json, multiprocessing, traceback, signal
import z3
from . import astload
from .values import *
from .symex import Executor, Obligation, RANGES, realv, is_term, SQRT, SIN, COS, F32
from . import prove as P

REG = {}     # property -> list of Contract


class Contract:
    def __init__(self, prop, name, fn, srcs, harness, opts):
        self.prop, self.name, self.fn, self.srcs, self.harness, self.opts = prop, name, fn, srcs, harness, opts


def contract(prop, name, srcs, harness=None, **opts):
    def deco(f):
        REG.setdefault(prop, []).append(Contract(prop, name, f, srcs, harness, opts))
        return f
    return deco


class V:
    """3-vector view of a Point3 value with spec arithmetic"""

    def __init__(self, x, y, z):
        self.x, self.y, self.z = [realv(t) if is_term(t) else z3.RealVal(t) for t in (x, y, z)]

    @staticmethod
    def of(p):
        if isinstance(p, V):
            return p
        return V(p.f['_x'], p.f['_y'], p.f['_z'])

    def __add__(self, o):
        return V(self.x + o.x, self.y + o.y, self.z + o.z)

    def __sub__(self, o):
        return V(self.x - o.x, self.y - o.y, self.z - o.z)

    def __mul__(self, s):
        return V(self.x * s, self.y * s, self.z * s)

    __rmul__ = __mul__

    def __truediv__(self, s):
        return V(self.x / s, self.y / s, self.z / s)

    def __neg__(self):
        return V(-self.x, -self.y, -self.z)

    def dot(self, o):
        return self.x * o.x + self.y * o.y + self.z * o.z

    def cross(self, o):
        return V(self.y * o.z - self.z * o.y, self.z * o.x - self.x * o.z, self.x * o.y - self.y * o.x)

    def n2(self):
        return self.dot(self)

    def eq(self, o):
        return z3.And(self.x == o.x, self.y == o.y, self.z == o.z)

    def __iter__(self):
        return iter((self.x, self.y, self.z))


class Case:
    """one run of a contract"""

    def __init__(self, prog, contract):
        self.prog = prog
        self.c = contract
        self.ex = Executor(prog)
        self.notes = []
        self.bounded = None
        self.leaves = []
        for k, v in contract.opts.items():
            if hasattr(self.ex, k):
                setattr(self.ex, k, v)

    # ---- inputs
    def sym(self, ty, name):
        t = parse_type(ty) if isinstance(ty, str) else ty
        return self.ex.symval(t, name)

    def real(self, name):
        return z3.Real(name)

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        if lo is not None:
            self.ex.assume(v >= lo)
        if hi is None:
            self.ex.sizes[name] = lo is not None and lo >= 0
        if hi is not None:
            self.ex.assume(v <= hi)
        return v

    def obj(self, val, hint='obj'):
        return self.ex.new_root(val, hint)

    def new(self, ty, name):
        """object with arbitrary (symbolic) members"""
        return self.obj(self.sym(ty, name), name)

    def construct(self, cls, ctor='void ()', args=()):
        v = self.ex.construct(parse_type(cls), ctor, [], None, list(args))
        return self.obj(v, cls)

    def val(self, lv):
        return self.ex.rd(lv) if isinstance(lv, LV) else lv

    def assume(self, t):
        self.ex.assume(t)

    # ---- calls
    def fn(self, qname, params=None, const=None):
        c = [f for f in self.prog.funcs.values() if f.qname == qname]
        if params is not None:
            want = [p.replace(' ', '') for p in params]
            c = [f for f in c if [p['type']['qualType'].replace(' ', '') for p in f.params] == want]
        if const is not None and len(c) > 1:
            c = [f for f in c if f.const == const]
        if len(c) != 1:
            raise astload.ExtractionError('function %s%s: %d candidates' % (qname, params if params is not None else '', len(c)))
        return c[0]

    def call(self, qname, this=None, args=(), params=None, const=None):
        f = self.fn(qname, params, const)
        r = self.ex.call_func(f, this, None, list(args))
        if isinstance(r, (LV,)):
            return self.ex.rd(r)
        return r

    def call_lv(self, qname, this=None, args=(), params=None, const=None):
        return self.ex.call_func(self.fn(qname, params, const), this, None, list(args))

    def handler(self, qname, f):
        self.ex.handlers[qname] = f

    def loop_inv(self, qname, i, f, measure=None):
        """invariant of the i-th loop (in source order) of a function: f(view) -> [(label, formula)];
        measure: f(view) -> an integer that stays non-negative and gets smaller"""
        self.ex.invs[(qname, i)] = f
        self.ex.measures[(qname, i)] = measure

    # ---- goals
    def ensure(self, label, goal, **opt):
        if isinstance(goal, (list, tuple)):
            goal = z3.And(*goal) if goal else z3.BoolVal(True)
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        o = Obligation(self.ex.hyps(goal), goal, label, 'ensures', self.c.name)
        o.opt = opt
        self.ex.obs.append(o)

    def lemma(self, label, goal, **opt):
        """proved then available as a hypothesis"""
        self.ensure(label, goal, **opt)
        self.ex.assume(goal)

    def unchanged(self, label, lv, before):
        """frame: object equals its former value"""
        self.ensure(label, self.eq(self.val(lv), before))

    def eq(self, a, b):
        if a is b:
            return z3.BoolVal(True)
        if is_term(a) and is_term(b):
            if a.sort() != b.sort():
                a, b = realv(a), realv(b)
            return a == b
        if isinstance(a, Struct) and isinstance(b, Struct):
            if a.cls != b.cls:
                return z3.BoolVal(False)
            return conj([self.eq(a.f[k], b.f[k]) for k in a.f])
        if isinstance(a, Lit) and isinstance(b, Lit):
            if len(a.items) != len(b.items):
                return z3.BoolVal(False)
            return conj([self.eq(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Vec) and isinstance(b, Vec):
            return self.vec_eq(a, b)
        if isinstance(a, (Ptr,)) and isinstance(b, Ptr):
            return z3.BoolVal(a.same(b))
        if isinstance(a, Str) and isinstance(b, Str) and a.p == b.p:
            return z3.BoolVal(True)
        raise Unsupported('equality of %s and %s' % (type(a).__name__, type(b).__name__))

    def vec_eq(self, a, b, n=None):
        """lengths equal and elements equal at a fresh index"""
        j = z3.Int(fresh_name('at'))
        ex = self.ex
        save = ex.st
        ex.st = save.copy()
        rng = z3.And(j >= 0, j < (a.len() if n is None else n))
        ex.st.pc.append(('fact', rng))
        ex.st.pc.append(('fact', a.len() == b.len()))
        try:
            e = self.eq(a.get(j, ex), b.get(j, ex))
        finally:
            ex.st = save
        return z3.And(a.len() == b.len(), z3.Implies(rng, e))

    def at(self, vec, i):
        return vec.get(i if is_term(i) else I(i), self.ex)

    def under(self, *conds):
        """context manager: extra hypotheses"""
        case = self

        class U:
            def __enter__(self):
                self.save = case.ex.st
                case.ex.st = case.ex.st.copy()
                for c in conds:
                    case.ex.assume(c)

            def __exit__(self, *a):
                case.ex.st = self.save
                return False
        return U()

    def fresh_int(self, name='i', lo=None, hi=None):
        v = z3.Int(fresh_name(name))
        rng = [f for f in (None if lo is None else v >= lo, None if hi is None else v < hi) if f is not None]
        if lo is not None and hi is not None and not self.ex.provable(z3.IntVal(lo) < hi if isinstance(lo, int) and is_term(hi) else lo < hi):
            # the range may be empty: it is a hypothesis of what is said about v only
            self.ex.opt_ghosts[v.get_id()] = (v, rng)
        else:
            for f in rng:
                self.ex.assume(f)
        return v

    def of(self, v, goal):
        """said of v, so of its range only"""
        g = self.ex.opt_ghosts.get(v.get_id())
        return goal if g is None else z3.Implies(z3.And(*g[1]), goal)


# ------------------------------------------------------------------ running
def run_contract(prog, c, limit=120):
    """-> (obligations, info dict)"""
    info = {'name': c.name, 'functions': [], 'assumptions': [], 'used_contracts': [], 'error': None, 'bounded': None}
    sys.setrecursionlimit(100000)
    case = Case(prog, c)
    case.ex.deadline = time.time() + limit
    t0 = time.time()
    try:
        c.fn(case)
        if not case.ex.obs:
            info['error'] = 'no obligation was generated'
    except (Unsupported, astload.ExtractionError) as e:
        info['error'] = 'out of reach: %s' % e
    except (KeyError, AttributeError, TypeError, IndexError, z3.Z3Exception, RecursionError, ValueError, AssertionError) as e:
        info['error'] = 'executor: %s: %s' % (type(e).__name__, e)
        if os.environ.get('VCG_TRACE'):
            traceback.print_exc()
    info['functions'] = sorted(case.ex.functions)
    info['assumptions'] = sorted(case.ex.assumptions)
    info['used_contracts'] = sorted(case.ex.used_contracts)
    info['bounded'] = case.bounded
    info['stated'] = sorted(case.ex.stated)
    info['gen_time'] = time.time() - t0
    return case.ex.obs, info

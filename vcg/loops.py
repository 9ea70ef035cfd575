"""Loops.  A loop whose trip count is concrete is executed; any other loop is summarised by inferring,
for each modified location, its value at the head of iteration k in closed form (the loop invariant),
re-executing the real body from that head state and checking that the body re-establishes it at k+1.
The inferred invariant is never trusted: the head state is only used when the check succeeds, and all
obligations of the body are generated from it."""
import z3
from .values import *

_IntS = z3.IntSort()


class SumDef:
    """F(args.., k) = sum_{t<k} delta(t)"""

    def __init__(self, name, args, k, delta):
        self.name, self.args, self.k, self.delta = name, args, k, delta
        self.fn = z3.Function(name, *([_IntS] * (len(args) + 1) + [delta.sort()]))


class RecDef:
    """F(args.., 0) = init, F(args.., k+1) = step[k]"""

    def __init__(self, name, args, k, init, step, group):
        self.name, self.args, self.k, self.init, self.step, self.group = name, args, k, init, step, group


SUMS = {}
_sumkeys = {}
RECS = {}


def free_consts(t):
    out, seen, st = {}, set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[x.decl().name()] = x
        st.extend(x.children())
    return out


def free_funs(t):
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        st.extend(x.children())
    return out


class Leaf:
    __slots__ = ('guess', 'head', 'root', 'path', 'v0', 'ph', 'kind', 'closed', 'data', 'after', 'ety', 'lvk')

    def __init__(self, root, path, v0):
        self.root, self.path, self.v0 = root, path, v0
        self.ph = None
        self.kind = None
        self.closed = None
        self.data = None

    def __repr__(self):
        return 'Leaf(%s%s)' % (self.root, self.path)


def _walk_loops(n):
    if not isinstance(n, dict):
        return
    if n.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
        yield n
    for c in n.get('inner', []) or []:
        yield from _walk_loops(c)


def _decls(n):
    return [d for d in (n.get('inner') or []) if isinstance(d, dict) and d.get('kind') == 'VarDecl'] if n.get('kind') == 'DeclStmt' else []


def _scope(n, target, scope):
    if not isinstance(n, dict):
        return None
    if n.get('kind') in ('ForStmt', 'CXXForRangeStmt'):
        sc = list(scope)
        for ch in n.get('inner', [])[:-1]:
            if isinstance(ch, dict):
                sc += _decls(ch)
        if n is target or n.get('id') == target.get('id'):
            return sc
        return _scope(n['inner'][-1], target, sc)
    if n.get('id') == target.get('id'):
        return list(scope)
    sc = list(scope)
    for ch in n.get('inner', []) or []:
        r = _scope(ch, target, sc)
        if r is not None:
            return r
        if isinstance(ch, dict):
            sc += _decls(ch)
    return None


class LoopView:
    """program variables as seen by a stated loop invariant"""

    def __init__(self, ex, fr, node, base):
        self.ex, self.fr, self.base, self.node = ex, fr, base, node
        self.decls = [p for p in fr.fn.params] + (_scope(fr.fn.body, node, []) or [])

    def lv(self, name):
        for d in reversed(self.decls):
            if d.get('name') == name and (self.fr.tu, d['id']) in self.fr.env:
                return self.fr.env[(self.fr.tu, d['id'])]
        raise Unsupported('the loop invariant names variable %s, which is not in scope' % name)

    def __getitem__(self, name):
        x = self.lv(name)
        return self.ex.rd(x) if isinstance(x, LV) else x

    def position(self):
        """elements already visited by a range-for loop"""
        for x in self.node.get('inner', []):
            for d in (x or {}).get('inner', []) or []:
                if d.get('kind') == 'VarDecl' and str(d.get('name', '')).startswith('__begin') and (self.fr.tu, d['id']) in self.fr.env:
                    v = self.fr.env[(self.fr.tu, d['id'])]
                    v = self.ex.rd(v) if isinstance(v, LV) else v
                    return v.i
        raise Unsupported('not a range-for loop')

    def old(self, name):
        save = self.ex.st
        self.ex.st = self.base
        try:
            return self[name]
        finally:
            self.ex.st = save


class LoopMixin:
    ghosts = ()

    # ------------------------------------------------------------ statements
    def s_ForStmt(self, n):
        init, cv, cond, inc, body = (n['inner'] + [{}] * 5)[:5]
        if init:
            self.stmt(init)
        if cv:
            raise Unsupported('loop condition variable')
        self.loop((lambda: self.cond_val(cond)) if cond else (lambda: z3.BoolVal(True)), lambda: self.stmt(body), (lambda: self.ev_any(inc)) if inc else None, n)

    def s_WhileStmt(self, n):
        inner = n['inner']
        if len(inner) > 2:
            raise Unsupported('while with a declaration')
        self.loop(lambda: self.cond_val(inner[0]), lambda: self.stmt(inner[1]), None, n)

    def s_DoStmt(self, n):
        body, cond = n['inner']
        # body once, then while(cond) body
        fr = self.frames[-1]
        fr.loops.append(([], []))
        try:
            self.stmt(body)
            brk, cont = fr.loops[-1]
        finally:
            fr.loops.pop()
        m = self.merge_states([(self.st, None)] + cont)
        self.st = m[0] if m else None
        if self.st is not None:
            self.loop(lambda: self.cond_val(cond), lambda: self.stmt(body), None, n)
        if brk:
            m = self.merge_states([(self.st, None)] + brk)
            self.st = m[0] if m else None

    def s_CXXForRangeStmt(self, n):
        inner = n['inner']
        init, rng, beg, end, cond, inc, var, body = inner[-8:]
        if init:
            self.stmt(init)
        self.stmt(rng)
        self.stmt(beg)
        self.stmt(end)

        def b():
            self.stmt(var)
            self.stmt(body)
        self.loop(lambda: self.cond_val(cond), b, lambda: self.ev_any(inc), n)

    def cond_val(self, c):
        v = self.ev(c) if c.get('valueCategory') == 'prvalue' else self.rd(self.lv(c))
        if isinstance(v, z3.ExprRef) and v.sort() == z3.BoolSort():
            return v
        from .symex import boolv
        return boolv(v)

    # ------------------------------------------------------------ driver
    def loop(self, condf, bodyf, incf, node):
        if self.st is None:
            return
        fr = self.frames[-1]
        inv = self.stated_invariant(fr, node)
        if inv is not None:
            m = self.merge_states(self.by_invariant(inv, condf, bodyf, incf, node))
            self.st = m[0] if m else None
            return
        exits = []
        it = 0
        while True:
            base = self.st.copy()
            nobs = len(self.obs)
            c = z3.simplify(condf())
            if z3.is_false(c):
                exits.append((self.st, None))
                break
            if not z3.is_true(c):
                if it == 0 or not self._smallstep(it):
                    self.st = base
                    del self.obs[nobs:]
                    out = self.summarise(condf, bodyf, incf, node)
                    exits += out
                    break
                # data-dependent exit of an otherwise concretely unrolling loop
                d = self.decide(c)
                if d is False:
                    exits.append((self.st, None))
                    break
                if d is None:
                    s = self.st.copy()
                    s.pc.append(('cond', z3.Not(c)))
                    exits.append((s, None))
                    self.st.pc.append(('cond', c))
            it += 1
            if it > self.max_unroll:
                raise Unsupported('loop unrolling limit')
            ok = self._iterate(fr, bodyf, incf, exits)
            if not ok:
                break
        m = self.merge_states(exits)
        self.st = m[0] if m else None

    # ------------------------------------------------------------ invariants stated by the contract
    invs = None

    def stated_invariant(self, fr, node):
        if not self.invs:
            return None
        mine = {i: f for (q, i), f in self.invs.items() if q == fr.fn.qname}
        if not mine:
            return None
        order = self.__dict__.setdefault('_looporder', {})
        ids = order.get(fr.fn.mangled)
        if ids is None:
            ids = order[fr.fn.mangled] = [n.get('id') for n in _walk_loops(fr.fn.body)]
        if node.get('id') not in ids:
            return None
        i = ids.index(node['id'])
        f = mine.get(i)
        return f and (f, self.measures.get((fr.fn.qname, i)))

    def by_invariant(self, inv, condf, bodyf, incf, node):
        base = self.st
        fr = self.frames[-1]
        self.stated.add('%s loop %s' % (fr.fn.qname, self.where(node)))
        k = z3.Int(fresh_name('k'))
        leaves = {}
        self._probe(base, k, leaves, condf, bodyf, incf, fr)
        L = LoopView(self, fr, node, base)
        inv, measure = inv
        self.st = base
        for label, f in inv(L):
            self.oblige(f, 'invariant at entry: ' + label, 'invariant', node, assume=False)
        head = base.copy()
        for lf in leaves.values():
            self._put(head, lf, self._havoc(lf.v0, '%s' % lf.root.split('#')[0] + ''.join('.' + str(x) for a, x in lf.path if a == 'f')))
        self.st = head
        for label, f in inv(L):
            head.pc.append(('fact', f))
        npc = len(head.pc)
        # one arbitrary iteration
        c, after, brk, rets, cst = self._run_once(head.copy(), condf, bodyf, incf, fr)
        if after is not None:
            self.st = after
            for label, f in inv(L):
                self.oblige(f, 'invariant kept: ' + label, 'invariant', node, assume=False)
            self.measured(head, after, condf, fr, node, measure and (lambda: measure(L)))
        fr.rets.extend(rets)
        outs = list(brk)
        if not z3.is_true(c):
            fin = cst
            fin.pc.append(('cond', z3.Not(c)))
            outs = [(fin, None)] + outs
        return outs

    def _compared(self, c, out, neg=False):
        """(bound - counter) for the integer comparisons the condition is a conjunction of"""
        if not z3.is_app(c):
            return
        kd = c.decl().kind()
        if kd == z3.Z3_OP_NOT:
            return self._compared(c.arg(0), out, not neg)
        if kd == (z3.Z3_OP_OR if neg else z3.Z3_OP_AND):
            for x in c.children():
                self._compared(x, out, neg)
            return
        if c.num_args() != 2 or c.arg(0).sort() != _IntS:
            return
        x, y = c.arg(0), c.arg(1)
        if kd in (z3.Z3_OP_LT, z3.Z3_OP_LE):
            out.append((x - y if neg else y - x, False))
        elif kd in (z3.Z3_OP_GT, z3.Z3_OP_GE):
            out.append((y - x if neg else x - y, False))
        elif kd == (z3.Z3_OP_EQ if neg else z3.Z3_OP_DISTINCT):
            out.append((y - x, True))
            out.append((x - y, True))

    def measured(self, head, after, condf, fr, node, measure):
        """termination of a loop with a stated invariant: the stated measure, or else a difference its condition keeps
        above zero (or -1), gets smaller in every iteration"""
        if measure is not None:
            self.st = head
            m = measure()
            self.st = after
            self.oblige(z3.And(m >= 0, measure() < m), 'the loop ends: its measure gets smaller', 'termination', node, assume=False)
            return
        def diffs(st):
            save, nret = self.st, len(fr.rets)
            self.st = st.copy()
            self.quiet += 1
            try:
                out = []
                self._compared(condf(), out)
                return out
            finally:
                self.quiet -= 1
                self.st = save
        a, b = diffs(head), diffs(after)
        self.st = after
        if len(a) == len(b):
            for (x, ne), (y, _) in zip(a, b):
                g = z3.And(x > y, y >= 0) if ne else x > y
                g = z3.simplify(g)
                if self.provable(g):
                    self.oblige(g, 'the loop ends: what its condition bounds gets smaller', 'termination', node, assume=False)
                    return
        self.assumptions.add('the loop at %s terminates' % self.where(node))

    def _havoc(self, v, name):
        g = self.ghosts
        if isinstance(v, z3.ExprRef):
            if not g:
                return z3.Const(fresh_name(name), v.sort())
            return z3.Function(fresh_name(name), *([_IntS] * len(g) + [v.sort()]))(*g)
        if isinstance(v, Vec):
            nm = fresh_name(name)
            from .symex import RANGES
            RANGES[nm + '.len'] = (0, None)
            return self.symval(Ty('vec', v.ety), nm, tuple(g))
        if isinstance(v, Opaque):
            return v
        if isinstance(v, Struct):
            return Struct(v.cls, {f: self._havoc(x, name + '.' + f) for f, x in v.f.items()})
        raise Unsupported('loop changes %s (%s)' % (name, type(v).__name__))

    def _smallstep(self, it):
        return it <= 60

    def _iterate(self, fr, bodyf, incf, exits):
        fr.loops.append(([], []))
        try:
            bodyf()
        finally:
            brk, cont = fr.loops.pop()
        exits.extend(brk)
        m = self.merge_states([(self.st, None)] + cont)
        self.st = m[0] if m else None
        if self.st is None:
            return False
        if incf:
            incf()
        return True

    # ------------------------------------------------------------ summarisation
    def summarise(self, condf, bodyf, incf, node):
        base = self.st
        fr = self.frames[-1]
        k = z3.Int(fresh_name('k'))
        old_ghosts = self.ghosts
        self.ghosts = old_ghosts + (k,)
        leaves = {}
        try:
            self._probe(base, k, leaves, condf, bodyf, incf, fr)
            self._resolve(base, k, leaves, condf, bodyf, incf, fr)
            return self._finish_loop(base, k, leaves, condf, bodyf, incf, fr, node)
        finally:
            self.ghosts = old_ghosts

    def _run_once(self, st, condf, bodyf, incf, fr):
        """one iteration from st; -> (cond, state after or None, breaks, returns, cond_state)"""
        self.st = st
        c = condf()
        cst = self.st.copy()
        c = z3.simplify(c)
        if z3.is_false(c):
            return c, None, [], [], cst
        if not z3.is_true(c):
            self.st.pc.append(('cond', c))
        nret = len(fr.rets)
        fr.loops.append(([], []))
        try:
            bodyf()
        finally:
            brk, cont = fr.loops.pop()
        rets = fr.rets[nret:]
        del fr.rets[nret:]
        m = self.merge_states([(self.st, None)] + cont)
        self.st = m[0] if m else None
        if self.st is not None and incf:
            incf()
        return c, self.st, brk, rets, cst

    def _diff(self, a, b, root, path, out):
        if a is b:
            return
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if not a.eq(b):
                out.append((root, path, a))
            return
        if isinstance(a, Str) and isinstance(b, Str) and len(a.p) == len(b.p) and all(isinstance(x, str) and x == y for x, y in zip(a.p, b.p)):
            return
        if isinstance(a, Struct) and isinstance(b, Struct) and a.cls == b.cls:
            for f in b.f:
                if f not in a.f:
                    raise Unsupported('object layout changes in a loop')
                self._diff(a.f[f], b.f[f], root, path + (('f', f),), out)
            return
        if isinstance(a, Lit) and isinstance(b, Lit) and len(a.items) == len(b.items) and len(a.items) > 0:
            for i in range(len(a.items)):
                self._diff(a.items[i], b.items[i], root, path + (('i', I(i)),), out)
            return
        if isinstance(a, Lit) and isinstance(b, Store) and 0 < len(a.items) <= 16:
            # symbolic index into a small array: every element may change
            for i in range(len(a.items)):
                self._diff(a.items[i], b.get(I(i), self), root, path + (('i', I(i)),), out)
            return
        if isinstance(b, Store) and b.prev is a and isinstance(b.val, (Struct, Vec)) and not isinstance(a, Lit) \
                and not (free_funs(b.i) & self._diff_names):
            # one element, the same in every iteration of this loop
            self._diff(a.get(b.i, self), b.val, root, path + (('i', b.i),), out)
            return
        if isinstance(a, Store) and isinstance(b, Store) and a.prev is b.prev and a.i.eq(b.i) and isinstance(b.val, (Struct, Vec)) \
                and not (free_funs(b.i) & self._diff_names):
            self._diff(a.val, b.val, root, path + (('i', b.i),), out)
            return
        if isinstance(a, (Ptr, Iter)) and type(a) is type(b):
            if isinstance(a, Ptr):
                if a.same(b):
                    return
                if a.lv is not None and b.lv is not None and a.lv.same(b.lv) and a.off is not None and b.off is not None:
                    out.append((root, path + (('o', None),), a.off))
                    return
            elif a.lv.same(b.lv):
                if a.i.eq(b.i):
                    return
                out.append((root, path + (('o', None),), a.i))
                return
        out.append((root, path, a))

    def _get(self, st, leaf):
        v = st.store[leaf.root]
        for kk, x in leaf.path:
            if kk == 'f':
                v = v.f[x]
            elif kk == 'o':
                v = v.i if isinstance(v, Iter) else v.off
            else:
                v = v.get(x, self)
        return v

    def _put(self, st, leaf, val):
        def upd(v, path):
            if not path:
                return val
            (kk, x), rest = path[0], path[1:]
            if kk == 'f':
                return v.with_(x, upd(v.f[x], rest))
            if kk == 'o':
                return Iter(v.lv, val) if isinstance(v, Iter) else Ptr(v.lv, val)
            return self.store_elem(v, x, upd(v.get(x, self), rest))
        st.store[leaf.root] = upd(st.store[leaf.root], leaf.path)

    def _placeholder(self, v, name):
        if isinstance(v, z3.ExprRef):
            return z3.Const(fresh_name('ph.' + name), v.sort())
        if isinstance(v, Vec):
            nm = fresh_name('ph.' + name)
            n = z3.Int(nm + '.len')
            from .symex import RANGES
            self._guess_ranges(v, nm)
            RANGES[nm + '.len'] = (0, None)
            return Base(v.ety, n, lambda i: self.symval(v.ety, nm, (i,)), tag=nm)
        return Opaque('loop-modified ' + name)

    def _guess_ranges(self, v, nm):
        """while looking for the closed form, elements are supposed to stay in the ranges they had (the
        verification of the closed form reads the real elements and does not use this)"""
        from .symex import RANGES
        while not isinstance(v, Base) and hasattr(v, 'prev'):
            v = v.prev
        tag = getattr(v, 'tag', None)
        if tag and isinstance(v, Base):
            for key in [x for x in RANGES if x.startswith(tag + '.') and x != tag + '.len']:
                RANGES[nm + key[len(tag):]] = RANGES[key]

    def _probe(self, base, k, leaves, condf, bodyf, incf, fr):
        self.quiet += 1
        try:
            for rnd in range(12):
                st = base.copy()
                st.pc.append(('fact', k >= 0))
                for lf in leaves.values():
                    self._put(st, lf, lf.ph)
                head = st.copy()
                c, after, brk, rets, cst = self._run_once(st, condf, bodyf, incf, fr)
                outs = [s for s in [after] if s is not None] + [cst]
                new = False
                self._diff_names = {k.decl().name()}
                for lf in leaves.values():
                    self._diff_names |= self._phnames(lf)
                states = outs + [s for s, _ in brk] + [s for s, _ in rets]
                for i, s in enumerate(states):
                    d = []
                    for r in base.store:
                        self._diff(head.store[r], s.store[r], r, (), d)
                    for root, path, v in d:
                        path = _coarsen(path, [lf.path for lf in leaves.values() if lf.root == root] + [q for r2, q, _ in d if r2 == root])
                        key = (root, tuple((a, b.get_id() if isinstance(b, z3.ExprRef) else b) for a, b in path))
                        if key in leaves or any(_prefix(lf, root, path) for lf in leaves.values()):
                            continue
                        if i >= len(outs):
                            continue        # changed only on the way out: not carried between iterations
                        # drop finer leaves below this one
                        for kk in [kk for kk, lf in leaves.items() if lf.root == root and _is_prefix(path, lf.path)]:
                            del leaves[kk]
                        lf = Leaf(root, path, None)
                        lf.v0 = self._get(base, lf)
                        lf.ph = self._placeholder(lf.v0, '%s%s' % (root, len(leaves)))
                        leaves[key] = lf
                        new = True
                if not new:
                    for lf in leaves.values():
                        lf.after = self._get(after, lf) if after is not None else None
                    self._probe_after = after
                    return
            raise Unsupported('loop frame does not stabilise')
        finally:
            self.quiet -= 1

    # ---- closed forms
    def _resolve(self, base, k, leaves, condf, bodyf, incf, fr):
        if self._probe_after is None:
            # body never completes an iteration normally
            for lf in leaves.values():
                lf.closed = (lambda t, v=lf.v0: v)
                lf.kind = 'const'
            return
        todo = list(leaves.values())
        for rnd in range(10):
            # executes body with what is known so far, placeholders elsewhere
            progress = False
            self._progress = False
            phnames = set()
            for lf in todo:
                phnames |= self._phnames(lf)
            for lf in list(todo):
                cf = self._infer(lf, k, phnames)
                if cf is not None:
                    lf.closed = cf
                    todo.remove(lf)
                    progress = True
            if not todo:
                break
            if not progress and not self._progress:
                self._recursive(todo, k, phnames)
                break
            self._rerun(base, k, leaves, condf, bodyf, incf, fr)
        # verify: body re-establishes every closed form
        for rnd in range(6):
            st = self._rerun(base, k, leaves, condf, bodyf, incf, fr)
            bad = [lf for lf in leaves.values() if not self._check(lf, k, st)]
            if not bad:
                return
            fixed = False
            for lf in bad:
                cf = self._infer(lf, k, set(), head=lf.closed(k))
                if cf is not None:
                    lf.closed = cf
                    fixed = True
                else:
                    raise Unsupported('no loop invariant found for %s (%s)' % (lf.root, lf.kind))
            if not fixed:
                break
        raise Unsupported('loop invariant not confirmed')

    def _phnames(self, lf):
        if isinstance(lf.ph, z3.ExprRef):
            return {lf.ph.decl().name()}
        if isinstance(lf.ph, Base):
            return {lf.ph.tag}
        return set()

    def _head_state(self, base, k, leaves):
        st = base.copy()
        st.pc.append(('fact', k >= 0))
        for lf in leaves.values():
            v = lf.closed(k) if lf.closed is not None else (getattr(lf, 'head', None) or lf.ph)
            self._put(st, lf, v)
        return st

    def _rerun(self, base, k, leaves, condf, bodyf, incf, fr):
        self.quiet += 1
        try:
            st = self._head_state(base, k, leaves)
            heads = {id(lf): self._get(st, lf) for lf in leaves.values()}
            c, after, brk, rets, cst = self._run_once(st, condf, bodyf, incf, fr)
            if after is None:
                raise Unsupported('loop body never completes')
            for lf in leaves.values():
                lf.after = self._get(after, lf)
                lf.ph = heads[id(lf)]
            return after
        finally:
            self.quiet -= 1

    def _names(self, v):
        """names of uninterpreted symbols a value mentions (None: cannot tell)"""
        if isinstance(v, z3.ExprRef):
            return free_funs(v)
        out = set()
        try:
            for t in val_terms(v, self):
                out |= free_funs(t)
        except Unsupported:
            return None
        return out

    def _mentions_ph(self, v, phnames):
        ns = self._names(v)
        if ns is None:
            return True
        return any(n == p or n.startswith(p + '.') for n in ns for p in phnames)

    def _infer(self, lf, k, phnames, head=None):
        """closed form of the leaf at the head of iteration t, or None"""
        a, h = lf.after, lf.ph
        if isinstance(h, z3.ExprRef) and isinstance(a, z3.ExprRef):
            return self._infer_scalar(lf, k, phnames, a, h)
        if isinstance(h, Vec) and isinstance(a, Vec):
            return self._infer_vec(lf, k, phnames, a, h)
        if isinstance(a, (Struct, Opaque, Str)) or isinstance(h, Opaque):
            # last value
            if self._mentions_ph(a, phnames):
                return None
            lf.kind = 'last'
            return lambda t: _last(self, lf.v0, a, k, t)
        return None

    def _delta(self, a, h):
        if a.eq(h):
            return I(0) if a.sort() == _IntS else R(0)
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
            x, y = self._delta(a.arg(1), h), self._delta(a.arg(2), h)
            if x is None or y is None:
                return None
            return ite(a.arg(0), x, y)
        if not z3.is_arith(a):
            return None
        if z3.is_add(a):
            # h + rest, syntactically
            ch = a.children()
            for i, c in enumerate(ch):
                if c.eq(h):
                    rest = ch[:i] + ch[i + 1:]
                    r = rest[0] if len(rest) == 1 else z3.Sum(rest)
                    return r
        d = simp(a - h)
        return d

    def _infer_scalar(self, lf, k, phnames, a, h):
        v0 = lf.v0
        own = set()
        if z3.is_const(h) and h.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            own = {h.decl().name()}
        d = self._delta(a, h) if z3.is_arith(a) else None
        if d is not None and not (free_funs(d) & (phnames | own)) and not self._mentions_any(d, phnames):
            kn = k.decl().name()
            if kn not in free_funs(d):
                lf.kind = 'affine'
                c = as_num(d)
                if c == 0:
                    return lambda t: v0
                if a.sort() == _IntS:
                    return lambda t: iadd(v0, imul(t, d))
                return lambda t: simp(v0 + z3.ToReal(t) * d) if as_int(t) is None else simp(v0 + R(as_int(t)) * d)
            p = _lin(d, k) if a.sort() == _IntS else None
            if p is not None:
                A, B = p
                lf.kind = 'quadratic'
                return lambda t: iadd(v0, iadd(imul(B, t), imul(A, t * (t - 1) / 2) if as_int(t) is None else I(0) if as_int(t) in (0, 1) else imul(A, I(as_int(t) * (as_int(t) - 1) // 2))))
            lf.kind = 'sum'
            sd = self.sum_def(k, d)
            return lambda t: v0 if as_int(t) == 0 else (v0 + sd(t))
        if not (free_funs(a) & own) and not self._mentions_any(a, phnames):
            lf.kind = 'last'
            return lambda t: _last(self, v0, a, k, t)
        return None

    def _mentions_any(self, t, phnames):
        ns = free_funs(t)
        return any(n == p or n.startswith(p + '.') for n in ns for p in phnames)

    def sum_def(self, k, d):
        """function t -> sum_{k<t} d(k), memoised up to renaming of ghosts"""
        fc = free_consts(d)
        args = [g for g in self.ghosts if g.decl().name() in fc and not g.eq(k)]
        canon = [z3.Int('g!%d' % i) for i in range(len(args))]
        kc = z3.Int('g!k')
        body = z3.substitute(simp(d) if d.sort() == _IntS else d, *([(k, kc)] + list(zip(args, canon))))
        key = body.get_id()
        sd = _sumkeys.get(key)
        if sd is None:
            sd = SumDef('sum!%d' % len(SUMS), canon, kc, body)
            SUMS[sd.name] = sd
            _sumkeys[key] = sd
            c = _nonneg_int(body)
            if c:
                from .symex import RANGES
                RANGES[sd.name] = (0, None) if False else (None, None)
        return lambda t: sd.fn(*(args + [t]))

    # ---- sequences
    def _segs_of(self, a, h):
        """segments appended to head object h, or None"""
        if a is h:
            return []
        if isinstance(a, Push):
            p = self._segs_of(a.prev, h)
            if p is not None:
                return p + [('items', list(a.items))]
            # Push flattened over the head's own items
            if isinstance(h, Push) and a.prev is h.prev and len(a.items) >= len(h.items) and all(x is y for x, y in zip(a.items, h.items)):
                return [('items', list(a.items[len(h.items):]))] if len(a.items) > len(h.items) else []
            return None
        if isinstance(a, Comp):
            p = self._segs_of(a.prev, h)
            return None if p is None else p + [('comp', a.n, a.at)]
        if isinstance(a, App):
            p = self._segs_of(a.prev, h)
            return None if p is None else p + [('comp', a.n, lambda t, f=a.fn: [('items', [f(t)])])]
        if isinstance(a, VIte):
            x, y = self._segs_of(a.a, h), self._segs_of(a.b, h)
            if x is None or y is None:
                return None
            # common prefix
            pre = []
            while x and y and x[0] is y[0]:
                pre.append(x.pop(0))
                y.pop(0)
            return pre + [('if', a.c, x, y)]
        return None

    def _stores_of(self, a, h):
        """store chain over h: list of ('st', idx, val) | ('fam', Fam)   innermost first; None if not"""
        if a is h:
            return []
        if isinstance(a, Store):
            p = self._stores_of(a.prev, h)
            return None if p is None else p + [('st', a.i, a.val)]
        if isinstance(a, Fam):
            p = self._stores_of(a.prev, h)
            return None if p is None else p + [('fam', a.dims, a.fn)]
        if isinstance(a, VIte):
            x, y = self._stores_of(a.a, h), self._stores_of(a.b, h)
            if x is None or y is None:
                return None
            if len(x) == 1 and not y and x[0][0] == 'st':
                return [('st', x[0][1], self.merge_val(a.c, x[0][2], h.get(x[0][1], self)))]
            if len(y) == 1 and not x and y[0][0] == 'st':
                return [('st', y[0][1], self.merge_val(a.c, h.get(y[0][1], self), y[0][2]))]
            if len(x) == len(y) and all(p[0] == 'st' == q[0] and p[1].eq(q[1]) for p, q in zip(x, y)):
                return [('st', p[1], self.merge_val(a.c, p[2], q[2])) for p, q in zip(x, y)]
            if not x and len(y) == 1 and y[0][0] == 'fam':
                pass
        return None

    def _infer_vec(self, lf, k, phnames, a, h):
        kn = k.decl().name()
        if a is h:
            lf.kind = 'affine'
            return lambda t: lf.v0
        segs = self._segs_of(a, h)
        if segs is not None:
            try:
                names = set()
                for t in seg_terms(segs, self):
                    names |= free_funs(t)
            except Unsupported:
                return None
            if any(n == p or n.startswith(p + '.') for n in names for p in phnames):
                if isinstance(h, Base) and not getattr(lf, 'guess', False):
                    # reads of the part that was there before the loop
                    lf.guess = True
                    v0, g0 = lf.v0, h.getter
                    lf.head = Base(h.ety, h.n, lambda i: v0.get(i, self) if self.provable(z3.And(i >= 0, i < v0.len())) else g0(i), tag=h.tag)
                    lf.head.__dict__['_nomemo'] = True
                    self._progress = True
                return None
            own = getattr(h, 'ownname', None)
            if own and any(n == own or n.startswith(own + '.') for n in names):
                raise Unsupported('elements appended in a loop depend on earlier ones')
            lf.kind = 'append'
            return self._append_closed(lf, k, segs)
        st = self._stores_of(a, h)
        if st is not None:
            lf.kind = 'store'
            return self._store_closed(lf, k, st, phnames)
        if self._mentions_ph(a, phnames):
            return None
        # replaced as a whole
        lf.kind = 'last'
        return lambda t: _last(self, lf.v0, a, k, t)

    def _append_closed(self, lf, k, segs):
        ety = lf.v0.ety
        L = seglen(segs)
        v0 = lf.v0
        n0 = v0.len()
        if k.decl().name() not in free_funs(L):
            length = lambda t: iadd(n0, imul(t, L))
        else:
            p = _lin(L, k)
            if p is not None:
                A, B = p
                length = lambda t: iadd(n0, iadd(imul(B, t), imul(A, I(0) if as_int(t) in (0, 1) else t * (t - 1) / 2)))
            else:
                sd = self.sum_def(k, L)
                length = lambda t: n0 if as_int(t) == 0 else iadd(n0, sd(t))

        def at(t):
            return sub_segs(segs, [(k, t)])

        def closed(t):
            if as_int(t) == 0:
                return v0
            if v0.len() is not None and isinstance(v0, Comp) and False:
                pass
            return Comp(ety, v0, t, at, length(t))
        return closed

    def _store_closed(self, lf, k, st, phnames):
        ety = lf.v0.ety
        v0 = lf.v0
        fams = []
        kn = k.decl().name()
        for s in st:
            if s[0] == 'st':
                idx, val = s[1], s[2]
                if self._mentions_any(idx, phnames):
                    return None
                p = _lin(idx, k)
                if p is None:
                    return None
                A, B = p
                a = as_int(A)
                if a == 0:
                    # same cell every iteration: last value
                    if self._mentions_ph(val, phnames):
                        return None
                    fams.append(('cell', B, val))
                    continue
                if a is None and not self.provable(A > 0):
                    return None
                if self._mentions_ph(val, phnames):
                    # reads of the sequence at other positions: retry with a head that answers
                    # reads outside what has been written
                    val = None
                fams.append(('lin', A, B, val))
            else:
                dims, fn = s[1], s[2]
                if any(self._mentions_any(x, phnames) for d in dims for x in d):
                    return None
                Bs, A = [], None
                base = I(0)
                for n, b, sd in dims:
                    if kn in free_funs(n) or kn in free_funs(sd):
                        return None
                    base = iadd(base, b)
                p = _lin(base, k)
                if p is None:
                    return None
                A, B = p
                probe = fn(*[z3.Int('j!fam%d' % i) for i in range(len(dims))])
                if as_int(A) == 0:
                    return None
                if not self.provable(A > 0):
                    return None
                # inner extent must fit the stride
                ext = I(1)
                for n, b, sd in dims:
                    ext = iadd(ext, imul(sd, isub(n, I(1))))
                if not self.provable(ext <= A):
                    return None
                if self._mentions_ph(probe, phnames):
                    fn = None
                fams.append(('fam', A, B, dims, fn))
        # distinct families must be disjoint
        for i in range(len(fams)):
            for j in range(i):
                if not self._disjoint(fams[i], fams[j], k):
                    return None
        unk = {}

        def closed(t):
            v = v0
            if as_int(t) == 0:
                return v
            for fi, f in enumerate(fams):
                if f[0] == 'cell':
                    el = _last(self, v0.get(f[1], self), f[2], k, t)
                    v = self.store_elem(v, f[1], el)
                elif f[0] == 'lin':
                    _, A, B, val = f
                    a = as_int(A)
                    if val is None:
                        nm = unk.setdefault(fi, fresh_name('ph.written'))
                        self._guess_ranges(v0, nm)
                        fn = lambda q, nm=nm: self.symval(ety, nm, (q,))
                    else:
                        fn = lambda q, val=val: sub_val(val, [(k, q)])
                    if a is not None and a < 0:
                        v = Fam(ety, v, [(t, iadd(B, imul(A, isub(t, I(1)))), I(-a))], lambda q, fn=fn, t=t: fn(isub(isub(t, I(1)), q)))
                    else:
                        v = Fam(ety, v, [(t, B, A)], fn)
                else:
                    _, A, B, dims, fn0 = f
                    if fn0 is None:
                        nm = unk.setdefault(fi, fresh_name('ph.written'))
                        fn = lambda *q, nm=nm: self.symval(ety, nm, q)
                    else:
                        fn = lambda q, *qs, fn0=fn0, nd=len(dims): sub_val(fn0(*qs), [(k, q)])
                    nd = [(n, I(0), s) for n, b, s in dims]
                    v = Fam(ety, v, [(t, B, A)] + nd, fn)
            return v
        if unk or any((f[0] == 'lin' and f[3] is None) or (f[0] == 'fam' and f[4] is None) for f in fams):
            lf.kind = 'store?'
        return closed

    def _disjoint(self, f, g, k):
        def lin(x):
            if x[0] == 'lin':
                return x[1], x[2]
            return None
        a, b = lin(f), lin(g)
        if a is None or b is None:
            return False
        s, s2 = as_int(a[0]), as_int(b[0])
        d = as_int(isub(a[1], b[1]))
        return s is not None and s == s2 and d is not None and d % abs(s) != 0

    # ---- check
    def _check(self, lf, k, after):
        """after the body from closed(k), the leaf equals closed(k+1)"""
        a = self._get(after, lf)
        want = lf.closed(k + 1)
        if isinstance(a, z3.ExprRef):
            if not isinstance(want, z3.ExprRef):
                return False
            if lf.kind in ('sum',):
                h = lf.closed(k)
                d = self._delta(a, h)
                d2 = self._delta(self._sum_unfold(lf, k), h)
                if d is not None and d2 is not None and simp(d - d2).eq(simp(d2 - d2)):
                    return True
                return d is not None and d2 is not None and self._eqv(d, d2)
            if lf.kind == 'rec':
                return True
            return self._eqv(a, want)
        if isinstance(a, Vec):
            h = lf.closed(k)
            if lf.kind == 'append':
                segs = self._segs_of(a, lf.ph)
                if segs is None:
                    return False
                cur = want.at(k) if isinstance(want, Comp) else None
                if cur is None:
                    return False
                return self.segs_eq(segs, cur)
            if lf.kind in ('store', 'store?'):
                st = self._stores_of(a, lf.ph)
                if st is None or lf.kind == 'store?':
                    return False
                # the family's element at t=k must be what was stored now
                old = lf.closed
                new = self._store_closed(lf, k, st, set())
                if new is None:
                    return False
                return self._fam_eq(old(k + 1), new(k + 1), k)
            if lf.kind == 'affine':
                return a is lf.ph
            if lf.kind == 'last':
                return self.val_eq(a, want)
            return False
        if lf.kind == 'last':
            try:
                return self.val_eq(a, _last(self, lf.v0, a, k, k + 1)) and not self._mentions_ph(a, set())
            except Unsupported:
                return False
        return self.val_eq(a, want)

    def _fam_eq(self, x, y, k):
        while isinstance(x, Fam) and isinstance(y, Fam):
            if len(x.dims) != len(y.dims):
                return False
            js = []
            for (n, b, s), (m, c, r) in zip(x.dims, y.dims):
                if not (self._eqv(n, m) and self._eqv(b, c) and self._eqv(s, r)):
                    return False
                js.append(z3.Int(fresh_name('j')))
            save = self.st
            self.st = save.copy()
            self.st.pc += [('fact', z3.And(j >= 0, j < n)) for j, (n, _, _) in zip(js, x.dims)]
            try:
                if not self.val_eq(x.fn(*js), y.fn(*js)):
                    return False
            finally:
                self.st = save
            x, y = x.prev, y.prev
        if isinstance(x, Store) and isinstance(y, Store):
            return self._eqv(x.i, y.i) and self.val_eq(x.val, y.val) and self._fam_eq(x.prev, y.prev, k)
        return x is y

    def _sum_unfold(self, lf, k):
        nm = None
        c = lf.closed(k)
        for n in free_funs(c):
            if n in SUMS:
                nm = n
        # head + delta(k)
        want = lf.closed(k + 1)
        sd = None
        for s in subs(want):
            if z3.is_app(s) and s.decl().name() in SUMS and any(z3.eq(s.arg(s.num_args() - 1), simp(k + 1)) or s.arg(s.num_args() - 1).eq(k + 1) for _ in [0]):
                sd = s
        if sd is None:
            return c
        S = SUMS[sd.decl().name()]
        args = sd.children()[:-1]
        return c + z3.substitute(S.delta, *([(S.k, k)] + list(zip(S.args, args))))

    def _eqv(self, a, b):
        if a.eq(b):
            return True
        if a.sort() != b.sort():
            return False
        if z3.is_arith(a):
            d = simp(a - b)
            c = as_num(d)
            if c is not None:
                return c == 0
            return self.provable(a == b)
        return self.provable(a == b)

    def val_eq(self, a, b):
        """sound (incomplete) equality of values"""
        if a is b:
            return True
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return self._eqv(a, b)
        if isinstance(a, Struct) and isinstance(b, Struct):
            return a.cls == b.cls and all(self.val_eq(a.f[x], b.f[x]) for x in a.f)
        if isinstance(a, Vec) and isinstance(b, Vec):
            if isinstance(a, Lit) and isinstance(b, Lit):
                return len(a.items) == len(b.items) and all(self.val_eq(x, y) for x, y in zip(a.items, b.items))
            if not self._eqv(a.len(), b.len()):
                return False
            j = z3.Int(fresh_name('j'))
            save = self.st
            self.st = save.copy()
            self.st.pc.append(('fact', z3.And(j >= 0, j < a.len())))
            try:
                return self.val_eq(a.get(j, self), b.get(j, self))
            except Unsupported:
                return False
            finally:
                self.st = save
        if isinstance(a, (Ptr,)) and isinstance(b, Ptr):
            return a.same(b)
        if isinstance(a, Iter) and isinstance(b, Iter):
            return a.lv.same(b.lv) and self._eqv(a.i, b.i)
        if isinstance(a, Str) and isinstance(b, Str):
            return a.p == b.p
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return True
        return False

    def segs_eq(self, x, y):
        if len(x) != len(y):
            return False
        for s, t in zip(x, y):
            if s[0] != t[0]:
                return False
            if s[0] == 'items':
                if len(s[1]) != len(t[1]) or not all(self.val_eq(a, b) for a, b in zip(s[1], t[1])):
                    return False
            elif s[0] == 'if':
                if not self._eqv(s[1], t[1]) or not self.segs_eq(s[2], t[2]) or not self.segs_eq(s[3], t[3]):
                    return False
            else:
                if not self._eqv(s[1], t[1]):
                    return False
                j = z3.Int(fresh_name('j'))
                save = self.st
                self.st = save.copy()
                self.st.pc.append(('fact', z3.And(j >= 0, j < s[1])))
                try:
                    if not self.segs_eq(s[2](j), t[2](j)):
                        return False
                finally:
                    self.st = save
        return True

    def _recursive(self, todo, k, phnames):
        """remaining scalar leaves: simultaneous recursive functions"""
        if not all(isinstance(lf.ph, z3.ExprRef) and isinstance(lf.after, z3.ExprRef) for lf in todo):
            raise Unsupported('loop invariant: %s' % ', '.join(repr(lf) for lf in todo if not isinstance(lf.ph, z3.ExprRef)))
        args = [g for g in self.ghosts if not g.eq(k)]
        fns = []
        for lf in todo:
            nm = fresh_name('rec')
            fns.append(z3.Function(nm, *([_IntS] * (len(args) + 1) + [lf.ph.sort()])))
        pairs = [(lf.ph, f(*(args + [k]))) for lf, f in zip(todo, fns)]
        for lf, f in zip(todo, fns):
            step = z3.substitute(lf.after, *pairs)
            RECS[f.name()] = RecDef(f.name(), args, k, lf.v0, step, [g.name() for g in fns])
            lf.kind = 'rec'
            lf.closed = lambda t, f=f, v0=lf.v0: v0 if as_int(t) == 0 else f(*(args + [t]))

    # ---- exit
    def _finish_loop(self, base, k, leaves, condf, bodyf, incf, fr, node):
        n = z3.Int(fresh_name('n'))
        st = self._head_state(base, k, leaves)
        # number of iterations
        self.quiet += 1
        try:
            self.st = st.copy()
            c = z3.simplify(condf())
        finally:
            self.quiet -= 1
        save = self.st
        self.st = base.copy()
        count, exact = self._trip(c, k)
        self.st = save
        facts = []
        if count is not None:
            n = count
        else:
            if z3.is_true(c):
                facts = [n >= 0]
            else:
                facts = [n >= 0, z3.Not(z3.substitute(c, (k, n)))]
                if k.decl().name() in free_funs(c):
                    facts.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), c)))
            self.assumptions.add('loops without a computed trip count terminate')
        # obligations of the body, from the invariant
        st.pc.append(('fact', k < n))
        for f in facts:
            if not z3.is_quantifier(f):
                st.pc.append(('fact', f))
        head = st.copy()
        npc = len(head.pc)
        cc, after, brk, rets, cst = self._run_once(st, condf, bodyf, incf, fr)
        # final state
        recs = [lf for lf in leaves.values() if lf.kind == 'rec']
        rec_facts = []
        for lf in recs:
            f = None
            cl = lf.closed(k)
            rd = RECS[cl.decl().name()]
            rec_facts.append(lf.closed(I(0)) == cl.decl()(*(list(cl.children()[:-1]) + [I(0)])))
            rec_facts.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), cl.decl()(*(list(cl.children()[:-1]) + [k + 1])) == rd.step)))
        outs = []
        early = brk + rets
        if not early:
            fin = base.copy()
            for f in facts + rec_facts:
                fin.pc.append(('fact', f))
            for lf in leaves.values():
                self._put(fin, lf, lf.closed(n))
            self.last_loop = (k, n, leaves)
            if z3.is_true(c):
                raise Unsupported('endless loop')
            return [(fin, None)]
        # early exits
        def suffix(s):
            return conj([t for kk, t in s.pc[npc:] if kk == 'cond' and not t.eq(cc)])
        e = z3.simplify(z3.Or([suffix(s) for s, _ in early]))
        if z3.is_true(e):
            # always leaves in the first iteration it reaches
            m = I(0)
        else:
            m = z3.Int(fresh_name('m'))
        res = []
        stays = base.copy()
        b = z3.Bool(fresh_name('early'))
        if z3.is_true(e):
            # iteration 0 runs iff n > 0
            bcond = n > 0 if as_int(n) is None else z3.BoolVal(as_int(n) > 0)
        else:
            bcond = b
        stays.pc.append(('cond', z3.Not(bcond)))
        for f in facts + rec_facts:
            stays.pc.append(('fact', f))
        if not z3.is_true(e):
            stays.pc.append(('fact', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Not(e)))))
        for lf in leaves.values():
            self._put(stays, lf, lf.closed(n))
        if not z3.is_true(c):
            res.append((stays, None))
        pre = [('cond', bcond)]
        for f in facts + rec_facts:
            pre.append(('fact', f))
        if not z3.is_true(e):
            pre += [('fact', z3.And(m >= 0, m < n)), ('fact', z3.substitute(e, (k, m))),
                    ('fact', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), z3.Not(e))))]
        sub = [(k, m)]
        for lst, isret in ((brk, False), (rets, True)):
            for s, v in lst:
                t = base.copy()
                t.pc = list(base.pc) + list(pre)
                for kk, x in s.pc[npc:]:
                    if x.eq(cc):
                        continue
                    t.pc.append((kk, z3.substitute(x, *sub)))
                for r, x in s.store.items():
                    if r in base.store and x is base.store[r]:
                        continue
                    t.store[r] = sub_val(x, sub)
                v2 = sub_val(v, sub) if v is not None else None
                if isret:
                    fr.rets.append((t, v2))
                else:
                    res.append((t, None))
        self.st = None
        return res

    def _trip(self, c, k):
        """iteration count for a condition linear in k"""
        if z3.is_true(c):
            return None, False
        neg = False
        while z3.is_not(c):
            c = c.arg(0)
            neg = not neg
        kd = c.decl().kind() if z3.is_app(c) else None
        ops = {z3.Z3_OP_LT: '<', z3.Z3_OP_LE: '<=', z3.Z3_OP_GT: '>', z3.Z3_OP_GE: '>=', z3.Z3_OP_EQ: '==', z3.Z3_OP_DISTINCT: '!='}
        if kd not in ops:
            if kd == z3.Z3_OP_AND and not neg:
                return None, False
            return None, False
        op = ops[kd]
        if neg:
            op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[op]
        x, y = c.arg(0), c.arg(1)
        if x.sort() != _IntS:
            # real comparison of to_real terms
            return None, False
        d = simp(x - y)
        p = _lin(d, k)
        if p is None:
            return None, False
        A, B = p
        a = as_int(A)
        if a is None or a == 0:
            return None, False
        # a*k + B  op  0
        if op == '!=':
            if a < 0:
                a, B = -a, simp(-B)
            if a != 1:
                return None, False
            lim = simp(-B)
            if self.provable(lim >= 0):
                return lim, True
            self.oblige(lim >= 0, 'loop counts up to a bound it can reach', 'term', None)
            return lim, True
        if op in ('>', '>='):
            a, B = -a, simp(-B)
            op = {'>': '<', '>=': '<='}[op]
        if op == '<=':
            B = isub(B, I(1))
            op = '<'
        if op != '<' or a < 0:
            return None, False
        # a*k < -B
        lim = simp(-B)
        if a != 1:
            if as_int(lim) is not None:
                lim = I(-((-as_int(lim)) // a))
            else:
                lim = (lim + (a - 1)) / a
        if as_int(lim) is not None:
            return I(max(as_int(lim), 0)), True
        if self.provable(lim >= 0):
            return lim, True
        return ite(lim > 0, lim, I(0)), True


def subs(t):
    seen, st, out = set(), [t], []
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        out.append(x)
        if not z3.is_quantifier(x):
            st.extend(x.children())
    return out


def _nonneg_int(t):
    return False


def _prefix(lf, root, path):
    return lf.root == root and _is_prefix(lf.path, path)


def _coarsen(path, others):
    """two different element positions of one sequence may coincide: take the whole sequence"""
    for q in others:
        for n in range(min(len(path), len(q))):
            (a, x), (b, y) = path[n], q[n]
            if a == b == 'i' and not x.eq(y) and (as_int(x) is None or as_int(y) is None):
                path = path[:n]
                break
            if a != b or (a == 'f' and x != y):
                break
            if a == 'i' and not x.eq(y):
                break
    return path


def _is_prefix(p, q):
    if len(p) > len(q):
        return False
    for (a, x), (b, y) in zip(p, q):
        if a != b:
            return False
        if isinstance(x, z3.ExprRef):
            if not x.eq(y):
                return False
        elif x != y:
            return False
    return True


def _last(ex, v0, a, k, t):
    if as_int(t) == 0:
        return v0
    prev = sub_val(a, [(k, isub(t, I(1)))])
    if as_int(t) is not None:
        return prev
    if ex.provable(t > 0):
        return prev
    return ex.merge_val(t > 0, prev, v0)


def _lin(d, k):
    """d = A*k + B with A, B free of k, or None"""
    d = simp(d)
    kn = k.decl().name()
    terms = d.children() if z3.is_add(d) else [d]
    A, B = I(0), I(0)
    for t in terms:
        if kn not in free_funs(t):
            B = iadd(B, t)
            continue
        if t.eq(k):
            A = iadd(A, I(1))
            continue
        if z3.is_mul(t):
            fs = _factors(t)
            ks = [f for f in fs if f.eq(k)]
            if len(ks) == 1 and all(kn not in free_funs(f) for f in fs if not f.eq(k)):
                r = I(1)
                for f in fs:
                    if not f.eq(k):
                        r = imul(r, f)
                A = iadd(A, r)
                continue
        return None
    return A, B


from .values import _factors


def val_terms(v, ex):
    """z3 terms occurring in a value (generic elements for sequences)"""
    if isinstance(v, z3.ExprRef):
        return [v]
    if isinstance(v, Struct):
        return [t for x in v.f.values() for t in val_terms(x, ex)]
    if isinstance(v, Lit):
        return [t for x in v.items for t in val_terms(x, ex)]
    if isinstance(v, (Comp,)):
        return [v.len()] + val_terms(v.prev, ex) + seg_terms(v.at(z3.Int('t!len')), ex)
    if isinstance(v, (App,)):
        return [v.len()] + val_terms(v.prev, ex) + val_terms(v.fn(z3.Int('t!len')), ex)
    if isinstance(v, Push):
        return val_terms(v.prev, ex) + [t for x in v.items for t in val_terms(x, ex)]
    if isinstance(v, Vec):
        return [v.len()] + val_terms(v.get(z3.Int('t!len'), ex), ex)
    if isinstance(v, Ptr):
        out = []
        if v.off is not None:
            out.append(v.off)
        return out
    if isinstance(v, Iter):
        return [v.i]
    if isinstance(v, PIte):
        return [v.c] + val_terms(v.a, ex) + val_terms(v.b, ex)
    if isinstance(v, Str):
        out = []
        for p in v.p:
            if isinstance(p, tuple):
                for x in p:
                    if isinstance(x, (z3.ExprRef, Str)):
                        out += val_terms(x, ex)
        return out
    if v is None or isinstance(v, (Opaque, FnRef, str)):
        return []
    if hasattr(v, 'terms'):
        return v.terms(ex)
    raise Unsupported('terms of %s' % type(v).__name__)


def seg_terms(segs, ex):
    out = []
    for s in segs:
        if s[0] == 'items':
            for x in s[1]:
                out += val_terms(x, ex)
        elif s[0] == 'if':
            out.append(s[1])
            out += seg_terms(s[2], ex) + seg_terms(s[3], ex)
        else:
            out.append(s[1])
            out += seg_terms(s[2](z3.Int('t!len')), ex)
    return out

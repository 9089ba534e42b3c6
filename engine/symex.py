"""Symbolic executor with inductive loop summaries over the extracted LLVM IR."""
import re, time
import terms as t
from terms import I, TRUE, FALSE
import solver
from solver import QF, check_sat, linear_in
import llparse
from llparse import Unsupported, get_func, get_global


class Undecided(Unsupported):
    pass


class Ptr:
    __slots__ = ('b', 'off')

    def __init__(self, b, off):
        self.b, self.off = b, off

    def __repr__(self):
        return 'Ptr(%s,%r)' % (self.b, self.off)

    def same(self, o):
        return isinstance(o, Ptr) and self.b == o.b and self.off is o.off


NULL = Ptr(None, I(0))


class Undef:
    pass


UNDEF = Undef()


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr):
        return a.same(b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same_val(x, y) for x, y in zip(a, b))
    return False


def subst_val(v, m):
    if isinstance(v, t.T):
        return t.subst(v, m)
    if isinstance(v, Ptr):
        o = t.subst(v.off, m)
        return v if o is v.off else Ptr(v.b, o)
    if isinstance(v, tuple):
        return tuple(subst_val(x, m) for x in v)
    return v


# ------------------------------------------------------------------ symbolic arrays
class Arr:
    pass


class AUnk(Arr):
    def __init__(self, base, sort):
        self.base, self.sort = base, sort

    def read(self, p, ctx):
        if self.sort == 'Bool8':
            return t.ite(t.sel(self.base, p, 'B'), I(1), I(0))
        return t.sel(self.base, p, self.sort)

    def subst(self, m):
        return self


class AConst(Arr):
    def __init__(self, v):
        self.v = v
        self.sort = v.sort

    def read(self, p, ctx):
        return self.v

    def subst(self, m):
        v = t.subst(self.v, m)
        return self if v is self.v else AConst(v)


class AStore(Arr):
    def __init__(self, base, idx, val):
        self.base, self.idx, self.val = base, idx, val
        self.sort = base.sort

    def read(self, p, ctx):
        c = t.eq(p, self.idx)
        c = ctx.dec(c)
        if c is TRUE:
            return self.val
        b = self.base.read(p, ctx)
        if c is FALSE:
            return b
        return t.ite(c, self.val, b)

    def subst(self, m):
        b, i, v = self.base.subst(m), t.subst(self.idx, m), t.subst(self.val, m)
        return self if b is self.base and i is self.idx and v is self.val else AStore(b, i, v)


class Fam:
    """writes A[idx(vars)] = val(vars) for all vars in 0<=v<hi with guard; each location written at most once"""
    def __init__(self, vars_, idx, val, guard):
        self.vars, self.idx, self.val, self.guard = tuple(vars_), idx, val, guard

    def subst(self, m):
        m = {k: v for k, v in m.items() if all(k is not b for b, _ in self.vars)}
        vs, i, v, g = tuple((v, t.subst(h, m)) for v, h in self.vars), t.subst(self.idx, m), t.subst(self.val, m), t.subst(self.guard, m)
        if i is self.idx and v is self.val and g is self.guard and all(a[1] is b[1] for a, b in zip(vs, self.vars)):
            return self
        return Fam(vs, i, v, g)

    def dom(self, m):
        out = []
        for v, hi in self.vars:
            out.append(t.le(I(0), m[v]))
            out.append(t.lt(m[v], t.subst(hi, m)))
        out.append(t.subst(self.guard, m))
        return t.and_(*out)

    def dom_vars(self):
        return self.dom({v: v for v, _ in self.vars})

    # -> (hit condition, substitution) such that: exists vars in dom with idx(vars)=p  <=>  hit ; and then vars=subst
    def solve(self, p, ctx):
        if any(v in t.fvs(hi) for v, _ in self.vars for _, hi in self.vars):
            pass
        m, cond = solve_index(self.idx, [v for v, _ in self.vars], p, ctx, self.dom_vars())
        return t.and_(cond, self.dom(m)), m


def reindex(idx, vs, ctx, dom):
    """idx uses v only as v / N and v % N:  v = i * N + j with 0 <= j < N"""
    for v in vs:
        qs = [s for s in t.subterms([idx]) if s.op in ('tdiv', 'trem') and s.a[0] is v and v not in t.fvs(s.a[1])]
        if not qs or len({s.a[1] for s in qs}) != 1:
            continue
        N = qs[0].a[1]
        i, j = t.fresh('qi', 'I'), t.fresh('qj', 'I')
        rep = {t.mk('tdiv', (v, N), 'I'): i, t.mk('trem', (v, N), 'I'): j}
        if N.op != 'ic' and not ctx.prove(t.gt(N, I(0)), [dom]):
            rep[t.mk('tdiv', (v, N), 'I')] = t.neg(i)
            N = t.neg(N)
        idx2 = t.transform(idx, lambda z: rep.get(z, z))
        if v in t.fvs(idx2):
            continue
        if not (ctx.prove(t.gt(N, I(0)), [dom]) and ctx.prove(t.ge(v, I(0)), [dom])):
            continue
        val = t.add(t.mul(i, N), j)
        jdom = t.and_(t.le(I(0), j), t.lt(j, N), t.le(I(0), i))
        dom2 = t.and_(t.subst(t.transform(dom, lambda z: rep.get(z, z)), {v: val}), jdom)
        return v, val, i, j, jdom, idx2, dom2
    return None


def coef_split(idx, vs):
    """idx = sum c_i v_i + d, linear; returns ({v:c}, d)"""
    cs = {}
    d = idx
    for v in vs:
        cd = linear_in(d, v)
        if cd is None:
            raise Unsupported('non-affine index %r' % idx)
        cs[v], d = cd
    for v in vs:
        if any(v in t.fvs(c) for c in cs.values()):
            raise Unsupported('non-affine index %r' % idx)
    return cs, d


def solve_index(idx, vs, p, ctx, dom):
    """Unique solution of idx(vs) = p over dom, as (subst, extra condition)."""
    re_ = reindex(idx, vs, ctx, dom)
    if re_ is not None:
        v, val, i, j, jdom, idx2, dom2 = re_
        m, c = solve_index(idx2, [x for x in vs if x is not v] + [i, j], p, ctx, dom2)
        c = t.and_(c, t.subst(jdom, m))
        m2 = {x: y for x, y in m.items() if x is not i and x is not j}
        m2[v] = t.subst(val, m)
        return m2, c
    cs, d = coef_split(idx, vs)
    zero = [v for v in vs if cs[v] is I(0)]
    if zero:
        raise Unsupported('index independent of a loop variable')
    if not vs:
        return {}, t.eq(idx, p)
    if len(vs) == 1:
        v = vs[0]
        c = cs[v]
        dd = t.sub(p, d)
        q = t.div_exact(dd, c)
        if q is None:
            # p may equal to  ... modulo facts; use C division
            if c.op != 'ic' and not ctx.prove(t.ne(c, I(0)), [dom]):
                raise Unsupported('stride may be zero: %r' % c)
            q = ctx.quot(dd, c)
            r = t.sub(dd, t.mul(q, c))
            return {v: q}, t.eq(r, I(0))
        if c.op != 'ic' and not ctx.prove(t.ne(c, I(0)), [dom]):
            raise Unsupported('stride may be zero: %r' % c)
        return {v: q}, TRUE
    # several variables: find a modulus M
    cands = []
    for v in vs:
        c = cs[v]
        for mono, k in t.poly(c).items():
            for a in mono:
                cands.append(a)
        if c.op == 'ic' and abs(c.a[0]) > 1:
            cands.append(I(abs(c.a[0])))
        elif len(t.poly(c)) > 1:
            cands.append(c)
    seen = set()
    err = None
    for M in cands:
        if M.id in seen:
            continue
        seen.add(M.id)
        major = [v for v in vs if t.div_exact(cs[v], M) is not None]
        minor = [v for v in vs if v not in major]
        if not major or not minor:
            continue
        dq, dr = t.poly_divmod(d, M)
        U = dq
        for v in major:
            U = t.add(U, t.mul(t.div_exact(cs[v], M), v))
        V = dr
        for v in minor:
            V = t.add(V, t.mul(cs[v], v))
        # 0 <= V < M on the domain
        for sh in (0, 1, -1):
            V1 = t.add(V, t.scale(M, sh))
            if ctx.prove(t.le(I(0), V1), [dom]) and ctx.prove(t.lt(V1, M), [dom]):
                U, V = t.sub(U, I(sh)), V1
                break
        else:
            err = 'remainder not within modulus %r: %r' % (M, V)
            continue
        q, r = t.poly_divmod(p, M)
        if not (ctx.prove(t.le(I(0), r)) and ctx.prove(t.lt(r, M))):
            if not (ctx.prove(t.le(I(0), p)) and ctx.prove(t.gt(M, I(0)))):
                # p outside [0,..): cannot be decomposed by C division
                if not ctx.prove(t.gt(M, I(0)), [dom]):
                    err = 'cannot decompose index'
                    continue
                # floor decomposition with fresh atoms
                q = t.app('floordiv', (p, M), 'I')
                raise Unsupported('cannot decompose index %r by %r' % (p, M))
            q = t.tdiv(p, M)
            r = t.trem(p, M)
        m1, c1 = solve_index(U, major, q, ctx, dom)
        m2, c2 = solve_index(V, minor, r, ctx, dom)
        m = dict(m1)
        m.update(m2)
        return m, t.and_(c1, c2)
    raise Unsupported('cannot invert index %r (%s)' % (idx, err))


class AFam(Arr):
    def __init__(self, base, fams):
        self.base, self.fams = base, fams
        self.sort = base.sort

    def read(self, p, ctx):
        out = None
        res = []
        for f in self.fams:
            hit, m = f.solve(p, ctx)
            hit = ctx.dec(hit)
            if hit is FALSE:
                continue
            v = t.subst(f.val, m)
            if hit is TRUE:
                return v if not res else self._wrap(res, v)
            res.append((hit, v))
        return self._wrap(res, self.base.read(p, ctx))

    def _wrap(self, res, v):
        for h, x in reversed(res):
            v = t.ite(h, x, v)
        return v

    def subst(self, m):
        b, fs = self.base.subst(m), [f.subst(m) for f in self.fams]
        return self if b is self.base and all(x is y for x, y in zip(fs, self.fams)) else AFam(b, fs)


class Block:
    __slots__ = ('kind', 'size', 'alive', 'heap', 'cells', 'es', 'arr', 'name', 'default', 'sort', 'align')

    def __init__(self, kind, size, name, heap=None):
        self.kind, self.size, self.name, self.heap = kind, size, name, heap
        self.alive = True
        self.cells = {}
        self.es = None
        self.arr = None
        self.default = None
        self.sort = None
        self.align = 1

    def copy(self):
        b = Block(self.kind, self.size, self.name, self.heap)
        b.alive, b.cells, b.es, b.arr, b.default, b.sort, b.align = self.alive, dict(self.cells), self.es, self.arr, self.default, self.sort, self.align
        return b


class State:
    __slots__ = ('ex', 'env', 'mem', 'pc', 'qf', 'inputs', 'exc', 'term_ok', 'seeds', 'names', 'notes', 'br')

    def __init__(self, ex):
        self.ex = ex
        self.env, self.mem, self.pc, self.qf, self.inputs = {}, {}, [], [], []
        self.exc = None
        self.term_ok = FALSE
        self.seeds = []
        self.names = {}
        self.notes = []
        self.br = []

    def copy(self):
        s = State(self.ex)
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.qf = list(self.qf)
        s.inputs = list(self.inputs)
        s.exc = self.exc
        s.term_ok = self.term_ok
        s.seeds = list(self.seeds)
        s.names = dict(self.names)
        s.notes = list(self.notes)
        s.br = list(self.br)
        return s

    def assume(self, c):
        for x in solver.conj(c):
            if x is not TRUE:
                self.pc.append(x)

    def wblock(self, b):
        n = self.mem[b].copy()
        self.mem[b] = n
        return n

    # --- solver access
    def prove(self, goal, extra=()):
        if goal is TRUE:
            return True
        for g in solver.conj(goal):
            if not check_sat(self.pc + list(extra) + [t.not_(g)], self.qf, self.seeds).ok:
                return False
        return True

    def feasible(self, c):
        if c is FALSE:
            return False
        return not check_sat(self.pc + [c], self.qf, self.seeds, light=True).ok

    def dec(self, c):
        """c simplified to TRUE/FALSE when the facts decide it"""
        if c is TRUE or c is FALSE:
            return c
        if c.op == 'and':
            out = []
            for x in c.a:
                y = self.dec(x)
                if y is FALSE:
                    return FALSE
                out.append(y)
            c = t.and_(*out)
            if c is TRUE or c is FALSE or c.op != 'and':
                return c
            if not self.feasible(c):
                return FALSE
            return c
        if not self.feasible(c):
            return FALSE
        if not self.feasible(t.not_(c)):
            return TRUE
        return c

    def quot(self, a, b):
        """a / b (truncating), simplified by polynomial division when the remainder is provably in range"""
        q = t.div_exact(a, b)
        if q is not None and (b.op == 'ic' or self.prove(t.ne(b, I(0)))):
            return q
        wild = any(x.op == 'app' and x.a[0][:4] in ('urem', 'wrap') for m in t.poly(a) for x in m)
        if (b.op != 'ic' or len(t.poly(a)) > 1) and not wild:
            q, r = t.poly_divmod(a, b)
            if q is not None and not (q.op == 'ic' and q.a[0] == 0) or q is not None:
                if self.prove(t.and_(t.le(I(0), r), t.lt(r, b))) and self.prove(t.le(I(0), q)):
                    return q
        return t.tdiv(a, b)

    def rem(self, a, b):
        q = self.quot(a, b)
        if q is t.tdiv(a, b):
            return t.trem(a, b)
        return t.sub(a, t.mul(q, b))

    def subst(self, m, npc=0, nqf=0):
        self.env = {k: subst_val(v, m) for k, v in self.env.items()}
        for b, blk in list(self.mem.items()):
            if blk.kind in ('str', 'opaque'):
                continue
            n = blk.copy()
            n.size = t.subst(n.size, m)
            n.cells = {o: (s, subst_val(v, m)) for o, (s, v) in n.cells.items()}
            if n.arr is not None:
                n.arr = n.arr.subst(m)
            self.mem[b] = n
        self.pc = self.pc[:npc] + [x for x in (t.subst(f, m) for f in self.pc[npc:]) if x is not TRUE]
        self.qf = self.qf[:nqf] + [q.subst(m) for q in self.qf[nqf:]]
        self.term_ok = t.subst(self.term_ok, m)
        self.br = [x for x in (t.subst(f, m) for f in self.br) if x is not TRUE]
        self.seeds = [t.subst(x, m) for x in self.seeds]
        self.inputs = [(n, t.subst(x, m) if isinstance(x, t.T) else x) for n, x in self.inputs]


class Obl:
    __slots__ = ('kind', 'label', 'ok', 'status', 'why', 'inputs', 'facts')

    def __init__(self, kind, label, ok, status, why='', inputs=None, facts=None):
        self.kind, self.label, self.ok, self.status, self.why, self.inputs, self.facts = kind, label, ok, status, why, inputs, facts


FPSORT = {'double': 'D', 'float': 'S', 'x86_fp80': 'X', 'fp128': 'Q', 'half': 'H'}


def sort_of(ty):
    if ty[0] == 'int':
        return 'B' if ty[1] == 1 else 'I'
    if ty[0] == 'fp':
        return FPSORT[ty[1]]
    return None


STRFN = re.compile(r'^(_ZNKSt7__cxx1112basic_string|_ZNSt7__cxx1112basic_string|_ZStplI|_ZN3spp9trace_err|'
                   r'_ZN3spp15StrictException|_ZNSt7__cxx119to_string|_ZNSaIcE|_ZNSt9exception|_ZNKSt9exception)')
LIBM = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'exp',
        'exp2', 'expm1', 'log', 'log2', 'log10', 'log1p', 'sqrt', 'cbrt', 'pow', 'fmod', 'remainder', 'erf', 'erfc', 'tgamma',
        'lgamma', 'floor', 'ceil', 'trunc', 'round', 'fma', 'fabs', 'fmin', 'fmax', 'hypot', 'rint', 'nearbyint'}


class Exec:
    def __init__(self, mod, budget=120):
        self.m = mod
        self.obls = []
        self.emit = True
        self.nblk = 0
        self.cfgs = {}
        self.deadline = time.time() + budget
        self.reached = set()
        self.assumed = set()
        self.globals = {}
        self.tids = {}
        self.covers = set()
        self.loops_proved = 0
        self.loops_unrolled = 0
        self.calldepth = 0
        self.fnames = set()

    # ---------------------------------------------------------------- obligations
    def oblige(self, st, kind, label, goal):
        if not self.emit:
            st.assume(goal)
            return
        for g in solver.conj(goal):
            if g is TRUE:
                self.obls.append(Obl(kind, label, True, 'trivial'))
                continue
            r = check_sat(st.pc + [t.not_(g)], st.qf, st.seeds)
            if not r.ok:
                if self.by_lemma(st, g):
                    self.obls.append(Obl(kind, label, True, 'unsat+induction'))
                    continue
                r = check_sat(st.pc + [t.not_(g)], st.qf, st.seeds, depth=3, want_model=True, timeout=solver.TIMEOUT[0] * 2)
                if r.ok:
                    self.obls.append(Obl(kind, label, True, 'unsat'))
                    continue
                cex = self.model_inputs(st, t.not_(g))
                self.obls.append(Obl(kind, label, False, r.status, repr(g)[:600], cex))
            else:
                self.obls.append(Obl(kind, label, True, 'unsat'))
        st.assume(goal)

    def model_inputs(self, st, negg):
        """concrete values for the named inputs from a model, small sizes preferred"""
        ints = [(n, x) for n, x in st.inputs if isinstance(x, t.T) and x.sort == 'I']
        last = None
        for bound in (3, 8, 40, 1000, 100000, None):
            extra = []
            if bound is not None:
                for n, x in ints:
                    extra += [t.le(x, I(bound)), t.ge(x, I(-bound))]
            r = check_sat(st.pc + [negg] + extra, st.qf, st.seeds, depth=3, want_model=True, timeout=2000)
            if r.model is not None:
                last = r
                break
        if last is None:
            return None
        r = last
        out = {}
        mod, tr = r.model, r.tr
        def ev(x):
            try:
                v = mod.eval(tr.go(x), model_completion=True)
                return v
            except Exception:
                return None
        ranked = any(s.op == 'app' and s.a[0][:5] in ('folt_', 'fole_', 'foeq_', 'isnan') for s in t.subterms(r.facts))
        def fpv(x, v):
            """value of a floating-point input: its rank when the query compares values"""
            if ranked:
                try:
                    if str(mod.eval(tr.num(x), model_completion=True)) == 'False':
                        return 'nan'
                    q = mod.eval(tr.rank(x), model_completion=True)
                    return repr(float(q.as_fraction()))
                except Exception:
                    pass
            return 'fp:' + str(v)
        bases = {}
        for n, x in st.inputs:
            if isinstance(x, t.T):
                v = ev(x)
                if x.sort == 'I':
                    try:
                        out[n] = v.as_long()
                    except Exception:
                        pass
                elif x.sort == 'B':
                    out[n] = 1 if str(v) == 'True' else 0
                else:
                    out[n] = fpv(x, v)
            elif isinstance(x, tuple) and x[0] == 'arr':
                bases[x[1]] = n
                out[n] = {}
        for s in t.subterms(r.facts):
            if s.op == 'sel' and s.a[0] in bases:
                try:
                    i = ev(s.a[1]).as_long()
                    v = ev(s)
                    if s.sort == 'I':
                        out[bases[s.a[0]]][i] = v.as_long()
                    elif s.sort == 'B':
                        out[bases[s.a[0]]][i] = 1 if str(v) == 'True' else 0
                    else:
                        out[bases[s.a[0]]][i] = fpv(s, v)
                except Exception:
                    pass
        return out

    # ---------------------------------------------------------------- induction over pairs of recursive definitions
    def by_lemma(self, st, goal):
        recs = {}
        for s in t.subterms([goal] + [f for f in st.pc if f.op in ('eq', 'eq0', 'iff')]):
            if s.op == 'rec':
                recs.setdefault((s.a[0], s.a[2], s.a[3:]), s)
        keys = list(recs)
        if len(keys) < 2 or len(keys) > 8:
            return False
        facts = []
        for i in range(len(keys)):
            for j in range(i + 1, len(keys)):
                f = self.align(st, keys[i], keys[j])
                if f is not None:
                    facts.append(f)
        if not facts:
            return False
        return check_sat(st.pc + facts + [t.not_(goal)], st.qf, st.seeds).ok

    def align(self, st, k1, k2):
        d1, n1, p1 = k1
        d2, n2, p2 = k2
        if d1 == d2 and p1 == p2:
            return None
        D1, D2 = solver.RECS[d1], solver.RECS[d2]
        shift = t.sub(n2, n1)
        if shift.op != 'ic':
            # maybe equal under the path condition
            for c in (0, 1, -1):
                if st.prove(t.eq(shift, I(c))):
                    shift = I(c)
                    break
            else:
                return None
        sh = shift.a[0]
        if abs(sh) > 4:
            return None
        base1 = max(0, -sh)
        import itertools
        s1 = [v.sort for v in D1.fvars]
        s2 = [v.sort for v in D2.fvars]
        n = min(len(s1), len(s2))
        tries = 0
        seen = set()
        # injective matching of components of the smaller into the larger
        small, large, swap = (s1, s2, False) if len(s1) <= len(s2) else (s2, s1, True)
        for perm in itertools.permutations(range(len(large)), len(small)):
            if any(small[i] != large[perm[i]] for i in range(len(small))):
                continue
            tries += 1
            if tries > 12:
                break
            pairs = [(i, perm[i]) if not swap else (perm[i], i) for i in range(len(small))]
            key = ('lemma', d1, p1, d2, p2, sh, tuple(pairs), n1, tuple(st.pc), tuple(id(q) for q in st.qf))
            if key in self._lem:
                ok = self._lem[key]
            else:
                ok = self._prove_align(st, d1, p1, d2, p2, sh, pairs, n1, base1, s1)
                self._lem[key] = ok
            if ok:
                return t.and_(*[t.implies(t.ge(n1, I(base1)), t.eq(t.rec(d1, a, n1, p1, s1[a]), t.rec(d2, b, n2, p2, s2[b])))
                                for a, b in pairs])
        return None

    _lem = {}

    def _prove_align(self, st, d1, p1, d2, p2, sh, pairs, n1, base1, s1):
        def e(kk):
            return t.and_(*[t.eq(t.rec(d1, a, kk, p1, s1[a]), t.rec(d2, b, t.add(kk, I(sh)), p2, s1[a])) for a, b in pairs])
        # base
        if not check_sat(st.pc + [t.ge(n1, I(base1)), t.not_(e(I(base1)))], st.qf, st.seeds, depth=base1 + abs(sh) + 2).ok:
            return False
        k = t.fresh('ind', 'I')
        hyp = [t.ge(k, I(base1)), t.lt(k, n1), e(k)]
        k1 = t.add(k, I(1))
        for a, b in pairs:
            r1 = t.rec(d1, a, k1, p1, s1[a])
            r2 = t.rec(d2, b, t.add(k1, I(sh)), p2, s1[a])
            l = solver.rec_step(r1, k)
            r = solver.rec_step(r2, t.add(k, I(sh)))
            # rewrite the left state with the right one (hypothesis) so that FP terms coincide syntactically
            rep = {t.rec(d1, x, k, p1, s1[x]): t.rec(d2, y, t.add(k, I(sh)), p2, s1[x]) for x, y in pairs}
            l = t.transform(l, lambda z: rep.get(z, z))
            if l is r:
                continue
            if not check_sat(st.pc + hyp + [t.not_(t.eq(l, r))], st.qf, list(st.seeds) + [k], depth=1).ok:
                return False
        return True

    # ---------------------------------------------------------------- CFG
    def cfg(self, fn):
        if fn.name in self.cfgs:
            return self.cfgs[fn.name]
        succ = {}
        for l in fn.order:
            ins = fn.blocks[l][-1]
            if ins.op == 'br':
                succ[l] = [x for x in ins.a if isinstance(x, str)]
            elif ins.op == 'switch':
                succ[l] = [ins.a[1]] + [x for _, x in ins.a[2]]
            elif ins.op == 'invoke':
                succ[l] = list(ins.flags)
            else:
                succ[l] = []
        pred = {l: [] for l in fn.order}
        for l, ss in succ.items():
            for s in ss:
                pred[s].append(l)
        # dominators (iterative bitsets)
        order = []
        seen = set()
        def dfs(x):
            stack = [(x, iter(succ[x]))]
            seen.add(x)
            while stack:
                n, it = stack[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        stack.append((y, iter(succ[y])))
                        break
                else:
                    order.append(n)
                    stack.pop()
        dfs(fn.order[0])
        rpo = order[::-1]
        dom = {l: None for l in rpo}
        dom[rpo[0]] = {rpo[0]}
        ch = True
        while ch:
            ch = False
            for l in rpo[1:]:
                ps = [dom[p] for p in pred[l] if p in dom and dom[p] is not None]
                if not ps:
                    continue
                n = set.intersection(*ps) | {l}
                if n != dom[l]:
                    dom[l] = n
                    ch = True
        loops = {}
        for l in rpo:
            for s in succ[l]:
                if s in dom[l]:
                    body = loops.setdefault(s, {s})
                    st = [l]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(p for p in pred[x] if p in dom)
        self.cfgs[fn.name] = (succ, loops)
        # irreducible check: a back edge in DFS sense whose target doesn't dominate
        return self.cfgs[fn.name]

    # ---------------------------------------------------------------- values
    def newblock(self, st, kind, size, name, heap=None):
        self.nblk += 1
        b = '%s#%d' % (name, self.nblk)
        st.mem[b] = Block(kind, size, b, heap)
        return b

    def undef(self, ty):
        k = ty[0]
        so = sort_of(ty)
        if so:
            return t.fresh('undef', so)
        if k == 'ptr':
            return UNDEF
        ty = self.m.resolve(ty)
        if ty[0] == 'struct':
            return tuple(self.undef(x) for x in ty[1])
        if ty[0] == 'arr':
            return tuple(self.undef(ty[2]) for _ in range(ty[1]))
        raise Unsupported('undef %r' % (ty,))

    def zero(self, ty):
        k = ty[0]
        if k == 'int':
            return FALSE if ty[1] == 1 else I(0)
        if k == 'fp':
            return t.fc('0x0', FPSORT[ty[1]])
        if k == 'ptr':
            return NULL
        ty = self.m.resolve(ty)
        if ty[0] == 'struct':
            return tuple(self.zero(x) for x in ty[1])
        if ty[0] == 'arr':
            return tuple(self.zero(ty[2]) for _ in range(ty[1]))
        raise Unsupported('zero %r' % (ty,))

    def val(self, st, v, ty):
        k = v[0]
        if k == 'reg':
            try:
                return st.env[v[1]]
            except KeyError:
                raise Unsupported('undefined register %' + v[1])
        if k == 'ci':
            if ty[0] == 'int' and ty[1] == 1:
                return t.B(v[1] & 1)
            return I(v[1])
        if k == 'cf':
            return t.fc(v[1], FPSORT[ty[1]])
        if k == 'null':
            return NULL
        if k == 'undef':
            return self.undef(ty)
        if k == 'zero':
            return self.zero(ty)
        if k == 'glob':
            return self.glob(st, v[1])
        if k == 'cgep':
            return self.gep(st, v[1], self.val(st, v[2], ('ptr',)), v[3])
        if k == 'agg':
            return tuple(self.val(st, x, tt) for tt, x in v[1])
        if k == 'ccast':
            return self.val(st, v[2], ('ptr',))
        raise Unsupported('operand ' + k)

    def glob(self, st, name):
        b = 'g:' + name
        if b in st.mem:
            return Ptr(b, I(0))
        if name in self.m.funcs or name in self.m.decls:
            return Ptr('fn:' + name, I(0))
        g = get_global(self.m, name)
        if g is None:
            raise Unsupported('global ' + name)
        ty, init, const = g
        if name.startswith('_ZT'):       # vtables / typeinfo
            st.mem[b] = Block('opaque', I(1 << 20), b)
            return Ptr(b, I(0))
        blk = Block('cells', I(self.m.sizeof(ty)), b)
        st.mem[b] = blk
        if init is not None:
            if init[0] == 'cstr':
                blk.kind = 'str'
                blk.cells = init[1]
            else:
                self.store_const(st, blk, 0, ty, init)
        return Ptr(b, I(0))

    def store_const(self, st, blk, off, ty, v):
        rt = self.m.resolve(ty)
        if rt[0] == 'arr':
            es = self.m.sizeof(rt[2])
            for i in range(rt[1]):
                if v[0] in ('zero', 'undef'):
                    self.store_const(st, blk, off + i * es, rt[2], v)
                elif v[0] == 'cstr':
                    return
                else:
                    self.store_const(st, blk, off + i * es, rt[2], v[1][i][1])
        elif rt[0] == 'struct':
            for i in range(len(rt[1])):
                fo, ft = self.m.field(rt, i)
                self.store_const(st, blk, off + fo, ft, v if v[0] in ('zero', 'undef') else v[1][i][1])
        else:
            blk.cells[off] = (self.m.sizeof(rt), self.val(st, v, rt))

    def cstr(self, st, p):
        """contents of a constant C string"""
        if p.b and p.b.startswith('g:'):
            g = get_global(self.m, p.b[2:])
            if g and g[1] is not None and g[1][0] == 'cstr':
                s = g[1][1]
                s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s)
                o = p.off.a[0] if p.off.op == 'ic' else 0
                return s[o:].split('\0')[0]
            if g and g[1] is not None and g[1][0] == 'zero':
                return ''
        raise Unsupported('string argument')

    def gep(self, st, ty, base, idx):
        if not isinstance(base, Ptr):
            raise Unsupported('gep on undef')
        off = base.off
        cur = ty
        for i, (it, iv) in enumerate(idx):
            v = self.val(st, iv, it)
            if i == 0:
                off = t.add(off, t.scale(v, self.m.sizeof(cur)))
            else:
                r = self.m.resolve(cur)
                if r[0] == 'struct':
                    o, cur = self.m.field(r, t.const(v))
                    off = t.add(off, I(o))
                else:
                    cur = r[2]
                    off = t.add(off, t.scale(v, self.m.sizeof(cur)))
        return Ptr(base.b, off)

    # ---------------------------------------------------------------- memory
    def access(self, st, p, size, what):
        if not isinstance(p, Ptr):
            raise Unsupported('access through undefined pointer')
        if p.b is None:
            self.oblige(st, 'mem', 'no null access (%s)' % what, FALSE)
            return None
        if p.b.startswith('fn:'):
            raise Unsupported('access to function')
        blk = st.mem.get(p.b)
        if blk is None:
            raise Unsupported('no block ' + p.b)
        if not blk.alive:
            self.oblige(st, 'mem', 'no use after free (%s)' % what, FALSE)
            return None
        if blk.kind != 'opaque':
            sz = size if isinstance(size, t.T) else I(size)
            self.oblige(st, 'mem', 'in bounds (%s)' % what, t.and_(t.le(I(0), p.off), t.le(t.add(p.off, sz), blk.size)))
        return blk

    def to_arr(self, st, b, es, sort):
        """turn a block into array form with element size es"""
        blk = st.wblock(b)
        if blk.kind == 'arr':
            return blk
        sorts = {v.sort for o, (s, v) in blk.cells.items() if isinstance(v, t.T)}
        if any(not isinstance(v, t.T) for o, (s, v) in blk.cells.items()) or any(s != es or o % es for o, (s, v) in blk.cells.items()):
            raise Unsupported('mixed block %s accessed as an array' % b)
        if len(sorts) > 1:
            raise Unsupported('mixed sorts in block')
        if sorts:
            sort = sorts.pop()
        arr = AConst(blk.default) if blk.default is not None else AUnk('uninit_' + b, sort)
        for o in sorted(blk.cells):
            arr = AStore(arr, I(o // es), blk.cells[o][1])
        blk.kind, blk.es, blk.arr, blk.sort, blk.cells = 'arr', es, arr, sort, {}
        return blk

    def elt(self, blk, off, what):
        i = t.div_exact(off, I(blk.es))
        if i is None:
            raise Unsupported('unaligned array offset %r in %s' % (off, blk.name))
        return i

    def load(self, st, p, ty):
        ty = self.m.resolve(ty)
        if ty[0] in ('struct', 'arr'):
            if ty[0] == 'struct':
                return tuple(self.load(st, Ptr(p.b, t.add(p.off, I(self.m.field(ty, i)[0]))), ft) for i, ft in enumerate(ty[1]))
            es = self.m.sizeof(ty[2])
            return tuple(self.load(st, Ptr(p.b, t.add(p.off, I(es * i))), ty[2]) for i in range(ty[1]))
        size = self.m.sizeof(ty)
        blk = self.access(st, p, size, 'load')
        if blk is None:
            raise DeadPath()
        so = sort_of(ty)
        if blk.kind == 'opaque':
            return self.undef(ty)
        if blk.kind == 'str':
            raise Unsupported('load from string')
        o = t.const(p.off)
        if blk.kind == 'cells' and o is None:
            blk = self.to_arr(st, p.b, size, so)
        if blk.kind == 'cells':
            c = blk.cells.get(o)
            if c is None or c[0] != size:
                if c is None and blk.default is not None and not any(a < o + size and o < a + s for a, (s, _) in blk.cells.items()):
                    return self.cast_default(blk.default, ty)
                if c is None and not any(a < o + size and o < a + s for a, (s, _) in blk.cells.items()):
                    v = self.undef(ty)
                    st.wblock(p.b).cells[o] = (size, v)
                    return v
                raise Unsupported('partial load at %s+%d' % (p.b, o))
            return self.coerce(c[1], ty)
        if blk.kind == 'arr':
            if blk.es is None:
                blk = st.wblock(p.b)
                blk.es, blk.sort = size, so
                blk.arr = AConst(self.cast_default(blk.default, ty)) if blk.default is not None else AUnk('uninit_' + p.b, so)
            if blk.es != size:
                raise Unsupported('array of %d-byte elements read as %d bytes' % (blk.es, size))
            v = blk.arr.read(self.elt(blk, p.off, 'load'), st)
            return self.coerce(v, ty)
        raise Unsupported('load kind')

    def cast_default(self, d, ty):
        so = sort_of(ty)
        if so is None:
            if ty[0] == 'ptr' and d is I(0):
                return NULL
            raise Unsupported('default')
        if so == 'I' and d is I(0):
            return d
        if d is I(0):
            return self.zero(ty)
        if so == 'I' and d is I(-1):
            return d
        raise Unsupported('memset value')

    def coerce(self, v, ty):
        so = sort_of(ty)
        if so is None:
            if isinstance(v, Ptr) or v is UNDEF:
                return v
            if isinstance(v, t.T) and v is I(0):
                return NULL
            raise Unsupported('load ptr from non-pointer')
        if isinstance(v, Ptr):
            if v.b is None:
                return I(0)
            raise Unsupported('integer load of a pointer')
        if v is UNDEF:
            return self.undef(ty)
        if v.sort == so:
            return v
        if so == 'B' and v.sort == 'I':
            return t.ne(v, I(0))
        if so == 'I' and v.sort == 'B':
            return t.ite(v, I(1), I(0))
        if so == 'I':
            if v.op == 'app' and v.a[0] == 'frombits_' + v.sort:
                return v.a[1]
            return t.app('bits_' + v.sort, (v,), 'I')
        if v.sort == 'I':
            if v.op == 'app' and v.a[0] == 'bits_' + so:
                return v.a[1]
            return t.app('frombits_' + so, (v,), so)
        raise Unsupported('sort %s as %s' % (v.sort, so))

    def store(self, st, p, v, ty):
        ty = self.m.resolve(ty)
        if ty[0] in ('struct', 'arr'):
            fs = ty[1] if ty[0] == 'struct' else [ty[2]] * ty[1]
            for i, ft in enumerate(fs):
                o = self.m.field(ty, i)[0] if ty[0] == 'struct' else i * self.m.sizeof(ft)
                self.store(st, Ptr(p.b, t.add(p.off, I(o))), v[i], ft)
            return
        size = self.m.sizeof(ty)
        if ty == ('int', 1):
            v = t.ite(v, I(1), I(0))
        blk = self.access(st, p, size, 'store')
        if blk is None:
            raise DeadPath()
        if blk.kind == 'opaque':
            return
        if blk.kind == 'str':
            raise Unsupported('store to string')
        o = t.const(p.off)
        so = v.sort if isinstance(v, t.T) else None
        if blk.kind == 'cells' and o is None:
            blk = self.to_arr(st, p.b, size, so)
        blk = st.wblock(p.b)
        if blk.kind == 'cells':
            for a, (s, _) in list(blk.cells.items()):
                if a < o + size and o < a + s:
                    if not (o <= a and a + s <= o + size):
                        raise Unsupported('partial store at %s+%d' % (p.b, o))
                    del blk.cells[a]
            blk.cells[o] = (size, v)
            return
        if so is None:
            raise Unsupported('pointer stored into array block')
        if blk.es is None:
            blk.es, blk.sort = size, so
            blk.arr = AConst(self.cast_default(blk.default, ty)) if blk.default is not None else AUnk('uninit_' + p.b, so)
        if blk.es != size:
            raise Unsupported('array of %d-byte elements written as %d bytes' % (blk.es, size))
        if blk.sort != so and not (blk.sort == 'Bool8' and so == 'I'):
            if isinstance(blk.arr, AUnk) and blk.arr.base.startswith('uninit_'):
                blk.sort = so
                blk.arr = AUnk(blk.arr.base, so)
            else:
                v = self.coerce(v, {'I': ('int', size * 8), 'D': ('fp', 'double'), 'S': ('fp', 'float')}[blk.sort])
        i = self.elt(blk, p.off, 'store')
        if isinstance(blk.arr, AStore) and blk.arr.idx is i:
            blk.arr = AStore(blk.arr.base, i, v)
        else:
            blk.arr = AStore(blk.arr, i, v)

    def memcpy(self, st, d, s, n):
        c = t.const(n)
        if c == 0:
            return
        if n.op != 'ic' and st.prove(t.eq(n, I(0))):
            return
        sb = self.access(st, s, n, 'memcpy source')
        db = self.access(st, d, n, 'memcpy destination')
        if sb is None or db is None:
            raise DeadPath()
        if sb.kind == 'opaque' or db.kind == 'opaque':
            return
        so, do = t.const(s.off), t.const(d.off)
        if c is not None and sb.kind == 'cells' and so is not None and do is not None and (db.kind == 'cells' or db.es is None):
            db = st.wblock(d.b)
            cells = []
            for a, (z, v) in sb.cells.items():
                if a < so + c and so < a + z:
                    if not (so <= a and a + z <= so + c):
                        raise Unsupported('partial memcpy')
                    cells.append((a - so + do, z, v))
            if db.kind == 'cells':
                for a, (z, _) in list(db.cells.items()):
                    if a < do + c and do < a + z:
                        if not (do <= a and a + z <= do + c):
                            raise Unsupported('partial memcpy destination')
                        del db.cells[a]
                if sb.default is not None:
                    covered = sum(z for _, z, _ in cells)
                    if covered != c:
                        raise Unsupported('memcpy of defaulted block')
                for a, z, v in cells:
                    db.cells[a] = (z, v)
            else:
                es = cells[0][1]
                sort = cells[0][2].sort
                db.es, db.sort = es, sort
                db.arr = AUnk('uninit_' + d.b, sort)
                for a, z, v in cells:
                    db.arr = AStore(db.arr, I(a // es), v)
            return
        es = sb.es or db.es
        if es is None:
            if sb.kind == 'cells' and sb.cells:
                es = next(iter(sb.cells.values()))[0]
            else:
                return      # copying uninitialised memory
        if sb.kind == 'cells':
            sb = self.to_arr(st, s.b, es, None)
        if db.kind == 'cells':
            db = self.to_arr(st, d.b, es, sb.sort)
        db = st.wblock(d.b)
        if sb.es is None:
            return
        if db.es is None:
            db.es, db.sort, db.arr = sb.es, sb.sort, AUnk('uninit_' + d.b, sb.sort)
        if db.es != sb.es:
            raise Unsupported('memcpy between element sizes')
        if db.sort != sb.sort and isinstance(db.arr, AUnk):
            db.sort, db.arr = sb.sort, AUnk(db.arr.base, sb.sort)
        nn = t.div_exact(n, I(es))
        di, si = self.elt(db, d.off, 'memcpy'), self.elt(sb, s.off, 'memcpy')
        if nn is None:
            raise Unsupported('memcpy size')
        if nn.op == 'ic' and nn.a[0] <= 8:
            vs = [sb.arr.read(t.add(si, I(j)), st) for j in range(nn.a[0])]
            for j, v in enumerate(vs):
                i = t.add(di, I(j))
                if isinstance(db.arr, AStore) and db.arr.idx is i:
                    db.arr = AStore(db.arr.base, i, v)
                else:
                    db.arr = AStore(db.arr, i, v)
            return
        k = t.fresh('cp', 'I')
        v = sb.arr.read(t.add(si, k), _with(st, [t.le(I(0), k), t.lt(k, nn)]))
        db.arr = AFam(db.arr, [Fam([(k, nn)], t.add(di, k), v, TRUE)])

    def memset(self, st, d, v, n):
        c = t.const(n)
        if c == 0:
            return
        if n.op != 'ic' and st.prove(t.eq(n, I(0))):
            return
        db = self.access(st, d, n, 'memset')
        if db is None:
            raise DeadPath()
        db = st.wblock(d.b)
        if v.op != 'ic' or v.a[0] not in (0,):
            raise Unsupported('memset value')
        do = t.const(d.off)
        if db.kind == 'cells' and c is not None and do is not None:
            for a, (z, _) in list(db.cells.items()):
                if do <= a and a + z <= do + c:
                    del db.cells[a]
                elif a < do + c and do < a + z:
                    raise Unsupported('partial memset')
            if do == 0 and db.size is I(c):
                db.default = I(0)
            else:
                o = do
                while o < do + c:
                    w = 8 if o % 8 == 0 and o + 8 <= do + c else 1
                    db.cells[o] = (w, I(0))
                    o += w
            return
        if db.kind == 'arr' and db.es is None and do == 0 and db.size is n:
            db.default = I(0)
            return
        if db.kind == 'arr' and db.es:
            nn = t.div_exact(n, I(db.es))
            k = t.fresh('ms', 'I')
            z = {'I': I(0)}.get(db.sort) or t.fc('0x0', db.sort)
            db.arr = AFam(db.arr, [Fam([(k, nn)], t.add(self.elt(db, d.off, 'memset'), k), z, TRUE)])
            return
        if db.kind == 'arr' and db.es is None:
            db.default = I(0) if st.prove(t.and_(t.eq(d.off, I(0)), t.eq(n, db.size))) else None
            if db.default is not None:
                return
        raise Unsupported('memset')


def _with(st, extra):
    s = st.copy()
    for e in extra:
        s.assume(e)
    return s


class DeadPath(Exception):
    pass

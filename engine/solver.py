"""Obligation discharge: ground instantiation + z3. All queries are quantifier-free: universally quantified loop facts
are instantiated at the terms of the query, recursive definitions are unfolded at the terms of the query, and products
of hypotheses are added where the query is non-linear. A proof found this way is a proof; 'sat' may be spurious and is
only ever reported after replay on the real code."""
import fractions
import time
import z3
import terms as t
from terms import I

STATS = {'queries': 0, 'time': 0.0, 'cache': 0, 'trivial': 0}
TIMEOUT = [4000]


class QF:
    """forall vars in their domains 0 <= v < hi :  body   (hi of a later var may mention an earlier one)"""
    __slots__ = ('vars', 'body', 'key')

    def __init__(self, vars_, body):
        self.vars = tuple(vars_)
        self.body = body
        self.key = (self.vars, body)

    def subst(self, m):
        return QF([(v, t.subst(h, m)) for v, h in self.vars], t.subst(self.body, m))

    def terms(self):
        return [h for _, h in self.vars] + [self.body]

    def __repr__(self):
        return 'forall %s: %r' % (', '.join('%r<%r' % vh for vh in self.vars), self.body)


class RecDef:
    def __init__(self, defid, params, kvar, fvars, x0, g):
        self.id, self.params, self.kvar, self.fvars, self.x0, self.g = defid, params, kvar, fvars, x0, g
        self.lemmas = []        # facts about the components at every k (proved when added)


RECS = {}
_recdefs_by_key = {}


def define_rec(kvar, fvars, x0, g):
    """Canonical recursive definition. Returns (defid, param_terms). Free variables become parameters."""
    free = []
    seen = set()
    bound = set(fvars) | {kvar}
    # values computed by another recursion, fixed during this one, are parameters
    inits = {}
    if any(s.op == 'rec' for s in t.subterms(list(x0) + list(g))):
        memo = {}
        def ab(x):
            if x.op == 'rec' and not (t.fvs(x) & bound):
                if x not in inits:
                    inits[x] = t.fresh('ri', x.sort)
                return inits[x]
            r = memo.get(x.id)
            if r is None:
                r = memo[x.id] = x if x.op == 'var' or not list(t.children(x)) else t.rebuild(x, ab)
            return r
        x0 = [ab(x) for x in x0]
        g = [ab(x) for x in g]
    def scan(x):
        if x.id in seen:
            return
        seen.add(x.id)
        if x.op == 'var':
            if x not in bound:
                free.append(x)
            return
        for c in ordered_children(x):
            scan(c)
    for x in list(x0) + list(g):
        scan(x)
    m = {}
    cps = []
    for i, v in enumerate(free):
        cv = t.var('$p%d%s' % (i, v.sort), v.sort)
        m[v] = cv
        cps.append(cv)
    ck = t.var('$k', 'I')
    m[kvar] = ck
    cf = []
    for i, v in enumerate(fvars):
        c = t.var('$f%d%s' % (i, v.sort), v.sort)
        m[v] = c
        cf.append(c)
    cx0 = tuple(t.subst(x, m) for x in x0)
    cg = tuple(t.subst(x, m) for x in g)
    key = (cx0, cg)
    d = _recdefs_by_key.get(key)
    if d is None:
        d = RecDef(len(RECS), cps, ck, cf, cx0, cg)
        RECS[d.id] = d
        _recdefs_by_key[key] = d
    back = {v: x for x, v in inits.items()}
    return d.id, tuple(back.get(v, v) for v in free)


FIRSTS = {}


def define_first(kvar, cont):
    """canonical name of  min { k >= 0 : not cont(k) }"""
    d, ps = define_rec(kvar, (), (), (cont,))
    return t.app('first%d' % d, ps, 'I')


def ordered_children(x):
    if x.op == 'poly':
        return [a for mono, c in x.a for a in mono]
    return list(t.children(x))


def rec_init(r):
    d = RECS[r.a[0]]
    ps = dict(zip(d.params, r.a[3:]))
    return t.subst(d.x0[r.a[1]], ps)


def rec_step(r, kprev):
    """value of component at kprev+1 given state at kprev"""
    d = RECS[r.a[0]]
    ps = dict(zip(d.params, r.a[3:]))
    ps[d.kvar] = kprev
    for i, f in enumerate(d.fvars):
        ps[f] = t.rec(d.id, i, kprev, r.a[3:], f.sort)
    return t.subst(d.g[r.a[1]], ps)


# ------------------------------------------------------------------ z3 translation
class Trans:
    def __init__(self, nl):
        self.nl = nl
        self.memo = {}
        self.fun = {}
        self.sorts = {'I': z3.IntSort(), 'B': z3.BoolSort()}

    def sort(self, s):
        if s not in self.sorts:
            self.sorts[s] = z3.DeclareSort('FP_' + s)
        return self.sorts[s]

    def f(self, name, doms, rng):
        k = (name, tuple(doms), rng)
        if k not in self.fun:
            self.fun[k] = z3.Function(name + '/' + ''.join(doms), *[self.sort(d) for d in doms], self.sort(rng))
        return self.fun[k]

    def mono(self, m):
        if len(m) == 1:
            return self.go(m[0])
        if self.nl:
            r = self.go(m[0])
            for x in m[1:]:
                r = r * self.go(x)
            return r
        return z3.Int('mono:' + '*'.join(str(x.id) for x in m))

    def rank(self, x):
        return self.rankf('rank', x, z3.RealSort())(self.go(x))

    def num(self, x):
        return self.rankf('num', x, z3.BoolSort())(self.go(x))

    def rankf(self, n, x, so):
        k = (n, x.sort)
        if k not in self.fun:
            self.fun[k] = z3.Function('%s_%s' % (n, x.sort), self.sort(x.sort), so)
        return self.fun[k]

    def go(self, x):
        r = self.memo.get(x.id)
        if r is not None:
            return r
        op = x.op
        if op == 'ic':
            r = z3.IntVal(x.a[0])
        elif op == 'poly':
            r = z3.Sum([z3.IntVal(c) if not m else (self.mono(m) if c == 1 else c * self.mono(m)) for m, c in x.a])
        elif op == 'var':
            r = z3.Const(x.a[0], self.sort(x.sort))
        elif op == 'true':
            r = z3.BoolVal(True)
        elif op == 'false':
            r = z3.BoolVal(False)
        elif op == 'fc':
            r = z3.Const('fc%d' % x.id, self.sort(x.sort))
        elif op == 'app' and x.a[0][:5] in ('folt_', 'fole_', 'foeq_'):
            # comparisons are those of a rank in the reals, over the values that are not nan
            a, b = x.a[1], x.a[2]
            ra, rb = self.rank(a), self.rank(b)
            r = z3.And(self.num(a), self.num(b), ra < rb if x.a[0][3] == 't' else ra <= rb if x.a[0][3] == 'e' and x.a[0][2] == 'l' else ra == rb)
        elif op == 'app' and x.a[0][:6] == 'isnan_':
            r = z3.Not(self.num(x.a[1]))
        elif op == 'app':
            args = [self.go(y) for y in x.a[1:]]
            if args:
                r = self.f(x.a[0], [y.sort for y in x.a[1:]], x.sort)(*args)
            else:
                r = z3.Const(x.a[0], self.sort(x.sort))
        elif op == 'sel':
            r = self.f('sel_' + x.a[0], ['I'], x.sort)(self.go(x.a[1]))
        elif op == 'rec':
            r = self.f('rec_%s_%s' % (x.a[0], x.a[1]), [y.sort for y in x.a[2:]], x.sort)(*[self.go(y) for y in x.a[2:]])
        elif op == 'not':
            r = z3.Not(self.go(x.a[0]))
        elif op == 'and':
            r = z3.And([self.go(y) for y in x.a])
        elif op == 'iff':
            r = self.go(x.a[0]) == self.go(x.a[1])
        elif op == 'le0':
            r = self.go(x.a[0]) <= 0
        elif op == 'eq0':
            r = self.go(x.a[0]) == 0
        elif op == 'eq':
            r = self.go(x.a[0]) == self.go(x.a[1])
        elif op == 'ite':
            r = z3.If(self.go(x.a[0]), self.go(x.a[1]), self.go(x.a[2]))
        elif op in ('tdiv', 'trem'):
            r = DIVF[op](self.go(x.a[0]), self.go(x.a[1]))     # uninterpreted with congruence; the defining axioms are instantiated
        else:
            raise Exception('z3 ' + op)
        self.memo[x.id] = r
        return r


DIVF = {op: z3.Function(op, z3.IntSort(), z3.IntSort(), z3.IntSort()) for op in ('tdiv', 'trem')}
_trans = {}


def trans(nl):
    if nl not in _trans:
        _trans[nl] = Trans(nl)
    return _trans[nl]


def reset():
    _trans.clear()
    _q.clear()
    _linc.clear()
    _bc.clear()
    RECS.clear()
    _recdefs_by_key.clear()
    _cache.clear()


# ------------------------------------------------------------------ solving linear patterns
def linear_in(x, v):
    """x = c*v + d with v not in c, d  -> (c, d) or None"""
    if x.op == 'var':
        return (I(1), I(0)) if x is v else (I(0), x)
    if v not in t.fvs(x):
        return I(0), x
    if x.op not in ('poly',):
        return None
    c, d = {}, {}
    for m, k in x.a:
        n = sum(1 for y in m if y is v)
        if n == 0:
            if any(v in t.fvs(y) for y in m):
                return None
            d[m] = k
        elif n == 1:
            mm = list(m)
            mm.remove(v)
            if any(v in t.fvs(y) for y in mm):
                return None
            c[tuple(mm)] = c.get(tuple(mm), 0) + k
        else:
            return None
    return t.from_poly(c), t.from_poly(d)


def conj(x):
    return list(x.a) if x.op == 'and' else [x]


# ------------------------------------------------------------------ instantiation
def match_sels(body, kvars):
    """patterns sel(base, idx) / rec index / le0 atoms in body that mention the quantified variables"""
    out = []
    for s in t.subterms([body]):
        if s.op == 'sel' and (t.fvs(s.a[1]) & kvars):
            out.append(('sel', s.a[0], s.a[1]))
        elif s.op == 'rec' and (t.fvs(s.a[2]) & kvars):
            out.append(('rec', (s.a[0], s.a[1]), s.a[2]))
    return out


def solve_vars(pat, ground, vars_):
    """find values for the quantified vars such that pat == ground (best effort)"""
    vs = [v for v, _ in vars_ if v in t.fvs(pat)]
    if len(vs) == 1:
        cd = linear_in(pat, vs[0])
        if cd is None or cd[0] is I(0):
            return None
        q = t.div_exact(t.sub(ground, cd[1]), cd[0])
        if q is None:
            return None
        return {vs[0]: q}
    if len(vs) == 2:
        a, b = vs
        ca = linear_in(pat, a)
        if ca is None:
            return None
        cb = linear_in(ca[1], b)
        if cb is None or b in t.fvs(ca[0]):
            return None
        res = []
        for (x, cx, y, cy) in ((a, ca[0], b, cb[0]), (b, cb[0], a, ca[0])):
            if cx.op == 'ic' and cy.op == 'ic' and abs(cx.a[0]) <= abs(cy.a[0]):
                continue
            if cx.op == 'ic' and cy.op != 'ic':
                continue
            q, r = t.poly_divmod(t.sub(ground, cb[1]), cx)
            if q is None:
                continue
            yv = t.div_exact(r, cy)
            if yv is None:
                continue
            return {x: q, y: yv}
        return None
    return None


def eq_consts(body, v):
    """constants the body compares the quantified variable with: it distinguishes these values"""
    out = {}
    for s in t.subterms([body]):
        if s.op == 'eq0' and v in t.fvs(s):
            cd = linear_in(s.a[0], v)
            if cd is not None and cd[0].op == 'ic' and cd[1].op == 'ic' and cd[0].a[0] and cd[1].a[0] % cd[0].a[0] == 0:
                c = -cd[1].a[0] // cd[0].a[0]
                if c >= 0:
                    out[c] = I(c)
    return [out[c] for c in sorted(out)][:16]


def instantiate(ts, qfs, seeds):
    """ground instances of the quantified facts relevant to the terms ts"""
    out = []
    done = set()
    if not qfs:
        return out
    pats = [(q, match_sels(q.body, {v for v, _ in q.vars})) for q in qfs]
    cur = list(ts)
    allgr = {}
    for rnd in range(2):
        new = []
        for s in t.subterms(cur):
            if s.op == 'sel':
                allgr.setdefault(('sel', s.a[0]), {})[s.a[1].id] = s.a[1]
            elif s.op == 'rec':
                allgr.setdefault(('rec', (s.a[0], s.a[1])), {})[s.a[2].id] = s.a[2]
        for q, ps in pats:
            cands = []
            for kind, base, pat in ps:
                for g in list(allgr.get((kind, base), {}).values()):
                    m = solve_vars(pat, g, q.vars)
                    if m is not None:
                        cands.append(m)
            if len(q.vars) == 1:
                v, hi = q.vars[0]
                if rnd == 0:
                    cands.append({v: t.sub(hi, I(1))})
                    cands.append({v: I(0)})
                    for s in seeds:
                        cands.append({v: s})
                    for c in eq_consts(q.body, v):
                        cands.append({v: c})
            else:
                full = []
                for c in cands:
                    miss = [v for v, _ in q.vars if v not in c]
                    if not miss:
                        full.append(c)
                    else:
                        for s in list(seeds) + [I(0)]:
                            full.append({**c, **{v: s for v in miss}})
                cands = full
                if len(seeds) <= 4:
                    for s1 in seeds:
                        for s2 in seeds:
                            cands.append(dict(zip([v for v, _ in q.vars], [s1, s2] + [s2] * 4)))
            for m in cands:
                if any(v not in m for v, _ in q.vars):
                    continue
                key = (id(q), tuple(m[v].id for v, _ in q.vars))
                if key in done:
                    continue
                done.add(key)
                if len(done) > 400:
                    return out
                pre = []
                for v, hi in q.vars:
                    pre.append(t.le(I(0), m[v]))
                    pre.append(t.lt(m[v], t.subst(hi, m)))
                f = t.implies(t.and_(*pre), t.subst(q.body, m))
                if f is not t.TRUE:
                    out.append(f)
                    new.append(f)
        cur = new
        if not new:
            break
    return out


def defaxioms(ts, depth):
    """axioms for tdiv/trem pairs, recursion unfolding, FP order facts"""
    out = []
    seen_div = set()
    seen_rec = {}
    frontier = list(ts)
    for d in range(depth + 1):
        new = []
        for s in t.subterms(frontier):
            if s.op == 'var':
                if s in t.NAMED and s not in seen_div:
                    seen_div.add(s)
                    new.append(t.eq(s, t.NAMED[s]))
            elif s.op in ('tdiv', 'trem'):
                key = s.a
                if key in seen_div:
                    continue
                seen_div.add(key)
                a, b = key
                q = t.mk('tdiv', (a, b), 'I')
                r = t.mk('trem', (a, b), 'I')
                ax = [t.implies(t.ne(b, I(0)), t.eq(a, t.add(t.mul(b, q), r))),
                      t.implies(t.and_(t.gt(b, I(0)), t.ge(a, I(0))), t.and_(t.ge(r, I(0)), t.lt(r, b), t.ge(q, I(0)), t.le(q, a))),
                      t.implies(t.and_(t.gt(b, I(0)), t.lt(a, I(0))), t.and_(t.le(r, I(0)), t.gt(r, t.neg(b)), t.le(q, I(0)))),
                      t.implies(t.and_(t.lt(b, I(0)), t.ge(a, I(0))), t.and_(t.ge(r, I(0)), t.lt(r, t.neg(b)), t.le(q, I(0)))),
                      t.implies(t.and_(t.lt(b, I(0)), t.lt(a, I(0))), t.and_(t.le(r, I(0)), t.gt(r, b), t.ge(q, I(0))))]
                new += ax
            elif s.op == 'app' and s.a[0][:4] in ('urem', 'wrap'):
                l, h = own_range(s)
                if s not in seen_div and l is not None:
                    seen_div.add(s)
                    new.append(t.and_(t.ge(s, I(l)), t.le(s, I(h))))
            elif s.op == 'rec':
                key = (s.a[0], s.a[2], s.a[3:])
                if (key, s.a[1]) in seen_rec:
                    continue
                lvl = seen_rec.get(key, d)
                seen_rec[(key, s.a[1])] = d
                seen_rec[key] = lvl
                if d >= depth:
                    continue
                k = s.a[2]
                k1 = t.sub(k, I(1))
                if k.op == 'ic':
                    if k.a[0] <= 0:
                        new.append(t.eq(s, rec_init(s)) if k.a[0] == 0 else t.TRUE)
                    else:
                        new.append(t.eq(s, rec_step(s, k1)))
                else:
                    new.append(t.implies(t.eq(k, I(0)), t.eq(s, rec_init(s))))
                    new.append(t.implies(t.ge(k, I(1)), t.eq(s, rec_step(s, k1))))
        new = [x for x in new if x is not t.TRUE]
        out += new
        frontier = new
        if not new:
            break
    # floating-point addition and multiplication commute (NaNs are not distinguished)
    comm = {}
    for s in t.subterms(list(ts) + out):
        if s.op == 'app' and s.a[0][:5] in ('fadd_', 'fmul_'):
            comm.setdefault(s.a[0], []).append(s)
    for l in comm.values():
        done = set()
        for s in l if len(l) > 1 else ():
            if s.a[1] is not s.a[2] and s not in done:
                w = t.mk('app', (s.a[0], s.a[2], s.a[1]), s.sort)
                done.update((s, w))
                out.append(t.mk('eq', (s, w), 'B'))
    return out


def div_lemmas(ts, limit=200):
    """uniqueness of the quotient, at the products that occur: b > 0, a >= 0  =>  (q >= x  <=>  a >= b * x), same for the other signs"""
    divs, monos, out = {}, set(), []
    cmps = [s.a[0] for s in t.subterms(ts) if s.op in ('le0', 'eq0')]
    for s in t.subterms(ts):
        if s.op in ('tdiv', 'trem'):
            divs[s.a] = s
        elif s.op == 'poly':
            for m, c in s.a:
                if len(m) == 2:
                    monos.add(m)
    for a, b in divs:
        if b.op == 'ic':
            continue
        batoms = {x for m in t.poly(b) for x in m}
        xs = {}
        for m in monos:
            for i in (0, 1):
                if m[i] in batoms and not (m[1 - i].op in ('tdiv', 'trem') and m[1 - i].a == (a, b)):
                    xs[m[1 - i].id] = m[1 - i]
        q = t.mk('tdiv', (a, b), 'I')
        # comparisons of a with (a multiple of b) + rest
        ad = t.poly(a)
        m0 = next((m for m in ad if m), None)
        for P in cmps if m0 is not None else ():
            c = t.poly(P).get(m0)
            if c is None or c % ad[m0] or abs(c // ad[m0]) != 1:
                continue
            c //= ad[m0]
            d, r = t.poly_divmod(t.scale(t.sub(P, t.scale(a, c)), -c), b)
            if d is not None and d.op != 'ic' and len(xs) < 12 and q not in t.subterms([d]):
                xs[d.id] = d
                for d in (t.neg(d), t.sub(d, I(1))):
                    xs[d.id] = d
        pre = t.and_(t.gt(b, I(0)), t.ge(a, I(0)))
        pre2 = t.and_(t.lt(b, I(0)), t.le(a, I(0)))
        pre3 = t.and_(t.gt(b, I(0)), t.le(a, I(0)))
        pre4 = t.and_(t.lt(b, I(0)), t.ge(a, I(0)))
        for x in xs.values():
            for y in (x, t.add(x, I(1))):
                out.append(t.implies(pre, t.iff(t.ge(q, y), t.ge(a, t.mul(b, y)))))
                out.append(t.implies(pre2, t.iff(t.ge(q, y), t.le(a, t.mul(b, y)))))
                z = t.neg(y)
                out.append(t.implies(pre3, t.iff(t.le(q, z), t.le(a, t.mul(b, z)))))
                out.append(t.implies(pre4, t.iff(t.le(q, z), t.ge(a, t.mul(b, z)))))
            if len(out) > limit:
                return out
    return out


def fp_axioms(ts):
    """facts about floating-point comparisons (as functions of a Trans) and the constants that occur"""
    fcs = {}
    out = []
    cmps = False
    for s in t.subterms(ts):
        if s.op == 'fc':
            fcs.setdefault(s.sort, []).append(s)
        elif s.op == 'app' and s.a[0][:5] in ('folt_', 'fole_', 'foeq_', 'isnan'):
            cmps = True
        elif s.op == 'app' and s.a[0][:5] == 'fneg_':
            out.append(lambda tr, s=s: z3.And(tr.num(s) == tr.num(s.a[1]), tr.rank(s) == -tr.rank(s.a[1])))
    if not cmps:
        return [], fcs
    for cs in fcs.values():
        for c in cs:
            v = t.fval(c)
            if v is None:
                continue
            if v != v:
                out.append(lambda tr, c=c: z3.Not(tr.num(c)))
            elif v in (INF, -INF):
                out.append(lambda tr, c=c: tr.num(c))
            else:
                out.append(lambda tr, c=c, v=v: z3.And(tr.num(c), tr.rank(c) == z3.RealVal(str(fractions.Fraction(v)))))
    return out, fcs


def fp_round(q, prec):
    """the binary floating-point number with prec bits nearest to 0 < q (ties to even, normal range)"""
    e = 0
    while q >= 2 ** prec:
        q /= 2
        e += 1
    while q < 2 ** (prec - 1):
        q *= 2
        e -= 1
    return fractions.Fraction(round(q)) * fractions.Fraction(2) ** e


def fp_ops(ts):
    """facts of IEEE 754 arithmetic (rounding to nearest) about the operations that occur. The standard interpretation is
    rank(x) = x for finite x and +-2^2000 for the infinities, so a rank of magnitude <= MAX means a finite value."""
    ops, cmpd = [], {}
    for s in t.subterms(ts):
        if s.op != 'app':
            continue
        n = s.a[0]
        if n[:5] in ('fadd_', 'fsub_', 'fmul_', 'fdiv_') or n[:7] in ('uitofp_', 'sitofp_'):
            ops.append(s)
        elif n[:5] in ('folt_', 'fole_', 'foeq_'):
            for y in s.a[1:]:
                cmpd.setdefault(y.sort, {})[y.id] = y
    out = []
    R = z3.RealVal
    F = fractions.Fraction
    for s in ops[:60]:
        n, so = s.a[0], s.sort
        prec, emax = (24, 128) if so == 'S' else (53, 1024)
        if so not in ('S', 'D'):
            continue
        MAX = R(str(F(2) ** emax - F(2) ** (emax - prec)))
        u = F(1, 2 ** prec)
        MINN2 = R(str(F(2) ** (3 - emax)))
        if 'itofp' in n:
            def g(tr, s=s, prec=prec):
                v = tr.go(s.a[1])
                b = z3.IntVal(2 ** prec)
                return z3.And(tr.num(s), z3.Implies(z3.And(v <= b, v >= -b), tr.rank(s) == z3.ToReal(v)))
            out.append(g)
            continue
        a, b = s.a[1], s.a[2]

        def f(tr, s=s, a=a, b=b, n=n, u=u, MAX=MAX, MINN2=MINN2, prec=prec, hs=list(cmpd.get(so, {}).values())[:40]):
            A, B, S = tr.rank(a), tr.rank(b), tr.rank(s)
            NA, NB, NS = tr.num(a), tr.num(b), tr.num(s)
            I_, And = z3.Implies, z3.And
            fa, fb = And(NA, A <= MAX, A >= -MAX), And(NB, B <= MAX, B >= -MAX)
            fs = And(S <= MAX, S >= -MAX)
            c = [I_(NS, And(NA, NB))]
            if n[:4] in ('fadd', 'fsub'):
                E = A + B if n[:4] == 'fadd' else A - B
                c.append(I_(And(NA, NB, z3.Or(fa, fb)), NS))
                c.append(I_(And(NS, fs, E >= 0), And(S <= R(str(1 + u)) * E, S >= R(str(1 - u)) * E)))
                c.append(I_(And(NS, fs, E <= 0), And(S >= R(str(1 + u)) * E, S <= R(str(1 - u)) * E)))
                c.append(I_(And(NS, fs, E <= MINN2, E >= -MINN2), S == E))
                for h in hs + [a, b]:
                    if h is s:
                        continue
                    H, NH = tr.rank(h), tr.num(h)
                    c.append(I_(And(NS, NH, E <= H), S <= H))
                    c.append(I_(And(NS, NH, E >= H), S >= H))
                if n[:4] == 'fsub':
                    c.append(I_(NS, And((S == 0) == (A == B), (S > 0) == (A > B))))
            elif n[:4] == 'fmul':
                c.append(I_(And(fa, fb), NS))
                for (X, Y) in ((A, B), (B, A)):
                    c.append(I_(And(NS, X >= 0, Y >= 0), S >= 0))
                    c.append(I_(And(NS, X >= 0, Y <= 0), S <= 0))
                    c.append(I_(And(NS, X <= 0, Y <= 0), S >= 0))
                    c.append(I_(And(NS, X >= 0, X <= 1, Y >= 0), S <= Y))
                    c.append(I_(And(NS, X >= 1, Y >= 0), S >= Y))
                    c.append(I_(And(NS, X >= 0, X <= R(str(1 - 2 * u)), Y >= MINN2, Y <= MAX), S <= R(str((1 - 2 * u) * (1 + u))) * Y))
            else:
                c.append(I_(And(fa, fb, B != 0), NS))
                c.append(I_(And(NS, A >= 0, B > 0), S >= 0))
                c.append(I_(And(NS, A <= 0, B > 0), S <= 0))
                c.append(I_(And(NS, A >= 0, B > 0, A <= B), S <= 1))
                v = t.fval(b) if b.op == 'fc' else None
                if v is not None and 1 < v < 2 ** prec and v == int(v):
                    c.append(I_(And(NS, A >= 0, A <= R(int(v) - 1)), S <= R(str(fp_round(F(int(v) - 1, int(v)), prec)))))
            return And(c)
        out.append(f)
    return out


def products(facts, limit=300, wide=False):
    """products of pairs of linear inequalities whose monomials already occur
    (wide: or are a product of the atom most used as a factor and another atom)"""
    monos = set()
    for s in t.subterms(facts):
        if s.op == 'poly':
            for m, c in s.a:
                if len(m) >= 2:
                    monos.add(m)
    if not monos:
        return []
    atoms = {x for m in monos for x in m}
    lin, eqs = [], []
    seen = set()
    def addlin(p):
        if p.id in seen:
            return
        seen.add(p.id)
        d = t.poly(p)
        if all(len(m) <= 1 for m in d) and any(m and m[0] in atoms for m in d):
            lin.append(p)
    for f in facts:
        for c in conj(f):
            if c.op == 'le0':
                addlin(c.a[0])
            elif c.op == 'eq0':
                d = t.poly(c.a[0])
                eqs.append(c.a[0])
                if all(len(m) <= 1 for m in d):
                    addlin(c.a[0])
                    addlin(t.neg(c.a[0]))
    out = []
    mm = {}
    def occurs(p, q):
        """the monomials of the product all occur (decided before the product is built as a term)"""
        acc = {}
        miss = 0
        for m1, c1 in p.items():
            if not m1:
                continue
            for m2, c2 in q.items():
                if not m2:
                    continue
                k = (m1, m2)
                m = mm.get(k)
                if m is None:
                    m = tuple(sorted(m1 + m2, key=lambda x: x.id))
                    m = mm[k] = (m, m in monos)
                if not m[1]:
                    acc[m[0]] = acc.get(m[0], 0) + c1 * c2
        return not any(acc.values())
    if wide:
        cnt = {}
        for m in monos:
            if len(m) == 2:
                for x in m:
                    cnt[x] = cnt.get(x, 0) + 1
        las = {m[0] for p in lin for m in t.poly(p) if m}
        for x in sorted(cnt, key=lambda z: (-cnt[z], z.id))[:4]:
            for y in las:
                for m in t.poly(t.mul(x, y)):
                    monos.add(m)
    dl = [t.poly(p) for p in lin]
    for i, p in enumerate(lin):
        for j in range(i, len(lin)):
            if not occurs(dl[i], dl[j]):
                continue
            q = lin[j]
            pr = t.mul(p, q)
            if all(len(m) < 2 or m in monos for m in t.poly(pr)):
                f = t._le0(t.neg(pr))
                if f is not t.TRUE:
                    out.append(f)
            if len(out) >= limit:
                return out
    for p in eqs:
        dp = t.poly(p)
        for a in atoms:
            if not occurs(dp, {(a,): 1}):
                continue
            pr = t.mul(p, a)
            if all(len(m) < 2 or m in monos for m in t.poly(pr)):
                out.append(t.eq(pr, I(0)))
            if len(out) >= limit:
                return out
    # degree-3: fact * monomial-atom pairs, only when cubic monomials occur
    if any(len(m) >= 3 for m in monos):
        quad = [f.a[0] for f in out if f.op == 'le0']
        base = lin
        for p in quad[:60]:
            for q in base:
                pr = t.mul(p, q)
                if all(len(m) < 2 or m in monos or len(m) == 2 for m in t.poly(pr)):
                    f = t._le0(t.neg(pr))
                    if f is not t.TRUE:
                        out.append(f)
                if len(out) >= 2 * limit:
                    return out
    return out


def decided(facts, limit=120):
    """comparisons of quotients and remainders that the facts entail linearly, as plain facts"""
    cands, seen = [], set()
    divs = {s.a for s in t.subterms(facts) if s.op in ('tdiv', 'trem')}
    if not divs or len(divs) > 8:
        return []
    qs = {t.mk('tdiv', d, 'I') for d in divs}
    def cand(c):
        if c.op == 'le0' and c.id not in seen:
            seen.add(c.id)
            cands.append(c)
    for a, b in sorted(divs, key=lambda d: (d[0].id, d[1].id)):
        q, r = t.mk('tdiv', (a, b), 'I'), t.mk('trem', (a, b), 'I')
        for c in (t.ge(q, I(0)), t.ge(r, I(0)), t.lt(r, b), t.le(q, a)):
            cand(c)
    for s in t.subterms(facts):
        if s.op == 'le0' and all(len(m) <= 1 for m in t.poly(s.a[0])) and qs & {m[0] for m in t.poly(s.a[0]) if m}:
            cand(s)
            for c in solver_not(s):
                cand(c)
    cof = {}
    for s in t.subterms(facts):
        if s.op == 'poly':
            for m, c in s.a:
                if len(m) == 2:
                    cof.setdefault(m[0], set()).add(m[1])
                    cof.setdefault(m[1], set()).add(m[0])
    for c, xs in sorted(cof.items(), key=lambda z: z[0].id):
        for x in sorted(xs & qs, key=lambda z: z.id):
            for y in sorted(xs, key=lambda z: z.id):
                if x is not y:
                    for z in (t.le(x, y), t.lt(x, y), t.le(y, x), t.lt(y, x)):
                        cand(z)
    tr = trans(False)
    s = z3.SimpleSolver()
    s.set('rlimit', 1800000)
    have = set()
    for f in facts:
        have.update(c.id for c in conj(f))
        s.add(tr.go(f))
    out = []
    for c in cands[:limit]:
        if c.id in have:
            continue
        s.push()
        s.add(tr.go(t.not_(c)))
        if s.check() == z3.unsat:
            out.append(c)
        s.pop()
    return out


def solver_not(s):
    return [c for c in conj(t.not_(s)) if c.op == 'le0']


_cache = {}
DEBUG = [False]


class Result:
    __slots__ = ('ok', 'status', 'model', 'facts', 'tr')

    def __init__(self, ok, status, model=None, facts=None, tr=None):
        self.ok, self.status, self.model, self.facts, self.tr = ok, status, model, facts, tr


def split_diseq(f):
    """x != (c ? y : x)   ->   c  and  x != y"""
    for _ in range(4):
        if f.op != 'not':
            return f
        e = f.a[0]
        r = None
        if e.op == 'eq':
            for x, y in ((e.a[0], e.a[1]), (e.a[1], e.a[0])):
                if y.op == 'ite':
                    if y.a[1] is x:
                        r = (t.not_(y.a[0]), t.not_(t.eq(x, y.a[2])))
                    elif y.a[2] is x:
                        r = (y.a[0], t.not_(t.eq(x, y.a[1])))
                    if r:
                        break
        elif e.op == 'eq0':
            for m, c in t.poly(e.a[0]).items():
                if len(m) == 1 and m[0].op == 'ite' and c in (1, -1):
                    y = m[0]
                    rest = t.sub(e.a[0], t.scale(y, c))
                    b1, b2 = t.add(rest, t.scale(y.a[1], c)), t.add(rest, t.scale(y.a[2], c))
                    if b1 is I(0):
                        r = (t.not_(y.a[0]), t.ne(b2, I(0)))
                    elif b2 is I(0):
                        r = (y.a[0], t.ne(b1, I(0)))
                    if r:
                        break
        if r is None:
            return f
        if r[0] is t.FALSE or r[1] is t.FALSE:
            return t.FALSE
        return t.and_(r[0], split_diseq(r[1]))
    return f


# ------------------------------------------------------------------ interval arithmetic (first attempt for range obligations)
_linc = {}
_bc = {}
INF = float('inf')


def own_range(x):
    """range of an atom by its own meaning"""
    n = x.a[0]
    if n[:4] == 'urem' and x.a[2].op == 'ic' and 0 < x.a[2].a[0] < 2 ** (int(n[4:]) - 1):
        return 0, x.a[2].a[0] - 1
    if n[:4] == 'wrap' and n[4:].isdigit():
        return -2 ** (int(n[4:]) - 1), 2 ** (int(n[4:]) - 1) - 1
    return None, None


def _ub(m, c, bd):
    """an upper bound of c * m (None: none known); m a monomial, c a nonzero integer"""
    lo, hi = 1, 1
    for x in m:
        l, h = bd.get(x, (None, None))
        if x.op == 'app' and (l is None or h is None):
            l2, h2 = own_range(x)
            l, h = l2 if l is None else l, h2 if h is None else h
        if len(m) == 1:
            b = h if c > 0 else l
            return None if b is None else c * b
        if l is None or h is None:
            return None
        ps = (lo * l, lo * h, hi * l, hi * h)
        lo, hi = min(ps), max(ps)
    return c * hi if c > 0 else c * lo


def bounds(pc):
    """atom -> (lo, hi) implied by the linear facts, by a few rounds of interval propagation"""
    key = tuple(f.id for f in pc)
    r = _bc.get('k')
    if r == key:
        return _bc['v']
    lin = []
    for f in pc:
        l = _linc.get(f)
        if l is None:
            l = []
            for c in conj(f):
                if c.op == 'le0':
                    l.append(t.poly(c.a[0]))
                elif c.op == 'eq0':
                    d = t.poly(c.a[0])
                    l.append(d)
                    l.append({m: -k for m, k in d.items()})
            l = [d for d in l if len(d) <= 6]
            _linc[f] = l
        lin += l
    bd = {}
    for rnd in range(4):
        ch = False
        for d in lin:
            k0 = d.get((), 0)
            for m, c in d.items():
                if len(m) != 1:
                    continue
                # c*m <= -k0 - sum others
                rest = -k0
                for m2, c2 in d.items():
                    if m2 and m2 is not m:
                        u = _ub(m2, -c2, bd)
                        if u is None:
                            rest = None
                            break
                        rest += u
                if rest is None:
                    continue
                x = m[0]
                l, h = bd.get(x, (None, None))
                if c > 0:
                    v = rest // c
                    if h is None or v < h:
                        bd[x] = (l, v)
                        ch = True
                else:
                    v = -(rest // -c)
                    if l is None or v > l:
                        bd[x] = (v, h)
                        ch = True
        if not ch:
            break
    _bc['k'], _bc['v'] = key, bd
    return bd


def interval_in(pc, p, lo, hi):
    """p in [lo, hi) by interval arithmetic alone"""
    bd = bounds(pc)
    up, dn = 0, 0
    for m, c in t.poly(p).items():
        if m == ():
            up += c
            dn -= c
            continue
        u, d = _ub(m, c, bd), _ub(m, -c, bd)
        if u is None or d is None:
            return False
        up += u
        dn += d
    return up < hi and -dn >= lo


QUICK = [False]
_q = {}


def quick_unsat(fl):
    """first attempt: the facts alone, linear arithmetic, no instances; incremental over the common prefix"""
    if 's' not in _q:
        _q['s'] = z3.SimpleSolver()
        _q['s'].set('rlimit', 2000000)
        _q['s'].set('timeout', 2000)
        _q['st'] = []
    s, st = _q['s'], _q['st']
    n = 0
    while n < len(st) and n < len(fl) and st[n] is fl[n]:
        n += 1
    if len(st) > n:
        s.pop(len(st) - n)
        del st[n:]
    tr = trans(False)
    for f in fl[n:]:
        s.push()
        s.add(tr.go(f))
        st.append(f)
    return s.check() == z3.unsat


def check_sat(facts, qfs, seeds=(), depth=2, want_model=False, timeout=None, light=False):
    """is the conjunction of facts (and quantified facts) unsatisfiable?  -> Result(ok=unsat)"""
    fl = []
    for f in facts:
        f = split_diseq(f)
        if f is t.FALSE:
            STATS['trivial'] += 1
            return Result(True, 'unsat')
        if f is not t.TRUE:
            fl.append(f)
    ids = {f.id for f in fl}
    for f in fl:
        if t.not_(f).id in ids:
            STATS['trivial'] += 1
            return Result(True, 'unsat')
    key = (frozenset(ids), tuple(id(q) for q in qfs), tuple(s.id for s in seeds), depth, light)
    if not want_model:
        r = _cache.get(key)
        if r is not None:
            STATS['cache'] += 1
            return r[0]
    t0 = time.time()
    STATS['queries'] += 1
    if QUICK[0] and quick_unsat(fl):
        STATS['quick'] = STATS.get('quick', 0) + 1
        STATS['time'] += time.time() - t0
        res = Result(True, 'unsat')
        _cache[key] = (res, list(qfs), fl)
        return res
    inst = instantiate(fl, qfs, seeds)
    ax = defaxioms(fl + inst, depth)
    if ax:
        inst2 = instantiate(fl + inst + ax, qfs, seeds) if qfs else inst
        if len(inst2) > len(inst):
            inst = inst2
            ax = defaxioms(fl + inst, depth)
    allf = fl + inst + ax
    allf += div_lemmas(allf)
    fpa, fcs = fp_axioms(allf)
    fpa0, fpo = bool(fpa) and want_model, None
    nonlin = any(s.op == 'poly' and any(len(m) > 1 for m, c in s.a) for s in t.subterms(allf))
    prods = products(allf) if nonlin else []
    res = None
    nmono = len({m for s in t.subterms(allf) if s.op == 'poly' for m, c in s.a if len(m) > 1}) if nonlin else 0
    for nl in ((False, None, True) if nonlin and not light else (False,)):
        if nl is None:
            if nmono > 60:
                continue
            nl = False
            allf += decided(allf + prods)
            wide = products(allf, 800, True)
            have = {x.id for x in prods}
            if all(x.id in have for x in wide):
                continue
            prods = wide
        tr = trans(nl)
        s = z3.SimpleSolver()
        ms = timeout or TIMEOUT[0] // (8 if light else 1)
        if nl:
            ms = ms // 3
        s.set('rlimit', ms * 4500)      # deterministic; the wall-clock limit is only a safety net
        s.set('timeout', ms * 6)
        for f in allf + prods:
            s.add(tr.go(f))
        for f in fpa:
            s.add(f(tr))
        for so, cs in fcs.items():
            if len(cs) > 1:
                s.add(z3.Distinct([tr.go(c) for c in cs]))
        r = s.check()
        if r == z3.sat and fpa0:
            if fpo is None:
                fpo = fp_ops(allf)
            if fpo:
                for f in fpo:
                    s.add(f(tr))
                r = s.check()
        if r == z3.unsat:
            res = Result(True, 'unsat')
            break
        if r == z3.sat:
            if nl or not nonlin:
                res = Result(False, 'sat', s.model() if want_model else None, allf if want_model else None, tr)
            else:
                res = Result(False, 'sat-lin', s.model() if want_model else None, allf if want_model else None, tr)
        else:
            if res is None or res.status != 'sat':
                res = Result(False, 'unknown')
    STATS['time'] += time.time() - t0
    if not want_model:
        _cache[key] = (res, tuple(qfs))
    return res

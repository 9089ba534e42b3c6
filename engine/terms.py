"""Hash-consed terms. Sorts: 'I' mathematical integers, 'B' booleans, 'D'/'S'/'X'.. uninterpreted floating-point sorts.

Integers are kept in polynomial normal form over atoms, so ring identities hold syntactically.
Floating-point operations are uninterpreted functions (commutativity of + and * is the only law used), so equality of
two floating-point terms means: same operations on the same operands, hence bit-identical results."""
import sys
sys.setrecursionlimit(100000)

_tab = {}
_cnt = [0]


class T:
    __slots__ = ('op', 'a', 'sort', 'id', 'fv', '_lin')

    def __hash__(self):     # creation order, so that runs are reproducible
        return self.id

    def __repr__(self):
        return show(self)


def mk(op, a, sort):
    key = (op, a, sort)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.sort = op, a, sort
        _cnt[0] += 1
        t.id = _cnt[0]
        t.fv = None
        _tab[key] = t
    return t


NAMED = {}      # abbreviation variable -> the input-only polynomial it stands for


def reset():
    _tab.clear()
    NAMED.clear()


# ------------------------------------------------------------- integers
def I(n):
    return mk('ic', (n,), 'I')


ZERO = None


def _poly(t):
    """-> dict mono->coef ; mono = tuple of atoms sorted by id"""
    if t.op == 'ic':
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == 'poly':
        return dict(t.a)
    return {(t,): 1}


def from_poly(d):
    items = [(m, c) for m, c in d.items() if c]
    if not items:
        return I(0)
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return I(c)
        if c == 1 and len(m) == 1:
            return m[0]
    items.sort(key=lambda mc: (len(mc[0]), tuple(x.id for x in mc[0])))
    return mk('poly', tuple(items), 'I')


def add(a, b):
    if a.op == 'ic' and b.op == 'ic':
        return I(a.a[0] + b.a[0])
    d = _poly(a)
    for m, c in _poly(b).items():
        d[m] = d.get(m, 0) + c
    return from_poly(d)


def neg(a):
    return scale(a, -1)


def scale(a, k):
    if a.op == 'ic':
        return I(a.a[0] * k)
    return from_poly({m: c * k for m, c in _poly(a).items()})


def sub(a, b):
    return add(a, scale(b, -1))


def mul(a, b):
    if a.op == 'ic':
        return scale(b, a.a[0])
    if b.op == 'ic':
        return scale(a, b.a[0])
    # distribute over 0/1-like ites?  no: keep as atoms
    d = {}
    for m1, c1 in _poly(a).items():
        for m2, c2 in _poly(b).items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            d[m] = d.get(m, 0) + c1 * c2
    return from_poly(d)


def const(t):
    return t.a[0] if t.op == 'ic' else None


def poly(t):
    return _poly(t)


def div_exact(p, c):
    """p / c if c divides p as polynomials (c a constant or single monomial), else None"""
    if c.op == 'ic':
        k = c.a[0]
        if k == 0:
            return None
        d = _poly(p)
        if all(v % k == 0 for v in d.values()):
            return from_poly({m: v // k for m, v in d.items()})
        return None
    q, r = poly_divmod(p, c)
    if r is not None and r.op == 'ic' and r.a[0] == 0:
        return q
    return None


def _mono_div(m, n):
    m = list(m)
    for x in n:
        if x in m:
            m.remove(x)
        else:
            return None
    return tuple(m)


def poly_divmod(p, c):
    """p = q*c + r where r has no monomial divisible by c's leading monomial (c: constant or polynomial)."""
    if c.op == 'ic':
        k = c.a[0]
        if k == 0:
            return None, None
        q, r = {}, {}
        for m, v in _poly(p).items():
            if v % k == 0:
                q[m] = v // k
            else:
                r[m] = v
        return from_poly(q), from_poly(r)
    cd = _poly(c)
    lead = max(cd.items(), key=lambda mc: (len(mc[0]), tuple(x.id for x in mc[0])))
    q = I(0)
    r = {}
    rem = p
    for _ in range(60):
        d = _poly(rem)
        hit = None
        for m, v in d.items():
            if v % lead[1] == 0:
                mm = _mono_div(m, lead[0])
                if mm is not None:
                    hit = (mm, v // lead[1])
                    break
        if hit is None:
            return q, rem
        t = from_poly({hit[0]: hit[1]})
        q = add(q, t)
        rem = sub(rem, mul(t, c))
    return None, None


# ------------------------------------------------------------- booleans
TRUE = mk('true', (), 'B')
FALSE = mk('false', (), 'B')


def B(b):
    return TRUE if b else FALSE


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.a[0]
    if a.op == 'le0':
        return _le0(sub(I(1), a.a[0]))
    return mk('not', (a,), 'B')


def and_(*xs):
    out = []
    seen = set()
    st = list(xs)[::-1]
    while st:
        x = st.pop()
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.op == 'and':
            st.extend(reversed(x.a))
            continue
        if x.id not in seen:
            seen.add(x.id)
            out.append(x)
    for x in out:
        if not_(x).id in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda x: x.id)
    return mk('and', tuple(out), 'B')


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    if not_(a) is b:
        return FALSE
    if a.op == 'not' and b.op == 'not':
        a, b = a.a[0], b.a[0]
    if a.id > b.id:
        a, b = b, a
    return mk('iff', (a, b), 'B')


from math import gcd


def _ite_lift(p, f):
    """p single ite with constant branches plus constant: lift comparison"""
    d = _poly(p)
    it = None
    for m, c in d.items():
        if m == ():
            continue
        if len(m) == 1 and m[0].op == 'ite' and it is None:
            it = (m[0], c)
        else:
            return None
    if it is None:
        return None
    t, c = it
    k = d.get((), 0)
    x, y = t.a[1], t.a[2]
    if x.op == 'ic' and y.op == 'ic':
        rx, ry = f(c * x.a[0] + k), f(c * y.a[0] + k)
        return ite_b(t.a[0], B(rx), B(ry))
    return None


def _le0(p):
    if p.op == 'ic':
        return B(p.a[0] <= 0)
    r = _ite_lift(p, lambda v: v <= 0)
    if r is not None:
        return r
    d = _poly(p)
    k = d.get((), 0)
    g = 0
    for m, c in d.items():
        if m != ():
            g = gcd(g, abs(c))
    if g > 1:
        d = {m: c // g for m, c in d.items() if m != ()}
        kk = -((-k) // g)      # ceil(k/g):  g*x + k <= 0  <=>  x <= floor(-k/g)
        if kk:
            d[()] = kk
        p = from_poly(d)
        if p.op == 'ic':
            return B(p.a[0] <= 0)
    return mk('le0', (p,), 'B')


def le(a, b):
    return _le0(sub(a, b))


def lt(a, b):
    return _le0(add(sub(a, b), I(1)))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort != b.sort:
        raise TypeError('eq sorts %s %s' % (a.sort, b.sort))
    if a.sort == 'B':
        return iff(a, b)
    if a.sort == 'I':
        p = sub(a, b)
        if p.op == 'ic':
            return B(p.a[0] == 0)
        r = _ite_lift(p, lambda v: v == 0)
        if r is not None:
            return r
        d = _poly(p)
        k = d.get((), 0)
        g = 0
        for m, c in d.items():
            if m != ():
                g = gcd(g, abs(c))
        if g > 1:
            if k % g:
                return FALSE
            d = {m: c // g for m, c in d.items()}
            p = from_poly(d)
            d = _poly(p)
        lead = max(((m, c) for m, c in d.items() if m != ()), key=lambda mc: (len(mc[0]), tuple(x.id for x in mc[0])))
        if lead[1] < 0:
            p = scale(p, -1)
        return mk('eq0', (p,), 'B')
    if a.op == 'fc' and b.op == 'fc':
        return B(a.a == b.a)
    if a.op == 'ite' and b.op == 'ite' and a.a[0] is b.a[0]:
        return ite_b(a.a[0], eq(a.a[1], b.a[1]), eq(a.a[2], b.a[2]))
    if a.id > b.id:
        a, b = b, a
    return mk('eq', (a, b), 'B')


def ne(a, b):
    return not_(eq(a, b))


def ite_b(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return and_(or_(not_(c), a), or_(c, b))


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a.sort == 'B':
        return ite_b(c, a, b)
    if c.op == 'not':
        return ite(c.a[0], b, a)
    if a.op == 'ite' and a.a[0] is c:
        return ite(c, a.a[1], b)
    if b.op == 'ite' and b.a[0] is c:
        return ite(c, a, b.a[2])
    if a.sort == 'I' and (a.op == 'poly' or b.op == 'poly'):
        # factor the common part out:  c ? x+u : x+v  =  x + (c ? u : v)
        da, db = _poly(a), _poly(b)
        com = {m: v for m, v in da.items() if db.get(m) == v}
        if com and (len(com) > 1 or () not in com):
            com = from_poly(com)
            return add(com, ite(c, sub(a, com), sub(b, com)))
    return mk('ite', (c, a, b), a.sort)


# ------------------------------------------------------------- others
def var(name, sort):
    return mk('var', (name,), sort)


_fresh = [0]


def fresh(prefix, sort):
    _fresh[0] += 1
    return mk('var', ('%s!%d' % (prefix, _fresh[0]),), sort)


def abbreviate(p):
    """a variable standing for a polynomial over inputs (its definition is added to every query that mentions it)"""
    if p.op != 'poly' or len(p.a) < 2 or any(len(m) > 1 for m, c in p.a):
        return p
    if not all(v.a[0].startswith('in:') or v in NAMED for v in fvs(p)):
        return p
    if _negative(p):
        return neg(abbreviate(neg(p)))
    v = mk('var', ('nm!%d' % p.id,), 'I')
    NAMED[v] = p
    return v


def app(f, args, sort):
    """uninterpreted application f(args); f a string"""
    return mk('app', (f,) + tuple(args), sort)


def sel(base, idx, sort):
    """element idx of the (unknown) initial contents 'base' (a string)"""
    return mk('sel', (base, idx), sort)


def rec(defid, comp, k, params, sort):
    """component comp of the k-th state of recursive definition defid with parameters"""
    return mk('rec', (defid, comp, k) + tuple(params), sort)


def tdiv(a, b):
    """C truncating division"""
    if a.op == 'ic' and b.op == 'ic' and b.a[0]:
        q = abs(a.a[0]) // abs(b.a[0])
        return I(q if (a.a[0] >= 0) == (b.a[0] >= 0) else -q)
    if b.op == 'ic' and b.a[0] == 1:
        return a
    if b.op == 'ic' and b.a[0] == -1:
        return neg(a)
    if b.op == 'ic':
        q = div_exact(a, b)
        if q is not None:
            return q
    if _negative(b):
        return neg(tdiv(a, neg(b)))
    if _negative(a):
        return neg(tdiv(neg(a), b))
    return mk('tdiv', (a, b), 'I')


def _negative(x):
    """canonical sign: the first non-constant monomial has a negative coefficient"""
    if x.op == 'ic':
        return x.a[0] < 0
    if x.op != 'poly':
        return False
    for m, c in x.a:
        if m:
            return c < 0
    return False


def trem(a, b):
    if a.op == 'ic' and b.op == 'ic' and b.a[0]:
        r = abs(a.a[0]) % abs(b.a[0])
        return I(r if a.a[0] >= 0 else -r)
    if b.op == 'ic' and abs(b.a[0]) == 1:
        return I(0)
    if b.op == 'ic' and b.a[0] and div_exact(a, b) is not None:
        return I(0)
    if _negative(b):
        return trem(a, neg(b))
    if _negative(a):
        return neg(trem(neg(a), b))
    return mk('trem', (a, b), 'I')


def fcmp(pred, a, b):
    """fcmp predicate over uninterpreted FP; canonical predicates: olt ole oeq uno"""
    if pred == 'true':
        return TRUE
    if pred == 'false':
        return FALSE
    if pred in ('ogt', 'oge', 'ugt', 'uge'):
        return fcmp({'ogt': 'olt', 'oge': 'ole', 'ugt': 'ult', 'uge': 'ule'}[pred], b, a)
    if pred == 'ult':
        return not_(fcmp('ole', b, a))
    if pred == 'ule':
        return not_(fcmp('olt', b, a))
    if pred == 'une':
        return not_(fcmp('oeq', a, b))
    if pred == 'ord':
        return not_(fcmp('uno', a, b))
    if pred == 'one':
        return or_(fcmp('olt', a, b), fcmp('olt', b, a))
    if pred == 'ueq':
        return not_(fcmp('one', a, b))
    if a.op == 'fc' and b.op == 'fc':
        x, y = fval(a), fval(b)
        if x is not None and y is not None:
            if x != x or y != y:
                return B(pred == 'uno')
            return B({'olt': x < y, 'ole': x <= y, 'oeq': x == y, 'uno': False}[pred])
    if pred in ('oeq', 'uno') and a.id > b.id:
        a, b = b, a
    if pred == 'olt' and a is b:
        return FALSE
    if pred == 'uno':
        # isnan(a) or isnan(b)
        def nan(x):
            if x.op == 'fc':
                v = fval(x)
                return B(v != v)
            return mk('app', ('isnan_' + x.sort, x), 'B')
        return or_(nan(a), nan(b))
    return mk('app', ('f' + pred + '_' + a.sort, a, b), 'B')


import struct


def fc(text, sort):
    return mk('fc', (norm_fc(text, sort),), sort)


def norm_fc(text, sort):
    if text.startswith('0x') and text[2] not in 'KLMHR':
        return ('d', int(text, 16))
    if text.startswith('0x'):
        return ('r', text)
    return ('d', struct.unpack('<Q', struct.pack('<d', float(text)))[0])


def fval(t):
    k, v = t.a[0]
    if k == 'd':
        return struct.unpack('<d', struct.pack('<Q', v))[0]
    return None


def fop(op, a, b):
    if op in ('fadd', 'fmul') and a.id > b.id:
        a, b = b, a
    if a.op == 'fc' and b.op == 'fc' and a.sort in ('D',):
        x, y = fval(a), fval(b)
        if x is not None and y is not None:
            try:
                v = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}[op]()
                return mk('fc', (('d', struct.unpack('<Q', struct.pack('<d', v))[0]),), a.sort)
            except (ZeroDivisionError, KeyError, OverflowError):
                pass
    # exact identities of IEEE arithmetic (up to the bits of a nan): x * 1, x / 1
    if op == 'fmul' and a.op == 'fc' and fval(a) == 1.0:
        return b
    if op in ('fmul', 'fdiv') and b.op == 'fc' and fval(b) == 1.0:
        return a
    return mk('app', (op + '_' + a.sort, a, b), a.sort)


# ------------------------------------------------------------- traversal
def children(t):
    if t.op in ('ic', 'true', 'false', 'var', 'fc'):
        return ()
    if t.op == 'poly':
        return tuple({x for m, c in t.a for x in m})
    if t.op == 'app':
        return t.a[1:]
    if t.op == 'sel':
        return (t.a[1],)
    if t.op == 'rec':
        return t.a[2:]
    return t.a


def fvs(t):
    """free variables (frozenset of var terms)"""
    if t.fv is None:
        if t.op == 'var':
            t.fv = frozenset((t,))
        else:
            s = frozenset()
            for c in children(t):
                s = s | fvs(c)
            t.fv = s
    return t.fv


def _i(a, f):
    return f(a)


def rebuild(t, f):
    """apply f to the children and rebuild"""
    op = t.op
    if op == 'poly':
        r = I(0)
        for m, c in t.a:
            x = I(c)
            for atom in m:
                x = mul(x, f(atom))
            r = add(r, x)
        return r
    if op in ('ic', 'true', 'false', 'var', 'fc'):
        return t
    if op == 'app':
        args = tuple(f(x) for x in t.a[1:])
        return rebuild_app(t.a[0], args, t.sort)
    if op == 'sel':
        return mk('sel', (t.a[0], f(t.a[1])), t.sort)
    if op == 'rec':
        return mk('rec', t.a[:2] + tuple(f(x) for x in t.a[2:]), t.sort)
    if op == 'not':
        return not_(f(t.a[0]))
    if op == 'and':
        return and_(*[f(x) for x in t.a])
    if op == 'iff':
        return iff(f(t.a[0]), f(t.a[1]))
    if op == 'le0':
        return _le0(f(t.a[0]))
    if op == 'eq0':
        return eq(f(t.a[0]), I(0))
    if op == 'eq':
        return eq(f(t.a[0]), f(t.a[1]))
    if op == 'ite':
        return ite(f(t.a[0]), f(t.a[1]), f(t.a[2]))
    if op == 'tdiv':
        return tdiv(f(t.a[0]), f(t.a[1]))
    if op == 'trem':
        return trem(f(t.a[0]), f(t.a[1]))
    raise Exception('rebuild ' + op)


def rebuild_app(fn, args, sort):
    for p in ('fadd_', 'fmul_', 'fsub_', 'fdiv_'):
        if fn.startswith(p) and len(args) == 2:
            return fop(p[:-1], *args)
    for p in ('folt_', 'fole_', 'foeq_'):
        if fn.startswith(p):
            return fcmp(p[1:-1], *args)
    if fn.startswith('isnan_') and args[0].op == 'fc':
        v = fval(args[0])
        return B(v != v)
    return mk('app', (fn,) + args, sort)


def subst(t, m, memo=None):
    """m: dict var term -> term"""
    if not m:
        return t
    if memo is None:
        memo = {}
    keys = frozenset(m)
    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op == 'var':
            r = m.get(x, x)
        elif not (fvs(x) & keys):
            r = x
        else:
            r = rebuild(x, go)
        memo[x.id] = r
        return r
    return go(t)


def transform(t, f, memo=None):
    """bottom-up: f(rebuilt node) -> node"""
    if memo is None:
        memo = {}
    def go(x):
        r = memo.get(x.id)
        if r is None:
            r = f(rebuild(x, go))
            memo[x.id] = r
        return r
    return go(t)


def subterms(ts):
    seen = {}
    st = list(ts)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen[x.id] = x
        st.extend(children(x))
    return seen.values()


def show(t, d=0):
    if d > 12:
        return '..'
    s = lambda x: show(x, d + 1)
    if t.op == 'ic':
        return str(t.a[0])
    if t.op == 'poly':
        return '(' + ' + '.join('*'.join(([str(c)] if c != 1 or not m else []) + [s(x) for x in m]) for m, c in t.a) + ')'
    if t.op == 'var':
        return t.a[0]
    if t.op in ('true', 'false'):
        return t.op
    if t.op == 'fc':
        return 'fc(%r)' % (fval(t) if t.a[0][0] == 'd' else t.a[0][1])
    if t.op == 'app':
        return t.a[0] + '(' + ', '.join(s(x) for x in t.a[1:]) + ')'
    if t.op == 'sel':
        return '%s[%s]' % (t.a[0], s(t.a[1]))
    if t.op == 'rec':
        return 'R%s.%s(%s)' % (t.a[0], t.a[1], ', '.join(s(x) for x in t.a[2:]))
    if t.op == 'le0':
        return s(t.a[0]) + '<=0'
    if t.op == 'eq0':
        return s(t.a[0]) + '==0'
    return t.op + '(' + ', '.join(s(x) for x in t.a) + ')'

"""Instruction semantics, calls, exceptions and inductive loop summaries."""
import math
import re, time
import terms as t
from terms import I, TRUE, FALSE
import solver
from solver import QF, check_sat, linear_in
import llparse
from llparse import Unsupported, get_func
from symex import (Exec, State, Block, Ptr, NULL, UNDEF, Arr, AUnk, AConst, AStore, AFam, Fam, Obl, DeadPath, Undecided,
                   same_val, subst_val, sort_of, FPSORT, STRFN, LIBM, _with)

I64 = (-(1 << 63), (1 << 63) - 1)
NEW = {'_Znam': '[]', '_Znwm': '', '_ZnamSt11align_val_t': '[]a', '_ZnwmSt11align_val_t': 'a',
       '_ZnamRKSt9nothrow_t': '[]', '_ZnwmRKSt9nothrow_t': ''}
DEL = {'_ZdaPv': '[]', '_ZdaPvm': '[]', '_ZdlPv': '', '_ZdlPvm': '', '_ZdaPvSt11align_val_t': '[]a',
       '_ZdaPvmSt11align_val_t': '[]a', '_ZdlPvSt11align_val_t': 'a', '_ZdlPvmSt11align_val_t': 'a'}
ICMP = {'eq': t.eq, 'ne': t.ne, 'slt': t.lt, 'sle': t.le, 'sgt': t.gt, 'sge': t.ge}


class Budget(Exception):
    pass


class Region:
    __slots__ = ('header', 'body', 'symexit')

    def __init__(self, header, body):
        self.header, self.body = header, body
        self.symexit = False


class AHav(Arr):
    """array at the start of a discovery iteration: reads are guessed to see the array before the loop"""
    def __init__(self, orig):
        self.orig = orig
        self.sort = orig.sort

    def read(self, p, ctx):
        return self.orig.read(p, ctx)

    def subst(self, m):
        o = self.orig.subst(m)
        return self if o is self.orig else AHav(o)


class Interp(Exec):
    def __init__(self, mod, budget=120):
        super().__init__(mod, budget)
        self.discover = 0
        self._lem = {}
        self.nsteps = 0
        self.loopinfo = {}

    # ------------------------------------------------------------------ top level
    def run_harness(self, name):
        fn = get_func(self.m, name)
        if fn is None:
            raise Unsupported('no function ' + name)
        st = State(self)
        outs = self.explore(st, fn, fn.order[0], 0, None)
        for kind, s, x in outs:
            if kind == 'ret':
                for b, blk in s.mem.items():
                    if blk.heap is not None and blk.alive:
                        self.oblige(s, 'mem', 'no leak', FALSE)
                        break
            elif kind == 'throw':
                self.oblige(s, 'exception', 'no uncaught exception', FALSE)
        return outs

    def tick(self):
        self.nsteps += 1
        if time.time() > self.deadline:
            raise Budget('time budget')

    def explore(self, st, fn, label, idx, region):
        work = [(st, label, idx)]
        outs = []
        while work:
            st, label, i = work.pop()
            try:
                self.block(st, fn, label, i, region, work, outs)
            except DeadPath:
                pass
            if len(work) > 3000:
                raise Unsupported('too many paths')
        return outs

    def block(self, st, fn, label, i, region, work, outs):
        ins_list = fn.blocks[label]
        n = len(ins_list)
        while i < n:
            self.tick()
            ins = ins_list[i]
            op = ins.op
            if op == 'br':
                if len(ins.a) == 1:
                    self.jump(st, fn, label, ins.a[0], region, work, outs)
                    return
                c = self.val(st, ins.a[0], ('int', 1))
                self.fork(st, fn, label, [(c, ins.a[1]), (t.not_(c), ins.a[2])], region, work, outs)
                return
            if op == 'switch':
                v = self.val(st, ins.a[0], ins.ty)
                if v.sort == 'B':
                    v = t.ite(v, I(1), I(0))
                alts, rest = [], TRUE
                for cv, l in ins.a[2]:
                    c = t.eq(v, self.val(st, cv, ins.ty))
                    alts.append((c, l))
                    rest = t.and_(rest, t.not_(c))
                alts.append((rest, ins.a[1]))
                self.fork(st, fn, label, alts, region, work, outs)
                return
            if op == 'ret':
                v = self.val(st, ins.a[0], ins.ty) if ins.a else None
                outs.append(('ret', st, v))
                return
            if op == 'unreachable':
                self.oblige(st, 'reach', 'unreachable code not reached', FALSE)
                return
            if op == 'resume':
                outs.append(('throw', st, None))
                return
            if op in ('call', 'invoke'):
                r = self.call(st, fn, ins)
                # r: list of (kind, state, value)
                for kind, s, v in r:
                    if kind == 'ret':
                        if ins.dest is not None:
                            s.env[ins.dest] = v
                        if op == 'invoke':
                            self.jump(s, fn, label, ins.flags[0], region, work, outs)
                        else:
                            work.append((s, label, i + 1))
                    elif kind == 'throw':
                        if op == 'invoke':
                            self.unwind(s, fn, label, ins.flags[1], region, work, outs)
                        else:
                            outs.append(('throw', s, None))
                    else:
                        outs.append((kind, s, v))
                return
            if op == 'select':
                c = self.val(st, ins.a[0], ('int', 1))
                a, b = self.val(st, ins.a[1], ins.ty), self.val(st, ins.a[2], ins.ty)
                if same_val(a, b):
                    st.env[ins.dest] = a
                elif isinstance(a, t.T) and isinstance(b, t.T) and (self.inloop or a.sort != 'I' or (a.op == 'ic' and b.op == 'ic')):
                    st.env[ins.dest] = t.ite(c, a, b)
                else:
                    yes, no = st.feasible(c), st.feasible(t.not_(c))
                    if yes and no:
                        s2 = st.copy()
                        s2.assume(t.not_(c))
                        s2.br.append(t.not_(c))
                        s2.env[ins.dest] = b
                        work.append((s2, label, i + 1))
                        st.assume(c)
                        st.br.append(c)
                        st.env[ins.dest] = a
                    else:
                        st.env[ins.dest] = a if yes else b
                i += 1
                continue
            if op == 'landingpad':
                if st.exc is None:
                    raise Unsupported('landingpad without exception')
                st.env[ins.dest] = (st.exc[1], I(self.select(st, ins)))
                i += 1
                continue
            self.simple(st, ins)
            i += 1
        raise Unsupported('fell off block')

    def fork(self, st, fn, label, alts, region, work, outs):
        live = []
        for c, l in alts:
            if c is FALSE:
                continue
            if c is TRUE or st.feasible(c):
                live.append((c, l))
        if not live:
            return
        sym = len(live) > 1
        if sym and region is not None and any(l not in region.body for _, l in live):
            region.symexit = True
        for j, (c, l) in enumerate(live):
            s = st if j == len(live) - 1 else st.copy()
            s.assume(c)
            if sym:
                s.br.append(c)
            try:
                self.jump(s, fn, label, l, region, work, outs)
            except DeadPath:
                pass

    # ------------------------------------------------------------------ control
    def jump(self, st, fn, prev, target, region, work, outs):
        vals = {}
        for ins in fn.blocks[target]:
            if ins.op != 'phi':
                break
            for v, l in ins.a:
                if l == prev:
                    vals[ins.dest] = self.val(st, v, ins.ty)
                    break
            else:
                raise Unsupported('phi')
        self.arrive(st, fn, target, vals, region, work, outs)

    def arrive(self, st, fn, target, vals, region, work, outs):
        if region is not None:
            if target == region.header:
                outs.append(('back', st, vals))
                return
            if target not in region.body:
                outs.append(('exit', st, (target, vals)))
                return
        loops = self.cfg(fn)[1]
        if target in loops:
            for kind, s, x in self.summarise(st, fn, target, vals, loops[target]):
                if kind == 'exit':
                    self.arrive(s, fn, x[0], x[1], region, work, outs)
                else:
                    outs.append((kind, s, x))
            return
        st.env.update(vals)
        work.append((st, target, len(vals)))

    def tid(self, name):
        if name not in self.tids:
            self.tids[name] = len(self.tids) + 1
        return self.tids[name]

    def clause_name(self, v):
        if v is None or v[0] in ('null', 'zero'):
            return None
        if v[0] == 'glob':
            return v[1]
        raise Unsupported('catch clause')

    def select(self, st, ins):
        for k, v in ins.a:
            if k == 'catch':
                nm = self.clause_name(v)
                if nm is None or nm == st.exc[0] or (nm == '_ZTISt9exception'):
                    return self.tid(nm or '*')
        return 0

    def unwind(self, st, fn, prev, target, region, work, outs):
        lp = next(x for x in fn.blocks[target] if x.op == 'landingpad')
        if self.select(st, lp) == 0 and not any(k == 'cleanup' for k, _ in lp.a):
            if any(k == 'filter' for k, _ in lp.a):
                raise Unsupported('exception filter')
            outs.append(('throw', st, None))
            return
        self.jump(st, fn, prev, target, region, work, outs)

    # ------------------------------------------------------------------ simple instructions
    def simple(self, st, ins):
        op = ins.op
        ty = ins.ty
        if op == 'alloca':
            sz = self.m.sizeof(ty)
            if ins.a[0] is not None:
                c = t.const(self.val(st, ins.a[0], ('int', 64)))
                if c is None:
                    raise Unsupported('variable alloca')
                sz *= c
            b = self.newblock(st, 'cells', I(sz), 'stk.' + ins.dest)
            st.mem[b].align = ins.a[1]
            st.env[ins.dest] = Ptr(b, I(0))
        elif op == 'load':
            p = self.val(st, ins.a[0], ('ptr',))
            st.env[ins.dest] = self.load(st, p, ty)
        elif op == 'store':
            p = self.val(st, ins.a[1], ('ptr',))
            self.store(st, p, self.val(st, ins.a[0], ty), ty)
        elif op == 'getelementptr':
            base = self.val(st, ins.a[0], ('ptr',))
            st.env[ins.dest] = self.gep(st, ty, base, ins.a[1])
        elif op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a, b = self.val(st, ins.a[0], ty), self.val(st, ins.a[1], ty)
            st.env[ins.dest] = self.intop(st, op, a, b, ty[1], ins.flags)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            st.env[ins.dest] = t.fop(op, self.val(st, ins.a[0], ty), self.val(st, ins.a[1], ty))
        elif op == 'fneg':
            a = self.val(st, ins.a[0], ty)
            st.env[ins.dest] = t.app('fneg_' + a.sort, (a,), a.sort)
        elif op == 'icmp':
            st.env[ins.dest] = self.icmp(st, ins.a[0], self.val(st, ins.a[1], ty), self.val(st, ins.a[2], ty))
        elif op == 'fcmp':
            st.env[ins.dest] = t.fcmp(ins.a[0], self.val(st, ins.a[1], ty), self.val(st, ins.a[2], ty))
        elif op == 'freeze':
            st.env[ins.dest] = self.val(st, ins.a[0], ty)
        elif op == 'extractvalue':
            v = self.val(st, ins.a[0], None)
            for x in ins.a[1]:
                v = v[x]
            st.env[ins.dest] = v
        elif op == 'insertvalue':
            v = self.val(st, ins.a[0], ty)
            e = self.val(st, ins.a[1], self.aggelt(ty, ins.a[2]))
            def put(v, ix):
                if not ix:
                    return e
                l = list(v)
                l[ix[0]] = put(l[ix[0]], ix[1:])
                return tuple(l)
            st.env[ins.dest] = put(v, ins.a[2])
        elif op == 'phi':
            raise Unsupported('stray phi')
        else:
            self.cast(st, ins)

    def aggelt(self, ty, ix):
        for x in ix:
            ty = self.m.resolve(ty)
            ty = ty[1][x] if ty[0] == 'struct' else ty[2]
        return ty

    def cast(self, st, ins):
        op, ty = ins.op, ins.ty
        sty, sv = ins.a
        v = self.val(st, sv, sty)
        if op in ('bitcast', 'addrspacecast'):
            if sort_of(sty) == sort_of(ty):
                r = v
            else:
                r = self.coerce(v, ty)
        elif op == 'zext':
            if sty[1] == 1:
                r = t.ite(v, I(1), I(0))
            elif isinstance(v, Ptr) or solver.interval_in(st.pc, v, 0, 1 << 64) or st.prove(t.ge(v, I(0))):
                r = v
            else:
                r = t.ite(t.lt(v, I(0)), t.add(v, I(1 << sty[1])), v)
        elif op == 'sext':
            r = t.ite(v, I(-1), I(0)) if sty[1] == 1 else v
        elif op == 'trunc':
            if ty[1] == 1:
                r = t.ne(v, I(0)) if self.bool01(st, v) else t.eq(t.trem(v, I(2)), I(1))
            else:
                h = 1 << (ty[1] - 1)
                if st.prove(t.and_(t.ge(v, I(-h)), t.lt(v, I(h)))):
                    r = v
                else:
                    r = t.app('trunc%d' % ty[1], (v,), 'I')
        elif op == 'ptrtoint':
            r = v
        elif op == 'inttoptr':
            r = v if isinstance(v, Ptr) else None
            if r is None:
                raise Unsupported('inttoptr')
        elif op in ('sitofp', 'uitofp'):
            so = FPSORT[ty[1]]
            if v.sort == 'B':
                v = t.ite(v, I(1), I(0))
            if v.op == 'ic' and abs(v.a[0]) < (1 << 24):
                r = t.fc(repr(float(v.a[0])), so)
            else:
                r = t.app(op + '_' + so, (v,), so)
        elif op in ('fptosi', 'fptoui'):
            r = t.app('%s%d_%s' % (op, ty[1], v.sort), (v,), 'I')
        elif op in ('fpext', 'fptrunc'):
            r = t.app('%s_%s%s' % (op, v.sort, FPSORT[ty[1]]), (v,), FPSORT[ty[1]])
            if op == 'fpext' and v.op == 'fc' and t.fval(v) is not None:
                r = t.mk('fc', v.a, FPSORT[ty[1]])
        else:
            raise Unsupported('cast ' + op)
        st.env[ins.dest] = r

    def bool01(self, st, v):
        if v.op == 'ite' and v.a[1].op == 'ic' and v.a[2].op == 'ic':
            return v.a[1].a[0] in (0, 1) and v.a[2].a[0] in (0, 1)
        if v.op == 'ic':
            return v.a[0] in (0, 1)
        return st.prove(t.and_(t.ge(v, I(0)), t.le(v, I(1))))

    def is01(self, v):
        if v.op == 'ite':
            return self.is01(v.a[1]) and self.is01(v.a[2])
        return v.op == 'ic' and v.a[0] in (0, 1)

    def inrange(self, st, r, w, signed=True):
        h = 1 << (w - 1)
        if r.op == 'ic':
            return -h <= r.a[0] < h
        if solver.interval_in(st.pc, r, -h, h):
            return True
        if w < 64 and not signed:
            return False        # unsigned arithmetic: kept as a wrap unless the intervals settle it
        return st.prove(t.and_(t.ge(r, I(-h)), t.lt(r, I(h))))

    def intop(self, st, op, a, b, w, flags):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b:
                return t.sub(a.off, b.off)
            if op == 'add' and isinstance(a, Ptr) and isinstance(b, t.T):
                return Ptr(a.b, t.add(a.off, b))
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, t.T):
                return Ptr(a.b, t.sub(a.off, b))
            raise Unsupported('pointer arithmetic')
        if a is UNDEF or b is UNDEF:
            raise Unsupported('undef operand')
        if w == 1:
            if op in ('and', 'mul'):
                return t.and_(a, b)
            if op == 'or':
                return t.or_(a, b)
            if op in ('xor', 'add', 'sub'):
                return t.not_(t.iff(a, b))
            raise Unsupported('i1 ' + op)
        if op == 'mul' and a.op == 'poly' and b.op == 'poly':
            a, b = t.abbreviate(a), t.abbreviate(b)
        elif op in ('sdiv', 'srem', 'udiv', 'urem'):
            b = t.abbreviate(b)
        if op in ('udiv', 'urem', 'lshr', 'ashr', 'shl', 'and', 'or', 'xor') and a.op == 'ic' and b.op == 'ic':
            M = (1 << w) - 1
            x, y, sx = a.a[0] & M, b.a[0] & M, a.a[0]
            r = None
            if op in ('udiv', 'urem') and y:
                r = x // y if op == 'udiv' else x % y
            elif op in ('lshr', 'ashr', 'shl') and y < w:
                r = x >> y if op == 'lshr' else (sx >> y if op == 'ashr' else x << y)
            elif op in ('and', 'or', 'xor'):
                r = x & y if op == 'and' else x | y if op == 'or' else x ^ y
            if r is not None:
                r &= M
                return I(r - (1 << w) if r >> (w - 1) else r)
        if op in ('add', 'sub', 'mul'):
            r = {'add': t.add, 'sub': t.sub, 'mul': t.mul}[op](a, b)
            if 'nsw' in flags:
                if op == 'mul' and w == 64 and a.op != 'ic' and b.op != 'ic' and self.inrange(st, a, 32) and self.inrange(st, b, 32) or self.inrange(st, r, w):
                    if self.emit and r.op != 'ic':
                        self.obls.append(Obl('overflow', 'no signed overflow', True, 'unsat'))
                else:
                    h = 1 << (w - 1)
                    self.oblige(st, 'overflow', 'no signed overflow', t.and_(t.ge(r, I(-h)), t.lt(r, I(h))))
                return r
            if self.inrange(st, r, w, False):
                return r
            if w == 64 and op != 'mul' and r.op == 'ic':
                x = r.a[0] & ((1 << 64) - 1)
                return I(x - (1 << 64) if x >> 63 else x)
            return t.app('wrap%d' % w, (r,), 'I')
        if op in ('sdiv', 'srem'):
            if b.op != 'ic' or b.a[0] == 0:
                self.oblige(st, 'arith', 'no division by zero', t.ne(b, I(0)))
            if op == 'sdiv' and 'exact' in flags:
                q = t.div_exact(a, b)
                if q is not None:
                    return q
            return st.quot(a, b) if op == 'sdiv' else st.rem(a, b)
        if op in ('udiv', 'urem'):
            if not (a.op == 'app' and a.a[0] == 'wrap%d' % w) and st.prove(t.and_(t.ge(a, I(0)), t.gt(b, I(0)))):
                return st.quot(a, b) if op == 'udiv' else st.rem(a, b)
            self.oblige(st, 'arith', 'no division by zero', t.ne(b, I(0)))
            return t.app('%s%d' % (op, w), (a, b), 'I')
        if op == 'shl' and b.op == 'ic' and 0 <= b.a[0] < w:
            r = t.scale(a, 1 << b.a[0])
            if 'nsw' in flags or self.inrange(st, r, w):
                return r
        if op in ('ashr', 'lshr') and b.op == 'ic' and 0 <= b.a[0] < w:
            c = I(1 << b.a[0])
            if 'exact' in flags:
                q = t.div_exact(a, c)
                if q is not None:
                    return q
            if st.prove(t.ge(a, I(0))):
                return st.quot(a, c)
        if op == 'and':
            for x, y in ((a, b), (b, a)):
                if y.op == 'ic' and y.a[0] == 0:
                    return y
                if y.op == 'ic' and y.a[0] > 0 and (y.a[0] & (y.a[0] + 1)) == 0 and st.prove(t.ge(x, I(0))):
                    return st.rem(x, I(y.a[0] + 1))
            if self.bool01(st, a) and self.bool01(st, b):
                return t.ite(t.and_(t.ne(a, I(0)), t.ne(b, I(0))), I(1), I(0))
        if op in ('xor', 'or', 'and') and self.is01(a) and self.is01(b):
            x, y = t.ne(a, I(0)), t.ne(b, I(0))
            return t.ite({'xor': lambda: t.not_(t.iff(x, y)), 'or': lambda: t.or_(x, y), 'and': lambda: t.and_(x, y)}[op](), I(1), I(0))
        if op == 'xor':
            for x, y in ((a, b), (b, a)):
                if y.op == 'ic' and y.a[0] == -1:
                    return t.sub(I(-1), x)
        if op in ('or', 'xor'):
            if a is I(0):
                return b
            if b is I(0):
                return a
        if op in ('and', 'or', 'xor') and a.id > b.id:
            a, b = b, a
        return t.app('%s%d' % (op, w), (a, b), 'I')

    def icmp(self, st, pred, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                if a is UNDEF or b is UNDEF:
                    raise Unsupported('compare undefined pointer')
                raise Unsupported('pointer/integer comparison')
            if a.b == b.b:
                a, b = a.off, b.off
                if pred[0] == 'u':
                    pred = 's' + pred[1:]
            else:
                if pred == 'eq':
                    return FALSE
                if pred == 'ne':
                    return TRUE
                raise Unsupported('ordering of unrelated pointers')
            return ICMP[pred](a, b)
        if a is UNDEF or b is UNDEF:
            raise Unsupported('compare undefined')
        if a.sort == 'B':
            if pred == 'eq':
                return t.iff(a, b)
            if pred == 'ne':
                return t.not_(t.iff(a, b))
            if pred == 'ugt':
                return t.and_(a, t.not_(b))
            if pred == 'ult':
                return t.and_(b, t.not_(a))
            raise Unsupported('i1 compare')
        if pred in ICMP:
            return ICMP[pred](a, b)
        sp = 's' + pred[1:]
        Z = I(0)
        if b is Z and pred in ('ugt', 'ule'):
            return t.ne(a, Z) if pred == 'ugt' else t.eq(a, Z)
        if a is Z and pred in ('ult', 'uge'):
            return t.ne(b, Z) if pred == 'ult' else t.eq(b, Z)
        an, bn = st.dec(t.ge(a, Z)), st.dec(t.ge(b, Z))
        if an is TRUE and bn is TRUE:
            return ICMP[sp](a, b)
        lt_ = lambda x, y, xn, yn: t.or_(t.and_(xn, t.not_(yn)), t.and_(t.iff(xn, yn), t.lt(x, y)))
        if pred == 'ult':
            return lt_(a, b, an, bn)
        if pred == 'ugt':
            return lt_(b, a, bn, an)
        if pred == 'ule':
            return t.not_(lt_(b, a, bn, an))
        return t.not_(lt_(a, b, an, bn))

    # ------------------------------------------------------------------ calls
    def raise_(self, st, name, obj=None):
        st.exc = (name, obj or NULL)
        return [('throw', st, None)]

    def terminate(self, st, why):
        self.oblige(st, 'terminate', 'no termination (%s)' % why, st.term_ok)
        return [('end', st, None)]

    def occ(self, st, name):
        n = st.names.get(name, 0)
        st.names[name] = n + 1
        return '%s#%d' % (name, n)

    def call(self, st, fn, ins):
        callee, args = ins.a
        if callee[0] != 'glob':
            v = self.val(st, callee, ('ptr',))
            if isinstance(v, Ptr) and v.b and v.b.startswith('fn:'):
                name = v.b[3:]
            else:
                raise Unsupported('indirect call')
        else:
            name = callee[1]
        A = lambda i: self.val(st, args[i][1], args[i][0])
        ok = lambda v=None: [('ret', st, v)]
        if name.startswith('llvm.'):
            return self.intrinsic(st, name, ins, A, ok)
        if name.startswith('vp_'):
            return self.vp(st, name, ins, A, ok)
        if name in NEW:
            n = A(0)
            c = t.const(n)
            if c is not None and (c < 0):
                return self.raise_(st, '_ZTISt20bad_array_new_length')
            if c is None and not st.prove(t.ge(n, I(0))):
                raise Unsupported('allocation size may be negative')
            self.assumed.add('operator new succeeds')
            b = self.newblock(st, 'arr' if c is None or NEW[name].startswith('[]') else 'cells', n, 'heap', NEW[name])
            st.mem[b].align = 16 if not NEW[name].endswith('a') else t.const(A(1)) or 1
            return ok(Ptr(b, I(0)))
        if name in DEL:
            p = A(0)
            if not isinstance(p, Ptr):
                raise Unsupported('delete of undefined pointer')
            if p.b is None:
                return ok()
            blk = st.mem.get(p.b)
            if blk is None or blk.heap is None:
                self.oblige(st, 'mem', 'delete of a heap block', FALSE)
                raise DeadPath()
            self.oblige(st, 'mem', 'delete of a live block', t.B(blk.alive))
            self.oblige(st, 'mem', 'delete matches new', t.B(blk.heap == DEL[name]))
            self.oblige(st, 'mem', 'delete of block start', t.eq(p.off, I(0)))
            blk = st.wblock(p.b)
            blk.alive = False
            if DEL[name].endswith('a'):
                self.oblige(st, 'mem', 'delete with the alignment of new', t.eq(A(len(args) - 1), I(blk.align)))
            blk.arr, blk.cells = None, {}
            return ok()
        if name == '__cxa_allocate_exception':
            b = self.newblock(st, 'opaque', I(1 << 20), 'exc')
            return ok(Ptr(b, I(0)))
        if name == '__cxa_throw':
            ti = args[1][1]
            return self.raise_(st, self.clause_name(ti), A(0))
        if name == '__cxa_begin_catch':
            return ok(st.exc[1] if st.exc else NULL)
        if name == '__cxa_end_catch':
            st.exc = None
            return ok()
        if name == '__cxa_rethrow':
            return [('throw', st, None)]
        if name in ('__cxa_free_exception', '__cxa_get_exception_ptr'):
            return ok(NULL)
        if name in ('__clang_call_terminate', '_ZSt9terminatev', 'abort', '__assert_fail', '__cxa_pure_virtual',
                    '_ZSt21__glibcxx_assert_failPKciS0_S0_'):
            return self.terminate(st, name)
        if name == '__cxa_throw_bad_array_new_length':
            return self.raise_(st, '_ZTISt20bad_array_new_length')
        if name.startswith('_ZSt') and '__throw_' in name:
            return self.raise_(st, name)
        if name in ('memcpy', 'memmove'):
            self.memcpy(st, A(0), A(1), A(2))
            return ok(A(0))
        if name == 'memset':
            self.memset(st, A(0), A(1), A(2))
            return ok(A(0))
        if STRFN.match(name):
            return ok(self.undef(ins.ty) if ins.ty[0] != 'void' and ins.ty[0] != 'ptr' else (UNDEF if ins.ty[0] == 'ptr' else None))
        base = name[:-1] if name[-1:] in 'fl' and name[:-1] in LIBM else name
        if base in LIBM:
            so = sort_of(ins.ty)
            return ok(t.app('m_%s_%s' % (base, so), tuple(A(i) for i in range(len(args))), so))
        if name in ('lround', 'llround', 'lrint', 'ilogb', 'abs', 'labs', 'llabs'):
            if name.endswith('abs'):
                v = A(0)
                return ok(t.ite(t.lt(v, I(0)), t.neg(v), v))
            return ok(t.app('m_' + name, tuple(A(i) for i in range(len(args))), 'I'))
        f = get_func(self.m, name)
        if f is None:
            raise Unsupported('external function ' + name)
        if self.calldepth > 90:
            raise Unsupported('recursion too deep: ' + name)
        self.fnames.add(name)
        env = st.env
        st.env = {a[1]: A(i) for i, a in enumerate(f.args)}
        self.calldepth += 1
        try:
            outs = self.explore(st, f, f.order[0], 0, None)
        finally:
            self.calldepth -= 1
        for k, s, v in outs:
            s.env = dict(env)
        return outs

    def intrinsic(self, st, name, ins, A, ok):
        n = name[5:]
        if n.startswith(('lifetime.', )):
            p = A(1) if len(ins.a[1]) > 1 else A(0)
            if isinstance(p, Ptr) and p.b in st.mem and p.off is I(0):
                b = st.wblock(p.b)
                b.kind, b.cells, b.arr, b.es, b.sort, b.default = 'cells', {}, None, None, None, None
            return ok()
        if n.startswith(('experimental.noalias', 'dbg.', 'donothing', 'invariant.', 'stackrestore', 'prefetch')):
            return ok()
        if n.startswith('assume'):
            return ok()
        if n.startswith('expect'):
            return ok(A(0))
        if n.startswith('stacksave'):
            return ok(NULL)
        if n.startswith(('memcpy', 'memmove')):
            self.memcpy(st, A(0), A(1), A(2))
            return ok()
        if n.startswith('memset'):
            self.memset(st, A(0), A(1), A(2))
            return ok()
        if n.startswith('umul.with.overflow'):
            a, b = A(0), A(1)
            outs = []
            neg_ = t.or_(t.lt(a, I(0)), t.lt(b, I(0)))
            r = t.mul(a, b)
            if st.feasible(neg_):
                s2 = st.copy()
                s2.assume(neg_)
                s2.br.append(neg_)
                outs.append(('ret', s2, (I(-1), TRUE)))
                st.br.append(t.not_(neg_))
                st.assume(t.not_(neg_))
            self.assumed.add('allocation sizes in bytes fit in 64 bits')
            if st.feasible(TRUE):
                outs.append(('ret', st, (r, FALSE)))
            return outs
        if n.startswith('uadd.with.overflow'):
            a, b = A(0), A(1)
            if not st.prove(t.and_(t.ge(a, I(0)), t.ge(b, I(0)))):
                raise Unsupported('uadd overflow')
            return ok((t.add(a, b), FALSE))
        if n.startswith('eh.typeid.for'):
            v = ins.a[1][0][1]
            return ok(I(self.tid(self.clause_name(v) or '*')))
        if n.startswith(('smax', 'smin')):
            a, b = A(0), A(1)
            c = t.lt(a, b)
            return ok(t.ite(c, b, a) if n.startswith('smax') else t.ite(c, a, b))
        if n.startswith('abs.'):
            a = A(0)
            return ok(t.ite(t.lt(a, I(0)), t.neg(a), a))
        if n == 'trap':
            return self.terminate(st, 'trap')
        so = sort_of(ins.ty) if ins.ty[0] in ('int', 'fp') else None
        b = n.split('.')[0]
        if so in ('D', 'S', 'X', 'Q'):
            return ok(t.app('m_%s_%s' % (b, so), tuple(A(i) for i in range(len(ins.a[1]))), so))
        if n.startswith('is.fpclass'):
            v, c = A(0), t.const(A(1))
            if c == 3:
                return ok(t.fcmp('uno', v, v))
            return ok(t.app('fpclass%d_%s' % (c, v.sort), (v,), 'B'))
        if n.startswith(('ctpop', 'ctlz', 'cttz', 'bswap', 'fshl', 'fshr')):
            return ok(t.app(n, tuple(A(i) for i in range(len(ins.a[1]))), 'I'))
        raise Unsupported('intrinsic ' + name)

    # ------------------------------------------------------------------ contract primitives
    def vp(self, st, name, ins, A, ok):
        if name == 'vp_int':
            nm = self.occ(st, self.cstr(st, A(0)))
            self.noloop(nm)
            v = t.var('in:' + nm, 'I')
            st.inputs.append((nm, v))
            st.assume(t.and_(t.le(A(1), v), t.le(v, A(2))))
            return ok(v)
        if name in ('vp_f64', 'vp_f32', 'vp_flag', 'vp_f80'):
            nm = self.occ(st, self.cstr(st, A(0)))
            self.noloop(nm)
            v = t.var('in:' + nm, {'vp_f64': 'D', 'vp_f32': 'S', 'vp_flag': 'B', 'vp_f80': 'X'}[name])
            st.inputs.append((nm, v))
            return ok(v)
        if name.startswith('vp_fill_'):
            kind = name[8:]
            p, n = A(0), A(1)
            nm = self.occ(st, self.cstr(st, A(2)))
            self.noloop(nm)
            es, so = {'i64': (8, 'I'), 'i32': (4, 'I'), 'f64': (8, 'D'), 'f32': (4, 'S'), 'bool': (1, 'Bool8'), 'f80': (16, 'X')}[kind]
            base = 'in:' + nm
            st.inputs.append((nm, ('arr', base, n)))
            if n is not I(0):
                if not isinstance(p, Ptr) or p.b is None:
                    if st.prove(t.le(n, I(0))):
                        return ok()
                    raise Unsupported('fill of null')
                blk = self.access(st, p, t.scale(n, es), 'vp_fill')
                if blk is None:
                    raise DeadPath()
                if blk.kind == 'cells':
                    o, c = t.const(p.off), t.const(n)
                    if o is not None and c is not None and c <= 16:
                        for i in range(c):
                            self.store(st, Ptr(p.b, I(o + i * es)), AUnk(base, so).read(I(i), st),
                                       ('int', es * 8) if so in ('I', 'Bool8') else ('fp', {'D': 'double', 'S': 'float', 'X': 'x86_fp80'}[so]))
                    else:
                        blk = self.to_arr(st, p.b, es, so)
                if blk.kind == 'arr':
                    blk = st.wblock(p.b)
                    whole = p.off is I(0) and (t.eq(t.scale(n, es), blk.size) is TRUE or st.prove(t.eq(t.scale(n, es), blk.size)))
                    if whole:
                        blk.es, blk.sort, blk.arr = es, so, AUnk(base, so)
                    else:
                        if blk.es is None:
                            blk.es, blk.sort, blk.arr = es, so, AUnk('uninit_' + p.b, so)
                        k = t.fresh('fl', 'I')
                        blk.arr = AFam(blk.arr, [Fam([(k, n)], t.add(t.div_exact(p.off, I(es)), k), AUnk(base, so).read(k, st), TRUE)])
            if len(ins.a[1]) > 4:
                lo, hi = A(3), A(4)
                k = t.fresh('q', 'I')
                e = t.sel(base, k, 'I')
                b = TRUE
                if not (lo.op == 'ic' and lo.a[0] <= I64[0]):
                    b = t.and_(b, t.le(lo, e))
                if not (hi.op == 'ic' and hi.a[0] >= I64[1]):
                    b = t.and_(b, t.le(e, hi))
                if b is not TRUE:
                    st.qf.append(QF([(k, n)], b))
            return ok()
        if name == 'vp_assume':
            c = self.tobool(A(0))
            if c is FALSE or not st.feasible(c):
                return []
            st.assume(c)
            st.br.append(c)
            return ok()
        if name == 'vp_check':
            lab = self.cstr(st, A(1))
            self.reached.add(lab)
            self.oblige(st, 'check', lab, self.tobool(A(0)))
            return ok()
        if name == 'vp_align':
            p = A(0)
            if not isinstance(p, Ptr):
                raise Unsupported('alignment of an undefined pointer')
            if p.b is None or p.b not in st.mem:
                return ok(I(1))
            c = t.const(p.off)
            return ok(I(st.mem[p.b].align if c == 0 else math.gcd(st.mem[p.b].align, c) if c is not None else 1))
        if name == 'vp_cover':
            self.covers.add(self.cstr(st, A(0)))
            return ok()
        if name in ('vp_same_f64', 'vp_same_f32', 'vp_same_f80'):
            return ok(t.eq(A(0), A(1)))
        if name == 'vp_any':
            v = t.fresh('any', 'I')
            st.assume(t.and_(t.le(A(0), v), t.lt(v, A(1))))
            if not st.feasible(TRUE):
                return []
            st.seeds.append(v)
            return ok(v)
        if name == 'vp_fork':
            s2 = st.copy()
            return [('ret', st, TRUE), ('ret', s2, FALSE)]
        if name == 'vp_end':
            return [('end', st, None)]
        if name == 'vp_may_terminate':
            st.term_ok = self.tobool(A(0))
            return ok()
        raise Unsupported('primitive ' + name)

    def tobool(self, v):
        return v if v.sort == 'B' else t.ne(v, I(0))

    def noloop(self, nm):
        if self.discover or self.inloop:
            raise Unsupported('input %s requested inside a loop' % nm)

    inloop = 0

    # ------------------------------------------------------------------ loops
    def nphi(self, fn, label):
        n = 0
        for ins in fn.blocks[label]:
            if ins.op != 'phi':
                break
            n += 1
        return n

    def summarise(self, st, fn, header, vals0, body):
        st0 = st.copy()
        r = self.unroll(st, fn, header, vals0, body)
        if r is not None:
            return r
        old = self.inloop
        self.inloop = old + 1
        try:
            return self.summary(st0, fn, header, vals0, body)
        finally:
            self.inloop = old

    def unroll(self, st, fn, header, vals0, body):
        nob = len(self.obls)
        cur = [(st, vals0)]
        done = []
        np = self.nphi(fn, header)
        old = self.inloop
        try:
            for it in range(70):
                if it == 34 and (len(cur) > 1 or any(x.op != 'ic' for x in cur[0][1].values() if isinstance(x, t.T) and x.sort == 'I')):
                    break
                nxt = []
                for s, v in cur:
                    s.env.update(v)
                    reg = Region(header, body)
                    outs = self.explore(s, fn, header, np, reg)
                    if reg.symexit:
                        del self.obls[nob:]
                        return None
                    for k, s2, x in outs:
                        if k == 'back':
                            nxt.append((s2, x))
                        else:
                            done.append((k, s2, x))
                if not nxt:
                    self.loops_unrolled += 1
                    return done
                if len(nxt) > 16:
                    break
                cur = nxt
        except Unsupported:
            del self.obls[nob:]
            return None
        del self.obls[nob:]
        return None

    def affine_phis(self, fn, header, body, st0, vals0, k):
        """phis whose back-edge value is phi + loop-invariant"""
        defs = {}
        for l in body:
            for ins in fn.blocks[l]:
                if ins.dest is not None:
                    defs[ins.dest] = ins
        out = {}
        for ins in fn.blocks[header]:
            if ins.op != 'phi':
                break
            backs = [v for v, l in ins.a if l in body]
            if len(set(backs)) != 1 or backs[0][0] != 'reg' or backs[0][1] not in defs:
                if len(set(backs)) == 1 and (backs[0] == ('reg', ins.dest)):
                    out[ins.dest] = vals0[ins.dest]
                continue
            d = defs[backs[0][1]]
            me = ('reg', ins.dest)
            x0 = vals0[ins.dest]
            try:
                if d.op in ('add', 'sub') and ins.ty[0] == 'int' and ins.ty[1] > 1 and ('nsw' in d.flags or ins.ty[1] == 64):
                    if d.a[0] == me:
                        o = d.a[1]
                    elif d.a[1] == me and d.op == 'add':
                        o = d.a[0]
                    else:
                        continue
                    if o[0] == 'reg' and o[1] in defs:
                        continue
                    c = self.val(st0, o, ins.ty)
                    if d.op == 'sub':
                        c = t.neg(c)
                    if isinstance(x0, t.T) and isinstance(c, t.T):
                        out[ins.dest] = t.add(x0, t.mul(k, c))
                elif d.op == 'getelementptr' and d.a[0] == me and isinstance(x0, Ptr):
                    if any(iv[0] == 'reg' and iv[1] in defs for _, iv in d.a[1]):
                        continue
                    p = self.gep(st0, d.ty, Ptr('x', I(0)), d.a[1])
                    out[ins.dest] = Ptr(x0.b, t.add(x0.off, t.mul(k, p.off)))
            except Unsupported:
                continue
        # a phi that trails another one:  back value = (affine phi) + c,  and the start value fits
        for ins in fn.blocks[header]:
            if ins.op != 'phi':
                break
            backs = [v for v, l in ins.a if l in body]
            if ins.dest in out or len(set(backs)) != 1 or backs[0][0] != 'reg':
                continue
            x0, v, c = vals0[ins.dest], backs[0], I(0)
            try:
                d = defs.get(v[1])
                if v[1] not in out:
                    if d is None:
                        continue
                    if d.op == 'getelementptr' and d.a[0][0] == 'reg' and d.a[0][1] in out and not any(iv[0] == 'reg' and iv[1] in defs for _, iv in d.a[1]):
                        v, c = d.a[0], self.gep(st0, d.ty, Ptr('x', I(0)), d.a[1]).off
                    elif d.op == 'add' and ins.ty[0] == 'int' and ins.ty[1] > 1 and 'nsw' in d.flags and d.a[0][0] == 'reg' and d.a[0][1] in out and d.a[1][0] != 'reg':
                        v, c = d.a[0], self.val(st0, d.a[1], ins.ty)
                    else:
                        continue
                P = out[v[1]]
            except Unsupported:
                continue
            k_1 = {k: t.sub(k, I(1))}
            if isinstance(P, Ptr) and isinstance(x0, Ptr) and P.b == x0.b:
                r = t.add(t.subst(P.off, k_1), c)
                if t.subst(r, {k: I(0)}) is x0.off:
                    out[ins.dest] = Ptr(P.b, r)
            elif isinstance(P, t.T) and isinstance(x0, t.T) and P.sort == 'I' == x0.sort:
                r = t.add(t.subst(P, k_1), c)
                if t.subst(r, {k: I(0)}) is x0:
                    out[ins.dest] = r
        return out

    def hvar(self, name, v):
        if isinstance(v, t.T):
            return t.fresh('h.' + name, v.sort)
        return None

    def summary(self, st0, fn, header, vals0, body):
        k = t.fresh('k', 'I')
        np = self.nphi(fn, header)
        closed = {('phi', n): v for n, v in self.affine_phis(fn, header, body, st0, vals0, k).items()}
        init = {('phi', n): v for n, v in vals0.items()}
        havoc = {}              # key -> h var (or None for pointers: poison)
        cells = set()
        arrs = {}               # block -> set of promoted idx terms
        facts = [t.ge(k, I(0))]
        qfs = []
        bounds = []
        emit0 = self.emit

        for n in vals0:
            if ('phi', n) not in closed:
                havoc[('phi', n)] = self.hvar(n, vals0[n])

        def start(val_of, arr_of, extra, extraqf):
            s = st0.copy()
            s.br = []
            s.pc = s.pc + [f for e in extra for f in solver.conj(e) if f is not TRUE]
            s.qf = s.qf + extraqf
            s.seeds = s.seeds + [k]
            for n in vals0:
                s.env[n] = val_of(('phi', n))
            for c in cells:
                blk = s.wblock(c[1])
                blk.cells[c[2]] = (blk.cells[c[2]][0] if c[2] in blk.cells else c[3], val_of(c))
            for b in arrs:
                blk = s.wblock(b)
                blk.arr = arr_of(b)
            return s

        def cur(key):
            if key in closed:
                return closed[key]
            h = havoc[key]
            return UNDEF if h is None else h

        # ---------------------------------------------------------- discovery
        rounds = 0
        restart = True
        while restart:
            restart = False
            rounds += 1
            if rounds > 14:
                raise Unsupported('loop discovery does not stabilise')
            havs = {}
            def arr_h(b):
                a = AHav(st0.mem[b].arr)
                havs[b] = a
                for idx in sorted(arrs[b], key=lambda x: x.id):
                    a = AStore(a, idx, cur(('elt', b, idx)))
                return a
            s = start(cur, arr_h, facts + bounds, qfs)
            nob = len(self.obls)
            self.emit = False
            self.discover += 1
            try:
                outs = self.explore(s, fn, header, np, Region(header, body))
            finally:
                self.discover -= 1
                self.emit = emit0
                del self.obls[nob:]
            backs = [(o[1], o[2]) for o in outs if o[0] == 'back']
            if not backs:
                break
            new = False
            for s1, pv in backs:
                for b, blk0 in st0.mem.items():
                    blk1 = s1.mem.get(b)
                    if blk0.kind in ('opaque', 'str') or blk1 is blk0:
                        continue
                    if blk1.alive != blk0.alive:
                        if not blk0.heap:
                            continue
                        raise Unsupported('block freed in a loop')
                    if blk0.kind == 'cells' and blk1.kind == 'arr':
                        self.to_arr(st0, b, blk1.es, blk1.sort)
                        for c in [c for c in cells if c[1] == b]:
                            cells.discard(c)
                            havoc.pop(c, None)
                            closed.pop(c, None)
                        new = True
                        break
                    if blk0.kind == 'arr' and blk0.es is None:
                        if blk1.es is not None:
                            w = st0.wblock(b)
                            w.es, w.sort = blk1.es, blk1.sort
                            if w.default is not None:
                                w.arr = AConst(self.zero({'I': ('int', 64), 'D': ('fp', 'double'), 'S': ('fp', 'float'), 'X': ('fp', 'x86_fp80')}[w.sort]))
                            else:
                                w.arr = AUnk('uninit_' + b, w.sort)
                            new = True
                            break
                        continue
                    if blk0.kind == 'cells':
                        offs = set(blk0.cells) | set(blk1.cells)
                        for o in offs:
                            c0, c1 = blk0.cells.get(o), blk1.cells.get(o)
                            key = ('cell', b, o, (c1 or c0)[0])
                            if key in cells:
                                continue
                            if c1 is None:
                                continue        # went out of scope
                            if c0 is not None and c0[0] != c1[0]:
                                raise Unsupported('cell changes size')
                            if c0 is None and blk0.default is not None:
                                c0 = (c1[0], self.default_like(blk0.default, c1[1]))
                            if c0 is not None and same_val(c0[1], c1[1]):
                                continue
                            v0 = c0[1] if c0 is not None else (t.fresh('undef', c1[1].sort) if isinstance(c1[1], t.T) else UNDEF)
                            cells.add(key)
                            init[key] = v0
                            havoc[key] = self.hvar('c', c1[1])
                            new = True
                    elif blk0.kind == 'arr':
                        if b in arrs:
                            for idx in self.writes_inv(blk1.arr, havs[b], k, havoc):
                                if idx not in arrs[b]:
                                    arrs[b].add(idx)
                                    key = ('elt', b, idx)
                                    v0 = blk0.arr.read(idx, st0)
                                    init[key] = v0
                                    havoc[key] = self.hvar('e', v0)
                                    new = True
                        elif blk1.arr is not blk0.arr:
                            arrs[b] = set()
                            new = True
                if new:
                    break
                for b, blk1 in s1.mem.items():
                    if b not in st0.mem and blk1.heap is not None and blk1.alive:
                        raise Unsupported('allocation escapes a loop iteration')
            if new:
                restart = True
                continue
            # solve what can be solved
            hs = {h: key for key, h in havoc.items() if h is not None and key not in closed}
            trans_ = {}
            for key in list(havoc):
                if key in closed:
                    continue
                vs = []
                for s1, pv in backs:
                    vs.append((s1, self.get_key(s1, pv, key)))
                trans_[key] = self.merge_vals(vs)
            solved = False
            for key, nv in trans_.items():
                h = havoc[key]
                if nv is None:
                    continue
                if h is None:
                    # pointer
                    v0 = init[key]
                    if isinstance(nv, Ptr) and isinstance(v0, Ptr) and nv.same(v0):
                        closed[key] = v0
                        solved = True
                    continue
                if not isinstance(nv, t.T):
                    continue
                if nv is h or nv is init[key]:
                    closed[key] = init[key]
                    solved = True
                elif nv.sort == 'I':
                    d = t.sub(nv, h)
                    if k not in t.fvs(d) and not any(x in t.fvs(d) for x in hs):
                        closed[key] = t.add(init[key], t.mul(k, d))
                        solved = True
                    elif not any(x in t.fvs(d) for x in hs):
                        c = self.counted(d, k)
                        if c is not None:
                            closed[key] = t.add(init[key], c)
                            solved = True
            # loop-carried facts
            cont, nbounds, nq = self.cont_facts(st0, backs, k, hs)
            chg = False
            if not hs or not (set(t.fvs(cont)) & set(hs)):
                kap = t.fresh('kq', 'I')
                q = QF([(kap, k)], t.subst(cont, {k: kap}))
                if cont is not TRUE and not any(self.same_qf(q, x) for x in qfs):
                    qfs = [q]
                    chg = True
            for bd in nbounds:
                if all(bd is not x for x in bounds):
                    bounds.append(bd)
                    chg = True
            if solved or (chg and rounds < 10):
                restart = True
                continue
        if not backs:
            # no iteration completes: the body runs at most once
            s = st0.copy()
            s.env.update(vals0)
            r = self.explore(s, fn, header, np, Region(header, body))
            if any(o[0] == 'back' for o in r):
                raise Unsupported('loop without back edge')
            return r

        # ---------------------------------------------------------- closed forms for the rest
        kvar = k
        poison = set()
        unsolved = [key for key in havoc if key not in closed]
        hkey = {havoc[key]: key for key in unsolved if havoc[key] is not None}
        for key in unsolved:
            if havoc[key] is None:
                poison.add(key)
        # pointers that move are not summarised: poison them (reading one is unsupported)
        dep = {}
        for key in unsolved:
            if key in poison:
                continue
            nv = trans_[key]
            if nv is None or not isinstance(nv, t.T):
                poison.add(key)
                continue
            dep[key] = {hkey[x] for x in t.fvs(nv) if x in hkey}
        for comp in self.sccs(dep):
            comp = sorted(comp, key=lambda key: havoc[key].id)
            m = {havoc[x]: closed[x] for key in comp for x in dep[key] if x in closed}
            if any(x in poison for key in comp for x in dep[key]):
                poison.update(comp)
                continue
            if len(comp) == 1 and comp[0] not in dep[comp[0]]:
                key = comp[0]
                g = t.subst(trans_[key], m)
                prev = t.subst(g, {k: t.sub(k, I(1))})
                if isinstance(init[key], t.T):
                    if st0.prove(t.eq(t.subst(prev, {k: I(0)}), init[key])):
                        closed[key] = prev
                    elif init[key].op == 'var' and init[key].a[0].startswith('undef!'):
                        closed[key] = prev
                        poison.add(('lag', key))
                    else:
                        closed[key] = t.ite(t.eq(k, I(0)), init[key], prev)
                else:
                    poison.add(key)
                continue
            fv = [havoc[key] for key in comp]
            x0 = [init[key] for key in comp]
            if any(not isinstance(x, t.T) for x in x0):
                poison.update(comp)
                continue
            g = [t.subst(trans_[key], m) for key in comp]
            alien = {v for e in g for v in t.fvs(e)} - set(fv) - {k} - self.visible(st0, x0)
            alien = {v for v in alien if v.a[0].startswith(('undef', 'k!', 'any'))}
            did, ps = solver.define_rec(k, fv, x0, g)
            for i, key in enumerate(comp):
                closed[key] = t.rec(did, i, k, ps, fv[i].sort)
            self.rec_lemmas(st0, did, comp, havoc, g, k)
        for key in unsolved:
            if key in poison and key not in closed:
                h = havoc[key]
                closed[key] = UNDEF if h is None else h
        cl = {havoc[key]: closed[key] for key in unsolved if havoc[key] is not None and isinstance(closed[key], t.T) and key not in poison}

        def sub_h(x):
            return t.subst(x, cl)

        # array families
        fams = {}
        for b in arrs:
            fams[b] = self.families(st0, b, backs, havs[b], arrs[b], k, sub_h)

        def arr_at(b, kk):
            m = {k: kk}
            a = st0.mem[b].arr
            fs = []
            for f in fams[b]:
                kap = t.fresh('kw', 'I')
                mm = {k: kap}
                fs.append(Fam([(kap, kk)] + [(v, t.subst(hh, mm)) for v, hh in f.vars], t.subst(f.idx, mm), t.subst(f.val, mm), t.subst(f.guard, mm)))
            if fs:
                a = AFam(a, fs)
            for idx in sorted(arrs[b], key=lambda x: x.id):
                v = closed[('elt', b, idx)]
                if v is UNDEF:
                    raise Unsupported('array element not summarised')
                a = AStore(a, idx, t.subst(v, m))
            return a

        cont, nb, innerq = self.cont_facts(st0, backs, k, {}, sub_h)
        if any(v in t.fvs(cont) for v in [havoc[x] for x in poison if x in havoc and havoc[x] is not None]):
            cont = TRUE
        for bd in nb:
            if all(bd is not x for x in bounds):
                bounds.append(bd)
        kap = t.fresh('kq', 'I')
        vq = []
        if cont is not TRUE:
            vq.append(QF([(kap, k)], t.subst(cont, {k: kap})))
        for q in innerq:
            vq.append(QF([(kap, k)] + list(q.subst({k: kap}).vars), q.subst({k: kap}).body))
        # ---------------------------------------------------------- verification run
        s = start(lambda key: closed[key], lambda b: arr_at(b, k), facts + bounds, vq)
        npc, nqf = len(s.pc), len(s.qf)
        outs = self.explore(s, fn, header, np, Region(header, body))
        res = []
        backs2 = []
        for o in outs:
            if o[0] == 'back':
                backs2.append(o)
            else:
                res.append(o)
        if not self.discover:
            k1 = t.add(k, I(1))
            for _, s1, pv in backs2:
                self.check_step(st0, s1, pv, k, k1, closed, poison, vals0, cells, arrs, arr_at, cont, bounds, innerq)
            self.loops_proved += 1
            if not self.terminates(cont, k, bounds):
                self.assumed.add('termination of a loop in %s (partial correctness)' % fn.name)
        # ---------------------------------------------------------- exits
        final = []
        for kind, s1, x in res:
            final += self.close(st0, kind, s1, x, k, cont, npc, nqf)
        for kind, s1, x in final:
            s1.br = st0.br + s1.br
            for b in list(s1.mem):
                if b not in st0.mem and not s1.mem[b].alive and s1.mem[b].heap is not None:
                    del s1.mem[b]
        return final

    def counted(self, d, k):
        """sum of d over 0..k-1 when d is piecewise constant in k with one threshold or one special iteration
        (a guess: the closed form is verified inductively afterwards)"""
        its = [x for x in t.subterms([d]) if x.op == 'ite' and k in t.fvs(x)]
        if len(its) != 1 or its[0].sort != 'I':
            return None
        it = its[0]
        if k in t.fvs(it.a[1]) or k in t.fvs(it.a[2]):
            return None
        f = t.fresh('it', 'I')
        cd = linear_in(t.transform(d, lambda z: f if z is it else z), f)
        if cd is None or k in t.fvs(cd[0]) or k in t.fvs(cd[1]):
            return None
        a, b = t.add(cd[1], t.mul(cd[0], it.a[1])), t.add(cd[1], t.mul(cd[0], it.a[2]))
        lits = [x for x in solver.conj(it.a[0])]
        if len(lits) != 1:      # the others restate the loop condition (if not, the verification below fails)
            lits = [x for x in lits if x.op == 'eq0'] or [x for x in lits if x.op == 'not']
        if len(lits) != 1:
            return None
        l = lits[0]
        if l.op == 'not':
            l = l.a[0]
            a, b = b, a
        if l.op not in ('le0', 'eq0', 'eq'):
            return None
        e = l.a[0] if l.op != 'eq' else t.sub(l.a[0], l.a[1])
        lk = linear_in(e, k)
        if lk is None or lk[0].op != 'ic' or abs(lk[0].a[0]) != 1:
            return None
        s = lk[0].a[0]
        p = t.scale(lk[1], -s)          # s*k + d0 = 0  <=>  k = p
        if l.op == 'le0':
            # s=1: holds for k <= p;  s=-1: holds for k >= p
            n = t.add(p, I(1)) if s == 1 else p
            if s == -1:
                a, b = b, a
            n = t.ite(t.le(n, I(0)), I(0), t.ite(t.le(n, k), n, k))
            return t.add(t.mul(k, b), t.mul(n, t.sub(a, b)))
        hit = t.ite(t.and_(t.le(I(0), p), t.lt(p, k)), t.sub(a, b), I(0))
        return t.add(t.mul(k, b), hit)

    # ---- helpers of summary
    def visible(self, st0, xs):
        return set()

    def default_like(self, d, v):
        if isinstance(v, Ptr) or v is UNDEF:
            return NULL
        if v.sort == 'I':
            return d
        if v.sort == 'B':
            return FALSE
        return t.fc('0x0', v.sort)

    def same_qf(self, a, b):
        if len(a.vars) != len(b.vars):
            return False
        m = {x[0]: y[0] for x, y in zip(a.vars, b.vars)}
        return t.subst(a.body, m) is b.body and all(t.subst(x[1], m) is y[1] for x, y in zip(a.vars, b.vars))

    def get_key(self, s1, pv, key):
        if key[0] == 'phi':
            return pv[key[1]]
        if key[0] == 'cell':
            c = s1.mem[key[1]].cells.get(key[2])
            return None if c is None else c[1]
        return s1.mem[key[1]].arr.read(key[2], s1)

    def merge_vals(self, vs):
        """one value from the back-edge states (guarded by their branch conditions)"""
        out = None
        if any(v is None for _, v in vs):
            return None
        for s1, v in reversed(vs):
            if out is None:
                out = v
            elif same_val(out, v):
                pass
            elif isinstance(out, t.T) and isinstance(v, t.T) and out.sort == v.sort:
                out = t.ite(t.and_(*s1.br), v, out)
            else:
                return None
        return out

    def writes(self, arr, stop):
        """newest-first list of writes on top of stop"""
        out = []
        while arr is not stop:
            if isinstance(arr, AStore):
                out.append(Fam([], arr.idx, arr.val, TRUE))
                arr = arr.base
            elif isinstance(arr, AFam):
                out += arr.fams
                arr = arr.base
            else:
                raise Unsupported('array rebuilt in a loop')
        return out

    def writes_inv(self, arr, stop, k, havoc):
        hv = {h for h in havoc.values() if h is not None} | {k}
        out = []
        for f in self.writes(arr, stop):
            if not f.vars and not (t.fvs(f.idx) & hv):
                out.append(f.idx)
        return out

    def families(self, st0, b, backs, hav, promoted, k, sub_h):
        per = []
        for s1, pv in backs:
            g = t.and_(*[sub_h(x) for x in s1.br])
            ws = []
            for f in self.writes(s1.mem[b].arr, hav):
                if not f.vars and f.idx in promoted:
                    continue
                ws.append(Fam([(v, sub_h(h)) for v, h in f.vars], sub_h(f.idx), sub_h(f.val), sub_h(f.guard)))
            per.append((g, ws))
        n = len(per[0][1])
        if all(len(ws) == n for _, ws in per):
            merged = []
            ok = True
            for j in range(n):
                f0 = per[0][1][j]
                val, guard = None, None
                vs0 = f0.vars
                for g, ws in reversed(per):
                    f = ws[j]
                    if len(f.vars) != len(vs0):
                        ok = False
                        break
                    m = {a[0]: c[0] for a, c in zip(f.vars, vs0)}
                    if any(t.subst(a[1], m) is not c[1] for a, c in zip(f.vars, vs0)) or t.subst(f.idx, m) is not f0.idx:
                        ok = False
                        break
                    v, gu = t.subst(f.val, m), t.subst(f.guard, m)
                    if val is None:
                        val, guard = v, gu
                    else:
                        val, guard = t.ite(g, v, val), t.ite(g, gu, guard)
                if not ok:
                    break
                merged.append(Fam(vs0, f0.idx, val, guard))
            if ok:
                return merged
        out = []
        for g, ws in per:
            for f in ws:
                out.append(Fam(f.vars, f.idx, f.val, t.and_(g, f.guard)))
        return out

    def sccs(self, dep):
        """strongly connected components in dependency order"""
        index, low, on, stack, out = {}, {}, set(), [], []
        def go(v):
            index[v] = low[v] = len(index)
            stack.append(v)
            on.add(v)
            for w in dep[v]:
                if w not in dep:
                    continue
                if w not in index:
                    go(w)
                    low[v] = min(low[v], low[w])
                elif w in on:
                    low[v] = min(low[v], index[w])
            if low[v] == index[v]:
                c = []
                while True:
                    w = stack.pop()
                    on.discard(w)
                    c.append(w)
                    if w == v:
                        break
                out.append(c)
        for v in dep:
            if v not in index:
                go(v)
        return out

    def cont_facts(self, st0, backs, k, hs, sub_h=lambda x: x):
        """condition under which an iteration reaches the back edge; bound invariants for != tests; inner facts"""
        alts = []
        for s1, pv in backs:
            lits = []
            for x in s1.br:
                for y in solver.conj(x):
                    y = sub_h(y)
                    if any(v.a[0].startswith(('undef!', 'any!')) for v in t.fvs(y)) and not all(v in self.st_vars(st0) for v in t.fvs(y) if v is not k):
                        continue
                    if any(v in hs for v in t.fvs(y)):
                        continue
                    lits.append(y)
            alts.append(lits)
        common = [x for x in alts[0] if all(any(x is y for y in a) for a in alts[1:])]
        rest = t.or_(*[t.and_(*[x for x in a if not any(x is y for y in common)]) for a in alts])
        cont = t.and_(*(common + [rest]))
        bounds = []
        for x in common:
            if x.op == 'not' and x.a[0].op == 'eq0':
                cd = linear_in(x.a[0].a[0], k)
                if cd is None or cd[0].op != 'ic' or abs(cd[0].a[0]) != 1:
                    continue
                N = t.scale(cd[1], -cd[0].a[0])
                if k in t.fvs(N):
                    continue
                if st0.prove(t.ge(N, I(0))):
                    bounds.append(t.le(k, N))
        innerq = []
        nq0 = len(st0.qf)
        for s1, pv in backs:
            g = t.and_(*[sub_h(x) for x in s1.br])
            for q in s1.qf:
                if any(q is x for x in st0.qf):
                    continue
                if not any(k in t.fvs(x) for x in q.terms()):
                    continue
                if q.vars and q.vars[0][1] is k:
                    continue
                q2 = q.subst({}) if not hs else q
                b2 = sub_h(q.body)
                fv = set().union(*[t.fvs(x) for x in [b2] + [sub_h(h) for _, h in q.vars]])
                if any(v in hs or v.a[0].startswith(('undef!', 'k!')) for v in fv if v is not k and all(v is not w for w, _ in q.vars)):
                    continue
                innerq.append(QF([(v, sub_h(h)) for v, h in q.vars], t.implies(g, b2)))
        return cont, bounds, innerq

    def st_vars(self, st0):
        return set()

    def rec_lemmas(self, st0, did, comp, havoc, g, k):
        """bounds  x0 <= x <= x0 + c*k  for integer components that only ever grow by 0..c"""
        d = solver.RECS[did]
        if d.lemmas or len(d.fvars) < 1:
            return
        for i, f in enumerate(d.fvars):
            if f.sort != 'I':
                continue
            delta = t.sub(d.g[i], f)
            if f in t.fvs(delta):
                continue
            vals = self.ite_consts(delta)
            if vals is None:
                continue
            d.lemmas.append((i, min(vals), max(vals)))

    def ite_consts(self, x):
        if x.op == 'ic':
            return [x.a[0]]
        if x.op == 'ite':
            a, b = self.ite_consts(x.a[1]), self.ite_consts(x.a[2])
            return None if a is None or b is None else a + b
        return None

    def check_step(self, st0, s1, pv, k, k1, closed, poison, vals0, cells, arrs, arr_at, cont, bounds, innerq):
        m = {k: k1}
        def need(goal, what):
            if s1.prove(goal) or self.by_lemma(s1, goal):
                return
            raise Unsupported('loop invariant not inductive: %s: %r' % (what, repr(goal)[:300]))
        need(t.subst(cont, {k: k}), 'continue condition')
        for b in bounds:
            need(t.subst(b, m), 'bound')
        for q in innerq:
            if not any(self.same_qf(q, x) or False for x in s1.qf):
                fr = {v: t.fresh('sk', 'I') for v, _ in q.vars}
                dom = t.and_(*[t.and_(t.le(I(0), fr[v]), t.lt(fr[v], t.subst(h, fr))) for v, h in q.vars])
                s2 = s1.copy()
                s2.seeds += list(fr.values())
                s2.assume(dom)
                if not s2.prove(t.subst(q.body, fr)):
                    raise Unsupported('inner facts not inductive')
        for key, v in closed.items():
            if key in poison:
                continue
            if key[0] == 'phi':
                nv = pv[key[1]]
            elif key[0] == 'cell':
                if key not in cells:
                    continue
                nv = self.get_key(s1, pv, key)
                if nv is None:
                    continue
            else:
                continue
            want = subst_val(v, m)
            if same_val(nv, want):
                continue
            if isinstance(nv, Ptr) and isinstance(want, Ptr) and nv.b == want.b:
                need(t.eq(nv.off, want.off), 'pointer')
            elif isinstance(nv, t.T) and isinstance(want, t.T) and nv.sort == want.sort:
                need(t.eq(nv, want), str(key[:2]))
            else:
                raise Unsupported('loop invariant not inductive (%s)' % (key,))
        # frame: everything not in the summary is unchanged
        for b, blk0 in st0.mem.items():
            blk1 = s1.mem[b]
            if blk0.kind in ('opaque', 'str') or blk0 is blk1:
                continue
            if blk1.alive != blk0.alive or blk0.kind != blk1.kind:
                raise Unsupported('frame: block state')
            if blk0.kind == 'cells':
                for o, (z, v) in blk1.cells.items():
                    if ('cell', b, o, z) in cells:
                        continue
                    c0 = blk0.cells.get(o)
                    if c0 is None and blk0.default is not None:
                        c0 = (z, self.default_like(blk0.default, v))
                    if c0 is None or not same_val(c0[1], v):
                        raise Unsupported('frame: cell')
            elif b not in arrs:
                if blk1.arr is not blk0.arr:
                    raise Unsupported('frame: array')
            else:
                p = t.fresh('p', 'I')
                s2 = s1.copy()
                s2.assume(t.ge(p, I(0)))
                if blk1.es:
                    s2.assume(t.le(t.scale(t.add(p, I(1)), blk1.es), blk1.size))
                s2.seeds = s2.seeds + [p]
                a = blk1.arr.read(p, s2)
                w = arr_at(b, k1).read(p, s2)
                if a is not w:
                    if not (s2.prove(t.eq(a, w)) or self.by_lemma(s2, t.eq(a, w))):
                        raise Unsupported('array summary not inductive: %s: %s' % (repr(a)[:200], repr(w)[:200]))

    def terminates(self, cont, k, bounds):
        if bounds:
            return True
        for x in solver.conj(cont):
            if x.op == 'le0':
                cd = linear_in(x.a[0], k)
                if cd is not None and cd[0].op == 'ic' and cd[0].a[0] > 0:
                    return True
        return False

    def close(self, st0, kind, s1, x, k, cont, npc, nqf):
        """replace the exit iteration number by a closed form where one is provable"""
        def fin(s, sub):
            s.subst(sub, len(st0.pc), len(st0.qf))
            y = x
            if kind == 'exit':
                y = (x[0], {n: subst_val(v, sub) for n, v in x[1].items()})
            elif kind == 'ret':
                y = subst_val(x, sub) if x is not None else None
            return [(kind, s, y)]
        if kind == 'end':
            return [(kind, s1, x)]
        cands = []
        for l in s1.br + solver.conj(cont):
            l = l.a[0] if l.op == 'not' else l
            if l.op in ('le0', 'eq0'):
                cd = linear_in(l.a[0], k)
                if cd is None or cd[0] is I(0):
                    continue
                q = t.div_exact(t.neg(cd[1]), cd[0])
                if q is not None and k not in t.fvs(q):
                    for c in (q, t.add(q, I(1)), t.sub(q, I(1))):
                        if all(c is not z for z in cands):
                            cands.append(c)
        for c in cands[:9]:
            if s1.prove(t.eq(k, c)):
                return fin(s1, {k: c})
        out = []
        if cands:
            s2 = s1.copy()
            s2.assume(t.ge(k, I(1)))
            for c in cands[:9]:
                if s2.prove(t.eq(k, c)):
                    sz = s1.copy()
                    sz.assume(t.eq(k, I(0)))
                    if sz.feasible(TRUE):
                        out += fin(sz, {k: I(0)})
                    if s2.feasible(TRUE):
                        r = fin(s2, {k: c})
                        r[0][1].br.append(t.ge(c, I(1)))
                        out += r
                    return out
        K = solver.define_first(k, cont)
        r = fin(s1, {k: K})
        r[0][1].seeds.append(K)
        return r

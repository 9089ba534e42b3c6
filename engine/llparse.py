"""Parser for the subset of textual LLVM IR (clang 18, opaque pointers) that the verifier consumes."""
import re

class Unsupported(Exception):
    pass

# ---------------------------------------------------------------- tokens
TOK = re.compile(r'''
   \s+ | (?P<cstr>c"(?:[^"\\]|\\.)*") | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<name>[%@](?:"[^"]*"|[-\w$.]+)) | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?) | (?P<meta>![\w.]*(?:\(.*\))?) | (?P<attr>\#\d+)
 | (?P<word>[A-Za-z_$][\w.$]*) | (?P<dots>\.\.\.) | (?P<p>[\[\]{}()<>,=*|:])
''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise Unsupported('token: ' + s[i:i + 40])
        i = m.end()
        k = m.lastgroup
        if k is None:
            continue
        t = m.group(k)
        if k == 'name' and t[1] == '"':
            t = t[0] + t[2:-1]
        out.append((k, t))
    return out

# ---------------------------------------------------------------- types
# ('int',n) ('fp','double') ('ptr',) ('void',) ('arr',n,t) ('struct',(t..),packed) ('named',name) ('vec',n,t)
FP = {'double': 8, 'float': 4, 'x86_fp80': 16, 'fp128': 16, 'half': 2}
RET_ATTR = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'inreg', 'returned', 'nocapture', 'readonly',
            'readnone', 'writeonly', 'writable', 'dead_on_unwind', 'immarg', 'nofree', 'allocptr', 'noinline',
            'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'fastcc', 'ccc', 'tail', 'musttail', 'notail', 'volatile',
            'swiftself', 'allocalign', 'nounwind', 'inbounds'}
PAREN_ATTR = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'align', 'elementtype', 'range',
              'memory', 'captures', 'nofpclass', 'inalloca', 'byref'}


class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, o=0):
        return self.t[self.i + o][1] if self.i + o < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x[1]

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if self.peek() != s:
            raise Unsupported('expected %r got %r in %r' % (s, self.peek(), ' '.join(x[1] for x in self.t)[:300]))
        self.i += 1

    def more(self):
        return self.i < len(self.t)

    def attrs(self):
        while self.more():
            w = self.peek()
            if w in RET_ATTR:
                self.i += 1
            elif w in PAREN_ATTR:
                self.i += 1
                if self.peek() == '(':
                    d = 0
                    while True:
                        x = self.next()
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0:
                                break
                else:
                    self.next()      # align N
            elif self.kind() == 'attr':
                self.i += 1
            else:
                break

    def type(self):
        w = self.next()
        if w == 'ptr':
            return ('ptr',)
        if w == 'void':
            return ('void',)
        if w in FP:
            return ('fp', w)
        m = re.fullmatch(r'i(\d+)', w)
        if m:
            return ('int', int(m.group(1)))
        if w == '[':
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect(']')
            return ('arr', n, t)
        if w == '{':
            ts = []
            while not self.accept('}'):
                ts.append(self.type())
                self.accept(',')
            return ('struct', tuple(ts), False)
        if w == '<':
            if self.peek() == '{':
                self.next()
                ts = []
                while not self.accept('}'):
                    ts.append(self.type())
                    self.accept(',')
                self.expect('>')
                return ('struct', tuple(ts), True)
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect('>')
            return ('vec', n, t)
        if w[0] == '%':
            return ('named', w[1:])
        if w == 'token' or w == 'label' or w == 'metadata':
            return (w,)
        if w == 'opaque':
            return ('opaque',)
        raise Unsupported('type ' + w)

    # operand value of type ty
    def value(self, ty):
        k = self.kind()
        w = self.next()
        if k == 'name':
            return ('reg', w[1:]) if w[0] == '%' else ('glob', w[1:])
        if k == 'num':
            if ty[0] == 'int':
                return ('ci', int(w))
            return ('cf', w)
        if k == 'hex':
            return ('cf', w)
        if w in ('true', 'false'):
            return ('ci', 1 if w == 'true' else 0)
        if w == 'null':
            return ('null',)
        if w in ('undef', 'poison'):
            return ('undef',)
        if w in ('zeroinitializer', 'none'):
            return ('zero',)
        if k == 'cstr':
            return ('cstr', w[2:-1])
        if w == 'getelementptr':
            while self.peek() in ('inbounds', 'inrange', 'nuw', 'nusw'):
                self.next()
            self.expect('(')
            t = self.type()
            self.expect(',')
            bt = self.type()
            b = self.value(bt)
            idx = []
            while self.accept(','):
                self.accept('inrange')
                it = self.type()
                idx.append((it, self.value(it)))
            self.expect(')')
            return ('cgep', t, b, idx)
        if w in ('ptrtoint', 'inttoptr', 'bitcast'):
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            self.type()
            self.expect(')')
            return ('ccast', w, v)
        if w in ('{', '[', '<'):
            close = {'{': '}', '[': ']', '<': '>'}[w]
            vs = []
            if w == '<' and self.peek() == '{':
                self.next()
                while not self.accept('}'):
                    t = self.type()
                    vs.append((t, self.value(t)))
                    self.accept(',')
                self.expect('>')
                return ('agg', vs)
            while not self.accept(close):
                t = self.type()
                vs.append((t, self.value(t)))
                self.accept(',')
            return ('agg', vs)
        if w in ('blockaddress', 'add', 'sub', 'trunc'):
            raise Unsupported('constexpr ' + w)
        raise Unsupported('value %s %s' % (k, w))


class Instr:
    __slots__ = ('op', 'dest', 'ty', 'a', 'flags', 'text')

    def __init__(self, op, dest=None, ty=None, a=(), flags=(), text=''):
        self.op, self.dest, self.ty, self.a, self.flags, self.text = op, dest, ty, a, flags, text

    def __repr__(self):
        return self.text


class Func:
    def __init__(self, name):
        self.name = name
        self.args = []      # (type, name)
        self.ret = None
        self.blocks = {}    # label -> [Instr]
        self.order = []
        self.nounwind = False


class Module:
    def __init__(self):
        self.types = {}
        self.funcs = {}
        self.globals = {}   # name -> (type, init-or-None, const)
        self.decls = set()

    # --- layout
    def size_align(self, t):
        k = t[0]
        if k == 'int':
            n = t[1]
            s = 1
            while s * 8 < n:
                s *= 2
            return s, min(s, 16)
        if k == 'fp':
            s = FP[t[1]]
            return s, s
        if k == 'ptr':
            return 8, 8
        if k == 'arr':
            s, a = self.size_align(t[2])
            return s * t[1], a
        if k == 'vec':
            s, a = self.size_align(t[2])
            return s * t[1], s * t[1]
        if k == 'named':
            return self.size_align(self.types[t[1]])
        if k == 'struct':
            off, al = 0, 1
            for f in t[1]:
                s, a = self.size_align(f)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise Unsupported('sizeof %r' % (t,))

    def sizeof(self, t):
        return self.size_align(t)[0]

    def field(self, t, i):
        """(offset, type) of field i of struct t"""
        if t[0] == 'named':
            t = self.types[t[1]]
        off = 0
        for j, f in enumerate(t[1]):
            s, a = self.size_align(f)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, f
            off += s
        raise Unsupported('field')

    def resolve(self, t):
        return self.types[t[1]] if t[0] == 'named' else t


BINOPS = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'ashr', 'lshr', 'fadd',
          'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr',
         'bitcast'}
FM = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'}


def strip_meta(s):
    # drop ", !foo !3" suffixes (not inside strings)
    q = False
    i = 0
    while i < len(s):
        c = s[i]
        if c == '"':
            q = not q
        elif not q and s.startswith(', !', i):
            return s[:i]
        i += 1
    return s


def parse_call(p, ins):
    p.attrs()
    rt = p.type()
    if p.peek() == '(':      # function type  T (args...)
        d = 0
        while True:
            x = p.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    break
    callee = p.value(('ptr',))
    p.expect('(')
    args = []
    while not p.accept(')'):
        t = p.type()
        if t[0] == 'metadata':
            # skip metadata operand
            d = 0
            while p.peek() not in (',', ')') or d:
                x = p.next()
                if x == '(':
                    d += 1
                if x == ')':
                    d -= 1
            p.accept(',')
            continue
        p.attrs()
        args.append((t, p.value(t)))
        p.accept(',')
    ins.ty = rt
    ins.a = (callee, args)


def parse_instr(s):
    text = s
    s = strip_meta(s)
    p = P(tokenize(s))
    dest = None
    if p.kind() == 'name' and p.peek(1) == '=':
        dest = p.next()[1:]
        p.next()
    op = p.next()
    ins = Instr(op, dest, text=text.strip())
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
        ins.op = op
    if op in BINOPS:
        fl = []
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint') or p.peek() in FM:
            fl.append(p.next())
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        ins.ty, ins.a, ins.flags = t, (a, b), tuple(fl)
    elif op == 'fneg':
        while p.peek() in FM:
            p.next()
        t = p.type()
        ins.ty, ins.a = t, (p.value(t),)
    elif op in ('icmp', 'fcmp'):
        while p.peek() in FM:
            p.next()
        c = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        ins.ty, ins.a = t, (c, a, b)
    elif op in CASTS:
        if p.peek() in ('nneg', 'nuw', 'nsw'):
            p.next()
        t = p.type()
        a = p.value(t)
        p.expect('to')
        t2 = p.type()
        ins.ty, ins.a = t2, (t, a)
    elif op == 'select':
        while p.peek() in FM:
            p.next()
        ct = p.type()
        c = p.value(ct)
        p.expect(',')
        t = p.type()
        a = p.value(t)
        p.expect(',')
        t2 = p.type()
        b = p.value(t2)
        ins.ty, ins.a = t, (c, a, b)
    elif op == 'freeze':
        t = p.type()
        ins.ty, ins.a = t, (p.value(t),)
    elif op == 'phi':
        while p.peek() in FM:
            p.next()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            l = p.next()[1:]
            p.expect(']')
            inc.append((v, l))
            if not p.accept(','):
                break
        ins.ty, ins.a = t, inc
    elif op == 'br':
        if p.accept('label'):
            ins.a = (p.next()[1:],)
        else:
            t = p.type()
            c = p.value(t)
            p.expect(',')
            p.expect('label')
            a = p.next()[1:]
            p.expect(',')
            p.expect('label')
            b = p.next()[1:]
            ins.a = (c, a, b)
    elif op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.expect('label')
        d = p.next()[1:]
        p.expect('[')
        cs = []
        while not p.accept(']'):
            t2 = p.type()
            cv = p.value(t2)
            p.expect(',')
            p.expect('label')
            cs.append((cv, p.next()[1:]))
        ins.ty, ins.a = t, (v, d, cs)
    elif op == 'ret':
        t = p.type()
        ins.ty = t
        ins.a = () if t[0] == 'void' else (p.value(t),)
    elif op == 'unreachable':
        pass
    elif op == 'alloca':
        t = p.type()
        cnt = None
        if p.accept(','):
            if p.peek() != 'align':
                ct = p.type()
                cnt = p.value(ct)
                p.accept(',')
        al = 1
        if p.accept('align'):
            al = int(p.next())
        ins.ty, ins.a = t, (cnt, al)
    elif op == 'load':
        p.attrs()
        t = p.type()
        p.expect(',')
        p.type()
        ins.ty, ins.a = t, (p.value(('ptr',)),)
    elif op == 'store':
        p.attrs()
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.type()
        ins.ty, ins.a = t, (v, p.value(('ptr',)))
    elif op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        t = p.type()
        p.expect(',')
        p.type()
        b = p.value(('ptr',))
        idx = []
        while p.accept(','):
            it = p.type()
            idx.append((it, p.value(it)))
        ins.ty, ins.a = t, (b, idx)
    elif op == 'call':
        while p.peek() in FM:
            p.next()
        parse_call(p, ins)
    elif op == 'invoke':
        parse_call(p, ins)
        p.attrs()
        p.expect('to')
        p.expect('label')
        n = p.next()[1:]
        p.expect('unwind')
        p.expect('label')
        u = p.next()[1:]
        ins.flags = (n, u)
    elif op == 'landingpad':
        ins.ty = p.type()
        cl = []
        while p.more():
            w = p.next()
            if w == 'cleanup':
                cl.append(('cleanup', None))
            elif w == 'catch':
                t = p.type()
                cl.append(('catch', p.value(t)))
            elif w == 'filter':
                t = p.type()
                cl.append(('filter', p.value(t)))
            else:
                raise Unsupported('landingpad ' + w)
        ins.a = cl
    elif op == 'resume':
        t = p.type()
        ins.a = (p.value(t),)
    elif op == 'extractvalue':
        t = p.type()
        v = p.value(t)
        ix = []
        while p.accept(','):
            ix.append(int(p.next()))
        ins.ty, ins.a = t, (v, ix)
    elif op == 'insertvalue':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        t2 = p.type()
        e = p.value(t2)
        ix = []
        while p.accept(','):
            ix.append(int(p.next()))
        ins.ty, ins.a = t, (v, e, ix)
    else:
        raise Unsupported('instr ' + op)
    return ins


def parse(text, only=None):
    """only: predicate on function names whose bodies are needed."""
    m = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        l = lines[i]
        if l.startswith('%') and ' = type ' in l:
            nm, body = l.split(' = type ', 1)
            nm = nm[1:]
            if nm[0] == '"':
                nm = nm[1:-1]
            m.types[nm] = P(tokenize(body)).type()
        elif l.startswith('@'):
            mm = re.match(r'@("[^"]*"|[-\w$.]+) = (.*)$', l)
            nm = mm.group(1).strip('"')
            rest = mm.group(2)
            m.globals[nm] = rest     # parsed lazily
        elif l.startswith('declare'):
            mm = re.search(r'@("[^"]*"|[-\w$.]+)\(', l)
            m.decls.add(mm.group(1).strip('"'))
        elif l.startswith('define'):
            mm = re.search(r'@("[^"]*"|[-\w$.]+)\(', l)
            nm = mm.group(1).strip('"')
            j = i + 1
            while lines[j] != '}':
                j += 1
            if only is None or only(nm):
                m.funcs[nm] = (l, lines[i + 1:j])
            else:
                m.funcs[nm] = (l, lines[i + 1:j])
            i = j
        i += 1
    m._parsed = {}
    return m


def get_global(m, nm):
    """-> (type, init value or None, is_const)"""
    rest = m.globals.get(nm)
    if rest is None:
        return None
    if isinstance(rest, tuple):
        return rest
    words = rest.split()
    k = 0
    ext = False
    while words[k] not in ('global', 'constant'):
        if words[k] in ('external', 'extern_weak'):
            ext = True
        k += 1
        if words[k - 1] == 'alias':
            raise Unsupported('alias')
    const = words[k] == 'constant'
    body = rest.split(words[k], 1)[1] if words[k] not in ' '.join(words[:k]) else rest.split(' ' + words[k] + ' ', 1)[1]
    p = P(tokenize(strip_meta(body)))
    t = p.type()
    init = None
    if not ext and p.more() and p.peek() != ',':
        init = p.value(t)
    m.globals[nm] = (t, init, const)
    return m.globals[nm]


def get_func(m, nm):
    if nm in m._parsed:
        return m._parsed[nm]
    if nm not in m.funcs:
        return None
    head, body = m.funcs[nm]
    f = Func(nm)
    # signature
    s = head[len('define'):]
    at = re.search(r'@("[^"]*"|[-\w$.]+)\(', s)
    pre = s[:at.start()]
    q = P(tokenize(pre))
    while q.more() and q.peek() in ('internal', 'dso_local', 'linkonce_odr', 'weak_odr', 'hidden', 'private',
                                    'available_externally', 'local_unnamed_addr', 'weak', 'comdat'):
        q.next()
    q.attrs()
    f.ret = q.type()
    q = P(tokenize(re.sub(r'(comdat|personality|align|gc|section|prefix|prologue|!\w+).*$', '',
                          s[at.end() - 1:].rsplit('{', 1)[0]) if False else s[at.end() - 1:].rsplit('{', 1)[0]))
    q.expect('(')
    ai = 0
    while not q.accept(')'):
        if q.accept('...'):
            continue
        t = q.type()
        q.attrs()
        if q.kind() == 'name':
            an = q.next()[1:]
        else:
            an = str(ai)
        ai += 1
        f.args.append((t, an))
        q.accept(',')
    # body: join continuation lines
    joined = []
    for l in body:
        if not l.strip() or l.lstrip().startswith(';'):
            continue
        if l.startswith('          ') or (joined and joined[-1].lstrip().startswith('switch') and ']' not in joined[-1]) \
                or (l.startswith('  ]')):
            joined[-1] += ' ' + l.strip()
        else:
            joined.append(l)
    cur = None
    first = True
    for l in joined:
        if not l.startswith(' '):
            lab = l.split(':')[0] if not l.startswith('"') else l[1:].split('"')[0]
            cur = lab
            f.blocks[cur] = []
            f.order.append(cur)
            first = False
            continue
        if first:
            cur = str(ai)
            f.blocks[cur] = []
            f.order.append(cur)
            first = False
        f.blocks[cur].append(parse_instr(l))
    m._parsed[nm] = f
    return f

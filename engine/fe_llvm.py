"""Front end: textual LLVM IR (clang -O1 -S -emit-llvm) -> ir.Module"""
import re
import struct
from ir import Func, Module, f_from_float

TOK = re.compile(r'''"(?:[^"\\]|\\.)*"|c"(?:[^"\\]|\\.)*"|[%@][-a-zA-Z$._0-9]+|[%@]"(?:[^"\\]|\\.)*"|![a-zA-Z0-9_.]*|\#\d+|0x[KHLMR]?[0-9A-Fa-f]+|-?\d+\.\d*(?:[eE][-+]?\d+)?|-?\d+|\.\.\.|[a-zA-Z_$.][-a-zA-Z0-9_$.]*|[][(){}<>,=*:!]''')


class ParseError(Exception):
    pass


SCAL = {'float': 'f32', 'double': 'f64', 'x86_fp80': 'f80', 'ptr': 'ptr'}
ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly',
         'writable', 'dead_on_unwind', 'returned', 'inreg', 'immarg', 'noreturn', 'nounwind', 'swiftself', 'noext',
         'fastcc', 'ccc', 'coldcc', 'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'internal', 'linkonce_odr',
         'hidden', 'private', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'reassoc', 'afn', 'fast', 'nuw', 'nsw',
         'exact', 'inbounds', 'disjoint', 'nneg', 'weak_odr', 'weak', 'external', 'available_externally', 'samesign'}


class Toks:
    def __init__(self, s):
        self.t = TOK.findall(s)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        t = self.t[self.i]
        self.i += 1
        return t

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if self.next() != x:
            raise ParseError('expected %r near %r' % (x, self.t[max(0, self.i - 4):self.i + 4]))


class LLVM:
    def __init__(self, text):
        self.types = {}
        self.mod = Module()
        self.text = text
        self.parse()

    # ---- types: scalar string | ('s',[types]) | ('a',n,ty) | ('v',n,ty) | 'void'
    def ty(self, T):
        t = T.next()
        if t in SCAL:
            r = SCAL[t]
        elif re.fullmatch(r'i\d+', t):
            r = t
        elif t == 'void':
            r = 'void'
        elif t == '{':
            L = []
            while not T.eat('}'):
                L.append(self.ty(T))
                T.eat(',')
            r = ('s', L)
        elif t == '[':
            n = int(T.next())
            T.need('x')
            e = self.ty(T)
            T.need(']')
            r = ('a', n, e)
        elif t == '<':
            if T.peek() == '{':
                r = self.ty(T)
            else:
                n = int(T.next())
                T.need('x')
                r = ('v', n, self.ty(T))
            T.need('>')
        elif t[0] == '%':
            r = ('n', t)
        elif t == 'metadata':
            r = 'metadata'
        elif t == 'label':
            r = 'label'
        else:
            raise ParseError('type %r' % t)
        while T.peek() == '*':
            T.next()
            r = 'ptr'
        return r

    def res(self, t):
        while isinstance(t, tuple) and t[0] == 'n':
            if t[1] not in self.types:
                raise ParseError('unknown type ' + t[1])
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.res(t)
        if isinstance(t, str):
            return {'f32': 4, 'f64': 8, 'f80': 16, 'ptr': 8}.get(t) or max(1, (int(t[1:]) + 7) // 8)
        if t[0] == 's':
            return max([self.align(x) for x in t[1]] or [1])
        if t[0] == 'a':
            return self.align(t[2])
        return self.size(t)

    def size(self, t):
        t = self.res(t)
        if isinstance(t, str):
            return {'f32': 4, 'f64': 8, 'f80': 16, 'ptr': 8}.get(t) or max(1, (int(t[1:]) + 7) // 8)
        if t[0] in 'av':
            return t[1] * self.size(t[2])
        o = 0
        for x in t[1]:
            a = self.align(x)
            o = (o + a - 1) // a * a + self.size(x)
        a = self.align(t)
        return (o + a - 1) // a * a

    def field_off(self, t, k):
        o = 0
        for j, x in enumerate(t[1]):
            a = self.align(x)
            o = (o + a - 1) // a * a
            if j == k:
                return o
            o += self.size(x)
        raise ParseError('field')

    def leaves(self, t, off=0):
        """[(offset, scalar type)] of a first class aggregate"""
        t = self.res(t)
        if isinstance(t, str):
            return [(off, t)]
        if t[0] in 'av':
            r = []
            for k in range(t[1]):
                r += self.leaves(t[2], off + k * self.size(t[2]))
            return r
        r = []
        for k, x in enumerate(t[1]):
            r += self.leaves(x, off + self.field_off(t, k))
        return r

    def nleaves(self, t):
        return len(self.leaves(t))

    def subrange(self, t, idxs):
        """leaf range [a,b) of aggregate element path"""
        a = 0
        for k in idxs:
            t = self.res(t)
            if t[0] in 'av':
                a += k * self.nleaves(t[2])
                t = t[2]
            else:
                a += sum(self.nleaves(x) for x in t[1][:k])
                t = t[1][k]
        return a, a + self.nleaves(t), t

    # ---- constants / operands: list of scalar operands, one per leaf
    def val(self, T, t):
        t = self.res(t)
        n = T.peek()
        if t == 'metadata':
            # skip metadata operand
            T.next()
            if T.peek() == '(':
                depth = 0
                while True:
                    x = T.next()
                    depth += x == '('
                    depth -= x == ')'
                    if depth == 0:
                        break
            elif T.peek() == '{':
                while T.next() != '}':
                    pass
            return []
        if n in ('undef', 'poison'):
            T.next()
            return [('u', l) for _, l in self.leaves(t)]
        if n == 'zeroinitializer':
            T.next()
            return [self.zero(l) for _, l in self.leaves(t)]
        if n[0] == '%':
            T.next()
            nm = n[1:].strip('"')
            k = self.nleaves(t)
            if k == 1 and isinstance(t, str):
                return [('r', nm)]
            return [('r', '%s.%d' % (nm, j)) for j in range(k)]
        if n[0] == '@':
            T.next()
            return [('g', n[1:].strip('"'), 0)]
        if n == 'null':
            T.next()
            return [('i', 64, 0)]
        if n in ('true', 'false'):
            T.next()
            return [('i', 1, int(n == 'true'))]
        if n == 'getelementptr':
            T.next()
            while T.peek() in ATTRS:
                T.next()
            T.need('(')
            et = self.ty(T)
            T.need(',')
            base, off, dyn = self.gep_rest(T, et)
            T.need(')')
            if dyn or base[0] != 'g':
                raise ParseError('constant gep')
            return [('g', base[1], base[2] + off)]
        if isinstance(t, str):
            T.next()
            return [self.scalar(t, n)]
        # aggregate literal
        close = {'[': ']', '{': '}', '<': '>'}[T.next()]
        out = []
        while not T.eat(close):
            et = self.ty(T)
            out += self.val(T, et)
            T.eat(',')
        return out

    def zero(self, l):
        if l[0] == 'f':
            return ('f', l, 0)
        return ('i', 64 if l == 'ptr' else int(l[1:]), 0)

    def scalar(self, t, n):
        if t in ('f32', 'f64', 'f80'):
            if n.startswith('0xK'):
                h = n[3:].rjust(20, '0')
                return ('f', 'f80', int(h, 16))
            if n.startswith('0x'):
                b = int(n[2:], 16)
                if t == 'f32':
                    return ('f', 'f32', f_from_float('f32', struct.unpack('<d', struct.pack('<Q', b))[0]))
                return ('f', 'f64', b)
            return ('f', t, f_from_float(t, float(n)))
        if t[0] == 'i':
            w = int(t[1:])
            return ('i', w, int(n) & ((1 << w) - 1))
        raise ParseError('scalar %s %s' % (t, n))

    def gep_rest(self, T, et):
        pt = self.ty(T)
        base = self.val(T, pt)[0]
        off, dyn, first, cur = 0, [], True, et
        while T.eat(','):
            if T.peek() in ('!tbaa', '!noalias') or (T.peek() or '').startswith('!'):
                break
            T.eat('inrange')
            it = self.ty(T)
            v = self.val(T, it)[0]
            if first:
                stride, first = self.size(et), False
            else:
                c = self.res(cur)
                if c[0] == 's':
                    off += self.field_off(c, v[2])
                    cur = c[1][v[2]]
                    continue
                stride, cur = self.size(c[2]), c[2]
            if v[0] == 'i':
                w = v[1]
                x = v[2] - (1 << w) if v[2] >> (w - 1) else v[2]
                off += x * stride
            else:
                dyn.append((v, int(it[1:]), stride))
        return base, off, dyn

    # ---- module
    def parse(self):
        lines = self.text.split('\n')
        # types first
        for l in lines:
            if l.startswith('%') and ' = type ' in l:
                n, b = l.split(' = type ', 1)
                if b.strip() == 'opaque':
                    continue
                T = Toks(b)
                # keep textual form: nested names resolved lazily
                self.types[n.strip()] = self.ty(T)
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('@'):
                self.global_(l)
            elif l.startswith('define'):
                j = i
                while lines[j] != '}':
                    j += 1
                self.func(lines[i:j])
                i = j
            i += 1

    def global_(self, l):
        m = re.match(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = (.*)$', l)
        name, rest = m.group(1).strip('"'), m.group(2)
        mm = re.search(r'\b(constant|global)\b', rest)
        if not mm:
            return
        const = mm.group(1) == 'constant'
        T = Toks(rest[mm.end():])
        ext = re.search(r'\bexternal\b', rest[:mm.start()])
        try:
            t = self.ty(T)
            if ext:
                return
            if T.peek() and T.peek().startswith('c"'):
                self.mod.globals[name] = (self.size(t), [], const)
                return
            vals = self.val(T, t)
        except ParseError:
            return
        lv = self.leaves(t)
        self.mod.globals[name] = (self.size(t), [(o, ty, v) for (o, ty), v in zip(lv, vals)], const)

    def func(self, lines):
        head = lines[0]
        m = re.match(r'define (.*?)@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', head)
        name = m.group(2).strip('"')
        f = Func(name)
        f.internal = bool(re.search(r'\b(internal|private)\b', m.group(1)))
        # return type
        T = Toks(m.group(1))
        while T.peek() in ATTRS:
            T.next()
        rt = self.ret_ty(T)
        f.rets = [] if rt == 'void' else [l for _, l in self.leaves(rt)]
        # params
        p = head[m.end():]
        depth, k = 1, 0
        while depth:
            depth += p[k] == '('
            depth -= p[k] == ')'
            k += 1
        T = Toks(p[:k - 1])
        idx = 0
        while T.peek():
            t = self.ty(T)
            byval = self.param_attrs(T)
            nm = T.next()[1:].strip('"')
            T.eat(',')
            lv = self.leaves(t)
            if byval is not None:
                f.byval[len(f.params)] = self.size(byval)
            if isinstance(self.res(t), str):
                f.params.append((nm, lv[0][1]))
            else:
                for j, (_, l) in enumerate(lv):
                    f.params.append(('%s.%d' % (nm, j), l))
            idx += 1
        # body
        cur = None
        nparam = sum(1 for _ in range(idx))
        body = lines[1:]
        k = 0
        # unnamed entry label number: number of unnamed params
        entry = None
        m0 = re.match(r'([-a-zA-Z$._0-9]+|"[^"]*"):', body[0])
        if not m0:
            entry = str(nparam) if all(re.fullmatch(r'\d+(\.\d+)?', r) for r, _ in f.params) else 'entry'
            cur = entry
            f.blocks[cur] = []
            f.order.append(cur)
        while k < len(body):
            l = body[k]
            k += 1
            if not l.strip() or l.strip().startswith(';'):
                continue
            m0 = re.match(r'([-a-zA-Z$._0-9]+|"[^"]*"):', l)
            if m0:
                cur = m0.group(1).strip('"')
                f.blocks[cur] = []
                f.order.append(cur)
                continue
            s = l.strip()
            if s.startswith('switch'):
                while ']' not in s:
                    s += ' ' + body[k].strip()
                    k += 1
            if ' invoke ' in s or s.startswith('invoke'):
                while 'unwind label' not in s:
                    s += ' ' + body[k].strip()
                    k += 1
            try:
                f.blocks[cur] += self.instr(s)
            except ParseError as e:
                f.blocks[cur].append(('unsupported', s + '  [' + str(e) + ']'))
        f.entry = f.order[0]
        self.mod.funcs[name] = f

    def ret_ty(self, T):
        while True:
            t = T.peek()
            if t in ATTRS:
                T.next()
            elif t in ('align', 'dereferenceable', 'dereferenceable_or_null'):
                T.next()
                if T.eat('('):
                    T.next()
                    T.need(')')
                else:
                    T.next()
            else:
                return self.ty(T)

    def param_attrs(self, T):
        byval = None
        while True:
            t = T.peek()
            if t in ATTRS:
                T.next()
            elif t == 'align':
                T.next()
                if T.eat('('):
                    T.next()
                    T.need(')')
                else:
                    T.next()
            elif t in ('dereferenceable', 'dereferenceable_or_null'):
                T.next()
                T.need('(')
                T.next()
                T.need(')')
            elif t in ('byval', 'sret', 'byref', 'elementtype'):
                T.next()
                T.need('(')
                x = self.ty(T)
                T.need(')')
                if t == 'byval':
                    byval = x
            else:
                return byval

    def flags(self, T):
        fl = []
        while T.peek() in ATTRS:
            fl.append(T.next())
        return fl

    def instr(self, s):
        T = Toks(s)
        dst = None
        if T.peek()[0] == '%' and T.peek(1) == '=':
            dst = T.next()[1:].strip('"')
            T.next()
        op = T.next()
        if op in ('tail', 'musttail', 'notail'):
            op = T.next()
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'add', 'sub', 'mul', 'sdiv', 'srem', 'udiv', 'urem',
                  'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            fl = self.flags(T)
            t = self.res(self.ty(T))
            a = self.val(T, t)
            T.need(',')
            b = self.val(T, t)
            lv = self.leaves(t)
            d = [dst] if isinstance(t, str) else ['%s.%d' % (dst, j) for j in range(len(lv))]
            return [('bin', op + ('.nsw' if 'nsw' in fl and op in ('add', 'sub', 'mul') else ''), lv[j][1], d[j], a[j], b[j])
                    for j in range(len(lv))]
        if op == 'fneg':
            self.flags(T)
            t = self.res(self.ty(T))
            a = self.val(T, t)
            lv = self.leaves(t)
            d = [dst] if isinstance(t, str) else ['%s.%d' % (dst, j) for j in range(len(lv))]
            return [('fneg', lv[j][1], d[j], a[j]) for j in range(len(lv))]
        if op in ('fcmp', 'icmp'):
            self.flags(T)
            pred = T.next()
            t = self.res(self.ty(T))
            a = self.val(T, t)
            T.need(',')
            b = self.val(T, t)
            if not isinstance(t, str):
                return [(op, pred, l, '%s.%d' % (dst, j), a[j], b[j]) for j, (_, l) in enumerate(self.leaves(t))]
            return [(op, pred, t, dst, a[0], b[0])]
        if op in ('sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'bitcast',
                  'freeze', 'ptrtoint', 'inttoptr'):
            self.flags(T)
            t = self.res(self.ty(T))
            a = self.val(T, t)
            if op == 'freeze':
                lv = self.leaves(t)
                d = [dst] if isinstance(t, str) else ['%s.%d' % (dst, j) for j in range(len(lv))]
                return [('copy', lv[j][1], d[j], a[j]) for j in range(len(lv))]
            T.need('to')
            t2 = self.res(self.ty(T))
            if not isinstance(t, str) or not isinstance(t2, str):
                raise ParseError('vector cast')
            return [('cast', op, t, t2, dst, a[0])]
        if op == 'select':
            self.flags(T)
            ct = self.res(self.ty(T))
            c = self.val(T, ct)
            T.need(',')
            t = self.res(self.ty(T))
            a = self.val(T, t)
            T.need(',')
            t_ = self.ty(T)
            b = self.val(T, t)
            lv = self.leaves(t)
            d = [dst] if isinstance(t, str) else ['%s.%d' % (dst, j) for j in range(len(lv))]
            return [('select', lv[j][1], d[j], c[j if len(c) > 1 else 0], a[j], b[j]) for j in range(len(lv))]
        if op == 'phi':
            self.flags(T)
            t = self.res(self.ty(T))
            inc = []
            while True:
                T.need('[')
                v = self.val(T, t)
                T.need(',')
                lb = T.next()[1:].strip('"')
                T.need(']')
                inc.append((v, lb))
                if not T.eat(','):
                    break
            lv = self.leaves(t)
            d = [dst] if isinstance(t, str) else ['%s.%d' % (dst, j) for j in range(len(lv))]
            return [('phi', lv[j][1], d[j], [(v[j], lb) for v, lb in inc]) for j in range(len(lv))]
        if op == 'br':
            if T.eat('label'):
                return [('br', T.next()[1:].strip('"'))]
            T.need('i1')
            c = self.val(T, 'i1')[0]
            T.need(',')
            T.need('label')
            a = T.next()[1:].strip('"')
            T.need(',')
            T.need('label')
            b = T.next()[1:].strip('"')
            return [('cbr', c, a, b)]
        if op == 'switch':
            t = self.ty(T)
            v = self.val(T, t)[0]
            T.need(',')
            T.need('label')
            df = T.next()[1:].strip('"')
            T.need('[')
            cases = []
            while not T.eat(']'):
                t_ = self.ty(T)
                cv = self.val(T, t_)[0]
                T.need(',')
                T.need('label')
                cases.append((cv[2], T.next()[1:].strip('"')))
            return [('switch', t, v, df, cases)]
        if op == 'ret':
            t = self.ty(T)
            if t == 'void':
                return [('ret', [])]
            return [('ret', self.val(T, t))]
        if op == 'unreachable':
            return [('unreachable',)]
        if op == 'resume':
            return [('unreachable',)]
        if op == 'alloca':
            t = self.ty(T)
            return [('alloca', dst, self.size(t))]
        if op == 'load':
            if T.peek() in ('volatile', 'atomic'):
                raise ParseError('volatile')
            t = self.res(self.ty(T))
            T.need(',')
            p = self.val(T, self.ty(T))[0]
            return self.mem('load', t, dst, None, p)
        if op == 'store':
            if T.peek() in ('volatile', 'atomic'):
                raise ParseError('volatile')
            t = self.res(self.ty(T))
            v = self.val(T, t)
            T.need(',')
            p = self.val(T, self.ty(T))[0]
            return self.mem('store', t, None, v, p)
        if op == 'getelementptr':
            self.flags(T)
            et = self.ty(T)
            T.need(',')
            base, off, dyn = self.gep_rest(T, et)
            return [('gep', dst, base, off, dyn)]
        if op == 'extractvalue':
            t = self.ty(T)
            v = self.val(T, t)
            ix = []
            while T.eat(','):
                if T.peek().startswith('!'):
                    break
                ix.append(int(T.next()))
            a, b, st = self.subrange(t, ix)
            st = self.res(st)
            if isinstance(st, str):
                return [('copy', st, dst, v[a])]
            return [('copy', l, '%s.%d' % (dst, j), v[a + j]) for j, (_, l) in enumerate(self.leaves(st))]
        if op == 'insertvalue':
            t = self.ty(T)
            v = list(self.val(T, t))
            T.need(',')
            et = self.ty(T)
            e = self.val(T, et)
            ix = []
            while T.eat(','):
                ix.append(int(T.next()))
            a, b, st = self.subrange(t, ix)
            v[a:b] = e
            return [('copy', l, '%s.%d' % (dst, j), v[j]) for j, (_, l) in enumerate(self.leaves(t))]
        if op == 'extractelement':
            t = self.ty(T)
            v = self.val(T, t)
            T.need(',')
            it = self.ty(T)
            k = self.val(T, it)[0]
            if k[0] != 'i':
                raise ParseError('dynamic vector index')
            return [('copy', self.leaves(t)[0][1], dst, v[k[2]])]
        if op == 'insertelement':
            t = self.ty(T)
            v = list(self.val(T, t))
            T.need(',')
            e = self.val(T, self.ty(T))[0]
            T.need(',')
            k = self.val(T, self.ty(T))[0]
            if k[0] != 'i':
                raise ParseError('dynamic vector index')
            v[k[2]] = e
            return [('copy', l, '%s.%d' % (dst, j), v[j]) for j, (_, l) in enumerate(self.leaves(t))]
        if op == 'shufflevector':
            t = self.ty(T)
            a = self.val(T, t)
            T.need(',')
            b = self.val(T, self.ty(T))
            T.need(',')
            mt = self.ty(T)
            mk = self.val(T, mt)
            allv = a + b
            el = self.leaves(t)[0][1]
            return [('copy', el, '%s.%d' % (dst, j), allv[k[2]] if k[0] == 'i' else ('u', el)) for j, k in enumerate(mk)]
        if op in ('call', 'invoke'):
            self.flags(T)
            rt = self.ret_ty(T)
            if T.peek() == '(':      # function type
                while T.next() != ')':
                    pass
            callee = T.next()
            if callee[0] != '@':
                raise ParseError('indirect call')
            callee = callee[1:].strip('"')
            T.need('(')
            args, tys, byv = [], [], {}
            while not T.eat(')'):
                at = self.ty(T)
                bv = self.param_attrs(T) if at != 'metadata' else None
                v = self.val(T, at)
                if at != 'metadata':
                    if bv is not None:
                        byv[len(args)] = self.size(bv)
                    args += v
                    tys += [l for _, l in self.leaves(at)]
                T.eat(',')
            rts = [] if rt == 'void' else [l for _, l in self.leaves(rt)]
            rt_ = self.res(rt) if rt != 'void' else None
            ds = [] if not rts else ([dst] if isinstance(rt_, str) else ['%s.%d' % (dst, j) for j in range(len(rts))])
            if dst is None:
                ds = [None] * len(rts)
            if callee.startswith('llvm.lifetime') or callee.startswith('llvm.experimental.noalias') or \
                    callee.startswith('llvm.dbg') or callee.startswith('llvm.assume'):
                return []
            if callee.startswith('llvm.memcpy') or callee.startswith('llvm.memmove'):
                return [('memcpy', args[0], args[1], args[2])]
            if callee.startswith('llvm.memset'):
                return [('memset', args[0], args[1], args[2])]
            r = [('call', callee, ds, rts, args, tys, byv)]
            if op == 'invoke':
                T2 = s[s.rindex('to label'):]
                lb = re.match(r'to label %("[^"]*"|[-a-zA-Z$._0-9]+)', T2).group(1).strip('"')
                r.append(('br', lb))
            return r
        if op == 'landingpad':
            return []
        raise ParseError('opcode ' + op)

    def mem(self, op, t, dst, v, p):
        t = self.res(t)
        if isinstance(t, str):
            return [('load', t, dst, p)] if op == 'load' else [('store', t, v[0], p)]
        out = []
        self.tmp = getattr(self, 'tmp', 0)
        for j, (o, l) in enumerate(self.leaves(t)):
            self.tmp += 1
            q = '.p%d' % self.tmp
            out.append(('gep', q, p, o, []))
            out.append(('load', l, '%s.%d' % (dst, j), ('r', q)) if op == 'load' else ('store', l, v[j], ('r', q)))
        return out


def parse_llvm(text):
    return LLVM(text).mod

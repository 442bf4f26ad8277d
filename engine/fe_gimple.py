"""Front end: GIMPLE dump (gfortran -O1 -fdump-tree-stdarg, i.e. SSA form before
complex lowering) -> ir.Module.  Complex values are scalarised; complex
multiplication follows -fcx-fortran-rules (ac-bd, ad+bc), complex division
becomes a call to the pseudo intrinsic __cdivf64 (Smith's algorithm)."""
import re
from fractions import Fraction
from ir import Func, Module, f_bits_from_fraction, pack_bits, size_of


class ParseError(Exception):
    pass


TYPES = {'real(kind=4)': ['f32'], 'real(kind=8)': ['f64'], 'real(kind=10)': ['f80'],
         'complex(kind=4)': ['f32'] * 2, 'complex(kind=8)': ['f64'] * 2, 'complex(kind=10)': ['f80'] * 2,
         'integer(kind=1)': ['i8'], 'integer(kind=2)': ['i16'], 'integer(kind=4)': ['i32'], 'integer(kind=8)': ['i64'],
         'logical(kind=1)': ['i1'], 'logical(kind=4)': ['i1'], 'logical(kind=8)': ['i1'], '_Bool': ['i1'],
         'unsigned int': ['i32'], 'int': ['i32'], 'long int': ['i64'], 'unsigned long': ['i64'], 'sizetype': ['i64'],
         'ssizetype': ['i64'], 'uint64_t': ['i64'], 'uint32_t': ['i32'], 'character(kind=1)': ['i8'],
         'double': ['f64'], 'float': ['f32']}
TYRE = '|'.join(re.escape(t) for t in sorted(TYPES, key=len, reverse=True))
UNSIGNED = {'unsigned int', 'unsigned long', 'sizetype', 'uint64_t', 'uint32_t'}


def parse_number(ty, s):
    s = s.strip()
    if s.lower() in ('inf', '+inf', ' inf'):
        return ('f', ty, pack_bits(ty, 0, {'f32': 255, 'f64': 2047, 'f80': 32767}[ty], 1 << 63 if ty == 'f80' else 0))
    if s.lower() == '-inf':
        return ('f', ty, pack_bits(ty, 1, {'f32': 255, 'f64': 2047, 'f80': 32767}[ty], 1 << 63 if ty == 'f80' else 0))
    if 'nan' in s.lower():
        return ('f', ty, {'f32': 0x7fc00000, 'f64': 0x7ff8 << 48, 'f80': 0x7fff << 64 | 3 << 62}[ty])
    m = re.fullmatch(r'(-?)(\d+(?:\.\d*)?)(?:e([+-]?\d+))?', s)
    if not m:
        raise ParseError('number ' + s)
    q = Fraction(m.group(2)) * Fraction(10) ** int(m.group(3) or 0)
    b = f_bits_from_fraction(ty, q)
    if m.group(1):
        b |= {'f32': 1 << 31, 'f64': 1 << 63, 'f80': 1 << 79}[ty]
    return ('f', ty, b)


def split_args(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '(<[{':
            d += 1
        if c in ')>]}':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


BINF = {'+': 'fadd', '-': 'fsub', '*': 'fmul', '/': 'fdiv'}
BINI = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'sdiv', '%': 'srem', '&': 'and', '|': 'or', '^': 'xor',
        '<<': 'shl', '>>': 'ashr'}
CMPF = {'<': 'olt', '<=': 'ole', '>': 'ogt', '>=': 'oge', '==': 'oeq', '!=': 'une', 'ord': 'ord', 'unord': 'uno',
        'u<': 'ult', 'u<=': 'ule', 'u>': 'ugt', 'u>=': 'uge', 'u==': 'ueq', '<>': 'one', 'unlt': 'ult', 'unle': 'ule',
        'ungt': 'ugt', 'unge': 'uge', 'uneq': 'ueq', 'ltgt': 'one'}
CMPI = {'<': 'slt', '<=': 'sle', '>': 'sgt', '>=': 'sge', '==': 'eq', '!=': 'ne'}
BUILTIN = {'__builtin_log': 'log', '__builtin_log1p': 'log1p', '__builtin_clog': 'clog', '__builtin_fmod': 'fmod',
           '__builtin_hypot': 'hypot', '__builtin_atan2': 'atan2', '__builtin_sin': 'sin', '__builtin_cos': 'cos',
           '__builtin_sqrt': 'sqrt', '__builtin_exp': 'exp', '__builtin_pow': 'pow', '__builtin_cabs': 'cabs',
           '__builtin_carg': 'carg', '__builtin_copysign': 'copysign', '__builtin_fabs': 'fabs', '__builtin_atan': 'atan',
           '__builtin_cexp': 'cexp', '__builtin_csqrt': 'csqrt', '__builtin_tan': 'tan', '__builtin_floor': 'floor',
           '__builtin_ceil': 'ceil', '__builtin_round': 'round', '__builtin_trunc': 'trunc', '__builtin_exp2': 'exp2'}


class G:
    def __init__(self, text):
        self.mod = Module()
        self.text = text
        self.sigs = {}
        self.parse()

    def parse(self):
        parts = re.split(r'^;; Function .*$', self.text, flags=re.M)[1:]
        for p in parts:          # signatures first
            m = re.search(r'^([a-z_].*?)\s+([A-Za-z_]\w*) \((.*)\)\s*\n\{', p, flags=re.M)
            if m:
                rt = m.group(1).strip()
                self.sigs[m.group(2)] = (TYPES.get(rt, None if rt != 'void' else []), [x for x in split_args(m.group(3))])
        for p in parts:
            self.func(p)

    def func(self, p):
        m = re.search(r'^([a-z_].*?)\s+([A-Za-z_]\w*) \((.*)\)\s*\n\{', p, flags=re.M)
        if not m:
            return
        rt, name, params = m.groups()
        f = self.f = Func(name)
        f.rets = TYPES.get(rt.strip(), []) or []
        self.nt = 0
        self.vt = {}       # declared name -> type list / ('arr', elt types, n) / 'ptr'
        self.ptrto = {}
        self.mem = {}      # memory variable -> operand (pointer)
        for q in split_args(params):
            if q == 'void' or not q:
                continue
            mm = re.match(r'(%s) (&|\*)?\s*(?:restrict )?([A-Za-z_][\w.]*)$' % TYRE, q)
            if not mm:
                raise ParseError('param ' + q)
            if mm.group(2):
                self.vt[mm.group(3)] = 'ptr'
                self.ptrto[mm.group(3)] = TYPES[mm.group(1)]
                f.params.append((mm.group(3), 'ptr'))
            else:
                self.vt[mm.group(3)] = TYPES[mm.group(1)]
                for j, t in enumerate(TYPES[mm.group(1)]):
                    f.params.append((mm.group(3) + ('.%d' % j if len(TYPES[mm.group(1)]) > 1 else ''), t))
        self.params = {r for r, _ in f.params}
        body = p[m.end():]
        body = body[:body.rindex('\n}')]
        decls, _, code = body.partition('  <bb 2>')
        code = '  <bb 2>' + code
        self.pre = []
        f.blocks['entry'] = self.pre
        f.order.append('entry')
        f.entry = 'entry'
        arrdecl = []
        for l in decls.split('\n'):
            l = l.strip().rstrip(';')
            if not l:
                continue
            mm = re.match(r'(static )?(?:const )?(%s) (\*)?\s*([\w.]+)((?:\[\d+(?::\d+)?\])*)(?: = (.*))?$' % TYRE, l)
            if not mm:
                mm2 = re.match(r'.*?([\w.]+)$', l)
                if mm2:
                    self.vt[mm2.group(1)] = 'ptr'
                continue
            st, ty, ptr, vn, dims, init = mm.groups()
            t = TYPES[ty]
            if ptr:
                self.vt[vn] = 'ptr'
                continue
            n = 1
            for d in re.findall(r'\[(\d+)', dims):
                n *= int(d)
            es = sum(size_of(x) if x != 'i1' else 4 for x in t)
            if st:
                vals = []
                if init:
                    toks = split_args(init.strip()[1:-1]) if init.strip()[0] == '{' else [init]
                    off = 0
                    for tk in toks:
                        for x, v in zip(t, self.const(t, tk)):
                            vals.append((off, x, v))
                            off += size_of(x)
                g = '%s::%s' % (name, vn)
                # constant unless the code assigns to it (a SAVEd variable)
                stored = re.search(r'(?m)^\s*(?:(?:REALPART|IMAGPART)_EXPR <)?(?:MEM[^=\n]*&)?%s\b(?!\.)[^=\n]*= ' % re.escape(vn), code)
                self.mod.globals[g] = (n * es, vals, bool(init) and not stored)
                self.mem[vn] = ('g', g, 0)
                self.vt[vn] = ('arr', t, n) if dims else t
            else:
                self.vt[vn] = ('arr', t, n) if dims else t
                arrdecl.append((vn, n * es))
        # module variables and COMMON blocks: bare undeclared names, typed by the register they are moved to or from
        for mm in re.finditer(r'(?m)^\s*(?:(\S+) = ([a-z]\w*(?:\.[a-z]\w*)?)|([a-z]\w*(?:\.[a-z]\w*)?) = (\S+));$', code):
            vn, other = (mm.group(2), mm.group(1)) if mm.group(2) else (mm.group(3), mm.group(4))
            if vn in self.vt or vn in self.mem or re.fullmatch(r'.*_\d+', vn):
                continue
            t = self.tyof(other)
            if t is None or t == 'ptr' or isinstance(t, tuple):
                continue
            g = 'module::' + vn
            off, vals = 0, []
            for x in t:
                vals.append((off, x, ('i', int(x[1:]), 0) if x[0] == 'i' else parse_number(x, '0.0')))
                off += size_of(x)
            self.mod.globals[g] = (off, vals, False)
            self.mem[vn] = ('g', g, 0)
            self.vt[vn] = t
        # memory variables: declared names used without SSA version
        for vn, sz in arrdecl:
            if re.search(r'(?<![\w.])%s(?![\w.(])' % re.escape(vn), code) and not re.fullmatch(r'(\w+\.\d+)?_\d+', vn):
                self.pre.append(('alloca', vn + '.addr', sz))
                self.mem[vn] = ('r', vn + '.addr')
        # undeclared artificial arrays (A.1)
        for vn in set(re.findall(r'&(A\.\d+)', code)):
            if vn not in self.mem:
                self.pre.append(('alloca', vn + '.addr', 4096))
                self.mem[vn] = ('r', vn + '.addr')
        self.pre.append(('br', '2'))
        # SSA type inference for names
        cur = None
        self.labels = {}
        stm = []
        for l in code.split('\n'):
            s = l.strip()
            mm = re.match(r'<bb (\d+)>', s)
            if mm:
                cur = mm.group(1)
                stm.append((cur, None))
                continue
            mm = re.match(r'(<[^>]+>)(?: \[[^\]]*\])?:', s)
            if mm:
                self.labels[mm.group(1)] = cur
                continue
            if s:
                stm.append((cur, s))
        i = 0
        self.cur = None
        while i < len(stm):
            bb, s = stm[i]
            i += 1
            if s is None:
                if self.cur is not None and not self.term():
                    f.blocks[self.cur].append(('br', bb))
                self.cur = bb
                f.blocks[bb] = []
                f.order.append(bb)
                continue
            try:
                if s.startswith('if ('):
                    c = self.cond(s[4:-1])
                    g1 = re.match(r'goto <bb (\d+)>', stm[i][1]).group(1)
                    g2 = re.match(r'goto <bb (\d+)>', stm[i + 2][1]).group(1)
                    i += 3
                    self.emit(('cbr', c, g1, g2))
                    continue
                while not s.endswith(';') and not s.startswith('#') and not s.startswith('goto') and i < len(stm) and stm[i][1]:
                    s += ' ' + stm[i][1]
                    i += 1
                self.stmt(s)
            except (ParseError, AttributeError, KeyError, IndexError, ValueError, TypeError) as e:
                self.emit(('unsupported', s + '  [%r]' % (e,)))
        self.mod.funcs[name] = f

    def emit(self, ins):
        self.f.blocks[self.cur].append(ins)

    def term(self):
        b = self.f.blocks[self.cur]
        return b and b[-1][0] in ('br', 'cbr', 'ret', 'switch', 'unreachable')

    def tmp(self):
        self.nt += 1
        return '.t%d' % self.nt

    def const(self, t, s):
        s = s.strip()
        m = re.fullmatch(r'__complex__ \((.*)\)', s)
        if m:
            a, b = split_args(m.group(1))
            return [parse_number(t[0], a), parse_number(t[0], b)]
        if t[0][0] == 'f':
            return [parse_number(t[0], s)]
        s = {'.TRUE.': '1', '.FALSE.': '0', '0B': '0'}.get(s, s)
        w = int(t[0][1:])
        return [('i', w, int(s) & ((1 << w) - 1))]

    def tyof(self, s):
        """type list of an SSA operand, or None for a literal"""
        s = s.strip()
        n = s[:-3] if s.endswith('(D)') else s
        if n in self.vt and n not in self.mem:
            return self.vt[n]
        m = re.fullmatch(r'(.*)_\d+', n)
        if m and m.group(1) in self.vt:
            return self.vt[m.group(1)]
        return None

    def reg(self, s):
        s = s.strip()
        if s.endswith('(D)'):
            m = re.fullmatch(r'(.*)_\d+\(D\)', s)
            if m and any(p == m.group(1) or p.startswith(m.group(1) + '.') for p in self.params):
                return m.group(1)
            return None        # undefined value
        return s

    def op(self, s, t=None):
        """list of scalar operands"""
        s = s.strip()
        ty = self.tyof(s)
        if ty is not None and not (isinstance(ty, tuple)):
            r = self.reg(s)
            if ty == 'ptr':
                return [('r', r)]
            if r is None:
                return [('u', x) for x in ty]
            return [('r', r)] if len(ty) == 1 else [('r', '%s.%d' % (r, j)) for j in range(len(ty))]
        if s.startswith('&'):
            return [self.addr(s[1:])[0]]
        if t is None:
            raise ParseError('untyped literal ' + s)
        return self.const(t, s)

    def addr(self, s):
        """lvalue text -> (pointer operand, element type list)"""
        s = s.strip()
        m = re.fullmatch(r'(REALPART_EXPR|IMAGPART_EXPR) <(.*)>', s)
        if m:
            p, t = self.addr(m.group(2))
            d = self.tmp()
            self.emit(('gep', d, p, 0 if m.group(1)[0] == 'R' else size_of(t[0]), []))
            return ('r', d), [t[0]]
        if s.startswith('*'):
            r = self.reg(s[1:])
            base = re.sub(r'_\d+(\(D\))?$', '', s[1:])
            return ('r', r), self.ptrto[base]
        m = re.fullmatch(r'MEM(?: <(%s)>)? ?\[\((%s)[^)]*?\)\s*(&?[\w.()]+?)(?: \+ (\d+)B)?\](\[.*\])?' % (TYRE, TYRE), s)
        if m:
            t = TYPES[m.group(1) or m.group(2)]
            b = m.group(3)
            p = self.addr(b[1:])[0] if b[0] == '&' else ('r', self.reg(b))
            off = int(m.group(4) or 0)
            return self.index(p, t, off, m.group(5))
        m = re.fullmatch(r'([\w.]+)(\[.*\])', s)
        if m and m.group(1) in self.mem:
            vt = self.vt[m.group(1)]
            return self.index(self.mem[m.group(1)], vt[1], 0, m.group(2))
        if s in self.mem:
            vt = self.vt.get(s)
            return self.mem[s], (vt[1] if isinstance(vt, tuple) else vt)
        raise ParseError('lvalue ' + s)

    def index(self, p, t, off, ix):
        es = sum(size_of(x) for x in t)
        dyn = []
        if ix:
            k = re.findall(r'\[([^\]]*)\]', ix)
            if len(k) != 1:
                raise ParseError('multi-dim index')
            k = k[0].strip()
            if re.fullmatch(r'-?\d+', k):
                off += int(k) * es
            else:
                dyn.append((self.op(k)[0], 64 if self.tyof(k) == ['i64'] else 32, es))
        if not off and not dyn:
            return p, t
        d = self.tmp()
        self.emit(('gep', d, p, off, dyn))
        return ('r', d), t

    def loadv(self, s, dst):
        p, t = self.addr(s)
        off = 0
        for j, x in enumerate(t):
            q = p
            if off:
                d = self.tmp()
                self.emit(('gep', d, p, off, []))
                q = ('r', d)
            self.emit(('load', x, dst if len(t) == 1 else '%s.%d' % (dst, j), q))
            off += size_of(x)
        return t

    def cond(self, s):
        d = self.tmp()
        self.rhs(s, [d], ['i1'])
        return ('r', d)

    def is_mem(self, s):
        s = s.strip()
        if re.fullmatch(r'\w+\.\d+_\d+', s):
            return False
        return s.startswith('*') or s.startswith('MEM') or s in self.mem or \
            bool(re.fullmatch(r'([\w.]+)\[.*\]', s) and s.split('[')[0] in self.mem)

    def stmt(self, s):
        if s.startswith('#'):
            m = re.fullmatch(r'# (\S+) = PHI <(.*)>', s)
            if m.group(1).startswith('.MEM') or m.group(1).startswith('.mem'):
                return
            t = self.tyof(m.group(1))
            d = self.dsts(m.group(1), t)
            inc = []
            for x in split_args(m.group(2)):
                mm = re.fullmatch(r'(.*)\((\d+)\)', x)
                inc.append((self.op(mm.group(1), t), mm.group(2)))
            for j, x in enumerate(t):
                self.emit(('phi', x, d[j], [(v[j], 'entry' if lb == '0' else lb) for v, lb in inc]))
            return
        if s.endswith(';'):
            s = s[:-1]
        m = re.match(r'goto <bb (\d+)>', s)
        if m:
            self.emit(('br', m.group(1)))
            return
        if s.startswith('goto '):
            self.emit(('br', self.labels[s.split()[1].split(' ')[0]]))
            return
        if s.startswith('return'):
            v = s[6:].strip()
            self.emit(('ret', self.op(v, self.f.rets) if v else []))
            return
        if 'CLOBBER' in s or s.startswith('# DEBUG') or s.startswith('__builtin_unreachable') and False:
            return
        if s.startswith('__builtin_unreachable'):
            self.emit(('unreachable',))
            return
        if s.startswith('switch ('):
            m = re.match(r'switch \((.*?)\) <(.*)>$', s)
            v = self.op(m.group(1))[0]
            t = self.tyof(m.group(1))[0]
            df, cases = None, []
            for c in split_args(m.group(2)):
                mm = re.match(r'(default|case (-?\d+)(?: \.\.\. (-?\d+))?): (<[^>]+>)', c)
                if mm.group(1) == 'default':
                    df = mm.group(4)
                else:
                    lo, hi = int(mm.group(2)), int(mm.group(3) or mm.group(2))
                    if hi - lo > 64:
                        raise ParseError('case range')
                    for k in range(lo, hi + 1):
                        cases.append((k & ((1 << int(t[1:])) - 1), mm.group(4)))
            self.switches = getattr(self, 'switches', [])
            # labels may come later in the text: resolve after the body
            self.emit(('switch', t, v, df, cases))
            self.fix = True
            return
        lhs, sep, rhs = s.partition(' = ')
        if not sep:
            if re.match(r'[A-Za-z_]\w* \(', s):
                self.call(s, None, None)
                return
            raise ParseError('statement')
        if self.is_mem(lhs) or re.match(r'(REALPART|IMAGPART)_EXPR <', lhs):
            p, t = self.addr(lhs)
            d = [self.tmp() for _ in t]
            self.rhs(rhs, d, t)
            off = 0
            for j, x in enumerate(t):
                q = p
                if off:
                    dd = self.tmp()
                    self.emit(('gep', dd, p, off, []))
                    q = ('r', dd)
                self.emit(('store', x, ('r', d[j]), q))
                off += size_of(x)
            return
        t = self.tyof(lhs)
        if t is None:
            raise ParseError('lhs ' + lhs)
        if t == 'ptr':
            if rhs.strip().startswith('&'):
                self.emit(('gep', lhs, self.addr(rhs.strip()[1:])[0], 0, []))
                return
            raise ParseError('pointer')
        self.rhs(rhs, self.dsts(lhs, t), t)

    def dsts(self, n, t):
        return [n] if len(t) == 1 else ['%s.%d' % (n, j) for j in range(len(t))]

    def copy(self, d, t, v):
        for j in range(len(t)):
            self.emit(('copy', t[j], d[j], v[j]))

    def getv(self, s, t):
        """operand or memory load"""
        if self.is_mem(s):
            d = self.tmp()
            tt = self.loadv(s, d)
            return [('r', x) for x in self.dsts(d, tt)]
        return self.op(s, t)

    def gety(self, s):
        if self.is_mem(s):
            s = s.strip()
            if s.startswith('*'):
                return self.ptrto[re.sub(r'_\d+(\(D\))?$', '', s[1:])]
            if s.startswith('MEM'):
                m = re.match(r'MEM(?: <(%s)>)? ?\[\((%s)' % (TYRE, TYRE), s)
                return TYPES[m.group(1) or m.group(2)]
            vt = self.vt[s.split('[')[0]]
            return vt[1] if isinstance(vt, tuple) else vt
        return self.tyof(s)

    def rhs(self, s, d, t):
        s = s.strip()
        m = re.fullmatch(r'\(\((.*)\)\)', s)
        if m and self.tyof(m.group(1)) is not None:
            return self.copy(d, t, self.op(m.group(1), t))
        m = re.fullmatch(r'(ABS_EXPR|REALPART_EXPR|IMAGPART_EXPR|CONJ_EXPR|MAX_EXPR|MIN_EXPR|COMPLEX_EXPR) <(.*)>', s)
        if m:
            a = split_args(m.group(2))
            k = m.group(1)
            if k == 'COMPLEX_EXPR':
                self.copy([d[0]], [t[0]], self.getv(a[0], [t[0]]))
                return self.copy([d[1]], [t[1]], self.getv(a[1], [t[1]]))
            if k in ('REALPART_EXPR', 'IMAGPART_EXPR'):
                if self.is_mem(a[0]):
                    p, tt = self.addr(a[0])
                    if k[0] == 'I':
                        q = self.tmp()
                        self.emit(('gep', q, p, size_of(tt[0]), []))
                        p = ('r', q)
                    self.emit(('load', tt[0], d[0], p))
                    return
                v = self.op(a[0])
                return self.copy(d, t, [v[0 if k[0] == 'R' else 1]])
            if k == 'CONJ_EXPR':
                v = self.op(a[0], t)
                self.copy([d[0]], [t[0]], [v[0]])
                self.emit(('fneg', t[1], d[1], v[1]))
                return
            if k == 'ABS_EXPR':
                v = self.getv(a[0], t)
                if t[0][0] == 'f':
                    self.emit(('call', 'fabs.' + t[0], [d[0]], t, v, t, {}))
                else:
                    raise ParseError('int abs')
                return
            x, y = self.getv(a[0], t)[0], self.getv(a[1], t)[0]
            c = self.tmp()
            if t[0][0] == 'f':
                self.emit(('fcmp', 'ogt' if k == 'MAX_EXPR' else 'olt', t[0], c, x, y))
            else:
                self.emit(('icmp', 'sgt' if k == 'MAX_EXPR' else 'slt', t[0], c, x, y))
            self.emit(('select', t[0], d[0], ('r', c), x, y))
            return
        m = re.fullmatch(r'\((%s)\) (.*)' % TYRE, s)
        if m:
            src = self.tyof(m.group(2))
            v = self.getv(m.group(2), src)
            ft, tt = src[0], t[0]
            if ft == tt:
                return self.copy(d, t, v)
            w = lambda x: int(x[1:])
            if ft[0] == 'i' and tt[0] == 'i':
                op = 'trunc' if w(tt) < w(ft) else ('zext' if ft == 'i1' else 'sext')
            elif ft[0] == 'i':
                op = 'uitofp' if ft == 'i1' else 'sitofp'
            elif tt[0] == 'i':
                op = 'fptosi'
            else:
                op = 'fpext' if w(tt) > w(ft) else 'fptrunc'
            for j in range(len(t)):
                self.emit(('cast', op, src[j], t[j], d[j], v[j]))
            return
        m = re.fullmatch(r'(\S+) \? (\S+) : (\S+)', s)
        if not m:
            m2 = re.fullmatch(r'(.*?) \? (.*) : (.*)', s)
            m = m2
        if m:
            c = self.tmp()
            if self.tyof(m.group(1)) == ['i1']:
                cc = self.op(m.group(1))[0]
            else:
                self.rhs(m.group(1), [c], ['i1'])
                cc = ('r', c)
            x, y = self.op(m.group(2), t), self.op(m.group(3), t)
            for j in range(len(t)):
                self.emit(('select', t[j], d[j], cc, x[j], y[j]))
            return
        if re.match(r'[A-Za-z_]\w* \(', s) and not s.startswith('__complex__'):
            return self.call(s, d, t)
        # binary
        for m in re.finditer(r' (\+|-|\*|/|%|&|\||\^|<<|>>|==|!=|<=|>=|<>|<|>|u<=|u>=|u<|u>|u==|unord|ord|unlt|unle|ungt|unge|uneq|ltgt) ', s):
            a, o, b = s[:m.start()], m.group(1), s[m.end():]
            if a.count('(') != a.count(')') or a.count('[') != a.count(']') or a.count('<') != a.count('>') and o not in ('<', '>', '<=', '>='):
                continue
            return self.binary(o, a, b, d, t)
        if s.startswith('-') and not re.match(r'-[\d.]', s):
            v = self.getv(s[1:], t)
            for j in range(len(t)):
                if t[j][0] == 'f':
                    self.emit(('fneg', t[j], d[j], v[j]))
                else:
                    self.emit(('bin', 'sub.nsw', t[j], d[j], ('i', int(t[j][1:]), 0), v[j]))
            return
        if s.startswith('~'):
            v = self.op(s[1:], t)
            w = int(t[0][1:])
            self.emit(('bin', 'xor', t[0], d[0], v[0], ('i', w, (1 << w) - 1)))
            return
        return self.copy(d, t, self.getv(s, t))

    def binary(self, o, a, b, d, t):
        ta, tb = self.gety(a), self.gety(b)
        tt = ta if ta is not None else tb
        if tt is None:
            raise ParseError('two literals')
        if o in CMPF and (o in CMPI or o not in BINI):
            va, vb = self.getv(a, tt), self.getv(b, tt)
            if len(tt) == 2:
                c = [self.tmp(), self.tmp()]
                for j in range(2):
                    self.emit(('fcmp', CMPF[o], tt[j], c[j], va[j], vb[j]))
                self.emit(('bin', 'and' if o == '==' else 'or', 'i1', d[0], ('r', c[0]), ('r', c[1])))
                return
            if tt[0][0] == 'f':
                self.emit(('fcmp', CMPF[o], tt[0], d[0], va[0], vb[0]))
            else:
                self.emit(('icmp', CMPI[o], tt[0], d[0], va[0], vb[0]))
            return
        va, vb = self.getv(a, tt), self.getv(b, tt)
        if tt[0][0] != 'f':
            op = BINI[o] + ('.nsw' if o in '+-*' else '')
            self.emit(('bin', op, tt[0], d[0], va[0], vb[0]))
            return
        if len(tt) == 1:
            self.emit(('bin', BINF[o], tt[0], d[0], va[0], vb[0]))
            return
        ty = tt[0]
        if o in '+-':
            for j in range(2):
                self.emit(('bin', BINF[o], ty, d[j], va[j], vb[j]))
        elif o == '*':
            q = [self.tmp() for _ in range(4)]
            self.emit(('bin', 'fmul', ty, q[0], va[0], vb[0]))
            self.emit(('bin', 'fmul', ty, q[1], va[1], vb[1]))
            self.emit(('bin', 'fmul', ty, q[2], va[0], vb[1]))
            self.emit(('bin', 'fmul', ty, q[3], va[1], vb[0]))
            self.emit(('bin', 'fsub', ty, d[0], ('r', q[0]), ('r', q[1])))
            self.emit(('bin', 'fadd', ty, d[1], ('r', q[2]), ('r', q[3])))
        elif o == '/':
            self.emit(('call', '__cdiv' + ty, list(d), [ty, ty], va + vb, [ty] * 4, {}))
        else:
            raise ParseError('complex op ' + o)

    def call(self, s, d, t):
        m = re.fullmatch(r'([A-Za-z_]\w*) \((.*)\)(?: \[.*\])?', s)
        fn, args = m.group(1), split_args(m.group(2))
        name = BUILTIN.get(fn, fn)
        vals, tys = [], []
        for a in args:
            if a.startswith('&'):
                vals.append(self.addr(a[1:])[0])
                tys.append('ptr')
                continue
            ta = self.tyof(a)
            if ta == 'ptr':
                vals += self.op(a)
                tys.append('ptr')
                continue
            if ta is None:
                ta = ['i32'] if (fn == '__builtin_powi' and a is args[-1]) else ([t[0]] if not a.startswith('__complex__') else [t[0]] * 2)
            vals += self.op(a, ta)
            tys += ta
        if fn.endswith('f') and fn[:-1] in BUILTIN:
            name = BUILTIN[fn[:-1]] + 'f'
        if name == 'fabs':
            name = 'fabs.' + t[0]
        if name == 'copysign':
            name = 'copysign.' + t[0]
        rts = t if t is not None else (self.sigs.get(fn, ([], []))[0] or [])
        self.emit(('call', name, list(d) if d else [None] * len(rts), list(rts), vals, tys, {}))


def parse_gimple(text):
    g = G(text)
    for f in g.mod.funcs.values():
        for b in f.blocks.values():
            for k, i in enumerate(b):
                if i[0] == 'switch' and isinstance(i[3], str) and i[3].startswith('<'):
                    b[k] = ('switch', i[1], i[2], g.labels[i[3]], [(v, g.labels[l]) for v, l in i[4]])
    return g.mod

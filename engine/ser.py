"""Serialise an ir.Module for the C++ Taylor-model engine (tmx)."""
import re


def _op(o, R, G):
    k = o[0]
    if k == 'r':
        return 'r%d' % R(o[1])
    if k == 'f':
        return 'f%s:%x' % (o[1], o[2])
    if k == 'i':
        return 'i%d:%d' % (o[1], o[2])
    if k == 'g':
        return 'g%d:%d' % (G(o[1]), o[2])
    return 'u'


def _name(s):
    return re.sub(r'\s', '_', s) or '_'


def serialise(mod):
    gnames, out = {}, []

    def G(n):
        if n not in gnames:
            gnames[n] = len(gnames)
        return gnames[n]
    for n in mod.globals:
        G(n)
    body = []
    for f in mod.funcs.values():
        regs, labs = {}, {}

        def R(x):
            return regs.setdefault(x, len(regs))
        for i, l in enumerate(f.order):
            labs[l] = i

        def L(x):
            return labs[x]

        def O(x):
            return _op(x, R, G)
        lines = []
        pregs = ['%d %s %d' % (R(r), t, f.byval.get(i, 0)) for i, (r, t) in enumerate(f.params)]
        for l in f.order:
            lines.append('B')
            for i in f.blocks[l]:
                o = i[0]
                if o == 'bin':
                    t = 'bin %s %s %d %s %s' % (i[1].split('.')[0], i[2], R(i[3]), O(i[4]), O(i[5]))
                elif o == 'fneg':
                    t = 'fneg %s %d %s' % (i[1], R(i[2]), O(i[3]))
                elif o == 'copy':
                    t = 'copy %s %d %s' % (i[1], R(i[2]), O(i[3]))
                elif o in ('fcmp', 'icmp'):
                    t = '%s %s %s %d %s %s' % (o, i[1], i[2], R(i[3]), O(i[4]), O(i[5]))
                elif o == 'cast':
                    t = 'cast %s %s %s %d %s' % (i[1], i[2], i[3], R(i[4]), O(i[5]))
                elif o == 'select':
                    t = 'select %s %d %s %s %s' % (i[1], R(i[2]), O(i[3]), O(i[4]), O(i[5]))
                elif o == 'phi':
                    t = 'phi %s %d %d %s' % (i[1], R(i[2]), len(i[3]), ' '.join('%s %d' % (O(v), L(l2)) for v, l2 in i[3]))
                elif o == 'br':
                    t = 'br %d' % L(i[1])
                elif o == 'cbr':
                    t = 'cbr %s %d %d' % (O(i[1]), L(i[2]), L(i[3]))
                elif o == 'switch':
                    t = 'switch %s %s %d %d %s' % (i[1], O(i[2]), L(i[3]), len(i[4]),
                                                   ' '.join('%d %d' % (v, L(l2)) for v, l2 in i[4]))
                elif o == 'ret':
                    t = 'ret %d %s' % (len(i[1]), ' '.join(O(v) for v in i[1]))
                elif o == 'unreachable':
                    t = 'unreachable'
                elif o == 'call':
                    t = 'call %s %d %s %d %s' % (
                        _name(i[1]), len(i[2]), ' '.join('%d %s' % (R(d), ty) for d, ty in zip(i[2], i[3])),
                        len(i[4]), ' '.join('%s %s' % (O(a), ty) for a, ty in zip(i[4], i[5])))
                elif o == 'alloca':
                    t = 'alloca %d %d' % (R(i[1]), i[2])
                elif o == 'load':
                    t = 'load %s %d %s' % (i[1], R(i[2]), O(i[3]))
                elif o == 'store':
                    t = 'store %s %s %s' % (i[1], O(i[2]), O(i[3]))
                elif o == 'gep':
                    t = 'gep %d %s %d %d %s' % (R(i[1]), O(i[2]), i[3], len(i[4]),
                                                ' '.join('%s %d %d' % (O(v), w, s) for v, w, s in i[4]))
                elif o == 'memcpy':
                    t = 'memcpy %s %s %s' % (O(i[1]), O(i[2]), O(i[3]))
                elif o == 'memset':
                    t = 'memset %s %s %s' % (O(i[1]), O(i[2]), O(i[3]))
                else:
                    t = 'unsupported ' + _name(str(i[1:]))
                lines.append(t)
        body.append('F %s %d %d %d %d %s' % (_name(f.name), len(f.params), len(regs), len(f.order),
                                             labs[f.entry], ' '.join(pregs)))
        body += lines
        body.append('E')
    for n, (size, cells, const) in mod.globals.items():
        out.append('G %d %d %d %s' % (size, 1 if const else 0, len(cells),
                                      ' '.join('%d %s %s' % (o, ty, _op(v, None, G)) for o, ty, v in cells)))
    for n, k in list(gnames.items()):
        if n not in mod.globals:
            out.append('G 0 0 0')          # extern
    return '\n'.join(out + body) + '\n'

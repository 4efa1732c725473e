"""Abstract values.  A value is one of
   Lin                                integer
   True / False / condition           boolean; conditions: ('ge',l) ('eq',l) ('ne',l) ('and',a,b) ('or',a,b)
   ('agg', variant, fields)           struct, tuple, closure, enum with a known variant
   ('ptr', region, path, meta)        pointer; path: field numbers, ('i', Lin) element, ('b', Lin) byte; meta: Lin or None
   ('fn', id) / ('clo', id)           function item or pointer / non-capturing closure turned into a pointer
   ('tok', ...)                       opaque value of the item type, by origin
   ('zero',) ('undef',)               zero bytes; uninitialised
   ('seq', len, base, log)            array or slice memory
   ('bits', (b0, .., b7))             byte with known bit structure (least significant first)
   ('op', name, ...)                  opaque foreign value (waker, file descriptor, ...)"""
from lin import Lin, const, atom, ZERO, ONE, subst_any

UNIT = ('agg', 0, ())
UNDEF = ('undef',)
ZEROV = ('zero',)
CONDS = ('ge', 'eq', 'ne', 'and', 'or')


class Unsupported(Exception):
    def __init__(self, msg, where=''):
        super().__init__(msg)
        self.msg, self.where = msg, where


def is_cond(v):
    return v is True or v is False or (isinstance(v, tuple) and bool(v) and v[0] in CONDS)


def tag(v):
    if isinstance(v, Lin):
        return 'int'
    if v is True or v is False:
        return 'bool'
    return v[0]


def cge(l):
    return l.c >= 0 if not l.t else ('ge', l)


def ceq(l):
    return l.c == 0 if not l.t else ('eq', l)


def cne(l):
    return l.c != 0 if not l.t else ('ne', l)


def cnot(c):
    if c is True:
        return False
    if c is False:
        return True
    k = c[0]
    if k == 'ge':
        return ('ge', -c[1] - 1)
    if k == 'eq':
        return ('ne', c[1])
    if k == 'ne':
        return ('eq', c[1])
    if k == 'and':
        return cor(cnot(c[1]), cnot(c[2]))
    return cand(cnot(c[1]), cnot(c[2]))


def cand(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return ('and', a, b) if a != b else a


def cor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return ('or', a, b) if a != b else a


def bits_of(n, w=8):
    return ('bits', tuple(bool(n >> i & 1) for i in range(w)))


def bits_const(v):
    n = 0
    for i, b in enumerate(v[1]):
        if b is True:
            n |= 1 << i
        elif b is not False:
            return None
    return n


def ptr(region, path=(), meta=None):
    return ('ptr', region, tuple(path), meta)


def seq(length, base, log=()):
    return ('seq', length, base, tuple(log))


def agg(*fields, variant=0):
    return ('agg', variant, tuple(fields))


def none():
    return ('agg', 0, ())


def some(v):
    return ('agg', 1, (v,))


def okv(v):
    return ('agg', 0, (v,))


def errv(v):
    return ('agg', 1, (v,))


def vstr(v, depth=0):
    if isinstance(v, (Lin, bool)):
        return str(v)
    if not isinstance(v, tuple) or not v:
        return str(v)
    if depth > 5:
        return '..'
    t = v[0]
    if t == 'agg':
        return f"{v[1]}({', '.join(vstr(x, depth + 1) for x in v[2])})"
    if t == 'ptr':
        return f"&r{v[1]}{''.join('.' + vstr(x, depth + 1) if not isinstance(x, tuple) else f'[{x[1]}]' if x[0] == 'i' else f'<{x[1]}>' for x in v[2])}" + (f' x {v[3]}' if v[3] is not None else '')
    if t == 'tok':
        return 'tok:' + ':'.join(vstr(x, depth + 1) for x in v[1:])
    if t == 'seq':
        return f"seq(len {v[1]}, {vstr(v[2], depth + 1)}, {[vstr(e, depth + 1) for e in v[3]]})"
    return '(' + ' '.join(vstr(x, depth + 1) for x in v) + ')'

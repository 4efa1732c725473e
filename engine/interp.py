"""Abstract interpretation of the dumped MIR: forward, interprocedural, trace-partitioned; loops by induction."""
import re
import lin
from lin import Lin, const, atom, ZERO, ONE, mul, subst, subst_any, entails, entails_eq, refutes, UMAX
from values import *

DEBUG = False
MAXPATHS = 4000
FRESH = 'fresh'


class St:
    """One abstract state: memory, linear constraints, effects so far, and the bookkeeping of the protocol."""
    __slots__ = ('mem', 'cs', 'ev', 'x', 'freed')

    def __init__(self):
        self.mem, self.cs, self.ev, self.x, self.freed = {}, (), (), {}, frozenset()

    def copy(self):
        s = St.__new__(St)
        s.mem, s.cs, s.ev, s.x, s.freed = dict(self.mem), self.cs, self.ev, dict(self.x), self.freed
        return s

    def event(self, *e):
        self.ev = self.ev + (e,)


class NonInductive(Exception):
    pass


class Types:
    def __init__(self, dump):
        self.t = dump['types']
        self._z, self._n = {}, {}

    def __getitem__(self, i):
        return self.t[i]

    def zst(self, i):
        r = self._z.get(i)
        if r is None:
            self._z[i] = False      # recursion: not a ZST
            r = self._z[i] = self._zst(i)
        return r

    def _zst(self, i):
        t = self.t[i]
        k = t['k']
        if k in ('tuple', 'closure'):
            return all(self.zst(x) for x in t['elts'])
        if k in ('fndef', 'never'):
            return True
        if k == 'array':
            return self.zst(t['elt']) or t['len'].get('v') == '0'
        if k == 'adt':
            if t['phantom']:
                return True
            if t['enum']:
                return len(t['variants']) <= 1 and all(self.zst(f['ty']) for v in t['variants'] for f in v['fields'])
            return all(self.zst(f['ty']) for f in t['variants'][0]['fields'])
        return False

    def newtype(self, i):
        """The only field which takes space, or None."""
        if i in self._n:
            return self._n[i]
        t = self.t[i]
        r = None
        if t['k'] == 'adt' and not t['enum'] and not t['phantom']:
            fs = [f['ty'] for f in t['variants'][0]['fields']]
        elif t['k'] in ('tuple', 'closure'):
            fs = t['elts']
        else:
            fs = []
        nz = [j for j, f in enumerate(fs) if not self.zst(f)]
        if len(nz) == 1 and not self.native_adt(t):
            r = nz[0]
        self._n[i] = r
        return r

    @staticmethod
    def native_adt(t):
        return t['k'] == 'adt' and t['path'] in NATIVE_ADTS

    def strip(self, i):
        """The type below all newtypes."""
        while True:
            t = self.t[i]
            if t['k'] == 'pat':
                i = t['base']
                continue
            n = self.newtype(i)
            if n is None:
                return i
            i = (t['variants'][0]['fields'][n]['ty'] if t['k'] == 'adt' else t['elts'][n])

    def kind(self, i):
        return self.t[self.strip(i)]['k']

    def pointee(self, i):
        t = self.t[i]
        if t['k'] in ('ptr', 'ref'):
            return t['to']
        if t['k'] == 'adt' and t['box']:
            return t['args'][0]
        s = self.strip(i)
        if s != i:
            return self.pointee(s)
        return None

    def size(self, i):
        t = self.t[i]
        k = t['k']
        if k == 'int':
            return const(t['bits'] // 8)
        if k == 'bool':
            return ONE
        if k == 'char':
            return const(4)
        if k == 'param':
            return atom('size' + t['name'])
        if k == 'array':
            return mul(tcon(t['len']), self.size(t['elt']))
        if self.zst(i):
            return ZERO
        if k in ('ptr', 'ref', 'fnptr'):
            to = self.t[self.strip(t['to'])]['k'] if k != 'fnptr' else ''
            return const(16 if to in ('slice', 'str', 'dyn') else 8)
        n = self.newtype(i)
        if n is not None:
            return self.size(t['variants'][0]['fields'][n]['ty'] if k == 'adt' else t['elts'][n])
        return atom(('nat', 'size', t['str']))


NATIVE_ADTS = {'alloc::vec::Vec', 'core::slice::Iter', 'core::slice::IterMut', 'core::array::IntoIter', 'alloc::vec::IntoIter',
               'core::task::Waker', 'core::task::Context', 'core::fmt::Arguments', 'core::task::RawWaker'}


def tcon(c):
    if c['k'] == 'int':
        return const(int(c['v']))
    if c['k'] == 'param':
        return atom(c['name'])
    raise Unsupported('constant ' + str(c))


def unwind_to(t):
    """Where a panic inside the call or drop goes (-1: on to the caller, -2: the program ends)"""
    if t[0] == 'call':
        return t[7] if len(t) > 7 else -1
    if t[0] == 'drop':
        return t[5] if len(t) > 5 else -1
    return -1


class Body:
    """Control-flow facts of one body: natural loops and liveness at their headers."""

    def __init__(self, fn):
        self.blocks = fn['blocks']
        self.succ = [self.succs(b['t']) for b in self.blocks]
        self.unwind = [unwind_to(b['t']) for b in self.blocks]
        self.loops = self.find_loops()
        self.live = self.liveness() if self.loops else None
        self.addr = self._addr

    @staticmethod
    def succs(t):
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[3]] + [t[4]]
        if k == 'drop':
            return [t[3]]
        if k == 'assert':
            return [t[4]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        return []

    def find_loops(self):
        n = len(self.blocks)
        order, seen = [], set()
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    stack.append((x, iter(self.succ[x])))
                    break
            else:
                order.append(b)
                stack.pop()
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        pred = {b: [] for b in rpo}
        for b in rpo:
            for x in self.succ[b]:
                pred[x].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while num[a] > num[c]:
                                    a = idom[a]
                                while num[c] > num[a]:
                                    c = idom[c]
                            new = a
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for x in self.succ[b]:
                if num.get(x, n) <= num[b]:
                    if not dom(x, b):
                        raise Unsupported('irreducible control flow')
                    body = loops.setdefault(x, {x})
                    work = [b]
                    while work:
                        y = work.pop()
                        if y not in body:
                            body.add(y)
                            work.extend(pred[y])
        self._addr = set()
        return loops

    def liveness(self):
        addr = self._addr
        use, de = [], []

        def places(x, out):
            if isinstance(x, list):
                if len(x) == 2 and x[0] in ('c', 'm') and isinstance(x[1], list):
                    out.append(x[1])
                else:
                    for y in x:
                        places(y, out)
        for b in self.blocks:
            u, d = set(), set()

            def used(p):
                if p[0] not in d:
                    u.add(p[0])
                for e in p[1]:
                    if e[0] == 'i' and e[1] not in d:
                        u.add(e[1])

            def assigned(p):
                if not p[1]:
                    d.add(p[0])
                else:
                    used(p)
            for s in b['s']:
                if s[0] == '=':
                    rv = s[2]
                    if rv[0] in ('ref', 'raw'):
                        if not any(e[0] == 'd' for e in rv[2][1]):
                            addr.add(rv[2][0])
                        used(rv[2])
                    elif rv[0] == 'discr':
                        used(rv[1])
                    else:
                        o = []
                        places(rv, o)
                        for p in o:
                            used(p)
                    assigned(s[1])
                elif s[0] == 'sd':
                    used(s[1])
                elif s[0] == 'dead' or s[0] == 'live':
                    d.add(s[1])
                else:
                    o = []
                    places(s[1:], o)
                    for p in o:
                        used(p)
            t = b['t']
            if t[0] == 'switch':
                o = []
                places([t[1]], o)
                for p in o:
                    used(p)
            elif t[0] == 'drop':
                used(t[1])
                addr.add(t[1][0])
            elif t[0] == 'assert':
                o = []
                places([t[1]], o)
                for p in o:
                    used(p)
            elif t[0] == 'call':
                o = []
                places([t[1]] if isinstance(t[1], list) else [], o)
                places(t[2], o)
                for p in o:
                    used(p)
                assigned(t[3])
            elif t[0] == 'return':
                u.add(0) if 0 not in d else None
            use.append(u)
            de.append(d)
        live = [set() for _ in self.blocks]
        ch = True
        while ch:
            ch = False
            for i in range(len(self.blocks) - 1, -1, -1):
                out = set()
                for x in self.succ[i]:
                    out |= live[x]
                if self.unwind[i] >= 0:
                    out |= live[self.unwind[i]]
                n = use[i] | (out - de[i])
                if n != live[i]:
                    live[i] = n
                    ch = True
        return live


class Frame:
    __slots__ = ('fn', 'base', 'body', 'fid')

    def __init__(self, fn, base, body, fid):
        self.fn, self.base, self.body, self.fid = fn, base, body, fid


class Interp:
    def __init__(self, dump, natives, hooks=None):
        self.d = dump
        self.F = dump['fns']
        self.T = Types(dump)
        self.natives = natives
        self.bodies = {}
        self.hooks = hooks
        self.reset()

    def reset(self):
        self.nreg = 1000
        self.nfresh = 0
        self.abnormal = []      # (kind, state, where, message)
        self.stack = []         # (path, call line)
        self.line = '?'
        self.paths = 0
        self.rname = {}
        self.loopvars = []
        self.loopmarks = []
        self.calls = set()
        self.loops_seen = []
        self.unwinding = False  # follow panics out of the items' own code?
        self.ustack = []        # (frame, unwind target) of the calls under way
        self.unwound = []       # states in which a panic leaves the entry point
        self.broken = []        # abnormal ends of clean-up code
        self.unfollowed = 0
        self.inductive = 0

    # --- small helpers ---------------------------------------------------------------------------------------

    def fresh(self, p):
        self.nfresh += 1
        return f'{p}#{self.nfresh}'

    def nat(self, st, p, hi=UMAX):
        a = atom(self.fresh(p))
        st.cs = st.cs + (a, const(hi) - a)
        return a

    def new_region(self, st, v, name=''):
        self.nreg += 1
        st.mem[self.nreg] = v
        self.rname[self.nreg] = name
        return self.nreg

    def where(self):
        """The innermost line of the crate under analysis."""
        for path, line in [(None, self.line)] + self.stack[::-1]:
            if line and '/src/' in line and 'rustlib' not in line and '.cargo' not in line and '/probe' not in line and 'roots.rs' not in line and 'models.rs' not in line:
                return line
        return self.line

    def chain(self):
        return [f'{p} (called at {l})' for p, l in self.stack]

    def bad(self, kind, st, msg):
        self.abnormal.append((kind, st, self.where(), msg, tuple(p for p, _ in self.stack[-6:])))

    def assume(self, st, c, want=True):
        """The states in which the condition has the given value (st is consumed)."""
        if c is True or c is False:
            return [st] if c == want else []
        if not want:
            c = cnot(c)
            if c is True or c is False:
                return [st] if c else []
        k = c[0]
        if k == 'ge':
            return [st] if self.add(st, c[1]) else []
        if k == 'eq':
            return [st] if self.add(st, c[1]) and self.add(st, -c[1]) else []
        if k == 'ne':
            l = c[1]
            if entails(st.cs, l):
                return [st] if self.add(st, l - 1) else []
            if entails(st.cs, -l):
                return [st] if self.add(st, -l - 1) else []
            s2 = st.copy()
            r = []
            if self.add(st, l - 1):
                r.append(st)
            if self.add(s2, -l - 1):
                r.append(s2)
            return r
        if k == 'and':
            r = []
            for s in self.assume(st, c[1]):
                r += self.assume(s, c[2])
            return r
        if k == 'or':
            s2 = st.copy()
            r = self.assume(st, c[1])
            for s in self.assume(s2, cnot(c[1])):
                r += self.assume(s, c[2])
            return r
        raise Unsupported('condition ' + str(c))

    def add(self, st, l):
        """Adds l >= 0; False when the state becomes empty."""
        if not l.t:
            return l.c >= 0
        if entails(st.cs, l):
            return True
        if refutes(st.cs, [l]):
            return False
        st.cs = st.cs + (lin.tighten(l),)
        for a, _ in l.t:
            if isinstance(a, tuple) and a[0] == 'byte':
                if not self.learn_byte(st, a):
                    return False
            elif isinstance(a, tuple) and a[0] == 'div':
                # a / b is nothing exactly when a < b
                if entails(st.cs, -atom(a)):
                    if not self.add(st, a[2] - a[1] - 1):
                        return False
                elif entails(st.cs, atom(a) - 1):
                    if not self.add(st, a[1] - a[2]):
                        return False
        return True

    def is_zeroed(self, st, tok):
        """Condition under which all bytes of a value are zero; only slots of the buffer may be empty."""
        if tok[1] != 'slot' or st.x.get('occ'):
            return False
        return ('ge', zeroed(tok) - 1)

    def learn_byte(self, st, a):
        if entails(st.cs, atom(a) - 1):
            z = zeroed(a[1])
            return self.add(st, -z)
        return True

    def learn_product(self, st, a):
        """A product of positive numbers is as large as each of them."""
        done = st.x.get('products', frozenset())
        if a in done or not all(entails(st.cs, atom(f) - 1) for f in a[1:]):
            return
        st.x['products'] = done | {a}
        for f in a[1:]:
            w = atom(a) - atom(f)
            if not entails(st.cs, w):
                st.cs = st.cs + (w,)

    def decide(self, st, c):
        if c is True or c is False:
            return c
        k = c[0]
        if k in ('ge', 'eq', 'ne'):
            for a, _ in c[1].t:
                if isinstance(a, tuple) and a[0] == 'mul':
                    self.learn_product(st, a)
        if k == 'ge':
            if entails(st.cs, c[1]):
                return True
            if refutes(st.cs, [c[1]]):
                return False
            return None
        if k == 'eq':
            if entails_eq(st.cs, c[1]):
                return True
            if refutes(st.cs, [c[1], -c[1]]):
                return False
            return None
        if k == 'ne':
            r = self.decide(st, ('eq', c[1]))
            return None if r is None else not r
        if k == 'and':
            a, b = self.decide(st, c[1]), self.decide(st, c[2])
            if a is False or b is False:
                return False
            return True if a and b else None
        a, b = self.decide(st, c[1]), self.decide(st, c[2])
        if a is True or b is True:
            return True
        return False if a is False and b is False else None

    def split(self, st, c):
        """[(state, bool)] for a condition; st is consumed."""
        r = self.decide(st, c)
        if r is not None:
            return [(st, r)]
        s2 = st.copy()
        return [(s, True) for s in self.assume(st, c, True)] + [(s, False) for s in self.assume(s2, c, False)]

    # --- sequences ---------------------------------------------------------------------------------------------

    def seq_base(self, st, sq, idx):
        b = sq[2]
        if b == 'undef':
            return UNDEF
        if b == 'zero':
            return ZEROV
        if b[0] == 'sym':
            return ('tok', b[1], idx)
        if b[0] == 'undef':
            return UNDEF
        if b[0] == 'rep':
            return b[1]
        if b[0] == 'gen':
            return subst_any(b[2], {b[1]: idx})
        raise Unsupported('sequence base ' + str(b))

    def seq_read(self, st, sq, idx, upto=None):
        """[(state, value)] of an element."""
        log = sq[3] if upto is None else sq[3][:upto]
        for n in range(len(log) - 1, -1, -1):
            e = log[n]
            if e[0] == 'w':
                d = idx - e[1]
                r = self.decide(st, ceq(d))
                if r is True:
                    return [(st, e[2])]
                if r is False:
                    continue
                out = []
                s2 = st.copy()
                for s in self.assume(st, ('eq', d)):
                    out.append((s, e[2]))
                for s in self.assume(s2, ('ne', d)):
                    out += self.seq_read(s, sq, idx, n)
                return out
            # range entries: position a + s*k for 0 <= k < count
            if e[0] == 'lw':
                _, kv, count, pos, alts = e
                s_ = pos.coef(kv)
                a = pos - Lin(((kv, s_),), 0)
                k = (idx - a).scale(s_)
            elif e[0] == 'c':
                _, lo, count, src, slo = e
                k = idx - lo
            inside = cand(cge(k), cge(count - k - 1))
            out = []
            for s, r in self.split(st.copy(), inside):
                if not r:
                    out += self.seq_read(s, sq, idx, n)
                elif e[0] == 'c':
                    out += self.seq_read(s, src, slo + k)
                else:
                    for conds, val in alts:
                        s2 = s.copy()
                        ok = True
                        for c in conds:
                            if not self.add(s2, subst(c, {kv: k})):
                                ok = False
                                break
                        if not ok:
                            continue
                        if val is None:
                            out += self.seq_read(s2, sq, idx, n)
                        else:
                            out.append((s2, subst_any(val, {kv: k})))
            return out
        return [(st, self.seq_base(st, sq, idx))]

    # --- memory --------------------------------------------------------------------------------------------------

    def walk(self, st, v, path, n=0):
        while n < len(path):
            e = path[n]
            if isinstance(e, int):
                if v[0] == 'agg':
                    if e >= len(v[2]):
                        raise Unsupported(f'no field {e} in {vstr(v)}', self.line)
                    v = v[2][e]
                elif v[0] in ('undef', 'zero'):
                    pass
                else:
                    raise Unsupported(f'field {e} of {vstr(v)}', self.line)
            elif e[0] == 'i':
                if isinstance(v, Lin) or v[0] not in ('seq',):
                    if e[1] == ZERO:        # pointer to a single object seen as an array of one
                        n += 1
                        continue
                    if not isinstance(v, Lin) and v[0] in ('undef', 'zero'):
                        n += 1
                        continue
                    raise Unsupported(f'element {e[1]} of {vstr(v)}', self.line)
                out = []
                for s, idx in self.elem_index(st, v, e[1]):
                    for s2, x in self.seq_read(s, v, idx):
                        out += self.walk(s2, x, path, n + 1)
                return out
            elif e[0] == 'b':
                return [(st, self.byte(st, v, e[1]))]
            n += 1
        return [(st, v)]

    def elem_index(self, st, sq, idx):
        """Resolves an index into the mirrored half of a doubly mapped sequence."""
        if isinstance(sq[2], tuple) and sq[2][-1] == 'mirror':
            out = []
            for s, r in self.split(st, cge(idx - sq[1])):
                out.append((s, idx - sq[1] if r else idx))
            return out
        return [(st, idx)]

    def byte(self, st, v, off):
        if v == ZEROV:
            return ZERO
        if isinstance(v, tuple) and v[0] == 'tok':
            z = zeroed(v)
            if entails(st.cs, z - 1):
                return ZERO
            return atom(('byte', v, off))
        raise Unsupported(f'byte of {vstr(v)}', self.line)

    def as_byte(self, st, v, ty):
        """An item is seen through a pointer to bytes: its first byte."""
        if isinstance(v, tuple) and (v == ZEROV or v[0] == 'tok') and self.T.kind(ty) == 'int' and self.T.size(ty) == ONE:
            return self.byte(st, v, ZERO)
        return v

    def alive(self, st, region):
        if region in st.freed:
            self.bad('ub', st, 'memory is accessed after it has been freed')
            return False
        if region not in st.mem:
            self.bad('ub', st, f'memory which no longer exists is accessed ({self.rname.get(region)})')
            return False
        return True

    def load(self, st, p, plain=True):
        """[(state, value)] read through a pointer; st is consumed."""
        if not (isinstance(p, tuple) and p[0] == 'ptr'):
            if isinstance(p, tuple) and p[0] in ('undef', 'zero') or isinstance(p, Lin):
                self.bad('ub', st, f'an invalid pointer is dereferenced ({vstr(p)})')
                return []
            raise Unsupported(f'read through {vstr(p)}', self.line)
        if p[1] == 'unit':
            return [(st, UNIT)]
        if not self.alive(st, p[1]):
            return []
        if self.hooks:
            r = self.hooks.on_load(self, st, p, plain)
            if r is not None:
                return r
        return self.walk(st, st.mem[p[1]], p[2])

    def update(self, st, v, path, new, n=0):
        """[(state, updated value)]"""
        if n == len(path):
            return [(st, new)]
        e = path[n]
        if isinstance(e, int):
            if not isinstance(v, Lin) and v[0] in ('undef', 'zero'):
                v = ('agg', 0, (v,) * (e + 1))
            if isinstance(v, Lin) or v[0] != 'agg':
                raise Unsupported(f'store to field {e} of {vstr(v)}', self.line)
            fs = v[2]
            if e >= len(fs):
                fs = fs + (UNDEF,) * (e + 1 - len(fs))
            out = []
            for s, x in self.update(st, fs[e], path, new, n + 1):
                out.append((s, ('agg', v[1], fs[:e] + (x,) + fs[e + 1:])))
            return out
        if e[0] == 'i':
            if isinstance(v, Lin) or v[0] != 'seq':
                if e[1] == ZERO:
                    return self.update(st, v, path, new, n + 1)
                raise Unsupported(f'store to element {e[1]} of {vstr(v)}', self.line)
            out = []
            for s, idx in self.elem_index(st, v, e[1]):
                if n + 1 == len(path):
                    out.append((s, ('seq', v[1], v[2], v[3] + (('w', idx, new),))))
                else:
                    for s2, x in self.seq_read(s, v, idx):
                        for s3, y in self.update(s2, x, path, new, n + 1):
                            out.append((s3, ('seq', v[1], v[2], v[3] + (('w', idx, y),))))
            return out
        if e[0] == 'b' and isinstance(new, Lin):
            raise Unsupported('store of a byte', self.line)
        raise Unsupported(f'store to {vstr(path)}', self.line)

    def store(self, st, p, v, plain=True):
        """[state]; st is consumed."""
        if not (isinstance(p, tuple) and p[0] == 'ptr'):
            if isinstance(p, tuple) and p[0] in ('undef', 'zero') or isinstance(p, Lin):
                self.bad('ub', st, 'an invalid pointer is written through')
                return []
            raise Unsupported(f'write through {vstr(p)}', self.line)
        if p[1] == 'unit':
            return [st]
        if not self.alive(st, p[1]):
            return []
        if self.hooks:
            r = self.hooks.on_store(self, st, p, v, plain)
            if r is not None:
                return r
        out = []
        for s, nv in self.update(st, st.mem[p[1]], p[2], v):
            s.mem[p[1]] = nv
            out.append(s)
        return out

    # --- places and operands -----------------------------------------------------------------------------------

    def place(self, st, fr, pl):
        """[(state, pointer)]; does not consume st unless a pointer has to be read."""
        l, proj, _ = pl
        reg = fr.base + l
        if not proj:
            return [(st, ('ptr', reg, (), None))]
        cur = fr.fn['locals'][l][0]
        return self._place(st, fr, ('ptr', reg, (), None), cur, proj, 0)

    def _place(self, st, fr, p, cur, proj, n):
        T = self.T
        while n < len(proj):
            e = proj[n]
            k = e[0]
            if k == 'd':
                to = T.pointee(cur)
                if to is None:
                    raise Unsupported('dereference of ' + T[cur]['str'], self.line)
                rs = self.load(st, p)
                if len(rs) == 1:
                    st, p = rs[0]
                    p = self.as_ptr(st, p)
                    cur = to
                    n += 1
                    continue
                out = []
                for s, q in rs:
                    out += self._place(s, fr, self.as_ptr(s, q), to, proj, n + 1)
                return out
            if k == 'f':
                nt = T.newtype(cur)
                if nt is not None:
                    if nt != e[1]:
                        p = ('ptr', 'unit', (), None)
                elif p[1] != 'unit':
                    p = ('ptr', p[1], p[2] + (e[1],), p[3] if n == len(proj) - 1 else None)
                cur = e[2]
            elif k == 'v':
                pass
            elif k == 'i':
                (st, idx), = self.load(st, ('ptr', fr.base + e[1], (), None))
                p, cur = self.elem(st, p, cur, idx)
            elif k == 'ci':
                ln = p[3] if p[3] is not None else (tcon(T[cur]['len']) if T[cur]['k'] == 'array' else None)
                p, cur = self.elem(st, p, cur, ln - e[1] if e[3] else const(e[1]))
            elif k == 'ss':
                ln = p[3] if p[3] is not None else tcon(T[cur]['len'])
                hi = ln - e[2] if e[3] else const(e[2])
                q, _ = self.elem(st, p, cur, const(e[1]))
                p = ('ptr', q[1], q[2], hi - e[1])
            else:
                raise Unsupported('projection ' + str(e), self.line)
            n += 1
        return [(st, p)]

    def elem(self, st, p, cur, idx):
        t = self.T[cur]
        if self.T.size(t['elt']) == ONE and not self.T.zst(t['elt']) and (p[2] and not isinstance(p[2][-1], int) and p[2][-1][0] == 'b' or not self.seq_elt_size(st, p, t['elt'])):
            v = self.peek(st, p)
            if v is None or v == ZEROV or isinstance(v, tuple) and v[0] == 'tok':
                # an item seen as bytes
                q = self.ptr_add(st, p, idx, t['elt'])
                return ('ptr', q[1], q[2], None), t['elt']
        if t['k'] == 'slice':
            last = p[2][-1]
            return ('ptr', p[1], p[2][:-1] + (('i', last[1] + idx),), None), t['elt']
        return ('ptr', p[1], p[2] + (('i', idx),), None), t['elt']

    def peek(self, st, p):
        """What a pointer points to, if that is an item (None: within one)."""
        if p[2] and not isinstance(p[2][-1], int) and p[2][-1][0] == 'b':
            return None
        try:
            (_, v), = self.walk(st.copy(), st.mem[p[1]], p[2])
            return v
        except (Unsupported, ValueError, KeyError):
            return UNDEF

    def as_ptr(self, st, v):
        return v

    def operand(self, st, fr, o):
        """[(state, value)]"""
        k = o[0]
        if k in ('c', 'm'):
            out = []
            for s, p in self.place(st, fr, o[1]):
                out += self.load(s, p)
            if o[1][1] and isinstance(o[1][1][-1], list):
                out = [(s, self.as_byte(s, v, o[1][2])) for s, v in out]
            return out
        if k == 'k':
            return self.constant(st, o[1])
        if k == 'rc':
            return [(st, False)]
        raise Unsupported('operand ' + str(o))

    def operands(self, st, fr, os):
        res = [(st, ())]
        for o in os:
            nr = []
            for s, vs in res:
                for s2, v in self.operand(s, fr, o):
                    nr.append((s2, vs + (v,)))
            res = nr
        return res

    def constant(self, st, c):
        k = c['k']
        ty = c.get('ty')
        t = self.T[ty] if ty is not None else None
        if k == 'int':
            n = int(c['v'])
            if t is None:
                return [(st, const(n))]
            tk = self.T.kind(ty)
            if tk == 'bool':
                return [(st, bool(n))]
            return [(st, const(n))]
        if k == 'fn':
            return [(st, ('fn', c['fn']))]
        if k == 'zst':
            if t is not None and t['k'] == 'fndef':
                return [(st, ('fn', t['fn']))]
            if t is not None and t['k'] == 'array':
                return [(st, seq(tcon(t['len']), 'undef'))]
            return [(st, UNIT)]
        if k == 'param':
            return [(st, atom(c['name']))]
        if k == 'agg':
            vs = []
            for f in c['fields']:
                (st, v), = self.constant(st, f)
                vs.append(v)
            return [(st, self.mk_agg(ty, c['variant'] or 0, tuple(vs)))]
        if k == 'ref':
            (st, v), = self.constant(st, c['to'])
            return [(st, ptr(self.new_region(st, v, 'constant')))]
        if k == 'cfn':
            f = self.F[c['fn']]
            nat = self.natives.const(self, st, f, ty)
            if nat is not None:
                return [(st, nat)]
            if 'blocks' not in f:
                raise Unsupported(f"constant {f['path']} ({f.get('leaf')})", self.line)
            return self.exec_fn(st, c['fn'], (), keep=True)
        if k == 'strlit':
            return [(st, ('ptr', self.new_region(st, ('op', 'str'), 'string'), (('i', ZERO),), const(c['len'])))]
        if k == 'opaque' and t is not None:
            if self.T.zst(ty):
                return [(st, UNIT)]
            v = self.natives.opaque_const(self, st, c, ty)
            if v is not None:
                return [(st, v)]
        raise Unsupported(f'constant {c}', self.line)

    def mk_agg(self, ty, variant, vs):
        T = self.T
        t = T[ty]
        if t['k'] == 'array':
            return seq(const(len(vs)), 'undef', tuple(('w', const(i), v) for i, v in enumerate(vs)))
        n = T.newtype(ty)
        if n is not None:
            return vs[n]
        if t['k'] == 'adt' and not t['enum'] and T.zst(ty) and t['path'] not in NATIVE_ADTS:
            return UNIT
        return ('agg', variant, tuple(vs))

    # --- rvalues ---------------------------------------------------------------------------------------------------

    def rvalue(self, st, fr, rv, dty):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fr, rv[1])
        if k in ('ref', 'raw'):
            return self.place(st, fr, rv[2])
        if k == 'bin':
            out = []
            for s, (a, b) in self.operands(st, fr, [rv[2], rv[3]]):
                out += self.binop(s, rv[1], a, b, rv[4])
            return out
        if k == 'un':
            out = []
            for s, a in self.operand(st, fr, rv[2]):
                out += self.unop(s, rv[1], a, rv[3])
            return out
        if k == 'cast':
            out = []
            for s, a in self.operand(st, fr, rv[2]):
                out += self.cast(s, rv[1], a, rv[3], rv[4], rv[5] if len(rv) > 5 else None)
            return out
        if k == 'discr':
            out = []
            for s, p in self.place(st, fr, rv[1]):
                for s2, v in self.load(s, p):
                    out.append((s2, self.discr(v, rv[1][2])))
            return out
        if k == 'agg':
            out = []
            for s, vs in self.operands(st, fr, rv[3]):
                if rv[1] == 'rawptr':
                    p, m = vs
                    if m == UNIT:
                        out.append((s, p))
                    else:
                        out.append((s, self.fat(p, m)))
                elif rv[5] is not None:      # union
                    t = self.T[rv[4]]
                    out.append((s, UNDEF if self.T.zst(t['variants'][0]['fields'][rv[5]]['ty']) else vs[0]))
                else:
                    out.append((s, self.mk_agg(rv[4], rv[2], vs)))
            return out
        if k == 'repeat':
            out = []
            n = tcon(rv[2])
            for s, v in self.operand(st, fr, rv[1]):
                out.append((s, seq(n, ('rep', v))))
            return out
        raise Unsupported('rvalue ' + str(k), self.line)

    def fat(self, p, m):
        """Slice pointer from a pointer to its first element."""
        if not (isinstance(p, tuple) and p[0] == 'ptr'):
            if isinstance(p, tuple) and p[0] == 'op' or isinstance(p, Lin):
                return ('ptr', 'dangling', (('i', ZERO),), m)
            raise Unsupported(f'slice from {vstr(p)}', self.line)
        path = p[2]
        if not path or isinstance(path[-1], int):
            path = path + (('i', ZERO),)
        return ('ptr', p[1], path, m)

    def discr(self, v, ty):
        t = self.T[ty]
        if t['k'] == 'adt' and isinstance(v, tuple) and v[0] == 'agg':
            return const(int(t['variants'][v[1]]['discr']))
        if isinstance(v, Lin):
            return v
        if t['k'] == 'adt':
            ok = [x for x in t.get('variants', ()) if not any(self.T[f['ty'] if isinstance(f, dict) else f]['k'] == 'never' for f in x['fields'])]
            if len(ok) == 1:
                return const(int(ok[0]['discr']))
        raise Unsupported(f'discriminant of {vstr(v)} : {t["str"]}', self.line)

    def ibits(self, ty):
        t = self.T[self.T.strip(ty)]
        if t['k'] == 'int':
            return t['bits'], t['signed']
        return (64, False)

    def in_range(self, st, l, ty):
        bits, signed = self.ibits(ty)
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
        return cand(cge(l - lo), cge(const(hi) - l)), bits

    def arith(self, op, a, b):
        if op == 'Add':
            return a + b
        if op == 'Sub':
            return a - b
        return mul(a, b)

    def wrap(self, st, r, ty):
        """[(state, wrapped value, overflowed)]"""
        c, bits = self.in_range(st, r, ty)
        out = []
        for s, ok in self.split(st, c):
            if ok:
                out.append((s, r, False))
            else:
                bits, signed = self.ibits(ty)
                m = 1 << bits
                for w in (r - m, r + m):
                    for s2 in self.assume(s.copy(), self.in_range(s, w, ty)[0]):
                        out.append((s2, w, True))
                s3 = s.copy()
                c1, c2 = self.in_range(s3, r - m, ty)[0], self.in_range(s3, r + m, ty)[0]
                for s4 in self.assume(s3, c1, False):
                    for s5 in self.assume(s4, c2, False):
                        out.append((s5, self.nat(s5, 'wrapped', m - 1), True))
        return out

    def binop(self, st, op, a, b, ty):
        T = self.T
        if isinstance(a, tuple) and a[0] == 'bits' or isinstance(b, tuple) and b[0] == 'bits':
            return self.bitop(st, op, a, b)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return [(st, self.compare(st, op, a, b, ty))]
        if op in ('BitAnd', 'BitOr', 'BitXor') and is_cond(a) and is_cond(b):
            if op == 'BitAnd':
                return [(st, cand(a, b))]
            if op == 'BitOr':
                return [(st, cor(a, b))]
            return [(st, cor(cand(a, cnot(b)), cand(cnot(a), b)))]
        if op == 'Offset':
            return [(st, self.ptr_add(st, a, b, T.pointee(ty)))]
        if op == 'Cmp':
            d = a - b
            out = []
            for s, r in self.split(st, cge(-d - 1)):
                if r:
                    out.append((s, ('agg', 0, ())))
                else:
                    for s2, r2 in self.split(s, ceq(d)):
                        out.append((s2, ('agg', 1 if r2 else 2, ())))
            return out
        if not (isinstance(a, Lin) and isinstance(b, Lin)):
            raise Unsupported(f'{op} of {vstr(a)} and {vstr(b)}', self.line)
        if op in ('Add', 'Sub', 'Mul'):
            return [(s, w) for s, w, _ in self.wrap(st, self.arith(op, a, b), ty)]
        if op.endswith('WithOverflow'):
            return [(s, agg(w, o)) for s, w, o in self.wrap(st, self.arith(op[:3], a, b), ty)]
        if op.endswith('Unchecked') and op[:3] in ('Add', 'Sub', 'Mul'):
            return self.unchecked(st, op[:3], a, b, ty)
        if op in ('Div', 'Rem'):
            return self.divrem(st, op, a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            bits, signed = self.ibits(ty)
            if a.is_const() and b.is_const():
                x, y = a.c, b.c
                r = {'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y, 'Shl': lambda: (x << y) & ((1 << bits) - 1), 'Shr': lambda: x >> y}[op.replace('Unchecked', '')]()
                return [(st, const(r))]
            if op in ('Shl', 'ShlUnchecked') and b.is_const():
                return [(s, w) for s, w, _ in self.wrap(st, a.scale(1 << b.c), ty)]
            if op in ('Shr', 'ShrUnchecked') and b.is_const():
                return self.divrem(st, 'Div', a, const(1 << b.c))
            if op == 'BitAnd' and b.is_const() and b.c & (b.c + 1) == 0:
                return self.divrem(st, 'Rem', a, const(b.c + 1))
            if op in ('BitOr', 'BitXor') and ZERO in (a, b):
                return [(st, a if b == ZERO else b)]
            if a == b and op in ('BitAnd', 'BitOr'):
                return [(st, a)]
            r = self.nat(st, 'bitop', (1 << bits) - 1)
            if op == 'BitOr' and not signed:
                self.add(st, r - a)
                self.add(st, r - b)
                self.add(st, a + b - r)
            if op == 'BitAnd' and not signed:
                self.add(st, a - r)
                self.add(st, b - r)
            return [(st, r)]
        raise Unsupported('operator ' + op, self.line)

    def unchecked(self, st, op, a, b, ty):
        r = self.arith(op, a, b)
        c, _ = self.in_range(st, r, ty)
        out = []
        for s, ok in self.split(st, c):
            if ok:
                out.append((s, r))
            else:
                self.bad('ub', s, f'unchecked {op.lower()} overflows: {a} and {b}')
        return out

    def bitop(self, st, op, a, b):
        w = max([len(v[1]) for v in (a, b) if isinstance(v, tuple) and v[0] == 'bits'] or [64])

        def bits(v):
            if isinstance(v, Lin) and v.is_const():
                return bits_of(v.c, w)
            if isinstance(v, tuple) and v[0] == 'bits':
                return v
            raise Unsupported(f'bits of {vstr(v)}', self.line)
        a, b = bits(a), bits(b)
        z = list(zip(a[1], b[1]))
        if op == 'BitAnd':
            return [(st, self.bits_norm(('bits', tuple(cand(x, y) for x, y in z))))]
        if op == 'BitOr':
            return [(st, self.bits_norm(('bits', tuple(cor(x, y) for x, y in z))))]
        if op == 'BitXor':
            return [(st, self.bits_norm(('bits', tuple(cor(cand(x, cnot(y)), cand(cnot(x), y)) for x, y in z))))]
        if op in ('Eq', 'Ne'):
            c = True
            for x, y in z:
                c = cand(c, cor(cand(x, y), cand(cnot(x), cnot(y))))
            return [(st, c if op == 'Eq' else cnot(c))]
        if op in ('Shr', 'ShrUnchecked', 'Shl', 'ShlUnchecked'):
            n = bits_const(b)
            if n is not None:
                x = a[1]
                r = (x[n:] + (False,) * n) if op.startswith('Shr') else ((False,) * n + x[:w - n])
                return [(st, self.bits_norm(('bits', r)))]
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            # by cases on the unknown bits
            return [(s, self.compare(s, op, x, y, None)) for s, x in self.bits_int(st, a) for s, y in self.bits_int(s, b)]
        if op in ('Add', 'Sub', 'Mul', 'AddWithOverflow', 'SubWithOverflow', 'Div', 'Rem'):
            out = []
            for s, x in self.bits_int(st, a):
                for s2, y in self.bits_int(s, b):
                    r = {'Add': x.c + y.c, 'Sub': x.c - y.c, 'Mul': x.c * y.c}.get(op[:3])
                    if r is None:
                        raise Unsupported(op + ' of bits', self.line)
                    m = const(r % (1 << w))
                    out.append((s2, agg(m, r != m.c) if op.endswith('Overflow') else m))
            return out
        raise Unsupported('bit operator ' + op, self.line)

    def bits_norm(self, v):
        c = bits_const(v)
        return const(c) if c is not None else v

    def bits_int(self, st, v):
        """Cases in which all bits are known."""
        res = [(st, 0)]
        for i, b in enumerate(v[1]):
            nr = []
            for s, n in res:
                for s2, r in self.split(s, b):
                    nr.append((s2, n | (1 << i if r else 0)))
            res = nr
        return [(s, const(n)) for s, n in res]

    def compare(self, st, op, a, b, ty):
        if isinstance(a, Lin) and isinstance(b, Lin):
            d = a - b
            if op == 'Eq':
                return ceq(d)
            if op == 'Ne':
                return cne(d)
            if op == 'Lt':
                return cge(-d - 1)
            if op == 'Le':
                return cge(-d)
            if op == 'Gt':
                return cge(d - 1)
            return cge(d)
        if is_cond(a) and is_cond(b):
            e = cor(cand(a, b), cand(cnot(a), cnot(b)))
            if op in ('Eq', 'Ne'):
                return e if op == 'Eq' else cnot(e)
        pa = isinstance(a, tuple) and a[0] == 'ptr'
        pb = isinstance(b, tuple) and b[0] == 'ptr'
        if pa and pb:
            if a[1] == b[1] and abs(len(a[2]) - len(b[2])) == 1:
                # p against p + k
                x, y = (a, b) if len(a[2]) > len(b[2]) else (b, a)
                if x[2][:-1] == y[2] and not isinstance(x[2][-1], int) and x[2][-1][0] in 'ib':
                    y = ('ptr', y[1], y[2] + ((x[2][-1][0], ZERO),), y[3])
                    a, b = (x, y) if len(a[2]) > len(b[2]) else (y, x)
            if a[1] != b[1]:
                if op in ('Eq', 'Ne'):
                    return op == 'Ne'
            elif len(a[2]) == len(b[2]):
                c = True
                d = None
                for x, y in zip(a[2], b[2]):
                    if isinstance(x, int) or isinstance(y, int):
                        if x != y:
                            c = False
                    elif x[0] == y[0]:
                        d = x[1] - y[1]
                        if op in ('Eq', 'Ne'):
                            c = cand(c, ceq(d))
                    else:
                        raise Unsupported('comparison of pointers', self.line)
                if op in ('Eq', 'Ne'):
                    return c if op == 'Eq' else cnot(c)
                if d is not None and c is True:
                    return self.compare(st, op, d, ZERO, None)
        if pa and isinstance(b, Lin) or pb and isinstance(a, Lin):
            if op in ('Eq', 'Ne'):
                return op == 'Ne'
        if op in ('Eq', 'Ne') and isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'op' and b[0] == 'op':
            return (a == b) == (op == 'Eq')
        if op in ('Eq', 'Ne') and (pa or pb):
            o = b if pa else a
            if isinstance(o, tuple) and o[0] == 'op':
                return op == 'Ne'
        raise Unsupported(f'comparison {op} of {vstr(a)} and {vstr(b)}', self.line)

    def divrem(self, st, op, a, b):
        if a.is_const() and b.is_const():
            if b.c == 0:
                return []
            return [(st, const(a.c // b.c if op == 'Div' else a.c % b.c))]
        if b.is_const() and b.c == 1:
            return [(st, a if op == 'Div' else ZERO)]
        # exact multiples
        q = exact_div(a, b)
        if q is not None:
            return [(st, q if op == 'Div' else ZERO)]
        # a < 2b: by cases
        if entails(st.cs, b - 1) and entails(st.cs, b + b - a - 1):
            out = []
            for s, r in self.split(st, cge(a - b)):
                if op == 'Rem':
                    out.append((s, a - b if r else a))
                else:
                    out.append((s, ONE if r else ZERO))
            return out
        if not entails(st.cs, b - 1):
            if not self.add(st, b - 1):
                return []
        # what an earlier division by the same number left
        for x in {x for c in st.cs for x, _ in c.t if isinstance(x, tuple) and x[0] == 'div' and x[2] == b}:
            for q in (atom(x), atom(x) + 1):
                if entails_eq(st.cs, a - mul(q, b)):
                    return [(st, q if op == 'Div' else ZERO)]
        small = []
        if b == atom('page'):
            for s, r in self.split(st, cge(a - b)):
                if r:
                    st = s
                else:
                    small.append((s, a if op == 'Rem' else ZERO))
            if entails(st.cs, b - a - 1):
                return small
            if not self.add(st, mul(atom(('div', a, b)), b) - b):
                return small
        m, d = atom(('mod', a, b)), atom(('div', a, b))
        for c in (m, b - m - 1, a - m, d, a - d):
            if not self.add(st, c):
                return small
        e = a - m - mul(d, b)
        if not (self.add(st, e) and self.add(st, -e)):
            return small
        return small + [(st, m if op == 'Rem' else d)]

    def unop(self, st, op, a, ty):
        if op == 'Not':
            if is_cond(a):
                return [(st, cnot(a))]
            if isinstance(a, tuple) and a[0] == 'bits':
                return [(st, ('bits', tuple(cnot(b) for b in a[1])))]
            if isinstance(a, Lin):
                bits, signed = self.ibits(ty)
                if signed:
                    return [(st, -a - 1)]
                return [(st, const((1 << bits) - 1) - a)]
        if op == 'Neg' and isinstance(a, Lin):
            return [(st, -a)]
        if op == 'PtrMetadata':
            if isinstance(a, tuple) and a[0] == 'ptr':
                return [(st, a[3] if a[3] is not None else UNIT)]
        raise Unsupported(f'operator {op} of {vstr(a)}', self.line)

    # --- pointers ----------------------------------------------------------------------------------------------

    def ptr_add(self, st, p, k, elt):
        """p + k elements of type elt."""
        if isinstance(k, Lin) and k == ZERO:
            return p
        if not (isinstance(p, tuple) and p[0] == 'ptr'):
            raise Unsupported(f'arithmetic on {vstr(p)}', self.line)
        path = p[2]
        if elt is not None and self.T.zst(elt):
            return p
        if path and not isinstance(path[-1], int):
            kind, off = path[-1]
            if kind == 'b' and elt is not None and self.T.size(elt) == ONE:
                return ('ptr', p[1], path[:-1] + (('b', off + k),), p[3])
            if kind == 'i':
                if self.seq_elt_size(st, p, elt):
                    return ('ptr', p[1], path[:-1] + (('i', off + k),), p[3])
        if elt is not None and self.T.size(elt) == ONE:
            return ('ptr', p[1], path + (('b', k),), p[3])
        if not path or isinstance(path[-1], int):
            return ('ptr', p[1], path + (('i', k),), p[3])
        raise Unsupported(f'arithmetic on {vstr(p)} by {k}', self.line)

    def seq_elt_size(self, st, p, elt):
        """Whether pointer arithmetic in units of elt moves by whole elements of the sequence p points into."""
        if elt is None or self.T.size(elt) != ONE:
            return True
        # bytes of something whose elements are not bytes?
        v = st.mem.get(p[1])
        for e in p[2][:-1]:
            if not isinstance(e, int) or not (isinstance(v, tuple) and v[0] == 'agg'):
                return False
            v = v[2][e]
        return isinstance(v, tuple) and v[0] == 'seq' and isinstance(v[2], tuple) and v[2][0] == 'bytes'

    def byte_add(self, st, p, off):
        """Moves by a number of bytes which is a multiple of the item size, or within an element."""
        if off == ZERO:
            return p
        q = exact_div(off, atom('sizeT'))
        if q is not None:
            path = p[2]
            if path and not isinstance(path[-1], int) and path[-1][0] == 'i':
                return ('ptr', p[1], path[:-1] + (('i', path[-1][1] + q),), p[3])
            return ('ptr', p[1], path + (('i', q),), p[3])
        path = p[2]
        if path and not isinstance(path[-1], int) and path[-1][0] == 'b':
            return ('ptr', p[1], path[:-1] + (('b', path[-1][1] + off),), p[3])
        return ('ptr', p[1], path + (('b', off),), p[3])

    def cast(self, st, kind, v, to, frm, fid):
        T = self.T
        tt, ft = T[to], T[frm]
        if kind == 'reify':
            if ft['k'] == 'fndef':
                return [(st, ('fn', ft['fn']))]
            return [(st, v)]
        if kind == 'closure_fnptr':
            return [(st, ('clo', fid))]
        if kind == 'unsize':
            a, b = T.pointee(frm), T.pointee(to)
            if a is not None and b is not None:
                a, b = T.strip(a), T.strip(b)
                if T[a]['k'] == 'array' and T[b]['k'] == 'slice':
                    return [(st, ('ptr', v[1], v[2] + (('i', ZERO),), tcon(T[a]['len'])))]
                if T[b]['k'] == 'dyn':
                    return [(st, ('op', 'dyn', v))]
            raise Unsupported(f"unsizing {ft['str']} to {tt['str']}", self.line)
        if kind in ('ptr', 'transmute'):
            if isinstance(v, tuple) and v[0] == 'ptr':
                return [(st, self.ptr_cast(st, v, frm, to))]
            if kind == 'transmute' and isinstance(v, tuple) and v[0] == 'bits' and T.kind(to) == 'bool':
                return [(st, v[1][0])]
            if kind == 'transmute' and isinstance(v, Lin) and T.kind(to) == 'bool' and v.is_const():
                return [(st, bool(v.c))]
            if kind == 'transmute' and is_cond(v) and T.kind(to) == 'int':
                return [(s, ONE if r else ZERO) for s, r in self.split(st, v)]
            if kind == 'transmute' and isinstance(v, Lin) and not v.is_const() and ft['str'].startswith('core::num::NonZero<'):
                return [(st, v)] if self.add(st, v - 1) else []
            if kind == 'transmute' and isinstance(v, Lin) and 'Option<core::num::NonZero<' in tt['str']:
                return [(s, ('agg', 0, ()) if z else ('agg', 1, (v,))) for s, z in self.split(st, ceq(v))]
            if kind == 'transmute' and 'Option<core::num::NonZero<' in ft['str'] and isinstance(v, tuple) and v[0] == 'agg':
                return [(st, v[2][0] if v[1] else ZERO)]
            if kind == 'transmute':
                a, b = T[T.strip(to)], T[T.strip(frm)]
                if a['k'] == 'adt' and a['enum'] and a is not b and isinstance(v, Lin):
                    if v.is_const():
                        for n, x in enumerate(a['variants']):
                            if int(x['discr']) == v.c:
                                return [(st, ('agg', n, ()))]
                    raise Unsupported(f"transmute to {tt['str']}", self.line)
                if b['k'] == 'adt' and b['enum'] and a is not b and a['k'] == 'int' and isinstance(v, tuple) and v[0] == 'agg':
                    return [(st, self.discr(v, T.strip(frm)))]
            return [(st, v)]
        if kind == 'int':
            if is_cond(v):
                return [(s, ONE if r else ZERO) for s, r in self.split(st, v)]
            if isinstance(v, tuple) and v[0] == 'agg':
                return [(st, self.discr(v, frm))]
            if isinstance(v, tuple) and v[0] == 'bits':
                bits, _ = self.ibits(to)
                w = v[1]
                return [(st, self.bits_norm(('bits', (w + (False,) * bits)[:bits])))]
            if isinstance(v, Lin):
                c, bits = self.in_range(st, v, to)
                out = []
                for s, ok in self.split(st, c):
                    if ok:
                        out.append((s, v))
                    elif v.is_const():
                        m = v.c % (1 << bits)
                        if self.ibits(to)[1] and m >= 1 << bits - 1:
                            m -= 1 << bits
                        out.append((s, const(m)))
                    else:
                        out.append((s, self.nat(s, 'cast', (1 << bits) - 1)))
                return out
            if isinstance(v, tuple) and v[0] == 'op':
                return [(st, v)]
        if kind == 'expose':
            return [(st, v)]
        if kind == 'unexpose':
            return [(st, v)]
        raise Unsupported(f'cast {kind} of {vstr(v)} to {tt["str"]}', self.line)

    def ptr_cast(self, st, p, frm, to):
        """Keeps the path in the shape of the pointee type."""
        T = self.T
        a, b = T.pointee(frm), T.pointee(to)
        if a is None or b is None:
            return p
        a, b = T.strip(a), T.strip(b)
        ka, kb = T[a]['k'], T[b]['k']
        if ka == 'slice' and kb not in ('slice', 'str', 'dyn'):
            if kb == 'array':
                # to an array: drop the element step when it is the first
                if p[2] and not isinstance(p[2][-1], int) and p[2][-1][1] == ZERO:
                    return ('ptr', p[1], p[2][:-1], None)
                return p
            return ('ptr', p[1], p[2], None)
        if ka == 'array' and kb not in ('array', 'slice'):
            sa = T[a]['elt']
            if T.size(sa) == T.size(b):
                return ('ptr', p[1], p[2] + (('i', ZERO),), None)
            if T.size(b) == ONE:
                return ('ptr', p[1], p[2] + (('i', ZERO),), None)
        if kb == 'array' and ka not in ('array', 'slice'):
            if p[2] and not isinstance(p[2][-1], int) and p[2][-1] == ('i', ZERO) and T.size(T[b]['elt']) == T.size(a):
                return ('ptr', p[1], p[2][:-1], None)
        return p

    # --- functions -----------------------------------------------------------------------------------------------

    def exec_fn(self, st, fid, args, keep=False):
        fn = self.F[fid]
        body = self.bodies.get(fid)
        if body is None:
            body = self.bodies[fid] = Body(fn)
        if len(self.stack) > 90:
            raise Unsupported('recursion', self.line)
        n = len(fn['locals'])
        base = self.nreg + 1
        self.nreg += n + 1
        for i in range(n):
            self.rname[base + i] = None
        fr = Frame(fn, base, body, fid)
        st.mem[base] = UNDEF
        for i in range(1, n):
            st.mem[base + i] = args[i - 1] if i <= len(args) else UNDEF
        if len(args) != fn['argc']:
            raise Unsupported(f"{fn['path']}: {len(args)} arguments for {fn['argc']}", self.line)
        self.stack.append((fn['path'], self.line))
        self.calls.add(fid)
        try:
            outs = self.region(st, fr, 0, None, None)
        finally:
            self.line = self.stack.pop()[1]
        res = []
        for s, b in outs:
            v = s.mem[base]
            if not keep:
                for i in range(n):
                    s.mem.pop(base + i, None)
            res.append((s, v))
        return res

    def region(self, st, fr, start, stop, body):
        """Runs from `start` to the return, to `stop` (a loop header, not at once) or out of the loop body."""
        work = [(st, start, 0, True)]
        out = []
        blocks = fr.body.blocks
        loops = fr.body.loops
        while work:
            st, bb, i, first = work.pop()
            if i == 0 and not first:
                if bb == stop or body is not None and bb not in body:
                    out.append((st, bb))
                    continue
            if i == 0 and bb in loops and not (first and bb == stop):
                for s, b in self.loop(st, fr, bb, loops[bb]):
                    if b == 'ret':
                        out.append((s, b))
                    else:
                        work.append((s, b, 0, False))
                continue
            self.paths += 1
            if self.paths > MAXPATHS * 40:
                raise Unsupported('too many paths', self.line)
            blk = blocks[bb]
            stm = blk['s']
            n = len(stm)
            forked = False
            while i < n:
                x = stm[i]
                k = x[0]
                i += 1
                if k == '=':
                    self.line = x[3]
                    states = []
                    for s, v in self.rvalue(st, fr, x[2], x[1][2]):
                        if not x[1][1]:
                            s.mem[fr.base + x[1][0]] = v
                            states.append(s)
                        else:
                            for s2, p in self.place(s, fr, x[1]):
                                states += self.store(s2, p, v)
                    if len(states) == 1:
                        st = states[0]
                        continue
                    for s in states:
                        work.append((s, bb, i, False))
                    forked = True
                    break
                elif k == 'dead':
                    st.mem[fr.base + x[1]] = UNDEF
                elif k == 'live':
                    st.mem[fr.base + x[1]] = UNDEF
                elif k == 'sd':
                    self.line = x[3]
                    (s, p), = self.place(st, fr, x[1])
                    (s, v), = self.load(s, p)
                    nv = ('agg', x[2], v[2] if v[0] == 'agg' else ())
                    st, = self.store(s, p, nv)
                elif k == 'assume':
                    self.line = x[2]
                    states = []
                    for s, v in self.operand(st, fr, x[1]):
                        for s2, r in self.split(s, v):
                            if r:
                                states.append(s2)
                            else:
                                self.bad('ub', s2, 'an assumption stated in the code does not hold')
                    if len(states) == 1:
                        st = states[0]
                        continue
                    for s in states:
                        work.append((s, bb, i, False))
                    forked = True
                    break
                elif k == 'copy':
                    self.line = x[4]
                    states = []
                    for s, (a, b, c) in self.operands(st, fr, x[1:4]):
                        states += [s2 for s2, _ in self.natives.copy(self, s, a, b, c)]
                    if len(states) == 1:
                        st = states[0]
                        continue
                    for s in states:
                        work.append((s, bb, i, False))
                    forked = True
                    break
                else:
                    raise Unsupported('statement ' + str(k), self.line)
            if forked or i < n:
                continue
            for s, b in self.term(st, fr, blk['t']):
                if b == 'ret':
                    out.append((s, 'ret'))
                else:
                    work.append((s, b, 0, False))
        return out

    def term(self, st, fr, t):
        k = t[0]
        if k == 'goto':
            return [(st, t[1])]
        if k == 'return':
            return [(st, 'ret')]
        if k == 'switch':
            self.line = t[5]
            out = []
            for s, v in self.operand(st, fr, t[1]):
                out += self.switch(s, v, t[3], t[4])
            return out
        if k == 'drop':
            self.line = t[4]
            out = []
            for s, p in self.place(st, fr, t[1]):
                self.ustack.append((fr, unwind_to(t)))
                try:
                    for s2 in self.drop_glue(s, p, t[2]):
                        out.append((s2, t[3]))
                finally:
                    self.ustack.pop()
            return out
        if k == 'assert':
            self.line = t[5]
            out = []
            for s, v in self.operand(st, fr, t[1]):
                for s2, r in self.split(s, v):
                    if r == t[2]:
                        out.append((s2, t[4]))
                    else:
                        self.bad('panic', s2, f'panics: {t[3]}')
            return out
        if k == 'call':
            self.line = t[5]
            out = []
            for s, vs in self.operands(st, fr, t[2]):
                self.line = t[5]
                if isinstance(t[1], list):
                    fs = self.operand(s, fr, t[1])
                else:
                    fs = [(s, t[1])]
                for s2, f in fs:
                    self.ustack.append((fr, unwind_to(t)))
                    try:
                        res = self.call_value(s2, f, vs, t[6])
                    finally:
                        self.ustack.pop()
                    for s3, v in res:
                        if t[4] is None:
                            continue
                        if not t[3][1]:
                            s3.mem[fr.base + t[3][0]] = v
                            out.append((s3, t[4]))
                        else:
                            for s4, p in self.place(s3, fr, t[3]):
                                for s5 in self.store(s4, p, v):
                                    out.append((s5, t[4]))
                    self.line = t[5]
            return out
        if k == 'resume':
            return [(st, 'ret')]
        if k == 'unreachable':
            self.line = t[1]
            self.bad('ub', st, 'code which is declared unreachable is reached')
            return []
        raise Unsupported('terminator ' + str(t), self.line)

    def may_panic(self, st):
        """Code of the item type is called here: if it panics, the clean-up code of the calls under way runs, from the inside out."""
        if not self.unwinding or self.inductive:
            return
        stack, line, marks, calls, self.unwinding = self.ustack, self.line, self.mark(), len(self.stack), False
        where = self.where()
        self.ustack = []
        try:
            cur = [st.copy()]
            for fr, to in reversed(stack):
                if to == -2:
                    return
                if to >= 0:
                    cur = [x for s in cur for x, _ in self.region(s, fr, to, None, None)]
            self.unwound += [(s, where) for s in cur]
            self.broken += self.abnormal[marks:]
        except Unsupported:
            self.unfollowed += 1
        finally:
            self.rollback(marks)
            self.ustack, self.line, self.unwinding = stack, line, True
            del self.stack[calls:]

    def switch(self, st, v, arms, other):
        if isinstance(v, tuple) and v[0] == 'bits':
            out = []
            for s, x in self.bits_int(st, v):
                out += self.switch(s, x, arms, other)
            return out
        if is_cond(v):
            out = []
            table = {int(a): b for a, b in arms}
            for s, r in self.split(st, v):
                out.append((s, table.get(1 if r else 0, other)))
            return out
        if isinstance(v, Lin):
            out = []
            rest = [st]
            for a, b in arms:
                nr = []
                a = int(a)
                for s in rest:
                    for s2, r in self.split(s, ceq(v - a)):
                        if r:
                            out.append((s2, b))
                        else:
                            nr.append(s2)
                rest = nr
                if not rest:
                    break
            return out + [(s, other) for s in rest]
        raise Unsupported(f'switch on {vstr(v)}', self.line)

    def call_value(self, st, f, args, argtys):
        if isinstance(f, int):
            return self.call(st, f, args, argtys)
        if isinstance(f, tuple) and f[0] == 'fn':
            return self.call(st, f[1], args, argtys)
        if isinstance(f, tuple) and f[0] == 'clo':
            fn = self.F[f[1]]
            tgt = fn['target'] if fn['kind'] == 'closure_once' else f[1]
            return self.call_closure(st, tgt, UNIT, list(args))
        raise Unsupported(f'call of {vstr(f)}', self.line)

    def untuple(self, v, ty):
        t = self.T[ty]
        if t['k'] != 'tuple':
            raise Unsupported('arguments of type ' + t['str'], self.line)
        nt = self.T.newtype(ty)
        r = []
        for i, e in enumerate(t['elts']):
            if nt is not None:
                r.append(v if i == nt else UNIT)
            elif self.T.zst(ty):
                r.append(UNIT)
            else:
                r.append(v[2][i])
        return r

    def call_closure(self, st, fid, clo, args):
        """Calls a closure body with the closure by value or by reference, as the body wants it."""
        fn = self.F[fid]
        if 'blocks' not in fn:
            raise Unsupported('closure ' + fn.get('path', '?'), self.line)
        if fn['argc'] == len(args):
            return self.exec_fn(st, fid, tuple(args))
        want = self.T[fn['locals'][1][0]]['k']
        if want == 'ref':
            r = self.new_region(st, clo, 'closure')
            return self.exec_fn(st, fid, (ptr(r),) + tuple(args))
        return self.exec_fn(st, fid, (clo,) + tuple(args))

    def call(self, st, fid, args, argtys):
        fn = self.F[fid]
        r = self.natives.call(self, st, fid, fn, args, argtys)
        if r is not None:
            return r
        k = fn['kind']
        if k == 'item':
            leaf = fn.get('leaf')
            if leaf == 'diverges' or fn['path'].startswith('core::panicking'):
                self.bad('panic', st, f"panics: {fn['path']}")
                return []
            if 'blocks' not in fn:
                raise Unsupported(f"call of {fn['path']} ({leaf})", self.line)
            if fn.get('closure') and fn['argc'] != len(args) or fn.get('closure') and len(args) == 2 and self.T[argtys[1]]['k'] == 'tuple':
                a = self.untuple(args[1], argtys[1])
                if fn['argc'] == 1 + len(a):
                    clo = args[0]
                    want = self.T[fn['locals'][1][0]]['k']
                    if want == 'ref' and self.T[argtys[0]]['k'] != 'ref':
                        clo = ptr(self.new_region(st, clo, 'closure'))
                    return self.exec_fn(st, fid, (clo,) + tuple(a))
            if fn['argc'] != len(args) and fn.get('spread') is not None:
                pass
            return self.exec_fn(st, fid, args)
        if k == 'closure_once':
            return self.call_closure(st, fn['target'], args[0], self.untuple(args[1], argtys[1]))
        if k in ('fnptr_shim', 'reify'):
            if 'target' in fn and k == 'fnptr_shim':
                a = self.untuple(args[1], argtys[1])
                return self.call(st, fn['target'], tuple(a), self.T[argtys[1]]['elts'])
            if k == 'reify':
                return self.call(st, fn['target'], args, argtys)
            f = args[0]
            if isinstance(f, tuple) and f[0] == 'ptr':
                (st, f), = self.load(st, f)
            return self.call_value(st, f, tuple(self.untuple(args[1], argtys[1])), self.T[argtys[1]]['elts'])
        if k == 'drop_glue':
            to = self.T.pointee(argtys[0])
            return [(s, UNIT) for s in self.drop_glue(st, args[0], to)]
        if k == 'clone_shim':
            return self.load(st, args[0])
        raise Unsupported(f"call of {fn.get('path')} ({k})", self.line)

    # --- destructors -------------------------------------------------------------------------------------------------

    def drop_glue(self, st, p, ty):
        """[state]"""
        T = self.T
        t = T[ty]
        if not t['needs_drop']:
            return [st]
        k = t['k']
        if k == 'param':
            out = []
            for s, v in self.load(st, p):
                out += self.drop_tok(s, v)
            return out
        if k in ('tuple', 'closure'):
            return self.drop_fields(st, p, ty, list(enumerate(t['elts'])))
        if k in ('array', 'slice'):
            if k == 'array':
                n = tcon(t['len'])
                first = ('ptr', p[1], p[2] + (('i', ZERO),), n)
            else:
                n, first = p[3], p
            return self.drop_range(st, first, n, t['elt'])
        if k == 'adt':
            if t['mandrop'] or t['union']:
                return [st]
            r = self.natives.drop(self, st, p, t)
            if r is not None:
                return r
            if t['box']:
                out = []
                for s, q in self.load(st, p):
                    for s2 in self.drop_glue(s, q, t['args'][0]):
                        out += self.natives.free(self, s2, q, T, t['args'][0])
                return out
            sts = [st]
            if t['drop'] is not None:
                sts = []
                self.line = self.line
                for s, _ in self.call(st, t['drop'], (p,), [None]):
                    sts.append(s)
            out = []
            for s in sts:
                if t['enum']:
                    for s2, v in self.load(s, p):
                        if not (isinstance(v, tuple) and v[0] == 'agg'):
                            raise Unsupported(f'drop of {vstr(v)}', self.line)
                        fs = [(i, f['ty']) for i, f in enumerate(t['variants'][v[1]]['fields'])]
                        out += self.drop_fields(s2, p, ty, fs)
                else:
                    fs = [(i, f['ty']) for i, f in enumerate(t['variants'][0]['fields'])]
                    out += self.drop_fields(s, p, ty, fs)
            return out
        raise Unsupported('drop of ' + t['str'], self.line)

    def drop_fields(self, st, p, ty, fields):
        nt = self.T.newtype(ty)
        sts = [st]
        for i, ft in fields:
            if not self.T[ft]['needs_drop']:
                continue
            if nt is not None:
                q = p if i == nt else ('ptr', 'unit', (), None)
            else:
                q = ('ptr', p[1], p[2] + (i,), None)
            sts = [s2 for s in sts for s2 in self.drop_glue(s, q, ft)]
        return sts

    def drop_tok(self, st, v):
        if isinstance(v, tuple) and v[0] == 'tok':
            out = []
            for s, z in self.split(st, self.is_zeroed(st, v)):
                if z:
                    self.bad('empty-drop', s, f'the destructor runs on an empty slot ({vstr(v)})')
                else:
                    s.event('drop', v, self.where())
                    out.append(s)
            return out
        if v == ZEROV:
            self.bad('empty-drop', st, 'the destructor runs on zeroed memory')
            return []
        if v == UNDEF:
            self.bad('ub', st, 'the destructor runs on uninitialised memory')
            return []
        raise Unsupported(f'drop of {vstr(v)}', self.line)

    def drop_range(self, st, first, n, elt):
        """for k in 0..n: drop element k"""
        if entails(st.cs, -n):
            return [st]
        return self.for_each(st, n, lambda s, k: self.drop_glue(s, self.elem_ptr(first, k), elt), 'drop')

    def elem_ptr(self, first, k):
        path = first[2]
        if path and not isinstance(path[-1], int) and path[-1][0] == 'i':
            return ('ptr', first[1], path[:-1] + (('i', path[-1][1] + k),), None)
        return ('ptr', first[1], path + (('i', k),), None)

    def for_each(self, st, n, f, what):
        """A loop over 0..n the body of which only has effects and writes element k: one Loop event."""
        if n.is_const() and n.c <= 4:
            sts = [st]
            for k in range(n.c):
                sts = [s2 for s in sts for s2 in f(s, const(k))]
            return sts
        j = self.fresh('j')
        s0 = st.copy()
        self.loopvars.append(j)
        if not (self.add(s0, atom(j)) and self.add(s0, n - atom(j) - 1)):
            self.loopvars.pop()
            return [st]
        nev, ncs = len(s0.ev), len(s0.cs)
        pre = s0.copy()
        self.inductive += 1
        outs = f(s0, atom(j))
        self.inductive -= 1
        self.loopvars.pop()
        if not outs:
            # every iteration is abnormal
            return self.assume(st, cge(-n))
        summ = self.summarise(pre, outs, j, nev, ncs)
        self.apply_loop(st, pre, summ, j, n)
        return [st]

    def apply_loop(self, st, pre, summ, j, count):
        alts, writes = summ
        if any(ev for _, ev in alts):
            st.event('loop', j, count, alts, self.where())
        for (reg, path), entries in writes.items():
            for pos, valts in entries:
                self.append_log(st, reg, path, ('lw', j, count, pos, valts))

    def append_log(self, st, reg, path, e):
        def go(v, n):
            if n == len(path):
                return ('seq', v[1], v[2], v[3] + (e,))
            i = path[n]
            return ('agg', v[1], v[2][:i] + (go(v[2][i], n + 1),) + v[2][i + 1:])
        st.mem[reg] = go(st.mem[reg], 0)

    # --- loops -------------------------------------------------------------------------------------------------------

    def mark(self):
        return len(self.abnormal)

    def rollback(self, m):
        del self.abnormal[m:]

    def tidy(self, st, fr, h):
        live = fr.body.live[h]
        addr = fr.body.addr
        for l in range(len(fr.fn['locals'])):
            if l not in live and l not in addr:
                st.mem[fr.base + l] = UNDEF
        return st

    def loop(self, st, fr, h, body):
        """[(state, block)] leaving the loop."""
        exits = []
        cur = [st]
        for step in range(12):
            nxt = []
            for s in cur:
                m = self.mark()
                s = self.tidy(s, fr, h)
                s0 = s.copy()
                outs = self.region(s, fr, h, h, body)
                back = [y for x, b in outs if b == h for y in self.spoil(self.tidy(x, fr, h), s0)]
                ex = [(x, b) for x, b in outs if b != h]
                # where the loop goes on in another shape (the second part of a chain, say), another loop starts
                same = [b for b in back if self.alike(s0, b)]
                if not same:
                    exits += [(x, b) for x, b in ex if self.learn_forall(x)]
                    nxt += back
                    continue
                try:
                    kind = self.classify(s0, same, set(s0.mem))
                except NonInductive as e:
                    kind = 'peel'
                    if DEBUG: print("CL", fr.fn["path"], step, e)
                if DEBUG: print("K", fr.fn["path"][-40:], step, kind, len(ex), len(back), len(cur))
                if kind == 'peel' and step < 5 or kind == 'const' and not ex and step < 3 or step < 9 and self.few(s0, back, 8 if kind == 'const' else 4):
                    exits += [(x, b) for x, b in ex if self.learn_forall(x)]
                    nxt += back
                    continue
                if kind == 'sym' and step < 3 and len(same) == len(back) and self.jumps(s0, back) and self.ends(back, fr, h, body):
                    exits += [(x, b) for x, b in ex if self.learn_forall(x)]
                    nxt += back
                    continue
                self.rollback(m)
                self.inductive += 1
                try:
                    more = self.induct(s0, same, fr, h, body)
                    exits += [(x, b) for x, b in more if b != h]
                    nxt += [x for x, b in more if b == h]
                except NonInductive as e:
                    if DEBUG: print("NI", fr.fn["path"], step, e)
                    if step >= (10 if kind in ('const', 'peel') else 4):
                        raise Unsupported(f'loop in {fr.fn["path"]}: {e}', self.line)
                    exits += [(x, b) for x, b in ex if self.learn_forall(x)]
                    nxt += back
                finally:
                    self.inductive -= 1
            cur = nxt
            if not cur:
                return exits
            if len(cur) > 64:
                break
        raise Unsupported(f'loop in {fr.fn["path"]}', self.line)

    def jumps(self, s0, back):
        """A variable changes by something which is not a number (`while x >= n { x -= n }`)."""
        return any(isinstance(v, Lin) and isinstance(b.mem.get(r), Lin) and not (b.mem[r] - v).is_const() for b in back for r, v in s0.mem.items())

    def ends(self, back, fr, h, body):
        """No iteration follows."""
        m, paths = self.mark(), self.paths
        self.inductive += 1
        try:
            return not any(b == h for s in back for _, b in self.region(s.copy(), fr, h, h, body))
        except (Unsupported, NonInductive):
            return False
        finally:
            self.inductive -= 1
            self.rollback(m)
            self.paths = paths

    def alike(self, s0, b):
        """The same variants and objects pointed to; only numbers differ."""
        def cmp(x, y):
            if x is y or not (isinstance(x, tuple) and isinstance(y, tuple)) or x[0] != y[0]:
                return True
            if x[0] == 'agg':
                return x[1] == y[1] and len(x[2]) == len(y[2]) and all(map(cmp, x[2], y[2]))
            if x[0] == 'ptr':
                return x[1] == y[1]
            return True
        mine = lambda s: {e for e in s.x.get('spoilt', ()) if s0.mem.get(e[0], UNDEF) != UNDEF}
        return mine(s0) == mine(b) and all(cmp(v, b.mem[r]) for r, v in s0.mem.items() if r in b.mem)

    def again(self, outs, s0, fr, h):
        """(states which begin another iteration of the same kind, other states)."""
        bk, ex = [], []
        for x, b in outs:
            if b == h:
                for y in self.spoil(self.tidy(x, fr, h), s0):
                    if self.alike(s0, y):
                        bk.append(y)
                    else:
                        ex.append((y, b))
                continue
            ex.append((x, b))
        return bk, ex

    def spoil(self, st, s0):
        """An accumulator (`all &= x == 0`, `seen |= x`): the states in which it still has its first value, and those in which it has not any more."""
        out = [st]
        for r, v0 in s0.mem.items():
            if not (isinstance(v0, Lin) and v0.is_const() or is_cond(v0) and isinstance(v0, bool)):
                continue
            v = st.mem.get(r)
            if v is None or v is v0 or v == v0 or isinstance(v, Lin) != isinstance(v0, Lin):
                continue
            if isinstance(v0, Lin):
                if not any(isinstance(a, tuple) and a[0] == 'byte' for a, _ in v.t):
                    continue
                c = ceq(v - v0)
            elif not is_cond(v):
                continue
            else:
                c = v if v0 else cnot(v)
            nx = []
            for s in out:
                for s1, same in self.split(s, c):
                    if same:
                        s1.mem[r] = v0
                    else:
                        if isinstance(v0, bool):
                            s1.mem[r] = not v0
                        s1.x['spoilt'] = s1.x.get('spoilt', frozenset()) | {(r, v0)}
                    nx.append(s1)
            out = nx
        return out

    def few(self, s0, back, most):
        """The loop counts from a constant to one not far away."""
        def key(v):
            if isinstance(v, Lin) and v.is_const():
                return '', v.c
            if isinstance(v, tuple) and v[0] == 'ptr' and v[2] and not isinstance(v[2][-1], int) and v[2][-1][1].is_const():
                return (v[1], v[2][:-1], v[2][-1][0]), v[2][-1][1].c
            return None

        def go(a, b):
            if not (isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'agg' and len(a[2]) == len(b[2])):
                return False
            for x, y in zip(a[2], b[2]):
                if x == y:
                    continue
                if go(x, y):
                    return True
                k, l = key(x), key(y)
                if k and l and k[0] == l[0]:
                    if k[0] == '' and 0 <= l[1] < k[1] <= most:
                        return True
                    for z in a[2]:
                        q = key(z)
                        if q and q[0] == k[0] and 0 < abs(q[1] - k[1]) <= most and abs(q[1] - l[1]) < abs(q[1] - k[1]):
                            return True
            return False
        return all(any(go(s0.mem[r], b.mem[r]) for r in s0.mem if r in b.mem) for b in back)

    def classify(self, s0, back, regs):
        changed = [False, False]        # any change, any symbolic change

        def cmp(a, b):
            if a is b or a == b:
                return
            if isinstance(a, Lin) and isinstance(b, Lin):
                changed[0] = True
                if not (a.is_const() and b.is_const()):
                    changed[1] = True
                return
            if isinstance(a, Lin) or isinstance(b, Lin) or is_cond(a) or is_cond(b):
                raise NonInductive('kind of value changes')
            if a[0] != b[0]:
                raise NonInductive('kind of value changes')
            if a[0] == 'agg':
                if a[1] != b[1] or len(a[2]) != len(b[2]):
                    raise NonInductive('variant changes')
                for x, y in zip(a[2], b[2]):
                    cmp(x, y)
            elif a[0] == 'ptr':
                if a[1] != b[1] or len(a[2]) != len(b[2]):
                    raise NonInductive('pointer changes')
                for x, y in zip(a[2], b[2]):
                    if x != y:
                        if isinstance(x, int) or isinstance(y, int) or x[0] != y[0]:
                            raise NonInductive('pointer changes')
                        cmp(x[1], y[1])
                if a[3] is not None and b[3] is not None:
                    cmp(a[3], b[3])
            elif a[0] == 'seq':
                if a[2] != b[2]:
                    raise NonInductive('sequence changes')
                cmp(a[1], b[1])
                if a[3] != b[3]:
                    changed[0] = True
            else:
                raise NonInductive(f'opaque value changes: {vstr(a)} to {vstr(b)}')
        for b in back:
            for r in regs:
                if r in b.mem:
                    cmp(s0.mem[r], b.mem[r])
                elif r in s0.mem:
                    raise NonInductive('memory disappears')
            if b.freed != s0.freed:
                raise NonInductive('memory is freed')
            if b.x.get('maps') != s0.x.get('maps'):
                raise NonInductive('memory is mapped')
            if b.x.get('pub') != s0.x.get('pub') or b.x.get('released') != s0.x.get('released'):
                raise NonInductive('something is published')
        return 'sym' if changed[1] else 'const' if changed[0] else 'same'

    def generalise(self, v0, vs, key, j, havoc, st):
        """The value after j iterations, from the values before and after the first."""
        if all(v == v0 for v in vs) and key not in havoc:
            return v0
        if isinstance(v0, Lin):
            if key not in havoc:
                d = [v - v0 if isinstance(v, Lin) else None for v in vs]
                if all(x is not None and x.is_const() and x == d[0] for x in d):
                    if not d[0].c:
                        return v0
                    w = v0 + Lin(((j, d[0].c),), 0)
                    if d[0].c < 0 and self.unsigned:
                        # whatever it is, it is an unsigned number
                        st.cs = st.cs + (w,)
                    return w
                havoc.add(key)
            return self.nat(st, 'loop')
        if is_cond(v0) and all(is_cond(v) for v in vs):
            havoc.add(key)
            return ('ge', self.truth(st))
        if isinstance(v0, tuple) and v0[0] == 'bits':
            w = len(v0[1])
            vs = [bits_of(v.c, w) if isinstance(v, Lin) and v.is_const() else v for v in vs]
            if any(not isinstance(v, tuple) or v[0] != 'bits' or len(v[1]) != w for v in vs):
                raise NonInductive('kind of value changes')
            return ('bits', tuple(self.generalise(x, [v[1][i] for v in vs], key + (i,), j, havoc, st) for i, x in enumerate(v0[1])))
        if not isinstance(v0, tuple):
            raise NonInductive('condition changes')
        if v0[0] == 'agg':
            if any(v[0] != 'agg' or v[1] != v0[1] for v in vs):
                raise NonInductive('variant changes')
            return ('agg', v0[1], tuple(self.generalise(x, [v[2][i] for v in vs], key + (i,), j, havoc, st) for i, x in enumerate(v0[2])))
        if v0[0] == 'ptr':
            path = tuple(e if isinstance(e, int) else (e[0], self.generalise(e[1], [v[2][i][1] for v in vs], key + ('p', i), j, havoc, st)) for i, e in enumerate(v0[2]))
            meta = v0[3]
            if meta is not None:
                meta = self.generalise(meta, [v[3] for v in vs], key + ('m',), j, havoc, st)
            return ('ptr', v0[1], path, meta)
        if v0[0] == 'seq':
            n = self.generalise(v0[1], [v[1] for v in vs], key + ('n',), j, havoc, st)
            for v in vs:
                if v[3][:len(v0[3])] != v0[3]:
                    raise NonInductive('sequence is rewritten')
            return ('seq', n, v0[2], v0[3])
        raise NonInductive('opaque value changes')

    def matches(self, st, g, v, key, j, havoc):
        """v is the generalised value one iteration later; unequal integers are given up."""
        if key in havoc and is_cond(g) and is_cond(v):
            return True
        if isinstance(g, Lin):
            if key in havoc:
                return True
            w = subst(g, {j: atom(j) + 1})
            if isinstance(v, Lin) and (v == w or entails_eq(st.cs, v - w)):
                return True
            havoc.add(key)
            return False
        if g == v:
            return True
        if is_cond(g) and is_cond(v):
            havoc.add(key)
            return False
        if isinstance(g, tuple) and g[0] == 'bits':
            if isinstance(v, Lin) and v.is_const():
                v = bits_of(v.c, len(g[1]))
            if not isinstance(v, tuple) or v[0] != 'bits' or len(v[1]) != len(g[1]):
                raise NonInductive('kind of value changes')
            return all([self.matches(st, x, v[1][i], key + (i,), j, havoc) for i, x in enumerate(g[1])])
        if not isinstance(g, tuple) or not isinstance(v, tuple) or g[0] != v[0]:
            raise NonInductive('kind of value changes')
        if g[0] == 'agg':
            if g[1] != v[1]:
                raise NonInductive('variant changes')
            return all([self.matches(st, x, v[2][i], key + (i,), j, havoc) for i, x in enumerate(g[2])])
        if g[0] == 'ptr':
            if g[1] != v[1] or len(g[2]) != len(v[2]):
                raise NonInductive('pointer changes')
            r = [isinstance(e, int) and e == v[2][i] or not isinstance(e, int) and self.matches(st, e[1], v[2][i][1], key + ('p', i), j, havoc) for i, e in enumerate(g[2])]
            if g[3] is not None:
                r.append(self.matches(st, g[3], v[3], key + ('m',), j, havoc))
            return all(r)
        if g[0] == 'seq':
            return self.matches(st, g[1], v[1], key + ('n',), j, havoc)
        raise NonInductive('opaque value changes')

    def induct(self, s0, back, fr, h, body):
        j = self.fresh('j')
        regs = [r for r in s0.mem if r in back[0].mem]
        havoc = set()
        spoilt = [r for r, v0 in s0.x.get('spoilt', ()) if v0 == ZERO and isinstance(s0.mem.get(r), Lin) and r in regs]
        bounds, refuted = [], set()
        self.unsigned = not self.signed(fr.fn)
        for attempt in range(7):
            m = self.mark()
            start = self.nfresh
            # what holds after j >= 0 iterations
            g = s0.copy()
            g.cs = g.cs + (atom(j),)
            gen = {}
            for r in regs:
                gen[r] = g.mem[r] = self.generalise(s0.mem[r], [b.mem[r] for b in back], (r,), j, havoc, g)
            # kept by every iteration, as is checked below: the accumulator is not zero, the counter has not passed its end
            keep = [gen[r] - 1 for r in spoilt if gen[r] != s0.mem[r]]
            g.cs = g.cs + tuple(keep) + tuple(bounds)
            pre = g.copy()
            nev, ncs = len(g.ev), len(g.cs)
            self.loopvars.append(j)
            self.loopmarks.append(start)
            outs = self.region(g, fr, h, h, body)
            self.loopvars.pop()
            self.loopmarks.pop()
            bk, _ = self.again(outs, s0, fr, h)
            self.rollback(m)
            ok = all([self.matches(b, gen[r], b.mem[r], (r,), j, havoc) for b in bk for r in regs])
            if not ok:
                continue
            if not bk:
                raise NonInductive('no second iteration')
            if not all(entails(b.cs, b.mem[r] - 1) for b in bk for r in spoilt if gen[r] != s0.mem[r]):
                raise NonInductive('the accumulator may be zero again')
            bad = [c for c in bounds if not all(entails(b.cs, subst(c, {j: atom(j) + 1})) for b in bk)]
            if bad:
                refuted |= set(bad)
                bounds = [c for c in bounds if c not in bad]
                continue
            new = self.not_passed(s0, bk, j, ncs, refuted) if not bounds else []
            if new:
                bounds = new
                continue
            if any(b.x.get('pub') != pre.x.get('pub') or b.x.get('released') != pre.x.get('released') for b in bk):
                raise NonInductive('something is published')
            for b in bk:
                if not self.outdone(b.ev[nev:]) and not any(c.coef(j) < 0 and not any(isinstance(a, str) and a.startswith('loop#') for a in flat_atoms(c)) for c in b.cs[ncs:]):
                    self.bad('unbounded', b, f'nothing bounds the number of iterations of the loop in {fr.fn["path"]}')
                    break
            inv = self.invariant(s0, pre, bk, j, ncs)
            if inv is not None:
                # a condition which is the same in all iterations: one loop for each case
                self.rollback(m)
                exits = []
                for s, _ in self.split(s0.copy(), cge(inv)):
                    exits += self.induct(s, back, fr, h, body)
                return exits
            alts, writes = self.summarise(pre, bk, j, nev, ncs)
            # after j >= 1 iterations, knowing what every iteration has done
            g = pre.copy()
            if not self.add(g, atom(j) - 1):
                raise NonInductive('no iteration')
            for c in self.common(s0, bk, ncs, j):
                if not self.add(g, subst(c, {j: atom(j) - 1})):
                    g = None
                    break
            exits = []
            if g is not None:
                if len(bk) == 1:
                    fs = [c for c in bk[0].cs[ncs:] if known(c, s0, j)]
                    g.x['forall'] = g.x.get('forall', ()) + ((j, atom(j), tuple(fs)),)
                for (reg, path), entries in writes.items():
                    for pos, valts in entries:
                        self.append_log(g, reg, path, ('lw', j, atom(j), pos, valts))
                g.event('loop', j, atom(j), alts, self.where())
            if g is not None and self.learn_forall(g):
                self.loopvars.append(j)
                gm = {r: g.mem[r] for r in regs}
                pre2, nev2, ncs2 = g.copy(), len(g.ev), len(g.cs)
                outs = self.region(g, fr, h, h, body)
                self.loopvars.pop()
                bk2, ex = self.again(outs, s0, fr, h)
                if not all([self.matches(b, gm[r], b.mem[r], (r,), j, havoc) for b in bk2 for r in regs]):
                    self.rollback(m)
                    continue
                if bk2 and writes:
                    _, w2 = self.summarise(pre2, bk2, j, nev2, ncs2)
                    if canon(sorted(w2.items(), key=str)) != canon(sorted(writes.items(), key=str)) and not self.same_writes(w2, writes):
                        raise NonInductive('an iteration depends on what earlier ones have written')
                exits = [(x, b) for x, b in ex if self.learn_forall(x)]
            self.loops_seen.append((fr.fn['path'], 'induction', self.where()))
            # and the exits of the first iteration
            outs = self.region(s0.copy(), fr, h, h, body)
            return [(x, b) for x, b in self.again(outs, s0, fr, h)[1] if self.learn_forall(x)] + exits
        raise NonInductive('no invariant found')

    def not_passed(self, s0, bk, j, ncs, refuted):
        """The loop ends when the counter is *equal* to something: it never gets past it."""
        r = []
        if len(bk) > 1:
            for b in bk:
                for c in b.cs[ncs:]:
                    k = c + 1
                    if c.coef(j) == -1 and known(c, s0, j) and k not in r and k not in refuted and any(entails(x.cs, -c - 1) for x in bk if x is not b) and entails(s0.cs, subst(k, {j: ZERO})):
                        r.append(k)
        return r

    def outdone(self, ev):
        """The iteration goes on because another iterator has gone away meanwhile, which happens twice at most."""
        return any(e[0] == 'casfail' and e[1] for e in ev)

    def truth(self, st):
        """a - 1 for a new a which is 0 or 1."""
        a = atom(self.fresh('loop'))
        st.cs = st.cs + (a, ONE - a)
        return a - 1

    def signed(self, fn):
        """The locals which may hold negative numbers (not: discriminants of enums)."""
        discr = {s[1][0] for b in fn['blocks'] for s in b['s'] if s[0] == '=' and s[2][0] == 'discr'}
        return [l for l, x in enumerate(fn['locals']) if l not in discr and SIGNED.search(self.T[x[0]]['str'])]

    def invariant(self, s0, pre, bk, j, ncs):
        if len(bk) < 2:
            return None
        for c in bk[0].cs[ncs:]:
            if known(c, s0, j) and not lin.mentions(c, {j}) and self.decide(pre, cge(c)) is None and any(entails(b.cs, -c - 1) for b in bk[1:]):
                return c
        return None

    def same_writes(self, a, b):
        return canon(str(sorted(a.items(), key=str))) == canon(str(sorted(b.items(), key=str)))

    def common(self, s0, bk, ncs, j):
        """Constraints which every iteration that continues has established."""
        r = []
        for c in bk[0].cs[ncs:]:
            if not known(c, s0, j):
                continue
            if all(entails(b.cs, c) for b in bk[1:]):
                r.append(c)
        return r

    def summarise(self, pre, outs, j, nev, ncs):
        """Per kind of iteration: its conditions and effects; and what it writes to sequences."""
        alts = []
        conds = []
        for b in outs:
            cs = tuple(c for c in b.cs[ncs:] if known(c, pre, j))
            conds.append(cs)
        shared = set(conds[0]).intersection(*map(set, conds[1:])) if len(conds) > 1 else set(conds[0])
        spec = [tuple(c for c in cs if c not in shared) for cs in conds]
        for b, sp in zip(outs, spec):
            alts.append((sp, b.ev[nev:]))
        writes = {}

        def diff(a, b, reg, path, n):
            if a is b or a == b or not isinstance(a, tuple):
                return
            if a[0] == 'agg' and b[0] == 'agg':
                for i, (x, y) in enumerate(zip(a[2], b[2])):
                    diff(x, y, reg, path + (i,), n)
            elif a[0] == 'seq' and b[0] == 'seq' and a[3] != b[3]:
                if b[3][:len(a[3])] != a[3]:
                    raise NonInductive('sequence is rewritten')
                writes.setdefault((reg, path), {})[n] = b[3][len(a[3]):]
        for n, b in enumerate(outs):
            for r in pre.mem:
                if r in b.mem:
                    diff(pre.mem[r], b.mem[r], r, (), n)
        out = {}
        for key, per in writes.items():
            pats = {}
            for n, es in per.items():
                seen = set()
                for e in es:
                    if e[0] != 'w':
                        raise NonInductive('a range is written in every iteration')
                    pos = e[1]
                    if abs(pos.coef(j)) != 1:
                        raise NonInductive(f'element {pos} is written in every iteration')
                    seen.add(pos)
                    pats.setdefault(pos, {})[n] = e[2]
                if len(seen) > 1:
                    raise NonInductive('several elements are written in every iteration')
            entries = []
            for pos, vals in sorted(pats.items(), key=lambda x: str(x[0])):
                va = [vals.get(n) for n in range(len(outs))]
                if all(v is not None and v == va[0] for v in va):
                    entries.append((pos, (((), va[0]),)))
                else:
                    entries.append((pos, tuple((spec[n], va[n]) for n in range(len(outs)))))
            out[key] = entries
        return tuple(alts), out

    def all_zero(self, st, tok):
        z = zeroed(tok)
        if self.is_zeroed(st, tok) is False or refutes(st.cs, [z - 1]):
            return False
        if not entails(st.cs, z - 1):
            st.cs = st.cs + (z - 1,)
        return True

    def learn_forall(self, st):
        """All bytes of a value are zero: the value is zeroed."""
        for c in st.cs:
            for a, _ in c.t:
                if isinstance(a, tuple) and a[0] == 'byte' and a[2] == ZERO and entails(st.cs, -atom(a)):
                    n = 1
                    while n < 5 and entails(st.cs, -atom(('byte', a[1], const(n)))):
                        n += 1
                    if entails(st.cs, const(n) - atom('sizeT')) and not self.all_zero(st, a[1]):
                        return False
        for jv, count, cs in st.x.get('forall', ()):
            for c in cs:
                for a, k in c.t:
                    if isinstance(a, tuple) and a[0] == 'byte':
                        off = a[2]
                        s = off.coef(jv)
                        if abs(s) != 1 or lin.mentions(a[1], {jv}):
                            continue
                        # byte <= 0 follows?
                        if not entails(cs, -atom(a)):
                            continue
                        base = off - Lin(((jv, s),), 0)
                        lo = base if s == 1 else base - count + 1
                        size = atom('sizeT')
                        while lo.is_const() and lo.c > 0 and entails(st.cs, -atom(('byte', a[1], lo - 1))):
                            # the first ones, looked at before the loop
                            lo, count = lo - 1, count + 1
                        if entails(st.cs, -lo) and entails(st.cs, lo + count - size):
                            if not self.all_zero(st, a[1]):
                                return False
        return True


SIGNED = re.compile(r'\bi(8|16|32|64|128|size)\b')


def known(c, pre, j):
    """All quantities of the constraint exist before the iteration (or are the iteration's own)."""
    return not any(isinstance(a, str) and '#' in a and a != j and not in_state(a, pre) for a in flat_atoms(c))


def flat_atoms(x):
    if isinstance(x, Lin):
        for a, _ in x.t:
            yield from flat_atoms_a(a)
    elif isinstance(x, tuple):
        for y in x:
            yield from flat_atoms(y)


def flat_atoms_a(a):
    if isinstance(a, str):
        yield a
    elif isinstance(a, tuple):
        if a[0] == 'mul':
            for y in a[1:]:
                yield from flat_atoms_a(y)
        else:
            for y in a[1:]:
                yield from flat_atoms(y)


def in_state(a, pre):
    s = pre.x.get('_atoms')
    if s is None or s[0] is not pre.cs:
        names = set()
        for c in pre.cs:
            names.update(flat_atoms(c))
        pre.x['_atoms'] = s = (pre.cs, names)
    return a in s[1]


def canon(s):
    s = str(s)
    m = {}
    return re.sub(r'\w+#\d+', lambda x: m.setdefault(x.group(0), f'v{len(m)}'), s)


def zeroed(tok):
    return atom(('bool', 'zeroed', tok))


def exact_div(a, b):
    """a / b when every term of a has b as a factor."""
    if b.is_const():
        if b.c and all(k % b.c == 0 for _, k in a.t) and a.c % b.c == 0:
            return Lin(tuple((x, k // b.c) for x, k in a.t), a.c // b.c)
        return None
    if len(b.t) != 1 or b.c or b.t[0][1] != 1:
        return None
    f = b.t[0][0]
    r = ZERO
    if a.c:
        return None
    for x, k in a.t:
        if x == f:
            r = r + k
        elif isinstance(x, tuple) and x[0] == 'mul' and f in x[1:]:
            fs = list(x[1:])
            fs.remove(f)
            r = r + atom(fs[0] if len(fs) == 1 else ('mul',) + tuple(fs)).scale(k)
        else:
            return None
    return r

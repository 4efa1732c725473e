"""The protocol model: sessions in an arbitrary consistent state, and what is watched while an operation is interpreted.

Quantities of a session, relative to the iterator under analysis ("own"):
  n      length of the buffer           i    own local index at the start of the operation
  b      how far own is ahead of its published index (0 unless detached)
  d0     how many slots own may use, as far as it could know before the operation (cached_avail <= d0)
  d#k    the same at the k-th look at the successor's published index during the operation; d0 <= d#1 <= d#2 ...
A published index is always given as i + displacement (mod n)."""
import lin
from lin import Lin, const, atom, ZERO, ONE, mul, subst_any, entails, entails_eq, refutes
from values import *
from interp import Interp, St, zeroed, flat_atoms
from natives import Natives

SUCC = {'P': 'C', 'W': 'P', 'CW': 'W', 'CF': 'P'}
OWN = {'P': 'P', 'W': 'W', 'CW': 'C', 'CF': 'C'}
ACQ = ('Acquire', 'AcqRel', 'SeqCst')
REL = ('Release', 'AcqRel', 'SeqCst')
BIG = 1 << 62


BOXED = ('drop', 'is_prod_alive', 'is_work_alive', 'is_cons_alive', 'detach', 'attach', 'into_sync', 'from_sync', 'index', 'available')


class ShapeError(Exception):
    pass


def boolatom(st, name):
    a = atom(name)
    st.cs = st.cs + (a, ONE - a)
    return ('ge', a - 1)


def fresh_in_loop(I, v):
    """The value was learned in the current iteration of the loop, or in the one before."""
    return bool(I.loopmarks) and any(isinstance(a, str) and '#' in a and int(a.split('#')[1]) > I.loopmarks[-1] for a in flat_atoms(v))


def iff(I, st, a, b):
    return a == b or all(I.decide(s, b) is r for s, r in I.split(st.copy(), a))


def elements(v):
    """The elements of a short array, None for other sequences."""
    if v[0] != 'seq' or not isinstance(v[1], Lin) or not v[1].is_const() or not 0 <= v[1].c <= 16:
        return None
    if v[2] == 'undef' or v[2] == 'zero' or v[2][0] not in ('rep', 'undef'):
        els = {}
    elif v[2][0] == 'rep':
        els = {i: v[2][1] for i in range(v[1].c)}
    else:
        els = {}
    for e in v[3]:
        if e[0] != 'w' or not e[1].is_const():
            return None
        els[e[1].c] = e[2]
    return els if len(els) == v[1].c else None


def get(v, path):
    for e in path:
        if isinstance(e, tuple):
            v = elements(v)[e[1].c]
        else:
            v = v[2][e]
    return v


def put(v, path, x):
    if not path:
        return x
    e = path[0]
    if isinstance(e, tuple):
        els = elements(v)
        els[e[1].c] = put(els[e[1].c], path[1:], x)
        return seq(v[1], 'undef', tuple(('w', const(i), els[i]) for i in sorted(els)))
    return ('agg', v[1], v[2][:e] + (put(v[2][e], path[1:], x),) + v[2][e + 1:])


def typed(T, ty, v, path=()):
    """Leaves of a value with their types."""
    t = T[ty]
    k = t['k']
    if T.zst(ty):
        return
    if k == 'pat':
        yield from typed(T, t['base'], v, path)
        return
    nt = T.newtype(ty)
    if nt is not None:
        f = t['variants'][0]['fields'][nt]['ty'] if k == 'adt' else t['elts'][nt]
        yield from typed(T, f, v, path)
        return
    if k == 'adt' and not t['enum'] and not T.native_adt(t) and isinstance(v, tuple) and v[0] == 'agg':
        for i, f in enumerate(t['variants'][0]['fields']):
            if not T.zst(f['ty']):
                yield from typed(T, f['ty'], v[2][i], path + (i,))
        return
    if k == 'tuple' and isinstance(v, tuple) and v[0] == 'agg':
        for i, f in enumerate(t['elts']):
            if not T.zst(f):
                yield from typed(T, f, v[2][i], path + (i,))
        return
    if k == 'array' and isinstance(v, tuple) and v[0] == 'seq' and elements(v):
        for i, x in elements(v).items():
            yield from typed(T, t['elt'], x, path + (('i', const(i)),))
        return
    yield path, ty, v


class Model:
    """All sessions of one configuration."""

    def __init__(self, dump):
        self.d = dump
        self.cfg = dump['cfg']
        self.roots = dump['roots']
        self.meta = dump['meta']
        self.hooks = Hooks()
        self.I = Interp(dump, Natives(), self.hooks)
        self.cache = {}
        self.vmem = 'vmem' in self.cfg
        self.boxed_stack()

    def boxed_stack(self):
        """Stack buffers which a split moves to the heap are sessions of their own kind (CB)."""
        r = self.roots.get('roots::buf_CS::split_async')
        if r is None:
            return
        f = self.d['fns'][r['fn']]
        if self.I.T[f['locals'][1][0]]['k'] == 'ref':
            return
        self.roots, self.meta = dict(self.roots), dict(self.meta)
        for k in list(self.roots):
            if '_CS::' in k:
                b = k.replace('_CS::', '_CB::')
                self.roots[b] = self.roots[k]
                t = self.meta.get(k)
                if t is not None and t['wrap'] != 'buf' and (t['op'] in BOXED):
                    self.meta[b] = dict(t, var='CB')

    def fn(self, root):
        r = self.roots.get(root)
        if r is None:
            raise ShapeError(f'the entry point {root} is missing')
        return r['fn']

    def heap(self, var):
        return var[1] == 'H'

    def length(self, var):
        return atom('n') if self.heap(var) else atom('N')

    def base_state(self, var):
        st = St()
        n = self.length(var)
        z = atom('sizeT')
        nz = mul(n, z)
        st.cs = (n - 1, const(BIG) - n, z - 1, const(BIG) - nz, nz - n, nz - z)
        return st

    def quiet(self):
        """A fresh interpreter state; nothing is watched."""
        self.hooks.s = None
        self.I.reset()
        return self.I

    def only(self, outs, what):
        if len(outs) != 1:
            raise ShapeError(f'{what}: {len(outs)} outcomes where one is expected')
        return outs[0]

    # --- construction ----------------------------------------------------------------------------------------------

    def run_from(self, var, st):
        I = self.I
        n = self.length(var)
        if self.heap(var):
            r = I.new_region(st, seq(n, ('sym', 'slot')), 'heap:items')
            a = agg(ptr(r, (('i', ZERO),)), n)
        else:
            a = seq(n, ('sym', 'slot'))
        return I.exec_fn(st, self.fn(f'roots::buf_{var}::from'), (a,))

    def built(self, var):
        """[(state, buffer value)] of buffers made from a vector or array of n items."""
        self.quiet()
        n = self.length(var)
        outs = self.run_from(var, self.base_state(var))
        # (where items are moved one by one, the buffer of one item may be a case of its own)
        outs.sort(key=lambda x: not refutes(x[0].cs, [n - 2]))
        r = []
        for st, v in outs:
            r.append((st, rename(st, v, n)))
            for g in list(st.mem):
                st.mem[g] = rename(st, st.mem[g], n)
        return r

    def split_how(self, var, st, v, how):
        """[(state, iterators)]; for stack buffers the buffer is in a region of its own."""
        I = self.I
        f = self.d['fns'][self.fn(f'roots::buf_{var}::{how}')]
        if I.T[f['locals'][1][0]]['k'] == 'ref':
            v = ptr(I.new_region(st, v, 'buffer variable'))
        return I.exec_fn(st, self.fn(f'roots::buf_{var}::{how}'), (v,))

    def raw_session(self, var, kind):
        """(state, iterator value) straight after construction and splitting."""
        key = ('raw', var, kind)
        if key in self.cache:
            return self.cache[key]
        outs = self.built(var)
        st, v = outs[-1]
        how = 'split' if kind == 'CF' else 'split_mut'
        if var == 'CB':
            how += '_async'
        st, its = self.only(self.split_how(var, st, v, how), f'{how} of {var}')
        if its[0] != 'agg':
            raise ShapeError('split does not return a tuple')
        it = its[2][{'P': 0, 'W': 1, 'CW': 2, 'CF': 1}[kind]]
        if var == 'CB':
            st, it = self.only(self.I.exec_fn(st, self.fn(f'roots::async_{kind}_CB::into_sync'), (it,)), 'into_sync')
        r = self.cache[key] = (st, it)
        return r

    # --- shapes ------------------------------------------------------------------------------------------------------

    def iter_type(self, wrap, kind, var):
        op = {'sync': 'drop', 'det': 'drop', 'async': 'drop', 'adet': 'drop'}[wrap]
        f = self.d['fns'][self.fn(f'roots::{wrap}_{kind}_{var}::{op}')]
        return f['locals'][1][0]

    def shape(self, var, kind, wrap):
        key = ('shape', var, kind, wrap)
        if key not in self.cache:
            try:
                self.cache[key] = Shape(self, var, kind, wrap)
            except (ShapeError, Unsupported) as e:
                self.cache[key] = e
        r = self.cache[key]
        if isinstance(r, Exception):
            raise ShapeError(str(r))
        return r


def rename(st, v, n):
    """The value with n for the quantities which equal it."""
    if isinstance(v, Lin):
        return n if not v.is_const() and v != n and entails_eq(st.cs, v - n) else v
    if isinstance(v, tuple) and v and v[0] == 'agg':
        return ('agg', v[1], tuple(rename(st, x, n) for x in v[2]))
    if isinstance(v, tuple) and v and v[0] == 'ptr':
        return v[:3] + (rename(st, v[3], n),)
    if isinstance(v, tuple) and v and v[0] == 'seq':
        return (v[0], rename(st, v[1], n)) + v[2:]
    return v


class Shape:
    """Where the parts of the protocol live in the iterator and in the buffer."""

    def __init__(self, m, var, kind, wrap):
        self.m, self.var, self.kind, self.wrap = m, var, kind, wrap
        self.own, self.succ = OWN[kind], SUCC[kind]
        I, T = m.I, m.I.T
        st0, it = m.raw_session(var, kind)
        n = m.length(var)
        # the buffer: what the iterator points to
        ity = m.iter_type('sync', kind, var)
        bufs = [(p, v) for p, ty, v in typed(T, ity, it) if isinstance(v, tuple) and v[0] == 'ptr']
        if len(bufs) != 1:
            raise ShapeError('the iterator does not hold one pointer to the buffer')
        self.buf = bufs[0][1][1]
        self.bufpath = bufs[0][1][2]
        if self.bufpath:
            raise ShapeError('the iterator points to the inside of the buffer')
        bv = st0.mem[self.buf]
        self.template = bv
        # leaves of the buffer
        self.st = st = St()
        st.cs = m.base_state(var).cs
        st.mem = dict(st0.mem)
        ints, bools, self.stor = [], [], None

        def leaves(v, path):
            if isinstance(v, Lin):
                if v != n:
                    ints.append((path, v))
            elif v is True or v is False:
                bools.append((path, v))
            elif v[0] == 'agg':
                for i, x in enumerate(v[2]):
                    leaves(x, path + (i,))
            elif v[0] == 'ptr':
                if v[1] in st0.mem and isinstance(st0.mem[v[1]], tuple) and st0.mem[v[1]][0] == 'seq':
                    self.stor = (v[1], ())
            elif v[0] == 'seq' and elements(v):
                for i, x in elements(v).items():
                    leaves(x, path + (('i', const(i)),))
            elif v[0] == 'seq':
                self.stor = (self.buf, path)
        leaves(bv, ())
        if self.stor is None:
            raise ShapeError('no storage of the items is found in the buffer')
        # run the accessors on a buffer of unknown contents
        v2 = bv
        for path, x in ints:
            v2 = put(v2, path, atom(f'L{path}'))
        I.reset()
        I.nreg = max([r for r in st.mem if isinstance(r, int)] + [1000]) + 1
        self.nreg = I.nreg
        m.hooks.s = None
        iti = it
        self.iints = [p for p, ty, v in typed(T, ity, it) if isinstance(v, Lin) and v != n]
        for p in self.iints:
            iti = put(iti, p, atom(f'I{p}'))
        self.leaf = {}
        sync = f'roots::sync_{kind}_{var}::'
        s = st.copy()
        s.mem[self.buf] = v2

        def call(op, stx, itv):
            s1 = stx.copy()
            r = I.new_region(s1, itv, 'iterator')
            return m.only(I.exec_fn(s1, m.fn(sync + op), (ptr(r),)), op)
        for role, op in (('P', 'prod_index'), ('W', 'work_index'), ('C', 'cons_index')):
            _, r = call(op, s, iti)
            hit = [p for p, _ in ints if r == atom(f'L{p}')]
            if len(hit) != 1:
                raise ShapeError(f'{op} does not return one of the indices stored in the buffer')
            self.leaf[hit[0]] = ('idx', role)
        if len(self.leaf) != 3:
            raise ShapeError('the three published indices are not distinct')
        # flags
        rest = [(p, x) for p, x in ints if p not in self.leaf]
        v3 = bv
        self.flagbits = {}
        fl = {}
        for path, x in rest:
            w = self.width(T, path) or 8
            bits = tuple((('ge', atom(f'F{path}.{b}') - 1) if x.c >> b & 1 or b < 3 and w == 8 else False) for b in range(w))
            v3 = put(v3, path, ('bits', bits))
            for b, c in enumerate(bits):
                if c is not False:
                    fl[f'F{path}.{b}'] = (path, b)
        for path, x in bools:
            v3 = put(v3, path, ('ge', atom(f'F{path}') - 1))
            fl[f'F{path}'] = (path, None)
        s = st.copy()
        s.mem[self.buf] = v3
        for a in fl:
            s.cs = s.cs + (atom(a), ONE - atom(a))
        self.flag = {}
        for role, op in (('P', 'is_prod_alive'), ('W', 'is_work_alive'), ('C', 'is_cons_alive')):
            s1 = s.copy()
            r = I.new_region(s1, iti, 'iterator')
            outs = I.exec_fn(s1, m.fn(sync + op), (ptr(r),))
            hit = [x for a, x in fl.items() if all(iff(I, t, c, ('ge', atom(a) - 1)) for t, c in outs)]
            if len(hit) != 1:
                raise ShapeError(f'{op} does not return one of the flags stored in the buffer')
            self.flag[role] = hit[0]
        for role, (path, b) in self.flag.items():
            self.leaf[path] = ('flags',)
        self.others = [p for p, _ in rest + [(p, x) for p, x in bools] if p not in self.leaf]
        # the iterator in its wrapper
        _, r = call('index', s, iti)
        hit = [p for p in self.iints if r == atom(f'I{p}')]
        if len(hit) != 1:
            raise ShapeError('index() does not return one of the fields of the iterator')
        names = {f'I{p}': ('index' if p == hit[0] else 'cached') for p in self.iints}
        s = st.copy()
        s.mem[self.buf] = v2
        steps = {'sync': [], 'det': [('sync', 'detach')], 'async': [('async', 'from_sync')], 'adet': [('async', 'from_sync'), ('async', 'detach')]}[wrap]
        v = iti
        for w, op in steps:
            s, v = m.only(I.exec_fn(s, m.fn(f'roots::{w}_{kind}_{var}::{op}'), (v,)), op)
        self.ity = m.iter_type(wrap, kind, var)
        self.index, self.cached, self.lens, self.extra, self.wakers = None, [], [], [], []
        for p, ty, x in typed(T, self.ity, v):
            if isinstance(x, Lin):
                role = names.get(x.t[0][0]) if len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1 else None
                if role == 'index' and self.index is None:
                    self.index = p
                elif role == 'cached':
                    self.cached.append(p)
                elif x == n:
                    self.lens.append(p)
                else:
                    self.extra.append(p)
            elif isinstance(x, tuple) and x[0] == 'agg' and 'Waker' in T[ty]['str']:
                self.wakers.append((p, ty))
        if self.index is None:
            raise ShapeError('the wrapper loses the index of the iterator')
        self.it = v
        if I.abnormal:
            raise ShapeError('the accessors do not run: ' + I.abnormal[0][3])

    def width(self, T, path):
        f = self.m.d['fns'][self.m.fn(f'roots::buf_{self.var}::drop')]
        for p, ty, v in typed(T, f['locals'][1][0], self.template):
            if p == path and T.kind(ty) == 'int':
                return T[T.strip(ty)]['bits']
        return None


class Sess:
    """One iterator of one buffer in an arbitrary consistent state."""

    def __init__(self, m, var, kind, wrap, waker=False):
        self.m, self.var, self.kind, self.wrap = m, var, kind, wrap
        self.sh = m.shape(var, kind, wrap)
        self.conc = var[0] == 'C'
        self.detached = wrap in ('det', 'adet')
        self.own, self.succ = OWN[kind], SUCC[kind]
        self.delta = 1 if kind == 'P' else 0
        self.n = m.length(var)
        self.buf = self.sh.buf
        self.stor = self.sh.stor
        self.heap = m.heap(var) or var == 'CB'
        self.waker = waker
        self.i, self.b, self.d0 = atom('i'), (atom('b') if self.detached else ZERO), atom('d0')

    def starts(self):
        """[(state, iterator value)]: every way the session can look when an operation starts."""
        m, sh, n, i = self.m, self.sh, self.n, self.i
        I = m.I
        I.reset()
        I.nreg = sh.nreg
        I.rname = {self.buf: 'heap' if self.heap else 'buffer variable'}
        if m.heap(self.var) and not m.vmem:
            I.rname[self.stor[0]] = 'heap:items'
        m.hooks.s = self
        st = St()
        st.cs = m.base_state(self.var).cs
        st.cs += (i, n - i - 1, self.d0, n - 1 - self.b - self.d0)
        if self.detached:
            st.cs += (self.b,)
        st.mem = {k: v for k, v in sh.st.mem.items() if k in (self.buf, self.stor[0])}
        it = sh.it
        it = put(it, sh.index, i)
        for k, p in enumerate(sh.cached):
            c = atom(f'c{k}')
            st.cs += (c, self.d0 - c)
            it = put(it, p, c)
        for k, p in enumerate(sh.extra):
            c = atom(f'x{k}')
            st.cs += (c, n - c)
            it = put(it, p, c)
        if self.waker:
            for p, ty in sh.wakers:
                it = put(it, p, some(('op', 'waker', 'old')))
        # storage
        base = ('sym', 'slot', 'mirror') if m.vmem else ('sym', 'slot')
        if self.stor[1] == ():
            st.mem[self.stor[0]] = seq(n, base)
        bv = sh.template
        if self.stor[1]:
            bv = put(bv, self.stor[1], seq(n, base))
        # flags
        st.x['flag'] = {}
        for role, (path, bit) in sh.flag.items():
            if role == self.own:
                c = True
            elif role == 'W' and self.kind == 'CF':
                c = False
            else:
                c = boolatom(st, f'alive{role}')
            st.x['flag'][role] = c
            if bit is None:
                bv = put(bv, path, c)
            else:
                old = get(bv, path)
                if isinstance(old, Lin):
                    old = bits_of(0, sh.width(I.T, path) or 8)
                bv = put(bv, path, ('bits', old[1][:bit] + (c,) + old[1][bit + 1:]))
        # indices
        for path, role in sh.leaf.items():
            if role[0] == 'idx' and role[1] not in (self.own, self.succ):
                o = atom('other' + role[1])
                st.cs += (o, n - o - 1)
                bv = put(bv, path, o)
        st.x.update(ev=((self.d0, True, False),), pub=-self.b, relf=False)
        states = [(st, bv)]
        pown, psucc = self.ipath(self.own), self.ipath(self.succ)
        res = []
        for s, v in states:
            for s2, q in self.modn(s, i - self.b):
                w = put(v, pown, q)
                if self.conc:
                    s2.mem[self.buf] = w
                    res.append(s2)
                else:
                    d1 = atom('d1')
                    s2.cs += (d1 - self.d0, n - 1 - self.b - d1)
                    for s3, x in self.modn(s2, i + d1 + self.delta):
                        s3.mem[self.buf] = put(w, psucc, x)
                        s3.x['d1'] = d1
                        res.append(s3)
        return [(s, it) for s in res]

    def ipath(self, role):
        for p, r in self.sh.leaf.items():
            if r == ('idx', role):
                return p

    def site(self, I):
        """Which call of the entry point is under way."""
        return I.stack[1][1] if len(I.stack) > 1 else '.'

    def modn(self, st, l, hi=1):
        """[(state, l mod n)] for -n <= l < (hi+1) n"""
        out = []
        for k in range(-1, hi + 1):
            s = st.copy()
            v = l - self.n.scale(k)
            if self.m.I.add(s, v) and self.m.I.add(s, self.n - v - 1):
                out.append((s, v))
        return out

    def congruent(self, st, a, b):
        """a = b (mod n), for quantities which are at most two lengths apart"""
        d = a - b
        for k in (0, 1, -1, 2, -2):
            if entails_eq(st.cs, d + self.n.scale(k)):
                return True
        return False

    def disp(self, st, v):
        """The displacements x with v = i + x (mod n) which are not refuted: candidates in (-n, 2n)."""
        return [v - self.i + self.n.scale(k) for k in (0, 1, -1)]

    def evidence(self, st, acquired=True):
        return [d for d, a, _ in st.x['ev'] if a or not acquired]

    def covered(self, st, x, acquired=True):
        """x slots from the index were observed to be usable"""
        return any(entails(st.cs, d - x) for d in self.evidence(st, acquired))

    def find_disp(self, st, v):
        """x with v = i + x (mod n), -b.. (or what is still unpublished) <= x <= evidence; None when there is none."""
        for x in self.disp(st, v):
            if entails(st.cs, x + self.b) and self.covered(st, x):
                return x
        return None

    def rights(self, st):
        """After its own flag is cleared: has the iterator seen that all others are gone?"""
        r = st.x.get('released')
        return r is not None and self.m.I.decide(st, r) is True


class Hooks:
    """Watches the accesses to the buffer of the current session."""

    def __init__(self):
        self.s = None

    # --- classification --------------------------------------------------------------------------------------------

    def role(self, p):
        s = self.s
        if p[1] == s.buf:
            r = s.sh.leaf.get(p[2])
            if r:
                return r
        if p[1] == s.stor[0]:
            n = len(s.stor[1])
            if p[2][:n] == s.stor[1] and len(p[2]) > n:
                e = p[2][n]
                if not isinstance(e, int) and e[0] == 'i':
                    return ('slot', e[1])
        if p[1] == s.buf:
            return ('buf',)
        return None

    def check_released(self, I, st):
        s = self.s
        if s.heap and s.conc and st.x.get('released') is not None and not s.rights(st):
            I.bad('after-release', st, 'the buffer is accessed after the iterator gave up its share of it: another iterator may have freed it')

    # --- plain accesses --------------------------------------------------------------------------------------------

    def on_load(self, I, st, p, plain):
        s = self.s
        if s is None:
            return None
        r = self.role(p)
        if r is None:
            return None
        self.check_released(I, st)
        if r[0] == 'slot':
            self.slot(I, st, r[1], False)
            return None
        if r[0] == 'buf':
            return None
        if s.conc and plain and not s.rights(st):
            I.bad('race', st, 'a field which other threads change is read without synchronisation')
        return self.leaf_load(I, st, p, r, None if plain else 'Relaxed')

    def on_store(self, I, st, p, v, plain):
        s = self.s
        if s is None:
            return None
        r = self.role(p)
        if r is None:
            return None
        self.check_released(I, st)
        if r[0] == 'slot':
            self.slot(I, st, r[1], True)
            return None
        if r[0] == 'buf':
            if st.x.get('released') is None:
                I.bad('foreign', st, 'a part of the buffer which is not the iterator\'s own index is written')
            return None
        if s.conc and plain:
            I.bad('race', st, 'a field which other threads use is written without synchronisation')
        return self.leaf_store(I, st, p, r, v, None if plain else 'Relaxed')

    def slot(self, I, st, idx, write):
        """An access to a slot: it must belong to the iterator."""
        s = self.s
        st.x['relf'] = False
        n = s.n
        hi = n.scale(2) if s.m.vmem else n
        if not (entails(st.cs, idx) and entails(st.cs, hi - idx - 1)):
            I.bad('bounds', st, f'slot {idx} of a buffer of length {n} is accessed')
            return
        if st.x.get('released') is not None:
            return
        lo = st.x['pub']
        for x in s.disp(st, idx) + ([idx - s.i - n.scale(2)] if s.m.vmem else []):
            if entails(st.cs, x - lo) and s.covered(st, x + 1):
                return
        for x in s.disp(st, idx):
            if entails(st.cs, x - lo) and s.covered(st, x + 1, False):
                I.bad('unordered', st, f'slot {idx} is accessed on the strength of a look at the successor\'s index which does not synchronise with it')
                return
        I.bad('access', st, f'slot {idx} is {"written" if write else "read"}, which was not observed to belong to the iterator at index {s.i} (published displacement {lo}, observed {", ".join(str(d) for d in s.evidence(st))})')

    # --- protocol fields -----------------------------------------------------------------------------------------------

    def leaf_load(self, I, st, p, r, order):
        s = self.s
        if r[0] == 'flags':
            return self.flags_load(I, st, p, order)
        role = r[1]
        if role == s.own:
            return None
        if role != s.succ:
            if not s.conc:
                return None
            a = atom(I.fresh('other' + role))
            st.cs += (a, s.n - a - 1)
            return [(st, a)]
        if not s.conc:
            st.x['ev'] = st.x['ev'] + ((st.x['d1'], True, s.site(I)),)
            return None
        d = atom(I.fresh('d'))
        last = st.x['ev'][-1][0]
        st.cs += (d - last, s.n - 1 + st.x['pub'] - d)
        st.x['ev'] = st.x['ev'] + ((d, order in ACQ, s.site(I)),)
        return s.modn(st, s.i + d + s.delta, 2)

    def flags_load(self, I, st, p, order):
        s = self.s
        if not s.conc:
            return None
        v = get(st.mem[s.buf], p[2])
        self.fresh_flags(I, st)
        return [(st, self.flag_value(st, p[2], v))]

    def fresh_flags(self, I, st):
        """Another look at the flags: peers may have gone, they do not come back."""
        s = self.s
        f = dict(st.x['flag'])
        for role, c in f.items():
            if role != s.own and c is not False:
                a = atom(I.fresh('alive' + role))
                st.cs += (a, ONE - a, c[1] - a + 1)
                f[role] = ('ge', a - 1)
        st.x['flag'] = f

    def flag_value(self, st, path, v):
        s = self.s
        w = v[1] if isinstance(v, tuple) and v[0] == 'bits' else None
        for role, (q, bit) in s.sh.flag.items():
            if q == path:
                c = st.x['flag'][role]
                if bit is None:
                    return c
                w = w[:bit] + (c,) + w[bit + 1:]
        return ('bits', w)

    def leaf_store(self, I, st, p, r, v, order):
        s = self.s
        if r[0] == 'flags':
            return self.flags_store(I, st, p, v, order)
        role = r[1]
        if role != s.own:
            I.bad('foreign', st, f'the published index of another iterator ({role}) is written')
            return None
        if not isinstance(v, Lin):
            I.bad('foreign', st, 'something which is not an index is published')
            return None
        x = s.find_disp(st, v)
        if not (entails(st.cs, v) and entails(st.cs, s.n - v - 1)):
            I.bad('range', st, f'the index {v} is published, which is not below the length')
        if x is None:
            ok = [y for y in s.disp(st, v) if entails(st.cs, y + s.b) and s.covered(st, y, False)]
            if ok:
                I.bad('unordered', st, f'the index {v} is published on the strength of a look at the successor\'s index which does not synchronise with it')
                x = ok[0]
            else:
                I.bad('overstep', st, f'the index {v} is published; the iterator at {s.i} was observed to be allowed at most {", ".join(str(d) for d in s.evidence(st))} slots')
                x = v - s.i
        elif not entails(st.cs, x - st.x['pub']):
            I.bad('overstep', st, f'the index {v} is published, which lies behind the one published before')
        if s.conc and order not in REL and not st.x['relf']:
            I.bad('unordered', st, 'the index is published without Release: what was done to the slots may be seen late')
        st.event('pub', v, order, I.where())
        st.x['pub'] = x
        return None

    def flags_store(self, I, st, p, v, order):
        s = self.s
        path = p[2]
        if s.conc:
            if not s.rights(st):
                I.bad('flag', st, 'the flags are overwritten without an atomic read-modify-write: a simultaneous change is lost')
            return None
        old = get(st.mem[s.buf], path)
        return self.flags_change(I, st, path, old, v, 'local')

    def flags_change(self, I, st, path, old, new, order):
        """The flags in one field change from old to new, in one step."""
        s = self.s
        f = dict(st.x['flag'])
        cleared = False
        for role, (q, bit) in s.sh.flag.items():
            if q != path:
                continue
            nv = new if bit is None else (new[1][bit] if isinstance(new, tuple) and new[0] == 'bits' else bool(new.c >> bit & 1) if isinstance(new, Lin) else None)
            if isinstance(nv, Lin):
                nv = bool(nv.c)
            if nv is None:
                raise Unsupported(f'flags {vstr(new)}', I.line)
            if role == s.own:
                if I.decide(st, nv) is False:
                    cleared = True
                    if f[role] is False:
                        I.bad('flag', st, 'the iterator\'s flag is cleared twice')
                    f[role] = False
                elif I.decide(st, nv) is not True or f[role] is False:
                    I.bad('flag', st, 'the iterator\'s own flag is set again')
            elif not iff(I, st, nv, f[role]):
                I.bad('flag', st, f'the flag of another iterator ({role}) is changed')
        st.x['flag'] = f
        st.event('flag', cleared, order, I.where())
        if cleared:
            dead = True
            for role, c in f.items():
                if role != s.own:
                    dead = cand(dead, cnot(c))
            st.x['released'] = dead
            st.x['rel_order'] = order
        return None

    # --- atomics -----------------------------------------------------------------------------------------------------

    def at_load(self, I, st, p, order):
        if self.s is None or not (isinstance(p, tuple) and p[0] == 'ptr'):
            return None
        r = self.role(p)
        if r is None or r[0] in ('slot', 'buf') or not I.alive(st, p[1]):
            return None
        self.check_released(I, st)
        x = self.leaf_load(I, st, p, r, order)
        if r[0] == 'flags' and x is not None:
            for s, _ in x:
                s.event('flagload', order, I.where())
        if x is None:
            return I.walk(st, st.mem[p[1]], p[2])
        return x

    def at_store(self, I, st, p, v, order):
        if self.s is None or not (isinstance(p, tuple) and p[0] == 'ptr'):
            return None
        r = self.role(p)
        if r is None or r[0] in ('slot', 'buf') or not I.alive(st, p[1]):
            return None
        self.check_released(I, st)
        self.leaf_store(I, st, p, r, v, order)
        return self.raw_store(I, st, p, v)

    def raw_store(self, I, st, p, v):
        out = []
        for s, nv in I.update(st, st.mem[p[1]], p[2], v):
            s.mem[p[1]] = nv
            out.append(s)
        return out

    def at_rmw(self, I, st, p, f, order):
        if self.s is None or not (isinstance(p, tuple) and p[0] == 'ptr'):
            return None
        r = self.role(p)
        if r is None or r[0] in ('slot', 'buf') or not I.alive(st, p[1]):
            return None
        self.check_released(I, st)
        out = []
        loads = self.leaf_load(I, st, p, r, order)
        if loads is None:
            loads = I.walk(st, st.mem[p[1]], p[2])
        for s, old in loads:
            for s2, new in f(s, old):
                if r[0] == 'flags':
                    self.flags_change(I, s2, p[2], old, new, order)
                    if isinstance(new, Lin) and isinstance(old, tuple):
                        new = bits_of(new.c, len(old[1]))
                else:
                    self.leaf_store(I, s2, p, r, new, order)
                for s3 in self.raw_store(I, s2, p, new):
                    out.append((s3, old))
        return out

    def at_cas(self, I, st, p, want, new, order, forder, weak=False):
        if self.s is None or not (isinstance(p, tuple) and p[0] == 'ptr'):
            return None
        r = self.role(p)
        if r is None or r[0] in ('slot', 'buf') or not I.alive(st, p[1]):
            return None
        self.check_released(I, st)
        out = []
        loads = self.leaf_load(I, st, p, r, order)
        if loads is None:
            loads = I.walk(st, st.mem[p[1]], p[2])
        for s, old in loads:
            for s2, c in I.binop(s, 'Eq', old, want, None):
                ways = [(f, fresh_in_loop(I, want)) for f in I.assume(s2.copy(), cnot(c))]
                if weak:
                    ways += [(f, True) for f in I.assume(s2.copy(), c)]
                for f, told in ways:
                    if r[0] == 'flags':
                        # told: what was expected was learned in the loop, or the failure is spurious
                        f.event('casfail', bool(told))
                    out.append((f, old, False))
                for s3 in I.assume(s2, c):
                    if r[0] == 'flags':
                        self.flags_change(I, s3, p[2], old, new, order)
                    else:
                        self.leaf_store(I, s3, p, r, new, order)
                    for s4 in self.raw_store(I, s3, p, new):
                        out.append((s4, old, True))
        return out

    def fence(self, I, st, order):
        if self.s is None:
            return
        if order in ACQ:
            st.x['ev'] = tuple((d, True, o) for d, _, o in st.x['ev'])
            st.x['acqf'] = True
            if st.x.get('released') is not None and st.x.get('rel_order') == 'Release':
                st.x['rel_order'] = 'AcqRel'
            st.event('fence', order)
        if order in REL:
            st.x['relf'] = True

"""Rules about buffers before and between sessions: construction, splitting, teardown, single slots, page computations."""
from lin import Lin, const, atom, ZERO, ONE, mul, subst_any, entails, entails_eq, refutes
from values import *
from interp import St, zeroed, exact_div
from model import *

ROLES = {'split': 'PC', 'split_async': 'PC', 'split_mut': 'PWC', 'split_mut_async': 'PWC'}
SPLIT_KIND = {('P', 2): 'P', ('C', 2): 'CF', ('P', 3): 'P', ('W', 3): 'W', ('C', 3): 'CW'}
HUGE = 1 << 60


class BufRules:

    def buffer(self):
        op = self.op
        self.paths = 0
        if op in ('from', 'new_zeroed', 'default'):
            self.constructor()
        elif op == 'drop':
            self.buf_drop()
        else:
            self.split()

    def done(self, ok_panic=None):
        keep = []
        for a in self.I.abnormal:
            if a[0] == 'panic' and ok_panic is not None and ok_panic(a[1]):
                self.obs_ok('panic', 'a documented panic')
                continue
            keep.append(a)
        self.I.abnormal[:] = keep
        self.abnormal()

    def obs_ok(self, rule, detail):
        self.ob(rule, True, detail, '', props=set(self.claims))

    # --- construction ---------------------------------------------------------------------------------------------------

    def run_ctor(self, st):
        m, I, var = self.m, self.I, self.var
        if self.op == 'from':
            return m.run_from(var, st)
        return I.exec_fn(st, m.fn(self.root), (self.len_arg,) if m.heap(var) else ())

    def constructor(self):
        m, var = self.m, self.var
        sh = m.shape(var, 'P', 'sync')
        n = m.length(var)
        _, ref = m.built(var)[-1]
        # n >= 1
        I = m.quiet()
        st = m.base_state(var)
        st.x['occ'] = True
        self.len_arg = n
        outs = self.run_ctor(st)
        for s, v in outs:
            self.paths += 1
            self.st = s
            self.constructed(s, v, ref, sh, n)
        if not outs:
            self.ob('construct', False, 'a buffer is built', f'no buffer is built from {n} >= 1 items', None)
        self.done(self.ctor_panic if m.vmem else None)
        # n = 0
        I = m.quiet()
        st = m.base_state(var)
        st.cs = tuple(c for c in st.cs if c == atom('sizeT') - 1) + (n, -n)
        self.len_arg = ZERO
        outs = self.run_ctor(st)
        self.ob('construct', not outs, 'n = 0 is refused', 'a buffer of length 0 is built without a panic', outs[0][0] if outs else None)
        self.ob('construct', any(k == 'panic' for k, *_ in I.abnormal), 'n = 0 panics', 'nothing panics for length 0')
        I.abnormal[:] = [a for a in I.abnormal if a[0] != 'panic']
        self.abnormal()

    def ctor_panic(self, st):
        """Lengths which are no multiple of the page size, failed system calls and sizes which no machine has."""
        if self.op == 'from' and any(isinstance(a, tuple) and a[0] == 'mod' and a[2] == atom('page') and entails(st.cs, atom(a) - 1) for c in st.cs for a, _ in c.t):
            return True
        if self.op == 'from' and entails(st.cs, atom('page') - self.m.length(self.var) - 1):
            return True
        for e in st.ev:
            if e[0] == 'sys' and len(e) > 3:
                r = e[3]
                if r == const((1 << 64) - 1) or isinstance(r, Lin) and entails(st.cs, -r - 1):
                    return True
        big = []
        for c in st.cs:
            for a, _ in c.t:
                if a == 'sizeT' or isinstance(a, tuple) and a[0] == 'mul':
                    x = const(HUGE) - atom(a)
                    if x not in big:
                        big.append(x)
        return bool(big) and refutes(st.cs, big)

    def constructed(self, st, v, ref, sh, n):
        op, m, I = self.op, self.m, self.I
        stor = []
        L = None
        bad = []

        def walk(a, b, path):
            nonlocal L
            if isinstance(a, Lin):
                if a == n:
                    if L is None:
                        L = b
                    if not (isinstance(b, Lin) and isinstance(L, Lin) and entails_eq(st.cs, b - L)):
                        bad.append((path, a, b))
                elif not veq_(st, a, b):
                    bad.append((path, a, b))
            elif isinstance(a, bool) or is_cond(a):
                if a != b:
                    bad.append((path, a, b))
            elif a[0] == 'agg':
                if b[0] != 'agg' or a[1] != b[1] or len(a[2]) != len(b[2]):
                    bad.append((path, a, b))
                else:
                    for k, (x, y) in enumerate(zip(a[2], b[2])):
                        walk(x, y, path + (k,))
            elif a[0] == 'seq' and elements(a):
                x, y = elements(a), elements(b) if isinstance(b, tuple) and b[0] == 'seq' else None
                if not y or x.keys() != y.keys():
                    bad.append((path, a, b))
                else:
                    for k in x:
                        walk(x[k], y[k], path + (('i', k),))
            elif a[0] == 'seq':
                if b[0] != 'seq':
                    bad.append((path, a, b))
                else:
                    stor.append((None, b))
            elif a[0] == 'ptr':
                if b[0] == 'ptr' and b[1] in st.mem and isinstance(st.mem[b[1]], tuple) and st.mem[b[1]][0] == 'seq':
                    stor.append((b[1], st.mem[b[1]]))
                    if len(b[2]) != 1 or b[2][0][0] != 'i' or not entails_eq(st.cs, b[2][0][1]):
                        bad.append((path, a, b))
                else:
                    bad.append((path, a, b))
        walk(ref, v, ())
        for p, a, b in bad:
            self.ob('construct', False, 'the buffer built', f'a part of the new buffer is {vstr(b)} instead of {vstr(a)}', st)
        if bad or len(stor) != 1 or L is None:
            if not bad:
                self.ob('construct', False, 'the buffer built', 'the storage of the new buffer is not found', st)
            return
        reg, sq = stor[0]
        # the length
        if m.vmem and op != 'from':
            self.rounded(st, L, n)
        else:
            self.ob('construct', entails_eq(st.cs, L - n), 'length', f'a buffer built for {n} items has the length {L}', st)
        self.ob('construct', isinstance(sq[1], Lin) and entails_eq(st.cs, sq[1] - L), 'size of the storage', f'the storage has room for {vstr(sq[1])} items, the length is {L}', st)
        if reg is not None:
            self.ob('construct', reg not in st.freed, 'storage alive', 'the storage of the new buffer has been freed', st)
            for e in st.ev:
                if e[0] == 'alloc' and e[1] != reg and e[1] not in st.freed:
                    self.ob('construct', False, 'temporary memory', 'memory allocated for the construction is lost', st)
            if op == 'from':
                src = [r for r in st.mem if I.rname.get(r) == 'heap:items']
                for r in src:
                    self.ob('construct', r == reg or r in st.freed, 'memory of the vector', 'the memory of the vector is neither the storage nor freed', st)
        if m.vmem:
            self.mirrored(st, reg, sq, L)
        # the contents
        k = atom(I.fresh('k'))
        s1 = st.copy()
        if I.add(s1, k) and I.add(s1, L - k - 1):
            for s2, x in I.seq_read(s1, sq, k):
                d = ('tok', 'default')
                if op == 'from':
                    ok = veq_(s2, x, ('tok', 'slot', k))
                elif op == 'new_zeroed':
                    ok = x == ZEROV
                else:
                    y = x
                    while isinstance(y, tuple) and y[:2] == ('tok', 'clone'):
                        y = y[2]
                    ok = isinstance(y, tuple) and y[:2] == d
                self.ob('construct', ok, 'contents', f'slot {k} of the new buffer holds {vstr(x)}', s2)
        bad = [e for e in self.values(st.ev) if op != 'default' or e[0] == 'drop' and e[1][:2] != ('tok', 'default')]
        self.ob('construct', not bad, 'values', f'the construction {bad[0][0] if bad else ""}s values', st)

    def rounded(self, st, L, n):
        p = atom('page')
        ok = isinstance(L, Lin) and entails(st.cs, L - n) and entails(st.cs, n + p - L - 1) and self.pages(st, L)
        self.ob('mirror', ok, 'whole pages', f'the length for {n} items is {vstr(L)}, which is not the next multiple of the page size', st)

    def pages(self, st, L):
        p = atom('page')
        if exact_div(L, p) is not None or entails_eq(st.cs, L) or entails_eq(st.cs, L - p):
            return True
        for a in {a for c in st.cs for a, _ in c.t if isinstance(a, tuple) and a[0] == 'div' and a[2] == p}:
            for q in (atom(a), atom(a) + 1):
                if entails_eq(st.cs, L - mul(q, p)):
                    return True
        return False

    def mirrored(self, st, reg, sq, L):
        base = sq[2]
        ok = isinstance(base, tuple) and base[-1] == 'mirror'
        self.ob('mirror', ok, 'two views', 'the storage is not mapped twice, one view after the other', st)
        size = mul(L, atom('sizeT'))
        maps = [x for x in st.x.get('maps', ()) if x[0] == reg]
        if ok and maps:
            views = maps[0][6]
            rw = all(isinstance(w[2], Lin) and w[2].is_const() and w[2].c & 3 == 3 for w in views)
            self.ob('mirror', rw, 'access to the views', 'a view is not mapped for reading and writing', st)
            self.ob('mirror', all(entails_eq(st.cs, w[1] - size) for w in views), 'size of the views', 'a view has not the size of the storage', st)
            fd = views[0][4]
            cut = [e for e in st.ev if e[0] == 'sys' and e[1] == 'ftruncate' and e[2][0] == fd]
            self.ob('mirror', bool(cut) and entails(st.cs, cut[-1][2][1] - size) and entails_eq(st.cs, cut[-1][3]), 'size of the object', 'the shared memory object is smaller than the storage', st)
            closed = [k for k, e in enumerate(st.ev) if e[0] == 'sys' and e[1] == 'close']
            last = max([k for k, e in enumerate(st.ev) if e[0] == 'sys' and e[1] == 'mmap'] or [0])
            self.ob('mirror', all(k > last for k in closed), 'object open while mapped', 'the shared memory object is closed before it is mapped', st)
        for e in st.ev:
            if e[0] == 'sys' and len(e) > 3 and isinstance(e[3], Lin) and e[1] in ('mmap', 'ftruncate'):
                self.ob('mirror', e[3] != const((1 << 64) - 1) and not entails(st.cs, -e[3] - 1), 'failures of the system', f'{e[1]} may have failed', st)

    # --- sessions ---------------------------------------------------------------------------------------------------------

    def split_starts(self, sh):
        """[(state, buffer value, p, c, a)]: buffers which can be split."""
        m, var = self.m, self.var
        n = m.length(var)
        outs = m.built(var)
        I = self.I = m.I
        I.abnormal[:] = []
        res = []
        roles = {r[1]: p for p, r in sh.leaf.items() if r[0] == 'idx'}
        for st, v in outs:
            p, c = get(v, roles['P']), get(v, roles['C'])
            st.ev = ()
            res.append((st, v, p, c, ZERO if p == c else None))
        if not m.heap(var):
            # split before: everything which the iterators of earlier sessions can have left
            c, a, w = atom('c'), atom('a'), atom('w')
            for st0, v0 in outs[-1:]:
                st = st0.copy()
                if sh.stor[1]:
                    v0 = put(v0, sh.stor[1], seq(n, ('sym', 'slot')))
                st.cs = m.base_state(var).cs + (c, n - c - 1, a, n - 1 - a, w, n - w - 1)
                for p in (c + a, c + a - n):
                    s = st.copy()
                    if I.add(s, p) and I.add(s, n - p - 1):
                        v = put(put(put(v0, roles['P'], p), roles['C'], c), roles['W'], w)
                        for role, (path, bit) in sh.flag.items():
                            v = put(v, path, False if bit is None else get(v0, path))
                        res.append((s, v, p, c, a))
        return res

    def split(self):
        m, var, op = self.m, self.var, self.op
        roles = ROLES[op]
        kinds = {r: SPLIT_KIND[(r, len(roles))] for r in roles}
        shs = {}
        f = m.d['fns'][m.fn(self.root)]
        svar = 'CB' if not m.heap(var) and m.I.T[f['locals'][1][0]]['k'] != 'ref' else var
        for r in roles:
            shs[r] = m.shape(svar, kinds[r], 'async' if op.endswith('async') else 'sync')
        sh0 = m.shape(var, 'P', 'sync')
        for st, v, p, c, a in self.split_starts(sh0):
            if a is None:
                self.ob('session', False, 'a fresh buffer', f'a fresh buffer has the published indices {vstr(p)} and {vstr(c)}', st)
                continue
            stor0 = self.storage_of(st, v, sh0)
            nev = len(st.ev)
            outs = m.split_how(var, st, v, op)
            byref = any(I_ == 'buffer variable' for I_ in self.I.rname.values())
            for s, its in outs:
                self.paths += 1
                self.st = s
                self.session_of(s, its, roles, kinds, shs, sh0, p, c, a, stor0, byref)
            if not outs:
                self.ob('session', False, 'a session starts', 'the split has no outcome', st)
        self.done()

    def storage_of(self, st, v, sh):
        if sh.stor[1]:
            return get(v, sh.stor[1])
        return [st.mem[x[1]] for _, x in leaves_of(v) if isinstance(x, tuple) and x[0] == 'ptr' and isinstance(st.mem.get(x[1]), tuple) and st.mem[x[1]][0] == 'seq'][0]

    def session_of(self, st, its, roles, kinds, shs, sh0, p, c, a, stor0, byref):
        m, I, var, op = self.m, self.I, self.var, self.op
        n = m.length(var)
        T = I.T
        what = 'after the split'
        if its[0] != 'agg' or len(its[2]) != len(roles):
            raise Unsupported('the split does not return a tuple of iterators')
        it = dict(zip(roles, its[2]))
        bufs = set()
        for r in roles:
            sh = shs[r]
            for _, _, x in typed(T, sh.ity, it[r]):
                if isinstance(x, tuple) and x[0] == 'ptr' and x[1] in st.mem and isinstance(st.mem[x[1]], tuple) and st.mem[x[1]][0] == 'agg' and len(st.mem[x[1]][2]) == len(sh0.template[2]):
                    bufs.add(x[1])
        self.ob('session', len(bufs) == 1, 'one buffer', f'{what} the iterators belong to {len(bufs)} buffers', st)
        if len(bufs) != 1:
            return
        buf = bufs.pop()
        bv = st.mem[buf]
        leaf = {r[1]: q for q, r in sh0.leaf.items() if r[0] == 'idx'}
        pub = {r: get(bv, q) for r, q in leaf.items()}
        self.ob('session', veq_(st, pub['P'], p), 'position of the producer', f'{what} the published index of the producer is {vstr(pub["P"])} instead of {vstr(p)}', st)
        self.ob('session', veq_(st, pub['C'], c), 'position of the consumer', f'{what} the published index of the consumer is {vstr(pub["C"])} instead of {vstr(c)}', st)
        # the worker starts behind every item which it has not released: at the consumer, or where it was if that lies between the consumer and the producer
        x = None
        if 'W' in roles:
            w = pub['W']
            if isinstance(w, Lin) and any(entails_eq(st.cs, w - c + n.scale(k)) for k in (0, 1)):
                x = ZERO
            elif isinstance(w, Lin) and (entails_eq(st.cs, w - atom('w')) or entails_eq(st.cs, a)):
                for k in (0, 1):
                    y = w - c + n.scale(k)
                    if entails(st.cs, y) and entails(st.cs, a - y):
                        x = y
            self.ob('session', x is not None, 'position of the worker', f'{what} the worker is at {vstr(w)}, which is neither the consumer\'s position {c}, nor where it was and known to lie between that and the producer {a} further: items are taken to be released which were not', st)
        room = {'P': n - 1 - a, 'W': a - x if x is not None else ZERO, 'C': x if 'W' in roles else a}
        for r in roles:
            sh = shs[r]
            i2 = get(it[r], sh.index)
            self.ob('session', veq_(st, i2, pub[r]), 'index', f'{what} iterator {r} is at {vstr(i2)}, but publishes {vstr(pub[r])}', st)
            for q in sh.lens:
                self.ob('session', veq_(st, get(it[r], q), n), 'remembered length', f'{what} iterator {r} takes {vstr(get(it[r], q))} to be the length of the buffer', st)
            if room[r] is not None:
                for q in sh.cached:
                    k = get(it[r], q)
                    self.ob('session', isinstance(k, Lin) and entails(st.cs, room[r] - k), 'remembered availability', f'{what} iterator {r} believes to have {vstr(k)} slots and has {room[r]}', st)
            for (q, ty, y), (q0, ty0, y0) in zip(typed(T, sh.ity, it[r]), typed(T, sh.ity, sh.it)):
                if q == sh.index or q in sh.cached or isinstance(y0, Lin) or isinstance(y0, tuple) and y0[0] == 'ptr':
                    continue
                self.ob('session', veq_(st, y, y0), 'state of the iterator', f'{what} a part of iterator {r} is {vstr(y)} instead of {vstr(y0)}', st)
        for r in 'PWC':
            path, bit = sh0.flag[r]
            f = get(bv, path)
            if bit is not None:
                f = f[1][bit] if isinstance(f, tuple) and f[0] == 'bits' else bool(f.c >> bit & 1) if isinstance(f, Lin) and f.is_const() else None
            self.ob('alive', f is (r in roles), 'flags', f'{what} the flag of iterator {r} is {vstr(f) if f is not None else "?"}', st)
        stor = self.storage_of(st, bv, sh0)
        k = atom(I.fresh('k'))
        s1 = st.copy()
        if stor is not stor0 and I.add(s1, k) and I.add(s1, n - k - 1):
            for s2, y in I.seq_read(s1, stor, k):
                self.ob('session', veq_(s2, y, ('tok', 'slot', k)), 'contents', f'{what} slot {k} holds {vstr(y)}', s2)
        self.ob('session', not self.values(st.ev), 'values', 'the split touches values', st)
        bad = [e for e in st.ev if e[0] in ('free', 'unmap')]
        self.ob('release', not bad and buf not in st.freed, 'nothing is freed', 'the split frees memory', st)
        # who frees the buffer: one which was borrowed stays where it is
        f = self.m.d['fns'][m.fn(self.root)]
        if I.T[f['locals'][1][0]]['k'] == 'ref':
            self.ob('session', I.rname.get(buf) == 'buffer variable', 'the buffer which was borrowed', 'the iterators do not refer to the buffer which was split', st)
        else:
            self.ob('session', str(I.rname.get(buf)).startswith('heap'), 'the buffer is kept alive', 'the iterators refer to a buffer which does not live as long as they do', st)

    # --- teardown of a buffer which is not split --------------------------------------------------------------------------

    def buf_drop(self):
        m, var = self.m, self.var
        sh = m.shape(var, 'P', 'sync')
        what = 'dropping the buffer'
        starts = self.split_starts(sh)
        I = self.I
        n = m.length(var)
        for st, v, *_ in starts:
            st.x['occ'] = False
            reg = [x[1] for _, x in leaves_of(v) if isinstance(x, tuple) and x[0] == 'ptr' and isinstance(st.mem.get(x[1]), tuple) and st.mem[x[1]][0] == 'seq']
            st.ev = ()
            for s, _ in I.exec_fn(st, m.fn(self.root), (v,)):
                self.paths += 1
                self.st = s
                if m.heap(var):
                    self.stor_freed(s, reg[0], n, what)
                else:
                    self.ob('release', not self.events(s, 'free'), 'nothing is freed', f'{what} frees memory', s)
                self.items_dropped(s, what, n)
        self.done()

    # --- single slots --------------------------------------------------------------------------------------------------------

    def cell(self):
        m, op = self.m, self.op
        I = self.I = m.quiet()
        st = St()
        st.cs = (atom('sizeT') - 1, const(BIG) - atom('sizeT'))
        tok = ('tok', 'slot', ZERO)
        st.x['occ'] = op in ('take_inner', 'inner_duplicate', 'inner_ref', 'inner_ref_mut')
        f = self.m.d['fns'][m.fn(self.root)]
        self.paths = 0
        for empty in (False, True):
            if empty and op not in ('check_zeroed', 'drop', 'clone', 'as_mut_ptr'):
                continue
            val = ZEROV if empty else tok
            st0 = st.copy()
            reg = I.new_region(st0, val, 'slot')
            args = {'drop': (val,), 'from': (('tok', ARG, ZERO),), 'default': ()}.get(op, (ptr(reg),))
            for s, v in I.exec_fn(st0, m.fn(self.root), args):
                self.paths += 1
                self.st = s
                self.cell_rule(s, v, reg, val, empty)
        if not self.paths:
            raise Unsupported('no outcome')
        self.abnormal()

    def cell_rule(self, st, v, reg, val, empty):
        op, I = self.op, self.I
        ev = self.values(st.ev)
        z = True if empty else I.is_zeroed(st, val)
        now = st.mem.get(reg)
        if op == 'drop':
            for s, r in I.split(st.copy(), z):
                k = len([e for e in self.events(s, 'drop') if e[1] == val])
                want = 0 if r or s.x.get('nodrop') else 1
                self.ob('cell', k == want or s.x.get('nodrop'), 'drop', f'dropping a slot which is {"empty" if r else "occupied"} drops its content {k} times', s)
            return
        if op == 'clone':
            for s, r in I.split(st.copy(), z):
                k = len(self.events(s, 'clone'))
                ok = v == ZEROV and k == 0 if r else veq_(s, v, ('tok', 'clone', val)) and k == 1
                if r and not ok and veq_(s, v, val) and k == 0:
                    ok = True
                self.ob('cell', ok, 'clone', f'cloning a slot which is {"empty" if r else "occupied"} gives {vstr(v)} with {k} clones', s)
            self.ob('cell', now == val, 'clone: slot', f'cloning a slot changes it to {vstr(now)}', st)
            return
        if op == 'default':
            ok = isinstance(v, tuple) and v[:2] == ('tok', 'default')
            self.ob('cell', ok, 'default', f'the default slot holds {vstr(v)}', st)
            return
        self.ob('cell', not ev, 'values', f'{op} has effects on values: {ev[0][0] if ev else ""}', st)
        if op == 'check_zeroed':
            ok = z is v or v == z or isinstance(z, bool) and is_cond(v) and I.decide(st, v) is z or (not isinstance(z, bool) and (is_cond(v)) and iff(I, st, v, z))
            self.ob('cell', ok, 'check_zeroed', f'check_zeroed is {vstr(v)} for {vstr(val)}', st)
        elif op == 'from':
            self.ob('cell', v == ('tok', ARG, ZERO), 'from', f'the slot made from a value holds {vstr(v)}', st)
            return
        elif op in ('take_inner', 'inner_duplicate'):
            self.ob('cell', veq_(st, v, val), 'value', f'{op} returns {vstr(v)}', st)
        else:
            ok = isinstance(v, tuple) and v[0] == 'ptr' and v[1] == reg and all(e in (0, ('i', ZERO)) for e in v[2])
            self.ob('cell', ok, 'reference', f'{op} returns {vstr(v)}', st)
        want = ZEROV if op == 'take_inner' else val
        self.ob('cell', now == want, 'slot', f'after {op} the slot holds {vstr(now)}', st)

    # --- pages -----------------------------------------------------------------------------------------------------------------

    def vm(self):
        m, op = self.m, self.op
        I = self.I = m.quiet()
        st = St()
        n = atom('n')
        st.cs = (n, const(BIG) - n)
        args = () if op == 'page_size' else (n,)
        self.paths = 0
        for s, v in I.exec_fn(st, m.fn(self.root), args):
            self.paths += 1
            self.st = s
            if op == 'page_size':
                self.ob('mirror', v == atom('page'), 'page size', f'page_size() returns {vstr(v)}', s)
            else:
                self.rounded(s, v, n)
        if not self.paths:
            raise Unsupported('no outcome')
        self.abnormal()


ARG = 'arg'


def leaves_of(v, path=()):
    if isinstance(v, tuple) and v and v[0] == 'agg':
        for k, x in enumerate(v[2]):
            yield from leaves_of(x, path + (k,))
    else:
        yield path, v


def veq_(st, a, b):
    import spec
    return spec.veq(st, a, b)

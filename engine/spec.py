"""What every operation has to do, as rules about its outcomes from an arbitrary consistent state of the session.

`examine(model, root)` interprets one operation and returns the obligations it has to meet, each with the properties
it belongs to.  Nothing here depends on how the operation is written: the rules speak of the values returned, of what the
storage, the published index and the iterator hold afterwards, and of the events (clones, drops, frees, publications)."""
import lin
from lin import Lin, const, atom, ZERO, ONE, mul, subst, subst_any, entails, entails_eq, refutes
from values import *
from interp import St, zeroed, exact_div
from model import *
import ops
import bufspec

ARG, DST = 'arg', 'dst'

# --- which properties an operation bears on -------------------------------------------------------------------------

FLOW = {'C01', 'C02', 'C03', 'C04', 'C05', 'C10', 'C13'}
ITEM = FLOW | {'C06', 'C08'}


def opclass(op):
    if op in ('index', 'buf_len', 'prod_index', 'work_index', 'cons_index'):
        return 'read'
    if op in ('is_prod_alive', 'is_work_alive', 'is_cons_alive'):
        return 'alive'
    if op in ('available', 'wait_for', 'advance', 'drop', 'reset_index', 'set_index', 'go_back', 'sync_index'):
        return op
    if op in ('attach', 'detach', 'into_sync', 'from_sync'):
        return 'convert'
    return 'item'


CLAIMS = {
    'read': {'C04', 'C05', 'C10', 'C12', 'C13'},
    'alive': {'C07', 'C10', 'C13'},
    'available': FLOW | {'C12'},
    'wait_for': {'C05', 'C10', 'C13'},
    'advance': FLOW | {'C06', 'C12'},
    'reset_index': FLOW | {'C11', 'C12'},
    'set_index': FLOW | {'C12'}, 'go_back': FLOW | {'C12'}, 'sync_index': FLOW | {'C12'},
    'drop': {'C03', 'C07', 'C08', 'C09', 'C10', 'C13', 'C04'},
    'convert': {'C01', 'C07', 'C08', 'C12', 'C13', 'C10', 'C04', 'C05', 'C03'},
    'item': ITEM,
}


def claims(meta, cfg):
    w = meta['wrap']
    if w not in ('sync', 'det', 'async', 'adet'):
        return BUFCLAIMS(meta, cfg)
    op = meta['op']
    pre = op.split('_')[0]
    if 'sync' in meta:
        base = meta['sync']
        c = set(ITEM)
        if base.endswith('_init'):
            c |= {'C09'}
        if pre == 'poll':
            c |= {'C14', 'C15'}
        elif pre in ('repoll', 'dropfut'):
            c = {'C14', 'C08', 'C05', 'C01'} | ({'C15'} if pre == 'repoll' else set())
        else:
            c = {'C14'}
    else:
        c = set(CLAIMS[opclass(op)])
        if op.endswith('_init'):
            c |= {'C09'}
        if op == 'pop_move':
            c |= {'C09'}
        if w in ('det', 'adet'):
            c |= {'C12'}
        elif opclass(op) != 'convert':
            c -= {'C12'}
    if meta['var'][0] != 'C':
        c -= {'C02'}
    if 'vmem' in cfg:
        c |= {'C17'}
    return c


def BUFCLAIMS(meta, cfg):
    op, w = meta['op'], meta['wrap']
    if w == 'cell':
        c = {'C09', 'C08'}
        if op in ('inner_duplicate', 'inner_ref', 'inner_ref_mut', 'as_mut_ptr', 'take_inner'):
            c |= {'C01', 'C13'}
        if op in ('clone', 'default', 'from'):
            c |= {'C18'}
    elif w == 'vm':
        c = {'C17', 'C18'}
    elif op == 'drop':
        c = {'C07', 'C08', 'C09'}
    elif op.startswith('split'):
        c = {'C18', 'C04', 'C13', 'C01', 'C07', 'C03'} | ({'C02'} if meta['var'][0] == 'C' else set())
    else:
        c = {'C18', 'C08', 'C13'} | ({'C09'} if op == 'new_zeroed' else set()) | ({'C01'} if op == 'from' else set())
    if 'vmem' in cfg and meta.get('var', 'CH') in ('CH', 'LH', ''):
        c |= {'C17'}
    return c


# --- which properties a rule belongs to --------------------------------------------------------------------------------

RULES = {
    'result': {'C01', 'C02', 'C05', 'C06', 'C13', 'C04', 'C03'},
    'refusal': {'C04', 'C05', 'C06', 'C10', 'C13'},
    'grant': {'C05', 'C01', 'C02', 'C04', 'C03', 'C13'},
    'no-effect': {'C01', 'C02', 'C03', 'C05', 'C06', 'C08', 'C13'},
    'zero': {'C05', 'C13', 'C14'},
    'give-back': {'C01', 'C02', 'C05', 'C08', 'C13'},
    'index': {'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C10', 'C13'},
    'publish': {'C01', 'C02', 'C10', 'C13', 'C04', 'C03'},
    'remembered': {'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C10', 'C13'},
    'closed': {'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C08', 'C10', 'C13', 'C14'},
    'content': {'C01', 'C02', 'C03', 'C05', 'C06', 'C08', 'C09', 'C13'},
    'dst': {'C01', 'C02', 'C06', 'C13', 'C08'},
    'drops': {'C01', 'C08', 'C09', 'C13'},
    'interrupted': {'C08'},
    'clones': {'C08', 'C13'},
    'window': {'C01', 'C02', 'C03', 'C06', 'C13', 'C04'},
    'alive': {'C07', 'C13', 'C18'},
    'teardown': {'C07', 'C08', 'C09', 'C13', 'C18'},
    'release': {'C07', 'C08', 'C13'},
    'convert': {'C01', 'C02', 'C07', 'C08', 'C12', 'C13', 'C04', 'C05', 'C03'},
    'future': {'C01', 'C05', 'C08', 'C13', 'C14'},
    'wake': {'C15'},
    'construct': {'C01', 'C04', 'C06', 'C08', 'C09', 'C13', 'C18'},
    'session': {'C18', 'C04', 'C13', 'C01', 'C02', 'C03', 'C07'},
    'cell': {'C09', 'C08', 'C01', 'C13', 'C18'},
    'mirror': {'C06', 'C13', 'C17', 'C18'},
}
KINDS = {
    'ub': {'C01', 'C02', 'C03', 'C05', 'C06', 'C07', 'C08', 'C09', 'C18'},
    'panic': {'C01', 'C02', 'C05', 'C10', 'C13', 'C04', 'C18', 'C07', 'C08', 'C14', 'C11', 'C12', 'C06'},
    'race': {'C01', 'C02', 'C03', 'C07'}, 'unordered': {'C02', 'C03', 'C07', 'C10'},
    'access': {'C01', 'C02', 'C03', 'C04', 'C06'},
    'after-release': {'C03', 'C07', 'C08'}, 'bounds': {'C01', 'C02', 'C03', 'C04', 'C06', 'C18'},
    'overstep': {'C01', 'C02', 'C04', 'C03', 'C05'}, 'range': {'C01', 'C02', 'C04', 'C05', 'C06', 'C13', 'C18'},
    'foreign': {'C01', 'C02', 'C04', 'C10', 'C03', 'C13'}, 'flag': {'C07', 'C18', 'C13'},
    'empty-drop': {'C08', 'C09', 'C18'}, 'empty-read': {'C01', 'C08', 'C09'},
    'double-free': {'C07', 'C17', 'C08'}, 'free-foreign': {'C07', 'C17'}, 'free-size': {'C07', 'C08', 'C17'},
    'unbounded': {'C10'}, 'map': {'C17', 'C18'},
}


class Ob:
    __slots__ = ('rule', 'props', 'ok', 'key', 'where', 'msg', 'path', 'st')

    def __init__(self, rule, props, ok, key, where, msg, path):
        self.rule, self.props, self.ok, self.key, self.where, self.msg, self.path = rule, props, ok, key, where, msg, path
        self.st = None


class Loc:
    """Where a construct of the crate which an entry point leads to is defined."""


def veq(st, a, b):
    """The two values are the same in this state."""
    if a is b or a == b:
        return True
    if isinstance(a, Lin) or isinstance(b, Lin):
        return isinstance(a, Lin) and isinstance(b, Lin) and entails_eq(st.cs, a - b)
    if not isinstance(a, tuple) or not isinstance(b, tuple) or len(a) != len(b):
        return False
    return all(veq(st, x, y) for x, y in zip(a, b))


def among(st, v, w):
    """The parts of v which decide how it goes on are those of w, where w is not arbitrary."""
    if isinstance(w, Lin):
        free = len(w.t) == 1 and str(w.t[0][0]).startswith('changed#')
        return free or isinstance(v, Lin) and entails_eq(st.cs, v - w)
    if w is True or w is False:
        return v is w
    if isinstance(w, tuple) and w and w[0] == 'agg':
        return isinstance(v, tuple) and v[:2] == w[:2] and len(v[2]) == len(w[2]) and all(among(st, x, y) for x, y in zip(v[2], w[2]))
    return True


class Exam(bufspec.BufRules):
    """One operation of one session."""

    def __init__(self, m, root):
        self.m, self.root = m, root
        self.meta = m.meta[root]
        self.op = self.meta['op']
        self.obs = []
        self.claims = claims(self.meta, m.cfg)
        self.var = self.meta.get('var', '')
        self.name = self.title()
        self.st = None
        self.extra = set()
        w = self.meta['wrap']
        if self.op == 'reset_index':
            self.extra |= {'C11'}
        if w in ('det', 'adet') or self.op in ('attach', 'detach'):
            self.extra |= {'C12'}
        if 'sync' in self.meta:
            self.extra |= {'C14'}
        if 'vmem' in m.cfg:
            self.extra |= {'C17'}
        if w == 'buf' and self.op != 'drop':
            self.extra |= {'C18'}
        self.skip = set()       # kinds of abnormal ends which are in order here

    def title(self):
        t = self.meta
        b = {'CB': 'boxed ConcurrentStackRB', 'CH': 'ConcurrentHeapRB', 'LH': 'LocalHeapRB', 'CS': 'ConcurrentStackRB', 'LS': 'LocalStackRB'}.get(t.get('var'), '')
        w = t['wrap']
        if w in ('sync', 'det', 'async', 'adet'):
            k = {'P': 'ProdIter', 'W': 'WorkIter', 'CW': 'ConsIter(worker)', 'CF': 'ConsIter'}[t['kind']]
            n = {'sync': '{}', 'det': 'Detached<{}>', 'async': 'Async{}', 'adet': 'AsyncDetached<Async{}>'}[w].format(k)
            return f'{n} of {b}: {t["op"]}'
        if w == 'buf':
            return f'{b}: {t["op"]}'
        return f'{w}: {t["op"]}'

    # --- obligations ----------------------------------------------------------------------------------------------------

    def ob(self, rule, ok, detail, msg, st=None, props=None):
        p = (props or RULES[rule]) | self.extra
        if rule == 'refusal' and self.meta['op'].split('_')[0] in ('poll', 'repoll'):
            p |= {'C15'}        # the wait for something possible never ends
        where, path = '', ()
        if not ok:
            where = self.m.d['fns'][self.m.fn(self.root)].get('def_span') or ''
            st = st or self.st
            where = self.src() or where
            path = tuple(self.trace(st)) if st is not None else ()
        self.obs.append(Ob(rule, p, bool(ok), f'{self.name}: {detail}', where, msg if not ok else '', path))
        if not ok:
            self.obs[-1].st = st
        return ok

    def src(self):
        """The method of the crate which the entry point calls."""
        return self.called

    def trace(self, st):
        out = ['on the path where']
        seen = 0
        for c in st.cs[-40:]:
            out.append(f'  {c} >= 0')
            seen += 1
        out.append('with the events')
        for e in st.ev:
            out.append('  ' + vstr(e)[:300])
        return out

    def abnormal(self):
        """The abnormal ends of the interpretation are violations."""
        n = 0
        for kind, st, where, msg, stack in self.I.abnormal:
            if kind in self.skip:
                continue
            n += 1
            p = KINDS.get(kind, set(RULES['result'])) | self.extra
            self.obs.append(Ob(kind, p, False, f'{self.name}: {stack[-1] if stack else ""}: {msg.split("(")[0][:60] if kind in ("ub", "panic") else kind}', where, f'{msg} [in {" > ".join(stack[-3:])}]', tuple(self.trace(st))))
        kinds = {k for k, *_ in self.I.abnormal}
        for k in KINDS:
            if k not in kinds or k in self.skip:
                self.obs.append(Ob(k, KINDS[k] | self.extra, True, '', '', '', ()))

    def undischarged(self, e):
        where = getattr(e, 'where', '') or ''
        self.obs.append(Ob('undischarged', set(self.claims) | self.extra, False, f'{self.name}: {str(getattr(e, "msg", e))[:120]}', where,
                           f'the effect of this construct is not established: {getattr(e, "msg", e)}', ()))

    # --- running -----------------------------------------------------------------------------------------------------------

    def run(self):
        self.I = self.m.I
        self.called = self.callee()
        try:
            self.perform()
        except (Unsupported, ShapeError) as e:
            self.undischarged(e)
        except RecursionError as e:
            self.undischarged(Unsupported('recursion too deep'))
        return self.obs

    def callee(self):
        f = self.m.d['fns'].get(self.m.roots[self.root]['fn']) if isinstance(self.m.d['fns'], dict) else self.m.d['fns'][self.m.roots[self.root]['fn']]
        best = ''
        for b in f['blocks']:
            t = b['t']
            if t[0] == 'call' and isinstance(t[1], list):
                pass
        return best or f.get('def_span') or ''

    def perform(self):
        t = self.meta
        w = t['wrap']
        if w in ('sync', 'det', 'async', 'adet'):
            self.session()
        elif w == 'buf':
            self.buffer()
        elif w == 'cell':
            self.cell()
        elif w == 'vm':
            self.vm()
        else:
            raise Unsupported('no rule')

    def session(self):
        t = self.meta
        for w in ('sync', 'det', 'async', 'adet'):
            if f"roots::{w}_{t['kind']}_{t['var']}::drop" in self.m.roots:
                self.m.shape(t['var'], t['kind'], w)
        self.s = s = Sess(self.m, t['var'], t['kind'], 'sync' if self.op == 'from_sync' else t['wrap'], waker=t['wrap'] in ('async', 'adet') and (self.op == 'drop' or 'sync' in t))
        I = self.I
        op, base = self.op, t.get('sync') or self.op
        self.base = base
        self.m.length(t['var'])
        if base == 'wait_for':
            self.skip |= {'unbounded'}
        fn = self.m.d['fns'][self.m.fn(self.root)]
        spec = None
        for o in ops.sync_ops(t['kind']) + ops.DETACHED:
            if o.name == base:
                spec = o
        init = base.endswith('_init')
        paths = 0
        self.copy = spec is not None and spec.bound == 'Copy'
        for st, it in s.starts():
            I.unwinding = 'clone' in base       # Clone::clone may panic
            st.x['occ'] = not init and base != 'drop' and not op.startswith('dropfut')
            self.need = None
            args, conts = [], [st]
            recv = spec.recv if spec else 'own'
            if t.get('sync'):
                recv = 'mut'
            self.itr = None
            if recv == 'own':
                args.append(it)
            else:
                self.itr = I.new_region(st, it, 'iterator')
                args.append(ptr(self.itr))
            self.reg = {}
            alts = [(st, args)]
            for name, ty in (spec.params if spec else []):
                nxt = []
                for s1, a1 in alts:
                    for s2, v in self.param(s1, name, ty):
                        nxt.append((s2, a1 + [v]))
                alts = nxt
            if op.startswith(('poll_', 'repoll_')):
                for s1, a1 in alts:
                    w = I.new_region(s1, ('op', 'waker', 'cx'), 'waker of the context')
                    a1.append(ptr(I.new_region(s1, agg(ptr(w), UNIT, UNIT, UNIT, UNIT), 'context')))
            for s1, a1 in alts:
                s1.ev = ()
                self.before = dict(s1.mem)
                outs = I.exec_fn(s1, self.m.fn(self.root), tuple(a1))
                for s2, v in outs:
                    paths += 1
                    self.st = s2
                    self.outcome(s2, v)
                for s2, where in I.unwound:
                    self.unwound(s2, where)
                I.unwound = []
        self.paths = paths
        I.abnormal += I.broken
        if not paths and not I.abnormal:
            raise Unsupported('no outcome')
        self.abnormal()

    def unwound(self, st, where):
        """A clone panicked: every slot (and place of the destination) holds its old value, which was not dropped, or is empty, or holds another value which was not dropped."""
        self.st = st
        what = f'{self.base} interrupted by a panic of Clone::clone'
        s = self.s
        k = atom(self.I.fresh('k'))
        places = [(self.sto(st), s.n, lambda k: ('tok', 'slot', k), 'slot')]
        if DST in self.reg:
            v = st.mem[self.reg[DST]]
            places.append((v, None, lambda k: ('tok', DST, k), 'place of the destination'))
        for sq, n, tok, name in places:
            if sq[0] != 'seq':
                k, found = ZERO, [(st, sq)]
            else:
                s1 = st.copy()
                if not all(self.I.add(s1, c) for c in (k, (n if n is not None else sq[1]) - k - 1)):
                    continue
                found = self.I.seq_read(s1, sq, k)
            for s1, x in found:
                old = tok(k)
                if x == UNDEF or x[0] != 'tok' and x != ZEROV:
                    self.ob('interrupted', False, f'{what}: {name}', f'after {what} at {where} a {name} holds {vstr(x)}', s1)
                elif veq(s1, x, old):
                    self.count_is(s1, 'drop', old, 0, what, 'interrupted', f'{name}: values in place')
                else:
                    self.count_is(s1, 'drop', x, 0, what, 'interrupted', f'{name}: values put in place')

    def param(self, st, name, ty):
        I, s = self.I, self.s
        m = atom('m')
        if ty == 'usize':
            op = self.base
            st.cs += (m, const((1 << 64) - 1) - m)
            self.need = m
            if op == 'advance':
                st.cs += (s.d0 - m,)
            elif op == 'go_back':
                st.cs += (s.b - m,)
            elif op == 'set_index':
                x = atom('x')
                st.cs += (x + s.b, s.d0 - x)
                return s.modn(st, s.i + x)
            elif name == 'rhs':
                st.cs += (m - 1,)
            return [(st, m)]
        if ty == 'T':
            return [(st, ('tok', ARG, ZERO))]
        if ty.startswith('&mut [') or ty.startswith('&['):
            w = DST if ty.startswith('&mut') else ARG
            self.need = m
            st.cs += (m, const(BIG) - m, const(BIG) - mul(m, atom('sizeT')), mul(m, atom('sizeT')) - m)
            self.reg[w] = r = I.new_region(st, seq(m, ('sym', w)), 'argument')
            return [(st, ptr(r, (('i', ZERO),), m))]
        if ty == '&mut T':
            self.reg[DST] = r = I.new_region(st, ('tok', DST, ZERO), 'argument')
            return [(st, ptr(r))]
        raise Unsupported('parameter ' + ty)

    # --- what an outcome looks like --------------------------------------------------------------------------------------

    def itval(self, st):
        return st.mem[self.itr]

    def sto(self, st):
        v = st.mem[self.s.stor[0]]
        return get(v, self.s.stor[1])

    def looks(self, st, since=None):
        """Distances seen in this operation."""
        return [d for d, _, o in st.x['ev'] if o and (since is None or o == since)]

    def events(self, st, *kinds):
        return [e for e in st.ev if e[0] in kinds]

    def outcome(self, st, v):
        op, t = self.op, self.meta
        if op.startswith('poll_') and t.get('sync'):
            return self.polled(st, v)
        if op.startswith('repoll_'):
            return self.repolled(st, v)
        if op.startswith('dropfut_'):
            return self.dropped_future(st)
        if op.startswith('new_') and t.get('sync'):
            self.quiet(st, 'a future which is never polled', 'future')
            return
        f = getattr(self, 'op_' + op, None)
        if f is not None:
            return f(st, v)
        self.item(st, self.decode(st, v))

    # results of item operations: ('some', payload) | ('none',) | ('err', value)
    def decode(self, st, v):
        if self.base in ('push', 'push_init'):
            if v[0] == 'agg' and v[1] == 0:
                return ('some', UNIT)
            return ('err', v[2][0])
        if v[0] != 'agg':
            raise Unsupported(f'result {vstr(v)}')
        if v[1] == 0:
            return ('none',)
        return ('some', v[2][0])

    # --- common rules ------------------------------------------------------------------------------------------------------

    def final(self, st, adv, published, what):
        """The index is i + adv, and it is what is published (or nothing was published)."""
        s = self.s
        it = self.itval(st)
        i2 = get(it, s.sh.index)
        ok = isinstance(i2, Lin) and entails(st.cs, i2) and entails(st.cs, s.n - i2 - 1)
        self.ob('index', ok, f'{what}: index below the length', f'after {what} the index is {vstr(i2)}, which may lie outside of the buffer', st)
        self.ob('index', isinstance(i2, Lin) and s.congruent(st, i2, s.i + adv), f'{what}: index', f'after {what} the index is {vstr(i2)} instead of {s.i + adv} modulo the length', st)
        pubs = self.events(st, 'pub')
        if published == 'none':
            self.ob('publish', not pubs, f'{what}: nothing is published', f'{what} changes the index which the other iterators see', st)
        elif published == 'same':
            ok = not pubs or entails_eq(st.cs, st.x['pub'])
            self.ob('publish', ok, f'{what}: published index', f'{what} changes the index which the other iterators see to {pubs[-1][1] if pubs else ""}', st)
        else:
            ok = entails_eq(st.cs, st.x['pub'] - adv)
            self.ob('publish', ok, f'{what}: published index', f'after {what} the iterator is at {s.i + adv}, but the position published is {s.i + st.x["pub"]}', st)
            if published == 'once':
                self.ob('publish', len(pubs) == 1, f'{what}: published in one step', f'{what} publishes {len(pubs)} times', st)
        self.remembered(st, it, s.sh, adv, what)
        self.closed(st, it, what)

    def closed(self, st, it, what):
        """Whatever else the iterator or the buffer stores is as the analysis takes it to be when an operation starts."""
        sh = self.s.sh
        for p, ty, x0 in typed(self.I.T, sh.ity, sh.it):
            if isinstance(x0, Lin) or any(p == w for w, _ in sh.wakers) or isinstance(x0, tuple) and x0[0] == 'ptr':
                continue
            x = get(it, p)
            self.ob('closed', veq(st, x, x0), f'{what}: state', f'{what} changes a part of the iterator from {vstr(x0)} to {vstr(x)}, and operations are examined for the former only', st)
        b1, b0 = st.mem.get(sh.buf), self.before.get(sh.buf)
        for p in sh.others if b1 is not None and b0 is not None else ():
            self.ob('closed', veq(st, get(b1, p), get(b0, p)), f'{what}: state of the buffer', f'{what} changes a part of the buffer from {vstr(get(b0, p))} to {vstr(get(b1, p))}, and operations are examined for the former only', st)

    def remembered(self, st, it, sh, adv, what):
        s = self.s
        self.same_length(st, it, sh, what)
        for p in sh.cached:
            c = get(it, p)
            ok = isinstance(c, Lin) and any(entails(st.cs, e - adv - c) for e in s.evidence(st))
            self.ob('remembered', ok, f'{what}: remembered availability', f'after {what} the iterator remembers {vstr(c)} available slots; it is {adv} further and was observed to have {", ".join(str(e) for e in s.evidence(st))}', st)

    def same_length(self, st, it, sh, what):
        for p in sh.lens:
            c = get(it, p)
            self.ob('remembered', isinstance(c, Lin) and entails_eq(st.cs, c - self.s.n), f'{what}: remembered length', f'after {what} the iterator takes {vstr(c)} to be the length of the buffer', st)

    def storage_same(self, st, what):
        s = self.s
        if self.sto(st) is get(self.before[s.stor[0]], s.stor[1]):
            self.ob('no-effect', True, '', '')
            return
        self.content(st, ZERO, None, what, 'no-effect')

    def content(self, st, w, expect, what, rule='content'):
        """Slots i..i+w hold expect(st, o, old token) (a predicate on the value), all others are as before."""
        s = self.s
        sq = self.sto(st)
        n, i = s.n, s.i
        o = ZERO if w == ONE else atom(self.I.fresh('o'))
        cases = []
        if expect is not None:
            for idx in (i + o, i + o - n):
                cases.append((idx, (o, w - o - 1, idx, n - idx - 1), True))
        k = atom(self.I.fresh('k'))
        cases.append((k, (k, i - k - 1, k - i - w + n), False))
        cases.append((k, (k - i - w, k, n - k - 1), False))
        for idx, cs, inside in cases:
            s1 = st.copy()
            if not all(self.I.add(s1, c) for c in cs):
                continue
            for s2, v in self.I.seq_read(s1, sq, idx):
                old = ('tok', 'slot', idx)
                if inside:
                    ok = expect(s2, o, old, v)
                    self.ob(rule, ok, f'{what}: content of the slots', f'after {what} slot {idx} (number {o} of the {w} slots concerned) holds {vstr(v)}', s2)
                else:
                    self.ob(rule, veq(s2, v, old), f'{what}: other slots', f'after {what} slot {idx}, which it must not touch, holds {vstr(v)}', s2)

    def dst_content(self, st, w, expect, what, rule='dst'):
        v = st.mem[self.reg[DST]]
        if v[0] == 'seq':
            o = atom(self.I.fresh('o'))
            s1 = st.copy()
            if not all(self.I.add(s1, c) for c in (o, w - o - 1)):
                return
            for s2, x in self.I.seq_read(s1, v, o):
                for s3, idx in self.s.modn(s2, self.s.i + o):
                    self.ob(rule, expect(s3, o, idx, x), f'{what}: destination', f'after {what} element {o} of the destination holds {vstr(x)} (slot {idx} holds the item)', s3)
        else:
            self.ob(rule, expect(st, ZERO, self.s.i, v), f'{what}: destination', f'after {what} the destination holds {vstr(v)}', st)

    # counting events ------------------------------------------------------------------------------------------------------

    def tally(self, st, kind, target):
        """[(state, number of events of that kind about the value `target`)]"""
        res = [(st, 0)]
        for e in st.ev:
            nxt = []
            for s1, c in res:
                for s2, k in self.tally1(s1, e, kind, target):
                    nxt.append((s2, c + k))
            res = nxt
        return res

    def tally1(self, st, e, kind, target):
        if e[0] == kind:
            return [(s, 1 if r else 0) for s, r in self.splitsame(st, e[1], target, self.same(e[1], target))]
        if e[0] == 'loop':
            _, j, count, alts = e[:4]
            if not any(self.has(ev, kind, target) for _, ev in alts):
                return [(st, 0)]
            return self.in_loop(st, j, count, alts, kind, target)
        return [(st, 0)]

    def splitsame(self, st, v, target, c):
        """As I.split; equal values are empty alike."""
        out = []
        for s, r in self.I.split(st, c):
            if r and v != target:
                z = self.zdiff(v, target)
                if z is not None and not (self.I.add(s, z) and self.I.add(s, -z)):
                    continue
            out.append((s, r))
        return out

    def congrue(self, st, tok):
        """Equal slots are empty alike: the possible states, one for each way in which `tok` is one of the slots of which that is known."""
        todo = [st]
        for a in {a for c in st.cs for a, _ in c.t if isinstance(a, tuple) and a[0] == 'bool' and a[1] == 'zeroed'}:
            z = self.zdiff(a[2], tok)
            if z is None or a[2] == tok or not isinstance(a[2][2], Lin) or not isinstance(tok[2], Lin):
                continue
            nx = []
            for s in todo:
                for s1, r in self.I.split(s, ceq(a[2][2] - tok[2])):
                    if r and not (self.I.add(s1, z) and self.I.add(s1, -z)):
                        continue
                    nx.append(s1)
            todo = nx
        return todo

    def zdiff(self, v, w):
        while v[0] == 'tok' and v[1] == 'clone' and w[0] == 'tok' and w[1] == 'clone':
            v, w = v[2], w[2]
        if v[:2] == ('tok', 'slot') and w[:2] == ('tok', 'slot'):
            return zeroed(v) - zeroed(w)
        return None

    def has(self, evs, kind, target):
        for e in evs:
            if e[0] == kind and self.same(e[1], target) is not False:
                return True
            if e[0] == 'loop' and any(self.has(x, kind, target) for _, x in e[3]):
                return True
        return False

    def same(self, v, target):
        """Condition under which v is the value target."""
        if isinstance(v, Lin) and isinstance(target, Lin):
            return ceq(v - target)
        if isinstance(v, tuple) and isinstance(target, tuple):
            if len(v) != len(target):
                return False
            c = True
            for a, b in zip(v, target):
                c = cand(c, self.same(a, b))
                if c is False:
                    return False
            return c
        return v == target

    def in_loop(self, st, j, count, alts, kind, target):
        """Each iteration takes one of the alternatives the conditions of which hold."""
        sols = []
        per = []
        for conds, evs in alts:
            hits = []
            for x in evs:
                if x[0] == 'loop' and self.has((x,), kind, target):
                    raise Unsupported('nested loops over values')
                if x[0] == kind:
                    h = self.solve(j, x[1], target)
                    if h is None:
                        continue
                    sol, eqs = h
                    if sol is None:
                        sol = self.single(st, j, count, conds)
                    if sol is None:
                        # the same value in every iteration
                        if any(r for _, r in self.I.split(st.copy(), eqs)):
                            raise Unsupported('the same value is concerned in every iteration')
                        continue
                    if sol not in sols:
                        sols.append(sol)
                    hits.append((sol, eqs, x[1]))
            per.append((conds, hits))
        res = [(st.copy(), 0)]
        for sol in sols:
            nxt = []
            for s0, c0 in res:
                for s1, r in self.I.split(s0, cand(cge(sol), cge(count - sol - 1))):
                    if not r:
                        nxt.append((s1, c0))
                        continue
                    for conds, hits in per:
                        alts2 = [(s1.copy(), 0)]
                        for l in conds:
                            alts2 = [(s2, k) for s2, k in alts2 if self.I.add(s2, subst(l, {j: sol}))]
                        for so, eqs, so_v in hits:
                            if so == sol:
                                alts2 = [(s3, k + (1 if r2 else 0)) for s2, k in alts2 for s3, r2 in self.splitsame(s2, subst_any(so_v, {j: sol}), target, eqs)]
                        nxt += [(s2, c0 + k) for s2, k in alts2]
            res = nxt
        return res

    def single(self, st, j, count, conds):
        """The only iteration in which the conditions hold, if there is at most one."""
        cs = st.cs + (atom(j), count - atom(j) - 1) + tuple(conds)
        for l in (count - atom(j) - 1,) + tuple(conds):
            if l.coef(j) == -1:
                last = l + atom(j)
                if entails(cs, atom(j) - last):
                    return last
        return None

    def solve(self, j, v, target):
        """(iteration in which the value is the target, further condition); None: never; (None, condition): in every one"""
        eqs = []

        def eq(a, b):
            if isinstance(a, Lin) and isinstance(b, Lin):
                eqs.append(a - b)
                return True
            if isinstance(a, tuple) and isinstance(b, tuple):
                return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
            return a == b
        if not eq(v, target):
            return None
        sol = None
        for d in eqs:
            k = d.coef(j)
            if abs(k) == 1:
                sol = (d - Lin(((j, k),), 0)).scale(-k)
                break
        c = True
        for d in eqs:
            c = cand(c, ceq(d if sol is None else subst(d, {j: sol})))
        return None if c is False else (sol, c)

    def count_is(self, st, kind, target, want, what, rule, msg):
        """want: number or function of the state"""
        for s, k in self.tally(st.copy(), kind, target):
            w = want(s) if callable(want) else want
            for s in [s] if w is None or k == w else self.congrue(s, target):
                w = want(s) if callable(want) else want
                if w is not None:
                    self.ob(rule, k == w, f'{what}: {msg}', f'{what}: {vstr(target)} is {dict(drop="dropped", clone="cloned").get(kind, kind)} {k} times instead of {w}', s)

    def each_slot(self, st, w):
        """[(state, offset, slot index, inside?)] for a window of w slots."""
        s = self.s
        n, i = s.n, s.i
        o, k = ZERO if w == ONE else atom(self.I.fresh('o')), atom(self.I.fresh('k'))
        for off, idx, cs, inside in ((o, i + o, (o, w - o - 1, n - i - o - 1), True), (o, i + o - n, (o, w - o - 1, i + o - n), True),
                                     (None, k, (k, i - k - 1, k - i - w + n), False), (None, k, (k - i - w, k, n - k - 1), False)):
            s1 = st.copy()
            if all(self.I.add(s1, c) for c in cs):
                yield s1, off, idx, inside

    def values(self, evs):
        """The events which concern values."""
        r = []
        for e in evs:
            if e[0] in ('drop', 'clone', 'default'):
                r.append(e)
            elif e[0] == 'loop':
                for _, x in e[3]:
                    r += self.values(x)
        return r

    def slot_drops(self, st, w, want, what):
        """Each of the w slots is dropped want (per state) times, no other slot is."""
        if not self.values(st.ev):
            if want == 0:
                self.ob('drops', True, '', '')
                return
        for s1, off, idx, inside in self.each_slot(st, w):
            self.count_is(s1, 'drop', ('tok', 'slot', idx), (want if inside else 0), what, 'drops', 'items dropped' if inside else 'other items dropped')

    def other_events(self, st, what, allow=()):
        """No frees, no changes of flags, no other effects."""
        for e in st.ev:
            if e[0] in ('free', 'alloc', 'unmap') or e[0] == 'flag':
                if e[0] not in allow:
                    rule = 'release' if e[0] != 'flag' else 'alive'
                    self.ob(rule, False, f'{what}: {e[0]}', f'{what} {dict(free="frees memory", alloc="allocates memory", unmap="unmaps memory", flag="changes the flags which say who is alive")[e[0]]}', st)

    def quiet(self, st, what, rule='no-effect'):
        """No effect at all (but for what the iterator remembers)."""
        s = self.s
        it = self.itval(st)
        i2 = get(it, s.sh.index)
        self.ob(rule, isinstance(i2, Lin) and entails_eq(st.cs, i2 - s.i), f'{what}: index', f'{what} moves the iterator to {vstr(i2)}', st)
        self.ob(rule, not self.events(st, 'pub'), f'{what}: published', f'{what} publishes an index', st)
        self.storage_same(st, what)
        if DST in self.reg:
            self.ob(rule, st.mem[self.reg[DST]] == self.before[self.reg[DST]], f'{what}: destination', f'{what} writes to the destination', st)
        bad = self.values(st.ev)
        self.ob(rule, not bad, f'{what}: values', f'{what} {bad[0][0] if bad else ""}s values', st)
        self.other_events(st, what)
        self.remembered(st, it, s.sh, ZERO, what)

    # --- item operations ------------------------------------------------------------------------------------------------------

    def request(self, st):
        """[(state, number of slots asked for)]; None: as many as there are"""
        b = self.base
        if b in ('get_workable_slice_exact', 'get_next_slices_mut', 'peek_slice') or b.startswith('push_slice') or b in ('copy_slice', 'clone_slice'):
            return self.need
        if b in ('get_workable_slice_avail', 'get_workable_slice_multiple_of', 'peek_available'):
            return None
        return ONE

    def item(self, st, r, since=None):
        """r: decoded result of a sync operation."""
        need = self.request(st)
        if need is None:
            return self.as_available(st, r, since)
        if r[0] == 'some':
            self.granted(st, r[1], need)
        else:
            self.refused(st, r, need, since)

    def refused(self, st, r, need, since=None):
        s = self.s
        what = 'a refused request'
        s1 = st.copy()
        if self.I.add(s1, need - 1):
            ok = any(entails(s1.cs, need - d - 1) for d in self.looks(s1, since))
            self.ob('refusal', ok, 'refusal', f'the request is refused although no fresh look at the iterator ahead showed fewer than {need} slots (seen: {", ".join(str(d) for d in self.looks(s1, since)) or "nothing"})', s1)
        if self.base != 'peek_available' and self.I.add(st.copy(), -need):
            self.ob('zero', False, 'nothing asked for', 'a request for no slot at all is refused', st)
        self.quiet(st, what)
        if r[0] == 'err':
            self.ob('give-back', r[1] == ('tok', ARG, ZERO), 'value given back', f'a refused push hands back {vstr(r[1])}', st)
        elif self.base in ('push', 'push_init') and r[0] == 'none':
            self.ob('give-back', False, 'value given back', 'a refused push does not hand the value back', st)

    def granted(self, st, v, need):
        s, b = self.s, self.base
        what = 'a granted request'
        self.ob('grant', s.covered(st, need), 'grant', f'{need} slots are granted; observed: {", ".join(str(e) for e in s.evidence(st))}', st)
        attached = 'moved' if not s.detached else 'none'
        arg = lambda o: ('tok', ARG, o)
        same = lambda s2, o, old, x: veq(s2, x, old)
        nodrop = self.copy or st.x.get('nodrop')
        if b.startswith('push'):
            clone = 'clone' in b
            init = b.endswith('_init')

            def pushed(s2, o, old, x):
                a = arg(o)
                if clone:
                    return veq(s2, x, ('tok', 'clone', a))
                return veq(s2, x, a) or self.copy and veq(s2, x, ('tok', 'clone', a))
            self.content(st, need, pushed, what)
            if not nodrop:
                def want(s2, idx):
                    z = self.I.decide(s2, self.I.is_zeroed(s2, ('tok', 'slot', idx)))
                    return 1 if z is False else 0 if z is True else None
                for s1, off, idx, inside in self.each_slot(st, need):
                    tok = ('tok', 'slot', idx)
                    for s2, z in self.I.split(s1, self.I.is_zeroed(s1, tok)):
                        self.count_is(s2, 'drop', tok, (0 if z else 1) if inside else 0, what, 'drops', 'values overwritten')
                self.arg_counts(st, need, what, {'drop': 0, 'clone': 1 if clone else None})
            self.final(st, need, attached, what)
        elif b in ('pop', 'pop_move', 'copy_item', 'clone_item', 'copy_slice', 'clone_slice'):
            if b in ('pop', 'pop_move'):
                self.ob('result', veq(st, v, ('tok', 'slot', s.i)), 'item returned', f'{b} returns {vstr(v)} instead of the item at the index', st)
            else:
                def got(s2, o, idx, x):
                    a = ('tok', 'slot', idx)
                    if 'clone' in b:
                        return veq(s2, x, ('tok', 'clone', a))
                    return veq(s2, x, a) or veq(s2, x, ('tok', 'clone', a))
                self.dst_content(st, need, got, what)
            if b == 'pop_move':
                self.content(st, need, lambda s2, o, old, x: x == ZEROV, what)
            else:
                self.content(st, need, same, what)
            if not nodrop:
                self.slot_drops(st, need, 0, what)
                if 'clone' in b:
                    self.dst_counts(st, need, what)
                    for s1, off, idx, inside in self.each_slot(st, need):
                        self.count_is(s1, 'clone', ('tok', 'slot', idx), 1 if inside else 0, what, 'clones', 'items cloned')
                        self.count_is(s1, 'drop', ('tok', 'clone', ('tok', 'slot', idx)), 0, what, 'drops', 'clones dropped')
                elif b in ('pop', 'pop_move'):
                    self.ob('clones', not self.events(st, 'clone'), 'no clones', f'{b} clones items', st)
            self.final(st, need, attached, what)
        else:
            self.window(st, v, need, what)
            self.content(st, need, same, what)
            if not st.x.get('nodrop'):
                self.slot_drops(st, need, 0, what)
            self.final(st, ZERO, 'same' if not s.detached else 'none', what)
        self.other_events(st, what)

    def arg_counts(self, st, need, what, wants):
        o = atom(self.I.fresh('o'))
        s1 = st.copy()
        if not all(self.I.add(s1, c) for c in (o, need - o - 1)):
            return
        if self.base in ('push', 'push_init'):
            o = ZERO
        if wants['clone'] is None:
            self.count_is(s1, 'drop', ('tok', ARG, o), 0, what, 'drops', 'values pushed are not dropped')
        else:
            self.count_is(s1, 'drop', ('tok', 'clone', ('tok', ARG, o)), 0, what, 'drops', 'values pushed are not dropped')
            self.count_is(s1, 'drop', ('tok', ARG, o), 0, what, 'drops', 'the caller\'s values are not dropped')
            self.count_is(s1, 'clone', ('tok', ARG, o), wants['clone'], what, 'clones', 'values cloned')

    def dst_counts(self, st, need, what):
        o = atom(self.I.fresh('o'))
        s1 = st.copy()
        if not all(self.I.add(s1, c) for c in (o, need - o - 1)):
            return
        if self.base.endswith('_item'):
            o = ZERO
        self.count_is(s1, 'drop', ('tok', DST, o), 1, what, 'drops', 'values overwritten in the destination')

    # windows ----------------------------------------------------------------------------------------------------------------

    def parts(self, st, v):
        """The pointers of a window, in order: [(pointer, length)]"""
        if v[0] == 'ptr':
            return [(v, v[3] if v[3] is not None else ONE)]
        if v[0] == 'agg':
            return [(p, p[3]) for p in v[2]]
        raise Unsupported(f'window {vstr(v)}')

    def place(self, p):
        """Slot index of a pointer into the storage"""
        s = self.s
        n = len(s.stor[1])
        if p[0] == 'ptr' and p[1] == s.stor[0] and p[2][:n] == s.stor[1] and len(p[2]) == n + 1 and not isinstance(p[2][n], int) and p[2][n][0] == 'i':
            return p[2][n][1]
        return None

    def window(self, st, v, need, what):
        s = self.s
        n = s.n
        hi = n.scale(2) if self.m.vmem else n
        parts = self.parts(st, v)
        tot = ZERO
        for _, l in parts:
            tot = tot + l
        self.ob('window', entails_eq(st.cs, tot - need), 'slots of the window', f'the window has {tot} slots instead of {need}', st)
        states = [(st.copy(), ZERO, False)]
        for p, l in parts:
            nxt = []
            for s1, off, closed in states:
                for s2, r in self.I.split(s1, cge(l - 1)):
                    if not r:
                        if entails_eq(s2.cs, l):
                            nxt.append((s2, off, closed))
                        else:
                            self.ob('window', False, 'lengths of the parts', f'a part of the window has the length {l}', s2)
                        continue
                    at = self.place(p)
                    if at is None:
                        self.ob('window', False, 'parts of the window', f'a part of the window does not lie in the storage: {vstr(p)}', s2)
                        continue
                    self.ob('window', s.congruent(s2, at, s.i + off), 'start of the part', f'slot {off} of the window is slot {at} of the buffer instead of {s.i + off} modulo the length', s2)
                    self.ob('window', entails(s2.cs, at) and entails(s2.cs, hi - at - l), 'part inside the buffer', f'a part of the window covers slots {at} to {at + l} of a buffer with {hi}', s2)
                    nxt.append((s2, off + l, closed))
            states = nxt

    def as_available(self, st, r, since):
        """Windows as long as possible."""
        s, b = self.s, self.base
        looks = self.looks(st, since)
        if r[0] == 'some':
            ls = [l for _, l in self.parts(st, r[1])]
            tot = ZERO
            for l in ls:
                tot = tot + l
            if b == 'get_workable_slice_multiple_of':
                ok = any(entails(st.cs, d - tot) and entails(st.cs, tot + self.need - 1 - d) for d in looks)
                self.ob('refusal', ok, 'largest multiple', f'the window has {tot} slots, which is not the largest multiple that fits (seen: {", ".join(map(str, looks))})', st)
                self.ob('result', self.multiple(st, tot), 'multiple', f'the window has {tot} slots, which is not known to be a multiple of {self.need}', st)
                self.ob('result', entails(st.cs, tot - 1), 'not empty', 'an empty window is handed out', st)
            else:
                ok = any(entails_eq(st.cs, d - tot) for d in looks)
                self.ob('refusal', ok, 'all that is available', f'the window has {tot} slots; seen to be available: {", ".join(map(str, looks))}', st)
                if b == 'get_workable_slice_avail':
                    self.ob('result', entails(st.cs, tot - 1), 'not empty', 'an empty window is handed out', st)
            self.granted(st, r[1], tot)
        else:
            if b == 'get_workable_slice_multiple_of':
                ok = any(entails(st.cs, self.need - d - 1) for d in looks)
            else:
                ok = any(entails(st.cs, -d) for d in looks)
            if b == 'peek_available':
                self.ob('zero', False, 'nothing available', 'with nothing available there is no result, not even an empty one', st)
            self.ob('refusal', ok, 'refusal', f'nothing is handed out although no fresh look showed that there is nothing (seen: {", ".join(map(str, looks)) or "nothing"})', st)
            self.quiet(st, 'a refused request')

    def multiple(self, st, l):
        m = self.need
        if exact_div(l, m) is not None:
            return True
        seen = set()
        for c in st.cs:
            for a, _ in c.t:
                if isinstance(a, tuple) and a[0] == 'div' and a not in seen:
                    seen.add(a)
                    if entails_eq(st.cs, l - mul(atom(a), m)):
                        return True
        return entails_eq(st.cs, l) or entails_eq(st.cs, l - m)

    # --- the other operations ---------------------------------------------------------------------------------------------

    def op_index(self, st, v):
        self.ob('result', veq(st, v, self.s.i), 'index', f'index() returns {vstr(v)}', st)
        self.quiet(st, 'index()')

    def op_buf_len(self, st, v):
        self.ob('result', veq(st, v, self.s.n), 'length', f'buf_len() returns {vstr(v)}', st)
        self.quiet(st, 'buf_len()')

    def stage_index(self, st, v, role):
        s = self.s
        if role == s.own:
            ok = isinstance(v, Lin) and s.congruent(st, v, s.i - s.b) and entails(st.cs, v) and entails(st.cs, s.n - v - 1)
        elif role == s.succ:
            ok = isinstance(v, Lin) and any(s.congruent(st, v, s.i + d + s.delta) for d in self.looks(st)) and entails(st.cs, v) and entails(st.cs, s.n - v - 1)
        else:
            ok = isinstance(v, Lin) and len(v.t) == 1 and v.c == 0 and str(v.t[0][0]).startswith('other' + role)
        self.ob('result', ok, 'published index', f'{self.op}() returns {vstr(v)}, which is not the index published by that iterator', st)
        self.quiet(st, self.op + '()')

    def op_prod_index(self, st, v):
        self.stage_index(st, v, 'P')

    def op_work_index(self, st, v):
        self.stage_index(st, v, 'W')

    def op_cons_index(self, st, v):
        self.stage_index(st, v, 'C')

    def alive(self, st, v, role):
        s = self.s
        c = st.x['flag'][role]
        self.ob('alive', iff(self.I, st, v, c), 'flag', f'{self.op}() returns {vstr(v)} while the flag is {vstr(c)}', st)
        if s.conc and role != s.own:
            lo = [e for e in st.ev if e[0] == 'flagload']
            ok = lo and all(e[1] in ACQ for e in lo) or any(e[0] == 'fence' for e in st.ev)
            self.ob('alive', ok, 'order', f'{self.op}() reads the flag without Acquire: what the peer published before it was dropped may be seen later', st)
        self.quiet(st, self.op + '()')

    def op_is_prod_alive(self, st, v):
        self.alive(st, v, 'P')

    def op_is_work_alive(self, st, v):
        self.alive(st, v, 'W')

    def op_is_cons_alive(self, st, v):
        self.alive(st, v, 'C')

    def op_available(self, st, v):
        ok = isinstance(v, Lin) and any(entails_eq(st.cs, v - d) for d in self.looks(st))
        self.ob('result', ok, 'available', f'available() returns {vstr(v)}; seen to be available: {", ".join(map(str, self.looks(st))) or "nothing was looked at"}', st)
        self.quiet(st, 'available()')

    def op_wait_for(self, st, v):
        ok = any(entails(st.cs, d - self.need) for d in self.looks(st)) or entails(st.cs, -self.need)
        self.ob('result', ok, 'waits', 'wait_for returns before the slots are available', st)
        self.quiet(st, 'wait_for()')

    def op_advance(self, st, v):
        self.move(st, self.need, 'moved' if not self.s.detached else 'none', 'advance()')

    def op_go_back(self, st, v):
        self.move(st, -self.need, 'none', 'go_back()')

    def op_set_index(self, st, v):
        self.move(st, atom('x'), 'none', 'set_index()')

    def op_sync_index(self, st, v):
        self.move(st, ZERO, 'once', 'sync_index()')

    def move(self, st, adv, pub, what):
        self.final(st, adv, pub, what)
        self.storage_same(st, what)
        bad = self.values(st.ev)
        self.ob('no-effect', not bad, f'{what}: values', f'{what} {bad[0][0] if bad else ""}s values', st)
        self.other_events(st, what)

    def op_reset_index(self, st, v):
        s = self.s
        i2 = get(self.itval(st), s.sh.index)
        hit = [d for d in self.looks(st) if isinstance(i2, Lin) and s.congruent(st, i2, s.i + d)]
        self.ob('index', bool(hit), 'jump', f'reset_index() goes to {vstr(i2)}, which is not where the iterator ahead was seen', st)
        if not hit:
            return
        d = hit[-1]
        self.ob('remembered', True, '', '')
        self.same_length(st, self.itval(st), s.sh, 'reset_index()')
        for p in s.sh.cached:
            c = get(self.itval(st), p)
            self.ob('remembered', isinstance(c, Lin) and any(entails(st.cs, e - d - c) for e in s.evidence(st)), 'after the jump', f'after reset_index() the iterator remembers {vstr(c)} available slots', st)
        self.move(st, d, 'moved' if not s.detached else 'none', 'reset_index()')

    # conversions and the end ---------------------------------------------------------------------------------------------

    def converted(self, st, v, wrap, pub, what):
        s, m = self.s, self.m
        sh = m.shape(self.var, self.meta['kind'], wrap)
        i2 = get(v, sh.index)
        self.ob('convert', isinstance(i2, Lin) and entails_eq(st.cs, i2 - s.i), f'{what}: index', f'{what} turns the index into {vstr(i2)}', st)
        self.remembered(st, v, sh, ZERO, what)
        bufs = [x for _, _, x in typed(self.I.T, sh.ity, v) if isinstance(x, tuple) and x[0] == 'ptr' and x[1] == s.buf]
        self.ob('convert', len(bufs) == 1, f'{what}: buffer', f'{what} loses the buffer', st)
        # everything else in the iterator is as the constructors leave it
        for (p, ty, x), (p0, ty0, x0) in zip(typed(self.I.T, sh.ity, v), typed(self.I.T, sh.ity, sh.it)):
            if p == sh.index or p in sh.cached or p in sh.extra or any(p == w for w, _ in sh.wakers) or isinstance(x0, Lin):
                continue
            self.ob('convert', veq(st, x, x0), f'{what}: state', f'{what} changes {vstr(x0)} to {vstr(x)}', st)
        pubs = self.events(st, 'pub')
        if pub:
            self.ob('publish', len(pubs) == 1 and entails_eq(st.cs, st.x['pub']), f'{what}: published in one step', f'after {what} the published position is {s.i + st.x["pub"]} ({len(pubs)} publications)', st)
        else:
            self.ob('publish', not pubs, f'{what}: nothing is published', f'{what} publishes an index', st)
        self.storage_same(st, what)
        bad = self.values(st.ev)
        self.ob('no-effect', not bad, f'{what}: values', f'{what} touches values', st)
        self.other_events(st, what)
        self.ob('alive', not self.events(st, 'flag'), f'{what}: flags', f'{what} marks an iterator as dead', st)

    def op_detach(self, st, v):
        self.converted(st, v, {'sync': 'det', 'async': 'adet'}[self.meta['wrap']], False, 'detach()')

    def op_attach(self, st, v):
        self.converted(st, v, {'det': 'sync', 'adet': 'async'}[self.meta['wrap']], True, 'attach()')

    def op_into_sync(self, st, v):
        self.converted(st, v, 'sync', False, 'into_sync()')

    def op_from_sync(self, st, v):
        self.converted(st, v, 'async', False, 'from_sync()')

    def op_drop(self, st, v):
        s = self.s
        what = 'dropping the iterator'
        fl = [e for e in st.ev if e[0] == 'flag']
        self.ob('alive', len(fl) == 1 and fl[0][1], 'flag cleared once', f'{what} changes the flags {len(fl)} times', st)
        self.ob('publish', not self.events(st, 'pub'), 'nothing is published', f'{what} publishes an index', st)
        if len(fl) != 1 or not fl[0][1]:
            return
        at = st.ev.index(fl[0])
        if s.conc:
            ok = fl[0][2] in REL
            self.ob('release', ok, 'Release', f'the flag is cleared with {fl[0][2]}: what the iterator did before may be seen after it was dropped', st)
        frees = [e for e in st.ev if e[0] in ('free', 'unmap')]
        if not s.heap:
            self.ob('release', not frees, 'a stack buffer is not freed', f'{what} frees memory of a stack buffer', st)
            self.ob('teardown', not self.values(st.ev), 'items stay', f'{what} drops items of a stack buffer', st)
            self.storage_same(st, what)
            return
        for s1, r in self.I.split(st.copy(), st.x['released']):
            if not r:
                self.ob('release', not frees, 'freed by the last only', f'{what} frees memory although another iterator may be alive', s1)
                self.ob('teardown', not self.values(s1.ev), 'items stay', f'{what} drops items although another iterator may be alive', s1)
                continue
            if s.conc:
                first = min([st.ev.index(e) for e in s1.ev if e[0] in ('free', 'unmap', 'drop', 'loop')] or [len(st.ev)])
                ok = fl[0][2] in ('AcqRel', 'SeqCst', 'Acquire') or any(e[0] == 'fence' or e[0] == 'flagload' and e[1] in ACQ for e in st.ev[at + 1:first])
                self.ob('release', ok, 'Acquire', 'the buffer is freed without having synchronised with the iterators which were dropped before', s1)
            self.freed(s1, what)
            self.items_dropped(s1, what)

    def freed(self, st, what):
        s = self.s
        k = [e for e in st.ev if e[0] == 'free' and e[1] == s.buf]
        self.ob('release', len(k) == 1, 'the buffer is freed once', f'{what} as the last frees the buffer {len(k)} times', st)
        if s.stor[0] != s.buf:
            self.stor_freed(st, s.stor[0], s.n, what)

    def stor_freed(self, st, r, n, what):
        if self.m.vmem:
            un = [e for e in st.ev if e[0] == 'unmap']
            ns = [n, ONE] if refutes(st.cs, [n - 2]) else [n]
            ok = len(un) >= 1 and any(self.unmapped(st, un, r, mul(k, atom('sizeT')).scale(2)) for k in ns)
            self.ob('release', ok, 'both views are unmapped', f'{what} unmaps {[(vstr(e[1]), str(e[2])) for e in un]} instead of both views of the storage', st)
        else:
            k = [e for e in st.ev if e[0] == 'free' and e[1] == r]
            self.ob('release', len(k) == 1, 'the storage is freed once', f'{what} as the last frees the storage {len(k)} times', st)

    def unmapped(self, st, un, r, size):
        """The ranges unmapped are disjoint, in order or not, and cover the whole mapping."""
        from natives import byte_off
        todo = [(byte_off(e[1]) if e[1][0] == 'ptr' and e[1][1] == r else None, e[2]) for e in un]
        if any(o is None for o, _ in todo):
            return False
        at = ZERO
        while todo:
            nx = [x for x in todo if entails_eq(st.cs, x[0] - at)]
            if not nx:
                return False
            at = at + nx[0][1]
            todo.remove(nx[0])
        return entails_eq(st.cs, at - size)

    def items_dropped(self, st, what, n=None, sq=None):
        s = getattr(self, 's', None)
        n = n if n is not None else s.n
        if st.x.get('nodrop'):
            return
        k = atom(self.I.fresh('k'))
        s1 = st.copy()
        if not (self.I.add(s1, k) and self.I.add(s1, n - k - 1)):
            return
        tok = ('tok', 'slot', k)
        for s2, z in self.I.split(s1, self.I.is_zeroed(s1, tok)):
            for s3, c in self.tally(s2, 'drop', tok):
                for s4 in [s3] if c == (0 if z else 1) else self.congrue(s3, tok):
                    self.ob('teardown', c == (0 if z else 1), 'items dropped', f'{what}: an item is dropped {c} times' + (' (its slot is empty)' if z else ''), s4)

    # futures ---------------------------------------------------------------------------------------------------------------------

    def fut_end(self, st, fut, ty, what):
        """The future is dropped afterwards: [(state)]"""
        r = self.I.new_region(st, fut, 'future')
        return self.I.drop_glue(st, ptr(r), ty)

    def rettypes(self):
        f = self.m.d['fns'][self.m.fn(self.root)]
        t = self.I.T[f['locals'][0][0]]
        return t['elts'] if t['k'] == 'tuple' else [f['locals'][0][0]]

    def poll_result(self, p):
        """Poll<Option<X>>: ('some', payload) | ('none',) pending | None: Ready(None)"""
        if p[0] != 'agg':
            raise Unsupported('poll result')
        if p[1] == 1:
            return ('none',)
        x = p[2][0]
        if x[0] != 'agg':
            raise Unsupported('poll result')
        return ('some', x[2][0]) if x[1] == 1 else None

    def polled(self, st, v):
        r = self.poll_result(v[2][0])
        what = 'poll'
        self.ob('future', r is not None, 'not Ready(None)', 'the future resolves without a result', st)
        if r is None:
            return
        cuts = len(st.ev)
        before = st.ev
        ends = self.fut_end(st.copy(), v[2][1], self.rettypes()[1], what)
        self.poll_rules(st, r, ends, cuts)
        if r[0] == 'none':
            self.wakes(st)

    def item_poll(self, st, r, since=None):
        if r[0] == 'none' and self.base == 'push':
            self.item(st, ('kept',), since)
        else:
            self.item(st, r, since)

    def poll_rules(self, st, r, ends, cuts, since=None):
        self.item_poll(st, r, since)
        if self.base == 'push':
            for s1 in ends:
                want = 1 if r[0] == 'none' else 0
                tail = s1.copy()
                self.count_is(tail, 'drop', ('tok', ARG, ZERO), want, 'the future', 'future', 'the value is kept by a pending push' if want else 'the value is not dropped with the future')
        for s1 in ends:
            extra = [e for e in s1.ev[cuts:] if e[0] in ('pub', 'flag', 'free', 'unmap', 'clone')]
            self.ob('future', not extra, 'dropping the future', f'dropping the future has effects: {extra[0][0] if extra else ""}', s1)

    def wakes(self, st, since=0):
        ok = any(e[0] == 'wake' and e[1] in (('op', 'waker', 'cx'), ('op', 'waker', 'clone', ('op', 'waker', 'cx'))) or e[0] == 'wake' and self.is_cx(e[1]) for e in st.ev[since:])
        self.ob('wake', ok, 'Pending is followed by a wake-up', 'Pending is returned, and neither was the task woken nor is there another iterator which will: no operation of the others wakes it', st)

    def is_cx(self, w):
        while isinstance(w, tuple) and w:
            if w == ('op', 'waker', 'cx'):
                return True
            w = w[-1]
        return False

    def repolled(self, st, v):
        r1, r2o, fut = v[2]
        r1 = self.poll_result(r1)
        if r1 is None:
            self.ob('future', False, 'not Ready(None)', 'the future resolves without a result', st)
            return
        if r1[0] == 'some':
            self.ob('future', True, '', '')
            return
        r2 = self.poll_result(r2o[2][0])
        self.ob('future', r2 is not None, 'second poll: not Ready(None)', 'the future resolves without a result', st)
        if r2 is None:
            return
        ends = self.fut_end(st.copy(), fut, self.rettypes()[2], 'poll')
        last = self.second(st)
        self.poll_rules(st, r2, ends, len(st.ev), last)
        if r2[0] == 'none':
            self.wakes(st, st.x['cut'])
            self.ob('future', among(st, fut, st.x['fut']), 'state of the future', f'the second poll leaves the future as {vstr(fut)}; the first one left it as {vstr(st.x["fut"])}, and later polls are examined for that only', st)

    def second(self, st):
        """The line from which the second poll looks at the iterator ahead."""
        ls = []
        for _, _, o in st.x['ev']:
            if o and o not in ls:
                ls.append(o)
        return ls[1] if len(ls) > 1 else '?'

    def dropped_future(self, st):
        what = 'a future dropped before it is polled'
        s = self.s
        it = self.itval(st)
        if self.base == 'push':
            self.count_is(st, 'drop', ('tok', ARG, ZERO), 1, what, 'future', 'the value is dropped with the future')
            ev = st.ev
            st = st.copy()
            st.ev = tuple(e for e in ev if e[0] != 'drop')
        self.quiet(st, what, 'future')


def examine(m, root):
    return Exam(m, root).run()

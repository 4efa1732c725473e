"""Meaning of the functions of core, alloc and libc which are not interpreted from their MIR, and of the
user's own code (Clone, Default, Drop of the item type)."""
import re
import lin
from lin import Lin, const, atom, ZERO, ONE, mul, entails, entails_eq, refutes, UMAX
from values import *
from interp import zeroed, exact_div

TABLE = {}
REGEX = []
TRAIT = {}


def nat(*paths):
    def d(f):
        for p in paths:
            if p.startswith('re:'):
                REGEX.append((re.compile(p[3:] + r'\Z'), f))
            else:
                TABLE[p] = f
        return f
    return d


class Call:
    __slots__ = ('I', 'st', 'fid', 'fn', 'args', 'argtys', 'm')

    def __init__(self, I, st, fid, fn, args, argtys, m):
        self.I, self.st, self.fid, self.fn, self.args, self.argtys, self.m = I, st, fid, fn, args, argtys, m

    def targ(self, n=0):
        return self.fn['args'][n]


def live(v):
    """A value made by the user (not something found in a slot): never all zero bytes."""
    return isinstance(v, tuple) and v[0] == 'tok' and v[1] != 'slot'


class Natives:
    def __init__(self):
        self.cache = {}

    def call(self, I, st, fid, fn, args, argtys):
        key = (id(I.F), fid)
        h = self.cache.get(key)
        if h is None:
            h = self.cache[key] = self.find(fn) or (None, None)
        if h[0] is None:
            return None
        return h[0](Call(I, st, fid, fn, args, argtys, h[1]))

    def find(self, fn):
        p = fn.get('path')
        if fn['kind'] == 'open':
            f = OPEN.get(fn.get('trait') or p)
            return (f, None) if f else None
        if p is None:
            return None
        f = TABLE.get(p)
        if f:
            return (f, None)
        for r, f in REGEX:
            m = r.match(p)
            if m:
                return (f, m)
        return None

    def const(self, I, st, f, ty):
        p = f['path'].rsplit('::', 1)[-1]
        t = I.T[f['args'][0]] if f.get('args') else None
        if p == 'IS_ZST' and f.get('args'):
            return I.T.zst(f['args'][0])
        if p in ('SIZE',) and f.get('args'):
            return I.T.size(f['args'][0])
        if p in ('ALIGN',) and f.get('args'):
            return ONE
        if p == 'LAYOUT' and f.get('args'):
            return agg(I.T.size(f['args'][0]), ONE)
        return None

    def opaque_const(self, I, st, c, ty):
        t = I.T[ty]
        k = I.T.kind(ty)
        if k == 'int':
            s = c.get('s', '')
            m = re.match(r'^(?:const )?(-?\d+)(?:_?[iu](?:8|16|32|64|128|size))?$', s)
            if m:
                return const(int(m.group(1)))
        if k == 'bool':
            s = c.get('s', '').removeprefix('const ')
            if s in ('true', 'false'):
                return s == 'true'
        if t['k'] in ('ptr',) and 'MAP_FAILED' in c.get('s', ''):
            return MAP_FAILED
        return ('op', 'const', c.get('s', ''))

    def copy(self, I, st, src, dst, count):
        """memcpy of whole elements."""
        return copy_elems(I, st, src, dst, count)

    def drop(self, I, st, p, t):
        if t['path'] == 'core::task::Waker':
            out = []
            for s, v in I.load(st, p):
                s.event('wdrop', v)
                out.append(s)
            return out
        if t['path'] == 'alloc::vec::Vec':
            out = []
            for s, v in I.load(st, p):
                q, n = v[2]
                for s2 in I.drop_range(s, q, n, t['args'][0]):
                    if q[1] in s2.freed:
                        I.bad('double-free', s2, 'the memory of a vector is freed twice')
                        continue
                    s2.event('free', q[1], I.where())
                    s2.freed = s2.freed | {q[1]}
                    out.append(s2)
            return out
        if t['path'] == 'alloc::vec::IntoIter':
            out = []
            for s, v in I.load(st, p):
                q, a, b = v[2]
                for s2 in I.drop_range(s, elem(q, a), b - a, t['args'][0]):
                    if q[1] in s2.freed:
                        I.bad('double-free', s2, 'the memory of a vector is freed twice')
                        continue
                    s2.event('free', q[1], I.where())
                    s2.freed = s2.freed | {q[1]}
                    out.append(s2)
            return out
        if t['path'] in ('core::slice::Iter', 'core::slice::IterMut', 'core::task::Context', 'core::fmt::Arguments', 'core::task::RawWaker'):
            return [st]
        if t['path'] == 'core::array::IntoIter':
            out = []
            for s, v in I.load(st, p):
                sq, a, b = v[2]
                if not I.T[t['args'][0]]['needs_drop'] or entails(s.cs, a - b):
                    out.append(s)
                else:
                    r = I.new_region(s, sq, 'array')
                    out += I.drop_range(s, ('ptr', r, (('i', a),), None), b - a, t['args'][0])
            return out
        return None

    def free(self, I, st, p, T, ty):
        """Releases a heap allocation (a Box)."""
        if not (isinstance(p, tuple) and p[0] == 'ptr'):
            I.bad('ub', st, f'something which is not a heap allocation is freed ({vstr(p)})')
            return []
        r = p[1]
        if r == 'unit' or r == 'dangling':
            return [st]
        if T.zst(ty):
            return [st]
        if r in st.freed:
            I.bad('double-free', st, 'a heap allocation is freed twice')
            return []
        if not str(I.rname.get(r) or '').startswith('heap'):
            I.bad('free-foreign', st, f'memory which was not allocated as a Box is freed ({I.rname.get(r)})')
            return []
        if any(isinstance(e, int) or e[1] != ZERO for e in p[2]):
            I.bad('free-foreign', st, 'the inside of a heap allocation is freed')
            return []
        k = T[T.strip(ty)]['k']
        v = st.mem.get(r)
        if k == 'slice' and isinstance(v, tuple) and v[0] == 'seq':
            if not entails_eq(st.cs, v[1] - p[3]):
                I.bad('free-size', st, f'a heap allocation of {v[1]} elements is freed as {p[3]} elements')
        elif isinstance(v, tuple) and v[0] == 'seq' and k not in ('array', 'slice'):
            I.bad('free-size', st, 'a heap allocation of a slice is freed as one element')
        st.event('free', r, I.where())
        st.freed = st.freed | {r}
        return [st]


# --- user code ---------------------------------------------------------------------------------------------------

def need_value(c, st, v, what):
    if v == UNDEF:
        c.I.bad('ub', st, f'{what} reads uninitialised memory')
        return False
    if v == ZEROV:
        c.I.bad('empty-read', st, f'{what} reads an empty (all-zero) slot as a value')
        return False
    if isinstance(v, tuple) and v[0] == 'tok' and not live(v) and not st.x.get('occ') and not entails(st.cs, -zeroed(v)):
        c.I.bad('empty-read', st, f'{what} may read an empty (all-zero) slot as a value')
        return False
    return True


def open_clone(c):
    out = []
    for s, v in c.I.load(c.st, c.args[0]):
        if not need_value(c, s, v, 'clone'):
            continue
        c.I.may_panic(s)
        s.event('clone', v, c.I.where())
        out.append((s, ('tok', 'clone', v)))
    return out


def open_clone_from(c):
    """*dst = src.clone(): the old value goes."""
    out = []
    I = c.I
    for s, v in I.load(c.st, c.args[1]):
        if not need_value(c, s, v, 'clone_from'):
            continue
        I.may_panic(s)
        s.event('clone', v, I.where())
        for s2, old in I.load(s, c.args[0]):
            if not need_value(c, s2, old, 'clone_from'):
                continue
            s2.event('drop', old, I.where())
            for s3 in I.store(s2, c.args[0], ('tok', 'clone', v)):
                out.append((s3, UNIT))
    return out


def open_default(c):
    c.st.event('default', c.I.where())
    return [(c.st, ('tok', 'default'))]


OPEN = {
    'core::clone::Clone::clone': open_clone,
    'core::clone::Clone::clone_from': open_clone_from,
    'core::default::Default::default': open_default,
}


# --- integers ------------------------------------------------------------------------------------------------------

INT = r'core::num::(?:\w+::)?<impl ([iu](?:8|16|32|64|128|size))>::'


def ityp(name):
    return (64 if name[1:] == 'size' else int(name[1:])), name[0] == 'i'


class FakeTy:
    pass


def rng(name):
    b, s = ityp(name)
    return (-(1 << b - 1), (1 << b - 1) - 1) if s else (0, (1 << b) - 1)


def inrange(r, name):
    lo, hi = rng(name)
    return cand(cge(r - lo), cge(const(hi) - r))


def asint(c, v):
    if isinstance(v, Lin):
        return v
    raise Unsupported(f'arithmetic on {vstr(v)}', c.I.line)


@nat('re:' + INT + r'(checked|unchecked|wrapping|saturating|overflowing|strict)_(add|sub|mul)')
def int_arith(c):
    name, mode, op = c.m.groups()
    a, b = c.args
    I = c.I
    if isinstance(a, tuple) and a[0] == 'bits' or isinstance(b, tuple) and b[0] == 'bits':
        return None
    r = I.arith(op.capitalize(), asint(c, a), asint(c, b))
    lo, hi = rng(name)
    out = []
    for s, ok in I.split(c.st, inrange(r, name)):
        if ok:
            out.append((s, some(r) if mode == 'checked' else agg(r, False) if mode == 'overflowing' else r))
            continue
        if mode == 'checked':
            out.append((s, none()))
        elif mode == 'unchecked':
            I.bad('ub', s, f'unchecked_{op} overflows ({a}, {b})')
        elif mode == 'strict':
            I.bad('panic', s, f'{op} overflows')
        elif mode == 'saturating':
            for s2, big in I.split(s, cge(r - hi - 1)):
                out.append((s2, const(hi if big else lo)))
        else:
            m = hi - lo + 1
            done = False
            for w in (r - m, r + m):
                for s2 in I.assume(s.copy(), inrange(w, name)):
                    out.append((s2, agg(w, True) if mode == 'overflowing' else w))
            s3 = s
            for s4 in I.assume(s3, inrange(r - m, name), False):
                for s5 in I.assume(s4, inrange(r + m, name), False):
                    if lo:
                        raise Unsupported('signed overflow', I.line)
                    w = I.nat(s5, 'wrapped', hi)
                    out.append((s5, agg(w, True) if mode == 'overflowing' else w))
    return out


@nat('re:' + INT + r'(min|max)', 're:core::cmp::impls::<impl core::cmp::Ord for ([iu](?:8|16|32|64|128|size))>::(min|max)', 're:core::cmp::(min|max)', 'core::cmp::Ord::min', 'core::cmp::Ord::max')
def int_minmax(c):
    op = c.fn['path'].rsplit('::', 1)[-1]
    a, b = c.args
    if not (isinstance(a, Lin) and isinstance(b, Lin)):
        return None
    out = []
    for s, r in c.I.split(c.st, cge(b - a)):
        out.append((s, (a if r else b) if op == 'min' else (b if r else a)))
    return out


@nat('re:' + INT + r'(is_power_of_two)')
def int_pow2(c):
    v = c.args[0]
    if v.is_const():
        return [(c.st, v.c > 0 and v.c & (v.c - 1) == 0)]
    return [(c.st, ('ge', atom(('bool', 'pow2', v)) - 1))]


@nat('re:' + INT + r'abs_diff')
def abs_diff(c):
    a, b = c.args
    return [(s, a - b if r else b - a) for s, r in c.I.split(c.st, cge(a - b))]


@nat('re:core::num::(?:nonzero::)?NonZero::<T>::new')
def nz_new(c):
    v = c.args[0]
    return [(s, none() if r else some(v)) for s, r in c.I.split(c.st, ceq(v))]


@nat('re:core::num::(?:nonzero::)?NonZero::<T>::new_unchecked')
def nz_new_unchecked(c):
    out = []
    for s, r in c.I.split(c.st, ceq(c.args[0])):
        if r:
            c.I.bad('ub', s, 'NonZero::new_unchecked of zero')
        else:
            out.append((s, c.args[0]))
    return out


@nat('re:core::num::(?:nonzero::)?NonZero::<T>::get', 're:core::num::(?:nonzero::)?NonZero::<\\w+>::get')
def nz_get(c):
    v = c.args[0]
    if isinstance(v, Lin) and not v.is_const() and not c.I.add(c.st, v - 1):
        return []
    return [(c.st, v)]


# --- memory --------------------------------------------------------------------------------------------------------

@nat('core::mem::size_of', 'core::intrinsics::size_of')
def size_of(c):
    return [(c.st, c.I.T.size(c.targ()))]


@nat('core::mem::align_of', 'core::intrinsics::align_of', 'core::intrinsics::align_of_val', 'core::mem::align_of_val')
def align_of(c):
    return [(c.st, ONE)]


@nat('core::mem::size_of_val', 'core::intrinsics::size_of_val')
def size_of_val(c):
    t = c.targ()
    T = c.I.T
    k = T[T.strip(t)]['k']
    if k == 'slice':
        return [(c.st, mul(c.args[0][3], T.size(T[T.strip(t)]['elt'])))]
    if k == 'str':
        return [(c.st, c.args[0][3])]
    return [(c.st, T.size(t))]


@nat('re:core::alloc::Layout::(new|for_value|for_value_raw)', 're:core::alloc::layout::Layout::(new|for_value|for_value_raw)')
def layout_of(c):
    if c.m.group(1) == 'new':
        return [(c.st, agg(c.I.T.size(c.targ()), ONE))]
    return [(s, agg(v, ONE)) for s, v in size_of_val(c)]


@nat('re:core::alloc::(?:layout::)?Layout::array')
def layout_array(c):
    """(Never too large: it describes something which exists.)"""
    return [(c.st, ('agg', 0, (agg(mul(c.args[0], c.I.T.size(c.targ())), ONE),)))]


@nat('re:core::alloc::(?:layout::)?Layout::(size|align)')
def layout_size(c):
    return [(s, v[2][0 if c.m.group(1) == 'size' else 1]) for s, v in c.I.load(c.st, c.args[0])]


@nat('alloc::alloc::dealloc')
def dealloc(c):
    I, st, p = c.I, c.st, c.args[0]
    if not (isinstance(p, tuple) and p[0] == 'ptr'):
        I.bad('ub', st, f'something which is not a heap allocation is freed ({vstr(p)})')
        return []
    r = p[1]
    if r in st.freed:
        I.bad('double-free', st, 'a heap allocation is freed twice')
        return []
    if not str(I.rname.get(r) or '').startswith('heap'):
        I.bad('free-foreign', st, f'memory which was not allocated on the heap is freed ({I.rname.get(r)})')
        return []
    if any(isinstance(e, int) or e[0] == 'i' and e[1] != ZERO for e in p[2]):
        I.bad('free-foreign', st, 'the inside of a heap allocation is freed')
    v, size = st.mem.get(r), c.args[1][2][0]
    if isinstance(v, tuple) and v[0] == 'seq' and not entails_eq(st.cs, size - mul(v[1], atom('sizeT'))):
        I.bad('free-size', st, f'a heap allocation of {v[1]} elements is freed with the size {size}')
    st.event('free', r, I.where())
    st.freed = st.freed | {r}
    return [(st, UNIT)]


@nat('core::mem::needs_drop', 'core::intrinsics::needs_drop')
def needs_drop(c):
    """Of the item type: unknown; where it has no destructor there is nothing to run."""
    if not c.I.T[c.targ()]['needs_drop']:
        return [(c.st, False)]
    if 'nodrop' in c.st.x:
        return [(c.st, not c.st.x['nodrop'])]
    if c.I.T.kind(c.targ()) != 'param':
        return [(c.st, True)]
    s2 = c.st.copy()
    c.st.x['nodrop'], s2.x['nodrop'] = False, True
    return [(c.st, True), (s2, False)]


@nat('core::intrinsics::integer_min', 'core::intrinsics::integer_max')
def integer_min(c):
    a, b = c.args
    up = c.fn['path'].endswith('max')
    return [(s, (a if r else b) if up else (b if r else a)) for s, r in c.I.split(c.st, cge(a - b))]


@nat('core::mem::forget', 'core::intrinsics::forget')
def forget(c):
    c.st.event('forget', c.args[0], c.I.where())
    return [(c.st, UNIT)]


@nat('core::mem::drop')
def mem_drop(c):
    r = c.I.new_region(c.st, c.args[0], 'dropped')
    return [(s, UNIT) for s in c.I.drop_glue(c.st, ptr(r), c.targ())]


@nat('core::mem::replace')
def mem_replace(c):
    out = []
    for s, old in c.I.load(c.st, c.args[0]):
        for s2 in c.I.store(s, c.args[0], c.args[1]):
            out.append((s2, old))
    return out


@nat('core::mem::swap', 'core::ptr::swap', 'core::intrinsics::typed_swap_nonoverlapping')
def mem_swap(c):
    out = []
    a, b = c.args
    for s, x in c.I.load(c.st, a):
        for s2, y in c.I.load(s, b):
            for s3 in c.I.store(s2, a, y):
                for s4 in c.I.store(s3, b, x):
                    out.append((s4, UNIT))
    return out


@nat('core::mem::transmute_copy')
def transmute_copy(c):
    I = c.I
    p = I.ptr_cast(c.st, c.args[0], c.argtys[0], c.argtys[0])
    a, b = I.T[I.T.strip(c.targ(0))], I.T[I.T.strip(c.targ(1))]
    if a['k'] == 'array' and b['k'] != 'array':
        p = ('ptr', p[1], p[2] + (('i', ZERO),), None)
    return I.load(c.st, p)


@nat('core::mem::zeroed', 'core::mem::MaybeUninit::<T>::zeroed')
def zeroed_(c):
    t = c.I.T[c.I.T.strip(c.targ())]
    if t['k'] == 'array':
        from interp import tcon
        return [(c.st, seq(tcon(t['len']), 'zero'))]
    if t['k'] == 'int':
        return [(c.st, ZERO)]
    return [(c.st, ZEROV)]


@nat('core::mem::MaybeUninit::<T>::uninit')
def uninit(c):
    t = c.I.T[c.I.T.strip(c.targ())]
    if t['k'] == 'array':
        from interp import tcon
        return [(c.st, seq(tcon(t['len']), 'undef'))]
    return [(c.st, UNDEF)]


@nat('core::mem::MaybeUninit::<T>::new', 'core::mem::MaybeUninit::<T>::assume_init', 'core::mem::ManuallyDrop::<T>::new', 'core::mem::ManuallyDrop::<T>::into_inner')
def ident(c):
    return [(c.st, c.args[0])]


@nat('core::mem::MaybeUninit::<T>::as_mut_ptr', 'core::mem::MaybeUninit::<T>::as_ptr', 'core::mem::MaybeUninit::<T>::assume_init_ref', 'core::mem::MaybeUninit::<T>::assume_init_mut',
     'core::cell::UnsafeCell::<T>::get', 'core::cell::UnsafeCell::<T>::get_mut', 'core::cell::UnsafeCell::<T>::raw_get', 'core::cell::UnsafeCell::<T>::from_mut')
def ident_ptr(c):
    return [(c.st, c.args[0])]


@nat('core::cell::UnsafeCell::<T>::new', 'core::cell::UnsafeCell::<T>::into_inner', '<core::cell::UnsafeCell<T> as core::convert::From<T>>::from')
def ident2(c):
    return [(c.st, c.args[0])]


@nat('core::mem::MaybeUninit::<T>::assume_init_read', 'core::ptr::read', 'core::ptr::const_ptr::<impl *const T>::read', 'core::ptr::mut_ptr::<impl *mut T>::read', 'core::intrinsics::read_via_copy',
     'core::ptr::read_unaligned', 'core::ptr::const_ptr::<impl *const T>::read_unaligned', 'core::ptr::non_null::NonNull::<T>::read', 'core::ptr::NonNull::<T>::read')
def ptr_read(c):
    r = c.I.load(c.st, c.args[0])
    return [(s, c.I.as_byte(s, v, c.targ())) for s, v in r] if c.fn['args'] else r


@nat('core::ptr::read_volatile', 'core::ptr::const_ptr::<impl *const T>::read_volatile', 'core::intrinsics::volatile_load')
def ptr_read_volatile(c):
    r = c.I.load(c.st, c.args[0])
    return [(s, c.I.as_byte(s, v, c.targ())) for s, v in r] if c.fn['args'] else r


@nat('core::ptr::write', 'core::ptr::mut_ptr::<impl *mut T>::write', 'core::intrinsics::write_via_move', 'core::ptr::write_unaligned', 'core::ptr::mut_ptr::<impl *mut T>::write_unaligned',
     'core::ptr::write_volatile', 'core::ptr::mut_ptr::<impl *mut T>::write_volatile', 'core::ptr::NonNull::<T>::write')
def ptr_write(c):
    return [(s, UNIT) for s in c.I.store(c.st, c.args[0], c.args[1])]


@nat('core::mem::MaybeUninit::<T>::write')
def mu_write(c):
    return [(s, c.args[0]) for s in c.I.store(c.st, c.args[0], c.args[1])]


@nat('core::ptr::replace', 'core::ptr::mut_ptr::<impl *mut T>::replace')
def ptr_replace(c):
    return mem_replace(c)


@nat('core::mem::MaybeUninit::<T>::assume_init_drop', 'core::ptr::drop_in_place', 'core::ptr::mut_ptr::<impl *mut T>::drop_in_place', 'core::intrinsics::drop_in_place', 'core::mem::ManuallyDrop::<T>::drop')
def drop_in_place(c):
    return [(s, UNIT) for s in c.I.drop_glue(c.st, c.args[0], c.targ())]


@nat('core::ptr::mut_ptr::<impl *mut T>::write_bytes', 'core::ptr::write_bytes', 'core::intrinsics::write_bytes')
def write_bytes(c):
    p, b, n = c.args
    I = c.I
    if not (isinstance(b, Lin) and b == ZERO):
        raise Unsupported('write_bytes', I.line)
    el = I.T.pointee(c.argtys[0])
    if isinstance(n, Lin) and n == ZERO:
        return [(c.st, UNIT)]
    if el is not None and I.T.size(el) == ONE and not I.seq_elt_size(c.st, p, el) or (el is not None and I.T.size(el) == ONE and I.T[I.T.strip(el)]['k'] == 'int'):
        q = exact_div(n, atom('sizeT'))
        if q is None:
            raise Unsupported('write_bytes of part of an item', I.line)
        n = q
    if n == ONE:
        return [(s, UNIT) for s in I.store(c.st, p, ZEROV)]
    return [(s, UNIT) for s in I.for_each(c.st, n, lambda s, k: I.store(s, I.elem_ptr(p, k), ZEROV), 'zero')]


PTR = r'core::ptr::(?:const_ptr|mut_ptr)::<impl \*(?:const|mut) T>::'


@nat('re:' + PTR + r'(add|sub|offset|wrapping_add|wrapping_sub|wrapping_offset)', 're:core::ptr::NonNull::<T>::(add|sub|offset)', 're:core::intrinsics::(offset|arith_offset)')
def ptr_add(c):
    k = c.args[1]
    if c.m.group(1).endswith('sub'):
        k = -k
    return [(c.st, c.I.ptr_add(c.st, c.args[0], k, c.I.T.pointee(c.argtys[0])))]


@nat('re:' + PTR + r'(byte_add|byte_sub|wrapping_byte_add|wrapping_byte_sub|byte_offset)')
def ptr_byte_add(c):
    k = c.args[1]
    if c.m.group(1).endswith('sub'):
        k = -k
    p = c.args[0]
    if isinstance(p, tuple) and p[0] == 'op' and p[1] == 'map':
        return [(c.st, ('op', 'map', p[2], p[3] + k))]
    return [(c.st, c.I.byte_add(c.st, p, k))]


@nat('re:' + PTR + r'(is_null)')
def is_null(c):
    p = c.args[0]
    if isinstance(p, Lin):
        return [(c.st, ceq(p))]
    return [(c.st, False)]


@nat('core::ptr::null_mut', 'core::ptr::null')
def null(c):
    return [(c.st, ZERO)]


@nat('re:' + PTR + r'(cast|cast_mut|cast_const|as_ptr)', 'core::ptr::from_ref', 'core::ptr::from_mut', 'core::ptr::NonNull::<T>::cast')
def ptr_cast(c):
    # the cast to another type keeps the place; elements of arrays are met by their first element
    I = c.I
    if c.fn['path'].endswith('::cast') and len(c.fn['args']) > 1:
        T = I.T
        a, b = T[T.strip(c.targ(0))], T[T.strip(c.targ(1))]
        p = c.args[0]
        if isinstance(p, tuple) and p[0] == 'ptr':
            if a['k'] in ('array', 'slice') and b['k'] not in ('array', 'slice'):
                if a['k'] == 'array':
                    p = ('ptr', p[1], p[2] + (('i', ZERO),), None)
                else:
                    p = ('ptr', p[1], p[2], None)
            elif b['k'] == 'array' and a['k'] not in ('array', 'slice') and p[2] and p[2][-1] == ('i', ZERO):
                p = ('ptr', p[1], p[2][:-1], None)
        return [(c.st, p)]
    return [(c.st, c.args[0])]


@nat('re:' + PTR + r'(as_ref|as_mut)')
def ptr_as_ref(c):
    p = c.args[0]
    if isinstance(p, Lin):
        return [(c.st, none())] if p == ZERO else None
    return [(c.st, some(p))]


@nat('core::ptr::NonNull::<T>::new')
def nonnull_new(c):
    p = c.args[0]
    if isinstance(p, Lin):
        return [(c.st, none())]
    return [(c.st, some(p))]


@nat('core::ptr::NonNull::<T>::new_unchecked', 'core::ptr::NonNull::<T>::as_ptr', 'core::ptr::NonNull::<T>::as_ref', 'core::ptr::NonNull::<T>::as_mut',
     '<core::ptr::NonNull<T> as core::convert::From<&mut T>>::from', '<core::ptr::NonNull<T> as core::convert::From<&T>>::from', 'core::ptr::NonNull::<T>::from_ref', 'core::ptr::NonNull::<T>::from_mut',
     '<core::ptr::NonNull<T> as core::clone::Clone>::clone')
def nonnull_ident(c):
    if c.fn['path'].rsplit('::', 1)[-1] in ('clone', 'as_ref', 'as_mut'):
        return c.I.load(c.st, c.args[0])
    return [(c.st, c.args[0])]


@nat('core::ptr::NonNull::<T>::dangling', 'core::ptr::dangling', 'core::ptr::dangling_mut')
def dangling(c):
    return [(c.st, ('ptr', 'dangling', (('i', ZERO),), None))]


@nat('core::ptr::slice_from_raw_parts', 'core::ptr::slice_from_raw_parts_mut', 'core::slice::from_raw_parts', 'core::slice::from_raw_parts_mut', 'core::ptr::NonNull::<[T]>::slice_from_raw_parts')
def slice_from(c):
    p, n = c.args
    T = c.I.T
    if isinstance(p, tuple) and p[0] == 'ptr' and T.size(c.targ()) == ONE and T[T.strip(c.targ())]['k'] == 'int':
        # bytes of an item
        if not (p[2] and not isinstance(p[2][-1], int) and p[2][-1][0] == 'b'):
            p = ('ptr', p[1], p[2] + (('b', ZERO),), None)
    return [(c.st, c.I.fat(p, n))]


@nat('core::ptr::copy_nonoverlapping', 'core::intrinsics::copy_nonoverlapping', 'core::ptr::copy', 'core::intrinsics::copy')
def copy_(c):
    return copy_elems(c.I, c.st, c.args[0], c.args[1], c.args[2])


@nat('re:' + PTR + r'(copy_from|copy_from_nonoverlapping|copy_to|copy_to_nonoverlapping)')
def copy_m(c):
    a, b, n = c.args
    if c.m.group(1).startswith('copy_from'):
        a, b = b, a
    return copy_elems(c.I, c.st, a, b, n)


def copy_elems(I, st, src, dst, count):
    if isinstance(count, Lin) and count == ONE:
        out = []
        for s, v in I.load(st, src):
            for s2 in I.store(s, dst, v):
                out.append((s2, UNIT))
        return out

    def one(s, k):
        r = []
        for s1, v in I.load(s, I.elem_ptr(src, k)):
            r += I.store(s1, I.elem_ptr(dst, k), v)
        return r
    if entails(st.cs, -count):
        return [(st, UNIT)]
    return [(s, UNIT) for s in I.for_each(st, count, one, 'copy')]


@nat('core::slice::<impl [T]>::copy_from_slice')
def copy_from_slice(c):
    d, s_ = c.args
    out = []
    for s, eq in c.I.split(c.st, ceq(d[3] - s_[3])):
        if not eq:
            c.I.bad('panic', s, 'copy_from_slice of slices of different lengths')
            continue
        out += copy_elems(c.I, s, s_, d, d[3])
    return out


@nat('core::slice::<impl [T]>::as_ptr', 'core::slice::<impl [T]>::as_mut_ptr')
def slice_as_ptr(c):
    p = c.args[0]
    return [(c.st, ('ptr', p[1], p[2], None))]


@nat('core::slice::<impl [T]>::len', 're:' + r'core::ptr::(?:const_ptr|mut_ptr)::<impl \*(?:const|mut) \[T\]>::len', 'core::ptr::NonNull::<[T]>::len')
def slice_len(c):
    p = c.args[0]
    return [(c.st, p[3])]


@nat('core::slice::<impl [T]>::is_empty')
def slice_is_empty(c):
    return [(c.st, ceq(c.args[0][3]))]


def range_bounds(c, r, ty, n):
    """(lo, hi) of a range value over something of length n."""
    t = c.I.T[ty]
    p = t.get('path', '')
    if p.endswith('RangeFull'):
        return ZERO, n
    if isinstance(r, Lin):
        if p.endswith('RangeFrom'):
            return r, n
        if p.endswith('RangeTo'):
            return ZERO, r
        if p.endswith('RangeToInclusive'):
            return ZERO, r + 1
        return None
    if r[0] == 'agg':
        if p.endswith('::Range'):
            return r[2][0], r[2][1]
        if p.endswith('RangeInclusive'):
            return r[2][0], r[2][1] + 1
    raise Unsupported(f'range {vstr(r)} of type {t["str"]}', c.I.line)


def subslice(p, lo, hi):
    last = p[2][-1]
    return ('ptr', p[1], p[2][:-1] + ((last[0], last[1] + lo),), hi - lo)


@nat('re:core::slice::<impl \\[T\\]>::get_unchecked(_mut)?')
def get_unchecked(c):
    p, r = c.args
    n = p[3]
    b = range_bounds(c, r, c.argtys[1], n) if c.argtys[1] is not None and c.I.T[c.I.T.strip(c.argtys[1])]['k'] != 'int' or not isinstance(r, Lin) else None
    if isinstance(r, Lin) and c.argtys[1] is not None and c.I.T[c.argtys[1]]['k'] == 'adt':
        b = range_bounds(c, r, c.argtys[1], n)
    out = []
    if b is None:
        for s, ok in c.I.split(c.st, cand(cge(r), cge(n - r - 1))):
            if ok:
                out.append((s, c.I.elem_ptr(('ptr', p[1], p[2], None), r)))
            else:
                c.I.bad('bounds', s, f'get_unchecked({r}) on {n} elements')
        return out
    lo, hi = b
    for s, ok in c.I.split(c.st, cand(cge(lo), cand(cge(hi - lo), cge(n - hi)))):
        if ok:
            out.append((s, subslice(p, lo, hi)))
        else:
            c.I.bad('bounds', s, f'get_unchecked({lo}..{hi}) on {n} elements')
    return out


@nat('re:core::slice::<impl \\[T\\]>::get(_mut)?')
def get_(c):
    p, r = c.args
    n = p[3]
    isint = c.I.T[c.I.T.strip(c.argtys[1])]['k'] == 'int' and c.I.T[c.argtys[1]]['k'] == 'int'
    out = []
    if isint:
        for s, ok in c.I.split(c.st, cand(cge(r), cge(n - r - 1))):
            out.append((s, some(c.I.elem_ptr(('ptr', p[1], p[2], None), r)) if ok else none()))
        return out
    lo, hi = range_bounds(c, r, c.argtys[1], n)
    for s, ok in c.I.split(c.st, cand(cge(hi - lo), cge(n - hi))):
        out.append((s, some(subslice(p, lo, hi)) if ok else none()))
    return out


@nat('re:(?:core|alloc)::slice::index::<impl core::ops::Index(?:Mut)?<I> for \\[T\\]>::index(_mut)?', 're:core::array::<impl core::ops::Index(?:Mut)?<I> for \\[T; N\\]>::index(_mut)?',
     're:<alloc::vec::Vec<T, A> as core::ops::Index(?:Mut)?<I>>::index(_mut)?')
def index_(c):
    p, r = c.args
    I = c.I
    if '[T; N]' in c.fn['path']:
        t = I.T[I.T.strip(I.T.pointee(c.argtys[0]))]
        from interp import tcon
        n = tcon(t['len'])
        p = ('ptr', p[1], p[2] + (('i', ZERO),), n)
    elif 'Vec' in c.fn['path']:
        (st, v), = I.load(c.st, p)
        p = ('ptr', v[2][0][1], v[2][0][2], v[2][1])
    n = p[3]
    t = I.T[c.argtys[1]]
    out = []
    if t['k'] == 'int':
        for s, ok in I.split(c.st, cge(n - r - 1)):
            if ok:
                out.append((s, I.elem_ptr(('ptr', p[1], p[2], None), r)))
            else:
                I.bad('panic', s, f'index {r} out of bounds ({n})')
        return out
    lo, hi = range_bounds(c, r, c.argtys[1], n)
    for s, ok in I.split(c.st, cand(cge(hi - lo), cge(n - hi))):
        if ok:
            out.append((s, subslice(p, lo, hi)))
        else:
            I.bad('panic', s, f'range {lo}..{hi} out of bounds ({n})')
    return out


@nat('re:core::slice::<impl \\[T\\]>::split_at(_mut)?(_unchecked)?')
def split_at(c):
    p, m = c.args
    out = []
    for s, ok in c.I.split(c.st, cge(p[3] - m)):
        if ok:
            out.append((s, agg(subslice(p, ZERO, m), subslice(p, m, p[3]))))
        elif c.m.group(2):
            c.I.bad('bounds', s, f'split_at_unchecked({m}) on {p[3]} elements')
        else:
            c.I.bad('panic', s, f'split_at({m}) on {p[3]} elements')
    return out


@nat('re:core::slice::<impl \\[T\\]>::(first|last)(_mut)?')
def first_last(c):
    p = c.args[0]
    out = []
    for s, ok in c.I.split(c.st, cge(p[3] - 1)):
        out.append((s, some(c.I.elem_ptr(('ptr', p[1], p[2], None), ZERO if c.m.group(1) == 'first' else p[3] - 1)) if ok else none()))
    return out


@nat('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', "re:core::slice::iter::<impl core::iter::IntoIterator for &'a (?:mut )?\\[T\\]>::into_iter", "re:core::slice::Iter(?:Mut)?::<'a, T>::new")
def slice_iter(c):
    p = c.args[0]
    return [(c.st, agg(('ptr', p[1], p[2], None), p[3]))]


SIT = r"<core::slice::Iter(?:Mut)?<'(?:a|_), T> as "


@nat('re:' + SIT + r'core::iter::Iterator>::next', 're:' + SIT + r'core::iter::DoubleEndedIterator>::next_back')
def slice_next(c):
    back = c.fn['path'].endswith('next_back')
    I = c.I
    out = []
    for s, v in I.load(c.st, c.args[0]):
        p, n = v[2]
        for s2, ok in I.split(s, cge(n - 1)):
            if not ok:
                out.append((s2, none()))
                continue
            if back:
                nv, e = agg(p, n - 1), elem(p, n - 1)
            else:
                nv, e = agg(elem(p, ONE), n - 1), p
            for s3 in I.store(s2, c.args[0], nv):
                out.append((s3, some(e)))
    return out


def elem(p, k):
    last = p[2][-1]
    return ('ptr', p[1], p[2][:-1] + ((last[0], last[1] + k),), None)


@nat('re:' + SIT + r'core::iter::Iterator>::size_hint')
def slice_hint(c):
    out = []
    for s, v in c.I.load(c.st, c.args[0]):
        n = v[2][1]
        out.append((s, agg(n, some(n))))
    return out


@nat('re:' + SIT + r'core::iter::(?:\w+::)*ExactSizeIterator>::len', 're:' + SIT + r'core::iter::(?:\w+::)*TrustedRandomAccessNoCoerce>::size', 're:' + SIT + r'core::iter::Iterator>::count')
def slice_it_len(c):
    if c.fn['path'].endswith('count'):
        return [(c.st, c.args[0][2][1])]
    return [(s, v[2][1]) for s, v in c.I.load(c.st, c.args[0])]


@nat('re:' + SIT + r'core::iter::Iterator>::__iterator_get_unchecked')
def slice_get_unchecked(c):
    out = []
    for s, v in c.I.load(c.st, c.args[0]):
        p, n = v[2]
        for s2, ok in c.I.split(s, cand(cge(c.args[1]), cge(n - c.args[1] - 1))):
            if ok:
                out.append((s2, elem(p, c.args[1])))
            else:
                c.I.bad('bounds', s2, 'an iterator over a slice is read past its end')
    return out


@nat("re:core::slice::Iter(?:Mut)?::<'a, T>::(as_slice|into_slice|as_mut_slice)")
def slice_it_slice(c):
    v = c.args[0]
    if isinstance(v, tuple) and v[0] == 'ptr':
        return [(s, I_slice(x)) for s, x in c.I.load(c.st, v)]
    return [(c.st, I_slice(v))]


def I_slice(v):
    p, n = v[2]
    return ('ptr', p[1], p[2], n)


# --- arrays --------------------------------------------------------------------------------------------------------

@nat('core::array::iter::<impl core::iter::IntoIterator for [T; N]>::into_iter')
def array_into_iter(c):
    sq = c.args[0]
    return [(c.st, agg(sq, ZERO, sq[1]))]


@nat('re:<core::array::IntoIter<T, N> as core::iter::Iterator>::next', 're:<core::array::IntoIter<T, N> as core::iter::DoubleEndedIterator>::next_back')
def array_next(c):
    out = []
    back = c.fn['path'].endswith('back')
    I = c.I
    for s, v in I.load(c.st, c.args[0]):
        sq, a, b = v[2]
        for s2, ok in I.split(s, cge(b - a - 1)):
            if not ok:
                out.append((s2, none()))
                continue
            i, nv = (b - 1, agg(sq, a, b - 1)) if back else (a, agg(sq, a + 1, b))
            for s3, x in I.seq_read(s2, sq, i):
                for s4 in I.store(s3, c.args[0], nv):
                    out.append((s4, some(x)))
    return out


@nat('core::array::<impl [T; N]>::as_slice', 'core::array::<impl [T; N]>::as_mut_slice')
def array_as_slice(c):
    from interp import tcon
    t = c.I.T[c.I.T.strip(c.I.T.pointee(c.argtys[0]))]
    p = c.args[0]
    return [(c.st, ('ptr', p[1], p[2] + (('i', ZERO),), tcon(t['len'])))]


# --- heap ------------------------------------------------------------------------------------------------------------

@nat('alloc::boxed::Box::<T>::new')
def box_new(c):
    r = c.I.new_region(c.st, c.args[0], 'heap')
    c.st.event('alloc', r)
    return [(c.st, ptr(r))]


@nat('alloc::boxed::Box::<T>::from_raw', 'alloc::boxed::Box::<T>::into_raw', 'alloc::boxed::Box::<T, A>::into_raw', 'alloc::boxed::Box::<T, A>::leak', 'alloc::boxed::Box::<T>::into_non_null', 'alloc::boxed::Box::<T>::from_non_null',
     'alloc::boxed::Box::<T, A>::as_mut_ptr', 'alloc::boxed::Box::<T, A>::as_ptr')
def box_ident(c):
    p = c.args[0]
    if c.fn['path'].endswith('as_mut_ptr') or c.fn['path'].endswith('as_ptr'):
        return c.I.load(c.st, p)
    return [(c.st, p)]


@nat('alloc::boxed::Box::<T, A>::into_inner')
def box_into_inner(c):
    out = []
    for s, v in c.I.load(c.st, c.args[0]):
        for s2 in c.I.natives.free(c.I, s, c.args[0], c.I.T, c.targ()):
            out.append((s2, v))
    return out


@nat('alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T>::with_capacity', '<alloc::vec::Vec<T> as core::default::Default>::default')
def vec_new(c):
    cap = atom(c.I.fresh('cap'))
    r = c.I.new_region(c.st, seq(cap, 'undef'), 'heap')
    c.st.event('alloc', r)
    return [(c.st, agg(('ptr', r, (('i', ZERO),), None), ZERO))]


@nat('alloc::vec::Vec::<T, A>::push')
def vec_push(c):
    out = []
    I = c.I
    for s, v in I.load(c.st, c.args[0]):
        p, n = v[2]
        for s2 in I.store(s, elem(p, n), c.args[1]):
            for s3 in I.store(s2, c.args[0], agg(p, n + 1)):
                out.append((s3, UNIT))
    return out


@nat('<alloc::vec::Vec<T, A> as core::iter::IntoIterator>::into_iter')
def vec_into_iter(c):
    p, n = c.args[0][2]
    return [(c.st, agg(p, ZERO, n))]


@nat('re:<alloc::vec::IntoIter<T, A> as core::iter::Iterator>::next', 're:<alloc::vec::IntoIter<T, A> as core::iter::DoubleEndedIterator>::next_back')
def vec_next(c):
    out = []
    back = c.fn['path'].endswith('back')
    I = c.I
    for s, v in I.load(c.st, c.args[0]):
        p, a, b = v[2]
        for s2, ok in I.split(s, cge(b - a - 1)):
            if not ok:
                out.append((s2, none()))
                continue
            i, nv = (b - 1, agg(p, a, b - 1)) if back else (a, agg(p, a + 1, b))
            for s3, x in I.load(s2, elem(p, i)):
                for s4 in I.store(s3, c.args[0], nv):
                    out.append((s4, some(x)))
    return out


@nat('<alloc::vec::IntoIter<T, A> as core::iter::ExactSizeIterator>::len', '<alloc::vec::IntoIter<T, A> as core::iter::Iterator>::size_hint')
def vec_iter_len(c):
    out = []
    for s, v in c.I.load(c.st, c.args[0]):
        n = v[2][2] - v[2][1]
        out.append((s, n if c.fn['path'].endswith('len') else agg(n, some(n))))
    return out


@nat('re:alloc::vec::IntoIter::<T, A>::(as_slice|as_mut_slice)')
def vec_iter_slice(c):
    out = []
    for s, v in c.I.load(c.st, c.args[0]):
        p = elem(v[2][0], v[2][1])
        out.append((s, ('ptr', p[1], p[2], v[2][2] - v[2][1])))
    return out


@nat('alloc::vec::Vec::<T, A>::len', 'alloc::vec::Vec::<T, A>::is_empty')
def vec_len(c):
    e = c.fn['path'].endswith('is_empty')
    return [(s, ceq(v[2][1]) if e else v[2][1]) for s, v in c.I.load(c.st, c.args[0])]


@nat('re:alloc::vec::Vec::<T, A>::(as_ptr|as_mut_ptr)', 're:alloc::vec::Vec::<T, A>::(as_slice|as_mut_slice)', 're:<alloc::vec::Vec<T, A> as core::ops::(Deref|DerefMut)>::(?:deref|deref_mut)')
def vec_slice(c):
    out = []
    for s, v in c.I.load(c.st, c.args[0]):
        p, n = v[2]
        out.append((s, ('ptr', p[1], p[2], None if c.m.group(1) in ('as_ptr', 'as_mut_ptr') else n)))
    return out


@nat('alloc::vec::Vec::<T, A>::set_len')
def vec_set_len(c):
    out = []
    for s, v in c.I.load(c.st, c.args[0]):
        for s2 in c.I.store(s, c.args[0], agg(v[2][0], c.args[1])):
            out.append((s2, UNIT))
    return out


@nat('alloc::vec::Vec::<T, A>::reserve', 'alloc::vec::Vec::<T, A>::reserve_exact', 'alloc::vec::Vec::<T, A>::shrink_to_fit')
def vec_nothing(c):
    return [(c.st, UNIT)]


def sized(I, st, p, n):
    """The allocation now has exactly n elements."""
    v = st.mem[p[1]]
    st.mem[p[1]] = ('seq', n, v[2], v[3])
    return ('ptr', p[1], p[2], n)


@nat('alloc::vec::Vec::<T, A>::into_boxed_slice', 'alloc::vec::Vec::<T, A>::leak')
def vec_into_box(c):
    p, n = c.args[0][2]
    return [(c.st, sized(c.I, c.st, p, n))]


@nat('alloc::slice::<impl [T]>::into_vec')
def box_into_vec(c):
    p = c.args[0]
    return [(c.st, agg(('ptr', p[1], p[2], None), p[3]))]


@nat('alloc::vec::Vec::<T>::from_raw_parts')
def vec_from_raw(c):
    p = c.args[0]
    return [(c.st, agg(c.I.fat(p, None), c.args[1]))]


# --- atomics -----------------------------------------------------------------------------------------------------------

ORD = ['Relaxed', 'Release', 'Acquire', 'AcqRel', 'SeqCst']


def order(v):
    if isinstance(v, tuple) and v[0] == 'agg':
        return ORD[v[1]]
    raise Unsupported('memory ordering ' + vstr(v))


AT = r'core::sync::atomic::Atomic::<([iu](?:8|16|32|64|size)|bool|T|\*mut T)>::'


@nat('re:' + AT + r'(new|into_inner|as_ptr|get_mut)', 're:<core::sync::atomic::Atomic<\\w+> as core::convert::From<\\w+>>::(from)', )
def at_new(c):
    return [(c.st, c.args[0])]


@nat('re:<core::sync::atomic::Atomic<(\\w+)> as core::default::Default>::default')
def at_default(c):
    return [(c.st, False if c.m.group(1) == 'bool' else ZERO)]


@nat('re:' + AT + r'load', 'core::sync::atomic::atomic_load')
def at_load(c):
    o = order(c.args[1])
    if c.I.hooks:
        r = c.I.hooks.at_load(c.I, c.st, c.args[0], o)
        if r is not None:
            return r
    return c.I.load(c.st, c.args[0], plain=False)


@nat('re:' + AT + r'store', 'core::sync::atomic::atomic_store')
def at_store(c):
    o = order(c.args[2])
    if c.I.hooks:
        r = c.I.hooks.at_store(c.I, c.st, c.args[0], c.args[1], o)
        if r is not None:
            return [(s, UNIT) for s in r]
    return [(s, UNIT) for s in c.I.store(c.st, c.args[0], c.args[1], plain=False)]


def rmw(c, f, o):
    """[(state, old value)]; f(state, old) -> [(state, new)]"""
    I = c.I
    if I.hooks:
        r = I.hooks.at_rmw(I, c.st, c.args[0], f, o)
        if r is not None:
            return r
    out = []
    for s, old in I.load(c.st, c.args[0], plain=False):
        for s2, new in f(s, old):
            for s3 in I.store(s2, c.args[0], new, plain=False):
                out.append((s3, old))
    return out


@nat('re:' + AT + r'(swap|fetch_add|fetch_sub|fetch_or|fetch_and|fetch_xor|fetch_nand|fetch_not|fetch_max|fetch_min)')
def at_rmw(c):
    ty, op = c.m.groups()
    I = c.I
    v = c.args[1] if len(c.args) == 3 else None
    o = order(c.args[-1])

    def f(s, old):
        if op == 'swap':
            return [(s, v)]
        if op in ('fetch_or', 'fetch_and', 'fetch_xor'):
            k = {'fetch_or': 'BitOr', 'fetch_and': 'BitAnd', 'fetch_xor': 'BitXor'}[op]
            if is_cond(old):
                return [(s, cor(old, v) if op == 'fetch_or' else cand(old, v) if op == 'fetch_and' else cor(cand(old, cnot(v)), cand(cnot(old), v)))]
            return I.bitop(s, k, old, v)
        if op == 'fetch_not':
            return [(s, cnot(old))]
        if op in ('fetch_add', 'fetch_sub') and isinstance(old, Lin) and isinstance(v, Lin):
            r = old + v if op == 'fetch_add' else old - v
            lo, hi = rng(ty)
            out = []
            for s2, ok in I.split(s, inrange(r, ty)):
                if ok:
                    out.append((s2, r))
                else:
                    out.append((s2, r - hi - 1 if op == 'fetch_add' else r + hi + 1))
            return out
        if op in ('fetch_add', 'fetch_sub'):
            return I.bitop(s, 'Add' if op == 'fetch_add' else 'Sub', old, v)
        raise Unsupported(op, I.line)
    return rmw(c, f, o)


@nat('re:' + AT + r'(compare_exchange|compare_exchange_weak|compare_and_swap)', 're:core::sync::atomic::atomic_compare_exchange(_weak)?')
def at_cas(c):
    I = c.I
    o, of = order(c.args[3]), order(c.args[4]) if len(c.args) > 4 else 'Relaxed'
    out = []
    want, new = c.args[1], c.args[2]
    if I.hooks:
        r = I.hooks.at_cas(I, c.st, c.args[0], want, new, o, of, c.fn['path'].endswith('_weak'))
        if r is not None:
            return [(s, okv(v) if ok else errv(v)) for s, v, ok in r]
    for s, old in I.load(c.st, c.args[0], plain=False):
        for s2, eq in I.split(s, I.binop(s, 'Eq', old, want, None)[0][1]):
            if eq:
                for s3 in I.store(s2, c.args[0], new, plain=False):
                    out.append((s3, okv(old)))
            else:
                out.append((s2, errv(old)))
    return out


@nat('core::sync::atomic::fence')
def fence(c):
    o = order(c.args[0])
    if c.I.hooks:
        c.I.hooks.fence(c.I, c.st, o)
    return [(c.st, UNIT)]


@nat('core::sync::atomic::compiler_fence', 'core::hint::spin_loop', 'core::hint::black_box', 'core::intrinsics::cold_path', 'core::intrinsics::assert_inhabited')
def nothing(c):
    return [(c.st, c.args[0] if c.fn['path'].endswith('black_box') else UNIT)]


@nat('core::hint::likely', 'core::hint::unlikely', 'core::intrinsics::likely', 'core::intrinsics::unlikely')
def likely(c):
    return [(c.st, c.args[0])]


@nat('core::hint::assert_unchecked', 'core::intrinsics::assume')
def assume(c):
    out = []
    for s, r in c.I.split(c.st, c.args[0]):
        if r:
            out.append((s, UNIT))
        else:
            c.I.bad('ub', s, 'an assumption stated in the code does not hold')
    return out


@nat('roots::mark_')
def mark_(c):
    out = []
    for s, v in c.I.load(c.st, c.args[0]):
        s.x['mark'] = v
        out.append((s, UNIT))
    return out


def widened(I, st, old, new):
    """The value with anything for the numbers and booleans which differ."""
    if isinstance(new, Lin):
        if isinstance(old, Lin) and not entails_eq(st.cs, new - old):
            return I.nat(st, 'changed', 1 << 62) if not new.is_const() or new.c >= 0 else new
        return new
    if is_cond(new):
        if old == new:
            return new
        a = I.nat(st, 'changed', 1)
        return ('ge', a - 1)
    if isinstance(new, tuple) and isinstance(old, tuple) and new[:1] == old[:1] == ('agg',) and new[1] == old[1] and len(new[2]) == len(old[2]):
        return ('agg', new[1], tuple(widened(I, st, x, y) for x, y in zip(old[2], new[2])))
    return new


@nat('roots::widen_')
def widen_(c):
    out = []
    for s, v in c.I.load(c.st, c.args[0]):
        s.x['cut'] = len(s.ev)
        w = widened(c.I, s, s.x['mark'], v)
        s.x['fut'] = w
        if w is v or w == v:
            out.append((s, UNIT))
        else:
            out += [(x, UNIT) for x in c.I.store(s, c.args[0], w)]
    return out


@nat('core::intrinsics::raw_eq')
def raw_eq(c):
    # two values of a type whose equality is that of its bytes
    from interp import tcon
    I = c.I
    ty = I.T[c.targ()]
    n = tcon(ty['len']) if ty['k'] == 'array' else None
    if n is not None and not (n.is_const() and n.c <= 16):
        raise Unsupported('comparison of long arrays', I.line)
    steps = [None] if n is None else [('i', const(i)) for i in range(int(n.c))]
    outs = [(c.st, True)]
    for x in steps:
        nxt = []
        for s, acc in outs:
            a, b = (p if x is None else ('ptr', p[1], p[2] + (x,), None) for p in c.args)
            for s1, u in I.load(s, a):
                for s2, v in I.load(s1, b):
                    nxt.append((s2, cand(acc, I.compare(s2, 'Eq', u, v, None))))
        outs = nxt
    return outs


@nat('core::hint::unreachable_unchecked')
def unreachable(c):
    c.I.bad('ub', c.st, 'code which is declared unreachable is reached')
    return []


@nat('core::intrinsics::ub_checks', 'core::ub_checks::check_language_ub')
def ub_checks(c):
    return [(c.st, False)]


# --- cells which only wrap ----------------------------------------------------------------------------------------------

@nat('crossbeam_utils::cache_padded::CachePadded::<T>::new', 'crossbeam_utils::cache_padded::CachePadded::<T>::into_inner',
     '<crossbeam_utils::cache_padded::CachePadded<T> as core::ops::Deref>::deref', '<crossbeam_utils::cache_padded::CachePadded<T> as core::ops::DerefMut>::deref_mut',
     '<crossbeam_utils::cache_padded::CachePadded<T> as core::convert::From<T>>::from',
     'core::cell::Cell::<T>::new', 'core::cell::Cell::<T>::into_inner', 'core::cell::Cell::<T>::as_ptr', 'core::cell::Cell::<T>::get_mut')
def wrap(c):
    return [(c.st, c.args[0])]


@nat('core::cell::Cell::<T>::get')
def cell_get(c):
    return c.I.load(c.st, c.args[0])


@nat('core::cell::Cell::<T>::set')
def cell_set(c):
    return [(s, UNIT) for s in c.I.store(c.st, c.args[0], c.args[1])]


@nat('core::cell::Cell::<T>::replace')
def cell_replace(c):
    return mem_replace(c)


# --- tasks ---------------------------------------------------------------------------------------------------------------

@nat("core::task::Context::<'a>::waker")
def ctx_waker(c):
    out = []
    for s, v in c.I.load(c.st, c.args[0]):
        out.append((s, v[2][0]))
    return out


@nat('<core::task::Waker as core::clone::Clone>::clone')
def waker_clone(c):
    out = []
    for s, v in c.I.load(c.st, c.args[0]):
        s.event('wclone', v)
        out.append((s, v))
    return out


@nat('<core::task::Waker as core::clone::Clone>::clone_from')
def waker_clone_from(c):
    out = []
    for s, v in c.I.load(c.st, c.args[1]):
        s.event('wclone', v)
        for s2, old in c.I.load(s, c.args[0]):
            s2.event('wdrop', old)
            for s3 in c.I.store(s2, c.args[0], v):
                out.append((s3, UNIT))
    return out


@nat('core::task::Waker::wake_by_ref')
def wake_by_ref(c):
    out = []
    for s, v in c.I.load(c.st, c.args[0]):
        s.event('wake', v, c.I.where())
        out.append((s, UNIT))
    return out


@nat('core::task::Waker::wake')
def wake(c):
    c.st.event('wake', c.args[0], c.I.where())
    c.st.event('wdrop', c.args[0])
    return [(c.st, UNIT)]


@nat('core::task::Waker::will_wake')
def will_wake(c):
    out = []
    for s, a in c.I.load(c.st, c.args[0]):
        for s2, b in c.I.load(s, c.args[1]):
            out.append((s2, True if a == b else ('ge', atom(('bool', 'will_wake', a, b)) - 1)))
    return out


@nat('core::task::Waker::noop')
def waker_noop(c):
    return [(c.st, ptr(c.I.new_region(c.st, ('op', 'waker', 'noop'), 'waker')))]


# --- formatting (only in messages of panics) --------------------------------------------------------------------------------

@nat('re:core::fmt::(?:rt::)?Arguments::<.*>::\\w+', 're:core::fmt::rt::Argument::<.*>::\\w+', 're:core::fmt::rt::\\w+', 're:core::fmt::(?:rt::)?<impl core::fmt::Arguments<.*>>::\\w+', 're:core::fmt::rt::.*')
def fmt(c):
    return [(c.st, ('op', 'fmt'))]


@nat('re:core::panicking::\\w+', 're:core::option::(unwrap_failed|expect_failed)', 're:core::result::unwrap_failed', 're:core::slice::index::slice_\\w+_fail', 're:alloc::alloc::handle_alloc_error', 're:core::slice::copy_from_slice_impl::len_mismatch_fail',
     're:std::process::abort', 're:core::intrinsics::abort', 're:core::panicking::panic_fmt')
def panic(c):
    c.I.bad('panic', c.st, f"panics ({c.fn['path'].rsplit('::', 1)[-1]})")
    return []


# --- foreign functions ------------------------------------------------------------------------------------------------------

MAP_FAILED = const(UMAX)


def lib(name):
    def d(f):
        REGEX.append((re.compile(r'libc::(?:\w+::)*' + name + r'\Z'), f))
        return f
    return d


@lib('sysconf')
def sysconf(c):
    a = atom('page')
    if not c.st.x.get('page'):
        c.st.x['page'] = True
        for l in (a - 1, const(1 << 30) - a):
            c.I.add(c.st, l)
    c.st.event('sys', 'sysconf', c.args)
    return [(c.st, a)]


@lib('memfd_create')
def memfd(c):
    fd = atom(c.I.fresh('fd'))
    c.st.cs = c.st.cs + (fd + 1, const((1 << 31) - 1) - fd)
    c.st.event('sys', 'memfd_create', c.args, fd)
    return [(c.st, fd)]


@lib('ftruncate')
def ftruncate(c):
    r = atom(c.I.fresh('r'))
    c.st.cs = c.st.cs + (r + 1, -r)
    c.st.event('sys', 'ftruncate', c.args, r)
    return [(c.st, r)]


@lib('close')
def close(c):
    r = atom(c.I.fresh('r'))
    c.st.cs = c.st.cs + (r + 1, -r)
    c.st.event('sys', 'close', c.args, r)
    return [(c.st, r)]


@lib('getpid')
def getpid(c):
    return [(c.st, c.I.nat(c.st, 'pid', (1 << 31) - 1))]


@lib('mmap')
def mmap(c):
    """A mapping at an address of the system's choice, or MAP_FIXED over a part of an existing one."""
    I, st = c.I, c.st
    addr, length, prot, flags, fd, off = c.args
    f = flags.c if isinstance(flags, Lin) and flags.is_const() else None
    fail = st.copy()
    fail.event('sys', 'mmap', c.args, MAP_FAILED)
    out = [(fail, MAP_FAILED)]
    if f is not None and f & 0x10:      # MAP_FIXED
        st.event('sys', 'mmap', c.args, addr)
        for s in map_view(I, st, addr, length, prot, f, fd, off):
            out.append((s, addr))
        return out
    r = I.new_region(st, seq(atom(I.fresh('bytes')), 'undef'), 'mapping')
    st.x['maps'] = st.x.get('maps', ()) + ((r, length, prot, f, fd, off, ()),)
    p = ptr(r, (('i', ZERO),))
    st.event('sys', 'mmap', c.args, p)
    return out + [(st, p)]


def byte_off(p):
    """Offset in bytes of a pointer into a mapping."""
    e = p[2][-1]
    if len(p[2]) == 1 and e[0] == 'i':
        return mul(e[1], atom('sizeT'))
    if len(p[2]) == 2 and p[2][0] == ('i', ZERO) and e[0] == 'b':
        return e[1]
    return None


def map_view(I, st, addr, length, prot, flags, fd, off):
    if not (isinstance(addr, tuple) and addr[0] == 'ptr'):
        I.bad('map', st, 'a view is mapped at an address which was not reserved')
        return []
    pos = byte_off(addr)
    maps = st.x.get('maps', ())
    for n, m in enumerate(maps):
        if m[0] == addr[1]:
            if pos is None or not entails(st.cs, m[1] - pos - length) or not entails(st.cs, pos):
                I.bad('map', st, 'a view is mapped beyond the range of addresses reserved for it')
            v = m[6] + ((pos, length, prot, flags, fd, off),)
            st.x['maps'] = maps[:n] + (m[:6] + (v,),) + maps[n + 1:]
            # two views of one object, one after the other: the storage is mirrored
            if len(v) == 2:
                a, b = sorted(v, key=lambda x: x[0] != ZERO)
                if a[0] == ZERO and b[0] is not None and entails_eq(st.cs, b[0] - a[1]) and entails_eq(st.cs, a[1] - b[1]) and a[4] == b[4] and isinstance(a[4], Lin) and a[4].t and entails_eq(st.cs, a[5] - b[5]) and a[3] is not None and a[3] & 1 and b[3] & 1 and not a[3] & 0x20:
                    q = exact_div(a[1], atom('sizeT'))
                    if q is not None:
                        st.mem[m[0]] = seq(q, ('undef', 'mirror'))
                        st.x['mirror'] = st.x.get('mirror', ()) + (m[0],)
            return [st]
    I.bad('map', st, 'a view is mapped at an address which was not reserved')
    return []


@lib('munmap')
def munmap(c):
    I, st = c.I, c.st
    p, n = c.args
    r = atom(I.fresh('r'))
    st.cs = st.cs + (r + 1, -r)
    st.event('sys', 'munmap', c.args, r, I.where())
    if isinstance(p, tuple) and p[0] == 'ptr':
        at = byte_off(p)
        for e in st.ev:
            if e[0] == 'unmap' and e[1][1] == p[1]:
                o = byte_off(e[1])
                if at is None or o is None or not (entails(st.cs, at - o - e[2]) or entails(st.cs, o - at - n)):
                    I.bad('double-free', st, 'memory is unmapped twice')
                    return []
        st.event('unmap', p, n, I.where())
        st.freed = st.freed | {p[1]}
    return [(st, r)]


@nat('core::ffi::c_str::<impl core::ffi::CStr>::as_ptr', 'core::ffi::CStr::as_ptr', 'core::ffi::c_str::CStr::as_ptr')
def cstr(c):
    return [(c.st, ('op', 'cstr'))]


@nat('core::bool::<impl bool>::then_some')
def then_some(c):
    return [(s, some(c.args[1]) if r else none()) for s, r in c.I.split(c.st, c.args[0])]


@nat('<core::marker::PhantomData<T> as core::default::Default>::default')
def phantom(c):
    return [(c.st, UNIT)]


@nat('<core::pin::Pin<Ptr> as core::ops::DerefMut>::deref_mut', '<core::pin::Pin<Ptr> as core::ops::Deref>::deref', 're:core::pin::Pin::<&.*T>::(get_mut|get_unchecked_mut|get_ref)', 're:core::pin::Pin::<Ptr>::(new|new_unchecked|into_inner|as_mut|as_ref)')
def pin(c):
    p = c.args[0]
    if c.fn['path'].endswith(('deref_mut', 'deref', 'as_mut', 'as_ref')):
        return c.I.load(c.st, p)
    return [(c.st, p)]

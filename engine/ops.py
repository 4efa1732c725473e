"""The public operations of the crate, and the probe source which names each of them for every kind of buffer.

A root is `roots::<wrapper>_<kind>_<variant>::<op>`; every entry is generic in the item type `T` and in the
length `N` of stack buffers.  Nothing of the probe is ever run."""

VARIANTS = {
    'CH': 'ConcurrentHeapRB<T>', 'LH': 'LocalHeapRB<T>',
    'CS': 'ConcurrentStackRB<T, N>', 'LS': 'LocalStackRB<T, N>',
}
KINDS = {'P': 'ProdIter', 'W': 'WorkIter', 'CW': 'ConsIter', 'CF': 'ConsIter'}

CONFIGS = {
    # name: (features of the probe, heap, stack, async, vmem)
    'async': dict(features=['alloc', 'async'], heap=True, stack=True, asy=True, vmem=False),
    'default': dict(features=['alloc'], heap=True, stack=True, asy=False, vmem=False),
    'vmem': dict(features=['alloc', 'vmem', 'async'], heap=True, stack=False, asy=True, vmem=True),
    'noalloc': dict(features=['async'], heap=False, stack=True, asy=True, vmem=False),
}


def ity(kind, var, lt="'_"):
    b = VARIANTS[var]
    if kind in ('P', 'W'):
        return f"{KINDS[kind]}<{lt}, {b}>"
    return f"ConsIter<{lt}, {b}, {'true' if kind == 'CW' else 'false'}>"


def aty(kind, var, lt="'_"):
    return 'Async' + ity(kind, var, lt)


class Op:
    """recv: 'ref' | 'mut' | 'own'; params: [(name, type)]; ret: type; bound: bound on T; body: expression."""

    def __init__(self, name, recv, params, ret, bound='', uns=False, call=None, base=None):
        self.name, self.recv, self.params, self.ret, self.bound, self.uns = name, recv, params, ret, bound, uns
        self.call = call or f"it.{name}({', '.join(p for p, _ in params)})"
        self.base = base or name


US = ('count', 'usize')
BASE = [
    Op('index', 'ref', [], 'usize'),
    Op('buf_len', 'ref', [], 'usize'),
    Op('available', 'mut', [], 'usize'),
    Op('wait_for', 'mut', [US], '()'),
    Op('advance', 'mut', [US], '()', uns=True),
    Op('is_prod_alive', 'ref', [], 'bool'),
    Op('is_work_alive', 'ref', [], 'bool'),
    Op('is_cons_alive', 'ref', [], 'bool'),
    Op('prod_index', 'ref', [], 'usize'),
    Op('work_index', 'ref', [], 'usize'),
    Op('cons_index', 'ref', [], 'usize'),
]
WORKABLE = [
    Op('get_workable', 'mut', [], "Option<&'x mut T>"),
    Op('get_workable_slice_exact', 'mut', [US], "Option<WS<'x, T>>"),
    Op('get_workable_slice_avail', 'mut', [], "Option<WS<'x, T>>"),
    Op('get_workable_slice_multiple_of', 'mut', [('rhs', 'usize')], "Option<WS<'x, T>>"),
]
PROD = [
    Op('push', 'mut', [('value', 'T')], 'Result<(), T>'),
    Op('push_init', 'mut', [('value', 'T')], 'Result<(), T>'),
    Op('push_slice', 'mut', [('slice', '&[T]')], 'Option<()>', bound='Copy'),
    Op('push_slice_init', 'mut', [('slice', '&[T]')], 'Option<()>', bound='Copy'),
    Op('push_slice_clone', 'mut', [('slice', '&[T]')], 'Option<()>', bound='Clone'),
    Op('push_slice_clone_init', 'mut', [('slice', '&[T]')], 'Option<()>', bound='Clone'),
    Op('get_next_item_mut', 'mut', [], "Option<&'x mut T>", uns=True),
    Op('get_next_item_mut_init', 'mut', [], "Option<*mut T>"),
    Op('get_next_slices_mut', 'mut', [US], "Option<WS<'x, T>>", uns=True),
]
CONS = [
    Op('reset_index', 'mut', [], '()'),
    Op('peek_ref', 'mut', [], "Option<&'x T>"),
    Op('peek_slice', 'mut', [US], "Option<NWS<'x, T>>"),
    Op('peek_available', 'mut', [], "Option<NWS<'x, T>>"),
    Op('pop', 'mut', [], 'Option<T>'),
    Op('pop_move', 'mut', [], 'Option<T>', uns=True),
    Op('copy_item', 'mut', [('dst', '&mut T')], 'Option<()>', bound='Copy'),
    Op('clone_item', 'mut', [('dst', '&mut T')], 'Option<()>', bound='Clone'),
    Op('copy_slice', 'mut', [('dst', '&mut [T]')], 'Option<()>', bound='Copy'),
    Op('clone_slice', 'mut', [('dst', '&mut [T]')], 'Option<()>', bound='Clone'),
]
WORK = [Op('reset_index', 'mut', [], '()')]
OWN = [
    Op('drop', 'own', [], '()', call='core::mem::drop(it)'),
]


def sync_ops(kind):
    ops = BASE + WORKABLE + OWN
    if kind == 'P':
        ops = ops + PROD
    elif kind == 'W':
        ops = ops + WORK
    else:
        ops = ops + CONS
    return ops


DETACHED = BASE + WORKABLE + OWN + [
    Op('set_index', 'mut', [('index', 'usize')], '()', uns=True),
    Op('reset_index', 'mut', [], '()'),
    Op('go_back', 'mut', [US], '()', uns=True),
    Op('sync_index', 'ref', [], '()'),
]
ASYNC_PLAIN = [o for o in BASE if o.name not in ('buf_len', 'wait_for')] + OWN
ADETACHED = [
    Op('sync_index', 'ref', [], '()'),
    Op('advance', 'mut', [US], '()', uns=True),
    Op('go_back', 'mut', [US], '()', uns=True),
] + OWN

FUTS_COMMON = ['get_workable', 'get_workable_slice_exact', 'get_workable_slice_avail', 'get_workable_slice_multiple_of']
FUTS = {
    'P': FUTS_COMMON + ['push', 'push_slice', 'push_slice_clone', 'get_next_item_mut', 'get_next_item_mut_init',
                        'get_next_slices_mut'],
    'W': FUTS_COMMON,
    'C': FUTS_COMMON + ['peek_ref', 'peek_slice', 'peek_available', 'pop', 'pop_move', 'copy_item', 'clone_item',
                        'copy_slice', 'clone_slice'],
}


def find(kind, name):
    for o in sync_ops(kind):
        if o.name == name:
            return o
    raise KeyError(name)


def fut_ops(kind):
    k = 'C' if kind[0] == 'C' else kind
    return [find(kind, n) for n in FUTS[k]]


def fut_out(op):
    if op.ret.startswith('Result<(), T>'):
        return 'Option<()>'
    return op.ret


HEAD = """//! Generated by engine/ops.py: the entry points of the analysis.
#![allow(non_snake_case)]
use core::future::Future;
use core::pin::Pin;
use core::task::{Context, Poll};
pub mod types {
    pub use core::future::Future;
    pub use core::pin::Pin;
    pub use core::task::{Context, Poll};
    #[cfg(feature = "alloc")]
    pub use alloc::{boxed::Box, vec::Vec};
    pub use mutringbuf::iterators::*;
    pub use mutringbuf::*;
    #[cfg(feature = "async")]
    pub use mutringbuf::iterators::async_iterators::*;
    #[cfg(feature = "vmem")]
    pub type WS<'a, T> = &'a mut [T];
    #[cfg(not(feature = "vmem"))]
    pub type WS<'a, T> = (&'a mut [T], &'a mut [T]);
    #[cfg(feature = "vmem")]
    pub type NWS<'a, T> = &'a [T];
    #[cfg(not(feature = "vmem"))]
    pub type NWS<'a, T> = (&'a [T], &'a [T]);
}
/// The analysis remembers what the value looks like.
#[inline(never)]
pub fn mark_<F>(_: &F) {}
/// The analysis forgets the parts of the value which changed since it was marked.
#[inline(never)]
pub fn widen_<F>(_: &mut F) {}
"""


def fn(name, gen, params, ret, body):
    return f"    pub fn {name}<{gen}>({', '.join(params)}) -> {ret} {{ unsafe {{ {body} }} }}\n"


def gens(bound, lts="'x, "):
    return f"{lts}T{': ' + bound if bound else ''}, const N: usize"


def emit_op(op, ty):
    r = {'ref': "&'x ", 'mut': "&'x mut ", 'own': ''}[op.recv]
    lts = "'x, " if op.recv != 'own' else ''
    params = [f"{'mut ' if False else ''}it: {r}{ty}"] + [f'{n}: {t}' for n, t in op.params]
    return fn(op.name, gens(op.bound, lts), params, op.ret, op.call)


def probe_source(cfg, inner=True):
    """The Rust source of roots.rs, and the list of roots: (path, dict). Without `inner`, only what users call: no slots, no page sizes."""
    c = CONFIGS[cfg]
    out = [HEAD]
    roots = {}

    def module(name, ops, **meta):
        out.append(f"pub mod {name} {{\n    use super::types::*;\n")
        for text, opname, m in ops:
            out.append(text)
            roots[f"roots::{name}::{opname}"] = dict(meta, op=opname, **m)
        out.append("}\n")

    variants = ([v for v in ('CH', 'LH') if c['heap']] + [v for v in ('CS', 'LS') if c['stack']])
    for v in variants:
        for k in KINDS:
            t = ity(k, v)
            ops = [(emit_op(o, t), o.name, {}) for o in sync_ops(k)]
            lt = "'b"
            ops.append((f"    pub fn detach<'b, T, const N: usize>(it: {ity(k, v, lt)}) -> Detached<{ity(k, v, lt)}> {{ it.detach() }}\n", 'detach', {}))
            module(f'sync_{k}_{v}', ops, wrap='sync', kind=k, var=v)
            d = f"Detached<{t}>"
            ops = [(emit_op(o, d), o.name, {}) for o in DETACHED]
            ops.append((f"    pub fn attach<'b, T, const N: usize>(it: Detached<{ity(k, v, lt)}>) -> {ity(k, v, lt)} {{ it.attach() }}\n", 'attach', {}))
            module(f'det_{k}_{v}', ops, wrap='det', kind=k, var=v)
            if not c['asy']:
                continue
            a = aty(k, v)
            al, sl = aty(k, v, lt), ity(k, v, lt)
            ops = [(emit_op(o, a), o.name, {}) for o in ASYNC_PLAIN]
            if k in ('W', 'CW', 'CF'):
                o = WORK[0]
                ops.append((emit_op(o, a), o.name, {}))
            ops.append((f"    pub fn detach<'b, T, const N: usize>(it: {al}) -> AsyncDetached<{al}, {VARIANTS[v]}> {{ it.detach() }}\n", 'detach', {}))
            ops.append((f"    pub fn into_sync<'b, T, const N: usize>(it: {al}) -> {sl} {{ it.into_sync() }}\n", 'into_sync', {}))
            ops.append((f"    pub fn from_sync<'b, T, const N: usize>(it: {sl}) -> {al} {{ <{al} as AsyncIterator>::from_sync(it) }}\n", 'from_sync', {}))
            for o in fut_ops(k):
                fo = fut_out(o)
                ps = [f"it: &'x mut {al}"] + [f"{n}: {t.replace('&', chr(38) + chr(39) + 'x ')}" for n, t in o.params]
                bound = o.bound
                g = f"'x, 'b, T{': ' + bound if bound else ''}, const N: usize"
                fut = f"impl Future<Output = Option<{fo[7:-1]}>>"
                ops.append((f"    pub fn new_{o.name}<{g}>({', '.join(ps)}) -> {fut} {{ unsafe {{ {o.call} }} }}\n", f'new_{o.name}', dict(sync=o.name)))
                ops.append((f"    pub fn poll_{o.name}<{g}>({', '.join(ps)}, cx: &mut Context<'_>) -> (Poll<{fo}>, {fut}) {{ let mut f = unsafe {{ {o.call} }}; let r = Pin::new(&mut f).poll(cx); (r, f) }}\n", f'poll_{o.name}', dict(sync=o.name)))
                ops.append((f"    pub fn repoll_{o.name}<{g}>({', '.join(ps)}, cx: &mut Context<'_>) -> (Poll<{fo}>, Option<Poll<{fo}>>, {fut}) {{ let mut f = unsafe {{ {o.call} }}; crate::roots::mark_(&f); let r = Pin::new(&mut f).poll(cx); let r2 = if r.is_pending() {{ crate::roots::widen_(&mut f);\n        Some(Pin::new(&mut f).poll(cx)) }} else {{ None }}; (r, r2, f) }}\n", f'repoll_{o.name}', dict(sync=o.name)))
                ops.append((f"    pub fn dropfut_{o.name}<{g}>({', '.join(ps)}) {{ let f = unsafe {{ {o.call} }}; core::mem::drop(f); }}\n", f'dropfut_{o.name}', dict(sync=o.name)))
            module(f'async_{k}_{v}', ops, wrap='async', kind=k, var=v)
            d = f"AsyncDetached<{a}, {VARIANTS[v]}>"
            ops = [(emit_op(o, d), o.name, {}) for o in ADETACHED]
            ops.append((f"    pub fn attach<'b, T, const N: usize>(it: AsyncDetached<{al}, {VARIANTS[v]}>) -> {al} {{ it.attach() }}\n", 'attach', {}))
            module(f'adet_{k}_{v}', ops, wrap='adet', kind=k, var=v)

        b = VARIANTS[v]
        heap = v[1] == 'H'
        conc = v[0] == 'C'
        ops = []

        def add(name, bound, params, ret, body, lts=''):
            ops.append((fn(name, gens(bound, lts), params, ret, body), name, {}))
        if heap:
            add('from', '', ['value: Vec<T>'], b, 'From::from(value)')
            add('new_zeroed', '', ['n: usize'], b, f'<{b}>::new_zeroed(n)')
            add('default', 'Default + Clone', ['n: usize'], b, f'<{b}>::default(n)')
            mv, ref = 'b: ' + b, 'b: ' + b
            L = "'b"
            lts = ''
            add('split', '', [mv], f"({ity('P', v, chr(39) + 'static')}, {ity('CF', v, chr(39) + 'static')})", 'b.split()')
            add('split_mut', '', [mv], f"({ity('P', v, chr(39) + 'static')}, {ity('W', v, chr(39) + 'static')}, {ity('CW', v, chr(39) + 'static')})", 'b.split_mut()')
            if conc and c['asy']:
                add('split_async', '', [mv], f"({aty('P', v, chr(39) + 'static')}, {aty('CF', v, chr(39) + 'static')})", 'b.split_async()')
                add('split_mut_async', '', [mv], f"({aty('P', v, chr(39) + 'static')}, {aty('W', v, chr(39) + 'static')}, {aty('CW', v, chr(39) + 'static')})", 'b.split_mut_async()')
        else:
            add('from', '', ['value: [T; N]'], b, 'From::from(value)')
            add('new_zeroed', '', [], b, f'<{b}>::new_zeroed()')
            add('default', 'Default + Copy', [], b, 'Default::default()')
            X = "'x"
            add('split', '', [f"b: &'x mut {b}"], f"({ity('P', v, X)}, {ity('CF', v, X)})", 'b.split()', "'x, ")
            add('split_mut', '', [f"b: &'x mut {b}"], f"({ity('P', v, X)}, {ity('W', v, X)}, {ity('CW', v, X)})", 'b.split_mut()', "'x, ")
            if conc and c['asy']:
                if c['heap']:
                    S = "'static"
                    add('split_async', '', ['b: ' + b], f"({aty('P', v, S)}, {aty('CF', v, S)})", 'b.split_async()')
                    add('split_mut_async', '', ['b: ' + b], f"({aty('P', v, S)}, {aty('W', v, S)}, {aty('CW', v, S)})", 'b.split_mut_async()')
                else:
                    add('split_async', '', [f"b: &'x mut {b}"], f"({aty('P', v, X)}, {aty('CF', v, X)})", 'b.split_async()', "'x, ")
                    add('split_mut_async', '', [f"b: &'x mut {b}"], f"({aty('P', v, X)}, {aty('W', v, X)}, {aty('CW', v, X)})", 'b.split_mut_async()', "'x, ")
        add('drop', '', ['b: ' + b], '()', 'core::mem::drop(b)')
        module(f'buf_{v}', ops, wrap='buf', var=v)

    if not inner:
        return ''.join(out), roots
    ops = []

    def add(name, bound, params, ret, body, lts=''):
        ops.append((fn(name, gens(bound, lts), params, ret, body), name, {}))
    add('check_zeroed', '', ['p: *const T'], 'bool', 'UnsafeSyncCell::check_zeroed(p)')
    add('drop', '', ['c: UnsafeSyncCell<T>'], '()', 'core::mem::drop(c)')
    add('take_inner', '', ["c: &'x UnsafeSyncCell<T>"], 'T', 'c.take_inner()', "'x, ")
    add('inner_duplicate', '', ["c: &'x UnsafeSyncCell<T>"], 'T', 'c.inner_duplicate()', "'x, ")
    add('inner_ref', '', ["c: &'x UnsafeSyncCell<T>"], "&'x T", 'c.inner_ref()', "'x, ")
    add('inner_ref_mut', '', ["c: &'x UnsafeSyncCell<T>"], "&'x mut T", 'c.inner_ref_mut()', "'x, ")
    add('as_mut_ptr', '', ["c: &'x UnsafeSyncCell<T>"], "*mut T", 'c.as_mut_ptr()', "'x, ")
    add('clone', 'Clone', ["c: &'x UnsafeSyncCell<T>"], "UnsafeSyncCell<T>", 'c.clone()', "'x, ")
    add('default', 'Default', [], "UnsafeSyncCell<T>", 'Default::default()')
    add('from', '', ['v: T'], "UnsafeSyncCell<T>", 'From::from(v)')
    module('cell', ops, wrap='cell')

    if c['vmem']:
        ops.clear()
        add('page_size', '', [], 'usize', 'vmem_helper::page_size()')
        add('get_page_size_mul', '', ['n: usize'], 'usize', 'vmem_helper::get_page_size_mul(n)')
        module('vm', ops, wrap='vm')
    return ''.join(out), roots


def marker_types(cfg):
    """(name, type, concurrent?) of everything which must not cross threads unless concurrent and sendable."""
    c = CONFIGS[cfg]
    r = []
    S = "'static"
    for v in VARIANTS:
        if v[1] == 'H' and not c['heap'] or v[1] == 'S' and not c['stack']:
            continue
        conc = v[0] == 'C'
        for k in KINDS:
            t = ity(k, v, S)
            r.append((f'sync_{k}_{v}', t, conc))
            r.append((f'det_{k}_{v}', f'Detached<{t}>', conc))
            if c['asy']:
                a = aty(k, v, S)
                r.append((f'async_{k}_{v}', a, conc))
                r.append((f'adet_{k}_{v}', f'AsyncDetached<{a}, {VARIANTS[v]}>', conc))
                r.append((f'fut_{k}_{v}', f"MRBFuture<{S}, {a}, (), (), true>", conc))
                if not conc:
                    # in an odd wrapper: the type parameter of the wrapper says nothing of the iterator
                    o = VARIANTS['C' + v[1]]
                    r.append((f'adetx_{k}_{v}', f'AsyncDetached<{a}, {o}>', conc))
    return r


MAXB = 'Sync + Copy + Clone + Default + Unpin + Eq + Ord + core::fmt::Debug + core::hash::Hash'


def marker_source(cfg):
    ts = marker_types(cfg)
    o = ["//! Generated by engine/ops.py: the argument types of these functions are put to the trait solver.\n#![allow(non_snake_case)]\n"]
    for m, b in (('any', "'static"), ('nosend', MAXB + " + 'static"), ('send', "Send + 'static"), ('all', MAXB + " + Send + 'static")):
        o.append(f"pub mod {m} {{\n    use crate::roots::types::*;\n")
        for n, t, _ in ts:
            o.append(f"    pub fn {n}<T: {b}, const N: usize>(_: {t}) {{}}\n")
        # controls
        o.append(f"    pub fn ctl_item<T: {b}, const N: usize>(_: T) {{}}\n")
        o.append(f"    pub fn ctl_ptr<T: {b}, const N: usize>(_: *mut T) {{}}\n")
        o.append(f"    pub fn ctl_int<T: {b}, const N: usize>(_: usize) {{}}\n")
        o.append("}\n")
    return ''.join(o)


if __name__ == '__main__':
    import sys
    s, r = probe_source(sys.argv[1])
    print(s)
    print('//', len(r), 'roots')

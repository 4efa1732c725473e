"""Programs which would break a property, written with safe code only: the compiler has to reject every one of them.

A witness is a pair of programs which differ in the violating step: the bad one must not compile, and its twin must (a twin
which does not compile says nothing of the property: the pair is then left out, and counted)."""
import json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import dump, ops

PRE = '''#![allow(warnings)]
use mutringbuf::*;
use mutringbuf::iterators::*;
%s
fn use_it<X>(_: X) {}
'''


def pairs(cfg):
    """(name, properties, what a violation means, bad program, twin)"""
    c = ops.CONFIGS[cfg]
    out = []

    def add(name, props, what, bad, twin):
        out.append((name, tuple(props.split()), what, bad, twin))
    splits = {'split': 2, 'split_mut': 3}
    asplits = {'split_async': 2, 'split_mut_async': 3}
    for kind in ('Concurrent', 'Local'):
        for sp in list(splits) + (list(asplits) if c['asy'] and kind == 'Concurrent' else []):
            n = (splits | asplits)[sp]
            if c['heap']:
                b = f'let b = {kind}HeapRB::<u32>::default(8);'
                add(f'{kind}HeapRB::{sp} twice', 'C03 C07 C18', 'a heap buffer can be split although its iterators exist',
                    f'fn main() {{ {b} let x = b.{sp}(); let y = b.{sp}(); use_it(x); use_it(y); }}',
                    f'fn main() {{ {b} let x = b.{sp}(); use_it(x); }}')
            if c['stack'] and not (sp in asplits and c['heap']):
                b = f'let mut b = {kind}StackRB::<u32, 8>::default();'
                add(f'{kind}StackRB::{sp} twice', 'C03 C04 C18', 'a stack buffer can be split again while its iterators exist',
                    f'fn main() {{ {b} let x = b.{sp}(); let y = b.{sp}(); use_it(x); use_it(y); }}',
                    f'fn main() {{ {b} let x = b.{sp}(); use_it(x); let y = b.{sp}(); use_it(y); }}')
                for k in range(n):
                    add(f'{kind}StackRB::{sp} outlived by iterator {k}', 'C03 C06 C07', 'an iterator can outlive the stack buffer it belongs to',
                        f'fn main() {{ let keep; {{ {b} keep = b.{sp}().{k}; }} use_it(keep); }}',
                        f'fn main() {{ {b} let keep; {{ keep = b.{sp}().{k}; }} use_it(keep); }}')
                add(f'{kind}StackRB::{sp} moved', 'C03 C06 C07', 'a stack buffer can be moved or dropped while its iterators exist',
                    f'fn main() {{ {b} let x = b.{sp}(); use_it(b); use_it(x); }}',
                    f'fn main() {{ {b} let x = b.{sp}(); use_it(x); use_it(b); }}')
    st = 'HeapRB::<u32>::default(8)' if c['heap'] else 'StackRB::<u32, 8>::default()'
    for kind in ('Concurrent', 'Local'):
        b = f'let mut b = {kind}{st}; let (mut p, mut w, mut c) = b.split_mut();'
        T = {'p': 'ProdIter', 'w': 'WorkIter', 'c': 'ConsIter'}
        for v, name in T.items():
            what = f'{name} of {kind} buffers'
            add(f'{what}: Clone', 'C02 C03 C07', 'an iterator can be cloned: two of them have the same slots',
                f'fn need<X: Clone>(_: X) {{}} fn main() {{ {b} need({v}); }}', f'fn need<X>(_: X) {{}} fn main() {{ {b} need({v}); }}')
            add(f'{what}: detach keeps it', 'C12 C03', 'an iterator can be used besides its detached form',
                f'fn main() {{ {b} let d = {v}.detach(); {v}.available(); use_it(d); }}',
                f'fn main() {{ {b} {v}.available(); let d = {v}.detach(); use_it(d); }}')
            add(f'{what}: attach keeps it', 'C12 C03', 'a detached iterator can be used after it was attached',
                f'fn main() {{ {b} let mut d = {v}.detach(); let a = d.attach(); d.available(); use_it(a); }}',
                f'fn main() {{ {b} let mut d = {v}.detach(); d.available(); let a = d.attach(); use_it(a); }}')
            add(f'{what}: detached Clone', 'C12 C03', 'a detached iterator can be cloned',
                f'fn need<X: Clone>(_: X) {{}} fn main() {{ {b} need({v}.detach()); }}', f'fn need<X>(_: X) {{}} fn main() {{ {b} need({v}.detach()); }}')
            add(f'{what}: advance', 'C03 C04', 'safe code can advance an iterator beyond what is available',
                f'fn main() {{ {b} {v}.advance(9); }}', f'fn main() {{ {b} unsafe {{ {v}.advance(9); }} }}')
            for op in ('advance(9)', 'go_back(3)', 'set_index(5)'):
                add(f'{what}: detached {op}', 'C03 C04 C12', 'safe code can place a detached iterator anywhere',
                    f'fn main() {{ {b} let mut d = {v}.detach(); d.{op}; }}', f'fn main() {{ {b} let mut d = {v}.detach(); unsafe {{ d.{op}; }} }}')
        for op in ('pop_move()',):
            add(f'ConsIter of {kind} buffers: {op}', 'C08 C09', 'safe code can move items out of slots which are then assigned to',
                f'fn main() {{ {b} c.{op}; }}', f'fn main() {{ {b} unsafe {{ c.{op}; }} }}')
        for op in ('get_next_item_mut()', 'get_next_slices_mut(1)'):
            add(f'ProdIter of {kind} buffers: {op}', 'C09', 'safe code is given a reference to a slot which may be empty',
                f'fn main() {{ {b} p.{op}; }}', f'fn main() {{ {b} unsafe {{ p.{op}; }} }}')
        z = f'{kind}HeapRB::<u32>::new_zeroed(8)' if c['heap'] else f'{kind}StackRB::<u32, 8>::new_zeroed()'
        add(f'{kind} buffers: new_zeroed', 'C09', 'safe code can make a buffer of empty slots',
            f'fn main() {{ {z}; }}', f'fn main() {{ unsafe {{ {z}; }} }}')
    if c['asy']:
        sp = 'split_mut_async'
        b = f'let mut b = Concurrent{st}; let (mut p, mut w, mut c) = b.{sp}();'
        AI = 'use mutringbuf::iterators::async_iterators::AsyncIterator;'
        futs = {'p': 'push(1)', 'w': 'get_workable()', 'c': 'pop()'}
        for v, name in {'p': 'AsyncProdIter', 'w': 'AsyncWorkIter', 'c': 'AsyncConsIter'}.items():
            add(f'{name}: Clone', 'C02 C03 C07', 'an iterator can be cloned: two of them have the same slots',
                f'fn need<X: Clone>(_: X) {{}} fn main() {{ {b} need({v}); }}', f'fn need<X>(_: X) {{}} fn main() {{ {b} need({v}); }}')
            add(f'{name}: two futures', 'C03 C14', 'two operations can be pending on one iterator at a time',
                f'fn main() {{ {b} let x = {v}.{futs[v]}; let y = {v}.{futs[v]}; use_it(x); use_it(y); }}',
                f'fn main() {{ {b} let x = {v}.{futs[v]}; use_it(x); let y = {v}.{futs[v]}; use_it(y); }}')
            add(f'{name}: future outlives it', 'C03 C07 C14', 'a future can be polled when its iterator is gone',
                f'fn main() {{ {b} let x = {v}.{futs[v]}; drop({v}); use_it(x); }}',
                f'fn main() {{ {b} let x = {v}.{futs[v]}; use_it(x); drop({v}); }}')
            add(f'{name}: into_sync keeps it', 'C03 C13', 'an iterator can be used besides its sync form',
                f'{AI} fn main() {{ {b} let s = {v}.into_sync(); {v}.available(); use_it(s); }}',
                f'{AI} fn main() {{ {b} {v}.available(); let s = {v}.into_sync(); use_it(s); }}')
            add(f'{name}: detach keeps it', 'C03 C12', 'an iterator can be used besides its detached form',
                f'{AI} fn main() {{ {b} let s = {v}.detach(); {v}.available(); use_it(s); }}',
                f'{AI} fn main() {{ {b} {v}.available(); let s = {v}.detach(); use_it(s); }}')
            add(f'{name}: advance', 'C03 C04', 'safe code can advance an iterator beyond what is available',
                f'{AI} fn main() {{ {b} {v}.advance(9); }}', f'{AI} fn main() {{ {b} unsafe {{ {v}.advance(9); }} }}')
            for op in ('advance(9)', 'go_back(3)'):
                add(f'{name}: detached {op}', 'C03 C04 C12', 'safe code can place a detached iterator anywhere',
                    f'{AI} fn main() {{ {b} let mut d = {v}.detach(); d.{op}; }}', f'{AI} fn main() {{ {b} let mut d = {v}.detach(); unsafe {{ d.{op}; }} }}')
        add('AsyncProdIter: slice of a pending push', 'C14', 'what a pending push is going to copy can be gone',
            f'fn main() {{ {b} let x; {{ let v = [1u32, 2]; x = p.push_slice(&v); }} use_it(x); }}',
            f'fn main() {{ {b} let x; let v = [1u32, 2]; {{ x = p.push_slice(&v); }} use_it(x); }}')
    return out


def run(prop, rep, cfgs):
    for cfg in cfgs:
        ps = [p for p in pairs(cfg) if prop in p[1]]
        if not ps:
            continue
        tmp = tempfile.mkdtemp(prefix=f'mrb_wit_{cfg}_')
        try:
            os.makedirs(os.path.join(tmp, 'src'))
            open(os.path.join(tmp, 'src', 'lib.rs'), 'w').write('pub use mutringbuf;\n')
            man = open(os.path.join(dump.VERIF, 'probe', 'Cargo.toml')).read().replace('../../repo', dump.REPO)
            open(os.path.join(tmp, 'Cargo.toml'), 'w').write(man)
            lock = os.path.join(dump.VERIF, 'probe', 'Cargo.lock')
            if os.path.exists(lock):
                shutil.copy(lock, tmp)
            e = dump.env_base()
            e['CARGO_TARGET_DIR'] = os.path.join(tmp, 'target')
            e['RUSTFLAGS'] = '--cap-lints=allow'
            p = subprocess.run(['cargo', 'check', '--offline', '--quiet', '--message-format=json', '--features', ','.join(ops.CONFIGS[cfg]['features'])],
                               cwd=tmp, env=e, capture_output=True, text=True)
            lib = None
            for line in p.stdout.splitlines():
                m = json.loads(line)
                if m.get('reason') == 'compiler-artifact' and m['target']['name'] == 'mutringbuf':
                    lib = [f for f in m['filenames'] if f.endswith('.rmeta')][0]
            if p.returncode or lib is None:
                raise dump.BuildError(f'the crate does not compile in configuration {cfg}:\n' + p.stderr[-3000:] + p.stdout[-3000:])
            deps = []
            for root, _, files in os.walk(os.path.join(tmp, 'target')):
                if any(f.endswith('.rmeta') for f in files):
                    deps += ['-L', 'dependency=' + root]

            def accepts(job):
                k, src = job
                f = os.path.join(tmp, f'w{k}.rs')
                open(f, 'w').write(PRE % '' + src)
                r = subprocess.run(['rustc', '--edition=2021', '--crate-type=bin', '--emit=metadata', '--extern', f'mutringbuf={lib}', *deps,
                                    '-o', os.path.join(tmp, f'w{k}.out'), f], cwd=tmp, env=dump.env_base(), capture_output=True, text=True)
                return r.returncode == 0, r.stderr
            with ThreadPoolExecutor(8) as ex:
                res = list(ex.map(accepts, enumerate(x for p in ps for x in (p[3], p[4]))))
            for (name, _, what, bad, twin), (a, err), (b, terr) in zip(ps, res[0::2], res[1::2]):
                if not b:
                    rep.notes.append(f'witness left out, its twin is not accepted: {name} ({cfg}): ' + (re.findall(r'error.*', terr) or ['?'])[0][:120])
                    rep.count(f'{cfg}: witnesses left out')
                    continue
                rep.ob('witness', not a, name, 'a program of safe code', f'{what} (configuration {cfg}); accepted by the compiler: {bad}')
                rep.count(f'{cfg}: witness programs')
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

"""C16: trait obligations, put to the compiler's own trait solver universally in the item type."""
import ops

LEVEL = 'other'
EXPLANATION = (
    'Every iterator type (plain, detached, async, async-detached, and the futures which borrow one) of every buffer kind is '
    'written down generically in the item type T and put to rustc\'s trait solver in four environments of T: nothing known, '
    'every bound but Send, Send, everything. An obligation is one (type, environment, marker): it must not be satisfiable when '
    'the buffer is local, or when T is not known to be Send.')
ASSUMPTIONS = ['safe code moves or shares values between threads only through the auto traits Send and Sync']
TRUSTED = ['rustc trait solver', 'rustc type checker', '/verif/engine/rules/c16.py']


def configs(tier):
    return ['async', 'default', 'vmem', 'noalloc']


FLOOR = {'async': 88, 'default': 32, 'vmem': 44, 'noalloc': 44}


def run(ctx, rep):
    ctx.prefetch(configs(ctx.tier))
    for cfg in configs(ctx.tier):
        d = ctx.dump(cfg)
        types = {n: (t, conc) for n, t, conc in ops.marker_types(cfg)}
        n = 0
        for path, res in d['markers'].items():
            _, env, name = path.split('::')
            r = res[0]
            if name in ('ctl_item', 'ctl_ptr', 'ctl_int'):
                want = {'ctl_item': env in ('send', 'all'), 'ctl_ptr': False, 'ctl_int': True}[name]
                rep.ob('control', r['Send'] == want and r['Send_must'] == want, f'{cfg}::{path}', '', 'the trait solver does not answer as expected for a control type')
                continue
            t, conc = types[name]
            where = ', '.join(r['impls']) or 'derived automatically'
            key = f'{t} [T: {env}]'
            if not conc:
                ok = not r['Send'] and not r['Sync']
                rep.ob('local-not-send', not r['Send'], key, where, f'{t} of a local buffer can be sent to another thread (configuration {cfg}, bounds of T: {env})')
                rep.ob('local-not-sync', not r['Sync'], key, where, f'{t} of a local buffer can be shared with another thread (configuration {cfg}, bounds of T: {env})')
            elif env in ('any', 'nosend'):
                ok = rep.ob('item-not-send', not r['Send'], key, where, f'{t} can be sent to another thread although T is not Send (configuration {cfg}, bounds of T: {env})')
            else:
                ok = True
            n += 1
            if ok and n % 37 == 0:
                rep.sample(f'{cfg}: {t}, T: {env}: Send={r["Send"]} Sync={r["Sync"]}')
            rep.count('type x environment')
            rep.count(f'types in configuration {cfg}', 1 if env == 'any' else 0)
        rep.floor(f'types in configuration {cfg}', FLOOR[cfg])
TECHNIQUE = 'trait obligations put to the compiler, universally in the item type (type-level analysis)'
NOTE = ('Decides the property for every item type T at once: the compiler\'s trait solver answers whether Send/Sync can hold in '
        'generic environments. Trusts rustc.')

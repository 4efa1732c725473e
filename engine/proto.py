"""The checks of the protocol properties: every entry point a property speaks of is interpreted from an arbitrary
consistent state, and the obligations which carry the property are counted (see spec.py)."""
import os, re, resource, signal, sys, time, traceback
from multiprocessing import Pool, TimeoutError
import dump, spec
from model import Model, ShapeError
from values import Unsupported

_ms = {}
_prop = None

HEAVY = ('push_slice_clone_init', 'clone_slice', 'push_slice_init', 'get_workable_slice_multiple_of', 'push_slice_clone', 'copy_slice',
         'get_workable_slice_exact', 'push_slice')


def weight(m, r):
    t = m.meta[r]
    b = t.get('sync') or t['op']
    w = len(HEAVY) - HEAVY.index(b) if b in HEAVY else 0
    return -(w * (3 if t['op'].startswith('repoll') else 1) * (2 if t.get('var', '')[:1] == 'C' else 1))


MEMORY = ('drop', 'attach', 'detach', 'into_sync', 'from_sync')


def differs(t, cfg):
    """What is compiled from other source without alloc: buffers, splits, and references to buffers."""
    return cfg != 'noalloc' or t['wrap'] == 'buf' or t['op'] in MEMORY


def relevant(m, prop, tier):
    out = []
    for r in m.roots:
        t = m.meta.get(r)
        if t is None or prop not in spec.claims(t, m.cfg) or tier == 'quick' and not differs(t, m.cfg):
            continue
        out.append(r)
    return out


ROOT_CPU = 240            # seconds for one entry point (the slowest takes some 10)
TOTAL = {'quick': 780, 'thorough': 6 * 3600}
AFTER = 200               # seconds that remain once something was found


class Budget(BaseException):
    pass


def out_of_time(*a):
    raise Budget(f'not analysed within {ROOT_CPU} s')


def prepare():
    signal.signal(signal.SIGVTALRM, out_of_time)
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


def one(job):
    cfg, root = job
    m, prop = _ms[cfg], _prop
    try:
        signal.setitimer(signal.ITIMER_VIRTUAL, ROOT_CPU)
        ex = spec.Exam(m, root)
        obs = ex.run()
        paths = getattr(ex, 'paths', 0)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if not paths:
            obs = list(obs) + [spec.Ob('undischarged', {prop}, False, f'{root}: outcomes', '', 'no outcome of this operation was found', ())]
    except (Exception, Budget) as e:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        tb = traceback.extract_tb(e.__traceback__)[-1]
        obs, paths = [spec.Ob('undischarged', {prop}, False, f'{root}: {type(e).__name__}', '', f'the analysis of this operation fails: {e} ({os.path.basename(tb.filename)}:{tb.lineno})', ())], 0
    good, bad = {}, []
    for o in obs:
        if prop in o.props:
            if o.ok:
                good[o.rule] = good.get(o.rule, 0) + 1
            else:
                bad.append((o.rule, o.key, o.where, o.msg, list(o.path)))
    return cfg, root, good, bad, paths


def cls(t):
    return {'sync': 'operations of plain iterators', 'det': 'operations of detached iterators', 'async': 'operations of async iterators and futures',
            'adet': 'operations of detached async iterators', 'buf': 'buffer operations', 'cell': 'slot operations', 'vm': 'page computations'}[t['wrap']]


def rel(w):
    return w.replace(dump.REPO + '/', '') if w else w


def run(prop, ctx, rep, configs):
    global _ms, _prop
    _prop = prop
    start, until = time.time(), None
    ctx.prefetch(configs)
    _ms = {cfg: Model(ctx.dump(cfg)) for cfg in configs}
    jobs = sorted(((cfg, r) for cfg, m in _ms.items() for r in relevant(m, prop, ctx.tier)), key=lambda j: weight(_ms[j[0]], j[1]))
    with Pool(min(8, os.cpu_count() or 1), prepare) as p:
        it = p.imap_unordered(one, jobs, 1)
        for k in range(len(jobs)):
            try:
                cfg, root, good, bad, paths = it.next(max(1, (until or start + TOTAL[ctx.tier]) - time.time()))
            except TimeoutError:
                if until is None:
                    rep.ob('undischarged', False, 'time', '', f'{len(jobs) - k} of {len(jobs)} operations were not analysed in time', ())
                else:
                    rep.notes.append(f'{len(jobs) - k} of {len(jobs)} operations were not analysed: a violation had been found before')
                break
            if bad and until is None:
                until = time.time() + AFTER
            t = _ms[cfg].meta[root]
            for r, n in good.items():
                o = rep.obligations.setdefault(r, [0, 0])
                o[0] += n
                o[1] += n
            for rule, key, where, msg, path in bad:
                rep.ob(rule, False, key, rel(where), f'{msg} (configuration {cfg})', path)
            rep.count(f'{cfg}: {cls(t)}')
            rep.count(f'{cfg}: outcomes of operations', paths)
            if not bad and good and len(rep.samples) < 12 and hash(root) % 40 == 0 or not rep.samples:
                rep.sample(f'{cfg}: {root[7:]}: {paths} outcomes, ' + ', '.join(f'{r} {n}' for r, n in sorted(good.items())))
    for cfg, m in _ms.items():
        rep.count(f'{cfg}: functions in the dump', len(m.d['fns']))

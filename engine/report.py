"""Obligations, verdicts and evidence of one check."""
import hashlib, json, os, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.obligations = {}       # rule -> [discharged, total]
        self.viol = {}              # key -> dict
        self.units = {}             # what was analysed: name -> count
        self.samples = []
        self.notes = []
        self.floors = []

    def ob(self, rule, ok, key=None, where='', msg='', path=None):
        """One obligation of a rule; when it fails, `key` names the construct (no line numbers in it)."""
        o = self.obligations.setdefault(rule, [0, 0])
        o[1] += 1
        if ok:
            o[0] += 1
            return True
        k = f'{rule}: {key}'
        if k not in self.viol:
            self.viol[k] = dict(rule=rule, construct=key, where=where, message=msg, path=path or [])
        return False

    def count(self, name, n=1):
        self.units[name] = self.units.get(name, 0) + n

    def floor(self, name, least):
        """Fail closed when fewer instances than were confirmed by hand have been looked at."""
        n = self.units.get(name, 0)
        o = self.obligations.setdefault('instance-floor', [0, 0])
        o[1] += 1
        if n < least:
            k = f'instance-floor: {name}'
            self.viol[k] = dict(rule='instance-floor', construct=name, where='',
                                message=f'only {n} instances of "{name}" were found, at least {least} are expected', path=[])
        else:
            o[0] += 1

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(p) as f:
            return json.load(f)
    except FileNotFoundError:
        return []


def finish(rep, tier, level, explanation, assumptions, trusted):
    """Prints the verdict, writes evidence and replay files; returns the exit status."""
    known = {k['key'] for k in known_findings() if k.get('property') == rep.prop and k.get('status') == 'known'}
    new = {k: v for k, v in rep.viol.items() if k not in known}
    old = {k: v for k, v in rep.viol.items() if k in known}
    tot = sum(o[1] for o in rep.obligations.values())
    dis = sum(o[0] for o in rep.obligations.values())
    ev = {
        'property': rep.prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
        'coverage': {
            'explanation': explanation,
            'obligations': tot, 'discharged': dis,
            'rules': {k: {'discharged': v[0], 'obligations': v[1]} for k, v in sorted(rep.obligations.items())},
            'analysed': dict(sorted(rep.units.items())),
            'samples': rep.samples,
            'trusted_base': trusted,
        },
        'assumptions': assumptions,
        'wall_s': round(time.time() - rep.t0, 2),
        'violations': len(new),
    }
    if rep.notes:
        ev['coverage']['notes'] = rep.notes
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', rep.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for k in old:
        print(f'KNOWN-FINDING: property={rep.prop} {k}')
    if not new:
        print(f'{rep.prop}: {dis}/{tot} obligations discharged; ' + ', '.join(f'{k}={v}' for k, v in sorted(rep.units.items())))
        return 0
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    for n, (k, v) in enumerate(sorted(new.items())):
        h = hashlib.sha1(k.encode()).hexdigest()[:10]
        p = os.path.join(d, f'{rep.prop}-{h}.txt')
        with open(p, 'w') as f:
            f.write(f'property:  {rep.prop}\nrule:      {v["rule"]}\nconstruct: {v["construct"]}\nwhere:     {v["where"]}\n\n{v["message"]}\n')
            for s in v['path']:
                f.write(f'    {s}\n')
        if n < 40:
            print(f'VIOLATION property={rep.prop} replay={p}')
            print(f'    {v["where"]}: [{v["rule"]}] {v["construct"]}: {v["message"]}')
    if len(new) > 40:
        print(f'    ... and {len(new) - 40} more')
    return 1

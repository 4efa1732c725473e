"""python3 engine/check.py <property> [--tier quick|thorough]"""
import importlib, os, sys, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import dump, report


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self._dumps = {}

    def prefetch(self, cfgs):
        """Builds the dumps side by side."""
        dump.driver()
        with ThreadPoolExecutor(4) as ex:
            for cfg, d in zip(cfgs, ex.map(dump.dump, cfgs)):
                self._dumps[cfg] = d

    def dump(self, cfg):
        if cfg not in self._dumps:
            self._dumps[cfg] = dump.dump(cfg)
        return self._dumps[cfg]


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    mod = importlib.import_module('rules.' + prop.lower())
    rep = report.Report(prop)
    try:
        mod.run(Ctx(prop, tier), rep)
    except dump.BuildError as e:
        print(e, file=sys.stderr)
        return 2
    return report.finish(rep, tier, mod.LEVEL, mod.EXPLANATION, mod.ASSUMPTIONS, mod.TRUSTED)


if __name__ == '__main__':
    sys.setrecursionlimit(100000)
    try:
        sys.exit(main(sys.argv[1:]))
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)

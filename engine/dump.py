"""Builds the driver, compiles the probe against /repo's current tree with it, and loads the dump."""
import json, os, re, shutil, subprocess, sys, tempfile, hashlib
import ops

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('MRB_REPO', '/repo')


class BuildError(Exception):
    pass


def env_base():
    e = dict(os.environ)
    e['RUSTUP_TOOLCHAIN'] = 'nightly'
    e['CARGO_NET_OFFLINE'] = 'true'
    for k in ('RUSTC', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_TARGET_DIR',
              'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    return e


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = subprocess.run(['rustc', '--print', 'sysroot'], env=env_base(), capture_output=True, text=True,
                                  check=True).stdout.strip()
    return _sysroot


def driver():
    """Path of the driver, built if it is not there yet or older than its source."""
    d = os.path.join(VERIF, 'driver')
    p = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=d, env=env_base(), capture_output=True, text=True)
    if p.returncode:
        raise BuildError('the driver does not build:\n' + p.stderr)
    return os.path.join(d, 'target', 'debug', 'mirdump')


def only_inner(err, src):
    """Are all the errors about the entry points of slots and page sizes?"""
    lines = [int(x) for x in re.findall(r'--> src/roots\.rs:(\d+):', err)]
    first = src[:src.index('pub mod cell {')].count('\n') + 1
    return bool(lines) and min(lines) >= first and not re.search(r'--> (?!src/roots\.rs)', err)


def dump(cfg, keep=None):
    """Compiles the probe for a configuration; returns the parsed dump (with `meta` of the roots)."""
    drv = driver()
    tmp = tempfile.mkdtemp(prefix=f'mrb_{cfg}_')
    try:
        shutil.copytree(os.path.join(VERIF, 'probe'), tmp, dirs_exist_ok=True, ignore=shutil.ignore_patterns('target'))
        at = os.path.join(tmp, 'src', 'roots.rs')
        src, roots = ops.probe_source(cfg)
        with open(at, 'w') as f:
            f.write(src)
        with open(os.path.join(tmp, 'src', 'markers.rs'), 'w') as f:
            f.write(ops.marker_source(cfg))
        man = os.path.join(tmp, 'Cargo.toml')
        t = open(man).read().replace('../../repo', REPO)
        open(man, 'w').write(t)
        out = os.path.join(tmp, 'dump.json')
        e = env_base()
        e['RUSTC_WRAPPER'] = drv
        e['RUSTFLAGS'] = '-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=off --cap-lints=allow'
        e['LD_LIBRARY_PATH'] = os.path.join(sysroot(), 'lib')
        e['MIRDUMP_OUT'] = out
        e['MIRDUMP_MODELS'] = os.path.join(HERE, 'models.txt')
        e['CARGO_TARGET_DIR'] = os.path.join(tmp, 'target')
        cmd = ['cargo', 'check', '--offline', '--quiet', '--features', ','.join(ops.CONFIGS[cfg]['features'])]
        p = subprocess.run(cmd, cwd=tmp, env=e, capture_output=True, text=True)
        if p.returncode and only_inner(p.stderr, src):
            # the slots' own methods or the page size helpers are not there under these names: users' operations only
            src, roots = ops.probe_source(cfg, False)
            with open(at, 'w') as f:
                f.write(src)
            p = subprocess.run(cmd, cwd=tmp, env=e, capture_output=True, text=True)
        if p.returncode or not os.path.exists(out):
            raise BuildError(f'the probe does not compile in configuration {cfg}:\n' + p.stderr[-6000:])
        with open(out) as f:
            d = json.load(f)
        if keep:
            shutil.copy(out, keep)
        d['meta'] = roots
        d['cfg'] = cfg
        return d
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    import time
    t = time.time()
    try:
        d = dump(sys.argv[1], keep=sys.argv[2] if len(sys.argv) > 2 else None)
    except BuildError as x:
        print(x)
        sys.exit(1)
    print(len(d['fns']), 'functions', len(d['types']), 'types', len(d['roots']), 'roots', round(time.time() - t, 1), 's')

"""Builds the compiler driver and extracts the program of /repo's working tree through it."""
import os, subprocess, tempfile, shutil, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('META_REPO', '/repo')
DRIVER = os.path.join(VERIF, 'driver')
BIN = os.path.join(DRIVER, 'target', 'debug', 'mirdump')
STD = ('core/src/iter/,core/src/option.rs,core/src/result.rs,core/src/ops/,core/src/cmp.rs,core/src/convert/,'
       'core/src/bool.rs,core/src/tuple.rs')


class BuildError(Exception):
    pass


def sysroot():
    return subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()


def env(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('CARGO_') and k not in ('CARGO_HOME',) or k in ('RUSTFLAGS', 'RUSTC', 'RUSTC_WRAPPER', 'RUSTDOCFLAGS'):
            del e[k]
    e['LD_LIBRARY_PATH'] = os.path.join(sysroot(), 'lib')
    e.update(kw)
    return e


def run(cmd, cwd, e):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('%s failed in %s:\n%s' % (' '.join(cmd), cwd, r.stdout[-4000:]))
    return r.stdout


def driver():
    run(['cargo', '+nightly', 'build', '--offline'], DRIVER, env(CARGO_TARGET_DIR=os.path.join(DRIVER, 'target')))
    return BIN


def dump(out):
    """Type-checks /repo's current tree together with the entry points and writes the program."""
    b = driver()
    tmp = tempfile.mkdtemp(prefix='metamir')
    try:
        run(['cargo', '+nightly', 'check', '--offline'], os.path.join(VERIF, 'roots'),
            env(MIRDUMP_CRATE='roots', MIRDUMP_OUT=out, MIRDUMP_STD=STD, RUSTC_WRAPPER=b, CARGO_TARGET_DIR=tmp,
                RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 -Zub-checks=no -Awarnings'))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if not os.path.exists(out):
        raise BuildError('no program was written')


if __name__ == '__main__':
    driver()
    print('driver built')

"""Build the MIR driver if needed and dump a crate tree.

The crate is compiled (type-checked and lowered, never run) with a fresh
target directory, so the dump always shows the current source."""
import os, shutil, subprocess, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DRIVER = os.path.join(VERIF, 'driver')


class BuildError(Exception):
    pass


def sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True, check=True).stdout.strip()


def driver():
    src = [os.path.join(DRIVER, 'src', f) for f in os.listdir(os.path.join(DRIVER, 'src'))]
    exe = os.path.join(DRIVER, 'target', 'debug', 'mirdump')
    if not os.path.exists(exe) or any(os.path.getmtime(s) > os.path.getmtime(exe) for s in src):
        r = subprocess.run(['cargo', '+nightly', 'build', '--offline'], cwd=DRIVER, capture_output=True, text=True)
        if r.returncode:
            raise BuildError('driver: ' + r.stderr[-2000:])
    return exe


def dump(repo, out):
    exe = driver()
    tmp = tempfile.mkdtemp(prefix='mirdump.')
    env = dict(os.environ)
    env.update(LD_LIBRARY_PATH=os.path.join(sysroot(), 'lib'), MIRDUMP_OUT=out,
               MIRDUMP_STOP=os.path.join(DRIVER, 'stop.txt'), RUSTC_WORKSPACE_WRAPPER=exe)
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR'):
        env.pop(k, None)
    try:
        r = subprocess.run(['cargo', '+nightly', 'check', '--lib', '--offline', '--manifest-path',
                            os.path.join(repo, 'Cargo.toml'), '--target-dir', os.path.join(tmp, 't')],
                           env=env, capture_output=True, text=True, cwd='/')
        if r.returncode or not os.path.exists(out):
            raise BuildError(r.stderr[-3000:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    import sys
    dump(sys.argv[1], sys.argv[2])

"""Compile /repo's working tree together with the scenarios and dump MIR."""
import os, subprocess, tempfile, shutil, time, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DRIVER = os.path.join(VERIF, 'driver', 'target', 'debug', 'mirdump')
BASE = '-Zalways-encode-mir -Zmir-opt-level=0 -Zub-checks=no '
CONFIGS = {'checked': BASE + '-Coverflow-checks=on -Cdebug-assertions=on',
           'release': BASE + '-Coverflow-checks=off -Cdebug-assertions=off'}


class BuildError(Exception):
    pass


def sysroot():
    return subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()


def build_driver():
    r = subprocess.run(['cargo', '+nightly', 'build', '--offline'], cwd=os.path.join(VERIF, 'driver'),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(DRIVER):
        raise BuildError('the MIR dumper does not build:\n' + r.stdout[-4000:])


def extract(config, out, crate='harness'):
    if not os.path.exists(DRIVER):
        build_driver()
    tmp = tempfile.mkdtemp(prefix='mirdump-')
    env = dict(os.environ)
    env.pop('RUSTC_WRAPPER', None)
    env['LD_LIBRARY_PATH'] = sysroot() + '/lib'
    env['RUSTC_WORKSPACE_WRAPPER'] = DRIVER
    env['MIRDUMP_OUT'] = out
    env['CARGO_TARGET_DIR'] = tmp
    env['RUSTFLAGS'] = CONFIGS[config]
    env['CARGO_TERM_COLOR'] = 'never'
    try:
        r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--locked'], cwd=os.path.join(VERIF, crate), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or not os.path.exists(out):
            raise BuildError(r.stdout[-6000:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    extract(sys.argv[1], sys.argv[2])

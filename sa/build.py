"""Build the MIR dumper and dump the facts of /repo's current working tree."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('STABLEFS_REPO', '/repo')
BUILD = os.environ.get('STABLEFS_BUILD', os.path.join(VERIF, '.build'))


def env():
    e = dict(os.environ)
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    e.setdefault('HOME', '/root')
    if not os.path.isdir(os.path.join(e['HOME'], '.cargo')):
        e['HOME'] = '/root'
    for k in ('RUSTC_WRAPPER', 'RUSTFLAGS', 'RUSTUP_TOOLCHAIN', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    return e


def sh(cmd, cwd, e):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def tree_hash(root, exts):
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(root)):
        ds[:] = sorted(x for x in ds if x not in ('target', '.git', '.build', 'node_modules'))
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode())
                try:
                    h.update(open(p, 'rb').read())
                except OSError:
                    pass
    return h.hexdigest()


class BuildError(Exception):
    pass


def lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build_driver():
    e = env()
    drv = os.path.join(BUILD, 'driver')
    binp = os.path.join(drv, 'release', 'mirdump')
    hsh = tree_hash(os.path.join(VERIF, 'driver'), ('.rs', '.toml', '.lock'))
    stamp = os.path.join(BUILD, 'driver.stamp')
    if os.path.exists(binp) and os.path.exists(stamp) and open(stamp).read() == hsh:
        return binp
    e['CARGO_TARGET_DIR'] = drv
    rc, out = sh(['cargo', '+nightly', 'build', '--release', '--offline', '--locked'], os.path.join(VERIF, 'driver'), e)
    if rc:
        raise BuildError('building the MIR dumper failed:\n' + out[-4000:])
    open(stamp, 'w').write(hsh)
    return binp


def facts():
    """path of the facts file of the current tree"""
    lk = lock()
    try:
        binp = build_driver()
        e = env()
        hsh = tree_hash(REPO, ('.rs', '.toml', '.lock')) + open(os.path.join(BUILD, 'driver.stamp')).read()
        hsh = hashlib.sha256(hsh.encode()).hexdigest()
        out = os.path.join(BUILD, 'facts-%s.json' % hsh[:20])
        if os.path.exists(out):
            return out
        rc, root = sh(['rustc', '+nightly', '--print', 'sysroot'], '/', e)
        e['LD_LIBRARY_PATH'] = root.strip() + '/lib' + (':' + e['LD_LIBRARY_PATH'] if e.get('LD_LIBRARY_PATH') else '')
        tgt = os.path.join(BUILD, 'target')
        fp = os.path.join(tgt, 'debug', '.fingerprint')
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith('stable-fs-') or d.startswith('stable_fs-'):
                    shutil.rmtree(os.path.join(fp, d))
        tmp = out + '.tmp%d' % os.getpid()
        e['CARGO_TARGET_DIR'] = tgt
        e['RUSTC_WORKSPACE_WRAPPER'] = binp
        e['MIRDUMP_CRATE'] = 'stable_fs'
        e['MIRDUMP_OUT'] = tmp
        rc, log = sh(['cargo', '+nightly', 'check', '-p', 'stable-fs', '--lib', '--offline', '--locked'], REPO, e)
        if rc or not os.path.exists(tmp):
            raise BuildError('analysing the tree failed (it has to compile):\n' + log[-4000:])
        for f in os.listdir(BUILD):
            if f.startswith('facts-') and f.endswith('.json') and len([g for g in os.listdir(BUILD) if g.startswith('facts-')]) > 40:
                os.unlink(os.path.join(BUILD, f))
        os.rename(tmp, out)
        return out
    finally:
        lk.close()


if __name__ == '__main__':
    print(facts())

"""Type-checked (THIR) dumps of the analysed crate, made from /repo's current working tree.

The crate is compiled (checked only) with the pinned nightly compiler and the rustc driver in /verif/driver,
once with default features and once without (`parallel` off).  Dumps are cached by the hash of everything
they depend on.
"""
import fcntl
import hashlib
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD') or os.path.join(HERE, '.build')
# the sequential build is analysed without std, or with it where the crate needs it
CONFIGS = {'default': [[]], 'sequential': [['--no-default-features'], ['--no-default-features', '--features', 'std']]}


class NotBuilt(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(HOME='/root', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_INCREMENTAL='0')
    e['PATH'] = '/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    for k in ('RUSTUP_TOOLCHAIN', 'RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WORKSPACE_WRAPPER'):
        e.pop(k, None)
    return e


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def files(root):
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            yield os.path.join(d, f)


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b'\0')
        try:
            with open(p, 'rb') as f:
                h.update(f.read())
        except OSError:
            h.update(b'-')
        h.update(b'\0')
    return h.hexdigest()[:20]


def build_driver():
    srcs = list(files(os.path.join(HERE, 'driver', 'src'))) + [os.path.join(HERE, 'driver', 'Cargo.toml')]
    stamp = os.path.join(BUILD, 'driver-' + digest(srcs))
    binp = os.path.join(BUILD, 'drv', 'debug', 'thirdump')
    if os.path.exists(stamp) and os.path.exists(binp):
        return binp, stamp
    e = env()
    e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'drv')
    r = run(['cargo', '+nightly', 'build', '--offline'], cwd=os.path.join(HERE, 'driver'), env=e)
    if r.returncode:
        raise SystemExit('cannot build the driver:\n' + r.stdout[-4000:])
    open(stamp, 'w').close()
    return binp, stamp


def sources():
    ps = [os.path.join(REPO, 'Cargo.toml'), os.path.join(REPO, 'Cargo.lock')]
    for p in ('build.rs', '.cargo/config.toml', '.cargo/config', 'rust-toolchain', 'rust-toolchain.toml'):
        if os.path.exists(os.path.join(REPO, p)):
            ps.append(os.path.join(REPO, p))
    ps += list(files(os.path.join(REPO, 'src')))
    return ps


def lockfile():
    l = os.path.join(REPO, 'Cargo.lock')
    if not os.path.exists(l) and os.path.exists('/opt/vp/Cargo.lock'):
        with open('/opt/vp/Cargo.lock', 'rb') as a, open(l, 'wb') as b:
            b.write(a.read())


def dump(cfg):
    """path of the dump of the current tree under the given feature configuration"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock-' + cfg), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with open(os.path.join(BUILD, 'lock-driver'), 'w') as lk2:
            fcntl.flock(lk2, fcntl.LOCK_EX)
            drv, stamp = build_driver()
            lockfile()
        key = digest(sources() + [stamp])
        out = os.path.join(BUILD, 'dump-%s-%s.json' % (cfg, key))
        if os.path.exists(out):
            return out
        for f in os.listdir(BUILD):
            if f.startswith('dump-%s-' % cfg):
                try:
                    os.unlink(os.path.join(BUILD, f))
                except OSError:
                    pass
        tgt = os.path.join(BUILD, 'target-' + cfg)
        for f in _glob(os.path.join(tgt, 'debug', '.fingerprint'), 'dist-saver-') + _glob(os.path.join(tgt, 'debug', 'build'), 'dist-saver'):
            subprocess.run(['rm', '-rf', f])
        e = env()
        sr = run(['rustc', '+nightly', '--print', 'sysroot'], env=e).stdout.strip()
        e['LD_LIBRARY_PATH'] = os.path.join(sr, 'lib')
        e['RUSTC_WORKSPACE_WRAPPER'] = drv
        e['THIRDUMP_CRATE'] = 'dist_saver'
        tmp = out + '.tmp'
        if os.path.exists(tmp):
            os.unlink(tmp)
        e['THIRDUMP_OUT'] = tmp
        e['CARGO_TARGET_DIR'] = tgt
        for flags in CONFIGS[cfg]:
            r = run(['cargo', '+nightly', 'check', '--lib', '--offline'] + flags, cwd=REPO, env=e)
            if r.returncode == 0 and os.path.exists(tmp):
                break
        else:
            raise NotBuilt('cannot analyse %s (%s):\n%s' % (REPO, cfg, r.stdout[-6000:]))
        os.rename(tmp, out)
        return out


def _glob(d, prefix):
    try:
        return [os.path.join(d, x) for x in os.listdir(d) if x.startswith(prefix)]
    except OSError:
        return []


def load(cfg):
    with open(dump(cfg)) as f:
        return json.load(f)


if __name__ == '__main__':
    for c in CONFIGS:
        print(dump(c))
    sys.exit(0)

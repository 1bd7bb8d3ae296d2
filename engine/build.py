"""Build: harness + /repo -> LLVM IR (symbolic executor) and the native replay binary."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, '.build')
TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'
REPO = '/repo'
CRATES = ['harness', 'sett_rs', 'ode_solvers', 'anyhow', 'serde', 'serde_core', 'num_traits', 'simba',
          'typenum', 'nalgebra', 'itertools', 'either', 'num_complex', 'approx', 'matrixmultiply', 'rawpointer']
IRFLAGS = ('--emit=llvm-ir,link,metadata -Copt-level=3 -Cno-prepopulate-passes -Cpanic=abort -Zinline-mir=no -Zshare-generics=no '
           '-Ccodegen-units=1 -Cdebuginfo=0 -Cno-vectorize-slp -Cno-vectorize-loops -Cdebug-assertions=off '
           '-Coverflow-checks=on')

class BuildError(Exception):
    pass

def env(target, rustflags=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('CARGO', 'RUST')) or k in ('CARGO_HOME', 'RUSTUP_HOME')}
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, RUSTC_BOOTSTRAP='1', CARGO_TARGET_DIR=target, CARGO_INCREMENTAL='0',
             CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    e['RUSTFLAGS'] = rustflags if rustflags is not None else '--cap-lints=allow'
    return e

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd)[:300], p.stdout[-4000:]))
    return p.stdout

def tree_hash(paths):
    h = hashlib.sha256()
    for base in paths:
        if os.path.isfile(base):
            files = [base]
        else:
            files = []
            for d, ds, fs in os.walk(base):
                ds[:] = sorted(x for x in ds if x not in ('target', '.git', '.build'))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(fh.read())
            h.update(b'\0')
    return h.hexdigest()

def llvm_bin():
    out = run(['rustc', '--print', 'sysroot'], env=env(BUILD)).strip()
    return glob.glob(out + '/lib/rustlib/*/bin')[0]

def source_hash():
    return tree_hash([REPO + '/src', REPO + '/Cargo.toml', ROOT + '/harness/src', ROOT + '/harness/Cargo.toml',
                      ROOT + '/harness/Cargo.lock', ROOT + '/stubs', ROOT + '/engine/patch_nalgebra.py',
                      ROOT + '/engine/build.py'])

def harness_names():
    names = []
    for f in sorted(glob.glob(ROOT + '/harness/src/*.rs')):
        names += re.findall(r'#\[no_mangle\]\s*pub fn (\w+)\(\)', open(f).read())
    return names

def build(verbose=False):
    """Return (ir path, replay binary path); rebuilds when any source changed."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(BUILD + '/lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        h = source_hash()
        stamp = BUILD + '/stamp'
        ir, binary = BUILD + '/harness.ll', BUILD + '/native/release/replay'
        if os.path.exists(stamp) and open(stamp).read() == h and os.path.exists(ir) and os.path.exists(binary):
            return ir, binary
        if os.path.exists(stamp):
            os.unlink(stamp)
        t = time.time()
        ph = tree_hash([ROOT + '/engine/patch_nalgebra.py'])
        pst = BUILD + '/nalgebra.stamp'
        if not (os.path.exists(pst) and open(pst).read() == ph and os.path.isdir(BUILD + '/nalgebra')):
            sys.path.insert(0, ROOT + '/engine')
            import patch_nalgebra
            patch_nalgebra.main(BUILD + '/nalgebra')
            open(pst, 'w').write(ph)
        hd = ROOT + '/harness'
        # cargo decides freshness by modification times: force the two crates that matter
        for td in ('ir', 'native'):
            for d in glob.glob(BUILD + '/%s/release/.fingerprint/*' % td):
                if os.path.basename(d).startswith(('sett-rs-', 'harness-', 'ode_solvers-')):
                    shutil.rmtree(d)
        jobs = [subprocess.Popen(['cargo', 'build', '--offline', '--locked', '--release', '--lib', '-q'], cwd=hd,
                                 env=env(BUILD + '/ir', IRFLAGS + ' --cap-lints=allow'),
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True),
                subprocess.Popen(['cargo', 'build', '--offline', '--locked', '--release', '-q'], cwd=hd, env=env(BUILD + '/native'),
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)]
        outs = [j.communicate()[0] for j in jobs]
        for j, o in zip(jobs, outs):
            if j.returncode != 0:
                raise BuildError(o[-6000:])
        deps = BUILD + '/ir/release/deps'
        lls = []
        for c in CRATES:
            cand = sorted(glob.glob('%s/%s-*.ll' % (deps, c)), key=os.path.getmtime)
            if cand:
                lls.append(cand[-1])
        bin_ = llvm_bin()
        run([bin_ + '/llvm-link', '-o', BUILD + '/all.bc'] + lls)
        api = ','.join(harness_names())
        run([bin_ + '/opt', '-S', '-passes=internalize,globaldce,default<O3>', '-vectorize-slp=false',
             '-vectorize-loops=false', '-internalize-public-api-list=' + api, BUILD + '/all.bc', '-o', ir + '.tmp'])
        os.unlink(BUILD + '/all.bc')
        os.rename(ir + '.tmp', ir)
        open(stamp, 'w').write(h)
        if verbose:
            print('build %.1fs' % (time.time() - t))
        return ir, binary
    finally:
        lock.close()

if __name__ == '__main__':
    print(build(True))

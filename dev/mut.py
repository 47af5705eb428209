"""Development aid: applies one textual change to a scratch copy of the
sources and runs checks on it.  mut.py FILE OLD NEW PROP...; OLD/NEW may be
@file. Not used by any check."""
import os, shutil, subprocess, sys, tempfile
def run(file, old, new, props, count=1, quiet=False, keep=False):
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    try:
        shutil.copytree('/repo/src', d + '/src')
        os.symlink('/repo/third-party', d + '/third-party')
        edits = old if isinstance(old, list) else [(file, old, new)]
        for fl, o, n in edits:
            p = d + '/src/' + fl
            s = open(p).read()
            if s.count(o) < 1:
                print('PATTERN NOT FOUND', fl, o[:50]); return {}
            s = s.replace(o, n, count)
            open(p, 'w').write(s)
        res = {}
        for pr in props:
            e = dict(os.environ, VERIF_REPO=d, VERIF_OUT=d)
            r = subprocess.run([sys.executable, '/verif/sa/check.py', pr], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            res[pr] = r.returncode
            if r.returncode:
                res[pr] = (r.returncode, [l[:170] for l in r.stdout.split('\n') if l.startswith(('src','  ','ERR'))][:1])
            if not quiet:
                print(pr, r.returncode, '\n'.join(r.stdout.strip().split('\n')[:6]))
        return res
    finally:
        shutil.rmtree(d)
def _one(a):
    m, props = a
    r = run(*m, props, quiet=True)
    return r, m
def runall(M, props):
    from multiprocessing import Pool
    with Pool(8) as p:
        for r, m in p.imap(_one, [(m, props) for m in M]):
            r = {k: v if not isinstance(v, tuple) else (v[0], [x.strip()[:110] for x in v[1]]) for k, v in r.items()}
            print(r, repr(m[2])[:60] if isinstance(m[2], str) else '', flush=True)


if __name__ == '__main__':
    a = [open(x[1:]).read() if x.startswith('@') else x for x in sys.argv[1:]]
    run(a[0], a[1], a[2], a[3:])

"""Development aid: confirms a planted bug in a scratch copy of /repo (private
mount namespace) and stores it below /verif/seeded. Not used by any check."""
import json, os, shutil, subprocess, sys, tempfile
BASE = json.load(open('/opt/vp/BASELINE.json'))
def sh(copy, cmd, **k):
    return subprocess.run(['unshare', '-m', 'bash', '-c',
        'mount --bind %s /repo && cd /repo && %s' % (copy, cmd)],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def plant(id, prop, edits, demo, needs, breaks, files=None, store=True):
    d = tempfile.mkdtemp(prefix='plant_', dir='/tmp')
    out = []
    try:
        c = d + '/repo'
        subprocess.check_call(['cp', '-a', '/repo', c])
        demod = d + '/demo'
        os.mkdir(demod)
        open(demod + '/demo.sh', 'w').write(demo)
        os.chmod(demod + '/demo.sh', 0o755)
        for n, t in (files or {}).items():
            open(demod + '/' + n, 'w').write(t)
        r = sh(c, 'bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash %s/demo.sh' % demod)
        if r.returncode != 0:
            return id + ': DEMO FAILS ON CLEAN TREE\n' + r.stdout[-1500:]
        r = sh(c, 'git status --short')
        if r.stdout.strip():
            return id + ': demo leaves changes ' + r.stdout
        for f, o, n in edits:
            p = c + '/src/' + f
            s = open(p).read()
            if s.count(o) != 1:
                return id + ': pattern found %d times: %s' % (s.count(o), o[:60])
            open(p, 'w').write(s.replace(o, n))
        diff = subprocess.check_output(['git', '-C', c, 'diff'], text=True)
        r = sh(c, 'bash /opt/vp/build.sh 2>&1')
        if r.returncode or 'warning' in r.stdout:
            out.append('build: ' + r.stdout[-1500:])
            if r.returncode: return id + ': BUILD FAILS ' + out[0]
        r = sh(c, 'bash /opt/vp/test.sh %s/o.json' % d)
        res = json.load(open(d + '/o.json'))
        miss = [t for t in BASE['stable'] if t not in set(res['passed'])]
        if miss:
            return id + ': TESTS FAIL %d %s' % (len(miss), miss[:5])
        r = sh(c, 'timeout 300 bash %s/demo.sh' % demod)
        if r.returncode == 0:
            return id + ': DEMO PASSES WITH BUG\n' + r.stdout[-1500:]
        dm = r.stdout.strip().split('\n')[-1]
        e = dict(os.environ, VERIF_REPO=c, VERIF_OUT=d)
        k = subprocess.run([sys.executable, '/verif/sa/check.py', prop], env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if store:
            t = '/verif/seeded/' + id
            shutil.rmtree(t, ignore_errors=True)
            shutil.copytree(demod, t)
            open(t + '/patch.diff', 'w').write(diff)
            json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
                      open(t + '/meta.json', 'w'), indent=1)
        return '%s: OK (%s) check %s: %s %s' % (id, dm[-80:], prop, {0: 'MISSED', 1: 'caught'}.get(k.returncode, 'ERROR'),
             '\n'.join(k.stdout.split('\n')[:3]) if k.returncode else '') + ''.join(out)
    finally:
        shutil.rmtree(d)
def _p(a):
    return plant(**a)
def plantall(L):
    from multiprocessing import Pool
    with Pool(4) as p:
        for r in p.imap(_p, L):
            print(r, flush=True)

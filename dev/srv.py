"""Development aid: keeps closures in memory and runs rule functions of a
freshly imported module in forked children.
  srv.py serve REPO ENTRY...      (background)
  srv.py MODULE FN[,FN]           (client; prints violations)"""
import importlib, os, sys, time, socket, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sa'))
sys.setrecursionlimit(50000)
SOCK = os.environ.get('SRV', '/tmp/srv.sock')
if sys.argv[1] == 'serve':
    os.environ['VERIF_REPO'] = sys.argv[2]
    from core import *
    p = load(); s = Session(p)
    for e in sys.argv[3:]:
        t = time.time()
        e, _, fn = e.partition(':')
        if fn:
            getattr(importlib.import_module(e), fn)(s)
        else:
            s.closure(e)
        print(e, time.time() - t, flush=True)
    if os.path.exists(SOCK): os.unlink(SOCK)
    l = socket.socket(socket.AF_UNIX); l.bind(SOCK); l.listen(5)
    print('ready', flush=True)
    while True:
        c, _ = l.accept()
        if os.fork():
            c.close()
            try:
                while os.waitpid(-1, os.WNOHANG)[0]: pass
            except ChildProcessError: pass
            continue
        l.close()
        req = c.recv(4096).decode().split()
        os.dup2(c.fileno(), 1); os.dup2(c.fileno(), 2)
        t = time.time()
        try:
            for k in [k for k in sys.modules if k.startswith('r_')]: del sys.modules[k]
            m = importlib.import_module(req[0])
            for fn in req[1].split(','):
                chk = Check('X', p)
                try:
                    getattr(m, fn)(chk, s)
                except AnalysisError as e:
                    traceback.print_exc()
                print(fn, chk.rules, 'paths', chk.paths, '%.1fs' % (time.time() - t))
                for b in chk.bad[:30]:
                    print('  %s:%d: %s: [%s] %s' % (b['file'], b['line'], b['function'], b['rule'], b['message'][:600]))
        except Exception:
            traceback.print_exc()
        sys.stdout.flush()
        os._exit(0)
else:
    c = socket.socket(socket.AF_UNIX); c.connect(SOCK)
    c.send(' '.join(sys.argv[1:]).encode())
    while True:
        b = c.recv(65536)
        if not b: break
        sys.stdout.write(b.decode()); sys.stdout.flush()

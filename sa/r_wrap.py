"""Rules about system calls and their wrappers."""
from core import *
from terms import mul, add, sub

NULL = {'fopen', 'opendir', 'malloc', 'realloc', 'calloc', 'getcwd',
        'fdopen', 'readdir', 'freopen', 'realpath'}
NONZERO = {'stat', 'lstat', 'fstat', 'fstatat', 'mkdir', 'symlink', 'rename',
           'chmod', 'fchmod', 'chown', 'fchown', 'lchown', 'utime', 'utimes',
           'futimens', 'utimensat', 'remove', 'unlink', 'rmdir', 'fflush',
           'fdatasync', 'fsync', 'close', 'closedir', 'fclose', 'lockf',
           'atexit', 'regcomp', 'clock_gettime', 'ftruncate', 'fseek',
           'setvbuf', 'link', 'flock'}
NEG = {'open', 'fileno', 'readlink', 'time', 'fgetc', 'getc', 'openat',
       'dirfd', 'creat'}
SHORT = {'fread', 'fwrite'}
FALSE = {'fWrite', 'fTodisk'}
FALLIBLE = NULL | NONZERO | NEG | SHORT | FALSE | {'ungetc', 'read', 'write'}

ENOENT, ERANGE, EROFS, EBADF, ENOTDIR = 2, 34, 30, 9, 20
ERRNO = mk('glob', '', 'errno')

PRINTING = {'printf', 'fprintf', 'vfprintf', 'vprintf', 'puts', 'putchar',
            'fputs', 'colorPrintf'}


class WrapPolicy(Std):
    errno = True


def failcond(e):
    """Term that is true iff call e failed."""
    n, r, a = e.name, e.res, e.args
    if n in NULL or n in FALSE:
        return mk('eq', r, ZERO), True
    if n in ('regcomp', 'atexit'):
        return mk('eq', r, ZERO), False
    if n in NEG or n in NONZERO:
        return mk('eq', r, num(-1)), True
    if n in SHORT:
        return cmpeq(r, a[2]), False
    if n == 'ungetc':
        return cmpeq(r, a[0]), False
    if n in ('read', 'write'):
        return cmpeq(r, a[2]), False
    raise KeyError(n)


def cmpeq(a, b):
    if a is b:
        return ONE
    if a.id > b.id:
        a, b = b, a
    return mk('eq', a, b)


def assume_fail(facts, e):
    t, pol = failcond(e)
    if isint(t):
        return facts if bool(t.args[0]) == pol else None
    return facts.assume(t, pol)


def assume_ok(facts, e):
    t, pol = failcond(e)
    if e.name in NONZERO:
        t, pol = mk('eq', e.res, ZERO), False
    if isint(t):
        return facts if bool(t.args[0]) != pol else None
    return facts.assume(t, not pol)


def errno_after(r, e):
    """Value errno had right after call e."""
    return mk('hv', ERRNO, e.res, e.name)


def addr_taken(prog):
    """Functions that are used other than by calling them."""
    if hasattr(prog, '_taken'):
        return prog._taken
    out = set()
    for f in prog.funcs.values():
        callees = set()
        for x in f.body.walk():
            if x.kind == 'CallExpr':
                c = x.kids[0]
                while c.kind in ('ImplicitCastExpr', 'ParenExpr'):
                    c = c.kids[0]
                callees.add(c.nid)
        for x in f.body.walk():
            if x.kind == 'DeclRefExpr' and x.decl[0] == 'FunctionDecl' and \
                    x.nid not in callees:
                g = prog.resolve(x.name, f.file)
                if g is not None:
                    out.add(g.key)
    prog._taken = out
    return out


def roots(prog, names, policy=None):
    """Functions from which analysis has to start to see every call of the
    given names: documented and externally visible functions, callbacks."""
    pol = policy or Std(prog)
    taken = addr_taken(prog)

    def closure(f):
        seen = {f.key}
        todo = [f]
        while todo:
            g = todo.pop()
            for x in g.body.walk():
                if x.kind == 'DeclRefExpr' and x.decl[0] == 'FunctionDecl':
                    if x.name in names:
                        return True
                    h = prog.resolve(x.name, g.file)
                    if h is not None and h.key not in seen and \
                            pol.inline(h):
                        seen.add(h.key)
                        todo.append(h)
        return False
    called = set()
    for f in prog.funcs.values():
        for x in f.body.walk():
            if x.kind == 'DeclRefExpr' and x.decl[0] == 'FunctionDecl':
                g = prog.resolve(x.name, f.file)
                if g is not None and g.key != f.key:
                    called.add(g.key)
    out = []
    for k, f in sorted(prog.funcs.items()):
        start = not pol.inline(f) or f.key in taken or f.name == 'main' or \
            f.key not in called or f.key in pol.heads
        if start and closure(f):
            out.append(f)
    return out


# cleanup callbacks run when the program already fails or after the checked
# variant was called
def is_cleanup(prog, f):
    """Callbacks registered through CR_RegionAttach() only."""
    for g in prog.funcs.values():
        for x in g.body.walk():
            if x.kind == 'CallExpr':
                names = [y.name for y in x.kids[0].walk()
                         if y.kind == 'DeclRefExpr']
                if names and names[0] == 'CR_RegionAttach':
                    for a in x.kids[1:]:
                        for y in a.walk():
                            if y.kind == 'DeclRefExpr' and \
                                    y.name == f.name:
                                return True
    return False


def is_zero(facts, t):
    return t is not None and facts.decide(t) is False


def truth(facts, t):
    return None if t is None else facts.decide(t)


def tolerated(prog, f, it, r, e, ff):
    """Is it fine that path r goes on although e failed (facts ff)?"""
    en = errno_after(r, e)

    def errno_in(*vals):
        return only(ff, en, vals)
    n = e.name
    if r.kind == 'ret' and f.ret in ('bool', '_Bool') and \
            n in ('fwrite', 'fread', 'fileno', 'fflush', 'fdatasync',
                  'fsync') and f.name in FALSE:
        return is_zero(ff, r.val)
    if n in ('lstat', 'stat', 'fstatat') and f.name == 'sPathExists':
        return is_zero(ff, r.val) and errno_in(ENOENT, 0)
    if n == 'readdir' and f.name == 'sDirGetNext':
        return errno_in(0) and isstr(r.val, '')
    if n in ('fgetc', 'getc'):
        if f.name == 'sFbytesLeft':
            return errno_in(0, EBADF) and is_zero(ff, r.val)
        return errno_in(0)
    if n == 'getcwd':
        return errno_in(ERANGE) and r.kind == 'back'
    if n == 'open' and f.name == 'repoLock':
        hint = [p for p in it.args if p.ty == 'RepoLockHint']
        return errno_in(EROFS) and bool(hint) and \
            ff.domain(hint[0]) == {prog.enums['RLH_readonly']}
    return False


def isstr(t, s):
    return t is not None and t.op == 'pure' and t.args[0] == 'str' and \
        t.args[1][0].op == 'str' and t.args[1][0].args[0].strip('"') == s


def interp_root(s, f, policy=WrapPolicy):
    key = ('root', f.key, policy)
    if key not in s.cache:
        it = Interp(s.p, policy(s.p))
        s.cache[key] = (it, it.run(f))
    return s.cache[key]


def failures(chk, s):
    chk.begin('failures-noticed',
              'On every path on which a fallible call failed, the program '
              'terminates through die()/dieErrno(), or the function returns '
              'its documented failure value with the errno that has a '
              'defined meaning.')
    prog = s.p
    n = 0
    for f in roots(prog, FALLIBLE - {'fWrite', 'fTodisk'} |
                   {'fWrite', 'fTodisk'}):
        if f.name.startswith('CR_') or f.file.find('third-party') >= 0:
            continue
        cleanup = f.key in addr_taken(prog) and is_cleanup(prog, f)
        it, recs = interp_root(s, f)
        chk.count(it, recs)
        for r in recs:

            if r.kind == 'die':
                continue
            for e in r.events():
                if e.kind != 'call' or e.name not in FALLIBLE:
                    continue
                n += 1
                ff = assume_fail(r.facts, e)
                if ff is None:
                    chk.need(True, e.node, '')
                    continue
                if e.name == 'ungetc' and isint(e.args[0]) and \
                        e.args[0].args[0] == -1 or e.name == 'ungetc' and \
                        ff.decide(cmpeq(e.args[0], num(-1))) is True:
                    continue        # nothing to push back
                if cleanup and e.name in ('fclose', 'closedir', 'close',
                                          'remove', 'unlink', 'lockf'):
                    continue
                chk.need(tolerated(prog, f, it, r, e, ff), e.node,
                         'failure of %s() goes unnoticed' % e.name, f)
    chk.anchor(n > 40, 'fallible calls')
    chk.begin('errno-cleared', 'Calls that report a failure through errno '
              'only are made with errno set to zero.')
    for f in roots(prog, {'readdir', 'strtoll', 'fgetc'}):
        it, recs = interp_root(s, f)
        for r in recs:
            en = None
            for e in r.events():
                if e.kind == 'store' and e.args[0] is ERRNO:
                    en = e.args[1]
                elif e.kind == 'call' and e.name in (
                        'readdir', 'strtoll', 'strtol', 'fgetc', 'getc',
                        'strtoull'):
                    chk.need(en is ZERO, e.node, 'errno may be stale when '
                             'calling %s()' % e.name, f)
                    if e.name != 'readdir':
                        en = None
                elif e.kind == 'call' and not e.name.startswith(
                        ('CR_', 'allocat')):
                    en = None
    chk.begin('failure-exit', 'die() and dieErrno() print to stderr and '
              'then exit with a failing status.')
    for name in ('die', 'dieErrno'):
        f = prog.funcs.get(name)
        if f is None:
            raise AnalysisError('%s not found' % name)

        class P(WrapPolicy):
            noreturn = {'exit', '_exit', 'abort', '_Exit', 'quick_exit'}
        it = Interp(prog, P(prog, expand=(name,)))
        recs = it.run(f)
        chk.count(it, recs)
        for r in recs:
            chk.need(r.kind == 'die', r.node, '%s() returns' % name, f)
            if r.kind == 'die':
                d = [e for e in r.events() if e.kind == 'die'][-1]
                chk.need(d.name == 'exit' and isint(d.args[0]) and
                         d.args[0].args[0] & 255 != 0, d.node,
                         '%s() does not exit with a failing status' % name,
                         f)
                chk.need(any(e.kind == 'call' and 'printf' in e.name and
                             mentions_stderr(e) for e in r.events()),
                         d.node, '%s() prints no error message' % name, f)


def mentions_stderr(e):
    return any('stderr' in show(a) for a in e.args)


# ------------------------------------------------------------- contracts
def cs(i):
    """C string of parameter i"""
    def m(t, ps, r, it):
        return t.op == 'pure' and t.args[0] == 'cstr' and \
            t.args[1][0] is ps[i]
    return m


def par(i, *fields):
    def m(t, ps, r, it):
        x = ps[i]
        if fields:
            return t is initf(x, *fields)
        return t is x
    return m


def const(v):
    def m(t, ps, r, it):
        return isint(t) and t.args[0] == v
    return m


def any_(t, ps, r, it):
    return True


def mode(c):
    def m(t, ps, r, it):
        return t.op == 'str' and t.args[0].strip('"').startswith(c)
    return m


def product(i):
    """Handled separately: size*count equals parameter i."""
    return any_


def utimes(t, ps, r, it):
    if t.op != 'addr':
        return False
    return all(r.st.store.get(mk('fld', t.args[0], f)) is ps[1]
               for f in ('actime', 'modtime'))


RAW = FALLIBLE - FALSE | {'lockf'}
CONTRACT = {
    'sStat': [('stat', cs(0), any_)],
    'sLStat': [('lstat', cs(0), any_)],
    'sPathExists': [('lstat', cs(0), any_)],
    'sMkdir': [('mkdir', cs(0), const(0o755))],
    'sSymlink': [('symlink', cs(0), cs(1))],
    'sRename': [('rename', cs(0), cs(1))],
    'sChmod': [('chmod', cs(0), par(1))],
    'sChown': [('chown', cs(0), par(1), par(2))],
    'sLChown': [('lchown', cs(0), par(1), par(2))],
    'sUtime': [('utime', cs(0), utimes)],
    'sRemove': [('remove', cs(0))],
    'sFread': [('fread', par(0), any_, any_, par(2, 'handle'))],
    'sFwrite': [('fwrite', par(0), any_, any_, par(2, 'handle'))],
    'fWrite': [('fwrite', par(0), any_, any_, par(2, 'handle'))],
    'fDatasync': [('open', cs(0), any_), ('fdatasync', any_),
                  ('close', any_)],
    'sFclose': [('fclose', par(0, 'handle'))],
    'sFopenRead': [('fopen', cs(0), mode('r'))],
    'sFopenWrite': [('fopen', cs(0), mode('w'))],
    'sDirOpen': [('opendir', cs(0))],
    'sDirClose': [('closedir', par(0, 'handle'))],
}


def contracts(chk, s, only=None):
    chk.begin('wrapper-contract',
              'Every wrapper performs exactly the documented system calls '
              'with its own arguments, in order, and hands out their '
              'results.')
    prog = s.p
    for name, spec in sorted(CONTRACT.items()):
        if only is not None and name not in only:
            continue
        f = prog.funcs.get(name)
        if f is None:
            raise AnalysisError('wrapper %s not found' % name)
        it, recs = interp_root(s, f)
        chk.count(it, recs)
        ps = it.args
        n = 0
        for r in recs:
            if r.kind != 'ret':
                continue
            n += 1
            evs = [e for e in r.events() if e.kind == 'call' and (
                   e.name in RAW or e.name == 'fWrite' != name)]
            bad = None
            # a read of length zero needs no call
            if len(evs) != len(spec):
                bad = 'performs %s instead of %s' % (
                    '+'.join(e.name for e in evs) or 'nothing',
                    '+'.join(x[0] for x in spec))
            else:
                for e, x in zip(evs, spec):
                    if e.name != x[0] and not (
                            e.name, x[0]) in (('fsync', 'fdatasync'),
                                              ('unlink', 'remove'),
                                              ('fWrite', 'fwrite')):
                        bad = 'calls %s() instead of %s()' % (e.name, x[0])
                    elif e.name == 'fWrite':
                        if tuple(e.args) != tuple(ps):
                            bad = 'passes wrong arguments to fWrite()'
                    else:
                        for i, m in enumerate(x[1:]):
                            if i >= len(e.args) or not m(e.args[i], ps, r,
                                                         it):
                                bad = 'passes a wrong argument %d to %s()' \
                                    % (i + 1, e.name)
                if evs and evs[0].name in SHORT:
                    e = evs[0]
                    if mul(e.args[1], e.args[2]) is not ps[1]:
                        bad = 'does not process the requested size'
            chk.need(bad is None, evs[-1].node if evs else f.body,
                     '%s() %s' % (name, bad), f)
            if bad is None:
                m = results(name, r, evs, ps, it)
                chk.need(not m, r.node or f.body, '%s() %s' % (name, m), f)
        chk.need(n > 0, f.body, '%s() never succeeds' % name, f)


def results(name, r, evs, ps, it):
    v = r.val
    e = evs[0] if evs else None
    if name in ('sStat', 'sLStat'):
        ok = v is not None and v.op == 'hv' and v.args[1] is e.res
        return '' if ok else 'does not return the found attributes'
    if name == 'sPathExists':
        for fail in (True, False):
            g = assume_fail(r.facts, e) if fail else assume_ok(r.facts, e)
            if g is not None and truth(g, v) is not (not fail):
                return 'returns the wrong answer'
    if name == 'fWrite':
        t, pol = failcond(e)
        g = r.facts.assume(t, not pol)
        if g is not None and is_zero(g, v):
            return 'reports a failure after writing everything'
        return ''
    if name == 'fDatasync':
        if evs[1].args[0] is not evs[0].res or \
                evs[2].args[0] is not evs[0].res:
            return 'syncs another file'
    if name in ('sFopenRead', 'sFopenWrite', 'sDirOpen'):
        h = it.read(r.st, mk('fld', ptr_loc(v), 'handle'))
        if h is not e.res:
            return 'does not keep the opened handle'
        f = 'path' if name != 'sDirOpen' else 'directory_path'
        p = it.read(r.st, mk('fld', ptr_loc(v), f))
        if p is None or strval(p) is not ps[0]:
            return 'does not remember its path'
    return ''


def strval(t):
    while t.op == 'pure' and t.args[0] in ('strCopy', 'strCopyRaw'):
        t = t.args[1][0]
    return t


def todisk(chk, s):
    """fTodisk: true only after flushing and syncing, in this order."""
    chk.begin('flush-then-sync', 'fTodisk() returns true only after '
              'fflush() and afterwards fdatasync() succeeded for the '
              'stream.')
    f = s.p.funcs.get('fTodisk')
    if f is None:
        raise AnalysisError('fTodisk not found')
    it, recs = interp_root(s, f)
    chk.count(it, recs)
    h = initf(it.args[0], 'handle')
    n = 0
    for r in recs:
        if r.kind != 'ret':
            continue
        n += 1
        if is_zero(r.facts, r.val):
            continue
        # may return true
        tf = r.facts
        if not isint(r.val):
            tf = r.facts.assume(r.val, True)
            if tf is None:
                continue
        evs = [e for e in r.events() if e.kind == 'call']
        fl = [i for i, e in enumerate(evs) if e.name == 'fflush' and
              e.args[0] is h and assume_fail(tf, e) is None]
        sy = [i for i, e in enumerate(evs)
              if e.name in ('fdatasync', 'fsync') and
              assume_fail(tf, e) is None and e.args[0].op == 'res' and
              e.args[0].args[0] == 'fileno']
        fn = [e for e in evs if e.name == 'fileno' and e.args[0] is h]
        ok = fl and sy and fl[0] < sy[-1] and fn and \
            evs[sy[-1]].args[0] is fn[-1].res
        chk.need(bool(ok), r.node or f.body, 'reports success without '
                 'having flushed and then synced the stream', f)
    chk.anchor(n, 'fTodisk')


def dirnext(chk, s):
    """sDirGetNext returns every entry except . and .."""
    chk.begin('directory-listing', 'sDirGetNext() skips exactly the entries '
              '"." and "..", returns every other entry as path below the '
              'directory, and the empty string only at the end.')
    f = s.p.funcs.get('sDirGetNext')
    if f is None:
        raise AnalysisError('sDirGetNext not found')
    it, recs = interp_root(s, f)
    chk.count(it, recs)
    d = it.args[0]
    n = 0
    for r in recs:
        evs = [e for e in r.events() if e.kind == 'call' and
               e.name == 'readdir']
        if not evs:
            continue
        e = evs[-1]
        chk.need(e.args[0] is initf(d, 'handle'), e.node,
                 'reads another directory', f)
        name = mk('fld', ptr_loc(e.res), 'd_name')

        def ch(i):
            t = mk('init', mk('at', mk('decay', name), num(i)))
            return r.facts.interval(t)
        last = e
        if r.kind == 'back':
            n += 1
            # entry skipped: must be . or ..
            c = [chr_iv(r, it, name, i) for i in range(3)]
            dot = c[0] == (46, 46) and (
                c[1] == (0, 0) or c[1] == (46, 46) and c[2] == (0, 0))
            nul = assume_fail(r.facts, e)
            dot = dot or dotname(r.facts, e.res) is True
            chk.need(dot and nul is None, e.node, 'skips an entry other '
                     'than "." and ".."', f)
        elif r.kind == 'ret':
            n += 1
            if isstr(r.val, ''):
                t, pol = failcond(e)
                chk.need(r.facts.assume(t, not pol) is None, r.node,
                         'pretends that the directory has ended', f)
            else:
                v = r.val
                ok = v.op == 'pure' and v.args[0] == 'strAppendPath' and \
                    v.args[1][0] is mk('pure', 'strStripTrailingSlashes', (
                        initf(d, 'directory_path'),)) and \
                    is_dname(v.args[1][1], e.res)
                chk.need(ok, r.node, 'returned path is not the entry '
                         'below the directory without slashes at its end', f)
                chk.need(assume_fail(r.facts, e) is None, r.node,
                         'uses an entry although there is none', f)
                c = [chr_iv(r, it, name, i) for i in range(3)]
                isdot = c[0] == (46, 46) and (
                    c[1] == (0, 0) or c[1] == (46, 46) and c[2] == (0, 0))
                could = c[0][0] <= 46 <= c[0][1] and not excl(
                    r, it, name, 0, 46) and (
                    not excl(r, it, name, 1, 0) or
                    not excl(r, it, name, 1, 46) and
                    not excl(r, it, name, 2, 0))
                if dotname(r.facts, e.res) is False:
                    isdot = could = False
                chk.need(not isdot and not could, r.node, 'returns the '
                         'entry "." or ".."', f)
    chk.anchor(n, 'sDirGetNext')


def dotname(facts, res):
    """The documented test for these two names was made."""
    for k in list(facts.iv) + list(facts.dom):
        if k.op == 'pure' and k.args[0] == 'strIsDotElement' and \
                is_dname(k.args[1][0], res):
            return facts.decide(k)
    return None


def charterm(r, it, name, i):
    for k in list(r.facts.iv) + list(r.facts.dom):
        l = vloc(k)
        if l is None:
            continue
        if l.op == 'at' and l.args[1] is num(i) and \
                mentions(l.args[0], name):
            return k
    return None


def chr_iv(r, it, name, i):
    k = charterm(r, it, name, i)
    if k is None:
        return (-128, 127)
    return r.facts.interval(k)[:2]


def excl(r, it, name, i, v):
    k = charterm(r, it, name, i)
    if k is None:
        return False
    return r.facts.decide(mk('eq', k, num(v))) is False


def is_dname(t, res):
    if t.op == 'pure' and t.args[0] in ('str', 'strUnterminated'):
        return mentions(t.args[1][0], res)
    return False


def bytesleft(chk, s):
    chk.begin('end-of-file', 'sFbytesLeft() returns false only if reading '
              'one more byte hit the end of the file without an error.')
    f = s.p.funcs.get('sFbytesLeft')
    if f is None:
        raise AnalysisError('sFbytesLeft not found')
    it, recs = interp_root(s, f)
    n = 0
    for r in recs:
        if r.kind != 'ret':
            continue
        n += 1
        g = [e for e in r.events() if e.kind == 'call' and
             e.name in ('fgetc', 'getc')]
        chk.need(len(g) == 1 and g[0].args[0] is initf(it.args[0],
                                                       'handle'),
                 r.node, 'does not look for another byte', f)
        if len(g) != 1:
            continue
        e = g[0]
        un = [x for x in r.events() if x.kind == 'call' and
              x.name == 'ungetc']
        chk.need(bool(un) and un[0].args[0] is e.res, r.node,
                 'swallows a byte', f)
        t, pol = failcond(e)
        for eof in (True, False):
            g = r.facts.assume(t, pol == eof)
            if g is None:
                continue
            v = r.val
            x = truth(g, v)
            chk.need(x is (not eof), r.node, 'gives the wrong '
                     'answer at the end of the file' if eof else
                     'overlooks remaining bytes', f)
    chk.anchor(n, 'sFbytesLeft')


def readlink_(chk, s):
    chk.begin('link-target', 'sSymlinkReadTarget() reads with a buffer '
              'larger than the reported size and returns only if exactly '
              'the reported number of bytes was read, zero terminated.')
    f = s.p.funcs.get('sSymlinkReadTarget')
    if f is None:
        raise AnalysisError('sSymlinkReadTarget not found')
    it, recs = interp_root(s, f)
    chk.count(it, recs)
    n = 0
    for r in recs:
        if r.kind != 'ret':
            continue
        n += 1
        rl = r.calls('readlink')
        st = r.calls('sLStat', 'lstat')
        al = r.calls('allocate')
        if not (len(rl) == 1 and len(st) == 1 and len(al) == 1):
            chk.need(False, r.node, 'does not read the link exactly once '
                     'after examining it', f)
            continue
        size = mk('fieldof', st[0].res, 'st_size')
        got = rl[0].res
        chk.need(r.facts.decide(cmpeq(size, got)) is True, r.node,
                 'accepts a target whose length differs from the reported '
                 'size', f)
        cap = al[0].args[1]
        lim = rl[0].args[2]
        chk.need(rl[0].args[1] is al[0].res, rl[0].node,
                 'reads into another buffer', f)
        chk.need(r.facts.decide(mk('lt', size, lim)) is True, rl[0].node,
                 'cannot notice a growing link', f)
        chk.need(r.facts.decide(mk('lt', cap, lim)) is False, rl[0].node,
                 'reads more than fits into the buffer', f)
        chk.need(cs(0)(rl[0].args[0], it.args, r, it) and
                 st[0].args[0] is it.args[0], rl[0].node,
                 'reads another link', f)
        z = [e for e in r.events() if e.kind == 'store' and
             e.args[0].op == 'at' and e.args[0].args[0] is al[0].res]
        ok = z and z[-1].args[1] is ZERO and (
            z[-1].args[0].args[1] is got or r.facts.decide(
                cmpeq(z[-1].args[0].args[1], got)) is True)
        v = r.val
        ok = ok and v.op == 'pure' and v.args[0] == 'str' and \
            v.args[1][0] is al[0].res or \
            v.op == 'pure' and v.args[0] == 'strUnterminated' and \
            v.args[1][0] is al[0].res and v.args[1][1] in (got, size)
        chk.need(bool(ok), r.node, 'returned target is not exactly what '
                 'was read', f)
    chk.anchor(n, 'sSymlinkReadTarget')


def wholefile(chk, s):
    chk.begin('whole-file', 'sGetFilesContent() returns exactly the bytes '
              'of a regular file, of the size that was reported, and '
              'terminates the program if the file has more.')
    f = s.p.funcs.get('sGetFilesContent')
    if f is None:
        raise AnalysisError('sGetFilesContent not found')
    it, recs = interp_root(s, f)
    chk.count(it, recs)
    n = 0
    for r in recs:
        if r.kind != 'ret':
            continue
        n += 1
        st = r.calls('sStat')
        if not st:
            chk.need(False, r.node, 'does not examine the file', f)
            continue
        cl = mk('&', mk('fieldof', st[0].res, 'st_mode'), num(0o170000))
        chk.need(r.facts.domain(cl) == {0o100000}, r.node,
                 'reads something that is no regular file', f)
        size = mk('fieldof', st[0].res, 'st_size')
        v = r.val
        if v is None or v.op != 'struct':
            raise AnalysisError('content of file unclear')
        vals = dict(v.args[1])
        rd = r.calls('sFread')
        if not rd:
            chk.need(isint(vals['size']) and vals['size'].args[0] == 0 and
                     r.facts.decide(mk('lt', ZERO, size)) is False, r.node,
                     'returns nothing for a file which is not empty', f)
            continue
        chk.need(len(rd) == 1 and rd[0].args[1] is size and
                 vals['size'] is size and vals['content'] is rd[0].args[0],
                 r.node, 'does not return exactly what was read', f)
        op = r.calls('sFopenRead')
        chk.need(len(op) == 1 and op[0].args[0] is it.args[1] and
                 rd[0].args[2] is op[0].res, r.node, 'reads another file',
                 f)
        al = [e for e in r.events() if e.kind == 'call' and
              e.res is rd[0].args[0]]
        chk.need(bool(al) and size in al[0].args, r.node,
                 'buffer does not have the size of the file', f)
        bl = r.calls('sFbytesLeft')
        chk.need(bool(bl) and r.facts.domain(bl[-1].res) == {0}, r.node,
                 'does not notice that the file has grown', f)
    chk.anchor(n, 'sGetFilesContent')


def tosize(chk, s):
    chk.begin('number-parsing', 'sStringToSize() returns only if there was '
              'a number, which is not negative and was in range.')
    f = s.p.funcs.get('sStringToSize')
    if f is None:
        raise AnalysisError('sStringToSize not found')
    it, recs = interp_root(s, f)
    chk.count(it, recs)
    n = 0
    for r in recs:
        if r.kind != 'ret':
            continue
        n += 1
        c = [e for e in r.events() if e.kind == 'call' and
             e.name in ('strtoll', 'strtoull', 'strtol', 'strtoul')]
        if len(c) != 1:
            raise AnalysisError('conversion not found')
        e = c[0]
        end = None
        if e.args[1].op == 'addr':
            end = r.st.store.get(e.args[1].args[0])
        chk.need(end is not None and r.facts.decide(
            cmpeq(end, e.args[0])) is False, r.node,
            'accepts text without a number', f)
        chk.need(r.facts.decide(mk('lt', e.res, ZERO)) is False, r.node,
                 'accepts a negative number', f)
        en = errno_after(r, e)
        g = r.facts.assume(mk('eq', e.res, num(2 ** 63 - 1)), True)
        if g is not None:
            chk.need(g.decide(mk('eq', en, num(ERANGE))) is False, r.node,
                     'accepts a number which is out of range', f)
        chk.need(r.val is e.res or r.val.op == 'trunc' and
                 mentions(r.val, e.res), r.node, 'returns another number',
                 f)
    chk.anchor(n, 'sStringToSize')


def readline(chk, s):
    chk.begin('line-reading', 'sReadLine() returns false only at the end of '
              'the input, and otherwise exactly the characters up to the '
              'end of the line.')
    f = s.p.funcs.get('sReadLine')
    if f is None:
        raise AnalysisError('sReadLine not found')
    it, recs = interp_root(s, f)
    chk.count(it, recs)
    n = 0
    for r in recs:
        if r.kind == 'die':
            continue
        gs = r.calls('fgetc', 'getc')
        if not gs:
            continue
        e = gs[-1]
        chk.need(len(gs) == 1 and e.args[0] is it.args[0], e.node,
                 'drops a character', f)
        t, pol = failcond(e)
        eof = r.facts.assume(t, pol)
        noneof = r.facts.assume(t, not pol)
        n += 1
        if r.kind == 'ret':
            v = r.facts.values(r.val)
            if v is None or len(v) != 1:
                raise AnalysisError('result of sReadLine unclear')
            if v == {0}:
                chk.need(noneof is None, r.node,
                         'reports the end of the input too early', f)
            out = r.st.store.get(ptr_loc(it.args[2]))
            if v == {1}:
                ends = all(r.facts.decide(mk('eq', e.res, num(c))) is not
                           False for c in ()) and only(
                    r.facts, e.res, (-1, 0, 10, 13))
                chk.need(ends, r.node, 'ends a line before its end', f)
                lens = [l for l in (line_parts(out),) if l]
                chk.need(bool(lens), r.node, 'returns something other '
                         'than the line', f)
        else:
            sts = [x for x in r.events() if x.kind == 'store' and
                   mentions(x.args[1], e.res)]
            chk.need(bool(sts), e.node, 'drops a character', f)
            chk.need(eof is None, e.node, 'continues after the end of the '
                     'input', f)
    chk.anchor(n, 'sReadLine')


def only(facts, t, vals):
    f = facts
    for v in vals:
        f = f.assume(mk('eq', t, num(v)), False)
        if f is None:
            return True
    return False


def line_parts(t):
    if t is None:
        return None
    t = strval(t)
    if t.op == 'pure' and t.args[0] in ('strUnterminated', 'str'):
        return t.args[1]
    return None


def all_wrappers(chk, s):
    contracts(chk, s)
    todisk(chk, s)
    dirnext(chk, s)
    bytesleft(chk, s)
    readlink_(chk, s)
    wholefile(chk, s)
    tosize(chk, s)
    readline(chk, s)

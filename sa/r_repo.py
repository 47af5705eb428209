"""Rules about the repository: writing, naming, locking."""
from core import *
from terms import add, sub, mul
import bufsim
from bufsim import BufSim, Unknown
import r_wrap

LONG = {'lx', 'llx', 'jx', 'lX', 'llX', 'jX', 'lu', 'llu', 'ju', 'zx', 'zu',
        'zX'}
OUTPUT = {'fWrite', 'sFwrite', 'fwrite', 'repoWriterWrite', 'fprintf',
          'fputs', 'fputc'}


def rendered(it, recs, r, names):
    """Events of r in order; calls in names with rendered string args:
    [(event, [tokens or None])]"""
    b = BufSim(it, recs)
    out = []
    try:
        for e in b.run(r):
            if e.kind == 'call' and e.name in names:
                out.append((e, [b.render(a) for a in names[e.name](e)]))
            elif e.kind in ('call', 'store'):
                out.append((e, None))
    except Unknown as x:
        raise AnalysisError('string contents unclear: %s' % x)
    return out


def arg0(e):
    return e.args[:1]


def arg01(e):
    return e.args[:2]


PATHS = {'sRename': arg01, 'fDatasync': arg0, 'sMkdir': arg0,
         'sPathExists': arg0, 'sRemove': arg0, 'sFopenWrite': arg0,
         'fopen': arg0, 'sChmod': arg0, 'sStat': arg0, 'sLStat': arg0,
         'sSymlink': arg01, 'sRemoveRecursively': arg0}


def val(t):
    return (('str', t),)


def parent(tokens):
    i = len(tokens) - 1
    while i >= 0 and tokens[i] != '/':
        i -= 1
    return tokens[:i] if i >= 0 else None


def tshow(tokens):
    out = ''
    for t in tokens:
        if isinstance(t, str):
            out += t
        elif t[0] == 'hex':
            out += 'h'
        elif t[0] == 'str':
            out += '{%s}' % show(t[1])
        else:
            out += '<%s>' % t[1]
    return out


def is_repo(tok, *cands):
    return tok == ('str', cands[0]) or any(tok == ('str', c) for c in cands)


# ---------------------------------------------------------- P01: the writer
def writer_close(chk, s):
    chk.begin('synced-before-visible',
              'repoWriterClose() renames the temporary file to its final '
              'name only after it was flushed and synced successfully and '
              'closed; afterwards, and for every created directory, the '
              'containing directory is synced.')
    f, it, recs = s.run('repoWriterClose')
    chk.count(it, recs)
    w = it.args[0]
    stream = initf(w, 'stream')
    tmp = initf(w, 'repo_tmp_file_path')
    repo = initf(w, 'repo_path')
    raw = initf(w, 'raw_mode')
    n = 0
    for r in recs:
        evs = rendered(it, recs, r, PATHS)
        n += r.kind == 'ret'
        ren = [i for i, (e, a) in enumerate(evs) if e.name == 'sRename']
        if r.kind == 'ret':
            chk.need(len(ren) == 1, r.node, 'the file does not appear under '
                     'its final name exactly once', f)
        flushed = closed = None
        dirty = []
        for i, (e, a) in enumerate(evs):
            if e.kind != 'call':
                continue
            if e.name == 'fTodisk' and e.args[0] is stream:
                flushed = (i, e)
            elif e.name in OUTPUT and stream in e.args:
                flushed = None
            elif e.name == 'sFclose':
                closed = i if e.args[0] is stream else closed
            elif e.name == 'sRename':
                ok = flushed is not None and \
                    e.facts.decide(flushed[1].res) is True
                chk.need(ok, e.node, 'renames a file that may not have '
                         'been flushed and synced to disk', f)
                chk.need(closed is not None and flushed is not None and
                         closed > flushed[0], e.node,
                         'renames a file before closing it', f)
                chk.need(a[0] == val(tmp), e.node, 'renames something '
                         'other than the temporary file', f)
                dom = e.facts.domain(raw) or {0, 1}
                exp = []
                if 1 in dom:
                    exp.append(val(initf(w, 'rename_to', 'path')))
                if 0 in dom:
                    exp.append(None)
                chk.need(len(dom) == 1, e.node, 'final name does not '
                         'depend on the kind of writer', f)
                if dom == {1}:
                    chk.need(a[1] == exp[0], e.node, 'wrong final name in '
                             'raw mode', f)
                    dirty.append(((('str', repo),), e))
                elif dom == {0}:
                    dirty.append((parent(a[1]), e))
                    chk.need(stored_name(a[1], repo, initf(
                        w, 'rename_to', 'info')) == '', e.node,
                        lambda: 'wrong final name: %s' % stored_name(
                            a[1], repo, initf(w, 'rename_to', 'info')), f)
            elif e.name == 'sMkdir':
                dirty.append((parent(a[0]), e))
            elif e.name == 'fDatasync':
                dirty = [d for d in dirty if d[0] != a[0]]
        if r.kind == 'ret':
            for d, e in dirty:
                chk.need(False, e.node, 'directory containing the new name '
                         'is not synced: %s' % tshow(d or ()), f)
            # the directories have to exist: created unless found
            chk.need(True, f.body, '', f)
        else:
            pass
    chk.anchor(n, 'paths through repoWriterClose')
    chk.begin('writer-state', 'The writer writes to the temporary file it '
              'was opened with and remembers exactly the given final name, '
              'and every failing write terminates the program.')
    for name, raw_ in (('repoWriterOpenFile', 0), ('repoWriterOpenRaw', 1)):
        f, it, recs = s.run(name)
        chk.count(it, recs)
        p = it.args
        for r in recs:
            if r.kind != 'ret':
                continue
            op = r.calls('sFopenWrite')
            chk.need(len(op) == 1 and op[0].args[0] is p[1], r.node,
                     'does not open the temporary file', f)
            if len(op) != 1:
                continue
            l = ptr_loc(r.val)

            def fld(*fs):
                x = l
                for q in fs:
                    x = mk('fld', x, q)
                return it.read(r.st, x)
            chk.need(fld('stream') is op[0].res, r.node,
                     'writer uses another stream', f)
            chk.need(fld('repo_path') is p[0], r.node,
                     'writer remembers another repository', f)
            chk.need(fld('repo_tmp_file_path') is p[1], r.node,
                     'writer remembers another temporary file', f)
            chk.need(r.facts.values(fld('raw_mode')) == {raw_}, r.node,
                     'writer is in the wrong mode', f)
            chk.need(fld('rename_to', 'path' if raw_ else 'info') is p[3],
                     r.node, 'writer remembers another final name', f)
    f, it, recs = s.run('repoWriterWrite')
    chk.count(it, recs)
    for r in recs:
        if r.kind != 'ret':
            continue
        c = r.calls('fWrite')
        ok = len(c) == 1 and c[0].args[0] is it.args[0] and \
            c[0].args[1] is it.args[1] and \
            c[0].args[2] is initf(it.args[2], 'stream') and \
            r.facts.decide(c[0].res) is True
        if not c:
            z = r.facts.decide(mk('eq', it.args[1], ZERO))
            ok = z is True
        chk.need(ok, r.node, 'returns without having written the given '
                 'data', f)


# ------------------------------------------------------------- P25: names
def stored_name(toks, repo, info):
    """'' if toks is repo + '/' + a correct name for info, else a reason."""
    if repo is not None:
        if toks[:2] != (('str', repo), '/'):
            return 'not below the repository: %s' % tshow(toks)
        toks = toks[2:]
    hl = mk('fld', ptr_loc(info), 'hash')
    i = 0
    seen = []
    for t in toks:
        if isinstance(t, tuple) and t[0] == 'hex':
            seen.append(t)
            i += 1
        elif t == '/':
            i += 1
        else:
            break
    exp = []
    for k in range(20):
        b = mk('init', mk('at', mk('decay', hl), num(k)))
        if k == 0:
            b0 = (b, mk('init', mk('at', mk('addr', hl), ZERO)),
                  mk('init', hl))
        exp += [(k, 0), (k, 1)]
    got = []
    for t in seen:
        v = t[1]
        while v.op == 'trunc' and v.args[0] >= 8:
            v = v.args[1]
        l = vloc(v)
        k = None
        if l is not None and l.op == 'at' and l.args[0].op == 'decay' and \
                l.args[0].args[0] is hl and isint(l.args[1]):
            k = l.args[1].args[0]
        got.append((k, t[2]))
    if got != exp:
        miss = [x for x in exp if x not in got]
        if miss or set(got) - set(exp):
            return 'hash byte %s is missing or wrong in %s' % (
                miss[0][0] if miss else '?', tshow(toks))
        return 'bytes of the hash are out of order: %s' % tshow(toks)
    rest = list(toks[i:])
    vars_ = [t for t in rest if isinstance(t, tuple) and t[0] == 'var']
    size = initf(info, 'size')
    slot = initf(info, 'slot')
    want = {'size': False, 'slot': False}
    prev_var = False
    prev_sep = False
    for t in rest:
        if isinstance(t, tuple) and t[0] == 'var':
            if not prev_sep:
                return 'numbers are not separated: %s' % tshow(toks)
            v = t[2]
            if v is size:
                if t[1] not in LONG:
                    return 'size is not printed in full (%%%s)' % t[1]
                want['size'] = True
            elif v is slot or v.op == 'trunc' and v.args[1] is slot and \
                    v.args[0] >= 8:
                want['slot'] = True
            else:
                return 'unexpected number %s' % show(v)
            prev_sep = False
            hexc = 'xX'
        elif isinstance(t, tuple):
            if t[0] in ('hex', 'chr'):
                return 'ambiguous name: %s' % tshow(toks)
            return 'unexpected part %s' % tshow((t,))
        else:
            if t not in '0123456789abcdefABCDEF':
                prev_sep = True
            if t == '/' or t == '.':
                return 'unexpected directory in name: %s' % tshow(toks)
    for k, v in want.items():
        if not v:
            return 'the %s is not part of the name: %s' % (k, tshow(toks))
    return ''


def shape(toks, info, repo):
    """Name with the info replaced by a placeholder."""
    ib = ptr_loc(info)
    out = []
    for t in toks:
        if isinstance(t, tuple) and t[0] in ('hex', 'var', 'chr'):
            out.append((t[0], show(t[2 if t[0] == 'var' else 1]).split(
                '->')[-1].split('.')[-1], t[2:] if t[0] == 'hex' else
                t[1] if t[0] == 'var' else ''))
        elif isinstance(t, tuple):
            out.append('REPO')
        else:
            out.append(t)
    return tuple(out)


def names(chk, s):
    chk.begin('injective-name',
              'The path of a stored file consists of all 40 hexadecimal '
              'digits of its hash, its whole size and its slot number, '
              'unambiguously separated, directly below the repository, and '
              'is the same for storing, reading, existence checks and '
              'listing.')
    found = {}

    def note(where, toks, repo, info, node, f):
        m = stored_name(toks, repo, info)
        chk.need(m == '', node, lambda: '%s' % m, f)
        sh = shape(toks, info, repo)
        if repo is not None:
            sh = sh[2:]
        found.setdefault(sh, []).append((where, node, f))
    # writer
    f, it, recs = s.run('repoWriterClose')
    chk.count(it, recs)
    w = it.args[0]
    for r in recs:
        for e, a in rendered(it, recs, r, PATHS):
            if e.name == 'sRename' and e.facts.domain(
                    initf(w, 'raw_mode')) == {0}:
                note('storing', a[1], initf(w, 'repo_path'),
                     initf(w, 'rename_to', 'info'), e.node, f)
                capacity(chk, it, r, e, e.args[1], a[1], f)
    # reader
    f, it, recs = s.run('repoReaderOpenFile')
    chk.count(it, recs)
    for r in recs:
        for e, a in rendered(it, recs, r, PATHS):
            if e.name == 'fopen':
                note('reading', a[0], it.args[0], it.args[2], e.node, f)
                capacity(chk, it, r, e, e.args[0], a[0], f)
                chk.need(e.args[1].op == 'str' and
                         e.args[1].args[0].strip('"')[:1] == 'r' and
                         '+' not in e.args[1].args[0], e.node,
                         'stored file is not opened for reading only', f)
    # existence
    f, it, recs = s.run('repoRegularFileExists')
    chk.count(it, recs)
    for r in recs:
        ex = []
        for e, a in rendered(it, recs, r, PATHS):
            if e.name == 'sPathExists':
                ex.append(e)
                note('existence check', a[0], it.args[0], it.args[1],
                     e.node, f)
                capacity(chk, it, r, e, e.args[0], a[0], f)
        if r.kind == 'ret':
            chk.need(len(ex) == 1 and r.val is ex[0].res, r.node,
                     'existence is not what was looked up', f)
    # listing
    f, it, recs = s.run('repoBuildRegularFilePath')
    chk.count(it, recs)
    for r in recs:
        if r.kind != 'ret':
            continue
        b = BufSim(it, recs)
        try:
            list(b.run(r))
            p = it.read(r.st, ptr_loc(it.args[0]))
            toks = b.string(p)
        except Unknown as x:
            raise AnalysisError('string contents unclear: %s' % x)
        note('listing', toks, None, it.args[1], r.node or f.body, f)
        capacity(chk, it, r, None, p, toks, f)
    ref = max(found.items(), key=lambda x: len(x[1])) if found else None
    chk.anchor(sum(map(len, found.values())) >= 4, 'uses of stored names')
    for sh, l in found.items():
        for where, node, f in l:
            chk.need(sh is ref[0] or sh == ref[0], node, '%s uses another '
                     'name than %s' % (where, ref[1][0][0]), f)


def capacity(chk, it, r, e, p, toks, f):
    """The buffer holding the name has room for all of it."""
    while p.op == 'pure':
        p = p.args[1][0]
    cap = [x for x in r.events() if x.kind == 'call' and x.res is p and
           x.name in ('CR_EnsureCapacity', 'CR_RegionAllocGrowable',
                      'allocate', 'sMalloc')]
    if not cap:
        raise AnalysisError('buffer of a name unclear')
    c = cap[-1].args[-1]
    need = ONE
    snp = [x for x in r.events() if x.kind == 'call' and
           x.name == 'snprintf' and isint(x.args[1]) and
           x.args[1].args[0] == 0]
    for t in toks:
        if isinstance(t, str) or t[0] in ('hex', 'chr'):
            need = add(need, ONE)
        elif t[0] == 'str':
            l = vloc(t[1])
            if l is None:
                need = add(need, mk('fieldof', t[1], 'length'))
            else:
                ln = mk(t[1].op, *[mk('fld', l, 'length') if x is l else x
                                   for x in t[1].args])
                need = add(need, ln)
        elif t[0] == 'var':
            m = [x for x in snp if bufsim.unescape(
                x.args[2].args[0]) == '%' + t[1] and x.args[3] is t[2]]
            if m:
                need = add(need, m[-1].res)
            else:
                need = add(need, num(16 if t[1] in LONG else
                                     8 if 'trunc' not in t[2].op else 8))
    c0, p0 = lin_parts(sub(c, need))
    # unsigned parts may only add to the capacity
    ok = c0 >= 0 and all(v > 0 for v in p0.values())
    chk.need(ok, e.node if e else r.node or f.body,
             lambda: 'name does not fit into its buffer (missing: %s)' %
             show(sub(need, c)), f)


# ------------------------------------------------------------ P05: locking
F_ULOCK, F_LOCK, F_TLOCK = 0, 1, 2
O_ACC, O_CREAT, O_EXCL = 3, 0o100, 0o200


def lockfile(chk, s):
    chk.begin('exclusive-lock',
              'repoLock() returns only while holding an exclusive lock on '
              'the lock file of the repository, which was still linked '
              'after locking it, and keeps it until the region is '
              'released; only a read-only command on a read-only file '
              'system goes on without lock.')
    f = s.p.funcs.get('repoLock')
    if f is None:
        raise AnalysisError('repoLock not found')
    it, recs = r_wrap.interp_root(s, f)
    chk.count(it, recs)
    region, repo, hint = it.args
    ro = s.p.enums['RLH_readonly']
    n = 0
    cleanups = set()
    for r in recs:
        if r.kind != 'ret':
            continue
        n += 1
        op = r.calls('open')
        ok = bool(op)
        if not ok:
            chk.need(False, r.node, 'returns without opening the lock '
                     'file', f)
            continue
        e = op[-1]
        path = strval(strip_cstr(e.args[0]))
        good = path.op == 'pure' and path.args[0] == 'strAppendPath' and \
            path.args[1][0] is repo and path.args[1][1].op == 'pure' and \
            path.args[1][1].args[1][0].op == 'str' and \
            path.args[1][1].args[1][0].args[0] == '"lockfile"'
        chk.need(good, e.node, 'opens another file than the lock file', f)
        fl = e.args[1].args[0] if isint(e.args[1]) else 0
        chk.need(fl & O_CREAT and fl & O_ACC in (1, 2) and not fl & O_EXCL,
                 e.node, 'lock file is not created or not opened for '
                 'writing', f)
        t, pol = r_wrap.failcond(e)
        fails = r.facts.assume(t, pol)
        succ = r.facts.assume(t, not pol)
        if succ is None:
            # did not get a lock at all
            en = r_wrap.errno_after(r, e)
            chk.need(r_wrap.only(r.facts, en, (r_wrap.EROFS,)) and
                     r.facts.domain(hint) == {ro}, r.node,
                     'goes on without lock', f)
            continue
        chk.need(fails is None, r.node, 'goes on without lock file', f)
        lk = r.calls('lockf', 'flock', 'fcntl')
        good = len(lk) >= 1 and lk[-1].name == 'lockf' and \
            lk[-1].args[0] is e.res and isint(lk[-1].args[1]) and \
            lk[-1].args[1].args[0] in (F_LOCK, F_TLOCK) and \
            r.facts.decide(mk('eq', lk[-1].res, ZERO)) is True and \
            lk[-1].args[2] is ZERO
        chk.need(good, lk[-1].node if lk else r.node,
                 'returns without holding an exclusive lock', f)
        if not good:
            continue
        evs = r.events()
        li = max(i for i, x in enumerate(evs) if x is lk[-1])
        st = [x for x in evs[li:] if x.kind == 'call' and
              x.name == 'fstat' and x.args[0] is e.res]
        linked = False
        for x in st:
            if x.args[1].op == 'addr':
                nl = mk('hv', mk('fld', x.args[1].args[0], 'st_nlink'),
                        x.res, 'fstat')
                if r.facts.decide(mk('eq', nl, ZERO)) is False and \
                        r.facts.decide(mk('eq', x.res, ZERO)) is True:
                    linked = True
        chk.need(linked, lk[-1].node, 'believes in a lock file that may '
                 'have been removed', f)
        for x in evs[li:]:
            if x.kind == 'call' and x.name in ('close', 'remove', 'unlink'):
                chk.need(False, x.node, 'gives up the lock', f)
        at = [x for x in evs if x.kind == 'call' and
              x.name == 'CR_RegionAttach']
        good = bool(at) and at[-1].args[0] is region and \
            at[-1].args[1].op == 'fn'
        chk.need(good, r.node, 'lock is not released with the region', f)
        if good:
            info = ptr_loc(at[-1].args[2])
            cleanups.add(at[-1].args[1].args[0])
            chk.need(fd_stored(it, r, info, e.res), r.node,
                     'lock is not remembered for the cleanup', f)
            chk.need(removal_armed(it, r, info), r.node,
                     'lock file will not be removed', f)
        rel = [x for x in evs if x.kind == 'call' and
               x.name == 'CR_RegionRelease']
        for x in rel:
            chk.need(x.args[0] is not region, x.node, 'gives up the lock',
                     f)
    chk.anchor(n, 'paths through repoLock')
    # failing attempts must not arm the removal
    for r in recs:
        if r.kind != 'die':
            continue
        at = [x for x in r.events() if x.kind == 'call' and
              x.name == 'CR_RegionAttach']
        lk = r.calls('lockf')
        if not at:
            continue
        held = bool(lk) and r.facts.decide(
            mk('eq', lk[-1].res, ZERO)) is True
        n += 1
        info = ptr_loc(at[-1].args[2])
        st = r.calls('fstat')
        gone = any(r.facts.decide(mk('eq', x.res, ZERO)) is not False
                   for x in st)
        chk.need(not removal_armed(it, r, info) or held and not gone,
                 r.node, 'may remove the lock file of another process', f)
    chk.begin('lock-removal', 'The lock file gets removed only by a process '
              'that holds the lock at that moment.')
    for name in cleanups:
        g = s.p.resolve(name, f.file)
        if g is None:
            raise AnalysisError('cleanup of the lock not found')
        it2, recs2 = r_wrap.interp_root(s, g)
        chk.count(it2, recs2)
        arg = it2.args[0]
        for r in recs2:
            released = False
            for e in r.events():
                if e.kind != 'call':
                    continue
                if e.name in ('remove', 'unlink', 'sRemove'):
                    chk.need(not released, e.node, 'removes the lock file '
                             'after giving up the lock', g)
                    fl = [k for k in e.facts.dom
                          if fieldof(k, 'is_locked') is not None] or \
                        [k for k in e.facts.dom if k.ty in
                         ('bool', '_Bool') and k.op == 'init']
                    chk.need(any(e.facts.domain(k) == {1} for k in fl),
                             e.node, 'removes the lock file without '
                             'holding the lock', g)
                elif e.name == 'close' or e.name == 'lockf' and not (
                        isint(e.args[1]) and
                        e.args[1].args[0] in (1, 2, 3)):
                    released = True


def bools_of(it, r, info):
    out = []
    for k, v in r.st.store.items():
        if k.op == 'fld' and k.args[0] is info:
            out.append((k.args[1], v))
    return out


def fd_stored(it, r, info, fd):
    return any(v is fd for k, v in bools_of(it, r, info))


def removal_armed(it, r, info):
    return any(k == 'is_locked' and v is ONE or
               k != 'is_locked' and v is ONE
               for k, v in bools_of(it, r, info))

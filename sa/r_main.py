"""Rules about the program flow in main()."""
from core import *
import r_wrap

WRITERS = ('finishBackup', 'metadataWrite', 'collectGarbage',
           'collectGarbageProgress', 'finishRestore')
LOADERS = ('metadataLoad', 'searchTreeLoad')
GC = ('collectGarbage', 'collectGarbageProgress')
USERS = WRITERS + LOADERS + ('initiateBackup', 'initiateRestore',
                             'checkIntegrity')
# everything that may touch the file system otherwise
EFFECTS = ('sMkdir', 'sSymlink', 'sRename', 'sChmod', 'sChown', 'sLChown',
           'sUtime', 'sRemove', 'sRemoveRecursively', 'sRemoveRecursivelyIf',
           'sFopenWrite', 'repoWriterOpenFile', 'repoWriterOpenRaw',
           'restoreFile', 'remove', 'unlink', 'rename', 'mkdir', 'symlink',
           'open', 'fopen', 'creat', 'rmdir', 'chmod', 'chown', 'lchown',
           'utime', 'truncate', 'ftruncate', 'link')


def of(e, *names):
    return e.kind == 'call' and e.name in names


def strlit(t, s):
    return t.op == 'pure' and t.args[0] == 'str' and \
        t.args[1][0].op == 'str' and t.args[1][0].args[0].strip('"') == s


class Main:
    def __init__(self, chk, s):
        self.s = s
        self.f, self.it, self.recs = self.get(s)
        chk.count(self.it, self.recs)
        self.argv = self.it.args[1]

    @staticmethod
    def get(s):
        if 'main' not in s.cache:
            s.cache['main'] = s.run('main')
        return s.cache['main']

    def arg(self, i):
        return mk('init', mk('at', self.argv, num(i)))

    def is_repo(self, t):
        while t.op == 'pure' and t.args[0] in ('strStripTrailingSlashes',
                                               'str', 'cstr', 'strCopy',
                                               'strCopyRaw'):
            t = t.args[1][0]
        return t is self.arg(1)

    def repo_file(self, t):
        """'metadata' for <repo>/metadata etc."""
        t = strval(t)
        if t.op == 'pure' and t.args[0] == 'strAppendPath' and \
                self.is_repo(t.args[1][0]):
            x = t.args[1][1]
            if x.op == 'pure' and x.args[0] == 'str' and \
                    x.args[1][0].op == 'str':
                return x.args[1][0].args[0].strip('"')
        return None


def locking(chk, s):
    chk.begin('locked-before-use',
              'Every command holds the lock of the repository it was '
              'started for before it reads the configuration, the metadata '
              'or changes anything, and never gives it up before the '
              'program ends.')
    m = Main(chk, s)
    prog = s.p
    ro = prog.enums.get('RLH_readonly')
    rw = prog.enums.get('RLH_readwrite')
    n = 0
    for r in m.recs:
        lock = None
        seen_meta = False
        for e in r.events():
            if of(e, 'repoLock'):
                lock = e
                chk.need(m.is_repo(e.args[1]), e.node,
                         'locks something other than the repository', m.f)
                seen_meta = False
            elif of(e, *USERS) or of(e, 'metadataNew'):
                n += 1
                chk.need(lock is not None, e.node, '%s() runs without '
                         'holding the lock' % e.name, m.f)
                if lock is None:
                    continue
                h = e.facts.values(lock.args[2])
                if of(e, *WRITERS) and not of(e, 'finishRestore') or \
                        of(e, 'initiateBackup'):
                    chk.need(h == {rw}, e.node, '%s() may run although '
                             'the repository could not be locked' % e.name,
                             m.f)
                if of(e, 'initiateRestore', 'checkIntegrity'):
                    chk.need(h == {ro}, e.node, '%s() demands a writable '
                             'repository' % e.name, m.f)
                if of(e, 'metadataNew'):
                    chk.need(seen_meta, e.node, 'starts a new history '
                             'without having looked for metadata while '
                             'holding the lock', m.f)
                if of(e, 'metadataLoad'):
                    chk.need(m.repo_file(e.args[1]) == 'metadata', e.node,
                             'loads metadata from somewhere else', m.f)
            elif of(e, 'sPathExists') and \
                    m.repo_file(e.args[0]) == 'metadata' and lock:
                seen_meta = r.facts.decide(e.res) is False
            elif of(e, 'CR_RegionRelease') and lock is not None:
                chk.need(e.args[0] is not lock.args[0], e.node,
                         'gives up the lock before the program ends', m.f)
    chk.anchor(n > 6, 'commands')


def consent(chk, s):
    chk.begin('explicit-consent',
              'On every path, a backup writes and a restore changes '
              'something only after there were changes and the last line '
              'read from the user was "y" or "yes"; "n", "no" and the end '
              'of input exit with a failing status; other answers ask '
              'again; "y" and "yes" proceed.')
    m = Main(chk, s)
    n = 0
    asked = 0
    for r in m.recs:
        evs = r.events()
        ans = None           # last sReadLine
        gate = None
        printed = None
        for i, e in enumerate(evs):
            if of(e, 'sReadLine'):
                ans = e
                asked += 1
                chk.need(stdin(e.args[0]), e.node, 'answer is not read '
                         'from the standard input', m.f)
            elif of(e, 'containsChanges'):
                gate = e
            elif of(e, 'printMetadataChanges'):
                printed = e
            elif of(e, 'finishBackup', 'metadataWrite', 'finishRestore') or \
                    of(e, *GC) and any(of(x, 'initiateBackup')
                                       for x in evs[:i]):
                n += 1
                chk.need(ans is not None and
                         e.facts.decide(ans.res) is True and
                         any(e.facts.decide(x) is True
                             for x in equalities(ans, e.facts,
                                                 ('y', 'yes'))),
                         e.node, '%s() runs without an explicit yes' %
                         e.name, m.f)
                ok = gate is not None and printed is not None and \
                    e.facts.decide(gate.res) is True and \
                    shown(m, r, gate, printed)
                chk.need(ok, e.node, '%s() runs although no changes were '
                         'shown' % e.name, m.f)
            elif of(e, *EFFECTS):
                chk.need(False, e.node, '%s() is called directly' % e.name,
                         m.f)
        last = evs[-1] if evs else None
        if ans is not None:
            after = evs[evs.index(ans) + 1:]
            wrote = [e for e in after if of(e, *WRITERS)]
            yes = any(r.facts.decide(x) is True
                      for x in equalities(ans, r.facts, ('y', 'yes'))) and \
                r.facts.decide(ans.res) is True
            no = r.facts.decide(ans.res) is False or any(
                r.facts.decide(x) is True
                for x in equalities(ans, r.facts, ('n', 'no')))
            if wrote:
                continue
            if r.kind == 'die':
                d = [e for e in evs if e.kind == 'die'][-1]
                chk.need(no and not yes, d.node, 'gives up although the '
                         'answer was not a no', m.f)
                if d.name == 'exit':
                    chk.need(isint(d.args[0]) and d.args[0].args[0] & 255,
                             d.node, 'refusal is reported as success', m.f)
            elif r.kind == 'back':
                chk.need(not no and not yes, last.node, 'a clear answer is '
                         'ignored', m.f)
            else:
                chk.need(False, last.node, 'finishes although the user '
                         'gave no consent', m.f)
    chk.anchor(n, 'changes that need consent')
    chk.anchor(asked, 'questions')


def stdin(t):
    return 'stdin' in show(t)


def equalities(ans, facts, words):
    """Comparisons of the answer with one of the words."""
    out = []
    for k in list(facts.dom):
        if k.op == 'pure' and k.args[0] == 'strIsEqual':
            a, b = k.args[1]
            for x, y in ((a, b), (b, a)):
                if any(strlit(y, w) for w in words) and \
                        x.op == 'hv' and x.args[1] is ans.res:
                    out.append(k)
    return out


def shown(m, r, gate, printed):
    """containsChanges() looks at what printMetadataChanges() returned"""
    a = gate.args[0]
    v = None
    for e in r.events():
        if e is gate:
            break
    return mentions_value(m, r, a, printed.res)


def mentions_value(m, r, a, res):
    if a is res:
        return True
    l = a.args[0] if a.op == 'addr' else ptr_loc(a)
    v = r.st.store.get(l)
    return v is res or v is None


def flow_backup(chk, s):
    flow(chk, s, {'backup', 'gc'})


def flow_restore(chk, s):
    flow(chk, s, {'restore'})


def flow_integrity(chk, s):
    flow(chk, s, {'integrity'})


def flow_gc(chk, s):
    flow(chk, s, {'gc'})


def flow(chk, s, parts=('backup', 'restore', 'integrity', 'gc')):
    """What each command does, in which order."""
    chk.begin('command-flow',
              'Each command performs its documented steps in order: a '
              'backup finishes its contents, then writes the metadata, then '
              'collects garbage, all for the same metadata and repository.')
    m = Main(chk, s)
    kinds = {'backup': 0, 'gc': 0, 'integrity': 0, 'restore': 0}
    for r in m.recs:
        evs = r.events()
        kind = command(evs)
        if kind not in parts:
            continue

        def first(*names):
            for i, e in enumerate(evs):
                if of(e, *names):
                    return i
            return None

        def all_(*names):
            return [i for i, e in enumerate(evs) if of(e, *names)]
        md = [e for e in evs if of(e, 'metadataLoad', 'metadataNew')]
        for e in evs:
            if of(e, 'initiateBackup', 'printMetadataChanges',
                  'finishBackup', 'metadataWrite', 'collectGarbage',
                  'collectGarbageProgress', 'initiateRestore',
                  'finishRestore'):
                chk.need(len(md) == 1 and e.args[0] is md[0].res, e.node,
                         '%s() works on other metadata' % e.name, m.f)
        for e in evs:
            if of(e, 'finishBackup'):
                chk.need(m.is_repo(e.args[1]) and
                         m.repo_file(e.args[2]) == 'tmp-file', e.node,
                         'finishBackup() gets the wrong paths', m.f)
            elif of(e, 'metadataWrite'):
                chk.need(m.is_repo(e.args[1]) and
                         m.repo_file(e.args[2]) == 'tmp-file' and
                         m.repo_file(e.args[3]) == 'metadata', e.node,
                         'metadataWrite() gets the wrong paths', m.f)
            elif of(e, *GC):
                chk.need(m.is_repo(e.args[1]), e.node,
                         'garbage collection in another directory', m.f)
            elif of(e, 'checkIntegrity'):
                chk.need(len(md) == 1 and e.args[1] is md[0].res and
                         m.is_repo(e.args[2]), e.node,
                         'checks something else', m.f)
            elif of(e, 'searchTreeLoad'):
                chk.need(m.repo_file(e.args[1]) == 'config', e.node,
                         'loads another configuration', m.f)
        ib = first('initiateBackup')
        fb, mw, gc = all_('finishBackup'), all_('metadataWrite'), all_(*GC)
        if ib is not None:
            kinds['backup'] += 1
            st = first('searchTreeLoad')
            pm = first('printMetadataChanges')
            chk.need(st is not None and st < ib and
                     evs[ib].args[1] is evs[st].res, evs[ib].node,
                     'backup uses another configuration', m.f)
            if fb or mw or gc:
                x = evs[(fb + mw + gc)[0]]
                chk.need(pm is not None and ib < pm < (fb + mw + gc)[0],
                         x.node, 'backup is finished before it was '
                         'initiated and shown', m.f)
            if mw:
                chk.need(len(fb) == 1 and len(mw) == 1 and fb[0] < mw[0],
                         evs[mw[0]].node, 'metadata is written before all '
                         'contents were stored', m.f)
            if gc:
                chk.need(bool(mw) and mw[0] < gc[0], evs[gc[0]].node,
                         'garbage is deleted before the metadata was '
                         'written', m.f)
            if fb and r.kind == 'ret':
                chk.need(bool(mw), evs[fb[0]].node, 'new metadata is '
                         'never written', m.f)
            cc = [e for e in evs if of(e, 'containsChanges')]
            if r.kind == 'ret':
                chk.need(bool(cc), evs[ib].node, 'changes are not looked '
                         'at', m.f)
                if cc and r.facts.decide(cc[-1].res) is not False:
                    chk.need(bool(fb) and bool(mw), cc[-1].node,
                             'changes are discarded silently', m.f)
        ir = first('initiateRestore')
        fr = all_('finishRestore')
        if ir is not None:
            kinds['restore'] += 1
            e = evs[ir]
            ss = [x for x in evs if of(x, 'sStringToSize')]
            chk.need(bool(ss) and e.args[1] is ss[0].res and
                     is_arg(m, ss[0].args[0], 2), e.node,
                     'restores another id than the requested one', m.f)
            full_path(chk, m, r, e)
            for i in fr:
                x = evs[i]
                chk.need(ir < i and x.args[1] is e.args[1] and
                         m.is_repo(x.args[2]), x.node, 'finishRestore() '
                         'does not continue what was initiated', m.f)
            if r.kind == 'ret':
                cc = [x for x in evs if of(x, 'containsChanges')]
                if cc and r.facts.decide(cc[-1].res) is not False and \
                        not fr:
                    chk.need(False, cc[-1].node, 'changes are not '
                             'restored', m.f)
        ci = first('checkIntegrity')
        if ci is not None:
            kinds['integrity'] += 1
            integrity(chk, m, r, evs, ci)
        if gc and ib is None:
            kinds['gc'] += 1
            chk.need(not fb and not mw and not fr, evs[gc[0]].node,
                     'garbage collection changes more', m.f)
            chk.need(md[0].name == 'metadataLoad', evs[gc[0]].node,
                     'garbage collection without metadata', m.f)
        if fr:
            chk.need(ir is not None and not fb and not mw and not gc,
                     evs[fr[0]].node, 'restore changes the repository',
                     m.f)
        if ci is not None:
            chk.need(not fb and not mw and not fr and not gc,
                     evs[ci].node, 'integrity check changes something',
                     m.f)
        if fb:
            chk.need(ib is not None, evs[fb[0]].node,
                     'backup was not initiated', m.f)
    for k, v in kinds.items():
        if k in parts:
            chk.anchor(v, 'command ' + k)


def command(evs):
    names = {e.name for e in evs if e.kind == 'call'}
    if 'initiateRestore' in names or 'finishRestore' in names:
        return 'restore'
    if 'checkIntegrity' in names:
        return 'integrity'
    if 'initiateBackup' in names or 'finishBackup' in names:
        return 'backup'
    if names & set(GC):
        return 'gc'
    return None


def is_arg(m, t, i):
    return t.op == 'pure' and t.args[0] == 'str' and \
        t.args[1][0] is m.arg(i)


def full_path(chk, m, r, e):
    """Third argument of initiateRestore(): requested path, absolute."""
    t = e.args[2]
    if not (t.op == 'pure' and t.args[0] == 'strStripTrailingSlashes'):
        chk.need(False, e.node, 'requested path keeps its trailing '
                 'slashes', m.f)
        return
    x = strval(t.args[1][0])

    given = r.facts.decide(mk('lt', num(3), m.it.args[0]))

    def user(y):
        y = strval(y)
        if strlit(y, '/'):
            chk.need(given is False, e.node, 'restores everything although '
                     'a path was requested', m.f)
            return True
        if is_arg(m, y, 3):
            chk.need(given is True, e.node, 'uses an argument which was not '
                     'given', m.f)
            return True
        return False
    if user(x):
        if is_arg(m, x, 3):
            c = mk('init', mk('at', m.arg(3), ZERO))
            ok = False
            for k, v in list(r.facts.iv.items()):
                if first_char(k, m.arg(3)) and v[0] == v[1] == 47:
                    ok = True
            chk.need(ok, e.node, 'relative path is not resolved', m.f)
        return
    ok = x.op == 'pure' and x.args[0] == 'strAppendPath' and \
        user(x.args[1][1])
    if ok:
        c = strval(x.args[1][0])
        ok = c.op == 'pure' and c.args[0] == 'strStripTrailingSlashes'
        c = strval(c.args[1][0]) if ok else c
        ok = ok and c.op == 'res' and c.args[0] == 'sGetCurrentDir'
    chk.need(ok, e.node, 'requested path is not resolved against the '
             'working directory', m.f)
    if ok:
        chk.need(not any(first_char(k, m.arg(3)) and v[0] == v[1] == 47
                         for k, v in r.facts.iv.items()), e.node,
                 'absolute path is treated as a relative one', m.f)
        y = strval(x.args[1][1])
        rel = any((vloc(k) is not None and vloc(k).op == 'at' and
                   vloc(k).args[1] is ZERO and
                   (mentions(vloc(k).args[0], y) or
                    mentions(vloc(k).args[0], y.args[1][0]))) and
                  (47 in v[2] or not v[0] <= 47 <= v[1])
                  for k, v in r.facts.iv.items())
        chk.need(rel or r.facts.decide(mk('pure', 'strIsEmpty', (y,))) is
                 True or r.facts.decide(mk('eq', mk(
                     'fieldof', y, 'length'), ZERO)) is True, e.node,
                 'a path is treated as a relative one without looking at '
                 'it', m.f)


def first_char(k, p):
    l = vloc(k)
    if l is None or l.op != 'at' or l.args[1] is not ZERO:
        return False
    return mentions(l.args[0], p)


def integrity(chk, m, r, evs, ci):
    """Broken nodes lead to a failing exit status."""
    res = evs[ci].res
    empty = r.facts.decide(mk('eq', res, ZERO))
    if r.kind == 'ret':
        # every node of the list gets counted: the counter is nonzero
        if empty is True:
            return
        # leaving normally is fine only if the list was found empty
        first_iter = None
        for e in evs:
            if e.kind == 'loop':
                for p, v in e.extra:
                    if v is res:
                        first_iter = p
        ok = False
        if first_iter is not None:
            ok = counter_zero_means_empty(m, r, res)
        chk.need(ok, evs[ci].node, 'ends successfully although damaged '
                 'files were found', m.f)


def counter_zero_means_empty(m, r, res):
    """The path leaves because a counter is zero; the counter starts at
    zero and is incremented by each iteration of a loop that runs once per
    list element."""
    for p, d in m.it.phis.items():
        if 'lid' not in d:
            continue
        v = r.facts.decide(mk('eq', p, ZERO))
        if v is not True and r.facts.interval(p)[1] != 0:
            continue
        if not all(isint(x) and x.args[0] == 0 for x in d['entry']):
            continue
        from terms import sub
        if not d['back'] or not all(
                isint(sub(b, p)) and sub(b, p).args[0] > 0
                for b in d['back']):
            continue
        # same loop walks the list from its head to its end
        for q, dq in m.it.phis.items():
            if dq.get('lid') == d['lid'] and dq['entry'] and \
                    all(x is res or x.op == 'res' and
                        x.args[0] == 'checkIntegrity'
                        for x in dq['entry']) and dq['back'] and \
                    all(vloc(b) is not None and vloc(b).op == 'fld' and
                        vloc(b).args[1] == 'next' for b in dq['back']):
                return True
    return False

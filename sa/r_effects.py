"""Rules about who may change the file system at all (P03, P04)."""
from core import *
from models import API
import r_wrap

# library functions which change something in the file system
LIBC = set('''
open openat creat fopen freopen fdopen remove unlink unlinkat rmdir rename
renameat renameat2 mkdir mkdirat symlink symlinkat link linkat chmod fchmod
fchmodat chown fchown lchown fchownat utime utimes utimensat futimens futimes
lutimes truncate ftruncate mkstemp mkostemp mkstemps mkdtemp mktemp tmpfile
tmpnam mknod mkfifo mknodat system popen execl execlp execle execv execvp
execve execvpe posix_spawn posix_spawnp fork vfork sendfile copy_file_range
splice mount umount umount2 setxattr lsetxattr fsetxattr removexattr ioctl
pwrite pwritev writev write fallocate posix_fallocate fwrite
nftw ftw chroot syscall dlopen mmap
'''.split())

# wrappers which change something in the file system
WRAP = {'sFopenWrite', 'sMkdir', 'sSymlink', 'sRename', 'sChmod', 'sChown',
        'sLChown', 'sUtime', 'sRemove', 'sRemoveRecursively',
        'sRemoveRecursivelyIf', 'sFwrite', 'fWrite',
        'repoWriterOpenFile', 'repoWriterOpenRaw', 'repoWriterWrite',
        'repoWriterClose', 'restoreFile', 'finishRestore', 'finishBackup',
        'metadataWrite', 'collectGarbage', 'collectGarbageProgress',
        'repoLock'}

# what each documented function may use directly
ALLOWED = {
    'sFopenRead': {'fopen'},
    'repoReaderOpenFile': {'fopen'},
    'sFopenWrite': {'fopen'},
    'fDatasync': {'open'},
    'sMkdir': {'mkdir'},
    'sSymlink': {'symlink'},
    'sRename': {'rename'},
    'sChmod': {'chmod'},
    'sChown': {'chown'},
    'sLChown': {'lchown'},
    'sUtime': {'utime', 'utimensat'},
    'sRemove': {'remove', 'unlink', 'rmdir'},
    'sRemoveRecursively': {'sRemove', 'sRemoveRecursivelyIf', 'remove',
                           'unlink', 'rmdir'},
    'sRemoveRecursivelyIf': {'sRemove', 'remove', 'unlink', 'rmdir'},
    'sFwrite': {'fwrite', 'fWrite'},
    'fWrite': {'fwrite'},
    'repoWriterOpenFile': {'sFopenWrite', 'repoWriterOpenRaw'},
    'repoWriterOpenRaw': {'sFopenWrite'},
    'repoWriterWrite': {'fWrite', 'sFwrite'},
    'repoWriterClose': {'sMkdir', 'sRename'},
    'repoLock': {'open', 'remove', 'unlink', 'sRemove'},
    'metadataWrite': {'repoWriterOpenRaw', 'repoWriterWrite',
                      'repoWriterClose'},
    'finishBackup': {'repoWriterOpenFile', 'repoWriterWrite',
                     'repoWriterClose'},
    'collectGarbage': {'sRemoveRecursivelyIf', 'collectGarbageProgress'},
    'collectGarbageProgress': {'sRemoveRecursivelyIf', 'collectGarbage'},
    'restoreFile': {'sFopenWrite', 'sFwrite'},
    'finishRestore': {'sMkdir', 'sSymlink', 'sChmod', 'sChown', 'sLChown',
                      'sUtime', 'sRemove', 'sRemoveRecursively',
                      'restoreFile', 'sRemoveRecursivelyIf'},
    'main': {'finishBackup', 'metadataWrite', 'collectGarbage',
             'collectGarbageProgress', 'finishRestore', 'repoLock'},
}


def direct(prog, f):
    """[(name, node)] of changing functions which f uses, with everything
    that is not a documented function of its own."""
    out = []
    seen = {f.key}
    todo = [f]
    while todo:
        g = todo.pop()
        for x in g.body.walk():
            if x.kind != 'DeclRefExpr' or x.decl[0] != 'FunctionDecl':
                continue
            h = prog.resolve(x.name, g.file)
            if x.name in WRAP or h is None and x.name in LIBC:
                out.append((x.name, x))
            if h is not None and h.key not in seen and not isapi(h):
                seen.add(h.key)
                todo.append(h)
    return out, seen


def isapi(h):
    return not h.static and (h.name in API or h.name in ALLOWED)


def who(chk, s):
    chk.begin('who-changes-what',
              'Every function uses only those functions that change the '
              'file system which its purpose needs: searching, comparing, '
              'hashing, loading, checking and printing use none, storing '
              'goes through the repository writer, deleting in a repository '
              'is left to the garbage collection, and everything else is '
              'left to the restore.')
    prog = s.p
    n = 0
    covered = set()
    tops = [f for k, f in sorted(prog.funcs.items())
            if isapi(f) or f.name == 'main']
    for f in tops:
        got, seen = direct(prog, f)
        covered |= seen
        chk.funcs |= seen
        for name, node in got:
            n += 1
            chk.need(name in ALLOWED.get(f.name, ()), node,
                     '%s() uses %s()' % (f.name, name), f)
    # helpers nobody reaches cannot do anything, unless somebody takes their
    # address or they are used from outside
    for k, f in sorted(prog.funcs.items()):
        if k not in covered:
            got, seen = direct(prog, f)
            for name, node in got:
                chk.need(False, node, '%s() uses %s()' % (f.name, name), f)
    chk.anchor(n > 20, 'uses')


O_CREAT, O_TRUNC = 0o100, 0o1000


def opens(chk, s):
    chk.begin('open-for-writing',
              'Files are opened for writing only by sFopenWrite(); '
              'everything else opens for reading. The lock file is opened '
              'without truncating it.')
    prog = s.p
    n = 0
    for f in r_wrap.roots(prog, {'open', 'fopen', 'openat', 'creat',
                                 'freopen', 'fdopen'}):
        it, recs = r_wrap.interp_root(s, f)
        chk.count(it, recs)
        for r in recs:
            for e in r.events():
                if e.kind != 'call':
                    continue
                if e.name == 'fopen':
                    n += 1
                    m = e.args[1]
                    ok = m.op == 'str'
                    c = m.args[0].strip('"')[:1] if ok else '?'
                    plus = ok and '+' in m.args[0]
                    chk.need(ok and (c == 'r' and not plus or
                                     f.name == 'sFopenWrite'), e.node,
                             '%s() opens a file for writing' % f.name, f)
                elif e.name == 'open':
                    n += 1
                    fl = e.args[1]
                    ok = isint(fl)
                    v = fl.args[0] if ok else -1
                    chk.need(ok and not v & O_TRUNC and
                             (not v & O_CREAT or f.name == 'repoLock'),
                             e.node, '%s() may change the file that it '
                             'opens' % f.name, f)
    chk.anchor(n, 'files being opened')


def writers(chk, s):
    """The repository writer creates nothing but the temporary file."""
    chk.begin('temporary-file',
              'The repository writer opens exactly the temporary file it '
              'was given.')
    n = 0
    for name, tmp in (('repoWriterOpenFile', 1), ('repoWriterOpenRaw', 1)):
        f = s.p.funcs.get(name)
        if f is None:
            raise AnalysisError('%s not found' % name)
        it, recs = r_wrap.interp_root(s, f, Std)
        chk.count(it, recs)
        for r in recs:
            ow = [e for e in r.events() if e.kind == 'call' and
                  e.name in ('sFopenWrite', 'repoWriterOpenRaw')]
            for e in ow:
                n += 1
                a = e.args[0] if e.name == 'sFopenWrite' else e.args[1]
                chk.need(strval(a) is it.args[tmp], e.node, '%s() opens %s '
                         'for writing' % (name, show(a)), f)
    chk.anchor(n, 'files opened for writing')

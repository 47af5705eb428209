"""What the analyses know about functions they do not look into."""
from engine import Policy
from terms import mk, num, isint, add, mul, ZERO, ONE
from facts import FINITE

# Functions with a documented contract. Calls to them are recorded as events;
# every other function of the program is followed into.
API = set('''
allocate allocatorWrapMalloc allocatorWrapRegion
allocatorWrapOneSingleGrowableBuffer allocatorWrapAlwaysFailing
applyNodeChanges initiateBackup finishBackup colorPrintf die dieErrno
fileHash collectGarbage collectGarbageProgress printHumanReadableSize
printSearchTreeInfos printMetadataChanges containsChanges warnNodeMatches
checkIntegrity metadataNew metadataLoad metadataWrite repoRegularFileExists
repoBuildRegularFilePath repoReaderOpenFile repoReaderRead repoReaderClose
repoWriterOpenFile repoWriterOpenRaw repoWriterWrite repoWriterClose repoLock
initiateRestore restoreFile finishRestore sSizeAdd sSizeMul sUint64Add
sUint64Mul sUint64GetDifference sMalloc sAtexit sFopenRead sFopenWrite sFread
sFwrite fWrite fTodisk fDatasync sFbytesLeft sFclose fDestroy sDirOpen
sDirGetNext sDirClose sPathExists sStat sLStat sMkdir sSymlink
sSymlinkReadTarget sRename sChmod sChown sLChown sUtime sRemove
sRemoveRecursively sRemoveRecursivelyIf sGetCurrentDir sReadLine sIsTTY
sStringToSize sTime sTimeMilliseconds sRand sGetFilesContent sRegexCompile
sRegexIsMatching searchTreeParse searchTreeLoad searchNew searchGetNext str
strUnterminated strGetContent strSet strCopy strCopyRaw strIsEmpty strIsEqual
strIsWhitespaceOnly strIsDotElement strIsParentPath strPathContainsDotElements
strSplitPath strAppendPath strStripTrailingSlashes strTableNew strTableMap
strTableGet strTableCountMappings
'''.split())

PURE = {'strIsEmpty', 'strIsWhitespaceOnly', 'strIsDotElement',
        'strIsParentPath', 'strPathContainsDotElements', 'strSplitPath',
        'strStripTrailingSlashes', 'strUnterminated', 'memcmp', 'strcmp',
        'memchr', 'strlen', 'sRegexIsMatching', 'strncmp', 'strchr',
        'sUint64GetDifference', '__errno_location'}

NOHAVOC = set()

# argument indices (or index + field path) whose target a call changes
MUT = {
    'applyNodeChanges': [(1, ('hint',)), 2],
    'fileHash': [2],
    'sFread': [0], 'repoReaderRead': [0], 'sReadLine': [2],
    'strTableMap': [], 'repoBuildRegularFilePath': [],
    'sFwrite': [], 'fWrite': [], 'repoWriterWrite': [], 'sFclose': [],
    'fDestroy': [], 'fTodisk': [], 'sFbytesLeft': [], 'sDirGetNext': [],
    'sDirClose': [], 'repoReaderClose': [], 'repoWriterClose': [],
    'CR_RegionAttach': [], 'CR_RegionRelease': [], 'printf': [],
    'fprintf': [], 'colorPrintf': [], 'sRemoveRecursivelyIf': [],
    'allocate': [], 'CR_RegionAlloc': [], 'CR_EnsureCapacity': [],
    'allocatorWrapRegion': [], 'allocatorWrapOneSingleGrowableBuffer': [],
    'sGetCurrentDir': [], 'strCopyRaw': [], 'searchNew': [],
    'CR_RegionAllocUnaligned': [], 'CR_RegionAllocGrowable': [],
}

ARITH = {'sSizeAdd': add, 'sUint64Add': add, 'sSizeMul': mul,
         'sUint64Mul': mul}


def settype(t, ty):
    if t.ty is None:
        t.ty = ty
    return t


def m_arith(it, name, args, st, e):
    st = st.copy()
    r = ARITH[name](args[0], args[1])
    if r.op != 'int':
        settype(r, e.ty)
    from engine import Ev
    it.event(st, Ev('arith', name, tuple(args), r, e, it.ctx(), st.facts,
                    None))
    return [(st, r)]


def m_pure(it, name, args, st, e):
    return [(st, settype(mk('pure', name, tuple(args)), e.ty))]


def m_streq(it, name, args, st, e):
    a, b = args
    if a is b:
        return [(st, ONE)]
    if a.id > b.id:
        a, b = b, a
    return [(st, settype(mk('pure', name, (a, b)), e.ty))]


def m_str(it, name, args, st, e):
    a = args[0]
    if a.op == 'pure' and a.args[0] == 'cstr':
        return [(st, a.args[1][0])]
    return [(st, settype(mk('pure', 'str', (a,)), e.ty))]


def m_cstr(it, name, args, st, e):
    s = args[0]
    st = st.copy()
    from engine import Ev
    if s.op == 'pure' and s.args[0] == 'str':
        r = s.args[1][0]
    else:
        r = settype(mk('pure', 'cstr', (s,)), e.ty)
    it.event(st, Ev('alloc', name, tuple(args), r, e, it.ctx(), st.facts,
                    None))
    return [(st, r)]


def m_strcopy(it, name, args, st, e):
    from engine import Ev
    st = st.copy()
    r = settype(mk('pure', name, tuple(args[:-1])), e.ty)
    it.event(st, Ev('alloc', name, tuple(args), r, e, it.ctx(), st.facts,
                    None))
    return [(st, r)]


def m_strset(it, name, args, st, e):
    st = st.copy()
    it.write(st, it.ptr_loc(args[0]), args[1], e)
    return [(st, ZERO)]


def m_memcpy(it, name, args, st, e):
    d, s, n = args
    st = st.copy()
    ty = None
    if n.op == 'sizeof':
        ty = n.args[0]
    def whole(p):
        return p.op != 'ptradd' or it.is_struct(ty) and (
            p.args[0].ty or '').replace('const ', '').replace(
                ' ', '') == ty + '*'
    if ty is not None and whole(d) and whole(s):
        v = it.read(st, it.ptr_loc(s), ty)
        it.write(st, it.ptr_loc(d), v, e)
        return [(st, d)]
    from engine import Ev
    from facts import INF
    it.event(st, Ev('call', name, tuple(args), None, e, it.ctx(), st.facts,
                    None))
    # a scalar or array object
    l = d.args[0] if d.op == 'decay' else it.ptr_loc(d)
    sl = s.args[0] if s.op == 'decay' else it.ptr_loc(s)
    for k in it.subkeys(st, l):
        del st.store[k]
    st.store[l] = mk('copied', it.read(st, sl), n)
    return [(st, d)]


def m_memset(it, name, args, st, e):
    p, c, n = args
    if c is ZERO and n.op == 'sizeof' and it.is_struct(n.args[0]):
        st = st.copy()
        it.copy_struct(st, it.ptr_loc(p), it.zero(n.args[0]), None, e)
        return [(st, p)]
    return it.opaque(name, args, st, e)


def m_errno(it, name, args, st, e):
    return [(st, mk('addr', mk('glob', '', 'errno')))]


def m_expect(it, name, args, st, e):
    return [(st, args[0])]


def strval(t):
    """The string that t is a copy of."""
    while t.op == 'pure' and t.args[0] in ('strCopy', 'strCopyRaw'):
        t = t.args[1][0]
    return t


class Std(Policy):
    """Standard policy: documented functions are opaque."""
    pure = PURE
    extra_opaque = ()

    def __init__(self, prog, expand=(), opaque=()):
        super().__init__(prog)
        self.opaque_names = (API | set(opaque)) - set(expand)
        self.models = {n: m_arith for n in ARITH if n not in expand}
        self.models.update(strIsEqual=m_streq, str=m_str,
                           strGetContent=m_cstr, strCopy=m_strcopy,
                           strCopyRaw=m_strcopy, strAppendPath=m_strcopy,
                           strSet=m_strset, memcpy=m_memcpy, memset=m_memset,
                           __errno_location=m_errno,
                           __builtin_expect=m_expect)
        for n in expand:
            self.models.pop(n, None)
        self.mut = dict(MUT)

"""Rules about lifetimes: temporary strings and buffers, opened files and
directories, regions and freed memory."""
import r_wrap
from core import *
from engine import Ev, Interp, is_local, loc_root
from models import Std, API

# functions that create something: name -> (index of allocator or owner)
STRINGS = {'strCopy': 1, 'strCopyRaw': 1, 'strAppendPath': 2,
           'strGetContent': 1, 'sSymlinkReadTarget': 1, 'sGetCurrentDir': 0,
           'allocate': 0}
ITER = {'sDirGetNext': 0, 'searchGetNext': 0}
INREGION = {'CR_RegionAlloc': 0, 'CR_RegionAllocUnaligned': 0,
            'CR_RegionAllocGrowable': 0, 'allocatorWrapRegion': 0,
            'allocatorWrapOneSingleGrowableBuffer': 0, 'strTableNew': 0,
            'sGetFilesContent': 0, 'sRegexCompile': 0, 'metadataNew': 0,
            'metadataLoad': 0, 'searchTreeLoad': 0, 'searchTreeParse': 0}
OPEN = {'sFopenRead', 'sFopenWrite', 'sDirOpen', 'repoReaderOpenFile',
        'repoWriterOpenFile', 'repoWriterOpenRaw', 'fopen', 'opendir',
        'open', 'CR_RegionNew', 'sMalloc', 'malloc', 'calloc'}
MUSTCLOSE = {'sFopenRead': 'sFclose', 'sFopenWrite': 'sFclose',
             'sDirOpen': 'sDirClose',
             'repoReaderOpenFile': 'repoReaderClose',
             'repoWriterOpenFile': 'repoWriterClose',
             'repoWriterOpenRaw': 'repoWriterClose', 'fopen': 'fclose',
             'opendir': 'closedir', 'open': 'close'}
CLOSE = {'sFclose', 'fDestroy', 'sDirClose', 'repoReaderClose',
         'repoWriterClose', 'fclose', 'closedir', 'close', 'free',
         'CR_RegionRelease'}
# arguments which the called function keeps
KEEP = {'strTableMap': (1,), 'CR_RegionAttach': (2,)}
WRITERKEEP = {'repoWriterOpenFile', 'repoWriterOpenRaw',
              'repoReaderOpenFile'}
REFPURE = {'strUnterminated', 'strSplitPath', 'strStripTrailingSlashes',
           'str', 'strchr', 'memchr', 'strrchr', 'strstr'}
# documented to return something temporary
TEMPORARY = {'sDirGetNext', 'searchGetNext'}
# documented to return NULL
MAYBE = {'strTableGet', 'malloc', 'calloc', 'realloc', 'fopen', 'opendir',
         'readdir', 'memchr', 'strchr', 'strrchr', 'strstr', 'getenv'}
NOREF = set()       # names of fields which can not refer to anything


def scalarfields(prog):
    """Fields whose type holds no pointer, in every record."""
    memo = {}

    def holds(t, depth=0):
        if '*' in t or '(' in t:
            return True
        t = t.split('[')[0].replace('const ', '').strip()
        if t in memo:
            return memo[t]
        memo[t] = False
        rec = prog.records.get(t)
        if rec is not None:
            memo[t] = any(holds(x, depth + 1) for n, x in rec[0])
        return memo[t]

    bad, good = set(), set()
    for fields, tag in prog.records.values():
        for n, t in fields:
            (bad if holds(t) else good).add(n)
    return good - bad


# functions which are documented to keep a string of their caller
KEEPERS = set(KEEP) | WRITERKEEP | {'strSet'}
QUIET = {'printf', 'fprintf', 'memset'}


OWNERTYPES = ('Allocator', 'CR_Region', 'DirIterator', 'SearchContext',
              'RepoReader', 'RepoWriter')
SPECIAL = ({'regcomp', 'regfree', 'repoBuildRegularFilePath'} | set(STRINGS) | set(ITER) | set(INREGION) | OPEN | CLOSE |
           set(KEEP) | {'sReadLine', 'realloc', 'CR_EnsureCapacity',
                        'allocatorWrapMalloc', 'CR_RegionAttach'})


class Life(Std):
    """Keeps only what lifetimes depend on; everything else that a path does
    is remembered as a use at that point of the path."""
    lossy = True
    errno = True

    def __init__(self, prog):
        super().__init__(prog)
        for n in ('strGetContent', 'strCopy', 'strCopyRaw',
                  'strAppendPath'):
            self.models.pop(n, None)
            self.mut[n] = []
        NOREF.clear()
        NOREF.update(scalarfields(prog))
        self.uses = {}      # trace -> {(kind, term, node)}
        self.loads = self.load
        self.derefs = self.deref
        self.accesses = 0
        self.absent = {}    # node -> (node, function, pointer)
        self.filter = self.drop

    def use(self, st, kind, t, node):
        self.uses.setdefault(st.trace.h if st.trace else 0, {})[
            kind, t, node.nid if node is not None else 0] = node

    def deref(self, it, st, p, node):
        if p.op in ('addr', 'decay', 'str', 'fn'):
            return
        self.accesses += 1
        if p is ZERO or st.facts.decide(mk('eq', p, ZERO)) is True:
            self.absent[node.nid] = (node, it.stack[-1][0] if it.stack
                                     else None, p, 'is')
        elif p.op == 'res' and p.args[0] in MAYBE and \
                st.facts.decide(mk('eq', p, ZERO)) is None:
            self.absent[node.nid] = (node, it.stack[-1][0] if it.stack
                                     else None, p, 'may be')

    def load(self, it, st, loc, node):
        if not is_local(loc):
            b = base(loc)
            if b is not None:
                self.use(st, 'read', b, node)

    def drop(self, st, ev, it):
        k = ev.kind
        if k in ('arith', 'fork', 'passed'):
            return True
        if k == 'store':
            loc, v = ev.args[0], ev.args[1]
            if not (v.op == 'res' and v.args[0] in OPEN) and (
                    it.scalar(loc, v) or not refs(v) and v is not ZERO):
                b = base(loc)
                if b is not None:
                    self.use(st, 'written', b, ev.node)
                return True
            return False
        if k in ('call', 'alloc', 'die'):
            if k != 'die' and self.matters(ev, it):
                return False
            for a in ev.args:
                if hasattr(a, 'op') and refs(a):
                    self.use(st, 'call ' + ev.name, a, ev.node)
            return k != 'die'
        return False

    def matters(self, ev, it):
        if ev.name in SPECIAL:
            return True
        f = None
        for g in self.p.funcs.values():
            if g.name == ev.name and (not g.static or
                                      ev.node is not None and
                                      g.file == ev.node.file):
                f = g
        if f is None:
            return False
        if f.key in self.recursive:
            return True
        return any(o in t for n, t, did in f.params for o in OWNERTYPES)


def base(loc):
    """Innermost pointer a location is accessed through."""
    while loc.op == 'fld':
        loc = loc.args[0]
    if loc.op == 'at':
        p = loc.args[0]
        while p.op == 'ptradd':
            p = p.args[0]
        if p.op in ('addr', 'decay'):
            return base(p.args[0])
        return p
    return None


def refs(t, out=None):
    """Terms of objects which a value points to (or into)."""
    out = [] if out is None else out
    o = t.op
    if o in ('res', 'hv', 'init', 'phi', 'param', 'alloc'):
        out.append(t)
    elif o == 'fieldof':
        if t.args[1] not in NOREF:
            refs(t.args[0], out)
    elif o == 'pure':
        if t.args[0] in REFPURE:
            refs(t.args[1][0], out)
    elif o == 'struct':
        for k, v in t.args[1]:
            if k not in NOREF:
                refs(v, out)
    elif o == 'ptradd':
        refs(t.args[0], out)
    elif o in ('addr', 'decay'):
        p = base(t.args[0])
        if p is not None:
            refs(p, out)
        else:
            x = t.args[0]
            while x.op in ('fld', 'at'):
                x = x.args[0]
            if x.op == 'var':
                out.append(x)
    elif o == 'lin':
        for x, c in t.args[1]:
            if c == 1 and '*' in (x.ty or ''):
                refs(x, out)
    return out


# ------------------------------------------------- which allocator is which
class Allocators:
    """Classes of every allocator: fields, parameters and variables."""

    def __init__(self, prog):
        self.p = prog
        self.field = {}
        self.param = {}
        self.ret = {}
        flows = []      # (target key, source expr, function)
        for f in prog.funcs.values():
            for x in f.body.walk():
                self.collect(f, x, flows)
        changed = True
        self.cls = {}
        while changed:
            changed = False
            for tgt, e, f in flows:
                c = self.classify(e, f)
                old = self.cls.get(tgt, frozenset())
                if not c <= old:
                    self.cls[tgt] = old | c
                    changed = True

    def isalloc(self, ty):
        return ty is not None and ty.replace('const ', '').replace(
            ' ', '').replace('struct', '') == 'Allocator*'

    def collect(self, f, x, flows):
        if x.kind == 'VarDecl' and self.isalloc(x.ty) and x.kids:
            flows.append((('var', f.file, str(x.decl[1])), x.kids[-1], f))
        elif x.kind == 'BinaryOperator' and x.op == '=' and \
                self.isalloc(x.kids[0].ty):
            flows.append((self.target(x.kids[0], f), x.kids[1], f))
        elif x.kind == 'CallExpr':
            c = x.kids[0]
            while c.kind in ('ImplicitCastExpr', 'ParenExpr'):
                c = c.kids[0]
            if c.kind == 'DeclRefExpr':
                g = self.p.resolve(c.name, f.file)
                if g is not None:
                    for i, a in enumerate(x.kids[1:]):
                        if i < len(g.params) and self.isalloc(
                                g.params[i][1]):
                            flows.append((('var', g.file, str(g.params[i][2])),
                                          a, f))
        elif x.kind == 'ReturnStmt' and x.kids and \
                self.isalloc(x.kids[0].ty):
            flows.append((('ret', f.key), x.kids[0], f))
        elif x.kind == 'InitListExpr':
            rec = (x.ty or '').replace('const ', '').strip()
            names = self.fields(rec)
            for i, k in enumerate(x.kids):
                if i < len(names) and self.isalloc(k.ty):
                    flows.append((('fld', names[i]), k, f))

    def fields(self, rec):
        r = self.p.records.get(rec) or self.p.records.get(
            rec.replace('struct ', ''))
        if r is None:
            return []
        return [n for n, t in r[0]]

    def strip(self, e):
        while e.kind in ('ImplicitCastExpr', 'ParenExpr',
                         'CStyleCastExpr'):
            e = e.kids[0]
        return e

    def target(self, e, f):
        e = self.strip(e)
        if e.kind == 'MemberExpr':
            return ('fld', e.name)
        if e.kind == 'DeclRefExpr':
            return ('var', f.file, str(e.decl[1]))
        if e.kind == 'ArraySubscriptExpr':
            b = self.strip(e.kids[0])
            if b.kind == 'DeclRefExpr':
                return ('arr', f.file, str(b.decl[1]))
        return ('other',)

    def classify(self, e, f):
        e = self.strip(e)
        if e.kind == 'CallExpr':
            c = self.strip(e.kids[0])
            n = c.name
            k = {'allocatorWrapRegion': 'region',
                 'allocatorWrapMalloc': 'malloc',
                 'allocatorWrapOneSingleGrowableBuffer': 'grow',
                 'allocatorWrapAlwaysFailing': 'fail'}.get(n)
            if k:
                return frozenset([k])
            g = self.p.resolve(n, f.file) if n else None
            if g is not None:
                return self.cls.get(('ret', g.key), frozenset())
            return frozenset(['grow'])
        if e.kind == 'ConditionalOperator':
            return self.classify(e.kids[1], f) | self.classify(e.kids[2], f)
        t = self.target(e, f)
        if t == ('other',):
            return frozenset()
        return self.cls.get(t, frozenset())

    def of(self, t, f, created):
        """Class of an allocator term: grow, region..."""
        if t.op == 'res':
            k = created.get(t)
            if k is not None:
                return {k}
            return {'grow'}
        l = vloc(t)
        if l is not None:
            if l.op == 'fld':
                return self.cls.get(('fld', l.args[1])) or {'grow'}
            if l.op == 'at':
                return {'grow'}
        if t.op == 'param':
            g = self.p.funcs.get(t.args[1]) or f
            for n, ty, did in g.params:
                if n == t.args[0]:
                    return self.cls.get(
                        ('var', g.file, str(did))) or {'grow'}
        return {'grow'}


def allocators(s):
    if 'life-alloc' not in s.cache:
        s.cache['life-alloc'] = Allocators(s.p)
    return s.cache['life-alloc']


# -------------------------------------------------------------- entry points
def entries(s):
    """[(function, interp, records)] of everything, in the policy of this
    module."""
    if 'life' in s.cache:
        return s.cache['life']
    prog = s.p
    taken = r_wrap.addr_taken(prog)
    pol = Life(prog)
    called = set()
    for f in prog.funcs.values():
        for x in f.body.walk():
            if x.kind == 'DeclRefExpr' and x.decl[0] == 'FunctionDecl':
                g = prog.resolve(x.name, f.file)
                if g is not None and g.key != f.key:
                    called.add(g.key)
    out = {}
    for k, f in sorted(prog.funcs.items()):
        if not pol.inline(f) or k in taken or f.name == 'main' or \
                k not in called:
            todo = [f]
            while todo:
                g = todo.pop(0)
                if g.key in out:
                    continue
                it = Interp(prog, Life(prog))
                out[g.key] = (g, it, it.run(g))
                todo += it.rec_funcs.values()
    s.cache['life'] = list(out.values())
    return s.cache['life']


def rfield(t):
    """X if t is the value of X->r"""
    l = vloc(t)
    if l is not None and l.op == 'fld' and l.args[1] == 'r':
        return loc_ptr(l.args[0])
    return None


class Walk:
    def __init__(self, s, f, it, r, pairs, growvars):
        self.s, self.f, self.it, self.r = s, f, it, r
        self.A = allocators(s)
        self.pairs = pairs
        self.growvars = growvars
        self.created = {}       # allocator res -> class
        self.owner = {}         # object -> (kind, owner)
        self.allocregion = {}   # allocator or object -> region
        self.dead = {}          # object -> why
        self.gone = {}          # owners with a newer allocation -> when
        self.loopat = {}        # loop -> position in the path
        self.loopknown = {}     # loop -> (trace, objects known before)
        self.pos = 0
        self.open = {}          # handle -> event
        self.closed = {}
        self.stored = []
        self.pending = []
        self.phiowner = {}
        self.entered = set()
        self.found = []
        self.newpairs = set()
        self.holds = {}         # handle -> objects it refers to
        self.n = 0

    def say(self, rule, node, msg):
        self.found.append((rule, node, msg))

    # ------------------------------------------------------------- objects
    def region_of(self, a):
        if a in self.allocregion:
            return self.allocregion[a]
        return None

    def objects(self, t):
        """Objects (with owner) a value refers to."""
        return [self.whole(o) for o in refs(t)]

    def whole(self, o):
        """Part of a loop-carried structure -> the structure."""
        x = o
        while x.op == 'phi' and x not in self.it.phis and \
                x.args[2].op == 'fld' and x.args[2].args[1] in (
                    'content', 'path'):
            x = mk('phi', x.args[0], x.args[1], x.args[2].args[0])
        return x if x in self.it.phis else o

    def ownerof(self, o):
        x = self.owners(o)
        return x[0] if x else None

    def owners(self, o):
        """Every (kind, owner) an object may live in."""
        if o in self.owner:
            return [self.owner[o]]
        out = []
        if o.op in ('init', 'hv', 'phi'):
            l = vloc(o)
            while l is not None and l.op == 'fld':
                for fl, g in self.pairs:
                    if l.args[1] == fl:
                        out.append(('grow', mk('init', mk('fld', l.args[0],
                                                          g))))
                l = l.args[0]
        return out

    def lives_in(self, o, k):
        return any(x == ('grow', k) for x in self.owners(o))

    def phi_owners(self, p, seen=None):
        if p in self.phiowner:
            return self.phiowner[p]
        seen = seen or set()
        if p in seen:
            return set()
        seen.add(p)
        out = set()
        d = self.it.phis.get(p)
        for v in (list(d['entry']) + list(d['back'])) if d else ():
            for o in refs(v):
                if o.op == 'phi':
                    out |= self.phi_owners(o, seen)
                else:
                    x = self.ownerof(o) or self.static_owner(o)
                    if x and x[0] == 'grow':
                        out.add(x[1])
        if len(seen) == 1:
            self.phiowner[p] = out
        return out

    def static_owner(self, o):
        """Owner of an object created in a later iteration."""
        return self.it_owner().get(o)

    def it_owner(self):
        if not hasattr(self.it, '_life_owner'):
            self.it._life_owner = {}
        return self.it._life_owner

    def is_dead(self, o):
        if o in self.dead:
            return self.dead[o]
        if o.op in ('init', 'phi') and o not in self.owner:
            since = 0
            if o.op == 'phi':
                since = self.loopat.get((o.args[0], o.args[1]), 0)
            for x in self.owners(o):
                if self.gone.get(x[1], -1) >= since:
                    return 'was replaced'
        return None

    def use(self, t, node, what):
        for o in self.objects(t):
            w = self.is_dead(o)
            if w:
                self.say('stale' if 'replaced' in w else 'closed', node,
                         '%s after it %s' % (what, w))
                return True
        return False

    # ------------------------------------------------------------- killing
    def replace(self, k):
        for o, (kind, own) in self.owner.items():
            if own is k and kind == 'grow':
                self.dead[o] = 'was replaced'
        self.gone[k] = self.pos
        for p, d in self.it.phis.items():
            if d.get('lid') in self.entered and k in self.phi_owners(p):
                self.dead[p] = 'was replaced'

    def create(self, o, kind, k):
        self.owner[o] = (kind, k)
        self.it_owner()[o] = (kind, k)
        self.dead.pop(o, None)

    def inregion(self, o, R):
        seen = set()
        while o is not None and o not in seen:
            seen.add(o)
            if o is R:
                return True
            n = self.allocregion.get(o)
            if n is None and o in self.owner:
                n = self.owner[o][1]
            o = n
        return False

    def release(self, R, node):
        for o in list(self.owner) + list(self.allocregion):
            if self.inregion(o, R):
                self.dead[o] = 'was released'
        for loc, v, n2 in self.stored:
            b = base(loc)
            if b is not None and (self.inregion(b, R) or b in self.dead):
                continue
            if any(self.inregion(o, R) for o in self.objects(v)):
                self.say('closed', n2, 'something that outlives a region '
                         'refers to memory of that region')
        X = rfield(R)
        if X is not None:
            self.dead[X] = 'was released'
        for x in [b for b in [base(l) for l, v, n2 in self.stored
                              if v is R and l.op == 'fld' and
                              l.args[1] == 'r']]:
            if x is not None:
                self.dead[x] = 'was released'
        self.dead[R] = 'was released'

    # ---------------------------------------------------------------- walk
    def atpoint(self, h):
        for (kind, t, nid), node in self.it.policy.uses.get(h, {}).items():
            self.n += 1
            if kind in ('read', 'written'):
                w = self.is_dead(t)
                if w:
                    self.say('stale' if 'replaced' in w else 'closed',
                             node, 'memory is %s after it %s' % (kind, w))
            else:
                self.use(t, node, 'used by %s()' % kind[5:])

    def run(self):
        h = 0
        self.atpoint(h)
        for e in self.r.events():
            k = e.kind
            self.pos += 1
            if k == 'loop':
                lid = lid_of(e)
                self.loopat[lid] = self.pos
                self.loopknown[lid] = (h, set(self.owner) - set(self.dead))
                late = self.it._life_late.get((lid, h))
                if late:
                    # what earlier iterations may have replaced
                    self.dead.update(late[0])
                    for o in late[1]:
                        self.gone.setdefault(o, self.pos - 1)
                self.entered.add(lid)
                for p, d in self.it.phis.items():
                    if d.get('lid') == lid:
                        self.dead.pop(p, None)
                e_open = set(self.open)
                self.loopopen = getattr(self, 'loopopen', {})
                self.loopopen[lid] = (e_open, set(self.closed))
            elif k == 'back':
                self.back(e)
            elif k in ('call', 'alloc', 'arith'):
                self.call(e)
            elif k == 'store':
                self.store(e)
            h = hash((h, e.kind, e.name, e.args, e.node))
            self.atpoint(h)
        r = self.r
        if r.kind != 'die':
            self.finish()
        if r.kind == 'ret':
            self.ret()
        return self

    def call(self, e):
        name = e.name
        args = [a for a in e.args if hasattr(a, 'op')]
        self.n += 1
        if name not in CLOSE:
            for a in args:
                if self.use(a, e.node, 'used by %s()' % name):
                    break
        if name in WRITERKEEP and e.res is not None:
            self.holds[e.res] = [o for a in args for o in self.objects(a)]
        if args:
            for o in self.holds.get(args[0], ()):
                if self.is_dead(o):
                    self.say('stale', e.node, '%s() uses a string which %s '
                             'meanwhile' % (name, self.is_dead(o)))
        if name in KEEP:
            for i in KEEP[name]:
                self.kept(e.args[i], e.node, name)
        if name in STRINGS:
            a = e.args[STRINGS[name]]
            kinds = self.A.of(a, self.f, self.created)
            if 'grow' in kinds:
                if name not in ('allocate',):
                    for x in args[:STRINGS[name]]:
                        for o in self.objects(x):
                            if self.lives_in(o, a):
                                self.say('stale', e.node, '%s() reads from '
                                         'the buffer that it replaces'
                                         % name)
                self.replace(a)
                self.create(e.res, 'grow', a)
            else:
                self.create(e.res, 'region', a)
                if self.region_of(a) is not None:
                    self.allocregion[e.res] = self.region_of(a)
        elif name == 'sReadLine':
            a = e.args[1]
            self.replace(a)
            loc = ptr_loc(e.args[2])
            # what the out parameter holds afterwards
            v = mk('hv', loc, e.node.nid if e.node else 0, 0)
            self.create(v, 'grow', a)
        elif name in ITER:
            a = e.args[0]
            self.replace(a)
            self.create(e.res, 'grow', a)
        elif name in INREGION and e.res is not None:
            R = e.args[INREGION[name]]
            self.allocregion[e.res] = R
            self.owner[e.res] = ('region', R)
            self.dead.pop(e.res, None)
            if name == 'allocatorWrapRegion':
                self.created[e.res] = 'region'
            elif name == 'allocatorWrapOneSingleGrowableBuffer':
                self.created[e.res] = 'grow'
        elif name == 'allocatorWrapMalloc':
            self.created[e.res] = 'malloc'
        elif name in ('CR_EnsureCapacity', 'realloc'):
            p = e.args[0]
            if p.op in ('init', 'res', 'hv', 'phi'):
                self.dead[p] = 'was replaced'
            self.dead.pop(e.res, None)
        elif name in CLOSE:
            self.close(e)
        elif name in OPEN:
            self.open[e.res] = e
            self.closed.pop(e.res, None)
            self.dead.pop(e.res, None)
        elif name in API and name not in QUIET:
            # may allocate with whatever it was given
            for k in {own for kind, own in self.owner.values()
                      if kind == 'grow'}:
                if k in args or (k.op == 'init' and
                                 base(k.args[0]) in args):
                    self.replace(k)
        elif self.recursive(name):
            for k in {own for kind, own in self.owner.values()
                      if kind == 'grow'}:
                if any(k is a or mentions(k, a) for a in args
                       if a.op not in ('int', 'str')):
                    self.replace(k)

    def recursive(self, name):
        return any(g.name == name for g in self.it.rec_funcs.values())

    def close(self, e):
        h = e.args[0]
        if isint(h):
            return
        if e.name == 'CR_RegionRelease':
            if h in self.dead:
                self.say('closed', e.node, 'a region is released twice')
            self.release(h, e.node)
        elif e.name in ('close',) and h not in self.open:
            if h in self.closed:
                self.say('closed', e.node, 'a file is closed twice')
        else:
            for o in self.objects(h):
                if o in self.dead:
                    self.say('closed', e.node, '%s() is called for '
                             'something that %s' % (e.name, self.dead[o]))
        if e.name != 'CR_RegionRelease':
            # results of a directory end with it
            if e.name == 'sDirClose':
                self.replace(h)
            for o in self.holds.get(h, ()):
                if self.is_dead(o):
                    self.say('stale', e.node, '%s() uses a string which %s '
                             'meanwhile' % (e.name, self.is_dead(o)))
            self.dead[h] = 'was closed' if e.name != 'free' else 'was freed'
        self.closed[h] = e
        self.open.pop(h, None)

    def kept(self, v, node, name):
        for o in self.objects(v):
            w = self.ownerof(o)
            if w and w[0] == 'grow':
                self.say('stale', node, '%s() keeps a temporary string'
                         % name)
                return
            if o.op == 'var':
                self.say('stale', node, '%s() keeps a local variable'
                         % name)
                return
            if o.op in ('init', 'hv', 'phi') and o.args[-1 if o.op == 'phi'
                                                       else 0] in \
                    self.growlocs():
                self.say('stale', node, '%s() keeps a buffer which is '
                         'reused' % name)
                return

    def growlocs(self):
        return self.it_grow()

    def it_grow(self):
        if not hasattr(self.it, '_life_grow'):
            out = set()
            for r in self.it._life_recs:
                for e in r.events():
                    if e.kind == 'call' and e.name == \
                            'repoBuildRegularFilePath':
                        out.add(ptr_loc(e.args[0]))
                    if e.kind == 'call' and e.name == 'CR_EnsureCapacity':
                        for x in refs(e.args[0]):
                            l = vloc(x)
                            if l is not None:
                                out.add(l)
            self.it._life_grow = out
        return self.it._life_grow

    def store(self, e):
        loc, v = e.args[0], e.args[1]
        self.n += 1
        if self.use(v, e.node, 'stored'):
            return
        if loc.op == 'fld' and v.op in ('res', 'init') and \
                self.A.of(v, self.f, self.created) == {'grow'} and \
                self.A.isalloc(v.ty):
            for l2, v2, n2 in self.stored:
                if v2 is v and l2.op == 'fld' and l2 is not loc and \
                        l2.args[0] is loc.args[0]:
                    self.say('stale', e.node, 'one object uses the same '
                             'buffer for %s and %s' % (l2.args[1],
                                                       loc.args[1]))
        self.stored.append((loc, v, e.node))
        b = base(loc)
        for o in self.objects(v):
            if o.op == 'param' and b is not None and self.isstring(o) and \
                    b is not o and self.f.name not in KEEPERS:
                self.say('stale', e.node, 'a string of the caller is kept '
                         'in %s without a copy' % show(loc))
            if o.op == 'var' and b is not None and not (
                    b.op == 'var'):
                self.say('stale', e.node, 'the address of a local variable '
                         'is kept')
            w = self.ownerof(o)
            if not w or w[0] != 'grow':
                continue
            if b is not None and b.op == 'param' and w[1].op == 'param':
                # handed out to the caller which provided the allocator
                self.pairedbuffer(loc, w[1])
                continue
            # the buffer may be stored a moment later
            if not self.pairedbuffer(loc, w[1]):
                self.pending.append((loc, w[1], e.node))

    def pairedbuffer(self, l, a):
        """Does the object that keeps a string keep its buffer as well?"""
        ax = vloc(a)
        while l.op == 'fld':
            ok = False
            X = l.args[0]
            if ax is not None and ax.op == 'fld' and ax.args[0] is X:
                ok = True
                self.newpairs.add((l.args[1], ax.args[1]))
            for l2, v2, n2 in self.stored:
                if v2 is a and l2.op == 'fld' and l2.args[0] is X:
                    ok = True
                    self.newpairs.add((l.args[1], l2.args[1]))
            if ok:
                return True
            l = X
        return False

    def finish(self):
        for loc, a, node in self.pending:
            if not self.pairedbuffer(loc, a):
                self.say('stale', node, 'a temporary string is kept in %s'
                         % show(loc))

    def isstring(self, o):
        return (o.ty or '').replace('const ', '').strip() in (
            'StringView', 'char*')

    def back(self, e):
        lid = lid_of(e)
        h, known = self.loopknown[lid]
        late = self.it._life_late.setdefault((lid, h), ({}, set()))
        for o in known:
            if o in self.dead:
                late[0][o] = self.dead[o]
        for o, at in self.gone.items():
            if at >= self.loopat[lid]:
                late[1].add(o)
        before, closed = getattr(self, 'loopopen', {}).get(
            lid, (set(), set()))
        for h, ev in self.open.items():
            if h in before or self.escapes(h) or ev.name not in MUSTCLOSE:
                continue
            if any(h in refs(b) for p, d in self.it.phis.items()
                   for b in d['back']):
                continue
            self.say('leak', ev.node, 'what %s() opened stays open' %
                     ev.name)
        for h in before:
            if h in self.closed:
                self.say('closed', self.closed[h].node, '%s() is repeated '
                         'for the same file' % self.closed[h].name)

    def escapes(self, h):
        for loc, v, n in self.stored:
            if h in self.objects(v):
                return True
        return False

    def ret(self):
        r = self.r
        v = r.val
        if v is not None:
            self.use(v, r.node, 'returned')
            for o in self.objects(v):
                w = self.ownerof(o)
                if o.op == 'var':
                    self.say('stale', r.node, 'the address of a local '
                             'variable is returned')
                if w and w[0] == 'grow' and self.f.name not in TEMPORARY:
                    if w[1].op == 'param':
                        continue
                    self.say('stale', r.node, 'a temporary string is '
                             'returned')
        for h, e in self.open.items():
            if e.name not in MUSTCLOSE or self.escapes(h):
                continue
            if v is not None and h in self.objects(v):
                continue
            if r.facts.decide(mk('eq', h, ZERO)) is True or \
                    r.facts.decide(mk('eq', h, num(-1))) is True:
                continue
            self.say('leak', e.node, 'what %s() opened stays open' % e.name)


def walks(s):
    """Every record, walked once with the pairs of fields known."""
    if 'life-walks' in s.cache:
        return s.cache['life-walks']
    ents = entries(s)
    pairs = set()
    for again in range(6):
        out = []
        new = set(pairs)
        stable = True
        for f, it, recs in ents:
            it._life_recs = recs
            if not hasattr(it, '_life_late'):
                it._life_late = {}
            late = sum(len(x) + len(y) for x, y in it._life_late.values())
            for r in recs:
                w = Walk(s, f, it, r, pairs, None).run()
                new |= w.newpairs
                out.append(w)
            if late != sum(len(x) + len(y)
                           for x, y in it._life_late.values()):
                stable = False
        if new == pairs and stable and again:
            break
        pairs = new
    s.cache['life-walks'] = out
    return out


TEXT = {
    'stale': ('temporary-strings',
              'No string or buffer is used after the buffer it lives in was '
              'used again, and none is stored in anything that outlives it '
              'or handed to a function that keeps it.'),
    'closed': ('use-after-close',
               'Nothing is used, read or closed after it was closed, '
               'released or freed, and nothing that outlives a region keeps '
               'memory of it.'),
    'leak': ('closed-on-every-path',
             'Whatever a function opens is closed, handed out or stored on '
             'every path which continues.'),
}


def rule(chk, s, which):
    chk.begin(*TEXT[which])
    n = 0
    seen = set()
    for f, it, recs in entries(s):
        chk.count(it, recs)
    for w in walks(s):
        n += 1
        chk.rules[chk.rule] += w.n      # uses and definitions looked at
        for rl, node, msg in w.found:
            if rl == which:
                key = (node.nid if node is not None else 0, msg)
                if key not in seen:
                    seen.add(key)
                    chk.need(False, node or w.f.body, msg, w.f)
    chk.anchor(n > 100, 'paths')


def absent(chk, s):
    chk.begin('absent-values',
              'A pointer that is known to be null, or that comes from a '
              'lookup which may find nothing and was not tested, is never '
              'dereferenced.')
    n = 0
    seen = set()
    for f, it, recs in entries(s):
        chk.count(it, recs)
        pol = it.policy
        n += pol.accesses
        for nid, (node, g, p, how) in pol.absent.items():
            if nid not in seen:
                seen.add(nid)
                chk.need(False, node, 'dereferences %s, which %s null' % (
                    show(p), how), f)
    chk.rules[chk.rule] += n
    chk.anchor(n > 500, 'accesses through pointers')


def temporary(chk, s):
    rule(chk, s, 'stale')


def closed(chk, s):
    rule(chk, s, 'closed')


def leaks(chk, s):
    rule(chk, s, 'leak')


# ------------------------------------------------- objects that own handles
CLOSERS = {'sFclose': {'fclose': ('handle',), 'CR_RegionRelease': ('r',)},
           'fDestroy': {'CR_RegionRelease': ('r',)},
           'sDirClose': {'closedir': ('handle',),
                         'CR_RegionRelease': ('r',)},
           'repoReaderClose': {'fclose': (), 'free': ()},
           'repoWriterClose': {'sFclose': (), 'free': ()}}
RAWCLOSE = ('fclose', 'closedir', 'close', 'regfree')
RAWOPEN = {'fopen': 'fclose', 'opendir': 'closedir', 'open': 'close',
           'regcomp': 'regfree'}


def root_param(t):
    """(parameter, fields) a value was read from."""
    l = vloc(t)
    fs = []
    while l is not None and l.op == 'fld':
        fs.append(l.args[1])
        l = l.args[0]
    if l is not None and l.op == 'at' and l.args[0].op == 'param':
        return l.args[0], tuple(reversed(fs))
    return None, ()


def handles(chk, s):
    chk.begin('owned-handles',
              'What an object of the wrapper layer owns is closed exactly '
              'once: by its close function, or by the callback of its region '
              'if the close function did not do it.')
    prog = s.p
    n = 0
    explicit = set()
    attached = {}       # callback key -> [(file, closes)]
    for f, it, recs in entries(s):
        chk.count(it, recs)
        for r in recs:
            n += attach(chk, s, f, it, r, attached)
        want = CLOSERS.get(f.name)
        if want:
            for r in recs:
                if r.kind != 'ret':
                    continue
                for c in want:
                    k = len([e for e in r.calls(c)])
                    n += 1
                    chk.need(k == 1, r.node, '%s() calls %s() %d times on a '
                             'path that succeeds' % (f.name, c, k), f)
        for r in recs:
            n += released(chk, f, r)
            for e in r.calls('fclose', 'closedir'):
                p, fs = root_param(e.args[0])
                if p is not None and f.name in CLOSERS:
                    explicit |= set(fs[-1:])
    for key, opens in attached.items():
        n += callback(chk, s, key, opens, explicit)
    chk.anchor(n > 20, 'handles')


def attach(chk, s, f, it, r, attached):
    """Openings of handles kept in objects of a region."""
    n = 0
    fields = {}     # open result -> (obj, field)
    stores = {}
    atts = []
    for e in r.events():
        if e.kind == 'store':
            loc, v = e.args
            if loc.op == 'fld' and loc.args[0].op == 'at':
                stores[loc] = v
                if v.op == 'res' and v.args[0] in RAWOPEN:
                    fields[v] = (loc_ptr(loc.args[0]), loc.args[1], e)
        elif e.kind == 'call' and e.name == 'regcomp':
            fields[e.res] = (e.args[0], None, e)
        elif e.kind == 'call' and e.name == 'CR_RegionAttach':
            R, cb, obj = e.args
            atts.append((e, R, cb, obj))
            if cb.op == 'fn':
                own = [(x, fl, v) for v, (x, fl, e2) in fields.items()
                       if x is obj]
                g = s.p.resolve(cb.args[0], f.file)
                if g is not None:
                    for x, fl, v in own:
                        attached.setdefault(g.key, {})[
                            fl, RAWOPEN[v.args[0]]] = e
                    attached.setdefault(g.key, {})
    if r.kind == 'ret':
        for v, (x, fl, e) in fields.items():
            if not regional(r, x):
                continue
            ok = fl is not None and (
                r.facts.decide(mk('eq', v, ZERO)) is True or
                r.facts.decide(mk('eq', v, num(-1))) is True)
            k = len([a for a in atts if a[3] is x])
            n += 1
            chk.need(ok or k == 1, e.node, 'what was opened is bound to its '
                     'region %d times' % k, f)
    return n


def regional(r, x):
    return any(e.res is x for e in r.calls('CR_RegionAlloc'))


def released(chk, f, r):
    """A handle which was closed explicitly is forgotten before the region
    of its object goes away."""
    n = 0
    closed = {}
    cur = {}
    for e in r.events():
        if e.kind == 'store':
            cur[e.args[0]] = e.args[1]
        elif e.kind == 'call' and e.name in ('fclose', 'closedir', 'close'):
            p, fs = root_param(e.args[0])
            if p is not None and len(fs) == 1:
                closed[p, fs[0]] = e
        elif e.kind == 'call' and e.name == 'CR_RegionRelease':
            p, fs = root_param(e.args[0])
            for (q, fl), e2 in closed.items():
                if p is q and fs == ('r',):
                    n += 1
                    v = cur.get(mk('fld', ptr_loc(p), fl))
                    chk.need(v is ZERO, e2.node, 'the region of the object '
                             'closes what was closed here already', f)
    if r.kind == 'die':
        # the exit handlers release nothing that was closed explicitly
        for (q, fl), e2 in closed.items():
            if fl != 'handle':
                continue
            n += 1
            v = cur.get(mk('fld', ptr_loc(q), fl))
            chk.need(v is ZERO, e2.node, 'a closed handle is still known to '
                     'its object when the program ends', f)
    return n


def callback(chk, s, key, opens, explicit):
    n = 0
    for f, it, recs in entries(s):
        if f.key != key:
            continue
        for r in recs:
            for (fl, closer), e in opens.items():
                calls = []
                for c in r.calls(*RAWCLOSE):
                    p, fs = root_param(c.args[0])
                    if p is not None and fs == (fl,) or \
                            fl is None and c.args[0] is it.args[0]:
                        calls.append(c)
                none = fl is not None and r.facts.decide(
                    mk('eq', initf(it.args[0], fl), ZERO)) is True
                n += 1
                if fl in explicit and calls:
                    chk.need(calls[0].facts.decide(mk('eq', initf(
                        it.args[0], fl), ZERO)) is False, f.body, 'a handle '
                        'may be closed although it was closed already', f)
                if none:
                    chk.need(not calls, f.body, 'a handle that was closed '
                             'already is closed again', f)
                else:
                    chk.need(len(calls) == 1 and calls[0].name == closer,
                             f.body, 'the handle of a released object is '
                             'not closed once by %s()' % closer, f)
    return n

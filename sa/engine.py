"""Path-sensitive abstract interpreter over the clang AST.

Every path through a function is followed over symbolic terms; static helper
functions are followed into (so moving code between helpers changes nothing),
calls to functions with a contract are recorded as events.  Loops are analysed
for one generic iteration after widening everything the body changes; no
solver and no concrete execution is involved."""
from collections import defaultdict, namedtuple

from facts import (Facts, FINITE, is_unsigned, exact_join, lossy_join,
                   finleaves, evalterm)
from frontend import AnalysisError, normtype
from terms import (T, mk, num, isint, add, sub, mul, ZERO, ONE, atoms,
                   mentions, lin_parts)

Ev = namedtuple('Ev', 'kind name args res node ctx facts extra')
# kind: call | store | loop | back | die

INTSIZE = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'uint8_t': 1,
           'int8_t': 1, 'bool': 1, '_Bool': 1, 'short': 2,
           'unsigned short': 2, 'uint16_t': 2, 'int16_t': 2, 'int': 4,
           'unsigned int': 4, 'uint32_t': 4, 'int32_t': 4, 'mode_t': 4,
           'uid_t': 4, 'gid_t': 4, 'long': 8, 'unsigned long': 8,
           'size_t': 8, 'uint64_t': 8, 'int64_t': 8, 'time_t': 8,
           'long long': 8, 'unsigned long long': 8, 'off_t': 8,
           'ssize_t': 8, '__mode_t': 4, '__uid_t': 4, '__gid_t': 4,
           'BackupHint': 4, 'BackupPolicy': 4, 'PathStateType': 4}
SIGNED = {'char', 'signed char', 'int8_t', 'short', 'int16_t', 'int',
          'int32_t', 'long', 'int64_t', 'time_t', 'long long', 'off_t',
          'ssize_t'}


# Results of system calls: 0 or -1, at least -1
ZERO_OR_ERROR = set('''close lockf unlink remove rename rmdir mkdir stat lstat
fstat chmod fchmod chown lchown fchown utime utimes utimensat symlink link
closedir fsync fdatasync ftruncate flock access'''.split())
ATLEAST_ERROR = set('open openat readlink read write fileno dup creat'.split())


class Lockstep:
    """What moves with the number of iterations of a loop."""

    def __init__(self):
        self.done = False
        self.k = None       # location of the number of iterations
        self.own = False    # no variable of the program
        self.steps = {}     # location -> change per iteration
        self.limit = set()  # upper bounds of the number of iterations
        self.nolimit = set()
        self.counters = {}  # what grows in some iterations


class Trace:
    """Persistent list of events."""
    __slots__ = ('ev', 'prev', 'n', 'h')

    def __init__(self, ev, prev):
        self.ev = ev
        self.prev = prev
        self.n = prev.n + 1 if prev else 1
        self.h = hash((prev.h if prev else 0, ev.kind, ev.name, ev.args,
                       ev.node))

    def list(self):
        out = []
        t = self
        while t is not None:
            out.append(t.ev)
            t = t.prev
        out.reverse()
        return out


class State:
    __slots__ = ('store', 'facts', 'trace', 'mon', 'occ')

    def __init__(self):
        self.store = {}
        self.facts = Facts()
        self.trace = None
        self.mon = ()
        self.occ = {}

    def copy(self):
        s = State()
        s.store = self.store.copy()
        s.facts = self.facts
        s.trace = self.trace
        s.mon = self.mon
        s.occ = self.occ
        return s

    def events(self):
        return self.trace.list() if self.trace else []


class Out:
    __slots__ = ('kind', 'st', 'val')

    def __init__(self, kind, st, val=None):
        self.kind = kind      # normal break continue return goto
        self.st = st
        self.val = val


class Record:
    __slots__ = ('kind', 'st', 'val', 'node', 'evs')

    def __init__(self, kind, st, val=None, node=None):
        self.kind = kind      # ret | die | back
        self.st = st
        self.val = val
        self.node = node
        self.evs = None

    @property
    def facts(self):
        return self.st.facts

    def events(self):
        if self.evs is None:
            self.evs = self.st.events()
        return self.evs

    def calls(self, *names):
        return [e for e in self.events()
                if e.kind == 'call' and (not names or e.name in names)]


def loc_root(loc):
    while loc.op in ('fld', 'at') and loc.op == 'fld' or loc.op == 'at' and \
            loc.args[0].op == 'decay':
        if loc.op == 'fld':
            loc = loc.args[0]
        else:
            loc = loc.args[0].args[0]
    return loc


def is_local(loc):
    return loc_root(loc).op == 'var'


class Interp:
    MAXSTATES = 60000

    def __init__(self, prog, policy):
        """policy: object with
             inline(func) -> bool
             model(name) -> callable or None
             mutates(name) -> havoc spec
        """
        self.p = prog
        self.policy = policy
        self.records = []
        self.sinks = [self.records]
        self.phis = defaultdict(lambda: {'entry': set(), 'back': set()})
        self.rec_funcs = {}
        self.stack = []
        self.scc = policy.recursive
        self.steps = 0
        self.loopfresh = {}
        self.rawadds = {}
        self.ctxs = {}
        self.loops = {}       # loop key -> node
        self.calls_seen = 0
        self.sites = set()
        self.silent = 0
        self.loopstack = []
        self.analysed = set()

    # ---------------------------------------------------------------- types
    def fieldtype(self, rec, f):
        r = self.p.records.get(rec)
        if r:
            for n, t in r[0]:
                if n == f:
                    return t
        return None

    def fields(self, ty):
        r = self.p.records.get(ty)
        return r

    def basetype(self, ty):
        seen = 0
        while ty and seen < 8:
            if ty in INTSIZE or ty in FINITE:
                return ty
            a = self.p.anon.get('typedef:' + ty)
            if not a:
                return ty
            ty = a
            seen += 1
        return ty

    def is_struct(self, ty):
        if ty is None or ty.endswith('*') or ty.endswith(']'):
            return False
        return ty in self.p.records or ty.startswith('struct ') or \
            ty.startswith('anon:') or ty.startswith('union ')

    # --------------------------------------------------------------- memory
    def deref(self, st, p, node):
        """State after an access through p, which thus is not null."""
        if self.policy.derefs is None:
            return st
        self.policy.derefs(self, st, p, node)
        if p.op in ('param', 'init', 'phi', 'res'):
            t = mk('eq', p, ZERO)
            if st.facts.decide(t) is None:
                f = st.facts.assume(t, False)
                if f is not None:
                    st = st.copy()
                    st.facts = f
        return st

    def ptr_loc(self, p):
        """Location designated by pointer term p."""
        if p.op == 'addr':
            return p.args[0]
        if p.op == 'decay':
            return mk('at', p, ZERO)
        if p.op == 'ptradd':
            b, i = p.args
            if b.op == 'addr':
                if i is ZERO:
                    return b.args[0]
                return mk('at', b, i)
            return mk('at', b, i)
        if p.op == 'fn':
            return mk('fnobj', p)
        return mk('at', p, ZERO)

    def addr_of(self, loc):
        if loc.op == 'at':
            p, i = loc.args
            return self.ptr_add(p, i)
        return mk('addr', loc)

    def ptr_add(self, p, i):
        if i is ZERO:
            return p
        if p.op == 'ptradd':
            return self.ptr_add(p.args[0], add(p.args[1], i))
        if p.op == 'addr' and p.args[0].op == 'at':
            q, j = p.args[0].args
            return self.ptr_add(q, add(j, i))
        if p.op == 'int':
            return add(p, i)
        r = mk('ptradd', p, i)
        r.ty = p.ty
        return r

    def index_loc(self, p, i):
        if p.op == 'ptradd':
            return self.index_loc(p.args[0], add(p.args[1], i))
        if i is ZERO:
            return self.ptr_loc(p)
        return mk('at', p, i)

    def fld(self, loc, f):
        return mk('fld', loc, f)

    def field_of(self, v, f, ty=None):
        """Field f of struct value v."""
        if v.op == 'init':
            r = mk('init', mk('fld', v.args[0], f))
        elif v.op == 'hv':
            r = mk('hv', mk('fld', v.args[0], f), v.args[1], v.args[2])
        elif v.op == 'phi':
            r = mk('phi', v.args[0], v.args[1], mk('fld', v.args[2], f))
        elif v.op == 'struct':
            for k, x in v.args[1]:
                if k == f:
                    return x
            r = mk('fieldof', v, f)
        elif v.op == 'pure' and v.args[0] == 'strUnterminated' and \
                f in ('content', 'length'):
            return v.args[1][f == 'length']
        else:
            r = mk('fieldof', v, f)
        if ty is not None and r.ty is None:
            r.ty = ty
        return r

    def read(self, st, loc, ty=None):
        v = st.store.get(loc)
        if v is None:
            if loc.op == 'fld':
                b = self.parent_value(st, loc.args[0])
                if b is not None:
                    v = self.field_of(b, loc.args[1], ty)
            if v is None and loc.op == 'at':
                c = self.conststring(st, loc.args[0])
                if c is not None:
                    v = self.strchar(c, loc.args[1])
            if v is None:
                v = mk('init', loc)
        if ty is not None and v.ty is None and v.op in (
                'init', 'fieldof', 'hv', 'phi', 'res', 'pure'):
            v.ty = ty
        if ty and self.is_struct(ty):
            return self.read_struct(st, loc, ty, v)
        return v

    def conststring(self, st, p):
        """String literal that pointer p points to."""
        if p.op == 'str':
            return p
        if p.op == 'decay':
            l = p.args[0]
            v = st.store.get(l)
            if v is not None:
                return v if v.op == 'str' else None
            if l.op == 'glob':
                c = self.p.conststrs.get(l.args)
                if c is not None:
                    return mk('str', c)
            if l.op == 'strobj':
                return l.args[0]
        return None

    def strchar(self, c, i):
        if isint(i):
            s = c.args[0]
            s = s[1:-1].encode().decode('unicode_escape')
            if i.args[0] == len(s):
                return ZERO
            if 0 <= i.args[0] < len(s):
                x = ord(s[i.args[0]]) & 255
                return num(x - 256 if x > 127 else x)
        r = mk('strchar', c, i)
        r.ty = 'char'
        return r

    def parent_value(self, st, loc):
        v = st.store.get(loc)
        if v is not None:
            return v
        if loc.op == 'fld':
            b = self.parent_value(st, loc.args[0])
            if b is not None:
                return self.field_of(b, loc.args[1])
        return None

    def subkeys(self, st, loc):
        out = []
        for k in st.store:
            if k is loc:
                continue
            x = k
            while x.op == 'fld':
                x = x.args[0]
                if x is loc:
                    out.append(k)
                    break
            else:
                if x.op == 'at' and self._under(x, loc):
                    out.append(k)
        return out

    def _under(self, x, loc):
        while True:
            if x is loc:
                return True
            if x.op == 'fld':
                x = x.args[0]
            elif x.op == 'at' and x.args[0].op == 'decay':
                x = x.args[0].args[0]
            elif x.op == 'at' and x.args[0].op == 'addr':
                x = x.args[0].args[0]
            else:
                return False

    def read_struct(self, st, loc, ty, base):
        """Value of a whole struct as one term."""
        rec = self.p.records.get(ty)
        if not rec:
            return base
        sk = self.subkeys(st, loc)
        if not sk:
            return base
        vals = []
        for f, t in rec[0]:
            vals.append((f, self.read(st, mk('fld', loc, f), t)))
        return self.mkstruct(ty, vals)

    def mkstruct(self, ty, vals):
        # collapse {x.a, x.b, ...} to x
        src = None
        for f, v in vals:
            b = self._field_base(v, f)
            if b is None or (src is not None and b is not src):
                return mk('struct', ty, tuple(vals))
            src = b
        return src if src is not None else mk('struct', ty, tuple(vals))

    def _field_base(self, v, f):
        if v.op == 'fieldof' and v.args[1] == f:
            return v.args[0]
        if v.op == 'init' and v.args[0].op == 'fld' and v.args[0].args[1] == f:
            return mk('init', v.args[0].args[0])
        if v.op == 'hv' and v.args[0].op == 'fld' and v.args[0].args[1] == f:
            return mk('hv', v.args[0].args[0], v.args[1], v.args[2])
        if v.op == 'phi' and v.args[2].op == 'fld' and \
                v.args[2].args[1] == f:
            return mk('phi', v.args[0], v.args[1], v.args[2].args[0])
        return None

    def write(self, st, loc, v, node=None, quiet=False):
        """In-place update of st."""
        for k in self.subkeys(st, loc):
            del st.store[k]
        st.store[loc] = v
        if v.op == 'struct':
            # keep fields individually addressable
            del st.store[loc]
            base = st.store.get(loc)
            for f, x in v.args[1]:
                self.write(st, mk('fld', loc, f), x, node, quiet)
            return
        if not quiet and not is_local(loc):
            self.event(st, Ev('store', None, (loc, v), None, node,
                              self.ctx(), st.facts, None))

    def havoc_loc(self, st, loc, site, n):
        for k in self.subkeys(st, loc):
            del st.store[k]
        st.store[loc] = mk('hv', loc, site, n)

    # --------------------------------------------------------------- events
    def event(self, st, ev):
        if self.policy.filter is not None and self.policy.filter(st, ev,
                                                                 self):
            return
        st.trace = Trace(ev, st.trace)
        m = self.policy.monitor
        if m is not None:
            st.mon = m(st.mon, ev, self)

    def ctx(self):
        return self.ctxs.setdefault(tuple(x[1] for x in self.stack),
                                    len(self.ctxs))

    # ---------------------------------------------------------------- loads
    def load(self, st, loc, node):
        ty = node.ty
        if self.policy.loads is not None:
            self.policy.loads(self, st, loc, node)
        v = self.read(st, loc, ty)
        vs = st.facts.values(v) if v.op not in ('int', 'str', 'addr') and \
            (v.op != 'init' or v.ty in FINITE) else None
        if vs is not None and len(vs) == 1:
            return num(next(iter(vs)))
        return v

    # ---------------------------------------------------------- expressions
    def lval(self, e, st):
        k = e.kind
        if k == 'DeclRefExpr':
            return [(st, self.varloc(e))]
        if k == 'MemberExpr':
            if e.arrow:
                return [(self.deref(s, p, e),
                         mk('fld', self.ptr_loc(p), e.name))
                        for s, p in self.eval(e.kids[0], st)]
            b = e.kids[0]
            if self.is_lvalue(b):
                return [(s, mk('fld', l, e.name)) for s, l in
                        self.lval(b, st)]
            out = []
            for s, v in self.eval(b, st):
                l = mk('var', '<tmp>', b.nid, self.ctx())
                s = s.copy()
                self.write(s, l, v)
                out.append((s, mk('fld', l, e.name)))
            return out
        if k == 'ArraySubscriptExpr':
            out = []
            for s, p in self.eval(e.kids[0], st):
                for s2, i in self.eval(e.kids[1], s):
                    if e.kids[0].ty and not e.kids[0].ty.endswith('*') and \
                            e.kids[1].ty and e.kids[1].ty.endswith('*'):
                        p, i = i, p
                    s2 = self.deref(s2, p, e)
                    out.append((s2, self.index_loc(p, i)))
            return out
        if k == 'UnaryOperator' and e.op == '*':
            return [(self.deref(s, p, e), self.ptr_loc(p)) for s, p in
                    self.eval(e.kids[0], st)]
        if k == 'CompoundLiteralExpr':
            out = []
            for s, v in self.eval(e.kids[0], st):
                l = mk('var', '<lit>', e.nid, self.ctx())
                s = s.copy()
                self.write(s, l, v)
                out.append((s, l))
            return out
        if k == 'StringLiteral':
            return [(st, mk('strobj', mk('str', e.val)))]
        if k in ('ImplicitCastExpr', 'CStyleCastExpr') and \
                e.cast in ('NoOp', 'BitCast', 'LValueBitCast'):
            return self.lval(e.kids[0], st)
        if k == 'PredefinedExpr':
            return [(st, mk('strobj', mk('str', '__func__')))]
        raise AnalysisError('lvalue %r' % e)

    def is_lvalue(self, e):
        if e.kind in ('DeclRefExpr', 'ArraySubscriptExpr',
                      'CompoundLiteralExpr', 'StringLiteral'):
            return True
        if e.kind == 'MemberExpr':
            return e.arrow or self.is_lvalue(e.kids[0])
        if e.kind == 'UnaryOperator':
            return e.op == '*'
        if e.kind in ('ImplicitCastExpr', 'CStyleCastExpr'):
            return e.cast == 'NoOp' and self.is_lvalue(e.kids[0])
        return False

    def varloc(self, e):
        kind, did = e.decl
        if kind in ('VarDecl', 'ParmVarDecl'):
            if (e.file, did) in self.localdecls:
                return mk('var', e.name, (e.file, did), self.ctx())
            if (e.file, did) in self.staticlocals:
                return mk('glob', e.file, e.name + '@' + did)
            g = self.p.globals.get((e.file, e.name))
            if g and g[2]:
                return mk('glob', e.file, e.name)
            return mk('glob', '', e.name)
        raise AnalysisError('variable %r' % e)

    def eval_many(self, es, st):
        out = [(st, ())]
        for e in es:
            nxt = []
            for s, vs in out:
                for s2, v in self.eval(e, s):
                    nxt.append((s2, vs + (v,)))
            out = nxt
        return out

    def eval(self, e, st):
        self.steps += 1
        m = getattr(self, 'e_' + e.kind, None)
        if m is None:
            raise AnalysisError('expression %r' % e)
        return m(e, st)

    def e_IntegerLiteral(self, e, st):
        return [(st, num(e.val))]

    e_CharacterLiteral = e_IntegerLiteral

    def e_FloatingLiteral(self, e, st):
        return [(st, mk('float', str(e.val)))]

    def e_StringLiteral(self, e, st):
        return [(st, mk('str', e.val))]

    def e_PredefinedExpr(self, e, st):
        return [(st, mk('str', '__func__'))]

    def e_DeclRefExpr(self, e, st):
        k = e.decl[0]
        if k == 'EnumConstantDecl':
            return [(st, num(self.p.enums[e.name]))]
        if k == 'FunctionDecl':
            return [(st, mk('fn', e.name))]
        if e.ty and e.ty.endswith(']'):
            return [(st, mk('decay', self.varloc(e)))]
        return [(st, self.load(st, self.varloc(e), e))]

    def e_ImplicitCastExpr(self, e, st):
        c = e.cast
        x = e.kids[0]
        if c == 'LValueToRValue':
            return [(s, self.load(s, l, e)) for s, l in self.lval(x, st)]
        if c == 'ArrayToPointerDecay':
            if x.kind == 'StringLiteral':
                return [(st, mk('str', x.val))]
            out = []
            for s, l in self.lval(x, st):
                r = mk('decay', l)
                out.append((s, r))
            return out
        if c == 'FunctionToPointerDecay':
            return self.eval(x, st)
        if c == 'NullToPointer':
            return [(st, ZERO)]
        if c in ('IntegralToBoolean', 'PointerToBoolean'):
            out = []
            for s, v in self.eval(x, st):
                out.append((s, self.tobool(v, s)))
            return out
        if c == 'IntegralCast':
            return [(s, self.intcast(v, e.ty, x.ty)) for s, v in
                    self.eval(x, st)]
        if c == 'ToVoid':
            return [(s, ZERO) for s, v in self.eval(x, st)]
        return self.eval(x, st)

    e_CStyleCastExpr = e_ImplicitCastExpr

    def tobool(self, v, st):
        if isint(v):
            return num(v.args[0] != 0)
        if v.op in ('eq', 'lt', 'not') or v.ty in ('bool', '_Bool'):
            return v
        d = st.facts.decide(v)
        if d is not None:
            return num(d)
        return mk('not', mk('eq', v, ZERO))

    def intcast(self, v, ty, fromty):
        ty = self.basetype(ty)
        w = INTSIZE.get(ty)
        f = INTSIZE.get(self.basetype(fromty))
        if isint(v):
            if w is None:
                return v
            x = v.args[0]
            m = 1 << (8 * w)
            x &= m - 1
            if ty in SIGNED and x >= m >> 1:
                x -= m
            return num(x)
        if w is not None and f is not None and w < f and \
                v.op not in ('eq', 'lt', 'not'):
            if w == 1 and ty in ('bool', '_Bool'):
                return mk('not', mk('eq', v, ZERO))
            return mk('trunc', 8 * w, v)
        return v

    def e_MemberExpr(self, e, st):
        # rvalue struct member
        if e.ty and e.ty.endswith(']'):
            return [(s, mk('decay', l)) for s, l in self.lval(e, st)]
        if not e.arrow and not self.is_lvalue(e.kids[0]):
            return [(s, self.field_of(v, e.name, e.ty))
                    for s, v in self.eval(e.kids[0], st)]
        return [(s, self.load(s, l, e)) for s, l in self.lval(e, st)]

    def e_ArraySubscriptExpr(self, e, st):
        return [(s, self.load(s, l, e)) for s, l in self.lval(e, st)]

    def e_CompoundLiteralExpr(self, e, st):
        return self.eval(e.kids[0], st)

    def e_ImplicitValueInitExpr(self, e, st):
        return [(st, self.zero(e.ty))]

    def zero(self, ty):
        rec = self.p.records.get(ty)
        if rec and rec[1] != 'union':
            return mk('struct', ty, tuple((f, self.zero(t))
                                          for f, t in rec[0]))
        return ZERO

    def e_InitListExpr(self, e, st):
        rec = self.p.records.get(e.ty)
        if rec is None or e.ty.endswith(']'):
            out = []
            for s, vs in self.eval_many(e.kids, st):
                out.append((s, mk('array', vs)))
            return out
        if rec[1] == 'union' or e.extra:
            f = e.extra or rec[0][0][0]
            return [(s, mk('struct', e.ty, ((f, vs[0]),) if vs else ()))
                    for s, vs in self.eval_many(e.kids, st)]
        out = []
        for s, vs in self.eval_many(e.kids, st):
            names = [f for f, t in rec[0]]
            vals = list(zip(names, vs))
            for f, t in rec[0][len(vs):]:
                vals.append((f, self.zero(t)))
            out.append((s, self.mkstruct(e.ty, vals)))
        return out

    def e_UnaryExprOrTypeTraitExpr(self, e, st):
        ty = e.extra or (e.kids[0].ty if e.kids else None)
        return [(st, self.sizeof(ty))]

    def sizeof(self, ty):
        import re
        m = re.match(r'^(.*?)\[(\d+)\]((?:\[\d+\])*)$', ty)
        if m:
            return mul(num(int(m.group(2))),
                       self.sizeof((m.group(1) + m.group(3)).strip()))
        if ty.endswith('*'):
            return num(8)
        b = self.basetype(ty)
        if b in INTSIZE:
            return num(INTSIZE[b])
        r = mk('sizeof', ty)
        return r

    def e_UnaryOperator(self, e, st):
        o = e.op
        x = e.kids[0]
        if o == '&':
            if x.kind == 'DeclRefExpr' and x.decl[0] == 'FunctionDecl':
                return self.eval(x, st)
            return [(s, self.addr_of(l)) for s, l in self.lval(x, st)]
        if o == '*':
            if e.ty and e.ty.endswith(']'):
                return [(s, mk('decay', l)) for s, l in self.lval(e, st)]
            return [(s, self.load(s, l, e)) for s, l in self.lval(e, st)]
        if o in ('++', '--'):
            out = []
            for s, l in self.lval(x, st):
                s = s.copy()
                v = self.load(s, l, x)
                if x.ty and x.ty.endswith('*'):
                    n = self.ptr_add(v, ONE if o == '++' else num(-1))
                else:
                    n = add(v, ONE, 1 if o == '++' else -1)
                    if n.ty is None:
                        n.ty = x.ty
                    if self.policy.raw:
                        self.event(s, Ev('raw', o[0], (v, ONE), n, e,
                                         self.ctx(), s.facts, x.ty))
                self.write(s, l, n, e)
                out.append((s, v if e.extra else n))
            return out
        if o == '!':
            out = []
            for s, b in self.cond(x, st):
                out.append((s, num(not b)))
            return out
        out = []
        for s, v in self.eval(x, st):
            if o == '-':
                r = mul(num(-1), v)
            elif o == '+':
                r = v
            elif o == '~':
                r = num(~v.args[0]) if isint(v) else mk('~', v)
            elif o == '__extension__':
                r = v
            else:
                raise AnalysisError('unary %s' % o)
            out.append((s, r))
        return out

    def arith(self, o, a, b, e, ptr_a=False, ptr_b=False):
        if o == '+':
            if ptr_a:
                return self.ptr_add(a, b)
            if ptr_b:
                return self.ptr_add(b, a)
            r = add(a, b)
            if e.kind == 'BinaryOperator' and not isint(a) and \
                    not isint(b):
                self.rawadds.setdefault(r, set()).add(e)
        elif o == '-':
            if ptr_a and ptr_b:
                return self.ptr_diff(a, b)
            if ptr_a:
                return self.ptr_add(a, mul(num(-1), b))
            r = sub(a, b)
        elif o == '*':
            r = mul(a, b)
        elif o in ('/', '%', '<<', '>>', '&', '|', '^'):
            if isint(a) and isint(b):
                x, y = a.args[0], b.args[0]
                if o in '/%' and y == 0:
                    return mk(o, a, b)
                r = num({'/': lambda: x // y, '%': lambda: x % y,
                         '<<': lambda: x << y, '>>': lambda: x >> y,
                         '&': lambda: x & y, '|': lambda: x | y,
                         '^': lambda: x ^ y}[o]())
                return self.intcast(r, e.ty, e.ty)
            if o == '<<' and isint(b):
                # canonical form of scaling
                r = mk('<<', a, b)
                if r.ty is None:
                    r.ty = e.ty
                return r
            if o == '/' and a is not b:
                c, parts = lin_parts(a)
                if c == 0 and len(parts) == 1 and b in parts and \
                        b.op == 'sizeof':
                    return num(parts[b])
            if o in '&|^':
                if isint(a) or (not isint(b) and a.id > b.id):
                    a, b = b, a
                if o == '|' and b is ZERO:
                    return a
                if o == '&' and b is ZERO:
                    return ZERO
            r = mk(o, a, b)
            if o == '|' and isint(b) is False:
                if r.ty is None:
                    r.ty = e.ty
                r = self.byteswap(r)
        else:
            raise AnalysisError('binary %s' % o)
        if r.ty is None and r.op != 'int':
            r.ty = e.ty
        return r

    _bits = {}

    def bits(self, t):
        """Where every bit of t comes from: tuple of None (zero) or
        (term, bit), least significant first."""
        if t in self._bits:
            return self._bits[t]
        w = 8 * INTSIZE.get(self.basetype(t.ty), 8) if t.ty else 64
        r = None
        o = t.op
        if o in ('<<', '>>') and isint(t.args[1]):
            x = self.bits(t.args[0])
            n = t.args[1].args[0]
            if x is not None and self.basetype(t.ty) not in SIGNED:
                x = list(x[:w]) + [None] * (w - len(x))
                r = ([None] * n + x)[:w] if o == '<<' else \
                    (x[n:] + [None] * n)[:w]
        elif o == '&' and (isint(t.args[0]) or isint(t.args[1])):
            a, c = t.args if isint(t.args[1]) else reversed(t.args)
            x = self.bits(a)
            if x is not None:
                r = [b if c.args[0] >> i & 1 else None
                     for i, b in enumerate(x[:w])]
        elif o == '|' and not isint(t.args[0]) and not isint(t.args[1]):
            x, y = self.bits(t.args[0]), self.bits(t.args[1])
            if x is not None and y is not None:
                n = max(len(x), len(y))
                x = list(x) + [None] * (n - len(x))
                y = list(y) + [None] * (n - len(y))
                if all(a is None or b is None or a == b
                       for a, b in zip(x, y)):
                    r = [a or b for a, b in zip(x, y)]
        elif o not in ('|', '&', '^', '<<', '>>', 'int'):
            r = [(t, i) for i in range(w)]
        r = None if r is None else tuple(r)
        self._bits[t] = r
        return r

    def byteswap(self, t):
        """bswap(x) for a complete reversal of the bytes of x."""
        b = self.bits(t)
        if not b or b[-1] is None:
            return t
        x, w = b[0][0] if b[0] else None, len(b)
        if x is None or w % 16 or not all(
                y is not None and y[0] is x for y in b):
            return t
        if all(y[1] == w - 8 - 8 * (i // 8) + i % 8
               for i, y in enumerate(b)):
            r = mk('bswap', x)
            r.ty = t.ty
            return r
        return t

    def ptr_diff(self, a, b):
        def split(p):
            if p.op == 'ptradd':
                return p.args
            return p, ZERO
        (x, i), (y, j) = split(a), split(b)
        if x is y:
            return sub(i, j)
        return sub(a, b)

    def isptr(self, e):
        return bool(e.ty) and (e.ty.endswith('*') or '(*)' in e.ty)

    def compare(self, o, a, b, unsigned=False):
        if o in ('>', '>='):
            a, b = b, a
            o = {'>': '<', '>=': '<='}[o]
        if a.op == 'ptradd' or b.op == 'ptradd':
            (x, i), (y, j) = (p.args if p.op == 'ptradd' else (p, ZERO)
                              for p in (a, b))
            if x is y:
                return self.compare(o, i, j, True)
        if o == '!=':
            r = self.compare('==', a, b, unsigned)
            return self.neg(r)
        if o == '<=':
            return self.neg(self.compare('<', b, a, unsigned))
        if o == '==':
            if a is b:
                return ONE
            if isint(a) and isint(b):
                return num(a.args[0] == b.args[0])
            # bool == 0/1
            if isint(a):
                a, b = b, a
            if isint(b) and a.op in ('eq', 'lt', 'not'):
                if b.args[0] == 0:
                    return self.neg(a)
                if b.args[0] == 1:
                    return a
            if isint(b) and a.ty in ('bool', '_Bool') and a.op in (
                    'res', 'init', 'phi', 'hv', 'pure', 'fieldof', 'param'):
                if b.args[0] == 0:
                    return self.neg(a)
                if b.args[0] == 1:
                    return a
            if a.op == 'lin' or b.op == 'lin':
                d = sub(a, b)
                if isint(d):
                    return num(d.args[0] == 0)
                c, parts = lin_parts(d)
                if len(parts) == 1 and list(parts.values())[0] in (1, -1):
                    (k, s), = parts.items()
                    return mk('eq', k, num(-c * s))
                # canonical: split into positive / negative side
                if len(parts) == 2 and set(parts.values()) == {1, -1} and \
                        c == 0:
                    k1, k2 = sorted(parts, key=lambda t: t.id)
                    return mk('eq', k1, k2)
            if not isint(b) and a.id > b.id:
                a, b = b, a
            return mk('eq', a, b)
        if o == '<':
            if a is b:
                return ZERO
            if isint(a) and isint(b):
                return num(a.args[0] < b.args[0])
            if unsigned:
                if isint(a) and a.args[0] == 0:
                    return self.neg(self.compare('==', b, ZERO))
                if isint(b) and b.args[0] == 1:
                    return self.compare('==', a, ZERO)
                if isint(b) and b.args[0] == 0:
                    return ZERO
            if (a.op == 'lin' or b.op == 'lin') and not unsigned:
                d = sub(a, b)
                if isint(d):
                    return num(d.args[0] < 0)
            return mk('lt', a, b)
        raise AnalysisError('compare %s' % o)

    def neg(self, t):
        if isint(t):
            return num(not t.args[0])
        if t.op == 'not':
            return t.args[0]
        return mk('not', t)

    def e_BinaryOperator(self, e, st):
        o = e.op
        a, b = e.kids
        if o == '=':
            out = []
            for s, v in self.eval(b, st):
                for s2, l in self.lval(a, s):
                    s2 = s2.copy()
                    if a.ty and self.is_struct(a.ty):
                        self.copy_struct(s2, l, v, b, e)
                    else:
                        if v.ty is None and v.op in ('res',):
                            v.ty = a.ty
                        self.write(s2, l, v, e)
                    out.append((s2, v))
            return out
        if o == ',':
            out = []
            for s, _ in self.eval(a, st):
                out += self.eval(b, s)
            return out
        if o in ('&&', '||'):
            return [(s, num(v)) for s, v in self.cond(e, st)]
        out = []
        for s, x in self.eval(a, st):
            for s2, y in self.eval(b, s):
                if o in ('==', '!=', '<', '>', '<=', '>='):
                    out.append((s2, self.compare(o, x, y, self.uns(a))))
                else:
                    r = self.arith(o, x, y, e, self.isptr(a), self.isptr(b))
                    if self.policy.raw and o in ('+', '-', '*', '<<') and \
                            not (self.isptr(a) or self.isptr(b)):
                        s2 = s2.copy()
                        self.event(s2, Ev('raw', o, (x, y), r, e,
                                          self.ctx(), s2.facts, e.ty))
                    out.append((s2, r))
        return out

    def uns(self, e):
        t = self.basetype(e.ty)
        return t in INTSIZE and t not in SIGNED

    def copy_struct(self, st, dst, v, src_e, node):
        self.write(st, dst, v, node)

    def e_CompoundAssignOperator(self, e, st):
        o = e.op[:-1]
        a, b = e.kids
        out = []
        for s, l in self.lval(a, st):
            for s2, y in self.eval(b, s):
                x = self.load(s2, l, a)
                s3 = s2.copy()
                if o in ('|', '&') and a.ty in ('bool', '_Bool'):
                    # boolean accumulate
                    y2 = self.tobool(y, s3)
                    if isint(x):
                        v = (y2 if o == '|' else ZERO) if x is ZERO else \
                            (ONE if o == '|' else y2)
                    elif isint(y2):
                        v = (x if o == '|' else ZERO) if y2 is ZERO else \
                            (ONE if o == '|' else x)
                    else:
                        v = mk(o, *sorted((x, y2), key=lambda t: t.id))
                        v.ty = 'bool'
                else:
                    v = self.arith(o, x, y, e, self.isptr(a), False)
                    if self.policy.raw and o in ('+', '-', '*', '<<') and \
                            not self.isptr(a):
                        self.event(s3, Ev('raw', o, (x, y), v, e,
                                          self.ctx(), s3.facts, a.ty))
                self.write(s3, l, v, e)
                out.append((s3, v))
        return out

    def e_ConditionalOperator(self, e, st):
        c, a, b = e.kids
        out = []
        for s, v in self.cond(c, st):
            out += self.eval(a if v else b, s)
        return self.mergevals(out)

    def mergevals(self, out):
        if len(out) < 2:
            return out
        if self.policy.lossy:
            return [(s, v) for s, v in self.mergelossy(out)]
        groups = {}
        for s, v in out:
            k = (v, s.trace.h if s.trace else 0, s.mon,
                 frozenset(s.store.items()))
            groups.setdefault(k, []).append(s)
        res = []
        for (v, _, _, _), ss in groups.items():
            for s in self.joinfacts(ss):
                res.append((s, v))
        return res

    def mergelossy(self, out):
        """Join of all states that went through the same events and agree in
        every pointer."""
        groups = {}
        for s, v in out:
            k = (v, s.trace.h if s.trace else 0, s.mon,
                 frozenset((l, x) for l, x in s.store.items()
                           if not self.scalar(l, x)))
            groups.setdefault(k, []).append(s)
        res = []
        for (v, _, _, _), ss in groups.items():
            n = ss[0]
            if len(ss) > 1:
                n = n.copy()
                n.facts = lossy_join([s.facts for s in ss])
                n.occ = {k: max(s.occ.get(k, 0) for s in ss)
                         for k in set().union(*[s.occ for s in ss])}
                for l in set().union(*[s.store for s in ss]):
                    xs = {self.read_plain(s, l) for s in ss}
                    if len(xs) > 1:
                        self.fresh += 1
                        h = mk('hv', l, 'join', self.fresh)
                        h.ty = next(iter(xs)).ty
                        n.store[l] = h
            res.append((n, v))
        return res

    fresh = 0

    def scalar(self, loc, v):
        if loc.op == 'var':
            t = self.decltypes.get(loc.args[1])
        elif loc.op == 'fld':
            t = self.fieldtype(loc.args[1])
        else:
            t = None
        if t is None:
            t = v.ty
        return t is not None and (normtype(t) in INTSIZE or
                                  normtype(t) in FINITE)

    def fieldtype(self, f):
        tab = self.p.__dict__.get('_fieldtypes')
        if tab is None:
            tab = {}
            for fields, tag in self.p.records.values():
                for n, t in fields:
                    tab.setdefault(n, set()).add(normtype(t))
            self.p._fieldtypes = tab
        ts = tab.get(f, ())
        if len(ts) == 1 or ts and all(x in INTSIZE for x in ts):
            return sorted(ts)[0]
        return None

    def joinfacts(self, ss):
        """Exact joins of states that differ in their facts only."""
        ss = list(ss)
        changed = True
        while changed and len(ss) > 1:
            changed = False
            for i in range(len(ss)):
                for j in range(i + 1, len(ss)):
                    f = exact_join(ss[i].facts, ss[j].facts)
                    if f is not None:
                        n = ss[i].copy()
                        n.facts = f
                        n.occ = {k: max(ss[i].occ.get(k, 0),
                                        ss[j].occ.get(k, 0))
                                 for k in set(ss[i].occ) | set(ss[j].occ)}
                        ss = [x for k, x in enumerate(ss)
                              if k not in (i, j)] + [n]
                        changed = True
                        break
                if changed:
                    break
        return ss

    # ------------------------------------------------------------ condition
    def cond(self, e, st):
        k = e.kind
        if k == 'BinaryOperator' and e.op in ('&&', '||'):
            out = []
            for s, v in self.cond(e.kids[0], st):
                if e.op == '&&' and not v or e.op == '||' and v:
                    out.append((s, v))
                else:
                    out += self.cond(e.kids[1], s)
            return self.mergebools(out)
        if k == 'UnaryOperator' and e.op == '!':
            return [(s, not v) for s, v in self.cond(e.kids[0], st)]
        if k in ('ImplicitCastExpr', 'CStyleCastExpr') and e.cast in (
                'IntegralToBoolean', 'PointerToBoolean', 'NoOp') or \
                k in ('ImplicitCastExpr',) and e.cast == 'IntegralCast' and \
                e.kids[0].ty in ('bool', '_Bool', 'int'):
            if not (e.cast == 'NoOp' and self.is_lvalue(e)):
                return self.cond(e.kids[0], st)
        out = []
        for s, v in self.eval(e, st):
            out += self.branch(s, v)
        return out

    def branch(self, s, v):
        d = s.facts.decide(v)
        if d is not None:
            return [(s, d)]
        out = []
        for pol in (True, False):
            f = s.facts.assume(v, pol)
            if f is not None:
                n = s.copy()
                n.facts = f
                out.append((n, pol))
        return out

    def mergebools(self, out):
        return [(s, v) for s, v in self.mergevals(
            [(s, num(v)) for s, v in out])] and [
            (s, bool(v.args[0])) for s, v in self.mergevals(
                [(s, num(v)) for s, v in out])]

    # ---------------------------------------------------------------- calls
    def e_CallExpr(self, e, st):
        callee = e.kids[0]
        args = e.kids[1:]
        name = None
        x = callee
        while x.kind in ('ImplicitCastExpr', 'CStyleCastExpr') or \
                x.kind == 'UnaryOperator' and x.op in ('*', '&') and \
                False:
            x = x.kids[0]
        out = []
        if x.kind == 'DeclRefExpr' and x.decl[0] == 'FunctionDecl':
            name = x.name
            for s, vs in self.eval_many(args, st):
                out += self.call(name, vs, s, e)
            return out
        for s, f in self.eval(callee, st):
            for s2, vs in self.eval_many(args, s):
                if f.op == 'fn':
                    out += self.call(f.args[0], vs, s2, e)
                else:
                    out += self.opaque('*', vs, s2, e, extra=f)
        return out

    def site(self, st, e):
        key = (e.nid, self.ctx())
        n = st.occ.get(key, 0)
        st.occ = dict(st.occ)
        st.occ[key] = n + 1
        return n

    def result(self, name, e, st, ty=None, bump=True):
        key = (e.nid, self.ctx())
        n = st.occ.get(key, 0)
        if bump:
            st.occ = dict(st.occ)
            st.occ[key] = n + 1
        r = mk('res', name, e.nid, key[1], n)
        if r.ty is None:
            r.ty = ty or e.ty
        return r

    def call(self, name, args, st, e):
        self.sites.add((e.file, e.line, name))
        self.calls_seen += 1
        m = self.policy.model(name)
        f = self.p.resolve(name, e.file)
        if m is not None and not (f is not None and f.static and
                                  self.policy.inline(f)):
            return m(self, name, args, st, e)
        if f is not None and self.policy.inline(f):
            if f.key in self.scc and f.key not in self.policy.unroll and (
                    f.key in self.policy.heads or
                    any(x[0].key == f.key for x in self.stack)):
                self.rec_funcs[f.key] = f
                return self.opaque(name, args, st, e, rec=f)
            if len(self.stack) > 30:
                raise AnalysisError('inlining too deep at %r' % e)
            return self.inline(f, args, st, e)
        return self.opaque(name, args, st, e)

    def opaque(self, name, args, st, e, rec=None, extra=None, ty=None,
               havoc=True):
        st = st.copy()
        if name in self.policy.noreturn:
            self.event(st, Ev('die', name, tuple(args), None, e, self.ctx(),
                              st.facts, extra))
            self.finish('die', st, None, e)
            return []
        pure = name in self.policy.pure
        if pure:
            res = mk('pure', name, tuple(args))
            if res.ty is None:
                res.ty = e.ty
            self.event(st, Ev('call', name, tuple(args), res, e, self.ctx(),
                              st.facts, extra)) if \
                name in self.policy.pure_events else None
            return [(st, res)]
        res = self.result(name, e, st, ty)
        if name in self.policy.silent:
            return [(st, res)]
        if rec is None and (name in ZERO_OR_ERROR or name in ATLEAST_ERROR):
            f = st.facts.assume(mk('lt', res, num(-1)), False)
            if f is not None and name in ZERO_OR_ERROR:
                f = f.assume(mk('lt', num(0), res), False)
            if f is not None:
                st.facts = f
        kind = 'call'
        if rec is not None and self.policy.passed:
            vals = []
            for i, a in enumerate(args):
                ty = rec.params[i][1] if i < len(rec.params) else ''
                if ty.endswith('*') and 'const' not in ty and \
                        ty[:-1].strip() in INTSIZE:
                    vals.append((i, self.read_plain(st, self.ptr_loc(a))))
            self.event(st, Ev('passed', name, tuple(args), res, e, self.ctx(),
                              st.facts, tuple(vals)))
        self.event(st, Ev(kind, name, tuple(args), res, e, self.ctx(),
                          st.facts, rec.key if rec else extra))
        if havoc:
            self.havoc_args(name, args, st, res, rec)
        if self.policy.errno:
            self.havoc_loc(st, mk('glob', '', 'errno'), res, name)
        if rec is not None and rec.ret in ('bool', '_Bool') or \
                name in self.policy.fork:
            out = []
            for v in sorted(FINITE.get(res.ty, ())):
                f = st.facts.restrict(res, v)
                if f is not None:
                    s = st.copy()
                    s.facts = f
                    self.event(s, Ev('fork', name, tuple(args), num(v), e,
                                     self.ctx(), f,
                                     rec.key if rec else None))
                    out.append((s, num(v)))
            if out:
                return out
        return [(st, res)]

    def havoc_args(self, name, args, st, res, rec=None):
        spec = self.policy.mutates(name)
        site = res
        if spec is None:
            # unknown effect: everything whose address is passed
            cp = self.p.const_params(name)
            for i, a in enumerate(args):
                if i < len(cp) and cp[i]:
                    continue
                if rec is not None and a.op in ('init', 'param', 'res', 'hv',
                                                'phi') and \
                        i < len(rec.params) and rec.params[i][1] and \
                        rec.params[i][1].endswith('*'):
                    self.havoc_loc(st, self.ptr_loc(a), site, name)
                if a.op in ('addr', 'decay'):
                    self.havoc_loc(st, a.args[0], site, name)
                elif a.op == 'ptradd' and a.args[0].op in ('addr', 'decay'):
                    self.havoc_loc(st, a.args[0].args[0], site, name)
        else:
            for s in spec:
                if s == 'globals':
                    continue
                if isinstance(s, int):
                    if s < len(args):
                        a = args[s]
                        l = self.ptr_loc(a)
                        if a.op == 'decay':
                            l = a.args[0]
                        elif a.op == 'ptradd' and a.args[0].op == 'decay':
                            l = a.args[0].args[0]
                        self.havoc_loc(st, l, site, name)
                else:
                    i, path = s
                    l = self.ptr_loc(args[i])
                    for f in path:
                        l = mk('fld', l, f)
                    self.havoc_loc(st, l, site, name)
        if rec is not None:
            for k in list(st.store):
                if loc_root(k).op == 'glob':
                    self.havoc_loc(st, k, site, name)

    def inline(self, f, args, st, e):
        self.analysed.add(f.key)
        st = st.copy()
        self.stack.append((f, e.nid if e is not None else 0))
        try:
            ctx = self.ctx()
            self.bind_params(f, args, st)
            outs = self.exec(f.body, st)
        finally:
            self.stack.pop()
        res = []
        for o in outs:
            s = o.st
            if o.kind == 'return':
                v = o.val if o.val is not None else ZERO
            elif o.kind == 'normal':
                v = ZERO
            else:
                raise AnalysisError('stray %s in %s' % (o.kind, f.name))
            s = s.copy()
            for k in [k for k in s.store if self._has_ctx(k, ctx)]:
                del s.store[k]
            res.append((s, v))
        return self.mergevals(res)

    def _has_ctx(self, k, ctx):
        r = loc_root(k)
        return r.op == 'var' and r.args[2] == ctx

    def bind_params(self, f, args, st):
        ctx = self.ctx()
        for i, (n, t, did) in enumerate(f.params):
            self.localdecls.add((f.file, did))
            l = mk('var', n, (f.file, did), ctx)
            if i < len(args):
                v = args[i]
                self.write(st, l, v, None, True)

    # ------------------------------------------------------------ statements
    def exec(self, n, st):
        """list of Out"""
        if n is None:
            return [Out('normal', st)]
        k = n.kind
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n, st)
        return [Out('normal', s) for s, v in
                self.mergestates(self.eval(n, st))]

    def mergestates(self, out):
        return self.mergevals([(s, ZERO) for s, v in out])

    def s_NullStmt(self, n, st):
        return [Out('normal', st)]

    def s_CompoundStmt(self, n, st, start=0):
        return self.seq(n.kids, st)

    def seq(self, kids, st):
        cur = [(0, st)]
        done = []
        pend = {}
        # process statement by statement, with goto resumption
        states = {0: [st]}
        n = len(kids)
        for i in range(n):
            ss = states.pop(i, [])
            if not ss:
                continue
            nxt = []
            for s in ss:
                for o in self.exec(kids[i], s):
                    if o.kind == 'normal':
                        nxt.append(o.st)
                    elif o.kind == 'goto':
                        j = self.find_label(kids, o.val)
                        if j is not None and j > i:
                            states.setdefault(j, []).append(o.st)
                        elif j is not None:
                            raise AnalysisError('backward goto at %r' %
                                                kids[i])
                        else:
                            done.append(o)
                    else:
                        done.append(o)
            if len(nxt) > 1:
                nxt = [s for s, _ in self.mergevals([(s, ZERO)
                                                     for s in nxt])]
            if len(nxt) > self.MAXSTATES:
                raise AnalysisError('too many states at %r' % kids[i])
            states.setdefault(i + 1, []).extend(nxt)
        out = [Out('normal', s) for s in states.get(n, [])]
        return out + self.mergeouts(done)

    def mergeouts(self, outs):
        if len(outs) < 2:
            return outs
        if self.policy.lossy:
            g = {}
            for o in outs:
                g.setdefault((o.kind, o.val), []).append((o.st, ZERO))
            return [Out(k[0], s, k[1]) for k, ss in g.items()
                    for s, v in self.mergelossy(ss)]
        g = {}
        for o in outs:
            s = o.st
            k = (o.kind, o.val, s.trace.h if s.trace else 0, s.mon,
                 frozenset(s.store.items()))
            g.setdefault(k, []).append(s)
        res = []
        for (kind, val, _, _, _), ss in g.items():
            for s in self.joinfacts(ss):
                res.append(Out(kind, s, val))
        return res

    def find_label(self, kids, lab):
        for j, k in enumerate(kids):
            x = k
            while x is not None and x.kind == 'LabelStmt':
                if x.decl == lab:
                    return j
                x = x.kids[0] if x.kids else None
        return None

    def s_LabelStmt(self, n, st):
        return self.exec(n.kids[0], st) if n.kids else [Out('normal', st)]

    def s_GotoStmt(self, n, st):
        return [Out('goto', st, n.decl)]

    def s_DeclStmt(self, n, st):
        states = [st]
        for d in n.kids:
            if d is None or d.kind != 'VarDecl':
                continue
            if d.extra == 'static':
                self.staticlocals.add((d.file, d.decl[1]))
                k = (d.file, d.name + '@' + d.decl[1])
                if k in self.p.consttables:
                    states = [self.const_table(k, s) for s in states]
                continue
            if d.extra == 'extern':
                continue
            self.localdecls.add((d.file, d.decl[1]))
            l = mk('var', d.name, (d.file, d.decl[1]), self.ctx())
            nxt = []
            for s in states:
                if not d.kids:
                    s = s.copy()
                    for k in self.subkeys(s, l):
                        del s.store[k]
                    s.store[l] = mk('init', l)
                    if not (d.ty.endswith(']') or self.is_struct(d.ty)):
                        pass
                    nxt.append(s)
                    continue
                init = d.kids[0]
                for s2, v in self.eval(init, s):
                    s2 = s2.copy()
                    for k in self.subkeys(s2, l):
                        del s2.store[k]
                    if d.ty.endswith(']'):
                        s2.store[l] = mk('init', l)
                        if v.op == 'array':
                            for i, x in enumerate(v.args[0]):
                                self.write(s2, self.index_loc(
                                    mk('decay', l), num(i)), x, n, True)
                        elif v.op == 'str':
                            s2.store[l] = v
                    else:
                        self.write(s2, l, v, n, True)
                    nxt.append(s2)
            states = nxt
        return [Out('normal', s) for s in states]

    def const_table(self, key, st, src=None):
        """Binds a constant static table to its elements."""
        out = self.eval(self.p.consttables[src or key], st)
        if len(out) != 1 or out[0][1].op != 'array':
            return st
        st = st.copy()
        l = mk('glob', *key)
        for i, x in enumerate(out[0][1].args[0]):
            self.write(st, self.index_loc(mk('decay', l), num(i)), x, None,
                       True)
        return st

    def s_IfStmt(self, n, st):
        kids = n.kids
        c, a = kids[0], kids[1]
        b = kids[2] if len(kids) > 2 else None
        outs = []
        for s, v in self.cond(c, st):
            if v:
                outs += self.exec(a, s)
            elif b is not None:
                outs += self.exec(b, s)
            else:
                outs.append(Out('normal', s))
        return self.mergeouts(outs)

    def s_ReturnStmt(self, n, st):
        if not n.kids:
            return [Out('return', st, None)]
        return [Out('return', s, v) for s, v in self.eval(n.kids[0], st)]

    def s_BreakStmt(self, n, st):
        return [Out('break', st)]

    def s_ContinueStmt(self, n, st):
        return [Out('continue', st)]

    def s_SwitchStmt(self, n, st):
        body = n.kids[-1]
        ce = n.kids[-2]
        flat = []      # (kind, payload)

        def flatten(x):
            if x.kind == 'CaseStmt':
                flat.append(('case', x.kids[0],
                             x.kids[1] if len(x.kids) > 2 else None))
                flatten(x.kids[-1])
            elif x.kind == 'DefaultStmt':
                flat.append(('default',))
                flatten(x.kids[0])
            else:
                flat.append(('stmt', x))
        for x in (body.kids if body.kind == 'CompoundStmt' else [body]):
            flatten(x)
        outs = []
        for s, v in self.eval(ce, st):
            rest = [s]
            default = None
            for i, it in enumerate(flat):
                if it[0] == 'default':
                    default = i
                if it[0] != 'case':
                    continue
                nrest = []
                for r in rest:
                    for r2, cv in self.eval(it[1], r):
                        c = self.compare('==', v, cv)
                        for r3, t in self.branch(r2, c):
                            if t:
                                outs += self.run_case(flat, i, r3)
                            else:
                                nrest.append(r3)
                rest = nrest
            for r in rest:
                if default is not None:
                    outs += self.run_case(flat, default, r)
                else:
                    outs.append(Out('normal', r))
        res = []
        for o in outs:
            if o.kind == 'break':
                o = Out('normal', o.st)
            res.append(o)
        return self.mergeouts(res)

    def run_case(self, flat, i, st):
        return self.seq([it[1] for it in flat[i:] if it[0] == 'stmt'], st)

    # ----------------------------------------------------------------- loops
    def s_WhileStmt(self, n, st):
        return self.loop(n, st, n.kids[-2], n.kids[-1], None, False)

    def s_DoStmt(self, n, st):
        return self.loop(n, st, n.kids[1], n.kids[0], None, True)

    def s_ForStmt(self, n, st):
        init, _, c, inc, body = n.kids
        outs = []
        for o in (self.exec(init, st) if init is not None
                  else [Out('normal', st)]):
            if o.kind != 'normal':
                outs.append(o)
                continue
            outs += self.loop(n, o.st, c, body, inc, False)
        return outs

    def loopdecls(self, *nodes):
        ds = set()
        for n in nodes:
            if n is None:
                continue
            for x in n.walk():
                if x.kind == 'VarDecl':
                    ds.add((x.file, x.decl[1]))
        return ds

    def iteration(self, head, cnd, body, inc, do):
        """One iteration: (exits, backs, others)"""
        exits, backs, others = [], [], []
        ins = [head]
        if not do and cnd is not None:
            ins = []
            for s, v in self.cond(cnd, head):
                (ins if v else exits).append(s)
        after = []
        for s in ins:
            for o in self.exec(body, s):
                if o.kind in ('normal', 'continue'):
                    after.append(o.st)
                elif o.kind == 'break':
                    exits.append(o.st)
                else:
                    others.append(o)
        if do:
            nxt = []
            for s in after:
                for s2, v in self.cond(cnd, s):
                    (nxt if v else exits).append(s2)
            after = nxt
        if inc is not None:
            nxt = []
            for s in after:
                for s2, _ in self.eval(inc, s):
                    nxt.append(s2)
            after = nxt
        if not do and cnd is not None:
            after = self.thread(head, cnd, after, exits)
        return exits, after, others

    def thread(self, head, cnd, after, exits):
        """States at the end of an iteration which set a flag such that the
        condition of the loop can not hold leave the loop directly."""
        nxt = []
        flags = [k for k, v in head.store.items() if isint(v) and
                 k.op == 'var' and self.flaglike(k)]
        for k in flags:
            out = []
            for s in after:
                v = s.store.get(k)
                if v is None or isint(v):
                    out.append(s)
                    continue
                for s2, b in self.branch(s, v):
                    s2 = s2.copy()
                    s2.store[k] = num(int(b))
                    out.append(s2)
            after = out
        for s in after:
            if not any(isint(v) and v is not s.store.get(k, v) and
                       isint(s.store[k]) for k, v in head.store.items()):
                nxt.append(s)
                continue
            self.sinks.append([])
            self.silent += 1
            try:
                out = self.cond(cnd, s.copy())
            finally:
                self.silent -= 1
                self.sinks.pop()
            if not out or any(v for _, v in out):
                nxt.append(s)
                continue
            exits.extend(x for x, v in self.cond(cnd, s))
        return nxt

    def unroll(self, st, cnd, body, inc):
        """Outcomes of a loop with a small constant number of iterations,
        or None."""
        live, outs = [st], []
        for rnd in range(9):
            nxt = []
            for s in live:
                out = self.cond(cnd, s)
                if len(out) != 1 or rnd == 8 and out[0][1]:
                    return None
                s, v = out[0]
                if not v:
                    outs.append(Out('normal', s))
                    continue
                for o in self.exec(body, s):
                    if o.kind in ('normal', 'continue'):
                        nxt += [x for x, _ in self.eval(inc, o.st)]
                    elif o.kind == 'break':
                        outs.append(Out('normal', o.st))
                    else:
                        outs.append(o)
            if not nxt:
                return outs
            if len(nxt) > 16:
                return None
            live = nxt
        return None

    def unrollable(self, cnd, inc, st):
        """The condition compares a local counter of known value with a
        constant."""
        if cnd is None or inc is None:
            return False
        vs = []
        work = [cnd]
        while work:
            x = work.pop()
            if x is None or x.kind == 'UnaryExprOrTypeTraitExpr':
                continue
            work += x.kids
            if x.kind == 'DeclRefExpr':
                if x.decl[0] == 'EnumConstantDecl':
                    continue
                if x.decl[0] != 'VarDecl' or \
                        (x.file, x.decl[1]) not in self.localdecls:
                    return False
                vs.append(x)
            elif x.kind in ('CallExpr', 'MemberExpr', 'ArraySubscriptExpr'):
                return False
        return len({x.decl[1] for x in vs}) == 1 and \
            isint(st.store.get(self.varloc(vs[0]), ONE_UNKNOWN))

    def loop(self, n, st, cnd, body, inc, do):
        if not do and self.unrollable(cnd, inc, st):
            self.sinks.append([])
            self.silent += 1
            try:
                ok = self.unroll(st, cnd, body, inc) is not None
            finally:
                self.silent -= 1
                self.sinks.pop()
            if ok:
                return self.mergeouts(self.unroll(st, cnd, body, inc))
        ctx = self.ctx()
        lid = (n.nid, ctx)
        decls = self.loopdecls(body, cnd, inc)
        mods = set()
        consts = defaultdict(set)
        entry = st
        self.loopfresh[lid] = self.fresh
        iv = Lockstep()
        for rnd in range(40):
            # discovery
            changed = False
            heads = []
            seen = set()
            allbacks = []
            allexits = []
            work = [self.loophead(entry, entry, mods, lid, decls, iv)]
            self.sinks.append([])
            self.silent += 1
            try:
                while work and not changed:
                    h = work.pop()
                    key = self.headkey(h, entry, lid, iv)
                    if key in seen:
                        continue
                    seen.add(key)
                    heads.append(h)
                    if len(heads) > 40:
                        raise AnalysisError('loop partition %r' % n)
                    exits, backs, others = self.iteration(
                        h, cnd, body, inc, do)
                    allexits += exits
                    for b in backs:
                        if iv.own:
                            b = b.copy()
                            b.store[iv.k] = add(h.store[iv.k], ONE)
                        allbacks.append(b)
                        newmods = self.diffs(entry, b, mods, lid, decls,
                                             consts, iv)
                        if newmods:
                            mods |= newmods
                            changed = True
                        else:
                            work.append(self.loophead(entry, b, mods, lid,
                                                      decls, iv))
            finally:
                self.silent -= 1
                self.sinks.pop()
            if not changed and not iv.done:
                iv.done = True
                changed = self.lockstep(entry, mods, lid, allbacks, iv, n)
                changed = self.counting(entry, mods, lid, allbacks,
                                        iv) or changed
                if iv.own and iv.k not in entry.store:
                    entry = entry.copy()
                    entry.store[iv.k] = ZERO
            if not changed:
                changed = self.upper(entry, lid, allbacks, allexits, mods,
                                     decls, iv)
            if not changed:
                break
        else:
            raise AnalysisError('loop does not stabilise: %r' % n)
        # final pass
        outs = []
        phis = {}
        for m in mods:
            phis[m] = self.phi_for(entry, m, lid)
        if not self.silent:
            self.loops[lid] = n
            for m, p in phis.items():
                self.phis[p]['entry'].add(self.read_plain(entry, m))
                self.phis[p]['loc'] = m
                self.phis[p]['lid'] = lid
        for h in heads:
            h = h.copy()
            ent = tuple(sorted(((p, self.read_plain(entry, m))
                                for m, p in phis.items()),
                               key=lambda x: x[0].id))
            self.event(h, Ev('loop', 'loop', (mk('loopid', *lid),), None, n,
                             ctx, h.facts, ent))
            self.loopstack.append(lid)
            try:
                exits, backs, others = self.iteration(h, cnd, body, inc, do)
            finally:
                self.loopstack.pop()
            for b in backs:
                b = b.copy()
                if iv.own:
                    b.store[iv.k] = add(h.store[iv.k], ONE)
                vals = tuple(sorted(((p, self.read_plain(b, m))
                                     for m, p in phis.items()),
                                    key=lambda x: x[0].id))
                if not self.silent:
                    for p, v in vals:
                        self.phis[p]['back'].add(v)
                self.event(b, Ev('back', 'back', (mk('loopid', *lid),), None,
                                 n, ctx, b.facts, vals))
                self.finish('back', b, None, n)
            for s in exits:
                s = s.copy()
                if iv.own:
                    s.store.pop(iv.k, None)
                self.event(s, Ev('exit', 'exit', (mk('loopid', *lid),), None,
                                 n, ctx, s.facts, None))
                outs.append(Out('normal', s))
            for o in others:
                # return or goto out of the loop
                o.st = o.st.copy()
                if iv.own:
                    o.st.store.pop(iv.k, None)
                self.event(o.st, Ev('leave', 'leave', (mk('loopid', *lid),),
                                    None, n, ctx, o.st.facts, None))
                outs.append(o)
        return self.mergeouts(outs)

    # Variables which move in step with the number of iterations are
    # expressed by it, so that a[i], *p++ and counting down look the same.
    def lockstep(self, entry, mods, lid, backs, iv, n):
        steps = {}
        for m in mods:
            p = self.phi_for(entry, m, lid)
            ds = set()
            for b in backs:
                v = self.read_plain(b, m)
                if v.op == 'ptradd' and v.args[0] is p:
                    ds.add(v.args[1])
                elif not self.ispointer(p):
                    ds.add(sub(v, p))
                else:
                    ds.add(None)
            if len(ds) == 1:
                d, = ds
                if d is not None and isint(d) and d.args[0]:
                    steps[m] = d.args[0]
        first = sorted((m for m, d in steps.items() if d == 1 and
                        self.read_plain(entry, m) is ZERO and
                        m.op == 'var'), key=lambda m: m.id)
        ptrs = [m for m in steps if self.ispointer(
            self.phi_for(entry, m, lid)) and m.op == 'var']
        if not first:
            ptrs = [m for m in ptrs if (self.loc_type(m) or '').replace(
                'const', '').strip(' *') != 'char']
        if not first and not ptrs:
            return False
        rest = {m: steps[m] for m in ptrs}
        for m, d in steps.items():
            if d == -1 and m not in rest and m.op == 'var' and \
                    not isint(self.read_plain(entry, m)):
                rest[m] = d
        if not rest:
            return False
        iv.steps = rest
        if first:
            iv.k = first[0]
        else:
            iv.own = True
            iv.k = mk('var', '<iterations>', ('<loop>', lid[0]), lid[1])
            self.decltypes[iv.k.args[1]] = 'size_t'
            mods.add(iv.k)
        mods -= set(rest)
        return True

    def ispointer(self, t):
        return bool(t.ty) and t.ty.rstrip().endswith('*')

    def stepped(self, entry, iv, m, k):
        v = self.read_plain(entry, m)
        d = mul(num(iv.steps[m]), k)
        if self.ispointer(v) or v.op in ('ptradd', 'decay', 'addr') or \
                (self.loc_type(m) or '').endswith('*'):
            return self.ptr_add(v, d)
        return add(v, d)

    def upper(self, entry, lid, backs, exits, mods, decls, iv):
        """The number of iterations can not exceed what it has to be equal
        to in order to leave the loop."""
        if iv.k is None:
            return False
        k = self.phi_for(entry, iv.k, lid)
        bad = {E for E in iv.limit if not all(
            b.facts.decide(mk('lt', k, E)) is True for b in backs)}
        if bad:
            iv.limit -= bad
            iv.nolimit |= bad
            return True
        new = set()
        for s in exits:
            for (x, y), r in s.facts.rel.items():
                if r == '=' and (x is k or y is k):
                    E = y if x is k else x
                    if E not in iv.limit and E not in iv.nolimit and \
                            is_unsigned(E) and E.op in ('init', 'fieldof',
                                                        'param', 'res') and \
                            not self.local_to_loop(E, lid, entry):
                        new.add(E)
        iv.limit |= new
        return bool(new)

    def read_plain(self, st, loc):
        v = st.store.get(loc)
        if v is None and loc.op == 'fld':
            b = self.parent_value(st, loc.args[0])
            if b is not None:
                v = self.field_of(b, loc.args[1])
        return v if v is not None else mk('init', loc)

    def headkey(self, h, entry, lid, iv):
        return (h.mon, frozenset(h.store.items()), tuple(
            h.facts.decide(mk('lt', ZERO, self.phi_for(entry, m, lid)))
            for m in sorted(iv.counters, key=lambda m: m.id)))

    def local_to_loop(self, t, lid, entry):
        for x in atoms(t):
            if x.op == 'phi' and x.args[0] == lid[0] and x.args[1] == lid[1]:
                return True
            if x.op == 'res':
                if x.args[3] >= entry.occ.get((x.args[1], x.args[2]), 0):
                    return True
            if x.op == 'hv' and x.args[1] == 'join' and \
                    x.args[2] > self.loopfresh.get(lid, 0):
                return True
        return False

    def in_decls(self, loc, decls):
        r = loc_root(loc)
        return r.op == 'var' and (r.args[1] in decls or
                                  r.args[0].startswith('<'))

    def loophead(self, entry, b, mods, lid, decls, iv):
        """Abstract state at the loop head for incoming state b."""
        h = State()
        h.facts = entry.facts
        h.trace = entry.trace
        h.occ = entry.occ
        h.mon = b.mon
        store = {}
        for k, v in b.store.items():
            if self.in_decls(k, decls) and k not in entry.store:
                continue
            if k not in entry.store and self.local_to_loop(k, lid, entry):
                continue
            store[k] = v
        h.store = store
        for m in mods:
            for k in self.subkeys(h, m):
                del h.store[k]
            h.store[m] = self.phi_for(entry, m, lid)
        if iv.k is not None:
            k = self.phi_for(entry, iv.k, lid)
            for m in iv.steps:
                for x in self.subkeys(h, m):
                    del h.store[x]
                h.store[m] = self.stepped(entry, iv, m, k)
            for E in sorted(iv.limit, key=lambda t: t.id):
                h.facts = h.facts.assume(mk('lt', E, k), False) or h.facts
        for m in iv.counters:
            if m in mods:
                p = self.phi_for(entry, m, lid)
                v = self.read_plain(b, m)
                d = v.args[0] > 0 if isint(v) else True if \
                    sub(v, p) is ONE else b.facts.decide(mk('lt', ZERO, v))
                if d is not None:
                    h.facts = h.facts.assume(mk('lt', ZERO, p), d) or h.facts
        return h

    # Variables which count what happened in some iterations: whether it ever
    # happened is remembered like in a flag.
    def counting(self, entry, mods, lid, backs, iv):
        for m in sorted(mods, key=lambda m: m.id):
            if m.op != 'var' or m is iv.k or m in iv.steps or \
                    self.read_plain(entry, m) is not ZERO:
                continue
            p = self.phi_for(entry, m, lid)
            if {sub(self.read_plain(b, m), p) for b in backs} == {ZERO, ONE}:
                iv.counters[m] = True
        return bool(iv.counters)

    def phi_for(self, entry, m, lid):
        p = mk('phi', lid[0], lid[1], m)
        if p.ty is None:
            v = self.read_plain(entry, m)
            if v.ty is not None:
                p.ty = v.ty
            t = self.loc_type(m)
            if t:
                p.ty = t
        return p

    def loc_type(self, m):
        if m.op == 'var':
            return self.decltypes.get(m.args[1])
        if m.op == 'fld':
            pass
        return None

    def diffs(self, entry, b, mods, lid, decls, consts, iv):
        new = set()
        for m in list(iv.steps):
            if self.read_plain(b, m) is not self.stepped(
                    entry, iv, m, self.read_plain(b, iv.k)):
                del iv.steps[m]
                new.add(m)
        for k in set(b.store) | set(entry.store):
            if k in mods or k in iv.steps:
                continue
            if any(self._under(k, m) for m in mods if m is not k):
                continue
            if self.in_decls(k, decls) and k not in entry.store:
                continue
            if k not in entry.store and self.local_to_loop(k, lid, entry):
                continue
            x = self.read_plain(entry, k)
            y = self.read_plain(b, k)
            if x is y:
                continue
            if isint(x) and isint(y):
                consts[k] |= {x.args[0], y.args[0]}
                if consts[k] <= {0, 1} and self.flaglike(k):
                    continue
            new.add(k)
        return new

    def flaglike(self, k):
        t = self.loc_type(k)
        return t in ('bool', '_Bool')

    # ---------------------------------------------------------------- driver
    def finish(self, kind, st, val, node):
        self.sinks[-1].append(Record(kind, st, val, node))
        if len(self.sinks[-1]) > 200000:
            raise AnalysisError('too many paths')

    def run(self, f, args=None, setup=None):
        """Analyse f for arbitrary arguments; returns its records."""
        if f.key not in self._declcache:
            self.scan(f)
        self.records = []
        self.sinks = [self.records]
        self.analysed.add(f.key)
        st = State()
        st.mon = self.policy.mon0
        if args is None:
            args = []
            for n, t, did in f.params:
                p = mk('param', n, f.key)
                p.ty = t
                args.append(p)
        self.args = args
        self.stack = [(f, 0)]
        self.bind_params(f, args, st)
        for k in self.p.consttables:
            if '@' not in k[1]:
                st = self.const_table(k if self.p.globals[k][2]
                                      else ('', k[1]), st, k)
        if setup:
            setup(self, st, args)
        outs = self.exec(f.body, st)
        self.stack = []
        for o in outs:
            if o.kind == 'return':
                self.finish('ret', o.st, o.val, f.body)
            else:
                self.finish('ret', o.st, None, f.body)
        return self.records

    _declcache = {}
    localdecls = set()
    staticlocals = set()
    decltypes = {}

    def scan(self, f):
        self._declcache[f.key] = True


class Policy:
    noreturn = {'die', 'dieErrno', 'exit', 'abort', '_exit', '_Exit',
                '__assert_fail'}
    pure = set()
    pure_events = set()
    fork = set()
    silent = set()
    monitor = None
    filter = None
    lossy = False
    loads = None
    derefs = None
    passed = False
    errno = False
    raw = False
    mon0 = ()
    unroll = ()

    def __init__(self, prog):
        self.p = prog
        self.recursive, self.heads = find_recursive(prog)
        self.models = {}
        self.mut = {}
        self.opaque_names = set()
        for fs in prog.funcs.values():
            for n, t, did in fs.params:
                Interp.decltypes[(fs.file, did)] = t
            for x in fs.body.walk():
                if x.kind == 'VarDecl':
                    Interp.decltypes[(x.file, x.decl[1])] = x.ty
                    if x.extra == 'static':
                        Interp.staticlocals.add((x.file, x.decl[1]))

    def inline(self, f):
        return f.name not in self.opaque_names or f.static

    def model(self, name):
        return self.models.get(name)

    def mutates(self, name):
        return self.mut.get(name)


ONE_UNKNOWN = mk('unknown')


def find_recursive(prog):
    """(keys of functions on a call-graph cycle, those of them which are
    called from outside of their cycle)"""
    graph = {}
    for k, f in prog.funcs.items():
        s = set()
        for x in f.body.walk():
            if x.kind == 'DeclRefExpr' and x.decl[0] == 'FunctionDecl':
                g = prog.resolve(x.name, f.file)
                if g is not None:
                    s.add(g.key)
        graph[k] = s
    reach = {}
    for k in graph:
        seen = set()
        st = [k]
        while st:
            for y in graph.get(st.pop(), ()):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        reach[k] = seen
    rec = {k for k in graph if k in reach[k]}
    heads = set()
    for k in graph:
        for y in graph[k]:
            if y in rec and not (k in reach[y]):
                heads.add(y)
    return rec, heads

"""Rules about the metadata file: its layout and its validation."""
from core import *
from engine import Ev, INTSIZE
from models import strval
from terms import add, sub, subterms
from r_copy import HASH, capacity, direct, iterations, linle, same
from r_integrity import nopol_is

UINT = {1: 'uint8_t', 2: 'uint16_t', 4: 'uint32_t', 8: 'uint64_t'}


class Bytes(Std):
    """Keeps what is written and which bytes of a buffer are read."""
    passed = True

    def __init__(self, prog):
        super().__init__(prog)
        self.models['repoWriterWrite'] = self.write
        self.models['memcpy'] = self.copy
        self.models['strUnterminated'] = self.view
        self.loads = self.load

    @staticmethod
    def write(it, name, args, st, e):
        v = it.read_plain(st, it.ptr_loc(args[0]))
        st = st.copy()
        it.event(st, Ev('call', name, tuple(args), None, e, it.ctx(),
                        st.facts, ('data', v)))
        return [(st, ZERO)]

    @staticmethod
    def copy(it, name, args, st, e):
        d, s, n = args
        if content_of(it, s) is None:
            from models import m_memcpy
            return m_memcpy(it, name, args, st, e)
        st = st.copy()
        b, o = content_of(it, s)
        v = it.read_plain(st, mk('at', b, o)) if n is ONE else \
            mk('bytes', s, n)
        if n is ONE and v.ty is None:
            v.ty = 'uint8_t'
        if isint(n) and n.args[0] in UINT and v.ty is None:
            v.ty = UINT[n.args[0]]
        it.event(st, Ev('read', name, tuple(args), v, e, it.ctx(), st.facts,
                        None))
        l = d.args[0] if d.op == 'decay' else it.ptr_loc(d)
        it.write(st, l, v, e)
        return [(st, d)]

    @staticmethod
    def view(it, name, args, st, e):
        v = mk('pure', name, tuple(args))
        st = st.copy()
        it.event(st, Ev('view', name, tuple(args), v, e, it.ctx(), st.facts,
                        None))
        return [(st, v)]

    @staticmethod
    def load(it, st, loc, node):
        if loc.op != 'at' or not isfile(it, loc.args[0]):
            return
        # no copy: the caller goes on with st
        it.event(st, Ev('read', 'load', (None, loc_ptr(loc), ONE),
                        it.read(st, loc, node.ty), node, it.ctx(), st.facts,
                        None))


def isfile(it, base):
    """Is base the buffer with the content of a file?"""
    if base.op == 'fieldof' and base.args[1] == 'content':
        o = base.args[0]
        if o.op == 'res':
            return o.args[0] == 'sGetFilesContent'
        if 'FileContent' in (o.ty or ''):
            return True
        l = vloc(o)
    else:
        l = vloc(base)
        if l is None or l.op != 'fld' or l.args[1] != 'content':
            return False
        l = l.args[0]
    return l is not None and 'FileContent' in typeof(it, l)


def typeof(it, l):
    if l.op == 'var':
        return it.loc_type(l) or ''
    if l.op == 'at':
        return l.args[0].ty or ''
    return ''


def content_of(it, p):
    """(buffer, offset) of a pointer into a file's content."""
    if p.op == 'ptradd':
        b, o = p.args
    elif p.op == 'addr' and p.args[0].op == 'at':
        b, o = p.args[0].args
    else:
        b, o = p, ZERO
    return (b, o) if isfile(it, b) else None


def sizeterm(b):
    """The size of the file content behind buffer b."""
    if b.op == 'fieldof':
        return mk('fieldof', b.args[0], 'size')
    l = vloc(b)
    return mk(b.op, mk('fld', l.args[0], 'size')) if b.op == 'init' else None


def closure(s):
    return s.closure('metadataLoad', policy=Bytes, key='bytes')


def wclosure(s):
    return s.closure('metadataWrite', policy=Bytes, key='bytes')


# --------------------------------------------------------------- accesses
class Acc:
    """One access to the file content."""

    def __init__(self, ev, i, off, n, val):
        self.ev = ev
        self.i = i
        self.off = off
        self.n = n
        self.val = val


def accesses(it, r):
    out = []
    for i, e in enumerate(r.events()):
        if e.kind == 'read':
            c = content_of(it, e.args[1])
            if c:
                out.append(Acc(e, i, c[1], e.args[2], e.res))
        elif e.kind == 'view':
            c = content_of(it, e.args[0])
            if c:
                out.append(Acc(e, i, c[1], e.args[1], e.res))
    return out


def bounds(chk, s):
    chk.begin('metadata-bounds',
              'Before any byte of the metadata file is accessed, the path '
              'has established that offset plus length does not exceed the '
              'size of the file, with a sum that can not wrap around.')
    n = 0
    for f, it, recs in closure(s):
        chk.count(it, recs)
        for r in recs:
            sums = set()
            for e in r.events():
                if e.kind == 'arith':
                    sums.add(e.res)
                    continue
                if e.kind == 'store' and e.args[0].op == 'at' and \
                        e.args[0].args[0].op == 'res' and \
                        e.args[0].args[0].args[0] == 'allocate':
                    b, ix = e.args[0].args
                    cap = capacity(it, r, b, None)
                    chk.need(cap is not None and linle(
                        e.facts, add(ix, ONE), cap), e.node,
                        'may write behind the end of a buffer', f)
                if e.kind not in ('read', 'view'):
                    continue
                c = content_of(it, e.args[1 if e.kind == 'read' else 0])
                if c is None:
                    continue
                ln = e.args[2 if e.kind == 'read' else 1]
                n += 1
                end = add(c[1], ln)
                size = sizeterm(c[0])
                ok = size is not None and \
                    e.facts.decide(mk('lt', size, end)) is False
                if not ok and size is not None and e.facts.decide(
                        mk('lt', sub(size, c[1]), ln)) is False and \
                        insidefile(f, it, recs, r, e, c[1], size):
                    # compared with what is left behind the position
                    ok = True
                    sums.add(end)
                chk.need(ok, e.node, 'may access bytes behind the end of '
                         'the metadata', f)
                if e.kind == 'read' and e.args[0] is not None and \
                        e.args[0].op != 'addr':
                    cap = capacity(it, r, e.args[0], None)
                    chk.need(cap is not None and linle(e.facts, ln, cap),
                             e.node, 'may write behind the end of a buffer',
                             f)
                if not isint(ln) and end not in sums and \
                        end in it.rawadds:
                    chk.need(False, e.node, 'the check of the remaining '
                             'size can wrap around', f)
    chk.anchor(n, 'accesses to the metadata')


def insidefile(f, it, recs, r, upto, off, size):
    """off never exceeds size: it is a position that starts at 0 and only
    moves over bytes which were found to exist."""
    loc = None
    for x in atoms(off):
        if x.op == 'phi' and x in it.phis:
            loc = it.phis[x]['loc']
    if loc is None:
        for p in it.args:
            if off is mk('init', ptr_loc(p)):
                loc = ptr_loc(p)
    if off is ZERO:
        return True
    if loc is not None and not steady(f, it, recs, loc, size):
        return False
    return off in ends(it, r, upto, loc, size)


def ends(it, r, upto, loc, size):
    """Offsets up to which the path found the file to be long enough."""
    ok = {ZERO}
    if loc is not None:
        ok.add(mk('init', loc))
        ok |= {p for p, d in it.phis.items() if d.get('loc') is loc}
    for e in r.events():
        if e.kind in ('read', 'view'):
            c = content_of(it, e.args[1 if e.kind == 'read' else 0])
            if c is not None:
                ln = e.args[2 if e.kind == 'read' else 1]
                end = add(c[1], ln)
                if e.facts.decide(mk('lt', size, end)) is False or \
                        c[1] in ok and e.facts.decide(
                            mk('lt', sub(size, c[1]), ln)) is False:
                    ok.add(end)
        elif e.kind == 'call' and loc is not None and any(
                a.op == 'addr' and a.args[0] is loc or ptr_loc(a) is loc
                for a in e.args if hasattr(a, 'op') and a.op in (
                    'addr', 'param')):
            # the callee keeps the position inside as well
            ok |= {x for x in atoms(r.st.store.get(loc, ZERO))
                   if x.op == 'hv' and x.args[0] is loc}
        if e is upto:
            break
    return ok


def steady(f, it, recs, loc, size):
    """Every iteration, call and return leaves the position inside."""
    memo = it.__dict__.setdefault('_steady', {})
    if loc in memo:
        return memo[loc]
    memo[loc] = True
    good = True
    for r in recs:
        if r.kind == 'die':
            continue
        v = r.st.store.get(loc)
        if v is not None and v not in ends(it, r, None, loc, size):
            good = False
    memo[loc] = good
    return good


def validity(chk, s):
    chk.begin('metadata-validity',
              'Nothing read from the metadata is accepted without being '
              'checked: backup ids are smaller than the number of backups, '
              'types and policies are known ones, every path has a history '
              'and a valid name, and nothing follows after the last path.')
    e = s.p.enums
    n = {'id': 0, 'type': 0, 'policy': 0, 'history': 0, 'name': 0, 'end': 0}
    maxtype = max(e[x] for x in e if x.startswith('PST_'))
    pols = {e['BPOL_' + x] for x in ('none', 'copy', 'mirror', 'track')}
    clo = closure(s)
    for f, it, recs in clo:
        chk.count(it, recs)
        for r in recs:
            if r.kind == 'die':
                continue
            g = r.facts
            seen = {}
            views = []
            for ev in r.events():
                if ev.kind == 'alloc' and ev.name == 'strAppendPath':
                    v = strval(ev.args[1])
                    if v.op == 'pure' and v.args[0] == 'strUnterminated' \
                            and content_of(it, v.args[1][0]):
                        views.append((v, ev))
                if ev.kind != 'store' or ev.args[0].op != 'fld':
                    continue
                fl = ev.args[0].args[1]
                v = ev.args[1]
                own = ev.args[0].args[0]
                if fl == 'backup':
                    n['id'] += 1
                    ok = backup_ok(it, r, ev, v)
                    chk.need(ok, ev.node, 'backup id is not checked', f)
                elif fl == 'type' and readvalue(it, v):
                    n['type'] += 1
                    chk.need(g.decide(mk('lt', num(maxtype), v)) is False,
                             ev.node, 'unknown types are accepted', f)
                elif fl == 'policy':
                    n['policy'] += 1
                    chk.need(all(g.decide(mk('eq', v, num(x))) is False
                                 for x in range(max(pols) + 2)
                                 if x not in pols) and
                             g.decide(mk('lt', num(max(pols) + 1), v)) is
                             False, ev.node, 'unknown policies are accepted', f)
                elif fl == 'history' and fieldname(own) is None:
                    n['history'] += 1
                    chk.need(nonnull(g, v), ev.node, 'paths without history '
                             'are accepted', f)
            for v, ev in views:
                n['name'] += 1
                p, ln = v.args[1]
                chk.need(any(g.decide(mk('eq', x, ZERO)) is False for x in
                             (ln, mk('fieldof', v, 'length'))), ev.node,
                         'empty names are accepted', f)
                for c, t in ((0, 'null bytes'), (47, 'slashes')):
                    chk.need(absent(g, v, c), ev.node,
                             'names with %s are accepted' % t, f)
                chk.need(g.decide(mk('pure', 'strIsDotElement', (v,))) is
                         False, ev.node, 'dot names are accepted', f)
            if is_ret(r) and f is clo[0][0]:
                n['end'] += 1
                acc = accesses(it, r)
                size = None
                for c in acc:
                    size = sizeterm(content_of(it, c.ev.args[
                        1 if c.ev.kind == 'read' else 0])[0])
                end = Walk(it, f, r)
                chk.need(size is not None and end.equals(r.facts, size), r.node,
                         'trailing data is accepted', f)
    for k, v in n.items():
        chk.anchor(v, k)


def fieldname(l):
    return l.args[1] if l.op == 'fld' else None


def readvalue(it, v):
    return any(x.op == 'bytes' or x.op == 'init' and x.args[0].op == 'at'
               and isfile(it, x.args[0].args[0]) for x in subterms(v))


def nonnull(g, v):
    if v.op in ('addr', 'decay'):
        return True
    if v.op == 'res' and 'lloc' in str(v.args):
        return True      # allocation functions never return NULL
    return g.decide(mk('eq', v, ZERO)) is False


def absent(g, v, c):
    """The view v does not contain the byte c."""
    p, ln = v.args[1]
    return any(g.decide(mk('eq', mk('pure', 'memchr', (x, num(c), y)),
                           ZERO)) is True
               for x in (p, mk('fieldof', v, 'content'))
               for y in (ln, mk('fieldof', v, 'length')))


def backup_ok(it, r, ev, v):
    """v points to an element of the array of backups."""
    if v.op == 'ptradd':
        base, idx = v.args
    elif v.op == 'addr' and v.args[0].op == 'at':
        base, idx = v.args[0].args
    else:
        base, idx = v, ZERO
    l = vloc(base)
    if l is not None and l.op == 'fld' and l.args[1] == 'backup_history':
        loc = mk('fld', l.args[0], 'backup_history_length')
        for t in known(ev.facts):
            if vloc(t) is loc and ev.facts.decide(mk('lt', idx, t)) is True:
                return True
        return False
    # freshly allocated: the length is part of the size
    for x in r.events():
        if x.kind == 'call' and x.res is base and len(x.args) > 1:
            for t in subterms(x.args[1]):
                if t.op in ('bytes', 'bswap', 'phi', 'init') and \
                        ev.facts.decide(mk('lt', idx, t)) is True:
                    return True
    return False


def known(g):
    out = set()
    for k in g.rel:
        out |= set(k)
    out |= set(g.iv)
    return out


# --------------------------------------------------------------- position
class Walk:
    """Follows the position in the file along one record."""

    def __init__(self, it, f, r):
        self.bad = []
        self.n = 0
        locs = [ptr_loc(a) for a, (n, ty, d) in zip(it.args, f.params)
                if ty.endswith('*') and 'const' not in ty and
                it.basetype(ty[:-1].strip()) in INTSIZE]
        self.cur = {mk('init', l) for l in locs} or {ZERO}
        stack = []
        for e in r.events():
            k = e.kind
            if k in ('read', 'view'):
                c = content_of(it, e.args[1 if k == 'read' else 0])
                if c is None:
                    continue
                self.n += 1
                if not self.match(e.facts, c[1]):
                    self.bad.append((e, 'does not continue reading where '
                                     'the previous item ended'))
                self.cur = {add(c[1], e.args[2 if k == 'read' else 1])}
            elif k == 'loop':
                new = {p for p, v in e.extra if self.match(e.facts, v)}
                stack.append((new, self.cur))
                self.cur = new or self.cur
            elif k in ('back', 'exit', 'leave'):
                new, old = stack.pop()
                if k == 'back':
                    ok = any(p in new and self.match(e.facts, v)
                             for p, v in e.extra) if new else \
                        self.cur is old
                    if not ok:
                        self.bad.append((e, 'loses the position in the '
                                         'file'))
            elif k == 'passed' and e.extra:
                if not any(self.match(e.facts, v) for j, v in e.extra):
                    self.bad.append((e, 'recursion starts at a wrong '
                                     'position'))
                self.cur = e.res
        self.final = locs
        if is_ret(r) and locs:
            if not any(self.match(r.facts, it.read_plain(r.st, l))
                       for l in locs):
                self.bad.append((r, 'returns a wrong position'))

    def match(self, facts, v):
        if isinstance(self.cur, set):
            return any(same(facts, x, v) for x in self.cur)
        return v.op == 'hv' and v.args[1] is self.cur

    def equals(self, facts, v):
        if isinstance(self.cur, set):
            return self.match(facts, v)
        return any(t.op == 'hv' and t.args[1] is self.cur and
                   same(facts, t, v) for t in known(facts))


def position(chk, s):
    chk.begin('metadata-position',
              'The items of the metadata file are read one after the other: '
              'each access starts where the previous one ended, in loops and '
              'across recursive calls, and the end is the size of the file.')
    n = 0
    for f, it, recs in closure(s):
        chk.count(it, recs)
        for r in recs:
            w = Walk(it, f, r)
            n += w.n
            chk.need(True, r.node, '')
            for e, msg in w.bad:
                chk.need(False, e.node, msg, f)
    chk.anchor(n, 'accesses')


# ----------------------------------------------------------------- layout
def chain(l):
    """(owner pointer, 'a.b.c') of a location."""
    fs = []
    while True:
        if l.op == 'fld':
            fs.append(l.args[1])
            l = l.args[0]
            continue
        if l.op == 'at':
            b, i = l.args
            o = vloc(b)
            if o is not None and o.op == 'fld' and (
                    o.args[1] == 'backup' or i is not ZERO):
                fs.append('->')
                l = o
                continue
            return b, '.'.join(reversed(fs))
        return l, '.'.join(reversed(fs))


def nameof(t):
    """(owner, name) of a value that was read from an item."""
    if t.op == 'fieldof':
        o, n = nameof(t.args[0])
        return o, n + '.' + t.args[1]
    if t.op == 'pure' and t.args[0] in ('strSplitPath', 'cstr', 'str'):
        return nameof(t.args[1][0])
    l = vloc(t)
    if l is not None and t.op != 'phi' and l.op in ('fld', 'at'):
        return chain(l)
    if t.op == 'decay':
        return chain(t.args[0])
    return None, None


class Tok:
    def __init__(self, i, ev, width, name, owner, swap, val):
        self.i = i
        self.ev = ev
        self.width = width      # number of bytes or name of the length
        self.name = name
        self.owner = owner
        self.swap = swap
        self.val = val

    def key(self):
        return (self.name, self.width)


def unswap(v):
    return (v.args[0], True) if v.op == 'bswap' else (v, False)


def fits(it, facts, v, n):
    """v without a truncation to n bytes that changes nothing."""
    if v.op == 'trunc':
        vs = facts.values(v.args[1])
        if v.args[0] != 8 * n or vs is None or max(vs) >> (8 * n):
            return None
        v = v.args[1]
    return v


def wtokens(chk, it, f, r):
    out = []
    for i, e in enumerate(r.events()):
        if e.kind != 'call' or e.name != 'repoWriterWrite':
            continue
        ptr, n = e.args[:2]
        if isint(n) and ptr.op != 'decay' and (
                ptr.op == 'addr' and ptr.args[0].op in ('var', 'fld')):
            v, sw = unswap(e.extra[1])
            x = fits(it, e.facts, v, n.args[0])
            if x is None:
                chk.need(False, e.node, 'writes a truncated value', f)
                x = v
            sz = INTSIZE.get(it.basetype(x.ty)) if x.ty else None
            ssz = INTSIZE.get(it.basetype(e.extra[1].ty)) \
                if sw and e.extra[1].ty else None
            if v.op != 'trunc' and x.ty not in FINITE and \
                    sz is not None and sz > n.args[0] or \
                    ssz is not None and ssz != n.args[0]:
                chk.need(False, e.node, 'writes only a part of the value', f)
            o, nm = nameof(x)
            if x.op == 'phi' and (nm is None or nm.endswith('id')):
                o, nm = x, 'count'
            out.append(Tok(i, e, n.args[0], nm, o, sw, x))
        else:
            o, nm = nameof(ptr)
            if isint(n):
                w = n.args[0]
            else:
                w = nameof(n)[1]
            out.append(Tok(i, e, w, nm, o, None, n))
    return out


def rtokens(it, r):
    evs = r.events()
    acc = accesses(it, r)
    stores = [e for e in evs if e.kind == 'store' and e.args[0].op == 'fld']
    text = set()
    for e in evs:
        for a in e.args:
            if isinstance(a, T):
                text |= set(subterms(a))
        if e.kind in ('back', 'loop') and e.extra:
            for p, v in e.extra:
                text |= set(subterms(v))
    for k in known(r.facts):
        text |= set(subterms(k))
    out = []
    vals = []
    for a in acc:
        v, sw = a.val, None
        if a.ev.kind == 'read' and isint(a.n) and a.ev.args[0] is None or \
                a.n in (num(2), num(4), num(8)) or a.n is ONE and \
                a.ev.args[0].op == 'addr' and a.ev.args[0].args[0].op == 'var':
            sw = False
            if v.op == 'bytes':
                b = mk('bswap', v)
                if b in text:
                    v, sw = b, True
        vals.append((a, v, sw))

    def dest(p, n):
        """Item that refers to what pointer p points to."""
        for e in stores:
            v = e.args[1]
            for x in subterms(v):
                if x is p and v is p or x.op == 'pure' and x.args[0] in (
                        'str', 'strUnterminated') and x.args[1][0] is p:
                    if x.op == 'pure' and x.args[0] == 'str' and not any(
                            y.kind == 'store' and y.args[1] is ZERO and
                            y.args[0] is mk('at', p, n) for y in evs):
                        continue        # not terminated
                    o, nm = chain(e.args[0])
                    return o, nm if nm.endswith('.content') else \
                        nm + '.content'
        return None, None
    named = {}
    for a, v, sw in vals:
        o = nm = None
        if a.ev.kind == 'view':
            for e in evs:
                if e.kind == 'alloc' and e.name == 'strAppendPath' and \
                        strval(e.args[1]) is v:
                    for x in stores:
                        if strval(x.args[1]) is e.res:
                            o, nm = chain(x.args[0])
                            nm += '.tail.content'
        elif sw is None and a.ev.args[0] is not None:
            d = a.ev.args[0]
            if d.op == 'decay':
                o, nm = chain(d.args[0])
            else:
                o, nm = dest(d, a.n)
        else:
            for e in stores:
                x = e.args[1]
                if x.op == 'trunc':
                    x = x.args[1]
                if x is v:
                    o, nm = chain(e.args[0])
                    break
                if e.args[0].args[1] == 'backup' and (
                        x.op == 'ptradd' and x.args[1] is v or
                        x.op == 'addr' and x.args[0].op == 'at' and
                        x.args[0].args[1] is v):
                    o, nm = chain(e.args[0])
                    nm += '.->.id'
                    break
        named[a] = (o, nm)
    for a, v, sw in vals:
        o, nm = named[a]
        if nm is None and sw is not None:
            for b, w, _ in vals:
                if b.n is v and named[b][1] and \
                        named[b][1].endswith('.content'):
                    o = named[b][0]
                    nm = named[b][1][:-len('content')] + 'length'
        if sw is not None and nm in (None, 'backup_history_length') and \
                a.n is num(8):
            nm = 'count'
        if isint(a.n):
            w = a.n.args[0]
        else:
            w = None
            for b, y, _ in vals:
                if y is a.n:
                    w = named[b][1]
            if w is None and nm:
                w = nm[:-len('content')] + 'length' if nm.endswith('content') \
                    else None
        out.append(Tok(a.i, a.ev, w, nm, o, sw, v))
    return out


def endian(facts):
    """What the path assumes about constants of the program."""
    out = []
    for k, v in facts.iv.items():
        l = vloc(k)
        if l is not None and loc_root(l).op == 'glob':
            out.append((show(k), v[0], v[1], tuple(sorted(v[2]))))
    return frozenset(out)


ENVS = [(t, c) for t in range(4) for c in ((0, 0), (1, HASH), (HASH + 1, None))
        if t == 1 or c[0] == 0]


def envs(facts, typ, size):
    out = []
    for t, (lo, hi) in ENVS:
        if typ is not None and \
                facts.decide(mk('eq', typ, num(t))) is False:
            continue
        if t == 1 and size is not None:
            if facts.decide(mk('lt', size, num(lo))) is True or \
                    hi is not None and facts.decide(
                        mk('lt', num(hi), size)) is True:
                continue
            g = facts.assume(mk('lt', size, num(lo)), False)
            if g is not None and hi is not None:
                g = g.assume(mk('lt', num(hi), size), False)
            if g is None:
                continue
        out.append((t, (lo, hi)))
    return out


def ispoint(t):
    return t.name is not None and (t.name.startswith('state.') or
                                   t.name.startswith('backup.'))


def fragments(toks):
    """Groups of consecutive tokens that belong to one history point."""
    out = []
    for t in toks:
        if not ispoint(t):
            out.append(None)
        elif out and out[-1] is not None and out[-1][0].owner is t.owner:
            out[-1].append(t)
        else:
            out.append([t])
    return [x for x in out if x]


def leaf(frag, name):
    for t in frag:
        if t.name == name:
            return t.val
    return None


def layout(chk, s):
    chk.begin('metadata-layout',
              'For every type of a history point and every class of file '
              'sizes, the writer produces and the reader consumes the same '
              'sequence of fields with the same widths and byte order, and '
              'so for paths and for the metadata as a whole.')
    # history points
    pts = {}
    node = {}
    swaps = {}
    for side, clo in (('writes', wclosure(s)), ('reads', closure(s))):
        for f, it, recs in clo:
            chk.count(it, recs)
            for r in recs:
                if r.kind == 'die':
                    continue
                toks = wtokens(chk, it, f, r) if side == 'writes' else \
                    rtokens(it, r)
                key = endian(r.facts)
                for t in toks:
                    if t.swap is not None and t.width != 1:
                        swaps.setdefault((key, t.swap), t)
                for fr in fragments(toks):
                    g = r.facts
                    typ = leaf(fr, 'state.type')
                    size = leaf(fr, 'state.metadata.file_info.size')
                    if side == 'writes':
                        o = ptr_loc(fr[0].owner)
                        st = mk('fld', o, 'state')
                        typ = mk('init', mk('fld', st, 'type'))
                        typ = next((x for x in g.dom if x is typ), typ)
                        size = size or mk('init', mk('fld', mk('fld', mk(
                            'fld', st, 'metadata'), 'file_info'), 'size'))
                    for env in envs(g, typ, size):
                        pts.setdefault((key, env), {}).setdefault(
                            side, {}).setdefault(
                                tuple(t.key() for t in fr), fr[0].ev.node)
                sq = skeleton(it, f, r, toks, side)
                if sq is not None:
                    node.setdefault((key, sq[0]), {}).setdefault(
                        side, {}).setdefault(sq[1], r.node)
    chk.anchor(pts, 'history points')
    for (key, env), d in sorted(pts.items(), key=str):
        compare(chk, d, 'history points of type %d with size class %r' % env)
    chk.anchor(node, 'paths')
    for (key, k), d in sorted(node.items(), key=str):
        compare(chk, d, k)
    # byte order
    keys = {k for k, _ in swaps}
    for k in keys:
        a, b = swaps.get((k, False)), swaps.get((k, True))
        chk.need(a is None or b is None, (b or a).ev.node,
                 'converts the byte order of some values only')
    if len(keys) == 2:
        k1, k2 = keys
        chk.need(((k1, True) in swaps) != ((k2, True) in swaps),
                 next(iter(swaps.values())).ev.node,
                 'byte order of the file depends on the machine')


def compare(chk, d, what):
    w, r = d.get('writes', {}), d.get('reads', {})
    for x in w:
        chk.need(x in r, w[x], lambda: 'writes %s as %s, but reads them as %s'
                 % (what, fmt(x), ' or '.join(fmt(y) for y in r) or
                    'nothing'))
    for x in r:
        chk.need(x in w, r[x], lambda: 'reads %s as %s, but writes them as %s'
                 % (what, fmt(x), ' or '.join(fmt(y) for y in w) or
                    'nothing'))
    chk.need(len(w) == 1 or not w, next(iter(w.values()), None),
             '%s are not written unambiguously' % what)


def fmt(x):
    return '[' + ' '.join('%s:%s' % (str(n).replace('state.', ''), w)
                          for n, w in x) + ']'


def skeleton(it, f, r, toks, side):
    """Sequence of everything except of history points: for one path
    ('paths') or for the whole file."""
    evs = r.events()
    items = [(t.i, t.key()) for t in toks if not ispoint(t)]
    for i, e in enumerate(evs):
        if e.kind != 'call' or not isrec(e):
            continue
        if side == 'writes':
            nm = [nameof(a)[1] for a in e.args]
            nm = [x for x in nm if x in ('subnodes', 'paths')]
        else:
            nm = [x.args[0].args[1] for x in evs if x.kind == 'store' and
                  x.args[1] is e.res and x.args[0].op == 'fld']
        items.append((i, ('paths below', nm[0] if nm else None)))
    items.sort(key=lambda x: x[0])
    if not any(k[0] == 'paths below' for i, k in items):
        return None
    if is_ret(r):
        if any(k == ('paths below', 'paths') for i, k in items):
            seq = [k for i, k in items]
            # the completion time of the current backup belongs to the list
            seq = tuple(k for k in seq if not k[0] or
                        not k[0].endswith('completion_time'))
            return 'the metadata', seq
        return None
    if r.kind != 'back':
        return None
    # only what belongs to the iteration
    lid = lid_of(evs[-1])
    start = max(i for i, e in enumerate(evs)
                if e.kind == 'loop' and lid_of(e) == lid)
    return 'paths', tuple(k for i, k in items if i > start)


def isrec(e):
    return isinstance(e.extra, str) and ':' in e.extra


# ----------------------------------------------------------------- counts
def loops_of(recs):
    """{lid: [(record, events of the iteration, how, end event, loop event,
    index)]}"""
    out = {}
    for r in recs:
        for lid, evs, how, end, le, i in iterations(r):
            out.setdefault(lid, []).append((r, evs, how, end, le, i))
    return out


def stepping(facts, p, v, by=1):
    return same(facts, v, add(p, num(by)))


def written_counts(chk, s):
    chk.begin('metadata-counts-written',
              'Every number of elements that is written was counted over the '
              'same list, by the same condition, as the elements written '
              'after it; the written paths are those which are still part of '
              'the repository.')
    n = 0
    for f, it, recs in wclosure(s):
        ll = list_loops(it, recs)
        loops = loops_of(recs)
        done = set()
        for r in recs:
            if r.kind == 'die':
                continue
            for t in wtokens(chk, it, f, r):
                if t.name != 'count' or t.val in done:
                    continue
                d = it.phis[t.val]
                cl = d.get('lid')
                if cl not in ll:
                    continue        # array of backups
                done.add(t.val)
                n += 1
                cur = ll[cl][0]
                chk.need(all(x is ZERO for x in d['entry']), t.ev.node,
                         'counting does not start at zero', f)
                # the loop that writes the elements
                wl = next_loop(it, r, t.i, ll)
                if not chk.need(wl is not None, t.ev.node,
                                'a number is written, but no elements', f):
                    continue
                chk.need(set(wl.entry) == set(cur.entry), t.ev.node,
                         'counts the elements of another list', f)
                inc, no = [], []
                for rr, evs, how, end, le, i in loops[cl]:
                    if how != 'back':
                        if how == 'exit':
                            ended(chk, it, cur, end, f)
                        elif rr.kind != 'die':
                            chk.need(False, rr.node, 'leaves the loop that '
                                     'counts', f)
                        continue
                    v = dict(end.extra).get(t.val, t.val)
                    if stepping(end.facts, t.val, v):
                        inc.append(end.facts)
                    elif v is t.val:
                        no.append(end.facts)
                    else:
                        chk.need(False, end.node, 'counts wrong', f)
                wr, sk = [], []
                for rr, evs, how, end, le, i in loops[wl.lid]:
                    if how == 'exit':
                        ended(chk, it, wl, end, f)
                    if how != 'back':
                        if how == 'leave':
                            chk.need(False, rr.node, 'does not write all '
                                     'elements', f)
                        continue
                    k = sum(1 for e in direct(evs) if e.kind == 'call' and
                            e.name == 'repoWriterWrite')
                    (wr if k else sk).append(end.facts)
                h1, h2 = hints(it, cur.phi), hints(it, wl.phi)
                isnode = any(x in g.dom for g in inc + no + wr + sk
                             for x in (h1, h2))
                if not isnode and f is not wclosure(s)[0][0]:
                    isnode = not any(
                        c is not None and c.op == 'init' and
                        c.args[0].args[1] == 'history' for c in cur.entry)
                if isnode:
                    a, b = dom(inc, h1), dom(no, h1)
                    c, d2 = dom(wr, h2), dom(sk, h2)
                    chk.need(a == c and not a & b and not c & d2, t.ev.node,
                             'counts other paths than it writes', f)
                    keep = {h for h in FINITE['BackupHint'] if h & 0x1ff !=
                            s.p.enums['BH_not_part_of_repository']}
                    chk.need(c == keep, t.ev.node, 'writes other paths than '
                             'those which are part of the repository', f)
                else:
                    chk.need(inc and not no and wr and not sk, t.ev.node,
                             'does not count or write all elements', f)
    chk.anchor(n >= 2, 'lists that are written')


def ended(chk, it, l, ev, f):
    chk.need(ev.facts.decide(mk('eq', l.phi, ZERO)) is True, ev.node,
             'stops before the end of the list', f)


def hints(it, p):
    t = mk('init', mk('fld', ptr_loc(p), 'hint'))
    return t


def dom(fs, h):
    out = set()
    for g in fs:
        out |= set(g.dom.get(h, FINITE['BackupHint']))
    return out


def next_loop(it, r, i, ll):
    """First list loop after event i in which something gets written."""
    for e in r.events()[i:]:
        if e.kind == 'loop' and lid_of(e) in ll:
            return ll[lid_of(e)][0]
    return None


def numbering(chk, s):
    chk.begin('metadata-backup-ids',
              'Exactly the backups which are still referenced get a number, '
              'in order, starting after the current one if that is '
              'referenced; this many completion times are written in the '
              'same order.')
    f, it, recs = wclosure(s)[0]
    chk.count(it, recs)
    md = it.args[0]
    cref = mk('init', mk('fld', mk('fld', ptr_loc(md), 'current_backup'),
                         'ref_count'))
    loops = loops_of(recs)
    n = {'id': 0, 'time': 0, 'current': 0, 'count': 0}
    ctr = None
    for lid, its in loops.items():
        ids = [e for r, evs, how, end, le, i in its for e in evs
               if e.kind == 'store' and e.args[0].op == 'fld' and
               e.args[0].args[1] == 'id']
        times = [e for r, evs, how, end, le, i in its for e in direct(evs)
                 if e.kind == 'call' and e.name == 'repoWriterWrite' and
                 (wname(e) or '').startswith('backup_history')]
        if not ids and not times:
            continue
        idx = None
        for r, evs, how, end, le, i in its:
            for p, v in le.extra:
                bs = it.phis[p]['back']
                if v is ZERO and bs and all(b is add(p, ONE) for b in bs):
                    if any(x is p for e in ids + times for a in e.args +
                           (e.extra if e.kind == 'call' and e.extra else ())
                           if isinstance(a, T) for x in subterms(a)):
                        idx = p
        if not chk.need(idx is not None, (ids + times)[0].node,
                        'does not go through all backups in order', f):
            continue
        el = mk('at', initf(md, 'backup_history'), idx)
        ref = mk('init', mk('fld', el, 'ref_count'))
        length = initf(md, 'backup_history_length')
        for r, evs, how, end, le, i in its:
            if how == 'exit':
                chk.need(end.facts.decide(mk('lt', idx, length)) is False,
                         end.node, 'misses backups', f)
            elif how == 'leave':
                chk.need(False, end.node, 'misses backups', f)
            if how != 'back':
                continue
            zero = end.facts.decide(mk('eq', ref, ZERO))
            chk.need(zero is not None, end.node, 'numbers or writes a backup '
                     'without looking at its reference count', f)
            st = [e for e in evs if e in ids]
            wt = [e for e in evs if e in times]
            if ids:
                n['id'] += 1
                chk.need(len(st) == (0 if zero else 1), end.node,
                         'numbers the wrong backups', f)
                for e in st:
                    chk.need(e.args[0].args[0] is el, e.node,
                             'numbers another backup', f)
                    c = e.args[1]
                    if not chk.need(c.op == 'phi' and c in dict(end.extra),
                                    e.node, 'number is no counter', f):
                        continue
                    ctr = c
                    chk.need(stepping(end.facts, c, dict(end.extra)[c]),
                             end.node, 'does not count numbered backups', f)
                    for v in [dict(le.extra)[c]]:
                        for pol in (True, False):
                            g = le.facts.assume(mk('eq', cref, ZERO), pol)
                            x = None if g is None else \
                                num(g.decide(v)) if v.op in ('not', 'eq') \
                                and g.decide(v) is not None else v
                            chk.need(g is None or same(
                                g, x, ZERO if pol else ONE), le.node,
                                'first number is wrong', f)
                if zero and ctr is not None:
                    chk.need(dict(end.extra).get(ctr, ctr) is ctr, end.node,
                             'counts unreferenced backups', f)
            if times:
                n['time'] += 1
                chk.need(len(wt) == (0 if zero else 1), end.node,
                         'writes the completion time of the wrong backups',
                         f)
                for e in wt:
                    chk.need(wname(e) ==
                             'backup_history.->.completion_time' and
                             at_index(e, idx), e.node,
                             'writes something else than the completion '
                             'time', f)
    for r in recs:
        if not is_ret(r):
            continue
        w = wtokens(chk, it, f, r)
        if not w:
            continue
        n['count'] += 1
        chk.need(w[0].val is ctr, w[0].ev.node,
                 'number of backups is not what was counted', f)
        cw = [t for t in w if t.name == 'current_backup.completion_time']
        zero = r.facts.decide(mk('eq', cref, ZERO))
        n['current'] += 1
        chk.need(zero is not None and len(cw) == (0 if zero else 1), r.node,
                 'completion time of the current backup is written wrongly',
                 f)
        for t in cw:
            chk.need(t is w[1], t.ev.node, 'completion time of the current '
                     'backup is not the first one', f)
    for k, v in n.items():
        chk.anchor(v, k)


def wname(e):
    return nameof(unswap(e.extra[1])[0])[1] if e.extra else None


def at_index(e, idx):
    return any(x.op == 'at' and x.args[1] is idx
               for x in subterms(e.extra[1]))


def read_counts(chk, s):
    chk.begin('metadata-counts-read',
              'After a number of elements was read, exactly that many '
              'elements are read and added to the list, in the same order '
              'for history points.')
    n = {'history': 0, 'paths': 0, 'backups': 0}
    clo = closure(s)
    for f, it, recs in clo:
        chk.count(it, recs)
        loops = loops_of(recs)
        toks = {}

        def tk(r):
            if r not in toks:
                toks[r] = rtokens(it, r)
            return toks[r]
        for lid, its in loops.items():
            kinds = set()
            for r, evs, how, end, le, i in its:
                if how == 'back':
                    kinds |= {kind_of(t) for t in inside(tk(r), evs)}
            kinds.discard(None)
            if not kinds:
                continue
            k = 'paths' if 'paths' in kinds else sorted(kinds)[0]
            n[k] += 1
            counted(chk, it, f, lid, its, k, tk)
            if k == 'history':
                linked(chk, it, f, lid, its, tk)
            elif k == 'paths':
                nodes(chk, s, it, f, lid, its, tk, recs)
            else:
                backups(chk, it, f, lid, its, tk)
    for k, v in n.items():
        chk.anchor(v, k)


def kind_of(t):
    if ispoint(t):
        return 'history' if t.name == 'backup.->.id' else None
    if t.name == 'path.tail.content':
        return 'paths'
    if t.name is not None and t.name.endswith('completion_time'):
        return 'backups'
    return None


def inside(toks, evs):
    ids = {id(e) for e in direct(evs)}
    return [t for t in toks if id(t.ev) in ids]


def counted(chk, it, f, lid, its, kind, tk):
    up = None
    for r, evs, how, end, le, i in its:
        if r.kind == 'die':
            continue
        before = [t for t in tk(r) if t.i < i]
        c = [t for t in before if t.name == 'count']
        if not chk.need(bool(c), le.node, 'elements are read without a '
                        'number', f):
            return
        c = c[-1]
        m = sum(1 for t in before if t.i > c.i and kind_of(t) == kind)
        other = [t for t in before if t.i > c.i and kind_of(t) is None and
                 not ispoint(t)]
        chk.need(not other, le.node, 'other items are read between a number '
                 'and its elements', f)
        if how == 'back':
            k = sum(1 for t in inside(tk(r), evs) if kind_of(t) == kind)
            chk.need(k == 1, end.node, 'an iteration does not read exactly '
                     'one element', f)
        good = how == 'exit' and not le.extra and \
            same(end.facts, c.val, num(m))
        for p, v in le.extra:
            if how == 'back' and dict(end.extra).get(p) is None:
                continue
            bs = it.phis[p]['back']
            if not bs:
                continue
            if all(b is add(p, ONE) for b in bs):
                # counts up from the number of elements read already
                if v is num(m) and le.facts.decide(
                        mk('lt', c.val, v)) is False:
                    g = (end or r).facts
                    if how == 'exit':
                        if g.decide(mk('lt', p, c.val)) is False:
                            good = True
                    elif g.decide(mk('lt', p, c.val)) is True or \
                            g.decide(mk('eq', p, c.val)) is False:
                        good = True
            elif all(b is add(p, num(-1)) for b in bs):
                if same(le.facts, v, sub(c.val, num(m))):
                    g = (end or r).facts
                    if same(g, p, ZERO) == (how == 'exit'):
                        good = True
        if how == 'leave':
            good = False
        chk.need(good, le.node, 'does not read as many elements as were '
                 'announced', f)


def stored(evs, loc):
    return [e.args[1] for e in evs if e.kind == 'store' and
            e.args[0] is loc]


def nextloc(p):
    return mk('fld', ptr_loc(p), 'next')


def appended(chk, it, f, lid, its, tk, kind):
    """Checks that each iteration appends its element to a list; returns
    what the first element of the list can be."""
    for r, evs, how, end, le, i in its:
        if how != 'back':
            continue
        own = [t.owner for t in inside(tk(r), evs) if kind_of(t) == kind]
        if len(own) != 1:
            continue
        x = own[0]
        ent, bk = dict(le.extra), dict(end.extra)
        ok = False
        for p, v in bk.items():
            if v is x and x in stored(evs, nextloc(p)):
                # p was the last element
                e0 = ent[p]
                ok = e0 is ZERO or any(
                    t.owner is e0 for t in tk(r) if t.i < i)
            elif v is x and e_null(end.facts, p) and ent[p] is ZERO:
                # first element
                ok = True
            elif v.op == 'addr' and v.args[0] is nextloc(x) and \
                    x in stored(evs, ptr_loc(p)):
                ok = True
        chk.need(ok, end.node, 'element is not appended to the list', f)
        nx = stored(evs, nextloc(x))
        chk.need(bool(nx) and nx[-1] is ZERO, end.node,
                 'list is not terminated', f)


def e_null(facts, p):
    return facts.decide(mk('eq', p, ZERO)) is True


def linked(chk, it, f, lid, its, tk):
    appended(chk, it, f, lid, its, tk, 'history')
    seen = set()
    for r, evs, how, end, le, i in its:
        if how != 'exit' or r.kind == 'die':
            continue
        all_ = r.events()
        j = next((k for k, e in enumerate(all_) if e is end))
        first = [t.owner for t in tk(r) if t.i < i and
                 kind_of(t) == 'history']
        cnt = [t for t in tk(r) if t.i < i and t.name == 'count'][-1:]
        first = [t.owner for t in tk(r) if cnt and cnt[0].i < t.i < i and
                 kind_of(t) == 'history']
        dest = [e for e in all_[j:] if e.kind == 'store' and
                e.args[0].op == 'fld' and
                e.args[0].args[1] in ('history', 'config_history')][:1]
        for e in dest:
            v = e.args[1]
            if first:
                ok = v is first[0]
                nx = stored(all_[:i], nextloc(v))
                ok = ok and bool(nx) and nx[-1] is ZERO
            else:
                d = it.phis.get(v)
                ok = v is ZERO and cnt and same(end.facts, cnt[0].val, ZERO) \
                    or v.op == 'hv' or d is not None and d.get('lid') == lid
            chk.need(ok, e.node, 'history does not start with the first '
                     'element', f)
            seen.add(e.node)


def nodes(chk, s, it, f, lid, its, tk, recs):
    heads = set()
    for r, evs, how, end, le, i in its:
        if how != 'back':
            continue
        own = [t.owner for t in inside(tk(r), evs) if kind_of(t) == 'paths']
        if len(own) != 1:
            continue
        x = own[0]
        ok = False
        nx = stored(evs, nextloc(x))
        for p, v in end.extra:
            if v is x and nx and nx[-1] is p and dict(le.extra)[p] is ZERO:
                ok = True
                heads.add(p)
        if not ok:
            appended(chk, it, f, lid, [(r, evs, how, end, le, i)], tk,
                     'paths')
        d = direct(evs)
        g = end.facts
        pl = mk('fld', ptr_loc(x), 'path')
        ps = stored(evs, pl)
        h = stored(evs, mk('fld', ptr_loc(x), 'hint'))
        chk.need(bool(h) and h[-1] is ZERO, end.node,
                 'a path is read with a hint', f)
        mp = [e for e in d if e.kind == 'call' and e.name == 'strTableMap']
        chk.need(len(mp) == 1 and ps and mp[0].args[1] is ps[-1] and
                 mp[0].args[2] is x and
                 nameof(mp[0].args[0])[1] in ('path_table',) or
                 len(mp) == 1 and mp[0].args[0].op == 'phi' and
                 chain(vloc(mp[0].args[0]))[1] == 'path_table' and
                 ps and mp[0].args[1] is ps[-1] and mp[0].args[2] is x,
                 end.node, 'a path is not found by its name', f)
        # name of the parent
        al = [e for e in evs if e.kind == 'alloc' and
              e.name == 'strAppendPath']
        rec = [e for e in d if e.kind == 'call' and isrec(e)]
        par = None
        for e in al:
            b = e.args[0]
            if b.op == 'pure' and b.args[0] == 'str':
                continue
            par = fieldof(b, 'path')
        if par is not None:
            chk.need(par in it.args and all(
                len(e.args) == len(it.args) and
                e.args[it.args.index(par)] is x for e in rec), end.node,
                'a path is read below another path', f)
        else:
            chk.need(any(g.decide(mk('eq', a, ZERO)) is True
                         for a, (n, ty, dd) in zip(it.args, f.params)
                         if 'PathNode' in ty), end.node,
                     'a path is read below no path', f)
        sub_ = stored(evs, mk('fld', ptr_loc(x), 'subnodes'))
        chk.need(len(rec) == 1 and sub_ and sub_[-1] is rec[0].res, end.node,
                 'the paths below a path get lost', f)
    if heads:
        for r in recs:
            if is_ret(r):
                chk.need(r.val in heads or r.val is ZERO, r.node,
                         'does not return all paths', f)
    # the outermost call
    f0, it0, recs0 = closure(s)[0]
    idx = [j for j, (n, ty, d) in enumerate(f.params) if 'PathNode' in ty]
    for r in recs0:
        for e in r.events():
            if e.kind == 'call' and e.extra == f.key and is_ret(r):
                chk.need(all(e.args[j] is ZERO for j in idx), e.node,
                         'paths are read below another path', f0)
                chk.need(any(x.kind == 'store' and x.args[1] is e.res and
                             x.args[0].op == 'fld' and
                             x.args[0].args[1] == 'paths'
                             for x in r.events()), e.node,
                         'the paths get lost', f0)


def backups(chk, it, f, lid, its, tk):
    for r, evs, how, end, le, i in its:
        if how != 'back':
            continue
        t = [t for t in inside(tk(r), evs) if kind_of(t) == 'backups']
        if len(t) != 1:
            continue
        vals = {}
        els = set()
        for e in evs:
            if e.kind == 'store' and e.args[0].op == 'fld':
                vals[e.args[0].args[1]] = e.args[1]
                els.add(e.args[0].args[0])
        idx = None
        for x in els:
            if x.op == 'at':
                idx = x.args[1]
        chk.need(len(els) == 1 and idx is not None and idx.op == 'phi' and
                 dict(le.extra).get(idx) is ZERO and
                 dict(end.extra).get(idx) is add(idx, ONE) and
                 vals.get('completion_time') is t[0].val, end.node,
                 'completion times are not assigned in order', f)
        chk.need(vals.get('ref_count') is ZERO, end.node,
                 'a backup starts with references', f)


def finished(chk, s):
    chk.begin('metadata-file',
              'All metadata is written to one temporary file of the '
              'repository, which replaces the metadata when it is closed, '
              'after everything was written.')
    n = 0
    for k, (f, it, recs) in enumerate(wclosure(s)):
        chk.count(it, recs)
        a = it.args
        for r in recs:
            h = None
            closed = 0
            for e in r.events():
                if e.kind != 'call':
                    continue
                if e.name == 'repoWriterOpenRaw':
                    chk.need(h is None and k == 0, e.node,
                             'opens another file', f)
                    h = e.res
                    chk.need(e.args[0] is a[1] and e.args[1] is a[2] and
                             e.args[3] is a[3], e.node, 'writes the metadata '
                             'under another name', f)
                elif e.name == 'repoWriterOpenFile':
                    chk.need(False, e.node, 'stores another file', f)
                elif e.name == 'repoWriterWrite':
                    chk.need(not closed and (
                        e.args[2] is h if k == 0 else e.args[2] in a),
                        e.node, 'writes to a closed or other file', f)
                elif e.name == 'repoWriterClose':
                    chk.need(k == 0 and e.args[0] is h and not closed,
                             e.node, 'closes the wrong file or twice', f)
                    closed += 1
                elif isrec(e):
                    chk.need(not closed and (
                        h in e.args if k == 0 else any(
                            x in e.args for x in a)), e.node,
                        'paths are written to another file', f)
            if k == 0 and is_ret(r):
                n += 1
                chk.need(closed == 1, r.node, 'metadata is not finished', f)
    chk.anchor(n, 'ends of writing')

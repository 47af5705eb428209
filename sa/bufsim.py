"""Symbolic contents of character buffers along one recorded path.

Follows the events that write into buffers (sprintf family, memcpy, stores of
single characters) and renders strings as tuples of tokens:
  'c'               one literal character
  ('hex', v, i)     i-th of the two hexadecimal digits of the byte v
  ('var', conv, v)  conversion of variable length
  ('str', t)        all characters of the string t
Loops that only fill buffers are unrolled if their trip count is constant."""
import re

from core import *
from terms import add, sub, mul

FMT = re.compile(r'%(0?)(\d*)((?:hh|h|ll|l|z|j)?)([xXudisc%])')
MAXTRIP = 300


def subst(t, m, cache=None):
    """Replace leaf terms in t."""
    if t in m:
        return m[t]
    if cache is None:
        cache = {}
    if t in cache:
        return cache[t]
    if not (atoms(t) & m.keys()):
        return t
    if t.op == 'lin':
        r = num(t.args[0])
        for k, v in t.args[1]:
            r = add(r, mul(num(v), subst(k, m, cache)))
    elif t.op == 'mul':
        r = mul(subst(t.args[0], m, cache), subst(t.args[1], m, cache))
    else:
        a = []
        for x in t.args:
            if isinstance(x, T):
                a.append(subst(x, m, cache))
            elif isinstance(x, tuple):
                a.append(tuple(subst(y, m, cache) if isinstance(y, T) else y
                               for y in x))
            else:
                a.append(x)
        r = mk(t.op, *a)
        if t.op == 'ptradd' and r.args[0].op == 'ptradd':
            r = mk('ptradd', r.args[0].args[0], add(r.args[0].args[1],
                                                    r.args[1]))
        if t.op == 'ptradd' and r.args[1] is ZERO:
            r = r.args[0]
        if r.ty is None:
            r.ty = t.ty
    cache[t] = r
    return r


def unescape(s):
    s = s[1:-1] if s.startswith('"') else s
    return s.encode().decode('unicode_escape')


def split(p):
    """(base, offset)"""
    if p.op == 'ptradd':
        return p.args[0], p.args[1]
    return p, ZERO


class Unknown(Exception):
    pass


class BufSim:
    def __init__(self, it, recs):
        self.it = it
        self.recs = recs
        self.buf = {}      # base -> {offset term: cell}
        self.len = {}      # stream of notes

    # cells: ('c', int) | ('tok', token) | ('run', tokens incl. end)
    def cells(self, base):
        return self.buf.setdefault(base, {})

    def format(self, fmt, args):
        out = []
        pos = 0
        f = unescape(fmt)
        args = list(args)
        while pos < len(f):
            if f[pos] != '%':
                out.append(f[pos])
                pos += 1
                continue
            m = FMT.match(f, pos)
            if not m:
                raise Unknown('format ' + fmt)
            pos = m.end()
            zero, width, ln, cv = m.groups()
            if cv == '%':
                out.append('%')
                continue
            if not args:
                raise Unknown('format ' + fmt)
            v = args.pop(0)
            if cv == 's':
                out.append(('str', strip(v)))
            elif cv == 'c':
                out.append(chr(v.args[0]) if isint(v) else ('chr', v))
            elif cv in 'xX' and zero and width == '2' and (
                    isbyte(v)):
                out.append(('hex', v, 0, cv))
                out.append(('hex', v, 1, cv))
            elif cv in 'xX' and width in ('', '1') and nibble(v):
                out.append(('hex', *nibble(v), cv))
            else:
                out.append(('var', zero + width + ln + cv, v))
        return out

    def put(self, p, toks, nul=True):
        base, off = split(p)
        c = self.cells(base)
        cur = off
        toks = list(toks)
        for i, t in enumerate(toks):
            if isinstance(t, tuple) and t[0] in ('var', 'str'):
                c[cur] = ('run', tuple(toks[i:]), nul)
                return
            c[cur] = ('tok', t)
            cur = add(cur, ONE)
        if nul:
            c[cur] = ('tok', '\0')

    def feed(self, e):
        """Applies one event."""
        if e.kind == 'call':
            n, a = e.name, e.args
            if n == 'sprintf' or n in ('snprintf', '__builtin___sprintf_chk'
                                       ) and not isint(a[0]):
                k = 1 if n == 'sprintf' else 2
                if a[k].op != 'str':
                    raise Unknown('format')
                self.put(a[0], self.format(a[k].args[0], a[k + 1:]))
            elif n in ('memcpy', 'memmove', 'strcpy', 'strncpy',
                       '__builtin_memcpy'):
                self.copy(*a)
            elif n == 'CR_EnsureCapacity':
                # content is preserved
                if a[0] in self.buf:
                    self.buf[e.res] = dict(self.buf[a[0]])
        elif e.kind == 'store':
            l, v = e.args
            if l.op != 'at':
                return
            base, off = l.args
            c = self.cells(base)
            if isint(v):
                c[off] = ('tok', chr(v.args[0] & 255))
            else:
                src = vloc(v)
                x = None
                if src is not None and src.op == 'at':
                    x = self.buf.get(src.args[0], {}).get(src.args[1])
                c[off] = x if x is not None and x[0] == 'tok' else \
                    ('tok', digit(v) or ('chr', v))

    def copy(self, d, s, n=None):
        base, off = split(d)
        sb, so = split(s)
        c = self.cells(base)
        if n is not None and isint(n) and sb in self.buf:
            old = dict(self.buf[sb])
            for i in range(n.args[0]):
                x = old.get(add(so, num(i)))
                c[add(off, num(i))] = x or ('tok', ('chr', mk(
                    'init', mk('at', sb, add(so, num(i))))))
            return
        own = fieldof(s, 'content')
        if n is not None and own is not None and \
                fieldof(n, 'length') is own:
            c[off] = ('skip', ('str', strview(s)), n)
            return
        if n is not None and s.op == 'fieldof' and n.op == 'fieldof' and \
                s.args[0] is n.args[0] and s.args[1] == 'content' and \
                n.args[1] == 'length':
            c[off] = ('skip', ('str', s.args[0]), n)
            return
        raise Unknown('copy')

    def string(self, p):
        """Tokens of the string at pointer p."""
        base, off = split(p)
        c = self.buf.get(base)
        if c is None:
            return (('str', p),)
        out = []
        for _ in range(2000):
            x = c.get(off)
            if x is None:
                raise Unknown('unwritten character at %s' % show(off))
            if x[0] == 'tok':
                if x[1] == '\0':
                    return tuple(out)
                out.append(x[1])
                off = add(off, ONE)
            elif x[0] == 'skip':
                out.append(x[1])
                off = add(off, x[2])
            else:
                return tuple(out) + x[1]
        raise Unknown('endless string')

    def render(self, t):
        """Tokens of a string value (StringView or C string)."""
        if t.op == 'pure':
            n, a = t.args
            if n in ('strCopy', 'strCopyRaw', 'cstr', 'str'):
                if n == 'str' and a[0].op == 'str':
                    return tuple(unescape(a[0].args[0]))
                return self.render(a[0])
            if n == 'strAppendPath':
                return self.render(a[0]) + ('/',) + self.render(a[1])
            if n == 'strUnterminated':
                b, off = split(a[0])
                if b in self.buf:
                    return self.prefix(a[0], a[1])
            return (('str', t),)
        if t.op == 'str':
            return tuple(unescape(t.args[0]))
        b, off = split(t)
        if b in self.buf:
            return self.string(t)
        return (('str', strview(t)),)

    def prefix(self, p, n):
        base, off = split(p)
        end = add(off, n)
        c = self.buf[base]
        out = []
        for _ in range(2000):
            if off is end:
                return tuple(out)
            x = c.get(off)
            if x is None or x[0] == 'run':
                raise Unknown('prefix')
            if x[0] == 'tok':
                out.append(x[1])
                off = add(off, ONE)
            else:
                out.append(x[1])
                off = add(off, x[2])
        raise Unknown('prefix')

    # ------------------------------------------------------------- loops
    def trip(self, lid, entry, seen=()):
        """Unrolls a loop: list of events, or None if it does not matter."""
        body = []
        for r in self.recs:
            if r.kind != 'back':
                continue
            evs = r.events()
            if lid_of(evs[-1]) == lid:
                body.append((r, evs))
        writes = False
        for r, evs in body:
            k = max(i for i, e in enumerate(evs)
                    if e.kind == 'loop' and lid_of(e) == lid)
            if any(e.kind == 'call' and e.name in (
                    'sprintf', 'snprintf', 'memcpy', 'memmove') or
                    e.kind == 'store' and e.args[0].op == 'at'
                    for e in evs[k:]):
                writes = True
        if not writes:
            return [], {}
        if len(body) != 1:
            raise Unknown('loop with several paths')
        r, evs = body[0]
        k = max(i for i, e in enumerate(evs)
                if e.kind == 'loop' and lid_of(e) == lid)
        back = dict(evs[-1].extra)
        ent = dict(entry)
        inner = evs[k + 1:-1]
        # counters
        cnt = {}
        for p, v in ent.items():
            if p not in back:
                continue
            d = sub(back[p], p)
            if isint(v) and isint(d) and d.args[0] != 0:
                cnt[p] = (v.args[0], d.args[0])
        out = []
        cur = {p: v for p, v in ent.items()}
        bound = [p for p in cnt if r.facts.interval(p)[1] < 1e9 or
                 cnt[p][1] < 0]
        if not bound:
            raise Unknown('loop bound')
        for _ in range(MAXTRIP):
            vals = {p: cur[p] for p in cur}
            go = True
            for p in bound:
                v = cur[p].args[0]
                lo, hi, ex = r.facts.interval(p)
                if not (lo <= v <= hi) or v in ex:
                    go = False
            if not go:
                break
            for e in inner:
                out.append(replace(e, vals))
            cur = {p: subst(back.get(p, p), vals) for p in cur}
        else:
            raise Unknown('loop does not end')
        return out, cur

    def run(self, r):
        """Yields (event) of record r after having applied it; events of
        unrolled loops included."""
        evs = r.events()
        final = {}  # what loop variables are after their loop
        i = 0
        n = len(evs)
        while i < n:
            e = evs[i]
            if e.kind == 'loop':
                lid = lid_of(e)
                j = None
                for q in range(i + 1, n):
                    if evs[q].kind == 'exit' and lid_of(evs[q]) == lid:
                        j = q
                        break
                if j is not None:
                    body, last = self.trip(lid, e.extra)
                    for x in body:
                        x = replace(x, final)
                        self.feed(x)
                        yield x
                    for p, v in last.items():
                        final[p] = subst(v, final)
                    # events of the last, incomplete iteration
                    i += 1
                    continue
            e = replace(e, final)
            self.feed(e)
            yield e
            i += 1


def replace(e, m):
    if not m:
        return e
    return e._replace(args=tuple(subst(a, m) if isinstance(a, T) else a
                                 for a in e.args))


def strip(v):
    if v.op == 'pure' and v.args[0] in ('cstr', 'str'):
        return v.args[1][0]
    return v


def strview(s):
    """A StringView value for its content pointer."""
    l = vloc(s)
    if l is not None and l.op == 'fld' and l.args[1] == 'content':
        if s.op == 'init':
            return mk('init', l.args[0])
        return mk(s.op, *[l.args[0] if x is l else x for x in s.args])
    if s.op == 'fieldof' and s.args[1] == 'content':
        return s.args[0]
    return s


def digit(v):
    """Token for table[byte >> 4] and table[byte & 15]."""
    if v.op != 'strchar':
        return None
    s = unescape(v.args[0].args[0])
    if len(s) != 16 or s.lower() != '0123456789abcdef':
        return None
    cv = 'x' if s.islower() else 'X'
    b = nibble(v.args[1])
    return ('hex', *b, cv) if b else None


def nibble(i):
    """(byte, 0 or 1) if i is one half of a byte."""
    k = None
    if i.op == 'trunc':
        i = i.args[1]
    if i.op == '>>' and i.args[1] is num(4):
        b, k = i.args[0], 0
    elif i.op == '/' and i.args[1] is num(16):
        b, k = i.args[0], 0
    elif i.op == '&' and i.args[1] is num(15):
        b, k = i.args[0], 1
        if b.op == '>>' and b.args[1] is num(4):
            b, k = b.args[0], 0
    elif i.op == '%' and i.args[1] is num(16):
        b, k = i.args[0], 1
    if k is None or not isbyte(b):
        return None
    return b, k


def isbyte(v):
    if v.ty in ('uint8_t', 'unsigned char', 'u_int8_t', 'uint_least8_t',
                '__uint8_t'):
        return True
    if v.op == 'trunc' and v.args[0] == 8:
        return True
    l = vloc(v)
    if l is not None and l.op == 'at':
        x = l.args[0]
        while x.op in ('decay',):
            x = x.args[0]
        return x.op == 'fld' and x.args[1] == 'hash'
    return False

"""Facts about terms along one path: finite value sets, intervals and the
possible orderings of pairs of terms. Purely structural (no solver)."""
from terms import T, mk, num, isint, lin_parts, lin_make, add, sub, ZERO

INF = float('inf')
FLIP = str.maketrans('<>', '><')

S_IFMT = 0o170000
IFMT_DOM = frozenset([0o100000, 0o040000, 0o120000, 0o010000, 0o140000,
                      0o020000, 0o060000])


def hint_domain():
    low = list(range(2, 14))
    bits = []
    for m in range(32):
        v = 0
        for i in range(5):
            if m >> i & 1:
                v |= 1 << (4 + i)
        bits.append(v)
    out = {1}
    for b in low + bits:
        for p in (0, 512, 1024, 1536):
            out.add(b | p)
    return frozenset(out)


HINTS = hint_domain()
FINITE = {
    'BackupHint': HINTS,
    'PathStateType': frozenset(range(4)),
    'BackupPolicy': frozenset(range(6)),
    'bool': frozenset((0, 1)),
    '_Bool': frozenset((0, 1)),
    'SearchResultType': frozenset((0, 1, 2, 4, 8, 16, 32)),
    'RepoLockHint': frozenset((0, 1)),
}
UNSIGNED = ('size_t', 'uint64_t', 'uint8_t', 'unsigned', 'uint32_t',
            'uint16_t', 'mode_t', 'uid_t', 'gid_t')

LEAFOPS = ('init', 'res', 'phi', 'hv', 'param', 'fieldof', 'pure')


def leafdom(t):
    """Finite domain of a leaf term, or None."""
    if t.op == '&' and t.args[1].op == 'int' and t.args[1].args[0] == S_IFMT:
        return IFMT_DOM
    if t.op in LEAFOPS and t.ty in FINITE:
        return FINITE[t.ty]
    if t.op in ('eq', 'lt'):
        return FINITE['bool']
    return None


ARITH = ('lin', '&', '|', '^', '<<', '>>', 'eq', 'lt', 'mul', '~', 'trunc',
         'not', '/', '%')


SWAP = str.maketrans('<>', '><')


def finleaves(t):
    """(set of finite leaves, complete?): complete means that the value of t
    is a function of those leaves."""
    if t._leaves is not None:
        return t._leaves
    r = None
    if t.op == 'int':
        r = (frozenset(), True)
    elif leafdom(t) is not None and t.op not in ('eq', 'lt'):
        r = (frozenset([t]), True)
    elif t.op == 'lin':
        s, ok = frozenset(), True
        for k, v in t.args[1]:
            a, b = finleaves(k)
            s |= a
            ok = ok and b
        r = (s, ok)
    elif t.op in ARITH:
        s, ok = frozenset(), True
        for k in t.args:
            if isinstance(k, T):
                a, b = finleaves(k)
                s |= a
                ok = ok and b
        r = (s, ok)
    else:
        r = (frozenset(), False)
    t._leaves = r
    return r


def evalterm(t, env):
    """Value of t under env (dict leaf -> int), or None if unknown."""
    if t in env:
        return env[t]
    o = t.op
    if o == 'int':
        return t.args[0]
    if o == 'lin':
        v = t.args[0]
        for k, c in t.args[1]:
            x = evalterm(k, env)
            if x is None:
                return None
            v += c * x
        return v
    if o == 'not':
        a = evalterm(t.args[0], env)
        return None if a is None else int(not a)
    if o == '~':
        a = evalterm(t.args[0], env)
        return None if a is None else ~a
    if o == 'trunc':
        a = evalterm(t.args[1], env)
        return None if a is None else a & ((1 << t.args[0]) - 1)
    if o in ('&', '|', '^', '<<', '>>', 'eq', 'lt', 'mul', '/', '%'):
        a = evalterm(t.args[0], env)
        b = evalterm(t.args[1], env)
        if o == '&' and (a == 0 or b == 0):
            return 0
        if a is None or b is None:
            return None
        if o == '&':
            return a & b
        if o == '|':
            return a | b
        if o == '^':
            return a ^ b
        if o == '<<':
            return a << b
        if o == '>>':
            return a >> b
        if o == 'eq':
            return int(a == b)
        if o == 'lt':
            return int(a < b)
        if o == 'mul':
            return a * b
        if o == '/':
            return a // b if b else None
        if o == '%':
            return a % b if b else None
    return None


def is_unsigned(t):
    if t.op == 'sizeof':
        return True
    return t.ty is not None and (t.ty in UNSIGNED or
                                 t.ty.startswith('unsigned'))


class Facts:
    __slots__ = ('dom', 'iv', 'rel')

    def __init__(self):
        self.dom = {}   # leaf -> frozenset
        self.iv = {}    # term -> (lo, hi, frozenset excluded)
        self.rel = {}   # (a, b) a.id<b.id -> str subset of '<=>'

    def copy(self):
        f = Facts()
        f.dom = dict(self.dom)
        f.iv = dict(self.iv)
        f.rel = dict(self.rel)
        return f

    def key(self):
        return (frozenset(self.dom.items()), frozenset(self.iv.items()),
                frozenset(self.rel.items()))

    # -- queries --
    def domain(self, leaf):
        d = self.dom.get(leaf)
        return d if d is not None else leafdom(leaf)

    def interval(self, t):
        if t.op == 'int':
            v = t.args[0]
            return (v, v, frozenset())
        r = self.iv.get(t)
        if r is None:
            lo = 0 if is_unsigned(t) else -INF
            r = (lo, INF, frozenset())
        return r

    def values(self, t):
        """Set of possible values if t depends on one finite leaf."""
        if t.op == 'int':
            return {t.args[0]}
        ls, ok = finleaves(t)
        if len(ls) == 1:
            l, = ls
            out = set()
            for v in self.domain(l):
                x = evalterm(t, {l: v})
                if x is None:
                    return None
                out.add(x)
            return out
        if len(ls) == 2 and ok:
            import itertools
            a, b = ls
            da, db = self.domain(a), self.domain(b)
            if len(da) * len(db) <= 2000:
                return {evalterm(t, {a: x, b: y})
                        for x, y in itertools.product(da, db)}
        return None

    def decide(self, t):
        """Truth value of a condition term: True, False or None."""
        if t.op == 'int':
            return t.args[0] != 0
        if t.op == 'not':
            r = self.decide(t.args[0])
            return None if r is None else not r
        vs = self.values(t)
        if vs is not None:
            if all(v != 0 for v in vs):
                return True
            if not any(vs):
                return False
            return None
        if t.op not in ('eq', 'lt'):
            if t.op in ('addr', 'decay', 'str', 'fn'):
                return True
            if t.op == 'ptradd':
                return True
            return self.decide(mk('not', mk('eq', t, ZERO)))
        a, b = t.args
        if a is b:
            return t.op == 'eq'
        if isint(a) and isint(b):
            x, y = a.args[0], b.args[0]
            return x == y if t.op == 'eq' else x < y
        if isint(a) or isint(b):
            return self._decide_const(t.op, a, b)
        if a.op == 'lin' or b.op == 'lin':
            d = sub(a, b)
            if isint(d):
                return d.args[0] == 0 if t.op == 'eq' else d.args[0] < 0
        x, y, ops = self._pair(a, b)
        r = self.rel.get((x, y), '<=>')
        # interval based
        ia, ib = self._linterval(x), self._linterval(y)
        if ia[1] < ib[0]:
            r = '<'
        elif ia[0] > ib[1]:
            r = '>'
        else:
            if ia[1] <= ib[0]:
                r = r.replace('>', '')
            if ia[0] >= ib[1]:
                r = r.replace('<', '')
        want = '=' if t.op == 'eq' else ('<' if x is a else '>')
        if want in r and r != want and len(self.rel) > 1:
            r = self._through(x, y, r)
        if want not in r:
            return False
        if r == want:
            return True
        if (self.rel or self.iv) and (a.op == 'lin' or b.op == 'lin'):
            return self._by_difference(t.op, a, b)
        return None

    def _through(self, x, y, r):
        """Ordering of x and y narrowed through terms equal to x or y."""
        for (p, q), k in self.rel.items():
            if k != '=':
                continue
            for o, z in ((p, q), (q, p)):
                if o is x and z is not y:
                    m, n, _ = self._pair(z, y)
                    flip = m is not z
                elif o is y and z is not x:
                    m, n, _ = self._pair(x, z)
                    flip = m is not x
                else:
                    continue
                k2 = self.rel.get((m, n))
                if k2:
                    if flip:
                        k2 = k2.translate(FLIP)
                    r = ''.join(c for c in r if c in k2)
        return r

    def _by_difference(self, op, a, b):
        """Decides a op b through a known relation between two terms with
        the same (or the opposite) difference."""
        d = sub(a, b)
        for (x, y), r in self.rel.items():
            if x.op != 'lin' and y.op != 'lin':
                continue
            e = sub(x, y)
            if e is d:
                pass
            elif sub(y, x) is d:
                r = r.translate(FLIP)
            else:
                continue
            if not (self._nowrap(x) and self._nowrap(y)):
                continue
            want = '=' if op == 'eq' else '<'
            if want not in r:
                return False
            if r == want:
                return True
        for x, (lo, hi, ex) in self.iv.items():
            if x.op != 'lin' or len(x.args[1]) < 2:
                continue
            c = sub(d, x)
            if isint(c):
                lo, hi = lo + c.args[0], hi + c.args[0]
            else:
                c = add(d, x)
                if not isint(c):
                    continue
                lo, hi = c.args[0] - hi, c.args[0] - lo
            if not self._nowrap(x):
                continue
            if op == 'eq':
                if lo > 0 or hi < 0:
                    return False
            elif hi < 0:
                return True
            elif lo >= 0:
                return False
        return None

    def _nowrap(self, t):
        """Subtractions within t do not get negative."""
        if t.op != 'lin':
            return True
        c, parts = lin_parts(t)
        neg = [(k, -v) for k, v in parts.items() if v < 0]
        if not neg and c >= 0:
            return True
        if len(neg) > 1 or any(v != 1 for k, v in neg):
            return False
        pos = lin_make(max(c, 0), {k: v for k, v in parts.items() if v > 0})
        if neg and c >= 0:
            return self._le(neg[0][0], pos)
        if not neg:
            return self._le(num(-c), pos)
        return False

    def _le(self, a, b):
        if a is b:
            return True
        c, parts = lin_parts(b)
        if a in parts and c >= 0:
            return True
        if a.op == 'lin' or b.op == 'lin':
            x, y, _ = self._pair(a, b)
            r = self.rel.get((x, y), '<=>')
            return ('>' if x is a else '<') not in r
        return self.decide(mk('lt', b, a)) is False

    def _linterval(self, t):
        if t.op == 'lin' and len(t.args[1]) == 1 and t.args[1][0][1] == 1:
            c = t.args[0]
            lo, hi, ex = self.interval(t.args[1][0][0])
            a = self.iv.get(t)
            lo, hi = lo + c, hi + c
            if a:
                lo, hi = max(lo, a[0]), min(hi, a[1])
            return lo, hi, frozenset(e + c for e in ex)
        if t.op == '&' and isint(t.args[1]):
            return 0, t.args[1].args[0], frozenset()
        if t.op == 'trunc':
            return 0, (1 << t.args[0]) - 1, frozenset()
        return self.interval(t)

    @staticmethod
    def _pair(a, b):
        if a.id < b.id:
            return a, b, None
        return b, a, None

    @staticmethod
    def _shift(t, c):
        """t rel c  ->  root rel c'"""
        if t.op == 'lin' and len(t.args[1]) == 1 and t.args[1][0][1] == 1:
            return t.args[1][0][0], c - t.args[0]
        return t, c

    def _decide_const(self, op, a, b):
        if op == 'eq':
            if isint(a):
                a, b = b, a
            if a.op in ('addr', 'decay', 'str', 'fn', 'ptradd') and \
                    b.args[0] == 0:
                return False
            r, c = self._shift(a, b.args[0])
            lo, hi, ex = self.interval(r)
            if c < lo or c > hi or c in ex:
                return False
            if lo == hi == c:
                return True
            return None
        if isint(b):   # a < c
            r, c = self._shift(a, b.args[0])
            lo, hi, ex = self._linterval(r)
            if hi < c:
                return True
            if lo >= c:
                return False
            return None
        r, c = self._shift(b, a.args[0])   # c < r
        lo, hi, ex = self._linterval(r)
        if lo > c:
            return True
        if hi <= c:
            return False
        return None

    # -- updates: return new Facts or None if contradictory --
    def assume(self, t, pol):
        d = self.decide(t)
        if d is not None:
            return self if d == pol else None
        if t.op == 'not':
            return self.assume(t.args[0], not pol)
        ls, ok = finleaves(t)
        if len(ls) == 1:
            l, = ls
            new = []
            for v in self.domain(l):
                x = evalterm(t, {l: v})
                if x is None:
                    break
                if bool(x) == pol:
                    new.append(v)
            else:
                if not new:
                    return None
                f = self.copy()
                f.dom[l] = frozenset(new)
                return f._arc(l) if f.rel else f
        if t.op not in ('eq', 'lt'):
            return self.assume(mk('eq', t, ZERO), not pol)
        a, b = t.args
        if isint(a) or isint(b):
            return self._assume_const(t.op, a, b, pol)
        x, y, _ = self._pair(a, b)
        r = self.rel.get((x, y), '<=>')
        want = '=' if t.op == 'eq' else ('<' if x is a else '>')
        n = want if pol else r.replace(want, '')
        if pol and want not in r or not n:
            return None
        f = self.copy()
        f.rel[(x, y)] = n
        if n == '=':
            for p in (x, y):
                if p in f.iv and not f._spread(p):
                    return None
        if leafdom(x) is not None and leafdom(y) is not None:
            for l in (x, y):
                if len(f.domain(l)) == 1:
                    f = f._arc(l)
                    if f is None:
                        return None
        return f

    def _arc(self, l):
        """Removes values of finite leaves which contradict a known relation
        to the leaf l. Changes self; returns None on a contradiction."""
        work = [l]
        while work:
            l = work.pop()
            d = self.domain(l)
            if len(d) != 1:
                continue
            v, = d
            for (x, y), r in self.rel.items():
                if l is x:
                    o = y
                elif l is y:
                    o, r = x, r.translate(SWAP)
                else:
                    continue
                od = leafdom(o) and self.domain(o)
                if not od:
                    continue
                n = frozenset(w for w in od
                              if ('=' if v == w else '<' if v < w else '>')
                              in r)
                if len(n) == len(od):
                    continue
                if not n:
                    return None
                self.dom[o] = n
                if len(n) == 1:
                    work.append(o)
        return self

    def _assume_const(self, op, a, b, pol):
        if op == 'eq' and isint(a):
            a, b = b, a
        if op == 'eq':
            r, c = self._shift(a, b.args[0])
            lo, hi, ex = self.interval(r)
            if pol:
                n = (c, c, frozenset())
            else:
                ex = ex | {c}
                while lo in ex:
                    lo += 1
                while hi in ex:
                    hi -= 1
                n = (lo, hi, frozenset(e for e in ex if lo <= e <= hi))
        elif isint(b):
            r, c = self._shift(a, b.args[0])
            lo, hi, ex = self.interval(r)
            if pol:
                hi = min(hi, c - 1)
            else:
                lo = max(lo, c)
            n = (lo, hi, ex)
        else:
            r, c = self._shift(b, a.args[0])
            lo, hi, ex = self.interval(r)
            if pol:
                lo = max(lo, c + 1)
            else:
                hi = min(hi, c)
            n = (lo, hi, ex)
        lo, hi, ex = n
        while lo in ex:
            lo += 1
        while hi in ex:
            hi -= 1
        if lo > hi:
            return None
        f = self.copy()
        f.iv[r] = (lo, hi, frozenset(e for e in ex if lo <= e <= hi))
        if f.rel and not f._spread(r):
            return None
        return f

    def _spread(self, t):
        """Propagates the interval of t to the terms equal to it. Changes
        self; returns False on a contradiction."""
        work = [t]
        while work:
            t = work.pop()
            for (x, y), r in self.rel.items():
                if r != '=' or (t is not x and t is not y):
                    continue
                o = y if t is x else x
                if o.op == 'int':
                    continue
                a, b = self.interval(t), self.interval(o)
                lo, hi = max(a[0], b[0]), min(a[1], b[1])
                ex = a[2] | b[2]
                while lo in ex:
                    lo += 1
                while hi in ex:
                    hi -= 1
                if lo > hi:
                    return False
                n = (lo, hi, frozenset(e for e in ex if lo <= e <= hi))
                if n != b:
                    self.iv[o] = n
                    work.append(o)
        return True

    def holds(self, t):
        return self.decide(t) is True

    def consistent(self, t, pol=True):
        return self.assume(t, pol) is not None

    def restrict(self, leaf, value):
        """Facts with leaf fixed to value, or None."""
        return self.assume(mk('eq', leaf, num(value)), True)


def exact_join(f, g):
    """Join of two fact boxes if the union is exactly representable."""
    if f is g:
        return f
    diff = []
    for kind in ('dom', 'iv', 'rel'):
        a, b = getattr(f, kind), getattr(g, kind)
        if a == b:
            continue
        for k in set(a) | set(b):
            if a.get(k) != b.get(k):
                diff.append((kind, k))
    if not diff:
        return f
    # subsumption
    if all(_sub(f, g, k, x) for k, x in diff):
        return g
    if all(_sub(g, f, k, x) for k, x in diff):
        return f
    if len(diff) != 1:
        return None
    kind, k = diff[0]
    h = f.copy()
    if kind == 'dom':
        u = f.domain(k) | g.domain(k)
        h.dom[k] = frozenset(u)
        if u == leafdom(k):
            h.dom.pop(k, None)
        return h
    if kind == 'rel':
        u = ''.join(c for c in '<=>' if c in f.rel.get(k, '<=>') or
                    c in g.rel.get(k, '<=>'))
        if u == '<=>':
            h.rel.pop(k, None)
        else:
            h.rel[k] = u
        return h
    a, b = f.interval(k), g.interval(k)
    if a[0] > b[0]:
        a, b = b, a
    # a starts first
    if b[0] <= a[1] + 1:
        ex = frozenset(e for e in a[2] if not (b[0] <= e <= b[1]) or
                       e in b[2])
        ex |= frozenset(e for e in b[2] if not (a[0] <= e <= a[1]) or
                        e in a[2])
        n = (a[0], max(a[1], b[1]), ex)
    elif b[0] - a[1] <= 3:
        gap = range(int(a[1]) + 1, int(b[0]))
        n = (a[0], b[1], a[2] | b[2] | frozenset(gap))
    else:
        return None
    base = Facts().interval(k)
    if n == base:
        h.iv.pop(k, None)
    else:
        h.iv[k] = n
    return h


def lossy_join(fs):
    """Facts which hold in all of the given boxes."""
    h = Facts()
    a = fs[0]
    for k, d in a.dom.items():
        if all(k in f.dom for f in fs):
            h.dom[k] = frozenset().union(*[f.dom[k] for f in fs])
    for k, v in a.iv.items():
        if all(k in f.iv for f in fs):
            vs = [f.iv[k] for f in fs]
            ex = frozenset().union(*[x[2] for x in vs])
            h.iv[k] = (min(x[0] for x in vs), max(x[1] for x in vs),
                       frozenset(e for e in ex if all(
                           e in x[2] or e < x[0] or e > x[1] for x in vs)))
    for k, v in a.rel.items():
        if all(k in f.rel for f in fs):
            u = ''.join(c for c in '<=>' if any(c in f.rel[k] for f in fs))
            if u != '<=>':
                h.rel[k] = u
    return h


def _sub(f, g, kind, k):
    """f's fact on k implies g's."""
    if kind == 'dom':
        return f.domain(k) <= g.domain(k)
    if kind == 'rel':
        return set(f.rel.get(k, '<=>')) <= set(g.rel.get(k, '<=>'))
    a, b = f.interval(k), g.interval(k)
    return a[0] >= b[0] and a[1] <= b[1] and \
        all(e in a[2] or e < a[0] or e > a[1] for e in b[2])

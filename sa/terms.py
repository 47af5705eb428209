"""Hash-consed terms: symbolic names for runtime values and memory objects.

Terms are only compared and simplified structurally; no solver is involved."""

_tab = {}


class T:
    __slots__ = ('op', 'args', 'id', 'ty', '_leaves', '_atoms')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *args):
    key = (op,) + args
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = len(_tab)
        t.ty = None
        t._leaves = None
        t._atoms = None
        _tab[key] = t
    return t


def num(v):
    return mk('int', int(v))


ZERO = num(0)
ONE = num(1)


def isint(t):
    return t.op == 'int'


def subterms(t, seen=None):
    """All terms occurring in t (including t), each once."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for a in x.args:
            if isinstance(a, T):
                stack.append(a)
            elif isinstance(a, tuple):
                _push(a, stack)


def _push(tup, stack):
    for a in tup:
        if isinstance(a, T):
            stack.append(a)
        elif isinstance(a, tuple):
            _push(a, stack)


def atoms(t):
    """frozenset of all subterms, cached."""
    if t._atoms is None:
        t._atoms = frozenset(subterms(t))
    return t._atoms


def mentions(t, sub):
    return sub in atoms(t)


# --- linear arithmetic normal form ---------------------------------------

def lin_parts(t):
    """(const, {term: coef})"""
    if t.op == 'int':
        return t.args[0], {}
    if t.op == 'lin':
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def lin_make(c, parts):
    parts = {k: v for k, v in parts.items() if v != 0}
    if not parts:
        return num(c)
    if c == 0 and len(parts) == 1:
        (k, v), = parts.items()
        if v == 1:
            return k
    r = mk('lin', c, tuple(sorted(parts.items(), key=lambda x: x[0].id)))
    if r.ty is None and len(parts) == 1:
        r.ty = next(iter(parts)).ty
    return r


def add(a, b, sign=1):
    ca, pa = lin_parts(a)
    cb, pb = lin_parts(b)
    pa = dict(pa)
    for k, v in pb.items():
        pa[k] = pa.get(k, 0) + sign * v
    return lin_make(ca + sign * cb, pa)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    if isint(a) and isint(b):
        return num(a.args[0] * b.args[0])
    if isint(b):
        a, b = b, a
    if isint(a):
        c, p = lin_parts(b)
        k = a.args[0]
        return lin_make(c * k, {x: v * k for x, v in p.items()})
    x, y = sorted((a, b), key=lambda t: t.id)
    return mk('mul', x, y)


# --- display ----------------------------------------------------------------

def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    if d > 12:
        return '..'
    o, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if o == 'int':
        return str(a[0])
    if o == 'str':
        return a[0]
    if o == 'fn':
        return '&' + a[0]
    if o == 'init':
        return s(a[0])
    if o == 'hv':
        return '%s#%s' % (s(a[0]), a[2])
    if o == 'phi':
        return 'phi(%s)' % s(a[2])
    if o == 'var':
        return a[0]
    if o == 'glob':
        return '::' + a[1]
    if o == 'fld':
        if a[0].op == 'at' and a[0].args[1] is ZERO:
            return s(a[0].args[0]) + '->' + a[1]
        return s(a[0]) + '.' + a[1]
    if o == 'at':
        if a[1] is ZERO:
            return '*(%s)' % s(a[0])
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if o == 'addr':
        return '&' + s(a[0])
    if o == 'decay':
        return s(a[0])
    if o == 'ptradd':
        return '(%s+%s)' % (s(a[0]), s(a[1]))
    if o == 'res':
        return '%s()%s' % (a[0], '' if a[3] == 0 else "'" * min(a[3], 3))
    if o == 'param':
        return a[0]
    if o == 'lin':
        out = [] if a[0] == 0 else [str(a[0])]
        for k, v in a[1]:
            out.append(s(k) if v == 1 else '%d*%s' % (v, s(k)))
        return '(' + ' + '.join(out) + ')'
    if o == 'struct':
        return '{' + ', '.join('.%s=%s' % (k, s(v)) for k, v in a[1]) + '}'
    if o in ('eq', 'lt'):
        return '(%s %s %s)' % (s(a[0]), {'eq': '==', 'lt': '<'}[o], s(a[1]))
    return '%s(%s)' % (o, ', '.join(s(x) if isinstance(x, T) else str(x)
                                    for x in a))

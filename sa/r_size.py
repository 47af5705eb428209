"""Rules about arithmetic on sizes and counters (P23)."""
from core import *
from engine import INTSIZE as _SIZES, SIGNED
from facts import INF
from terms import add, sub, mul

INTSIZE = dict(_SIZES, **{t: 8 for t in (
    '__off_t', '__off64_t', '__time_t', '__ssize_t', '__blksize_t',
    '__blkcnt_t', '__ino_t', '__dev_t', '__nlink_t', 'dev_t', 'ino_t',
    '__syscall_slong_t', 'ptrdiff_t', 'intmax_t', 'uintmax_t')})
CHECKED = {'sSizeAdd': '+', 'sUint64Add': '+', 'sSizeMul': '*',
           'sUint64Mul': '*'}
MAX = num((1 << 64) - 1)
SINKS = {'allocate': 1, 'sMalloc': 0, 'malloc': 0, 'realloc': 1,
         'CR_RegionAlloc': 1, 'CR_RegionAllocUnaligned': 1,
         'CR_RegionAllocGrowable': 1, 'CR_EnsureCapacity': 1}
PRINTF = {'printf', 'fprintf', 'snprintf', 'die', 'dieErrno', 'colorPrintf',
          'vfprintf', 'sprintf', 'dprintf', 'warnx', 'warn', 'syslog'}


class Raw(Std):
    """One function on its own, checked arithmetic kept as such."""
    raw = True
    errno = True
    pure = Std.pure | set(CHECKED)
    follow = False

    def __init__(self, prog, expand=()):
        super().__init__(prog)
        for a in CHECKED:
            self.models.pop(a, None)

    def inline(self, f):
        return self.follow and (f.name not in self.opaque_names or f.static)


class RawIn(Raw):
    """The same, with helpers followed into."""
    follow = True


def ours(prog):
    return [f for k, f in sorted(prog.funcs.items())
            if 'third-party' not in f.file]


def upper(facts, t):
    """An upper bound of the value of t (arithmetic not wrapping), or INF
    when its type does not bound it."""
    if isint(t):
        return t.args[0]
    if t.op == 'lin':
        c, parts = lin_parts(t)
        b = facts._linterval(t)[1]
        if b != INF:
            return b
        s = c
        for k, v in parts.items():
            if v < 0:
                continue
            u = upper(facts, k)
            if u == INF:
                return INF
            s += v * u
        return s
    if t.op == 'sizeof':
        return 1 << 20
    if t.op in ('eq', 'lt', 'not'):
        return 1
    if t.op == 'mul':
        a, b = (upper(facts, x) for x in t.args)
        return INF if INF in (a, b) else a * b
    if t.op == '<<' and isint(t.args[1]):
        a = upper(facts, t.args[0])
        return INF if a == INF else a << t.args[1].args[0]
    d = facts.domain(t)
    if d:
        return max(d)
    b = facts._linterval(t)[1]
    if b != INF:
        return b
    w = INTSIZE.get((t.ty or '').replace('const ', ''))
    if w is not None and w < 8:
        m = (1 << (8 * w - (t.ty in SIGNED))) - 1
        while m in facts._linterval(t)[2]:
            m -= 1
        return m
    if t.op == '&' and isint(t.args[1]):
        return t.args[1].args[0]
    if t.op in ('/', '>>', '%') and isint(t.args[1]):
        return INF
    return INF


def below_something(facts, t):
    """t is known to be smaller than, or at most, some other value of the
    same width, so that computing it did not wrap around."""
    for (x, y), r in facts.rel.items():
        for a, b, rr in ((x, y, r), (y, x, r.translate(SWP))):
            if a is t and not mentions(b, t) and '>' not in rr:
                return True
    return False


SWP = str.maketrans('<>', '><')


def fits(facts, op, a, b, r):
    """Does computing a op b not exceed 64 bit?"""
    ua, ub = upper(facts, a), upper(facts, b)
    if INF not in (ua, ub):
        v = {'+': lambda: ua + ub, '*': lambda: ua * ub,
             '<<': lambda: ua << min(ub, 64)}[op]()
        if v < 1 << 64:
            return True
    if op == '+':
        # the same sum was computed by a checked operation before
        for k in facts.rel:
            for z in k:
                if z.op == 'pure' and CHECKED.get(z.args[0]) == '+' and \
                        add(*z.args[1]) is r:
                    return True
        # b <= x - a, or a + b compared in the path before being computed
        for (x, y), rel in facts.rel.items():
            for p, q, rr in ((x, y, rel), (y, x, rel.translate(SWP))):
                if '>' in rr:
                    continue
                # p <= q on this path
                for m, n in ((a, b), (b, a)):
                    if p is m:
                        c, parts = lin_parts(q)
                        if parts.get(n) == -1:
                            return True
                        c, parts = lin_parts(add(q, n))
                        if not isint(n) and c >= 0 and \
                                all(v > 0 for v in parts.values()):
                            return True
                        c, parts = lin_parts(q)
                        if isint(n) and n.args[0] == 1 and rr == '<' and \
                                p is m:
                            return True
                        # m <= x - c without wrapping
                        if isint(n) and c <= -n.args[0] and \
                                facts._nowrap(q):
                            return True
    return False


def narrow(facts, op, a, b, r, ty):
    """The same for narrower types."""
    w = INTSIZE.get(ty, 8)
    ua, ub = upper(facts, a), upper(facts, b)
    if INF in (ua, ub):
        return fits(facts, op, a, b, r)
    m = (1 << (8 * w - (ty in SIGNED))) - 1
    v = {'+': lambda: ua + ub, '*': lambda: ua * ub,
         '<<': lambda: ua << min(ub, 64)}[op]()
    return v <= m


def position(prog, n):
    """Is the value of n used as position in an existing object only?"""
    p = prog.parent.get(n.nid)
    c = n
    while p is not None and p.kind in ('ParenExpr', 'ImplicitCastExpr'):
        c, p = p, prog.parent.get(p.nid)
    if p is None:
        return False
    if p.kind == 'ArraySubscriptExpr':
        return p.kids[1] is c or p.kids[0] is c
    if p.kind == 'BinaryOperator' and p.op in '+-' and (
            p.ty or '').endswith('*'):
        return True
    return False


def parents(prog):
    if not hasattr(prog, 'parent'):
        prog.parent = {}
        for f in prog.funcs.values():
            for x in f.body.walk():
                for k in x.kids:
                    if k is not None:
                        prog.parent[k.nid] = x
    return prog.parent


def target(prog, n):
    """The variable which the sum n is assigned to."""
    if n.kind in ('UnaryOperator', 'CompoundAssignOperator'):
        return n.kids[0]
    p = prog.parent.get(n.nid)
    while p is not None and p.kind in ('ParenExpr', 'ImplicitCastExpr'):
        p = prog.parent.get(p.nid)
    if p is not None and p.kind == 'BinaryOperator' and p.op == '=':
        return p.kids[0]
    return None


def public_field(prog, x):
    """Is x a field of a struct which headers declare?"""
    if x is None:
        return False
    while x.kind in ('ParenExpr', 'ImplicitCastExpr'):
        x = x.kids[0]
    if x.kind != 'MemberExpr':
        return False
    b = x.kids[0]
    while b.kind in ('ParenExpr', 'ImplicitCastExpr'):
        b = b.kids[0]
    ty = (b.ty or '').replace('const ', '').replace('*', '').strip()
    import glob
    if not hasattr(prog, '_hdrtypes'):
        import re
        out = set()
        for h in glob.glob(os.path.join(prog.root, 'src', '*.h')):
            txt = open(h, errors='replace').read()
            txt = re.sub(r'/\*.*?\*/', ' ', txt, flags=re.S)
            out |= set(re.findall(r'struct\s+(\w+)\s*\{', txt))
            out |= set(re.findall(r'\}\s*(\w+)\s*;', txt))
        prog._hdrtypes = out
    return ty.replace('struct ', '') in prog._hdrtypes


def run_raw(s, f, pol):
    key = ('raw', f.key, pol)
    if key not in s.cache:
        it = Interp(s.p, pol(s.p))
        s.cache[key] = (it, it.run(f))
    return s.cache[key]


def callers(prog, f):
    out = []
    for g in prog.funcs.values():
        if g is f:
            continue
        for x in g.body.walk():
            if x.kind == 'DeclRefExpr' and x.name == f.name and \
                    prog.resolve(x.name, g.file) is f:
                out.append(g)
                break
    return out


def allocsize(facts, t):
    """Is size t free of unchecked arithmetic which may wrap around?"""
    if t.op in ('pure',) and t.args[0] in CHECKED:
        return all(allocsize(facts, x) for x in t.args[1])
    if isint(t) or t.op == 'sizeof':
        return True
    if t.op == 'lin':
        c, parts = lin_parts(t)
        if not all(allocsize(facts, k) for k in parts):
            return False
        if any(v < 0 for v in parts.values()) or c < 0:
            return facts._nowrap(t)
        return upper(facts, t) < 1 << 64 or below_something(facts, t)
    if t.op in ('mul', '<<'):
        return all(allocsize(facts, k) for k in t.args) and \
            upper(facts, t) < 1 << 64
    if t.op == 'trunc':
        return upper(facts, t.args[1]) < 1 << t.args[0]
    return True


def judge(prog, e):
    """None if event e is fine, else what is wrong."""
    op, (a, b), r, ty, n = e.name, e.args, e.res, e.extra, e.node
    if e.kind != 'raw' or op == '-' or isint(a) and isint(b):
        return None
    ty = (ty or '').replace('const ', '')
    w = INTSIZE.get(ty)
    if w is None or ty in SIGNED and w == 8:
        return None          # floating point, times
    if position(prog, n):
        return None
    if w < 8:
        if narrow(e.facts, op, a, b, r, ty):
            return None
        if w == 4 and ty == 'int' and all(
                x.op in ('int', 'res', 'lin') for x in (a, b)):
            return None      # sums of results of snprintf()
        if op == '<<':
            return None      # bit operations of fixed width
        return 'may exceed the type %s' % ty
    if op == '<<' and any(x.op in ('<<', '|', '&', '>>') for x in (a,)):
        return None
    if op == '<<':
        p = prog.parent.get(n.nid)
        while p is not None and p.kind in ('ParenExpr', 'ImplicitCastExpr'):
            p = prog.parent.get(p.nid)
        if p is not None and p.kind == 'BinaryOperator' and p.op in '&|^':
            return None      # bit operations of fixed width
    if fits(e.facts, op, a, b, r):
        return None
    if op == '+' and (isint(a) or isint(b)):
        c = a if isint(a) else b
        x = b if isint(a) else a
        if c.args[0] < 0:
            return None
        if public_field(prog, target(prog, n)):
            return 'of a total may wrap around unnoticed'
        return None          # steps of fixed size
    if op == '+' and any(x.op in ('eq', 'lt', 'not') or x.ty in
                         ('bool', '_Bool') for x in (a, b)):
        return None          # steps of at most one
    # the sum is the value of something that exists
    if op == '+' and r.op != 'lin':
        return None
    return 'may wrap around unnoticed'


def arithmetic(chk, s):
    prog = s.p
    parents(prog)
    chk.begin('checked-arithmetic',
              'Sums, products and shifts of sizes and counters of unbounded '
              'size go through the checked operations, or the path to them '
              'proves that they fit.')
    n = 0
    for f in ours(prog):
        if f.name in CHECKED or f.name == 'sUint64GetDifference':
            continue
        if not any(x.kind in ('UnaryOperator', 'BinaryOperator',
                              'CompoundAssignOperator') and
                   x.op in ('++', '+', '+=', '*', '*=', '<<', '<<=') and
                   not (x.kind == 'UnaryOperator' and x.op == '*')
                   for x in f.body.walk()):
            continue
        it, recs = run_raw(s, f, Raw)
        chk.count(it, recs)
        sites = {}
        for r in recs:
            for e in r.events():
                if e.kind == 'raw' and e.name != '-':
                    w = judge(prog, e)
                    sites.setdefault(e.node.nid, [e.node, None])
                    if w:
                        sites[e.node.nid][1] = (e, w)
        again = inner = None
        for nid, (node, bad) in sites.items():
            n += 1
            if bad:
                # judged again with its helpers
                if inner is None:
                    inner = sitesof(s, f, RawIn)
                if nid in inner:
                    bad = inner[nid]
            if bad and f.static:
                # judged in the context of all callers
                if again is None:
                    again = incontext(s, f)
                if again is not None and nid in again:
                    bad = again[nid]
            chk.need(not bad, node, lambda: '%s %s %s %s' % (
                show(bad[0].args[0]), bad[0].name, show(bad[0].args[1]),
                bad[1]), f)
    chk.anchor(n > 20, 'arithmetic')


def incontext(s, f):
    """{nid: None or (event, message)} of f inlined into its callers."""
    prog = s.p
    out = {}
    todo, seen, tops = [f], {f.key}, []
    from r_wrap import addr_taken
    if f.key in addr_taken(prog):
        return None
    pol = RawIn(prog)
    while todo:
        g = todo.pop()
        cs = callers(prog, g)
        if g is not f and (not g.static or not cs):
            tops.append(g)
            continue
        if not cs:
            return None
        for h in cs:
            if h.key in pol.recursive:
                return None
            if h.key not in seen:
                seen.add(h.key)
                todo.append(h)
    for g in tops:
        for nid, v in sitesof(s, g, RawIn).items():
            if v or nid not in out:
                out[nid] = v
    return out


def sitesof(s, f, pol):
    out = {}
    it, recs = run_raw(s, f, pol)
    for r in recs:
        for e in r.events():
            if e.kind == 'raw' and e.name != '-':
                w = judge(s.p, e)
                if w or e.node.nid not in out:
                    out[e.node.nid] = (e, w) if w else None
    return out


def allocations(chk, s):
    prog = s.p
    chk.begin('allocation-sizes',
              'The size of every allocation is a constant, the size of '
              'something that exists, or was computed by the checked '
              'operations.')
    n = 0
    for f in ours(prog):
        if not any(x.kind == 'DeclRefExpr' and x.name in SINKS
                   for x in f.body.walk()):
            continue
        it, recs = run_raw(s, f, Raw)
        chk.count(it, recs)
        for r in recs:
            for e in r.events():
                if e.kind == 'call' and e.name in SINKS and \
                        len(e.args) > SINKS[e.name]:
                    n += 1
                    t = e.args[SINKS[e.name]]
                    ok = allocsize(e.facts, t)
                    if not ok:
                        ok = allocagain(s, f, e.node)
                    chk.need(ok, e.node,
                             lambda: 'the size passed to %s() may have '
                             'wrapped around: %s' % (e.name, show(t)), f)
    chk.anchor(n > 15, 'allocations')


def allocagain(s, f, node):
    it, recs = run_raw(s, f, RawIn)
    bad = n = 0
    for r in recs:
        for e in r.events():
            if e.kind == 'call' and e.node is node:
                n += 1
                bad += not allocsize(e.facts, e.args[SINKS[e.name]])
    return n > 0 and not bad


def narrowing(chk, s):
    prog = s.p
    parents(prog)
    chk.begin('narrowing', 'Sizes and counters are never cut down to a '
              'narrower type, except for printing.')
    n = 0
    for f in ours(prog):
        sites = []
        for x in f.body.walk():
            if x.kind in ('ImplicitCastExpr', 'CStyleCastExpr') and \
                    x.cast == 'IntegralCast':
                a = INTSIZE.get(norm(x.ty))
                b = INTSIZE.get(norm(x.kids[0].ty))
                if a and b and b == 8 and a < b and \
                        norm(x.ty) not in ('bool', '_Bool'):
                    sites.append(x)
        for x in sites:
            n += 1
            ok = const(x.kids[0])
            p = prog.parent.get(x.nid)
            while not ok and p is not None:
                if p.kind == 'CallExpr':
                    c = [y.name for y in p.kids[0].walk()
                         if y.kind == 'DeclRefExpr']
                    ok = bool(c) and c[0] in PRINTF | {'srand'}
                    break
                if p.kind == 'BinaryOperator' and p.op in '&%' and \
                        const(p.kids[1]):
                    ok = True
                p = prog.parent.get(p.nid)
            if not ok:
                ok = proven(s, f, x)
            chk.need(ok, x, 'a %s is cut down to %s' % (
                x.kids[0].ty, x.ty), f)
    chk.anchor(n > 20, 'conversions')


def norm(t):
    return (t or '').replace('const ', '').strip()


def const(x):
    return all(y.kind in ('IntegerLiteral', 'ParenExpr', 'ImplicitCastExpr',
                          'CharacterLiteral', 'UnaryExprOrTypeTraitExpr',
                          'BinaryOperator', 'CStyleCastExpr')
               for y in x.walk()) or \
        x.kind == 'BinaryOperator' and x.op in '&%' and const(x.kids[1])


def proven(s, f, x):
    """Every path on which a value is cut down by x shows that it fits."""
    return False


def exact(chk, s):
    chk.begin('exact-overflow',
              'The checked operations return the exact result when it fits '
              'and terminate exactly when it does not.')
    prog = s.p
    for name, op in sorted(CHECKED.items()):
        f = prog.funcs.get(name)
        if f is None:
            raise AnalysisError('%s not found' % name)
        it = Interp(prog, Std(prog, expand=(name,)))
        recs = it.run(f)
        chk.count(it, recs)
        a, b = it.args
        kinds = set()
        for r in recs:
            kinds.add(r.kind)
            v = overflow(r.facts, op, a, b, r)
            if r.kind == 'ret':
                want = add(a, b) if op == '+' else mul(a, b)
                chk.need(same(r, r.val, want), r.node,
                         lambda: '%s() returns %s' % (name, show(r.val)), f)
                chk.need(v is False, r.node, '%s() may return a result '
                         'that wrapped around' % name, f)
            elif r.kind == 'die':
                chk.need(v is True, r.node, '%s() terminates although the '
                         'result may fit' % name, f)
        chk.need('die' in kinds and 'ret' in kinds, f.body,
                 '%s() does not detect overflows' % name, f)
        w = INTSIZE.get(norm(f.ret))
        chk.need(w == 8 and norm(f.ret) not in SIGNED, f.body,
                 '%s() cuts its result down to %s' % (name, f.ret), f)
    f = prog.funcs.get('sUint64GetDifference')
    if f is not None:
        it = Interp(prog, Std(prog, expand=(f.name,)))
        recs = it.run(f)
        chk.count(it, recs)
        a, b = it.args
        for r in recs:
            if r.kind != 'ret':
                continue
            lt = r.facts.decide(mk('lt', a, b))
            gt = r.facts.decide(mk('lt', b, a))
            eq = r.facts.decide(mk('eq', *sorted((a, b),
                                                 key=lambda t: t.id)))
            ok = eq is True and r.val is ZERO or \
                gt is False and r.val is sub(b, a) or \
                lt is False and r.val is sub(a, b)
            chk.need(ok, r.node, 'returns %s, which may not be the '
                     'difference' % show(r.val), f)


def same(r, v, want):
    if v is want:
        return True
    if isint(v) and want.op == 'mul' and v.args[0] == 0 and any(
            r.facts.decide(mk('eq', x, ZERO)) is True for x in want.args):
        return True
    if v is None:
        return False
    l = vloc(v)
    # result which a compiler builtin stored
    return v.op == 'hv' and v.args[2] in (
        '__builtin_add_overflow', '__builtin_mul_overflow') if \
        v.op == 'hv' and len(v.args) > 2 else False


def overflow(facts, op, a, b, r):
    """True/False: a op b is known (not) to exceed 64 bit; None: unknown."""
    for e in r.events():
        if e.kind == 'call' and e.name in ('__builtin_add_overflow',
                                           '__builtin_mul_overflow') and \
                (('add' in e.name) == (op == '+')) and \
                set(e.args[:2]) == {a, b}:
            d = facts.decide(e.res)
            if d is not None:
                return d
    for x, y in ((a, b), (b, a)):
        if op == '+':
            d = facts.decide(mk('lt', sub(MAX, y), x))
            if d is not None:
                return d
            d = facts.decide(mk('lt', add(x, y), x))
            if d is not None and raw_wrap(facts, add(x, y), x):
                return d
        else:
            z = facts.decide(mk('eq', y, ZERO))
            if z is True:
                return False
            if z is False:
                d = facts.decide(mk('lt', mk('/', MAX, y), x))
                if d is not None:
                    return d
                q = mk('/', mul(x, y), y)
                d = facts.decide(mk('eq', *sorted((q, x),
                                                  key=lambda t: t.id)))
                if d is not None:
                    return not d
    return None


def raw_wrap(facts, s, x):
    """A comparison of a sum with one of its operands was really made."""
    return any((p is s and q is x) or (p is x and q is s)
               for p, q in facts.rel)

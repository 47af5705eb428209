"""Rules about the string helpers, the string table, the allocators and the
regular expressions: they do what every other rule takes them for."""
from core import *
from terms import add, sub, mul, subterms
from models import Std, m_pure
from engine import Interp
from r_copy import iterations, split_ptr
import r_wrap

SLASH, DOT = 47, 46


def func(s, name):
    f = s.p.funcs.get(name)
    if f is None:
        raise AnalysisError('%s not found' % name)
    return f


def m_memcmp(it, name, args, st, e):
    """Comparing with a short constant is comparing its characters."""
    for a, b in (args[:2], args[1::-1]):
        c = it.conststring(st, b)
        if c is None or not isint(args[2]) or not 0 < args[2].args[0] <= 4:
            continue
        out = []
        for i in range(args[2].args[0]):
            if st is None:
                break
            ch = it.read(st, it.index_loc(a, num(i)), 'char')
            t = mk('eq', ch, it.strchar(c, num(i)))
            g = st.facts.assume(t, False)
            if g is not None:
                x = st.copy()
                x.facts = g
                out.append((x, num(1)))
            g = st.facts.assume(t, True)
            if g is None:
                st = None
            else:
                st = st.copy()
                st.facts = g
        if st is not None:
            out.append((st, ZERO))
        return out
    return m_pure(it, name, args, st, e)


class P(Std):
    def __init__(self, prog):
        super().__init__(prog)
        self.models['memcmp'] = m_memcmp


def run(chk, s, name):
    f = func(s, name)
    it, recs = r_wrap.interp_root(s, f, P)
    chk.count(it, recs)
    return f, it, recs


# ---------------------------------------------------------------- formulas
# formula: ('and', f...), ('or', f...), ('not', f), [equivalent terms]
def atoms_of(f):
    if isinstance(f, list):
        return [f]
    return [a for x in f[1:] for a in atoms_of(x)]


def known(facts, atom):
    for t in atom:
        d = facts.decide(t) if not isint(t) else t.args[0] != 0
        if d is not None:
            return d
    return None


def ev3(facts, f):
    if isinstance(f, list):
        return known(facts, f)
    vs = [ev3(facts, x) for x in f[1:]]
    if f[0] == 'not':
        return None if vs[0] is None else not vs[0]
    stop = f[0] == 'or'
    if any(v is stop for v in vs):
        return stop
    return None if any(v is None for v in vs) else not stop


def agree(facts, val, form, depth=0):
    """val has the truth value of the formula in every case."""
    v = facts.decide(val) if not isint(val) else val.args[0] != 0
    w = ev3(facts, form)
    if v is not None and w is not None:
        return v == w
    if depth > 8:
        return False
    if v is None:
        split = [[val]]
    else:
        split = [a for a in atoms_of(form) if known(facts, a) is None]
    for b in (True, False):
        g = facts
        for t in split[0]:
            g = g and g.assume(t, b)
        if g is not None and not agree(g, val, form, depth + 1):
            return False
    return True


VIEWS = {'strUnterminated': {'is_terminated': ZERO},
         'str': {'is_terminated': ONE}}


def F(t, *fs):
    for x in fs:
        if t.op == 'struct':
            t = dict(t.args[1]).get(x, ZERO)
        elif t.op == 'pure' and t.args[0] in VIEWS and x == 'content':
            t = t.args[1][0]
        elif t.op == 'pure' and x in VIEWS.get(t.args[0], ()):
            t = VIEWS[t.args[0]][x]
        elif t.op == 'pure' and t.args[0] == 'strUnterminated' and \
                x == 'length':
            t = t.args[1][1]
        else:
            t = mk('fieldof', t, x)
    return t


def lt(a, b):
    return [mk('lt', a, b)]


def eq(a, b):
    return [mk('eq', a, b), mk('eq', b, a)] if not isint(b) else \
        [mk('eq', a, b)]


def predicate(chk, s, name, form):
    f, it, recs = run(chk, s, name)
    n = 0
    for r in recs:
        if r.kind == 'ret':
            n += 1
            chk.need(agree(r.facts, r.val, form(it.args)), r.node or f.body,
                     '%s() returns the wrong answer' % name, f)
    chk.anchor(n, name)


def char_at(it, r, content, idx):
    """Term of the character content[idx] as loaded in the record."""
    out = []
    ks = list(r.facts.iv) + list(r.facts.dom)
    if r.kind == 'ret' and r.val is not None:
        ks += [x for x in subterms(r.val) if x.op in ('init', 'hv')]
    for k in ks:
        l = vloc(k)
        if l is None:
            continue
        b, o = split_loc(l)
        if b is content and sub(o, idx) is ZERO:
            out.append(k)
    return out


def split_loc(l):
    """(base pointer, index) of an element"""
    if l.op != 'at':
        return None, ZERO
    p, o = l.args
    while p.op == 'ptradd':
        o = add(o, p.args[1])
        p = p.args[0]
    return p, o


def is_char(r, content, idx, v, it, want=True):
    for k in char_at(it, r, content, idx):
        if r.facts.decide(mk('eq', k, num(v))) is want:
            return True
    return False


def steps(it, phi, step):
    d = it.phis.get(phi)
    return d is not None and d['back'] and all(
        sub(b, phi) is num(step) for b in d['back'])


def phi_of(t):
    """(phi, constant) with t = phi + constant"""
    for a in subterms(t):
        if a.op == 'phi':
            d = sub(t, a)
            if isint(d):
                return a, d
    return None, None


def backs(it, recs, phi):
    lid = it.phis[phi]['lid']
    return [r for r in recs if r.kind == 'back' and
            lid_of(r.events()[-1]) == lid]


def lit(chk, f, r, v, content, length, what):
    ok = F(v, 'content') is content and (
        length is None or F(v, 'length') is length)
    return chk.need(ok, r.node, '%s() returns %s' % (f.name, what), f)


def strings(chk, s):
    chk.begin('string-helpers',
              'The string helpers do what they are documented for: '
              'equality, parent paths, splitting at slashes, stripping of '
              'slashes, "." and "..", copying and appending with a final '
              'null byte, and a string is marked as terminated only if it '
              'is.')
    # ---- constructors
    f, it, recs = run(chk, s, 'str')
    for r in recs:
        if r.kind == 'ret':
            lit(chk, f, r, r.val, it.args[0],
                mk('pure', 'strlen', (it.args[0],)),
                'another string than the one given')
    f, it, recs = run(chk, s, 'strUnterminated')
    for r in recs:
        if r.kind == 'ret':
            lit(chk, f, r, r.val, it.args[0], it.args[1],
                'another string than the one given')
            chk.need(r.facts.decide(F(r.val, 'is_terminated')) is False or
                     F(r.val, 'is_terminated') is ZERO, r.node,
                     'strUnterminated() marks a string as terminated', f)
    # ---- predicates
    predicate(chk, s, 'strIsEmpty',
              lambda a: eq(F(a[0], 'length'), ZERO))

    def equal(a):
        c, d = F(a[0], 'content'), F(a[1], 'content')
        m = []
        for n in (F(a[0], 'length'), F(a[1], 'length')):
            for x, y in ((c, d), (d, c)):
                m.append(mk('eq', mk('pure', 'memcmp', (x, y, n)), ZERO))
        return ('and', eq(F(a[0], 'length'), F(a[1], 'length')), m)
    predicate(chk, s, 'strIsEqual', equal)

    f, it, recs = run(chk, s, 'strIsDotElement')
    n = 0
    for r in recs:
        if r.kind != 'ret':
            continue
        n += 1
        a = it.args[0]
        c, ln = F(a, 'content'), F(a, 'length')

        def ch(i):
            k = char_at(it, r, c, num(i))
            return [mk('eq', x, num(DOT)) for x in k] or \
                [mk('fresh', 'unread', i)]
        form = ('and', ('or', eq(ln, num(1)), eq(ln, num(2))), ch(0),
                ('or', eq(ln, num(1)), ch(1)))
        chk.need(agree(r.facts, r.val, form), r.node,
                 'strIsDotElement() returns the wrong answer', f)
    chk.anchor(n, 'strIsDotElement')

    f, it, recs = run(chk, s, 'strIsParentPath')
    n = 0
    for r in recs:
        if r.kind != 'ret':
            continue
        n += 1
        a, b = it.args[:2]
        st = mk('pure', 'strStripTrailingSlashes', (b,))
        cs = [F(b, 'content'), F(st, 'content')]
        ch = [mk('eq', x, num(SLASH)) for c in cs
              for x in char_at(it, r, c, F(a, 'length'))] or \
            [mk('fresh', 'unread', 0)]
        cmp_ = []
        for c in cs:
            for x, y in ((c, F(a, 'content')), (F(a, 'content'), c)):
                cmp_.append(mk('eq', mk('pure', 'memcmp', (
                    x, y, F(a, 'length'))), ZERO))
        form = ('and', lt(F(a, 'length'), F(st, 'length')), ch, cmp_)
        chk.need(agree(r.facts, r.val, form), r.node,
                 'strIsParentPath() returns the wrong answer', f)
    chk.anchor(n, 'strIsParentPath')
    whitespace(chk, s)
    dots(chk, s)
    strip(chk, s)
    split(chk, s)
    copies(chk, s)


def whitespace(chk, s):
    f, it, recs = run(chk, s, 'strIsWhitespaceOnly')
    a = it.args[0]
    c, ln = F(a, 'content'), F(a, 'length')
    cur = [p for p, d in it.phis.items() if steps(it, p, 1) and
           all(e is ZERO for e in d['entry'])]
    down = [p for p, d in it.phis.items() if steps(it, p, -1) and
            all(e is ln for e in d['entry'])]
    if chk.need(len(cur + down) == 1, f.body, 'strIsWhitespaceOnly() does '
                'not look at every character', f):
        p = (cur + down)[0]
        i = p if cur else sub(p, num(1))
        for r in recs:
            k = char_at(it, r, c, i)
            ws = [any(r.facts.decide(mk('eq', x, num(v))) is True
                      for x in k) for v in (32, 9)]
            no = [any(r.facts.decide(mk('eq', x, num(v))) is False
                      for x in k) for v in (32, 9)]
            if r.kind == 'back':
                chk.need((any(ws) or within(r, k, (32, 9))) and (
                    not cur or r.facts.decide(mk('lt', p, ln)) is True),
                    r.node or f.body,
                         'strIsWhitespaceOnly() skips other characters', f)
            elif r.kind == 'ret':
                # each step stays below the length
                g = r.facts.assume(mk('lt', ln, p), False)
                if g is None:
                    continue
                done = g.decide(mk('lt', p, ln)) is False if cur else \
                    g.decide(mk('eq', p, ZERO)) is True
                chk.need(agree(g, r.val, [num(1)]) and done or
                         agree(g, r.val, [ZERO]) and all(no), r.node,
                         'strIsWhitespaceOnly() returns the wrong answer', f)


def within(r, ks, vals):
    for k in ks:
        d = r.facts.dom.get(k)
        if d is not None and set(d) <= set(vals):
            return True
        g = r.facts
        for v in vals:
            g = g and g.assume(mk('eq', k, num(v)), False)
        if g is None:
            return True
    return False


def dots(chk, s):
    f, it, recs = run(chk, s, 'strPathContainsDotElements')
    n = 0
    a = it.args[0]
    curs = [a]
    for p, d in it.phis.items():
        sp = mk('pure', 'strSplitPath', (p,))
        if all(e is a for e in d['entry']) and all(
                b is F(sp, 'head') for b in d['back']):
            curs.append(p)
    for r in recs:
        cand = [x for x in curs if any(
            mentions(k, mk('pure', 'strSplitPath', (x,)))
            for k in list(r.facts.dom) + list(r.facts.iv))] or [a]
        x = cand[-1]
        sp = mk('pure', 'strSplitPath', (x,))
        h = F(sp, 'head')
        dot = [mk('pure', 'strIsDotElement', (F(sp, 'tail'),))]
        empty = [mk('eq', F(h, 'length'), ZERO),
                 mk('pure', 'strIsEmpty', (h,))]
        rec = [mk('pure', 'strPathContainsDotElements', (h,))]
        n += 1
        if r.kind == 'ret':
            chk.need(agree(r.facts, r.val, (
                'or', dot, ('and', ('not', empty), rec))), r.node,
                'strPathContainsDotElements() returns the wrong answer', f)
        elif r.kind == 'back':
            chk.need(len(curs) > 1 and known(r.facts, dot) is False, r.node,
                     'strPathContainsDotElements() misses an element', f)
    chk.anchor(n, 'strPathContainsDotElements')


def strip(chk, s):
    f, it, recs = run(chk, s, 'strStripTrailingSlashes')
    a = it.args[0]
    c, ln = F(a, 'content'), F(a, 'length')
    n = 0
    for r in recs:
        if r.kind != 'ret':
            continue
        n += 1
        v = r.val
        L = F(v, 'length')
        lit(chk, f, r, v, c, None, 'another string')
        termination(chk, f, r, v, mk('eq', L, ln), F(a, 'is_terminated'))
        scan(chk, f, it, recs, r, L, c, ln, SLASH, True, ZERO,
             'strips other characters than slashes or not all of them')
    chk.anchor(n, 'strStripTrailingSlashes')


def termination(chk, f, r, v, same, orig):
    t = F(v, 'is_terminated')
    if isint(t) and not t.args[0]:
        chk.need(True, r.node, '', f)
        return
    g = r.facts
    if not isint(t):
        g = g.assume(t, True)
    ok = g is None or (same is None or g.decide(same) is True or
                       isint(same) and same.args[0]) and \
        (t is orig or g.decide(orig) is True)
    chk.need(ok, r.node, '%s() marks a string as terminated which is not'
             % f.name, f)


def scan(chk, f, it, recs, r, end, c, start, char, want, stop, what):
    """`end` results from walking backwards from `start` over characters
    before it which are (not) `char`."""
    p, k = phi_of(end)
    if p is None:
        chk.need(False, r.node, '%s() %s' % (f.name, what), f)
        return None
    d = it.phis[p]
    ok = steps(it, p, -1) and all(
        add(e, k) is start if start is not None else True
        for e in d['entry'])
    prev = sub(end, num(1))
    for b in backs(it, recs, p):
        e = sub(end, num(1))
        ok = ok and is_char(b, c, e, char, it, want) and \
            b.facts.decide(mk('lt', stop, end)) is True
    ok = ok and (r.facts.decide(mk('lt', stop, end)) is False or
                 is_char(r, c, prev, char, it, not want))
    chk.need(ok, r.node, '%s() %s' % (f.name, what), f)
    return p


def split(chk, s):
    f, it, recs = run(chk, s, 'strSplitPath')
    a = it.args[0]
    c, ln = F(a, 'content'), F(a, 'length')
    n = 0
    for r in recs:
        if r.kind != 'ret':
            continue
        n += 1
        h, t = F(r.val, 'head'), F(r.val, 'tail')
        q = sub(ln, F(t, 'length'))
        tc = F(t, 'content')
        b, o = split_ptr(tc)
        chk.need(b is c and r.facts.decide(mk('eq', o, q)) is True or
                 b is c and o is q, r.node, 'strSplitPath() returns a wrong '
                 'tail', f)
        hl = F(h, 'length')
        chk.need(F(h, 'content') is c or isint(hl) and hl.args[0] == 0,
                 r.node, 'strSplitPath() returns a wrong head', f)
        # head: everything before the slash in front of the tail
        pos = r.facts.assume(mk('lt', ZERO, q), True)
        zero = r.facts.assume(mk('eq', q, ZERO), True)
        ok = (pos is None or hl is sub(q, num(1)) or
              pos.decide(mk('eq', add(hl, num(1)), q)) is True) and \
            (zero is None or pos is None and same0(zero, hl) or
             same0(zero, hl))
        chk.need(ok, r.node, 'strSplitPath() returns a wrong head', f)
        ht = F(h, 'is_terminated')
        chk.need(isint(ht) and not ht.args[0] or
                 r.facts.decide(ht) is False, r.node, 'strSplitPath() marks '
                 'the head as terminated', f)
        termination(chk, f, r, t, None, F(a, 'is_terminated'))
        # q is found by two walks
        p, k = phi_of(q)
        if p is None:
            chk.need(False, r.node, 'strSplitPath() splits at a wrong '
                     'place', f)
            continue
        walk(chk, f, it, recs, r, q, c, ln)
    chk.anchor(n, 'strSplitPath')


def same0(facts, t):
    return isint(t) and t.args[0] == 0 or \
        facts.decide(mk('eq', t, ZERO)) is True


def walk(chk, f, it, recs, r, q, c, ln):
    p, k = phi_of(q)
    # no further slash before the one at q - 1
    second = sub(q, num(2))
    ok = r.facts.decide(mk('lt', num(1), q)) is False or \
        is_char(r, c, second, SLASH, it, False)
    if not found(it, recs, p, q, c, ln):
        # q moves over slashes before the one at q - 1, from where the last
        # slash was found
        d = it.phis[p]
        ok = ok and steps(it, p, -1)
        for b in backs(it, recs, p):
            ok = ok and is_char(b, c, second, SLASH, it) and \
                b.facts.decide(mk('lt', num(1), q)) is True
        for e in d['entry']:
            p1, k1 = phi_of(e)
            ok = ok and p1 is not None and p1 is not p and \
                found(it, recs, p1, add(e, k), c, ln)
    chk.need(ok, r.node, 'strSplitPath() splits at a wrong place', f)


def found(it, recs, p, q, c, ln):
    """q is the place after the last slash, or 0."""
    if not steps(it, p, -1) or any(
            add(x, sub(q, p)) is not ln for x in it.phis[p]['entry']):
        return False
    one = sub(q, num(1))
    for b in backs(it, recs, p):
        if not is_char(b, c, one, SLASH, it, False) or \
                b.facts.decide(mk('lt', ZERO, q)) is not True:
            return False
    lid = it.phis[p]['lid']
    for x in recs:
        for e in x.events():
            if e.kind == 'exit' and lid_of(e) == lid:
                g = e.facts
                if g.decide(mk('lt', ZERO, q)) is not False and not any(
                        g.decide(mk('eq', ch, num(SLASH))) is True
                        for ch in chars(g, c, one)):
                    return False
    return True


def chars(facts, c, idx):
    out = []
    for k in list(facts.iv) + list(facts.dom):
        l = vloc(k)
        if l is not None:
            b, o = split_loc(l)
            if b is c and sub(o, idx) is ZERO:
                out.append(k)
    return out


# --------------------------------------------------------------- copying
def pieces(r, res):
    """{offset term: what was written there} of a fresh buffer"""
    out = []
    for e in r.events():
        if e.kind == 'call' and e.name in ('memcpy', 'memmove'):
            b, o = split_ptr(e.args[0])
            if b is res:
                out.append((o, 'copy', e.args[1], e.args[2]))
        elif e.kind == 'store':
            b, o = split_loc(e.args[0])
            if b is res:
                out.append((o, 'byte', e.args[1], num(1)))
    return out


def built(chk, f, r, res, parts, what):
    """The buffer consists of exactly these parts."""
    evs = [e for e in r.events() if e.kind == 'call' and e.res is res]
    size = evs[0].args[1] if evs else None
    got = pieces(r, res)
    o = ZERO
    ok = True
    for kind, v, n in parts:
        hit = [g for g in got if sub(g[0], o) is ZERO and g[1] == kind and
               (g[2] is v or kind == 'byte' and isint(v) and
                isint(g[2]) and g[2].args[0] == v.args[0]) and g[3] is n]
        ok = ok and len(hit) == 1
        o = add(o, n)
    ok = ok and len(got) == len(parts)
    room = size is not None and sub(size, o)
    ok = ok and size is not None and isint(room) and room.args[0] >= 0
    chk.need(ok, r.node, '%s() %s' % (f.name, what), f)


def copies(chk, s):
    f, it, recs = run(chk, s, 'strCopyRaw')
    n = 0
    for r in recs:
        if r.kind == 'ret':
            n += 1
            a = it.args[0]
            built(chk, f, r, r.val,
                  [('copy', F(a, 'content'), F(a, 'length')),
                   ('byte', ZERO, num(1))], 'does not copy the string')
    chk.anchor(n, 'strCopyRaw')
    f, it, recs = run(chk, s, 'strCopy')
    for r in recs:
        if r.kind == 'ret':
            a = it.args[0]
            c = F(r.val, 'content')
            chk.need(c.op == 'pure' and c.args[0] == 'strCopyRaw' and
                     c.args[1][0] is a and F(r.val, 'length') is
                     F(a, 'length'), r.node, 'strCopy() does not return a '
                     'copy', f)
    f, it, recs = run(chk, s, 'strGetContent')
    for r in recs:
        if r.kind == 'ret':
            a = it.args[0]
            g = r.facts
            c = r.val
            own = c is F(a, 'content') and \
                g.decide(F(a, 'is_terminated')) is True
            cp = c.op == 'pure' and c.args[0] == 'strCopyRaw' and \
                c.args[1][0] is a
            chk.need(own or cp, r.node, 'strGetContent() returns something '
                     'that is not terminated or another string', f)
    f, it, recs = run(chk, s, 'strAppendPath')
    for r in recs:
        if r.kind == 'ret':
            a, b = it.args[:2]
            c = F(r.val, 'content')
            n1, n2 = F(a, 'length'), F(b, 'length')
            built(chk, f, r, c, [
                ('copy', F(a, 'content'), n1),
                ('byte', num(SLASH), num(1)),
                ('copy', F(b, 'content'), n2),
                ('byte', ZERO, num(1))], 'does not build the path')
            chk.need(F(r.val, 'length') is add(add(n1, n2), num(1)), r.node,
                     'strAppendPath() returns a wrong length', f)


# ------------------------------------------------------------ string table
def table(chk, s):
    chk.begin('string-table', 'A string table returns exactly what was '
              'mapped to an equal string: mapping and looking up use the '
              'same bucket, growing moves every bucket to its new place, '
              'and a lookup compares the whole key with every entry of the '
              'bucket.')
    hashes = []
    f, it, recs = run(chk, s, 'strTableNew')
    for r in recs:
        if r.kind != 'ret':
            continue
        T = ptr_loc(r.val)

        def fin(x):
            return it.read(r.st, mk('fld', T, x))
        cap = fin('capacity')
        arr = fin('buckets')
        chk.need(isint(cap) and cap.args[0] > 0 and
                 zeroed(r, arr, mul(cap, num(8)), it, recs) and
                 fin('associations') is ZERO, r.node,
                 'strTableNew() does not return an empty table', f)
    f, it, recs = run(chk, s, 'strTableGet')
    t, key = it.args[:2]
    n = 0
    for r in recs:
        hs = [e for e in r.events() if e.kind == 'call' and
              e.name == 'siphash']
        cur = [p for p in it.phis if any(
            x.op == 'fld' and x.args[1] == 'next' and
            loc_ptr(x.args[0]) is p
            for b in it.phis[p]['back'] for x in [vloc(b) or b])]
        if not chk.need(len(cur) == 1 and len(hs) == 1, r.node or f.body,
                        'strTableGet() does not walk one bucket', f):
            continue
        p = cur[0]
        d = it.phis[p]
        slot = mk('at', initf(t, 'buckets'),
                  mk('%', hs[0].res, initf(t, 'capacity')))
        chk.need(all(vloc(e) is slot for e in d['entry']) and all(
            vloc(b) is mk('fld', ptr_loc(p), 'next') for b in d['back']),
            r.node or f.body, 'strTableGet() looks into a wrong bucket', f)
        chk.need(hash_args(hs[0], key, t), hs[0].node,
                 'strTableGet() does not hash the whole key', f)
        k = initf(p, 'key')
        same = [mk('pure', 'strIsEqual', x) for x in ((key, k), (k, key))]
        n += 1
        if r.kind == 'back':
            chk.need(known(r.facts, same) is False or hash_differs(
                r, p, hs[0].res), r.node or f.body,
                'strTableGet() passes over an equal key', f)
        elif r.kind == 'ret':
            none = r.facts.decide(mk('eq', p, ZERO)) is True and \
                same0(r.facts, r.val)
            hit = known(r.facts, same) is True and \
                r.val is initf(p, 'data')
            chk.need(none or hit, r.node, 'strTableGet() returns the value '
                     'of another key', f)
    chk.anchor(n, 'strTableGet')
    f, it, recs = run(chk, s, 'strTableMap')
    t, key, data = it.args[:3]
    n = 0
    for r in recs:
        if r.kind == 'back':
            moved(chk, f, it, r, t)
        if r.kind != 'ret':
            continue
        n += 1
        evs = r.events()
        T = ptr_loc(t)
        cap = it.read(r.st, mk('fld', T, 'capacity'))
        arr = it.read(r.st, mk('fld', T, 'buckets'))
        hs = [e for e in evs if e.kind == 'call' and e.name == 'siphash']
        nb = [e for e in evs if e.kind == 'call' and
              e.name == 'CR_RegionAlloc' and len(e.args) > 1]
        ok = len(hs) == 1 and hash_args(hs[0], key, t) and len(nb) == 1
        if chk.need(ok, f.body, 'strTableMap() does not add one bucket for '
                    'the hash of the key', f):
            B = nb[0].res
            bl = ptr_loc(B)
            slot = mk('at', arr, mk('%', hs[0].res, cap))

            def put(x):
                return it.read(r.st, mk('fld', bl, x))
            head = [e for e in evs if e.kind == 'store' and
                    e.args[1] is B]
            old = put('next')
            chk.need(put('hash') is hs[0].res and put('key') is key and
                     put('data') is data and head and
                     head[-1].args[0] is slot and (
                         vloc(old) is slot or
                         old.op in ('hv', 'init') and mentions(old, slot)),
                     f.body, 'strTableMap() does not add the key to its '
                     'bucket, or loses others', f)
        if arr is not initf(t, 'buckets') or cap is not initf(t, 'capacity'):
            ncap = [e for e in evs if e.kind == 'call' and
                    e.res is arr]
            pos = r.facts.decide(mk('lt', ZERO, cap)) is True or \
                cap is mul(initf(t, 'capacity'), num(2))
            chk.need(ncap and zeroed(r, arr, mul(cap, num(8)), it, recs) and pos and
                     allmoved(it, recs, r, t), f.body, 'strTableMap() does '
                     'not move every bucket into the grown table', f)
    chk.anchor(n, 'strTableMap')


def hash_args(e, key, t):
    sec = e.args[2]
    return e.args[0] is F(key, 'content') and \
        e.args[1] is F(key, 'length') and mentions(sec, t) and \
        'secret' in show(sec)


def hash_differs(r, p, h):
    return r.facts.decide(mk('eq', initf(p, 'hash'), h)) is False or \
        r.facts.decide(mk('eq', h, initf(p, 'hash'))) is False


def zeroed(r, arr, size, it=None, recs=()):
    if it is not None and zeroloop(r, arr, size, it, recs):
        return True
    for e in r.events():
        if e.kind != 'call':
            continue
        if e.name == 'memset' and e.args[0] is arr and \
                e.args[1] is ZERO and e.args[2] is size:
            return any(x.kind == 'call' and x.res is arr and
                       x.name == 'sMalloc' and x.args[0] is size
                       for x in r.events())
        if e.name == 'calloc' and e.res is arr and \
                mul(e.args[0], e.args[1]) is size:
            return True
    return False


def zeroloop(r, arr, size, it, recs):
    """Every pointer of the array is set to NULL one after another."""
    if not any(x.kind == 'call' and x.res is arr and x.name == 'sMalloc' and
               x.args[0] is size for x in r.events()):
        return False
    for x in r.events():
        if x.kind != 'exit':
            continue
        lid = lid_of(x)
        for p, d in it.phis.items():
            if d.get('lid') != lid or not all(
                    isint(e) and e.args[0] == 0 for e in d['entry']) or \
                    not steps(it, p, 1):
                continue
            bs = [b for b in recs if b.kind == 'back' and
                  b.events() and lid_of(b.events()[-1]) == lid]
            if bs and all(any(
                    e.kind == 'store' and e.args[0] is mk('at', arr, p) and
                    same0(b.facts, e.args[1]) for e in b.events())
                    for b in bs) and any(
                    mul(n, num(8)) is size and
                    x.facts.decide(mk('lt', p, n)) is False
                    for n in bounds(x.facts, p)):
                return True
    return False


def bounds(facts, p):
    return [a if b is p else b for a, b in facts.rel if p in (a, b)]


def cursors(it):
    return [p for p, d in it.phis.items() if d['back'] and all(
        vloc(b) is mk('fld', ptr_loc(p), 'next') for b in d['back'])]


def moved(chk, f, it, r, t):
    """An iteration of the loop over one old bucket."""
    evs = r.events()
    lid = lid_of(evs[-1])
    ps = [p for p in cursors(it) if it.phis[p].get('lid') == lid]
    st = [e for e in evs if e.kind == 'store']
    mv = [e for e in st if any(e.args[1] is p for p in ps)]
    if not ps:
        return
    p = ps[0]
    dest = [e.args[0] for e in mv]
    if not chk.need(len(dest) == 1 and dest[0].op == 'at', r.node or f.body,
                    'a bucket is not moved when the table grows', f):
        return
    idx = dest[0].args[1]
    nx = [e for e in st if e.args[0] is mk('fld', ptr_loc(p), 'next')]
    chk.need(idx.op == '%' and idx.args[0] is initf(p, 'hash') and
             len(nx) == 1 and (vloc(nx[0].args[1]) is dest[0] or
                               mentions(nx[0].args[1], dest[0])) and
             evs.index(nx[0]) < evs.index(mv[0]),
             mv[0].node, 'a bucket is moved to a wrong place or others are '
             'lost when the table grows', f)
    d = it.phis[p]
    chk.need(all(vloc(b) is mk('fld', ptr_loc(p), 'next')
                 for b in d['back']), mv[0].node,
             'buckets are lost when the table grows', f)


def allmoved(it, recs, r, t):
    """The moving loop runs over all old buckets and uses the capacity which
    is kept."""
    cap = it.read(r.st, mk('fld', ptr_loc(t), 'capacity'))
    arr = it.read(r.st, mk('fld', ptr_loc(t), 'buckets'))
    for p, d in it.phis.items():
        if p not in cursors(it):
            continue
        outer = None
        for e in d['entry']:
            l = vloc(e)
            if l is None or l.op != 'at' or \
                    l.args[0] is not initf(t, 'buckets'):
                return False
            outer = l.args[1]
        if outer is None or outer not in it.phis:
            return False
        o = it.phis[outer]
        if not all(x is ZERO for x in o['entry']) or not steps(
                it, outer, 1):
            return False
        # leaves only after the last one
        for x in recs:
            for e in x.events():
                if e.kind == 'exit' and lid_of(e) == o['lid'] and \
                        e.facts.decide(mk('lt', outer, initf(
                            t, 'capacity'))) is not False:
                    return False
                if e.kind == 'exit' and lid_of(e) == d['lid'] and \
                        e.facts.decide(mk('eq', p, ZERO)) is not True:
                    return False
                if e.kind == 'store' and e.args[1] is p and \
                        e.args[0].op == 'at':
                    if e.args[0].args[0] is not arr or \
                            e.args[0].args[1].args[1] is not cap:
                        return False
        return True
    return False


# ------------------------------------------------------------- expressions
REG_EXTENDED, REG_ICASE, REG_NOSUB, REG_NEWLINE = 1, 2, 8, 4


def regex(chk, s):
    chk.begin('regular-expressions', 'Expressions are compiled as POSIX '
              'extended ones from the whole text, a broken one terminates '
              'the program, and a string matches if regexec() says so for '
              'the whole string.')
    f, it, recs = run(chk, s, 'sRegexCompile')
    n = 0
    for r in recs:
        if r.kind != 'ret':
            continue
        n += 1
        es = [e for e in r.events() if e.kind == 'call' and
              e.name == 'regcomp']
        ok = len(es) == 1
        if ok:
            e = es[0]
            fl = e.args[2]
            ok = isint(fl) and fl.args[0] & ~REG_NOSUB == REG_EXTENDED and \
                e.args[0] is r.val and e.args[1].op == 'pure' and \
                e.args[1].args[0] in ('cstr', 'strCopyRaw') and \
                e.args[1].args[1][0] is it.args[1] and \
                r.facts.decide(mk('eq', e.res, ZERO)) is True
        chk.need(ok, r.node, 'sRegexCompile() does not return the compiled '
                 'expression', f)
    chk.anchor(n, 'sRegexCompile')
    f, it, recs = run(chk, s, 'sRegexIsMatching')
    n = 0
    for r in recs:
        if r.kind != 'ret':
            continue
        n += 1
        es = [e for e in r.events() if e.kind == 'call' and
              e.name == 'regexec']
        ok = len(es) == 1
        if ok:
            e = es[0]
            ok = e.args[0] is it.args[0] and e.args[1].op == 'pure' and \
                e.args[1].args[0] in ('cstr', 'strCopyRaw') and \
                e.args[1].args[1][0] is it.args[1] and \
                isint(e.args[4]) and e.args[4].args[0] == 0 and \
                agree(r.facts, r.val, [mk('eq', e.res, ZERO)])
        chk.need(ok, r.node, 'sRegexIsMatching() returns the wrong answer',
                 f)
    chk.anchor(n, 'sRegexIsMatching')

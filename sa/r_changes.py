"""Rules about applyNodeChanges(): detecting and recording differences."""
from core import *
import r_copy
from r_copy import (clo, transfers, check_loops, streams, complete, same,
                    split_ptr, is_path, capacity, linle, HASH)


def splits(facts, conds):
    """All consistent truth values of the conditions: (facts, tuple)."""
    out = [(facts, ())]
    for c in conds:
        n = []
        for f, v in out:
            for pol in (True, False):
                g = f.assume(c, pol)
                if g is not None:
                    n.append((g, v + (pol,)))
        out = n
    return out


def final(r, it, loc):
    return it.read_plain(r.st, loc)


class A:
    """Names of everything applyNodeChanges() is about."""

    def __init__(self, s, f, it):
        def arg(ty):
            for a, (n, t, d) in zip(it.args, f.params):
                if t.replace('const ', '').strip() == ty:
                    return a
            raise AnalysisError('applyNodeChanges has no %s' % ty)
        self.node = arg('PathNode*')
        self.state = arg('PathState*')
        self.stats = arg('struct stat')
        S = ptr_loc(self.state)
        self.S = S
        self.hloc = mk('fld', ptr_loc(self.node), 'hint')
        self.h = mk('init', self.hloc)
        self.t = mk('init', mk('fld', S, 'type'))
        m = mk('fld', S, 'metadata')
        self.fi = mk('fld', m, 'file_info')
        self.di = mk('fld', m, 'directory_info')
        self.target = mk('fld', m, 'symlink_target')

    def st(self, f):
        return mk('fieldof', self.stats, f)


def changes(chk, s):
    chk.begin('attribute-changes',
              'For every record type: owner, permission, timestamp and '
              'content hints are set exactly if the corresponding property '
              'differs, the recorded state is updated to the found values, '
              'and contents are compared (whole, against the recorded hash '
              'or bytes) exactly if the size is the same, not zero and the '
              'timestamp differs. A fresh hash is claimed only if the '
              'recorded hash was replaced.')
    e = s.p.enums
    for f, it, recs in clo(s, 'applyNodeChanges'):
        chk.count(it, recs)
        a = A(s, f, it)
        n = 0
        for r in recs:
            if is_ret(r):
                n += 1
                one(chk, s, f, it, r, a, e)
        chk.anchor(n, 'paths through applyNodeChanges()')


POLBITS = ('BH_policy_changed', 'BH_loses_history')


def hint0s(s, a, facts):
    """Hints that a node may have before: nothing but policy bits."""
    e = s.p.enums
    pol = 0
    for b in POLBITS:
        pol |= e[b]
    return [v for v in sorted(facts.domain(a.h)) if v & ~pol == 0]


def ne(a, b):
    return mk('not', mk('eq', a, b))


def one(chk, s, f, it, r, a, e):
    S = a.S

    def init(loc):
        return mk('init', loc)
    uid, gid = mk('fld', S, 'uid'), mk('fld', S, 'gid')
    evs = r.events()
    calls = [x for x in evs if x.kind == 'call']
    reg, lnk, dr = (e['PST_regular_file'], e['PST_symlink'],
                    e['PST_directory'])
    node = f.body
    for h, ty in [(h, ty) for h in hint0s(s, a, r.facts)
                  for ty in sorted(r.facts.domain(a.t))]:
        g0 = restricted(r.facts, {a.h: h, a.t: ty})
        if g0 is None or ty not in (reg, lnk, dr):
            continue
        own = [eqt(init(uid), a.st('st_uid')), eqt(init(gid),
                                                   a.st('st_gid'))]
        info = a.fi if ty == reg else a.di
        perm, mt = mk('fld', info, 'permission_bits'), \
            mk('fld', info, 'modification_time')
        size = mk('fld', a.fi, 'size')
        conds = list(own)
        if ty != lnk:
            conds += [eqt(init(perm), a.st('st_mode')),
                      eqt(init(mt), a.st('st_mtime'))]
        cmps = []
        if ty == reg:
            conds += [eqt(init(size), a.st('st_size')),
                      eqt(init(size), ZERO)]
        for g, v in splits(g0, conds):
            bits = 0
            if not (v[0] and v[1]):
                bits |= e['BH_owner_changed']
            check_final(chk, f, it, r, g, uid, a.st('st_uid'), 'owner')
            check_final(chk, f, it, r, g, gid, a.st('st_gid'), 'group')
            fresh = False
            if ty != lnk:
                if not v[2]:
                    bits |= e['BH_permissions_changed']
                if not v[3]:
                    bits |= e['BH_timestamp_changed']
                check_final(chk, f, it, r, g, perm, a.st('st_mode'),
                            'permission bits')
                check_final(chk, f, it, r, g, mt, a.st('st_mtime'),
                            'modification time')
            if ty == reg:
                check_final(chk, f, it, r, g, size, a.st('st_size'), 'size')
                if not v[4]:
                    bits |= e['BH_content_changed']
                    unchanged_hash(chk, f, it, r, a)
                elif not v[3] and not v[5]:
                    d = compared(chk, f, it, r, g, a, calls,
                                 init(size))
                    if d is None:
                        continue
                    if d:
                        bits |= e['BH_content_changed'] | \
                            e['BH_fresh_hash']
                else:
                    unchanged_hash(chk, f, it, r, a)
            if ty == lnk:
                d = target(chk, f, it, r, g, a, calls)
                if d is None:
                    continue
                if d:
                    bits |= e['BH_content_changed']
            x = evalfin(final(r, it, a.hloc), a.h, h, g)
            chk.need(x == h | bits, last(r, 'hint', evs, node),
                     lambda: 'hint becomes %s where %s was '
                     'expected' % (h2s(s.p, x) if x is not None else
                                   show(final(r, it, a.hloc)),
                                   h2s(s.p, h | bits)), f)


def last(r, field, evs, dflt):
    for e in reversed(evs):
        if e.kind == 'store' and e.args[0].op == 'fld' and \
                e.args[0].args[1] == field:
            return e.node
    return dflt


def evalfin(t, h, v, facts):
    ls, ok = finleaves(t)
    env = {h: v}
    for l in ls:
        if l is not h:
            d = facts.domain(l)
            if len(d) != 1:
                return None
            env[l] = next(iter(d))
    return evalterm(t, env)


def eqt(a, b):
    if a.id > b.id and not isint(b):
        a, b = b, a
    return mk('eq', a, b)


def check_final(chk, f, it, r, g, loc, want, what):
    v = final(r, it, loc)
    chk.need(v is want or g.decide(eqt(v, want)) is True, r.node or f.body,
             'recorded %s is not updated to the found one' % what, f)


def unchanged_hash(chk, f, it, r, a):
    hl = mk('fld', a.fi, 'hash')
    v = final(r, it, hl)
    chk.need(v is mk('init', hl), r.node or f.body, 'replaces the recorded '
             'hash without reading the file', f)


def compared(chk, f, it, r, g, a, calls, size):
    """Content was compared: True if different, False if equal."""
    hl = mk('fld', a.fi, 'hash')
    hp = mk('decay', hl)
    ms = [e for e in calls if e.name == 'memcmp' and
          any(split_ptr(x)[0] in (hp, mk('addr', hl)) for x in e.args[:2])]
    if not ms:
        chk.need(False, r.node or f.body, 'content of a file with a new '
                 'timestamp is not compared', f)
        return None
    m = ms[-1]
    other = m.args[1] if split_ptr(m.args[0])[0] in (hp, mk('addr', hl)) \
        else m.args[0]
    n = m.args[2]
    off = [split_ptr(x)[1] for x in m.args[:2]]
    chk.need(off == [ZERO, ZERO], m.node, 'compares only a part', f)
    big = g.decide(mk('lt', num(HASH), size))
    if big is None:
        outs = [g.assume(mk('lt', num(HASH), size), p)
                for p in (True, False)]
        rs = [compared_class(chk, f, it, r, x, a, calls, size, m, other, n,
                             p, hl)
              for x, p in zip(outs, (True, False)) if x is not None]
        return rs[0] if len(set(rs)) == 1 else None
    return compared_class(chk, f, it, r, g, a, calls, size, m, other, n,
                          big, hl)


def compared_class(chk, f, it, r, g, a, calls, size, m, other, n, big, hl):
    if big:
        src = [e for e in calls if e.name == 'fileHash' and
               split_ptr(e.args[2])[0] is split_ptr(other)[0]]
        chk.need(len(src) == 1 and is_path(src[0].args[0], a.node) and
                 src[0].args[1] is a.stats, m.node, 'compared hash does not '
                 'come from the file', f)
        chk.need(isint(n) and n.args[0] == HASH or
                 g.decide(eqt(n, num(HASH))) is True, m.node,
                 'hashes are not compared completely', f)
    else:
        src = [e for e in calls if e.name == 'sFread' and
               split_ptr(e.args[0])[0] is split_ptr(other)[0]]
        op = [e for e in calls if e.name == 'sFopenRead' and
              any(x.args[2] is e.res for x in src)]
        chk.need(len(src) == 1 and len(op) == 1 and
                 is_path(op[0].args[0], a.node) and
                 (src[0].args[1] is size or
                  g.decide(eqt(src[0].args[1], size)) is True), m.node,
                 'compared bytes are not those of the file', f)
        chk.need(n is size or g.decide(eqt(n, size)) is True, m.node,
                 'contents are not compared completely', f)
    d = g.decide(mk('eq', m.res, ZERO))
    if d is None:
        chk.need(False, m.node, 'result of comparing contents is ignored', f)
        return None
    v = final(r, it, hl)
    if d:
        chk.need(v is mk('init', hl) or copied_from(v, other, n), m.node,
                 'unchanged hash is replaced', f)
    else:
        chk.need(copied_from(v, other, n) and
                 any(e.name in ('memcpy', 'memmove') and
                     split_ptr(e.args[0])[0] in (mk('decay', hl),
                                                 mk('addr', hl)) and
                     split_ptr(e.args[1])[0] is split_ptr(other)[0] and
                     (e.args[2] is n or g.decide(eqt(e.args[2], n)) is True
                      or isint(e.args[2]) and e.args[2].args[0] == HASH)
                     for e in calls) or v.op != 'init' and
                 assigned_bytes(v, other), m.node,
                 'changed content is not recorded', f)
    return not d


def copied_from(v, p, n):
    return v.op == 'copied'


def assigned_bytes(v, p):
    return False


def target(chk, f, it, r, g, a, calls):
    rd = [e for e in calls if e.name == 'sSymlinkReadTarget' and
          is_path(e.args[0], a.node)]
    chk.need(len(rd) >= 1, r.node or f.body, 'target of a symlink is not '
             'read', f)
    if not rd:
        return None
    T = rd[-1].res
    rec = mk('init', a.target)
    x, y = rec, T
    if x.id > y.id:
        x, y = y, x
    q = mk('pure', 'strIsEqual', (x, y))
    d = g.decide(q)
    if d is None:
        # the compared terms may be looked at field by field
        chk.need(False, rd[-1].node, 'target of a symlink is not compared',
                 f)
        return None
    v = final(r, it, a.target)
    from models import strval
    if d:
        chk.need(v is rec or strval(v) is T, rd[-1].node,
                 'target is replaced by something else', f)
    else:
        chk.need(strval(v) is T and v is not T, rd[-1].node,
                 'changed target is not recorded (or not copied)', f)
    return not d


def streams_ok(chk, s):
    chk.begin('compare-whole-file',
              'Whenever applyNodeChanges() reads a file itself, it reads '
              'exactly the recorded size and terminates the program if '
              'there is more; the target of a symlink must have the '
              'reported length.')
    for f, it, recs in clo(s, 'applyNodeChanges'):
        chk.count(it, recs)
        a = A(s, f, it)
        size = mk('init', mk('fld', a.fi, 'size'))
        sizes = [size, a.st('st_size')]
        ts = transfers(recs)
        check_loops(chk, it, f, ts, lambda r, h: sizes, 'comparing')
        n = 0
        for r in recs:
            if not is_ret(r):
                continue
            for st in streams(r, ts).values():
                n += 1
                chk.need(is_path(st.ev.args[0], a.node), st.ev.node,
                         'reads another file', f)
                complete(chk, f, r, st, sizes, 'comparing')
                for e in st.reads:
                    b, off = split_ptr(e.args[0])
                    cap = capacity(it, r, b, None)
                    if cap is not None:
                        chk.need(linle(e.facts, add_(e.args[1], off), cap),
                                 e.node, 'reads more than the buffer can '
                                 'hold', f)
            for e in r.events():
                if e.kind == 'call' and e.name == 'sSymlinkReadTarget':
                    n += 1
                    link_len(chk, f, r, e, [a.st('st_size')])
        chk.anchor(n, 'contents that are read')


def add_(a, b):
    from terms import add
    return add(a, b)


def link_len(chk, f, r, e, sizes):
    ln = mk('fieldof', e.res, 'length')
    chk.need(any(r.facts.decide(eqt(ln, z)) is True for z in sizes), e.node,
             'continues although the length of a symlink target differs '
             'from the reported one', f)

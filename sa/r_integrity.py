"""Rules about integrity.c"""
from core import *
from engine import Ev
from models import strval
import r_copy
from r_copy import iterations, split_ptr, HASH
from r_changes import eqt


def roots(s):
    return s.closure('checkIntegrity', policy=r_copy.P, key='memcmp')


class Root(r_copy.P):
    """Keeps a snapshot of the memory at every call of a recursive
    function."""
    rec = ()

    def __init__(self, prog):
        super().__init__(prog)
        for f in self.rec:
            self.opaque_names |= {f.name}
            self.models[f.name] = self.snap(f)

    def inline(self, f):
        return f.key not in {x.key for x in self.rec} and super().inline(f)

    def snap(self, f):
        def m(it, name, args, st, e):
            snap = tuple(st.store.items())
            st = st.copy()
            res = it.result(name, e, st)
            it.event(st, Ev('call', name, tuple(args), res, e, it.ctx(),
                            st.facts, ('snap', f.key, snap)))
            it.havoc_args(name, args, st, res, f)
            return [(st, res)]
        return m


def health(r, info, owned):
    """Outcome of the checks of one stored file on record r: True, False
    or None; owned(path term) tells whether it is the stored file."""
    ev = [e for e in r.events() if e.kind == 'call']
    g = r.facts
    size = mk('init', mk('fld', ptr_loc(info), 'size'))
    hl = mk('decay', mk('fld', ptr_loc(info), 'hash'))
    ex = [e for e in ev if e.name == 'sPathExists' and owned(e.args[0])]
    if ex and g.decide(ex[-1].res) is False:
        return False
    st = [e for e in ev if e.name == 'sLStat' and owned(e.args[0])]
    if not st:
        return None
    st = st[-1]
    mode = mk('&', mk('fieldof', st.res, 'st_mode'), num(0o170000))
    isreg = g.decide(mk('eq', mode, num(0o100000)))
    if isreg is False:
        return False
    sz = g.decide(eqt(mk('fieldof', st.res, 'st_size'), size))
    if sz is False:
        return False
    fh = [e for e in ev if e.name == 'fileHash' and owned(e.args[0]) and
          e.args[1] is st.res]
    if not fh:
        return None
    buf = split_ptr(fh[-1].args[2])
    for e in ev:
        if e.name == 'memcmp' and {split_ptr(x) for x in e.args[:2]} == \
                {buf, (hl, ZERO)} and isint(e.args[2]) and \
                e.args[2].args[0] == HASH:
            d = g.decide(mk('eq', e.res, ZERO))
            if d is False:
                return False
            if d and isreg and sz and ex:
                return True
            if d is None:
                return (e.res, isreg and sz and bool(ex))
    return None


def traversal(chk, s):
    chk.begin('integrity-traversal',
              'Every history entry of every path is examined: regular '
              'files larger than a hash are either checked or looked up by '
              'their complete stored name among the results of this pass; '
              'a path is reported if, and only if, one of its entries is '
              'not healthy; all paths below are examined as well.')
    clo = roots(s)
    if len(clo) < 2:
        raise AnalysisError('checkIntegrity() does not descend')
    e = s.p.enums
    for f, it, recs in clo[1:]:
        chk.count(it, recs)
        ps = [a for a, (n, t, d) in zip(it.args, f.params)
              if t.replace('const ', '').strip() == 'PathNode*']
        ll = list_loops(it, recs)
        cand = [(x.phi, lid, x.entry) for lid, l in ll.items() for x in l]
        nodes = [(p, lid) for p, lid, en in cand
                 if any(x in ps for x in en)]
        if nodes:
            X, xl = nodes[0]
        elif ps:
            X, xl = ps[0], None
        else:
            raise AnalysisError('no node in %s' % f.name)
        pts = [(p, lid) for p, lid, en in cand
               if any(fieldof(x, 'history') is X for x in en)]
        chk.need(len(pts) >= 1, f.body, 'history of a path is not '
                 'examined', f)
        if not pts:
            continue
        Q, ql = pts[0]
        for p, lid, en in cand:
            if lid == ql and p is Q:
                chk.need(all(fieldof(x, 'history') is X for x in en),
                         it.loops[ql], 'examines only a part of the '
                         'history', f)
        toks = tokens(chk, f, it, recs, Q)
        n = 0
        for r in recs:
            if r.kind == 'die':
                continue
            n += entry(chk, s, f, it, r, X, xl, Q, ql, toks, e, ps)
        chk.anchor(n, 'examined history entries')


def info_of(Q):
    l = ptr_loc(Q)
    for x in ('state', 'metadata', 'file_info'):
        l = mk('fld', l, x)
    return mk('addr', l), l


def indirect(e):
    return e.kind == 'call' and e.name == '*'


def outcome(r, Q, f, it):
    """What was found out about entry Q: True, False, None, or
    ('cached', res)."""
    info, il = info_of(Q)
    evs = r.events()
    res = None
    for e in evs:
        if indirect(e) and info in e.args:
            d = r.facts.decide(e.res)
            res = d
        elif e.kind == 'call' and e.name == 'strTableGet':
            d = r.facts.decide(mk('eq', e.res, ZERO))
            if d is False:
                res = ('cached', e.res)
    if res is None:
        h = health(r, info, lambda t: strval(t).op == 'pure' and
                   strval(t).args[0] == 'strAppendPath')
        if h is not None and not isinstance(h, tuple):
            res = h
    return res


def tokens(chk, f, it, recs, Q):
    """(cached value for healthy, for broken)"""
    good, bad = set(), set()
    for r in recs:
        for e in r.events():
            if e.kind == 'call' and e.name == 'strTableMap':
                o = outcome(r, Q, f, it)
                if isinstance(o, tuple):
                    o = None
                if o is True:
                    good.add(e.args[2])
                elif o is False:
                    bad.add(e.args[2])
                else:
                    chk.need(False, e.node, 'remembers a result that was '
                             'not determined', f)
                check_map(chk, f, r, e)
    for g in good:
        for b in bad:
            chk.need(mk('eq', g, b) is not None and g is not b and
                     different(g, b), f.body, 'remembered results cannot '
                     'be told apart', f)
    return good, bad


def different(a, b):
    if isint(a) and isint(b):
        return a.args[0] != b.args[0]
    return a is not b


def check_map(chk, f, r, e):
    gets = [x for x in r.events() if x.kind == 'call' and
            x.name == 'strTableGet']
    chk.need(bool(gets), e.node, 'remembers a result without looking for '
             'it', f)
    for x in gets[-1:]:
        chk.need(x.args[0] is e.args[0], e.node, 'results are remembered '
                 'somewhere else than where they are looked for', f)
        k = e.args[1]
        chk.need(strval(k) is strval(x.args[1]), e.node,
                 'results are remembered under another name', f)
        chk.need(k.op == 'pure' and k.args[0] in ('strCopy', 'strCopyRaw'),
                 e.node, 'the name of a remembered result is overwritten '
                 'later', f)


def entry(chk, s, f, it, r, X, xl, Q, ql, toks, enums, ps):
    evs = r.events()
    g = r.facts
    info, il = info_of(Q)
    tl = mk('init', mk('fld', mk('fld', ptr_loc(Q), 'state'), 'type'))
    reg = enums['PST_regular_file']
    size = None
    for t in list(g.iv) + [x for p in g.rel for x in p]:
        b, c = fieldchain(t)
        if c[-1:] == ('size',) and mentions(t, Q) or \
                t.op == 'phi' and c[-1:] == ('size',) and \
                mentions(t.args[2], Q):
            size = t
    its = iterations(r)
    inq = [x for x in its if x[0] == ql]
    last = evs[-1] if evs else None
    if xl is not None:
        for e in evs:
            if e.kind == 'exit' and lid_of(e) == xl:
                chk.need(e.facts.decide(mk('eq', X, ZERO)) is True, e.node,
                         'paths are left out', f)
        if is_ret(r):
            chk.need(any(e.kind == 'exit' and lid_of(e) == xl
                         for e in evs), r.node, 'stops before all paths '
                     'were examined', f)
    whole = is_ret(r) if xl is None else (
        r.kind == 'back' and last is not None and lid_of(last) == xl)
    prep = prepended(r, X)
    n = 0
    for lid, ies, how, end, le, i in inq:
        n += 1
        calls = [e for e in ies if e.kind == 'call']
        # names are built from this entry
        for e in calls:
            if e.name == 'strTableGet':
                b = [x for x in calls if x.name ==
                     'repoBuildRegularFilePath' and
                     calls.index(x) < calls.index(e)]
                chk.need(bool(b) and b[-1].args[1] is info, e.node,
                         'looks for the result of another file', f)
                nm = strval(e.args[1])
                chk.need(bool(b) and nm.op == 'pure' and nm.args[0] == 'str'
                         and vloc(nm.args[1][0]) is not None and
                         ptr_loc(b[-1].args[0]) is vloc(nm.args[1][0]) or
                         bool(b) and same_buffer(nm, b[-1]), e.node,
                         'looks for a result under another name', f)
            if indirect(e):
                chk.need(info in e.args, e.node, 'checks another file', f)
        o = outcome(r, Q, f, it)
        ty = g.domain(tl)
        small = size is not None and \
            g.decide(mk('lt', num(HASH), size)) is False
        if reg not in ty or small:
            sts = [True]
        elif isinstance(o, tuple) and o[0] == 'cached':
            sts = []
            if any(g.assume(eqt(o[1], t), True) for t in toks[0]):
                sts.append(True)
            if any(g.assume(eqt(o[1], t), True) for t in toks[1]):
                sts.append(False)
        else:
            sts = [o]
        goes_on = how == 'back' or how == 'exit' and \
            end.facts.decide(mk('eq', Q, ZERO)) is True
        if how == 'exit' and goes_on:
            chk.need(not prep, r.node, 'reports a path without a damaged '
                     'entry', f)
            continue
        for x in sts:
            node = end.node if end is not None else r.node
            if how == 'back':
                chk.need(x is True or prep, node, 'a history entry is '
                         'passed over without being found healthy', f)
            else:
                chk.need(x is False, node, 'stops examining a history '
                         'before a damaged entry was found', f)
                chk.need(bool(prep), node, 'a damaged entry is not '
                         'reported', f)
    if whole:
        rec = {h.key for h in it.rec_funcs.values()} | {f.key}
        calls = [e for e in evs if e.kind == 'call' and e.extra in rec]
        ok = [e for e in calls if any(
            fieldof(a, 'subnodes') is X for a in e.args)]
        chk.need(bool(ok) or g.decide(mk('eq', initf(X, 'subnodes'),
                                         ZERO)) is True, r.node,
                 'paths below are not examined', f)
        for e in ok:
            h = it.rec_funcs.get(e.extra)
            if h is f:
                for a, own in zip(e.args, it.args):
                    if own not in ps:
                        chk.need(a is own, e.node, 'examines paths below '
                                 'in another way', f)
    return n


def same_buffer(nm, b):
    return nm.op == 'pure' and nm.args[0] == 'str' and \
        nm.args[1][0].op == 'hv' and \
        nm.args[1][0].args[0] is ptr_loc(b.args[0])


def prepended(r, X):
    """X was put in front of the list of broken nodes."""
    objs = {}
    for e in r.events():
        if e.kind != 'store':
            continue
        l, v = e.args
        if l.op == 'fld' and l.args[0].op == 'at':
            objs.setdefault(loc_ptr(l.args[0]), {})[l.args[1]] = v
        if v in objs and objs[v].get('node') is X:
            old = objs[v].get('next')
            if old is not None and vloc(old) is not None and (
                    vloc(old) is l or same_place(vloc(old), l)):
                return e
    return None


def same_place(a, b):
    return a.op == 'fld' and b.op == 'fld' and a.args[1] == b.args[1]


def passes(chk, s):
    chk.begin('integrity-passes',
              'checkIntegrity() examines all paths of the metadata with a '
              'check that calls a stored file healthy only if it exists, '
              'is a regular file of the recorded size, and the hash of its '
              'whole content equals the recorded one; results remembered '
              'by other passes are not used; all reported paths are '
              'returned.')
    clo = roots(s)
    Root.rec = [f for f, it, recs in clo[1:]]
    f, it, recs = s.run('checkIntegrity', policy=Root)
    chk.count(it, recs)
    M = [a for a, (n, t, d) in zip(it.args, f.params) if 'Metadata' in t][0]
    cache = set()
    inline = set()
    for g, jt, rr in clo[1:]:
        for r in rr:
            for e in r.events():
                if e.kind == 'call' and e.name == 'strTableGet':
                    cache.add(fieldchain(e.args[0])[1])
    n = 0
    for r in recs:
        if not is_ret(r):
            continue
        ps = [e for e in r.events() if e.kind == 'call' and
              isinstance(e.extra, tuple)]
        real = []
        used = {}
        for e in ps:
            fns = [a for a in e.args if a.op in ('fn', 'addr') and
                   fname(a)]
            chk.need(any(fieldof(a, 'paths') is M for a in e.args), e.node,
                     'examines other paths', f)
            snap = dict(e.extra[2])
            tabs = set()
            for a in e.args:
                if a.op != 'addr':
                    continue
                for c in cache:
                    l = a.args[0]
                    for x in c:
                        l = mk('fld', l, x)
                    tabs.add(snap.get(l, mk('init', l)))
            hl = True
            for a in fns:
                g = s.p.resolve(fname(a), f.file)
                hl = healthy_fn(chk, s, g)
            for t in tabs:
                chk.need(t.op == 'res' and t.args[0] == 'strTableNew',
                         e.node, 'uses a table of unknown content', f)
                if hl:
                    chk.need(used.get(t, True), e.node, 'relies on results '
                             'remembered without checking', f)
                used[t] = used.get(t, True) and hl
            if hl:
                real.append(e)
        n += 1
        chk.need(bool(real), r.node, 'stored files are never checked', f)
        chk.need(r.val is not None and (
            not ps or r.val.op == 'hv' and r.val.args[0].op == 'fld'),
            r.node, 'reported paths are not returned', f)
        if ps and r.val is not None and r.val.op == 'hv':
            snap = dict(ps[0].extra[2])
            v = snap.get(r.val.args[0])
            chk.need(v is ZERO, ps[0].node, 'list of reported paths is not '
                     'empty at first', f)
            fld = r.val.args[0].args[1]
            chk.need(any(prep_field(jt, rr) == fld
                         for g, jt, rr in clo[1:]), r.node, 'returns '
                     'another list', f)
    chk.anchor(n, 'passes')


def prep_field(it, recs):
    for r in recs:
        for e in r.events():
            if e.kind == 'store' and e.args[0].op == 'fld':
                objs = [x for x in r.events() if x.kind == 'store' and
                        x.args[0].op == 'fld' and
                        x.args[0].args[1] == 'node' and
                        loc_ptr(x.args[0].args[0]) is e.args[1]]
                if objs:
                    return e.args[0].args[1]
    return None


def fname(a):
    if a.op == 'fn':
        return a.args[0]
    if a.op == 'addr' and a.args[0].op == 'fn':
        return a.args[0].args[0]
    return None


def healthy_fn(chk, s, g):
    """True if g really checks (obligations are checked then); False if it
    calls everything healthy."""
    if g is None:
        raise AnalysisError('unknown check function')
    h, it, recs = s.run(g.key if g.key in s.p.funcs else g.name,
                        policy=r_copy.P)
    chk.count(it, recs)
    rets = [r for r in recs if is_ret(r)]
    if all(r.facts.decide(r.val) is True for r in rets) and \
            not any(e.kind == 'call' and e.name in ('fileHash', 'sLStat',
                                                    'sStat', 'sPathExists')
                    for r in recs for e in r.events()):
        return False
    info = [a for a, (n, t, d) in zip(it.args, h.params)
            if 'RegularFileInfo' in t][0]
    sub = [a for a, (n, t, d) in zip(it.args, h.params)
           if 'StringView' in t][0]

    def owned(t):
        t = strval(t)
        return t.op == 'pure' and t.args[0] == 'strAppendPath' and \
            t.args[1][1] is sub and \
            fieldchain(t.args[1][0])[1][-1:] == ('repo_path',)
    for r in rets:
        o = health(r, info, owned)
        d = r.facts.decide(r.val)
        if isinstance(o, tuple):
            ok = o[1] and (r.val is mk('eq', o[0], ZERO) or
                           r.val.op == 'not' and r.val.args[0] is o[0])
            chk.need(ok, r.node, 'result does not follow from the '
                     'comparison of the hashes', h)
        elif d is True:
            chk.need(o is True, r.node, 'calls a stored file healthy '
                     'without having examined it completely', h)
        elif d is False:
            chk.need(o is False, r.node, 'calls a healthy file damaged', h)
        else:
            chk.need(False, r.node, 'result does not follow from what was '
                     'examined', h)
    return True


def nopol_is(s, v, want):
    return r_copy.nopol(s, v) == want

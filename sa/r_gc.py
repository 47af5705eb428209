"""Rules about garbage collection and recursive removal."""
from core import *
from engine import Ev
from models import strval
from terms import add, sub
import r_copy
from r_copy import iterations, HASH
from r_changes import eqt
from r_integrity import fname, info_of, same_buffer, nopol_is


def closure(s):
    return s.closure('collectGarbageProgress')


def nonnull(t):
    return t.op in ('addr', 'decay', 'str', 'fn', 'ptradd') or \
        isint(t) and t.args[0] != 0


def preserved(chk, s):
    chk.begin('gc-preserves-referenced',
              'Every regular file larger than a hash in any history entry '
              'of any path which is part of the repository gets its '
              'complete stored name into the set of preserved items; paths '
              'are left out only if they are not part of the repository.')
    clo = closure(s)
    e = s.p.enums
    gone = e['BH_not_part_of_repository']
    total = 0
    for f, it, recs in clo[1:]:
        chk.count(it, recs)
        ps = [a for a, (n, t, d) in zip(it.args, f.params)
              if t.replace('const ', '').strip() == 'PathNode*']
        tabs = [a for a, (n, t, d) in zip(it.args, f.params)
                if 'StringTable' in t]
        if not ps:
            continue
        ll = list_loops(it, recs)
        cand = [(x.phi, lid, x.entry) for lid, l in ll.items() for x in l]
        nodes = [(p, lid) for p, lid, en in cand
                 if any(x in ps for x in en)]
        X, xl = nodes[0] if nodes else (ps[0], None)
        pts = [(p, lid, en) for p, lid, en in cand
               if any(fieldof(x, 'history') is X for x in en)]
        chk.need(len(pts) == 1, f.body, 'history of a path is not walked', f)
        if not pts:
            continue
        Q, ql, qen = pts[0]
        chk.need(all(fieldof(x, 'history') is X for x in qen),
                 it.loops[ql], 'only a part of the history is preserved', f)
        info, il = info_of(Q)
        tl = mk('init', mk('fld', mk('fld', ptr_loc(Q), 'state'), 'type'))
        size = mk('init', mk('fld', il, 'size'))
        reg = e['PST_regular_file']
        hl = initf(X, 'hint')
        for r in recs:
            if r.kind == 'die':
                continue
            evs = r.events()
            last = evs[-1] if evs else None
            if xl is not None:
                for x in evs:
                    if x.kind == 'exit' and lid_of(x) == xl:
                        chk.need(x.facts.decide(mk('eq', X, ZERO)) is True,
                                 x.node, 'paths are left out', f)
                if is_ret(r):
                    chk.need(any(x.kind == 'exit' and lid_of(x) == xl
                                 for x in evs), r.node, 'stops before all '
                             'paths were handled', f)
            for lid, ies, how, end, le, i in iterations(r):
                if lid != ql:
                    continue
                if how in ('exit', 'back') and how == 'exit':
                    chk.need(end.facts.decide(mk('eq', Q, ZERO)) is True,
                             end.node, 'older history entries are left out',
                             f)
                elif how == 'end' and r.kind != 'back':
                    chk.need(False, r.node, 'older history entries are '
                             'left out', f)
                if how != 'back':
                    continue
                total += 1
                g = r.facts
                if reg not in g.domain(tl) or \
                        g.decide(mk('lt', num(HASH), size)) is False:
                    continue
                calls = [x for x in ies if x.kind == 'call']
                built = [x for x in calls
                         if x.name == 'repoBuildRegularFilePath']
                chk.need(bool(built) and built[-1].args[1] is info,
                         end.node, 'a stored file is not preserved', f)
                if not built:
                    continue
                get = [x for x in calls if x.name == 'strTableGet' and
                       x.args[0] in tabs and names(x.args[1], built[-1])]
                mp = [x for x in calls if x.name == 'strTableMap' and
                      x.args[0] in tabs and names(x.args[1], built[-1])]
                for x in mp:
                    chk.need(nonnull(x.args[2]), x.node, 'preserved name '
                             'is recorded like a missing one', f)
                    chk.need(x.args[1].op == 'pure' and x.args[1].args[0]
                             in ('strCopy', 'strCopyRaw'), x.node,
                             'preserved name is overwritten later', f)
                chk.need(bool(mp) or any(
                    g.decide(mk('eq', x.res, ZERO)) is False for x in get),
                    end.node, 'name of a stored file is not preserved', f)
            whole = is_ret(r) if xl is None else (
                r.kind == 'back' and last is not None and
                last.kind == 'back' and lid_of(last) == xl)
            if not whole:
                continue
            total += 1
            hd = [v for v in r.facts.domain(hl)
                  if not nopol_is(s, v, gone)]
            rec = {h.key for h in it.rec_funcs.values()} | {f.key}
            ok = [x for x in evs if x.kind == 'call' and x.extra in rec and
                  any(fieldof(a, 'subnodes') is X for a in x.args)]
            walked = any(x.kind == 'loop' and lid_of(x) == ql for x in evs)
            chk.need(not hd or walked, r.node, 'a path which is part of '
                     'the repository is left out (hint %s)' % (
                         h2s(s.p, hd[0]) if hd else ''), f)
            chk.need(not hd or bool(ok) or r.facts.decide(
                mk('eq', initf(X, 'subnodes'), ZERO)) is True, r.node,
                'paths below are left out', f)
            for x in ok:
                h = it.rec_funcs.get(x.extra)
                if h is f:
                    for a, own in zip(x.args, it.args):
                        if own in tabs:
                            chk.need(a is own, x.node, 'uses another set '
                                     'of preserved items', f)
    chk.anchor(total, 'walk over all paths')


def names(t, built):
    nm = strval(t)
    if nm.op != 'pure' or nm.args[0] != 'str':
        return False
    v = nm.args[1][0]
    return vloc(v) is not None and vloc(v) is ptr_loc(built.args[0])


class Snap(Std):
    """Keeps the memory behind the user data of a removal."""

    def __init__(self, prog):
        super().__init__(prog)
        self.models['sRemoveRecursivelyIf'] = self.snap

    @staticmethod
    def snap(it, name, args, st, e):
        vals = {}
        a = args[2]
        l = it.ptr_loc(a)
        ty = None
        for k, v in st.store.items():
            x = k
            while x.op == 'fld':
                x = x.args[0]
            if x is l:
                vals[k] = v
        base = it.read_plain(st, l)
        st = st.copy()
        it.event(st, Ev('call', name, tuple(args), None, e, it.ctx(),
                        st.facts, ('snap', l, base, tuple(vals.items()))))
        return [(st, ZERO)]


def snapfield(ev, chain):
    _, l, base, vals = ev.extra
    for x in chain:
        l = mk('fld', l, x)
    d = dict(vals)
    if l in d:
        return d[l]
    if base.op == 'struct' and len(chain) == 1:
        return dict(base.args[1]).get(chain[0])
    return None


KEEP = {'config', 'metadata', 'lockfile'}


def collection(chk, s):
    chk.begin('gc-collects-inside',
              'Garbage collection removes nothing but entries listed in '
              'the repository, after config, metadata, lockfile and all '
              'referenced names were recorded as preserved; an item is '
              'removed only if its path below the repository is not among '
              'the preserved names.')
    clo = closure(s)
    pops = {f.key: f for f, it, recs in clo[1:]}
    f, it, recs = s.run('collectGarbageProgress', policy=Snap)
    chk.count(it, recs)
    M = [a for a, (n, t, d) in zip(it.args, f.params) if 'Metadata' in t][0]
    R = [a for a, (n, t, d) in zip(it.args, f.params)
         if 'StringView' in t][0]
    n = 0
    for r in recs:
        if r.kind == 'die':
            continue
        evs = r.events()
        tables = {}
        dirs = {}
        items = {}
        pop = []
        released = []
        for i, e in enumerate(evs):
            if e.kind == 'loop':
                for p, v in e.extra:
                    if v in items:
                        items[p] = items[v]
            if e.kind != 'call':
                continue
            if e.name == 'strTableMap':
                k = strval(e.args[1])
                if k.op == 'pure' and k.args[0] == 'str' and \
                        k.args[1][0].op == 'str' and nonnull(e.args[2]):
                    tables.setdefault(e.args[0], set()).add(
                        k.args[1][0].args[0].strip('"'))
            elif e.extra in pops:
                pop.append(e)
            elif e.name == 'sDirOpen':
                chk.need(e.args[0] is R, e.node, 'looks for garbage in '
                         'another place', f)
                dirs[e.res] = e
            elif e.name == 'sDirGetNext':
                if e.args[0] in dirs:
                    items[e.res] = e
            elif e.name == 'CR_RegionRelease':
                released.append(i)
            elif e.name in ('sRemove', 'sRemoveRecursively'):
                chk.need(False, e.node, 'removes items without looking '
                         'for them among the preserved ones', f)
            elif e.name == 'sRemoveRecursivelyIf':
                n += 1
                p = e.args[0]
                chk.need(p in items and r.facts.decide(
                    mk('pure', 'strIsEmpty', (p,))) is False or
                    p in items and phi_item(r, p, items), e.node,
                    'removes something that was not found in the '
                    'repository', f)
                chk.need(not released, e.node, 'uses released names', f)
                cb = s.p.resolve(fname(e.args[1]) or '', f.file)
                if cb is None:
                    raise AnalysisError('unknown removal decision')
                tab, repo = callback(chk, s, cb)
                T = snapfield(e, tab) if tab else None
                P = snapfield(e, repo) if repo else None
                chk.need(T in tables and KEEP <= tables.get(T, set()),
                         e.node, 'config, metadata or lockfile are not '
                         'preserved', f)
                chk.need(P is R, e.node, 'names are not relative to the '
                         'repository', f)
                chk.need(any(T in x.args and any(
                    fieldof(a, 'paths') is M for a in x.args)
                    for x in pop) or r.facts.decide(
                        mk('eq', initf(M, 'paths'), ZERO)) is True, e.node,
                    'referenced files are not preserved', f)
    chk.anchor(n, 'removals')


def phi_item(r, p, items):
    return r.facts.decide(mk('pure', 'strIsEmpty', (p,))) is False


def callback(chk, s, g):
    """Obligations of the decision function; (field with the table, field
    with the repository path)."""
    f, it, recs = s.run(g.key if g.key in s.p.funcs else g.name)
    chk.count(it, recs)
    path, stats, ud = it.args[:3]
    tab = repo = None
    n = 0
    for r in recs:
        if not is_ret(r):
            continue
        n += 1
        get = [e for e in r.events() if e.kind == 'call' and
               e.name == 'strTableGet']
        yes = r.facts.assume(r.val, True) is not None
        no_ = r.facts.assume(r.val, False) is not None
        ok = False
        for e in get:
            b, t = fieldchain(e.args[0])
            k = strval(e.args[1])
            rp = relative(k, path)
            if rp is None:
                chk.need(False, e.node, 'looks for something other than '
                         'the name relative to the repository', f)
                continue
            tab = t
            repo = rp
            ok = True
            d = r.facts.decide(mk('eq', e.res, ZERO))
            if d is None and r.val is not None:
                # returned directly
                g1 = r.facts.assume(mk('eq', e.res, ZERO), False)
                yes = g1 is not None and g1.assume(r.val, True) is not None
                d = True if not yes else None
            chk.need(d is True or not yes, r.node, 'removes a preserved '
                     'item', f)
        if yes:
            chk.need(ok, r.node, 'removes an item without looking for its '
                     'name among the preserved ones', f)
    chk.anchor(n, 'removal decision')
    return tab, repo


def relative(k, path):
    """Field chain of the repository path if k is path without
    '<repository>/'."""
    if k.op != 'pure' or k.args[0] != 'strUnterminated':
        return None
    p, n = k.args[1]
    content = mk('fieldof', path, 'content')
    length = mk('fieldof', path, 'length')
    if p.op == 'addr' and p.args[0].op == 'at':
        base, off = p.args[0].args
    elif p.op == 'ptradd':
        base, off = p.args
    else:
        return None
    if base is not content:
        return None
    if add(n, off) is not length:
        return None
    rl = sub(off, ONE)
    b, c = fieldchain(rl)
    if not c or c[-1] != 'length':
        return None
    return c[:-1]


# ------------------------------------------------------------------ removing
class Removal(Std):
    """Remembers that an entry below was left in place."""
    mon0 = False

    def __init__(self, prog):
        super().__init__(prog)
        self.monitor = self.step

    @staticmethod
    def step(mon, ev, it):
        if ev.kind == 'fork' and ev.extra in it.rec_funcs and \
                isint(ev.res) and ev.res.args[0] == 0:
            return True
        return mon


def removal(chk, s):
    chk.begin('recursive-removal',
              'Recursive removal examines an item without following links, '
              'lists it only if it is a directory itself, handles every '
              'listed entry first, and removes the item only if nothing '
              'below was left and the decision function agreed; it reports '
              'truthfully whether the item was removed.')
    clo = s.closure('sRemoveRecursivelyIf', policy=Removal, key='removal')
    n = 0
    f0, it0, recs0 = clo[0]
    chk.count(it0, recs0)
    for r in recs0:
        ok = [e for e in r.events() if e.kind == 'call' and
              e.extra in it0.rec_funcs]
        chk.need(len(ok) == 1 and ok[0].args == tuple(it0.args) or
                 len(clo) == 1, r.node or f0.body, 'arguments are not '
                 'passed on', f0)
    for f, it, recs in clo[1:] or clo:
        chk.count(it, recs)
        path = it.args[0]
        for r in recs:
            n += 1
            remove_one(chk, s, f, it, r, path)
    chk.anchor(n, 'recursive removal')
    # the unconditional variant
    f, it, recs = s.run('sRemoveRecursively')
    chk.count(it, recs)
    for r in recs:
        ok = [e for e in r.events() if e.kind == 'call' and
              (e.name == 'sRemoveRecursivelyIf' or e.extra in it.rec_funcs)]
        chk.need(len(ok) == 1 and ok[0].args[0] is it.args[0], r.node or
                 f.body, 'removes something else', f)
        for e in ok:
            g = s.p.resolve(fname(e.args[1]) or '', f.file)
            if g is None:
                raise AnalysisError('unknown removal decision')
            h, jt, rr = s.run(g.key if g.key in s.p.funcs else g.name)
            chk.need(all(is_ret(x) and x.facts.decide(x.val) is True
                         for x in rr), e.node, 'leaves items in place', f)


EFFECT = ('sRemove', 'remove', 'unlink', 'rmdir')


def remove_one(chk, s, f, it, r, path):
    evs = r.events()
    st = None
    dirs = {}
    entries = {}
    ended = set()
    asked = None
    removed = None
    closed = set()
    rec = {g.key for g in it.rec_funcs.values()} | {f.key}
    for e in evs:
        if e.kind == 'loop':
            for p, v in e.extra:
                if v in entries:
                    entries[p] = entries[v]
            continue
        if e.kind != 'call':
            continue
        if e.name in ('sStat', 'sLStat', 'stat', 'lstat'):
            chk.need(e.name == 'sLStat', e.node, 'follows a symbolic link',
                     f)
            chk.need(e.args[0] is path, e.node, 'examines another path', f)
            st = e
        elif e.name == 'sDirOpen':
            chk.need(e.args[0] is path, e.node, 'lists another directory',
                     f)
            chk.need(st is not None and isdir(e.facts, st) is True, e.node,
                     'may list a directory behind a symbolic link', f)
            dirs[e.res] = e
        elif e.name == 'sDirGetNext':
            chk.need(e.args[0] in dirs, e.node, 'lists another directory',
                     f)
            entries[e.res] = e
        elif e.name == 'sDirClose':
            closed.add(e.args[0])
        elif e.extra in rec:
            chk.need(e.args[0] in entries and e.facts.decide(
                mk('pure', 'strIsEmpty', (e.args[0],))) is False, e.node,
                'descends into something that was not listed', f)
            chk.need(e.args[1:] == tuple(it.args[1:]), e.node, 'decides '
                     'about entries in another way', f)
        elif e.name == '*':
            asked = e
            chk.need(e.args[0] is path, e.node, 'asks for another path', f)
        elif e.name in EFFECT:
            removed = e
            chk.need(e.args[0] is path, e.node, 'removes another path', f)
            chk.need(asked is not None and
                     e.facts.decide(asked.res) is True, e.node, 'removes an '
                     'item without agreement', f)
            chk.need(not r.st.mon, e.node, 'removes a directory from '
                     'which an entry was not removed', f)
            chk.need(st is not None and (
                isdir(e.facts, st) is False or bool(dirs) and
                all_handled(r, dirs, entries, e)), e.node,
                'removes a directory before its entries', f)
            chk.need(all(d in closed for d in dirs), e.node, 'directory is '
                     'removed while it is read', f)
    if is_ret(r):
        d = r.facts.decide(r.val)
        chk.need(d is not None and d == (removed is not None), r.node,
                 'does not report whether the item was removed', f)
        if removed is None:
            ok = r.st.mon or asked is not None and \
                r.facts.decide(asked.res) is False
            chk.need(ok, r.node, 'leaves an item in place without a '
                     'reason', f)


def isdir(g, st):
    return g.decide(mk('eq', mk('&', mk('fieldof', st.res, 'st_mode'),
                                num(0o170000)), num(0o040000)))


def all_handled(r, dirs, entries, e):
    """The listing was finished before e."""
    for x in r.events():
        if x is e:
            break
    return any(e.facts.decide(mk('pure', 'strIsEmpty', (t,))) is True
               for t in entries)

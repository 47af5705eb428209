"""Rules about initiateBackup(): what becomes of every node."""
from core import *
from r_copy import iterations, nopol
from r_restore import param_index
from r_backup import flat, isfresh, final_of, under

POL = ('BPOL_none', 'BPOL_copy', 'BPOL_mirror', 'BPOL_track')


class Prepare(Std):
    """Keeps the state that gets compared with the found path."""

    def __init__(self, prog):
        super().__init__(prog)
        self.models['applyNodeChanges'] = self.apply

    @staticmethod
    def apply(it, name, args, st, e):
        f = it.p.funcs.get(name)
        i = param_index(f, 'PathState*') if f else None
        v = it.read_plain(st, it.ptr_loc(args[i])) if i is not None else None
        return it.opaque(name, args, st, e, extra=('state', v))


def closure(s):
    return s.closure('initiateBackup', policy=Prepare, key='prepare')


class B:
    """The functions of initiateBackup() by what they do."""

    def __init__(self, s):
        self.s = s
        e = self.e = s.p.enums
        self.clo = closure(s)
        self.gone = e['BH_not_part_of_repository']
        self.found = self.wiper = self.remover = None
        self.top = self.clo[0]
        for f, it, recs in self.clo[1:]:
            if any(x.kind == 'call' and x.name == 'searchGetNext'
                   for r in recs for x in r.events()):
                self.found = (f, it, recs)
                continue
            ni = param_index(f, 'PathNode*')
            if ni is None:
                continue
            hl = mk('fld', ptr_loc(it.args[ni]), 'hint')
            ends = [r.facts.values(it.read_plain(r.st, hl))
                    for r in recs if is_ret(r)]
            if all(v is not None and all(nopol(s, x) == self.gone
                                         for x in v) for v in ends):
                if self.wiper is not None:
                    raise AnalysisError('two functions that discard nodes')
                self.wiper = (f, it, recs)
            else:
                if self.remover is not None:
                    raise AnalysisError('two functions that mark removed '
                                        'nodes')
                self.remover = (f, it, recs)
        for x, n in ((self.found, 'that handles found paths'),
                     (self.wiper, 'that discards nodes'),
                     (self.remover, 'that marks removed nodes')):
            if x is None:
                raise AnalysisError('no function %s' % n)
        self.kinds = {self.wiper[0].key: 'wipe',
                      self.remover[0].key: 'remove'}
        self.ni = {k[0].key: param_index(k[0], 'PathNode*')
                   for k in (self.wiper, self.remover)}
        self.ext = param_index(self.remover[0], 'bool')
        if self.ext is None:
            self.ext = param_index(self.remover[0], '_Bool')

    def np(self, v):
        return nopol(self.s, v) == self.gone

    def effects(self, it, evs, node):
        """What is done to the node: [('wipe', ev) | ('remove', ev) |
        ('wipe1', ev)]"""
        out = []
        for e in evs:
            if e.kind == 'call' and e.extra in self.kinds and \
                    e.args[self.ni[e.extra]] is node:
                out.append((self.kinds[e.extra], e))
            elif e.kind == 'store':
                for l, v in flat(it, e):
                    if l is mk('fld', ptr_loc(node), 'hint'):
                        vs = e.facts.values(v)
                        if vs and all(self.np(x) for x in vs):
                            out.append(('wipe1', e))
        return out


def envs(facts, *leaves):
    """Allowed joint values of finite leaves."""
    ls = [l for l in leaves if l is not None and not isint(l)]
    for env in env_values(facts, ls):
        g = restricted(facts, env)
        if g is None:
            continue
        for t, (lo, hi, ex) in facts.iv.items():
            x = evalterm(t, env)
            if x is not None and (x < lo or x > hi or x in ex):
                break
        else:
            yield env, g


def leaf(t, ty):
    if t.ty is None:
        t.ty = ty
    return t


def val(env, t):
    return evalterm(t, env)


def before(r, i):
    return r.events()[:i]


def last_store(it, evs, loc):
    v = None
    for e in evs:
        if e.kind == 'store':
            for l, x in flat(it, e):
                if l is loc:
                    v = x
    return v


# ---------------------------------------------------------------- wiping
def discard(chk, s):
    chk.begin('discard', 'Discarding a node discards everything below it.')
    b = B(s)
    f, it, recs = b.wiper
    chk.count(it, recs)
    node = it.args[b.ni[f.key]]
    ll = list_loops(it, recs)
    whole_tree(chk, b, f, it, recs, node, ll, 'discarded',
               lambda r, e: True, lambda r: True)


def whole_tree(chk, b, f, it, recs, node, ll, what, argok, must):
    """Every child gets the same treatment as node."""
    subs = initf(node, 'subnodes')
    good = set()
    for lid, zs in ll.items():
        for z in zs:
            if z.entry != {subs}:
                continue
            n = 0
            for r in recs:
                for l, evs, how, end, lev, i in iterations(r):
                    if l != lid or how not in ('back', 'leave', 'end'):
                        continue
                    if how == 'end' and r.kind == 'die':
                        continue
                    n += 1
                    cs = [e for e in evs if e.kind == 'call' and
                          e.extra == f.key and
                          e.args[b.ni[f.key]] is z.phi]
                    chk.need(len(cs) == 1 and how == 'back' and
                             argok(r, cs[0]), r.node,
                             'a path below a %s path is not %s' % (what,
                                                                   what), f)
            for r, e in loop_exits_at_end(recs, z.phi, lid):
                chk.need(False, e.node, 'paths below a %s path are skipped'
                         % what, f)
            if n:
                good.add(lid)
    n = 0
    for r in recs:
        if not is_ret(r):
            continue
        n += 1
        if must(r):
            chk.need(any(e.kind == 'exit' and lid_of(e) in good
                         for e in r.events()) or
                     r.facts.decide(mk('eq', subs, ZERO)) is True,
                     r.node, 'paths below a %s path are not visited' % what,
                     f)
    chk.anchor(n, what + ' paths')


def removed(chk, s):
    chk.begin('removed', 'A removed path is marked as removed (or unchanged '
              'if it was removed before), everything below it too; under '
              'track, if all directories above it are tracked too, a '
              'removed state is put in front of its history.')
    b = B(s)
    e = b.e
    f, it, recs = b.remover
    chk.count(it, recs)
    node = it.args[b.ni[f.key]]
    N = ptr_loc(node)
    h0 = leaf(initf(node, 'hint'), 'BackupHint')
    t0 = leaf(initf(initf(node, 'history'), 'state', 'type'),
              'PathStateType')
    p0 = leaf(initf(node, 'policy'), 'BackupPolicy')
    ext = it.args[b.ext] if b.ext is not None else None
    hist = initf(node, 'history')
    n = 0
    for r in recs:
        if not is_ret(r):
            continue
        for env, g in envs(r.facts, h0, t0, p0, ext):
            n += 1
            h = val(env, h0)
            if b.np(h):
                chk.need(it.read_plain(r.st, mk('fld', N, 'hint')) is h0 or
                         True, r.node, '', f)
                chk.need(it.read_plain(r.st, mk('fld', N, 'history')) is
                         hist, r.node, 'history of a discarded node '
                         'extended', f)
                continue
            if nopol(s, h) != 0:
                continue
            fin = g.values(it.read_plain(r.st, mk('fld', N, 'hint')))
            was = val(env, t0) == e['PST_non_existing']
            want = e['BH_unchanged'] if was else e['BH_removed']
            chk.need(fin == {h | want} or was and fin == {want}, r.node, lambda: 'removed node with '
                     'state type %d gets the hint %s' % (
                         val(env, t0), fin and '/'.join(
                             h2s(s.p, x) for x in sorted(fin))), f)
            grow = not was and val(env, p0) == e['BPOL_track'] and (
                ext is None or val(env, ext) == 1)
            history_grows(chk, b, it, r, f, node, hist, grow,
                          'non_existing')
    chk.anchor(n, 'removed nodes')
    ll = list_loops(it, recs)

    def argok(r, c):
        if b.ext is None:
            return True
        ok = True
        for env, g in envs(r.facts, h0, t0, p0, ext):
            x = val(env, ext)
            if val(env, t0) != e['PST_non_existing']:
                x = int(x and val(env, p0) == e['BPOL_track'])
            a = g.values(c.args[b.ext])
            ok = ok and a == {x}
        return ok
    whole_tree(chk, b, f, it, recs, node, ll, 'removed', argok,
               lambda r: not all(b.np(x) for x in r.facts.domain(h0)))


def history_grows(chk, b, it, r, f, node, old, grow, kind):
    """History of node at the end: old, or a new point in front of old."""
    N = ptr_loc(node)
    v = it.read_plain(r.st, mk('fld', N, 'history'))
    if not grow:
        chk.need(v is old, r.node, 'history changes although it should not',
                 f)
        return None
    ok = isfresh(v)
    chk.need(ok, r.node, 'no new state is put in front of the history', f)
    if not ok:
        return None
    chk.need(final_of(it, r, v, 'next') is old, r.node,
             'older states are not kept behind the new one', f)
    bk = final_of(it, r, v, 'backup')
    chk.need(current(it, bk), r.node, 'new state does not belong to the '
             'current backup', f)
    if kind == 'non_existing':
        chk.need(final_of(it, r, v, 'state', 'type') is
                 num(b.e['PST_non_existing']), r.node,
                 'new state of a removed path is not "removed"', f)
    return v


def current(it, bk):
    if bk.op != 'addr':
        return False
    l = bk.args[0]
    return l.op == 'fld' and l.args[1] == 'current_backup' and \
        (loc_ptr(l.args[0]).ty or '').replace('const ', '') == 'Metadata*'


# ----------------------------------------------------------------- found
TYPES = (('SRT_regular_file', 'PST_regular_file'),
         ('SRT_symlink', 'PST_symlink'), ('SRT_directory', 'PST_directory'))
CHANGE = {('PST_regular_file', 'SRT_symlink'): 'BH_regular_to_symlink',
          ('PST_regular_file', 'SRT_directory'): 'BH_regular_to_directory',
          ('PST_symlink', 'SRT_regular_file'): 'BH_symlink_to_regular',
          ('PST_symlink', 'SRT_directory'): 'BH_symlink_to_directory',
          ('PST_directory', 'SRT_regular_file'): 'BH_directory_to_regular',
          ('PST_directory', 'SRT_symlink'): 'BH_directory_to_symlink'}


class Names:
    """Everything one search result and its node are about."""

    def __init__(self, b, f, it):
        e = b.e
        self.b, self.f, self.it, self.e = b, f, it, e
        self.srt = {e[x]: e[y] for x, y in TYPES}
        self.change = {(e[x], e[y]): e[z] for (x, y), z in CHANGE.items()}
        mi = param_index(f, 'Metadata*')
        self.meta = it.args[mi]
        self.li = param_index(f, 'PathNode**')
        self.list = it.args[self.li]

    def of(self, r):
        """(search result, table lookup) of a record, or None."""
        res = get = None
        for x in r.events():
            if x.kind == 'call' and x.name == 'searchGetNext':
                if res is not None:
                    raise AnalysisError('two search results at once')
                res = x.res
            if x.kind == 'call' and x.name == 'strTableGet':
                get = x
        return res, get


def sub_loops(b, it, recs, f):
    """{lid: [cursor]} of loops over a list of nodes that treat them, and of
    loops that only look at them."""
    ll = list_loops(it, recs)
    eff, seen = {}, {}
    for r in recs:
        if r.kind == 'die':
            continue
        for lid, evs, how, end, lev, i in iterations(r):
            if lid not in ll or how == 'exit':
                continue
            for z in ll[lid]:
                k = (lid, z.phi)
                seen.setdefault(k, z)
                if b.effects(it, evs, z.phi):
                    eff[k] = z
    return ll, seen, eff


def entry_of(lev, z):
    return dict(lev.extra).get(z.phi)


def handled(chk, s):
    F = getattr(s, '_found', None)
    if F is None:
        F = s._found = Found(s)
    F.chk = chk
    return F


class Found:
    """Checks of all paths on which a search result was handled."""

    def __init__(self, s):
        self.s = s
        self.b = b = B(s)
        self.e = b.e
        self.f, self.it, self.recs = b.found
        self.n = Names(b, self.f, self.it)
        self.ll, self.seen, self.eff = sub_loops(b, self.it, self.recs,
                                                 self.f)
        self.flags = {}
        self.iters = {r: iterations(r) for r in self.recs
                      if r.kind == 'ret'}
        self.back = {}
        for r in self.recs:
            if r.kind == 'back':
                x = [x for x in iterations(r) if x[3] is r.events()[-1]][0]
                self.back.setdefault(x[0], []).append((r, x))

    def need(self, c, r, msg, node=None):
        return self.chk.need(c, node or r.node, msg, self.f)

    def names(self, r):
        res, get = self.n.of(r)
        if res is None:
            return None
        it = self.it
        x = type('R', (), {})()
        x.res = res
        x.rt = leaf(mk('fieldof', res, 'type'), 'SearchResultType')
        x.p = leaf(mk('fieldof', res, 'policy'), 'BackupPolicy')
        x.path = mk('fieldof', res, 'path')
        x.stats = mk('fieldof', res, 'stats')
        x.snode = mk('fieldof', res, 'node')
        x.get = get
        x.node = get.res if get is not None else None
        x.isnew = None
        if get is not None:
            x.isnew = r.facts.decide(mk('eq', get.res, ZERO))
        if x.node is not None and not x.isnew:
            N = x.N = ptr_loc(x.node)
            x.h0 = leaf(initf(x.node, 'hint'), 'BackupHint')
            x.p0 = leaf(initf(x.node, 'policy'), 'BackupPolicy')
            x.hist = initf(x.node, 'history')
            x.t0 = leaf(initf(x.hist, 'state', 'type'), 'PathStateType')
            x.next = initf(x.hist, 'next')
            x.tn = leaf(initf(x.next, 'state', 'type'), 'PathStateType')
            x.subs = mk('fld', N, 'subnodes')
        x.apply = None
        for c in r.events():
            if c.kind == 'call' and c.name == 'applyNodeChanges':
                x.apply = c
        x.A = None
        if x.apply is not None and x.node is not None:
            x.A = leaf(mk('hv', mk('fld', ptr_loc(x.node), 'hint'),
                          x.apply.res, 'applyNodeChanges'), 'BackupHint')
        return x

    def final(self, r, loc):
        return self.it.read_plain(r.st, loc)

    # ------------------------------------------------------------- cases
    def cases(self, r, x):
        """(env, facts, p0, p, t0, rt, kind) of everything that a record
        covers; kind: new, discarded or known."""
        e = self.e
        if x.get is None or x.isnew:
            for env, g in envs(r.facts, x.p, x.rt):
                if env.get(x.p, val(env, x.p)) <= e['BPOL_track'] and \
                        val(env, x.rt) in self.n.srt:
                    yield env, g, 'new'
            return
        for h in (0, self.b.gone):
            f = r.facts.restrict(x.h0, h)
            if f is not None:
                yield from self.cases_of(f, r, x, h)

    def cases_of(self, facts, r, x, h):
        e = self.e
        for env, g in envs(facts, x.p0, x.p, x.t0, x.rt):
            env[x.h0] = h
            if val(env, x.rt) not in self.n.srt or \
                    val(env, x.p) > e['BPOL_track'] or \
                    val(env, x.p0) > e['BPOL_track']:
                continue
            if h == self.b.gone:
                yield env, g, 'discarded'
            elif h == 0:
                if val(env, x.p0) != e['BPOL_track']:
                    # one state only, and an existing one
                    if val(env, x.t0) == e['PST_non_existing']:
                        continue
                    g = g.assume(mk('eq', x.next, ZERO), True)
                    if g is None:
                        continue
                yield env, g, 'known'

    def heads(self, env, g, x):
        """The point that is the latest existing one after a change of
        policy: (facts, changed, pointer, type, rest dropped?)."""
        e = self.e
        p0, p, t0 = val(env, x.p0), val(env, x.p), val(env, x.t0)
        if p0 == p:
            yield g, False, x.hist, t0, False
            return
        if p0 != e['BPOL_track']:
            yield g, True, x.hist, t0, False
            return
        if t0 == e['PST_non_existing']:
            for t in sorted(g.domain(x.tn)):
                g2 = g.restrict(x.tn, t)
                if t == e['PST_non_existing'] or g2 is None:
                    continue
                yield from self.rest(g2, x.next, t)
            return
        yield from self.rest(g, x.hist, t0)

    def rest(self, g, head, t):
        for pol in (True, False):
            g2 = g.assume(mk('eq', initf(head, 'next'), ZERO), pol)
            if g2 is not None:
                yield g2, True, head, t, not pol

    # ------------------------------------------------------ found: states
    def states(self):
        chk, e, b = self.chk, self.e, self.b
        n = 0
        for r in self.recs:
            if not is_ret(r):
                continue
            x = self.names(r)
            if x is None:
                continue
            d = r.facts.domain(x.rt)
            if set(d) == {e['SRT_none']}:
                continue
            other = {v for v in d if v not in self.n.srt}
            if len(other) < len(d):
                # searchGetNext() never gives this type, see P20
                other.discard(e['SRT_none'])
            self.need(r.val is not None and (
                r.val is x.rt or r.facts.values(r.val) == set(d)), r,
                'the type of the search result is not returned')
            if other:
                self.need(len(other) == len(d) and not any(
                    z.kind == 'store' for z in r.events()), r,
                    'something changes without a found path')
                continue
            if x.get is None:
                self.need(False, r, 'found path is not looked up')
                continue
            self.need(x.get.args[1] is x.path, r, 'another path than the '
                      'found one is looked up', x.get.node)
            self.need(x.isnew is not None, r, 'found path is handled '
                      'without knowing whether it is new')
            for env, g, kind in self.cases(r, x):
                n += 1
                if kind == 'new':
                    self.new(r, x, env, g)
                elif kind == 'discarded':
                    self.again(r, x, env, g)
                else:
                    for y in self.heads(env, g, x):
                        self.known(r, x, env, *y)
        chk.anchor(n, 'found paths')

    def full_state(self, r, x, S, rt, what):
        """The whole state at S describes the found path."""
        e, it = self.e, self.it

        def is_(want, *fs):
            l = S
            for f in fs:
                l = mk('fld', l, f)
            v = self.final(r, l)
            self.need(v is want, r, lambda: '%s: %s is not that of the found '
                      'path' % (what, '.'.join(fs)))

        def stat(f):
            return mk('fieldof', x.stats, f)
        v = self.final(r, mk('fld', S, 'type'))
        self.need(v is num(self.n.srt[rt]), r, '%s: recorded type is not '
                  'the found type' % what)
        is_(stat('st_uid'), 'uid')
        is_(stat('st_gid'), 'gid')
        if rt == e['SRT_symlink']:
            l = mk('fld', mk('fld', S, 'metadata'), 'symlink_target')
            v = strval(self.final(r, l))
            self.need(v.op == 'res' and any(
                c.name == 'sSymlinkReadTarget' and c.res is v and
                c.args[0] is x.path for c in r.calls()), r,
                '%s: target is not that of the found link' % what)
            return
        info = 'file_info' if rt == e['SRT_regular_file'] else \
            'directory_info'
        is_(stat('st_mode'), 'metadata', info, 'permission_bits')
        is_(stat('st_mtime'), 'metadata', info, 'modification_time')
        if rt == e['SRT_regular_file']:
            is_(stat('st_size'), 'metadata', info, 'size')

    def fresh_point(self, r, x, v, rt, older, what):
        """v is a new point with the found state, followed by older."""
        ok = isfresh(v)
        self.need(ok, r, '%s: no new state is recorded' % what)
        if not ok:
            return
        self.need(final_of(self.it, r, v, 'next') is older, r,
                  '%s: older states are not kept unchanged behind the new '
                  'one' % what)
        self.need(current(self.it, final_of(self.it, r, v, 'backup')), r,
                  '%s: new state does not belong to the current backup' %
                  what)
        if rt is not None:
            self.full_state(r, x, mk('fld', ptr_loc(v), 'state'), rt, what)

    def evidence(self, r, x):
        """Whether subnodes are still needed: True, False or None."""
        out = None
        for lid, evs, how, end, lev, i in self.iters[r]:
            for z in self.ll.get(lid, ()):
                if (lid, z.phi) in self.eff or not self.looks(lid, z):
                    continue
                if vloc(entry_of(lev, z) or ZERO) is not \
                        mk('fld', ptr_loc(x.node), 'subnodes'):
                    continue
                v = None
                for q in self.marks(lid, z):
                    v = r.facts.values(q)
                    v = None if v is None or len(v) != 1 else v != {0}
                    if v is not None:
                        out = v
                        break
                if v is not None:
                    continue
                if self.flagloop(lid):
                    return 'flag'
                if end.facts.decide(mk('eq', z.phi, ZERO)) is True and \
                        how == 'exit':
                    out = False
                else:
                    d = end.facts.domain(leaf(initf(z.phi, 'hint'),
                                              'BackupHint'))
                    if any(self.b.np(v) for v in d):
                        self.need(False, r, 'a discarded entry counts as '
                                  'needed', end.node)
                    out = True
        return out

    def marks(self, lid, z):
        """Variables that tell after the loop whether one of the entries was
        not discarded."""
        k = ('marks', lid)
        if k in self.flags:
            return self.flags[k]
        out = []
        for q, d in self.it.phis.items():
            if d.get('lid') != lid or q is z.phi or d['entry'] != {ZERO}:
                continue
            ok = True
            h = leaf(initf(z.phi, 'hint'), 'BackupHint')
            for r, y in self.back.get(lid, ()):
                v = self.final(r, d['loc'])
                for x in r.facts.domain(h):
                    g = r.facts.restrict(h, x)
                    if g is None:
                        continue
                    if self.b.np(x):
                        ok = ok and (v is q or g.values(v) == {0} and
                                     g.values(q) == {0})
                    else:
                        ok = ok and g.decide(v) is True
            if ok and self.back.get(lid):
                out.append(q)
        self.flags[k] = out
        return out

    def flagloop(self, lid):
        """The loop never ends early."""
        if lid not in self.flags:
            self.flags[lid] = self._flagloop(lid)
        return self.flags[lid]

    def _flagloop(self, lid):
        for r in self.recs:
            for e in r.events():
                if e.kind in ('exit', 'leave') and lid_of(e) == lid:
                    for z in self.ll[lid]:
                        if e.kind == 'leave' or e.facts.decide(
                                mk('eq', z.phi, ZERO)) is not True:
                            return False
        return True

    def looks(self, lid, z):
        """The loop does nothing but look for entries that are not
        discarded."""
        for r, y in self.back.get(lid, ()):
            if any(q.kind in ('call', 'store') for q in y[1]):
                return False
        return True

    def wiped(self, r, x, env, g, fin):
        """Is the node discarded at the end? Checks the reason."""
        if isinstance(fin, set):
            gone = {self.b.np(v) for v in fin}
        else:
            gone = fin
        p = val(env, x.p)
        if gone == {True}:
            ok = p == self.e['BPOL_none']
            self.need(ok, r, 'found path with a policy is discarded')
            if ok:
                ev = self.evidence(r, x)
                nosub = g.decide(mk('eq', self.final(
                    r, mk('fld', ptr_loc(x.node), 'subnodes')), ZERO))
                self.need(ev in (False, 'flag') or nosub is True, r,
                          'directory without policy is discarded although '
                          'entries below it may be needed')
            return True
        if p == self.e['BPOL_none']:
            ev = self.evidence(r, x)
            self.need(ev in (True, 'flag'), r, 'path without policy is kept '
                      'although nothing below it is needed')
        return False

    def new(self, r, x, env, g):
        it, e = self.it, self.e
        L = ptr_loc(self.n.list)
        node = last_store(it, r.events(), L)
        ok = node is not None and isfresh(node)
        self.need(ok, r, 'new path does not become part of the tree')
        if not ok:
            return
        x.node = node
        N = ptr_loc(node)
        old = self.final(r, mk('fld', N, 'next'))
        self.need(vloc(old) is L, r, 'new path replaces others in the list')
        self.need(strval(self.final(r, mk('fld', N, 'path'))) is x.path, r,
                  'new node has another path than the one found')
        self.added(r, x, env, g, N)

    def added(self, r, x, env, g, N):
        e = self.e
        fin = g.values(self.final(r, mk('fld', N, 'hint')))
        if fin is None:
            self.need(False, r, 'hint of a new path is unclear')
            return
        if not self.wiped(r, x, env, g, fin):
            self.need({nopol(self.s, v) for v in fin} == {e['BH_added']}, r,
                      'new path is not marked as added')
        self.need(self.final(r, mk('fld', N, 'policy')) is x.p or
                  g.values(self.final(r, mk('fld', N, 'policy'))) ==
                  {val(env, x.p)}, r, 'new path gets another policy')
        v = self.final(r, mk('fld', N, 'history'))
        self.fresh_point(r, x, v, val(env, x.rt), ZERO, 'new path')

    def again(self, r, x, env, g):
        self.added(r, x, env, g, x.N)

    def known(self, r, x, env, g, changed, head, t, rest):
        e, it, b = self.e, self.it, self.b
        p0, p, rt = val(env, x.p0), val(env, x.p), val(env, x.rt)
        track = p == e['BPOL_track']
        same_policy = self.final(r, mk('fld', x.N, 'policy'))
        self.need(same_policy is x.p or g.values(same_policy) == {p}, r,
                  'node keeps another policy than the one it was found '
                  'with')
        pol = (e['BH_policy_changed'] if changed else 0) | (
            e['BH_loses_history'] if rest else 0)
        fin = self.final(r, mk('fld', x.N, 'hint'))
        hist = self.final(r, mk('fld', x.N, 'history'))
        if rest:
            nx = self.final(r, mk('fld', ptr_loc(head), 'next'))
            self.need(nx is ZERO, r, 'leaving the track policy keeps old '
                      'states')
        if track and t == e['PST_non_existing']:
            vs = g.values(fin)
            self.need(vs == {e['BH_added']}, r, 'path that exists again is '
                      'not marked as added')
            self.fresh_point(r, x, hist, rt, x.hist, 'path exists again')
            return
        trans = self.n.change.get((t, rt))
        if trans is not None:
            vs = g.values(fin)
            if vs is None:
                self.need(False, r, 'hint of a replaced path is unclear')
                return
            if not self.wiped(r, x, env, g, vs):
                self.need(vs == {trans | pol}, r, lambda: '%s replaced by '
                          '%s gets the hint %s' % (
                              self.tn(t), self.sn(rt), '/'.join(
                                  h2s(self.s.p, v) for v in sorted(vs))))
            if track:
                self.fresh_point(r, x, hist, rt, head, 'replaced path')
                return
            self.need(hist is head, r, 'history of a path without track '
                      'policy grows')
            H = ptr_loc(head)
            self.need(current(it, self.final(r, mk('fld', H, 'backup'))), r,
                      'changed state does not belong to the current backup')
            if p != e['BPOL_none'] or rt == e['SRT_directory']:
                self.full_state(r, x, mk('fld', H, 'state'), rt,
                                'replaced path')
            return
        # same type: compared in detail
        ok = x.apply is not None and x.A is not None and \
            x.apply.args[1] is x.node and x.apply.args[3] is x.stats
        self.need(ok, r, 'path is not compared with its recorded state')
        if not ok:
            return
        H = ptr_loc(head)
        want = mk('init', mk('fld', H, 'state'))
        S = ptr_loc(x.apply.args[2])
        if track:
            self.need(S.op == 'var' or isfresh(loc_ptr(S)), r,
                      'recorded state is changed instead of a copy of it',
                      x.apply.node)
            v = x.apply.extra[1]
            self.need(v is want, r, 'path is compared with something else '
                      'than its recorded state', x.apply.node)
        else:
            self.need(S is mk('fld', H, 'state'), r, 'path is compared with '
                      'something else than its recorded state',
                      x.apply.node)
        polmask = e['BH_policy_changed'] | e['BH_loses_history']
        saved = False
        for a in sorted(g.domain(x.A)):
            if a & polmask != pol or b.np(a):
                continue
            g2 = g.restrict(x.A, a)
            if g2 is None:
                continue
            vs = g2.values(fin)
            if vs is None:
                self.need(False, r, 'hint of a compared path is unclear')
                return
            differs = nopol(self.s, a) != 0
            if not (p == e['BPOL_none'] and {b.np(v) for v in vs} ==
                    {True}):
                self.need(vs == {a} or a == 0 and vs == {e['BH_unchanged']},
                          r, lambda: 'compared path with changes %s gets '
                          'the hint %s' % (h2s(self.s.p, a), '/'.join(
                              h2s(self.s.p, v) for v in sorted(vs))))
                self.need(not (a == 0 and vs == {0}), r, 'unchanged path '
                          'looks as if it was not found')
            if not saved:
                self.wiped(r, x, env, g2, vs)
                saved = True
            if track:
                if differs:
                    self.fresh_point(r, x, hist, None, head, 'changed path')
                    if isfresh(hist):
                        st = self.final(r, mk('fld', ptr_loc(hist),
                                              'state'))
                        self.need(vloc(st) is S and st.op == 'hv' and
                                  st.args[1] is x.apply.res or
                                  ptr_loc(hist) is loc_parent(S), r,
                                  'new state is not the compared one')
                else:
                    self.need(hist is head, r, 'history grows without a '
                              'change')
            else:
                self.need(hist is head, r, 'history of a path without track '
                          'policy grows')
                bk = self.final(r, mk('fld', H, 'backup'))
                if differs or p == e['BPOL_none']:
                    self.need(current(it, bk), r, 'changed state does not '
                              'belong to the current backup')
                else:
                    self.need(bk is mk('init', mk('fld', H, 'backup')), r,
                              'unchanged state moves to another backup')

    def tn(self, v):
        return [n for n, x in self.e.items() if n.startswith('PST_') and
                x == v][0]

    def sn(self, v):
        return [n for n, x in self.e.items() if n.startswith('SRT_') and
                x == v][0]


def loc_parent(l):
    return l.args[0] if l.op == 'fld' else None


# ----------------------------------------------------------- not found
class Below:
    """Checks of the loops that treat the entries below a path which were
    not found."""

    def __init__(self, chk, s, b, f, it, recs):
        self.chk, self.s, self.b, self.f = chk, s, b, f
        self.it, self.recs, self.e = it, recs, b.e
        self.ll, self.seen, self.eff = sub_loops(b, it, recs, f)
        self.polmask = b.e['BH_policy_changed'] | b.e['BH_loses_history']
        self.back = {}
        for r in recs:
            if r.kind == 'back':
                for x in iterations(r):
                    if x[3] is r.events()[-1]:
                        self.back.setdefault(x[0], []).append((r, x))
        self.memo = {}
        self.match_loops, self.ignore_loops = set(), set()
        # loops nested in the treatment of another node
        inner = set()
        for r in recs:
            open_ = []
            for q in r.events():
                if q.kind == 'loop':
                    l = lid_of(q)
                    if any(o in {k[0] for k in self.eff} and
                           self.over_child(o, l) for o in open_):
                        inner.add(l)
                    open_.append(l)
                elif q.kind in ('exit', 'back', 'leave') and open_:
                    open_.pop()
        self.inner = inner

    def over_child(self, outer, lid):
        """Loop lid walks the subnodes of the cursor of the outer loop."""
        zs = [z.phi for (l, p), z in self.seen.items() if l == outer]
        for (l, p), z in self.seen.items():
            if l == lid:
                for v in z.entry:
                    loc = vloc(v)
                    if loc is not None and loc.op == 'fld' and \
                            loc.args[1] == 'subnodes' and \
                            loc_ptr(loc.args[0]) in zs:
                        return True
        return False

    # ---- what is done to one entry
    def calls(self, evs, S):
        """wipe, remove or wipe1 with the event, once."""
        out = []
        for k, q in self.b.effects(self.it, evs, S):
            if k == 'wipe1' and any(x[0] == 'wipe1' for x in out):
                continue
            out.append((k, q))
        return out

    def touched(self, evs, S):
        """Anything below S is stored to or S is handed to a function."""
        L = ptr_loc(S)
        for q in evs:
            if q.kind == 'store':
                for l, v in flat(self.it, q):
                    if under(l, L):
                        return True
            elif q.kind == 'call' and any(a is S for a in q.args):
                return True
        return False

    # ---- matching
    def inner_loops(self, evs, ty):
        """[(lid, cursor, entry, end event)] of complete loops over lists
        of a type in the iteration."""
        out, st = [], []
        for q in evs:
            if q.kind == 'loop':
                st.append(q)
            elif q.kind in ('exit', 'leave', 'back'):
                if not st:
                    continue
                lev = st.pop()
                for z in self.ll.get(lid_of(q), ()):
                    v = entry_of(lev, z)
                    t = (z.phi.ty or (v.ty if v is not None else '') or
                         '').replace('const ', '')
                    if t.startswith(ty):
                        out.append((lid_of(q), z.phi, v, q))
        return out

    def truth(self, facts, name, *args):
        """Value of a call of a pure function in facts."""
        for q in facts.dom:
            if q.op == 'pure' and q.args[0] == name and (
                    tuple(q.args[1]) == args or name == 'strIsEqual' and
                    tuple(q.args[1]) == args[::-1]):
                d = facts.domain(q)
                if 0 not in d:
                    return True
                if d == {0}:
                    return False
        return None

    def matches(self, facts, M, S):
        tail = mk('fieldof', mk('pure', 'strSplitPath',
                                (initf(S, 'path'),)), 'tail')
        rx = initf(M, 'regex')
        d = facts.decide(mk('eq', rx, ZERO))
        if d is False:
            return self.truth(facts, 'sRegexIsMatching', rx, tail)
        if d is True:
            return self.truth(facts, 'strIsEqual', initf(M, 'name'), tail)
        return None

    def outcome(self, F, evs, S, snode, ignore):
        """(matched search node or None, known?, ignored or None)."""
        M, known, ign = None, False, None
        if isint(snode) or F.decide(mk('eq', snode, ZERO)) is True:
            known = True
        for lid, c, v, q in self.inner_loops(evs, 'SearchNode*'):
            if v is None or v is not initf(snode, 'subnodes'):
                continue
            d = q.facts.decide(mk('eq', c, ZERO))
            if d is True and q.kind != 'back':
                known = True
                self.match_loops.add(lid)
            elif self.matches(F, c, S) is True or \
                    self.matches(q.facts, c, S) is True:
                known, M = True, c
                self.match_loops.add(lid)
        for lid, c, v, q in self.inner_loops(evs, 'RegexList*'):
            if v is not ignore:
                continue
            self.ignore_loops.add(lid)
            d = q.facts.decide(mk('eq', c, ZERO))
            if d is True and q.kind != 'back':
                ign = False
            elif self.truth(F, 'sRegexIsMatching', initf(c, 'regex'),
                            initf(S, 'path')) is True:
                ign = True
        return M, known, ign

    def inner_ok(self):
        """Entries that do not match are the only ones passed over."""
        for lids, what in ((self.match_loops, 'configured entry'),
                           (self.ignore_loops, 'ignore expression')):
            for lid in lids:
                for r, x in self.back.get(lid, ()):
                    ok = False
                    for z in self.ll[lid]:
                        for l2, c2 in ((k[0], k[1]) for k in self.eff):
                            if what == 'configured entry':
                                v = self.matches(r.facts, z.phi, c2)
                            else:
                                v = self.truth(
                                    r.facts, 'sRegexIsMatching',
                                    initf(z.phi, 'regex'),
                                    initf(c2, 'path'))
                            ok = ok or v is False
                    self.chk.need(ok, r.node, 'matching %s is passed over' %
                                  what, self.f)

    # ---- the three ways
    def required(self, r, x, S, ctx):
        """Problem with one iteration for entry S, or None."""
        evs, F = x[1], x[3].facts
        h0 = leaf(initf(S, 'hint'), 'BackupHint')
        F0 = F.restrict(h0, 0)
        mode = ctx['mode']
        acts = self.calls(evs, S)
        if mode != 'free':
            want = 'wipe' if mode == 'wipe' else 'remove'
            if [a[0] for a in acts] != [want]:
                return 'an entry below a path that is no directory any ' \
                    'more is not %s' % ('discarded' if want == 'wipe' else
                                        'marked as removed')
            if want == 'remove' and self.b.ext is not None:
                v = F.values(acts[0][1].args[self.b.ext])
                if v != {ctx['ext']}:
                    return 'wrong histories of entries below a path that ' \
                        'is no directory any more are extended'
            return None
        if F0 is None:
            if self.touched(evs, S):
                return 'an entry that was found is changed again'
            return None
        if F.domain(h0) != {0} and not acts:
            if any(v == 0 for v in F.domain(h0)):
                return 'it is not checked whether an entry was found'
        if F.domain(h0) != {0} and acts:
            return 'an entry is treated as missing although it may have ' \
                'been found'
        M, known, ign = self.outcome(F, evs, S, ctx['snode'], ctx['ignore'])
        if not known:
            return 'a missing entry is handled without looking for its ' \
                'own policy'
        if M is not None:
            return self.gone(r, x, S, initf(M, 'policy'), F0)
        out = None
        none = self.e['BPOL_none']
        p = leaf(ctx['policy'], 'BackupPolicy')
        for pv in sorted(F0.domain(p)) if not isint(p) else [p.args[0]]:
            if pv > self.e['BPOL_track'] or ctx.get('pv', pv) != pv:
                continue
            g = F0 if isint(p) else F0.restrict(p, pv)
            if g is None:
                continue
            if pv == none or ign is True:
                if [a[0] for a in acts] != ['wipe']:
                    out = 'a missing entry without policy is not discarded' \
                        if pv == none else 'a missing ignored entry is ' \
                        'not discarded'
            elif ign is None:
                out = 'a missing entry is handled without checking ' \
                    'whether it is ignored'
            else:
                out = self.gone(r, x, S, p, g)
            if out:
                return out
        return None

    def mentions(self, t, S):
        k = ('m', t, S)
        v = self.memo.get(k)
        if v is None:
            v = self.memo[k] = t is S or any(a is S for a in atoms(t))
        return v

    def gone(self, r, x, S, q, F):
        """Entry S with policy q was removed."""
        rel = [q]
        for d in (F.dom, F.iv):
            for t, v in d.items():
                if t is q or self.mentions(t, S):
                    rel.append((t, v))
        for (a, b), v in F.rel.items():
            if self.mentions(a, S) or self.mentions(b, S):
                rel.append((a, b, v, F.dom.get(a), F.dom.get(b)))
        k = (frozenset(rel), S, tuple((e.kind, e.name, e.args)
                                      for e in x[1]))
        if k not in self.memo:
            self.memo[k] = self._gone(r, x, S, q, F)
        return self.memo[k]

    def _gone(self, r, x, S, q, F):
        e, evs = self.e, x[1]
        y = type('R', (), {})()
        q = leaf(q, 'BackupPolicy')
        y.p0 = leaf(initf(S, 'policy'), 'BackupPolicy')
        y.p = q
        y.hist = initf(S, 'history')
        y.t0 = leaf(initf(y.hist, 'state', 'type'), 'PathStateType')
        y.next = initf(y.hist, 'next')
        y.tn = leaf(initf(y.next, 'state', 'type'), 'PathStateType')
        acts = self.calls(evs, S)
        kinds = [a[0] for a in acts]
        L = ptr_loc(S)
        for env, g in envs(F, y.p0, y.p, y.t0):
            if val(env, y.p) > e['BPOL_track'] or \
                    val(env, y.p0) > e['BPOL_track']:
                continue
            if val(env, y.p0) != e['BPOL_track']:
                if val(env, y.t0) == e['PST_non_existing']:
                    continue
                g = g.assume(mk('eq', y.next, ZERO), True)
                if g is None:
                    continue
            for g2, changed, head, t, rest in Found.heads(self, env, g, y):
                bad = self.gone_one(env, g2, changed, head, t, rest, y, S,
                                    L, acts, kinds, evs)
                if bad:
                    return bad
        return None

    def rest(self, g, head, t):
        return Found.rest(self, g, head, t)

    def gone_one(self, env, g, changed, head, t, rest, y, S, L, acts, kinds,
                 evs):
        e = self.e
        q = val(env, y.p)
        if q == e['BPOL_mirror']:
            return None if kinds == ['wipe'] else \
                'a removed mirrored entry is not discarded with everything' \
                ' below it'
        isdir = t == e['PST_directory']
        if q == e['BPOL_none']:
            nosub = g.decide(mk('eq', initf(S, 'subnodes'), ZERO))
            if not isdir or nosub is True:
                return None if kinds in (['wipe'], ['wipe1']) else \
                    'a removed entry without policy is not discarded'
            if nosub is None:
                return 'it is not checked whether something below a ' \
                    'removed entry without policy is needed'
        if kinds != ['remove']:
            return 'a removed entry is not marked as removed'
        c = acts[0][1]
        if self.b.ext is not None and \
                g.values(c.args[self.b.ext]) != {1}:
            return 'removal of an entry is not recorded in its history'
        pre = evs[:evs.index(c)]
        h = last_store(self.it, pre, mk('fld', L, 'hint'))
        want = (e['BH_policy_changed'] if changed else 0) | (
            e['BH_loses_history'] if rest else 0)
        hv = {0} if h is None else g.values(h)
        if hv != {want}:
            return 'change of policy of a removed entry is not noted'
        p = last_store(self.it, pre, mk('fld', L, 'policy'))
        if changed and (p is None or p is not y.p and
                        g.values(p) != {q}):
            return 'a removed entry does not get its new policy'
        if p is not None and p is not y.p and g.values(p) != {q}:
            return 'a removed entry gets another policy'
        hist = last_store(self.it, pre, mk('fld', L, 'history'))
        if (hist or y.hist) is not head:
            return 'latest state of a removed entry is not the one it had'
        nx = last_store(self.it, pre, mk('fld', ptr_loc(head), 'next'))
        if rest and nx is not ZERO:
            return 'a removed entry without track policy keeps old states'
        if not rest and nx is not None and nx is not ZERO:
            return 'older states of a removed entry change'
        return None

    # ---- loops of one node
    def wipes_all(self, lid, c):
        """Every entry in the loop gets discarded, and nothing else."""
        k = ('w', lid, c)
        if k not in self.memo:
            bs = self.back.get(lid, ())
            self.memo[k] = bool(bs) and all(
                [a[0] for a in self.calls(x[1], c)] == ['wipe']
                for r, x in bs)
        return self.memo[k]

    def complete(self, lid, c):
        k = ('c', lid, c)
        if k not in self.memo:
            # (an exit without cursor is that of an empty list)
            self.memo[k] = not any(
                x[0] == lid and x[2] in ('exit', 'leave') and
                c in dict(x[4].extra) and
                x[3].facts.decide(mk('eq', c, ZERO)) is not True
                for r in self.recs if r.kind != 'die'
                for x in iterations(r))
        return self.memo[k]


def sub_entry(v, N):
    """v is the list of subnodes of the node at N."""
    l = vloc(v) if v is not None else None
    while l is None and v is not None and v.op == 'hv':
        l = v.args[0]
    return l is mk('fld', N, 'subnodes')


def below(chk, s):
    chk.begin('below',
              'Entries below a path which were not found are discarded, '
              'kept or marked as removed as the policy demands that applies '
              'to them; all of them are looked at.')
    F = handled(chk, s)
    b = F.b
    W = Below(chk, s, b, F.f, F.it, F.recs)
    e, it = b.e, F.it
    chk.count(it, F.recs)
    ig = [a for a in it.args if (a.ty or '').replace(
        'const ', '').startswith('RegexList*')]
    if len(ig) != 1:
        raise AnalysisError('no list of ignore expressions')
    tr = {e['BH_directory_to_regular'], e['BH_directory_to_symlink']}
    good, wipes = set(), set()
    n = 0
    cands = [(lid, z) for (lid, c), z in W.eff.items()
             if lid not in W.inner]
    for lid, z in cands:
        c = z.phi
        probs = {}
        for r, x in W.back.get(lid, ()):
            R = F.names(r)
            if R is None or R.node is None:
                continue
            if R.isnew:
                node = last_store(it, r.events(), ptr_loc(F.n.list))
                if node is None:
                    continue
                N = ptr_loc(node)
            else:
                N = R.N
            for ctx in contexts(F, r, x, R, N, tr, ig[0]):
                n += 1
                p = W.required(r, x, c, ctx)
                if p:
                    probs.setdefault(p, r)
        if not probs and W.complete(lid, c):
            good.add(lid)
        if W.wipes_all(lid, c) and W.complete(lid, c):
            wipes.add(lid)
        elif probs:
            for p, r in sorted(probs.items(), key=lambda q: q[0]):
                chk.need(False, r.node, p, F.f)
        if not W.complete(lid, c):
            chk.need(False, None, 'entries below a path are skipped', F.f)
    chk.anchor(n, 'entries below found paths')
    W.inner_ok()
    m = 0
    for r in F.recs:
        if not is_ret(r):
            continue
        R = F.names(r)
        if R is None or R.get is None:
            continue
        d = set(r.facts.domain(R.rt)) & set(F.n.srt)
        if not d:
            continue
        m += 1
        if R.isnew:
            node = last_store(it, r.events(), ptr_loc(F.n.list))
            if node is None:
                continue
            N = ptr_loc(node)
        else:
            N = R.N
        loops = []
        for lid, evs, how, end, lev, i in F.iters[r]:
            for z in W.ll.get(lid, ()):
                if (lid, z.phi) in W.eff and \
                        sub_entry(entry_of(lev, z), N):
                    loops.append((i, lid, z))
        rec = [i for i, q in enumerate(r.events()) if q.kind == 'call' and
               q.extra == F.f.key]
        after = max(rec) if rec else -1
        last = [l for l in loops if l[0] > after and l[1] in good]
        nosub = r.facts.decide(mk('eq', it.read_plain(
            r.st, mk('fld', N, 'subnodes')), ZERO)) is True
        chk.need(bool(last) or nosub, r.node, 'entries which do not exist '
                 'any more are not handled', F.f)
        t = max(l[0] for l in last) if last else None
        ws = [l for l in loops if l[0] != t]
        if R.isnew:
            chk.need(not ws, r.node, 'entries below a new path are '
                     'discarded', F.f)
            continue
        for env, g, kind in F.cases(r, R):
            if kind == 'discarded':
                continue
            for g2, changed, head, ty, rest in F.heads(env, g, R):
                must = changed and val(env, R.p0) == e['BPOL_track'] and \
                    ty != e['PST_directory']
                if must:
                    chk.need(any(l[1] in wipes for l in ws) or nosub or
                             any(l[1] in wipes for l in last),
                             r.node, 'entries that existed only in the '
                             'dropped history of a path are kept', F.f)
                else:
                    chk.need(not ws, r.node, 'entries below a path are '
                             'discarded although they are part of its '
                             'latest state', F.f)
    chk.anchor(m, 'found paths with entries below them')


def contexts(F, r, x, R, N, tr, ignore):
    """The situations in which an entry below a found path is handled."""
    e, it = F.e, F.it
    f = x[3].facts
    hv = f.values(it.read_plain(r.st, mk('fld', N, 'hint')))
    hist = it.read_plain(r.st, mk('fld', N, 'history'))
    ty = leaf(it.read_plain(r.st, mk('fld', mk(
        'fld', ptr_loc(hist), 'state'), 'type')), 'PathStateType')
    tys = f.values(ty) or set(e[y] for q, y in TYPES)
    kinds = {nopol(F.s, v) in tr for v in hv} if hv else {True, False}
    for pv in sorted(f.domain(R.p)):
        if pv > e['BPOL_track']:
            continue
        for k in kinds:
            if k:
                if pv in (e['BPOL_none'], e['BPOL_track']):
                    yield {'mode': 'remove',
                           'ext': int(pv == e['BPOL_track'])}
                else:
                    yield {'mode': 'wipe'}
                continue
            for t in sorted(tys):
                if pv == e['BPOL_track'] and t == e['PST_regular_file']:
                    yield {'mode': 'remove', 'ext': 0}
                else:
                    yield {'mode': 'free', 'snode': R.snode,
                           'policy': R.p, 'pv': pv, 'ignore': ignore}


def roots(chk, s):
    chk.begin('search-tree', 'The whole search is processed: directories '
              'until their end, everything until the end of the search; '
              'missing entries of the topmost directory are handled like '
              'all others.')
    F = handled(chk, s)
    b, e = F.b, F.e
    it = F.it
    chk.count(it, F.recs)
    n = 0
    li = F.n.li
    D, EOD, EOS = (e[x] for x in ('SRT_directory', 'SRT_end_of_directory',
                                  'SRT_end_of_search'))
    for r in F.recs:
        R = F.names(r)
        if R is None:
            continue
        cs = [q for q in r.events() if q.kind == 'call' and
              q.extra == F.f.key]
        d = r.facts.domain(R.rt)
        for c in cs:
            chk.need(d == {D}, c.node, 'search enters something that is no '
                     'directory', F.f)
            N = None
            if R.get is not None:
                if R.isnew:
                    node = last_store(it, r.events(), ptr_loc(F.n.list))
                    N = ptr_loc(node) if node is not None else None
                else:
                    N = R.N
            a = c.args[li]
            ok = N is not None and a.op == 'addr' and \
                a.args[0] is mk('fld', N, 'subnodes')
            chk.need(ok, c.node, 'entries of a directory are recorded '
                     'below another path', F.f)
            for i, (x, y) in enumerate(zip(c.args, it.args)):
                if i != li:
                    chk.need(x is y, c.node, 'entries of a directory are '
                             'handled with another %s' % (y.ty or
                                                          'argument'), F.f)
        if r.kind == 'back' and cs:
            last = iterations(r)
            x = [x for x in last if x[3] is r.events()[-1]][0]
            mine = [q for q in x[1] if q.kind == 'call' and
                    q.extra == F.f.key]
            if mine:
                v = r.facts.values(mine[-1].res)
                chk.need(v is not None and EOD not in v, r.node, 'search '
                         'goes on in a directory after its end', F.f)
        if is_ret(r) and D in d:
            n += 1
            v = r.facts.values(cs[-1].res) if cs else None
            chk.need(v == {EOD}, r.node, 'a directory is not processed up '
                     'to its end', F.f)
    chk.anchor(n, 'found directories')
    # topmost level
    f, it, recs = b.top
    chk.count(it, recs)
    W = Below(chk, s, b, f, it, recs)
    meta = it.args[param_index(f, 'Metadata*')]
    root = it.args[param_index(f, 'SearchNode*')]
    P = mk('fld', ptr_loc(meta), 'paths')
    good = set()
    ctx = {'mode': 'free', 'snode': root, 'policy': initf(root, 'policy'),
           'ignore': mk('init', ptr_loc(initf(root, 'ignore_expressions')))}
    n = 0
    for (lid, c), z in W.eff.items():
        if lid in W.inner:
            continue
        bad = False
        for r, x in W.back.get(lid, ()):
            n += 1
            p = W.required(r, x, c, ctx)
            chk.need(not p, r.node, p or '', f)
            bad = bad or p
        chk.need(W.complete(lid, c), None, 'topmost entries are skipped', f)
        good.add((lid, c))
    chk.anchor(n, 'topmost entries')
    W.inner_ok()
    n = 0
    for r in recs:
        evs = r.events()
        cs = [(i, q) for i, q in enumerate(evs) if q.kind == 'call' and
              q.extra == F.f.key]
        for i, c in cs:
            a = c.args[li]
            chk.need(a.op == 'addr' and a.args[0] is P, c.node,
                     'topmost entries are not recorded as such', f)
            news = [q for q in evs if q.kind == 'call' and
                    q.name == 'searchNew']
            chk.need(len(news) == 1 and news[0].args[0] is root and
                     any(x is news[0].res for x in c.args), c.node,
                     'another search is processed', f)
            chk.need(any(x is meta for x in c.args), c.node, 'search is '
                     'processed for another backup', f)
            chk.need(any(x is ctx['ignore'] for x in c.args), c.node,
                     'other ignore expressions are used for the backup', f)
        if r.kind == 'back' and cs:
            x = [x for x in iterations(r) if x[3] is evs[-1]][0]
            if any(q is cs[-1][1] for q in x[1]):
                v = r.facts.values(cs[-1][1].res)
                chk.need(v is not None and EOS not in v, r.node, 'search '
                         'goes on after its end', f)
        if not is_ret(r):
            continue
        n += 1
        v = r.facts.values(cs[-1][1].res) if cs else None
        chk.need(v == {EOS}, r.node, 'backup does not process the whole '
                 'search', f)
        done = False
        for lid, es, how, end, lev, i in iterations(r):
            for z in W.ll.get(lid, ()):
                if (lid, z.phi) in good and cs and i > cs[-1][0]:
                    v = entry_of(lev, z)
                    while v is not None and v.op == 'hv' and \
                            v.args[0] is not P:
                        v = None
                    done = done or v is not None and (
                        vloc(v) is P or v.op == 'hv')
        chk.need(done, r.node, 'missing topmost entries are not handled', f)
    chk.anchor(n, 'ways through initiateBackup()')


def found(chk, s):
    chk.begin('found-paths',
              'Every found path gets a node; what it is marked as, which '
              'policy and which states it has afterwards is exactly what '
              'old and new policy, recorded and found type and the '
              'comparison demand.')
    F = handled(chk, s)
    chk.count(F.it, F.recs)
    F.states()

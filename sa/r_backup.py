"""Rules about initiateBackup(): reference counts and node states."""
from core import *
from r_copy import iterations, nopol
from terms import sub

LINKS = ('backup', 'next', 'history', 'hint', 'policy', 'subnodes', 'state')


def flat(it, e):
    """[(location, value)] of a store, whole structs split up."""
    loc, v = e.args
    out = []

    def rec(l, x):
        if x.op == 'struct':
            for k, y in x.args[1]:
                rec(mk('fld', l, k), y)
        else:
            out.append((l, x))
    rec(loc, v)
    if len(out) == 1 and out[0][0] is loc and loc.op == 'at' and \
            it.is_struct((v.ty or '')):
        rec2 = it.p.records.get(v.ty)
        if rec2:
            for k, t in rec2[0]:
                out.append((mk('fld', loc, k), it.field_of(v, k, t)))
    return out


def isfresh(p):
    return p.op == 'res' and p.args[0] in (
        'CR_RegionAlloc', 'allocate', 'sMalloc', 'CR_RegionAllocUnaligned')


def under(k, locs):
    while True:
        if k in locs:
            return True
        if k.op == 'fld':
            k = k.args[0]
        elif k.op == 'at' and k.args[0].op in ('addr', 'decay'):
            k = k.args[0].args[0]
        else:
            return False


def linkslot(it, p, seen=()):
    """Does p always point to the link to the next element of a list?"""
    if p.op == 'addr':
        l = p.args[0]
        return l.op == 'var' or l.op == 'fld' and l.args[1] in (
            'next', 'history', 'config_history')
    d = it.phis.get(p)
    return d is not None and (p in seen or all(
        linkslot(it, v, seen + (p,)) for v in d['entry'] | d['back']))


class Slice:
    """Reference count effects of a range of events of one record."""

    def __init__(self, ctx, r, lo, hi):
        self.ctx, self.r = ctx, r
        self.it = ctx.it
        self.deltas = []      # (count location, +1/-1, event)
        self.sets = []        # other stores to counts
        self.added = []       # (pointer to backup, event)
        self.dropped = []     # (test(pointer), text, event)
        self.lists = []       # (test(entry), text, event)
        self.declists = []    # (entry value, event)
        self.nodes = 0        # what total_path_count has to change by
        self.errors = []      # (event, text)
        self.late = []
        self.cur = {}
        self.work(lo, hi)

    # ------------------------------------------------------------ reading
    def value(self, loc):
        v = self.cur.get(loc)
        return v

    def isvalue(self, loc):
        """Test for 'is the value of loc at this moment'."""
        v = self.cur.get(loc)
        if v is not None:
            return lambda x: x is v
        return lambda x: vloc(x) is loc

    def work(self, lo, hi):
        evs = self.r.events()
        for i, e in enumerate(evs):
            if i >= hi:
                break
            live = i >= lo
            if e.kind == 'call' and isinstance(e.extra, str) and \
                    e.extra in self.ctx.recs:
                ls = {ptr_loc(a) for a in e.args}
                self.cur = {k: v for k, v in self.cur.items()
                            if not under(k, ls)}
            if e.kind == 'loop' and live:
                for z in self.ctx.dec.get(lid_of(e), ()):
                    self.declists.append((dict(e.extra).get(z.phi), e))
            if e.kind == 'store':
                for loc, v in flat(self.it, e):
                    if live:
                        self.store(e, loc, v)
                    self.cur[loc] = v
        for fn in self.late:
            fn()

    def fact(self, t):
        return self.r.facts.decide(t)

    def store(self, e, loc, v):
        if loc.op != 'fld':
            return
        f, o = loc.args[1], loc.args[0]
        if f in ('ref_count', 'total_path_count'):
            self.count(e, loc, v)
        elif f == 'backup':
            x = loc_ptr(o)
            if not isfresh(x):
                self.dropped.append((self.isvalue(loc), 'the backup the '
                                     'point belonged to', e))
            self.added.append((v, e))
            if isfresh(x) and x not in self.ctx.unlinked_ok:
                self.late.append(lambda: self.linked(x, e))
        elif f == 'history':
            self.history(e, loc, o, v)
        elif f == 'next':
            self.next(e, loc, o, v)
        elif f == 'hint':
            self.hint(e, loc, o, v)

    def count(self, e, loc, v):
        c = None
        p = self.cur.get(loc)
        if p is not None:
            d = sub(v, p)
            c = d.args[0] if isint(d) else None
        if c is None and v.op != 'int':
            k, parts = lin_parts(v)
            if len(parts) == 1:
                (t, n), = parts.items()
                if n == 1 and vloc(t) is loc:
                    c = k
        if c is None:
            self.sets.append((loc, v, e))
        elif c:
            self.deltas += [(loc, 1 if c > 0 else -1, e)] * abs(c)

    def linked(self, x, e):
        """The new point x has to become part of a history."""
        for ev in self.r.events():
            if ev.kind == 'store':
                for loc, v in flat(self.it, ev):
                    if v is x and loc.op == 'fld' and loc.args[1] in (
                            'history', 'next', 'config_history'):
                        return
                    if v is x and loc.op == 'at' and loc.args[1] is ZERO \
                            and linkslot(self.it, loc.args[0]):
                        return
        if self.r.kind == 'ret' and self.r.val is x:
            return
        for p, v in self.backs():
            if v is x:
                return
        if self.r.kind != 'die':
            self.errors.append((e, 'a history point counts for a backup but '
                                'becomes part of no history'))

    def backs(self):
        for e in self.r.events():
            if e.kind == 'back':
                yield from e.extra

    def final(self, loc):
        v = None
        for ev in self.r.events():
            if ev.kind == 'store':
                for l, x in flat(self.it, ev):
                    if l is loc:
                        v = x
        return v

    def isnode_new(self, o):
        return isfresh(loc_ptr(o))

    def discarded(self, o):
        """Node o is known not to be part of the repository before."""
        h = mk('init', mk('fld', o, 'hint'))
        h.ty = h.ty or 'BackupHint'
        d = self.r.facts.domain(h)
        return d is not None and all(
            nopol(self.ctx.s, x) == self.ctx.gone for x in d)

    def history(self, e, loc, o, v):
        old = self.cur.get(loc)
        test = self.isvalue(loc)
        if self.isnode_new(o) and old is None:
            if isfresh(v):
                self.late.append(lambda: self.ends(v, e))
            return
        if test(v):
            return
        if isfresh(v):
            def later():
                n = self.final(mk('fld', ptr_loc(v), 'next'))
                if n is not None and test(n):
                    return
                if self.discarded(o):
                    self.ends(v, e)
                    return
                if n is not None and n is ZERO:
                    self.lists.append((test, 'the replaced history', e))
                else:
                    self.errors.append((e, 'the new history point is not '
                                        'followed by the old history'))
            self.late.append(later)
            return
        l = vloc(v)
        if l is not None and l.op == 'fld' and l.args[1] == 'next':
            p = loc_ptr(l.args[0])
            if test(p):
                b = self.isvalue(mk('fld', l.args[0], 'backup'))
                self.dropped.append((b, 'the backup of the point taken off '
                                     'the history', e))
                return
        if v is ZERO:
            self.lists.append((test, 'the deleted history', e))
            return
        self.errors.append((e, 'history replaced by something that is not '
                            'derived from it'))

    def ends(self, v, e):
        n = self.final(mk('fld', ptr_loc(v), 'next'))
        if n is not ZERO and not (n is not None and self.ctx.listed(n)):
            self.errors.append((e, 'the only point of a new history has no '
                                'defined end'))

    def next(self, e, loc, o, v):
        x = loc_ptr(o)
        if isfresh(x) or not self.ctx.ispoint(x, self):
            return
        old = self.cur.get(loc)
        if old is None:
            i = mk('init', loc)
            if self.fact(mk('eq', i, ZERO)) is True:
                old = ZERO
        if old is ZERO or self.isvalue(loc)(v):
            if isfresh(v) or v is ZERO or self.isvalue(loc)(v) or \
                    v.op == 'res' or v is old:
                return
        if v is ZERO:
            self.lists.append((self.isvalue(loc), 'the points cut off', e))
            return
        if self.ctx.loading:
            return
        self.errors.append((e, 'history points relinked'))

    def hint(self, e, loc, o, v):
        old = self.cur.get(loc)
        if old is None:
            if self.isnode_new(o):
                self.nodes += 1
                return
            old = mk('init', loc)
            old.ty = old.ty or 'BackupHint'
        fs = self.r.facts
        ls = finleaves(v)[0] | finleaves(old)[0]
        # the same leaf may be the value after a call
        seen = set()
        for env in env_values(fs, sorted(ls)):
            a, b = evalterm(old, env), evalterm(v, env)
            if a is None or b is None:
                seen.add(None)
            else:
                g = self.ctx.gone
                seen.add((nopol(self.ctx.s, a) == g,
                          nopol(self.ctx.s, b) == g))
        if None in seen:
            self.errors.append((e, 'state of the node is unclear'))
            return
        moves = {x for x in seen if x[0] != x[1]}
        if not moves:
            return
        if len(seen) > 1:
            self.errors.append((e, 'node discarded or added although it may '
                                'have been before'))
            return
        if moves == {(False, True)}:
            self.nodes -= 1
            self.lists.append((self.isvalue(mk('fld', o, 'history')),
                               'the history of the discarded node', e))
        else:
            self.nodes += 1

    # ----------------------------------------------------------- matching
    def report(self, bad):
        for e, t in self.errors:
            bad(e.node, t)
        plus = [(l, e) for l, d, e in self.deltas
                if d > 0 and l.args[1] == 'ref_count']
        minus = [(l, e) for l, d, e in self.deltas
                 if d < 0 and l.args[1] == 'ref_count']
        for b, e in self.added:
            want = mk('fld', ptr_loc(b), 'ref_count')
            k = next((x for x in plus if x[0] is want), None)
            if k is None:
                bad(e.node, 'a history point refers to a backup whose '
                    'reference count is not increased')
            else:
                plus.remove(k)
        for l, e in plus:
            bad(e.node, 'reference count increased without a reference')
        for test, text, e in self.dropped:
            k = next((x for x in minus if x[0].args[0].op == 'at' and
                      test(loc_ptr(x[0].args[0])) or
                      x[0].args[0].op != 'at' and
                      test(mk('addr', x[0].args[0]))), None)
            if k is None:
                bad(e.node, 'reference count of %s is not decreased' % text)
            else:
                minus.remove(k)
        for l, e in minus:
            bad(e.node, 'reference count decreased without dropping a '
                'reference')
        decl = list(self.declists)
        for test, text, e in self.lists:
            k = next((x for x in decl if x[0] is not None and test(x[0])),
                     None)
            if k is None:
                bad(e.node, 'reference counts of %s are not decreased' % text)
            else:
                decl.remove(k)
        for v, e in decl:
            if self.fact(mk('eq', v, ZERO)) is not True:
                bad(e.node, 'reference counts of a list are decreased '
                    'without dropping it')
        n = sum(d for l, d, e in self.deltas
                if l.args[1] == 'total_path_count')
        if n != self.nodes:
            e = next((e for l, d, e in self.deltas
                      if l.args[1] == 'total_path_count'), None)
            bad(e.node if e else None, 'number of paths changes by %d '
                'instead of %d' % (n, self.nodes))
        return self.sets


class Ctx:
    def __init__(self, s, it, recs, loading=False):
        self.s, self.it = s, it
        self.gone = s.p.enums['BH_not_part_of_repository']
        self.loading = loading
        self.unlinked_ok = ()
        self.recs = {e.extra for r in recs for e in r.events()
                     if e.kind == 'call' and isinstance(e.extra, str)}
        self.types = {}
        self.dec = {}
        self.find_dec(recs)

    def listed(self, t):
        return False

    def ispoint(self, x, sl):
        ty = x.ty or ''
        if ty.endswith('*') and 'void' not in ty:
            return ty.replace('const ', '') == 'PathHistory*'
        l = vloc(x)
        if l is not None and l.op == 'fld':
            if l.args[1] == 'history':
                return True
        for e in sl.r.events():
            if e.kind == 'store':
                for l, v in flat(self.it, e):
                    if l.op == 'fld' and l.args[1] == 'backup' and \
                            loc_ptr(l.args[0]) is x:
                        return True
        return False

    def find_dec(self, recs):
        """Loops that decrease the count of every element of a list."""
        ll = list_loops(self.it, recs)
        good = {}
        for r in recs:
            if r.kind != 'back':
                continue
            for lid, evs, how, end, lev, i in iterations(r):
                if how != 'back' or lid not in ll:
                    continue
                for z in ll[lid]:
                    good.setdefault((lid, z.phi), []).append(
                        self.decides(evs, z.phi))
        exits = {}
        for r in recs:
            for e in r.events():
                if e.kind in ('exit', 'leave') and lid_of(e) in ll:
                    for z in ll[lid_of(e)]:
                        if e.kind == 'leave' or e.facts.decide(
                                mk('eq', z.phi, ZERO)) is not True:
                            exits[(lid_of(e), z.phi)] = True
        for lid, zs in ll.items():
            for z in zs:
                g = good.get((lid, z.phi))
                if g and all(g) and (lid, z.phi) not in exits:
                    self.dec.setdefault(lid, []).append(z)

    def decides(self, evs, phi):
        n = 0
        for e in evs:
            if e.kind == 'call':
                return False
            if e.kind != 'store':
                continue
            loc, v = e.args
            if loc.op != 'fld' or loc.args[1] != 'ref_count' or \
                    loc.args[0].op != 'at':
                return False
            b = loc_ptr(loc.args[0])
            if vloc(b) is not mk('fld', ptr_loc(phi), 'backup'):
                return False
            k, parts = lin_parts(v)
            if k != -1 or len(parts) != 1 or \
                    vloc(next(iter(parts))) is not loc:
                return False
            n += 1
        return n == 1


def counts(chk, s):
    chk.begin('reference-counts',
              'While a backup is prepared, every reference from a history '
              'point to a backup that appears or goes away changes the '
              "backup's reference count by one, no other change is made to "
              'it, and the number of paths follows the nodes that are added '
              'and discarded.')
    import r_policy
    n = 0
    for f, it, recs in r_policy.closure(s):
        chk.count(it, recs)
        c = Ctx(s, it, recs)
        done = set()
        for r in recs:
            if r.kind == 'die':
                continue
            evs = r.events()
            lo = 0
            if r.kind == 'back':
                its = [x for x in iterations(r) if x[3] is evs[-1]]
                lo = its[0][5]
                if its[0][0] in c.dec:
                    continue
            n += 1
            sl = Slice(c, r, lo, len(evs))

            def bad(node, msg):
                chk.need(False, node or r.node, msg, f)
            chk.need(True, r.node, '', f)
            for loc, v, e in sl.report(bad):
                bad(e.node, 'count is set to an unrelated value')
    chk.anchor(n, 'paths of initiateBackup()')


def load_counts(chk, s):
    chk.begin('loaded-counts',
              'While metadata is loaded, all reference counts start at zero '
              'and every history point increases the count of its backup '
              'exactly once; new metadata counts nothing.')
    import r_meta
    n = 0
    for f, it, recs in r_meta.closure(s):
        chk.count(it, recs)
        c = Ctx(s, it, recs, True)
        for r in recs:
            if r.kind == 'die':
                continue
            evs = r.events()
            lo = 0
            if r.kind == 'back':
                lo = [x for x in iterations(r) if x[3] is evs[-1]][0][5]
            n += 1
            sl = Slice(c, r, lo, len(evs))
            sl.nodes = 0

            def bad(node, msg):
                chk.need(False, node or r.node, msg, f)
            chk.need(True, r.node, '', f)
            for loc, v, e in sl.report(bad):
                if loc.args[1] == 'total_path_count':
                    continue
                if v is not ZERO:
                    bad(e.node, 'reference count starts with something '
                        'else than zero')
                    continue
                for x in evs:
                    if x is e:
                        break
                    if any(x is d[2] for d in sl.deltas) or \
                            x.kind == 'call' and x.extra in c.recs:
                        bad(e.node, 'reference count is reset after '
                            'references were counted')
                        break
            if r.kind == 'back':
                idx = fields = None
                ev = evs[lo:]
                ids = {e.args[0].args[0] for e in ev if e.kind == 'store' and
                       e.args[0].op == 'fld' and
                       e.args[0].args[1] == 'completion_time'}
                for o in ids:
                    chk.need(any(e.kind == 'store' and any(
                        l is mk('fld', o, 'ref_count') and v is ZERO
                        for l, v in flat(it, e)) for e in ev), r.node,
                        'reference count of a loaded backup is not '
                        'initialised', f)
        if f.name == 'metadataLoad':
            for r in recs:
                if is_ret(r):
                    initial(chk, it, f, r)
    chk.anchor(n, 'paths of metadataLoad()')
    f, it, recs = s.run('metadataNew')
    chk.count(it, recs)
    for r in recs:
        if is_ret(r):
            initial(chk, it, f, r)
            chk.need(final_of(it, r, r.val, 'total_path_count') is ZERO,
                     r.node, 'number of paths of new metadata is not zero',
                     f)


def final_of(it, r, p, *fs):
    l = ptr_loc(p)
    for x in fs:
        l = mk('fld', l, x)
    return it.read_plain(r.st, l)


def initial(chk, it, f, r):
    v = final_of(it, r, r.val, 'current_backup', 'ref_count')
    chk.need(v is ZERO or isint(v) is False and any(
        e.kind == 'store' and any(
            l is mk('fld', mk('fld', ptr_loc(r.val), 'current_backup'),
                    'ref_count') and x is ZERO for l, x in flat(it, e))
        for e in r.events()), r.node, 'references to the current backup do '
        'not start at zero', f)


def count_writers(chk, s):
    chk.begin('count-writers', 'Reference counts and the number of paths '
              'are changed by the analysed functions only.')
    import r_meta
    import r_policy
    ok = set()
    for f, it, recs in r_policy.closure(s) + r_meta.closure(s):
        ok |= it.analysed
    ok |= s.run('metadataNew')[1].analysed
    n = 0
    for f in s.p.funcs.values():
        for x in f.body.walk():
            if x.kind in ('BinaryOperator', 'CompoundAssignOperator') and \
                    x.op.endswith('=') and x.op not in ('==', '!=', '<=',
                                                        '>=') or \
                    x.kind == 'UnaryOperator' and x.op in ('++', '--', '&'):
                t = x.kids[0]
                while t.kind in ('ParenExpr', 'ImplicitCastExpr',
                                 'CStyleCastExpr'):
                    t = t.kids[0]
                if t.kind == 'MemberExpr' and t.name in (
                        'ref_count', 'total_path_count'):
                    n += 1
                    chk.need(f.key in ok, x, '%s is changed outside of '
                             'loading and preparing a backup' % t.name, f)
    chk.anchor(n, 'changes of counts')

"""Rules about the summary of changes (P26)."""
from core import *
import r_wrap

PRINTS = r_wrap.PRINTING | {'printHumanReadableSize', 'vsnprintf', 'snprintf',
                            'fflush'}


def m_noop(it, name, args, st, e):
    return [(st, ZERO)]


class Summary(Std):
    def __init__(self, prog):
        super().__init__(prog, expand=('printMetadataChanges',
                                       'containsChanges'))
        for n in PRINTS:
            self.models[n] = m_noop


COUNTS = [(x, 'affected_items_count') for x in (
    'new_items', 'removed_items', 'lost_items', 'changed_items')] + [
    ('changed_attributes',)]
FLAG = ('other_changes_exist',)


def fld(it, v, path, ty='ChangeSummary'):
    for f in path:
        v = it.field_of(v, f)
    return v


def summary(chk, s):
    chk.begin('summary-not-empty',
              'containsChanges() is true exactly if one of the numbers of '
              'changes is positive or other changes exist.')
    prog = s.p
    f, it, recs = s.run('containsChanges', policy=Summary)
    chk.count(it, recs)
    p = it.args[0]
    leaves = [initf(p, *x) for x in COUNTS + [FLAG]]
    n = 0
    for r in recs:
        if r.kind != 'ret':
            chk.need(False, r.node, 'containsChanges() may not return', f)
            continue
        for want in (True, False):
            g = split(r.facts, r.val, want)
            if g is None:
                continue
            n += 1
            for h in g:
                some = [h.decide(mk('eq', *order(l, ZERO))) is False or
                        h.decide(l) is True for l in leaves]
                none = [h.decide(mk('eq', *order(l, ZERO))) is True or
                        h.decide(l) is False for l in leaves]
                if want:
                    chk.need(any(some), r.node, 'reports changes although '
                             'there may be none', f)
                else:
                    bad = [show(l) for l, x in zip(leaves, none) if not x]
                    chk.need(not bad, r.node, lambda: 'reports no changes '
                             'without looking at ' + ', '.join(bad), f)
    chk.anchor(n, 'results')


def order(a, b):
    return (a, b) if a.id <= b.id else (b, a)


def split(facts, v, want):
    """Facts under which v is (not) true; list, or None if impossible."""
    if isint(v):
        return [facts] if bool(v.args[0]) == want else None
    if v.op == '|' and not want:
        out = [facts]
        for a in v.args:
            nxt = []
            for g in out:
                nxt += split(g, a, False) or []
            out = nxt
        return out or None
    if v.op == '|' and want:
        out = []
        for a in v.args:
            out += split(facts, a, True) or []
        return out or None
    g = facts.assume(v, want)
    return None if g is None else [g]


def tree(chk, s):
    chk.begin('changes-counted',
              'Every node of the list is visited and so is everything below '
              'it; whatever is found below is added up; and each node that '
              'is marked as added, removed, lost, replaced, changed or with '
              'a changed policy makes the summary non-empty (attributes of '
              'directories without policy aside), while unchanged nodes add '
              'nothing.')
    prog = s.p
    c = s.closure('printMetadataChanges', policy=Summary, key='summary')
    f0, it0, recs0 = c[0]
    heads = [x for x in c if x[0].key in
             {g.key for g in it0.rec_funcs.values()}]
    for f, it, recs in c:
        chk.count(it, recs)
    chk.anchor(heads, 'recursive counting of changes')
    names = {f.name for f, it, recs in c[1:]}
    # the entry hands out what was found for all paths
    for r in recs0:
        if r.kind != 'ret':
            continue
        cs = [e for e in r.events() if e.kind == 'call' and
              e.name in names]
        ok = any(any(a is initf(it0.args[0], 'paths') for a in e.args) and
                 r.val is not None and
                 all(fld(it0, r.val, x) is fld(it0, e.res, x)
                     for x in COUNTS + [FLAG]) for e in cs)
        chk.need(ok, r.node, 'the summary of all paths is not returned', f0)
    for f, it, recs in heads:
        one(chk, s, f, it, recs, names)


def one(chk, s, f, it, recs, names):
    prog = s.p
    rets = [r for r in recs if r.kind == 'ret']
    chk.anchor(rets, 'results of %s()' % f.name)
    fields = COUNTS + [FLAG]
    loops = list_loops(it, recs)
    lids = set()
    phis = None
    for r in rets:
        vals = [fld(it, r.val, x) for x in fields]
        if all(v in it.phis and 'lid' in it.phis[v] for v in vals):
            ls = {it.phis[v]['lid'] for v in vals}
            chk.need(len(ls) == 1, r.node, 'returns something else than '
                     'what was counted', f)
            lids |= ls
            phis = vals
            for v, x in zip(vals, fields):
                chk.need(all(z is ZERO for z in it.phis[v]['entry']),
                         r.node, '%s does not start with zero' %
                         '.'.join(x), f)
        else:
            bad = ['.'.join(x) for x, v in zip(fields, vals)
                   if v not in it.phis]
            empty = all(v is ZERO for v in vals) and any(
                p.ty and p.ty.endswith('*') and
                r.facts.decide(mk('eq', *order(p, ZERO))) is True
                for p in it.args)
            chk.need(empty, r.node, 'returns something else than what was '
                     'counted: ' + ', '.join(bad), f)
    chk.anchor(lids, 'counting loop')
    if len(lids) != 1:
        return
    lid = next(iter(lids))
    curs = [l for l in loops.get(lid, [])]
    chk.need(len(curs) == 1 and all(e in it.args for e in curs[0].entry),
             f.body, 'does not visit all nodes', f)
    if len(curs) != 1:
        return
    cur = curs[0].phi
    for r, e in loop_exits_at_end(recs, cur, lid):
        chk.need(False, e.node or r.node, 'leaves the list of nodes early',
                 f)
    hint, pol = initf(cur, 'hint'), initf(cur, 'policy')
    policy = prog.enums
    none = policy['BPOL_none']
    n = 0
    for r in recs:
        if r.kind == 'ret' and in_loop(r, lid):
            chk.need(False, r.node, 'leaves the list of nodes early', f)
        bl = [e for e in r.events() if e.kind == 'back']
        if r.kind != 'back' or not bl or lid_of(bl[-1]) != lid:
            continue
        n += 1
        sub_ = [e for e in r.events() if e.kind == 'call' and
                e.name in names]
        good = [e for e in sub_ if any(a is initf(cur, 'subnodes')
                                       for a in e.args)]
        if not chk.need(len(good) == 1 and len(sub_) == 1 or
                        skipped(r, cur, sub_),
                        (sub_ or bl)[-1].node or r.node,
                        'what lies below a node is not counted', f):
            continue
        below = good[0].res if good else None
        consts = 0
        for x, p in zip(COUNTS, phis):
            new = it.read(r.st, p.args[2])
            d = sub2(new, p)
            if below is not None:
                d = sub2(d, fld(it, below, x))
            c, parts = lin_parts(d)
            chk.need(c >= 0 and all(v > 0 for v in parts.values()),
                     r.node, lambda: '%s loses what was counted before or '
                     'below' % '.'.join(x), f)
            consts += max(c, 0)
            if parts:
                consts += 0
        p = phis[-1]
        new = it.read(r.st, p.args[2])
        bs = [p] + ([fld(it, below, FLAG)] if below is not None else [])
        for b in bs:
            v = value(r.facts, new, {b: 1})
            chk.need(v == 1, r.node, 'loses that other changes exist', f)
        own = consts > 0
        if not own:
            if restricted(r.facts, {b: 0 for b in bs}) is None:
                continue     # not empty anyway
            own = value(r.facts, new, {b: 0 for b in bs}) == 1
        hs, ps = r.facts.domain(hint) or (), r.facts.domain(pol) or ()
        for h in hs:
            if h < 0:
                continue
            for q in ps:
                if own and h > 1:
                    continue
                if not own and h <= 1:
                    continue
                env = {hint: h, pol: q}
                if restricted(r.facts, env) is None:
                    continue
                if own:
                    chk.need(False, r.node, 'unchanged nodes count as '
                             'change', f)
                elif q == none and h & ~0x70 == 0:
                    continue
                elif h & 0x1ff == prog.enums['BH_fresh_hash']:
                    continue
                else:
                    chk.need(False, r.node, lambda: 'a node marked %s does '
                             'not count as change' % h2s(prog, h), f)
        chk.need(True, r.node, '')
    chk.anchor(n, 'iterations')


def skipped(r, cur, calls):
    """Nothing below the node at all."""
    return not calls and r.facts.decide(
        mk('eq', *order(initf(cur, 'subnodes'), ZERO))) is True


def sub2(a, b):
    from terms import sub
    return sub(a, b)


def value(facts, t, env):
    f = restricted(facts, env)
    if f is None:
        return 1
    if isint(t):
        return int(t.args[0] != 0)
    v = evalterm(t, env)
    if v is not None:
        return int(v != 0)
    if t.op == '|':
        vs = [value(facts, x, env) for x in t.args]
        if 1 in vs:
            return 1
        return 0 if vs == [0, 0] else None
    d = f.decide(t)
    return None if d is None else int(d)


class MainC(Std):
    def __init__(self, prog):
        super().__init__(prog, expand=('containsChanges',))


def saved(chk, s):
    chk.begin('changes-saved',
              'A backup or restore which shows its changes only finishes '
              'without having saved or restored them if each number of '
              'changes is zero.')
    f, it, recs = s.run('main', policy=MainC)
    chk.count(it, recs)
    n = 0
    for r in recs:
        if r.kind != 'ret':
            continue
        evs = [e for e in r.events() if e.kind == 'call']
        names = [e.name for e in evs]
        pm = [e for e in evs if e.name == 'printMetadataChanges']
        for start, ends in (('initiateBackup', ('finishBackup',
                                                'metadataWrite')),
                            ('initiateRestore', ('finishRestore',))):
            if start not in names:
                continue
            n += 1
            if all(x in names for x in ends):
                continue
            if not chk.need(len(pm) == 1 and names.index(start) <
                            evs.index(pm[0]), evs[names.index(start)].node,
                            'the changes are not counted', f):
                continue
            bad = []
            for x in COUNTS + [FLAG]:
                l = fld(it, pm[0].res, x)
                if r.facts.decide(mk('eq', *order(l, ZERO))) is not True \
                        and r.facts.decide(l) is not False:
                    bad.append('.'.join(x))
            chk.need(not bad, pm[0].node, lambda: 'changes may be discarded '
                     'silently, not decided by: ' + ', '.join(bad), f)
    chk.anchor(n, 'commands with changes')

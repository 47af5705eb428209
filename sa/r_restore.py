"""Rules about restoring (src/restore.c)."""
from core import *
from engine import Ev

RIGHT = {1: 'file', 2: 'link', 3: 'dir'}
CHANGE = {5: ('file', 2), 6: ('file', 3), 7: ('link', 1), 8: ('link', 3),
          9: ('dir', 1), 10: ('dir', 2), 11: ('other', 1), 12: ('other', 2),
          13: ('other', 3)}
EFFECTS = {'sMkdir': 0, 'sSymlink': 1, 'restoreFile': 0, 'sChown': 0,
           'sLChown': 0, 'sChmod': 0, 'sUtime': 0, 'sRemove': 0,
           'sRemoveRecursively': 0, 'sRemoveRecursivelyIf': 0,
           'sRename': 1, 'sFopenWrite': 0, 'fDatasync': 0}
OWNER, PERM, TIME, CONTENT = 16, 32, 64, 128


class RestorePolicy(Std):
    mon0 = False

    def __init__(self, prog):
        super().__init__(prog)
        self.monitor = self.step

    @staticmethod
    def step(mon, ev, it):
        if ev.kind == 'fork' and ev.res is ONE:
            return True
        return mon


def state_base(t, *suffix):
    """PathState location B if t is the value (or address) of B.suffix."""
    l = vloc(t)
    if l is None:
        if t.op == 'addr':
            l = t.args[0]
        else:
            return None
    for f in reversed(suffix):
        if l.op != 'fld' or l.args[1] != f:
            return None
        l = l.args[0]
    return l


def hist_owner(X):
    return initf(X, 'history')


def selection(r, X, it):
    """State locations of X which path r selected:
    list of (kind, B) with kind 'first' or 'point'."""
    first = mk('fld', ptr_loc(hist_owner(X)), 'state')
    return first


def state_ok(facts, it, X, B, idterm, prog):
    """Is B the state of X that was current at the id?  '' or a message."""
    pol = initf(X, 'policy')
    first = mk('fld', ptr_loc(hist_owner(X)), 'state')
    track = prog.enums['BPOL_track']
    d = facts.domain(pol) or FINITE['BackupPolicy']
    if B is first:
        if d == {track}:
            # fine if the first point is not newer than the id
            bid = initf(initf(hist_owner(X), 'backup'), 'id')
            if facts.decide(mk('lt', bid, idterm)) is False:
                return ''
            return 'uses the latest state of a tracked path without ' \
                   'comparing its backup id'
        if track in d:
            return 'does not distinguish tracked paths'
        return ''
    if B.op != 'fld' or B.args[1] != 'state':
        return 'unknown state %s' % show(B)
    P = loc_ptr(B.args[0])
    if P.op != 'phi':
        return 'unknown state %s' % show(B)
    if d != {track}:
        return 'searches the history of a path that is not tracked'
    ph = it.phis[P]
    if ph['entry'] != {hist_owner(X)}:
        return 'search does not start at the latest state'
    for b in ph['back']:
        if fieldof(b, 'next') is not P:
            return 'search skips states'
    bid = initf(initf(P, 'backup'), 'id')
    if facts.decide(mk('lt', bid, idterm)) is not False:
        return 'selected state may be newer than the requested backup'
    # continues only over newer states
    for r in it.records:
        for e in r.events():
            if e.kind == 'back' and lid_of(e) == ph['lid']:
                if e.facts.decide(mk('lt', bid, idterm)) is not True:
                    return 'search passes over a suitable state'
    return ''


def restore_closure(s):
    return s.closure('finishRestore', RestorePolicy, 'restore')


def type_leaves(facts):
    out = []
    for l in facts.dom:
        c = fieldchain(l)
        if c[1] and c[1][-1] == 'type':
            out.append(l)
    return out


def base_of_values(evs):
    """State locations that the values of effects come from."""
    out = set()
    for e in evs:
        if e.name in ('sChown', 'sLChown'):
            out.add(state_base(e.args[1], 'uid'))
            out.add(state_base(e.args[2], 'gid'))
        elif e.name == 'sSymlink':
            out.add(state_base(strip_cstr(e.args[0]), 'metadata',
                               'symlink_target'))
        elif e.name == 'restoreFile':
            out.add(state_base(e.args[1], 'metadata', 'file_info'))
    return out


def find_state(r, X, it, evs):
    """The state location whose type was examined for X."""
    cands = []
    first = mk('fld', ptr_loc(hist_owner(X)), 'state')
    for l in r.facts.dom:
        b, c = fieldchain(l)
        if c and c[-1] == 'type':
            B = state_base(l, 'type')
            if B is first:
                cands.append(B)
            elif B.op == 'fld' and B.args[1] == 'state':
                P = loc_ptr(B.args[0])
                if P.op == 'phi' and P in it.phis and \
                        it.phis[P]['entry'] == {hist_owner(X)}:
                    cands.append(B)
    return cands


def simulate(chk, X, evs, env, h, p, t, B, r, childmon, retval, prog, ctx):
    """Follows the effects on one path; yields error messages."""
    pol_none = prog.enums['BPOL_none']
    h &= 0x1ff
    created_req = False
    if h == 2:
        kind = 'missing'
        created_req = True
    elif h in CHANGE:
        kind, tt = CHANGE[h]
        created_req = True
    else:
        kind = RIGHT[t]
    fl = h if h >= 16 else 0
    right = RIGHT[t]
    must_act = created_req or (p != pol_none and
                               fl & (OWNER | PERM | TIME | CONTENT))
    st = {'content': True, 'owner': True, 'perm': True, 'time': True}
    if created_req:
        for k in st:
            st[k] = False
    else:
        st['owner'] = not fl & OWNER
        st['perm'] = not fl & PERM
        st['time'] = not fl & TIME
        st['content'] = not fl & CONTENT
    entry = False
    modified = False
    errs = []
    info = {1: ('metadata', 'file_info'), 3: ('metadata', 'directory_info')}

    def val(v, *fields):
        return state_base(v, *fields) is B

    for e in evs:
        if e.kind == 'children':
            if childmon:
                st['time'] = False
            continue
        n = e.name
        a = e.args
        modified = True
        if n == 'sMkdir':
            if kind != 'missing':
                errs.append('creates a directory where a %s exists' % kind)
            kind, entry = 'dir', True
            st.update(content=True, owner=False, perm=False, time=False)
        elif n == 'sSymlink':
            if kind != 'missing':
                errs.append('creates a symlink where a %s exists' % kind)
            kind, entry = 'link', True
            st.update(owner=False, content=val(strip_cstr(a[0]), 'metadata',
                                               'symlink_target'))
        elif n == 'restoreFile':
            if kind not in ('missing', 'file'):
                errs.append('writes file content through an existing %s'
                            % kind)
            if kind == 'missing':
                entry = True
                st.update(owner=False)
            kind = 'file'
            st.update(content=val(a[1], 'metadata', 'file_info'),
                      perm=False, time=False)
        elif n in ('sChown', 'sLChown'):
            if kind == 'missing':
                errs.append('changes owner of a missing path')
            if n == 'sChown' and kind == 'link':
                errs.append('changes the owner of what a symlink points to')
            if n == 'sLChown' and kind == 'dir' and not entry:
                errs.append('changes the owner of a link instead of the '
                            'directory behind it')
            st['owner'] = val(a[1], 'uid') and val(a[2], 'gid')
            if kind == 'file':
                st['perm'] = False
        elif n == 'sChmod':
            if kind in ('missing', 'link'):
                errs.append('changes permissions of a %s' % kind)
            st['perm'] = t in info and val(a[1], *info[t],
                                           'permission_bits')
        elif n == 'sUtime':
            if kind in ('missing', 'link'):
                errs.append('sets timestamp of a %s' % kind)
            st['time'] = t in info and val(a[1], *info[t],
                                           'modification_time')
        elif n in ('sRemove', 'sRemoveRecursively'):
            if kind == 'missing':
                errs.append('removes a missing path')
            if kind == 'dir' and n == 'sRemove':
                errs.append('removes a directory which may not be empty')
            if not created_req and not (t == 2 and fl & CONTENT):
                errs.append('removes a path whose type did not change')
            kind, entry = 'missing', True
        else:
            errs.append('unexpected effect %s' % n)
    if modified and not must_act and not (
            evs and all(e.kind == 'children' or e.name == 'sUtime'
                        for e in evs) and childmon and t == 3 and
            p != pol_none):
        errs.append('modifies a path that is not to be restored')
    if must_act or childmon and t == 3 and p != pol_none:
        if kind != right:
            errs.append('leaves a %s where a %s was recorded' % (kind,
                                                                 right))
        else:
            if not st['content'] and t != 3:
                errs.append('content is not restored')
            if not st['owner']:
                errs.append('owner is not restored')
            if not st['perm'] and t != 2:
                errs.append('permissions are not restored (or a later step '
                            'clears them)')
            if not st['time'] and t != 2:
                errs.append('modification time is not restored (or a later '
                            'step changes it)')
    if retval is not None and bool(retval) != entry:
        errs.append('returns %s although the directory entry was %s' % (
            bool(retval), 'changed' if entry else 'not changed'))
    return errs


def impossible(h, t):
    low = h & 0xf
    if h & 0x1ff in (3, 4):
        return True
    if h & 0x600 or h & 256 and not h & CONTENT:
        return True
    if h in CHANGE and CHANGE[h][1] != t:
        return True
    if t == 2 and h >= 16 and h & (PERM | TIME):
        return True
    if t == 3 and h >= 16 and h & (CONTENT | 256):
        return True
    return False


def effects(chk, s):
    """P14: effects on every path."""
    chk.begin('restore-effects',
              'For every combination of hint, policy and recorded type, the '
              'sequence of effects on the path ends with the recorded type, '
              'content, owner, permissions and modification time; nothing is '
              'done to other paths; a change of the directory entry is '
              'reported to the parent.')
    prog = s.p
    found = 0
    for f, it, recs in restore_closure(s):
        chk.count(it, recs)
        ret_bool = f.ret in ('bool', '_Bool')
        ll = list_loops(it, recs)
        for r in recs:
            if r.kind == 'die':
                continue
            owners = set()
            for e in r.events():
                if e.kind == 'call' and e.name in EFFECTS:
                    X = path_owner(e.args[EFFECTS[e.name]])
                    chk.need(X is not None, e.node,
                             '%s on a path that is not the one of the '
                             'processed entry' % e.name, f)
                    owners.add(X)
        # the processed node: node parameter
        nodes = [a for a in it.args if a.op == 'param' and
                 a.ty and a.ty.startswith('PathNode*')]
        if not nodes or f.key == 'finishRestore':
            for r in recs:
                for e in r.calls(*EFFECTS):
                    chk.need(False, e.node, 'restores a path without going '
                             'through everything below it', f)
            continue
        X = nodes[0]
        ids = [a for a in it.args if a.ty in ('size_t', 'unsigned long')]
        hint, pol = initf(X, 'hint'), initf(X, 'policy')
        hint.ty = hint.ty or 'BackupHint'
        pol.ty = pol.ty or 'BackupPolicy'
        for r in recs:
            if r.kind == 'die':
                continue
            evs = []
            other = False
            for e in r.events():
                if e.kind == 'call' and e.name in EFFECTS:
                    Y = path_owner(e.args[EFFECTS[e.name]])
                    if Y is not X:
                        chk.need(False, e.node, '%s on a path other than '
                                 'the processed one' % e.name, f)
                    evs.append(e)
                elif e.kind == 'loop' and any(
                        z.entry == {initf(X, 'subnodes')}
                        for z in ll.get(lid_of(e), [])):
                    evs.append(e._replace(kind='children'))
            cands = find_state(r, X, it, evs)
            if r.kind == 'back':
                continue
            found += 1
            retval = None
            if ret_bool:
                if r.val is None or not isint(r.val):
                    v = r.facts.values(r.val) if r.val is not None else None
                    if v is None or len(v) != 1:
                        raise AnalysisError('return value %s unclear' %
                                            (r.val,))
                    retval = next(iter(v))
                else:
                    retval = r.val.args[0]
            if not cands:
                chk.need(not evs, evs[0].node if evs else r.node,
                         'effects without examining the recorded state', f)
                chk.need(not retval, r.node,
                         'reports a change without having changed anything',
                         f)
                continue
            B = cands[-1]
            used = base_of_values([e for e in evs if e.kind == 'call'])
            for b in used:
                if b is not B:
                    chk.need(False, evs[0].node,
                             'restores values of another state than the '
                             'selected one', f)
            tl = mk('init', mk('fld', B, 'type'))
            for env in env_values(r.facts, [tl]):
                t = env[tl]
                if t == 0:
                    chk.need(not evs, evs[0].node if evs else r.node,
                             'restores a path which did not exist', f)
                    continue
                for h in sorted(r.facts.domain(hint)):
                    if impossible(h, t):
                        continue
                    for p in sorted(r.facts.domain(pol)):
                        if p > 3 and p not in (
                                prog.enums['BPOL_copy'],
                                prog.enums['BPOL_mirror'],
                                prog.enums['BPOL_track']):
                            continue
                        rf = restricted(r.facts, {tl: t, hint: h, pol: p})
                        if rf is None:
                            continue
                        errs = simulate(chk, X, evs, env, h, p, t, B, r,
                                        r.st.mon, retval, prog, None)
                        last = [e for e in evs if e.kind == 'call']
                        chk.need(not errs, last[-1].node if last else
                                 r.node, lambda: '%s (hint %s, policy %d, '
                                 'recorded type %s)' % (
                                     '; '.join(errs), h2s(prog, h), p,
                                     RIGHT[t]), f)
                        # children of directories must have been visited
                        if t == 3:
                            chk.need(any(e.kind == 'children' for e in evs),
                                     r.node, 'entries of a directory are '
                                     'not restored (hint %s, policy %d)' % (
                                         h2s(prog, h), p), f)
    chk.anchor(found, 'recursive restoring of nodes')
    descent(chk, s, restore_closure(s), 'restore-descent')


def descent(chk, s, clo, rule):
    """Every entry of every processed directory is visited exactly once."""
    chk.begin(rule, 'Loops over the entries of a directory start at its '
              'first entry, advance one by one, end only behind the last '
              'entry, and hand every entry to the recursion once.')
    n = 0
    for f, it, recs in clo:
        ll = list_loops(it, recs)
        rec = {g.key for g in it.rec_funcs.values()}
        if f.key == 'finishRestore':
            chk.need(any(z.entry == {initf(it.args[0], 'paths')}
                         for loops in ll.values() for z in loops), f.body,
                     'does not go through the list of paths', f)
        for lid, loops in ll.items():
            for z in loops:
                src = {fieldchain(x)[1][-1:] for x in z.entry}
                if not src & {('subnodes',), ('paths',)} and \
                        not any(x.op == 'param' for x in z.entry):
                    continue
                if z.phi.ty not in ('PathNode*', None):
                    continue
                hit = False
                for r in recs:
                    for e in r.events():
                        if e.kind == 'call' and e.extra in rec and \
                                any(z.phi is a or mentions(a, z.phi)
                                    for a in e.args):
                            hit = True
                if not hit:
                    continue
                n += 1
                yield_check(chk, f, it, recs, z, rec)
    chk.anchor(n, 'loop over entries')


def yield_check(chk, f, it, recs, z, rec, skip_ok=None):
    node = it.loops[z.lid]
    for r, e in loop_exits_at_end(recs, z.phi, z.lid):
        # leaving early is fine only if nothing is left to do
        chk.need(False, node, 'leaves the loop over the entries early', f)
    chk.need(True, node, '', f)
    for r in recs:
        if r.kind == 'ret' and in_loop(r, z.lid):
            chk.need(False, r.node, 'returns while entries are left', f)
        if r.kind != 'back':
            continue
        evs = r.events()
        if not (evs[-1].kind == 'back' and lid_of(evs[-1]) == z.lid):
            continue
        k = max(i for i, e in enumerate(evs)
                if e.kind == 'loop' and lid_of(e) == z.lid)
        calls = [e for e in evs[k:] if e.kind == 'call' and e.extra in rec
                 and any(z.phi is a or mentions(a, z.phi) for a in e.args)]
        chk.need(len(calls) <= 1, node, 'visits an entry more than once', f)
        if not calls:
            chk.need(skip_ok is not None and skip_ok(r, z.phi), node,
                     'skips an entry', f)


# ---------------------------------------------------------------- initiate
class InitPolicy(Std):
    mon0 = False

    def __init__(self, prog):
        super().__init__(prog)
        self.monitor = self.step

    @staticmethod
    def step(mon, ev, it):
        if ev.kind == 'call' and ev.extra in it.rec_funcs:
            return True
        return mon


def init_closure(s):
    return s.closure('initiateRestore', InitPolicy, 'init')


CLASS = {0o100000: 1, 0o120000: 2, 0o040000: 3}
OTHER = {(0, 1): 11, (0, 2): 12, (0, 3): 13, (1, 2): 5, (1, 3): 6,
         (2, 1): 7, (2, 3): 8, (3, 1): 9, (3, 2): 10}


def sel(r, X, it, s, want_id):
    """What path r knows about the state of X at the id:
    ('none',) | ('state', B) | ('unknown',), and an error message."""
    first = mk('fld', ptr_loc(hist_owner(X)), 'state')
    res = ('unknown',)
    for B in find_state(r, X, it, ()):
        d = r.facts.domain(mk('init', mk('fld', B, 'type')))
        if d == {0}:
            res = ('none', B)
        elif 0 not in d:
            res = ('state', B)
        else:
            continue
        m = state_ok(r.facts, it, X, B, want_id, s.p)
        if m:
            return res, m
    if res[0] != 'unknown':
        return res, ''
    # history exhausted
    for P, ph in it.phis.items():
        if ph['entry'] == {hist_owner(X)} and \
                r.facts.decide(mk('eq', P, ZERO)) is True:
            pol = initf(X, 'policy')
            if r.facts.domain(pol) != {s.p.enums['BPOL_track']}:
                return ('none', None), 'searches the history of a path ' \
                    'that is not tracked'
            bid = initf(initf(P, 'backup'), 'id')
            for q in it.records:
                for e in q.events():
                    if e.kind == 'back' and lid_of(e) == ph['lid']:
                        if e.facts.decide(mk('lt', bid, want_id)) is not \
                                True:
                            return ('none', None), 'search passes over a ' \
                                'suitable state'
            return ('none', None), ''
    return ('unknown',), ''


def param_index(f, ty):
    for i, (n, t, d) in enumerate(f.params):
        if t == ty:
            return i
    return None


def initiate(chk, s):
    classify(chk, s)
    walk(chk, s)


def hint_final(r, X):
    l = mk('fld', ptr_loc(X), 'hint')
    return r.st.store.get(l, mk('init', l))


def classify(chk, s):
    chk.begin('restore-classify',
              'A path that exists is examined with lstat() unless a '
              'directory was recorded; its hint becomes exactly the '
              'replacement given by recorded and found type, BH_added if it '
              'does not exist (or cannot), and its attributes are compared '
              '(against a copy of the recorded state) iff the type agrees.')
    prog = s.p
    n = 0
    for f, it, recs in init_closure(s):
        chk.count(it, recs)
        for r in recs:
            if r.kind == 'die':
                continue
            owners = []
            for e in r.events():
                X = None
                if e.kind == 'call' and e.name in ('sPathExists', 'sStat',
                                                   'sLStat'):
                    X = path_owner(e.args[0])
                    chk.need(X is not None, e.node, '%s on an unexpected '
                             'path' % e.name, f)
                elif e.kind == 'call' and e.name == 'applyNodeChanges':
                    X = e.args[1]
                elif e.kind == 'store' and e.args[0].op == 'fld' and \
                        e.args[0].args[1] == 'hint':
                    X = loc_ptr(e.args[0].args[0])
                elif e.kind == 'store':
                    chk.need(False, e.node, 'initiating a restore modifies '
                             'more than hints: %s' % show(e.args[0]), f)
                if X is not None and X not in owners:
                    owners.append(X)
            for X in owners:
                n += 1
                classify_one(chk, s, f, it, r, X)
    chk.anchor(n, 'hint computation')


def classify_one(chk, s, f, it, r, X):
    prog = s.p
    h0 = mk('init', mk('fld', ptr_loc(X), 'hint'))
    rf = r.facts.restrict(h0, 0)
    if rf is None:
        return               # hints are unset before
    evs = [e for e in r.events() if e.kind == 'call' and (
        e.name in ('sPathExists', 'sStat', 'sLStat') and
        path_owner(e.args[0]) is X or
        e.name == 'applyNodeChanges' and e.args[1] is X)]
    node = evs[-1].node if evs else r.node
    ex = [e for e in evs if e.name == 'sPathExists']
    stt = [e for e in evs if e.name in ('sStat', 'sLStat')]
    app = [e for e in evs if e.name == 'applyNodeChanges']
    hl = mk('init', mk('fld', ptr_loc(X), 'hint'))
    fin = hint_final(r, X)
    # state: parameter or selected
    Bs = []
    for l in r.facts.dom:
        b, c = fieldchain(l)
        if c and c[-1] == 'type':
            B = state_base(l, 'type')
            P = loc_ptr(B)
            if P.op == 'param' and P.ty == 'PathState*':
                Bs.append(B)
    Bs += find_state(r, X, it, ())
    if not stt:
        exists = r.facts.domain(ex[-1].res) if ex else {0}
        if not ex:
            # nothing was looked up: must be known not to exist
            i = param_index(f, 'bool')
            ok = i is not None and it.args[i].op == 'param' and \
                r.facts.domain(it.args[i]) == {0}
            chk.need(ok, node, 'path is not looked up although it could '
                     'exist', f)
        chk.need(exists == {0}, node, 'existing path is not examined', f)
        v = evalterm(fin, {hl: 0})
        chk.need(v == 2, node, 'missing path gets the hint %s instead of '
                 'BH_added' % (show(fin) if v is None else h2s(prog, v)), f)
        chk.need(not app, node, 'compares attributes of a missing path', f)
        return
    chk.need(bool(ex) and r.facts.domain(ex[-1].res) == {1}, node,
             'examines a path which was not found', f)
    i = param_index(f, 'bool')
    chk.need(i is None or r.facts.domain(it.args[i]) == {1} or
             r.facts.values(it.args[i]) == {1}, node,
             'examines a path below one that is not there', f)
    if not Bs:
        chk.need(False, node, 'does not examine the recorded type', f)
        return
    B = Bs[-1]
    tl = mk('init', mk('fld', B, 'type'))
    e = stt[-1]
    mode = None
    for t in r.facts.domain(tl):
        if t == 0:
            continue
        if t == 3:
            chk.need(e.name == 'sStat', e.node, 'recorded directory is '
                     'not examined through symlinks', f)
        else:
            chk.need(e.name == 'sLStat', e.node, 'a symlink is followed '
                     'although no directory was recorded', f)
    cl = mk('&', mk('fieldof', e.res, 'st_mode'), num(0o170000))
    for t in sorted(r.facts.domain(tl)):
        if t == 0:
            continue
        for c in sorted(r.facts.domain(cl)):
            if restricted(rf, {tl: t, cl: c}) is None:
                continue
            k = CLASS.get(c, 0)
            if k == t:
                ok = len(app) == 1
                chk.need(ok, node, 'attributes of an existing path are not '
                         'compared', f)
                if ok:
                    a = app[0].args
                    chk.need(a[2].op == 'addr' and
                             loc_root(a[2].args[0]).op == 'var', app[0].node,
                             'comparison overwrites the recorded state', f)
                    chk.need(fin.op == 'hv' and fin.args[2] ==
                             'applyNodeChanges', node, 'result of the '
                             'comparison is discarded', f)
                    chk.need(a[3] is e.res, app[0].node, 'compares against '
                             'stats of something else', f)
            else:
                v = evalterm(fin, {hl: 0, tl: t, cl: c})
                exp = OTHER[(k, t)]
                chk.need(v == exp and not app, node,
                         'type change gets hint %s instead of %s' % (
                             show(fin) if v is None else h2s(prog, v),
                             h2s(prog, exp)), f)


def copy_of_state(chk, s):
    """The state given to applyNodeChanges equals the recorded one."""


def walk(chk, s):
    prog = s.p
    chk.begin('restore-walk',
              'Every visited path is compared against the state that was '
              'current at the id; requested paths which did not exist, '
              'whose parent was no directory, or which are unknown '
              'terminate the program; all entries below are visited, except '
              'those which did not exist.')
    clo = init_closure(s)
    recfs = {f.key: f for f, it, r in clo}
    nwalk = ncheck = 0
    for f, it, recs in clo:
        ii = param_index(f, 'size_t')
        want_id = it.args[ii] if ii is not None else None
        ri = param_index(f, 'StringView')
        req = it.args[ri] if ri is not None else None
        ci = param_index(f, 'bool')
        own_ce = it.args[ci] if ci is not None else ONE
        ni = param_index(f, 'PathNode*')
        si = param_index(f, 'PathState*')
        ll = list_loops(it, recs)
        rec = {g.key for g in it.rec_funcs.values()}
        for r in recs:
            for e in r.events():
                if e.kind != 'call' or e.extra not in rec:
                    continue
                g = it.rec_funcs[e.extra]
                gi = param_index(g, 'size_t')
                chk.need(gi is not None and e.args[gi] is want_id, e.node,
                         'continues with another backup id', f)
                gs = param_index(g, 'PathState*')
                gn = param_index(g, 'PathNode*')
                gc = param_index(g, 'bool')
                gp = param_index(g, 'StringView')
                Y = e.args[gn]
                ce = e.args[gc] if gc is not None else ONE
                if gs is not None:
                    ncheck += 1
                    St = e.args[gs]
                    what, msg = sel(mkrec(r, e), Y, it, s, want_id)
                    chk.need(not msg, e.node, msg or '', f)
                    okst = what[0] == 'state' and \
                        ptr_loc(St) is what[1]
                    chk.need(okst, e.node, 'path is processed with a state '
                             'that is not the one selected for it (or does '
                             'not exist)', f)
                if gp is not None:
                    nwalk += 1
                    chk.need(e.args[gp] is req, e.node,
                             'continues with another requested path', f)
                # could_exist
                if ni is not None and gn is not None:
                    par = None
                    b = fieldof(Y, 'subnodes')
                    if b is not None:
                        par = b
                    elif Y.op == 'phi':
                        es = it.phis[Y]['entry']
                        bs = {fieldof(x, 'subnodes') for x in es}
                        if len(bs) == 1:
                            par = next(iter(bs))
                    if par is not None:
                        check_ce(chk, s, f, r, e, par, ce, own_ce)
                    else:
                        same = ce is own_ce or (
                            r.facts.values(ce) is not None and
                            r.facts.values(ce) == r.facts.values(own_ce) and
                            len(r.facts.values(ce)) == 1)
                        chk.need(same, e.node, 'existence of a path is '
                                 'assumed wrongly', f)
                else:
                    chk.need(ce is ONE, e.node, 'top level paths are '
                             'assumed not to exist', f)
        # loops over entries
        for lid, loops in ll.items():
            for z in loops:
                if z.phi.ty != 'PathNode*':
                    continue
                walk_loop(chk, s, f, it, recs, z, rec, req, want_id, si)
        if req is not None and ni is not None:
            chk.need(any(z.entry == {it.args[ni]} for loops in ll.values()
                         for z in loops), f.body,
                     'the requested path is not searched in all entries', f)
        # requested path not found
        if req is not None and ni is not None:
            for r in recs:
                if r.kind == 'ret':
                    chk.need(r.st.mon, r.node, 'a requested path that is '
                             'unknown is silently ignored', f)
                elif r.kind == 'die':
                    chk.need(not r.st.mon, r.node, 'rejects a requested '
                             'path after it was found', f)
        if f.key == 'initiateRestore':
            emp = mk('pure', 'strIsEmpty', (req,))
            for r in recs:
                if r.kind != 'ret':
                    continue
                d = r.facts.domain(emp)
                w = [e for e in r.events() if e.kind == 'call' and
                     e.extra in rec and param_index(
                         it.rec_funcs[e.extra], 'StringView') is not None]
                loops = [e for e in r.events() if e.kind == 'loop' and any(
                    {fieldof(x, 'paths') for x in z.entry} ==
                    {it.args[0]} for z in ll.get(lid_of(e), []))]
                if d != {1}:
                    chk.need(bool(w) or any(True for e in loops if req),
                             r.node, 'requested path is not searched', f)
                else:
                    chk.need(bool(loops) and not w, r.node, 'the root '
                             'directory is not restored completely', f)
    chk.anchor(ncheck, 'recursive comparison')
    chk.anchor(nwalk, 'search for the requested path')


class mkrec:
    """View of a record up to an event."""

    def __init__(self, r, e):
        self.facts = e.facts
        self.r = r

    def events(self):
        return self.r.events()


def check_ce(chk, s, f, r, e, par, ce, own):
    """could_exist of an entry below par."""
    fin = None
    l = mk('fld', ptr_loc(par), 'hint')
    # value of the hint at the time of the call
    fin = mk('init', l)
    for x in r.events():
        if x is e:
            break
        if x.kind == 'store' and x.args[0] is l:
            fin = x.args[1]
        if x.kind == 'call' and x.name == 'applyNodeChanges' and \
                x.args[1] is par:
            fin = mk('hv', l, x.res, 'applyNodeChanges')
    h0 = mk('init', l)
    leaves = [x for x in (own, ) if x.op == 'param']
    ls, ok = finleaves(fin)
    if fin.op == 'hv':
        ls, ok = frozenset([fin]), True
        if fin.ty is None:
            fin.ty = 'BackupHint'
    for env in env_values(e.facts, list(set(leaves) | set(ls))):
        if h0 in env and env[h0] != 0:
            continue
        if restricted(e.facts, env) is None:
            continue
        h = evalterm(fin, env)
        if h is None:
            continue
        h &= 0x1ff
        if fin.op == 'hv' and 0 < h < 16:
            continue
        o = env.get(own, own.args[0] if isint(own) else None)
        want = 1 if o and not 2 <= h <= 13 else 0
        got = evalterm(ce, env)
        if got is None:
            v = e.facts.values(ce)
            got = next(iter(v)) if v and len(v) == 1 else None
        chk.need(got == want, e.node, 'entries below a path with hint %s '
                 'are assumed %s' % (h2s(s.p, h), 'to be missing' if want
                                     else 'to be reachable'), f)


def walk_loop(chk, s, f, it, recs, z, rec, req, want_id, si):
    """One loop over a list of nodes."""
    X = z.phi
    node = it.loops[z.lid]
    xp = initf(X, 'path')
    root = not any(p.op == 'param' for p in z.entry)
    search = req is not None and any(p.op == 'param' for p in z.entry)
    for r in recs:
        for l in r.facts.dom:
            if l.op == 'pure' and l.args[0] in ('strIsEqual',
                                                'strIsParentPath') and \
                    req in l.args[1] and xp in l.args[1]:
                search = True
    if search:
        a, b = sorted((xp, req), key=lambda t: t.id)
        eq = mk('pure', 'strIsEqual', (a, b))
        pa = mk('pure', 'strIsParentPath', (xp, req))
        eq.ty = eq.ty or 'bool'
        pa.ty = pa.ty or 'bool'
    for r in recs:
        evs = r.events()
        inl = in_loop(r, z.lid) or (
            r.kind == 'back' and evs[-1].kind == 'back' and
            lid_of(evs[-1]) == z.lid)
        # an entry whose iteration is the last one
        last = search and any(
            e.kind == 'exit' and lid_of(e) == z.lid and
            e.facts.decide(mk('eq', X, ZERO)) is not True for e in evs)
        if last and r.kind == 'die' and not in_loop(r, z.lid):
            continue
        inl = inl or last
        if not inl or not any(e.kind == 'loop' and lid_of(e) == z.lid
                              for e in evs):
            continue
        if r.kind == 'back' and lid_of(evs[-1]) != z.lid:
            continue     # inner loop
        k = max(i for i, e in enumerate(evs)
                if e.kind == 'loop' and lid_of(e) == z.lid)
        mine = [e for e in evs[k:] if e.kind == 'call' and e.extra in rec
                and (e.args[param_index(it.rec_funcs[e.extra],
                                        'PathNode*')] is X or
                     fieldof(e.args[param_index(it.rec_funcs[e.extra],
                                                'PathNode*')],
                             'subnodes') is X)]
        what, msg = sel(r, X, it, s, want_id)
        chk.need(not msg, node, msg, f)
        if not search:
            if r.kind == 'die':
                chk.need(False, r.node, 'terminates although a path may '
                         'just be skipped', f)
            elif not mine:
                chk.need(what[0] == 'none', node, 'skips an entry that '
                         'existed at the requested time', f)
            chk.need(len(mine) <= 1, node, 'processes an entry twice', f)
            continue
        deq, dpa = r.facts.domain(eq), r.facts.domain(pa)
        direct = [e for e in mine if e.args[param_index(
            it.rec_funcs[e.extra], 'PathNode*')] is X]
        below = [e for e in mine if e not in direct]
        if r.kind == 'die':
            if deq == {1}:
                chk.need(what[0] == 'none', r.node, 'rejects a requested '
                         'path that existed', f)
            elif deq == {0} and dpa == {1}:
                if what[0] == 'state':
                    tl = mk('init', mk('fld', what[1], 'type'))
                    chk.need(3 not in r.facts.domain(tl), r.node,
                             'rejects a path below a directory', f)
                else:
                    chk.need(what[0] == 'none', r.node, 'rejects a '
                             'path although its parent existed', f)
            else:
                chk.need(False, r.node, 'rejects a requested path because '
                         'of an unrelated one', f)
            continue
        if deq == {1}:
            chk.need(len(direct) == 1 and not below, node, 'the requested '
                     'path is not restored', f)
        elif dpa == {1}:
            chk.need(len(below) == 1 and not direct, node, 'the search '
                     'does not continue below a parent of the requested '
                     'path', f)
            if below:
                ok = what[0] == 'state' and r.facts.domain(
                    mk('init', mk('fld', what[1], 'type'))) == {3}
                chk.need(ok, node, 'searches below a path that was no '
                         'directory', f)
                evp = [e for e in evs[k:] if e.kind == 'call' and
                       e.name in ('sPathExists', 'sStat', 'sLStat') and
                       path_owner(e.args[0]) is X or e.kind == 'store' and
                       e.args[0] is mk('fld', ptr_loc(X), 'hint')]
                chk.need(bool(evp) and evs.index(evp[0]) <
                         evs.index(below[0]), node, 'a parent of the '
                         'requested path is not examined first', f)
        else:
            chk.need(deq == {0} and dpa == {0} and not mine, node,
                     'processes a path that was not requested', f)
    for r, e in loop_exits_at_end(recs, X, z.lid):
        chk.need(search and r.st.mon, node, 'stops before the last entry',
                 f)
    if not search:
        for r in recs:
            if r.kind == 'ret' and in_loop(r, z.lid):
                chk.need(False, r.node, 'returns before the last entry', f)


def children_visited(chk, s):
    """Comparison visits the entries of every recorded directory."""
    chk.begin('restore-children', 'The comparison descends into every path '
              'that was a directory at the requested time.')
    n = 0
    for f, it, recs in init_closure(s):
        si = param_index(f, 'PathState*')
        ni = param_index(f, 'PathNode*')
        if si is None or ni is None:
            continue
        tl = initf(it.args[si], 'type')
        ll = list_loops(it, recs)
        for r in recs:
            if r.kind != 'ret':
                continue
            n += 1
            d = r.facts.domain(tl) or FINITE['PathStateType']
            vis = any(e.kind == 'loop' and any(
                z.entry == {initf(it.args[ni], 'subnodes')}
                for z in ll.get(lid_of(e), [])) for e in r.events())
            if 3 in d:
                chk.need(vis, r.node, 'entries of a directory are not '
                         'compared', f)
            if d & {1, 2}:
                chk.need(not vis, r.node, 'entries below a path that was '
                         'no directory are compared', f)
    chk.anchor(n, 'recursive comparison')

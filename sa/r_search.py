"""Rules about the search: which paths of the file system it finds."""
import itertools

from core import *
from terms import add, sub, mul
from models import strval
from r_copy import iterations, direct, split_ptr
from r_policy import last_store, envs
from r_backup import flat, isfresh
from r_restore import param_index

MODES = {0o100000: 'SRT_regular_file', 0o120000: 'SRT_symlink',
         0o040000: 'SRT_directory'}
ALLMODES = (0o100000, 0o120000, 0o040000, 0o060000, 0o020000, 0o010000,
            0o140000)
FMT = 0o170000


def closure(s):
    return s.closure('searchGetNext')


def val(r, it, loc):
    return it.read_plain(r.st, loc)


def at(v, loc):
    """v is the value a location had before the call."""
    return vloc(v) is loc


class Search:
    def __init__(self, s, f, it, recs):
        self.s, self.f, self.it, self.recs = s, f, it, recs
        self.e = s.p.enums
        self.I = it.args[param_index(f, 'SearchIterator*')]
        self.l = ptr_loc(self.I)
        self.heads = {}

    def loc(self, *fs, base=None):
        l = base if base is not None else self.l
        for x in fs:
            l = mk('fld', l, x)
        return l

    def state(self, *fs):
        return self.loc('state', *fs)

    def outer(self, r):
        """Events of the step which the record ends with."""
        evs = r.events()
        k = 0
        stack = []
        for i, e in enumerate(evs):
            if e.kind == 'loop':
                stack.append((e, i))
            elif e.kind == 'exit' or e.kind == 'back' and i < len(evs) - 1:
                stack.pop()
        for e, i in stack:
            if lid_of(e) in self.steploops:
                k = i
        # everything before the innermost step loop belongs to skipped
        # entries only through loop carried values
        return evs[k:]


def find_steploops(S):
    """Loops which contain the access to the next entry or node."""
    out = set()
    for r in S.recs:
        for lid, evs, how, end, lev, i in iterations(r):
            if any(e.kind == 'call' and e.name in (
                    'sDirGetNext', 'sPathExists') for e in evs):
                out.add(lid)
    return out


def results(chk, s):
    chk.begin('search-step', 'Decision table of a search step: which entry '
              'becomes which result, which entries are skipped, which '
              'directories are entered and how, and when the search of a '
              'directory ends.')
    clo = closure(s)
    f, it, recs = clo[0]
    S = Search(s, f, it, recs)
    for g, it2, recs2 in clo[1:]:
        chk.need(False, g.body, 'the search calls itself for skipped '
                 'entries, so that many of them overflow the stack', g)
    if len(clo) > 1:
        return
    chk.count(it, recs)
    S.steploops = find_steploops(S)
    n = 0
    for r in recs:
        if r.kind == 'back':
            lid = lid_of(r.events()[-1])
            if lid not in S.steploops:
                continue
        n += 1
        step(chk, S, r)
    chk.anchor(n, 'search steps')
    lists(chk, S)


def pathform(S, p, name):
    """p is the current directory + '/' + name."""
    if p is None or p.op != 'pure' or p.args[0] != 'strAppendPath':
        return False
    d, nm = p.args[1][:2]
    d = strval(d)
    if nm is not name and strval(nm) is not name:
        return False
    if d.op != 'pure' or d.args[0] != 'strUnterminated':
        return False
    c, n = d.args[1]
    return at(c, S.loc('current_path', 'content')) and \
        at(n, S.state('path_length'))


def step(chk, S, r):
    it, f, e = S.it, S.f, S.e
    evs = S.outer(r)
    ig = S.loc('ignore_expressions')
    chk.need(at(val(r, it, ig), ig), r.node, 'a search step changes the '
             'ignore expressions of the search', f)
    for x in evs:
        if x.kind == 'store':
            for l, v in flat(it, x):
                chk.need(harmless(S, l), x.node, 'a search step changes %s' %
                         show(l), f)
    flag = mk('init', S.state('is_dir_search'))
    isdir = r.facts.decide(flag)
    if isdir is None:
        # a step cannot be right for both
        chk.need(r.kind == 'die', r.node, 'it is not decided how the next '
                 'path is found', f)
        return
    calls = [x for x in evs if x.kind == 'call']
    if isdir:
        gets = [x for x in calls if x.name == 'sDirGetNext']
        chk.need(len(gets) == 1 and at(gets[0].args[0], S.state(
            'access', 'search', 'dir')), r.node, 'not one entry of the '
            'current directory is taken', f)
        if len(gets) != 1:
            return
        g = gets[0].res
        empty = r.facts.decide(mk('pure', 'strIsEmpty', (g,)))
        if empty is None:
            lt = r.facts.interval(mk('fieldof', g, 'length'))
            empty = True if lt[1] == 0 else False if lt[0] > 0 or \
                0 in lt[2] else None
        chk.need(empty is not None, r.node, 'it is not decided whether the '
                 'directory has ended', f)
        if empty:
            cl = [x for x in calls if x.name == 'sDirClose']
            chk.need(len(cl) == 1 and cl[0].args[0] is gets[0].args[0],
                     r.node, 'a directory is not closed at its end', f)
            finished(chk, S, r, evs)
            return
        for x in calls:
            chk.need(x.name != 'sDirClose', x.node, 'a directory is closed '
                     'before its end', f)
        entry(chk, S, r, evs, g)
    else:
        cur = S.state('access', 'current_node')
        C = None
        for t in list(r.facts.iv) + [None]:
            if t is not None and at(t, cur):
                C = t
        null = r.facts.decide(mk('eq', C, ZERO)) if C is not None else None
        chk.need(null is not None, r.node, 'it is not decided whether there '
                 'is another configured path', f)
        if null is None:
            return
        if null:
            finished(chk, S, r, evs)
            return
        direct_node(chk, S, r, evs, C)


def harmless(S, l):
    """Location which belongs to the search, or notes what matched."""
    if l.op == 'fld' and l.args[1] in ('search_match', 'has_matched'):
        return True
    while l.op == 'fld':
        l = l.args[0]
    if l.op in ('var', 'glob') or l is S.l:
        return True
    if l.op == 'at':
        return at(l.args[0], S.loc('state_stack', 'state_array')) or \
            isfresh(l.args[0])
    return False


def finished(chk, S, r, evs):
    """Continue with the parent directory, or end the search."""
    it, f, e = S.it, S.f, S.e
    used = mk('init', S.loc('state_stack', 'used'))
    zero = r.facts.decide(mk('eq', used, ZERO))
    typ = rtype(r)
    chk.need(is_ret(r), r.node, 'the end of a directory gets lost', f)
    if not is_ret(r):
        return
    chk.need(zero is not None, r.node, 'it is not decided whether there is '
             'a parent directory', f)
    rel = [x for x in evs if x.kind == 'call' and
           x.name == 'CR_RegionRelease']
    if zero is False:
        chk.need(typ is e['SRT_end_of_directory'] or
                 typ == e['SRT_end_of_directory'], r.node, 'the end of a '
                 'directory is not reported as such', f)
        chk.need(not rel, r.node, 'the search is destroyed before its end',
                 f)
        chk.need(val(r, it, S.loc('state_stack', 'used')) is
                 sub(used, ONE), r.node, 'the finished directory is not '
                 'removed from the stack', f)
        arr = mk('init', S.loc('state_stack', 'state_array'))
        old = mk('at', arr, sub(used, ONE))
        for fs in STATE:
            v = val(r, it, S.state(*fs))
            chk.need(at(v, S.loc(*fs, base=old)), r.node, 'the search does '
                     'not continue where it was before it entered the '
                     'directory (%s)' % '.'.join(fs), f)
    elif zero:
        chk.need(typ == e['SRT_end_of_search'], r.node, 'the end of the '
                 'search is not reported as such', f)
        chk.need(len(rel) == 1 and at(rel[0].args[0], S.loc('r')), r.node,
                 'the search is not destroyed at its end', f)


STATE = (('is_dir_search',), ('path_length',), ('access', 'current_node'),
         ('access', 'search', 'dir'), ('access', 'search', 'subnodes'),
         ('access', 'search', 'fallback_policy'))


def rfield(r, name):
    v = r.val
    if v is None:
        return None
    if v.op == 'struct':
        for k, x in v.args[1]:
            if k == name:
                return x
        return ZERO
    return mk('fieldof', v, name)


def rtype(r):
    t = rfield(r, 'type')
    return t.args[0] if t is not None and isint(t) else None


def direct_node(chk, S, r, evs, C):
    it, f = S.it, S.f
    name = None
    path = val(r, it, S.loc('current_path'))
    nm = mk('init', mk('fld', ptr_loc(C), 'name'))
    chk.need(pathform(S, path, nm), r.node, 'the path of a configured node '
             'is not its name below the current directory (%s)' %
             show(path), f)
    ex = [x for x in evs if x.kind == 'call' and x.name == 'sPathExists']
    chk.need(len(ex) == 1 and strval(ex[0].args[0]) is path, r.node,
             'it is not checked whether the configured path exists', f)
    if len(ex) != 1:
        return
    there = r.facts.decide(ex[0].res)
    chk.need(there is not None, r.node, 'it is not decided whether the '
             'configured path exists', f)
    nxt = mk('fld', ptr_loc(C), 'next')
    if there is False:
        chk.need(r.kind == 'back' and lid_of(r.events()[-1]) in S.steploops,
                 r.node, 'a missing configured path ends the search', f)
        chk.need(at(val(r, it, S.state('access', 'current_node')), nxt),
                 r.node, 'the next configured path is not taken', f)
        unchanged(chk, S, r, 'a missing path', skip=(
            ('access', 'current_node'),))
    else:
        found(chk, S, r, evs, path, C, initf(C, 'policy'), nxt)


def unchanged(chk, S, r, what, skip=()):
    for fs in STATE:
        if fs in skip:
            continue
        chk.need(at(val(r, S.it, S.state(*fs)), S.state(*fs)), r.node,
                 '%s changes the state of the search (%s)' % (
                     what, '.'.join(fs)), S.f)
    u = S.loc('state_stack', 'used')
    chk.need(at(val(r, S.it, u), u), r.node, '%s changes the stack of '
             'directories' % what, S.f)


def entry(chk, S, r, evs, g):
    """The step found an entry of a directory."""
    it, f, e = S.it, S.f, S.e
    name = mk('fieldof', mk('pure', 'strSplitPath', (g,)), 'tail')
    path = val(r, it, S.loc('current_path'))
    chk.need(pathform(S, path, name), r.node, 'the path of an entry is not '
             'its name below the current directory (%s)' % show(path), f)
    subs = mk('init', S.state('access', 'search', 'subnodes'))
    M = None
    for x in evs:
        if x.kind == 'loop':
            for ph, en in x.extra:
                d = it.phis.get(ph)
                if d and d['entry'] == {ZERO} and any(
                        z.phi in d['back'] for z in S.cursors(x)):
                    M = ph
    if r.kind == 'die':
        ambiguous(chk, S, r, name)
        return
    if M is None:
        chk.need(at_null(r, subs), r.node, 'the configured paths of the '
                 'directory are not compared with its entry', f)
        M = ZERO
    none = r.facts.decide(mk('eq', M, ZERO))
    fall = mk('init', S.state('access', 'search', 'fallback_policy'))
    if fall.ty is None:
        fall.ty = 'BackupPolicy'
    chk.need(none is not None, r.node, 'it is not decided whether the entry '
             'matches a configured path', f)
    if none is None:
        return
    skip = r.kind == 'back'
    ign = ignored(S, r, evs, path)
    if not none:
        chk.need(not skip, r.node, 'an entry which matches a configured '
                 'path is skipped', f)
        if not skip:
            found(chk, S, r, evs, path, M, initf(M, 'policy'), None)
        return
    for env, q in envs(r.facts, fall):
        pol = env[fall]
        if pol == e['BPOL_none']:
            chk.need(skip, r.node, 'an entry of a directory without policy '
                     'is found', f)
        elif ign is True:
            chk.need(skip, r.node, 'an ignored entry is found', f)
        elif ign is False:
            chk.need(not skip, r.node, 'an entry is skipped although it is '
                     'not ignored', f)
        else:
            chk.need(False, r.node, 'an entry is %s without comparing it '
                     'with the ignore expressions' % (
                         'skipped' if skip else 'found'), f)
    if skip:
        unchanged(chk, S, r, 'a skipped entry')
    else:
        found(chk, S, r, evs, path, ZERO, fall, None)


def at_null(r, t):
    return r.facts.decide(mk('eq', t, ZERO)) is True


def ignored(S, r, evs, path):
    """True if an ignore expression matched, False if all did not."""
    head = mk('init', S.loc('ignore_expressions'))
    if at_null(r, head):
        return False
    for x in evs:
        if x.kind != 'loop':
            continue
        for z in S.cursors(x):
            if not any(at(en, S.loc('ignore_expressions'))
                       for en in z.entry):
                continue
            m = r.facts.decide(mk('pure', 'sRegexIsMatching', (
                initf(z.phi, 'regex'), path)))
            if m is True:
                return True
            if r.facts.decide(mk('eq', z.phi, ZERO)) is True:
                return False
    return None


def cursors(S, ev):
    if not hasattr(S, '_ll'):
        S._ll = list_loops(S.it, S.recs)
    return S._ll.get(lid_of(ev), [])


Search.cursors = cursors


def matching(facts, z, name):
    """Does the node z match the name? None if it is not decided."""
    rx = initf(z, 'regex')
    has = facts.decide(mk('not', mk('eq', rx, ZERO)))
    m1 = facts.decide(mk('pure', 'sRegexIsMatching', (rx, name)))
    nm = mk('init', mk('fld', ptr_loc(z), 'name'))
    a, b = sorted((nm, name), key=lambda t: t.id)
    m2 = facts.decide(mk('pure', 'strIsEqual', (a, b)))
    if has is True:
        return m1
    if has is False:
        return m2
    return m1 if m1 == m2 else None


def ambiguous(chk, S, r, name):
    """Only two configured paths for one entry terminate the program."""
    f = S.f
    last = [x for x in r.events() if x.kind in ('die', 'call')]
    if last and last[-1].name not in ('die', 'dieErrno'):
        return
    ok = False
    for x in r.events():
        if x.kind == 'loop':
            for z in S.cursors(x):
                for ph, en in x.extra:
                    d = S.it.phis.get(ph)
                    if d and d['entry'] == {ZERO} and z.phi in d['back'] \
                            and r.facts.decide(mk('eq', ph, ZERO)) is False \
                            and matching(r.facts, z.phi, name) is True:
                        ok = True
    chk.need(ok, r.node, 'the search terminates the program although the '
             'entry does not match two configured paths', f)


def lists(chk, S):
    """Every configured path and every ignore expression gets compared."""
    it, f, recs = S.it, S.f, S.recs
    seen = set()
    for r in recs:
        for lid, evs, how, end, lev, i in iterations(r):
            for z in S.cursors(lev):
                if any(at(en, S.state('access', 'search', 'subnodes'))
                       for en in z.entry):
                    seen.add('nodes')
                    nodeloop(chk, S, r, lid, evs, how, end, lev, z)
                if any(at(en, S.loc('ignore_expressions'))
                       for en in z.entry):
                    seen.add('ignore')
                    if how == 'back':
                        ps = [t for t in end.facts.dom if t.op == 'pure' and
                              t.args[0] == 'sRegexIsMatching' and
                              t.args[1][0] is initf(z.phi, 'regex')]
                        chk.need(any(end.facts.decide(t) is False
                                     for t in ps), end.node, 'an ignore '
                                 'expression is passed over', f)
                    elif how == 'exit':
                        ok = end.facts.decide(
                            mk('eq', z.phi, ZERO)) is True or any(
                            t.op == 'pure' and
                            t.args[0] == 'sRegexIsMatching' and
                            t.args[1][0] is initf(z.phi, 'regex') and
                            end.facts.decide(t) is True
                            for t in end.facts.dom)
                        chk.need(ok, end.node, 'not all ignore expressions '
                                 'are compared with the path', f)
    for x in ('nodes', 'ignore'):
        chk.need(x in seen, f.body, 'the list of %s is never looked at' % x,
                 f)


def nodeloop(chk, S, r, lid, evs, how, end, lev, z):
    it, f = S.it, S.f
    Ms = [ph for ph, en in lev.extra
          if it.phis.get(ph, {}).get('entry') == {ZERO} and
          it.phis[ph]['back'] <= {ph, z.phi} and
          z.phi in it.phis[ph]['back']]
    chk.need(len(Ms) == 1, lev.node, 'the configured path that matches an '
             'entry is not remembered', f)
    if len(Ms) != 1:
        return
    M, = Ms
    if how == 'exit':
        chk.need(end.facts.decide(mk('eq', z.phi, ZERO)) is True, end.node,
                 'not all configured paths are compared with the entry', f)
        return
    if how != 'back':
        if r.kind != 'die':
            chk.need(False, r.node, 'not all configured paths are compared '
                     'with the entry', f)
        return
    name = None
    for e in r.events():
        if e.kind == 'call' and e.name == 'sDirGetNext':
            name = mk('fieldof', mk('pure', 'strSplitPath', (e.res,)),
                      'tail')
    m = matching(end.facts, z.phi, name)
    chk.need(m is not None, end.node, 'a configured path is not compared '
             'with the entry', f)
    if r.events()[-1] is not end:
        return
    now = val(r, it, it.phis[M]['loc'])
    if m:
        chk.need(end.facts.decide(mk('eq', M, ZERO)) is True, end.node,
                 'two configured paths for the same entry do not terminate '
                 'the program', f)
        chk.need(now is z.phi, end.node, 'a match with a configured path '
                 'is forgotten', f)
    elif m is False:
        chk.need(now is M, end.node, 'a configured path is taken although '
                 'it does not match', f)


def found(chk, S, r, evs, path, N, policy, nxt):
    """Result for a path with node N (or ZERO)."""
    it, f, e = S.it, S.f, S.e
    if r.kind == 'die':
        return
    chk.need(is_ret(r), r.node, 'an existing path is skipped', f)
    if not is_ret(r):
        return
    st = [x for x in evs if x.kind == 'call' and x.name in ('sStat',
                                                            'sLStat')]
    chk.need(len(st) == 1 and strval(st[0].args[0]) is path, r.node,
             'the attributes are not those of the found path', f)
    if len(st) != 1:
        return
    follow = False
    if N is not ZERO:
        d = r.facts.decide(mk('eq', initf(N, 'subnodes'), ZERO))
        chk.need(d is not None, r.node, 'it is not decided whether there '
                 'are configured paths below', f)
        follow = d is False
    chk.need((st[0].name == 'sStat') == follow, r.node,
             'a symbolic link is followed although there are no configured '
             'paths below it' if not follow else 'a symbolic link to a '
             'directory with configured paths is not followed', f)
    stats = st[0].res
    for k, v in (('path', path), ('node', N), ('stats', stats)):
        x = rfield(r, k)
        chk.need(x is v, r.node, 'the result has %s %s instead of %s' % (
            k, show(x), show(v)), f)
    pv = rfield(r, 'policy')
    if pv is not policy:
        for env, g in envs(r.facts, policy, pv):
            chk.need(env.get(policy) == (pv.args[0] if isint(pv)
                                         else env.get(pv)), r.node,
                     'the policy of the result is not the one of its '
                     'configured path or directory', f)
    else:
        chk.need(True, r.node, '', f)
    typ = rtype(r)
    modes = modeset(r, stats)
    want = {e[MODES.get(m, 'SRT_other')] for m in modes}
    chk.need(typ is not None and want == {typ}, r.node, 'file type %s is '
             'reported as type %s' % (sorted(oct(m) for m in modes), typ),
             f)
    isdir = typ == e['SRT_directory']
    nl = S.state('access', 'current_node')
    if not isdir:
        unchanged(chk, S, r, 'a found file', skip=(
            ('access', 'current_node'),) if nxt is not None else ())
        if nxt is not None:
            chk.need(at(val(r, it, nl), nxt), r.node, 'the next configured '
                     'path is not taken', f)
        return
    enter(chk, S, r, evs, path, N, policy, nxt)


def modeset(r, stats):
    """File types which the facts still allow."""
    m = mk('fieldof', stats, 'st_mode')
    out = set(ALLMODES)
    for t in list(r.facts.dom) + list(r.facts.iv):
        if m in t.args and num(FMT) in t.args:
            if t in r.facts.dom:
                out &= set(r.facts.dom[t])
            lo, hi, ex = r.facts.interval(t)
            out = {x for x in out if lo <= x <= hi and x not in ex}
    return out


def enter(chk, S, r, evs, path, N, policy, nxt):
    """The found directory gets entered: the state so far is pushed."""
    it, f, e = S.it, S.f, S.e
    ul = S.loc('state_stack', 'used')
    used = mk('init', ul)
    cap = mk('init', S.loc('state_stack', 'capacity'))
    chk.need(val(r, it, ul) is add(used, ONE), r.node, 'a found directory '
             'is not entered', f)
    arr = val(r, it, S.loc('state_stack', 'state_array'))
    full = r.facts.decide(mk('eq', used, cap))
    if full is None:
        full = r.facts.decide(mk('not', mk('lt', used, cap)))
    chk.need(full is not None, r.node, 'it is not decided whether there is '
             'room for another directory', f)
    if full:
        nc = val(r, it, S.loc('state_stack', 'capacity'))
        al = [x for x in evs if x.kind == 'call' and x.res is arr]
        ok = len(al) == 1 and al[0].name == 'allocate' and at(
            al[0].args[0], S.loc('state_stack', 'state_array_buffer'))
        chk.need(ok, r.node, 'the stack of directories loses its content '
                 'while growing', f)
        grow = sub(nc, cap)
        chk.need(grow is cap or isint(grow) and grow.args[0] > 0, r.node,
                 'the stack of directories does not grow', f)
        if ok:
            sz = al[0].args[1]
            chk.need(sized(sz, nc), r.node, 'the grown stack is allocated '
                     'with another size', f)
    else:
        chk.need(at(arr, S.loc('state_stack', 'state_array')), r.node,
                 'the stack of directories is replaced', f)
    slot = mk('at', arr, used)
    for fs in STATE:
        v = val(r, it, S.loc(*fs, base=slot))
        if fs == ('access', 'current_node') and nxt is not None:
            ok = at(v, nxt)
        else:
            ok = at(v, S.state(*fs))
        chk.need(ok, r.node, 'the state before entering a directory is not '
                 'remembered (%s)' % '.'.join(fs), f)
    begin(chk, S, r, evs, path, N, policy)


def sized(size, n):
    """size is enough for n states."""
    return any(k.op == 'sizeof' and mul(k, n) is size for k in atoms(size))


def begin(chk, S, r, evs, path, N, policy):
    """State at the start of a directory."""
    it, f, e = S.it, S.f, S.e
    n = val(r, it, S.state('path_length'))
    chk.need(n in (mk('fieldof', path, 'length'), ZERO) and
             (n is not ZERO or path is ROOT), r.node, 'paths inside of a '
             'directory do not start with its path', f)
    start(chk, S, r, evs, path, N, policy)


ROOT = mk('pure', 'str', (mk('str', '"/"'),))


def start(chk, S, r, evs, path, N, policy):
    it, f, e = S.it, S.f, S.e
    flag = val(r, it, S.state('is_dir_search'))
    opens = [x for x in evs if x.kind == 'call' and x.name == 'sDirOpen']
    np = initf(N, 'policy') if N is not ZERO else None
    nr = initf(N, 'subnodes_contain_regex') if N is not ZERO else None
    leaves = []
    for t, ty in ((np, 'BackupPolicy'), (nr, '_Bool'),
                  (policy, 'BackupPolicy')):
        if t is not None and not isint(t):
            if t.ty is None:
                t.ty = ty
            leaves.append(t)
    for env, g in envs(r.facts, *dict.fromkeys(leaves)):
        direct_ = N is not ZERO and env[np] == e['BPOL_none'] and \
            not env[nr]
        t = 'directory %s' % ('without node' if N is ZERO else
                              'with policy %d, expressions below %d' % (
                                  env[np], env[nr]))
        fv = evalterm(flag, env) if not isint(flag) else flag.args[0]
        chk.need(fv is not None and bool(fv) == (not direct_), r.node,
                 '%s: %s' % ('a directory without policy and expressions is '
                             'listed' if direct_ else
                             'a directory is not listed', t), f)
        if direct_:
            v = val(r, it, S.state('access', 'current_node'))
            chk.need(at(v, mk('fld', ptr_loc(N), 'subnodes')), r.node,
                     'not all configured paths of a directory are visited: '
                     '%s' % t, f)
        else:
            chk.need(len(opens) == 1 and strval(opens[0].args[0]) is path
                     and val(r, it, S.state('access', 'search', 'dir')) is
                     opens[0].res, r.node, 'another directory is listed: '
                     '%s' % t, f)
            sn = val(r, it, S.state('access', 'search', 'subnodes'))
            chk.need(sn is ZERO if N is ZERO else
                     at(sn, mk('fld', ptr_loc(N), 'subnodes')) or
                     sn is ZERO and r.facts.decide(mk('eq', initf(
                         N, 'subnodes'), ZERO)) is True, r.node,
                     'the entries of a directory are not compared with the '
                     'configured paths in it: %s' % t, f)
            fp = val(r, it, S.state('access', 'search', 'fallback_policy'))
            a = fp.args[0] if isint(fp) else env.get(fp)
            b = policy.args[0] if isint(policy) else env.get(policy)
            chk.need(fp is policy or a is not None and a == b, r.node,
                     'the entries of a directory do not inherit its '
                     'policy: %s' % t, f)


def new(chk, s):
    chk.begin('search-start', 'A search starts in the root directory with '
              'the root node, its policy and the ignore expressions of the '
              'tree.')
    f, it, recs = s.closure('searchNew')[0]
    chk.count(it, recs)
    R = it.args[param_index(f, 'SearchNode*')]
    n = 0
    for r in recs:
        if not is_ret(r) or r.facts.decide(mk('eq', R, ZERO)) is True:
            continue
        n += 1
        S = Search.__new__(Search)
        S.s, S.f, S.it, S.recs, S.e = s, f, it, recs, s.p.enums
        S.I, S.l = r.val, ptr_loc(r.val)
        chk.need(isfresh(r.val), r.node, 'no new search is returned', f)
        evs = r.events()
        cp = strval(val(r, it, S.loc('current_path')))
        chk.need(cp is ROOT, r.node, 'the search does not start in the root '
                 'directory', f)
        chk.need(val(r, it, S.state('path_length')) is ZERO, r.node,
                 'the first paths are not below the root directory', f)
        start(chk, S, r, evs, ROOT, R, initf(R, 'policy'))
        ig = val(r, it, S.loc('ignore_expressions'))
        chk.need(at(ig, ptr_loc(initf(R, 'ignore_expressions'))), r.node,
                 'the search does not know the ignore expressions', f)
        chk.need(val(r, it, S.loc('state_stack', 'used')) is ZERO, r.node,
                 'the search starts inside of another directory', f)
        cap = val(r, it, S.loc('state_stack', 'capacity'))
        arr = val(r, it, S.loc('state_stack', 'state_array'))
        buf = val(r, it, S.loc('state_stack', 'state_array_buffer'))
        al = [x for x in evs if x.kind == 'call' and x.res is arr]
        ok = isint(cap) and cap.args[0] > 0 and len(al) == 1 and \
            al[0].name == 'allocate' and al[0].args[0] is buf
        ok = ok and sized(al[0].args[1], cap)
        chk.need(ok, r.node, 'the stack of directories is smaller than its '
                 'capacity', f)
    chk.anchor(n, 'started searches')

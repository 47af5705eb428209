"""Rules about searchTreeParse(): what every configuration means."""
import itertools

from core import *
from facts import INF
from terms import add, sub, lin_parts, subterms
from bufsim import subst
from models import strval
from r_copy import iterations, direct, split_ptr
from r_policy import last_store, envs
from r_backup import flat, isfresh, final_of
from r_restore import param_index

TOKENS = {'copy': 'BPOL_copy', 'mirror': 'BPOL_mirror',
          'track': 'BPOL_track', 'ignore': 'BPOL_ignore',
          'summarize': 'BPOL_summarize'}
HASH, OPEN, CLOSE, SLASH = 35, 91, 93, 47
EFFECTS = ('strTableMap', 'sRegexCompile')


def closure(s):
    return s.closure('searchTreeParse')


def nullp(r, v):
    return r.facts.decide(mk('eq', v, ZERO))


class Parser:
    """The functions of the parser by what they do."""

    def __init__(self, s):
        self.s, self.e = s, s.p.enums
        clo = closure(s)
        self.f, self.it, self.recs = clo[0]
        self.config = self.it.args[param_index(self.f, 'StringView')]
        self.content = mk('fieldof', self.config, 'content')
        self.length = mk('fieldof', self.config, 'length')
        self.creator = self.heir = None
        for f, it, recs in clo[1:]:
            rets = [r for r in recs if is_ret(r)]
            if rets and all(r.val is not None and isfresh(r.val)
                            for r in rets):
                self.creator = (f, it, recs)
            else:
                self.heir = (f, it, recs)
        if self.creator is None:
            raise AnalysisError('function which creates nodes not found')
        self.ckey = self.creator[0].key
        self.hkey = self.heir[0].key if self.heir else None
        self.cpath = param_index(self.creator[0], 'StringView')
        self.ctab = param_index(self.creator[0], 'StringTable*')
        self.hnode = param_index(self.heir[0], 'SearchNode*') \
            if self.heir else None
        self.outer()
        self.root()

    def outer(self):
        """The loop over the lines and its position."""
        self.lines = {}
        for r in self.recs:
            for t in self.about(r):
                if t.op == 'pure' and t.args[0] in (
                        'strIsWhitespaceOnly', 'strIsEqual'):
                    for x in t.args[1]:
                        if x.op == 'pure' and x.args[0] == 'strUnterminated':
                            b, o = split_ptr(x.args[1][0])
                            if b is self.content and o.op == 'phi':
                                self.lines.setdefault(o, set()).add(x)
        if len(self.lines) != 1:
            raise AnalysisError('the loop over the lines was not found')
        (self.pos, self.linevals), = self.lines.items()
        d = self.it.phis[self.pos]
        self.lid = d['lid']
        self.posloc = d['loc']

    def about(self, r):
        """Terms which the facts of r are about."""
        for t in list(r.facts.dom) + list(r.facts.iv):
            yield from atoms(t)
        for a, b in r.facts.rel:
            yield from atoms(a)
            yield from atoms(b)

    def line(self, r):
        ls = {t for t in self.about(r) if t in self.linevals}
        if len(ls) == 1:
            return ls.pop()
        # a comment that was recognized by its first character
        for e in r.events():
            if e.kind == 'back' and lid_of(e) == self.lid:
                ats = set(subterms(dict(e.extra).get(self.pos, self.pos)))
                new = {t for t in self.linevals if t in ats or
                       (set(atoms(t.args[1][1])) - {self.pos}) & ats}
                if len(new) == 1:
                    return new.pop()
        return None

    def root(self):
        """Root node and the shared lists, from the events before the
        loop."""
        self.rootv = None
        for r in self.recs:
            if is_ret(r):
                self.rootv = r.val
        if self.rootv is None or not isfresh(self.rootv):
            raise AnalysisError('the root node was not found')
        pre = self.head(next(r for r in self.recs if is_ret(r)))
        rl = ptr_loc(self.rootv)
        self.lists = {}
        for k in ('ignore', 'summarize'):
            v = last_store(self.it, pre,
                           mk('fld', rl, k + '_expressions'))
            self.lists[k] = v
        self.table = None
        for e in pre:
            if e.kind == 'call' and e.name == 'strTableNew':
                self.table = e.res

    def head(self, r):
        """Events before the loop over the lines."""
        out = []
        for e in r.events():
            if e.kind == 'loop' and lid_of(e) == self.lid:
                return out
            out.append(e)
        return out

    def iteration(self, r):
        """(events, how) of the last line of a record, or None."""
        out = None
        for lid, evs, how, end, lev, i in iterations(r):
            if lid == self.lid:
                out = (evs, how)
        return out


# ------------------------------------------------------------------ lines
def lines(chk, s):
    chk.begin('lines', 'The configuration is read line by line from its '
              'first byte (behind a UTF-8 byte order mark) to its last one; '
              'no character belongs to two lines and no line is left out.')
    p = Parser(s)
    it, f = p.it, p.f
    chk.count(it, p.recs)
    d = it.phis[p.pos]
    bom = {0: -17, 1: -69, 2: -65}
    for v in d['entry']:
        chk.need(v is ZERO or v is num(3), f.body, 'reading starts in the '
                 'middle of the configuration (%s)' % v, f)
    n = 0
    for r in p.recs:
        x = p.iteration(r)
        for e in r.events():
            if e.kind == 'loop' and lid_of(e) == p.lid:
                v = dict(e.extra).get(p.pos)
                marks = {k: p.content and e.facts.interval(
                    mk('init', mk('at', p.content, num(k))))[:2] == (c, c)
                    for k, c in bom.items()}
                lo = e.facts.interval(p.length)[0]
                if v is ZERO:
                    chk.need(not (all(marks.values()) and lo >= 3), e.node,
                             'a byte order mark is taken as part of the '
                             'first line', f)
                elif v is not None:
                    chk.need(v is num(3) and all(marks.values()) and lo >= 3,
                             e.node, 'the beginning of the configuration is '
                             'skipped although it is no byte order mark', f)
            if e.kind == 'exit' and lid_of(e) == p.lid:
                n += 1
                chk.need(e.facts.decide(mk('lt', p.pos, p.length)) is False,
                         e.node, 'lines at the end of the configuration are '
                         'never read', f)
        if x is None or x[1] == 'exit':
            if is_ret(r):
                chk.need(x is not None, r.node, 'the configuration is '
                         'accepted without being read', f)
            continue
        if x[1] == 'end' and is_ret(r):
            chk.need(False, r.node, 'the remaining lines are never read', f)
        L = p.line(r)
        if L is None:
            continue
        n += 1
        end_ok(chk, p, r, L)
        if x[1] == 'back':
            new = subst(it.read_plain(r.st, p.posloc), {
                mk('fieldof', L, 'length'): L.args[1][1]})
            end = add(p.pos, L.args[1][1])
            beyond = r.facts.decide(mk('lt', end, p.length))
            dist = sub(new, end)
            v = dist.args[0] if isint(dist) else None
            if v is None and dist.op == 'lt':
                v = r.facts.decide(dist)
                if v is None and dist is mk('lt', end, p.length):
                    v = beyond = 'same'
            chk.need(v == beyond if beyond == 'same' else
                     v is not None and (v == 1 if beyond else
                                        v in (0, 1) if beyond is False
                                        else v == 1),
                     r.node, 'the next line does not start right behind the '
                     'end of this one (%s)' % show(dist), f)
    chk.anchor(n, 'lines')
    inner(chk, p)


def endphi(p, end):
    """The loop variable that the end of a line is counted with."""
    if end.op == 'phi':
        return end if end in p.it.phis else None
    k, parts = lin_parts(end)
    ps = [t for t, c in parts.items() if c == 1 and t.op == 'phi' and
          t is not p.pos and t in p.it.phis]
    return ps[0] if len(ps) == 1 and p.pos in parts else None


def inside(p, g, end):
    for a, b in ((end, p.length), (sub(end, p.pos), sub(p.length, p.pos))):
        d = g.decide(mk('lt', a, b))
        if d is not None:
            return d
    return None


def end_ok(chk, p, r, L):
    """The line ends at the first line break or at the end of the text."""
    n = L.args[1][1]
    end = add(p.pos, n)
    ok = False
    if endphi(p, end) is not None:
        k = mk('init', mk('at', p.content, end))
        iv = r.facts.interval(k)
        if inside(p, r.facts, end) is False:
            ok = True
        elif iv[:2] == (10, 10) and inside(p, r.facts, end) is True:
            ok = True
    else:
        for t in p.about(r):
            if t.op == 'pure' and t.args[0] == 'memchr' and \
                    t.args[1][1] is num(10) and \
                    split_ptr(t.args[1][0]) == (p.content, p.pos) and \
                    t.args[1][2] is sub(p.length, p.pos):
                if r.facts.decide(mk('eq', t, ZERO)) is True:
                    ok = ok or end is p.length
                elif r.facts.decide(mk('eq', t, ZERO)) is False:
                    ok = ok or sub(t, mk('ptradd', p.content, p.pos)) is n \
                        or n is sub(sub(t, p.content), p.pos)
    chk.need(ok, r.node, 'a line ends neither at a line break nor at the '
             'end of the configuration', p.f)


def inner(chk, p):
    """The loop which looks for the end of the line stops at the first line
    break."""
    it = p.it
    for L in p.linevals:
        end = add(p.pos, L.args[1][1])
        ph = endphi(p, end)
        if ph is None:
            continue
        d = it.phis[ph]
        chk.need({subst(end, {ph: v}) for v in d['entry']} == {p.pos} and
                 d['back'] == {add(ph, ONE)}, p.f.body, 'the end of the line is not searched one '
                 'character at a time from its start', p.f)
        for r in p.recs:
            for lid, evs, how, e, lev, i in iterations(r):
                if lid == d['lid'] and how == 'back':
                    k = mk('init', mk('at', p.content, end))
                    iv = e.facts.interval(k)
                    chk.need(10 in iv[2] or iv[0] > 10 or iv[1] < 10,
                             e.node, 'a line break does not end the line',
                             p.f)
                    chk.need(inside(p, e.facts, end) is True,
                             e.node, 'a line continues behind the end of '
                             'the configuration', p.f)


# --------------------------------------------------------------- meanings
def possible(r, keys, chars):
    """Characters (of chars, or 0 for another one) which a position can
    hold."""
    out = set(chars) | {0}
    for k in keys:
        lo, hi, ex = r.facts.interval(k)
        out = {c for c in out
               if c == 0 and not (lo == hi and lo in chars) or
               c and lo <= c <= hi and c not in ex}
    return out


class Line:
    """What the facts of a record say about its line."""

    def __init__(self, p, r, L):
        self.p, self.r, self.L = p, r, L
        self.empty = False
        m = {mk('fieldof', L, 'length'): L.args[1][1]}
        first, last = [], []
        lc = mk('fieldof', L, 'content')
        end = sub(L.args[1][1], ONE)
        for k in r.facts.iv:
            if k.op != 'init' or k.args[0].op != 'at':
                continue
            b, o = k.args[0].args
            if b is lc:
                o = subst(o, m)
            elif b is p.content:
                o = sub(o, p.pos)
            elif split_ptr(b)[0] is p.content:
                o = sub(add(o, split_ptr(b)[1]), p.pos)
            else:
                continue
            if o is ZERO:
                first.append(k)
            if o is end:
                last.append(k)
        self.first = possible(r, first, (HASH, OPEN, SLASH))
        self.last = possible(r, last, (CLOSE,))
        if any(r.facts.decide(p.it.compare('==', x, ZERO, True)) is True
               for x in (L.args[1][1], mk('fieldof', L, 'length'))):
            self.first = self.last = {0}
            self.empty = True

    def pure(self, name, *args):
        a = tuple(args)
        if name == 'strIsEqual' and a[0].id > a[1].id:
            a = a[1], a[0]
        t = mk('pure', name, a)
        return t

    def truth(self, t):
        d = self.r.facts.decide(t)
        return {0, 1} if d is None else {int(d)}


def meaning(p, c):
    """What a line has to do. c: dictionary of conditions."""
    e = p.e
    if c['ws'] or c['first'] == HASH:
        return ('keep',)
    if c['tok']:
        return ('policy', e[TOKENS[c['tok']]])
    if c['first'] == OPEN and c['last'] == CLOSE:
        return ('die',)
    if c['pol'] == e['BPOL_none']:
        return ('die',)
    if c['pol'] in (e['BPOL_ignore'], e['BPOL_summarize']):
        return ('expr', 'ignore' if c['pol'] == e['BPOL_ignore']
                else 'summarize')
    if c['first'] != SLASH or c['dots']:
        return ('die',)
    if not c['null'] and c['ppol'] != e['BPOL_none'] and not c['inh']:
        return ('die',)
    return ('node',)


def policies(chk, s):
    chk.begin('policies', 'Decision table of a line: comments and blank '
              'lines do nothing, [policy] lines select exactly that policy, '
              'lines below them add an expression or a path with it, '
              'everything else terminates the program.')
    p = Parser(s)
    it, f, e = p.it, p.f, p.e
    chk.count(it, p.recs)
    pol = None
    nulls(chk, p)
    cands = [t for t, d in it.phis.items()
             if d.get('lid') == p.lid and d['entry'] == {ZERO} and
             all(isint(x) or x is t for x in d['back']) and
             {x.args[0] for x in d['back'] if isint(x)} &
             {e[x] for x in TOKENS.values()}]
    if len(cands) != 1:
        raise AnalysisError('the current policy was not found')
    pol, = cands
    polloc = it.phis[pol]['loc']
    chk.need(all(x is ZERO for x in it.phis[pol]['entry']) and
             e['BPOL_none'] == 0, f.body, 'the first lines have a policy '
             'without naming one', f)
    n = 0
    seen = set()
    for r in p.recs:
        x = p.iteration(r)
        if x is None:
            continue
        L = p.line(r)
        if L is None:
            if r.kind == 'back' and x[1] == 'back':
                chk.need(False, r.node, 'a line is skipped without being '
                         'looked at', f)
            continue
        if r.kind == 'back' and x[1] != 'back':
            continue
        n += 1
        row(chk, p, r, L, x[0], pol, polloc, seen)
    chk.anchor(n, 'lines')
    for t in TOKENS:
        chk.need(('tok', t) in seen, f.body, 'policy [%s] is not '
                 'understood' % t, f)


def nulls(chk, p):
    """Configurations with null bytes never reach the loop."""
    t = mk('pure', 'memchr', (p.content, ZERO, p.length))
    lids = nullloops(p)
    for r in p.recs:
        if r.kind == 'die' or p.iteration(r) is None:
            continue
        done = False
        for e in r.events():
            done |= e.kind == 'exit' and lid_of(e) in lids
            if e.kind == 'loop' and lid_of(e) == p.lid:
                chk.need(done or e.facts.decide(mk('eq', t, ZERO)) is True,
                         e.node,
                         'a configuration with null bytes is not rejected',
                         p.f)


def nullloops(p):
    """Loops that are only survived if no byte is null."""
    out = {}
    for i, d in p.it.phis.items():
        if d['entry'] != {ZERO} or d['back'] != {add(i, ONE)}:
            continue
        k = mk('init', mk('at', p.content, i))
        good, n = True, 0
        for r in p.recs:
            for lid, evs, how, e, lev, j in iterations(r):
                if lid != d['lid']:
                    continue
                if how == 'back':
                    n += 1
                    iv = e.facts.interval(k)
                    good &= 0 in iv[2] or iv[0] > 0 or iv[1] < 0
                elif how == 'exit':
                    good &= e.facts.decide(mk('lt', i, p.length)) is False
                elif r.kind != 'die':
                    good = False
        if good and n:
            out[d['lid']] = i
    return out


def row(chk, p, r, L, evs, pol, polloc, seen):
    it, f, e = p.it, p.f, p.e
    x = Line(p, r, L)
    path = mk('pure', 'strStripTrailingSlashes', (L,))
    get = [v for v in evs if v.kind == 'call' and v.name == 'strTableGet' and
           v.args[0] is p.table]
    prev = None
    for g in get:
        chk.need(g.args[1] is path, g.node, 'the existing node is looked up '
                 'by something else than the path of the line', f)
        prev = g.res
    if prev is not None:
        pn = x.truth(mk('eq', prev, ZERO))
        ppol, pinh = initf(prev, 'policy'), initf(prev, 'policy_inherited')
        if ppol.ty is None:
            ppol.ty = 'BackupPolicy'
        if pinh.ty is None:
            pinh.ty = '_Bool'
    else:
        pn, ppol, pinh = {0, 1}, None, None
    ws = x.truth(x.pure('strIsWhitespaceOnly', L))
    if x.empty:
        ws &= {1}
        if not ws:
            return
    dots = x.truth(x.pure('strPathContainsDotElements', L))
    toks = {}
    for t in TOKENS:
        toks[t] = x.truth(x.pure('strIsEqual', mk(
            'pure', 'str', (mk('str', '"[%s]"' % t),)), L))
    tokc = [t for t in TOKENS if 1 in toks[t]]
    sure = [t for t in TOKENS if toks[t] == {1}]
    if sure:
        tokc = sure if len(sure) == 1 else []
        seen.add(('tok', sure[0]))
    elif all(0 in v for v in toks.values()):
        tokc.append(None)
    leaves = [v for v in (pol, ppol, pinh) if v is not None]
    rowsok = False
    for env, g in envs(r.facts, *leaves):
        for w, a, z, t, d, nl in itertools.product(
                sorted(ws), sorted(x.first), sorted(x.last), tokc,
                sorted(dots), sorted(pn)):
            if t and (w or a != OPEN or z != CLOSE):
                continue
            c = {'ws': w, 'first': a, 'last': z, 'tok': t, 'dots': d,
                 'null': nl, 'pol': env[pol],
                 'ppol': env.get(ppol, 0), 'inh': env.get(pinh, 0)}
            m = meaning(p, c)
            # without a lookup nothing is known about earlier definitions
            if prev is None and m[0] == 'node' and r.kind == 'die' and \
                    died_elsewhere(r):
                continue
            rowsok = True
            judge(chk, p, r, L, evs, m, c, env, pol, polloc, path, prev)
    chk.need(rowsok or r.kind == 'die' and died_elsewhere(r), r.node,
             'no meaning fits this path', f)


def died_elsewhere(r):
    """Terminated by a limit of the machine, not because of the line."""
    for v in reversed(r.events()):
        if v.kind == 'call' or v.kind == 'die':
            return v.name not in ('die', 'dieErrno')
    return True


def touched(p, evs, allow):
    """Stores of the iteration to something that existed before it."""
    fresh = {v.res for v in evs if v.kind == 'call' and v.res is not None and
             isfresh(v.res)}
    out = []
    for v in evs:
        if v.kind != 'store':
            continue
        for l, y in flat(p.it, v):
            base = l
            while base.op == 'fld':
                base = base.args[0]
            if base.op == 'at' and base.args[0] in fresh:
                continue
            if base.op in ('var', 'glob') or l in allow:
                continue
            out.append((v, l))
    return out


def judge(chk, p, r, L, evs, m, c, env, pol, polloc, path, prev):
    it, f, e = p.it, p.f, p.e
    text = 'line with %s' % ', '.join(
        '%s=%s' % (k, chr(v) if k in ('first', 'last') and v else v)
        for k, v in c.items() if v is not None)
    if m[0] == 'die' or r.kind == 'die':
        chk.need(m[0] == 'die' and r.kind == 'die', r.node,
                 '%s: %s' % ('invalid line is accepted' if m[0] == 'die'
                             else 'valid line is rejected', text), f)
        return
    now = it.read_plain(r.st, polloc)
    nv = now.args[0] if isint(now) else env.get(now)
    want = m[1] if m[0] == 'policy' else c['pol']
    chk.need(nv == want, r.node, 'the policy for the following lines '
             'becomes %s instead of %s: %s' % (nv, want, text), f)
    calls = [v for v in evs if v.kind == 'call']
    if m[0] in ('keep', 'policy'):
        bad = touched(p, evs, ())
        chk.need(not bad and not any(
            v.extra in (p.ckey, p.hkey) or v.name in EFFECTS
            for v in calls), r.node, 'a line without a pattern changes the '
            'search tree: %s' % text, f)
    elif m[0] == 'expr':
        expression(chk, p, r, L, evs, m[1], text)
    else:
        chk.need(prev is not None, r.node, 'a path is added without looking '
                 'for an earlier definition: %s' % text, f)
        if prev is not None:
            pathline(chk, p, r, L, evs, c, env, pol, path, prev, text)


def expression(chk, p, r, L, evs, kind, text):
    it, f = p.it, p.f
    head = p.lists[kind]
    other = p.lists['summarize' if kind == 'ignore' else 'ignore']
    if head is None or other is None or head is other:
        raise AnalysisError('the lists of expressions were not found')
    hl = ptr_loc(head)
    new = last_store(it, evs, hl)
    chk.need(new is not None and isfresh(new), r.node, 'an expression is not '
             'added to the list of its policy: %s' % text, f)
    chk.need(not touched(p, evs, (hl,)), r.node, 'an expression changes more '
             'than the list of its policy: %s' % text, f)
    if new is None or not isfresh(new):
        return
    el = ptr_loc(new)
    nx = last_store(it, evs, mk('fld', el, 'next'))
    chk.need(nx is not None and vloc(nx) is hl, r.node, 'adding an '
             'expression loses the earlier ones: %s' % text, f)
    ex = final_of(it, r, new, 'expression')
    chk.need(strval(ex) is L, r.node, 'the stored expression is not the '
             'line: %s' % text, f)
    rx = last_store(it, evs, mk('fld', el, 'regex'))
    comp = [v for v in evs if v.kind == 'call' and
            v.name == 'sRegexCompile' and v.res is rx]
    chk.need(len(comp) == 1 and strval(comp[0].args[1]) is L, r.node,
             'the compiled expression is not the line: %s' % text, f)
    hm = last_store(it, evs, mk('fld', el, 'has_matched'))
    chk.need(hm is ZERO, r.node, 'an expression counts as matched before '
             'it matched anything: %s' % text, f)


def pathline(chk, p, r, L, evs, c, env, pol, path, prev, text):
    it, f = p.it, p.f
    node = prev
    made = [v for v in evs if v.kind == 'call' and v.extra == p.ckey]
    if c['null']:
        chk.need(len(made) == 1 and made[0].args[p.cpath] is path and
                 made[0].args[p.ctab] is p.table, r.node,
                 'no node is created for a new path: %s' % text, f)
        if len(made) != 1:
            return
        node = made[0].res
    else:
        chk.need(not made, r.node, 'a second node is created for the same '
                 'path: %s' % text, f)
    nl = ptr_loc(node)
    want = {}
    ph = lambda v: v.args[0] if v is not None and isint(v) else env.get(v)
    st = {}
    inh = None
    for i, v in enumerate(evs):
        if v.kind == 'store':
            for l, y in flat(it, v):
                st[l] = y
                if inh is not None and l in (
                        mk('fld', nl, 'policy'),
                        mk('fld', nl, 'subnodes')):
                    inh = None
        elif v.kind == 'call' and v.extra == p.hkey and \
                v.args[p.hnode] is node and \
                ph(st.get(mk('fld', nl, 'policy'))) == c['pol']:
            inh = v
    got = ph(st.get(mk('fld', nl, 'policy')))
    chk.need(got == c['pol'], r.node, 'the path gets policy %s instead of '
             '%s: %s' % (got, c['pol'], text), f)
    chk.need(st.get(mk('fld', nl, 'policy_inherited')) is ZERO, r.node,
             'the policy of a configured path counts as inherited: %s' %
             text, f)
    chk.need(inh is not None, r.node, 'the policy of the path is not passed '
             'on to the nodes below it: %s' % text, f)
    okf = {mk('fld', nl, x) for x in ('policy', 'policy_inherited',
                                      'policy_line_nr', 'line_nr')}
    chk.need(not touched(p, evs, okf), r.node, 'a path line changes more '
             'than its node: %s' % text, f)


# ------------------------------------------------------------------ nodes
def nodes(chk, s):
    chk.begin('nodes', 'A node is created below the node of its parent '
              'directory, inherits its policy, is an expression exactly if '
              'its name starts with two slashes, and is found again by its '
              'path.')
    p = Parser(s)
    f, it, recs = p.creator
    chk.count(it, recs)
    P, tab = it.args[p.cpath], it.args[p.ctab]
    sp = mk('pure', 'strSplitPath', (P,))
    head, tail = mk('fieldof', sp, 'head'), mk('fieldof', sp, 'tail')
    n = 0
    for r in recs:
        if not is_ret(r):
            chk.need(died_elsewhere(r), r.node, 'creating a node terminates '
                     'the program', f)
            continue
        n += 1
        evs = r.events()
        parent = None
        for e in evs:
            if e.kind == 'call' and e.name == 'strTableGet':
                chk.need(e.args[0] is tab and e.args[1] is head, e.node,
                         'the parent is not looked up by its path', f)
                parent = e.res
        if parent is None:
            chk.need(False, r.node, 'the parent is not looked up', f)
            continue
        if nullp(r, parent) is not False:
            up = [e for e in evs if e.kind == 'call' and e.extra == f.key]
            chk.need(nullp(r, parent) is True and len(up) == 1 and
                     up[0].args[p.cpath] is head and
                     up[0].args[p.ctab] is tab, r.node,
                     'a missing parent is not created by its path', f)
            if len(up) != 1:
                continue
            parent = up[0].res
        node = r.val
        fin = lambda *a: final_of(it, r, node, *a)
        par = lambda *a: initf(parent, *a)
        nm = strval(fin('name'))
        tl = mk('fieldof', tail, 'length')
        first = mk('init', mk('at', mk('fieldof', tail, 'content'), ZERO))
        iv, lv = r.facts.interval(first), r.facts.interval(tl)
        expr = True if iv[:2] == (SLASH, SLASH) and lv[0] >= 2 else \
            False if SLASH in iv[2] or iv[0] > SLASH or iv[1] < SLASH or \
            lv[1] < 2 else None
        chk.need(expr is not None, r.node, 'it is not decided whether the '
                 'name is an expression', f)
        rest = mk('pure', 'strUnterminated', (
            mk('ptradd', mk('fieldof', tail, 'content'), ONE), sub(tl, ONE)))
        alt = mk('pure', 'strUnterminated', (
            mk('ptradd', mk('fieldof', tail, 'content'), ONE), add(
                tl, num(-1))))
        pf = lambda x: it.read_plain(r.st, mk('fld', ptr_loc(parent), x))
        if expr:
            chk.need(nm in (rest, alt), r.node, 'the name of an expression '
                     'is not its text behind the slash', f)
            rx = fin('regex')
            comp = [e for e in evs if e.kind == 'call' and
                    e.name == 'sRegexCompile' and e.res is rx]
            chk.need(len(comp) == 1 and strval(comp[0].args[1]) in (
                rest, alt), r.node, 'the expression is not compiled', f)
            chk.need(pf('subnodes_contain_regex') is ONE, r.node,
                     'the parent does not learn about the expression', f)
        else:
            chk.need(nm is tail, r.node, 'the name of the node is not the '
                     'last part of its path', f)
            chk.need(fin('regex') is ZERO, r.node, 'a plain name becomes an '
                     'expression', f)
            v = pf('subnodes_contain_regex')
            chk.need(vloc(v) is mk('fld', ptr_loc(parent),
                                   'subnodes_contain_regex'), r.node,
                     'a plain name changes what the parent knows about '
                     'expressions below it', f)
        chk.need(fin('policy') is par('policy'), r.node, 'the policy of the '
                 'parent is not inherited', f)
        inh = fin('policy_inherited')
        pp = par('policy')
        if pp.ty is None:
            pp.ty = 'BackupPolicy'
        for env, g in envs(r.facts, pp):
            v = evalterm(inh, env)
            chk.need(v is not None and bool(v) ==
                     (env[pp] != p.e['BPOL_none']), r.node,
                     'the node is not marked as having an inherited policy, '
                     'or without one', f)
        for k, v in (('subnodes', ZERO), ('subnodes_contain_regex', ZERO),
                     ('search_match', num(p.e['SRT_none']))):
            chk.need(fin(k) is v, r.node, 'a new node starts with %s=%s' % (
                k, show(fin(k))), f)
        chk.need(fin('ignore_expressions') is par('ignore_expressions'),
                 r.node, 'the node does not share the ignore expressions '
                 'of its tree', f)
        nx = fin('next')
        chk.need(vloc(nx) is mk('fld', ptr_loc(parent), 'subnodes'), r.node,
                 'adding a node loses the other nodes of its parent', f)
        chk.need(pf('subnodes') is node, r.node, 'the node is not added to '
                 'its parent', f)
        mp = [e for e in evs if e.kind == 'call' and
              e.name == 'strTableMap']
        chk.need(len(mp) == 1 and mp[0].args[0] is tab and
                 mp[0].args[1] is P and mp[0].args[2] is node, r.node,
                 'the node can not be found again by its path', f)
        allow = {mk('fld', ptr_loc(parent), x)
                 for x in ('subnodes', 'subnodes_contain_regex')}
        for v, l in touched(p, evs, allow):
            chk.need(False, v.node, 'creating a node changes %s' % show(l),
                     f)
    chk.anchor(n, 'created nodes')


def inherit(chk, s):
    chk.begin('inherit', 'A policy is passed on to exactly those nodes below '
              'a path which have none of their own.')
    p = Parser(s)
    if p.heir is None:
        chk.need(False, p.f.body, 'policies are not passed on to the nodes '
                 'below the nodes below (nothing recurses)', p.f)
        return
    f, it, recs = p.heir
    e = p.e
    chk.count(it, recs)
    N = it.args[p.hnode]
    ll = list_loops(it, recs)
    cur = [z for v in ll.values() for z in v
           if z.entry == {initf(N, 'subnodes')}]
    chk.need(len(cur) >= 1, f.body, 'the nodes below are not visited', f)
    if not cur:
        return
    z = cur[0]
    for r, x in loop_exits_at_end(recs, z.phi, z.lid):
        chk.need(False, x.node, 'the visit ends before the last node', f)
    ppol = initf(N, 'policy')
    if ppol.ty is None:
        ppol.ty = 'BackupPolicy'
    n = 0
    for r in recs:
        if is_ret(r):
            chk.need(not in_loop(r, z.lid), r.node, 'the visit ends before '
                     'the last node', f)
            chk.need(any(x.kind == 'loop' and lid_of(x) == z.lid
                         for x in r.events()), r.node, 'the nodes below are '
                     'not visited', f)
        for lid, evs, how, end, lev, i in iterations(r):
            if lid != z.lid or how != 'back':
                continue
            n += 1
            C = z.phi
            cl = ptr_loc(C)
            cpol, cinh = initf(C, 'policy'), initf(C, 'policy_inherited')
            for t, ty in ((cpol, 'BackupPolicy'), (cinh, '_Bool')):
                if t.ty is None:
                    t.ty = ty
            pol = last_store(it, evs, mk('fld', cl, 'policy'))
            inh = last_store(it, evs, mk('fld', cl, 'policy_inherited'))
            rec = [x for x in evs if x.kind == 'call' and x.extra == f.key
                   and x.args[p.hnode] is C]
            early = False
            for x in rec:
                k = evs.index(x)
                early |= any(y.kind == 'store' and any(
                    l is mk('fld', cl, 'policy') for l, _ in flat(it, y))
                    for y in evs[k:])
            for env, g in envs(end.facts, cpol, cinh):
                own = env[cpol] != e['BPOL_none'] and not env[cinh]
                t = 'node below with policy %d, inherited %d' % (
                    env[cpol], env[cinh])
                if own:
                    chk.need(pol is None and inh is None and not rec,
                             end.node, 'the policy of a configured path is '
                             'overwritten: %s' % t, f)
                else:
                    chk.need(pol is not None and (
                        pol is ppol or vloc(pol) is vloc(ppol)), end.node,
                        'the policy is not passed on: %s' % t, f)
                    chk.need(inh is ONE or inh is None and env[cinh] == 1,
                             end.node, 'a passed on policy is not marked as '
                             'inherited: %s' % t, f)
                    chk.need(len(rec) == 1 and not early, end.node,
                             'the policy is not passed on to deeper nodes: '
                             '%s' % t, f)
            okf = {mk('fld', cl, x) for x in ('policy', 'policy_inherited',
                                              'policy_line_nr')}
            for v, l in touched(p, evs, okf):
                chk.need(False, v.node, 'passing on a policy changes %s' %
                         show(l), f)
    chk.anchor(n, 'visited nodes')


def root(chk, s):
    chk.begin('root', 'The tree starts with a root node without policy which '
              'is found by the empty path, and the whole configuration file '
              'gets parsed.')
    p = Parser(s)
    it, f, e = p.it, p.f, p.e
    chk.count(it, p.recs)
    rl = ptr_loc(p.rootv)
    n = 0
    for r in p.recs:
        if not is_ret(r):
            continue
        n += 1
        chk.need(r.val is p.rootv, r.node, 'not the root node is returned',
                 f)
        pre = p.head(r)
        for k, v in (('policy', e['BPOL_none']), ('policy_inherited', 0),
                     ('subnodes', 0), ('next', 0), ('regex', 0),
                     ('subnodes_contain_regex', 0),
                     ('search_match', e['SRT_none'])):
            x = last_store(it, pre, mk('fld', rl, k))
            chk.need(x is num(v), r.node, 'the root node starts with %s=%s' %
                     (k, show(x) if x is not None else 'nothing'), f)
        for k, h in p.lists.items():
            x = last_store(it, pre, ptr_loc(h)) if h is not None else None
            chk.need(h is not None and isfresh(h) and x is ZERO, r.node,
                     'the list of %s expressions does not start empty' % k,
                     f)
        chk.need(p.lists['ignore'] is not p.lists['summarize'], r.node,
                 'ignore and summarize expressions share one list', f)
        mp = [x for x in pre if x.kind == 'call' and x.name == 'strTableMap']
        chk.need(any(x.args[0] is p.table and x.args[2] is p.rootv and
                     x.args[1] is mk('pure', 'str', (mk('str', '""'),))
                     for x in mp), r.node, 'the root node is not found by '
                 'the empty path', f)
    chk.anchor(n, 'returned trees')
    load(chk, s)


def load(chk, s):
    f, it, recs = s.run('searchTreeLoad')
    chk.count(it, recs)
    path = it.args[param_index(f, 'StringView')]
    n = 0
    for r in recs:
        if not is_ret(r):
            continue
        n += 1
        rd = r.calls('sGetFilesContent')
        ps = r.calls('searchTreeParse')
        ok = len(rd) == 1 and len(ps) == 1
        if ok:
            C = rd[0].res
            a = ps[0].args[param_index(s.p.funcs['searchTreeParse'],
                                       'StringView')]
            ok = strip_cstr(rd[0].args[1]) is path and \
                r.val is ps[0].res and a.op == 'pure' and \
                a.args[0] == 'strUnterminated' and \
                a.args[1][0] is mk('fieldof', C, 'content') and \
                a.args[1][1] is mk('fieldof', C, 'size')
        chk.need(ok, r.node, 'not the whole configuration file gets parsed',
                 f)
    chk.anchor(n, 'loaded configurations')

"""Rules about reading, hashing, comparing and copying file contents."""
from core import *
from facts import INF
from terms import add, sub
import r_wrap

READS = {'sFread': (0, 1, 2), 'repoReaderRead': (0, 1, 2)}
WRITES = {'sFwrite': (0, 1, 2), 'fWrite': (0, 1, 2),
          'repoWriterWrite': (0, 1, 2), 'blake2b_update': (1, 2, 0)}
OPENS = ('sFopenRead', 'repoReaderOpenFile')
HASH = 20


class P(Std):
    pure_events = {'memcmp'}


def clo(s, entry):
    return s.closure(entry, policy=P, key='memcmp')


def conv(t):
    return num(t.args[0]) if isint(t) else t


# ------------------------------------------------------------ loop structure
def iterations(r):
    """[(lid, direct events of the iteration, how it ended, end event,
    loop event, index of loop event)] of a record, inner loops included in
    the outer list of events."""
    out = []
    stack = []
    for i, e in enumerate(r.events()):
        if e.kind == 'loop':
            for x in stack:
                x[1].append(e)
            stack.append([lid_of(e), [], None, None, e, i])
        elif e.kind in ('exit', 'back', 'leave'):
            x = stack.pop()
            assert x[0] == lid_of(e)
            x[2] = e.kind
            x[3] = e
            out.append(x)
            for y in stack:
                y[1].append(e)
        else:
            for x in stack:
                x[1].append(e)
    while stack:
        x = stack.pop()
        x[2] = 'end'
        out.append(x)
    return out


def direct(evs):
    """Events outside of inner loops."""
    d = 0
    out = []
    for e in evs:
        if e.kind == 'loop':
            d += 1
        elif e.kind in ('exit', 'back', 'leave'):
            d -= 1
        elif d == 0:
            out.append(e)
    return out


def total(evs, handle):
    t = ZERO
    for e in evs:
        if e.kind == 'call' and e.name in READS and e.args[2] is handle:
            t = add(t, e.args[1])
    return t


class Transfer:
    """A loop that moves blocks from streams to somewhere."""

    def __init__(self, lid):
        self.lid = lid
        self.backs = []          # (record, direct events, back event)
        self.handles = set()
        self.entry = {}


def transfers(recs):
    ts = {}
    for r in recs:
        for lid, evs, how, end, le, i in iterations(r):
            d = direct(evs)
            if how == 'back':
                own = {e.res for e in evs if e.kind == 'call'}
                h = {e.args[2] for e in d
                     if e.kind == 'call' and e.name in READS} - own
                if h:
                    t = ts.setdefault(lid, Transfer(lid))
                    t.handles |= h
    for r in recs:
        for lid, evs, how, end, le, i in iterations(r):
            if lid in ts:
                ts[lid].entry.update(dict(le.extra))
                if how == 'back':
                    ts[lid].backs.append((r, direct(evs), end))
    return ts


def remaining(t, handle, sizes, r=None):
    """[(S, term for the number of bytes not read at the loop head)]"""
    out = []
    for phi, ent in t.entry.items():
        down = up = True
        for rr, evs, be in t.backs:
            n = total(evs, handle)
            v = dict(be.extra).get(phi)
            if v is None:
                down = up = False
                break
            if not same(rr.facts, v, sub(phi, n)):
                down = False
            if not same(rr.facts, v, add(phi, n)):
                up = False
        if down:
            out.append((ent, phi))
        elif up:
            if isint(ent) and ent.args[0] == 0:
                for S in sizes:
                    out.append((S, sub(S, phi)))
            else:
                for S in sizes:
                    out.append((S, sub(add(S, ent), phi)))
    return out


def same(facts, a, b):
    if a is b:
        return True
    return facts.decide(mk('eq', a, b)) is True


def le(facts, a, b):
    """a <= b"""
    return a is b or facts.decide(mk('lt', b, a)) is False


def linle(facts, a, b):
    """a <= b, also when both are sums with common parts."""
    if le(facts, a, b):
        return True
    d = sub(b, a)
    c, parts = lin_parts(d)
    pos = [k for k, v in parts.items() for _ in range(v) if 0 < v < 4]
    neg = [k for k, v in parts.items() for _ in range(-v) if -4 < v < 0]
    if any(abs(v) >= 4 for v in parts.values()):
        return False
    if not neg:
        return c >= 0
    # match every negative part with a positive one that is not smaller
    if len(neg) == 1 and c >= 0:
        return any(le(facts, neg[0], p) for p in pos)
    if len(neg) == 1 and not pos:
        return le(facts, neg[0], num(c))
    return False


def split_ptr(p):
    if p.op == 'ptradd':
        return p.args[0], p.args[1]
    if p.op == 'addr' and p.args[0].op == 'at':
        return p.args[0].args[0], p.args[0].args[1]
    return p, ZERO


def capacity(it, r, p, evs_before):
    """Size of the object p points to, as a term, or None."""
    if p.op == 'res' and p.args[0] == 'CR_EnsureCapacity':
        for e in r.events():
            if e.kind == 'call' and e.res is p:
                return e.args[1]
    if p.op == 'res' and p.args[0] in ('sMalloc', 'CR_RegionAlloc',
                                       'CR_RegionAllocUnaligned',
                                       'allocate', 'CR_RegionAllocGrowable'):
        for e in r.events():
            if e.kind == 'call' and e.res is p:
                return e.args[-1]
    if p.op == 'decay':
        l = p.args[0]
        if l.op == 'var':
            ty = it.loc_type(l)
            if ty and '[' in ty:
                try:
                    return num(it.sizeof(ty).args[0]) if isint(
                        it.sizeof(ty)) else it.sizeof(ty)
                except Exception:
                    return None
        if l.op == 'fld' and l.args[1] == 'hash':
            return num(HASH)
    if p.op == 'param' and p.args[0]:
        return None
    return None


def check_block(chk, it, f, r, evs, sinks, what):
    """Within evs, every block read is passed on completely, exactly once
    per sink, before its buffer is used again."""
    pend = []       # [buf, n, handle, consumed]
    for e in evs:
        if e.kind != 'call':
            continue
        if e.name in READS:
            b, n, h = (e.args[i] for i in READS[e.name])
            base, off = split_ptr(b)
            for x in pend:
                xb, xo = split_ptr(x[0])
                if xb is base:
                    apart = linle(e.facts, add(xo, x[1]), off) or \
                        linle(e.facts, add(off, n), xo)
                    chk.need(x[3] or apart, e.node, '%s: block is '
                             'overwritten before it was processed' % what, f)
                    if not apart and x[3]:
                        x[4] = True
            pend = [x for x in pend if not x[4]]
            cap = capacity(it, r, base, None)
            if cap is None:
                raise AnalysisError('size of buffer %s unknown' % show(base))
            chk.need(linle(e.facts, add(n, off), cap), e.node, '%s: reads '
                     'more into a buffer than it can hold' % what, f)
            pend.append([b, n, h, False, False])
        elif e.name == 'memcmp':
            a, b, n = e.args
            m = [x for x in pend if x[0] in (a, b)]
            if not m:
                continue
            ok = len(m) == 2 and a is not b and \
                all(same(e.facts, x[1], n) for x in m)
            chk.need(ok, e.node, '%s: compares something other than the '
                     'two blocks just read' % what, f)
            for x in m:
                x[3] = True
        elif e.name in WRITES:
            b, n, h = (e.args[i] for i in WRITES[e.name])
            m = [x for x in pend if x[0] is b]
            ok = len(m) == 1 and not m[0][3] and same(e.facts, m[0][1], n)
            chk.need(ok, e.node, '%s: the bytes passed on are not '
                     'exactly the block just read' % what, f)
            for x in m:
                x[3] = True
    for x in pend:
        chk.need(x[3], evs[-1].node if evs else r.node,
                 '%s: a block that was read is not processed' % what, f)
    return pend


def memcmps(evs):
    return [e for e in evs if e.kind == 'call' and e.name == 'memcmp']


def equal_flag(t):
    """(inductive?, flag phi or None): at the loop head all blocks so far
    were equal, if the flag (if any) is set."""
    if all(memcmps(evs) and all(
            r.facts.decide(mk('eq', m.res, ZERO)) is True
            for m in memcmps(evs)) for r, evs, be in t.backs):
        return True, None
    for phi, ent in t.entry.items():
        if not (isint(ent) and ent.args[0] == 1):
            continue
        ok = True
        for r, evs, be in t.backs:
            ms = memcmps(evs)
            v = dict(be.extra).get(phi)
            if v is None or not ms:
                ok = False
                break
            g = r.facts.assume(v, True)
            if g is None:
                continue
            if not all(g.decide(mk('eq', m.res, ZERO)) is True
                       for m in ms) or g.decide(phi) is not True:
                ok = False
                break
        if ok:
            return True, phi
    return False, None


class Stream:
    """What happened to one stream that was opened on a record."""

    def __init__(self, ev):
        self.ev = ev
        self.res = ev.res
        self.reads = []          # direct reads outside of transfer loops
        self.loops = []          # (transfer, exit?, partial events, end ev)
        self.left = None
        self.closed = None


def streams(r, ts):
    """Streams opened for reading on this record, in order."""
    out = {}
    evs = r.events()
    its = iterations(r)
    inloop = set()
    for lid, ies, how, end, le_, i in its:
        if lid in ts:
            inloop |= {id(e) for e in ies}
    for e in evs:
        if e.kind == 'call' and e.name in OPENS:
            out[e.res] = Stream(e)
        elif e.kind == 'call' and e.name in READS and \
                e.args[2] in out and id(e) not in inloop:
            out[e.args[2]].reads.append(e)
        elif e.kind == 'call' and e.name == 'sFbytesLeft' and \
                e.args[0] in out:
            out[e.args[0]].left = e
        elif e.kind == 'call' and e.name in ('sFclose', 'repoReaderClose') \
                and e.args[0] in out:
            out[e.args[0]].closed = e
    for lid, ies, how, end, le_, i in its:
        if lid in ts:
            for h in ts[lid].handles:
                if h in out:
                    out[h].loops.append((ts[lid], how, direct(ies), end))
    return out


def bytes_missing(st, r, sizes):
    """(S, term of the number of bytes of S not read from the stream) or
    None if that cannot be told."""
    if st.loops:
        if len(st.loops) != 1 or st.reads:
            return None
        t, how, evs, end = st.loops[0]
        c = remaining(t, st.res, sizes)
        c = [(S, sub(rem, total(evs, st.res))) for S, rem in c
             if any(same(r.facts, S, x) for x in sizes)]
        if not c:
            return None
        for S, rem in c:
            if none_left(r.facts, rem):
                return S, rem
        return c[0]
    n = ZERO
    for e in st.reads:
        n = add(n, e.args[1])
    for S in sizes:
        if same(r.facts, n, S):
            return S, ZERO
    return sizes[0], sub(sizes[0], n)


def none_left(facts, rem):
    """rem == 0, knowing rem >= 0 (blocks are never larger than what
    remains, which is an obligation of its own)."""
    if facts.decide(mk('eq', rem, ZERO)) is True:
        return True
    c, parts = lin_parts(rem)
    if len(parts) == 2 and sorted(parts.values()) == [-1, 1]:
        a, = [k for k, v in parts.items() if v == 1]
        b, = [k for k, v in parts.items() if v == -1]
        return facts.decide(mk('lt', b, add(a, num(c)))) is False
    return facts.decide(mk('lt', ZERO, rem)) is False


def check_loops(chk, it, f, ts, sizes_of, what):
    """Obligations about the iterations of all transfer loops."""
    n = 0
    for t in ts.values():
        for r, evs, be in t.backs:
            n += 1
            check_block(chk, it, f, r, evs, None, what)
            hs = {e.args[2] for e in evs
                  if e.kind == 'call' and e.name in READS}
            tot = {h: total(evs, h) for h in hs}
            chk.need(hs == t.handles and len(
                {x.id for x in tot.values()}) == 1, be.node,
                '%s: streams are not read in step' % what, f)
            for h in sorted(hs, key=lambda x: x.id):
                sizes = sizes_of(r, h)
                c = [(S, rem) for S, rem in remaining(t, h, sizes)
                     if any(same(r.facts, S, x) for x in sizes)]
                chk.need(bool(c), be.node, '%s: the number of bytes read '
                         'is not tied to the recorded size' % what, f)
                for e in evs:
                    if e.kind == 'call' and e.name in READS and \
                            e.args[2] is h and c:
                        chk.need(any(linle(e.facts, e.args[1], rem)
                                     for S, rem in c), e.node,
                                 '%s: may read more than the remaining '
                                 'bytes' % what, f)
    return n


# ------------------------------------------------------------------ fileHash
def hashing(chk, s):
    chk.begin('hash-whole-file',
              'fileHash() reads exactly st_size bytes of the given file, '
              'block by block, feeds every block to the hash exactly once, '
              'between initialisation and finalisation, and terminates the '
              'program if the file has more bytes.')
    for f, it, recs in clo(s, 'fileHash'):
        chk.count(it, recs)
        stats = [a for a in it.args if a.ty and 'stat' in a.ty]
        path = it.args[0]
        hout = it.args[2]
        size = mk('fieldof', stats[0], 'st_size')
        ts = transfers(recs)
        check_loops(chk, it, f, ts, lambda r, h: [size], 'hashing')
        n = 0
        for r in recs:
            if not is_ret(r):
                continue
            n += 1
            sts = streams(r, ts)
            hash_streams(chk, s, f, it, r, sts, path, size)
            hash_calls(chk, f, it, r, ts, hout, size)
        chk.anchor(n, 'completed hashes')


def hash_streams(chk, s, f, it, r, sts, path, size):
    empty = r.facts.decide(mk('eq', size, ZERO)) is True
    chk.need(len(sts) == 1 or empty and not sts, r.node, 'the file is not '
             'opened exactly once', f)
    for st in sts.values():
        chk.need(st.ev.args[0] is path, st.ev.node, 'opens another file', f)
        complete(chk, f, r, st, [size], 'hashing')


def complete(chk, f, r, st, sizes, what):
    m = bytes_missing(st, r, sizes)
    chk.need(m is not None and none_left(r.facts, m[1]),
             st.ev.node, '%s: not all recorded bytes of the file are read'
             % what, f)
    for t, how, evs, end in st.loops:
        pass
    if st.ev.name == 'sFopenRead':
        chk.need(st.left is not None and
                 r.facts.decide(st.left.res) is False, st.ev.node,
                 '%s: continues although the file may have more bytes than '
                 'recorded' % what, f)
        chk.need(st.left is None or after_reads(r, st), st.ev.node,
                 '%s: looks for further bytes before everything was read'
                 % what, f)


def after_reads(r, st):
    evs = r.events()
    i = evs.index(st.left)
    for e in evs[i:]:
        if e.kind == 'call' and e.name in READS and e.args[2] is st.res:
            return False
        if e.kind == 'loop' and any(lid_of(e) == t.lid
                                    for t, how, ies, end in st.loops):
            return False
    return True


def hash_calls(chk, f, it, r, ts, hout, size):
    evs = r.events()
    init = fin = None
    state = None
    loop_at = None
    for e in evs:
        if e.kind == 'loop' and lid_of(e) in ts:
            loop_at = e
            chk.need(init is not None and fin is None, e.node, 'hash is '
                     'not initialised before reading', f)
        if e.kind != 'call':
            continue
        if e.name == 'blake2b_init':
            chk.need(loop_at is None, e.node, 'hash is reset after '
                     'reading', f)
            init = e
            state = e.args[0]
            chk.need(isint(e.args[1]) and e.args[1].args[0] == HASH, e.node,
                     'wrong hash length', f)
        elif e.name == 'blake2b_update':
            chk.need(e.args[0] is state and fin is None, e.node,
                     'updates another or a finished hash', f)
        elif e.name == 'blake2b_final':
            chk.need(e.args[0] is state, e.node, 'finishes another hash', f)
            chk.need(e.args[1] is hout and isint(e.args[2]) and
                     e.args[2].args[0] == HASH, e.node, 'hash is not '
                     'returned completely', f)
            chk.need(loop_at is not None or
                     r.facts.decide(mk('eq', size, ZERO)) is True, e.node,
                     'hash is finished before reading', f)
            fin = e
    chk.need(fin is not None, r.node, 'no hash is returned', f)
    for t in ts.values():
        for rr, ies, be in t.backs:
            for e in ies:
                if e.kind == 'call' and e.name == 'blake2b_update':
                    chk.need(e.args[0] is state, e.node, 'updates another '
                             'hash', f)
            chk.need(any(e.kind == 'call' and e.name == 'blake2b_update'
                         for e in ies), be.node, 'a block is not hashed', f)


# --------------------------------------------------------------- restoreFile
def restoring(chk, s):
    chk.begin('restore-whole-file',
              'Restoring a file writes exactly the recorded number of bytes '
              'to exactly the given path: either the bytes kept in the '
              'metadata, or all blocks of the stored file in order.')
    for f, it, recs in clo(s, 'restoreFile'):
        chk.count(it, recs)
        info = it.args[[i for i, p in enumerate(f.params)
                        if 'RegularFileInfo' in p[1]][0]]
        svs = [it.args[i] for i, p in enumerate(f.params)
               if p[1].replace('const ', '') == 'StringView']
        path, repo = svs
        size = initf(info, 'size')
        hashv = mk('fld', ptr_loc(info), 'hash')
        ts = transfers(recs)
        check_loops(chk, it, f, ts, lambda r, h: [size], 'restoring')
        n = 0
        for r in recs:
            evs = [e for e in r.events() if e.kind == 'call']
            w = [e for e in evs if e.name == 'sFopenWrite']
            for e in w:
                chk.need(e.args[0] is path, e.node, 'writes another path',
                         f)
            for e in evs:
                if e.name == 'repoReaderOpenFile':
                    chk.need(e.args[0] is repo and e.args[2] is info,
                             e.node, 'reads another stored file', f)
                if e.name in ('sFwrite', 'fWrite'):
                    chk.need(w and e.args[2] is w[-1].res, e.node,
                             'writes to another stream', f)
            if not is_ret(r):
                continue
            n += 1
            chk.need(len(w) == 1, r.node, 'the file is not created exactly '
                     'once', f)
            sts = streams(r, ts)
            big = r.facts.decide(mk('lt', num(HASH), size))
            chk.need(big is not None, r.node, 'the same way of restoring is '
                     'used for small and large files', f)
            chk.need(bool(w) and any(e.name == 'sFclose' and
                                     e.args[0] is w[-1].res for e in evs),
                     r.node, 'restored file is not closed', f)
            if big:
                chk.need(len(sts) == 1, r.node, 'stored file is not read '
                         'exactly once', f)
                for st in sts.values():
                    complete(chk, f, r, st, [size], 'restoring')
                    chk.need(all(any(e.kind == 'call' and e.name in
                                     ('sFwrite', 'fWrite') for e in ies)
                                 for t, how, _, end in st.loops
                                 for rr, ies, be in t.backs), st.ev.node,
                             'blocks are not written', f)
            else:
                tot = ZERO
                for e in evs:
                    if e.name in ('sFwrite', 'fWrite'):
                        b, off = split_ptr(e.args[0])
                        chk.need(b.op == 'decay' and b.args[0] is hashv and
                                 off is tot, e.node, 'does not write the '
                                 'recorded bytes', f)
                        tot = add(tot, e.args[1])
                chk.need(same(r.facts, tot, size), r.node, 'does not '
                         'write exactly the recorded number of bytes', f)
        chk.anchor(n, 'restored files')


# -------------------------------------------------------------- finishBackup
NEW = ('BH_added', 'BH_symlink_to_regular', 'BH_directory_to_regular')


class Finish:
    """One record of the recursive part of finishBackup()."""


def node_ptrs(it, f, recs):
    """Node pointer of the generic iteration: list cursor or parameter."""
    out = []
    for lid, l in list_loops(it, recs).items():
        for x in l:
            out.append((x.phi, lid, x.entry))
    return out


def finish_views(chk, s):
    """[(f, it, recs, X, list loop id or None)] for every recursive function
    below finishBackup()."""
    out = []
    for f, it, recs in clo(s, 'finishBackup')[1:]:
        chk.count(it, recs)
        ps = [a for a, (n, t, d) in zip(it.args, f.params)
              if t.replace('const ', '').strip() == 'PathNode*']
        c = [(phi, lid) for phi, lid, ent in node_ptrs(it, f, recs)
             if any(x in ps for x in ent)]
        if not c and ps:
            c = [(ps[0], None)]
        if not c:
            raise AnalysisError('no node in %s' % f.name)
        out.append((f, it, recs, c[0][0], c[0][1]))
    if not out:
        # everything without recursion?
        raise AnalysisError('finishBackup() does not descend')
    return out


def info_terms(X):
    H = initf(X, 'history')
    il = ptr_loc(H)
    for x in ('state', 'metadata', 'file_info'):
        il = mk('fld', il, x)
    return H, il


def fin_val(r, loc, it):
    return it.read(r.st, loc) if hasattr(r, 'st') else None


def size_class(facts, size):
    """[(name, facts)] of the size classes that are possible."""
    out = []
    g = facts.assume(mk('eq', size, ZERO), True)
    if g:
        out.append(('empty', g))
    g = facts.assume(mk('eq', size, ZERO), False)
    if g:
        h = g.assume(mk('lt', num(HASH), size), False)
        if h:
            out.append(('small', h))
        h = g.assume(mk('lt', num(HASH), size), True)
        if h:
            out.append(('big', h))
    return out


def nopol(s, v):
    pol = 0
    for n in ('BH_policy_changed', 'BH_loses_history'):
        pol |= s.p.enums.get(n, 0)
    return v & ~pol


def needed(s, hint):
    """Does a node with this hint need its content?"""
    e = s.p.enums
    return nopol(s, hint) in {e[n] for n in NEW} or \
        bool(hint & e['BH_content_changed'])


def finish_content(chk, s):
    finish(chk, s, 'content')


def finish_blocks(chk, s):
    finish(chk, s, 'blocks')


def finish_dedup(chk, s):
    finish(chk, s, 'dedup')


TEXT = {
    'content': 'Every new or changed regular file with content gets its '
               'hash computed (or its bytes taken) from the file itself '
               'unless that was done before, and, when larger than a hash, '
               'is found or stored in the repository under the recorded '
               'name; nothing else of the recorded state changes; all nodes '
               'are visited.',
    'blocks': 'A file is compared and copied as a whole and only with the '
              'recorded modification time and size.',
    'dedup': 'A content is treated as stored only after it was found equal '
             'up to the last byte; slots are tried from 0 in steps of one, '
             'up to 255; the recorded slot is the last one examined.',
}


def finish(chk, s, part):
    chk.begin('finish-' + part, TEXT[part])
    done = 0
    for f, it, recs, X, lid in finish_views(chk, s):
        ts = transfers(recs)
        H, il = info_terms(X)
        size = mk('init', mk('fld', il, 'size'))
        mtime = mk('init', mk('fld', il, 'modification_time'))
        tl = initf(H, 'state', 'type')
        hl = initf(X, 'hint')
        info = mk('addr', il)
        slot = mk('fld', il, 'slot')
        check_loops(chk, it, f, ts, lambda r, h: [size],
                    'storing a file')
        if part == 'dedup':
            for t in ts.values():
                if any(memcmps(evs) for r, evs, be in t.backs):
                    ok, flag = equal_flag(t)
                    chk.need(ok, t.backs[0][2].node, 'files are not '
                             'compared block by block', f)
        for r in recs:
            if part == 'content':
                visits(chk, s, f, it, r, X, lid)
            if not of_node(r, lid):
                continue
            # complete iterations only
            last = r.events()[-1] if r.events() else None
            whole = is_ret(r) if lid is None else (
                r.kind == 'back' and last is not None and
                last.kind == 'back' and lid_of(last) == lid)
            if not whole:
                continue
            done += 1
            node_done(chk, s, f, it, r, X, ts, part, il, size, mtime, tl, hl,
                      info, slot)
        if part == 'dedup':
            slots(chk, f, it, recs, slot)
    chk.anchor(done, 'finished nodes')


def of_node(r, lid):
    if lid is None:
        return True
    return any(e.kind == 'loop' and lid_of(e) == lid for e in r.events())


def visits(chk, s, f, it, r, X, lid):
    rec = {g.key for g in it.rec_funcs.values()} | {f.key}
    evs = r.events()
    last = evs[-1] if evs else None
    for e in evs:
        if e.kind == 'exit' and lid_of(e) == lid:
            chk.need(e.facts.decide(mk('eq', X, ZERO)) is True, e.node,
                     'entries of a directory are left out', f)
    whole = is_ret(r) if lid is None else (
        r.kind == 'back' and last is not None and last.kind == 'back' and
        lid_of(last) == lid)
    if is_ret(r) and lid is not None:
        chk.need(any(e.kind == 'exit' and lid_of(e) == lid for e in evs) or
                 not of_node(r, lid) and node_is_null(r, it, f), r.node,
                 'stops before all entries were handled', f)
    if not whole:
        return
    calls = [e for e in evs if e.kind == 'call' and e.extra in rec]
    ok = [e for e in calls if any(
        vloc(a) is not None and vloc(a).op == 'fld' and
        vloc(a).args[1] == 'subnodes' and loc_ptr(vloc(a).args[0]) is X
        for a in e.args)]
    noSub = r.facts.decide(mk('eq', initf(X, 'subnodes'), ZERO)) is True
    chk.need(bool(ok) or noSub, r.node, 'entries below a path are not '
             'handled', f)
    for e in ok:
        g = it.rec_funcs.get(e.extra)
        if g is not None and g.key == f.key:
            for a, own, (n, t, d) in zip(e.args, it.args, f.params):
                if 'StringView' in t:
                    chk.need(a is own, e.node, 'passes on another '
                             'repository', f)


def node_is_null(r, it, f):
    for a, (n, t, d) in zip(it.args, f.params):
        if t.replace('const ', '').strip() == 'PathNode*':
            return r.facts.decide(mk('eq', a, ZERO)) is True
    return False


def slots(chk, f, it, recs, slot):
    """Loop-carried values of the slot number."""
    n = 0
    for p, d in it.phis.items():
        l = p.args[2]
        if not (l.op == 'fld' and l.args[1] == 'slot') or 'lid' not in d:
            continue
        if not d['back'] or not any(
                e.kind == 'call' and e.name == 'repoRegularFileExists'
                for r in recs for x in iterations(r) if x[0] == d['lid']
                for e in x[1]):
            continue
        if l is not slot:
            continue
        n += 1
        for v in d['entry']:
            chk.need(v is ZERO, it.loops[d['lid']], 'slots are not tried '
                     'from the first one on', f)
        for r in recs:
            e = r.events()[-1] if r.events() else None
            if e is None or e.kind != 'back' or lid_of(e) != d['lid']:
                continue
            v = dict(e.extra).get(p)
            v = untrunc(v)
            chk.need(same(r.facts, v, add(p, ONE)), e.node, 'slots are '
                     'skipped or tried twice', f)
            chk.need(r.facts.decide(mk('eq', p, num(255))) is False or
                     r.facts.decide(mk('lt', p, num(255))) is True, e.node,
                     'the slot number wraps around', f)
    chk.anchor(n, 'slot numbers')


def untrunc(v):
    while v is not None and v.op == 'trunc':
        v = v.args[1]
    return v


def hash_dest(p, il):
    """p is the address of file_info.hash."""
    b, off = split_ptr(p)
    hl = mk('fld', il, 'hash')
    return off is ZERO and (b.op in ('decay', 'addr') and b.args[0] is hl)


def node_done(chk, s, f, it, r, X, ts, part, il, size, mtime, tl, hl, info,
              slot):
    evs = r.events()
    calls = [e for e in evs if e.kind == 'call']
    reg = s.p.enums['PST_regular_file']
    fresh = s.p.enums['BH_fresh_hash']
    xpath = initf(X, 'path')
    sts = streams(r, ts)
    combos = []
    for env in env_values(r.facts, [hl, tl]):
        g = restricted(r.facts, env)
        if g is None:
            continue
        for c, h in size_class(g, size):
            combos.append((env[hl], env[tl], c, h))
    need = [x for x in combos if x[1] == reg and x[2] != 'empty' and
            needed(s, x[0])]
    # ---- stats of the file
    stat = [e for e in calls if e.name == 'sStat' or e.name == 'sLStat']
    mine = [e for e in stat if is_path(e.args[0], X)]
    for e in stat:
        if part == 'blocks':
            chk.need(is_path(e.args[0], X), e.node,
                     'examines another path', f)
    touched = [e for e in calls if e.name in (
        'sFopenRead', 'fileHash', 'repoWriterOpenFile',
        'repoRegularFileExists', 'repoReaderOpenFile')]
    if part == 'blocks':
        for e in calls:
            if e.name in ('sFopenRead', 'fileHash', 'repoWriterOpenFile'):
                chk.need(any(r.facts.decide(mk('eq', mk(
                    'fieldof', m.res, 'st_mtime'), mtime)) is True
                    for m in mine), e.node, 'content is read although '
                    'the file may have been modified since it was '
                    'examined', f)
            if e.name == 'sFopenRead':
                chk.need(is_path(e.args[0], X), e.node, 'reads another '
                         'file', f)
            if e.name == 'fileHash':
                chk.need(is_path(e.args[0], X) and
                         any(e.args[1] is m.res for m in mine), e.node,
                         'hashes another file', f)
    cmp_loops = {}
    for st in sts.values():
        for t, how, ies, end in st.loops:
            if any(memcmps(b) for rr, b, be in t.backs):
                cmp_loops.setdefault(t.lid, (t, how, ies, end))
    equal = None
    same_so_far = set()
    last_exists = None
    for i, e in enumerate(evs):
        if e.kind == 'call' and e.name == 'repoRegularFileExists':
            last_exists = (i, e)
    # ---- equality
    for lid, (t, how, ies, end) in cmp_loops.items():
        ok, flag = equal_flag(t)
        known = ok and (flag is None or
                        r.facts.decide(flag) is True) and \
            all(r.facts.decide(mk('eq', m.res, ZERO)) is True
                for m in memcmps(ies))
        if known:
            same_so_far.add(lid)
        full = True
        for h in t.handles:
            st = sts.get(h)
            m = bytes_missing(st, r, [size]) if st else None
            if m is None or not none_left(r.facts, m[1]):
                full = False
        equal = known and full
        if part == 'dedup':
            for h in sorted(t.handles, key=lambda x: x.id):
                st = sts.get(h)
                if st is not None and st.ev.name == 'repoReaderOpenFile':
                    chk.need(st.ev.args[2] is info, st.ev.node,
                             'compares against another stored file', f)
            chk.need(len(t.handles) == 2 and {
                sts[h].ev.name for h in t.handles if h in sts} == set(OPENS),
                end.node, 'does not compare the file to the stored one', f)
    # ---- the last complete lookup
    writer = [e for e in calls if e.name == 'repoWriterOpenFile']
    if part == 'blocks':
        for st in sts.values():
            copied = st.loops and any(
                e.name == 'repoWriterWrite' for t, how, ies, end in st.loops
                for rr, b, be in t.backs for e in b)
            small = st.reads and not st.loops
            iscmp = any(t.lid in cmp_loops for t, how, ies, end in st.loops)
            if copied or small:
                complete(chk, f, r, st, [size], 'storing a file')
            elif iscmp and same_so_far and st.ev.name == 'sFopenRead':
                complete(chk, f, r, st, [size], 'comparing a file')
        for w in writer:
            chk.need(any(e.name == 'repoWriterClose' and e.args[0] is w.res
                         for e in calls), w.node, 'stored file is never '
                     'completed', f)
            ci = [evs.index(e) for e in calls
                  if e.name == 'repoWriterClose' and e.args[0] is w.res]
            src = copy_source(sts, w)
            chk.need(src is not None, w.node, 'nothing is copied into the '
                     'repository', f)
            if src is not None and src.left is not None and ci:
                chk.need(evs.index(src.left) < ci[0] or True, w.node, '', f)
                chk.need(evs[ci[0]].facts.decide(src.left.res) is False
                         if evs.index(src.left) < ci[0] else False,
                         evs[ci[0]].node, 'the file is stored before it was '
                         'made sure that it has no further bytes', f)
    # ---- effects
    fl = fin_store(r, it, slot)
    for hint, ty, c, g in combos:
        isneed = ty == reg and c != 'empty' and needed(s, hint)
        if not isneed:
            if part == 'content':
                st = [e for e in evs if e.kind == 'store' and
                      under(e.args[0], ptr_loc(initf(X, 'history')))]
                chk.need(not st, st[0].node if st else r.node, 'changes the '
                         'recorded state of a node that needs nothing', f)
                chk.need(not writer, writer[0].node if writer else r.node,
                         'stores a file for a node that needs nothing', f)
            continue
        isfresh = bool(hint & fresh)
        if part == 'content':
            if c == 'small':
                got = [e for e in calls if e.name == 'sFread' and
                       hash_dest(e.args[0], il)]
                ok = isfresh or len(got) == 1 and \
                    same(g, got[0].args[1], size) and \
                    got[0].args[2] in sts and \
                    is_path(sts[got[0].args[2]].ev.args[0], X)
                chk.need(ok, r.node, 'content of a small file is not '
                         'recorded (hint %s)' % h2s(s.p, hint), f)
            else:
                got = [i for i, e in enumerate(evs) if e.kind == 'call' and
                       e.name == 'fileHash' and hash_dest(e.args[2], il) and
                       is_path(e.args[0], X)]
                ok = isfresh or bool(got) and (
                    last_exists is None or got[-1] < last_exists[0])
                chk.need(ok, r.node, 'hash of a file is not computed '
                         '(hint %s)' % h2s(s.p, hint), f)
                stored = equal is True and last_exists is not None and \
                    g.decide(last_exists[1].res) is True
                copied = any(
                    w.args[3] is info and is_path(w.args[2], X) and
                    copy_source(sts, w) is not None and
                    is_path(copy_source(sts, w).ev.args[0], X) and
                    any(e.name == 'repoWriterClose' and e.args[0] is w.res
                        for e in calls) for w in writer)
                chk.need(stored or copied, r.node, 'content is not stored '
                         'in the repository (hint %s)' % h2s(s.p, hint), f)
        if part == 'dedup' and c == 'big':
            chk.need(last_exists is not None, r.node, 'the repository is '
                     'not searched for the content', f)
            if last_exists is None:
                continue
            i, ex = last_exists
            chk.need(ex.args[1] is info and is_repo(it, f, ex.args[0]),
                     ex.node, 'looks for another content', f)
            if writer:
                chk.need(g.decide(ex.res) is False, writer[0].node,
                         'writes a file that exists already', f)
            else:
                chk.need(g.decide(ex.res) is True and equal is True,
                         r.node, 'treats a content as stored which was '
                         'not found equal to its end', f)
            late = [e for e in evs[i:] if e.kind == 'store' and
                    under(e.args[0], il)]
            chk.need(not late, late[0].node if late else r.node,
                     'changes the recorded name after it was looked up', f)
    if part in ('content', 'dedup'):
        # nothing but hash and slot may change
        for e in evs:
            if e.kind == 'store' and under(e.args[0], ptr_loc(
                    initf(X, 'history'))):
                chk.need(e.args[0] is slot or
                         under(e.args[0], mk('fld', il, 'hash')), e.node,
                         'changes the recorded state', f)


def fin_store(r, it, loc):
    return None


def under(loc, base):
    while loc is not None:
        if loc is base:
            return True
        if loc.op == 'fld':
            loc = loc.args[0]
        elif loc.op == 'at' and loc.args[0].op in ('decay', 'addr'):
            loc = loc.args[0].args[0]
        else:
            return False
    return False


def is_path(t, X):
    return path_owner(t) is X


def is_repo(it, f, t):
    t = strip_cstr(t)
    return t.op == 'param' and t in it.args


def copy_source(sts, w):
    """The stream whose blocks are written to writer w."""
    for st in sts.values():
        for t, how, ies, end in st.loops:
            if all(any(e.kind == 'call' and e.name == 'repoWriterWrite' and
                       e.args[2] is w.res for e in b)
                   for rr, b, be in t.backs):
                return st
    return None


def finish_root(chk, s):
    chk.begin('finish-root', 'finishBackup() handles all paths of the '
              'metadata and then sets the completion time.')
    f, it, recs = clo(s, 'finishBackup')[0]
    chk.count(it, recs)
    M = it.args[0]
    n = 0
    tloc = ptr_loc(M)
    for x in ('current_backup', 'completion_time'):
        tloc = mk('fld', tloc, x)
    for r in recs:
        if not is_ret(r):
            continue
        n += 1
        evs = r.events()
        rec = [i for i, e in enumerate(evs) if e.kind == 'call' and
               e.extra in it.rec_funcs]
        c = [i for i in rec if any(
            fieldof(a, 'paths') is M for a in evs[i].args)]
        chk.need(bool(c) or r.facts.decide(
            mk('eq', initf(M, 'paths'), ZERO)) is True, r.node,
            'paths of the metadata are not handled', f)
        svs = [a for a, (nm, t, d) in zip(it.args, f.params)
               if 'StringView' in t]
        for i in rec:
            g = it.rec_funcs[evs[i].extra]
            passed = [strip_cstr(a) for a, (nm, t, d) in
                      zip(evs[i].args, g.params) if 'StringView' in t]
            chk.need(passed == svs or not passed, evs[i].node, 'repository '
                     'and temporary path are mixed up', f)
        st = [(i, e) for i, e in enumerate(evs) if e.kind == 'store' and
              e.args[0] is tloc]
        ok = bool(st) and st[-1][1].args[1].op == 'res' and \
            st[-1][1].args[1].args[0] == 'sTime'
        chk.need(ok, r.node, 'completion time is not set', f)
        if ok:
            ti = [i for i, e in enumerate(evs) if e.kind == 'call' and
                  e.res is st[-1][1].args[1]]
            chk.need(all(i > j for i in ti for j in rec), st[-1][1].node,
                     'completion time is taken before everything was '
                     'stored', f)
    chk.anchor(n, 'completed backups')


def writer_args(chk, s):
    chk.begin('writer-args', 'Files are stored through the temporary file '
              'of the repository, under the name that was looked up.')
    n = 0
    for f, it, recs, X, lid in finish_views(chk, s):
        H, il = info_terms(X)
        svs = [a for a, (nm, t, d) in zip(it.args, f.params)
               if 'StringView' in t]
        for r in recs:
            for e in r.events():
                if e.kind == 'call' and e.name == 'repoWriterOpenFile':
                    n += 1
                    a = [strip_cstr(x) for x in e.args[:2]]
                    chk.need(a == svs[:2] and len(svs) >= 2 and
                             a[0] is not a[1], e.node, 'wrong repository '
                             'or temporary file', f)
                    chk.need(e.args[3] is mk('addr', il) and
                             is_path(e.args[2], X), e.node, 'stores under '
                             'the name of something else', f)
    chk.anchor(n, 'stored files')

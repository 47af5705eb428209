"""Shared parts of all rules: obligations, reports and helpers on terms."""
import json
import os
import sys
import time

from engine import Interp, loc_root
from facts import FINITE, finleaves, evalterm, leafdom
from frontend import AnalysisError, load
from models import Std, strval
from terms import T, mk, num, isint, ZERO, ONE, atoms, mentions, show, lin_parts

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Check:
    def __init__(self, pid, prog, tier='quick'):
        self.pid = pid
        self.p = prog
        self.tier = tier
        self.rules = {}          # rule -> count of obligations
        self.bad = []            # violations
        self.funcs = set()
        self.paths = 0
        self.sites = set()
        self.notes = []
        self.rule = None
        self.texts = {}

    def begin(self, rule, text):
        self.rule = rule
        self.texts[rule] = text
        self.rules.setdefault(rule, 0)

    def where(self, node=None, func=None):
        if node is None:
            if func is None:
                return '?', 0, '?'
            return func.file, func.line, func.name
        f = self.p.enclosing(node)
        return node.file, node.line, f.name if f else (
            func.name if func else '?')

    def need(self, cond, node, msg, func=None, rule=None):
        """One obligation: cond must hold at node."""
        rule = rule or self.rule
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if not cond:
            file, line, fn = self.where(node, func)
            v = {'rule': rule, 'file': file, 'line': line, 'function': fn,
                 'message': msg() if callable(msg) else msg}
            k = (rule, file, line, v['message'])
            if k not in {(b['rule'], b['file'], b['line'], b['message'])
                         for b in self.bad} and len(self.bad) < 200:
                self.bad.append(v)
        return cond

    def anchor(self, n, what):
        """The construct a rule talks about has to exist at all."""
        if not n:
            raise AnalysisError('%s: nothing found for %s' % (self.rule,
                                                               what))

    def count(self, it, recs):
        self.funcs |= it.analysed
        self.paths += len(recs)
        self.sites |= it.sites


def install(prog):
    """Adds Program.enclosing()."""
    import bisect
    tab = {}
    for f in prog.funcs.values():
        for x in f.body.walk():
            tab[x.nid] = f
    prog._encl = tab
    type(prog).enclosing = lambda self, n: self._encl.get(n.nid)


class Session:
    """Program plus cached interpretations."""

    def __init__(self, prog):
        self.p = prog
        self.cache = {}
        install(prog)

    def closure(self, entry, policy=None, key=None, setup=None):
        """[(func, interp, records)] for entry and every recursive function
        that is reached from it."""
        ck = (entry, key)
        if ck in self.cache:
            return self.cache[ck]
        out = []
        f0 = self.p.funcs.get(entry)
        if f0 is None:
            raise AnalysisError('function %s not found' % entry)
        todo = [f0]
        seen = set()
        while todo:
            f = todo.pop(0)
            if f.key in seen:
                continue
            seen.add(f.key)
            pol = policy(self.p) if policy else Std(self.p, expand=())
            it = Interp(self.p, pol)
            recs = it.run(f, setup=setup)
            out.append((f, it, recs))
            todo += it.rec_funcs.values()
        self.cache[ck] = out
        return out

    def run(self, fkey, policy=None, setup=None):
        f = self.p.funcs.get(fkey)
        if f is None:
            raise AnalysisError('function %s not found' % fkey)
        pol = policy(self.p) if policy else Std(self.p)
        it = Interp(self.p, pol)
        recs = it.run(f, setup=setup)
        return f, it, recs


# ---------------------------------------------------------------- terms
def ptr_loc(p):
    """Location a pointer term points to."""
    if p.op == 'addr':
        return p.args[0]
    if p.op == 'ptradd':
        return mk('at', p.args[0], p.args[1])
    return mk('at', p, ZERO)


def loc_ptr(loc):
    if loc.op == 'at' and loc.args[1] is ZERO:
        return loc.args[0]
    if loc.op == 'at':
        return mk('ptradd', loc.args[0], loc.args[1])
    return mk('addr', loc)


def initf(p, *fields):
    """Initial value of p->f1.f2..."""
    l = ptr_loc(p)
    for f in fields:
        l = mk('fld', l, f)
    return mk('init', l)


def vloc(t):
    """Location whose (initial, havocked...) value t is."""
    if t.op == 'init' or t.op == 'hv':
        return t.args[0]
    if t.op == 'phi':
        return t.args[2]
    return None


def fieldof(t, *fields):
    """Base pointer p if t is the value of p->f1.f2, else None."""
    l = vloc(t)
    if l is None:
        return None
    for f in reversed(fields):
        if l.op != 'fld' or l.args[1] != f:
            return None
        l = l.args[0]
    return loc_ptr(l)


def fieldchain(t):
    """(base loc, (fields...)) of a value's location."""
    l = vloc(t)
    fs = []
    while l is not None and l.op == 'fld':
        fs.append(l.args[1])
        l = l.args[0]
    return l, tuple(reversed(fs))


def path_owner(t):
    """Node pointer p such that t is p->path (or its C string)."""
    t = strip_cstr(t)
    return fieldof(t, 'path')


def strip_cstr(t):
    while True:
        if t.op == 'pure' and t.args[0] in ('cstr', 'strCopy', 'strCopyRaw',
                                            'str'):
            t = t.args[1][0]
        else:
            return t


def env_values(facts, leaves):
    """All assignments of the finite leaves that the facts allow."""
    import itertools
    doms = [sorted(facts.domain(l)) for l in leaves]
    for vs in itertools.product(*doms):
        yield dict(zip(leaves, vs))


def restricted(facts, env):
    f = facts
    for l, v in env.items():
        f = f.restrict(l, v)
        if f is None:
            return None
    return f


def is_ret(r):
    return r.kind == 'ret'


# ------------------------------------------------------------- list loops
class ListLoop:
    """A loop that walks a linked list with a cursor."""

    def __init__(self, lid, phi, entry):
        self.lid = lid
        self.phi = phi
        self.entry = entry


def list_loops(it, recs):
    """Loops whose cursor advances by ->next only:
    {loop id: [ListLoop]}"""
    out = {}
    for p, d in it.phis.items():
        if 'lid' not in d or not d['back'] or len(d['entry']) < 1:
            continue
        ok = True
        for b in d['back']:
            l = vloc(b)
            if not (l is not None and l.op == 'fld' and
                    l.args[1] == 'next' and loc_ptr(l.args[0]) is p):
                ok = False
        if ok:
            out.setdefault(d['lid'], []).append(
                ListLoop(d['lid'], p, d['entry']))
    return out


def lid_of(ev):
    return ev.args[0].args


def loop_exits_at_end(recs, phi, lid):
    """Records that leave the loop although the cursor may be non-null."""
    bad = []
    for r in recs:
        for e in r.events():
            if e.kind == 'exit' and lid_of(e) == lid:
                if e.facts.decide(mk('eq', phi, ZERO)) is not True:
                    bad.append((r, e))
    return bad


def in_loop(r, lid):
    """Record ends within the loop body through return."""
    opened = False
    for e in r.events():
        if e.kind == 'loop' and lid_of(e) == lid:
            opened = True
        if e.kind == 'exit' and lid_of(e) == lid:
            opened = False
        if e.kind == 'back' and lid_of(e) == lid:
            opened = False
    return opened


def h2s(prog, v):
    names = {n: x for x, n in prog.enums.items() if x.startswith('BH_')}
    if v in names:
        return names[v]
    return '|'.join(n for x, n in sorted(
        (x, n) for x, n in names.items() if x and x & v and
        x & (x - 1) == 0 and x >= 16)) or str(v)

"""Frontend: parses /repo's current sources with clang and converts the
type-checked AST into a compact tree for the analyses in this directory.

Nothing is executed: clang runs with -fsyntax-only and dumps its AST."""
import bisect
import concurrent.futures
import glob
import json
import os
import re
import subprocess
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
FLAGS = ['-std=c99', '-D_XOPEN_SOURCE=600', '-D_FILE_OFFSET_BITS=64']


class AnalysisError(Exception):
    """The analysis could not be carried out (never a verdict)."""


class Node:
    __slots__ = ('kind', 'ty', 'line', 'file', 'kids', 'name', 'val', 'decl',
                 'op', 'cast', 'arrow', 'extra', 'nid')

    def __init__(self, kind):
        self.kind = kind
        self.ty = None
        self.line = 0
        self.file = None
        self.kids = ()
        self.name = None
        self.val = None
        self.decl = None
        self.op = None
        self.cast = None
        self.arrow = False
        self.extra = None
        self.nid = 0

    def __repr__(self):
        return '%s@%s:%s(%s)' % (self.kind, self.file, self.line,
                                 self.name or self.op or self.val or '')

    def walk(self):
        yield self
        for k in self.kids:
            if k is not None:
                yield from k.walk()


class Func:
    __slots__ = ('name', 'file', 'line', 'static', 'params', 'body', 'ret',
                 'key', 'variadic')


class Program:
    def __init__(self):
        self.funcs = {}      # key -> Func ; key = name or file:name (static)
        self.by_file = {}    # (file, name) -> Func for static functions
        self.globals = {}    # (file, name) -> (type, init Node, static)
        self.enums = {}      # enumerator -> value
        self.enum_types = {}  # enum/typedef name -> [values]
        self.records = {}    # record name -> [(field, type)]
        self.files = []
        self.units = 0
        self.nodes = 0
        self.anon = {}
        self.conststrs = {}  # (file, name[@id]) -> literal
        self.consttables = {}  # (file, name[@id]) -> initialiser
        self._cp = {}
        self.protos = {}     # function name -> raw type of its declaration

    def const_params(self, name):
        """[bool]: parameter is a pointer to something const"""
        r = self._cp.get(name)
        if r is None:
            q = self.protos.get(name)
            r = []
            if q and '(' in q:
                depth = 0
                cur = ''
                start = q.index('(')
                if q[start:start + 2] == '(*':
                    start = q.index('(', start + 1)
                for ch in q[start + 1:]:
                    if ch == '(':
                        depth += 1
                    if ch == ')':
                        if depth == 0:
                            break
                        depth -= 1
                    if ch == ',' and depth == 0:
                        r.append(cur)
                        cur = ''
                    else:
                        cur += ch
                r.append(cur)
                r = [bool(re.match(r'^\s*const\b', x)) or '*' not in x
                     for x in r]
            self._cp[name] = r
        return r

    def resolve(self, name, file):
        f = self.by_file.get((file, name))
        if f is not None:
            return f
        return self.funcs.get(name)


QUAL = re.compile(r'\b(const|volatile|restrict|register)\b')


def normtype(q):
    q = QUAL.sub('', q)
    q = re.sub(r'\s+', ' ', q).strip()
    q = q.replace(' *', '*').replace('* ', '*')
    q = re.sub(r'\s*\*\s*', '*', q)
    return q


def tyof(d):
    t = d.get('type')
    if not t:
        return None
    q = normtype(t['qualType'])
    return q


_counter = [0]


class Conv:
    def __init__(self, prog, file, src, data):
        self.prog = prog
        self.file = file
        self.lines = [0]
        for m in re.finditer(b'\n', src):
            self.lines.append(m.end())
        self.data = data
        self.typedefs = {}

    def line(self, d):
        r = d.get('range', {}).get('begin', {})
        if 'expansionLoc' in r:
            r = r['expansionLoc']
        off = r.get('offset')
        if off is None:
            r = d.get('loc', {})
            if 'expansionLoc' in r:
                r = r['expansionLoc']
            off = r.get('offset')
        if off is None:
            return 0
        return bisect.bisect_right(self.lines, off)

    def node(self, d):
        if d is None or 'kind' not in d:
            return None
        k = d['kind']
        n = Node(k)
        self.prog.nodes += 1
        _counter[0] += 1
        n.nid = _counter[0]
        n.file = self.file
        n.line = self.line(d)
        n.ty = tyof(d)
        inner = d.get('inner', [])
        if k in ('ParenExpr', 'ConstantExpr') and len(inner) >= 1:
            sub = [x for x in inner if x.get('kind')]
            return self.node(sub[0])
        if k == 'IntegerLiteral':
            n.val = int(d['value'])
        elif k == 'CharacterLiteral':
            n.val = int(d['value'])
        elif k == 'FloatingLiteral':
            n.val = d['value']
        elif k == 'StringLiteral':
            n.val = d['value']
        elif k == 'DeclRefExpr':
            r = d['referencedDecl']
            n.name = r.get('name')
            n.decl = (r['kind'], r['id'])
        elif k == 'MemberExpr':
            n.name = d.get('name', '')
            n.arrow = bool(d.get('isArrow'))
            n.extra = d.get('referencedMemberDecl')
        elif k in ('BinaryOperator', 'UnaryOperator',
                   'CompoundAssignOperator'):
            n.op = d['opcode']
            if k == 'UnaryOperator':
                n.extra = d.get('isPostfix', False)
        elif k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            n.cast = d.get('castKind')
        elif k == 'UnaryExprOrTypeTraitExpr':
            n.name = d.get('name')
            at = d.get('argType')
            n.extra = normtype(at['qualType']) if at else None
        elif k in ('VarDecl', 'ParmVarDecl'):
            n.name = d.get('name')
            n.decl = (k, d['id'])
            n.extra = d.get('storageClass')
            self.conststr(d, n.name + '@' + d['id'])
        elif k == 'LabelStmt':
            n.name = d.get('name')
            n.decl = ('LabelDecl', d.get('declId'))
        elif k == 'GotoStmt':
            n.decl = ('LabelDecl', d.get('targetLabelDeclId'))
        elif k == 'InitListExpr':
            f = d.get('field')
            n.extra = f.get('name') if f else None
            if 'array_filler' in d:
                inner = [x for x in d['array_filler']
                         if x.get('kind') != 'ImplicitValueInitExpr']
        elif k == 'IfStmt':
            n.extra = bool(d.get('hasElse'))
        elif k == 'CaseStmt':
            pass
        kids = []
        if k == 'ForStmt':
            # init, (cond var), cond, inc, body : empty entries are {}
            kids = [self.node(x) if x.get('kind') else None for x in inner]
            n.kids = tuple(kids)
            return n
        for x in inner:
            if x.get('kind') in ('FullComment', 'TextComment', None) or \
               (x.get('kind') or '').endswith('Attr'):
                continue
            kids.append(self.node(x))
        n.kids = tuple(kids)
        return n

    def run(self):
        p = self.prog
        for d in self.data['inner']:
            k = d.get('kind')
            if k == 'EnumDecl':
                self.enum(d)
            elif k == 'RecordDecl':
                self.record(d)
            elif k == 'TypedefDecl':
                self.typedef(d)
            elif k == 'FunctionDecl':
                p.protos[d['name']] = d['type']['qualType']
                body = [x for x in d.get('inner', [])
                        if x.get('kind') == 'CompoundStmt']
                if not body or d.get('storageClass') == 'extern' and not body:
                    continue
                loc = d.get('loc', {})
                if 'includedFrom' in loc or 'includedFrom' in \
                        loc.get('expansionLoc', {}):
                    # inline function of a header
                    if d.get('storageClass') != 'static' and \
                            not d.get('inline'):
                        continue
                self.nested(body[0])
                f = Func()
                f.name = d['name']
                f.file = self.file
                f.line = self.line(d)
                f.static = d.get('storageClass') == 'static'
                f.ret = normtype(d['type']['qualType'].split('(')[0])
                f.variadic = bool(d.get('variadic'))
                f.params = []
                for x in d.get('inner', []):
                    if x.get('kind') == 'ParmVarDecl':
                        f.params.append((x.get('name', ''), tyof(x), x['id']))
                f.body = self.node(body[0])
                f.key = (self.file + ':' + f.name) if f.static else f.name
                p.funcs[f.key] = f
                if f.static:
                    p.by_file[(self.file, f.name)] = f
            elif k == 'VarDecl':
                init = [x for x in d.get('inner', []) if x.get('kind')
                        and not x['kind'].endswith('Attr')
                        and x['kind'] != 'FullComment']
                if d.get('storageClass') == 'extern' and not init:
                    continue
                self.conststr(d, d['name'])
                p.globals[(self.file, d['name'])] = (
                    tyof(d), self.node(init[0]) if init else None,
                    d.get('storageClass') == 'static')

    def conststr(self, d, name):
        """Constant arrays and pointers initialised with a literal."""
        q = (d.get('type') or {}).get('qualType', '')
        i = d.get('inner', [])
        if re.match(r'(const char|char const) ?(\[\d+\]|\*const)$', q) and \
                i:
            x = i[-1]
            while x.get('kind') == 'ImplicitCastExpr':
                x = x['inner'][0]
            if x.get('kind') == 'StringLiteral':
                self.prog.conststrs[(self.file, name)] = x['value']
        m = re.match(r'([^\[\]]*)\[\d+\]$', q)
        if m and i and i[-1].get('kind') == 'InitListExpr':
            el = m.group(1).strip()
            if el.endswith('const') or '*' not in el and \
                    'const' in el.split():
                self.prog.consttables[(self.file, name)] = self.node(i[-1])

    def nested(self, d):
        """Types declared inside of a function."""
        for x in d.get('inner', []):
            if x.get('kind') == 'EnumDecl':
                self.enum(x)
            elif x.get('kind') == 'RecordDecl':
                self.record(x)
            if x.get('inner'):
                self.nested(x)

    def enum(self, d, name=None):
        val = -1
        vals = []
        for x in d.get('inner', []):
            if x.get('kind') != 'EnumConstantDecl':
                continue
            c = [y for y in x.get('inner', [])
                 if y.get('kind') in ('ConstantExpr', 'ImplicitCastExpr')]
            if c and 'value' in c[0]:
                val = int(c[0]['value'])
            elif c and c[0].get('inner') and 'value' in c[0]['inner'][0]:
                val = int(c[0]['inner'][0]['value'])
            else:
                val += 1
            self.prog.enums[x['name']] = val
            vals.append((x['name'], val))
        self.anon_enum = vals
        self.prog.anon[(self.file, d['id'])] = ('enum', vals)
        if d.get('name'):
            self.prog.enum_types['enum ' + d['name']] = vals

    def record(self, d):
        fields = []
        last = None
        for x in d.get('inner', []):
            if x.get('kind') == 'EnumDecl':
                self.enum(x)
            elif x.get('kind') == 'RecordDecl':
                self.record(x)
                last = x['id']
            elif x.get('kind') == 'FieldDecl':
                t = tyof(x)
                if '(anonymous' in t or '(unnamed' in t:
                    t = 'anon:' + self.file + ':' + (last or '')
                fields.append((x.get('name', ''), t))
        if fields:
            self.prog.anon[(self.file, d['id'])] = ('record', fields, d.get('tagUsed'))
            self.prog.records['anon:' + self.file + ':' + d['id']] = (
                fields, d.get('tagUsed'))
            if d.get('name'):
                self.prog.records[d['name']] = (fields, d.get('tagUsed'))
                self.prog.records['struct ' + d['name']] = (
                    fields, d.get('tagUsed'))

    def typedef(self, d):
        def find(x):
            if isinstance(x, dict):
                od = x.get('ownedTagDecl') or x.get('decl')
                if od and (self.file, od.get('id')) in self.prog.anon:
                    return self.prog.anon[(self.file, od['id'])]
                for y in x.get('inner', []):
                    r = find(y)
                    if r:
                        return r
            return None
        r = find(d)
        if r:
            if r[0] == 'enum':
                self.prog.enum_types[d['name']] = r[1]
            else:
                if 'pointer' not in json.dumps(d.get('inner', []))[:200]:
                    self.prog.records.setdefault(d['name'], (r[1], r[2]))
        else:
            t = d.get('type', {}).get('qualType')
            if t and len(t) < 80:
                self.prog.anon.setdefault('typedef:' + d['name'], normtype(t))


def _dump(args):
    repo, f = args
    cmd = ['clang'] + FLAGS + ['-I' + repo + '/src',
                               '-I' + repo + '/third-party', '-w',
                               '-fsyntax-only', '-Xclang', '-ast-dump=json',
                               repo + '/' + f]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        return f, None, r.stderr.decode(errors='replace')
    return f, r.stdout, None


def load(repo=None, extra=()):
    sys.setrecursionlimit(20000)
    repo = repo or REPO
    prog = Program()
    prog.root = repo
    files = sorted(os.path.relpath(x, repo)
                   for x in glob.glob(repo + '/src/*.c')) + list(extra)
    if len(files) < 15:
        raise AnalysisError('only %d translation units found' % len(files))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(_dump, [(repo, f) for f in files]))
    for f, out, err in res:
        if out is None:
            raise AnalysisError('clang failed on %s: %s' % (f, err[:500]))
        with open(os.path.join(repo, f), 'rb') as fh:
            src = fh.read()
        Conv(prog, f, src, json.loads(out)).run()
        prog.files.append(f)
        prog.units += 1
    return prog


if __name__ == '__main__':
    import time
    t = time.time()
    p = load()
    print(len(p.funcs), p.nodes, time.time() - t)
    for k, v in sorted(p.enum_types.items()):
        if 'B' in k or 'S' in k:
            print(k, v[:30])
    for r in ('PathNode', 'PathState', 'StringView', 'RepoWriter',
              'SearchResult'):
        print(r, p.records.get(r))

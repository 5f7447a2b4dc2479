"""Mechanical extraction: clang's typed AST of the headers in /repo/include.

Nothing here is hand-written about HART: the translation unit only includes hart.hpp and
forces template instantiation; every function body that is verified comes from clang's AST of
the current working tree."""
import json, os, re, subprocess, hashlib, sys, tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
FLAGS = ['-std=c++11', '-I%s/include' % REPO, '-I%s/dependencies/CLI11' % REPO,
         '-I%s/dependencies/dr_libs' % REPO, '-w']


class ExtractionError(Exception):
    pass


def run_clang(src, filt):
    with tempfile.TemporaryDirectory(prefix='hartverif') as d:
        p = os.path.join(d, 'tu.cpp')
        with open(p, 'w') as f:
            f.write(src)
        out = os.path.join(d, 'ast.json')
        with open(out, 'w') as f:
            r = subprocess.run(['clang++'] + FLAGS + ['-fsyntax-only', '-Xclang', '-ast-dump=json',
                               '-Xclang', '-ast-dump-filter=' + filt, p], stdout=f,
                               stderr=subprocess.PIPE, text=True, timeout=300)
        if r.returncode != 0:
            raise ExtractionError('clang: ' + r.stderr[-2000:])
        return open(out).read()


def parse_docs(s):
    d = json.JSONDecoder()
    i, n, out = 0, len(s), []
    while True:
        while i < n and s[i].isspace():
            i += 1
        if i >= n:
            return out
        o, i = d.raw_decode(s, i)
        out.append(o)


def norm(q):
    """canonical spelling of a type"""
    q = re.sub(r'\b(const|volatile|struct|class|enum|typename)\b', ' ', q)
    q = re.sub(r'\b(hart|std|__cxx11|signalsmith|plot)::', '', q)
    q = q.replace('(anonymous namespace)::', '')
    q = re.sub(r'\s+', ' ', q).strip()
    q = re.sub(r'\s*([<>,*&:()])\s*', r'\1', q)
    q = re.sub(r'\s+', ' ', q)
    return q


def strip_ref(q):
    while q.endswith('&'):
        q = q[:-1]
    return q


def strip_defaults(q):
    """drop allocator/hash/deleter arguments of std templates"""
    return q


def is_ref(q):
    q = q.strip()
    return q.endswith('&')


def qtype(node):
    t = node.get('type') or {}
    return t.get('desugaredQualType') or t.get('qualType') or ''


class Class:
    def __init__(self, name, node):
        self.name, self.node = name, node
        self.fields, self.methods, self.ctors, self.bases = [], {}, [], []

    def __repr__(self):
        return 'Class(%s)' % self.name


class Unit:
    def __init__(self, src, filt='hart::'):
        self.src = src
        self.docs = parse_docs(run_clang(src, filt))
        self.byid, self.cls, self.funcs, self.enums, self.enumtypes = {}, {}, {}, {}, set()
        self.enumvals = {}
        self.owner = {}
        self.mangled = {}
        for d in self.docs:
            self.walk(d, None, False)
        # link out-of-line definitions
        self.bodies = {}

    # --- indexing -----------------------------------------------------------
    def walk(self, n, cls, dep):
        if not isinstance(n, dict) or 'kind' not in n:
            return
        k = n['kind']
        if k.endswith('Comment'):
            return
        if 'id' in n:
            self.byid.setdefault(n['id'], n)
        if k in ('ClassTemplateSpecializationDecl', 'CXXRecordDecl') and n.get('name'):
            name = n['name']
            if k == 'ClassTemplateSpecializationDecl':
                args = []
                for i in n.get('inner', []):
                    if i.get('kind') == 'TemplateArgument':
                        args.append(norm((i.get('type') or {}).get('qualType') or str(i.get('value', '?'))))
                name += '<' + ','.join(args) + '>'
            full = (cls.name + '::' + name) if cls and not dep else name
            if n.get('isImplicit'):
                return
            if n.get('completeDefinition') or any(i.get('kind') in ('FieldDecl', 'CXXMethodDecl') for i in n.get('inner', [])):
                c = Class(full, n)
                if not dep and full not in self.cls:
                    self.cls[full] = c
                for b in n.get('bases', []):
                    bt = b.get('type', {})
                    c.bases.append(norm(bt.get('desugaredQualType') or bt.get('qualType')))
                for i in n.get('inner', []):
                    ik = i.get('kind')
                    if ik == 'FieldDecl':
                        c.fields.append(i)
                    elif ik == 'CXXMethodDecl':
                        c.methods.setdefault(i.get('name'), []).append(i)
                    elif ik == 'CXXConstructorDecl':
                        c.ctors.append(i)
                    elif ik == 'FunctionTemplateDecl':
                        for j in i.get('inner', []):
                            if j.get('kind') == 'CXXMethodDecl' and self.is_inst(j):
                                c.methods.setdefault(j.get('name'), []).append(j)
                            elif j.get('kind') == 'CXXConstructorDecl' and self.is_inst(j):
                                c.ctors.append(j)
                for i in n.get('inner', []):
                    self.owner[i.get('id')] = c
                    self.walk(i, c, dep)
                return
        if k == 'ClassTemplateDecl':
            for i in n.get('inner', []):
                ik = i.get('kind')
                if ik == 'CXXRecordDecl':
                    self.walk_ids(i)      # the uninstantiated pattern: ids only
                else:
                    self.walk(i, cls, dep)
            return
        if k == 'EnumDecl':
            self.enum(n, cls)
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl'):
            self.owner.setdefault(n.get('id'), cls)
            if 'mangledName' in n and self.body(n) is not None:
                self.mangled.setdefault(n['mangledName'], n)
            if k == 'FunctionDecl':
                self.funcs.setdefault(n.get('name'), []).append(n)
        if k == 'FunctionTemplateDecl':
            for i in n.get('inner', []):
                if i.get('kind') in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl'):
                    if self.is_inst(i):
                        self.owner[i.get('id')] = cls
                        self.walk(i, cls, dep)
                    else:
                        self.walk_ids(i)
                else:
                    self.walk(i, cls, dep)
            return
        for i in n.get('inner', []):
            self.walk(i, cls, dep)

    @staticmethod
    def is_inst(n):
        return any(i.get('kind') == 'TemplateArgument' for i in n.get('inner', []))

    def walk_ids(self, n):
        if isinstance(n, dict):
            if 'id' in n:
                self.byid.setdefault(n['id'], n)
            for i in n.get('inner', []):
                self.walk_ids(i)

    def enum(self, n, cls):
        val = -1
        nm = n.get('name')
        if nm:
            self.enumtypes.add(nm)
            if cls:
                self.enumtypes.add(cls.name + '::' + nm)
        for i in n.get('inner', []):
            if i.get('kind') != 'EnumConstantDecl':
                continue
            v = None
            for j in i.get('inner', []):
                v = self.const_value(j)
            val = val + 1 if v is None else v
            self.enums[i['id']] = val
            self.enumvals[(nm, i.get('name'))] = val
            if cls:
                self.enumvals[(cls.name.split('<')[0] + '::' + (nm or ''), i.get('name'))] = val

    def enum_value(self, enum, name):
        if (enum, name) not in self.enumvals:
            raise ExtractionError('enumerator %s::%s not found' % (enum, name))
        return self.enumvals[(enum, name)]

    def const_value(self, j):
        if not isinstance(j, dict):
            return None
        if j.get('kind') == 'ConstantExpr' and 'value' in j:
            return int(j['value'])
        if j.get('kind') == 'IntegerLiteral':
            return int(j['value'])
        for x in j.get('inner', []):
            v = self.const_value(x)
            if v is not None:
                return v
        return None

    @staticmethod
    def body(n):
        for i in n.get('inner', []):
            if i.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
                return i
        return None

    def definition(self, declid):
        n = self.byid.get(declid)
        if n is None:
            return None
        if self.body(n) is not None:
            return n
        m = n.get('mangledName')
        if m and m in self.mangled:
            return self.mangled[m]
        return n

    def params(self, n):
        return [i for i in n.get('inner', []) if i.get('kind') == 'ParmVarDecl']

    def find_class(self, name, ctx=None):
        if name in self.cls:
            return self.cls[name]
        if ctx is not None:
            c = self.cls.get(ctx.name + '::' + name)
            if c:
                return c
        hits = [c for k, c in self.cls.items() if k.endswith('::' + name)]
        if len(hits) == 1:
            return hits[0]
        return None

    def method(self, cname, mname, nparams=None, pred=None):
        c = self.cls.get(cname)
        if c is None:
            raise ExtractionError('class %s not found' % cname)
        ms = [self.definition(m['id']) for m in c.methods.get(mname, [])]
        ms = [m for m in ms if (nparams is None or len(self.params(m)) == nparams) and (pred is None or pred(m))]
        ms = [m for m in ms if self.body(m) is not None] or ms
        if not ms:
            raise ExtractionError('%s::%s not found' % (cname, mname))
        return ms[0]

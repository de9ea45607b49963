"""Front end: mechanical extraction of the real C++ code from /repo.

clang++ parses each translation unit of /repo's working tree and dumps its AST as JSON; this module
indexes every function body, class layout and static variable of namespace fuzzylite found there.
Nothing is hand written: the executor (exec.py) interprets exactly these trees.
"""
import json, os, re, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

sys.setrecursionlimit(20000)
REPO = os.environ.get('FVC_REPO', '/repo')
CLANG = ['clang++', '-std=gnu++11', '-DNDEBUG', '-DFL_BACKTRACE', '-I' + REPO, '-fsyntax-only', '-w',
         '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=fuzzylite']


class ExtractError(Exception):
    pass


def dump_ast(path):
    p = subprocess.run(CLANG + [path], capture_output=True, text=True)
    if p.returncode != 0:
        raise ExtractError('clang failed on %s: %s' % (path, p.stderr[-400:]))
    return p.stdout


def json_objs(s):
    d = json.JSONDecoder()
    i, n, out = 0, len(s), []
    while i < n:
        c = s[i]
        if c in ' \n\t':
            i += 1
        elif c != '{':
            j = s.find('\n', i)
            if j < 0:
                break
            i = j + 1
        else:
            o, i = d.raw_decode(s, i)
            out.append(o)
    return out


def norm_type(t):
    """Normalise a clang type spelling."""
    t = t.replace('fuzzylite::', '').replace('class ', '').replace('struct ', '').replace('enum ', '')
    t = re.sub(r'\bscalar\b', 'double', t)
    t = t.replace('std::basic_string<char>', 'std::string').replace(
        'basic_string<char, char_traits<char>, allocator<char>>', 'std::string').replace(
        'std::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::string').replace(
        'std::__cxx11::std::string', 'std::string').replace('std::__cxx11::', 'std::')
    return t.strip()


class Fn:
    __slots__ = ('mangled', 'name', 'cls', 'params', 'body', 'inits', 'tu', 'static', 'virtual', 'pure',
                 'const', 'ret', 'node', 'kind', 'ftype', 'line', 'file', 'implicit', 'defaulted')

    @property
    def qual(self):
        return (self.cls + '::' if self.cls else '') + self.name

    def __repr__(self):
        return '<Fn %s %s>' % (self.qual, self.ftype)


class Cls:
    def __init__(self, name):
        self.name = name
        self.bases = []
        self.fields = []      # (name, type, initnode)
        self.methods = {}     # (name, sig) -> mangled
        self.complete = False
        self.tu = None
        self.ctors = []       # mangled


class TU:
    def __init__(self, path):
        self.path = path
        self.decl = {}     # id -> node (Var/Field/Parm/Enum const/Function decl)
        self.owner = {}    # decl id -> class name
        self.fn = {}       # id -> mangled


class Prog:
    """Lazy whole program view."""

    def __init__(self, repo=REPO):
        self.repo = repo
        self.tus = {}
        self.funcs = {}       # mangled -> Fn with a body
        self.decls = {}       # mangled -> Fn (declaration only)
        self.classes = {}
        self.statics = {}     # qual name -> (type, init node, tu)
        self.enums = {}       # enum constant id-key handled per TU
        self.files = self._sources()
        self.missing = set()
        self.bykey = {}
        self.enum_types = set()

    def _sources(self):
        out = []
        for r, _, fs in os.walk(os.path.join(self.repo, 'src')):
            for f in fs:
                if f.endswith('.cpp') and f != 'main.cpp':
                    out.append(os.path.join(r, f))
        return sorted(out)

    def load(self, rels):
        """Load translation units (paths relative to src/)."""
        todo = []
        for r in rels:
            p = r if r.startswith('/') else os.path.join(self.repo, 'src', r)
            if p not in self.tus and p not in todo:
                if not os.path.exists(p):
                    continue
                todo.append(p)
        if not todo:
            return
        with ThreadPoolExecutor(8) as ex:
            futs = [(p, ex.submit(dump_ast, p)) for p in todo]
            for p, f in futs:
                self._index(p, f.result())

    def load_all(self):
        self.load(self.files)

    # ------------------------------------------------------------------ indexing
    def _index(self, path, text):
        tu = TU(path)
        self.tus[path] = tu
        for o in json_objs(text):
            if o.get('kind') == 'NamespaceDecl':
                self._walk(o, '', tu)

    def _walk(self, n, cls, tu):
        for m in n.get('inner', ()):
            k = m.get('kind')
            if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl'):
                self._record(m, cls, tu)
            elif k in ('CXXMethodDecl', 'FunctionDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
                self._func(m, cls, tu)
            elif k == 'VarDecl':
                self._var(m, cls, tu)
            elif k == 'EnumDecl':
                self._enum(m, cls, tu)
            elif k in ('FunctionTemplateDecl', 'ClassTemplateDecl', 'NamespaceDecl', 'LinkageSpecDecl'):
                self._walk(m, cls, tu)

    def _enum(self, m, cls, tu):
        val = -1
        if m.get('name'):
            self.enum_types.add((cls + '::' if cls else '') + m['name'])
            self.enum_types.add(m['name'])
        for c in m.get('inner', ()):
            if c.get('kind') == 'EnumConstantDecl':
                val += 1
                for e in c.get('inner', ()):
                    v = _find_value(e)
                    if v is not None:
                        val = v
                c['_val'] = val
                tu.decl[c['id']] = c
                tu.owner[c['id']] = cls

    def _record(self, m, outer, tu):
        name = m.get('name')
        if not name:
            return
        if m['kind'] == 'ClassTemplateSpecializationDecl':
            args = [norm_type(a.get('type', {}).get('qualType', '?')) for a in m.get('inner', ())
                    if a.get('kind') == 'TemplateArgument']
            name = '%s<%s>' % (name, ', '.join(args))
        if outer and m.get('isImplicit') and outer.split('::')[-1] == name:
            tu.owner[m['id']] = outer       # the injected class name
            return
        if outer:
            q = outer + '::' + name
        elif m.get('parentDeclContextId') in tu.owner and tu.owner[m['parentDeclContextId']]:
            q = tu.owner[m['parentDeclContextId']] + '::' + name
        else:
            q = name
        tu.owner[m['id']] = q
        tu.decl[m['id']] = m
        c = self.classes.setdefault(q, Cls(q))
        if m.get('completeDefinition') and m.get('inner') is not None or m.get('completeDefinition'):
            if not c.complete:
                c.complete = True
                c.tu = tu
                c.bases = [norm_type(b['type'].get('desugaredQualType', b['type']['qualType'])) for b in m.get('bases', ())]
                first = True
            else:
                first = False
            for f in m.get('inner', ()):
                if f.get('kind') == 'FieldDecl':
                    tu.decl[f['id']] = f
                    tu.owner[f['id']] = q
                    if first:
                        init = None
                        for x in f.get('inner', ()):
                            if x.get('kind', '').endswith('Expr') or x.get('kind', '').endswith('Literal'):
                                init = x
                        c.fields.append((f.get('name'), self.type_of(f), init))
        self._walk(m, q, tu)

    @staticmethod
    def type_of(n):
        t = n.get('type') or {}
        return norm_type(t.get('desugaredQualType') or t.get('qualType') or '')

    def _var(self, m, cls, tu):
        tu.decl[m['id']] = m
        tu.owner[m['id']] = cls
        if not cls and m.get('parentDeclContextId') in tu.owner:
            cls = tu.owner[m['parentDeclContextId']]
        key = (cls + '::' if cls else '') + m.get('name', '')
        tu.owner[m['id']] = cls
        init = None
        if 'init' in m and m.get('inner'):
            for x in m['inner']:
                if x.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups')):
                    init = x
        if key not in self.statics or (init is not None and self.statics[key][1] is None):
            self.statics[key] = (self.type_of(m), init, tu)

    def _func(self, m, cls, tu):
        if not cls and m.get('parentDeclContextId') in tu.owner:
            cls = tu.owner[m['parentDeclContextId']]
        if m['id'] in tu.fn and not m.get('mangledName') and not any(x.get('kind') == 'CompoundStmt' for x in m.get('inner', ())):
            return    # re-mention of a template specialisation
        f = Fn()
        f.name = m.get('name')
        f.cls = cls
        f.kind = m['kind']
        f.mangled = m.get('mangledName') or (m['id'] + tu.path)
        if m['kind'] == 'CXXConstructorDecl':
            f.mangled = 'ctor:' + cls + ':' + norm_type(m['type']['qualType'])
        elif m['kind'] == 'CXXDestructorDecl':
            f.mangled = 'dtor:' + cls
        f.ftype = norm_type(m['type']['qualType'])
        f.ret = f.ftype[:f.ftype.index('(')].strip() if '(' in f.ftype else ''
        f.static = m.get('storageClass') == 'static'
        f.virtual = bool(m.get('virtual'))
        f.pure = bool(m.get('pure'))
        f.implicit = bool(m.get('isImplicit'))
        f.defaulted = m.get('explicitlyDefaulted') == 'default'
        f.const = f.ftype.rstrip().endswith('const')
        f.node = m
        f.tu = tu
        f.params, f.body, f.inits = [], None, []
        f.file = tu.path
        f.line = (m.get('loc') or {}).get('line')
        isdep = False
        for x in m.get('inner', ()):
            k = x.get('kind')
            if k == 'ParmVarDecl':
                f.params.append(x)
                tu.decl[x['id']] = x
            elif k == 'CompoundStmt':
                f.body = x
            elif k == 'CXXTryStmt':
                f.body = x
            elif k == 'CXXCtorInitializer':
                f.inits.append(x)
            elif k == 'OverrideAttr':
                f.virtual = True
            elif k == 'TemplateArgument':
                pass
        tu.decl[m['id']] = m
        tu.fn[m['id']] = f
        tu.owner[m['id']] = cls
        if cls:
            c = self.classes.setdefault(cls, Cls(cls))
            sig = self.sig(f)
            if (f.name, sig) not in c.methods or f.virtual:
                c.methods[(f.name, sig)] = f.mangled
            if f.kind == 'CXXConstructorDecl' and f.mangled not in c.ctors:
                c.ctors.append(f.mangled)
        old = self.decls.get(f.mangled)
        if old is None:
            self.decls[f.mangled] = f
        else:
            old.virtual = old.virtual or f.virtual
            f.virtual = old.virtual
            f.static = f.static or old.static
            old.static = f.static
            f.pure = old.pure or f.pure
        if f.body is not None and f.mangled not in self.funcs:
            self.funcs[f.mangled] = f

    @staticmethod
    def sig(f):
        t = f.ftype
        i = t.index('(') if '(' in t else 0
        return t[i:].replace(' noexcept', '')

    # ------------------------------------------------------------------ lookup
    def fn_by_decl(self, tu, did):
        f = tu.fn.get(did)
        return f

    def body(self, mangled):
        """Fn with body, loading the defining TU on demand; None if there is no definition."""
        f = self.funcs.get(mangled)
        if f is not None:
            return f
        d = self.decls.get(mangled)
        if d is None or mangled in self.missing:
            return None
        if d.pure:
            return None
        base = d.cls.split('::')[0].split('<')[0] if d.cls else ''
        cands = []
        if base:
            for p in self.files:
                if p in self.tus:
                    continue
                if os.path.basename(p) == base + '.cpp':
                    cands.insert(0, p)
        if cands:
            self.load(cands)
            if mangled in self.funcs:
                return self.funcs[mangled]
        pat = re.compile(r'\b%s\b' % re.escape(d.name.replace('~', '')))
        cands = []
        for p in self.files:
            if p not in self.tus:
                txt = open(p, errors='replace').read()
                if (base and ('%s::' % base) in txt or not base) and pat.search(txt) and not (d.implicit or d.defaulted):
                    # a definition looks like "Class::name("
                    q = re.compile(r'%s\s*::\s*~?%s\s*\(' % (re.escape(d.cls.split('::')[-1]) if d.cls else '', re.escape(d.name.replace('~', ''))))
                    if not d.cls or q.search(txt):
                        cands.append(p)
        for p in cands:
            self.load([p])
            if mangled in self.funcs:
                return self.funcs[mangled]
        self.missing.add(mangled)
        return None

    def find(self, qual, npar=None, contains=None, const=None):
        """Find a function with a body by qualified name, e.g. 'Triangle::membership'."""
        if '::' in qual:
            cls, name = qual.rsplit('::', 1)
        else:
            cls, name = '', qual
        if cls and (cls not in self.classes or not self.classes[cls].complete):
            self.load([p for p in self.files if os.path.basename(p) == cls.split('::')[0] + '.cpp'])
        out = []
        seen = set()
        for f in list(self.funcs.values()) + list(self.decls.values()):
            if f.name == name and f.cls == cls and f.mangled not in seen:
                seen.add(f.mangled)
                if npar is not None and len(f.params) != npar:
                    continue
                if contains is not None and contains not in f.ftype:
                    continue
                if const is not None and f.const != const:
                    continue
                b = self.body(f.mangled)
                if b is not None:
                    out.append(b)
        if not out:
            raise ExtractError('no definition of %s in %s' % (qual, self.repo))
        if len(out) > 1:
            raise ExtractError('ambiguous %s: %s' % (qual, [o.ftype for o in out]))
        return out[0]

    def resolve_class(self, name, ctx=''):
        """Resolve a class spelling (possibly unqualified nested) to a known class key."""
        name = name.replace('const ', '').strip()
        if name in self.classes:
            return name
        if ctx:
            parts = ctx.split('::')
            while parts:
                q = '::'.join(parts) + '::' + name
                if q in self.classes:
                    return q
                parts.pop()
        c = [k for k in self.classes if k.endswith('::' + name)]
        if len(c) == 1:
            return c[0]
        return None

    def bases_of(self, cls):
        """cls and all its ancestors, most derived first."""
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c in out or c not in self.classes:
                continue
            out.append(c)
            todo += self.classes[c].bases
        return out

    def all_fields(self, cls):
        out = []
        for c in reversed(self.bases_of(cls)):
            for (n, t, i) in self.classes[c].fields:
                out.append((c, n, t, i))
        return out

    def is_subclass(self, c, b):
        return b in self.bases_of(c)

    def override(self, cls, name, sig):
        """The definition of virtual method (name, sig) seen from dynamic class cls."""
        for c in self.bases_of(cls):
            m = self.classes[c].methods.get((name, sig))
            if m:
                return m
        return None


def _find_value(e):
    if e.get('kind') == 'ConstantExpr' and 'value' in e:
        return int(e['value'])
    if e.get('kind') == 'IntegerLiteral':
        return int(e['value'])
    for x in e.get('inner', ()):
        v = _find_value(x)
        if v is not None:
            return v
    return None


if __name__ == '__main__':
    import time
    t = time.time()
    p = Prog()
    p.load(['Engine.cpp', 'term/Aggregated.cpp'])
    print(time.time() - t)
    print(p.find('Aggregated::membership'))
    print(p.find('Triangle::membership'))
    for c in ('Aggregated', 'Activated', 'Rule', 'Engine', 'RuleBlock', 'Antecedent', 'Discrete', 'Term'):
        print(c, p.classes[c].bases, p.classes[c].fields)
    print(len(p.classes), time.time() - t)
    print({k: v[0] for k, v in p.statics.items()})

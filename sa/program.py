"""Static model of the analysed program: modules, imports, classes, functions, protobuf messages."""
import ast
import copy
import os
import string
import re


class AnalysisError(Exception):
    """the machinery cannot give an answer (a public anchor vanished, a file does not parse, ...)"""


class FuncInfo:
    def __init__(self, module, node, cls=None, outer=None):
        self.module, self.node, self.cls = module, node, cls
        self.name = getattr(node, 'name', '<lambda>')
        self.qual = (cls.qual + '.' if cls else module.name + ':') + self.name
        decs = [ast.unparse(d) for d in getattr(node, 'decorator_list', [])]
        self.is_static = 'staticmethod' in decs
        self.is_class = 'classmethod' in decs
        self.is_property = 'property' in decs

    @property
    def where(self):
        return '%s:%d %s' % (self.module.rel, self.node.lineno, self.qual.split(':')[-1])


class ClassInfo:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.qual = module.name + ':' + node.name
        self.methods, self.attrs, self.ann = {}, {}, []
        self.is_dataclass = any('dataclass' in ast.unparse(d) for d in node.decorator_list)
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                self.methods[s.name] = FuncInfo(module, s, self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.ann.append((s.target.id, s.annotation, s.value))
                if s.value is not None:
                    self.attrs[s.target.id] = s.value
        self._mro = None

    @property
    def where(self):
        return '%s:%d class %s' % (self.module.rel, self.node.lineno, self.name)

    def __repr__(self):
        return '<class %s>' % self.qual


def plain(e):
    """an expression that has no effect"""
    return isinstance(e, (ast.Name, ast.Constant)) or isinstance(e, ast.Attribute) and plain(e.value) \
        or isinstance(e, ast.Tuple) and all(plain(x) for x in e.elts)


class Plain(ast.NodeTransformer):
    """other spellings of the same expression"""

    def visit_Call(self, e):
        self.generic_visit(e)
        f = e.func
        if isinstance(f, ast.Attribute) and f.attr == 'format' and isinstance(f.value, ast.Constant) \
                and isinstance(f.value.value, str) and not any(isinstance(a, ast.Starred) for a in e.args) \
                and all(k.arg for k in e.keywords):
            return self.filled(e, f.value.value) or e
        return e

    def filled(self, e, text):
        named, used, parts, auto = {k.arg: k.value for k in e.keywords}, [], [], 0
        try:
            for lit, name, spec, conv in string.Formatter().parse(text):
                if lit:
                    parts.append(ast.Constant(lit))
                if name is None:
                    continue
                if spec and '{' in spec:
                    return None
                if name == '':
                    name, auto = str(auto), auto + 1
                v = e.args[int(name)] if name.isdigit() else named[name]
                used.append(v)
                parts.append(ast.FormattedValue(v, ord(conv) if conv else -1,
                                                ast.JoinedStr([ast.Constant(spec)]) if spec else None))
        except (ValueError, KeyError, IndexError):
            return None
        if used != list(e.args) + [k.value for k in e.keywords]:
            return None
        return ast.fix_missing_locations(ast.copy_location(ast.JoinedStr(parts), e))

    def visit_BinOp(self, e):
        self.generic_visit(e)
        if isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
            vals = list(e.right.elts) if isinstance(e.right, ast.Tuple) else [e.right]
            bits = e.left.value.replace('%%', '\0').split('%s')
            single = isinstance(e.right, (ast.JoinedStr, ast.Constant, ast.Tuple)) \
                or isinstance(e.right, ast.Call) and isinstance(e.right.func, ast.Name) and e.right.func.id in ('str', 'len', 'int')
            if len(bits) == len(vals) + 1 and single and not any('%' in b for b in bits):
                parts = []
                for i, b in enumerate(bits):
                    if b:
                        parts.append(ast.Constant(b.replace('\0', '%')))
                    if i < len(vals):
                        parts.append(ast.FormattedValue(vals[i], -1, None))
                return ast.fix_missing_locations(ast.copy_location(ast.JoinedStr(parts), e))
        return e

    def visit_Try(self, s):
        """looking a missing key up is caught: the same as asking for the key first"""
        self.generic_visit(s)
        h = s.handlers[0] if len(s.handlers) == 1 and not s.finalbody and len(s.body) == 1 else None
        if h is None or h.name or not isinstance(h.type, ast.Name) or h.type.id != 'KeyError':
            return s
        b = s.body[0]
        if not isinstance(b, (ast.Return, ast.Assign, ast.AugAssign, ast.Delete, ast.Expr)):
            return s
        subs = [x for x in ast.walk(b) if isinstance(x, ast.Subscript)
                and (not isinstance(x.ctx, ast.Store) or isinstance(b, ast.AugAssign))]
        calls = [x for x in ast.walk(b) if isinstance(x, (ast.Call, ast.Lambda, ast.comprehension, ast.Await, ast.Yield))]
        if isinstance(b, ast.Expr) and len(calls) == 1 and b.value is calls[0] and not subs:
            c = calls[0]
            if not isinstance(c.func, ast.Attribute) or c.func.attr not in ('pop', 'remove') or len(c.args) != 1 \
                    or c.keywords or not plain(c.func.value) or not plain(c.args[0]):
                return s
            base, key = c.func.value, c.args[0]
        elif len(subs) == 1 and not calls and plain(subs[0].value) and plain(subs[0].slice):
            base, key = subs[0].value, subs[0].slice
        else:
            return s
        t = ast.Compare(copy.deepcopy(key), [ast.In()], [copy.deepcopy(base)])
        for x in ast.walk(t.comparators[0]):
            if isinstance(x, ast.Subscript):
                return s
        r = ast.If(t, [b] + s.orelse, h.body)
        return ast.fix_missing_locations(ast.copy_location(r, s))

    def visit_Subscript(self, e):
        self.generic_visit(e)
        i = e.slice
        if isinstance(i, ast.BinOp) and isinstance(i.op, ast.Sub) and isinstance(i.right, ast.Constant) \
                and type(i.right.value) is int and i.right.value == 1 and isinstance(i.left, ast.Call) \
                and isinstance(i.left.func, ast.Name) and i.left.func.id == 'len' and len(i.left.args) == 1 \
                and isinstance(i.left.args[0], (ast.Name, ast.Attribute)) \
                and ast.dump(i.left.args[0]) == ast.dump(e.value):
            e.slice = ast.copy_location(ast.UnaryOp(ast.USub(), i.right), i)
            ast.fix_missing_locations(e)
        return e


class Module:
    def __init__(self, prog, name, path, is_pkg):
        self.prog, self.name, self.path, self.is_pkg = prog, name, path, is_pkg
        self.rel = os.path.relpath(path, prog.repo)
        with open(path, encoding='utf8') as f:
            self.src = f.read()
        try:
            self.tree = Plain().visit(ast.parse(self.src))
        except SyntaxError as e:
            raise AnalysisError('cannot parse %s: %s' % (self.rel, e))
        self._b = None
        self._busy = False

    def abs_name(self, node):
        if node.level == 0:
            return node.module or ''
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        if node.level > 1:
            parts = parts[:-(node.level - 1)]
        return '.'.join(parts + ([node.module] if node.module else []))

    @property
    def bindings(self):
        if self._b is None:
            if self._busy:
                return {}
            self._busy = True
            self._b = {}
            self._collect(self.tree.body)
            self._busy = False
        return self._b

    def _collect(self, body):
        b = self._b
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                b[s.name] = ('func', FuncInfo(self, s))
            elif isinstance(s, ast.ClassDef):
                b[s.name] = ('class', ClassInfo(self, s))
            elif isinstance(s, ast.Import):
                for a in s.names:
                    nm = a.asname or a.name.split('.')[0]
                    full = a.name if a.asname else a.name.split('.')[0]
                    b[nm] = self.prog.mod_binding(full)
            elif isinstance(s, ast.ImportFrom):
                m = self.abs_name(s)
                for a in s.names:
                    if a.name == '*':
                        for k, v in self.prog.star(m).items():
                            if not k.startswith('_'):
                                b[k] = v
                    else:
                        b[a.asname or a.name] = self.prog.from_import(m, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    self._bind_target(t, s.value)
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                b[s.target.id] = ('expr', self, s.value)
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                b[s.target.id] = ('opaque', self, s.target.id)
            elif isinstance(s, ast.If):
                self._collect(s.body)
                self._collect(s.orelse)
            elif isinstance(s, ast.Try):
                self._collect(s.body)

    def _bind_target(self, t, value):
        if isinstance(t, ast.Name):
            self._b[t.id] = ('expr', self, value)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Name):
                    if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                        self._b[e.id] = ('expr', self, value.elts[i])
                    else:
                        self._b[e.id] = ('opaque', self, e.id)


class Program:
    def __init__(self, repo='/repo', pkg_dir='src/python/ficus', pkg='ficus', protos='protos', extra=None):
        self.repo, self.pkg = repo, pkg
        self.modules, self.paths = {}, {}
        root = os.path.join(repo, pkg_dir)
        if not os.path.isdir(root):
            raise AnalysisError('no package at ' + root)
        self._scan(root, pkg)
        if extra:
            for name, path in extra.items():
                self.paths[name] = (path, False)
        self.protos = parse_protos(os.path.join(repo, protos)) if protos else {}
        self.proto_files = {}
        for m in self.protos.values():
            self.proto_files.setdefault(m['file'], []).append(m['name'])

    @property
    def models(self):
        """library names with a model: name -> binding"""
        if not hasattr(self, '_models'):
            self._models = {}
            m = self.module('spec_lib_models') if 'spec_lib_models' in self.paths else None
            for s in m.tree.body if m else ():
                if isinstance(s, ast.Assign) and s.targets[0].id == 'MODELS':
                    for k, v in ast.literal_eval(s.value).items():
                        self._models[k] = m.bindings[v]
        return self._models

    def _scan(self, d, name):
        for e in sorted(os.listdir(d)):
            p = os.path.join(d, e)
            if os.path.isdir(p) and e != '__pycache__' and not e.startswith('.'):
                self._scan(p, name + '.' + e)
            elif e.endswith('.py'):
                if e == '__init__.py':
                    self.paths[name] = (p, True)
                else:
                    self.paths[name + '.' + e[:-3]] = (p, False)

    def norm(self, name):
        if name.startswith('python.' + self.pkg):
            name = name[len('python.'):]
        return name

    def module(self, name):
        name = self.norm(name)
        if name in self.modules:
            return self.modules[name]
        if name not in self.paths or self._is_pb(name):
            return None
        p, ispkg = self.paths[name]
        m = self.modules[name] = Module(self, name, p, ispkg)
        return m

    def _is_pb(self, name):
        return name.endswith('_pb2') or name.endswith('_pb2_grpc')

    def mod_binding(self, full):
        full = self.norm(full)
        if full in self.paths and not self._is_pb(full):
            return ('module', full)
        if any(k.startswith(full + '.') for k in self.paths):
            return ('module', full)
        return ('ext', full)

    def star(self, m):
        m = self.norm(m)
        if self._is_pb(m):
            base = m.split('.')[-1]
            out = {}
            if base.endswith('_pb2'):
                for n in self.proto_files.get(base[:-4], []):
                    out[n] = ('proto', n)
                out['DESCRIPTOR'] = ('ext', m + '.DESCRIPTOR')
            else:
                out['grpc'] = ('ext', 'grpc')
                path = self.paths.get(m)
                if path:
                    with open(path[0]) as f:
                        for c in re.findall(r'^class (\w+)', f.read(), re.M):
                            out[c] = ('ext', 'pb_grpc.' + c)
            return out
        mod = self.module(m)
        if mod is None:
            return {}
        allv = mod.bindings.get('__all__')
        if allv and allv[0] == 'expr' and isinstance(allv[2], (ast.List, ast.Tuple)):
            names = [e.value for e in allv[2].elts if isinstance(e, ast.Constant)]
            return {n: mod.bindings[n] for n in names if n in mod.bindings}
        return dict(mod.bindings)

    def from_import(self, m, name):
        m = self.norm(m)
        if self._is_pb(m):
            s = self.star(m)
            return s.get(name) or (('proto', name) if name in self.protos else ('ext', m + '.' + name))
        if self._is_pb(name):
            return ('ext', m + '.' + name)
        mod = self.module(m)
        if mod is not None and name in mod.bindings:
            return mod.bindings[name]
        if (m + '.' + name) in self.paths:
            return ('module', m + '.' + name)
        if mod is not None and mod._busy:
            return ('lazy', m, name)
        return ('ext', m + '.' + name)

    def resolve(self, module, name):
        b = module.bindings.get(name)
        hops = 0
        while b is not None and b[0] == 'lazy' and hops < 10:
            mod = self.module(b[1])
            b = mod.bindings.get(b[2]) if mod else None
            hops += 1
        return b

    # -------------------------------------------------------------- classes

    def all_modules(self):
        for n in sorted(self.paths):
            m = self.module(n)
            if m is not None:
                yield m

    def all_classes(self):
        for m in self.all_modules():
            for k, b in m.bindings.items():
                if b[0] == 'class' and b[1].module is m:
                    yield b[1]

    def all_functions(self):
        """every named function and method of the package"""
        for m in self.all_modules():
            for k, b in m.bindings.items():
                if b[0] == 'func' and b[1].module is m:
                    yield b[1]
                elif b[0] == 'class' and b[1].module is m:
                    yield from b[1].methods.values()

    def find_class(self, name, required=True):
        hits = [c for c in self.all_classes() if c.name == name]
        if not hits and required:
            raise AnalysisError('anchor class %s not found' % name)
        return hits[0] if hits else None

    def find_func(self, modname, fname, required=True):
        m = self.module(modname)
        b = self.resolve(m, fname) if m else None
        if b is None or b[0] != 'func':
            # moved elsewhere in the package
            hits = [f for f in self.all_functions() if f.name == fname and f.cls is None]
            if len(hits) == 1:
                return hits[0]
            if required:
                raise AnalysisError('anchor function %s.%s not found' % (modname, fname))
            return None
        return b[1]

    def bases(self, c):
        out = []
        for e in c.node.bases:
            if isinstance(e, ast.Name):
                b = self.resolve(c.module, e.id)
                if b and b[0] == 'class':
                    out.append(b[1])
                else:
                    out.append(e.id if not b else b[1] if b[0] == 'ext' else e.id)
            else:
                out.append(ast.unparse(e))
        return out

    def mro(self, c):
        if c._mro is None:
            seqs = []
            for b in self.bases(c):
                seqs.append(list(self.mro(b)) if isinstance(b, ClassInfo) else [b])
            seqs.append([b for b in self.bases(c)])
            out = [c]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in s if x is not h and x != h] for s in seqs]
                seqs = [s for s in seqs if s]
            c._mro = out
        return c._mro

    def is_enum(self, c):
        return any(isinstance(b, str) and b.split('.')[-1] in ('Enum', 'IntEnum') for b in self.mro(c))

    def is_dataclass(self, c):
        return any(isinstance(b, ClassInfo) and b.is_dataclass for b in self.mro(c))

    def lookup(self, c, name, after=None):
        m = self.mro(c)
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else m
        for k in m:
            if isinstance(k, ClassInfo):
                if name in k.methods:
                    return ('method', k.methods[name])
                if name in k.attrs:
                    return ('attr', k, k.attrs[name])
        return None

    def subclasses(self, c):
        return [d for d in self.all_classes() if d is not c and c in self.mro(d)]

    def overridden(self, c, name):
        base = self.lookup(c, name)
        return any(name in d.methods for d in self.subclasses(c)) and base is not None

    def only_getter(self, name):
        """the method of that name when the whole program has one, and it returns an expression over the
        attributes of self: a call of it on a value of unknown type runs this method"""
        if not hasattr(self, '_getters'):
            found = {}
            for c in self.all_classes():
                for n, f in c.methods.items():
                    found.setdefault(n, []).append(f)
            self._getters = {n: fs[0] for n, fs in found.items() if len(fs) == 1 and getter(fs[0])
                             and not any(hasattr(t, n) for t in (str, list, dict, set, tuple, bytes, int, float))}
        return self._getters.get(name)

    def param_effect(self, c, name, i):
        """what the implementations of a method may do to its i-th argument: 'none', 'append' or 'any'"""
        key = (c, name, i)
        if not hasattr(self, '_peff'):
            self._peff = {}
        if key not in self._peff:
            r = 'none'
            for d in [c] + self.subclasses(c):
                m = self.lookup(d, name) if d is c else (('method', d.methods[name]) if name in d.methods else None)
                if not m or m[0] != 'method':
                    continue
                a = m[1].node.args
                ps = [x.arg for x in a.posonlyargs + a.args][0 if m[1].is_static else 1:]
                if i >= len(ps):
                    r = 'any'
                    continue
                e = use_of(m[1].node, ps[i], name)
                r = e if ('none', 'append', 'any').index(e) > ('none', 'append', 'any').index(r) else r
            self._peff[key] = r
        return self._peff[key]

    def issub(self, c, name):
        return any((b.name if isinstance(b, ClassInfo) else str(b).split('.')[-1]) == name for b in self.mro(c))


def getter(f):
    """def m(self): return <expression over self's attributes, without calls>"""
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    a = f.node.args
    if len(body) != 1 or not isinstance(body[0], ast.Return) or body[0].value is None or f.node.decorator_list \
            or len(a.args) != 1 or a.kwonlyargs or a.vararg or a.kwarg or f.name.startswith('__'):
        return False
    own = a.args[0].arg
    return all(not isinstance(x, (ast.Call, ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Lambda, ast.comprehension))
               and (not isinstance(x, ast.Name) or x.id == own) for x in ast.walk(body[0].value))


def use_of(fn, p, own):
    """how a function may change its parameter p (calls of a method of the same name count as appending)"""
    parents = {}
    for n in ast.walk(fn):
        for ch in ast.iter_child_nodes(n):
            parents[ch] = n
    r = 'none'
    for n in ast.walk(fn):
        if not (isinstance(n, ast.Name) and n.id == p):
            continue
        if not isinstance(n.ctx, ast.Load):
            return 'any'
        q = parents.get(n)
        if isinstance(q, ast.Attribute) and isinstance(parents.get(q), ast.Call) and parents[q].func is q:
            if q.attr in ('append', 'extend'):
                r = 'append'
            elif q.attr not in ('get', 'items', 'keys', 'values', 'index', 'count', 'copy'):
                return 'any'
        elif isinstance(q, ast.Subscript) and q.value is n and isinstance(q.ctx, ast.Load):
            pass
        elif isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and q.func.attr == own and n in q.args:
            r = 'append'
        elif isinstance(q, (ast.Compare, ast.For, ast.comprehension)) or (
                isinstance(q, ast.Call) and isinstance(q.func, ast.Name) and q.func.id in ('len', 'list', 'set', 'sorted', 'print', 'str')):
            pass
        else:
            return 'any'
    return r


# ------------------------------------------------------------------ .proto

def parse_protos(d):
    out = {}
    if not os.path.isdir(d):
        return out
    for fn in sorted(os.listdir(d)):
        if fn.endswith('.proto'):
            with open(os.path.join(d, fn)) as f:
                src = f.read()
            src = re.sub(r'//[^\n]*', '', src)
            src = re.sub(r'/\*.*?\*/', '', src, flags=re.S)
            toks = re.findall(r'"[^"]*"|[\w.]+|[{}\[\]();=<>,]', src)
            _parse_msgs(toks, 0, len(toks), fn[:-6], out, '')
    return out


def _match(toks, i):
    d = 0
    while i < len(toks):
        if toks[i] == '{':
            d += 1
        elif toks[i] == '}':
            d -= 1
            if d == 0:
                return i
        i += 1
    raise AnalysisError('unbalanced .proto')


def _parse_msgs(toks, i, end, file, out, prefix):
    while i < end:
        if toks[i] == 'message':
            name = toks[i + 1]
            j = _match(toks, i + 2)
            fields = {}
            _parse_fields(toks, i + 3, j, fields, None, file, out, name)
            out[name] = {'name': name, 'file': file, 'fields': fields}
            i = j + 1
        elif toks[i] in ('enum', 'service'):
            kind, name = toks[i], toks[i + 1]
            j = _match(toks, i + 2)
            if kind == 'service':
                rpcs = {}
                k = i + 3
                while k < j:
                    if toks[k] == 'rpc':
                        seg = []
                        m = k
                        while m < j and toks[m] not in (';', '{'):
                            seg.append(toks[m])
                            m += 1
                        rpcs[toks[k + 1]] = seg[2:]
                    k += 1
                out['service ' + name] = {'name': 'service ' + name, 'file': file, 'fields': {}, 'rpcs': rpcs}
            else:
                vals = {}
                k = i + 3
                while k < j:
                    if k + 2 < j and toks[k + 1] == '=':
                        vals[toks[k]] = int(toks[k + 2])
                        k += 3
                    k += 1
                out['enum ' + name] = {'name': 'enum ' + name, 'file': file, 'fields': {}, 'values': vals}
            i = j + 1
        else:
            i += 1


def _parse_fields(toks, i, end, fields, oneof, file, out, prefix):
    while i < end:
        t = toks[i]
        if t == 'oneof':
            j = _match(toks, i + 2)
            _parse_fields(toks, i + 3, j, fields, toks[i + 1], file, out, prefix)
            i = j + 1
        elif t in ('message', 'enum'):
            j = _match(toks, i + 2)
            _parse_msgs(toks, i, j + 1, file, out, prefix)
            i = j + 1
        elif t in ('reserved', 'option', 'extensions'):
            while toks[i] != ';':
                i += 1
            i += 1
        elif t == ';':
            i += 1
        else:
            lab = None
            if t in ('repeated', 'optional', 'required'):
                lab = t
                i += 1
            typ = toks[i]
            if typ == 'map':
                j = i
                while toks[j] != '>':
                    j += 1
                typ = ''.join(toks[i:j + 1])
                lab = 'map'
                i = j
            name, num = toks[i + 1], toks[i + 3]
            fields[name] = {'type': typ, 'label': lab, 'oneof': oneof, 'number': int(num)}
            while toks[i] != ';':
                i += 1
            i += 1

"""Types of opaque values, from annotations: ('cls',ClassInfo) ('list',T) ('dict',K,V) ('prim',n) ('proto',m) ('tup',..)"""
import ast
from . import terms as _terms
from .terms import *
from .program import ClassInfo

LISTY = {'list', 'List', 'Sequence', 'Iterable', 'Collection', 'Iterator', 'set', 'Set', 'frozenset', 'deque'}
PRIMS = {'str', 'int', 'float', 'bool', 'bytes'}


class Types:
    def __init__(self, prog):
        self.prog = prog
        self.sym = {}
        self._fields = {}
        self._elem = {}

    def ann(self, module, node):
        if node is None:
            return None
        if isinstance(node, ast.Constant):
            if isinstance(node.value, str):
                try:
                    return self.ann(module, ast.parse(node.value, mode='eval').body)
                except SyntaxError:
                    return None
            return None
        if isinstance(node, ast.Name):
            if node.id in PRIMS:
                return ('prim', node.id)
            if node.id in LISTY:
                return ('list', None)
            if node.id in ('dict', 'Dict'):
                return ('dict', None, None)
            b = self.prog.resolve(module, node.id)
            if b is None:
                return None
            if b[0] == 'class':
                return ('cls', b[1])
            if b[0] == 'proto':
                return ('proto', b[1])
            return None
        if isinstance(node, ast.Subscript):
            h = ast.unparse(node.value).split('.')[-1]
            sl = node.slice
            if h == 'Optional':
                return self.ann(module, sl)
            if h == 'Union':
                el = sl.elts if isinstance(sl, ast.Tuple) else [sl]
                ts = [self.ann(module, e) for e in el]
                ts = [t for t in ts if t]
                return ts[0] if ts else None
            if h in LISTY:
                return ('list', self.ann(module, sl))
            if h in ('dict', 'Dict', 'defaultdict'):
                if isinstance(sl, ast.Tuple) and len(sl.elts) == 2:
                    return ('dict', self.ann(module, sl.elts[0]), self.ann(module, sl.elts[1]))
                return ('dict', None, None)
            if h in ('tuple', 'Tuple') and isinstance(sl, ast.Tuple):
                return ('tup',) + tuple(self.ann(module, e) for e in sl.elts)
            return None
        if isinstance(node, ast.Tuple):
            return ('tup',) + tuple(self.ann(module, e) for e in node.elts)
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            return self.ann(module, node.left) or self.ann(module, node.right)
        return None

    def result(self, module, node):
        """the type of what a function returns: as declared, or as every one of its returns constructs it"""
        if node.returns is not None:
            return self.ann(module, node.returns)
        todo, got = list(node.body), []
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(x, ast.Return):
                v = x.value
                got.append(self.ann(module, v.func) if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) else None)
            todo.extend(ast.iter_child_nodes(x))
        return got[0] if got and None not in got and all(t == got[0] for t in got) \
            and isinstance(node.body[-1], ast.Return) else None

    def field_types(self, c):
        """annotated or inferable types of the instance fields of a class"""
        if c in self._fields:
            return self._fields[c]
        out = self._fields[c] = {}
        for k in reversed(self.prog.mro(c)):
            if not isinstance(k, ClassInfo):
                continue
            for n, a, v in k.ann:
                t = self.ann(k.module, a)
                if t:
                    out[n] = t
            for m in k.methods.values():
                ptypes = {}
                for a in m.node.args.posonlyargs + m.node.args.args + m.node.args.kwonlyargs:
                    ptypes[a.arg] = self.ann(m.module, a.annotation)
                if m.is_property:
                    t = self.ann(m.module, m.node.returns)
                    if t:
                        out[m.name] = t
                for s in ast.walk(m.node):
                    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Attribute):
                        t = self.ann(m.module, s.annotation)
                        if t:
                            out[s.target.attr] = t
                    elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) \
                            and isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == 'self':
                        v = s.value
                        if isinstance(v, ast.IfExp):
                            v = v.body
                        t = None
                        if isinstance(v, ast.Name):
                            t = ptypes.get(v.id)
                        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name):
                            b = self.prog.resolve(m.module, v.func.id)
                            if b and b[0] == 'class':
                                t = ('cls', b[1])
                            elif v.func.id in ('dict', 'set') and b is None:
                                t = {'dict': ('dict', None, None), 'set': ('set', None)}[v.func.id]
                        elif isinstance(v, (ast.Dict, ast.DictComp)):
                            t = ('dict', None, None)
                        if t and s.targets[0].attr not in out:
                            out[s.targets[0].attr] = t
        return out

    def elem_type(self, t):
        """type obtained by iterating a value of type t"""
        if t is None:
            return None
        if t[0] == 'list':
            return t[1]
        if t[0] == 'dict':
            return t[1]
        if t[0] == 'cls':
            c = t[1]
            if c in self._elem:
                return self._elem[c]
            r = None
            ft = self.field_types(c)
            for n in ('traces', 'raw_events'):
                if n in ft:
                    r = self.elem_type(ft[n])
            if c.name == 'MyTrace' or self.prog.issub(c, 'MyEventsSequence'):
                r = ('cls', self.prog.find_class('MyEvent'))
            self._elem[c] = r
            return r
        return None

    def item_type(self, t, key):
        if t is None:
            return None
        if t[0] == 'list':
            return t[1]
        if t[0] == 'dict':
            return t[2]
        if t[0] == 'tup':
            if key.kind == 'const' and isinstance(key.args[0], int) and -len(t) < key.args[0] < len(t) - 1:
                return t[1:][key.args[0]]
            return None
        if t[0] == 'cls':
            return self.elem_type(t)
        return None

    def of(self, t):
        k = t.kind
        if t in self.sym:
            return self.sym[t]
        if k == 'attr':
            b = t.args[0]
            if t.args[1] == 'name' and b.kind == 'call' and b.args[0] == 'tempfile.NamedTemporaryFile':
                return TEXT
            bt = self.of(b)
            if bt is None:
                return None
            if bt[0] == 'cls':
                return self.field_types(bt[1]).get(t.args[1])
            if bt[0] == 'proto':
                f = self.prog.protos[bt[1]]['fields'].get(t.args[1]) if bt[1] in self.prog.protos else None
                if f:
                    return self.proto_type(f)
            return None
        if k in ('elem', 'first', 'lastelem'):
            d = t.args[0]
            if d.kind == 'range':
                return ('prim', 'int')
            return self.elem_type(self.of(d))
        if k == 'sub':
            return self.item_type(self.of(t.args[0]), t.args[1])
        if k in ('slice', 'sorted', 'reversed', 'until', 'after', 'copy', 'deepcopy', 'iter'):
            return self.of(t.args[0])
        if k == 'ite' and not is_cond(t):
            return self.of(t.args[1]) or self.of(t.args[2])
        if k == 'phi':
            return self.of(t.args[2])
        if k == 'prev':
            return self.of(t.args[1].args[0])
        if k == 'fold':
            return self.of(t.args[2].args[0])
        if k == 'enum':
            c = self.prog.find_class(t.args[0], required=False)
            return ('cls', c) if c else None
        if k == 'const':
            v = t.args[0]
            if isinstance(v, bool):
                return ('prim', 'bool')
            if isinstance(v, (str, int, float)):
                return ('prim', type(v).__name__)
            return None
        if k in ('strcat', 'str', 'join', 'fstr'):
            return ('prim', 'str')
        if k in ('lin', 'len', 'idx'):
            return ('prim', 'int')
        if k == 'call' and t.args[0] in TEXT_CALLS:
            return TEXT_CALLS[t.args[0]]
        if k == 'smeth' and self.of(t.args[0]) == TEXT:
            return TEXT_METHODS.get(t.args[1])
        if k == 'obj':
            c = self.prog.find_class(t.args[0], required=False)
            return ('cls', c) if c else None
        if k == 'msg':
            return ('proto', t.args[0])
        if k in ('list', 'set') and t.args and t.args[0].kind == 'segs' and t.args[0].args:
            s = t.args[0].args[0]
            if s.kind == 'splat':
                e = self.elem_type(self.of(s.args[0]))
                return ('list', e) if e else None
            if s.kind == 'item':
                e = self.of(s.args[0])
                return ('list', e) if e else None
        return None

    def proto_type(self, f):
        base = {'string': ('prim', 'str'), 'bool': ('prim', 'bool'), 'float': ('prim', 'float'),
                'double': ('prim', 'float'), 'bytes': ('prim', 'bytes')}.get(f['type'])
        if base is None:
            base = ('prim', 'int') if 'int' in f['type'] else \
                ('proto', f['type'].split('.')[-1]) if f['type'].split('.')[-1] in self.prog.protos else None
        if f['label'] == 'repeated':
            return ('list', base)
        return base


TEXT = ('prim', 'str')
TEXT_CALLS = {'os.path.splitext': ('tup', TEXT, TEXT), 'os.path.join': TEXT, 'os.path.dirname': TEXT,
              'os.path.basename': TEXT, 'os.path.abspath': TEXT, 'os.getcwd': TEXT}
TEXT_METHODS = {**dict.fromkeys(('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'removeprefix', 'removesuffix', 'title',
                                 'capitalize', 'casefold', 'zfill', 'ljust', 'rjust', 'center', 'format'), TEXT),
                **dict.fromkeys(('split', 'rsplit', 'splitlines'), ('list', TEXT))}


def int_names(prog, of=('int',)):
    """names that every annotation in the package gives one of the types: their arithmetic may be normalised"""
    yes, no = set(), set()

    def see(n, a):
        if a is None:
            return
        (yes if isinstance(a, ast.Name) and a.id in of else no).add(n)
    for n in list(prog.paths):
        m = prog.module(n)
        for x in ast.walk(m.tree) if m else ():
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for p in x.args.posonlyargs + x.args.args + x.args.kwonlyargs:
                    see(p.arg, p.annotation)
            elif isinstance(x, ast.AnnAssign):
                t = x.target
                see(t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else '', x.annotation)
    return yes - no - {'item', 'hash', 'id'}


def install_int_names(prog):
    if getattr(prog, '_ints', False):
        return
    prog._ints = True
    _terms.NUMERIC_FIELDS.clear()
    _terms.NUMERIC_FIELDS.update(int_names(prog))
    _terms.REAL_NAMES.clear()
    _terms.REAL_NAMES.update(int_names(prog, ('int', 'float')))
    _terms.NUMERIC_CALLS.clear()
    _terms.NUMERIC_CALLS.update(number_functions(prog))
    _terms.OBJECT_CALLS.clear()
    _terms.OBJECT_CALLS.update(object_functions(prog))


def object_functions(prog):
    """names of functions that are declared to give None or an object of a class without a length or truth of its own"""
    def plain(m, a):
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode='eval').body
            except SyntaxError:
                return False
        if isinstance(a, ast.Subscript) and isinstance(a.value, ast.Name) and a.value.id == 'Optional':
            return plain(m, a.slice)
        if not isinstance(a, ast.Name):
            return False
        c = prog.find_class(a.id, required=False)
        return bool(c) and not c.name.startswith('Grpc') and not prog.is_enum(c) \
            and not any(prog.lookup(c, n) for n in ('__len__', '__bool__'))
    yes, no = set(), set()
    for n in list(prog.paths):
        m = prog.module(n)
        for x in ast.walk(m.tree) if m else ():
            if isinstance(x, ast.FunctionDef):
                (yes if plain(m, x.returns) else no).add(x.name)
    return yes - no


def number_functions(prog):
    """names of functions that are declared to give a number wherever they are defined"""
    yes, no = set(), set()
    for n in list(prog.paths):
        m = prog.module(n)
        for x in ast.walk(m.tree) if m else ():
            if isinstance(x, ast.FunctionDef):
                r = x.returns
                (yes if isinstance(r, ast.Name) and r.id in ('int', 'float') else no).add(x.name)
    return yes - no

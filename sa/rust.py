"""Facts about the backend's side of the contract, read from the Rust sources (token level, no build)."""
import os
import re
from .program import AnalysisError

SRC = 'src/rust/ficus_backend/src'


def strip(src):
    """remove comments, keep string literals"""
    out, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if src.startswith('//', i):
            j = src.find('\n', i)
            i = n if j < 0 else j
        elif src.startswith('/*', i):
            j = src.find('*/', i)
            i = n if j < 0 else j + 2
            out.append(' ')
        elif c == '"':
            j = i + 1
            while j < n and src[j] != '"':
                j += 2 if src[j] == '\\' else 1
            out.append(src[i:j + 1])
            i = j + 1
        else:
            out.append(c)
            i += 1
    return ''.join(out)


def match_close(s, i, o='{', c='}'):
    d = 0
    while i < len(s):
        ch = s[i]
        if ch == '"':
            i += 1
            while i < len(s) and s[i] != '"':
                i += 2 if s[i] == '\\' else 1
        elif ch == o:
            d += 1
        elif ch == c:
            d -= 1
            if d == 0:
                return i
        i += 1
    return len(s) - 1


def line_of(s, i):
    return s.count('\n', 0, i) + 1


class Backend:
    def __init__(self, repo='/repo'):
        self.repo = repo
        root = os.path.join(repo, SRC)
        if not os.path.isdir(root):
            raise AnalysisError('backend sources are gone: ' + root)
        self.files = {}
        for d, _, fs in os.walk(root):
            for f in sorted(fs):
                if f.endswith('.rs'):
                    p = os.path.join(d, f)
                    with open(p, encoding='utf8') as h:
                        self.files[os.path.relpath(p, repo)] = strip(h.read())
        self.consts = {}
        for f, s in self.files.items():
            if '/pipelines/' in f:
                for m in re.finditer(r"const\s+(\w+)\s*:\s*&\s*(?:'static\s+)?str\s*=\s*\"([^\"]*)\"", s):
                    self.consts.setdefault(m.group(1), []).append((m.group(2), f, line_of(s, m.start())))
        self._fns()
        self._parts()
        self._keys()
        self._decode()
        self._enums()
        self._encode()

    def value(self, const, near):
        c = self.consts.get(const, [])
        for v, f, _ in c:
            if near in f:
                return v
        return c[0][0] if c else None

    def _fns(self):
        self.fns = {}
        for f, s in self.files.items():
            if '/pipelines/' in f and f.endswith('_parts.rs') or f.endswith('pipeline_parts.rs'):
                for m in re.finditer(r'\bfn\s+(\w+)\s*(?:<[^>]*>)?\s*\(', s):
                    b = s.find('{', match_close(s, m.end() - 1, '(', ')'))
                    e = match_close(s, b)
                    self.fns[m.group(1)] = (f, line_of(s, m.start()), s[b:e + 1])

    def _parts(self):
        f = [x for x in self.files if x.endswith('/pipeline_parts.rs')]
        if not f:
            raise AnalysisError('backend part registry is gone')
        s = self.files[f[0]]
        m = re.search(r'fn\s+new\s*\(', s)
        reg = set(re.findall(r'Self::(\w+)\s*\(\s*\)', s[m.start():])) if m else set()
        self.parts = {}          # operation name -> function
        self.registered = {}
        for n, (file, line, body) in self.fns.items():
            m = re.search(r'create_pipeline_part\s*\(\s*Self::(\w+)', body)
            if m:
                name = self.value(m.group(1), 'parts_names')
                if name is not None:
                    self.parts[name] = n
                    if n in reg:
                        self.registered[name] = n

    def reads(self, fn, seen=None):
        """configuration keys a part reads: accessor -> required?  (through the helpers it passes its configuration to)"""
        seen = set() if seen is None else seen
        out = {}
        if fn in seen or fn not in self.fns:
            return out
        seen.add(fn)
        body = self.fns[fn][2]
        own = re.search(r'let\s+(?:mut\s+)?config\s*=', body)
        for m in re.finditer(r'get_user_data(?:_mut)?\s*\(\s*config\s*,\s*&?\s*keys\s*\.\s*(\w+)\s*\(\s*\)\s*\)\s*(\?)?', body):
            out[m.group(1)] = out.get(m.group(1), False) or (m.group(2) == '?')
        for m in re.finditer(r'config\s*\.\s*concrete\s*\(\s*&?keys\s*\.\s*(\w+)\s*\(\s*\)\s*\.\s*key\s*\(\s*\)\s*\)\s*\.\s*unwrap', body):
            out[m.group(1)] = True
        for m in re.finditer(r'Self::(\w+)\s*\(', body):
            e = match_close(body, m.end() - 1, '(', ')')
            if re.search(r'\bconfig\b', body[m.end():e]) and m.group(1) not in ('get_user_data', 'create_pipeline_part'):
                if own and own.start() < m.start():
                    continue
                for k, v in self.reads(m.group(1), seen).items():
                    out[k] = out.get(k, False) or v
        return out

    def _keys(self):
        self.key_of, self.type_of, self.acc_of = {}, {}, {}
        f = [x for x in self.files if x.endswith('keys/context_keys.rs')]
        if not f:
            raise AnalysisError('backend context keys are gone')
        s = self.files[f[0]]
        for m in re.finditer(r'fn\s+(\w+)\s*\(\s*&self\s*\)\s*->\s*&\s*DefaultContextKey\s*<', s):
            e = match_close(s, m.end() - 1, '<', '>')
            ty = re.sub(r'\s+', '', s[m.end():e])
            b = s.find('{', e)
            body = s[b:match_close(s, b) + 1]
            k = re.search(r'\(\s*Self::(\w+)', body)
            name = self.value(k.group(1), 'context_keys') if k else None
            if name is None:
                continue
            self.key_of[m.group(1)], self.type_of[m.group(1)], self.acc_of[name] = name, ty, m.group(1)

    def _decode(self):
        f = [x for x in self.files if x.endswith('grpc/converters.rs')]
        if not f:
            raise AnalysisError('backend converters are gone')
        self.conv = self.files[f[0]]
        self.decodes = {}
        for m in re.finditer(r'ContextValue::(\w+)\s*\([^)]*\)\s*=>\s*([^\n]*put_any\s*::\s*<(.*?)>\s*\(|put_names_log)', self.conv):
            self.decodes[m.group(1)] = re.sub(r'\s+', '', m.group(3)) if m.group(3) else 'Vec<Vec<String>>'
        m = re.search(r'ContextValue::Pipeline\s*\(', self.conv)
        if m and 'put_any::<Pipeline>' in self.conv[m.start():m.start() + 400]:
            self.decodes['Pipeline'] = 'Pipeline'
        self.enum_types = set(re.findall(r'parse_grpc_enum\s*::\s*<(\w+)>', self.conv)) & set(
            re.findall(r'name_of_type!\s*\(\s*(\w+)\s*\)', self.conv))

    def _enums(self):
        self.members = {}
        for f, s in self.files.items():
            for m in re.finditer(r'impl\s+FromStr\s+for\s+(\w+)', s):
                b = s.find('{', m.end())
                body = s[b:match_close(s, b) + 1]
                self.members[m.group(1)] = set(re.findall(r'"(\w+)"\s*=>\s*Ok', body))

    def _encode(self):
        self.encodes = {}
        m = re.search(r'fn\s+convert_to_grpc_context_value', self.conv)
        b = self.conv.find('{', m.end()) if m else -1
        if b < 0:
            return
        body = self.conv[b:match_close(self.conv, b) + 1]
        for k, fn in re.findall(r'keys\.is_(\w+)\s*\(\s*key\s*\)\s*\{\s*(\w+)\s*\(', body):
            d = re.search(r'fn\s+%s\s*\(' % fn, self.conv)
            if d:
                bb = self.conv.find('{', d.end())
                v = re.search(r'ContextValue::(\w+)\s*\(', self.conv[bb:match_close(self.conv, bb) + 1])
                if v:
                    self.encodes[k] = v.group(1)


def camel(n):
    return ''.join(p[:1].upper() + p[1:] for p in n.split('_'))

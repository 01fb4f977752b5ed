"""Clang JSON AST access: translation units, typedef/record tables, C types."""
import json, os, re, subprocess

class Unsupported(Exception):
    """The C text is outside the subset the extraction handles."""

INT, PTR, ARR, REC, FLT, VOID, FUN = 'int', 'ptr', 'arr', 'rec', 'flt', 'void', 'fun'

BASE = {
 'char': (INT, 8, True), 'signed char': (INT, 8, True), 'unsigned char': (INT, 8, False),
 'short': (INT, 16, True), 'unsigned short': (INT, 16, False),
 'int': (INT, 32, True), 'unsigned int': (INT, 32, False), 'unsigned': (INT, 32, False),
 'long': (INT, 64, True), 'unsigned long': (INT, 64, False),
 'long long': (INT, 64, True), 'unsigned long long': (INT, 64, False),
 '_Bool': (INT, 8, False),
 'float': (FLT,), 'double': (FLT,), 'long double': (FLT,), 'void': (VOID,),
}

def strip_name(n):
    for p in ('_SCOTCHMETIS', '_SCOTCH'):
        if n.startswith(p):
            return n[len(p):]
    return n

class TU:
    def __init__(self, path, flags):
        cmd = ['clang', '-Xclang', '-ast-dump=json', '-fsyntax-only', '-w'] + flags + [path]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode != 0:
            raise Unsupported('clang: ' + r.stderr.decode()[:400])
        self.path = path
        self.ast = json.loads(r.stdout)
        self.typedefs, self.records, self.recids, self.funcs, self.enums, self.gvars = {}, {}, {}, {}, {}, {}
        self.protos = {}
        self._tycache = {}
        for n in self.ast['inner']:
            self._decl(n)

    def _decl(self, n):
        k = n.get('kind')
        if k == 'RecordDecl':
            self._record(n)
        elif k == 'TypedefDecl':
            self.typedefs[n['name']] = (n['type']['qualType'], n)
            q = n['type']['qualType']
            if q == 'struct ' + n['name'] and n['name'] not in self.records:      # typedef struct { ... } name
                for c in n.get('inner', []):
                    i = (c.get('ownedTagDecl') or c.get('decl') or {}).get('id')
                    if i in self.recids: self.records[n['name']] = self.records[self.recids[i]]
        elif k == 'EnumDecl':
            v = -1
            for c in n.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    ce = c.get('inner')
                    v = int(find_const(ce[0])) if ce and find_const(ce[0]) is not None else v + 1
                    self.enums[c['name']] = v
        elif k == 'FunctionDecl':
            nm = strip_name(n['name'])
            self.protos.setdefault(nm, n)
            if any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', [])):
                self.funcs[nm] = n
        elif k == 'VarDecl':
            self.gvars[strip_name(n['name'])] = n

    def _record(self, n):
        if not n.get('completeDefinition'):
            return
        fields = []
        for c in n.get('inner', []):
            if c.get('kind') == 'FieldDecl':
                fields.append((c.get('name', ''), c['type']['qualType'], c))
            elif c.get('kind') == 'RecordDecl':
                self._record(c)
        nm = n.get('name') or 'anon' + n['id']
        if nm in OPAQUE: fields = [('cell', 'int', None)]      # contents never looked at: one abstract cell, copied as a whole
        self.records[nm] = fields
        self.recids[n['id']] = nm
        loc = n.get('loc', {})
        self.recids[(loc.get('line'), loc.get('col'))] = nm

    def ty(self, s):
        if isinstance(s, dict):
            s = s.get('qualType')
        if s in self._tycache:
            return self._tycache[s]
        t = self._ty(s)
        self._tycache[s] = t
        return t

    def _ty(self, s):
        s = re.sub(r'\b(const|volatile|restrict|__restrict|register|static)\b', ' ', s)
        s = re.sub(r'\s+', ' ', s).strip()
        if s.endswith('*'):
            return (PTR, self.ty(s[:-1].strip()))
        if s.endswith(']'):
            # leftmost dimension is the outer one
            m = re.match(r'^(.*?)((\[\d*\])+)$', s)
            base, dims = m.group(1).strip(), re.findall(r'\[(\d*)\]', m.group(2))
            if base.endswith(')'):      # pointer to array
                raise Unsupported('type ' + s)
            t = self.ty(base)
            for d in reversed(dims):
                t = (ARR, t, int(d) if d else 0)
            return t
        m = re.match(r'^(.*)\(\*\)((\[\d+\])+)$', s)
        if m:
            t = self.ty(m.group(1).strip())
            for d in reversed(re.findall(r'\[(\d+)\]', m.group(2))):
                t = (ARR, t, int(d))
            return (PTR, t)
        if s.endswith(')'):
            if '(*)' in s:
                return (PTR, (FUN,))
            return (FUN,)
        if s in BASE:
            return BASE[s]
        if s.startswith('struct ') or s.startswith('union '):
            nm = s.split(' ', 1)[1]
            m = re.search(r'at [^:]*:(\d+):(\d+)\)', nm)
            if m:
                key = (int(m.group(1)), int(m.group(2)))
                nm = self.recids.get(key, nm)
            return (REC, nm)
        if s.startswith('enum '):
            return BASE['int']
        if s in self.typedefs:
            return self.ty(self.typedefs[s][0])
        if s == '__builtin_va_list':
            return (VOID,)
        raise Unsupported('type ' + s)

    def sizeof(self, t):
        if t[0] == INT: return t[1] // 8
        if t[0] == PTR: return 8
        if t[0] == ARR: return t[2] * self.sizeof(t[1])
        if t[0] == FLT: return 8
        if t[0] == VOID: return 1
        if t[0] == REC and t[1] in OPAQUE: return 1000003
        if t[0] == REC:
            off, al = 0, 1
            for (_, q, _) in self.records[t[1]]:
                ft = self.ty(q)
                a = self.alignof(ft); al = max(al, a)
                off = (off + a - 1) // a * a + self.sizeof(ft)
            return (off + al - 1) // al * al
        raise Unsupported('sizeof ' + str(t))

    def alignof(self, t):
        if t[0] == ARR: return self.alignof(t[1])
        if t[0] == REC: return max([1] + [self.alignof(self.ty(q)) for (_, q, _) in self.records[t[1]]])
        return self.sizeof(t)

OPAQUE = {'ArchDom_'}

def find_const(n):
    if n.get('kind') == 'ConstantExpr' and 'value' in n: return n['value']
    if n.get('kind') == 'IntegerLiteral': return n['value']
    for c in n.get('inner', []):
        v = find_const(c)
        if v is not None: return v
    return None

def memname(t):
    if t[0] == INT:
        return {(8, True): 'char', (8, False): 'uchar', (16, True): 'short', (16, False): 'ushort',
                (32, True): 'int', (32, False): 'uint', (64, True): 'long', (64, False): 'ulong'}[(t[1], t[2])]
    if t[0] == PTR: return 'p_' + memname(t[1])
    if t[0] == REC: return t[1].rstrip('_')
    if t[0] == VOID: return 'void'
    if t[0] == FLT: return 'flt'
    if t[0] == FUN: return 'fun'
    if t[0] == ARR: return memname(t[1])
    raise Unsupported('memory for ' + str(t))

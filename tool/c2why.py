"""Mechanical extraction of C functions (clang AST of /repo's current source) to WhyML.

Memory model (Burstall-Bornat): one map per scalar pointee type (m_int, m_uchar, ...) and one per
(struct, field); addresses are integers counted in elements.  Nested structs are addressed by
sub_<Struct>_<field>.  Every function is translated statement by statement; calls to functions
under contract are checked against the contract, other functions of the translation unit are
inlined, anything else raises Unsupported."""
import re
from cast import *

RESERVED = set('''abstract absurd alias any as assert assume at axiom break by check clone coinductive
constant continue diverges do done downto else end ensures epsilon exception exists export false float for
forall fun function ghost goal if import in inductive invariant label lemma let match meta module mutable
not old partial predicate private pure raise raises reads rec ref requires result return returns scope so
then theory to true try type use val variant while with writes range int map get set init_'''.split())

def wid(n):
    if n in RESERVED: return n + '_c'
    if not n[0].islower(): return 'v_' + n
    return n

class L:            # loop annotation
    def __init__(self, inv=(), var=None, begin=(), end=(), before=(), after=(), exitinv=(), cut=(), bodycut=()):
        # cut: intermediate specification of the statements that stand before the loop in its block;
        # bodycut: intermediate specification of the loop body (checked, then all that is known afterwards)
        self.cut, self.bodycut = list(cut), list(bodycut)
        self.inv = [inv] if isinstance(inv, str) else list(inv)
        self.var = var
        self.begin, self.end, self.before, self.after = [([x] if isinstance(x, str) else list(x)) for x in (begin, end, before, after)]

class Fn:           # contract of one function
    def __init__(self, name, file, requires=(), ensures=(), loops=None, mode='math', variant=None, extra=(),
                 begin=(), end=(), inline=(), uses=(), callmap=None, addr=(), callees=(), cond=None,
                 writes=None, opaque_calls=(), trusted=False, defs='', bodyless=False, ghost=(), noinline=(), smt=None, pnames=None, rets=None, allocok=False, wp=False, io=False):
        self.io = io                # the function reads or writes a stream
        self.wp = wp                # weakest preconditions, path by path
        self.allocok = allocok      # allocations assumed to succeed
        self.rets = rets or {}      # ghost code before the k-th return statement
        as_l = lambda x: [x] if isinstance(x, str) else list(x)
        self.name, self.file = name, file
        self.requires, self.ensures = as_l(requires), as_l(ensures)
        self.loops = loops or {}
        self.mode, self.variant, self.extra = mode, variant, list(extra)
        self.begin, self.end = as_l(begin), as_l(end)
        self.uses = list(uses)
        self.addr = set(addr)           # addressable scalar fields, "Rec.field"
        self.trusted = trusted
        self.defs = defs
        self.smt = smt
        self.writes = writes
        self.pnames = pnames

class Lv:
    def __init__(self, kind, ty, **k):
        self.kind, self.ty = kind, ty
        self.__dict__.update(k)

ERRS = {'SCOTCH_errorPrint', 'SCOTCH_errorPrintW', 'errorPrint', 'errorPrintW', 'printf', 'fprintf', 'fputs', 'fflush'}

class Trans:
    """Translates one function (with inlined callees) of one TU."""
    def __init__(self, tu, spec, contracts, extra_tus=(), writes_of=None, rename=None, smoke=False):
        self.tu, self.sp, self.contracts = tu, spec, contracts
        self.extra = list(extra_tus)
        self.mems = {}           # name -> 'map int int' | 'map int (map int int)'
        self.writes = set()
        self.subs = set()
        self.calls = set()
        self.inlined = []
        self.loopctr = 0
        self.tmp = 0
        self.stack = []
        self.scopes = [{}]
        self.locsize = 0
        self.writes_of = writes_of or {}
        self.assumptions = set()
        self.locals_seen = []
        self.rename = rename or {}
        self.smoke = smoke
        self.loops_seen = 0
        self.rets_seen = 0
        self.stmts = 0

    # ---------------------------------------------------------------- helpers
    def fresh(self, p='t'):
        self.tmp += 1
        return f'{p}_{self.tmp}'

    def mem(self, name, kind='map int int'):
        self.mems.setdefault(name, kind)
        return name

    def m(self, t):
        if t[0] == FLT: raise Unsupported('float memory')
        return self.mem('m_' + memname(t))

    def fieldmem(self, tag, f, ft):
        nm = 'f_' + tag.rstrip('_') + '_' + f
        return self.mem(nm, 'map int (map int int)' if ft[0] == ARR else 'map int int')

    def sub(self, tag, f):
        nm = 'sub_' + tag.rstrip('_') + '_' + f
        self.subs.add(nm)
        return nm

    def adr(self, tag, f):
        nm = 'adr_' + tag.rstrip('_') + '_' + f
        self.subs.add(nm)
        return nm

    def field_type(self, tag, f):
        for (n, q, _) in self.tu.records.get(tag, []):
            if n == f: return self.tu.ty(q)
        raise Unsupported(f'field {tag}.{f}')

    def lookup(self, n):
        for s in reversed(self.scopes):
            if n in s: return s[n]
        return None

    # ---------------------------------------------------------------- spec text
    def spec(self, txt):
        for a, b in self.rename.items():
            txt = re.sub(r'(?<![\w.])' + re.escape(a) + r'(?!\w)', b, txt)
        out, i, n = [], 0, len(txt)
        ident = re.compile(r"[A-Za-z_][A-Za-z_0-9']*")
        while i < n:
            m = ident.match(txt, i + 1) if txt[i] == '@' else None      # @x: address of a local in memory
            if m and (self.lookup(m.group(0)) or {}).get('k') == 'loc':
                out.append(self.lookup(m.group(0))['w']); i = m.end(); continue
            m = ident.match(txt, i)
            if m and (i == 0 or not (txt[i-1].isalnum() or txt[i-1] in "_'.")):
                v = self.lookup(m.group(0))
                if v is None:
                    out.append(m.group(0)); i = m.end(); continue
                code, ty = self.svar(v)
                i = m.end()
                while i < n:
                    mm = re.compile(r'\.([A-Za-z_]\w*)').match(txt, i)
                    if mm and (ty[0] == REC or (ty[0] == PTR and ty[1][0] == REC)):
                        tag = ty[1] if ty[0] == REC else ty[1][1]
                        f = mm.group(1); ft = self.field_type(tag, f)
                        i = mm.end()
                        if ft[0] == REC:
                            code = f'({self.sub(tag, f)} {code})'; ty = ft
                        elif f'{tag.rstrip("_")}.{f}' in self.sp.addr:
                            code = f'{self.m(ft)}[{self.adr(tag, f)} {code}]'; ty = ft
                        else:
                            code = f'{self.fieldmem(tag, f, ft)}[{code}]'; ty = ft
                        continue
                    if txt[i] == '[' and ty[0] in (PTR, ARR):
                        d, j = 0, i
                        while True:
                            if txt[j] == '[': d += 1
                            if txt[j] == ']':
                                d -= 1
                                if d == 0: break
                            j += 1
                        idx = self.spec_noren(txt[i+1:j]); i = j + 1
                        if ty[0] == ARR:
                            if '|' in code:      # pending flat offset
                                base, off = code.split('|')
                            else: base, off = code, '0'
                            inner = ty[1]
                            if inner[0] == ARR:
                                code = f'{base}|(({off}) + ({idx}) * {inner[2]})'
                            else:
                                code = f'{base}[({off}) + ({idx})]' if off != '0' else f'{base}[{idx}]'
                            ty = inner
                        elif ty[1][0] == REC:
                            code = f'(ix {code} ({idx}))'; ty = ty[1]
                        else:
                            code = f'{self.m(ty[1])}[ix {self.par(code)} ({idx})]'; ty = ty[1]
                        continue
                    break
                out.append(code)
                continue
            out.append(txt[i]); i += 1
        s = ''.join(out)
        for mm in re.findall(r'\b(m_[a-z]\w*)\b', s):
            self.mem(mm)
        for mm in re.findall(r'\b(f_[A-Z]\w*)\b', s):
            if mm not in self.mems:
                for tag, fs in self.tu.records.items():
                    for (f, q, _) in fs:
                        if 'f_' + tag.rstrip('_') + '_' + f == mm:
                            self.fieldmem(tag, f, self.tu.ty(q))
        for mm in re.findall(r'\b((?:sub|adr)_[A-Z]\w*)\b', s):
            self.subs.add(mm)
        return s

    def spec_noren(self, t):
        r, self.rename = self.rename, {}
        try: return self.spec(t)
        finally: self.rename = r

    def par(self, x):
        return x if re.match(r"^[\w']+$", x) or (x.startswith('(') and self.bal(x)) else '(' + x + ')'

    def bal(self, x):
        d = 0
        for j, c in enumerate(x):
            d += (c == '(') - (c == ')')
            if d == 0: return j == len(x) - 1
        return False

    def svar(self, v):
        if v['k'] == 'ref': return v['w'], v['t']
        if v['k'] == 'loc':
            if v['t'][0] == REC: return v['w'], v['t']
            if v['t'][0] == ARR: return v['w'], (PTR, v['t'][1])
            return f'{self.m(v["t"])}[{v["w"]}]', v['t']
        if v['k'] == 'lmap': return v['w'], v['t']
        raise Unsupported('svar')

    # ---------------------------------------------------------------- lvalues
    def skip(self, e):
        while e['kind'] in ('ParenExpr', 'ConstantExpr') or (e['kind'] == 'ImplicitCastExpr' and e.get('castKind') in ('NoOp',)):
            e = e['inner'][0]
        return e

    def peel(self, e):
        while e['kind'] in ('ParenExpr', 'ConstantExpr', 'ImplicitCastExpr', 'CStyleCastExpr'): e = e['inner'][0]
        return e

    def lv(self, e, pre):
        """lvalue; address computations are appended to pre as let bindings when impure."""
        e = self.skip(e)
        k = e['kind']
        if k == 'DeclRefExpr':
            n = strip_name(e['referencedDecl']['name'])
            v = self.lookup(n)
            if v is None:
                raise Unsupported('global variable ' + n)
            if v['k'] == 'ref': return Lv('var', v['t'], w=v['w'])
            if v['k'] == 'lmap': return Lv('larr', v['t'], w=v['w'], off='0')
            if v['k'] == 'loc':
                if v['t'][0] == REC: return Lv('rec', v['t'], addr=v['w'])
                if v['t'][0] == ARR: return Lv('marr', v['t'], addr=v['w'])
                return Lv('mem', v['t'], mem=self.m(v['t']), addr=v['w'])
        if k == 'MemberExpr':
            base = e['inner'][0]; f = e['name']
            if e.get('isArrow'):
                bt = self.tu.ty(base['type'])
                b = self.val(base, pre)
                tag = bt[1][1]
            else:
                l = self.lv(base, pre)
                if l.kind != 'rec': raise Unsupported('member of ' + l.kind)
                b, tag = l.addr, l.ty[1]
            ft = self.field_type(tag, f)
            if ft[0] == REC: return Lv('rec', ft, addr=f'({self.sub(tag, f)} {b})')
            if ft[0] == FLT: return Lv('flt', ft)
            if ft[0] == ARR:
                if ft[1][0] == FLT: return Lv('flt', ft)
                if ft[1][0] == REC: raise Unsupported('array of struct field')
                return Lv('farr', ft, mem=self.fieldmem(tag, f, ft), addr=b, off='0')
            if f'{tag.rstrip("_")}.{f}' in self.sp.addr:
                return Lv('mem', ft, mem=self.m(ft), addr=f'({self.adr(tag, f)} {b})')
            return Lv('field', ft, mem=self.fieldmem(tag, f, ft), addr=b)
        if k == 'ArraySubscriptExpr':
            b, ix = e['inner']
            bs = self.skip(b)
            if bs['kind'] == 'ImplicitCastExpr' and bs.get('castKind') == 'ArrayToPointerDecay':
                a = self.lv(bs['inner'][0], pre)
                i = self.val(ix, pre)
                et = a.ty[1]
                if a.kind == 'flt': return Lv('flt', et)
                if a.kind in ('farr', 'larr'):
                    sz = 1; t = et
                    while t[0] == ARR: sz *= t[2]; t = t[1]
                    off = f'({i} * {sz})' if sz != 1 else i
                    if et[0] == ARR and et[1][0] != ARR and a.off == '0': off = f'\0{self.par(i)} {sz}'
                    elif a.off.startswith('\0'): off = f'(i2 {a.off[1:]} {self.par(i)})'
                    else: off = off if a.off == '0' else f'({a.off} + {off})'
                    if et[0] == ARR:
                        return Lv(a.kind, et, off=off, **({'w': a.w} if a.kind == 'larr' else {'mem': a.mem, 'addr': a.addr}))
                    if a.kind == 'larr': return Lv('lel', et, w=a.w, off=off)
                    return Lv('fel', et, mem=a.mem, addr=a.addr, off=off)
                if a.kind == 'marr':
                    if et[0] == ARR: raise Unsupported('2d local array in memory')
                    if et[0] == REC: return Lv('rec', et, addr=f'(ix {a.addr} {self.par(i)})')
                    return Lv('mem', et, mem=self.m(et), addr=f'(ix {a.addr} {self.par(i)})')
                raise Unsupported('subscript of ' + a.kind)
            p = self.val(b, pre)
            i = self.val(ix, pre)
            bt = self.tu.ty(b['type'])
            if bt[0] != PTR: raise Unsupported('subscript')
            et = bt[1]
            a = f'(ix {self.par(p)} {self.par(i)})'
            if et[0] == REC: return Lv('rec', et, addr=a)
            if et[0] == FLT: return Lv('flt', et)
            return Lv('mem', et, mem=self.m(et), addr=a)
        if k == 'UnaryOperator' and e['opcode'] == '*':
            b = e['inner'][0]
            p = self.val(b, pre)
            et = self.tu.ty(b['type'])[1]
            if et[0] == REC: return Lv('rec', et, addr=p)
            if et[0] == FLT: return Lv('flt', et)
            return Lv('mem', et, mem=self.m(et), addr=p)
        raise Unsupported('lvalue ' + k)

    def read(self, l):
        if l.kind == 'var': return l.w
        if l.kind in ('mem', 'field'): return f'{l.mem}[{l.addr}]'
        if l.kind == 'fel': return f'{l.mem}[{l.addr}][{l.off}]'
        if l.kind == 'lel': return f'{l.w}[{l.off}]'
        if l.kind == 'flt': return '(any int)'
        raise Unsupported('read of ' + l.kind)

    def write(self, l, v):
        if l.kind == 'var': return f'{l.w} <- {v}'
        if l.kind in ('mem', 'field'):
            self.writes.add(l.mem)
            return f'st_{l.mem} {l.addr} {v}'
        if l.kind == 'fel':
            self.writes.add(l.mem)
            return f'sta_{l.mem} {l.addr} {l.off} {v}'
        if l.kind == 'lel': return f'{l.w} <- (upd {l.w} {l.off} {v})'
        if l.kind == 'flt': return '()'
        raise Unsupported('write of ' + l.kind)

    # ---------------------------------------------------------------- expressions
    # val(e, pre) returns an atom-ish pure string; side effects are emitted in order into pre.
    def effectful(self, e):
        k = e.get('kind')
        if k == 'CallExpr': return True
        if k == 'CompoundAssignOperator': return True
        if k == 'BinaryOperator' and e['opcode'] == '=': return True
        if k == 'UnaryOperator' and e['opcode'] in ('++', '--'): return True
        return any(self.effectful(c) for c in e.get('inner', []) if isinstance(c, dict) and 'kind' in c)

    def bind(self, code, pre):
        if re.match(r"^[a-z_][\w']*$", code) and self.is_temp(code): return code
        if re.match(r'^\d+$', code): return code
        t = self.fresh()
        pre.append(f'let {t} = {code} in')
        return t

    def is_temp(self, c): return re.match(r'^t_\d+$', c) is not None

    def seq2(self, a, b, pre):
        """evaluate a then b; if b has effects, a must be frozen first."""
        x = self.val(a, pre)
        if self.effectful(b): x = self.bind(x, pre)
        y = self.val(b, pre)
        return x, y

    def val(self, e, pre):
        k = e['kind']
        if k in ('ParenExpr', 'ConstantExpr'): return self.val(e['inner'][0], pre)
        if k == 'IntegerLiteral': return e['value']
        if k == 'CharacterLiteral': return str(e['value'])
        if k == 'FloatingLiteral': return '0'
        if k == 'StringLiteral': return '(any int)'
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'): return self.cast(e, pre)
        if k == 'UnaryExprOrTypeTraitExpr':
            if e.get('name') != 'sizeof': raise Unsupported(e.get('name'))
            t = self.tu.ty(e['argType']) if 'argType' in e else self.tu.ty(e['inner'][0]['type'])
            return str(self.tu.sizeof(t))
        if k == 'DeclRefExpr':
            n = e['referencedDecl']['name']
            if n in self.tu.enums: return str(self.tu.enums[n])
            return self.read(self.lv(e, pre))
        if k in ('MemberExpr', 'ArraySubscriptExpr'):
            return self.read(self.lv(e, pre))
        if k == 'UnaryOperator':
            op, a = e['opcode'], e['inner'][0]
            if op == '*': return self.read(self.lv(e, pre))
            if op == '&': return self.addrof(a, pre)
            if op in ('++', '--'):
                l = self.freeze(self.lv(a, pre), pre)
                old = self.bind(self.read(l), pre)
                new = self.arith('+' if op == '++' else '-', old, '1', l.ty)
                new = self.bind(new, pre)
                pre.append(self.write(l, new) + ';')
                return old if e.get('isPostfix') else new
            if self.isflt(e): self.val(a, pre); return '(any int)'
            if op == '-': 
                x = self.val(a, pre)
                if re.match(r'^\d+$', x): return f'(-{x})'
                return self.arith('-', '0', x, self.tu.ty(e['type']))
            if op == '+': return self.val(a, pre)
            if op == '~': return f'(- {self.val(a, pre)} - 1)'
            if op == '!': return f'(if {self.cond(e, pre)} then 1 else 0)'
            raise Unsupported('unary ' + op)
        if k == 'BinaryOperator':
            op = e['opcode']; a, b = e['inner']
            if op == '=': return self.assign(e, pre)
            if op == ',':
                self.eff(a, pre); return self.val(b, pre)
            if op in ('<', '>', '<=', '>=', '==', '!=', '&&', '||'):
                return f'(if {self.cond(e, pre)} then 1 else 0)'
            if self.isflt(e):
                x, y = self.seq2(a, b, pre); return '(any int)'
            x, y = self.seq2(a, b, pre)
            ta, tb = self.tu.ty(a['type']), self.tu.ty(b['type'])
            if ta[0] == PTR or tb[0] == PTR:
                return f'({x} {op} {y})'
            return self.arith(op, x, y, self.tu.ty(e['type']))
        if k == 'CompoundAssignOperator': return self.assign(e, pre)
        if k == 'ConditionalOperator':
            c, a, b = e['inner']
            cc = self.cond(c, pre)
            if not self.effectful(a) and not self.effectful(b):
                p1, p2 = [], []
                x, y = self.val(a, p1), self.val(b, p2)
                return f'(if {cc} then {self.wrap(p1, x)} else {self.wrap(p2, y)})'
            p1, p2 = [], []
            x, y = self.val(a, p1), self.val(b, p2)
            return self.bind(f'(if {cc} then ({self.wrap(p1, x)}) else ({self.wrap(p2, y)}))', pre)
        if k == 'CallExpr': return self.call(e, pre)
        raise Unsupported('expression ' + k)

    def wrap(self, pre, code):
        if not pre: return code
        return '(' + ' '.join(pre) + ' ' + code + ')'

    def isflt(self, e):
        return self.tu.ty(e['type'])[0] == FLT

    def freeze(self, l, pre):
        for a in ('addr', 'off'):
            if a in l.__dict__ and getattr(l, a) is not None:
                setattr(l, a, self.bind(getattr(l, a), pre))
        return l

    def addrof(self, a, pre):
        a = self.skip(a)
        l = self.lv(a, pre)
        if l.kind == 'rec': return l.addr
        if l.kind == 'mem': return l.addr
        raise Unsupported('address of ' + l.kind)

    def cast(self, e, pre):
        ck = e.get('castKind'); a = e['inner'][0]
        if ck in ('LValueToRValue',): 
            l = self.lv(a, pre)
            return self.read(l)
        if ck in ('NoOp', 'BitCast', 'ToVoid', 'NullToPointer'):
            if ck == 'NullToPointer': return '0'
            if ck == 'BitCast':
                t1, t2 = self.tu.ty(a['type']), self.tu.ty(e['type'])
                self.ptrcast(t1, t2)
            return self.val(a, pre)
        if ck == 'ArrayToPointerDecay':
            if self.skip(a)['kind'] == 'StringLiteral': return '(any int)'
            l = self.lv(a, pre)
            if l.kind == 'marr': return l.addr
            raise Unsupported('decay of ' + l.kind)
        if ck == 'IntegralCast':
            x = self.val(a, pre)
            t1, t2 = self.tu.ty(a['type']), self.tu.ty(e['type'])
            if re.match(r'^\(?-?\d+\)?$', x):
                v = int(x.strip('()'))
                if t2[2] is False: v %= (1 << t2[1])
                return str(v) if v >= 0 else f'({v})'
            if self.sp.mode.startswith('checked') and not ((t2[1] > t1[1] and (t2[2] or not t1[2])) or (t1[1:] == t2[1:])):
                return f'(conv_{"s" if t2[2] else "u"}{t2[1]} {x})'
            if not ((t2[1] > t1[1] and (t2[2] or not t1[2])) or t1[1:] == t2[1:]):
                self.assumptions.add('integer conversions treated as value preserving')
            return x
        if ck in ('IntegralToFloating', 'FloatingCast'): 
            self.val(a, pre); return '(any int)'
        if ck == 'FloatingToIntegral':
            self.val(a, pre); return '(any int)'
        if ck in ('IntegralToBoolean', 'PointerToBoolean'):
            return f'(if {self.cond(a, pre)} then 1 else 0)'
        if ck == 'IntegralToPointer':
            x = self.val(a, pre)
            if x == '0': return x
        raise Unsupported('cast ' + str(ck))

    def ptrcast(self, t1, t2):
        p1, p2 = t1[1], t2[1]
        if p1 == p2 or p1[0] == VOID or p2[0] == VOID: return
        if memname(p1) == memname(p2): return
        if p1[0] == REC and p1[1].startswith('SCOTCH_'):      # opaque API object seen as its implementation: its address is kept
            self.assumptions.add(f'object of opaque API type {p1[1]} addressed as its implementation type')
            return
        raise Unsupported(f'pointer cast {t1} -> {t2}')

    def arith(self, op, x, y, t):
        if t[0] == PTR: return f'({x} {op} {y})'
        if t[0] != INT: raise Unsupported('arith on ' + str(t))
        if re.match(r'^\d+$', x) and re.match(r'^\d+$', y) and op in ('+', '-', '*', '<<'):      # constants
            a, b = int(x), int(y)
            if op != '<<' or b < t[1]:
                v = a + b if op == '+' else a - b if op == '-' else a * b if op == '*' else a << b
                if 0 <= v < 2 ** (t[1] - (1 if t[2] else 0)): return str(v)
        ch = self.sp.mode.startswith('checked') and t[1] <= 32
        s = ('s' if t[2] else 'u') + str(t[1])
        if op in ('+', '-', '*'):
            if ch: return f'({ {"+": "add", "-": "sub", "*": "mul"}[op]}_{s} {x} {y})'
            self.assumptions.add('machine integer arithmetic treated as mathematical (no overflow)')
            return f'({x} {op} {y})'
        g = '' if re.match(r'^\d+$', y) else 'g'
        if op == '/': return f'(cdiv{g} {x} {y})'
        if op == '%': return f'(cmod{g} {x} {y})'
        if op in ('&', '|', '^', '<<', '>>'):
            nm = {'&': 'band', '|': 'bor', '^': 'bxor', '<<': 'shl', '>>': 'shr'}[op]
            if op == '>>' and y == '1': return f'(half {x})'
            if op == '<<' and ch: return f'(shl_{s} {x} {y})'
            return f'({nm} {x} {y})'
        raise Unsupported('arith ' + op)

    def cond(self, e, pre):
        e0 = e
        e = self.skip(e)
        k = e['kind']
        if k == 'BinaryOperator':
            op = e['opcode']; a, b = e['inner']
            if op in ('<', '>', '<=', '>=', '==', '!='):
                if self.isflt(a) or self.isflt(b):
                    self.seq2(a, b, pre); return '(any bool)'
                x, y = self.seq2(a, b, pre)
                w = {'==': '=', '!=': '<>'}.get(op, op)
                return f'({x} {w} {y})'
            if op in ('&&', '||'):
                x = self.cond(a, pre)
                if self.effectful(b): x = self.bindb(x, pre)
                p = []
                y = self.cond(b, p)
                return f'({x} {op} {self.wrap(p, y)})' if not p else self.bindb(f'({x} {op} {self.wrap(p, y)})', pre)
            if op == ',':
                self.eff(a, pre); return self.cond(b, pre)
        if k == 'UnaryOperator' and e['opcode'] == '!':
            return f'(not {self.cond(e["inner"][0], pre)})'
        if k == 'ImplicitCastExpr' and e.get('castKind') in ('IntegralToBoolean', 'PointerToBoolean'):
            return self.cond(e['inner'][0], pre)
        return f'({self.val(e0, pre)} <> 0)'

    def bindb(self, c, pre):
        t = self.fresh('b')
        pre.append(f'let {t} = {c} in')
        return t

    def assign(self, e, pre, want=True):
        a, b = e['inner']
        if e['kind'] == 'BinaryOperator':
            if self.tu.ty(a['type'])[0] == REC:
                while b['kind'] in ('ImplicitCastExpr', 'ParenExpr'): b = b['inner'][0]
                l = self.lv(a, pre); r = self.lv(b, pre)
                l = self.freeze(l, pre); r = self.freeze(r, pre)
                self.copyrec(l.ty[1], l.addr, r.addr, pre)
                return '0'
            l = None
            if self.effectful(a): l = self.freeze(self.lv(a, pre), pre)
            v = self.init_val(b, self.tu.ty(a['type']), pre)
            v = self.bind(v, pre)
            if l is None: l = self.lv(a, pre)
            pre.append(self.write(l, v) + ';')
            return v
        l = self.freeze(self.lv(a, pre), pre)
        op = e['opcode'][:-1]
        v = self.val(b, pre)
        if self.isflt(a) or l.kind == 'flt': return '(any int)'
        if self.isflt(b): r = '(any int)'
        else: r = self.arith(op, self.read(l), v, l.ty if l.ty[0] == PTR else self.tu.ty(e.get('computeResultType', e['type'])))
        r = self.bind(r, pre)
        pre.append(self.write(l, r) + ';')
        return r

    def copyrec(self, tag, d, s, pre):
        for (f, q, _) in self.tu.records[tag]:
            ft = self.tu.ty(q)
            if ft[0] == FLT: continue
            if ft[0] == REC:
                self.copyrec(ft[1], f'({self.sub(tag, f)} {d})', f'({self.sub(tag, f)} {s})', pre); continue
            mm = self.fieldmem(tag, f, ft)
            self.writes.add(mm)
            pre.append(f'st_{mm} {d} {mm}[{s}];')

    def eff(self, e, pre):
        """evaluate for side effects only."""
        e = self.skip(e)
        if e['kind'] in ('BinaryOperator',) and e['opcode'] == ',':
            self.eff(e['inner'][0], pre); self.eff(e['inner'][1], pre); return
        if e['kind'] == 'CStyleCastExpr' and e.get('castKind') == 'ToVoid':
            return self.eff(e['inner'][0], pre)
        if not self.effectful(e): return
        self.val(e, pre)

    # ---------------------------------------------------------------- calls
    def callee(self, e):
        c = e['inner'][0]
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'): c = c['inner'][0]
        if c['kind'] != 'DeclRefExpr': raise Unsupported('indirect call')
        return strip_name(c['referencedDecl']['name'])

    def ptr_elem(self, e):
        """element type behind casts to void*"""
        x = e
        while x['kind'] in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr') :
            if x['kind'] != 'ParenExpr' and x.get('castKind') in ('LValueToRValue', 'ArrayToPointerDecay'): break
            x = x['inner'][0]
        return self.tu.ty(x['type'])[1], x

    def nelem(self, size_e, et, pre):
        """number of elements of a byte-size expression k * sizeof(T)"""
        sz = self.tu.sizeof(et)
        s = size_e
        while s['kind'] in ('ParenExpr',) or (s['kind'] in ('ImplicitCastExpr', 'CStyleCastExpr') and s.get('castKind') in ('IntegralCast', 'NoOp')):
            s = s['inner'][0]
        if s['kind'] == 'BinaryOperator' and s['opcode'] == '|' and self.peel(s['inner'][1])['kind'] == 'IntegerLiteral':
            return self.nelem(s['inner'][0], et, pre)          # memAlloc (size) is malloc ((size) | 8): at least size bytes
        if s['kind'] == 'BinaryOperator' and s['opcode'] == '*':
            a, b = s['inner']
            for x, y in ((a, b), (b, a)):
                if self.is_sizeof(y) == sz: return self.strip_val(x, pre)
            for x, y in ((a, b), (b, a)):
                q = self.is_sizeof(y)
                if q and q % sz == 0: return f'({self.strip_val(x, pre)} * {q // sz})'
        q = self.is_sizeof(s)
        if q and q % sz == 0: return str(q // sz)
        if sz == 1: return self.strip_val(s, pre)
        raise Unsupported('size expression')

    def strip_val(self, x, pre):
        m, self.sp.mode = self.sp.mode, self.sp.mode
        return self.val(x, pre)

    def is_sizeof(self, y):
        while y['kind'] in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr'): y = y['inner'][0]
        if y['kind'] == 'UnaryExprOrTypeTraitExpr':
            t = self.tu.ty(y['argType']) if 'argType' in y else self.tu.ty(y['inner'][0]['type'])
            return self.tu.sizeof(t)
        if y['kind'] == 'BinaryOperator' and y['opcode'] in ('+', '*'):
            a, b = self.is_sizeof(y['inner'][0]), self.is_sizeof(y['inner'][1])
            if y['opcode'] == '+' and a and b: return a + b
        return None

    def elem_mems(self, et):
        """memories that hold elements of type et, (name) list"""
        if et[0] == REC:
            r = []
            for (f, q, _) in self.tu.records[et[1]]:
                ft = self.tu.ty(q)
                if ft[0] == REC: raise Unsupported('nested struct copy')
                if ft[0] == FLT: continue
                r.append(self.fieldmem(et[1], f, ft))
            return r
        return [self.m(et)]

    def call(self, e, pre):
        n = self.callee(e)
        args = e['inner'][1:]
        if getattr(self.sp, 'io', False) and n in ('fprintf', 'putc', 'fputc', 'sprintf', 'getc', 'ungetc', 'isspace'):
            return getattr(self, 'b_' + ('putc' if n == 'fputc' else n))(args, pre)
        if n in ERRS or n.endswith('errorPrint') or n.endswith('errorPrintW'): return '0'
        if n in ('abs', 'labs'):
            x = self.val(args[0], pre); return f'(cabs {x})'
        if n in ('fabs', 'sqrt', 'floor', 'ceil', 'pow', 'log'):
            for a in args: self.eff(a, pre)
            return '(any int)'
        if n in self.contracts:
            return self.contract_call(n, args, pre)
        if n in ('memset', '__builtin_memset'):
            return self.b_memset(args, pre)
        if n in ('memcpy', 'memmove', '__builtin_memcpy', '__builtin_memmove', '__builtin___memcpy_chk'):
            return self.b_memcpy(args, pre)
        if n in ('free', 'memFree'): 
            self.eff(args[0], pre)
            return '0'
        if n in ('malloc', 'memAlloc'):
            return self.bind('(any int ensures { result >= 0 })', pre)   # typed by caller through alloc()
        if n == 'memAllocGroup': return self.b_group(args, pre)
        if n == 'memOffset': return self.b_offset(args, pre)
        if n == 'realloc': return self.b_realloc(args, pre)
        if n in ('pthread_mutex_init', 'pthread_mutex_destroy', 'pthread_mutex_lock', 'pthread_mutex_unlock'): return '0'
        f = self.tu.funcs.get(n)
        if f is None:
            raise Unsupported('call to ' + n)
        return self.inline(n, f, args, pre)

    # ---------------------------------------------------------------- streams: m_out/m_outs written tokens, m_chr/m_chrs read characters
    def stream(self, a):
        x = self.skip(a)
        while x['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr'): x = x['inner'][0]
        d = x.get('referencedDecl', {})
        if x['kind'] != 'DeclRefExpr' or d.get('kind') != 'ParmVarDecl': raise Unsupported('stream is not a parameter')
        if sum(1 for (_, t) in self.params if t[0] == PTR and 'FILE' in str(t[1])) > 1: raise Unsupported('several streams')

    def put_num(self, v, pre):
        self.mem('m_out'); self.mem('m_outs'); self.writes |= {'m_out', 'm_outs'}
        v = self.bind(v, pre)
        pre.append('assert { [@expl:numbers of the file are separated] m_outs[1] = 1 };')
        pre.append(f'st_m_out m_outs[0] {v}; st_m_outs 0 (m_outs[0] + 1); st_m_outs 1 0;')

    def put_sep(self, pre):
        self.mem('m_outs'); self.writes.add('m_outs')
        pre.append('st_m_outs 1 1;')

    def strlit(self, a):
        x = self.skip(a)
        while x['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr'): x = x['inner'][0]
        if x['kind'] == 'PredefinedExpr': x = x['inner'][0]
        if x['kind'] != 'StringLiteral': raise Unsupported('format is not a literal')
        import json as _j
        return _j.loads(x['value'])

    def b_fprintf(self, args, pre):
        self.stream(args[0])
        fmt = self.strlit(args[1]); rest = list(args[2:]); i = 0
        vals = [None if self.tu.ty(a['type'])[0] == PTR else self.bind(self.val(a, pre), pre) for a in rest]; k = 0
        while i < len(fmt):
            c = fmt[i]
            if c in ' \t\n\r': self.put_sep(pre); i += 1; continue
            if c.isdigit():
                j = i
                while j < len(fmt) and fmt[j].isdigit(): j += 1
                self.put_num(str(int(fmt[i:j])), pre); i = j; continue
            m = re.compile(r'%(d|i|ld|lld|3s)').match(fmt, i)
            if not m or k >= len(rest): raise Unsupported('format ' + fmt)
            if m.group(1) == '3s':
                l = self.lv(self.peel(rest[k]), pre)
                if l.kind not in ('larr', 'marr'): raise Unsupported('%s of ' + l.kind)
                ch = [f'{l.w}[{q}]' if l.kind == 'larr' else f'{self.m(l.ty[1])}[ix {self.par(l.addr)} {q}]' for q in range(4)]
                pre.append('assert { [@expl:three digits] ' + ' /\\ '.join(f'48 <= {x} <= 57' for x in ch[:3]) + f' /\\ {ch[3]} = 0 }};')
                self.put_num(f'(100 * ({ch[0]} - 48) + 10 * ({ch[1]} - 48) + ({ch[2]} - 48))', pre)
            else: self.put_num(vals[k], pre)
            k += 1; i = m.end()
        if k != len(rest): raise Unsupported('format ' + fmt)
        return self.bind('(any int ensures { result >= -1 })', pre)

    def b_putc(self, args, pre):
        self.stream(args[1])
        c = self.val(args[0], pre)
        if c not in ('9', '10', '13', '32'): raise Unsupported('putc of something else than white space')
        self.put_sep(pre)
        return self.bind('(any int ensures { result >= -1 })', pre)

    def b_sprintf(self, args, pre):
        if self.strlit(args[1]) != '%3.3d': raise Unsupported('sprintf format')
        v = self.bind(self.val(args[2], pre), pre)
        l = self.lv(self.peel(args[0]), pre)
        if l.kind not in ('larr', 'marr'): raise Unsupported('sprintf to ' + l.kind)
        pre.append(f'assert {{ [@expl:text fits its buffer] 0 <= {v} <= 999 }};')
        for q, x in enumerate((f'(48 + cdiv {v} 100)', f'(48 + cmod (cdiv {v} 10) 10)', f'(48 + cmod {v} 10)', '0')):
            x = self.bind(x, pre)
            w = f'{l.w} <- (upd {l.w} {q} {x})' if l.kind == 'larr' else self.write(Lv('mem', l.ty[1], mem=self.m(l.ty[1]), addr=f'(ix {self.par(l.addr)} {q})'), x)
            pre.append(w + ';')
        return self.bind('(any int)', pre)

    def b_getc(self, args, pre):
        self.stream(args[0])
        self.mem('m_chr'); self.mem('m_chrs'); self.writes.add('m_chrs')
        t = self.bind('m_chr[m_chrs[0]]', pre)
        pre.append(f'st_m_chrs 0 (m_chrs[0] + (if {t} = -1 then 0 else 1));')
        return t

    def b_ungetc(self, args, pre):
        self.stream(args[1])
        self.mem('m_chrs'); self.writes.add('m_chrs')
        v = self.bind(self.val(args[0], pre), pre)
        pre.append(f'assert {{ [@expl:the character put back is the last one read] {v} = -1 || m_chr[m_chrs[0] - 1] = {v} }};')
        self.mem('m_chr')
        pre.append(f'st_m_chrs 0 (m_chrs[0] - (if {v} = -1 then 0 else 1));')
        return '0'

    def b_isspace(self, args, pre):
        v = self.bind(self.val(args[0], pre), pre)
        return self.bind(f'(if {v} = 32 || (9 <= {v} && {v} <= 13) then 1 else 0)', pre)

    def contract_call(self, n, args, pre):
        self.calls.add(n)
        vals = []
        for i, a in enumerate(args):
            v = self.val(a, pre)
            if any(self.effectful(b) for b in args[i+1:]): v = self.bind(v, pre)
            vals.append(v)
        for w in self.writes_of.get(n, ()): 
            self.mem(w, self.writes_of[n][w]); self.writes.add(w)
        return self.bind(f'({wid(n)} (sp - {self.locsize_tot()}) ' + (' '.join(f'({v})' for v in vals) or '()') + ')', pre)

    def locsize_tot(self): return '#LOC#'

    def alloc(self, lhs_elem, size_e, pre):
        cnt = self.nelem(size_e, lhs_elem, pre)
        self.uses_hp = True
        return self.bind(f'(alloc_cells{"_ok" if self.sp.allocok else ""} {cnt})', pre)

    def b_memset(self, args, pre):
        et, x = self.ptr_elem(args[0])
        if et[0] == REC:
            p = self.bind(self.val(args[0], pre), pre)
            v = self.val(args[1], pre)
            fill = self.fillval(v)
            cnt = self.nelem(args[2], et, pre)
            if cnt == '1':
                self.setrec(et[1], p, fill, pre)
                return p
            if any(self.tu.ty(q)[0] != INT for (_, q, _) in self.tu.records[et[1]]): raise Unsupported('memset of struct array')
            cnt = self.bind(cnt, pre)
            for mm in self.elem_mems(et):
                self.writes.add(mm)
                pre.append(f'fill_{mm} {p} {cnt} ({fill});')
            return p
        p = self.bind(self.val(args[0], pre), pre)
        v = self.val(args[1], pre)
        fill = self.fillval(v)
        cnt = self.bind(self.nelem(args[2], et, pre), pre)
        for mm in self.elem_mems(et):
            self.writes.add(mm)
            pre.append(f'fill_{mm} {p} {cnt} ({fill if et[1:] != (8, False) or fill == "0" else 255});')
        return p

    def fillval(self, v):
        v = v.replace(' ', '')
        if v == '0': return '0'
        if v in ('(-0-1)', '(-1)', '-1'): return '-1'
        raise Unsupported('memset value ' + v)

    def setrec(self, tag, p, v, pre):
        for (f, q, _) in self.tu.records[tag]:
            ft = self.tu.ty(q)
            if ft[0] == FLT: continue
            if ft[0] == REC: 
                self.setrec(ft[1], f'({self.sub(tag, f)} {p})', v, pre); continue
            if ft[0] == ARR:
                mm = self.fieldmem(tag, f, ft); self.writes.add(mm)
                pre.append(f'havoc_{mm} {p};' if v != '0' else f'zero_{mm} {p};'); continue
            if f'{tag.rstrip("_")}.{f}' in self.sp.addr:
                mm = self.m(ft); self.writes.add(mm)
                pre.append(f'st_{mm} ({self.adr(tag, f)} {p}) ({v});'); continue
            mm = self.fieldmem(tag, f, ft); self.writes.add(mm)
            pre.append(f'st_{mm} {p} ({v});')

    def b_memcpy(self, args, pre):
        et, _ = self.ptr_elem(args[0]); es, _ = self.ptr_elem(args[1])
        if et[0] == VOID and es[0] != VOID: et = es
        if es[0] == VOID and et[0] != VOID: es = et
        d = self.bind(self.val(args[0], pre), pre)
        s = self.bind(self.val(args[1], pre), pre)
        if memname(et) == memname(es):
            cnt = self.bind(self.nelem(args[2], et, pre), pre)
            if et[0] == REC and cnt == '1':
                self.copyrec(et[1], d, s, pre); return d
            for mm in self.elem_mems(et):
                self.writes.add(mm)
                pre.append(f'copy_{mm} {d} {s} {cnt};')
            return d
        ne, ns = memname(et), memname(es)
        if ne == 'uchar' and ns == 'int':            # raw bytes <- ints
            cnt = self.bind(self.nelem(args[2], es, pre), pre)
            self.mem('m_uchar'); self.mem('m_int'); self.writes.add('m_uchar'); self.raw = True
            pre.append(f'raw_put {d} {s} {cnt};')
            return d
        if ne == 'int' and ns == 'uchar':
            cnt = self.bind(self.nelem(args[2], et, pre), pre)
            self.mem('m_uchar'); self.mem('m_int'); self.writes.add('m_int'); self.raw = True
            pre.append(f'raw_get {d} {s} {cnt};')
            return d
        raise Unsupported(f'memcpy {ne} <- {ns}')

    raw = False

    def b_realloc(self, args, pre):
        """realloc, used to shrink a block: a fresh block with the same leading contents (failure is ruled out)"""
        et, _ = self.ptr_elem(args[0])
        if et[0] in (VOID, REC): raise Unsupported('realloc of this type')
        p = self.bind(self.val(args[0], pre), pre)
        cnt = self.bind(self.nelem(args[1], et, pre), pre)
        mm = self.m(et)
        self.writes.add(mm); self.uses_hp = True
        q = self.bind(f'(alloc_cells_ok {cnt})', pre)
        pre.append(f'copy_{mm} {q} {p} {cnt};')
        return q

    def b_offset(self, args, pre):
        """memOffset (p, &a, size, &b, size, ..., NULL): consecutive arrays, each starting on an eight-byte boundary"""
        p = self.bind(self.val(args[0], pre), pre)
        off, i, sz0 = '0', 1, None
        while i + 1 < len(args):
            a = args[i]
            while a['kind'] in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr'): a = a['inner'][0]
            if not (a['kind'] == 'UnaryOperator' and a['opcode'] == '&'): break
            tgt = a['inner'][0]
            et = self.tu.ty(tgt['type'])[1]
            sz = self.tu.sizeof(et)
            if sz not in (4, 8) or sz0 not in (None, sz): raise Unsupported('memOffset of mixed types')
            sz0 = sz
            if off != '0' and sz == 4: off = f'(pad2 ({off}))'
            l = self.lv(tgt, pre)
            pre.append(self.write(l, f'({p} + {off})') + ';')
            cnt = self.bind(self.nelem(args[i+1], et, pre), pre)
            off = cnt if off == '0' else f'{off} + {cnt}'
            i += 2
        return self.bind(f'({p} + {off})', pre)

    def b_group(self, args, pre):
        """memAllocGroup((void **) &p, size, ..., NULL): all-or-nothing disjoint fresh blocks."""
        ok = self.bind('(any int ensures { result >= 0 })', pre)
        body = []
        i = 0
        while i + 1 < len(args):
            a = args[i]
            while a['kind'] in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr'): a = a['inner'][0]
            if not (a['kind'] == 'UnaryOperator' and a['opcode'] == '&'): break
            tgt = a['inner'][0]
            et = self.tu.ty(tgt['type'])[1]
            cnt = self.nelem(args[i+1], et, pre)
            l = self.lv(tgt, body)
            t = self.fresh()
            body.append(f'let {t} = alloc_cells_ok {cnt} in')
            body.append(self.write(l, t) + ';')
            i += 2
        self.uses_hp = True
        pre.append(f'if {ok} <> 0 then ({" ".join(body)} ());')
        return ok

    uses_hp = False

    def inline(self, n, f, args, pre):
        if n in self.stack: raise Unsupported('recursive call without contract: ' + n)
        if len(self.stack) > 8: raise Unsupported('inline depth')
        self.inlined.append(n)
        params = [c for c in f['inner'] if c.get('kind') == 'ParmVarDecl']
        vals = []
        for i, a in enumerate(args):
            vals.append(self.bind(self.val(a, pre), pre))
        body = [c for c in f['inner'] if c.get('kind') == 'CompoundStmt'][0]
        self.stack.append(n)
        saved, self.scopes = self.scopes, [{}]
        sret, self.retexc = getattr(self, 'retexc', None), self.fresh('Ret').replace('ret', 'Ret').capitalize()
        sbrk, self.brk, self.cont = (getattr(self, 'brk', None), getattr(self, 'cont', None)), None, None
        rt = self.tu.ty(f['type']['qualType'].split('(')[0])
        code = ''
        lets = ''
        addr = self.addr_taken(body)
        for p, v in zip(params, vals):
            t = self.tu.ty(p['type'])
            nm = p.get('name', self.fresh('anon'))
            if nm in addr:
                raise Unsupported('address of inlined parameter')
            w = wid(nm)
            self.scopes[-1][nm] = {'k': 'ref', 'w': w, 't': t}
            self.locals_seen.append((nm, str(t)))
            lets += f'let ref {w} = {v} in '
        b = self.block(body, addr)
        void = rt[0] == VOID
        if void:
            code = f'(exception {self.retexc} in try {lets} {b} with {self.retexc} -> () end)'
        else:
            code = f'(exception {self.retexc} int in try {lets} {b}; (any int) with {self.retexc} r_ -> r_ end)'
        self.scopes = saved
        self.retexc = sret
        self.brk, self.cont = sbrk
        self.stack.pop()
        if void:
            pre.append(code + ';'); return '0'
        return self.bind(code, pre)

    # ---------------------------------------------------------------- statements
    def addr_taken(self, body):
        r = set()
        def walk(n, inalloc=False):
            if not isinstance(n, dict): return
            if n.get('kind') == 'CallExpr':
                try: c = self.callee(n)
                except Unsupported: c = ''
                al = c in ('memAllocGroup', 'memReallocGroup', 'memOffset')
                for x in n.get('inner', []): walk(x, al)
                return
            if n.get('kind') == 'UnaryOperator' and n.get('opcode') == '&' and not inalloc:
                x = n['inner'][0]
                while x['kind'] == 'ParenExpr': x = x['inner'][0]
                if x['kind'] == 'DeclRefExpr': r.add(x['referencedDecl']['name'])
                if x['kind'] == 'ArraySubscriptExpr':
                    y = x['inner'][0]
                    if y['kind'] == 'ImplicitCastExpr' and y.get('castKind') == 'ArrayToPointerDecay' and y['inner'][0]['kind'] == 'DeclRefExpr':
                        r.add(y['inner'][0]['referencedDecl']['name'])
            if n.get('kind') == 'ArraySubscriptExpr':
                y = n['inner'][0]
                if y['kind'] == 'ImplicitCastExpr' and y.get('castKind') == 'ArrayToPointerDecay':
                    walk(y['inner'][0], inalloc); walk(n['inner'][1], inalloc); return
            if n.get('kind') == 'ImplicitCastExpr' and n.get('castKind') == 'ArrayToPointerDecay' and n['inner'][0]['kind'] == 'DeclRefExpr':
                r.add(n['inner'][0]['referencedDecl']['name'])
            for x in n.get('inner', []): walk(x, inalloc)
        walk(body)
        return r

    def has(self, n, pred, stop=()):
        if not isinstance(n, dict) or 'kind' not in n: return False
        if pred(n): return True
        if n['kind'] in stop: return False
        return any(self.has(c, pred, stop) for c in n.get('inner', []))

    def block(self, comp, addr):
        stmts = comp.get('inner', []) if comp['kind'] == 'CompoundStmt' else [comp]
        self.scopes.append({})
        try:
            labels = [i for i, s in enumerate(stmts) if s['kind'] == 'LabelStmt']
            gotos = any(self.has(s, lambda x: x['kind'] == 'GotoStmt') for s in stmts)
            if labels and gotos:
                return self.block_labels(stmts, labels, addr)
            return self.seq(stmts, 0, addr)
        finally:
            self.scopes.pop()

    def block_labels(self, stmts, labels, addr):
        if len(labels) > 1: raise Unsupported('several labels')
        j = labels[0]
        # forward gotos only
        if any(self.has(s, lambda x: x['kind'] == 'GotoStmt') for s in stmts[j:]): raise Unsupported('backward goto')
        hoist, pre = '', []
        for s in stmts[:j]:
            if s['kind'] == 'DeclStmt':
                d = []
                for v in s['inner']:
                    if v['kind'] != 'VarDecl': continue
                    h, a = self.declare(v, addr, hoist=True)
                    hoist += h
                    d += a
                pre.append(d)
            else: pre.append(s)
        lab = self.fresh('Lbl').capitalize()
        self.gotolbl = lab
        parts = []
        for p in pre:
            parts.append((' '.join(p) + ' ()') if isinstance(p, list) else self.stmt(p, addr))
        self.gotolbl = None
        tail = [stmts[j]['inner'][0]] + stmts[j+1:]
        t = self.seq(tail, 0, addr)
        return f'{hoist} (exception {lab} in (try {"; ".join(parts) or "()"} with {lab} -> () end); {t})'

    gotolbl = None

    def declare(self, v, addr, hoist=False):
        """returns (let-prefix string, list of effects)"""
        nm = v['name']; t = self.tu.ty(v['type'])
        self.locals_seen.append((nm, str(t)))
        init = v.get('inner', [None])[0] if v.get('init') else None
        pre = []
        w = wid(nm)
        if v.get('storageClass') == 'static': raise Unsupported('static local')
        if t[0] == FLT:
            if init is not None: self.eff(init, pre)
            self.scopes[-1][nm] = {'k': 'ref', 'w': w, 't': t}
            return (' '.join(pre) + f' let ref {w} = (any int) in ', [])
        if t[0] in (REC,) or (t[0] == ARR and (nm in addr or t[1][0] == REC)) or (t[0] in (INT, PTR) and nm in addr):
            n = t[2] if t[0] == ARR else 1
            self.locsize += n
            let = f'let {w} = sp - {self.locsize} in '
            val = None
            if init is not None:
                if t[0] != REC and t[0] != ARR:
                    val = self.val(init, pre)
                    val = self.bind(val, pre)
                else:
                    i0 = self.skip(init)
                    if t[0] == REC:
                        src = self.lv(i0['inner'][0] if i0['kind'] == 'ImplicitCastExpr' else i0, pre)
                        self.scopes[-1][nm] = {'k': 'loc', 'w': w, 't': t}
                        out = []
                        self.copyrec(t[1], w, src.addr, out)
                        return (' '.join(pre) + ' ' + let + ' '.join(out) + ' ', [])
                    raise Unsupported('array initialiser')
            self.scopes[-1][nm] = {'k': 'loc', 'w': w, 't': t}
            if val is not None:
                mm = self.m(t); self.writes.add(mm)
                if hoist: return let, pre + [f'st_{mm} {w} {val};']
                return ' '.join(pre) + ' ' + let + f'st_{mm} {w} {val}; ', []
            return let, []
        if t[0] == ARR:
            if init is not None: raise Unsupported('array initialiser')
            self.scopes[-1][nm] = {'k': 'lmap', 'w': w, 't': t}
            return f'let ref {w} = (any map int int) in ', []
        if init is not None:
            i0 = self.skip(init)
            if hoist:
                self.scopes[-1][nm] = {'k': 'ref', 'w': w, 't': t}
                x = self.init_val(init, t, pre)
                return f'let ref {w} = (any int) in ', pre + [f'{w} <- {x};']
            x = self.init_val(init, t, pre)
            self.scopes[-1][nm] = {'k': 'ref', 'w': w, 't': t}
            return ' '.join(pre) + f' let ref {w} = {x} in ', []
        self.scopes[-1][nm] = {'k': 'ref', 'w': w, 't': t}
        return f'let ref {w} = {self.anyval(t)} in ', []

    def anyval(self, t):
        if self.sp.mode.startswith('checked') and t[0] == INT and t[1] == 32:
            return '(any int ensures { %s })' % ('-2147483648 <= result <= 2147483647' if t[2] else '0 <= result <= 4294967295')
        return '(any int)'

    def init_val(self, init, t, pre):
        c = self.alloc_call(init)
        if c is not None and t[0] == PTR:
            return self.alloc(t[1], c, pre)
        return self.val(init, pre)

    def alloc_call(self, e):
        x = e
        while x['kind'] in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr'): x = x['inner'][0]
        if x['kind'] == 'CallExpr':
            try: n = self.callee(x)
            except Unsupported: return None
            if n in ('malloc', 'memAlloc'): return x['inner'][1]
        return None

    def nloops(self, s):
        return (s.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt')) + sum(self.nloops(c) for c in s.get('inner', []) if isinstance(c, dict))

    def cutspec(self, specs, code):
        en = ''.join(f'\n  ensures {{ {self.spec(x)} }}' for x in specs if not x.startswith('raises '))
        ra = [x[7:] for x in specs if x.startswith('raises ')]
        rs = ''
        if ra and 'raise (Ret0' in code: rs = f'\n  raises {{ Ret0 result -> {self.spec(ra[0])} }}'
        return f'(begin {en}{rs}\n {code}; () end)'

    def seq(self, stmts, i, addr, nocut=False):
        if i >= len(stmts): return '()'
        s = stmts[i]
        if s['kind'] != 'DeclStmt' and not nocut:
            n, j = self.loopctr, i
            while j < len(stmts) and stmts[j]['kind'] != 'DeclStmt':
                if stmts[j]['kind'] in ('ForStmt', 'WhileStmt', 'DoStmt'):
                    a = self.sp.loops.get(n + 1)
                    if a is not None and a.cut and j > i:
                        c = ';\n'.join(self.stmt(x, addr) for x in stmts[i:j])
                        return self.cutspec(a.cut, c) + ';\n' + self.seq(stmts, j, addr)
                n += self.nloops(stmts[j]); j += 1
        if s['kind'] == 'DeclStmt':
            code = ''
            for v in s['inner']:
                if v['kind'] == 'VarDecl':
                    h, _ = self.declare(v, addr)
                    code += h
                elif v['kind'] in ('RecordDecl', 'TypedefDecl'): pass
            return code + self.seq(stmts, i + 1, addr)
        c = self.stmt(s, addr)
        if i + 1 < len(stmts):
            return c + ';\n' + self.seq(stmts, i + 1, addr, nocut)
        return c

    def stmt(self, s, addr):
        self.stmts += 1
        k = s['kind']
        if k == 'CompoundStmt': return '(' + self.block(s, addr) + ')'
        if k == 'NullStmt': return '()'
        if k == 'DeclStmt': return '(' + self.seq([s], 0, addr) + ')'
        if k == 'IfStmt':
            inner = s['inner']
            pre = []
            c = self.cond(inner[0], pre)
            a = self.block(inner[1], addr)
            b = self.block(inner[2], addr) if len(inner) > 2 else '()'
            return '(' + ' '.join(pre) + f' if {c} then ({a}) else ({b}))'
        if k == 'ReturnStmt':
            pre = []; gh = ''
            if self.retexc == 'Ret0':
                self.rets_seen += 1
                gh = ''.join(self.ghost(x) for x in self.sp.rets.get(self.rets_seen, ()))
            if s.get('inner'):
                v = self.val(s['inner'][0], pre)
                return '(' + ' '.join(pre) + (' ' + gh if gh else '') + f' raise ({self.retexc} {v if self.atomic(v) else "(" + v + ")"}))'
            return f'({gh} raise {self.retexc})'
        if k in ('ForStmt', 'WhileStmt', 'DoStmt'): return self.loop(s, addr)
        if k == 'BreakStmt':
            if not self.brk: raise Unsupported('break')
            self.brkused.add(self.brk); return f'(raise {self.brk})'
        if k == 'ContinueStmt':
            if not self.cont: raise Unsupported('continue')
            self.brkused.add(self.cont); return f'(raise {self.cont})'
        if k == 'GotoStmt':
            if not self.gotolbl: raise Unsupported('goto')
            return f'(raise {self.gotolbl})'
        if k == 'SwitchStmt': return self.switch(s, addr)
        if k == 'LabelStmt': return self.stmt(s['inner'][0], addr)
        if k in ('AttributedStmt',): return self.stmt(s['inner'][-1], addr)
        # expression statement
        pre = []
        e = self.skip(s)
        if e['kind'] == 'BinaryOperator' and e['opcode'] == '=':
            self.assign_stmt(e, pre)
        else:
            self.eff(s, pre)
        return '(' + ' '.join(pre) + ' ())'

    def assign_stmt(self, e, pre):
        a, b = e['inner']
        c = self.alloc_call(b)
        t = self.tu.ty(a['type'])
        if c is not None and t[0] == PTR:
            v = self.alloc(t[1], c, pre)
            l = self.lv(a, pre)
            pre.append(self.write(l, v) + ';')
            return
        self.assign(e, pre)

    def atomic(self, v): return re.match(r"^[\w']+$", v) is not None

    brk = cont = None

    def loop(self, s, addr):
        self.brkused = getattr(self, 'brkused', set())
        self.loopctr += 1
        num = self.loopctr
        self.loops_seen = max(self.loops_seen, num)
        ann = self.sp.loops.get(num, L())
        k = s['kind']
        self.scopes.append({})
        try:
            head = ''
            if k == 'ForStmt':
                init, _, c, inc, body = s['inner']
                if init:
                    if init['kind'] == 'DeclStmt':
                        for v in init['inner']:
                            h, _ = self.declare(v, addr); head += h
                    else:
                        pre = []; self.eff(init, pre)
                        if pre: head += ' '.join(pre) + ' '
                c = c or None; inc = inc or None
            elif k == 'WhileStmt': c, body = s['inner'][-2:]; inc = None
            else: body, c = s['inner']; inc = None
            B, C = self.fresh('Brk').capitalize(), self.fresh('Cont').capitalize()
            for x in ann.before: head += self.ghost(x)
            invs = ''
            for iv in ann.inv:
                invs += f'\n  invariant {{ {self.spec(iv)} }}'
            if ann.var: invs += f'\n  variant {{ {self.spec(ann.var)} }}'
            else: self.allvariants = False
            saved = (self.brk, self.cont)
            self.brk, self.cont = B, C
            b = self.block(body, addr)
            if ann.bodycut: b = self.cutspec(ann.bodycut, b)
            self.brk, self.cont = saved
            if C in self.brkused: b = f'(exception {C} in try {b} with {C} -> () end)'
            if inc:
                pre = []; self.eff(inc, pre)
                b = f'({b}; {" ".join(pre)} ())'
            beg = ''.join(self.ghost(x) for x in ann.begin)
            end = ''.join(self.ghost(x) for x in ann.end)
            if self.smoke: end += ' check { [@expl:smoke] false }; '
            b = f'({beg} {b}; {end} ())'
            if k == 'DoStmt':
                pre = []; cc = self.cond(c, pre)
                self.brkused.add(B)
                code = f'while true do {invs}\n {b}; ({" ".join(pre)} if not {cc} then raise {B}) done'
            else:
                pre = []; cc = self.cond(c, pre) if c else 'true'
                code = f'while ({self.wrap(pre, cc)}) do {invs}\n {b} done'
            if B in self.brkused: code = f'(exception {B} in try {code} with {B} -> () end)'
            aft = ''.join(self.ghost(x) for x in ann.after)
            return f'({head} {code}; {aft} ())'
        finally:
            self.scopes.pop()

    def ghost(self, x):
        x = x.strip()
        if x.startswith('assert'): return self.spec(x) + '; '
        if x.startswith('let ghost'): return self.spec(x) + ' in '
        if x.startswith('step '):          # logical state of a stream that no C code can reach: m_inps counts the numbers read
            self.mem('m_inps'); self.writes.add('m_inps')
            return f'st_m_inps 0 (m_inps[0] + {int(x[5:])}); '
        return f'(ghost ({self.spec(x)})); '

    def switch(self, s, addr):
        self.brkused = getattr(self, 'brkused', set())
        e, body = s['inner'][-2:]
        pre = []
        v = self.bind(self.val(e, pre), pre)
        groups = []     # (list of consts or None, [stmts])
        def unfold(st):
            consts = []
            while st['kind'] in ('CaseStmt', 'DefaultStmt'):
                if st['kind'] == 'CaseStmt':
                    c = []
                    consts.append(self.val(st['inner'][0], c)); st = st['inner'][-1]
                else:
                    consts.append(None); st = st['inner'][-1]
            return consts, st
        for st in body.get('inner', []):
            if st['kind'] in ('CaseStmt', 'DefaultStmt'):
                consts, st = unfold(st)
                groups.append((consts, [st]))
            else:
                if not groups: raise Unsupported('switch body')
                groups[-1][1].append(st)
        allc = [c for g in groups for c in g[0] if c is not None]
        B = self.fresh('Sw').capitalize(); ft = self.fresh('ft')
        saved, self.brk = self.brk, B
        code = ''
        self.scopes.append({})
        for consts, sts in groups:
            ds = []
            for c in consts:
                ds.append(f'{v} = {c}' if c is not None else '(' + ' && '.join([f'{v} <> {x}' for x in allc] or ['true']) + ')')
            code += f' (if {ft} || {" || ".join(ds)} then ({ft} <- true; {self.seq(sts, 0, addr)}));'
        self.scopes.pop()
        self.brk = saved
        return '(' + ' '.join(pre) + f' let ref {ft} = false in exception {B} in try {code} () with {B} -> () end)'

    # ---------------------------------------------------------------- whole function
    def function(self, name):
        f = self.tu.funcs.get(name)
        if f is None: raise Unsupported('function not found: ' + name)
        self.stack = [name] if False else []
        params = [c for c in f['inner'] if c.get('kind') == 'ParmVarDecl']
        body = [c for c in f['inner'] if c.get('kind') == 'CompoundStmt'][0]
        addr = self.addr_taken(body)
        assigned = self.assigned_vars(body)
        self.rett = self.tu.ty(f['type']['qualType'].split('(')[0])
        self.params = []
        for p in params:
            t = self.tu.ty(p['type'])
            self.params.append((p['name'], t))
            self.scopes[-1][p['name']] = {'k': 'ref', 'w': wid(p['name']), 't': t}
        req = [(l, self.spec(x)) for l, x in norm(self.sp.requires)]
        ens = [(l, self.spec(x)) for l, x in norm(self.sp.ensures)]
        var = self.spec(self.sp.variant) if self.sp.variant else None
        self.contract = (req, ens)
        self.cmems = dict(self.mems)
        if self.sp.mode.startswith('checked'):
            for (n, t) in self.params:
                if t[0] == INT and t[1] == 32:
                    req.append(('type', f'{"-2147483648" if t[2] else "0"} <= {wid(n)} <= {"2147483647" if t[2] else "4294967295"}'))
        lets = ''
        for (n, t) in self.params:
            if n in addr: raise Unsupported('address of parameter ' + n)
            if n in assigned: lets += f'let ref {wid(n)} = {wid(n)} in '
        void = self.rett[0] == VOID
        self.retexc = 'Ret0'
        beg = ''.join(self.ghost(x) for x in self.sp.begin)
        b = self.block(body, addr)
        smoke = ' check { [@expl:smoke] false }; ' if self.smoke else ''
        if void:
            code = f'exception Ret0 in (try {lets} {smoke} {beg} {b} with Ret0 -> () end)'
            rty = 'unit'
        else:
            code = f'exception Ret0 int in (try {lets} {smoke} {beg} {b}; (any int) with Ret0 r_ -> r_ end)'
            rty = 'int'
        if self.sp.end:
            e = ''.join(self.ghost(x) for x in self.sp.end)
            code = f'let result_ = {code} in {e} result_'
        code = code.replace('#LOC#', str(self.locsize))
        sig = f'{wid(name)} (sp: int) ' + ' '.join(f'({wid(n)}: int)' for n, _ in self.params) + (' (_u: unit)' if not self.params else '') + f' : {rty}'
        self.sig = sig
        self.rty = rty
        self.code = code
        self.var = var
        self.isrec = name in self.calls
        if self.isrec and not var: self.allvariants = False
        return self

    allvariants = True

    def external(self, s):
        """assumed contract of a function whose body is not verified"""
        f = self.tu.protos.get(s.name)
        if f is None: raise Unsupported('function not found: ' + s.name)
        self.rett = self.tu.ty(f['type']['qualType'].split('(')[0])
        self.params = []
        for i, p in enumerate(c for c in f['inner'] if c.get('kind') == 'ParmVarDecl'):
            t = self.tu.ty(p['type']); nm = s.pnames[i] if s.pnames else p.get('name', f'arg{i}')
            self.params.append((nm, t))
            self.scopes[-1][nm] = {'k': 'ref', 'w': wid(nm), 't': t}
        req = [(l, self.spec(x)) for l, x in norm(s.requires)]
        ens = [(l, self.spec(x)) for l, x in norm(s.ensures)]
        self.contract = (req, ens)
        for w in s.writes or (): self.spec(w); self.writes.add(w)
        self.cmems = dict(self.mems)
        rty = 'unit' if self.rett[0] == VOID else 'int'
        self.sig = f'{wid(s.name)} (sp: int) ' + ' '.join(f'({wid(n)}: int)' for n, _ in self.params) + (' (_u: unit)' if not self.params else '') + f' : {rty}'
        self.isrec, self.var, self.code = False, None, ''

    def assigned_vars(self, body):
        r = set()
        def walk(n):
            if not isinstance(n, dict): return
            if n.get('kind') in ('BinaryOperator', 'CompoundAssignOperator') and n.get('opcode', '').endswith('=') and n.get('opcode') not in ('==', '<=', '>=', '!='):
                x = n['inner'][0]
                while x['kind'] == 'ParenExpr': x = x['inner'][0]
                if x['kind'] == 'DeclRefExpr': r.add(x['referencedDecl']['name'])
            if n.get('kind') == 'UnaryOperator' and n.get('opcode') in ('++', '--'):
                x = n['inner'][0]
                while x['kind'] == 'ParenExpr': x = x['inner'][0]
                if x['kind'] == 'DeclRefExpr': r.add(x['referencedDecl']['name'])
            for x in n.get('inner', []): walk(x)
        walk(body)
        return r

def norm(items):
    r = []
    for i, x in enumerate(items):
        if isinstance(x, tuple): r.append(x)
        else: r.append((None, x))
    return r

def contract_text(req, ens, fname):
    s = ''
    for (l, x) in req:
        s += f'\n  requires {{ [@expl:precondition{" " + l if l else ""} of {fname}] {x} }}'
    for i, (l, x) in enumerate(ens):
        s += f'\n  ensures {{ [@expl:postcondition {l or i + 1}] {x} }}'
    return s

def mem_decls(mems, writes=None):
    s = ''
    for m, k in sorted(mems.items()):
        s += f'  val ref {m} : {k}\n'
        if k == 'map int int':
            s += f'  val st_{m} (a v: int) : unit writes {{ {m} }} ensures {{ {m} = (old {m})[a <- v] }}\n'
            s += f'  val fill_{m} (p n v: int) : unit writes {{ {m} }} ensures {{ forall i. {m}[i] = if p <= i < p + n then v else (old {m})[i] }}\n'
            s += f'  val copy_{m} (d s n: int) : unit writes {{ {m} }} ensures {{ forall i. {m}[i] = if d <= i < d + n then (old {m})[s + (i - d)] else (old {m})[i] }}\n'
        else:
            s += f'  val st_{m} (a: int) (v: map int int) : unit writes {{ {m} }} ensures {{ {m} = (old {m})[a <- v] }}\n'
            s += f'  val sta_{m} (a i v: int) : unit writes {{ {m} }} ensures {{ {m} = (old {m})[a <- (old {m})[a][i <- v]] }}\n'
            s += f'  val havoc_{m} (a: int) : unit writes {{ {m} }} ensures {{ forall b. b <> a -> {m}[b] = (old {m})[b] }}\n'
            s += f'  val zero_{m} (a: int) : unit writes {{ {m} }} ensures {{ (forall b. b <> a -> {m}[b] = (old {m})[b]) /\\ (forall i. {m}[a][i] = 0) }}\n'
    return s


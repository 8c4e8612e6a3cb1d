"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang emits for /repo's sources."""
import re, struct

class Unsupported(Exception):
    pass

TOK = re.compile(r'''
   \s+
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<lv>%(?:"[^"]*"|[-\w$.]+))
 | (?P<gv>@(?:"[^"]*"|[-\w$.]+))
 | (?P<md>!(?:[-\w$.]+)?)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+(?:\.\d*(?:[eE][-+]?\d+)?)?|0x[0-9A-Fa-f]+)
 | (?P<dots>\.\.\.)
 | (?P<id>\$?[A-Za-z_][\w.$]*)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)
HEXF = re.compile(r'0x[KLMHR]?[0-9A-Fa-f]+')

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        if s.startswith('0x', i):
            m = HEXF.match(s, i)
            out.append(('num', m.group(0)))
            i = m.end()
            continue
        m = TOK.match(s, i)
        if not m:
            raise Unsupported('token: ' + s[i:i+40])
        i = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group(0)))
    return out

PTR = ('ptr',)
VOID = ('void',)

class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}    # name -> (type, const_init or None, is_const)
        self.funcs = {}      # name -> Function
        self.decls = set()
        self.aliases = {}
        self.lines = {}

class Function:
    def __init__(self, name, ret, params):
        self.name = name
        self.ret = ret
        self.params = params      # list of (type, regname, byval_type or None)
        self.blocks = {}          # label -> list of instr
        self.order = []
        self.entry = None
        self.dbg = {}

class P:
    """token cursor"""
    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0
    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None
    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None
    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v
    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False
    def expect(self, v):
        if self.peek() != v:
            raise Unsupported('expected %s got %s in %s' % (v, self.peek(), ' '.join(x[1] for x in self.t)[:300]))
        self.i += 1
    # ---- types
    def is_type(self):
        k, v = self.kind(), self.peek()
        if v is None:
            return False
        if k == 'id' and (re.fullmatch(r'i\d+', v) or v in ('ptr', 'void', 'float', 'double', 'half', 'x86_fp80', 'label', 'metadata', 'opaque', 'token')):
            return True
        return v in ('[', '{', '<') or k == 'lv'
    def type(self):
        v = self.next()
        if re.fullmatch(r'i\d+', v):
            t = ('i', int(v[1:]))
        elif v == 'ptr':
            t = PTR
            if self.accept('addrspace'):
                self.expect('('); self.next(); self.expect(')')
        elif v in ('void', 'float', 'double', 'label', 'metadata', 'half', 'x86_fp80', 'opaque', 'token'):
            t = (v,)
        elif v == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']')
            t = ('arr', n, e)
        elif v == '{':
            t = ('struct', tuple(self.types_until('}')), False)
        elif v == '<':
            if self.accept('{'):
                t = ('struct', tuple(self.types_until('}')), True)
                self.expect('>')
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>')
                t = ('vec', n, e)
        elif v.startswith('%'):
            t = ('named', v)
        else:
            raise Unsupported('type ' + v)
        while self.peek() == '(' and False:
            pass
        return t
    def types_until(self, close):
        r = []
        if self.accept(close):
            return r
        while True:
            r.append(self.type())
            if self.accept(','):
                continue
            self.expect(close)
            return r
    # ---- attributes on params
    def skip_attrs(self):
        byval = None
        sret = None
        while True:
            v = self.peek()
            if v in ('noundef','nonnull','zeroext','signext','noalias','nocapture','readonly','readnone','writeonly','returned','inreg','nest','immarg','noreturn','nofree','swiftself','dead_on_unwind','writable','allocptr','allocalign','range', 'inalloca', 'local_unnamed_addr', 'unnamed_addr','dso_local','fastcc','ccc','coldcc','tailcc', 'hidden', 'internal', 'linkonce_odr', 'linkonce', 'weak', 'weak_odr', 'external', 'private', 'protected', 'default', 'available_externally', 'comdat','nobuiltin','builtin', 'extern_weak', 'thread_local', 'noext', 'initializes', 'captures', 'mustprogress'):
                self.next()
                if v == 'range':
                    d = 0
                    self.expect('('); d = 1
                    while d:
                        x = self.next()
                        d += (x == '(') - (x == ')')
                continue
            if v in ('byval', 'sret', 'elementtype', 'byref', 'preallocated'):
                self.next(); self.expect('('); t = self.type(); self.expect(')')
                if v == 'byval': byval = t
                if v == 'sret': sret = t
                continue
            if v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'alignstack', 'memory', 'nofpclass', 'allocsize'):
                self.next()
                if self.accept('('):
                    d = 1
                    while d:
                        x = self.next()
                        d += (x == '(') - (x == ')')
                else:
                    self.next()
                continue
            return byval
    # ---- values
    def value(self, ty):
        k, v = self.kind(), self.peek()
        if k == 'lv':
            self.next(); return ('r', v)
        return self.const(ty)
    def const(self, ty):
        k, v = self.kind(), self.peek()
        if k == 'gv':
            self.next(); return ('g', v)
        if k == 'num':
            self.next()
            rt = self.m.resolve(ty)
            if rt[0] == 'i':
                return ('c', int(v) & ((1 << rt[1]) - 1))
            if rt[0] in ('float', 'double'):
                if v.startswith('0x'):
                    d = struct.unpack('>d', int(v[2:], 16).to_bytes(8, 'big'))[0]
                else:
                    d = float(v)
                return ('f', d)
            raise Unsupported('num const %s %s' % (ty, v))
        if k == 'str' and v.startswith('c"'):
            self.next()
            return ('bytes', unescape(v[2:-1]))
        if v == 'true':
            self.next(); return ('c', 1)
        if v == 'false':
            self.next(); return ('c', 0)
        if v == 'null':
            self.next(); return ('null',)
        if v in ('undef', 'poison'):
            self.next(); return ('undef',)
        if v == 'zeroinitializer':
            self.next(); return ('zero',)
        if v == 'none':
            self.next(); return ('undef',)
        if v == '[':
            self.next(); return ('agg', self.tvlist(']'))
        if v == '{':
            self.next(); return ('agg', self.tvlist('}'))
        if v == '<':
            self.next()
            if self.accept('{'):
                r = ('agg', self.tvlist('}')); self.expect('>')
                return r
            return ('agg', self.tvlist('>'))
        if v == 'getelementptr':
            self.next()
            while self.peek() in ('inbounds', 'nuw', 'nusw'): self.next()
            if self.peek() == 'inrange': self.skip_paren()
            self.expect('(')
            t = self.type(); self.expect(',')
            items = []
            while True:
                self.accept('inrange')
                it = self.type(); items.append((it, self.value(it)))
                if self.accept(','): continue
                self.expect(')'); break
            return ('gep', t, items)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'addrspacecast'):
            self.next(); self.expect('(')
            t = self.type(); x = self.value(t); self.expect('to'); t2 = self.type(); self.expect(')')
            return ('cast', v, t, x, t2)
        if v in ('sub', 'add', 'xor', 'mul', 'shl'):
            self.next()
            while self.peek() in ('nuw', 'nsw'): self.next()
            self.expect('('); t = self.type(); a = self.value(t); self.expect(','); t2 = self.type(); b = self.value(t2); self.expect(')')
            return ('cbin', v, t, a, b)
        if v == 'icmp':
            self.next(); p = self.next(); self.expect('('); t = self.type(); a = self.value(t); self.expect(','); t2 = self.type(); b = self.value(t2); self.expect(')')
            return ('cicmp', p, t, a, b)
        if v == 'blockaddress' or v == 'asm':
            raise Unsupported(v)
        raise Unsupported('const %s %s' % (k, v))
    def skip_paren(self):
        self.next(); self.expect('('); d = 1
        while d:
            x = self.next(); d += (x == '(') - (x == ')')
    def tvlist(self, close):
        r = []
        if self.accept(close): return r
        while True:
            t = self.type(); r.append((t, self.value(t)))
            if self.accept(','): continue
            self.expect(close)
            return r

def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out += s[i].encode('latin1'); i += 1
    return bytes(out)

def _resolve(self, t):
    while t[0] == 'named':
        t = self.types[t[1]]
    return t
Module.resolve = _resolve

def _align_of(self, t):
    t = self.resolve(t)
    k = t[0]
    if k == 'i':
        n = t[1]
        for a in (1, 2, 4, 8):
            if n <= 8 * a: return a
        return 16
    if k == 'ptr' or k == 'double': return 8
    if k == 'float': return 4
    if k == 'x86_fp80': return 16
    if k == 'arr': return self.align_of(t[2])
    if k == 'struct':
        if t[2] or not t[1]: return 1
        return max(self.align_of(x) for x in t[1])
    if k == 'vec': return self.size_of(t)
    raise Unsupported('align ' + str(t))
def _size_of(self, t):
    t = self.resolve(t)
    s = self._sz.get(t)
    if s is not None: return s
    k = t[0]
    if k == 'i':
        n = t[1]
        s = (n + 7) // 8
        a = self.align_of(t)
        s = (s + a - 1) // a * a
    elif k == 'ptr' or k == 'double': s = 8
    elif k == 'float': s = 4
    elif k == 'x86_fp80': s = 16
    elif k == 'arr': s = t[1] * self.size_of(t[2])
    elif k == 'vec': s = t[1] * self.size_of(t[2])
    elif k == 'struct':
        o = 0
        for x in t[1]:
            if not t[2]:
                a = self.align_of(x); o = (o + a - 1) // a * a
            o += self.size_of(x)
        a = self.align_of(t)
        s = (o + a - 1) // a * a
    else:
        raise Unsupported('sizeof ' + str(t))
    self._sz[t] = s
    return s
def _field_off(self, t, i):
    o = 0
    for j, x in enumerate(t[1]):
        if not t[2]:
            a = self.align_of(x); o = (o + a - 1) // a * a
        if j == i: return o
        o += self.size_of(x)
    raise Unsupported('field')
Module.align_of = _align_of
Module.size_of = _size_of
Module.field_off = _field_off

BIN = {'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'}
CASTS = {'zext','sext','trunc','ptrtoint','inttoptr','bitcast','fptoui','fptosi','uitofp','sitofp','fptrunc','fpext','addrspacecast'}
FLAGS = {'nuw','nsw','exact','disjoint','nnan','ninf','nsz','arcp','contract','afn','reassoc','fast','nneg'}

def parse_instr(p):
    """returns tuple"""
    dest = None
    if p.kind() == 'lv' and p.peek(1) == '=':
        dest = p.next(); p.next()
    op = p.next()
    if op in BIN:
        fl = set()
        while p.peek() in FLAGS: fl.add(p.next())
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return ('bin', dest, op, t, a, b, fl)
    if op == 'fneg':
        while p.peek() in FLAGS: p.next()
        t = p.type(); a = p.value(t)
        return ('fneg', dest, t, a)
    if op in CASTS:
        while p.peek() in FLAGS: p.next()
        t = p.type(); a = p.value(t); p.expect('to'); t2 = p.type()
        return ('cast', dest, op, t, a, t2)
    if op in ('icmp', 'fcmp'):
        while p.peek() in FLAGS: p.next()
        pred = p.next(); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return (op, dest, pred, t, a, b)
    if op == 'load':
        while p.peek() in ('volatile', 'atomic'): p.next()
        t = p.type(); p.expect(','); pt = p.type(); a = p.value(pt)
        return ('load', dest, t, a)
    if op == 'store':
        while p.peek() in ('volatile', 'atomic'): p.next()
        t = p.type(); v = p.value(t); p.expect(','); pt = p.type(); a = p.value(pt)
        return ('store', None, t, v, a)
    if op == 'alloca':
        t = p.type()
        n = None
        if p.peek() == ',' and p.peek(1) != 'align':
            p.next(); nt = p.type(); n = p.value(nt)
        return ('alloca', dest, t, n)
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
        t = p.type(); p.expect(',')
        items = []
        while True:
            it = p.type(); items.append((it, p.value(it)))
            if p.peek() == ',' and p.kind(1) != 'md':
                p.next(); continue
            break
        return ('gep', dest, t, items)
    if op == 'br':
        if p.accept('label'):
            return ('jmp', None, p.next())
        t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); b = p.next()
        return ('br', None, c, a, b)
    if op == 'switch':
        t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); d = p.next(); p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type(); c = p.const(ct); p.expect(','); p.expect('label'); cases.append((c[1], p.next()))
        return ('switch', None, t, v, d, cases)
    if op == 'ret':
        t = p.type()
        if t == VOID: return ('ret', None, t, None)
        return ('ret', None, t, p.value(t))
    if op == 'unreachable':
        return ('unreachable', None)
    if op == 'phi':
        while p.peek() in FLAGS: p.next()
        t = p.type(); inc = []
        while True:
            p.expect('['); v = p.value(t); p.expect(','); l = p.next(); p.expect(']')
            inc.append((v, l))
            if p.peek() == ',' and p.peek(1) == '[':
                p.next(); continue
            break
        return ('phi', dest, t, inc)
    if op == 'select':
        while p.peek() in FLAGS: p.next()
        ct = p.type(); c = p.value(ct); p.expect(','); t = p.type(); a = p.value(t); p.expect(','); t2 = p.type(); b = p.value(t2)
        if ct != ('i', 1): raise Unsupported('vector select')
        return ('select', dest, c, t, a, b)
    if op in ('tail', 'musttail', 'notail', 'call'):
        if op != 'call': p.expect('call')
        while p.peek() in FLAGS: p.next()
        p.skip_attrs()
        rt = p.type()
        if p.peek() == '(':  # function type
            d = 0
            while True:
                x = p.next(); d += (x == '(') - (x == ')')
                if d == 0: break
        if p.peek() == 'asm': raise Unsupported('asm')
        f = p.value(PTR)
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                at = p.type()
                bv = p.skip_attrs()
                if at == ('metadata',):
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        x = p.next(); d += (x in '({[') - (x in ')}]')
                    args.append((at, None, None))
                else:
                    args.append((at, p.value(at), bv))
                if p.accept(','): continue
                p.expect(')'); break
        return ('call', dest, rt, f, args)
    if op == 'extractvalue':
        t = p.type(); a = p.value(t); idx = []
        while p.peek() == ',' and p.kind(1) == 'num':
            p.next(); idx.append(int(p.next()))
        return ('extractvalue', dest, t, a, idx)
    if op == 'insertvalue':
        t = p.type(); a = p.value(t); p.expect(','); t2 = p.type(); b = p.value(t2); idx = []
        while p.peek() == ',' and p.kind(1) == 'num':
            p.next(); idx.append(int(p.next()))
        return ('insertvalue', dest, t, a, t2, b, idx)
    if op == 'freeze':
        t = p.type(); a = p.value(t)
        return ('freeze', dest, t, a)
    if op == 'fence': return ('nop', None)
    if op in ('extractelement', 'insertelement', 'shufflevector', 'cmpxchg', 'atomicrmw', 'invoke', 'landingpad', 'resume', 'va_arg', 'indirectbr'):
        return ('unsupported', dest, op)
    raise Unsupported('op ' + op)

def parse(text):
    m = Module()
    m._sz = {}
    lines = text.split('\n')
    i = 0
    gl = []
    while i < len(lines):
        l = lines[i]
        if l.startswith('%') and ' = type ' in l:
            name, rest = l.split(' = type ', 1)
            if rest.strip().startswith('opaque'):
                m.types[name] = ('struct', (), False)
            else:
                m.types[name] = P(m, tokenize(rest)).type()
        elif l.startswith('@'):
            gl.append(l)
        elif l.startswith('!') and '!DILocation(' in l:
            mm = re.match(r'!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', l)
            if mm: m.lines[mm.group(1)] = int(mm.group(2))
        elif l.startswith('declare '):
            mm = re.search(r'@("[^"]*"|[-\w$.]+)\(', l)
            m.decls.add('@' + mm.group(1))
        elif l.startswith('define '):
            j = i + 1
            while lines[j] != '}': j += 1
            parse_func(m, l, lines[i+1:j])
            i = j
        i += 1
    for l in gl:
        if l.startswith('@llvm.'): continue
        name, rest = l.split(' = ', 1)
        p = P(m, tokenize(rest))
        p.skip_attrs()
        if p.peek() == 'alias':
            p.next(); p.type()
            if p.peek() == '(':
                p.i -= 1; p.skip_paren()
            p.expect(','); t = p.type(); m.aliases[name] = p.value(t)
            continue
        if p.peek() == 'thread_local':
            p.next()
            if p.peek() == '(': 
                p.i -= 1; p.skip_paren()
        p.skip_attrs()
        if p.peek() == 'externally_initialized': p.next()
        kind = p.next()
        ext = False
        if kind == 'external':
            ext = True; kind = p.next()
        if kind not in ('global', 'constant'):
            raise Unsupported('global: ' + l[:200])
        t = p.type()
        init = None
        if p.peek() is not None and p.peek() != ',' and not l.split(' = ',1)[1].startswith('external'):
            init = p.const(t)
        m.globals[name] = (t, init, kind == 'constant')
    return m

def parse_func(m, head, body):
    mm = re.match(r'define (.*?)@("[^"]*"|[-\w$.]+)\(', head)
    name = '@' + mm.group(2)
    pre = P(m, tokenize(mm.group(1)))
    pre.skip_attrs()
    ret = pre.type()
    rest = head[mm.end()-1:]
    p = P(m, tokenize(rest.rsplit('{', 1)[0]))
    p.expect('(')
    params = []
    if not p.accept(')'):
        while True:
            if p.accept('...'):
                p.expect(')'); break
            t = p.type(); bv = p.skip_attrs()
            r = p.next() if p.kind() == 'lv' else '%' + str(len(params))
            params.append((t, r, bv))
            if p.accept(','): continue
            p.expect(')'); break
    f = Function(name, ret, params)
    nparams = len(params)
    cur = None
    buf = None
    j = 0
    n = len(body)
    def start(lbl):
        f.blocks[lbl] = []
        f.order.append(lbl)
        return lbl
    while j < n:
        l = body[j]
        s = l.strip()
        if not s or s.startswith(';'):
            j += 1; continue
        lm = re.match(r'^("[^"]*"|[-\w$.]+):', l)
        if lm:
            cur = start('%' + lm.group(1))
            j += 1; continue
        if cur is None:
            cur = start('%' + str(nparams))
        if s.startswith('switch') and ']' not in s:
            while True:
                j += 1
                s += ' ' + body[j].strip()
                if body[j].strip().startswith(']'): break
        try:
            ins = parse_instr(P(m, tokenize(s)))
        except Unsupported as e:
            ins = ('unsupported', None, str(e) + ' :: ' + s[:160])
        except Exception as e:
            ins = ('unsupported', None, 'parse %r :: %s' % (e, s[:160]))
        dm = re.search(r'!dbg !(\d+)', s)
        f.blocks[cur].append(ins)
        f.dbg.setdefault(cur, []).append(dm.group(1) if dm else None)
        j += 1
    f.entry = f.order[0]
    if WIDEN: widen(f)
    m.funcs[name] = f

WIDEN = True
def widen(f):
    """count in 64 bits: a 16/32 bit phi that is only stepped by constants becomes the truncation of a 64 bit phi (exact:
    truncation commutes with addition; the narrow additions stay, with their overflow obligations)"""
    defs = {}
    for b, blk in f.blocks.items():
        for k, ins in enumerate(blk):
            if ins[1] is not None: defs[ins[1]] = (b, ins)
    for b in f.order:
        for ins in list(f.blocks[b]):
            if ins[0] != 'phi': break
            t = ins[2]
            if t not in (('i', 16), ('i', 32)): continue
            r = ins[1]
            steps, ok = [], True
            for v, l in ins[3]:
                if v[0] == 'c': continue
                d = defs.get(v[1]) if v[0] == 'r' else None
                if d and d[1][0] == 'bin' and d[1][2] == 'add' and d[1][4] == ('r', r) and d[1][5][0] == 'c': steps.append((v[1], d)); continue
                if d and d[1][0] == 'cast' and d[1][2] == 'trunc' and d[1][3] == ('i', 64): continue
                ok = False
            if not ok or not steps: continue
            w = t[1]
            sx = lambda c: (c - (1 << w) if c >> (w - 1) else c) & ((1 << 64) - 1)
            inc = []
            for v, l in ins[3]:
                if v[0] == 'c': inc.append((('c', v[1]), l))
                elif any(s[0] == v[1] for s in steps): inc.append((('r', v[1] + '.wide'), l))
                else: inc.append((defs[v[1]][1][4], l))
            i = f.blocks[b].index(ins)
            f.blocks[b][i] = ('phi', r + '.wide', ('i', 64), inc)
            k = i
            while k < len(f.blocks[b]) and f.blocks[b][k][0] == 'phi': k += 1
            f.blocks[b].insert(k, ('cast', r, 'trunc', ('i', 64), ('r', r + '.wide'), t)); f.dbg[b].insert(k, f.dbg[b][i])
            for s in dict.fromkeys(x[0] for x in steps):
                sb, si = defs[s]
                k = f.blocks[sb].index(si)
                f.blocks[sb].insert(k, ('bin', s + '.wide', 'add', ('i', 64), ('r', r + '.wide'), ('c', sx(si[5][1])), set())); f.dbg[sb].insert(k, f.dbg[sb][k])

if __name__ == '__main__':
    import sys, time
    t0 = time.time()
    m = parse(open(sys.argv[1]).read())
    print(len(m.funcs), len(m.globals), time.time() - t0)
    for f in m.funcs.values():
        for b in f.blocks.values():
            for ins in b:
                if ins[0] == 'unsupported': print(f.name, ins)

"""Parser for textual LLVM IR (clang 18), just enough for the verification condition generator."""
import re, sys
from fractions import Fraction
import struct as _struct

TOK = re.compile(r'''\s+|(?P<str>c?"(?:[^"\\]|\\.)*")|(?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))|(?P<glb>@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))|(?P<md>![\w.]*)|(?P<attr>\#\d+)|(?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)|(?P<word>[A-Za-z_$.][\w$.]*)|(?P<dots>\.\.\.)|(?P<p>[][(){}<>,=*:|])''')

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == ';': break
        m = TOK.match(s, i)
        if not m: raise SyntaxError('tokenize: ' + s[i:i+60] + ' in ' + s)
        k = m.lastgroup
        if k: out.append((k, m.group(k)))
        i = m.end()
    return out

class T:
    """type"""
    __slots__ = ('k', 'a', 'b', 'c')
    def __init__(s, k, a=None, b=None, c=None): s.k, s.a, s.b, s.c = k, a, b, c
    def __repr__(s): return f'T({s.k},{s.a},{s.b})'

I1 = T('int', 1); I8 = T('int', 8); I32 = T('int', 32); I64 = T('int', 64); PTR = T('ptr'); F64 = T('double'); VOID = T('void')

class Toks:
    def __init__(s, t): s.t, s.i = t, 0
    def peek(s, o=0): return s.t[s.i+o] if s.i+o < len(s.t) else (None, None)
    def next(s): x = s.t[s.i]; s.i += 1; return x
    def eat(s, v):
        if s.i < len(s.t) and s.t[s.i][1] == v: s.i += 1; return True
        return False
    def expect(s, v):
        if not s.eat(v): raise SyntaxError(f'expected {v} got {s.peek()} in {s.t}')
    def done(s): return s.i >= len(s.t)

def unq(n):
    # strip sigil and quotes
    n = n[1:]
    if n.startswith('"'): n = n[1:-1]
    return n

def parse_type(tk):
    k, v = tk.next()
    if k == 'word':
        if v[0] == 'i' and v[1:].isdigit(): t = T('int', int(v[1:]))
        elif v == 'ptr':
            t = PTR
            if tk.peek()[1] == 'addrspace': tk.next(); tk.expect('('); tk.next(); tk.expect(')')
        elif v in ('double', 'float', 'x86_fp80', 'half', 'fp128'): t = T('double' if v == 'double' else v)
        elif v == 'void': t = VOID
        elif v in ('metadata', 'label', 'token', 'opaque'): t = T(v)
        else: raise SyntaxError('type ' + v)
    elif k == 'loc': t = T('named', unq(v))
    elif v == '{':
        el = []
        if not tk.eat('}'):
            while True:
                el.append(parse_type(tk))
                if tk.eat('}'): break
                tk.expect(',')
        t = T('struct', el, False)
    elif v == '<':
        if tk.peek()[1] == '{':
            tk.next(); el = []
            if not tk.eat('}'):
                while True:
                    el.append(parse_type(tk))
                    if tk.eat('}'): break
                    tk.expect(',')
            tk.expect('>'); t = T('struct', el, True)
        else:
            n = int(tk.next()[1]); tk.expect('x'); e = parse_type(tk); tk.expect('>')
            t = T('vec', n, e)
    elif v == '[':
        n = int(tk.next()[1]); tk.expect('x'); e = parse_type(tk); tk.expect(']')
        t = T('array', n, e)
    else: raise SyntaxError('type tok ' + str((k, v)))
    while True:
        if tk.peek()[1] == '(':   # function type
            depth = 0
            while True:
                x = tk.next()[1]
                if x == '(': depth += 1
                if x == ')':
                    depth -= 1
                    if depth == 0: break
            t = T('func', t)
        else: break
    return t

ATTRS = {'noundef','nonnull','nocapture','readonly','writeonly','zeroext','signext','noalias','returned','inreg','immarg','nofree','nest','readnone','swiftself','noreturn','allocptr','writable','dead_on_unwind'}
def skip_attrs(tk):
    """skip parameter attributes; return dict of ones we care about"""
    got = {}
    while True:
        k, v = tk.peek()
        if k == 'word' and v in ATTRS: tk.next()
        elif k == 'word' and v in ('dereferenceable', 'dereferenceable_or_null'):
            tk.next(); tk.expect('('); tk.next(); tk.expect(')')
        elif k == 'word' and v in ('align', 'allocalign'):
            tk.next()
            if tk.peek()[1] == '(': tk.next(); tk.next(); tk.expect(')')
            elif v == 'align': tk.next()
        elif k == 'word' and v in ('sret', 'byval', 'byref', 'elementtype', 'range', 'memory'):
            tk.next(); tk.expect('(')
            if v in ('sret', 'byval', 'byref', 'elementtype'): got[v] = parse_type(tk); tk.expect(')')
            else:
                d = 1
                while d:
                    x = tk.next()[1]
                    d += (x == '(') - (x == ')')
        else: return got

def fp(v):
    if v.startswith('0x'):
        h = v[2:]
        if h[0] in 'KLMHR': raise SyntaxError('fp80')
        d = _struct.unpack('>d', bytes.fromhex(h.rjust(16, '0')))[0]
        return d
    return float(v)

class V:
    """operand: k in loc(name) glb(name) int(n) fp(float) null undef zero agg(list) cexpr(op,args) str"""
    __slots__ = ('k', 'v', 't')
    def __init__(s, k, v=None, t=None): s.k, s.v, s.t = k, v, t
    def __repr__(s): return f'V({s.k},{s.v})'

def parse_value(tk, ty):
    k, v = tk.next()
    if k == 'loc': return V('loc', unq(v), ty)
    if k == 'glb': return V('glb', unq(v), ty)
    if k == 'num':
        if ty.k in ('double', 'float', 'x86_fp80'):
            try: return V('fp', fp(v), ty)
            except SyntaxError: return V('undef', None, ty)
        return V('int', int(v), ty)
    if k == 'word':
        if v == 'true': return V('int', 1, ty)
        if v == 'false': return V('int', 0, ty)
        if v == 'null': return V('null', None, ty)
        if v in ('undef', 'poison'): return V('undef', None, ty)
        if v == 'zeroinitializer': return V('zero', None, ty)
        if v == 'none': return V('undef', None, ty)
        if v == 'getelementptr':
            tk.eat('inbounds'); tk.expect('('); bt = parse_type(tk); tk.expect(',')
            ops = []
            while True:
                tk.eat('inrange')
                t = parse_type(tk); ops.append(parse_value(tk, t))
                if tk.eat(')'): break
                tk.expect(',')
            return V('cexpr', ('gep', bt, ops), ty)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            tk.expect('('); t = parse_type(tk); x = parse_value(tk, t); tk.expect('to'); t2 = parse_type(tk); tk.expect(')')
            return V('cexpr', (v, x, t2), ty)
        if v in ('add', 'sub', 'xor', 'mul', 'icmp', 'select'):
            d = 0
            while True:
                x = tk.next()[1]; d += (x == '(') - (x == ')')
                if d == 0: break
            return V('undef', None, ty)
        if v == 'dso_local_equivalent' or v == 'no_cfi': return parse_value(tk, ty)
        raise SyntaxError('value word ' + v)
    if k == 'str': return V('str', v, ty)
    if v == '{' or v == '[':
        close = '}' if v == '{' else ']'
        el = []
        if not tk.eat(close):
            while True:
                t = parse_type(tk); el.append(parse_value(tk, t))
                if tk.eat(close): break
                tk.expect(',')
        return V('agg', el, ty)
    if v == '<':
        el = []
        if tk.peek()[1] == '{':
            tk.next()
            while True:
                t = parse_type(tk); el.append(parse_value(tk, t))
                if tk.eat('}'): break
                tk.expect(',')
            tk.expect('>')
        else:
            while True:
                t = parse_type(tk); el.append(parse_value(tk, t))
                if tk.eat('>'): break
                tk.expect(',')
        return V('agg', el, ty)
    if k == 'md': return V('undef', None, ty)
    raise SyntaxError('value ' + str((k, v)))

class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'dbg', 'text')
    def __init__(s, op, res=None, ty=None, a=None, x=None): s.op, s.res, s.ty, s.a, s.x, s.dbg, s.text = op, res, ty, a, x, None, None
    def __repr__(s): return f'{s.res}={s.op} {s.a} {s.x}'

class Block:
    def __init__(s, name): s.name, s.ins = name, []
    def succs(s):
        t = s.ins[-1]
        if t.op == 'br': return [t.x[0]] if t.a is None else list(t.x)
        if t.op == 'switch': return [t.x[0]] + [l for _, l in t.x[1]]
        if t.op == 'invoke': return [t.x['normal'], t.x['unwind']]
        return []

class Func:
    def __init__(s, name): s.name, s.params, s.blocks, s.order, s.rt, s.lines, s.dbg = name, [], None, [], None, [], None

class Module:
    def __init__(s): s.types, s.globals, s.funcs, s.md = {}, {}, {}, {}; s._lay = {}; s.demangled = {}
    def resolve(s, t):
        while t.k == 'named':
            t2 = s.types.get(t.a)
            if t2 is None: raise KeyError('type ' + t.a)
            t = t2
        return t
    def size_align(s, t):
        key = None
        if t.k == 'named':
            r = s._lay.get(t.a)
            if r: return r
            r = s.size_align(s.resolve(t)); s._lay[t.a] = r; return r
        if t.k == 'int':
            n = (t.a + 7) // 8; p = 1
            while p < n: p *= 2
            return (p, min(p, 16))
        if t.k in ('ptr', 'double'): return (8, 8)
        if t.k == 'float': return (4, 4)
        if t.k in ('x86_fp80', 'fp128'): return (16, 16)
        if t.k == 'array':
            sz, al = s.size_align(t.b); return (sz * t.a, al)
        if t.k == 'vec':
            sz, al = s.size_align(t.b); return (sz * t.a, sz * t.a)
        if t.k == 'struct':
            o, A = 0, 1
            for e in t.a:
                sz, al = s.size_align(e)
                if t.b: al = 1
                o = (o + al - 1) // al * al + sz; A = max(A, al)
            return ((o + A - 1) // A * A, A)
        raise KeyError('size of ' + repr(t))
    def sizeof(s, t): return s.size_align(t)[0]
    def leaves(s, t, o=0):
        """scalar leaves of a type: [(offset, type)]"""
        t = s.resolve(t)
        if t.k == 'array':
            sz = s.sizeof(t.b); r = []
            for i in range(min(t.a, 64)): r += s.leaves(t.b, o + i * sz)
            return r
        if t.k == 'struct':
            r = []
            for i in range(len(t.a)):
                fo, ft = s.field_off(t, i); r += s.leaves(ft, o + fo)
            return r
        return [(o, t)]
    def field_off(s, t, i):
        t = s.resolve(t); o = 0
        for j, e in enumerate(t.a):
            sz, al = s.size_align(e)
            if t.b: al = 1
            o = (o + al - 1) // al * al
            if j == i: return o, e
            o += sz
        raise IndexError

def strip_md(tk):
    """cut trailing metadata attachments ', !dbg !N' ; returns dbg id"""
    dbg = None
    t = tk.t
    for i in range(len(t) - 1):
        if t[i][0] == 'md' and i > 0 and t[i-1][1] == ',':
            if t[i][1] == '!dbg': dbg = t[i+1][1]
    cut = None
    depth = 0
    for i, (k, v) in enumerate(t):
        if v in '([{' : depth += 1
        elif v in ')]}': depth -= 1
        if depth == 0 and k == 'md' and i > 0 and t[i-1][1] == ',' and v[1:2].isalpha():
            cut = i - 1; break
    if cut is not None:
        # find actual !dbg value
        for i in range(cut, len(t)-1):
            if t[i] == ('md', '!dbg'): dbg = t[i+1][1]
        del t[cut:]
    return dbg

BIN = {'add','sub','mul','sdiv','udiv','srem','urem','and','or','xor','shl','lshr','ashr','fadd','fsub','fmul','fdiv','frem'}
CAST = {'trunc','zext','sext','fptosi','fptoui','sitofp','uitofp','fptrunc','fpext','ptrtoint','inttoptr','bitcast'}
FLAGS = {'nsw','nuw','exact','inbounds','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','disjoint','nneg'}

def parse_args(tk):
    tk.expect('('); args = []
    if tk.eat(')'): return args
    while True:
        t = parse_type(tk)
        at = skip_attrs(tk)
        v = parse_value(tk, t)
        if at.get('byval'): v = V('byval', (v, at['byval']), t)
        args.append(v)
        if tk.eat(')'): break
        tk.expect(',')
    return args

def skip_fn_attrs(tk):
    while True:
        k, v = tk.peek()
        if k == 'attr': tk.next()
        elif k == 'word' and v in ('nounwind','noreturn','cold','builtin','nobuiltin','memory','allocsize','willreturn','uwtable','mustprogress'):
            tk.next()
            if tk.peek()[1] == '(':
                while tk.next()[1] != ')': pass
        else: break

def parse_ins(line):
    tk = Toks(tokenize(line))
    dbg = strip_md(tk)
    res = None
    if tk.peek()[0] == 'loc' and tk.peek(1)[1] == '=':
        res = unq(tk.next()[1]); tk.next()
    k, op = tk.next()
    while op in ('tail', 'musttail', 'notail'): k, op = tk.next()
    ins = Ins(op, res); ins.dbg = dbg
    if op in BIN:
        fl = set()
        while tk.peek()[1] in FLAGS: fl.add(tk.next()[1])
        ins.ty = parse_type(tk); a = parse_value(tk, ins.ty); tk.expect(','); b = parse_value(tk, ins.ty)
        ins.a = [a, b]; ins.x = fl
    elif op == 'fneg':
        while tk.peek()[1] in FLAGS: tk.next()
        ins.ty = parse_type(tk); ins.a = [parse_value(tk, ins.ty)]
    elif op in CAST:
        while tk.peek()[1] in FLAGS: tk.next()
        t = parse_type(tk); ins.a = [parse_value(tk, t)]; tk.expect('to'); ins.ty = parse_type(tk)
    elif op == 'freeze':
        ins.ty = parse_type(tk); ins.a = [parse_value(tk, ins.ty)]
    elif op in ('icmp', 'fcmp'):
        while tk.peek()[1] in FLAGS: tk.next()
        ins.x = tk.next()[1]; ins.ty = parse_type(tk); a = parse_value(tk, ins.ty); tk.expect(','); ins.a = [a, parse_value(tk, ins.ty)]
    elif op == 'alloca':
        tk.eat('inalloca'); ins.ty = parse_type(tk); ins.a = []
        if tk.eat(','):
            if tk.peek()[1] != 'align':
                t = parse_type(tk); ins.a = [parse_value(tk, t)]
    elif op == 'load':
        tk.eat('atomic'); tk.eat('volatile'); ins.ty = parse_type(tk); tk.expect(','); t = parse_type(tk); ins.a = [parse_value(tk, t)]
    elif op == 'store':
        tk.eat('atomic'); tk.eat('volatile'); t = parse_type(tk); a = parse_value(tk, t); tk.expect(','); t2 = parse_type(tk); ins.a = [a, parse_value(tk, t2)]; ins.ty = t
    elif op == 'getelementptr':
        while tk.peek()[1] in FLAGS: tk.next()
        ins.ty = parse_type(tk); ins.a = []
        while tk.eat(','):
            tk.eat('inrange'); t = parse_type(tk); ins.a.append(parse_value(tk, t))
    elif op == 'phi':
        while tk.peek()[1] in FLAGS: tk.next()
        ins.ty = parse_type(tk); ins.x = []
        while True:
            tk.expect('['); v = parse_value(tk, ins.ty); tk.expect(','); b = unq(tk.next()[1]); tk.expect(']'); ins.x.append((v, b))
            if not tk.eat(','): break
    elif op == 'select':
        while tk.peek()[1] in FLAGS: tk.next()
        t = parse_type(tk); c = parse_value(tk, t); tk.expect(','); t = parse_type(tk); a = parse_value(tk, t); tk.expect(','); t2 = parse_type(tk)
        ins.ty = t; ins.a = [c, a, parse_value(tk, t2)]
    elif op == 'br':
        if tk.eat('label'): ins.a = None; ins.x = (unq(tk.next()[1]),)
        else:
            t = parse_type(tk); ins.a = [parse_value(tk, t)]; tk.expect(','); tk.expect('label'); l1 = unq(tk.next()[1]); tk.expect(','); tk.expect('label'); ins.x = (l1, unq(tk.next()[1]))
    elif op == 'switch':
        t = parse_type(tk); ins.a = [parse_value(tk, t)]; tk.expect(','); tk.expect('label'); d = unq(tk.next()[1]); tk.expect('['); cs = []
        while not tk.eat(']'):
            t = parse_type(tk); v = int(tk.next()[1]); tk.expect(','); tk.expect('label'); cs.append((v, unq(tk.next()[1])))
        ins.x = (d, cs)
    elif op == 'ret':
        ins.ty = parse_type(tk)
        if ins.ty.k != 'void': ins.a = [parse_value(tk, ins.ty)]
    elif op in ('call', 'invoke'):
        while tk.peek()[1] in FLAGS or tk.peek()[1] in ('fastcc', 'coldcc'): tk.next()
        skip_attrs(tk)
        while tk.peek()[1] in FLAGS: tk.next()
        ins.ty = parse_type(tk)
        if ins.ty.k == 'func': ins.ty = ins.ty.a
        k, v = tk.peek()
        callee = parse_value(tk, PTR)
        ins.a = parse_args(tk); skip_fn_attrs(tk)
        ins.x = {'callee': callee}
        if op == 'invoke':
            tk.expect('to'); tk.expect('label'); ins.x['normal'] = unq(tk.next()[1]); tk.expect('unwind'); tk.expect('label'); ins.x['unwind'] = unq(tk.next()[1])
    elif op in ('extractvalue',):
        t = parse_type(tk); ins.a = [parse_value(tk, t)]; ins.ty = t; ins.x = []
        while tk.eat(','): ins.x.append(int(tk.next()[1]))
    elif op == 'insertvalue':
        t = parse_type(tk); a = parse_value(tk, t); tk.expect(','); t2 = parse_type(tk); b = parse_value(tk, t2); ins.a = [a, b]; ins.ty = t; ins.x = []
        while tk.eat(','): ins.x.append(int(tk.next()[1]))
    elif op == 'landingpad':
        ins.ty = parse_type(tk); ins.x = []
        while not tk.done():
            w = tk.next()[1]
            if w == 'cleanup': ins.x.append(('cleanup', None))
            elif w == 'catch': t = parse_type(tk); ins.x.append(('catch', parse_value(tk, t)))
            elif w == 'filter': t = parse_type(tk); ins.x.append(('filter', parse_value(tk, t)))
    elif op == 'resume':
        t = parse_type(tk); ins.a = [parse_value(tk, t)]
    elif op == 'unreachable': pass
    else:
        ins.op = 'unsupported'; ins.text = line
    return ins

def parse_define(line):
    # find @name(
    m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', line)
    name = unq('@' + m.group(1))
    f = Func(name)
    pre = line[:m.start()].replace('define', '', 1)
    tk = Toks(tokenize(line[m.end()-1:]))
    tk.expect('(')
    n = 0
    if not tk.eat(')'):
        while True:
            if tk.peek()[1] == '...': tk.next(); tk.expect(')'); break
            t = parse_type(tk); at = skip_attrs(tk)
            nm = str(n)
            if tk.peek()[0] == 'loc': nm = unq(tk.next()[1])
            f.params.append((nm, t, at)); n += 1
            if tk.eat(')'): break
            tk.expect(',')
    f.hidden_unnamed = n
    m = re.search(r'!dbg (!\d+)', line)
    f.dbg = m.group(1) if m else None
    return f

def parse_module(path):
    M = Module()
    cur = None
    with open(path) as fh: lines = fh.read().split('\n')
    i = 0
    N = len(lines)
    while i < N:
        ln = lines[i]; i += 1
        if not ln: continue
        c = ln[0]
        if cur is not None:
            if ln == '}': cur = None; continue
            cur.lines.append(ln); continue
        if c == '%':
            m = re.match(r'(%(?:"(?:[^"\\]|\\.)*"|[-\w.$]+)) = type (.*)$', ln)
            if m.group(2).strip() == 'opaque': M.types[unq(m.group(1))] = T('opaque')
            else: M.types[unq(m.group(1))] = parse_type(Toks(tokenize(m.group(2))))
        elif c == '@':
            m = re.match(r'(@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+)) = (.*)$', ln)
            M.globals[unq(m.group(1))] = m.group(2)
        elif ln.startswith('define'):
            cur = parse_define(ln); M.funcs[cur.name] = cur
        elif ln.startswith('declare'):
            m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', ln)
            nm = unq('@' + m.group(1))
            M.funcs.setdefault(nm, None)
        elif c == '!':
            m = re.match(r'(!\d+) = (.*)$', ln)
            if m: M.md[m.group(1)] = m.group(2)
    return M

def materialize(f):
    """parse the body of a function lazily"""
    if f.blocks is not None: return
    f.blocks = {}
    n = len([1 for p in f.params if p[0].isdigit()])
    first = None
    cur = None
    lines = f.lines
    i = 0
    buf = []
    while i < len(lines):
        ln = lines[i]; i += 1
        s = ln.strip()
        if not s: continue
        m = re.match(r'^("(?:[^"\\]|\\.)*"|[-\w.$]+):', ln)
        if m:
            nm = m.group(1)
            if nm.startswith('"'): nm = nm[1:-1]
            cur = Block(nm); f.blocks[nm] = cur; f.order.append(nm); continue
        if cur is None:
            nm = str(n); cur = Block(nm); f.blocks[nm] = cur; f.order.append(nm)
        # join multi-line instrs: switch [...], invoke ... to, landingpad clauses
        if s.startswith('switch') or (' switch ' in s and '=' not in s):
            while ']' not in s: s += ' ' + lines[i].strip(); i += 1
        elif ' invoke ' in ' ' + s:
            s += ' ' + lines[i].strip(); i += 1
        elif 'landingpad' in s.split('!')[0]:
            extra = ''
            dbgpart = ''
            while i < len(lines) and re.match(r'\s+(cleanup|catch|filter)\b', lines[i]):
                extra += ' ' + lines[i].strip(); i += 1
            # metadata may be at the end of the last clause
            s = s + extra
        cur.ins.append(parse_ins(s))
    f.lines = None
    # preds, dominators, loops
    analyze(f)

class Loop:
    def __init__(s, header, body): s.header, s.body = header, body

def analyze(f):
    entry = f.order[0]
    f.entry = entry
    succ = {b: f.blocks[b].succs() for b in f.order}
    # reverse postorder
    seen, post = set(), []
    st = [(entry, iter(succ[entry]))]; seen.add(entry)
    while st:
        b, it = st[-1]
        adv = False
        for n in it:
            if n not in seen: seen.add(n); st.append((n, iter(succ[n]))); adv = True; break
        if not adv: post.append(b); st.pop()
    rpo = post[::-1]; num = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for n in succ[b]: preds[n].append(b)
    idom = {entry: entry}
    changed = True
    def inter(a, b):
        while a != b:
            while num[a] > num[b]: a = idom[a]
            while num[b] > num[a]: b = idom[b]
        return a
    while changed:
        changed = False
        for b in rpo[1:]:
            ps = [p for p in preds[b] if p in idom]
            d = ps[0]
            for p in ps[1:]: d = inter(p, d)
            if idom.get(b) != d: idom[b] = d; changed = True
    def dom(a, b):  # a dominates b
        while True:
            if a == b: return True
            if b == entry: return False
            b = idom[b]
    loops = {}
    f.irreducible = False
    for b in rpo:
        for n in succ[b]:
            if num[n] <= num[b]:
                if not dom(n, b): f.irreducible = True; continue
                body = loops.setdefault(n, {n})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x); st.extend(preds[x])
    f.loops = {h: Loop(h, body) for h, body in loops.items()}
    f.preds = preds; f.num = num

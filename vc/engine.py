"""Verification-condition generator: symbolic execution of LLVM IR with loop invariants (candidate inference +
inductiveness checking), contracts on external functions, and an instantiation-based treatment of quantifiers and sums.
Doubles are modelled as mathematical reals, integers as mathematical integers in canonical signed form."""
import sys, os, re, subprocess, time, itertools, math
from fractions import Fraction
import z3
import ir
from ir import V, T

sys.setrecursionlimit(20000)
Q = Fraction

class Unsupported(Exception): pass
class NeedInvariant(Exception): pass
class Budget(Exception): pass

# ---------------------------------------------------------------- values
def isnum(x): return isinstance(x, (int, Fraction)) and not isinstance(x, bool)
def isbool(x): return isinstance(x, bool)

def R(x):
    if isinstance(x, bool): raise TypeError
    if isinstance(x, int): return z3.RealVal(x)
    if isinstance(x, Fraction): return z3.RealVal(f'{x.numerator}/{x.denominator}')
    if z3.is_int(x): return z3.ToReal(x)
    return x
def I(x):
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, Fraction): raise TypeError('fraction as int')
    return x
def B(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    return x
def both(a, b): return isnum(a) and isnum(b)
def same(a, b):
    if isnum(a) or isnum(b) or isbool(a) or isbool(b): return (isnum(a) and isnum(b) and a == b) or (isbool(a) and isbool(b) and a == b)
    if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
    return a is b

def simp(e):
    if not z3.is_expr(e): return e
    e = z3.simplify(e)
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    if z3.is_int_value(e): return e.as_long()
    if z3.is_rational_value(e) and e.sort() == z3.RealSort(): return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return e

def simp_int(e):
    if not z3.is_expr(e): return e
    if z3.is_int_value(e): return e.as_long()
    s = z3.simplify(e)
    if z3.is_int_value(s): return s.as_long()
    return s

def iadd(a, b):
    if both(a, b): return a + b
    if isnum(a) and a == 0: return b
    if isnum(b) and b == 0: return a
    return simp_int(I(a) + I(b))
def isub(a, b):
    if both(a, b): return a - b
    if isnum(b) and b == 0: return a
    return simp_int(I(a) - I(b))
def imul(a, b):
    if both(a, b): return a * b
    if isnum(a) and a == 1: return b
    if isnum(b) and b == 1: return a
    if (isnum(a) and a == 0) or (isnum(b) and b == 0): return 0
    return simp_int(I(a) * I(b))
def radd(a, b):
    if both(a, b): return Q(a) + Q(b)
    if isnum(a) and a == 0: return b
    if isnum(b) and b == 0: return a
    return R(a) + R(b)
def rsub(a, b):
    if both(a, b): return Q(a) - Q(b)
    if isnum(b) and b == 0: return a
    return R(a) - R(b)
def rmul(a, b):
    if both(a, b): return Q(a) * Q(b)
    if isnum(a) and a == 1: return b
    if isnum(b) and b == 1: return a
    if (isnum(a) and a == 0) or (isnum(b) and b == 0): return Q(0)
    return R(a) * R(b)
def rdiv(a, b):
    if both(a, b) and b != 0: return Q(a) / Q(b)
    if isnum(b) and b == 1: return a
    if isnum(b) and b != 0: return R(a) * R(Q(1) / Q(b))
    return R(a) / R(b)
def rneg(a):
    if isnum(a): return -a
    return -R(a)
def lnot(a):
    if isbool(a): return not a
    return z3.Not(a)
def land(a, b):
    if isbool(a): return b if a else False
    if isbool(b): return a if b else False
    return z3.And(a, b)
def lor(a, b):
    if isbool(a): return True if a else b
    if isbool(b): return True if b else a
    return z3.Or(a, b)
def cmpv(op, a, b, real):
    if both(a, b):
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b, 'ne': a != b}[op]
    x, y = (R(a), R(b)) if real else (I(a), I(b))
    if x.eq(y): return op in ('le', 'ge', 'eq')
    if op == 'lt': r = x < y
    elif op == 'le': r = x <= y
    elif op == 'gt': r = x > y
    elif op == 'ge': r = x >= y
    elif op == 'eq': r = x == y
    else: r = x != y
    if not real:
        s = z3.simplify(r)
        if z3.is_true(s): return True
        if z3.is_false(s): return False
    return r

class Ptr:
    """pointer: object id, constant byte offset, symbolic part {stride: index term}"""
    __slots__ = ('obj', 'off', 'sym')
    def __init__(s, obj, off=0, sym=None): s.obj, s.off, s.sym = obj, off, sym or {}
    def add(s, c, sym=None):
        d = dict(s.sym)
        if sym:
            for k, v in sym.items():
                nv = iadd(d.get(k, 0), v)
                if isnum(nv): c += k * nv; d.pop(k, None)
                else: d[k] = nv
        return Ptr(s.obj, s.off + c, d)
    def __repr__(s): return f'&{s.obj}+{s.off}+{s.sym}'
NULL = Ptr(None, 0)
class Fn:
    def __init__(s, name): s.name = name
    def __repr__(s): return 'fn:' + s.name
class VecVal:
    """abstract std::vector value: buffer object id and length"""
    __slots__ = ('buf', 'n')
    def __init__(s, buf, n): s.buf, s.n = buf, n
    def __repr__(s): return f'vec({s.buf},{s.n})'
class Opaque:
    _n = 0
    def __init__(s, what): s.what = what; Opaque._n += 1; s.id = Opaque._n
    def __repr__(s): return f'<{s.what}#{s.id}>'
class OffInt:
    """integer obtained from a pointer (ptrtoint)"""
    def __init__(s, p): s.p = p

class Cells:
    __slots__ = ('d', 'size', 'tag')
    kind = 'cells'
    def __init__(s, d=None, size=None, tag=''): s.d, s.size, s.tag = d if d is not None else {}, size, tag
    def copy(s): return Cells(dict(s.d), s.size, s.tag)
class Arr:
    """homogeneous array: stride, fields inner offset -> z3 array (Int -> sort); or nested-vector field ('vec', lenarr, stride, {off: array of arrays})"""
    __slots__ = ('stride', 'f', 'tag', 'size', 'ep', 'org', 'epf')
    kind = 'arr'
    def __init__(s, stride, f=None, tag='', size=None, ep=0, org=None, epf=None): s.stride, s.f, s.tag, s.size, s.ep, s.org, s.epf = stride, f if f is not None else {}, tag, size, ep, org, epf or {}
    def copy(s): return Arr(s.stride, dict(s.f), s.tag, s.size, s.ep, s.org, s.epf)
    def epo(s, k): return s.epf.get(k, s.ep)
    def base(s, oid): return s.org or f'{s.tag or "arr"}{oid}'

class SubBuf:
    """buffer id of an inner vector stored as element idx of an outer array field"""
    __slots__ = ('obj', 'inner', 'idx')
    def __init__(s, obj, inner, idx): s.obj, s.inner, s.idx = obj, inner, idx
    def key(s): return (s.obj if not isinstance(s.obj, SubBuf) else s.obj.key(), s.inner, s.idx if isnum(s.idx) else s.idx.get_id())
    def __eq__(s, o): return isinstance(o, SubBuf) and s.key() == o.key()
    def __hash__(s): return hash(s.key())
    def __repr__(s): return f'{s.obj}[{s.idx}].{s.inner}'

class State:
    __slots__ = ('pc', 'mem', 'cands', 'writes', 'trace', 'obl_off', 'ghost', 'dry')
    def __init__(s): s.pc, s.mem, s.cands, s.writes, s.trace, s.obl_off, s.ghost, s.dry = (), {}, (), None, (), False, {}, False
    def copy(s):
        n = State(); n.pc, n.mem, n.cands, n.writes, n.trace, n.obl_off = s.pc, dict(s.mem), s.cands, s.writes, s.trace, s.obl_off
        n.ghost = dict(s.ghost); n.dry = s.dry
        return n
    DEFS = {}
    def assume_def(s, c):
        """a fact that holds in this state whatever branch is being followed (type invariant, definition of a fresh symbol)"""
        State.DEFS[c.get_id()] = c
        s.assume(c)
    def assume(s, c):
        if isbool(c):
            if c: return
            s.pc = s.pc + (z3.BoolVal(False),); return
        s.pc = s.pc + (c,)

class Outcome:
    __slots__ = ('kind', 'state', 'val', 'block', 'prev', 'env')
    def __init__(s, kind, state, val=None, block=None, prev=None, env=None): s.kind, s.state, s.val, s.block, s.prev, s.env = kind, state, val, block, prev, env

class QRec:  # quantifier record: boolean const q <-> forall k in [lo,hi): body(k)
    def __init__(s, q, lo, hi, body, arity=1):
        s.q, s.lo, s.hi, s.body, s.arity = q, lo, hi, body, arity
        s.sk = None; s.cache = {}
class SRec:  # sum record: S(j) = sum_{lo<=k<j} f(k); prod if prod
    def __init__(s, S, lo, f, ph, prod=False): s.S, s.lo, s.f, s.ph, s.prod = S, lo, f, ph, prod

class Obl:
    def __init__(s, name, kind, loc, status, backend, secs, info=''): s.name, s.kind, s.loc, s.status, s.backend, s.secs, s.info = name, kind, loc, status, backend, secs, info
    def js(s): return dict(name=s.name, kind=s.kind, loc=s.loc, status=s.status, backend=s.backend, secs=round(s.secs, 3), info=s.info)

FUNS = {}
def uf(name, n=1, rng='R'):
    k = (name, n, rng)
    if k not in FUNS: FUNS[k] = z3.Function(name, *([z3.RealSort()] * n), z3.RealSort() if rng == 'R' else z3.IntSort())
    return FUNS[k]

class Engine:
    lin_quick = False
    def __init__(s, ll, opts=None):
        s.M = ir.parse_module(ll)
        s.opts = opts or {}
        names = [n for n in s.M.funcs]
        inp = '\n'.join(n if not n.startswith('\x01') else n[1:] for n in names)
        out = subprocess.run(['llvm-cxxfilt-18'], input=inp, capture_output=True, text=True).stdout.split('\n')
        s.dem = dict(zip(names, out))
        s.cnt = 0
        s.fmatch = {}
        s.qrecs = {}      # name -> QRec
        s.srecs = {}
        s.atypes = {}
        s.sumkey = {}
        s.obls = []
        s.trusted = {}    # trusted external contracts used
        s.inlined = set() # functions whose body was executed
        s.reached = {}    # assert name -> reachable?
        s.solver_secs = 0.0
        s.depth = 0
        s.assumed = set()
        s.globs = {}
        s.deadline = None
        s.verbose = s.opts.get('verbose'); s.outerphis = []; s.purecache = {}; s.defarr = {}
        s.invlog = []
        s.strides = {}
        s.inputs = []     # named symbolic inputs (for counterexamples)
        s.models = []
        s.eager = []
        s.modular, s.modular_used = {}, set()
        s.invcache = {}; s.callstack = []
        s.keepalive = []
        import lib
        s.lib = lib.Lib(s)

    # ------------------------------------------------------------ fresh
    def fresh(s, sort, hint='v'):
        s.cnt += 1
        n = f'{hint}!{s.cnt}'
        if sort == 'R': return z3.Real(n)
        if sort == 'I': return z3.Int(n)
        if sort == 'B': return z3.Bool(n)
        return z3.Const(n, sort)
    def fresh_of(s, t, hint='v', state=None):
        t = s.M.resolve(t)
        if t.k == 'double' or t.k in ('float', 'x86_fp80'): return s.fresh('R', hint)
        if t.k == 'int':
            if t.a == 1: return s.fresh('B', hint)
            v = s.fresh('I', hint)
            if state is not None: state.assume(s.int_range(v, t.a))
            return v
        if t.k == 'ptr': return Opaque('ptr:' + hint)
        if t.k == 'struct': return [s.fresh_of(e, hint, state) for e in t.a]
        if t.k == 'array': return [s.fresh_of(t.b, hint, state) for _ in range(t.a)]
        raise Unsupported('fresh of ' + repr(t))
    def int_range(s, v, w):
        return z3.And(v >= -(1 << (w - 1)), v < (1 << (w - 1)))
    def new_obj(s, st, o):
        s.cnt += 1
        st.mem[s.cnt] = o
        return s.cnt
    def new_arr(s, st, stride, tag=''):
        return s.new_obj(st, Arr(stride, {}, tag))

    # ------------------------------------------------------------ memory
    def sort_of(s, t):
        t = s.M.resolve(t)
        if t.k in ('double', 'float'): return z3.RealSort()
        if t.k == 'int': return z3.IntSort()
        return None
    def arr_index(s, o, p):
        """decompose pointer into (index, inner offset)"""
        st = o.stride
        idx = p.off // st; inner = p.off % st
        for k, v in p.sym.items():
            if k == st: idx = iadd(idx, v)
            elif k % st == 0: idx = iadd(idx, imul(k // st, v))
            else: raise Unsupported(f'stride mismatch {k} vs {st} ({o.tag})')
        return idx, inner
    def get(s, st, oid):
        o = st.mem.get(oid)
        if o is None: raise Unsupported(f'access through invalid object {oid}')
        return o
    def arr_field(s, st, oid, inner, sort):
        o = st.mem[oid]
        a = o.f.get(inner)
        if a is None:
            a = z3.Array(f'{o.base(oid)}.{inner}.{sort}!e{o.epo(inner)}', z3.IntSort(), sort)
            n = o.copy(); n.f[inner] = a; st.mem[oid] = n
        return a
    def nested_field(s, st, oid, inner, stride=None):
        """nested vector field of an array object: returns (lenarr, stride, {off: arr})"""
        o = st.mem[oid]
        a = o.f.get(inner)
        if a is None:
            if stride is None: raise Unsupported('nested vector of unknown stride')
            a = ('vec', z3.Array(f'len{o.base(oid)}.{inner}!e{o.epo(inner)}', z3.IntSort(), z3.IntSort()), stride, {})
            n = o.copy(); n.f[inner] = a; st.mem[oid] = n
        return a
    def sub_arr(s, st, sb, inner, sort):
        if isinstance(sb.obj, SubBuf): raise Unsupported('three-level nesting')
        k, ln, stride, fs = s.nested_field(st, sb.obj, sb.inner)
        a = fs.get(inner)
        if a is None:
            a = z3.Array(f'arr{st.mem[sb.obj].base(sb.obj)}.{sb.inner}.{inner}.{sort}!e{st.mem[sb.obj].epo(sb.inner)}', z3.IntSort(), z3.ArraySort(z3.IntSort(), sort))
            n = st.mem[sb.obj].copy(); fs = dict(fs); fs[inner] = a; n.f[sb.inner] = ('vec', ln, stride, fs); st.mem[sb.obj] = n
        return a
    def note_write(s, st, oid, key):
        if st.writes is not None and (oid, key) not in st.writes: st.writes = st.writes | {(oid, key)}
    def conv_in(s, v, sort):
        if sort == z3.RealSort(): return R(v)
        if isbool(v): return z3.IntVal(int(v))
        if z3.is_expr(v) and z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if not isnum(v) and not z3.is_expr(v): raise Unsupported(f'store of {v!r} in array')
        return I(v)
    def load(s, st, p, t):
        t = s.M.resolve(t)
        if not isinstance(p, Ptr):
            if isinstance(p, Opaque):
                # opaque pointer: unknown contents (kept stable per opaque pointer and type is not needed)
                return s.fresh_of(t, 'opq', st)
            raise Unsupported(f'load through {p!r}')
        if p.obj is None: raise Unsupported('load through null')
        if t.k == 'struct':
            res = []
            for i in range(len(t.a)):
                off, e = s.M.field_off(t, i); res.append(s.load(st, p.add(off), e))
            return res
        if t.k == 'array':
            sz = s.M.sizeof(t.b); return [s.load(st, p.add(sz * i), t.b) for i in range(t.a)]
        if isinstance(p.obj, SubBuf):
            _, _, stride, _ = s.nested_field(st, p.obj.obj, p.obj.inner)
            o = Arr(stride); idx, inner = s.arr_index(o, p)
            a = s.sub_arr(st, p.obj, inner, s.sort_of(t))
            return z3.Select(z3.Select(a, I(p.obj.idx)), I(idx))
        o = s.get(st, p.obj)
        if o.kind == 'cells':
            if p.sym: raise Unsupported(f'symbolic offset into struct object {o.tag}')
            v = o.d.get(p.off)
            if v is None:
                z = o.d.get('zero')
                if z is not None:
                    v = Q(0) if t.k == 'double' else (NULL if t.k == 'ptr' else 0)
                else:
                    ini = s.global_init(st, p.obj, p.off, t)
                    v = ini if ini is not None else s.fresh_of(t, (o.tag or 'cell') + f'_{p.off}', st)
                n = st.mem[p.obj].copy(); n.d[p.off] = v; st.mem[p.obj] = n
            elif isinstance(v, VecVal):
                raise Unsupported('raw access to vector internals')
            return s.coerce(v, t)
        idx, inner = s.arr_index(o, p)
        if t.k == 'ptr':
            f = o.f.get(inner)
            if isinstance(f, tuple) and f[0] == 'const': return f[1]
            raise Unsupported('pointer element in array ' + o.tag)
        f = o.f.get(inner)
        if isinstance(f, tuple) and f[0] == 'const': return f[1]
        a = s.arr_field(st, p.obj, inner, s.sort_of(t))
        if a.sort().range() != s.sort_of(t): raise Unsupported('array element type punning')
        d = s.defarr.get(a.get_id())
        v = d[1](I(idx)) if d is not None else z3.Select(a, I(idx))
        v2 = z3.simplify(v) if z3.is_store(a) or z3.is_K(a) else v
        if v2 is not v:
            if z3.is_int_value(v2) or (z3.is_rational_value(v2)): v = simp(v2)
            else: v = v2 if not (z3.is_app(v2) and v2.decl().kind() == z3.Z3_OP_ITE) else v
        if t.k == 'int' and z3.is_expr(v):
            if t.a == 1: return v != 0
            st.assume(s.int_range(v, t.a))
        return v
    def coerce(s, v, t):
        if t.k == 'int':
            if t.a == 1:
                if isnum(v): return v != 0
                if z3.is_expr(v) and z3.is_int(v): return v != 0
            elif isbool(v): return int(v)
            elif z3.is_expr(v) and z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if isinstance(v, Fraction): raise Unsupported('type punning load')
            if z3.is_expr(v) and z3.is_real(v): raise Unsupported('type punning load of double as int')
        if t.k == 'double':
            if z3.is_expr(v) and z3.is_int(v): raise Unsupported('type punning load of int as double')
        return v
    def store(s, st, p, v, t):
        t = s.M.resolve(t)
        if not isinstance(p, Ptr):
            if isinstance(p, Opaque): return
            raise Unsupported(f'store through {p!r}')
        if p.obj is None: raise Unsupported('store through null')
        if t.k == 'struct':
            for i in range(len(t.a)):
                off, e = s.M.field_off(t, i); s.store(st, p.add(off), v[i] if v is not None else None, e)
            return
        if t.k == 'array':
            sz = s.M.sizeof(t.b)
            for i in range(t.a): s.store(st, p.add(sz * i), v[i] if v is not None else None, t.b)
            return
        if v is None: v = s.fresh_of(t, 'undef')
        if isinstance(p.obj, SubBuf):
            _, _, stride, _ = s.nested_field(st, p.obj.obj, p.obj.inner)
            idx, inner = s.arr_index(Arr(stride), p)
            sort = s.sort_of(t)
            a = s.sub_arr(st, p.obj, inner, sort)
            na = z3.Store(a, I(p.obj.idx), z3.Store(z3.Select(a, I(p.obj.idx)), I(idx), s.conv_in(v, sort)))
            n = st.mem[p.obj.obj].copy(); k, ln, sd, fs = n.f[p.obj.inner]; fs = dict(fs); fs[inner] = na; n.f[p.obj.inner] = (k, ln, sd, fs); st.mem[p.obj.obj] = n
            s.note_write(st, p.obj.obj, p.obj.inner)
            return
        o = s.get(st, p.obj)
        n = o.copy()
        if o.kind == 'cells':
            if p.sym: raise Unsupported(f'symbolic offset store into struct object {o.tag}')
            n.d[p.off] = v
            st.mem[p.obj] = n
            s.note_write(st, p.obj, p.off)
            return
        idx, inner = s.arr_index(o, p)
        sort = s.sort_of(t)
        if sort is None:
            if t.k == 'ptr': raise Unsupported('pointer store in array ' + o.tag)
            raise Unsupported('store type')
        a = s.arr_field(st, p.obj, inner, sort)
        if a.sort().range() != sort: raise Unsupported('array element type punning')
        n = st.mem[p.obj].copy()
        n.f[inner] = z3.Store(a, I(idx), s.conv_in(v, sort))
        st.mem[p.obj] = n
        s.note_write(st, p.obj, inner)
    def vec_at(s, st, p, stride=None, create=True):
        """VecVal stored at pointer p (the std::vector object)"""
        if not isinstance(p, Ptr) or p.obj is None: raise Unsupported(f'vector at {p!r}')
        if isinstance(p.obj, SubBuf): raise Unsupported('vector nested three levels')
        o = s.get(st, p.obj)
        if o.kind == 'cells':
            if p.sym: raise Unsupported('vector at symbolic offset')
            v = o.d.get(p.off)
            if v is None:
                if not create: raise Unsupported('uninitialised vector')
                if o.d.get('zero') is not None: v = VecVal(s.new_arr(st, stride, 'gvec'), 0)
                else:
                    n = s.fresh('I', 'len'); st.assume(n >= 0)
                    v = VecVal(s.new_arr(st, stride, 'uvec'), n)
                c = st.mem[p.obj].copy(); c.d[p.off] = v; st.mem[p.obj] = c
            if not isinstance(v, VecVal): raise Unsupported(f'not a vector: {v!r}')
            return v
        idx, inner = s.arr_index(o, p)
        k, ln, sd, fs = s.nested_field(st, p.obj, inner, stride)
        n = z3.Select(ln, I(idx))
        st.assume(n >= 0)
        return VecVal(SubBuf(p.obj, inner, idx), simp_int(n))
    def set_vec(s, st, p, v):
        if isinstance(p, Opaque): return
        o = s.get(st, p.obj)
        if o.kind == 'cells':
            n = o.copy(); old = n.d.get(p.off); n.d[p.off] = v; st.mem[p.obj] = n
            s.note_write(st, p.obj, p.off)
            return
        # assign into nested field: copy contents
        idx, inner = s.arr_index(o, p)
        if isinstance(v.buf, SubBuf):
            if v.buf.obj == p.obj and v.buf.inner == inner and same(v.buf.idx, idx):
                stride_src = s.nested_field(st, p.obj, inner)[2]; src = None
            else:
                k, ln, sd, fs0 = s.nested_field(st, v.buf.obj, v.buf.inner)
                src = {io: z3.Select(a, I(v.buf.idx)) for io, a in fs0.items()}; stride_src = sd
        else:
            so = s.get(st, v.buf); src = dict(so.f); stride_src = so.stride
        k, ln, sd, fs = s.nested_field(st, p.obj, inner, stride_src)
        fs = dict(fs)
        if src is not None:
            for io, a in src.items():
                if io not in fs:
                    s.cnt += 1
                    fs[io] = z3.Array(f'arr{p.obj}.{inner}.{io}!{s.cnt}', z3.IntSort(), a.sort())
                fs[io] = z3.Store(fs[io], I(idx), a)
        n = st.mem[p.obj].copy(); n.f[inner] = ('vec', z3.Store(ln, I(idx), I(v.n)), sd, fs); st.mem[p.obj] = n
        s.note_write(st, p.obj, inner)
    def copy_buf(s, st, buf, tag=''):
        if isinstance(buf, SubBuf):
            k, ln, sd, fs = s.nested_field(st, buf.obj, buf.inner)
            return s.new_obj(st, Arr(sd, {io: z3.Select(a, I(buf.idx)) for io, a in fs.items()}, tag))
        o = s.get(st, buf)
        return s.new_obj(st, Arr(o.stride, dict(o.f), tag or o.tag, None, o.ep, o.base(buf), o.epf))
    def memcpy(s, st, d, sr, n, t=None):
        if not isnum(n): raise Unsupported('memcpy of symbolic size')
        if isinstance(d, Opaque) or isinstance(sr, Opaque): 
            return
        if n == 0: return
        so = s.get(st, sr.obj) if not isinstance(sr.obj, SubBuf) else None
        do = s.get(st, d.obj) if not isinstance(d.obj, SubBuf) else None
        if so is not None and so.kind == 'cells':
            if sr.sym: raise Unsupported('memcpy symbolic src')
            z = so.d.get('zero')
            items = [(o, v) for o, v in so.d.items() if o != 'zero' and sr.off <= o < sr.off + n]
            if not items and so.tag.startswith('global:'):
                s.init_global_cells(st, sr.obj)
                so = s.get(st, sr.obj)
                items = [(o, v) for o, v in so.d.items() if o != 'zero' and sr.off <= o < sr.off + n]
            if do is not None and do.kind == 'cells' and not d.sym:
                nn = do.copy()
                for o in [o for o in nn.d if o != 'zero' and d.off <= o < d.off + n]: del nn.d[o]
                for o, v in items:
                    nn.d[o - sr.off + d.off] = v
                    s.note_write(st, d.obj, o - sr.off + d.off)
                st.mem[d.obj] = nn
                return
            for o, v in items:
                s.store(st, d.add(o - sr.off), v, s.type_of_val(v))
            return
        if do is not None and do.kind == 'cells' and not d.sym and d.obj in s.atypes:
            ls = [(o, t) for o, t in s.M.leaves(s.atypes[d.obj]) if d.off <= o < d.off + n]
            if ls and all(t.k == 'double' or (t.k == 'int' and t.a in (32, 64)) for o, t in ls):
                for o, t in ls: s.store(st, d.add(o - d.off), s.load(st, sr.add(o - d.off), t), t)
                return
        # array source: copy known fields at each stride step
        if so is None:
            stride = s.nested_field(st, sr.obj.obj, sr.obj.inner)[2]; fields = s.nested_field(st, sr.obj.obj, sr.obj.inner)[3]
            srt = {io: a.sort().range().range() for io, a in fields.items()}
        else:
            stride = so.stride; srt = {io: a.sort().range() for io, a in so.f.items() if not isinstance(a, tuple)}
        if do is not None and do.kind == 'arr':
            for io, a in do.f.items():
                if not isinstance(a, tuple): srt.setdefault(io, a.sort().range())
        if not srt and n % 8 == 0: srt = {io: z3.RealSort() for io in range(0, min(stride, n), 8)}
        base = sr.off % stride
        for rep in range((n + stride - 1) // stride):
            for io, so_ in srt.items():
                rel = rep * stride + (io - base)
                if 0 <= rel < n:
                    tt = T('double') if so_ == z3.RealSort() else (T('int', 64) if stride % 8 == 0 else T('int', 32))
                    s.store(st, d.add(rel), s.load(st, sr.add(rel), tt), tt)
    def type_of_val(s, v):
        if isinstance(v, Fraction) or (z3.is_expr(v) and z3.is_real(v)): return T('double')
        if isbool(v) or (z3.is_expr(v) and z3.is_bool(v)): return T('int', 1)
        if isnum(v) or (z3.is_expr(v) and z3.is_int(v)): return T('int', 64)
        return T('ptr')

    # ------------------------------------------------------------ globals
    def glob_ptr(s, st, name):
        if name in s.M.funcs: return Fn(name)
        oid = 'g:' + name
        if oid not in st.mem:
            d = s.M.globals.get(name, '')
            st.mem[oid] = Cells({}, None, 'global:' + name)
        return Ptr(oid)
    def parse_global(s, name):
        if name in s.globs: return s.globs[name]
        d = s.M.globals.get(name)
        r = None
        if d is not None:
            m = re.search(r'\b(constant|global)\s', d)
            if m:
                const = m.group(1) == 'constant'
                external = re.search(r'\bexternal\b', d[:m.start()]) is not None
                rest = d[m.end():]
                tk = ir.Toks(ir.tokenize(rest))
                t = ir.parse_type(tk)
                v = None
                if not external:
                    try: v = ir.parse_value(tk, t)
                    except Exception: v = None
                r = (const, t, v)
        s.globs[name] = r
        return r
    def global_init(s, st, oid, off, t):
        if not isinstance(oid, str) or not oid.startswith('g:'): return None
        g = s.parse_global(oid[2:])
        if g is None: return None
        const, gt, v = g
        if v is None or not (const or s.opts.get('use_global_init')): return None
        return s.const_at(st, v, gt, off, t)
    def const_at(s, st, v, gt, off, t):
        gt = s.M.resolve(gt)
        if v.k == 'zero' or v.k == 'undef':
            if t.k == 'double': return Q(0)
            if t.k == 'int': return 0
            return NULL
        if v.k == 'str':
            b = s.cstr_bytes(v.v)
            if t.k == 'int' and t.a == 8:
                return b[off] - 256 if b[off] > 127 else b[off]
            return None
        if gt.k == 'struct':
            for i in range(len(gt.a)):
                o, e = s.M.field_off(gt, i)
                if o <= off < o + max(1, s.M.sizeof(e)): return s.const_at(st, v.v[i], e, off - o, t)
            return None
        if gt.k == 'array':
            sz = s.M.sizeof(gt.b); i = off // sz
            if i >= gt.a: return None
            return s.const_at(st, v.v[i], gt.b, off % sz, t)
        return s.ev(st, {}, v)
    def init_global_cells(s, st, oid):
        g = s.parse_global(oid[2:]) if isinstance(oid, str) else None
        if g is None or g[2] is None or not g[0]: return
        n = st.mem[oid].copy()
        def rec(t, off):
            t = s.M.resolve(t)
            if t.k == 'struct':
                for i in range(len(t.a)):
                    o, e = s.M.field_off(t, i); rec(e, off + o)
            elif t.k == 'array':
                sz = s.M.sizeof(t.b)
                if t.a > 4096: raise Unsupported('huge constant')
                for i in range(t.a): rec(t.b, off + sz * i)
            else:
                n.d[off] = s.const_at(st, g[2], g[1], off, t)
        rec(g[1], 0)
        st.mem[oid] = n
    @staticmethod
    def cstr_bytes(lit):
        t = lit[2:-1]
        b = bytearray(); i = 0
        while i < len(t):
            if t[i] == '\\': b.append(int(t[i+1:i+3], 16)); i += 3
            else: b.extend(t[i].encode('utf8')); i += 1
        return bytes(b)
    def const_string(s, p):
        """python string of a constant C string pointer, or None"""
        if isinstance(p, Ptr) and isinstance(p.obj, str) and p.obj.startswith('g:') and not p.sym:
            g = s.parse_global(p.obj[2:])
            if g and g[2] is not None and g[2].k == 'str':
                b = s.cstr_bytes(g[2].v)[p.off:]
                return b.split(b'\0')[0].decode('latin1')
            if g and g[2] is not None and g[2].k == 'zero': return ''
        return None

    # ------------------------------------------------------------ operand evaluation
    def ev(s, st, env, v):
        k = v.k
        if k == 'loc':
            try: return env[v.v]
            except KeyError: raise Unsupported('undefined value %' + v.v)
        if k == 'int':
            if v.t.k == 'int' and v.t.a == 1: return v.v != 0
            return v.v
        if k == 'fp':
            if math.isinf(v.v) or math.isnan(v.v): return s.special(v.v)
            return Fraction(v.v)
        if k == 'null': return NULL
        if k == 'undef':
            return None
        if k == 'zero': return s.zero_of(v.t)
        if k == 'glb': return s.glob_ptr(st, v.v)
        if k == 'agg': return [s.ev(st, env, x) for x in v.v]
        if k == 'byval':
            inner, t = v.v
            src = s.ev(st, env, inner)
            o = s.new_obj(st, Cells({}, s.M.sizeof(t), 'byval'))
            s.memcpy(st, Ptr(o), src, s.M.sizeof(t))
            return Ptr(o)
        if k == 'cexpr':
            if v.v[0] == 'gep':
                _, bt, ops = v.v
                return s.gep(bt, s.ev(st, env, ops[0]), [s.ev(st, env, o) for o in ops[1:]])
            if v.v[0] in ('ptrtoint',):
                return OffInt(s.ev(st, env, v.v[1]))
            return s.ev(st, env, v.v[1])
        raise Unsupported('operand ' + k)
    def special(s, d):
        s.assumed.add('IEEE infinities/NaN appearing as literals are modelled as unconstrained reals larger in magnitude than every named input')
        n = 'INF' if d > 0 else ('NINF' if d < 0 else 'NAN')
        if d < 0: return -z3.Real('INF')
        return z3.Real(n)
    def zero_of(s, t):
        t = s.M.resolve(t)
        if t.k in ('double', 'float', 'x86_fp80'): return Q(0)
        if t.k == 'int': return False if t.a == 1 else 0
        if t.k == 'ptr': return NULL
        if t.k == 'struct': return [s.zero_of(e) for e in t.a]
        if t.k == 'array': return [s.zero_of(t.b)] * t.a
        if t.k == 'vec': return [s.zero_of(t.b)] * t.a
        raise Unsupported('zero of ' + repr(t))
    def gep(s, bt, p, idx):
        if isinstance(p, Opaque): return p
        if not isinstance(p, Ptr): raise Unsupported(f'gep on {p!r}')
        c, sym = 0, {}
        def addi(sz, i):
            nonlocal c
            if isinstance(i, OffInt): raise Unsupported('gep with pointer integer')
            if isnum(i) or isbool(i): c += sz * int(i)
            else: sym[sz] = iadd(sym.get(sz, 0), i)
        addi(s.M.sizeof(bt), idx[0])
        t = bt
        for i in idx[1:]:
            t = s.M.resolve(t)
            if t.k == 'struct':
                o, t = s.M.field_off(t, i); c += o
            elif t.k in ('array', 'vec'):
                t = t.b; addi(s.M.sizeof(t), i)
            else: raise Unsupported('gep into ' + t.k)
        return p.add(c, sym)

    # ------------------------------------------------------------ pointer comparison
    def ptr_eq(s, a, b):
        if isinstance(a, Fn) or isinstance(b, Fn):
            if isinstance(a, Fn) and isinstance(b, Fn): return a.name == b.name
            return False
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if a is b: return True
            x = b if isinstance(a, Opaque) else a
            if isinstance(x, Ptr) and x.obj is None: return False if (getattr(a, 'what', '') + getattr(b, 'what', '')).startswith('nonnull') else s.fresh('B', 'ptreq')
            return s.fresh('B', 'ptreq')
        if a is None or b is None: return s.fresh('B', 'ptreq')
        if a.obj != b.obj: return False
        d = s.ptr_diff(a, b)
        return cmpv('eq', d, 0, False)
    def ptr_diff(s, a, b):
        c = a.off - b.off
        keys = set(a.sym) | set(b.sym)
        tot = c
        for k in keys:
            tot = iadd(tot, imul(k, isub(a.sym.get(k, 0), b.sym.get(k, 0))))
        return tot

    # ------------------------------------------------------------ solver interface
    def walk_terms(s, exprs):
        """collect index terms of selects/stores, S-applications, transcendental applications and quantifier constants"""
        seen = set(); idx = {}; sapps = []; fapps = []; qs = []; divs = []; divmods = []
        stack = [e for e in exprs if z3.is_expr(e)]
        while stack:
            e = stack.pop()
            i = e.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_app(e):
                k = e.decl().kind()
                if k == z3.Z3_OP_SELECT and e.arg(1).sort() == z3.IntSort(): idx[e.arg(1).get_id()] = e.arg(1)
                elif k == z3.Z3_OP_STORE and e.arg(1).sort() == z3.IntSort(): idx[e.arg(1).get_id()] = e.arg(1)
                elif k == z3.Z3_OP_UNINTERPRETED:
                    n = e.decl().name()
                    if n in s.srecs: sapps.append(e); idx[e.arg(0).get_id()] = e.arg(0)
                    elif e.num_args() == 0 and n in s.qrecs: qs.append(n)
                    elif e.num_args() > 0 and n.startswith('f_'): fapps.append(e)
                    elif e.num_args() > 0 and n.startswith('p_'):
                        for a in e.children(): idx[a.get_id()] = a
                stack.extend(e.children())
        return idx, sapps, fapps, qs
    def closure(s, facts, goal, depth=3, cap=4000):
        """return list of additional instantiated facts"""
        base = [f for f in facts] + ([goal] if goal is not None else [])
        extra = []
        done_q = set(); done_s = set(); done_f = set(); done_pair = set()
        allx = list(base)
        for rnd in range(depth):
            idx, sapps, fapps, qs = s.walk_terms(allx)
            terms = {}
            for t in idx.values():
                u = z3.simplify(t)
                terms[u.sexpr() if u.num_args() == 0 else u.get_id()] = u
            terms = list(terms.values())
            new = []
            qs = set(qs)
            for qn in qs:
                r = s.qrecs[qn]
                if r.sk is None:
                    r.sk = [s.fresh('I', 'sk') for _ in range(r.arity)]
                    rng = z3.And(*[z3.And(I(r.lo) <= x, x < I(r.hi)) for x in r.sk])
                    r.skf = z3.Implies(z3.Not(r.q), z3.And(rng, z3.Not(r.body(*r.sk))))
                if ('sk', qn) not in done_q:
                    done_q.add(('sk', qn)); new.append(r.skf)
                if r.arity == 1: combos = [(t,) for t in terms] + ([(I(r.lo),), (I(r.hi) - 1,)] if rnd == 0 else [])
                elif r.arity == 2: combos = [(a, b) for a in terms for b in terms]
                else: combos = list(itertools.product(terms, repeat=r.arity))
                for c in combos:
                    key = (qn,) + tuple(x.get_id() for x in c)
                    if key in done_q: continue
                    done_q.add(key)
                    f = r.cache.get(key)
                    if f is None:
                        rng = z3.And(*[z3.And(I(r.lo) <= x, x < I(r.hi)) for x in c])
                        sr = z3.simplify(rng)
                        if z3.is_false(sr): f = None; r.cache[key] = False; continue
                        f = z3.Implies(z3.And(r.q, rng), r.body(*c)); r.cache[key] = f
                    if f is False: continue
                    new.append(f)
            # folds: unfold at each application argument and each index term
            byname = {}
            for a in sapps:
                ar = [z3.simplify(c) for c in a.children()]
                byname.setdefault(a.decl().name(), {})[tuple(c.get_id() for c in ar)] = ar
            for nm in list(byname):
                for l in s.srecs[nm].links: byname.setdefault(l, {})
            pats = [nm for nm in byname if s.srecs[nm].outer]
            if pats:
                for nm in byname:
                    if s.srecs[nm].outer: continue
                    for pn in pats:
                        th = s.fold_match(pn, nm)
                        if th is None: continue
                        for ar in byname[nm].values():
                            k = ('m', nm, pn, ar[0].get_id())
                            if k in done_s: continue
                            done_s.add(k); new.append(s.srecs[nm].S(ar[0]) == s.srecs[pn].S(ar[0], *th))
            for nm, apps in byname.items():
                r = s.srecs[nm]
                apps = dict(apps)
                if rnd < 2:
                    outs_ = {tuple(c.get_id() for c in ar[1:]): ar[1:] for ar in apps.values()} or ({(): []} if not r.outer else {})
                    for t in terms:
                        for ok, ov in outs_.items(): apps.setdefault((t.get_id(),) + ok, [t] + list(ov))
                for kk, ar in apps.items():
                    key = (nm,) + kk
                    if key in done_s: continue
                    done_s.add(key)
                    s.keepalive.append(ar)
                    new.extend(s.sum_axioms(r, ar[0], ar[1:]))
            for a in fapps:
                if a.get_id() in done_f: continue
                done_f.add(a.get_id())
                new.extend(s.lib.fun_axioms(a))
            if fapps: new.extend(s.lib.pair_axioms(fapps, done_pair))
            if not new: break
            if len(extra) + len(new) > cap: new = new[:max(0, cap - len(extra))]; extra += new; break
            extra += new
            allx = base + extra
        return extra
    def fold_match(s, pn, nm):
        """values of the outer placeholders of fold pn for which it is the fold nm"""
        key = (pn, nm)
        if key in s.fmatch: return s.fmatch[key]
        a, b = s.srecs[pn], s.srecs[nm]
        pv = {o.decl().name(): i for i, o in enumerate(a.outer)}; th = [None] * len(a.outer); seen = {}
        def m(x, y):
            k = (x.get_id(), y.get_id())
            if k in seen: return True
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in pv:
                i = pv[x.decl().name()]
                if th[i] is None:
                    if s.lib.mentions_ph(y) or x.sort() != y.sort(): return False
                    th[i] = y; return True
                return th[i].eq(y)
            if x.eq(y):
                return not s.lib.mentions_ph(x) or z3.is_const(x) or all(m(c, d) for c, d in zip(x.children(), y.children()))
            if not (z3.is_app(x) and z3.is_app(y)) or not x.decl().eq(y.decl()) or x.num_args() != y.num_args(): return False
            if not all(m(c, d) for c, d in zip(x.children(), y.children())): return False
            seen[k] = (x, y)
            return True
        ok = m(I(a.lo), I(b.lo)) and m(a.init, b.init) and m(a.f, b.f) and all(t is not None for t in th)
        s.fmatch[key] = th if ok else None
        return s.fmatch[key]
    def sum_axioms(s, r, t, outer):
        """ground axioms of the fold S at argument t (outer: values of outer placeholders)"""
        def sub(e): return z3.substitute(e, *zip(r.outer, outer)) if r.outer and z3.is_expr(e) else e
        lo = sub(I(r.lo)); init = sub(r.init)
        def S(k): return r.S(k, *outer)
        def step(k, a): return z3.substitute(sub(r.f), (r.phk, k), (r.pha, a))
        ax = []
        ax.append(z3.Implies(t <= lo, S(t) == init))
        t1 = z3.simplify(t + 1); t0 = z3.simplify(t - 1)
        ax.append(z3.Implies(t >= lo, S(t1) == step(t, S(t))))
        ax.append(z3.Implies(t > lo, S(t) == step(t0, S(t0))))
        for (other, idxs, upd) in r.frames:
            o = s.srecs[other]
            ax.append(z3.Implies(z3.And(*[z3.Or(i < lo, i >= t) for i in idxs]), S(t) == o.S(t)))
            if upd is not None:
                (i, fnew, fold) = upd
                ax.append(z3.Implies(z3.And(i >= lo, i < t), S(t) == o.S(t) + fnew - fold))
        for (kind, other, p, n, g) in r.events:
            o = s.srecs[other].S
            if kind == 'ins': # n == 1
                ax.append(z3.Implies(t <= p, S(t) == o(t)))
                ax.append(z3.Implies(z3.And(t > p, p >= lo), S(t) == o(t0) + g))
            elif kind == 'era':
                ax.append(z3.Implies(t <= p, S(t) == o(t)))
                ax.append(z3.Implies(z3.And(t > p, p >= lo), S(t) == o(z3.simplify(t + n)) - o(z3.simplify(p + n)) + o(p)))
            else: # permutation of [p, n)
                ax.append(z3.Implies(t <= p, S(t) == o(t)))
                ax.append(z3.Implies(z3.And(t >= n, p >= lo), S(t) == o(t)))
        return ax
    def check(s, facts, timeout=3000):
        sol = z3.SolverFor('QF_AUFNIRA') if False else z3.Solver()
        sol.set('timeout', timeout)
        for f in facts: sol.add(f)
        t = time.time()
        r = sol.check()
        s.solver_secs += time.time() - t
        return r, sol
    def lin_unsat(s, facts, timeout):
        """is the linear abstraction of the facts unsatisfiable? (sound)"""
        if s.opts.get('nolin'): return False
        if not hasattr(s, 'linr'): import linear; s.linr = linear.Lin()
        s.lin_t0 = time.time(); s.lin_splits = 0
        fs = [f for f in facts if z3.is_expr(f)]
        r = False
        try: r = s.lin_rec(fs, timeout, 0)
        except (z3.Z3Exception, AttributeError) as ex:
            if s.verbose: print('linearize', repr(ex)[:200])
        finally:
            s.solver_secs += time.time() - s.lin_t0
            if s.opts.get('lindbg'): print('   lin', len(fs), r, 'splits', s.lin_splits, round(time.time() - s.lin_t0, 2), 'timeout', timeout)
        return r
    def lin_rec(s, facts, timeout, depth, decided=()):
        fs = facts
        if len(fs) < 6000:
            g = z3.Goal(); g.add(*fs)
            sub = z3.TryFor(z3.Then('simplify', 'propagate-values', 'solve-eqs', 'simplify', 'propagate-values', 'solve-eqs'), 1500).apply(g)
            if len(sub) == 1: fs = list(sub[0])
        ls = s.linr.linearize(fs)
        sol = z3.Solver(); sol.set('timeout', timeout)
        for f in ls: sol.add(f)
        names = None; known = set()
        for rnd in range(3 if s.lin_quick else s.opts.get('refine', 10)):
            r = sol.check()
            if r == z3.unsat: return True
            if r != z3.sat or time.time() - s.lin_t0 > timeout / 1000 * 2: return False
            if names is None: names = s.linr.used_consts(ls)
            lem = s.linr.refine(sol.model(), names, tangents=True)
            lem = [l for l in lem if l.get_id() not in known]
            if not lem: break
            known |= {l.get_id() for l in lem}; s.linr.keep += lem
            names |= s.linr.used_consts(lem)
            for l in lem: sol.add(l)
        if s.lin_quick or depth >= 3 or s.lin_splits > 12 or not names: return False
        # case split on an equality between two index constants (array indices)
        m = sol.model() if r == z3.sat else None
        if m is None: return False
        idx = s.walk_terms(fs)[0]
        cs = {}
        for t in idx.values():
            st = [t]
            while st:
                x = st.pop()
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() == z3.IntSort() and not x.decl().name().startswith('sk!'): cs[x.get_id()] = x
                elif x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL): st.extend(x.children())
        cs = sorted(cs.values(), key=lambda x: x.decl().name())
        best = None
        for a, b in itertools.combinations(cs, 2):
            va, vb = m.eval(a, model_completion=True).as_long(), m.eval(b, model_completion=True).as_long()
            d = va - vb
            if abs(d) > 1 or (a.get_id(), b.get_id(), d) in decided: continue
            key = (abs(d), a.decl().name(), b.decl().name())
            if best is None or key < best[0]: best = (key, a, b, d)
        if best is None: return False
        _, a, b, d = best; s.lin_splits += 1
        ndec = decided + ((a.get_id(), b.get_id(), d),)
        if not s.lin_rec([z3.substitute(f, (a, b + d)) for f in fs], timeout, depth + 1, ndec): return False
        return s.lin_rec(fs + [a != b + d], timeout, depth + 1, ndec)
    def conjuncts(s, g):
        if z3.is_and(g): return [x for c in g.children() for x in s.conjuncts(c)]
        if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_ITE and z3.is_false(g.arg(2)): return s.conjuncts(g.arg(0)) + s.conjuncts(g.arg(1))
        if z3.is_not(g) and z3.is_or(g.arg(0)): return [x for c in g.arg(0).children() for x in s.conjuncts(z3.simplify(z3.Not(c)))]
        return [g]
    def has_q(s, g):
        return bool(s.walk_terms([g])[3])
    def is_pure(s, f):
        """linear integer / boolean fact (cheap)"""
        i = f.get_id()
        r = s.purecache.get(i)
        if r is not None: return r[0]
        ok = True; seen = set(); stack = [f]
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_real(x) or z3.is_array(x): ok = False; break
            if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and sum(0 if z3.is_int_value(c) else 1 for c in x.children()) > 1: ok = False; break
            stack.extend(x.children())
        s.purecache[i] = (ok, f)
        return ok
    def pure_unsat(s, facts):
        pos = set(); neg = set(); keep = []
        stack = list(facts); lits = []
        while stack:
            f = stack.pop()
            if not z3.is_and(f): lits.append(f)
            if z3.is_and(f): pos.add(f.get_id()); stack.extend(f.children()); continue
            if z3.is_not(f):
                g = f.arg(0)
                if z3.is_or(g): ch = [z3.Not(c) for c in g.children()]; keep.append(ch); stack.extend(ch); continue
                neg.add(g.get_id())
            else: pos.add(f.get_id())
        if pos & neg: return True
        pf = [f for f in lits if s.is_pure(f)]
        if not pf: return False
        r, _ = s.check(pf, 200)
        return r == z3.unsat
    def feasible(s, st, c=None, timeout=300):
        facts = list(st.pc)
        if c is not None: facts.append(B(c))
        if s.pure_unsat(facts): return False
        if s.opts.get('feas_inst'):
            facts += s.closure(facts, None, depth=1, cap=300)
        r, _ = s.check(facts, timeout)
        return r != z3.unsat
    def prove(s, st, goal, timeout=None, want_model=False):
        """is goal implied by the path condition? returns (status, backend, secs, model)"""
        timeout = timeout or s.opts.get('timeout', 8000)
        if isbool(goal):
            if goal: return ('valid', 'const', 0.0, None)
            goal = z3.BoolVal(False)
        t = time.time()
        g = z3.simplify(goal)
        if z3.is_true(g): return ('valid', 'simplify', time.time() - t, None)
        facts = list(st.pc) + s.eager
        ng = z3.Not(goal)
        last = 'unknown'; model = None
        for depth in (0, 1, 2, 3):
            ex = s.closure(facts, ng, depth=depth) if depth else []
            if depth and s.lin_unsat(facts + [ng] + ex, min(timeout, 4000)): return ('valid', f'z3 {z3.get_version_string()} (linear abstraction)', time.time() - t, None)
            r, sol = s.check(facts + [ng] + ex, timeout if depth == 3 else min(timeout, 1500))
            if r == z3.unsat: return ('valid', f'z3 {z3.get_version_string()}', time.time() - t, None)
            if depth and not ex and r == z3.sat: break
        if r == z3.sat:
            last = 'refuted'
            try: model = sol.model()
            except z3.Z3Exception: pass
        elif want_model or s.opts.get('fallback', True):
            r2 = s.fallback(facts + [ng] + ex, timeout)
            if r2 == 'unsat': return ('valid', 'cvc5/z3-nla', time.time() - t, None)
            if r2 == 'sat': last = 'refuted'
        return (last, 'z3', time.time() - t, model)
    def fallback(s, facts, timeout):
        if s.opts.get('nofallback'): return 'unknown'
        sol = z3.Solver()
        for f in facts: sol.add(f)
        smt = '(set-logic ALL)\n' + sol.to_smt2()
        smt = re.sub(r'\(set-info[^)]*\)', '', smt)
        import tempfile
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh: fh.write(smt); fn = fh.name
        t = time.time()
        res = 'unknown'
        try:
            for cmd in (['cvc5', f'--tlimit={timeout}', '--nl-cov', fn], ['z3-new', f'-T:{max(1, timeout//1000)}', 'smt.arith.solver=2', fn]):
                try:
                    out = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout / 1000 + 5).stdout
                except Exception: continue
                if out.startswith('unsat') or '\nunsat' in out: res = 'unsat'; break
        finally:
            os.unlink(fn)
            s.solver_secs += time.time() - t
        return res
    def oblige(s, st, goal, name, kind, loc):
        if st.obl_off: return
        if isbool(goal) and goal and kind != 'assert': return
        status, be, secs, model = s.prove(st, goal, want_model=(kind == 'assert'))
        info = ''
        if status != 'valid':
            # is the path itself feasible (with all instantiated facts)?
            facts = list(st.pc) + s.eager
            ex = s.closure(facts, None, depth=3)
            r, _ = s.check(facts + ex, 4000)
            if r == z3.unsat: status = 'valid'; be = 'infeasible-path'
        if status != 'valid':
            info = s.describe(model) if model is not None else ''
            s.models.append((name, s.model_inputs(model) if model is not None else None))
            if s.verbose:
                print(f'  FAILED {status} {kind} {name} at {loc}\n    {info[:1500]}')
                if s.opts.get('dumpq'):
                    for nm2, fs2 in (('o', facts + [z3.Not(B(goal))] + ex), ('l', s.linr.linearize([f for f in facts + [z3.Not(B(goal))] + ex if z3.is_expr(f)]))):
                        so = z3.Solver(); so.add(*fs2); s.dumpn = getattr(s, 'dumpn', 0) + 1
                        open(f'/tmp/w/q{s.dumpn}.{nm2}.smt2', 'w').write(so.to_smt2())
                if s.opts.get('dump'):
                    print('   goal', goal); print('   pc', st.pc)
        elif kind == 'assert':
            if not s.reached.get(name):
                facts = list(st.pc)
                r, _ = s.check(facts, 3000)
                s.reached[name] = r != z3.unsat
                if r != z3.unsat:
                    ex = s.closure(facts, None, depth=2)
                    r, _ = s.check(facts + ex, 3000)
                    s.reached[name] = r != z3.unsat
        s.obls.append(Obl(name, kind, loc, status, be, secs, info))
        if status != 'valid':
            s.nfail = getattr(s, 'nfail', 0) + 1
            if s.nfail >= s.opts.get('maxfail', 2): raise Budget('stopped after failed obligations')
    def func_file(s, name):
        f = s.M.funcs.get(name)
        if f is None or not f.dbg: return None
        d = s.M.md.get(f.dbg, '')
        m = re.search(r'file: (![0-9]+)', d)
        if not m: return None
        d2 = s.M.md.get(m.group(1), '')
        a = re.search(r'filename: "([^"]*)", directory: "([^"]*)"', d2)
        ln = re.search(r'line: (\d+)', d)
        return (os.path.normpath(os.path.join(a.group(2), a.group(1))), int(ln.group(1)) if ln else 0) if a else None
    def finish(s, outs):
        for o in outs:
            if o.kind == 'throw': s.oblige(o.state, False, 'no-escaping-exception-or-exit', 'escape', str(o.val))
    def describe(s, model):
        out = []
        for nm, v, kind in s.inputs:
            try: out.append(f'{nm}={model.eval(v, model_completion=True)}')
            except Exception: pass
        return ' '.join(out)
    def model_inputs(s, model):
        res = []
        for nm, v, kind in s.inputs:
            try:
                x = model.eval(v, model_completion=True)
                if z3.is_algebraic_value(x): x = x.approx(20)
                if z3.is_rational_value(x): res.append((nm, float(Fraction(x.numerator_as_long(), x.denominator_as_long()))))
                elif z3.is_int_value(x): res.append((nm, x.as_long()))
                elif z3.is_true(x) or z3.is_false(x): res.append((nm, int(z3.is_true(x))))
            except Exception: pass
        return res

    # ------------------------------------------------------------ locations
    def loc(s, f, ins):
        if ins.dbg is None: return s.dem.get(f.name, f.name)[:80]
        d = s.M.md.get(ins.dbg, '')
        m = re.search(r'line: (\d+)', d)
        return f'{s.short(f.name)}:{m.group(1) if m else "?"}'
    def short(s, n):
        d = s.dem.get(n, n)
        d = re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', d)))
        return d.split('(')[0][-60:]

    # ------------------------------------------------------------ execution
    def call(s, st, name, args, site='', depth=0):
        """execute function by mangled name; returns list of Outcome(kind ret|throw)"""
        if s.deadline and time.time() > s.deadline: raise Budget('time budget exhausted')
        r = s.lib.dispatch(st, name, args, site)
        if r is not None: return r
        if s.modular: # callee replaced by its contract
            nm = re.sub(r'.*::', '', s.short(name)).split('[')[0].strip()
            if nm in s.modular and 'vp_callee_' not in s.dem.get(name, ''): name = s.modular[nm]; s.modular_used.add(nm)
        f = s.M.funcs.get(name)
        if f is None: raise Unsupported(f'external function {s.dem.get(name, name)} (at {site})')
        ir.materialize(f)
        if f.irreducible: raise Unsupported('irreducible control flow in ' + name)
        if len(s.callstack) > 100:
            if s.opts.get('verbose'): print('DEPTH', [s.short(n) for n, _ in s.callstack[-8:]])
            raise Unsupported('call depth')
        s.inlined.add(name)
        s.callstack.append((name, site))
        try:
            env = {}
            for (nm, t, at), a in zip(f.params, args): env[nm] = a
            before = set(st.mem.keys()) if False else None
            outs = s.explore(f, f.entry, None, env, st, None)
        finally: s.callstack.pop()
        outs = [o for o in outs if o.kind in ('ret', 'throw')]
        return s.merge(outs, st)
    def merge(s, outs, st0):
        """merge normal outcomes which differ only in scalar return value and path condition"""
        rets = [o for o in outs if o.kind == 'ret']
        if len(rets) < 2: return outs
        others = [o for o in outs if o.kind != 'ret']
        base = st0.pc
        groups = []
        for o in rets:
            if len(o.state.pc) < len(base) or any(a is not b for a, b in zip(o.state.pc, base)): return outs
            v = o.val
            if isinstance(v, (Ptr, Opaque, VecVal, list, Fn, OffInt)) : return outs
            for g in groups:
                if s.mem_same(g[0].state, o.state, st0): g.append(o); break
            else: groups.append([o])
        if len(groups) == len(rets): return outs
        res = []
        for g in groups:
            if len(g) == 1: res.append(g[0]); continue
            st = g[0].state.copy(); st.pc = base
            if st.writes is not None:
                for o in g: st.writes = st.writes | o.state.writes
            conds = []
            for o in g:
                extra = [x for x in o.state.pc[len(base):]]
                conds.append(z3.And(*extra) if extra else z3.BoolVal(True))
            val = g[-1].val
            if val is not None:
                for o, c in list(zip(g, conds))[-2::-1]:
                    val = s.ite(c, o.val, val)
            st.assume(z3.Or(*conds))
            res.append(Outcome('ret', st, val))
        return res + others
    def mem_same(s, a, b, base):
        if a.cands is not b.cands or a.trace is not b.trace or a.ghost != b.ghost: return False
        for k in base.mem:
            x, y = a.mem.get(k), b.mem.get(k)
            if x is y: continue
            if x is None or y is None: return False
            if x.kind != y.kind: return False
            if x.kind == 'cells':
                o = base.mem.get(k)
                for off in set(x.d) | set(y.d):
                    if off == 'zero': continue
                    u, v = x.d.get(off), y.d.get(off)
                    if u is None or v is None:
                        return False
                    if not s.val_same(u, v): return False
            else:
                for off in set(x.f) | set(y.f):
                    u, v = x.f.get(off), y.f.get(off)
                    if u is None or v is None: return False
                    if isinstance(u, tuple) or isinstance(v, tuple):
                        if u is not v: return False
                    elif not u.eq(v): return False
        return True
    def val_same(s, u, v):
        if isinstance(u, Ptr) and isinstance(v, Ptr): return u.obj == v.obj and u.off == v.off and set(u.sym) == set(v.sym) and all(same(u.sym[k], v.sym[k]) for k in u.sym)
        if isinstance(u, VecVal) and isinstance(v, VecVal): return u.buf == v.buf and same(u.n, v.n)
        if isinstance(u, Fn) and isinstance(v, Fn): return u.name == v.name
        return same(u, v)
    def ite(s, c, a, b):
        if isbool(c): return a if c else b
        if a is None or b is None: return b if a is None else a
        if s.val_same(a, b): return a
        if isinstance(a, (Ptr, Opaque, VecVal, Fn)) or isinstance(b, (Ptr, Opaque, VecVal, Fn)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.obj is not None and (len(a.sym) <= 1 and len(b.sym) <= 1):
                ks = set(a.sym) | set(b.sym)
                if len(ks) == 1:
                    k = next(iter(ks))
                    if (a.off - b.off) % k == 0:
                        ia = iadd(a.sym.get(k, 0), (a.off - b.off) // k); ib = b.sym.get(k, 0)
                        return Ptr(a.obj, b.off, {k: z3.If(c, I(ia), I(ib))})
                if not ks and a.off == b.off: return a
            raise NeedSplit()
        if isinstance(a, list): return [s.ite(c, x, y) for x, y in zip(a, b)]
        if isbool(a) or isbool(b) or (z3.is_expr(a) and z3.is_bool(a)):
            return simp_b(z3.If(c, B(a), B(b)))
        if isinstance(a, Fraction) or isinstance(b, Fraction) or (z3.is_expr(a) and z3.is_real(a)) or (z3.is_expr(b) and z3.is_real(b)):
            return z3.If(c, R(a), R(b))
        return z3.If(c, I(a), I(b))

    def explore(s, f, start, prev, env, st, region, unroll=False):
        """run from block `start` (coming from prev). region: Loop whose body we stay in (start = header, phis already set in env)."""
        outs = []; hdrconc = False
        work = [(start, prev, 0, env, st, region is not None)]
        steps = 0
        while work:
            bname, prev, idx, env, st, skip_phi = work.pop()
            while True:
                if s.deadline and time.time() > s.deadline: raise Budget('time budget exhausted')
                b = f.blocks[bname]
                n = len(b.ins)
                if idx == 0:
                    if not skip_phi:
                        lp = f.loops.get(bname)
                        if lp is not None and not (region is not None and region.header == bname):
                            res = s.do_loop(f, lp, prev, env, st, region)
                            for o in res:
                                if o.kind in ('ret', 'throw'): outs.append(o)
                                elif o.kind == 'goto':
                                    if region is not None and o.block == region.header: outs.append(Outcome('back', o.state, None, o.block, o.prev, o.env))
                                    elif region is not None and o.block not in region.body: outs.append(Outcome('exit', o.state, None, o.block, o.prev, o.env))
                                    else: work.append((o.block, o.prev, 0, o.env, o.state, False))
                            break
                        if idx == 0: s.phis(f, b, prev, env, st)
                    while idx < n and b.ins[idx].op == 'phi': idx += 1
                    skip_phi = False
                stop = False
                while idx < n:
                    ins = b.ins[idx]; idx += 1
                    op = ins.op
                    if op in ('call', 'invoke'):
                        res = s.do_call(f, ins, env, st)
                        conts = []
                        for o in res:
                            if o.kind == 'ret':
                                e2 = env if len(res) == 1 else dict(env)
                                if ins.res is not None: e2[ins.res] = o.val
                                conts.append(('n', e2, o.state))
                            else:
                                if op == 'invoke':
                                    lpd = f.blocks[ins.x['unwind']]
                                    conts.append(('u', dict(env), o.state, o.val))
                                else: outs.append(Outcome('throw', o.state, o.val))
                        if op == 'call':
                            if not conts: stop = True; break
                            for c in conts[1:]: work.append((bname, prev, idx, c[1], c[2], False) if idx > 0 else None)
                            env, st = conts[0][1], conts[0][2]
                            continue
                        for c in conts:
                            if c[0] == 'n': s.goto(f, work, outs, region, ins.x['normal'], bname, c[1], c[2])
                            else:
                                c[1]['__exc'] = c[3]
                                s.goto(f, work, outs, region, ins.x['unwind'], bname, c[1], c[2])
                        stop = True; break
                    if op == 'br':
                        if ins.a is None:
                            tgt = ins.x[0]
                        else:
                            c = s.ev(st, env, ins.a[0])
                            if c is None: c = s.fresh('B', 'undefbr')
                            if isbool(c):
                                tgt = ins.x[0] if c else ins.x[1]
                                if unroll and region is not None and bname == region.header and (ins.x[0] not in region.body or ins.x[1] not in region.body): hdrconc = True
                            else:
                                leaves = unroll and region is not None and (ins.x[0] not in region.body or ins.x[1] not in region.body)
                                if leaves and bname == region.header: raise NeedInvariant()
                                a = s.feasible(st, c); bb = s.feasible(st, z3.Not(c)) if a else True
                                if leaves and a and bb and not hdrconc: raise NeedInvariant()
                                if a and bb:
                                    st2 = st.copy(); st2.assume(z3.Not(c)); s.goto(f, work, outs, region, ins.x[1], bname, dict(env), st2)
                                    st = st if False else st.copy(); st.assume(c); tgt = ins.x[0]
                                elif a: st = st.copy(); st.assume(c); tgt = ins.x[0]
                                else: st = st.copy(); st.assume(z3.Not(c)); tgt = ins.x[1]
                        s.goto(f, work, outs, region, tgt, bname, env, st); stop = True; break
                    if op == 'switch':
                        v = s.ev(st, env, ins.a[0])
                        d, cs = ins.x
                        if isnum(v) or isbool(v):
                            v = int(v)
                            tgt = d
                            for k, l in cs:
                                if k == v: tgt = l
                            s.goto(f, work, outs, region, tgt, bname, env, st)
                        else:
                            if z3.is_bool(v): v = z3.If(v, 1, 0)
                            neg = []
                            for k, l in cs:
                                if s.feasible(st, v == k):
                                    st2 = st.copy(); st2.assume(v == k); s.goto(f, work, outs, region, l, bname, dict(env), st2)
                                neg.append(v != k)
                            if s.feasible(st, z3.And(*neg)):
                                st2 = st.copy(); st2.assume(z3.And(*neg)); s.goto(f, work, outs, region, d, bname, dict(env), st2)
                        stop = True; break
                    if op == 'ret':
                        v = s.ev(st, env, ins.a[0]) if ins.a else None
                        outs.append(Outcome('ret', st, v)); stop = True; break
                    if op == 'unreachable': stop = True; break
                    if op == 'resume':
                        outs.append(Outcome('throw', st, env.get('__exc'))); stop = True; break
                    if op == 'landingpad':
                        res = s.landing(f, ins, env, st)
                        if res == 'cleanup-skip':
                            outs.append(Outcome('throw', st, env.get('__exc'))); stop = True; break
                        env[ins.res] = res
                        continue
                    if op == 'select':
                        c = s.ev(st, env, ins.a[0]); a = s.ev(st, env, ins.a[1]); bv = s.ev(st, env, ins.a[2])
                        if c is None: c = s.fresh('B', 'undef')
                        if isbool(c): env[ins.res] = a if c else bv
                        else:
                            try: env[ins.res] = s.ite(c, a, bv)
                            except NeedSplit:
                                if s.feasible(st, z3.Not(c)):
                                    e2 = dict(env); e2[ins.res] = bv; st2 = st.copy(); st2.assume(z3.Not(c)); work.append((bname, prev, idx, e2, st2, False))
                                if not s.feasible(st, c): stop = True; break
                                st = st.copy(); st.assume(c); env[ins.res] = a
                        continue
                    s.step(f, ins, env, st)
                if stop: break
                raise Unsupported('fell off block')
        return outs
    def goto(s, f, work, outs, region, tgt, prev, env, st):
        if region is not None:
            if tgt == region.header: outs.append(Outcome('back', st, None, tgt, prev, env)); return
            if tgt not in region.body: outs.append(Outcome('exit', st, None, tgt, prev, env)); return
        work.append((tgt, prev, 0, env, st, False))
    def phis(s, f, b, prev, env, st):
        vals = []
        for ins in b.ins:
            if ins.op != 'phi': break
            for v, l in ins.x:
                if l == prev: vals.append((ins.res, s.ev(st, env, v))); break
            else: raise Unsupported('phi without incoming')
        for r, v in vals: env[r] = v
    def landing(s, f, ins, env, st):
        exc = env.get('__exc')
        catches = [c for c in ins.x if c[0] == 'catch']
        if not catches: return 'cleanup-skip'
        # match by type
        for k, v in catches:
            if v.k == 'null': return [Opaque('exc'), 0]
            nm = v.v if v.k == 'glb' else ''
            if s.exc_matches(exc, nm): return [Opaque('exc'), ('tid', nm)]
        return 'cleanup-skip'
    def exc_matches(s, exc, nm):
        e = exc or ''
        if e == nm: return True
        base = {'_ZTISt9exception': lambda x: x.startswith('_ZTISt') or True}
        if nm == '_ZTISt9exception': return e != '_ZTIPKc' and e.startswith('_ZTI')
        if nm == '_ZTISt13runtime_error': return e in ('_ZTISt11range_error', '_ZTISt14overflow_error')
        if nm == '_ZTISt11logic_error': return e in ('_ZTISt16invalid_argument', '_ZTISt12out_of_range', '_ZTISt12length_error', '_ZTISt12domain_error')
        return False

    def do_call(s, f, ins, env, st):
        cal = ins.x['callee']
        if cal.k == 'glb': name = cal.v
        elif cal.k == 'undef': return [Outcome('ret', st, None)]
        else:
            fp = s.ev(st, env, cal)
            if isinstance(fp, Fn): name = fp.name
            else: raise Unsupported(f'indirect call through {fp!r} at {s.loc(f, ins)}')
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith('llvm.experimental.noalias'): return [Outcome('ret', st, None)]
        args = [s.ev(st, env, a) for a in ins.a]
        return s.call(st, name, args, s.loc(f, ins))

    def tosigned(s, x, w):
        """wrap x into canonical signed of width w, only when concrete"""
        if isnum(x):
            x &= (1 << w) - 1
            return x - (1 << w) if x >> (w - 1) else x
        return x
    def unsigned(s, x, w):
        if isnum(x): return x & ((1 << w) - 1)
        # cheap: z3 If
        return z3.If(x < 0, x + (1 << w), x)

    def step(s, f, ins, env, st):
        op = ins.op
        ev = s.ev
        if op == 'alloca':
            t = ins.ty
            if ins.a:
                n = ev(st, env, ins.a[0])
                if not (isnum(n) and n == 1):
                    env[ins.res] = Ptr(s.new_arr(st, s.M.sizeof(t), 'vla')); return
            rt = s.M.resolve(t)
            if rt.k == 'array' and rt.a > 64:
                env[ins.res] = Ptr(s.new_arr(st, s.M.sizeof(rt.b), 'larr')); return
            o = s.new_obj(st, Cells({}, None, 'stk'))
            s.atypes[o] = t
            env[ins.res] = Ptr(o); return
        if op == 'load':
            p = ev(st, env, ins.a[0])
            env[ins.res] = s.load(st, p, ins.ty); return
        if op == 'store':
            v = ev(st, env, ins.a[0]); p = ev(st, env, ins.a[1])
            s.store(st, p, v, ins.ty); return
        if op == 'getelementptr':
            p = ev(st, env, ins.a[0])
            env[ins.res] = s.gep(ins.ty, p, [ev(st, env, x) for x in ins.a[1:]]); return
        if op in ir.BIN:
            a = ev(st, env, ins.a[0]); b = ev(st, env, ins.a[1])
            env[ins.res] = s.binop(st, op, a, b, ins.ty, f, ins); return
        if op == 'fneg':
            env[ins.res] = rneg(s.num(ev(st, env, ins.a[0]))); return
        if op == 'icmp':
            env[ins.res] = s.icmp(st, ins.x, ev(st, env, ins.a[0]), ev(st, env, ins.a[1]), ins.ty); return
        if op == 'fcmp':
            a, b = s.num(ev(st, env, ins.a[0])), s.num(ev(st, env, ins.a[1]))
            c = ins.x
            if c == 'uno' or c == 'false': env[ins.res] = False
            elif c == 'ord' or c == 'true': env[ins.res] = True
            else: env[ins.res] = cmpv(c[1:], a, b, True)
            return
        if op in ir.CAST:
            env[ins.res] = s.cast(st, op, ev(st, env, ins.a[0]), ins.a[0].t, ins.ty); return
        if op == 'freeze': env[ins.res] = ev(st, env, ins.a[0]); return
        if op == 'extractvalue':
            v = ev(st, env, ins.a[0])
            for i in ins.x: v = v[i] if v is not None else None
            env[ins.res] = v; return
        if op == 'insertvalue':
            v = ev(st, env, ins.a[0]); t = s.M.resolve(ins.ty)
            if v is None: v = s.undef_agg(t)
            v = s.insv(v, ins.x, ev(st, env, ins.a[1]), t)
            env[ins.res] = v; return
        raise Unsupported(f'instruction {op} {ins.text or ""}')
    def undef_agg(s, t):
        t = s.M.resolve(t)
        if t.k == 'struct': return [None] * len(t.a)
        if t.k == 'array': return [None] * t.a
        return None
    def insv(s, v, path, x, t):
        v = list(v)
        if len(path) == 1: v[path[0]] = x
        else:
            t2 = s.M.resolve(t); sub = t2.a[path[0]] if t2.k == 'struct' else t2.b
            cur = v[path[0]] if v[path[0]] is not None else s.undef_agg(sub)
            v[path[0]] = s.insv(cur, path[1:], x, sub)
        return v
    def num(s, v):
        if v is None: return s.fresh('R', 'undef')
        if isinstance(v, (Opaque, Ptr)): raise Unsupported('pointer used as number')
        return v
    def binop(s, st, op, a, b, ty, f, ins):
        if op[0] == 'f' and op != 'freeze':
            a, b = s.num(a), s.num(b)
            if isinstance(a, list): # vector op
                return [s.binop(st, op, x, y, ty.b, f, ins) for x, y in zip(a, b)]
            if op == 'fadd': return radd(a, b)
            if op == 'fsub': return rsub(a, b)
            if op == 'fmul': return rmul(a, b)
            if op == 'fdiv':
                if s.opts.get('check_div') and not st.obl_off:
                    s.oblige(st, cmpv('ne', b, 0, True), 'division-defined', 'div', s.loc(f, ins))
                return rdiv(a, b)
            raise Unsupported(op)
        w = ty.a
        if a is None or b is None:
            return s.fresh('B' if w == 1 else 'I', 'undef')
        if w == 1:
            a, b = (x != 0 if isnum(x) else x for x in (a, b))
            if op == 'and': return land(a, b)
            if op == 'or': return lor(a, b)
            if op == 'xor':
                if isbool(a): return lnot(b) if a else b
                if isbool(b): return lnot(a) if b else a
                return z3.Xor(a, b)
            raise Unsupported('i1 ' + op)
        if isinstance(a, OffInt) or isinstance(b, OffInt):
            if op == 'sub' and isinstance(a, OffInt) and isinstance(b, OffInt):
                pa, pb = a.p, b.p
                if isinstance(pa, Ptr) and isinstance(pb, Ptr) and pa.obj == pb.obj: return s.ptr_diff(pa, pb)
            raise Unsupported(f'pointer arithmetic on integers {op} {a} {b} {getattr(a,"p",None)} {getattr(b,"p",None)} {f.name[:80] if f else None}')
        if isinstance(a, (Opaque, Ptr, tuple)) or isinstance(b, (Opaque, Ptr, tuple)): raise Unsupported('int op on pointer')
        if op == 'add': return s.tosigned(iadd(a, b), w)
        if op == 'sub': return s.tosigned(isub(a, b), w)
        if op == 'mul': return s.tosigned(imul(a, b), w)
        if op == 'sdiv':
            if both(a, b) and b != 0:
                q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q
            if 'exact' in ins.x and isnum(b) and b > 0:
                return simp_int(s.exact_div(a, b))
            x, y = I(a), I(b)
            return simp_int(z3.If(x >= 0, x / y, -((-x) / y)))
        if op == 'srem':
            if both(a, b) and b != 0:
                r = abs(a) % abs(b); return r if a >= 0 else -r
            x, y = I(a), I(b)
            ay = abs(b) if isnum(b) else z3.If(y >= 0, y, -y)
            return z3.If(x >= 0, x % ay, -((-x) % ay))
        if op in ('udiv', 'urem'):
            ua, ub = s.unsigned(a, w), s.unsigned(b, w)
            if both(ua, ub): return ua // ub if op == 'udiv' else ua % ub
            return I(ua) / I(ub) if op == 'udiv' else I(ua) % I(ub)
        if op == 'shl':
            if isnum(b): return s.tosigned(imul(a, 1 << b), w)
            if isnum(a) and a == 1:
                raise Unsupported('symbolic shift')
        if op in ('ashr', 'lshr'):
            if isnum(b):
                if isnum(a): return (a >> b) if op == 'ashr' else (s.unsigned(a, w) >> b)
                if 'exact' in ins.x: return simp_int(s.exact_div(a, 1 << b))
                x = I(a) if op == 'ashr' else s.unsigned(a, w)
                return x / (1 << b)
        if both(a, b):
            m = (1 << w) - 1
            r = {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
            return s.tosigned(r, w)
        if op == 'and':
            if isnum(a): a, b = b, a
            if isnum(b):
                if b == -1: return a
                if b > 0 and (b & (b + 1)) == 0: return I(a) % (b + 1)
                if b == 0: return 0
        if op == 'or' or op == 'xor':
            if isnum(a): a, b = b, a
            if isnum(b) and b == 0: return a
            if op == 'xor' and isnum(b) and b == -1: return simp_int(-I(a) - 1)
            if op == 'or' and isnum(b) and b > 0:
                pass
        # bool-ish bytes
        ba, bb = s.boolish(a), s.boolish(b)
        if ba is not None and bb is not None:
            r = z3.And(ba, bb) if op == 'and' else z3.Or(ba, bb) if op == 'or' else z3.Xor(ba, bb)
            return z3.If(r, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported(f'bit operation {op} on symbolic i{w}')
    def boolish(s, v):
        if isnum(v) and v in (0, 1): return z3.BoolVal(v == 1)
        if z3.is_expr(v) and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)) and v.arg(1).as_long() == 1 and v.arg(2).as_long() == 0: return v.arg(0)
        return None
    def exact_div(s, a, b):
        if isnum(a): return a // b
        # syntactic division of a sum of multiples
        e = z3.simplify(a)
        def div(e):
            if z3.is_int_value(e):
                v = e.as_long()
                return z3.IntVal(v // b) if v % b == 0 else None
            k = e.decl().kind()
            if k == z3.Z3_OP_ADD:
                ps = [div(c) for c in e.children()]
                if any(p is None for p in ps): return None
                return z3.Sum(*ps) if len(ps) > 1 else ps[0]
            if k == z3.Z3_OP_MUL:
                ch = e.children()
                for i, c in enumerate(ch):
                    if z3.is_int_value(c) and c.as_long() % b == 0:
                        rest = ch[:i] + ch[i+1:]
                        r = z3.IntVal(c.as_long() // b)
                        for x in rest: r = r * x
                        return r
                return None
            if k == z3.Z3_OP_ITE:
                x, y = div(e.arg(1)), div(e.arg(2))
                if x is None or y is None: return None
                return z3.If(e.arg(0), x, y)
            if k == z3.Z3_OP_UMINUS:
                x = div(e.arg(0)); return -x if x is not None else None
            return None
        r = div(e)
        if r is not None: return r
        return I(a) / b
    def icmp(s, st, c, a, b, ty):
        if ty.k == 'ptr' or isinstance(a, (Ptr, Opaque, Fn)) or isinstance(b, (Ptr, Opaque, Fn)):
            if c == 'eq': return s.ptr_eq(a, b)
            if c == 'ne': return lnot(s.ptr_eq(a, b))
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                return cmpv({'ult': 'lt', 'ule': 'le', 'ugt': 'gt', 'uge': 'ge'}[c], s.ptr_diff(a, b), 0, False)
            raise Unsupported('pointer ordering')
        if isinstance(a, OffInt) and isinstance(b, OffInt): return s.icmp(st, c, a.p, b.p, T('ptr'))
        if isinstance(a, tuple) or isinstance(b, tuple):   # typeid selector compare
            if isinstance(a, tuple) and isinstance(b, tuple):
                r = a == b
                return r if c == 'eq' else not r
            r = False
            return r if c == 'eq' else not r
        if a is None or b is None: return s.fresh('B', 'undef')
        w = ty.a
        if w == 1:
            a, b = (x != 0 if isnum(x) else x for x in (a, b))
            if c in ('eq', 'ne'):
                if isbool(b): r = a if b else lnot(a)
                elif isbool(a): r = b if a else lnot(b)
                else: r = a == b
                return r if c == 'eq' else lnot(r)
            raise Unsupported('i1 icmp ' + c)
        ba = s.boolish(a) if not isnum(a) else None
        if ba is not None and isnum(b) and c in ('eq', 'ne'):
            r = ba if b == 1 else z3.Not(ba) if b == 0 else False
            return r if c == 'eq' else lnot(r)
        if c[0] == 'u':
            a, b = s.unsigned_cmp(st, a, w), s.unsigned_cmp(st, b, w)
        m = {'eq': 'eq', 'ne': 'ne', 'slt': 'lt', 'sle': 'le', 'sgt': 'gt', 'sge': 'ge', 'ult': 'lt', 'ule': 'le', 'ugt': 'gt', 'uge': 'ge'}[c]
        return cmpv(m, a, b, False)
    def unsigned_cmp(s, st, x, w):
        if isnum(x): return x & ((1 << w) - 1)
        if s.nonneg(st, x): return x
        return z3.If(x < 0, x + (1 << w), x)
    def nonneg(s, st, x):
        return s.pure_unsat(list(st.pc) + [z3.simplify(x < 0)])
    def cast(s, st, op, v, ft, tt):
        if v is None: return s.fresh_of(tt, 'undef')
        if op == 'ptrtoint': return OffInt(v) if isinstance(v, Ptr) and v.obj is not None else (0 if isinstance(v, Ptr) else OffInt(v))
        if op == 'inttoptr':
            if isinstance(v, OffInt): return v.p
            if isnum(v) and v == 0: return NULL
            raise Unsupported('inttoptr')
        if op == 'bitcast':
            if s.M.resolve(ft).k == s.M.resolve(tt).k: return v
            raise Unsupported('bitcast between int and double')
        if op in ('fptrunc', 'fpext'): return v
        if op in ('sext', 'zext', 'trunc') and isinstance(v, OffInt): return v
        if op == 'sext':
            if ft.a == 1:
                if isbool(v): return -1 if v else 0
                return z3.If(v, z3.IntVal(-1), z3.IntVal(0))
            return v
        if op == 'zext':
            if ft.a == 1:
                if isbool(v): return 1 if v else 0
                if isnum(v): return v
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if isnum(v): return v & ((1 << ft.a) - 1)
            if s.boolish(v) is not None: return v
            if s.nonneg(st, v): return v
            return z3.If(v < 0, v + (1 << ft.a), v)
        if op == 'trunc':
            if tt.a == 1:
                if isnum(v): return (v & 1) == 1
                b = s.boolish(v)
                if b is not None: return b
                return I(v) % 2 == 1 if ft.a != 8 else v != 0
            if isnum(v): return s.tosigned(v, tt.a)
            if s.boolish(v) is not None: return v
            s.assumed.add('integer truncation is assumed value-preserving (no sizes beyond 2^31)')
            st.assume(s.int_range(v, tt.a))
            return v
        if op in ('sitofp', 'uitofp'):
            if isbool(v): return Q(int(v))
            if isnum(v): return Q(v if op == 'sitofp' else v & ((1 << ft.a) - 1))
            if z3.is_bool(v): return z3.If(v, z3.RealVal(1 if op == 'uitofp' else -1), z3.RealVal(0))
            if op == 'uitofp' and not s.nonneg(st, v): return z3.ToReal(z3.If(v < 0, v + (1 << ft.a), v))
            return z3.ToReal(v)
        if op in ('fptosi', 'fptoui'):
            if isnum(v): return int(v)
            s.assumed.add('floating to integer conversion is assumed in range')
            x = R(v)
            r = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
            st.assume(s.int_range(r, tt.a))
            return r
        raise Unsupported('cast ' + op)

    # ------------------------------------------------------------ loops
    def do_loop(s, f, lp, prev, env, st, outer):
        """returns outcomes: ret/throw, or goto (block outside the loop)"""
        limit = s.opts.get('unroll', 40)
        # attempt concrete unrolling
        try: return s.unroll(f, lp, prev, dict(env), st.copy(), limit)
        except NeedInvariant: pass
        return s.inv_loop(f, lp, prev, env, st)
    def unroll(s, f, lp, prev, env, st, limit):
        nob = len(s.obls); nm = len(s.models)
        outs = []
        hb = f.blocks[lp.header]
        try:
            cur = [(prev, env, st)]
            for it in range(limit + 1):
                nxt = []
                for (pv, e, t) in cur:
                    s.phis(f, hb, pv, e, t)
                    res = s.explore(f, lp.header, pv, e, t, lp, unroll=True)
                    for o in res:
                        if o.kind == 'back': nxt.append((o.prev, o.env, o.state))
                        elif o.kind == 'exit': outs.append(Outcome('goto', o.state, None, o.block, o.prev, o.env))
                        else: outs.append(o)
                if not nxt: return outs
                if len(nxt) > 64: raise NeedInvariant()
                cur = nxt
            raise NeedInvariant()
        except (NeedInvariant,):
            del s.obls[nob:]; del s.models[nm:]
            raise
    def havoc_val(s, st, v, backs, hint):
        """fresh value of the same shape as v; backs = values seen at back edges (for pointers)"""
        if isinstance(v, (bool,)) or (z3.is_expr(v) and z3.is_bool(v)): return s.fresh('B', hint)
        if isinstance(v, Fraction) or (z3.is_expr(v) and z3.is_real(v)): return s.fresh('R', hint)
        if isnum(v) or (z3.is_expr(v) and z3.is_int(v)): return s.fresh('I', hint)
        if isinstance(v, VecVal):
            return v
        if isinstance(v, Ptr):
            for b in backs:
                if not isinstance(b, Ptr) or b.obj != v.obj: return Opaque('ptr-havoc')
            if v.obj is None: return v
            strides = set(v.sym)
            offs = {v.off}
            for b in backs: strides |= set(b.sym); offs.add(b.off)
            if not strides:
                if len(offs) == 1: return v
            if len(strides) > 1: raise Unsupported('pointer with several strides in loop')
            k = next(iter(strides)) if strides else None
            if k is None:
                o = st.mem.get(v.obj)
                if o is not None and o.kind == 'arr': k = o.stride
                elif isinstance(v.obj, SubBuf): k = s.nested_field(st, v.obj.obj, v.obj.inner)[2]
                else:
                    g = 0
                    ol = sorted(offs)
                    for x in ol[1:]: g = math.gcd(g, x - ol[0])
                    k = g
            for x in offs:
                if (x - v.off) % k: raise Unsupported('pointer offsets incongruent')
            return Ptr(v.obj, v.off % k, {k: s.fresh('I', hint)})
        if v is None: return None
        if isinstance(v, list): return [s.havoc_val(st, x, [b[i] for b in backs if isinstance(b, list)], hint) for i, x in enumerate(v)]
        if isinstance(v, (Opaque, Fn)): return v
        raise Unsupported(f'havoc of {v!r}')
    def store_idxs(s, new, old, cnt0, cap=6):
        """indices written between two versions of one array when all are fixed before the loop, else None"""
        idx = {}
        while not new.eq(old):
            if not z3.is_store(new): return None
            i = z3.simplify(new.arg(1))
            if i.get_id() not in idx:
                if len(idx) >= cap or not s.old_term(i, cnt0): return None
                idx[i.get_id()] = i
            new = new.arg(0)
        return idx
    def old_term(s, e, cnt0):
        seen = set(); stack = [e]
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                m = re.search(r'!(e?)(\d+)$', x.decl().name())
                if not m or int(m.group(2)) > cnt0: return False
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0: return False
            stack.extend(x.children())
        return True
    def loop_term(s, e, cnt0, p):
        """e is built from the counter p and from values that exist before the loop"""
        seen = set(); stack = [e]
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if x.eq(p): continue
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name(); m = re.search(r'!(e?)(\d+)$', n)
                if m and int(m.group(2)) > cnt0: return False
            elif not z3.is_app(x): return False
            stack.extend(x.children())
        return True
    def def_stores(s, hst, backs, hv, writes, cnt0):
        """arrays written once per iteration, at the counter, with a value that depends on the counter and on older values only"""
        out = []
        ints = [(n, v) for n, v in hv.items() if z3.is_expr(v) and z3.is_int(v) and z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED]
        for (oid, key) in sorted(writes, key=str):
            o = hst.mem.get(oid)
            if o is None or o.kind == 'cells': continue
            a = o.f.get(key)
            if isinstance(a, tuple): continue
            got = []; pn = None; exact = True
            for b in backs:
                ob = b.state.mem.get(oid)
                c = ob.f.get(key) if ob is not None and ob.kind != 'cells' else None
                if c is None or isinstance(c, tuple) or not z3.is_store(c) or (a is not None and not c.arg(0).eq(a)): got = None; break
                # an unsigned counter is read back zero-extended: the counter itself, once it is known to be >= 0
                zx = [(z3.simplify(z3.If(x < 0, x + 2**k, x)), x) for _, x in ints for k in (32, 64)]
                nz = lambda e: z3.simplify(z3.substitute(z3.simplify(e), *zx)) if zx else z3.simplify(e)
                i = nz(c.arg(1)); v = nz(c.arg(2))
                m = [(n, x) for n, x in ints if x.eq(i)]
                if not m or (pn and pn[0] != m[0][0]): got = None; break
                pn = m[0]
                conj = [nz(B(q)) for q in b.state.pc[len(hst.pc):]]
                keep = [q for q in conj if s.loop_term(q, cnt0, pn[1])]
                if not s.loop_term(v, cnt0, pn[1]): got = None; break
                nx = b.all().get(pn[0])
                got.append((z3.simplify(z3.And(*keep)) if keep else z3.BoolVal(True), v, len(keep) == len(conj), z3.is_expr(nx) and nz(nx - pn[1] - 1).eq(z3.IntVal(0))))
            if not got: continue
            val = got[-1][1]
            # one value on every path of the body, stored at the counter, which then goes up by one: an invariant by construction
            exact = all(g[3] and (g[2] or g[1].eq(val)) for g in got) and (all(g[1].eq(val) for g in got) or all(g[2] for g in got))
            for c, v, _, _ in reversed(got[:-1]):
                if not v.eq(val): val = z3.If(c, v, val)
            out.append((oid, key, pn[0], pn[1], val, exact))
        return out
    def def_cands(s, entry, dstores):
        cs = []
        for oid, key, pn, p, val, exact in dstores:
            try: lo = I(entry.int(pn))
            except CandSkip: continue
            def fn(w, oid=oid, key=key, pn=pn, p=p, val=val, lo=lo):
                o = w.state.mem.get(oid); a = o.f.get(key) if o is not None and o.kind != 'cells' else None
                if isinstance(a, tuple): raise CandSkip()
                if a is None: a = s.arr_field(w.state, oid, key, val.sort())
                s.cnt += 1; nm = f'Q!{s.cnt}'; q = z3.Bool(nm)
                def body(k):
                    e = z3.Select(a, k); v = z3.substitute(val, (p, k)); c = e == v
                    # the square of a quotient of roots
                    isrt = lambda t: z3.is_app(t) and t.decl().name() == 'f_sqrt'
                    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_DIV and isrt(v.arg(1)):
                        n, y = v.arg(0), v.arg(1).arg(0)
                        if isrt(n): c = z3.And(c, z3.Implies(z3.And(n.arg(0) >= 0, y > 0), z3.And(e * e * y == n.arg(0), e >= 0)))
                        else: c = z3.And(c, z3.Implies(y > 0, e * e * y == n * n), z3.Implies(y == 1, e == n))
                    return c
                s.qrecs[nm] = QRec(q, lo, I(w.int(pn)), body, 1)
                return q
            cs.append(Cand(f'stored[{oid}.{key}]', fn)); cs[-1].sure = exact and z3.is_int_value(z3.simplify(lo)) and z3.simplify(lo).as_long() >= 0
        return cs
    def array_frames(s, hst, backs, writes, cnt0):
        fr = {}
        for (oid, key) in writes:
            o = hst.mem.get(oid)
            if o is None or o.kind == 'cells': continue
            a = o.f.get(key)
            if a is None or isinstance(a, tuple): continue
            idx = {}
            for b in backs:
                ob = b.state.mem.get(oid)
                c = ob.f.get(key) if ob is not None and ob.kind != 'cells' else None
                r = s.store_idxs(c, a, cnt0) if c is not None and not isinstance(c, tuple) else None
                if r is None: idx = None; break
                idx.update(r)
            if idx: fr[(oid, key)] = [idx[k] for k in sorted(idx)]
        return fr
    def havoc_mem(s, st, writes, backstates, frames={}):
        for (oid, key) in sorted(writes, key=str):
            o = st.mem.get(oid)
            if o is None: continue
            n = o.copy()
            if o.kind == 'cells':
                v = o.d.get(key)
                bv = [b.mem[oid].d.get(key) for b in backstates if oid in b.mem]
                if v is None:
                    # first written inside the loop: unknown at the header
                    n.d.pop(key, None)
                    cand = [x for x in bv if x is not None]
                    if cand and not isinstance(cand[0], (Ptr, VecVal, Opaque, Fn)): n.d[key] = s.havoc_val(st, cand[0], [], f'h{key}')
                    elif cand and isinstance(cand[0], VecVal): pass
                elif isinstance(v, VecVal):
                    bufs = [b.buf for b in bv if isinstance(b, VecVal)]
                    stride = st.mem[v.buf].stride if not isinstance(v.buf, SubBuf) else s.nested_field(st, v.buf.obj, v.buf.inner)[2]
                    ln = s.fresh('I', 'hlen')
                    if all(x == v.buf for x in bufs):
                        if all(isinstance(b, VecVal) and same(b.n, v.n) for b in bv): ln = v.n
                        n.d[key] = VecVal(v.buf, ln)
                    else:
                        st.mem[oid] = n
                        nb = s.new_arr(st, stride, 'hvec'); n.d[key] = VecVal(nb, ln)
                    if z3.is_expr(ln): st.assume(ln >= 0)
                else:
                    n.d[key] = s.havoc_val(st, v, bv, f'h{key}')
                st.mem[oid] = n
            else:
                a = o.f.get(key)
                s.cnt += 1; n.epf = {**n.epf, key: s.cnt}
                if a is None: st.mem[oid] = n; continue
                if isinstance(a, tuple):
                    if a[0] == 'const': continue
                    s.cnt += 1
                    n.f[key] = ('vec', z3.Array(f'hl{oid}.{key}!{s.cnt}', z3.IntSort(), z3.IntSort()), a[2], {io: z3.Const(f'ha{oid}.{key}.{io}!{s.cnt}', x.sort()) for io, x in a[3].items()})
                else:
                    s.cnt += 1
                    h = z3.Const(f'h{oid}.{key}!{s.cnt}', a.sort())
                    if (oid, key) in frames:
                        na = a
                        for i in frames[(oid, key)]: na = z3.Store(na, i, z3.Select(h, i))
                        h = na
                    n.f[key] = h
                st.mem[oid] = n
    def header_state(s, f, lp, env0, st0, phivals, writes, backs, frames={}):
        """havoc phis + memory"""
        st = st0.copy()
        s.havoc_mem(st, writes, [b.state for b in backs], frames)
        env = dict(env0)
        hb = f.blocks[lp.header]
        for r, v0 in phivals.items():
            bvs = [b.phis[r] for b in backs]
            h = s.havoc_val(st, v0, bvs, 'p' + r)
            env[r] = h
        return env, st
    def inv_loop(s, f, lp, prev, env0, st0):
        hb = f.blocks[lp.header]
        phis = [i for i in hb.ins if i.op == 'phi']
        phivals = {}
        for i in phis:
            for v, l in i.x:
                if l == prev: phivals[i.res] = s.ev(st0, env0, v)
        # --- 1. modified set (dry run to a fixed point)
        writes = set(); backs = []
        existing = set(st0.mem.keys())
        frames = {}; cnt0 = s.cnt
        for rnd in range(6):
            env, st = s.header_state(f, lp, env0, st0, phivals, writes, backs, frames)
            hst = st.copy()
            st.writes = frozenset(); st.obl_off = True; st.dry = True
            res = s.explore(f, lp.header, prev, env, st, lp)
            w2 = set(writes); nb = []
            for o in res:
                if o.kind != 'back': continue
                for (oid, key) in (o.state.writes or ()):
                    if oid in existing or (isinstance(oid, str)): w2.add((oid, key))
                if o.kind == 'back':
                    nb.append(s.back_view(f, lp, o))
            stable = w2 == writes and rnd > 0 and len(nb) == len(backs) and all(s.same_shapes(a, b) for a, b in zip(nb, backs))
            fr2 = s.array_frames(hst, nb, w2, cnt0)
            hv0 = View(s, f, lp, env, hst, {r: env[r] for r in phivals}, writes).all()
            bvs = [s.back_view(f, lp, o, writes).all() for o in res if o.kind == 'back']
            carried = {n for n, v in hv0.items() if z3.is_expr(v) and any(z3.is_expr(b.get(n)) and s.mentions(b[n], v) for b in bvs)}
            if stable and {k: [x.get_id() for x in v] for k, v in fr2.items()} != {k: [x.get_id() for x in v] for k, v in frames.items()}: stable = False
            if rnd >= 3: fr2 = {k: v for k, v in fr2.items() if k in frames and len(v) == len(frames[k])}
            writes = w2; backs = nb; frames = fr2
            if stable:
                dstores = s.def_stores(hst, nb, hv0, w2, cnt0) if s.opts.get('defstore') else []
                break
        else: raise Unsupported(f'modified set of loop {s.short(f.name)}:{lp.header} does not stabilise')
        dry = st0.dry
        # --- 2. candidates
        entry = View(s, f, lp, env0, st0, phivals, writes)
        env, st = s.header_state(f, lp, env0, st0, phivals, writes, backs, frames)
        hview = View(s, f, lp, env, st, {r: env[r] for r in phivals}, writes)
        survivors = []
        outer0 = s.outerphis
        outer1 = outer0 + [v for n, v in hview.all().items() if z3.is_expr(v) and z3.is_int(v) and n in carried]
        if not dry:
            cands = s.candidates(f, lp, entry, hview, st0) + s.def_cands(entry, dstores)
            ckey = (f.name, lp.header, tuple(s.callstack), len(outer0))
            if ckey in s.invcache and st0.obl_off:
                cands = [c for c in cands if c.name in s.invcache[ckey]]
            # initial check
            alive = []
            for c in cands:
                try: g = c.fn(entry)
                except (Unsupported, CandSkip): continue
                r = c.sure or s.quick_prove(st0, g) # (an empty range)
                if s.opts.get('canddbg') and '[' in c.name: print('   init', c.name, r)
                if r: alive.append(c)
            # inductive check (Houdini)
            rnd = 0
            body_outs = None
            while True:
                rnd += 1
                st_h = st.copy(); st_h.writes = frozenset(); st_h.obl_off = True
                hfacts = []
                al2 = []
                for c in alive:
                    try: g = c.fn(hview)
                    except (Unsupported, CandSkip): continue
                    hfacts.append(g); al2.append(c)
                alive = al2
                for g in hfacts: st_h.assume(g)
                s.outerphis = outer1
                try: res = s.explore(f, lp.header, prev, dict(env), st_h, lp)
                finally: s.outerphis = outer0
                bad = set()
                for o in res:
                    if o.kind != 'back': continue
                    bv = s.back_view(f, lp, o, writes)
                    for ci, c in enumerate(alive):
                        if ci in bad: continue
                        try: g = c.fn(bv)
                        except (Unsupported, CandSkip) as ex:
                            bad.add(ci)
                            if s.opts.get('canddbg') and '[' in c.name: print('   drop', c.name, ex)
                            continue
                        if not (c.sure and (c.name.startswith('stored'))) and not s.quick_prove(o.state, g):
                            bad.add(ci)
                            if s.opts.get('canddbg') and '[' in c.name: print('   not inductive', c.name, s.showq(g))
                if not bad: break
                alive = [c for i, c in enumerate(alive) if i not in bad]
                if rnd > 25: alive = []; break
            survivors = alive
            s.invcache[ckey] = {c.name for c in survivors}
        # --- 3. final pass
        st_f = st.copy()
        st_f.writes = frozenset()
        nm = 0
        for c in survivors:
            try: st_f.assume(c.fn(hview)); nm += 1
            except (Unsupported, CandSkip): pass
        if not dry and not st0.obl_off:
            for c in survivors:
                s.obls.append(Obl(f'loop-invariant {c.name}', 'invariant', f'{s.short(f.name)}:{lp.header}', 'valid', 'z3', 0.0, ''))
            s.invlog.append((s.short(f.name), lp.header, [c.name for c in survivors]))
            if s.verbose: print(f'  loop {s.short(f.name)}:{lp.header} invariants: {[c.name for c in survivors]}')
        s.outerphis = outer1
        try: res = s.explore(f, lp.header, prev, dict(env), st_f, lp)
        finally: s.outerphis = outer0
        outs = []
        for o in res:
            if o.kind == 'back':
                for (oid, key), ix in frames.items():
                    r = s.store_idxs(o.state.mem[oid].f[key], st.mem[oid].f[key], cnt0)
                    if r is None or not set(r) <= {x.get_id() for x in ix}: raise Unsupported('loop writes outside its array frame')
                if not {w for w in o.state.writes if w[0] in existing or isinstance(w[0], str)} <= writes: raise Unsupported('loop writes outside its modified set')
                continue
            o.state.writes = (st0.writes | writes | o.state.writes) if st0.writes is not None else None
            if o.kind == 'exit': outs.append(Outcome('goto', o.state, None, o.block, o.prev, o.env))
            else: outs.append(o)
        return outs
    def showq(s, g):
        g = z3.simplify(B(g)); n = g.decl().name()
        if n in s.qrecs:
            r = s.qrecs[n]; return f'[{r.lo},{r.hi}) ' + z3.simplify(r.body(*[z3.Int(f'k{i}') for i in range(r.arity)])).sexpr().replace(chr(10), ' ')[:s.opts.get("showlen", 400)]
        return g.sexpr().replace(chr(10), ' ')[:s.opts.get("showlen", 400)]
    def same_shapes(s, a, b):
        for r in a.phis:
            x, y = a.phis[r], b.phis.get(r)
            if type(x) != type(y) and not (z3.is_expr(x) and isnum(y)) and not (isnum(x) and z3.is_expr(y)): return False
            if isinstance(x, Ptr) and x.obj != y.obj: return False
        return True
    def back_view(s, f, lp, o, writes=None):
        vals = {}
        for i in f.blocks[lp.header].ins:
            if i.op != 'phi': break
            for v, l in i.x:
                if l == o.prev: vals[i.res] = s.ev(o.state, o.env, v)
        v = View(s, f, lp, o.env, o.state, vals, writes or set())
        return v
    @staticmethod
    def mentions(e, x):
        seen = set(); todo = [e]
        while todo:
            y = todo.pop()
            if y.eq(x): return True
            if y.get_id() in seen: continue
            seen.add(y.get_id()); todo.extend(y.children())
        return False
    def quick_prove(s, st, g):
        if isbool(g): return g
        r = s.prove_q(st, g)
        return r
    def prove_q(s, st, g):
        if s.deadline and time.time() > s.deadline: raise Budget('time budget exhausted')
        if z3.is_true(z3.simplify(g)): return True
        if s.opts.get('candlin') == 2:
            cj = s.conjuncts(z3.simplify(g))
            if len(cj) > 1:
                cj.sort(key=lambda c: 0 if s.is_pure(c) else 1)
                return all(s.prove_q(st, c) for c in cj)
        facts = list(st.pc) + s.eager; ng = z3.Not(g)
        if s.pure_unsat(facts + [ng]): return True
        if s.opts.get('candlin') == 2:
            for d in (1,) if s.is_pure(g) and not s.has_q(g) else (1, 2):
                ex = s.closure(facts, ng, depth=d)
                if s.check(facts + [ng] + ex, 700)[0] == z3.unsat: return True
                s.lin_quick = not s.opts.get('slowcand')
                try:
                    if s.lin_unsat(facts + [ng] + ex, 500): return True
                finally: s.lin_quick = False
            return False
        r, sol = s.check(facts + [ng], 800)
        if r == z3.unsat: return True
        d = s.opts.get('cand_depth', 2)
        ex = s.closure(facts, ng, depth=1)
        if ex:
            r, sol = s.check(facts + [ng] + ex, 1500)
            if r == z3.unsat: return True
            if d > 1:
                ex = s.closure(facts, ng, depth=d)
                r, sol = s.check(facts + [ng] + ex, s.opts.get('cand_timeout', 2500))
                if r == z3.unsat: return True
            if s.opts.get('candlin') and s.lin_unsat(facts + [ng] + ex, 2000): return True
        return False
    def candidates(s, f, lp, entry, hv, st0):
        cs = []
        # integer relations
        pool = hv.int_pool()
        pool0 = {k: v for k, v in entry.int_pool()}
        base = []
        for nm, v in pool:
            if nm not in pool0: continue
            i0 = pool0[nm]
            cs.append(Cand(f'{nm}>=init', lambda w, nm=nm, i0=i0: cmpv('ge', w.int(nm), i0, False)))
            cs.append(Cand(f'{nm}<=init', lambda w, nm=nm, i0=i0: cmpv('le', w.int(nm), i0, False)))
        terms = s.bound_terms(f, lp, entry, st0)
        for nm, v in pool:
            if nm not in pool0: continue
            for tn, t in terms:
                cs.append(Cand(f'{nm}<={tn}', lambda w, nm=nm, t=t: cmpv('le', w.int(nm), t, False)))
                cs.append(Cand(f'{nm}>={tn}', lambda w, nm=nm, t=t: cmpv('ge', w.int(nm), t, False)))
                cs.append(Cand(f'{nm}<{tn}', lambda w, nm=nm, t=t: cmpv('lt', w.int(nm), t, False)))
        for a, b in itertools.combinations([nm for nm, _ in pool if nm in pool0], 2):
            d = isub(pool0[a], pool0[b])
            cs.append(Cand(f'{a}-{b}=const', lambda w, a=a, b=b, d=d: cmpv('eq', isub(w.int(a), w.int(b)), d, False)))
            cs.append(Cand(f'{a}<={b}', lambda w, a=a, b=b: cmpv('le', w.int(a), w.int(b), False)))
            cs.append(Cand(f'{a}>={b}', lambda w, a=a, b=b: cmpv('ge', w.int(a), w.int(b), False)))
            cs.append(Cand(f'{a}+{b}=const', lambda w, a=a, b=b, d=iadd(pool0[a], pool0[b]): cmpv('eq', iadd(w.int(a), w.int(b)), d, False)))
        # pointers inside their buffer: index of pointer phi between 0 and the length given by a limit pointer handled by bound_terms
        # booleans: constant
        for nm, v in hv.bool_pool():
            b0 = entry.bool(nm)
            if b0 is not None:
                cs.append(Cand(f'{nm}==init', lambda w, nm=nm, b0=b0: B(w.bool(nm)) == B(b0)))
        # array frame: elements outside/after counter unchanged is supplied by contract candidates
        for (lam, objp, ptypes, cname) in st0.cands:
            cs.extend(s.lib.user_cands(f, lp, entry, hv, st0, lam, objp, ptypes, cname))
        return cs
    def bound_terms(s, f, lp, entry, st0):
        terms = []
        seen = set()
        def add(n, t):
            if isinstance(t, (Ptr, Opaque, Fn, VecVal, list, OffInt, tuple)) or t is None: return
            if z3.is_expr(t) and not z3.is_int(t): return
            if isinstance(t, Fraction) or isbool(t): return
            k = t if isnum(t) else z3.simplify(t).get_id()
            if k in seen: return
            seen.add(k); terms.append((n, t))
        # operands of comparisons in the loop that are evaluable at entry (loop invariant)
        for bn in lp.body:
            for ins in f.blocks[bn].ins:
                if ins.op == 'icmp':
                    for a in ins.a:
                        try: v = s.ev(st0, entry.env, a)
                        except Unsupported:
                            v = s.eval_invariant(f, lp, a, entry, st0, 0)
                        if isinstance(v, Ptr):
                            o = st0.mem.get(v.obj) if not isinstance(v.obj, SubBuf) else None
                            stv = o.stride if o is not None and o.kind == 'arr' else None
                            if isinstance(v.obj, SubBuf): stv = s.nested_field(st0, v.obj.obj, v.obj.inner)[2]
                            if stv:
                                try: idx, inner = s.arr_index(Arr(stv), v); add(f'idx({a.v})', idx)
                                except Unsupported: pass
                        else: add(str(a.v), v)
        # lengths of vectors
        for oid, o in st0.mem.items():
            if o.kind == 'cells':
                for off, v in o.d.items():
                    if isinstance(v, VecVal): add(f'len{oid}.{off}', v.n)
        return terms[:14]
    def eval_invariant(s, f, lp, a, entry, st0, d):
        """try to evaluate a loop-invariant expression defined inside the loop in the entry state"""
        if d > 6 or a.k != 'loc': return None
        for bn in lp.body:
            for ins in f.blocks[bn].ins:
                if ins.res == a.v:
                    if ins.op in ('sub', 'add', 'mul', 'sext', 'zext', 'trunc', 'load', 'getelementptr'):
                        env = dict(entry.env)
                        for x in ins.a:
                            if x.k == 'loc' and x.v not in env:
                                v = s.eval_invariant(f, lp, x, entry, st0, d + 1)
                                if v is None: return None
                                env[x.v] = v
                        try:
                            st = st0.copy(); st.obl_off = True
                            s.step(f, ins, env, st); return env.get(ins.res)
                        except Exception: return None
                    if ins.op in ('call', 'invoke'):
                        cal = ins.x['callee']
                        if cal.k != 'glb': return None
                        dn = s.dem.get(cal.v, '')
                        if not re.search(r'::(size|end|cend|begin|length)\(\)', dn): return None
                        env = dict(entry.env)
                        for x in ins.a:
                            if x.k == 'loc' and x.v not in env:
                                v = s.eval_invariant(f, lp, x, entry, st0, d + 1)
                                if v is None: return None
                                env[x.v] = v
                        try:
                            st = st0.copy(); st.obl_off = True
                            outs = s.call(st, cal.v, [s.ev(st, env, x) for x in ins.a])
                            return outs[0].val if len(outs) == 1 else None
                        except Exception: return None
                    return None
        return None

class NeedSplit(Exception): pass
class CandSkip(Exception): pass

def simp_b(e):
    x = z3.simplify(e)
    if z3.is_true(x): return True
    if z3.is_false(x): return False
    return e

class Cand:
    sure = False # inductive by construction
    def __init__(s, name, fn): s.name, s.fn = name, fn

class View:
    """loop-carried values at a header arrival: phis + modified memory cells, under stable names"""
    def __init__(s, eng, f, lp, env, st, phis, writes):
        s.eng, s.f, s.lp, s.env, s.state, s.phis, s.writes = eng, f, lp, env, st, phis, writes
    def items(s):
        for r, v in s.phis.items(): yield '%' + r, v
        ranks = {o: i for i, o in enumerate(sorted({o for o, _ in s.writes}, key=lambda x: (isinstance(x, str), x)))}
        for (oid, key) in sorted(s.writes, key=str):
            o = s.state.mem.get(oid)
            if o is None or o.kind != 'cells': continue
            v = o.d.get(key)
            if v is None: continue
            if isinstance(v, VecVal): yield f'len({ranks[oid]}.{key})', v.n
            else: yield f'[{ranks[oid]}.{key}]', v
    def conv(s, v):
        if isinstance(v, Ptr) and v.obj is not None:
            if isinstance(v.obj, SubBuf): k = s.eng.nested_field(s.state, v.obj.obj, v.obj.inner)[2]
            else:
                o = s.state.mem.get(v.obj)
                if o is None or o.kind != 'arr':
                    if len(v.sym) == 1: k = next(iter(v.sym))
                    else: return None
                else: k = o.stride
            try: return s.eng.arr_index(Arr(k), v)[0]
            except Unsupported: return None
        return v
    def all(s):
        if not hasattr(s, '_all'):
            s._all = {}
            for n, v in s.items():
                s._all[n] = s.conv(v)
        return s._all
    def int_pool(s):
        return [(n, v) for n, v in s.all().items() if (isnum(v) and not isinstance(v, Fraction)) or (z3.is_expr(v) and z3.is_int(v))]
    def real_pool(s):
        return [(n, v) for n, v in s.all().items() if isinstance(v, Fraction) or (z3.is_expr(v) and z3.is_real(v))]
    def bool_pool(s):
        return [(n, v) for n, v in s.all().items() if isbool(v) or (z3.is_expr(v) and z3.is_bool(v))]
    def int(s, n):
        v = s.all().get(n)
        if v is None or isinstance(v, Fraction) or (z3.is_expr(v) and not z3.is_int(v)) or isinstance(v, (Ptr, Opaque)): raise CandSkip()
        return v
    def real(s, n):
        v = s.all().get(n)
        if v is None or (z3.is_expr(v) and not z3.is_real(v)) or isinstance(v, (Ptr, Opaque)): raise CandSkip()
        return v
    def bool(s, n):
        v = s.all().get(n)
        if v is None: return None
        return v

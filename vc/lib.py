"""Trusted contracts for functions outside the code under verification (C math, libstdc++ containers, GMP, GSL, streams)
and the ghost intrinsics of the contract language (vp_*)."""
import re
from fractions import Fraction
import itertools
import z3
import ir
from ir import T
import engine as E
from engine import *
from engine import Q

STRIDE = {'double': 8, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'bool': 1, 'float': 4, 'std::complex<double>': 16,
          'std::pair<double, double>': 16, 'std::pair<int, double>': 16, 'char': 1, 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>': 32}

def split_targs(s):
    """split template arguments 'A, B<C, D>' at top level"""
    out, d, cur = [], 0, ''
    for c in s:
        if c in '<({[': d += 1
        elif c in '>)}]': d -= 1
        if c == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out

def match_angle(s, i):
    """s[i]=='<' -> index after matching '>'"""
    d = 0
    j = i
    while j < len(s):
        c = s[j]
        if c == '<': d += 1
        elif c == '>':
            if s[j-1] != '-':
                d -= 1
                if d == 0: return j + 1
        j += 1
    return -1

def parse_dem(d):
    """demangled name -> (class prefix, class targs, method, method targs, params) for std templates; None if not parseable"""
    return None

class Lib:
    def __init__(s, eng):
        s.e = eng
        s.cache = {}
        s.hooks = {}      # property specific contracts: regex -> handler
        s.outcount = {}
        s.events = {}     # arrays created by insertion, erasure or permutation of another array

    # ------------------------------------------------------------------ dispatch
    def dispatch(s, st, name, args, site):
        h = s.cache.get(name)
        if h is None:
            h = s.lookup(name)
            s.cache[name] = h
        if h is False: return None
        r = h(st, name, args, site)
        return r
    def ret(s, st, v=None): return [Outcome('ret', st, v)]
    def trust(s, what): s.e.trusted[what] = s.e.trusted.get(what, 0) + 1

    def lookup(s, name):
        e = s.e
        d = e.dem.get(name, name)
        if name in C_FUNS: return getattr(s, 'c_' + C_FUNS[name])
        if name.startswith('llvm.'): return s.llvm
        if name.startswith('vp_'): return getattr(s, 'i_' + name, None) or s.unsup
        base = d
        m = re.match(r'_ZL?(\d+)(vp_\w+)', name)
        if m:
            h = getattr(s, 't_' + m.group(2)[:int(m.group(1))], None)
            if h: return h
        # strip return type of template functions: handled by regex search on qualified names
        if name.startswith('__gmpf_'): return s.gmpf
        if name == '_ZSt7signbitd': return s.c_signbit
        if name.startswith('gsl_'): return s.gsl
        if name.startswith('__cxa_') or name in ('_Unwind_Resume',): return s.cxa
        v = s.map_method(name, d)
        if v: return v
        v = s.vector_method(d)
        if v: return v
        v = s.eigen_method(d)
        if v: return v
        for rx, meth in STD:
            if rx.search(d): return getattr(s, meth)
        return False
    def unsup(s, st, name, args, site): raise Unsupported('intrinsic ' + name)

    # ------------------------------------------------------------------ ghost intrinsics
    def i_vp_real(s, st, name, args, site):
        nm = s.e.const_string(args[0]) or 'r'
        v = s.e.fresh('R', nm); s.e.inputs.append((nm, v, 'r')); return s.ret(st, v)
    def i_vp_int(s, st, name, args, site):
        nm = s.e.const_string(args[0]) or 'i'
        v = s.e.fresh('I', nm); st.assume(s.e.int_range(v, 32)); s.e.inputs.append((nm, v, 'i')); return s.ret(st, v)
    def i_vp_bool(s, st, name, args, site):
        nm = s.e.const_string(args[0]) or 'b'
        v = s.e.fresh('B', nm); s.e.inputs.append((nm, v, 'b')); return s.ret(st, v)
    def i_vp_ptr(s, st, name, args, site): return s.ret(st, Opaque('nonnull'))
    def i_vp_assume(s, st, name, args, site):
        c = args[0]
        if isbool(c):
            if not c: return []
            return s.ret(st)
        st.assume(c)
        if not s.e.feasible(st): return []
        return s.ret(st)
    def i_vp_assert(s, st, name, args, site):
        nm = s.e.const_string(args[1]) or 'assert'
        s.e.oblige(st, args[0], nm, 'assert', site)
        if not isbool(args[0]): st.assume(args[0])
        elif not args[0]: return []
        return s.ret(st)
    def i_vp_assert_eq(s, st, name, args, site):
        nm = s.e.const_string(args[2]) or 'assert'
        c = cmpv('eq', args[0], args[1], True)
        s.e.oblige(st, c, nm, 'assert', site)
        st.assume(B(c))
        return s.ret(st)
    def i_vp_le(s, st, name, args, site): return s.ret(st, cmpv('le', args[0], args[1], True))
    def i_vp_eq(s, st, name, args, site): return s.ret(st, cmpv('eq', args[0], args[1], True))
    def i_vp_fact(s, st, name, args, site):
        """assert-and-assume lemma: proved first, then usable"""
        return s.i_vp_assert(st, name, args, site)
    def i_vp_reached(s, st, name, args, site):
        nm = s.e.const_string(args[0])
        if not st.obl_off:
            r, _ = s.e.check(list(st.pc) + s.e.closure(list(st.pc), None, depth=1), 3000)
            s.e.reached[nm] = s.e.reached.get(nm, False) or r != z3.unsat
        return s.ret(st)
    def i_vp_use_contract(s, st, name, args, site):
        nm = s.e.const_string(args[0])
        for m, d in s.e.dem.items():
            if re.search(r'\bvp_callee_' + nm + r'[(<]', d) and m in s.e.M.funcs: s.e.modular[nm] = m; break
        else: raise Unsupported('no contract function vp_callee_' + nm)
        s.trust(f'contract of {nm} at its call sites (checked in its own contract)')
        return s.ret(st)
    def i_vp_split(s, st, name, args, site):
        """case split on a boolean (both cases explored separately)"""
        c = args[0]
        if isbool(c): return s.ret(st, c)
        outs = []
        for val, cc in ((True, c), (False, z3.Not(c))):
            t = st.copy(); t.assume(cc)
            if s.e.feasible(t): outs.append(Outcome('ret', t, val))
        return outs
    def i_vp_symbolic(s, st, name, args, site): return s.ret(st, True)
    def i_vp_threw(s, st, name, args, site): return s.ret(st)
    def i_vp_uf1(s, st, name, args, site):
        nm = s.e.const_string(args[0]); return s.ret(st, uf('u_' + nm, 1)(R(args[1])))
    def i_vp_uf2(s, st, name, args, site):
        nm = s.e.const_string(args[0]); return s.ret(st, uf('u_' + nm, 2)(R(args[1]), R(args[2])))
    def i_vp_hint(s, st, name, args, site):
        """introduce an index term for instantiation"""
        p = z3.Function('p_hint', z3.IntSort(), z3.BoolSort()); st.assume(z3.Or(p(I(args[0])), z3.Not(p(I(args[0]))))) if False else None
        h = z3.Function('p_hint', z3.IntSort(), z3.IntSort())
        st.assume(h(I(args[0])) == h(I(args[0])) + 0 if False else z3.And(h(I(args[0])) >= 0))
        return s.ret(st)
    def i_vp_rhint(s, st, name, args, site):
        """introduce transcendental facts for a real term: exp/log/... of the value"""
        return s.ret(st)

    def lambda_of(s, name):
        """operator() called inside a vp_ template wrapper: returns mangled name"""
        key = ('lam', name)
        if key in s.cache: return s.cache[key]
        f = s.e.M.funcs.get(name)
        if f is None: raise Unsupported('no body for ' + name)
        ir.materialize(f)
        for b in f.order:
            for ins in f.blocks[b].ins:
                if ins.op in ('call', 'invoke') and ins.x['callee'].k == 'glb':
                    d = s.e.dem.get(ins.x['callee'].v, '')
                    if 'vp::call_it<' in d:
                        s.cache[key] = s.lambda_of(ins.x['callee'].v); return s.cache[key]
                    if '::operator()(' in d or re.search(r'\)::operator\(\)', d) or 'operator()' in d:
                        s.cache[key] = ins.x['callee'].v
                        return ins.x['callee'].v
        raise Unsupported('no functor call in ' + name)
    def eval_lambda(s, st, fn, objp, args):
        t = st.copy(); t.obl_off = True; t.writes = None
        base = t.pc
        outs = s.e.call(t, fn, [objp] + list(args))
        rets = [o for o in outs if o.kind == 'ret']
        if not rets: raise Unsupported('spec lambda does not return')
        for o in outs:
            for x in o.state.pc[len(base):]:
                if x.get_id() in State.DEFS and not s.mentions_ph(x): st.assume(x)
        val = rets[-1].val
        for o in rets[-2::-1]:
            extra = [x for x in o.state.pc[len(base):] if x.get_id() not in State.DEFS]
            c = z3.And(*extra) if extra else z3.BoolVal(True)
            val = s.e.ite(c, o.val, val)
        return val
    def mentions_ph(s, x):
        return bool(s.free_ph(x, set()))
    def free_ph(s, e, exclude):
        """placeholder constants occurring in e"""
        out = {}; seen = set(); stack = [e] if z3.is_expr(e) else []
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('ph!') and x.decl().name() not in exclude:
                out[x.decl().name()] = x
            stack.extend(x.children())
        return [out[k] for k in sorted(out)]
    def ph(s, sort='I'):
        s.e.cnt += 1
        return z3.Int(f'ph!{s.e.cnt}') if sort == 'I' else z3.Real(f'ph!r{s.e.cnt}')
    PHI = {}
    def std_ph(s, depth, kind='I'):
        k = (depth, kind)
        if k not in s.PHI: s.PHI[k] = z3.Int(f'ph!std{depth}') if kind == 'I' else z3.Real(f'ph!rstd{depth}')
        return s.PHI[k]
    phdepth = 0
    def quant(s, st, name, args, arity, exists=False):
        lo, hi = args[0], args[1]
        fn = s.lambda_of(name)
        phs = []
        for _ in range(arity):
            phs.append(s.std_ph(s.phdepth)); s.phdepth += 1
        try: body = s.eval_lambda(st, fn, args[2], phs)
        finally: s.phdepth -= arity
        body = B(body)
        if exists: body = z3.Not(body)
        ex = {p.decl().name() for p in phs}
        outer = s.free_ph(z3.And(body, I(lo) == I(lo), I(hi) <= I(hi)), ex)
        outer = {x.decl().name(): x for t in (body, I(lo), I(hi)) for x in s.free_ph(t, ex)}
        outer = [outer[k] for k in sorted(outer)]
        key = ('q', arity, body.get_id(), I(lo).get_id(), I(hi).get_id(), tuple(p.get_id() for p in phs))
        if not hasattr(s, 'keep'): s.keep = []
        if key in s.e.sumkey: q = s.e.sumkey[key]
        else:
            s.e.cnt += 1
            nm = f'Q!{s.e.cnt}'
            if outer: raise Unsupported('nested quantifier depending on outer variable')
            q = z3.Bool(nm)
            def mk(*ks, body=body, phs=phs): return z3.substitute(body, *[(p, k) for p, k in zip(phs, ks)])
            s.e.qrecs[nm] = QRec(q, lo, hi, mk, arity)
            s.e.sumkey[key] = q; s.keep.append((body, I(lo), I(hi)))
        return s.ret(st, z3.Not(q) if exists else q)
    def t_vp_forall(s, st, name, args, site): return s.quant(st, name, args, 1)
    def t_vp_exists(s, st, name, args, site): return s.quant(st, name, args, 1, True)
    def t_vp_forall2(s, st, name, args, site): return s.quant(st, name, args, 2)
    def fold_rec(s, lo, init, f, phk, pha):
        """record for S(j): S(lo)=init, S(k+1)=f(k,S(k)); f over placeholders"""
        ex = {phk.decl().name(), pha.decl().name()}
        outer = {x.decl().name(): x for t in (f, I(lo), R(init)) for x in s.free_ph(t, ex)}
        actual = [outer[k] for k in sorted(outer)]
        # canonical placeholders: the same summand gives the same record at every nesting depth
        ck, ca = z3.Int('ph!fk'), z3.Real('ph!fa')
        outer = [z3.Const(f'ph!fo{i}{o.sort()}', o.sort()) for i, o in enumerate(actual)]
        sub = list(zip(actual, outer))
        f = z3.substitute(f, (phk, ck), (pha, ca), *sub)
        if sub: lo = lo if isnum(lo) else z3.substitute(I(lo), *sub); init = init if isnum(init) else z3.substitute(R(init), *sub)
        phk, pha = ck, ca
        key = ('s', f.get_id(), I(lo).get_id(), R(init).get_id())
        if not hasattr(s, 'keep'): s.keep = []
        if key not in s.e.sumkey:
            s.e.cnt += 1
            nm = f'S!{s.e.cnt}'
            S = z3.Function(nm, *([z3.IntSort()] + [o.sort() for o in outer] + [z3.RealSort()]))
            s.e.sumkey[key] = nm
            s.keep.append((f, I(lo), R(init)))
            s.e.srecs[nm] = FRec(S, lo, R(init), f, phk, pha, outer)
            s.link_frames(nm)
        return s.e.sumkey[key], actual
    def fold(s, st, lo, hi, init, f, phk, pha):
        nm, outer = s.fold_rec(lo, init, f, phk, pha)
        r = s.e.srecs[nm]
        if isnum(lo) and isnum(hi) and hi <= lo: return init
        return r.S(I(hi), *outer)
    def link_frames(s, nm):
        """if the summand reads arrays of the form Store(A,i,v), relate to the sum over A"""
        r = s.e.srecs[nm]
        r.links = set(); r.frames = []; r.events = []
        if r.outer: return
        s.link_events(nm)
        # find store terms in f whose index does not contain the placeholder
        stores = {}
        seen = set(); stack = [r.f]
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_store(x) and x.arg(1).sort() == z3.IntSort(): stores[x.get_id()] = x
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT:
                pass
            stack.extend(x.children())
        # outermost stores only
        inner = set()
        for x in stores.values():
            inner.add(x.arg(0).get_id())
        outer = [x for i, x in stores.items() if i not in inner]
        if not outer: return
        # only when the array is read exactly at the placeholder index (element-local summand)
        if not s.element_local(r.f, r.phk): return
        idxs = [x.arg(1) for x in outer]
        f2 = z3.substitute(r.f, *[(x, x.arg(0)) for x in outer])
        nm2, _ = s.fold_rec(r.lo, r.init, f2, r.phk, r.pha)
        r.links.add(nm2)
        issum = r.is_sum()
        upd = None
        i0 = idxs[0]
        if issum and all(z3.simplify(i - i0).eq(z3.IntVal(0)) if not i.eq(i0) else True for i in idxs):
            g = r.summand(); g2 = s.e.srecs[nm2].summand()
            if g is not None and g2 is not None:
                upd = (i0, z3.substitute(g, (r.phk, i0)), z3.substitute(g2, (r.phk, i0)))
            idxs = [i0]
        r.frames.append((nm2, idxs, upd))
    def link_events(s, nm):
        """summand over an array produced by insert/erase/sort: relate to the sum over the previous array"""
        r = s.e.srecs[nm]
        if r.outer or not r.is_sum(): return
        evs = {}
        seen = set(); stack = [r.f]; bad = set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.num_args() == 0 and x.decl().name() in s.events:
                t = s.events[x.decl().name()]; evs.setdefault(t[0], []).append(t)
            stack.extend(x.children())
        if not evs: return
        ev = max(evs)
        ts = evs[ev]
        names = {t[2].decl().name() for t in ts}
        # every select at the placeholder must read an array of this event; no other use of the event's arrays
        seen = set(); stack = [r.f]
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT and x.arg(1).sort() == z3.IntSort():
                a = x.arg(0); isev = z3.is_app(a) and a.num_args() == 0 and a.decl().name() in names
                if isev:
                    if not x.arg(1).eq(r.phk): return
                    seen.add(a.get_id())
                elif FRec.contains(x.arg(1), r.phk): return
            elif z3.is_app(x) and x.num_args() == 0 and x.decl().name() in names: return
            elif z3.is_app(x) and x.eq(r.phk): return
            for i, c in enumerate(x.children()):
                if c.eq(r.phk) and not (x.decl().kind() == z3.Z3_OP_SELECT and i == 1): return
                if c.eq(r.phk): continue
                stack.append(c)
        f2 = z3.substitute(r.f, *[(t[2], t[3]) for t in ts])
        nm2, _ = s.fold_rec(r.lo, r.init, f2, r.phk, r.pha)
        r.links.add(nm2)
        kind, pi, n = ts[0][1], ts[0][4], ts[0][5]
        g = None
        if kind == 'ins':
            if any(t[6] is None for t in ts): return
            g = z3.substitute(r.summand(), *[(z3.Select(t[2], r.phk), t[6]) for t in ts])
        r.events.append((kind, nm2, pi, n, g))
    def element_local(s, f, phk):
        ok = True; seen = set(); stack = [f]
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT and x.arg(1).sort() == z3.IntSort():
                if not x.arg(1).eq(phk):
                    # a read at a fixed index is fine only when that array has no pending store
                    if s.has_store(x.arg(0)): return False
            stack.extend(x.children())
        return True
    def has_store(s, a):
        return z3.is_store(a)
    def t_vp_sum(s, st, name, args, site, prod=False):
        lo, hi = args[0], args[1]
        fn = s.lambda_of(name)
        k = s.std_ph(s.phdepth); a = s.std_ph(s.phdepth, 'R'); s.phdepth += 1
        try: v = s.eval_lambda(st, fn, args[2], [k])
        finally: s.phdepth -= 1
        f = z3.simplify(a * R(v)) if prod else a + R(v)
        return s.ret(st, s.fold(st, lo, hi, Q(1 if prod else 0), f, k, a))
    def map_at(s, st, name, args, off):
        # args: the map, rank -> value of the entry of that rank
        d = s.e.dem[name]; i = d.find('std::map<'); j = match_angle(d, i + len('std::map'))
        ta = split_targs(d[i + len('std::map<'):j - 1]); tn = s.pairn(f'std::pair<{ta[0]} const, {ta[1]}>')
        v, ka = s.mv(st, args[0], tn)
        fo, ft = s.fields(tn)[off]
        x = s.e.load(st, s.eptr(st, v, args[1], tn).add(fo), ft)
        return s.ret(st, x)
    def t_vp_mapkey(s, st, name, args, site): return s.map_at(st, name, args, 0)
    def t_vp_mapval(s, st, name, args, site): return s.map_at(st, name, args, 1)
    def t_vp_prod(s, st, name, args, site): return s.t_vp_sum(st, name, args, site, True)
    def t_vp_fold(s, st, name, args, site):
        lo, hi, init = args[0], args[1], args[2]
        fn = s.lambda_of(name)
        k = s.std_ph(s.phdepth); a = s.std_ph(s.phdepth, 'R'); s.phdepth += 1
        try: v = s.eval_lambda(st, fn, args[3], [k, a])
        finally: s.phdepth -= 1
        return s.ret(st, s.fold(st, lo, hi, init, R(v), k, a))
    def t_vp_candidate(s, st, name, args, site):
        fn = s.lambda_of(name)
        d = s.e.dem[fn]
        m = re.search(r'operator\(\)\(([^()]*)\)(?: const)?$', d)
        pt = [x.strip() for x in m.group(1).split(',')] if m and m.group(1).strip() else []
        nm = s.e.const_string(args[1]) if len(args) > 1 else 'cand'
        st.cands = st.cands + ((fn, args[0], pt, nm or 'cand'),)
        return s.ret(st)
    def i_vp_clear_candidates(s, st, name, args, site):
        st.cands = (); return s.ret(st)
    def user_cands(s, f, lp, entry, hv, st0, fn, objp, ptypes, cname):
        e = s.e
        pools = []
        ints = [n for n, _ in entry.int_pool()]; reals = [n for n, _ in entry.real_pool()]
        outer = list(e.outerphis)
        for p in ptypes:
            if p == 'long': pools.append([('o', k) for k in range(len(e.outerphis))]) # counter of an enclosing loop
            elif p == 'int': pools.append([('i', n) for n in ints if not n.startswith('len(')]) # loop counter, cursor or modified integer
            elif p in ('unsigned long', 'unsigned int'): pools.append([('i', n) for n in ints]) # the same, or the length of a modified vector
            elif p == 'double': pools.append([('r', n) for n in reals])
            else: raise Unsupported('candidate parameter type ' + p)
        res = []
        for combo in itertools.islice(itertools.product(*pools), 600):
            if len(set(combo)) != len(combo): continue
            def fnc(view, combo=combo):
                vals = [view.int(n) if k == 'i' else view.real(n) if k == 'r' else outer[n] for k, n in combo]
                try: v = s.eval_lambda(view.state, fn, objp, vals)
                except NeedSplit: raise CandSkip()
                if v is None: raise CandSkip()
                return v
            res.append(Cand(cname + str([n for _, n in combo]) if combo else cname, fnc))
        return res
    VT = {'double': 'R', 'int': 'I', 'bool': 'I', 'long': 'I', 'unsigned long': 'I'}
    def t_vp_vec(s, st, name, args, site):
        """std::vector<T> vp_vec<T>(name, minlen): sret"""
        d = s.e.dem[name]
        i = d.index('vp_vec<'); j = match_angle(d, i + 6)
        tn = d[i + 7:j - 1]
        nm = s.e.const_string(args[1]) or 'v'
        n = s.e.fresh('I', nm + '_len'); st.assume(n >= I(args[2])); st.assume(n <= 2**30)
        s.e.inputs.append((nm + '_len', n, 'i'))
        buf = s.mk_sym_buf(st, tn, nm, n)
        s.e.set_vec(st, args[0], VecVal(buf, n))
        return s.ret(st)
    def stride(s, tn):
        if tn in STRIDE: return STRIDE[tn]
        if tn.startswith('std::vector<'): return 24
        if tn.endswith('*'): return 8
        if re.match(r'Eigen::Matrix<.*, -1, -1, \d, -1, -1>$', tn): return 24
        if tn in s.e.strides: return s.e.strides[tn]
        r = s.find_stride(tn)
        if r is None: raise Unsupported('element size of ' + tn)
        s.e.strides[tn] = r
        return r
    def find_stride(s, tn):
        pre = f'std::vector<{tn}, '
        for n, d in s.e.dem.items():
            if d.startswith(pre) and ('::operator[](' in d or '::size()' in d or '::back()' in d or '::front()' in d or '::end()' in d):
                f = s.e.M.funcs.get(n)
                if not f: continue
                ir.materialize(f)
                for b in f.order:
                    for ins in f.blocks[b].ins:
                        if ins.op == 'getelementptr' and '::operator[](' in d and ins.ty.k in ('named', 'double', 'int') and (ins.ty.k != 'named' or 'std::_Vector' not in ins.ty.a and 'std::vector' != ins.ty.a.split('.')[0][6:]) and len(ins.a) == 2:
                            return s.e.M.sizeof(ins.ty)
                        if ins.op == 'sdiv' and ins.a[1].k == 'int': return ins.a[1].v
        for n, d in s.e.dem.items():
            if tn in d and (f'std::vector<{tn}, ' in d):
                f = s.e.M.funcs.get(n)
                if not f: continue
                ir.materialize(f)
                for b in f.order:
                    for ins in f.blocks[b].ins:
                        if ins.op == 'sdiv' and ins.a[1].k == 'int' and '_M_' in d: return ins.a[1].v
        # named type
        for k in s.e.M.types:
            if k in ('struct.' + tn, 'class.' + tn): return s.e.M.sizeof(T('named', k))
        return None
    def mk_sym_buf(s, st, tn, nm, n):
        sd = s.stride(tn)
        buf = s.e.new_obj(st, Arr(sd, {}, nm))
        if tn == 'double':
            a = s.e.arr_field(st, buf, 0, z3.RealSort())
            for k in range(5): s.e.inputs.append((f'{nm}[{k}]', z3.Select(a, k), 'r'))
        elif tn == 'int':
            a = s.e.arr_field(st, buf, 0, z3.IntSort())
            for k in range(5): s.e.inputs.append((f'{nm}[{k}]', z3.Select(a, k), 'i'))
        elif tn in ('std::pair<double, double>', 'std::complex<double>'):
            a = s.e.arr_field(st, buf, 0, z3.RealSort()); b = s.e.arr_field(st, buf, 8, z3.RealSort())
            for k in range(5):
                s.e.inputs.append((f'{nm}[{k}].first', z3.Select(a, k), 'r')); s.e.inputs.append((f'{nm}[{k}].second', z3.Select(b, k), 'r'))
        return buf

    # ------------------------------------------------------------------ llvm intrinsics
    def llvm(s, st, name, args, site):
        e = s.e
        if name.startswith('llvm.fabs'): return s.c_fabs(st, name, args, site)
        if name.startswith('llvm.copysign'):
            x, y = R(e.num(args[0])), R(e.num(args[1])); ax = z3.If(x >= 0, x, -x)
            return s.ret(st, z3.If(y >= 0, ax, -ax))
        if name.startswith('llvm.fmuladd') or name.startswith('llvm.fma'): return s.ret(st, radd(rmul(e.num(args[0]), e.num(args[1])), e.num(args[2])))
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            if not isnum(args[2]):
                return s.memcpy_sym(st, args)
            e.memcpy(st, args[0], args[1], args[2]); return s.ret(st)
        if name.startswith('llvm.memset'):
            p, v, n = args[0], args[1], args[2]
            if isinstance(p, Opaque): return s.ret(st)
            if isnum(n) and isnum(v) and v == 0 and isinstance(p.obj, int) and e.get(st, p.obj).kind == 'cells' and not p.sym:
                o = st.mem[p.obj].copy()
                for k in [k for k in o.d if k != 'zero' and p.off <= k < p.off + n]: del o.d[k]
                o.d['zero'] = True; st.mem[p.obj] = o
                e.note_write(st, p.obj, 'zero')
                return s.ret(st)
            if isinstance(p, Ptr) and isinstance(p.obj, int) and e.get(st, p.obj).kind == 'arr' and isnum(v) and v == 0:
                o = st.mem[p.obj].copy()
                whole = p.off == 0 and not p.sym
                if whole:
                    if not o.f: o.f[0] = z3.K(z3.IntSort(), z3.RealVal(0))
                    for k in list(o.f): o.f[k] = z3.K(z3.IntSort(), z3.RealVal(0) if o.f[k].sort().range() == z3.RealSort() else z3.IntVal(0))
                    st.mem[p.obj] = o
                    for k in o.f: e.note_write(st, p.obj, k)
                    return s.ret(st)
            raise Unsupported('memset')
        if name.startswith('llvm.is.fpclass'):
            m = args[1]
            s.e.assumed.add('floating-point values are finite (no NaN/inf/overflow): doubles are modelled as mathematical reals')
            fin = 0b0011111000 | 0b100000100 | 0b1000  # normal/subnormal/zero bits
            FIN = 504; ZERO = 0x60; NORMAL = 0x108; SUB = 0x90
            neg = 0x8 | 0x10 | 0x20; pos = 0x40 | 0x80 | 0x100
            if m & FIN == FIN: return s.ret(st, True)
            if m & FIN == 0: return s.ret(st, False)
            if m & FIN == (FIN & ~ZERO): return s.ret(st, cmpv('ne', args[0], 0, True))
            if m & FIN == NORMAL: return s.ret(st, cmpv('ne', args[0], 0, True))
            if m & FIN == ZERO: return s.ret(st, cmpv('eq', args[0], 0, True))
            raise Unsupported(f'is.fpclass {m}')
        if re.match(r'llvm\.(assume|expect|lifetime|dbg|stacksave|stackrestore|invariant|prefetch|donothing|var\.annotation|launder|strip)', name):
            return s.ret(st, args[0] if name.startswith('llvm.expect') or 'launder' in name else Opaque('sp'))
        if 'with.overflow' in name:
            f = iadd if '.uadd' in name or '.sadd' in name else imul if 'mul' in name else isub
            return s.ret(st, [f(args[0], args[1]), False])
        if name.startswith('llvm.eh.typeid.for'):
            p = args[0]
            nm = p.obj[2:] if isinstance(p, Ptr) and isinstance(p.obj, str) else getattr(p, 'name', '?')
            return s.ret(st, ('tid', nm))
        m = re.match(r'llvm\.(sqrt|floor|ceil|exp2|exp|log10|log2|log|sin|cos|pow|trunc|round|rint|nearbyint|maxnum|minnum|copysign|powi|abs|umax|umin|smax|smin)\.', name)
        if m:
            n = m.group(1)
            h = {'maxnum': s.c_fmax, 'minnum': s.c_fmin, 'sqrt': s.c_sqrt, 'floor': s.c_floor, 'ceil': s.c_ceil, 'exp': s.c_exp, 'log': s.c_log, 'sin': s.c_sin, 'cos': s.c_cos, 'pow': s.c_pow, 'trunc': s.c_trunc, 'round': s.c_round}.get(n)
            if h: return h(st, name, args, site)
            if n in ('umax', 'smax'): c = cmpv('ge', args[0], args[1], False); return s.ret(st, e.ite(c, args[0], args[1]))
            if n in ('umin', 'smin'): c = cmpv('le', args[0], args[1], False); return s.ret(st, e.ite(c, args[0], args[1]))
            if n == 'abs': c = cmpv('ge', args[0], 0, False); return s.ret(st, e.ite(c, args[0], isub(0, args[0])))
        if name.startswith('llvm.ctlz'):
            return s.ret(st, e.fresh('I', 'ctlz'))
        if name == 'llvm.trap': return []
        raise Unsupported(name)
    def memcpy_sym(s, st, args):
        """memcpy/memmove of a symbolic number of bytes between arrays of equal stride"""
        e = s.e
        d, r, n = args[:3]
        if isinstance(d, Opaque) or isinstance(r, Opaque): raise Unsupported('memcpy opaque')
        if isinstance(d.obj, SubBuf) or isinstance(r.obj, SubBuf): raise Unsupported('memcpy nested')
        od, orr = e.get(st, d.obj), e.get(st, r.obj)
        if od.kind != 'arr' or orr.kind != 'arr' or od.stride != orr.stride: raise Unsupported('memcpy of symbolic size')
        cnt = e.exact_div(n, od.stride)
        di, a = e.arr_index(od, d); ri, b = e.arr_index(orr, r)
        if a or b: raise Unsupported('memcpy misaligned')
        s.copy_range(st, d.obj, di, r.obj, ri, cnt)
        return s.ret(st)
    def copy_range(s, st, dobj, di, robj, ri, cnt):
        e = s.e
        src = dict(st.mem[robj].f) if not isinstance(robj, SubBuf) else {io: z3.Select(a, I(robj.idx)) for io, a in e.nested_field(st, robj.obj, robj.inner)[3].items()}
        o = st.mem[dobj].copy()
        for io, a in src.items():
            if isinstance(a, tuple): raise Unsupported('copy of nested arrays')
            old = o.f.get(io)
            if old is None:
                e.cnt += 1; old = z3.Array(f'arr{dobj}.{io}!{e.cnt}', z3.IntSort(), a.sort().range())
            if isnum(di) and di == 0 and isnum(ri) and ri == 0 and not o.f.get(io) is not None:
                new = a
            else:
                e.cnt += 1
                new = z3.Array(f'cp{dobj}.{io}!{e.cnt}', z3.IntSort(), a.sort().range())
                s.arr_axiom(st, new, lambda k, a=a, old=old: z3.If(z3.And(k >= I(di), k < I(di) + I(cnt)), z3.Select(a, k - I(di) + I(ri)), z3.Select(old, k)))
            o.f[io] = new
            e.note_write(st, dobj, io)
        st.mem[dobj] = o
    def arr_axiom(s, st, arr, fn):
        """forall k: arr[k] == fn(k)   (assumed definition)"""
        e = s.e
        e.cnt += 1
        nm = f'Q!{e.cnt}'
        q = z3.Bool(nm)
        e.qrecs[nm] = QRec(q, z3.IntVal(-2**40), z3.IntVal(2**40), lambda k: z3.Select(arr, k) == fn(k), 1)
        e.qrecs[nm].sk = [z3.IntVal(0)]; e.qrecs[nm].skf = z3.BoolVal(True)
        st.assume_def(q)
    def assume_forall(s, st, lo, hi, fn, arity=1):
        e = s.e
        e.cnt += 1
        nm = f'Q!{e.cnt}'
        q = z3.Bool(nm)
        e.qrecs[nm] = QRec(q, lo, hi, fn, arity)
        e.qrecs[nm].sk = [z3.IntVal(0)] * arity; e.qrecs[nm].skf = z3.BoolVal(True)
        st.assume_def(q)

    # ------------------------------------------------------------------ C / libm
    def c_signbit(s, st, name, args, site):  # the reals have no negative zero
        return s.ret(st, cmpv('lt', args[0], 0, True))
    def c_fabs(s, st, name, args, site):
        x = s.e.num(args[0])
        if isnum(x): return s.ret(st, abs(x))
        return s.ret(st, z3.If(R(x) >= 0, R(x), -R(x)))
    def app(s, st, fn, *xs):
        return s.ret(st, s.mk(fn, *xs))
    def mk(s, fn, *xs):
        x = [R(v) for v in xs]
        x = [z3.simplify(v, som=False) if True else v for v in x]
        s.trust('libm ' + fn)
        return uf('f_' + fn, len(x))(*x)
    def c_sqrt(s, st, name, args, site):
        x = s.e.num(args[0])
        if isnum(x):
            from math import isqrt
            f = Q(x)
            if f >= 0:
                a, b = isqrt(f.numerator), isqrt(f.denominator)
                if a * a == f.numerator and b * b == f.denominator: return s.ret(st, Q(a, b))
        return s.app(st, 'sqrt', x)
    def c_exp(s, st, name, args, site):
        x = s.e.num(args[0])
        if isnum(x) and x == 0: return s.ret(st, Q(1))
        return s.app(st, 'exp', x)
    def c_expm1(s, st, name, args, site): return s.ret(st, rsub(s.c_exp(st, name, args, site)[0].val, Q(1)))
    def c_log(s, st, name, args, site):
        x = s.e.num(args[0])
        if isnum(x) and x == 1: return s.ret(st, Q(0))
        return s.app(st, 'log', x)
    def c_log1p(s, st, name, args, site): return s.c_log(st, name, [radd(Q(1), args[0])], site)
    def c_log10(s, st, name, args, site): return s.app(st, 'log10', args[0])
    def c_log2(s, st, name, args, site): return s.app(st, 'log2', args[0])
    def c_sin(s, st, name, args, site): return s.app(st, 'sin', args[0])
    def c_cos(s, st, name, args, site): return s.app(st, 'cos', args[0])
    def c_tan(s, st, name, args, site): return s.app(st, 'tan', args[0])
    def c_atan(s, st, name, args, site): return s.app(st, 'atan', args[0])
    def c_atan2(s, st, name, args, site): return s.app(st, 'atan2', args[0], args[1])
    def c_atanh(s, st, name, args, site): return s.app(st, 'atanh', args[0])
    def c_erf(s, st, name, args, site): return s.app(st, 'erf', args[0])
    def c_tanh(s, st, name, args, site):
        a = s.mk('exp', args[0]); b = s.mk('exp', rneg(args[0])); return s.ret(st, (a - b) / (a + b))
    def c_cosh(s, st, name, args, site):
        a = s.mk('exp', args[0]); b = s.mk('exp', rneg(args[0])); return s.ret(st, (a + b) / 2)
    def c_sinh(s, st, name, args, site):
        a = s.mk('exp', args[0]); b = s.mk('exp', rneg(args[0])); return s.ret(st, (a - b) / 2)
    def c_pow(s, st, name, args, site):
        a, b = s.e.num(args[0]), s.e.num(args[1])
        if isnum(b) and Q(b).denominator == 1 and abs(b) <= 8:
            n = int(b); r = Q(1)
            for _ in range(abs(n)): r = rmul(r, a)
            return s.ret(st, r if n >= 0 else rdiv(Q(1), r))
        return s.app(st, 'pow', a, b)
    def c_hypot(s, st, name, args, site): return s.c_sqrt(st, name, [radd(rmul(args[0], args[0]), rmul(args[1], args[1]))], site)
    def c_floor(s, st, name, args, site):
        x = args[0]
        if isnum(x): return s.ret(st, Q(x.__floor__()))
        return s.ret(st, z3.ToReal(z3.ToInt(R(x))))
    def c_ceil(s, st, name, args, site):
        x = args[0]
        if isnum(x): return s.ret(st, Q(x.__ceil__()))
        return s.ret(st, -z3.ToReal(z3.ToInt(-R(x))))
    def c_trunc(s, st, name, args, site):
        x = args[0]
        if isnum(x): return s.ret(st, Q(int(x)))
        return s.ret(st, z3.If(R(x) >= 0, z3.ToReal(z3.ToInt(R(x))), -z3.ToReal(z3.ToInt(-R(x)))))
    def c_round(s, st, name, args, site):
        x = R(args[0])
        return s.ret(st, z3.If(x >= 0, z3.ToReal(z3.ToInt(x + Q(1, 2))), -z3.ToReal(z3.ToInt(-x + Q(1, 2)))))
    def c_fmax(s, st, name, args, site): return s.ret(st, s.e.ite(cmpv('ge', args[0], args[1], True), args[0], args[1]))
    def c_fmin(s, st, name, args, site): return s.ret(st, s.e.ite(cmpv('le', args[0], args[1], True), args[0], args[1]))
    def c_muldc3(s, st, name, args, site):
        a, b, c, d = [s.e.num(x) for x in args[:4]]
        return s.ret(st, [rsub(rmul(a, c), rmul(b, d)), radd(rmul(a, d), rmul(b, c))])
    def c_divdc3(s, st, name, args, site):
        a, b, c, d = [s.e.num(x) for x in args[:4]]
        den = radd(rmul(c, c), rmul(d, d))
        if isnum(d) and d == 0: return s.ret(st, [rdiv(a, c), rdiv(b, c)])
        return s.ret(st, [rdiv(radd(rmul(a, c), rmul(b, d)), den), rdiv(rsub(rmul(b, c), rmul(a, d)), den)])
    def c_abort(s, st, name, args, site): return []
    def c_exit(s, st, name, args, site): return [Outcome('throw', st, 'exit')]
    def c_assert_fail(s, st, name, args, site):
        if s.e.opts.get('assert_obligation', True) and not st.obl_off:
            s.e.oblige(st, False, 'code-assertion', 'code-assert', site)
        return []
    def c_noop(s, st, name, args, site): return s.ret(st, Opaque('c'))
    def c_zero(s, st, name, args, site): return s.ret(st, 0)
    def c_freshint(s, st, name, args, site):
        v = s.e.fresh('I', 'ext'); st.assume(s.e.int_range(v, 32)); return s.ret(st, v)
    def c_freshreal(s, st, name, args, site): return s.ret(st, s.e.fresh('R', 'ext'))
    def c_new(s, st, name, args, site):
        n = args[0]
        if isnum(n) and n <= 4096: return s.ret(st, Ptr(s.e.new_obj(st, Cells({}, n, 'heap'))))
        return s.ret(st, Ptr(s.e.new_arr(st, 8, 'heap')))
    def c_strlen(s, st, name, args, site):
        c = s.e.const_string(args[0])
        if c is not None: return s.ret(st, len(c))
        v = s.e.fresh('I', 'strlen'); st.assume(v >= 0); return s.ret(st, v)
    def c_memcmp(s, st, name, args, site): return s.c_freshint(st, name, args, site)

    def fun_axioms(s, a):
        """ground axioms for one application of a transcendental function"""
        n = a.decl().name()[2:]
        x = a.arg(0)
        if n in ('log', 'log10', 'log2', 'exp', 'sqrt') and z3.is_rational_value(x): return s.num_axioms(n, a, x) + s.fun_axioms1(n, a, x)
        return s.fun_axioms1(n, a, x)
    def num_axioms(s, n, a, x):
        """rational enclosure of the function at a constant (mpmath-free: 60-digit decimal arithmetic)"""
        import decimal
        with decimal.localcontext() as c:
            c.prec = 60
            d = decimal.Decimal(x.numerator_as_long()) / decimal.Decimal(x.denominator_as_long())
            try:
                if n in ('log', 'log10', 'log2'):
                    if d <= 0: return []
                    v = d.ln() if n == 'log' else d.log10() if n == 'log10' else d.ln() / decimal.Decimal(2).ln()
                elif n == 'exp':
                    if abs(d) > 2000: return []
                    v = d.exp()
                else:
                    if d < 0: return []
                    v = d.sqrt()
            except decimal.DecimalException: return []
            w = abs(v) * decimal.Decimal('1e-40') + decimal.Decimal('1e-340')
            f = lambda q: z3.RealVal(str(Fraction(q)))
            return [a >= f(v - w), a <= f(v + w)]
    def fun_axioms1(s, n, a, x):
        if n == 'sqrt': return [z3.Implies(x >= 0, z3.And(a >= 0, a * a == x)), z3.Implies(x > 0, a > 0)]
        if n == 'exp':
            ax = [a > 0, z3.Implies(x >= 0, a >= 1 + x), z3.Implies(x == 0, a == 1), z3.Implies(x > 0, a > 1), z3.Implies(x < 0, a < 1), a >= 1 + x,
                  z3.Implies(x <= -20, a <= z3.RealVal('21/10000000000')), z3.Implies(x <= -36, a <= z3.RealVal('24/100000000000000000'))]
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() == 'f_log': ax.append(z3.Implies(x.arg(0) > 0, a == x.arg(0)))
            # exp(-u) exp(u) = 1
            nx = z3.simplify(-x)
            ax.append(a * uf('f_exp')(nx) == 1) if s.e.opts.get('exp_neg', True) and not s.is_neg(x) else None
            return [q for q in ax if q is not None]
        if n == 'log':
            ax = [z3.Implies(x > 1, a > 0), z3.Implies(z3.And(x > 0, x < 1), a < 0), z3.Implies(x == 1, a == 0), z3.Implies(x > 0, a <= x - 1)]
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() == 'f_exp': ax.append(a == x.arg(0))
            if s.e.opts.get('log_div', True) and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_DIV:
                p, q = x.arg(0), x.arg(1)
                ax.append(z3.Implies(z3.And(p > 0, q > 0), a == uf('f_log')(p) - uf('f_log')(q)))
            return ax
        if n in ('log10', 'log2'):
            ax = [z3.Implies(x > 1, a > 0), z3.Implies(z3.And(x > 0, x < 1), a < 0), z3.Implies(x == 1, a == 0)]
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() == 'f_pow': ax.append(z3.Implies(x.arg(0) == (10 if n == 'log10' else 2), a == x.arg(1)))
            return ax
        if n == 'pow':
            y = a.arg(1)
            ax = [z3.Implies(x > 0, a > 0), z3.Implies(y == 0, a == 1), z3.Implies(y == 1, a == x),
                  z3.Implies(z3.And(x > 1, y > 0), a > 1), z3.Implies(z3.And(x > 1, y < 0), a < 1), z3.Implies(x == 1, a == 1)]
            return ax
        if n == 'sin' or n == 'cos': return [a <= 1, a >= -1]
        if n == 'atan': return [z3.Implies(x > 0, a > 0), z3.Implies(x < 0, a < 0), z3.Implies(x == 0, a == 0)]
        if n == 'erf': return [a < 1, a > -1, z3.Implies(x > 0, a > 0), z3.Implies(x < 0, a < 0), z3.Implies(x == 0, a == 0)]
        return []
    def is_neg(s, x):
        """syntactically negated leading coefficient (to avoid generating exp(-(-u)))"""
        t = z3.simplify(x)
        if z3.is_rational_value(t): return t.numerator_as_long() < 0
        k = t.decl().kind()
        if k == z3.Z3_OP_UMINUS: return True
        if k == z3.Z3_OP_MUL: return z3.is_rational_value(t.arg(0)) and t.arg(0).numerator_as_long() < 0
        if k == z3.Z3_OP_ADD: return s.is_neg(t.arg(0))
        return False
    def pair_axioms(s, apps, done):
        by = {}
        for a in apps: by.setdefault(a.decl().name(), {})[a.get_id()] = a
        ax = []
        for n in ('f_exp', 'f_log', 'f_sqrt', 'f_log10', 'f_log2'):
            l = list(by.get(n, {}).values())[:12]
            for a, b in itertools.combinations(l, 2):
                k = (a.get_id(), b.get_id())
                if k in done: continue
                done.add(k)
                x, y = a.arg(0), b.arg(0)
                if n == 'f_exp':
                    ax += [z3.Implies(x < y, a < b), z3.Implies(x > y, a > b)]
                    ax.append(z3.Implies(x + y == 0, a * b == 1))
                    if s.e.opts.get('exp_add'):
                        sm = z3.simplify(x + y); ax.append(uf('f_exp')(sm) == a * b)
                elif n != 'f_sqrt':
                    ax += [z3.Implies(z3.And(0 < x, x < y), a < b), z3.Implies(z3.And(x > y, y > 0), a > b)]
                else:
                    ax += [z3.Implies(z3.And(0 <= x, x < y), a < b), z3.Implies(z3.And(x > y, y >= 0), a > b)]
        l = list(by.get('f_pow', {}).values())[:10]
        for a, b in itertools.combinations(l, 2):
            k = (a.get_id(), b.get_id())
            if k in done: continue
            done.add(k)
            if a.arg(0).eq(b.arg(0)):
                x = a.arg(0)
                ax += [z3.Implies(z3.And(x > 1, a.arg(1) < b.arg(1)), a < b), z3.Implies(z3.And(x > 1, a.arg(1) > b.arg(1)), a > b), z3.Implies(z3.And(x > 0, a.arg(1) + b.arg(1) == 0), a * b == 1),
                       z3.Implies(z3.And(x > 0, a.arg(1) == b.arg(1) + 1), a == b * x), z3.Implies(z3.And(x > 0, b.arg(1) == a.arg(1) + 1), b == a * x)]
                if 'f_sqrt' in by: ax += [z3.Implies(z3.And(x > 0, a.arg(1) == b.arg(1) + z3.Q(1, 2)), a == b * uf('f_sqrt')(x)), z3.Implies(z3.And(x > 0, b.arg(1) == a.arg(1) + z3.Q(1, 2)), b == a * uf('f_sqrt')(x))]
        return ax

    # ------------------------------------------------------------------ C++ runtime
    def cxa(s, st, name, args, site):
        if name == '__cxa_allocate_exception': return s.ret(st, Opaque('nonnull-exc'))
        if name == '__cxa_throw':
            p = args[1]
            t = p.obj[2:] if isinstance(p, Ptr) and isinstance(p.obj, str) else 'exc'
            return [Outcome('throw', st, t)]
        if name == '__cxa_rethrow' or name == '_Unwind_Resume': return [Outcome('throw', st, 'rethrow')]
        if name in ('__cxa_begin_catch', '__cxa_get_exception_ptr'): return s.ret(st, Opaque('nonnull-exc'))
        if name == '__cxa_guard_acquire': return s.ret(st, 1)
        return s.ret(st, Opaque('cxa'))
    def throw_std(s, st, name, args, site):
        d = s.e.dem[name]
        if 'out_of_range' in d: t = '_ZTISt12out_of_range'
        elif 'length_error' in d: t = '_ZTISt12length_error'
        elif 'bad_alloc' in d or 'bad_array' in d: return []
        elif 'logic_error' in d: t = '_ZTISt11logic_error'
        elif 'invalid_argument' in d: t = '_ZTISt16invalid_argument'
        elif 'bad_function_call' in d: t = '_ZTISt17bad_function_call'
        elif 'bad_optional' in d: t = '_ZTISt19bad_optional_access'
        else: t = '_ZTISt9exception'
        return [Outcome('throw', st, t)]
    def opaque_this(s, st, name, args, site): return s.ret(st, args[0] if args else None)
    def stream_op(s, st, name, args, site): return s.ret(st, args[0])
    def stream_out_double(s, st, name, args, site):
        k = 'cnt'
        return s.ret(st, args[0])
    def noop(s, st, name, args, site):
        f = s.e.M.funcs.get(name)
        return s.ret(st, Opaque('ext'))
    def fresh_ret(s, st, name, args, site):
        d = s.e.dem[name]
        return s.ret(st, s.e.fresh('B', 'ext') if re.search(r'operator bool|operator!|::fail|::good|::eof|::is_open|::empty|::bad|operator==|operator!=|operator<', d) else s.e.fresh('I', 'ext'))
    def dtor(s, st, name, args, site): return s.ret(st)
    # std::string: a string is an identity (an integer); literals have distinct known identities, everything else is arbitrary
    STR_IDS = {}
    def str_id(s, text): return s.STR_IDS.setdefault(text, 1000000 + len(s.STR_IDS))
    def str_get(s, st, p):
        if not isinstance(p, Ptr): return s.e.fresh('I', 'str')
        try: v = s.e.load(st, p, T('int', 64))
        except Unsupported: return s.e.fresh('I', 'str')
        return v if isinstance(v, int) or z3.is_expr(v) else s.e.fresh('I', 'str')
    def str_set(s, st, p, v):
        if isinstance(p, Ptr): s.e.store(st, p, v, T('int', 64))
    def str_arg(s, st, ty, a):
        """identity of a string argument of the given C++ type, or None"""
        ty = ty.strip()
        if ty.startswith('char const*'):
            t = s.e.const_string(a)
            return s.str_id(t) if t is not None else s.e.fresh('I', 'str')
        if 'basic_string<' in ty: return s.str_get(st, a)
        return None
    def string_eq(s, st, name, args, site):
        d = s.e.dem[name]
        m = re.search(r'std::operator(==|!=|<)<.*?>\((.*)\)$', d)
        if not m or m.group(1) == '<': return s.ret(st, s.e.fresh('B', 'strlt'))
        ps = split_targs(m.group(2))
        if len(ps) != 2: return s.ret(st, s.e.fresh('B', 'streq'))
        a, b = s.str_arg(st, ps[0], args[0]), s.str_arg(st, ps[1], args[1])
        if a is None or b is None: return s.ret(st, s.e.fresh('B', 'streq'))
        r = (a == b) if isnum(a) and isnum(b) else z3.simplify(I(a) == I(b))
        if z3.is_expr(r): r = True if z3.is_true(r) else False if z3.is_false(r) else r
        if m.group(1) == '!=': r = (not r) if isinstance(r, bool) else z3.Not(r)
        return s.ret(st, r)
    def string_lit(s, st, name, args, site):
        t = s.e.const_string(args[1])
        s.str_set(st, args[0], s.str_id(t) if t is not None else s.e.fresh('I', 'str')); return s.ret(st)
    def string_ctor(s, st, d, args):
        """constructor or assignment: the new identity of *this"""
        ps = split_targs(d[d.rindex('::', 0, d.index('(', d.rindex('>::') if '>::' in d else 0)):].split('(', 1)[1].rsplit(')', 1)[0]) if '(' in d else []
        ps = [x for x in ps if not x.startswith('std::allocator')]
        if len(args) == 1 or not ps: v = s.str_id('')
        elif len(ps) == 1 or (len(ps) == 2 and ps[1].startswith('std::allocator')): v = s.str_arg(st, ps[0], args[1])
        else: v = None
        s.str_set(st, args[0], s.e.fresh('I', 'str') if v is None else v)
    def fmt_any(s, st, name, args, site):
        f = s.e.M.funcs.get(name)
        return s.ret(st, args[0] if args else None)
    def string_any(s, st, name, args, site):
        d = s.e.dem[name]
        m = re.search(r'::(\w+|~\w+|operator[^(]*)(?:<.*?>)?\(', d)
        if re.search(r'basic_string<char, std::char_traits<char>, std::allocator<char>>::(basic_string(<.*>)?|operator=|assign)\(', d):
            s.string_ctor(st, d, args); return s.ret(st, args[0])
        if re.search(r'::(size|length|find\w*|compare|rfind)\(', d):
            v = s.e.fresh('I', 'strsz')
            if '::size' in d or '::length' in d: st.assume(v >= 0)
            st.assume(s.e.int_range(v, 64)); return s.ret(st, v)
        if re.search(r'::(empty|starts_with|ends_with)\(', d): return s.ret(st, s.e.fresh('B', 'str'))
        if re.search(r'::(c_str|data|begin|end)\(', d): return s.ret(st, Opaque('nonnull-str'))
        if re.search(r'operator(==|!=|<|>)', d): return s.ret(st, s.e.fresh('B', 'streq'))
        if re.search(r'::(operator\[\]|at|back|front)\(', d): return s.ret(st, Opaque('nonnull-chr'))
        return s.ret(st, args[0] if args else None)

    # ------------------------------------------------------------------ std::complex helpers run as ordinary code

    # ------------------------------------------------------------------ std::vector
    # ------------------------------------------------------------------ Eigen::Matrix (dynamic, dense): rows, columns and a table of elements
    def eigen_method(s, d):
        m = re.match(r'^Eigen::(?:Matrix|DenseCoeffsBase<Eigen::Matrix|PlainObjectBase<Eigen::Matrix)<(double|std::complex<double>), -1, -1, [01], -1, -1>(?: ?>)?(?:, [0-3]>)?::(~?\w+|operator\(\)|operator=)\((.*)\)( const)?$', d)
        if not m:
            m = re.match(r'^(?:\S+ )?Eigen::Matrix<(double|std::complex<double>), -1, -1, [01], -1, -1>::(Matrix)<(?:int|long|unsigned long), (?:int|long|unsigned long)>\(((?:int|long|unsigned long) const&, (?:int|long|unsigned long) const&)\)()$', d)
            if not m: return None
        tn, meth, args = m.group(1), m.group(2), m.group(3)
        esz = 8 if tn == 'double' else 16
        if meth in ('operator()', 'coeff', 'coeffRef') and args == 'long, long': h = lambda st, name, a, site: s.eig_at(st, a, esz, site)
        elif meth == 'resize' and args == 'long, long': h = lambda st, name, a, site: s.eig_set(st, a[0], a[1], a[2], esz)
        elif meth == 'Matrix' and args.count('&') == 2 and ',' in args: h = lambda st, name, a, site: s.eig_set(st, a[0], s.e.load(st, a[1], T('int', 64 if 'long' in args.split(',')[0] else 32)), s.e.load(st, a[2], T('int', 64 if 'long' in args.split(',')[1] else 32)), esz)
        elif meth == 'Matrix' and args == '': h = lambda st, name, a, site: s.eig_set(st, a[0], 0, 0, esz)
        elif meth in ('Matrix', 'operator=') and re.match(r'^Eigen::Matrix<[^&]*>( const)?&&?$', args): h = lambda st, name, a, site: s.eig_copy(st, a[0], a[1], args.endswith('&&'))
        elif meth in ('~Matrix', '~PlainObjectBase'): h = lambda st, name, a, site: s.ret(st)
        elif meth in ('rows', 'cols') and args == '': h = lambda st, name, a, site: s.ret(st, s.e.load(st, a[0].add(8 if meth == 'rows' else 16), T('int', 64)))
        else: return None
        def run(st, name, args, site):
            s.trust('Eigen::Matrix (rows, columns and element table; standard contract of element access, copy and resize)')
            return h(st, name, args, site)
        return run
    def eig_parts(s, st, p):
        e = s.e; I64 = T('int', 64)
        b = e.load(st, p, T('ptr'))
        if not isinstance(b, Ptr) or b.obj is None: raise Unsupported(f'matrix without storage {b!r}')
        return b, e.load(st, p.add(8), I64), e.load(st, p.add(16), I64)
    def eig_at(s, st, a, esz, site):
        b, r, c = s.eig_parts(st, a[0])
        i, j = a[1], a[2]
        s.vbound(st, i, r, 'matrix-row-in-range', site); s.vbound(st, j, c, 'matrix-column-in-range', site)
        if not st.obl_off: st.assume(B(land(land(cmpv('ge', i, 0, False), cmpv('lt', i, r, False)), land(cmpv('ge', j, 0, False), cmpv('lt', j, c, False)))))
        sb = SubBuf(b.obj, 0, i)
        s.e.nested_field(st, b.obj, 0, esz)
        return s.ret(st, Ptr(sb, esz * j) if isnum(j) else Ptr(sb, 0, {esz: j}))
    def eig_set(s, st, p, r, c, esz, tag='mat'):
        e = s.e; I64 = T('int', 64)
        buf = e.new_obj(st, Arr(24, {}, tag)); e.nested_field(st, buf, 0, esz)
        e.store(st, p, Ptr(buf), T('ptr')); e.store(st, p.add(8), r, I64); e.store(st, p.add(16), c, I64)
        return s.ret(st)
    def eig_copy(s, st, p, q, move):
        e = s.e; I64 = T('int', 64)
        if s.same_ptr(p, q): return s.ret(st, p)
        b, r, c = s.eig_parts(st, q)
        nb = b if move else Ptr(e.new_obj(st, st.mem[b.obj].copy()))
        if move:
            o = e.new_obj(st, Arr(24, {}, 'moved')); e.nested_field(st, o, 0, 8); e.store(st, q, Ptr(o), T('ptr')); e.store(st, q.add(8), 0, I64); e.store(st, q.add(16), 0, I64)
        e.store(st, p, nb, T('ptr')); e.store(st, p.add(8), r, I64); e.store(st, p.add(16), c, I64)
        return s.ret(st, p)
    def t_vp_matrix(s, st, name, args, site):
        """vp_matrix(m, name, r, c): m becomes an arbitrary r x c matrix"""
        d = s.e.dem[name]; cx = 'Matrix<std::complex<double>' in d
        nm = s.e.const_string(args[1]) or 'm'
        s.eig_set(st, args[0], args[2], args[3], 16 if cx else 8, nm)
        b = s.e.load(st, args[0], T('ptr'))
        for io, sfx in ((0, '.first'), (8, '.second')) if cx else ((0, ''),):
            a = s.e.sub_arr(st, SubBuf(b.obj, 0, 0), io, z3.RealSort())
            for i in range(3):
                for j in range(3): s.e.inputs.append((f'{nm}[{i},{j}]{sfx}', z3.Select(z3.Select(a, i), j), 'r'))
        return s.ret(st)
    def vector_method(s, d):
        m = re.match(r'^(?:[^<>()]*\s)?(?:[\w:&* ]+ )?std::vector<', d)
        i = d.find('std::vector<')
        if i < 0: return None
        # the function's own qualified name must start with std::vector<...>::
        pre = d[:i]
        if '(' in pre or '<' in pre or '::' in pre: 
            # template member functions have a return type that may mention vectors; locate last top-level std::vector<..>::name(
            i = s.qual_start(d)
            if i is None or not d[i:].startswith('std::vector<'): return None
        j = match_angle(d, i + len('std::vector'))
        if j < 0 or d[j:j+2] != '::':
            i2 = s.qual_start(d)
            if i2 is None or not d[i2:].startswith('std::vector<'): return None
            i = i2; j = match_angle(d, i + len('std::vector'))
            if d[j:j+2] != '::': return None
        targs = split_targs(d[i + len('std::vector<'):j - 1])
        rest = d[j+2:]
        # method name up to '(' at top level
        m = re.match(r'(operator\(\)|operator\[\]|operator[=<>!]+|~?\w+)', rest)
        if not m: return None
        meth = m.group(1)
        k = m.end()
        margs = ''
        if k < len(rest) and rest[k] == '<':
            kk = match_angle(rest, k); margs = rest[k+1:kk-1]; k = kk
        if rest[k:k+1] != '(': return None
        params = rest[k+1:rest.rfind(')')]
        tn = targs[0]
        if re.match(r'(NRG::(ThermoSubs|BackiterSubs|DiagInfo|SubspaceStructure|my_mpf)|std::map)\b', tn): return None  # elements with pointers: the library code itself is interpreted
        nm = {'operator[]': 'idx', 'operator=': 'assign_op', 'vector': 'ctor', '~vector': 'dtor'}.get(meth, meth)
        h = getattr(s, 'v_' + nm, None)
        if tn == 'bool': return lambda st, name, args, site: (_ for _ in ()).throw(Unsupported('vector<bool>'))
        if h is None: return None
        ps = split_targs(params)
        def run(st, name, args, site):
            s.trust('libstdc++ std::vector (length and element array; standard postconditions)')
            s.cur_name = name
            return h(st, tn, ps, args, site)
        return run
    def qual_start(s, d):
        """start offset of the qualified function name in a demangled name"""
        # find the last top-level '(' group start, then scan back over the qualified name to a top-level space
        depth = 0; start = 0
        i = 0; n = len(d)
        while i < n:
            c = d[i]
            if c in '<{[': depth += 1
            elif c in '>}]':
                if not (c == '>' and d[i-1] == '-') and not d[max(0,i-8):i].endswith('operator'): depth -= 1
            elif c == '(' and depth == 0:
                if d[i:].startswith('(anonymous namespace)'): i += len('(anonymous namespace)'); continue
                if d[:i].endswith('operator'): i += 2; continue
                return start
            elif c == ' ' and depth == 0:
                if not d[:i].endswith('operator'): start = i + 1
            i += 1
        return None
    def vv(s, st, p, tn): return s.e.vec_at(st, p, s.stride(tn))
    def vbound(s, st, i, n, what, site):
        if st.obl_off: return
        s.e.oblige(st, land(cmpv('ge', i, 0, False), cmpv('lt', i, n, False)), f'{what}', 'bounds', site)
    def eptr(s, st, v, i, tn):
        sd = s.stride(tn)
        if isnum(i): return Ptr(v.buf, sd * i)
        return Ptr(v.buf, 0, {sd: i})
    def v_idx(s, st, tn, ps, args, site):
        v = s.vv(st, args[0], tn); i = args[1]
        s.vbound(st, i, v.n, 'index-in-range', site)
        if not st.obl_off:
            st.assume(B(land(cmpv('ge', i, 0, False), cmpv('lt', i, v.n, False))))
        return s.ret(st, s.eptr(st, v, i, tn))
    def v_at(s, st, tn, ps, args, site):
        v = s.vv(st, args[0], tn); i = args[1]
        ok = land(cmpv('ge', i, 0, False), cmpv('lt', i, v.n, False))
        outs = []
        if isbool(ok):
            if ok: return s.ret(st, s.eptr(st, v, i, tn))
            return [Outcome('throw', st, '_ZTISt12out_of_range')]
        if st.obl_off: return s.ret(st, s.eptr(st, v, i, tn))
        if s.e.feasible(st, z3.Not(ok)):
            t = st.copy(); t.assume(z3.Not(ok)); outs.append(Outcome('throw', t, '_ZTISt12out_of_range'))
        st = st.copy(); st.assume(ok)
        return [Outcome('ret', st, s.eptr(st, v, i, tn))] + outs
    def v_size(s, st, tn, ps, args, site): return s.ret(st, s.vv(st, args[0], tn).n)
    def v_capacity(s, st, tn, ps, args, site): return s.v_size(st, tn, ps, args, site)
    def v_empty(s, st, tn, ps, args, site): return s.ret(st, cmpv('eq', s.vv(st, args[0], tn).n, 0, False))
    def v_begin(s, st, tn, ps, args, site): v = s.vv(st, args[0], tn); return s.ret(st, Ptr(v.buf))
    v_cbegin = v_begin
    def v_data(s, st, tn, ps, args, site): v = s.vv(st, args[0], tn); return s.ret(st, Ptr(v.buf))
    def v_end(s, st, tn, ps, args, site): v = s.vv(st, args[0], tn); return s.ret(st, s.eptr(st, v, v.n, tn))
    v_cend = v_end
    def v_front(s, st, tn, ps, args, site):
        v = s.vv(st, args[0], tn); s.vbound(st, 0, v.n, 'front-of-nonempty', site); return s.ret(st, s.eptr(st, v, 0, tn))
    def v_back(s, st, tn, ps, args, site):
        v = s.vv(st, args[0], tn); s.vbound(st, 0, v.n, 'back-of-nonempty', site); return s.ret(st, s.eptr(st, v, isub(v.n, 1), tn))
    def elem_store(s, st, v, i, tn, src):
        """copy element of type tn from pointer src to v[i]"""
        e = s.e
        d = s.eptr(st, v, i, tn)
        sd = s.stride(tn)
        if tn.startswith('std::vector<'):
            inner = split_targs(tn[len('std::vector<'):-1])[0]
            iv = e.vec_at(st, src, s.stride(inner))
            if isinstance(v.buf, SubBuf): raise Unsupported('triple nesting')
            e.set_vec(st, d, iv); return
        for off, t in s.fields(tn):
            e.store(st, d.add(off), e.load(st, src.add(off) if isinstance(src, Ptr) else src, t), t)
    def fields(s, tn):
        if tn == 'double': return [(0, T('double'))]
        if tn in ('int', 'unsigned int'): return [(0, T('int', 32))]
        if tn in ('long', 'unsigned long') or tn.endswith('*'): return [(0, T('int', 64))]
        if tn == 'bool': return [(0, T('int', 8))]
        if tn in ('std::pair<double, double>', 'std::complex<double>'): return [(0, T('double')), (8, T('double'))]
        if tn == 'std::pair<int, double>': return [(0, T('int', 32)), (8, T('double'))]
        k = s.e.opts.get('fields', {}).get(tn)
        if k: return k
        m = re.match(r'std::pair<(.*)>$', tn)
        if m:
            a, b = split_targs(m.group(1))
            fa = s.fields(a); fb = s.fields(b)
            sb = s.stride(b); off = (s.stride(a) + 7) // 8 * 8 if sb >= 8 else s.stride(a)
            return fa + [(off + o, t) for o, t in fb]
        t = None
        for k in s.e.M.types:
            if k in ('struct.' + tn, 'class.' + tn): t = T('named', k)
        if t is not None:
            out = []
            def rec(t, off):
                r = s.e.M.resolve(t)
                if r.k == 'struct':
                    for i in range(len(r.a)):
                        o, x = s.e.M.field_off(r, i); rec(x, off + o)
                elif r.k == 'array' and r.b.k == 'int' and r.b.a == 8: pass
                elif r.k == 'array':
                    for i in range(r.a): rec(r.b, off + i * s.e.M.sizeof(r.b))
                else: out.append((off, r))
            rec(t, 0); return out
        raise Unsupported('fields of ' + tn)
    def v_push_back(s, st, tn, ps, args, site):
        e = s.e
        v = s.vv(st, args[0], tn)
        nv = VecVal(v.buf, iadd(v.n, 1))
        s.elem_store(st, v, v.n, tn, args[1])
        if isinstance(v.buf, SubBuf): s.set_len(st, args[0], nv.n)
        else: e.set_vec(st, args[0], nv)
        return s.ret(st)
    def set_len(s, st, p, n):
        """set the length of a vector in place"""
        e = s.e
        o = e.get(st, p.obj)
        if o.kind == 'cells':
            v = o.d[p.off]; e.set_vec(st, p, VecVal(v.buf, n)); return
        idx, inner = e.arr_index(o, p)
        k, ln, sd, fs = o.f[inner]
        c = o.copy(); c.f[inner] = (k, z3.Store(ln, I(idx), I(n)), sd, fs); st.mem[p.obj] = c
        e.note_write(st, p.obj, inner)
    def v_emplace_back(s, st, tn, ps, args, site):
        e = s.e
        v = s.vv(st, args[0], tn)
        a = args[1:]
        if len(a) == 0:
            for off, t in s.fields(tn): e.store(st, s.eptr(st, v, v.n, tn).add(off), e.zero_of(t), t)
        elif len(a) == 1 and (ps and re.sub(r'\bconst\b|&|\s+$', '', ps[0]).strip() == tn):
            s.elem_store(st, v, v.n, tn, a[0])
        elif tn.startswith('std::pair<') and len(a) == 2:
            m = split_targs(tn[len('std::pair<'):-1])
            d = s.eptr(st, v, v.n, tn)
            off2 = [o for o, t in s.fields(tn)][len(s.fields(m[0]))]
            for k, (tt, off) in enumerate(((m[0], 0), (m[1], off2))):
                s.conv_store(st, d.add(off), tt, ps[k], a[k])
        elif tn == 'std::complex<double>' and len(a) == 2:
            d = s.eptr(st, v, v.n, tn)
            for k in range(2): s.conv_store(st, d.add(8 * k), 'double', ps[k], a[k])
        elif tn in ('double', 'int') and len(a) == 1:
            s.conv_store(st, s.eptr(st, v, v.n, tn), tn, ps[0], a[0])
        elif tn.startswith('std::pair<') and len(a) == 1 and ps[0].startswith('std::pair<'):
            # converting pair
            src = re.sub(r'\bconst\b|&', '', ps[0]).strip()
            sa = split_targs(src[len('std::pair<'):-1]); da = split_targs(tn[len('std::pair<'):-1])
            so = [0, 8 if s.stride(sa[1]) == 8 or s.stride(sa[0]) == 8 else 4]; do = [o for o, t in s.fields(tn)]
            d = s.eptr(st, v, v.n, tn)
            for k in range(2): s.conv_store(st, d.add(do[k]), da[k], sa[k], a[0].add(so[k]))
        else:
            # run the constructor on a temporary if it exists in the module
            tmp = s.construct_tmp(st, tn, ps, a)
            s.elem_store(st, v, v.n, tn, tmp)
        s.set_len(st, args[0], iadd(v.n, 1))
        return s.ret(st, s.eptr(st, v, v.n, tn))
    def construct_tmp(s, st, tn, ps, a):
        e = s.e
        cname = tn.split('<')[0].split('::')[-1]
        for n, d in e.dem.items():
            if d.startswith(tn + '::' + cname + '(') and e.M.funcs.get(n) is not None and len(e.M.funcs[n].params) == len(a) + 1 and not re.search(r'\(' + re.escape(tn) + r'( const)?&', d):
                o = Ptr(e.new_obj(st, Cells({}, None, 'tmp')))
                f = e.M.funcs[n]; vals = [o]
                for (pn, t, at), x in zip(f.params[1:], a):
                    vals.append(e.load(st, x, t) if t.k != 'ptr' else x)
                outs = e.call(st, n, vals)
                if len(outs) != 1 or outs[0].kind != 'ret': raise Unsupported('emplace constructor forks')
                return o
        raise Unsupported(f'emplace_back<{ps}> of {tn}')
    def conv_store(s, st, d, dt, stn, src):
        e = s.e
        stn = re.sub(r'\bconst\b|&', '', stn).strip()
        if stn not in ('double', 'int', 'long', 'unsigned long', 'unsigned int', 'float', 'bool'):
            if stn == dt: 
                for off, t in s.fields(dt): e.store(st, d.add(off), e.load(st, src.add(off), t), t)
                return
            raise Unsupported(f'conversion {stn} -> {dt}')
        t = {'double': T('double'), 'int': T('int', 32), 'unsigned int': T('int', 32), 'long': T('int', 64), 'unsigned long': T('int', 64), 'float': T('float'), 'bool': T('int', 8)}[stn]
        v = e.load(st, src, t)
        if dt == 'double' and t.k == 'int': v = e.cast(st, 'sitofp', v, t, T('double'))
        elif dt == 'int' and t.k == 'double': v = e.cast(st, 'fptosi', v, t, T('int', 32))
        e.store(st, d, v, s.fields(dt)[0][1])
    def v_pop_back(s, st, tn, ps, args, site):
        v = s.vv(st, args[0], tn); s.vbound(st, 0, v.n, 'pop_back-of-nonempty', site); s.set_len(st, args[0], isub(v.n, 1)); return s.ret(st)
    def v_clear(s, st, tn, ps, args, site):
        v = s.vv(st, args[0], tn); s.set_len(st, args[0], 0); return s.ret(st)
    def v_reserve(s, st, tn, ps, args, site): s.vv(st, args[0], tn); return s.ret(st)
    def v_shrink_to_fit(s, st, tn, ps, args, site): return s.ret(st)
    def v_dtor(s, st, tn, ps, args, site): return s.ret(st)
    def new_filled(s, st, tn, n, valp=None, zero=True):
        """fresh buffer with every element equal to *valp or zero"""
        e = s.e
        buf = e.new_arr(st, s.stride(tn), 'vec')
        if tn.startswith('std::vector<'):
            inner = split_targs(tn[len('std::vector<'):-1])[0]
            isd = s.stride(inner)
            o = st.mem[buf].copy()
            if valp is None:
                fs = {off: z3.K(z3.IntSort(), z3.K(z3.IntSort(), z3.RealVal(0) if t.k == 'double' else z3.IntVal(0))) for off, t in s.fields(inner)} if not inner.startswith('std::vector') else {}
                o.f[0] = ('vec', z3.K(z3.IntSort(), z3.IntVal(0)), isd, fs)
            else:
                iv = e.vec_at(st, valp, isd)
                if isinstance(iv.buf, SubBuf):
                    _, _, _, fs0 = e.nested_field(st, iv.buf.obj, iv.buf.inner); src = {io: z3.Select(a, I(iv.buf.idx)) for io, a in fs0.items()}
                else:
                    src = dict(st.mem[iv.buf].f)
                    for off, t in s.fields(inner):
                        if off not in src: src[off] = e.arr_field(st, iv.buf, off, e.sort_of(t))
                o = st.mem[buf].copy()
                o.f[0] = ('vec', z3.K(z3.IntSort(), I(iv.n)), isd, {io: z3.K(z3.IntSort(), a) for io, a in src.items()})
            st.mem[buf] = o
            return buf
        o = st.mem[buf].copy()
        try: fl = s.fields(tn)
        except Unsupported:
            if valp is None: return buf
            raise
        for off, t in fl:
            so = e.sort_of(t)
            if so is None: continue
            if valp is None: o.f[off] = z3.K(z3.IntSort(), z3.RealVal(0) if so == z3.RealSort() else z3.IntVal(0))
            else:
                x = e.load(st, valp.add(off), t)
                o.f[off] = z3.K(z3.IntSort(), e.conv_in(x, so))
        st.mem[buf] = o
        return buf
    def v_ctor(s, st, tn, ps, args, site):
        e = s.e
        p = args[0]
        a = [x for x in ps if 'std::allocator<' not in x or x.startswith('std::vector') or x.startswith('std::initializer_list')]
        key = [re.sub(r'\s+', ' ', x) for x in a]
        if len(args) == 1 or not key or (len(key) == 1 and key[0].startswith('std::allocator')):
            e.set_vec(st, p, VecVal(e.new_arr(st, s.stride(tn), 'vec'), 0)); return s.ret(st)
        if key[0].startswith('std::vector<'):
            v = s.vv(st, args[1], tn)
            if key[0].endswith('&&') or key[0].endswith('&& '):
                if isinstance(v.buf, SubBuf): e.set_vec(st, p, VecVal(e.copy_buf(st, v.buf), v.n))
                else: e.set_vec(st, p, v)
                e.set_vec(st, args[1], VecVal(e.new_arr(st, s.stride(tn), 'moved'), 0))
            else:
                e.set_vec(st, p, VecVal(e.copy_buf(st, v.buf), v.n))
            return s.ret(st)
        if key[0].startswith('std::initializer_list<'):
            begin, n = args[1], args[2]
            if isinstance(begin, list): begin, n = begin[0], begin[1]
            buf = e.new_arr(st, s.stride(tn), 'vec')
            if not isnum(n): raise Unsupported('initializer_list of symbolic length')
            v = VecVal(buf, n)
            sd = s.stride(tn)
            for i in range(n): s.elem_store(st, v, i, tn, begin.add(sd * i))
            e.set_vec(st, p, v); return s.ret(st)
        if key[0] in ('unsigned long',):
            n = args[1]
            valp = None
            if len(key) >= 2 and not key[1].startswith('std::allocator'): valp = args[2]
            buf = s.new_filled(st, tn, n, valp)
            e.set_vec(st, p, VecVal(buf, n)); return s.ret(st)
        if '__normal_iterator' in key[0] or key[0].endswith('*'):
            b, en = s.itptr(st, args[1], key[0]), s.itptr(st, args[2], key[0])
            return s.from_range(st, p, tn, b, en)
        raise Unsupported(f'vector constructor ({", ".join(ps)})')
    def itptr(s, st, x, ty=''):
        """iterator passed by value: either the raw pointer (coerced) or pointer"""
        return x
    def range_info(s, st, b, en, tn):
        e = s.e
        if isinstance(b, Opaque) or isinstance(en, Opaque): raise Unsupported('opaque iterator range')
        if b.obj != en.obj: raise Unsupported('iterators into different objects')
        sd = s.stride(tn)
        n = e.exact_div(e.ptr_diff(en, b), sd)
        n = simp_int(n) if z3.is_expr(n) else n
        i0, inner = e.arr_index(Arr(sd), b)
        if inner: raise Unsupported('iterator misaligned')
        return i0, n
    def from_range(s, st, p, tn, b, en):
        e = s.e
        i0, n = s.range_info(st, b, en, tn)
        if isinstance(b.obj, int) and e.get(st, b.obj).kind == 'cells':
            buf = e.new_arr(st, s.stride(tn), 'vec'); v = VecVal(buf, n)
            for i in range(n): s.elem_store(st, v, i, tn, b.add(s.stride(tn) * i))
            e.set_vec(st, p, v); return s.ret(st)
        if isnum(i0) and i0 == 0: buf = e.copy_buf(st, b.obj)
        else:
            buf = e.new_arr(st, s.stride(tn), 'rng')
            s.copy_range(st, buf, 0, b.obj, i0, n)
        e.set_vec(st, p, VecVal(buf, n)); return s.ret(st)
    def v_assign_op(s, st, tn, ps, args, site):
        e = s.e
        if ps[0].startswith('std::initializer_list'):
            s.v_ctor(st, tn, ps, args, site); return s.ret(st, args[0])
        v = s.vv(st, args[1], tn)
        if s.same_ptr(args[0], args[1]): return s.ret(st, args[0])
        if ps[0].rstrip().endswith('&&') and not isinstance(v.buf, SubBuf):
            e.set_vec(st, args[0], v); e.set_vec(st, args[1], VecVal(e.new_arr(st, s.stride(tn), 'moved'), 0))
        else: e.set_vec(st, args[0], VecVal(e.copy_buf(st, v.buf), v.n))
        return s.ret(st, args[0])
    def same_ptr(s, a, b): return isinstance(a, Ptr) and isinstance(b, Ptr) and s.e.val_same(a, b)
    def v_swap(s, st, tn, ps, args, site):
        a = s.vv(st, args[0], tn); b = s.vv(st, args[1], tn)
        s.e.set_vec(st, args[0], b); s.e.set_vec(st, args[1], a); return s.ret(st)
    def v_resize(s, st, tn, ps, args, site):
        e = s.e
        v = s.vv(st, args[0], tn); n = args[1]
        valp = args[2] if len(args) > 2 else None
        if isnum(v.n) and v.n == 0:
            e.set_vec(st, args[0], VecVal(s.new_filled(st, tn, n, valp), n)); return s.ret(st)
        if isinstance(v.buf, SubBuf): raise Unsupported('resize nested')
        if tn.startswith('std::vector<'): raise Unsupported('resize of non-empty vector of vectors')
        o = st.mem[v.buf].copy()
        for off, t in s.fields(tn):
            so = e.sort_of(t); old = e.arr_field(st, v.buf, off, so); o.f[off] = old
            fill = e.conv_in(e.load(st, valp.add(off), t), so) if valp is not None else (z3.RealVal(0) if so == z3.RealSort() else z3.IntVal(0))
            e.cnt += 1; new = z3.Array(f'rs{v.buf}.{off}!{e.cnt}', z3.IntSort(), so)
            s.arr_axiom(st, new, lambda k, old=old, fill=fill, n0=v.n: z3.If(k < I(n0), z3.Select(old, k), fill))
            o.f[off] = new; e.note_write(st, v.buf, off)
        st.mem[v.buf] = o
        s.set_len(st, args[0], n)
        return s.ret(st)
    def v_assign(s, st, tn, ps, args, site):
        e = s.e
        if ps[0] in ('unsigned long',):
            e.set_vec(st, args[0], VecVal(s.new_filled(st, tn, args[1], args[2]), args[1])); return s.ret(st)
        d = e.dem.get(s.cur_name, '')
        m = re.search(r'::assign<(ranges::basic_iterator<ranges::adaptor_cursor<__gnu_cxx::__normal_iterator<.*>>), void>\(', d)
        if m and tn == 'double' and len(args) == 5:
            it = m.group(1)
            fn = next((n for n, f_ in e.M.funcs.items() if n.startswith('_ZNK6ranges14basic_iterator') and 'deEv' in n and it in e.dem.get(n, '')), None)
            if fn is None: raise Unsupported('range element of ' + it[:80])
            esz = 8 if '__normal_iterator<double' in it else None
            if esz is None: raise Unsupported('range over ' + it[:80])
            n = e.ptr_diff(args[3], args[1]); n = s.e.exact_div(n, esz) if not isnum(n) else n // esz
            ph = s.ph()
            o = e.new_obj(st, Cells({0: args[1].add(0, {esz: ph}), 8: args[2]}, 16, 'it'))
            val = R(s.eval_lambda(st, fn, Ptr(o), []))
            buf = e.new_obj(st, Arr(8, {}, 'range'))
            a = e.arr_field(st, buf, 0, z3.RealSort())
            fn_ = lambda k, v=val, p=ph: z3.substitute(v, (p, I(k)))
            s.arr_axiom(st, a, fn_)
            e.defarr[a.get_id()] = (a, fn_)
            e.set_vec(st, args[0], VecVal(buf, n))
            return s.ret(st)
        raise Unsupported('vector::assign ' + str(ps))
    def v_insert(s, st, tn, ps, args, site):
        e = s.e
        v = s.vv(st, args[0], tn)
        pos = args[1]
        sd = s.stride(tn)
        pi, _ = e.arr_index(Arr(sd), pos)
        if len(args) == 4 and isinstance(args[2], Ptr) and isinstance(args[3], Ptr):
            i0, n = s.range_info(st, args[2], args[3], tn)
            # general insertion: elements shifted
            if isinstance(v.buf, SubBuf): raise Unsupported('insert nested')
            src = {off: (e.arr_field(st, args[2].obj, off, e.sort_of(t)) if not isinstance(args[2].obj, SubBuf) else z3.Select(e.sub_arr(st, args[2].obj, off, e.sort_of(t)), I(args[2].obj.idx))) for off, t in s.fields(tn)}
            return s.insert_gen(st, args[0], v, tn, pi, n, lambda off, k: z3.Select(src[off], k - I(pi) + I(i0)), pos)
        if len(args) == 3:
            vals = {off: e.conv_in(e.load(st, args[2].add(off), t), e.sort_of(t)) for off, t in s.fields(tn)}
            return s.insert_gen(st, args[0], v, tn, pi, 1, lambda off, k: vals[off], pos)
        raise Unsupported('vector::insert ' + str(ps))
    def insert_gen(s, st, p, v, tn, pi, n, f, pos):
        e = s.e
        if not st.obl_off: s.e.oblige(st, land(cmpv('ge', pi, 0, False), cmpv('le', pi, v.n, False)), 'insert-position', 'bounds', '')
        o = st.mem[v.buf].copy()
        e.cnt += 1; ev = e.cnt
        for off, t in s.fields(tn):
            so = e.sort_of(t); old = e.arr_field(st, v.buf, off, so)
            e.cnt += 1; new = z3.Array(f'ins{v.buf}.{off}!{e.cnt}', z3.IntSort(), so)
            s.arr_axiom(st, new, lambda k, old=old, off=off: z3.If(k < I(pi), z3.Select(old, k), z3.If(k < I(pi) + I(n), f(off, k), z3.Select(old, k - I(n)))))
            s.events[new.decl().name()] = (ev, 'ins', new, old, I(pi), I(n), f(off, I(pi)) if same(n, 1) else None)
            o.f[off] = new; e.note_write(st, v.buf, off)
        st.mem[v.buf] = o
        s.set_len(st, p, iadd(v.n, n))
        return s.ret(st, pos)
    def v_erase(s, st, tn, ps, args, site):
        e = s.e
        v = s.vv(st, args[0], tn); sd = s.stride(tn)
        pi, _ = e.arr_index(Arr(sd), args[1])
        if len(args) == 3: pj, _ = e.arr_index(Arr(sd), args[2]); n = isub(pj, pi)
        else: n = 1
        if isinstance(v.buf, SubBuf): raise Unsupported('erase nested')
        if not st.obl_off:
            s.e.oblige(st, land(cmpv('ge', pi, 0, False), cmpv('le', iadd(pi, n), v.n, False)), 'erase-position', 'bounds', site)
        if same(simp_int(I(iadd(pi, n))) if z3.is_expr(iadd(pi, n)) else iadd(pi, n), v.n):
            s.set_len(st, args[0], pi); return s.ret(st, args[1])
        o = st.mem[v.buf].copy()
        e.cnt += 1; ev = e.cnt
        for off, t in s.fields(tn):
            so = e.sort_of(t); old = e.arr_field(st, v.buf, off, so)
            e.cnt += 1; new = z3.Array(f'era{v.buf}.{off}!{e.cnt}', z3.IntSort(), so)
            s.arr_axiom(st, new, lambda k, old=old: z3.If(k < I(pi), z3.Select(old, k), z3.Select(old, k + I(n))))
            s.events[new.decl().name()] = (ev, 'era', new, old, I(pi), I(n), None)
            o.f[off] = new; e.note_write(st, v.buf, off)
        st.mem[v.buf] = o
        s.set_len(st, args[0], isub(v.n, n))
        return s.ret(st, args[1])
    def vec_eq(s, st, name, args, site):
        raise Unsupported('vector comparison')
    # ------------------------------------------------------------------ std::map with scalar keys: a sorted array of pairs
    def map_method(s, name, d):
        i = s.qual_start(d)
        if i is None:
            i = 0
        q = d[i:]
        if 'std::_Rb_tree_iterator<' in d or 'std::_Rb_tree_const_iterator<' in d:
            m = re.match(r'(std::)?operator(==|!=)\(std::_Rb_tree_(const_)?iterator<', q)
            if m:
                ne = m.group(2) == '!='
                def cmp(st, name, args, site):
                    r = s.e.ptr_eq(s.e.load(st, args[0], T('ptr')), s.e.load(st, args[1], T('ptr')))
                    return s.ret(st, lnot(r) if ne else r)
                return cmp
        for pre in ('std::_Rb_tree_iterator<', 'std::_Rb_tree_const_iterator<'):
            if q.startswith(pre):
                j = match_angle(q, len(pre) - 1)
                tn = s.pairn(split_targs(q[len(pre):j - 1])[0])
                if tn is None or q[j:j+2] != '::': return None
                rest = q[j+2:]
                m = re.match(r'operator(\+\+|--|\*|->)\((int)?\)', rest)
                if m:
                    op, post = m.group(1), m.group(2)
                    def it(st, name, args, site):
                        e = s.e
                        p = e.load(st, args[0], T('ptr'))
                        if op in ('*', '->'): return s.ret(st, p)
                        sd = s.stride(tn)
                        n = p.add(sd if op == '++' else -sd)
                        e.store(st, args[0], n, T('ptr'))
                        return s.ret(st, p if post else args[0])
                    return it
                if re.match(r'_Rb_tree_const_iterator\(', rest):
                    def ctor(st, name, args, site):
                        s.e.store(st, args[0], s.e.load(st, args[1], T('ptr')), T('ptr')); return s.ret(st)
                    return ctor if '_iterator<' in rest else None
                if rest.startswith('_M_const_cast('):
                    return lambda st, name, args, site: s.ret(st, s.e.load(st, args[0], T('ptr')))
                return None
        if not q.startswith('std::map<'): return None
        j = match_angle(q, len('std::map'))
        if q[j:j+2] != '::': return None
        targs = split_targs(q[len('std::map<'):j - 1])
        if len(targs) >= 3 and not targs[2].startswith('std::less<'): return None
        tn = s.pairn(f'std::pair<{targs[0]} const, {targs[1]}>')
        if tn is None: return None
        rest = q[j+2:]
        m = re.match(r'(operator\[\]|operator=|~?\w+)', rest)
        if not m: return None
        meth = m.group(1); k = m.end()
        if k < len(rest) and rest[k] == '<': k = match_angle(rest, k)
        params = split_targs(rest[k+1:rest.rfind(')')])
        nm = {'operator[]': 'idx', 'operator=': 'assign', 'map': 'ctor', '~map': 'dtor'}.get(meth, meth)
        h = getattr(s, 'm_' + nm, None)
        if h is None: return lambda st, name, args, site: (_ for _ in ()).throw(Unsupported('std::map::' + meth))
        def run(st, name, args, site):
            s.trust('libstdc++ std::map (sorted sequence of key/value pairs; standard postconditions; no iterator kept across an insertion)')
            return h(st, tn, params, args, site)
        return run
    def pairn(s, p):
        """normalised pair type with scalar key, or None"""
        m = re.match(r'std::pair<(.*)>$', p)
        if not m: return None
        a, b = split_targs(m.group(1))
        a = a.replace(' const', '').replace('const ', '').strip()
        if a not in ('double', 'int', 'unsigned int', 'long', 'unsigned long'): return None
        return f'std::pair<{a}, {b}>'
    def mkey(s, tn): return split_targs(tn[len('std::pair<'):-1])[0]
    def mv(s, st, p, tn):
        """map contents with the ordering invariant of std::map"""
        e = s.e
        v = s.vv(st, p, tn)
        if isinstance(v.buf, SubBuf): raise Unsupported('nested map')
        kt = s.fields(s.mkey(tn))[0][1]
        ka = e.arr_field(st, v.buf, 0, e.sort_of(kt))
        if not (isnum(v.n) and v.n <= 1):
            n = I(v.n)
            key = ('mapord', ka.get_id(), n.get_id())
            if not hasattr(s, 'keep'): s.keep = []
            q = e.sumkey.get(key)
            if q is None:
                e.cnt += 1; nm = f'Q!{e.cnt}'; q = z3.Bool(nm)
                e.qrecs[nm] = QRec(q, z3.IntVal(0), n, lambda a, c, ka=ka: z3.Implies(a < c, z3.Select(ka, a) < z3.Select(ka, c)), 2)
                e.qrecs[nm].sk = [z3.IntVal(0)] * 2; e.qrecs[nm].skf = z3.BoolVal(True)
                e.sumkey[key] = q; s.keep.append((ka, n))
            if not any(q.eq(x) for x in st.pc): st.assume_def(q)
        return v, ka
    def mkeyval(s, st, tn, p):
        kt = s.fields(s.mkey(tn))[0][1]
        x = s.e.load(st, p, kt)
        return R(x) if kt.k == 'double' else I(x)
    def mlower(s, st, tn, v, ka, k, strict=False):
        """fresh index of the lower (upper) bound of key k"""
        e = s.e
        n = I(v.n)
        key = ('lb', ka.get_id(), n.get_id(), k.get_id(), strict)
        if key in e.sumkey:
            p, fs = e.sumkey[key]
            for f in fs:
                if not any(f.eq(x) for x in st.pc): st.assume_def(f)
            return p
        p = e.fresh('I', 'lb'); m0 = len(st.pc)
        st.assume_def(z3.And(p >= 0, p <= n))
        lt = (lambda a: a <= k) if strict else (lambda a: a < k)
        s.assume_forall(st, z3.IntVal(0), n, lambda j: z3.And(z3.Implies(j < p, lt(z3.Select(ka, j))), z3.Implies(j >= p, z3.Not(lt(z3.Select(ka, j))))))
        # immediate instances
        st.assume_def(z3.And(z3.Implies(p < n, z3.Not(lt(z3.Select(ka, p)))), z3.Implies(p > 0, lt(z3.Select(ka, p - 1)))))
        e.sumkey[key] = (p, st.pc[m0:]); s.keep.append((ka, n, k))
        return p
    def m_ctor(s, st, tn, ps, args, site):
        e = s.e
        if len(args) == 1: e.set_vec(st, args[0], VecVal(e.new_arr(st, s.stride(tn), 'map'), 0)); return s.ret(st)
        if ps and ps[0].startswith('std::map<') and len(args) == 2:
            v = s.vv(st, args[1], tn)
            if ps[0].rstrip().endswith('&&'):
                e.set_vec(st, args[0], v); e.set_vec(st, args[1], VecVal(e.new_arr(st, s.stride(tn), 'map'), 0))
            else: e.set_vec(st, args[0], VecVal(e.copy_buf(st, v.buf), v.n))
            return s.ret(st)
        raise Unsupported('map constructor ' + str(ps))
    def m_assign(s, st, tn, ps, args, site):
        v = s.vv(st, args[1], tn); s.e.set_vec(st, args[0], VecVal(s.e.copy_buf(st, v.buf), v.n)); return s.ret(st, args[0])
    def m_dtor(s, st, tn, ps, args, site): return s.ret(st)
    def m_size(s, st, tn, ps, args, site): return s.ret(st, s.vv(st, args[0], tn).n)
    def m_empty(s, st, tn, ps, args, site): return s.ret(st, cmpv('eq', s.vv(st, args[0], tn).n, 0, False))
    def m_clear(s, st, tn, ps, args, site): s.vv(st, args[0], tn); s.set_len(st, args[0], 0); return s.ret(st)
    def m_begin(s, st, tn, ps, args, site): v, _ = s.mv(st, args[0], tn); return s.ret(st, Ptr(v.buf))
    m_cbegin = m_begin
    def m_end(s, st, tn, ps, args, site): v, _ = s.mv(st, args[0], tn); return s.ret(st, s.eptr(st, v, v.n, tn))
    m_cend = m_end
    def m_lower_bound(s, st, tn, ps, args, site):
        v, ka = s.mv(st, args[0], tn); return s.ret(st, s.eptr(st, v, s.mlower(st, tn, v, ka, s.mkeyval(st, tn, args[1])), tn))
    def m_upper_bound(s, st, tn, ps, args, site):
        v, ka = s.mv(st, args[0], tn); return s.ret(st, s.eptr(st, v, s.mlower(st, tn, v, ka, s.mkeyval(st, tn, args[1]), True), tn))
    def mfound(s, st, tn, v, ka, k):
        p = s.mlower(st, tn, v, ka, k)
        return p, z3.And(p < I(v.n), z3.Select(ka, p) == k)
    def m_find(s, st, tn, ps, args, site):
        v, ka = s.mv(st, args[0], tn)
        p, f = s.mfound(st, tn, v, ka, s.mkeyval(st, tn, args[1]))
        outs = []
        for c, r in ((f, p), (z3.Not(f), v.n)):
            if s.e.feasible(st, c):
                t = st.copy(); t.assume(c); outs.append(Outcome('ret', t, s.eptr(t, v, r, tn)))
        return outs
    def m_count(s, st, tn, ps, args, site):
        v, ka = s.mv(st, args[0], tn)
        p, f = s.mfound(st, tn, v, ka, s.mkeyval(st, tn, args[1]))
        return s.ret(st, z3.If(f, z3.IntVal(1), z3.IntVal(0)))
    def m_contains(s, st, tn, ps, args, site):
        v, ka = s.mv(st, args[0], tn)
        return s.ret(st, s.mfound(st, tn, v, ka, s.mkeyval(st, tn, args[1]))[1])
    def m_at(s, st, tn, ps, args, site):
        v, ka = s.mv(st, args[0], tn)
        o2 = s.fields(tn)[1][0]
        p, f = s.mfound(st, tn, v, ka, s.mkeyval(st, tn, args[1]))
        outs = []
        if s.e.feasible(st, z3.Not(f)):
            t = st.copy(); t.assume(z3.Not(f)); outs.append(Outcome('throw', t, '_ZTISt12out_of_range'))
        st = st.copy(); st.assume(f)
        return [Outcome('ret', st, s.eptr(st, v, p, tn).add(o2))] + outs
    def minsert(s, st, tn, mp, k, vals):
        """branch on presence; returns [(state, ptr, inserted)]"""
        e = s.e
        v, ka = s.mv(st, mp, tn)
        p, f = s.mfound(st, tn, v, ka, k)
        outs = []
        if e.feasible(st, f):
            t = st.copy(); t.assume(f); outs.append((t, s.eptr(t, v, p, tn), False))
        if e.feasible(st, z3.Not(f)):
            t = st.copy(); t.assume(z3.Not(f))
            s.insert_gen(t, mp, v, tn, p, 1, lambda off, kk: vals[off], None)
            outs.append((t, s.eptr(t, v, p, tn), True))
        return outs
    def m_idx(s, st, tn, ps, args, site):
        k = s.mkeyval(st, tn, args[1])
        vals = {}
        for off, t in s.fields(tn): vals[off] = k if off == 0 else (z3.RealVal(0) if s.e.sort_of(t) == z3.RealSort() else z3.IntVal(0))
        o2 = s.fields(tn)[1][0]
        return [Outcome('ret', t, p.add(o2)) for t, p, _ in s.minsert(st, tn, args[0], k, vals)]
    def m_insert(s, st, tn, ps, args, site):
        if len(args) != 2: raise Unsupported('map::insert')
        k = s.mkeyval(st, tn, args[1])
        vals = {off: s.e.conv_in(s.e.load(st, args[1].add(off), t), s.e.sort_of(t)) for off, t in s.fields(tn)}
        return [Outcome('ret', t, [p, 1 if i else 0]) for t, p, i in s.minsert(st, tn, args[0], k, vals)]
    def m_emplace(s, st, tn, ps, args, site):
        fl = s.fields(tn)
        if len(args) != 3 or len(fl) != 2: raise Unsupported('map::emplace')
        vals = {}
        for (off, t), a, ty in zip(fl, args[1:], ps[-2:]):
            src = T('double') if 'double' in ty else T('int', 64 if 'long' in ty else 32)
            x = s.e.load(st, a, src); vals[off] = s.e.conv_in(x, z3.RealSort() if src.k == 'double' else z3.IntSort())
            if vals[off].sort() != s.e.sort_of(t): raise Unsupported('map::emplace conversion')
        return [Outcome('ret', t, [p, 1 if i else 0]) for t, p, i in s.minsert(st, tn, args[0], vals[0], vals)]
    def m_erase(s, st, tn, ps, args, site):
        if len(args) == 2 and isinstance(args[1], Ptr) and '_Rb_tree' in ps[0]:
            s.mv(st, args[0], tn)
            return s.v_erase(st, tn, ps, args, site)
        raise Unsupported('map::erase by key')
    # ------------------------------------------------------------------ algorithms
    def std_sort(s, st, name, args, site):
        """std::sort(first,last[,cmp]): the range becomes a permutation of itself, ordered"""
        e = s.e
        d = e.dem[name]
        b, en = args[0], args[1]
        if isinstance(b, Opaque): raise Unsupported('sort opaque')
        m = re.search(r'__normal_iterator<(.*?)\*, std::vector', d)
        tn = m.group(1).strip() if m else None
        if tn is None:
            m = re.search(r'sort<([\w:]+(?:<.*?>)?)\*', d); tn = m.group(1) if m else 'double'
        sd = s.stride(tn)
        i0, n = s.range_info(st, b, en, tn)
        if isinstance(b.obj, SubBuf): raise Unsupported('sort nested')
        s.trust('std::sort')
        flds = s.fields(tn)
        o = st.mem[b.obj].copy()
        olds, news = {}, {}
        for off, t in flds:
            so = e.sort_of(t); olds[off] = e.arr_field(st, b.obj, off, so)
            e.cnt += 1; news[off] = z3.Array(f'srt{b.obj}.{off}!{e.cnt}', z3.IntSort(), so)
        o = st.mem[b.obj].copy()
        for off in news: o.f[off] = news[off]; e.note_write(st, b.obj, off)
        st.mem[b.obj] = o
        e.cnt += 1
        p = z3.Function(f'p_perm!{e.cnt}', z3.IntSort(), z3.IntSort()); pinv = z3.Function(f'p_permi!{e.cnt}', z3.IntSort(), z3.IntSort())
        lo, hi = I(i0), I(iadd(i0, n))
        s.assume_forall(st, lo, hi, lambda k: z3.And(p(k) >= lo, p(k) < hi, pinv(p(k)) == k, *[z3.Select(news[x], k) == z3.Select(olds[x], p(k)) for x in news]))
        s.assume_forall(st, lo, hi, lambda k: z3.And(pinv(k) >= lo, pinv(k) < hi, p(pinv(k)) == k))
        # order
        if len(args) >= 3 or '_Compare' in d or re.search(r'lambda|std::greater|std::less', d.split('sort<')[1] if 'sort<' in d else ''):
            cmpn = s.cmp_of(name, d)
            objp = args[2] if len(args) > 2 else Ptr(e.new_obj(st, Cells()))
            if not isinstance(objp, Ptr): objp = Ptr(e.new_obj(st, Cells()))
            snap = st.copy()
            i, j = s.std_ph(40), s.std_ph(41)
            v = s.eval_lambda(snap, cmpn, objp, [Ptr(b.obj, 0, {sd: j}), Ptr(b.obj, 0, {sd: i})]) # cmp(a[j],a[i]) must be false for i<j
            body = z3.Implies(i < j, z3.Not(B(v)))
            s.assume_forall(st, lo, hi, lambda a, c: z3.substitute(body, (i, a), (j, c)), 2)
        elif tn == 'double' or tn == 'int': s.assume_forall(st, lo, hi, lambda a, c: z3.Implies(a < c, z3.Select(news[0], a) <= z3.Select(news[0], c)), 2)
        elif tn == 'std::pair<double, double>':
            s.assume_forall(st, lo, hi, lambda a, c: z3.Implies(a < c, z3.Or(z3.Select(news[0], a) < z3.Select(news[0], c), z3.And(z3.Select(news[0], a) == z3.Select(news[0], c), z3.Select(news[8], a) <= z3.Select(news[8], c)))), 2)
        else: raise Unsupported('sort of ' + tn)
        # sums of element-local summands over the sorted range are preserved (permutation invariance)
        e.cnt += 1
        for x in news: s.events[news[x].decl().name()] = (e.cnt, 'perm', news[x], olds[x], lo, hi, None)
        return s.ret(st)
    def cmp_of(s, name, d):
        """find the comparator's operator() in the call graph below std::sort"""
        e = s.e
        seen = set(); stack = [name]
        want = None
        while stack:
            n = stack.pop()
            if n in seen: continue
            seen.add(n)
            f = e.M.funcs.get(n)
            if f is None: continue
            ir.materialize(f)
            for b in f.order:
                for ins in f.blocks[b].ins:
                    if ins.op in ('call', 'invoke') and ins.x['callee'].k == 'glb':
                        c = ins.x['callee'].v; cd = e.dem.get(c, '')
                        if 'operator()' in cd and '__gnu_cxx::__ops::' not in cd[:40] and '_Iter_' not in cd.split('operator()')[0][-60:]: return c
                        if cd.startswith('std::') or '__gnu_cxx' in cd or cd.startswith('void std::') or cd.startswith('bool __gnu_cxx'): stack.append(c)
        raise Unsupported('comparator of sort')
    # ------------------------------------------------------------------ GMP floats as reals
    def gmpf(s, st, name, args, site):
        e = s.e
        s.trust('GMP mpf arithmetic (exact)')
        op = name[len('__gmpf_'):]
        D = T('double')
        def ld(p): return e.load(st, p, D)
        def sto(p, v):
            e.store(st, p, R(v) if not isnum(v) else Q(v), D); return s.ret(st)
        a = args
        if op in ('init', 'init2'): return sto(a[0], Q(0))
        if op == 'clear' or op == 'set_default_prec': return s.ret(st)
        if op in ('set', 'set_d', 'init_set', 'init_set_d'): return sto(a[0], ld(a[1]) if op in ('set', 'init_set') else a[1])
        if op == 'set_si' or op == 'set_ui': return sto(a[0], e.cast(st, 'sitofp', a[1], T('int', 64), D))
        if op == 'add': return sto(a[0], radd(ld(a[1]), ld(a[2])))
        if op == 'sub': return sto(a[0], rsub(ld(a[1]), ld(a[2])))
        if op == 'mul': return sto(a[0], rmul(ld(a[1]), ld(a[2])))
        if op == 'div': 
            if not st.obl_off and e.opts.get('gmp_div', True): e.oblige(st, cmpv('ne', ld(a[2]), 0, True), 'mpf_div-by-nonzero', 'div', site)
            return sto(a[0], rdiv(ld(a[1]), ld(a[2])))
        if op == 'neg': return sto(a[0], rneg(ld(a[1])))
        if op == 'abs': x = ld(a[1]); return sto(a[0], z3.If(R(x) >= 0, R(x), -R(x)))
        if op == 'sqrt':
            x = ld(a[1])
            if not st.obl_off: e.oblige(st, cmpv('ge', x, 0, True), 'mpf_sqrt-of-nonnegative', 'div', site)
            return sto(a[0], s.mk('sqrt', x))
        if op == 'get_d': return s.ret(st, ld(a[0]))
        if op == 'pow_ui':
            r = s.c_pow(st, 'pow', [ld(a[1]), Q(a[2]) if isnum(a[2]) else z3.ToReal(a[2])], site)
            return sto(a[0], r[0].val)
        if op == 'get_prec': return s.ret(st, 400)
        if op == 'set_default_prec': return s.ret(st)
        if op in ('cmp', 'cmp_d', 'cmp_si', 'cmp_ui', 'sgn'):
            x = ld(a[0]); y = ld(a[1]) if op == 'cmp' else (Q(0) if op == 'sgn' else a[1])
            if op in ('cmp_si', 'cmp_ui') and not isnum(y): y = z3.ToReal(y)
            return s.ret(st, z3.If(R(x) > R(y), z3.IntVal(1), z3.If(R(x) < R(y), z3.IntVal(-1), z3.IntVal(0))))
        if op == 'set_str': return sto(a[0], e.fresh('R', 'mpfstr')) and s.ret(st, 0)
        raise Unsupported(name)
    # ------------------------------------------------------------------ GSL
    def gsl(s, st, name, args, site):
        e = s.e
        h = s.hooks.get(name)
        if h: return h(st, name, args, site)
        if name in ('gsl_set_error_handler_off', 'gsl_set_error_handler'): return s.ret(st, Opaque('nonnull'))
        if re.search(r'_alloc$', name): return s.ret(st, Opaque('nonnull'))
        if re.search(r'_free$', name): return s.ret(st)
        if name == 'gsl_strerror': return s.ret(st, Opaque('nonnull'))
        if name == 'gsl_atanh': return s.app(st, 'atanh', args[0])
        if name == 'gsl_finite': return s.ret(st, 1)
        if name == 'gsl_fcmp':
            return s.c_freshint(st, name, args, site)
        if name == 'gsl_spline_init': return s.ret(st, 0)
        if name in ('gsl_spline_eval',):
            s.trust('GSL spline evaluation (uninterpreted function of the abscissa)')
            return s.ret(st, uf('u_gslspline', 1)(R(args[1])))
        if name.startswith('gsl_integration_qag'):
            s.trust('GSL adaptive quadrature (result unconstrained)')
            r = e.fresh('R', 'qag')
            # result, abserr pointers are the last two args
            e.store(st, args[-2], r, T('double')); e.store(st, args[-1], e.fresh('R', 'abserr'), T('double'))
            return s.ret(st, e.fresh('I', 'status'))
        raise Unsupported(name)

class FRec:
    """fold record"""
    def __init__(s, S, lo, init, f, phk, pha, outer):
        s.S, s.lo, s.init, s.f, s.phk, s.pha, s.outer = S, lo, init, f, phk, pha, outer
        s.links = set(); s.frames = []; s.events = []
    def step(s, k, a): return z3.substitute(s.f, (s.phk, k), (s.pha, a))
    def summand(s):
        """g(k) when f = acc + g(k)"""
        z = z3.substitute(s.f, (s.pha, z3.RealVal(0)))
        return z
    def is_sum(s):
        # f == acc + g(k) syntactically
        f = s.f
        return z3.is_app(f) and f.decl().kind() == z3.Z3_OP_ADD and f.num_args() == 2 and f.arg(0).eq(s.pha) and not s.contains(f.arg(1), s.pha)
    @staticmethod
    def contains(e, x):
        seen = set(); st = [e]
        while st:
            y = st.pop()
            if y.eq(x): return True
            if y.get_id() in seen: continue
            seen.add(y.get_id()); st.extend(y.children())
        return False

C_FUNS = {'fabs': 'fabs', 'sqrt': 'sqrt', 'exp': 'exp', 'expm1': 'expm1', 'log': 'log', 'log1p': 'log1p', 'log10': 'log10', 'log2': 'log2', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan',
          'atan': 'atan', 'atan2': 'atan2', 'atanh': 'atanh', 'erf': 'erf', 'tanh': 'tanh', 'cosh': 'cosh', 'sinh': 'sinh', 'pow': 'pow', 'hypot': 'hypot', 'cabs': 'hypot',
          'floor': 'floor', 'ceil': 'ceil', 'trunc': 'trunc', 'round': 'round', 'fmax': 'fmax', 'fmin': 'fmin', '__muldc3': 'muldc3', '__divdc3': 'divdc3',
          'abort': 'abort', '_ZSt9terminatev': 'abort', 'exit': 'exit', '_exit': 'exit', '__assert_fail': 'assert_fail', 'free': 'noop', '_ZdlPv': 'noop', '_ZdlPvm': 'noop', '_ZdaPv': 'noop', '_ZdaPvm': 'noop', '_ZdlPvSt11align_val_t': 'noop', '_ZdlPvmSt11align_val_t': 'noop',
          '_Znwm': 'new', '_Znam': 'new', 'malloc': 'new', 'strlen': 'strlen', 'memcmp': 'memcmp', 'bcmp': 'memcmp', 'strcmp': 'memcmp', 'atoi': 'freshint', 'atof': 'freshreal', 'clock': 'freshint', 'printf': 'freshint', 'puts': 'freshint', 'getopt': 'freshint', 'isspace': 'freshint', '__clang_call_terminate': 'abort'}

STD = [(re.compile(p), m) for p, m in [
    (r'^std::__throw_', 'throw_std'),
    (r'operator"" ?s(\[abi:cxx11\])?\(char const\*', 'string_lit'),
    (r'^NRG::print_trace\(', 'opaque_this'),
    (r'^std::(runtime_error|invalid_argument|logic_error|domain_error|out_of_range|length_error|exception|range_error)::', 'opaque_this'),
    (r'basic_ostream<.*> ?(const)?& std::operator<<', 'stream_op'),
    (r'^std::basic_ostream<.*>& std::(operator<<|endl|flush|ends)', 'stream_op'),
    (r'^std::ostream::', 'stream_op'),
    (r'^std::basic_ostream<char, std::char_traits<char>>& std::__ostream_insert', 'stream_op'),
    (r'^std::(fixed|scientific|hex|dec|noskipws|skipws|boolalpha|showpoint|left|right|ws|defaultfloat|endl|flush)\b', 'stream_op'),
    (r'^std::ios_base::(precision|width|flags|setf)', 'fresh_ret'),
    (r'^std::(setprecision|setw|setfill)', 'fresh_ret'),
    (r'^std::(basic_)?(ofstream|ifstream|fstream|ostringstream|istringstream|stringstream|filebuf)(<.*>)?::', 'opaque_this'),
    (r'^std::__cxx11::basic_(o|i)?stringstream<', 'opaque_this'),
    (r'^std::basic_ios<.*>::(operator bool|operator!|fail|good|eof|bad|rdstate)', 'fresh_ret'),
    (r'^std::basic_ios<', 'opaque_this'),
    (r'^std::__cxx11::basic_string<char.*?>::', 'string_any'),
    (r'(^|\s)std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> std::operator\+', 'string_any'),
    (r'^std::__cxx11::to_string\(', 'string_any'),
    (r'^bool std::operator(==|!=|<)<char', 'string_eq'),
    (r'\bfmt::v\d+::', 'fmt_any'),
    (r'NRG::color_print<', 'fmt_any'),
    (r'^std::allocator<.*>::', 'opaque_this'),
    (r'^std::__new_allocator<.*>::(~?__new_allocator)', 'opaque_this'),
    (r'^void std::(sort|stable_sort)<', 'std_sort'),
]]

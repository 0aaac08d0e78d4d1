"""Sound linear abstraction of nonlinear arithmetic: polynomials are put in a canonical sum-of-monomials form, every monomial
of degree two or more (and every reciprocal) becomes a fresh constant; sign and cancellation facts of products and
reciprocals are added.  If the abstraction is unsatisfiable, so is the original."""
import sys, z3
sys.set_int_max_str_digits(0)
from fractions import Fraction as Q
K = z3
class Lin:
    def __init__(s):
        s.keep = []; s.pm = {}; s.bm = {}; s.mono = {}; s.inv = {}; s.atoms = {}; s.n = 0; s.monoax = {}; s.used = None
    def atom(s, e):
        i = e.get_id()
        if i not in s.atoms: s.atoms[i] = e; s.keep.append(e)
        return {(i,): Q(1)}
    def add(s, a, b, c=Q(1)):
        r = dict(a)
        for m, v in b.items():
            x = r.get(m, 0) + c * v
            if x == 0: r.pop(m, None)
            else: r[m] = x
        return r
    def mul(s, a, b):
        if len(a) * len(b) > 400: return None
        r = {}
        for m, v in a.items():
            for n, w in b.items():
                k = tuple(sorted(m + n)); x = r.get(k, 0) + v * w
                if x == 0: r.pop(k, None)
                else: r[k] = x
        return r
    def poly(s, e):
        i = e.get_id()
        if i in s.pm: return s.pm[i]
        s.keep.append(e)
        r = s.poly0(e); s.pm[i] = r
        return r
    def poly0(s, e):
        k = e.decl().kind()
        if z3.is_rational_value(e) or z3.is_int_value(e):
            v = Q(e.as_string()) if z3.is_int_value(e) else Q(e.numerator_as_long(), e.denominator_as_long())
            return {(): v} if v != 0 else {}
        if k == K.Z3_OP_ADD:
            r = {}
            for c in e.children(): r = s.add(r, s.poly(c))
            return r
        if k == K.Z3_OP_SUB:
            ch = e.children(); r = s.poly(ch[0])
            for c in ch[1:]: r = s.add(r, s.poly(c), Q(-1))
            return r
        if k == K.Z3_OP_UMINUS: return s.add({}, s.poly(e.arg(0)), Q(-1))
        if k == K.Z3_OP_MUL:
            r = {(): Q(1)}
            for c in e.children():
                r2 = s.mul(r, s.poly(c))
                if r2 is None: return s.atom(s.rebuild(e))
                r = r2
            return r
        if k == K.Z3_OP_POWER and z3.is_rational_value(e.arg(1)) or k == K.Z3_OP_POWER and z3.is_int_value(e.arg(1)):
            n = Q(e.arg(1).as_string())
            if n.denominator == 1 and 0 <= n <= 6:
                r = {(): Q(1)}; p = s.poly(e.arg(0))
                for _ in range(int(n)):
                    r = s.mul(r, p)
                    if r is None: return s.atom(s.rebuild(e))
                return r
        if k == K.Z3_OP_DIV:
            b = s.poly(e.arg(1))
            if len(b) == 0: return s.atom(s.rebuild(e))
            if len(b) == 1 and () in b: return {m: v / b[()] for m, v in s.poly(e.arg(0)).items()}
            iv = s.inverse(b)
            r = s.mul(s.poly(e.arg(0)), iv)
            return r if r is not None else s.atom(s.rebuild(e))
        if k == K.Z3_OP_TO_REAL:
            p = s.poly(e.arg(0)); r = {}
            for m, v in p.items():
                mm = ()
                for a in m: mm += next(iter(s.atom(z3.ToReal(s.atoms[a])))) if s.atoms[a].sort() == z3.IntSort() else (a,)
                r[tuple(sorted(mm))] = v
            return r
        return s.atom(s.rebuild(e))
    def inverse(s, b):
        """reciprocal of a polynomial; single monomials invert factor by factor"""
        if len(b) == 1:
            (m, c), = b.items()
            r = {(): 1 / c}
            for a in m: r = s.mul(r, s.inv1({(a,): Q(1)}))
            return r
        return s.inv1(b)
    def inv1(s, b):
        items = sorted(b.items()); lead = items[-1][1]
        key = tuple((m, v / lead) for m, v in items)
        if key not in s.inv:
            s.n += 1
            iv = z3.Real(f'inv!{s.n}')
            s.inv[key] = (iv, dict(key)); s.atom(iv); s.inv_of = getattr(s, 'inv_of', {}); s.inv_of[iv.get_id()] = key
        iv = s.inv[key][0]
        return {(iv.get_id(),): 1 / lead}
    def rebuild(s, e):
        if e.num_args() == 0: return e
        ch = [s.norm(c) for c in e.children()]
        if all(a.eq(b) for a, b in zip(ch, e.children())): return e
        if z3.is_app(e) and e.decl().kind() == K.Z3_OP_ITE: return z3.If(*ch)
        return e.decl()(*ch)
    def monovar(s, m):
        if len(m) == 1: return s.atoms[m[0]]
        if m not in s.mono:
            s.n += 1
            allint = all(s.atoms[a].sort() == z3.IntSort() for a in m)
            s.mono[m] = z3.Int(f'mono!{s.n}') if allint else z3.Real(f'mono!{s.n}')
        return s.mono[m]
    def expr(s, p, sort):
        real = sort == z3.RealSort()
        ts = []
        for m, v in sorted(p.items()):
            c = z3.RealVal(v) if real else z3.IntVal(int(v)) if v.denominator == 1 else None
            if c is None: return None
            if m == (): ts.append(c); continue
            x = s.monovar(m)
            if real and x.sort() == z3.IntSort(): x = z3.ToReal(x)
            ts.append(x if v == 1 else c * x)
        if not ts: return z3.RealVal(0) if real else z3.IntVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)
    def norm(s, e):
        i = e.get_id()
        if i in s.bm: return s.bm[i]
        s.keep.append(e)
        if z3.is_arith(e):
            p = s.poly(e); r = s.expr(p, e.sort())
            if r is None: r = e
        elif z3.is_app(e) and e.num_args() == 2 and e.decl().kind() in (K.Z3_OP_LE, K.Z3_OP_GE, K.Z3_OP_LT, K.Z3_OP_GT, K.Z3_OP_EQ) and z3.is_arith(e.arg(0)):
            p = s.add(s.poly(e.arg(0)), s.poly(e.arg(1)), Q(-1))
            x = s.expr(p, e.arg(0).sort())
            if x is None: r = s.rebuild(e)
            else:
                z = z3.RealVal(0) if x.sort() == z3.RealSort() else z3.IntVal(0)
                k = e.decl().kind()
                r = x <= z if k == K.Z3_OP_LE else x >= z if k == K.Z3_OP_GE else x < z if k == K.Z3_OP_LT else x > z if k == K.Z3_OP_GT else x == z
        else: r = s.rebuild(e)
        s.keep.append(r); s.bm[i] = r
        return r
    def used_consts(s, es):
        seen = set(); out = set(); st = list(es)
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == K.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                if n.startswith('mono!') or n.startswith('inv!'): out.add(n)
            st.extend(x.children())
        return out
    def linearize(s, facts):
        res = [s.norm(f) for f in facts]
        byname = {v.decl().name(): m for m, v in s.mono.items()}
        invname = {iv.decl().name(): (iv, b) for key, (iv, b) in s.inv.items()}
        done = set(); work = s.used_consts(res)
        for _ in range(3):
            new = []
            invs_used = {n for n in work if n.startswith('inv!')}
            for n in list(work):
                if n.startswith('mono!'):
                    for a in byname.get(n, ()):
                        an = s.atoms[a]
                        if z3.is_const(an) and an.decl().name().startswith('inv!'): invs_used.add(an.decl().name())
            for n in sorted(invs_used):
                if n in done: continue
                done.add(n); iv, b = invname[n]
                be = s.expr(b, z3.RealSort()); pr = s.expr(s.mul(b, {(iv.get_id(),): Q(1)}), z3.RealSort())
                new += [z3.Implies(be != 0, pr == 1), z3.Implies(be > 0, iv > 0), z3.Implies(be < 0, iv < 0)]
            byname = {v.decl().name(): m for m, v in s.mono.items()}
            for n in sorted(work):
                if n in done or not n.startswith('mono!'): continue
                done.add(n); m = byname[n]; v = s.mono[m]
                if len(m) > 4: continue
                for j in range(len(m)):
                    if j and m[j] == m[j - 1]: continue
                    x = s.atoms[m[j]]; rest = m[:j] + m[j + 1:]
                    if len(rest) > 1 and rest not in s.mono and j > 0: continue
                    y = s.monovar(rest)
                    if len(m) == 2 and m[0] == m[1]:
                        new += [v >= 0, (v == 0) == (x == 0)]; break
                    new += [z3.Implies(z3.And(x > 0, y > 0), v > 0), z3.Implies(z3.And(x < 0, y < 0), v > 0), z3.Implies(z3.And(x > 0, y < 0), v < 0), z3.Implies(z3.And(x < 0, y > 0), v < 0), z3.Implies(z3.Or(x == 0, y == 0), v == 0)]
                    if len(m) == 2: break
            if not new: break
            res += new
            byname = {v.decl().name(): m for m, v in s.mono.items()}
            work = s.used_consts(new) - done
        return res
    # ---- incremental refinement with a model of the abstraction
    def refine(s, model, names, tangents=True):
        """lemmas violated by the model, over the monomials / reciprocals in names"""
        byname = {v.decl().name(): m for m, v in s.mono.items()}
        val = {}; keep = []
        def ev(a):
            i = a.get_id()
            if i not in val:
                x = model.eval(a, model_completion=True)
                keep.append(a); val[i] = Q(x.as_string()) if z3.is_int_value(x) else Q(x.numerator_as_long(), x.denominator_as_long()) if z3.is_rational_value(x) else None
            return val[i]
        out = []
        groups = {}
        for n in sorted(names):
            if not n.startswith('mono!') or n not in byname: continue
            m = byname[n]
            vs = [ev(s.atoms[a]) for a in m]
            if any(v is None for v in vs): continue
            groups.setdefault(tuple(sorted(vs)), []).append((m, vs))
        for key, ms in groups.items():
            rep = ms[0]
            for oth in ms[1:]:
                if ev(s.mono[rep[0]]) == ev(s.mono[oth[0]]): continue
                a = sorted(zip(rep[1], rep[0])); b = sorted(zip(oth[1], oth[0]))
                eqs = [s.atoms[x[1]] == s.atoms[y[1]] for x, y in zip(a, b) if x[1] != y[1]]
                out.append(z3.Implies(z3.And(*eqs), s.mono[rep[0]] == s.mono[oth[0]]))
        invs = [(iv, b) for key, (iv, b) in s.inv.items() if iv.decl().name() in names]
        iv_by = {}
        for iv, b in invs:
            be = s.expr(b, z3.RealSort()); v = ev(be)
            if v is None: continue
            if v in iv_by:
                iv0, be0 = iv_by[v]
                if ev(iv0) != ev(iv): out.append(z3.Implies(be0 == be, iv0 == iv))
            else: iv_by[v] = (iv, be)
        if out or not tangents: return out[:60]
        for n in sorted(names):
            if not n.startswith('mono!') or n not in byname: continue
            m = byname[n]; v = s.mono[m]
            x = s.atoms[m[0]]; y = s.monovar(m[1:])
            vx, vy, vm = ev(x), ev(y), ev(v)
            if None in (vx, vy, vm) or vm == vx * vy: continue
            if x.sort() != z3.RealSort() or y.sort() != z3.RealSort(): continue
            if max(vx.denominator, abs(vx.numerator)) > 10**9: vx = vx.limit_denominator(1000)
            if max(vy.denominator, abs(vy.numerator)) > 10**9: vy = vy.limit_denominator(1000)
            a, b = z3.RealVal(vx), z3.RealVal(vy)
            out += [z3.Implies(x == a, v == a * y), z3.Implies(y == b, v == b * x)]
            if x.eq(y): out.append(v >= 2 * a * x - a * a)
            else:
                out += [z3.Implies(z3.Or(z3.And(x > a, y > b), z3.And(x < a, y < b)), v > b * x + a * y - a * b),
                        z3.Implies(z3.Or(z3.And(x > a, y < b), z3.And(x < a, y > b)), v < b * x + a * y - a * b)]
            if len(out) > 40: break
        return out


    def diag(s, model, names):
        byname = {v.decl().name(): m for m, v in s.mono.items()}
        none = 0; bad = 0; tot = 0; ex = []
        def ev(a):
            x = model.eval(a, model_completion=True)
            return Q(x.as_string()) if z3.is_int_value(x) else Q(x.numerator_as_long(), x.denominator_as_long()) if z3.is_rational_value(x) else None
        for n in names:
            if n not in byname: continue
            m = byname[n]; tot += 1
            vs = [ev(s.atoms[a]) for a in m]; v = ev(s.mono[m])
            if None in vs or v is None: none += 1; continue
            p = 1
            for x in vs: p *= x
            if p != v: bad += 1; ex.append((n, [str(s.atoms[a])[:40] for a in m], vs, v))
        print('lin diag none', none, 'bad', bad, 'tot', tot, str(ex[:1])[:300], len(s.refine(model, names)))

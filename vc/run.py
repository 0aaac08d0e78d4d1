"""Check runner: compiles the proof drivers of a property against /repo's current source, discharges every obligation,
replays failures natively, writes the evidence file and reports.
usage: run.py PROPERTY quick|thorough        exit 0 held, 1 violation, 2 could not decide"""
import sys, os, re, json, time, subprocess, tempfile, shutil, traceback, multiprocessing as mp, signal, resource
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
CON = os.path.join(VERIF, 'contracts')
sys.path.insert(0, HERE)
INC = [f'-I{CON}', f'-I{VERIF}/stubs', f'-I{REPO}/tools', f'-I{REPO}/c++', f'-I{REPO}/tools/common', '-I/usr/include/eigen3', f'-I{REPO}/c++/symmetry', f'-I{REPO}/c++/symmetry/coefnew', '-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']
BASE = ['-std=c++20', '-w', '-DFMT_HEADER_ONLY']
PASSES = 'sroa,simplifycfg,early-cse,loop-simplify'

def directives(path):
    """//@ key: value lines of a driver"""
    d = {'flags': [], 'libs': [], 'opts': {}, 'native': 1}
    for ln in open(path):
        m = re.match(r'//@\s*(\w+)\s*:\s*(.*)$', ln)
        if not m: continue
        k, v = m.group(1), m.group(2).strip()
        if k == 'flags': d['flags'] += v.replace('$REPO', REPO).split()
        elif k == 'libs': d['libs'] += v.split()
        elif k == 'nonative': d['native'] = 0
        else:
            o = d['opts'].setdefault('*' if k == 'opts' else k, {})
            for kv in v.split():
                a, _, b = kv.partition('='); o[a] = int(b) if b.lstrip('-').isdigit() else (b or True)
    return d

def sh(cmd, timeout=300):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)

def compile_ir(drv, d, work):
    b = os.path.join(work, os.path.basename(drv)[:-3])
    r = sh(['clang++-18', *BASE, '-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only', '-S', '-emit-llvm', '-DVP_SYM', *d['flags'], *INC, drv, '-o', b + '.ll'])
    if r.returncode: return None, r.stderr
    r = sh(['opt-18', f'-passes={PASSES}', '-S', b + '.ll', '-o', b + '.opt.ll'])
    if r.returncode: return None, r.stderr
    return b + '.opt.ll', ''

def compile_native(drv, d, work):
    b = os.path.join(work, os.path.basename(drv)[:-3] + '.native')
    r = sh(['clang++-18', *BASE, '-O1', '-g0', '-D_GLIBCXX_ASSERTIONS', '-DVP_MAIN', *d['flags'], *INC, drv, '-o', b, '-Wl,--wrap=exit', *d['libs']])
    if r.returncode: return None, r.stderr
    return b, ''

def prove_one(ll, name, opts, q):
    """worker process: symbolic proof of one contract"""
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    import engine
    t = time.time()
    res = dict(contract=name, status='error', obls=[], err='')
    if opts.get('nativeonly'):
        res.update(status='unsupported', err='proved by the thorough command; bounded native stand-in here' if opts['nativeonly'] == 2 else 'outside the verifier\'s reach: bounded native stand-in only', secs=0.0); q.put(res); return
    try:
        e = engine.Engine(ll, opts)
        e.deadline = t + opts.get('deadline', 300)
        try:
            outs = e.call(engine.State(), 'contract_' + name, [])
            e.finish(outs)
            res['outcomes'] = len(outs)
            res['status'] = 'done'
        except engine.Unsupported as ex: res['status'] = 'unsupported'; res['err'] = str(ex)[:400]
        except engine.Budget as ex: res['status'] = 'budget'; res['err'] = str(ex)
        except (engine.NeedSplit, engine.CandSkip, engine.NeedInvariant) as ex: res['status'] = 'unsupported'; res['err'] = repr(ex)
        res['obls'] = [o.js() for o in e.obls]
        res['reached'] = e.reached
        res['trusted'] = e.trusted
        res['assumed'] = sorted(e.assumed)
        res['solver_secs'] = e.solver_secs
        res['models'] = [(n, m) for n, m in e.models if m]
        fns = {}
        for n in e.inlined:
            ff = e.func_file(n)
            if ff and ff[0].startswith(REPO): fns.setdefault(os.path.relpath(ff[0], REPO), set()).add(e.short(n).strip())
        res['functions'] = {k: sorted(v) for k, v in fns.items()}
        res['invariants'] = len(e.invlog)
    except MemoryError: res['err'] = 'memory'
    except Exception as ex:
        res['err'] = traceback.format_exc()[-1500:]
    res['secs'] = time.time() - t
    q.put(res)

def contract_names(drv):
    return re.findall(r'^VP_CONTRACT\((\w+)\)', open(drv).read(), re.M)
def assert_names(drv, name):
    """assertion names written inside the text of one contract"""
    src = open(drv).read()
    i = src.index(f'VP_CONTRACT({name})'); j = src.find('\nVP_CONTRACT(', i + 5)
    body = src[i:j if j > 0 else len(src)]
    return set(re.findall(r'vp_assert(?:_eq|_near)?\([^;]*?"([^"]*)"\)', body))

def native_run(binp, name, trials, seed, work, model=None, timeout=60):
    out = os.path.join(work, f'out.{name}.{seed}.{"m" if model else "r"}')
    cmd = [binp, out, name, str(trials), str(seed)] + ([model] if model else [])
    cwd = os.path.join(work, f'run.{name}'); os.makedirs(cwd, exist_ok=True)
    try: subprocess.run(cmd, capture_output=True, timeout=timeout, cwd=cwd)
    except subprocess.TimeoutExpired: return ('timeout', '')
    try: txt = open(out).read()
    except OSError: return ('none', '')
    if txt.startswith('FAIL'): return ('fail', txt)
    if txt.startswith('OK'): return ('ok', txt.strip())
    return ('none', txt)

def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    props = json.load(open(os.path.join(CON, 'index.json')))
    ent = props[prop]
    drivers = [os.path.join(CON, f) for f in ent['drivers']]
    work = tempfile.mkdtemp(prefix=f'vp_{prop}_')
    rc = 2
    try: rc = run(prop, tier, seed, t0, ent, drivers, work)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def run(prop, tier, seed, t0, ent, drivers, work):
    known = []
    kf = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(kf): known = [k for k in json.load(open(kf))['findings'] if k['property'] == prop and not k.get('fixed')]
    jobs = []; errors = []; native = {}
    total_deadline = t0 + (780 if tier == 'quick' else 840)
    from concurrent.futures import ThreadPoolExecutor
    ds = {d: directives(d) for d in drivers}
    with ThreadPoolExecutor(8) as ex:
        irs = {d: ex.submit(compile_ir, d, ds[d], work) for d in drivers}
        nats = {d: ex.submit(compile_native, d, ds[d], work) for d in drivers if ds[d]['native']}
        irs = {d: f.result() for d, f in irs.items()}
        nats = {d: f.result() for d, f in nats.items()}
    for d in drivers:
        ll, err = irs[d]
        if ll is None:
            errors.append(f'driver {os.path.basename(d)} does not compile against the current source:\n{err[:3000]}'); continue
        for n in contract_names(d):
            o = dict(ds[d]['opts'].get('*', {})); o.update(ds[d]['opts'].get(n, {}))
            if o.get('thorough') and tier == 'quick': o['nativeonly'] = 2
            if tier == 'thorough': o['timeout'] = 3 * o.get('timeout', 8000); o['deadline'] = max(o.get('deadline', 300), 420)
            jobs.append((d, ll, n, o))
    if errors: print('\n'.join(errors)[:4000], file=sys.stderr)
    # ---- native cross-check of the same drivers (floating point, compiled code); the bounded stand-in where a proof is out of reach
    viol = []; knownhits = []; undecided = []; bounded = []; proved = []
    rdir = os.path.join(VERIF, 'evidence', 'replay', prop)
    os.makedirs(rdir, exist_ok=True)
    def native_all(d, n, trials, tmo):
        if not ds[d]['native'] or ds[d]['opts'].get(n, {}).get('nonative'): return ('absent', '')
        b, err = nats[d]
        if b is None: return ('nocompile', err)
        return native_run(b, n, trials, seed, work, timeout=tmo)
    def native_many(jl, mul):
        with ThreadPoolExecutor(8) as ex:
            futs = {n: ex.submit(native_all, d, n, o.get('trials', 20000) * mul, 60 if mul == 1 else 120) for d, ll, n, o in jl}
            return {n: f.result() for n, f in futs.items()}
    nat = native_many(jobs, 10 if tier == 'thorough' else 1)
    def listed(n, txt): return any(k['contract'] == n and any(s in txt for s in k.get('native', [])) for k in known)
    nfail = [n for n in nat if nat[n][0] == 'fail' and not listed(n, nat[n][1])]
    # a failing input was found: the proof is redone only for the contracts it concerns, to name the obligations
    alljobs = jobs
    if nfail:
        jobs = [j for j in jobs if j[2] in nfail]
        for j in jobs: j[3]['deadline'] = min(j[3].get('deadline', 300), 100)
    # ---- proofs in parallel
    results = {}; running = []; todo = list(jobs); ncpu = int(os.environ.get('VP_JOBS', '8'))
    q = mp.Queue()
    while todo or running:
        while todo and len(running) < ncpu:
            d, ll, n, o = todo.pop(0)
            p = mp.Process(target=prove_one, args=(ll, n, o, q)); p.start(); running.append((p, d, n, time.time(), o))
        try:
            r = q.get(timeout=0.3); results[r['contract']] = r
        except Exception: pass
        nr = []
        for p, d, n, ts, o in running:
            if n in results: p.join(); continue
            if not p.is_alive():
                p.join()
                try:
                    while True: r = q.get(timeout=0.5); results[r['contract']] = r
                except Exception: pass
                if n not in results: results[n] = dict(contract=n, status='error', obls=[], err=f'worker died ({p.exitcode})', secs=time.time() - ts)
                continue
            if time.time() - ts > o.get('deadline', 300) + 60 or time.time() > total_deadline:
                p.terminate(); p.join(); results[n] = dict(contract=n, status='budget', obls=[], err='hard time limit', secs=time.time() - ts); continue
            nr.append((p, d, n, ts, o))
        running = nr
    bad = [j for j in jobs if results[j[2]]['status'] != 'done' or any(x['status'] != 'valid' for x in results[j[2]]['obls'])]
    bad = [j for j in bad if nat[j[2]][0] == 'ok']
    if bad and tier != 'thorough' and not nfail: nat.update(native_many(bad, 10))
    nnative = 0
    for k, e in enumerate(errors):
        rf = os.path.join(rdir, f'compile{k}.txt')
        open(rf, 'w').write(f'property {prop}\nFAILED OBLIGATION [interface]: the contracts no longer type-check against the source\n' + e)
        viol.append(('interface', rf, False, ['contracts type-check against the source']))
    for d, ll, n, o in jobs:
        r = results[n]
        failed = [x for x in r['obls'] if x['status'] != 'valid']
        ns, ntxt = nat[n]
        if ns in ('nocompile', 'none'): print(f'WARNING: native build/run of {n}: {ns} {ntxt[:500]}', file=sys.stderr)
        if ns == 'ok': nnative += int(re.search(r'ran=(\d+)', ntxt).group(1))
        expect = assert_names(d, n)
        missing = sorted(a for a in expect if not (r.get('reached') or {}).get(a))
        if failed and ns == 'ok' and (o.get('bounded') or all(x['status'] == 'unknown' for x in failed)):
            bounded.append((n, 'not discharged: ' + ', '.join(sorted({x['name'] for x in failed}))[:200], ntxt)); continue
        if failed or ns == 'fail':
            rf = os.path.join(rdir, f'{n}.txt')
            conc = ntxt if ns == 'fail' else ''
            if not conc:
                for nm, m in r.get('models', [])[:6]:
                    mf = os.path.join(work, f'{n}.model')
                    seen = {}
                    with open(mf, 'w') as fh:
                        for a, v in m: fh.write(f'{a} {v!r}\n')
                    if ds[d]['native'] and nats[d][0]:
                        s2, t2 = native_run(nats[d][0], n, 1, seed, work, model=mf, timeout=30)
                        if s2 == 'fail': conc = t2; break
            names = sorted({(x['kind'], x['name']) for x in failed})
            hit = None
            for k in known:
                if k['contract'] == n and (not failed or all(x['name'] in k['obligations'] for x in failed)) and (not conc or any(s in conc for s in k.get('native', []))): hit = k
            with open(rf, 'w') as fh:
                fh.write(f'property {prop} contract {n} (driver {os.path.basename(d)})\n')
                for x in failed: fh.write(f'FAILED OBLIGATION [{x["kind"]}] {x["name"]} at {x["loc"]}: {x["status"]} ({x["backend"]})\n   verifier model: {x["info"][:1500]}\n')
                fh.write('\nnative replay:\n' + (conc or 'no failing input found by replaying the verifier models and randomised inputs\n'))
                if conc: fh.write(f'\nreproduce: compile {d} with -DVP_MAIN (see vc/run.py compile_native) and run: prog OUT {n} <trials> {seed}\n')
            if hit: knownhits.append((hit, n)); continue
            viol.append((n, rf, bool(conc), names))
        elif r['status'] != 'done':
            if ns == 'ok': bounded.append((n, r['status'] + ': ' + r['err'].strip().split('\n')[-1], ntxt))
            else: undecided.append((n, r['status'], r['err'], ns))
        elif missing: undecided.append((n, 'vacuous', f'assertions never reached: {missing}', ns))
        else: proved.append(n)
    for u in undecided:
        rf = os.path.join(rdir, f'{u[0]}.txt')
        open(rf, 'w').write(f'property {prop} contract {u[0]}\nOBLIGATIONS NOT DISCHARGED: {u[1]}: {u[2]} (native stand-in: {u[3]})\n')
        viol.append((u[0], rf, False, [u[1]]))
    # ---- evidence
    allob = [x for r in results.values() for x in r['obls']]
    backends = {}
    for x in allob: backends[x['backend']] = backends.get(x['backend'], 0) + (x['status'] == 'valid')
    kinds = {}
    for x in allob: kinds[x['kind']] = kinds.get(x['kind'], 0) + 1
    trusted = {}
    for r in results.values():
        for k, v in (r.get('trusted') or {}).items(): trusted[k] = trusted.get(k, 0) + v
    assumed = sorted({a for r in results.values() for a in r.get('assumed', [])} | set(ent.get('assumptions', [])))
    fns = {}
    for r in results.values():
        for k, v in (r.get('functions') or {}).items(): fns.setdefault(k, set()).update(v)
    level = 'proof' if proved else 'other'
    ev = dict(property=prop, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 2), violations=len(viol),
        coverage=dict(obligations=len(allob), discharged=sum(x['status'] == 'valid' for x in allob), checker_cmd=f'python3-vt vc/run.py {prop} {tier}',
            trusted_base=sorted(trusted) + ['clang 18 lowering of the real source to LLVM IR', 'vc/engine.py, vc/lib.py (VC generator)', 'z3, cvc5'],
            contracts_proved=sorted(proved), contracts_bounded=[dict(contract=n, why=w, native=t) for n, w, t in bounded], contracts_undecided=[list(map(str, u)) for u in undecided],
            known_findings=[k['what'] for k, _ in knownhits],
            functions_under_contract={k: sorted(v) for k, v in sorted(fns.items())}, obligations_by_kind=kinds, discharged_by_backend=backends,
            contract_secs={n: round(r.get('secs', 0), 1) for n, r in sorted(results.items())},
            solver_secs=round(sum(r.get('solver_secs', 0) for r in results.values()), 2),
            loops_with_invariants=sum(r.get('invariants', 0) for r in results.values()),
            native_crosscheck_runs=nnative, assertions=sorted({x['name'] for x in allob if x['kind'] == 'assert'}),
            explanation='' if proved else 'no contract of this property is discharged deductively on this tree; bounded native runs only'),
        assumptions=assumed + ['doubles are mathematical reals and integers do not overflow in the proofs; the native cross-check runs real floating point', 'exceptions from allocation failure are ignored'])
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as fh: json.dump(ev, fh, indent=1)
    for k, n in knownhits: print(f'KNOWN-FINDING: property={prop} {k["what"]}')
    for n, w, t in bounded: print(f'BOUNDED: contract {n} not proved ({w}); native stand-in: {t}')
    for u in undecided: print(f'UNDECIDED: {u}')
    print(f'{prop}: {len(proved)} contracts proved, {len(bounded)} bounded, {len(undecided)} undecided, {len(viol)} violated; {ev["coverage"]["discharged"]}/{ev["coverage"]["obligations"]} obligations; {ev["wall_s"]} s')
    if viol:
        viol.sort(key=lambda v: not v[2])
        for n, rf, conc, names in viol[:1]:
            print(f'failed: {n} {names}')
            print(f'VIOLATION property={prop} replay={rf}' + ('' if conc else ' no-failing-input-found'))
        return 1
    return 0
if __name__ == '__main__': main()

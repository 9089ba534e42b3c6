#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]
Verifies the contract harness of one property against /repo's current source.
 1. clang turns harness + /repo headers into LLVM IR (every run); engine/ generates and discharges the obligations.
 2. the same harness, compiled natively with sanitizers, replays counterexamples and runs a seeded bounded search.
Exit 0: nothing violated; 1: VIOLATION line printed."""
import sys, os, re, json, time, subprocess, tempfile, shutil, argparse
from concurrent.futures import ThreadPoolExecutor, TimeoutError as FTimeout

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
REPO = os.environ.get('VP_REPO', '/repo')
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
DEFS = ['-DSTRICT_ERROR_EXCEPTIONS', '-DSTRICT_REMOVE_NODISCARD']
ASAN = 'detect_leaks=0:abort_on_error=0:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=1:exitcode=77'


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build_ir(src, out, extra=()):
    r = sh([CLANG, '-std=c++20', '-I' + REPO, '-I' + os.path.join(ROOT, 'harness'), '-DVP_ENGINE', *DEFS, *extra, '-ffp-contract=off', '-O1',
            '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', '-w', src, '-o', out + '.raw'])
    if r.returncode:
        return r.stderr
    import irprep
    with open(out + '.raw') as f:
        txt = irprep.strip_strings(f.read())
    with open(out + '.ir', 'w') as f:
        f.write(txt)
    return None


def build_native(src, out, extra=()):
    r = sh(['g++', '-std=c++20', '-O1', '-I' + REPO, '-I' + os.path.join(ROOT, 'harness'), *DEFS, *extra, '-fsanitize=address,undefined',
            '-fsanitize-trap=undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-w', src, '-o', out])
    return r.stderr if r.returncode else None


def callgraph(irtext):
    g = {}
    cur = None
    for l in irtext.split('\n'):
        if l.startswith('define'):
            m = re.search(r'@("[^"]*"|[-\w$.]+)\(', l)
            cur = m.group(1)
            g[cur] = set()
        elif l == '}':
            cur = None
        elif cur and ('call ' in l or 'invoke ' in l):
            for m in re.finditer(r'@("[^"]*"|[-\w$.]+)\(', l):
                g[cur].add(m.group(1))
    return g


def spp_functions(irfile, roots):
    with open(irfile) as f:
        g = callgraph(f.read())
    out = {}
    allf = set()
    for r in roots:
        seen = set()
        st = [r]
        while st:
            x = st.pop()
            if x in seen or x not in g:
                continue
            seen.add(x)
            st.extend(g[x])
        out[r] = [x for x in seen if re.match(r'_ZN?K?[RO]?\d*3spp|_ZNK?3spp|_ZN3spp', x)]
        allf.update(out[r])
    names = sorted(allf)
    dem = {}
    if names:
        r = sh(['c++filt'], input='\n'.join(names))
        dem = dict(zip(names, r.stdout.split('\n')))
    return out, dem


def short(d):
    """demangled name without template arguments, parameters and return type"""
    o, depth = [], 0
    i = 0
    d = d.replace('operator<', 'operator#').replace('operator#<', 'operator##').replace('operator->', 'operator-$').replace('operator>', 'operator$')
    d = d.replace('(anonymous namespace)', 'anon')
    for c in d:
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif depth == 0:
            if c == '(' and not ''.join(o).endswith('operator'):
                break
            o.append(c)
    s = ''.join(o).replace('#', '<').replace('$', '>')
    return s.split(' ')[-1] if 'operator' not in s else s[s.index('spp::'):] if 'spp::' in s else s


def engine_job(args):
    irfile, name, wd, budget = args
    limit_mem()
    import irprep, llparse, interp, solver, terms
    t0 = time.time()
    res = {'harness': name, 'complete': False, 'err': None, 'obls': {}, 'bad': [], 'labels': [], 'assumed': []}
    e = None
    try:
        ll = os.path.join(wd, name + '.ll')
        irprep.opt(irfile, ll, [name])
        with open(ll) as f:
            txt = f.read()
        os.unlink(ll)
        mined = sorted({int(x) for x in re.findall(r'\bi(?:32|64) (-?\d+)\b', txt)}, key=abs)
        res['mined'] = [x for x in mined if 2 < abs(x) < 2**62][:40]
        m = llparse.parse(txt)
        terms.reset()
        solver.reset()
        e = interp.Interp(m, budget)
        e.run_harness(name)
        res['complete'] = True
    except llparse.Unsupported as x:
        res['err'] = 'unsupported: %s' % str(x)[:300]
    except interp.Budget as x:
        res['err'] = 'budget exhausted'
    except RecursionError:
        res['err'] = 'recursion limit'
    except MemoryError:
        res['err'] = 'memory'
    except subprocess.CalledProcessError as x:
        res['err'] = 'opt failed: ' + (x.stderr or b'').decode()[:300]
    except Exception as x:
        res['err'] = 'internal: %s: %s' % (type(x).__name__, str(x)[:300])
    if e is not None:
        for o in e.obls:
            k = '%s|%s|%s' % (o.kind, o.label, 'discharged' if o.ok else o.status)
            res['obls'][k] = res['obls'].get(k, 0) + 1
            if not o.ok:
                res['bad'].append({'kind': o.kind, 'label': o.label, 'status': o.status, 'why': o.why, 'inputs': o.inputs})
        res['labels'] = sorted(e.reached)
        res['assumed'] = sorted(e.assumed)
        res['loops'] = e.loops_proved
        res['unrolled'] = e.loops_unrolled
        res['queries'] = solver.STATS['queries']
        res['solver_s'] = round(solver.STATS['time'], 2)
    res['wall'] = round(time.time() - t0, 2)
    return res


def engine_proc(irfile, name, wd, budget, tend=None):
    out = os.path.join(wd, name + '.json')
    dead = {'harness': name, 'complete': False, 'err': None, 'obls': {}, 'bad': [], 'labels': [], 'assumed': []}
    lim = budget * 1.5 + 30
    if tend is not None:
        lim = min(lim, tend - time.time())
        if lim < 2:
            dead['err'] = 'check time limit'
            return dead
    try:
        p = subprocess.run([shutil.which('python3-vt') or sys.executable, os.path.abspath(__file__), '--engine-job', irfile, name, wd, str(budget), out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, PYTHONHASHSEED='0'),
                           timeout=lim)
        with open(out) as f:
            return json.load(f)
    except subprocess.TimeoutExpired:
        dead['err'] = 'budget exhausted (killed)'
    except Exception as x:
        dead['err'] = 'worker failed: %r' % (x,)
    return dead


def limit_mem():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def native_env():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = ASAN
    e['UBSAN_OPTIONS'] = 'print_stacktrace=0:exitcode=77'
    return e


def parse_native(out, name):
    r = {'fail': None, 'ok': 0, 'rejected': 0, 'labels': []}
    for l in out.split('\n'):
        f = l.split('\t')
        if f[0] == 'FAIL' and r['fail'] is None:
            r['fail'] = {'harness': f[1], 'kind': f[2], 'label': f[3], 'inputs': f[4:]}
        elif f[0] == 'DONE':
            r['ok'], r['rejected'], r['labels'] = int(f[2]), int(f[3]), f[4:]
    return r


def native_search(args):
    exe, name, seed, iters, secs, cap, mined = args
    try:
        p = sh([exe, 'search', name, str(seed), str(iters), str(secs), str(cap)] + [str(x) for x in mined], env=native_env(), timeout=secs + 60)
        r = parse_native(p.stdout, name)
        if p.returncode not in (0,) and r['fail'] is None:
            r['fail'] = {'harness': name, 'kind': 'crash', 'label': 'crashed (exit %d)' % p.returncode, 'inputs': []}
    except subprocess.TimeoutExpired as x:
        r = parse_native((x.stdout or b'').decode() if isinstance(x.stdout, bytes) else (x.stdout or ''), name)
        if r['fail'] is None:
            r['err'] = 'native search timed out'
    r['harness'] = name
    r['seed'] = seed
    return r


def model_lines(inputs):
    fpv = {}
    pool = ['1.5', '2.25', '-3.125', '4.0625', '0.75', '-7.5', '11.125', '-0.375', '19.75', '6.5', '-13.25', '0x1p-3', '100.5', '-55.75', '8.875']
    def val(v):
        if isinstance(v, str) and v.startswith('fp:'):
            if v not in fpv:
                fpv[v] = pool[len(fpv) % len(pool)]
            return fpv[v]
        return str(v)
    out = []
    for n, v in (inputs or {}).items():
        if isinstance(v, dict):
            for i, x in v.items():
                out.append('%s[%s] %s' % (n, i, val(x)))
        else:
            out.append('%s %s' % (n, val(v)))
    return out


def replay_model(exe, name, inputs, wd, seed, iters=400):
    f = os.path.join(wd, name + '.model')
    with open(f, 'w') as h:
        h.write('\n'.join(model_lines(inputs)) + '\n')
    try:
        p = sh([exe, 'replay', name, f, str(seed), str(iters)], env=native_env(), timeout=120)
    except subprocess.TimeoutExpired:
        return None
    r = parse_native(p.stdout, name)
    if r['fail'] is None and p.returncode not in (0, 1, 3):
        r['fail'] = {'harness': name, 'kind': 'crash', 'label': 'crashed (exit %d)' % p.returncode, 'inputs': model_lines(inputs)}
    return r['fail']


def coq_lemmas(pid, wd):
    """lemmas/<pid>_*.v: facts about the proved operation sequences that need a floating-point theory (Flocq)"""
    out = []
    d = os.path.join(ROOT, 'lemmas')
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if not (f.startswith(pid.lower() + '_') and f.endswith('.v')):
            continue
        shutil.copy(os.path.join(d, f), wd)
        with open(os.path.join(d, f)) as h:
            th = re.findall(r'^(?:Theorem|Lemma) (\w+)', h.read(), re.M)
        try:
            r = sh(['coqc', f], cwd=wd, timeout=200)
            out.append({'file': 'lemmas/' + f, 'theorems': th, 'accepted': r.returncode == 0,
                        'axioms': sorted(set(re.findall(r'^(\w+(?:\.\w+)+)', r.stdout, re.M)))})
        except (subprocess.TimeoutExpired, FileNotFoundError) as x:
            out.append({'file': 'lemmas/' + f, 'theorems': th, 'accepted': False, 'error': str(x)[:200]})
    return out


def main():
    if sys.argv[1:2] == ['--engine-job']:
        _, _, irfile, name, wd, budget, out = sys.argv
        r = engine_job((irfile, name, wd, float(budget)))
        with open(out + '.tmp', 'w') as f:
            json.dump(r, f)
        os.rename(out + '.tmp', out)
        return
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    pid = a.prop
    src = os.path.join(ROOT, 'harness', pid.lower() + '.cpp')
    wd = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    try:
        rc = run(pid, src, wd, seed, tier, a, t0)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    sys.exit(rc)


def write_replay(pid, n, data):
    d = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%d.json' % (pid, n))
    with open(p, 'w') as f:
        json.dump(data, f, indent=1)
    return p


def run(pid, src, wd, seed, tier, a, t0):
    ncpu = max(1, min(int(os.environ.get("VP_JOBS", "8")), os.cpu_count() or 4))
    ebudget = 220 if tier == 'quick' else 900
    total = 560 if tier == 'quick' else 7200
    nsecs, niter = (12, 25000) if tier == 'quick' else (240, 2000000)
    exe, ir = os.path.join(wd, 'native'), os.path.join(wd, 'h')
    pool = ThreadPoolExecutor(ncpu)
    ra = pool.submit(build_ir, src, ir)
    rb = pool.submit(build_native, src, exe)
    ea, eb = ra.result(), rb.result()
    violations = []
    notes = []
    if ea or eb:
        p = write_replay(pid, 0, {'property': pid, 'obligation': 'contract harness type-checks against the code', 'output': (eb or ea)[:6000],
                                  'command': 'g++ -std=c++20 -I/repo -I%s/harness %s' % (ROOT, src)})
        print('harness does not compile:\n' + (eb or ea)[:1500], file=sys.stderr)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, p))
        evidence(pid, tier, seed, [], [], {}, {}, t0, 1, ['harness does not compile'], {})
        return 1
    lst = [l.split() for l in sh([exe, 'list'], env=native_env()).stdout.split('\n') if l.strip()]
    names = [(n, int(p)) for n, p in lst if not a.only or re.search(a.only, n)]
    prove = [n for n, p in names if p]
    if tier == 'quick':
        with open(os.path.join(ROOT, 'harness', 'thorough_only.json')) as f:
            later = set(json.load(f).get(pid, []))
        prove = [n for n in prove if n not in later]
    fns, dem = spp_functions(ir + '.ir', prove)
    lem = pool.submit(coq_lemmas, pid, wd)
    er = {}
    nres = []
    shards = 1 if tier == 'quick' else 2
    nsecs = max(2, min(nsecs, 0.3 * total * ncpu / max(1, len(names) * shards)))
    for n, p in names:
        for s in range(shards):
            nres.append((n, pool.submit(native_search, (exe, n, seed + 7919 * s, niter, int(nsecs), 6 if s == 0 else 10, []))))
    eres = [(n, pool.submit(engine_proc, ir + '.ir', n, wd, ebudget, t0 + total)) for n in prove]
    for n, r in eres:
        left = total - (time.time() - t0)
        try:
            er[n] = r.result(timeout=max(5, left))
        except FTimeout:
            er[n] = {'harness': n, 'complete': False, 'err': 'check time limit', 'obls': {}, 'bad': [], 'labels': [], 'assumed': []}
        except Exception as x:
            er[n] = {'harness': n, 'complete': False, 'err': 'worker: %r' % (x,), 'obls': {}, 'bad': [], 'labels': [], 'assumed': []}
    nr = {}
    for n, r in nres:
        left = total + 120 - (time.time() - t0)
        try:
            x = r.result(timeout=max(5, left))
        except Exception as ex:
            x = {'harness': n, 'fail': None, 'ok': 0, 'rejected': 0, 'labels': [], 'err': repr(ex)}
        o = nr.get(n)
        if o is None:
            nr[n] = x
        else:
            o['ok'] += x['ok']
            o['rejected'] += x['rejected']
            o['labels'] = sorted(set(o['labels']) | set(x['labels']))
            o['fail'] = o['fail'] or x['fail']
    # second pass: constants of the code as inputs
    second = [(n, [x for x in er.get(n, {}).get('mined', [])]) for n, p in names if er.get(n, {}).get('mined') and not nr[n]['fail']]
    if second and time.time() - t0 < total:
        rs = [(n, pool.submit(native_search, (exe, n, seed + 104729, niter // 3, int(max(4, nsecs // 3)), 6, mined))) for n, mined in second]
        for n, r in rs:
            try:
                x = r.result(timeout=nsecs + 90)
                nr[n]['ok'] += x['ok']
                nr[n]['fail'] = nr[n]['fail'] or x['fail']
            except Exception:
                pass
    # ---- failures
    for n, p in names:
        f = nr[n]['fail']
        e = er.get(n)
        how = 'bounded native search'
        if e:
            for b in e['bad']:
                if f is None and b['inputs'] is not None and b['status'] in ('sat', 'sat-lin', 'unknown'):
                    f = replay_model(exe, n, b['inputs'], wd, seed)
                    if f:
                        how = 'verifier counterexample replayed'
                        f['obligation'] = b
            hard = [b for b in e['bad'] if b['status'] in ('sat', 'sat-lin')]
            if f is None and hard and time.time() - t0 < total + 60:
                x = native_search((exe, n, seed + 31337, 10 * niter, 30, 8, e.get('mined', [])))
                f = x['fail']
        if f:
            violations.append({'harness': n, 'label': f['label'], 'kind': f['kind'], 'inputs': f['inputs'], 'found_by': how,
                               'failed_obligations': [{k: b[k] for k in ('kind', 'label', 'status', 'why')} for b in (e['bad'] if e else [])][:8], 'noinput': False})
        elif e and [b for b in e['bad'] if b['status'] in ('sat', 'sat-lin')]:
            b = [b for b in e['bad'] if b['status'] in ('sat', 'sat-lin')][0]
            violations.append({'harness': n, 'label': b['label'], 'kind': b['kind'], 'inputs': model_lines(b['inputs']), 'found_by': 'verifier (not reproduced natively)',
                               'failed_obligations': [{k: x[k] for k in ('kind', 'label', 'status', 'why')} for x in e['bad']][:8], 'noinput': True})
    try:
        lemmas = lem.result(timeout=240)
    except Exception as ex:
        lemmas = [{'accepted': False, 'error': repr(ex)}]
    pool.shutdown(wait=False, cancel_futures=True)
    known = load_known(pid)
    rc = 0
    k = 0
    for v in violations:
        kf = next((x for x in known if x['harness'] == v['harness'] and x.get('label', v['label']) == v['label']), None)
        if kf:
            print('KNOWN-FINDING: property=%s %s' % (pid, kf['what']))
            continue
        k += 1
        v['property'] = pid
        v['reproduce'] = 'g++ -std=c++20 -O1 -I/repo -I%s/harness -fsanitize=address,undefined %s -o h; write inputs as "name value" lines (here name=value) to f; ./h replay %s f' % (ROOT, src, v['harness'])
        p = write_replay(pid, k, v)
        print('obligation failed: %s / %s (%s); inputs %s' % (v['harness'], v['label'], v['found_by'], ' '.join(v['inputs'])[:600]), file=sys.stderr)
        print('VIOLATION property=%s replay=%s%s' % (pid, p, ' no-failing-input-found' if v['noinput'] else ''))
        rc = 1
    evidence(pid, tier, seed, names, prove, er, nr, t0, len([1 for v in violations]), notes, (fns, dem), lemmas)
    nproved = sum(1 for n in prove if er[n]['complete'] and not er[n]['bad'])
    print('%s: %d/%d harnesses proved, %d bounded, %.0f s' % (pid, nproved, len(prove), len(names) - nproved, time.time() - t0))
    if a.verbose:
        for n in prove:
            e = er[n]
            print('  %-40s %s obls=%d bad=%d %.1fs %s' % (n, 'complete' if e['complete'] else 'INCOMPLETE', sum(e['obls'].values()), len(e['bad']), e.get('wall', 0), e['err'] or ''))
            for b in e['bad'][:4]:
                print('      BAD %s %s %s %s' % (b['kind'], b['label'], b['status'], b['why'][:200]))
            miss = set(l for l in nr[n]['labels'] if not l.startswith('cover:')) - set(e['labels'])
            if miss and e['complete']:
                print('      labels not reached by the verifier:', miss)
        for n, p in names:
            print('  native %-40s ok=%d rej=%d labels=%d %s' % (n, nr[n]['ok'], nr[n]['rejected'], len(nr[n]['labels']), nr[n].get('err', '')))
    return rc


def load_known(pid):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [x for x in json.load(f).get('known', []) if x['property'] == pid]


def evidence(pid, tier, seed, names, prove, er, nr, t0, nviol, notes, fd, lemmas=()):
    fns, dem = fd if fd else ({}, {})
    per = []
    obl = dis = 0
    assumed = set()
    proved_fns = set()
    st = 0.0
    for n, p in names:
        e = er.get(n)
        r = {'harness': n, 'native_runs': nr[n]['ok'], 'native_rejected': nr[n]['rejected'], 'labels': nr[n]['labels']}
        if e:
            tot = sum(e['obls'].values())
            ok = sum(v for k, v in e['obls'].items() if k.endswith('|discharged'))
            miss = set(l for l in nr[n]['labels'] if not l.startswith('cover:')) - set(e['labels'])
            full = e['complete'] and not e['bad'] and not miss
            obl += tot
            dis += ok
            assumed.update(e['assumed'])
            st += e.get('solver_s', 0)
            kinds = {}
            for k, v in e['obls'].items():
                kk = '|'.join(k.split('|')[:2])
                kinds[kk] = kinds.get(kk, 0) + v
            r.update({'status': 'proved (unbounded)' if full else 'bounded', 'obligations': tot, 'discharged': ok, 'by_obligation': kinds,
                      'loops_with_proved_invariant': e.get('loops', 0), 'loops_unrolled_concrete': e.get('unrolled', 0),
                      'solver_queries': e.get('queries', 0), 'solver_s': e.get('solver_s', 0), 'why_not_proved': e['err'] or ('failed obligations' if e['bad'] else ('unreached labels' if miss else None))})
            if full:
                proved_fns.update(fns.get(n, []))
        else:
            r['status'] = 'bounded' + (' in this tier (proved in the thorough tier)' if p else '')
        per.append(r)
    sf = sorted({short(dem.get(f, f)) for f in proved_fns})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': level_of(pid),
        'coverage': {
            'obligations': obl, 'discharged': dis,
            'checker_cmd': 'python3-vt check.py %s --tier %s' % (pid, tier),
            'trusted_base': ['clang 18 front end and the opt passes listed in engine/irprep.py', 'engine/ (VC generator, loop summaries)', 'z3 (python binding of /opt/veriftools/pyvenv)',
                             'contract harness harness/%s.cpp' % pid.lower()],
            'backend': 'z3 (QF ground queries); syntactic normalisation for trivial obligations',
            'functions_under_contract_proved': len(proved_fns), 'function_names': sf[:400],
            'solver_s': round(st, 1),
            'lemmas_checked_by_coqc': list(lemmas),
            'harnesses': per,
            'bounded_note': 'every harness is additionally (or, when status is bounded, only) executed natively under ASan/UBSan on seeded inputs: sizes 0..%d mostly, up to %d' % ((6, 36) if tier == 'quick' else (10, 60)),
        },
        'assumptions': sorted(assumed) + ['signed machine arithmetic is mathematical under the discharged no-signed-overflow obligations',
                                          'floating-point operations uninterpreted (equal means the same operations on the same operands)',
                                          'std::string/trace_err/StrictException bodies dropped (message text not verified)',
                                          'sizes up to 10^9, element values up to 2^62 in magnitude for integers'] + notes,
        'violations': nviol,
        'wall_s': round(time.time() - t0, 1),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def level_of(pid):
    try:
        with open(os.path.join(ROOT, 'MANIFEST.json')) as f:
            for c in json.load(f)['checks']:
                if c['property'] == pid:
                    return c['level']
    except Exception:
        pass
    return 'proof'


if __name__ == '__main__':
    main()

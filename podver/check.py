"""check.py <ID> [--tier quick|thorough]: decide one property on /repo's current working tree."""
import concurrent.futures as cf
import importlib, json, os, pickle, re, signal, subprocess, sys, threading, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, VERIF)
import build as B

def known():
    r = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m:
                r.append(m.groups())
    return r

def envrun(cmd, timeout, **kw):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:abort_on_error=0:color=never', UBSAN_OPTIONS='print_stacktrace=1:color=never')
    env.update(kw.pop('env', {}))
    try:
        r = subprocess.run(cmd, capture_output=True, timeout=timeout, env=env, **kw)
        return r.returncode, r.stdout.decode('utf8', 'replace'), r.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b'').decode('utf8', 'replace'), (e.stderr or b'').decode('utf8', 'replace')

class Harness:
    """result of the concrete (bounded) part"""
    def __init__(s):
        s.ev = s.checks = s.distinct = 0; s.samples = []; s.fails = []; s.notes = []; s.secs = 0.0; s.ran = False; s.cmds = []

    def take(s, cmd, timeout, env=None):
        t = time.time()
        rc, out, err = envrun(cmd, timeout, env=env or {})
        s.secs += time.time() - t
        s.cmds.append(' '.join(os.path.basename(c) if i < 1 else c for i, c in enumerate(cmd)))
        done = False
        for l in out.splitlines():
            if not l.startswith('{'):
                continue
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if 'fail' in d:
                d['stderr'] = err[-4000:] if d['fail'] == 'memory' else ''
                s.fails.append(d)
            elif 'sample' in d:
                s.samples.append(d['sample'])
            elif 'evaluations' in d:
                s.ev += d['evaluations']; s.checks += d.get('checks', 0); s.distinct += d.get('distinct', 0); done = True
            elif 'note' in d:
                s.notes.append(d['note'])
        s.ran = True
        if rc is None and 'WARNING: ThreadSanitizer' in err:
            s.fails.append({'fail': 'race', 'msg': 'data race (and the harness hangs)', 'trace': '', 'section': '', 'stderr': err[-4000:], 'seed': os.environ.get('VERIF_SEED', '1')})
        elif rc is None:
            s.notes.append('harness stopped at its time limit')
        elif rc not in (0, 1) and not any(f['fail'] in ('memory', 'termination') for f in s.fails):
            if rc in (-signal.SIGKILL,):
                s.notes.append('harness was killed')
            elif 'FATAL: ThreadSanitizer' in err:      # the sanitizer itself cannot run here
                s.notes.append(f'harness ended with status {rc}: {err[-300:]}')
            elif rc < 0 or 'AddressSanitizer' in err or 'runtime error' in err or 'WARNING: ThreadSanitizer' in err:
                s.fails.append({'fail': 'crash', 'msg': f'harness ended with status {rc}', 'trace': '', 'section': '', 'stderr': err[-4000:], 'seed': os.environ.get('VERIF_SEED', '1')})
            else:
                s.notes.append(f'harness ended with status {rc}: {err[-300:]}')
        elif rc in (0, 1) and not done:
            s.notes.append('harness output incomplete: ' + err[-300:])

def pyharness(mod, h, b, seed, tier):
    for script in getattr(mod, 'PYHARNESS', []):
        h.take([B.SYSPY, os.path.join(VERIF, 'harness', script), str(seed), tier], 600 if tier == 'thorough' else 120,
               env={'PYTHONDONTWRITEBYTECODE': '1', 'PODVER_REPO': B.REPO, 'PODVER_WORK': b.work})

def cppharness(mod, h, b, seed, tier):
    for src in getattr(mod, 'HARNESS', []):
        src, opts = (src, {}) if isinstance(src, str) else src
        exe = b.harness(os.path.join(VERIF, 'harness', src), **opts)
        h.take([exe, str(seed), tier], 800 if tier == 'thorough' else 100)

def run_jobs(mods, jobs, todo, res, limit, total, tim, width, unroll=False):
    """run the contracts todo (indices) in processes of their own"""
    import contract
    # exact unrolling of short loops costs time: not for what ran out of it the first time
    old = list(res)
    def slow(i):
        r = old[i]
        return bool(r) and ('time limit' in str(r.get('error', '')) or any('time limit' in x.detail for x in r.get('results', ())))
    pend = [(i, jobs[i]) for i in todo]
    running = {}
    while pend or running:
        while pend and len(running) < width:
            i, (title, fn) = pend.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    signal.alarm(0)
                    v = contract.Verifier(mods, budget=limit)
                    v.default_timeout = tim; v.unroll = unroll and not slow(i)
                    v.check_fn(title, fn)
                    data = pickle.dumps({k: getattr(v, k) for k in ('results', 'inlined', 'trusted', 'used', 'functions', 'solver_s', 'checks', 'paths', 'loops', 'unrolled', 'vacuity', 'notes')})
                except BaseException as ex:
                    data = pickle.dumps({'error': f'{type(ex).__name__}: {ex}'[:400]})
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
                os._exit(0)
            os.close(w)
            running[r] = (i, title, pid, time.time(), bytearray())
        import select
        rd, _, _ = select.select(list(running), [], [], 0.2)
        for fd in rd:
            i, title, pid, t, buf = running[fd]
            d = os.read(fd, 1 << 16)
            if d:
                buf += d
                continue
            os.close(fd); os.waitpid(pid, 0); del running[fd]
            try:
                res[i] = pickle.loads(bytes(buf))
            except Exception as ex:
                res[i] = {'error': 'verifier process ended without an answer'}
            res[i]['secs'] = time.time() - t
        for fd in list(running):
            i, title, pid, t, buf = running[fd]
            if time.time() - t > limit + 15 or time.time() > total:
                os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); os.close(fd); del running[fd]
                res[i] = {'error': 'time limit', 'secs': time.time() - t}
        if time.time() > total:
            for i, (title, fn) in pend:
                res[i] = {'error': 'time limit', 'secs': 0}
            pend = []

def proved_key(pid):
    """key of the sources for which all obligations of the property have been discharged before (see tools/record.py)"""
    try:
        return json.load(open(os.path.join(HERE, 'proved.json'))).get(pid)
    except (OSError, ValueError):
        return None

def prove_parallel(mod, b, tier, box):
    """run every contract of the property in its own process"""
    import contract
    t0 = time.time()
    mods = b.ir(mod.modules(b))
    box['ir_s'] = time.time() - t0
    box['irkey'] = b.irkey
    jobs = mod.contracts(tier) if callable(getattr(mod, 'contracts', None)) else mod.CONTRACTS
    limit = 300 if tier == 'thorough' else getattr(mod, 'LIMIT', 60)
    total = time.time() + (700 if tier == 'thorough' else getattr(mod, 'TOTAL', 90))
    tim = 60000 if tier == 'thorough' else 12000
    for m in mods:
        m.dem     # force what is shared
    width = max(2, min(6, (os.cpu_count() or 2) - 1))
    res = [None] * len(jobs)
    run_jobs(mods, jobs, range(len(jobs)), res, limit, total, tim, width)
    # what stays undecided on changed code gets a second, longer try
    again = [i for i, r in enumerate(res) if r is None or 'error' in r or any(x.status == 'undecided' for x in r['results'])]
    if again and box['irkey'] != proved_key(getattr(mod, '__name__', '').split('.')[-1]) and tier != 'record':
        first = [res[i] for i in again]
        run_jobs(mods, jobs, again, res, max(3 * limit, 300), time.time() + 340, 3 * tim, 4, True)
        box['retried'] = len(again)
    box['jobs'] = [(t, r) for (t, f), r in zip(jobs, res)]
    box['secs'] = time.time() - t0

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module('props.' + pid)
    h = Harness(); box = {'jobs': []}; notes = []
    b = B.Build()
    try:
        if getattr(mod, 'MODEL', True):
            try:
                b.gen()
            except B.BuildError as ex:
                notes.append('generator failed: ' + str(ex)[-400:])
        # the verifier runs in its own process so that the harness can be built meanwhile
        r, w = os.pipe()
        child = None
        if hasattr(mod, 'modules'):
            child = os.fork()
            if child == 0:
                code = {}
                try:
                    os.close(r)
                    import contract
                    sys.setrecursionlimit(20000)
                    prove_parallel(mod, b, tier, code)
                except BaseException as ex:
                    code['error'] = f'{type(ex).__name__}: {ex}'[:600]
                    if os.environ.get('PODVER_DEBUG'):
                        traceback.print_exc()
                with os.fdopen(w, 'wb') as f:
                    f.write(pickle.dumps(code))
                os._exit(0)
        os.close(w)
        try:
            cppharness(mod, h, b, seed, tier)
            pyharness(mod, h, b, seed, tier)
        except B.BuildError as ex:
            notes.append('harness could not be built: ' + '; '.join([x for x in str(ex).split(chr(10)) if 'error' in x][:3])[:600])
        if child:
            data = b''
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            os.waitpid(child, 0)
            sys.path.insert(0, HERE)
            import contract
            box = pickle.loads(data) if data else {'error': 'verifier ended without an answer'}
    finally:
        b.close()
    return finish(pid, tier, seed, mod, h, box, notes, t0)

def finish(pid, tier, seed, mod, h, box, notes, t0):
    results, functions, inl, trusted, used, vac = [], [], set(), set(), set(), []
    solver = 0.0; checks = paths = loops = 0
    err = box.get('error')
    if err:
        notes.append('verifier: ' + err)
    for title, r in box.get('jobs', []):
        if r is None or 'error' in r:
            notes.append(f'{title}: undecided ({(r or {}).get("error")})')
            results.append((title, 'verification condition generation', 'undecided', (r or {}).get('error', ''), '', 0.0))
            continue
        for x in r['results']:
            results.append((x.fn, x.label, x.status, x.detail, x.back, x.secs))
        functions += r['functions']; inl |= set(r['inlined']); trusted |= set(r['trusted']); used |= set(r['used']); vac += r['vacuity']
        solver += r['solver_s']; checks += r['checks']; paths += r['paths']; loops += r['loops']
        notes += r.get('notes', [])
    proved = [x for x in results if x[2] == 'proved']
    refuted = [x for x in results if x[2] == 'refuted']
    undec = [x for x in results if x[2] == 'undecided']
    kn = {k: w for p, k, w in known() if p == pid}
    lines = []
    viol = 0
    seen = set()
    for f in h.fails:
        if f['fail'] in kn:
            if f['fail'] not in seen:
                seen.add(f['fail'])
                lines.append(f'KNOWN-FINDING: property={pid} {kn[f["fail"]]}')
    fails = [f for f in h.fails if f['fail'] not in kn]
    refk = [x for x in refuted if ('obligation:' + x[0] + ':' + x[1]).replace(' ', '_') in kn]
    for x in refk:
        lines.append(f'KNOWN-FINDING: property={pid} {kn[("obligation:" + x[0] + ":" + x[1]).replace(" ", "_")]}')
    refuted = [x for x in refuted if x not in refk]
    rp = os.path.join(VERIF, 'evidence', f'{pid}.replay.txt')
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    # an obligation that is not discharged on code for which it was not discharged before is an alarm as well
    changed = bool(box.get('irkey')) and box['irkey'] != proved_key(pid)
    undef = [x for x in undec if changed and not any(('undecided:' + x[0]).replace(' ', '_') == k for k in kn)]
    if fails or refuted or undef:
        viol = len(fails) or 1
        with open(rp, 'w') as f:
            f.write(f'property {pid}: {getattr(mod, "TITLE", "")}\n')
            if fails:
                f.write(f'replay: VERIF_SEED={seed} python3-vt podver/check.py {pid} --tier {tier}  (harness: {"; ".join(h.cmds)})\n\n')
                for x in fails:
                    f.write(f'failed clause: {x["fail"]}  (section {x.get("section")}, seed {x.get("seed")})\nobserved: {x.get("msg")}\ninput / history:\n  ' + x.get('trace', '').replace('; ', '\n  ') + '\n' + x.get('stderr', '') + '\n')
            for x in refuted:
                f.write(f'failed obligation: {x[0]}: {x[1]}\n  solver: {x[4]} says the negation is satisfiable\n  model: {x[3]}\n')
            for x in undef:
                f.write(f'obligation not discharged: {x[0]}: {x[1]}\n  verifier output: {x[3]}\n')
        lines.append(f'VIOLATION property={pid} replay={rp}' + ('' if fails else ' no-failing-input-found'))
    fns = sorted(set(functions))
    allproved = bool(proved) and not refuted and not undec and not err
    level = getattr(mod, 'LEVEL', 'proof') if (proved and not err) else 'exploration'
    cov = {
        'obligations': len(results), 'discharged': len(proved),
        'undecided': [f'{x[0]}: {x[1]} ({x[3][:200]})' for x in undec],
        'functions_under_contract': fns,
        'functions_executed_in_place': sorted(x[:160] for x in inl)[:150],
        'backend': {'z3': sum(1 for x in proved if x[4] == 'z3'), 'cvc5': sum(1 for x in proved if x[4] == 'cvc5')},
        'solver_s': round(solver, 2), 'solver_calls': checks, 'paths': paths, 'loops_summarized': loops,
        'vacuity': [f'{t}: precondition {s}' for t, s in vac],
        'checker_cmd': f'python3-vt podver/check.py {pid} --tier {tier}',
        'trusted_base': ['clang 18 front end and opt sroa/loop-simplify (C++ to LLVM IR)', 'podver (IR parser, symbolic execution, loop rule)', 'z3 / cvc5'] + ['std contract: ' + x for x in sorted(trusted)],
        'contracts_assumed_at_calls': sorted(x[:160] for x in used),
        'obligation_list': [f'{x[2]} {x[0]}: {x[1]} [{x[5]:.2f}s {x[4]}]' for x in results][:400],
        'bounded': {'what': 'run-time contract checks on concrete inputs (never counted as proved)', 'evaluations': h.ev, 'checks': h.checks, 'distinct_nontrivial': h.distinct,
                    'rule': getattr(mod, 'RULE', 'a case is one seeded sequence of calls; non-trivial: it did at least one call; distinct by its call trace'), 'samples': h.samples[:8], 'notes': h.notes, 'secs': round(h.secs, 2)},
        'evaluations': h.ev, 'distinct_nontrivial': h.distinct,
        'rule': getattr(mod, 'RULE', 'a case is one seeded sequence of calls; non-trivial: it did at least one call; distinct by its call trace'),
        'samples': h.samples[:8] or ['none'],
        'all_obligations_discharged': allproved, 'sources_key': box.get('irkey', ''),
    }
    if level == 'other':
        cov['explanation'] = getattr(mod, 'NOTE', '')
    if notes:
        cov['notes'] = notes
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []) + ['partial correctness: termination is not proved', 'allocation never fails; sizes stay below 2^40'],
          'wall_s': round(time.time() - t0, 2), 'violations': viol}
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    print(f'{pid}: obligations {len(results)} discharged {len(proved)} refuted {len(refuted)} undecided {len(undec)}; harness cases {h.ev} checks {h.checks} failures {len(fails)}; {time.time()-t0:.1f} s')
    for x in undec[:8]:
        print(f'  undecided: {x[0]}: {x[1]} ({x[3][:160]})')
    for x in (notes + h.notes)[:8]:
        print('  note: ' + x[:400])
    return 1 if viol else 0

if __name__ == '__main__':
    try:
        rc = main()
    except Exception as ex:      # a defect of the machinery is never an alarm
        traceback.print_exc()
        rc = 0
        pid = sys.argv[1] if len(sys.argv) > 1 else '?'
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
            json.dump({'property': pid, 'tier': os.environ.get('VERIF_TIER', 'quick'), 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other', 'coverage': {'explanation': f'the check could not run: {type(ex).__name__}: {ex}'}, 'wall_s': 0.0, 'violations': 0}, f)
    sys.stdout.flush()
    os._exit(rc)

"""Decide one property: generate and discharge the proof obligations of its contracts from the
current sources of /repo, replay counterexamples against the real code, write the evidence."""
import sys, os, json, time, subprocess, tempfile, shutil, re, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VC_REPO', '/repo')
LIB = REPO + '/cloudini_lib'
SKIP = {'wasm_functions.cpp', 'pcl_conversion.cpp'}
IRFLAGS = ['-std=c++20', '-msse4.1', '-O1', '-Xclang', '-disable-llvm-passes', '-w', '-I%s/vc' % VERIF, '-I%s/drivers' % VERIF,
           '-I%s/include' % LIB, '-I%s/src' % LIB, '-emit-llvm', '-c']
PASSES = 'sroa,early-cse,instsimplify,simplifycfg,loop-simplify'
NPROC = int(os.environ.get('VC_JOBS', '8'))


def log(*a):
    print(*a, flush=True)


class Job:
    """a child process in its own group"""
    def __init__(s, cmd, out=None, shell=False):
        s.cmd, s.t0 = cmd, time.time()
        s.f = open(out, 'w') if out else subprocess.DEVNULL
        s.p = subprocess.Popen(cmd, stdout=s.f, stderr=subprocess.STDOUT if out else subprocess.DEVNULL, start_new_session=True, shell=shell)

    def done(s): return s.p.poll() is not None

    def kill(s):
        try: os.killpg(s.p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        s.p.wait()


def sources():
    return sorted(f for f in os.listdir(LIB + '/src') if f.endswith('.cpp') and f not in SKIP)


def build_ir(work, drivers):
    """compile every library source and driver to LLVM IR; returns {driver: linked .bc or None}, notes"""
    js = []
    for f in sources():
        js.append((f, Job(['clang++'] + IRFLAGS + ['%s/src/%s' % (LIB, f), '-o', '%s/%s.bc' % (work, f)], '%s/%s.log' % (work, f))))
    for d in drivers:
        js.append((d, Job(['clang++'] + IRFLAGS + ['%s/drivers/%s.cpp' % (VERIF, d), '-o', '%s/%s.bc' % (work, d)], '%s/%s.log' % (work, d))))
    bad = set()
    notes = []
    for n, j in js:
        if j.p.wait() != 0:
            bad.add(n)
            notes.append('%s does not compile: %s' % (n, open('%s/%s.log' % (work, n)).read()[:600]))
    res = {}
    for d in drivers:
        res[d] = None
        if d in bad: continue
        txt = open('%s/drivers/%s.cpp' % (VERIF, d)).read()
        own = set(re.findall(r'^#include "(\w+\.cpp)"', txt, re.M))
        mods = ['%s/%s.bc' % (work, f) for f in sources() if f not in own and f not in bad]
        r = subprocess.run(['llvm-link', '%s/%s.bc' % (work, d)] + mods + ['-o', '%s/%s.all.bc' % (work, d)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            notes.append('%s does not link: %s' % (d, r.stdout[:600])); continue
        res[d] = '%s/%s.all.bc' % (work, d)
    return res, notes


def extract(work, bc, entry):
    """the part of the program the entry can reach, as canonicalised IR text"""
    out = '%s/%s.ll' % (work, entry)
    r = subprocess.run("opt -S -passes=internalize,globaldce -internalize-public-api-list=%s %s -o - | sed '/^@llvm.global_ctors/d;/^@llvm.used/d;/^@llvm.compiler.used/d' | "
                       "opt -S -passes='globaldce,%s' - -o %s" % (entry, bc, PASSES, out), shell=True, executable='/bin/bash', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(out): return None
    return out


class Native:
    """bounded search for a failing input of the real code (ASan/UBSan build)"""
    def __init__(s, work, name):
        s.work, s.name = work, name
        s.dir = work + '/nat'
        os.makedirs(s.dir, exist_ok=True)
        s.bin = '%s/%s' % (s.dir, name)
        s.ok = None
        s.job = Job(['bash', '%s/native/build.sh' % VERIF, s.dir, name], s.dir + '/build.log')
        s.runs = []
        s.cases = s.distinct = 0
        s.samples = []
        s.failure = None

    def ready(s):
        if s.ok is None and s.job.done(): s.ok = s.job.p.returncode == 0
        return s.ok

    def start(s, secs, seed, dic):
        k = len(s.runs)
        base = '%s/run%d' % (s.dir, k)
        with open(base + '.dict', 'w') as f: f.write('\n'.join(str(x) for x in dic))
        cmd = [s.bin, 'search', str(secs), str(seed), base + '.out', base + '.shm', base + '.dict']
        j = Job(cmd, base + '.log')
        s.runs.append((j, base, seed, secs))
        return j

    def collect(s):
        """wait for all runs; the first failure wins"""
        for j, base, seed, secs in s.runs:
            try: rc = j.p.wait(timeout=max(1, secs + 90 - (time.time() - j.t0)))
            except subprocess.TimeoutExpired:
                j.kill(); rc = 4
            txt = open(base + '.log', errors='replace').read()
            m = re.search(r'^NAT (\d+) (\d+)', txt, re.M)
            if m: s.cases += int(m.group(1)); s.distinct += int(m.group(2))
            for x in re.findall(r'^SAMPLE (.*)$', txt, re.M):
                if len(s.samples) < 3: s.samples.append(x)
            if rc != 0 and s.failure is None:
                f = {'harness': s.name, 'exit': rc}
                if rc == 3 and os.path.exists(base + '.out'):
                    o = open(base + '.out', errors='replace').read()
                    f['seed'] = int(re.match(r'seed (\d+)', o).group(1)); f['report'] = o[:6000]
                elif rc in (64, 127): s.ok = False; continue
                else:
                    import struct
                    try: f['seed'], f['done'] = struct.unpack('<QQ', open(base + '.shm', 'rb').read()[:16])
                    except Exception: f['seed'] = None
                    f['report'] = ('HANG: one case did not finish' if rc == 4 else 'CRASH (exit %d)' % rc) + '\n' + txt[-6000:]
                f['dict'] = open(base + '.dict').read().split()
                s.failure = f
        s.runs = []
        return s.failure


def kill_all(js):
    for j in js:
        if not j.done(): j.kill()


def run(pid, tier, seed):
    t_start = time.time()
    P = PROPS[pid]
    work = tempfile.mkdtemp(prefix='vc_%s_' % pid)
    jobs = []
    try:
        return run_(pid, tier, seed, P, work, jobs, t_start)
    finally:
        kill_all(jobs)
        shutil.rmtree(work, ignore_errors=True)


def run_(pid, tier, seed, P, work, jobs, t_start):
    hard_end = t_start + (800 if tier == 'quick' else 3000)
    nat = Native(work, P['native']) if P.get('native') else None
    if nat: jobs.append(nat.job)
    entries = list(P['entries']) + (list(P.get('thorough', [])) if tier == 'thorough' else [])
    drivers = sorted({d for d, e, b in entries})
    bcs, notes = build_ir(work, drivers)
    results = {}
    queue = []
    for d, e, b in entries:
        if bcs[d] is None:
            results[e] = {'entry': e, 'status': 'undecided', 'reason': 'the driver %s no longer fits the code: %s' % (d, '; '.join(notes)[:500]), 'obligations': [], 'covers': {}}
            continue
        queue.append((d, e, b * (1 if tier == 'quick' else 3)))
    queue.sort(key=lambda x: -x[2])
    lem = []
    for l in P.get('lemmas', []):
        j = Job(['python3-vt', '%s/vc/lemmas.py' % VERIF, l, '%s/%s.lem.json' % (work, l)], '%s/%s.lem.log' % (work, l)); jobs.append(j); lem.append((l, j))
    running = []
    nat_started = False
    nat_secs = P.get('nat_secs', 25) * (1 if tier == 'quick' else 12)
    while queue or running:
        if nat and not nat_started and nat.ready():
            nat_started = True
            for k in range(2): jobs.append(nat.start(nat_secs, seed * 10 + k, P.get('dict', [])))
        if nat and any(j.done() and j.p.returncode not in (0, 64, 127) for j, *_ in nat.runs):
            # the real code fails on an input: wait for the obligation that says so, not for the rest of the proofs
            named = any(o['status'] == 'failed' for r in results.values() for o in r['obligations'])
            stop = named or time.time() - t_start > 120
        else: stop = False
        if stop:
            for e, j, out, b in running: j.kill()
            for e in [r[0] for r in running] + [q[1] for q in queue]:
                results[e] = {'entry': e, 'status': 'undecided', 'reason': 'stopped: a failing input was found', 'obligations': [], 'covers': {}}
            running, queue = [], []
            break
        slots = NPROC - (2 if nat_started and any(not r[0].done() for r in nat.runs) else 1 if nat and not nat_started else 0)
        while queue and len(running) < max(2, slots):
            d, e, b = queue.pop(0)
            ll = extract(work, bcs[d], e)
            if ll is None:
                results[e] = {'entry': e, 'status': 'undecided', 'reason': 'extraction failed', 'obligations': [], 'covers': {}}
                continue
            out = '%s/%s.json' % (work, e)
            j = Job(['python3-vt', '%s/vc/runentry.py' % VERIF, ll, e, str(b), out], '%s/%s.vlog' % (work, e)); jobs.append(j)
            running.append((e, j, out, b))
        for r in list(running):
            e, j, out, b = r
            late = time.time() - j.t0 > b + 60 or time.time() > hard_end
            if j.done() or late:
                if not j.done(): j.kill()
                running.remove(r)
                if os.path.exists(out): results[e] = json.load(open(out))
                else:
                    results[e] = {'entry': e, 'status': 'undecided', 'reason': 'verifier process ended without a result (exit %s%s)' % (j.p.returncode, ', time limit' if late else ''), 'obligations': [], 'covers': {},
                                  'log': open('%s/%s.vlog' % (work, e), errors='replace').read()[-1500:]}
        time.sleep(0.05)
    for l, j in lem:
        try: j.p.wait(timeout=max(5, hard_end - time.time()))
        except subprocess.TimeoutExpired: j.kill()
        f = '%s/%s.lem.json' % (work, l)
        results[l] = json.load(open(f)) if os.path.exists(f) else {'entry': l, 'status': 'undecided', 'reason': 'lemma run failed: ' + open('%s/%s.lem.log' % (work, l)).read()[-500:], 'obligations': [], 'covers': {}}
    # ---- verdicts of the verifier
    total = disch = inst = 0
    failed, undec, vac = [], [], []
    for e in results:
        r = results[e]
        for o in r['obligations']:
            total += 1; inst += o['instances']
            if o['status'] == 'discharged' and o['discharged'] == o['instances'] and r['status'] == 'ok': disch += 1
            elif o['status'] == 'failed': failed.append((e, o))
            elif o['status'] == 'unknown': undec.append((e, 'obligation "%s" not decided by the solver' % o['name']))
        if r['status'] != 'ok': undec.append((e, r['reason']))
        elif not r['obligations']: vac.append((e, 'no obligations'))
        for c, ok in r['covers'].items():
            if not ok: vac.append((e, 'unreachable: ' + c))
    for e, why in vac: undec.append((e, 'vacuity guard: ' + why))
    # ---- replay / search
    natinfo = {}
    if nat:
        while nat.ready() is None: time.sleep(0.05)
        if nat.ok and not nat_started:
            nat_started = True
            for k in range(4): jobs.append(nat.start(nat_secs, seed * 10 + k, P.get('dict', [])))
        if nat.ok: nat.collect()
        if nat.ok and nat.failure is None and (failed or undec):
            dic = sorted({v & ((1 << 64) - 1) for e, o in failed for v in (o.get('model') or {}).values() if isinstance(v, int)} | set(P.get('dict', [])))
            more = min(P.get('hunt_secs', 90), max(10, hard_end - time.time() - 30)) * (1 if tier == 'quick' else 6)
            log('SEARCH property=%s a failing input of the real code (%.0f s, %d model values)' % (pid, more, len(dic)))
            for k in range(NPROC): jobs.append(nat.start(more, seed * 10 + 100 + k, dic if k % 2 == 0 else P.get('dict', [])))
            nat.collect()
    os.makedirs(VERIF + '/replays', exist_ok=True)
    rep = '%s/replays/%s.json' % (VERIF, pid)
    viol = None
    if nat and nat.failure:
        f = nat.failure
        f.update(property=pid, kind='input', how='bash /verif/replay.sh %s' % rep, obligations=[{'entry': e, **o} for e, o in failed][:20])
        json.dump(f, open(rep, 'w'), indent=1)
        viol = 'VIOLATION property=%s replay=%s' % (pid, rep)
        log(f['report'][:3000])
    elif failed:
        json.dump({'property': pid, 'kind': 'obligation', 'how': 'the verifier refutes this obligation for the current sources; no failing input of the real code was found in the search', 'searched': {'cases': nat.cases if nat else 0},
                   'obligations': [{'entry': e, **o} for e, o in failed]}, open(rep, 'w'), indent=1)
        viol = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rep)
    for e, o in failed: log('FAILED-OBLIGATION entry=%s kind=%s "%s" (%s)' % (e, o['kind'], o['name'], o['detail'][:300]))
    for e, why in undec: log('UNDECIDED entry=%s %s' % (e, why[:400]))
    for n in notes: log('NOTE ' + n[:400])
    # ---- evidence
    proved = not failed and not undec and total > 0
    fns = sorted({f for r in results.values() for f in r.get('functions', [])})
    cov = {
        'obligations': total, 'discharged': disch, 'obligation_instances': inst,
        'checker_cmd': 'python3 /verif/vc/check.py %s --tier %s' % (pid, tier),
        'backends': 'vc/engine.py (VC generation over LLVM IR of the real code) + z3 %s' % zver(),
        'solver_s': round(sum(r.get('solver_s', 0) for r in results.values()), 1),
        'solver_queries': sum(r.get('queries', 0) for r in results.values()),
        'instructions_interpreted': sum(r.get('instructions', 0) for r in results.values()),
        'functions_under_contract': [f for f in fns if own_fn(f)],
        'runtime_functions_inlined': sum(1 for f in fns if not own_fn(f)),
        'callee_contracts_used': sorted({c for r in results.values() for c in r.get('contracts', [])}),
        'trusted_runtime_contracts': sorted({c for r in results.values() for c in r.get('assumed', [])}),
        'entries': {e: {'status': r['status'], 'reason': r.get('reason', ''), 'obligations': len(r['obligations']), 'wall_s': r.get('wall_s')} for e, r in results.items()},
        'obligation_list': sorted({'%s: %s: %s' % (e, o['kind'], o['name']) for e, r in results.items() for o in r['obligations']})[:400],
        'loop_invariants': [{'loop': l['loop'], 'invariant': l['invariant'][:12], 'terminates': l.get('terminates')} for r in results.values() for l in r.get('loops', [])][:60],
        'covers_reached': sum(1 for r in results.values() for ok in r['covers'].values() if ok),
        'trusted_base': TRUST + P.get('trust', []),
        'undecided': ['%s: %s' % (e, w[:300]) for e, w in undec],
        'bounded_standins': P.get('bounded', []),
        'entries_of_the_thorough_tier_only': [e for d, e, b in P.get('thorough', [])],
    }
    if nat:
        cov.update({'evaluations': nat.cases, 'distinct_nontrivial': nat.distinct, 'rule': P.get('rule', 'random cases through the real code built with ASan/UBSan; a case is non-trivial when it holds at least two points/values; distinct by content hash'),
                    'samples': nat.samples})
        if nat.ok is False: cov['native_harness'] = 'did not build or start: ' + open(nat.dir + '/build.log', errors='replace').read()[-800:]
    level = P.get('level', 'proof') if proved else 'exploration' if nat and nat.cases else 'other'
    if level == 'other': cov['explanation'] = 'obligations could not be decided on this tree: see undecided'
    if level == 'exploration' and not cov.get('samples'): cov['samples'] = ['none']
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': ASSUME + P.get('assume', []), 'wall_s': round(time.time() - t_start, 1), 'violations': 1 if viol else 0}
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json.tmp' % (VERIF, pid), 'w') as f: json.dump(ev, f, indent=1)
    os.replace('%s/evidence/%s.json.tmp' % (VERIF, pid), '%s/evidence/%s.json' % (VERIF, pid))
    for l in known(pid): log(l)
    log('%s %s: %d/%d obligations discharged (%d instances), %d functions under contract, solver %.1f s; native cases %d; wall %.1f s' % (
        pid, 'PROVED' if proved else 'FAILED' if failed else 'UNDECIDED', disch, total, inst, len(cov['functions_under_contract']), cov['solver_s'], nat.cases if nat else 0, time.time() - t_start))
    if viol:
        log(viol)
        return 1
    return 0


def own_fn(f):
    return not f.startswith('_ZNSt') and not f.startswith('_ZSt') and not re.search(r'\bstd::(__|_Tuple|_Head)', f.split('(')[0]) and ('Cloudini' in f or 'nanocdr' in f or 'cloudini_ros' in f or 'Span<' in f) and not re.search(r'\bstd::', f.split('(')[0].split('<')[0])


def known(pid):
    """findings recorded, not repaired (KNOWN_FINDINGS.txt); a fixed entry suppresses nothing"""
    out = []
    for l in open(VERIF + '/KNOWN_FINDINGS.txt'):
        m = re.match(r'known: property=(\S+) (.*)', l.strip())
        if m and m.group(1) == pid: out.append('KNOWN-FINDING: property=%s %s' % (pid, m.group(2)))
    return out


def zver():
    import functools
    return subprocess.run(['python3-vt', '-c', 'import z3;print(z3.get_version_string())'], stdout=subprocess.PIPE, text=True).stdout.strip()


TRUST = ['clang 18 front end and the LLVM passes %s preserve the meaning of the C++ sources' % PASSES,
         'vc/ir.py, vc/engine.py, vc/loops.py: the VC generator (self-tested by vc/selftest.py, which must refute planted faults)', 'z3']
ASSUME = ['memory allocation does not fail (std::bad_alloc is not modelled as a result of a valid call)',
          'x86-64, little endian, SSE4.1 code paths (the ones the build uses); other intrinsics.hpp branches are not compiled',
          'buffers and vectors are smaller than 2^47 bytes', 'the C++ sources are translated by clang 18 at -O1 semantics (the build uses gcc 13); undefined behaviour checked: out-of-bounds and null access, uninitialised pointers, double free, division by zero']

if __name__ == '__main__':
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.exit(run(pid, tier, seed))

#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current tree.

1. build the verifier (dvc) and the native contract runner against /repo;
2. dvc evaluates every contract harness of the property on the current sources and discharges
   each obligation with z3;
3. a failed obligation's counterexample is replayed on the compiled crate;
4. a harness the verifier cannot carry through is run natively on random inputs instead
   (bounded, reported as such, never counted as proved).
"""
import concurrent.futures, fcntl, json, os, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
T = os.environ.get('VERIF_TARGET', os.path.join(V, 'target'))
ENV = dict(os.environ)
ENV.update({
    'CARGO_NET_OFFLINE': 'true', 'RUSTUP_TOOLCHAIN': 'stable', 'RUSTC_WRAPPER': '', 'CARGO_INCREMENTAL': '1',
    'CARGO_PROFILE_DEV_DEBUG': 'line-tables-only', 'CARGO_TERM_COLOR': 'never',
    'LIBTORCH': '/opt/vp/pytorch/torch', 'LIBTORCH_CXX11_ABI': '0',
    'LD_LIBRARY_PATH': '/opt/vp/pytorch/torch/lib',
    'PATH': os.environ.get('PATH', '') + ':/root/.cargo/bin:/usr/local/bin',
    'OMP_NUM_THREADS': '1', 'RUST_BACKTRACE': '0',
})


def sh(cmd, cwd, log, env=ENV, timeout=800):
    with open(log, 'w') as f:
        try:
            return subprocess.run(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            return -1


def build_dvc():
    b = os.path.join(T, 'dvc/release/dvc')
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(T, 'dvc'))
    env.pop('CARGO_INCREMENTAL')
    rc = sh(['cargo', 'build', '--release', '--offline'], os.path.join(V, 'dvc'), os.path.join(T, 'dvc.log'), env)
    return b if rc == 0 and os.path.exists(b) else None


def build_native():
    d = os.path.join(T, 'native')
    deb = os.path.join(d, 'debug')
    src = os.path.join(REPO, 'target/debug')
    if not os.path.isdir(deb) and os.path.isdir(src):
        # reuse the compiled dependencies (never die-e itself)
        try:
            os.makedirs(deb)
            for sub in ('deps', 'build', '.fingerprint'):
                if os.path.isdir(os.path.join(src, sub)):
                    shutil.copytree(os.path.join(src, sub), os.path.join(deb, sub), symlinks=True)
        except Exception:
            shutil.rmtree(deb, ignore_errors=True)
    # die-e is always compiled from the sources as they are now, whatever their time stamps say
    fp = os.path.join(deb, '.fingerprint')
    if os.path.isdir(fp):
        for x in os.listdir(fp):
            if x.startswith('die-e-') or x.startswith('die_e-') or x.startswith('native-'):
                shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
    crate = os.path.join(V, 'native')
    if REPO != '/repo':
        # development only: the same crate against a scratch copy
        crate = os.path.join(T, 'native-crate')
        shutil.rmtree(crate, ignore_errors=True)
        shutil.copytree(os.path.join(V, 'native'), crate)
        for fn in ('Cargo.toml', 'build.rs'):
            p = os.path.join(crate, fn)
            s = open(p).read().replace('path = "/repo"', 'path = "%s"' % REPO).replace('"/repo/src/main.rs"', '"%s/src/main.rs"' % REPO).replace('join("../contracts")', 'join("%s/contracts")' % V)
            open(p, 'w').write(s)
    env = dict(ENV, CARGO_TARGET_DIR=d)
    lock = os.path.join(crate, 'Cargo.lock')
    saved = open(lock).read() if os.path.exists(lock) else None
    # with the program's commands; without them where main.rs cannot be taken over as it is
    rc = sh(['cargo', 'build', '--offline', '--features', 'cli'], crate, os.path.join(T, 'native.log'), env)
    if rc != 0:
        rc = sh(['cargo', 'build', '--offline'], crate, os.path.join(T, 'native.log'), env)
    if saved is not None and open(lock).read() != saved:
        open(lock, 'w').write(saved)
    b = os.path.join(deb, 'native')
    return b if rc == 0 and os.path.exists(b) else None


def native_only(prop):
    """contracts that are only run on the compiled crate (larger sizes, library assumptions); never counted as proved"""
    out = []
    d = os.path.join(V, 'contracts')
    for f in sorted(x for x in os.listdir(d) if x.endswith('.rs')):
        head = None
        for l in open(os.path.join(d, f)):
            if l.startswith('/// harness:'):
                head = l
            elif l.startswith('pub fn ') and head:
                kv = dict(k.split('=', 1) for k in head.split()[2:] if '=' in k)
                if kv.get('mode') == 'native' and prop in kv.get('prop', '').split(','):
                    out.append(l[7:].split('(')[0])
                head = None
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    os.makedirs(T, exist_ok=True)
    ev_dir = os.path.join(V, 'evidence')
    os.makedirs(os.path.join(ev_dir, 'replay'), exist_ok=True)
    lock = open(os.path.join(T, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fd, fn = ex.submit(build_dvc), ex.submit(build_native)
        dvc, native = fd.result(), fn.result()
    if not dvc:
        print('ERROR: the verifier does not build:', open(os.path.join(T, 'dvc.log')).read()[-2000:])
        return 2
    if not native:
        print('NOTE: the native contract runner does not build against this tree; counterexamples cannot be replayed')
        print(open(os.path.join(T, 'native.log')).read()[-1500:])
    budget = 3000 if tier == 'thorough' else 420
    out = os.path.join(T, 'dvc-%s.json' % prop)
    if os.path.exists(out):
        os.remove(out)
    cmd = [dvc, '--repo', os.path.join(REPO, 'src'), '--contracts', os.path.join(V, 'contracts'), '--prop', prop, '--tier', tier,
           '--threads', str(min(8, os.cpu_count() or 4)), '--budget', str(budget), '--timeout', '120000' if tier == 'thorough' else '40000', '--out', out]
    rc = sh(cmd, V, os.path.join(T, 'dvc-run.log'), timeout=budget + 100)
    res = None
    if os.path.exists(out):
        res = json.load(open(out))
    violations, notes, known = [], [], []
    kf = json.load(open(os.path.join(V, 'known_findings.json')))
    if res is None:
        print('NOTE: the verifier stopped without a result (rc %s): %s' % (rc, open(os.path.join(T, 'dvc-run.log')).read()[-600:]))
        res = {'harnesses': [], 'wall': 0, 'files': []}

    def explore(names, secs, tag):
        if not native:
            return []
        o = os.path.join(T, 'explore-%s-%s.json' % (prop, tag))
        if os.path.exists(o):
            os.remove(o)
        c = [native, 'explore', '--prop', prop, '--secs', str(secs), '--seed', str(seed), '--out', o]
        if names:
            c += ['--harness', ','.join(names)]
        # scratch directory: some contracts save and load files
        wd = os.path.join(T, 'scratch')
        shutil.rmtree(wd, ignore_errors=True)
        os.makedirs(wd)
        r = sh(c, wd, os.path.join(T, 'explore.log'), timeout=secs * 4 + 200)
        shutil.rmtree(wd, ignore_errors=True)
        return json.load(open(o))['harnesses'] if os.path.exists(o) else []

    nrep = 0

    def replay_file(h, label, inputs, extra):
        nonlocal nrep
        nrep += 1
        p = os.path.join(ev_dir, 'replay', '%s-%d.json' % (prop, nrep))
        json.dump(dict({'property': prop, 'harness': h, 'obligation': label, 'inputs': inputs,
                        'how': 'target/native/debug/native replay %s' % p}, **extra), open(p, 'w'), indent=1)
        return p

    def confirmed(h, inputs):
        if not native:
            return None
        p = replay_file(h, 'candidate', inputs, {})
        wd = os.path.join(T, 'scratch')
        os.makedirs(wd, exist_ok=True)
        try:
            r = subprocess.run([native, 'replay', p, '--times', '300'], cwd=wd, env=ENV, capture_output=True, text=True, timeout=120)
            return r.stdout.strip() if r.returncode == 1 else None
        except subprocess.TimeoutExpired:
            return None

    weak = []       # harnesses that need the bounded stand-in
    possible_bad = []
    for h in res['harnesses']:
        bad = {}
        for f in h['failed']:
            bad.setdefault(f['label'], []).append(f)
        for label, fs in bad.items():
            done = False
            for f in fs:
                got = confirmed(h['name'], f['inputs'])
                if got:
                    p = replay_file(h['name'], label, f['inputs'], {'where': f['loc'], 'native': got})
                    violations.append((h['name'], label, f['loc'], p, True))
                    done = True
                    break
            if not done:
                for e in explore([h['name']], 15, 'confirm'):
                    for x in e['failures']:
                        p = replay_file(h['name'], label, x['inputs'], {'where': fs[0]['loc'], 'native': x['label']})
                        violations.append((h['name'], label, fs[0]['loc'], p, True))
                        done = True
                        break
                    if done:
                        break
            if not done:
                p = replay_file(h['name'], label, fs[0]['inputs'], {'where': fs[0]['loc'], 'verifier': 'z3 reports the negated obligation satisfiable', 'all': fs})
                violations.append((h['name'], label, fs[0]['loc'], p, False))
        if h['unsupported'] or h['undecided'] or h['left']:
            weak.append(h['name'])
            for m, n in list(h['unsupported'].items())[:5]:
                notes.append('%s: outside the verifier: %s (%d paths)' % (h['name'], m, n))
            if h['undecided']:
                notes.append('%s: %d obligations undecided, e.g. %s' % (h['name'], len(h['undecided']), h['undecided'][0]))
            if h['left']:
                notes.append('%s: %d paths not reached in time' % (h['name'], h['left']))
        for c, ok in h['covers'].items():
            if ok:
                continue
            if c.startswith('possible:') and not (h['unsupported'] or h['undecided'] or h['left']):
                possible_bad.append((h['name'], c))
            else:
                notes.append('%s: cover not reached: %s' % (h['name'], c))
        if h['checks'] == 0 and not h['unsupported']:
            notes.append('%s: no obligation was generated' % h['name'])
    expl = []
    if weak or not res['harnesses']:
        expl += explore(weak, 120 if tier == 'thorough' else 45, 'standin')
    rest = [h['name'] for h in res['harnesses'] if h['name'] not in weak]
    if rest:
        expl += explore(rest, 30 if tier == 'thorough' else 6, 'runtime')
    only_native = native_only(prop)
    if only_native:
        expl += explore(only_native, 60 if tier == 'thorough' else 10, 'native')
    flagged = {v[0] for v in violations}
    for e in expl:
        if e['name'] in flagged:
            continue
        for x in e['failures'][:1]:
            p = replay_file(e['name'], x['label'], x['inputs'], {'native': x['label']})
            violations.append((e['name'], x['label'], 'run of the contract on the compiled crate', p, True))
    for h, c in possible_bad:
        e = [e for e in expl if e['name'] == h]
        if e and e[0]['covers'].get(c, 0) > 0:
            continue
        p = replay_file(h, c, [], {'verifier': 'no execution satisfies the stated possibility'})
        violations.append((h, c, 'existential contract', p, False))

    # known findings are identified by harness and obligation
    unlisted = []
    for v in violations:
        k = [x for x in kf.get('findings', []) if x['property'] == prop and x['harness'] == v[0] and x['obligation'] == v[1] and not x.get('fixed')]
        if k:
            known.append((v, k[0]))
        else:
            unlisted.append(v)

    tot = {k: sum(h[k] for h in res['harnesses']) for k in ('checks', 'discharged', 'smt', 'queries', 'paths', 'trivially')} if res['harnesses'] else dict.fromkeys(('checks', 'discharged', 'smt', 'queries', 'paths', 'trivially'), 0)
    proved = [h['name'] for h in res['harnesses'] if h['name'] not in weak and not h['failed'] and h['checks'] > 0 and not h['bounded']]
    bounded = {h['name']: h['bounded'] for h in res['harnesses'] if h['bounded']}
    called, models, labels = {}, {}, {}
    for h in res['harnesses']:
        for k, n in h['called'].items():
            called[k] = called.get(k, 0) + n
        for k, n in h['models'].items():
            models[k] = models.get(k, 0) + n
        for k, n in h['labels'].items():
            labels[k] = labels.get(k, 0) + n
    level = 'other'
    for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']:
        if c['property'] == prop:
            level = c['level']
    trusted = ['dvc (verification-condition generator, /verif/dvc)', 'z3', 'rustc (for the native confirmation only)'] + \
        sorted(models) + json.load(open(os.path.join(V, 'trusted.json'))).get('all', [])
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'obligations': tot['checks'], 'discharged': tot['discharged'],
            'checker_cmd': ' '.join(cmd), 'trusted_base': trusted,
            'discharged_by_simplifier': tot['trivially'], 'sent_to_z3': tot['smt'], 'z3_queries': tot['queries'],
            'solver_seconds': round(sum(h['solver_secs'] for h in res['harnesses']), 1), 'paths': tot['paths'],
            'functions_under_contract': sorted(called), 'named_postconditions_sent_to_z3': labels,
            'harnesses_proved': proved, 'harnesses_bounded': bounded, 'harnesses_standin': weak, 'harnesses_run_natively_only': only_native,
            'covers': {h['name']: h['covers'] for h in res['harnesses']},
            'explanation': 'Each harness states the contract of the functions it names; dvc evaluates the real function bodies from /repo/src symbolically and every obligation is discharged by its simplifier or z3. Harnesses listed as bounded hold up to the stated bound only; stand-ins were only run natively.',
            'evaluations': sum(e['runs'] for e in expl), 'distinct_nontrivial': sum(e['distinct'] for e in expl),
            'rule': 'native runs of the same contracts on the compiled crate with random inputs; distinct input vectors whose preconditions held and that evaluated at least one postcondition',
            'samples': [s for e in expl for s in e['samples']][:6] or [n for n in proved][:3],
            'notes': notes,
        },
        'assumptions': json.load(open(os.path.join(V, 'trusted.json'))).get(prop, []),
        'wall_s': round(time.time() - t0, 1), 'violations': len(unlisted),
    }
    json.dump(ev, open(os.path.join(ev_dir, prop + '.json'), 'w'), indent=1)
    for h in res['harnesses']:
        print('%-44s %s: %d paths, %d obligations, %d discharged (%d by z3), %.0f s cpu' % (
            h['name'], 'STAND-IN' if h['name'] in weak else ('bounded' if h['bounded'] else 'proved') if not h['failed'] else 'FAILED', h['paths'], h['checks'], h['discharged'], h['discharged'] - h['trivially'], h['cpu_secs']))
    for e in expl:
        print('%-44s native: %d runs, %d distinct, %d checks' % (e['name'], e['runs'], e['distinct'], e['checks']))
    for n in notes:
        print('NOTE:', n)
    for v, k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for h, l, loc, p, conf in unlisted:
        print('failed obligation: %s at %s (harness %s)' % (l, loc, h))
    for h, l, loc, p, conf in unlisted[:8]:
        print('VIOLATION property=%s replay=%s%s' % (prop, p, '' if conf else ' no-failing-input-found'))
    print('%s: %s in %.0f s' % (prop, 'VIOLATED' if unlisted else 'holds', time.time() - t0))
    return 1 if unlisted else 0


sys.exit(main())

#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decide one property
   check.py --setup                             build everything once
Exit 0: held. Exit 1 and a VIOLATION line: broken. 2: no answer."""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import jobs as J
TGT = os.path.join(ROOT, 'target')
REPO = '/repo'
T0 = time.time()
ENV = dict(os.environ)
ENV.update(CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0', RUSTFLAGS='-Awarnings', CARGO_TERM_COLOR='never')
ENV.pop('CARGO_TARGET_DIR', None)


class NoAnswer(Exception):
    pass


def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a, flush=True)


def run(cmd, cwd, what, env=None, out=None):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stdout.write(p.stdout[-6000:])
        raise NoAnswer(what + ' failed')
    return p.stdout


def stable():
    """The toolchain environment of the repository's own build."""
    try:
        o = subprocess.run(['bash', '-c', 'source /opt/vp/env.sh >/dev/null 2>&1; env -0'], stdout=subprocess.PIPE, text=True).stdout
        for kv in o.split('\0'):
            k, _, v = kv.partition('=')
            if k in ('PATH', 'RUSTUP_HOME', 'CARGO_HOME', 'RUSTUP_TOOLCHAIN', 'LD_LIBRARY_PATH'):
                ENV[k] = v
    except OSError:
        pass


def put(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    open(path, 'w').write(text)


def build_engine():
    run(['cargo', 'build', '--release', '--offline', '--target-dir', TGT + '/engine'], ROOT + '/engine', 'building the executor')
    return TGT + '/engine/release/llsym'


def gen_code(need):
    """Generate code for the check schemas with /repo's current compiler, and the
    oracle side with our own generator."""
    import fbsgen
    g = TGT + '/gen'
    os.makedirs(g, exist_ok=True)
    if not need:
        return g
    run(['cargo', 'build', '--offline', '--target-dir', TGT + '/vgen'], ROOT + '/harness/vgen', 'building the code generator')
    tmp = TGT + '/gen.new'
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    srcs = sorted(f for f in os.listdir(ROOT + '/schemas') if f.endswith('.fbs'))
    run([TGT + '/vgen/debug/vgen', tmp] + [ROOT + '/schemas/' + s for s in srcs], ROOT + '/schemas', 'generating code for the check schemas')
    for s in srcs:
        text = open(ROOT + '/schemas/' + s).read()
        ns = re.search(r'namespace\s+([\w.]+)\s*;', text).group(1)
        stem = s[:-4]
        put(tmp + '/%s_h.rs' % stem, fbsgen.emit(fbsgen.S(text), 'crate::%s_gen::%s' % (stem, ns.replace('.', '::')), '' if stem == 'core' else stem[0] + '_'))
    for f in os.listdir(tmp):
        put(os.path.join(g, f), open(os.path.join(tmp, f)).read())
    shutil.rmtree(tmp)
    return g


def build_ir(crate, feats, gen):
    t = '%s/ir-%s%s' % (TGT, crate, '-' + feats.replace(',', '_') if feats else '')
    env = dict(ENV, VH_GEN=gen)
    if crate in J.NOGEN:
        # hash tables without vector instructions
        env['RUSTFLAGS'] += ' --cfg miri'
    deps = t + '/release/deps'
    cmd = ['cargo', 'rustc', '--offline', '--release', '--target-dir', t] + (['--features', feats] if feats else []) + ['--', '--emit=llvm-ir,link', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp', '-C', 'link-arg=-Wl,--unresolved-symbols=ignore-all']
    run(cmd, ROOT + '/harness/' + crate, 'building the IR of ' + crate, env)
    ll = [f for f in os.listdir(deps) if f.startswith(crate + '-') and f.endswith('.ll')]
    ll.sort(key=lambda f: os.path.getmtime(deps + '/' + f))
    for f in ll[:-1]:
        os.remove(deps + '/' + f)
    return deps + '/' + ll[-1]


def build_native(crate, feats, gen, prof='dev'):
    t = '%s/nat-%s%s' % (TGT, crate, '-' + feats.replace(',', '_') if feats else '')
    env = dict(ENV, VH_GEN=gen)
    f = 'native' + (',' + feats if feats else '')
    run(['cargo', 'build', '--offline', '--profile', prof, '--features', f, '--target-dir', t], J.NATIVE.get(crate, ROOT + '/harness/' + crate), 'building %s natively' % crate, env)
    return '%s/%s/%s' % (t, 'debug' if prof == 'dev' else prof, crate)


def replay(binary, entry, params, inputs, work, miri=None):
    f = os.path.join(work, 'in-%s.txt' % hashlib.md5(repr((entry, params, inputs, binary, miri)).encode()).hexdigest()[:12])
    open(f, 'w').write(''.join(i + '\n' for i in inputs))
    cmd = ([binary] if not miri else miri) + [entry, ','.join(map(str, params)), f]
    kw = {} if not miri else {'cwd': miri_cwd, 'env': miri_env}
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600, **kw)
    res = []
    for l in p.stdout.splitlines():
        a = l.split(' ', 3)
        if a[0] in ('ok', 'assume', 'panic') and len(a) >= 3:
            res.append((a[0], [] if a[1] == '-' else [int(x) for x in a[1].split(',')], a[2], a[3] if len(a) > 3 else ''))
    return p.returncode, res, p.stderr


def known(prop):
    try:
        return [k for k in json.load(open(ROOT + '/known-findings.json'))['findings'] if k['property'] == prop]
    except FileNotFoundError:
        return []


def main():
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    stable()
    os.makedirs(TGT, exist_ok=True)
    lock = open(TGT + '/.lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    setup = '--setup' in args
    prop = None if setup else args[0]
    todo = [] if setup else J.jobs(prop, tier)
    if '--only' in args:
        todo = [j for j in todo if re.search(args[args.index('--only') + 1], j['entry'] + ':' + ','.join(map(str, j['params'])))]
    crates = sorted({(j['crate'], j['feats']) for j in todo}) if not setup else J.CRATES
    needgen = any(c[0] in J.NEEDGEN for c in crates)
    with cf.ThreadPoolExecutor(4) as ex:
        fe = ex.submit(build_engine); fg = ex.submit(gen_code, needgen)
        llsym, gen = fe.result(), fg.result()
        fi = {c: ex.submit(build_ir, c[0], c[1], gen) for c in crates}
        fn = {c: ex.submit(build_native, c[0], c[1], gen) for c in crates}
        ll = {c: f.result() for c, f in fi.items()}
        nat = {c: f.result() for c, f in fn.items()}
    log('built; %d jobs' % len(todo))
    if setup:
        return 0
    work = '%s/work-%s' % (TGT, prop)
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    tb = time.time()

    kn = known(prop)
    knchecks = {k['check'] for k in kn if k['kind'] == 'check'}
    BUDGET = 820 if tier == 'quick' else 20000
    stop = threading.Event()
    procs, plock = set(), threading.Lock()
    viol, findings, unrep, trouble = [], [], [], []

    def explore(j, maxviol):
        n = '%s-%s' % (j['entry'], '_'.join(map(str, j['params'])))
        o, w = '%s/%s.json' % (work, n), '%s/%s.wit' % (work, n)
        left = T0 + BUDGET - time.time()
        if stop.is_set() or left < 5:
            return None
        cmd = [llsym, '--ll', ll[(j['crate'], j['feats'])], '--entry', j['entry'], '--params', ','.join(map(str, j['params'])), '--out', o, '--witness', w,
               '--max-secs', str(int(min(j['secs'], left - 3))), '--max-paths', '20000000', '--max-viol', str(maxviol)] + j['extra']
        if j['ids'] is not None:
            cmd += ['--stop-checks', ','.join(str(i) for i in j['ids'] if i not in knchecks)]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        with plock:
            procs.add(p)
        try:
            msg = p.communicate(timeout=max(left + 20, 30))[0]
        except subprocess.TimeoutExpired:
            p.kill(); msg = p.communicate()[0]
        with plock:
            procs.discard(p)
        if stop.is_set():
            return None
        if p.returncode != 0 or not os.path.exists(o):
            trouble.append('the executor failed on %s %s: %s' % (j['entry'], j['params'], msg[-1500:]))
            return None
        r = json.load(open(o)); r['job'] = j; r['wit'] = w
        return r

    def halt():
        stop.set()
        with plock:
            for p in procs:
                p.kill()

    rlock = threading.Lock()

    def one(j):
        r = explore(j, 1)
        if r is None:
            return None
        if not judge(r):
            # what was found did not reproduce: look for more
            r2 = explore(j, 8)
            if r2 is not None:
                r = r2
                judge(r, True)
        if viol:
            halt()
        return r

    def judge(r, last=False):
        """Replays what one job found. False: nothing of it reproduced."""
        j = r['job']; c = (j['crate'], j['feats'])
        seen = [v for v in r['violations'] if not (v['kind'] == 'check' and j['ids'] is not None and v['check'] not in j['ids'])]
        good = 0
        bads = []
        for v in seen:
            if stop.is_set():
                return True
            how = confirm(nat, c, j, v)
            rec = {'property': prop, 'entry': j['entry'], 'params': j['params'], 'crate': j['crate'], 'features': j['feats'], 'kind': v['kind'], 'check': v['check'],
                   'message': v['msg'], 'meaning': J.MEANING.get(v['check'], '') if v['kind'] == 'check' else '', 'input': v['input'], 'where': v['loc'], 'reproduced': how}
            if not how:
                bads.append(rec); continue
            good += 1
            k = next((k for k in kn if re.fullmatch(k['entry'], j['entry']) and k.get('check') == v['check'] and k['kind'] == v['kind'] and re.search(k.get('where', ''), v['loc']) and re.search(k.get('message', ''), how)), None)
            if last and k:
                continue
            (findings if k else viol).append((rec, k))
        if last or good or not seen:
            if not good:
                unrep.extend(bads)
        return bool(good or not seen)

    def confirm(nat, c, j, v):
        bad = lambda rc, rs: rc != 0 and not rs or rs and (rs[0][0] == 'panic' or rs[0][1])
        say = lambda rc, rs, err: rs[0][3] if rs and rs[0][0] == 'panic' else 'assertion %s' % rs[0][1] if rs else 'exit status %d %s' % (rc, err[-300:])
        rc, rs, err = replay(nat[c], j['entry'], j['params'], [v['input']], work)
        if bad(rc, rs):
            return 'debug build: ' + say(rc, rs, err)
        with rlock:
            if c not in rel:
                rel[c] = build_native(c[0], c[1], gen, 'plain')
        rc, rs, err = replay(rel[c], j['entry'], j['params'], [v['input']], work)
        if bad(rc, rs):
            return 'release build: ' + say(rc, rs, err)
        with rlock:
            global miri_cwd, miri_env
            miri_cwd = J.NATIVE.get(c[0], ROOT + '/harness/' + c[0])
            miri_env = dict(ENV, VH_GEN=gen, MIRIFLAGS='-Zmiri-disable-isolation')
            miri_env.pop('RUSTUP_TOOLCHAIN', None)
            f = 'native' + (',' + c[1] if c[1] else '')
            try:
                rc, rs, err = replay(None, j['entry'], j['params'], [v['input']], work, ['cargo', '+nightly', 'miri', 'run', '--offline', '-q', '--features', f, '--target-dir', TGT + '/miri-' + c[0], '--'])
                if 'Undefined Behavior' in err:
                    return 'Miri: ' + next((l for l in err.splitlines() if 'Undefined Behavior' in l), '')
                if bad(rc, rs) and rs:
                    return 'Miri run: ' + rs[0][3]
            except subprocess.TimeoutExpired:
                pass
        return None

    rel = {}
    todo.sort(key=lambda j: -j['cost'])
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        res = list(ex.map(one, todo))
    skipped = sum(r is None for r in res)
    res = [r for r in res if r is not None]
    if skipped and not viol and not trouble:
        trouble.append('%d jobs not explored within the time budget' % skipped)
    log('explored: %d paths, %d queries' % (sum(r['paths'] for r in res), sum(r['queries'] for r in res)))
    for r in res:
        j = r['job']
        if viol:
            break
        if r['status'] == 'incomplete' or (r['status'] == 'violations' and r['problems']):
            trouble.append('%s %s incomplete: %s' % (j['entry'], j['params'], r['problems']))
        elif r['status'] == 'ok':
            # vacuity: the assertions and markers this job exists for were reached
            for i in j['ids'] or []:
                if i in j['must'] and not r['checks_reached'].get(str(i)):
                    trouble.append('%s %s never reached assertion %d' % (j['entry'], j['params'], i))
            for i in j['covers']:
                if i not in r['covers']:
                    trouble.append('%s %s never reached marker %d' % (j['entry'], j['params'], i))
            if r['paths'] < j['minpaths']:
                trouble.append('%s %s explored only %d paths' % (j['entry'], j['params'], r['paths']))
    # the executor against the machine: witnesses of explored paths, run natively
    traces = 0
    samples = []
    for r in res if not viol else []:
        j = r['job']; c = (j['crate'], j['feats'])
        w = [l.split() for l in open(r['wit'])] if os.path.exists(r['wit']) else []
        if not w:
            continue
        rc, rs, err = replay(nat[c], j['entry'], j['params'], [a for a, _ in w], work)
        if len(rs) != len(w):
            trouble.append('%s %s: native replay stopped after %d of %d witnesses: %s' % (j['entry'], j['params'], len(rs), len(w), err[-300:])); continue
        badids = {v['check'] for v in r['violations']}
        for (i, o), s in zip(w, rs):
            if s[0] == 'ok' and s[2] == o and not (set(s[1]) - badids):
                traces += 1
            elif r['status'] == 'ok':
                trouble.append('%s %s: native run of input %s gives %s, executor saw %s' % (j['entry'], j['params'], i, s, o)); break
        if len(samples) < 12 and w:
            samples.append({'entry': j['entry'], 'params': j['params'], 'input': w[-1][0], 'observed': w[-1][1]})
    tot = lambda k: sum(r[k] for r in res)
    fns = sorted({f for r in res for f in r['functions'] if '/gen/' not in f})
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': J.LEVEL.get(prop, 'model_checking'),
          'coverage': {'states': tot('paths'), 'transitions': tot('forks') + tot('paths'), 'traces_validated_against_impl': traces, 'samples': samples,
                       'explanation': 'states: feasible execution paths of the compiled code explored to the end, each deciding its assertions for every input that takes it; transitions: path segments between symbolic decisions.',
                       'jobs': len(res), 'instructions_executed': tot('instructions'), 'assertions_decided': tot('checks'), 'assertions_needing_solver': tot('checks_by_solver'),
                       'queries': tot('queries'), 'queries_sat': tot('sat'), 'queries_unsat': tot('unsat'), 'query_cache_hits': tot('cache_hits'),
                       'solver_s': round(tot('solver_s'), 2), 'z3_confirmed': tot('z3_confirmed'), 'z3_s': round(tot('z3_s'), 2), 'solver': res[0]['solver'] if res else '',
                       'pending_paths': tot('pending'), 'killed_by_assumption': tot('killed'),
                       'bounds': J.BOUNDS.get(prop, ''), 'functions_encoded': len(fns), 'functions': fns[:400],
                       'largest_jobs': [{'entry': r['entry'], 'params': r['params'], 'paths': r['paths'], 'wall_s': r['wall_s']} for r in sorted(res, key=lambda r: -r['wall_s'])[:6]],
                       'known_findings_seen': len(findings)},
          'assumptions': J.ASSUME + J.ASSUME_P.get(prop, []), 'wall_s': round(time.time() - T0, 1), 'violations': len(viol)}
    os.makedirs(ROOT + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (ROOT, prop), 'w'), indent=1)
    log('%d traces validated, solver %.1f s, explored in %.1f s' % (traces, tot('solver_s'), time.time() - tb))
    for k in {k['what']: k for _, k in findings}.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if viol:
        os.makedirs(ROOT + '/evidence/replay', exist_ok=True)
        for n, (rec, _) in enumerate(viol[:5]):
            p = '%s/evidence/replay/%s-%d.json' % (ROOT, prop, n)
            json.dump(rec, open(p, 'w'), indent=1)
            print('  %s %s: %s %s | input %s | %s' % (rec['entry'], rec['params'], rec['message'], rec['meaning'], rec['input'][:160], rec['reproduced']))
            print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    if unrep:
        for rec in unrep[:5]:
            print('NOT REPRODUCED: %s' % json.dumps(rec))
        return 2
    if trouble:
        for t in trouble[:10]:
            print('NO ANSWER: ' + t)
        return 2
    print('HELD property=%s' % prop)
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except NoAnswer as e:
        print('NO ANSWER: %s' % e)
        sys.exit(2)

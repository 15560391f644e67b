#!/usr/bin/env python3
"""Driver: builds the simulator from /repo's working tree, explores seeds,
gates, minimises and reports violations, writes the evidence file.

  run.py check <property> [quick|thorough]
  run.py replay <file> [-v]
  run.py build [group...]
  run.py soak <property> <seconds>        (exploration only, no evidence)
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
SIM = os.path.join(HERE, 'sim')
BUILD = os.environ.get('SIM_BUILD', os.path.join(HERE, 'build'))
JOBS = int(os.environ.get('SIM_JOBS', os.cpu_count() or 8))

sys.path.insert(0, HERE)
from props import GROUPS, PROPS, GROUP_OF   # noqa: E402

CXX = 'g++'
BASE = ['-std=c++20', '-U_FORTIFY_SOURCE', '-include', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sim', 'prefix.hpp'), '-O1', '-g1', '-w', '-fno-omit-frame-pointer',
        '-ftrivial-auto-var-init=pattern', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR=1',
        '-DCMP_CONFIG_IS_STATIC=true', '-DCMP_CONFIG_IS_DYNAMIC=false']
COV = ['-fsanitize-coverage=trace-pc']
ASAN = '-fsanitize=address'
PLAIN = ('kernel.cpp', 'main.cpp', 'sched.cpp', 'race.cpp')      # simulator code: not instrumented
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:abort_on_error=0:max_malloc_fill_size=1048576:'
           'malloc_fill_byte=190:free_fill_byte=221:max_free_fill_size=4096:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0',
           LC_ALL='C.UTF-8')


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            h.update(open(root, 'rb').read())
            continue
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p[len(root):].encode())
                try:
                    h.update(open(p, 'rb').read())
                except OSError:
                    pass
    return h.hexdigest()[:20]


def build(group):
    """Returns (path of the binary, build log or None)."""
    g = GROUPS[group]
    key = tree_hash([os.path.join(REPO, 'api'), SIM, os.path.join(HERE, 'props.py')])
    out = os.path.join(BUILD, f'{group}-{key}')
    exe = os.path.join(out, 'sim')
    if os.path.exists(exe):
        return exe, None
    tmp = out + f'.tmp{os.getpid()}'
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    inc = ['-I' + os.path.join(REPO, 'api/include'), '-I' + os.path.join(REPO, 'api/src'), '-I' + SIM]
    jobs = []
    san = '-fsanitize=' + g.get('san', 'address')
    for src in g['sim']:
        jobs.append((os.path.join(SIM, src), src.replace('/', '_') + '.o', src not in PLAIN))
    for src in g['repo']:
        jobs.append((os.path.join(REPO, 'api/src/cmp', src), 'repo_' + src.replace('/', '_') + '.o', True))

    jobs.sort(key=lambda j: not j[2])          # of templates in both, the instrumented copy is linked
    if g.get('pkg'):
        inc += sh(['pkg-config', '--cflags', g['pkg']]).stdout.split()

    def one(j):
        src, obj, cov = j
        return sh([CXX, *BASE, *(COV if cov else []), *([san] if cov or san == ASAN else []),
                   *(['-D_GLIBCXX_EXTERN_TEMPLATE=0'] if cov and san != ASAN else []), *g.get('flags', []), *inc, '-c', src, '-o', os.path.join(tmp, obj)])
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, jobs))
    for j, r in zip(jobs, res):
        if r.returncode:
            return None, f'{j[0]}\n{r.stdout}'
    r = sh([CXX, *BASE, *([san] if san == ASAN else []), '-o', os.path.join(tmp, 'sim'), *[os.path.join(tmp, j[1]) for j in jobs], *g.get('libs', []), '-lpthread'])
    if r.returncode:
        return None, r.stdout
    for j in jobs:
        os.unlink(os.path.join(tmp, j[1]))
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe, None


# ------------------------------------------------------------------ replaying
def classify(rc, text):
    """Outcome of one process: ('ok'|'violation'|'error', class, message)."""
    if rc == 0:
        return 'ok', '', ''
    m = re.search(r'^violation ([\w-]+): (.*)$', text, re.M)
    if rc == 10 and m:
        return 'violation', m.group(1), m.group(2)
    if rc == 77 or 'HANG ' in text:
        m = re.search(r'HANG (.*)', text)
        return 'violation', 'hang', m.group(1) if m else 'no progress'
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', text)
    if m:
        kind = m.group(1)
        if kind == 'ABRT' or 'ABRT' in kind:
            t = re.search(r"terminate called after throwing an instance of '([^']*)'", text)
            a = re.search(r'Assertion .*failed', text)
            return 'violation', 'terminate', ('uncaught ' + t.group(1)) if t else (a.group(0) if a else 'abort')
        fr = re.search(r'#\d+ 0x\w+ in (\S+).*?/repo/\S+', text)
        return 'violation', 'memory-' + kind, 'AddressSanitizer: ' + kind + (f' in {fr.group(1)}' if fr else '')
    if rc < 0 or rc in (99, 134, 139):
        return 'violation', 'crash', f'process died (status {rc})'
    return 'error', '', f'exit {rc}: {text[-600:]}'


def find_history(exe, prop, at):
    seed, base, first, stride, index = at
    k, last = 1, ('ok', '', '')
    while True:
        start = max(0, index - k)
        text = f'prop {prop}\nseed {seed}\nhistory {prop} {base} {first} {stride} {start} {index}\n'
        a, _ = run_plan(exe, text)
        b, _ = run_plan(exe, text)
        if a[0] == b[0] == 'violation':
            return text, a
        last = a
        if start == 0:
            return None, last
        k *= 4


def run_plan(exe, text, verbose=False, timeout=120):
    h = re.search(r'^history (.*)$', text, re.M)
    if h:
        try:
            r = subprocess.run([exe, 'hist', *h.group(1).split()], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               env=ENV, timeout=600, stdin=subprocess.DEVNULL)
            out = r.stdout.decode(errors='replace')
            return classify(r.returncode, out), out
        except subprocess.TimeoutExpired:
            return ('violation', 'hang', 'wall-clock limit'), ''
    fd, path = tempfile.mkstemp(prefix='simplan')
    os.write(fd, text.encode())
    os.close(fd)
    try:
        r = subprocess.run([exe, 'replay', path] + (['-v'] if verbose else []), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, env=ENV, timeout=timeout, stdin=subprocess.DEVNULL)
        out = r.stdout.decode(errors='replace')
        return classify(r.returncode, out), out
    except subprocess.TimeoutExpired:
        return ('violation', 'hang', 'wall-clock limit'), ''
    finally:
        os.unlink(path)


def gen_plan(exe, prop, seed):
    return subprocess.run([exe, 'gen', prop, str(seed)], stdout=subprocess.PIPE, env=ENV, check=True).stdout.decode()


def minimise(exe, text, cls, budget=90):
    """Drops steps and faults and shrinks arguments while the same class of
    violation persists."""
    t0 = time.time()
    lines = [l for l in text.splitlines() if l.strip()]
    head = [l for l in lines if l.startswith(('prop ', 'seed ', '#'))]
    steps = [l for l in lines if l not in head]

    def fails(st):
        if time.time() - t0 > budget:
            return False
        (k, c, _), _ = run_plan(exe, '\n'.join(head + st) + '\n', timeout=30)
        return k == 'violation' and c == cls

    def fails_many(cands):
        with ThreadPoolExecutor(JOBS) as ex:
            return list(ex.map(fails, cands))
    def drop(steps):
        n = max(1, len(steps) // 2)
        while n >= 1 and time.time() - t0 < budget:
            cands = [steps[:i] + steps[i + n:] for i in range(0, len(steps), n)]
            ok = [c for c, f in zip(cands, fails_many(cands)) if f]
            if ok:
                steps = ok[-1]
                n = min(n, max(1, len(steps) // 2))
            else:
                n //= 2
        return steps

    def shrink(steps):                    # drops faults, makes numbers smaller
        changed = True
        while changed and time.time() - t0 < budget:
            changed = False
            cands = []
            for i, s in enumerate(steps):
                body, _, f = s.partition(' | ')
                fl = f.split()
                for j in range(len(fl)):
                    nf = fl[:j] + fl[j + 1:]
                    cands.append(steps[:i] + [body + (' | ' + ' '.join(nf) if nf else '')] + steps[i + 1:])
                w = body.split()
                for j in range(1, len(w)):
                    try:
                        v = int(w[j])
                    except ValueError:
                        continue
                    for nv in sorted({0, 1, v // 2, v - 1}):
                        if 0 <= nv < v:
                            nb = w[:j] + [str(nv)] + w[j + 1:]
                            cands.append(steps[:i] + [' '.join(nb) + (' | ' + f if f else '')] + steps[i + 1:])
            for k in range(0, len(cands), 4 * JOBS):
                part = cands[k:k + 4 * JOBS]
                ok = [c for c, f in zip(part, fails_many(part)) if f]
                if ok:
                    steps = ok[0]
                    changed = True
                    break
        return steps
    while time.time() - t0 < budget:
        before = steps
        steps = shrink(drop(steps))
        if steps == before:
            break
    return '\n'.join(head + steps) + '\n'


# ----------------------------------------------------------------- exploration
def explore(exe, prop, base, seconds, maxruns=10**9, workers=JOBS):
    """Runs workers; returns (aggregate, first violation or None, error or None)."""
    tmp = tempfile.mkdtemp(prefix='simrun')
    procs = []
    for w in range(workers):
        out, prog, err = (os.path.join(tmp, f'{w}.{e}') for e in ('json', 'prog', 'err'))
        ef = open(err, 'wb')
        procs.append((subprocess.Popen([exe, 'run', prop, str(base), str(w), str(workers), str(seconds), str(maxruns), prog, out],
                                       stdout=ef, stderr=ef, env=ENV, stdin=subprocess.DEVNULL), out, prog, err))
    agg, viol, error = None, [], None

    def where(prog, w):          # (seed, base, first, stride, index) of the run a worker was in
        b = open(prog, 'rb').read(16)
        return int.from_bytes(b[:8], 'little'), base, w, workers, int.from_bytes(b[8:], 'little') - 1
    deadline = time.time() + seconds + 120
    pending = list(procs)
    try:
        while pending:
            for t in list(pending):
                p, out, prog, err = t
                rc = p.poll()
                if rc is None:
                    if time.time() > deadline:
                        p.kill()
                        p.wait()
                        viol.append(where(prog, procs.index(t)))
                        pending.remove(t)
                    continue
                pending.remove(t)
                if rc == 0:
                    d = json.load(open(out))
                    try:
                        raw = open(out + '.shapes', 'rb').read()
                        d['shapes'] = set(raw[i:i + 8] for i in range(0, len(raw), 8))
                    except OSError:
                        d['shapes'] = set()
                    agg = merge(agg, d)
                elif rc == 10:
                    viol.append(where(prog, procs.index(t)))
                else:
                    text = open(err, errors='replace').read()
                    k, c, m = classify(rc, text)
                    if k == 'violation' and os.path.exists(prog):
                        viol.append(where(prog, procs.index(t)))
                    else:
                        error = f'worker exit {rc}: {text[-800:]}'
                if viol:
                    break
            time.sleep(0.02)
            if viol:
                for q, *_ in pending:
                    q.kill()
                    q.wait()
                pending = []
    finally:
        for p, *_ in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)
    return agg, viol, error


def merge(a, d):
    if a is None:
        return d
    for k, v in d.items():
        if isinstance(v, bool) or isinstance(v, str):
            continue
        if isinstance(v, (int, float)):
            a[k] = a.get(k, 0) + v
        elif isinstance(v, dict):
            for kk, vv in v.items():
                a[k][kk] = a[k].get(kk, 0) + vv
        elif isinstance(v, list):
            a[k] = a[k] + v
        elif isinstance(v, set):
            a[k] |= v
    return a


def known_findings():
    p = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                m = re.match(r'finding: property=(\w+) plan=(\S+) class=(\S+) match=/(.*)/ (.*)$', l)
                if m:
                    out.append(m.groups())
    return out


def write_evidence(prop, tier, seed, agg, wall, violations, extra=None):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    g = GROUP_OF[prop]
    agg = agg or dict(runs=0, nontrivial=0, shapes=set(), faults={}, probes={}, samples=[], ops=0, syscalls=0, blocks=0,
                      reruns_identical=0, reruns_diverged=0, opcount={}, switches=0, sim_time_us=0, distinct_traces=0, real='', stub='', allocs=0)
    cov = dict(
        evaluations=agg['runs'],
        distinct_nontrivial=len(agg['shapes']),
        rule=PROPS[prop]['rule'],
        samples=[s.splitlines() for s in agg['samples'][:3]],
        nontrivial_runs=agg['nontrivial'],
        distinct_exact_traces=agg['distinct_traces'],
        seeds_per_hour=int(agg['runs'] / max(wall['explore'], 1e-3) * 3600),
        operations=agg['ops'], system_calls=agg['syscalls'], basic_blocks=agg['blocks'],
        allocations=agg['allocs'], thread_switches=agg['switches'],
        simulated_time_s=agg['sim_time_us'] / 1e6,
        faults_injected=agg['faults'], rare_conditions_hit=agg['probes'], operations_by_kind=agg['opcount'],
        reruns=agg['reruns_identical'], reruns_with_a_different_trace=agg['reruns_diverged'],
        components_real=agg['real'], components_stubbed=agg['stub'],
        build_group=g)
    cov.update(extra or {})
    ev = dict(property=prop, tier=tier, seed=seed, level=PROPS[prop].get('level', 'exploration'), coverage=cov,
              assumptions=PROPS[prop].get('assumptions', []), wall_s=round(wall['total'], 2), violations=violations)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    exe, log = build(GROUP_OF[prop])
    if not exe:
        print(f'error: the simulator does not build:\n{log[-3000:]}')
        return 2
    seconds = PROPS[prop].get('quick_s', 20) if tier == 'quick' else PROPS[prop].get('thorough_s', 600)
    seconds = float(os.environ.get('SIM_SECONDS', seconds))
    base = int(hashlib.sha256(f'{prop}:{seed}:{tier if tier != "quick" else "q"}'.encode()).hexdigest()[:12], 16)
    te = time.time()
    # the listed findings are histories of their own, which the exploration does not generate
    known_hit = set()
    for _, plan, cls, match, what in (f for f in known_findings() if f[0] == prop):
        path = os.path.join(HERE, plan)
        (k1, c1, m1), out = run_plan(exe, open(path).read())
        if k1 == 'violation' and c1 == cls and re.search(match, out, re.S):
            known_hit.add(what)
        elif k1 == 'violation':
            print(f'{c1}: {m1}')
            print(f'VIOLATION property={prop} replay={path}')
            wall = dict(explore=time.time() - te, total=time.time() - t0)
            write_evidence(prop, tier, seed, None, wall, 1, dict(violation=dict(cls=c1, msg=m1, plan=plan)))
            return 1
        elif k1 != 'ok':
            print(f'error: {plan}: {k1} {m1}')
            return 2
    remaining, agg, rounds, variant, notes = seconds, None, 0, None, {}
    variants = [g for g, d in GROUPS.items() if prop in d.get('also', [])]
    while True:
        a, viol, error = explore(exe, prop, base + rounds, max(2, remaining))
        rounds += 1
        if a:
            agg = merge(agg, a)
        if error:
            print('error: ' + error)
            return 2
        if not viol:
            if agg and agg.get('real') and not notes:
                notes = dict(builds={GROUP_OF[prop]: a['runs']})
            elif a and variant:
                notes['builds'][variant] = a['runs']
            while variants:                # the same scenarios on another build of the library
                variant = variants.pop(0)
                alt, log = build(variant)
                if alt:
                    break
                notes['builds'][variant] = 'not built: ' + log[-300:]
                alt = None
            else:
                break
            exe, remaining = alt, seconds * GROUPS[variant].get('share', 0.3)
            continue
        # gate: regenerate the plan from the seed, replay twice in fresh processes
        vseed = viol[0][0]
        plan = gen_plan(exe, prop, vseed)
        (k1, c1, m1), _ = run_plan(exe, plan)
        (k2, c2, m2), _ = run_plan(exe, plan)
        history = None
        if k1 != 'violation' or k2 != 'violation':
            # state left behind by earlier runs of the process: replay a window of them
            history, (k1, c1, m1) = find_history(exe, prop, viol[0])
            if not history:
                print(f'error: seed {vseed} does not replay: {k1}/{c1} then {k2}/{c2}: {m1}')
                return 2
        if history:
            small, k3, c3, m3 = history, k1, c1, m1
        else:
            small = minimise(exe, plan, c1, budget=60 if tier == 'quick' else 300)
            (k3, c3, m3), out3 = run_plan(exe, small)
        if k3 != 'violation':
            small, (k3, c3, m3) = plan, (k1, c1, m1)
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', f'{prop}-{vseed}.plan')
        with open(path, 'w') as f:
            f.write((f'# build {variant}\n' if variant else '') + f'# property {prop}: {PROPS[prop]["title"]}\n# violation class {c3}: {m3}\n'
                    f'# from seed {vseed} (VERIF_SEED={seed}, {tier}); replay: python3 {HERE}/run.py replay {path}\n' + small)
        print(f'{c3}: {m3}')
        print('minimised plan:')
        print('\n'.join('  ' + l for l in small.splitlines()))
        print(f'VIOLATION property={prop} replay={path}')
        wall = dict(explore=time.time() - te, total=time.time() - t0)
        write_evidence(prop, tier, seed, agg, wall, 1, dict(violation=dict(cls=c3, msg=m3, seed=vseed)))
        return 1
    wall = dict(explore=time.time() - te, total=time.time() - t0)
    for k in sorted(known_hit):
        print(f'KNOWN-FINDING: property={prop} {k}')
    write_evidence(prop, tier, seed, agg, wall, 0, notes)
    print(f'{prop} held: {agg["runs"]} runs, {len(agg["shapes"])} distinct, faults {agg["faults"]}, {wall["total"]:.1f} s')
    return 0


def main():
    a = sys.argv[1:]
    if a[:1] == ['check'] and len(a) >= 2 and a[1] in PROPS:
        tier = a[2] if len(a) > 2 else os.environ.get('VERIF_TIER', 'quick')
        return check(a[1], tier)
    if a[:1] == ['replay']:
        text = open(a[1]).read()
        prop = re.search(r'^prop (\w+)', text, re.M).group(1)
        v = re.search(r'^# build (\w+)', text, re.M)
        exe, log = build(v.group(1) if v else GROUP_OF[prop])
        if not exe:
            print(log)
            return 2
        (k, c, m), out = run_plan(exe, text, verbose='-v' in a)
        print(out)
        if k == 'violation':
            print(f'{c}: {m}')
            print(f'VIOLATION property={prop} replay={os.path.abspath(a[1])}')
            return 1
        return 0 if k == 'ok' else 2
    if a[:1] == ['build']:
        for g in (a[1:] or GROUPS):
            t = time.time()
            exe, log = build(g)
            print(g, exe or ('FAILED\n' + log[-4000:]), f'{time.time() - t:.1f}s')
            if not exe:
                return 2
        return 0
    if a[:1] == ['soak']:
        exe, log = build(GROUP_OF[a[1]])
        base = int(a[3]) if len(a) > 3 else int(time.time())
        agg, viol, error = explore(exe, a[1], base, float(a[2]))
        print(a[1], 'runs', agg and agg['runs'], 'viol', viol[:3], 'error', error)
        return 1 if viol or error else 0
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())

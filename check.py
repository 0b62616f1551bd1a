#!/usr/bin/env python3
"""Driver: builds the simulator against /repo, searches seeds for one
property, confirms / minimises / records violations, writes evidence.

  check.py run <property> [--secs S]     decide one property
  check.py replay <file>                 re-execute a recorded violation
  check.py build                         build every variant (setup)
"""
import array, hashlib, json, os, re, subprocess, sys, tempfile, threading, time, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SIM = os.path.join(VERIF, 'sim')
BUILD = os.path.join(VERIF, 'build')
sys.path.insert(0, VERIF)
from props import VARIANTS, PROPS, COMMON_CLASSES, REAL, STUB

NCPU = max(2, min(8, os.cpu_count() or 4))
CORE = ['sim.cpp', 'model.cpp', 'common.cpp', 'stream.cpp', 'nested.cpp', 'generic.c']


def die(msg):
    print('ERROR: ' + msg)
    sys.stdout.flush()
    os._exit(2)


def digest(engines, flags):
    h = hashlib.sha256()
    h.update(json.dumps([engines, flags]).encode())
    src = os.path.join(REPO, 'src', 'mpack')
    files = [os.path.join(src, f) for f in sorted(os.listdir(src))]
    files += [os.path.join(SIM, f) for f in sorted(os.listdir(SIM))]
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as fp:
                h.update(fp.read())
    return h.hexdigest()[:20]


def build(jobs_list):
    """jobs_list: [(variant, (engines...))] -> {(variant, engines): exe}. Compiles
    everything that is not built from exactly these sources already."""
    out, todo, links = {}, [], []
    for variant, engines in jobs_list:
        v = VARIANTS[variant]
        d = os.path.join(BUILD, variant + '-' + digest(engines, v))
        exe = os.path.join(d, 'sim')
        out[(variant, engines)] = exe
        if os.path.exists(exe):
            os.utime(d)
            continue
        os.makedirs(d, exist_ok=True)
        inc = ['-I' + SIM, '-I' + os.path.join(REPO, 'src'), '-DMPACK_HAS_CONFIG=1',
               '-DMPACK_VERIF_VARIANT="%s"' % variant]
        objs = []
        lib = os.path.join(REPO, 'src', 'mpack')
        for f in sorted(x for x in os.listdir(lib) if x.endswith('.c')):
            o = os.path.join(d, 'm_%s.o' % f)
            todo.append(v['lib'] + ['-g', '-w'] + inc + v['flags'] +
                        ['-c', os.path.join(lib, f), '-o', o])
            objs.append(o)
        for f in CORE + ['eng_%s.cpp' % e for e in engines]:
            o = os.path.join(d, f + '.o')
            if f.endswith('.c'):
                cmd = list(v['lib'])
            else:
                cmd = [v['cxx'], '-std=gnu++17']
            todo.append(cmd + ['-g', '-w'] + inc + v['flags'] + [x.replace('@SIM@', SIM) for x in v['hflags']] + ['-c', os.path.join(SIM, f), '-o', o])
            objs.append(o)
        links.append([v['cxx']] + v['flags'] + objs + ['-o', exe + '.tmp'])

    def run(cmd):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.returncode, p.stdout.decode(errors='replace'), cmd
    # engines first: they take longest
    todo.sort(key=lambda c: 0 if 'eng_' in c[-1] else 1 if c[-1].endswith('.cpp.o') else 2)
    for cmds in (todo, links):
        with ThreadPoolExecutor(NCPU) as ex:
            for rc, text, cmd in ex.map(run, cmds):
                if rc:
                    die('build failed: %s\n%s' % (' '.join(cmd), text[-3000:]))
    for cmd in links:
        os.rename(cmd[-1], cmd[-1][:-4])
        d = os.path.dirname(cmd[-1])
        for f in os.listdir(d):
            if f.endswith('.o'):
                os.unlink(os.path.join(d, f))
    prune(set(os.path.dirname(e) for e in out.values()))
    return out


def prune(keep):
    # keep the build folder small: drop the oldest builds
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)]
        ds.sort(key=os.path.getmtime)
        for d in ds[:-160]:
            if d not in keep:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def known_findings(prop):
    res = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) class=(\S+) match=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return res


def env_for(cls):
    # a run known to hang is given up earlier than during the search
    return dict(os.environ, SIM_HANG_SECS='6') if cls == 'hang' else None


def sim_one(exe, engine, profile, seed, tape=None, trace=False, cls=None):
    cmd = [exe, 'one', '--engine', engine, '--profile', profile, '--seed', str(seed)]
    if tape:
        cmd += ['--tape', tape]
    if trace:
        cmd += ['--trace']
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env_for(cls))
    text = p.stdout.decode(errors='replace')
    m = re.search(r'^RESULT (\w+)(?: class=(\S+))? hash=(\w+)', text, re.M)
    msg = re.search(r'^MESSAGE (.*)$', text, re.M)
    if not m:
        return ('error', None, None, text[-300:], text, '')
    return (m.group(1), m.group(2), m.group(3), msg.group(1) if msg else '', text, p.stderr.decode(errors='replace'))


def confirm(prop, job, exe, v, shrink_secs):
    """Re-executes a violation in fresh processes, minimises it and writes the
    replay file. Returns its path, or None if it does not reproduce."""
    variant, engine, profile = job
    a = sim_one(exe, engine, profile, v['seed'], cls=v['class'])
    b = sim_one(exe, engine, profile, v['seed'], cls=v['class'])
    if a[0] != 'violation' or b[0] != 'violation' or a[1] != v['class'] or a[1:3] != b[1:3]:
        print('note: seed %s of %s/%s/%s did not reproduce (%s, %s)' % (v['seed'], variant, engine, profile, a[:3], b[:3]))
        return None
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    base = os.path.join(VERIF, 'replays', '%s-%s-%s-%s' % (prop, variant, re.sub(r'\W+', '_', v['class']), v['seed']))
    tape = base + '.tape'
    p = subprocess.run([exe, 'shrink', '--engine', engine, '--profile', profile, '--seed', str(v['seed']),
                        '--class', v['class'], '--secs', str(shrink_secs), '--out', tape],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env_for(v['class']))
    text = p.stdout.decode(errors='replace')
    m = re.search(r'choices (\d+) -> (\d+)', text)
    if p.returncode == 3 and m and os.path.exists(tape):
        choices = [int(x) for x in open(tape).read().split()]
        c = sim_one(exe, engine, profile, v['seed'], tape=tape, trace=True, cls=v['class'])
        d = sim_one(exe, engine, profile, v['seed'], tape=tape, cls=v['class'])
        if c[0] != 'violation' or c[1] != v['class'] or c[1:3] != d[1:3]:
            print('note: minimised replay did not reproduce, keeping the seed')
            choices, c = None, sim_one(exe, engine, profile, v['seed'], trace=True, cls=v['class'])
    else:
        choices, c = None, sim_one(exe, engine, profile, v['seed'], trace=True, cls=v['class'])
    if os.path.exists(tape):
        os.unlink(tape)
    trace = [l for l in c[4].splitlines() if not l.startswith(('RESULT', 'MESSAGE'))]
    rep = {'property': prop, 'variant': variant, 'engine': engine, 'profile': profile, 'seed': v['seed'],
           'class': v['class'], 'message': c[3] or v['msg'], 'hash': c[2], 'choices': choices,
           'choices_before_minimising': int(m.group(1)) if m else None,
           'how': 'python3 /verif/check.py replay <this file>',
           'trace': trace[-400:], 'stderr': c[5][-3000:]}
    path = base + '.json'
    with open(path, 'w') as f:
        json.dump(rep, f, indent=1)
    return path


def replay(path):
    rep = json.load(open(path))
    key = (rep['variant'], (rep['engine'],))
    exe = build([key])[key]
    tape = None
    if rep['choices'] is not None:
        fd, tape = tempfile.mkstemp()
        os.write(fd, ' '.join(map(str, rep['choices'])).encode())
        os.close(fd)
    r = sim_one(exe, rep['engine'], rep['profile'], rep['seed'], tape=tape, trace=True, cls=rep['class'])
    if tape:
        os.unlink(tape)
    print(r[4])
    if r[5]:
        print(r[5][-3000:])
    same = r[0] == 'violation' and r[1] == rep['class'] and r[2] == rep['hash']
    print('replay: %s' % ('reproduced exactly' if same else 'NOT the recorded violation (recorded class=%s hash=%s)' % (rep['class'], rep['hash'])))
    if r[0] == 'violation':
        print('VIOLATION property=%s replay=%s' % (rep['property'], path))
        return 1
    return 0


def run(prop, secs_override=None):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    P = PROPS[prop]
    jobs = [(v, e, p) for (v, e, p, w) in P['jobs']]
    weights = [w for (_, _, _, w) in P['jobs']]
    if tier == 'thorough':
        # further configurations of the library, different ones for every seed
        for j in P.get('random_jobs', ()):
            for k in range(12):
                jobs.append(('rnd%d' % (100 * seed + k),) + tuple(j.split(':')))
                weights.append(1.0 / 8)
    exes = build(sorted({(v, (e,)) for v, e, p in jobs}))
    t_build = time.time() - t0
    secs = float(secs_override or (P.get('quick', 14) if tier == 'quick' else P.get('thorough', 600)))
    accept = ','.join(list(P['classes']) + COMMON_CLASSES)
    known = known_findings(prop)
    work = tempfile.mkdtemp(prefix='mpackverif')
    lock = threading.Lock()
    pieces = []
    total_w = float(sum(weights))
    for ji, w in enumerate(weights):
        cpu = secs * NCPU * w / total_w
        n = max(1, int(round(cpu / (secs / 3.0))))
        for k in range(n):
            pieces.append((ji, k, cpu / n))
    pieces.sort(key=lambda p: -p[2])
    results = [[] for _ in jobs]
    found = []   # (job index, violation)
    stop = threading.Event()
    deadline = [None]

    def piece(p):
        ji, k, s = p
        if stop.is_set():
            return
        v, e, pr = jobs[ji]
        left = deadline[0] - time.time()
        if left < 0.3:
            left = 0.3  # every job runs at least briefly
        s = min(s, left)
        out = os.path.join(work, '%d-%d' % (ji, k))
        cmd = [exes[(v, (e,))], 'batch', '--engine', e, '--profile', pr, '--seed', str(seed),
               '--start', str(k * 1000000000 + (ji % 7)), '--count', '900000000', '--secs', '%.2f' % s,
               '--detcheck', '61', '--maxviol', '3', '--accept', accept, '--out', out]
        q = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        err = q.stderr.decode(errors='replace')
        try:
            d = json.load(open(out))
        except Exception:
            with lock:
                results[ji].append({'error': 'rc=%s %s' % (q.returncode, err[-300:])})
            return
        d['out'] = out
        d['rc'] = q.returncode
        d['err'] = err[-400:]
        with lock:
            results[ji].append(d)
            for x in d['violations']:
                found.append((ji, x))
            if found and not known and tier == 'quick':
                stop.set()

    deadline[0] = time.time() + secs + 1.0
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(piece, pieces))
    t_search = time.time() - t0 - t_build

    # ---- violations
    errors = []
    for ji, rs in enumerate(results):
        for r in rs:
            if 'error' in r:
                errors.append('%s: %s' % ('/'.join(jobs[ji]), r['error']))
            elif r['nondet']:
                errors.append('%s: not deterministic: %s' % ('/'.join(jobs[ji]), r['err']))
    groups = {}
    known_seen = {}
    for ji, v in found:
        k = [f for f in known if f[0] == v['class'] and f[1].search(v['msg'])]
        if k:
            known_seen[k[0][2]] = known_seen.get(k[0][2], 0) + 1
            continue
        groups.setdefault(v['class'], []).append((ji, v))
    lines, confirmed, failed_gate = [], [], 0
    budget = 40.0 if tier == 'quick' else 300.0
    t_confirm = time.time()
    # a run that hangs takes long to reproduce, so these come last
    for cls in sorted(groups, key=lambda c: (c == 'hang', -len(groups[c]))):
        if len(confirmed) >= 3 or (confirmed and (cls == 'hang' or time.time() - t_confirm > 150)):
            break
        for ji, v in groups[cls][:4]:
            if time.time() - t_confirm > 400:
                break
            path = confirm(prop, jobs[ji], exes[(jobs[ji][0], (jobs[ji][1],))], v,
                           max(4.0, min(12.0 if tier == 'quick' else 60.0, budget)))
            budget -= 12
            if path:
                rep = json.load(open(path))
                confirmed.append((cls, path, rep['message']))
                lines.append('VIOLATION property=%s replay=%s' % (prop, path))
                print('%s: %s: %s (%s, seed %s)' % (prop, cls, rep['message'], '/'.join(jobs[ji]), v['seed']))
                break
            failed_gate += 1

    # ---- evidence
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(time.time() - t0, 2),
          'violations': len(confirmed)}
    counters, distinct, states, others = {}, set(), None, {}
    runs = nontriv = steps = draws = dup = 0
    samples, jobinfo = [], []
    cpu = 0.0
    for ji, rs in enumerate(results):
        jr = jn = 0
        for r in rs:
            if 'error' in r:
                continue
            jr += r['runs']; jn += r['nontrivial']
            steps += r['steps']; draws += r['draws']; dup += r['dup_runs']; cpu += r['wall']
            for k, n in r['counters'].items():
                counters[k] = counters.get(k, 0) + n
            for k, n in r['others'].items():
                others.setdefault(k, [0, n[1]])[0] += n[0]
            a = array.array('Q')
            with open(r['out'] + '.h', 'rb') as f:
                a.frombytes(f.read())
            distinct.update(a[:400000])
            with open(r['out'] + '.s', 'rb') as f:
                b = int.from_bytes(f.read(), 'little')
            states = b if states is None else states | b
            for s in r['samples'][:1]:
                if len(samples) < 4:
                    samples.append('%s/%s/%s: %s' % (jobs[ji] + (s,)))
        runs += jr
        nontriv += jn
        jobinfo.append({'variant': jobs[ji][0], 'engine': jobs[ji][1], 'profile': jobs[ji][2], 'runs': jr, 'nontrivial': jn})
    shutil.rmtree(work, ignore_errors=True)
    hours = max(t_search, 0.001) / 3600.0
    ev['coverage'] = {
        'evaluations': runs,
        'distinct_nontrivial': len(distinct),
        'rule': 'One evaluation is one simulated run: a seed decides the program of API calls, the data, the I/O chunking '
                'and every injected fault. A run is non-trivial if at least one buffer boundary crossing (flush/fill callback), '
                'scheduler switch or injected fault happened in it; distinct counts different hashes of the complete event log '
                'of non-trivial runs (at most 400000 logs are kept per worker).',
        'samples': samples,
        'nontrivial_runs': nontriv,
        'simulated_events': steps, 'simulated_time': '%d simulated events (the system under test has no clock; one event is one API call, callback, disk operation or fault)' % steps,
        'random_choices': draws,
        'runs_per_hour': int(runs / hours), 'seeds_per_hour': int(runs / hours),
        'distinct_states': bin(states or 0).count('1'),
        'states_measure': 'distinct abstract points (engine-specific: sink/source, depth, error flag, buffer fill, operation), hashed into 2^23 bits',
        'faults_fired': {k[6:]: n for k, n in sorted(counters.items()) if k.startswith('fault:')},
        'probes': {k[6:]: n for k, n in sorted(counters.items()) if k.startswith('probe:')},
        'jobs': jobinfo, 'determinism_reruns': dup,
        'other_classes_seen': {k: n[0] for k, n in others.items()},
        'real_components': REAL, 'stub_components': STUB,
        'build_s': round(t_build, 2), 'search_s': round(t_search, 2), 'cpu_s': round(cpu, 1),
        'known_findings_seen': known_seen,
        'gate_failures': failed_gate,
    }
    ev['assumptions'] = P.get('assumptions', []) + [
        'The reference encoder, decoder and value model in sim/model.cpp are right.',
        'The simulated allocator, disk and callbacks behave as the C standard and the documented callback contracts allow.']
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '.%s.%d' % (prop, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))

    for what in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, what[2]))
    print('%s (%s): %d runs (%d distinct non-trivial), %d events, %d faults, build %.1fs, search %.1fs, %d violation class(es)%s' % (
        prop, tier, runs, len(distinct), steps, sum(ev['coverage']['faults_fired'].values()), t_build, t_search, len(confirmed),
        '; classes owned by other properties: %s' % others if others else ''))
    for l in lines:
        print(l)
    sys.stdout.flush()
    if confirmed:
        return 1
    if errors or failed_gate:
        die('; '.join(errors[:3]) or 'a violation did not reproduce')
    if runs == 0:
        die('nothing was run')
    zero = [j for j in jobinfo if j['runs'] == 0]
    if zero:
        die('a job ran nothing: %s' % zero)
    return 0


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == 'run':
        secs = sys.argv[sys.argv.index('--secs') + 1] if '--secs' in sys.argv else None
        sys.exit(run(sys.argv[2], secs))
    if len(sys.argv) >= 3 and sys.argv[1] == 'replay':
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) >= 2 and sys.argv[1] == 'build':
        keys = sorted({(v, (e,)) for p in PROPS.values() for (v, e, _, _) in p['jobs']})
        build(keys)
        print('built %d simulators' % len(keys))
        sys.exit(0)
    print(__doc__)
    sys.exit(2)


main()

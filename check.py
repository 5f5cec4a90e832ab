#!/usr/bin/env python3
"""Decides one property by simulation: check.py <property id>
Environment: VERIF_SEED (default 1), VERIF_TIER quick|thorough."""
import glob, json, os, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'tools'))
prop = sys.argv[1]
seed = int(os.environ.get('VERIF_SEED', '1') or '1')
tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
if tier not in ('quick', 'thorough'): tier = 'quick'
budget = float(os.environ.get('CHECK_TIME', 40 if tier == 'quick' else 600))
workers = int(os.environ.get('CHECK_WORKERS', min(8, os.cpu_count() or 8)))
variants = {'C17': ['asan', 'plain'], 'C19': ['race']}.get(prop, ['plain'])
known_file = os.path.join(V, 'known_findings.txt')
t_start = time.time()

def die(msg):
    sys.stdout.write('ERROR ' + msg + '\n')
    sys.exit(3)

tools = {}
for v in variants:
    b = subprocess.run([sys.executable, os.path.join(V, 'tools/build.py'), v], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if b.returncode: die('the build failed\n' + b.stderr)
    tools[v] = b.stdout.strip().splitlines()[-1]
build_s = time.time() - t_start

known = []
if os.path.exists(known_file):
    for l in open(known_file):
        if l.startswith('known:') and f'property={prop} ' in l: known.append(l.strip())

tmp = tempfile.mkdtemp(prefix=f'simcheck-{prop}-')
procs = []
t0 = time.time()
summaries, violations, harness, gates_bad, junk = [], [], [], [], []
try:
    for w in range(workers):
        v = variants[w % len(variants)]
        log = open(f'{tmp}/log.{w}', 'w')
        procs.append(subprocess.Popen([tools[v], 'batch', '--prop', prop, '--variant', v, '--seed', str(seed), '--from', str(w), '--step', str(workers), '--time', str(int(budget)),
                                       '--out', tmp, '--known', known_file, '--gate', '40', '--keep', '3'], stdout=log, stderr=subprocess.STDOUT))
    first = None
    while any(p.poll() is None for p in procs):
        time.sleep(0.2)
        if first is None and any(b'"violation"' in open(f'{tmp}/log.{w}', 'rb').read() for w in range(workers)): first = time.time()
        if first is not None and time.time() - first > 3:
            for p in procs: p.terminate()
        if time.time() - t0 > budget + 120:
            for p in procs: p.kill()
    for w, p in enumerate(procs):
        p.wait()
        got = False
        for l in open(f'{tmp}/log.{w}', errors='replace'):
            try: d = json.loads(l)
            except Exception: junk.append(l.strip()); continue
            if 'summary' in d: summaries.append(d); got = True
            elif 'violation' in d: d['variant'] = variants[w % len(variants)]; violations.append(d)
            elif 'harness' in d: harness.append(d)
            elif 'gate' in d: gates_bad.append(d)
        if not got and first is None: die(f'worker {w} ended with status {p.returncode} and no summary: ' + ' '.join(junk[-3:]))
    wall = time.time() - t0

    # every violation must happen again in a fresh process before it is reported
    report = None
    violations.sort(key=lambda d: (not d['exact'], os.path.getsize(d['plan'])))
    os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
    for d in violations:
        out = os.path.join(V, 'replays', f'{prop}-{seed}-{d["index"]}.plan')
        mini = f'{tmp}/min.plan'
        tool = tools[d['variant']]
        try: subprocess.run([tool, 'min', d['plan'], mini, '--time', '40'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
        except subprocess.TimeoutExpired: pass
        for cand in (mini, d['plan']):
            if not os.path.exists(cand): continue
            runs = [subprocess.run([tool, 'run', cand], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace') for _ in range(2)]
            if all(r.returncode == 1 and ('VIOLATION ' + d['violation']) in r.stdout for r in runs):
                shutil.copy(cand, out)
                report = (out, d, runs[0].stdout)
                break
        if report: break
        if os.path.exists(mini): os.unlink(mini)

    traces = set()
    for f in glob.glob(f'{tmp}/traces-*.bin'):
        data = open(f, 'rb').read()
        traces.update(data[i:i + 8] for i in range(0, len(data) - 7, 8))
    runs = sum(s['runs'] for s in summaries) + len(violations)
    cnt, stats, cfgs, kh = {}, {}, {}, {}
    cover = 0
    for s in summaries:
        for a, bb in ((cnt, s['counters']), (stats, s['stats']), (cfgs, s['configs']), (kh, s['known'])):
            for k, v in bb.items(): a[k] = a.get(k, 0) + v
        cover |= int(s['cover'] or '0', 16)
    samples = []
    for i in (0, 1):
        g = subprocess.run([tools[variants[0]], 'gen', '--prop', prop, '--variant', variants[0], '--seed', str(seed), '--index', str(i)], stdout=subprocess.PIPE, text=True).stdout
        f = f'{tmp}/sample.plan'
        open(f, 'w').write(g)
        r = subprocess.run([tools[variants[0]], 'run', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace').stdout
        samples.append({'index': i, 'plan': g[:1500], 'outcome': r.strip()[:300]})
    fault_keys = ['msg_delayed', 'msg_rendezvous', 'wildcard_multi', 'cond_spurious', 'polls_spurious', 'stalls', 'clock_jumps', 'prio_changes', 'fs_write_err', 'fs_sync_err', 'fs_read_err', 'fs_open_err',
                  'fs_rename_err', 'fs_nospace', 'fs_short', 'crash_kill', 'crash_power', 'crash_lost_bytes', 'crash_torn_files', 'crash_lost_meta']
    gates = sum(s['gates'] for s in summaries)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': runs,
            'distinct_nontrivial': len(traces),
            'rule': 'one evaluation is one simulated run of a plan (topology, tuning, operations, faults, scheduling strategy) derived from (property, seed, index); it counts as non-trivial when the '
                    'scheduler switched threads and the history has more than 8 events, and as distinct by the hash of every scheduling decision, message and history event of the run',
            'samples': samples,
            'runs_per_hour': int(runs * 3600 / max(wall, .001)),
            'seeds': f'seed {seed}, plan indices 0..{runs}',
            'simulated_seconds': round(cnt.get('sim_ns', 0) / 1e9, 3),
            'incarnations': sum(s['incarnations'] for s in summaries),
            'faults_injected': {k: cnt.get(k, 0) for k in fault_keys},
            'faults_in_kind_words': 'msg_*: delayed, rendezvous (sender blocks) deliveries and wildcard receives with several candidate senders; cond/polls_spurious: spurious wake-ups and negative polls; '
                                    'stalls/clock_jumps/prio_changes: scheduler faults; fs_*: failing or short storage calls; crash_*: process kill and power loss with what was lost',
            'counters': {k: v for k, v in cnt.items() if k not in fault_keys},
            'checked': stats,
            'distinct_final_states': sum(s['states'] for s in summaries),
            'scheduling_point_pairs_covered': bin(cover).count('1'),
            'configurations': dict(sorted(cfgs.items(), key=lambda x: -x[1])[:40]),
            'determinism_gates': {'runs_repeated_from_seed_and_from_replay': gates, 'diverged': len(gates_bad)},
            'real_code': 'all of hxhim (API, queues, background PUT thread, MPI transport and range servers, messages, datastores, configuration), LevelDB and RocksDB libraries, libc file API callers',
            'stubs': 'MPI library, pthread scheduling and synchronisation, clocks and sleeps, the file system below /simdisk, the log sink (mlog2)' + ''.join({'asan': '; allocator: AddressSanitizer', 'race': '; race detector: own vector-clock runtime behind the compiler instrumentation, deterministic own allocator'}.get(v, '; allocator: deterministic own') for v in variants),
            'known_findings_hit': kh,
            'build_seconds': round(build_s, 1),
        },
        'assumptions': ['MPI delivers every message once and in order per (source, tag, communicator), as its standard says', 'the listed stubs behave like what they replace', 'sampling: a clean batch is evidence, not proof'],
        'wall_s': round(time.time() - t_start, 2),
        'violations': 1 if report else 0,
    }
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', f'{prop}.json'), 'w'), indent=1)

    for l in known: print(f'KNOWN-FINDING: property={prop} ' + l.split('--', 1)[-1].strip())
    print(f'{prop}: {runs} runs in {wall:.1f} s, {len(traces)} distinct, {gates} determinism gates, seed {seed}, {tier}')
    if report:
        out, d, text = report
        print(text.strip()[:3000])
        print(f'replay with: {os.path.relpath(tools[d['variant']], V)} run {os.path.relpath(out, V)}')
        print(f'VIOLATION property={prop} replay={os.path.relpath(out, V)}')
        sys.exit(1)
    if violations: die('a violation could not be reproduced: ' + json.dumps(violations[0])[:600])
    if harness: die('harness error: ' + json.dumps(harness[0])[:600])
    if gates_bad: die('runs are not repeatable: ' + json.dumps(gates_bad[0]))
    sys.exit(0)
finally:
    for p in procs:
        if p.poll() is None: p.kill()
    shutil.rmtree(tmp, ignore_errors=True)

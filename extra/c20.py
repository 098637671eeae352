#!/usr/bin/env python3
"""C20: runs the harness under AddressSanitizer and Miri and programs that misuse lifetimes; only their reports count.
usage: c20.py quick|thorough|setup"""
import json, os, re, subprocess, sys, tempfile, threading, time
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tier = sys.argv[1] if len(sys.argv) > 1 else 'quick'
seed = int(os.environ.get('VERIF_SEED') or 1)
T0 = time.time()
base = dict(os.environ)
for k in ('RUSTFLAGS', 'CARGO_BUILD_TARGET', 'CARGO_TARGET_DIR', 'MIRIFLAGS'): base.pop(k, None)
shown = subprocess.run(['bash', '-c', f'. {here}/env.sh; echo "$CXXFLAGS"; echo "$CARGO_TARGET_DIR"'], capture_output=True, text=True).stdout.split('\n')
cxxflags, target = shown[0], shown[1]
HOST = 'x86_64-unknown-linux-gnu'
base.update(RUSTUP_TOOLCHAIN='nightly', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0')
SAN = '-fsanitize=address -fno-omit-frame-pointer -g1'
asan = dict(base, CARGO_TARGET_DIR=f'{target}/asan', RUSTFLAGS='-Zsanitizer=address -Cforce-frame-pointers=yes', CC='clang', CXX='clang++', CFLAGS=SAN, CXXFLAGS=f'{SAN} {cxxflags}',
            ASAN_OPTIONS='detect_leaks=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1')
miri = dict(base, CARGO_TARGET_DIR=f'{target}/miri', CXXFLAGS=cxxflags, MIRIFLAGS='-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows')
BIN = f'{target}/asan/{HOST}/debug'

def left(limit): return limit - (time.time() - T0)
def call(cmd, env, cwd, limit):
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try: out, _ = p.communicate(timeout=max(1, limit))
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        out, _ = p.communicate()
        return None, out.decode('utf8', 'replace')
    return p.returncode, out.decode('utf8', 'replace')

def builds():
    res = {}
    def a():
        rc, out = call(['cargo', 'build', '--offline', '--target', HOST], asan, f'{here}/harness', 600)
        res['asan'] = (rc, out)
        if rc == 0: res['escape'] = call(['cargo', 'build', '--offline', '--target', HOST, '--bins', '--keep-going'], asan, f'{here}/escape', 300)
    def m():
        # an argument it does not know ends the program at once
        rc, out = call(['cargo', 'miri', 'run', '--offline', '--', '--none'], miri, f'{here}/harness', 600)
        res['miri'] = (0 if 'VP_NONE' in out or 'Undefined Behavior' in out else 1, out)
    ts = [threading.Thread(target=f) for f in (a, m)]
    for t in ts: t.start()
    for t in ts: t.join()
    return res

built = builds()
for k in ('asan', 'miri'):
    if built[k][0] != 0:
        print(built[k][1][-3000:]); print(f'the {k} build failed'); sys.exit(2)
if tier == 'setup': sys.exit(0)
t_built = time.time() - T0

# ---- what counts as a report
ASAN_NOT = ('stack-overflow', 'allocation-size-too-big', 'out-of-memory', 'requested allocation size', 'calloc-overflow')
def asan_report(rc, out):
    m = re.search(r'ERROR: AddressSanitizer:? ?([^\n]*)', out)
    if m and not any(x in m.group(1) for x in ASAN_NOT): return m.group(1)[:150]
    m = re.search(r'unsafe precondition\(s\) violated[^\n]*', out)
    if m: return m.group(0)[:150]
    return None
def miri_report(rc, out):
    m = re.search(r'^error: Undefined Behavior: ([^\n]*)', out, re.M) or re.search(r'(unsafe precondition\(s\) violated[^\n]*)', out)
    return m.group(1)[:200] if m else None

quick = tier == 'quick'
S = 6 if quick else 60
LIMIT = 540 if quick else 3000
jobs = []      # (tool, name, env, cmd, limit)
work = tempfile.mkdtemp(prefix='vp-c20-')
def job(tool, pid, env, **vars):
    d = f'{work}/{tool}{len(jobs)}'
    os.makedirs(f'{d}/evidence')
    e = dict(env, VP_DIR=d, VERIF_SEED=str(vars.pop('seed', seed)), **{f'VP_{k.upper()}': str(v) for k, v in vars.items()})
    cmd = [f'{BIN}/vp', pid, 'quick'] if tool == 'asan' else ['cargo', 'miri', 'run', '--offline', '--', pid, 'quick']
    jobs.append((tool, pid, d, e, cmd, vars))
rounds = 1 if quick else 6
asan_jobs, miri_jobs = [], []
for rnd in range(rounds):
    s = seed + 1000 * rnd
    for part in ('read', 'write', 'share', 'leave'): job('asan', 'C20', asan, seed=s, secs=4 if quick else 30, parts=part, workers=3)
    for pid in ('C02', 'C03', 'C07', 'C14', 'C17', 'C18', 'C19', 'C21'): job('asan', pid, asan, seed=s, secs=3 if quick else 30, workers=3)
asan_jobs, jobs = jobs, []
for rnd in range(rounds):
    s = seed + 1000 * rnd
    def mj(part, n, step, width):
        for a in range(0, n, step): job('miri', 'C20', dict(miri, MIRIFLAGS=miri['MIRIFLAGS'] + f' -Zmiri-seed={s * 100 + a}'), seed=s, parts=part, **{'from': rnd * width + a}, cases=min(step, n - a), secs=150, workers=1)
    mj('read', 8, 2, 8 if rnd < 4 else 80)
    mj('share', 6, 3, 6)
    mj('write', 12, 4, 12)
    mj('leave', 8, 4, 8)
miri_jobs, jobs = jobs, []

reports, ended, lock = [], [], threading.Lock()
def note(tool, name, d, what, out, env):
    with lock: reports.append((tool, name, what, out, {k: v for k, v in env.items() if k.startswith('VP_') or k in ('VERIF_SEED', 'MIRIFLAGS', 'ASAN_OPTIONS')}))
def run(job):
    tool, pid, d, e, cmd, vars = job
    lim = left(LIMIT)
    if lim < 15: return
    rc, out = call(cmd, e, f'{here}/harness', min(lim, 120 if tool == 'asan' and quick else 400))
    rep = (asan_report if tool == 'asan' else miri_report)(rc, out)
    ev = None
    try: ev = json.load(open(f'{d}/evidence/{pid}.json'))
    except Exception: pass
    unsupported = tool == 'miri' and 'unsupported operation' in out
    with lock: ended.append((tool, pid, vars.get('parts', ''), rc, ev, unsupported))
    if rep: note(tool, pid, d, rep, out, e)
def pool(q, n):
    def w():
        while True:
            with lock:
                if not q or reports: return
                j = q.pop(0)
            run(j)
    ts = [threading.Thread(target=w) for _ in range(n)]
    for t in ts: t.start()
    return ts

# ---- programs that the compiler may refuse
rc, out = built.get('escape', (1, ''))
rejected = set(re.findall(r'could not compile `escape` \(bin "(\w+)"\)', out))
progs = sorted(f[:-3] for f in os.listdir(f'{here}/escape/src/bin'))
accepted = [p for p in progs if p not in rejected and os.path.exists(f'{BIN}/{p}')]
controls = [p for p in progs if p.startswith('control_')]
esc_ok = sum(p in accepted for p in controls)
def escapes():
    for p in accepted:
        rc, out = call([f'{BIN}/{p}'], asan, '/', 60)
        rep = asan_report(rc, out)
        if rep is None and rc is not None and rc < 0 and -rc in (4, 7, 11): rep = f'signal {-rc}'
        if rep: note('escape', p, '/', rep, out, {})

ts = pool(asan_jobs, 2) + pool(miri_jobs, 6)
e = threading.Thread(target=escapes); e.start()
for t in ts + [e]: t.join()

# ---- evidence
obs, ev_n, dist, samples, incon = {}, 0, 0, [], 0
for tool, pid, part, rc, ev, unsup in ended:
    obs[f'{tool}_runs'] = obs.get(f'{tool}_runs', 0) + 1
    if unsup: obs['miri_runs_stopped_at_unsupported_operation'] = obs.get('miri_runs_stopped_at_unsupported_operation', 0) + 1
    if ev is None: obs[f'{tool}_runs_cut_short'] = obs.get(f'{tool}_runs_cut_short', 0) + 1; continue
    c = ev['coverage']
    ev_n += c.get('evaluations', 0); dist += c.get('distinct_nontrivial', 0)
    if pid == 'C20':
        samples += [f'{tool}: {x}' for x in c.get('samples', [])[:1]]
        for k, v in c.get('observed', {}).items():
            if isinstance(v, int): obs[f'{tool}_{k}'] = obs.get(f'{tool}_{k}', 0) + v
    obs[f'{tool}_{pid}_cases'] = obs.get(f'{tool}_{pid}_cases', 0) + c.get('evaluations', 0)
obs.update(escape_programs=len(progs), escape_refused_by_the_compiler=len(rejected), escape_run_clean=len(accepted) - sum(r[0] == 'escape' for r in reports), escape_controls_compiled=esc_ok, escape_controls=len(controls), build_s=int(t_built))
os.makedirs(f'{here}/evidence/replay', exist_ok=True)
ev = dict(property='C20', tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level='exploration',
          coverage=dict(evaluations=ev_n + len(progs), distinct_nontrivial=dist, rule='cases of C20 (results read through all typed iterators and getters with items kept beyond their iterators; blocks built, cloned, extended, shared between threads, inserted with conversion; operations given up) run under AddressSanitizer and Miri (tree borrows, data races, invalid values, uninitialised memory), further checks\' workloads under AddressSanitizer, and programs that use what a block lent after it is gone: refused by the compiler or clean under AddressSanitizer; distinct by type, size and shape of the case',
                        observed=dict(sorted(obs.items())), samples=samples[:8]),
          assumptions=['under Miri LZ4 and CityHash are replaced by Rust stand-ins with bounds-checked buffers; the real ones run under AddressSanitizer'], wall_s=round(time.time() - T0, 1), violations=len(reports))
json.dump(ev, open(f'{here}/evidence/C20.json', 'w'), indent=1)
subprocess.run(['rm', '-rf', '--', work])
for i, (tool, name, what, out, env) in enumerate(reports[:5]):
    f = f'{here}/evidence/replay/C20-{tool}-{i}.txt'
    at = max(0, out.find('AddressSanitizer') - 200, out.find('error: Undefined') - 200)
    open(f, 'w').write(f'property C20\n{tool} {name}: {what}\nenvironment: {env}\nrerun: VERIF_SEED={seed} bash {here}/check.sh C20 {tier}\n\n{out[at:at + 12000]}\n')
    print(f'{tool} {name}: {what}')
    print(f'VIOLATION property=C20 replay={f}')
if reports: sys.exit(1)
print(f'C20: no report; {ev_n} cases, {obs.get("miri_runs", 0)} Miri and {obs.get("asan_runs", 0)} AddressSanitizer runs, {len(accepted)} of {len(progs)} programs accepted, {time.time() - T0:.0f} s (build {t_built:.0f} s)')

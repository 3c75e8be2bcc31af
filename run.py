#!/usr/bin/env python3
"""Runs one check:  python3 run.py C01 [--tier quick|thorough] [--replay FILE] [--keep]

Builds the needed parts of /repo's current tree out of tree with sanitizers,
builds the harness, explores every scenario exhaustively within its bounds on
8 cores, confirms every violation by an independent replay, writes
evidence/<id>.json and exits 0 / 1 (VIOLATION line)."""
import sys, os, json, subprocess, tempfile, shutil, time, array, signal, argparse, struct, re
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
REPO = os.environ.get('VERIF_REPO', '/repo')
from registry import CHECKS
NCPU = int(os.environ.get('VERIF_JOBS', '8'))

def log(*a):
    print(*a, flush=True)

class CheckError(Exception):
    pass

def sh(cmd, what, timeout=800, env=None, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
    if p.returncode != 0:
        t = p.stdout.decode('utf8', 'replace')
        raise CheckError('%s failed (%d):\n%s' % (what, p.returncode, t[-6000:]))
    return p.stdout.decode('utf8', 'replace')

SAN = {
  'asan': ['-fsanitize=address', '-fsanitize=undefined', '-fno-sanitize=vptr,alignment,function' ],
  'asan-gcc': ['-fsanitize=address', '-fsanitize=undefined', '-fno-sanitize=vptr,alignment'],
  'plain': [],
  # instrumented for the controlled scheduler (harness/sched_rt.cxx), linked without libtsan
  'sched': ['-fsanitize=thread', '-D_GLIBCXX_EXTERN_TEMPLATE=0'],
}

class Build:
    """Out-of-tree build of /repo plus one harness binary."""
    def __init__(self, work, spec):
        self.work, self.spec = work, spec
        self.flavor = spec.get('flavor', 'asan')
        self.bdir = os.path.join(work, 'b')
    def flags(self):
        f = ['-w', '-g1', '-fno-omit-frame-pointer'] + self.spec.get('opt', ['-O1'])
        san = [x for x in SAN[self.flavor if self.flavor != 'asan' else 'asan-gcc']]
        return f + san, (['-fno-sanitize=thread', '-Wl,--unresolved-symbols=ignore-all'] if self.flavor == 'sched' else san)
    def run(self):
        t0 = time.time()
        f, san = self.flags()
        extra = self.spec.get('extra_cxx', [])
        cmake = ['cmake', '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=None', '-DBUILD_TESTING=OFF',
                 '-DCMAKE_C_COMPILER=gcc', '-DCMAKE_CXX_COMPILER=g++',
                 '-DCMAKE_CXX_FLAGS=' + ' '.join(f + extra), '-DCMAKE_C_FLAGS=' + ' '.join(f),
                 '-DCMAKE_SHARED_LINKER_FLAGS=' + ' '.join(san), '-DCMAKE_EXE_LINKER_FLAGS=' + ('' if self.flavor == 'sched' else ' '.join(san)),
                 '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON', '-B', self.bdir]
        env = dict(os.environ)
        for k in ('CFLAGS', 'CXXFLAGS', 'LDFLAGS', 'CPPFLAGS', 'CC', 'CXX'):
            env.pop(k, None)
        if self.spec.get('tree') == 'kwsys':
            cmake += ['-S', REPO + '/vital/kwiversys', '-DCMAKE_POLICY_VERSION_MINIMUM=3.5', '-DBUILD_SHARED_LIBS=OFF']
        else:
            cmake += ['-S', REPO, '-DVITAL_ENABLE_TESTS=OFF', '-DVITAL_ENABLE_TOOLS=%s' % ('ON' if self.spec.get('tools') else 'OFF'),
                      '-DVITAL_ENABLE_C_LIB=ON', '-DVITAL_ENABLE_PYTHON=OFF', '-DVITAL_ENABLE_LOG4CXX=OFF',
                      '-DCMAKE_INSTALL_PREFIX=' + self.spec.get('prefix', '/usr/local')]
        cmake += self.spec.get('cmake', [])
        sh(cmake, 'cmake configure', env=env)
        targets = self.spec.get('targets', ['vital_config'])
        jobs = [(['ninja', '-C', self.bdir, '-j', str(NCPU)] + targets, 'building ' + ' '.join(targets))]
        inc = ['-I' + REPO, '-I' + self.bdir, '-I' + self.bdir + '/vital', '-I' + self.bdir + '/vital/kwiversys' , '-isystem', '/usr/include/eigen3', '-I' + ROOT + '/harness']
        if self.spec.get('tree') == 'kwsys':
            inc = ['-I' + self.bdir, '-I' + ROOT + '/harness', '-I' + REPO + '/vital/kwiversys']
        objs = []
        for i, src in enumerate(self.spec['src']):
            o = os.path.join(self.work, 'h%d.o' % i); objs.append(o)
            jobs.append((['g++', '-std=c++14', '-c', '-DVERIF_HARNESS'] + f + extra + self.spec.get('defs', []) + inc +
                         [os.path.join(ROOT, 'harness', src), '-o', o], 'compiling ' + src))
        for i, src in enumerate(self.spec.get('raw_src', [])):   # not instrumented
            o = os.path.join(self.work, 'r%d.o' % i); objs.append(o)
            jobs.append((['g++', '-std=c++14', '-c', '-w', '-g1', '-O2', '-fno-builtin', '-fno-threadsafe-statics', '-fno-tree-loop-distribute-patterns', '-fPIE', '-I' + ROOT + '/harness', os.path.join(ROOT, 'harness', src), '-o', o], 'compiling ' + src))
        with ThreadPoolExecutor(8) as ex:
            for fu in [ex.submit(sh, c, w) for c, w in jobs]:
                fu.result()
        self.exe = os.path.join(self.work, 'harness')
        libdir = self.bdir if self.spec.get('tree') == 'kwsys' else self.bdir + '/lib'
        libs = self.spec.get('libs')
        if libs is None:
            libs = {'vital_config': ['vital_config', 'vital_logger', 'kwiversys']}.get(targets[0], targets)
        link = ['g++'] + san + objs + ['-o', self.exe, '-L' + libdir, '-Wl,-rpath,' + libdir] + ['-l' + l for l in libs] + ['-lpthread', '-ldl'] + self.spec.get('link', [])
        sh(link, 'linking harness')
        # helper modules (plugins) the scenarios load
        mods = []
        for name, (src, defs) in self.spec.get('modules', {}).items():
            out = os.path.join(self.work, 'mods', name)
            os.makedirs(os.path.dirname(out), exist_ok=True)
            mods.append((['g++', '-std=c++14', '-shared', '-fPIC'] + f + extra + defs + inc + [os.path.join(ROOT, 'harness', src), '-o', out] + san + [ '-L' + libdir, '-Wl,-rpath,' + libdir] + ['-l' + l for l in libs], 'module ' + name))
        if mods:
            with ThreadPoolExecutor(8) as ex:
                for fu in [ex.submit(sh, c, w) for c, w in mods]:
                    fu.result()
        self.build_s = time.time() - t0

def run_env(work, extra=None):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith('KWIVER') or k.startswith('XDG_'):
            env.pop(k)
    env.update({
      'ASAN_OPTIONS': 'exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0:max_malloc_fill_size=65536:malloc_fill_byte=190:max_allocation_size_mb=4096',
      'UBSAN_OPTIONS': 'halt_on_error=1:print_stacktrace=1:exitcode=98',
      'HOME': os.path.join(work, 'home'), 'LC_ALL': 'C.UTF-8', 'VERIF_WORK': work,
      'TMPDIR': os.path.join(work, 'tmp')})
    if extra: env.update(extra)
    return env

def preexec():
    os.setsid()

def run_proc(cmd, env, cwd, timeout, outfile):
    """returns (rc or 'timeout')"""
    with open(outfile, 'wb') as o:
        p = subprocess.Popen(cmd, stdout=o, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, cwd=cwd, preexec_fn=preexec)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = 'timeout'
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        if rc == 'timeout':
            p.wait()
        return rc

def tail(path, n=4000):
    try:
        d = open(path, 'rb').read()
        return d[-n:].decode('utf8', 'replace')
    except OSError:
        return ''

def crash_summary(txt):
    m = re.search(r'SUMMARY: (\S+: .*)', txt)
    if m: return m.group(1)[:300]
    m = re.search(r'(\S+:\d+:\d+: runtime error: .*)', txt)
    if m: return m.group(1)[:300]
    lines = [l for l in txt.strip().splitlines() if l.strip()]
    return (lines[-1] if lines else 'no output')[:300]

def san_key(txt):
    """signature of a sanitizer report: kind and first frame inside /repo"""
    m = re.search(r'SUMMARY: \S+: (\S+)', txt) or re.search(r'runtime error: ([a-z ]+)', txt)
    kind = m.group(1).strip().replace(' ', '-') if m else 'crash'
    fr = re.search(r'in (\S+).*?/repo/(\S+?):\d+', txt)
    return 'crash:%s:%s' % (kind, os.path.basename(fr.group(2)) if fr else '?')

def load_known():
    known = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+)\s*(.*)', l.strip())
            if m: known.append(m.groups())
    return known

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--scn')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'): a.tier = 'quick'
    spec = dict(CHECKS[a.id]); pid = a.id
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='vv-%s-' % pid, dir='/tmp')
    rc = 2
    try:
        for d in ('home', 'tmp', 'out'): os.makedirs(os.path.join(work, d))
        if 'runner' in spec:
            mod = __import__(spec['runner'])
            rc = mod.run(sys.modules[__name__], spec, pid, a, seed, work, t0)
        else:
            rc = explore(spec, pid, a, seed, work, t0)
    except CheckError as e:
        log('CHECK-ERROR %s: %s' % (pid, e)); rc = 2
    finally:
        if a.keep: log('work kept in', work)
        else: subprocess.run(["rm", "-rf", "--", os.path.abspath(work)], stderr=subprocess.DEVNULL)
    sys.exit(rc)

def explore(spec, pid, a, seed, work, t0):
    b = Build(work, spec); b.run()
    log('%s: built /repo and harness in %.1fs' % (pid, b.build_s))
    env = run_env(work, spec.get('env'))
    if a.replay:
        rp = json.load(open(a.replay))
        out = os.path.join(work, 'out', 'replay.txt')
        sc = os.path.join(work, 'tmp', 'rp'); os.makedirs(sc)
        rc = run_proc([b.exe, '--scn', rp['scenario'], '--tier', rp['tier'], '--scratch', sc, '--replay', rp['choices']], env, sc, 120, out)
        log(tail(out)); log('replay rc', rc)
        return 0 if rc == 0 else 1
    scns = subprocess.run([b.exe, '--list'], stdout=subprocess.PIPE, env=env).stdout.decode().split()
    if not scns: raise CheckError('harness lists no scenario')
    only = spec.get('scenarios')
    if only: scns = [s for s in scns if s in only]
    if a.scn: scns = [s for s in scns if s == a.scn]
    cap = spec.get('cap', 600 if a.tier == 'quick' else 3000)
    nsh = spec.get('shards', NCPU)
    jobs = []
    for s in scns:
        n = spec.get('shards_of', {}).get(s, nsh)
        for i in range(n): jobs.append((s, i, n))
    def one(job):
        s, i, n = job
        tag = '%s.%d' % (s, i)
        out = os.path.join(work, 'out', tag)
        sc = os.path.join(work, 'tmp', tag); os.makedirs(sc)
        rc = run_proc([b.exe, '--scn', s, '--shard', '%d/%d' % (i, n), '--tier', a.tier, '--cap', str(cap), '--scratch', sc, '--out', out],
                      env, sc, cap + 120, out + '.log')
        shutil.rmtree(sc, ignore_errors=True)
        return job, rc, out
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(one, jobs))
    # ---- collect
    per = {}
    viol = []      # (scenario, key, msg, choices)
    errors = []
    for (s, i, n), rc, out in res:
        d = per.setdefault(s, {'execs': 0, 'transitions': 0, 'stateset': set(), 'maxdepth': 0, 'capped': False, 'outcomes': {}, 'samples': [], 'nviol': 0})
        if rc == 0 and os.path.exists(out):
            j = json.load(open(out))
            d['execs'] += j['execs']; d['transitions'] += j['transitions']; d['maxdepth'] = max(d['maxdepth'], j['maxdepth'])
            d['capped'] |= j['capped']; d['nviol'] += j['nviol']
            arr = array.array('Q'); arr.frombytes(open(out + '.states', 'rb').read()); d['stateset'].update(arr)
            for k, v in j['outcomes'].items(): d['outcomes'][k] = d['outcomes'].get(k, 0) + v
            d['samples'] += j['samples'][:2] if i else j['samples']
            for v in j['violations']: viol.append((s, v['key'], v['msg'], v['path'], (i, n)))
        else:
            cur = b''
            try: cur = open(out + '.cur', 'rb').read()
            except OSError: pass
            choices = ''
            if len(cur) >= 16:
                nn = struct.unpack_from('<I', cur, 8)[0]
                choices = ','.join(str(x) for x in struct.unpack_from('<%di' % min(nn, 4096), cur, 12))
            txt = tail(out + '.log', 20000)
            d['capped'] = True
            if rc == 3:
                errors.append('%s: explorer divergence' % s)
            else:
                key = 'hang' if rc in (97, 'timeout') else san_key(txt)
                viol.append((s, key, ('no progress (rc %s)' % rc) if key == 'hang' else 'process died (rc %s): %s' % (rc, crash_summary(txt)), choices, (i, n)))
    # ---- confirm by replay, split into known / new
    known = load_known()
    new, knownhits, unconfirmed = [], {}, []
    byk = {}
    for v in viol:
        byk.setdefault((v[0], v[1]), []).append(v)
    for (s, key), vs in byk.items():
        kn = [k for k in known if k[0] == pid and k[1] == key]
        conf = None
        for v in sorted(vs, key=lambda v: (len(v[3]), v[3]))[:3]:
            sc = tempfile.mkdtemp(prefix='rp', dir=os.path.join(work, 'tmp'))
            out = os.path.join(work, 'out', 'replay.txt')
            rc = run_proc([b.exe, '--scn', s, '--tier', a.tier, '--scratch', sc, '--replay', v[3]], env, sc, 90, out)
            shutil.rmtree(sc, ignore_errors=True)
            if rc not in (0, 2):
                conf = (v, tail(out, 8000)); break
        if conf is None:
            # depends on what ran before it in the same process: re-run the whole shard
            sh_ = next((v[4] for v in vs if len(v) > 4), None)
            if sh_ is not None:
                out = os.path.join(work, 'out', 'again'); sc = tempfile.mkdtemp(prefix='rp', dir=os.path.join(work, 'tmp'))
                rc = run_proc([b.exe, '--scn', s, '--shard', '%d/%d' % sh_, '--tier', a.tier, '--cap', str(cap), '--scratch', sc, '--out', out], env, sc, cap + 120, out + '.log')
                shutil.rmtree(sc, ignore_errors=True)
                again = set()
                if rc == 0 and os.path.exists(out): again = set(v['key'] for v in json.load(open(out))['violations'])
                elif rc != 3: again = {'hang' if rc in (97, 'timeout') else san_key(tail(out + '.log', 20000))}
                if key in again: conf = (vs[0], 'reproduced by re-running shard %d/%d of the scenario\n' % sh_ + tail(out + '.log', 6000))
        if conf is None:
            unconfirmed.append(vs[0]); continue
        if kn: knownhits[key] = (kn[0], conf)
        else: new.append((s, key, conf))
    if errors:
        for e in errors: log('CHECK-ERROR', e)
    rdir = os.path.join(ROOT, 'replays'); os.makedirs(rdir, exist_ok=True)
    nn = 0
    for s, key, (v, txt) in sorted(new, key=lambda x: (x[0], x[1])):
        nn += 1
        path = os.path.join(rdir, '%s-%d.json' % (pid, nn))
        json.dump({'property': pid, 'scenario': s, 'key': key, 'message': v[2], 'tier': a.tier, 'choices': v[3], 'shard': list(v[4]) if len(v) > 4 else None, 'trace': txt,
                   'rerun': 'python3 /verif/run.py %s --replay %s' % (pid, path)}, open(path, 'w'), indent=1)
        log('---- violation of %s in scenario %s [%s]\n%s\n%s' % (pid, s, key, v[2], txt[-2500:]))
        log('VIOLATION property=%s replay=%s' % (pid, path))
    for k, (kn, conf) in sorted(knownhits.items()):
        log('KNOWN-FINDING: property=%s key=%s %s' % (pid, k, kn[2]))
    for u in unconfirmed:
        log('note: not reproduced on replay, not reported: %s [%s] %s' % (u[0], u[1], u[2][:300]))
    # ---- evidence
    for s, d in per.items(): d['states'] = len(d.pop('stateset'))
    samples = []
    for s in per:
        for x in per[s]['samples'][:2]: samples.append('%s: %s' % (s, x))
    tot = lambda k: sum(d[k] for d in per.values())
    ev = {'property': pid, 'tier': a.tier, 'seed': seed, 'level': spec.get('level', 'model_checking'),
          'coverage': {'states': tot('states'), 'transitions': tot('transitions'), 'traces_validated_against_impl': tot('execs'),
                       'samples': samples[:40] or ['(none)'],
                       'exhaustive': not any(d['capped'] for d in per.values()),
                       'bounds': spec.get('bounds', ''),
                       'per_scenario': {s: {k: (d[k] if k != 'outcomes' else dict(sorted(d[k].items(), key=lambda kv: -kv[1])[:40])) for k in ('execs', 'states', 'transitions', 'maxdepth', 'capped', 'outcomes', 'nviol')} for s, d in per.items()}},
          'assumptions': spec.get('assumptions', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    log('%s %s: %d executions, %d states, %d transitions, exhaustive=%s, %.1fs' % (pid, a.tier, tot('execs'), tot('states'), tot('transitions'), ev['coverage']['exhaustive'], time.time() - t0))
    for s, d in per.items():
        log('   %-28s execs=%d states=%d transitions=%d depth=%d outcomes=%d%s' % (s, d['execs'], d['states'], d['transitions'], d['maxdepth'], len(d['outcomes']), ' CAPPED' if d['capped'] else ''))
        if d['execs'] == 0 and not new: errors.append('scenario %s executed nothing' % s)
    if new: return 1
    if errors: return 2
    return 0

if __name__ == '__main__':
    main()

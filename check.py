#!/usr/bin/env python3
"""check.py ID [--replay FILE] [--seed N] [--tier quick|thorough] [--scale X] [--only PROP]
check.py --setup        builds the library and every harness once

Builds libsparta and the harness of property ID from /repo's working tree (outside /repo), runs its
generated-input search, writes evidence/ID.json. Exit 0: held on everything explored. Exit 1 with a
VIOLATION line: broken. Exit 2: an error of the check itself (for example: the tree does not build)."""
import sys, os, re, json, time, hashlib, subprocess, shutil, fcntl, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SP = REPO + '/sparta'
B = os.environ.get('VERIF_BUILD', V + '/.build')
sys.path.insert(0, V)
from harness.table import CHECKS

CXX = 'g++'
COMMON = ['-std=c++17', '-fPIC', '-w', '-DSPARTA_VERSION="verif"', '-DRAPIDJSON_NOMEMBERITERATORCLASS', '-DSIMDB_ENABLED=0', '-I' + SP, '-I' + V + '/harness', '-I' + REPO + '/helios/pipeViewer']
LIBFLAGS = ['-O1', '-g0']
HFLAGS = ['-O1', '-g0']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment,null', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer', '-g1']
LIBS = ['-lyaml-cpp', '-lz', '-lpthread', '-lboost_serialization', '-lboost_timer', '-lboost_program_options', '-lboost_date_time', '-lboost_iostreams', '-lstdc++fs']
# translation-unit groups balanced by measured compile time; sources not named here get groups of their own
GROUPS = [
  ['CommandLineSimulator', 'Backtrace', 'SimulationInfo', 'File'],
  ['Simulation', 'ReportRepository'],
  ['Report', 'ReportDescriptor', 'BaseFormatter'],
  ['TreeFilterExpressionGrammar', 'TreeFilterExpression', 'TreeNode'],
  ['ExpressionGrammar', 'Expression', 'StatisticInstance', 'ContextCounter', 'StatisticDef', 'CounterBase', 'JsonFormatter'],
  ['ExpressionTrigger', 'ContextCounterTrigger', 'Trigger', 'TriggerManager', 'SimulationConfiguration', 'TemporaryRunController'],
  ['StatisticsArchives', 'StatisticsStreams', 'TreeNodeExtensionManager', 'TreeNodeExtensions', 'ConfigParserYAML', 'YAMLTreeEventHandler', 'Parameter'],
  ['sparta', 'Scheduler', 'GenericUnit', 'Scoreboard', 'StatsMapping', 'CsvFormatter', 'JavascriptObject', 'ArgosOutputter', 'SpartaException'],
  ['DAG', 'Destination', 'Unit', 'ExportedPort', 'EdgeFactory', 'RootTreeNode', 'Clock', 'Scheduleable', 'VertexFactory', 'Vertex', 'EventNode', 'ClockManager', 'MessageInfo', 'Resource', 'MessageSource', 'Port', 'RegisterSet'],
]

def log(*a): print(*a, file=sys.stderr, flush=True)

def tree_hash():
    h = hashlib.sha256()
    roots = [SP + '/sparta', SP + '/src', SP + '/cache', REPO + '/helios/pipeViewer/pipe_view', REPO + '/helios/pipeViewer/transactionsearch', SP + '/example', V + '/harness']
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.pyc',)): continue
                p = os.path.join(d, f)
                try: h.update(p.encode() + b'\0' + open(p, 'rb').read())
                except OSError: pass
    h.update(open(SP + '/CMakeLists.txt', 'rb').read()); h.update(open(__file__, 'rb').read())
    return h.hexdigest()

def sources():
    c = open(SP + '/CMakeLists.txt').read()
    m = re.search(r'APPEND SourceCppFiles([^)]*)\)', c).group(1)
    return [s for s in re.findall(r'src/([A-Za-z0-9_]+)\.cpp', m)]

CC_ENV = dict(os.environ, CCACHE_DIR=B + '/ccache', CCACHE_MAXSIZE='6G', CCACHE_SLOPPINESS='time_macros', CCACHE_NOCOMPRESS='1')
CCACHE = shutil.which('ccache')

def compile(src, obj, flags, quiet=False):
    cmd = ([CCACHE] if CCACHE else []) + [CXX] + COMMON + flags + ['-c', src, '-o', obj]
    r = subprocess.run(cmd, env=CC_ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout

def write_if_changed(p, s):
    if not os.path.exists(p) or open(p).read() != s: open(p, 'w').write(s)

def lib_jobs():
    have = sources(); jobs = []; named = set(sum(GROUPS, []))
    for i, g in enumerate(GROUPS + [[s] for s in have if s not in named]):
        g = [s for s in g if s in have]
        if g: jobs.append(('lib%02d_%s' % (i, g[0]), g))
    return jobs

def build_group(name, g, od):
    u = B + '/unity_' + name + '.cpp'
    write_if_changed(u, ''.join('#include "%s/src/%s.cpp"\n' % (SP, s) for s in g))
    ok, out = compile(u, od + '/' + name + '.o', LIBFLAGS)
    if ok: return [od + '/' + name + '.o'], ''
    objs = []                                        # fall back to one unit per source
    for s in g:
        ok, out = compile(SP + '/src/' + s + '.cpp', od + '/' + s + '.o', LIBFLAGS)
        if not ok: return None, out
        objs.append(od + '/' + s + '.o')
    return objs, ''

def build_harness_obj(src, flags, od):
    o = od + '/' + os.path.basename(src) + '.o'
    ok, out = compile(src, o, flags)
    return ([o], '') if ok else (None, out)

def build(ids):
    """Returns {id: binary}; exits 2 if the tree does not build."""
    os.makedirs(B, exist_ok=True)
    lock = open(B + '/lock', 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    th = tree_hash(); od = B + '/obj'; os.makedirs(od, exist_ok=True); bd = B + '/bin'; os.makedirs(bd, exist_ok=True)
    need = []
    for i in ids:
        st = bd + '/' + i + '.stamp'
        if not (os.path.exists(st) and open(st).read() == th and os.path.exists(bd + '/' + i)): need.append(i)
    if need:
        t0 = time.time()
        lst = B + '/lib.stamp'
        lib_ok = os.path.exists(lst) and open(lst).read() == th and os.path.exists(B + '/libsparta.a')
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
            hf = {}; lf = []
            jobs = [] if lib_ok else lib_jobs()
            for n, g in jobs[:3]: lf.append(ex.submit(build_group, n, g, od))
            for i in need:
                c = CHECKS[i]
                if c.get('kind') == 'script': continue
                fl = list(HFLAGS) + (SAN if c.get('san', True) else []) + c.get('flags', [])
                hf[i] = [ex.submit(build_harness_obj, V + '/harness/' + s, fl, od) for s in c['src']]
            for n, g in jobs[3:]: lf.append(ex.submit(build_group, n, g, od))
            objs = []
            for f in lf:
                o, out = f.result()
                if o is None: log(out[-6000:]); log('ERROR: libsparta does not build'); sys.exit(2)
                objs += o
            hobj = {}
            for i, fs in hf.items():
                hobj[i] = []
                for f in fs:
                    o, out = f.result()
                    if o is None: log(out[-6000:]); log('ERROR: harness %s does not build' % i); sys.exit(2)
                    hobj[i] += o
        if not lib_ok:
            if os.path.exists(B + '/libsparta.a'): os.remove(B + '/libsparta.a')
            subprocess.check_call(['ar', 'rcs', B + '/libsparta.a'] + objs); open(lst, 'w').write(th)
        def link(i):
            c = CHECKS[i]
            if i not in hobj: open(bd + '/' + i, 'w').close(); open(bd + '/' + i + '.stamp', 'w').write(th); return ''
            cmd = [CXX, '-fuse-ld=lld'] + (SAN if c.get('san', True) else []) + hobj[i] + [B + '/libsparta.a'] + LIBS + c.get('libs', []) + ['-o', bd + '/' + i]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                r = subprocess.run([x for x in cmd if x != '-fuse-ld=lld'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode: return r.stdout
            open(bd + '/' + i + '.stamp', 'w').write(th); return ''
        with ThreadPoolExecutor(max_workers=4) as ex:
            for i, out in zip(need, ex.map(link, need)):
                if out: log(out[-4000:]); log('ERROR: harness %s does not link' % i); sys.exit(2)
        log('built %s in %.1f s' % (' '.join(need), time.time() - t0))
    fcntl.flock(lock, fcntl.LOCK_UN)
    return {i: bd + '/' + i for i in ids}

def known(pid):
    try: return [k for k in json.load(open(V + '/known_findings.json'))['findings'] if k['property'] == pid and k.get('status') == 'open']
    except FileNotFoundError: return []

def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        build(sorted(CHECKS)); return 0
    pid = a.pop(0); opt = {}
    while a: k = a.pop(0).lstrip('-'); opt[k] = a.pop(0)
    tier = opt.get('tier') or os.environ.get('VERIF_TIER') or 'quick'
    seed = int(opt.get('seed') or os.environ.get('VERIF_SEED') or 1)
    t0 = time.time(); c = CHECKS[pid]
    binary = build([pid])[pid]; t_build = time.time() - t0
    scratch = tempfile.mkdtemp(prefix='pbt_' + pid + '_', dir=os.environ.get('TMPDIR', '/tmp'))
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:detect_container_overflow=0:alloc_dealloc_mismatch=0:handle_abort=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1', TMPDIR=scratch, VERIF_DIR=V, VERIF_REPO=REPO, VERIF_BUILD=B)
    try:
        if 'replay' in opt:
            cmd = [binary] if c.get('kind') != 'script' else [c.get('python', sys.executable), V + '/harness/' + c['src'][0]]
            return subprocess.call(cmd + ['--replay', os.path.abspath(opt['replay']), '--scratch', scratch + '/pbt'], env=env)
        out = scratch + '/result.json'; rep = scratch + '/replay.txt'
        args = ['--seed', str(seed), '--tier', tier, '--out', out, '--replay-out', rep, '--scratch', scratch + '/pbt', '--workers', str(min(8, os.cpu_count() or 8))]
        args += ['--cap', '3000' if tier == 'thorough' else '420']
        for k in ('scale', 'only'):
            if k in opt: args += ['--' + k, opt[k]]
        cmd = [binary] if c.get('kind') != 'script' else [c.get('python', sys.executable), V + '/harness/' + c['src'][0]]
        r = subprocess.run(cmd + args, env=env)
        if r.returncode not in (0, 1) or not os.path.exists(out): log('ERROR: harness ended with', r.returncode); return 2
        res = json.load(open(out))
        ev = dict(property=pid, tier=tier, seed=seed, level='exploration',
                  coverage=dict(evaluations=res['evaluations'], distinct_nontrivial=res['distinct_nontrivial'], rule=c['rule'], samples=res['samples'][:6] or ['(none traced)'],
                                discarded=res.get('discarded', 0), per_subproperty=res.get('per_prop', {}), classes=res.get('labels', {}), search_s=round(res.get('wall_s', 0), 1), time_capped=res.get('capped', False), nonreproducible=res.get('nonreproducible', 0), notes=res.get('notes', [])),
                  assumptions=c.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=int(res['violation']))
        if os.environ.get('VERIF_NOEVIDENCE'): V_EV = scratch
        else: V_EV = V + '/evidence'
        os.makedirs(V_EV, exist_ok=True)
        json.dump(ev, open(V_EV + '/' + pid + '.json', 'w'), indent=1)
        for k in known(pid): print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        print('%s %s seed=%d: %d cases, %d distinct non-trivial, build %.0f s, search %.0f s%s' % (pid, tier, seed, res['evaluations'], res['distinct_nontrivial'], t_build, res.get('wall_s', 0), ' (time-capped: inconclusive beyond these cases)' if res.get('capped') else ''))
        if res.get('nonreproducible'): print('note: %d non-reproducible observations, see evidence' % res['nonreproducible'])
        if res['violation']:
            os.makedirs(V + '/replays', exist_ok=True)
            dst = V + '/replays/%s-%s-seed%d.txt' % (pid, tier, seed); shutil.copy(rep, dst)
            print(res['violation_msg'][:1500]); print('VIOLATION property=%s replay=%s' % (pid, dst)); return 1
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
if __name__ == '__main__': sys.exit(main())

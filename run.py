#!/usr/bin/env python3
"""Run one property's runtime-monitoring check against /repo's working tree.

  run.py <PID> [--tier quick|thorough] [--seed N] [--replay FILE]

Compiles the harness and the repository sources it needs (from the working
tree, instrumented), runs the harness sharded over the cores, collects what the
monitors saw, matches violations against known-findings.json, writes
evidence/<PID>.json.  Exit 0: held; 1: VIOLATION; 2: no answer (tool trouble).
"""
import sys, os, json, time, subprocess, hashlib, re, shutil, tempfile, threading, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import checks as C

REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE', os.path.join(HERE, 'build'))
JOBS = int(os.environ.get('VERIF_JOBS', str(min(8, os.cpu_count() or 4))))
CXX = 'clang++'
COMPILERS = threading.Semaphore(JOBS)
_locks, _locklock = {}, threading.Lock()

BASE = ['-std=c++14', '-gline-tables-only', '-w', '-fno-omit-frame-pointer', '-pthread',
        '-D_GLIBCXX_SANITIZE_VECTOR=1', '-ftrivial-auto-var-init=pattern',
        '-DBOOST_BIND_GLOBAL_PLACEHOLDERS', '-DBOOST_ALLOW_DEPRECATED_HEADERS']
FLAVORS = {
    'asan': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,function,float-cast-overflow',
             '-fno-sanitize-recover=all'],
    'tsan': ['-O1', '-fsanitize=thread'],
    'plain': ['-O1'],
}
ENVS = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=16777216:malloc_fill_byte=247:'
                    'detect_stack_use_after_return=1:max_allocation_size_mb=8192:handle_abort=1:print_summary=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=99:halt_on_error=1',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=98:second_deadlock_stack=1:report_signal_unsafe=0',
}


def sha(b):
    return hashlib.sha256(b).hexdigest()


_fh = {}
def filehash(p):
    if p not in _fh:
        try:
            with open(p, 'rb') as f:
                _fh[p] = sha(f.read())
        except OSError:
            _fh[p] = 'missing'
    return _fh[p]


class BuildError(Exception):
    pass


def include_dir():
    d = os.path.join(CACHE, 'inc-' + sha(REPO.encode())[:10])
    os.makedirs(d, exist_ok=True)
    link = os.path.join(d, 'envire')
    if not os.path.islink(link):
        try:
            os.symlink(os.path.join(REPO, 'src'), link)
        except FileExistsError:
            pass
    link = os.path.join(d, 'icp')
    if not os.path.islink(link):
        try:
            os.symlink(os.path.join(REPO, 'icp'), link)
        except FileExistsError:
            pass
    return d


# Two files use constructs g++ takes and clang does not; clang gets a copy with
# the equivalent standard spelling.  If clang still refuses something, the whole
# check is built with g++ (slower, same sanitizers).
ADAPT = {'src/maps/Grids.cpp': (r'^template class Grid<', 'template class envire::Grid<'),
         'src/core/Environment.cpp': (r'T C_fg\(envire::Transform\(Eigen::Affine3d::Identity\(\)\)\);',
                                      'T C_fg((envire::Transform(Eigen::Affine3d::Identity())));')}


def compile_obj(src, flags):
    """Compile one file, once at a time."""
    with _locklock:
        lock = _locks.setdefault('\0'.join([CXX, src] + flags), threading.Lock())
    with lock:
        return compile_obj1(src, flags)


def compile_obj1(src, flags):
    """Compile one file; reuse an object only if every file it was made from is unchanged."""
    rel = os.path.relpath(src, REPO)
    if CXX == 'clang++' and rel in ADAPT and os.path.exists(src):
        a = os.path.join(CACHE, 'adapt-' + sha(REPO.encode())[:10], rel)
        os.makedirs(os.path.dirname(a), exist_ok=True)
        txt = re.sub(ADAPT[rel][0], ADAPT[rel][1], open(src).read(), flags=re.M)
        txt = '#line 1 "%s"\n' % src + txt
        if not os.path.exists(a) or open(a).read() != txt:
            t = a + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
            open(t, 'w').write(txt)
            os.replace(t, a)
        flags = flags + ['-iquote', os.path.dirname(src)]
        src = a
    key = sha(('\0'.join([CXX, src] + flags)).encode())[:24]
    d = os.path.join(CACHE, 'obj')
    os.makedirs(d, exist_ok=True)
    obj, dep, meta = (os.path.join(d, key + e) for e in ('.o', '.d', '.json'))
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if all(filehash(p) == h for p, h in m.items()):
                return obj
        except Exception:
            pass
    tmp = obj + '.%d.tmp' % os.getpid()
    with COMPILERS:
        r = subprocess.run([CXX] + flags + ['-MD', '-MF', dep, '-c', src, '-o', tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode != 0:
        raise BuildError('%s\n%s' % (src, r.stdout[-6000:]))
    txt = open(dep).read().replace('\\\n', ' ')
    deps = [x for x in txt.split(':', 1)[1].split() if x]
    keep = {p: filehash(p) for p in deps if not p.startswith('/usr/')}
    keep[src] = filehash(src)
    json.dump(keep, open(meta, 'w'))
    os.replace(tmp, obj)
    return obj


def build(spec, flavor):
    global CXX
    used = CXX
    try:
        return build_with(spec, flavor)
    except BuildError as e:
        if used == 'g++' or str(e).startswith('link'):
            raise
        CXX = 'g++'
        return build_with(spec, flavor)


def build_with(spec, flavor):
    inc = include_dir()
    flags = BASE + FLAVORS[flavor] + ['-I', os.path.join(HERE, 'harness'), '-I', os.path.join(HERE, 'shim'),
                                      '-I', inc, '-I', os.path.join(REPO, 'src'), '-I', REPO,
                                      '-isystem', '/usr/include/eigen3'] + spec.get('flags', [])
    flavor_flags = FLAVORS[flavor]
    if CXX == 'g++':   # names clang knows and g++ does not
        flags = [f.replace('vptr,function,float-cast-overflow', 'vptr,float-cast-overflow').replace('-gline-tables-only', '-g1') for f in flags]
        flavor_flags = [f.replace('vptr,function,float-cast-overflow', 'vptr,float-cast-overflow') for f in flavor_flags]
    o0 = set(spec.get('o0', []))
    srcs = [os.path.join(HERE, 'harness', s) for s in spec['harness']]
    srcs += [os.path.join(HERE, 'shim', s) for s in spec.get('shim', [])]
    srcs += [os.path.join(REPO, s) for s in spec.get('repo', [])]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda s: compile_obj(s, flags + ['-O0'] if os.path.relpath(s, REPO) in o0 or os.path.basename(s) in o0 else flags), srcs))
    if spec.get('tools'):
        build_tools(spec, flags, flavor_flags, o0, objs[len(spec['harness']) + len(spec.get('shim', [])):])
    h = sha(('\0'.join(objs) + ''.join(filehash(o) for o in objs)).encode())[:24]
    exe = os.path.join(CACHE, 'bin-' + h)
    if not os.path.exists(exe):
        tmp = exe + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
        r = subprocess.run([CXX] + flavor_flags + ['-pthread', '-o', tmp] + objs + spec.get('libs', []),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if r.returncode != 0:
            raise BuildError('link\n' + r.stdout[-6000:])
        os.replace(tmp, exe)
    return exe


def link(cmd_flags, objs, libs, exe):
    tmp = exe + '.%d.tmp' % os.getpid()
    r = subprocess.run([CXX] + cmd_flags + ['-pthread', '-o', tmp] + objs + libs,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode != 0:
        raise BuildError('link\n' + r.stdout[-6000:])
    os.replace(tmp, exe)


TOOLDIR = None
def build_tools(spec, flags, flavor_flags, o0, objs):
    """The command line tools, each linked with the sources of the library: programs the harness starts."""
    global TOOLDIR
    libs = spec.get('libs', [])
    with cf.ThreadPoolExecutor(JOBS) as ex:
        tobj = list(ex.map(lambda t: compile_obj(os.path.join(REPO, 'tools', t + '.cpp'), flags + ['-O0']), spec['tools']))
        h = sha(('\0'.join(objs + tobj + [CXX]) + ''.join(filehash(o) for o in objs + tobj)).encode())[:24]
        TOOLDIR = os.path.join(CACHE, 'bin-' + h)
        if os.path.isdir(TOOLDIR):
            return
        tmp = tempfile.mkdtemp(dir=CACHE)
        def one(t):
            link(flavor_flags, [t[1]] + objs, libs, os.path.join(tmp, t[0]))
        list(ex.map(one, zip(spec['tools'], tobj)))
        try:
            os.rename(tmp, TOOLDIR)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)


def read_cur(path):
    try:
        b = open(path, 'rb').read()
        section = b[:128].split(b'\0')[0].decode()
        idx = int.from_bytes(b[128:136], 'little')
        done = int.from_bytes(b[136:144], 'little')
        n = int.from_bytes(b[144:152], 'little')
        return section, idx, b[152:152 + n].decode(errors='replace')
    except Exception:
        return '', -1, ''


FRAME = re.compile(r'^\s*#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?)(?::\d+)*(?:\s|$)', re.M)


def classify_crash(rc, err):
    kind = None
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    if m:
        kind = 'asan:' + m.group(1)
    if not kind:
        m = re.search(r'runtime error: (.*)', err)
        if m:
            t = re.sub(r'0x[0-9a-f]+|-?\d+(\.\d+)?', 'N', m.group(1))
            kind = 'ubsan:' + t[:80]
    if not kind:
        m = re.search(r'WARNING: ThreadSanitizer: ([^\(\n]+)', err)
        if m:
            kind = 'tsan:' + m.group(1).strip()
    if not kind:
        m = re.search(r"Assertion `(.{0,80})", err)
        if m:
            kind = 'assert:' + m.group(1)
    if not kind:
        m = re.search(r"terminate called[^\n]*", err)
        if m:
            kind = m.group(0)[:90]
    if not kind:
        kind = 'signal/exit %s' % rc
    fn = ''
    for f, path in FRAME.findall(err):
        if '/src/' in path or '/icp/' in path:
            if REPO in path or 'inc-' in path:
                fn = re.sub(r'<.*', '', f.split('(')[0]) + '@' + os.path.basename(path)
                break
    return 'crash:%s:%s' % (kind, fn)


class Runner:
    def __init__(self, pid, spec, tier, seed):
        self.pid, self.spec, self.tier, self.seed = pid, spec, tier, seed
        self.known = [k for k in json.load(open(os.path.join(HERE, 'known-findings.json')))['known'] if k['property'] == pid]
        self.viol, self.knownhit, self.notes = [], {}, []
        self.errors = []

    def is_known(self, key):
        for k in self.known:
            if key == k['key']:
                return k
        return None

    def note_violation(self, v):
        k = self.is_known(v['key'])
        if k:
            self.knownhit[k['key']] = k
            return True
        self.viol.append(v)
        return False

    def env(self):
        e = dict(os.environ)
        e.update(ENVS)
        e['TMPDIR'] = self.out
        e['LC_ALL'] = 'C'
        e.update(self.extra)
        if TOOLDIR:
            e['VERIF_TOOLS'] = TOOLDIR
        if self.spec.get('mult'):
            e['VERIF_MULT'] = str(self.spec['mult'])
        return e

    def exec1(self, exe, args, errpath, timeout, flavor):
        cmd = [exe] + args
        if flavor == 'plain' and self.spec.get('valgrind'):
            cmd = ['valgrind', '-q', '--error-exitcode=97', '--exit-on-first-error=yes', '--leak-check=no',
                   '--track-origins=no', '--num-callers=16'] + cmd
        if flavor == 'tsan':
            cmd = ['setarch', '-R'] + cmd if shutil.which('setarch') and self.aslr_ok() else cmd
        with open(errpath, 'wb') as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL, env=self.env(),
                                 cwd=self.out, start_new_session=True)
            try:
                return p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
                return 'timeout'

    _aslr = None
    def aslr_ok(self):
        if self._aslr is None:
            try:
                self._aslr = subprocess.run(['setarch', '-R', 'true'], capture_output=True).returncode == 0
            except OSError:
                self._aslr = False
        return self._aslr

    def run_shard(self, exe, flavor, shard, nshards):
        """Run a shard; when it dies, attribute the death to the case it was in and go on after it."""
        out = self.out
        base = ['--seed', str(self.seed), '--tier', self.tier, '--out', out, '--nshards', str(nshards)]
        if self.spec.get('max'):
            base += ['--max', str(self.spec['max'])]
        resume = []
        timeout = 600 if self.tier == 'quick' else 5400
        sid = '%s%d' % (flavor[0], shard)
        resumes = 0
        while True:
            err = os.path.join(out, 'err%d' % shard)
            rc = self.exec1(exe, base + ['--shard', str(shard)] + resume, err, timeout, flavor)
            if rc == 0:
                return
            section, idx, log = read_cur(os.path.join(out, 's%d.cur' % shard))
            text = open(err, 'rb').read().decode(errors='replace')
            if not section:
                self.errors.append('harness died before its first case: rc=%s %s' % (rc, text[-1500:]))
                return
            if rc == 77 or rc == 'timeout':
                # confirm on a run of that case alone, with twice the allowance
                d = tempfile.mkdtemp(dir=out)
                rc2 = self.exec1(exe, ['--seed', str(self.seed), '--tier', self.tier, '--out', d, '--section', section,
                                       '--case', str(idx), '--hangmul', '2'], os.path.join(d, 'err'), 150, flavor)
                if rc2 == 0:
                    if rc == 'timeout':
                        self.errors.append('shard exceeded its wall time without a hanging case (%s %d)' % (section, idx))
                        return
                    key = None
                elif rc2 in (77, 'timeout'):
                    key, text = 'hang:' + section, 'no answer within the CPU allowance, twice'
                else:
                    text = open(os.path.join(d, 'err'), 'rb').read().decode(errors='replace')
                    key = classify_crash(rc2, text)
            else:
                key = classify_crash(rc, text)
            if key:
                known = self.note_violation({'key': key, 'section': section, 'case': idx,
                                             'msg': text[-4000:] if 'ERROR' not in text else text[text.find('ERROR'):][:4000],
                                             'log': log})
                if not known and not self.extra:
                    return
            resumes += 1
            if resumes > 200:
                self.errors.append('too many resumes')
                return
            resume = ['--resume', section, str(idx)]

    def leaks(self, agg, replay):
        """The workloads of other checks with an account of the blocks and files every case leaves behind."""
        most = self.spec['leak_cases'][self.tier == 'thorough']
        lock = threading.Lock()

        def one(sub):
            spec = C.CHECKS[sub]
            exe = build(spec, 'asan')
            d = tempfile.mkdtemp(dir=self.out)
            r = Runner(self.pid, dict(spec, max=most, mult=1), self.tier, self.seed)
            r.out, r.known = d, []
            r.extra = {'VERIF_LEAK': '1', 'VERIF_REPO_ROOT': REPO}
            if replay:
                err = os.path.join(d, 'err')
                rc = r.exec1(exe, ['--seed', str(replay['seed']), '--tier', replay['tier'], '--out', d, '--section', replay['section'],
                                   '--case', str(replay['case'])], err, 300, 'asan')
                if rc not in (0, 77, 'timeout'):
                    text = open(err, 'rb').read().decode(errors='replace')
                    r.viol.append({'key': classify_crash(rc, text), 'section': replay['section'], 'case': replay['case'], 'msg': text[-4000:], 'log': ''})
            else:
                r.run_shard(exe, 'asan', 0, 1)
            with lock:
                # use after release and releases of released memory count here; any other crash is
                # reported by the check the workload belongs to
                freed = [v for v in r.viol if v['key'].startswith('crash:asan:') and v['key'].split(':')[2] in
                         ('heap-use-after-free', 'double-free', 'attempting', 'bad-free', 'alloc-dealloc-mismatch')]
                for v in freed:
                    if replay:
                        sys.stderr.write(v['msg'] + '\n')
                    self.note_violation(dict(v, sub=sub))
                if not freed:
                    self.errors += r.errors
                for v in map(json.loads, open(os.path.join(d, 's0.viol'), errors='replace')):
                    if v['key'].split(':')[0] in ('leak', 'files'):
                        if replay:
                            sys.stderr.write(v['msg'] + '\n')
                        self.note_violation(dict(v, sub=sub))
                jp = os.path.join(d, 's0.json')
                if os.path.exists(jp):
                    j = json.load(open(jp))
                    agg['evaluations'] += j['evaluations']
                    agg['checks'] += j['counters'].get('leak.blocks', 0)
                    for k, v in j['counters'].items():
                        if k.startswith('leak.'):
                            agg['counters'][k] = agg['counters'].get(k, 0) + v
                    agg['counters']['cases.' + sub] = j['evaluations']
                    agg['samples'] += j['samples'][:1]
                    agg['distinct'].update(j['distinct'])
        subs = [replay['sub']] if replay else self.spec['leak']
        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, subs))

    extra = {}
    def run(self, replay=None):
        t0 = time.time()
        spec = self.spec
        agg = {'evaluations': 0, 'checks': 0, 'counters': {}, 'samples': [], 'distinct': set()}
        self.out = tempfile.mkdtemp(prefix='verif-%s-' % self.pid)
        try:
            if spec.get('leak'):
                self.leaks(agg, replay)
            for flavor in spec.get('flavors', ['asan']):
                exe = build(spec, flavor)
                if replay:
                    d = tempfile.mkdtemp(dir=self.out)
                    err = os.path.join(d, 'err')
                    rc = self.exec1(exe, ['--seed', str(replay['seed']), '--tier', replay['tier'], '--out', d, '--section',
                                          replay['section'], '--case', str(replay['case'])], err, 300, flavor)
                    sys.stderr.write(open(err, errors='replace').read()[-8000:])
                    v = open(os.path.join(d, 's0.viol')).read() if os.path.exists(os.path.join(d, 's0.viol')) else ''
                    sys.stderr.write(v)
                    if rc != 0 or v:
                        self.viol.append({'key': 'replay', 'section': replay['section'], 'case': replay['case'], 'msg': v, 'log': ''})
                    continue
                n = spec.get('shards', JOBS)
                for f in os.listdir(self.out):
                    p = os.path.join(self.out, f)
                    if os.path.isfile(p):
                        os.unlink(p)
                with cf.ThreadPoolExecutor(max(1, n)) as ex:
                    list(ex.map(lambda i: self.run_shard(exe, flavor, i, n), range(n)))
                for i in range(n):
                    vp = os.path.join(self.out, 's%d.viol' % i)
                    if os.path.exists(vp):
                        for line in open(vp, errors='replace'):
                            try:
                                self.note_violation(json.loads(line))
                            except ValueError:
                                pass
                    jp = os.path.join(self.out, 's%d.json' % i)
                    if os.path.exists(jp):
                        j = json.load(open(jp))
                        agg['evaluations'] += j['evaluations']
                        agg['checks'] += j['checks']
                        for k, v in j['counters'].items():
                            kk = k if flavor == 'asan' else flavor + '.' + k
                            agg['counters'][kk] = agg['counters'].get(kk, 0) + v
                        agg['samples'] += j['samples']
                        agg['distinct'].update(j['distinct'])
        except BuildError as e:
            sys.stderr.write('BUILD FAILED for %s: %s\n' % (self.pid, e))
            return 2
        finally:
            shutil.rmtree(self.out, ignore_errors=True)
        return self.finish(agg, time.time() - t0, replay)

    def finish(self, agg, wall, replay):
        pid = self.pid
        if replay:
            print('VIOLATION property=%s replay=%s' % (pid, replay['_path']) if self.viol else 'replay: no violation')
            return 1 if self.viol else 0
        spec = self.spec
        if spec.get('leak'):
            spec = dict(spec, must_see=spec.get('must_see', []) + ['cases.' + s for s in spec['leak']])
        ev = os.path.join(HERE, 'evidence')
        os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
        distinct_keys = {}
        for v in self.viol:
            distinct_keys.setdefault(v['key'], v)
        paths = []
        for i, (key, v) in enumerate(sorted(distinct_keys.items())):
            p = os.path.join(ev, 'replay', '%s-%d.json' % (pid, i))
            v2 = dict(v, property=pid, seed=self.seed, tier=self.tier)
            json.dump(v2, open(p, 'w'), indent=1)
            paths.append((key, p, v))
        # observation floor: a run whose monitors saw nothing decides nothing
        missing = [k for k in spec.get('must_see', []) if not agg['counters'].get(k)]
        doc = {'property': pid, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration',
               'coverage': {'evaluations': agg['evaluations'], 'distinct_nontrivial': len(agg['distinct']),
                            'rule': spec['rule'], 'samples': agg['samples'][:4],
                            'oracle_evaluations': agg['checks'], 'observed': agg['counters'],
                            'flavors': spec.get('flavors', ['asan'])},
               'assumptions': spec.get('assumptions', []) + C.COMMON_ASSUMPTIONS,
               'wall_s': round(wall, 2), 'violations': len(distinct_keys),
               'known_findings_seen': sorted(self.knownhit)}
        json.dump(doc, open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
        for k in self.known:
            if k['key'] in self.knownhit:
                print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        if paths:
            for key, p, v in paths:
                sys.stdout.write('  %s in %s #%s: %s\n' % (key, v['section'], v['case'], v['msg'].strip()[:600].replace('\n', '\n    ')))
                print('VIOLATION property=%s replay=%s' % (pid, p))
            return 1
        if self.errors or missing or not agg['evaluations']:
            sys.stderr.write('NO ANSWER %s: %s missing observations=%s\n' % (pid, self.errors, missing))
            return 2
        print('OK property=%s cases=%d distinct=%d checks=%d wall=%.1fs' % (
            pid, agg['evaluations'], len(agg['distinct']), agg['checks'], wall))
        return 0


def main():
    a = sys.argv[1:]
    pid = a.pop(0)
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    replay = None
    while a:
        o = a.pop(0)
        if o == '--tier':
            tier = a.pop(0)
        elif o == '--seed':
            seed = int(a.pop(0))
        elif o == '--replay':
            p = a.pop(0)
            replay = json.load(open(p))
            replay['_path'] = p
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    spec = C.CHECKS[pid]
    sys.exit(Runner(pid, spec, tier, seed).run(replay))


if __name__ == '__main__':
    main()

"""Shared machinery of the checks: scratch space, builds from /repo's working tree, parallel jobs, findings, evidence."""
import atexit, concurrent.futures, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
JOBS = int(os.environ.get('VP_JOBS', str(min(8, os.cpu_count() or 1))))
HARNESS = os.path.join(VERIF, 'harness')
ASAN = ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize=null,alignment,vptr,object-size,nonnull-attribute,returns-nonnull-attribute',
        '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
ENV = dict(os.environ, ASAN_OPTIONS='abort_on_error=0:detect_leaks=1:allocator_may_return_null=0:exitcode=99:malloc_context_size=8:detect_stack_use_after_return=1',
           UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=99', TSAN_OPTIONS='exitcode=98:halt_on_error=1', LC_ALL='C', LANG='C')
for _k in ('LOCPATH', 'LANGUAGE', 'CXXFLAGS', 'CFLAGS', 'LDFLAGS', 'CPATH', 'CPLUS_INCLUDE_PATH', 'MAKEFLAGS'):
    ENV.pop(_k, None)


class HarnessError(Exception):
    """The check could not decide: neither held nor violated"""


class Result:
    def __init__(self, rc, out, err, timeout):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout


HANGS = [0]         # runs that did not end within their limit
CHILDREN = set()


def run(cmd, timeout=120, cwd=None, env=None, stdin=None, text=True, limit_as=None, limit_fsize=None, limit_cpu=None, limit_stack=None):
    if HANGS[0] >= 4:           # enough was seen; the rest must not take all the time there is
        timeout = min(timeout, 20)
        limit_cpu = min(limit_cpu, 15) if limit_cpu else None

    def pre():
        import resource
        if limit_as:
            resource.setrlimit(resource.RLIMIT_AS, (limit_as, limit_as))
        if limit_fsize is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit_fsize, limit_fsize))
        if limit_cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (limit_cpu, limit_cpu))
        if limit_stack:
            resource.setrlimit(resource.RLIMIT_STACK, (limit_stack, limit_stack))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         cwd=cwd, env=env or ENV, preexec_fn=pre, start_new_session=True)
    if isinstance(stdin, str):
        stdin = stdin.encode()
    CHILDREN.add(p.pid)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
        t = False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        t = True
    CHILDREN.discard(p.pid)
    if t or (limit_cpu and p.returncode in (-9, -24)):
        HANGS[0] += 1
    if text:
        out, err = out.decode('utf-8', 'replace'), err.decode('utf-8', 'replace')
    return Result(p.returncode, out, err, t)


def parallel(fn, items, jobs=None):
    with concurrent.futures.ThreadPoolExecutor(jobs or JOBS) as ex:
        return list(ex.map(fn, items))


def sanitizer_report(text):
    """A short key and the relevant lines of a sanitizer report, or None"""
    m = re.search(r'(ERROR: (AddressSanitizer|LeakSanitizer)[^\n]*|runtime error: [^\n]*|WARNING: ThreadSanitizer[^\n]*|ERROR: libFuzzer[^\n]*|==\d+==\s*ERROR: [^\n]*)', text)
    if not m:
        return None
    kind = m.group(0)
    kind = re.sub(r'0x[0-9a-f]+|\d{3,}', 'N', kind)[:160]
    return kind, text[max(0, m.start() - 200):m.start() + 3500]


class Check:
    def __init__(self, pid, level='exploration', rule=''):
        self.id, self.level, self.rule = pid, level, rule
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.r = random.Random('%s/%d' % (pid, self.seed))
        base = os.environ.get('VP_WORK') or tempfile.gettempdir()
        self.work = tempfile.mkdtemp(prefix='verif-%s-' % pid, dir=base)
        os.chmod(self.work, 0o755)
        if not os.environ.get('VP_KEEP'):
            atexit.register(shutil.rmtree, self.work, True)
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.viols = {}         # key -> (detail, replay text)
        self.known = load_known(pid)
        self.known_hit = {}
        self.assumptions = []
        self.extra = {}

    def path(self, *p):
        d = os.path.join(self.work, *p)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        return d

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def seen(self, what, nontrivial=True, sample=None):
        self.evals += 1
        if nontrivial:
            if not isinstance(what, bytes):
                what = what.encode('utf-8', 'surrogateescape')
            self.distinct.add(hashlib.blake2b(what, digest_size=8).digest())
            if len(self.samples) < 4 and len(what) < 1500:
                self.samples.append(sample if sample is not None else what.decode('utf-8', 'replace'))

    def violation(self, key, detail, replay=None):
        """key: what fails, independent of the build and of unrelated data (matched against the known findings)"""
        full = key + '\n' + detail
        for pat, text in self.known:
            if pat in full:
                self.known_hit[text] = self.known_hit.get(text, 0) + 1
                return
        if key not in self.viols:
            self.viols[key] = (detail, replay)
            self.first = getattr(self, 'first', None) or time.time()
            print('--- %s: %s\n%s' % (self.id, key, detail[:2500]), flush=True)

    def log(self, *a):
        print('[%6.1fs]' % (time.time() - self.t0), *a, flush=True)

    def finish(self):
        cov = {'evaluations': self.evals, 'distinct_nontrivial': len(self.distinct), 'rule': self.rule, 'samples': self.samples[:6], 'observed': self.counters}
        cov.update(self.extra)
        ev = {'property': self.id, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick', 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viols)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.id + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write('\n')
        for text, n in sorted(self.known_hit.items()):
            print('KNOWN-FINDING: property=%s %s (%d times)' % (self.id, text, n))
        if self.viols:
            rd = os.path.join(VERIF, 'replays')
            os.makedirs(rd, exist_ok=True)
            for i, (key, (detail, replay)) in enumerate(sorted(self.viols.items())[:5]):
                p = os.path.join(rd, '%s-%d.txt' % (self.id, i))
                with open(p, 'w', errors='surrogateescape') as f:
                    f.write('property: %s\nseed: %d tier: %s\nkey: %s\n\n%s\n\nreplay:\n%s\n' % (self.id, self.seed, self.tier, key, detail, replay or 'run the check again with the same VERIF_SEED'))
                print('VIOLATION property=%s replay=%s' % (self.id, p))
            return 1
        if self.evals == 0 or not self.distinct:
            print('HARNESS: nothing was observed')
            return 2
        print('OK property=%s evaluations=%d distinct=%d wall=%.1fs' % (self.id, self.evals, len(self.distinct), time.time() - self.t0))
        return 0


def load_known(pid):
    """Lines: 'known: property=<id> match=<json string> <text>'; lines starting with 'fixed:' suppress nothing."""
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) match=("(?:[^"\\]|\\.)*") (.*)', line)
            if m and m.group(1) == pid:
                out.append((json.loads(m.group(2)), m.group(3).strip()))
    return out


def watch(c):
    """A check that has found a violation need not run to its end"""
    while True:
        time.sleep(1)
        if c.viols and not c.thorough and (time.time() - c.t0 > 600 or time.time() - c.first > 150):
            c.log('stopped after the first violations')
            rc = c.finish()
            sys.stdout.flush()
            for p in list(CHILDREN):
                try:
                    os.killpg(p, signal.SIGKILL)
                except OSError:
                    pass
            if not os.environ.get('VP_KEEP'):
                shutil.rmtree(c.work, True)
            os._exit(rc)


def main(fn, pid, **kw):
    c = Check(pid, **kw)
    threading.Thread(target=watch, args=(c,), daemon=True).start()
    try:
        fn(c)
        rc = c.finish()
    except HarnessError as e:
        print('HARNESS: %s' % e)
        rc = 1 if c.viols and c.finish() == 1 else 2
    sys.stdout.flush()
    sys.exit(rc)


#
# Builds
#
def tree_hash():
    h = hashlib.blake2b(digest_size=8)
    for base in ('source', 'include', 'CMakeLists.txt'):
        p = os.path.join(REPO, base)
        for d, dirs, files in ([(REPO, [], [base])] if os.path.isfile(p) else os.walk(p)):
            dirs.sort()
            for f in sorted(files):
                q = os.path.join(d, f)
                h.update(os.path.relpath(q, REPO).encode() + b'\0')
                with open(q, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()


def build_protogen(c, name, cxx='g++', flags=(), targets=('protogen',), build_type='Release', opt='-O1', src=None):
    """Builds with the project's own CMake files, out of tree; returns the build directory"""
    cache = os.environ.get('VP_CACHE') if not src else None      # for development only
    d = c.path(name, 'x')[:-2]
    key = None
    if cache:
        key = os.path.join(cache, hashlib.blake2b(repr((tree_hash(), name, cxx, flags, targets, build_type, opt)).encode(), digest_size=8).hexdigest())
        if os.path.exists(key):
            return key
        d = key + '.tmp%d' % os.getpid()
        os.makedirs(d)
    wrapper = os.path.join(d, 'cxx')
    with open(wrapper, 'w') as f:
        f.write('#!/bin/sh\nexec %s "$@" %s\n' % (cxx, ' '.join([opt] + list(flags))))
    os.chmod(wrapper, 0o755)
    b = os.path.join(d, 'b')
    env = dict(ENV, ASAN_OPTIONS='detect_leaks=0')
    r = run(['cmake', '-S', src or REPO, '-B', b, '-DCMAKE_CXX_COMPILER=' + wrapper, '-DCMAKE_BUILD_TYPE=' + build_type], env=env, timeout=300)
    if r.rc != 0:
        raise HarnessError('cmake failed: ' + r.out[-2000:] + r.err[-2000:])
    r = run(['cmake', '--build', b, '-j', str(JOBS), '--target'] + list(targets), env=env, timeout=600)
    if r.rc != 0:
        raise HarnessError('build failed: ' + r.out[-3000:] + r.err[-3000:])
    if cache:
        os.rename(d, key)
        d = key
    return d


def compiler(c):
    """The plain protogen executable"""
    return os.path.join(build_protogen(c, 'plain', opt='-O0'), 'b', 'protogen')


def generate(c, protogen, proto, header, timeout=60):
    r = run([protogen, proto, header], timeout=timeout)
    return r


def runtime_namespace(header):
    with open(header, errors='surrogateescape') as f:
        m = re.search(r'namespace\s+(protogen_\d+_\d+_\d+)', f.read())
    if not m:
        raise HarnessError('no runtime namespace in ' + header)
    return m.group(1)


def cxx(c, args, what, timeout=600):
    r = run(args, timeout=timeout)
    if r.timeout:
        raise HarnessError('compiler timed out: ' + what)
    return r


CORE = ('ref', 'gen', 'mon')


def build_core(c, flags=ASAN, defines=()):
    """Objects of the schema independent part of the monitors (own code only, so it may be cached while developing)"""
    cache = os.environ.get('VP_CACHE')
    d = c.path('core-' + hashlib.blake2b(repr((flags, defines)).encode(), digest_size=4).hexdigest(), 'x')[:-2]
    if cache:
        h = hashlib.blake2b(digest_size=8)
        for f in sorted(os.listdir(HARNESS)):
            with open(os.path.join(HARNESS, f), 'rb') as fh:
                h.update(fh.read())
        h.update(repr((flags, defines)).encode())
        d = os.path.join(cache, 'core-' + h.hexdigest())
        os.makedirs(d, exist_ok=True)

    def one(n):
        o = os.path.join(d, n + '.o')
        if os.path.exists(o):
            return o
        r = cxx(c, ['clang++', '-std=c++17', '-O1', '-g1', '-I', HARNESS, '-c', os.path.join(HARNESS, n + '.cc'), '-o', o + '.tmp'] + list(flags) + list(defines), n)
        if r.rc != 0:
            raise HarnessError('monitor does not compile: ' + r.err[-3000:])
        os.rename(o + '.tmp', o)
        return o
    return one


def build_monitor(c, schemas, flags=ASAN, std='c++11', opt='-O0', core=CORE, defines=(), bind_flags=(), link_flags=(), name='m', paths=None, combine=None, cxxs=None):
    """Generates the headers of the schemas and links the monitor program with them. A rejected schema or a header that
    does not compile is a violation by itself (C20), here reported as 'cannot be used'.
    paths: other places of the schema files; combine: random source, every source file then includes all headers in some order; cxxs: compilers"""
    import schema as S
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        one = build_core(c, flags, defines)
        fut = [ex.submit(one, n) for n in core]
        pg = compiler(c)

        def gen(s):
            proto, hdr = (c.path(name, (paths or {}).get(s.name, s.name) + e) for e in ('.proto', '.pg.hh'))
            with open(proto, 'w', encoding='utf-8', errors='surrogateescape') as f:
                f.write(S.proto_text(s))
            r = generate(c, pg, proto, hdr)
            if r.rc != 0:
                return None, 'schema rejected: ' + r.err + '\n' + S.proto_text(s)
            return hdr, None

        def bind(s, hdr, err, prefix, comp):
            if err:
                return s, None, err
            cc, obj = (c.path(name, 'bind-' + s.name + e) for e in ('.cc', '.o'))
            try:
                ns = runtime_namespace(hdr)
            except HarnessError as e:
                return s, None, str(e)
            with open(cc, 'w') as f:
                f.write(prefix + S.bind_text(s, hdr, ns))
            r = cxx(c, [comp, '-std=' + std, opt, '-g1', '-I', HARNESS, '-c', cc, '-o', obj] + list(flags) + list(bind_flags), s.name)
            if r.rc != 0:
                return s, None, 'the generated header does not compile or lacks the documented members: ' + r.err[:3000] + '\n' + prefix + '\n' + S.proto_text(s)
            return s, obj, None
        hdrs = list(ex.map(gen, schemas))
        jobs = []
        for s, (hdr, err) in zip(schemas, hdrs):
            prefix = ''
            if combine:
                all = [h for h, e in hdrs if h]
                all += combine.choices(all, k=combine.randint(0, len(all)))
                combine.shuffle(all)
                prefix = ''.join('#include "%s"\n' % h for h in all)
            jobs.append((s, hdr, err, prefix, combine.choice(cxxs) if combine and cxxs else cxxs[len(jobs) % len(cxxs)] if cxxs else 'clang++'))
        res = list(ex.map(lambda j: bind(*j), jobs))
        core_objs = [f.result() for f in fut]
    c.headers = [h for h, e in hdrs if h]
    objs = []
    for s, obj, err in res:
        if err:
            c.violation('a schema cannot be used', err, 'schema %s\n%s' % (s.name, S.proto_text(s)))
        else:
            objs.append(obj)
    if not objs:
        return None
    exe = c.path(name, 'monitor')
    r = cxx(c, ['clang++', '-o', exe] + core_objs + objs + list(flags) + list(link_flags), 'link')
    if r.rc != 0:
        c.violation('generated headers cannot be linked together', r.err[:3000])
        return None
    return exe

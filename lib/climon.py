"""C25, C26 and C28: the compiler as a program, and the embedding of the runtime into it."""
import os, random, re, shutil, subprocess, threading, time
from core import *
import schema as S
import protomon as P

#
# C25
#
ERRNOS = {
    'openat': ['EACCES', 'EMFILE', 'ENOENT', 'EIO', 'EINTR'], 'open': ['EACCES', 'EMFILE', 'EIO'], 'creat': ['EACCES', 'ENOSPC'],
    'read': ['EIO', 'EINTR', 'EAGAIN', 'EISDIR'], 'readv': ['EIO', 'EINTR'], 'pread64': ['EIO'], 'preadv': ['EIO'], 'mmap': ['ENODEV'],
    'write': ['ENOSPC', 'EIO', 'EINTR', 'EDQUOT', 'EFBIG'], 'writev': ['ENOSPC', 'EIO', 'EINTR', 'EDQUOT', 'EFBIG'], 'pwrite64': ['ENOSPC'], 'copy_file_range': ['ENOSPC'], 'sendfile': ['ENOSPC'],
    'close': ['EIO', 'ENOSPC', 'EDQUOT'], 'lseek': ['EIO'], 'fsync': ['EIO'], 'fdatasync': ['EIO'], 'ftruncate': ['EIO'], 'fallocate': ['ENOSPC'],
    'rename': ['EACCES', 'ENOSPC'], 'renameat': ['EACCES'], 'renameat2': ['EACCES'], 'fstat': ['EIO'], 'newfstatat': ['EIO'], 'statx': ['EIO'], 'stat': ['EIO'], 'lstat': ['EIO'],
    'readlink': ['EIO', 'EACCES'], 'readlinkat': ['EIO'], 'getcwd': ['ENOENT'], 'fcntl': ['EMFILE'], 'dup': ['EMFILE'], 'dup2': ['EMFILE'], 'fchmod': ['EPERM'], 'flock': ['EIO'],
}


def strace_log(path):
    """[(name, number of that name, line)] of the calls of the program"""
    out, n = [], {}
    with open(path, errors='replace') as f:
        for line in f:
            m = re.match(r'(?:\d+ +)?(\w+)\((.*)', line)
            if m:
                n[m.group(1)] = n.get(m.group(1), 0) + 1
                out.append((m.group(1), n[m.group(1)], line))
    return out


def big_schema(r, n):
    return b'syntax = "proto3";\npackage big;\n' + b''.join(b'message Msg%d {\n%s}\n' % (i, b''.join(b'    %s field_%d_%d = %d;\n' % (r.choice(S.SCALARS).encode(), i, k, k + 1) for k in range(8))) for i in range(n))


class Cli:
    """One schema in a directory of its own, with the header a run without faults writes"""
    def __init__(self, c, pg, name, text):
        self.c, self.pg, self.name, self.text = c, pg, name, text
        self.dir = c.path('cli', name, 'x')[:-2]
        self.proto = os.path.join(self.dir, 'in.proto')
        with open(self.proto, 'wb') as f:
            f.write(text)
        x = run([pg, self.proto, os.path.join(self.dir, 'ref.hh')], timeout=60)
        self.valid = x.rc == 0
        self.err = x.err
        self.ref = None
        if self.valid and not os.path.isfile(os.path.join(self.dir, 'ref.hh')):
            c.violation('exit status 0 without a header', 'schema %s: exit status 0 and no output file, stderr %r' % (name, x.err[:300]), text.decode('utf-8', 'replace'))
            self.valid = False
        if self.valid:
            with open(os.path.join(self.dir, 'ref.hh'), 'rb') as f:
                self.ref = f.read()

    def expect(self, what, rc, out, err, old, touched, stderr_ok=True, message=True, timeout=False, signal_ok=False):
        """out: contents of the output afterwards (None: no file); old: before (None: none, False: not a file);
        touched: the output itself was at fault, so that its contents may be lost"""
        c = self.c
        c.seen('%s | %s' % (self.name, what), True)
        c.count('exit status %s' % ('0' if rc == 0 else 'non-zero'))
        detail = '%s, schema %s: exit status %s, %s, stderr %r' % (what, self.name, rc, 'no output' if out is None else 'output of %d bytes' % len(out), (err or '')[:300])
        rep = '%s\nschema %s:\n%s' % (what, self.name, self.text[:3000].decode('utf-8', 'replace'))
        kind = re.sub(r'\d+', 'N', what.split(':')[0])
        if timeout:
            return c.violation('%s: the compiler does not end' % kind, detail, rep)
        if rc == 0:
            if not self.valid:
                c.violation('%s: success for a rejected schema' % kind, detail, rep)
            elif out is not None and out != self.ref:
                c.violation('%s: success without the complete header' % kind, detail + ', expected %d bytes' % len(self.ref), rep)
            elif out is None and old is not False:
                c.violation('%s: success without a header' % kind, detail, rep)
        else:
            if rc < 0 and not signal_ok:
                c.violation('%s: the compiler is ended by a signal' % kind, detail, rep)
            if message and stderr_ok and not (err or '').strip() and not (rc < 0 and signal_ok):
                c.violation('%s: failure without a message' % kind, detail, rep)
            if 'terminate called' in (err or ''):
                c.violation('%s: uncaught exception' % kind, detail, rep)
            if not touched and old is not False and out != old:
                c.violation('%s: the existing output does not survive a failure' % kind if old is not None else '%s: output created by a failing run' % kind, detail, rep)


def read(p):
    try:
        with open(p, 'rb') as f:
            return f.read()
    except FileNotFoundError:
        return None


def c25(c):
    pg = compiler(c)
    if run(['strace', '-f', '-qq', '-o', c.path('st'), '-e', 'trace=read', pg], timeout=30).rc in (126, 127) or not os.path.exists(c.path('st')):
        raise HarnessError('strace does not work here')
    r = random.Random('c25/%d' % c.seed)
    H = b'syntax = "proto3";\n'
    small = S.proto_text(S.sink()).encode()
    big = big_schema(r, 300)
    cut = lambda b, n: b[:n].rsplit(b';', 1)[0]
    clis = [Cli(c, pg, n, t) for n, t in [
        ('small', small), ('tiny', H), ('big', big), ('one', H + b'message A { repeated bytes b = 1; }\n'),
        ('random', P.layout(r, S.proto_tokens(S.random_schema(r, 'x', max_messages=9)))),
        ('wrong at once', b'message'), ('empty', b''), ('not a schema', bytes(r.randrange(256) for _ in range(20000))),
        ('wrong at the end', small + b'\n}'), ('big, wrong at the end', big + b'\nmessage Z { Q q = 1; '), ('cut', cut(big, len(big) // 2)), ('cut short', cut(small, 200)),
        ('unknown type', small + b'\nmessage Z { Q q = 1; }\n'), ('circle', H + b'message A { A a = 1; }\n'), ('bad name', H + b'message A { int32 class = 1; }\n'),
        ('bad option', H + b'message A { int32 a = 1 [transient = 5]; }\n'), ('repeated number', H + b'message A { int32 a = 1; int32 b = 1; }\n'),
        ('circle in two', H + b'message A { B a = 1; }\nmessage B { repeated A a = 1; }\n'), ('65 fields', H + b'message A {' + b''.join(b'int32 f%d = %d;' % (i, i + 1) for i in range(65)) + b'}'),
        ('keyword as message', H + b'message int { int32 a = 1; }\n'), ('ill-typed option', H + b'option obfuscate_strings = "yes";\nmessage A { int32 a = 1; }\n'),
    ]]
    for k in clis:
        if k.valid != (k.name in ('small', 'tiny', 'big', 'one', 'random', 'empty')):
            # the other checks judge which schemas are accepted
            c.count('schemas not treated as expected')
    valid = [k for k in clis if k.valid]
    if not valid:
        raise HarnessError('no schema is accepted: ' + clis[0].err)
    longer = b'previous contents\n' * 60000
    seq = [0]
    lock = threading.Lock()

    def fresh(old):
        with lock:
            seq[0] += 1
            p = c.path('out', '%d' % seq[0])
        if old is not None:
            with open(p, 'wb') as f:
                f.write(old)
        return p

    # 1: no fault: every schema against missing, short and long existing outputs
    jobs = []
    for k in clis:
        for old in (None, b'', b'x', longer, (k.ref or b'zz')[:-1], k.ref or b'y'):
            for mode in ('file', 'stdout'):
                jobs.append((k, old, mode))

    def plain(j):
        k, old, mode = j
        p = fresh(old)
        if mode == 'file':
            x = run([pg, k.proto, p], timeout=60)
            k.expect('no fault, output file: previously %s' % (None if old is None else len(old)), x.rc, read(p), x.err, old, False, timeout=x.timeout)
            if k.valid and x.rc != 0:
                c.violation('failure without a fault', x.err, k.name)
        else:
            x = run([pg, k.proto], timeout=60, text=False)
            err = x.err.decode('utf-8', 'replace')
            k.expect('no fault, stdout', x.rc, x.out, err, False, True, timeout=x.timeout)
            if x.rc and x.out.strip() and not k.valid:
                c.count('rejected schemas with some text on stdout')
        if os.path.exists(p):
            os.unlink(p)
    parallel(plain, jobs)
    c.log('plain runs')

    # 2: impossible inputs and outputs
    d = c.path('odd', 'x')[:-2]
    os.makedirs(d + '/dir/full'), os.makedirs(d + '/empty')
    with open(d + '/file', 'w') as f:
        f.write('keep')
    os.symlink('loop', d + '/loop'), os.symlink('nowhere/x', d + '/dangling')
    for name, path in [('directory', d + '/dir'), ('missing', d + '/none.proto'), ('below a file', d + '/file/x.proto'), ('link loop', d + '/loop'), ('dangling link', d + '/dangling'), ('long name', d + '/' + 'n' * 300), ('no name', ''),
                       ('long path', d + '/x' * 3000), ('memory', '/proc/self/mem'), ('directory with slash', d + '/dir/'), ('file with slash', d + '/file/')]:
        for old in (None, b'old'):
            p = fresh(old)
            x = run([pg, path, p], timeout=30)
            out = read(p)
            c.seen('input %s %r' % (name, old), True)
            c.count('inputs that cannot be read')
            if x.rc == 0 or x.rc < 0 or not x.err.strip() or out != old or x.timeout:
                c.violation('input that cannot be read (%s): %s' % (name, 'success' if x.rc == 0 else 'no message' if not x.err.strip() else 'output not kept'), 'status %s, stderr %r, output %r' % (x.rc, x.err[:300], (out or b'')[:80]), 'input: ' + path)
            x = run([pg, path], timeout=30)
            if x.rc == 0 or x.rc < 0 or not x.err.strip() or x.timeout:
                c.violation('input that cannot be read (%s), stdout' % name, 'status %s, stderr %r' % (x.rc, x.err[:300]), 'input: ' + path)
    for k in valid:
        for name, path in [('directory', d + '/dir'), ('directory that is not empty', d), ('in a missing directory', d + '/none/x'), ('below a file', d + '/file/x'), ('link loop', d + '/loop'), ('dangling link', d + '/dangling'), ('long name', d + '/' + 'n' * 300),
                           ('no name', ''), ('full device', '/dev/full'), ('long path', d + '/x' * 3000), ('with a slash', d + '/new/')]:
            x = run([pg, k.proto, path], timeout=30)
            c.seen('output %s %s' % (k.name, name), True)
            c.count('outputs that cannot be written')
            if x.rc == 0 or x.rc < 0 or not x.err.strip() or x.timeout:
                c.violation('output that cannot be written (%s): %s' % (name, 'success' if x.rc == 0 else 'no message'), 'status %s, stderr %r' % (x.rc, x.err[:300]), 'schema %s output: %s' % (k.name, path))
    if read(d + '/file') != b'keep':
        c.violation('another file is changed', '', '')
    for args in ([], ['a', 'b', 'c'], [clis[0].proto, d + '/e1', d + '/e2']):
        x = run([pg] + args, timeout=30)
        c.seen('arguments %d' % len(args), True)
        if x.rc == 0 or x.rc < 0 or not x.err.strip() or os.path.exists(d + '/e1'):
            c.violation('wrong number of arguments', 'status %s stderr %r' % (x.rc, x.err[:300]), ' '.join(args))
    c.log('odd paths')

    # 3: descriptors closed, full devices, broken pipes, limited file sizes
    jobs = []
    for k in clis:
        for closed in ('0', '1', '2', '01', '02', '12', '012'):
            for old in (None, longer):
                jobs.append((k, 'closed', closed, old))
        for mode in ('full stdout', 'full stderr', 'read-only stdout'):
            jobs.append((k, mode, 0, None))
    for k in valid:
        n = len(k.ref)
        for lim in sorted(set([0, 1, 2, 100, 511, 512, 1023, 1024, 4095, 4096, 4097, 8191, 8192, n - 4096, n - 1, n - 2, n, n + 1, n // 2] + [r.randrange(n + 1) for _ in range(60 if c.thorough else 8)])):
            if lim >= 0:
                jobs.append((k, 'file size', lim, r.choice([None, b'old', longer])))
                jobs.append((k, 'stdout file size', lim, None))
        for lim in sorted(set([0, 1, 4096, 65535, 65536, 65537, n - 1, n] + [r.randrange(n + 1) for _ in range(20 if c.thorough else 4)])):
            for default in (False, True):
                jobs.append((k, 'pipe', lim, default))

    def limits(j):
        k, mode, x, old = j
        if mode == 'closed':
            p = fresh(old)
            sh = 'exec "$@" ' + ' '.join(f + '>&-' if f != '0' else '0<&-' for f in x)
            y = run(['sh', '-c', sh, 'sh', pg, k.proto, p], timeout=60)
            k.expect('closed descriptors %s, output file' % x, y.rc, read(p), y.err, old, False, stderr_ok='2' not in x, timeout=y.timeout)
            if k.valid and y.rc != 0:
                c.count('failures because a standard descriptor is closed')
            if os.path.exists(p):
                os.unlink(p)
            y = run(['sh', '-c', sh, 'sh', pg, k.proto], timeout=60, text=False)
            if '1' in x:
                if y.rc == 0 or (y.rc > 0 and '2' not in x and not y.err.strip()):
                    c.violation('success or silence though stdout is closed', 'closed %s schema %s: status %s stderr %r' % (x, k.name, y.rc, y.err[:200]), k.name)
            else:
                k.expect('closed descriptors %s, stdout' % x, y.rc, y.out, y.err.decode('utf-8', 'replace'), False, True, stderr_ok='2' not in x, timeout=y.timeout)
        elif mode in ('full stdout', 'read-only stdout'):
            sh = 'exec "$@" %s' % ('>/dev/full' if mode[0] == 'f' else '1</dev/null')
            y = run(['sh', '-c', sh, 'sh', pg, k.proto], timeout=60)
            c.seen(mode + k.name, True)
            if y.rc <= 0 or not y.err.strip():
                c.violation('%s: success or no message' % mode, 'schema %s: status %s stderr %r' % (k.name, y.rc, y.err[:200]), k.name)
        elif mode == 'full stderr':
            p = fresh(b'old')
            y = run(['sh', '-c', 'exec "$@" 2>/dev/full', 'sh', pg, k.proto, p], timeout=60)
            k.expect('full stderr, output file', y.rc, read(p), '', b'old', False, stderr_ok=False, timeout=y.timeout)
            os.unlink(p)
        elif mode == 'file size':
            p = fresh(old)
            y = run([pg, k.proto, p], timeout=60, limit_fsize=x)
            k.expect('limited file size, output file: limit %d of %d' % (x, len(k.ref)), y.rc, read(p), y.err, old, True, timeout=y.timeout)
            if x >= len(k.ref) and y.rc != 0:
                c.violation('failure although the header fits', y.err, k.name)
            os.unlink(p) if os.path.exists(p) else None
        elif mode == 'stdout file size':
            p = fresh(None)
            y = run(['sh', '-c', 'exec "$@" >' + p, 'sh', pg, k.proto], timeout=60, limit_fsize=x)
            k.expect('limited file size, stdout: limit %d of %d' % (x, len(k.ref)), y.rc, read(p), y.err, False, True, timeout=y.timeout)
            os.unlink(p) if os.path.exists(p) else None
        elif mode == 'pipe':
            rd, wr = os.pipe()
            pr = subprocess.Popen([pg, k.proto], stdin=subprocess.DEVNULL, stdout=wr, stderr=subprocess.PIPE, env=ENV, restore_signals=bool(old))
            os.close(wr)
            got = b''
            while len(got) < x:
                b = os.read(rd, min(65536, x - len(got)))
                if not b:
                    break
                got += b
            os.close(rd)
            try:
                err = pr.communicate(timeout=60)[1].decode('utf-8', 'replace')
            except subprocess.TimeoutExpired:
                pr.kill()
                err = pr.communicate()[1].decode('utf-8', 'replace')
            # what lies in the pipe's own buffer counts as written
            out = k.ref if len(got) == x and len(k.ref) - x <= 65536 + 4096 and k.ref.startswith(got) else got
            k.expect('pipe closed by the reader%s: after %d of %d' % (' with SIGPIPE' if old else '', x, len(k.ref)), pr.returncode, out, err, False, True, signal_ok=bool(old))
    parallel(limits, jobs)
    c.log('limits')

    # 4: every system call fails in turn
    jobs = []
    faulty = valid + [k for k in clis if k.name in ('big, wrong at the end', 'unknown type', 'circle', 'cut', 'bad option')]

    def calls(a):
        k, mode = a
        lg = c.path('log', '%s-%s' % (k.name.replace(' ', '_'), mode))
        p = fresh(None)
        cmd = ['strace', '-f', '-qq', '-y', '-o', lg, '-s', '8', pg, k.proto] + ([p] if mode == 'file' else [])
        if mode == 'stdout file':
            cmd = ['sh', '-c', 'exec "$@" >' + p, 'sh'] + cmd
        x = run(cmd, timeout=100, text=False)
        if not os.path.exists(lg):
            raise HarnessError('strace: %r' % x.err)
        log = strace_log(lg)
        first = next((i for i, l in enumerate(log) if k.proto in l[2] and not l[0].startswith('exec')), None)
        if first is None:
            raise HarnessError('the log of system calls never mentions the input')
        return [(k, mode, name, n, line, os.path.basename(p)) for name, n, line in log[first:] if name in ERRNOS and (name != 'mmap' or k.proto in line)]
    for l in parallel(calls, [(k, m) for k in faulty for m in ('file', 'stdout file', 'stdout pipe')]):
        per = {}
        for k, mode, name, n, line, base in l:
            per.setdefault(name, []).append((k, mode, name, n, line, base))
        for name, calls_ in per.items():
            c.count('calls of %s that can fail' % name, len(calls_))
            pick = calls_
            if len(pick) > 12 and not c.thorough:
                pick = calls_[:4] + r.sample(calls_[4:-4], 4) + calls_[-4:]
            for call in pick:
                for e in ERRNOS[name] if c.thorough else ERRNOS[name][:1] + r.sample(ERRNOS[name][1:], min(1, len(ERRNOS[name]) - 1)):
                    for more in ('', '+'):
                        if more and e == 'EINTR':
                            continue        # may be retried for ever
                        jobs.append(call + (e, more))
    c.log(len(jobs), 'faults')

    def fault(j):
        k, mode, name, n, line, base, e, more = j
        old = r.choice([None, b'old contents\n', longer]) if mode == 'file' else None
        p = fresh(old)
        lg = p + '.log'
        cmd = ['strace', '-f', '-qq', '-y', '-o', lg, '-s', '8', '-e', 'trace=' + name, '-e', 'inject=%s:error=%s:when=%d%s' % (name, e, n, more), pg, k.proto] + ([p] if mode == 'file' else [])
        if mode == 'stdout file':
            cmd = ['sh', '-c', 'exec "$@" >' + p, 'sh'] + cmd
        x = run(cmd, timeout=60, text=False)
        log = open(lg, errors='replace').read() if os.path.exists(lg) else ''
        inj = [l for l in log.split('\n') if '(INJECTED)' in l]
        if not inj:
            c.count('faults that did not happen')
        out = read(p) if mode != 'stdout pipe' else x.out
        # the output may be lost only if it was the output that failed
        atout = any(os.path.basename(p) in l or (mode != 'file' and '<pipe' in l) for l in inj)
        aterr = any(re.search(r'\(2<', l) or '(2,' in l for l in inj)
        c.count('faults in %s' % name)
        what = '%s fails with %s%s, %s: call %d, %s' % (name, e, ' from then on' if more else '', mode, n, re.sub(r'\S*/', '', line.strip())[:100])
        k.expect(what, x.rc, out, x.err.decode('utf-8', 'replace'), old if mode == 'file' else False, atout, stderr_ok=not aterr, timeout=x.timeout)
        for f in (p, lg):
            if os.path.exists(f):
                os.unlink(f)
    parallel(fault, jobs)
    if not any(n.startswith('faults in write') for n in c.counters) or not c.counters.get('faults in read'):
        raise HarnessError('no fault was injected')
    c.log('faults')

    # 5: every allocation fails in turn
    so = c.path('oom.so')
    x = cxx(c, ['gcc', '-O1', '-shared', '-fPIC', os.path.join(HARNESS, 'oom.c'), '-o', so], 'oom')
    if x.rc != 0:
        raise HarnessError(x.err)
    lg = c.path('oom.log')

    def allocations(args):
        x = run([pg] + args, timeout=60, env=dict(ENV, LD_PRELOAD=so, OOM_LOG=lg))
        if not os.path.exists(lg):
            return None
        n = int(open(lg).read().split()[0])
        os.unlink(lg)
        return n
    start = allocations([])
    if start is None:
        # a statically linked or otherwise different program
        raise HarnessError('allocations can not be counted')
    jobs = []
    for k in clis:
        for mode in ('file', 'stdout file'):
            n = allocations([k.proto] + ([fresh(None)] if mode == 'file' else [])) - start
            ks = set(range(1, n + 1))
            most = 3000 if c.thorough else 90
            if n > most:
                ks = set(range(1, most // 3)) | set(range(n - most // 3, n + 1)) | set(r.randint(1, n) for _ in range(most // 3))
            jobs += [(k, mode, a, start + a, m) for a in sorted(ks) for m in (('0', '1') if a % 3 == 0 or c.thorough else ('0',))]
    c.log(len(jobs), 'failing allocations')

    def memory(j):
        k, mode, a, at, more = j
        old = [None, b'old contents\n', longer][at % 3] if mode == 'file' else None
        p = fresh(old)
        env = dict(ENV, LD_PRELOAD=so, OOM_AT=str(at), OOM_MORE=more, OOM_LOG=p + '.oom')
        cmd = [pg, k.proto] + ([p] if mode == 'file' else [])
        if mode == 'stdout file':
            cmd = ['sh', '-c', 'exec env LD_PRELOAD=%s "$@" >%s' % (so, p), 'sh'] + cmd
            del env['LD_PRELOAD']
        x = run(cmd, timeout=60, env=env, text=False)
        try:
            hit = int(open(p + '.oom').read().split()[1])
        except (OSError, ValueError):
            hit = 1         # did not come to its regular end
        c.count('allocations that failed' if hit else 'allocations that were not made')
        if hit and x.rc == 0:
            c.count('allocations that failed without consequences')
        k.expect('out of memory%s, %s: allocation %d' % (' from then on' if more == '1' else '', mode, a), x.rc, read(p), x.err.decode('utf-8', 'replace'), old if mode == 'file' else False, k.valid, timeout=x.timeout)
        for f in (p, p + '.oom'):
            if os.path.exists(f):
                os.unlink(f)
    parallel(memory, jobs)
    if not c.counters.get('allocations that failed'):
        raise HarnessError('no allocation failed')
    c.log('allocations')

    # 6: inputs that arrive in pieces
    for k in [x for x in clis if len(x.text) > 300][:8]:
        p = os.path.join(k.dir, 'fifo', 'in.proto')
        os.makedirs(os.path.dirname(p))
        with open(p, 'wb') as f:
            f.write(k.text)
        run([pg, p, p + '.hh'], timeout=60)
        want = read(p + '.hh')
        os.unlink(p)
        os.mkfifo(p)
        for piece in (1, 7, 4096, 100000):
            out = fresh(None)
            pr = subprocess.Popen([pg, p, out], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=ENV)

            def feed():
                try:
                    with open(p, 'wb', buffering=0) as f:
                        for i in range(0, len(k.text), piece):
                            f.write(k.text[i:i + piece])
                except BrokenPipeError:
                    pass
            t = threading.Thread(target=feed, daemon=True)
            t.start()
            try:
                pr.communicate(timeout=60)
            except subprocess.TimeoutExpired:
                pr.kill()
                pr.communicate()
            fd = os.open(p, os.O_RDONLY | os.O_NONBLOCK)        # never leave the feeder waiting
            t.join(10)
            os.close(fd)
            got = read(out)
            c.seen('fifo %s %d' % (k.name, piece), True)
            c.count('inputs from a FIFO')
            if (pr.returncode == 0) != k.valid or got != want:
                c.violation('input from a FIFO: %s' % ('another header' if pr.returncode == 0 else 'failure'), 'schema %s in pieces of %d: status %s, %s bytes instead of %s' % (k.name, piece, pr.returncode, got and len(got), want and len(want)), k.name)


#
# C26
#
def chaos_library(c):
    so = c.path('chaos.so')
    x = cxx(c, ['gcc', '-O1', '-shared', '-fPIC', os.path.join(HARNESS, 'chaos.c'), '-o', so, '-ldl'], 'chaos')
    if x.rc != 0:
        raise HarnessError(x.err)
    return so


def fnv(b):
    h = 0xCBF29CE484222325
    for x in b:
        h = (h ^ x) * 0x100000001B3 & 0xFFFFFFFFFFFFFFFF
    return '%x' % h


def c26_library(c, r, made):
    """The library gives the text of the program, whatever the same process and generator did before and whatever the global C++ locale is"""
    exe = P.batch_exe(c)
    want = dict((p, fnv(base.out) if base.rc == 0 else None) for _, _, p, base in made)

    def one(k):
        r = random.Random('lib/%d/%d' % (c.seed, k))
        items = made * 2
        r.shuffle(items)
        f = c.path('lib-%d' % k)
        with open(f, 'wb') as out:
            for _, text, p, _ in items:
                out.write(b'%d %d %s\n' % (len(text), P.SKIPWS | 2, os.fsencode(p)) + text)
        res = run([exe, f] + ['locale'] * (k % 2), timeout=300)
        out = []
        for l in res.out.split('\n'):
            if l:
                out.append(json.loads(l))
        return k, items, res, out
    for k, items, res, out in parallel(one, list(range(12 if c.thorough else 6))):
        how = 'one process, %s' % ('a global C++ locale with other digits' if k % 2 else 'any order')
        if len(out) != len(items) or res.rc != 0:
            c.violation('the library fails where the program does not', '%s: status %s after %d texts of %d: %s' % (how, res.rc, len(out), len(items), res.err[:1500]), how)
            continue
        for i, ((name, text, p, base), o) in enumerate(zip(items, out)):
            c.count('texts generated in a process with others')
            c.seen('%s %s %d %d' % (name, how, k, i), True)
            if o['ok'] != (base.rc == 0):
                c.violation('another outcome', '%s, %s: %r' % (name, how, o['error']), '%s after %r' % (how, [x[0] for x in items[:i]]))
            elif o['ok'] and o['digest'] != want[p]:
                c.violation('another text', '%s, %s: %d bytes instead of %d' % (name, how, o['bytes'], len(base.out)), '%s after %r' % (how, [x[0] for x in items[:i]]))


def c26(c):
    import checks
    pg = compiler(c)
    so = chaos_library(c)
    loc, names = checks.make_locales(c)
    r = random.Random('c26/%d' % c.seed)
    texts = [(s.name, S.proto_text(s).encode()) for s in P.special_schemas()]
    for i in range(60 if c.thorough else 12):
        texts.append(('rnd%d' % i, P.layout(r, S.proto_tokens(S.random_schema(r, 'x', max_messages=r.choice([3, 12, 40]), max_fields=20)))))
    # numbers with many digits, many messages without and with references
    texts.append(('big', big_schema(r, 200)))
    n = 150
    ms = list(range(n))
    r.shuffle(ms)
    texts.append(('web', b'syntax = "proto3";\n' + b''.join(b'message W%d { %s }\n' % (i, b' '.join(b'W%d f%d = %d;' % (r.randrange(i), k, 536870911 - k) for k in range(r.randint(0, min(i, 4))))) for i in ms)))
    texts.append(('rejected', b'syntax = "proto3";\n' + b''.join(b'message W%d { X%d a = 1; Y%d b = 2; }\n' % (i, i, i) for i in ms)))
    texts.append(('circles', b'syntax = "proto3";\n' + b''.join(b'message W%d { W%d a = 1; W%d b = 2; }\n' % (i, (i * 7 + 3) % n, (i + 1) % n) for i in ms)))
    texts.append(('wrong', texts[0][1][:-5]))
    jobs, made = [], []
    for i, (name, text) in enumerate(texts):
        d = c.path('det', 'd%d' % i, 'x')[:-2]
        p = os.path.join(d, r.choice(['a.proto', 'with space.proto', 'ü.proto', 'x']))
        with open(p, 'wb') as f:
            f.write(text)
        os.makedirs(os.path.join(d, 'sub', 'deep'))
        base = run([pg, p], timeout=60, text=False, env=ENV)
        made.append((name, text, os.path.realpath(p), base))
        for k in range(60 if c.thorough else 14):
            jobs.append((name, d, p, base, k, r.randrange(1 << 30)))

    def one(j):
        name, d, p, base, k, seed = j
        r = random.Random(seed)
        env = r.choice([dict(ENV), {}, {'PATH': '/usr/bin:/bin'}, dict(ENV)])
        what = []
        if r.random() < 0.6:
            l = r.choice(names + ['C', 'POSIX', 'C.UTF-8', 'xx_XX', ''])
            for v in r.sample(['LC_ALL', 'LANG', 'LC_NUMERIC', 'LC_CTYPE', 'LC_COLLATE', 'LC_MESSAGES', 'LANGUAGE'], r.randint(1, 5)) if l else []:
                env[v] = l
            env['LOCPATH'] = loc
            what.append('locale ' + l)
        if r.random() < 0.5:
            for _ in range(r.choice([1, 5, 200])):
                env[r.choice(['HOME', 'USER', 'TZ', 'TMPDIR', 'SOURCE_DATE_EPOCH', 'PWD', 'OLDPWD', 'HOSTNAME', 'LOGNAME', 'COLUMNS', 'TERM', 'DEBUG', 'PROTOGEN', 'CXX', 'POSIXLY_CORRECT', 'SHELL', 'V%d' % r.randrange(1000)])] = r.choice(['', '1', '/', 'x' * r.randrange(3000), 'Asia/Tokyo', '0'])
            what.append('variables')
        if r.random() < 0.3:
            env['MALLOC_PERTURB_'] = str(r.randrange(256))
            what.append('filled memory')
        elif r.random() < 0.7:
            env['LD_PRELOAD'] = so
            env['CHAOS_SEED'] = str(seed)
            what.append('random addresses, clock, process number, user, terminal and variables')
        cwd = r.choice([d, '/', os.path.join(d, 'sub', 'deep'), os.path.dirname(d)])
        form = r.choice(['absolute', 'relative', 'dots'])
        q = p
        if form == 'relative':
            q = os.path.relpath(p, cwd)
        elif form == 'dots':
            q = os.path.join(d, 'sub', '.', '..', 'sub/../.', os.path.basename(p)).replace('/d', '//d', 1)
        what.append('%s path from %s' % (form, os.path.basename(cwd) or '/'))
        mode = r.choice(['file', 'file', 'stdout', 'stdout file', 'stdout append', 'link', 'fifo', 'pty'])
        old = r.choice([None, b'', b'old', b'\0' * 300000, base.out, base.out + base.out, base.out[:-1] + b'?', base.out[1:]])
        out = os.path.join(d, 'o%d' % k)
        if old is not None and mode in ('file', 'link', 'stdout file'):
            with open(out, 'wb') as f:
                f.write(old)
        what.append('to ' + mode)
        mask = r.choice([0o022, 0, 0o077])
        if r.random() < 0.5:
            os.utime(p, (r.randrange(1 << 31), r.choice([0, 1, r.randrange(1 << 31)])))
            os.chmod(p, r.choice([0o644, 0o600, 0o444, 0o755]))
            what.append('another date and mode of the schema')
        pre = lambda: os.umask(mask)
        cmd = [pg, q]
        if mode in ('file',):
            cmd.append(out if r.random() < 0.5 else os.path.relpath(out, cwd))
        elif mode == 'link':
            os.symlink(out, out + '.l')
            cmd.append(out + '.l')
        got = None
        stdin = r.choice([subprocess.DEVNULL, 'data'])
        if mode == 'fifo':
            os.mkfifo(out)
            cmd.append(out)
        so_ = subprocess.PIPE
        if mode in ('stdout file', 'stdout append'):
            so_ = open(out, 'wb' if mode == 'stdout file' else 'ab')
        if mode == 'pty':
            import pty, tty
            ma, sl = pty.openpty()
            tty.setraw(sl)
            so_ = sl
        pr = subprocess.Popen(cmd, stdin=subprocess.PIPE if stdin == 'data' else stdin, stdout=so_, stderr=subprocess.PIPE, cwd=cwd, env=env, preexec_fn=pre)
        chunks = []
        th = None
        if mode in ('fifo', 'pty'):
            if mode == 'pty':
                os.close(sl)
                fd = ma
            else:
                fd = os.open(out, os.O_RDONLY | os.O_NONBLOCK)

            def drain():
                end = time.time() + 60
                while time.time() < end:
                    try:
                        b = os.read(fd, 65536)
                    except BlockingIOError:
                        b = None
                    except OSError:
                        b = b''
                    if b:
                        chunks.append(b)
                    elif pr.poll() is not None and not b:
                        try:
                            b = os.read(fd, 65536)
                        except OSError:
                            b = b''
                        if not b:
                            break
                        chunks.append(b)
                    else:
                        time.sleep(0.002)
            th = threading.Thread(target=drain, daemon=True)
            th.start()
        try:
            o, e = pr.communicate(b'stdin text' if stdin == 'data' else None, timeout=60)
        except subprocess.TimeoutExpired:
            pr.kill()
            o, e = pr.communicate()
            e += b'(timeout)'
        if th:
            th.join(70)
            os.close(fd)
            got = b''.join(chunks)
        elif mode == 'stdout':
            got = o
        else:
            if hasattr(so_, 'close'):
                so_.close()
            got = read(out)
        for f in (out + '.l', out):
            if os.path.lexists(f):
                os.unlink(f)
        return name, what, pr.returncode, got, e, old if mode in ('file', 'link') else b'' if mode == 'stdout file' else None, base, mode
    for name, what, rc, got, err, old, base, mode in parallel(one, jobs):
        c.seen(name + ' ' + ', '.join(what), True)
        for w in what:
            c.count(w.split(' from ')[0] if 'path from' in w else w)
        c.count('generated bytes compared', len(got or b''))
        rep = 'schema %s: %s' % (name, ', '.join(what))
        if (rc == 0) != (base.rc == 0):
            c.violation('another exit status', '%s: %d instead of %d\n%r' % (rep, rc, base.rc, err[:400]), rep)
        elif base.rc != 0:
            if err != base.err:
                c.violation('another diagnostic', '%s: %r instead of %r' % (rep, err[:300], base.err[:300]), rep)
        elif got != base.out:
            at = next((i for i, (a, b) in enumerate(zip(got or b'', base.out)) if a != b), min(len(got or b''), len(base.out)))
            c.violation('another text', '%s: %d bytes instead of %d, differs at %d: %r instead of %r' % (rep, len(got or b''), len(base.out), at, (got or b'')[max(0, at - 40):at + 60], base.out[max(0, at - 40):at + 60]), rep)
    c.log('runs compared')
    c26_library(c, r, made)
    # what is printed never depends on memory that was not initialised
    def vg(a):
        i, (name, text) = a
        d = c.path('vg', '%d' % i, 'x')[:-2]
        p = os.path.join(d, 'a.proto')
        with open(p, 'wb') as f:
            f.write(text)
        return name, run(['valgrind', '-q', '--error-exitcode=77', '--leak-check=no', pg, p, os.path.join(d, 'o')], timeout=300)
    pick = [t for t in texts if len(t[1]) < 9000]
    pick = pick if c.thorough else r.sample(pick, 12)
    for name, x in parallel(vg, list(enumerate(pick))):
        c.seen('memcheck ' + name, True)
        c.count('runs under memcheck')
        if x.rc == 77 or 'uninitialised' in x.err:
            c.violation('memcheck reports an error', name + '\n' + x.err[:2500], name)


#
# C28
#
FRAGMENTS = [b'"', b'\\', b'??=', b'??/', b'??(', b'???', b'%:', b'<:', b'\t', b'//', b'/*', b'*/', b'#define X', b'R"(', b')"', b'\\n', b'\\x41', b'\\0', b'1', b'\\u0041', b"'", b'_X_Y_Z', b'_X_X_Y_Z', b'_X_Y_', b'AUTO-REMOVE', b'$1$', b'$', b'$x$', b'$$',
             b'%s', b'%d', b'%%', 'é'.encode(), '中'.encode(), '😀'.encode(), b'a', b'B7', b' ', b'  ', b'#', b'# AUTO-REMOVE', b'-', b'---', b'--- ', b'-----', b'"\\n" \\', b'\r', b'\x01', b'\x08', b'\x0b', b'\x0c', b'\x1b', b'\x7f', b'u8"', b'L"', b'{', b'}', b';', b'0', b'9', b'f']


def random_line(r, raw, no=()):
    k = r.random()
    if k < 0.1:
        return b''
    if k < 0.13:
        return r.choice(FRAGMENTS) * r.randint(100, 9000)
    out = b''
    while True:
        out += bytes([r.choice([x for x in range(1, 256) if x != 10])]) if raw and r.random() < 0.3 else r.choice(FRAGMENTS)
        if r.random() < 0.15:
            break
    if r.random() < 0.1:
        out += b'\\'
    return out


def embed(lines, version):
    """What an embedded file has to expand to"""
    out = b''
    for l in lines:
        if l.startswith(b'#') and b'AUTO-REMOVE' in l:
            continue
        out += l.replace(b'_X_Y_Z', version) + b'\n'
    return out


def lines_of(text):
    l = text.split(b'\n')
    return l[:-1] if l[-1] == b'' else l


def tabs(b):
    return b.replace(b'\t', b'    ')


def embedding_faults(c, tp, parts, r):
    """The embedding program ends with status 0 only if the output is complete"""
    big = c.path('embf', 'big.hh')
    with open(big, 'wb') as f:
        f.write(b''.join(b'// line %d %s\n' % (i, b'x' * (i % 90)) for i in range(1500)))
    bigt = c.path('embf', 'big.txt')
    with open(bigt, 'wb') as f:
        f.write(b''.join(b'--- S_%d\n' % i + b'text %d\n' % i * 40 + b'------\n' for i in range(60)))
    some = [big, bigt] + [p[0] for p in r.sample(parts, min(len(parts), 6))]
    jobs = []
    for n, p in enumerate(some):
        o = c.path('embf', 'o%d' % n)
        x = run([tp, p, o], timeout=60)
        if x.rc != 0 or not os.path.exists(o):
            continue        # reported elsewhere
        want = read(o)
        jobs.append((p, want, 'full', None, None))
        jobs.append((p, want, 'missing input', None, None))
        jobs.append((p, want, 'directory as input', None, None))
        jobs.append((p, want, 'output in no directory', None, None))
        lg = c.path('embf', 'l%d' % n)
        run(['strace', '-f', '-qq', '-y', '-o', lg, '-s', '8', tp, p, o], timeout=60)
        calls = {}
        for l in read(lg).decode('utf-8', 'replace').split('\n'):
            m = re.match(r'\d+ +(read|readv|write|writev|open|openat|close|pwrite64)\(', l)
            if m:
                calls.setdefault(m.group(1), []).append(l)
        for name, ls in sorted(calls.items()):
            for k, l in enumerate(ls):
                if p in l or o in l:
                    for e in ('EIO', 'ENOSPC') if 'write' in name else ('EIO',):
                        jobs.append((p, want, name, k + 1, e))
    if not any(j[3] for j in jobs):
        raise HarnessError('no calls of the embedding program seen')

    def one(a):
        i, (p, want, what, k, e) = a
        o = c.path('embf', 'f%d' % i)
        q, t = p, o
        cmd = [tp]
        if what == 'full':
            t = '/dev/full'
        elif what == 'missing input':
            q = p + '.none'
        elif what == 'directory as input':
            q = c.path('embf', 'dir%d.hh' % i)
            os.makedirs(q)
        elif what == 'output in no directory':
            t = c.path('embf', 'none%d' % i) + '/x'
        else:
            cmd = ['strace', '-f', '-qq', '-o', o + '.log', '-e', 'trace=' + what, '-e', 'inject=%s:error=%s:when=%d' % (what, e, k), tp]
        x = run(cmd + [q, t], timeout=60)
        got = read(t) if os.path.isfile(t) else None
        what = what if k is None else '%s %d fails with %s' % (what, k, e)
        if x.timeout:
            return ('the embedding program hangs', '%s: %s' % (os.path.basename(p), what), what)
        if x.rc == 0 and got != want:
            return ('the embedding program succeeds without a complete output', '%s: %s' % (os.path.basename(p), what), what)
    for j, v in zip(jobs, parallel(one, list(enumerate(jobs)))):
        c.seen(repr((os.path.basename(j[0]),) + j[2:]), True)
        c.count('failures of the embedding program')
        if v:
            c.violation(*v)


def c28(c):
    r = random.Random('c28/%d' % c.seed)
    d = build_protogen(c, 'template', targets=('template',), opt='-O0')
    tp = os.path.join(d, 'b', 'template')
    pg = compiler(c)
    x = run([pg])
    m = re.search(r'protogen (\d+)\.(\d+)\.(\d+)', x.err + x.out)
    if not m:
        raise HarnessError('the compiler does not tell its version')
    version = ('_%s_%s_%s' % m.groups()).encode()
    n = 1200 if c.thorough else 360
    # random files through the embedding program
    parts, want = [], []
    letters = 'abcdefghijklmnopqrstuvwxyz'
    for i in range(n):
        raw = r.random() < 0.5
        word = 'q' + ''.join(letters[int(ch)] for ch in str(i))
        sections = r.random() < 0.4
        lines = [random_line(r, raw) for _ in range(r.choice([0, 1, 2, 5, 20, 60]))]
        end = b'\n' if r.random() < 0.6 else b''
        if not sections:
            p = c.path('emb', word + '.hh')
            text = b'\n'.join(lines) + end
            if r.random() < 0.2:
                text = text.replace(b'\n', b'\r\n')
            macros = [('GENERATED__%s_hh' % word, embed(lines_of(text), version), b'\n')]
        else:
            p = c.path('emb', word + '.txt')
            text, macros = b'', []
            for k in range(r.randint(1, 5)):
                name = 'SEC_%d_%d' % (i, k)
                body = [l for l in (random_line(r, raw) for _ in range(r.choice([0, 1, 2, 9]))) if not l.startswith(b'------') and b'_X_Y_Z' not in l and b'AUTO-REMOVE' not in l]
                between = [l for l in (random_line(r, raw) for _ in range(r.choice([0, 1, 3]))) if not l.startswith(b'--- ')]
                text += b''.join(l + b'\n' for l in between) + b'--- ' + name.encode() + b'\n' + b''.join(l + b'\n' for l in body) + b'------' + r.choice([b'', b'----', b' end']) + b'\n'
                macros.append((name, b''.join(l + b'\n' for l in body), b''))
            if not end:
                text = text[:-1]
        with open(p, 'wb') as f:
            f.write(text)
        parts.append((p, text, macros))

    def conv(a):
        p = a[0]
        return run([tp, p, p + '.out'], timeout=60)
    for (p, text, macros), x in zip(parts, parallel(conv, parts)):
        c.seen(text, bool(text))
        c.count('files embedded')
        c.count('lines embedded', text.count(b'\n') + 1)
        if x.rc != 0 or not os.path.exists(p + '.out'):
            c.violation('the embedding program fails', 'status %s %s' % (x.rc, x.err[-400:]), repr(text[:3000]))
    parts = [p for p in parts if os.path.exists(p[0] + '.out')]
    embedding_faults(c, tp, parts, r)

    def prog(a):
        """one program for a share of the files; returns the violations"""
        k, comp, std = a
        mine = parts[k::4]
        cc = c.path('emb%d%s%s' % (k, comp, std), 'main.cc')

        def source(which):
            with open(cc, 'w') as f:
                f.write('#include <stdio.h>\n')
                for j, (p, text, macros) in enumerate(which):
                    f.write('#include "%s.out"\n' % p)
                    for i, (name, _, _) in enumerate(macros):
                        f.write('static const char t%d_%d[] = "" %s;\n' % (j, i, name))
                f.write('int main()\n{\n')
                for j, (p, text, macros) in enumerate(which):
                    for i, _ in enumerate(macros):
                        f.write('    printf("%%zu\\n", sizeof t%d_%d - 1); fwrite(t%d_%d, 1, sizeof t%d_%d - 1, stdout);\n' % ((j, i) * 3))
                f.write('    return 0;\n}\n')
            return cxx(c, [comp, '-std=' + std, '-w', '-Wno-invalid-source-encoding', '-O0', cc, '-o', cc + '.x'], 'embedded texts')
        y = source(mine)
        if y.rc != 0:
            for one in mine:
                z = source([one])
                if z.rc != 0:
                    return [('the embedded text does not compile', comp + '\n' + z.err[:1500], repr(one[1][:3000]))]
            raise HarnessError(y.err[:2000])
        out = run([cc + '.x'], text=False).out
        bad = []
        for p, text, macros in mine:
            for name, w, extra in macros:
                i = out.index(b'\n')
                size = int(out[:i])
                got, out = out[i + 1:i + 1 + size], out[i + 1 + size:]
                if got != w and got != w + extra:
                    at = next((q for q, (a, b) in enumerate(zip(got, w)) if a != b), min(len(got), len(w)))
                    bad.append(('the embedded text is not the source text', '%s %s, byte %d of %s: %r instead of %r' % (comp, std, at, name, got[max(0, at - 60):at + 60], w[max(0, at - 60):at + 60]), repr(text[:3000])))
        return bad
    combos = [(k, comp, std) for k in range(4) for comp, std in (('g++', 'c++11'), ('g++', 'gnu++17'), ('clang++', 'c++11'))]
    for bad in parallel(prog, combos):
        c.count('programs of embedded texts')
        for b in bad:
            c.violation(*b)
    c.log('embedding program')
    # the whole way: sources with more lines and other versions, through a build of the compiler into generated headers
    with open(os.path.join(REPO, 'CMakeLists.txt')) as f:
        cm = f.read()
    files = sorted(set(re.findall(r'source/cpp/([\w.-]+\.hh)"', cm)))
    if not files:
        raise HarnessError('no embedded sources found')
    full = S.sink()
    F, M = S.Field, S.Message
    some = [full, S.Schema('strings', 'p', [M('A', [F('a', 'string', 1)])]), S.Schema('none'), S.Schema('arr', 'p', [M('A', [F('a', 'bool', 1, True)])]), S.Schema('bytes', 'p', [M('A', [F('a', 'bytes', 1)])])]

    def tree(k):
        planted = []
        if k == 0:
            src, ver = REPO, version
        else:
            src = c.path('tree%d' % k, 'x')[:-2]
            shutil.copytree(REPO, src, dirs_exist_ok=True, ignore=shutil.ignore_patterns('.git', '_*', 'build*'))
            rr = random.Random('c28/%d/%d' % (c.seed, k))
            v = [rr.randrange(100) for _ in range(3)]
            t = cm
            for w, q in zip(('MAJOR', 'MINOR', 'PATCH'), v):
                t = re.sub(r'(set\(PROTOGEN_%s )\d+' % w, lambda m: m.group(1) + str(q), t)
            with open(os.path.join(src, 'CMakeLists.txt'), 'w') as f:
                f.write(t)
            ver = ('_%d_%d_%d' % tuple(v)).encode()
            for fn in files:
                p = os.path.join(src, 'source/cpp', fn)
                b = read(p)
                more = [b'// ' + random_line(rr, rr.random() < 0.5) for _ in range(40)] + [random_line(rr, True) for _ in range(10)] + [b'# AUTO-REMOVE 1', b' # AUTO-REMOVE 2', b'x AUTO-REMOVE 3']
                if k == 1:
                    more += [b'// ' + f for f in FRAGMENTS]
                rr.shuffle(more)
                # code only, so that the fragments may be anything but the end of a comment
                b = (b + b'\n' if not b.endswith(b'\n') else b) + b'\n'.join(more) + (b'\n' if rr.random() < 0.5 else b'')
                if k == 2:
                    b = b.replace(b'\r\n', b'\n').replace(b'\n', b'\r\n')
                with open(p, 'wb') as f:
                    f.write(b)
            # a line of any characters at the start of the code templates
            p = os.path.join(src, 'source/cpp/code.txt')
            b = read(p)
            if b:
                t, ls = [], b.split(b'\n')
                for i, l in enumerate(ls):
                    t.append(l)
                    # the lines of the section before the first with a placeholder
                    n = i + 1
                    while n < len(ls) and b'$' not in ls[n] and not ls[n].startswith(b'---'):
                        n += 1
                    nx = b'\n'.join(ls[i + 1:n])
                    if l.startswith(b'--- ') and len(nx.strip()) > 9:
                        while True:
                            x = b'// %d ' % i + b''.join(random_line(rr, True)[:3000] for _ in range(3))
                            if not any(q in x for q in (b'$', b'\b', b'_X_Y_Z', b'AUTO-REMOVE', b'\n')):
                                break
                        t.append(x)
                        planted.append((l, x, nx))
                with open(p, 'wb') as f:
                    f.write(b'\n'.join(t))
        exe = pg if k == 0 else os.path.join(build_protogen(c, 'tree%d.build' % k, opt='-O0', src=src), 'b', 'protogen')
        res = []
        seen = 0
        for s in some:
            p = c.path('whole', '%d' % k, s.name + '.proto')
            with open(p, 'w') as f:
                f.write(S.proto_text(s))
            x = run([exe, p, p + '.hh'], timeout=60)
            got = read(p + '.hh')
            if x.rc != 0 or got is None:
                res.append(('the compiler fails', 'tree %d, %s' % (k, x.err[:300]), s.name))
                continue
            for sec, line, after in planted:
                if tabs(after) + b'\n' in tabs(got):
                    c.count('template lines looked for in generated headers')
                    seen += 1
                    if tabs(line) + b'\n' + tabs(after) + b'\n' not in tabs(got):
                        res.append(('a code template does not reach the generated header unchanged', 'section %r, tree %d, schema %s: %r' % (sec, k, s.name, line), repr(line)))
            need = ['protogen.hh', 'json.hh', 'json-string.hh'] if s is not full else files
            for fn in need:
                if fn not in files:
                    continue
                w = embed(lines_of(read(os.path.join(src, 'source/cpp', fn))), ver)
                with lockk:
                    c.seen('%s in the header of %s, tree %d' % (fn, s.name, k), True)
                    c.count('runtime files found in generated headers')
                    c.count('runtime bytes compared', len(w))
                a, b = tabs(got), tabs(w)
                if a.find(b) < 0:
                    # the longest prefix that is there
                    lo, hi = 0, len(b)
                    while lo < hi:
                        mid = (lo + hi + 1) // 2
                        lo, hi = (mid, hi) if a.find(b[:mid]) >= 0 else (lo, mid - 1)
                    at = a.find(b[:lo])
                    res.append(('the runtime does not reach the generated header unchanged', '%s, tree %d, schema %s: line %d: %r instead of %r' % (fn, k, s.name, b[:lo].count(b'\n') + 1, a[at + max(0, lo - 40):at + lo + 60], b[max(0, lo - 40):lo + 60]), fn))
        return res
    lockk = threading.Lock()
    for res in [tree(k) for k in range(6 if c.thorough else 3)]:
        c.count('compilers built from changed sources')
        for v in res:
            c.violation(*v)

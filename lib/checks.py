"""The checks, by property"""
from core import *
import jsonmon as J
import schema as S

MSG = 'random messages (all types, boundary values, every presence pattern) of fixed and random schemas; non-trivial: the message or document is not empty; distinct by schema type and contents'
DOC = 'documents made from random messages by a writer with random spelling and layout; non-trivial: as stated per case; distinct by text'
CHECKS = {}


def add(pid, rule, fn, level='exploration'):
    CHECKS[pid] = (fn, {'level': level, 'rule': rule})


def mon(pid, kind, quick, thorough, rule, need=()):
    def fn(c):
        J.monitor_check(c, pid, kind, quick, thorough, need)
    add(pid, rule, fn)


mon('C01', 'general', 40000, 400000, MSG, ['messages', 'arrays'])
mon('C02', 'general', 30000, 300000, MSG, ['messages', 'arrays', 'unwritable messages refused', 'escaped and plain texts compared'])
mon('C03', 'general', 40000, 400000, DOC, ['messages', 'arrays'])
mon('C04', 'general', 30000, 300000, DOC, ['documents with unknown members', 'deep values', 'documents with a broken unknown value'])
mon('C06', 'general', 40000, 400000, DOC + '; non-trivial: the read fails', ['successes', 'errors after the first line', 'strings over several lines', 'arrays written', 'arrays not written', 'messages not written', 'mistakes beyond 32767 characters'])
mon('C08', 'general', 30000, 200000, MSG, ['outputs compared', 'inputs compared', 'buffers checked', 'streams set up for other things'])
mon('C09', 'general', 25000, 150000, 'random histories of 5 to 25 operations on three objects, compared with a reference model after every step; distinct by type and history', ['unequal pairs compared'])
mon('C10', 'small', 60000, 400000, 'numerals near the limits of every type, random numerals and spellings; distinct by field and numeral', ['numbers that fit', 'numbers that do not fit', 'values written and read'])
mon('C11', 'small', 4352, 4352 * 8, 'all Unicode characters (256 per case), all byte pairs, lone surrogates, random ill-formed strings', ['characters written and read', 'escapes read', 'byte pairs', 'lone surrogates read', 'wrong escapes read', 'ill-formed strings refused'])
mon('C12', 'general', 20000, 200000, 'byte strings of all lengths up to 260 and corrupted encodings; distinct by field and contents', ['values written', 'valid base64 read', 'invalid base64 read'])
mon('C13', 'names', 15000, 150000, 'random messages of schemas with difficult names and name options', ['members written', 'other names read'])
mon('C15', 'transient', 30000, 200000, 'random messages of schemas with random transient fields; non-trivial: some transient field holds a value', ['texts without transient fields', 'transient members in texts'])


#
# C14: behaviour by the monitor, readable names by reading the generated headers
#
def literals(text):
    """String literals of C++ source, decoded, comments and directives aside"""
    out, i, n = [], 0, len(text)
    while i < n:
        two = text[i:i + 2]
        if two == '//':
            i = text.find('\n', i)
            if i < 0:
                break
        elif two == '/*':
            i = text.find('*/', i)
            if i < 0:
                break
            i += 2
        elif text[i] == "'" and not (i and (text[i - 1].isalnum())):
            i += 1
            while i < n and text[i] not in "'\n":
                i += 2 if text[i] == '\\' else 1
            i += 1
        elif text[i] == '"':
            j = i + 1
            while j < n and text[j] not in '"\n':
                j += 2 if text[j] == '\\' else 1
            raw = text[i + 1:j]
            dec = re.sub(r'\\x([0-9a-fA-F]+)|\\([0-7]{1,3})|\\(.)', lambda m: chr(int(m.group(1), 16) & 255) if m.group(1) else chr(int(m.group(2), 8) & 255) if m.group(2)
                         else {'n': '\n', 't': '\t', 'r': '\r'}.get(m.group(3), m.group(3)), raw)
            out.append((raw, dec))
            i = j + 1
        else:
            i += 1
    return out


def c14(c):
    import schema as S
    exe, schemas = J.monitor_check(c, 'C14', 'twins', 15000, 150000, ['messages compared', 'texts read', 'texts rejected'])
    # what the runtime says anyway
    s0 = S.Schema('none', 'none', [S.Message('Q', [S.Field('q%d' % i, t, i + 1, repeated=r) for i, (t, r) in enumerate([('int32', True), ('bytes', False), ('string', False)])])], S.flags(obf=True))
    pg = compiler(c)

    def lits(s):
        p, h = c.path('lit', s.name + '.proto'), c.path('lit', s.name + '.hh')
        with open(p, 'w', encoding='utf-8', errors='surrogateescape') as f:
            f.write(S.proto_text(s))
        r = generate(c, pg, p, h)
        if r.rc != 0:
            raise HarnessError('schema rejected: ' + r.err)
        with open(h, encoding='latin-1') as f:
            return literals(f.read())
    common = set(d for _, d in lits(s0))
    r = random.Random('c14/%d' % c.seed)
    more = [S.random_schema(r, 'lit%d' % i, package='p', options=S.flags(obf=True, lists=r.random() < 0.5)) for i in range(200 if c.thorough else 60)]
    more = [s for s in schemas if s.flag('obfuscate_strings')] + more
    for s, ls in zip(more, parallel(lits, more)):
        names = set(s.json_name(f) for m in s.messages for f in m.fields)
        decoded = set(d for _, d in ls) - common
        for n in names:
            b = n.encode('utf-8', 'surrogateescape').decode('latin-1')
            if len(b) < 2 or s.flag('number_names'):
                continue
            c.count('names looked for in obfuscated headers')
            bad = [d for d in decoded if (len(set(b)) > 1 and d == b) or (len(set(b)) > 3 and b in d)]
            if bad or any(raw == b for raw, d in ls if d not in common):
                c.violation('readable name', 'the name %r is readable in the obfuscated header of schema %s: literals %r' % (n, s.name, bad[:3]), S.proto_text(s))
        c.seen('header of ' + S.proto_text(s), True)


add('C14', 'the same random messages and texts given to a schema and to its obfuscated twin (distinct by type and message), and string literals of generated obfuscated headers', c14)


#
# C16
#
LOCALES = [('de_DE', 'UTF-8'), ('fr_FR', 'UTF-8'), ('en_IN', 'UTF-8'), ('tr_TR', 'UTF-8'), ('fa_IR', 'UTF-8'), ('ps_AF', 'UTF-8'), ('sv_SE', 'ISO-8859-1'), ('ja_JP', 'EUC-JP')]


def make_locales(c):
    d = c.path('loc', 'x')[:-2]

    def one(l):
        name, cs = l
        full = name + '.' + cs
        r = run(['localedef', '--no-archive', '-c', '-i', name, '-f', cs, os.path.join(d, full)], timeout=120)
        return full if os.path.isdir(os.path.join(d, full)) else None
    return d, [x for x in parallel(one, LOCALES) if x]


def c16(c):
    d, names = make_locales(c)
    if not any(n.startswith(('de_', 'fr_', 'tr_')) for n in names):
        raise HarnessError('no locale with a decimal comma could be built')
    c.extra['locales'] = names
    schemas = J.schema_set(c, 'small')
    exe = build_monitor(c, schemas)
    if not exe:
        return
    extra = []
    for n in ['C', ''] + names:
        extra += ['--locale', n]
    env = dict(ENV, LOCPATH=d, LC_ALL='', LANG=names[0], ASAN_OPTIONS=ENV['ASAN_OPTIONS'].replace('detect_leaks=1', 'detect_leaks=0'))     # glibc leaks in newlocale with LOCPATH
    J.run_monitor(c, exe, 'C16', 30000 if c.thorough else 4000, schemas, extra=extra, env=env)
    # programs that select a locale before they use a message for the first time: what they do later is judged by the monitors
    # of texts, values and numbers
    for i, n in enumerate(['-'] + names):
        for how in (['p'] if n == '-' else ['sug'[(i + c.seed) % 3]] if not c.thorough else 'sug'):
            for mon, cases in (('C02', 160), ('C10', 800), ('C03', 160)):
                J.run_monitor(c, exe, mon, cases * (4 if c.thorough else 1), schemas, extra=['--start-locale', how + n], env=env)
            c.count('processes whose first use is under a locale', 3 * JOBS)
    if not c.viols:
        for n in ['setlocale ', 'uselocale ', 'C++ global locale ']:
            if not sum(v for k, v in c.counters.items() if k.startswith(n + names[0])):
                raise HarnessError('never observed: ' + n)


add('C16', 'random messages written and read under C locales (setlocale, uselocale) and C++ global locales (standard and custom punctuation), compared with the results under "C"; distinct by message and locale', c16)


#
# C07
#
def huge(c, s):
    """Texts of more than 2^31 characters"""
    hdr = next((h for h in c.headers if os.path.basename(h) == s.name + '.pg.hh'), None)
    if not hdr:
        return
    exe = c.path('huge', 'huge')
    leaf = next(m for m in s.messages if m.name == 'Leaf')
    r = cxx(c, ['clang++', '-std=c++11', '-O2', '-g1', '-fsanitize=signed-integer-overflow,bounds,shift,pointer-overflow', '-fno-sanitize-recover=all', '-DHEADER="%s"' % hdr, '-DPG=' + runtime_namespace(hdr), '-DTYPE=' + S.cpp_type(s, leaf),
                os.path.join(HARNESS, 'huge.cc'), '-o', exe], 'huge')
    if r.rc != 0:
        c.violation('a schema cannot be used', r.err[:3000])
        return
    n = (1 << 31) + 100
    jobs = [('{', 's', '?', n, 0), ('', 'n', '{}', n, 1)]
    if c.thorough:
        jobs += [('{"q":', 's', '7}', n, 1), ('{"q":"', 'x', '"}', n, 1), ('{"q":', '7', '}', n, 1), ('{"q":[', 's', '}', n, 0), ('', 'n', '{', 2 * n, 0), ('', 's', '[', 2 * n, 0)]

    def one(j):
        return j, run([exe, j[0], j[1], j[2], str(j[3])], timeout=800)
    for j, res in parallel(one, jobs, 4):
        where = 'huge %r, %d times %r, %r' % (j[0], j[3], j[1], j[2])
        rep = sanitizer_report(res.err)
        m = re.search(r'RESULT (\d) (-?\d+) (-?\d+) (-?\d+) (\d)', res.out)
        if rep:
            c.violation(rep[0], where + '\n' + rep[1], where)
        elif res.timeout:
            c.count('texts beyond 2^31 characters cut off by the time limit')
        elif not m:
            c.violation('the process ended with status %s' % res.rc, where + '\n' + res.err[-2000:], where)
        else:
            c.count('texts of more than 2^31 characters')
            c.seen(where, True)
            if int(m.group(1)) != j[4]:
                c.violation('a long text is %s' % ('rejected' if j[4] else 'accepted'), where + '\n' + res.out, where)
            elif not j[4] and (int(m.group(2)) == 0 or int(m.group(3)) < 1 or int(m.group(4)) < 1):
                c.violation('the error of a long text is not described', where + '\n' + res.out, where)


def c07(c):
    schemas = J.schema_set(c, 'small')
    jobs = [lambda: build_monitor(c, schemas), lambda: J.build_fuzzer(c, schemas), lambda: build_monitor(c, schemas[:1], flags=('-g',), name='v')]
    exe, fuzz, plain = [f() for f in jobs]
    c.log('built')
    if not exe or not fuzz or not plain:
        return
    pool = concurrent.futures.ThreadPoolExecutor(1)
    big = pool.submit(huge, c, schemas[0])
    J.run_monitor(c, exe, 'C07', 400000 if c.thorough else 24000, schemas, timeout=700)
    c.log('hostile families done')
    J.run_fuzzer(c, fuzz, 8000000 if c.thorough else 400000, timeout=700)
    c.log('fuzzing done')

    # uninitialised memory, which ASan does not see
    def memcheck(i):
        mon = ['C07', 'C08', 'C06', 'C03', 'C09', 'C01', 'C02', 'C12'][i % 8]
        res = run(['valgrind', '-q', '--error-exitcode=97', '--leak-check=full', '--errors-for-leak-kinds=definite', '--max-stackframe=8000000', plain, '--mon', mon, '--seed', str(c.seed), '--first', str(300 + i), '--step', '8',
                   '--cases', '300' if c.thorough else '12'], timeout=600)
        return mon, res
    for mon, res in parallel(memcheck, range(8)):
        if res.timeout:
            c.count('memcheck runs cut off by the time limit')
        elif res.rc == 97:
            m = re.search(r'==\d+== (.*)', res.err)
            c.violation('memcheck: ' + re.sub(r'\d[\d,]*', 'N', m.group(1) if m else '?'), res.err[:3000], 'valgrind monitor --mon %s' % mon)
        elif 'STATS ' in res.out:
            c.count('memcheck: monitors run')
        elif res.rc not in (0, 1):
            c.violation('the process ended with status %s' % res.rc, res.err[-3000:])
    c.log('memcheck done')
    big.result()
    c.log('huge texts done')
    if not c.viols:
        for n in ('reads that succeed', 'reads that fail', 'deep nesting', 'long strings', 'memcheck: monitors run'):
            if not c.counters.get(n):
                raise HarnessError('never observed: ' + n)


add('C07', 'texts of hostile families (deep, long, random, edited, all short ones) and of coverage-guided fuzzing through every channel; distinct by text; non-trivial: not empty', c07)


#
# C05: edited documents, then coverage-guided fuzzing with the same reference reader as oracle
#
def c05(c):
    exe, schemas = J.monitor_check(c, 'C05', 'general', 40000, 400000, ['documents truncated at every byte'])
    if not exe:
        return
    schemas = J.schema_set(c, 'small')
    fuzz = J.build_fuzzer(c, schemas)
    if fuzz:
        J.run_fuzzer(c, fuzz, 6000000 if c.thorough else 400000, oracle=True, timeout=700, max_len=512)


add('C05', DOC + '; non-trivial: the reference reader rejects the document', c05)


#
# C17
#
TSAN = ('-fsanitize=thread', '-fno-omit-frame-pointer')


def c17(c):
    schemas = J.schema_set(c, 'small')
    schemas.append(schemas[0].twin('sink_obf', 'sinkobf', S.flags(True, False, True)))
    exe = build_monitor(c, schemas, flags=TSAN, opt='-O1' if c.thorough else '-O0', core=('ref', 'gen', 'mon', 'threads'), defines=('-DNO_MAIN',), name='t')
    c.log('built')
    if not exe:
        return
    n = 128 if c.thorough else 32
    rounds, per = (40, 40) if c.thorough else (24, 12)

    def job(i):
        seed = c.seed * 10000 + i
        return seed, run([exe, str(seed), str(rounds), str(per)], timeout=600)
    for seed, res in parallel(job, range(n), jobs=3):
        rep = sanitizer_report(res.err)
        where = 'threads %d %d %d' % (seed, rounds, per)
        if rep:
            # the pair of functions involved
            fns = re.findall(r'#[0-4] (?:0x\w+ in )?([^\s(<]*protogen[^\s(<]*)', rep[1])
            c.violation('data race', ' '.join(fns[:4]) + '\n' + rep[1], where)
        elif 'VIOL ' in res.out:
            m = re.search(r'VIOL ([^\n]*)', res.out)
            c.violation('concurrent calls give other results', m.group(1)[:3000], where)
        elif res.timeout:
            again = run([exe, str(seed), str(rounds), str(per)], timeout=900)
            if again.timeout:
                c.violation('concurrent calls do not end', where, where)
            else:
                c.count('processes cut off by the time limit')
        elif res.rc != 0 or 'STATS ' not in res.out:
            c.violation('the process ended with status %s' % res.rc, res.err[-3000:] + res.out[-500:], where)
        else:
            m = re.search(r'calls=(\d+) succeeded=(\d+) orders=(\d+)', res.out)
            c.evals += int(m.group(1))
            c.count('calls that succeed', int(m.group(2)))
            c.count('distinct orders of completion, by process', int(m.group(3)))
            for k, v in re.findall(r'COUNT (\d+) (.*)', res.out):
                c.count(v, int(k))
            for h in re.findall(r'^D (\d+)$', res.out, re.M):
                c.distinct.add(int(h).to_bytes(8, 'little'))
            if len(c.samples) < 4:
                c.samples += re.findall(r'SAMPLE (.*)', res.out)[:2]
    c.count('processes', n)


add('C17', 'calls made by 2 to 10 threads at the same time, released together by barriers, then repeated alone; distinct by call and data', c17)


#
# C19
#
def c19(c):
    schemas = J.schema_set(c, 'small')
    schemas.append(schemas[0].twin('sink_all', 'sinkall.x', S.flags(True, True, True)))
    exe = build_monitor(c, schemas, core=('ref', 'gen', 'mon', 'faults'), defines=('-DNO_MAIN',), name='f')
    c.log('built')
    if not exe:
        return
    n = 64 if c.thorough else 16
    args = ['2000', '400'] if c.thorough else ['250', '60']

    def job(i):
        seed = str(c.seed * 10000 + i)
        return seed, run([exe, seed] + args, timeout=800)
    for seed, res in parallel(job, range(n)):
        where = 'faults %s %s' % (seed, ' '.join(args))
        for m in re.findall(r'VIOL (.*?) \| (.*)', res.out):
            c.violation(m[0], m[1][:3000], where)
        rep = sanitizer_report(res.err)
        if rep:
            c.violation(rep[0], rep[1], where)
        elif res.timeout:
            c.count('processes cut off by the time limit')
        elif 'STATS ' not in res.out or res.rc not in (0, 1):
            c.violation('the process ended with status %s' % res.rc, res.err[-3000:] + res.out[-500:], where)
        m = re.search(r'STATS calls=(\d+) evals=(\d+)', res.out)
        c.evals += int(m.group(2)) if m else 0
        for k, v in re.findall(r'COUNT (\d+) (.*)', res.out):
            c.count(v, int(k))
        for h in re.findall(r'^D (\d+)$', res.out, re.M):
            c.distinct.add(int(h).to_bytes(8, 'little'))
        if len(c.samples) < 4:
            c.samples += re.findall(r'SAMPLE (.*)', res.out)[:2]
    if not c.viols:
        for k in ('exceptions: of the stream', 'exceptions: out of memory', 'standard streams that failed', 'types used again after an interrupted first use'):
            if not c.counters.get(k):
                raise HarnessError('never observed: ' + k)


add('C19', 'operations on random messages and arrays with every allocation and every operation of the stream failing in turn; distinct by operation, data and place of the fault; non-trivial: the fault happened', c19, 'fault_enumeration')


#
# C18
#
def c18(c):
    schemas = J.schema_set(c, 'small')
    schemas.append(S.sink().twin('sink_all', 'sinkall.x', S.flags(True, False, True)))
    exe = build_monitor(c, schemas, flags=('-g1',), core=('ref', 'gen', 'mon', 'work'), defines=('-DNO_MAIN', '-fno-builtin'), bind_flags=('-fsanitize-coverage=trace-pc-guard',), name='w', link_flags=('-ldl', '-rdynamic'))
    c.log('built')
    if not exe:
        return
    n = 16

    def job(i):
        args = [exe, '4096', str(2 << 20 if c.thorough else 1 << 18), str(i), str(n), 'n%d' % c.seed]
        return args, run(args, timeout=800)
    worst = (0, '')
    for args, res in parallel(job, range(n)):
        for m in re.findall(r'VIOL (.*)', res.out):
            c.violation(re.sub(r'[:0-9].*', '', m)[:100], m[:3000], ' '.join(args))
        for m in re.findall(r'WORK (\d+) (\d+) (\d+) (\d+) (\d) (.*)', res.out):
            c.seen(m[5], int(m[0]) > 0, sample='%s: %s bytes, %s steps, %s bytes allocated, %s bytes moved' % (m[5], m[0], m[1], m[2], m[3]))
            c.count('calls measured that %s' % ('succeed' if m[4] == '1' else 'fail'))
            c.count('steps', int(m[1]))
        m = re.search(r'worst=([\d.]+) (.*)', res.out)
        if m:
            worst = max(worst, (float(m.group(1)), m.group(2)))
        elif res.timeout:
            c.count('processes cut off by the time limit')
        elif 'VIOL' not in res.out:
            c.violation('the process ended with status %s' % res.rc, res.err[-3000:] + res.out[-300:], ' '.join(args))
    c.extra['largest growth of the work per byte between two sizes'] = worst
    if c.thorough and not c.viols:
        # every instruction, those of the C library included
        def cg(i):
            d = c.path('cg%d' % i, 'x')[:-2]
            return run(['valgrind', '-q', '--tool=callgrind', '--collect-atstart=no', '--callgrind-out-file=' + d + '/o', exe, '4096', '65536', str(i), '64', 'c%d' % c.seed], timeout=800, cwd=d), d
        for res, d in parallel(cg, range(0, 64, 4)):
            size = {l: float(x) for x, l in re.findall(r'SIZE (\d+) (.*)', res.out)}
            got = {}
            for f in sorted(os.listdir(d)):
                t = open(os.path.join(d, f), errors='replace').read()
                m, n = re.search(r'Trigger: Client Request: (.*) size (\d+)', t), re.search(r'^(?:summary|totals): (\d+)', t, re.M)
                if m and n:
                    got.setdefault(m.group(1), []).append((size.get('%s size %s' % m.groups(), 0), int(n.group(1)), m.group(2)))
            for label, w in got.items():
                w.sort(key=lambda x: int(x[2]))
                if len(w) < 2 or not w[0][0] or not w[-1][0]:
                    continue
                c.seen('instructions ' + label, True)
                a, b = w[0][1] / w[0][0], (w[-1][1] - 100000) / w[-1][0]
                if b / a > 3:
                    c.violation('more than linear instructions', '%s: %r' % (label, w), label)


add('C18', 'texts and messages of some hundred shapes (long, wide, nested, malformed, random) at sizes growing by 8 through every channel; distinct by shape, channel and size; non-trivial: not empty', c18)


#
# C20 to C28
#
import protomon as P
add('C22', 'random schemas written in random layouts, with comments, shuffled fields and options without meaning (distinct by text), and random messages of schemas with shuffled messages', P.c22)
add('C23', 'schema texts with random mistakes (edited tokens and bytes, truncation at every byte, mistakes of meaning); non-trivial: the reference reader rejects the text; distinct by text', P.c23)
add('C27', 'random schemas in random layouts; distinct by text; non-trivial: declares a message', P.c27)
add('C20', 'special and random schemas (distinct by text, compiler and standard), each used by a program with static assertions on every member and calls of every documented operation', P.c20)
add('C21', 'random sets of small schemas that need different parts of the runtime (same packages, message names and similar paths included), every source file including all headers in random order with repetitions; messages as in C01, C02, C03 and C09', P.c21)
add('C24', 'hostile files of some fifty families at two sizes, token soup, random bytes and coverage-guided texts; distinct by text; non-trivial: not empty', P.c24)


import climon as Q
add('C25', 'schemas (accepted and rejected) with every system call on the input, the output and the standard descriptors failing in turn, limits on the file size, closed and full descriptors, broken pipes and impossible paths; distinct by schema and fault', Q.c25, 'fault_enumeration')
add('C26', 'schemas run again under random environments, locales, directories, spellings of the path, outputs and previous contents, heap layouts and clocks; distinct by schema and circumstances', Q.c26)
add('C28', 'random text files through the embedding program and its macros through two compilers; compilers built from sources with random lines added and other versions; distinct by text', Q.c28)

"""Checks decided by the monitors of harness/mon.cc (behaviour of generated code)."""
import json, os, random, re
from core import *
import schema as S


def schema_set(c, kind):
    r = random.Random('schemas/%s/%d' % (c.id, c.seed))
    sink = S.sink()
    out = []

    def rnd(n, **kw):
        return [S.random_schema(r, 'rnd%d' % i, package='p%d' % i + r.choice(['', '.a', '.b.c']), **kw) for i in range(n)]
    if kind == 'general':
        out = [sink, sink.twin('sink_all', 'sinkall.x', S.flags(True, True, True)), S.deep()]
        out += rnd(6 if c.thorough else 3)
    elif kind == 'names':
        names = S.names_schema()
        out = [names, names.twin('nameso', 'nameso', S.flags(obf=True)), names.twin('namesn', 'namesn', S.flags(num=True, lists=True)), names.twin('namesno', 'namesno', S.flags(obf=True, num=True))]
        # numbers of every size as names, in any order, next to names that are numbers
        numbers = S.numbers_schema(r)
        out += [numbers, numbers.twin('numbers_o', 'numberso', S.flags(True, True, True))]
        out += rnd(8 if c.thorough else 4)
    elif kind == 'twins':
        names = S.names_schema()
        numbers = S.numbers_schema(r)
        bases = [sink, names, numbers] + rnd(6 if c.thorough else 3)
        for b in bases:
            num, lists = (b is numbers, False) if b in (sink, names, numbers) else (r.random() < 0.3, r.random() < 0.5)
            b.options = S.flags(None, num, lists)
            out += [b, b.twin(b.name + '_obf', b.package + '_o', S.flags(True, num, lists))]
    elif kind == 'transient':
        out = [sink, sink.twin('sink_all', 'sinkall.x', S.flags(True, True, True))]
        for i in range(6 if c.thorough else 4):
            s = S.random_schema(r, 'rnd%d' % i, package='p%d' % i)
            for m in s.messages:
                for f in m.fields:
                    if f.opt('transient') is None and r.random() < 0.4:
                        f.options.append(('transient', 'bool', 'true'))
                # transient fields with the JSON name of another field, which is not hidden by that
                seen = [f for f in m.fields if not f.transient]
                for f in m.fields:
                    if seen and f.transient and r.random() < 0.4:
                        g = r.choice(seen)
                        f.options = [o for o in f.options if o[0] != 'name'] + [('name', 'string', g.opt('name', g.name))]
            out.append(s)
    elif kind == 'small':
        out = [sink] + rnd(4 if c.thorough else 2)
    return out


def replay_text(c, exe_args, schemas):
    return ('build as the check does (VERIF_SEED=%d VERIF_TIER=%s), then: monitor %s\n\n' % (c.seed, c.tier, exe_args)
            + '\n\n'.join('--- %s.proto\n%s' % (s.name, S.proto_text(s)) for s in schemas))


def run_monitor(c, exe, mon, cases, schemas, timeout=400, extra=(), env=None, schema_args=None):
    """cases: number of cases per schema, shared among the processes"""
    byname = {s.name: s for s in schemas}

    def parse(res, args, state):
        viols, stats = [], None
        for line in res.out.split('\n'):
            try:
                if line.startswith('VIOL '):
                    viols.append(json.loads(line[5:]))
                elif line.startswith('STATS '):
                    stats = json.loads(line[6:])
            except ValueError:
                pass    # cut off by a crash
        return viols, stats

    def job(i):
        state = c.path('state', '%s-%d' % (mon, i))
        args = ['--mon', mon, '--seed', str(c.seed), '--first', str(i), '--step', str(JOBS), '--cases', str((cases + JOBS - 1) // JOBS)] + list(extra)
        if c.thorough:
            args.append('--thorough')
        res = run([exe] + args + ['--state', state], timeout=timeout, env=env)
        viols, stats = parse(res, args, state)
        crash = None
        if res.rc == 3 or 'HARNESS' in res.out:
            return ('harness', res.out[-2000:] + res.err[-2000:], None, None)
        if stats is None or res.rc not in (0, 1):
            where = open(state, 'rb').read().split(b'\0')[0].decode('utf-8', 'replace') if os.path.exists(state) else ''
            rep = sanitizer_report(res.err)
            if res.timeout:
                # once more, the case alone, before it is called a hang
                again = run([exe] + where.split(' ') + list(extra), timeout=120, env=env)
                if again.timeout:
                    crash = ('the call does not end', 'case: ' + where, where)
                else:
                    return ('slow', where, viols, stats)
            elif rep:
                crash = (rep[0], rep[1], where)
            elif res.rc == 0:
                return ('harness', res.out[-2000:] + res.err[-2000:], None, None)
            else:
                crash = ('the process ended with status %s' % res.rc, res.err[-3000:], where)
        elif res.rc == 0 and sanitizer_report(res.err):
            rep = sanitizer_report(res.err)
            crash = (rep[0], rep[1], '')
        return ('crash' if crash else 'ok', crash, viols, stats)

    for kind, info, viols, stats in parallel(job, range(JOBS)):
        if kind == 'harness':
            raise HarnessError(info)
        if kind == 'slow':
            c.count('processes cut off by the time limit')
        if kind == 'crash':
            key, detail, where = info
            c.violation(key, 'case: %s\n%s' % (where, detail), replay_text(c, where, [s for s in schemas if ' --schema %s ' % s.name in where + ' ' or not where]))
        for v in viols or []:
            args = '--mon %s --schema %s --seed %d --first %d --cases 1' % (v['mon'], v['schema'], v['seed'], v['case']) + ''.join(' ' + x for x in extra)
            c.violation(v['key'], 'schema %s case %d: %s' % (v['schema'], v['case'], v['detail']), replay_text(c, args, [byname[v['schema']]] if v['schema'] in byname else []))
        if stats:
            c.evals += stats['evals']
            for h in stats['distinct']:
                c.distinct.add(int(h).to_bytes(8, 'little'))
            for k, n in stats['counters'].items():
                c.count(k, n)
            for s in stats['samples']:
                if len(c.samples) < 6:
                    c.samples.append(s[:1500])


def monitor_check(c, mon, kind, quick, thorough, need=(), **kw):
    schemas = schema_set(c, kind)
    exe = build_monitor(c, schemas)
    c.log('built', len(schemas), 'schemas')
    c.extra['schemas'] = ['%s: %d messages, %d fields' % (s.name, len(s.messages), sum(len(m.fields) for m in s.messages)) for s in schemas]
    if exe:
        n = thorough if c.thorough else quick
        run_monitor(c, exe, mon, n, schemas, **kw)
        # the same again, with fewer cases, in a build as users have it: no sanitizers, another compiler or C++ standard, optimised, without assertions
        if not c.viols:
            r = random.Random('build/%s/%d' % (c.id, c.seed))
            some = schemas if c.thorough else schemas[:2] if kind == 'twins' else schemas[:1] + r.sample(schemas[1:], 1)
            build = (r.choice(['clang++', 'g++']), r.choice(['c++11', 'c++14', 'c++17', 'c++20']), r.choice(['-O1', '-O2']))
            other = build_monitor(c, some, flags=('-DNDEBUG',), std=build[1], opt=build[2], cxxs=[build[0]], name='other')
            c.extra['other build'] = '%s -std=%s %s -DNDEBUG, schemas %s' % (build + (', '.join(s.name for s in some),))
            if other:
                before = c.evals
                c.log('other build:', *build)
                run_monitor(c, other, mon, n // 2, some, **kw)
                c.count('evaluations in the other build', c.evals - before)
            elif not c.viols:
                raise HarnessError('the other build failed')
        if not c.viols:
            for x in need:
                if not c.counters.get(x):
                    raise HarnessError('never observed: ' + x)
    return exe, schemas


#
# libFuzzer
#
def build_fuzzer(c, schemas, name='f'):
    return build_monitor(c, schemas, core=('ref', 'gen', 'mon', 'fuzz'), defines=('-DNO_MAIN',), bind_flags=('-fsanitize=fuzzer-no-link',), link_flags=('-fsanitize=fuzzer',), name=name)


def run_fuzzer(c, exe, runs, oracle=False, timeout=600, max_len=1024):
    """runs: in all, shared among the processes; every process has its own corpus and seed"""
    def job(i):
        corpus = c.path('corpus-%d' % i, 'x')[:-2]
        art = c.path('artifacts-%d' % i, 'x')[:-1]
        env = dict(ENV, FUZZ_CORPUS=corpus, FUZZ_SEED=str(c.seed * 1000 + i))
        if oracle:
            env['FUZZ_ORACLE'] = '1'
        res = run([exe, corpus, '-runs=%d' % (runs // JOBS), '-seed=%d' % (c.seed * 1000 + i + 1), '-max_len=%d' % max_len, '-len_control=0', '-timeout=60', '-rss_limit_mb=3000',
                   '-malloc_limit_mb=1000', '-artifact_prefix=' + art, '-print_final_stats=1', '-verbosity=1', '-reload=0'], env=env, timeout=timeout)
        return i, res, art
    tot = 0
    for i, res, art in parallel(job, range(JOBS)):
        text = res.out + res.err
        arts = [os.path.join(art, x) for x in os.listdir(art)]
        rep = ''
        if arts:
            with open(arts[0], 'rb') as f:
                b = f.read()
            rep = 'input (byte 0: type, byte 1: channel and parameters): %r' % b[:3000]
        m = re.search(r'FUZZVIOL ([^\n]*)', res.out)
        if m:
            c.violation(re.sub(r':.*', '', m.group(1))[:80], m.group(1)[:3000], rep)
        elif res.timeout:
            c.count('fuzzers cut off by the time limit')
        elif res.rc != 0:
            r = sanitizer_report(text)
            if r and 'libFuzzer: timeout' in text:
                # once more, the input alone
                again = run([exe, '-timeout=120', arts[0]], timeout=300) if arts else None
                if again is None or again.rc == 0:
                    c.count('fuzzers cut off by the time limit')
                    continue
            if not r:
                raise HarnessError('fuzzer failed: ' + text[-2000:])
            c.violation(r[0], r[1], rep)
        n = re.search(r'stat::number_of_executed_units:\s*(\d+)', text)
        cov = re.findall(r'cov: (\d+) ft: (\d+) corp: (\d+)', text)
        if n:
            tot += int(n.group(1))
        if cov:
            c.extra['fuzzing: edges covered'] = max(c.extra.get('fuzzing: edges covered', 0), int(cov[-1][0]))
            c.count('inputs that reached new code (corpus of the fuzzers)', int(cov[-1][2]))
        for k, v in re.findall(r'(accepted|rejected)=(\d+)', res.out):
            c.count('fuzzing: inputs ' + k, int(v))
    c.evals += tot
    c.count('fuzzing: executions', tot)
    if not tot and not c.viols:
        raise HarnessError('the fuzzer did not run')

#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks: run `python3 tools/mkmanifest.py` after adding one."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
import checks
COMMON = 'Held on the executions counted in the evidence file, nothing beyond them; trusts the compiler, the sanitizers and the oracle in /verif (which shares no code with protogen). '
TECH = {
 'C01': ('value monitor: snapshot of every field before and after, under ASan+UBSan', 'Fresh target objects only. The second text is compared only when no transient field holds a value.'),
 'C02': ('independent strict JSON reader over every produced text, under ASan+UBSan', 'The reader is our own; it decides number values with exact decimal arithmetic.'),
 'C03': ('independent JSON writer with random spelling against a snapshot oracle, under ASan+UBSan', 'Raw control characters inside strings and duplicate keys are left out as unspecified.'),
 'C04': ('differential monitor: same document with and without unknown members, under ASan+UBSan', 'Skipped values nested up to 400 levels.'),
 'C05': ('accept/reject oracle: typed reference recogniser over mutated documents, under ASan+UBSan', 'Documents the reference calls unspecified are not judged.'),
 'C06': ('position oracle: reference recogniser reports first offending token and kind', 'Codes are judged where the reference knows the kind, positions always.'),
 'C07': ('ASan+UBSan+LSan with libFuzzer, hostile families, guarded buffers, memcheck and resource limits', 'Fuzzing is bounded by runs, so what is reached is a sample.'),
 'C08': ('cross-channel differential monitor with guard bytes, under ASan+UBSan', 'All buffer sizes around the text length, streams with every format flag.'),
 'C09': ('operation-history monitor against a reference value model, under ASan+UBSan', 'NaN and comparison of an absent field with a plain value are outside.'),
 'C10': ('numeric oracle with exact decimal arithmetic, under ASan+UBSan', 'A float may be rounded through double; the rounding edge at FLT_MAX is not judged.'),
 'C11': ('string oracle: independent UTF-8 and JSON codecs over all characters and byte pairs, under ASan+UBSan', 'Exhaustive over single characters and byte pairs, sampled beyond.'),
 'C12': ('independent base64 codec as oracle over lengths and corruptions, under ASan+UBSan', 'Non-zero trailing bits are not judged.'),
 'C13': ('name oracle from the schema generator, observed in texts by an independent reader', 'Names without quotes.'),
 'C14': ('differential monitor of plain and obfuscated twins plus scan of the generated literals', 'Literals of one repeated character are not judged.'),
 'C15': ('transient-field monitor against the reference value model', ''),
 'C16': ('locale monitor: results and locale state compared with a run under C', 'Locales built by localedef from the installed sources.'),
 'C17': ('ThreadSanitizer plus comparison with sequential results, barriers and first use', 'Interleavings are those the scheduler gave.'),
 'C18': ('step, allocation and read counters against a linear bound on growing inputs', 'Steps are instrumented edges of the generated code; allocation is operator new bytes.'),
 'C19': ('allocation and stream fault injection at every point with live-memory, locale, flag and value monitors, under ASan+UBSan', 'Faults are injected at every allocation and stream operation of the operations tried; one fault, or all from one point on, per run.'),
 'C20': ('compile-and-run monitor: every accepted random schema through g++ and clang++, C++11 to C++20, static assertions', 'Names of the standard library, reserved names and documented operations are outside.'),
 'C21': ('compile, link and run monitor over random sets, orders and repetitions of headers', ''),
 'C22': ('metamorphic differential on generated text', ''),
 'C23': ('accept/reject and position oracle: reference grammar of the schema language', 'Only the line of syntax errors is judged; semantic errors need a status and a diagnostic naming the file.'),
 'C24': ('ASan+UBSan with libFuzzer, token soup and resource limits on parser, generator and executable', 'Fuzzing is bounded by runs, so what is reached is a sample. Growth is judged on the families listed in the check.'),
 'C25': ('fault injection with strace into every system call on the input and output, with an oracle on status and file contents; every allocation failing in turn by an interposed allocator', 'Every call of each kind is failed in turn for the schemas used; where a schema gives more than twelve calls of a kind, the quick tier takes the first, the last and a sample.'),
 'C26': ('repeated-run differential under different environments, heap layouts and clocks; memcheck', 'Environments are sampled.'),
 'C27': ('model monitor: dump of the parsed model against the schema generator', ''),
 'C28': ('embedding monitor: expansion of the embedded text against the source lines', ''),
}
LEVEL = {'C19': 'fault_enumeration', 'C25': 'fault_enumeration'}
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
out = {'version': 1, 'setup_cmd': 'python3 checks/run.py --self-test', 'checks': [], 'not_applicable': [],
       'notes': 'Every check builds what it needs from /repo\'s working tree in a scratch directory. No hooks were needed: /repo carries only fix commits.'}
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        t, n = TECH[i]
        out['checks'].append({'property': i, 'quick_cmd': 'VERIF_TIER=quick python3 checks/run.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 checks/run.py ' + i,
                              'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': LEVEL.get(i, 'exploration'), 'level_note': (COMMON + n).strip()})
    else:
        out['not_applicable'].append({'property': i, 'reason': 'check under construction'})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')

"""Checks of the schema language and of the compiler executable (C20 to C28)."""
import json, os, random, re, shutil, stat
from core import *
import schema as S
import protoref

NOISE = [b' ', b'\n', b'\t', b'\r\n', b'  ', b'\n\n', b'\r', b'\t \n']
COMMENTS = [b'//', b'// x', b'/**/', b'/* x */', b'/***/', b'/* * / */', b'/*/*/', b'// /* \x22', b'/* // */', b'/* \n */', b'/*\n\n\n*/', b'// syntax = "proto2";', b'/* " \' */', b'// \xc3\xa9\xff',
            b'/* \x00\x01\x80 */', b'// message X { int32 a = 1; }', b'/** doc\n * @param x\n **/', b'//\\', b'/* \\ */', b'//*', b'// */', b'//\t', b'// \x00', b'/* ; } { */', b'/*"*/', b'/*\r\n*/']


def comment(r):
    c = r.choice(COMMENTS)
    if c.startswith(b'//'):
        c += r.choice([b'\n', b'\n', b'\r\n', b'\n\n'])
    return c


def gap(r, need, noisy):
    out = b''
    while r.random() < noisy:
        out += comment(r) if r.random() < 0.35 else r.choice(NOISE)
    if need and not out:
        out = r.choice(NOISE + [b'/**/', b'//\n', b'/* a */'])
    return out


def word(t):
    return t[0].isalnum() or t[0] == '_'


def layout(r, toks, noisy=None):
    """The tokens as text with any white space and comments between them"""
    if noisy is None:
        noisy = r.choice([0, 0.1, 0.5, 0.7])
    out = [gap(r, False, noisy)]
    for i, t in enumerate(toks):
        out.append(t.encode('utf-8', 'surrogateescape'))
        out.append(gap(r, i + 1 < len(toks) and word(t) and word(toks[i + 1]), noisy))
    if r.random() < 0.2:
        out.append(r.choice([b'// the end', b'//', b'/* the end */', b'\n//\n//', b'// /*', b'\r\n']))
    return b''.join(out)


MEANINGLESS = [('java_package', 'string', 'com.x'), ('optimize_for', 'ident', 'SPEED'), ('cc_enable_arenas', 'bool', 'true'), ('my.long.option', 'int', '42'), ('deprecated', 'bool', 'false'),
               ('json_name', 'string', 'zz'), ('packed', 'bool', 'true'), ('features.x', 'ident', 'a.b.c'), ('x1', 'string', ''), ('Transient', 'bool', 'true'), ('NAME', 'string', 'q'),
               ('number_name', 'bool', 'true'), ('obfuscate', 'bool', 'true'), ('transient2', 'bool', 'true'), ('name_', 'int', '1'), ('a', 'int', '0'), ('my.transient', 'bool', 'true'),
               ('names.name', 'string', 'x'), ('cpp.use_lists', 'bool', 'true')]
ONLY_TOP = [('transient', 'bool', 'true'), ('name', 'string', 'nm')]
ONLY_FIELD = [('obfuscate_strings', 'bool', 'true'), ('number_names', 'bool', 'true'), ('cpp_use_lists', 'bool', 'true')]


def add_meaningless(r, s, p):
    """Options without meaning to the compiler, everywhere"""
    def some(have, extra):
        names = set(o[0] for o in have)
        for o in r.sample(MEANINGLESS + extra, r.choice([0, 1, 1, 2, 5])):
            if o[0] not in names and r.random() < p:
                names.add(o[0])
                have.insert(r.randint(0, len(have)), o)
    some(s.options, ONLY_TOP)
    for m in s.messages:
        some(m.options, ONLY_TOP + ONLY_FIELD)
        for f in m.fields:
            some(f.options, ONLY_FIELD)


def simple_schema(r, name, **kw):
    kw.setdefault('package', r.choice(['', 'p', 'p.q', 'a1.b2.c3', 'message.x', 'x.package']) if r.random() < 0.5 else None)
    return S.random_schema(r, name, **kw)


def batch_exe(c, flags=ASAN):
    d = build_protogen(c, 'asan', cxx='clang++', flags=flags, targets=('libprotogen_static',))
    exe = c.path('batch')
    r = cxx(c, ['clang++', '-std=c++11', '-O1', '-g1', '-I', os.path.join(REPO, 'include'), os.path.join(HARNESS, 'protobatch.cc'), os.path.join(d, 'b', 'libprotogen_static.a'), '-o', exe] + list(flags), 'protobatch')
    if r.rc != 0:
        raise HarnessError('protobatch does not build: ' + r.err[-3000:])
    return exe


SKIPWS = 0x1000     # std::ios_base::skipws of libstdc++


def run_batch(c, exe, texts, timeout=400, faults=False):
    """Results of all texts, or None for the one at which the process died"""
    chunks = [list(range(i, len(texts), JOBS * 2)) for i in range(JOBS * 2)]

    def job(a):
        k, idx = a
        p = c.path('batch-in-%d' % k)
        with open(p, 'wb') as f:
            for i in idx:
                # any mix of formatting flags, mostly with skipws as streams start
                fl = SKIPWS | 2 if i % 3 else (i * 2654435761 >> 3) & 0x7FFF
                f.write(b'%d %d\n' % (len(texts[i]), fl))
                f.write(texts[i])
        res = run([exe, p] + ['faults'] * faults, timeout=timeout)
        out = []
        for l in res.out.split('\n'):
            if l:
                try:
                    out.append(json.loads(l))
                except ValueError:
                    break
        return k, idx, res, out
    results = [None] * len(texts)
    for k, idx, res, out in parallel(job, [(k, i) for k, i in enumerate(chunks) if i]):
        for i, o in zip(idx, out):
            results[i] = o
        if len(out) < len(idx) or res.rc != 0:
            rep = sanitizer_report(res.err)
            bad = texts[idx[len(out)]] if len(out) < len(idx) else b''
            if res.timeout:
                c.violation('parsing does not end', 'text: %r' % bad[:3000], 'text: %r' % bad[:20000])
            elif rep:
                c.violation(rep[0], rep[1] + '\ntext: %r' % bad[:3000], 'text: %r' % bad[:20000])
            else:
                c.violation('the parser ended the process with status %s' % res.rc, '%s\ntext: %r' % (res.err[-2000:], bad[:3000]), 'text: %r' % bad[:20000])
    return results


#
# Edits
#
POOL = ['syntax', 'package', 'message', 'option', 'repeated', 'optional', 'string', 'int32', 'bytes', 'bool', 'true', 'false', 'map', 'enum', 'import', 'oneof', 'x', 'Y', 'a.b', '"s"', '""', '1', '0', '7', '536870912',
        '19000', '=', ';', ',', '{', '}', '[', ']', '<', '>', '(', ')', '.', '-', '/', '*', '"', ':', '\\', '#', '@', '$', '&', '|', '~', '`', '+', '!', '%', '^', '?', '\x00', '\x7f', '\xc3\xa9', 'int', 'class', 'this',
        '999999999999999999999999', 'string_', 'Message', 'reserved', 'service', '//', '/*', '*/']


def edit_tokens(r, toks):
    t = list(toks)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        i = r.randrange(len(t)) if t else 0
        k = r.randrange(7)
        if not t or k == 0:
            t.insert(i, r.choice(POOL))
        elif k == 1:
            del t[i]
        elif k == 2:
            t.insert(i, t[i])
        elif k == 3 and len(t) > 1:
            j = (i + 1) % len(t)
            t[i], t[j] = t[j], t[i]
        elif k == 4:
            t[i] = r.choice(POOL)
        elif k == 5:
            t.insert(i, r.choice(t))
        else:
            j = min(len(t), i + r.randint(1, 8))
            if r.random() < 0.5:
                del t[i:j]
            else:
                t[i:i] = t[i:j]
    return t


def edit_bytes(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2])):
        i = r.randrange(len(b) + 1)
        k = r.randrange(4)
        if k == 0:
            b.insert(i, r.choice(b' \n"/*{}[];=,.ab01\\_') if r.random() < 0.7 else r.randrange(256))
        elif k == 1 and i < len(b):
            del b[i]
        elif k == 2 and i < len(b):
            b[i] = r.choice(b' \n"/*{}[];=,.ab01\\_') if r.random() < 0.7 else r.randrange(256)
        else:
            j = r.randint(0, len(b))
            del b[min(i, j):min(i, j) + r.randint(1, 20)]
    return bytes(b)


def edit_meaning(r, s):
    """A schema with one mistake that is not one of syntax (mostly)"""
    t = s.twin(s.name, s.package, list(s.options))
    fs = [(m, f) for m in t.messages for f in m.fields]
    k = r.randrange(15)
    if k == 0 and fs:
        m, f = r.choice(fs)
        f.number = r.choice([0, 19000, 19999, 19500, 536870912, 4294967297, 2 ** 64 + 1, 2 ** 63, 10 ** 30, 2147483648, 4294967296 + 5, 2 ** 32, 1073741824])
    elif k == 1 and fs:
        m, f = r.choice(fs)
        if len(m.fields) > 1:
            g = r.choice([g for g in m.fields if g is not f])
            g.number = f.number
    elif k == 2 and fs:
        m, f = r.choice(fs)
        if len(m.fields) > 1:
            g = r.choice([g for g in m.fields if g is not f])
            g.name = f.name
    elif k == 3 and len(t.messages) > 1:
        a, b = r.sample(t.messages, 2)
        a.name = b.name
    elif k == 4 and fs:
        m, f = r.choice(fs)
        if r.random() < 0.5:
            f.type = S.Message(r.choice(['Unknown', 'int', 'str', 'String', 'Int32', 'int16', 'any', m.name + '_', m.name.swapcase() + 'q', 'google.protobuf.Any', f.name + 'zz']))
        else:
            # a name that is close to the one of a message which could be there
            o = r.choice(t.messages).name
            p = (t.package + '.') if t.package else ''
            f.type = S.Message(r.choice(['zz.' + o, p + 'zz.' + o, o + '.' + o, p + p + o, o + '.zz', p + o + '.zz', o[:-1] or 'Z', o + o, p[:-1] or 'zz', p + o + 'x', m.name + '.' + o, 'x' + p + o, p + 'x' + o, p + (o[:-1] or 'Z'),
                                         o.lower() if o != o.lower() else o.upper(), p.upper() + o if p != p.upper() else 'Zz.' + o, p.split('.', 1)[-1] + o, '.'.join(p.split('.')[:1]) + '.' + o if p else 'z.z.' + o]))
    elif k == 5 and fs:
        # a cycle, of any length
        m, f = r.choice(fs)
        f.type = m
        if r.random() < 0.7 and len(t.messages) > 1:
            chain = r.sample(t.messages, r.randint(2, len(t.messages)))
            for a, b in zip(chain, chain[1:] + chain[:1]):
                nums = [x.number for x in a.fields]
                a.fields.insert(r.randint(0, len(a.fields)), S.Field('cyc', b, max(nums + [0]) % 18000 + 1 if max(nums + [0]) < 18000 else 536870911, repeated=r.random() < 0.5,
                                                                    options=[('transient', 'bool', 'true')] if r.random() < 0.3 else []))
    elif k == 6 and fs:
        m, f = r.choice(fs)
        f.options = [o for o in f.options if o[0] not in ('transient', 'name')]
        f.options.append(r.choice([('transient', 'string', 'true'), ('transient', 'int', '1'), ('transient', 'ident', 'yes'), ('transient', 'ident', 'True'), ('name', 'bool', 'true'), ('name', 'int', '5'), ('name', 'ident', 'foo'),
                                   ('transient', 'string', ''), ('name', 'ident', 'a.b')]))
        if f.options[-1][0] == 'name' and r.random() < 0.3:
            f.options.append(('transient', 'bool', 'true'))
    elif k == 7:
        t.options = [o for o in t.options if r.random() < 0.3]
        have = set(o[0] for o in t.options)
        n = r.choice(['obfuscate_strings', 'number_names', 'cpp_use_lists'])
        if n not in have:
            t.options.append(r.choice([(n, 'string', 'true'), (n, 'int', '1'), (n, 'ident', 'yes'), (n, 'ident', 'TRUE'), (n, 'string', 'false'), (n, 'int', '0')]))
    elif k == 8:
        m = r.choice(t.messages)
        m.fields = [S.Field('w%d' % i, 'int32', i + 1) for i in range(r.choice([65, 66, 64, 63, 128, 100]))]
    elif k == 9 and fs:
        r.choice(fs)[1].name = r.choice(sorted(S.CPP_KEYWORDS - S.PROTO_KEYWORDS))
    elif k == 10:
        r.choice(t.messages).name = r.choice(sorted(S.CPP_KEYWORDS - S.PROTO_KEYWORDS))
    elif k == 11:
        t.package = r.choice(['%s', 'a.%s', '%s.b', 'a.%s.b']) % r.choice(sorted(S.CPP_KEYWORDS - S.PROTO_KEYWORDS))
    elif k == 12 and fs:
        m, f = r.choice(fs)
        if len(m.fields) > 1:
            g = r.choice([g for g in m.fields if g is not f])
            g.options = [o for o in g.options if o[0] not in ('name', 'transient')] + [('name', 'string', f.opt('name', f.name))]
            f.options = [o for o in f.options if o[0] != 'transient']
    elif k == 13:
        return t, 'syntax'
    elif fs:
        m, f = r.choice(fs)
        f.name = r.choice([m.name, 'a__b', 'string', 'true', 'map', 'repeated', 'message', 'package', 'int32'])
    return t, None


def fixed_texts():
    h = 'syntax = "proto3";\n'
    out = ['', '\n', h, h + 'message A {}', h + 'message A {};', h + 'message A { ; }', h + ';', h + 'package a;package b;', 'message A {}', h + 'import "a.proto";', h + 'enum E { A = 0; }', h + 'message A { enum E { X = 0; } }',
           h + 'message A { message B {} }', h + 'message A { map<string, string> m = 1; }', h + 'message A { oneof x { int32 a = 1; } }', h + 'message A { reserved 1; }', h + 'service S {}', h + 'extend A {}',
           'syntax = "proto2"; message A {}', 'syntax = proto3;', 'syntax "proto3";', 'syntax = "proto3"', 'syntax = "";', 'syntax = "PROTO3";', 'syntax = "proto3 ";', h + 'message A { int32 a; }', h + 'message A { int32 = 1; }', h + 'message A { a = 1; }',
           h + 'message A { required int32 a = 1; }', h + 'message A { optional repeated int32 a = 1; }', h + 'message A { repeated optional int32 a = 1; }', h + 'message A { int32 a = -1; }', h + 'message A { int32 a = 0x10; }', h + 'message A { int32 a = 1.5; }',
           h + 'message A { int32 a = 1 []; }', h + 'message A { int32 a = 1 [x]; }', h + 'message A { int32 a = 1 [x=]; }', h + 'message A { int32 a = 1 [x=1,]; }', h + 'message A { int32 a = 1 [,x=1]; }', h + 'message A { int32 a = 1 [x=1 y=2]; }',
           h + 'message A { int32 a = 1 [x=1; }', h + 'message A { int32 a = 1 x=1]; }', h + 'message A { int32 a = 1 [x=1],[y=2]; }', h + 'message A { int32 a = 1 [x=1] [y=2]; }', h + 'message A { int32 a = 1, b = 2; }', h + 'message A { int32 a = 1 };', h + 'message A',
           h + 'message A {', h + 'message A { int32 a = 1;', h + 'message', h + 'message {}', h + 'message A.B {}', h + 'message "A" {}', h + 'message 1 {}', h + 'message A { string a.b = 1; }', h + 'option x;', h + 'option x =;', h + 'option = 1;', h + 'option x = 1',
           h + 'option (x) = 1;', h + 'option x = {};', h + 'option x = [1];', h + 'option x = "a" "b";', h + 'option x = a b;', h + 'option x = "a\nb";', h + 'option x = "a', h + 'option "x" = 1;', h + 'package;', h + 'package "a";', h + 'package a', h + 'package a b;',
           h + 'package a.;', h + 'package .a;', h + 'package a..b;', h + 'package a. b;', h + 'package a .b;', h + 'package 1;', h + '/', h + '/ /', h + '/*', h + '/* *', h + '/*/', h + '//', h + '*/', h + '// /*\nmessage A {}', h + '/* // */ message A {}',
           h + '/* /* */ */ message A {}', h + 'message A { int32 a = 1; } }', h + '{ }', h + 'message A {} message A {}', h + 'message A { int32 a = 1; string a = 2; }', h + 'message A { int32 a = 1; string b = 1; }', h + 'message A { A a = 1; }',
           h + 'message A { B b = 1; } message B { A a = 1; }', h + 'message A { repeated A a = 1; }', h + 'message A { B a = 1; }', h + 'message A { .B a = 1; }', h + 'message A { int32 a = 18999; int32 b = 20000; int32 c = 536870911; }', h + 'message A { int32 a = 0; }',
           h + 'message A { string class = 1; }', h + 'message class {}', h + 'package a.class.b; message A {}', h + 'message A { string message = 1; string package = 2; }', h + 'message message {} message package {}', h + 'message A {\n\n\n int32 a = 1\n}\n', h + '\n\n\n"\n',
           h + 'message A {\n int32 a = 1;\n\n/* x\n\n', h + 'message A { int32 a = 19000; }', h + 'message A { int32 a = 19999; }', h + 'message A { int32 a = 536870912; }', h + 'message A { int32 a = 18446744073709551617; }', h + 'message A { int32 a = 4294967297; }']
    return [x.encode() for x in out]


def invalid_texts(c, r, n):
    out = fixed_texts()
    # every byte at every place of a schema, inserted and instead of the one there
    small = b'syntax = "proto3";package a.b;\noption x = "y\\z";\n// c\nmessage A { int32 a = 12 [x=-1,name="n"]; /*d*/ repeated A b=3; }\n'
    for k in range(len(small) + 1):
        for v in (range(256) if c.thorough or k % 4 == c.seed % 4 else r.sample(range(256), 24)):
            out += [small[:k] + bytes([v]) + small[k:], small[:k] + bytes([v]) + small[k + 1:]]
    # every keyword of C++ as the name of every kind of thing, and names close to the keywords
    h = 'syntax = "proto3";\n'
    for w in sorted(S.CPP_KEYWORDS - S.PROTO_KEYWORDS):
        for z in (w, w + '_', '_' + w, w[:-1], w.capitalize(), w.upper(), w + w[-1], w + '1'):
            if '__' in z:
                continue
            out += [x.encode() for x in (h + 'package %s;\nmessage A { int32 a = 1; }\n' % z, h + 'package %s.b;\nmessage A { int32 a = 1; }\n' % z, h + 'package a.%s;\nmessage A { int32 a = 1; }\n' % z,
                                         h + 'package a.%s.b;\nmessage A { int32 a = 1; }\n' % z, h + 'message A {\n int32 %s = 1;\n}\n' % z, h + 'message %s {\n int32 a = 1;\n}\n' % z,
                                         h + 'message A { int32 a = 1; }\nmessage B { repeated string b = 1; A %s = 2 [transient = true]; }\n' % z, h + 'message %s {}\nmessage B { repeated %s b = 1; }\n' % (z, z),
                                         h + 'option %s = 1;\nmessage A { int32 a = 1 [%s = 2]; }\n' % (z, z), h + 'message A { int32 a = 1 [name = "%s"]; }\n' % z)]
    # strings that are not closed in their line, whatever stands before the end of the line
    for v in range(1, 256):
        for e in (b'"%c\nb"', b'"a%c\n"', b'"\n%cb"', b'"%c\n', b'"\\%c\n"'):
            out.append(b'syntax = "proto3";\n' + (b'option x = ' + e % v + b';\n' if v % 2 else b'message A { int32 a = 1 [name=' + e % v + b']; }\n'))
    # mistakes in far lines, around the limits of small counters
    for far in (254, 255, 256, 32766, 32767, 32768, 65534, 65535, 65536, 131072):
        for k in range(5 if c.thorough else 2):
            e = r.choice([b'\n', b'\n', b'\r\n', b' \n', b'//\n', b'// x\n'])
            fill = r.choice([e * far, b'/*' + e.replace(b'//', b'') * far + b'*/', b'message A {' + e * (far // 2) + b' int32 b = 1;' + e * (far - far // 2), b'option x =' + e * far + b' 1;'])
            bad = r.choice([b'int32 = 1; }', b' message B { string s 1; }', b'"abc', b'$', b'/* open', b'import "a";', b'int32 a = ;', b' } }'])
            out.append(b'syntax = "proto3";' + fill + bad + r.choice([b'', b'\n', b'\n\nmessage C {}\n']))
    # truncation at every byte, and every token dropped or doubled, of a few schemas
    for i in range(12 if c.thorough else 3):
        s = simple_schema(r, 'e%d' % i, max_messages=3, max_fields=5)
        add_meaningless(r, s, 0.6)
        b = layout(r, S.proto_tokens(s), 0.4)
        out += [b[:k] for k in range(len(b) + 1)]
        toks = S.proto_tokens(s)
        for k in range(len(toks)):
            out += [layout(r, toks[:k] + toks[k + 1:], 0.2), layout(r, toks[:k] + [toks[k]] + toks[k:], 0.2), layout(r, toks[:k] + [r.choice(POOL)] + toks[k + 1:], 0.2)]
    while len(out) < n:
        s = simple_schema(r, 'e', max_messages=r.choice([1, 2, 4]), max_fields=r.choice([2, 4, 8]))
        if r.random() < 0.5:
            add_meaningless(r, s, 0.5)
        toks = S.proto_tokens(s)
        for _ in range(4):
            k = r.random()
            if k < 0.4:
                out.append(layout(r, edit_tokens(r, toks)))
            elif k < 0.65:
                out.append(edit_bytes(r, layout(r, toks)))
            else:
                t, what = edit_meaning(r, s)
                tt = S.proto_tokens(t)
                if what == 'syntax':
                    tt[2] = r.choice(['"proto2"', '"proto1"', '"proto"', '"proto33"', '"proto4"', '""', '"Proto3"', '"editions"', '"proto3 "', '" proto3"'])
                out.append(layout(r, tt))
    return out


#
# C23
#
def c23(c):
    exe = batch_exe(c)
    pg = compiler(c)
    c.log('built')
    r = random.Random('c23/%d' % c.seed)
    texts = invalid_texts(c, r, 400000 if c.thorough else 68000)
    res = run_batch(c, exe, texts)
    cli, rest = [], []
    for t, o in zip(texts, res):
        if o is None:
            continue
        kind, what, unspec = protoref.judge(t)
        if kind == 'ok' or unspec:
            c.count('texts that are valid' if kind == 'ok' else 'texts not judged')
            c.seen(t, False)
            if kind == 'ok' and not unspec and not o['ok']:
                c.violation('valid schema rejected: ' + re.sub(r"'.*|\(.*", '', o['error']), '%s\ntext: %r' % (o['error'], t), 'text: %r' % t)
            continue
        c.seen(t, True)
        c.count('invalid texts: ' + (kind if kind == 'syntax' else re.sub(r' .*', '', what[0])))
        if o['ok']:
            c.violation('invalid schema accepted: %s' % (kind if kind == 'syntax' else re.sub(r'\d+', 'N', what[0])), '%s %r\ntext: %r' % (kind, what, t), 'text: %r' % t)
        elif kind == 'syntax' and what and o['line'] not in what:
            c.violation('line of a syntax error', 'reported line %d (%s), the first offending token is in line %r\ntext: %r' % (o['line'], o['error'], what, t), 'text: %r' % t)
        elif kind == 'syntax' and what:
            c.count('lines of syntax errors compared')
            if max(what) > 1:
                c.count('syntax errors after the first line')
        (cli if r.random() < 0.03 else rest).append((t, kind, what))
    # the executable
    n = 6000 if c.thorough else 1300
    cli = cli[:n] + rest[:max(0, n - len(cli))]

    def one(a):
        i, (t, kind, what) = a
        p, h = c.path('cli', '%d.proto' % i), c.path('cli', '%d.hh' % i)
        with open(p, 'wb') as f:
            f.write(t)
        x = run([pg, p] + ([h] if i % 3 else []), timeout=60)
        made = os.path.exists(h)
        os.unlink(p)
        if made:
            os.unlink(h)
        return p, x, made
    for (t, kind, what), (p, x, made) in zip(cli, parallel(one, list(enumerate(cli)))):
        c.count('rejections by the executable')
        err = x.err.replace(p, 'FILE', 1)
        if x.rc == 0:
            c.violation('executable accepts an invalid schema', '%s %r: %r' % (kind, what, t), 'text: %r' % t)
        elif x.rc != 1:
            c.violation('executable ends with status %s' % x.rc, '%r: %r' % (x.err[:500], t), 'text: %r' % t)
        elif os.path.basename(p) not in x.err:
            c.violation('diagnostic does not name the file', '%r for %r' % (x.err[:500], t), 'text: %r' % t)
        elif kind == 'syntax' and what:
            m = re.search(re.escape(os.path.basename(p)) + r'\D{0,3}(\d+)', x.err)
            if not m or int(m.group(1)) not in what:
                c.violation('line in the diagnostic', '%r, expected line %r for %r' % (x.err[:500], what, t), 'text: %r' % t)
            c.count('diagnostics with the right line')
        if made:
            c.violation('header written for an invalid schema', '%r' % t, 'text: %r' % t)
    if not c.viols:
        for k in ('syntax', 'number', 'field', 'message', 'unknown', 'circular', 'option', 'C++', 'syntax', '65', 'JSON'):
            if not c.counters.get('invalid texts: ' + k):
                raise HarnessError('never observed: invalid texts: ' + k)


#
# C27
#
def c27(c):
    exe = batch_exe(c)
    c.log('built')
    r = random.Random('c27/%d' % c.seed)
    texts, models = [], []
    while len(texts) < (60000 if c.thorough else 12000):
        s = simple_schema(r, 'm', max_messages=r.choice([1, 2, 5, 12]), max_fields=r.choice([1, 4, 12, 40]))
        add_meaningless(r, s, 0.8)
        if r.random() < 0.1:
            m = r.choice(s.messages)
            m.fields = [S.Field('w%d' % i, r.choice(S.SCALARS), i * 3 + 1) for i in range(r.choice([62, 63, 64]))]
        if r.random() < 0.2:
            for m in s.messages:
                for f in m.fields:
                    if r.random() < 0.3 and f.number < 536870912:
                        f.number = next(x for x in r.sample([1, 2, 18999, 20000, 536870911, 536870910, 2147, 65536, 16777216, 268435456, 18998, 20001, 3, 4, 5], 15) + list(range(100, 1000)) if all(g.number != x for g in m.fields))
        texts.append(layout(r, S.proto_tokens(s)))
        models.append(schema_model(s))
    res = run_batch(c, exe, texts, faults=True)

    def fault(t, o):
        if not o['fault']:
            return
        c.count('parsing interrupted: ' + o['fault'])
        if not o['fsame']:
            c.violation('stream flags changed: ' + o['fault'], 'text: %r' % t, 'text: %r' % t)
        if o['fsilent']:
            c.violation('interrupted parsing reports success: ' + o['fault'], 'text: %r' % t, 'text: %r' % t)
    for t, m, o in zip(texts, models, res):
        if o is None:
            continue
        fault(t, o)
        c.seen(t, bool(m['messages']))
        # the two oracles, the schema generator and the reference reader, agree
        kind, what, unspec = protoref.judge(t)
        if kind != 'ok' or what != m:
            raise HarnessError('generator and reference reader disagree: %s %r\n%r' % (kind, what if kind != 'ok' else '', t))
        if not o['ok']:
            c.violation('valid schema rejected: ' + re.sub(r"'.*|\(.*", '', o['error']), '%s\ntext: %r' % (o['error'], t), 'text: %r' % t)
        elif o['model'] != m:
            c.violation('model differs: ' + difference(m, o['model'], True), '%s\ntext: %r' % (difference(m, o['model']), t), 'text: %r' % t)
        if not o['flags']:
            c.violation('stream flags changed', 'text: %r' % t, 'text: %r' % t)
        if o['file'] != '/some/file.proto':
            c.violation('file name lost', repr(o['file']))
        for x in m['messages']:
            c.count('messages compared')
            c.count('fields compared', len(x['fields']))
            c.count('options compared', len(x['options']) + sum(len(f['options']) for f in x['fields']))
            c.count('references resolved', sum(1 for f in x['fields'] if f['ref']))
    # lengths and counts around the limits of small counters
    texts, models = [], []
    for k, n in enumerate((254, 255, 256, 4095, 4096, 32767, 32768, 65535, 65536, 131072) * (3 if c.thorough else 1)):
        s = simple_schema(r, 'm', max_messages=3, max_fields=4)
        if k % 4 == 0:
            s.messages += [S.Message('Giant%d' % i, [S.Field('a', 'int32', i + 1 if i < 18000 else i + 20001)]) for i in range(min(n, 66000))]
        a, b = S.Message('x' * n), S.Message('y' * n + 'z', [S.Field('f' * n, 'string', 1, options=[('name', 'string', 'n ' * n), ('some.' * n + 'option', 'int', '9' * n)]), S.Field('g' * n, 'bool', 2, options=[('v', 'ident', 'i' * n)])])
        b.fields.insert(r.randint(0, 2), S.Field('h', a, 536870911, repeated=True))
        s.messages += [b, a]
        if k % 4 and r.random() < 0.5:
            s.package = r.choice(['p' * n, 'p.' * n + 'q'])
        texts.append(layout(r, S.proto_tokens(s), 0))
        models.append(schema_model(s))
    for t, m, o in zip(texts, models, run_batch(c, exe, texts)):
        if o is None:
            continue
        kind, what, unspec = protoref.judge(t)
        if kind != 'ok' or what != m:
            raise HarnessError('generator and reference reader disagree about a giant: %s' % kind)
        c.seen(t, True)
        c.count('giant schemas compared')
        if not o['ok']:
            c.violation('giant schema rejected', '%s\ntext: %r...' % (o['error'][:300], t[:300]), 'text: %r' % t)
        elif o['model'] != m:
            c.violation('model of a giant schema differs', '%s\ntext: %r...' % (difference(m, o['model'])[:2000], t[:300]), 'text: %r' % t)
    c.log('giants compared')
    # edited texts that are still accepted, and flags after failures
    texts = invalid_texts(c, r, 120000 if c.thorough else 25000)
    res = run_batch(c, exe, texts, faults=True)
    for t, o in zip(texts, res):
        if o is None:
            continue
        if not o['flags']:
            c.violation('stream flags changed', 'after %s: %s\ntext: %r' % ('success' if o['ok'] else 'failure', o['error'], t), 'text: %r' % t)
        c.count('flags compared after %s' % ('success' if o['ok'] else 'failure'))
        fault(t, o)
        if not o['ok']:
            continue
        kind, what, unspec = protoref.judge(t)
        if kind == 'ok' and not unspec:
            c.seen(t, True)
            c.count('edited texts compared')
            if o['model'] != what:
                c.violation('model differs: ' + difference(what, o['model'], True), '%s\ntext: %r' % (difference(what, o['model']), t), 'text: %r' % t)


def schema_model(s):
    full = s.package + '.' if s.package else ''

    def val(v):
        return v.encode('utf-8', 'surrogateescape').decode('latin-1')

    def opts(o):
        d = {}
        for n, k, v in o:
            d[n] = [k, val(str(v))]
        return d
    return {'options': opts(s.options), 'messages': [
        {'package': s.package, 'name': m.name, 'options': opts(m.options), 'fields': [
            {'type': 'message' if isinstance(f.type, S.Message) else f.type, 'ref': full + f.type.name if isinstance(f.type, S.Message) else None, 'repeated': f.repeated,
             'optional': f.optional and not f.repeated, 'name': f.name, 'number': f.number, 'options': opts(f.options)} for f in m.fields]} for m in s.messages]}


def difference(a, b, brief=False, where=''):
    if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
        for k in a:
            if a[k] != b[k]:
                return difference(a[k], b[k], brief, where + ('.' + k if not brief or k in ('options', 'messages', 'fields', 'type', 'ref', 'repeated', 'optional', 'name', 'number', 'package') else ''))
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return difference(x, y, brief, where + ('' if brief else '[%d]' % i))
    return where if brief else '%s: expected %s, got %s' % (where, json.dumps(a)[:800], json.dumps(b)[:800])


#
# C22
#
def c22(c):
    pg = compiler(c)
    r0 = random.Random('c22/%d' % c.seed)
    seeds = [r0.randrange(1 << 60) for _ in range(3000 if c.thorough else 500)]

    def one(seed):
        r = random.Random(seed)
        s = simple_schema(r, 'v', max_messages=r.choice([1, 3, 6]), max_fields=r.choice([2, 6, 14, 40]))
        d = c.path('v%d' % seed, 'x')[:-1]
        p, h = d + 'v.proto', d + 'v.hh'

        def gen(text):
            with open(p, 'wb') as f:
                f.write(text)
            x = run([pg, p, h], timeout=60)
            out = None
            if x.rc == 0:
                with open(h, 'rb') as f:
                    out = f.read()
                os.unlink(h)
            return x, out
        base = S.proto_text(s).encode('utf-8', 'surrogateescape')
        x, want = gen(base)
        if want is None:
            shutil.rmtree(d)
            return [('valid schema rejected', x.err, base, base)], 0, []
        viols, texts = [], []
        for k in range(8):
            t = s.twin(s.name, s.package, list(s.options))
            what = 'layout'
            if k % 4 == 1:
                for m in t.messages:
                    r.shuffle(m.fields)
                what = 'field order'
            if k % 4 == 2:
                add_meaningless(r, t, 1)
                what = 'options without meaning'
            if k % 4 == 3:
                for m in t.messages:
                    r.shuffle(m.fields)
                add_meaningless(r, t, 1)
                what = 'everything'
            toks = S.proto_tokens(t)
            if r.random() < 0.03:
                # something very long between two tokens
                at, n = r.randint(0, len(toks)), r.choice([254, 255, 256, 1022, 1023, 1024, 4094, 4095, 4096, 8190, 8191, 8192, 32766, 32768, 65534, 65535, 65536, 131072]) + r.choice([0, 0, 1, 2])
                text = layout(r, toks[:at], 0.2) + b'\n' + r.choice([b'//' + b'x' * n + b'\n', b'/*' + b'*' * n + b'*/', b'/*' + b'/' * n + b'*/', b'/*' + b'\n' * n + b'*/', b'\n' * n, b' ' * n, b'\r\n' * n, b'\t' * n, b'//\n' * n, b'/**/' * n]) + layout(r, toks[at:], 0.2)
                what += ' and a long gap'
            else:
                text = layout(r, toks, None if k else 0)
            x, got = gen(text)
            texts.append((what, text))
            if got != want:
                if got is None:
                    viols.append(('rejected after a change of ' + what, x.err, base, text))
                else:
                    i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), 0)
                    viols.append(('generated code differs: ' + what, 'expected %r, got %r' % (want[max(0, i - 200):i + 300], got[max(0, i - 200):i + 300]), base, text))
        shutil.rmtree(d)
        return viols, len(s.messages), texts
    for viols, n, texts in parallel(one, seeds):
        for what, text in texts:
            c.seen(text, n > 0)
            c.count('variants: ' + what)
        for key, detail, base, text in viols:
            c.violation(key, '%s\nschema: %r\nvariant: %r' % (detail, base, text), 'schema: %r\nvariant: %r' % (base, text))
    c.log('generated code compared')
    # order of messages: same types and behaviour
    import jsonmon as J
    schemas = []
    bases = [S.sink()] + [S.random_schema(r0, 'ord%d' % i, package='o%d.p' % i) for i in range(8 if c.thorough else 3)]
    for b in bases:
        t = b.twin(b.name + '_obf', b.package + '_o', list(b.options))      # the monitor pairs schemas by this suffix
        # twins as far apart as possible: by reference, and the other way round
        r0.shuffle(t.messages)
        schemas += [b, t]
    exe = build_monitor(c, schemas)
    if exe:
        J.run_monitor(c, exe, 'C14', 100000 if c.thorough else 10000, schemas)
        if not c.counters.get('messages compared') and not c.viols:
            raise HarnessError('never observed: messages compared')


#
# C20
#
USE = r'''
#include <type_traits>
#include <utility>
#include <cstdlib>
#include <new>
#define CHECK(x) do { if (!(x)) { fprintf(stderr, "FAILED %s\n", #x); exit(7); } } while (false)

template<typename M> void use()
{
    static_assert(std::is_default_constructible<M>::value, "default constructor");
    static_assert(std::is_copy_constructible<M>::value && std::is_copy_assignable<M>::value, "copy");
    static_assert(std::is_move_constructible<M>::value && std::is_move_assignable<M>::value, "move");
    static_assert(std::is_class<M>::value, "class");
    M a; const M &ca = a;
    M b(ca); M c(std::move(b)); M d = ca; b = ca; d = std::move(c); d = a;
    PG::Parameters p;
    p.ensure_ascii = false; p.serialize_null = false;
    std::string s; std::vector<char> v; std::ostringstream os; char buf[64] = { 0 };
    CHECK(ca.serialize(s)); CHECK(ca.serialize(s, &p)); CHECK(p.error.code == PG::PGERR_OK);
    CHECK(ca.serialize(v)); CHECK(ca.serialize(v, &p));
    CHECK(ca.serialize(os)); CHECK(ca.serialize(os, &p));
    CHECK(a.serialize(buf, sizeof(buf))); CHECK(a.serialize(buf, sizeof(buf), &p));
    CHECK(s == "{}{}"); CHECK(std::string(v.begin(), v.end()) == s); CHECK(os.str() == s); CHECK(std::string(buf) == "{}");
    s = "{}"; v.assign(s.begin(), s.end()); std::istringstream is(s), is2(s);
    CHECK(a.deserialize(s)); CHECK(a.deserialize(s, &p)); CHECK(a.deserialize("{}"));
    CHECK(a.deserialize(v)); CHECK(a.deserialize(v, &p));
    CHECK(a.deserialize(is)); CHECK(a.deserialize(is2, &p));
    CHECK(a.deserialize(s.c_str(), s.length())); CHECK(a.deserialize(s.c_str(), s.length(), &p));
    s = "["; CHECK(!a.deserialize(s, &p));
    int line = p.error.line, column = p.error.column; std::string message = p.error.message; PG::error_code code = p.error.code;
    CHECK(line == 1 && column == 1 && !message.empty() && code != PG::PGERR_OK);
    CHECK(ca.empty()); a.clear(); CHECK(ca.equal(b)); CHECK(ca == b); CHECK(!(ca != b));
    a.swap(b);
    M *h = new M[2]; h[0] = h[1]; delete[] h;
    std::vector<M> many(3, ca); many.push_back(M()); CHECK(many.size() == 4 && many[0] == many[3]);
}
'''

VALUES = {'double': '1.5', 'float': '1.5F', 'int32_t': '-5', 'int64_t': '-5', 'uint32_t': '5u', 'uint64_t': '5u', 'bool': 'true'}


def api_text(s, header, ns):
    o = '#include "%s"\n#define PG ::%s\n%s' % (header, ns, USE)
    lists = 'std::list' if s.flag('cpp_use_lists') else 'std::vector'
    body = ''
    for m in s.messages:
        t = S.cpp_type(s, m)
        body += '    use< %s >();\n    {\n        %s o; const %s &co = o; (void) co;\n' % (t, t, t)
        for f in m.fields:
            e = S.cpp_type(s, f.type) if isinstance(f.type, S.Message) else 'PG::string_field' if f.type == 'string' else 'std::vector<uint8_t>' if f.type == 'bytes' else S.CPP[f.type]
            w = '%s< %s >' % (lists, e) if f.repeated else e if isinstance(f.type, S.Message) or f.type in ('string', 'bytes') else 'PG::field< %s >' % e
            o += 'static_assert(std::is_same< decltype(%s::%s), %s >::value, "type of %s.%s");\n' % (t, f.name, w, m.name, f.name)
            body += '        CHECK(co.%s.empty());' % f.name
            if not f.repeated and not isinstance(f.type, S.Message):
                if f.type == 'string':
                    body += ' o.%s = "x"; CHECK(!co.%s.empty()); CHECK(co.%s == "x"); { std::string z = co.%s; CHECK(z == "x"); } { std::ostringstream z; z << co.%s; CHECK(z.str() == "x"); }' % ((f.name,) * 5)
                elif f.type == 'bytes':
                    body += ' o.%s.push_back(1); CHECK(!co.%s.empty());' % (f.name, f.name)
                else:
                    body += ' o.%s = %s; CHECK(!co.%s.empty()); { %s z = co.%s; CHECK(z == %s); }' % (f.name, VALUES[e], f.name, e, f.name, VALUES[e])
            elif f.repeated:
                one = {'PG::string_field': '"x"', 'std::vector<uint8_t>': 'std::vector<uint8_t>(1, 1)'}.get(e, '%s()' % e)
                body += ' o.%s.push_back(%s); CHECK(co.%s.size() == 1);' % (f.name, one, f.name)
            body += '\n'
        body += '        %s x(co); CHECK(x == co); x.clear(); CHECK(x.empty()); CHECK(x == %s());\n    }\n' % (t, t)
    return o + 'int main()\n{\n' + body + '    return 0;\n}\n'


def special_schemas():
    F, M, X = S.Field, S.Message, S.Schema
    out = [S.sink(), S.sink().twin('sink_all', 'sinkall.x', S.flags(True, True, True)), S.names_schema(), S.names_schema().twin('names_all', 'nm', S.flags(True, False, True))]
    out.append(X('nothing'))
    out.append(X('nopackage', '', [M('Person', [F('name', 'string', 1), F('age', 'int32', 2), F('pets', 'string', 3, True)]), M('Empty1')]))
    out.append(X('onlyempty', 'only', [M('A'), M('B')]))
    for t in S.SCALARS:
        out.append(X('one_' + t, 'one', [M('A', [F('a', t, 1)])]))
        out.append(X('rep_' + t, 'rep', [M('A', [F('a', t, 1, True)])], S.flags(t in ('int32', 'bytes', 'string'), None, t in ('bool', 'bytes', 'float'))))
    leaf = M('Leaf')
    out.append(X('onlyrefs', 'refs', [M('B', [F('a', leaf, 1), F('b', leaf, 2, True)]), leaf]))
    # names of types, packages and fields that meet
    a, b = M('a', [F('b', 'int32', 1), F('c', 'string', 2)]), M('b')
    b.fields = [F('a', a, 1), F('c', a, 2, True), F('d', 'bytes', 3)]
    c = M('c', [F('a', b, 1), F('b', a, 2), F('p', b, 3, True)])
    out.append(X('meet', 'p', [c, b, a]))
    out.append(X('samepkg', 'p.p', [M('p', [F('q', 'int32', 1)]), M('q', [F('p', 'string', 1)])]))
    msg = M('message', [F('package', 'string', 1), F('x', 'bool', 2)])
    out.append(X('keywords', 'kw', [msg, M('package', [F('message', 'double', 1, True)]), M('import', [F('final', 'int32', 1), F('override', 'int32', 2), F('module', 'int32', 3)]), M('option_', [F('any', 'bytes', 1)])]))
    rt = ['json', 'field', 'token', 'tokenizer', 'ostream', 'Parameters', 'ErrorInfo', 'error_code', 'string_field', 'json_context', 'internal', 'reveal', 'rol', 'array', 'number', 'object', 'istream']
    out.append(X('runtime_names', 'rt', [M(n, [F(x, 'int32', i + 1) for i, x in enumerate(rt) if x != n][:6] + [F('s', 'string', 50), F('l', 'double', 51, True)]) for n in rt]))
    fn = ['ctx', 'value', 'name', 'idx', 'index', 'read', 'write', 'read_field', 'write_field', 'read_object', 'a', 'b', 'f', 'it', 'temp', 'FIELDS', 'json', 'T', 'J', 'N', 'O', 'S', 'params', 'in', 'out', 'len', 'is', 'os', 'that', 'tok', 'result', 'code', 'error', 'main', 'use', 'use_', 'string_', 'vector', 'list', 'move']
    out.append(X('member_names', 'protogen', [M('Value', [F(n, S.SCALARS[i % 15], i + 1, i % 4 == 3) for i, n in enumerate(fn)])], S.flags(True)))
    out.append(X('pkg_json', 'json.field.internal', [M('json', [F('field', 'int32', 1)]), M('T', [F('value', 'string', 1, True)])]))
    out.append(X('deep_pkg', '.'.join('n%d' % i for i in range(40)), [M('A', [F('a', 'int32', 1)])]))
    out.append(X('under', '_p._q', [M('_m', [F('_f', 'int32', 1), F('f_', 'int32', 2), F('_', 'string', 3)]), M('M_', [F('x', 'int32', 1)])]))
    out.append(X('long', 'l' * 200, [M('m' * 300, [F('f' * 500, 'int32', 1), F('f' * 499, 'string', 2, True)])]))
    chain = [M('C0', [F('v', 'int32', 1)])]
    for i in range(1, 30):
        chain.append(M('C%d' % i, [F('n', chain[-1], 1, i % 3 == 0)]))
    out.append(X('chain', 'chain', chain[::-1]))
    out.append(X('diamond', 'dia', [M('Top', [F('l', chain[1], 1), F('r', chain[1], 2), F('m', chain[0], 3, True)]), chain[1], chain[0]]))
    out.append(X('alltransient', 'tr', [M('A', [F('a', 'int32', 1, options=[('transient', 'bool', 'true')]), F('b', 'bytes', 2, True, options=[('transient', 'bool', 'true')])])], S.flags(True)))
    out.append(X('full', 'full', [M('W', [F('w%d' % i, S.SCALARS[i % 15], 536870911 - i, i % 2 == 1) for i in range(64)])], S.flags(False, True)))
    return out


ODD_FILES = ['a b.proto', 'a\\.proto', 'a\\', 'ü.proto', '中文', 'a"b.proto', "a'b.proto", '$1$.proto', '$', '$x$', '%s%n.proto', '*/x.proto', 'x??/y', 'x??', '-x.proto', '.proto', 'a\tb.proto', 'a\nb.proto', 'a\n#error x\n.proto',
             'a\rb.proto', 'x' * 200 + '.proto', '#include.proto', '\x01\x7f.proto', '//x', 'a\\\n', '\x80\xff'.encode('latin-1').decode('utf-8', 'surrogateescape'), 'R"(', '0.proto', '\u2028\u202e.proto']
STDS = [('g++', s) for s in ('c++11', 'c++14', 'c++17', 'c++20', 'c++23')] + [('clang++', s) for s in ('c++11', 'c++14', 'c++17', 'c++20', 'c++23')]


def first_error(err):
    m = re.search(r'error: (.*)', err)
    return re.sub(r"'[^']*'|‘[^’]*’|\d+", '_', m.group(1))[:120] if m else 'error'


def c20(c):
    pg = compiler(c)
    r = random.Random('c20/%d' % c.seed)
    schemas = [(s, True) for s in special_schemas()]
    for i in range(150 if c.thorough else 22):
        schemas.append((S.random_schema(r, 'rnd%d' % i, package=r.choice([None, None, '']), max_messages=r.choice([2, 7, 12]), max_fields=r.choice([4, 14, 30])), False))
    jobs = []
    for s, special in schemas:
        p, h, cc = (c.path(s.name, s.name + e) for e in ('.proto', '.pg.hh', '.cc'))
        with open(p, 'w', encoding='utf-8', errors='surrogateescape') as f:
            f.write(S.proto_text(s))
        x = generate(c, pg, p, h)
        if x.rc != 0:
            c.violation('valid schema rejected', x.err + '\n' + S.proto_text(s), S.proto_text(s))
            continue
        with open(cc, 'w') as f:
            f.write(api_text(s, h, runtime_namespace(h)))
        combos = [(a, b, 'syntax') for a, b in STDS] if c.thorough or s.name in ('sink', 'member_names') else [(a, b, 'syntax') for a, b in r.sample(STDS, 3 if special else 4)] + [('g++', 'c++11', 'syntax')]
        # one of them compiled, linked and run
        combos = list(dict.fromkeys(combos))
        combos.append((r.choice(['g++', 'clang++']), r.choice(['c++11', 'c++17', 'c++20']), 'run'))
        jobs += [(s, h, cc, i) + x for i, x in enumerate(combos)]
    jobs.sort(key=lambda j: (j[6] != 'run', -len(j[0].messages)))

    def one(job):
        s, h, cc, i, comp, std, how = job
        if how == 'syntax':
            x = cxx(c, [comp, '-std=' + std, '-fsyntax-only', '-pedantic-errors', cc], s.name)
            return job, x, None
        exe = c.path(s.name, 'exe%d' % i)
        x = cxx(c, [comp, '-std=' + std, '-O0', '-g1', cc, '-o', exe] + (ASAN if comp == 'clang++' else ['-fsanitize=address']), s.name)
        y = run([exe], timeout=60) if x.rc == 0 else None
        if os.path.exists(exe):
            os.unlink(exe)
        return job, x, y
    for (s, h, cc, i, comp, std, how), x, y in parallel(one, jobs):
        where = '%s -std=%s, schema %s' % (comp, std, s.name)
        c.count('compiled as ' + std)
        c.count('compilations by ' + comp)
        c.seen('%s %s\n%s' % (comp, std, S.proto_text(s)), True)
        if x.rc != 0:
            c.violation('generated header does not compile or lacks the documented members: ' + first_error(x.err), '%s\n%s\n%s' % (where, x.err[:2500], S.proto_text(s)[:3000]), '%s\n%s' % (where, S.proto_text(s)))
        elif y is not None:
            c.count('programs run')
            c.count('members used', sum(len(m.fields) for m in s.messages))
            if y.rc != 0:
                rep = sanitizer_report(y.err)
                c.violation('program using the documented operations fails: ' + (rep[0] if rep else re.sub(r'co\.\w+|o\.\w+', 'field', y.err[:200])), '%s\n%s\n%s' % (where, y.err[:2500], S.proto_text(s)[:3000]), '%s\n%s' % (where, S.proto_text(s)))
    c.log('schemas done')
    readme(c, pg)
    # names of the schema file
    def odd(a):
        i, name = a
        d = c.path('odd%d' % i, 'x')[:-1]
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write('syntax = "proto3"; package o; message A { int32 a = 1; }')
        h = d + 'odd.hh'
        x = run([pg, p, h], timeout=60)
        if x.rc != 0:
            return name, 'compiler', x
        cc = d + 'odd.cc'
        with open(cc, 'w') as f:
            f.write('#include "odd.hh"\n#include "odd.hh"\nint main() { o::A a; std::string s; a.a = 1; return a.serialize(s) && s == "{\\"a\\":1}" ? 0 : 1; }\n')
        return name, 'header', cxx(c, ['g++', '-std=c++11', '-fsyntax-only', cc], name)
    for name, what, x in parallel(odd, list(enumerate(ODD_FILES))):
        c.seen('file ' + name, True)
        c.count('names of schema files')
        if x.rc != 0:
            c.violation('schema file name is not accepted' if what == 'compiler' else 'header of an oddly named file does not compile', '%r: %s' % (name, x.err[:2000]), repr(name))


def readme(c, pg):
    """The example of README.md, as printed there"""
    with open(os.path.join(REPO, 'README.md'), encoding='utf-8') as f:
        text = f.read()
    m = re.search(r'(syntax = "proto3";.*?)```.*?```c\+\+(.*?)```', text, re.S)
    if not m:
        return
    p, h, cc, exe = (c.path('readme', n) for n in ('model.proto', 'model.pg.hh', 'x.cc', 'x'))
    with open(p, 'w') as f:
        f.write(m.group(1))
    x = generate(c, pg, p, h)
    if x.rc != 0:
        c.violation('the example of README.md is rejected', x.err)
        return
    ns = runtime_namespace(h)
    code = re.sub(r'protogen_\d+_\d+_\d+', ns, m.group(2))
    inc, body = code.split('...', 1)
    body = body.rsplit('...', 1)[0]
    with open(cc, 'w') as f:
        f.write(inc + 'int main() {\n' + body + 'std::cout << json << std::endl;\nreturn 0;\n}\n')
    x = cxx(c, ['g++', '-std=c++11', cc, '-o', exe], 'readme')
    if x.rc != 0:
        c.violation('the example of README.md does not compile', x.err[:3000])
        return
    y = run([exe])
    lines = y.out.split('\n')
    try:
        ok = y.rc == 0 and lines[0] == lines[1] == '이주영' and json.loads(lines[2]) == {'name': '이주영', 'age': 32, 'pets': ['티그']}
    except (ValueError, IndexError):
        ok = False
    c.seen('example of README.md', True)
    if not ok:
        c.violation('the example of README.md prints something else', repr(y.out[:500]))


#
# C21
#
def combination(r, k):
    """Small schemas that need different parts of the runtime, and files whose paths or names almost collide"""
    F, M, X = S.Field, S.Message, S.Schema
    out, paths = [], {}
    kinds = ['num', 'str', 'bytes', 'repnum', 'repstr', 'repbytes', 'none', 'nothing', 'refs', 'random', 'random']
    r.shuffle(kinds)
    opts = lambda: S.flags(r.choice([None, True, False]), r.choice([None, None, True]), r.choice([None, True, False]))
    shared = ['Item', 'Node', 'Message1']
    for i, kind in enumerate(kinds[:k]):
        name = '%s%d' % (kind, i)
        pkg = r.choice(['p%d' % i, 'deep.p%d' % i, 'p.p%d.p' % i])
        a, b = r.sample(shared, 2)
        if kind == 'nothing':
            s = X(name, pkg, [], opts())
        elif kind == 'random':
            s = S.random_schema(r, name, package=pkg, max_messages=4, max_fields=8, options=opts())
        else:
            t = {'num': 'int32', 'str': 'string', 'bytes': 'bytes', 'repnum': 'double', 'repstr': 'string', 'repbytes': 'bytes'}.get(kind)
            if kind in ('num', 'repnum'):
                t = r.choice([x for x in S.SCALARS if x not in ('string', 'bytes')])
            leaf = M(a, [F('v', t, r.randint(1, 99), kind.startswith('rep'))] if t else [])
            s = X(name, pkg, [leaf], opts())
            if kind == 'refs' or r.random() < 0.5:
                s.messages.insert(0, M(b, [F('x', leaf, 1), F('y', leaf, 2, r.random() < 0.5)]))
        out.append(s)
    # one package in two files, the same message names elsewhere, and none
    t1, t2 = r.sample(S.SCALARS, 2)
    out.append(X('same1', 'same.pkg', [M('Item', [F('a', t1, 1, r.random() < 0.5)])], opts()))
    out.append(X('same2', 'same.pkg', [M('Other', [F('a', t2, 1, r.random() < 0.5)]), M('Node', [F('b', 'bool', 1)])], opts()))
    out.append(X('same3', 'same', [M('Item', [F('c', t2, 1)])], opts()))
    out.append(X('top', '', [M('TopItem%d' % k, [F('d', t1, 1)])], opts()))
    # paths that differ little
    near = r.choice([['a_b/c', 'a/b_c', 'a/b/c', 'a_b_c'], ['x/model', 'y/model', 'X/model', 'z/x/model'], ['a.b', 'a-b', 'a+b', 'a b'], ['\u00e9', '\u00e8', '\u00ea', 'e'], ['m', 'M', 'm_', '_m']])
    for s, p in zip(r.sample(out, 4), near):
        paths[s.name] = p
    r.shuffle(out)
    return out, paths


def near_paths(r, n):
    """Pairs of paths that differ little: in one character or its case or kind, in the order of characters or parts, only at the start, only in length"""
    chars = 'abcdefgXYZ0189_-+., ~@%'

    def part(m):
        return r.choice('abcdXYZ_') + ''.join(r.choice(chars) for _ in range(m - 1)).rstrip('. ') + 'e'
    for i in range(n):
        parts = [part(r.choice([1, 2, 3, 8, 20, 60, 120, 190])) for _ in range(r.choice([1, 1, 2, 3, 5, 9, 14]))]
        if sum(map(len, parts)) > 2800:
            parts = parts[:9]
        other = list(parts)
        k = r.randrange(len(parts))
        kind = r.choice(['char', 'case', 'mark', 'start', 'start', 'swap', 'parts', 'more', 'end', 'dash', 'turn', 'slash'])
        p = list(parts[k])
        j = r.randrange(len(p))
        if kind == 'char':
            p[j] = r.choice([x for x in 'bcdefgXYZ0189' if x != p[j]])
        elif kind == 'case':
            p = [x.swapcase() for x in p]
        elif kind == 'mark':
            p = [r.choice('-+.~@%=') if x == '_' else '_' if not x.isalnum() else x for x in p]
        elif kind == 'swap':
            r.shuffle(p)
        elif kind == 'turn':
            # the same marks in another order
            if sum(1 for x in p if not x.isalnum()) < 2:
                p = parts[k] = list('a-b_c.d+e')
                parts[k] = 'a-b_c.d+e'
            at = [q for q, x in enumerate(p) if not x.isalnum()]
            for q, x in zip(at, [p[q] for q in at][::-1]):
                p[q] = x
        elif kind == 'dash':
            p = p[:j] + [r.choice('_-.')] + p[j:]
        elif kind == 'end':
            p += ['0']
        other[k] = ''.join(p)
        if kind == 'start':
            other[0] = other[0][::-1] + 'x'
        elif kind == 'parts':
            r.shuffle(other)
        elif kind == 'slash':
            parts[0], other[0:1] = r.choice([('a_b/c', ['a', 'b_c']), ('a/b.c', ['a.b', 'c']), ('a-b/c/d', ['a', 'b', 'c-d']), ('a b/c', ['a', 'b c'])])
        elif kind == 'more':
            other.insert(0, r.choice(parts))
        if any(x in ('', '.', '..') or len(x) > 200 for x in other) or other == parts:
            other = ['q'] + parts
        yield kind, '/'.join(parts), '/'.join(other)


def c21_paths(c, pg, r, n):
    """Headers of schemas at paths that almost coincide, all in one source file"""
    made, kinds = {}, {}
    for kind, a, b in near_paths(r, n):
        # no path may be a directory of another one
        for x in (a, b):
            made.setdefault(x + '.proto', len(made))
        kinds[kind] = kinds.get(kind, 0) + 1
        c.seen(a + '|' + b, True)
    # every character before the part that differs
    for v in [x for x in range(1, 128) if x != 47] + r.sample(range(128, 256), 12):
        x = 'odd%d/q' % (v % 7) + (chr(v) if v < 128 or v % 2 else os.fsdecode(bytes([v])))
        for e in ('one', 'two'):
            made.setdefault(x + e + '.proto', len(made))
        kinds['odd'] = kinds.get('odd', 0) + 1
        c.seen(repr(x), True)
    root = c.path('near', 'x')[:-1]
    for p, i in made.items():
        os.makedirs(os.path.dirname(os.path.join(root, p)), exist_ok=True)
        with open(os.path.join(root, p), 'w') as f:
            f.write('syntax = "proto3";\npackage n%d;\nmessage M%d { string s = 1; repeated N%d n = 2; }\nmessage N%d { int32 a = 1; }\n' % (i, i, i, i))

    def gen(a):
        p, i = a
        h = c.path('nearh', '%d.hh' % i)
        # relative or absolute
        return h, run([pg, os.path.join(root, p) if i % 3 else p, h], timeout=60, cwd=root)
    items = sorted(made.items(), key=lambda x: x[1])
    hs = []
    for (p, i), (h, x) in zip(items, parallel(gen, items)):
        if x.rc != 0:
            return c.violation('valid schema rejected', '%s: status %s: %s' % (p, x.rc, x.err[-600:]), p)
        hs.append((h, p, i))
    c.count('headers of near paths', len(hs))

    def together(share):
        cc = c.path('nearcc', '%d.cc' % share[0][2])
        with open(cc, 'w') as f:
            f.write(''.join('#include "%s"\n' % h for h, _, _ in share))
            f.write('int main()\n{\n' + ''.join('    { n%d::M%d m; n%d::N%d n; m.n.push_back(n); m.s = "x"; std::string t; m.serialize(t); }\n' % (i, i, i, i) for _, _, i in share) + '}\n')
        return cxx(c, ['clang++', '-std=c++11', '-fsyntax-only', '-ferror-limit=1', cc], 'near')
    for k, x in enumerate(parallel(together, [hs[j:j + 44] for j in range(0, len(hs), 40)])):
        c.count('source files of near headers')
        if x.rc != 0:
            m = re.search(r"error: .*?'?n(\d+)'?", x.err)
            p = next((p for _, p, i in hs if m and i == int(m.group(1))), '?')
            c.violation('headers of schemas at similar paths exclude each other', '%s\nfirst lost: %s' % (x.err[:600], p), '\n'.join(p for _, p, _ in hs[k * 40:k * 40 + 44]))


def sample_json(s, m, depth=0):
    """A document for a message, for programs that only pass it on"""
    def value(t):
        if not isinstance(t, str):
            return sample_json(s, t, depth + 1)
        return {'string': '"xy\\u00e9"', 'bytes': '"AAH+"', 'bool': 'true', 'double': '0.1', 'float': '2.5'}.get(t, '77')
    out = []
    for f in m.fields:
        if f.transient or depth > 4:
            continue
        v = value(f.type)
        out.append(json.dumps(s.json_name(f)) + ':' + ('[%s,%s]' % (v, v) if f.repeated and depth < 3 else '[%s]' % v if f.repeated else v))
    return '{' + ','.join(out) + '}'


def c21_programs(c, schemas, r, tag, n):
    """Programs of three files that hand messages to each other: every file includes all headers in its own order"""
    ms = [(s, m) for s in schemas for m in s.messages]
    docs = [cstr_raw(sample_json(s, m)) for s, m in ms]

    def headers():
        hs = list(c.headers) + r.choices(c.headers, k=2)
        r.shuffle(hs)
        return ''.join('#include "%s"\n' % h for h in hs) + '#include <typeinfo>\n#include <string>\n'

    def build(k):
        src, std = headers_of[k]
        d = c.path('prog', '%s-%d-x' % (tag, k))
        t = [S.cpp_type(s, m) for s, m in ms]
        one = src[0] + ''.join('bool read_%d(%s &m) { return m.deserialize(std::string(%s)); }\nconst std::type_info &type_%d() { return typeid(%s); }\nsize_t size_%d() { return sizeof(%s); }\n' % (i, x, docs[i], i, x, i, x) for i, x in enumerate(t))
        two = src[1] + ''.join('std::string text_%d(const %s &m) { std::string o; if (!m.serialize(o)) o = "failed"; return o; }\n%s copy_%d(%s m) { return m; }\n' % (i, x, x, i, x) for i, x in enumerate(t))
        three = src[2] + '#include <cstdio>\n' + ''.join('bool read_%d(%s &m); const std::type_info &type_%d(); size_t size_%d(); std::string text_%d(const %s &m); %s copy_%d(%s m);\n' % (i, x, i, i, i, x, x, i, x) for i, x in enumerate(t)) \
            + '#define FAIL(i, what) do { printf("%d %s\\n", i, what); return 1; } while (0)\nint main()\n{\n' \
            + ''.join('    { %s m; std::string o; if (!read_%d(m)) FAIL(%d, "is not read"); if (type_%d() != typeid(%s) || size_%d() != sizeof(%s)) FAIL(%d, "is another type"); if (!m.serialize(o) || o != text_%d(m)) FAIL(%d, "gives another text"); if (copy_%d(m) != m) FAIL(%d, "is copied wrongly"); }\n' % (x, i, i, i, x, i, x, i, i, i, i, i) for i, x in enumerate(t)) + '    return 0;\n}\n'
        fs = []
        for j, (text, (comp, std1)) in enumerate(zip((one, two, three), std)):
            f = d + '%d.cc' % j
            with open(f, 'w') as out:
                out.write(text)
            x = cxx(c, [comp, '-std=' + std1, '-O0', '-c', f, '-o', f + '.o'], 'program')
            if x.rc != 0:
                return k, 'does not compile: ' + first_error(x.err), '%s -std=%s\n%s' % (comp, std1, x.err[:1500])
            fs.append(f + '.o')
        x = cxx(c, ['g++', '-o', d + 'exe'] + fs, 'program')
        if x.rc != 0:
            return k, 'does not link', x.err[:1500]
        x = run([d + 'exe'], timeout=60)
        if x.rc != 0:
            w = x.out.split(' ', 1)
            return k, 'does not work: message ' + w[-1].strip() if x.out else 'does not work: status %s' % x.rc, '%s\n%s' % (S.cpp_type(*ms[int(w[0])]) if x.out else '', x.err[:1500])
        return k, None, None
    headers_of = [([headers() for _ in range(3)], [r.choice(STDS) for _ in range(3)]) for _ in range(n)]
    text = '\n\n'.join('--- %s.proto\n%s' % (s.name, S.proto_text(s)) for s in schemas)
    for k, what, detail in parallel(build, list(range(n))):
        c.count('programs of several files run')
        c.count('messages handed between files', len(ms))
        if what:
            c.violation('program of several files ' + what, detail, 'files including all headers in these orders, with %r:\n%s\n%s' % (headers_of[k][1], '\n'.join(headers_of[k][0]), text))


def cstr_raw(t):
    return '"' + ''.join(chr(b) if chr(b).isalnum() else '\\%03o' % b for b in t.encode('utf-8')) + '"'


def c21(c):
    import jsonmon as J
    r = random.Random('c21/%d' % c.seed)
    pg = compiler(c)
    c21_paths(c, pg, random.Random('c21p/%d' % c.seed), 400 if c.thorough else 100)
    n = 16 if c.thorough else 3
    for i in range(n):
        schemas, paths = combination(r, r.choice([4, 5, 6]))
        gnu = i % 3 == 1
        exe = build_monitor(c, schemas, name='set%d' % i, paths=paths, combine=r, cxxs=['clang++'] if not gnu else ['g++', 'clang++'], flags=ASAN if not gnu else ('-fsanitize=address',))
        text = '\n\n'.join('--- %s\n%s' % (paths.get(s.name, s.name) + '.proto', S.proto_text(s)) for s in schemas)
        c.seen(text, True)
        if not exe:
            continue
        c.count('programs linked')
        c.count('source files including all headers', len(schemas))
        used = [s for s in schemas if s.messages]
        for mon in ('C01', 'C03', 'C09', 'C02'):
            J.run_monitor(c, exe, mon, 8000 if c.thorough else 1600, used)
        # more orders and repetitions, with both compilers and all standards
        jobs = []
        for k in range(60 if c.thorough else 16):
            hs = list(c.headers) + r.choices(c.headers, k=r.randint(0, 6))
            r.shuffle(hs)
            if k % 2:
                hs = hs[:r.randint(2, len(hs))]
            cc = c.path('order', '%d-%d.cc' % (i, k))
            with open(cc, 'w') as f:
                f.write(''.join('#include "%s"\n' % h for h in hs) + 'int x;\n')
            jobs.append((cc, hs) + r.choice(STDS))
        for (cc, hs, comp, std), x in zip(jobs, parallel(lambda j: cxx(c, [j[2], '-std=' + j[3], '-fsyntax-only', j[0]], 'order'), jobs)):
            c.seen(comp + std + ' '.join(hs), True)
            c.count('orders of inclusion compiled')
            if x.rc != 0:
                c.violation('headers do not compile together: ' + first_error(x.err), '%s -std=%s\n%s\n%s' % (comp, std, '\n'.join(hs), x.err[:2500]), '%s -std=%s, order:\n%s\n%s' % (comp, std, '\n'.join(hs), text))
        c21_programs(c, used, r, str(i), 12 if c.thorough else 3)
        c.log('set', i)


#
# C24
#
def families(r):
    """name -> function from a size to a text of about so many bytes"""
    H = b'syntax = "proto3";\n'

    def rep(unit, pre=H, post=b''):
        return lambda n: pre + unit * max(1, (n - len(pre) - len(post)) // len(unit)) + post

    def fields(fmt, start=1):
        def f(n):
            out, i, size = [], start, 0
            while size < n:
                k = i if i < 19000 else i + 1000
                t = (fmt % {'i': k}).encode()
                out.append(t)
                size += len(t)
                i += 1
            return H + b'message A {\n' + b''.join(out) + b'}\n'
        return f

    def messages(fmt, step=1):
        def f(n):
            out, i, size = [], 1, 0
            while size < n:
                t = (fmt % {'i': i, 'p': i - 1, 'n': i + 1}).encode()
                out.append(t)
                size += len(t)
                i += 1
            if step < 0:
                out.reverse()
            return H + b'package p;\nmessage M0 { int32 a = 1; }\n' + b''.join(out) + (b'message M%d {}\n' % i if '%(n)d' in fmt else b'')
        return f
    F = {
        'long name': rep(b'n', H + b'message A { int32 ', b' = 1; }'),
        'long message name': rep(b'n', H + b'message ', b' { int32 a = 1; }'),
        'long string': rep(b's', H + b'option x = "', b'";'),
        'long JSON name': rep(b's', H + b'message A { int32 a = 1 [name="', b'"]; }'),
        'long obfuscated name': rep(b's', H + b'option obfuscate_strings = true; message A { int32 a = 1 [name="', b'"]; }'),
        'unterminated string': rep(b's', H + b'option x = "'),
        'long line comment': rep(b'c', H + b'//'),
        'long comment': rep(b'*', H + b'/*', b'*/'),
        'comment without end': rep(b'* /', H + b'/*'),
        'many comments': rep(b'/**/ //\n'),
        'spaces': rep(b' ', b''), 'line breaks': rep(b'\n', b''), 'carriage returns': rep(b'\r', b''),
        'long number': rep(b'9', H + b'message A { int32 a = ', b'; }'),
        'zeros': rep(b'0', H + b'message A { int32 a = ', b'1; }'),
        'long option number': rep(b'9', H + b'option a = ', b';'),
        'qualified name': rep(b'.b', H + b'option a', b' = 1;'),
        'package statements': rep(b'package a;\n'), 'syntax statements': rep(b'syntax="proto3";', b''),
        'empty options': rep(b'option a = 1;\n'),
        'brackets': rep(b'[', H + b'message A { int32 a = 1 '), 'braces': rep(b'{', H + b'message A '), 'opened messages': rep(b'message A {'),
        'angles': rep(b'map<', H + b'message A { '),
        'zero bytes': rep(b'\0', b''), 'high bytes': rep(b'\xff\xfe', b''), 'quotes': rep(b'"', b''), 'slashes': rep(b'/', b''), 'stars': rep(b'*', b'/'),
        'random': lambda n: bytes(r.randrange(256) for _ in range(min(n, 200000))),
        'random names': lambda n: H + b' '.join(r.choice(POOL).encode() for _ in range(min(n, 400000) // 5)),
        'fields': fields('int32 f%(i)d = %(i)d;\n'),
        'fields with one hash': fields('string f = %(i)d;\n'),
        'messages': messages('message M%(i)d {}\n'),
        'messages with fields': messages('message M%(i)d { string a = 1; repeated bytes b = 2; double c = 3 [transient = true]; }\n'),
        'chain backwards': messages('message M%(i)d { M%(p)d m = 1; }\n'),
        'chain forwards': messages('message M%(i)d { M%(n)d m = 1; }\n'),
        'chain reversed': messages('message M%(i)d { M%(p)d m = 1; }\n', -1),
        'star': messages('message M%(i)d { M0 a = 1; M0 b = 2; repeated M0 c = 3; }\n'),
        'ladder': lambda n: H + b'message L0 {}\n' + b''.join(b'message L%d { L%d a = 1; L%d b = 2; repeated L%d c = 3; }\n' % (i, i - 1, i - 1, max(0, i - 2)) for i in range(1, n // 50 + 2)),
        'ladder down': lambda n: H + b''.join(b'message L%d { L%d a = 1; L%d b = 2; repeated L%d c = 3; }\n' % (i, i - 1, i - 1, max(0, i - 2)) for i in range(n // 50 + 1, 0, -1)) + b'message L0 {}\n',
        'cycle': lambda n: H + b''.join(b'message M%d { M%d m = 1; }\n' % (i, (i + 1) % (n // 28 + 1)) for i in range(n // 28 + 1)),
        'self references': messages('message M%(i)d { M%(i)d m = 1; }\n'),
        'unknown types': messages('message M%(i)d { X%(i)d m = 1; }\n'),
        'options in messages': messages('message M%(i)d { option a%(i)d = "x"; option b = %(i)d; }\n'),
        'options': lambda n: H + b''.join(b'option o%d = %d;\n' % (i, i) for i in range(n // 18)),
        'field options': lambda n: H + b'message A { int32 a = 1 [' + b', '.join(b'o%d = %d' % (i, i) for i in range(n // 15 + 1)) + b']; }\n',
        'full messages': lambda n: H + b''.join(b'message M%d {\n' % k + b''.join(b'%s f%d = %d;\n' % (S.SCALARS[i % 15].encode(), i, i + 1) for i in range(64)) + b'}\n' for k in range(n // 1100 + 1)),
        'references to the last': lambda n: H + b''.join(b'message M%d { Z z = 1; repeated Z y = 2; }\n' % k for k in range(n // 42 + 1)) + b'message Z { string a = 1; }\n',
    }
    return F


def proto_fuzzer(c):
    flags = ASAN + ['-fsanitize=fuzzer-no-link']
    d = build_protogen(c, 'fuzz', cxx='clang++', flags=flags, targets=('libprotogen_static',))
    exe = c.path('pfuzz')
    r = cxx(c, ['clang++', '-std=c++11', '-O1', '-g1', '-I', os.path.join(REPO, 'include'), os.path.join(HARNESS, 'protofuzz.cc'), os.path.join(d, 'b', 'libprotogen_static.a'), '-o', exe, '-fsanitize=fuzzer'] + ASAN, 'protofuzz')
    if r.rc != 0:
        raise HarnessError('protofuzz does not build: ' + r.err[-3000:])
    return exe


def c24(c):
    import jsonmon as J
    r = random.Random('c24/%d' % c.seed)
    o = c.path('steps.o')
    x = cxx(c, ['clang++', '-std=c++11', '-O1', '-c', os.path.join(HARNESS, 'steps.cc'), '-o', o], 'steps')
    if x.rc != 0:
        raise HarnessError(x.err)
    builds = [lambda: proto_fuzzer(c), lambda: os.path.join(build_protogen(c, 'asancli', cxx='clang++', flags=ASAN), 'b', 'protogen'),
              lambda: os.path.join(build_steps(c, o), 'b', 'protogen')]
    fuzz, asan, steps = [b() for b in builds]
    c.log('built')
    # hostile families through the executable: limits, sanitizers and growth of the work
    fam = families(r)
    small, big = (1 << 17, 1 << 20) if c.thorough else (1 << 15, 1 << 18)

    def measure(a):
        i, (name, fn) = a
        res = []
        for n in (small, big):
            p, h, so = (c.path('fam', '%d-%d.%s' % (i, n, e)) for e in ('proto', 'hh', 'steps'))
            text = fn(n)
            with open(p, 'wb') as f:
                f.write(text)
            x = run([steps, p, h], timeout=120, env=dict(ENV, STEPS_OUT=so), limit_as=6 << 30, limit_cpu=40, limit_stack=8 << 20)
            size = os.path.getsize(h) if os.path.exists(h) else 0
            y = run([asan, p, h], timeout=120, limit_cpu=40, limit_stack=8 << 20) if n == small else None
            for z, what in ((x, 'plain'), (y, 'sanitized')):
                if z and (z.timeout or z.rc not in (0, 1) or 'terminate called' in z.err) and not sanitizer_report(z.err):
                    c.violation('the compiler %s' % ('does not end' if z.timeout or z.rc in (-9, -24) else 'ends with status %s' % z.rc), 'family %s, %d bytes, %s build\n%s' % (name, n, what, z.err[-1500:]), 'family %s %d' % (name, n))
            s = open(so).read().split() if os.path.exists(so) else None
            for f in (p, h, so):
                if os.path.exists(f):
                    os.unlink(f)
            res.append((len(text), size, s and [int(v) for v in s], x, y))
        return name, res
    worst = {}
    for name, res in parallel(measure, list(enumerate(fam.items()))):
        for size, out, s, x, y in res:
            c.seen('%s %d' % (name, size), True)
            for z, what in ((x, 'plain'), (y, 'sanitized')):
                if z is None:
                    continue
                c.count('hostile files, ' + what + ' build, exit status %s' % z.rc)
                rep = sanitizer_report(z.err)
                if rep:
                    c.violation(rep[0], 'family %s, %d bytes\n%s' % (name, size, rep[1]), 'family %s %d' % (name, size))
        (s1, o1, a, _, _), (s2, o2, b, _, _) = res
        if a and b and s2 >= 4 * s1 and not name.startswith('random'):      # those end at a random early point
            for k, what, slack in ((0, 'steps', 20000), (1, 'bytes allocated', 200000), (2, 'bytes in use', 200000)):
                g = ((b[k] - slack) / s2) / (max(a[k], 1) / s1)
                worst[what] = max(worst.get(what, (0, '')), (round(g, 2), name))
                if g > 2.5:
                    c.violation('the %s grow faster than the file' % what, 'family %s: %d bytes: %d, %d bytes: %d' % (name, s1, a[k], s2, b[k]), 'family %s %d %d' % (name, s1, s2))
            c.count('steps', a[0] + b[0])
    c.extra['largest growth per byte when the file grows by 8'] = worst
    c.log('families done')
    # random texts of tokens and bytes through the executable with sanitizers
    texts = invalid_texts(c, r, 0)[:400] + [b' '.join(r.choice(POOL).encode('utf-8') for _ in range(r.randint(0, 60))) for _ in range(4000 if c.thorough else 400)] \
        + [bytes(r.randrange(256) for _ in range(r.randint(0, 300))) for _ in range(1500 if c.thorough else 150)]

    def one(a):
        i, t = a
        p, h = c.path('soup', '%d.proto' % i), c.path('soup', '%d.hh' % i)
        with open(p, 'wb') as f:
            f.write(t)
        x = run([asan, p, h], timeout=60)
        os.unlink(p)
        if os.path.exists(h):
            os.unlink(h)
        return t, x
    for t, x in parallel(one, list(enumerate(texts))):
        c.seen(t, bool(t))
        c.count('small files through the executable')
        rep = sanitizer_report(x.err)
        if rep:
            c.violation(rep[0], rep[1] + '\ntext: %r' % t, 'text: %r' % t)
        elif x.timeout or x.rc not in (0, 1) or 'terminate called' in x.err:
            c.violation('the compiler %s' % ('does not end' if x.timeout else 'ends with status %s' % x.rc), '%s\ntext: %r' % (x.err[-1500:], t), 'text: %r' % t)
    c.log('small files done')
    # coverage-guided, from a corpus of schemas and mistakes
    dic = c.path('dict')
    with open(dic, 'w') as f:
        for w in sorted(set(S.SCALARS) | set(POOL) | S.PROTO_KEYWORDS | set(['obfuscate_strings', 'number_names', 'cpp_use_lists', 'transient', 'name', 'message A {', 'int32 a = 1;', 'syntax = "proto3";', 'package p;'])):
            b = w.encode()
            if b:
                f.write('"%s"\n' % ''.join(chr(x) if 32 <= x < 127 and x not in (34, 92) else '\\x%02x' % x for x in b))
    seeds = [layout(r, S.proto_tokens(simple_schema(r, 's', max_messages=3, max_fields=4)), 0.2) for _ in range(60)] + fixed_texts()
    total = 6000000 if c.thorough else 320000

    def fz(i):
        corpus, art = c.path('corpus-%d' % i, 'x')[:-2], c.path('artifacts-%d' % i, 'x')[:-1]
        for k, t in enumerate(seeds):
            with open(os.path.join(corpus, 's%d' % k), 'wb') as f:
                f.write(t)
        x = run([fuzz, corpus, '-dict=' + dic, '-runs=%d' % (total // JOBS), '-max_total_time=%d' % (500 if c.thorough else 60), '-seed=%d' % (c.seed * 1000 + i + 1), '-max_len=2048', '-timeout=30', '-rss_limit_mb=3000', '-malloc_limit_mb=1000',
                 '-artifact_prefix=' + art, '-print_final_stats=1', '-reload=0'], timeout=700)
        return x, [os.path.join(art, f) for f in os.listdir(art)]
    tot = 0
    for x, arts in parallel(fz, range(JOBS)):
        text = x.out + x.err
        bad = b''
        if arts:
            with open(arts[0], 'rb') as f:
                bad = f.read()
        if x.rc != 0 and not x.timeout:
            rep = sanitizer_report(text)
            if not rep:
                raise HarnessError('fuzzer failed: ' + text[-2000:])
            if 'libFuzzer: timeout' in text and run([fuzz, '-timeout=100', arts[0]], timeout=200).rc == 0:
                c.count('fuzzers cut off by the time limit')
            else:
                c.violation(rep[0], rep[1] + '\ntext: %r' % bad[:3000], 'text: %r' % bad)
        m = re.search(r'stat::number_of_executed_units:\s*(\d+)', text)
        tot += int(m.group(1)) if m else 0
        cov = re.findall(r'cov: (\d+) ft: (\d+) corp: (\d+)', text)
        if cov:
            c.extra['fuzzing: edges covered'] = max(c.extra.get('fuzzing: edges covered', 0), int(cov[-1][0]))
            c.count('inputs that reached new code (corpus of the fuzzers)', int(cov[-1][2]))
        for k, v in re.findall(r'(accepted|rejected)=(\d+)', text):
            c.count('fuzzing: texts ' + k, int(v))
    c.evals += tot
    c.count('fuzzing: executions', tot)
    if not tot and not c.viols:
        raise HarnessError('the fuzzer did not run')


def build_steps(c, obj):
    return build_protogen(c, 'steps', cxx='clang++', flags=['-fsanitize-coverage=trace-pc-guard', '-Wno-unused-command-line-argument', obj])

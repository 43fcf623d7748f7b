"""Model of .proto schemas, generators, and writers of .proto text and of the C++ reflection used by harness/bind.hh.
Shares no code with protogen."""
import random

SCALARS = ['double', 'float', 'int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64',
           'fixed32', 'fixed64', 'sfixed32', 'sfixed64', 'bool', 'string', 'bytes']
KIND = {'double': 'K_DOUBLE', 'float': 'K_FLOAT', 'int32': 'K_INT32', 'sint32': 'K_INT32', 'sfixed32': 'K_INT32',
        'int64': 'K_INT64', 'sint64': 'K_INT64', 'sfixed64': 'K_INT64', 'uint32': 'K_UINT32', 'fixed32': 'K_UINT32',
        'uint64': 'K_UINT64', 'fixed64': 'K_UINT64', 'bool': 'K_BOOL', 'string': 'K_STRING', 'bytes': 'K_BYTES'}
CPP = {'double': 'double', 'float': 'float', 'int32': 'int32_t', 'sint32': 'int32_t', 'sfixed32': 'int32_t',
       'int64': 'int64_t', 'sint64': 'int64_t', 'sfixed64': 'int64_t', 'uint32': 'uint32_t', 'fixed32': 'uint32_t',
       'uint64': 'uint64_t', 'fixed64': 'uint64_t', 'bool': 'bool'}


class Field:
    def __init__(self, name, type, number, repeated=False, optional=False, options=None):
        self.name, self.type, self.number = name, type, number      # type: scalar name or Message
        self.repeated, self.optional = repeated, optional
        self.options = options or []                                # [(name, kind, value)] kind: bool ident int string

    def opt(self, name, default=None):
        v = default
        for n, k, x in self.options:
            if n == name:
                v = x
        return v

    @property
    def transient(self):
        return self.opt('transient') == 'true'

    def copy(self):
        return Field(self.name, self.type, self.number, self.repeated, self.optional, list(self.options))


class Message:
    def __init__(self, name, fields=None, options=None):
        self.name, self.fields, self.options = name, fields or [], options or []


class Schema:
    def __init__(self, name, package='', messages=None, options=None):
        self.name, self.package = name, package
        self.messages, self.options = messages or [], options or []

    def flag(self, name):
        v = False
        for n, k, x in self.options:
            if n == name:
                v = x == 'true'
        return v

    def json_name(self, f):
        if self.flag('number_names'):
            return str(f.number)
        return f.opt('name', f.name)

    def has(self, what):
        fs = [f for m in self.messages for f in m.fields]
        if what == 'array':
            return any(f.repeated for f in fs)
        if what == 'bytes':
            return any(f.type == 'bytes' for f in fs)
        if what == 'string':
            return True
        if what == 'number':
            return any(f.type in CPP for f in fs)

    def twin(self, name, package, options):
        """Same messages with other options and package"""
        t = Schema(name, package, [], options)
        new = {}
        for m in self.messages:
            new[id(m)] = Message(m.name, [], list(m.options))
            t.messages.append(new[id(m)])
        for m in self.messages:
            for f in m.fields:
                g = f.copy()
                if isinstance(g.type, Message):
                    g.type = new[id(g.type)]
                new[id(m)].fields.append(g)
        return t


def optval(k, v):
    return '"%s"' % v if k == 'string' else str(v)


def field_text(f):
    s = 'repeated ' if f.repeated else 'optional ' if f.optional else ''
    s += (f.type.name if isinstance(f.type, Message) else f.type) + ' ' + f.name + ' = ' + str(f.number)
    if f.options:
        s += ' [' + ', '.join('%s = %s' % (n, optval(k, v)) for n, k, v in f.options) + ']'
    return s + ';'


def proto_text(s):
    out = 'syntax = "proto3";\n'
    if s.package:
        out += 'package %s;\n' % s.package
    for n, k, v in s.options:
        out += 'option %s = %s;\n' % (n, optval(k, v))
    for m in s.messages:
        out += '\nmessage %s\n{\n' % m.name
        for n, k, v in m.options:
            out += '    option %s = %s;\n' % (n, optval(k, v))
        for f in m.fields:
            out += '    ' + field_text(f) + '\n'
        out += '}\n'
    return out


def proto_tokens(s):
    """The same schema as a list of tokens (for layout variations)"""
    t = ['syntax', '=', '"proto3"', ';']
    if s.package:
        t += ['package', s.package, ';']
    for n, k, v in s.options:
        t += ['option', n, '=', optval(k, v), ';']
    for m in s.messages:
        t += ['message', m.name, '{']
        for n, k, v in m.options:
            t += ['option', n, '=', optval(k, v), ';']
        for f in m.fields:
            if f.repeated:
                t.append('repeated')
            elif f.optional:
                t.append('optional')
            t += [f.type.name if isinstance(f.type, Message) else f.type, f.name, '=', str(f.number)]
            if f.options:
                t.append('[')
                for i, (n, k, v) in enumerate(f.options):
                    if i:
                        t.append(',')
                    t += [n, '=', optval(k, v)]
                t.append(']')
            t.append(';')
        t.append('}')
    return t


def cstr(s):
    """C++ string literal and its length"""
    b = s.encode('utf-8', 'surrogateescape') if isinstance(s, str) else s
    return 'std::string("' + ''.join(chr(c) if chr(c).isalnum() and c < 128 else '\\%03o' % c for c in b) + '", %d)' % len(b)


def cpp_type(s, m):
    return '::' + ''.join(p + '::' for p in s.package.split('.') if p) + m.name


def bind_text(s, header, runtime):
    """C++ reflection of the schema for the monitors"""
    o = '// reflection of schema %s\n#include "%s"\n#define PG %s\n' % (s.name, header, runtime)
    for w in ('number', 'string', 'bytes', 'array'):
        o += '#define HAS_%s %d\n' % (w.upper(), 1 if s.has(w) else 0)
    o += '#include "bind.hh"\nnamespace bind {\n'
    for m in s.messages:
        o += 'template<> struct Bind< %s > { static const bool value = true; enum { count = %d }; static const MsgDesc &desc();\n' % (cpp_type(s, m), len(m.fields))
        o += ' template<typename O, typename F> static void each(O &o, F &f) { (void) o; (void) f;\n'
        for i, f in enumerate(m.fields):
            o += '  f((size_t) %d, o.%s);\n' % (i, f.name)
        o += ' } };\n'
    for m in s.messages:
        o += 'const MsgDesc &Bind< %s >::desc() { static const MsgDesc *d = [] { MsgDesc *d = new MsgDesc; d->name = %s;\n' % (cpp_type(s, m), cstr(m.name))
        for f in m.fields:
            kind, ref = ('K_MSG', '&Bind< %s >::desc()' % cpp_type(s, f.type)) if isinstance(f.type, Message) else (KIND[f.type], 'nullptr')
            o += '  d->fields.push_back(FieldDesc{%s, %s, %s, %s, %s, %s});\n' % (
                cstr(f.name), cstr(s.json_name(f)), kind, 'true' if f.repeated else 'false', 'true' if f.transient else 'false', ref)
        o += '  return d; }(); return *d; }\n'
    o += 'static const Schema *make_schema() { Schema *s = new Schema; s->name = %s;\n' % cstr(s.name)
    for m in s.messages:
        o += '  s->types.push_back(Schema::Type{ &Bind< %s >::desc(), ObjT< %s >::make });\n' % (cpp_type(s, m), cpp_type(s, m))
    if s.has('array'):
        elems = []
        if s.has('number'):
            elems += ['double', 'float', 'int32_t', 'int64_t', 'uint32_t', 'uint64_t']
        elems += ['PG::string_field']
        if s.has('bytes'):
            elems += ['std::vector<uint8_t>']
        elems += [cpp_type(s, m) for m in s.messages[:2]]
        for i, e in enumerate(elems):
            for c in (['std::vector', 'std::list'] if i % 3 == 0 else ['std::vector'] if i % 3 == 1 else ['std::list']):
                o += '  s->arrays.push_back(Schema::ArrayType{ "%s< %s >", ArrT< %s< %s > >::make });\n' % (c, e, c, e)
        more = [('std::vector', 'std::string')]
        if s.has('number'):
            more += [('std::vector', 'bool'), ('std::deque', 'int32_t')]
        if s.name == 'sink':
            more += [('std::deque', 'std::string'), ('std::list', 'bool'), ('std::deque', cpp_type(s, s.messages[0]))]
        for c, e in more:
            o += '  s->arrays.push_back(Schema::ArrayType{ "%s< %s >", ArrT< %s< %s > >::make });\n' % (c, e, c, e)
    o += '  return s; }\nstatic Register reg(make_schema());\n}\n'
    return o


#
# Fixed schemas
#
def sink():
    """Every type, singular and repeated, nesting, transient fields, names"""
    leaf = Message('Leaf', [Field('id', 'int32', 1), Field('text', 'string', 2), Field('data', 'bytes', 3)])
    allm = Message('All')
    n = 1
    for t in SCALARS:
        allm.fields.append(Field('f_' + t, t, n)); n += 1
    for t in SCALARS:
        allm.fields.append(Field('r_' + t, t, n, repeated=True)); n += 1
    node = Message('Node', [Field('leaf', leaf, 1), Field('leaves', leaf, 2, repeated=True), Field('name', 'string', 3, optional=True),
                            Field('value', 'double', 4), Field('names', 'string', 5, repeated=True)])
    top = Message('Top', [Field('all', allm, 10), Field('node', node, 9), Field('nodes', node, 8, repeated=True), Field('alls', allm, 7, repeated=True),
                          Field('message', 'string', 6), Field('package', 'bool', 5), Field('z', 'uint64', 536870911), Field('a', 'sint64', 18999)])
    trans = Message('Trans', [Field('t1', 'int32', 1, options=[('transient', 'bool', 'true')]), Field('p1', 'string', 2),
                              Field('t2', 'string', 3, options=[('transient', 'bool', 'true')]), Field('t3', 'int32', 4, repeated=True, options=[('transient', 'bool', 'true')]),
                              Field('p2', leaf, 5, options=[('transient', 'bool', 'false')]), Field('t4', leaf, 6, options=[('transient', 'bool', 'true')]),
                              Field('t5', 'double', 7, options=[('transient', 'bool', 'true')]), Field('p3', 'bytes', 8, repeated=True),
                              Field('t6', 'bytes', 9, options=[('transient', 'bool', 'true')]), Field('t7', leaf, 10, repeated=True, options=[('transient', 'bool', 'true')]),
                              Field('p4', 'float', 11, repeated=True), Field('t8', 'string', 12, repeated=True, options=[('transient', 'bool', 'true')])])
    alltrans = Message('AllTrans', [Field('x', 'int32', 1, options=[('transient', 'bool', 'true')]), Field('y', 'string', 2, options=[('transient', 'bool', 'true')])])
    empty = Message('Empty')
    holder = Message('Holder', [Field('e', empty, 1), Field('es', empty, 2, repeated=True), Field('t', alltrans, 3), Field('ts', trans, 4, repeated=True)])
    wide = Message('Wide', [Field('w%02d' % i, SCALARS[i % len(SCALARS)], i + 1) for i in range(64)])
    deep = [Message('D0', [Field('v', 'int32', 1)])]
    for i in range(1, 6):
        deep.append(Message('D%d' % i, [Field('d', deep[-1], 1), Field('v', 'int32', 2)] if i % 2 else [Field('d', deep[-1], 1, repeated=True), Field('s', 'string', 2)]))
    # references forwards and backwards
    return Schema('sink', 'sink', [top, leaf, allm, node, trans, alltrans, empty, holder, wide] + deep[::-1])


def deep(n=28):
    """Messages nested in messages, n levels, singular and repeated in turn"""
    ms = [Message('L0', [Field('v', 'int32', 1), Field('s', 'string', 2)])]
    for i in range(1, n):
        ms.append(Message('L%d' % i, [Field('c', ms[-1], 1, repeated=i % 3 == 1)] + ([Field('v', 'int32', 2)] if i % 2 else [])))
    return Schema('deep', 'deep', ms[::-1])


def flags(obf=None, num=None, lists=None):
    o = []
    for n, v in (('obfuscate_strings', obf), ('number_names', num), ('cpp_use_lists', lists)):
        if v is not None:
            o.append((n, 'bool', 'true' if v else 'false'))
    return o


JSON_NAMES = ['Name', 'NAME', 'full name', '', ' ', 'a.b', '$1$', '%s%n', 'a\\b', '\\', '\\n', '\\u0041', '\\x41', '\\0', '\t', '\x01', '\x1f', '\x7f', '\r',
              '??=', '??/', '//', '/*', '\u00e9', '\u4e2d\u6587', '\U0001F600', '\u2028', 'x' * 7, 'x' * 8, 'x' * 9, 'y' * 200, '0', '-1', 'null', 'true',
              '{', '}', '[', ']', ':', ',', 'e\u0301', '1abcdef', 'a' * 31, '<>&', '\\"'[:1] + 'q', '#define', 'R(x)', '\ufeffb',
              'n' * 255, 'n' * 256, 'n' * 257, 'm' * 1023 + '.', 'm' * 1024, 'm' * 5000, '\\' * 70]


def names_schema():
    """Names that are prefixes of each other, differ in case, and every kind of custom name"""
    a = Message('Prefix', [Field(n, 'int32', i + 1) for i, n in enumerate(
        ['a', 'ab', 'abc', 'abcd', 'A', 'AB', 'Abc', 'aBc', '_', '__a'[1:], 'a1', 'a_', 'a_1', 'name', 'Name', 'names', 'value', 'values', 'x' * 100, 'x' * 101,
         'z' * 255, 'z' * 256, 'z' * 300, 'z' * 299 + 'y'])])
    b = Message('Custom')
    for i, n in enumerate(JSON_NAMES):
        b.fields.append(Field('c%02d' % i, ['int32', 'string', 'bool', 'double'][i % 4], 100 + i, repeated=i % 5 == 4, options=[('name', 'string', n)]))
    # names that would be right for another field
    c = Message('Swapped', [Field('one', 'int32', 1, options=[('name', 'string', 'two')]), Field('two', 'int32', 2, options=[('name', 'string', 'one')]),
                            Field('three', 'int32', 3, options=[('name', 'string', '1')]), Field('hidden', 'int32', 4, options=[('transient', 'bool', 'true'), ('name', 'string', 'three')]),
                            Field('both', 'string', 5, options=[('name', 'string', 'hidden'), ('transient', 'bool', 'false')]),
                            Field('other', 'string', 6, options=[('json_name', 'string', 'zzz'), ('packed', 'bool', 'true')])])
    d = Message('Refs', [Field('p', a, 1), Field('c', b, 2), Field('s', c, 3, repeated=True)])
    return Schema('names', 'names.deep.er', [d, a, b, c])


def numbers_schema(r):
    """Fields named by their numbers: one for every power of two and of ten and its neighbours, declared in any order, some with
    names of their own (also in the shape of a number)"""
    nums = set([1, 2, 3, 7, 8, 9, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 65538, 131071, 131072, 16777215, 16777216, 0x1FFFFFFF, 0x1FFFFFFE])
    nums |= set(10 ** k + d for k in range(1, 9) for d in (-1, 0, 1))
    nums = [n for n in nums if not 19000 <= n <= 19999]
    r.shuffle(nums)
    a = Message('ByNumber')
    for i, n in enumerate(nums):
        f = Field('n%d' % n, ['int32', 'string', 'bool', 'double', 'bytes'][i % 5], n, repeated=i % 4 == 3)
        if i % 6 == 5:
            f.options = [('name', 'string', ['0%d' % n, '-%d' % n, 'n%d' % n, '%d.0' % n, 'name %d' % i][i // 6 % 5])]
        a.fields.append(f)
    b = Message('Near')
    base = r.choice([60000, 65530, 99995, 1048570, 16777210, 268435450])
    for i in r.sample(range(24), 24):
        b.fields.append(Field('m%d' % i, ['int32', 'string'][i % 2], base + i, options=[('name', 'string', str(base + i + 100))] if i % 5 == 1 else []))
    c = Message('Both', [Field('a', a, 70000), Field('b', b, 70001, repeated=True), Field('name', 'string', 70002)])
    return Schema('numbers', 'numbers', [c, a, b], flags(False, True, False))


#
# Random schemas
#
TRICKY = ['a', 'b', 'ctx', 'value', 'out', 'in', 'idx', 'name', 'obj', 'json', 'field', 'T', 'type', 'index', 'read', 'write', 'tmp', 'i', 'j', 'first', 'second',
          'array', 'message', 'package', 'E', 'error', 'parent', 'mask', 'c', 'it', 'result', 'len', 'length', 'size', 'count', 'data', 'text', 'params', 'e',
          'entity', 'string_field', 'Parameters', 'istream', 'tokenizer', 'token', 'self', 'other', 'that', 'rvalue', 'lvalue', 'reveal', 'read_object', 'write_object',
          'write_field', 'read_field', 'json_context', 'line', 'column', 'code', 'x', 'y', '_a', '_1', 'O', 'M', 'N', 'is', 'os', 'flags', 'begin', 'end', 'base', 'node', 'item', 'items',
          'any', 'oneof', 'import', 'service', 'rpc', 'returns', 'extend', 'reserved', 'group', 'required', 'proto3', 'weak', 'public_', 'to', 'max', 'min', 'abs', 'final', 'override', 'module']


def ident(r, used, hint='f'):
    while True:
        k = r.random()
        if k < 0.45:
            n = r.choice(TRICKY)
        elif k < 0.9:
            n = r.choice('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ') + ''.join(r.choice('abcXYZ019_') for _ in range(r.choice([0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 30])))
        else:
            n = hint + str(r.randrange(1000))
        if '__' in n or n.endswith('_type') or n in CPP_KEYWORDS or n in PROTO_KEYWORDS or n in RESERVED or n in used or n.lower() in ('null', 'true', 'false', 'eof'):
            continue
        used.add(n)
        return n


CPP_KEYWORDS = set('''alignas alignof and and_eq asm auto bitand bitor bool break case catch char char8_t char16_t char32_t class compl concept const consteval constexpr
constinit const_cast continue co_await co_return co_yield decltype default delete do double dynamic_cast else enum explicit export extern false float for friend goto if inline int long
mutable namespace new noexcept not not_eq nullptr operator or or_eq private protected public register reinterpret_cast requires return short signed sizeof static static_assert static_cast
struct switch template this thread_local throw true try typedef typeid typename union unsigned using virtual void volatile wchar_t while xor xor_eq'''.split())
PROTO_KEYWORDS = set(['repeated', 'string', 'enum', 'double', 'float', 'bool', 'int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'fixed32', 'fixed64',
                      'sfixed32', 'sfixed64', 'bytes', 'syntax', 'map', 'option', 'true', 'false', 'optional'])
# documented operations and members of messages, standard names
RESERVED = set(['serialize', 'deserialize', 'clear', 'empty', 'swap', 'equal', 'value_type', 'std', 'unix', 'linux', 'errno', 'assert', 'stdin', 'stdout', 'stderr',
                'string', 'size_t'])
GLOBAL_RESERVED = set(TRICKY) | set(['abs', 'signal', 'time', 'index', 'read', 'write'])


def random_name_option(r):
    k = r.random()
    if k < 0.4:
        return r.choice(JSON_NAMES)
    n = r.choice([1, 2, 3, 7, 8, 9, 12, 16, 40])
    out = ''
    for _ in range(n):
        c = r.random()
        if c < 0.5:
            out += chr(r.randrange(32, 127))
        elif c < 0.6:
            out += chr(r.randrange(1, 32))
        elif c < 0.8:
            out += chr(r.randrange(0xA0, 0x800))
        elif c < 0.95:
            out += chr(r.randrange(0x800, 0xD800))
        else:
            out += chr(r.randrange(0x10000, 0x110000))
    return ''.join(c for c in out if c not in '"\'\n')


def random_schema(r, name, package=None, max_messages=7, max_fields=14, options=None, plain_names=False):
    used = set()
    s = Schema(name)
    if package is None:
        package = '.'.join(ident(r, set(TRICKY)) for _ in range(r.choice([1, 1, 2, 3])))
    s.package = package
    nm = r.randint(1, max_messages)
    if not package:
        used |= GLOBAL_RESERVED
    # namespaces and types of the same name at the same place collide
    used.add(package.split('.')[0] if package else '')
    order = []
    for _ in range(nm):
        m = Message(ident(r, used, 'M'))
        fu = set([m.name])
        jn = set()
        for _ in range(r.choice([0, 1, 2, 3, max_fields // 2, max_fields])):
            refs = [x for x in order if x.name not in ('message', 'package')]     # keywords are not names of types
            if refs and r.random() < 0.3:
                t = r.choice(refs)
            else:
                t = r.choice(SCALARS)
            while True:
                num = r.choice([r.randint(1, 15), r.randint(16, 2047), r.randint(2048, 18999), r.randint(20000, 0x1FFFFFFF), r.choice([20000, 65535, 65536, 65537, 0x1FFFFFFF])])
                if all(f.number != num for f in m.fields):
                    break
            f = Field(ident(r, fu), t, num)
            k = r.random()
            if k < 0.3:
                f.repeated = True
            elif k < 0.4:
                f.optional = True
            if not plain_names and r.random() < 0.25:
                f.options.append(('name', 'string', random_name_option(r)))
            if r.random() < 0.15:
                f.options.append(('transient', 'bool', 'true' if r.random() < 0.8 else 'false'))
            if r.random() < 0.1:
                f.options.append((r.choice(['json_name', 'packed', 'deprecated', 'my.option']), *r.choice([('string', 'xx'), ('bool', 'true'), ('int', 12), ('ident', 'CORD')])))
            r.shuffle(f.options)
            if not f.transient:
                j = f.opt('name', f.name)
                if j in jn:
                    continue
                jn.add(j)
            m.fields.append(f)
        order.append(m)
    # declared in any order
    s.messages = list(order)
    r.shuffle(s.messages)
    s.options = options if options is not None else flags(r.choice([None, True, False]), r.choice([None, None, True, False]), r.choice([None, True, False]))
    return s

"""Reference reader of the supported subset of proto3: accepts or rejects a text, says where the first offending token is and what an
accepted text declares. Shares no code with protogen."""
import re
import schema as S

WS = b' \t\r\n'
TOKEN = re.compile(rb'[A-Za-z_][A-Za-z0-9_]*(?:\.[A-Za-z_][A-Za-z0-9_]*)*|[0-9]+|[=;,{}<>\[\]]')
KEYWORDS = S.PROTO_KEYWORDS | set(['message', 'package'])
KNOWN_TOP = {'obfuscate_strings': 'bool', 'number_names': 'bool', 'cpp_use_lists': 'bool'}
KNOWN_FIELD = {'transient': 'bool', 'name': 'string'}


class Syntax(Exception):
    def __init__(self, lines):
        self.lines = lines


def tokens(b):
    """(kind, value, line): name qname int string punct bad eof; kind bad has the possible lines as value"""
    out, i, line, n = [], 0, 1, len(b)
    while True:
        while i < n and b[i] in WS:
            if b[i] == 10:
                line += 1
            i += 1
        if i >= n:
            out.append(('eof', '', line))
            return out
        if b[i:i + 2] == b'//':
            j = b.find(b'\n', i)
            i = n if j < 0 else j       # the line break is counted above
            continue
        if b[i:i + 2] == b'/*':
            j = b.find(b'*/', i + 2)
            if j < 0:
                out.append(('bad', [line, line + b.count(b'\n', i)], line))
                return out
            line += b.count(b'\n', i, j)
            i = j + 2
            continue
        if b[i] == 34:
            j = i + 1
            while j < n and b[j] not in b'"\n\0':
                j += 1
            if j >= n or b[j] != 34:
                out.append(('bad', [line], line))
                return out
            out.append(('string', b[i + 1:j].decode('latin-1'), line))
            i = j + 1
            continue
        m = TOKEN.match(b, i)
        if not m:
            # white space, quotes or marks of other readers of proto3: not judged
            out.append(('bad', None if b[i] in b"\v\f'" or b[i:i + 3] == b'\xef\xbb\xbf' else [line], line))
            return out
        t = m.group(0).decode()
        i = m.end()
        if t[0].isdigit():
            out.append(('int', t, line))
        elif t[0] in '=;,{}<>[]':
            out.append(('punct', t, line))
        elif '.' in t:
            if i < n and b[i] == 46:
                out.append(('bad', [line], line))
                return out
            out.append(('qname', t, line))
        else:
            if i < n and b[i] == 46:
                out.append(('bad', [line], line))
                return out
            out.append(('key' if t in KEYWORDS else 'name', t, line))


class Reader:
    def __init__(self, b):
        self.t, self.i = tokens(b), 0
        self.semantic, self.unspec = [], []
        self.package, self.messages, self.options = '', [], {}
        self.names = set()
        if b'\\"' in b:
            self.unspec.append('an escape to other readers')

    @property
    def cur(self):
        return self.t[self.i]

    def fail(self):
        k, v, line = self.cur
        if v is None:
            self.unspec.append('character of other readers')
        raise Syntax(v if k == 'bad' else [line])

    def next(self):
        t = self.t[self.i]
        if t[0] not in ('eof', 'bad'):
            self.i += 1
        return t

    def punct(self, p):
        if self.cur[:2] != ('punct', p):
            self.fail()
        self.next()

    def key(self, *k):
        return self.cur[0] == 'key' and self.cur[1] in k

    def want(self, *kinds):
        if self.cur[0] not in kinds:
            if self.cur[0] == 'key' and 'name' in kinds:
                self.unspec.append('keyword as name')       # stricter than protobuf
            self.fail()
        return self.next()[1]

    def cppname(self, n):
        if n in S.CPP_KEYWORDS:
            self.semantic.append('C++ keyword ' + n)
        if '__' in n:
            self.unspec.append('reserved name')

    def file(self):
        first, have_syntax = True, 0
        while self.cur[0] != 'eof':
            if self.key('syntax'):
                self.next()
                self.punct('=')
                v = self.want('string')
                self.punct(';')
                if v != 'proto3':
                    self.semantic.append('syntax ' + v)
                if not first:
                    self.unspec.append('syntax is not first')
                have_syntax += 1
            elif self.key('package'):
                self.next()
                p = self.want('name', 'qname')
                self.punct(';')
                if self.messages or self.package:
                    self.unspec.append('package is not single and before messages')
                self.package = p
                for x in p.split('.'):
                    self.cppname(x)
                    if x in S.RESERVED:
                        self.unspec.append('reserved name')
            elif self.key('option'):
                self.next()
                self.option(self.options, KNOWN_TOP)
                self.punct(';')
            elif self.key('message'):
                self.message()
            else:
                self.fail()
            first = False
        if have_syntax != 1:
            self.unspec.append('%d syntax statements' % have_syntax)

    def option(self, into, known):
        name = self.want('name', 'qname')
        self.punct('=')
        k, v = self.cur[:2]
        if k == 'key' and v in ('true', 'false'):
            k = 'bool'
        elif k in ('name', 'qname'):
            k = 'ident'
        elif k not in ('string', 'int'):
            self.fail()
        self.next()
        if self.cur[0] == 'string' and k == 'string':
            self.unspec.append('string after string')
        if name in into:
            self.unspec.append('repeated option')
        if k == 'int' and len(v) > 1 and v[0] == '0':
            self.unspec.append('octal')
        into[name] = (k, v)
        if name in known and k != known[name]:
            self.semantic.append('option %s is %s' % (name, k))
        if known is KNOWN_FIELD and name == 'name' and k == 'string' and "'" in v:
            self.semantic.append('quote in name')

    def message(self):
        self.next()
        if not (self.cur[0] == 'name' or self.key('message', 'package')):
            self.fail()
        name = self.next()[1]
        self.cppname(name)
        if name in S.RESERVED or name.endswith('_type'):
            self.unspec.append('reserved name')
        if name in self.names:
            self.semantic.append('message %s again' % name)
        self.punct('{')
        m = {'name': name, 'options': {}, 'fields': []}
        while self.cur[:2] != ('punct', '}'):
            if self.key('option'):
                self.next()
                self.option(m['options'], {})
                self.punct(';')
            else:
                self.field(m)
        self.next()
        self.messages.append(m)
        self.names.add(name)

    def field(self, m):
        f = {'repeated': False, 'optional': False, 'options': {}}
        if self.key('repeated'):
            f['repeated'] = True
            self.next()
        elif self.key('optional'):
            f['optional'] = True
            self.next()
        if self.key(*S.SCALARS) or self.cur[0] in ('name', 'qname'):
            f['scalar'] = self.cur[0] == 'key'
            f['type'] = self.next()[1]
        else:
            self.fail()
        if not (self.cur[0] == 'name' or self.key('message', 'package')):
            if self.cur[0] == 'key':
                self.unspec.append('keyword as name')
            self.fail()
        f['name'] = self.next()[1]
        self.punct('=')
        n = self.want('int')
        if len(n) > 1 and n[0] == '0':
            self.unspec.append('octal')
        if not (1 <= int(n) <= 0x1FFFFFFF) or 19000 <= int(n) <= 19999:
            self.semantic.append('number ' + n)
        f['number'] = int(n)
        if self.cur[:2] == ('punct', '['):
            self.next()
            while True:
                self.option(f['options'], KNOWN_FIELD)
                if self.cur[:2] != ('punct', ','):
                    break
                self.next()
            self.punct(']')
        self.punct(';')
        self.cppname(f['name'])
        if f['name'] in S.RESERVED or f['name'] == m['name'] or f['name'].endswith('_type'):
            self.unspec.append('reserved name')
        for g in m['fields']:
            if g['name'] == f['name'] or g['number'] == f['number']:
                self.semantic.append('field %s again' % f['name'])
        m['fields'].append(f)

    def check(self):
        byname = {}
        for m in self.messages:
            byname.setdefault(m['name'], m)
        names = self.options.get('number_names') == ('bool', 'true')
        for m in self.messages:
            js = set()
            if len(m['fields']) > 64:
                self.semantic.append('%d fields' % len(m['fields']))
            for f in m['fields']:
                f['ref'] = None
                if not f['scalar']:
                    full = self.package + '.' if self.package else ''
                    if '.' in f['type']:
                        # the scopes in which the name is looked for: the package and the ones it is in
                        scopes = self.package.split('.') if self.package else []
                        if any('.'.join(scopes[:i] + [f['type']]) == full + x for i in range(len(scopes) + 1) for x in byname):
                            self.unspec.append('qualified type')
                        else:
                            self.semantic.append('unknown type ' + f['type'])
                    elif f['type'] not in byname:
                        self.semantic.append('unknown type ' + f['type'])
                    else:
                        f['ref'] = full + f['type']
                if f['options'].get('transient') != ('bool', 'true') and not names:
                    j = f['options'].get('name', (0, f['name']))[1]
                    if j in js:
                        self.semantic.append('JSON name again')
                    js.add(j)
        # cycles
        state = {}
        for m in self.messages:
            stack = [(m['name'], 0)]
            while stack:
                n, i = stack.pop()
                if i == 0:
                    if state.get(n):
                        continue
                    state[n] = 1
                refs = [f['type'] for f in byname[n]['fields'] if not f['scalar'] and f['type'] in byname]
                if i < len(refs):
                    stack.append((n, i + 1))
                    if state.get(refs[i]) == 1:
                        self.semantic.append('circular')
                    elif not state.get(refs[i]):
                        stack.append((refs[i], 0))
                else:
                    state[n] = 2

    def model(self):
        return {'options': opts(self.options), 'messages': [
            {'package': self.package, 'name': m['name'], 'options': opts(m['options']), 'fields': [
                {'type': f['type'] if f['scalar'] else 'message', 'ref': f['ref'], 'repeated': f['repeated'], 'optional': f['optional'], 'name': f['name'], 'number': f['number'],
                 'options': opts(f['options'])} for f in m['fields']]} for m in self.messages]}


def opts(o):
    return {k: list(v) for k, v in o.items()}


def judge(b):
    """('ok', model, unspec) | ('syntax', lines or None, unspec) | ('semantic', what, unspec)"""
    r = Reader(b)
    try:
        r.file()
    except Syntax as e:
        # an earlier mistake of another kind may be reported instead
        return 'syntax', (None if r.semantic or r.unspec else e.lines), r.unspec
    if not r.semantic:
        r.check()
    else:
        try:
            r.check()
        except KeyError:
            pass
    if r.semantic:
        return 'semantic', r.semantic, r.unspec
    return 'ok', r.model(), r.unspec

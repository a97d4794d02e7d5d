"""A small reader of Rust source: tokens, token trees, items and expressions.

Used for the parser definitions, whose meaning is lost after macro expansion.  Anything outside the
subset raises Unsupported (the analysis then reports INCOMPLETE, never a violation)."""
import os, re

class Unsupported(Exception):
    pass

TOK = re.compile(r'''
 (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
|(?P<bstr>b"(?:[^"\\]|\\.)*")
|(?P<rstr>b?r\#*".*?"\#*)
|(?P<bchar>b'(?:[^'\\]|\\.[^']*)')
|(?P<str>"(?:[^"\\]|\\.)*")
|(?P<char>'(?:[^'\\]|\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F]+\}|.))')
|(?P<life>'[A-Za-z_]\w*)
|(?P<num>0x[0-9a-fA-F_]+(?:[iu]\w+)?|0b[01_]+|0o[0-7_]+|\d[\d_]*(?:\.\d[\d_]*)?(?:[iuf](?:8|16|32|64|128|size))?)
|(?P<id>r\#[A-Za-z_]\w*|[A-Za-z_]\w*)
|(?P<op>\.\.=|\.\.\.|<<=|>>=|<<|>>|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|\.\.|[-+*/%^&|!<>=.,;:\#$?@~\[\](){}])
''', re.X | re.S)

class Tok:
    __slots__ = ('k', 'v', 'line', 'sub', 'sp')
    def __init__(self, k, v, line, sub=None, sp=False):
        self.k, self.v, self.line, self.sub, self.sp = k, v, line, sub, sp
    def __repr__(self):
        return self.v if self.sub is None else self.v + ' '.join(map(repr, self.sub)) + {'(': ')', '[': ']', '{': '}'}[self.v]

ESC = {'n': 10, 'r': 13, 't': 9, '\\': 92, '0': 0, "'": 39, '"': 34}

def unescape(s, line):
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c != '\\':
            out += c.encode()
            i += 1
            continue
        e = s[i + 1]
        if e == 'x':
            out.append(int(s[i + 2:i + 4], 16)); i += 4
        elif e == 'u':
            j = s.index('}', i)
            out += chr(int(s[i + 3:j], 16)).encode(); i = j + 1
        elif e == '\n':
            i += 2
            while i < len(s) and s[i].isspace():
                i += 1
        elif e in ESC:
            out.append(ESC[e]); i += 2
        else:
            raise Unsupported('escape \\%s (line %d)' % (e, line))
    return bytes(out)

def tokens(src):
    out = []
    pos = 0
    line = 1
    sp = False
    while pos < len(src):
        m = TOK.match(src, pos)
        if not m:
            raise Unsupported('cannot read %r (line %d)' % (src[pos:pos + 20], line))
        k = m.lastgroup
        v = m.group(0)
        if k == 'rstr':
            # raw strings: match the number of hashes
            m2 = re.match(r'b?r(#*)"', v)
            h = m2.group(1)
            end = src.index('"' + h, pos + m2.end())
            v = src[pos:end + 1 + len(h)]
            out.append(Tok('str' if v[0] != 'b' else 'bstr', src[pos + m2.end():end].encode(), line, None, sp))
            pos = end + 1 + len(h)
            line += v.count('\n')
            sp = False
            continue
        if k == 'ws':
            if v.startswith('/*'):
                # nested comments
                d = 0
                i = pos
                while True:
                    if src.startswith('/*', i): d += 1; i += 2
                    elif src.startswith('*/', i):
                        d -= 1; i += 2
                        if d == 0: break
                    else: i += 1
                v = src[pos:i]
            sp = True
        else:
            if k == 'str':
                out.append(Tok('str', unescape(v[1:-1], line), line, None, sp))
            elif k == 'bstr':
                out.append(Tok('bstr', unescape(v[2:-1], line), line, None, sp))
            elif k == 'bchar':
                out.append(Tok('int', unescape(v[2:-1], line)[0], line, None, sp))
            elif k == 'char':
                b = unescape(v[1:-1], line)
                out.append(Tok('chr', ord(b.decode()), line, None, sp))
            elif k == 'num':
                t = re.sub(r'(?<=[0-9_a-fA-F])(?:[iu](?:8|16|32|64|128|size))$', '', v).replace('_', '')
                if '.' in t:
                    raise Unsupported('float literal (line %d)' % line)
                out.append(Tok('int', int(t, 0) if t[:2] in ('0x', '0b', '0o') else int(t), line, None, sp))
            else:
                out.append(Tok('id' if k == 'id' else k, v, line, None, sp))
            sp = False
        line += v.count('\n')
        pos += len(v)
    return out

CLOSE = {'(': ')', '[': ']', '{': '}'}

def trees(toks):
    stack = [[]]
    opens = []
    for t in toks:
        if t.k == 'op' and t.v in CLOSE:
            opens.append(t)
            stack.append([])
        elif t.k == 'op' and t.v in ')]}':
            o = opens.pop()
            sub = stack.pop()
            stack[-1].append(Tok('grp', o.v, o.line, sub, o.sp))
        else:
            stack[-1].append(t)
    if opens:
        raise Unsupported('unbalanced')
    return stack[0]

def is_op(t, v):
    return t is not None and t.k == 'op' and t.v == v
def is_id(t, v=None):
    return t is not None and t.k == 'id' and (v is None or t.v == v)
def is_grp(t, v=None):
    return t is not None and t.k == 'grp' and (v is None or t.v == v)

def split(ts, op):
    out = [[]]
    depth = 0
    for i, t in enumerate(ts):
        if is_op(t, op):
            out.append([])
        else:
            out[-1].append(t)
    return out

def split_commas(ts):
    r = split(ts, ',')
    if r and not r[-1]:
        r.pop()
    return r

# ------------------------------------------------------------------ items
class Fn:
    def __init__(self, name, params, ret, body, mod, owner, selfk):
        self.name, self.params, self.ret, self.body, self.mod, self.owner, self.selfk = name, params, ret, body, mod, owner, selfk
class Struct:
    def __init__(self, name, fields, mod, tuple_):
        self.name, self.fields, self.mod, self.tuple_ = name, fields, mod, tuple_
class Enum:
    def __init__(self, name, variants, mod):
        self.name, self.variants, self.mod = name, variants, mod
class Parser:
    def __init__(self, name, ret, body, mod, line, file):
        self.name, self.ret, self.body, self.mod, self.line, self.file = name, ret, body, mod, line, file

class Crate:
    def __init__(self, root):
        self.fns, self.structs, self.enums, self.parsers, self.strmacros, self.consts = [], [], [], [], {}, []
        self.uses = {}
        self.othermacros = set()
        self.files = []
        self.load(root, '')
    def load(self, path, mod):
        src = open(path).read()
        self.files.append(path)
        self.items(trees(tokens(src)), mod, path, os.path.dirname(path) if os.path.basename(path) in ('lib.rs', 'mod.rs', 'main.rs')
                   else path[:-3])
    def items(self, ts, mod, path, d, owner=None, trait=None):
        i = 0
        attrs = []
        n = len(ts)
        def skip():
            """skip one item whose attributes exclude it"""
            nonlocal i
            while i < n:
                t = ts[i]; i += 1
                if is_op(t, ';') or is_grp(t, '{'):
                    # `struct X(..);` and `mod x;` end at ';' , blocks end the item
                    if is_op(ts[i] if i < n else None, ';') and is_grp(t, '{') is False:
                        i += 1
                    return
        while i < n:
            t = ts[i]
            if is_op(t, '#'):
                i += 1
                inner = is_op(ts[i], '!')
                if inner: i += 1
                a = ts[i]; i += 1
                if not inner:
                    attrs.append(a)
                continue
            ex = any(len(a.sub) == 2 and is_id(a.sub[0], 'cfg') and any(is_id(x, 'test') for x in a.sub[1].sub)
                     and not any(is_id(x, 'not') for x in a.sub[1].sub) for a in attrs)
            cfgd = any(a.sub and is_id(a.sub[0], 'cfg') for a in attrs) and not ex
            attrs = []
            if ex:
                skip(); continue
            if cfgd:
                # other configurations: keep (the default build has no features)
                pass
            if is_id(t, 'pub'):
                i += 1
                if is_grp(ts[i], '('): i += 1
                continue
            if is_id(t, 'default') or is_id(t, 'unsafe') or is_id(t, 'async') or is_id(t, 'extern') and not is_id(ts[i + 1], 'crate'):
                i += 1
                if ts[i].k == 'str': i += 1
                continue
            if is_id(t, 'extern'):
                while not is_op(ts[i], ';'): i += 1
                i += 1; continue
            if is_id(t, 'use'):
                j = i
                while not is_op(ts[j], ';'): j += 1
                self.use(ts[i + 1:j], mod, [])
                i = j + 1; continue
            if is_id(t, 'mod'):
                name = ts[i + 1].v
                if is_op(ts[i + 2], ';'):
                    for p in (os.path.join(d, name + '.rs'), os.path.join(d, name, 'mod.rs')):
                        if os.path.exists(p):
                            self.load(p, mod + '::' + name); break
                    else:
                        raise Unsupported('module %s not found' % name)
                else:
                    self.items(ts[i + 2].sub, mod + '::' + name, path, os.path.join(d, name))
                i += 3; continue
            if is_id(t, 'macro_rules'):
                name = ts[i + 2].v
                self.macro_rules(name, ts[i + 3])
                i += 4
                if i < n and is_op(ts[i], ';'): i += 1
                continue
            if is_id(t, 'named') and is_op(ts[i + 1], '!'):
                self.named(ts[i + 2].sub, mod, path)
                i += 3
                if i < n and is_op(ts[i], ';'): i += 1
                continue
            if is_id(t, 'const') and is_id(ts[i + 1], 'fn'):
                i += 1; continue
            if is_id(t, 'const') or is_id(t, 'static'):
                j = i
                while not is_op(ts[j], ';'): j += 1
                body = ts[i + 1:j]
                eq = next((k for k, x in enumerate(body) if is_op(x, '=')), None)
                nm = next((x.v for x in body if is_id(x) and x.v != 'mut'), None)
                if eq is not None:
                    self.consts.append((owner, nm, mod, body[eq + 1:]))
                i = j + 1; continue
            if is_id(t, 'fn'):
                j = i
                while not (is_grp(ts[j], '{') or is_op(ts[j], ';')): j += 1
                if is_grp(ts[j], '{'):
                    self.fn(ts[i + 1:j], ts[j], mod, owner, trait, path)
                i = j + 1; continue
            if is_id(t, 'struct') or is_id(t, 'union'):
                j = i
                while not (is_grp(ts[j], '{') or is_op(ts[j], ';')): j += 1
                self.struct(ts[i + 1:j + 1], mod)
                i = j + 1; continue
            if is_id(t, 'enum'):
                j = i
                while not is_grp(ts[j], '{'): j += 1
                self.enum(ts[i + 1].v, ts[j].sub, mod)
                i = j + 1; continue
            if is_id(t, 'impl'):
                j = i
                while not is_grp(ts[j], '{'): j += 1
                head = ts[i + 1:j]
                own, tr = self.impl_head(head)
                self.items(ts[j].sub, mod, path, d, own, tr)
                i = j + 1; continue
            if is_id(t, 'trait') or is_id(t, 'type'):
                j = i
                while not (is_grp(ts[j], '{') or is_op(ts[j], ';')): j += 1
                i = j + 1; continue
            if is_id(t) and i + 1 < n and is_op(ts[i + 1], '!'):
                # some other item macro
                self.othermacros.add(t.v)
                i += 2
                while not is_grp(ts[i]): i += 1
                i += 1
                if i < n and is_op(ts[i], ';'): i += 1
                continue
            i += 1
    def use(self, ts, mod, pre):
        i = 0
        cur = list(pre)
        while i < len(ts):
            t = ts[i]
            if is_op(t, '::'):
                i += 1; continue
            if is_grp(t, '{'):
                for part in split_commas(t.sub):
                    self.use(part, mod, cur)
                return
            if is_id(t, 'as'):
                self.uses.setdefault(mod, {})[ts[i + 1].v] = cur
                return
            if is_op(t, '*'):
                self.uses.setdefault(mod, {}).setdefault('*', []).append(cur)
                return
            cur = cur + [t.v]
            i += 1
        if cur:
            if cur[-1] == 'self':
                cur = cur[:-1]
            if cur:
                self.uses.setdefault(mod, {})[cur[-1]] = cur
    def macro_rules(self, name, g):
        rules = g.sub
        # () => { "literal" }  or  () => { concat!(..) }
        if len(rules) >= 3 and is_grp(rules[0]) and not rules[0].sub and is_op(rules[1], '=>') and is_grp(rules[2]):
            self.strmacros[name] = rules[2].sub
        else:
            self.othermacros.add(name)
    def named(self, ts, mod, path):
        i = 0
        if is_op(ts[0], '#'):
            i += 2
        if is_id(ts[i], 'pub'):
            i += 1
            if is_grp(ts[i], '('): i += 1
        name = ts[i].v
        line = ts[i].line
        i += 1
        ret = None
        if is_op(ts[i], '<'):
            # named!(name<In, Out>, p)
            depth = 0
            j = i
            while True:
                if is_op(ts[j], '<'): depth += 1
                elif is_op(ts[j], '>'): depth -= 1
                elif is_op(ts[j], '>>'): depth -= 2
                j += 1
                if depth <= 0: break
            ret = ts[i + 1:j - 1]
            i = j
        elif is_grp(ts[i], '('):
            i += 1
            j = i
            depth = 0
            while j < len(ts):
                if is_op(ts[j], '<'): depth += 1
                elif is_op(ts[j], '>'): depth -= 1
                elif is_op(ts[j], '>>'): depth -= 2
                elif is_op(ts[j], ',') and depth <= 0: break
                j += 1
            ret = ts[i:j]
            i = j
        if i < len(ts) and is_op(ts[i], ','):
            i += 1
        self.parsers.append(Parser(name, ret, ts[i:], mod, line, path))
    def fn(self, head, body, mod, owner, trait, path):
        name = head[0].v
        i = 1
        if i < len(head) and is_op(head[i], '<'):
            depth = 0
            while True:
                if is_op(head[i], '<'): depth += 1
                elif is_op(head[i], '>'): depth -= 1
                elif is_op(head[i], '>>'): depth -= 2
                i += 1
                if depth <= 0: break
        ps = split_commas(head[i].sub)
        params = []
        selfk = None
        # commas inside generics: re-join parts without ':' at depth
        for p in ps:
            if any(is_id(x, 'self') for x in p[:4]) and not any(is_op(x, ':') for x in p):
                selfk = True
                continue
            c = next((k for k, x in enumerate(p) if is_op(x, ':')), None)
            if c is None:
                continue
            params.append((p[:c], p[c + 1:]))
        ret = head[i + 1:]
        f = Fn(name, params, ret, body, mod, owner, selfk)
        f.trait = trait
        f.file = path
        f.line = head[0].line
        self.fns.append(f)
    def struct(self, ts, mod):
        name = ts[0].v
        g = next((t for t in ts if is_grp(t, '{')), None)
        fields = []
        if g is not None:
            for p in commas_generic(g.sub):
                p = strip_field(p)
                c = next((k for k, x in enumerate(p) if is_op(x, ':')), None)
                if c is not None:
                    fields.append((p[c - 1].v, p[c + 1:]))
            self.structs.append(Struct(name, fields, mod, False))
            return
        g = next((t for t in ts if is_grp(t, '(')), None)
        if g is not None:
            for k, p in enumerate(commas_generic(g.sub)):
                fields.append((str(k), strip_field(p)))
        self.structs.append(Struct(name, fields, mod, True))
    def enum(self, name, sub, mod):
        vs = []
        for p in commas_generic(sub):
            p = strip_field(p)
            if not p: continue
            v = p[0].v
            fields = []
            kind = 'unit'
            if len(p) > 1 and is_grp(p[1], '('):
                kind = 'tuple'
                for k, q in enumerate(commas_generic(p[1].sub)):
                    fields.append((str(k), strip_field(q)))
            elif len(p) > 1 and is_grp(p[1], '{'):
                kind = 'struct'
                for q in commas_generic(p[1].sub):
                    q = strip_field(q)
                    fields.append((q[0].v, q[2:]))
            vs.append((v, kind, fields))
        self.enums.append(Enum(name, vs, mod))
    def impl_head(self, ts):
        i = 0
        if ts and is_op(ts[0], '<'):
            depth = 0
            while True:
                if is_op(ts[i], '<'): depth += 1
                elif is_op(ts[i], '>'): depth -= 1
                elif is_op(ts[i], '>>'): depth -= 2
                i += 1
                if depth <= 0: break
        rest = ts[i:]
        w = next((k for k, x in enumerate(rest) if is_id(x, 'where')), len(rest))
        rest = rest[:w]
        f = next((k for k, x in enumerate(rest) if is_id(x, 'for')), None)
        if f is None:
            return text(rest), None
        return text(rest[f + 1:]), text(rest[:f])

def strip_field(p):
    i = 0
    while i < len(p):
        if is_op(p[i], '#'): i += 2
        elif is_id(p[i], 'pub'):
            i += 1
            if i < len(p) and is_grp(p[i], '(') and i + 1 < len(p): i += 1
        else: break
    return p[i:]

def commas_generic(ts):
    """split at commas outside <...>"""
    out = [[]]
    depth = 0
    for t in ts:
        if is_op(t, '<'): depth += 1
        elif is_op(t, '>'): depth -= 1
        elif is_op(t, '>>'): depth -= 2
        if is_op(t, ',') and depth <= 0:
            out.append([])
        else:
            out[-1].append(t)
    if not out[-1]:
        out.pop()
    return out

def text(ts):
    s = ''
    for t in ts:
        if t.k == 'life':
            continue
        if t.k == 'grp':
            s += t.v + text(t.sub) + CLOSE[t.v]
        elif t.k in ('str', 'bstr'):
            s += repr(t.v)
        else:
            if s and (s[-1].isalnum() or s[-1] == '_') and t.k == 'id':
                s += ' '
            s += str(t.v)
    return re.sub(r'<,*>', '', s)

# ------------------------------------------------------------------ expressions
# AST: tuples
#  ('int',n) ('chr',n) ('str',b) ('bool',b) ('path',[segs]) ('call',f,args) ('meth',e,name,args) ('field',e,name)
#  ('index',e,i) ('un',op,e) ('bin',op,a,b) ('range',a,b,incl) ('try',e) ('if',c,t,e) ('iflet',pat,e,t,f)
#  ('match',e,[(pats,guard,body)]) ('block',stmts,tail) ('closure',pats,body) ('struct',path,[(f,e)],base) ('tuple',es)
#  ('macro',name,tts) ('cast',e,ty) ('array',es) ('ret',e) ('let',pat,e) ('unit',)
PREC = {'||': 1, '&&': 2, '==': 3, '!=': 3, '<': 3, '>': 3, '<=': 3, '>=': 3, '|': 4, '^': 5, '&': 6, '<<': 7, '>>': 7,
        '+': 8, '-': 8, '*': 9, '/': 9, '%': 9}

class Ex:
    def __init__(self, ts, nostruct=False):
        self.ts, self.i, self.ns = ts, 0, nostruct
    def peek(self, k=0):
        return self.ts[self.i + k] if self.i + k < len(self.ts) else None
    def op(self, v):
        if is_op(self.peek(), v):
            self.i += 1
            return True
        return False
    def bad(self, what='expression'):
        t = self.peek()
        raise Unsupported('%s not understood near %r (line %s)' % (what, t, t.line if t else '?'))
    def done(self):
        if self.i != len(self.ts):
            self.bad()
    def expr(self, p=0):
        l = self.unary()
        while True:
            t = self.peek()
            if t is None:
                return l
            if is_op(t, '..') or is_op(t, '..='):
                if p > 0: return l
                self.i += 1
                r = self.expr(1) if self.peek() is not None and not is_op(self.peek(), ',') and not is_op(self.peek(), ';') and not is_op(self.peek(), '=>') else None
                l = ('range', l, r, t.v == '..=')
                continue
            if is_id(t, 'as'):
                self.i += 1
                l = ('cast', l, self.ty())
                continue
            if t.k != 'op' or t.v not in PREC or PREC[t.v] <= p:
                return l
            self.i += 1
            r = self.expr(PREC[t.v])
            l = ('bin', t.v, l, r)
    def ty(self):
        j = self.i
        while is_op(self.peek(), '&') or is_op(self.peek(), '*') or is_id(self.peek(), 'const') or is_id(self.peek(), 'mut'):
            self.i += 1
        if is_grp(self.peek()):
            self.i += 1
        else:
            self.path_segs(False)
        return text(self.ts[j:self.i])
    def generic(self):
        """skip <...>"""
        depth = 0
        j = self.i
        while True:
            t = self.peek()
            if t is None: self.bad('generics')
            if is_op(t, '<'): depth += 1
            elif is_op(t, '>'): depth -= 1
            elif is_op(t, '>>'): depth -= 2
            self.i += 1
            if depth <= 0:
                return text(self.ts[j:self.i])
    def path_segs(self, turbo=True):
        segs = []
        self.op('::')
        if is_op(self.peek(), '<'):
            g = self.generic()
            segs.append(g[1:-1])
            if not self.op('::'): self.bad('path')
        while True:
            t = self.peek()
            if not is_id(t): self.bad('path')
            segs.append(t.v)
            self.i += 1
            if not turbo and is_op(self.peek(), '<'):
                self.generic()
            if is_op(self.peek(), '::'):
                self.i += 1
                if is_op(self.peek(), '<'):
                    self.generic()
                    if not self.op('::'):
                        return segs
                continue
            return segs
    def unary(self):
        t = self.peek()
        if t is None: self.bad()
        if t.k == 'op' and t.v in ('!', '-', '*'):
            self.i += 1
            return ('un', t.v, self.unary())
        if is_op(t, '&') or is_op(t, '&&'):
            self.i += 1
            if is_id(self.peek(), 'mut'): self.i += 1
            return ('un', '&', self.unary())
        if is_op(t, '..') or is_op(t, '..='):
            self.i += 1
            n = self.peek()
            if n is None: return ('range', None, None, False)
            return ('range', None, self.expr(1), t.v == '..=')
        if is_op(t, '|') or is_op(t, '||') or is_id(t, 'move'):
            return self.closure()
        if is_id(t, 'return'):
            self.i += 1
            n = self.peek()
            return ('ret', ('unit',) if n is None or is_op(n, ';') else self.expr())
        return self.postfix(self.atom())
    def closure(self):
        if is_id(self.peek(), 'move'): self.i += 1
        pats = []
        if not self.op('||'):
            if not self.op('|'): self.bad('closure')
            while not self.op('|'):
                pats.append(self.pat(noalt=True))
                if self.op(':'):
                    while not (is_op(self.peek(), ',') or is_op(self.peek(), '|')):
                        if is_op(self.peek(), '<'): self.generic()
                        else: self.i += 1
                self.op(',')
        if self.op('->'):
            while not is_grp(self.peek(), '{'):
                if is_op(self.peek(), '<'): self.generic()
                else: self.i += 1
        return ('closure', pats, self.expr())
    def args(self, g):
        return [self.sub(p) for p in commas_expr(g.sub)]
    def sub(self, ts):
        e = Ex(ts)
        r = e.expr()
        e.done()
        return r
    def atom(self):
        t = self.peek()
        if t.k in ('int', 'chr', 'str', 'bstr'):
            self.i += 1
            return ('str' if t.k in ('str', 'bstr') else t.k, t.v)
        if is_grp(t, '('):
            self.i += 1
            if not t.sub: return ('unit',)
            parts = commas_expr(t.sub)
            if len(parts) == 1 and not is_op(t.sub[-1], ','):
                return self.sub(parts[0])
            return ('tuple', [self.sub(p) for p in parts])
        if is_grp(t, '['):
            self.i += 1
            if any(is_op(x, ';') for x in t.sub): self.bad('array')
            return ('array', [self.sub(p) for p in commas_expr(t.sub)])
        if is_grp(t, '{'):
            self.i += 1
            return block(t)
        if is_id(t, 'unsafe') and is_grp(self.peek(1), '{'):
            self.i += 2
            return block(self.ts[self.i - 1])
        if is_id(t, 'if'):
            self.i += 1
            return self.if_()
        if is_id(t, 'match'):
            self.i += 1
            s = Ex(self.ts, True); s.i = self.i
            e = s.expr()
            self.i = s.i
            g = self.peek(); self.i += 1
            if not is_grp(g, '{'): self.bad('match')
            return ('match', e, self.arms(g.sub))
        if is_id(t, 'true') or is_id(t, 'false'):
            self.i += 1
            return ('bool', t.v == 'true')
        if is_id(t) or is_op(t, '<') or is_op(t, '::'):
            if is_id(t) and is_op(self.peek(1), '!') and is_grp(self.peek(2)):
                self.i += 3
                return ('macro', t.v, self.ts[self.i - 1].sub)
            segs = self.path_segs()
            if is_grp(self.peek(), '{') and not self.ns and segs[-1][0].isupper():
                g = self.peek(); self.i += 1
                fs = []
                base = None
                for p in commas_expr(g.sub):
                    if is_op(p[0], '..'):
                        base = self.sub(p[1:]); continue
                    if len(p) == 1:
                        fs.append((str(p[0].v), ('path', [p[0].v])))
                    else:
                        fs.append((str(p[0].v), self.sub(p[2:])))
                return ('struct', segs, fs, base)
            return ('path', segs)
        self.bad()
    def if_(self):
        s = Ex(self.ts, True); s.i = self.i
        if is_id(s.peek(), 'let'):
            s.i += 1
            pat = s.pat()
            if not s.op('='): s.bad('if let')
            e = s.expr()
            self.i = s.i
            head = ('iflet', pat, e)
        else:
            e = s.expr()
            self.i = s.i
            head = ('if', e)
        g = self.peek(); self.i += 1
        if not is_grp(g, '{'): self.bad('if')
        th = block(g)
        el = ('unit',)
        if is_id(self.peek(), 'else'):
            self.i += 1
            if is_id(self.peek(), 'if'):
                self.i += 1
                el = self.if_()
            else:
                el = block(self.peek()); self.i += 1
        return head + (th, el)
    def arms(self, ts):
        s = Ex(ts)
        out = []
        while s.peek() is not None:
            while is_op(s.peek(), '#'): s.i += 2
            p = s.pat()
            g = None
            if is_id(s.peek(), 'if'):
                s.i += 1
                g = s.expr()
            if not s.op('=>'): s.bad('match arm')
            b = s.expr()
            s.op(',')
            out.append((p, g, b))
        return out
    def pat(self, noalt=False):
        ps = [self.pat1()]
        while not noalt and self.op('|'):
            ps.append(self.pat1())
        return ps[0] if len(ps) == 1 else ('por', ps)
    def pat1(self):
        t = self.peek()
        if is_op(t, '&') or is_op(t, '&&'):
            self.i += 1
            return self.pat1()
        if is_id(t, 'ref') or is_id(t, 'mut'):
            self.i += 1
            return self.pat1()
        if is_id(t, '_'):
            self.i += 1
            return ('pwild',)
        if is_op(t, '..'):
            self.i += 1
            return ('prest',)
        if t.k in ('int', 'chr'):
            self.i += 1
            if is_op(self.peek(), '..=') or is_op(self.peek(), '...'):
                self.i += 1
                hi = self.peek(); self.i += 1
                return ('prange', t.v, hi.v)
            return ('plit', (t.k, t.v))
        if t.k in ('str', 'bstr'):
            self.i += 1
            return ('plit', ('str', t.v))
        if is_id(t, 'true') or is_id(t, 'false'):
            self.i += 1
            return ('plit', ('bool', t.v == 'true'))
        if is_grp(t, '('):
            self.i += 1
            return ('ptuple', [self.subpat(p) for p in split_commas(t.sub)])
        if is_grp(t, '['):
            self.i += 1
            return ('pslice', [self.subpat(p) for p in split_commas(t.sub)])
        if is_id(t) or is_op(t, '::'):
            segs = self.path_segs()
            g = self.peek()
            if is_grp(g, '('):
                self.i += 1
                return ('pctor', segs, [self.subpat(p) for p in split_commas(g.sub)])
            if is_grp(g, '{'):
                self.i += 1
                fs = []
                for p in split_commas(g.sub):
                    if is_op(p[0], '..'): continue
                    if len(p) == 1 or is_id(p[0], 'ref'):
                        fs.append((p[-1].v, ('pbind', p[-1].v)))
                    else:
                        fs.append((str(p[0].v), self.subpat(p[2:])))
                return ('pstruct', segs, fs)
            if len(segs) == 1 and (segs[0][0].islower() or segs[0][0] == '_'):
                if self.op('@'):
                    return ('pat@', segs[0], self.pat1())
                return ('pbind', segs[0])
            return ('pctor', segs, [])
        self.bad('pattern')
    def subpat(self, ts):
        e = Ex(ts)
        r = e.pat()
        e.done()
        return r
    def postfix(self, e):
        while True:
            t = self.peek()
            if is_op(t, '?'):
                self.i += 1
                e = ('try', e)
            elif is_op(t, '.'):
                n = self.peek(1)
                self.i += 2
                if is_id(n):
                    if is_op(self.peek(), '::'):
                        self.i += 1
                        self.generic()
                    if is_grp(self.peek(), '('):
                        g = self.peek(); self.i += 1
                        e = ('meth', e, n.v, self.args(g))
                    else:
                        e = ('field', e, n.v)
                elif n.k == 'int':
                    e = ('field', e, str(n.v))
                else:
                    self.bad('field')
            elif is_grp(t, '('):
                self.i += 1
                e = ('call', e, self.args(t))
            elif is_grp(t, '['):
                self.i += 1
                e = ('index', e, self.sub(t.sub))
            else:
                return e

def commas_expr(ts):
    """commas at top level; closure parameter lists hold commas too"""
    out = [[]]
    i = 0
    bar = False
    while i < len(ts):
        t = ts[i]
        if is_op(t, '|') and (not out[-1] or bar or is_id(out[-1][-1], 'move') and len(out[-1]) == 1):
            bar = not bar
        if is_op(t, '<') and i and is_op(ts[i - 1], '::'):
            d = 0
            while i < len(ts):
                u = ts[i]
                if is_op(u, '<'): d += 1
                elif is_op(u, '>'): d -= 1
                elif is_op(u, '>>'): d -= 2
                out[-1].append(u)
                i += 1
                if d <= 0: break
            continue
        if is_op(t, '->'):
            while i < len(ts) and not is_grp(ts[i], '{'):
                out[-1].append(ts[i]); i += 1
            continue
        if is_op(t, ',') and not bar:
            out.append([])
        else:
            out[-1].append(t)
        i += 1
    if not out[-1]:
        out.pop()
    return out

def block(g):
    s = Ex(g.sub)
    stmts = []
    tail = ('unit',)
    while s.peek() is not None:
        t = s.peek()
        if s.op(';'): continue
        if is_op(t, '#'):
            s.i += 2; continue
        if is_id(t, 'let'):
            s.i += 1
            p = s.pat(noalt=True)
            if s.op(':'):
                while not (is_op(s.peek(), '=') or is_op(s.peek(), ';')):
                    if is_op(s.peek(), '<'): s.generic()
                    else: s.i += 1
            if not s.op('='): s.bad('let')
            e = s.expr()
            if not s.op(';'): s.bad('let')
            stmts.append(('let', p, e))
            continue
        if is_id(t, 'use'):
            while not s.op(';'): s.i += 1
            continue
        e = s.expr()
        if s.op(';'):
            stmts.append(('expr', e))
        elif s.peek() is None:
            tail = e
        elif e[0] in ('if', 'iflet', 'match', 'block', 'macro'):
            stmts.append(('expr', e))
        else:
            s.bad('statement')
    return ('block', stmts, tail)

"""Parser for GNU Smalltalk source (class-body syntax and bang syntax).

parse_file(path) -> list of top-level items:
  ClassDef(kind='subclass'|'extend', name, super, meta, ns, ivars, civars,
           cvars, methods, pragmas, line)
  Eval(statements), and for bang files equivalent ClassDef/Method items.
Every AST node is a Node with .k (kind), .line and attributes.
"""
import re


class ParseError(Exception):
    pass


class Node:
    __slots__ = ('k', 'line', 'a', 'pos')

    def __init__(self, k, line, **a):
        self.k = k; self.line = line; self.a = a

    def __getattr__(self, n):
        try:
            return self.a[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return '%s(%s)' % (self.k, ', '.join('%s=%r' % x for x in self.a.items()))


class Method:
    def __init__(self, sel, args, line):
        self.sel = sel; self.args = args; self.line = line
        self.temps = []; self.body = []; self.pragmas = []; self.cls = None; self.meta = False
        self.file = None; self.ns = None; self.category = None; self.src = None

    @property
    def primitive(self):
        for s, a in self.pragmas:
            if s == 'primitive:':
                return a[0]
        return None

    def pragma(self, sel):
        for s, a in self.pragmas:
            if s == sel:
                return a
        return None

    def __repr__(self):
        return '%s%s>>%s' % (self.cls, ' class' if self.meta else '', self.sel)


class ClassDef:
    def __init__(self, kind, name, sup, line):
        self.kind = kind; self.name = name; self.sup = sup; self.line = line
        self.meta = False      # 'Foo class extend [..]'
        self.ivars = []; self.civars = []; self.cvars = {}; self.methods = []; self.pragmas = []
        self.ns = None; self.file = None; self.imports = []


TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<comment>"(?:[^"])*")
 | (?P<string>'(?:[^']|'')*')
 | (?P<char>\$<\s*(?:[0-9]+r)?[0-9A-Z]+\s*>|\$(?:.|\n))
 | (?P<num>-?\d+r-?[0-9A-Z_]+(?:\.[0-9A-Z_]+)?(?:[edq]-?\d+|[edq](?![A-Za-z]))?|-?\d[\d_]*(?:\.\d[\d_]*)?(?:[edq]-?\d+|[edq](?![A-Za-z]))?(?:s\d*)?)
 | (?P<binding>\#\{)
 | (?P<lparr>\#\()
 | (?P<lbyte>\#\[)
 | (?P<cconst>\#\#\()
 | (?P<hashbr>\#\{)
 | (?P<symstr>\#+'(?:[^']|'')*')
 | (?P<sym>\#+(?:[A-Za-z_][A-Za-z0-9_]*(?:[:.](?![=])[A-Za-z_][A-Za-z0-9_]*)*:?(?!=)|[-+*/\\<>=~@%|&?,!]+|\d+))
 | (?P<assign>:=)
 | (?P<kw>[A-Za-z_][A-Za-z0-9_]*:(?!=))
 | (?P<id>[A-Za-z_][A-Za-z0-9_]*)
 | (?P<bin>[-+*/\\<>=~@%|&?,]+)
 | (?P<p>[\[\](){}.;^:!])
''', re.X)

BINCHARS = set('-+*/\\<>=~@%|&?,')


class Lexer:
    def __init__(self, src, bang=False):
        self.s = src; self.p = 0; self.cache = {}
        self.lines = [0]
        for m in re.finditer('\n', src):
            self.lines.append(m.end())

    def line(self, pos):
        import bisect
        return bisect.bisect_right(self.lines, pos)

    def scan(self, pos):
        """token starting at or after pos: (kind, text, start, end)"""
        s = self.s
        while True:
            if pos in self.cache:
                return self.cache[pos]
            if pos >= len(s):
                return ('eof', '', pos, pos)
            m = TOK.match(s, pos)
            if not m:
                raise ParseError('line %d: bad character %r' % (self.line(pos), s[pos]))
            k = m.lastgroup
            if k in ('ws', 'comment'):
                pos = m.end(); continue
            t = (k, m.group(), m.start(), m.end())
            self.cache[pos] = t
            return t


class Parser:
    def __init__(self, src, fname='?'):
        self.lx = Lexer(src); self.pos = 0; self.fname = fname; self.src = src
        self.lastcomment = None

    # --- token helpers
    def peek(self):
        return self.lx.scan(self.pos)

    def next(self):
        t = self.lx.scan(self.pos)
        self.pos = t[3]
        return t

    def at(self, text):
        t = self.peek()
        return t[1] == text and t[0] not in ('string', 'char')

    def accept(self, text):
        if self.at(text):
            return self.next()
        return None

    def expect(self, text):
        t = self.next()
        if t[1] != text:
            raise ParseError('%s:%d: expected %r, got %r' % (self.fname, self.lx.line(t[2]), text, t[1]))
        return t

    def ln(self, t=None):
        return self.lx.line((t or self.peek())[2])

    def err(self, msg):
        raise ParseError('%s:%d: %s' % (self.fname, self.ln(), msg))

    # --- expressions
    def parse_temps(self):
        out = []
        while True:
            t = self.peek()
            if t[0] == 'bin' and t[1] == '||':
                self.next(); continue
            if t[0] == 'bin' and t[1] == '|':
                self.next()
                while not self.at('|'):
                    n = self.next()
                    if n[0] != 'id':
                        self.err('bad temporary %r' % n[1])
                    out.append(n[1])
                self.next()
                continue
            return out

    def parse_statements(self, ends, temps=None):
        """statements until one of the tokens in ends (not consumed)"""
        out = []
        while True:
            while self.accept('.'):
                pass
            t = self.peek()
            if t[0] == 'eof' or (t[1] in ends and t[0] in ('p',)):
                return out
            if t[0] == 'bin' and t[1] in ('|', '||'):
                ts = self.parse_temps()
                if temps is not None: temps.extend(ts)
                continue
            if t[1] == '<' and t[0] == 'bin' and self.pragma_ok():
                self.pragmas.append(self.parse_pragma()); continue
            if t[1] == '^':
                self.next()
                e = self.parse_expr()
                out.append(Node('return', self.ln(t), value=e))
                while self.accept('.'): pass
                if not (self.peek()[0] == 'eof' or self.peek()[1] in ends):
                    continue        # dead statements: keep parsing
                return out
            out.append(self.parse_expr())
            t = self.peek()
            if t[1] == '.' and t[0] == 'p':
                continue
            if t[0] == 'eof' or t[1] in ends:
                return out
            if t[1] == '!' and '!' in ends:
                return out
            self.err('unexpected %r' % t[1])

    def pragma_ok(self):
        # '<kw:' at statement start
        t = self.peek()
        n = self.lx.scan(t[3])
        return n[0] == 'kw'

    def parse_pragma(self):
        self.expect('<')
        sel = ''; args = []
        while self.peek()[0] == 'kw':
            sel += self.next()[1]
            save = self.nogt; self.nogt = True
            try: args.append(self.parse_binary_operand_for_pragma())
            finally: self.nogt = save
        t = self.next()
        if t[1] != '>':
            # '>' may have been glued
            raise ParseError('%s:%d: bad pragma near %r' % (self.fname, self.ln(t), t[1]))
        return (sel, args)

    nogt = False
    pragmas = None

    def parse_binary_operand_for_pragma(self):
        e = self.parse_unary()
        while True:
            t = self.peek()
            if t[0] == 'bin' and t[1] != '>' and not t[1].startswith('>'):
                self.next(); r = self.parse_unary()
                e = Node('send', self.ln(t), rcv=e, sel=t[1], args=[r])
            else:
                return e

    def parse_expr(self):
        t = self.peek()
        if t[0] == 'id':
            n = self.lx.scan(t[3])
            if n[0] == 'assign' or (n[0] == 'id' and n[1] == '_'):
                self.next(); self.next()
                v = self.parse_expr()
                return Node('assign', self.ln(t), name=t[1], value=v)
            # dotted variable assignment Foo.Bar := x
            if n[1] == '.' and n[0] == 'p':
                save = self.pos
                v = self.parse_var()
                if self.peek()[0] == 'assign':
                    self.next()
                    e = self.parse_expr()
                    return Node('assign', self.ln(t), name=v.name, value=e)
                self.pos = save
        e = self.parse_keyword()
        if self.at(';'):
            # cascade: last message's receiver
            if e.k != 'send':
                self.err('cascade on non-message')
            rcv = e.rcv; msgs = [(e.sel, e.args, e.line)]
            while self.accept(';'):
                msgs.append(self.parse_message())
            e = Node('cascade', e.line, rcv=rcv, msgs=msgs)
        return e

    def parse_message(self):
        t = self.peek()
        if t[0] == 'id':
            self.next(); return (t[1], [], self.ln(t))
        if t[0] == 'bin':
            self.next()
            return (t[1], [self.parse_unary()], self.ln(t))
        if t[0] == 'num' and t[1].startswith('-'):
            self.pos = t[2] + 1
            return ('-', [self.parse_unary()], self.ln(t))
        if t[0] == 'kw':
            sel = ''; args = []
            while self.peek()[0] == 'kw':
                sel += self.next()[1]; args.append(self.parse_binary())
            return (sel, args, self.ln(t))
        self.err('bad message %r' % t[1])

    def parse_keyword(self):
        e = self.parse_binary()
        t = self.peek()
        if t[0] == 'kw':
            sel = ''; args = []
            while self.peek()[0] == 'kw':
                sel += self.next()[1]
                args.append(self.parse_binary())
            e = Node('send', self.ln(t), rcv=e, sel=sel, args=args)
        return e

    def parse_binary(self):
        e = self.parse_unary()
        while True:
            t = self.peek()
            if t[0] == 'bin':
                if self.nogt and t[1] == '>':
                    return e
                # a binary operator glued to a negative number: "a >-1"
                self.next()
                op = t[1]
                if len(op) > 1 and op.endswith('-') and op != '-' and self.src[t[3]:t[3]+1].isdigit():
                    op = op[:-1]; self.pos = t[3] - 1
                r = self.parse_unary()
                e = Node('send', self.ln(t), rcv=e, sel=op, args=[r])
            elif t[0] == 'num' and t[1].startswith('-'):
                # "a -1" is a binary minus
                self.pos = t[2] + 1
                r = self.parse_unary()
                e = Node('send', self.ln(t), rcv=e, sel='-', args=[r])
            else:
                return e

    def parse_unary(self):
        e = self.parse_primary()
        while True:
            t = self.peek()
            if t[0] == 'id' and not (t[1] == '_' ):
                # 'Foo class [ ... ]' is handled by callers at top level
                self.next()
                e = Node('send', self.ln(t), rcv=e, sel=t[1], args=[])
            else:
                return e

    def parse_var(self):
        t = self.next(); name = t[1]
        while True:
            d = self.peek()
            if d[1] == '.' and d[0] == 'p' and d[2] == self.pos:
                n = self.lx.scan(d[3])
                if n[0] == 'id' and n[2] == d[3] and (name[0].isupper() or '.' in name) and n[1][0].isupper():
                    self.next(); self.next(); name += '.' + n[1]; continue
            break
        return Node('var', self.ln(t), name=name)

    def parse_bname(self):
        n = self.next()[1]
        while not self.accept('}'):
            n += self.next()[1]
        return n

    def parse_primary(self):
        t = self.peek(); k = t[0]; line = self.ln(t)
        if k == 'id':
            return self.parse_var()
        if k == 'num':
            self.next(); return Node('num', line, text=t[1], value=num_value(t[1]))
        if k == 'bin' and t[1] == '-' :
            n = self.lx.scan(t[3])
            if n[0] == 'num':
                self.next(); self.next()
                return Node('num', line, text='-' + n[1], value=(None if num_value(n[1]) is None else -num_value(n[1])))
        if k == 'string':
            self.next(); return Node('str', line, value=t[1][1:-1].replace("''", "'"))
        if k == 'char':
            self.next(); return Node('char', line, text=t[1])
        if k in ('sym', 'symstr'):
            self.next()
            tx = t[1].lstrip('#')
            if tx.startswith("'"): tx = tx[1:-1].replace("''", "'")
            return Node('sym', line, value=tx)
        if k in ('binding', 'hashbr'):
            self.next(); return Node('binding', line, name=self.parse_bname())
        if k == 'lparr':
            self.next(); return self.parse_litarray(line)
        if k == 'lbyte':
            self.next()
            vals = []
            while not self.accept(']'):
                vals.append(num_value(self.next()[1]))
            return Node('bytes', line, value=vals)
        if k == 'cconst':
            self.next()
            temps = []
            st = self.parse_statements((')',), temps)
            self.expect(')')
            return Node('cconst', line, temps=temps, body=st)
        if t[1] == '(' and k == 'p':
            self.next()
            save, self.nogt = self.nogt, False
            e = self.parse_expr()
            # (a. b) style sequences used in a few places: value of last
            while self.accept('.'):
                if self.at(')'): break
                e = self.parse_expr()
            self.nogt = save
            self.expect(')')
            if e.k == 'cascade' or e.k == 'send':
                pass
            return e if e.k != 'cascade' else Node('paren', line, value=e)
        if t[1] == '[' and k == 'p':
            return self.parse_block()
        if t[1] == '{' and k == 'p':
            self.next()
            st = self.parse_statements(('}',))
            self.expect('}')
            return Node('brace', line, elems=st)
        self.err('unexpected %r' % (t[1],))

    def parse_litarray(self, line):
        out = []
        while True:
            t = self.peek(); k = t[0]
            if t[1] == ')' and k == 'p':
                self.next(); return Node('litarray', line, elems=out)
            if k == 'eof':
                self.err('eof in literal array')
            if t[1] == '(' and k == 'p':
                self.next(); out.append(self.parse_litarray(self.ln(t))); continue
            if k == 'lparr':
                self.next(); out.append(self.parse_litarray(self.ln(t))); continue
            if t[1] == '[' and k == 'p' or k == 'lbyte':
                self.next(); vals = []
                while not self.accept(']'):
                    vals.append(num_value(self.next()[1]))
                out.append(Node('bytes', self.ln(t), value=vals)); continue
            if k == 'id':
                self.next()
                nm = t[1]
                # keyword-ish symbols without '#': at:put:
                out.append(Node('sym', self.ln(t), value=nm) if nm not in ('nil', 'true', 'false') else Node('var', self.ln(t), name=nm))
                continue
            if k == 'kw':
                s = ''
                while self.peek()[0] == 'kw' and (s == '' or self.peek()[2] == self.pos):
                    s += self.next()[1]
                if self.peek()[0] == 'id' and self.peek()[2] == self.pos:
                    s += self.next()[1]
                out.append(Node('sym', self.ln(t), value=s)); continue
            if k == 'bin':
                n = self.lx.scan(t[3])
                self.next(); out.append(Node('sym', self.ln(t), value=t[1])); continue
            if t[1] in (':', '^', ';', '.', '!', '{', '}') and k == 'p':
                if t[1] == '{':
                    self.next(); out.append(Node('binding', self.ln(t), name=self.parse_bname())); continue
                self.next(); out.append(Node('sym', self.ln(t), value=t[1])); continue
            if k == 'assign':
                self.next(); out.append(Node('sym', self.ln(t), value=':=')); continue
            out.append(self.parse_primary())

    def parse_block(self):
        t = self.expect('['); args = []; temps = []
        save, self.nogt = self.nogt, False
        while self.at(':'):
            self.next(); args.append(self.next()[1])
        if args:
            if self.at('||'):
                # "[:a || t | ...]"
                tk = self.next(); self.pos = tk[2] + 1
            elif not self.accept('|') and not self.at(']'):
                self.err('expected | after block arguments')
        oldp = self.pragmas
        st = self.parse_statements((']',), temps)
        self.pragmas = oldp
        self.expect(']')
        self.nogt = save
        return Node('block', self.ln(t), args=args, temps=temps, body=st)

    # --- method syntax
    def parse_selector(self):
        t = self.peek(); line = self.ln(t)
        if t[0] == 'id':
            self.next(); return Method(t[1], [], line)
        if t[0] == 'bin':
            self.next(); return Method(t[1], [self.next()[1]], line)
        if t[0] == 'kw':
            sel = ''; args = []
            while self.peek()[0] == 'kw':
                sel += self.next()[1]; args.append(self.next()[1])
            return Method(sel, args, line)
        self.err('bad method selector %r' % t[1])

    def parse_method_body(self, m, ends):
        self.pragmas = []
        start = self.pos
        m.body = self.parse_statements(ends, m.temps)
        m.pragmas = self.pragmas
        self.pragmas = None
        m.src = (start, self.pos)
        for s, a in m.pragmas:
            if s == 'category:' and a and a[0].k == 'str':
                m.category = a[0].value


def num_value(s):
    s = s.replace('_', '')
    neg = False
    try:
        m = re.match(r'^(-?)(\d+)r(-?)([0-9A-Z]+)(?:e(\d+))?$', s)
        if m:
            b = int(m.group(2))
            # trailing e-notation is ambiguous with hex digits: regexp keeps uppercase only
            v = int(m.group(4), b) if b <= 36 else None
            if m.group(5): v *= b ** int(m.group(5))
            return -v if (m.group(1) or m.group(3)) else v
        m = re.match(r'^-?\d+(?:[e](\d+))?$', s)
        if m:
            if m.group(1):
                base, ex = s.split('e'); return int(base) * 10 ** int(ex)
            return int(s)
        return float(re.sub('[dq]', 'e', re.sub(r's\d*$', '', s)).rstrip('e'))
    except (ValueError, OverflowError):
        return None


class FileParser(Parser):
    """Whole-file parsing."""

    def __init__(self, src, fname):
        super().__init__(src, fname)
        self.items = []; self.ns = 'Smalltalk'; self.errors = []

    def parse(self):
        if re.match(r'#!', self.src):
            self.pos = self.src.index('\n')
        while True:
            t = self.peek()
            if t[0] == 'eof':
                return self.items
            self.parse_top(None)

    def parse_top(self, nsend):
        t = self.peek()
        if t[1] == '!' and t[0] == 'p':
            self.parse_bang(); return
        if t[0] == 'bin' and t[1] in ('|', '||'):
            self.parse_temps(); return
        if t[1] in ('.',):
            self.next(); return
        save = self.pos
        # Eval [ ... ]
        if t[0] == 'id':
            if t[1] == 'Eval':
                self.next()
                if self.accept('['):
                    temps = []
                    self.pragmas = []
                    st = self.parse_statements((']',), temps); self.expect(']')
                    self.items.append(Node('eval', self.ln(t), body=st, temps=temps, ns=self.ns)); return
                self.pos = save
            if t[1] == 'Namespace':
                self.next()
                if self.peek()[1] == 'current:':
                    self.next()
                    v = self.parse_var()
                    while self.peek()[0] == 'id':
                        self.next()     # e.g. 'Smalltalk.Foo' only
                    if self.accept('['):
                        old = self.ns; self.ns = self.qualify(v.name)
                        while not self.accept(']'):
                            if self.peek()[0] == 'eof': self.err('eof in Namespace body')
                            if self.at('<'):
                                p = self.parse_pragma(); self.items.append(Node('nspragma', self.ln(t), sel=p[0], args=p[1], ns=self.ns)); continue
                            self.parse_top(']')
                        self.ns = old
                        return
                self.pos = save
            c = self.try_class(save)
            if c: return
            self.pos = save
        # plain statement(s)
        ends = ('!',) if nsend is None else ('!', ']')
        e = None
        self.pragmas = []
        if self.accept('^'): pass
        e = self.parse_expr()
        self.note_stmt(e)
        self.items.append(Node('eval', self.ln(t), body=[e], temps=[], ns=self.ns))
        if not self.accept('.'):
            if not (self.at('!') or self.peek()[0] == 'eof' or self.at(']')):
                self.err('unexpected %r after statement' % self.peek()[1])

    def qualify(self, n):
        if n == 'Smalltalk' or n.startswith('Smalltalk.'):
            return n
        if n == 'SystemExceptions' or n.startswith('SystemExceptions'):
            return n
        return (self.ns + '.' + n) if self.ns not in ('Smalltalk',) else n

    def try_class(self, save):
        """Foo subclass: Bar [...], Foo extend [...], Foo class extend [...],
           Foo class >> sel [...], Foo >> sel [...]"""
        try:
            v = self.parse_var()
            t = self.peek()
            if t[0] == 'kw' and t[1] == 'subclass:':
                self.next(); n = self.peek()
                if n[0] != 'id': return None
                nm = self.parse_var()
                if self.accept('['):
                    c = ClassDef('subclass', nm.name, v.name, nm.line); c.ns = self.ns; c.file = self.fname
                    self.parse_class_body(c); self.items.append(c); return c
                return None
            meta = False
            if t[0] == 'id' and t[1] == 'class':
                self.next(); meta = True; t = self.peek()
            if t[0] == 'id' and t[1] == 'extend':
                self.next()
                if self.accept('['):
                    c = ClassDef('extend', v.name, None, v.line); c.meta = meta; c.ns = self.ns; c.file = self.fname
                    self.parse_class_body(c); self.items.append(c); return c
                return None
            if t[0] == 'bin' and t[1] == '>>':
                self.next()
                m = self.parse_selector()
                if self.accept('['):
                    self.parse_method_body(m, (']',)); self.expect(']')
                    c = ClassDef('extend', v.name, None, v.line); c.meta = False; c.ns = self.ns; c.file = self.fname
                    m.meta = meta; m.cls = v.name; m.file = self.fname; c.methods.append(m)
                    self.items.append(c); return c
                return None
        except ParseError:
            if self.pos - save > 400:
                raise
            return None
        return None

    def parse_class_body(self, c):
        while True:
            t = self.peek()
            if t[0] == 'eof': self.err('eof in class %s' % c.name)
            if t[1] == ']' and t[0] == 'p':
                self.next(); return
            if t[0] == 'bin' and t[1] in ('|', '||'):
                n1 = self.lx.scan(t[3]); n2 = self.lx.scan(n1[3]) if n1[0] == 'id' else n1
                if not (t[1] == '|' and n1[0] == 'id' and n2[1] == '[' and n2[0] == 'p'):
                    (c.civars if c.meta else c.ivars).extend(self.parse_temps()); continue
            if t[1] == '<' and t[0] == 'bin':
                n = self.lx.scan(t[3])
                if n[0] == 'kw':
                    c.pragmas.append(self.parse_pragma()); continue
            save = self.pos
            if t[0] == 'id':
                n = self.lx.scan(t[3])
                if n[0] == 'assign':
                    self.next(); self.next()
                    c.cvars[t[1]] = self.parse_expr()
                    if not self.accept('.'):
                        if not self.at(']'): self.err('expected . after class variable')
                    continue
                # Foo class >> sel [ / Foo >> sel [ / Foo class [ |a| ]
                if t[1] == c.name.split('.')[-1] or t[1] == c.name or n[1] in ('class', '>>', '.'):
                    self.parse_var()
                    meta = bool(self.peek()[1] == 'class' and self.next())
                    if self.at('>>'):
                        self.next()
                        m = self.parse_selector()
                        if self.accept('['):
                            self.parse_method_body(m, (']',)); self.expect(']')
                            m.meta = meta or c.meta; m.cls = c.name; m.file = self.fname; c.methods.append(m); continue
                    elif meta and self.accept('['):
                        sub = ClassDef('extend', c.name, None, self.ln(t)); sub.meta = True; sub.ns = c.ns; sub.file = self.fname
                        self.parse_class_body(sub)
                        c.civars.extend(sub.civars); c.methods.extend(sub.methods)
                        continue
                    self.pos = save
                if n[1] == '.' and n[0] == 'p':      # 'Foo.' alone: class var declared nil
                    self.next(); self.next(); c.cvars[t[1]] = None; continue
            m = self.parse_selector()
            self.expect('[')
            self.parse_method_body(m, (']',)); self.expect(']')
            m.meta = c.meta; m.cls = c.name; m.file = self.fname
            c.methods.append(m)

    # --- bang syntax
    def note_stmt(self, e):
        if e is None or e.k != 'send': return
        m = re.match(r'^(?:variable|variableByte|variableWord)?[sS]ubclass:(?:.*(?:category|package):)?$', e.sel)
        if m and e.args[0].k == 'sym' and e.rcv.k == 'var':
            c = ClassDef('subclass', e.args[0].value, e.rcv.name, e.line); c.ns = self.ns; c.file = self.fname
            keys = e.sel.split(':')[:-1]
            for kx, a in zip(keys, e.args):
                if kx == 'instanceVariableNames' and a.k == 'str': c.ivars = a.value.split()
                if kx == 'classVariableNames' and a.k == 'str': c.cvars = {x: None for x in a.value.split()}
                if kx == 'poolDictionaries' and a.k == 'str': c.imports = a.value.split()
            self.items.append(c)
        elif e.sel == 'instanceVariableNames:' and e.args[0].k == 'str':
            r = e.rcv
            c = None
            if r.k == 'send' and r.sel == 'class' and r.rcv.k == 'var':
                c = ClassDef('extend', r.rcv.name, None, e.line); c.civars = e.args[0].value.split()
            elif r.k == 'var':
                c = ClassDef('extend', r.name, None, e.line); c.ivars = e.args[0].value.split()
            if c:
                c.ns = self.ns; c.file = self.fname; self.items.append(c)
        elif e.sel == 'current:' and e.rcv.k == 'var' and e.rcv.name == 'Namespace':
            a = e.args[0]
            if a.k == 'var': self.ns = self.qualify(a.name)
            elif a.k == 'send' and a.sel in ('addSubspace:',) and a.args[0].k == 'sym':
                self.ns = a.args[0].value

    def parse_bang(self):
        self.expect('!')
        t = self.peek()
        save = self.pos
        if t[0] == 'id' and t[1][0].isupper():
            try:
                v = self.parse_var(); meta = False
                if self.peek()[1] == 'class': self.next(); meta = True
                k = self.peek()
                if k[0] == 'kw' and k[1] == 'methodsFor:' or (k[0] == 'id' and k[1] in ('publicMethods', 'privateMethods')):
                    self.next()
                    cat = None
                    if k[0] == 'kw': cat = self.parse_binary()
                    if self.peek()[0] == 'kw': self.next(); self.parse_binary()   # stamp: / ifTrue:
                    if self.accept('!'):
                        c = ClassDef('extend', v.name, None, v.line); c.ns = self.ns; c.file = self.fname
                        while not self.at('!'):
                            if self.peek()[0] == 'eof': break
                            m = self.parse_selector()
                            self.parse_method_body(m, ('!',))
                            self.expect('!')
                            m.cls = v.name; m.meta = meta; m.file = self.fname; c.methods.append(m)
                            if m.category is None and cat is not None and cat.k == 'str': m.category = cat.value
                        self.items.append(c)
                        return
            except ParseError:
                raise
        self.pos = save


def parse_file(path):
    src = open(path, encoding='latin-1').read()
    fp = FileParser(src, path)
    return fp.parse()


def walk(n):
    """All AST nodes below n (node, list)."""
    if isinstance(n, list):
        for x in n:
            yield from walk(x)
        return
    if isinstance(n, tuple):
        for x in n:
            if isinstance(x, (Node, list, tuple)): yield from walk(x)
        return
    if not isinstance(n, Node):
        return
    yield n
    for v in n.a.values():
        if isinstance(v, (Node, list, tuple)):
            yield from walk(v)


def sends(n):
    """(rcv, sel, args, line, iscascade) of every message sent below n."""
    for x in walk(n):
        if x.k == 'send':
            yield x.rcv, x.sel, x.args, x.line
        elif x.k == 'cascade':
            for s, a, l in x.msgs:
                yield x.rcv, s, a, l


if __name__ == '__main__':
    import sys
    ok = bad = nm = 0
    for f in sys.argv[1:]:
        try:
            it = parse_file(f); ok += 1
            nm += sum(len(c.methods) for c in it if isinstance(c, ClassDef))
        except (ParseError, IndexError, ValueError) as e:
            bad += 1; print(f, e)
    print(ok, bad, nm)

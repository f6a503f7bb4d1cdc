"""Parser for the textual LLVM IR (clang 18, -O0) generated from /repo's real sources.

Only syntax lives here.  Function bodies are parsed lazily.
"""
import re

TOK = re.compile(r'''
   (?P<ws>[ \t\n]+)
 | (?P<comment>;[^\n]*)
 | (?P<cstr>c"(?:[^"])*")
 | (?P<name>[@%](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<str>"[^"]*")
 | (?P<comdat>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<num>-?(?:0x[KLMHR]?[0-9A-Fa-f]+|[0-9]+(?:\.[0-9]+)?(?:e[+-]?[0-9]+)?))
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
 | (?P<punct>[(){}\[\]<>,=*:|])
''', re.X)


class LLError(Exception):
    pass


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise LLError("cannot tokenize at: " + s[pos:pos + 60])
        k = m.lastgroup
        if k not in ('ws', 'comment'):
            out.append((k, m.group()))
        pos = m.end()
    return out


class T:
    """IR type."""
    __slots__ = ('k', 'n', 'a', 'name')

    def __init__(self, k, n=None, a=None, name=None):
        self.k = k
        self.n = n
        self.a = a
        self.name = name

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.n
        if self.k == 'array':
            return '[%d x %r]' % (self.n, self.a)
        if self.k == 'struct':
            return '{%s}' % ','.join(map(repr, self.a))
        if self.k == 'named':
            return self.name
        return self.k


PTR = T('ptr')
VOID = T('void')


def INT(n):
    return T('int', n)


class C:
    """Constant / operand."""
    __slots__ = ('k', 'v', 'ty')

    def __init__(self, k, v=None, ty=None):
        self.k = k
        self.v = v
        self.ty = ty

    def __repr__(self):
        return '%s:%r' % (self.k, self.v)


PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly', 'writeonly',
               'returned', 'immarg', 'dead_on_unwind', 'writable', 'inreg', 'nofree', 'readnone', 'noreturn',
               'nest', 'swiftself', 'allocptr', 'allocalign'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'memory',
                   'elementtype', 'byref', 'preallocated', 'inalloca', 'allocsize'}
LINKAGE = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending',
           'extern_weak', 'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'hidden',
           'protected', 'default', 'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'ccc', 'fastcc',
           'externally_initialized'}


def unname(tok):
    """strip quotes of @"..." """
    if len(tok) > 1 and tok[1] == '"':
        return tok[0] + tok[2:-1]
    return tok


class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, o=0):
        j = self.i + o
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, o=0):
        j = self.i + o
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if self.peek() != v:
            raise LLError('expected %r got %r in %s' % (v, self.peek(), ' '.join(x[1] for x in self.t[max(0, self.i - 12):self.i + 8])))
        self.i += 1

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def type(self):
        x = self.next()
        if x == 'ptr':
            t = PTR
        elif x == 'void':
            t = VOID
        elif re.fullmatch(r'i[0-9]+', x):
            t = INT(int(x[1:]))
        elif x in ('float', 'double', 'x86_fp80', 'half', 'fp128', 'label', 'metadata', 'token'):
            t = T(x)
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = T('array', n, e)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                el = self.typelist('}')
                self.expect('>')
                t = T('struct', True, el)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = T('vector', n, e)
        elif x == '{':
            el = self.typelist('}')
            t = T('struct', False, el)
        elif x[0] == '%':
            t = T('named', name=unname(x))
        elif x == 'opaque':
            t = T('opaque')
        else:
            raise LLError('bad type %r' % x)
        # function type  ret (args)
        while self.peek() == '(' and t.k != 'opaque' and self._looks_fn_type():
            self.next()
            args = []
            va = False
            while not self.accept(')'):
                if self.accept('...'):
                    va = True
                else:
                    args.append(self.type())
                    self.skip_param_attrs()
                self.accept(',')
            t = T('func', va, [t] + args)
        return t

    def _looks_fn_type(self):
        nx = self.peek(1)
        if nx in (')', '...', 'ptr', '{', '['):
            return True
        if nx is None:
            return False
        if re.fullmatch(r'i[0-9]+', nx) or nx in ('float', 'double', 'x86_fp80', 'void'):
            return True
        return False

    def typelist(self, end):
        el = []
        while not self.accept(end):
            el.append(self.type())
            self.accept(',')
        return el

    def skip_param_attrs(self):
        """returns dict of interesting attributes"""
        out = {}
        while True:
            x = self.peek()
            if x in PARAM_ATTRS:
                out[x] = True
                self.i += 1
            elif x in PARAM_ATTRS_ARG:
                self.i += 1
                if x == 'align' and self.kind() == 'num':
                    self.i += 1
                elif x in ('sret', 'byval', 'byref'):
                    self.expect('(')
                    out[x] = self.type()
                    self.expect(')')
                elif self.peek() == '(':
                    self.skip_parens()
            elif self.kind() in ('str', 'attr'):
                self.i += 1
                if self.accept('='):
                    self.i += 1
            else:
                return out

    def value(self, ty):
        """operand/constant of a given type"""
        k = self.kind()
        x = self.next()
        if k == 'name':
            n = unname(x)
            return C('reg' if n[0] == '%' else 'glob', n, ty)
        if k == 'num':
            if ty.k == 'int':
                return C('int', int(x, 0) if not x.startswith('-') else int(x), ty)
            return C('fp', x, ty)
        if k == 'cstr':
            return C('bytes', cbytes(x[2:-1]), ty)
        if x == 'true':
            return C('int', 1, ty)
        if x == 'false':
            return C('int', 0, ty)
        if x == 'null':
            return C('null', None, ty)
        if x in ('undef', 'poison'):
            return C('undef', None, ty)
        if x == 'zeroinitializer':
            return C('zero', None, ty)
        if x == 'none':
            return C('undef', None, ty)
        if x == '{' or x == '[' or x == '<':
            end = {'{': '}', '[': ']', '<': '>'}[x]
            if x == '<' and self.peek() == '{':
                self.next()
                el = self.tvlist('}')
                self.expect('>')
                return C('agg', el, ty)
            el = self.tvlist(end)
            return C('agg', el, ty)
        if x == 'getelementptr':
            self.accept('inbounds')
            if self.peek() == 'inrange':
                self.next()
                self.skip_parens()
            self.expect('(')
            ety = self.type()
            self.expect(',')
            ops = []
            while True:
                self.accept('inrange')
                ops.append(self.tv())
                if not self.accept(','):
                    break
            self.expect(')')
            return C('gep', (ety, ops), ty)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            v = self.tv()
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return C('cast', (x, v), t2)
        if x in ('sub', 'add', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            while self.peek() in ('nsw', 'nuw'):
                self.next()
            self.expect('(')
            a = self.tv()
            self.expect(',')
            b = self.tv()
            self.expect(')')
            return C('bin', (x, a, b), ty)
        if x == 'metadata' or k == 'meta':
            # swallow metadata operand
            return C('meta', x, ty)
        if x == 'asm':
            raise LLError('inline asm')
        raise LLError('bad value %r (%s) ctx %s' % (x, k, ' '.join(y[1] for y in self.t[max(0, self.i - 10):self.i + 5])))

    def tvlist(self, end):
        el = []
        while not self.accept(end):
            el.append(self.tv())
            self.accept(',')
        return el

    def tv(self):
        t = self.type()
        self.skip_param_attrs()
        return self.value(t)


def cbytes(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]) & 0xff)
            i += 1
    return bytes(out)


class I:
    __slots__ = ('op', 'd', 'ty', 'a', 'x', 'dbg', 'blk')

    def __init__(self, op, d=None, ty=None, a=None, x=None):
        self.op = op
        self.d = d
        self.ty = ty
        self.a = a
        self.x = x
        self.dbg = None
        self.blk = None

    def __repr__(self):
        return 'I(%s %s %r %r %r)' % (self.d, self.op, self.ty, self.a, self.x)


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint',
        'inttoptr', 'bitcast'}
FMF = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'}


def parse_call(p, op):
    while p.peek() in FMF or p.peek() in ('fastcc', 'ccc'):
        p.next()
    p.skip_param_attrs()
    rty = p.type()
    if rty.k == 'func':
        rty_ret = rty.a[0]
    else:
        rty_ret = rty
    callee = p.value(PTR)
    p.expect('(')
    args = []
    while not p.accept(')'):
        t = p.type()
        attrs = p.skip_param_attrs()
        if t.k == 'metadata':
            # skip to , or )
            d = 0
            while not (d == 0 and p.peek() in (',', ')')):
                y = p.next()
                if y == '(':
                    d += 1
                elif y == ')':
                    d -= 1
            v = C('meta', None, t)
        else:
            v = p.value(t)
        args.append((v, attrs))
        p.accept(',')
    return rty_ret, callee, args


def parse_instr(line):
    p = P(tokenize(line))
    d = None
    if p.kind() == 'name' and p.peek(1) == '=':
        d = unname(p.next())
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    ins = _parse_body(p, op, d)
    # debug location
    m = DBG.search(line)
    if m:
        ins.dbg = m.group(1)
    return ins


DBG = re.compile(r'!dbg (![0-9]+)')


def _parse_body(p, op, d):
    if op in BIN:
        fl = set()
        while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint') or p.peek() in FMF:
            fl.add(p.next())
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return I(op, d, t, [a, b], fl)
    if op in CAST:
        while p.peek() == 'nneg':
            p.next()
        v = p.tv()
        p.expect('to')
        t = p.type()
        return I(op, d, t, [v])
    if op == 'fneg':
        while p.peek() in FMF:
            p.next()
        t = p.type()
        return I(op, d, t, [p.value(t)])
    if op == 'freeze':
        v = p.tv()
        return I(op, d, v.ty, [v])
    if op == 'alloca':
        t = p.type()
        n = None
        if p.accept(',') and p.kind() == 'word' and re.fullmatch(r'i[0-9]+', p.peek() or ''):
            n = p.tv()
        return I(op, d, t, [n] if n else [])
    if op == 'load':
        while p.peek() in ('atomic', 'volatile'):
            p.next()
        t = p.type()
        p.expect(',')
        a = p.tv()
        return I(op, d, t, [a])
    if op == 'store':
        while p.peek() in ('atomic', 'volatile'):
            p.next()
        v = p.tv()
        p.expect(',')
        a = p.tv()
        return I(op, None, v.ty, [v, a])
    if op == 'getelementptr':
        p.accept('inbounds')
        t = p.type()
        ops = []
        while p.accept(','):
            if p.kind() == 'meta':
                break
            p.accept('inrange')
            ops.append(p.tv())
        return I(op, d, t, ops)
    if op in ('icmp', 'fcmp'):
        while p.peek() in FMF:
            p.next()
        pr = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return I(op, d, t, [a, b], pr)
    if op == 'phi':
        while p.peek() in FMF:
            p.next()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            lab = unname(p.next())
            p.expect(']')
            inc.append((v, lab))
            if p.peek() == ',' and p.peek(1) == '[':
                p.next()
                continue
            break
        return I(op, d, t, inc)
    if op == 'select':
        while p.peek() in FMF:
            p.next()
        c = p.tv()
        p.expect(',')
        a = p.tv()
        p.expect(',')
        b = p.tv()
        return I(op, d, a.ty, [c, a, b])
    if op == 'br':
        if p.accept('label'):
            return I('jmp', None, None, [unname(p.next())])
        c = p.tv()
        p.expect(',')
        p.expect('label')
        a = unname(p.next())
        p.expect(',')
        p.expect('label')
        b = unname(p.next())
        return I('br', None, None, [c, a, b])
    if op == 'switch':
        v = p.tv()
        p.expect(',')
        p.expect('label')
        df = unname(p.next())
        p.expect('[')
        cases = []
        while not p.accept(']'):
            cv = p.tv()
            p.expect(',')
            p.expect('label')
            cases.append((cv.v, unname(p.next())))
        return I('switch', None, v.ty, [v, df, cases])
    if op == 'ret':
        t = p.type()
        if t.k == 'void':
            return I('ret', None, t, [])
        return I('ret', None, t, [p.value(t)])
    if op == 'call':
        r, c, a = parse_call(p, op)
        return I('call', d, r, a, c)
    if op == 'invoke':
        r, c, a = parse_call(p, op)
        while p.kind() in ('attr',) or p.peek() in ('[',):
            p.next()
        while p.peek() != 'to':
            p.next()
        p.expect('to')
        p.expect('label')
        n = unname(p.next())
        p.expect('unwind')
        p.expect('label')
        u = unname(p.next())
        return I('invoke', d, r, a, (c, n, u))
    if op == 'landingpad':
        t = p.type()
        cl = []
        while p.peek() in ('cleanup', 'catch', 'filter'):
            k = p.next()
            if k == 'cleanup':
                cl.append(('cleanup', None))
            elif k == 'catch':
                cl.append(('catch', p.tv()))
            else:
                cl.append(('filter', p.tv()))
        return I(op, d, t, cl)
    if op == 'resume':
        return I(op, None, None, [p.tv()])
    if op == 'unreachable':
        return I(op)
    if op == 'extractvalue':
        v = p.tv()
        idx = []
        while p.accept(','):
            if p.kind() == 'meta':
                break
            idx.append(int(p.next()))
        return I(op, d, None, [v], idx)
    if op == 'insertvalue':
        v = p.tv()
        p.expect(',')
        e = p.tv()
        idx = []
        while p.accept(','):
            if p.kind() == 'meta':
                break
            idx.append(int(p.next()))
        return I(op, d, v.ty, [v, e], idx)
    raise LLError('unknown instruction ' + op)


class Fn:
    def __init__(self, mod, name, header, body_lines):
        self.mod = mod
        self.name = name
        self.header = header
        self.lines = body_lines
        self._parsed = False

    def ensure(self):
        if self._parsed:
            return self
        self._parsed = True
        p = P(tokenize(self.header))
        p.expect('define')
        while p.peek() in LINKAGE:
            p.next()
        p.skip_param_attrs()
        while p.peek() in LINKAGE:
            p.next()
        self.rty = p.type()
        nm = unname(p.next())
        assert nm[1:] == self.name, (nm, self.name)
        p.expect('(')
        self.params = []
        while not p.accept(')'):
            if p.accept('...'):
                self.params.append(('...', None, {}))
                continue
            t = p.type()
            at = p.skip_param_attrs()
            n = None
            if p.kind() == 'name':
                n = unname(p.next())
            else:
                n = '%%%d' % len(self.params)
            self.params.append((n, t, at))
            p.accept(',')
        # blocks
        self.blocks = {}
        self.order = []
        cnt = 0
        # entry label: the number after params if unnamed
        cur = '%entry'
        self.blocks[cur] = []
        self.order.append(cur)
        buf = None
        for ln in self.lines:
            m = LABEL.match(ln)
            if m and buf is None:
                cur = '%' + (m.group(1) or m.group(2))
                self.blocks[cur] = []
                self.order.append(cur)
                continue
            s = ln.strip()
            if not s or s.startswith(';'):
                continue
            if buf is not None:
                buf += ' ' + s
                if s.startswith(']'):
                    self.blocks[cur].append(buf)
                    buf = None
                continue
            if s.startswith('switch ') and ']' not in s:
                buf = s
                continue
            if s.startswith('to label') or s.startswith('catch ') or s.startswith('cleanup') or s.startswith('filter '):
                self.blocks[cur][-1] += ' ' + s
                continue
            self.blocks[cur].append(s)
        for b, ls in self.blocks.items():
            self.blocks[b] = [parse_instr(x) for x in ls]
        self.entry = self.order[0]
        # implicit name of the entry block used in phi nodes
        ent = len([q for q in self.params])
        self.entry_alias = '%%%d' % ent
        return self

    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'jmp':
            return [t.a[0]]
        if t.op == 'br':
            return [t.a[1], t.a[2]]
        if t.op == 'switch':
            return [t.a[1]] + [x[1] for x in t.a[2]]
        if t.op == 'invoke':
            return [t.x[1], t.x[2]]
        return []

    def loops(self):
        """dict header -> set of blocks (natural loops)"""
        if hasattr(self, '_loops'):
            return self._loops
        # dominators
        order = []
        seen = set()

        def dfs(b):
            st = [(b, iter(self.succs(b)))]
            seen.add(b)
            while st:
                x, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(self.succs(s))))
                        break
                else:
                    order.append(x)
                    st.pop()
        dfs(self.entry)
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succs(b):
                preds[s].append(b)
        dom = {b: set(rpo) for b in rpo}
        dom[self.entry] = {self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                nd = set.intersection(*[dom[q] for q in preds[b]]) if preds[b] else set()
                nd = nd | {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        loops = {}
        for b in rpo:
            for s in self.succs(b):
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        self._loops = loops
        return loops


LABEL = re.compile(r'^(?:"([^"]+)"|([-a-zA-Z$._0-9]+)):')
DEFNAME = re.compile(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(')
GLOB = re.compile(r'^@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$')
TYPE = re.compile(r'^%("[^"]*"|[-a-zA-Z$._0-9]+) = type (.*)$')
DILOC = re.compile(r'^(![0-9]+) = (?:distinct )?!DILocation\(line: ([0-9]+)')


class Module:
    def __init__(self, path, tag):
        self.path = path
        self.tag = tag
        self.types = {}
        self.globs = {}     # name -> raw text
        self.fns = {}
        self.decls = set()
        self.lines_dbg = {}
        self._tcache = {}
        self._gcache = {}
        with open(path, encoding='utf-8', errors='replace') as f:
            lines = f.read().split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if not ln:
                i += 1
                continue
            c = ln[0]
            if c == '%':
                m = TYPE.match(ln)
                if m:
                    nm = m.group(1)
                    if nm[0] == '"':
                        nm = nm[1:-1]
                    self.types['%' + nm] = m.group(2)
            elif c == '@':
                m = GLOB.match(ln)
                if m:
                    nm = m.group(1)
                    if nm[0] == '"':
                        nm = nm[1:-1]
                    self.globs[nm] = m.group(2)
            elif ln.startswith('define'):
                m = DEFNAME.search(ln)
                nm = m.group(1)
                if nm[0] == '"':
                    nm = nm[1:-1]
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.fns[nm] = Fn(self, nm, ln, lines[i + 1:j])
                i = j
            elif ln.startswith('declare'):
                m = DEFNAME.search(ln)
                if m:
                    nm = m.group(1)
                    if nm[0] == '"':
                        nm = nm[1:-1]
                    self.decls.add(nm)
            elif c == '!':
                m = DILOC.match(ln)
                if m:
                    self.lines_dbg[m.group(1)] = int(m.group(2))
            i += 1

    def named(self, name):
        t = self._tcache.get(name)
        if t is None:
            raw = self.types.get(name)
            if raw is None:
                raise LLError('unknown type ' + name)
            t = P(tokenize(raw)).type()
            self._tcache[name] = t
        return t

    def resolve(self, t):
        while t.k == 'named':
            t = self.named(t.name)
        return t

    # x86-64 layout
    def align(self, t):
        t = self.resolve(t)
        if t.k == 'int':
            b = (t.n + 7) // 8
            a = 1
            while a < b and a < 16:
                a *= 2
            return a if t.n <= 64 else 16
        if t.k == 'ptr' or t.k == 'double':
            return 8
        if t.k == 'float':
            return 4
        if t.k == 'x86_fp80':
            return 16
        if t.k == 'array':
            return self.align(t.a)
        if t.k == 'struct':
            if t.n:
                return 1
            return max([self.align(x) for x in t.a] or [1])
        raise LLError('align %r' % t)

    def size(self, t):
        t = self.resolve(t)
        if t.k == 'int':
            b = (t.n + 7) // 8
            a = self.align(t)
            return (b + a - 1) // a * a
        if t.k == 'ptr' or t.k == 'double':
            return 8
        if t.k == 'float':
            return 4
        if t.k == 'x86_fp80':
            return 16
        if t.k == 'array':
            return t.n * self.size(t.a)
        if t.k == 'struct':
            return self.struct_layout(t)[1]
        raise LLError('size %r' % t)

    def struct_layout(self, t):
        t = self.resolve(t)
        lay = getattr(self, '_lay', None)
        if lay is None:
            lay = self._lay = {}
        if id(t) in lay:
            return lay[id(t)][1]
        off = 0
        offs = []
        al = 1
        for e in t.a:
            a = 1 if t.n else self.align(e)
            al = max(al, a)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(e)
        off = (off + al - 1) // al * al
        lay[id(t)] = (t, (offs, off))
        return offs, off

    def glob(self, name):
        g = self._gcache.get(name)
        if g is not None:
            return g
        raw = self.globs[name]
        p = P(tokenize(raw))
        ext = False
        const = False
        alias = False
        while True:
            x = p.peek()
            if x in LINKAGE:
                if x in ('external', 'extern_weak'):
                    ext = True
                p.next()
                if x == 'thread_local' and p.peek() == '(':
                    p.skip_parens()
                continue
            break
        x = p.next()
        if x == 'constant':
            const = True
        elif x in ('alias', 'ifunc'):
            alias = True
        elif x != 'global':
            raise LLError('global? ' + raw[:80])
        ty = p.type()
        init = None
        if alias:
            p.expect(',')
            init = p.tv()
        elif not ext:
            init = p.value(ty)
        g = (ty, init, const, ext, alias)
        self._gcache[name] = g
        return g

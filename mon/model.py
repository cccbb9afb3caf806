"""Executable reference model of seam: what the documentation and the code's
contract say a source text means.  It is written independently of the Rust
code's structure (plain recursive Python) and is used as the deterministic
oracle of the monitors: tokens, tree, expansion, the five output formats, and
the location of each diagnostic.

Where the model does not know the answer (third-party corner cases, unbounded
recursion) it raises `Unsure`; such cases are inconclusive and counted, never
judged.
"""
import unicodedata
import re, os, tomllib, math
from fractions import Fraction
from decimal import Decimal


class Unsure(Exception):
    pass


class SeamErr(Exception):
    """kind: lex | parse | expand | gen ; site may be None (location unspecified)"""
    def __init__(self, kind, site, why='', ml=None, inner=None, facts=()):
        super().__init__(why)
        self.kind, self.site, self.why, self.ml, self.inner, self.facts = kind, site, why, ml, inner, facts

    def __repr__(self):
        return 'SeamErr(%s, %s, %s)' % (self.kind, show_site(self.site), self.why)


class Src:
    __slots__ = ('name', 'text', 'b', '_off', 'ascii')

    def __init__(self, name, text):
        self.name, self.text = name, text
        self.b = text.encode('utf-8')
        self.ascii = len(self.b) == len(text)
        self._off = None

    def off(self, i):
        if self.ascii:
            return i
        if self._off is None:
            o, acc = [], 0
            for c in self.text:
                o.append(acc)
                n = ord(c)
                acc += 1 if n < 0x80 else 2 if n < 0x800 else 3 if n < 0x10000 else 4
            o.append(acc)
            self._off = o
        return self._off[i]


class Site:
    __slots__ = ('src', 'line', 'off', 'col', 'span')

    def __init__(self, src, line, off, col, span):
        self.src, self.line, self.off, self.col, self.span = src, line, off, col, span

    def key(self):
        return (self.src.name, self.line, self.off, self.col, self.span)


def show_site(s):
    if s is None:
        return '?'
    return '%s:%d@%d+%d(%d)' % (s.src.name, s.line, s.off, s.span, s.col)


# ---------------------------------------------------------------- display width

WIDE = [(0x1100, 0x115f), (0x2e80, 0x303e), (0x3041, 0x33ff), (0x3400, 0x4dbf), (0x4e00, 0x9fff),
        (0xac00, 0xd7a3), (0xf900, 0xfaff), (0xff01, 0xff60)]
ZERO = [(0x300, 0x36f), (0x200b, 0x200b), (0x20d0, 0x20ff)]


def char_width(c):
    n = ord(c)
    if n < 0x300:
        if n == 0xad:
            raise Unsure('width of soft hyphen')
        return 1
    for a, b in ZERO:
        if a <= n <= b:
            return 0
    for a, b in WIDE:
        if a <= n <= b and unicodedata.east_asian_width(c) in 'WF' and unicodedata.category(c)[0] in 'LNPS' and n not in (0x115f, 0x1160, 0x3164, 0xffa0):
            return 2
    if 0x370 <= n <= 0x4ff or 0x2010 <= n <= 0x2027 or 0x2190 <= n <= 0x21ff:
        if 0x483 <= n <= 0x489 or n in (0x200c, 0x200d, 0x200e, 0x200f, 0x2014):
            raise Unsure('width')
        return 1
    raise Unsure('width of U+%04X' % n)


def width(s):
    if s.isascii():
        return len(s) - s.count('\r\n')
    return sum(char_width(c) for c in s) - s.count('\r\n')


def site_view(site):
    return site.src.b[site.off:site.off + site.span].decode('utf-8')


def site_line(site):
    start = site.off - site.col
    end = site.src.b.find(b'\n', site.off)
    if end < 0:
        end = len(site.src.b)
    return site.src.b[start:end].decode('utf-8')


def site_column(site):
    return width(site.src.b[site.off - site.col:site.off].decode('utf-8')) + 1


def diagnostic_head(err):
    """The exact first part of the displayed diagnostic, up to the message."""
    s = err.site
    prefix = '  %d |' % s.line
    out = prefix + ' ' + site_line(s) + '\n'
    out += '|'.rjust(len(prefix)) + ' ' + '~' * (site_column(s) - 1) + '^' * width(site_view(s)) + '\n'
    loc = '(%s:%d:%d)' % (s.src.name, s.line, site_column(s))
    head = {'lex': '[**] Lexical Error ', 'parse': '[**] Parse Error ', 'expand': '[**] Error Expanding Macro '}
    if err.kind == 'gen':
        return out + '[**] Error Generating %s %s: ' % (err.ml, loc)
    return out + head[err.kind] + loc + ': '


def fact_text(v):
    if isinstance(v, tuple):                     # ('dbg', text): as a string literal
        return rust_debug(v[1])
    return str(v)


def fact_pattern(v):
    t = fact_text(v)
    out = re.escape(t)
    if t and (t[0].isalnum() or t[0] in '_'):
        out = r'(?<![\w.-])' + out
    if t and (t[-1].isalnum() or t[-1] in '_'):
        out += r'(?![\w])(?!-\w)'
    return out


def missing_fact(facts, message):
    """facts: a value the message must state, or (words, value): the value is
    stated right after those words.  -> the first fact not stated, or None;
    Unsure values are passed over."""
    for f in facts:
        try:
            if isinstance(f, tuple) and f[0] != 'dbg':
                words = f[0]
                if isinstance(f[1], list):
                    pat = re.escape(words) + r'\W*?' + r'.*?'.join(fact_pattern(v) for v in f[1])
                else:
                    pat = re.escape(words) + r'[^\w:]{0,8}?' + fact_pattern(f[1])
            else:
                pat = fact_pattern(f)
        except Unsure:
            continue
        if not re.search(pat, message, (re.I if isinstance(f, tuple) else 0) | re.S):
            return f
    return None


KIND = {'y': 'symbol', 'n': 'number', 's': 'string', 'r': 'raw-content string', 'l': 'list', 'a': 'attribute'}


# ---------------------------------------------------------------- tree

class N:
    """kind: y n s r l a"""
    __slots__ = ('k', 'v', 'ws', 'site', 'kids', 'ews', 'esite', 'node')

    def __init__(self, k, v, ws, site, kids=None, ews='', esite=None, node=None):
        self.k, self.v, self.ws, self.site = k, v, ws, site
        self.kids, self.ews, self.esite, self.node = kids, ews, esite, node

    def with_ws(self, ws):
        return N(self.k, self.v, ws, self.site, self.kids, self.ews, self.esite, self.node)

    def as_kind(self, k):
        return N(k, self.v, self.ws, self.site)

    @property
    def atomic(self):
        return self.k in 'ynsr'


def same(a, b):
    """Node equality as patterns see it (whitespace and location ignored)."""
    if a.k != b.k:
        return False
    if a.atomic:
        return a.v == b.v
    if a.k == 'l':
        return len(a.kids) == len(b.kids) and all(same(x, y) for x, y in zip(a.kids, b.kids))
    return a.v == b.v and same(a.node, b.node)


def set_first_ws(nodes, ws):
    if nodes:
        nodes = list(nodes)
        nodes[0] = nodes[0].with_ws(ws)
    return nodes


def site_json(s):
    return [s.src.name, s.line, s.off, s.col, s.span, len(s.src.b)]


def to_json(nodes, sites=False):
    out = []
    for n in nodes:
        if n.k == 'l':
            j = ['l', n.ws, n.ews, to_json(n.kids, sites)]
            if sites:
                j += [site_json(n.site), site_json(n.esite)]
        elif n.k == 'a':
            j = ['a', n.v, n.ws, to_json([n.node], sites)[0]]
            if sites:
                j.append(site_json(n.site))
        else:
            j = [n.k, n.v, n.ws]
            if sites:
                j.append(site_json(n.site))
        out.append(j)
    return out


def from_json(j, srcs):
    """Rebuild nodes from an observed tree; `srcs`: name -> Src."""
    def site(s):
        name, line, off, col, span, n = s
        src = srcs.get(name)
        if src is None or len(src.b) != n:
            src = Src(name, '')
        return Site(src, line, off, col, span)
    out = []
    for x in j:
        if x[0] == 'l':
            out.append(N('l', None, x[1], site(x[4]), from_json(x[3], srcs), x[2], site(x[5])))
        elif x[0] == 'a':
            out.append(N('a', x[1], x[2], site(x[4]), node=from_json([x[3]], srcs)[0]))
        else:
            out.append(N(x[0], x[1], x[2], site(x[3])))
    return out


# ---------------------------------------------------------------- lexer

WS = '\n\r\t '
IDENT = re.compile(r'(?:\\.|[^\\\s()"]|(?![\n\r\t "()\\])\s|\\\Z)*', re.S)


class Tok:
    __slots__ = ('k', 'v', 'ws', 'site')

    def __init__(self, k, v, ws, site):
        self.k, self.v, self.ws, self.site = k, v, ws, site


def tokens(src):
    """Yield tokens; the last item may be a SeamErr (lexical error)."""
    t, n = src.text, len(src.text)
    i = 0
    line, line_start = 1, 0          # line number and index of the start of the line at i
    scan = 0

    def at(a, b):
        nonlocal line, line_start, scan
        # advance the line counter to index a
        while True:
            p = t.find('\n', scan, a)
            if p < 0:
                break
            line += 1
            line_start = p + 1
            scan = p + 1
        o = src.off(a)
        return Site(src, line, o, o - src.off(line_start), src.off(b) - o)

    while True:
        start = i
        while i < n:
            c = t[i]
            if c == ';':
                j = t.find('\n', i)
                if j < 0:
                    i = n
                    break
                start = j
                i = j + 1
            elif c in WS:
                i += 1
            else:
                break
        if i >= n:
            return
        ws = t[start:i]
        c = t[i]
        if c in '()':
            yield Tok(c, c, ws, at(i, i + 1))
            i += 1
        elif c == '"':
            q = 3 if t.startswith('"""', i) else 1
            j = i + q
            while True:
                if j >= n:
                    yield SeamErr('lex', at(i, i + q), 'unclosed string', facts=('Unclosed', 'triple-quoted') if q == 3 else ('Unclosed', 'string'))
                    return
                if t[j] == '\\':
                    j += 2
                    continue
                if t.startswith('"' * q, j):
                    break
                j += 1
            yield Tok('s', t[i + q:j], ws, at(i, j + q))
            i = j + q
        else:
            j = i + (1 if c == ':' else 0)
            m = IDENT.match(t, j)
            e = m.end()
            k = 'k' if c == ':' else 'n' if c in '0123456789+-' else 'y'
            yield Tok(k, t[j:e], ws, at(i, e))
            i = e


def unescape_name(s):
    if '\\' not in s:
        return s
    out, i = [], 0
    while i < len(s):
        if s[i] == '\\':
            i += 1
            if i < len(s):
                out.append(s[i])
        else:
            out.append(s[i])
        i += 1
    return ''.join(out)


SIMPLE = {'a': '\x07', 'b': '\x08', 't': '\t', 'n': '\n', 'v': '\x0b', 'f': '\x0c', 'r': '\r', 'e': '\x1b',
          "'": "'", '"': '"', '`': '`', '\\': '\\'}


def unescape_string(s, bad=None):
    """None: invalid escape, of which the index is appended to `bad`."""
    if '\\' not in s:
        return s
    bad = [] if bad is None else bad
    out, i, n = [], 0, len(s)

    def radix(txt, base):
        digits = '0123456789abcdefABCDEF' if base == 16 else '01234567'
        if txt.startswith('+'):
            raise Unsure('sign in an escape')
        if not txt or any(c not in digits for c in txt):
            return None
        return int(txt, base)

    def scalar(v):
        return None if v is None or v > 0x10ffff or 0xd800 <= v <= 0xdfff else chr(v)

    while i < n:
        c = s[i]
        if c != '\\':
            out.append(c)
            i += 1
            continue
        bad[:] = [i]
        i += 1
        if i >= n:
            return None
        c = s[i]
        i += 1
        if c in SIMPLE:
            out.append(SIMPLE[c])
        elif c == 'x':
            ch = scalar(radix(s[i:i + 2], 16)) if len(s[i:i + 2]) == 2 else None
            if ch is None:
                return None
            out.append(ch)
            i += 2
        elif c == 'u':
            if s[i:i + 1] == '{':
                e = s.find('}', i)
                if e < 0:
                    return None
                v = radix(s[i + 1:e], 16)
                ch = scalar(v)
                if ch is None:
                    return None
                out.append(ch)
                i = e + 1
            else:
                ch = scalar(radix(s[i:i + 4], 16)) if len(s[i:i + 4]) == 4 else None
                if ch is None:
                    return None
                out.append(ch)
                i += 4
        elif c in '01234567':
            e = i
            while e < n and e < i + 2 and s[e] in '01234567':
                e += 1
            out.append(chr(int(c + s[i:e], 8)))
            i = e
        else:
            return None
    return ''.join(out)


# ---------------------------------------------------------------- parser

def parse(src):
    toks = tokens(src)
    buf = []

    def peek():
        if not buf:
            buf.append(next(toks, None))
        t = buf[0]
        if isinstance(t, SeamErr):
            raise t
        return t

    def eof():
        if not buf:
            buf.append(next(toks, None))
        return buf[0] is None

    def take():
        t = peek()
        buf.clear()
        return t

    def expr(depth):
        if depth > 400:
            raise Unsure('nesting')
        t = peek()
        if t.k == '(':
            take()
            kids = []
            while not eof():
                if peek().k == ')':
                    r = take()
                    return N('l', None, t.ws, t.site, kids, r.ws, r.site)
                kids.append(expr(depth + 1))
            raise SeamErr('parse', t.site, 'unclosed list', facts=(('expected', ')'),))
        if t.k == ')':
            raise SeamErr('parse', t.site, 'unexpected )', facts=(('unexpected', ')'),))
        if t.k == 'k':
            take()
            if eof() or peek().k == ')':
                raise SeamErr('parse', t.site, 'keyword without a value', facts=(':' + t.v,))
            v = expr(depth + 1)
            return N('a', unescape_name(t.v), t.ws, t.site, node=v)
        take()
        if t.k == 's':
            bad = []
            v = unescape_string(t.v, bad)
            if v is None:
                at = len(t.v[:bad[0]].encode('utf-8'))
                raise SeamErr('lex', t.site, 'invalid escape', facts=(t.v[bad[0]:bad[0] + 2], ('byte-index', at)))
        else:
            v = unescape_name(t.v)
        return N(t.k, v, t.ws, t.site)

    out = []
    while not eof():
        out.append(expr(0))
    return out


# ---------------------------------------------------------------- expander

class Macro:
    __slots__ = ('params', 'body')

    def __init__(self, params, body):
        self.params, self.body = params, body


class World:
    """What the expansion may look at besides the text: files, environment,
    and the side tables of the generators (texts of which the meaning is known
    by construction)."""

    def __init__(self, cwd='/nonexistent', includes=(), env=None, yaml=None, markdown=None, glob=None,
                 date=None, timestamp=None):
        self.cwd, self.includes, self.env = cwd, ['.'] + list(includes), env or {}
        self.yaml, self.markdown = yaml or {}, markdown or {}
        self.glob = glob
        self.date, self.timestamp = date, timestamp
        self.budget = 60000
        self.srcs = {}
        self.log = []

    def spend(self, k=1):
        self.budget -= k
        if self.budget < 0:
            raise Unsure('too large')

    def read(self, path):
        full = path if path.startswith('/') else os.path.join(self.cwd, path)
        try:
            with open(full, 'rb') as f:
                return f.read().decode('utf-8')
        except (OSError, UnicodeDecodeError, ValueError):
            return None


def join_path(d, p):
    if p.startswith('/'):
        return p
    if d == '' or d.endswith('/'):
        return d + p
    return d + '/' + p


class Ctx:
    def __init__(self, world, defs=None, depth=0):
        self.w, self.defs, self.depth = world, {} if defs is None else defs, depth

    def clone(self):
        self.w.spend(1 + len(self.defs) // 50)
        return Ctx(self.w, dict(self.defs), self.depth)

    def fail(self, site, why, *facts):
        raise SeamErr('expand', site, why, facts=facts)

    # -- expansion

    def nodes(self, nodes):
        out = []
        for n in nodes:
            out.extend(self.node(n))
        return out

    def node(self, n):
        self.w.spend()
        if n.k == 'y':
            if not n.v.startswith('%'):
                return [n]
            m = self.defs.get(n.v[1:])
            if m is None:
                self.fail(n.site, 'no such macro', n.v[1:])
            if m.params:
                self.fail(n.site, 'function used as a variable', n.v[1:])
            self.depth += 1
            if self.depth > 60:
                raise Unsure('deep')
            out = self.nodes(m.body)
            self.depth -= 1
            return set_first_ws(out, n.ws)
        if n.k == 'l':
            if not n.kids:
                return [n]
            h = n.kids[0]
            self.depth += 1
            if self.depth > 90:
                raise Unsure('deep')
            if h.k == 'y' and h.v.startswith('%'):
                params = list(n.kids[1:])
                if params and '\n' not in params[0].ws:
                    params[0] = params[0].with_ws('')
                out = self.invoke(h.v[1:], n, params)
            else:
                out = [N('l', None, n.ws, n.site, self.nodes(n.kids), n.ews, n.esite)]
            self.depth -= 1
            return out
        if n.k == 'a':
            out = self.node(n.node)
            if not out:
                self.fail(n.site, 'attribute value expands to nothing', ':' + n.v)
            return [N('a', n.v, n.ws, n.site, node=out[0])] + list(out[1:])
        return [n]

    def invoke(self, name, node, params):
        f = BUILTIN.get(name)
        if f:
            return f(self, node, params)
        params = self.nodes(params)
        m = self.defs.get(name)
        if m is None:
            self.fail(node.site, 'macro not found', name)
        sub = self.clone()
        sub.depth += 1
        if sub.depth > 60:
            raise Unsure('deep')
        sub.bind_list(node, m.params, params)
        return sub.nodes(m.body)

    # -- binding

    def let(self, name, body):
        self.defs[name] = Macro([], body)

    def bind(self, pat, val):
        if pat.k == 'a':
            if val.k != 'a' or val.v != pat.v:
                self.fail(val.site, 'named argument mismatch', *([('looking for', ':' + pat.v), ('found', ':' + val.v)] if val.k == 'a' else
                                                                 [('looking for named argument', ':' + pat.v), ('got', KIND[val.k])]))
            self.bind(pat.node, val.node)
        elif pat.k == 'l':
            if val.k != 'l':
                self.fail(val.site, 'not a list', ('assign', KIND[val.k]))
            self.bind_list(val, pat.kids, val.kids)
        elif pat.k == 'y':
            self.let(pat.v, [val])
        elif pat.k == 'n':
            if val.k != 'n' or val.v != pat.v:
                self.fail(val.site, 'number mismatch', *([('expected the number', pat.v), ('got the number', val.v)] if val.k == 'n' else
                                                         [('expected a', 'number'), ('got', KIND[val.k])]))
        else:
            if val.k not in 'sr' or val.v != pat.v:
                self.fail(val.site, 'string mismatch', *([('expected the string', ('dbg', pat.v)), ('got the string', ('dbg', val.v))] if val.k in 'sr' else
                                                         [('expected a', 'string'), ('got', KIND[val.k])]))

    def bind_list(self, whole, lhs, rhs):
        named = {}                                    # defaults, by keyword
        rest = krest = None
        given = {}                                    # keyword -> attribute node given
        todo = list(rhs)
        i = 0
        for p in lhs:
            if p.k == 'a':
                named[p.v] = p.node
            elif p.k == 'y' and p.v.startswith('&&'):
                if krest is not None:
                    self.fail(p.site, 'several &&rest')
                krest = p
            elif p.k == 'y' and p.v.startswith('&'):
                if rest is not None:
                    self.fail(p.site, 'several &rest')
                rest = p
            else:
                while i < len(todo) and todo[i].k == 'a':
                    given[todo[i].v] = todo[i]
                    i += 1
                if i >= len(todo):
                    self.fail(whole.site, 'too few values', ('value', i + 1), ('only', len(rhs)))
                self.bind(p, todo[i])
                i += 1
        extra = []
        for v in todo[i:]:
            if v.k == 'a':
                given[v.v] = v
            else:
                extra.append(v)
        if rest is not None:
            self.let(rest.v[1:], extra)
        elif extra:
            want = sum(1 for p in lhs if p.k != 'a' and not (p.k == 'y' and p.v.startswith('&')))
            self.fail(extra[-1].site, 'too many values', ('expected', want), ('got', want + len(extra)))
        for k, default in named.items():
            v = given.pop(k, None)
            self.let(k, [v.node if v is not None else default])
        if krest is not None:
            # in order of first appearance, with the last value given
            self.let(krest.v[2:], list(given.values()))
        elif given:
            known = [p.v for p in lhs if p.k == 'a']
            self.fail(next(iter(given.values())).site, 'unknown keyword', ('provided', [':' + k for k in given]),
                      *([('expected keyword arguments are', [':' + k for k in known])] if known else []))


def lit(n):
    return n.atomic


TYPES = {'literal': 'ynsr', 'string': 'sr', 'symbol': 'y', 'number': 'n', 'list': 'l', 'any': 'ynsrla'}


def arguments(ctx, node, params, pos, named=None, rest=None):
    """pos: [(type, allowed values or None, mandatory)], named: {k: (type, allowed)}"""
    named = named or {}
    p, kw, tail = {}, {}, []
    i = 0

    def check(spec, n):
        typ, allowed = spec[0], spec[1]
        if n.k not in TYPES[typ]:
            ctx.fail(n.site, 'wrong kind of argument', *([('unknown attribute', ':' + n.v)] if n.k == 'a' else
                                                         [('expected a', typ), ('got a', KIND[n.k])]))
        if allowed is not None and n.v not in allowed:
            ctx.fail(n.site, 'value not allowed', ('value', n.v), *[('equal to', a) for a in allowed])

    for a in params:
        if a.k == 'a':
            if a.v in named:
                check(named[a.v], a.node)
                kw[a.v] = a.node
                continue
        else:
            i += 1
            if i <= len(pos):
                check(pos[i - 1], a)
                p[i] = a
                continue
        if rest is None:
            ctx.fail(a.site, 'unexpected argument', ('named argument', ':' + a.v) if a.k == 'a' else ('position', i))
        check((rest, None), a)
        tail.append(a)
    lack = sum(1 for j, s in enumerate(pos) if s[2] and j + 1 not in p)
    if lack:
        ctx.fail(params[-1].site if params else node.site, 'missing argument', ('missing', lack))
    return p, kw, tail


def mac_define(c, node, params):
    if not params:
        c.fail(node.site, 'define takes two arguments', ('while', 0))
    head, body = params[0], params[1:]
    if head.k == 'y':
        c.defs[head.v] = Macro([], c.nodes(body))
        return []
    if head.k != 'l' or not head.kids:
        c.fail(head.site, 'define head')
    name = head.kids[0]
    if name.k != 'y':
        c.fail(name.site, 'define name')
    make_macro(c, name.v, head.kids[1:], body)
    return []


def make_macro(c, name, params, body):
    one = [p for p in params if p.k == 'y' and p.v.startswith('&') and not p.v.startswith('&&')]
    two = [p for p in params if p.k == 'y' and p.v.startswith('&&')]
    if len(one) > 1:
        c.fail(one[1].site, 'excess &rest')
    if len(two) > 1:
        c.fail(two[1].site, 'excess &&rest')
    c.defs[name] = Macro(list(params), list(body))


def mac_match(c, node, params):
    if not params:
        c.fail(node.site, 'match syntax')
    val = c.node(params[0])
    if len(val) != 1:
        c.fail(params[0].site, 'match value must be single')
    for br in params[1:]:
        if br.k != 'l' or not br.kids:
            c.fail(br.site, 'match pattern must be a list')
        pat = c.node(br.kids[0])
        if len(pat) != 1:
            c.fail(br.kids[0].site, 'pattern must be a single node')
        sub = c.clone()
        try:
            sub.bind(pat[0], val[0])
        except SeamErr:
            continue
        return sub.nodes(br.kids[1:])
    return []


def mac_ifdef(c, node, params):
    if len(params) not in (2, 3):
        c.fail(node.site, 'ifdef arguments', ('given', len(params)))
    if not params[0].atomic:
        c.fail(params[0].site, 'ifdef name')
    if params[0].v in c.defs:
        out = c.node(params[1])
    elif len(params) == 3:
        out = c.node(params[2])
    else:
        out = []
    return set_first_ws(out, node.ws)


def mac_do(c, node, params):
    return c.nodes(params)


def split(s, sep):
    if sep == '':
        return [''] + list(s) + ['']
    return s.split(sep)


def mac_get(c, node, params):
    params = c.nodes(params)
    p, kw, _ = arguments(c, node, params, [('literal', None, 1), ('any', None, 1)], {'separator': ('literal', None)})
    sep = kw['separator'].v if 'separator' in kw else '/'
    cur = p[2]
    for item in split(p[1].v, sep):
        if cur.k != 'l':
            c.fail(cur.site, 'cannot get', ('on', KIND[cur.k]))
        found = None
        if re.fullmatch(r'\+?[0-9]+', item) and int(item) < 2 ** 64:
            i = int(item)
            if i < len(cur.kids):
                found = cur.kids[i]
        if found is None:
            for k in cur.kids:
                if k.k == 'a' and k.v == item:
                    found = k.node
                    break
        if found is None:
            if re.fullmatch(r'\+?[0-9]+', item) and int(item) < 2 ** 64:
                c.fail(cur.site, 'not found', ('index', int(item)), ('length', len(cur.kids)))
            c.fail(cur.site, 'not found', ':' + item)
        cur = found
    return [cur]


def literal_text(c, params):
    out = []
    for a in c.nodes(params):
        if not a.atomic:
            c.fail(a.site, 'expected a literal', ('found a', KIND[a.k]))
        out.append(a.ws + a.v)
    return ''.join(out)


def mac_raw(c, node, params):
    return [N('r', literal_text(c, params), node.ws, node.site)]


def mac_string(c, node, params):
    return [N('s', literal_text(c, params), node.ws, node.site)]


def mac_number(c, node, params):
    params = c.nodes(params)
    return [a.as_kind('n') for a in arguments(c, node, params, [], {}, 'literal')[2]]


def mac_symbol(c, node, params):
    params = c.nodes(params)
    return [a.as_kind('y') for a in arguments(c, node, params, [], {}, 'literal')[2]]


def mac_reverse(c, node, params):
    params = c.nodes(params)
    l = arguments(c, node, params, [('list', None, 1)])[0][1]
    out = [n.with_ws(l.kids[i].ws) for i, n in enumerate(reversed(l.kids))]
    return [N('l', None, l.ws, l.site, out, l.ews, l.esite)]


FLOAT = re.compile(r'[+-]?(?:[0-9]+\.?[0-9]*(?:[eE][+-]?[0-9]+)?|\.[0-9]+(?:[eE][+-]?[0-9]+)?)\Z')
SPECIAL = re.compile(r'[+-]?(?:inf|infinity|nan)\Z', re.I)
I128 = 2 ** 127


def sort_key(s):
    if SPECIAL.match(s):
        raise Unsure('special float as a sort key')
    if FLOAT.match(s):
        f = float(s)
        if math.isinf(f):
            raise Unsure('overflowing float as a sort key')
        i = None
        if re.fullmatch(r'[+-]?[0-9]+', s) and -I128 <= int(s) < I128:
            i = int(s)
        if i is None:
            i = max(-I128, min(I128 - 1, int(f)))
        return (0, f, i, '')
    return (1, 0.0, 0, s.encode('utf-8'))


def mac_sort(c, node, params):
    params = c.nodes(params)
    p, kw, _ = arguments(c, node, params, [('any', None, 1)],
                         {'order': ('literal', ('ascending', 'descending')), 'key': ('symbol', None)})
    l = p[1]
    if l.k != 'l':
        c.fail(l.site, 'sort expects a list', ('given', KIND[l.k]))
    key_site = kw['key'].site if 'key' in kw else node.site
    fn = kw['key'].v if 'key' in kw else 'do'
    items = []
    for n in l.kids:
        try:
            k = c.invoke(fn, node, [n])
        except SeamErr as e:
            raise SeamErr('expand', key_site, 'key', inner=e)
        if len(k) != 1:
            c.fail(key_site, 'key must be one value', ('namely', len(k)) if k else 'not yield')
        if not k[0].atomic:
            c.fail(k[0].site, 'key must be a literal', ('got', KIND[k[0].k]))
        if '__lambda' in k[0].v:
            raise Unsure('sorting by a lambda name')
        items.append((sort_key(k[0].v), n))
    desc = 'order' in kw and kw['order'].v == 'descending'
    import functools

    def cmp(a, b):
        return (a > b) - (a < b)
    items.sort(key=functools.cmp_to_key(lambda x, y: cmp(y[0], x[0]) if desc else cmp(x[0], y[0])))
    out = [n.with_ws(l.kids[i].ws) for i, (_, n) in enumerate(items)]
    return [N('l', None, node.ws, l.site, out, l.ews, l.esite)]


def mac_join(c, node, params):
    params = c.nodes(params)
    p, kw, rest = arguments(c, node, params, [('literal', None, 1)],
                            {'trailing': ('literal', ('true', 'false'))}, 'literal')
    sep = p[1].v
    s = sep.join(a.v for a in rest)
    if 'trailing' in kw and kw['trailing'].v == 'true':
        s += sep
    return [N('s', s, node.ws, node.site)]


def mac_concat(c, node, params):
    params = c.nodes(params)
    rest = arguments(c, node, params, [], {}, 'literal')[2]
    return [N('s', ''.join(a.v for a in rest), node.ws, node.site)]


def mac_map(c, node, params):
    params = c.nodes(params)
    p, _, rest = arguments(c, node, params, [('symbol', None, 1)], {}, 'any')
    out = []
    for a in rest:
        out.extend(c.invoke(p[1].v, node, [a]))
    return out


def mac_filter(c, node, params):
    params = c.nodes(params)
    p, _, rest = arguments(c, node, params, [('symbol', None, 1)], {}, 'any')
    out = []
    for a in rest:
        r = c.invoke(p[1].v, node, [a])
        if len(r) == 1 and r[0].k == 'l' and not r[0].kids:
            continue
        out.extend(r)
    return out


def mac_splat(c, node, params):
    out = []
    for a in c.nodes(params):
        if a.k == 'l':
            out.extend(set_first_ws(a.kids, a.ws))
        else:
            out.append(a)
    return out


def mac_list(c, node, params):
    return [N('l', None, node.ws, node.site, c.nodes(params), node.ews, node.esite)]


def mac_strip(c, node, params):
    return set_first_ws(c.nodes(params), '')


def mac_apply(c, node, params):
    params = c.nodes(params)
    p, _, rest = arguments(c, node, params, [('symbol', None, 1)], {}, 'any')
    return c.invoke(p[1].v, node, rest)


def mac_lambda(c, node, params):
    p, _, rest = arguments(c, node, params, [('any', None, 1)], {}, 'any')
    head = p[1]
    if head.k == 'l':
        args = head.kids
    elif head.k == 'y':
        args = [head]
    else:
        c.fail(head.site, 'lambda arguments')
    s = node.site
    h = 0
    for b in repr((s.src.name, s.line, s.col, s.span)).encode():
        h = (h * 31 + b) % (10 ** 15)
    name = '__lambda%d-%d' % (10 ** 15 + h, s.off)
    make_macro(c, name, args, rest)
    return [N('y', name, node.ws, node.site)]


def mac_log(c, node, params):
    words = []
    for a in c.nodes(params):
        if not a.atomic:
            c.fail(node.site, 'log takes atoms')
        words.append(a.v)
    c.w.log.append((node.site, ' '.join(words)))
    return []


def mac_env(c, node, params):
    params = c.nodes(params)
    if len(params) != 1:
        c.fail(node.site, 'one argument')
    a = params[0]
    if not a.atomic:
        c.fail(a.site, 'must be atomic')
    if a.v in c.w.env:
        v = c.w.env[a.v]
        if isinstance(v, bytes):
            try:
                v = v.decode('utf-8')
            except UnicodeDecodeError:
                c.fail(a.site, 'not unicode')
        return [N('s', v, a.ws, a.site)]
    if a.v in os.environ:
        raise Unsure('environment')
    c.fail(a.site, 'no such variable', a.v)


PLACE = re.compile(r'\{([A-Za-z_][A-Za-z0-9_-]*|[0-9]*)(?::(?:(.?)([<^>]))?([1-9][0-9]{0,3})?)?\}')


def fmt_value(v, fill, align, w):
    if re.fullmatch(r'[+-]?(?:inf|infinity|nan)', v, re.I) and w:
        raise Unsure('number-like')
    numeric = bool(FLOAT.match(v))
    if align and fill:
        if v != v.strip():
            raise Unsure('padding trims the value')
        n = len(v)
        if w > n:
            if align == '<':
                v = v + fill * (w - n)
            elif align == '>':
                v = fill * (w - n) + v
            else:
                f = n % 2
                if (w - n) % 2 or f:
                    raise Unsure('centering')
                v = fill * ((w - n) // 2) + v + fill * ((w - n) // 2)
    elif align:
        pad = max(0, w - len(v))
        v = v + ' ' * pad if align == '<' else ' ' * pad + v if align == '>' else \
            ' ' * (pad // 2) + v + ' ' * (pad - pad // 2)
    if w:
        if FLOAT.match(v):
            v = v.rjust(w)
        elif numeric and not align:
            v = v.rjust(w)
        else:
            v = v + ' ' * max(0, w - len(v))
    return v


def mac_format(c, node, params):
    params = c.nodes(params)
    if not params:
        c.fail(node.site, 'format string expected')
    f = params[0]
    if f.k != 's':
        c.fail(f.site, 'format string must be a string')
    # Split the template; only the documented placeholders are modelled.
    t = f.v
    if '[curly' in t or '{{{' in t or '}}}' in t:
        raise Unsure('format')
    parts, i = [], 0
    while i < len(t):
        if t.startswith('{{', i):
            parts.append('{'); i += 2
        elif t.startswith('}}', i):
            parts.append('}'); i += 2
        elif t[i] == '{':
            m = PLACE.match(t, i)
            if not m:
                raise Unsure('format')
            fill = m.group(2) or ''
            if fill and (not fill.isascii() or fill in '<^>{}:+-#0.?$*oxXpbeE'):
                if fill != '0':
                    raise Unsure('format fill')
            parts.append((m.group(1), fill, m.group(3), int(m.group(4) or 0)))
            i = m.end()
        elif t[i] == '}':
            raise Unsure('format')
        else:
            parts.append(t[i]); i += 1
    names = [p[0] for p in parts if isinstance(p, tuple)]
    # Implicit positions skip those named explicitly.
    pos = 0
    filled = []
    for p in parts:
        if isinstance(p, tuple) and p[0] == '':
            while str(pos) in names:
                pos += 1
            filled.append((str(pos),) + p[1:])
            pos += 1
        else:
            filled.append(p)
    vals = {}
    n = 0
    want = {p[0] for p in filled if isinstance(p, tuple)}
    for a in params[1:]:
        v = a
        if a.k == 'a':
            v = a.node
        if not v.atomic:
            c.fail(v.site, 'not formattable', ('compound', KIND[v.k]))
        if a.k == 'a':
            vals.setdefault(a.v, v.v)
        else:
            vals.setdefault(str(n), v.v)
            n += 1
    if any(k.isdigit() and k != str(int(k)) for k in want):
        raise Unsure('format index')
    if want - set(vals):
        c.fail(f.site, 'missing placeholder', ('for', sorted(want - set(vals))))
    out = ''.join(p if isinstance(p, str) else fmt_value(vals[p[0]], *p[1:]) for p in filled)
    return [N('s', out, node.ws, node.site)]


def mac_namespace(c, node, params):
    sub = c.clone()
    params = sub.nodes(params)
    if not params or not params[0].atomic:
        c.fail(node.site, 'namespace name')
    ns = params[0].v
    sep = '/'
    i = 1
    while i < len(params) and params[i].k == 'a':
        a = params[i]
        if a.v != 'separator':
            c.fail(a.site, 'unknown option', ('option', ':' + a.v))
        if not a.node.atomic:
            c.fail(a.node.site, 'separator', ('got a', KIND[a.node.k]))
        sep = a.node.v
        i += 1
    # What was only inherited is no definition of the body.
    made = [(k, m) for k, m in sub.defs.items() if c.defs.get(k) is not m]
    for k, m in made:
        c.defs[ns + sep + k] = m
    return params[i:]


def mac_for(c, node, params):
    p, _, rest = arguments(c, node, params, [('any', None, 1), ('symbol', ('in',), 1), ('list', None, 1)], {}, 'any')
    items = c.nodes(p[3].kids)
    sub = c.clone()
    out = []
    for it in items:
        sub.bind(p[1], it)
        out.extend(sub.nodes(rest))
    return out


def mac_include(c, node, params):
    params = c.nodes(params)
    if len(params) != 1:
        c.fail(node.site, 'one path', ('got', len(params)), ('expected', 1))
    p = params[0]
    if not p.atomic:
        c.fail(p.site, 'path expected')
    path = p.v
    src = None
    for d in c.w.includes:
        full = join_path(d, path)
        t = c.w.read(full)
        if t is not None:
            src = Src(full, t)
            break
        if path == '' or path.endswith('/') or path.endswith('/.') or path in ('.', '..') or path.endswith('/..') \
                or '\0' in path:
            raise Unsure('odd path')
        t = c.w.read(full + '.sex')
        if t is not None:
            src = Src(full + '.sex', t)
            break
    if src is None:
        c.fail(p.site, 'not found')
    c.w.srcs[src.name] = src
    try:
        tree = parse(src)
    except SeamErr as e:
        raise SeamErr('expand', node.site, 'included file does not parse', inner=e)
    c.depth += 1
    if c.depth > 40:
        raise Unsure('deep include')
    out = c.nodes(tree)
    c.depth -= 1
    return set_first_ws(out, node.ws)


def mac_embed(c, node, params):
    params = c.nodes(params)
    if len(params) != 1:
        c.fail(node.site, 'one path', ('got', len(params)), ('expected', 1))
    p = params[0]
    if not p.atomic:
        c.fail(p.site, 'path expected')
    for d in c.w.includes:
        t = c.w.read(join_path(d, p.v))
        if t is not None:
            return [N('s', t, node.ws, node.site)]
    c.fail(p.site, 'not found')


def qualified(prefix, sep, name):
    return sep.join(prefix + [name]) if prefix else name


def yaml_nodes(c, data, sep, site):
    """data: ('s', text) | ('m', [(key, data)]) | ('q', [data])"""
    def value(d, prefix, ws):
        if d[0] == 's':
            return N('s', d[1], ws, site)
        kids = []
        for i, it in enumerate(d[1]):
            w = '' if i == 0 else ' '
            if d[0] == 'm':
                k, v = it
                n = value(v, prefix + [k], ' ')
                c.let(qualified(prefix, sep, k), [n])
                kids.append(N('a', k, w, site, node=n))
            else:
                n = value(it, prefix + [str(i)], w)
                c.let(qualified(prefix, sep, str(i)), [n])
                kids.append(n)
        return N('l', None, ws, site, kids, '', site)
    if data is None:
        return []
    docs = data[1] if data[0] == 'docs' else [data]
    return [value(d, [], ' ' if i else '') for i, d in enumerate(docs)]


def json_data(text):
    """Strict JSON text -> data, or raise Unsure."""
    import json
    def pairs(ps):
        return ('m', [(k, conv(v)) for k, v in ps])

    def conv(v):
        if isinstance(v, tuple):
            return v
        if isinstance(v, list):
            return ('q', [conv(x) for x in v])
        if isinstance(v, str):
            return ('s', v)
        raise Unsure('json scalar')
    try:
        return conv(json.loads(text, object_pairs_hook=pairs, parse_int=lambda s: s, parse_float=lambda s: s,
                               parse_constant=lambda s: s))
    except Unsure:
        raise
    except Exception:
        raise Unsure('json')


def mac_yaml(c, node, params):
    params = c.nodes(params)
    p, kw, _ = arguments(c, node, params, [('string', None, 1)], {'separator': ('literal', None)})
    sep = kw['separator'].v if 'separator' in kw else '/'
    text = p[1].v
    if text not in c.w.yaml:
        raise Unsure('yaml')
    data = c.w.yaml[text]
    if data == 'error':
        c.fail(node.site, 'invalid yaml')
    return yaml_nodes(c, data, sep, node.site)


def rust_float(f):
    if math.isnan(f):
        return 'NaN'
    if math.isinf(f):
        return 'inf' if f > 0 else '-inf'
    d = Decimal(repr(f))
    s = format(d, 'f')
    if '.' in s:
        s = s.rstrip('0').rstrip('.')
    return s


def toml_nodes(c, table, sep, site):
    import datetime

    def value(v, prefix, first):
        ws = '' if first else ' '
        if isinstance(v, bool):
            return N('y', 'true' if v else 'false', ws, site)
        if isinstance(v, int):
            if not -2 ** 63 <= v < 2 ** 63:
                c.fail(site, 'toml integer')
            return N('n', str(v), ws, site)
        if isinstance(v, float):
            return N('n', rust_float(v), ws, site)
        if isinstance(v, str):
            return N('s', v, ws, site)
        if isinstance(v, datetime.datetime):
            if v.microsecond:
                s = v.replace(tzinfo=None).isoformat()
                s = s.rstrip('0')
            else:
                s = v.replace(tzinfo=None).isoformat()
            if v.tzinfo is not None:
                o = int(v.utcoffset().total_seconds()) // 60
                s += 'Z' if o == 0 else '%s%02d:%02d' % ('+' if o >= 0 else '-', abs(o) // 60, abs(o) % 60)
            return N('y', s, ws, site)
        if isinstance(v, datetime.date):
            return N('y', v.isoformat(), ws, site)
        if isinstance(v, datetime.time):
            s = v.isoformat()
            return N('y', s.rstrip('0') if v.microsecond else s, ws, site)
        kids = []
        if isinstance(v, list):
            for i, x in enumerate(v):
                n = value(x, prefix + [str(i)], i == 0)
                c.let(qualified(prefix, sep, str(i)), [n])
                kids.append(n)
        else:
            for i, k in enumerate(sorted(v, key=lambda s: s.encode('utf-8'))):
                n = value(v[k], prefix + [k], False)
                c.let(qualified(prefix, sep, k), [n])
                kids.append(N('a', k, '' if i == 0 else ' ', site, node=n))
        return N('l', None, ws, site, kids, '', site)
    return [value(table, [], True)]


def mac_toml(c, node, params):
    params = c.nodes(params)
    p, kw, _ = arguments(c, node, params, [('string', None, 1)], {'separator': ('literal', None)})
    sep = kw['separator'].v if 'separator' in kw else '/'
    text = p[1].v
    if '\r' in text or re.search(r'[+-]00:00|:\d\d\.\d{7}', text):  # tomllib keeps six digits of a fraction
        raise Unsure('toml')

    def number(text):
        f = float(text)
        if math.isinf(f) and 'inf' not in text:
            raise Unsure('a number too large for a float is an error to some')
        return f
    try:
        table = tomllib.loads(text, parse_float=number)
    except (tomllib.TOMLDecodeError, ValueError, RecursionError):
        if text in c.w.yaml and c.w.yaml[text] == 'error':
            c.fail(node.site, 'invalid toml')
        raise Unsure('toml rejected by the oracle')
    return toml_nodes(c, table, sep, node.site)


def mac_markdown(c, node, params):
    params = c.nodes(params)
    p, kw, _ = arguments(c, node, params, [('string', None, 1)],
                         {'only': ('literal', ('frontmatter', 'content')), 'separator': ('literal', None)})
    text = p[1].v
    if text not in c.w.markdown:
        raise Unsure('markdown')
    html, front = c.w.markdown[text]          # front: None | ('yaml', data) | ('toml', table) | ('bad',)
    sep = kw['separator'].v if 'separator' in kw else '/'
    only = kw['only'].v if 'only' in kw else 'both'
    if only != 'content' and front is not None:
        if front[0] == 'yaml':
            yaml_nodes(c, front[1], sep, node.site)
        elif front[0] == 'toml':
            toml_nodes(c, front[1], sep, node.site)
        elif only == 'frontmatter':
            c.fail(node.site, 'bad front matter')
    if only == 'frontmatter':
        if front is None:
            c.fail(p[1].site, 'no front matter')
        return []
    return [N('r', html, node.ws, node.site)]


def zone_offset(c, n):
    """Seconds east of UTC for a decimal number of hours, or an error."""
    if not re.fullmatch(r'[+-]?[0-9]+(\.[0-9]+)?', n.v):
        if re.fullmatch(r'[+-]?[A-Za-z]+.*|[+-]', n.v) and not re.search(r'[0-9]', n.v):
            c.fail(n.site, 'invalid offset')
        raise Unsure('offset syntax')
    x = Fraction(n.v)
    fx = round(x * 2 ** 32)
    if not -2 ** 63 <= fx < 2 ** 63:
        c.fail(n.site, 'offset overflow')
    s = fx * 3600
    if not -2 ** 63 <= s < 2 ** 63:
        c.fail(n.site, 'offset overflow')
    q = Fraction(s, 2 ** 32)
    r = math.floor(abs(q) + Fraction(1, 2)) * (1 if q >= 0 else -1)
    if not -2 ** 31 <= r < 2 ** 31:
        c.fail(n.site, 'offset overflow')
    if not -86400 < r < 86400:
        c.fail(n.site, 'offset out of range', ('offset of', r))
    return r


def civil(days):
    """days since 1970-01-01 -> (y, m, d)"""
    days += 719468
    era = days // 146097
    doe = days - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + 3 if mp < 10 else mp - 9
    return (y + (m <= 2), m, d)


def days_from_civil(y, m, d):
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * 146097 + doe - 719468


MONTHS = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October',
          'November', 'December']
DAYS = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']


def strftime(fmt, secs, off):
    t = secs + off
    days, sod = divmod(t, 86400)
    y, m, d = civil(days)
    if not 0 <= y <= 9999:
        raise Unsure('year')
    H, M, S = sod // 3600, sod // 60 % 60, sod % 60
    wd = (days + 3) % 7
    yd = days - days_from_civil(y, 1, 1) + 1
    z = '%s%02d%02d' % ('+' if off >= 0 else '-', abs(off) // 3600, abs(off) // 60 % 60)
    zc = z[:3] + ':' + z[3:]

    def one(k):
        if k in ('z', ':z') and off % 60:
            raise Unsure('offset with seconds')
        tab = {
            'Y': '%04d' % y, 'm': '%02d' % m, 'd': '%02d' % d, 'H': '%02d' % H, 'M': '%02d' % M, 'S': '%02d' % S,
            'y': '%02d' % (y % 100), 'C': '%02d' % (y // 100), 'e': '%2d' % d, 'j': '%03d' % yd,
            'B': MONTHS[m - 1], 'b': MONTHS[m - 1][:3], 'h': MONTHS[m - 1][:3], 'A': DAYS[wd], 'a': DAYS[wd][:3],
            'I': '%02d' % ((H + 11) % 12 + 1), 'l': '%2d' % ((H + 11) % 12 + 1), 'k': '%2d' % H,
            'p': 'AM' if H < 12 else 'PM', 'P': 'am' if H < 12 else 'pm',
            'u': str(wd + 1), 'w': str((wd + 1) % 7), 's': str(secs), 'z': z, ':z': zc,
            'F': '%04d-%02d-%02d' % (y, m, d), 'T': '%02d:%02d:%02d' % (H, M, S), 'R': '%02d:%02d' % (H, M),
            'D': '%02d/%02d/%02d' % (m, d, y % 100), '%': '%', 'n': '\n', 't': '\t',
            'U': '%02d' % ((yd + 6 - (wd + 1) % 7) // 7), 'W': '%02d' % ((yd + 6 - wd) // 7),
        }
        if k == 'G' or k == 'V':
            # ISO week
            thursday = days - wd + 3
            iy = civil(thursday)[0]
            w = (thursday - days_from_civil(iy, 1, 1)) // 7 + 1
            if not 0 <= iy <= 9999:
                raise Unsure('year')
            return '%04d' % iy if k == 'G' else '%02d' % w
        if k not in tab:
            raise Unsure('date directive')
        return tab[k]
    out, i = [], 0
    while i < len(fmt):
        if fmt[i] == '%':
            if fmt[i + 1:i + 3] == ':z':
                out.append(one(':z'))
                i += 3
            elif fmt[i + 1:i + 2] and fmt[i + 1].isalpha() and fmt[i + 1].isascii() or fmt[i + 1:i + 2] == '%':
                out.append(one(fmt[i + 1]))
                i += 2
            else:
                raise Unsure('date directive')
        else:
            out.append(fmt[i])
            i += 1
    return ''.join(out)


TS_FORMATS = {
    '%Y-%m-%d %H:%M:%S': r'(?P<Y>\d{4})-(?P<m>\d\d)-(?P<d>\d\d) (?P<H>\d\d):(?P<M>\d\d):(?P<S>\d\d)',
    '%Y-%m-%dT%H:%M:%S%z': r'(?P<Y>\d{4})-(?P<m>\d\d)-(?P<d>\d\d)T(?P<H>\d\d):(?P<M>\d\d):(?P<S>\d\d)(?P<z>[+-]\d\d:?\d\d)',
    '%Y-%m-%d %H:%M:%S %z': r'(?P<Y>\d{4})-(?P<m>\d\d)-(?P<d>\d\d) (?P<H>\d\d):(?P<M>\d\d):(?P<S>\d\d) (?P<z>[+-]\d\d:?\d\d)',
    '%Y-%m-%d %H:%M:%S %:z': r'(?P<Y>\d{4})-(?P<m>\d\d)-(?P<d>\d\d) (?P<H>\d\d):(?P<M>\d\d):(?P<S>\d\d) (?P<z>[+-]\d\d:?\d\d)',
    '%d/%m/%Y, %H.%M.%S': r'(?P<d>\d\d)/(?P<m>\d\d)/(?P<Y>\d{4}), (?P<H>\d\d)\.(?P<M>\d\d)\.(?P<S>\d\d)',
    '%F %T': r'(?P<Y>\d{4})-(?P<m>\d\d)-(?P<d>\d\d) (?P<H>\d\d):(?P<M>\d\d):(?P<S>\d\d)',
    '%d %B %Y %H:%M:%S': r'(?P<d>\d\d) (?P<B>[A-Z][a-z]+) (?P<Y>\d{4}) (?P<H>\d\d):(?P<M>\d\d):(?P<S>\d\d)',
    '%Y%m%d%H%M%S': r'(?P<Y>\d{4})(?P<m>\d\d)(?P<d>\d\d)(?P<H>\d\d)(?P<M>\d\d)(?P<S>\d\d)',
    '%Y-%m-%d %H:%M': r'(?P<Y>\d{4})-(?P<m>\d\d)-(?P<d>\d\d) (?P<H>\d\d):(?P<M>\d\d)',
    '%j %Y %T': r'(?P<j>\d{3}) (?P<Y>\d{4}) (?P<H>\d\d):(?P<M>\d\d):(?P<S>\d\d)',
    '%d %b %Y %I:%M:%S %p': r'(?P<d>\d\d) (?P<b>[A-Z][a-z]{2}) (?P<Y>\d{4}) (?P<I>\d\d):(?P<M>\d\d):(?P<S>\d\d) (?P<p>AM|PM)',
    '%s': r'(?P<s>-?\d+)',
}
# with a fraction of the second: the timestamp is the second that has begun
FRACTION = r'(?:\.\d{1,9})?'
TS_FRACTIONS = {f.replace('%S', '%S%.f').replace('%T', '%T%.f'): re.sub(r'(\(\?P<S>\\d\\d\))', lambda m: m.group(1) + FRACTION, x)
                for f, x in TS_FORMATS.items() if ('%S' in f or '%T' in f) and f != '%Y%m%d%H%M%S'}


def mac_date(c, node, params):
    params = c.nodes(params)
    p, kw, _ = arguments(c, node, params, [('literal', None, 1), ('number', None, 0)],
                         {'timezone': ('number', None)})
    if 'timezone' in kw:
        q = kw['timezone']
        try:
            off = zone_offset(c, q)
            late = None
        except SeamErr as e:
            if e.why == 'offset out of range':
                off, late = None, e
            else:
                raise
    else:
        off, late = getattr(c.w, 'local_offset', 0), None
    if 2 not in p:
        raise Unsure('current time')
    if not re.fullmatch(r'[+-]?[0-9]+', p[2].v) or not -2 ** 63 <= int(p[2].v) < 2 ** 63:
        c.fail(p[2].site, 'timestamp')
    secs = int(p[2].v)
    if not -8334601228800 <= secs <= 8210266876799:
        c.fail(p[2].site, 'timestamp range')
    if late:
        raise late
    return [N('s', strftime(p[1].v, secs, off), node.ws, node.site)]


def mac_timestamp(c, node, params):
    params = c.nodes(params)
    p, kw, _ = arguments(c, node, params, [('literal', None, 1), ('literal', None, 1)],
                         {'timezone': ('number', None)})
    off = zone_offset(c, kw['timezone']) if 'timezone' in kw else getattr(c.w, 'local_offset', 0)
    f, text = p[1].v, p[2].v
    if f not in TS_FORMATS and f not in TS_FRACTIONS:
        raise Unsure('timestamp format')
    m = re.fullmatch(TS_FORMATS.get(f) or TS_FRACTIONS[f], text, re.ASCII)
    if not m:
        if text and not re.search(r'[0-9]', text) and text == text.strip() and text.isascii():
            c.fail(node.site, 'date')       # no digits at all: cannot be a date
        raise Unsure('timestamp text')
    g = m.groupdict()
    if 's' in g:
        v = int(g['s'])
        if not 0 <= v < 250000000000 and not c.w.__dict__.get('negative_s'):
            raise Unsure('range')
        return [N('n', str(v), node.ws, node.site)]
    y = int(g['Y'])
    if 'j' in g:
        leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
        if not 1 <= int(g['j']) <= 365 + leap:
            c.fail(node.site, 'date')
        days = days_from_civil(y, 1, 1) + int(g['j']) - 1
    else:
        if 'B' in g or 'b' in g:
            names = MONTHS if 'B' in g else [x[:3] for x in MONTHS]
            name = g.get('B') or g.get('b')
            if name not in names:
                raise Unsure('month')
            mo = names.index(name) + 1
        else:
            mo = int(g['m'])
        d = int(g['d'])
        leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
        if not 1 <= mo <= 12 or not 1 <= d <= [31, 28 + leap, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo - 1]:
            c.fail(node.site, 'date')
        days = days_from_civil(y, mo, d)
    if 'I' in g:
        I = int(g['I'])
        if not 1 <= I <= 12:
            c.fail(node.site, 'date')
        H = I % 12 + (12 if g['p'] == 'PM' else 0)
    else:
        H = int(g['H'])
    M, S = int(g['M']), int(g.get('S') or 0)
    if H > 23 or M > 59:
        c.fail(node.site, 'date')
    if S >= 60:
        if S == 60:
            raise Unsure('leap second')
        c.fail(node.site, 'date')
    t = days * 86400 + H * 3600 + M * 60 + S
    if 'z' in g:
        z = g['z'].replace(':', '')
        if int(z[3:5]) > 59 or int(z[1:3]) > 23:
            raise Unsure('offset in text')
        o = (int(z[1:3]) * 3600 + int(z[3:5]) * 60) * (-1 if z[0] == '-' else 1)
        return [N('n', str(t - o), node.ws, node.site)]
    return [N('n', str(t - off), node.ws, node.site)]


def _unsure(why):
    raise Unsure(why)


def mac_glob(c, node, params):
    params = c.nodes(params)
    p, kw, _ = arguments(c, node, params, [('literal', None, 1)],
                         {'type': ('literal', ('file', 'directory', 'any')),
                          'sort': ('literal', ('modified', 'created', 'name', 'type', 'none')),
                          'order': ('literal', ('ascending', 'descending'))})
    if c.w.glob is None:
        raise Unsure('glob')
    opts = {k: v.v for k, v in kw.items()}
    r = c.w.glob(p[1].v, opts)
    if r == 'error':
        c.fail(p[1].site, 'glob pattern')
    return [N('s', x, '' if i == 0 else ' ', p[1].site) for i, x in enumerate(r)]


BUILTIN = {
    'define': mac_define, 'match': mac_match, 'ifdef': mac_ifdef, 'do': mac_do, 'get': mac_get, 'raw': mac_raw,
    'string': mac_string, 'number': mac_number, 'symbol': mac_symbol, 'include': mac_include, 'embed': mac_embed,
    'namespace': mac_namespace, 'markdown': mac_markdown, 'yaml': mac_yaml, 'json': mac_yaml, 'toml': mac_toml,
    'glob': mac_glob, 'for': mac_for, 'sort': mac_sort, 'reverse': mac_reverse, 'date': mac_date,
    'timestamp': mac_timestamp, 'join': mac_join, 'concat': mac_concat, 'map': mac_map, 'filter': mac_filter,
    'splat': mac_splat, 'list': mac_list, 'strip': mac_strip, 'apply': mac_apply, 'lambda': mac_lambda,
    'log': mac_log, 'format': mac_format, 'os/env': mac_env,
}


def expand(src, world=None):
    world = world or World()
    world.srcs[src.name] = src
    return Ctx(world).nodes(parse(src))


# ---------------------------------------------------------------- output formats

def gen_fail(ml, site, why, *facts):
    raise SeamErr('gen', site, why, ml=ml, facts=facts)


PRINTABLE = [(0x20, 0x7e), (0xa1, 0xac), (0xae, 0x2ff), (0x370, 0x377), (0x391, 0x3a1), (0x3a3, 0x3ff),
             (0x400, 0x45f), (0x2010, 0x2027), (0x2190, 0x21ff), (0x3041, 0x3096), (0x30a1, 0x30fa),
             (0x4e00, 0x9fa5), (0xac00, 0xd7a3), (0x1f600, 0x1f64f), (0xff01, 0xff5e)]


def rust_debug(s):
    out = ['"']
    for c in s:
        n = ord(c)
        if c in '"\\':
            out.append('\\' + c)
        elif c == '\n':
            out.append('\\n')
        elif c == '\r':
            out.append('\\r')
        elif c == '\t':
            out.append('\\t')
        elif c == '\0':
            out.append('\\0')
        elif n < 0x20 or n == 0x7f or 0x80 <= n <= 0xa0 or n == 0xad or 0x300 <= n <= 0x36f or n in (0x200b, 0xfeff, 0x2028, 0x2029, 0x3000, 0x115f, 0x1160, 0x3164, 0xffa0):
            out.append('\\u{%x}' % n)
        elif any(a <= n <= b for a, b in PRINTABLE) or unicodedata.category(c)[0] in 'LNPS' and unicodedata.category(c) != 'Lm':
            out.append(c)
        else:
            raise Unsure('debug form of U+%04X' % n)
    out.append('"')
    return ''.join(out)


def gen_text(nodes):
    out = []
    for n in nodes:
        if n.k == 'l':
            out.append(n.ws + '(' + gen_text(n.kids) + n.ews + ')')
        elif n.k == 'a':
            out.append(n.ws + ':' + n.v + gen_text([n.node]))
        else:
            out.append(n.ws + n.v)
    return ''.join(out)


def quoted(s):
    return '"' + '\\u{0}'.join(rust_debug(p)[1:-1] for p in s.split('\0')) + '"'


def escape_name(v):
    return re.sub(r'[\n\r\t ()"\\]', lambda m: '\\' + m.group(), v)


def gen_sexp(nodes):
    out = []
    for n in nodes:
        if n.k == 'l':
            out.append(n.ws + '(' + gen_sexp(n.kids) + n.ews + ')')
        elif n.k == 'a':
            out.append(n.ws + ':' + escape_name(n.v) + gen_sexp([n.node]))
        elif n.k == 's':
            out.append(n.ws + quoted(n.v))
        elif n.k == 'r':
            out.append(n.ws + '(%raw ' + quoted(n.v) + ')')
        else:
            # A symbol that would be read as something else starts with a backslash.
            out.append(n.ws + ('\\' if n.k == 'y' and re.match('[0-9+:;-]', n.v) else '') + escape_name(n.v))
    return ''.join(out)


def gen_display(nodes):
    out = []
    for n in nodes:
        if n.k == 'l':
            out.append(n.ws + '(' + gen_display(n.kids) + n.ews + ')')
        elif n.k == 'a':
            out.append(n.ws + ':' + n.v + gen_display([n.node]))
        elif n.k in 'sr':
            out.append(n.ws + rust_debug(n.v))
        else:
            out.append(n.ws + n.v)
    return ''.join(out)


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;').replace("'", '&apos;')


def strip_first(kids):
    """-> (kids, first child is on the next line)"""
    if not kids:
        return kids, False
    if '\n' in kids[0].ws:
        return kids, True
    return [kids[0].with_ws('')] + list(kids[1:]), False


def closing_ws(n, next_line, tag):
    if n.ews:
        return n.ews
    return n.ws if next_line or tag == 'style' else ''


def attr_value(n):
    return n.v if n.k == 'r' else esc(n.v)


def gen_xml(nodes):
    out = []
    for n in nodes:
        if n.k in 'yns':
            out.append(n.ws + esc(n.v))
            continue
        if n.k != 'l':
            gen_fail('XML', n.site, 'unexpected node', ('unexpected', KIND[n.k]))
        if not n.kids:
            gen_fail('XML', n.site, 'empty list')
        h = n.kids[0]
        if h.k != 'y':
            gen_fail('XML', h.site, 'tag must be a symbol')
        tag = h.v
        if not tag:
            gen_fail('XML', n.site, 'empty tag name')
        out.append(n.ws + '<' + tag)
        rest = n.kids[1:]

        def attribute(a):
            if not a.node.atomic:
                gen_fail('XML', a.node.site, 'compound attribute')
            return ' %s="%s"' % (a.v, attr_value(a.node))
        if tag[0] in '!?':
            for r in rest:
                if r.k in 'yn':
                    out.append(' ' + r.v)
                elif r.k == 'a':
                    out.append(attribute(r))
                else:
                    gen_fail('XML', r.site, 'declaration item')
            out.append(' ?>' if tag[0] == '?' else '>')
            continue
        while rest and rest[0].k == 'a':
            out.append(attribute(rest[0]))
            rest = rest[1:]
        rest, nl = strip_first(rest)
        out.append('>' + gen_xml(rest) + closing_ws(n, nl, tag) + '</' + tag + '>')
    return ''.join(out)


VOID = {'area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'param', 'source', 'track', 'wbr'}


def ascii_lower(s):
    return ''.join(c.lower() if c.isascii() else c for c in s)


def gen_html(nodes):
    out = []
    for n in nodes:
        if n.k in 'yns':
            out.append(n.ws + esc(n.v))
            continue
        if n.k == 'r':
            out.append(n.ws + n.v)
            continue
        if n.k == 'a':
            gen_fail('HTML', n.site, 'stray attribute')
        if not n.kids:
            gen_fail('HTML', n.site, 'empty list')
        h = n.kids[0]
        if h.k != 'y':
            gen_fail('HTML', h.site, 'tag must be a symbol')
        if not h.v:
            gen_fail('HTML', n.site, 'empty tag name')
        out.append(n.ws + '<' + h.v)
        tag = ascii_lower(h.v)
        rest = n.kids[1:]
        if tag[0] == '!':
            for r in rest:
                if r.k not in 'yn':
                    gen_fail('HTML', r.site, 'declaration item')
                out.append(' ' + r.v)
            out.append('>')
            continue
        while rest and rest[0].k == 'a':
            a = rest[0]
            if not a.node.atomic:
                gen_fail('HTML', a.node.site, 'compound attribute')
            out.append((a.ws or ' ') + '%s="%s"' % (a.v, attr_value(a.node)))
            rest = rest[1:]
        out.append('>')
        if tag in VOID:
            if rest:
                gen_fail('HTML', rest[0].site, 'void element with children', '<%s>' % tag)
            continue
        kids, nl = strip_first(rest)
        if tag == 'pre':
            out.append(pre_text(rest, n))
        elif tag in ('textarea', 'title'):
            out.append(gen_text(kids))
        elif tag == 'style':
            if kids and kids[0].k == 's':
                if len(kids) != 1:
                    gen_fail('HTML+CSS', kids[0].site, 'excess in style')
                out.append(kids[0].v)
            else:
                out.append('\n' + gen_css(kids))
        elif tag == 'script':
            out.append(gen_sexp(kids))
        elif tag in ('math', 'svg'):
            out.append(gen_xml(kids))
        else:
            out.append(gen_html(kids))
        out.append(closing_ws(n, nl, tag) + '</' + tag + '>')
    return ''.join(out)


def pre_text(rest, n):
    if not rest:
        return n.ews
    f = rest[0]
    end = n.esite
    if f.site.src is not end.src:
        gen_fail('HTML', f.site, 'pre: other source')
    start = f.site.off + (1 if f.ws.startswith(' ') else 0) - len(f.ws.encode('utf-8'))
    b = end.src.b
    if start < 0 or start > end.off:
        gen_fail('HTML', f.site, 'pre: other source')
    try:
        b[:start].decode('utf-8')
        return b[start:end.off].decode('utf-8')
    except UnicodeDecodeError:
        gen_fail('HTML', f.site, 'pre: other source')


CSS_FUNCTIONS = set('''attr blur brightness calc circle color contrast counter counters cubic-bezier drop-shadow
ellipse format grayscale hsl hsla hue-rotate hwb image inset invert lab lch linear-gradient matrix matrix3d opacity
perspective polygon radial-gradient repeating-linear-gradient repeating-radial-gradient rgb rgba rotate rotate3d
rotateX rotateY rotateZ saturate sepia scale scale3d scaleX scaleY scaleZ skew skewX skewY symbols translate
translate3d translateX translateY translateZ url var supports'''.split())
CSS_COMMA = {'rgba', 'hsla'}
CSS_AT = {'@charset', '@counter-style', '@document', '@font-face', '@font-feature-values', '@import', '@keyframes',
          '@media', '@namespace', '@page', '@property', '@supports'}
CSS_ONELINE = {'@charset', '@import', '@namespace'}
CSS_FLAT = {'@font-face', '@page', '@property'}

WHITE = set('\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028'
            '\u2029\u202f\u205f\u3000')


def trim(s):
    return s.strip(''.join(WHITE))


def css_string(text):
    """The CSS string of exactly these characters (line endings by code point, quotes and backslashes escaped)."""
    out = ''
    for c in text:
        out += '\\' + c if c in '"\\' else '\\%x ' % ord(c) if c in '\n\r\f' else c
    return '"%s"' % out


def css_value(n):
    if n.k == 'a':
        gen_fail('CSS-value', n.site, 'attribute in a value')
    if n.k == 'r':
        return n.v
    if n.k == 'l':
        if not n.kids:
            return ''
        head = css_value(n.kids[0])
        tail = [css_value(k) for k in n.kids[1:]]
        args = trim((', ' if head in CSS_COMMA else ' ').join(tail))
        if head in CSS_FUNCTIONS:
            return '%s(%s)' % (head, args)
        if head in ('+', '-', '*', '/'):
            return '(%s)' % (' %s ' % head).join(tail)
        return head + ' ' + args
    if any(c in WHITE for c in n.v):
        return css_string(n.v)
    return n.v


def css_rule(n):
    kids = n.kids
    i = 0
    while i < len(kids) and kids[i].atomic:
        i += 1
    if i == 0:
        gen_fail('CSS', n.site, 'no selector')
    head = kids[0].v
    if head in CSS_AT and head not in CSS_FLAT:
        out = head + ' '
        body = False
        for a in kids[1:]:
            if head in CSS_ONELINE:
                out += '(%s: %s) ' % (a.v, css_value(a.node)) if a.k == 'a' else css_value(a) + ' '
            elif a.k == 'l':
                if not body:
                    out += '{\n'
                body = True
                out += a.ws + css_rule(a)
            elif body:
                gen_fail('CSS', a.site, 'expected a rule')
            else:
                out += '(%s: %s) ' % (a.v, css_value(a.node)) if a.k == 'a' else css_value(a) + ' '
        if head in CSS_ONELINE:
            return out + ';\n'
        return out + ('}' if body else ';')
    out = ''.join(k.v + ' ' for k in kids[:i]) + '{\n'
    for p in kids[i:]:
        if p.k != 'a':
            gen_fail('CSS', p.site, 'not a declaration')
        out += '  %s: %s;\n' % (p.v, css_value(p.node))
    return out + '}'


def gen_css(nodes):
    out = []
    for n in nodes:
        if n.k != 'l':
            gen_fail('CSS', n.site, 'not a rule')
        out.append(n.ws + css_rule(n))
    return ''.join(out)


HTML_EMPTY = ('<!DOCTYPE html>\n<html>\n<head></head>\n<body>\n<!-- Generated by SEAM (empty file) -->\n'
              '</body>\n</html>\n')
XML_DECL = '<?xml version="1.0" encoding="UTF-8" ?>\n'


def find_head(nodes, name, level):
    """First list whose head atom is `name` (any case) within `level` levels."""
    if level == 0:
        return None
    for n in nodes:
        if n.k == 'a':
            if level > 1:
                r = find_head([n.node], name, level - 1)
                if r is not None:
                    return r
        elif n.k == 'l':
            if n.kids and n.kids[0].atomic and n.kids[0].v.lower() == name:
                return n
            r = find_head(n.kids, name, level - 1)
            if r is not None:
                return r
    return None


def doc_html(nodes):
    if not nodes:
        return HTML_EMPTY
    if find_head(nodes, '!doctype', 1) is not None:
        return drop_nl(gen_html(nodes) + '\n')
    if find_head(nodes, 'html', 1) is not None:
        return drop_nl('<!DOCTYPE html>\n' + gen_html(nodes) + '\n')
    head, body = find_head(nodes, 'head', 2), find_head(nodes, 'body', 2)
    out = '<!DOCTYPE html>\n<html>\n'
    if head is None:
        out += '<head></head>\n'
    rest = nodes
    if body is None:
        at = next((i for i, n in enumerate(nodes) if n is head), None) if head is not None else None
        if at is not None:
            out += gen_html(nodes[:at + 1]) + '\n'
            rest = nodes[at + 1:]
        out += '<body>\n'
    out += gen_html(rest) + '\n'
    if body is None:
        out += '</body>\n'
    return drop_nl(out + '</html>\n')


def drop_nl(s):
    return s[:-1] if s.endswith('\n') else s


def doc_xml(nodes):
    if not nodes:
        return XML_DECL
    f = nodes[0]
    has = f.k == 'l' and f.kids and f.kids[0].k == 'y' and f.kids[0].v.lower() == '?xml'
    return ('' if has else XML_DECL) + gen_xml(nodes)


def doc_css(nodes):
    return gen_css(nodes) if nodes else '\n'


def output(spec, nodes):
    """spec as in the observer: format name, '!' for document mode; '+', '=' variants."""
    name = spec.rstrip('!+=')
    if spec == 'display':
        return gen_display(nodes)
    if spec[-1] in '!=':
        return {'text': gen_text, 'sexp': gen_sexp, 'html': doc_html, 'xml': doc_xml, 'css': doc_css}[name](nodes)
    return {'text': gen_text, 'sexp': gen_sexp, 'html': gen_html, 'xml': gen_xml, 'css': gen_css}[name](nodes)

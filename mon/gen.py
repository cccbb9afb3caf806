"""Workload generation: names, texts, whitespace, and whole seam programs."""
import random, re, unicodedata
from lits import Lits

WORDS = 'a b c d e f foo bar baz x y z one two three item title body head name key val lorem ipsum in do list'.split()
WEIRD_CHARS = ['é', 'ß', 'ü', 'λ', 'Ω', 'ж', '日', '本', '語', '한', '\u0301', '\u200b', '😀', '\u00a0', '\u2003', '\x0b', '\x0c',
               '\x07', '\x00', '\x1b', '\x7f', '\ufeff', '—', '…', '→', 'İ', 'ſ', '\u2028', '\u0085']
SAFE_CHARS = ['é', 'ß', 'ü', 'λ', 'Ω', 'ж', '日', '本', '語', '한', '…', '→']
MARKUP = ['<', '>', '&', '"', "'", '<b>', '</p>', '&amp;', '&lt;', ']]>', '<!--', '-->', '&#39;', '<?', '?>', 'a<b', 'a&b', '%', '{}', '{', '}',
          '\\', '\\n', '/', ':', ';', '(', ')', '#', '@', '=', '`', '*', '$', '~', '|', '^', '!']
NUMS = ['0', '1', '2', '3', '4', '5', '7', '9', '10', '12', '16', '42', '99', '100', '-1', '-2', '-7', '+1', '+3', '1.5', '2.25', '-0.5', '0.1',
        '1e3', '1E2', '007', '-0', '+0', '0.0', '2em', '16px', '-4px', '50%', '1.2.3', '3rd', '9007199254740993', '9007199254740992',
        '170141183460469231731687303715884105727', '1_000', '0x10', '-', '+', '--', '1e', '.5', '5.', '2001-09-09']
TAGS = ['p', 'div', 'span', 'a', 'b', 'i', 'ul', 'li', 'table', 'tr', 'td', 'h1', 'section', 'article', 'em', 'strong', 'code', 'nav', 'main',
        'x-custom', 'html', 'head', 'body']
VOID = ['area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'param', 'source', 'track', 'wbr']
SPECIAL = ['style', 'script', 'svg', 'math', 'title', 'textarea', 'pre']
KEYWORDS = ['class', 'id', 'href', 'src', 'style', 'lang', 'data-x', 'name', 'content', 'type', 'value', 'k', 'v', 'a', 'b', 'xml:lang', 'key',
            'order', 'separator']
CASES = [str.lower, str.upper, str.title, lambda s: s[:1] + s[1:].upper(), str.swapcase]


class Dict:
    """What every generator draws from, including constants found only in the
    current sources."""

    def __init__(self):
        L = Lits()
        self.fresh = L.fresh
        self.fresh_ints = [k for k in L.fresh_ints if 0 <= k <= 3000]
        self.fresh_nums = L.fresh_nums
        self.strs = L.strs


DICT = None


def dictionary():
    global DICT
    if DICT is None:
        DICT = Dict()
    return DICT


def choose(r, table):
    """table: [(weight, value)]"""
    total = sum(w for w, _ in table)
    x = r.random() * total
    for w, v in table:
        x -= w
        if x < 0:
            return v
    return table[-1][1]


class Rng(random.Random):
    def p(self, x):
        return self.random() < x

    def size(self, big=False):
        """A length: mostly small, sometimes around a power of two or a
        constant of the sources."""
        d = dictionary()
        if d.fresh_ints and self.p(0.3):
            return max(0, self.choice(d.fresh_ints) + self.choice([-1, 0, 1, 1, 2]))
        x = self.random()
        if x < 0.55:
            return self.choice([0, 1, 1, 2, 2, 3, 3, 4])
        if x < 0.85 or not big:
            return self.choice([3, 4, 5, 6, 7, 8, 9, 10, 12])
        if x < 0.97:
            return self.choice([13, 15, 16, 17, 19, 20, 21, 22, 24, 31, 32, 33, 40])
        return self.choice([50, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257])


def char_sources(forms=('(p :k "%s" "%s")', '(p (%%raw "%s") "a%s")', '(p :k (%%raw "%s"))', '(p %s)'), size=12):
    """Documents that hold, between them, every character up to U+024F, those at
    the ends of each length of UTF-8, and every last byte of it."""
    codes = list(range(1, 0x250)) + list(range(0x2000, 0x2070)) + list(range(0x3000, 0x3040)) + [0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfe0f, 0xfeff, 0xfffd, 0xfffe, 0xffff] \
        + list(range(0xffc0, 0xfff0)) + [0x10000, 0x10ffff, 0xfffff] + list(range(0x1f600, 0x1f640)) + list(range(0x9f80, 0x9fc0))
    out = []
    for i in range(0, len(codes), size):
        chars = [chr(c) for c in codes[i:i + size]]
        quoted = ''.join('\\' + c if c in '"\\' else c for c in chars)
        name = 'x' + ''.join('\\' + c if c in '"\\();' or c.isspace() else c for c in chars)
        for f in forms:
            t = name if '"' not in f else quoted
            out.append(f.replace('%%', '\0').replace('%s', t).replace('\0', '%'))
    return out


def name_src(r, text, kind='y'):
    """Write `text` as a symbol (or number, keyword text) token."""
    out = []
    for i, c in enumerate(text):
        if c in '\n\r\t "()\\' or c.isspace() and r.p(0.7) or (i == 0 and (c == ';' or kind == 'y' and c in '0123456789+-:'))\
                or (kind == 'y' and i == 0 and c == '%'):
            out.append('\\' + c)
        elif r.p(0.004):
            out.append('\\' + c)
        else:
            out.append(c)
    return ''.join(out)


def str_src(r, s, triple=None):
    """Write `s` as a string literal, choosing escapes at random."""
    if triple is None:
        triple = r.p(0.2)
    if triple and '"""' not in s and not s.endswith('"') and '\\' not in s and r.p(0.8):
        return '"""' + s + '"""'
    q = '"""' if triple else '"'
    out = []
    heavy = r.p(0.25)
    for i, c in enumerate(s):
        n = ord(c)
        if c == '\\':
            out.append('\\\\')
        elif c == '"':
            out.append('\\"' if not triple or r.p(0.5) or i + 1 == len(s) or s[i + 1] == '"' else '"')
        elif c == '\n':
            out.append(r.choice(['\n', '\\n', '\\n', '\\x0a', '\\12']) if not (i + 1 < len(s) and s[i + 1] in '01234567')
                       else r.choice(['\n', '\\n']))
        elif c in '\t\r\x07\x08\x0b\x0c\x1b' and r.p(0.6):
            out.append({'\t': '\\t', '\r': '\\r', '\x07': '\\a', '\x08': '\\b', '\x0b': '\\v', '\x0c': '\\f', '\x1b': '\\e'}[c])
        elif c in "'`" and r.p(0.2):
            out.append('\\' + c)
        elif heavy and r.p(0.2):
            forms = ['\\u{%x}' % n, '\\u{%06X}' % n]
            if n < 0x10000:
                forms.append('\\u%04x' % n)
            if n < 256:
                forms.append('\\x%02x' % n)
            out.append(r.choice(forms))
        else:
            out.append(c)
    return q + ''.join(out) + q


def any_char(r):
    """Any printable character: each byte value occurs in some encoding."""
    while True:
        x = r.random()
        n = r.randint(0x21, 0x7e) if x < 0.15 else r.randint(0xa1, 0xff) if x < 0.4 else r.randint(0x100, 0x52f) if x < 0.65 else \
            r.randint(0x900, 0x33ff) if x < 0.8 else r.randint(0x4e00, 0xd7a3) if x < 0.9 else r.randint(0xf900, 0xffee) if x < 0.94 else r.randint(0x10000, 0x1faff)
        c = chr(n)
        if unicodedata.category(c)[0] in 'LNPS' and unicodedata.category(c) != 'Lm':
            return c


def plain_char(r):
    """A letter outside of ASCII, of the usual width."""
    while True:
        c = chr(r.choice([r.randint(0xc0, 0xff), r.randint(0x100, 0x24f), r.randint(0x386, 0x3ce), r.randint(0x400, 0x481), r.randint(0x4e00, 0x9fa0)]))
        if unicodedata.category(c) in ('Lu', 'Ll', 'Lo'):
            return c


class Texts:
    """Random texts and names."""

    def __init__(self, r, weird=0.1):
        self.r, self.weird = r, weird
        self.d = dictionary()

    def fresh(self):
        return self.d.fresh and self.r.p(0.12)

    def word(self):
        r = self.r
        if self.fresh():
            return r.choice(self.d.fresh)
        w = r.choice(WORDS)
        if r.p(0.15):
            w += r.choice(WORDS)
        if r.p(0.1):
            w = r.choice(CASES)(w)
        if r.p(self.weird * 0.3):
            w += r.choice(SAFE_CHARS) if r.p(0.4) else plain_char(r)
        return w

    def text(self, big=False):
        """Contents of a string."""
        r = self.r
        if self.fresh():
            f = r.choice(self.d.fresh)
            return r.choice([f, f, f + self.word(), self.word() + f, self.word() + ' ' + f + ' ' + self.word(), f.upper(), f + f])
        x = r.random()
        if x < 0.08:
            return ''
        if x < 0.4:
            return self.word()
        if x < 0.5:
            return r.choice(NUMS)
        if x < 0.6:
            return ' '.join(self.word() for _ in range(r.randint(2, 4)))
        if x < 0.75:
            return ''.join(r.choice([self.word, lambda: r.choice(MARKUP), lambda: r.choice([' ', '\n', '\t', '  ']), lambda: plain_char(r)])() for _ in range(r.randint(1, 5)))
        if x < 0.75 + self.weird * 1.5:
            return ''.join(r.choice([self.word(), r.choice(WEIRD_CHARS), r.choice(MARKUP), any_char(r)]) for _ in range(r.randint(1, 4)))
        if x < 0.96:
            n = r.size(big)
            unit = r.choice(['a', 'ab', 'x ', 'é', '<', '&', '0', '-', '日'])
            return (unit * n)[:max(n, 0)]
        return r.choice(self.d.strs)

    def name(self):
        """Text of a symbol."""
        r = self.r
        if self.fresh():
            f = r.choice(self.d.fresh)
            return r.choice([f, f, f + self.word(), self.word() + f])
        x = r.random()
        if x < 0.8:
            return self.word()
        if x < 0.9:
            return self.word() + r.choice(['-', '_', '/', '.', ':', '!', '?', '*', '=', '#', ',', "'", '&', '@']) + self.word()
        if x < 0.95:
            return r.choice(['#', '.', ',', '!', '?', '*', '=', '<', '>', '&', '@', "'", '[', '{', '~', '$', '^', '|', '_', '/', '`']) + r.choice(['', self.word()])
        if x < 0.98:
            return self.word() + r.choice([' ', '(', ')', '"', '\\', ';', '\n', 'é']) + self.word()
        return ''.join(r.choice(SAFE_CHARS + ['a', '-', plain_char(r)]) for _ in range(r.randint(1, 3)))

    def number(self):
        r = self.r
        if self.d.fresh_nums and r.p(0.15):
            n = r.choice(self.d.fresh_nums)
            return r.choice([n, '-' + n, n + '0'] + [str(int(n) + k) for k in (-1, 1)] if n.isdigit() else [n])
        x = r.random()
        if x < 0.5:
            return r.choice(NUMS)
        if x < 0.75:
            return str(r.randint(-30, 120))
        if x < 0.9:
            return '%d.%d' % (r.randint(-20, 20), r.randint(0, 99))
        return str(r.randint(-10 ** r.randint(1, 40), 10 ** r.randint(1, 40)))

    def keyword(self):
        r = self.r
        if self.fresh():
            return r.choice(self.d.fresh)
        if r.p(0.75):
            k = r.choice(KEYWORDS)
            return r.choice(CASES)(k) if r.p(0.08) else k
        return self.word()

    def kw_src(self, k=None):
        """`:keyword` token."""
        k = self.keyword() if k is None else k
        k = ''.join(c for c in k if c not in '"()\\' and not c.isspace())
        if k and self.r.p(0.04):
            i = self.r.randrange(len(k))
            k = k[:i] + '\\' + k[i:]
        return ':' + k

    def sp(self, tight=False):
        """Whitespace between two expressions."""
        r = self.r
        x = r.random()
        if x < 0.72:
            return ' '
        if x < 0.8:
            return '\n' + ' ' * r.randint(0, 4)
        if x < 0.86:
            return r.choice(['  ', '\t', '   ', '\n\n', '\r\n', ' \n ', '\n\t'])
        if x < 0.865:
            return r.choice([' ', ' ', '\t', '\n', '\n' + ' ' * 20, ' \t']) * r.choice([5, 8, 9, 16, 17, 40])
        if x < 0.90:
            return r.choice([' ; comment\n', ' ;\n', '\n; x "y" (z\n  ', ' ; é日 \\\n', ' ;;; a ; b\n\n'])
        return ' '

    def atom(self):
        r = self.r
        x = r.random()
        if x < 0.45:
            return name_src(r, self.name())
        if x < 0.62:
            return self.number()
        return str_src(r, self.text())

    def simple_atom(self):
        r = self.r
        x = r.random()
        if x < 0.5:
            return self.word()
        if x < 0.7:
            return str(r.randint(-9, 99))
        return str_src(r, self.word())


def needs_space(left, right):
    """Must two adjacent sources be separated?"""
    if not left or not right:
        return False
    if left[-1] in '()' or right[0] in '()':
        return False
    if left[-1] == '"' and right[0] == '"':
        return True
    return True


def juxtapose(r, T, items, tight=0.04):
    """Join item sources with random separators; sometimes without any where that is legal."""
    out = ''
    for i, it in enumerate(items):
        if i:
            edge = out[-1:] in '()"' or it[:1] in '()"'
            if edge and r.p(tight) and not (out.endswith('"') and it.startswith('"')) and not out.endswith('\\"'):
                pass
            else:
                out += T.sp()
        out += it
    return out


def wrap(r, T, items):
    """A list of the items."""
    inner = juxtapose(r, T, items)
    lead = r.choice(['', '', '', '', '', ' ', '\n  ']) if r.p(0.4) else ''
    tail = r.choice(['', '', ' ', '\n', ' ; end\n', '\t']) if r.p(0.25) else ''
    return '(' + lead + inner + tail + ')'


# ---------------------------------------------------------------- data trees

def tree_src(r, T, depth, attrs=True, width=None):
    """A list with arbitrary content and no macros."""
    n = r.size() if width is None else width
    items = []
    if depth <= 0 or r.p(0.35):
        return T.atom()
    for _ in range(n):
        x = r.random()
        if attrs and x < 0.15:
            items.append(T.kw_src() + T.sp() + tree_src(r, T, depth - 2, attrs))
        elif x < 0.5:
            items.append(tree_src(r, T, depth - 1, attrs, None))
        else:
            items.append(T.atom())
    return wrap(r, T, items)


# ---------------------------------------------------------------- programs

class Fn:
    def __init__(self, name, params, kind):
        self.name, self.params, self.kind = name, params, kind


BUILTIN_NAMES = ['define', 'match', 'ifdef', 'do', 'get', 'raw', 'string', 'number', 'symbol', 'include', 'embed', 'namespace', 'markdown',
                 'yaml', 'json', 'toml', 'glob', 'for', 'sort', 'reverse', 'date', 'timestamp', 'join', 'concat', 'map', 'filter', 'splat',
                 'list', 'strip', 'apply', 'lambda', 'log', 'format', 'os/env']

DEFAULT_WEIGHTS = dict(define=6, defun=6, call=8, var=8, match=4, ifdef=3, do=3, get=4, raw=2, string=3, number=2, symbol=2, namespace=2,
                       for_=4, sort=3, reverse=3, join=3, concat=3, map=4, filter=3, splat=3, list=4, strip=3, apply=3, lambda_=3, log=1,
                       format=2, env=1, plain=14, atom=14, attr=4)


class Prog:
    """Generates programs that mostly expand without error."""

    def __init__(self, r, weights=None, weird=0.08, err=None, simple=0.3):
        self.r = r
        self.T = Texts(r, weird)
        self.W = dict(DEFAULT_WEIGHTS)
        if weights:
            self.W.update(weights)
        self.err = (r.choice([0, 0, 0.002, 0.02]) if err is None else err)
        self.simple = r.p(simple)
        self.vars = {}            # name -> kind (lit | list | any)
        self.funs = {}            # name -> Fn
        self.left = 60
        self.env = {}
        self.fresh_n = 0
        self.ns_seen = []

    # -- helpers

    def atom(self):
        return self.T.simple_atom() if self.simple else self.T.atom()

    def new_name(self):
        r = self.r
        if r.p(0.25) and (self.vars or self.funs):
            return r.choice(list(self.vars) + list(self.funs))        # shadowing and redefinition
        if r.p(0.1):
            return self.T.name()
        if r.p(0.04):
            return r.choice(BUILTIN_NAMES)
        if self.ns_seen and r.p(0.05):
            return r.choice(self.ns_seen) + '/' + r.choice(WORDS)
        return r.choice(WORDS) + (str(r.randint(0, 9)) if r.p(0.3) else '')

    def ref(self, name):
        return '%' + name_src(self.r, name, 'v')

    def lst(self, items):
        return wrap(self.r, self.T, items)

    def data(self, items):
        """A list that is not a call."""
        if items and items[0].startswith('%') and self.r.p(0.97):
            items = [self.r.choice([self.T.word(), '1', '"s"'])] + items[1:]
        return self.lst(items)

    def many(self, depth, n=None, big=False):
        n = self.r.size(big) if n is None else n
        n = min(n, max(1, self.left) if n < 40 else n)
        if n > 12:
            # long lists of cheap elements
            return [self.atom() if self.r.p(0.97) else self.expr(0) for _ in range(n)]
        return [self.expr(depth - 1) for _ in range(n)]

    def of_kind(self, kind):
        return [v for v, k in self.vars.items() if k == kind]

    # -- expressions by kind

    def lit(self, depth=1):
        """An expression that gives exactly one literal."""
        r = self.r
        self.left -= 1
        if depth <= 0 or self.left <= 0 or r.p(0.6):
            vs = self.of_kind('lit')
            if vs and r.p(0.4):
                return self.ref(r.choice(vs))
            return self.atom()
        k = r.choice(['string', 'concat', 'join', 'number', 'symbol', 'do', 'ifdef', 'strip', 'raw', 'get', 'format', 'apply', 'call', 'match'])
        return self.macro(k, depth, 'lit')

    def listy(self, depth=1, big=True, lit_only=False):
        """An expression that gives exactly one list."""
        r = self.r
        self.left -= 1
        if depth <= 0 or self.left <= 0 or r.p(0.65):
            vs = self.of_kind('list')
            if vs and r.p(0.4):
                return self.ref(r.choice(vs))
            return self.data([self.lit(0) for _ in range(r.size(big))] if lit_only or r.p(0.4) else self.many(depth, None, big))
        k = r.choice(['list', 'reverse', 'sort', 'do', 'getl'])
        if k == 'list':
            return self.lst(['%list'] + self.many(depth, None, big))
        if k == 'reverse':
            return self.lst(['%reverse', self.listy(depth - 1)])
        if k == 'sort':
            return self.lst(['%sort', self.data([self.lit(0) for _ in range(r.size(big))])])
        if k == 'do':
            return self.lst(['%do', self.listy(depth - 1)])
        return self.lst(['%get', '0', self.lst([self.listy(depth - 1)] + self.many(depth - 1, 1))])

    def fn_symbol(self, depth=1):
        """Symbol (or lambda) of something that takes one argument."""
        r = self.r
        ones = [f.name for f in self.funs.values() if f.params is not None and len([p for p in f.params if p[0] == 'pos']) == 1]
        x = r.random()
        if ones and x < 0.3:
            return name_src(r, r.choice(ones))
        if x < 0.6 and depth > 0:
            return self.macro('lambda_', depth, 'any', arity=1)
        return r.choice(['list', 'do', 'splat', 'strip', 'list', 'do'])

    def expr(self, depth):
        """Any expression (zero or more nodes)."""
        r = self.r
        self.left -= 1
        if depth <= 0 or self.left <= 0:
            vs = list(self.vars)
            if vs and r.p(0.25):
                return self.ref(r.choice(vs))
            return self.atom()
        k = choose(r, [(w, n) for n, w in self.W.items() if w])
        return self.macro(k, depth, 'any')

    def branch(self, f):
        """Run f with a copy of the scope."""
        vs, fs = dict(self.vars), dict(self.funs)
        out = f()
        self.vars, self.funs = vs, fs
        return out

    def macro(self, k, depth, want, arity=None):
        r = self.r
        d = depth - 1
        if r.p(self.err):
            return self.broken(d)
        if k == 'atom':
            return self.atom()
        if k == 'plain':
            return self.data(([self.T.word()] if r.p(0.7) else []) + self.many(depth))
        if k == 'attr':
            x = r.random()
            return self.T.kw_src() + self.T.sp() + (self.lit(d) if x < 0.75 else self.listy(d, False) if x < 0.95 else self.expr(d))
        if k == 'var':
            vs = list(self.vars)
            return self.ref(r.choice(vs)) if vs else self.atom()
        if k == 'define':
            name = self.new_name()
            x = r.random()
            if x < 0.45:
                body, kind = [self.lit(d)], 'lit'
            elif x < 0.65:
                body, kind = [self.listy(d)], 'list'
            else:
                body, kind = self.many(d), 'any'
            s = self.lst(['%define', name_src(r, name)] + body)
            self.vars[name] = kind
            self.funs.pop(name, None)
            return s
        if k == 'defun':
            return self.defun(depth)
        if k == 'call':
            if not self.funs:
                return self.defun(depth)
            f = self.funs[r.choice(list(self.funs))]
            return self.lst([self.ref(f.name)] + self.args(f.params, d))
        if k == 'match':
            return self.match(d, want)
        if k == 'ifdef':
            name = r.choice(list(self.vars) + list(self.funs) + WORDS)
            give = (lambda: self.lit(d)) if want == 'lit' else (lambda: self.expr(d))
            parts = ['%ifdef', name_src(r, name), self.branch(give)]
            if want == 'lit' or r.p(0.7):
                parts.append(self.branch(give))
            return self.lst(parts)
        if k == 'do':
            return self.lst(['%do'] + ([self.lit(d)] if want == 'lit' else self.many(d)))
        if k == 'get':
            return self.get(d, want)
        if k in ('raw', 'string'):
            return self.lst(['%' + k] + [self.lit(d) for _ in range(r.size())])
        if k in ('number', 'symbol'):
            n = 1 if want == 'lit' else r.size()
            return self.lst(['%' + k] + [self.lit(d) for _ in range(n)])
        if k == 'namespace':
            ns = r.choice(['ns', 'm', 'lib', 'a', 'util'])
            def inside():
                body = [self.macro(r.choice(['define', 'define', 'defun', 'atom', 'plain', 'namespace' if depth > 2 else 'atom']), d, 'any')
                        for _ in range(r.randint(0, 4))]
                return body, set(self.vars), {n: f for n, f in self.funs.items()}
            body, vs, fs = self.branch(inside)
            sep, opt = '/', []
            if r.p(0.3):
                sep = r.choice([':', '.', '', '::', '-', '/'])
                opt = [':separator' + self.T.sp() + str_src(r, sep)]
                while r.p(0.12):        # the last one counts
                    opt.insert(0, ':separator' + self.T.sp() + str_src(r, r.choice([':', '.', '', '/'])))
                if r.p(0.03):
                    opt.insert(r.randint(0, len(opt)), ':' + r.choice(['sep', 'name', 'separators']) + ' ' + str_src(r, sep))
            for v in vs:
                if r.p(0.5):
                    self.vars[ns + sep + v] = 'any'
            for n, f in fs.items():
                self.funs[ns + sep + n] = Fn(ns + sep + n, f.params, f.kind)
            self.ns_seen.append(ns)
            return self.lst(['%namespace', ns] + opt + body)
        if k == 'for_':
            pat, names = self.pattern(1, simple=r.p(0.7))
            def inside():
                for n in names:
                    self.vars[n] = 'any'
                return self.many(d, r.randint(0, 3))
            src = self.lst([self.for_item(pat) for _ in range(r.size(True))]) if names else self.listy(0)
            return self.lst(['%for', pat, 'in', src] + self.branch(inside))
        if k == 'sort':
            extra = []
            if r.p(0.4):
                extra.append(':order ' + r.choice(['ascending', 'descending']))
            if r.p(0.3):
                extra.append(':key ' + r.choice(['do', 'concat', 'string', 'symbol']))
            parts = ['%sort', self.data([self.lit(0) for _ in range(r.size(True))])]
            for e in extra:
                parts.insert(r.randint(1, len(parts)), e)
            return self.lst(parts)
        if k == 'reverse':
            return self.lst(['%reverse', self.listy(d)])
        if k == 'join':
            parts = ['%join', self.lit(d)] + [self.lit(d) for _ in range(r.size(True))]
            if r.p(0.3):
                parts.insert(r.randint(1, len(parts)), ':trailing ' + r.choice(['true', 'false']))
            return self.lst(parts)
        if k == 'concat':
            return self.lst(['%concat'] + [self.lit(d) for _ in range(r.size(True))])
        if k in ('map', 'filter'):
            x = r.random()
            if x < 0.3:
                return self.lst(['%' + k, r.choice(['string', 'concat', 'symbol', 'number', 'raw', 'do', 'list'])] +
                                [self.lit(d) for _ in range(r.size(True))])
            if x < 0.45:
                return self.lst(['%' + k, r.choice(['reverse', 'splat', 'sort', 'do'])] +
                                [self.data([self.lit(0) for _ in range(r.size())]) for _ in range(r.size())])
            return self.lst(['%' + k, self.fn_symbol(d)] + self.many(d, None, True))
        if k == 'splat':
            return self.lst(['%splat'] + [self.listy(d) if r.p(0.7) else self.expr(d) for _ in range(r.randint(0, 3))])
        if k == 'list':
            return self.lst(['%list'] + self.many(depth))
        if k == 'strip':
            return self.lst(['%strip'] + ([self.lit(d)] if want == 'lit' else self.many(d)))
        if k == 'apply':
            if want == 'lit':
                return self.lst(['%apply', r.choice(['string', 'concat', 'do']), self.lit(d)])
            if self.funs and r.p(0.6):
                f = self.funs[r.choice(list(self.funs))]
                return self.lst(['%apply', name_src(r, f.name)] + self.args(f.params, d))
            if r.p(0.4):
                return self.lst(['%apply', r.choice(['string', 'concat', 'join', 'symbol'])] + [self.lit(d) for _ in range(r.size() + 1)])
            return self.lst(['%apply', r.choice(['list', 'do', 'splat', 'strip'])] + self.many(d))
        if k == 'lambda_':
            x = r.random()
            if x < 0.5 or arity == 1:
                n = r.choice(WORDS)
                names, head = [n], (n if r.p(0.6) else '(' + n + ')')
            else:
                params, ns = self.params(d)
                names, head = ns, self.lst(params)
            def inside():
                for n in names:
                    self.vars[n] = 'any'
                return self.many(d, r.randint(0, 3))
            return self.lst(['%lambda', head] + self.branch(inside))
        if k == 'log':
            return self.lst(['%log'] + [self.lit(d) for _ in range(r.size())])
        if k == 'format':
            return self.fmt(d)
        if k == 'env':
            n = 'SEAM_T%d' % r.randint(0, 5)
            if n not in self.env and r.p(0.9):
                self.env[n] = self.T.text().replace('\0', '')
            return self.lst(['%os/env', r.choice([n, str_src(r, n)])])
        return self.atom()

    def get(self, d, want):
        r = self.r
        n = r.randint(1, 6)
        items, keys, deep = [], [], {}
        for i in range(n):
            x = r.random()
            if x < 0.5:
                v = self.lit(0)
            elif x < 0.55:
                v = self.expr(d)
            else:
                m = r.randint(1, 4)
                v = self.data([self.lit(0) for _ in range(m)])
                deep[i] = m
            if r.p(0.3):
                kw = r.choice(KEYWORDS + ['0', '1', '2', '7'])
                items.append(self.T.kw_src(kw) + ' ' + v)
                keys.append(kw)
            else:
                items.append(v)
                keys.append(str(i))
        sep = '/'
        opt = []
        if r.p(0.25):
            sep = r.choice([':', '.', '::', '-', ''])
            opt = [':separator ' + str_src(r, sep)]
        i = r.randrange(n)
        path = keys[i]
        if i in deep and (want == 'lit' or r.p(0.6)):
            path = sep.join([path, str(r.randrange(deep[i] + (1 if r.p(0.05) else 0)))])
        if r.p(0.2):
            outer = self.lst([self.lst(items), self.atom()])
            path = sep.join(['0', path])
        else:
            outer = self.data(items)
        parts = ['%get', str_src(r, path) if r.p(0.5) or '"' in path or path == '' else path, outer]
        for e in opt:
            parts.insert(r.randint(1, len(parts)), e)
        return self.lst(parts)

    def fmt(self, d):
        r = self.r
        n = r.randint(0, 5)
        parts, used = [], []
        names = []
        for i in range(n):
            x = r.random()
            if x < 0.6:
                parts.append('{}')
            elif x < 0.8:
                parts.append('{%d}' % r.randint(0, n - 1))
            else:
                nm = r.choice(WORDS)
                names.append(nm)
                parts.append('{%s}' % nm)
            if r.p(0.15):
                spec = r.choice(['<', '>', '^', '', '_<', '=>', '0>']) + str(r.randint(1, 12))
                parts[-1] = parts[-1][:-1] + ':' + spec + '}'
            if r.p(0.7):
                parts.append(r.choice([' ', ', ', 'x', ' {{', ' }} ', '{{ }} ', ' é ', '-', '.', ': ']))
        args = [self.safe_lit() for _ in range(n + (1 if r.p(0.1) else 0))]
        # Text that would mean something in the template, too.
        odd = lambda: str_src(r, ''.join(r.choice(['{}', '{0}', '{1}', '{:>9}', '{{', '}}', '{', '}', '[curly=open]', '[', '\ue000', '{%s}' % r.choice(names or WORDS), 'x']) for _ in range(r.randint(1, 3))))
        args = [odd() if r.p(0.08) else a for a in args]
        args += [':%s %s' % (nm, odd() if r.p(0.08) else self.safe_lit()) for nm in dict.fromkeys(names)]
        if r.p(0.3):
            r.shuffle(args)
        return self.lst(['%format', str_src(r, ''.join(parts))] + args)

    def safe_lit(self):
        for _ in range(5):
            s = self.lit(0)
            if '{' not in s and '}' not in s:
                return s
        return 'x'

    def pattern(self, depth, simple=False):
        """-> (source, names bound)"""
        r = self.r
        if simple or depth <= 0 or r.p(0.4):
            n = r.choice(WORDS)
            return n, [n]
        names, items = [], []
        for _ in range(r.randint(0, 3)):
            p, ns = self.pattern(depth - 1)
            items.append(p)
            names += ns
        if r.p(0.2):
            n = r.choice(WORDS)
            items.append('&' + n)
            names.append(n)
        return self.lst(items), names

    def for_item(self, pat):
        """Something that probably matches the pattern source."""
        r = self.r
        if not pat.startswith('('):
            return self.expr(1) if r.p(0.15) else self.atom()
        # count the elements at the first level
        import model
        try:
            p = model.parse(model.Src('p', pat))[0]
        except Exception:
            return self.atom()
        return self.instance(p)

    def instance(self, p):
        r = self.r
        if p.k == 'l':
            items = []
            for q in p.kids:
                if q.k == 'y' and q.v.startswith('&&'):
                    for _ in range(r.choice([0, 1, 2])):
                        items.append(self.T.kw_src(r.choice(WORDS) + 'q') + ' ' + self.atom())
                elif q.k == 'y' and q.v.startswith('&'):
                    items += [self.atom() for _ in range(r.choice([0, 1, 2, 3]))]
                elif q.k == 'a':
                    if r.p(0.6):
                        items.insert(r.randint(0, len(items)), self.T.kw_src(q.v) + ' ' + self.atom())
                else:
                    items.append(self.instance(q))
            return self.lst(items)
        if p.k == 'y':
            return self.atom() if r.p(0.8) else self.expr(1)
        if p.k == 'n':
            return p.v
        return str_src(r, p.v)

    def params(self, d, wide=False):
        """-> (list of parameter sources, names bound).  Remembers specs in self.last_spec."""
        r = self.r
        items, names, spec = [], [], []
        pool = [w for w in WORDS]
        r.shuffle(pool)

        def fresh():
            return pool.pop() if pool else 'p%d' % r.randint(0, 99)
        for _ in range(r.choice([0, 1, 1, 2, 2, 3]) if not wide else r.randint(0, 6)):
            x = r.random()
            if x < 0.8:
                n = fresh()
                items.append(n)
                names.append(n)
                spec.append(('pos', None))
            elif x < 0.92:
                p, ns = self.pattern(2)
                items.append(p)
                names += ns
                spec.append(('pos', p))
            else:
                v = self.T.simple_atom()
                if v[0] in '"+-0123456789':
                    items.append(v)
                    spec.append(('pos', v))
        for _ in range(r.choice([0, 0, 0, 1, 1, 2]) if not wide else r.randint(0, 4)):
            n = fresh()
            items.insert(r.randint(0, len(items)), ':' + n + ' ' + (self.T.simple_atom() if r.p(0.85) else self.lst([self.T.simple_atom()])))
            names.append(n)
            spec.append(('named', n))
        if r.p(0.25):
            n = fresh()
            items.insert(r.randint(0, len(items)), '&' + n)
            names.append(n)
            spec.append(('rest', n))
        if r.p(0.15):
            n = fresh()
            items.insert(r.randint(0, len(items)), '&&' + n)
            names.append(n)
            spec.append(('krest', n))
        self.last_spec = spec
        return items, names

    def defun(self, depth):
        r = self.r
        name = self.new_name()
        params, names = self.params(depth)
        spec = self.last_spec

        def inside():
            for n in names:
                self.vars[n] = 'any'
                self.funs.pop(n, None)
            self.funs.pop(name, None)      # no recursion
            return [self.expr(depth - 1) if r.p(0.6) or not names else self.ref(r.choice(names)) for _ in range(r.randint(0, 4))]
        body = self.branch(inside)
        s = self.lst(['%define', self.lst([name_src(r, name)] + params)] + body)
        self.vars.pop(name, None)
        self.funs[name] = Fn(name, spec, 'any')
        return s

    def args(self, spec, d):
        r = self.r
        pos, named = [], []
        rest = krest = False
        for s in spec or []:
            if s[0] == 'pos':
                if s[1] is None:
                    pos.append(self.lit(d) if r.p(0.6) else self.one(d))
                else:
                    pos.append(self.for_item(s[1]) if s[1].startswith('(') else s[1])
            elif s[0] == 'named':
                if r.p(0.6):
                    named.append(':%s %s' % (s[1], self.lit(d)))
            elif s[0] == 'rest':
                rest = True
            else:
                krest = True
        if rest:
            pos += [self.lit(0) for _ in range(r.size())]
        if krest:
            named += [':%s %s' % (w, self.lit(0)) for w in r.sample(WORDS, r.randint(0, 4))]
        if r.p(0.05):
            x = r.random()
            if x < 0.3:
                pos.append(self.lit(0))
            elif x < 0.6 and pos:
                pos.pop()
            elif x < 0.8:
                named.append(':%s %s' % (r.choice(WORDS), self.lit(0)))
            elif named:
                named.append(r.choice(named))
        r.shuffle(named)
        out = pos
        for n in named:
            out.insert(r.randint(0, len(out)), n)
        return out

    def one(self, d):
        """Exactly one node of any kind."""
        return self.listy(d, False) if self.r.p(0.5) else self.lit(d)

    def match(self, d, want):
        r = self.r
        pats = [self.pattern(2) for _ in range(r.randint(0, 3))]
        target = r.choice(pats)[0] if pats and r.p(0.8) else None
        val = self.for_item(target) if target else self.one(d)
        branches = []
        for p, names in pats:
            if r.p(0.3):
                p, names = self.T.simple_atom(), []
                if p[0] not in '"+-0123456789':
                    names = [p]

            def inside():
                for n in names:
                    self.vars[n] = 'lit' if want == 'lit' else 'any'
                return [self.lit(d)] if want == 'lit' else self.many(d, r.randint(0, 2))
            branches.append(self.lst([p] + self.branch(inside)))
        if want == 'lit' or r.p(0.5):
            branches.append(self.lst(['other', self.atom()]))
        return self.lst(['%match', val] + branches)

    def broken(self, d):
        """Something that is probably an error."""
        r = self.r
        x = r.random()
        if x < 0.2:
            return self.ref(self.T.word() + '?')
        if x < 0.4:
            return self.lst(['%' + r.choice(BUILTIN_NAMES[:8] + BUILTIN_NAMES[17:])] + [self.expr(0) for _ in range(r.randint(0, 3))])
        if x < 0.6 and self.funs:
            f = r.choice(list(self.funs.values()))
            return self.lst([self.ref(f.name)] + [self.atom() for _ in range(r.randint(0, 3))])
        if x < 0.8:
            return self.T.kw_src() + ' ' + self.lst(['%do'])
        return self.lst(['%' + r.choice(BUILTIN_NAMES), self.lst([]), self.T.kw_src() + ' ' + self.atom()])

    def program(self, n=None, depth=4):
        r = self.r
        self.left = r.choice([12, 30, 60, 120])
        n = r.randint(1, 8) if n is None else n
        parts = [self.expr(depth) for _ in range(n)]
        lead = r.choice(['', '', '', '\n', '; start\n', ' ']) if r.p(0.3) else ''
        tail = r.choice(['', '\n', ' ', '\n; end', '\n\n']) if r.p(0.4) else ''
        return lead + juxtapose(r, self.T, parts) + tail


def mutate(r, src):
    """Damage a source text at the level of characters."""
    if not src:
        return r.choice(['(', ')', '"', ':', '\\', ';'])
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        i = r.randrange(len(src) + 1)
        x = r.random()
        if x < 0.12:
            kws = list(re.finditer(r'(?<=[\s(]):[^\s()":\\]+(\s+)("[^"\\]*"|[^\s()"\\]+)(?=[\s)])', src))
            if kws:
                m = r.choice(kws)
                src = src[:m.start(2)] + src[m.end(2):]
            continue
        if x < 0.35:
            j = min(len(src), i + r.choice([1, 1, 1, 2, 5]))
            src = src[:i] + src[j:]
        elif x < 0.75:
            src = src[:i] + r.choice(['(', ')', '"', '\\', ':', ';', '%', ' ', '\n', '"""', '\\x4', '\\u{110000}', '\\"', '&', '&&', ':k', '()', 'é',
                                      '\t', '\r', '\u00a0', '日', '\u0301', '\\\n', '0', '-', '+']) + src[i:]
        elif x < 0.9:
            j = r.randrange(len(src) + 1)
            a, b = min(i, j), max(i, j)
            b = min(b, a + 40)
            src = src[:b] + src[a:b] + src[b:]
        else:
            src = src[:i]
        if not src:
            break
    return src

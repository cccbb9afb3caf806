"""C16 data formats, C17 includes and embeds, C19 dates, C20 globs, C21 markdown."""
from .base import *
import ctypes, datetime, html as htmllib, time
from fractions import Fraction

BARE = re.compile(r'[A-Za-z0-9_-]+\Z')


def uniq_probe(r, T, path, neg=True):
    """Source that shows the value of a variable, or that there is none."""
    v = name_src(r, path, 'k')
    shown = r.choice(['%%%s', '(p %%%s)', '(p  (q %%%s))'] if r.p(0.5) else ['(p %%%s)']) % v
    return '(%%ifdef %s %s%s)' % (str_src(r, path, False), shown, ' "no %d"' % r.randint(0, 9) if neg else '')


# ------------------------------------------------------------------ data

def rand_key(r, T):
    d = gen.dictionary()
    if d.fresh and r.p(0.1):
        return r.choice(d.fresh)
    x = r.random()
    if x < 0.7:
        return r.choice('a b c d title name list x y'.split())
    if x < 0.85:
        return T.word()
    return r.choice(['a b', 'é', '日', '0', '1', '10', 'a/b', 'a.b', 'A', 'null', 'true', '-', 'a:b', '#k', "it's", '"q"', 'x\ny', '', ' ', '%v', '@', 'a-b', '~', '..', '/'])


def rand_scalar(r, T):
    x = r.random()
    if x < 0.35:
        return T.word()
    if x < 0.41:
        return ''
    if x < 0.55:
        return r.choice(['1', '0', '-3', '1.50', '1e5', 'true', 'false', 'null', '~', 'yes', 'NaN', '.inf', '0x1F', '2001-12-14', '1_000', '+1', '.5', '007', 'No', 'é'])
    return T.text(r.p(0.1))


def rand_data(r, T, depth):
    x = r.random()
    if depth <= 0 or x < 0.35:
        return ['s', rand_scalar(r, T)]
    n = r.size(r.p(0.3))
    if x < 0.7:
        ks, out = set(), []
        for _ in range(n):
            k = rand_key(r, T)
            if k in ks and not r.p(0.05):
                k += str(len(ks))
            ks.add(k)
            out.append([k, rand_data(r, T, depth - 1)])
        return ['m', out]
    return ['q', [rand_data(r, T, depth - 1) for _ in range(n)]]


def paths(d, sep, prefix=()):
    out = []
    if d[0] == 'm':
        items = [(k, v) for k, v in d[1]]
    elif d[0] == 'q':
        items = [(str(i), v) for i, v in enumerate(d[1])]
    else:
        return out
    for k, v in items:
        out.append(sep.join(prefix + (k,)))
        out += paths(v, sep, prefix + (k,))
    return out


PLAIN = re.compile(r'(?:[A-Za-zéλж日.0-9_+~-][A-Za-z0-9éλж日_.+/-]*)(?: [A-Za-z0-9é_.+/-]+)*\Z')


class Yaml:
    """Writes data as YAML in random styles."""

    def __init__(self, r):
        self.r = r

    def dq(self, v):
        r, out = self.r, []
        for c in v:
            n = ord(c)
            if c in '"\\':
                out.append('\\' + c)
            elif c in '\n\t\r\0\x07\x08\x0b\x0c\x1b' and r.p(0.7):
                out.append({'\n': '\\n', '\t': '\\t', '\r': '\\r', '\0': '\\0', '\x07': '\\a', '\x08': '\\b', '\x0b': '\\v', '\x0c': '\\f', '\x1b': '\\e'}[c])
            elif n < 32 or 0x7f <= n < 0xa1 or c in '\u2028\u2029\ufeff\u200b\u0085' or r.p(0.02):
                out.append('\\x%02x' % n if n < 256 and r.p(0.5) else '\\u%04x' % n if n < 65536 else '\\U%08x' % n)
            elif c == '/' and r.p(0.1):
                out.append('\\/')
            else:
                out.append(c)
        return '"' + ''.join(out) + '"'

    def printable(self, v):
        return all(32 <= ord(c) < 127 or ord(c) >= 0xa1 and c not in '\u2028\u2029\ufeff\u200b' for c in v)

    def scalar(self, v, block=None, key=False):
        """block: the indentation for a block literal, when one is allowed."""
        r = self.r
        x = r.random()
        # (yaml-rust2 rejects `a -,` in a flow.)
        if PLAIN.match(v) and not re.match(r'(-|---|\.\.\.)( |\Z)', v) and not v.endswith('-') and not v.startswith(('--', '..')) and x < 0.7:
            return v
        if self.printable(v) and x < 0.85:
            return "'" + v.replace("'", "''") + "'"
        if block is not None and v and x < 0.95:
            body = v[:-1] if v.endswith('\n') else v
            lines = body.split('\n')
            if all(self.printable(l) and (l == '' or l.strip() == l) for l in lines) and lines[0] and lines[-1]:
                return '|' + ('' if v.endswith('\n') else '-') + '\n' + '\n'.join((block + l if l else l) for l in lines)
        if not v and x < 0.9 and not key:
            return "''"
        return self.dq(v)

    def flow(self, d, json=False):
        r = self.r
        sp = lambda: r.choice(['', ' ', ' ', '  ']) if not json else r.choice(['', ' '])
        if d[0] == 's':
            return self.jscalar(d[1]) if json else self.scalar(d[1])
        parts = []
        for it in d[1]:
            if d[0] == 'm':
                k = self.dq(it[0]) if json else self.scalar(it[0], key=True)
                if it[1] == ['s', ''] and not json and r.p(0.4):
                    parts.append(k + r.choice([': ', '']))        # no value at all
                    continue
                v = self.flow(it[1], json)
                colon = ':' + (sp() if json else ' ')
                parts.append(k + colon + v)
            else:
                parts.append(self.flow(it, json))
        a, b = '{}' if d[0] == 'm' else '[]'
        s = a + sp()
        for i, p in enumerate(parts):
            s += (',' + sp() if i else '') + p
        if parts and not json and r.p(0.1):
            s += ','
        return s + sp() + b

    def jscalar(self, v):
        if re.fullmatch(r'-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?|true|false|null', v) and self.r.p(0.8):
            return v
        out = []
        for c in v:
            n = ord(c)
            if c in '"\\':
                out.append('\\' + c)
            elif c in '\n\t\r\b\f':
                out.append({'\n': '\\n', '\t': '\\t', '\r': '\\r', '\b': '\\b', '\f': '\\f'}[c])
            elif n < 32 or 0x7f <= n < 0xa1 or c in '\u2028\u2029\ufeff\u200b' or (self.r.p(0.03) and n < 0xd800):
                out.append('\\u%04x' % n)
            else:
                out.append(c)
        return '"' + ''.join(out) + '"'

    def json(self, d, pretty, ind=''):
        if d[0] == 's':
            return self.jscalar(d[1])
        a, b = '{}' if d[0] == 'm' else '[]'
        if not pretty or not d[1]:
            items = [self.jq(it[0]) + ': ' + self.json(it[1], False) if d[0] == 'm' else self.json(it, False) for it in d[1]]
            return a + self.r.choice([', ', ','] if pretty else [',', ', ']).join(items) + b
        ni = ind + '  '
        items = [ni + (self.jq(it[0]) + ': ' + self.json(it[1], True, ni) if d[0] == 'm' else self.json(it, True, ni)) for it in d[1]]
        return a + '\n' + ',\n'.join(items) + '\n' + ind + b

    def jq(self, k):
        old, self.r = self.r, _Never
        try:
            return self.jscalar(k)
        finally:
            self.r = old

    def comment(self):
        return self.r.choice(['', '', '', '', '', '', ' # c', '   # a: "b']) if self.comments else ''

    def block(self, d, ind):
        """-> lines of a block collection at indentation `ind` (spaces)."""
        r = self.r
        lines = []
        for it in d[1]:
            v = it[1] if d[0] == 'm' else it
            head = ' ' * ind + (self.scalar(it[0], key=True) + ':' if d[0] == 'm' else '-')
            if r.p(0.05) and self.comments:
                lines.append(r.choice(['', '# note', ' ' * ind + '# - x']))
            if v == ['s', ''] and r.p(0.4):
                lines.append(head + (self.comment() or r.choice(['', '', ' '])))       # no value at all
            elif v[0] == 's':
                step = r.randint(1, 4)
                s = self.scalar(v[1], ' ' * (ind + step))
                if '\n' in s:
                    lines += (head + ' ' + s).split('\n')
                else:
                    lines.append(head + ' ' * r.choice([1, 1, 1, 2]) + s + self.comment())
            elif not v[1] or r.p(0.15):
                lines.append(head + ' ' + self.flow(v) + self.comment())
            elif d[0] == 'q' and r.p(0.6):
                # compact: "- - a" or "- k: v"
                step = r.choice([1, 1, 3])
                sub = self.block(v, ind + 1 + step)
                while sub and not sub[0].strip().startswith(('-', '"', "'")) and (not sub[0].strip() or sub[0].strip().startswith('#')):
                    sub.pop(0)
                sub[0] = head + ' ' * step + sub[0].lstrip(' ')
                lines += sub
            else:
                step = 0 if d[0] == 'm' and v[0] == 'q' and r.p(0.3) else r.randint(1, 4)
                lines.append(head + self.comment())
                lines += self.block(v, ind + step)
        return lines

    def document(self, d):
        r = self.r
        self.comments = r.p(0.3)
        x = r.random()
        if d[0] == 's':
            s = self.scalar(d[1])
        elif x < 0.15 or not d[1]:
            s = self.flow(d)
        else:
            s = '\n'.join(self.block(d, 0))
        if r.p(0.1):
            s = r.choice(['---\n', '%YAML 1.2\n---\n', '# head\n', '\n\n', '---  # start\n']) + s
        return s

    def text(self, d):
        s = self.document(d)
        r = self.r
        if d[0] != 's' and r.p(0.05) or r.p(0.4):
            s += '\n'
        if s.endswith('\n') and r.p(0.1):
            s += r.choice(['...\n', '# end\n', '\n'])
        return s


class _No:
    def p(self, x):
        return False

    def choice(self, xs):
        return xs[0]


_Never = _No()

BAD_YAML = ['[', '{', '[a', '{a: b', '"abc', "'abc", 'a: b: c', 'a: [', ']', '}', 'a: ]', '@x', '`x', 'a: "b" c', '- a\nb: c', 'a: b\n c: d', '[a, , b]', '"\\q"', 'a: *k', '- *x', '? [x]\n: y', '{[a]: b}', '"a" "b"', '[a]]', '{"a": 1}}',
            '{"a": 1} {"b": 2}', '[a] b', '- [b\n- c', 'a: {b: c\nd: e', "a: 'b' 'c'", '{"a": "b}', '[1, 2', '? {a: b}\n: c', 'k: &a v\nl: *a', '&a x: *b', '"\\u12"', '"\\xg1"', 'a: b\n- c', '{a: b]', '[a: b}', '%x y\na', 'a\n---\n]', 'x: [1]\n---\ny: [']


# ------------------------------------------------------------------ TOML

class Toml:
    def __init__(self, r, T):
        self.r, self.T = r, T

    def key(self, k):
        r = self.r
        if BARE.match(k) and r.p(0.8):
            return k
        if r.p(0.3) and "'" not in k and all(ord(c) >= 32 and c != '\x7f' for c in k):
            return "'" + k + "'"
        return self.basic(k)

    def basic(self, v):
        out = []
        for c in v:
            n = ord(c)
            if c in '"\\':
                out.append('\\' + c)
            elif c in '\n\t\r\b\f':
                out.append({'\n': '\\n', '\t': '\\t', '\r': '\\r', '\b': '\\b', '\f': '\\f'}[c])
            elif n < 32 or n == 127 or self.r.p(0.03):
                out.append('\\u%04x' % n if n < 65536 else '\\U%08x' % n)
            else:
                out.append(c)
        return '"' + ''.join(out) + '"'

    def string(self, v, multi=True):
        r = self.r
        x = r.random()
        plain = all(ord(c) >= 32 and c != '\x7f' or c == '\t' for c in v)
        if x < 0.25 and plain and "'" not in v:
            return "'" + v + "'"
        lines = all(ord(c) >= 32 and c != '\x7f' or c in '\t\n' for c in v)
        if x < 0.4 and lines and "'" not in v and multi:
            return "'''" + r.choice(['\n', '\n' if v.startswith('\n') else '']) + v + "'''"
        if x < 0.55 and lines and '"' not in v and multi:
            return '"""' + r.choice(['\n', '\n' if v.startswith('\n') else '']) + v.replace('\\', '\\\\') + '"""'
        return self.basic(v)

    def value(self, depth, multi=True):
        r = self.r
        x = r.random()
        if x < 0.3:
            return self.string(rand_scalar(r, self.T), multi)
        if x < 0.5:
            return r.choice([str(r.randint(-100, 100)), str(r.randint(-2 ** 63, 2 ** 63 - 1)), '0x%x' % r.randint(0, 99999), '0o%o' % r.randint(0, 999), '0b%s' % bin(r.randint(0, 99))[2:], '1_000_000', '+17', '-0', '0', '9223372036854775807',
                             '-9223372036854775808', '0xDEAD_beef'])
        if x < 0.62:
            return r.choice(['%r' % round(r.uniform(-100, 100), r.randint(0, 6)), '1.0', '-0.0', '1e10', '5e+22', '1e-7', '6.626e-34', '-2E-2', 'inf', '-inf', '+inf', 'nan', '9_224.5', '3.14', '0.1', '1e300', '1.5e-300', '100.0', '12345678901234567.0', '2.5e0'])
        if x < 0.7:
            return r.choice(['true', 'false'])
        if x < 0.8:
            dt = '%04d-%02d-%02d' % (r.randint(1, 9999), r.randint(1, 12), r.randint(1, 28))
            tm = '%02d:%02d:%02d' % (r.randint(0, 23), r.randint(0, 59), r.randint(0, 59)) + r.choice(['', '', '.5', '.25', '.123456', '.000001', '.100', '.999999'])
            return r.choice([dt, tm, dt + 'T' + tm, dt + ' ' + tm, dt + 'T' + tm + 'Z', dt + 't' + tm + 'z', dt + ' ' + tm + '+05:30', dt + 'T' + tm + '-08:00', dt + 'T' + tm + '+14:00', dt + 'T' + tm + '-00:30'])
        if depth <= 0:
            return '0'
        n = r.size(r.p(0.2))
        if x < 0.92:
            items = [self.value(depth - 1, multi) for _ in range(n)]
            if multi and r.p(0.25) and items:
                return '[\n' + ''.join('  %s,%s\n' % (i, r.choice(['', ' # c, ]'])) for i in items) + ']'
            return '[' + r.choice(['', ' ']) + r.choice([', ', ',']).join(items) + r.choice(['', ' ', ', ' if items else '']) + ']'
        ks = []
        for _ in range(n):
            k = rand_key(r, self.T)
            if k not in ks:
                ks.append(k)
        return '{' + ', '.join('%s = %s' % (self.key(k), self.value(depth - 1, False)) for k in ks) + '}'

    def table(self, n, depth):
        r = self.r
        out, ks = [], set()
        for _ in range(n):
            k = rand_key(r, self.T)
            if k in ks:
                continue
            ks.add(k)
            if r.p(0.08):
                sub = [rand_key(r, self.T) for _ in range(2)]
                for s in dict.fromkeys(sub):
                    out.append('%s%s%s = %s' % (self.key(k), r.choice(['.', ' . ']), self.key(s), self.value(depth - 1)))
            else:
                out.append('%s%s=%s%s%s' % (self.key(k), r.choice(['', ' ', ' ']), r.choice(['', ' ', ' ', '  ']), self.value(depth), r.choice([''] * 8 + [' # x = 1', '\t# "'])))
            if r.p(0.05):
                out.append(r.choice(['', '# c', '  # [t]']))
        return out, ks

    def text(self):
        r = self.r
        out, ks = self.table(r.size(r.p(0.2)), 2)
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            k = rand_key(r, self.T)
            if k in ks:
                continue
            ks.add(k)
            x = r.random()
            if x < 0.4:
                out.append('[%s]' % self.key(k))
                out += self.table(r.size(), 1)[0]
            elif x < 0.6:
                out.append('[%s.%s]' % (self.key(k), self.key(rand_key(r, self.T))))
                out += self.table(r.size(), 1)[0]
            else:
                for _ in range(r.choice([1, 2, 3, r.size(True)])):
                    out.append('[[%s]]' % self.key(k))
                    sub, sk = self.table(r.choice([0, 1, 2, 3]), 1)
                    out += sub
                    if r.p(0.15):
                        z = 'zz'
                        out.append('[%s.%s]' % (self.key(k), z))
                        out += self.table(2, 1)[0]
        s = '\n'.join(out)
        return s + r.choice(['', '\n'])


BAD_TOML = ['a', 'a =', '= 1', 'a = b', 'a = 1 2', '[a', 'a = [1', 'a = "x', 'a = 1\na = 2', '[a]\n[a]', 'a = {b = 1', 'a = 01', 'a = 1__0', 'a = "\\q"', 'a b = 1', 'a = 1\n[a]', 'a.b = 1\na = 2', "a = 'x", 'a = """x', '[[a]]\n[a]', 'a = {b = 1,\nc = 2}',
            'a = 2001-13-01', 'a = tru', 'a = 1 b = 2', '[a]]', 'a = 0x', ']', '"', 'a = +', 'a = 9223372036854775808', 'a = [1 2]', '[]', 'a = .5', 'a = "\n"']


class C16(ProgramCheck):
    id = 'C16'
    technique = 'runtime monitoring: expansion of %yaml, %json and %toml on documents serialised from known data (TOML also re-read by tomllib) compared with that data, and every defined variable probed'
    rule = 'random data serialised in random YAML, JSON and TOML styles, plus malformed documents; each defined path and some undefined ones probed; non-trivial: any document'

    def corpus(self):
        out = []
        for t in BAD_YAML:
            out.append({'src': '(%%yaml %s)' % self.quote(t), 'yaml': {t: 'error'}})
            out.append({'src': '(%%json %s)' % self.quote(t), 'yaml': {t: 'error'}})
        for t in BAD_TOML:
            out.append({'src': '(%%toml %s)' % self.quote(t), 'yaml': {t: 'error'}})
        S = lambda x: ['s', x]
        for t, d in [('', None), ('a', S('a')), ('a: b', ['m', [['a', S('b')]]]), ('- x\n- y', ['q', [S('x'), S('y')]]), ('{}', ['m', []]), ('[]', ['q', []]), ('# c\n', None), ('[[], [[]]]', ['q', [['q', []], ['q', [['q', []]]]]]),
                     ('a: b\n---\nc: d', ['docs', [['m', [['a', S('b')]]], ['m', [['c', S('d')]]]]]), ('--- a\n--- b\n--- [c]', ['docs', [S('a'), S('b'), ['q', [S('c')]]]]), ('a: b\na: c', ['m', [['a', S('b')], ['a', S('c')]]]),
                     ('a:\nb: c\nd:', ['m', [['a', S('')], ['b', S('c')], ['d', S('')]]]), ('{a, b: c, d: }', ['m', [['a', S('')], ['b', S('c')], ['d', S('')]]]), ('-\n- b\n-', ['q', [S(''), S('b'), S('')]]), ('? a\n? b\n: c', ['m', [['a', S('')], ['b', S('c')]]]),
                     ('a: ~\nb: null', ['m', [['a', S('~')], ['b', S('null')]]]),
                     ('a: &k v', ['m', [['a', S('v')]]]), ('a: !!str 1', ['m', [['a', S('1')]]]), ('? a\n: b', ['m', [['a', S('b')]]]), ('a: >\n  x\n  y\n', ['m', [['a', S('x y\n')]]]), ('a:\n- b\n-  c: d\n   e: f\n- - g\n', ['m', [['a', ['q', [S('b'), ['m', [['c', S('d')], ['e', S('f')]]], ['q', [S('g')]]]]]]]),
                     ('{"a": {"b": [1, {"c": null}, []], "d": {}}, "e": "f"}', ['m', [['a', ['m', [['b', ['q', [S('1'), ['m', [['c', S('null')]]], ['q', []]]]], ['d', ['m', []]]]]], ['e', S('f')]]])]:
            for sep in ['', ' :separator .', ' :separator ""', ' :separator "::"']:
                s = {'': '/', ' :separator .': '.', ' :separator ""': '', ' :separator "::"': '::'}[sep]
                for name in ('yaml', 'json'):
                    r = Rng(t + sep)
                    ps = [p for dd in (d[1] if d and d[0] == 'docs' else [d] if d else []) for p in paths(dd, s)]
                    out.append({'src': '(%%%s %s%s) ' % (name, self.quote(t), sep) + ' '.join(uniq_probe(r, None, p) for p in ps if p), 'yaml': {t: d}})
                    out.append({'src': '(x  (%%%s%s %s)y)' % (name, sep, self.quote(t)), 'yaml': {t: d}})
        for t in ['', 'a = 1', 'b = 1\na = 2\n', 'a = []\nb = {}\n', '[t]\nx = [[], [1, "2"], {k = 1.0}]\n', '[[z]]\nb = 1\n[[z]]\nb = 2\na = 3\n', 'd = 1979-05-27T07:32:00Z\ne = 07:32:00.5\nf = 1979-05-27\ng = 1979-05-27 07:32:00-08:00']:
            out.append({'src': '(%%toml %s) (%%ifdef a %%a) (%%ifdef t/x/1/0 (p %%t/x/1/0)) (%%ifdef z/1/a (p %%z/1/a)) (%%ifdef z (p %%z))' % self.quote(t)})
            out.append({'src': '(p (%%toml %s :separator "."))(%%ifdef t.x.1.0 %%t.x.1.0 none)' % self.quote(t)})
        return out

    def quote(self, t):
        return str_src(Rng(t), t, False)

    def gen(self, r):
        T = Texts(r, r.choice([0, 0.1, 0.3]))
        d = gen.dictionary()
        sep = r.choice(['/', '/', '/', '.', '', '::', '-', '/', ' ', 'é', '0'] + d.fresh[:20])
        table = {}
        probes = []
        kind = r.choice(['yaml', 'yaml', 'json', 'toml'])
        if kind == 'toml':
            t = Toml(r, T).text()
            if r.p(0.08):
                t = mutate(r, t)
            import tomllib
            try:
                data = self.toml_paths(tomllib.loads(t), sep)
            except (ValueError, RecursionError):
                data = []
            probes = data
            arg = t
        else:
            data = rand_data(r, T, r.choice([1, 2, 3, 4]))
            Y = Yaml(r)
            if kind == 'json':
                arg = r.choice([lambda: Y.json(data, r.p(0.5)), lambda: Y.flow(data, True), lambda: Y.text(data)])()
                if r.p(0.2) and arg.startswith(('{', '[')):
                    arg = r.choice([' ', '\n', '']) + arg + r.choice(['\n', ' '])
            else:
                arg = Y.text(data)
                if r.p(0.08):
                    more = rand_data(r, T, 1)
                    if not arg.endswith('\n'):
                        arg += '\n'
                    arg += '---' + ('\n' if more[0] != 's' else ' ')
                    arg += '\n'.join(Y.block(more, 0)) if more[0] != 's' and more[1] else Y.flow(more)
                    data = ['docs', [data, more]]
            if r.p(0.02):
                arg = r.choice(BAD_YAML)
                data = 'error'
            table[arg] = data
            if data == 'error':
                probes = []
            else:
                probes = [p for x in (data[1] if data[0] == 'docs' else [data]) for p in paths(x, sep)]
        call = [str_src(r, arg)]
        if sep != '/' or r.p(0.1):
            call.insert(r.randint(0, 1), ':separator ' + str_src(r, sep))
        call = wrap(r, T, ['%' + kind] + call)
        x = r.random()
        if x < 0.15:
            call = '(p %s)' % call
        elif x < 0.22:
            call = '(%%do a %s)' % call
        elif x < 0.27:
            call = '(%%define (f) %s)(%%f)' % call
        r.shuffle(probes)
        probes = [p for p in probes if p][:25]
        if r.p(0.5):
            probes += [r.choice(['0', '1', 'a', 'a/0', 'x', 'zz', 'a.b', 'a/b', '/', 'a/'])]
            if probes[0]:
                probes += [probes[0] + sep + r.choice(['0', 'a', '1'])]
        parts = [call] + [uniq_probe(r, T, p) for p in probes]
        return {'src': juxtapose(r, T, parts), 'yaml': table}

    def toml_paths(self, v, sep, prefix=()):
        out = []
        items = list(v.items()) if isinstance(v, dict) else [(str(i), x) for i, x in enumerate(v)] if isinstance(v, list) else []
        for k, x in items:
            out.append(sep.join(prefix + (k,)))
            out += self.toml_paths(x, sep, prefix + (k,))
        return out

    def shrinkable(self, case):
        return None

    def judge(self, case):
        f = super().judge(case)
        n = case['src'].count('%ifdef')
        self.probes = getattr(self, 'probes', 0) + n
        return f

    def extra_evidence(self):
        return {'variables_probed': getattr(self, 'probes', 0)}


# ------------------------------------------------------------------ files

class C17(ProgramCheck):
    id = 'C17'
    technique = 'runtime monitoring: %include and %embed over generated directory trees and include paths compared with a reference search and expansion'
    rule = 'random trees of files with overlapping names in the current and include directories, nested includes, unreadable and malformed files; non-trivial: an include or embed resolved or failed'
    NAMES = ['a', 'b', 'a.sex', 'a.b', 'a.b.sex', 'a.sex.sex', 'sub/a', 'sub/a.sex', 'sub/b', 'sub/deep/c.sex', 'é.sex', 'n n.sex', 'page.html', 'x.md', '.h', '.h.sex', 'c', 'c.sex']
    DIRS = ['', 'i1/', 'i2/', 'i1/sub/', 'i3/']
    INC = ['$/i1', '$/i2', 'i1', 'i2', '$/i1/', 'missing', '$/i3', 'i1/sub', '.', '$', './i2', 'i3/../i1']

    def corpus(self):
        out = []
        for f in ('a', 'a.sex'):
            for where in self.DIRS[:3]:
                for inc in ([], ['$/i1'], ['$/i2', '$/i1'], ['i1', 'i2']):
                    for call in ('(%include a)', '(%include "a.sex")', '(%embed a)', '(%embed a.sex)', 'x  (%include a) y (%embed a.sex)'):
                        out.append({'src': call, 'files': {where + f: 'one (two "three")'}, 'inc': inc})
        full = {d + n: 'file %s%s (%%define from "%s%s")' % (d.replace('/', '-'), n.replace('/', '-').replace(' ', '_'), d, n) for d in self.DIRS for n in self.NAMES if not (d == 'i1/' and n.startswith('sub/'))}
        for inc in ([], ['$/i1', '$/i2'], ['i2', 'i1']):
            for n in self.NAMES:
                out.append({'src': '(%%include "%s") (%%ifdef from %%from)(%%embed "%s")' % (n, n), 'files': full, 'inc': inc})
                for miss in range(1, 5):
                    rest = {k: v for k, v in full.items() if k.split('/')[0] not in [d.strip('/') for d in self.DIRS[1:miss]] and (miss < 2 or '/' in k)}
                    out.append({'src': '(p (%%include "%s")) (%%ifdef from %%from)' % n, 'files': rest, 'inc': inc})
        for bad in ['(', 'a)', '"x', ':k', '(%nosuch)', '(%include zz)']:
            out.append({'src': 'x (%include a)', 'files': {'a': bad}})
            out.append({'src': 'x (%include a)', 'files': {'a': bad, 'i1/a': 'ok'}, 'inc': ['i1']})
            out.append({'src': 'x (%include a)', 'files': {'a': bad, 'a.sex': 'ok'}})
            out.append({'src': 'x (%embed a)', 'files': {'a': bad}})
        for t in ['', ' ', 'a', ' a', '\n\na\n', 'a ', '; c', '\ufeffa', 'a\r\nb\r\n', '\0', '"s"', '(%define x 1)', '(%define x 1) y', '(%do)', '(%strip  a)', '(%list) b', ' (%define x 2)  z']:
            out.append({'src': 'p   (%include a)q (%ifdef x %x)', 'files': {'a': t}})
            out.append({'src': 'p   (%embed a)q', 'files': {'a': t}})
            out.append({'src': '(p(%include a))', 'files': {'a': t}})
        for args in ['', 'a b', '()', ':k a', '(x)', '"a" ', '(%list)', '(%do a)', '(%concat "a" ".sex")', '%v', '1']:
            for m in ('include', 'embed'):
                out.append({'src': '(%%define v a)(%%%s %s)' % (m, args), 'files': {'a': 'A', 'a.sex': 'B', '1.sex': 'N'}})
        blanks = {'a': 'A', 'a ': 'B', ' a': 'C', ' a ': 'D', 'a\t': 'E', 'a\n': 'F', 'a .sex': 'G', 'b ': 'H', ' c': 'I', 'd.sex': 'J', 'A': 'K', 'é': 'L', 'e\u0301': 'M', 'a.sex ': 'N', 'a.SEX': 'O', 'a. sex': 'P', '~': 'Q', '$HOME': 'R', 'a%20b': 'S', 'a\\b': 'T', '-': 'U', '*': 'V', 'a;b': 'W'}
        for n in list(blanks) + ['b', 'c', 'd ', ' d', 'd\n', 'd', 'B ', 'a  ', '  a', 'D', 'É', 'a.sex']:
            for m in ('include', 'embed'):
                for inc in ([], ['i1']):
                    for pre in ('', 'i1/'):
                        lit = n.replace('\\', '\\\\').replace('\n', '\\n').replace('\t', '\\t')
                        out.append({'src': 'x (%%%s "%s")' % (m, lit), 'files': {pre + k: v for k, v in blanks.items()}, 'inc': inc})
        out.append({'src': '(%include a) (%include "$ROOT/i1/a") (%embed "$ROOT/i1/a")', 'files': {'a': '1', 'i1/a': '2'}, 'inc': ['i1']})
        out.append({'src': '(%include a)', 'files': {'a': [0xff, 0xfe], 'a.sex': 'S', 'i1/a': 'I'}, 'inc': ['i1']})
        out.append({'src': '(%include a)', 'files': {'a': [0xff, 0xfe], 'i1/a': 'I'}, 'inc': ['i1']})
        out.append({'src': '(%embed a)', 'files': {'a': [0xff, 0xfe], 'i1/a': 'I'}, 'inc': ['i1']})
        out.append({'src': '(%embed a)', 'files': {'a': None, 'i1/a': 'I'}, 'inc': ['i1']})
        out.append({'src': '(%include a)', 'files': {'a': None, 'a.sex': 'S', 'i1/a': 'I'}, 'inc': ['i1']})
        return out

    def content(self, r, T, names, depth):
        x = r.random()
        if x < 0.06:
            return r.choice(['', ' ', '\n', '; only\n', '\ufeffbom'])
        if x < 0.10:
            return r.choice(['(', 'a)', '"x', ':k', '(%nosuch)'])
        if x < 0.13:
            return [0xff, 0x61]
        if x < 0.15:
            return None
        parts = []
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            y = r.random()
            if y < 0.25:
                parts.append('(%%define %s %s)' % (r.choice(['x', 'y', 'z']), T.atom()))
            elif y < 0.32:
                parts.append('(%%define (f a) (%s %%a %s))' % (r.choice(['u', 'v', 'w']), r.choice(['', '%x'])) if r.p(0.5) else '(%define (f a) (w %a))')
            elif y < 0.45 and depth > 0:
                parts.append('(%%%s %s)' % (r.choice(['include', 'include', 'embed']), str_src(r, r.choice(names), False)))
            elif y < 0.55:
                parts.append('(%ifdef x (got %x))')
            elif y < 0.6:
                parts.append('(%ifdef f (%f 1))')
            else:
                parts.append(gen.tree_src(r, T, 2))
        return r.choice(['', '', ' ', '\n']) + juxtapose(r, T, parts) + r.choice(['', '\n'])

    def gen(self, r):
        T = Texts(r, 0.05)
        d = gen.dictionary()
        pool = list(self.NAMES)
        for f in d.fresh:
            if f.startswith('.') and re.fullmatch(r'\.[a-z]{1,8}', f):
                pool += ['a' + f, 'sub/b' + f]
        names = [r.choice(pool) for _ in range(r.choice([1, 2, 2, 3]))]
        # nested includes only go to names later in the list, so that no file includes itself
        files = {}
        for i, n in enumerate(names):
            cand = {n} if r.p(0.6) else {n, n + '.sex'}
            if n.endswith('.sex') and r.p(0.5):
                cand.add(n[:-4])
            for c in cand:
                for dd in r.sample(self.DIRS, r.choice([1, 1, 2, 3, 5])):
                    later = [m for m in names[i + 1:] if m != n and m + '.sex' != n and n + '.sex' != m and not m.startswith(n)]
                    files[dd + c] = self.content(r, T, later or ['zz'], 1 if later else 0)
        ok = {}
        for k, v in files.items():
            if not any(o != k and (o.startswith(k + '/') or k.startswith(o + '/')) for o in files):
                ok[k] = v
        inc = [r.choice(self.INC) for _ in range(r.choice([0, 1, 1, 2, 3, 4]))]
        parts = []
        for _ in range(r.choice([1, 1, 2, 3])):
            n = r.choice(names + [r.choice(names), r.choice(pool)])
            x = r.random()
            if x < 0.1:
                n = '$ROOT/' + r.choice(self.DIRS) + n
            elif x < 0.18:
                n = r.choice(['./', 'i1/', 'i2/../', 'sub/../']) + n
            elif x < 0.22 and n.endswith('.sex'):
                n = n[:-4]
            call = wrap(r, T, ['%' + r.choice(['include', 'include', 'include', 'embed']), str_src(r, n, False) if r.p(0.7) or ' ' in n else name_src(r, n)])
            x = r.random()
            if x < 0.15:
                call = '(w %s)' % call
            elif x < 0.22:
                call = '(%%do %s)' % call
            elif x < 0.27:
                call = '(%%ifdef x %s %s)' % (call, call)
            parts.append(call)
            if r.p(0.4):
                parts.append(r.choice(['(%ifdef x (p %x))', '(%ifdef f (%f a))', '(%define x main)', '(%ifdef y %y)']))
        return {'src': juxtapose(r, T, parts, 0.2), 'files': ok, 'inc': inc}

    def shrinkable(self, case):
        return None

    def judge(self, case):
        root = self.dir_for(case)
        exp = self.expected(case, root)
        got = self.ask(self.request(case, root))
        self.compare(case, exp, got)
        return self.features(case, exp) + ['%d include directories' % len(case.get('inc', [])), '%d files read' % (len(self.w.srcs) - 1)]

    def nontrivial(self, case, feats):
        return True


# ------------------------------------------------------------------ dates

ZONES = [('UTC', 0), ('<+0530>-5:30', 19800), ('<-0330>3:30', -12600), ('<+1245>-12:45', 45900), ('EST5', -18000)]
DIRECTIVES = ['%Y', '%m', '%d', '%H', '%M', '%S', '%y', '%C', '%e', '%j', '%B', '%b', '%h', '%A', '%a', '%I', '%l', '%k', '%p', '%P', '%u', '%w', '%s', '%z', '%:z', '%F', '%T', '%R', '%D', '%%', '%n', '%t', '%U', '%W', '%G', '%V']
LO, HI = -62167219200, 253402300799


class C19(ProgramCheck):
    id = 'C19'
    technique = 'runtime monitoring: %date and %timestamp compared with an independent calendar, composed with each other, run under several local time zones, and bracketed by the clock when no time is given'
    rule = 'random and boundary timestamps, offsets, formats and date texts, valid and invalid; non-trivial: any call'

    def setup(self, wid):
        super().setup(wid)
        self.zone = ZONES[wid % len(ZONES)]
        self.local = drv.Observer(self.bin['plain'], env={'TZ': self.zone[0]})

    def teardown(self):
        if hasattr(self, 'local'):
            self.local.stop()
        super().teardown()

    def corpus(self):
        out = []
        for t in ['0', '-1', '1', '951782400', '951868799', '1709164800', '-2208988800', '4102444800', '253402300799', '-62167219200', '68169600', '1e3', '1.5', '99999999999999999999', '8210266876799', '8210266876800', '-8334601228801', '9223372036854775807', '+5', '-0']:
            for f in ['%Y-%m-%dT%H:%M:%S%z', '%s', '%A %j %U %W %V %G %u %w', '%d %B %Y %I:%M:%S %p']:
                for z in ['', ' :timezone 0', ' :timezone 5.5', ' :timezone -12', ' :timezone 14', ' :timezone 23.99', ' :timezone -3.25']:
                    out.append({'src': '(%%date "%s" %s%s)' % (f, t, z)})
        for z in ['24', '-24', '23.9999', '0.001', '1e2', 'x', '-', '99999999999', '2147483647', '2147483648', '-2147483649', '596523.2', '596524', '+1', '-0', '0.0002', '.5', '1.', '-0.5', '1.00027', '1.0001389', '-1.0001389', '0.00013888888', '0.00013889', '"5"', '(x)']:
            out.append({'src': '(%%date "%%s %%H:%%M:%%S" 86399 :timezone %s)' % z})
            out.append({'src': '(%%timestamp "%%F %%T" "2001-09-09 01:46:40" :timezone %s)' % z})
        for f in ['%Q', '%', '%-', '%!', '%E', '%:', '%5', '% d', '%4f', '%_', 'é%']:
            out.append({'src': '(%%date "%s" 0)' % f, 'bad_format': 1})
            out.append({'src': '(%%timestamp "%s" "1")' % f, 'bad_format': 2})
        for d in ['2001-02-29 00:00:00', '2000-02-29 00:00:00', '1900-02-29 00:00:00', '2001-13-01 00:00:00', '2001-00-10 00:00:00', '2001-01-00 00:00:00', '2001-01-32 00:00:00', '2001-04-31 00:00:00', '2001-01-01 24:00:00', '2001-01-01 00:60:00',
                  '2001-01-01 00:00:61', 'x', '', '2001-01-01', '2001-01-01 00:00:00 x', '9999-12-31 23:59:59', '0000-01-01 00:00:00', '1970-01-01 00:00:00', '1969-12-31 23:59:59']:
            for z in ['', ' :timezone 2', ' :timezone -9.5']:
                out.append({'src': '(%%timestamp "%%F %%T" "%s"%s)' % (d, z), 'bad_date': d in ('2001-01-01', '2001-01-01 00:00:00 x', '')})
        for d in ['2001-01-01 00:00:00 ', '2001-01-01 00:00:00\\n', '2001-01-01 00:00:00\\t', '2001-01-01 00:00:00  ', '2001-01-01 00:00:00\u00a0', '2001-01-01 00:00:00.', '2001-01-01 00:00:00Z', '2001-01-01 00:00:000', '2001-01-01 00:00:00;']:
            for z in ['', ' :timezone 2', ' :timezone -9.5']:
                out.append({'src': '(%%timestamp "%%F %%T" "%s"%s)' % (d, z), 'bad_date': True})
                out.append({'src': '(%%timestamp "%%s" "%s"%s)' % ('12' + d[19:], z), 'bad_date': True} if not d.endswith('0') else {'src': ''})
        for d in ['1969-12-31 23:59:59.5', '1969-12-31 23:59:58.999999999', '1970-01-01 00:00:00.000001', '1969-12-31 23:59:59', '1900-03-01 12:00:00.250', '0001-01-01 00:00:00.1', '2001-09-09 01:46:40.75']:
            for z in ['+0000', '+0530', '-0330']:
                out.append({'src': '(%%timestamp "%%Y-%%m-%%d %%H:%%M:%%S%%.f %%z" "%s %s")' % (d, z)})
                out.append({'src': '(%%timestamp "%%F %%T%%.f" "%s" :timezone %s)' % (d, z[:3])})
        for z in ['+0000', '+0530', '-0330', '+14:00', '-12:00']:
            out.append({'src': '(%%timestamp "%%Y-%%m-%%d %%H:%%M:%%S %%z" "2001-09-09 01:46:40 %s" :timezone 7)' % z})
        return out

    def secs(self, r):
        x = r.random()
        if x < 0.3:
            return r.randint(-2 ** 31, 2 ** 31)
        if x < 0.5:
            return r.randint(LO + 90000, HI - 90000)
        if x < 0.85:
            # around a boundary: a day, month, year or leap day
            y = r.choice([1970, 2000, 1900, 2100, 1999, 2004, 1972, 1600, 9999, 1, r.randint(1, 9999), r.randint(1890, 2110)])
            m = r.choice([1, 1, 2, 3, 12, r.randint(1, 12)])
            t = model.days_from_civil(y, m, 1) * 86400 + r.choice([0, 0, -1, 1, 86399, -86400, 28 * 86400, 43200, 43199, 3600 * 12, -3600, r.randint(-99999, 99999)])
            return min(max(t, LO + 90000), HI - 90000)
        return r.choice([0, 1, -1, 59, 60, 3599, 3600, 86399, 86400, -86400, -86401, 951782400, 1000000000, 2147483647, -2147483648, 2147483648] + gen.dictionary().fresh_ints or [0])

    def zone_src(self, r):
        x = r.random()
        if x < 0.3:
            return str(r.randint(-12, 14))
        if x < 0.6:
            q = r.randint(-95, 95)
            return '%s%g' % (r.choice(['', '+']) if q >= 0 else '', q / 4)
        if x < 0.75:
            return '%.*f' % (r.choice([1, 2, 3, 4, 5]), r.uniform(-23.9, 23.9))
        if x < 0.85:
            return r.choice(['0', '-0', '0.0', '00', '+0', '5.50', '23', '-23', '23.75', '-23.75', '12', '-12', '24', '-24', '24.5', '100'])
        return '%d.%s' % (r.randint(-11, 12), r.choice(['5', '25', '75', '50', '0166666667', '016666', '00027777', '0002']))

    def fmt(self, r, T):
        d = gen.dictionary()
        out = ''
        for _ in range(r.choice([1, 2, 3, 4, 6, r.size(True)])):
            out += r.choice(DIRECTIVES) + r.choice(['', ' ', '-', '/', ':', ', ', 'T', 'é', ' of ', '%%', T.word().replace('%', '')])
        return out

    def full(self, r):
        return r.choice([f for f in model.TS_FORMATS if f != '%Y-%m-%d %H:%M'])

    def gen(self, r):
        T = Texts(r, 0)
        x = r.random()
        t = str(self.secs(r))
        if r.p(0.03) and not t.startswith('-'):
            t = '+' + t
        z = [':timezone ' + self.zone_src(r)] if r.p(0.8) else []
        if x < 0.40:
            f = self.fmt(r, T) if r.p(0.8) else r.choice(list(model.TS_FORMATS))
            args = [str_src(r, f), t]
        elif x < 0.7:
            # inverse
            f = self.full(r)
            q = str_src(r, f)
            zz = (' ' + z[0]) if z else ''
            inner = '(%%date %s %s%s)' % (q, t, zz)
            other = zz
            if 'z' in f and r.p(0.5):
                other = r.choice(['', ' :timezone ' + self.zone_src(r)])
                if not re.search(r'timezone -?(2[4-9]|100)', other):
                    pass
            return {'src': '(%%timestamp %s %s%s)' % (q, inner, other), 'inverse': t, 'z': z, 'other': other, 'f': f}
        elif x < 0.95:
            f = r.choice(list(model.TS_FORMATS))
            secs = self.secs(r)
            if r.p(0.25) and '%S' in f or r.p(0.25) and '%T' in f:
                # a fraction of a second, which the timestamp leaves out
                g = f.replace('%S', '%S%.f') if '%S' in f else f.replace('%T', '%T%.f')
                part = r.choice(['', '.5', '.500', '.000001', '.999999999', '.25', '.0', '.%0*d' % (3, r.randint(0, 999))])
                if r.p(0.5):
                    secs = r.choice([-1, -2, -86400, -86401, 0, 1, -1000000000, secs])
                try:
                    text = model.strftime(g.replace('%.f', '\0'), secs, r.choice([0, 0, 3600, -5400, 19800])).replace('\0', part)
                except Unsure:
                    raise Skip('text')
                f = g
            elif f == '%s':
                text = str(secs)
            else:
                try:
                    text = model.strftime(f, secs, r.choice([0, 0, 3600, -5400, 19800]))
                except Unsure:
                    raise Skip('text')
                if r.p(0.25):
                    i = r.randrange(len(text))
                    text = text[:i] + r.choice('0123456789') + text[i + 1:]
            bad = False
            if r.p(0.1) and not f[-1:].isspace():
                text += r.choice([' ', '\n', '\t', '  ', '\u00a0'])
                bad = True
            args = [str_src(r, f), str_src(r, text)]
            for a in z:
                args.insert(r.randint(0, len(args)), a)
            return {'src': wrap(r, T, ['%timestamp'] + args), 'bad_date': bad}
        else:
            # now
            zs = self.zone_src(r) if r.p(0.6) else None
            return {'src': '(%%date "%%s|%%Y-%%m-%%d %%H:%%M:%%S"%s)' % (' :timezone ' + zs if zs is not None else ''), 'now': zs if zs is not None else 'local'}
        for a in z:
            args.insert(r.randint(0, len(args)), a)
        return {'src': wrap(r, T, ['%date'] + args)}

    def shrinkable(self, case):
        return None

    def judge(self, case):
        if 'now' in case:
            return self.judge_now(case)
        if 'bad_format' in case or case.get('bad_date'):
            got = self.ask(self.request(case, None))
            if kind_of(got) != 'err':
                raise Bad('%s: expected an error, got %s' % (case['src'], short(got)), 'accepted')
            return ['invalid format or date rejected']
        feats = []
        for obs, off, name in ((self.obs, 0, 'UTC'), (self.local, self.zone[1], self.zone[0])):
            w = self.world(case, None)
            w.local_offset = off
            try:
                exp = self.expected(case, None, w)
            except Skip:
                # strftime outside what the model writes: the inverse still holds
                if 'inverse' not in case:
                    raise
                exp = None
            got = self.ask(self.request(case, None), obs)
            if exp is not None:
                self.compare(case, exp, got)
                feats += self.features(case, exp)
            if 'inverse' in case and kind_of(got) == 'ok':
                v = got['tree'][0][1] if len(got['tree']) == 1 else None
                if v != str(int(case['inverse'])) and (exp is None or exp[0] == 'ok') and self.comparable(case):
                    raise Bad('%s under TZ %s: the timestamp of the date of %s is %s' % (case['src'], name, case['inverse'], v), 'inverse')
                feats.append('inverse')
            feats.append('TZ ' + name)
        return feats

    def comparable(self, case):
        """Does the text determine the time?  Offsets with seconds do not fit in %z."""
        if 'z' not in case['f']:
            return case['other'] == ''.join(' ' + z for z in case['z'])
        if not case['z']:
            return True
        try:
            return Fraction(case['z'][0].split()[1]) * 60 % 1 == 0
        except (ValueError, ZeroDivisionError):
            return False

    def judge_now(self, case):
        obs, off = (self.obs, 0) if case['now'] != 'local' else (self.local, self.zone[1])
        if case['now'] != 'local':
            try:
                off = model.zone_offset(model.Ctx(self.world(case, None)), model.N('n', case['now'], '', model.Site(model.Src('x', ''), 1, 0, 0, 0)))
            except SeamErr:
                off = None
        t0 = int(time.time())
        got = self.ask(self.request(case, None), obs)
        t1 = int(time.time())
        if off is None:
            if kind_of(got) != 'err':
                raise Bad('%s: expected an error, got %s' % (case['src'], short(got)), 'accepted')
            return ['now: invalid offset']
        if kind_of(got) != 'ok':
            raise Bad('%s: %s' % (case['src'], short(got)), 'now')
        s, d = got['tree'][0][1].split('|')
        if not t0 - 1 <= int(s) <= t1 + 1:
            raise Bad('%s: the clock was %d to %d, the date says %s' % (case['src'], t0, t1, s), 'now')
        want = model.strftime('%Y-%m-%d %H:%M:%S', int(s), off)
        if d != want:
            raise Bad('%s: %s is %s at this offset, not %s' % (case['src'], s, want, d), 'now')
        return ['now']

    def nontrivial(self, case, feats):
        return True


# ------------------------------------------------------------------ globs

class PatternError(Exception):
    pass


def component(p):
    """One path component of a pattern -> regex, or None for `**`."""
    if p == '**':
        return None
    if '**' in p:
        raise PatternError()
    out, i = '', 0
    while i < len(p):
        c = p[i]
        if c == '*':
            out += '.*'
        elif c == '?':
            out += '.'
        elif c == '[':
            j = i + 1
            neg = p[j:j + 1] == '!'
            if neg:
                j += 1
            k = p.find(']', j + 1)
            if k < 0:
                raise PatternError()
            body = p[j:k]
            cls, m = '', 0
            while m < len(body):
                if m + 2 < len(body) and body[m + 1] == '-':
                    if body[m] > body[m + 2]:
                        raise Unsure('empty range')
                    cls += re.escape(body[m]) + '-' + re.escape(body[m + 2])
                    m += 3
                else:
                    cls += re.escape(body[m])
                    m += 1
            out += '[%s%s]' % ('^' if neg else '', cls)
            i = k
        else:
            out += re.escape(c)
        i += 1
    return re.compile(out, re.S)


class Globber:
    """What a pattern matches below the working directory."""

    def __init__(self, root):
        self.root = root

    def full(self, p):
        return p if p.startswith('/') else os.path.join(self.root, p)

    def match(self, pattern):
        absolute = pattern.startswith('/')
        only_dirs = pattern.endswith('/')
        parts = [p for p in pattern.split('/') if p and p != '.']
        if '/./' in pattern or '//' in pattern:
            raise Unsure('dot component')
        if not parts:
            raise Unsure('empty pattern')
        comps = []
        for p in parts:
            if p == '..' or p.startswith('.') and re.search(r'[*?\[]', p):
                raise Unsure('dot pattern')
            comps.append((p, component(p)))
        # neighbouring ** are one
        comps = [c for i, c in enumerate(comps) if not (i and parts[i] == parts[i - 1] == '**')]
        out = []

        def names(d):
            try:
                return os.listdir(self.full(d) if d else self.root)
            except OSError:
                return []

        def join(d, n):
            return n if not d else d + n if d.endswith('/') else d + '/' + n

        def walk(d, i):
            if i == len(comps):
                out.append(d)
                return
            text, rx = comps[i]
            if rx is None:
                last = i + 1 == len(comps)

                def deep(x, first):
                    if last:
                        if not first:
                            out.append(x)
                    else:
                        walk(x, i + 1)
                    for n in names(x):
                        p = join(x, n)
                        if os.path.islink(self.full(p)):
                            raise Unsure('link below **')
                        if os.path.isdir(self.full(p)):
                            deep(p, False)
                deep(d, True)
                return
            if not re.search(r'[*?\[]', text):
                p = join(d, text)
                if os.path.lexists(self.full(p)) and (i + 1 == len(comps) or os.path.isdir(self.full(p))):
                    walk(p, i + 1)
                return
            for n in names(d):
                if rx.fullmatch(n):
                    p = join(d, n)
                    if i + 1 == len(comps) or os.path.isdir(self.full(p)):
                        walk(p, i + 1)
        walk('/' if absolute else '', 0)
        if only_dirs:
            out = [p for p in out if os.path.isdir(self.full(p))]
        return list(dict.fromkeys(out))     # however many ways there are to match it


def path_key(p):
    parts = [c.encode('utf-8') for c in p.split('/') if c and c != '.']
    return (0 if p.startswith('/') else 1, parts)


def extension(p):
    n = p.rstrip('/').split('/')[-1]
    if n == '..' or '.' not in n[1:]:
        return None
    i = n.rfind('.')
    return n[i + 1:].encode('utf-8') if i > 0 else None


class Statx(ctypes.Structure):
    class Time(ctypes.Structure):
        _fields_ = [('sec', ctypes.c_int64), ('nsec', ctypes.c_uint32), ('pad', ctypes.c_int32)]
    _fields_ = [('mask', ctypes.c_uint32), ('blksize', ctypes.c_uint32), ('attr', ctypes.c_uint64), ('nlink', ctypes.c_uint32), ('uid', ctypes.c_uint32), ('gid', ctypes.c_uint32), ('mode', ctypes.c_uint16), ('pad0', ctypes.c_uint16), ('ino', ctypes.c_uint64),
                ('size', ctypes.c_uint64), ('blocks', ctypes.c_uint64), ('attrmask', ctypes.c_uint64), ('atime', Time), ('btime', Time), ('ctime', Time), ('mtime', Time), ('rest', ctypes.c_uint8 * 256)]


LIBC = ctypes.CDLL(None, use_errno=True)


def birth(path):
    """Creation time in ns, or None where the file system keeps none."""
    s = Statx()
    try:
        if LIBC.statx(-100, path.encode(), 0, 0xfff, ctypes.byref(s)) != 0:
            return None
    except AttributeError:
        return None
    return s.btime.sec * 10 ** 9 + s.btime.nsec if s.mask & 0x800 else None


class C20(ProgramCheck):
    id = 'C20'
    technique = 'runtime monitoring: %glob over generated directory trees compared with an independent matcher, filter and order'
    rule = 'random trees of files, directories and links with chosen times; patterns with every wildcard, every type, sort and order; non-trivial: any call'
    NAMES = ['a', 'b', 'c', 'ab', 'abc', 'a.txt', 'b.txt', 'a.md', 'b.md', 'z.a', 'A', 'A.TXT', 'x.tar.gz', '.hid', '.h.txt', 'no ext', 'é.txt', '日', 'a-1', 'a.', 'a!b', '10', '9', '1', 'x', 'y.x', 'x.y', 'dir.d', 'a_b', 'a b.txt', 'a+', 'a#']
    DIRN = ['d', 'e', 'dir.d', 'sub', 'a', 'z', '.hd', 'D', 'é', 'a b', 'sub.x']
    PATS = ['*', '**', '**/*/**/*', '**/*/**', '**/**', '**/*/**/?', '**/*/*/**/*', 'd/**/*/**/*', '**/a/**/*', '**/**/*', '**/*/**/*.*', '**/*', '*.txt', '**/*.txt', '*/', '*/*', '**/*.*', 'a*', '*a*', '?', '??', '[abc]*', '[!a]*', '[a-c]*', 'sub/*', 'sub/**/*', 'd/*', '*.*', '[0-9]*', '*b', '*/a*', '**/a', '**/?', './*', './d/*', 'd/**', '[A-Z]*', '*.[tm]*', 'nope*', 'a', 'a.txt', 'd',
            '*.d', '*[!0-9]', '**/d/*', '**/*a*', '*/*/*', 'é*', 'a b*', '*  *', '[a', 'a**', '***', '**b', 'a/b**', '[!', 'x[', 'd/[', '[]', '**/**x']

    def corpus(self):
        tree = [[n, 'f', i] for i, n in enumerate(self.NAMES) if n != 'a'] + [[d, 'd', 40 + i] for i, d in enumerate(self.DIRN) if d not in ('dir.d',)] + [['dir.d', 'd', 60]]
        tree = [t for i, t in enumerate(tree) if t[0] not in [u[0] for u in tree[:i]]]
        tree += [['sub/x.txt', 'f', 70], ['sub/deep', 'd', 71], ['sub/deep/y.txt', 'f', 72], ['d/1.txt', 'f', 3], ['d/2.md', 'f', 3]]
        out = []
        for p in self.PATS:
            out.append({'tree': tree, 'pat': p, 'opts': []})
            for s in ['name', 'type', 'modified', 'none', 'created']:
                for o in ['', 'ascending', 'descending']:
                    for t in ['', 'file', 'directory', 'any']:
                        if (hash(p) if False else len(p) + len(s) + len(o) + len(t)) % 3 == 0:
                            out.append({'tree': tree, 'pat': p, 'opts': [['sort', s]] + ([['order', o]] if o else []) + ([['type', t]] if t else [])})
        # directories, plain files and pipes whose names sort in every way
        for names in ('abc', 'acb', 'bac', 'bca', 'cab', 'cba'):
            for ext in (['', '', ''], ['', '.x', ''], ['.x', '', ''], ['.x', '.y', '.x']):
                kinds = [[n + e, k, 0] for n, e, k in zip(names, ext, 'dfp')]
                for o in ([], [['order', 'descending']], [['type', 'any']], [['type', 'file']]):
                    out.append({'tree': kinds, 'pat': '*', 'opts': [['sort', 'type']] + o})
        out.append({'tree': [], 'pat': '*', 'opts': []})
        out.append({'tree': [['f', 'f', 0]], 'pat': '*', 'opts': []})
        out.append({'tree': [['f', 'f', 0]], 'pat': '$ROOT/*', 'opts': []})
        return out

    def gen(self, r):
        T = Texts(r, 0)
        d = gen.dictionary()
        exts = ['.txt', '.md', '.x', '', '', '.tar.gz', '.', '.a', '.z', '.TXT'] + [f for f in d.fresh if re.fullmatch(r'\.[a-zA-Z0-9]{1,8}', f)] * 3
        dirs = ['']
        tree = []
        used = set()
        for _ in range(r.choice([0, 1, 2, 3])):
            p = r.choice(dirs) + r.choice(self.DIRN)
            if p not in used:
                used.add(p)
                dirs.append(p + '/')
                tree.append([p, 'd', r.randint(0, 6)])
        links = r.p(0.1)
        pipes = r.choice([0.02, 0.02, 0.02, 0.3])
        n = r.size(r.p(0.3))
        for _ in range(n):
            base = r.choice(self.NAMES) if r.p(0.5) else r.choice(['a', 'b', 'c', 'aa', 'x', 'ab', '1', '2', '.a', 'A', 'é', 'n%d' % r.randint(0, 40)]) + r.choice(exts)
            p = r.choice(dirs) + base
            if base in ('.', '..') or p in used:
                continue
            used.add(p)
            k = 'f'
            if links and r.p(0.3) and [t for t in tree if t[1] != 'l']:
                k = 'l'
            elif r.p(pipes):
                k = 'p'
            tree.append([p, k, r.choice([0, 0, 1, 1, 2, 3, r.randint(0, 50)])] + ([r.choice([t[0] for t in tree if t[1] != 'l'])] if k == 'l' else []))
        x = r.random()
        if x < 0.55:
            pat = r.choice(self.PATS)
        else:
            # a pattern made from something that is there
            base = (r.choice(tree)[0] if tree else 'a').split('/')
            out = []
            for c in base:
                y = r.random()
                if y < 0.25:
                    out.append('*')
                elif y < 0.4 and len(c) > 1:
                    i = r.randrange(1, len(c))
                    out.append(c[:i] + '*')
                elif y < 0.5:
                    out.append('*' + c[1:])
                elif y < 0.6:
                    out.append(''.join('?' if r.p(0.4) else ch for ch in c))
                elif y < 0.7:
                    i = r.randrange(len(c))
                    out.append(c[:i] + '[' + r.choice(['', '', '!']) + r.choice([c[i], 'a-z', 'ab' + c[i]]).replace(']', '') + ']' + c[i + 1:])
                else:
                    out.append(c)
            pat = '/'.join(out)
            if r.p(0.15):
                pat = '**/' + '/'.join(out[-1:])
            for _ in range(r.choice([0, 0, 0, 1, 2, 3])):
                out.insert(r.randrange(len(out)), '**')
                pat = '/'.join(out)
        if r.p(0.12):
            pat = '$ROOT/' + pat
        elif r.p(0.05):
            pat = './' + pat
        if r.p(0.05):
            pat += '/'
        opts = []
        if r.p(0.6):
            opts.append(['type', r.choice(['file', 'directory', 'any'])])
        if r.p(0.8):
            opts.append(['sort', r.choice(['name', 'type', 'modified', 'modified', 'created', 'none'])])
        if r.p(0.5):
            opts.append(['order', r.choice(['ascending', 'descending', 'descending'])])
        r.shuffle(opts)
        return {'tree': tree, 'pat': pat, 'opts': opts, 'at': r.randint(0, len(opts)), 'ctx': r.choice(['%s', '%s', '(p %s)', 'x %s y', '(p (%%reverse (%%list %s)))'])}

    def build(self, case):
        if self.scratch is None:
            self.scratch = drv.Scratch()
        root = os.path.join(self.scratch.path, 'g')
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        made = []
        for t in case['tree']:
            p = os.path.join(root, t[0])
            if os.path.lexists(p) or not os.path.isdir(os.path.dirname(p)):
                continue
            if t[1] == 'd':
                os.mkdir(p)
            elif t[1] == 'f':
                with open(p, 'w'):
                    pass
            elif t[1] == 'p':
                os.mkfifo(p)
            elif t[1] == 'l':
                os.symlink(os.path.join(root, t[3]), p)
                continue
            made.append((p, t[2]))
            if any(o == ['sort', 'created'] for o in case['opts']) and t[2] % 2:
                time.sleep(0.006)
        for p, m in made:
            # some differ by seconds, some by nanoseconds only
            ns = 1600000000 * 10 ** 9 + (m // 2) * 10 ** 9 + (m % 2) * 7
            os.utime(p, ns=(ns, ns))
        return root

    def judge(self, case):
        root = self.build(case)
        pat = case['pat'].replace('$ROOT', root)
        G = Globber(root)
        args = ['%s' % str_src(Rng(pat), pat, False)]
        opts = [':%s %s' % (k, v) for k, v in case['opts']]
        at = case.get('at', 0)
        src = '(%%glob %s)' % ' '.join(opts[:at] + args + opts[at:])
        src = case.get('ctx', '%s') % src
        o = dict(case['opts'])
        try:
            found = G.match(pat)
        except PatternError:
            found = None
        except Unsure as e:
            raise Skip(str(e))
        w = model.World(cwd=root)
        unordered = o.get('sort', 'none') == 'none'
        if found is not None:
            if any(not os.path.exists(G.full(p)) for p in found):
                raise Skip('dangling')
            isdir = {p: os.path.isdir(G.full(p)) for p in found}
            isfile = {p: os.path.isfile(G.full(p)) for p in found}
            if o.get('type') == 'file':
                found = [p for p in found if isfile[p]]
            elif o.get('type') == 'directory':
                found = [p for p in found if isdir[p]]
            s = o.get('sort', 'none')
            key = path_key
            if s == 'modified':
                key = lambda p: (-os.stat(G.full(p)).st_mtime_ns, path_key(p))
            elif s == 'created':
                if any(birth(G.full(p)) is None for p in found):
                    raise Skip('no creation times here')
                key = lambda p: (-birth(G.full(p)), path_key(p))
            elif s == 'type':
                key = lambda p: (0 if isdir[p] else 1, (1, extension(p)) if extension(p) is not None else (0, b''), path_key(p))
            found.sort(key=key)
            if o.get('order') == 'descending':
                found.reverse()
        got = self.ask([('op', 'run'), ('src', src), ('cwd', root)])
        if unordered and found is not None and kind_of(got) == 'ok':
            # The order is not specified: take the one given, if it is one of these.
            seen = []

            def strings(ns):
                for n in ns:
                    if n[0] == 's':
                        seen.append(n[1])
                    elif n[0] == 'l':
                        strings(n[3])
            strings(got['tree'])
            if sorted(seen) != sorted(found):
                raise Bad('%s in %s\nmatches %s\ngot     %s' % (src, short(case['tree']), short(sorted(found)), short(sorted(seen))), 'set')
            if 'reverse' in src:
                seen.reverse()
            found = seen
        w.glob = lambda p, kw: 'error' if found is None else found
        try:
            exp = 'ok', model.Ctx(w).nodes(model.parse(model.Src('<stdin>', src)))
        except SeamErr as e:
            exp = 'err', e
        k = kind_of(got)
        if k != exp[0] or k == 'ok' and norm(model.to_json(exp[1])) != norm(got['tree']):
            raise Bad('%s in %s\nexpected %s\ngot      %s' % (src, short(case['tree']), short(found) if exp[0] == 'ok' else 'an error', short(got)), 'glob')
        n = len(found) if found is not None else 0
        self.paths = getattr(self, 'paths', 0) + n
        return [exp[0], 'sort ' + o.get('sort', 'default'), 'order ' + o.get('order', 'default'), 'type ' + o.get('type', 'default'), 'no match' if n == 0 else '1 match' if n == 1 else 'several matches']

    def nontrivial(self, case, feats):
        return True

    def extra_evidence(self):
        return {'paths_matched': getattr(self, 'paths', 0)}


# ------------------------------------------------------------------ markdown

def mesc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')


class Md:
    """Composes markdown from pieces with known renderings."""

    def __init__(self, r):
        self.r = r
        self.T = Texts(r, 0)

    def word(self):
        r = self.r
        d = gen.dictionary()
        if d.fresh and r.p(0.1):
            f = r.choice(d.fresh)
            if re.fullmatch(r'[A-Za-z][A-Za-z ]*[A-Za-z]', f):
                return f
        w = r.choice(gen.WORDS) + r.choice(['', '', '', '1', 'é', '日', 'X'])
        return w if re.fullmatch(r'\w+', w) else 'w'

    def words(self, n=None):
        return ' '.join(self.word() for _ in range(n or self.r.choice([1, 1, 2, 3, 5])))

    def inline(self, depth=1):
        """-> (markdown, html)"""
        r = self.r
        md, ht = [], []
        for _ in range(r.choice([1, 1, 2, 3])):
            w = self.words()
            x = r.random()
            if x < 0.45:
                a, b = w, w
            elif x < 0.53:
                q = r.choice(['*', '_'])
                a, b = q + w + q, '<em>%s</em>' % w
            elif x < 0.6:
                q = r.choice(['**', '__'])
                a, b = q + w + q, '<strong>%s</strong>' % w
            elif x < 0.68:
                c = w + r.choice(['', ' < b', '&amp;', ' "q"', '*x*', '<i>'])
                a, b = '`%s`' % c, '<code>%s</code>' % mesc(c)
            elif x < 0.75:
                u = r.choice(['/u', 'http://e.com/a?b=c', '#f', 'x.html', 'javascript:z'])
                if r.p(0.3):
                    a, b = '[%s](%s "%s")' % (w, u, w), '<a href="%s" title="%s">%s</a>' % (mesc(u), w, w)
                else:
                    a, b = '[%s](%s)' % (w, u), '<a href="%s">%s</a>' % (mesc(u), w)
            elif x < 0.8:
                a, b = '![%s](/i.png)' % w, '<img src="/i.png" alt="%s" />' % w
            elif x < 0.84:
                a, b = r.choice([('&amp;', '&amp;'), ('&lt;', '&lt;'), ('&copy;', '©'), ('a & b', 'a &amp; b'), ('a < b', 'a &lt; b'), ('"q"', '&quot;q&quot;'), ("it's", "it's")])
            elif x < 0.9:
                a, b = r.choice([('\\*x\\*', '*x*'), ('\\_', '_'), ('\\[a\\]', '[a]'), ('\\`', '`'), ('\\\\', '\\'), ('\\<b>', '&lt;b&gt;')])
            elif x < 0.97:
                t = r.choice(['b', 'span', 'x-y'])
                at = r.choice(['', ' class="c"', ' id=x', " t='<'"]) if r.p(0.5) else ''
                a = '<%s%s>%s</%s>' % (t, at, w, t)
                b = a
            else:
                a, b = r.choice([('<br>', '<br>'), ('<https://e.com>', '<a href="https://e.com">https://e.com</a>'), ('~~no~~', '~~no~~'), ('$m$', '$m$'), ('http://x.com', 'http://x.com'), ('<!-- c -->', '<!-- c -->')])
            md.append(a)
            ht.append(b)
        # plain words at both ends keep delimiters and block starts unambiguous
        x, y = self.word(), self.word()
        return x + ' ' + ' '.join(md) + ' ' + y, x + ' ' + ' '.join(ht) + ' ' + y

    def block(self, depth, last):
        """-> (kind, markdown lines, html)"""
        r = self.r
        x = r.random()
        if x < 0.3:
            lines = [self.inline() for _ in range(r.choice([1, 1, 2, 3]))]
            md, ht = [], []
            for i, (a, b) in enumerate(lines):
                end = i + 1 < len(lines)
                br = r.choice(['', '', '  ', '\\']) if end else ''
                md.append(a + br)
                ht.append(b + ('<br />' if br else ''))
            return 'p', md, '<p>%s</p>' % '\n'.join(ht)
        if x < 0.42:
            n = r.randint(1, 6)
            a, b = self.inline()
            if r.p(0.15) and n < 3:
                return 'h', [a, ('=' if n == 1 else '-') * 3], '<h%d>%s</h%d>' % (n, b, n)
            return 'h', ['#' * n + ' ' + a + r.choice(['', '', ' ' + '#' * r.randint(1, 4)])], '<h%d>%s</h%d>' % (n, b, n)
        if x < 0.57 and last != 'list':
            n = r.choice([1, 2, 3, 4])
            kind = r.choice(['ul', 'ul', 'ol', 'task'])
            bullet = r.choice('-*+')
            start = r.choice([1, 1, 1, 0, 3, 10])
            md, ht = [], []
            for i in range(n):
                a, b = self.inline()
                if kind == 'task':
                    c = r.choice([' ', 'x', 'X'])
                    md.append('%s [%s] %s' % (bullet, c, a))
                    ht.append('<li><input type="checkbox" disabled=""%s /> %s</li>' % (' checked=""' if c != ' ' else '', b))
                elif kind == 'ol':
                    md.append('%d. %s' % (start + i, a))
                    ht.append('<li>%s</li>' % b)
                elif r.p(0.15) and depth > 0:
                    x1, y1 = self.inline()
                    md += ['%s %s' % (bullet, a), '  %s %s' % (bullet, x1)]
                    ht.append('<li>%s\n<ul>\n<li>%s</li>\n</ul>\n</li>' % (b, y1))
                else:
                    md.append('%s %s' % (bullet, a))
                    ht.append('<li>%s</li>' % b)
            if kind == 'ol':
                return 'list', md, '<ol%s>\n%s\n</ol>' % ('' if start == 1 else ' start="%d"' % start, '\n'.join(ht))
            return 'list', md, '<ul>\n%s\n</ul>' % '\n'.join(ht)
        if x < 0.66:
            lines = [r.choice([self.words(), 'let x < y & "z";', '  indent', '', '# not', '<b>', '---', '- x', '| a |', '+++']) for _ in range(r.choice([0, 1, 2, 4]))]
            lang = r.choice(['', '', 'rust', 'x-y'])
            fence = r.choice(['```', '~~~', '````'])
            body = ''.join(mesc(l) + '\n' for l in lines)
            return 'code', [fence + lang] + lines + [fence], '<pre><code%s>%s</code></pre>' % (' class="language-%s"' % lang if lang else '', body)
        if x < 0.72 and last not in ('list', 'indent', None):
            lines = [self.words() for _ in range(r.choice([1, 2]))]
            return 'indent', ['    ' + l for l in lines], '<pre><code>%s</code></pre>' % ''.join(l + '\n' for l in lines)
        if x < 0.8:
            a = [self.inline() for _ in range(r.choice([1, 2]))]
            return 'quote', ['> ' + m for m, _ in a], '<blockquote>\n<p>%s</p>\n</blockquote>' % '\n'.join(h for _, h in a)
        if x < 0.85:
            return 'hr', [r.choice(['***', '* * *', '___'])], '<hr />'
        if x < 0.93:
            cols = r.choice([1, 2, 3])
            al = [r.choice(['---', ':-:', '--:', ':--']) for _ in range(cols)]
            css = {'---': '', ':-:': ' align="center"', '--:': ' align="right"', ':--': ' align="left"'}
            cell = lambda: (lambda w: r.choice([(w, w), (w, w), ('*%s*' % w, '<em>%s</em>' % w), ('`%s`' % w, '<code>%s</code>' % w), ('a < b', 'a &lt; b')]))(self.words(1))
            head = [cell() for _ in range(cols)]
            rows = [[cell() for _ in range(cols)] for _ in range(r.choice([0, 1, 2, 3]))]
            md = ['| ' + ' | '.join(m for m, _ in head) + ' |', '|' + '|'.join(al) + '|'] + ['| ' + ' | '.join(m for m, _ in row) + ' |' for row in rows]
            ht = '<table>\n<thead>\n<tr>\n' + ''.join('<th%s>%s</th>\n' % (css[a], h) for a, (_, h) in zip(al, head)) + '</tr>\n</thead>\n'
            if rows:
                ht += '<tbody>\n' + ''.join('<tr>\n' + ''.join('<td%s>%s</td>\n' % (css[a], h) for a, (_, h) in zip(al, row)) + '</tr>\n' for row in rows) + '</tbody>\n'
            return 'table', md, ht + '</table>'
        t = r.choice(['div', 'section', 'table', 'p'])
        body = r.choice([['<b>%s</b>' % self.words()], ['*not em*', 'a < b & c'], ['<i class="x">y</i>', self.words()]])
        md = ['<%s%s>' % (t, r.choice(['', ' class="a"', ' id=z']))] + body + ['</%s>' % t]
        if r.p(0.2):
            md = r.choice([['<!-- c -->'], ['<script>', 'if (a < b && c) { x(); }', '</script>'], ['<style>', 'p > a { color: red }', '</style>']])
        return 'html', md, '\n'.join(md)

    def body(self):
        r = self.r
        md, ht, last = '', [], None
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, r.size()])):
            # The renderer takes a list followed by two blank lines for a loose one.
            if last:
                md += '\n' + '\n' * (1 if last == 'list' else r.choice([1, 1, 1, 2]))
            last, a, b = self.block(1, last)
            md += '\n'.join(a)
            ht.append(b)
        return md, '\n'.join(ht)


class C21(ProgramCheck):
    id = 'C21'
    technique = 'runtime monitoring: %markdown on documents composed of constructs with known renderings and front matter with known data compared with those, and every definition probed'
    rule = 'random sequences of CommonMark blocks and inlines, tables, task lists, embedded HTML, YAML and TOML front matter valid and invalid, every :only; non-trivial: any call'

    def corpus(self):
        out = []
        fronts = [('', None), ('---\na: 1\nb: [x, y]\n---\n', ['yaml', ['m', [['a', ['s', '1']], ['b', ['q', [['s', 'x'], ['s', 'y']]]]]]]), ('+++\na = 1\nb = ["x", "y"]\n+++\n', ['toml', 'a = 1\nb = ["x", "y"]']), ('---\n[\n---\n', ['bad']), ('+++\na = \n+++\n', ['bad']),
                  ('---\n---\n', ['yaml', None]), ('+++\n+++\n', ['toml', ''])]
        bodies = [('', ''), ('# T\n\npara *x*', '<h1>T</h1>\n<p>para <em>x</em></p>'), ('<div>\n*a*\n</div>', '<div>\n*a*\n</div>'), ('| a |\n|---|\n| b |', '<table>\n<thead>\n<tr>\n<th>a</th>\n</tr>\n</thead>\n<tbody>\n<tr>\n<td>b</td>\n</tr>\n</tbody>\n</table>'),
                  ('- [x] d\n- [ ] e', '<ul>\n<li><input type="checkbox" disabled="" checked="" /> d</li>\n<li><input type="checkbox" disabled="" /> e</li>\n</ul>'), ('x\n\n---\n\na: 1\n\n***', '<p>x</p>\n<hr />\n<p>a: 1</p>\n<hr />')]
        # constructs that are part of no enabled extension, and those that are
        bodies += [('a[^1]\n\n[^1]: /b', '<p>a<a href="/b">^1</a></p>'), ('a[^1]', '<p>a[^1]</p>'), ('a {b} c', '<p>a {b} c</p>'), ('import a from "b"', '<p>import a from &quot;b&quot;</p>'),
                   ('export const a = 1', '<p>export const a = 1</p>'), ('<A b={1} />', '<A b={1} />'), ('$$\na\n$$', '<p>$$\na\n$$</p>'), ('a$b$', '<p>a$b$</p>'), ('~a~ ~~b~~', '<p>~a~ ~~b~~</p>'),
                   ('www.e.com http://e.com a@e.com', '<p>www.e.com http://e.com a@e.com</p>'), ('    code', '<pre><code>code\n</code></pre>'), ('{# a #}', '<p>{# a #}</p>'),
                   ('[x]: /u\n\n[x] [y][x] ![z][x]', '<p><a href="/u">x</a> <a href="/u">y</a> <img src="/u" alt="z" /></p>'), ('1. [x] a', '<ol>\n<li><input type="checkbox" disabled="" checked="" /> a</li>\n</ol>'),
                   ('[ ] a', '<p>[ ] a</p>'), ('* [x]a', '<ul>\n<li>[x]a</li>\n</ul>'), ('* [X] a', '<ul>\n<li><input type="checkbox" disabled="" checked="" /> a</li>\n</ul>'),
                   ('| a | b |\n|:-|-:|\n| c | d |\n| e |', '<table>\n<thead>\n<tr>\n<th align="left">a</th>\n<th align="right">b</th>\n</tr>\n</thead>\n<tbody>\n<tr>\n<td align="left">c</td>\n<td align="right">d</td>\n</tr>\n<tr>\n<td align="left">e</td>\n<td align="right"></td>\n</tr>\n</tbody>\n</table>'),
                   ('a | b\n-|-\nc | d', '<table>\n<thead>\n<tr>\n<th>a</th>\n<th>b</th>\n</tr>\n</thead>\n<tbody>\n<tr>\n<td>c</td>\n<td>d</td>\n</tr>\n</tbody>\n</table>'),
                   ('<!-- c -->\n\nd', '<!-- c -->\n<p>d</p>'), ('a\n===\nb\n---', '<h1>a</h1>\n<h2>b</h2>'), ('\\[x]', '<p>[x]</p>')]
        for f, fd in fronts:
            for b, bh in bodies:
                for only in ['', ':only content ', ':only frontmatter ', ':only "content" ', ':only both ', ':only 1 ', ':onlyx content ', ':only (content) ']:
                    for sep in ['', ':separator . ']:
                        s = '.' if sep else '/'
                        t = f + b
                        out.append({'src': 'A  (%%markdown %s%s%s)(%%ifdef a (p %%a)) (%%ifdef b%s1 (p %%b%s1)) (%%ifdef b (p %%b) none)' % (only, sep, str_src(Rng(t), t, False), s, s), 'md': [[t, bh, fd]]})
        for call in ['(%markdown)', '(%markdown x)', '(%markdown 1)', '(%markdown "a" "b")', '(%markdown (x))', '(%markdown :only content)', '(%markdown "a" b)', '(%markdown (%raw "*a*"))', '(%markdown (%string "*" a "*"))']:
            out.append({'src': call, 'md': [['a', '<p>a</p>', None], ['*a*', '<p><em>a</em></p>', None], ['* a *', None, None]]})
        return out

    def gen(self, r):
        M = Md(r)
        T = Texts(r, 0.05)
        md, ht = M.body()
        front, probes, unknown = None, [], False
        sep = r.choice(['/', '/', '/', '.', '', '::'])
        x = r.random()
        if x < 0.35:
            d = rand_data(r, T, r.choice([1, 2, 3]))
            if d[0] != 'm':
                d = ['m', [['k', d]]]
            Y = Yaml(r)
            Y.comments = r.p(0.3)
            ys = '\n'.join(Y.block(d, 0)) if r.p(0.8) and d[1] else Y.flow(d)
            if not re.search(r'^---|^\+\+\+', ys, re.M) and ys.strip():
                md = '---\n' + ys + '\n---\n' + r.choice(['', '\n']) + md
                front = ['yaml', d]
                probes = paths(d, sep)
        elif x < 0.6:
            ts = Toml(r, T).text().strip('\n')
            if not re.search(r'^---|^\+\+\+', ts, re.M) and ts:
                import tomllib
                try:
                    probes = C16.toml_paths(self, tomllib.loads(ts), sep)
                    md = '+++\n' + ts + '\n+++\n' + r.choice(['', '\n']) + md
                    front = ['toml', ts]
                except (ValueError, RecursionError):
                    pass
        elif x < 0.66:
            bad = r.choice([('---', '['), ('---', 'a: b: c'), ('+++', 'a'), ('+++', 'a = 1\na = 2')])
            md = bad[0] + '\n' + bad[1] + '\n' + bad[0] + '\n' + md
            front, unknown = ['bad'], True
        if r.p(0.1):
            md += '\n'
        if md.startswith(('---', '+++')) and front is None:
            raise Skip('looks like front matter')
        r.shuffle(probes)
        # what the valid part of invalid front matter defines is not specified
        probes = [p for p in probes if p][:12] + r.choice([[], ['a'], ['title', 'k']]) if not unknown else []
        args = [str_src(r, md)]
        if r.p(0.5):
            args.insert(r.randint(0, 1), ':only ' + r.choice(['content', 'frontmatter', '"content"', '"frontmatter"', 'content', 'frontmatter', 'Content', 'both', '""']))
        if sep != '/' or r.p(0.1):
            args.insert(r.randint(0, len(args)), ':separator ' + str_src(r, sep))
        call = wrap(r, T, ['%markdown'] + args)
        y = r.random()
        if y < 0.2:
            call = '(p %s)' % call
        elif y < 0.26:
            call = '(%%define (f) %s)(%%f)' % call
        return {'src': juxtapose(r, T, [call] + [uniq_probe(r, T, p) for p in probes]), 'md': [[md, ht, front]]}

    toml_paths = C16.toml_paths

    def world(self, case, root):
        import tomllib
        w = super().world(case, root)
        table = {}
        for t, h, f in case['md']:
            if h is None:
                continue
            if f and f[0] == 'toml':
                try:
                    f = ['toml', tomllib.loads(f[1])]
                except ValueError:
                    raise Skip('front matter')
            table[t] = (h, f)
        w.markdown = table
        return w

    def shrinkable(self, case):
        return None

    def judge(self, case):
        exp = self.expected(case, None)
        got = self.ask(self.request(case, None))
        if kind_of(got) == 'ok' and exp[0] == 'ok':
            # How many line ends follow the last block is not specified.
            def trim(ns):
                for n in ns:
                    if n[0] == 'r':
                        n[1] = n[1].rstrip('\n')
                    elif n[0] == 'l':
                        trim(n[3])
                    elif n[0] == 'a':
                        trim([n[3]])
            trim(got['tree'])
        self.compare(case, exp, got)
        f = self.features(case, exp)
        fm = case['md'][0][2]
        f.append('front matter: %s' % (fm[0] if fm else 'none'))
        for o in ('content', 'frontmatter'):
            if re.search(r':only\s+"?%s' % o, case['src']):
                f.append('only ' + o)
        return f

    def nontrivial(self, case, feats):
        return True

"""The common workload of the checks that look at the process rather than at
one feature: cases drawn from the generators of every other check, hostile
arguments to every built-in, and damaged variants of both."""
from .base import *
from . import reading, formats, macros, files

SOURCES = [(5, reading.C03), (4, reading.C04), (3, reading.C05), (6, formats.C06), (5, formats.C07), (4, formats.C08), (4, formats.C09), (6, formats.C10),
           (8, macros.C11), (5, macros.C12), (6, macros.C13), (4, macros.C14), (5, macros.C15), (4, macros.C18), (5, macros.C22),
           (6, files.C16), (6, files.C17), (5, files.C19), (4, files.C20), (6, files.C21)]
FMTS = ['text', 'sexp', 'html', 'xml', 'css', 'html!', 'xml!', 'text!', 'sexp!', 'css!', 'html+', 'xml+', 'css+', 'sexp+', 'text+', 'html=', 'xml=', 'css=', 'display']

H_FORMAT = ['{', '}', '{}', '{{', '}}', '{{}', '{}}', '{0}', '{1}', '{-1}', '{99999999999999999999}', '{a}', '{a b}', '{:}', '{:>}', '{:>5}', '{:é>5}', '{:*^300}', '{:.0}', '{:.3}', '{:.99999}', '{:99999}', '{:999999999999}', '{:>4294967296}', '{:.*}',
            '{:0$}', '{:1$}', '{:.1$}', '{0:1$}', '{:?}', '{:#?}', '{:x}', '{:#x}', '{:+}', '{:e}', '{:08.3}', '{:<<5}', '{:^^^}', '{ }', '{ 0 }', '{0', '0}', '}{', '{}{', '{:{}}', '{{{}}}', '{é}', '{日:本}', '{:\u0301>3}', '{\n}', '{"}', '{:5.2$}', '{:65535}', '{:65536}',
            '%', '%s', '\0', '{\0}', '{:\0>3}', '{0:}{0:?}', '{:p}', '{:o}', '{:b}', '{0}{2}', '{a}{}', '{0.1}', '{a.b}', '{a-b}', '{:>-5}', '{:>+5}', '{: >5}', '{:>5 }', '{::}', '{:::}', '{:.}', '{:.-1}', '{:a$}', '{:.a$}', '{a:a$}']
H_DATE = ['%', '%%', '%Q', '%:', '%::z', '%:::z', '%::::z', '%#z', '%é', '%-', '%-d', '%_d', '%0d', '%+', '%c', '%x', '%X', '%r', '%Z', '%f', '%.f', '%.3f', '%.4f', '%3f', '%6f', '%9f', '%99f', '%.9f', '%.99f', '%s', '%q', '%G-W%V-%u', '%v', '%D', '%n%t',
          '%E', '%O', '%Ey', '%9999d', '%-%', '% d', '%\0', 'é%Yé', '%Y' * 50, '%A' * 200, '%\n', '', ' ', '%Y-%m-%d', '%U%W%j', '%C%y', '%I%p', '%I%P', '%k%l', '%e', '%h', '%L', '%N', '%i', '%J', '%4Y', '%^a', '%#Z']
H_YAML = ['', ' ', '\t', '\n', '\ufeff', '\0', '\ufeffa: b', '---', '--- ', '...', '---\n---\n---', '--- |\n', '- ', '-', '-\n-', ':', ': ', 'a:', 'a: ', '? ', '?', '? a', '! x', '!!', '!<', '!<x> y', '!!binary "x"', '!!float x', '!!int "12"', '!!null ""', '!!bool x', '!!map {}', '!!seq []', '!!set {a, b}', '!!omap [a: b]', '!e!x y', '%TAG ! x\n---\na',
          '%YAML 9.9\n---\na', '%YAML x\n---\n', '%FOO\n---\na', '&', '*', '&a', '*a', '&a &b c', '&a [*a]', '- &a x\n- *a', '<<: *a', 'a: &a {b: 1}\nc: {<<: *a}', '? [a, b]\n: c', '? {a: b}\n: c', '? ? a', '{a', '{a: ', '{a: b', '{,}', '[,]', '[a,,b]', '[a b: c]', '{a, b}', '{a: b, a: c}', '{? a: b}', '[? a: b]', '[a: b]', '{"a":b}', "{'a':b}",
          '|', '>', '|+', '|-', '|9', '|0', '|10', '|x', '>\n', '|\n', '|\n a\n  b\n', '>-\n  a\n\n  b', '|2\n a', '"', '"a', "'", "'a", '"\\', '"\\x', '"\\xg"', '"\\u12"', '"\\U00110000"', '"\\ud800"', '"\\ud83d\\ude00"', '"a\n b"', '"a\\\n b"', "'a\n\n b'", 'a\n b\n  c', 'a: b: c', 'a:\tb', '\ta: b', 'a:\n\tb', '- a\n b', 'a: - b', '- a: b\n  c', '#', '# x', 'a #b', 'a#b', 'a: #b', '@a', '`a', '%a',
          'a\rb', 'a: b\r\nc: d', 'a:\r\n  - b\r\n', 'é: 日', '😀: 😀', '"\u2028"', '\u0085', 'a: |\n \n  \n   x', 'a: >2\n     x\n   y', '[' * 40 + ']' * 40, '{a: ' * 30 + '1' + '}' * 30, '- ' * 30 + 'a', '? ' * 10 + 'a', 'a' * 1100 + ': b', '"' + 'a' * 1100 + '": b', '? ' + 'a' * 1100, '[a]: b', '{}: x', '[]: x', 'null', '~', 'true', '.nan', '-.inf', '0x', '0o7', '1_0', '12:30:45', '2001-01-01', '=', '<<', 'a: *b', '--- a\n...\nb', 'a\n...\n---\nb\n...',
          'a: &x\nb: *x', '&x a: *x', '- !!str', '- !a', '!a [b]', '!a {b: c}', '"a": "b": "c"', '- - - a\n    - b\n  - c', 'a:\n- b\nc:\n- d', 'a:\n b:\n  c: d\n e: f\ng: h', 'a: [b\n, c]', 'a: {b:\n c}', 'a: [b\n]: c', ',', ']', '}', '[}', '{]', '"a" b', "'a' b", '[a] b', '{a: b} c', 'a: "b" c', '*a : b', '&a a : b', '!a b : c']
H_TOML = ['', ' ', '\n', '\t', '\0', '\ufeff', '\ufeffa = 1', '=', 'a', 'a =', 'a = ', '= 1', 'a = b', 'a = 1 b = 2', 'a = 1\na = 2', 'a.b = 1\na = 2', 'a = 1\na.b = 2', '[a]\n[a]', '[a]\nb = 1\n[a.b]', '[[a]]\n[a]', '[a]\n[[a]]', 'a = []\n[[a]]', 'a = {}\n[a]', 'a = {b = 1}\na.c = 2', '[a', 'a]', '[]', '[[]]', '[a.]', '[.a]', '[a..b]', '[a]b', '[ a . b ]', '["a"."b"]',
          'a = 0x', 'a = 0xg', 'a = 0o8', 'a = 0b2', 'a = 01', 'a = +0x1', 'a = 1_', 'a = _1', 'a = 1__0', 'a = 1.', 'a = .1', 'a = 1.e1', 'a = 1e', 'a = 1e+', 'a = 1e999', 'a = -1e999', 'a = inf', 'a = +inf', 'a = -nan', 'a = nan', 'a = 9223372036854775807', 'a = 9223372036854775808', 'a = -9223372036854775808', 'a = -9223372036854775809', 'a = 0xffffffffffffffff', 'a = 0x7fffffffffffffff', 'a = 99999999999999999999999', 'a = 1e-400', 'a = 0.1e5', 'a = -0', 'a = -0.0',
          'a = 1979-05-27', 'a = 1979-13-27', 'a = 1979-02-30', 'a = 07:32', 'a = 07:32:60', 'a = 25:00:00', 'a = 1979-05-27T', 'a = 1979-05-27 07:32:00', 'a = 1979-05-27T07:32:00.999999999999Z', 'a = 1979-05-27T07:32:00+25:00', 'a = 1979-05-27T07:32:00-00:00', 'a = 0000-01-01', 'a = 9999-12-31T23:59:60Z', 'a = "', "a = '", 'a = """', "a = '''", 'a = "\\', 'a = "\\x"', 'a = "\\u12"', 'a = "\\ud800"', 'a = "\\U00110000"', 'a = """a""""', 'a = """\\\n  b"""', "a = '''\n'''''", 'a = "\n"', 'a = "\0"',
          'a = [', 'a = [1', 'a = [1,', 'a = [,]', 'a = [1,,2]', 'a = [1 2]', 'a = [[[[]]]]', 'a = ' + '[' * 40 + ']' * 40, 'a = {', 'a = {b', 'a = {b = 1,}', 'a = {b = 1\n}', 'a = {b.c = 1, b.d = 2}', 'a = {b = 1, b = 2}', 'a = ' + '{a = ' * 20 + '1' + '}' * 20, '"" = 1', "'' = 1", '"a\\n" = 1', 'é = 1', '"é" = 1', '日本 = 1', 'a b = 1', '1 = 2', '1.2 = 3', '-a = 1', 'a-b_c = 1', '# c', 'a = 1 # c', '# \0', 'a = true', 'a = True', 'a = truefalse', 'a = 1\r\nb = 2\r\n', 'a = 1\rb = 2', 'a.b.c.d.e.f = 1', '[a.b.c]\nd = 1\n[a]\ne = 2', '[[a.b]]\n[[a.b.c]]\nd=1']
H_MD = ['', ' ', '\n', '\n\n', '\t', '\0', '\ufeff', '\r', '\r\n', '#', '# ', '####### a', '# a #', 'a\n=', 'a\n-', '-', '- ', '-\n', '* a\n* b', '+ a', '1. a', '1) a', '999999999. a', '9999999999. a', '-1. a', '- [ ]', '- [x] a', '- [ ] ', '- [x]\n', '[ ] a', '> a', '>', '> > > a', '```', '```\n', '```a\nb', '~~~\n```\n~~~', '    a', '\ta', '`', '``a`', '` `` `', '*', '**', '***', '*a', '**a*', '***a***', '_a_b_', '__a__', '*a_b*_', '~~a~~', '~a~', '[', ']', '[]', '[]()', '[a]', '[a](', '[a](b', '[a](b "c', '[a](<b', '[a](<>)', '[a][', '[a][b]\n\n[b]: c',
        '[a]: ', '[a]: b "c', '[a]: <', '[a]:\nb', '![', '![]()', '![a](b)', '[![a](b)](c)', '[a](b)](c)', '<', '<a', '<a>', '<a b="', '<a@b>', '<http://a>', '<!--', '<!-- a', '<!-- a -->', '<!---->', '<!a', '<?', '<? a ?>', '<![CDATA[', '<![CDATA[a]]>', '<script>', '<style>a', '</a>', '</', '<a/>', '<div>\n\n*a*\n\n</div>', '&', '&a', '&amp;', '&#0;', '&#x110000;', '&#99999999;', '&#xd800;', '&nosuch;', '\\', '\\*', '\\\n', 'a  \nb', 'a\\\nb', 'http://a.b', 'www.a.b', 'a@b.c', 'http://', 'www.', 'xmpp:a@b', '|', '||', '|a|', '|a|\n|-|', '|a|\n|:-:|\n|b|c|', '|a|b|\n|-|-|\n|\\||', 'a|b\n-|-\nc', '| a |\n| - |\n',
        '[^1]', '[^1]: a', '[^1]\n\n[^1]: a', '[^1]: [^1]', 'a[^1][^2]\n\n[^2]: b[^1]\n[^1]: c', '$a$', '$$\na\n$$', '---', '---\n', '---\n---', '---\n---\n', '---\na: b\n---', '---\na: b\n---\n', '---\na: b', '---\n[\n---\n', '---\r\na: b\r\n---\r\nx', '--- \na: b\n---\n', '----\na\n----', '+++', '+++\n', '+++\n+++', '+++\na = 1\n+++', '+++\na = 1\n+++\nx', '+++\na\n+++\n', '+++\na = 1\n---\n', '---\na: 1\n+++\n', '***', '* * *', '___', '- - -', '\u00a0', '\u2028', 'é', '日本', '😀', '*é*', '*\u0301a*', '**日**本', '- a\n\n  b\n- c', '1. a\n   - b\n     > c', '> - a\nb', '- ```\n  a', '`a\nb`', '*a\n\nb*', '<a\nb>',
        '>' * 50, '- ' * 50, '*' * 200, '[' * 100, '![' * 50, '`' * 100, '<' * 50, '&' * 50, '|' * 50, '_a' * 60, '[a](' * 30, '\\' * 51, '#' * 10 + '\n' * 3, ' ' * 200, '~' * 20, '\t' * 10 + 'a', 'import a', 'export a', '{a}', '{', '<>', '</>', '<a {...b}>', 'a\x0bb', 'a\x0cb']
H_GLOB = ['*', '**', '***', '****', '**/*', '*/**', '**/**', '**a', 'a**', '*a*', '?', '??', '[', ']', '[]', '[!]', '[]]', '[!]]', '[a', '[a-', '[a-]', '[-a]', '[a-z]', '[z-a]', '[!a-z]*', '[é-日]', '[[:alpha:]]', '{a,b}', '', '.', './', './*', '*/', '*/.', '~', '~/x', '\\*', '\\', '*.{a,b}', '\0', 'a\0b', ' ', '\n', 'é*', '日*', '*.*', '.*', 'a/', 'a/b/', 'nosuch/*', 'sub/*', 'sub/**/*', 'f/*', '(*)', '*;*', '"*"', 'a' * 300, '*' * 100, '?' * 100, '[a]' * 50, 'x/' * 100, '*/' * 5 + '*', '$ROOT/*', '$ROOT', '$ROOT/sub/[a-z]*']
H_NUM = ['0', '-0', '+0', '1', '-1', '+1', '1.5', '-1.5', '.5', '1.', '1e5', '1e308', '1e309', '-1e309', '1e-400', '99999999999999999999', '-99999999999999999999', '9223372036854775807', '9223372036854775808', '-9223372036854775808', '-9223372036854775809', '18446744073709551615', '18446744073709551616', '170141183460469231731687303715884105727', '170141183460469231731687303715884105728', '340282366920938463463374607431768211456', '4294967295', '4294967296', '2147483647', '2147483648',
         '-2147483648', '-2147483649', '65535', '65536', '255', '256', '8210266876799', '8210266876800', '-8334601228800', '-8334601228801', '1' * 400, '0x10', '1_000', '1e', '1e+', '--1', '+-1', '-', '+', '1-', '1.2.3', '0.1.', '1a', '-a', '+é', '1é', '1e99999999999', '-1e99999999999', '0e0', '-0.0', '24', '-24', '23.9999999', '23.99999999999', '-23.99972', '1e1', '0.00001', '596523.2', '-596523.3', 'inf', 'nan', 'NaN', 'infinity', '-inf', '+inf', '+nan', '-nan', '-infinity']
H_ANY = ['()', '(a)', '((a))', '(:k v)', '(())', '"\\0"', '""', '" "', '"\\n"', 'a', '\\', '\\ ', '\\(', '\\)', '\\"', '\\:k', '\\1', '%x', '%', '%%', '\\%', ':k v', ':', ': v', ':k', '&', '&&', '&a', '&&a', '&rest', '*', '**', '#', '/', '//', '"/"', 'true', 'false', 'name', '"a\\u{301}"', 'é', '"日本"', '"\\u{200b}"', '"\\u{10ffff}"', '"\\ud7ff"', '(%list)', '(%list a b)', '(%do)', '(%raw "<")', '(%raw)', '(%string)', '(%lambda x %x)', '(%lambda () a)', '(%define q)', '(%define)', '%list', '%define',
         '(&rest)', '(&&rest)', '(&rest &rest)', '(&&rest &rest)', '(&rest a)', '(:k)', '(:k (d))', '(a :k (b) &rest &&kw)', '((a b) c)', '("a" 1 a)', '(:k (:j (1)))', '(%x)', '(a (b (c (d))))', '(: v)', '(:a:b c)', '((:k v) w)']
HOSTILE = {'format': H_FORMAT, 'date': H_DATE, 'timestamp': H_DATE, 'yaml': H_YAML, 'json': H_YAML, 'toml': H_TOML, 'markdown': H_MD, 'glob': H_GLOB}
TEXTS = {'timestamp': ['', ' ', '0', '-1', '2001-09-09', '2001-02-30', '2001-09-09 01:46:40', '2001-09-09T01:46:40Z', '2001-09-09 01:46:40 +0530', '2001-09-09 01:46:40 +9999', '9' * 30, '-' * 20, 'é', '\0', '99999-01-01', '-0001-01-01', '+262143-12-31', '-262144-01-01', '+999999-01-01', '24:00:00', '23:59:60', 'Sun', 'Feb 30', '12 AM', '1e5', '+00:00', '−05:00', '2001-09-09 01:46:40 \u221205:00']}
OPTS = {'format': ['name', 'k', '0', '1', 'a', 'width'], 'date': ['timezone'], 'timestamp': ['timezone'], 'yaml': ['separator'], 'json': ['separator'], 'toml': ['separator'], 'markdown': ['separator', 'only'], 'glob': ['type', 'sort', 'order'], 'sort': ['key', 'order'],
        'get': ['separator'], 'namespace': ['separator'], 'join': ['trailing']}
ENV = {'SEAM_T1': 'x', 'SEAM_T2': '', 'SEAM_T3': 'é', 'SEAM_T4': [0xff, 0xfe], 'SEAM_T5': 'a\nb'}
SMALL = {'a': 'A (%define v 1)', 'b.sex': '(p %x)', 'f': 'text', 'sub/a': 'S', 'sub/c.md': '# t', 'bad': '(', 'bin': [0xff, 0x00], 'empty': '', 'd': None, 'é': '日', 'q.sex': '(%define (g x) (%list %x %x))'}
NAMES = BUILTIN_NAMES


def hostile_arg(r, name, T):
    x = r.random()
    if name in HOSTILE and x < 0.45:
        return str_src(r, r.choice(HOSTILE[name]))
    if name in TEXTS and x < 0.65:
        return str_src(r, r.choice(TEXTS[name]))
    if name in ('include', 'embed') and x < 0.6:
        return str_src(r, r.choice(list(SMALL) + ['', '.', 'd/', 'nosuch', 'a' * 300, '\0', 'a\0', 'sub/../a', './a', 'sub', 'é', '$ROOT/a', ' ', 'a/b', 'x/' * 60]))
    if name == 'os/env' and x < 0.6:
        return r.choice(list(ENV) + ['""', '"="', '"A=B"', '"\\0"', 'NOSUCH', '"a\\0b"', 'é', 'PATH'])
    if x < 0.6:
        n = r.choice(H_NUM)
        return n if r.p(0.7) else str_src(r, n)
    if x < 0.85:
        return r.choice(H_ANY)
    pool = r.choice([H_FORMAT, H_DATE, H_YAML, H_TOML, H_MD, H_NUM])
    return str_src(r, r.choice(pool)) if r.p(0.6) else T.atom()


def hostile_call(r, T, depth=1):
    name = r.choice(NAMES)
    args = [hostile_arg(r, name, T) for _ in range(r.choice([0, 1, 1, 2, 2, 2, 3, 3, 4, 7]))]
    if name in OPTS:
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            o = r.choice(OPTS[name])
            v = r.choice(['name', 'type', 'file', 'directory', 'any', 'created', 'modified', 'none', 'ascending', 'descending', 'content', 'frontmatter', 'true', 'false', '"."', '""', '"é"', hostile_arg(r, name, T), hostile_arg(r, name, T)])
            args.insert(r.randint(0, len(args)), ':%s %s' % (o, v))
    if depth and args and r.p(0.25):
        args[r.randrange(len(args))] = hostile_call(r, T, depth - 1)
    return wrap(r, T, ['%' + name] + args)


def hostile(r):
    T = Texts(r, 0.25)
    parts = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        c = hostile_call(r, T, 2)
        x = r.random()
        if x < 0.1:
            c = '(%%define %s %s) %%%s' % ('v', c, 'v')
        elif x < 0.2:
            c = '(p %s)' % c
        elif x < 0.25:
            c = '(%%define (f x) %s) (%%f %s)' % (c.replace('%f', 'f'), r.choice(H_ANY).replace('%f', 'f'))
        elif x < 0.3:
            c = '(%s :k %s)' % (r.choice(gen.TAGS + gen.SPECIAL + gen.VOID + ['?xml', '!DOCTYPE', '@media', '@charset', '!', '?', '']), c)
        parts.append(c)
    return {'src': juxtapose(r, T, parts, 0.1), 'files': dict(SMALL), 'env': dict(ENV), 'inc': r.choice([[], [], ['$/sub'], ['nosuch', '$'], ['']])}


ODD_TAGS = ['!DOCTYPE', '!', '?', '?xml', '@', '@media', '@charset', '@font-face', '@import', '@é', 'é', '日本', 'a b', '\\(', '\\ ', '', '<', '&', '-', '--', '#id', '.c', '*', '>', '+', '1', '"s"', 'a:b', 'calc', 'url', 'SVG', 'Style', 'PRE', 'Script']


def markup(r):
    """Trees of odd shapes for the formatters."""
    T = Texts(r, 0.25)

    def node(d):
        x = r.random()
        if d <= 0 or x < 0.25:
            return r.choice([T.atom, T.number, lambda: r.choice(H_ANY).replace('%', ''), lambda: r.choice(H_ANY).replace('%', ''), lambda: '(%raw ' + str_src(r, T.text()) + ')'])()
        if x < 0.4:
            return ':' + r.choice(['', 'k', 'é', 'class', ':', 'a:b', 'style', '-', '--x', '1', '!', '<', '&']) + ' ' + node(d - 1)
        items = [r.choice([lambda: name_src(r, r.choice(ODD_TAGS)) or '()', lambda: r.choice(gen.TAGS + gen.SPECIAL + gen.VOID), lambda: node(d - 1)])()]
        if r.p(0.1):
            items = []
        items += [node(d - 1) for _ in range(r.choice([0, 0, 1, 1, 2, 3, 5]))]
        return wrap(r, T, [i for i in items if i])
    return {'src': juxtapose(r, T, [node(r.choice([1, 2, 3, 4, 5])) for _ in range(r.choice([1, 1, 2, 3]))], 0.1)}


class Mixed:
    """Draws cases {'src', 'files', 'inc', 'env'} from everything."""

    def __init__(self):
        self.gens = [(w, c({})) for w, c in SOURCES]

    def draw(self, r, damage=0.3):
        x = r.random()
        if x < 0.22:
            case, name = hostile(r), 'hostile'
        elif x < 0.32:
            case, name = markup(r), 'markup'
        else:
            g = gen.choose(r, self.gens)
            case, name = g.gen(r), g.id
            if name == 'C20':
                case = {'src': case['ctx'] % ('(%%glob %s %s)' % (str_src(r, case['pat'], False), ' '.join(':%s %s' % tuple(o) for o in case['opts']))),
                        'files': {t[0]: (None if t[1] == 'd' else '') for t in case['tree']}}
                ks = sorted(case['files'], key=len)
                case['files'] = {k: v for k, v in case['files'].items() if not any(o != k and case['files'][o] is not None and k.startswith(o + '/') for o in ks)}
            case = {k: v for k, v in case.items() if k in ('src', 'files', 'inc', 'env')}
        if r.p(damage):
            case['src'] = mutate(r, case['src'])
            name += ' damaged'
        if '%glob' in case['src'] or 'glob' in json.dumps(case.get('files', {})):
            # Searches stay inside the scratch directory.
            t = case['src'].replace('$ROOT/', '')
            if re.search(r'''["\\/]/|\.\.|(^|\s|\()/|~|\\x|\\u|\\[0-7]|"""/''', t):
                raise Skip('glob outside the scratch directory')
            case.setdefault('files', {'a': ''})
        case['from'] = name
        return case

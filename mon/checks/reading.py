"""C03 reading, C04 locations and diagnostics, C05 text and s-expressions."""
from .base import *

FRAGS = ['(', ')', '()', '"', '""', '"""', '"a"', '"""b"""', '\\', ':', ':k', ':k v', ';', '; c\n', ' ', '\n', '\t', '\r', '\r\n', 'a', 'b', '%x', '1',
         '-1', '+', '-', '+x', '2em', '\\(', '\\"', '\\n', '\\\\', '"\\n"', '"\\x41"', '"\\u{e9}"', '"\\101"', '"\\q"', '"\\x4"', '"\\8"', '"\\u00e9"',
         '"\\u{110000}"', '"\\u{}"', '"\\ud800"', '"\\400"', '"\\0"', '"\\\n"', '"\\a\\b\\e\\f\\v"', "'", '`', ',', '"a\\"b"', '"""a"b\\""c"""', '""""x"""', 'é', '日本', '\u0301',
         '\u00a0', '\u2003', '\x0b', '\x0c', '\x00', ':a:b', '::', ':"', ':(', ':;x\n', 'a;b', 'a"b"', 'a(b)c', '0x', '%', '%define', ':\\ x', 'a\\ b', '\\1', 'a\\\nb',
         '9', '8z', '"unclosed', '"""un"', ';;\n\n', '#', '/', '.', '&r', '&&k', '\\;', '\ufeff', '\u0085', '\u2028', '"x" "y"', ') (', '( ; )\n )', '";"', '"(" ")"', '(a :k)', '(a (b :k\n) c)', '(:k ; c\n)', ':k\n', ':k ; c\n v', '(a :k :l)', '(a :k :l\n v)']


def raw_text(r):
    """Adversarial token soup."""
    d = gen.dictionary()
    n = r.choice([1, 2, 3, 5, 8, 13, 30])
    out = []
    for _ in range(n):
        x = r.random()
        if d.fresh and x < 0.1:
            out.append(r.choice(d.fresh))
        elif x < 0.75:
            out.append(r.choice(FRAGS))
        elif x < 0.85:
            out.append(r.choice([' ', '\n', ' ']))
        elif x < 0.95:
            out.append(r.choice(gen.WORDS))
        else:
            out.append(chr(r.choice([r.randint(0, 127), r.randint(0x80, 0x2ff), r.randint(0x370, 0x4ff), r.randint(0x4e00, 0x4eff)])))
    s = ''.join(out)
    if r.p(0.5):
        # make it more likely to be balanced
        depth = 0
        for c in s:
            depth += (c == '(') - (c == ')')
        s = '(' * max(0, -depth) + s + ')' * max(0, depth)
    return s


def block_text(r):
    """Long constructs: many lines, long strings, deep nesting."""
    T = Texts(r, 0.1)
    x = r.random()
    n = r.size(True)
    if x < 0.2:
        return '(' * min(n, 60) + T.atom() + ')' * min(n, 60)
    if x < 0.4:
        return juxtapose(r, T, [T.atom() for _ in range(n)])
    if x < 0.55:
        return '"' * 3 + '\n'.join(T.word() for _ in range(n)) + '"' * 3 + ' ' + T.atom()
    if x < 0.7:
        return ''.join('; %s\n' % T.word() for _ in range(n)) + T.atom()
    if x < 0.85:
        return ('\n' if r.p(0.5) else ' ') * n + T.atom() + '\n' * r.randint(0, 3) + T.atom()
    return str_src(r, ''.join(r.choice(['\n', 'a', 'é', '\\', '"', '日', ' ']) for _ in range(n))) + ' ' + T.atom()


def source_text(r):
    x = r.random()
    if x < 0.35:
        return raw_text(r)
    T = Texts(r, 0.15)
    if x < 0.5:
        return block_text(r)
    if x < 0.8:
        s = juxtapose(r, T, [gen.tree_src(r, T, r.randint(0, 5)) for _ in range(r.randint(1, 4))])
        if r.p(0.3):
            s = T.sp() + s + T.sp()
        return mutate(r, s) if r.p(0.25) else s
    s = Prog(r).program()
    return mutate(r, s) if r.p(0.3) else s


def tok_class(t):
    s = set()
    for tok in t:
        if isinstance(tok, SeamErr):
            s.add('lexical error')
        else:
            s.add({'y': 'symbol', 'n': 'number', 's': 'string', 'k': 'keyword', '(': 'list', ')': 'close'}[tok.k])
    return s


class C03(Check):
    id = 'C03'
    technique = 'runtime monitoring: trees observed from the real parser compared with an executable reference reader over generated and damaged texts'
    rule = 'token soup, random trees, macro programs and damaged variants; non-trivial: at least three tokens or an error'

    def corpus(self):
        return [{'src': s} for s in FRAGS] + [{'src': a + b} for a in FRAGS for b in FRAGS] + \
            [{'src': a + ' ' + b} for a in FRAGS for b in FRAGS] + [{'src': s} for s in gen.char_sources(('(p :k "%s" "%s")', 'a%s"\n%s"', '; %s\n:k%s x %s'), 1)]

    def gen(self, r):
        return {'src': source_text(r)}

    def judge(self, case):
        src = model.Src('<parse>', case['src'])
        try:
            toks = list(model.tokens(src))
            try:
                exp = ('ok', model.parse(src))
            except SeamErr as e:
                exp = ('err', e)
        except Unsure as e:
            raise Skip('model: %s' % e)
        got = self.ask([('op', 'parse'), ('src', case['src'])])
        k = kind_of(got)
        if k != exp[0]:
            raise Bad('%s\nexpected %s\ngot %s' % (short(repr(case['src'])), exp[1].why if exp[0] == 'err' else short(model.to_json(exp[1])),
                                                   short(got)), '%s-for-%s' % (k, exp[0]))
        if k == 'ok':
            e = model.to_json(exp[1])
            if e != got['tree']:
                raise Bad('%s\n%s' % (short(repr(case['src'])), first_diff(e, got['tree'])), 'tree')
            # The expanded tree of a text without macros is the tree itself.
            if '%' not in case['src']:
                run = self.ask([('op', 'run'), ('src', case['src'])])
                if kind_of(run) != 'ok' or run['tree'] != e:
                    raise Bad('%s\n%s' % (short(repr(case['src'])), first_diff(e, run.get('tree') or run)), 'run')
        feats = [exp[0]] + sorted(tok_class(toks))
        if exp[0] == 'err':
            feats.append('err: ' + exp[1].why)
        if ';' in case['src']:
            feats.append('comment')
        if '\\' in case['src']:
            feats.append('escape')
        self.tokens = getattr(self, 'tokens', 0) + len(toks)
        case_len = len(toks)
        if case_len >= 3:
            feats.append('long')
        return feats

    def nontrivial(self, case, feats):
        return 'long' in feats or 'err' in feats

    def extra_evidence(self):
        return {'tokens_compared': getattr(self, 'tokens', 0)}


GEN_BAD = {
    'html': ['(p ())', '(1 x)', '("a" b)', ':a b', '(p x :a b)', '(p :a (b))', '(br x)', '(IMG :a b "t")', '(!doctype (x))', '(p (%list))', '(style "a" "b")',
             '(svg ())', '(style (a b))', '(p (1))', '(style x)', '(math (%raw "x"))', '(div (p :k (l)))'],
    'xml': ['()', '(1)', '("s" x)', '(a (b ()))', ':a b', '(a x :b c)', '(a :b (c))', '(%raw "x")', '(a (%raw "y"))', '(!x (y))', '(?xml "a")', '(a :b c (d) :e f)'],
    'css': ['a', '"s"', ':a b', '(a b (c))', '((a))', '(:a b)', '(a :b (c :d e))', '(a :b :c d)', '(@media x (a :b c) y)', '(a :b c d)', '()', '(@media screen (1 (2)))'],
}


class C04(ProgramCheck):
    id = 'C04'
    technique = 'runtime monitoring: observed token and node locations and the displayed diagnostics compared with a reference computation from the text alone'
    rule = 'texts with multi-line strings, comments, wide characters, includes and every kind of error; non-trivial: more than one line or an error'

    def corpus(self):
        out = []
        for lead in ['', '\n', '; c é\n\n', '(p "a\nb"\n "日本") ', '"\\\n" a\\\nb ', '(x "é\u0301" 日本) ', '"""\n\n""" ; "\n\t']:
            for e in [')', '(', '(a (b)', '"x', '"""x', ':k', '(:k)', '"\\q"', '%nope', '(%nope a)', '(%define)', '(%get 5 (a))', '(%concat (x))',
                      '(%include "/nonexistent/seam")', '(%sort :key nope (a b))', '(%for x in (1) %nope)', '(%apply nope 1)', '(%format "{}")',
                      '(%date "%Q" 0)', '(%markdown (x))', '(%toml "=")', '(%os/env SEAM_NONE)', '(%glob "[")', ':a (%do)', '(%match (%do) (x))']:
                out.append({'src': lead + e})
        for f, bads in GEN_BAD.items():
            for b in bads:
                for lead in ['', '\n\n ', '; "\n\t']:
                    out.append({'src': lead + b, 'fmt': f})
        return out

    def gen(self, r):
        x = r.random()
        if x < 0.3:
            return {'src': source_text(r)}
        P = Prog(r, weird=0.12, err=r.choice([0, 0.01, 0.05]))
        case = {}
        if x < 0.5:
            # an error somewhere in a program
            s = P.program(depth=3)
            bad = r.choice(['%nope', '(%nope x)', '(%get 9 (a b))', '(%join)', '(%concat (a))', '(%number (x))', ')', '(', '"', ':k', '"\\q"', '(%apply nope)',
                            '(%format "{}")', '(%reverse x)', '(%sort x)', '(%sort :key nope (b a))', '(%define (f :k) x)', '(%for 1 in (2) x)', '(%symbol :bad key)',
                            '(%match (%do) x)', '(%define ((a)) b)', '(%lambda 1 x)', '(%ifdef)', '(%include nope)', '(%namespace)', '(%get a (b) c)',
                            '(%define ("f") x)', '(%define (f &a &b) x)', '(%define (f &&a &&b) x)', '(%ifdef (a) b c)', '(%glob x :sort size)', '(%markdown x :only z)'])
            toks = r.randint(0, len(s))
            while 0 < toks < len(s) and not s[toks - 1].isspace():
                toks -= 1
            s = s[:toks] + bad + ' ' + s[toks:]
            case = {'src': s}
        elif x < 0.7:
            fmt = r.choice(['html', 'xml', 'css'])
            T = P.T
            inner = r.choice(GEN_BAD[fmt])
            for _ in range(r.randint(0, 3)):
                if fmt == 'css':
                    break
                inner = wrap(r, T, [r.choice(['div', 'p', 'x-y', 'ul'])] + [str_src(r, T.text()) for _ in range(r.randint(0, 2))] + [inner] +
                             [T.word() for _ in range(r.randint(0, 2))])
            pre = [wrap(r, T, ['a' if fmt == 'css' else 'p', ':k ' + str_src(r, T.text())]) for _ in range(r.randint(0, 3))]
            case = {'src': T.sp() + juxtapose(r, T, pre + [inner]), 'fmt': fmt}
        elif x < 0.85:
            inc = Prog(r, weird=0.12, err=0.03).program(depth=2)
            if r.p(0.5):
                inc = mutate(r, inc)
            case = {'src': P.program(r.randint(0, 2), 2) + '\n(%include "f.sex") ' + P.program(r.randint(0, 2), 2), 'files': {'f.sex': inc}}
        else:
            case = {'src': P.program()}
        if P.env:
            case['env'] = P.env
        return case

    def check_head(self, case, err, text):
        if err.site is None:
            return
        try:
            head = model.diagnostic_head(err)
        except Unsure:
            raise Skip('model: width')
        if not text.startswith(head):
            raise Bad('%s\nexpected the diagnostic to begin with\n%s\ngot\n%s' % (short(repr(case['src'])), head, text), 'head')
        if err.inner is not None and err.inner.site is not None:
            inner = model.diagnostic_head(err.inner)
            if inner not in text:
                raise Bad('%s\nexpected the diagnostic to contain\n%s\ngot\n%s' % (short(repr(case['src'])), inner, text), 'inner')

    def judge(self, case):
        root = self.dir_for(case)
        feats = []
        # tokens
        if not root:
            src = model.Src('<lex>', case['src'])
            toks = list(model.tokens(src))
            got = self.ask([('op', 'lex'), ('src', case['src'])])
            if 'tokens' in got:
                for t, g in zip(toks, got['tokens']):
                    if isinstance(t, SeamErr):
                        break
                    if t.k != g[0] or t.v != g[1]:
                        break                        # a reading error: not ours to judge
                    try:
                        e = model.site_json(t.site), model.site_line(t.site), model.site_column(t.site), model.site_view(t.site)
                    except Unsure:
                        continue
                    if [e[0], e[1], e[2], e[3]] != [g[3], g[4], g[5], g[6]]:
                        raise Bad('%s\ntoken %r: expected location %s, got %s' % (short(repr(case['src'])), t.v, short(e), short(g[3:])), 'token')
                    self.sites = getattr(self, 'sites', 0) + 1
                if toks and isinstance(toks[-1], SeamErr) and 'err' in got and len(got['tokens']) == len(toks) - 1:
                    self.check_head(case, toks[-1], got['err'])
                    feats.append('lexical diagnostic')
        exp = self.expected(case, root)
        fmts = [case['fmt']] if 'fmt' in case else ['html', 'xml', 'css']
        got = self.ask(self.request(case, root, fmts, sites=True))
        k = kind_of(got)
        if k != exp[0]:
            if k in ('panic', 'crash', 'hang'):
                raise Bad('%s\ngot %s' % (short(repr(case['src'])), short(got)), k)
            raise Skip('result kind differs')
        if k == 'err':
            self.check_head(case, exp[1], got['err'])
            feats.append('err')
            feats.append('diagnostic %s: %s' % (exp[1].kind, exp[1].why))
            if exp[1].site is not None and exp[1].site.src is not self.src:
                feats.append('diagnostic in an included file')
        else:
            e = model.to_json(exp[1], True)
            if norm(model.to_json(exp[1])) != norm(strip_sites(got['tree'])):
                raise Skip('tree differs')
            if norm(e) != norm(got['tree']):
                raise Bad('%s\n%s' % (short(repr(case['src'])), site_diff(e, got['tree'])), 'site')
            self.sites = getattr(self, 'sites', 0) + count(exp[1])
            for f in fmts:
                o = got['out'][f]
                try:
                    model.output(f, exp[1])
                    continue
                except SeamErr as ge:
                    err = ge
                except Unsure:
                    continue
                if 'panic' in o:
                    raise Bad('%s\n%s: panic %s' % (short(repr(case['src'])), f, o), 'panic')
                if 'err' in o:
                    self.check_head(case, err, o['err'])
                    feats.append('diagnostic %s: %s' % (err.ml, err.why))
            feats.append('ok')
        if '\n' in case['src']:
            feats.append('several lines')
        if not case['src'].isascii():
            feats.append('wide or multi-byte text')
        return feats

    def nontrivial(self, case, feats):
        return 'several lines' in feats or any(f.startswith('diag') for f in feats)

    def extra_evidence(self):
        return {'locations_compared': getattr(self, 'sites', 0)}


def strip_sites(j):
    out = []
    for x in j:
        if x[0] == 'l':
            out.append([x[0], x[1], x[2], strip_sites(x[3])])
        elif x[0] == 'a':
            out.append([x[0], x[1], x[2], strip_sites([x[3]])[0]])
        else:
            out.append(x[:3])
    return out


def site_diff(e, g):
    def walk(a, b):
        for x, y in zip(a, b):
            if x[0] == 'l':
                if x[4:] != y[4:]:
                    return 'list %s: expected location %s, got %s' % (short(x[:3]), x[4:], y[4:])
                d = walk(x[3], y[3])
            elif x[0] == 'a':
                if x[4:] != y[4:]:
                    return 'attribute :%s: expected location %s, got %s' % (x[1], x[4:], y[4:])
                d = walk([x[3]], [y[3]])
            else:
                d = None if x[3:] == y[3:] else 'node %r: expected location %s, got %s' % (x[1], x[3:], y[3:])
            if d:
                return d
        return None
    return walk(e, g) or 'locations differ'


def odd_names(j):
    """Does the tree hold names that cannot be written, with or without escapes?  They are
    empty, would be read as the call of a macro, or are numbers that look like symbols."""
    for x in j:
        if x[0] == 'l':
            if odd_names(x[3]):
                return True
        elif x[0] == 'a':
            if odd_names([x[3]]):
                return True
        elif x[0] in 'yn':
            v = x[1]
            if not v or x[0] == 'n' and v[0] not in '0123456789+-' or v.startswith('%'):
                return True
    return False


def glued(j):
    """Are there neighbours that no whitespace or parenthesis separates?"""
    for i, x in enumerate(j):
        if x[0] == 'l':
            if glued(x[3]):
                return True
        elif x[0] == 'a':
            if glued([x[3]]) or x[3][0] != 'l' and not x[3][1 if x[3][0] == 'a' else 2]:
                return True
            if x[3][0] == 'a' and not x[3][2]:
                return True
        if i and x[0] != 'l' and not x[2] and j[i - 1][0] != 'l':
            return True
    return False


class C05(ProgramCheck):
    id = 'C05'
    technique = 'runtime monitoring: observed s-expression and text output compared with a reference printer on the observed tree, and re-read by the real parser (round trip)'
    rule = 'random trees and programs; non-trivial: a list or a string in the expanded tree'

    def corpus(self):
        return [{'src': s} for s in ['', ' ', 'a', '"\\""', '"a\\\\b"', '"\n\t\r"', '(a "b" :c (d))', '(%raw "x\\"y")', '(%raw)', '"\\u{301}e\\u{200b}\\x7f\\0"', '() ( )',
                                     '(a\\(b)', 'a\\ b', '(p a\\(b \\) :k\\ \\)\\\\ x)', '\\\\a \\: \\;c \\12 \\- a\\\nb (:a\\\tb c)', '(%symbol "a b" "1" "-" "+x" ":k" ";c" "\\n" "\\\\" "(")', '(%yaml "a b: 1\\n\\"(\\": 2")', ':k\n"v"', '(script (f "x\\"") :a 1)', '"é日😀"'] + gen.char_sources()]

    def gen(self, r):
        T = Texts(r, 0.2)
        x = r.random()
        if x < 0.55:
            return {'src': T.sp() + juxtapose(r, T, [gen.tree_src(r, T, r.randint(0, 5)) for _ in range(r.randint(1, 5))]) + (T.sp() if r.p(0.3) else '')}
        if x < 0.75:
            items = ['(%%raw %s)' % ' '.join(str_src(r, T.text()) for _ in range(r.randint(0, 3))) if r.p(0.4) else gen.tree_src(r, T, 3) for _ in range(r.randint(1, 5))]
            return {'src': juxtapose(r, T, items if r.p(0.5) else [wrap(r, T, ['p'] + items)])}
        P = Prog(r, weird=0.15, err=0)
        return {'src': P.program(), 'env': P.env}

    def judge(self, case):
        root = self.dir_for(case)
        got = self.ask(self.request(case, root, ['sexp', 'text', 'display', 'sexp!', 'text!', 'text+', 'sexp+'], sites=True))
        if kind_of(got) in ('err', 'panic', 'crash', 'hang'):
            raise Skip('no tree: ' + kind_of(got))
        nodes = model.from_json(got['tree'], {})
        feats = []
        for f in ['sexp', 'text', 'display', 'sexp!', 'text!', 'text+', 'sexp+']:
            try:
                e = model.output(f, nodes)
            except Unsure as u:
                feats.append('unsure ' + str(u)[:12])
                continue
            o = got['out'][f]
            if o != {'ok': e}:
                raise Bad('%s\nas %s: %s' % (short(repr(case['src'])), f, first_diff(e, o['ok']) if 'ok' in o else 'got %s' % short(o)), f)
            feats.append('printed ' + f)
        # Read it back.
        plain = strip_sites(got['tree'])
        out = got['out']['sexp']['ok'] if 'ok' in got['out']['sexp'] else None
        if out is not None:
            again = self.ask([('op', 'run'), ('src', out), ('fmt', 'sexp')])
            odd = odd_names(plain)
            if glued(plain):
                feats.append('not separated')
            elif odd:
                feats.append('unwritable name')
            else:
                if kind_of(again) != 'ok' or again['out']['sexp'] != {'ok': out}:
                    raise Bad('%s\nthe s-expression output\n%s\nreads back as %s' % (short(repr(case['src'])), short(out), short(again)), 'round trip')
                if again['tree'] != plain and not LAM.search(out):
                    raise Bad('%s\nthe s-expression output\n%s\nreads back as another tree: %s' % (short(repr(case['src'])), short(out), first_diff(plain, again['tree'])),
                              'round trip tree')
                feats.append('read back')
        if any(x[0] in 'ls' for x in plain):
            feats.append('structured')
        return feats

    def nontrivial(self, case, feats):
        return 'structured' in feats

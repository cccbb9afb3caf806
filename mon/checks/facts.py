"""C27 what diagnostics say."""
import subprocess
from .base import *
from .process import run_cli, check_sane
from .reading import GEN_BAD

SYL = ['ba', 'ko', 'ri', 'tu', 'zel', 'mo', 'nix', 'pra', 'vu', 'sha', 'dor', 'qui', 'len', 'fa', 'gy']
ODD = ['é', 'ß', 'λ', 'ж', '日', '本', '語']


def nonce(r, odd=0.1):
    """A name that no message contains by itself."""
    d = gen.dictionary()
    if d.fresh and r.p(0.05):
        f = r.choice(d.fresh)
        if re.fullmatch(r"[\w./!?-]+", f):
            return 'q' + f
    s = ''.join(r.choice(SYL) for _ in range(r.randint(2, 4)))
    if r.p(0.25):
        s += r.choice(['-', '/', '.', '_', '!', '?', '--', '/-']) + r.choice(SYL) + r.choice(['', 'x', '2', '17'])
    if r.p(odd):
        i = r.randint(1, len(s))
        s = s[:i] + ''.join(r.choice(ODD) for _ in range(r.randint(1, 3))) + s[i:]
    return s


OPTIONS = {'get': [':separator .', ':separator "x y"'], 'join': [':trailing true', ':trailing false'], 'sort': [':order descending', ':order ascending', ':key do'],
           'yaml': [':separator .'], 'toml': [':separator .'], 'markdown': [':separator .', ':only content'], 'date': [':timezone 0', ':timezone -5.5'],
           'timestamp': [':timezone 0', ':timezone 5.5'], 'glob': [':type file', ':type directory', ':sort name', ':order descending', ':sort none']}


class Mistake:
    """One mistaken expression in a program that is otherwise right."""

    def __init__(self, r):
        self.r, self.pre, self.files, self.env, self.ml = r, [], {}, {}, None
        self.T = Texts(r, 0.1)

    def n(self, odd=0.1):
        return nonce(self.r, odd)

    def lit(self):
        r = self.r
        return r.choice([self.n, lambda: str(r.randint(-50, 900)), lambda: str_src(r, self.n() + r.choice(['', ' ', ' ' + self.n(), '"', '\n', '\\']))])()

    def raw(self):
        return '(%%raw %s)' % str_src(self.r, self.n())

    def lst(self, n=None):
        r = self.r
        n = r.choice([0, 1, 2, 3, 5]) if n is None else n
        return '(' + ' '.join(self.lit() if r.p(0.8) else self.attr() for _ in range(n)) + ')'

    def attr(self, k=None):
        return ':%s %s' % (k or self.n(0), self.lit())

    def any(self):
        return self.r.choice([self.lit, self.lit, self.lst, self.attr, self.raw])()

    def nonlit(self):
        return self.r.choice([self.lst, self.attr])()

    def some(self, f, lo=0, hi=4):
        return [f() for _ in range(self.r.randint(lo, hi))]

    def call(self, name, *args):
        return '(%%%s%s)' % (name, ''.join(self.T.sp() + a for a in args))

    def shuffled(self, items):
        self.r.shuffle(items)
        return items

    def data(self, n=None):
        """A list that stands for itself."""
        return '(%list ' + self.lst(n)[1:]

    # -- mistakes

    def unknown_variable(self):
        return '%' + self.n()

    def unknown_macro(self):
        return self.call(self.n(), *self.some(self.any))

    def function_as_variable(self):
        f = self.n()
        self.pre.append('(%%define (%s %s) x)' % (f, ' '.join(self.some(self.n, 1, 3))))
        return self.r.choice(['%' + f, '(p %' + f + ')'])

    def empty_attribute(self):
        return '(p :%s %s)' % (self.n(0), self.r.choice(['(%do)', '(%splat ())', '(%log)', '(%define a b)']))

    def keyword_alone(self):
        return '(p %s :%s)' % (' '.join(self.some(self.any)), self.n(0))

    def bad_escape(self):
        r = self.r
        e = r.choice(['q', 'z', 'Q', '8', '9', 'c', ' ', 'é', '日', 'x4', 'xg1', 'u12', 'u{}', 'u{110000}', 'ud800', 'N', '-', '{', '(', ':', 'u{12', 'uzzzz', '\n'])
        before = ''.join(r.choice([self.n(0.5), ' ', 'é', '日', '\n', '\\n', '\\\\', '\\"', '\\x41', '\\u{e9}', '<', '😀']) for _ in range(r.randint(0, 6)))
        after = r.choice(['', ' ', self.n(), '\\q', ' }'])
        q = '"""' if r.p(0.25) else '"'
        return q + before + '\\' + e + after + q

    def brackets(self):
        r = self.r
        return r.choice([')', '(', '(%s' % self.n(), '%s)' % self.n(), '"%s' % self.n(), '"""%s' % self.n(), '"""%s"' % self.n(), '"%s\\"' % self.n()])

    def fun_call(self, params, args):
        f = self.n()
        self.pre.append('(%%define (%s %s) %s)' % (f, ' '.join(params), self.n()))
        x = self.r.random()
        if x < 0.7:
            return self.call(f, *args)
        if x < 0.8:
            return self.call('apply', f, *args)
        if x < 0.9:
            self.pre.pop()
            return self.call('apply', '(%%lambda (%s) %s)' % (' '.join(params), self.n()), *args)
        return '(%%for (%s) in ((%s)) x)' % (' '.join(params), ' '.join(args))

    def too_few(self):
        k = self.r.choice([1, 2, 3, 4, 6, 11])
        params = [self.n() for _ in range(k)] + (['&' + self.n()] if self.r.p(0.3) else [])
        kws = [self.attr() for _ in range(self.r.choice([0, 0, 0, 1, 2]))]
        return self.fun_call(params, self.shuffled([self.data() if self.r.p(0.2) else self.lit() for _ in range(self.r.randint(0, k - 1))] + kws))

    def too_many(self):
        k = self.r.choice([0, 0, 1, 2, 3, 5, 10])
        params = [self.n() for _ in range(k)] + ([self.attr() for _ in range(self.r.randint(0, 2))] if self.r.p(0.4) else [])
        return self.fun_call(params or [self.attr()], [self.lit() for _ in range(k + self.r.choice([1, 1, 2, 3]))])

    def unknown_keyword(self):
        ks = [self.n(0) for _ in range(self.r.choice([0, 1, 1, 2, 3, 4]))]
        pos = [self.n() for _ in range(self.r.randint(0, 2))]
        params = self.shuffled([':%s %s' % (k, self.lit()) for k in ks] + pos) or ['&' + self.n()]
        bad = [self.n(0) for _ in range(self.r.choice([1, 1, 2, 3, 5]))]
        if self.r.p(0.2):
            bad.append(bad[0])
        good = [k for k in ks if self.r.p(0.4)]
        return self.fun_call(params, self.shuffled([self.attr(k) for k in bad + good] + [self.lit() for _ in pos]))

    def pattern(self):
        """A literal or a name in a pattern that the value is not."""
        r = self.r
        p = r.choice(['77', '"%s"' % self.n(), '(%s %s)' % (self.n(), self.n()), '(:%s 5)' % self.n(0), '(1 %s)' % self.n(), '(("%s"))' % self.n()])
        v = r.choice([self.lit, self.data, lambda: '78', lambda: '(%list (%list (%raw x)))', lambda: '(%%list "%s")' % self.n(), self.raw])()
        return '(%%for %s in (%s) x)' % (p, v)

    def builtin(self):
        """A mistaken argument of a built-in macro."""
        r, L, A = self.r, self.lit, self.any
        opt = r.choice
        calls = {
            'get': lambda: [opt([L, self.nonlit])(), opt([self.data, L, self.raw])()] + self.some(A, 0, 1),
            'number': lambda: self.some(L) + [self.nonlit()] + self.some(L),
            'symbol': lambda: self.some(L) + [self.nonlit()],
            'concat': lambda: self.some(L) + [self.nonlit()],
            'string': lambda: self.some(L) + [self.nonlit()],
            'raw': lambda: self.some(L) + [self.nonlit()],
            'join': lambda: self.shuffled([L() for _ in range(r.randint(0, 3))] + [opt([self.nonlit(), ':trailing %s' % self.n(), ':trailing (%list)', ':trailing true'])]),
            'reverse': lambda: opt([[], [L()], [self.data(), self.data()], [self.data(), self.attr()], [self.raw()]]),
            'sort': lambda: self.shuffled([opt([self.data, L, self.raw])()] + [':%s %s' % (opt(['order', 'key', self.n(0)]), opt([self.n(), '5', '"x"', '(%list)', 'ascending']))]),
            'map': lambda: opt([[], [opt([self.data(), '5', '"%s"' % self.n(), self.raw()])] + self.some(A), [self.n()] + self.some(A, 1, 3)]),
            'filter': lambda: opt([[], [opt([self.data(), '5', '"%s"' % self.n()])] + self.some(A), [self.n()] + self.some(A, 1, 3)]),
            'apply': lambda: opt([[], [opt([self.data(), '5', '"%s"' % self.n()])] + self.some(A), [self.n()] + self.some(A)]),
            'for': lambda: opt([['x'], ['x', 'in'], ['x', self.n(), '(a)'], ['x', 'in', L()], ['x', '5', '(a)'], [], ['x', '"in"', '(1)']]),
            'yaml': lambda: opt([[], ['5'], ['"a"', '"b"'], ['"a"', self.attr()], [self.data()], ['"a"', ':separator (%list)']]),
            'toml': lambda: opt([[], ['5'], ['"a"', '"b"'], ['"a"', self.attr()], [self.data()]]),
            'markdown': lambda: opt([[], [self.n()], ['"a"', '"b"'], ['"a"', self.attr()], ['"a"', ':only ' + self.n()], ['"a"', ':only (%list)'], ['"a"', ':separator (%list)']]),
            'date': lambda: opt([[], [self.data()], ['"%Y"', '0', '1'], ['"%Y"', self.n()], ['"%Y"', '"0"'], ['"%Y"', '0', self.attr()], ['"%Y"', '0', ':timezone ' + self.n()],
                                 ['"%Y"', '0', ':timezone %d' % (r.choice([-1, 1]) * r.randint(24, 3000))]]),
            'timestamp': lambda: opt([[], ['"%Y"'], ['"%Y"', self.data()], ['"%Y"', '"x"', '"y"'], ['"%s"', '"5"', self.attr()], ['"%s"', '"5"', ':timezone "1"'],
                                      ['"%s"', '"5"', ':timezone %d' % (r.choice([-1, 1]) * r.randint(24, 3000))]]),
            'glob': lambda: opt([[], [self.data()], ['a', 'b'], ['a', self.attr()], ['a', ':type ' + self.n()], ['a', ':sort ' + self.n()], ['a', ':order ' + self.n()], ['a', ':sort (%list)']]),
            'lambda': lambda: opt([[], ['5', 'x'], ['"%s"' % self.n(), 'x'], ['(&a &b)', 'x'], ['(&&a &&b)', 'x']]),
            'ifdef': lambda: opt([[], [self.n()], self.some(L, 4, 6), ['(a)', 'b'], [':a b', 'c']]),
            'include': lambda: opt([[], [self.n(), self.n()], self.some(L, 3, 4), [self.data()]]),
            'embed': lambda: opt([[], [self.n(), self.n()], self.some(L, 3, 4), [self.data()]]),
            'os/env': lambda: opt([['SEAM_' + self.n()], ['SEAM_' + self.n().upper()], [], [L(), L()], [self.data()]]),
            'namespace': lambda: opt([[], [self.data()], ['n', self.attr()], ['n', ':separator x', self.attr()], ['n', ':separator (%list)'], ['n', ':separator :a b']]),
            'define': lambda: opt([[], ['5', 'x'], ['"s"', 'x'], ['()'], ['(5 x)', 'y'], ['(f &a &b)'], ['(f &&a &&b)']]),
            'match': lambda: opt([[], ['x', L()], ['x', '()'], ['(%do)'], ['x', '((%do))']]),
            'log': lambda: [self.nonlit()],
        }
        name = r.choice(list(calls))
        args = calls[name]()
        while name in OPTIONS and r.p(0.35):
            # options that are right, anywhere
            args.insert(r.randint(0, len(args)), r.choice(OPTIONS[name]))
        return self.call(name, *args)

    def path(self):
        """A step of %get that is missing."""
        r = self.r
        n = r.choice([0, 1, 2, 3, 7, 12])
        ks = [self.n(0) for _ in range(r.randint(0, 3))]
        inner = '(%s)' % ' '.join(self.shuffled([self.lit() for _ in range(n)] + [':%s %s' % (k, self.lit()) for k in ks]))
        inner = '(%list ' + inner[1:]
        sep = r.choice(['/', '/', '/', '.', ':', '::', '-', ' '])
        miss = r.choice([str(n + len(ks) + r.randint(0, 3)), self.n(0).replace(sep, ''), str(n + len(ks) + 10 ** r.randint(1, 15)), '-1', '+%d' % (n + len(ks)), '0%d' % (n + len(ks)), ''])
        steps = [miss]
        for _ in range(r.randint(0, 2)):
            k = self.n(0).replace(sep, '')
            if r.p(0.5):
                inner = '(%%list :%s %s)' % (k, inner)
                steps.insert(0, k)
            else:
                pre = [self.lit() for _ in range(r.randint(0, 3))]
                inner = '(%%list %s)' % ' '.join(pre + [inner])
                steps.insert(0, str(len(pre)))
        if r.p(0.3):
            steps.append(r.choice(['0', 'x', self.n(0).replace(sep, '')]))
        return self.call('get', *self.shuffled([str_src(r, sep.join(steps), False)] + ([':separator %s' % str_src(r, sep, False)] if sep != '/' or r.p(0.1) else [])) + [inner])

    def key(self):
        r = self.r
        f = self.n()
        body = r.choice(['', 'a b', 'a b c d', ' '.join(['a'] * r.choice([3, 5, 6, 7, 9, 12, 100])), '(q)', ':a b', '%' + self.n(), '(%get 7 (a))', '(%' + self.n() + ')'])
        self.pre.append('(%%define (%s x) %s)' % (f, body))
        parts = [self.data(r.choice([1, 2, 3])), ':key ' + f]
        if r.p(0.2):
            parts = ['(%list (a) (b))', ':order descending']
        return self.call('sort', *self.shuffled(parts))

    def form(self):
        r = self.r
        names = [r.choice(['x', 'a_1'] + SYL) + r.choice(SYL) for _ in range(r.choice([0, 1, 2, 3, 4]))]
        holes = r.randint(0, 3)
        t = self.shuffled(['{%s}' % n for n in names] + ['{}'] * holes)
        args = [self.lit() for _ in range(r.randint(0, holes))] + [':%s %s' % (n, self.lit()) for n in set(names) if r.p(0.5)]
        if r.p(0.2):
            args.append(r.choice([self.data(), ':%s (%%list)' % self.n(0)]))
        first = str_src(r, r.choice(['', ' ', ', ', ' é ']).join(t), False) if r.p(0.95) else r.choice([self.n(), '5', self.data(), self.raw()])
        return self.call('format', first, *self.shuffled(args))

    def file(self):
        """Something in an included file."""
        bad = getattr(self, self.r.choice([k for k in KINDS if k not in ('file', 'out')]))()
        self.files['%s.sex' % 'inc'] = self.r.choice(['', '\n\n', '; é\n', '(p "a\nb") ']) + ' '.join(self.pre) + ' ' + bad + '\n'
        self.pre = []
        return '(%include inc)'

    def out(self):
        """Something that a format cannot express."""
        r = self.r
        self.ml = r.choice(['html', 'xml', 'css'])
        if self.ml == 'html' and r.p(0.5):
            t = r.choice(gen.VOID)
            t = r.choice([t, t.upper(), t.title()])
            return '(%s %s %s)' % (t, r.choice(['', ':a b']), self.lit())
        if self.ml == 'xml' and r.p(0.5):
            return r.choice(['(p %s (%%raw %s))', '(p %s (q (%%raw %s)))', '(p %s :late %s)', '(p %s (:a %s))']) % (self.lit(), self.lit())
        return r.choice(GEN_BAD[self.ml])


KINDS = ['unknown_variable', 'unknown_macro', 'function_as_variable', 'empty_attribute', 'keyword_alone', 'bad_escape', 'brackets', 'too_few', 'too_many',
         'unknown_keyword', 'pattern', 'builtin', 'path', 'key', 'form', 'file', 'out']
WEIGHTS = [2, 2, 2, 1, 2, 4, 2, 4, 3, 6, 4, 16, 5, 3, 5, 4, 3]


class C27(ProgramCheck):
    id = 'C27'
    technique = 'runtime monitoring: the message of each diagnostic observed is searched for the facts of the failure that the reference model states (names, kinds, numbers, positions, lists of keywords), over programs made mistaken in known ways, all formats and the real command'
    rule = 'one mistaken expression, of seventeen kinds, at a random place of a program; non-trivial: a diagnostic of which facts were compared'
    variants = ('plain', 'cli')

    def corpus(self):
        out = []
        for s in ['"\\q"', '"é\\q"', '"日本\\ü"', '"""a\n\\8"""', '"\\n\\\\\\z"', '"\\u{110000}"', '"é\\x4"', '%nope', '(%nope a)', '(p :kw)', '(p :kw (%do))', '(%get nope (a b))', '(%get 7 (a b))',
                  '(%get 0/kw ((a)))', '(%get 0/0 (a))', '(%define (f x) y) %f', '(%define (f x y) z) (%f 1)', '(%define (f x) z) (%f 1 2 3)', '(%define (f :a 1) z) (%f :b 2)',
                  '(%define (f :a 1 :c 2) z) (%f :z 1 :b 2 :z 3)', '(%define (f x) z) (%f 1 :b 2)', '(%os/env SEAM_NOPE)', '(%format "{} {x} {y}")', '(%sort :order up (b a))',
                  '(%sort :key twice (a b))', '(%define (twice x) %x %x) (%sort :key twice (a b))', '(%sort x)', '(%join)', '(%join a :sep b)', '(%reverse (a) (b))', '(%reverse x)',
                  '(%date "%Y" 0 :timezone 25)', '(%for 1 in (2) x)', '(%for "a" in ("b") x)', '(%for (a) in (1) x)', '(%for (:k 1) in ((2)) x)', '(%ifdef a)', '(%include a b)', '(%embed)',
                  '(%namespace n :sep x)', '(%namespace n :separator (x))', '(%format "{}" (x))', '(%concat (x))', '(%string (x))', '(%raw :a b)', ')', '(', '"', '"""', ':a']:
            for lead in ['', 'é ', '(p "日") \n']:
                out.append({'src': lead + s})
        for f in ('html', 'xml', 'css'):
            out += [{'src': s, 'fmt': f} for s in GEN_BAD[f]]
        for a in (['--nope', '--html'], ['--html', '-nope'], ['--html', 'missing-file'], ['--HTML'], ['--html', '--é'], ['-i'], ['--html', '-x', 'y'], ['--markdown']):
            out.append({'src': 'x', 'args': a})
        return out

    def gen(self, r):
        if r.p(0.01):
            ok = [r.choice(['--html', '--xml', '--text', '--css', '--sexp', '--nodoc', '--nodocument', '-I.', '-I' + nonce(r)]) for _ in range(r.randint(0, 3))]
            bad = r.choice([lambda: '--' + nonce(r), lambda: '-' + r.choice('abcdefz') + nonce(r), lambda: nonce(r), lambda: '-' + r.choice('abcdeVi')])()
            ok.insert(r.randint(0, len(ok)), bad)
            return {'src': 'x', 'args': ok}
        m = Mistake(r)
        bad = getattr(m, r.choices(KINDS, WEIGHTS)[0])()
        case = {'files': m.files} if m.files else {}
        if m.ml:
            T = m.T
            inner = bad
            for _ in range(r.choice([0, 1, 2]) if m.ml != 'css' else 0):
                inner = '(%s%s%s)' % (r.choice(['div', 'p', 'ul']), T.sp(), inner)
            return {'src': T.sp() + inner, 'fmt': m.ml}
        T = m.T
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
            # somewhere in a program
            x = r.random()
            if x < 0.25:
                bad = '(%s%s%s %s)' % (r.choice(['p', 'div', m.n()]), T.sp(), bad, ' '.join(m.some(m.lit, 0, 2)))
            elif x < 0.4:
                bad = '(%%do %s %s)' % (' '.join(m.some(m.any, 0, 2)), bad)
            elif x < 0.55:
                f = m.n()
                m.pre.append('(%%define (%s) %s)' % (f, bad) if r.p(0.5) else '(%%define (%s u) p %s)' % (f, bad))
                bad = '(%%%s%s)' % (f, '' if m.pre[-1].startswith('(%%define (%s) ' % f) else ' ' + m.lit())
            elif x < 0.65:
                bad = '(%%for i in (1 2) %s)' % bad
            elif x < 0.75:
                bad = '(%%match x (y z) (v %s))' % bad
            elif x < 0.85:
                bad = '(%%define v %s)' % bad
            elif x < 0.93:
                bad = '(%%namespace n %s)' % bad
            else:
                bad = ':k %s' % bad
        m.r.shuffle(m.pre) if r.p(0.1) else None
        case['src'] = T.sp().join([T.sp()] + m.pre + [bad])
        if r.p(0.3):
            case['src'] += T.sp() + ' '.join(m.some(m.any, 0, 2))
        return case

    def facts(self, case, err, text):
        """-> the number of facts found in the message."""
        if err.site is None:
            return 0
        try:
            head = model.diagnostic_head(err)
        except Unsure:
            raise Skip('model: width')
        if not text.startswith(head):
            raise Skip('another diagnostic')
        n = self.stated(case, err, text[len(head):], text)
        if err.inner is not None and err.inner.site is not None:
            try:
                inner = model.diagnostic_head(err.inner)
            except Unsure:
                return n
            at = text.find(inner, len(head))
            if at >= 0:
                n += self.stated(case, err.inner, text[at + len(inner):], text)
        return n

    def stated(self, case, err, message, text):
        if not message.strip():
            raise Bad('%s\n%s: a diagnostic without a message: %s' % (short(repr(case['src'])), err.why, text), 'no message')
        f = model.missing_fact(err.facts, message)
        if f is not None:
            raise Bad('%s\n%s: the diagnostic should state %s:\n%s' % (short(repr(case['src'])), err.why, f, short(text)), 'fact: ' + err.why)
        return len(err.facts)

    def judge(self, case):
        if 'args' in case:
            return self.command(case)
        root = self.dir_for(case)
        exp = self.expected(case, root)
        fmts = [case['fmt']] if 'fmt' in case else []
        got = self.ask(self.request(case, root, fmts))
        k = kind_of(got)
        if k != exp[0]:
            raise Skip('result kind differs')
        if k == 'err':
            n = self.facts(case, exp[1], got['err'])
            self.n = getattr(self, 'n', 0) + n
            return ['%s: %s' % (exp[1].kind, exp[1].why), '%d facts' % min(n, 9)] + (['in a file'] if exp[1].site.src is not self.src else [])
        feats = ['ok']
        for f in fmts:
            o = got['out'][f]
            try:
                model.output(f, exp[1])
            except SeamErr as e:
                if 'err' in o:
                    n = self.facts(case, e, o['err'])
                    self.n = getattr(self, 'n', 0) + n
                    feats += ['%s: %s' % (e.ml, e.why), '%d facts' % min(n, 9)]
        return feats

    def command(self, case):
        """The command names the argument that it cannot use."""
        if self.scratch is None:
            self.scratch = drv.Scratch()
        p = run_cli(self.bin['cli'], case['args'], b'x', cwd=self.scratch.path)
        check_sane(self, case, None, case['args'], p)
        if p[0] == 0:
            raise Skip('accepted')
        for a in case['args']:
            if not (a in ('--html', '--xml', '--text', '--css', '--sexp', '--nodoc', '--nodocument') or a.startswith('-I')):
                break
        else:
            raise Skip('no mistake')
        text = p[2].decode('utf-8', 'replace')
        if model.missing_fact([a], text):
            raise Bad('seam %s\nthe message should name %s:\n%s' % (' '.join(case['args']), a, short(text)), 'argument')
        self.n = getattr(self, 'n', 0) + 1
        return ['command: ' + ('option' if a.startswith('-') else 'file'), '1 facts']

    def nontrivial(self, case, feats):
        return any(f.endswith(' facts') and f != '0 facts' for f in feats)

    def extra_evidence(self):
        return {'facts_compared': getattr(self, 'n', 0)}

"""C11 definitions and scoping, C12 binding, C13 list macros, C14 sorting,
C15 literal and string macros, C18 namespaces, C22 argument validation."""
from .base import *

VARS = ['x', 'y', 'z']
FUNS = {'f': 1, 'g': 2, 'h': 0, 'k': 1}


class Scope:
    """Programs over very few names, with every name probed after every
    construct, so that a definition seen too early, too late, or in the wrong
    place shows in the output."""

    def __init__(self, r, prefixes=()):
        self.r, self.T = r, Texts(r, 0.05)
        self.n = 0
        self.left = r.choice([10, 20, 40])
        self.bound = []
        self.prefixes = list(prefixes)
        d = gen.dictionary()
        self.vars = list(VARS)
        self.odd = r.p(0.2)
        if self.odd:
            self.vars += [r.choice(['title', 'in', 'do', 'x/y', 'list', 'a-b', 'é', '@x', 'ns/x', '%x', '!', '1x'])]
        if d.fresh and r.p(0.4):
            self.vars.append(''.join(c for c in r.choice(d.fresh) if c not in '()"\\;' and not c.isspace()) or 'w')

    def lst(self, items):
        return wrap(self.r, self.T, items)

    def uniq(self):
        self.n += 1
        r = self.r
        return r.choice(['v%d', '"s%d"', '%d', 'v%d', '"s %d"']) % self.n

    def nm(self, v):
        return name_src(self.r, v, 'v') if not v[0].isdigit() else '\\' + v

    def probe(self):
        r = self.r
        out = []
        names = list(dict.fromkeys(self.vars + self.bound))
        for v in names:
            if r.p(0.7):
                out.append(self.lst(['%ifdef', self.nm(v), self.lst([self.nm(v) if not v.startswith('%') else 'pct', '%' + name_src(r, v, 'k')])] +
                                    (['none'] if r.p(0.8) else [])))
        for f in FUNS:
            if r.p(0.3):
                out.append(self.lst(['%ifdef', f, '"%s!"' % f, '"%s?"' % f]))
        for p in self.prefixes:
            v = p + r.choice(VARS)
            if r.p(0.5):
                out.append(self.lst(['%ifdef', str_src(r, v, False), self.lst(['p', '%' + name_src(r, v, 'k')]), 'none']))
            f = p + r.choice(list(FUNS))
            if r.p(0.4):
                n = FUNS[f[len(p):]]
                out.append(self.lst(['%ifdef', str_src(r, f, False), self.lst(['%' + name_src(r, f, 'k')] + [self.uniq() for _ in range(n)]), 'none']))
        return juxtapose(r, self.T, out) if out else self.uniq()

    def val(self, depth):
        r = self.r
        x = r.random()
        if x < 0.45 or depth <= 0:
            return self.uniq()
        if x < 0.6:
            v = r.choice(self.vars + self.bound)
            return self.lst(['%ifdef', self.nm(v), '%' + name_src(r, v, 'k'), self.uniq()])
        if x < 0.7:
            return self.lst([self.uniq(), self.val(depth - 1)])
        return self.stmt(depth - 1)

    def body(self, depth, n=None):
        r = self.r
        return [self.stmt(depth) for _ in range(r.randint(0, 3) if n is None else n)] + ([self.probe()] if r.p(0.6) else [])

    def inner(self, names, f):
        old = self.bound
        self.bound = old + names
        out = f()
        self.bound = old
        return out

    def call(self, depth):
        r = self.r
        f = r.choice(list(FUNS))
        n = FUNS[f]
        args = [self.val(depth - 1) if r.p(0.5) else self.uniq() for _ in range(n)]
        # a body that expands to several nodes would be too many arguments
        args = [self.lst(['%list', a]) if not a.startswith(('v', '"')) and not a.isdigit() else a for a in args]
        c = self.lst(['%' + f] + args) if r.p(0.75) else self.lst(['%apply', f] + args)
        return self.lst(['%ifdef', f, c] + (['nof'] if r.p(0.5) else []))

    def stmt(self, depth):
        r = self.r
        self.left -= 1
        if depth <= 0 or self.left <= 0:
            return r.choice([self.probe, self.uniq])()
        d = depth - 1
        x = r.random()
        if x < 0.20:
            v = r.choice(self.vars)
            body = [self.val(d) for _ in range(r.choice([1, 1, 1, 0, 2, 3]))]
            if r.p(0.25):
                body.append(self.lst(['%ifdef', self.nm(v), '%' + name_src(r, v, 'k'), 'fresh']))
            return self.lst(['%define', self.nm(v)] + body)
        if x < 0.33:
            f = r.choice(list(FUNS))
            ps = [self.r.choice(['a', 'b', 'x'])] if FUNS[f] == 1 else ['a', 'b'] if FUNS[f] == 2 else []
            body = self.inner(ps, lambda: self.body(d) + ['%' + p for p in ps])
            # no recursion: bodies call only functions later in the table
            later = '|'.join(k for k in FUNS if k >= f)
            body = [b for b in body if not re.search('%%(%s)\\b|apply\\s+(%s)\\b' % (later, later), b)] if r.p(0.97) else body
            return self.lst(['%define', self.lst([f] + ps)] + body)
        if x < 0.48:
            return self.call(depth)
        if x < 0.55:
            p = r.choice(['m', 'x', '(m n)', '(m &n)'])
            names = [w.strip('&') for w in p.strip('()').split()]
            v = self.uniq() if not p.startswith('(') else self.lst([self.uniq() for _ in range(2)])
            brs = []
            if r.p(0.3):
                brs.append(self.lst([self.lst(['q', 'q', 'q', 'q']), self.lst(['%define', 'x', self.uniq()])]))
            brs.append(self.lst([p] + self.inner(names, lambda: self.body(d))))
            return self.lst(['%match', v] + brs)
        if x < 0.62:
            i = r.choice(['i', 'x', 'y'])
            return self.lst(['%for', i, 'in', self.lst([self.uniq() for _ in range(r.choice([0, 1, 2, 3]))])] + self.inner([i], lambda: self.body(d)))
        if x < 0.70:
            return self.lst(['%do'] + self.body(d))
        if x < 0.77:
            return self.lst(['%ifdef', r.choice(VARS + list(FUNS)), self.lst(['%do'] + self.body(d))] + ([self.stmt(d)] if r.p(0.6) else []))
        if x < 0.82:
            return self.lst(['wrap'] + self.body(d))
        if x < 0.87:
            a = r.choice(['a', 'x', '(a)', '()'])
            names = [a.strip('()')] if a.strip('()') else []
            lam = self.lst(['%lambda', a] + self.inner(names, lambda: self.body(d)))
            args = [self.uniq()] if names else []
            y = r.random()
            if y < 0.4:
                return self.lst(['%apply', lam] + args)
            if y < 0.7 and names:
                return self.lst([r.choice(['%map', '%filter']), lam] + [self.uniq() for _ in range(r.randint(0, 3))])
            return self.lst(['%define', 'l', lam]) + ' ' + self.lst(['%apply', '%l'] + args)
        if x < 0.92:
            if self.prefixes or r.p(0.3):
                return self.namespace(d)
            return self.lst(['e', ':att', self.lst(['%do', self.lst(['%define', r.choice(VARS), self.uniq()]), self.uniq()])])
        if x < 0.95:
            # recursion that ends
            return self.lst(['%define', self.lst(['k', 'l']), self.lst(['%match', '%l', self.lst([self.lst(['hd', '&tl']), '%hd', self.lst(['%k', self.lst(['%list', '%tl'])])])])]) \
                + ' ' + self.lst(['%k', self.lst([self.uniq() for _ in range(r.randint(0, 5))])])
        if x < 0.97:
            return '%' + r.choice(self.vars + list(FUNS))
        return self.probe()

    def namespace(self, depth):
        r = self.r
        ns = r.choice(['ns', 'm', '"ns"', 'a/b'])
        sep = '/'
        opt = []
        if r.p(0.4):
            sep = r.choice(['/', ':', '.', '::', '', '-', '/x/', 'é'])
            opt = [':separator' + r.choice([' ', '\n', '  ']) + str_src(r, sep)]
        if r.p(0.12):
            # a name that begins or ends with the separator
            name = r.choice(['n' + sep, sep + 'n', sep, 'n' + sep + sep]) or 'n'
            ns = str_src(r, name)
            pre = name + sep
        else:
            pre = ns.strip('"') + sep
        body = self.body(depth)
        if pre not in self.prefixes:
            self.prefixes.append(pre)
        for q in list(self.prefixes):
            if len(self.prefixes) < 6 and r.p(0.3) and len(pre + q) < 30:
                self.prefixes.append(pre + q)
        return self.lst(['%namespace', ns] + opt + body)

    def program(self, depth=4):
        r = self.r
        parts = [self.stmt(depth) for _ in range(r.randint(1, 5))] + [self.probe()]
        return juxtapose(r, self.T, parts)


SCOPE_CORPUS = [
    '(%define x 1) (%define y %x) (%define x 2) %x %y',
    '(%define x 1) (%define (f) %x) (%define x 2) (%f)',
    '(%define (f a) (%define x %a) %x) (%f 1) (%ifdef x in out)',
    '(%define x 1) (%define (f) (%define x 2) (%g)) (%define (g) %x) (%f) %x (%g)',
    '(%match 1 (q (%define x 1))) (%ifdef x in out)', '(%for i in (1 2) (%define x %i)) (%ifdef x in out) (%ifdef i in out)',
    '(%for i in (1 2 3) (%ifdef x %x none) (%define x %i))', '(%do (%define x 1)) %x', '(p (%define x 1)) %x', '(p :k (%do (%define x 1) 2)) %x',
    '(%define (f a) %a) (%f (%do (%define x 1) 2)) %x', '(%ifdef nope (%define x 1)) (%ifdef x in out)', '(%ifdef nope (%define x 1) (%define y 2)) (%ifdef x in out) %y',
    '(%define x) (p a %x b)', '(%define x 1 2 3) (p a\n %x\n  b)', '(p (%ifdef z a b) (%ifdef z a\n b)\n  (%ifdef z a b))', '%x', '(%x)', '(%define (f) 1) %f (%f 1)',
    '(%define (f) 1) %f', '(%define (f x) 1) %f', '(%define x 1) (%x)', '(%define x 1) (%x 2)', '(%apply (%lambda x (%define y %x) %y) 5) (%ifdef y in out)',
    '(%define l (%lambda (a b) (p %b %a))) (%apply %l 1 2) (%apply %l 3 4)', '(%define (f a) (%lambda b (p %a %b))) (%apply (%f 1) 2)',
    '(%define define 1) %define', '(%define (list a) mine) (%list 1 2)', '(%define x %x)', '(%define f 1) (%define (f) 2) (%f) (%define f 3) %f',
    '(%define x  ( 1  2 )  3)\n(p %x  %x\n%x)', '(%do) (p (%do) a (%do  b c)\n(%do\nd))', '(%define (f x) %x) (p (%f 1)  (%f 2)\n(%f 3))',
    '(%define (f) (%define (g) 1) (%g)) (%f) (%g)', '(%define (f) (%define (g) 1) (%g)) (%f) (%ifdef g in out)', '(%define (f n) (%match %n (0 done) (m %m (%f 0)))) (%f 3)',
    '(%map (%lambda x (%define y %x) %y) 1 2) (%ifdef y in out)', '(%ifdef x %y ok)', '(%ifdef "x y" a b) (%define x\\ y 1) (%ifdef "x y" %x\\ y b)',
    '(%define (x) a) (%ifdef x 1 2)', '(%define (f x :y 1) (%define z %y) %z) (%f 2 :y 5) (%f 3) (%ifdef z in out)',
]


class C11(ProgramCheck):
    id = 'C11'
    technique = 'runtime monitoring: expansions of scoping programs with probes on every name compared with a reference expander'
    rule = 'programs over few names in which every definition has a unique value and names are probed after every construct; non-trivial: a definition is used'

    def corpus(self):
        return [{'src': s} for s in SCOPE_CORPUS]

    def gen(self, r):
        if r.p(0.08):
            return self.files(r)
        if r.p(0.75):
            S = Scope(r)
            return {'src': S.program(r.randint(2, 5))}
        P = Prog(r, weights=dict(define=14, defun=12, call=16, var=14, match=6, for_=6, ifdef=8, do=6, apply=6, lambda_=4, namespace=0, sort=1, format=0, raw=1))
        return {'src': P.program(), 'env': P.env}

    def files(self, r):
        """A program split over included files, with definitions and lambdas at
        the same places of several files."""
        S = Scope(r)
        S.odd = False
        names = r.sample('lmno', r.randint(2, 4))
        pad = r.choice(['', '', ' ', '\n', '; c\n', '(%define z 1) '])
        files, parts = {}, []
        for n in names:
            x = r.random()
            if x < 0.5:
                text = '(%%define %s (%%lambda (a) %s))' % (n, r.choice(['%s', '(p %s %%a)', '%%a %s', '(%%define x %s)']) % S.uniq())
            elif x < 0.7:
                text = '(%%define (%s a) (%%apply (%%lambda (b) %s) %%a))' % (n, r.choice(['%s', '(p %s %%b)']) % S.uniq())
            elif x < 0.85:
                text = '(%%define (%s a) (q %s %%a)) %s' % (n, S.uniq(), S.probe())
            else:
                text = '(%%define %s (%%for i in (1 2) (%%lambda (c) %s)))' % (n, S.uniq())
            files[n + '.sex'] = pad + text + (r.choice(['', '\n', ' ']) + S.stmt(2) if r.p(0.3) else '')
            parts.append('(%%include %s)' % n)
            if r.p(0.2):
                parts.append(S.stmt(2))
            if r.p(0.15):
                parts.append('(%%include %s)' % r.choice(names[:len(parts)] or names) if r.p(0.5) else '(%%define x (%%include %s))' % n)
        for n in r.sample(names, len(names)):
            text = files[n + '.sex']
            parts.append('(%%%s %s)' % (n, S.uniq()) if '(%%define (%s' % n in text else '(%%apply %%%s %s)' % (n, S.uniq()))
        parts.append(S.probe())
        return {'src': juxtapose(r, S.T, parts), 'files': files}


class C18(ProgramCheck):
    id = 'C18'
    technique = 'runtime monitoring: expansions of namespace programs with prefixed and unprefixed names probed, compared with a reference expander'
    rule = 'programs over few names with nested namespaces and separators, every name probed inside and outside; non-trivial: a namespace is expanded'

    def corpus(self):
        return [{'src': s} for s in [
            '(%namespace n (%define x 1)) %n/x (%ifdef x in out)', '(%define v 1) (%namespace n) (%ifdef n/v in out)', '(%define v 1) (%define (f a) (p %a)) (%namespace n (%define w %v)) %n/w (%ifdef n/v in out) (%n/f 1)', '(%define v 1) (%namespace n (%define v 1)) %n/v %v',
            '(%namespace n (%define v 1)) (%namespace m (%define w 1)) (%ifdef m/n/v in out) (%ifdef m/w in out)', '(%namespace n (%define v 1)) (%namespace n (%define v 2)) %n/v (%ifdef n/n/v in out)', '(%define v 1) (%namespace n (%namespace m (%define w %v))) %n/m/w (%ifdef n/m/v in out) (%ifdef n/v in out)',
            '(%define x 0) (%namespace n (%define x 1) %x) %x %n/x',
            '(%namespace n :separator : (%define (f a) (p %a))) (%n:f 1)', '(%namespace n (%namespace m (%define x 1))) %n/m/x (%ifdef m/x in out)',
            '(%namespace n a  b\n(c d))', '(%namespace n)', '(%namespace)', '(%namespace n :separator "" (%define x 1)) %nx', '(%namespace (n) a)',
            '(%namespace n :sep x a)', '(%namespace n :separator (x) a)', '(%define y 2) (%namespace n (%define x %y)) %n/x %n/y',
            '(%define ns name) (%namespace %ns (%define x 1)) %name/x', '(%namespace n (%define x 1)) (%namespace n (%define y 2)) %n/x %n/y',
            '(%namespace n (%define x 1)) (%define n/x 2) %n/x', '(%define n/x 0) (%namespace n (%define x 1)) %n/x', '(%namespace 5 (%define x 1)) %5/x',
            '(%namespace "a b" (%define x 1)) %a\\ b/x', '(%namespace a. :separator . (%define x 1)) %a..x (%ifdef a.x in out)', '(%namespace n/ (%define x 1)) %n//x (%ifdef n/x in out)', '(%namespace / (%define x 1)) %//x', '(%namespace /n (%define x 1)) %/n/x (%ifdef n/x in out)', '(%namespace n :separator - :separator + (%define x 1)) %n+x', '(%namespace n (%define (g) 7) (%define (f) (%n/g))) (%n/f)',
            '(%namespace n (%define (g) 7) (%define (f) (%g))) (%n/f)', '(p (%namespace n  a) (%namespace n\n a))', '(%for i in (1 2) (%namespace n (%define x %i))) (%ifdef n/x in out)',
        ]]

    def gen(self, r):
        S = Scope(r, ['ns/'])
        S.odd = False
        parts = []
        for _ in range(r.randint(1, 4)):
            parts.append(S.namespace(3) if r.p(0.6) else S.stmt(3))
        return {'src': juxtapose(r, S.T, parts + [S.probe()])}

    def nontrivial(self, case, feats):
        return '%namespace' in feats


# ---------------------------------------------------------------- binding

class Binder:
    def __init__(self, r):
        self.r, self.T, self.n = r, Texts(r, 0.1), 0
        self.wide = r.p(0.3)

    def lst(self, items):
        return wrap(self.r, self.T, items)

    def uniq(self):
        self.n += 1
        return self.r.choice(['v%d', '"s%d"', '%d', 'w%d']) % self.n

    def value(self, depth):
        r = self.r
        x = r.random()
        if x < 0.75 or depth <= 0:
            return self.uniq()
        return self.lst([self.value(depth - 1) if r.p(0.8) else ':%s %s' % (r.choice('pqrs'), self.uniq()) for _ in range(r.randint(0, 3))])

    def literal(self):
        r = self.r
        return r.choice(['1', '"one"', '-2', '"a b"', '""', '2em', '"1"', '+1', '"é"', '"%s"' % r.choice(['One', 'a', 'ab', 'É', '-', 'a\\n', 'a\\tb']),
                         '%d' % r.randint(-20, 120)])

    def near(self, lit):
        """A literal that is almost but not quite the given one."""
        r = self.r
        if not lit.startswith('"'):
            return r.choice([lit + '0', '0' + lit if lit[0].isdigit() else lit + '.', lit + '.0', '"%s"' % lit, '+' + lit if lit[0].isdigit() else '1', lit + '1', '-' + lit.strip('+-')])
        s = lit[1:-1]
        return '"%s"' % r.choice([s + ' ', ' ' + s, s + '\\n', s.upper(), s.lower(), s.swapcase(), s + s, s[:1], s + '.', '\\t' + s, s.replace(' ', '  '), s + '\\0'])

    def pattern(self, depth, top=True):
        """-> tree of ('sym', n) | ('lit', s) | ('list', items) ; items may hold ('named', k, default|pattern) ('rest', n) ('krest', n)"""
        r = self.r
        items = []
        count = r.randint(0, 6 if self.wide else 3)
        if r.p(0.05):
            count = r.size(True) % 40
        for _ in range(count):
            x = r.random()
            if x < 0.65 or depth <= 0:
                self.n += 1
                items.append(('sym', 'n%d' % self.n))
            elif x < 0.8:
                items.append(('lit', self.literal()))
            else:
                items.append(('list', self.pattern(depth - 1, False)))
        for _ in range(r.choice([0, 0, 1, 2, 3]) if not self.wide else r.randint(0, 5)):
            self.n += 1
            items.insert(r.randint(0, len(items)), ('named', 'k%d' % self.n, self.value(1)))
        if r.p(0.35):
            self.n += 1
            items.insert(r.randint(0, len(items)), ('rest', 'r%d' % self.n))
        if r.p(0.3):
            self.n += 1
            items.insert(r.randint(0, len(items)), ('krest', 'q%d' % self.n))
        return items

    def src(self, items):
        out = []
        for it in items:
            if it[0] == 'sym':
                out.append(it[1])
            elif it[0] == 'lit':
                out.append(it[1])
            elif it[0] == 'list':
                out.append(self.lst(self.src(it[1])))
            elif it[0] == 'named':
                out.append(':%s %s' % (it[1], it[2]))
            elif it[0] == 'rest':
                out.append('&' + it[1])
            else:
                out.append('&&' + it[1])
        return out

    def names(self, items):
        out = []
        for it in items:
            if it[0] == 'list':
                out += self.names(it[1])
            elif it[0] != 'lit':
                out.append(it[1])
        return out

    def args(self, items, errp):
        r = self.r
        pos, named = [], []
        rest = krest = False
        for it in items:
            if it[0] == 'sym':
                pos.append(self.value(2))
            elif it[0] == 'lit':
                if r.p(errp):
                    pos.append(self.literal() if r.p(0.4) else self.near(it[1]))
                else:
                    pos.append(it[1] if not (it[1].startswith('"') and r.p(0.2)) else '(%%raw %s)' % it[1])
            elif it[0] == 'list':
                pos.append(self.lst(self.args(it[1], errp)) if not r.p(errp / 2) else self.uniq())
            elif it[0] == 'named':
                if r.p(0.55):
                    named.append(':%s %s' % (it[1], self.value(1)))
                if r.p(0.05):
                    named.append(':%s %s' % (it[1], self.value(1)))
            elif it[0] == 'rest':
                rest = True
            else:
                krest = True
        if rest:
            pos += [self.value(1) for _ in range(r.size(True) if self.wide else r.choice([0, 1, 2, 3, 5]))]
        if krest:
            named += [':%s %s' % (r.choice(['aa', 'bb', 'cc', 'dd', 'zz', 'a%d' % self.n]), self.value(1)) for _ in range(r.choice([0, 1, 2, 3, 4, 9]))]
        if r.p(errp):
            x = r.random()
            if x < 0.3:
                pos.insert(r.randint(0, len(pos)), self.uniq())
            elif x < 0.6 and pos:
                pos.pop(r.randrange(len(pos)))
            elif x < 0.7:
                named.append(':%s %s' % (r.choice(['aa', 'k1', 'k2', 'zzz']), self.uniq()))
            elif x < 0.8:
                k = r.choice([i[1] for i in items if i[0] in ('named', 'sym', 'rest', 'krest')] or ['k1'])
                named.append(':%s %s' % (r.choice([k.upper(), k.title(), k + '0', k[:-1] or 'k', k + '-', '%' + k, k]), self.uniq()))
            elif len(pos) > 1:
                i = r.randrange(len(pos) - 1)
                pos[i], pos[i + 1] = pos[i + 1], pos[i]
        r.shuffle(named)
        out = pos
        for n in named:
            out.insert(r.randint(0, len(out)), n)
        return out

    def show(self, items):
        names = self.names(items)
        if self.r.p(0.3):
            self.r.shuffle(names)
        return [self.lst([n, '%' + n]) for n in names]

    def program(self):
        r = self.r
        x = r.random()
        out = []
        if x < 0.5:
            pat = self.pattern(3)
            out.append(self.lst(['%define', self.lst(['f'] + self.src(pat))] + self.show(pat)))
            for _ in range(r.randint(1, 3)):
                a = self.args(pat, r.choice([0, 0, 0.15]))
                out.append(self.lst(['%f'] + a) if r.p(0.8) else self.lst(['%apply', 'f'] + a))
        elif x < 0.6:
            pat = self.pattern(2)
            out.append(self.lst(['%apply', self.lst(['%lambda', self.lst(self.src(pat))] + self.show(pat))] + self.args(pat, r.choice([0, 0, 0.15]))))
        elif x < 0.7:
            pat = self.pattern(2)
            out.append(self.lst(['%for', self.lst(self.src(pat)), 'in', self.lst([self.lst(self.args(pat, r.choice([0, 0, 0.05]))) for _ in range(r.randint(0, 4))])] +
                                self.show(pat)))
        else:
            pats = [self.pattern(3) for _ in range(r.randint(1, 4))]
            target = r.choice(pats)
            val = self.lst(self.args(target, r.choice([0, 0.1, 0.3])))
            every = [n for p in pats for n in self.names(p)]
            def probes():
                # what the patterns that did not match may have left behind
                return [self.lst(['%ifdef', n, '(%s %%%s)' % (n, n), 'unset']) for n in r.sample(every, min(len(every), 4))] if r.p(0.4) else []
            brs = [self.lst([self.lst(self.src(p)), 'b%d' % i] + self.show(p) + probes()) for i, p in enumerate(pats)]
            if r.p(0.3):
                brs.insert(r.randint(0, len(brs)), self.lst([r.choice(['any', self.literal()]), 'atom']))
            if r.p(0.5):
                brs.append(self.lst(['any', 'default'] + probes()))
            if r.p(0.15):
                # an attribute against attribute patterns
                k = r.choice(['kind', 'a', 'x-y', 'É', 'n1'])
                near = [k, k, k.upper(), k.title(), k.lower(), k + '2', k[:-1] or 'b', k + '-']
                val = ':%s %s' % (k, self.value(1))
                for _ in range(r.randint(1, 3)):
                    self.n += 1
                    inner = r.choice(['at%d' % self.n, 'at%d' % self.n, '(at%d)' % self.n, self.literal()])
                    brs.insert(r.randint(0, len(brs)), self.lst([':%s %s' % (r.choice(near), inner), 'attr'] + ['(v %%at%d)' % self.n] * ('at' in inner)))
            elif r.p(0.3):
                lit = self.literal()
                val = r.choice([lit, lit, self.literal(), self.near(lit), 'sym'])
                brs.insert(0, self.lst([lit, 'hit', lit]))
                if r.p(0.6):
                    brs.insert(r.randint(0, 1), self.lst([self.near(lit), 'close']))
            out.append(self.lst(['%match', val] + brs))
            if r.p(0.3):
                out.append(juxtapose(r, self.T, [self.lst(['%ifdef', n, 'in', 'out']) for n in self.names(target)[:4]] or ['x']))
        return juxtapose(r, self.T, out)


class C12(ProgramCheck):
    id = 'C12'
    technique = 'runtime monitoring: observed bindings of calls, lambdas, loops and match branches (unique values) compared with a reference binder'
    rule = 'random parameter lists (positional, literal, nested, named, &rest, &&rest) against fitting and misfitting arguments with unique values; non-trivial: at least one binding'

    def corpus(self):
        out = []
        params = ['', 'a', 'a b', 'a :k 1', ':k 1', ':k 1 a', '&r', 'a &r', '&r a', '&&q', 'a &&q', ':k 1 &&q', 'a :k 1 &r &&q', '(a b)', '(a &r) c', '1', '"s" a', ':k 1 :l 2',
                  '(a :k 1)', '&r &s', '&&q &&s', '(&r)', '((a))', 'a a', ':k 1 :k 2', '&', '&&']
        args = ['', '1', '1 2', '1 2 3', ':k 5', '1 :k 5', ':k 5 1', ':k 5 :l 6', '1 :k 5 2', '1 2 :z 5', ':z 5', ':z 5 :y 6 :z 7', '(1 2)', '(1 2) 3', '"s" 1', '(1 2 3) 4', '(1 :k 5)', '((1))',
                '()', ':k (1 2)', ':k :l 1', '1 (2)', '(1)', ':k 5 :k 6']
        for p in params:
            names = [w.strip('&()') for w in re.findall(r'(?<!\S)\(*&*[a-z]+\)*|:(?:k|l)', p)]
            names = [n.strip(':&()') for n in re.findall(r'[:&]*[a-z]+', re.sub(r'"[^"]*"', '', p))]
            names = [n for n in names if n]
            body = ' '.join('(%s %%%s)' % (n, n) for n in dict.fromkeys(names))
            for a in args:
                out.append({'src': '(%%define (f %s) %s)\n(%%f %s)' % (p, body, a)})
                out.append({'src': '(%%match (%s) ((%s) yes %s) (other no %s))' % (a, p, body, ' '.join('(%%ifdef %s (left %%%s) clean)' % (n, n) for n in dict.fromkeys(names)))})
        for v in ['1', '"1"', 'x', '(1)', '()', ':k 1', '(%raw 1)', '-1', '"x"']:
            for q in ['1', '"1"', 'x', '(1)', '()', ':k 1', '(a)', '"x"', '(%raw 1)', '&r', ':k v', '+1', '1.0']:
                out.append({'src': '(%%match %s (%s hit))' % (v, q)})
        return [{'src': s['src']} for s in out]

    def gen(self, r):
        return {'src': Binder(r).program()}

    def nontrivial(self, case, feats):
        return 'ok' in feats


# ---------------------------------------------------------------- list macros

class Lists:
    def __init__(self, r):
        self.r, self.T, self.n = r, Texts(r, 0.1), 0
        self.pre = []

    def lst(self, items):
        return wrap(self.r, self.T, items)

    def uniq(self):
        self.n += 1
        return self.r.choice(['e%d', '"s%d"', '%d', 'e%d']) % self.n

    def elem(self, depth=2):
        r = self.r
        x = r.random()
        if x < 0.62 or depth <= 0:
            return self.uniq()
        if x < 0.68:
            return '(%%raw %s)' % self.uniq()
        if x < 0.74:
            return '()'
        if x < 0.84:
            return ':%s %s' % (r.choice(['a', 'b', 'key', '0', '1']), self.elem(depth - 1))
        if x < 0.92:
            return self.lst([self.uniq()] + [self.elem(depth - 1) for _ in range(r.randint(0, 3))])
        return self.expr(depth - 1)

    def elems(self, depth=2, big=True):
        n = self.r.size(big)
        return [self.elem(depth if n < 12 else 0) for _ in range(n)]

    def plist(self, depth=2):
        es = self.elems(depth)
        if es and es[0].startswith('%'):
            es.insert(0, self.uniq())
        return self.lst(es)

    def fn(self, kind):
        """A one-argument function."""
        r = self.r
        x = r.random()
        if x < 0.25:
            return r.choice(['list', 'do', 'list'])
        name = 'fn%d' % len(self.pre)
        body = r.choice(['%e', '(%list %e)', '%e %e', '', '(x %e)', '%e (y)', '(%splat (%list %e a b))', '()', '(%match %e ("s1" ()) (e1 ()) (other %other))',
                         '(%match %e ((h &t) ()) (o %o))', '(%match %e (() ()) (o %o))', '(%match %e ((h &t) %h) (o (%list)))', '(%list)', '() ()', '(%do)', '(())', '(%match %e ((:a v) %v) ((&r) %r) (o %o))'])
        if r.p(0.5):
            self.pre.append('(%%define (%s e) %s)' % (name, body))
            return name
        return '(%%lambda %s %s)' % (r.choice(['e', '(e)']), body)

    def expr(self, depth=2):
        r = self.r
        k = r.choice(['map', 'filter', 'for', 'list', 'splat', 'reverse', 'apply', 'get', 'map', 'filter', 'for', 'get', 'reverse', 'splat', 'strip'])
        d = depth - 1
        if k in ('map', 'filter'):
            args = self.elems(2 if d > 0 else 1)
            # an attribute passed on its own is a named argument
            if r.p(0.85):
                args = [a for a in args if not a.startswith(':')]
            return self.lst(['%' + k, self.fn(k)] + args)
        if k == 'for':
            pat = r.choice(['e', '(e)', '(e &r)', 'e', 'e'])
            if pat == 'e':
                items = self.plist(1)
                body = r.choice([['%e'], ['(li %e)'], ['%e', '%e'], [], ['a', '(%list %e)'], ['(%map do %e)'], ['(%for x in (1 2) %x %e)']])
            else:
                items = self.lst([self.lst([self.uniq()] + ([self.uniq() for _ in range(r.randint(0, 2))] if 'r' in pat else [])) for _ in range(r.size())])
                body = ['%e'] + (['(r %r)'] if 'r' in pat else [])
            return self.lst(['%for', pat, 'in', items] + body)
        if k == 'list':
            return self.lst(['%list'] + self.elems(d + 1))
        if k == 'splat':
            return self.lst(['%splat'] + [self.plist(1) if r.p(0.7) else self.elem(d) for _ in range(r.choice([0, 1, 1, 2, 3]))])
        if k == 'reverse':
            return self.lst(['%reverse', self.plist(d + 1) if r.p(0.7) else '(%list ' + ' '.join(self.elems(d)) + ')'])
        if k == 'apply':
            x = r.random()
            if x < 0.5:
                return self.lst(['%apply', r.choice(['list', 'do', 'splat', 'strip'])] + self.elems(d + 1))
            return self.lst(['%apply', 'map', self.fn('map')] + [a for a in self.elems(1) if not a.startswith(':')])
        if k == 'strip':
            return self.lst(['%strip'] + self.elems(d + 1))
        # get
        return self.get(d)

    def get(self, depth):
        r = self.r
        sep = r.choice(['/', '/', '/', ':', '.', '::', '', 'é', '0'])

        def build(level):
            n = max(1, r.size(True)) if level == 0 and r.p(0.2) else r.randint(1, 4)
            at = r.randrange(n)
            items, key = [], None
            for i in range(n):
                kw = r.choice(['a', 'b', 'key', '0', '1', '2', 'zz', '-1', '+1', '01', '1.0', 'A']) if r.p(0.4) else None
                if i == at:
                    inner, path = build(level + 1) if level < 3 and r.p(0.5) else (self.elem(0), [])
                    key = kw if kw is not None and r.p(0.8) else str(i)
                else:
                    inner = self.elem(0)
                items.append((':%s ' % kw if kw is not None else '') + inner)
            if r.p(0.1):
                key = r.choice(['9', 'nope', '-1', '', '+0', '00', '0', '1', '000', '+00'])
            elif key.isdigit() and r.p(0.12):
                key = r.choice(['', '+']) + '0' * r.choice([1, 2, 3, 5, 20]) + key
            return self.lst(items), [key] + path
        l, path = build(0)
        p = sep.join(path)
        parts = ['%get', str_src(r, p, False), l]
        if sep != '/' or r.p(0.1):
            parts.insert(r.randint(1, len(parts)), ':separator ' + str_src(r, sep, False))
        return self.lst(parts)

    def program(self):
        r = self.r
        body = [self.expr(r.randint(1, 3)) for _ in range(r.randint(1, 3))]
        if r.p(0.3):
            body = [self.lst(['p'] + body)]
        return juxtapose(r, self.T, self.pre + body)


class C13(ProgramCheck):
    id = 'C13'
    technique = 'runtime monitoring: observed results of list macros over uniquely named elements compared with a reference expander'
    rule = 'list macros alone and composed over lists of 0 to 257 unique elements of every kind; non-trivial: the result has elements'

    def corpus(self):
        out = ['(%get 0 (a))', '(%get 1 (a))', '(%get k (:k v))', '(%get 0 (:k v))', '(%get k/1 (:k (a b)))', '(%get 0/k ((:k v)))', '(%get -1 (a))', '(%get +1 (a b))', '(%get 01 (a b))', '(%get 001 (a b))', '(%get 0001 (a b))', '(%get +01 (a b))', '(%get 000 (a b))', '(%get 00000000000000000000000001 (a b))', '(%get 1.0 (a b))', '(%get 1e0 (a b))', '(%get " 1" (a b))', '(%get "1 " (a b))', '(%get 0x1 (a b))', '(%get 0/01 ((a b)))',
               '(%get "" (a))', '(%get "" (:a b))', '(%get a:b (:a (:b c)) :separator :)', '(%get :separator "" 12 (a (b c d)))', '(%get 0/0 (a))', '(%get (a) (b))', '(%get 0 a)', '(%get 1 (:1 a b))',
               '(%reverse ())', '(%reverse (a))', '(%reverse (a  b\nc))', '(%reverse ( a b ))', '(%reverse (:k v a))', '(%reverse a)', '(%reverse (a) (b))', '(%reverse)', '(%reverse (%splat ((a b))))',
               '(%map list)', '(%map list a)', '(%map list a b c)', '(%map do (a) b)', '(%map nope a)', '(%map nope)', '(%map (list) a)', '(%map)', '(%map list :k v)', '(%map "list" a)',
               '(%filter list)', '(%filter do a () b)', '(%filter do a (()) b)', '(%filter list a b)', '(%filter splat (()) (() ()) (a))', '(%filter do (%list))', '(%filter splat () ())',
               '(%for x in () %x)', '(%for x in (1 2))', '(%for x in (1  2\n3) %x)', '(%for (a b) in ((1 2) (3 4)) %b %a)', '(%for (a b) in ((1 2) (3)) %b)', '(%for x on (1) %x)', '(%for x in 1 %x)',
               '(%for x in (%list 1 2) %x)', '(%for x in (:k 1) %x)', '(%for :k v in (1) x)', '(%for x in (1 2) (%for y in (3 4) (%x %y)))', '(%for x in (1 2) (%for y in (3 4) (p %x %y)))',
               '(%splat)', '(%splat a)', '(%splat (a b) c (d))', '(%splat ((a) (b)))', '(%splat ())', '(p  (%splat ( a b)  (c)))', '(%splat :k (a))', '(%list)', '(%list a  b)', '(%list %nope)',
               '(p (%list  a b ))', '(%apply list)', '(%apply list a b)', '(%apply reverse (a b))', '(%apply (list) a)', '(%apply)', '(%apply nope)', '(%apply map list a b)', '(%strip)', '(p (%strip a b)  (%strip\n c))',
               '(%strip (%strip a))']
        for n in (10, 100, 127, 128, 255, 256, 257, 300, 1000, 9999, 32768, 65536, 70000):
            out += ['(%%get %d (%s))' % (i, ' '.join('e%d' % k for k in range(n + 1))) for i in (n, n + 1)]
        out += ['(%get 4294967296 (a b))', '(%get 18446744073709551616 (a b))', '(%get 18446744073709551615 (a b))', '(%get 4294967297 (a b :4294967297 c))', '(%get 340282366920938463463374607431768211456 (a))']
        return [{'src': s} for s in out]

    def gen(self, r):
        if r.p(0.8):
            return {'src': Lists(r).program()}
        P = Prog(r, weights=dict(map=14, filter=10, for_=14, list=10, splat=10, reverse=10, apply=8, get=12, sort=0, format=0, namespace=0, env=0, join=1, raw=1))
        return {'src': P.program()}

    def judge(self, case):
        feats = super().judge(case)
        m = max((int(x) for x in re.findall(r'\be(\d+)', case['src'])), default=0)
        if m > 16:
            feats.append('more than 16 elements')
        return feats


# ---------------------------------------------------------------- sorting

class C14(ProgramCheck):
    id = 'C14'
    technique = 'runtime monitoring: observed order of sorted lists with tagged elements compared with a reference stable sort, plus permutation and order checks'
    rule = 'lists of 0 to 257 tagged elements with many equal keys, mixed numbers and text, key macros and orders; non-trivial: at least two elements'

    def corpus(self):
        ks = ['()', '(a)', '(b a)', '(10 9 1)', '(10 9 a 1 b)', '("b" a 1 "1" -1 +1 1.0)', '(1.5 1 2 -1.5)', '(a B b A)', '(é z a)', '(1e3 999 1001)', '(9007199254740993 9007199254740992 9007199254740994)',
              '(- + a 1)', '(2em 1px 10)', '(3  1\n2)', '(170141183460469231731687303715884105727 170141183460469231731687303715884105726 1)', '("" a 1)', '("2" 10 "1")', '(:k 1)', '((1))', '(b (%raw a))',
              '(0 -0 0.0 -0.0 +0)', '(ab a abc)', '(0.1 0.10 .1)', '(1 a 1 a 1)']
        out = []
        for k in ks:
            for o in ['', ' :order ascending', ' :order descending', ' :key do', ' :order x', ' :key nope']:
                out.append({'src': '(%%sort %s%s)' % (k, o)})
        out += [{'src': s} for s in ['(%sort a)', '(%sort)', '(%sort (a) (b))', '(%sort :key list (b a))', '(%sort :key "do" (b a))', '(%define (k e) %e %e) (%sort :key k (b a))',
                                     '(%define (k e)) (%sort :key k (b a))', '(%define (k e) (%get 1 %e)) (%sort :key k ((a 2) (b 1) (c 1)))', '(%sort :key k ())', '(p  (%sort (b a))\n(%sort ( b a )))',
                                     '(%define (k e) %f) (%define f 1) (%sort :key k (c b a))', '(%sort (b a) :order)']]
        return out

    def keytext(self, r, pool):
        return r.choice(pool)

    def gen(self, r):
        T = Texts(r, 0.1)
        n = r.size(True)
        if r.p(0.25):
            n = r.choice([2, 20, 21, 22, 32, 33, 40, 64, 100])
        style = r.random()
        if style < 0.35:
            lo = r.choice([0, -5, -100])
            pool = [str(r.randint(lo, r.choice([3, 10, 1000]))) for _ in range(max(2, r.randint(2, 12)))]
            if r.p(0.5):
                base = r.randint(-9, 9)
                pool += ['%d.0' % base, '+%d' % abs(base), '%d' % base, '%d.5' % base, '0%d' % abs(base), '%de0' % base]
        elif style < 0.55:
            pool = [T.word() for _ in range(r.randint(1, 8))] + ['a', 'A', 'aa', 'é', 'z', '-', '+']
        elif style < 0.65:
            b = r.choice([2 ** 53, 2 ** 63, 2 ** 64, 10 ** 20, 2 ** 127 - 5])
            pool = [str(s * (b + k)) for k in range(-3, 4) for s in (1, -1)]
        elif style < 0.72 and gen.dictionary().fresh_ints:
            b = r.choice(gen.dictionary().fresh_ints)
            pool = [str(b + k) for k in range(-3, 4)] + [str(b * 2), str(-b)]
        elif style < 0.8:
            pool = [T.number() for _ in range(r.randint(2, 10))]
        else:
            pool = [T.number() if r.p(0.4) else T.word() if r.p(0.7) else T.text() for _ in range(r.randint(2, 12))]

        def src(v):
            if re.fullmatch(r'[+-]?[0-9][0-9.e]*', v) and r.p(0.7):
                return v
            return str_src(r, v, False) if r.p(0.5) or not v else name_src(r, v)
        keys = [r.choice(pool) for _ in range(n)]
        form = r.random()
        pre, opt = '', []
        if form < 0.35:
            items = [src(k) for k in keys]
        elif form < 0.6:
            items = ['(%s "t%d")' % (src(k), i) for i, k in enumerate(keys)]
            pre = '(%define (first e) (%get 0 %e))\n'
            opt.append(':key first')
        elif form < 0.75:
            items = ['(x%d :n %s)' % (i, src(k)) for i, k in enumerate(keys)]
            pre = '(%define (byn e) (%get n %e))\n'
            opt.append(':key byn')
        elif form < 0.85:
            items = ['(%s "t%d" z)' % (src(k), i) for i, k in enumerate(keys)]
            opt.append(':key (%lambda (e) (%get 0 %e))')
        elif form < 0.89:
            # named items among the others: the key sees them as named arguments
            kw = r.choice(['k', 'n', 'é', 'a-b'])
            items = [':%s%s%s' % (kw, r.choice([' ', '  ', '\n']), src(k)) if r.p(0.5) else src(k) for k in keys]
            pre = r.choice(['(%%define (key :%s "" &r) (%%concat %%%s %%r))\n' % (kw, kw), '(%%define (key :%s zz &r) (%%match (%%list %%r) (() %%%s) (o %%r)))\n' % (kw, kw)])
            opt.append(':key key')
        elif form < 0.93:
            items = [src(k) for k in keys]
            pre = '(%define (len e) (%match %e ' + ' '.join('(%s %d)' % (src(k), r.randint(0, 3)) for k in dict.fromkeys(pool) if src(k)[0] in '"0123456789') + ' (o 9)))\n'
            opt.append(':key len')
        else:
            items = [src(k) for k in keys]
            opt.append(':key ' + r.choice(['do', 'string', 'concat', 'symbol']))
        if r.p(0.04) and items:
            items[r.randrange(len(items))] = r.choice(['()', ':k v', '(a b)', '(%do)'])
        if r.p(0.5):
            opt.append(':order ' + r.choice(['ascending', 'descending', 'descending']))
        l = wrap(r, T, items) if items and not items[0].startswith('(%') else '(' + ' '.join(items) + ')'
        parts = ['%sort', l]
        for o in opt:
            parts.insert(r.randint(1, len(parts)), o)
        s = wrap(r, T, parts)
        if r.p(0.15):
            s = '(p ' + T.sp() + s + ' ' + s + ')'
        return {'src': pre + s}

    def judge(self, case):
        feats = super().judge(case)
        n = case['src'].count('"t')
        if n > 20:
            feats.append('more than 20 tagged elements')
        if ':key' in case['src']:
            feats.append('key macro')
        if 'descending' in case['src']:
            feats.append('descending')
        return feats


# ---------------------------------------------------------------- literals

class C15(ProgramCheck):
    id = 'C15'
    technique = 'runtime monitoring: observed text of string-building macros compared with a reference over arbitrary texts, whitespace and environment values'
    rule = 'string macros over arbitrary literals, nested and with environment variables; non-trivial: at least one such macro'

    def corpus(self):
        out = ['(%string)', '(%string a)', '(%string a  b\n"c")', '(%string (a))', '(%string :k v)', '(%raw)', '(%raw "<b>" x)', '(%raw (a))', '(%concat)', '(%concat a "b" 1)', '(%concat (a))', '(%concat a :k v)',
               '(%join ",")', '(%join "," a)', '(%join "," a b c)', '(%join "," a b :trailing true)', '(%join :trailing false "," a b)', '(%join "," :trailing true)', '(%join :trailing yes "," a)', '(%join)',
               '(%join (a) b)', '(%join "," (a))', '(%join "" a b)', '(%symbol "a b" 1 c)', '(%symbol (a))', '(%symbol)', '(%number "12" a 3)', '(%number "x")', '(%strip  a b)', '(%format "{}" a)', '(%format "{} {}" a b)',
               '(%format "{1} {0}" a b)', '(%format "{k}" :k v)', '(%format "{}")', '(%format "{k}" v)', '(%format a)', '(%format)', '(%format "{{}}" a)', '(%format "{:>5}|{:<5}|{:^5}|" 1 b c)', '(%format "x" a)',
               '(%format "{} {k} {}" a :k v b)', '(%format "{0} {0}" a)', '(%format "{}" (a))', '(%format "{k}" :k (a))', '(%format "{}{}" a)', '(%os/env SEAM_A)', '(%os/env "SEAM_A")', '(%os/env SEAM_NONE)', '(%os/env)',
               '(%os/env (a))', '(%os/env SEAM_A SEAM_A)', '(%os/env SEAM_B)', '(p  (%string  a) (%string\n a) (%concat  a b))', '(%string "a" (%string " b ") (%raw " c "))', '(%format "{:05}|{:5}|" 1 a)',
               '(%format "{} {}" "{1}" "x")', '(%format "{a} {b}" :a "{b}" :b "{a}")', '(%format "{b} {a}" :a "{b}" :b "{a}")', '(%format "{0}{2}{1}" "{1}{2}" "{0}{2}" "{}{{}}")', '(%format "{}" "{")', '(%format "{}{}" "}" "{")', '(%format "{} {}" "[curly=open]" "[curly=close]")',
               '(%format "{:>5}|{:<4}|{:*^7}" "{1}" "{:<4}" "{}")', '(%format "{{{}}}{}" "}}" "{{")', '(%format "{}{}" "\ue000{" "\ue001}\ue002[\ue003")', '(%format "{} \ue000{{" "{")', '(%format "\ue000\ue001\ue002 {} {}" "{}[" "]")', '(%format "{}" :a "{" "}")',
               '(%format "{_a}" :_a 1)', '(%format "{_}{_b}{a_}{a-b}{A}{_1}" :_ 1 :_b 2 :a_ 3 :a-b 4 :A 5 :_1 6)', '(%format "{_a}{a}" :a 1 :_a 2)', '(%format "{A}{a}" :a 1 :A 2)', '(%format "{a}" :_a 1)', '(%format "{_a}" :a 1)', '(%format "{ab}{a}{b}" :a 1 :b 2 :ab 3)',
               '(%concat "é" "日" "\\u{1F600}")', '(%join "é" a b)']
        return [{'src': s, 'env': {'SEAM_A': 'v w', 'SEAM_B': [255, 254]}} for s in out]

    def gen(self, r):
        P = Prog(r, weights=dict(raw=12, string=14, concat=14, join=14, number=8, symbol=8, strip=8, format=12, env=10, do=3, sort=0, namespace=0, for_=2, map=5, filter=1, defun=2, call=3), weird=0.25, simple=0.1)
        src = P.program(depth=r.randint(1, 4))
        env = dict(P.env)
        if env and r.p(0.03):
            k = r.choice(list(env))
            env[k] = [0x61, 0xff, 0xc3]
        return {'src': src, 'env': env}

    def world(self, case, root):
        w = super().world(case, root)
        w.env = {k: bytes(v) if isinstance(v, list) else v for k, v in w.env.items()}
        return w

    def judge(self, case):
        if any(isinstance(v, str) and '\0' in v for v in case.get('env', {}).values()):
            raise Skip('NUL in the environment')
        return super().judge(case)

    def nontrivial(self, case, feats):
        return any(f in ('%raw', '%string', '%concat', '%join', '%number', '%symbol', '%strip', '%format', '%os/env') for f in feats)


# ---------------------------------------------------------------- arguments

YAML = {'a: 1': ('m', [('a', ('s', '1'))]), 'x': ('s', 'x')}
KINDS = ['sym', '1', '"str"', '(%raw "r")', '(l i)', '()', ':key val', ':k (l)', '(%do)', '-2', '""', '(%do a b)', '(%list)', 'ascending', 'true', 'in', 'name']
# name: (valid positionals, trailing, {option: values})
SPECS = {
    'get': (['0', '((a b))'], None, {'separator': ['"/"', '.', '5', '(x)', '(%raw "/")']}),
    'number': ([], ['1', '"2"', 'x'], {}),
    'symbol': ([], ['a', '"b c"', '3'], {}),
    'reverse': (['(c b a)'], None, {}),
    'sort': (['(b a c)'], None, {'order': ['ascending', 'descending', '"descending"', 'up', '(x)', 'Ascending'], 'key': ['do', '"do"', '3', '(do)', 'symbol']}),
    'join': (['","'], ['a', '"b"', '3'], {'trailing': ['true', 'false', '"true"', 'yes', '(true)', '1', 'TRUE']}),
    'concat': ([], ['a', '"b"', '3'], {}),
    'map': (['list'], ['a', '(b)', '"c"'], {}),
    'filter': (['do'], ['a', '()', '"c"'], {}),
    'apply': (['list'], ['a', '(b)', ':k v'], {}),
    'lambda': (['(x)'], ['%x', 'a'], {}),
    'for': (['x', 'in', '(1 2)'], ['%x', 'a'], {}),
    'yaml': (['"a: 1"'], None, {'separator': ['"/"', '.', '5', '(x)']}),
    'json': (['"x"'], None, {'separator': ['"/"', '.', '5', '(x)']}),
    'toml': (['"a = 1"'], None, {'separator': ['"/"', '.', '5', '(x)']}),
    'markdown': (['"x"'], None, {'only': ['frontmatter', 'content', '"content"', 'all', '(content)', 'Content'], 'separator': ['"/"', '.', '(x)', '5']}),
    'date': (['"%Y"', '86400'], None, {'timezone': ['0', '1', '-3.5', '"2"', 'utc', '(1)', '+5']}),
    'timestamp': (['"%Y-%m-%d %H:%M:%S"', '"2001-09-09 01:46:40"'], None, {'timezone': ['0', '1', '-3.5', '"2"', 'utc', '(1)']}),
    'glob': (['"/nonexistent/*"'], None, {'type': ['file', 'directory', 'any', '"file"', 'link', '(file)', 'File'],
                                          'sort': ['modified', 'created', 'name', 'type', 'none', 'size', '"name"', '(name)'],
                                          'order': ['ascending', 'descending', 'up', '"ascending"']}),
}
# ... and those that check their arguments themselves
SPECS.update({
    'os/env': (['SEAM_A'], None, {}),
    'include': (['f'], None, {}),
    'embed': (['f'], None, {}),
    'string': ([], ['a', '"b"', '3'], {}),
    'raw': ([], ['"b"', 'a'], {}),
    'symbol': ([], ['a', '"b c"', '3'], {}),
    'splat': (['(a b)'], ['(c)', '()'], {}),
    'list': ([], ['a', '(b)', ':k v'], {}),
    'do': ([], ['a', '(b)'], {}),
    'strip': (['" a"'], ['b'], {}),
    'log': ([], ['a', '"b"', '3'], {}),
    'format': (['"{} {}"', '1', 'a'], None, {}),
    'namespace': (['n'], ['a', '(b)'], {}),
    'define': (['v'], ['a', '(b)'], {}),
    'ifdef': (['f', 'a', 'b'], None, {}),
    'match': (['1', '(1 a)'], ['(x %x)', '((a b) c)'], {}),
})
C22_WORLD = {'files': {'f': 'one (two)', 'g': 'three'}, 'env': {'SEAM_A': 'v w', 'SEAM_B': 'x'}}
UNKNOWN = ['keys', 'sep', 'sort', 'order', 'key', 'Separator', 'separator', 'only', 'type', 'timezone', 'trailing', '1', '2']


class C22(ProgramCheck):
    id = 'C22'
    technique = 'runtime monitoring: acceptance and result of every built-in for systematically mutated argument lists compared with a reference argument checker'
    rule = 'each built-in with valid, missing, excess, wrongly typed and unknown arguments, with options in every position; non-trivial: every case'

    def corpus(self):
        out = []
        for name, (pos, trail, opts) in SPECS.items():
            base = list(pos) + (trail or [])
            calls = [base, pos, base[:-1], base + ['x'], base + ['(l)'], base + [':zz 1'], []]
            for i in range(len(base)):
                for k in KINDS:
                    calls.append(base[:i] + [k] + base[i + 1:])
                calls.append(base[:i] + base[i + 1:])
                for k in ['x', '(l)', ':zz 1', '1', '"s"']:
                    calls.append(base[:i] + [k] + base[i:])
                # the same text as another kind of literal
                t = base[i][1:-1] if base[i].startswith('"') else base[i]
                if t and not any(c in t for c in ' ():"%\\'):
                    for k in ['"%s"', '(%%raw "%s")', '(%%number %s)', '(%%symbol %s)', '(%%string %s)', '(%%list %s)', '(%%do %s)', '((%%do %s))', ':k %s']:
                        calls.append(base[:i] + [k % t] + base[i + 1:])
            for o, vals in opts.items():
                for v in [v for v in vals if not any(c in v for c in ' ():"%\\')]:
                    for k in ['"%s"', '(%%raw "%s")', '(%%number %s)', '(%%symbol %s)', '(%%list %s)', '(%%do %s)', '(%%do %s %s)', ':k %s']:
                        calls.append(base + [':%s %s' % (o, k.replace('%s', v).replace('%%', '%'))])
                for v in vals:
                    for i in range(len(base) + 1):
                        calls.append(base[:i] + [':%s %s' % (o, v)] + base[i:])
                calls.append(base + [':%s %s' % (o, vals[0]), ':%s %s' % (o, vals[1])])
                calls.append(base + [':%s %s' % (o, vals[1]), ':%s %s' % (o, vals[0])])
            for o in UNKNOWN:
                for i in range(len(base) + 1):
                    calls.append(base[:i] + [':%s x' % o] + base[i:])
            names = list(opts)
            for i, a in enumerate(names):
                for b in names[i + 1:]:
                    for va in opts[a]:
                        for vb in opts[b]:
                            calls.append([':%s %s' % (a, va)] + base + [':%s %s' % (b, vb)])
            for c in calls:
                out.append(dict({'src': '(%%%s)' % ' '.join([name] + c)}, **(C22_WORLD if name in ('os/env', 'include', 'embed') else {})))
        for name in ('os/env', 'include', 'embed'):
            for a in ('SEAM_A SEAM_B', 'SEAM_B SEAM_A', 'f g', 'f f', 'SEAM_A SEAM_A', 'f :k g', ':k f', 'SEAM_A :k SEAM_B', ':k SEAM_A', '(f)', '(SEAM_A)', '"f" g', 'f ()', 'SEAM_A ()', '(%do SEAM_A SEAM_B)', '(%do f g)', '(%do f)', '(%do SEAM_A)'):
                out.append(dict({'src': '(%%%s %s)' % (name, a)}, **C22_WORLD))
        for name in BUILTIN_NAMES:
            for a in [''] + [' ' + k for k in KINDS] + [' %s %s' % (a, b) for a in KINDS for b in KINDS]:
                out.append({'src': '(%%%s%s)' % (name, a)})
            for n in range(8):
                for k in ['a', '1', '"s"', '(x a)', '(%do)', ':o v', '"%Y"']:
                    out.append({'src': '(p (%%%s%s))' % (name, (' ' + k) * n)})
                    out.append({'src': '(%%define a 1)(p (%%%s a%s))' % (name, (' ' + k) * n)})
                    out.append({'src': '(p (%%%s (%s)%s))' % (name, (' ' + k) * (n % 4), ' (x 1)' * (n % 3))})
        return out

    def any_call(self, r):
        """Any built-in, any number of arguments of any kind."""
        T = Texts(r, 0.05)
        kinds = KINDS + ['f', 'f', '%f', 'zz', '(a b)', '(:k v)', '((a) b)', '(1 2 3)', '(1 one)', '(any x)', '"%Y"', '"{0} {}"', '(%list a b)', '(%lambda (x) %x)']
        args = [r.choice(kinds) for _ in range(r.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 9]))]
        return {'src': '(%define f 1) (p ' + wrap(r, T, ['%' + r.choice(BUILTIN_NAMES)] + args) + ')'}

    def gen(self, r):
        if r.p(0.35):
            return self.any_call(r)
        name = r.choice(list(SPECS))
        pos, trail, opts = SPECS[name]
        more = C22_WORLD if name in ('os/env', 'include', 'embed') else {}
        T = Texts(r, 0.05)
        args = list(pos) + ([r.choice(trail) for _ in range(r.size())] if trail else [])
        for o, vals in opts.items():
            for _ in range(r.choice([0, 1, 1, 2])):
                args.insert(r.randint(0, len(args)), ':%s%s%s' % (o, T.sp(), r.choice(vals[:3] if r.p(0.7) else vals)))
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
            x = r.random()
            if x < 0.08 and args:
                i = r.randrange(len(args))
                t = args[i].strip('"')
                if t and not any(c in t for c in ' \t\n():"%\\;'):
                    args[i] = r.choice(['"%s"', '(%%raw "%s")', '(%%number %s)', '(%%symbol %s)', '(%%string %s)', '(%%do %s)', '(%%list %s)']) % t
            elif x < 0.25 and args:
                args.pop(r.randrange(len(args)))
            elif x < 0.5:
                args.insert(r.randint(0, len(args)), r.choice(KINDS))
            elif x < 0.7 and args:
                args[r.randrange(len(args))] = r.choice(KINDS) if r.p(0.7) else T.atom()
            elif x < 0.85:
                args.insert(r.randint(0, len(args)), T.kw_src(r.choice(UNKNOWN + gen.dictionary().fresh)) + ' ' + T.atom())
            elif len(args) > 1:
                i, j = r.randrange(len(args)), r.randrange(len(args))
                args[i], args[j] = args[j], args[i]
        y = r.random()
        if y < 0.15:
            # through variables: arguments are expanded first
            return dict({'src': '(%%define a1 %s) (%%%s %s %%a1)' % (args[0] if args else '1', name, ' '.join(args[1:]))}, **more)
        if y < 0.25:
            return dict({'src': '(%%apply %s %s)' % (name, ' '.join(args))}, **more)
        return dict({'src': wrap(r, T, ['%' + name] + args)}, **more)

    def world(self, case, root):
        w = super().world(case, root)
        w.yaml = dict(YAML)
        w.markdown = {'x': ('<p>x</p>', None)}
        w.glob = lambda pattern, opts: [] if pattern == '/nonexistent/*' else self.unknown()
        return w

    def unknown(self):
        raise Unsure('glob')

    def nontrivial(self, case, feats):
        return True

    def features(self, case, exp):
        m = self.MACRO.findall(case['src'])
        return super().features(case, exp) + (['%s: %s' % (m[-1], 'accepted' if exp[0] == 'ok' else 'rejected')] if m else [])

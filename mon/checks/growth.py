"""C28: the cost of documents of different sizes, measured on the real command."""
import os, re, time, resource, subprocess, tempfile, signal
from checks.process import MixedCheck
from checks.base import short
from engine import Bad, Skip, Inconclusive
import drv, gen

# name: (before, what is repeated, after); `#`: number of the repetition
SHAPES = {
    'nodes': ('', '(p a)', ''), 'nodes on lines': ('', '(p a)\n', ''), 'atoms': ('(p ', 'a ', ')'), 'atoms on lines': ('(p ', 'a\n', ')'), 'numbers': ('', '# ', ''),
    'strings': ('(p ', '"a b" ', ')'), 'escaped strings': ('(p ', '"\\n\\u{e9}" ', ')'), 'triple strings': ('(p ', '"""a\nb"""\n', ')'), 'a long string': ('"', 'ab ', '"'), 'a string of lines': ('"', 'ab\n', '"'),
    'escapes': ('"', '\\n', '"'), 'a triple string': ('"""', 'a "\n', '"""'), 'a comment': (';', 'ab', '\nx'), 'comments': ('', '; ab\n', 'x'), 'a comment each': ('', 'a ; b\n', ''),
    'space': ('a', '  ', 'b'), 'empty lines': ('a', '\n', 'b'), 'tabs': ('a', '\t\r\n', 'b'), 'a long symbol': ('', 'ab', ''), 'an escaped symbol': ('', '\\(a', ''),
    'wide text': ('"', 'é日', '"'), 'wide symbols': ('(p ', 'é日 ', ')'), 'special text': ('(p "', 'a<&>b', '")'), 'special attribute': ('(p :k "', 'a<&>b', '")'), 'keywords': ('(p ', ':k# 1 ', ')'),
    'the same keyword': ('(p ', ':k 1 ', ')'), 'lists': ('', '(a (b (c d)))\n', ''), 'one level each': ('(ul ', '(li (b x) y)\n', ')'), 'empty lists': ('(p ', '(%list)', ')'), 'void elements': ('', '(br)\n', ''), 'raw': ('', '(%raw "<b>" x)', ''),
    'style': ('(style ', '(p :a b) ', ')'), 'script': ('(script ', '(f "x") ', ')'), 'pre': ('(pre ', 'a\n ', ')'), 'text of title': ('(html (head (title ', 'a ', ')) (body))'), 'body': ('(html (head) (body ', '(p a)\n', '))'), 'head': ('(html (head ', '(meta :a b) ', ') (body))'),
    'processing instructions': ('', '(?a b)\n', ''), 'declarations': ('', '(!A b)\n', ''), 'rules': ('', '(p :a b :c (rgb 1 2 3))\n', ''), 'css declarations': ('(p ', ':a (+ 1 2) ', ')'), 'selectors': ('(', 'a ', ':a b)'), 'at rules': ('', '(@media x (p :a b))\n', ''),
    'nested rules': ('(@media x ', '(p :a b)\n', ')'), 'charsets': ('', '(@charset "u")\n', ''),
    'one name defined again': ('', '(%define v a)\n', '%v'), 'uses': ('(%define v (p a))', '%v ', ''), 'calls': ('(%define (f x) (p %x))', '(%f #) ', ''), 'calls by keyword': ('(%define (f :k d) (p %k))', '(%f :k #) ', ''), 'calls in calls': ('(%define (f x) (p %x)) (%define (g x) (%f (q %x)))', '(%g 1)\n', ''),
    'positional parameters': ('(%define (f &r) %r) (%f ', 'a ', ')'), 'named parameters': ('(%define (f &&r) %r) (%f ', ':k# 1 ', ')'), 'the rest many times': ('(%define (f a b &r) (p %r)) ', '(%f 1 2 3 4) ', ''), 'functions defined again': ('', '(%define (f x) %x) (%f a)\n', ''),
    'for': ('(%for x in (', 'a ', ') (p %x))'), 'for with a pattern': ('(%for (a b) in (', '(1 2) ', ') (p %b %a))'), 'for each': ('', '(%for x in (1 2 3) (p %x))\n', ''), 'map': ('(%map do (', 'a ', '))'), 'map over calls': ('(%define (f x) (p %x)) (%map f (', 'a ', '))'),
    'filter': ('(%filter do (', '(a) ', '))'), 'sort': ('(%sort (', '#a ', '))'), 'sort numbers': ('(%sort :order descending (', '# ', '))'), 'sort equal': ('(%sort (', 'a ', '))'), 'reverse': ('(%reverse (', '(a b) ', '))'), 'splat': ('(p (%splat (', 'a ', ')))'),
    'get': ('(%get k (', 'a ', ':k v))'), 'get path': ('(%get "', '0/', '0" ((a)))'), 'gets': ('', '(%get 1/0 (a (b)))\n', ''), 'apply': ('(%apply list ', 'a ', ')'), 'do': ('(%do ', '(p a) ', ')'), 'dos': ('', '(%do a b)\n', ''),
    'match branches': ('(%match z ', '(# a) ', '(z b))'), 'matches': ('', '(%match (1 2) ((2 x) no) ((1 x) %x))\n', ''), 'matching lists': ('(%match (', 'a ', ') ((x &y) %y))'), 'ifdefs': ('(%define v 1)', '(%ifdef v a b) (%ifdef w a b)\n', ''), 'string macro': ('(%string ', 'a ', ')'), 'strings made': ('', '(%string a 1 "b")\n', ''),
    'concat': ('(%concat ', '"ab" ', ')'), 'join': ('(%join ", " ', 'a ', ')'), 'symbols made': ('(%symbol ', '"a" ', ')'), 'numbers made': ('', '(%number "1")', ''), 'strips': ('', '(%strip  a)', ''), 'logs': ('', '(%log)\n', ''),
    'yaml sequence': ('(%yaml "', '- ab\\n', '")'), 'yaml map': ('(%yaml "', 'k#: v\\n', '")'), 'yaml text': ('(%yaml "a: ', 'bc ', '")'), 'json': ('(%json "[', '1, ', '2]")'), 'yaml documents': ('(%yaml "', '--- a\\n', '")'), 'toml': ('(%toml "', 'k# = 1\\n', '")'), 'toml array': ('(%toml "k = [', '1, ', ']")'),
    'toml tables': ('(%toml "', '[t#]\\na = 1\\n', '")'), 'dates': ('', '(%date "%Y" 0 :timezone 0)\n', ''), 'timestamps': ('', '(%timestamp "%F %T" "2001-09-09 01:46:40" :timezone 0)\n', ''), 'embeds': ('', '(%embed "f.txt")', ''), 'includes': ('', '(%include "f.txt")', ''), 'namespaces': ('', '(%namespace n (%define v a))\n', ''), 'namespaces of contents': ('(%define v 1)', '(%namespace n# (p %v))\n', ''),
    'a namespace': ('(%namespace n ', '(p a) ', ')'), 'definitions of a namespace': ('(%namespace n ', '(%define v# a)', ')'), 'definitions': ('', '(%define v# a)', ''), 'definitions of functions': ('', '(%define (f# x) %x)', ''), 'lambdas': ('(p ', '(%lambda (x) %x)\n', ')'),
    'an error at the end': ('', '(p a)\n', '(%nope)'), 'an error on a long line': ('', '(p a)', '(%nope)'), 'unclosed': ('(p ', 'a\n', ''), 'unclosed lists': ('(p ', 'a ', '(%nope'), 'unclosed string': ('(p "', 'a\n', ''), 'an error in a call': ('(%define (f x) (%nope)) (p ', '(a)\n', '(%f 1))'), 'a wide error': ('"', 'é日', '" (%nope)'),
    'too few': ('(%define (f ', 'p# ', ') x) (%f 1)'), 'too many': ('(%define (f x) x) (%f ', '1 ', ')'), 'unknown keywords': ('(%define (f :k 1) x) (%f ', ':z# 1 ', ')'), 'bad escape': ('"', 'ab', '\\q"'),
    'yaml records': ('(%yaml "', '- a: #\\n  b: x\\n', '")'), 'yaml seqs': ('(%yaml "', '- - a\\n  - b\\n', '")'), 'yaml maps': ('(%yaml "', 'k#:\\n  a: 1\\n  b: 2\\n', '")'),
    'yaml map of seqs': ('(%yaml "', 'k#:\\n- 1\\n- 2\\n', '")'), 'yaml inner': ('(%yaml "a:\\n', '  - b: 1\\n    c: [1, 2]\\n', '")'), 'json records': ('(%json "[', '{a: 1, b: [2]}, ', '3]")'),
    'json maps': ('(%json "{', 'k#: {a: 1}, ', 'z: 3}")'), 'toml records': ('(%toml "', '[[t]]\\na = 1\\n', '")'), 'toml inline': ('(%toml "k = [', '{a = 1, b = [2]}, ', '{a = 2}]")'),
    'toml dotted': ('(%toml "', 'a.b#.c = 1\\n', '")'), 'md front yaml': ('(%markdown "---\\n', '- a: 1\\n', '---\\nx")'), 'md front only': ('(%markdown :only frontmatter "---\\n', 'k#: v\\n', '---\\nx")'),
    'md front toml': ('(%markdown "+++\\n', 'k# = 1\\n', '+++\\nx")'), 'defaults': ('(%define (f ', ':a# 1 ', ') x) (%f)'), 'pattern of lists': ('(%match (', '(1 2) ', ') (x x))'),
    'for of calls': ('(%define (f x) (%x)) (%for x in (', '(a b) ', ') (%f %x))'), 'for lists in': ('(%for (a &r) in (', '(1 2 3) ', ') (p %r))'), 'for named': ('(%for (:k d) in (', '(:k 1) ', ') (p %k))'),
    'sort key': ('(%define (f x) (%get 0 %x)) (%sort :key f (', '(# a) ', '))'), 'map lambda': ('(%map (%lambda (x) (p %x)) ', 'a ', ')'), 'filter lambda': ('(%filter (%lambda (x) %x) ', 'a () ', ')'),
    'map join': ('(%map do ', '(a :k 1) ', ')'), 'apply fn': ('(%define (f &r) %r) (%apply f ', 'a ', ')'), 'apply named': ('(%define (f &&r) %r) (%apply f ', ':k# a ', ')'),
    'splat lists': ('(p (%splat ', '(a b) ', '))'), 'splat many': ('(p (%splat (', '(a b) ', ')))'), 'list of lists': ('(%list ', '(a b) ', ')'), 'get named': ('(%get k# (', ':k# v ', '))'),
    'attribute lists': ('(p ', ':k (a b) ', ')'), 'attribute macros': ('(p ', ':k (%concat a b) ', ')'), 'css functions': ('(p :k (calc ', '(+ 1 2) ', '))'), 'css args': ('(p :k (rgb ', '1 ', '))'),
    'css op': ('(p :k (+ ', '1 ', '))'), 'css nested at': ('(@supports x ', '(@media y (p :a b))\n', ')'), 'css at named': ('(@media ', ':a b ', '(p :a b))'), 'css import': ('(@import ', 'a ', ')'),
    'math': ('(math ', '(mi x) ', ')'), 'svg': ('(svg ', '(g :a b (h x)) ', ')'), 'svgs': ('', '(svg (g x))', ''), 'styles': ('', '(style (p :a b))', ''), 'scripts': ('', '(script (f x))', ''),
    'pres': ('', '(pre a b)\n', ''), 'textareas': ('', '(textarea a (b))', ''), 'textarea': ('(textarea ', 'a (b) ', ')'), 'pre lists': ('(pre ', '(a b)\n ', ')'), 'xml decl': ('(?xml ', ':a b ', ')'),
    'html decl': ('(!D ', 'a ', ')'), 'docs': ('', '(head a) (body b)\n', ''), 'doc deep': ('(html (head) (body (div ', '(section (head x)) ', ')))'),
    'ns nested': ('(%namespace n (%namespace m ', '(%define v# a)', '))'), 'ns uses': ('(%namespace n (%define v a))', '%n/v ', ''), 'define long': ('(%define v ', 'a ', ') %v'),
    'define fn long': ('(%define (f) ', 'a ', ') (%f)'), 'ifdef long': ('(%ifdef x (', 'a ', ') b)'), 'match long': ('(%match 1 (1 ', 'a ', '))'), 'match many': ('', '(%match a (b c) (a d))', ''),
    'raw long': ('(%raw ', '"a" ', ')'), 'string long': ('(%string "', 'a ', '")'), 'formats': ('', '(%format "{}" 1)', ''), 'env': ('', '(%os/env HOME)', ''), 'symbols esc': ('', 'a\\ b ', ''),
    'kw esc': ('(p ', ':a\\ b c ', ')'), 'crlf': ('', 'a\r\n', ''), 'crs': ('', 'a\r', ''), 'parens in string': ('"', '()', '"'), 'err keyword': ('(p ', ':k 1 ', ':z)'), 'err close': ('', 'a\n', ')'),
    'err html': ('', 'a\n', '(p :k (a))'), 'err css': ('(p ', ':k 1 ', 'x)'), 'kw long': ('(p :', 'ab', ' c)'), 'num long': ('', '12', ''), 'num sort': ('(%sort (', '#.5 ', '))'),
    'sexp attr': ('(p ', ':k (a :j (b)) ', ')'), 'map calls named': ('(%define (f x :k 1) (p %x %k)) ', '(%f a :k 2) ', ''), 'calls passing': ('(%define (g &r) %r)(%define (f &r) (%g %r)) (%f ', '1 ', ')'),
    'join nums': ('(%join , :trailing true ', '# ', ')'), 'numbers list': ('(%number ', '"#" ', ')'), 'strip long': ('(%strip ', 'a ', ')'), 'yaml long key': ('(%yaml "', 'ab', ': 1")'),
    'yaml block': ('(%yaml "a: |\\n', '  line\\n', '")'), 'yaml comments': ('(%yaml "', '# c\\n', 'a: 1")'), 'yaml quoted': ('(%yaml "a: \'', 'b c ', '\'")'), 'yaml flow': ('(%yaml "{', 'k#: [1, 2], ', 'z: 1}")'),
}
FORMATS = ['html', 'xml', 'css', 'sexp', 'text']
STEP, LINEAR = 16, 16.0
SLACK = 3.0


class C28(MixedCheck):
    id = 'C28'
    technique = 'runtime monitoring: CPU time and peak memory of the real command, as the kernel accounts them, for documents of a shape and for documents sixteen times as long'
    rule = 'documents made of one piece repeated, of %d fixed shapes and random programs, in all formats; non-trivial: the long document took measurable time' % len(SHAPES)
    variants = ('plain', 'cli')
    minimum = 40
    quick_s = 40

    def setup(self, wid):
        super().setup(wid)
        self.cpu = 0.0
        self.mine = None
        self.wid = wid

    def corpus(self):
        return []

    def gen(self, r):
        x = r.random()
        if self.mine is None:
            # Each worker has its share of the shapes first, in an order of its own.
            self.mine = sorted(SHAPES)[self.wid % self.workers::self.workers]
            r.shuffle(self.mine)
        if x < 0.6 or self.mine and x < 0.8:
            name = self.mine.pop() if self.mine else r.choice(list(SHAPES))
            case = {'shape': name, 'parts': list(SHAPES[name])}
        elif x < 0.75:
            # two shapes taken together, a line at a time
            a, b = r.sample([s for s in SHAPES.values() if not s[0] and not s[2] and '#' not in s[1]], 2)
            case = {'shape': 'two', 'parts': ['', a[1] + '\n' + b[1] + '\n', '']}
        else:
            base = self.mixed.draw(r, 0.0)
            s = base['src']
            if base.get('files') or base.get('inc') or any(w in s for w in ('glob', 'format', 'markdown', 'lambda', 'namespace', '%include', '%embed')) or len(s) > 4000 or '\0' in s or '#' in s:
                raise Skip('not repeated')
            case = {'shape': 'program', 'parts': ['', '(%match 0 (x ' + s + '\n))\n', '']}
        case['fmt'] = r.choice(FORMATS if r.p(0.5) else ['css', 'html'] if re.search(r'\(p :|@|rules|sty', ''.join(case['parts'])) else ['html', 'html', 'xml'])
        case['via'] = r.choice(['file', 'file', 'stdin', 'include'])
        case['doc'] = int(r.p(0.3))
        return case

    def nontrivial(self, case, feats):
        return bool(feats)

    def shrinkable(self, case):
        return None

    def text(self, case, n):
        a, u, b = case['parts']
        return a + (''.join(u.replace('#', str(i)) for i in range(n)) if '#' in u else u * n) + b

    def run(self, case, n, limit=200):
        """-> (CPU seconds, peak memory in MB, status)"""
        root = self.dir_for(dict(case, cwd=1))
        with open(os.path.join(root, 'f.txt'), 'w') as f:
            f.write('a')
        text = self.text(case, n).encode('utf-8')
        with open(os.path.join(root, 'in.sex'), 'wb') as f:
            f.write(text)
        with open(os.path.join(root, 'by.sex'), 'w') as f:
            f.write('(%include "in.sex")')
        args = [self.bin['cli'], '--' + case['fmt']] + ([] if case['doc'] else ['--nodoc'])
        args.append({'file': 'in.sex', 'stdin': '-', 'include': 'by.sex'}[case['via']])

        def limits():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_CPU, (limit, limit + 5))
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            try:
                resource.setrlimit(resource.RLIMIT_STACK, (1 << 30, resource.RLIM_INFINITY))
            except (ValueError, OSError):
                pass
        with open(os.path.join(root, 'in.sex'), 'rb') as f:
            p = subprocess.Popen(args, stdin=f, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=root, env=drv.base_env(), preexec_fn=limits)
            t0 = time.time()
            while True:
                pid, status, use = os.wait4(p.pid, os.WNOHANG)
                if pid:
                    break
                if time.time() - t0 > 400:
                    p.kill()
                    os.wait4(p.pid, 0)
                    p.returncode = -9
                    raise Inconclusive('watchdog')
                time.sleep(0.002 if time.time() - t0 < 0.2 else 0.02)
        p.returncode = status
        status = os.waitstatus_to_exitcode(status)
        if status not in (0, 1, -signal.SIGXCPU, -signal.SIGKILL):
            raise Skip('did not finish')             # C02's question
        return use.ru_utime + use.ru_stime, use.ru_maxrss / 1024.0, status, len(text)

    def judge(self, case):
        if case['shape'] == 'program':
            whole = {'src': case['parts'][1]}
            if self.unbounded(whole, self.dir_for({'cwd': 1})) is not False:
                raise Skip('unbounded')
        n, floor, down = 250, 0.04, False
        m0 = self.run(case, 1)[1]
        while True:
            t, m, status, size = self.run(case, n)
            if t > 1.0 and n > 16:
                n, down = n // 4, True
            elif t >= floor or size > 60000 or down:
                break
            else:
                n *= 2
        case = dict(case, n=n)
        small = (t, m, size)
        limit = int(min(100, max(10, t * LINEAR * SLACK * 1.5)))
        t2, m2, status, size2 = self.run(case, n * STEP, limit)
        tries = 1
        while self.steep(small, (t2, m2, size2), m0) and tries < 3:
            # Measured again before it is believed; the best of each counts.
            t1, m1, _, _ = self.run(case, n)
            small = (max(small[0], t1), max(small[1], m1), size)
            if t2 < limit - 1:
                t3, m3, _, _ = self.run(case, n * STEP, limit)
                t2, m2 = min(t2, t3), min(m2, m3)
            tries += 1
        what = self.steep(small, (t2, m2, size2), m0)
        if what:
            raise Bad('%s, repeated %d and %d times (--%s, %s)\n%s' % (short(repr(case['parts'])), n, n * STEP, case['fmt'], case['via'], what), 'growth ' + what.split()[0])
        self.cpu += t2
        up = t2 / max(small[0], 0.02) / (size2 / size)
        feats = ['time per byte x%.1f' % (int(up * 5 + 1) / 5)]
        if m2 > 100:
            feats.append('memory per byte x%.1f' % (int((m2 - m0) / max(small[1] - m0, 10.0) / (size2 / size) * 5 + 1) / 5))
        return feats + [case['shape'] if case['shape'] in ('program', 'two') else 'shape: ' + case['shape'], case['fmt'], case['via'], 'error' if status else 'ok', 'size 10^%d' % len(str(size2))] if t2 > 0.05 else []

    def steep(self, a, b, m0):
        (t1, m1, s1), (t2, m2, s2) = a, b
        grow = s2 / s1 * SLACK
        if t2 > 1.0 and t2 / max(t1, 0.02) > grow:
            return 'time grows from %.2f s to %.2f s for a document %.0f times as long' % (t1, t2, s2 / s1)
        if m2 > 200 and (m2 - m0) / max(m1 - m0, 10.0) > grow:
            return 'memory grows from %.0f MB to %.0f MB for a document %.0f times as long' % (m1, m2, s2 / s1)
        return None

    def extra_evidence(self):
        return {'cpu_seconds_measured': round(self.cpu, 1)}

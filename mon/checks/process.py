"""C01 memory safety, C02 totality, C23 determinism, C24 the command line."""
from .mixed import *
from collections import Counter
import subprocess, resource, time, signal, tempfile, threading

OVERFLOW = re.compile(r'overflowed its stack|stack-overflow|stack overflow|memory allocation of|allocation-size-too-big|out of memory')


class MixedCheck(ProgramCheck):
    def __init__(self, binaries):
        super().__init__(binaries)
        self.mixed = Mixed()

    def gen(self, r):
        return self.mixed.draw(r)

    def prepare(self, case):
        """-> root of the case's files (always the same scratch directory)."""
        if not case.get('files'):
            case = dict(case, cwd=1)
        return self.dir_for(case)

    def unbounded(self, case, root):
        """Does the program recurse or grow without bound?  Decided by the
        reference model; None when it cannot tell."""
        w = self.world(case, root)
        w.budget = 200000
        src = model.Src('<stdin>', self.source(case, root))
        w.srcs[src.name] = src
        old = sys.getrecursionlimit()
        sys.setrecursionlimit(6000)
        try:
            signal.signal(signal.SIGALRM, _alarm)
            signal.alarm(20)
            try:
                model.Ctx(w).nodes(model.parse(src))
                return False
            except SeamErr:
                return False
            except Unsure:
                return None
            except (RecursionError, TimeoutError, MemoryError):
                return True
        finally:
            signal.alarm(0)
            sys.setrecursionlimit(old)

    def fatal(self, case, root, got, what='the library'):
        """A crash or a hang: a violation unless the program itself is unbounded."""
        k = kind_of(got)
        if k not in ('crash', 'hang'):
            return
        deep = case['src'].count('(') > 400 and max_depth(case['src']) > 300
        if k == 'hang' or OVERFLOW.search(got.get('stderr', '')) or 'signal 11' in got.get('crash', ''):
            u = self.unbounded(case, root)
            if u or deep:
                raise Skip('unbounded recursion or nesting')
            if u is None and re.search(r'%define\s*\(|%define\s*;|%lambda|%include|%apply', case['src'] + json.dumps(case.get('files', {}))):
                raise Skip('perhaps unbounded recursion')
        raise Bad('%s\n%s: %s: %s\n%s' % (short(repr(case['src'])), what, k, got[k], got.get('stderr', '')[-2500:]), k)


def _alarm(*a):
    raise TimeoutError


def max_depth(s):
    d = m = 0
    for c in s:
        d += (c == '(') - (c == ')')
        m = max(m, d)
    return m


def message_class(e):
    """The kind of a diagnostic."""
    last = e.strip().split('\n')[-1]
    m = re.match(r'\[\*\*\] ([A-Za-z -]+?) (?:`[^`]*` )?\(', last)
    return m.group(1) if m else 'other'


# ------------------------------------------------------------------ C02

class C02(MixedCheck):
    id = 'C02'
    variants = ('plain', 'cli')
    technique = 'runtime monitoring: panics, aborts, overflow and debug assertions (enabled in the observed build), CPU-time limits, and undisplayable diagnostics watched over hostile and damaged inputs, all formats, and the real command'
    rule = 'workloads of every other check, hostile arguments to every built-in, odd markup trees, damaged variants; every format; non-trivial: anything that is not the empty document'
    assumptions = ('nesting and user recursion are bounded: overflowing the stack counts only when the reference model finds the program bounded',)

    def setup(self, wid):
        super().setup(wid)
        self.n = 0
        self.execs = 0

    def corpus(self):
        out = []
        for name, pool in HOSTILE.items():
            for t in pool:
                q = str_src(Rng(t), t, False)
                extra = ' "x" 1.5' if name == 'format' else ' "2001-09-09"' if name == 'timestamp' else ' 1e9' if name == 'date' else ''
                out.append({'src': '(%%%s %s%s)' % (name, q, extra), 'files': dict(SMALL)})
                if name == 'date':
                    out.append({'src': '(%%date %s -99999999999 :timezone -3.7)' % q})
                if name == 'timestamp':
                    out += [{'src': '(%%timestamp %s %s)' % (q, str_src(Rng(x), x, False))} for x in TEXTS['timestamp'][::3]]
                if name == 'format':
                    out += [{'src': '(%%format %s)' % q}, {'src': '(%%format %s :a 1 :é "é日" :k (x))' % q}]
        for t in H_YAML + H_TOML + H_MD:
            q = str_src(Rng(t), t, False)
            for f in ('---\n%s\n---\nx', '+++\n%s\n+++\nx'):
                out.append({'src': '(%%markdown %s)' % str_src(Rng(t), f % t, False)})
            out.append({'src': '(%%toml %s :separator "")' % q})
            out.append({'src': '(%%json %s :separator ".")' % q})
        for n in H_NUM:
            for f in ['(%%date "%%s %%Y" %s)', '(%%date "%%F %%z" 0 :timezone %s)', '(%%get %s (a b))', '(%%sort %s 1 b 2.5)', '(%%sort a %s -1)', '(%%format "{:%s}" x)', '(%%format "{:>{w}}" x :w %s)', '(%%get "0/%s" ((a b)))', '(%%format "{:.%s}" 1.5)',
                      '(%%timestamp "%%s" %s)', '(%%timestamp "%%s" "%s")', '(p :k %s %s)', '(a b (%s c :d %s))', '(%%number %s "%s")', '(%s a)', '(%%join %s %s)', '(calc :a (+ 1 %s) :b (%s 1))', '(p :a (%s (%s) -))']:
                k = f.count('%s') - f.count('%%s')
                out.append({'src': f.replace('%%', '\1').replace('%s', n).replace('\1', '%')})
        for a in H_ANY:
            for name in NAMES:
                out.append({'src': '(%%%s %s)' % (name, a), 'files': dict(SMALL)})
                out.append({'src': '(%%%s %s %s)' % (name, a, a), 'files': dict(SMALL)})
                out.append({'src': '(%%%s x %s y)' % (name, a), 'files': dict(SMALL)})
                out.append({'src': '(%%define (f x) %s) (%%%s f %s) (%%f 1)' % (a.replace('%', ''), name, a), 'files': dict(SMALL)})
            for t in gen.SPECIAL + ['p', 'br', '!DOCTYPE', '!', '?xml', '?', '@media', '@charset', '@x', 'html', 'head', 'body', '-', '+', 'calc', '#', '.']:
                out.append({'src': '(%s %s)' % (t, a)})
                out.append({'src': '(%s :k %s)' % (t, a)})
                out.append({'src': '(%s (%s %s) :k v %s)' % (t, t, a, a)})
                out.append({'src': '(style (p :k (%s %s)) (%s :a %s))' % (t, a, t, a)})
        # Sizes.
        for n in (255, 256, 257, 1000, 5000):
            out += [{'src': 'a ' * n}, {'src': '\n' * n + ')'}, {'src': '(' + 'a ' * n + ')'}, {'src': '"' + 'é' * n + '"'}, {'src': '"' + '\n' * n + '" )'}, {'src': ' ' * n + '(%x)'}, {'src': '(p ' + ':k v ' * n + ')'},
                    {'src': '(%sort ' + ' '.join(str(n - i) for i in range(n)) + ')'}, {'src': '(%concat ' + 'a ' * n + ')'}, {'src': '(%markdown "' + 'a *b* ' * n + '")'}, {'src': '(%yaml "' + '- a\\n' * n + '")'}, {'src': 'a' * n + '\\'},
                    {'src': '(%toml "a = [' + '1, ' * n + ']")'}, {'src': '(p (a :' + 'k' * n + ' ' + '9' * n + '))'}, {'src': '; ' + 'x' * n + '\n' + '(%define v ' + 'b ' * n + ') %v (%nosuch)'}]
        # Long lines, in which whatever is cut off ends inside of a character.
        for c in ('é', '語', '😀', 'a\u0301', '\ufeff', '\t'):
            for n in (15, 60, 400, 3000):
                for a in range(4):
                    t = 'a' * a + c * n
                    out += [{'src': '(p "%s" (%%nope))' % t}, {'src': '(p (%%nope) "%s")' % t}, {'src': '(%%nope "%s")' % t}, {'src': '%%%s' % t}, {'src': '(p %s' % t}, {'src': '(%%include "%s")' % t[:200]}, {'src': '(%%sort "%s" 1 ())' % t},
                            {'src': '(%s :k (x))' % t}, {'src': '(%%yaml "[%s")' % t}, {'src': '(%%toml "%s")' % t}, {'src': '(%%embed "%s")' % t[:120]}, {'src': '(%%error "%s")' % t}, {'src': '(%%log "%s")' % t}]
        for n in (40, 100):
            out += [{'src': '(' * n + 'a' + ')' * n}, {'src': ':k ' * n + 'v'}, {'src': '(a ' + ':k (b ' * n + 'v' + ')' * n + ')'}, {'src': '(%do ' * n + 'a' + ')' * n}, {'src': '(%list ' * n + ')' * n},
                    {'src': '(%yaml "' + '[' * n + ']' * n + '")'}, {'src': '(%json "' + '{\\"a\\":' * n + '1' + '}' * n + '")'}, {'src': '(%toml "a = ' + '[' * n + ']' * n + '")'}, {'src': '(%markdown "' + '> ' * n + 'a")'},
                    {'src': '(style ' + '(@media ' * n + ')' * n + ')'}, {'src': '(@media x ' * n + '(p :a b)' + ')' * n}, {'src': '(svg ' + '(g ' * n + ')' * n + ')'}, {'src': '(p :a ' + '(f ' * n + '1' + ')' * n + ')'}, {'src': '(p :a ' + '(+ 1 ' * n + '1' + ')' * n + ')'}]
        return out

    def judge(self, case):
        root = self.prepare(case)
        self.n += 1
        fmts = FMTS
        feats = [case.get('from', 'corpus').split()[0]]
        extra = [('sites', '1')] if self.n % 3 == 0 else []
        if self.n % 5 == 0:
            extra.append(('reclone', '1'))
        reqs = [self.request(case, root, fmts, extra=extra)]
        if self.n % 4 == 0:
            src = self.source(case, root)
            reqs += [[('op', 'parse'), ('src', src), ('sites', '1')], [('op', 'lex'), ('src', src)], [('op', 'escape'), ('src', src)]]
            if self.n % 8 == 0:
                words = re.findall(r'[^\s()":;%]+', src) or ['a']
                w = words[self.n // 8 % len(words)]
                reqs.append([('op', 'search'), ('src', src), ('kind', ['head', 'member', 'symbol', 'number', 'string', 'attr', 'any'][self.n // 8 % 7]),
                             ('level', str(self.n // 56 % 4)), ('value', w)] + ([('insensitive', '1')] if self.n % 16 else []))
        for q in reqs:
            got = self.ask(q)
            self.execs += 1
            self.fatal(case, root, got)
            op = dict(q)['op']
            if 'panic' in got:
                raise Bad('%s\n%s panicked: %s at %s' % (short(repr(case['src'])), op, got['panic'][0], got['panic'][1]), 'panic ' + got['panic'][1])
            if op != 'run':
                feats.append(op)
                continue
            if 'err' in got:
                feats.append(message_class(got['err']))
            for f, o in got.get('out', {}).items():
                k = kind_of(o)
                if k == 'panic':
                    raise Bad('%s\nas %s panicked: %s at %s' % (short(repr(case['src'])), f, o['panic'][0], o['panic'][1]), 'panic ' + o['panic'][1])
                if k == 'differs':
                    raise Bad('%s\nas %s differs on a clone: %s' % (short(repr(case['src'])), f, short(o)), 'clone')
                feats.append('%s %s' % (f, k))
                if k == 'err' and not o['err'].strip():
                    raise Bad('%s\nas %s: an empty diagnostic' % (short(repr(case['src'])), f), 'empty diagnostic')
        if self.n % 6 == 0:
            self.command(case, root)
            feats.append('command')
        return feats

    def command(self, case, root):
        """The same through the real command."""
        r = Rng(case['src'])
        t = r.choice(['text', 'sexp', 'html', 'xml', 'css'])
        args = ['--' + t] + r.choice([[], ['--nodoc'], ['--nodocument']])
        args += ['-I' + i.replace('$', root) for i in case.get('inc', [])]
        r.shuffle(args)
        p = run_cli(self.bin['cli'], args, self.source(case, root).encode('utf-8'), root, case.get('env'))
        self.execs += 1
        check_sane(self, case, root, args, p)

    def nontrivial(self, case, feats):
        return bool(case['src'].strip())

    def extra_evidence(self):
        return {'library_and_command_executions': self.execs}


def cli_limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_CPU, (20, 25))
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (1 << 30, resource.RLIM_INFINITY))
    except (ValueError, OSError):
        pass


def run_cli(binary, args, data=b'', cwd='/tmp', env=None, stdin=subprocess.PIPE):
    """-> (status, stdout, stderr)"""
    e = {}
    for k, v in (env or {}).items():
        e[k.encode()] = bytes(v) if isinstance(v, list) else v.encode('utf-8')
    full = {k.encode(): v.encode() for k, v in drv.base_env().items()}
    full.update(e)
    p = subprocess.Popen([binary] + args, stdin=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=full, preexec_fn=cli_limits)
    try:
        out, err = p.communicate(data if stdin == subprocess.PIPE else None, timeout=240)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise Inconclusive('watchdog')
    return p.returncode, out, err


def check_sane(check, case, root, args, p):
    """Terminated by itself, with a status of its own and no panic."""
    status, out, err = p
    text = err.decode('utf-8', 'replace')
    if status in (-signal.SIGXCPU, -signal.SIGKILL):
        check.fatal(case, root, {'hang': 'CPU time used up', 'stderr': text}, 'seam ' + ' '.join(args))
    if status < 0:
        check.fatal(case, root, {'crash': 'signal %d' % -status, 'stderr': text}, 'seam ' + ' '.join(args))
    if status not in (0, 1) or re.search(r"^thread '.*' panicked at |^thread '.*' \(\d+\) panicked at ", text, re.M):
        raise Bad('%s\nseam %s: exit status %d\n%s' % (short(repr(case['src'])), ' '.join(args), status, text[-1500:]), 'command panic')
    try:
        text = err.decode('utf-8')
    except UnicodeDecodeError:
        return
    if status == 1 and not text.strip():
        raise Bad('%s\nseam %s: exit status 1 without any message' % (short(repr(case['src'])), ' '.join(args)), 'silent failure')


# ------------------------------------------------------------------ C01

class MiriObserver(drv.Observer):
    """The observer under the Miri interpreter."""
    CPU_LIMIT = 1e9
    WALL_LIMIT = 150.0

    def start(self):
        env, cmd = drv.miri()
        self.errfile.seek(0)
        self.errfile.truncate()
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errfile, env=env, cwd=drv.OBS, start_new_session=True)
        self.answers = os.dup(self.p.stdout.fileno())
        self.p.stdout.close()

    def stop(self):
        if self.p:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
        super().stop()

    def died(self):
        self.p.wait()
        err = self.stderr_tail(60000)
        code = self.p.returncode
        self.stop()
        return {'crash': 'Miri: exit status %d' % code, 'stderr': err}

    def ask(self, fields):
        return self.ask_once(fields)


MIRI_SRC = [
    ('(p :class "a" "b < c" (br) x)\n(%raw "<i>")', ['html', 'html+']), ('(html (head (title "t")) (body (pre  a\n b)))', ['html!', 'html=']), ('(svg (g :a 1 (x)))(math (mi "x"))(style (p :a b))(script (f "x" 1))(title "a")', ['html+']),
    ('(a :k "v" (b "c") (?pi :x 1) (!D e))', ['xml+', 'xml!']), ('(p :a b :c (calc (+ 1 2)) :d (rgb 1 2 3)) (@media x (p :a 1)) (@charset "u")', ['css+']), ('(a "b\\n\\"" :k (c (%raw "x")) d)', ['sexp+', 'text+']),
    ('(%define x 1) (%define (f a :k (d) &rest &&kw) (p %a %k %rest %kw)) (%f 2 :k (3) 4 :z 5) %x (%f 7)', ['text']), ('(%define (f a) (%define (g b) (q %a %b)) (%g 1)) (%f (r "s")) (%ifdef g yes no)', ['html']),
    ('(%match (a :k 1 (b c)) ((x :k "0") no) ((x :k 1 (&rest)) %x (%splat %rest)) (z none))', ['text']), ('(%for (a b) in ((1 2) (3 4)) (p %b %a))', ['html']), ('(%map (%lambda (x) (q %x)) (1 2 3)) (%filter (%lambda (x) %x) (a () b))', ['sexp']),
    ('(%sort :key (%lambda x (%get 0 %x)) :order descending ((2 a) (1 b) (3 c))) (%reverse (a  b\n c)) (%get "0/k" ((a :k v)))', ['text']), ('(%apply list 1 2) (%splat (a b)) (%list) (%do a (b)) (%strip  x)', ['text']),
    ('(%string a  "b" 1) (%concat a "b" 1) (%join ", " a b c) (%format "{} {k:>5} {1}" a b :k c) (%symbol "x" 1) (%number "1" 2)', ['sexp']), ('(%namespace ns (%define v 1) (%define (f x) (p %x))) %ns/v (%ns/f 2)', ['text']),
    ('(%yaml "a: [1, {b: c}]\\nd: e\\nf: ~") %a/0 %a/1/b %d', ['sexp']), ('(%toml "a = 1\\n[t]\\nb = [1.5, true]") %t/b/0', ['sexp']), ('(%json "{\\"a\\": [1, null, \\"x\\"]}" :separator ".") %a.2', ['sexp']),
    ('(%markdown "---\\na: 1\\n---\\n# T\\n\\n*x* `y` [z](u)\\n\\n- a\\n- b") %a', ['html']), ('(%date "%Y-%m-%d %H:%M" 86400 :timezone 5.5) (%timestamp "%F %T" "2001-09-09 01:46:40" :timezone -3)', ['text']),
    ('(%os/env SEAM_T) (%log a b)', ['text']), ('é日本 "\u0301x\u200b" (p "😀" :k é) ; c\n "\\u{1F600}\\x41\\101"', ['html', 'text']), ('(%nosuch é)', []), ('(p "unclosed', []), ('"\\q"', []), (')', []), ('(a :k)', []), ('(%define (f x) (%y)) (%f 1)', ['text']), ('(1 2) ()', ['html', 'xml', 'css']),
    ('(br x)', ['html']), ('(p (:k v))', ['html', 'xml']), ('(%format "{" a)', []), ('(%define)', []), ('"""a"b\nc""" (%get 5 (a))', []), ('(%lambda (x) %x)', ['text']), ('(%define v (a b)) (p %v) (%splat %v) (%ifdef v %v)', ['html+'])]
MIRI_FILES = ({'a.sex': '(%define v (p "é")) (%define (f x) (q %x %v)) text', 'b': ' (%include a) (%nosuch', 'c': '(%include a)  (r %v)', 'd': '(%define (g x) (%include c) (s %x))'},
              ['(%include a) %v (%f 1)', '(%include b)', '(p (%include c)) (%f 2)', '(%define (h) (%include a) (%f 3)) (%h) (%ifdef v y n)', '(%include d) (%g 4) (%embed a.sex)', '(%for x in (1 2) (%include a) (%f %x)) %v', '(%match a (q (%include c))) (%nosuch)'])


class C01(MixedCheck):
    id = 'C01'
    variants = ('asan', 'miri')
    MIRI = 3
    quick_s = 40
    minimum = 200
    technique = 'sanitizers: AddressSanitizer (heap, stack use after return) on the real library under the common workload, random call histories and threads, and the Miri interpreter (aliasing, dangling, uninitialised, data races) on small documents'
    rule = 'workloads of every other check plus clones, random histories of library calls and concurrent threads; non-trivial: anything that is not the empty document'
    assumptions = ('code outside Rust and syscalls are executed natively under AddressSanitizer only', 'Miri judges with the tree borrows model')

    def setup(self, wid):
        self.scratch = None
        self.wid = wid
        self.miri = wid < self.MIRI and bool(self.bin.get('miri')) and not os.environ.get('SEAMV_NO_MIRI')
        self.n = 0
        self.obs = MiriObserver('') if self.miri else drv.Observer(self.bin['asan'], asan=True)
        if not self.miri:
            # What takes long is for C02 to judge.
            self.obs.CPU_LIMIT = 8.0
            self.obs.again = False
        self.seen = Counter()

    def corpus(self):
        if not self.miri:
            out = [{'src': s, 'mode': 'run', 'fmts': f + FMTS, 'env': {'SEAM_T': 'x'}} for s, f in MIRI_SRC]
            out += [{'src': s, 'mode': 'run', 'files': MIRI_FILES[0], 'fmts': ['text'], 'reclone': k} for s in MIRI_FILES[1] for k in (0, 1)]
            out += [{'src': '', 'docs': [s for s, _ in MIRI_SRC[k::6]] + MIRI_FILES[1], 'files': MIRI_FILES[0], 'mode': m, 'seed': k, 'steps': 300} for k in range(6) for m in ('life', 'threads')]
            out += [{'src': s, 'mode': 'run', 'fmts': FMTS} for s in gen.char_sources()]
            # Some of the workers are Miri's.
            miri = self.MIRI if self.bin.get('miri') and not os.environ.get('SEAMV_NO_MIRI') else 0
            mine = out[self.wid - miri::self.workers - miri]
            return [c for c in mine for _ in range(self.workers)]
        out = [{'src': '', 'docs': ['(p (%define v 1) %v)', '(svg (a "b"))', '(%nosuch)'], 'mode': 'threads', 'fmts': ['html']},
               {'src': '', 'docs': ['(p (pre a) (svg b))', '(%define (f x) (a %x)) (%f 1) (%y)'], 'mode': 'life', 'seed': 3, 'steps': 60}]
        for i, s in enumerate(MIRI_FILES[1]):
            out.append({'src': s, 'mode': 'run', 'files': MIRI_FILES[0], 'fmts': ['text'], 'reclone': i % 2})
        for s, f in MIRI_SRC:
            out.append({'src': s, 'mode': 'run', 'fmts': f, 'env': {'SEAM_T': 'x'}})
        out.append({'src': '', 'docs': MIRI_FILES[1][:3], 'files': MIRI_FILES[0], 'mode': 'threads', 'fmts': ['text']})
        out.append({'src': '', 'docs': [s for s, _ in MIRI_SRC[:4]], 'mode': 'life', 'seed': 5, 'steps': 80})
        mine = out[self.wid::self.MIRI]
        return [c for c in mine for _ in range(self.workers)]

    def gen(self, r):
        if self.miri:
            for _ in range(40):
                case = self.mixed.draw(r)
                if len(case['src']) < 160 and case.get('from', '') != 'C20':
                    break
                if time.time() > self.deadline:
                    raise Skip('out of time')
            else:
                raise Skip('nothing small enough')
            case['mode'] = 'run'
            case['fmts'] = [r.choice(FMTS)]
            case['reclone'] = int(r.p(0.3))
            if r.p(0.2):
                case = {'src': '', 'docs': [case['src'], r.choice(MIRI_SRC)[0]], 'mode': r.choice(['life', 'threads']), 'seed': r.randrange(1 << 30), 'steps': 40, 'fmts': [r.choice(FMTS)], 'files': case.get('files', {}), 'inc': case.get('inc', [])}
            return case
        case = self.mixed.draw(r)
        x = r.random()
        if x < 0.2:
            docs = [case['src']]
            for _ in range(r.choice([0, 1, 2, 3, 7])):
                y = r.random()
                docs.append(mutate(r, case['src']) if y < 0.3 else case['src'] if y < 0.4 else self.mixed.draw(r)['src'] if '%glob' not in case['src'] else 'a')
            docs = [d for d in docs if '%glob' not in d] or ['a']
            return {'src': '', 'docs': docs, 'mode': r.choice(['life', 'threads']), 'seed': r.randrange(1 << 30), 'steps': r.choice([20, 60, 200]), 'files': case.get('files', {}), 'env': case.get('env', {}), 'inc': case.get('inc', []), 'fmts': r.sample(FMTS, 4)}
        case.update(mode='run', reclone=int(r.p(0.3)), fmts=r.sample(FMTS, 6) + ['html+'], via=r.choice(['', '', '', 'stream', 'file']), sites=int(r.p(0.3)))
        return case

    def shrinkable(self, case):
        return 'src' if not case.get('docs') and not self.miri else None

    def judge(self, case):
        if case.get('miri') and not self.miri:
            self.teardown()
            self.miri, self.obs = True, MiriObserver('')
        root = self.prepare(case)
        mode = case['mode']
        if mode == 'run':
            extra = [('reclone', '1')] if case.get('reclone') else []
            if case.get('via') == 'stream':
                extra = [('via', 'stream')]
            elif case.get('via') == 'file':
                with open(os.path.join(root, 'main.sex'), 'w', encoding='utf-8', newline='') as f:
                    f.write(self.source(case, root))
                extra = [('via', 'file'), ('path', 'main.sex')]
            req = self.request(case, root, case['fmts'], sites=bool(case.get('sites')), extra=extra)
            if not self.miri and not case.get('via') and drv.digest(case['src'])[0] in '01':
                req[0] = ('op', ['parse', 'lex', 'escape'][int(drv.digest(case['src'])[1], 16) % 3])
        else:
            req = [('op', mode)] + [('src', d.replace('$ROOT', root)) for d in case['docs']] + [('fmt', f) for f in case.get('fmts', [])]
            req += [('inc', i.replace('$', root)) for i in case.get('inc', [])] + [('cwd', root)]
            req += [('env:' + k, bytes(v) if isinstance(v, list) else v) for k, v in (case.get('env') or {}).items()]
            if mode == 'life':
                req += [('seed', str(case['seed'])), ('steps', str(case['steps']))]
        if self.miri:
            case['miri'] = 1
            self.obs.WALL_LIMIT = max(5.0, min(90.0, self.deadline - time.time() + 3))
        got = self.ask(req)
        feats = ['Miri' if self.miri else 'AddressSanitizer', mode]
        if 'crash' in got or 'hang' in got:
            err = got.get('stderr', '')
            if 'a str that is not UTF-8' in err or 'invalid UTF-8 in a result' in got.get('crash', ''):
                i = max(0, err.find('OBSERVER:'))
                raise Bad('%s\nA string of the result is not UTF-8: %s' % (short(json.dumps(case, ensure_ascii=False)), err[i:i + 600] or got['crash']), 'utf8')
            if self.miri:
                if 'Undefined Behavior' in err or 'Data race' in err:
                    i = err.find('error: Undefined Behavior')
                    raise Bad('%s\nunder Miri:\n%s' % (short(json.dumps(case, ensure_ascii=False)), err[i:i + 3000]), 'miri')
                if 'hang' in got or 'unsupported operation' in err or 'overflow' in err or 'exhaust' in err:
                    raise Skip('Miri cannot run it')
                raise Inconclusive('Miri: ' + err.strip()[-60:])
            m = re.search(r'AddressSanitizer: (stack-buffer-\w+|stack-use-after-scope|stack-buffer|unknown-crash|dynamic-stack\S+)', err)
            if m:
                # Far down a runaway recursion, past the end of its fake stack,
                # the sanitizer can misreport: believed only without one.
                again = drv.Observer(self.bin['asan'], asan=True)
                again.uar = 0
                got = again.ask(req)
                again.stop()
                if 'crash' not in got and 'hang' not in got:
                    raise Skip('not confirmed without the fake stack')
                err = got.get('stderr', '')
            if 'hang' in got or 'rss limit' in err or OVERFLOW.search(err):
                raise Skip('ran too long, too deep or grew too big')
            docs = [dict(case, src=d) for d in case['docs']] if case.get('docs') else [case]
            if 'AddressSanitizer: SEGV' in err or 'ERROR: AddressSanitizer' not in err:
                for d in docs:
                    if self.unbounded(d, root):
                        raise Skip('unbounded recursion')
            i = max(0, err.find('ERROR: AddressSanitizer'))
            raise Bad('%s\n%s\n%s' % (short(json.dumps(case, ensure_ascii=False)), got.get('crash'), err[i:i + 3500]), 'asan')
        if not self.miri and mode == 'life' and got.get('used'):
            for name, k in zip(['expansions', 'formatters', 'displays', 'documents', 'clones', 'drops', 'trees printed', 'nodes kept', 'trees replaced'], got['used']):
                self.seen[name] += k
        feats.append(kind_of(got))
        if 'Invalid UTF-8' in json.dumps(got)[:200]:
            feats.append('?')
        return feats

    def nontrivial(self, case, feats):
        return bool(case['src'].strip() or case.get('docs'))

    def extra_evidence(self):
        return {'miri_workers': int(self.miri)} | {'life_' + k.replace(' ', '_'): v for k, v in self.seen.items()}


# ------------------------------------------------------------------ C23

NOISE = [{}, {'LANG': 'C', 'LC_ALL': 'C'}, {'LANG': 'tr_TR.UTF-8', 'TERM': 'dumb', 'COLUMNS': '20'}, {'HOME': '/root', 'USER': 'x', 'TMPDIR': '/nonexistent', 'RUST_BACKTRACE': '1'}, {'SEAM': '1', 'PWD': '/', 'DEBUG': '1', 'LC_COLLATE': 'de_DE.UTF-8'}]


class C23(MixedCheck):
    id = 'C23'
    minimum = 80
    variants = ('plain',)
    technique = 'runtime monitoring: complete responses (tree, locations, every format, diagnostics) of the same input recorded in repeated runs, fresh processes, different histories, unrelated environments, threads and through every entry point, and compared with each other'
    rule = 'workloads of every other check; non-trivial: anything that is not the empty document'
    FM = ['text', 'sexp', 'html', 'xml', 'css', 'html!', 'xml!', 'display']

    def setup(self, wid):
        super().setup(wid)
        self.n = 0
        self.compared = Counter()
        self.fresh = [drv.Observer(self.bin['plain'], env=e) for e in NOISE]

    def teardown(self):
        for o in getattr(self, 'fresh', []):
            o.stop()
        super().teardown()

    def corpus(self):
        out = [{'src': s, 'env': {'SEAM_T': 'x'}} for s, _ in MIRI_SRC] + [{'src': s, 'files': MIRI_FILES[0]} for s in MIRI_FILES[1]]
        many = ' '.join(':k%d %d' % (i, i) for i in range(40))
        out += [{'src': s} for s in ['(%%define (f &&r) %%r (%%splat %%r)) (%%f %s)' % many, '(%%match (a %s) ((x &&r) %%r))' % many, '(%%namespace n %s) (%%n/f)' % ' '.join('(%%define v%d %d)' % (i, i) for i in range(30)),
                                     '(%%yaml "%s") %%k3' % '\\n'.join('k%d: %d' % (i, i) for i in range(40)), '(%%toml "%s") %%k3' % '\\n'.join('k%d = %d' % (i, i) for i in range(40)), '(%%format "%s" %s)' % (' '.join('{k%d}' % i for i in range(40)), many), '(p %s)' % many,
                                     '(%%define (f %s) a) (%%f)' % ' '.join(':k%d a%d' % (i, i) for i in range(20)), '(%%define (f %s) a) (%%f %s)' % (' '.join(':k%d (a%d)' % (i, i) for i in range(20)), ' '.join(':z%d 1' % i for i in range(20))),
                                     '(%%sort %s)' % ' '.join('"k%d"' % (i * 7 % 40) for i in range(40)), '(%date "%Y" 0 :bad 1 :worse 2 :worst 3)', '(%glob)', '(%sort :key 1 :order 2 :foo 3)']]
        return out

    def gen(self, r):
        case = self.mixed.draw(r, 0.15)
        y = r.random()
        if y < 0.25 and '%glob' not in case['src']:
            docs = [case['src']]
            for _ in range(r.choice([1, 2, 3, 5])):
                z = r.random()
                if z < 0.5:
                    d = self.mixed.draw(r, 0.15)['src']
                else:
                    d = mutate(r, case['src']) if z < 0.75 else case['src']
                if '%glob' not in d:
                    docs.append(d)
            case['docs'] = docs
            case['seed'] = r.randrange(1 << 30)
            case['mode'] = r.choice(['threads', 'life'])
        return case

    def shrinkable(self, case):
        return 'src' if not case.get('docs') else None

    def same(self, case, a, b, how, exact=False):
        self.compared[how] += 1
        # Generated names depend on the path of the source, which differs in some comparisons.
        x, y = (a, b) if exact else (norm(a), norm(b))
        if x != y:
            raise Bad('%s\n%s: %s\nthe first: %s\nthe other: %s' % (short(repr(case['src'])), how, first_diff(x, y), short(x, 1200), short(y, 1200)), how)

    def bounded(self, case, root, got):
        if kind_of(got) in ('crash', 'hang'):
            raise Skip('did not finish')
        return got

    def judge(self, case):
        try:
            return self.judge_once(case)
        except Bad:
            if re.search(r'date', case['src'] + json.dumps(case.get('files', {})) + json.dumps(case.get('docs', []))):
                # The clock may have moved on in between.
                for _ in range(3):
                    time.sleep(1.05 - time.time() % 1)
                    try:
                        return self.judge_once(case)
                    except Bad:
                        pass
                if re.search(r'%[-_0-9.:#]*[fN+]', case['src'] + json.dumps(case.get('files', {})) + json.dumps(case.get('docs', []))):
                    raise Skip('fractions of the current second')
            raise

    def judge_once(self, case):
        root = self.prepare(case)
        self.n += 1
        req = self.request(case, root, self.FM, sites=True)
        a = self.bounded(case, root, self.ask(req))
        self.same(case, a, self.ask(req), 'repeated in the same process', True)
        feats = [kind_of(a), 'again']
        which = self.n % len(self.fresh)
        o = self.fresh[which]
        o.stop()
        self.same(case, a, self.ask(req, o), 'in a fresh process', True)
        feats.append('fresh process')
        if NOISE[which]:
            feats.append('other environment')
        if self.n % 3 == 0:
            self.same(case, a, self.ask(req, self.fresh[(which + 1) % len(self.fresh)]), 'in a process with another history', True)
            feats.append('other history')
        if self.n % 4 == 0:
            self.same(case, a, self.ask(req + [('reclone', '1')]), 'through a clone')
            self.same(case, a, self.ask(req + [('via', 'stream')]), 'through a stream')
            with open(os.path.join(root, 'main.sex'), 'wb') as f:
                f.write(self.source(case, root).encode('utf-8'))
            if '%glob' not in case['src'] and 'glob' not in json.dumps(case.get('files', {})):
                one = self.ask(req + [('path', 'main.sex')])
                self.same(case, one, self.ask(req + [('via', 'file'), ('path', 'main.sex')]), 'through a file')
                feats.append('file')
            os.unlink(os.path.join(root, 'main.sex'))
            feats += ['clone', 'stream']
        if self.n % 5 == 0 and kind_of(a) == 'ok':
            # One formatter used twice, cloned, and both ways.
            got = self.ask(self.request(case, root, ['html', 'html+', 'xml', 'xml+', 'css', 'css+', 'sexp', 'sexp+', 'text', 'text+', 'html!', 'html=', 'xml!', 'xml=']))
            for f in ('html', 'xml', 'css', 'sexp', 'text'):
                if kind_of(got['out'][f]) in ('ok', 'err', 'differs'):
                    self.same(case, got['out'][f], got['out'][f + '+'], f + ' by a clone')
            for f in ('html', 'xml'):
                self.same(case, got['out'][f + '!'], got['out'][f + '='], f + ' document after display')
            feats.append('formatters reused')
        if case.get('docs'):
            base = [('fmt', f) for f in self.FM] + [('inc', i.replace('$', root)) for i in case.get('inc', [])] + [('cwd', root)]
            base += [('env:' + k, bytes(v) if isinstance(v, list) else v) for k, v in (case.get('env') or {}).items()]
            docs = [d.replace('$ROOT', root) for d in case['docs']]
            if case['mode'] == 'threads':
                alone = [self.bounded(case, root, self.ask([('op', 'run'), ('src', d), ('notree', '1')] + base)) for d in docs]
                many = docs * 3
                got = self.bounded(case, root, self.ask([('op', 'threads')] + [('src', d) for d in many] + base))
                for i, x in enumerate(got['docs']):
                    self.same(case, alone[i % len(docs)], x, 'in concurrent threads')
                feats.append('threads')
            else:
                alone = [self.bounded(case, root, self.ask([('op', 'run'), ('src', d), ('notree', '1')] + base + [('fmt', f) for f in ('text!', 'sexp!', 'css!')])) for d in docs]
                got = self.bounded(case, root, self.ask([('op', 'life')] + [('src', d) for d in docs] + base + [('seed', str(case['seed'])), ('steps', '200')]))
                if 'differs' in got and got['differs']:
                    raise Bad('%s\nin a history of calls over %s: %s' % (short(repr(case['src'])), short(case['docs']), short(got['differs'])), 'history')
                for i, f, res in got.get('results', []):
                    want = alone[i]
                    if 'out' not in want:
                        want = {'err': want['err']} if f == 'tree' and 'err' in want else None
                    else:
                        want = want['out'].get('display' if f == 'tree' else f)
                    if want is not None and 'panic' not in want:
                        self.same(case, want, res, 'in a history of calls')
                feats.append('history of calls')
        return feats

    def nontrivial(self, case, feats):
        return bool(case['src'].strip())

    def extra_evidence(self):
        return {'compared_' + k.replace(' ', '_'): v for k, v in self.compared.items()}


# ------------------------------------------------------------------ C24

TARGETS = ['text', 'sexp', 'html', 'xml', 'css']
UNKNOWN = ['--', '---', '--HTML', '--Html', '--htm', '--htmls', '--html=1', '--nodocs', '--no', '--nodocument=1', '--version', '--v', '--help', '--I', '-x', '-vv', '-V', '-h', '-html', '-i', '-i.', '-é', '--é', '-text', '--xml ', '-1', '-nodoc', '--include', '---css', '--sexp\n']
C24_FILES = {'i1/w': '(p one)', 'i2/w': '(p two)', 'i3/w.sex': '(p three)', 'i3/only': '(p only)', 'i1/bad': '(', 'bytes': [0x61, 0xff, 0x62], 'dir': None, 'empty': '', 'blank': ' \n', '(%x).sex': 'a'}
C24_DOCS = ['(p a)', '(html (body b))', '(include)', '(%include w)', '(%include only)', '(%include bad)', 'a  (b :c d)', '(%nosuch)', '(p "unclosed', '(br x)', '(p :a b)', '(@charset "u")', '', ' ', '\n', '()', '(?xml :version "1") (r)', '(!DOCTYPE html) (p)', '(HTML)',
            '(%define v 1) %v', '%v', '(%define v 2) (%include w) %v', '(p "a\n")', '(%raw "<x>\n")', '(p x)\n', 'é', '(%embed bytes)', '(%os/env SEAM_T)', '(%date "%Y" 0 :timezone 0)', '(p (%list))', '(%include "$BARE/i2/w")', '(%embed "./$BARE/i1/w")', '"\\u{0}"', '\r\n(p)\r\n']
NAMES_24 = ['f0', 'f 1.sex', 'é.sex', 'dir/z.sex', './f4', 'dir/../f5', 'f6\n', 'html', 'a=b', '.hidden']


class C24(MixedCheck):
    id = 'C24'
    variants = ('plain', 'cli')
    technique = 'runtime monitoring: exit status, standard output, standard error and the position left on standard input of the real command, against a reference reading of its arguments and the library\'s result for each input alone'
    rule = 'random command lines (options in any order and number, several inputs, include directories, stray options) over random documents; non-trivial: a target is given'
    minimum = 150

    def setup(self, wid):
        super().setup(wid)
        self.n = 0

    def corpus(self):
        out = []

        def add(args, stdin='(p in)', files=None, **k):
            out.append(dict({'args': args, 'src': stdin, 'files': dict(C24_FILES, **(files or {})), 'env': {}}, **k))
        fs = {'f0': '(p zero)', 'f 1.sex': '(%define v 1) (q %v)', 'g': '(%nosuch)', 'h': '(br x)'}
        for t in TARGETS:
            for d in ([], ['--nodoc'], ['--nodocument']):
                add(['--' + t] + d)
                add(d + ['--' + t, 'f0'], files=fs)
                add(['f0'] + d + ['f 1.sex', '--' + t, '-'], files=fs)
            for t2 in TARGETS:
                add(['--' + t, '--' + t2])
                add(['--' + t, 'f0', '--' + t2], files=fs)
            for doc in C24_DOCS:
                add(['--' + t], doc, env={'SEAM_T': 'q'})
                add(['--nodoc', '--' + t, '-Ii1'], doc)
                add(['f0', '--' + t, 'f'], '', files=dict(fs, f=doc))
            add(['--' + t, 'f0', 'g', 'f 1.sex'], files=fs)
            add(['--' + t, 'f0', 'h', 'f 1.sex'], files=fs)
            add(['--' + t, 'f0', 'f0', 'f0'], files=fs)
            add(['--' + t, '-', '-'], files=fs)
            add(['--' + t, 'f0'], full=1, files=fs)
            add(['--' + t], full=1)
            add(['--' + t, 'dir'])
            add(['f0', '--' + t, 'dir', 'f0'], files=fs)
            add(['f0', '--' + t, 'bytes', 'f0'], files=fs)
            add(['--' + t], [0x61, 0xff])
            add(['--' + t, '-v'])
            for name in NAMES_24:
                add(['--' + t, name, 'f0'], files=dict(fs, **{name.replace('dir/../', '').replace('./', ''): '(%include w) (%nosuch)', 'w': '(p w)'}))
        for u in UNKNOWN:
            add([u])
            add(['--text', u, 'f0'], files=fs)
            add([u, '--text'])
            add(['--text', '-Ii1', 'f0', u], files=fs)
        for m in ['missing', '', 'f0/x', 'dir/missing', 'i1/w.sex', 'f0 ', ' f0', 'F0']:
            add(['--html', m, 'f0'], files=fs)
            add(['f0', '--html', m], files=fs)
        add([])
        add(['f0'], files=fs)
        add(['-Ii1'])
        add(['--nodoc', '-'])
        add(['-v'])
        add(['-v', 'f0'], files=fs)
        add([[0xff]])
        add(['--text', [0x66, 0xff], 'f0'], files=fs)
        for dirs in (['i1', 'i2'], ['i2', 'i1'], ['i3', 'i2', 'i1'], ['i1', 'i3'], ['nosuch', 'i2'], ['', 'i2'], ['.', 'i2'], ['$/i2', '$/i1'], ['i1', 'i1'], ['f0', 'i2'], ['dir', 'i3'], ['/', 'i2'], ['i2/', '/'], ['i3//', 'i1'], ['dir/../i2']):
            a = ['-I' + d for d in dirs]
            for doc in ('(%include w)', '(%include only)', '(%include "w.sex")', '(%embed w)', '(%include bad)', '(%embed "$BARE/i1/w")'):
                add(a + ['--text'], doc)
                add(['--text', 'f'] + a, files={'f': doc})
                add(a[:1] + ['f', '--text'] + a[1:], files={'f': doc})
                add(a[:1] + ['--text', 'f', '-'] + a[1:], doc, files={'f': doc})
        for t in TARGETS:
            add(['--' + t, '--nodoc'], '(%log QLOGA "QLOGB" 12 QLOGC)')
            add(['--' + t], 'a (%log QLOGA "QLOG B" 1.5) b (%log QLOGD)(%log "")')
            add(['--' + t, 'l', 'm', 'l'], files={'l': '(p (%log QLOGA QLOGB))', 'm': '(%define (f x) (%log QLOGC %x)) (%f QLOGD) (%f 7)'})
            add(['--' + t], '(%log QLOGA " " QLOGB)(%log QLOGC "")(%log QLOGD "" "" QLOGA)(%log QLOGA "\\t" b)(%log QLOGB " ")(%log "  QLOGC  " "d")(%log QLOGD "," ";" QLOGA)(%log QLOGA QLOGA QLOGA)')
            add(['--' + t], '(%log QLOGA)(%nosuch)(%log QLOGB)', log=['QLOGA'])
            add(['--' + t], '(%log (QLOGA))')
            add(['--' + t], '(%define QLOGX (%log QLOGA)) %QLOGX (%list (%log "QLOGB\\nc"))')
        return out

    def gen(self, r):
        files = dict(C24_FILES)
        base = self.mixed.draw(r, 0.2)
        env = base.get('env', {})
        for k, v in base.get('files', {}).items():
            files.setdefault(k, v)
        for k in list(files):
            # No file may stand where a directory has to be.
            if any(o != k and o.startswith(k + '/') for o in files) and files[k] is not None:
                del files[k]
        names = [n for n in r.sample(NAMES_24, r.choice([0, 0, 1, 1, 2, 3])) if n not in files]
        args = []

        def doc():
            x = r.random()
            if x < 0.5:
                return base['src']
            if x < 0.8:
                return r.choice(C24_DOCS)
            if x < 0.9:
                return '(p (%%log QLOG%d %s)) %s' % (r.randrange(9), r.choice(['a', '"x y"', '1']), r.choice(C24_DOCS))
            return self.mixed.draw(r, 0.2)['src'] if '%glob' not in base['src'] else 'b'
        for n in names:
            if n.startswith('dir/') and files.get('dir', None) is not None:
                continue
            d = doc()
            if '%glob' in d and names.index(n):
                d = 'c'
            files[n.replace('dir/../', '').replace('./', '')] = d
            args.append(n)
            if r.p(0.1):
                args.append(n)
        if r.p(0.1):
            args.append(r.choice(['bytes', 'dir', 'missing', 'empty', 'blank', 'i1/w', '(%x).sex']))
        args += ['-'] * r.choice([0, 0, 0, 0, 1, 1, 2])
        args += ['--' + r.choice(TARGETS) for _ in range(r.choice([0] + [1] * 8 + [2, 3]))]
        args += [r.choice(['--nodoc', '--nodocument']) for _ in range(r.choice([0, 0, 1, 2]))]
        dirs = ['-I' + i for i in base.get('inc', [])] + ['-I' + r.choice(['i1', 'i2', 'i3', '$/i2', 'nosuch', '', '/', 'i3/', './i2', 'i1/.', 'i1/../i3', '//', ' i2', '$/i1/']) for _ in range(r.choice([0, 0, 1, 2, 3]))]
        if r.p(0.05):
            args.append(r.choice(UNKNOWN + ['-v', [0x2d, 0xff]]))
        r.shuffle(args)
        pos = sorted(r.randint(0, len(args)) for _ in dirs)
        for p, d in reversed(list(zip(pos, dirs))):
            args.insert(p, d)
        return {'args': args, 'src': doc(), 'files': files, 'env': env, 'full': int(r.p(0.02))}

    def plan(self, args, root):
        """What the arguments ask for -> ('fatal'|'version'|'either'|'go', ...)"""
        target, doc, dirs, files, stdin, fatal, version, missing = None, True, [], [], False, False, False, None
        for a in args:
            if isinstance(a, list):
                fatal = True
            elif a.startswith('-'):
                if a[2:] in TARGETS and a.startswith('--'):
                    target = a[2:]
                elif a in ('--nodoc', '--nodocument'):
                    doc = False
                elif a == '-v':
                    version = True
                elif a == '-':
                    stdin = True
                elif a.startswith('-I'):
                    dirs.append(a[2:])
                else:
                    fatal = True
            else:
                if not os.path.exists(os.path.join(root, a)) or not a:
                    missing = len(files) if missing is None else missing
                files.append(a)
        if version:
            return ('either' if fatal or missing is not None else 'version'), None
        if fatal or target is None:
            return 'fatal', None
        inputs = ([None] if stdin or not files else []) + files
        return 'go', (target, doc, dirs, inputs, missing)

    def judge(self, case):
        root = self.prepare(case)
        data = bytes(case['src']) if isinstance(case['src'], list) else self.source(case, root).encode('utf-8')
        args = [a if isinstance(a, list) else a.replace('$', root) for a in case['args']]
        kind, plan = self.plan(args, root)
        argv = [bytes(a) if isinstance(a, list) else a.encode('utf-8') for a in args]
        show = '%s\nseam %s' % (short(repr(case['src']), 400), ' '.join(repr(a.decode('utf-8', 'replace')) for a in argv))
        with tempfile.TemporaryFile() as f:
            f.write(data)
            f.flush()
            f.seek(0)
            if case.get('full') and kind == 'go':
                return self.full(case, argv, f, root, show)
            p = run_cli(self.bin['cli'], argv, cwd=root, env=case.get('env'), stdin=f)
            read = os.lseek(f.fileno(), 0, os.SEEK_CUR)
        if p[0] < 0:
            # Whether that is allowed is C02's question.
            raise Skip('did not finish')
        check_sane(self, dict(case, src=show), root, [], p)
        status, out, err = p
        text = err.decode('utf-8', 'replace')
        if kind in ('version', 'either'):
            if kind == 'version' or status == 0:
                if status != 0:
                    raise Bad('%s\n-v exits with %d' % (show, status), 'version status')
                v = re.search(r'^version *= *"([^"]*)"', open(os.path.join(drv.REPO, 'crates/seam/Cargo.toml')).read(), re.M).group(1)
                if v not in text + out.decode('utf-8', 'replace'):
                    raise Bad('%s\n-v does not print %s: %s' % (show, v, short(text)), 'version')
            return ['version']
        if kind == 'fatal':
            if status == 0 or out or not text.strip():
                raise Bad('%s\nexpected an error about the arguments, got status %d, output %s, message %s' % (show, status, short(repr(out)), short(text)), 'arguments accepted')
            return ['bad arguments']
        target, doc, dirs, inputs, missing = plan
        if case.get('files') and None not in inputs and read:
            raise Bad('%s\nstandard input was read (%d bytes)' % (show, read), 'stdin')
        want, message = b'', None
        feats = [target, 'document' if doc else 'nodocument', '%d inputs' % len(inputs), '%d dirs' % min(3, len(dirs))]
        base = [('fmt', target + ('!' if doc else '')), ('notree', '1'), ('cwd', root)] + [('inc', d) for d in dirs]
        base += [('env:' + k, bytes(v) if isinstance(v, list) else v) for k, v in (case.get('env') or {}).items()]
        words = []
        if missing is not None:
            # Reported before anything else or when its turn comes.
            if status == 0 or not text.strip():
                raise Bad('%s\na missing file: status %d, message %s' % (show, status, short(text)), 'missing file')
            if not out:
                return ['missing file']
        at = 0
        for i in inputs:
            if i is not None and missing is not None and i == [x for x in inputs if x is not None][missing]:
                message = ''
                break
            at += 1
            if i is None:
                try:
                    d = data.decode('utf-8')
                except UnicodeDecodeError:
                    got = {'ioerr': ''}
                else:
                    got = self.ask([('op', 'run'), ('src', d)] + base)
            else:
                path = os.path.join(root, i)
                if os.path.isfile(path):
                    d = open(path, 'rb').read().decode('utf-8', 'replace')
                got = self.ask([('op', 'run'), ('via', 'file'), ('path', i)] + base)
            k = kind_of(got)
            if k in ('crash', 'hang', 'panic'):
                raise Skip('did not finish')
            if k != 'ioerr':
                words += re.findall(r'\(%log ([\w." \\]+)\)', d) if not case.get('log') else []
            if k == 'ok':
                o = got['out'][base[0][1]]
                k = kind_of(o)
                if k == 'panic':
                    raise Skip('did not finish')
                if k == 'ok':
                    want += o['ok'].encode('utf-8') + b'\n'
                    continue
                message = o['err']
            elif k == 'err':
                message = got['err']
            else:
                message = ''
            break
        if out != want:
            clock = 'date' in json.dumps(case)
            if norm(out.decode('utf-8', 'replace')) == norm(want.decode('utf-8', 'replace')) or clock:
                raise Skip('clock or lambda names')
            raise Bad('%s\nstandard output: %s' % (show, first_diff(want.decode('utf-8', 'replace'), out.decode('utf-8', 'replace'))), 'output')
        if (status != 0) != (message is not None):
            raise Bad('%s\nexit status %d, but %s' % (show, status, 'input %d fails: %s' % (at, message) if message is not None else 'every input succeeds'), 'status')
        if message is not None:
            if norm(message.strip()) not in norm(text) and norm(message.strip())[1:-1] not in norm(text) and 'date' not in json.dumps(case):
                raise Bad('%s\nthe diagnostic %s\nis not on standard error: %s' % (show, short(message), short(text)), 'message')
            if not text.strip():
                raise Bad('%s\nno message' % show, 'message')
            feats.append('error after %d' % (at - 1))
        elif not words and text.strip() and not re.search(r'log|\\[xu]|%(apply|concat|join)', json.dumps(case, ensure_ascii=False)):
            # (A logging macro may be named in many ways: %apply log.)
            raise Bad('%s\nunexpected text on standard error: %s' % (show, short(text)), 'noise')
        if '%log' in json.dumps(case):
            if b'QLOG' in out and not re.search(r'QLOG', re.sub(r'\(%log [^()]{0,200}\)', '', json.dumps(case))):
                raise Bad('%s\nlogged words in the output: %s' % (show, short(repr(out))), 'log in output')
            if case.get('log') is not None:
                words = case['log']
            elif message is not None:
                words = []
            pos = 0
            for wd in words:
                parts = [re.escape(x.strip('"').replace('\\n', '\n').replace('\\t', '\t')) for x in re.findall(r'"[^"]*"|[^\s"]+', wd)]
                if not parts or 'QLOG' not in wd or '%' in wd:
                    continue
                m = re.compile(r'\s+'.join(parts) + r'\s*\n').search(text, pos)
                if not m:
                    raise Bad('%s\n%%log %s is not on standard error: %s' % (show, wd, short(text)), 'log')
                pos = m.end()
                feats.append('log')
        return feats

    def full(self, case, argv, f, root, show):
        """Standard output that cannot be written to."""
        full = {k.encode(): v.encode() for k, v in drv.base_env().items()}
        with open('/dev/full', 'wb') as o:
            p = subprocess.Popen([self.bin['cli']] + argv, stdin=f, stdout=o, stderr=subprocess.PIPE, cwd=root, env=full, preexec_fn=cli_limits)
            _, err = p.communicate(timeout=240)
        if p.returncode < 0:
            raise Skip('did not finish')
        check_sane(self, dict(case, src=show), root, [], (p.returncode, b'', err))
        if p.returncode == 0:
            raise Bad('%s\nexit status 0 although the output could not be written' % show, 'unwritten')
        return ['unwritable output']

    def shrinkable(self, case):
        return 'src' if isinstance(case['src'], str) else None

    def nontrivial(self, case, feats):
        return len(feats) > 1

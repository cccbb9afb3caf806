import json, re, os, sys, shutil, hashlib
import model
from model import SeamErr, Unsure
from engine import Check, Bad, Skip, Inconclusive
from gen import Rng, Texts, Prog, mutate, juxtapose, wrap, name_src, str_src, BUILTIN_NAMES
import gen
import drv

LAM = re.compile(r'__lambda[^"\\\s()]*-(?=\d)')


def norm(j):
    return LAM.sub('__lambda-', json.dumps(j))


def short(x, n=700):
    s = x if isinstance(x, str) else json.dumps(x, ensure_ascii=False)
    return s if len(s) <= n else s[:n] + '...'


def kind_of(resp):
    """ok | err | panic | crash | hang | differs"""
    for k in ('crash', 'hang', 'panic', 'ioerr', 'err', 'differs'):
        if k in resp:
            return k
    return 'ok'


def first_diff(a, b):
    """Describe the first difference of two JSON trees or strings."""
    if isinstance(a, str) and isinstance(b, str):
        i = 0
        while i < len(a) and i < len(b) and a[i] == b[i]:
            i += 1
        return 'at character %d: expected %s, got %s' % (i, json.dumps(a[max(0, i - 20):i + 40], ensure_ascii=False),
                                                      json.dumps(b[max(0, i - 20):i + 40], ensure_ascii=False))
    return 'expected %s\ngot      %s' % (short(a), short(b))


class ProgramCheck(Check):
    """Cases are source texts with an environment, include directories and
    files; the model says what they mean."""

    def setup(self, wid):
        super().setup(wid)
        self.scratch = None

    def dir_for(self, case):
        """Create the files of a case in a scratch directory of this worker."""
        if not case.get('files') and not case.get('cwd'):
            return None
        if self.scratch is None:
            self.scratch = drv.Scratch()
        root = os.path.join(self.scratch.path, 'w')
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        for rel, text in case.get('files', {}).items():
            p = os.path.join(root, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if text is None:
                os.makedirs(p, exist_ok=True)
                continue
            with open(p, 'wb') as f:
                f.write(bytes(text) if isinstance(text, list) else text.encode('utf-8'))
        return root

    def teardown(self):
        super().teardown()
        if getattr(self, 'scratch', None):
            self.scratch.__exit__()
            self.scratch = None

    def world(self, case, root):
        incs = [i.replace('$', root) if root else i for i in case.get('inc', [])]
        return model.World(cwd=root or '/nonexistent', includes=incs, env=case.get('env'), yaml=case.get('yaml'),
                           markdown=case.get('markdown'))

    def source(self, case, root):
        text = case['src']
        if root and '$' in text:
            text = text.replace('$ROOT', root).replace('$BARE', root.lstrip('/'))
        return text

    def expected(self, case, root, world=None):
        """-> ('ok', nodes) | ('err', SeamErr); raises Skip"""
        self.w = world or self.world(case, root)
        self.src = model.Src('<stdin>', self.source(case, root))
        self.w.srcs[self.src.name] = self.src
        try:
            return 'ok', model.Ctx(self.w).nodes(model.parse(self.src))
        except SeamErr as e:
            return 'err', e
        except Unsure as e:
            raise Skip('model: %s' % e)
        except RecursionError:
            raise Skip('model: recursion')

    def request(self, case, root, fmts=(), sites=False, extra=()):
        f = [('op', 'run'), ('src', self.source(case, root))]
        f += [('fmt', x) for x in fmts]
        f += [('inc', i.replace('$', root) if root else i) for i in case.get('inc', [])]
        f += [('env:' + k, bytes(v) if isinstance(v, list) else v) for k, v in (case.get('env') or {}).items()]
        f.append(('cwd', root or '/tmp'))
        if sites:
            f.append(('sites', '1'))
        return f + list(extra)

    def compare(self, case, exp, got):
        """Tree or error as expected."""
        k = kind_of(got)
        if k != exp[0]:
            what = exp[1].why if exp[0] == 'err' else short(model.to_json(exp[1]))
            raise Bad('%s\nexpected %s (%s)\ngot %s: %s' % (short(case['src']), exp[0], what, k, short(got)), '%s-for-%s' % (k, exp[0]))
        if k == 'ok':
            e = model.to_json(exp[1])
            if norm(e) != norm(got['tree']):
                raise Bad('%s\n%s' % (short(case['src']), first_diff(e, got['tree'])), 'tree')

    MACRO = re.compile(r'\(\s*%([a-z/]+)')

    def features(self, case, exp):
        out = [exp[0]] if exp[0] == 'ok' else ['err', 'err: ' + exp[1].why]
        out += ['%' + m for m in set(self.MACRO.findall(case['src'])) if m in model.BUILTIN]
        return out

    def judge(self, case):
        root = self.dir_for(case)
        exp = self.expected(case, root)
        got = self.ask(self.request(case, root))
        self.compare(case, exp, got)
        return self.features(case, exp)

    def nontrivial(self, case, feats):
        return any(f.startswith('%') for f in feats)


def count(nodes):
    return sum(1 + (count(n.kids) if n.k == 'l' else count([n.node]) if n.k == 'a' else 0) for n in nodes)

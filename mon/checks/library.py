"""C25, C26: what a program that embeds the library relies on."""
import struct
from collections import Counter
from .base import *
from . import reading, formats, macros

TYPES = {'y': 'symbol', 'n': 'number', 's': 'string', 'r': 'raw-content string', 'l': 'list', 'a': 'attribute'}
RANGES = [(0, 2 ** 32 - 1), (-2 ** 31, 2 ** 31 - 1), (0, 2 ** 64 - 1), (-2 ** 63, 2 ** 63 - 1), (0, 2 ** 64 - 1), (-2 ** 63, 2 ** 63 - 1)]


class LibraryCheck(Check):
    variants = ('lib',)

    def setup(self, wid):
        self.obs = drv.Observer(self.bin['lib'])

    def answer(self, case, fields):
        got = self.ask(fields)
        if ('overflowed its stack' in str(got) and 'crash' in got or 'hang' in got) and '%define' in case['src']:
            # A definition that uses itself without end; C02 tells those from bounded ones.
            raise Skip('recursion')
        for k in ('panic', 'crash', 'hang'):
            if k in got:
                raise Bad('%s\n%s: %s' % (short(case), k, short(got)), k + ' ' + str(got[k])[:80])
        return got


# Reading the observer's JSON, in which nodes may carry their sites.

def bare(j):
    """Without sites."""
    if j[0] in 'ynsr':
        return j[:3]
    if j[0] == 'l':
        return ['l', j[1], j[2], [bare(n) for n in j[3]]]
    return ['a', j[1], j[2], bare(j[3])]


def value(j):
    """What == looks at."""
    if j[0] in 'ynsr':
        return (j[0], j[1])
    if j[0] == 'l':
        return ('l',) + tuple(value(n) for n in j[3])
    return ('a', j[1], value(j[3]))


def walk(nodes):
    for n in nodes:
        yield n
        if n[0] == 'l':
            yield from walk(n[3])
        elif n[0] == 'a':
            yield from walk([n[3]])


def whitespace(j):
    return j[1] if j[0] == 'l' else j[2]


def spaced(j, ws):
    j = list(j)
    j[1 if j[0] == 'l' else 2] = ws
    return j


def site(j):
    return j[3] if j[0] in 'ynsr' else j[4]


def shown(j):
    """The text of a node."""
    if j[0] in 'yn':
        return j[2] + j[1]
    if j[0] in 'sr':
        return j[2] + model.rust_debug(j[1])
    if j[0] == 'a':
        return '%s:%s%s' % (j[2], j[1], shown(j[3]))
    return '%s(%s%s)' % (j[1], ''.join(map(shown, j[3])), j[2])


def int_value(text, lo, hi):
    if not re.fullmatch('[+]?[0-9]+' if lo == 0 else '[+-]?[0-9]+', text):
        return None
    n = int(text) if len(text) < 400 else (10 ** 400 if text[0] != '-' else -10 ** 400)
    return str(n) if lo <= n <= hi else None


def float_value(text):
    if not re.fullmatch(r'[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?', text):
        return None
    return str(struct.unpack('<Q', struct.pack('<d', float(text)))[0])


def facts(j):
    k = j[0]
    v = j[1] if k in 'ynsr' else None
    pick = lambda kinds: v if k in kinds else None
    sym, atomic, symbol, number, string = pick('yn'), pick('ynsr'), pick('y'), pick('n'), pick('sr')
    kids = [bare(n) for n in j[3]] if k == 'l' else None
    return {'type': TYPES[k], 'null': k == 'l' and not j[3],
            'is': [sym is not None, atomic is not None, symbol is not None, number is not None, string is not None, k == 'l', k == 'a'],
            'as': [sym, atomic, symbol, number, string, atomic, atomic], 'list': kids, 'boxed': kids, 'vec': kids,
            'attribute': [j[1], bare(j[3])] if k == 'a' else None, 'ws': whitespace(j), 'site': site(j), 'owned': site(j),
            'values': [pick('ysr')] + [int_value(v, a, b) if k == 'n' else None for a, b in RANGES] + [float_value(v) if k == 'n' else None],
            'extracts': [extract(kinds, j, kids) for kinds in ('ynsr', 'sr', 'y', 'n', 'yn', 'l', 'ynsrla') for _ in (0, 1)],
            'display': shown(j), 'respaced': spaced(bare(j), '\t~'), 'same_after': True}


WANTED = [w for w in ('literal', 'string', 'symbol', 'number', 'symbolic literal', 'list', 'any') for _ in (0, 1)]


def extract(kinds, j, kids):
    if j[0] not in kinds:
        what = {'ynsr': 'literal', 'sr': 'string', 'y': 'symbol', 'n': 'number', 'yn': 'symbolic literal', 'l': 'list'}[kinds]
        return ['err', what, site(j)]
    return ['ok', bare(j) if len(kinds) == 6 else kids if kinds == 'l' else j[1]]


def lower(s):
    # Final sigma is the only place where lower case looks at the neighbours.
    if 'Σ' in s:
        raise Skip('sigma')
    return s.lower()


def search(nodes, kind, want, fold, level):
    """First match in document order; one level per list or attribute entered."""
    eq = (lambda s: lower(s) == lower(want)) if fold else (lambda s: s == want)
    if level == 0:
        return None
    for n in nodes:
        f = search_one(n, kind, eq, level)
        if f is not None:
            return f
    return None


def search_one(n, kind, eq, level):
    if level == 0:
        return None
    isa = lambda k: kind in ('any', k)
    if n[0] == 'l':
        if isa('head') and n[3] and n[3][0][0] in 'ynsr' and eq(n[3][0][1]):
            return n
        return first(n[3], kind, eq, level - 1)
    if n[0] == 'a':
        if isa('attr') and eq(n[1]):
            return n[3]
        return first([n[3]], kind, eq, level - 1)
    return n if isa({'y': 'symbol', 'n': 'number', 's': 'string', 'r': 'string'}[n[0]]) and eq(n[1]) else None


def first(nodes, kind, eq, level):
    for n in nodes if level else ():
        f = search_one(n, kind, eq, level)
        if f is not None:
            return f
    return None


class C25(LibraryCheck):
    id = 'C25'
    technique = 'runtime monitoring: results of the library interface (accessors, conversions, equality, hashes, searches, stepwise parsing, writers and readers that fail) compared with a reference computed from the fields of the same tree'
    rule = 'random source texts and trees, every node of them; searches for words, keywords and numbers that occur, almost occur or do not, at every depth; writers with any room; readers with any chunking; walks of a lexer with looks ahead, returns and copies; non-trivial: at least two nodes'
    NUMS = ['0', '-0', '+0', '1', '-1', '+1', '4294967295', '4294967296', '2147483647', '2147483648', '-2147483648', '-2147483649', '9223372036854775807', '9223372036854775808', '-9223372036854775808', '-9223372036854775809',
            '18446744073709551615', '18446744073709551616', '1.5', '.5', '1.', '-.5', '1e3', '1E-3', '1e309', '-1e309', '1e-400', '2.5e', '0.1', '007', '1_000', '0x10', '12px', '1.2.3', '3-4', '5%', '-', '+', '+.', '1e+', '--1', '123456789012345678901234567890', '0.30000000000000004', '5e-324', '2.2250738585072011e-308', '1.7976931348623159e308']

    def corpus(self):
        out = [{'op': 'tree', 'src': '(p %s :k %s)' % (n, n)} for n in self.NUMS]
        srcs = ['', 'a', '()', '(a)', '(a (a) "a" 1 :a (a :b a))', ':a b', ':a :b c', '(%raw "x") "x" x', '(b :a (a)) (a)', '("a" (1)) (1 "a")', 'A a "A" É é (É) :É é', '((a)) (((a))) a', '(a :k a) :a (a a)', '(a) (a ) ( a)', '"a" a 1 "1" :a 1 :a "1" (a) (A)', '(() (()) ())', '(:a (a)) ((a) a)', '(:k a) (:a (a)) (:a a) a', '((:a a)) (:b :a a) (a)', '((a) a) ("a") (1) (a)']
        for s in srcs:
            for op in ('tree', 'steps', 'nodes'):
                out.append({'op': op, 'src': s})
            for moves in ('cccccccccccccc', 'pcpcpcpcpcpcpc', '2c2c2c2c2c2c', '9p9c9p9c9', 'ckckckpckc', 'e0c1c2c3c4'):
                out.append({'op': 'walk', 'src': s, 'moves': moves})
            for e in (0, 1):
                for kind in ('head', 'symbol', 'number', 'string', 'attr', 'any'):
                    for v in ('a', 'A', '1', 'É', 'b'):
                        for level in (0, 1, 2, 3, 9):
                            out.append({'op': 'search', 'src': s, 'kind': kind, 'value': v, 'level': level, 'fold': e, 'expand': e})
            for f in ('text', 'sexp', 'html', 'xml', 'css'):
                out += [{'op': 'write', 'src': s, 'fmt': f, 'room': k, 'expand': 1} for k in (0, 1, 3, 7, 1000)] + [{'op': 'write', 'src': s, 'fmt': f, 'room': k, 'expand': 1, 'once': 1} for k in range(12)] + [{'op': 'shown', 'src': s, 'fmt': f}]
            for step in (1, 2, 1000):
                out += [{'op': 'stream', 'src': s, 'step': step}, {'op': 'stream', 'src': s, 'step': step, 'interrupt': 1}, {'op': 'stream', 'src': s, 'step': step, 'fail': 1}, {'op': 'stream', 'src': s, 'tail': [0xc3], 'step': step}]
        return out

    def gen(self, r):
        T = Texts(r, 0.1)
        x = r.random()
        if x < 0.3:
            src = reading.source_text(r)
        elif x < 0.55:
            src = formats.C06.gen(self, r)['src'] if r.p(0.6) else formats.Css(r).source()
        elif x < 0.65:
            src = macros.Lists(r).program()
        else:
            words = ['a', 'b', 'A', 'bc', 'Bc', 'BC', 'é', 'É', 'ß', '"a"', '"B c"', '""', '(%raw "a")', '1', '1.0', '-1', '+1', '01', 'İ', 'ǆ', 'ǅ'] + [r.choice(self.NUMS), T.word(), T.atom()]

            def node(d):
                y = r.random()
                if y < 0.5 or d <= 0:
                    return r.choice(words)
                if y < 0.7:
                    return ':%s %s' % (r.choice(['a', 'b', 'A', 'bc', 'BC', 'é', 'É']), node(d - 1))
                return wrap(r, T, [node(d - 1) for _ in range(r.choice([0, 1, 2, 3, 5]))])
            src = juxtapose(r, T, [node(r.randint(0, 5)) for _ in range(r.choice([1, 2, 3, 6]))])
        if r.p(0.03):
            src = mutate(r, src)
        expand = {'expand': 1} if r.p(0.5) else {}
        op = r.choice(['tree', 'tree', 'tree', 'search', 'search', 'search', 'search', 'write', 'write', 'steps', 'stream', 'stream', 'walk', 'nodes'] + ['shown'] * r.p(0.2))
        case = dict({'op': op, 'src': src}, **expand)
        if op == 'search':
            ws = [w.strip(':"') for w in re.findall(r'[^\s()";%]+', src)] + ['a']
            w = r.choice(ws)
            if r.p(0.4):
                w = r.choice([w.upper(), w.lower(), w.swapcase(), w + 'x', w[:-1], w.title(), ' ' + w, w + ' '])
            case.update(kind=r.choice(['head', 'head', 'symbol', 'number', 'string', 'attr', 'any', 'any']), value=w, level=r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 9, 1000]), fold=int(r.p(0.5)))
        elif op in ('write', 'shown'):
            case['fmt'] = r.choice(['text', 'sexp', 'html', 'xml', 'css'])
            if op == 'write':
                case['room'] = r.randint(0, max(1, int(len(src) * 1.3)))
                if r.p(0.5):
                    case['once'] = 1
        elif op == 'walk':
            case['moves'] = ''.join(r.choice('ccccppek0123579') for _ in range(r.choice([3, 10, 40, 120])))
        elif op == 'stream':
            case['step'] = r.choice([1, 2, 3, 7, 100000])
            for k, p in (('interrupt', 0.4), ('fail', 0.1)):
                if r.p(p):
                    case[k] = 1
            if r.p(0.1):
                case['tail'] = [r.choice([0xff, 0xc3, 0x80, 0xed, 0xf4]), r.choice([0xa0, 0x90, 0x41])][:r.randint(1, 2)]
        return case

    def judge(self, case):
        op, src = case['op'], case['src']
        f = [('op', op), ('src', src.encode('utf-8') + bytes(case['tail']) if case.get('tail') else src)]
        f += [(k, str(case[k])) for k in ('kind', 'value', 'level', 'fmt', 'room', 'step') if k in case]
        f += [(k, '1') for k in ('expand', 'interrupt', 'fail', 'once') if case.get(k)]
        if case.get('fold'):
            f.append(('insensitive', '1'))
        if op == 'stream':
            return self.stream(case, f)
        if op == 'steps':
            return self.steps(case)
        if op == 'walk':
            return self.walked(case)
        if op == 'nodes':
            return self.expanded(case, f)
        got = self.answer(case, f)
        if 'err' in got:
            return [op, 'not a document']
        if op == 'tree':
            return self.tree(case, got)
        if op == 'search':
            return self.search(case, got)
        if op == 'shown':
            d, s = got['display'], got['shown']
            if ('ok' in d) != ('ok' in s) or d.get('ok') != s.get('ok'):
                raise Bad('%s\ndisplayed as %s\nbut shown as %s' % (short(case), short(d), short(s)), 'shown')
            return [op, 'ok' if 'ok' in d else 'generation error', 'long' if len(src) > 3 else 'short']
        return self.write(case, got)

    def tree(self, case, got):
        nodes = list(walk(got['tree']))
        if len(nodes) != len(got['facts']):
            raise Skip('walk')
        feats = Counter()
        for j, f in zip(nodes, got['facts']):
            # Of the message, only what was wanted is looked at.
            f['extracts'] = [[x[0], w if w in x[1] else x[1], x[2]] if x[0] == 'err' else x for x, w in zip(f['extracts'], WANTED)]
            try:
                e = facts(j)
            except model.Unsure:
                f = dict(f, display=None)
                e = facts_without_display(j)
            if e != f:
                k = next(k for k in e if e[k] != f.get(k))
                raise Bad('%s\nof %s the library says %s: %s\nexpected %s' % (short(case), short(bare(j)), k, short(f.get(k)), short(e[k])), 'facts ' + k)
            feats[TYPES[j[0]]] += 1
        some = nodes[:40]
        vals = [value(j) for j in some]
        pairs = [[i, j] for i in range(len(some)) for j in range(len(some)) if i != j and vals[i] == vals[j]]
        if pairs != got['equal']:
            d = [p for p in pairs if p not in got['equal']] + [p for p in got['equal'] if p not in pairs]
            raise Bad('%s\n%s and %s: equality is %s, expected %s' % (short(case), short(bare(some[d[0][0]])), short(bare(some[d[0][1]])), d[0] in got['equal'], d[0] in pairs), 'equality')
        if got['unhashed']:
            raise Bad('%s\nequal nodes that hash differently (%d)' % (short(case), got['unhashed']), 'hash')
        self.nodes = getattr(self, 'nodes', 0) + len(nodes)
        self.pairs = getattr(self, 'pairs', 0) + len(pairs)
        return ['tree'] + sorted(feats) + (['long'] if len(nodes) > 1 else []) + (['equal nodes'] if pairs else [])

    def search(self, case, got):
        # The tree itself, by another request.
        f = [('op', 'tree'), ('src', case['src'])] + ([('expand', '1')] if case.get('expand') else [])
        t = self.answer(case, f)
        if 'tree' not in t:
            raise Skip('tree')
        nodes = t['tree']
        kind, want, fold, level = case['kind'], case['value'], case.get('fold'), case['level']
        e = search(nodes, kind, want, fold, level)
        if e != got['found']:
            raise Bad('%s\nfound %s\nexpected %s' % (short(case), short(got['found']), short(e)), 'search')
        eq = (lambda s: lower(s) == lower(want)) if fold else (lambda s: s == want)
        hits = 0
        for n, g in zip(list(walk(nodes))[:12], got['from']):
            e1 = search_one(n, kind, eq, level)
            hits += e1 is not None
            if e1 != g:
                raise Bad('%s\nfrom %s found %s\nexpected %s' % (short(case), short(bare(n)), short(g), short(e1)), 'search node')
        return ['search ' + kind, 'found' if e is not None else 'not found', 'long' if hits or len(nodes) > 1 else 'short']

    def write(self, case, got):
        d, c = got['display'], got['cut']
        for k in ('cloned', 'again'):
            if got[k] != d:
                raise Bad('%s\n%s %s\nis not %s' % (short(case), k, short(got[k]), short(d)), k)
        if 'ok' not in d:
            if 'ok' in got['append']:
                raise Bad('%s\nwritten to a buffer although it is an error' % short(case), 'append')
            if 'ok' in c:
                raise Bad('%s\nan error on a string, success on a small writer' % short(case), 'cut')
            return ['write', 'generation error', 'long']
        if got['append'] != {'ok': 'before|' + d['ok']}:
            raise Bad('%s\nappended to a buffer: %s' % (short(case), short(got['append'])), 'append')
        size = len(d['ok'].encode('utf-8'))
        if size <= case['room']:
            if 'ok' not in c or got['written'] != d['ok']:
                raise Bad('%s\nwith room for it: %s, wrote %s' % (short(case), short(c), short(got['written'])), 'room')
            return ['write', 'wrote all', 'long' if size > 3 else 'short']
        if 'ok' in c:
            raise Bad('%s\nthe failure of the writer is lost: wrote %s of %s' % (short(case), short(got['written']), short(d['ok'])), 'lost failure')
        if not d['ok'].startswith(got['written']):
            raise Bad('%s\nwrote %s, which does not begin %s' % (short(case), short(got['written']), short(d['ok'])), 'prefix')
        return ['write', 'writer failed', 'long']

    def steps(self, case):
        t = self.answer(case, [('op', 'tree'), ('src', case['src'])])
        if 'tree' not in t:
            return ['steps', 'not a document']
        got = self.answer(case, [('op', 'steps'), ('src', case['src']), ('count', str(len(t['tree'])))])
        if got['source'] != case['src']:
            raise Bad('%s\nsource %s' % (short(case), short(got['source'])), 'source')
        if got['steps'] != t['tree'] or got['rest'] != 0 or got['again'] != t['tree']:
            raise Bad('%s\none at a time: %s\nthen %s left; at once: %s' % (short(case), short(got['steps']), got['rest'], short(t['tree'])), 'steps')
        return ['steps', 'long' if len(t['tree']) > 1 else 'short']

    def walked(self, case):
        got = self.answer(case, [('op', 'walk'), ('src', case['src']), ('moves', case['moves'])])
        plain, at = got['plain'], 0
        for t in plain:
            if isinstance(t, list) and (t[3] != self.at_site(case['src'], t[6]) or t[4] != '(<stdin>:%d:%d)' % (t[6][1], model.width(case['src'].encode()[t[6][2] - t[6][3]:t[6][2]].decode()) + 1)):
                raise Bad('%s\na token at %s is shown as %s and viewed as %s' % (short(case), t[6], t[4], short(t[3])), 'view')
        ids = {}
        for t in plain:
            if isinstance(t, list) and ids.setdefault(t[5], t[6]) != t[6]:
                raise Bad('%s\n%s and %s have the same identifier' % (short(case), ids[t[5]], t[6]), 'uuid')
        # `plain` ends before the end where there is an error.
        used = Counter()
        for i, (m, end, ans) in enumerate(got['walk']):
            left = plain[at:]
            bad = lambda e: Bad('%s\nmove %d (%s) after %d tokens: %s\nexpected %s' % (short(case), i, m, at, short([end, ans]), short(e)), 'walk ' + ('restore' if m.isdigit() else m))
            if at < len(plain) or not plain or isinstance(plain[-1], list):
                if end != (not left):
                    raise bad('end: %s' % (not left))
            used[m] += 1
            e = None
            if m.isdigit():
                e = left[:int(m)]
            elif m in 'cp' and left:
                e = left[0]
            if ans != e:
                raise bad(e)
            if m == 'c' and left:
                if not isinstance(left[0], list):
                    break
                at += 1
        return ['walk'] + sorted(used) + (['long'] if at > 1 else [])

    def at_site(self, src, site):
        return src.encode()[site[2]:site[2] + site[4]].decode()

    def expanded(self, case, f):
        got = self.answer(case, [('op', 'nodes'), ('src', case['src'])])
        t = self.answer(case, [('op', 'tree'), ('src', case['src']), ('expand', '1')])
        want = norm(t.get('tree', t))
        if 'nodes' not in got:
            if norm(got) != want:
                raise Bad('%s\nparsed: %s\nat once: %s' % (short(case), short(got), short(want)), 'nodes parse')
            return ['nodes', 'not a document']
        if got['source'] != '(other text)':
            raise Bad('%s\nsource %s' % (short(case), short(got['source'])), 'source')
        for how in ('nodes', 'each'):
            if norm(got[how]) != want:
                raise Bad('%s\nexpanded (%s): %s\nat once: %s' % (short(case), how, short(norm(got[how])), short(want)), how)
        return ['nodes', 'ok' if 'tree' in t else 'error', 'long' if len(case['src']) > 3 else 'short']

    def stream(self, case, f):
        got = self.answer(case, f)
        bad = None
        try:
            (case['src'].encode('utf-8') + bytes(case.get('tail') or [])).decode('utf-8')
        except UnicodeDecodeError:
            bad = 'not UTF-8'
        if case.get('fail'):
            bad = 'reader fails'
        if bad:
            if 'ioerr' not in got:
                raise Bad('%s\n%s, but: %s' % (short(case), bad, short(got)), bad)
            return ['stream', bad, 'long']
        if 'ioerr' in got:
            raise Bad('%s\n%s' % (short(case), got['ioerr']), 'ioerr')
        src = case['src'] + bytes(case.get('tail') or []).decode('utf-8')
        t = self.answer(case, [('op', 'tree'), ('src', src), ('expand', '1')])
        same = t.get('tree') == got.get('tree') and norm(t.get('err')) == norm(got.get('err'))
        if 'tree' in t and 'tree' in got:
            same = norm(t['tree']) == norm(got['tree'])
        if not same:
            raise Bad('%s\nfrom a stream: %s\nfrom a string: %s' % (short(case), short(got), short(t.get('tree') or t)), 'stream')
        return ['stream', 'interrupted' if case.get('interrupt') else 'plain', 'long' if len(src) > 3 else 'short']

    def nontrivial(self, case, feats):
        return 'long' in feats

    def extra_evidence(self):
        return {'nodes_compared': getattr(self, 'nodes', 0), 'equal_pairs': getattr(self, 'pairs', 0)}


def facts_without_display(j):
    global shown
    keep, shown = shown, lambda j: None
    try:
        return facts(j)
    finally:
        shown = keep


# ------------------------------------------------------------------ C26

class Refused(Exception):
    def __init__(self, why, node=None):
        self.why, self.node = why, node


def parse_type(s):
    """-> (word, [preds] or [types]), rest"""
    m = re.match('[a-z]+', s)
    word, s = m.group(0), s[m.end():]
    if word == 'list':
        types = []
        if s.startswith('('):
            s = s[1:]
            while True:
                t, s = parse_type(s)
                types.append(t)
                c, s = s[0], s[1:]
                if c == ')':
                    break
        return ('list', types), s
    preds = []
    while s.startswith('|'):
        m = re.match(r'\|([^|,)]*)', s)
        preds.append(m.group(1))
        s = s[m.end():]
    return (word, preds), s


KINDS = {'literal': 'ynsr', 'string': 'sr', 'symbol': 'y', 'number': 'n', 'symbolic': 'yn', 'any': 'ynsrla'}


def holds(pred, j):
    how, v = pred[0], pred[1:]
    text = j[1] if j[0] in 'ynsr' else None
    if how == '=':
        return text is not None and text == v
    if how == '~':
        return text is not None and re.search(v, text) is not None
    if v == 'even':
        return text is not None and len(text) % 2 == 0
    size = len(j[3]) if j[0] == 'l' else len(j[1].encode('utf-8'))
    return size < 3


def accept(typ, j):
    word, inner = typ
    if word == 'list':
        if j[0] != 'l':
            raise Refused('kind', j)
        if inner:
            if len(inner) != len(j[3]):
                raise Refused('length', j)
            for t, n in zip(inner, j[3]):
                accept(t, n)
        return
    if j[0] not in KINDS[word]:
        raise Refused('kind', j)
    if inner and not any(holds(p, j) for p in inner):
        raise Refused('predicate', j)


def arrange(rules, call):
    """The arguments of a call by the rules -> positional, named, rest"""
    parsed, rest_type = [], None
    for how, place, typ in rules:
        t, left = parse_type(typ)
        assert not left, typ
        if how == 'rest':
            rest_type = t
        else:
            m = re.fullmatch(r'(\d+)-(\d+)', place)
            parsed.append((how, set(range(int(m[1]), int(m[2]) + 1)) if m else set(place.split(',')), t))
    pos, named, rest, i = {}, {}, [], 0
    params = call[3][1:]
    for p in params:
        if p[0] == 'a':
            key, node = p[1], p[3]
        else:
            i += 1
            key, node = i, p
        rule = next((x for x in parsed if key in x[1]), None)
        if rule:
            accept(rule[2], node)
            (pos if p[0] != 'a' else named)[key] = node
        elif rest_type:
            accept(rest_type, p)
            rest.append(p)
        else:
            raise Refused('unexpected', p)
    for how, keys, t in parsed:
        for k in keys:
            if how == 'm' and k not in pos and k not in named:
                raise Refused('missing')
    return pos, named, rest


# What src/library.rs of the observer declares, in the notation of the dynamic rules.
DECLARED = {
    0: ['m 1-1 number', 'm 2-2 symbol'],
    1: ['m 1-3 literal', 'o k any'],
    2: ['m 1-1 list', 'o 2-2 list', 'rest - any'],
    3: ['m 1-1 symbolic', 'm 3-3 symbolic', 'm 2-2 string', 'o 4-5 any'],
    4: ['m a,b number', 'o c literal|=x|=y z', 'rest - number'],
    5: ['m 1-1 list(symbol,number,any)', 'rest - list'],
    6: ['o 1-1 string|=s|=t', 'o 2-2 symbol|=in|=on', 'o type symbolic|=1|=a', 'o fn number|=1|=2'],
    7: ['rest - symbolic'],
    8: ['m only list', 'm 1-1 any', 'm 2-2 any|=q'],
    9: ['m 1-1 literal|?even|=odd', 'o m string|~^[a-c]+$', 'rest - string'],
    10: ['m 1-1 number|?even', 'o 2-2 any|?short', 'rest - literal'],
}
SHAPE = {0: (2, []), 1: (3, ['k']), 2: (2, []), 3: (5, []), 4: (0, ['a', 'b', 'c']), 5: (1, []), 6: (2, ['type', 'fn']), 7: (0, []), 8: (2, ['only']), 9: (1, ['m']), 10: (2, [])}


class C26(LibraryCheck):
    id = 'C26'
    technique = 'runtime monitoring: the arguments delivered (or refused, and where) by rules made at run time and by `arguments!` declarations, compared with a reference reading of the rules'
    rule = 'random rules (positions, ranges, names, all kinds, exact, matching and computed conditions, list shapes, trailing) and eleven declarations against fitting, nearly fitting and misfitting calls; non-trivial: a call with an argument'
    assumptions = ('declarations are compiled, so their number is fixed: eleven, chosen to use every form of the notation',)

    def corpus(self):
        out = [{'compiles': k} for k in range(drv.DECLARATIONS)]
        args = ['', '1', 'a', '"s"', '(%raw "r")', '()', '(a)', ':k 1', ':a 1', '1 a', '1 2', 'a 1', '"s" a', '1 a 2', '1 "s" 2', '1 "s" 2 3', '1 "s" 2 3 (4)', '1 "s" 2 3 4 5', '(a) (b)', '(a) (b) (c)', '(a) b', '(a) :b (c)', '() ()', ':a 1 :b 2', ':b 2 :a 1', ':a 1', ':a 1 :a 2', ':a x :b 2',
                ':a 1 :b 2 :c x', ':a 1 :b 2 :c "y z"', ':a 1 :b 2 :c z', ':a 1 :b 2 3 4', ':a 1 3 :b 2 4', ':a 1 :b 2 (3)', '(a 1 2)', '(a 1 (b))', '(a 1)', '(a 1 2 3)', '(1 a 2)', '(a "1" 2)', '(a 1 :k v)', '(a 1 2) (b) ()', '(a 1 2) b', '(:k v 1 2)', '"s" in', '"t" on :type 1', '"u"', '"s" at', 's in',
                ':type a', ':type "a"', ':type 2', ':fn 1', ':fn 2 "s"', ':fn 3', ':fn "1"', 'a 1 b 2', 'a "b"', 'a :b c', 'x q :only ()', 'x q :only (1)', ':only () x q', 'x :only () q', 'x y :only ()', 'x (q) :only ()', 'x q', ':only x', 'ab', 'odd', 'abc', 'ab "c"', 'ab :m "abc"', 'ab :m "abd"', 'ab :m abc', 'ab "c" :m "a" "d"',
                '12', '123', '12 (a)', '12 (a b c)', '12 abc', '12 ab c "d"', '12 ab (c)', '12 :ab c', '"12"', ':zz 1', '1 2 3', '1 2 3 4', '1 2 3 :k (a :b c)', '1 :k x 2 3', '1 2 3 :k x :k y', '1 2 (3)', '1 2 :l 3']
        for w in ('literal', 'string', 'symbol', 'number', 'symbolic', 'any'):
            for p in ('', '|~', '|~^', '|~a*', '|~^$', '|~.', '|=', '|=a', '|?even', '|?short', '|=a|~', '|~b|=', '|~b|?even'):
                for k in ('()', '(a)', '((a))', ':j a', 'a', '""', '"a"', '1', '12', '(%raw "")', '(%raw "b")'):
                    out.append({'rules': ['m 1-1 ' + w + p], 'src': '(f %s)' % k})
                    out.append({'rules': ['m k ' + w + p], 'src': '(f :k %s)' % k})
                    out.append({'rules': ['m 1-1 list(%s)' % (w + p)], 'src': '(f (%s))' % k})
                    out.append({'rules': ['rest - ' + w + p], 'src': '(f %s)' % k})
        return out + [{'set': k, 'src': '(f %s)' % a} for k in DECLARED for a in args]

    def atom(self, r):
        return r.choice(['1', '2', '12', '-3', '1.5', 'a', 'b', 'in', 'on', 'x', 'abc', 'abcd', 'A', 'é', 'q', '"s"', '"t"', '"y z"', '"x"', '"ab"', '"abc"', '""', '"1"', '(%raw "s")', '(%raw "q")', '(%raw "ab")', '"é"', 'odd'])

    def node(self, r, d=2):
        if d > 0 and r.p(0.25):
            return '(%s)' % ' '.join(self.node(r, d - 1) if r.p(0.8) else ':%s %s' % (r.choice('abk'), self.node(r, d - 1)) for _ in range(r.choice([0, 1, 1, 2, 3])))
        return self.atom(r)

    def fit(self, r, typ, d=2):
        """A source text for the type."""
        word, inner = typ
        if word == 'list':
            if inner:
                return '(%s)' % ' '.join(self.fit(r, t, d - 1) for t in inner)
            return '(%s)' % ' '.join(self.node(r, 1) for _ in range(r.randint(0, 3)))
        if inner and r.p(0.8):
            p = r.choice(inner)
            v = p[1:] if p[0] == '=' else r.choice(['ab', 'abc', 'b', 'a']) if p[0] == '~' else r.choice(['12', 'ab', 'abcd', '1', 'é'])
            if r.p(0.15):
                v = r.choice([v.upper(), v + ' ', v + 'x', v[:-1], ' ' + v])
            num = re.fullmatch(r'[+-]?\d+', v)
            if word == 'number':
                return v if num else '12'
            if word in ('symbol', 'symbolic') or (word in ('literal', 'any') and r.p(0.5)):
                if re.fullmatch('[a-zé]+', v) or (num and word != 'symbol'):
                    return v
            return r.choice(['"%s"', '(%%raw "%s")']) % v if word in ('string', 'literal', 'any') else 'a'
        kinds = {'literal': ['1', 'a', '"s"', '(%raw "q")'], 'string': ['"s"', '"abc"', '(%raw "ab")'], 'symbol': ['a', 'in', 'abcd'], 'number': ['1', '12', '-3', '1.5'],
                 'symbolic': ['a', '1', 'q', '12']}
        return self.node(r) if word == 'any' else r.choice(kinds[word])

    def type_src(self, r, d=2):
        w = r.choice(['literal', 'string', 'symbol', 'number', 'symbolic', 'list', 'any'])
        if w == 'list':
            return 'list' if r.p(0.4) or d <= 0 else 'list(%s)' % ','.join(self.type_src(r, d - 1) for _ in range(r.choice([1, 1, 2, 3])))
        if r.p(0.6):
            return w
        return w + ''.join('|' + r.choice(['=a', '=1', '=12', '=s', '=y z', '=q', '=in', '=é', '=', '~^a', '~b$', '~^[a-c]+$', '~1', '?even', '?short']) for _ in range(r.choice([1, 1, 2, 3])))

    def gen(self, r):
        if r.p(0.4):
            k = r.randrange(drv.DECLARATIONS)
            while k in drv.REFUSED:
                k = r.randrange(drv.DECLARATIONS)
            case, rules = {'set': k}, DECLARED[k]
        else:
            rules, at, names = [], 1, ['k', 'key', 'a', 'b', 'type', 'Key', 'é', 'k-2', 'x']
            r.shuffle(names)
            for _ in range(r.choice([0, 1, 2, 2, 3, 4, 6])):
                how = r.choice('mmo')
                if r.p(0.6):
                    n = r.choice([1, 1, 1, 2, 3])
                    rules.append('%s %d-%d %s' % (how, at, at + n - 1, self.type_src(r)))
                    at += n
                elif names:
                    take, names = names[:r.choice([1, 1, 2])], names[2:]
                    rules.append('%s %s %s' % (how, ','.join(take), self.type_src(r)))
            r.shuffle(rules)
            if r.p(0.4):
                rules.append('rest - ' + self.type_src(r))
            case = {'rules': rules}
        case['src'] = '(%s)' % ' '.join(['f'] + self.call(r, rules))
        return case

    def call(self, r, rules):
        pos, named, rest = {}, [], None
        for rule in rules:
            how, place, typ = rule.split(' ', 2)
            t = parse_type(typ)[0]
            if how == 'rest':
                rest = t
                continue
            if how == 'o' and r.p(0.4):
                continue
            m = re.fullmatch(r'(\d+)-(\d+)', place)
            for k in range(int(m[1]), int(m[2]) + 1) if m else place.split(','):
                v = self.fit(r, t) if not r.p(0.05) else self.node(r)
                if m:
                    pos.setdefault(k, v)
                elif not r.p(0.04):
                    named.append(':%s %s' % (k, v))
                    if r.p(0.04):
                        named.append(':%s %s' % (k, self.fit(r, t)))
        out = [pos[k] for k in sorted(pos)]
        if rest:
            out += [self.fit(r, rest) if not r.p(0.05) else self.node(r) for _ in range(r.choice([0, 1, 2, 3, 4, 6, 9, 14, 40, 130]))]
        if r.p(0.08):
            x = r.random()
            if x < 0.4 and out:
                out.pop(r.randrange(len(out)))
            elif x < 0.7:
                out.insert(r.randint(0, len(out)), self.node(r))
            else:
                named.append(':%s %s' % (r.choice(['zz', 'k', 'a', 'K', 'key2', 'ty']), self.node(r)))
        r.shuffle(named)
        for n in named:
            out.insert(r.randint(0, len(out)), n)
        return out

    def judge(self, case):
        if 'compiles' in case:
            if case['compiles'] in drv.REFUSED:
                raise Bad('declaration %d of the observer does not compile:\n%s' % (case['compiles'], drv.REFUSED[case['compiles']]), 'declaration')
            return ['declaration compiled']
        static = 'set' in case
        if static and case['set'] in drv.REFUSED:
            raise Skip('not compiled')
        rules = DECLARED[case['set']] if static else case['rules']
        t = self.answer(case, [('op', 'tree'), ('src', case['src']), ('expand', '1')])
        if 'tree' not in t or not t['tree'] or t['tree'][0][0] != 'l' or not t['tree'][0][3]:
            raise Skip('no call')
        call = t['tree'][0]
        if static:
            got = self.answer(case, [('op', 'declared'), ('set', str(case['set'])), ('src', case['src'])])
        else:
            got = self.answer(case, [('op', 'rules'), ('src', case['src'])] + [('rule', x) for x in rules])
        try:
            exp = arrange([x.split(' ', 2) for x in rules], call)
        except Refused as e:
            if 'err' not in got:
                raise Bad('%s\n%s\nshould be refused (%s), but: %s' % (case['src'], rules, e.why, short(got)), 'accepted ' + e.why)
            # Where the call is wrong, that place is named.
            if e.node is not None and got['err'][1] != site(e.node):
                raise Bad('%s\n%s\n%s: wrong at %s, but reported at %s' % (case['src'], rules, e.why, site(e.node), got['err']), 'place of ' + e.why)
            if e.why == 'unexpected' and e.node[0] == 'a' and ':' + e.node[1] not in got['err'][0]:
                raise Bad('%s\n%s\nthe message does not name `:%s`: %s' % (case['src'], rules, e.node[1], got['err'][0]), 'message')
            return ['refused: ' + e.why, 'declared' if static else 'made'] + self.size(call)
        if 'err' in got:
            raise Bad('%s\n%s\nrefused: %s' % (case['src'], rules, short(got['err'])), 'refused')
        pos, named, rest = exp
        if static:
            n, names = SHAPE[case['set']]
            e = {'pos': [self.form(rules, pos.get(i), i) for i in range(1, n + 1)], 'named': {k: self.form(rules, named.get(k), k) for k in names},
                 'rest': [self.form(rules, x, None) for x in rest] if any(x.startswith('rest') for x in rules) else None}
            g = {'pos': got['pos'], 'named': {k.replace('r#', ''): v for k, v in got['named'].items()}, 'rest': got['rest']}
        else:
            e = {'pos': [[k, bare(pos[k])] for k in sorted(pos)], 'named': [[k, bare(named[k])] for k in sorted(named, key=lambda s: s.encode())], 'rest': [bare(x) for x in rest]}
            g = {'pos': [[k, bare(v)] for k, v in got['pos']], 'named': [[k, bare(v)] for k, v in got['named']], 'rest': [bare(x) for x in got['rest']]}
        if e != g:
            raise Bad('%s\n%s\nexpected %s\ngot %s' % (case['src'], rules, short(e), short(g)), 'delivered')
        return ['accepted', 'declared' if static else 'made'] + ['trailing'] * bool(rest) + ['named'] * bool(named) + self.size(call)

    def form(self, rules, j, key):
        """As the declared structure holds it."""
        if j is None:
            return None
        for x in rules:
            how, place, typ = x.split(' ', 2)
            m = re.fullmatch(r'(\d+)-(\d+)', place)
            if (how == 'rest') if key is None else how != 'rest' and (key in range(int(m[1]), int(m[2]) + 1) if m else key in place.split(',')):
                word = parse_type(typ)[0][0]
                if word == 'any':
                    return j
                if word == 'list':
                    return {'list': j[3]}
                return {'node': j[1], 'site': j[3]}

    def size(self, call):
        return ['long'] if len(call[3]) > 1 else []

    def nontrivial(self, case, feats):
        return 'long' in feats

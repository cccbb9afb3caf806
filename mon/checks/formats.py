"""C06 HTML, C07 special HTML elements, C08 documents, C09 XML, C10 CSS."""
from .base import *
from gen import TAGS, VOID, SPECIAL, CASES, MARKUP, WEIRD_CHARS
from html.parser import HTMLParser
import xml.parsers.expat

CSS_PROPS = ['color', 'margin', 'Color', '--Main-Size', '-webkit-X', 'font-family', 'background', 'width', 'transform', 'border', '--x', 'content', 'grid-template', 'transition']
CSS_SEL = ['p', '.a', '#id', 'a:hover', '*', 'ul', '>', 'li', '+', ',', 'h1,', '::before', '[type=x]', 'div.b', '"a > b"', 'to', 'from', '50%', '@x', '~']
CSS_VALS = ['red', '10px', '#fff', '1.5em', 'auto', '"Open Sans"', '"a b"', '0', 'none', '"x"', '!important', '-1', '100%', '"a\\nb"', '"q\\"uote d"', '""', '" "', 'é', '"\\t"', 'a\\ b',
            '(%raw "a b")', '"url(x)"', ',', '/']


class Markup:
    def __init__(self, r, weird=0.12, special=0.05, bad=0.0, macros=0.05, xmlish=False):
        self.r, self.T = r, Texts(r, weird)
        self.special, self.bad, self.macros, self.xmlish = special, bad, macros, xmlish
        self.left = r.choice([8, 20, 50, 100])

    def lst(self, items):
        return wrap(self.r, self.T, items)

    def case(self, t):
        return self.r.choice(CASES)(t) if self.r.p(0.15) else t

    def tag(self):
        r = self.r
        d = gen.dictionary()
        if d.fresh and r.p(0.15):
            f = r.choice(d.fresh)
            if re.fullmatch(r'[A-Za-z!?@][A-Za-z0-9:_-]*', f):
                return f
        x = r.random()
        if x < 0.8:
            return self.case(r.choice(TAGS))
        if x < 0.9:
            return r.choice(['x:y', 'ns:a', 'a-b', 'h2', 'custom-element', 'A', 'P', 'styles', 'pres', 'brr', 'image', 'scripts', 'titles', 'xmp', 'noscript', 'iframe', 'option', 'svga'])
        if x < 0.93:
            return name_src(r, self.T.word())
        if x < 0.97:
            # almost a name that means something
            s = r.choice(SPECIAL + VOID + ['html', 'head', 'body', 'doctype', 'xml'])
            return self.case(r.choice(['x:' + s, 'x-' + s, 'x' + s, s + ':x', s + '-x', s + 's', s[:-1], s + '1', '_' + s, s + '.']))
        return r.choice(['é', 'a.b', '_x', 'p1', 'a_b'])

    def text(self):
        r = self.r
        x = r.random()
        if x < 0.4:
            return name_src(r, self.T.name())
        if x < 0.5:
            return self.T.number()
        return str_src(r, self.T.text(True))

    def attr_value(self):
        r = self.r
        x = r.random()
        if self.bad and r.p(self.bad):
            return r.choice(['(a)', '()', ':k v', '(%list)'])
        if x < 0.2:
            return '(%%raw %s)' % str_src(r, self.T.word())
        if x < 0.3:
            return '(%%concat %s %s)' % (str_src(r, self.T.word()), str_src(r, self.T.text()))
        return self.text()

    def attrs(self):
        r = self.r
        return [self.T.kw_src() + (self.T.sp() if r.p(0.9) else ' ') + self.attr_value() for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3, r.size()]))]

    def children(self, depth):
        r = self.r
        n = r.size(True) if r.p(0.3) else r.choice([0, 1, 1, 2, 3, 4])
        out = []
        for _ in range(n):
            x = r.random()
            if x < 0.5 or depth <= 0 or self.left <= 0:
                out.append(self.text())
            elif x < 0.58:
                out.append('(%%raw %s)' % ' '.join(str_src(r, self.T.text()) for _ in range(r.choice([0, 1, 1, 2]))) if not self.xmlish or r.p(self.bad) else self.text())
            elif x < 0.58 + self.macros:
                out.append(r.choice(['(%for i in (1 2 3) (li %i))', '(%do a  b (i c))', '(%string "a <" b)', '(%splat ((i x) "y"))', '(%strip z)', '(%ifdef nope a b)', '(%define zz 1)', '(%map list i b)']))
            else:
                out.append(self.element(depth - 1))
        if self.bad and r.p(self.bad):
            out.insert(r.randint(0, len(out)), r.choice([':stray v', '()', '(1 a)', '("s")', '((a))', '(:k v)', '(%list)', '(%raw "<r>")', '(%raw "a&b")']))
        return out

    def decl(self):
        r = self.r
        if self.xmlish:
            k = r.choice(['?xml-stylesheet', '?php', '!ELEMENT', '!ENTITY', '?x', '!DOCTYPE'])
            items = [r.choice([':href ' + self.text(), 'a', '1', ':type "text/css"', 'b-c'] + (['"str"', '(l)', '""', '(%raw "r")', '(%list)', str_src(r, self.T.text())] if self.bad and r.p(self.bad * 3) else [])) for _ in range(r.randint(0, 4))]
        else:
            k = r.choice(['!doctype', '!DOCTYPE', '!x'])
            items = [r.choice(['html', 'a', '1', 'PUBLIC', self.T.number(), name_src(r, self.T.name()), '\\"about:x\\"', 'a\\ b'] + (['"str"', '(l)', ':k v', '""', '(%raw "r")', '(%raw)', '(%list)', str_src(r, self.T.text())] if self.bad and r.p(self.bad * 3) else [])) for _ in range(r.randint(0, 4))]
        return self.lst([self.case(k)] + items)

    def element(self, depth):
        r = self.r
        self.left -= 1
        x = r.random()
        if x < 0.03:
            return self.decl()
        if not self.xmlish:
            if x < 0.12:
                kids = self.children(0) if self.bad and r.p(self.bad * 2) else []
                return self.lst([self.case(r.choice(VOID))] + self.attrs() + kids)
            if x < 0.12 + self.special:
                return self.special_element(depth)
        return self.lst([self.tag()] + self.attrs() + self.children(depth))

    def special_element(self, depth):
        r = self.r
        t = r.choice(SPECIAL)
        name = self.case(t)
        a = self.attrs()
        if t == 'style':
            x = r.random()
            if x < 0.3:
                body = [str_src(r, self.T.text())] + ([self.text()] if self.bad and r.p(self.bad) else [])
            elif x < 0.4:
                body = []
            else:
                body = Css(r, self.bad).rules()
        elif t == 'script':
            body = [gen.tree_src(r, self.T, 3) for _ in range(r.choice([0, 1, 2, 4]))]
        elif t in ('svg', 'math'):
            M = Markup(r, special=0, bad=self.bad, macros=self.macros, xmlish=True)
            M.left = 10
            body = M.children(2)
        elif t in ('title', 'textarea'):
            raw = r.choice([0.1, 0.1, 0.5, 1.0])
            body = ['(%%raw %s)' % str_src(r, self.T.word()) if r.p(raw) else self.text() if r.p(0.7) else gen.tree_src(r, self.T, 2) for _ in range(r.choice([0, 1, 2, 5]))]
        else:
            body = [gen.tree_src(r, self.T, 3) if r.p(0.5) else self.text() for _ in range(r.choice([0, 1, 2, 4]))]
            if r.p(0.15):
                body.insert(r.randint(0, len(body)), r.choice(['%zz', '(%do a b)', '(%string x)', '(%include "f")', '(%lambda x y)']))
            if r.p(0.5):
                # layout matters here
                s = '(' + name + ''.join(self.T.sp() + x for x in a)
                for i, b in enumerate(body):
                    s += r.choice([' ', '\n', '  ', '\n    ', ' ; c\n', '\t', '\n\n']) + b
                return s + r.choice(['', ' ', '\n', ' ; end\n ']) + ')'
        return self.lst([name] + a + body)

    def document(self):
        r = self.r
        return [self.element(r.randint(0, 5)) if r.p(0.85) else self.text() for _ in range(r.choice([0, 1, 1, 1, 2, 3, 4]))]

    def source(self):
        s = juxtapose(self.r, self.T, self.document(), 0.15)
        if self.r.p(0.2):
            s = self.T.sp() + s
        if self.r.p(0.3):
            s += '\n'
        return s


class Css:
    def __init__(self, r, bad=0.0):
        self.r, self.T, self.bad = r, Texts(r, 0.1), bad
        self.d = gen.dictionary()

    def lst(self, items):
        return wrap(self.r, self.T, items)

    def value(self, depth=3):
        r = self.r
        x = r.random()
        if x < 0.55 or depth <= 0:
            if self.d.fresh and r.p(0.1):
                return str_src(r, r.choice(self.d.fresh), False)
            y = r.random()
            return r.choice(CSS_VALS) if y < 0.7 else str_src(r, self.T.text()) if y < 0.85 else self.T.number()
        if self.bad and r.p(self.bad):
            return r.choice(['(a :k v)', '()', '(:k v)', '((a))'])
        n = r.choice([0, 1, 1, 2, 3, r.size()])
        kids = [self.value(depth - 1) for _ in range(n)]
        if x < 0.75:
            fresh = [f for f in self.d.fresh if re.fullmatch(r'[a-z][a-z0-9-]*', f)]
            pool = sorted(model.CSS_FUNCTIONS) + fresh * 5
            head = r.choice(pool + ['rgba', 'hsla', 'rgb', 'url', 'var', 'calc', 'supports'] * 4 + ['min', 'max', 'clamp', 'repeat', 'RGB'] * 2)
        elif x < 0.85:
            head = r.choice(['+', '-', '*', '/', '+ ', '%', '**', '>'])
        elif x < 0.95:
            head = r.choice(['solid', '1px', '"a b"', 'auto', '0'])
        else:
            head = self.lst([r.choice(['a', 'calc', '+'])] + [r.choice(CSS_VALS)])
        return self.lst([head.strip()] + kids)

    def decls(self, n=None):
        r = self.r
        n = r.choice([0, 1, 1, 2, 3, r.size()]) if n is None else n
        return [':%s%s%s' % (r.choice(CSS_PROPS), self.T.sp(), self.value()) for _ in range(n)]

    def rule(self, depth=2):
        r = self.r
        x = r.random()
        if self.bad and r.p(self.bad):
            return r.choice(['(p (x))', '((a))', '(:a b)', '(p :a b c)', '(p :a (b :c d))', '()', '(p :a :b c)', '(p :a b (c))', '(@media a (p :b c) d)', '(@page x y (z))', '(1 :a (:b c))'])
        if x < 0.7 or depth <= 0:
            sel = [r.choice(CSS_SEL) if r.p(0.8) else self.T.word() for _ in range(r.choice([1, 1, 2, 3, r.size() or 1]))]
            return self.lst(sel + self.decls())
        fresh = [f for f in self.d.fresh if f.startswith('@')]
        k = r.choice(sorted(model.CSS_AT) + fresh * 3)
        if r.p(0.05):
            k = r.choice(['@Media', '@container', '@layer', '"@media"', '@'])
        name = k.strip('"')
        if name in model.CSS_FLAT or name not in model.CSS_AT:
            return self.lst([k] + ([self.T.word()] if r.p(0.4) else []) + self.decls())
        args = [r.choice(['screen', 'and', '"a b"', 'url', 'x', '(url "x.css")', ':max-width 10px', ':min-width (calc 1px)', '"utf-8"', 'not']) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        if name in model.CSS_ONELINE:
            return self.lst([k] + args)
        args = [a for a in args if not a.startswith('(')]
        body = [self.rule(depth - 1) for _ in range(r.choice([0, 1, 1, 2, 3, r.size()]))]
        if self.bad and r.p(self.bad):
            body.insert(r.randint(0, len(body)), r.choice(['x', ':k v', '"s"']))
        return self.lst([k] + args + body)

    def rules(self):
        r = self.r
        n = r.choice([0, 1, 1, 2, 3, 4, r.size()])
        out = [self.rule() for _ in range(n)]
        if self.bad and r.p(self.bad):
            out.insert(r.randint(0, len(out)), r.choice(['x', ':k v', '"s"', '()', '(%raw "x")']))
        return out

    def source(self):
        s = juxtapose(self.r, self.T, self.rules(), 0.15)
        if self.r.p(0.2):
            s = self.T.sp() + s
        return s + ('\n' if self.r.p(0.3) else '')


class FormatCheck(ProgramCheck):
    specs = ()

    def judge(self, case):
        root = self.dir_for(case)
        got = self.ask(self.request(case, root, self.specs, sites=True))
        if 'tree' not in got:
            raise Skip('no tree: ' + kind_of(got))
        self.nodes = nodes = model.from_json(got['tree'], {'<stdin>': model.Src('<stdin>', self.source(case, root))})
        self.plain = got['tree']
        feats = []
        self.outs = {}
        for f in self.specs:
            try:
                e = ('ok', model.output(f, nodes))
            except SeamErr as x:
                e = ('err', x)
            except Unsure as u:
                feats.append('unsure: %s' % str(u)[:20])
                continue
            o = got['out'][f]
            k = kind_of(o)
            if k != e[0]:
                raise Bad('%s\nas %s: expected %s (%s), got %s' % (short(repr(case['src'])), f, e[0], short(e[1]) if e[0] == 'ok' else e[1].why, short(o)), '%s %s-for-%s' % (f, k, e[0]))
            if k == 'ok':
                if o['ok'] != e[1]:
                    raise Bad('%s\nas %s: %s' % (short(repr(case['src'])), f, first_diff(e[1], o['ok'])), f)
                self.outs[f] = e[1]
                feats.append(f + ' output')
                self.bytes = getattr(self, 'bytes', 0) + len(e[1])
            else:
                feats.append('%s error: %s' % (f.rstrip('!+='), e[1].why))
        return feats + self.more(case)

    def more(self, case):
        return []

    def extra_evidence(self):
        return {'output_characters_compared': getattr(self, 'bytes', 0)}


SAFE_NAME = re.compile(r'[A-Za-z][A-Za-z0-9-]*\Z')


class Events(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.ev = []

    def handle_starttag(self, tag, attrs):
        self.ev.append(('<', tag, [(k, v) for k, v in attrs]))

    def handle_startendtag(self, tag, attrs):
        self.ev.append(('</>', tag, attrs))

    def handle_endtag(self, tag):
        self.ev.append(('>', tag))

    def handle_data(self, d):
        if self.ev and self.ev[-1][0] == 't':
            self.ev[-1] = ('t', self.ev[-1][1] + d)
        else:
            self.ev.append(('t', d))

    def handle_comment(self, d):
        self.ev.append(('comment', d))

    def handle_decl(self, d):
        self.ev.append(('decl', d))

    def handle_pi(self, d):
        self.ev.append(('pi', d))


class NotComparable(Exception):
    pass


def tree_events(nodes, void=True):
    """What a parser should recover from the output of these nodes."""
    ev = []

    def text(s):
        if s:
            if ev and ev[-1][0] == 't':
                ev[-1] = ('t', ev[-1][1] + s)
            else:
                ev.append(('t', s))

    def walk(ns, depth=0):
        for n in ns:
            if n.k in 'yns':
                text(n.ws + n.v)
                continue
            if n.k == 'r':
                if re.search(r'[<&>]', n.v):
                    raise NotComparable()
                text(n.ws + n.v)
                continue
            if n.k == 'a':
                raise NotComparable()
            h = n.kids[0].v
            if not void and h[:1] == '?' and SAFE_NAME.match(h[1:]) and ':' not in h and h.lower() != '?xml':
                words = []
                for r in n.kids[1:]:
                    words += ['%s="%s"' % (r.v, model.attr_value(r.node))] if r.k == 'a' else [r.v]
                if any('?>' in w or XML_CHAR.search(w) for w in words):
                    raise NotComparable()
                text(n.ws)
                ev.append(('?', h[1:], ' '.join(words).split()))
                continue
            if not void and not depth and h == '!DOCTYPE' and len(n.kids) == 2 and n.kids[1].k == 'y' and SAFE_NAME.match(n.kids[1].v) and ':' not in n.kids[1].v:
                text(n.ws)
                ev.append(('!', n.kids[1].v))
                continue
            if not SAFE_NAME.match(h) or void and h.lower() in SPECIAL + ['iframe', 'noembed', 'noframes', 'xmp', 'plaintext', 'noscript', 'textarea', 'title', 'rcdata'] or not void and ':' in h:
                raise NotComparable()
            text(n.ws)
            rest = n.kids[1:]
            attrs = []
            while rest and rest[0].k == 'a':
                a = rest[0]
                if not SAFE_NAME.match(a.v) or a.node.k == 'r' and re.search(r'[<&"]', a.node.v):
                    raise NotComparable()
                attrs.append((a.v.lower() if void else a.v, a.node.v))
                rest = rest[1:]
            ev.append(('<', h.lower() if void else h, attrs))
            if void and h.lower() in VOID:
                continue
            nl = bool(rest) and '\n' in rest[0].ws
            if rest and not nl:
                rest = [rest[0].with_ws('')] + list(rest[1:])
            walk(rest, depth + 1)
            text(n.ews or (n.ws if nl or not void and h == 'style' else ''))
            ev.append(('>', h.lower() if void else h))
    walk(nodes)
    return ev


class C06(FormatCheck):
    id = 'C06'
    specs = ('html', 'html+')
    technique = 'runtime monitoring: HTML output of the real formatter compared with a reference generator and re-read by an independent HTML parser'
    rule = 'random element trees with hostile text, attributes, raw strings and malformed nodes; non-trivial: HTML was produced or rejected for at least one list'

    def corpus(self):
        out = ['', 'a', '"<b>&\'\\""', '(p)', '(p a)', '(p  a)', '(p\n a)', '(p\n a\n)', '(p a )', '(p a\n)', '(p "a"b)', '(br)', '(BR)', '(br x)', '(br :a b)', '(img :src a :alt "b c")', '(p :a b)', '(p :a b c)', '(p c :a b)',
               '(p :a "<&\\"\'>")', '(p :a (%raw "<&>"))', '(p (%raw "<&>"))', '(p :a (b))', '(p ())', '()', '(1)', '("p")', '((p))', '(:a b)', ':a b', '(!doctype html)', '(!doctype "html")', '(!D "")', '(!D a "")', '(!D (%raw))', '(!D (%raw "x"))', '(!D ())', '(!D "" a)', '(!d a :k "")', '(!D " ")', '(!x :a b)', '(!DOCTYPE a b 1)',
               '(p (b (i x) y) z)', '(p\n  (b x)\n  (i y))', '(P :CLASS X y)', '(p :a b :c d)', '(p :a b\n   :c d\n  x)', '(p :a "b"(i x))', '(x:y z)', '(p é 日)', '(%raw "<p>")', '(p (%raw ""))', '(p "")', '(p :a "")', '(p "" "")',
               '(p (%list))', '(a\\ b x)', '(col)(hr)(wbr)(Track :a b)', '(link "x")', '(p \\<)', '(p\n)', '(p \n)', '(p :a b\n)', '(p :a b )', '(div (p a)\n(p b))', '(div\n(p\na\n)\n)', '( p x)', '(\np x)', '(p\n\tx)', '(p \n x)', '(p x (br) y)']
        for v in sorted(model.VOID):
            for t in (v, v.upper(), v.title()):
                out += ['(%s %s)' % (t, k) for k in ('', '()', '(b)', 'x', '1', '""', '(%raw "")', '(%list)', '(%do)', ':k v', ':k v ()', ':k v x', '() :k v', '\n', '" "', ':k ()')]
        out += ['a' + w + '(%s x)' % t for t in ('p', 'br', 'svg', 'style', 'pre') for w in (' ' * 9, ' ' * 40, '\n' * 12, '\t' * 17, '\n' + ' ' * 33)]
        return [{'src': s} for s in out + gen.char_sources()]

    def gen(self, r):
        return {'src': Markup(r, special=0.02, bad=r.choice([0, 0, 0, 0.05])).source()}

    def more(self, case):
        feats = []
        out = self.outs.get('html')
        if out is not None and '\r' not in out and '\0' not in out:
            try:
                want = tree_events(self.nodes)
            except NotComparable:
                return feats
            p = Events()
            p.feed(out)
            p.close()
            if p.ev != want:
                raise Bad('%s\nhtml %s\nreads back as %s\nexpected %s' % (short(repr(case['src'])), short(out), short(p.ev), short(want)), 'reparse')
            feats.append('read back by an HTML parser')
            if any(e[0] == '<' for e in want):
                feats.append('elements read back')
        return feats

    def nontrivial(self, case, feats):
        return '(' in case['src']


class C07(FormatCheck):
    id = 'C07'
    specs = ('html', 'html+')
    technique = 'runtime monitoring: HTML output for style, script, svg, math, title, textarea and pre compared with a reference generator'
    rule = 'elements with special content in every letter case, with attributes, layouts, macros and malformed content; non-trivial: at least one special element'

    def corpus(self):
        out = []
        for t in SPECIAL:
            for c in CASES:
                for body in ['', ' x', ' "x"', ' "a < b" "c"', '\n  x', ' (p :a b)', ' (p :a b)\n (q :c d)', '\n(p :a b)\n', ' :k v x', ' :k v\n (p "x<")', ' (a (b "c & d") e)', ' ()', ' (1 2)', ' (%raw "<&>")', ' :k (x) y',
                             '  a  b ', ' x ; c\n y', ' "s" x', ' x (br) y', ' (%do a b)', ' (%string "q" r)', ' é"日"', '\n\n  a\n   b\n', ' a)(p b', ' "\\n"', ' (path :d "M 0 0") "t"', ' (%lambda x y)', '\t x', '\n x', '\r\n x']:
                    out.append({'src': '(%s%s)' % (c(t), body)})
                    if c is str.lower:
                        out.append({'src': '(div a\n  (%s%s) b)' % (t, body)})
                        out.append({'src': '(%%define m x y) (%%define (f a) (%s %%a %%m%s)) (%%f 1)' % (t, body)})
            for w in (' ' * 8, ' ' * 9, ' ' * 40, '\n' * 12, '\t' * 17, '\n' + ' ' * 33):
                for body in ('', ' x', '%s(p :a "b<"%s(q))' % (w, w), w + '(br)' + w, w + '"x"' + w):
                    if body.strip() != '(br)' or t != 'style':
                        out.append({'src': '(div%s(%s%s)%s)' % (w, t, body, w)})
                        out.append({'src': w + '(%s%s)' % (t, body)})
        return out + [{'src': s} for s in gen.char_sources(('(title "%s" %s)', '(textarea (%%raw "%s"))', '(script "%s" :k %s)', '(pre "%s" %s)', '(style "%s")', '(svg (a :k "%s" "%s"))'))]

    def gen(self, r):
        M = Markup(r, special=0.6, bad=r.choice([0, 0, 0, 0.08]), macros=0.08)
        M.left = 12
        if r.p(0.5):
            parts = [M.special_element(2) for _ in range(r.randint(1, 3))]
            return {'src': juxtapose(r, M.T, parts, 0.15)}
        return {'src': M.source()}

    def more(self, case):
        names = set()

        def walk(ns):
            for n in ns:
                if n.k == 'l':
                    if n.kids and n.kids[0].k == 'y' and n.kids[0].v.lower() in SPECIAL:
                        names.add(n.kids[0].v.lower())
                    walk(n.kids)
        walk(self.nodes)
        return sorted('<%s>' % n for n in names)

    def nontrivial(self, case, feats):
        return any(f.startswith('<') for f in feats)


class C08(FormatCheck):
    id = 'C08'
    specs = ('html!', 'html', 'html=', 'xml!', 'xml', 'css!', 'css', 'text!', 'text', 'sexp!', 'sexp')
    technique = 'runtime monitoring: document output of every format compared with the plain output and a reference completion'
    rule = 'trees with and without doctype, html, head, body and XML declarations at several depths and letter cases; non-trivial: any tree'

    def corpus(self):
        pieces = ['', 'x', '(!doctype html)', '(!DOCTYPE html)', '(html)', '(HTML)', '(html (head) (body))', '(head)', '(HEAD (title t))', '(body x)', '(Body)', '(div (head))', '(div (body))', '(div (div (head)))', '(html (body x))',
                  '(?xml :version 1.0)', '(?XML :version 1.0)', '(x (?xml))', '("html")', '("head" x)', '(head (body))', ':k (head)', '(p html)', '(div (html))', '(div (!doctype))', '(1)', '"html"', 'html', '(%raw "<html>")', '(p a)', '(header x)',
                  '(xhtml)', '(p\n b)', '\n', '""', '" "', '1', '(%list)', '(%do)', '; c\n', '(section (p (body)))', '(HtMl)', '(hEAD)', '(bODY)', '(doctype)', '(?xml-stylesheet)', '(div head)', '(div body)', '(p (a) (body y) (b))', '(script a :x (body y))', '(script a :x (head))', '(script (a :x (b (body))))']
        return [{'src': a} for a in pieces] + [{'src': a + ' ' + b} for a in pieces for b in pieces] + [{'src': a + '\n' + b + '\n' + c} for a in pieces[:12] for b in pieces[2:14] for c in pieces[:12:2]]

    def gen(self, r):
        M = Markup(r, special=0.03, macros=0.03, weird=0.05)
        M.left = 10
        names = ['html', 'head', 'body', '!doctype', '?xml', 'p', 'div', 'header', 'title']
        d = gen.dictionary()
        names += [f for f in d.fresh if re.fullmatch(r'[!?]?[A-Za-z][A-Za-z-]*', f)]

        def node(depth):
            n = r.choice(names)
            n = r.choice(CASES)(n) if r.p(0.3) else n
            kids = [node(depth - 1) if r.p(0.6) and depth > 0 else M.text() for _ in range(r.choice([0, 1, 1, 2, 3]))]
            if n[0] in '!?':
                kids = [r.choice(['html', 'a', '1']) for _ in range(r.randint(0, 2))] if n[0] == '!' else [':version "1.0"'] * r.randint(0, 1)
            a = M.attrs() if r.p(0.3) and n[0] not in '!?' else []
            if r.p(0.05):
                a = [':k ' + node(depth - 1) if depth > 0 else ':k v']
            if r.p(0.1) and depth > 0 and n[0] not in '!?':
                # attributes after the content, which only verbatim elements may have
                kids.insert(r.randint(0, len(kids)), ':k ' + node(depth - 1))
                n = r.choice(['script', 'style', 'script', 'SCRIPT', 'textarea', n])
            return wrap(r, M.T, [n] + a + kids)
        parts = [node(r.randint(0, 3)) if r.p(0.8) else r.choice([M.text(), '(%raw "<html>")', '("html" x)', M.element(1)]) for _ in range(r.choice([0, 1, 1, 2, 3, 4, r.size()]))]
        s = juxtapose(r, M.T, parts)
        if r.p(0.2):
            s = M.T.sp() + s
        if r.p(0.15):
            s = Css(r).source()
        return {'src': s}

    def more(self, case):
        # The content of a document is the plain output, unchanged.
        feats = []
        h, d = self.outs.get('html'), self.outs.get('html!')
        if h is not None and d is not None:
            kinds = ['doctype added' if d.startswith('<!DOCTYPE html>\n') and not h.startswith('<!DOCTYPE') else 'no doctype added',
                     'wrapped' if '<!DOCTYPE html>\n<html>\n' in d and '<html>' not in h else 'not wrapped']
            feats += kinds
        for a, b in (('text', 'text!'), ('sexp', 'sexp!')):
            if a in self.outs and self.outs[a] != self.outs.get(b):
                raise Bad('%s: document mode changes %s' % (short(repr(case['src'])), a), a)
        return feats

    def nontrivial(self, case, feats):
        return bool(case['src'].strip())


XML_CHAR = re.compile('[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')


class C09(FormatCheck):
    id = 'C09'
    specs = ('xml', 'xml+', 'xml!')
    technique = 'runtime monitoring: XML output compared with a reference generator and re-read by expat (well-formedness and content)'
    rule = 'random element trees with hostile text, processing instructions, declarations and malformed nodes; non-trivial: at least one element'

    def corpus(self):
        out = ['', 'a', '"<b>&\'\\""', '(p)', '(p a)', '(p\n a)', '(p a )', '(a :b c)', '(a :b "<&\\"\'>" "]]>")', '(a b :c d)', '(a :b (c))', '(a :b (%raw "x"))', '(a (%raw "x"))', '(%raw "x")', '()', '(a ())', '(1)', '("a")', '((a))', '(:a b)',
               ':a b', '(?xml :version 1.0)', '(?XML :version "1.0") (a)', '(?XML)', '(?Xml) (a)', ' (?xml)', '(p) (?xml)', '(?xml-x) (a)', '(?xml) (?xml) (a)', '(%do (?xml) (a))', '(?xml (a))', '(?xml x)', '(xml)', '(?xml',
               '(?xml :version "1.0" :encoding x)', '(!DOCTYPE a)', '(!ENTITY a "b")', '(?pi a b 1)', '(?pi (x))', '(?pi "s")', '(!x :a b)', '(!x :a (b))', '(a (b (c d)))', '(br)', '(BR x)', '(style x)', '(script (a))',
               '"" (?xml :version 1)', 'a (?xml)', '"x" (?XML :version "1.0") (a)', '1 (?xml)', '(%raw "x") (?xml)', '(%list) (?xml)', '"" "" (?xml)', '"" (!DOCTYPE a) (a)', '"\\n" (?xml :version 1.0)', '(?xml) ""', '"" (p)',
               '(pre  a  b)', '(a\n  (b x)\n  (c y)\n)', '(a:b :c:d e)', '(a "" "")', '(a :b "")', '(!DOCTYPE)', '(?x)', '(a "x"b)', '(style "a<b")', '(a :x 1 :y 2 z)', '(style\n x)', '(p\n)', '(a :b c\n)', '(style x )', '(style)', '(a\n (style y))']
        return [{'src': s} for s in out + gen.char_sources()]

    def gen(self, r):
        M = Markup(r, special=0, bad=r.choice([0, 0, 0, 0.05]), xmlish=True)
        if r.p(0.5):
            return {'src': r.choice(['', '(?xml :version "1.0") ', '(!DOCTYPE note)', '(?xml :version "1.0")\n(!DOCTYPE note) ', '(?go a b :c "d")', '(?XML :version "1.0") ', '(?Xml) ', '(?xml-x :version "1.0") ', '(?xm) ', '(xml) ', '(!xml) ', '(p) (?xml :version "1.0") ',
                                      '(%do (?xml :version "1.0")) ', '(%define a (?xml)) ', '; c\n(?xml)\n', '(?xml)(?xml)']) + M.lst([M.tag()] + M.attrs() + M.children(4))}
        return {'src': M.source()}

    def events(self, nodes):
        ev = tree_events(nodes, void=False)
        out = []
        for e in ev:
            if e[0] == 't':
                t = e[1].replace('\r\n', '\n').replace('\r', '\n')
                if XML_CHAR.search(t):
                    raise NotComparable()
                out.append(('t', t))
            elif e[0] == '<':
                if len({k for k, _ in e[2]}) != len(e[2]):
                    raise NotComparable()
                at = []
                for k, v in e[2]:
                    if XML_CHAR.search(v):
                        raise NotComparable()
                    at.append((k, v.replace('\r\n', '\n').replace('\r', ' ').replace('\n', ' ').replace('\t', ' ')))
                out.append(('<', e[1], at))
            else:
                if e[0] == '?' and XML_CHAR.search(' '.join(e[2])):
                    raise NotComparable()
                out.append(e)
        return out

    def more(self, case):
        out = self.outs.get('xml')
        if out is None or not self.nodes or any(n.k != 'l' or not n.kids for n in self.nodes):
            return []
        heads = [n.kids[0].v for n in self.nodes]
        first = heads[0].lower() == '?xml'
        elements = [h for h in heads if h[:1] not in '!?']
        if len(elements) != 1 or heads.count('!DOCTYPE') > 1 or '!DOCTYPE' in heads[heads.index(elements[0]):]:
            return []
        if first and (heads[0] != '?xml' or self.nodes[0].ws or [(k.k, k.v, k.k == 'a' and k.node.v) for k in self.nodes[0].kids[1:]] != [('a', 'version', '1.0')]):
            return []
        try:
            want = self.events(self.nodes[first:])
        except NotComparable:
            return []
        # White space around the root is not reported.
        depth, inner = 0, []
        for e in want:
            depth += {'<': 1, '>': -1}.get(e[0], 0)
            if depth or e[0] != 't' or e[1].strip(' \t\r\n'):
                inner.append(e)
        want = inner
        ev = []
        p = xml.parsers.expat.ParserCreate()
        p.buffer_text = True
        p.ordered_attributes = True

        def data(d):
            if ev and ev[-1][0] == 't':
                ev[-1] = ('t', ev[-1][1] + d)
            else:
                ev.append(('t', d))
        p.StartElementHandler = lambda t, a: ev.append(('<', t, list(zip(a[::2], a[1::2]))))
        p.EndElementHandler = lambda t: ev.append(('>', t))
        p.CharacterDataHandler = data
        p.ProcessingInstructionHandler = lambda t, d: ev.append(('?', t, d.split()))
        p.StartDoctypeDeclHandler = lambda name, *_: ev.append(('!', name))
        text = out if 'xml!' not in self.outs else self.outs['xml!']
        try:
            p.Parse(text.encode('utf-8'), True)
        except xml.parsers.expat.ExpatError as e:
            raise Bad('%s\nxml %s\nis not well-formed: %s' % (short(repr(case['src'])), short(text), e), 'well-formed')
        if ev != want:
            raise Bad('%s\nxml %s\nreads back as %s\nexpected %s' % (short(repr(case['src'])), short(text), short(ev), short(want)), 'reparse')
        return ["read back by expat"] + ["expat saw %s" % {"!": "a declaration", "?": "an instruction"}[k] for k in "!?" if any(e[0] == k for e in ev)]

    def nontrivial(self, case, feats):
        return '(' in case['src']


class C10(FormatCheck):
    id = 'C10'
    specs = ('css', 'css+', 'css!')
    technique = 'runtime monitoring: CSS output of the real formatter compared with a reference translation'
    rule = 'random rules with selectors, values of every shape, and all at-rules, well-formed and malformed; non-trivial: at least one rule'

    def corpus(self):
        out = ['', 'a', ':a b', '"s"', '(%raw "x")', '()', '(p)', '(p q)', '(p :a b)', '(p q :a b :c d)', '(p :a b c)', '(p (x) :a b)', '((p) :a b)', '(:a b)', '(p :a (b c))', '(p :a (0 auto))', '(p :a (rgba 1 2 3 0.5))', '(p :a (hsla 1 2))',
               '(p :a (rgb 1 2 3))', '(p :a (calc (+ 1px 2px)))', '(p :a (- 1 2 3))', '(p :a (* 2))', '(p :a (/ 1 2))', '(p :a (+))', '(p :a (url "x y"))', '(p :a "x y")', '(p :a "x")', '(p :a (%raw "x y"))', '(p :a ())', '(p :a (()))', '(p :a ((a) b))',
               '(p :a (b :c d))', '(p :a :b c)', '(p :a (rgba))', '(p :a ("rgb" 1))', '("a b" :c d)', '(1 :a b)', '(p :a (%list solid 1px))', '(p :a (var --x))', '(p :a "tab\\there")', '(p :a "q\\"x y")', '(p\n :a b\n :c d)\n\n(q :e f)', '(p :a b)(q :c d)']
        for k in sorted(model.CSS_AT) + ['@x', '@Media']:
            out += ['(%s)' % k, '(%s a)' % k, '(%s "a b" c)' % k, '(%s :k v)' % k, '(%s a :k v b)' % k, '(%s (p :a b))' % k, '(%s x (p :a b) (q :c d))' % k, '(%s x :k v (p :a b)\n  (q :c d))' % k, '(%s x (p :a b) y)' % k, '(%s (p :a b) :k v)' % k,
                    '(%s (url "x") y)' % k, '(%s x (@media y (p :a b)))' % k, '(%s ())' % k, '(%s x ())' % k, '(%s :k (calc 1))' % k, '(%s :k (a :b c))' % k, '(p :a b) (%s x) (q :c d)' % k]
        for f in sorted(model.CSS_FUNCTIONS):
            out += ['(p :a (%s 1 2 3))' % f, '(p :a (%s))' % f, '(p :a (%s (%s x) "y z"))' % (f, f), '(p :a (b %s c))' % f, '(%s :a b)' % f]
        return [{'src': s} for s in out + gen.char_sources(('(p :a "%s")', '(p :a "%s x")', '(p :a (%%raw "%s"))', '(p :a %s)', '(%s :a b)', '("%s" :a b)'))]

    def gen(self, r):
        return {'src': Css(r, r.choice([0, 0, 0, 0.08])).source()}

    def nontrivial(self, case, feats):
        return '(' in case['src']

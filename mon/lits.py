"""Literal mining: strings, characters and integers written in the current
sources, compared as multisets with those of the tree the baseline was taken
from.  Only workload generation uses this (new constants are tried more often);
no verdict ever depends on it."""
import re, os, json, glob
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = os.path.join(HERE, 'baseline_literals.json')
TOK = re.compile(r'''//[^\n]*|/\*.*?\*/|b?r(\#*)"(.*?)"\1|b?"((?:\\.|[^"\\])*)"|b?'(\\u\{[0-9a-fA-F]+\}|\\x..|\\.|[^'\\])'|'''
                 r'''(?<![\w.])(0x[0-9a-fA-F_]+|[0-9][0-9_]*(?:\.[0-9]+)?)''', re.S)
ESC = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', '\\': '\\', '"': '"', "'": "'"}


def unesc(s):
    def f(m):
        x = m.group(1)
        if x[0] == 'u':
            return chr(int(x[2:-1], 16))
        if x[0] == 'x':
            return chr(int(x[1:], 16))
        if x[0] == '\n':
            return ''
        return ESC.get(x, x)
    return re.sub(r'\\(u\{[0-9a-fA-F]+\}|x[0-9a-fA-F]{2}|\n\s*|.)', f, s, flags=re.S)


def scan(repo='/repo'):
    strs, ints = Counter(), Counter()
    for path in sorted(glob.glob(os.path.join(repo, 'crates', '*', 'src', '**', '*.rs'), recursive=True)):
        try:
            text = open(path, encoding='utf-8').read()
        except (OSError, UnicodeDecodeError):
            continue
        for m in TOK.finditer(text):
            raw, s, c, n = m.group(2), m.group(3), m.group(4), m.group(5)
            try:
                if raw is not None:
                    strs[raw] += 1
                elif s is not None:
                    strs[unesc(s)] += 1
                elif c is not None:
                    strs[unesc(c)] += 1
                elif n is not None:
                    ints[n.replace('_', '')] += 1
            except (ValueError, IndexError, OverflowError):
                continue
    return strs, ints


class Lits:
    def __init__(self):
        strs, ints = scan()
        try:
            base = json.load(open(BASE))
        except OSError:
            base = {'strs': {}, 'ints': {}}
        self.strs = sorted(s for s in strs if 0 < len(s) <= 40)
        self.fresh = sorted(s for s in strs if 0 < len(s) <= 200 and strs[s] > base['strs'].get(s, 0))
        fi = [k for k in ints if ints[k] > base['ints'].get(k, 0)]
        self.fresh_ints = sorted({int(k, 0) if not re.match(r'0[0-9]', k) else int(k) for k in fi if '.' not in k})
        self.fresh_nums = sorted(fi)


if __name__ == '__main__':
    s, i = scan()
    json.dump({'strs': dict(sorted(s.items())), 'ints': dict(sorted(i.items()))}, open(BASE, 'w'), indent=0,
              ensure_ascii=True)
    print(len(s), len(i))

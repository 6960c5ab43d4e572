"""Interpretation of the pest grammars of the repository on texts with holes.

A text is a string in which some characters (of a private-use area) stand for holes: a non-terminal hole can only be
consumed as a whole by the rule it stands for. Ordered choice, greedy repetition, implicit white space and the rule
modifiers (`_`, `@`, `$`, `!`) follow pest."""
import os, re

class Hole(Exception):
    """a terminal was tried on a hole: what happens depends on the text it stands for"""

class Grammar:
    def __init__(self, path):
        self.path = path
        src = open(path, encoding='utf8').read()
        self.rules = {}
        self.order = []
        self.holes = {}       # character -> rule
        for name, mod, body in parse_rules(src):
            self.rules[name] = (mod, body); self.order.append(name)
    def literals(self):
        out = set()
        def go(e):
            if e[0] == 'str': out.add(e[1])
            for x in e[1:]:
                if isinstance(x, tuple): go(x)
                elif isinstance(x, list):
                    for y in x: go(y)
        for n in self.order: go(self.rules[n][1])
        return out
    # ---------------------------------------------------------------- matching: e, position -> (position, pairs) or None
    def parse(self, rule, text):
        """pairs of the rule on the text (which pest need not consume entirely), end position; None when it does not match"""
        self.text = text
        self.memo = {}
        self.far = 0
        return self.call(rule, 0, False)
    def skip(self, p, atomic):
        if atomic: return p
        done = False
        while not done:
            done = True
            for n in ('WHITESPACE', 'COMMENT'):
                # the text of a hole starts with a token
                if n in self.rules and not (p < len(self.text) and self.text[p] in self.holes):
                    r = self.match(self.rules[n][1], p, True)
                    if r is not None and r[0] > p: p = r[0]; done = False
        return p
    def call(self, name, p, atomic):
        k = (name, p, atomic)
        if k in self.memo: return self.memo[k]
        r = self.call1(name, p, atomic)
        self.memo[k] = r
        return r
    def call1(self, name, p, atomic):
        t = self.text
        if name in self.rules:
            if p < len(t) and self.holes.get(t[p]) == name:
                return p + 1, [(name, t[p], [], p)]
            mod, body = self.rules[name]
            at = {'@': True, '$': True, '!': False}.get(mod, atomic)
            r = self.match(body, p, at)
            if r is None: return None
            if mod == '_': return r
            return r[0], [(name, t[p:r[0]], [] if mod == '@' else r[1], p)]
        if name == 'SOI': return (p, []) if p == 0 else None
        if name == 'EOI': return (p, [('EOI', '', [], p)]) if p == len(t) else None
        if p >= len(t): return None
        c = t[p]
        if c in self.holes: raise Hole(self.holes[c])
        ok = {'ANY': True, 'LETTER': c.isalpha(), 'ASCII_DIGIT': c in '0123456789', 'ASCII_NONZERO_DIGIT': c in '123456789',
              'ASCII_ALPHA': c.isascii() and c.isalpha(), 'ASCII_ALPHANUMERIC': c.isascii() and c.isalnum(), 'NEWLINE': c == '\n',
              'ALPHABETIC': c.isalpha(), 'NUMBER': c.isnumeric(), 'ASCII_ALPHA_LOWER': c.isascii() and c.islower(),
              'ASCII_ALPHA_UPPER': c.isascii() and c.isupper(), 'UPPERCASE': c.isupper(), 'LOWERCASE': c.islower()}[name]
        return (p + 1, []) if ok else None
    def match(self, e, p, at):
        t = self.text
        k = e[0]
        if k == 'str':
            n = len(e[1])
            for i in range(n):
                if p + i >= len(t): return None
                if t[p + i] in self.holes: raise Hole(self.holes[t[p + i]])
                if t[p + i] != e[1][i]: self.far = max(self.far, p + i); return None
            return p + n, []
        if k == 'istr':
            s = t[p:p + len(e[1])]
            return (p + len(e[1]), []) if s.lower() == e[1].lower() else None
        if k == 'range':
            if p < len(t) and e[1] <= t[p] <= e[2]: return p + 1, []
            return None
        if k == 'id': return self.call(e[1], p, at)
        if k == 'seq':
            out = []
            for i, x in enumerate(e[1]):
                if i: p = self.skip(p, at)
                r = self.match(x, p, at)
                if r is None: return None
                p = r[0]; out = out + r[1]
            return p, out
        if k == 'alt':
            for x in e[1]:
                r = self.match(x, p, at)
                if r is not None: return r
            return None
        if k == 'opt':
            r = self.match(e[1], p, at)
            return r if r is not None else (p, [])
        if k in ('star', 'plus', 'rep'):
            lo, hi = (0, None) if k == 'star' else (1, None) if k == 'plus' else e[2]
            out, n = [], 0
            while hi is None or n < hi:
                q = self.skip(p, at) if n else p
                r = self.match(e[1], q, at)
                if r is None or (r[0] == p and n >= lo): break
                p = r[0]; out = out + r[1]; n += 1
            return (p, out) if n >= lo else None
        if k == 'not': return (p, []) if self.match(e[1], p, at) is None else None
        if k == 'and': return (p, []) if self.match(e[1], p, at) is not None else None
        raise ValueError(k)

TOK = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|(?P<id>[A-Za-z_]\w*)|(?P<str>"(?:\\.|[^"\\])*")|(?P<chr>\'(?:\\.|[^\'\\])+\')|(?P<rng>\.\.)|(?P<num>\d+)|(?P<op>[=_@$!{}()|~*+?&^,])', re.S)

def unescape(s):
    def f(m):
        c = m.group(1)
        if c[0] == 'u': return chr(int(c[2:-1], 16))
        if c[0] == 'x': return chr(int(c[1:], 16))
        return {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(c, c)
    return re.sub(r'\\(u\{[0-9a-fA-F]+\}|x[0-9a-fA-F]{2}|.)', f, s)

def parse_rules(src):
    toks = []
    p = 0
    while p < len(src):
        m = TOK.match(src, p)
        if not m: raise ValueError('grammar: %r' % src[p:p + 20])
        p = m.end()
        if m.lastgroup: toks.append((m.lastgroup, m.group()))
    i = [0]
    def peek(k=0): return toks[i[0] + k] if i[0] + k < len(toks) else ('end', '')
    def eat(v=None):
        t = peek(); i[0] += 1
        if v is not None and t[1] != v: raise ValueError('grammar: expected %s, got %s' % (v, t[1]))
        return t
    def alt():
        if peek()[1] == '|': eat()
        xs = [seq()]
        while peek()[1] == '|': eat(); xs.append(seq())
        return xs[0] if len(xs) == 1 else ('alt', xs)
    def seq():
        xs = [pre()]
        while peek()[1] == '~': eat(); xs.append(pre())
        return xs[0] if len(xs) == 1 else ('seq', xs)
    def pre():
        if peek()[1] == '!': eat(); return ('not', pre())
        if peek()[1] == '&': eat(); return ('and', pre())
        return post()
    def post():
        e = prim()
        while True:
            v = peek()[1]
            if v == '*': eat(); e = ('star', e)
            elif v == '+': eat(); e = ('plus', e)
            elif v == '?': eat(); e = ('opt', e)
            elif v == '{':
                eat(); lo, hi = 0, None
                if peek()[0] == 'num': lo = hi = int(eat()[1])
                if peek()[1] == ',':
                    eat(); hi = None
                    if peek()[0] == 'num': hi = int(eat()[1])
                eat('}'); e = ('rep', e, (lo, hi))
            else: return e
    def prim():
        k, v = eat()
        if v == '(':
            e = alt(); eat(')'); return e
        if v == '^': return ('istr', unescape(eat()[1][1:-1]))
        if k == 'str': return ('str', unescape(v[1:-1]))
        if k == 'chr':
            a = unescape(v[1:-1])
            if peek()[0] == 'rng':
                eat(); b = unescape(eat()[1][1:-1]); return ('range', a, b)
            return ('str', a)
        if k == 'id': return ('id', v)
        raise ValueError('grammar: unexpected %s' % v)
    out = []
    while peek()[0] != 'end':
        name = eat()[1]; eat('=')
        mod = ''
        if peek()[1] in ('_', '@', '$', '!') and peek(1)[1] == '{': mod = eat()[1]
        elif peek()[0] == 'id' and peek()[1] == '_': mod = eat()[1]
        eat('{'); body = alt(); eat('}')
        out.append((name, mod, body))
    return out

def grammar_of(repo, parser):
    """the grammar file of the parser type of this name"""
    for root, ds, fs in os.walk(os.path.join(repo, 'src')):
        for f in sorted(fs):
            if not f.endswith('.rs'): continue
            s = open(os.path.join(root, f), encoding='utf8').read()
            m = re.search(r'#\[grammar\s*=\s*"([^"]+)"\](?:\s*#\[[^\]]*\])*\s*(?:pub(?:\([^)]*\))?\s+)?struct\s+%s\b' % re.escape(parser), s)
            if m: return os.path.join(repo, 'src', m.group(1))
    return None

def shape(t):
    """rules of a pair, without its text"""
    return (t[0], tuple(shape(c) for c in t[2]))

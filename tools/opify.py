"""Rewrites the binary arithmetic operators of a function body into calls (`a + b` becomes
`la_add(a, b)`, `x += b` becomes `x = la_add(x, b)`), because the verifier does not resolve operator
impls on reference types. Precedence and associativity are Rust's."""
NAMES = {'+': 'la_add', '-': 'la_sub', '*': 'la_mul', '/': 'la_div', '%': 'la_rem'}
OPEN, CLOSE = {'(': ')', '[': ']', '{': '}'}, ')]}'
KEYWORDS = {'return', 'let', 'if', 'match', 'else', 'in', 'while', 'for', 'loop', 'break', 'continue', 'mut', 'move', 'ref', 'where', 'fn', 'impl', 'pub', 'use'}

class N:
    """token or bracket group"""
    def __init__(self, k, t, kids=None):
        self.k, self.t, self.kids = k, t, kids
    def text(self):
        if self.kids is None:
            return self.t
        return self.t + ''.join(x.text() for x in self.kids) + OPEN[self.t]

def tree(toks, i=0, close=None):
    out = []
    while i < len(toks):
        k, t = toks[i]
        if k == 'op' and t in OPEN:
            kids, i = tree(toks, i + 1, OPEN[t])
            out.append(N('g', t, kids))
            continue
        if k == 'op' and t in CLOSE:
            return out, i + 1
        out.append(N(k, t))
        i += 1
    return out, i

def opify(toks):
    t, _ = tree(toks)
    return conv(t)

def conv(nodes):
    """text of a node list, operators rewritten"""
    return Conv(nodes).run()

class Conv:
    def __init__(self, nodes):
        self.n, self.i = nodes, 0
    def peek(self, skip=True):
        j = self.i
        while skip and j < len(self.n) and self.n[j].k == 'ws':
            j += 1
        return self.n[j] if j < len(self.n) else None
    def ws(self):
        s = ''
        while self.i < len(self.n) and self.n[self.i].k == 'ws':
            s += self.n[self.i].t
            self.i += 1
        return s
    def run(self):
        out = []
        stmt = 0            # start of the current statement in `out`
        while self.i < len(self.n):
            x = self.n[self.i]
            if x.k == 'ws':
                out.append(x.t); self.i += 1
            elif x.k == 'id' and x.t == 'let':
                # pattern and type up to `=`
                while self.i < len(self.n) and not (self.n[self.i].k == 'op' and self.n[self.i].t in ('=', ';')):
                    out.append(self.n[self.i].text()); self.i += 1
            elif x.k == 'id' and x.t in KEYWORDS:
                out.append(x.t); self.i += 1
            elif x.k == 'op' and x.t in ('+=', '-=', '*=', '/='):
                lhs = ''.join(out[stmt:])
                out.append('=')
                self.i += 1
                w = self.ws()
                rhs = self.expr()
                out.append('%s%s(%s, %s)' % (w, NAMES[x.t[0]], lhs.strip(), rhs.strip()))
            elif self.starts(x):
                out.append(self.expr())
            else:
                out.append(x.text() if x.kids is None else self.group(x)); self.i += 1
                if x.k == 'op' and x.t in (';', ',', '=>') or x.k == 'g' and x.t == '{':
                    stmt = len(out)
                if x.k == 'op' and x.t == '|':
                    stmt = len(out)
        return ''.join(out)
    def group(self, g):
        return g.t + conv(g.kids) + OPEN[g.t]
    def starts(self, x):
        if x.k in ('id', 'num', 'str', 'chr', 'x'):
            return x.t not in KEYWORDS
        if x.k == 'g':
            return x.t in '(['
        # unary operators where an operand is expected
        return x.k == 'op' and x.t in ('-', '*', '!', '&')
    def expr(self):
        l = self.mul()
        while True:
            p = self.peek()
            if p and p.k == 'op' and p.t in '+-':
                w = self.ws(); self.i += 1
                w += self.ws()
                r = self.mul()
                l = '%s(%s, %s)' % (NAMES[p.t], l.strip(), r.strip())
            else:
                return l
    def mul(self):
        l = self.cast()
        while True:
            p = self.peek()
            if p and p.k == 'op' and p.t in '*/%':
                self.ws(); self.i += 1
                self.ws()
                r = self.cast()
                l = '%s(%s, %s)' % (NAMES[p.t], l.strip(), r.strip())
            else:
                return l
    def cast(self):
        l = self.unary()
        while True:
            p = self.peek()
            if p and p.k == 'id' and p.t == 'as':
                l += self.ws() + 'as'; self.i += 1
                l += self.ws() + self.n[self.i].t; self.i += 1
            else:
                return l
    def unary(self):
        x = self.peek()
        if x and x.k == 'op' and x.t in ('-', '*', '!', '&'):
            w = self.ws(); self.i += 1
            s = x.t
            p = self.peek()
            if x.t == '&' and p and p.k == 'id' and p.t == 'mut':
                w += self.ws(); self.i += 1
                return w + '&mut ' + self.unary().strip()
            u = self.unary().strip()
            return w + ('la_neg(%s)' % u if x.t == '-' else x.t + u)
        return self.postfix()
    def postfix(self):
        s = self.ws()
        x = self.n[self.i]
        s += self.group(x) if x.k == 'g' else x.t
        self.i += 1
        while self.i < len(self.n):
            # method chains may start on the next line
            j = self.i
            while j < len(self.n) and self.n[j].k == 'ws':
                j += 1
            p = self.n[j] if j < len(self.n) else None
            if p is None:
                break
            if p.k == 'op' and p.t in ('.', '?', '::'):
                s += self.ws() + p.t; self.i += 1
                if p.t == '?':
                    continue
                s += self.ws()
                q = self.n[self.i]
                if p.t == '::' and q.k == 'op' and q.t == '<':
                    d = 0
                    while True:
                        q = self.n[self.i]
                        d += (q.k == 'op' and q.t == '<') - (q.k == 'op' and q.t == '>')
                        s += q.text(); self.i += 1
                        if d == 0:
                            break
                else:
                    s += q.t; self.i += 1
                continue
            if j == self.i and p.k == 'op' and p.t == '!' and self.i + 1 < len(self.n) and self.n[self.i + 1].k == 'g':
                s += '!'; self.i += 1
                continue
            if j == self.i and p.k == 'g' and p.t in '([':
                s += self.group(p); self.i += 1
                continue
            break
        return s

#!/usr/bin/env python3
"""Mechanical extraction of functions and types from /repo/src into Verus units.

A unit template (verus/units/*.vrs) is Verus source with directive comments:

  //@include prelude/float.rs
  //@item FILE struct|enum|const NAME [derive=Clone,Copy]
  //@fn FILE "IMPL HEADER" NAME        (IMPL HEADER "-" for a free function; whitespace-insensitive)
  //@  ret NAME                        name of the returned value in the contract (default: r)
  //@  rename NEW                      the extracted function gets this name
  //@  self TEXT                       replaces the receiver parameter
  //@| TEXT                            contract lines, inserted between the signature and the body
  //@loop N| TEXT                      contract of the N-th loop (textual order) of the body
  //@sub COUNT /REGEX/REPLACEMENT/     rewriting of the source text, must match exactly COUNT times
                                       ("+": at least once, "*": any number)
  //@start| TEXT                       ghost code at the start of the body
  //@tail| TEXT                      ghost code after the tail expression (bound to tail_)
  //@before /REGEX/| TEXT              ghost code before the statement matching REGEX (exactly one; \1: its group)
  //@cut /REGEX/REPLACEMENT/          the closure whose head matches REGEX, body included, is replaced
  //@annot /REGEX/HEAD/               the head of the closure matching REGEX gets types and a contract
                                      (HEAD starting with `*`: every closure that matches)
                                      (HEAD%%TEXT: TEXT is put at the start of its body)
  //@mutloops                         `for x in &mut v { .. *x .. }` over a vector becomes a loop over its
                                      indices (ghost v0_, v1_, ..: the vector before the loop)
  //@forloops                        `for x in E { .. }` becomes a loop that calls `next` on the iterator it0_, it1_, ..
  //@breakvalue                    `let x = loop { .. break E; .. }`: the value is stored in brk0_ before the loop is left
  //@ops                             arithmetic operators become calls (tools/opify.py)
  //@nloops N, //@bare N              the body has N loops (default: those with a contract), N closures without
                                      a contract (default 0); otherwise its proof is not redone
  //@attr TEXT                        attribute put before the function
  //@{V}keep REASONS               statement contracts: copy V contains the `if` statements that report these
                                      reasons; the others are replaced by their contract (see statement_contracts)
  //@{V}...                         any of these directives, for the copy V only: the body is verified once
                                      per copy, each against its part of the contract
  //@end
  //@closure FILE "IMPL" NAME /REGEX/ LABEL   the body of the closure whose head matches REGEX, as a
                                      function with the signature given by //@sig TEXT (the captured
                                      variables become parameters); directives as for //@fn
  //@import UNIT FILE "IMPL" NAME     the signature in the sources with the contract that UNIT proves
                                      for it; the body is not used

What the extraction changes, for every function: comments and attributes are dropped, `f64` becomes
the float model `F` and float literals become `F::lit(exact value)`, `X as f64` becomes `to_f(X)` and `X as usize` becomes `as_usize(X)`,
`black_box(X)` becomes `(X)`, a `mut self` receiver becomes a local variable, the result is named, and the contract is inserted. Every other rewriting is an explicit `sub` of the
unit. Anything that does not match raises LostAnchor: the proof is then not redone (undecided).
"""
import re, sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import opify

class LostAnchor(Exception):
    pass

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*.*?\*/)
 |(?P<str>b?"(?:\\.|[^"\\])*"|r\#*"(?:.*?)"\#*)
 |(?P<life>'[A-Za-z_]\w*(?!'))
 |(?P<chr>'(?:\\.[^']*|[^'\\])')
 |(?P<num>\d[\d_]*(?:\.\d[\d_]*(?:[eE][+-]?\d+)?|\.(?![.\w])|[eE][+-]?\d+)?(?:_?(?:f64|f32|[iu](?:8|16|32|64|128|size)))?)
 |(?P<id>[A-Za-z_]\w*)
 |(?P<op><<=|>>=|\.\.=|\.\.\.|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|\.\.|[{}()\[\];,.:<>=+\-*/%!&|^?\#@$~])
''', re.X | re.S)

def tokenize(s):
    pos, out = 0, []
    while pos < len(s):
        m = TOK.match(s, pos)
        if not m:
            raise LostAnchor('cannot tokenize at %r' % s[pos:pos + 30])
        k = m.lastgroup
        out.append((k, m.group()))
        pos = m.end()
    return out

def strip_comments(s):
    out = []
    for k, t in tokenize(s):
        if k in ('lc', 'bc'):
            out.append(' ' if k == 'bc' else '')
        else:
            out.append(t)
    return ''.join(out)

def match_close(s, i, o='{', c='}'):
    """index just past the bracket matching s[i] (s without comments)"""
    assert s[i] == o
    depth, pos = 0, i
    while pos < len(s):
        m = TOK.match(s, pos)
        if not m:
            raise LostAnchor('cannot tokenize')
        t = m.group()
        if m.lastgroup == 'op':
            if t == o:
                depth += 1
            elif t == c:
                depth -= 1
                if depth == 0:
                    return m.end()
        pos = m.end()
    raise LostAnchor('unbalanced')

def backref(text, m):
    return re.sub(r'\\(\d)', lambda x: m.group(int(x.group(1))), text)

def norm(s):
    return re.sub(r'\s+', '', s)

class Source:
    cache = {}
    def __init__(self, root, path):
        p = os.path.join(root, path)
        if not os.path.exists(p):
            raise LostAnchor('no file ' + path)
        self.text = strip_comments(open(p).read())
        # drop test modules
        while True:
            m = re.search(r'#\[cfg\(test\)\]\s*mod\s+\w+\s*\{', self.text)
            if not m:
                break
            e = match_close(self.text, m.end() - 1)
            self.text = self.text[:m.start()] + self.text[e:]

    def impl_blocks(self, header):
        want = norm(header)
        res = []
        for m in re.finditer(r'(?m)^\s*(?:pub(?:\([^)]*\))?\s+)?(?:unsafe\s+)?(?:impl|trait)\b[^{;]*\{', self.text):
            h = m.group()[:-1]
            h2 = norm(re.sub(r'^\s*pub(?:\([^)]*\))?\s+', '', h))
            if h2 == want:
                b = m.end() - 1
                res.append((b + 1, match_close(self.text, b) - 1))
        if not res:
            raise LostAnchor('no block %r' % header)
        return res

    def fn(self, header, name):
        spans = [(0, len(self.text))] if header == '-' else self.impl_blocks(header)
        found = []
        for a, b in spans:
            t = self.text[a:b]
            for m in re.finditer(r'(?:\bpub(?:\([^)]*\))?\s+)?\bfn\s+' + name + r'\b', t):
                if header == '-' or depth_at(t, m.start()) == 0:
                    if header == '-' and depth_at(t, m.start()) != 0:
                        continue
                    # attributes directly before the function
                    pre = t[:m.start()].rstrip()
                    attrs = []
                    while pre.endswith(']'):
                        am = None
                        for am in re.finditer(r'#\[', pre):
                            pass
                        if am is None:
                            break
                        attrs.append(pre[am.start():])
                        pre = pre[:am.start()].rstrip()
                    if any('cfg(test)' in norm(x) for x in attrs):
                        continue
                    found.append(self._fn_at(t, m.start()))
        if len(found) != 1:
            raise LostAnchor('%d functions %s in %r' % (len(found), name, header))
        return found[0]

    def _fn_at(self, t, i):
        # signature up to the body's '{' (or ';')
        pos, depth = i, 0
        while True:
            m = TOK.match(t, pos)
            if not m:
                raise LostAnchor('cannot tokenize')
            x = m.group()
            if m.lastgroup == 'op':
                if x in '([':
                    depth += 1
                elif x in ')]':
                    depth -= 1
                elif x == '{' and depth == 0:
                    e = match_close(t, pos)
                    return t[i:pos], t[pos:e]
                elif x == ';' and depth == 0:
                    raise LostAnchor('function without body')
            pos = m.end()

    def item(self, kind, name):
        m = re.search(r'(?m)^[ \t]*(?:pub(?:\([^)]*\))?\s+)?' + kind + r'\s+' + name + r'\b', self.text)
        if not m:
            raise LostAnchor('no %s %s' % (kind, name))
        pos = m.end()
        while True:
            k = TOK.match(self.text, pos)
            if not k:
                raise LostAnchor('cannot tokenize')
            if k.group() == '{' and kind != 'const':
                e = match_close(self.text, pos)
                return self.text[m.start():e].strip()
            if k.group() == ';':
                return self.text[m.start():k.end()].strip()
            pos = k.end()

def depth_at(t, i):
    d, pos = 0, 0
    while pos < i:
        m = TOK.match(t, pos)
        if not m:
            raise LostAnchor('cannot tokenize')
        if m.lastgroup == 'op':
            if m.group() == '{':
                d += 1
            elif m.group() == '}':
                d -= 1
        pos = m.end()
    return d

def drop_attrs(s, cfg_features=('plotters',)):
    """removes attributes; items/statements/fields cfg'd out for the default features are removed too"""
    out, i = [], 0
    while True:
        m = re.compile(r'#\[').search(s, i)
        if not m:
            out.append(s[i:])
            break
        out.append(s[i:m.start()])
        e = match_close(s, m.start() + 1, '[', ']')
        a = norm(s[m.start():e])
        i = e
        keep = True
        if a.startswith('#[cfg('):
            inner = a[6:-2]
            keep = eval_cfg(inner, cfg_features)
        if not keep:
            i = skip_item(s, i)
    return ''.join(out)

def eval_cfg(x, feats):
    m = re.fullmatch(r'feature="([^"]*)"', x)
    if m:
        return m.group(1) in feats
    m = re.fullmatch(r'(any|all|not)\((.*)\)', x)
    if m:
        parts, d, cur = [], 0, ''
        for ch in m.group(2):
            if ch == ',' and d == 0:
                parts.append(cur); cur = ''
                continue
            d += ch == '('
            d -= ch == ')'
            cur += ch
        if cur:
            parts.append(cur)
        vals = [eval_cfg(p, feats) for p in parts]
        return {'any': any(vals), 'all': all(vals), 'not': not vals[0] if vals else True}[m.group(1)]
    if x in ('test', 'cmaes_verif', 'kani'):
        return False
    return False

def skip_item(s, i):
    """skips one statement / field / item starting at i"""
    d, pos = 0, i
    while pos < len(s):
        m = TOK.match(s, pos)
        t = m.group()
        if m.lastgroup == 'op':
            if t in '([{':
                d += 1
            elif t in ')]}':
                if d == 0:
                    return pos
                d -= 1
                if d == 0 and t == '}':
                    nxt = re.match(r'\s*;', s[m.end():])
                    if not nxt:
                        return m.end()
            elif t in ';,' and d == 0:
                return m.end()
        pos = m.end()
    return pos

def rational(lit):
    """exact value of a decimal literal as a Verus real expression"""
    s = lit.replace('_', '').replace('f64', '')
    m = re.fullmatch(r'(\d+)(?:\.(\d*))?(?:[eE]([+-]?\d+))?', s)
    ip, fp, ex = m.group(1), m.group(2) or '', int(m.group(3) or 0)
    n = int(ip + fp)
    e = ex - len(fp)
    while n != 0 and n % 10 == 0 and e < 0:
        n //= 10
        e += 1
    if n == 0:
        return '0real'
    if e >= 0:
        return '%dreal' % (n * 10 ** e)
    return '(%dreal / %dreal)' % (n, 10 ** -e)

def floatify(s):
    """f64 -> F, literals, casts"""
    s = re.sub(r"\bf64::NAN\b", "f64::nan()", s)
    s = re.sub(r"\b(?:(?:std|core)::)?hint::black_box\(", "(", s)
    toks = tokenize(s)
    out = []
    i = 0
    while i < len(toks):
        k, t = toks[i]
        if k == 'num' and (('.' in t) or re.search(r'[eE]', t) and not t.startswith('0x') or t.endswith('f64')):
            out.append(('x', 'F::lit(Ghost(%s))' % rational(t)))
        elif k == 'id' and t == 'as':
            j = i + 1
            while toks[j][0] == 'ws':
                j += 1
            if toks[j] == ('id', 'f64'):
                # operand: postfix expression ending here
                while out and out[-1][0] == 'ws':
                    out.pop()
                st = operand_start(out)
                out[st:st] = [('id', 'to_f'), ('op', '(')]
                out.append(('op', ')'))
                i = j
            elif toks[j] == ('id', 'usize'):
                while out and out[-1][0] == 'ws':
                    out.pop()
                st = operand_start(out)
                out[st:st] = [('id', 'as_usize'), ('op', '(')]
                out.append(('op', ')'))
                i = j
            else:
                out.append((k, t))
        elif k == 'id' and t == 'f64':
            out.append(('x', 'F'))
        else:
            out.append((k, t))
        i += 1
    return ''.join(t for _, t in out)

def operand_start(out):
    i = len(out) - 1
    while True:
        k, t = out[i]
        if t in (')', ']'):
            o = {')': '(', ']': '['}[t]
            d = 0
            while True:
                if out[i][1] == t:
                    d += 1
                elif out[i][1] == o:
                    d -= 1
                    if d == 0:
                        break
                i -= 1
            # function or method name before?
            if i > 0 and (out[i - 1][0] in ('id',) and out[i - 1][1] not in ('return', 'if', 'in', 'match', 'as', 'else') or out[i - 1][1] in (')', ']', '>')):
                i -= 1
                continue
            return i
        if k in ('id', 'num', 'x'):
            if i > 0 and out[i - 1][1] in ('.', '::'):
                i -= 2
                # multi-line method chains
                while out[i][0] == 'ws':
                    i -= 1
                continue
            return i
        raise LostAnchor('cast operand')

def iterify(s):
    """iterator sources become `It` (see prelude/iter.rs)"""
    s = re.sub(r'\.\s*(?:par_)?iter\(\)', '.it()', s)
    s = re.sub(r'\.\s*into_(?:par_)?iter\(\)', '.into_it()', s)
    s = re.sub(r'\.\s*all\(', '.all_(', s)
    # (a..b).method
    while True:
        m = re.search(r'\((\s*\w[\w.\s+*-]*?)\.\.(=?)(\s*[\w.\s()+*-]*?)\)(?=\s*\.)', s)
        if not m:
            break
        hi = m.group(3) if not m.group(2) else '(%s) + 1' % m.group(3)
        s = s[:m.start()] + 'range_it(%s, %s)' % (m.group(1), hi) + s[m.end():]
    return s


def loops(body):
    """positions of the '{' opening each loop body, in textual order"""
    res, toks, pos = [], tokenize(body), 0
    i, n = 0, len(toks)
    starts, p = [], 0
    for k, t in toks:
        starts.append(p)
        p += len(t)
    for i, (k, t) in enumerate(toks):
        if k == 'id' and t in ('for', 'while', 'loop'):
            if t == 'for':
                j = i + 1
                while toks[j][0] == 'ws':
                    j += 1
                if toks[j][1] == '<':
                    continue
            d = 0
            j = i + 1
            while j < n:
                x = toks[j]
                if x[0] == 'op':
                    if x[1] in '([':
                        d += 1
                    elif x[1] in ')]':
                        d -= 1
                    elif x[1] == '{' and d == 0:
                        res.append(starts[j])
                        break
                j += 1
    return res

def bare_closures(body):
    """number of closures that have no contract (a contract's head has been replaced by a marker)"""
    n, prev = 0, ''
    for k, t in tokenize(body):
        if k in ('ws', 'lc', 'bc'):
            continue
        if t in ('|', '||') and prev in ('(', ',', '=', 'move', 'return', '{', ';', '=>', '&'):
            n += 1
        prev = t
    return n


def do_fn(root, d, probe=None, imported=False):
    src = Source(root, d['file'])
    sig, body = src.fn(d['impl'], d['name'])
    sig, body = drop_attrs(sig), drop_attrs(body)
    if imported:
        body = '{ }'
        d = dict(d, subs=[x for x in d['subs'] if x[3] == 'sig'], cuts=[], annots=[], loops={}, before=[], after=[], start=[], atend=[], nloops=None, keep=None, keeps=None, tail=None, forloops=None, mutloops=None, breakvalue=None)
    if d.get('closure'):
        # the body of a closure becomes a function with the signature given by the unit
        m = one(d['closure'], body, d['name'])
        e = closure_end(body, m.end())
        body = body[m.end():e].strip()
        if not body.startswith('{'):
            body = '{ ' + body + ' }'
        sig = d['sig']
    for rx, rep in d.get('cuts', []):
        m = one(rx, body, d['name'])
        e = closure_end(body, m.end())
        body = body[:m.start()] + m.expand(rep) + body[e:]
    if re.search(r'\(\s*mut self\b', sig):
        # `mut self`: a local variable takes its place
        sig = re.sub(r'\(\s*mut self\b', '(self', sig, count=1)
        body = '{ let mut self_ = self; ' + re.sub(r'\bself\b', 'self_', body[1:])
    if d.get('mutloops'):
        body = mutloops(body)
    if d.get('forloops'):
        body = forloops(body)
    if d.get('breakvalue'):
        body = breakvalue(body)
    heads = []
    todo = []
    for rx, rep in d.get('annots', []):
        if rep.startswith('*'):
            todo += [(rx, rep[1:], k) for k in range(len(re.findall(rx, body)))]
        elif re.search(rx, body, re.S):  # without it, a closure that needs it is found below to have no contract
            todo.append((rx, rep, -1))
    for rx, rep, k in todo:
        m = one(rx, body, d['name']) if k < 0 else re.search(rx, body, re.S)
        e = closure_end(body, m.end())
        inner = body[m.end():e].strip()
        if not inner.startswith('{'):
            inner = '{ ' + inner + ' }'
        rep, _, pre = rep.partition('%%')
        inner = '{' + m.expand(pre) + inner[1:]
        heads.append(m.expand(rep))
        body = body[:m.start()] + ' __HEAD_%d__ ' % (len(heads) - 1) + ' ' + inner + body[e:]
    for cnt, rx, rep, where in d['subs']:
        text = sig if where == 'sig' else body
        new, n = re.subn(rx, rep, text, flags=re.S)
        ok = n >= 1 if cnt == '+' else (True if cnt == '*' else n == int(cnt))
        if not ok:
            raise LostAnchor('%s: /%s/ matches %d times' % (d['name'], rx, n))
        if where == 'sig':
            sig = new
        else:
            body = new
    if not imported and bare_closures(body) != d.get('bare', 0):
        raise LostAnchor('%s: %d closures without a contract' % (d['name'], bare_closures(body)))
    if d.get('keep'):
        body = statement_contracts(body, d)
    if d.get('tail'):
        a = tail_start(body)
        am = find_arrow(sig)
        body = body[:a] + ' let tail_%s = ' % (': ' + sig[am[0]:am[1]].strip() if am else '') + body[a:-1].strip() + '; __TAIL__ tail_ }'
    # loop contracts and ghost code are put in as markers so that float rewriting leaves them alone
    marks = []
    def mark(text):
        marks.append(text)
        return ' __MARK_%d__ ' % (len(marks) - 1)
    lp = loops(body)
    if not imported and len(lp) != (d['nloops'] if d.get('nloops') is not None else len(d['loops'])):
        raise LostAnchor('%s: %d loops' % (d['name'], len(lp)))
    ins = []
    for n, text in d['loops'].items():
        if n >= len(lp):
            raise LostAnchor('%s: no loop %d' % (d['name'], n))
        ins.append((lp[n], mark('\n' + text + '\n')))
    for rx, text in d['before']:
        ms = list(re.finditer(rx, body, flags=re.S))
        if len(ms) != 1:
            raise LostAnchor('%s: before /%s/ matches %d times' % (d['name'], rx, len(ms)))
        ins.append((ms[0].start(), mark('\n' + backref(text, ms[0]) + '\n')))
    for rx, text in d['after']:
        ms = list(re.finditer(rx, body, flags=re.S))
        if len(ms) != 1:
            raise LostAnchor('%s: after /%s/ matches %d times' % (d['name'], rx, len(ms)))
        ins.append((ms[0].end(), mark('\n' + backref(text, ms[0]) + '\n')))
    if d['start']:
        ins.append((1, mark('\n' + '\n'.join(d['start']) + '\n')))
    if d['atend']:
        ins.append((len(body) - 1, mark('\n' + '\n'.join(d['atend']) + '\n')))
    for p, text in sorted(reversed(ins), key=lambda x: -x[0]):
        body = body[:p] + text + body[p:]
    if d.get('ops'):
        body = opify.opify(tokenize(body))
    sig, body = floatify(sig), floatify(iterify(body) if d.get('iter', True) else body)
    if d.get('tail'):
        body = body.replace('__TAIL__', '\n' + '\n'.join(d['tail']) + '\n')
    for i, text in enumerate(heads):
        body = body.replace('__HEAD_%d__' % i, floatify(text))
    for i, text in enumerate(marks):
        body = body.replace('__MARK_%d__' % i, text)
    sig = re.sub(r'([(,]\s*)_(\s*:)', r'\1ignored_\2', sig)
    # name of the result
    m = find_arrow(sig)
    if m is not None:
        a, b = m
        ty = sig[a:b].strip()
        sig = sig[:a] + ' (%s: %s) ' % (d['ret'], ty) + sig[b:]
    if d['rename']:
        sig = re.sub(r'\bfn\s+' + d['name'] + r'\b', 'fn ' + d['rename'], sig)
    sig = re.sub(r'pub\((?:crate|super)\)', 'pub', sig)
    if d['self']:
        sig = re.sub(r'\(\s*(?:&\s*)?(?:mut\s+)?self\b|\(\s*&mut\s+self\b', '(' + d['self'], sig, count=1)
    sig = re.sub(r'(->\s*[^{]*?),\s*\Z', r'\1', sig)
    contract = '\n'.join(d['contract'])
    if probe is not None:
        m = re.search(r'\bensures\b', contract)
        if m:
            contract = contract[:m.end()] + ' probe(%dint),\n' % probe + contract[m.end():]
        elif re.search(r'\b(decreases|no_unwind|returns)\b', contract):
            raise Exception('probe: no place in ' + d['name'])
        else:
            contract = contract + '\nensures probe(%dint),' % probe
    if imported:
        return '#[verifier::external_body]\n%s\n%s\n{ unimplemented!() }' % (floatify(sig).strip(), contract)
    return '%s%s\n%s\n%s' % (d.get('attr', '') + '\n' if d.get('attr') else '', sig.strip(), contract, body)

def mutloops(body):
    k = 0
    while True:
        m = re.search(r'\bfor (\w+) in &mut (\w+) \{', body)
        if not m:
            return body
        e = match_close(body, m.end() - 1)
        x, v = m.group(1), m.group(2)
        t = re.sub(r'\*%s\b' % x, '%s_' % x, body[m.end():e - 1])
        if re.search(r'\b(%s|%s|break|continue|return)\b' % (x, v), t):
            raise LostAnchor('loop over &mut %s' % v)
        body = body[:m.start()] + ('let ghost v%d_ = %s@; { let mut i_: usize = 0; while i_ < %s.len() { let mut %s_: f64 = %s[i_]; %s %s.set_(i_, %s_); i_ += 1; } }'
                                   % (k, v, v, x, v, t, v, x)) + body[e:]
        k += 1

def forloops(body):
    """`for PAT in EXPR { .. }` over an iterator becomes a loop that calls `next`"""
    k = 0
    while True:
        lp = loops(body)
        found = None
        for b in lp:
            a = body.rfind('for ', 0, b)
            m = re.match(r'for ((?:\([^)]*\)|[\w&]+)) in ', body[a:b]) if a >= 0 else None
            if m and '{' not in body[a:b].strip() and ';' not in body[a:b]:
                found = (a, m, b)
                break
        if not found:
            return body
        a, m, b = found
        expr = body[a + m.end():b].strip()
        body = body[:a] + '{ let mut it%d_ = %s; let ghost all%d_ = it%d_.elements(); loop ' % (k, expr, k, k) + '{ let %s = match it%d_.next() { Some(x_) => x_, None => break }; ' % (m.group(1), k) + body[b + 1:match_close(body, b)] + ' }' + body[match_close(body, b):]
        k += 1

def breakvalue(body):
    """`let X = loop { .. break E; .. };` becomes a loop that stores E before it is left"""
    k = 0
    while True:
        m = re.search(r'\blet (\w+) = loop \{', body)
        if not m:
            return body
        e = match_close(body, m.end() - 1)
        t = body[m.end():e - 1]
        if re.search(r'\b(loop|while|for)\b', t):
            raise LostAnchor('nested loop with a value')
        t, n = re.subn(r'\bbreak ([^;{}]+?);', r'{ brk%d_ = Some(\1); break; }' % k, t)
        if not n or re.search(r'\bbreak\b(?!;)', t):
            raise LostAnchor('value of a loop')
        body = body[:m.start()] + 'let mut brk%d_ = None; loop {' % k + t + '} let %s = brk%d_.unwrap()' % (m.group(1), k) + body[e:]
        k += 1

def snake(n):
    return re.sub(r'(?<!^)([A-Z])', r'_\1', n).lower()

def statement_contracts(body, d):
    """every `if` statement of the body changes the list of reasons only in the reasons it mentions: this is
    asserted for the statements of this copy and used in place of the others (proved in their own copies)"""
    v = one(r'let mut (\w+) = Vec::new\(\);', body, d['name']).group(1)
    if len(re.findall(r'\blet mut\b', body)) != 1:
        raise LostAnchor('another mutable variable')
    new, p = '', 0
    for k, (a, b) in enumerate(top_ifs(body)):
        t = body[a:b]
        fs = sorted(set(re.findall(r'TerminationReason::(\w+)', t)))
        if not fs or re.search(r'\b(return|break|continue)\b|\?\s*[;.)]', t):
            raise LostAnchor('statement contract')
        if not any(set(fs) <= set(x) for x in d['keeps'].values()):
            raise LostAnchor('statement in no copy')
        mask = 'Flags { %s, ..no_flags() }' % ', '.join('%s: true' % snake(f) for f in fs)
        new += body[p:a]
        if set(fs) & set(d['keep']):
            new += 'let ghost g%d_ = flags(%s@); %s assert(same_but(flags(%s@), g%d_, %s));' % (k, v, t, v, k, mask)
        else:
            new += 'other_statement(&mut %s, Ghost(%s));' % (v, mask)
        p = b
    return new + body[p:]

def top_ifs(body):
    """the `if` statements directly in the body"""
    res, d, pos, prev = [], 0, 1, '{'
    while pos < len(body) - 1:
        m = TOK.match(body, pos)
        t = m.group()
        if m.lastgroup == 'id' and t == 'if' and d == 0 and prev in '{};':
            a = pos
            while True:
                e, q = 0, pos
                while True:
                    m = TOK.match(body, q)
                    if m.lastgroup == 'op' and m.group() in '([':
                        e += 1
                    elif m.lastgroup == 'op' and m.group() in ')]':
                        e -= 1
                    elif m.lastgroup == 'op' and m.group() == '{' and e == 0:
                        break
                    q = m.end()
                pos = match_close(body, q)
                m = re.match(r'\s*else\b', body[pos:])
                if not m:
                    break
                pos += m.end()
            res.append((a, pos))
            prev = '}'
            continue
        if m.lastgroup == 'op':
            if t in '([{':
                d += 1
            elif t in ')]}':
                d -= 1
        if m.lastgroup != 'ws':
            prev = t if t in ('{', '}', ';') else '.'
        pos = m.end()
    return res

def closure_end(s, i):
    """end of the closure body expression starting at i"""
    while s[i].isspace():
        i += 1
    if s[i] == '{':
        return match_close(s, i)
    d, pos = 0, i
    while pos < len(s):
        m = TOK.match(s, pos)
        t = m.group()
        if m.lastgroup == 'op':
            if t in '([{':
                d += 1
            elif t in ')]}':
                if d == 0:
                    return pos
                d -= 1
            elif t in ',;' and d == 0:
                return pos
        pos = m.end()
    raise LostAnchor('closure end')

def tail_start(body):
    """start of the tail expression of a body `{ ... }`"""
    d, pos, a = 0, 1, 1
    while pos < len(body) - 1:
        m = TOK.match(body, pos)
        t = m.group()
        if m.lastgroup == 'op':
            if t in '([{':
                d += 1
            elif t in ')]}':
                d -= 1
                # a block statement before the tail
                if t == '}' and d == 0 and re.match(r'\s*(?!else\b|as\b)\w', body[m.end():-1]):
                    a = m.end()
            elif t == ';' and d == 0:
                a = m.end()
        pos = m.end()
    return a

def one(rx, s, what):
    ms = list(re.finditer(rx, s, flags=re.S))
    if len(ms) != 1:
        raise LostAnchor('%s: /%s/ matches %d times' % (what, rx, len(ms)))
    return ms[0]

def find_arrow(sig):
    """span of the result type in a signature"""
    toks = tokenize(sig)
    p, d, a = 0, 0, None
    ang = 0
    for k, t in toks:
        if k == 'op':
            if t in '([':
                d += 1
            elif t in ')]':
                d -= 1
            elif t == '<':
                ang += 1
            elif t == '>':
                ang -= 1
            elif t == '->' and d == 0 and a is None and ang == 0:
                a = p + len(t)
        if k == 'id' and t == 'where' and d == 0 and a is not None:
            return a, p
        p += len(t)
    return (a, len(sig)) if a is not None else None

def do_item(root, f, kind, name, derive, subs):
    src = Source(root, f)
    t = drop_attrs(src.item(kind, name))
    for cnt, rx, rep, _ in subs:
        t, n = re.subn(rx, rep, t, flags=re.S)
        if not (n >= 1 if cnt == '+' else cnt == '*' or n == int(cnt)):
            raise LostAnchor('%s %s: /%s/ matches %d times' % (kind, name, rx, n))
    t = floatify(t)
    t = re.sub(r'pub\((?:crate|super)\)', 'pub', t)
    if not t.startswith('pub'):
        t = 'pub ' + t
    if kind == 'struct':
        # contracts of public functions speak about the fields
        b = t.find('{')
        if b >= 0:
            inner = t[b + 1:-1]
            fields = split_top(inner)
            fields = [re.sub(r'^\s*(pub\s+)?', 'pub ', x.strip()) for x in fields if x.strip()]
            t = t[:b] + '{ ' + ', '.join(fields) + ' }'
    if kind == 'const':
        m = re.match(r'pub const (\w+): F = F::lit\(Ghost\((.*)\)\);?\s*$', t.strip(), re.S)
        if m:
            t = 'pub exec const %s: F ensures %s == flit(%s) { F::lit(Ghost(%s)) }' % (m.group(1), m.group(1), m.group(2), m.group(2))
    if derive:
        t = '#[derive(%s)]\n' % derive + t
    return t

def split_top(s):
    out, d, cur = [], 0, ''
    for k, t in tokenize(s):
        if k == 'op':
            if t in '([{<':
                d += 1
            elif t in ')]}>':
                d -= 1
        if t == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += t
    out.append(cur)
    return out

def parse_sub(x):
    m = re.match(r'(sig\s+)?(\S+)\s+(.)(.*)\Z', x, re.S)
    delim = m.group(3)
    parts = m.group(4).split(delim)
    return (m.group(2), parts[0], parts[1], 'sig' if m.group(1) else 'body')

def add_line(l, rx, text):
    if l and l[-1][0] == rx:
        l[-1] = (rx, l[-1][1] + '\n' + text)
    else:
        l.append((rx, text))

def parse_fn(lines, i, variant=None):
    s = lines[i].strip()
    variants = []
    d = dict(ret='r', rename=None, self=None, contract=[], loops={}, subs=[], before=[], after=[], start=[], atend=[], nloops=None, cuts=[], attr='')
    if s.startswith('//@closure '):
        m = re.match(r'//@closure\s+(\S+)\s+(?:"([^"]*)"|(-))\s+(\w+)\s+/(.*)/\s+(\w+)', s)
        d.update(file=m.group(1), impl=m.group(2) or '-', name=m.group(4), closure=m.group(5), label=m.group(6))
    else:
        m = re.match(r'//@fn\s+(\S+)\s+(?:"([^"]*)"|(-))\s+(\w+)', s)
        d.update(file=m.group(1), impl=m.group(2) or '-', name=m.group(4))
    i += 1
    while True:
        x = lines[i].strip()
        i += 1
        if x == '//@end':
            break
        mv = re.match(r'//@\{(\w+)\}(.*)', x, re.S)
        if mv:
            if mv.group(1) not in variants:
                variants.append(mv.group(1))
            if variant is not None and variant != mv.group(1):
                if mv.group(2).startswith('keep '):
                    d.setdefault('keeps', {})[mv.group(1)] = mv.group(2).split()[1:]
                continue
            x = '//@' + mv.group(2)
        if x.startswith('//@|'):
            d['contract'].append(x[4:])
        elif x.startswith('//@loop '):
            mm = re.match(r'//@loop (\d+)\|(.*)', x)
            n = int(mm.group(1))
            d['loops'][n] = d['loops'].get(n, '') + mm.group(2) + '\n'
        elif x.startswith('//@nloops '):
            d['nloops'] = int(x.split()[1])
        elif x.startswith('//@sub '):
            d['subs'].append(parse_sub(x[7:]))
        elif x.startswith('//@start|'):
            d['start'].append(x[9:])
        elif x.startswith('//@atend|'):
            d['atend'].append(x[9:])
        elif x.startswith('//@tail|'):
            d.setdefault('tail', []).append(x[8:])
        elif x.startswith('//@before '):
            mm = re.match(r'//@before /(.*?)/\|(.*)', x)
            add_line(d['before'], mm.group(1), mm.group(2))
        elif x.startswith('//@after '):
            mm = re.match(r'//@after /(.*?)/\|(.*)', x)
            add_line(d['after'], mm.group(1), mm.group(2))
        elif x.startswith('//@ret '):
            d['ret'] = x.split()[1]
        elif x.startswith('//@rename '):
            d['rename'] = x.split()[1]
        elif x.startswith('//@cut '):
            dl = x[7:].strip()
            parts = dl[1:].split(dl[0])
            d['cuts'].append((parts[0], parts[1]))
        elif x.startswith('//@annot '):
            dl = x[9:].strip()
            parts = dl[1:].split(dl[0])
            d.setdefault('annots', []).append((parts[0], parts[1]))
        elif x.startswith('//@sig '):
            d['sig'] = x[7:].strip()
        elif x.startswith('//@attr '):
            d['attr'] = x[8:].strip()
        elif x == '//@breakvalue':
            d['breakvalue'] = True
        elif x.startswith('//@bare '):
            d['bare'] = int(x.split()[1])
        elif x == '//@forloops':
            d['forloops'] = True
        elif x == '//@mutloops':
            d['mutloops'] = True
        elif x == '//@ops':
            d['ops'] = True
        elif x.startswith('//@keep '):
            d['keep'] = x.split()[1:]
            d.setdefault('keeps', {})[mv.group(1)] = d['keep']
        elif x == '//@noprobe':
            d['noprobe'] = True
        elif x.startswith('//@self '):
            d['self'] = x[8:].strip()
        elif x == '' or x.startswith('// '):
            pass
        else:
            raise Exception('bad directive %r' % x)
    d['variants'] = variants
    return d, i

LEMMA = 100000  # the probes of lemmas are numbered from here

def generate(root, base, template, probe=False):
    """returns (text, items) where items = [(first_line, last_line, description)]"""
    out, items, drops, incl = [], [], [], []
    want = None
    def emit(text, desc=None):
        a = sum(x.count('\n') + 1 for x in out) + 1
        out.append(text)
        if desc:
            items.append((a, a + text.count('\n'), desc))
    lines = open(os.path.join(base, template)).read().split('\n')
    i = 0
    while i < len(lines):
        ln = lines[i]
        s = ln.strip()
        if s.startswith('//@include '):
            # `probe`: the functions of the file get vacuity probes in this unit (otherwise in another one)
            p = s.split()
            t = open(os.path.join(base, p[1])).read()
            sub = t.split('\n')
            lines[i:i + 1] = sub + ['//@endinclude']
            incl.append(len(p) > 2 and p[2] == 'probe')
            continue
        if s.startswith('//@proved '):
            # the definitions of another unit, and its lemmas without their proofs (discharged in that unit)
            t = open(os.path.join(base, 'units/%s.vrs' % s.split()[1])).read().split('\n')
            t = t[max(n for n, x in enumerate(t) if x.startswith('//@include')) + 1:]
            t = t[:t.index('} // verus!')]
            mark = '#[verifier::external_body] /* proved in unit %s */ ' % s.split()[1]
            lines[i:i + 1] = [re.sub(r'^(?:#\[verifier::\w+\] )?((?:pub )?(?:broadcast )?proof fn )', lambda m: mark + m.group(1), x) for x in t] + ['//@endinclude']
            incl.append(False)
            continue
        if s == '//@endinclude':
            incl.pop()
            i += 1
            continue
        if s.startswith('//@item '):
            p = s.split()
            derive = None
            subs = []
            for x in p[4:]:
                if x.startswith('derive='):
                    derive = x[7:].replace(',', ', ')
            while i + 1 < len(lines) and lines[i + 1].strip().startswith('//@isub '):
                i += 1
                subs.append(parse_sub(lines[i].strip()[8:]))
            emit(do_item(root, p[1], p[2], p[3], derive, subs), '%s %s (%s)' % (p[2], p[3], p[1]))
            i += 1
            continue
        if s.startswith('//@import '):
            # the contract proved by another unit, for the signature in the sources; the body is not looked at
            m = re.match(r'//@import\s+(\w+)\s+(.*)', s)
            other = open(os.path.join(base, 'units/%s.vrs' % m.group(1))).read().split('\n')
            want = norm('//@fn ' + m.group(2))
            k = [n for n, x in enumerate(other) if norm(x.strip()) == want]
            if len(k) != 1:
                raise Exception('import: %d of %s' % (len(k), m.group(2)))
            d, _ = parse_fn(other, k[0])
            t = do_fn(root, d, None, True)
            emit(t, 'imported %s (%s)' % (d['name'], m.group(1)))
            i += 1
            continue
        if s.startswith('//@fn ') or s.startswith('//@closure '):
            i0 = i
            d, i = parse_fn(lines, i)
            for rx, rep in d['cuts']:
                drops.append('%s: closure /%s/ -> %s' % (d['name'], rx, rep))
            for c, rx, rep, w in d['subs']:
                drops.append('%s: /%s/ -> %s' % (d['name'], rx, rep))
            for v in d['variants']:
                dv, _ = parse_fn(lines, i0, v)
                dv['rename'] = d['name'] + '_' + v
                t = do_fn(root, dv, len(items) if probe and all(incl) and not d.get('noprobe') else None)
                emit(t, 'fn %s%s (%s)' % (d['impl'] + '::' if d['impl'] != '-' else '', d['name'], d['file']))
            if d['variants']:
                continue
            t = do_fn(root, d, len(items) if probe and all(incl) and not d.get('noprobe') else None)
            emit(t, 'fn %s%s (%s)' % (d['impl'] + '::' if d['impl'] != '-' else '', d['name'] + ('.' + d['label'] if d.get('closure') else ''), d['file']))
            continue
        emit(ln)
        i += 1
        if probe and all(incl):
            # the lemmas of the unit get vacuity probes too: a premise that cannot hold would verify the probe
            m = re.match(r'\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:broadcast )?proof fn ((?:lemma|theorem)_\w+)', ln)
            if m:
                want = m.group(1)
            elif want and re.search(r'\bfn \w+', re.sub(r'//.*', '', ln)):
                want = None  # a lemma with nothing to ensure
            if want:
                k = re.search(r'\bensures\b(?:\s*#!\[trigger [^\]]*\])?', ln)
                if k:
                    out[-1] = ln[:k.end()] + ' probe(%dint), ' % (LEMMA + i) + ln[k.end():]
                    want = None
    return '\n'.join(out), items, drops

if __name__ == '__main__':
    root, base, tmpl, outp = sys.argv[1:5]
    try:
        text, items, drops = generate(root, base, tmpl)
    except LostAnchor as e:
        print('LOST ANCHOR:', e)
        sys.exit(3)
    open(outp, 'w').write(text)
    for a, b, d in items:
        print(a, b, d)

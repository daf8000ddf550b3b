"""Predicates over one string: which bytes, first and last bytes and lengths they accept (powerset domains)."""
from core import *

NB = 257            # 256 bytes and one value for everything else (a non-ASCII char)
ALLB = (1 << NB) - 1
NL = 2100           # lengths 0 .. NL-1
ALLL = (1 << NL) - 1

def mask(s):
    m = 0
    for c in s:
        m |= 1 << (c if isinstance(c, int) else ord(c))
    return m
def rng(a, b): return sum(1 << i for i in range(a, b + 1))
LOWER, UPPER, DIGIT = rng(97, 122), rng(65, 90), rng(48, 57)
HEXL = DIGIT | rng(97, 102)

CLS = {
    'is_ascii_lowercase': LOWER, 'is_ascii_uppercase': UPPER, 'is_ascii_digit': DIGIT, 'is_ascii_alphabetic': LOWER | UPPER, 'is_ascii_alphanumeric': LOWER | UPPER | DIGIT,
    'is_ascii_hexdigit': HEXL | rng(65, 70), 'is_ascii': rng(0, 127), 'is_ascii_punctuation': rng(33, 47) | rng(58, 64) | rng(91, 96) | rng(123, 126),
    'is_ascii_control': rng(0, 31) | 1 << 127, 'is_ascii_whitespace': mask(b' \t\n\x0c\r'), 'is_ascii_graphic': rng(33, 126),
}

class Unknown(Exception):
    pass

def value(t, env):
    """concrete value of a term whose only variables are in env"""
    if t in env:
        return env[t]
    if t.k == 'int':
        return t.a[0]
    if t.k == 'str' and len(t.a[0]) == 1:
        return ord(t.a[0])
    if t.k == 'phi':
        vs = {value(x, env) for x in t.a[0]}
        if len(vs) == 1:
            return vs.pop()
        raise Unknown(show(t))
    if t.k != 't':
        raise Unknown(show(t))
    op, a = t.a[0], t.a[1]
    if op == 'not':
        return 1 - value(a[0], env)
    if op == 'eq':
        return int(value(a[0], env) == value(a[1], env))
    if op.startswith('bin:') and len(a) == 2:
        x, y = value(a[0], env), value(a[1], env)
        f = {'Lt': x < y, 'Le': x <= y, 'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y, 'Add': x + y, 'Sub': x - y, 'Mul': x * y}
        if op[4:] in f:
            return int(f[op[4:]]) if env.get('wrap') is None else int(f[op[4:]]) % env['wrap']
        if op[4:] == 'Rem' and y: return x % y
        if op[4:] == 'Div' and y: return x // y
        if op[4:] == 'Shr': return x >> y
    if op in ('min', 'max', 'satsub', 'satadd') and len(a) == 2:
        x, y = value(a[0], env), value(a[1], env)
        return {'min': min(x, y), 'max': max(x, y), 'satsub': max(0, x - y), 'satadd': min(x + y, (env.get('wrap') or 1 << 64) - 1)}[op]
    m = re.match(r'^call:core::(?:num::<impl u8>|char::methods::<impl char>)::(\w+)$', op)
    if m:
        n = m.group(1)
        x = value(a[0], env)
        if n in CLS:
            return CLS[n] >> x & 1
        if n == 'to_ascii_lowercase':
            return x + 32 if 65 <= x <= 90 else x
        if n == 'to_ascii_uppercase':
            return x - 32 if 97 <= x <= 122 else x
    raise Unknown(show(t))

class StrPred(Rule):
    """ps: (accepted bytes of completed iterations, byte under examination or None, first, last, length, facts)"""
    init = (0, None, ALLB, ALLB, ALLL, frozenset())
    def __init__(self, x):
        self.x = x
        self.EACH = T('each', x)
        self.unknown = {}

    def vars(self, t):
        """variables of t: {term: slot}"""
        out = {}
        seen = set()
        def go(y):
            if y in seen:
                return
            seen.add(y)
            if y is self.EACH:
                out[y] = 1
            elif y.k == 't' and y.a[0] in ('[0]',) and y.a[1][0] is self.x or y is T('first', self.x):
                out[y] = 2
            elif y.k == 't' and y.a[0] in ('[-1]',) and y.a[1][0] is self.x or y is T('last', self.x):
                out[y] = 3
            elif y.k == 't' and re.search(r'(::len$|^len$)', y.a[0]) and y.a[1] and y.a[1][0] is self.x:
                out[y] = 4
            else:
                for c in kids(y):
                    go(c)
        go(t)
        return out

    def on_call(self, ps, e):
        p, a = e.path, e.args
        if not a or not contains(a[0], self.x):
            return None
        m = re.search(r'slice::<impl \[T\]>::(first|last)$', p)
        if m and a[0] is self.x:
            e.pure = True
            return [(SOME(T(m.group(1), self.x)), ps), (NONE, ps[:4] + (ps[4] & 1,) + ps[5:])] if ps[4] & 1 else [(SOME(T(m.group(1), self.x)), ps)]
        m = re.search(r'str::<impl str>::(starts_with|ends_with)$', p)
        if m and a[0] is self.x:
            v = T('first' if m.group(1) == 'starts_with' else 'last', self.x)
            e.pure = True
            if a[1].k == 'str' and len(a[1].a[0]) == 1:
                return [(T('eq', v, INT(ord(a[1].a[0]))), ps)]
            if a[1].k == 'int':
                return [(T('eq', v, a[1]), ps)]
            raw = e.raw[1]
            if raw.k == 'clos':
                r = []
                for rv, mm, pp in e.eng.apply_value(raw, [v], e.mem, ps, e.eng.sub(e.fr, 'pat')):
                    r.append((rv, pp))
                return r
            if a[1].k == 'arr' and all(q.k == 'int' for q in a[1].a[0]):
                return self.split(ps, v, 2 if m.group(1) == 'starts_with' else 3, mask([q.a[0] for q in a[1].a[0]]))
            f = (m.group(1), a[1].a[0] if a[1].k == 'str' else show(a[1]))
            return [(TRUE, ps[:5] + (ps[5] | {f + (True,)},)), (FALSE, ps[:5] + (ps[5] | {f + (False,)},))]
        m = re.search(r'str::<impl str>::parse$', p)
        if m:
            t = (e.targs or ('',))[0]
            e.pure = True
            return [(OK(T('parsed', a[0])), ps[:5] + (ps[5] | {('parse', t, True)},)), (ERR(T('not-parsed')), ps[:5] + (ps[5] | {('parse', t, False)},))]
        if re.search(r'str::<impl str>::is_empty$', p) and a[0] is self.x:
            e.pure = True
            return self.split(ps, None, 4, 1)
        if re.search(r'str::<impl str>::(chars|bytes|as_bytes)$', p) and a[0] is self.x:
            e.pure = True
            return [(self.x, ps)]
        return None

    def split(self, ps, v, slot, yes):
        """fork on membership of a variable"""
        full = ALLL if slot == 4 else ALLB
        cur = ps[slot] if ps[slot] is not None else full
        out = []
        for val, s in ((TRUE, cur & yes), (FALSE, cur & ~yes)):
            if s:
                out.append((val, ps[:slot] + (s,) + ps[slot + 1:]))
        return out

    def on_branch(self, ps, v, eng, mem):
        vs = self.vars(v)
        if not vs:
            return None
        slots = set(vs.values())
        if len(slots) != 1:
            self.unknown[show(v)] = 1
            return None
        slot = slots.pop()
        n = NL if slot == 4 else NB
        cur = ps[slot]
        if cur is None:
            cur = ALLL if slot == 4 else ALLB
        groups = {}
        tg = eng.sw_targets or [0]
        try:
            for i in range(n):
                if cur >> i & 1:
                    r = value(v, {t: i for t in vs})
                    r = int(r) if int(r) in tg else ('else',)
                    groups[r] = groups.get(r, 0) | 1 << i
        except Unknown as x:
            self.unknown[str(x)] = 1
            return None
        out = []
        for r, s in groups.items():
            if r == ('else',):
                r = next(q for q in range(1, 10 ** 6) if q not in tg)
            out.append((r, ps[:slot] + (s,) + ps[slot + 1:]))
        return out

    def on_next(self, ps, path, site, src, tag, e, eng, mem):
        if src is not self.x:
            return ps
        seen, cur = ps[0], ps[1]
        if cur is not None:
            seen |= cur
        return (seen, ALLB if tag == 'item' else None) + ps[2:]

def text(m):
    """readable form of a byte set"""
    out = []
    i = 0
    while i < NB:
        if m >> i & 1:
            j = i
            while j + 1 < NB and m >> (j + 1) & 1:
                j += 1
            c = lambda q: chr(q) if 32 < q < 127 else '\\x%02x' % q
            out.append(c(i) if i == j else c(i) + '-' + c(j))
            i = j
        i += 1
    return ' '.join(out)

def run_pred(ctx, body, x=T('arg:x')):
    r = StrPred(x)
    e = Engine(ctx.facts, r)
    outs = []
    for rv, m, ps in e.run(body, [x] + [T('arg%d' % i) for i in range(1, body['argc'])], {}, r.init, 0):
        rv = e.snap(m, rv)
        # a result which is still a condition is decided here
        for v in members(rv):
            if v.k == 'int':
                outs.append((v, ps))
                continue
            rr = r.on_branch(ps, v, e, m)
            if rr is None:
                outs.append((v, ps))
            else:
                outs += [(INT(int(bool(n))), p) for n, p in rr]
    ctx.absorb(e)
    return r, outs

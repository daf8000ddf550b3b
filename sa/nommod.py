"""nom parser combinators.

Constructors become terms which keep their arguments (parsers, literals, closures).  Applying a parser to an input of
known elements evaluates it element by element; applying it to an opaque input gives terms (see grammar.py)."""
from lists import *

CONS = re.compile(r'^nom::(?:bytes|character|combinator|sequence|branch|multi|number)::(?:complete::|streaming::)?(\w+)$')
APPL = re.compile(r'^nom::(?:bytes|character|combinator|sequence|branch|multi|number)::(?:complete::|streaming::)?(\w+)::\{closure#0\}$')
PLAIN = {'digit0', 'digit1', 'multispace0', 'multispace1', 'space0', 'space1', 'hex_u32', 'alpha0', 'alpha1', 'alphanumeric0', 'alphanumeric1', 'crlf', 'rest', 'hex_digit0', 'hex_digit1', 'line_ending', 'anychar'}
WS = frozenset(map(ord, ' \t\r\n'))
CLASS = {'digit': frozenset(range(48, 58)), 'multispace': WS, 'space': frozenset(map(ord, ' \t')), 'alpha': frozenset(range(65, 91)) | frozenset(range(97, 123))}
CLASS['alphanumeric'] = CLASS['alpha'] | CLASS['digit']
CLASS['hex_digit'] = CLASS['digit'] | frozenset(b'abcdefABCDEF')

NOMERR = ERR(T('nom-error'))
REST = T('nom-rest')

class Bad(Exception):
    pass

def chars(v):
    """elements of a text or byte slice, or None"""
    if v.k == 'str':
        return [INT(ord(c)) for c in v.a[0]]
    return exact(v)

def parser_of(eng, mem, v):
    n = 0
    while v.k == 'ref' and n < 8:
        v, n = eng.load(mem, v.a[0], v.a[1]), n + 1
    return v

def is_parser(v):
    return v.k == 't' and v.a[0].startswith('nom:') or v.k == 'fn' and (m := CONS.match(v.a[0][4])) is not None and m.group(1) in PLAIN

def input_arg(e):
    v = e.raw[1] if len(e.raw) > 1 else None
    if v is None:
        return None
    if v.k == 'tup':
        v = v.a[0][0] if len(v.a[0]) == 1 else v
    return e.eng.snap(e.mem, v)

class NomMixin:
    """on_call hook: nom(ps, e)"""
    def nom(self, ps, e):
        m = CONS.match(e.path) or CONS.match(e.decl)
        if m:
            n = m.group(1)
            if n in PLAIN:
                return self.parse_call(ps, e, e_fn(n), e.args[0])
            return [(T('nom:' + n, *[parser_of(e.eng, e.mem, a) if a.k == 'ref' and is_parser(parser_of(e.eng, e.mem, a)) else (e.eng.snap(e.mem, a) if a.k != 'clos' else a) for a in e.raw]), ps, e.mem)]
        m = APPL.match(e.path)
        if m or e.path.startswith('nom::') and e.path.endswith('}') and len(e.raw) > 1:
            p = parser_of(e.eng, e.mem, e.raw[0])
            if is_parser(p):
                return self.parse_call(ps, e, p, input_arg(e))
        if e.path == 'call:value' and is_parser(parser_of(e.eng, e.mem, e.raw[0])):
            return self.parse_call(ps, e, parser_of(e.eng, e.mem, e.raw[0]), input_arg(e))
        return None

    def parse_call(self, ps, e, p, inp):
        xs = chars(inp) if inp is not None else None
        if xs is None:
            return self.parse_opaque(ps, e, p, inp)
        txt = inp.k == 'str'
        try:
            res = self.ev_nom(e, p, xs, txt, ps, e.mem)
        except Bad as b:
            raise Limit('parser ' + str(b))
        return [(OK(TUP(wrap(r[1], txt), r[2])) if r[0] else NOMERR, p2, m2) for r, p2, m2 in res]

    def within(self, x, cls):
        """is the character in the class (None: not known)"""
        return x.a[0] in cls if x.k == 'int' else None

    def parse_opaque(self, ps, e, p, inp):
        return None

    def ev_nom(self, e, p, xs, txt, ps, mem):
        """[((ok, rest, out), ps, mem)]"""
        p = parser_of(e.eng, mem, p)
        FAIL = [((False, None, None), ps, mem)]
        if p.k == 'fn':
            m = CONS.match(p.a[0][4])
            if not m:
                raise Bad('fn ' + p.a[0][0])
            op, a = m.group(1), ()
        elif p.k == 'clos':
            out = []
            for rv, m, p2 in e.eng.apply_value(p, [wrap(xs, txt)], mem, ps, e.eng.sub(e.fr, ('nom', len(e.stack)))):
                for x in members(e.eng.snap(m, rv)):
                    if is_ok(x):
                        t = x.a[2][0]
                        out.append(((True, chars(t.a[0][0]), t.a[0][1]), p2, m))
                    else:
                        out.append(((False, None, None), p2, m))
            return out
        elif p.k == 't' and p.a[0].startswith('nom:'):
            op, a = p.a[0][4:], p.a[1]
        else:
            raise Bad(show(p)[:80])
        one = lambda n, out=None: [((True, xs[n:], wrap(xs[:n], txt) if out is None else out), ps, mem)]
        known = lambda x: x.k == 'int'
        if op in ('tag', 'tag_no_case'):
            lit = chars(a[0])
            if lit is None:
                raise Bad('tag')
            if len(xs) < len(lit):
                return FAIL
            cur = [(ps, mem)]
            bad = []
            for x, y in zip(xs, lit):
                nxt = []
                for p0, m0 in cur:
                    if known(x) and known(y):
                        c = lambda z: z.a[0] | 32 if op == 'tag_no_case' and chr(z.a[0]).isalpha() else z.a[0]
                        (nxt if c(x) == c(y) else bad).append((p0, m0))
                        continue
                    for v, p2 in e.eng.truth(e.eng.eq(x, y), p0, m0):
                        (nxt if v else bad).append((p2, m0))
                cur = nxt
            return [((True, xs[len(lit):], wrap(xs[:len(lit)], txt)), p2, m2) for p2, m2 in cur] + [((False, None, None), p2, m2) for p2, m2 in bad]
        if op == 'take':
            n = a[0]
            if n.k != 'int':
                raise Bad('take')
            return one(n.a[0]) if len(xs) >= n.a[0] else FAIL
        if op in ('take_till', 'take_till1', 'take_while', 'take_while1'):
            stop = op.startswith('take_till')
            cur, done = [(ps, mem)], []
            for i, x in enumerate(xs):
                nxt = []
                for p0, m0 in cur:
                    for v, p2, m2 in self.pred(e, a[0], x, p0, m0):
                        (done if bool(v) == stop else nxt).append((p2, m2) if bool(v) != stop else (i, p2, m2))
                cur = nxt
                if len(done) > 500:
                    raise Bad('paths')
            done += [(len(xs), p2, m2) for p2, m2 in cur]
            return [((False, None, None), p2, m2) if i == 0 and op.endswith('1') else ((True, xs[i:], wrap(xs[:i], txt)), p2, m2) for i, p2, m2 in done]
        if op in ('is_a', 'is_not'):
            lit = chars(a[0])
            n = 0
            while n < len(xs):
                if not known(xs[n]):
                    raise Bad(op)
                if (xs[n] in lit) != (op == 'is_a'):
                    break
                n += 1
            return one(n) if n else FAIL
        if op[:-1] in CLASS and op[-1] in '01':
            n = 0
            while n < len(xs):
                w = self.within(xs[n], CLASS[op[:-1]])
                if w is None:
                    raise Bad(op + ' of ' + show(xs[n]))
                if not w:
                    break
                n += 1
            return one(n) if n or op[-1] == '0' else FAIL
        if op == 'hex_u32':
            n = 0
            while n < len(xs) and known(xs[n]) and xs[n].a[0] in CLASS['hex_digit']:
                n += 1
            if not n or n < len(xs) and not known(xs[n]):
                if not n:
                    return FAIL
                raise Bad('hex')
            n = min(n, 8)
            return one(n, INT(int(bytes(x.a[0] for x in xs[:n]).decode(), 16)))
        if op == 'rest':
            return one(len(xs))
        seq = lambda ps_: list(ps_.a[0]) if ps_.k == 'tup' else [ps_]
        if op in ('tuple', 'pair', 'separated_pair', 'delimited', 'preceded', 'terminated'):
            ps_ = seq(a[0]) if op == 'tuple' else list(a)
            cur = [(xs, [], ps, mem)]
            out = []
            for q in ps_:
                nxt = []
                for ys, acc, p0, m0 in cur:
                    for r, p2, m2 in self.ev_nom(e, q, ys, txt, p0, m0):
                        if r[0]:
                            nxt.append((r[1], acc + [r[2]], p2, m2))
                        else:
                            out.append(((False, None, None), p2, m2))
                cur = nxt
            pick = {'tuple': lambda o: TUP(*o), 'pair': lambda o: TUP(*o), 'separated_pair': lambda o: TUP(o[0], o[2]), 'delimited': lambda o: o[1], 'preceded': lambda o: o[1], 'terminated': lambda o: o[0]}[op]
            return out + [((True, ys, pick(acc)), p2, m2) for ys, acc, p2, m2 in cur]
        if op == 'alt':
            out = []
            cur = [(ps, mem)]
            for q in seq(a[0]):
                nxt = []
                for p0, m0 in cur:
                    for r, p2, m2 in self.ev_nom(e, q, xs, txt, p0, m0):
                        if r[0]:
                            out.append((r, p2, m2))
                        else:
                            nxt.append((p2, m2))
                cur = nxt
            return out + [((False, None, None), p2, m2) for p2, m2 in cur]
        if op in ('all_consuming', 'opt', 'recognize', 'verify', 'map', 'map_res', 'map_opt', 'value', 'complete', 'cut'):
            out = []
            for r, p2, m2 in self.ev_nom(e, a[1] if op == 'value' else a[0], xs, txt, ps, mem):
                if op == 'opt':
                    out.append(((True, r[1], SOME(r[2])) if r[0] else (True, xs, NONE), p2, m2))
                elif not r[0]:
                    out.append((r, p2, m2))
                elif op == 'all_consuming':
                    out.append((r if not r[1] else (False, None, None), p2, m2))
                elif op == 'recognize':
                    out.append(((True, r[1], wrap(xs[:len(xs) - len(r[1])], txt)), p2, m2))
                elif op == 'value':
                    out.append(((True, r[1], a[0]), p2, m2))
                elif op == 'verify':
                    for v, p3, m3 in self.pred(e, a[1], r[2], p2, m2):
                        out.append((r if v else (False, None, None), p3, m3))
                elif op in ('complete', 'cut'):
                    out.append((r, p2, m2))
                else:
                    for rv, m3, p3 in self.call(e, a[1], [r[2]], m2, p2):
                        for y in members(e.eng.snap(m3, rv)):
                            if op == 'map':
                                out.append(((True, r[1], y), p3, m3))
                            elif y.k == 'adt' and y.a[0] in (RESULT, OPTION):
                                good = is_ok(y) or y.a[0] == OPTION and y.a[1] == 1
                                out.append(((True, r[1], y.a[2][0]) if good else (False, None, None), p3, m3))
                            else:
                                raise Bad(op + ' gives ' + show(y)[:80])
            return out
        raise Bad('unknown parser ' + op)

    def call(self, e, f, args, mem, ps):
        return e.eng.apply_value(f, args, mem, ps, e.eng.sub(e.fr, ('nomf', len(e.stack))))

    def pred(self, e, f, x, ps, mem):
        out = []
        for rv, m, p in self.call(e, f, [x], mem, ps):
            for v, p2 in e.eng.truth(rv, p, m):
                out.append((v, p2, m))
        return out

def wrap(xs, txt):
    if txt and all(x.k == 'int' for x in xs):
        return STR(''.join(chr(x.a[0]) for x in xs))
    return ARR(xs)

def e_fn(n):
    return mk('t', 'nom:' + n, ())

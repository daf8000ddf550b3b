"""Texts as lists of symbolic characters: the language a parser accepts and the parts it takes.

A text is a list of characters; a character is known or stands for every member of a class (a digit, a letter, ...).
Parser combinators and the splitting functions of str are evaluated on such texts; a condition which is the same for
every member of the classes involved is decided, any other is followed both ways and kept."""
from nommod import *
from preds import value, Unknown
import itertools

CLASSES = {'digit': list(range(48, 58)), 'letter': [ord('b'), ord('Q'), ord('z')]}
INTS = {'u8': 2, 'u16': 4, 'u32': 9, 'u64': 19, 'usize': 19, 'i8': 2, 'i16': 4, 'i32': 9, 'i64': 18, 'isize': 18, 'u128': 38, 'i128': 38}

def D(i): return T('char:digit', INT(i))
def L(i): return T('char:letter', INT(i))
def klass(x): return CLASSES.get(x.a[0][5:]) if x.k == 't' and x.a[0].startswith('char:') else None
def digits(a, n): return [D(a + i) for i in range(n)]
def letters(a, n): return [L(a + i) for i in range(n)]
def lit(s): return [INT(ord(c)) for c in s]
def TEXT(xs): return wrap(list(xs), True) if xs else STR('')
def NUMBER(xs):
    if xs and all(x.k == 'int' for x in xs):
        return INT(int(''.join(chr(x.a[0]) for x in xs)))
    return T('num', *xs)
def showtext(xs): return ''.join(chr(x.a[0]) if x.k == 'int' else '9' if x.a[0].endswith('digit') else 'b' for x in xs)

STRFN = re.compile(r'^(?:core|alloc)::str::<impl str>::(\w+)$|^alloc::string::String::(\w+)$|^core::str::traits::FromStr::from_str$')

class TextRule(NomMixin, Exact):
    """ps: conditions which were followed both ways"""
    init = ()
    def atoms(self, v):
        out, seen = [], set()
        def go(y):
            if y in seen: return
            seen.add(y)
            if klass(y) is not None or y.k == 't' and y.a[0] == 'num':
                out.append(y)
                return
            for c in kids(y): go(c)
        go(v)
        return out

    def within(self, x, cls):
        k = klass(x)
        if k is None:
            return NomMixin.within(self, x, cls)
        got = {c in cls for c in k}
        return got.pop() if len(got) == 1 else None

    def on_branch(self, ps, v, eng, mem):
        t, pos = strip_not(v)
        if t.k == 't' and t.a[0] == 'eq':
            xs, ys = chars(t.a[1][0]), chars(t.a[1][1])
            if xs is not None and ys is not None:
                if len(xs) != len(ys):
                    return [(int(not pos), ps)]
                cur, out = [ps], []
                for p, q in zip(xs, ys):
                    nxt = []
                    for p0 in cur:
                        for b, p2 in eng.truth(eng.eq(p, q), p0, mem):
                            if b: nxt.append(p2)
                            else: out.append((int(not pos), p2))
                    cur = nxt
                return list(dict.fromkeys(out + [(int(pos), p0) for p0 in cur]))
        vs = self.atoms(t)
        if vs and len(vs) <= 2 and all(klass(x) for x in vs):
            try:
                got = {value(t, dict(zip(vs, c))) for c in itertools.product(*map(klass, vs))}
                if len(got) == 1:
                    return [(int(bool(got.pop()) == pos), ps)]
            except Unknown:
                pass
        for c, o in ps:
            if c is t:
                return [(int(o == pos), ps)]
        if len(ps) > 24:
            raise Limit('conditions ' + show(t)[:200])
        return [(int(o == pos), ps + ((t, o),)) for o in (True, False)]
    branch = on_branch

    def special(self, ps, e):
        r = self.nom(ps, e)
        if r is not None:
            return r
        p, a = e.path, e.args
        one = lambda v: [(v, ps, e.mem)]
        m = re.search(r'::(is_ascii_\w+|is_ascii|is_digit|is_numeric|is_alphabetic|is_alphanumeric|is_whitespace)$', p)
        if m and a and klass(a[0]) is not None and len(a) == 1:
            f = {'is_numeric': str.isdigit, 'is_alphabetic': str.isalpha, 'is_alphanumeric': str.isalnum, 'is_whitespace': str.isspace}.get(m.group(1))
            cls = {'is_ascii_digit': '0123456789', 'is_ascii_whitespace': ' \t\n\r\x0c', 'is_ascii_hexdigit': '0123456789abcdefABCDEF'}.get(m.group(1))
            f = f or (lambda c: c in cls) if cls else f or {'is_ascii': lambda c: True, 'is_ascii_alphabetic': str.isalpha, 'is_ascii_alphanumeric': str.isalnum, 'is_ascii_graphic': lambda c: True, 'is_ascii_control': lambda c: False,
                                                            'is_ascii_punctuation': lambda c: False, 'is_ascii_lowercase': str.islower, 'is_ascii_uppercase': str.isupper}.get(m.group(1))
            if f:
                got = {f(chr(c)) for c in klass(a[0])}
                if len(got) == 1:
                    return one(INT(int(got.pop())))
        m = STRFN.match(p)
        if not m or not a:
            return None
        n = m.group(1) or m.group(2) or 'parse'
        xs = chars(a[0])
        if xs is None:
            return None
        if n == 'parse':
            ty = next((t for t in map(str, e.targs or []) if t in INTS), None) if getattr(e, 'targs', None) else None
            return self.number(ps, e, xs, ty)
        if n == 'len' and all(x.k != 'int' or x.a[0] < 128 for x in xs):
            return one(INT(len(xs)))
        if n == 'is_empty':
            return one(INT(int(not xs)))
        if n in ('chars', 'bytes'):
            return one(ITER(xs))
        if n in ('as_bytes', 'as_str', 'to_owned', 'to_string'):
            return one(a[0])
        if n in ('starts_with', 'ends_with', 'strip_prefix', 'strip_suffix'):
            y = [a[1]] if a[1].k == 'int' else chars(a[1])
            if y is None or e.raw[1].k == 'clos':
                return None
            end = n.endswith(('s_with', 'suffix')) and n != 'starts_with'
            hit = lambda: (INT(1) if n.endswith('with') else SOME(TEXT(xs[:len(xs) - len(y)] if end else xs[len(y):])))
            miss = INT(0) if n.endswith('with') else NONE
            if len(y) > len(xs):
                return one(miss)
            part = (xs[len(xs) - len(y):] if end else xs[:len(y)])
            return [(hit() if v else miss, p2, e.mem) for v, p2 in self.same(e, part, y, ps)]
        if n in ('split_once', 'rsplit_once', 'find', 'rfind', 'contains', 'split', 'splitn'):
            pat = a[2] if n == 'splitn' else a[1]
            y = [pat] if pat.k == 'int' else chars(pat)
            sym = {c for x in xs for c in klass(x) or ()}
            if y is None or not y or any(c.k != 'int' or c.a[0] in sym for c in y):
                return None      # (a separator which no symbolic character can be)
            w = [x.a[0] if x.k == 'int' else -1 for x in xs]
            y = [c.a[0] for c in y]
            at = [i for i in range(len(w) - len(y) + 1) if w[i:i + len(y)] == y]
            if n in ('split', 'splitn'):
                out, i0 = [], 0
                lim = a[1].a[0] if n == 'splitn' and a[1].k == 'int' else None
                if n == 'splitn' and lim is None:
                    return None
                for i in at:
                    if i < i0 or lim is not None and len(out) + 1 >= lim:
                        continue
                    out.append(TEXT(xs[i0:i]))
                    i0 = i + len(y)
                return one(ITER(out + [TEXT(xs[i0:])]))
            i = (at[-1] if n.startswith('r') else at[0]) if at else None
            if n == 'contains':
                return one(INT(int(bool(at))))
            if n.endswith('find'):
                return one(NONE if i is None else SOME(INT(i)))
            return one(NONE if i is None else SOME(TUP(TEXT(xs[:i]), TEXT(xs[i + len(y):]))))
        if n in ('trim', 'trim_start', 'trim_end'):
            i, j = 0, len(xs)
            ws = lambda x: x.k == 'int' and chr(x.a[0]).isspace()
            while n != 'trim_end' and i < j and ws(xs[i]): i += 1
            while n != 'trim_start' and j > i and ws(xs[j - 1]): j -= 1
            return one(TEXT(xs[i:j]))
        if n in ('get', 'split_at') or p.endswith('::index'):
            return self.cut(ps, e, xs, n)
        return None

    def text(self, ps, e):
        r = self.special(ps, e)
        if r is not None:
            return r
        if e.path.endswith('core::ops::index::Index<I> for str>::index') or re.search(r'<impl .*Index<.*> for (str|alloc::string::String)>::index$|<(str|alloc::string::String) as core::ops::index::Index<.*>>::index$', e.path):
            xs = chars(e.args[0])
            if xs is not None:
                return self.cut(ps, e, xs, 'index')
        return Exact.text(self, ps, e)

    def cut(self, ps, e, xs, n):
        a = e.args
        if n == 'split_at' and a[1].k == 'int' and a[1].a[0] <= len(xs):
            return [(TUP(TEXT(xs[:a[1].a[0]]), TEXT(xs[a[1].a[0]:])), ps, e.mem)]
        v = a[1]
        if v.k != 'adt':
            return None
        nm, g = v.a[0].rsplit('::', 1)[-1], [x.a[0] if x.k == 'int' else None for x in v.a[2]]
        if None in g:
            return None
        lo, hi = {'RangeTo': lambda: (0, g[0]), 'RangeFrom': lambda: (g[0], len(xs)), 'Range': lambda: (g[0], g[1]), 'RangeFull': lambda: (0, len(xs))}.get(nm, lambda: (None, None))()
        if lo is None:
            return None
        ok = lo <= hi <= len(xs)
        if n == 'get':
            return [(SOME(TEXT(xs[lo:hi])) if ok else NONE, ps, e.mem)]
        return [(TEXT(xs[lo:hi]), ps, e.mem)] if ok else []

    def same(self, e, xs, ys, ps):
        cur, out = [ps], []
        for p, q in zip(xs, ys):
            nxt = []
            for p0 in cur:
                for b, p2 in e.eng.truth(e.eng.eq(p, q), p0, e.mem):
                    (nxt if b else out).append(p2)
            cur = nxt
        return list(dict.fromkeys([(0, p) for p in out] + [(1, p) for p in cur]))

    def number(self, ps, e, xs, ty):
        """str::parse of an integer type"""
        if ty is None:
            return None
        ys = xs
        if ys and ys[0].k == 'int' and (ys[0].a[0] == 43 or ys[0].a[0] == 45 and ty[0] == 'i'):
            ys = ys[1:]
        bad = ERR(T('parse-error'))
        if not ys or any(not (48 <= x.a[0] < 58) if x.k == 'int' else not x.a[0].endswith('digit') for x in ys):
            return [(bad, ps, e.mem)]
        v = NUMBER(ys)
        if v.k == 'int':
            top = 1 << (int(re.sub(r'\D', '', ty) or 64) - (ty[0] == 'i'))
            return [(OK(v) if v.a[0] < top else bad, ps, e.mem)]
        sure = len(ys) <= INTS[ty] or ty in ('u64', 'usize') and ys[0].k == 'int' and len(ys) == 20 and ys[0].a[0] == 48
        return [(OK(v), ps, e.mem)] + ([] if sure else [(bad, ps, e.mem)])

def satisfiable(ps, env):
    """do the conditions hold for these values of the numbers (None: cannot be said)"""
    for t, o in ps:
        try:
            if bool(value(t, env)) != o:
                return False
        except Unknown:
            return None
    return True

def parse(ctx, pat, xs):
    """-> [(result, conditions)]"""
    r = TextRule()
    e, outs = run_op(ctx.facts, r, ctx.body(pat), [TEXT(xs)])
    ctx.absorb(e, r)
    return [(x, ps) for rv, m, ps in outs for x in members(e.snap(m, rv))]

def unmodelled(t):
    """the condition depends on a call which is not modelled (chrono's own tests of a date are left open)"""
    seen, todo = set(), [t]
    while todo:
        y = todo.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.k == 't' and y.a[0].startswith('call:') and 'chrono' not in y.a[0] and not re.search(r'::(is_\w+|to_ascii_\w+)$', y.a[0]):
            return True
        todo += kids(y)
    return False

def outcomes(ctx, pat, xs, skipped):
    """results of the parser on a text, or None if its code uses something which is not modelled"""
    try:
        got = parse(ctx, pat, xs)
    except Limit as ex:
        skipped.append(showtext(xs) + ': ' + str(ex)[:100])
        return None
    if not got or any(not (is_ok(v) or is_err(v)) or any(unmodelled(t) for t, o in ps) for v, ps in got):
        skipped.append(showtext(xs))
        return None
    return got

def part(ctx, v, name):
    """a field of a structure by its name"""
    if v.k != 'adt':
        return None
    ad = ctx.facts.adts.get(v.a[0])
    fs = ad and ad['variants'][v.a[1]]['fields']
    return v.a[2][fs.index(name)] if fs and name in fs else None

def note(ctx, skipped, what):
    if skipped:
        ctx.assume.append(f'{what}: {len(skipped)} texts not decided, the code uses operations which are not modelled ({skipped[0][:160]})')

def range_syntax(ctx):
    pat = r'headers::range::Range::from_header_str$'
    f, skipped = ctx.facts, []
    ad = f.adts.get('headers::range::Range')
    if not ad:
        return
    form = {i: v['name'] for i, v in enumerate(ad['variants'])}
    def want(word, nums, env):
        if word in ('D-D', 'D-', '-D'):
            v = [env.get(x, x.a[0] if x.k == 'int' else None) for x in nums]
            if word == 'D-D':
                return ('Normal', v[0], v[1]) if v[0] <= v[1] else None
            return ('Normal', v[0], None) if word == 'D-' else ('Suffix', v[0])
        return None
    def got(v, env):
        if not is_ok(v):
            return None
        v = v.a[2][0]
        val = lambda x: value(x, env)
        if form.get(v.a[1]) == 'Normal':
            last = part(ctx, v, 'last')
            return ('Normal', val(part(ctx, v, 'first')), val(last.a[2][0]) if last.a[2] else None)
        return (form.get(v.a[1]), val(part(ctx, v, 'last')))
    def check(xs, word, nums):
        res = outcomes(ctx, pat, xs, skipped)
        if res is None:
            return
        free = [x for x in nums if x.k != 'int']
        for c in itertools.product([0, 1, 2, 98, 99], repeat=len(free)):
            env = dict(zip(free, c))
            w = want(word, nums, env)
            for v, ps in res:
                if satisfiable(ps, env) is False:
                    continue
                try:
                    g = got(v, env)
                except (Unknown, AttributeError):
                    skipped.append(showtext(xs))
                    return
                if g != w:
                    t = showtext(xs)
                    ctx.ob('Range: ' + t, False, 'syntax:' + (word if w else 'refused'), f'the header "Range: {t}"' + (f' with the numbers {", ".join(map(str, c))}' if c else '') + f' is read as {g or "an error"} instead of {w or "an error"}')
                    return
        ctx.ob('Range: ' + showtext(xs), True)
    toks = ['D', '-', ',', ' ', '+', 'x', '=']
    def spell(word, lens=None):
        xs, nums = [], []
        for ch in word:
            if ch == 'D':
                n = digits(100 * len(nums), (lens or [2, 2, 2])[len(nums)])
                xs, nums = xs + n, nums + [NUMBER(n)]
            else:
                xs = xs + lit(ch)
        return xs, nums
    words = [''.join(w) for k in range(4) for w in itertools.product(toks, repeat=k) if 'DD' not in ''.join(w)]
    words += ['D-D'[:i] + t + 'D-D'[i:] for i in range(4) for t in toks if t != 'D'] + ['D-D-D', 'D-D,D-D', '-D-', '--D']
    for w in dict.fromkeys(words):
        xs, nums = spell(w, [2] * 4)
        check(lit('bytes=') + xs, w, nums)
    for w in ('D-D', 'D-', '-D'):
        for lens in ([1, 1], [1, 19], [19, 19], [10, 11]):
            xs, nums = spell(w, lens)
            check(lit('bytes=') + xs, w, nums)
        for n in ('18446744073709551615', '18446744073709551616', '9' * 25):
            xs, nums = [], []
            for ch in w:
                xs += lit(n if ch == 'D' else ch)
                nums += [INT(int(n))] if ch == 'D' else []
            check(lit('bytes=') + xs, w if int(n) < 1 << 64 else 'too large', nums)
        for pre in ('', 'bytes', 'byte=', 'bytes:', 'xbytes=', 'items=', '='):
            xs, nums = spell(w)
            check(lit(pre) + xs, 'other unit', nums)
    note(ctx, skipped, 'the syntax of Range')

def date_syntax(ctx):
    pat = r'headers::amz_date::AmzDate::from_header_str$'
    skipped = []
    good = digits(0, 8) + lit('T') + digits(8, 6) + lit('Z')
    names = [('year', 0, 4), ('month', 4, 2), ('day', 6, 2), ('hour', 8, 2), ('minute', 10, 2), ('second', 12, 2)]
    res = outcomes(ctx, pat, good, skipped)
    for v, ps in res or []:
        if not is_ok(v):
            ctx.ob('x-amz-date: YYYYMMDD\'T\'HHMMSS\'Z\' is accepted', False, 'date:refused', 'a well formed x-amz-date is refused' + (f' if {show(ps[0][0])[:120]} is {ps[0][1]}' if ps else ''))
            continue
        for n, i, k in names:
            x = part(ctx, v.a[2][0], n)
            if x is None:
                skipped.append('the field ' + n)
                continue
            ctx.ob(f'x-amz-date: the {n} is digits {i + 1} to {i + k}', x is NUMBER(digits(i, k)), 'date:' + n, f'the {n} of an x-amz-date is {show(x)[:160]}')
    bad = [good[:i] + c + good[i + 1:] for i in range(16) for c in (letters(0, 1), lit('+'), lit('-'), lit(' '), [], [good[i], digits(50, 1)[0]])]
    bad += [[], good[:15], good + lit('Z'), good[:8] + good[9:15], digits(0, 8)]
    for xs in bad:
        if len(xs) == 16 and all(x is y or klass(x) == klass(y) == CLASSES['digit'] for x, y in zip(xs, good)):
            continue
        res = outcomes(ctx, pat, xs, skipped)
        if res is not None:
            t = showtext(xs)
            ctx.ob('x-amz-date: refused: ' + t, not any(is_ok(v) for v, ps in res), 'date:accepted', f'the malformed x-amz-date "{t}" is accepted')
    note(ctx, skipped, 'the syntax of x-amz-date')

def authorization_syntax(ctx):
    pat = r'headers::authorization_v4::AuthorizationV4::.*from_header_str$'
    skipped = []
    S = lambda i: letters(10 * i, 2)
    def text(alg=S(0), sp=lit(' '), cr=lit('Credential='), ak=S(1), date=digits(0, 8), region=S(2), service=S(3), tail=lit('aws4_request'), c1=lit(','), sh=lit('SignedHeaders='), hs=(S(4), S(5)), c2=lit(','), si=lit('Signature='), sig=S(6), end=()):
        xs = list(alg) + sp + cr
        for y in (ak, date, region, service):
            xs += list(y) + lit('/') if y is not None else []
        xs += tail + c1 + sh
        for i, h in enumerate(hs):
            xs += (lit(';') if i else []) + h
        return xs + c2 + si + sig + list(end)
    for kw in ({}, {'sp': lit('  ')}, {'sp': lit('\n ')}, {'c1': lit(', '), 'c2': lit(', ')}, {'hs': (S(4),)}, {'hs': (S(4), S(5), S(7))}, {'hs': tuple(letters(1000 + 10 * i, 1) for i in range(40))}, {'region': []}, {'ak': S(1) + digits(30, 1)}, {'end': lit(' \n')}, {'region': S(2) + lit('-') + S(8)},
               {'hs': (S(4) + lit('-') + S(9),)}):
        xs = text(**kw)
        res = outcomes(ctx, pat, xs, skipped)
        if res is None:
            continue
        ctx.ob('Authorization is accepted: ' + showtext(xs), any(is_ok(v) for v, ps in res), 'authorization:refused', f'the well formed Authorization "{showtext(xs)}" is refused')
        for v, ps in res:
            if not is_ok(v):
                ctx.ob('Authorization is only refused for its date', any(contains(t, d) for t, o in ps for d in digits(0, 8)) or not ps, 'authorization:condition', f'the well formed Authorization "{showtext(xs)}" is refused if ' + ', '.join(f'{show(t)[:80]} is {o}' for t, o in ps)[:300])
                continue
            a = v.a[2][0]
            c = part(ctx, a, 'credential')
            for n, x, w in (('algorithm', part(ctx, a, 'algorithm'), S(0)), ('signature', part(ctx, a, 'signature'), S(6)), ('access_key_id', part(ctx, c, 'access_key_id'), kw.get('ak', S(1))), ('date', part(ctx, c, 'date'), digits(0, 8)),
                            ('aws_region', part(ctx, c, 'aws_region'), kw.get('region', S(2))), ('aws_service', part(ctx, c, 'aws_service'), S(3))) if c is not None else ():
                if x is None or chars(x) is None:
                    skipped.append('the field ' + n)
                    continue
                ctx.ob(f'Authorization: {n} of {showtext(xs)}', chars(x) == w, 'authorization:' + n, f'the {n} of "{showtext(xs)}" is read as "{showtext(chars(x))}"')
            hs = part(ctx, a, 'signed_headers')
            hs = exact(hs) if hs is not None else None
            if hs is None or any(chars(h) is None for h in hs):
                skipped.append('the signed headers')
                continue
            ctx.ob('Authorization: the signed headers of ' + showtext(xs), [chars(h) for h in hs] == [list(h) for h in kw.get('hs', (S(4), S(5)))], 'authorization:signed_headers', f'the signed headers of "{showtext(xs)}" are read as {[showtext(chars(h)) for h in hs]}')
    for what, kw in (('no algorithm', {'alg': []}), ('no space', {'sp': []}), ('another keyword', {'cr': lit('Credentials=')}), ('no access key', {'ak': []}), ('a part of the credential missing', {'ak': None}), ('a part of the credential missing', {'service': None}),
                     ('a date of 7 digits', {'date': digits(0, 7)}), ('a date of 9 digits', {'date': digits(0, 9)}), ('letters in the date', {'date': digits(0, 7) + letters(90, 1)}), ('no service', {'service': []}), ('another last part', {'tail': lit('aws4_reques')}),
                     ('more after the last part', {'tail': lit('aws4_requests')}), ('no comma', {'c1': []}), ('no comma', {'c1': lit(' ')}), ('no signed headers', {'hs': ()}), ('no comma', {'c2': []}), ('no signature keyword', {'si': []}), ('more after the signature', {'end': lit(' x')})):
        xs = text(**kw)
        res = outcomes(ctx, pat, xs, skipped)
        if res is not None:
            ctx.ob(f'Authorization: refused: {what}', not any(is_ok(v) for v, ps in res), 'authorization:accepted', f'the malformed Authorization "{showtext(xs)}" ({what}) is accepted')
    note(ctx, skipped, 'the syntax of Authorization')

def date_text(ctx):
    """the texts of an AmzDate"""
    ad = ctx.facts.adts.get('headers::amz_date::AmzDate')
    names = ['year', 'month', 'day', 'hour', 'minute', 'second']
    fs = ad and ad['variants'][0]['fields']
    if not fs or sorted(fs) != sorted(names):
        ctx.assume.append('the texts of AmzDate are not decided: its fields are ' + str(fs))
        return
    F = {n: T('date:' + n) for n in names}
    def pieces(v):
        if v.k == 'str':
            return [v.a[0]] if v.a[0] else []
        if v.k == 't' and v.a[0] == 'cat':
            return [y for x in v.a[1] for y in pieces(x)]
        if v.k == 't' and v.a[0] == 'disp':
            return pieces(v.a[1][0])
        m = re.match(r'^spec:0?(\d)$', v.a[0]) if v.k == 't' else None
        if v.k == 't' and (m or v.a[0] == 'dispint') and v.a[1]:
            x = v.a[1][0]
            while x.k == 't' and x.a[0] in ('disp', 'dispint'):
                x = x.a[1][0]
            for n in names:
                if x is F[n]:
                    return [(n, v.a[0])]
        raise Unknown(show(v))
    d = [('year', 'spec:04'), ('month', 'spec:02'), ('day', 'spec:02')]
    t = [('hour', 'spec:02'), ('minute', 'spec:02'), ('second', 'spec:02')]
    for fn, want in (('to_iso8601', d + ['T'] + t + ['Z']), ('to_date', d)):
        r = TextRule()
        e, outs = run_op(ctx.facts, r, ctx.body(r'headers::amz_date::AmzDate::%s$' % fn), [ADT('headers::amz_date::AmzDate', 0, tuple(F[n] for n in fs))])
        ctx.absorb(e, r)
        for rv, m, ps in outs:
            for v in members(e.snap(m, rv)):
                try:
                    got = pieces(v)
                except Unknown:
                    ctx.assume.append(f'{fn} is not decided: {show(v)[:200]}')
                    continue
                ctx.ob(f'{fn}: the text of a date', got == want, 'date:' + fn, f'{fn} gives {got} instead of {want}')

"""Form uploads (multipart/form-data)."""
from props_chunks import *
import props_chunks

class FormRule(ChunkRule):
    """ps as in ChunkRule; frames are lists of bytes (some of them symbols)"""
    def special(self, ps, e):
        p, a = e.path, e.args
        one = lambda v, mem=None: [(v, ps, e.mem if mem is None else mem)]
        if re.search(r'memchr::(memchr::)?memchr_iter$|memchr::(memchr::)?memrchr_iter$', p):
            xs = exact(a[1])
            if xs is None:
                return None
            cur = [(ps, [])]
            for i, y in enumerate(xs):
                nxt = []
                for p0, hits in cur:
                    for v, p2 in e.eng.truth(e.eng.eq(y, a[0]), p0, e.mem):
                        nxt.append((p2, hits + [INT(i)] if v else hits))
                cur = nxt
            return [(ITER(h if 'memrchr' not in p else h[::-1]), p0, e.mem) for p0, h in cur]
        if re.search(r'memchr.*Iterator>::next$', p):
            ref, v = self.target(e)
            xs = exact(v)
            if xs is None or ref is None:
                return None
            return one(NONE) if not xs else one(SOME(xs[0]), self.store(e, ref, ITER(xs[1:])))
        m = re.search(r'(?:slice::<impl \[T\]>|vec::Vec::<.*>|Vec::<T, A>|bytes::Bytes|BytesMut|ExactSizeIterator.*)::(len|is_empty)$', p)
        if m and exact(a[0]) is not None:
            n = len(exact(a[0]))
            return one(INT(n if m.group(1) == 'len' else int(n == 0)))
        if re.search(r'slice::<impl \[T\]>::(concat|join)$', p) and exact(a[0]) is not None:
            parts = [chars(x) for x in exact(a[0])]
            sep = chars(a[1]) if len(a) > 1 else []
            if all(x is not None for x in parts) and sep is not None:
                out = []
                for i, x in enumerate(parts):
                    out += (sep if i else []) + x
                return one(ARR(out))
        if re.search(r'From<.*>>::from$|Into<.*>>::into$|vec::Vec::?<.*>::into_boxed_slice$|slice::<impl \[T\]>::(to_vec|into_vec)$', p) and exact(a[0]) is not None:
            return one(ARR(exact(a[0])))
        if re.search(r'str::converts::from_utf8$|String::from_utf8$', p) and exact(a[0]) is not None:
            xs = exact(a[0])
            if all(x.k == 'int' for x in xs):
                try:
                    bytes(x.a[0] for x in xs).decode()
                except UnicodeDecodeError:
                    return one(ERR(T('utf8-error')))
            return one(OK(a[0]))
        if re.search(r'memchr::memmem::find$|Finder.*::find$', p):
            xs, ys = exact(a[0]), chars(a[1])
            if xs is None or ys is None:
                return None
            return self.substr(ps, e, xs, ys)
        if p.endswith('httparse::parse_headers'):
            xs = exact(a[0])
            room = exact(a[1])
            if xs is None:
                return None
            return self.headers(ps, e, xs, 2 if room is None else len(room))
        if re.search(r'slice::<impl \[T\]>::split_at$', p):
            xs, i = exact(a[0]), a[1]
            if xs is not None and i.k == 'int':
                if i.a[0] > len(xs):
                    self.beyond(ps, p, e)
                    return []
                return one(TUP(ARR(xs[:i.a[0]]), ARR(xs[i.a[0]:])))
        if re.search(r'slice::<impl \[T\]>::windows$', p) and a[1].k == 'int' and exact(a[0]) is not None:
            xs, n = exact(a[0]), a[1].a[0]
            return one(ITER([ARR(xs[i:i + n]) for i in range(len(xs) - n + 1)]))
        if re.search(r'slice::<impl \[T\]>::contains$', p) and exact(a[0]) is not None:
            return self.scan(ps, e, a[1], exact(a[0]), lambda i: TRUE, FALSE)
        m = re.search(r'slice::<impl \[T\]>::strip_(prefix|suffix)$', p)
        if m:
            xs, ys = exact(a[0]), chars(a[1])
            if xs is not None and ys is not None:
                k = len(ys)
                if len(xs) < k:
                    return one(NONE)
                head, rest = (xs[:k], xs[k:]) if m.group(1) == 'prefix' else (xs[len(xs) - k:], xs[:len(xs) - k])
                return [(SOME(ARR(rest)) if v else NONE, p2, e.mem) for v, p2 in e.eng.truth(e.eng.eq(ARR(head), ARR(ys)), ps, e.mem)]
        m = re.search(r'vec::Vec::<.*>::(push|extend_from_slice|clear|append|truncate)$|vec::Vec<.*> as core::iter::traits::collect::Extend<.*>>::(extend)$|BytesMut::(extend_from_slice)$', p)
        if m:
            n = m.group(1) or m.group(2) or m.group(3)
            ref, v = self.target(e)
            xs = exact(v)
            if xs is not None and ref is not None:
                if n == 'clear':
                    return one(UNIT, self.store(e, ref, ARR([])))
                if n == 'push':
                    return one(UNIT, self.store(e, ref, ARR(xs + [a[1]])))
                if n == 'truncate' and a[1].k == 'int':
                    return one(UNIT, self.store(e, ref, ARR(xs[:a[1].a[0]])))
                ys = chars(a[1])
                if ys is not None and n in ('extend', 'extend_from_slice'):
                    return one(UNIT, self.store(e, ref, ARR(xs + ys)))
        return ChunkRule.special(self, ps, e)

    def substr(self, ps, e, xs, ys):
        cur, out = [ps], []
        for i in range(len(xs) - len(ys) + 1):
            nxt = []
            for p0 in cur:
                live = [p0]
                for x, y in zip(xs[i:], ys):
                    q = []
                    for p1 in live:
                        for v, p2 in e.eng.truth(e.eng.eq(x, y), p1, e.mem):
                            (q if v else nxt).append(p2)
                    live = q
                out += [(SOME(INT(i)), q, e.mem) for q in live]
            cur = nxt
        return out + [(NONE, q, e.mem) for q in cur]

    def headers(self, ps, e, xs, room):
        """header lines of known bytes"""
        one = lambda v: [(v, ps, e.mem)]
        partial = OK(ADT('httparse::Status', 1, ()))
        out, i = [], 0
        while True:
            j = i
            while j < len(xs) and xs[j] is not INT(10):
                if xs[j].k != 'int':
                    raise Limit('a header with unknown bytes')
                j += 1
            if j >= len(xs):
                return one(partial)
            line = bytes(x.a[0] for x in xs[i:j])
            if line.endswith(b'\r'):
                line = line[:-1]
            i = j + 1
            if not line:
                return one(OK(ADT('httparse::Status', 0, (TUP(INT(i), ARR(out)),))))
            n, sep, v = line.partition(b':')
            if not sep or not n or not re.match(rb"^[!#$%&'*+.^_`|~0-9A-Za-z-]+$", n):
                return one(ERR(T('httparse-error')))
            if len(out) >= room:
                return one(ERR(T('too-many-headers')))
            out.append(ADT('httparse::Header', 0, (STR(n.decode()), ARR([INT(c) for c in v.strip(b' \t')]))))

    limit = 60
    def on_branch(self, ps, v, eng, mem):
        t, pos = strip_not(v)
        if t.k == 't' and t.a[0] == 'eq' and exact(t.a[1][0]) is None and exact(t.a[1][1]) is None:
            x, c = t.a[1] if t.a[1][1].k == 'int' else t.a[1][::-1]
            if c.k == 'int':
                known = dict(ps[1])
                # a byte is one byte only
                if t not in known and any(o and q.k == 't' and q.a[0] == 'eq' and x in q.a[1] for q, o in ps[1]):
                    return [(int(not pos), ps)]
                if t not in known:
                    return [(int(o == pos), (ps[0], ps[1] + ((t, o),)) + ps[2:]) for o in (True, False)]
        return ChunkRule.on_branch(self, ps, v, eng, mem)
    branch = on_branch

class Form:
    """a form: what it consists of and its text"""
    def __init__(self, name, fields, data, filename='f.x', ctype='t/p', boundary='bnd', pre='', end='--\r\n', order=0, hname=('Content-Disposition', 'Content-Type')):
        self.name, self.boundary, self.full = name, boundary, False
        self.fields = [(by(n), flatten(v)) for n, v in fields]
        self.data, self.filename, self.ctype = flatten(data), by(filename), by(ctype)
        xs = by(pre)
        self.marks = {0}
        for n, v in self.fields:
            xs += by(f'--{boundary}\r\n{hname[0]}: form-data; name="') + n + by('"\r\n\r\n')
            self.marks |= {len(xs) - 1, len(xs), len(xs) + len(v)}
            xs += v + CRLF
            self.marks |= {len(xs) - 1, len(xs), len(xs) + 2}
        cd = f'{hname[0]}: form-data; name="file"; filename="{filename}"\r\n'
        ct = f'{hname[1]}: {ctype}\r\n'
        xs += by(f'--{boundary}\r\n' + (ct + cd if order else cd + ct) + '\r\n')
        self.start = len(xs)
        xs += self.data
        self.stop = len(xs)
        xs += CRLF + by('--' + boundary)
        self.whole = len(xs)        # the form is complete when this much has arrived
        xs += by(end)
        self.xs = xs
        self.marks |= set(range(self.start - 3, self.whole + 2))

def by(s):
    return [INT(x) for x in s.encode('latin1')]

def flatten(v):
    """text with @ for an arbitrary byte"""
    if isinstance(v, list):
        return v
    return [T('d', INT(next(COUNT))) if c == '@' else INT(ord(c)) for c in v]
COUNT = iter(range(1, 1 << 30))

def parse(ctx, frames, boundary):
    """[(outcome, ps, None or [(end of the file stream, ps)])]"""
    b = [b for b in ctx.facts.find(r'streams::multipart::transform_multipart$') if b['kind'] == 'fn']
    if not b:
        raise Missing('transform_multipart')
    b = b[0]
    r = FormRule(frames)
    e = Engine(ctx.facts, r)
    outs = []
    for rv, m, ps in e.run(b, [T('BODY'), ARR(by(boundary))], {}, r.init, 0):
        e.stack.append((b, 0, 0))
        for r2, m2, p2 in e.poll(rv, m, ps, e.sub(0, 'p'), ''):
            v = e.snap(m2, e.project(m2, r2, ('f', 0, '0')))
            for x in members(v):
                if not is_ok(x):
                    outs.append((x, p2, None))
                    continue
                gen = find(x, lambda z: z.k == 't' and z.a[0] == 'try-stream')
                if not gen:
                    raise Missing('the generator of FileStream')
                ends = []
                for r3, m3, p3 in e.poll(gen[0].a[1][0], m2, p2, e.sub(0, 'q'), ''):
                    ends.append((e.snap(m3, e.project(m3, r3, ('f', 0, '0'))), p3))
                outs.append((x, p2, ends))
        e.stack.pop()
    ctx.absorb(e, r)
    return r, e, b, outs

def exactly(ctx, form, frames, what, good, seen):
    r, e, b, outs = parse(ctx, frames, form.boundary)
    key = what.split(' (')[0]
    def ob(text, ok, k, msg):
        ctx.ob(f'{form.name}, {what}: {text}', ok, f'{k}:{key}', f'{form.name}, {what}: {msg}')
    for ps, xs, trail in r.yields:
        got = list(ps[2]) + list(xs)
        seen['yields'] += 1
        ctx.ob(f'{form.name}, {what}: emitted bytes are those of the file, in order', got == form.data[:len(got)], f'bytes:{key}', f'{form.name}, {what}: the file stream emits bytes that are not those of the file (or twice, or out of order)', trail=trail)
    if not outs:
        raise Missing('no end of transform_multipart')
    for x, ps, ends in outs:
        if ends is None:
            seen['refused'] += 1
            ob('a well-formed form is accepted', good is not True, 'refused', 'a well-formed form is refused')
            continue
        seen['accepted'] += 1
        f = form_parts(x)
        ob('the fields are those of the form', f[0] == form.fields, 'fields', 'the fields handed on are not those of the form')
        ob('the file name and type are those of the form', f[1] == form.filename and f[2] == form.ctype, 'file', 'the file name or type handed on is not that of the form')
        if not ends:
            raise Missing('no end of the file stream')
        for rv, p3 in ends:
            for y in members(rv):
                if is_ok(y):
                    ob('success means the whole file was emitted and its end seen', good is not False and list(p3[2]) == form.data, 'accepted', 'the file stream ends well although ' + ('the form is cut short or broken' if good is False else 'its bytes are not all emitted'))
                else:
                    ob('a well-formed form is accepted', good is not True, 'refused', 'a well-formed form is refused while its file is read')

def form_parts(x):
    m = x.a[2][0]
    fields, file = m.a[2][0], m.a[2][1]
    fs = exact(fields)
    if fs is None:
        raise Limit('fields ' + show(fields)[:100])
    out = []
    for f in fs:
        out.append((text_of(f.a[0][0]), text_of(f.a[0][1])))
    return out, text_of(file.a[2][0]), text_of(file.a[2][1])

def cuts(form, k, all):
    n = len(form.xs)
    ms = sorted(x for x in form.marks if x <= n)
    if k == 1:
        return [(c,) for c in range(n + 1) if all or c in form.marks or c % 4 == 0]
    return [(a, b) for i, a in enumerate(ms) for b in ms[i + 1:] if all or b - a < 5 or b == form.start + 1]

def stream_panics(ctx):
    """paths of the two stream parsers that end in a panic, on arbitrary short bodies and on bodies which are well-formed or nearly so;
    gives the functions examined"""
    F = [Form('a field and a file', [('key', 'm@k')], 'a@@'), Form('an empty file', [('key', ''), ('K', '\n')], '', pre='\r\n', order=1), Form('near misses', [], '\r\n--bn\r@\n--b')]
    C = [Layout('two chunks', [1, 3]), Layout('no chunk', [])]
    jobs = [('size', None, 0)] + [('form', f, k) for f in F for k in range(4)] + [('chunk', l, k) for l in C for k in range(4)] + [('short', None, k) for k in range(2)]
    known = ctx.functions
    ctx.functions = set()
    ctx.parallel(panics_of, jobs)
    mine, ctx.functions = ctx.functions, known | ctx.functions
    return mine

def bodies(xs, k, end):
    """the bodies of one job: (body, frames)"""
    n = len(xs)
    if k == 0:
        for c in range(n + 1):
            yield split(xs, [c])
    elif k == 1:
        for c in range(n):
            yield [xs[:c]]
            if c % 3 == 0:
                yield [xs[:c], 'error']
    elif k == 2:
        # any byte in the place of one, and one byte missing
        for c in range(n):
            yield [xs[:c] + [T('d', INT(10 ** 6))] + xs[c + 1:]]
            yield [xs[:c], xs[c + 1 + c % 2:]]
            if xs[c] is INT(13):
                yield [xs[:c] + xs[c + 2:]]
    else:
        yield [[x] for x in xs]
        for c in range(0, n, 2):
            # any byte more
            yield [xs[:c] + [T('d', INT(10 ** 6))] + xs[c:]]
            if c % 4 == 0:
                yield [xs[:c], [], [T('d', INT(10 ** 6))], xs[c:]]

def panics_of(ctx, job):
    kind, x, k = job
    seen, n = {}, 0
    def run(fn, frames):
        try:
            r = fn(frames)
        except Limit:
            return
        for what, fnp, at, trail in r.boom:
            seen.setdefault((what, fnp), (at, trail))
    if kind == 'size':
        for size in ('ffffffff', 'fffffffe', '7fffffff', '80000000', 'fffffff', '00000000', '0', '100000000', 'ffffffffffffffff'):
            xs = line(size, 'a') + D(1, 3) + CRLF
            for c in (len(xs), len(xs) - 2, len(xs) - 5, 3):
                n += 1
                run(lambda f: decode(ctx, f)[0], split(xs, [c]))
    elif kind == 'short':
        D0 = [T('d', INT(i)) for i in range(4)]
        for fr in ([D0[:1]], [D0[:2]], [D0[:3]], [D0[:1], D0[1:2]], [[], D0[:2]], [D0[:1], D0[1:3]]):
            n += 1
            run((lambda f: parse(ctx, f, 'bnd')[0]) if k else (lambda f: decode(ctx, f)[0]), fr)
    else:
        for fr in bodies(x.xs, k, kind):
            n += 1
            run((lambda f: parse(ctx, f, x.boundary)[0]) if kind == 'form' else (lambda f: decode(ctx, f)[0]), fr)
    for (what, fnp), (at, trail) in seen.items():
        ctx.violate(f'stream:{what}:{fnp}', f'{fnp} panics ({what}) on a body of a {kind}', at, trail)
    if not seen:
        ctx.ob(f'{n} bodies ({kind}, {getattr(x, "name", "any bytes")}, {("divided", "cut", "a byte replaced", "a byte more")[k] if x else k}) lead to no panic', True)

@prop('F01', 'bounded exact interpretation of the form parser and its file stream: bytes of the values and of the file are symbols or near misses of the delimiter; every division into two frames, divisions into three at the boundaries, truncations and failing reads; comparison of the fields, the file name and type, and every emitted byte with those of the form')
def f01(ctx):
    L = [Form('a field and a file', [('key', 'm@k')], 'a@@'),
         Form('no field, near misses', [], '\r\n--bn\r@\n--b'),
         Form('two fields, lines in a value', [('key', 'x\r\n--bn\r\n'), ('k2', '')], '\r\n@\r\n--bn-'),
         Form('an empty file', [('key', '\r'), ('K', '\n')], '', pre='\r\n', order=1, hname=('content-disposition', 'CONTENT-TYPE')),
         Form('carriage returns', [('a', ' --bnd')], '\r\r\n--bn\r\n--bn', end='\r\nmore'),
         Form('a boundary of dashes', [('k', '--')], '@\r\n----@', boundary='----'),
         Form('a boundary with a border', [('ab', '--aa')], 'a\r\n--a\r\n--a', boundary='aab')]
    L[0].full = L[3].full = True
    ctx.parallel(one_form, [(form, part) for form in L for part in range(3)])
    broken_forms(ctx)

def one_form(ctx, item):
    form, part = item
    seen = {'yields': 0, 'accepted': 0, 'refused': 0}
    thorough = ctx.tier == 'thorough'
    if part == 0:
        exactly(ctx, form, [form.xs], 'one frame', True, seen)
        exactly(ctx, form, [[x] for x in form.xs], 'one byte per frame', True, seen)
    if part < 2:
        for c in cuts(form, part + 1, thorough or part == 0 and form.full):
            exactly(ctx, form, split(form.xs, c), f'{("two", "three")[part]} frames (cut {", ".join(map(str, c))})', True, seen)
    else:
        for c in range(form.whole):
            if not (thorough or form.full or c in form.marks or c % 4 == 0):
                continue
            exactly(ctx, form, [form.xs[:c]] if c else [], f'truncated (after {c} bytes)', False, seen)
            if c in form.marks or thorough:
                exactly(ctx, form, [form.xs[:c], 'error', form.xs[c:]], f'read error (after {c} bytes)', False, seen)
    ctx.ob(f'{form.name}: {seen["accepted"]} accepted, {seen["refused"]} refused, {seen["yields"]} emissions', seen['accepted'] + seen['refused'] > 10, 'none', f'{form.name}: only {seen} paths were seen')

def broken_forms(ctx):
    seen = {'yields': 0, 'accepted': 0, 'refused': 0}
    f = Form('a field and a file', [('key', 'k')], 'ab')
    text = bytes(x.a[0] for x in f.xs).decode('latin1')
    for name, t in (('another boundary', text.replace('--bnd', '--bne')), ('no boundary at first', text[text.index('C'):]), ('other disposition', text.replace('form-data', 'attachment')),
                    ('name without its end', text.replace('"key"', '"key')), ('no name', text.replace(' name="key"', '')), ('no file', text[:text.index('--bnd', 8)] + '--bnd--\r\n'),
                    ('one dash', text.replace('--bnd', '-bnd', 1)), ('three dashes', text.replace('--bnd', '---bnd', 1)), ('a longer boundary', text.replace('--bnd', '--bndx', 1))):
        for c in ((), (len(t) // 2,), (4,), (7,)):
            exactly(ctx, f, split(by(t), c), f'{name} (cut {c})', False, seen)

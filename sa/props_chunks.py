"""aws-chunked bodies."""
from nommod import *
from props_auth import built, CRYPTO, glue, flat

SEED, CDATE, CREGION, CSECRET = T('SEED'), T('DATE'), T('REGION'), T('SECRET')
SIGC = {1: 'a', 2: 'b', 3: 'c', 0: 'f'}

def line(size, c, tag=';chunk-signature=', n=64, end='\r\n'):
    return [INT(ord(x)) for x in size + tag + c * n + end]
def D(i, n): return [T('d', INT(i), INT(j)) for j in range(n)]
CRLF = [INT(13), INT(10)]

class ChunkRule(NomMixin, Exact):
    """ps: (next frame, conditions, yielded, verified [(previous, data, signature)])"""
    trace_stop = None
    init = (0, (), (), ())
    def __init__(self, frames):
        Exact.__init__(self)
        self.frames = frames        # lists of elements, or 'error'
        self.yields = []
        self.stream = []
        self.boom = []

    def on_num(self, ps, name, args, eng, mem):
        m = re.match(r'^wrapping_(add|sub|mul)$', name)
        if m and len(args) == 2 and all(x.k == 'int' for x in args) and eng.numty[0] == 'u':
            x, y = args[0].a[0], args[1].a[0]
            n = {'add': x + y, 'sub': x - y, 'mul': x * y}[m.group(1)]
            return [(INT(n % 2 ** (64 if eng.numty == 'usize' else int(eng.numty[1:]))), ps)]
        return Exact.on_num(self, ps, name, args, eng, mem)

    def on_panic(self, ps, what, ev):
        """a panic on a path which only depends on the bytes"""
        eng, b, l, mem, c = ev
        if c is not None and c.k != 'int':
            if not what.startswith('assert:overflow') or c is not T('overflow'):
                return
            bb, blk, _ = eng.stack[-1]
            o = bb['blocks'][blk]['t'][1]
            ty = re.match(r'^\((u\w+), bool\)$', eng.f.ty(bb, bb['locals'][o[1][0]])) if o[0] in ('mv', 'cp') else None
            v = mem.get((eng.frame_now, o[1][0])) if ty else None
            if v is None or v.k != 'tup' or v.a[0][0].k != 'int':
                return
            n = v.a[0][0].a[0]
            if 0 <= n < 2 ** (64 if ty.group(1) == 'usize' else int(ty.group(1)[1:])):
                return
        if all(t.k == 't' and t.a[0] == 'eq' and any(x.k == 'int' for x in t.a[1]) and any(x.k == 't' and x.a[0] == 'd' for x in t.a[1]) for t, v in ps[1]):
            self.boom.append((what, b['path'], '%s:%s' % (b['file'], l), eng.trail()))

    def beyond(self, ps, p, e):
        self.on_panic(ps, p.rsplit('::', 1)[1] + ' beyond the end', (e.eng, e.body, int(e.loc.rsplit(':', 1)[1]) if e.loc else 0, e.mem, None))

    def enter(self, ps, body, args, eng, mem):
        m = re.search(r'signature_v4::(create_chunk_string_to_sign|calculate_signature)$', body['path'])
        if m:
            return [(T(m.group(1), *[eng.snap(mem, a) for a in args]), ps)]
        return None

    def next(self, ps, k, ref, e):
        i = ps[0]
        if i >= len(self.frames):
            return [(NONE if k == 'next' else OK(NONE), ps, e.mem)]
        f = self.frames[i]
        ps = (i + 1,) + ps[1:]
        if f == 'error':
            return [(SOME(ERR(T('read-error'))) if k == 'next' else ERR(T('read-error')), ps, e.mem)]
        v = ARR(f)
        return [(SOME(OK(v)) if k == 'next' else OK(SOME(v)), ps, e.mem)]

    def on_branch(self, ps, v, eng, mem):
        t, pos = strip_not(v)
        if t.k == 't' and t.a[0] == 'eq':
            x, y = t.a[1]
            for s, w in ((x, y), (y, x)):
                s1 = s
                while s1.k == 't' and s1.a[0].startswith('call:') and s1.a[0].endswith(('as_bytes', 'as_ref', 'into_bytes', 'deref')):
                    s1 = s1.a[1][0]
                if s1.k == 't' and s1.a[0] == 'calculate_signature':
                    good = ps[:3] + (ps[3] + ((s1, w),),)
                    return [(int(pos), good), (int(not pos), ps)]
            xs, ys = chars(x), chars(y)
            if xs is not None and ys is not None:
                if len(xs) != len(ys):
                    return [(int(not pos), ps)]
                cur, out = [ps], []
                for p, q in zip(xs, ys):
                    nxt = []
                    for p0 in cur:
                        for v, p2 in eng.truth(eng.eq(p, q), p0, mem):
                            if v: nxt.append(p2)
                            else: out.append((int(not pos), p2))
                    cur = nxt
                return out + [(int(pos), p0) for p0 in cur]
        known = dict(ps[1])
        if t in known:
            return [(int(known[t] == pos), ps)]
        if len(ps[1]) > 12:
            raise Limit('conditions ' + ' '.join(show(c)[:200] for c, o in ps[1][:3]))
        return [(int(o == pos), (ps[0], ps[1] + ((t, o),)) + ps[2:]) for o in (True, False)]
    branch = on_branch

    def special(self, ps, e):
        r = self.nom(ps, e)
        if r is not None:
            return r
        p, a = e.path, e.args
        one = lambda v, mem=None: [(v, ps, e.mem if mem is None else mem)]
        if p.endswith('AsyncTryStream::<T, E, G>::new') or re.search(r'AsyncTryStream::.*::new$', p):
            # the generator is made at once and run later
            out = []
            for c, m2, p2 in e.eng.apply_value(e.raw[0], [T('Y')], e.mem, ps, e.eng.sub(e.fr, 'gen')):
                self.stream.append(c)
                out.append((T('try-stream', c), p2, m2))
            return out
        if re.search(r'Yielder::.*::yield_ok$', p):
            xs = exact(a[-1])
            if xs is None:
                raise Limit('yielded ' + show(a[-1])[:80])
            self.yields.append((ps, xs, e.eng.trail()))
            return [(T('fut-yield'), ps[:2] + (ps[2] + tuple(xs),) + ps[3:], e.mem)]
        m = re.search(r'Bytes(?:Mut)?(?: as bytes::buf::buf_impl::Buf>)?::(split_to|split_off|advance|truncate|slice|clear|copy_to_bytes|copy_from_slice|from_static)$', p)
        if m:
            n = m.group(1)
            if n in ('copy_from_slice', 'from_static'):
                xs = chars(a[0])
                return None if xs is None else one(ARR(xs))
            ref, v = self.target(e)
            xs = exact(e.eng.snap(e.mem, v))
            if xs is None:
                return None
            k = a[1].a[0] if len(a) > 1 and a[1].k == 'int' else None
            if n == 'clear':
                return one(UNIT, self.store(e, ref, ARR([])))
            if n == 'slice':
                lo, hi = rng(a[1], len(xs))
                return one(ARR(xs[lo:hi]))
            if k is None:
                return None
            if k > len(xs) and n != 'truncate':
                self.beyond(ps, p, e)
                return []
            if n in ('split_to', 'copy_to_bytes'):
                return one(ARR(xs[:k]), self.store(e, ref, ARR(xs[k:])))
            if n == 'split_off':
                return one(ARR(xs[k:]), self.store(e, ref, ARR(xs[:k])))
            return one(UNIT, self.store(e, ref, ARR(xs[k:] if n == 'advance' else xs[:k])))
        if re.search(r'memchr::memchr$|memchr::memchr::memchr$', p):
            xs = exact(a[1])
            if xs is None:
                return None
            return self.scan(ps, e, a[0], xs, lambda i: SOME(INT(i)), NONE)
        if re.search(r'slice::<impl \[T\]>::starts_with$|slice::<impl \[T\]>::ends_with$', p):
            xs, ys = exact(a[0]), chars(a[1])
            if xs is None or ys is None:
                return None
            if len(xs) < len(ys):
                return one(FALSE)
            cur, bad = [ps], []
            for x, y in zip(xs if p.endswith('starts_with') else xs[-len(ys):], ys):
                nxt = []
                for p0 in cur:
                    for v, p2 in e.eng.truth(e.eng.eq(x, y), p0, e.mem):
                        (nxt if v else bad).append(p2)
                cur = nxt
            return [(TRUE, q, e.mem) for q in cur] + [(FALSE, q, e.mem) for q in bad]
        m = re.search(r'(?:slice::index|array|bytes_mut|bytes::bytes|vec)::.*Index<.*>::(index)$|slice::<impl \[T\]>::(get|split_at)$|Bytes.* as core::ops::.*Index.*::(index)$', p)
        if m and len(a) == 2:
            xs, i = exact(a[0]), a[1]
            if xs is None:
                return None
            f = m.group(1) or m.group(2) or m.group(3)
            ok = lambda v: one(SOME(v) if f == 'get' else v)
            if i.k == 'int' and f != 'split_at':
                if i.a[0] < len(xs):
                    return ok(xs[i.a[0]])
            elif i.k == 'int':
                if i.a[0] <= len(xs):
                    return one(TUP(ARR(xs[:i.a[0]]), ARR(xs[i.a[0]:])))
            elif i.k == 'adt' and all(x.k == 'int' for x in i.a[2]):
                lo, hi = rng(i, len(xs))
                if lo <= hi <= len(xs):
                    return ok(ARR(xs[lo:hi]))
            else:
                return None
            if f == 'get':
                return one(NONE)
            self.beyond(ps, p, e)
            return []
        if re.search(r'TryInto<.*>>::try_into$|TryFrom<.*>>::try_from$', p) and a and a[0].k == 'int':
            return one(OK(a[0]))
        if e.kind == 'await' or 'StreamExt::' in p or 'TryStreamExt::' in p:
            return FsRule.on_call(self, ps, e)
        return None

    def scan(self, ps, e, x, xs, hit, miss):
        cur, out = [ps], []
        for i, y in enumerate(xs):
            nxt = []
            for p0 in cur:
                for v, p2 in e.eng.truth(e.eng.eq(y, x), p0, e.mem):
                    if v:
                        out.append((hit(i), p2, e.mem))
                    else:
                        nxt.append(p2)
            cur = nxt
        return out + [(miss, q, e.mem) for q in cur]

    def await_other(self, ps, e, s):
        if s.k == 't' and s.a[0] == 'fut-yield':
            return [(UNIT, ps)]
        return Exact.await_other(self, ps, e, s)

def rng(v, n):
    g = lambda x: x.a[0]
    if v.k == 'adt':
        nm = v.a[0].rsplit('::', 1)[1]
        if nm == 'RangeTo': return 0, g(v.a[2][0])
        if nm == 'RangeFrom': return g(v.a[2][0]), n
        if nm == 'Range': return g(v.a[2][0]), g(v.a[2][1])
        if nm == 'RangeFull': return 0, n
    raise Limit('range ' + show(v)[:60])

def decode(ctx, frames):
    b = ctx.body(r'AwsChunkedStream::new$')
    r = ChunkRule(frames)
    e = Engine(ctx.facts, r)
    outs = []
    for rv, m, ps in e.run(b, [T('BODY'), SEED, CDATE, CREGION, CSECRET], {}, r.init, 0):
        if len(r.stream) != 1:
            raise Missing('the generator of AwsChunkedStream')
        e.stack.append((b, 0, 0))
        for r2, m3, p3 in e.poll(r.stream[0], m, ps, e.sub(0, 'p'), ''):
            outs.append((e.snap(m3, e.project(m3, r2, ('f', 0, '0'))), p3))
        e.stack.pop()
    ctx.absorb(e, r)
    return r, outs

def split(xs, cuts):
    out, a = [], 0
    for c in list(cuts) + [len(xs)]:
        out.append(xs[a:c])
        a = c
    return out

EMPTY_SHA = 'e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855'

def sig_text(v):
    return [INT(ord(c)) for c in v]

def unbox(v):
    while v.k == 't' and v.a[0].startswith('call:') and len(v.a[1]) == 1 and re.search(r'::(from|into|clone|to_owned|to_string|as_bytes|as_ref|deref|into_boxed_str|into_bytes|as_str)$', v.a[0]):
        v = v.a[1][0]
    return v

def text_of(v):
    v = unbox(v)
    xs = chars(v)
    return xs if xs is not None else v

def deep(v):
    xs = exact(v)
    if xs is None:
        return None
    out = []
    for x in xs:
        y = exact(x)
        out += [x] if y is None else y
    return out

class Layout:
    """an aws-chunked body: chunks [(data, signature letter)], the frames it arrives in, and what is wrong with it"""
    def __init__(self, name, sizes, sizetext=None, broken=None, cut=None):
        self.name = name
        self.data = [D(i + 1, n) for i, n in enumerate(sizes)] + [[]]
        self.sigs = ['abcd'[i] * 64 for i in range(len(sizes))] + ['f' * 64]
        xs = []
        self.marks = {0}
        for i, d in enumerate(self.data):
            st = (sizetext or {}).get(i, '%x' % len(d))
            l = line(st, self.sigs[i][0])
            if broken and broken[0] == i and broken[1] == 'line':
                l = [INT(ord(c)) for c in broken[2].replace('SIG', self.sigs[i])]
            end = CRLF
            if broken and broken[0] == i and broken[1] == 'end':
                end = [INT(ord(c)) for c in broken[2]]
            self.marks |= {len(xs) + 1, len(xs) + len(l) - 1, len(xs) + len(l), len(xs) + len(l) + len(d), len(xs) + len(l) + len(d) + 1}
            self.lastline = len(xs) + len(l)
            xs += l + d + end
        self.xs = xs

def examine(ctx, lay, frames, what, good, seen):
    r, outs = decode(ctx, frames)
    key = what.split(' (')[0]
    def ob(text, ok, k, msg):
        ctx.ob(f'{lay.name}, {what}: {text}', ok, f'{k}:{key}', f'{lay.name}, {what}: {msg}')
    def chain(vs):
        """number of chunks verified in order, or None when one was not verified as it must be"""
        prev = SEED
        for i, (s, w) in enumerate(vs):
            if i >= len(lay.data):
                return None
            st, sec, date, reg = s.a[1]
            if sec is not CSECRET or date is not CDATE or reg is not CREGION or not (st.k == 't' and st.a[0] == 'create_chunk_string_to_sign'):
                return None
            d2, r2, p2, data = st.a[1]
            if d2 is not CDATE or r2 is not CREGION or deep(data) != lay.data[i] or text_of(w) != sig_text(lay.sigs[i]):
                return None
            p2 = text_of(p2)
            if not (p2 is prev or prev is not SEED and p2 == sig_text(lay.sigs[i - 1])):
                return None
            prev = s
        return len(vs)
    for ps, xs, trail in r.yields:
        n = chain(ps[3])
        done = sum(lay.data[:n or 0], [])
        got = list(ps[2]) + list(xs)
        seen['yields'] += 1
        ctx.ob(f'{lay.name}, {what}: emitted data is verified', n is not None and got == done[:len(got)], f'unverified:{key}', f'{lay.name}, {what}: bytes are emitted which no verified chunk signature covers (or twice, or out of order)', trail=trail)
    whole = sum(lay.data, [])
    finished = False
    for rv, ps in outs:
        for x in members(rv):
            n = chain(ps[3])
            if is_ok(x):
                seen['ok'] += 1
                finished = True
                ob('success means that all chunks were verified and emitted', good is not False and n == len(lay.data) and list(ps[2]) == whole, 'accepted', 'the stream ends well although ' + ('it is broken' if good is False else 'not every chunk was verified and emitted'))
            else:
                seen['err'] += 1
    if good is True:
        ob('a well-formed stream is accepted', finished, 'refused', 'a well-formed stream is refused')

@prop('A06', 'bounded exact interpretation of the chunk decoder: chunk data and signatures are symbols, the bodies are well-formed, truncated, failing and malformed streams in every division into two frames (and the divisions into three at the boundaries); typestate per emitted byte (verified by the chain of signatures) and per end of stream; term matching of the chunk string to sign')
def a06(ctx):
    seen = {'yields': 0, 'ok': 0, 'err': 0}
    L = [Layout('one chunk', [2]), Layout('two chunks', [1, 3]), Layout('no chunk', []), Layout('three chunks', [2, 17, 1])]
    for lay in L:
        n = len(lay.xs)
        every = range(0, n + 1) if lay is not L[3] else sorted(x for x in lay.marks if x <= n)
        examine(ctx, lay, [lay.xs], 'one frame', True, seen)
        for c in every:
            examine(ctx, lay, split(lay.xs, [c]), f'two frames (cut {c})', True, seen)
        if lay in L[:2] or ctx.tier == 'thorough':
            ms = sorted(x for x in lay.marks if x <= n)
            for i, c in enumerate(ms):
                for c2 in ms[i:]:
                    examine(ctx, lay, split(lay.xs, [c, c2]), f'three frames (cuts {c}, {c2})', True, seen)
        if lay is L[0]:
            examine(ctx, lay, [[x] for x in lay.xs], 'one byte per frame', True, seen)
        # cut before the line of the final chunk is complete, or a failing read
        for c in every:
            if c < lay.lastline:
                examine(ctx, lay, [lay.xs[:c]] if c else [], f'truncated (after {c} bytes)', False, seen)
            elif c < n:
                examine(ctx, lay, [lay.xs[:c]], f'end missing (after {c} bytes)', None, seen)
            if c < lay.lastline and (lay is not L[3]):
                examine(ctx, lay, [lay.xs[:c], 'error', lay.xs[c:]], f'read error (after {c} bytes)', False, seen)
    for st, n in (('A', 10), ('a', 10), ('02', 2), ('0000000f', 15), ('10', 16)):
        l = Layout(f'size {st}', [n], {0: st})
        examine(ctx, l, [l.xs], 'one frame', True, seen)
    T1 = ';chunk-signature='
    bad = [('line', x + T1 + 'SIG\r\n', f'size "{x}"') for x in ('', 'g', '2x', 'x2', ' 2', '2 ', '0x2', '-2', '3', '1', '12', '100000002')]
    bad += [('line', '2;chunk-signature=SIG\n', 'line ends with LF only'), ('line', '2;chunk-signature=SIG;\r\n', 'text after the signature'), ('line', '2;chunk_signature=SIG\r\n', 'wrong name'), ('line', '2\r\n', 'no signature'),
            ('line', '2;chunk-signature=' + 'a' * 63 + '\r\n', 'short signature'), ('line', '2;chunk-signature=' + 'a' * 65 + '\r\n', 'long signature'), ('line', '2;x=1;chunk-signature=SIG\r\n', 'other extension')]
    bad += [('end', x, f'"{x!r}" after the data') for x in ('', 'X', 'XY', '\rX', '\n\r', '\n', 'X\r\n')]
    for kind, text, name in bad:
        l = Layout(name, [2], broken=(0, kind, text))
        for cuts in ([], [len(l.xs) // 2]) if kind == 'line' else ([], *[[x] for x in sorted(l.marks)]):
            examine(ctx, l, split(l.xs, cuts), 'malformed', False, seen)
    ctx.ob(f'decoder: {seen["ok"]} accepted streams, {seen["err"]} refused, {seen["yields"]} emissions', seen['ok'] > 300 and seen['yields'] > 300, 'none', f'only {seen} paths were seen')
    chunk_string(ctx)
    delegates(ctx)

def chunk_string(ctx):
    b = ctx.body(r'signature_v4::create_chunk_string_to_sign$')
    P = T('PREV')
    for n in (0, 1, 2):
        data = ARR([T(f'chunk{i}') for i in range(n)])
        r = Text()
        e, outs = run_op(ctx.facts, r, b, [CDATE, CREGION, P, data])
        ctx.absorb(e, r)
        head = [STR('AWS4-HMAC-SHA256-PAYLOAD\n'), T('iso', CDATE), STR('\n'), T('date', CDATE), STR('/'), CREGION, STR('/s3/aws4_request\n'), P]
        tails = [[STR('\n' + EMPTY_SHA + '\n'), T('hexshachunk', data)]]
        if n == 0:
            tails.append([STR('\n' + EMPTY_SHA + '\n' + EMPTY_SHA)])
        for rv, m, ps in outs:
            for x in members(rv):
                parts = glue(flat(x))
                ctx.ob(f'chunk string to sign of {n} pieces', parts in [head + t for t in tails], 'chunk-sts', 'the string to sign of a chunk is ' + (show(x) if parts is None else ' '.join(map(show, parts)))[:400])

class Text(Exact):
    def enter(self, ps, body, args, eng, mem):
        for rx, name in CRYPTO:
            if re.search(rx, body['path']):
                return [(T(name, *[eng.snap(mem, a) for a in args]), ps)]
        return None

def delegates(ctx):
    """polling the stream polls the generator and returns what it returns"""
    b = ctx.body(r'AwsChunkedStream as futures_core::stream::Stream>::poll_next$')
    r = FsRule()
    e = Engine(ctx.facts, r)
    S = (9, 'self')
    outs = e.run(b, [REF(S), T('cx')], {S: ADT('streams::aws_chunked_stream::AwsChunkedStream', 0, (T('GEN'),))}, r.init, 0)
    ctx.absorb(e, r)
    for rv, m, ps in outs:
        x = e.snap(m, rv)
        ok = x.k == 't' and x.a[0].endswith('::poll_next') and contains(x, T('GEN'))
        ctx.ob('the stream is that of the generator', ok, 'poll', 'polling gives ' + show(x)[:200])

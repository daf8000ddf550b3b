"""The canonical request of Signature Version 4."""
from lists import *
from props_auth import CRYPTO

UNRESERVED = set(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.~')
def uri_table(slash):
    """RFC 3986 encoding of every byte as Signature Version 4 wants it"""
    return [chr(b) if b in UNRESERVED or (b == 0x2f and not slash) else '%%%02X' % b for b in range(256)]

class Bytes(Exact):
    """one pass of an encoder over known bytes"""
    def special(self, ps, e):
        return None

def encoder_table(ctx, body, mkargs):
    """what an encoder emits for every byte; mkargs(input) -> arguments and the cell of its output"""
    out = []
    for b in range(256):
        out.append(encode(ctx, body, mkargs, [b]))
    return out

def encode(ctx, body, mkargs, bs):
    mem = {}
    args, cell = mkargs(mk('arr', tuple(INT(x) for x in bs)))
    if cell is not None:
        mem[cell] = STR('')
    r = Bytes()
    e, outs = run_op(ctx.facts, r, body, args, mem=mem)
    ctx.absorb(e, r)
    if len(outs) != 1:
        return None
    rv, m, ps = outs[0]
    v = e.snap(m, m[cell]) if cell is not None else rv
    p = text(v)
    if p == []:
        return ''
    if p is None or len(p) != 1 or p[0].k != 'str':
        return None
    return p[0].a[0]

class Canon(Exact):
    """ps: frozenset of (condition, outcome)"""
    init = frozenset()
    def __init__(self, ctx):
        Exact.__init__(self)
        self.ctx = ctx
        self.enc = {}
        self.nf = 0

    # local functions which take one text and perhaps a flag and an output string: encoders
    def shape_of(self, body):
        k = body['uid']
        if k not in self.enc:
            f = self.ctx.facts
            ts = [f.ty(body, body['locals'][i + 1]) for i in range(body['argc'])]
            rt = f.ty(body, body['locals'][0])
            s = re.compile(r"^&('\w+ )?str$")
            texts = [i for i, t in enumerate(ts) if s.match(t)]
            outs = [i for i, t in enumerate(ts) if re.match(r"^&('\w+ )?mut .*String$", t)]
            rest = [i for i in range(len(ts)) if i not in texts + outs]
            ok = len(texts) == 1 and len(outs) <= 1 and (len(outs) == 1) == (rt == '()') and (outs or 'String' in rt) and body['kind'] == 'fn'
            loops = ok and self.loops(body)
            self.enc[k] = (texts[0], outs[0] if outs else None, rest) if loops else None
        return self.enc[k]
    def loops(self, body):
        f = self.ctx.facts
        return bool(f.info(body).heads) or any(bb['t'][0] == 'call' and 'iter' in str(bb['t'][1]) for bb in body['blocks'])

    def enter(self, ps, body, args, eng, mem):
        S = lambda i: eng.snap(mem, args[i])
        for rx, name in CRYPTO:
            if re.search(rx, body['path']):
                return [(T(name, *[S(i) for i in range(len(args))]), ps)]
        if body['path'].endswith('<data_structures::ordered_headers::OrderedHeaders<\'a> as core::convert::AsRef<[(&\'a str, &\'a str)]>>::as_ref') or 'OrderedHeaders' in body['path'] and body['path'].endswith('::as_ref'):
            v = S(0)
            return [(v, ps)]
        sh = self.shape_of(body)
        if sh:
            i, o, rest = sh
            x = S(i)
            if x.k == 'str':
                x = T('text', x)
            flags = tuple(S(j) for j in rest)
            tok = self.token(body, sh, flags, x)
            if o is None:
                return [(tok, ps)]
            ref = args[o]
            while ref.k == 'ref' and eng.load(mem, ref.a[0], ref.a[1]).k == 'ref':
                ref = eng.load(mem, ref.a[0], ref.a[1])
            m = dict(mem)
            old = eng.load(mem, ref.a[0], ref.a[1])
            eng.write_targets(m, [(ref.a[0], ref.a[1])], seq_push(eng.snap(mem, old), 'enc', (tok,)))
            return [(UNIT, ps, m)]
        return None

    def token(self, body, sh, flags, x):
        kind = self.ctx.__dict__.setdefault('enctabs', {})
        key = (body['uid'], flags)
        if key not in kind:
            kind[key] = self.table(body, sh, flags)
        return T(kind[key], x)

    def table(self, body, sh, flags):
        i, o, rest = sh
        def mkargs(inp):
            args = [None] * body['argc']
            args[i] = inp
            cell = None
            if o is not None:
                cell = (-7, 0)
                args[o] = REF(cell, ())
            for j, v in zip(rest, flags):
                args[j] = v
            return args, cell
        tab = encoder_table(self.ctx, body, mkargs)
        n = body['path'].split('::')[-1] + ''.join(' ' + show(x) for x in flags)
        for slash, name in ((False, 'enc-path'), (True, 'enc-all')):
            want = uri_table(slash)
            bad = [(b, t) for b, t in enumerate(tab) if t != want[b]]
            if not bad:
                # bytes are encoded one by one: pairs give the concatenation
                for p in ((0x41, 0x2f), (0x2f, 0x41), (0x20, 0xe2), (0x25, 0x25), (0x7e, 0x2b)):
                    if encode(self.ctx, body, mkargs, list(p)) != want[p[0]] + want[p[1]]:
                        return 'enc?' + n + f': bytes {p} are not encoded one by one'
                self.nf += 512
                return name
        close = min((sum(t != w for t, w in zip(tab, uri_table(s))), s) for s in (False, True))[1]
        bad = [(b, t) for b, t in enumerate(tab) if t != uri_table(close)[b]]
        return 'enc?' + n + ': ' + ', '.join(f'0x{b:02x} -> {t}' for b, t in bad[:4])

    def on_branch(self, ps, v, eng, mem):
        t, pos = strip_not(v)
        t = norm(t)
        for c, o in ps:
            if c is t:
                return [(int(o == pos), ps)]
        # a name equals at most one constant
        if t.k == 't' and t.a[0] == 'eq' and t.a[1][1].k == 'str':
            for c, o in ps:
                if o and c.k == 't' and c.a[0] == 'eq' and c.a[1][0] is t.a[1][0] and c.a[1][1].k == 'str':
                    return [(int(False == pos), ps)]
        return [(n, ps | {(t, bool(n) == pos)}) for n in (0, 1)]

def expected(method, path, query, headers, payload, ps, presigned):
    """parts of the canonical request; query: [(name, value)], headers likewise (sorted)"""
    isname = lambda x, s: any(o and c.k == 't' and c.a[0] == 'eq' and c.a[1][0] is x and c.a[1][1] is STR(s) for c, o in ps) or x is STR(s)
    tx = lambda x: T('text', x) if x.k == 'str' else x
    q = [(n, v) for n, v in query if not (presigned and isname(n, 'X-Amz-Signature'))]
    pairs = [TUP(T('enc-all', tx(n)), T('enc-all', tx(v))) for n, v in q]
    out = [T('disp', method), STR('\n'), T('enc-path', path), STR('\n')]
    for i, x in enumerate(sort(pairs)):
        a, b = (x.a[0] if x.k == 'tup' else (T('.0', x), T('.1', x)))
        out += ([STR('&')] if i else []) + [a, STR('='), b]
    out.append(STR('\n'))
    h = [(n, v) for n, v in headers if not isname(n, 'authorization')]
    for n, v in h:
        out += [n, STR(':'), T('trim', v), STR('\n')]
    out.append(STR('\n'))
    for i, (n, v) in enumerate(h):
        out += ([STR(';')] if i else []) + [n]
    out += [STR('\n')] + payload
    return joined(out)

EMPTY = 'e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855'

def lists_of(n, what, concrete):
    if concrete:
        return [TUP(STR(f'{what}{i:02d}'), T(f'{what}v{i}')) for i in range(n)]
    return [TUP(T(f'{what}n{i}'), T(f'{what}v{i}')) for i in range(n)]

def canonical(ctx, rx, presigned, payloads):
    b = ctx.body(rx)
    M, PATH, DATA = T('METHOD'), T('PATH'), T('DATA')
    cases = [(q, h, False) for q in (0, 1, 2) for h in (0, 1, 2)] + [(3, 0, False), (0, 3, False), (1, 40, True), (40, 1, True)]
    for nq, nh, conc in cases:
        for pn, pv, pt in (payloads if (nq, nh) == (0, 0) else payloads[:1]):
            qs, hs = lists_of(nq, 'q', conc), lists_of(nh, 'h', conc)
            r = Canon(ctx)
            e, outs = run_op(ctx.facts, r, b, [M, PATH, ARR(qs), ARR(hs)] + ([pv] if pv is not None else []))
            ctx.absorb(e, r)
            name = f'{"presigned" if presigned else "header"}: {nq} query parameters, {nh} headers' + (f', payload {pn}' if pn else '')
            if not outs:
                ctx.ob(name, False, name, name + ': no result')
            for rv, m, ps in outs:
                for x in members(rv):
                    got = text(x)
                    want = expected(M, PATH, [t.a[0] for t in qs], [t.a[0] for t in hs], pt, ps, presigned)
                    ok = got == want
                    msg = ''
                    if not ok:
                        i = 0
                        g = got if got is not None else [x]
                        while i < min(len(g), len(want)) and g[i] is want[i]:
                            i += 1
                        msg = f'{name}: after {i} equal parts the canonical request has {" ".join(map(show, g[i:i + 4]))[:220]}, expected {" ".join(map(show, want[i:i + 4]))[:220]}'
                        cs = [(c, o) for c, o in ps]
                        if cs:
                            msg += ' when ' + ', '.join(f'{show(c)[:70]} is {o}' for c, o in cs)[:200]
                    ctx.ob(name, ok, ('presigned' if presigned else 'header') + ':' + key_of(got, want), msg)

def key_of(got, want):
    if got is None:
        return 'unknown text'
    i = 0
    while i < min(len(got), len(want)) and got[i] is want[i]:
        i += 1
    if i < len(got) and got[i].k == 't' and got[i].a[0].startswith('enc?'):
        return got[i].a[0][:60]
    return (show(want[i]) if i < len(want) else 'end')[:40]

@prop('A03', 'exact abstract interpretation of the two canonicalisation functions over symbolic query and header lists; the result term is compared with the SigV4 canonical request; the percent-encoder is evaluated for every byte; loops over the lists end only at their end')
def a03(ctx):
    ad = 'signature_v4::Payload'
    vs = {v['name']: i for i, v in enumerate(ctx.facts.adts[ad]['variants'])}
    DATA = T('DATA')
    pay = [('Unsigned', ADT(ad, vs['Unsigned'], ()), [STR('UNSIGNED-PAYLOAD')]), ('Empty', ADT(ad, vs['Empty'], ()), [STR(EMPTY)]),
           ('SingleChunk', ADT(ad, vs['SingleChunk'], (DATA,)), [T('hexsha', DATA)]), ('MultipleChunks', ADT(ad, vs['MultipleChunks'], ()), [STR('STREAMING-AWS4-HMAC-SHA256-PAYLOAD')])]
    canonical(ctx, r'signature_v4::create_canonical_request$', False, pay)
    canonical(ctx, r'signature_v4::create_presigned_canonical_request$', True, [('', None, [STR('UNSIGNED-PAYLOAD')])])

def digest_parts(v):
    """the texts a SHA-256 (or HMAC) value is made of: (key or None, parts), or None"""
    if v.k == 't':
        op, a = v.a[0], v.a[1]
        if re.search(r'::digest$', op) and 'ha' in op or op.endswith('Digest>::digest'):
            return None, list(a)
        if re.search(r'::(finalize|into_bytes|as_ref|as_slice|into|finalize_fixed|finalize_bytes)$', op) or op.endswith('::from'):
            return digest_parts(a[0])
        if re.search(r'::(new|default)$', op) and not a:
            return None, []
        if re.search(r'::(new_from_slice|new)$', op) and len(a) == 1:
            return a[0], []
        if re.search(r'::(chain_update|chain)$', op):
            r = digest_parts(a[0])
            return None if r is None else (r[0], r[1] + [a[1]])
        m = re.match(r'^\.(Ok|Some)\.0$', op)
        if m:
            return digest_parts(a[0])
    if v.k == 'vt' or v.k == 'st':
        return digest_parts(v.a[0])
    if v.k == 'adt' and v.a[0] in (RESULT, OPTION) and len(v.a[2]) == 1:
        return digest_parts(v.a[2][0])
    if v.k == 'seq':
        r = digest_parts(v.a[0])
        for st in v.a[1]:
            if r is None or st[0] == '*':
                return None
            if re.search(r'::update$', st[0]):
                r = (r[0], r[1] + [st[1][-1]])
            else:
                return None
        return r
    return None

def hex_of(v):
    """(what is hex encoded in lower case) or None"""
    if v.k == 't' and re.search(r'hex_simd::encode_to_string$', v.a[0]) and v.a[1][1].k == 'adt':
        return v.a[1][0]
    return None

class Crypto(Exact):
    def __init__(self):
        Exact.__init__(self)
        self.algs = set()
    def special(self, ps, e):
        if 'digest::' in e.path and re.search(r'::(digest|new|new_from_slice|update|finalize)$', e.path) and e.targs:
            self.algs.add(e.targs[0])
        return None

def numbers(x):
    """integer constants in the code of a function"""
    if isinstance(x, dict):
        v = x.get('v')
        if x.get('k') == 'c' and isinstance(v, list) and v[0] == 'i':
            yield int(v[1])
        for y in x.values():
            yield from numbers(y)
    elif isinstance(x, list):
        for y in x:
            yield from numbers(y)

def crypto(ctx):
    D, K = T('DATA'), T('KEY')
    # longer than every number the code compares a count with
    used = sorted(n for u in list(ctx.facts.bodies) for b in [ctx.facts.bodies[u]] if b['local'] and b['path'].startswith('utils::crypto::hex_sha256_chunk') for n in numbers(b['blocks']) if 3 <= n <= 4096)
    c = [T(f'chunk{i}') for i in range(max([4] + [n + 2 for n in used]))]
    lower = [i for i, v in enumerate((ctx.facts.adts.get('hex_simd::AsciiCase') or {'variants': []})['variants']) if v['name'] == 'Lower']
    for fn, args, hexed, key, parts in (
            ('hex_sha256', [D], True, None, [D]), ('hex_sha256_chunk', [ARR(c)], True, None, c), ('hex_sha256_chunk', [ARR([])], True, None, []),
            ('hmac_sha256', [K, D], False, K, [D]), ('hex_hmac_sha256', [K, D], True, K, [D])):
        b = ctx.body(r'utils::crypto::%s$' % fn)
        r = Crypto()
        e, outs = run_op(ctx.facts, r, b, args)
        ctx.absorb(e, r)
        if not outs:
            ctx.ob(fn, False, 'crypto:' + fn, fn + ' has no result')
        for rv, m, ps in outs:
            for x in members(rv):
                y = hex_of(x) if hexed else x
                if hexed and y is not None and lower and x.a[1][1].a[1] != lower[0]:
                    y = None
                got = digest_parts(y) if y is not None else None
                ctx.ob(f'{fn} of {len(parts)} parts: ' + ('HMAC' if key else 'SHA-256') + (' in lower-case hex' if hexed else ''), got == (key, parts), 'crypto:' + fn, f'{fn} computes {show(x)[:260]}')
                ctx.ob(f'{fn}: the algorithm is SHA-256', r.algs and all('Sha256' in t for t in r.algs), 'crypto:alg:' + fn, f'{fn} computes with {sorted(r.algs)}')

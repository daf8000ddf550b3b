"""Authentication: from the request to the handler."""
from svcmodel import *
from preds import value, Unknown

AUTHV = T('AUTH')
FORM = T('FORM')

SIGFN = re.compile(r'signature_v4::(create_canonical_request|create_presigned_canonical_request|create_string_to_sign|calculate_signature|create_chunk_string_to_sign)$')

def walk_cond(v):
    """condition without the negations around it"""
    return strip_not(v)

class AuthRule(SvcRule):
    """ps: (facts, conditions passed {(term, outcome)}, loop over the headers)"""
    init = (frozenset(), frozenset(), None)
    def __init__(self, facts, want=('sig',)):
        SvcRule.__init__(self)
        self.facts = facts
        self.want = want
        self.sink = []
        self.effects = []

    def track(self, kind, name):
        if kind == 'q':
            return name in ('X-Amz-Signature',)
        if kind == 'h':
            return name == 'authorization' or name == 'x-amz-content-sha256' and 'body' in self.want
        if kind in ('sha256', 'qs'):
            return 'body' in self.want
        return kind in ('form',)

    def into(self, ps, body, args, eng, mem):
        p = body['path']
        S = lambda i: eng.snap(mem, args[i])
        if re.search(r'multipart::transform_multipart$', p):
            return [(T('pending-form', S(0), S(1)), ps)]
        if p.endswith('AwsChunkedStream::new'):
            return [(T('chunked-stream', *[eng.snap(mem, a) for a in args]), ps)]
        if p.endswith('Multipart::find_field_value'):
            n = S(1)
            return self.choose(ps, 'form', n.a[0] if n.k == 'str' else show(n), [(True, SOME(T('field', S(0), n))), (False, NONE)])
        m = SIGFN.search(p)
        if m:
            return [(T(m.group(1), *[eng.snap(mem, a) for a in args]), ps)]
        if p.endswith('SimpleAuth as auth::S3Auth>::get_secret_access_key'):
            return None
        return None

    def await_other(self, ps, e, s):
        if s.k == 't' and s.a[0] == 'pending-form':
            return [(OK(T('form', *s.a[1])), ps), (ERR(T('form-error')), ps)]
        if s.k == 't' and s.a[0].endswith('S3Auth::get_secret_access_key'):
            ad = 'errors::S3AuthError'
            return [(OK(T('secret', *s.a[1])), ps), (ERR(T('auth-error')), ps)]
        if s.k == 't' and re.search(r'to_bytes$', s.a[0]):
            return [(OK(T('whole-body', *s.a[1])), ps), (ERR(T('body-error')), ps)]
        return FsRule.await_other(self, ps, e, s)

    def svc(self, ps, e):
        p = e.path
        if p.endswith('S3Handler::is_match'):
            e.pure = True
            return [(TRUE, ps)]
        if p.endswith('S3Handler::handle'):
            self.sink.append((ps, e.args[1], e.args[2] if len(e.args) > 2 else None, e.eng.trail()))
            return []
        if p.startswith('storage::S3Storage::'):
            self.effects.append((ps, p, e.eng.trail()))
        m = re.search(r'str::<impl str>::starts_with$', p)
        if m and ps[2] is not None and e.args[0] is T('.0', T('each', HEADERS)):
            e.pure = True
            return [(T('starts_with', *e.args), ps)]
        return None

    def cond(self, ps, t, pos, eng, mem):
        out = []
        for n in (0, 1):
            if len(ps[1]) > 400:
                raise Limit('conditions')
            # the same condition is not decided twice on one path
            known = [o for c, o in ps[1] if c is t]
            if known and known[0] != (bool(n) == pos):
                continue
            out.append((n, (ps[0], ps[1] | {(t, bool(n) == pos)} if self.keep(t) else ps[1], ps[2])))
        return out

    def keep(self, t):
        at = atoms(t)
        ops = {x[1] for x in at if x[0] == 'op'}
        if 'calculate_signature' in ops:
            return True
        if 'time' in self.want and (any(o.endswith(('Utc::now', 'num_seconds', 'timestamp', 'SystemTime::now')) for o in ops) or contains(t, Q('X-Amz-Expires'))):
            return True
        if 'loop' in self.want and contains(t, T('each', HEADERS)):
            return True
        if 'body' in self.want and 'call:core::str::<impl str>::starts_with' in ops and contains(t, H('x-amz-content-sha256')):
            return True
        if 'body' in self.want and any(o.endswith('is_empty') for o in ops) and 'whole-body' in ops:
            return True
        return False

    def on_next(self, ps, path, site, src, tag, e, eng, mem):
        if src is not HEADERS or 'loop' not in self.want:
            return ps
        # what is known about the header which was examined last
        h = [(c, o) for c, o in ps[1] if contains(c, T('each', HEADERS))]
        rest = frozenset(x for x in ps[1] if x not in h)
        st = ps[2]
        if st is not None and st[0] == 'item':
            st = ('loop', st[1] | {frozenset(h)})
        elif st is None or st[0] == 'done':
            st = ('loop', st[1] if st else frozenset())
        if tag == 'item':
            return (ps[0], rest, ('item', st[1]))
        return (ps[0], rest, ('done', st[1]))


def run_handle(ctx, auth=True, want=('sig',)):
    b = ctx.body(r'service::S3Service::handle$')
    r = AuthRule(ctx.facts, want)
    svc = with_fields(SVC, auth=SOME(AUTHV) if auth else NONE)
    e, outs = run_op(ctx.facts, r, b, [svc, REQ])
    ctx.absorb(e, r)
    for u in r.unknown:
        ctx.ob('decided: ' + u, False, 'unknown', 'the request is asked something the analysis does not know: ' + u)
    if not r.sink:
        raise Missing('no path from S3Service::handle to a handler')
    return r, e, outs

def factd(ps):
    d = {}
    for k, n, v in ps[0]:
        d[(k, n)] = v
    return d

def ctx_fields(ctx, v):
    return fields(ctx.facts, v)

def verified(ps):
    """[(signature term, other side)] of signature comparisons which came out equal"""
    out = []
    for t, o in ps[1]:
        if o and t.k == 't' and t.a[0] == 'eq' and len(t.a[1]) == 2:
            x, y = t.a[1]
            for s, w in ((x, y), (y, x)):
                if s.k == 't' and s.a[0] == 'calculate_signature':
                    out.append((s, w))
    return out

AUTHZ = T('parsed:AuthorizationV4', H('authorization'))
def supplied(w):
    """where the supplied signature comes from"""
    if w is T('.signature', AUTHZ):
        return 'header'
    if w is Q('X-Amz-Signature'):
        return 'presigned'
    if w.k == 't' and w.a[0] == 'field' and w.a[1][1] is STR('x-amz-signature'):
        return 'form'
    return None

@prop('A01', 'must-pass analysis: every path of S3Service::handle (request decided lazily: method, headers, query, parsers) with an authentication provider to a handler call passes the equal outcome of a comparison of the computed signature with the one the request supplies')
def a01(ctx):
    r, e, outs = run_handle(ctx)
    seen = {}
    for ps, cv, st, trail in r.sink:
        vs = [(s, w) for s, w in verified(ps)]
        kinds = {supplied(w) for s, w in vs} - {None}
        d = factd(ps)
        desc = ', '.join(f'{k}:{n}={v}' for (k, n), v in sorted(d.items(), key=str) if k in ('m', 'h', 'q', 'sha256'))
        ok = len(kinds) >= 1
        for k in kinds: seen[k] = seen.get(k, 0) + 1
        ctx.ob('handler reached only after a verified signature: ' + desc[:120], ok, 'unverified', 'a handler is reached without a verified signature (' + desc + ')', trail=trail)
    for k in ('header', 'presigned', 'form'):
        ctx.ob(f'{k} signatures reach the handlers ({seen.get(k, 0)} paths)', seen.get(k, 0) > 0, 'kind:' + k, f'no path from a valid {k} signature to a handler: such requests are always refused')
    for ps, p, trail in r.effects:
        ctx.ob('storage is not used before a handler', False, 'storage', f'{p} is called before the request reached a handler', trail=trail)
    for rv, m, ps in outs:
        for x in members(rv):
            if is_ok(x):
                ctx.ob('no answer without a handler', False, 'answered', 'a request is answered successfully without a handler')

@prop('A02', 'path enumeration of S3Service::handle without an authentication provider: signed requests of every kind end in an error, unsigned ones reach the handlers')
def a02(ctx):
    r, e, outs = run_handle(ctx, auth=False)
    plain = 0
    for ps, cv, st, trail in r.sink:
        d = factd(ps)
        signed = [n for (k, n), v in d.items() if v and (k == 'h' and n == 'authorization' or k == 'q' and n == 'X-Amz-Signature' or k == 'form' and n == 'x-amz-signature')]
        ok = not signed and not verified(ps)
        plain += ok
        ctx.ob('handler reached only by unsigned requests', ok, 'unverifiable', f'a request which carries {signed} is served although nobody can verify it', trail=trail)
    ctx.ob(f'unsigned requests are served ({plain} paths)', plain > 0, 'none', 'without a provider no request is served')

def form_of(ps_terms):
    fs = find_all(ps_terms, lambda y: y.k == 't' and y.a[0] == 'form')
    return fs

def find_all(vs, pred):
    out = set()
    for v in vs:
        out |= set(find(v, pred))
    return out

def unsort(v):
    """(list, sorted?)"""
    if v.k == 'seq':
        ops = [st[0] for st in v.a[1] if st[0] != '*']
        if len(ops) == len(v.a[1]) and all(re.search(r'::sort(_unstable)?$', o) for o in ops):
            return v.a[0], True
    return v, False

def source_terms(kind, w):
    """what a signature of this kind must be made of"""
    if kind == 'header':
        cred = T('.credential', AUTHZ)
        return dict(cred=cred, date=T('parsed:AmzDate', H('x-amz-date')), signed=T('.signed_headers', AUTHZ), cr='create_canonical_request')
    if kind == 'presigned':
        return dict(cred=T('parsed:CredentialV4', Q('X-Amz-Credential')), date=T('parsed:AmzDate', Q('X-Amz-Date')), signed=Q('X-Amz-SignedHeaders'), cr='create_presigned_canonical_request')
    form = w.a[1][0]
    fld = lambda n: T('field', form, STR(n))
    return dict(cred=T('parsed:CredentialV4', fld('x-amz-credential')), date=T('parsed:AmzDate', fld('x-amz-date')), policy=fld('policy'))

@prop('A04', 'term matching on every path to a handler: the verified signature is a term over the request (method, decoded path, query, signed headers, payload, date, scope) and the secret of the access key it names; plus interpretation of the key derivation and of the string to sign; the Authorization parser is evaluated on texts of symbolic characters, every part must come back as it was spelled and every malformed text be refused')
def a04(ctx):
    import textlist
    textlist.authorization_syntax(ctx)
    textlist.date_text(ctx)
    r, e, outs = run_handle(ctx, want=('sig', 'body'))
    kinds = {}
    for ps, cv, st, trail in r.sink:
        d = factd(ps)
        for s, w in verified(ps):
            k = supplied(w)
            if k is None:
                continue
            kinds[k] = kinds.get(k, 0) + 1
            x = source_terms(k, w)
            a = s.a[1]
            sec = T('secret', AUTHV, T('.access_key_id', x['cred']))
            reg = T('.aws_region', x['cred'])
            def need(what, got, want):
                ctx.ob(f'{k}: {what}', got is want, f'{k}:{what}', f'{what} of a {k} signature is {show(got)[:200]}, expected {show(want)[:160]}', trail=trail)
            need('the secret key is that of the access key in the credential', a[1], sec)
            need('date of the signing key', a[2], x['date'])
            need('region of the signing key', a[3], reg)
            if k == 'form':
                need('signed text', a[0], x['policy'])
                continue
            sts = a[0]
            if not (sts.k == 't' and sts.a[0] == 'create_string_to_sign'):
                ctx.ob(f'{k}: string to sign', False, f'{k}:sts', 'the signed text is ' + show(sts)[:200], trail=trail)
                continue
            cr, sd, sr = sts.a[1]
            need('date of the string to sign', sd, x['date'])
            need('region of the string to sign', sr, reg)
            if not (cr.k == 't' and cr.a[0] == x['cr']):
                ctx.ob(f'{k}: canonical request', False, f'{k}:cr', 'the signed request is ' + show(cr)[:200], trail=trail)
                continue
            need('method', cr.a[1][0], T('METHOD'))
            need('path', cr.a[1][1], T('decoded', T('RAWPATH')))
            q = cr.a[1][2]
            has = d.get(('qs', ''))
            ok = q is QS if has else (q.k == 'arr' and not q.a[0])
            ctx.ob(f'{k}: query (present: {has})', ok, f'{k}:query', f'the canonical request is made of the query {show(q)[:120]} (query present: {has})', trail=trail)
            h = cr.a[1][3]
            ok = h.k == 't' and h.a[0] == 'signed-headers' and h.a[1][0] is HEADERS
            ctx.ob(f'{k}: headers', ok, f'{k}:headers', 'the canonical headers are not the signed headers of the request: ' + show(h)[:160], trail=trail)
            if ok:
                l, srt = unsort(h.a[1][1])
                if k == 'header':
                    need('list of signed headers', l, x['signed'])
                else:
                    ctx.ob('presigned: list of signed headers', contains(l, x['signed']), 'presigned:signed', 'the canonical headers are selected by ' + show(l)[:160], trail=trail)
    for k in ('header', 'presigned', 'form'):
        ctx.ob(f'{k} signatures examined ({kinds.get(k, 0)})', kinds.get(k, 0) > 0, 'none:' + k, f'no verified {k} signature reaches a handler')
    string_to_sign(ctx)
    key_chain(ctx)
    import props_canon
    props_canon.crypto(ctx)

class PushRule(FsRule):
    """strings built by pushing: seq values; crypto as terms"""
    def __init__(self, terms):
        FsRule.__init__(self)
        self.terms = terms
    def enter(self, ps, body, args, eng, mem):
        for rx, name in self.terms:
            if re.search(rx, body['path']):
                return [(T(name, *[eng.snap(mem, a) for a in args]), ps)]
        return None
    def other(self, ps, e):
        if re.search(r'Utc::with_ymd|LocalResult', e.path):
            return None
        return None

NEWSTR = re.compile(r'^call:(alloc::string::String::(new|with_capacity)|smallvec::SmallVec::<.*>::(new|with_capacity)|alloc::vec::Vec::<.*>::(new|with_capacity)|<.* as core::default::Default>::default)$|^default$')
def flat(v):
    """parts of a string or byte vector which was built by pushing, or None"""
    if v.k == 'str':
        return [v]
    if v.k == 'bytes':
        return [STR(bytes(v.a[0]).decode('latin1'))]
    if v.k == 'int':
        return [STR(chr(v.a[0]))]
    if v.k == 'arr':
        out = []
        for x in v.a[0]:
            f = flat(x)
            if f is None:
                return None
            out += f
        return out
    if v.k == 't' and v.a[0] == 'cat':
        return list(v.a[1])
    if v.k == 't' and NEWSTR.match(v.a[0]):
        return []
    if v.k == 't' and v.a[0].startswith('call:') and re.search(r'::concat$', v.a[0]):
        return flat(v.a[1][0])
    if v.k == 't' and v.a[0].startswith('call:') and re.search(r'::join$', v.a[0]) and v.a[1][0].k == 'arr':
        out = []
        for i, x in enumerate(v.a[1][0].a[0]):
            f = flat(x)
            if f is None:
                return None
            out += (flat(v.a[1][1]) if i else []) + f
        return out
    if v.k == 'seq':
        out = flat(v.a[0])
        if out is None:
            return None
        for st in v.a[1]:
            if st[0] == '*':
                return None
            if re.search(r'::(push_str|push|extend_from_slice|extend|write_str|write_all|add_assign|append)$', st[0]):
                f = flat(st[1][-1])
                if f is None:
                    return None
                out += f
            elif re.search(r'::write_fmt$', st[0]):
                f = flat(st[1][-1])
                if f is None:
                    return None
                out += f
            elif re.search(r'::(reserve|shrink_to_fit)$', st[0]):
                pass
            else:
                return None
        return out
    if v.k == 't' or v.k == 'st':
        return [v]
    return None

def glue(parts):
    if parts is None:
        return None
    out = []
    for p in parts:
        if p.k == 't' and p.a[0] == 'disp' and not p.a[1][0].k == 't':
            p = p.a[1][0]
        if p.k == 'str' and out and out[-1].k == 'str':
            out[-1] = STR(out[-1].a[0] + p.a[0])
        elif p is not STR(''):
            out.append(p)
    return out

def built(ctx, body, args, terms):
    r = PushRule(terms)
    e, outs = run_op(ctx.facts, r, body, args)
    ctx.absorb(e, r)
    res = []
    for rv, m, ps in outs:
        for x in members(rv):
            res.append((x, glue(flat(x))))
    return e, res

CRYPTO = [(r'AmzDate::to_date$', 'date'), (r'AmzDate::to_iso8601$', 'iso'), (r'utils::crypto::hex_sha256$', 'hexsha'), (r'utils::crypto::hex_sha256_chunk$', 'hexshachunk'),
          (r'utils::crypto::hmac_sha256$', 'hmac'), (r'utils::crypto::hex_hmac_sha256$', 'hexhmac')]

def string_to_sign(ctx):
    b = ctx.body(r'signature_v4::create_string_to_sign$')
    CR, D, R = T('CR'), T('DATE'), T('REGION')
    e, res = built(ctx, b, [CR, D, R], CRYPTO)
    want = [STR('AWS4-HMAC-SHA256\n'), T('iso', D), STR('\n'), T('date', D), STR('/'), R, STR('/s3/aws4_request\n'), T('hexsha', CR)]
    for x, parts in res:
        ctx.ob('string to sign: algorithm, time, scope, hash of the canonical request', parts == want, 'sts:text', 'the string to sign is ' + (show(x) if parts is None else ' '.join(map(show, parts)))[:300])

def key_chain(ctx):
    b = ctx.body(r'signature_v4::calculate_signature$')
    S, K, D, R = T('STS'), T('SECRET'), T('DATE'), T('REGION')
    r = PushRule(CRYPTO)
    e, outs = run_op(ctx.facts, r, b, [S, K, D, R])
    ctx.absorb(e, r)
    steps = [('signature', S), ('signing key', STR('aws4_request')), ('service key', STR('s3')), ('region key', R), ('date key', T('date', D))]
    for rv, m, ps in outs:
        for x in members(rv):
            cur = x
            for i, (n, data) in enumerate(steps):
                op = 'hexhmac' if i == 0 else 'hmac'
                ok = cur.k == 't' and cur.a[0] == op and glue(flat(cur.a[1][1])) == glue(flat(data))
                ctx.ob('key derivation: ' + n, ok, 'key:' + n, f'{n} is {show(cur)[:200]}, expected {op}(.., {show(data)})')
                if not ok:
                    break
                cur = cur.a[1][0]
            else:
                p = glue(flat(cur))
                ctx.ob('key derivation: AWS4 + secret', p == [STR('AWS4'), K], 'key:secret', 'the key derivation starts from ' + show(cur)[:200])

BODY = re.compile(r'body_mut$|into_body$|Body::(default|empty)$')
def raw_body(v):
    return v.k == 't' and v.a[0].startswith('call:') and v.a[0].endswith(('::body_mut', '::into_body')) and v.a[1][0] is REQ
def whole(v):
    """the buffered body of the request"""
    return v.k == 't' and v.a[0] == 'whole-body' and raw_body(v.a[1][0])
def from_bytes(v):
    if v.k == 't' and re.search(r'Body as core::convert::From<.*>>::from$', v.a[0]):
        return v.a[1][0]
    return v if whole(v) else None
def no_body(v):
    return v.k == 't' and (v.a[0] == 'default' or re.search(r'Body::empty$|Body as core::default::Default>::default$', v.a[0]))

def stream_of(v):
    """source of a body stream with per-item error mapping only"""
    while v.k == 't' and v.a[0] in ('adapt:map', 'adapt:map_err', 'adapt:map_ok') and v.a[1]:
        v = v.a[1][0]
    return v

@prop('A05', 'term matching on every path to a handler: the body handed to the handler is the very body whose hash was signed, or the stream which verifies each chunk against this signature; aws-chunked bodies which nobody can verify are refused')
def a05(ctx):
    pv = {i: v['name'] for i, v in enumerate(ctx.facts.adts['signature_v4::Payload']['variants'])}
    kinds = {}
    for auth in (True, False):
        r, e, outs = run_handle(ctx, auth, want=('sig', 'body'))
        for ps, cv, st, trail in r.sink:
            d = factd(ps)
            fs = fields(ctx.facts, cv)
            body = fs['body']
            claim = d.get(('sha256', ''))
            hdr = d.get(('h', 'x-amz-content-sha256'))
            chunky = not (hdr is False or claim in ('SingleChunk', 'UnsignedPayload') or
                          any(not o and c.k == 't' and c.a[0].endswith('starts_with') and c.a[1][0] is H('x-amz-content-sha256') and c.a[1][1].k == 'str' and 'STREAMING-AWS4-HMAC-SHA256-PAYLOAD'.startswith(c.a[1][1].a[0]) for c, o in ps[1]) or
                          any(not o and c.k == 't' and c.a[0] == 'eq' and c.a[1][0] is H('x-amz-content-sha256') and c.a[1][1] is STR('STREAMING-AWS4-HMAC-SHA256-PAYLOAD') for c, o in ps[1]))
            ver = [(s, w, supplied(w)) for s, w in verified(ps)]
            ver = [x for x in ver if x[2]] or [(None, None, 'unsigned')]
            for s, w, k in ver:
                kinds[k] = kinds.get(k, 0) + 1
                n = f'{k}, x-amz-content-sha256 {claim or ("absent" if hdr is False else "not parsed")}'
                def ob(what, ok, msg):
                    ctx.ob(f'{n}: {what}', ok, f'{k}:{claim}:{what}', f'{n}: {msg}', trail=trail)
                if k != 'header':
                    if k != 'form':
                        ob('the body is that of the request', raw_body(body) or from_bytes(body) is not None and whole(from_bytes(body)), 'the handler gets ' + show(body)[:160])
                        ob('no chunked body is stored with its framing', not chunky, 'a body which may be aws-chunked is handed on undecoded')
                    else:
                        ob('the fields are those of the body of the request', form_src(fs['multipart']), 'the handler gets the form ' + show(fs['multipart'])[:160])
                    continue
                pays = {x for x in find(s, lambda t: t.k == 'adt' and t.a[0] == 'signature_v4::Payload')}
                if len(pays) != 1:
                    ob('one signed payload', False, f'the signature is made of {len(pays)} payloads')
                    continue
                pay = pays.pop()
                pn = pv[pay.a[1]]
                if pn == 'SingleChunk':
                    x = pay.a[2][0]
                    ob('the signed hash is that of the body of the request', whole(x), 'the hashed payload is ' + show(x)[:160])
                    ob('the handler gets the hashed bytes', from_bytes(body) is x, f'the handler gets {show(body)[:140]} but {show(x)[:100]} was hashed')
                elif pn == 'Empty':
                    em = [c for c, o in ps[1] if o and c.k == 't' and c.a[0].endswith('is_empty') and whole(c.a[1][0])] + [c for c, o in ps[1] if c.k == 't' and contains(c, T('whole-body')) and False]
                    x = from_bytes(body)
                    ob('the empty hash stands for an empty body', bool(em) and (no_body(body) or x is not None and whole(x)), 'the hash of the empty body was signed, but the handler gets ' + show(body)[:140])
                elif pn == 'Unsigned':
                    ob('only UNSIGNED-PAYLOAD leaves the body unsigned', claim == 'UnsignedPayload', 'the body is not covered by the signature although the request does not say UNSIGNED-PAYLOAD')
                    x = from_bytes(body)
                    ob('the body is that of the request', raw_body(body) or x is not None and whole(x), 'the handler gets ' + show(body)[:160])
                else:
                    ob('only STREAMING-... is chunked', claim == 'MultipleChunks', 'a body is treated as aws-chunked although the request does not say so')
                    c = body.a[1][0] if body.k == 't' and body.a[0].endswith('Body::wrap_stream') else None
                    if c is None or c.k != 't' or c.a[0] != 'chunked-stream':
                        ob('the chunks are verified', False, 'the handler gets the unverified body ' + show(body)[:160])
                        continue
                    x = source_terms('header', w)
                    src, seed, date, reg, sec = c.a[1]
                    un = lambda v: v.a[1][0] if v.k == 't' and re.search(r'Box<str>>::from$', v.a[0]) else v
                    ob('the chunks are those of the request', raw_body(stream_of(src)), 'the chunks are read from ' + show(src)[:160])
                    ob('the chain of signatures starts with the verified one', un(seed) in (s, w), 'the first chunk is verified against ' + show(seed)[:120])
                    ob('date of the chunk signatures', un(date) is x['date'], 'date ' + show(date)[:120])
                    ob('region of the chunk signatures', un(reg) is T('.aws_region', x['cred']), 'region ' + show(reg)[:120])
                    ob('key of the chunk signatures', un(sec) is T('secret', AUTHV, T('.access_key_id', x['cred'])), 'secret ' + show(sec)[:120])
    for k in ('header', 'presigned', 'form', 'unsigned'):
        ctx.ob(f'{k} requests examined ({kinds.get(k, 0)})', kinds.get(k, 0) > 0, 'none:' + k, f'no {k} request reaches a handler')

def form_src(v):
    """the parsed form of the body of this request"""
    for x in members(v):
        if not (x.k == 'adt' and x.a[0] == OPTION and x.a[1] == 1 and x.a[2][0].k == 't' and x.a[2][0].a[0] == 'form' and raw_body(stream_of(x.a[2][0].a[1][0]))):
            return False
    return True

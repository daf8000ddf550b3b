"""Dispatch: which request reaches which storage operation."""
from svcmodel import *
from props_auth import FORM
import itertools

STORE = T('STORAGE')
OUTP = re.compile(r'output::S3Output(>)?::try_into_response$')

UNSUP_BUCKET = ['accelerate', 'acl', 'analytics', 'cors', 'encryption', 'intelligent-tiering', 'inventory', 'lifecycle', 'logging', 'metrics', 'notification', 'object-lock',
                'ownershipControls', 'policy', 'policyStatus', 'publicAccessBlock', 'replication', 'requestPayment', 'tagging', 'versioning', 'versions', 'website']
UNSUP_OBJECT = ['acl', 'attributes', 'legal-hold', 'retention', 'restore', 'select', 'tagging', 'torrent']
DISPQ = {'uploadId', 'uploads', 'partNumber', 'list-type', 'location', 'delete'} | set(UNSUP_BUCKET) | set(UNSUP_OBJECT)

class DispRule(SvcRule):
    """ps: (facts, flags, storage calls made); flags: 'ok' signature verified, 'bad' a malformed part, 'sig' signed without provider"""
    init = (frozenset(), frozenset(), ())
    deep = False
    def __init__(self, facts, tracked=None):
        SvcRule.__init__(self)
        self.facts = facts
        self.calls = []          # (ps, op, input, trail)
        self.handled = []
        self.panics = []

    def track(self, kind, name):
        if kind == 'h':
            return name in ('x-amz-copy-source', 'content-type')
        if kind == 'q':
            return name in DISPQ
        return kind in ('m', 'path', 'qs', 'lt', 'isform', 'mime') or kind == 'h' and name == 'content-type'
    def know(self, ps, kind, name, val):
        if val is False and kind in ('decode', 'headers', 'qsok', 'parse') or val == 'bad':
            ps = self.flag(ps, 'bad')
        if val is True and (kind, name) in (('h', 'authorization'), ('q', 'X-Amz-Signature')):
            ps = self.flag(ps, 'sig')
        return SvcRule.know(self, ps, kind, name, val)
    def flag(self, ps, f):
        return (ps[0], ps[1] | {f}) + ps[2:]

    def fact(self, ps, kind, name):
        if kind == 'q' and SvcRule.fact(self, ps, 'qs', '') is False:
            return False
        return SvcRule.fact(self, ps, kind, name)

    def into(self, ps, body, args, eng, mem):
        p = body['path']
        S = lambda i: eng.snap(mem, args[i])
        if re.search(r'S3Output.*::try_into_response$', p) and 'result::Result' not in p:
            return [(OK(T('response', S(0))), ps), (ERR(T('response-error', S(0))), ps)]
        if re.search(r'multipart::transform_multipart$', p):
            return [(T('pending-form', S(0), S(1)), ps)]
        if p.endswith('AwsChunkedStream::new'):
            return [(T('chunked-stream', *[eng.snap(mem, a) for a in args]), ps)]
        if p.endswith('Multipart::find_field_value'):
            n = S(1)
            return [(NONE, ps), (SOME(T('field', S(0), n)), ps)]
        if re.search(r'signature_v4::(create_canonical_request|create_presigned_canonical_request|create_string_to_sign|calculate_signature)$', p):
            return [(T(p.rsplit('::', 1)[1], *[eng.snap(mem, a) for a in args]), ps)]
        return None

    def svc(self, ps, e):
        p = e.path
        if p.endswith(('S3Handler::is_match', 'S3Handler::handle')):
            return self.devirt(ps, e)
        if p.startswith('storage::S3Storage::'):
            op = p.rsplit('::', 1)[1]
            self.calls.append((ps, op, e.args[1:], e.eng.trail()))
            e.pure = True
            return [(T('pending-op', STR(op)), ps[:2] + (ps[2] + (op,),) + ps[3:])]
        if OUTP.search(p):
            e.pure = True
            return [(OK(T('response', e.args[0])), ps), (ERR(T('response-error', e.args[0])), ps)]
        return None

    def devirt(self, ps, e):
        eng = e.eng
        v = e.args[0]
        out = []
        for x in members(v):
            if x.k != 'adt':
                raise Missing('handler is not known: ' + show(x)[:100])
            m = e.path.rsplit('::', 1)[1]
            bs = [b for b in self.facts.bodies.values() if b['local'] and b['path'] == f'<{x.a[0]} as ops::S3Handler>::{m}']
            if len(bs) != 1:
                raise Missing(f'{m} of {x.a[0]}')
            if m == 'handle':
                self.handled.append((ps, x.a[0], e.args[1], e.eng.trail()))
                if not self.deep:
                    continue
            if m == 'handle':
                ps = self.flag(ps, 'handled')
            r = eng.inline(bs[0], e.raw, e.mem, ps, eng.sub(e.fr, ('dyn', x.a[0])))
            if r is None:
                raise Limit('recursive handler')
            out += [(rv, p2, m2) for rv, m2, p2 in r]
        e.pure = True
        return out

    def await_other(self, ps, e, s):
        if s.k == 't':
            if s.a[0] == 'pending-form':
                return [(OK(T('form', *s.a[1])), SvcRule.know(self, ps, 'isform', '', True)), (ERR(T('form-error')), self.flag(ps, 'bad'))]
            if s.a[0].endswith('S3Auth::get_secret_access_key'):
                return [(OK(T('secret', *s.a[1])), ps), (ERR(T('auth-error')), self.flag(ps, 'bad'))]
            if re.search(r'to_bytes$', s.a[0]):
                return [(OK(T('whole-body', *s.a[1])), ps), (ERR(T('body-error')), self.flag(ps, 'bad'))]
            if s.a[0] == 'pending-op':
                return [(OK(T('output', *s.a[1])), ps), (ERR(T('storage-error', *s.a[1])), ps)]
        return FsRule.await_other(self, ps, e, s)

    def cond(self, ps, t, pos, eng, mem):
        out = []
        for n in (0, 1):
            v = bool(n) == pos
            p2 = ps
            if t.k == 't' and t.a[0] == 'eq' and len(t.a[1]) == 2:
                x, y = t.a[1]
                if any(z.k == 't' and z.a[0] == 'calculate_signature' for z in (x, y)):
                    p2 = self.flag(ps, 'ok' if v else 'bad')
                elif Q('list-type') in (x, y) and STR('2') in (x, y):
                    k = self.fact(ps, 'lt', '')
                    if k is not None and k != v:
                        continue
                    p2 = self.know(ps, 'lt', '', v)
            elif t.k == 't' and re.search(r'starts_with$', t.a[0]) and contains(t, H('x-amz-content-sha256')) and v:
                p2 = self.flag(ps, 'stream')
            out.append((n, p2))
        return out

    def on_panic(self, ps, what, ev):
        eng, b, l, mem, c = ev
        self.panics.append((ps, what, b, l, c, eng.trail()))

def handlers(ctx):
    """the list of handlers, by interpreting the function which makes it"""
    bs = [b for b in ctx.facts.bodies.values() if b['local'] and b['kind'] == 'fn' and b['argc'] == 0 and re.search(r'Vec<.*dyn .*S3Handler', ctx.facts.ty(b, b['locals'][0]))]
    if len(bs) != 1:
        raise Missing('the function which makes the list of handlers')
    r = DispRule(ctx.facts)
    e = Engine(ctx.facts, r)
    outs = e.run(bs[0], [], {}, r.init, 0)
    if len(outs) != 1:
        raise Missing('list of handlers')
    ctx.absorb(e, r)
    return e.snap(outs[0][1], outs[0][0])

def run_service(ctx, auth, rule=None):
    sv = with_fields(SVC, handlers=handlers(ctx), auth=SOME(T('AUTH')) if auth else NONE, storage=STORE)
    b = ctx.body(r'service::S3Service::handle$')
    r = rule or DispRule(ctx.facts)
    e, outs = run_op(ctx.facts, r, b, [sv, REQ])
    ctx.absorb(e, r)
    return r, e, outs

def run_handler(ctx, name, cv, ps, rule=None):
    b = ctx.body('^<%s as ops::S3Handler>::handle$' % re.escape(name))
    r = rule or DispRule(ctx.facts)
    r.deep = True
    C = (9, 'ctx')
    e, outs = run_op(ctx.facts, r, b, [ADT(name, 0, ()), REF(C), STORE], {C: cv}, ps)
    ctx.absorb(e, r)
    return r, e, outs

# ---- what S3 says ------------------------------------------------------------------------------------
REFUSE = 'refuse'

def spec(ask):
    """(allowed outcomes, part): what a well-formed request asks for.  part 'sub' when it addresses a sub-resource or operation without a handler"""
    q = lambda n: ask('q', n)
    m, p = ask('m', ''), ask('path', '')
    bucket, obj = UNSUP_BUCKET, UNSUP_OBJECT
    if p == 'root':
        if m == 'GET':
            return ({'list_buckets'} if not any(q(n) for n in sorted(DISPQ)) else None), 'op'
        return {REFUSE}, 'op'
    if m not in ('GET', 'HEAD', 'PUT', 'POST', 'DELETE'):
        return {REFUSE}, 'op'
    here, there = (bucket, obj) if p == 'bucket' else (obj, bucket)
    for n in here:
        if q(n):
            return {REFUSE}, 'sub'
    for n in there:
        if n not in here and q(n):
            # not defined at this level
            return None, 'op'
    loose = False
    if p == 'bucket':
        if m == 'GET':
            if q('uploads'):
                return {REFUSE}, 'sub'
            if q('location'):
                return {'get_bucket_location'} if not (q('list-type') or q('uploadId') or q('delete')) else None, 'op'
            if not q('list-type'):
                op = {'list_objects'}
            elif ask('lt', ''):
                op = {'list_objects_v2'}
            else:
                return {'list_objects', REFUSE}, 'op'
            loose = q('uploadId') or q('delete')
        elif m == 'POST':
            if q('delete'):
                op = {'delete_objects'}
                loose = ask('form', '') or q('uploads') or q('uploadId')
            else:
                op = {'put_object'} if ask('form', '') else {REFUSE}
                loose = q('uploads') or q('uploadId')
        else:
            op = {{'PUT': 'create_bucket', 'HEAD': 'head_bucket', 'DELETE': 'delete_bucket'}[m]}
            loose = q('uploads') or q('uploadId') or q('location') or q('delete') or m == 'HEAD' and q('list-type')
        return (op | {REFUSE} if loose else op), 'op'
    up = q('uploadId')
    if m == 'POST':
        if ask('form', ''):
            return {REFUSE}, 'op'
        if q('uploads'):
            return ({'create_multipart_upload'} if not up else None), 'op'
        return ({'complete_multipart_upload'} if up else {REFUSE}), 'op'
    if up:
        if m == 'PUT' and q('partNumber') and not ask('h', 'x-amz-copy-source'):
            return {'upload_part', REFUSE} if q('uploads') or q('delete') or q('location') else {'upload_part'}, 'op'
        if m == 'HEAD':
            return {'head_object', REFUSE}, 'op'
        return {REFUSE}, 'sub'
    if m == 'PUT':
        op = {'copy_object'} if ask('h', 'x-amz-copy-source') else {'put_object'}
    else:
        op = {{'GET': 'get_object', 'HEAD': 'head_object', 'DELETE': 'delete_object'}[m]}
    loose = q('uploads') or q('partNumber') or q('delete') or q('location')
    return (op | {REFUSE} if loose else op), 'op'

class Ask(Exception):
    pass

METHODS = ('GET', 'HEAD', 'PUT', 'POST', 'DELETE', 'OTHER')
def completions(known):
    """every answer of the specification compatible with what a path knows: [(assignment, allowed, part)]"""
    out = []
    todo = [{}]
    n = 0
    while todo:
        as_ = todo.pop()
        n += 1
        if n > 20000:
            raise Limit('completions of a request')
        def ask(kind, name):
            v = known(kind, name)
            if isinstance(v, tuple):
                if (kind, name) in as_:
                    return as_[(kind, name)]
                raise Ask(kind, name, v)
            return v
        try:
            al, part = spec(ask)
        except Ask as x:
            kind, name, opts = x.args
            for o in opts:
                todo.append({**as_, (kind, name): o})
            continue
        out.append((as_, al, part))
    return out

def known_of(ps):
    d = {}
    for k, n, v in ps[0]:
        d.setdefault((k, n), v)
    yes = [n for (k, n), v in d.items() if k == 'm' and v]
    no = {n for (k, n), v in d.items() if k == 'm' and not v}
    def known(kind, name):
        if kind == 'm':
            return yes[0] if yes else tuple(m for m in METHODS if m not in no)
        if kind == 'path':
            v = d.get(('path', ''))
            return v if v else ('root', 'bucket', 'object')
        if kind == 'form':
            return bool(d.get(('isform', '')))
        if kind == 'q' and d.get(('qs', '')) is False:
            return False
        v = d.get((kind, name))
        return v if v is not None else (True, False)
    return known

def request_text(ps, extra):
    d = sorted((k, n, v) for k, n, v in ps[0])
    m = [n for k, n, v in d if k == 'm' and v] + [v for (k, n), v in extra.items() if k == 'm']
    path = [v for k, n, v in d if k == 'path'] + [v for (k, n), v in extra.items() if k == 'path']
    qs = sorted({n for k, n, v in d if k == 'q' and v} | {n for (k, n), v in extra.items() if k == 'q' and v})
    hs = sorted({n for k, n, v in d if k == 'h' and v} | {n for (k, n), v in extra.items() if k == 'h' and v})
    form = any(k == 'isform' for k, n, v in d)
    return f"{(m or ['any method'])[0]} {(path or ['any path'])[0]}" + (' ?' + '&'.join(qs) if qs else '') + (' with ' + ', '.join(hs) if hs else '') + (' (form)' if form else '')

_runs = {}
def runs(ctx, auth):
    """the whole service, once per process"""
    k = (id(ctx.facts), auth)
    if k not in _runs:
        r = DispRule(ctx.facts)
        r.deep = True
        _runs[k] = run_service(ctx, auth, r)
    r, e, outs = _runs[k]
    ctx.absorb(e, r)
    for u in r.unknown:
        ctx.ob('decided: ' + u, False, 'unknown', 'the request is asked something the analysis does not know: ' + u)
    return r, e, outs

def outcomes(ctx, auth):
    """[(ps, outcome)] of the requests whose dispatch is decided: operation called or refused"""
    r, e, outs = runs(ctx, auth)
    res = []
    seen = set()
    for ps, op, args, trail in r.calls:
        if (ps[0], op) not in seen:
            seen.add((ps[0], op))
            res.append((ps, op, trail))
    for rv, m, ps in outs:
        if ps[2] or 'handled' in ps[1] or 'bad' in ps[1]:
            continue
        if auth and 'ok' not in ps[1]:
            continue
        if not auth and ('sig' in ps[1] or 'stream' in ps[1] or sum(1 for k, n, v in ps[0] if k == 'mime' and v) >= 2):
            continue
        if (ps[0], REFUSE) not in seen:
            seen.add((ps[0], REFUSE))
            res.append((ps, REFUSE, ()))
    return res

def dispatch(ctx, part):
    n = 0
    reached = {}
    for auth in (True, False):
        who = 'signed' if auth else 'anonymous'
        for ps, got, trail in outcomes(ctx, auth):
            known = known_of(ps)
            judged = False
            for extra, allowed, pt in completions(known):
                if pt != part or allowed is None:
                    continue
                judged = True
                ok = got in allowed
                if not ok:
                    txt = request_text(ps, extra)
                    want = '/'.join(sorted(allowed))
                    ctx.ob(f'{who}: {txt}', False, f'{txt}:{got}', f'{who} request "{txt}" ' + (f'is refused instead of reaching {want}' if got == REFUSE else f'reaches {got} instead of ' + ('being refused' if want == REFUSE else want)), trail=trail)
                    break
            else:
                if judged:
                    n += 1
                    ctx.ob(f'{who}: {request_text(ps, {})} -> {got}', True)
            if judged:
                reached[(auth, got)] = reached.get((auth, got), 0) + 1
    return reached

@prop('D01', 'path enumeration of the whole service (S3Service::handle with every handler interpreted, request decided lazily): every path is a class of requests; its outcome (storage operation called, or refusal) is compared with the S3 dispatch table on every completion of the class')
def d01(ctx):
    reached = dispatch(ctx, 'op')
    for auth in (True, False):
        for op in OPS:
            k = reached.get((auth, op), 0)
            ctx.ob(f'{op} is reachable ({k} classes)', k > 0, f'unreachable:{op}', f'no {"signed" if auth else "anonymous"} request reaches {op}')

@prop('D02', 'path enumeration of the whole service: the classes of requests which address a sub-resource or operation without a handler all end in a refusal')
def d02(ctx):
    reached = dispatch(ctx, 'sub')
    for auth in (True, False):
        ctx.ob(f'requests for unsupported sub-resources are refused ({reached.get((auth, REFUSE), 0)} classes)', reached.get((auth, REFUSE), 0) > 0, 'none', 'no request for an unsupported sub-resource is refused')

@prop('D03', 'path enumeration of the whole service: number of storage calls per path, and provenance of the answer (the conversion of the result of that very call)')
def d03(ctx):
    for auth in (True, False):
        r, e, outs = runs(ctx, auth)
        n = 0
        for rv, m, ps in outs:
            ops = ps[2]
            ctx.ob(f'at most one storage call ({"/".join(ops) or "none"})', len(ops) <= 1, 'calls:' + '/'.join(ops), f'one request makes the storage calls {list(ops)}')
            for x in members(rv):
                if not is_ok(x):
                    continue
                n += 1
                y = okv(x)
                ok = len(ops) == 1 and y is T('response', T('output', STR(ops[0])))
                ctx.ob(f'answer of {"/".join(ops) or "nothing"}', ok, 'answer:' + '/'.join(ops), (f'the answer after {list(ops)} is not the converted result of the operation: ' if ops else 'a request is answered successfully without a storage call: ') + show(y)[:120])
            for x in members(rv):
                if is_err(x) or not ops or is_ok(x):
                    continue
                ctx.ob('answer is a result', False, 'result', 'unknown answer ' + show(x)[:100])
        # a failed operation is an error answer
        for ops_rv in [(ps[2], rv) for rv, m, ps in outs if ps[2]]:
            pass
        ctx.ob(f'successful answers ({n})', n > 0, 'none', 'no request is answered')
        for op in OPS:
            kinds = {('ok' if is_ok(x) else 'err') for rv, m, ps in outs if ps[2] == (op,) for x in members(rv)}
            ctx.ob(f'{op}: both outcomes of the operation are answered', kinds == {'ok', 'err'}, 'kinds:' + op, f'{op}: only {sorted(kinds)} answers exist')

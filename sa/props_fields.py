"""Requests and answers: which header, query parameter or field carries which value."""
from core import *
from svcmodel import *
from lists import *
import props_dispatch as D

HDR = {   # field -> header, where it is not x-amz-<field>
    'cache_control': 'cache-control', 'content_disposition': 'content-disposition', 'content_encoding': 'content-encoding', 'content_language': 'content-language',
    'content_type': 'content-type', 'content_md5': 'content-md5', 'content_length': 'content-length', 'expires': 'expires', 'range': 'range',
    'if_match': 'if-match', 'if_none_match': 'if-none-match', 'if_modified_since': 'if-modified-since', 'if_unmodified_since': 'if-unmodified-since',
    'sse_customer_algorithm': 'x-amz-server-side-encryption-customer-algorithm', 'sse_customer_key': 'x-amz-server-side-encryption-customer-key',
    'sse_customer_key_md5': 'x-amz-server-side-encryption-customer-key-md5', 'ssekms_encryption_context': 'x-amz-server-side-encryption-context',
    'ssekms_key_id': 'x-amz-server-side-encryption-aws-kms-key-id', 'object_lock_legal_hold_status': 'x-amz-object-lock-legal-hold',
    'object_lock_enabled_for_bucket': 'x-amz-bucket-object-lock-enabled',
    'copy_source_sse_customer_algorithm': 'x-amz-copy-source-server-side-encryption-customer-algorithm',
    'copy_source_sse_customer_key': 'x-amz-copy-source-server-side-encryption-customer-key',
    'copy_source_sse_customer_key_md5': 'x-amz-copy-source-server-side-encryption-customer-key-md5',
}
QRY = {'continuation_token': 'continuation-token', 'delimiter': 'delimiter', 'encoding_type': 'encoding-type', 'fetch_owner': 'fetch-owner', 'max_keys': 'max-keys', 'marker': 'marker',
       'prefix': 'prefix', 'start_after': 'start-after', 'version_id': 'versionId', 'upload_id': 'uploadId', 'part_number': 'partNumber'}
PARSED = {'content_length': 'i64', 'max_keys': 'i64', 'part_number': 'i64', 'fetch_owner': 'bool', 'bypass_governance_retention': 'bool', 'object_lock_enabled_for_bucket': 'bool'}
SSEC = 'sse_customer_algorithm sse_customer_key sse_customer_key_md5 '
STD = 'cache_control content_disposition content_encoding content_language content_type expires '
GRANT = 'acl grant_full_control grant_read grant_read_acp grant_write_acp '
PUTS = STD + GRANT + SSEC + 'server_side_encryption storage_class website_redirect_location ssekms_key_id ssekms_encryption_context request_payer tagging object_lock_mode object_lock_retain_until_date object_lock_legal_hold_status '
COND = 'if_match if_modified_since if_none_match if_unmodified_since range '
FIELDS = {
    'complete_multipart_upload': 'request_payer',
    'copy_object': PUTS + 'copy_source copy_source_if_match copy_source_if_modified_since copy_source_if_none_match copy_source_if_unmodified_since metadata_directive tagging_directive '
                   'copy_source_sse_customer_algorithm copy_source_sse_customer_key copy_source_sse_customer_key_md5',
    'create_bucket': 'acl grant_full_control grant_read grant_read_acp grant_write grant_write_acp object_lock_enabled_for_bucket',
    'create_multipart_upload': PUTS,
    'delete_bucket': 'expected_bucket_owner',
    'delete_object': 'bypass_governance_retention mfa request_payer version_id',
    'delete_objects': 'bypass_governance_retention mfa request_payer',
    'get_bucket_location': 'expected_bucket_owner',
    'get_object': COND + SSEC + 'request_payer',
    'head_bucket': 'expected_bucket_owner',
    'head_object': COND + SSEC + 'request_payer',
    'list_buckets': '',
    'list_objects': 'delimiter encoding_type marker max_keys prefix request_payer',
    'list_objects_v2': 'continuation_token delimiter encoding_type fetch_owner max_keys prefix start_after request_payer',
    'put_object': PUTS + 'content_md5 content_length',
    'upload_part': SSEC + 'content_md5 content_length',
}
MUST = {'upload_id': ('complete_multipart_upload', 'upload_part'), 'part_number': ('upload_part',), 'copy_source': ('copy_object',)}   # not optional
FORMF = {'acl': 'acl', 'content_type': 'content-type', 'expires': 'expires', 'tagging': 'tagging', 'storage_class': 'x-amz-storage-class'}
FORMNOT = {'content_type', 'content_md5', 'content_length'}      # headers which describe the form, not the object
OTHER = {'bucket', 'key', 'body', 'metadata', 'multipart_upload', 'create_bucket_configuration', 'delete'}

def source(f):
    """(kind, name, value) of the request part a field stands for"""
    if f in QRY:
        k, n, v = 'q', QRY[f], Q(QRY[f])
    else:
        n = HDR.get(f, 'x-amz-' + f.replace('_', '-'))
        k, v = 'h', H(n)
    if f in PARSED:
        v = T('parsed:' + PARSED[f], v)
    return k, n, v

def alternatives(v):
    """members of a field: None for "not given" """
    out = set()
    for x in members(v):
        if x is NONE or x.k == 't' and x.a[0].startswith('.') and len(x.a[1]) == 1 and x.a[1][0].k == 't' and x.a[1][0].a[0].endswith('Default>::default'):
            out.add(None)
        elif x.k == 't' and x.a[0].endswith('Default>::default'):
            out.add(None)
        elif x.k == 'adt' and x.a[0] == OPTION and x.a[1] == 1:
            out |= set(members(x.a[2][0]))
        else:
            out.add(x)
    return out

class OneRule(D.DispRule):
    """remembers one more header or query parameter"""
    def __init__(self, facts, more):
        D.DispRule.__init__(self, facts)
        self.more = more
    def track(self, kind, name):
        return (kind, name) in self.more or D.DispRule.track(self, kind, name)

def entries(ctx):
    """[(operation, form?, handler, request context, ps)]: one entry per handler and kind of request"""
    r, e, outs = D.run_service(ctx, True)
    ents = {}
    for ps, n, cv, tr in r.handled:
        form = bool(SvcRule.fact(r, ps, 'isform', ''))
        # the facts of dispatch are kept, the parts examined here are free
        facts = frozenset(f for f in ps[0] if f[:2] != ('h', 'content-type'))
        k = (n, form)
        ents.setdefault(k, {})
        ents[k].setdefault((facts, ps[1]), None)
        o = ents[k][facts, ps[1]]
        ents[k][facts, ps[1]] = cv if o is None else join(o, cv)
    out = []
    for (n, form), d in ents.items():
        for (facts, flags), cv in d.items():
            out.append((n, form, cv, (facts, flags, ())))
    return out

def optext(f, k, n):
    return {'h': 'header ' + n, 'q': 'query parameter ' + n, 'form': 'form field ' + n}[k]

@prop('X01', 'provenance analysis: every handler is interpreted from the symbolic request to its storage call, once per header, query parameter and form field with that part of the request decided; the fields of the input are terms over the request and are compared with the S3 table of parameters')
def x01(ctx):
    f = ctx.facts
    done = {}
    for n, form, cv, ps in entries(ctx):
        r0, e0, _ = D.run_handler(ctx, n, cv, ps)
        ops = {op for _, op, _, _ in r0.calls}
        for op in ops:
            k = (op, form)
            done[k] = done.get(k, 0) + 1
            if op not in FIELDS:
                raise Missing('operation ' + op)
            if form and op != 'put_object':
                continue
            if done[k] > 3:
                continue     # further classes of requests for the same handler and operation
            one_op(ctx, f, n, form, op, cv, ps)
    for op in OPS:
        ctx.ob(f'{op} is analysed', (op, False) in done, 'missing:' + op, f'{op} is never called')
    ctx.ob('form uploads are analysed', ('put_object', True) in done, 'missing:form', 'a form never reaches put_object')

def one_op(ctx, f, n, form, op, cv, ps):
    want = {x: source(x) for x in FIELDS[op].split()}
    if op in MUST['upload_id']: want['upload_id'] = source('upload_id')
    if op in MUST['part_number']: want['part_number'] = source('part_number')
    parts = {(k, nm) for k, nm, v in want.values()}
    tag = f'{op} (form)' if form else op
    for k, nm in sorted(parts):
        r = OneRule(f, {(k, nm)})
        r, e, outs = D.run_handler(ctx, n, cv, ps, r)
        for ps2, op2, args, trail in r.calls:
            given = r.fact(ps2, k, nm)
            for i, a in enumerate(args):
                for m in members(a):
                    if m.k == 'adt':
                        check_fields(ctx, f, tag, op, form, want, k, nm, given, fields(f, m), trail)
    if op == 'put_object':
        metadata(ctx, tag, n, form, cv, ps)
    r, e, outs = D.run_handler(ctx, n, cv, ps)
    for ps2, op2, args, trail in r.calls:
        fl = fields(f, args[0])
        if op == 'list_buckets':
            continue
        ctx.ob(f'{tag}: bucket', alternatives(fl['bucket']) == {T('path.bucket', T('decoded', T('RAWPATH')))}, f'{tag}:bucket', f'{tag}: the bucket of the input is not the one of the path but ' + show(fl['bucket'])[:150], trail=trail)
        if 'key' in fl:
            ks = alternatives(fl['key'])
            if form:
                ok = all(x is not None and x.k == 't' and x.a[0] == 'field' and x.a[1][1] is STR('key') for x in ks)
            else:
                ok = ks == {T('path.key', T('decoded', T('RAWPATH')))}
            ctx.ob(f'{tag}: key', ok, f'{tag}:key', f'{tag}: the key of the input is ' + show(fl['key'])[:150], trail=trail)
        if 'body' in fl:
            body_ok(ctx, e, f, tag, form, fl['body'], cv, trail)
        extra = set(fl) - set(want) - OTHER
        for x in extra:
            if alternatives(fl[x]) != {None}:
                k, nm, v = source(x)
                ok = alternatives(fl[x]) <= {None, v}
                ctx.ob(f'{tag}: {x}', ok, f'{tag}:{x}', f'{tag}: the field {x} gets ' + show(fl[x])[:150], trail=trail)

def check_fields(ctx, f, tag, op, form, want, k, nm, given, fl, trail):
    for x, (k2, nm2, v) in want.items():
        got = alternatives(fl.get(x, NONE))
        allowed = {v}
        mine = (k2, nm2) == (k, nm)
        ff = set()
        if form and x in FORMF:
            ff = {y for y in got if y is not None and y.k == 't' and y.a[0] == 'field' and y.a[1][1] is STR(FORMF[x])}
            ctx.ob(f'{tag}: {x} may come from the form', bool(ff), f'{tag}:{x}', f'{tag}: the form field {FORMF[x]} is not used for {x}', trail=trail)
        if form and x in FORMNOT:
            ctx.ob(f'{tag}: {x} is not taken from the headers of the form', v not in got, f'{tag}:{x}', f'{tag}: the field {x} of the object is taken from the {optext(x, k2, nm2)}, which describes the form', trail=trail)
            allowed = set()
        bad = got - allowed - ff - {None}
        ctx.ob(f'{tag}: {x} only from {optext(x, k2, nm2)}', not bad, f'{tag}:{x}', f'{tag}: the field {x} may get {show(next(iter(bad)))[:150] if bad else ""} instead of {optext(x, k2, nm2)}', trail=trail)
        if not mine or form and x in FORMNOT:
            continue
        txt = optext(x, k, nm)
        if given is True:
            ok = v in got and got <= {v} | ff
            ctx.ob(f'{tag}: {txt} given -> {x}', ok, f'{tag}:{x}', f'{tag}: {txt} is given but the field {x} is ' + ' or '.join(sorted('not set' if y is None else show(y)[:80] for y in got)), trail=trail)
        elif given is False:
            ctx.ob(f'{tag}: {txt} not given -> {x}', v not in got, f'{tag}:{x}', f'{tag}: {txt} is not given but {x} is set from it', trail=trail)
        else:
            ctx.ob(f'{tag}: {txt} is examined', False, f'{tag}:{x}', f'{tag}: {txt} is never looked at, the field {x} is not set from it', trail=trail)

ADAPT = re.compile(r'^adapt:(map|map_err|map_ok|inspect_err|inspect_ok|inspect|err_into)$')
CHUNK, BROKEN = T('chunk'), T('broken')

def layers(v):
    """(source, adapters) of a stream"""
    out = []
    while v.k == 't' and v.a[0].startswith('adapt:') and v.a[1]:
        out.append(v)
        v = v.a[1][0]
    return v, out

def transparent(ctx, v):
    """None when one adapter hands on every chunk unchanged and every error as an error, or what it does instead"""
    m = ADAPT.match(v.a[0])
    if not m:
        return 'is changed by ' + v.a[0][6:]
    k = m.group(1)
    if k in ('map_err', 'inspect_err', 'inspect_ok', 'inspect', 'err_into'):
        return None
    fn = v.a[1][1]
    for x in ((CHUNK,) if k == 'map_ok' else (OK(CHUNK), ERR(BROKEN))):
        r = D.DispRule(ctx.facts)
        e = Engine(ctx.facts, r)
        outs = call_with(ctx, e, r, fn, x)
        ctx.absorb(e, r)
        for rv in outs:
            for y in members(rv):
                if x is OK(CHUNK) and y is not x:
                    return 'hands on ' + show(y)[:80] + ' instead of the chunk'
                if x is CHUNK and y is not x:
                    return 'hands on ' + show(y)[:80] + ' instead of the chunk'
                if x.k == 'adt' and is_err(x) and not is_err(y):
                    return 'turns a read error into ' + show(y)[:80]
    return None

def call_with(ctx, e, r, fn, x):
    """results of calling a closure or function value on one argument"""
    if fn.k == 'clos':
        b = ctx.facts.bodies.get(fn.a[0])
        a = [fn, x]
    elif fn.k == 'fn' and fn.a[0][2]:
        b = ctx.facts.bodies.get(fn.a[0][2])
        a = [x]
    else:
        b = None
    if b is None:
        raise Missing('closure of a stream adapter: ' + show(fn)[:80])
    return [e.snap(m, rv) for rv, m, ps in e.run(b, a, {}, r.init, 0)]

def stream_ok(ctx, tag, what, v, good, trail):
    src, ad = layers(v)
    ctx.ob(f'{tag}: {what}', good(src), f'{tag}:{what}', f'{tag}: {what}: the storage operation reads ' + show(src)[:150], trail=trail)
    for a in ad:
        why = transparent(ctx, a)
        ctx.ob(f'{tag}: {what} is handed on unchanged', why is None, f'{tag}:{what}:adapter', f'{tag}: {what}: the stream of the body {why}', trail=trail)

def body_ok(ctx, e, f, tag, form, v, cv, trail):
    bodies = alternatives(fields(f, cv)['body'])
    for x in alternatives(v):
        if x is None:
            ctx.ob(f'{tag}: body', False, f'{tag}:body', f'{tag}: the storage operation may be called without the body', trail=trail)
            continue
        if x.k == 't' and x.a[0].endswith(('ByteStream::new', 'ByteStream::new_with_size')):
            x = x.a[1][0]
        if form:
            isfile = lambda y: y.k == 't' and y.a[0] == '.stream' and y.a[1][0].k == 't' and y.a[1][0].a[0] == '.file' and y.a[1][0].a[1][0].k == 't' and y.a[1][0].a[1][0].a[0] == 'form'
            stream_ok(ctx, tag, 'the body is the file of the form', x, isfile, trail)
        else:
            src, ad = layers(x)
            # the adapters of the service itself are inside the body it gives to the handler
            for y in members(src):
                deep = y
                while deep not in bodies and deep.k == 't' and deep.a[0].startswith('adapt:'):
                    deep = deep.a[1][0]
                stream_ok(ctx, tag, 'the body is the one of the request', y, lambda z: z in bodies, trail)
            for a in ad:
                why = transparent(ctx, a)
                ctx.ob(f'{tag}: body handed on unchanged', why is None, f'{tag}:body:adapter', f'{tag}: the stream of the body {why}', trail=trail)

# ---- x-amz-meta-* ------------------------------------------------------------------------------------
META = STR('x-amz-meta-')

class MetaRule(D.DispRule, Exact):
    """The x-amz-meta-* part of an upload, over lists of known length.
    ps: (facts, flags, calls, what is known of the names: frozenset of (i, 'p' starts with the prefix | 'e' nothing follows, value))"""
    init = (frozenset(), frozenset(), (), frozenset())
    exact = True
    def choose(self, ps, kind, name, opts):
        # the other headers are not given
        if kind in ('h', 'q') and self.fact(ps, kind, name) is None:
            return [(t, ps) for x, t in opts if x is False]
        return D.DispRule.choose(self, ps, kind, name, opts)

    def into(self, ps, body, args, eng, mem):
        p = body['path']
        if p.endswith('Multipart::find_field_value'):
            n = eng.snap(mem, args[1])
            return [(SOME(T('field', T('FORM'), n)) if n is STR('key') else NONE, ps)]
        return D.DispRule.into(self, ps, body, args, eng, mem)

    def strip(self, v):
        while True:
            if v.k in ('st', 'seq') or v.k == 't' and re.search(r'to_ascii_lowercase$|to_lowercase$|::from$|to_owned$|to_string$|as_str$|::into$|mem::take$|::clone$', v.a[0]) and v.a[1]:
                v = v.a[0] if v.k != 't' else v.a[1][0]
            else:
                return v

    def names(self, v):
        """(index, rest of the name?) of a term over the name of an entry"""
        v = self.strip(v)
        if v.k != 't':
            return None
        n, a = v.a
        if n == 'entry.name':
            return a, False
        if n == '.1' and a[0].k == 't' and a[0].a[0].endswith('::split_at'):
            x = self.names(a[0].a[1][0])
            return (x[0], True) if x and not x[1] and self.preflen(a[0].a[1][1]) else None
        if n == 'rest':
            x = self.names(a[0])
            return (x[0], True) if x and not x[1] else None
        if len(a) == 2 and a[1].k == 'adt' and a[1].a[0].endswith('RangeFrom'):
            x = self.names(a[0])
            return (x[0], True) if x and not x[1] and self.preflen(a[1].a[2][0]) else None
        return None

    def preflen(self, v):
        return v.k == 'int' and v.a[0] == len(META.a[0]) or v.k == 't' and v.a[0].endswith('::len') and v.a[1][0] is META

    def length(self, v):
        """(index, rest of the name?) of the length of a name"""
        if v.k == 't' and re.search(r'(^|::)len$', v.a[0]) and len(v.a[1]) == 1:
            return self.names(v.a[1][0])
        return None

    def cond(self, ps, t, pos, eng, mem):
        op = t.a[0].replace('bin:', '').lower() if t.k == 't' else ''
        if op in ('eq', 'ne', 'lt', 'gt', 'le', 'ge') and len(t.a[1]) == 2:
            flip = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}
            for x, y, o in ((t.a[1][0], t.a[1][1], op), (t.a[1][1], t.a[1][0], flip.get(op, op))):
                if x.k == 't' and x.a[0] == 'prefix' and y is META and o in ('eq', 'ne'):
                    return self.tell(ps, self.names(x.a[1][0])[0], 'p', [(True, int(pos == (o == 'eq'))), (False, int(pos != (o == 'eq')))])
                n = self.names(x)
                if n and n[1] and y is STR('') and o in ('eq', 'ne'):
                    return self.tell(ps, n[0], 'e', [(True, int(pos == (o == 'eq'))), (False, int(pos != (o == 'eq')))])
                n = self.length(x)
                k = len(META.a[0]) if self.preflen(y) else y.a[0] if y.k == 'int' else None
                if not n or k is None:
                    continue
                # the rest of the name is empty / longer than nothing
                k -= 0 if n[1] else len(META.a[0])
                empty = {('eq', 0): True, ('ne', 0): False, ('le', 0): True, ('gt', 0): False, ('lt', 1): True, ('ge', 1): False}.get((o, k))
                if empty is None:
                    continue
                if n[1] or (n[0], 'p', True) in ps[3]:
                    return self.tell(ps, n[0], 'e', [(True, int(pos == empty)), (False, int(pos != empty))])
                if o in ('le', 'gt', 'lt', 'ge'):
                    return self.tell(ps, n[0], 'l', [(True, int(pos != empty)), (False, int(pos == empty))])
        return D.DispRule.cond(self, ps, t, pos, eng, mem)

    def tell(self, ps, i, kind, opts):
        out = []
        for x, t in opts:
            if (i, kind, not x) in ps[3] or kind == 'e' and (i, 'l', x) in ps[3]:
                continue
            out.append((t, ps[:3] + (ps[3] | {(i, kind, x)},) + ps[4:]))
        return out

    def on_call(self, ps, e):
        p, a = e.path, e.args
        n = self.names(a[0]) if a else None
        if n and p.endswith('str>::strip_prefix') and a[1] is META and not n[1]:
            return self.tell(ps, n[0], 'p', [(True, SOME(T('rest', a[0]))), (False, NONE)])
        if n and p.endswith('str>::starts_with') and a[1] is META and not n[1]:
            return self.tell(ps, n[0], 'p', [(True, TRUE), (False, FALSE)])
        if n and not n[1] and re.search(r'str>::get$', p) and a[1].k == 'adt' and a[1].a[0].endswith('RangeTo') and self.preflen(a[1].a[2][0]):
            # the first bytes of the name, when there are as many
            return [(SOME(T('prefix', a[0])), ps), (NONE, ps[:3] + (ps[3] | {(n[0], 'p', False)},) + ps[4:])]
        if n and p.endswith('::is_empty') and n[1]:
            return self.tell(ps, n[0], 'e', [(True, TRUE), (False, FALSE)])
        if re.search(r'(HashMap|BTreeMap)::<.*>::(new|with_capacity)$|(HashMap|BTreeMap)<.*> as core::default::Default>::default$', p):
            return [(T('hmap', ARR([])), ps)]
        m = re.search(r'(?:HashMap|BTreeMap)(?:::)?<.*>(?: as .*>)?::(insert|is_empty|len|extend|from_iter)$', p)
        if m:
            k = m.group(1)
            if k == 'from_iter':
                xs = exact(a[0])
                return [(T('hmap', ARR(xs)), ps)] if xs is not None else None
            ref, v = self.target(e)
            if v.k == 't' and v.a[0] == 'hmap':
                xs = exact(v.a[1][0])
                if k == 'is_empty':
                    return [(INT(int(not xs)), ps)]
                if k == 'len':
                    return [(INT(len(xs)), ps)]
                ys = [TUP(a[1], a[2])] if k == 'insert' else exact(a[1])
                if ys is not None and ref is not None:
                    return [(NONE if k == 'insert' else UNIT, ps, self.store(e, ref, T('hmap', ARR(xs + ys))))]
        if p.endswith('Iterator::collect') and re.search(r'^std::collections::hash::map::HashMap<|^alloc::collections::btree::map::BTreeMap<', e.rty):
            xs = exact(a[0])
            if xs is not None:
                return [(T('hmap', ARR(xs)), ps)]
        r = self.lists(ps, e)
        if r is not None:
            return r
        return D.DispRule.on_call(self, ps, e)

def metadata(ctx, tag, n, form, cv, ps):
    """the user metadata of an upload with 0 to 3 entries (headers or form fields) is exactly that of the x-amz-meta- entries"""
    fl = fields(ctx.facts, cv)
    for k in (0, 1, 2, 3):
        ents = ARR([TUP(T('entry.name', INT(i)), T('entry.value', INT(i))) for i in range(k)])
        cv2 = with_fields(cv, headers=ARR([]) if form else ents)
        if form:
            mp = 'streams::multipart::Multipart'
            names = ctx.facts.adts[mp]['variants'][0]['fields']
            src = [x for x in alternatives(fl['multipart']) if x is not None][0]
            cv2 = with_fields(cv2, multipart=SOME(ADT(mp, 0, tuple(ents if x == 'fields' else T('.' + x, src) for x in names))))
        r = MetaRule(ctx.facts)
        r, e, outs = D.run_handler(ctx, n, cv2, ps + (frozenset(),), r)
        what = f'{tag}: metadata of {k} ' + ('form fields' if form else 'headers')
        ctx.ob(f'{what}: {len(r.calls)} cases', bool(r.calls), f'{tag}:metadata:none', f'{what}: no case reaches the storage')
        for ps2, op, args, tr in r.calls:
            got = alternatives(fields(ctx.facts, args[0])['metadata'])
            d = {(i.a[0], q): x for (i,), q, x in ps2[3]}
            for (i, q), x in list(d.items()):
                if q == 'l' and d.get((i, 'p')) is True:
                    d[i, 'e'] = not x
            must = {i for i in range(k) if d.get((i, 'p')) is True and d.get((i, 'e')) is False}
            may = {i for i in range(k) if d.get((i, 'p')) is not False and d.get((i, 'e')) is not True and d.get((i, 'l')) is not False}
            def ob(key, ok, msg):
                ctx.ob(f'{what}: {key} {sorted(must)}', ok, f'{tag}:metadata:{key}', f'{what}: {msg}', trail=tr)
            ents2 = []
            for x in got:
                if x is None:
                    continue
                xs = exact(x.a[1][0]) if x.k == 't' and x.a[0] == 'hmap' else None
                if xs is None:
                    ob('known', False, 'the metadata is ' + show(x)[:120])
                    ents2 = None
                    break
                ents2 += xs
            if ents2 is None:
                continue
            have = set()
            for x in ents2:
                kk, vv = x.a[0] if x.k == 'tup' else (x, x)
                nm = r.names(kk)
                if not nm or not nm[1]:
                    ob('name', False, 'an entry of the metadata gets the name ' + show(kk)[:120])
                    continue
                i = nm[0][0].a[0]
                have.add(i)
                ob('value', r.strip(vv) is T('entry.value', INT(i)), f'the entry of header {i} gets the value ' + show(vv)[:100])
            ob('prefix', have <= may and all(d.get((i, 'p')) is True for i in have), 'metadata is taken from an entry which need not start with x-amz-meta-')
            ob('empty', all(d.get((i, 'e')) is False for i in have), 'metadata with an empty name may be stored')
            ob('lost', must <= have and may <= have, 'an x-amz-meta-NAME entry is left out of the metadata')
            ob('handed on', bool(have) == (got != {None}), 'metadata is given without entries or left out with entries')

# ---- XML bodies --------------------------------------------------------------------------------------
XML = {   # field of the input -> {path below it: path of elements}
    ('complete_multipart_upload', 'multipart_upload'): {'parts.*.e_tag': 'Part.*.ETag', 'parts.*.part_number': 'Part.*.PartNumber'},
    ('create_bucket', 'create_bucket_configuration'): {'location_constraint': 'LocationConstraint'},
    ('delete_objects', 'delete'): {'objects.*.key': 'Object.*.Key', 'objects.*.version_id': 'Object.*.VersionId', 'quiet': 'Quiet'},
}

def element_names(ctx, ps_init):
    """{(module, field): element} of the structures which are read from XML"""
    f = ctx.facts
    out = {}
    for b in list(f.bodies.values()):
        m = re.search(r"Deserialize<'de> for ([\w:]+)>::deserialize::FIELDS$", b['path'])
        if not (b['local'] and m and b['kind'] == 'const' and '-lib:' in b['uid']):
            continue
        ad = f.adts.get(m.group(1))
        if ad is None:
            continue
        r = D.DispRule(f)
        e = Engine(f, r)
        outs = e.run(b, [], {}, r.init, 0)
        ctx.absorb(e, r)
        v = e.snap(outs[0][1], outs[0][0])
        while v.k == 'ref':
            v = e.load(outs[0][1], v.a[0], v.a[1])
        names = [x.a[0] if x.k == 'str' else None for x in v.a[0]] if v.k == 'arr' else None
        fl = ad['variants'][0]['fields']
        if names is None or len(names) != len(fl):
            continue
        for a, n in zip(fl, names):
            out.setdefault(a, []).append((m.group(1), n))
    return out

def element_path(v, bodies, d=0):
    """fields which lead from the parsed document to a value, '*' for an element of a list; None when it is something else"""
    if d > 30 or v.k != 't':
        if v.k in ('seq', 'st'):
            return None
        return None
    n, a = v.a
    if n == 'call:quick_xml::de::from_reader' or n.startswith('call:quick_xml::de::from_'):
        x = a[0]
        return [] if x.k == 't' and x.a[0] == 'whole-body' and set(members(x.a[1][0])) <= bodies else None
    if n in ('.Some.0', '.Ok.0'):
        return element_path(a[0], bodies, d + 1)
    if n == 'each':
        r = element_path(a[0], bodies, d + 1)
        return None if r is None else r + ['*']
    if n.startswith('.') and len(a) == 1:
        r = element_path(a[0], bodies, d + 1)
        return None if r is None else r + [n[1:].split('.')[-1]]
    if re.search(r'::(into_iter|iter|into|from|clone|to_owned|to_string|as_str)$', n) and len(a) == 1:
        return element_path(a[0], bodies, d + 1)
    return None

def leaves(ctx, v, bodies, pre=()):
    """[(path below the field, value, what)] of an input structure"""
    out = []
    for x in alternatives(v):
        if x is None:
            continue
        if x.k == 'adt':
            for n, y in fields(ctx.facts, x).items():
                out += leaves(ctx, y, bodies, pre + (n,))
            continue
        if x.k == 't' and x.a[0].endswith('Iterator::collect'):
            it = x.a[1][0]
            if it.k == 't' and it.a[0].endswith('Iterator::map') and it.a[1][-1].k == 't' and it.a[1][-1].a[0] == 'ret':
                src = element_path(it.a[1][0], bodies)
                out.append((pre, src, None))
                out += leaves(ctx, it.a[1][-1].a[1][0], bodies, pre + ('*',))
                continue
        if x.k == 'seq':
            r = elems(x)
            if r is not None and r is not NOELEM:
                out += leaves(ctx, r, bodies, pre + ('*',))
                continue
        out.append((pre, element_path(x, bodies), x))
    return out

@prop('X05', 'provenance analysis: every handler which reads an XML body is interpreted; each leaf of the input structure is a term over the parsed document, and the chain of fields is compared, by the element names of the derived deserializer, with the S3 document')
def x05(ctx):
    names = element_names(ctx, None)
    done = set()
    for n, form, cv, ps in entries(ctx):
        bodies = alternatives(fields(ctx.facts, cv)['body'])
        r, e, _ = D.run_handler(ctx, n, cv, ps)
        for ps2, op, args, trail in r.calls:
            if form:
                continue
            for (op2, fld), want in XML.items():
                if op2 != op:
                    continue
                fl = fields(ctx.facts, args[0])
                got = {}
                for pre, src, x in leaves(ctx, fl[fld], bodies):
                    p = '.'.join(pre)
                    el = None
                    if src is not None:
                        el = []
                        mod = None
                        for s in src:
                            if s == '*':
                                el.append('*')
                                continue
                            cand = [(m, q) for m, q in names.get(s, []) if op in m]
                            el.append(cand[0][1] if len(cand) == 1 else '?' + s)
                        el = '.'.join(el)
                    if x is None:
                        # a list as such
                        w = [q for k, q in want.items() if k.startswith(p + '.*')]
                        ok = el is not None and any(q.startswith(el + '.*') for q in w)
                        ctx.ob(f'{op}: {fld}.{p} is the list of elements {el}', ok, f'{op}:{p}', f'{op}: the list {p} of the input is not the one of the document', trail=trail)
                        continue
                    got[p] = el
                    if p in want:
                        done.add((op, p))
                        ctx.ob(f'{op}: {fld}.{p} is element {want[p]}', el == want[p], f'{op}:{p}', f'{op}: {fld}.{p} is read from ' + (el or show(x)[:120]) + f' instead of the element {want[p]}', trail=trail)
                for p in want:
                    ctx.ob(f'{op}: {fld}.{p} is set', p in got or alternatives(fl[fld]) == {None}, f'{op}:{p}', f'{op}: {fld}.{p} is not set from the document', trail=trail)
    for (op, fld), want in XML.items():
        for p in want:
            ctx.ob(f'{op}: element {want[p]} reaches the operation', (op, p) in done, f'{op}:{p}', f'{op}: the element {want[p]} never reaches the operation')

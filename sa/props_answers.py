"""Answers: status, headers and body of the response made from an output or an error."""
from core import *
from lists import *
from svcmodel import hname

RESP = 'RESP'
def resp(status, headers, body): return ADT(RESP, 0, (status, headers, body))
PART = [('f', 0, 'status'), ('f', 1, 'headers'), ('f', 2, 'body')]
HDRS = T('hdrs')
S200 = T('const:http::status::StatusCode::OK')
EMPTYB = T('empty')

class AnsRule(Exact):
    """ps: tuple of failed conversions"""
    init = ()
    stands_for_any = True
    fail = False        # conversions may fail
    def special(self, ps, e):
        p, a = e.path, e.args
        one = lambda v, mem=None: [(v, ps, e.mem if mem is None else mem)]
        may = lambda v, n: [(OK(v), ps, e.mem)] + ([(ERR(T('failed:' + n)), ps + (n,), e.mem)] if self.fail else [])
        if re.search(r'http::response::Response::<.*>::new$', p):
            return one(resp(S200, HDRS, a[0]))
        if re.search(r'http::response::Response::<.*>::from_parts$|http::response::builder', p):
            return None
        m = re.search(r'http::response::Response::<.*>::(status|headers|body)(_mut)?$', p)
        if m:
            ref, v = self.target(e)
            i = ['status', 'headers', 'body'].index(m.group(1))
            if m.group(2) and ref is not None:
                return one(REF(ref.a[0], ref.a[1] + (PART[i],)))
            return one(v.a[2][i]) if v.k == 'adt' and v.a[0] == RESP else None
        m = re.search(r'http::header::map::HeaderMap::<.*>::(insert|append|remove|clear|get|contains_key)$', p)
        if m:
            ref, v = self.target(e)
            if m.group(1) not in ('insert', 'append') or ref is None or v.k != 't' or v.a[0] != 'hdrs':
                return None
            n = self.name(a[1])
            old = [x for x in v.a[1] if not (m.group(1) == 'insert' and x.a[0][0] is n)]
            return one(NONE if len(old) == len(v.a[1]) else SOME(T('old')), self.store(e, ref, T('hdrs', *old, TUP(n, a[2]))))
        if re.search(r'HeaderValue as core::convert::TryFrom<.*>>::try_from$|HeaderValue::(from_str|from_bytes|from_maybe_shared)$|HeaderValue as core::str::FromStr>::from_str$', p):
            return may(T('hv', self.disp(a[-1])), 'header value')
        if re.search(r'HeaderValue::from_static$|HeaderValue as core::convert::From<.*>>::from$', p):
            return one(T('hv', self.disp(a[-1])))
        if re.search(r'HeaderName::from_bytes$|HeaderName as core::str::FromStr>::from_str$|HeaderName as core::convert::TryFrom<.*>>::try_from$', p):
            return may(T('hn', self.disp(a[-1])), 'header name')
        if re.search(r'str::<impl str>::parse$', p) and any(t.endswith(('HeaderName', 'HeaderValue')) for t in e.targs or ()):
            return may(T('hn' if e.targs[0].endswith('HeaderName') else 'hv', self.disp(a[0])), 'header name' if e.targs[0].endswith('HeaderName') else 'header value')
        if re.search(r'HeaderName::from_static$', p):
            return one(T('hn', a[0]))
        m = re.search(r'xml::writer::events::XmlEvent::<.*>::(start_element|end_element|characters|cdata)$', p)
        if m:
            return one(T('xml:' + m.group(1), *[self.disp(x) for x in a]))
        if re.search(r'StartElementBuilder.*Into.*>::into$|EndElementBuilder.*Into.*>::into$|XmlEvent.*From.*>::from$', p):
            return one(a[0])
        if re.search(r'xml::writer::emitter|xml::writer::EventWriter::<.*>::new(_with_config)?$|xml::writer::events::EmitterConfig', p):
            if p.endswith('::new') and 'EventWriter' in p:
                self.unknown_xml = False
                return one(T('writer', e.raw[0]) if e.raw[0].k != 'ref' else ADT('WRITER', 0, (e.raw[0],)))
            return None
        if re.search(r'xml::writer::EventWriter::<.*>::write$', p):
            ref, v = self.target(e)
            if v.k != 'adt' or v.a[0] != 'WRITER':
                return None
            dst = v.a[2][0]
            old = e.eng.load(e.mem, dst.a[0], dst.a[1])
            m2 = dict(e.mem)
            e.eng.write_targets(m2, [(dst.a[0], dst.a[1])], seq_push(e.eng.snap(e.mem, old), 'xml', (a[1],)))
            out = [(OK(UNIT), ps, m2)]
            if self.fail:
                out.append((ERR(T('failed:xml')), ps + ('xml',), e.mem))
            return out
        if re.search(r'hyper::body::.*Body::empty$|hyper::body::.*Body as core::default::Default>::default$', p):
            return one(EMPTYB)
        if re.search(r'hyper::body::.*Body as core::convert::From<.*>>::from$', p):
            return one(T('full', a[0]))
        if re.search(r'hyper::body::.*Body::wrap_stream', p):
            return one(T('stream', a[0]))
        if p.endswith('Mime as core::convert::AsRef<str>>::as_ref') or p.endswith('Mime::essence_str'):
            return one(T('disp', a[0]))
        return None
    def name(self, v):
        n = hname(v)
        return STR(n) if n is not None else v
    def disp(self, v):
        return norm(v)
    def enter(self, ps, body, args, eng, mem):
        if body['path'].endswith('map_opt_rfc3339_to_last_modified'):
            x = eng.snap(mem, args[0])
            if x is NONE:
                return [(OK(NONE), ps)]
            if x.k == 'adt':
                return [(OK(SOME(T('lastmod', x.a[2][0]))), ps)] + ([(ERR(T('failed:time')), ps + ('time',))] if self.fail else [])
        return None

# ---- the S3 tables ----
OUTHDR = {'e_tag': 'etag', 'last_modified': 'last-modified', 'accept_ranges': 'accept-ranges', 'content_range': 'content-range', 'parts_count': 'x-amz-mp-parts-count',
          'tag_count': 'x-amz-tagging-count', 'location': 'location', 'bucket_key_enabled': 'x-amz-server-side-encryption-bucket-key-enabled'}
SSE = 'server_side_encryption sse_customer_algorithm sse_customer_key_md5 ssekms_key_id '
OBJ_H = 'delete_marker accept_ranges expiration restore last_modified content_length e_tag missing_meta version_id cache_control content_disposition content_encoding content_language ' \
        'content_type expires website_redirect_location storage_class request_charged replication_status parts_count object_lock_mode object_lock_retain_until_date object_lock_legal_hold_status ' + SSE
HEADERS = {
    'CompleteMultipartUpload': 'expiration server_side_encryption version_id ssekms_key_id request_charged',
    'CopyObject': 'expiration copy_source_version_id version_id ssekms_encryption_context request_charged ' + SSE,
    'CreateBucket': 'location',
    'CreateMultipartUpload': 'ssekms_encryption_context request_charged ' + SSE,
    'DeleteBucket': '',
    'DeleteObject': 'delete_marker version_id request_charged',
    'DeleteObjects': 'request_charged',
    'GetBucketLocation': '',
    'GetObject': OBJ_H + 'content_range tag_count',
    'HeadBucket': '',
    'HeadObject': OBJ_H,
    'ListBuckets': '', 'ListObjects': '', 'ListObjectsV2': '',
    'PutObject': 'expiration e_tag version_id ssekms_encryption_context request_charged ' + SSE,
    'UploadPart': 'e_tag request_charged ' + SSE,
}
ALLOWED = {'bucket_key_enabled', 'abort_date', 'abort_rule_id', 'archive_status', 'checksum_crc32', 'location'}     # may be added
def out_header(f):
    from props_fields import HDR
    return OUTHDR.get(f) or HDR.get(f, 'x-amz-' + f.replace('_', '-'))

def E(tag, field): return ('e', tag, field)
def S(tag, field, ty, kids): return ('s', tag, field, ty, kids)       # optional element with elements
def L(wrap, tag, field, ty, kids): return ('l', wrap, tag, field, ty, kids)   # list
OWNER = S('Owner', 'owner', 'Owner', [E('ID', 'id'), E('DisplayName', 'display_name')])
LISTING = [E('IsTruncated', 'is_truncated'),
           L(None, 'Contents', 'contents', 'Object', [E('Key', 'key'), E('LastModified', 'last_modified'), E('ETag', 'e_tag'), E('Size', 'size'), E('StorageClass', 'storage_class'), OWNER]),
           E('Name', 'name'), E('Prefix', 'prefix'), E('Delimiter', 'delimiter'), E('MaxKeys', 'max_keys'),
           L(None, 'CommonPrefixes', 'common_prefixes', 'CommonPrefix', [E('Prefix', 'prefix')]), E('EncodingType', 'encoding_type')]
DOC = {
    'CompleteMultipartUpload': ('CompleteMultipartUploadResult', [E('Location', 'location'), E('Bucket', 'bucket'), E('Key', 'key'), E('ETag', 'e_tag')]),
    'CopyObject': (None, [S('CopyObjectResult', 'copy_object_result', 'CopyObjectResult', [E('ETag', 'e_tag'), E('LastModified', 'last_modified')])]),
    'CreateMultipartUpload': ('InitiateMultipartUploadResult', [E('Bucket', 'bucket'), E('Key', 'key'), E('UploadId', 'upload_id')]),
    'DeleteObjects': ('DeleteResult', [
        L(None, 'Deleted', 'deleted', 'DeletedObject', [E('DeleteMarker', 'delete_marker'), E('DeleteMarkerVersionId', 'delete_marker_version_id'), E('Key', 'key'), E('VersionId', 'version_id')]),
        L(None, 'Error', 'errors', 'S3Error', [E('Code', 'code'), E('Key', 'key'), E('Message', 'message'), E('VersionId', 'version_id')])]),
    'GetBucketLocation': (None, [('text', 'LocationConstraint', 'location_constraint')]),
    'ListBuckets': ('ListAllMyBucketsResult', [
        L('Buckets', 'Bucket', 'buckets', 'Bucket', [E('CreationDate', 'creation_date'), E('Name', 'name')]), OWNER]),
    'ListObjects': ('ListBucketResult', LISTING + [E('Marker', 'marker'), E('NextMarker', 'next_marker')]),
    'ListObjectsV2': ('ListBucketResult', LISTING + [E('KeyCount', 'key_count'), E('ContinuationToken', 'continuation_token'), E('NextContinuationToken', 'next_continuation_token'), E('StartAfter', 'start_after')]),
}
STATUS = {'DeleteBucket': 204, 'DeleteObject': 204}
CODES = {'OK': 200, 'NO_CONTENT': 204, 'PARTIAL_CONTENT': 206, 'MOVED_PERMANENTLY': 301, 'TEMPORARY_REDIRECT': 307, 'BAD_REQUEST': 400, 'FORBIDDEN': 403, 'NOT_FOUND': 404, 'METHOD_NOT_ALLOWED': 405,
         'CONFLICT': 409, 'LENGTH_REQUIRED': 411, 'PRECONDITION_FAILED': 412, 'RANGE_NOT_SATISFIABLE': 416, 'INTERNAL_SERVER_ERROR': 500, 'NOT_IMPLEMENTED': 501, 'SERVICE_UNAVAILABLE': 503}

def status_of(v):
    if v.k == 't' and v.a[0].startswith('const:http::status::StatusCode::'):
        return CODES.get(v.a[0].rsplit('::', 1)[1], v.a[0])
    if v.k == 'int':
        return v.a[0]
    if v.k == 'adt' and v.a[2] and v.a[2][0].k in ('int', 'adt'):
        return status_of(v.a[2][0])
    for x in find(v, lambda x: x.k == 'int'):
        return x.a[0] if 'from_u16' in show(v) else show(v)[:80]
    return show(v)[:80]

def plain(v):
    """text shown for a value"""
    v = norm(v)
    while v.k == 't' and v.a[0] in ('disp', 'dispint') and len(v.a[1]) == 1:
        v = v.a[1][0]
    return v

# ---- documents ----
class NotXml(Exception):
    pass

def tree(facts, v):
    """[(tag, kids)]: kids is a list of elements and texts"""
    if v.k != 'seq':
        raise NotXml('the body is ' + show(v)[:120])
    root, stack = [], []
    cur = root
    n = 0
    for st in v.a[1]:
        if st[0] != 'xml':
            raise NotXml('the body is changed by ' + str(st[0]))
        ev = st[1][0]
        k, a = None, ()
        if ev.k == 't' and ev.a[0].startswith('xml:'):
            k, a = ev.a[0][4:], ev.a[1]
        elif ev.k == 'adt' and 'XmlEvent' in ev.a[0]:
            ad = facts.adts.get(ev.a[0])
            k = ad['variants'][ev.a[1]]['name'] if ad else None
            k = {'StartDocument': 'start', 'Characters': 'characters', 'CData': 'characters', 'EndElement': 'end_element'}.get(k, k)
            a = ev.a[2]
        if k == 'start':
            if n:
                raise NotXml('the declaration is not at the start')
        elif k == 'start_element':
            kids = []
            cur.append((text_of(a[0]), kids))
            stack.append(cur)
            cur = kids
        elif k == 'end_element':
            if not stack:
                raise NotXml('an element ends which was not started')
            cur = stack.pop()
        elif k in ('characters', 'cdata'):
            if not stack:
                raise NotXml('text outside of the document element')
            x = plain(a[0])
            if x is not STR(''):
                cur.append(x)
        else:
            raise NotXml('unknown part ' + show(ev)[:100])
        n += 1
    if stack:
        raise NotXml('an element is not ended')
    return root

def text_of(v):
    v = plain(v)
    return v.a[0] if v.k == 'str' else show(v)

def canon(kids):
    """children sorted by tag, the order of equal tags kept"""
    el = [x for x in kids if isinstance(x, tuple)]
    tx = [x for x in kids if not isinstance(x, tuple)]
    return (tuple(show(x) for x in tx), tuple((t, canon(k)) for t, k in sorted(el, key=lambda x: x[0])))

def xml(kids, d=0):
    out = ''
    for x in kids:
        out += f'<{x[0]}>{xml(x[1], d + 1)}</{x[0]}>' if isinstance(x, tuple) else show(x)
    return out

# ---- outputs ----
GEN = 'rusoto_s3::generated::'
def val(p): return T('val', STR(p))

class Out:
    """an output with some of its parts present"""
    def __init__(self, facts, op, ty):
        self.f, self.op, self.ty = facts, op, ty
        self.fields = facts.adts[ty]['variants'][0]['fields']
        self.doc = DOC.get(op, (None, []))
        self.parts = []        # every optional part: (path, parent)
        docfields = set()
        for n in self.doc[1]:
            docfields.add(n[3] if n[0] == 'l' else n[2])
            self.walk(n, '', None)
        for x in self.fields:
            if x not in docfields:
                self.parts.append((x, None))
        self.docfields = docfields

    def walk(self, n, pre, parent):
        if n[0] in ('e', 'text'):
            self.parts.append((pre + n[2], parent))
        elif n[0] == 's':
            p = pre + n[2]
            self.parts.append((p, parent))
            for k in n[4]:
                self.walk(k, p + '.', p)
        else:
            p = pre + n[3]
            self.parts.append((p, parent))
            for i in (0, 1, 2):
                q = f'{p}[{i}]'
                self.parts.append((q, p))
                for k in n[5]:
                    self.walk(k, q + '.', q)

    def struct(self, ty, kids, pre, have):
        name = GEN + ty
        if name not in self.f.adts:
            raise Missing('type ' + name)
        by = {(n[3] if n[0] == 'l' else n[2]): n for n in kids}
        vs = []
        for x in self.f.adts[name]['variants'][0]['fields']:
            vs.append(self.value(by.get(x, E(x, x)), pre, have))
        return ADT(name, 0, tuple(vs))

    def value(self, n, pre, have):
        p = pre + (n[3] if n[0] == 'l' else n[2])
        if p not in have:
            return NONE
        if n[0] in ('e', 'text'):
            return SOME(val(p))
        if n[0] == 's':
            return SOME(self.struct(n[3], n[4], p + '.', have))
        return SOME(ARR([self.struct(n[4], n[5], f'{p}[{i}].', have) for i in (0, 1, 2) if f'{p}[{i}]' in have]))

    def input(self, have):
        by = {(n[3] if n[0] == 'l' else n[2]): n for n in self.doc[1]}
        vs = []
        for x in self.fields:
            if x == 'metadata' and x in have:
                vs.append(SOME(ARR([TUP(val('name0'), val('value0')), TUP(val('name1'), val('value1'))])))
            else:
                vs.append(self.value(by.get(x, E(x, x)), '', have))
        return ADT(self.ty, 0, tuple(vs))

    def expect(self, kids, pre, have):
        out = []
        for n in kids:
            p = pre + (n[3] if n[0] == 'l' else n[2])
            if n[0] == 'text':
                out.append((n[1], [val(p)] if p in have else []))
            elif p not in have:
                continue
            elif n[0] == 'e':
                out.append((n[1], [val(p)]))
            elif n[0] == 's':
                out.append((n[1], self.expect(n[4], p + '.', have)))
            else:
                items = [(n[2], self.expect(n[5], f'{p}[{i}].', have)) for i in (0, 1, 2) if f'{p}[{i}]' in have]
                out += [(n[1], items)] if n[1] else items
        return out

    def document(self, have):
        k = self.expect(self.doc[1], '', have)
        return [(self.doc[0], k)] if self.doc[0] else k

    # ---- families of scenarios ----
    def closed(self, s):
        """the part and what it is in"""
        up = dict(self.parts)
        out = set(s)
        for x in s:
            while up.get(x) is not None:
                x = up[x]
                out.add(x)
        return frozenset(out)
    def without(self, x):
        up = dict(self.parts)
        def inside(y):
            while y is not None:
                if y == x: return True
                y = up.get(y)
            return False
        return frozenset(y for y, _ in self.parts if not inside(y))
    def families(self, pairs):
        ps = [p for p, _ in self.parts]
        full = frozenset(ps)
        fam = [frozenset(), full] + [self.closed({p}) for p in ps] + [self.without(p) for p in ps]
        if pairs:
            top = [p for p, up in self.parts if up is None]
            fam += [self.closed({a, b}) for i, a in enumerate(top) for b in top[i + 1:]]
            fam += [self.without(a) & self.without(b) for i, a in enumerate(top) for b in top[i + 1:]]
        return list(dict.fromkeys(fam))

def entries(ctx):
    f = ctx.facts
    ent = {}
    for b in f.find(r'as output::S3Output>::try_into_response$'):
        m = re.match(r'core::result::Result<([\w:]+?(\w+)Output), ', f.ty(b, b['locals'][1]))
        if m and b['kind'] == 'fn':
            ent[m.group(2)] = (m.group(1), b)
    for op in HEADERS:
        if op not in ent:
            raise Missing('the answer to ' + op)
    return ent

def answer(ctx, b, x, fail=False):
    r = AnsRule()
    r.fail = fail
    e, outs = run_op(ctx.facts, r, b, [x])
    ctx.absorb(e, r)
    return outs

def response(ctx, op, rv, what):
    """(status, {header: value}, body) of Ok(response)"""
    if not is_ok(rv) or okv(rv).k != 'adt' or okv(rv).a[0] != RESP:
        return None
    st, hs, body = okv(rv).a[2]
    if hs.k != 't' or hs.a[0] != 'hdrs':
        raise Missing(f'the headers of the answer to {op}: ' + show(hs)[:150])
    return status_of(st), [(x.a[0][0].a[0] if x.a[0][0].k == 'str' else x.a[0][0], x.a[0][1]) for x in hs.a[1]], body

def what(have, o):
    ps = [p for p, _ in o.parts]
    miss = [p for p in ps if p not in have]
    if not have: return 'nothing is set'
    if not miss: return 'everything is set'
    return ('with ' + ', '.join(sorted(have)) if len(have) <= len(miss) else 'without ' + ', '.join(sorted(miss)))[:120]

XMLT = re.compile(r'TEXT_XML|APPLICATION_XML|^(text|application)/xml')

UTC = re.compile(r'DateTime<(chrono::)?(offset::utc::)?Utc> as core::convert::From<|::to_utc$|::naive_utc$')

def instant(v, src):
    """-> None if v is not the instant src, else 'utc' or 'any': the zone it is expressed in"""
    zone = None
    for _ in range(12):
        if v is src:
            return zone or 'any'
        if v.k != 't' or not v.a[1]:
            return None
        f = v.a[0]
        if UTC.search(f) or f.endswith('::with_timezone') and 'Utc' in show(v.a[1][1]):
            zone = zone or 'utc'
        elif f.endswith('::with_timezone') or re.search(r'DateTime<.*> as core::convert::From<', f):
            zone = zone or 'any'
        elif not (f.startswith('.Ok') or f.startswith('.Some') or re.search(r'::(into|parse_from_rfc3339|from_str|parse|from_utc_datetime|and_utc)$', f)):
            return None
        v = v.a[1][-1] if f.endswith('::from_utc_datetime') else v.a[1][0]
    return None

def times(ctx):
    """the texts of times: an RFC 3339 text of the instant; an HTTP date of the same instant in GMT"""
    from lists import Exact
    def results(fn, args):
        b = ctx.body(r'utils::time::%s$' % fn)
        r = Exact()
        e, outs = run_op(ctx.facts, r, b, args)
        ctx.absorb(e, r)
        return [x for rv, m, ps in outs for x in members(rv)]
    S = T('rfc3339-text')
    for x in results('map_opt_rfc3339_to_last_modified', [SOME(S)]):
        if is_err(x):
            continue
        v = x
        while v.k == 'adt' and v.a[0] in (RESULT, OPTION) and len(v.a[2]) == 1 or v.k == 't' and v.a[0] == 'disp':
            v = v.a[2][0] if v.k == 'adt' else v.a[1][0]
        ok = v.k == 't' and v.a[0].endswith('::format') and len(v.a[1]) == 2 and v.a[1][1].k == 'str' and \
            v.a[1][1].a[0].replace('%T', '%H:%M:%S').replace('%h', '%b') == '%a, %d %b %Y %H:%M:%S GMT' and instant(v.a[1][0], S) == 'utc'
        ctx.ob('Last-Modified is the HTTP date, in GMT, of the time in the output', ok, 'time:last-modified', 'Last-Modified is ' + show(v)[:400])
    t = T('TIME')
    for v in results('to_rfc3339', [t]):
        while v.k == 't' and v.a[0] == 'disp':
            v = v.a[1][0]
        ok = v.k == 't' and (re.search(r'::to_rfc3339(_opts)?$', v.a[0]) and instant(v.a[1][0], t) is not None or
                             v.a[0].endswith('::format') and len(v.a[1]) == 2 and v.a[1][1].k == 'str' and re.match(r'^%(Y-%m-%d|F)T%(H:%M:%S|T)(%\.\d?f)?(Z|%:z|%\+)$', v.a[1][1].a[0]) and
                             instant(v.a[1][0], t) == ('utc' if v.a[1][1].a[0].endswith('Z') else instant(v.a[1][0], t)) and instant(v.a[1][0], t) is not None)
        ctx.ob('times of the storage are written in RFC 3339', ok, 'time:rfc3339', 'a time is written as ' + show(v)[:400])

@prop('X02', 'provenance analysis of answers: the conversion of every output into a response is interpreted with sets of its fields present (none, each alone, each pair, each left out, all); status, headers and body are closed terms over the output and are compared with the S3 table')
def x02(ctx):
    times(ctx)
    for op, (ty, b) in sorted(entries(ctx).items()):
        o = Out(ctx.facts, op, ty)
        want = {x: out_header(x) for x in HEADERS[op].split()}
        lost = [x for x in want if x not in o.fields]
        if lost:
            raise Missing(f'{ty}.{lost[0]}')
        fams = [h for h in o.families(True)]
        seen = set()
        for h in fams:
            key = frozenset(p for p in h if '.' not in p and '[' not in p)
            if key in seen and h != frozenset(p for p, _ in o.parts):
                continue
            seen.add(key)
            headers(ctx, op, o, want, b, h)
        # a part which cannot be sent is an error
        full = frozenset(p for p, _ in o.parts)
        for rv, m, ps in answer(ctx, b, OK(o.input(full)), True):
            ctx.ob(f'{op}: an answer which cannot be made is an error', is_err(rv) if ps else is_ok(rv), f'{op}:unsent',
                   f'{op}: ' + (f'the {ps[0]} cannot be made but the answer is ' + ('sent without it' if is_ok(rv) else show(rv)[:100]) if ps else 'the answer is an error although everything can be sent'))

def headers(ctx, op, o, want, b, have):
    w = what(have, o)
    for rv, m, ps in answer(ctx, b, OK(o.input(have))):
        r = response(ctx, op, rv, w)
        if not ctx.ob(f'{op}: answer when {w}', r is not None, f'{op}:answer', f'{op}: no answer is made when {w}: ' + show(rv)[:120]):
            continue
        st, hs, body = r
        ws = 206 if op == 'GetObject' and 'content_range' in have else STATUS.get(op, 200)
        ctx.ob(f'{op}: status {ws} when {w}', st == ws, f'{op}:status', f'{op}: the status is {st} instead of {ws} when {w}')
        exp = {}
        for x, hn in want.items():
            if x in have:
                exp[hn] = T('lastmod', val(x)) if x == 'last_modified' else val(x)
        if 'metadata' in have and op in ('GetObject', 'HeadObject'):
            for i in (0, 1):
                exp[f'x-amz-meta-<name{i}>'] = val(f'value{i}')
        extra = {out_header(x): val(x) for x in ALLOWED if x in have and x in o.fields}
        got = {}
        for n, v in hs:
            if not isinstance(n, str):
                n = hmeta(n)
            ctx.ob(f'{op}: {n} once when {w}', n not in got, f'{op}:{n}', f'{op}: the header {n} is there twice when {w}')
            got[n] = v
        for n in set(exp) | set(got):
            v = got.get(n)
            pv = plain(v.a[1][0]) if v is not None and v.k == 't' and v.a[0] == 'hv' else v
            x = exp.get(n)
            if x is None and n in extra and pv is extra[n]:
                continue
            if x is None and n == 'content-type' and op in DOC and v is not None and XMLT.search(show(pv).strip("'").replace('const:mime::', '')):
                ctx.ob(f'{op}: content-type of the document', True)
                continue
            src = next((f for f, hn in want.items() if hn == n), None)
            ctx.ob(f'{op}: {n} when {w}', pv is x, f'{op}:{n}', f'{op}: when {w}, the header {n} is ' + ('not sent' if v is None else 'set to ' + show(pv)[:100]) + (' instead of ' + show(x)[:80] if x is not None else ' although the output has no such value'))
        if op in DOC and o.document(have):
            ctx.ob(f'{op}: the document is declared as XML when {w}', 'content-type' in got, f'{op}:content-type', f'{op}: the XML document is sent without a content type')
        if op == 'GetObject':
            wb = T('stream', val('body')) if 'body' in have else EMPTYB
            ctx.ob(f'{op}: body when {w}', body is wb, f'{op}:body', f'{op}: when {w}, the body is {show(body)[:100]} instead of {show(wb)}')
        elif op not in DOC:
            ctx.ob(f'{op}: no body', body is EMPTYB, f'{op}:body', f'{op}: the answer has the body ' + show(body)[:100])

def hmeta(v):
    """name of a header made of a prefix and the name of a piece of metadata"""
    if v.k == 't' and v.a[0] == 'hn':
        p = text(v.a[1][0])
        if p and len(p) == 2 and p[0].k == 'str':
            x = plain(p[1])
            if x.k == 't' and x.a[0] == 'val':
                return f'{p[0].a[0]}<{x.a[1][0].a[0]}>'
    return show(v)

@prop('X04', 'provenance analysis of answers: the conversion of every output with an XML document is interpreted with sets of its fields and list elements present; the sequence of XML events is built into a tree and compared with the S3 document')
def x04(ctx):
    for op, (ty, b) in sorted(entries(ctx).items()):
        if op not in DOC:
            continue
        o = Out(ctx.facts, op, ty)
        for h in o.families(True):
            h = frozenset(p for p in h if p.split('.')[0].split('[')[0] in o.docfields)
            w = what(h, o)
            exp = o.document(h)
            if not exp:
                continue       # an output without its document
            for rv, m, ps in answer(ctx, b, OK(o.input(h))):
                r = response(ctx, op, rv, w)
                if not ctx.ob(f'{op}: answer when {w}', r is not None, f'{op}:answer', f'{op}: no answer is made when {w}: ' + show(rv)[:120]):
                    continue
                body = r[2]
                try:
                    if body.k != 't' or body.a[0] != 'full':
                        raise NotXml('the body is ' + show(body)[:120])
                    got = tree(ctx.facts, body.a[1][0])
                except NotXml as ex:
                    ctx.ob(f'{op}: document when {w}', False, f'{op}:document', f'{op}: when {w}, the answer is not a document: {ex}')
                    continue
                same = canon(got) == canon(exp)
                key = 'document'
                if not same:
                    key = difference(got, exp)
                ctx.ob(f'{op}: document when {w}', same, f'{op}:{key}', f'{op}: when {w}, the document is {xml(got)[:300]} instead of {xml(exp)[:300]}')

def difference(got, exp, path=''):
    """path of the first element which differs"""
    g, x = {}, {}
    for d, l in ((g, got), (x, exp)):
        for k in l:
            if isinstance(k, tuple):
                d.setdefault(k[0], []).append(k[1])
    for t in sorted(set(g) | set(x)):
        a, b = g.get(t, []), x.get(t, [])
        if len(a) != len(b):
            return f'{path}{t}'
        for p, q in zip(a, b):
            if canon(p) != canon(q):
                return difference(p, q, f'{path}{t}/')
    return path.rstrip('/') or 'document'

# ---- errors ----
EC = 'errors::S3ErrorCode'
ESTATUS = {400: 'AmbiguousGrantByEmailAddress AuthorizationHeaderMalformed BadDigest CredentialsNotSupported EntityTooSmall EntityTooLarge ExpiredToken IllegalLocationConstraintException '
                'IllegalVersioningConfigurationException IncompleteBody IncorrectNumberOfFilesInPostRequest InlineDataTooLarge InvalidArgument InvalidBucketName InvalidDigest InvalidEncryptionAlgorithmError '
                'InvalidLocationConstraint InvalidPart InvalidPartOrder InvalidPolicyDocument InvalidRequest InvalidSOAPRequest InvalidStorageClass InvalidTargetBucketForLogging InvalidToken InvalidURI '
                'KeyTooLongError MalformedACLError MalformedPOSTRequest MalformedXML MaxMessageLengthExceeded MaxPostPreDataLengthExceededError MetadataTooLarge MissingRequestBodyError MissingSecurityElement '
                'MissingSecurityHeader NoLoggingStatusForKey RequestIsNotMultiPartContent RequestTimeout RequestTorrentOfBucketError ServerSideEncryptionConfigurationNotFoundError TokenRefreshRequired TooManyBuckets '
                'UnexpectedContent UnresolvableGrantByEmailAddress UserKeyMustBeSpecified XAmzContentSHA256Mismatch',
           403: 'AccessDenied AccountProblem AllAccessDisabled CrossLocationLoggingProhibited InvalidAccessKeyId InvalidObjectState InvalidPayer InvalidSecurity NotSignedUp ObjectNotInActiveTierError RequestTimeTooSkewed SignatureDoesNotMatch',
           404: 'NoSuchBucket NoSuchBucketPolicy NoSuchKey NoSuchLifecycleConfiguration NoSuchUpload NoSuchVersion', 405: 'MethodNotAllowed',
           409: 'BucketAlreadyExists BucketAlreadyOwnedByYou BucketNotEmpty InvalidBucketState OperationAborted RestoreAlreadyInProgress', 411: 'MissingContentLength', 412: 'PreconditionFailed',
           416: 'InvalidRange', 500: 'InternalError', 501: 'NotImplemented', 503: 'ServiceUnavailable SlowDown', 301: 'PermanentRedirect', 307: 'Redirect TemporaryRedirect'}
ESTAT = {n: s for s, l in ESTATUS.items() for n in l.split()}

class ErrRule(AnsRule):
    """hyper_call with the outcome of handle given"""
    def __init__(self, outcome):
        AnsRule.__init__(self)
        self.outcome = outcome
        self.hit = 0
    def enter(self, ps, body, args, eng, mem):
        if body['path'] == 'service::S3Service::handle' and body['kind'] == 'fn':
            return [(T('pending-handle'), ps)]
        return AnsRule.enter(self, ps, body, args, eng, mem)
    def special(self, ps, e):
        if e.path == 'await' and e.args[0] is T('pending-handle'):
            self.hit += 1
            return [(self.outcome, ps, e.mem)]
        return AnsRule.special(self, ps, e)

def error_value(f, code, msg):
    names = f.adts['errors::S3ErrorInner']['variants'][0]['fields']
    d = {'code': code, 'message': msg}
    inner = ADT('errors::S3ErrorInner', 0, tuple(d.get(n, T('inner', STR(n))) for n in names))
    return ADT('errors::S3Error', 0, (inner,))

def error_parts(f, v):
    """(code, message) of an S3Error value"""
    xs = find(v, lambda x: x.k == 'adt' and x.a[0] == 'errors::S3ErrorInner')
    if len(xs) != 1:
        return None
    d = dict(zip(f.adts['errors::S3ErrorInner']['variants'][0]['fields'], xs[0].a[2]))
    return d.get('code'), d.get('message')

@prop('X03', 'provenance analysis of errors: hyper_call is interpreted with every error code, with and without a message, and the operation-specific errors are interpreted through their conversions; status and document are compared with the S3 table of errors; the names of the codes are checked to be invertible')
def x03(ctx):
    f = ctx.facts
    for n in (EC, 'errors::S3ErrorInner', 'errors::S3Error'):
        if n not in f.adts:
            raise Missing(n)
    vs = [v['name'] for v in f.adts[EC]['variants']]
    hc = ctx.body(r'service::S3Service::hyper_call$')
    for i, n in enumerate(vs):
        for msg in (NONE, SOME(val('message'))):
            r = ErrRule(ERR(error_value(f, ADT(EC, i, ()), msg)))
            e, outs = run_op(f, r, hc, [T('SVC'), T('REQ')])
            ctx.absorb(e, r)
            if not r.hit:
                raise Missing('hyper_call does not use handle')
            for rv, m, ps in outs:
                error_answer(ctx, f, n, msg, rv)
    r = ErrRule(OK(T('the-answer')))
    e, outs = run_op(f, r, hc, [T('SVC'), T('REQ')])
    ctx.absorb(e, r)
    for rv, m, ps in outs:
        ctx.ob('an answer of the service is sent as it is', rv is OK(T('the-answer')), 'answer:changed', 'hyper_call turns an answer of the service into ' + show(rv)[:150])
    # names and codes
    to = ctx.body(r'errors::S3ErrorCode::as_static_str$')
    fr = ctx.body(r"errors::S3ErrorCode::parse_from_str$")
    for i, n in enumerate(vs):
        c = ADT(EC, i, ())
        outs = run_plain(ctx, to, [c])
        ok = len(outs) == 1 and outs[0] is STR(n)
        ctx.ob(f'{n}: name', ok, f'{n}:name', f'the name of the code {n} is ' + ' or '.join(show(x) for x in outs)[:100])
        outs = run_plain(ctx, fr, [STR(n)])
        ctx.ob(f'{n}: parsed back', outs == [OK(c)], f'{n}:parse', f'the name {n} is parsed as ' + ' or '.join(show(x) for x in outs)[:100])
    outs = run_plain(ctx, fr, [STR('NoSuchError')])
    ctx.ob('an unknown name is not a code', len(outs) == 1 and is_err(outs[0]), 'unknown:parse', 'an unknown name of an error is accepted')
    # errors of the storage
    for op, (ty, b) in sorted(entries(ctx).items()):
        e = T('storage-error')
        outs = answer(ctx, b, ERR(ADT('errors::S3StorageError', 1, (e,))))
        for rv, m, ps in outs:
            ctx.ob(f'{op}: an error of the storage is passed on', rv is ERR(e), f'{op}:other', f'{op}: an error of the storage becomes ' + show(rv)[:150])
        m = re.search(r'S3StorageError<(.*)>>$', f.ty(b, b['locals'][1]))
        et = m.group(1) if m else None
        for i, v in enumerate(f.adts.get(et, {'variants': []})['variants']):
            x = ADT(et, i, tuple(val('text') for _ in v['fields']))
            for rv, m, ps in answer(ctx, b, ERR(ADT('errors::S3StorageError', 0, (x,)))):
                cm = error_parts(f, rv) if is_err(rv) else None
                nm = vs[cm[0].a[1]] if cm and cm[0].k == 'adt' and cm[0].a[0] == EC else None
                ctx.ob(f'{op}: {v["name"]} keeps its code', nm == v['name'], f'{op}:{v["name"]}', f'{op}: the error {v["name"]} is answered as {nm or show(rv)[:100]}')
                if cm and v['fields']:
                    ctx.ob(f'{op}: {v["name"]} keeps its message', cm[1].k == 'adt' and cm[1].a[1] == 1 and plain(cm[1].a[2][0]) is val('text'), f'{op}:{v["name"]}:message', f'{op}: the message of {v["name"]} becomes ' + show(cm[1])[:100])

def run_plain(ctx, body, args):
    r = AnsRule()
    e, outs = run_op(ctx.facts, r, body, args)
    ctx.absorb(e, r)
    return [rv for rv, m, ps in outs]

def error_answer(ctx, f, n, msg, rv):
    w = f'{n} ' + ('with a message' if msg is not NONE else 'without a message')
    r = response(ctx, 'an error', rv, w)
    if not ctx.ob(f'{w} is answered', r is not None, f'{n}:answer', f'the error {w} is not answered with a response but gives ' + show(rv)[:120]):
        return
    st, hs, body = r
    if n in ESTAT:
        ctx.ob(f'{w}: status {ESTAT[n]}', st == ESTAT[n], f'{n}:status', f'the error {n} has the status {st} instead of {ESTAT[n]}')
    else:
        ctx.ob(f'{w}: an error status', isinstance(st, int) and st >= 400, f'{n}:status', f'the error {n} has the status {st}')
    try:
        if body.k != 't' or body.a[0] != 'full':
            raise NotXml('the body is ' + show(body)[:120])
        got = tree(f, body.a[1][0])
    except NotXml as ex:
        ctx.ob(f'{w}: document', False, 'error:document', f'the answer to the error {w} is not a document: {ex}')
        return
    exp = [('Error', [('Code', [STR(n)])] + ([('Message', [val('message')])] if msg is not NONE else []))]
    g = [(t, [k for k in ks if not (isinstance(k, tuple) and k[0] in ('Resource', 'RequestId', 'HostId'))]) for t, ks in got if isinstance(ks, list)]
    ctx.ob(f'{w}: document', canon(g) == canon(exp), f'{n}:document' if g and g[0][0] == 'Error' and len(g) == 1 else 'error:document', f'the document of the error {w} is {xml(got)[:200]} instead of {xml(exp)[:200]}')
    ct = dict((k, v) for k, v in hs if isinstance(k, str)).get('content-type')
    ctx.ob(f'{w}: declared as XML', ct is not None and bool(re.search(r'TEXT_XML|APPLICATION_XML|/xml', show(ct))), 'error:content-type', 'the document of an error is not declared as XML')

"""The request side of the service: the request as a set of lazily decided facts.

A request is symbolic.  What the code asks of it (method, kind of path, presence of a header or of a query
parameter, outcome of a parser) is decided the first time it is asked, on a path of its own, and stays the
same afterwards on that path.  Parsed values are terms made of the text they were parsed from."""
from core import *

SVC, REQ, HEADERS, QS, RAWQ = T('SVC'), T('REQ'), T('HEADERS'), T('QS'), T('RAWQ')
PATHERR = 'path::ParseS3PathError'

def H(n): return T('header', STR(n))
def Q(n): return T('query', STR(n))

HCONST = re.compile(r'^const:(?:http::header::name|headers(?:::\w+)*)::([A-Z0-9_]+)$')
def hname(v):
    """lower-case header name of an operand"""
    if v.k == 'str':
        return v.a[0].lower()
    if v.k == 't':
        m = HCONST.match(v.a[0])
        if m:
            return m.group(1).lower().replace('_', '-')
        if v.a[0].startswith('call:') and re.search(r'(from_static|as_str|as_ref|from)$', v.a[0]) and v.a[1]:
            return hname(v.a[1][-1])
    return None

METHOD = re.compile(r'Method::([A-Z]+)$')
def method_of(t):
    if t.k == 't' and t.a[0].startswith('const:'):
        m = METHOD.search(t.a[0])
        return m.group(1) if m else None
    return None

def no_bytes(t, pos):
    """tests of a length against zero, as is_empty"""
    if t.k != 't' or len(t.a[1]) != 2:
        return t, pos
    ln = lambda x: x.k == 't' and x.a[0].startswith('call:') and x.a[0].endswith('::len')
    x, y = t.a[1]
    op = t.a[0]
    r = None
    if op == 'eq' and (ln(x) and y is FALSE or ln(y) and x is FALSE): r = (x if ln(x) else y, True)
    elif op == 'bin:Lt' and x is FALSE and ln(y): r = (y, False)
    elif op == 'bin:Lt' and ln(x) and y is TRUE: r = (x, True)
    elif op == 'bin:Le' and ln(x) and y is FALSE: r = (x, True)
    elif op == 'bin:Le' and x is TRUE and ln(y): r = (y, False)
    if r is None:
        return t, pos
    return T(r[0].a[0][:-3] + 'is_empty', *r[0].a[1]), pos == r[1]

class SvcRule(FsRule):
    """ps: (facts, sub-state of the property); facts: frozenset of (kind, name, value)"""
    init = (frozenset(), None)
    AUTH = True
    track = None           # (kind, name) -> bool: facts worth remembering
    def __init__(self):
        FsRule.__init__(self)
        self.unknown = {}
        self.asked = set()

    # ---- facts ----
    def fact(self, ps, kind, name):
        for k, n, v in ps[0]:
            if k == kind and n == name:
                return v
        return None
    def know(self, ps, kind, name, val):
        self.asked.add((kind, name))
        if self.track is not None and not self.track(kind, name):
            return ps
        return (ps[0] | {(kind, name, val)},) + ps[1:]
    def choose(self, ps, kind, name, opts):
        """[(fact value, term)] -> outcomes, only the known one when it is already decided"""
        v = self.fact(ps, kind, name)
        return [(t, self.know(ps, kind, name, x)) for x, t in opts if v is None or v == x]

    # ---- the request ----
    def on_call(self, ps, e):
        p, a = e.path, e.args
        if re.search(r'http::request::Request::<.*>::(method)$', p):
            e.pure = True
            return [(T('METHOD'), ps)]
        if re.search(r'http::uri::Uri::query$', p):
            e.pure = True
            return self.choose(ps, 'qs', '', [(True, SOME(RAWQ)), (False, NONE)])
        if re.search(r'http::uri::Uri::path$', p):
            e.pure = True
            return [(T('RAWPATH'), ps)]
        if p.endswith('urlencoding::decode') or re.search(r'urlencoding.*::decode$', p):
            e.pure = True
            return self.choose(ps, 'decode', show(a[0])[:60], [(True, OK(T('decoded', a[0]))), (False, ERR(T('decode-error')))])
        m = re.search(r'mime::Mime::(type_|subtype|get_param|essence_str)$', p)
        if m:
            e.pure = True
            if m.group(1) == 'get_param':
                return self.choose(ps, 'mimeparam', show(a[1])[-30:], [(True, SOME(T('mimeparam', *a))), (False, NONE)])
            return [(T('mime.' + m.group(1), a[0]), ps)]
        if re.search(r'str::<impl str>::parse$', p):
            e.pure = True
            t = (e.targs or ('',))[0]
            return self.choose(ps, 'parse', (t, show(a[0])[:60]), [(True, OK(T('parsed:' + t, a[0]))), (False, ERR(T('parse-error:' + t)))])
        r = self.svc(ps, e)
        if r is not None:
            return r
        return FsRule.on_call(self, ps, e)

    def svc(self, ps, e):
        return None

    def enter(self, ps, body, args, eng, mem):
        p = body['path']
        S = lambda i: eng.snap(mem, args[i])
        if 'OrderedHeaders' in p:
            if p.endswith('::from_req'):
                return [(v, q) for v, q in self.choose(ps, 'headers', 'ok', [(True, OK(HEADERS)), (False, ERR(T('headers-error')))])]
            if p.endswith('::get'):
                n = hname(S(1))
                if n is None:
                    self.unknown['header name ' + show(S(1))[:100]] = 1
                    return [(NONE, ps), (SOME(T('header?', S(1))), ps)]
                return self.choose(ps, 'h', n, [(True, SOME(H(n))), (False, NONE)])
            if p.endswith('::map_signed_headers'):
                return [(T('signed-headers', S(0), S(1)), ps)]
            if p.endswith('::as_ref'):
                return [(S(0), ps)]
        if 'OrderedQs' in p:
            if p.endswith('::from_query'):
                return self.choose(ps, 'qsok', 'ok', [(True, OK(QS)), (False, ERR(T('qs-error')))])
            if p.endswith('::get'):
                n = S(1)
                if n.k != 'str':
                    self.unknown['query name ' + show(n)[:100]] = 1
                    return [(NONE, ps), (SOME(T('query?', n)), ps)]
                return self.choose(ps, 'q', n.a[0], [(True, SOME(Q(n.a[0]))), (False, NONE)])
            if p.endswith('::as_ref'):
                return [(S(0), ps)]
        if p.endswith('S3Path::<\'a>::try_from_path'):
            x = S(0)
            sp = 'path::S3Path'
            return self.choose(ps, 'path', '', [
                ('root', OK(ADT(sp, self.pv('Root'), ()))),
                ('bucket', OK(ADT(sp, self.pv('Bucket'), (T('path.bucket', x),)))),
                ('object', OK(ADT(sp, self.pv('Object'), (T('path.bucket', x), T('path.key', x))))),
                ('bad', ERR(T('path-error')))])
        if p.endswith('::from_header_str') or p.endswith('::parse_by_nom'):
            ty = p.split('::')[-2] if not p.split('::')[-2].startswith('<') else p.split('::')[-3]
            nom = p.endswith('parse_by_nom')
            x = S(0)
            okt = T('parsed:' + ty, x)
            if ty == 'AmzContentSha256':
                ad = 'headers::amz_content_sha256::AmzContentSha256'
                vs = self.facts.adts[ad]['variants']
                opts = [(v['name'], OK(ADT(ad, i, tuple(x for _ in v['fields'])))) for i, v in enumerate(vs)]
                return self.choose(ps, 'sha256', '', opts + [('bad', ERR(T('parse-error:' + ty)))])
            if nom:
                return self.choose(ps, 'parse', (ty, show(x)[:60]), [(True, OK(TUP(T('nom.rest', x), okt))), (False, ERR(T('parse-error:' + ty)))])
            return self.choose(ps, 'parse', (ty, show(x)[:60]), [(True, OK(okt)), (False, ERR(T('parse-error:' + ty)))])
        return self.into(ps, body, args, eng, mem)

    def into(self, ps, body, args, eng, mem):
        return None

    def pv(self, name):
        for i, v in enumerate(self.facts.adts['path::S3Path']['variants']):
            if v['name'] == name:
                return i
        raise Missing('S3Path::' + name)

    def branch(self, ps, v, eng, mem):
        t, pos = strip_not(v)
        if t.k == 't' and t.a[0] == 'eq' and len(t.a[1]) == 2:
            x, y = t.a[1]
            if x is T('METHOD'): x, y = y, x
            if y is T('METHOD') and method_of(x):
                m = method_of(x)
                cur = [n for k, n, val in ps[0] if k == 'm' and val]
                no = [n for k, n, val in ps[0] if k == 'm' and not val]
                if cur:
                    return [(int((cur[0] == m) == pos), ps)]
                if m in no:
                    return [(int(False == pos), ps)]
                yes = frozenset(f for f in ps[0] if f[0] != 'm')
                self.asked.add(('m', m))
                return [(int(pos), (yes | {('m', m, True)},) + ps[1:]), (int(not pos), self.know(ps, 'm', m, False))]
            if x.k == 't' and x.a[0].startswith('mime.') or y.k == 't' and y.a[0].startswith('mime.'):
                if y.k == 't' and y.a[0].startswith('mime.'): x, y = y, x
                n = x.a[0] + '=' + show(y)
                return [(int(val.a[0] == pos), p2) for val, p2 in self.choose(ps, 'mime', n, [(True, TRUE), (False, FALSE)])]
        t, pos = no_bytes(t, pos)
        return self.cond(ps, t, pos, eng, mem)

    def cond(self, ps, t, pos, eng, mem):
        return None

    def variant(self, ps, v, ad, vis):
        """a match on the method: one of its variants"""
        if not (v.k == 't' and v.a[0] in ('.0', '.Method.0') and v.a[1][0] is T('METHOD')):
            return ps
        names = [ad['variants'][i]['name'].upper() for i in vis]
        cur = [n for k, n, val in ps[0] if k == 'm' and val]
        no = [n for k, n, val in ps[0] if k == 'm' and not val]
        if cur:
            return ps if cur[0] in names else None
        names = [n for n in names if n not in no]
        if not names:
            return None
        if len(names) == 1:
            self.asked.add(('m', names[0]))
            return (frozenset(f for f in ps[0] if f[0] != 'm') | {('m', names[0], True)},) + ps[1:]
        for n in [x['name'].upper() for x in ad['variants']]:
            if n not in names and n not in no:
                self.asked.add(('m', n))
                ps = self.know(ps, 'm', n, False)
        return ps

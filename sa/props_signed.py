"""Which headers and query parameters a signature covers."""
from props_auth import *
from lists import *
import lists

HN = lambda i: T('hname', INT(i))
HV = lambda i: T('hvalue', INT(i))
SN = lambda i: T('sname', INT(i))

class CoverRule(AuthRule):
    """a signed request with exactly n headers and a list of k signed names; everything else as in AuthRule"""
    exact = True
    def __init__(self, facts, kind, n, k):
        AuthRule.__init__(self, facts, ('sig', 'names'))
        self.kind, self.n, self.kn = kind, n, k
        self.lx = Exact()
        self.names = ARR([SN(i) for i in range(k)])
        self.hdrs = ARR([TUP(HN(i), HV(i)) for i in range(n)])

    FORCED = {('header', 'q', 'X-Amz-Signature'): False, ('presigned', 'q', 'X-Amz-Signature'): True, ('header', 'h', 'authorization'): True, ('header', 'sha256', ''): 'SingleChunk', ('presigned', 'sha256', ''): 'SingleChunk',
              ('presigned', 'qs', ''): True}
    def choose(self, ps, kind, name, opts):
        f = self.FORCED.get((self.kind, kind, name))
        if f is not None:
            opts = [(x, t) for x, t in opts if x == f]
        elif kind in ('parse', 'decode', 'headers', 'qsok'):
            opts = opts[:1]
        return AuthRule.choose(self, ps, kind, name, opts)

    def branch(self, ps, v, eng, mem):
        t, pos = strip_not(v)
        if t.k == 't' and t.a[0] == 'eq' and T('METHOD') in t.a[1] and any(method_of(x) for x in t.a[1]):
            if 'POST' in [method_of(x) for x in t.a[1]]:
                return [(int(not pos), ps)]       # forms are another kind of request
        return AuthRule.branch(self, ps, v, eng, mem)

    def enter(self, ps, body, args, eng, mem):
        p = body['path']
        if 'OrderedHeaders' in p and p.endswith('::from_req'):
            return [(OK(self.hdrs), ps)]
        if 'OrderedHeaders' in p and p.endswith('::as_ref'):
            return [(self.hdrs, ps)]
        if p.endswith('AuthorizationV4::<\'a>::from_header_str') or re.search(r'AuthorizationV4.*::from_header_str$', p):
            ad = 'headers::authorization_v4::AuthorizationV4'
            fs = self.facts.adts[ad]['variants'][0]['fields']
            x = T('parsed:AuthorizationV4', eng.snap(mem, args[0]))
            return [(OK(ADT(ad, 0, tuple(self.names if f == 'signed_headers' else T('.' + f, x) for f in fs))), ps)]
        return AuthRule.enter(self, ps, body, args, eng, mem)

    def svc(self, ps, e):
        p, a = e.path, e.args
        if re.search(r'str::<impl str>::split$', p) and a[0] is Q('X-Amz-SignedHeaders'):
            e.pure = True
            return [(ITER(list(self.names.a[0])), ps)]
        if SORT.search(p):
            ref, v = self.lx.target(e)
            return [(UNIT, ps)] if exact(a[0]) is not None else None
        m = re.search(r'::binary_search$', p)
        if m and exact(a[0]) is not None:
            return self.member(ps, e, exact(a[0]), a[1], lambda i: OK(INT(i)), ERR(T('no-index')))
        if re.search(r'str::<impl str>::starts_with$', p) and a[0] in [HN(i) for i in range(self.n)]:
            e.pure = True
            return [(T('starts_with', *a), ps)]
        if exact(a[0] if a else T('none')) is not None and not AuthRuleNames.search(p):
            r = self.lx.lists(ps, e)
            if r is not None:
                return r
        return AuthRule.svc(self, ps, e)

    def member(self, ps, e, xs, y, hit, miss):
        cur, out = [ps], []
        for i, x in enumerate(xs):
            nxt = []
            for p0 in cur:
                for v, p2 in e.eng.truth(e.eng.eq(x, y), p0, e.mem):
                    if v:
                        out.append((hit(i), p2, e.mem))
                    else:
                        nxt.append(p2)
            cur = nxt
        return out + [(miss, q, e.mem) for q in cur]

    def keep(self, t):
        ops = {x[1] for x in atoms(t) if x[0] == 'op'}
        return 'calculate_signature' in ops or bool(ops & {'hname', 'sname'})

AuthRuleNames = re.compile(r'S3Handler|S3Storage')

def covered(ctx, kind, n, k):
    b = ctx.body(r'service::S3Service::handle$')
    r = CoverRule(ctx.facts, kind, n, k)
    e, outs = run_op(ctx.facts, r, b, [with_fields(SVC, auth=SOME(AUTHV)), REQ])
    ctx.absorb(e, r)
    return r, outs

@prop('A08', 'exact interpretation of S3Service::handle with header lists and lists of signed names of known length (names symbolic): on every path to a handler each x-amz-* header is one of the signed names; exact interpretation of the header and query containers (construction, lookup, selection of signed headers)')
def a08(ctx):
    for kind in ('header', 'presigned'):
        for n, k in ((1, 1), (2, 1), (1, 2), (2, 2)):
            if (n, k) == (2, 2) and ctx.tier != 'thorough':
                continue
            r, outs = covered(ctx, kind, n, k)
            ver = [(ps, trail) for ps, cv, st, trail in r.sink if any(supplied2(w) for s, w in verified(ps))]
            ctx.ob(f'{kind}: {n} headers, {k} signed names: {len(ver)} served paths', bool(ver), f'{kind}:none', f'no {kind} request with {n} headers is served')
            plain = False
            for ps, trail in ver:
                conds = dict(ps[1])
                amz = []
                for i in range(n):
                    h = HN(i)
                    notamz = any(not o and c.k == 't' and c.a[0] == 'starts_with' and c.a[1][0] is h and c.a[1][1].k == 'str' and 'x-amz-'.startswith(c.a[1][1].a[0]) for c, o in ps[1])
                    signed = any(o and c.k == 't' and c.a[0] == 'eq' and h in c.a[1] and any(isname(x) for x in c.a[1]) for c, o in ps[1])
                    ctx.ob(f'{kind}: {n} headers, {k} signed names: header {i} is signed or no x-amz-* header', notamz or signed, f'{kind}:unsigned', f'a {kind} request is served although one of its x-amz-* headers may not be signed', trail=trail)
                    amz.append(notamz)
                plain = plain or all(amz)
            ctx.ob(f'{kind}: {n} headers: headers which are not x-amz-* need not be signed', plain, f'{kind}:plain', 'headers outside x-amz-* are refused unless they are signed')
    containers(ctx)

def isname(v):
    return v.k == 't' and (v.a[0] == 'sname' or v.a[0] == 'nth' and v.a[1][0].a[0] == 'sorted' and all(isname(x) for x in v.a[1][0].a[1]))

def supplied2(w):
    return supplied(w) or w.k == 't' and w.a[0] == '.signature'

class Lookup(Exact):
    """binary searches as membership tests with any matching position as result"""
    def __init__(self):
        Exact.__init__(self)
        self.searched = []

    def special(self, ps, e):
        p, a = e.path, e.args
        m = re.search(r'::(binary_search|binary_search_by|binary_search_by_key|position|find|partition_point)$', p)
        if m:
            n = m.group(1)
            xs = exact(a[0])
            if xs is None or n == 'partition_point':
                return None
            if n.startswith('binary'):
                self.searched.append(a[0])
            def matches(i, p0, m0):
                x = xs[i]
                if n == 'binary_search':
                    rs = [(e.eng.eq(x, a[1]), m0, p0)]
                else:
                    rs = e.eng.apply_value(e.raw[-1], [x], m0, p0, e.eng.sub(e.fr, ('bs', i)))
                out = []
                for rv, m2, p2 in rs:
                    rv = e.eng.snap(m2, rv)
                    if n == 'binary_search_by_key':
                        rv = e.eng.eq(rv, a[1])
                    if n == 'binary_search_by':
                        rv = self.equal(e, rv)
                    out += [(v, p3, m2) for v, p3 in e.eng.truth(rv, p2, m2)]
                return out
            found = lambda i: OK(INT(i)) if n.startswith('binary') else SOME(INT(i) if n == 'position' else xs[i])
            out, cur = [], [(ps, e.mem)]
            for i in range(len(xs)):
                nxt = []
                for p0, m0 in cur:
                    for v, p2, m2 in matches(i, p0, m0):
                        (nxt.append((p2, m2)) if not v else out.append((found(i), p2, m2)))
                cur = nxt
            if n.startswith('binary'):
                # of several matching elements any may be found
                out = [(found(i), p2, m2) for i in range(len(xs)) for v, p2, m2 in matches(i, ps, e.mem) if v]
            return out + [(ERR(T('no-index')) if n.startswith('binary') else NONE, p2, m2) for p2, m2 in cur]
        if re.search(r'convert::(From|Into)<.*>>::(from|into)$|SmallVec.*::(from_vec|from_slice)$', p) and len(a) == 1 and exact(a[0]) is not None:
            return [(ARR(exact(a[0])), ps, e.mem)]
        if re.search(r'(Ord|PartialOrd).*::cmp$|::cmp$', p) and len(a) == 2:
            return [(T('cmp', *a), ps, e.mem)]
        if re.search(r'HeaderValue::to_str$', p):
            return [(OK(T('text', a[0])), ps + ((T('to_str', a[0]), True),), e.mem), (ERR(T('to-str-error')), ps + ((T('to_str', a[0]), False),), e.mem)]
        if re.search(r'HeaderName::as_str$', p):
            return [(T('text', a[0]), ps, e.mem)]
        if re.search(r'Request::<.*>::headers$', p):
            return [(T('HDRMAP'), ps, e.mem)]
        if p.endswith('HeaderMap::<T>::iter') or re.search(r'HeaderMap.*::(iter|into_iter)$', p):
            return [(ITER(self.src), ps, e.mem)]
        if re.search(r'HeaderMap.*::len$', p):
            return [(INT(len(self.src)), ps, e.mem)]
        if re.search(r'serde_urlencoded.*::from_(str|bytes|reader)$|form_urlencoded.*::parse$', p):
            self.parsed = a[0]
            return [(OK(ARR(self.src)), ps, e.mem), (ERR(T('qs-error')), ps + ((T('qs-parse'), False),), e.mem)]
        if re.search(r'AsHeaderName.*::as_str$|hdr_as::Sealed.*as_str$|::as_str$', p):
            return [(a[0], ps, e.mem)]
        return None

    def equal(self, e, rv):
        if rv.k == 't' and rv.a[0] == 'cmp':
            return e.eng.eq(*rv.a[1])
        if rv.k == 't' and rv.a[0] in ('reverse', 'then') :
            return self.equal(e, rv.a[1][0])
        raise Limit('ordering ' + show(rv)[:80])

    init = ()
    def branch(self, ps, v, eng, mem):
        t, pos = strip_not(v)
        known = dict(ps)
        if t in known:
            return [(int(known[t] == pos), ps)]
        return [(int(o == pos), ps + ((t, o),)) for o in (True, False)]
    on_branch = branch

def eqfact(ps, x, y):
    for c, o in ps:
        if c.k == 't' and c.a[0] == 'eq' and set(c.a[1]) == {x, y}:
            return o
    return None

def lookups(ctx, container, pairs):
    """get(name) gives the value of an entry of that name, and None only if there is none"""
    b = ctx.body(container + r'.*::get$')
    N = T('NAME')
    for n in (0, 1, 2, 3):
        r = Lookup()
        xs = [TUP(HN(i), HV(i)) for i in range(n)]
        e, outs = run_op(ctx.facts, r, b, [ARR(xs), N])
        ctx.absorb(e, r)
        hit = 0
        for rv, m, ps in outs:
            for x in members(rv):
                if x is NONE:
                    ctx.ob(f'{container}::get of {n} entries: nothing found', all(eqfact(ps, HN(i), N) is False for i in range(n)), f'{container}:miss', f'{container}::get finds nothing although an entry may have the name')
                elif x.k == 'adt' and x.a[0] == OPTION:
                    i = [i for i in range(n) if x.a[2][0] is HV(i)]
                    hit += 1
                    ctx.ob(f'{container}::get of {n} entries: value of that name', bool(i) and eqfact(ps, HN(i[0]), N) is True, f'{container}:hit', f'{container}::get gives {show(x)[:100]} under {[(show(c), o) for c, o in ps]}'[:300])
                else:
                    ctx.ob(f'{container}::get', False, f'{container}:value', f'{container}::get gives {show(x)[:160]}')
        ctx.ob(f'{container}::get of {n} entries: {hit} values', hit >= (1 if n else 0), f'{container}:none', f'{container}::get never finds anything')
        if n:
            ctx.needs_sorted = getattr(ctx, 'needs_sorted', False) or bool(r.searched)
    return bool(r.searched)

def containers(ctx):
    hs = lookups(ctx, 'OrderedHeaders', HN)
    qs = lookups(ctx, 'OrderedQs', HN)
    built_from(ctx, 'OrderedHeaders', 'from_req', hs, lambda i: TUP(T('text', T('rawname', INT(i))), T('text', T('rawvalue', INT(i)))), [TUP(T('rawname', INT(i)), T('rawvalue', INT(i))) for i in range(3)])
    built_from(ctx, 'OrderedQs', 'from_query', qs, lambda i: TUP(HN(i), HV(i)), [TUP(HN(i), HV(i)) for i in range(3)])
    need = selection(ctx)
    if need:
        r, e, outs = run_handle(ctx)
        for ps, cv, st, trail in r.sink:
            for s, w in verified(ps):
                for x in find(s, lambda t: t.k == 't' and t.a[0] == 'signed-headers'):
                    l, srt = unsort(x.a[1][1])
                    ctx.ob('the list of signed names is sorted before it is searched', srt, 'unsorted:' + str(supplied(w)), f'the names of the signed headers ({show(l)[:120]}) are searched as if they were sorted, but they are not', trail=trail)

def built_from(ctx, container, fn, need, want, src):
    b = ctx.body(container + r'.*::' + fn + '$')
    for n in (0, 1, 2, 3):
        r = Lookup()
        r.src = src[:n]
        r.parsed = None
        e, outs = run_op(ctx.facts, r, b, [T('INPUT')])
        ctx.absorb(e, r)
        good = 0
        for rv, m, ps in outs:
            for x in members(rv):
                if not is_ok(x):
                    ctx.ob(f'{container}::{fn}: refused only if an entry is not text', any(not o for c, o in ps), f'{container}:{fn}:refused', f'{container}::{fn} fails for well-formed input')
                    continue
                good += 1
                v = x.a[2][0]
                l = exact(v.a[2][0] if v.k == 'adt' and len(v.a[2]) == 1 else v)
                w = [want(i) for i in range(n)]
                ok = l is not None and (l == sort(w) or not need and sorted(x.uid for x in l) == sorted(x.uid for x in w))
                ctx.ob(f'{container}::{fn} of {n} entries: all of them' + (', sorted' if need else ''), ok, f'{container}:{fn}', f'{container}::{fn} of {n} entries holds {show(x)[:240]}')
        ctx.ob(f'{container}::{fn} of {n} entries succeeds', good > 0, f'{container}:{fn}:none', f'{container}::{fn} never succeeds')

def selection(ctx):
    """map_signed_headers keeps exactly the entries whose name is in the list"""
    b = ctx.body(r'OrderedHeaders.*::map_signed_headers$')
    need = False
    for n in (0, 1, 2, 3):
        for k in (0, 1, 2):
            r = Lookup()
            xs = [TUP(HN(i), HV(i)) for i in range(n)]
            ss = [SN(j) for j in range(k)]
            e, outs = run_op(ctx.facts, r, b, [ARR(xs), ARR(ss)])
            ctx.absorb(e, r)
            need = need or bool(r.searched)
            ctx.ob(f'selection of {k} names from {n} headers: {len(outs)} paths', bool(outs), 'select:none', 'map_signed_headers has no result')
            for rv, m, ps in outs:
                for x in members(rv):
                    l = exact(x.a[2][0] if x.k == 'adt' and len(x.a[2]) == 1 else x)
                    w = [xs[i] for i in range(n) if any(eqfact(ps, HN(i), s) for s in ss)]
                    no = [xs[i] for i in range(n) if xs[i] not in w]
                    ok = l == w and all(eqfact(ps, y.a[0][0], s) is False for y in no for s in ss)
                    ctx.ob(f'selection of {k} names from {n} headers', ok, 'select', f'of {n} headers and {k} signed names map_signed_headers keeps {show(x)[:200]}')
    return need

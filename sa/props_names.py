"""Names: which files a request can touch, and that distinct keys are distinct files."""
from core import *
from lists import Exact, ITER
from props_storage import stub_copy, find_key

DOTS = frozenset(['', '.', '..'])

class Comps(FsRule):
    """ps: (resolved labels, facts, current component)
    facts: ('ok', x) every component of x was found not to be empty, '.' or '..'; ('noslash', k)"""
    init = (frozenset(), frozenset(), None)
    def __init__(self, op):
        FsRule.__init__(self)
        self.op = op
        self.used = set()

    def other(self, ps, e):
        p = e.path
        res, fa, cur = ps
        m = re.search(r'str::<impl str>::(strip_suffix|split|ends_with|is_empty|rsplit|split_inclusive)$', p)
        if not m:
            return None
        f = m.group(1)
        x = e.args[0]
        sep = e.args[1] if len(e.args) > 1 else None
        slash = sep is not None and (sep is STR('/') or sep is INT(47))
        if f == 'strip_suffix' and slash:
            e.pure = True
            return [(SOME(T('trim', x)), ps), (NONE, (res, fa | {('noslash', x)}, cur))]
        if f in ('split', 'rsplit') and slash:
            e.pure = True
            return [(T('split', x), ps)]
        if f == 'is_empty':
            e.pure = True
            return [(T('eq', x, STR('')), ps)]
        return None

    def on_next(self, ps, path, site, src, tag, e, eng, mem):
        res, fa, cur = ps
        if not (src.k == 't' and src.a[0] == 'split'):
            # a new element: what was known of the previous one is forgotten
            E = T('each', src)
            fa = frozenset(f for f in fa if not contains(f[1], E))
            res = frozenset(r for r in res if not contains(r[0], E))
            return (res, fa, None if cur is not None and contains(cur[0], E) else cur)
        x = src.a[1][0]
        if cur is not None and cur[0] is x and not DOTS <= cur[1]:
            fa = fa | {('bad', x)}
        if tag == 'item':
            return (res, fa, (x, frozenset()))
        if ('bad', x) not in fa:
            fa = fa | {('ok', x)}
        return (res, fa, None)

    def branch(self, ps, v, eng, mem):
        t, pos = strip_not(v)
        res, fa, cur = ps
        if cur is not None and t.k == 't' and t.a[0] == 'eq':
            c = T('each', T('split', cur[0]))
            x, y = t.a[1]
            if y is c:
                x, y = y, x
            if x is c and y.k == 'str':
                return [(int(pos), (res, fa, None)), (int(not pos), (res, fa, (cur[0], cur[1] | {y.a[0]})))]
        return None

    def checked(self, ps, k):
        return ('ok', T('trim', k)) in ps[1] or ('ok', k) in ps[1]

    def resolved(self, ps, lab, root):
        return (lab, root) in ps[0]

    def ev(self, ps, k, a, out, e):
        if k == 'resolve':
            if out == 'ok':
                return (ps[0] | {(a[2], a[1])},) + ps[1:]
            return ps
        if k in ('hash', 'hash_end', 'next_chunk', 'unknown_fs') or k == 'strip_prefix':
            if k == 'unknown_fs':
                self.report(f'{self.op}:unknown', 'a file-system call the analysis does not know: ' + show(a[0]), e)
            return ps
        ops = a[:1]
        if k in ('rename', 'copy', 'copy_file', 'hard_link', 'symlink'):
            ops = a[:2]
        for x in ops:
            for y in members(x):
                self.operand(ps, k, y, e)
        return ps

    def operand(self, ps, k, x, e):
        pass

def unwrap(x):
    while x.k == 't' and x.a[0] in ('file:r', 'file:w', 'meta-of', 'ftype', 'rd', 'entry', 'P:entry', 'P:parent', 'content', 'canonical') and x.a[1]:
        x = x.a[1][0]
    return x

class Contain(Comps):
    def operand(self, ps, k, x, e):
        w = unwrap(x)
        c = cls(w)
        self.used.add((k, cls(x)))
        def bad(why):
            self.report(f'{self.op}:{k}:{c}', f'{self.op}: {k} on a path which {why}: {show(x)[:160]}', e)
        if w.k == 't' and w.a[0] in ('chunk', 'bytes') or x is T('rbytes'):
            return
        if isP(w, 'root'):
            if k in MUT:
                bad('is the storage root itself')
        elif fkind(w) and fkind(w)[0] in ('tmp', 'meta', 'part'):
            pass
        elif isP(w, 'bucket'):
            if not self.resolved(ps, w, P('root')):
                bad('was not resolved inside the storage root')
        elif isP(w, 'obj'):
            b = BKT(w.a[1][0])
            if not (self.resolved(ps, w, b) or self.checked(ps, w.a[1][1])):
                bad('is not known to lie inside its bucket')
            elif not self.resolved(ps, b, P('root')):
                bad('lies in a bucket which was not resolved inside the storage root')
            if isP(x, 'parent') and k not in ('create_dir_all', 'create_dir', 'is_dir', 'exists', 'metadata', 'read_dir'):
                bad('is the parent of an object')
        else:
            bad('the analysis cannot place inside the storage root')

class Distinct(Comps):
    def operand(self, ps, k, x, e):
        w = unwrap(x)
        if isP(w, 'obj'):
            self.used.add((k, cls(x)))
            if not self.checked(ps, w.a[1][1]):
                self.report(f'{self.op}:{k}', f'{self.op}: {k} on an object although its key may contain an empty, "." or ".." component, so that two keys would denote one file: {show(x)[:160]}', e)

def storage_sweep(ctx, mkrule, what):
    for op in OPS:
        r = mkrule(op)
        if op == 'copy_object':
            stub_copy(r)
        run_storage(ctx, op, r)
        for k, c in sorted(r.used):
            bad = [v for v in r.violations if v.startswith(f'{op}:{k}')]
            ctx.ob(f'{op}: {k}({c}) {what}', not bad, (bad or [''])[0], (r.violations[bad[0]]['msg'] if bad else ''))
        ctx.ob(f'{op}: all operands', not r.violations)
    return

@prop('N01', 'label analysis of every path operand of every file-system call of the 16 operations: it is the root (read only), a private root file, a bucket resolved under the root, or an object path which passed containment in its bucket on every path to the call')
def n01(ctx):
    storage_sweep(ctx, Contain, 'is confined')

@prop('N02', 'dominance: on every path to a file-system call on an object, a check of every "/"-separated component of the key (at most one trailing "/" removed) has excluded "", "." and ".."')
def n02(ctx):
    storage_sweep(ctx, Distinct, 'only for keys whose components are checked')

# --------------------------------------------------------------------------------------------------
from preds import *

BUCKET_BYTES = LOWER | DIGIT | mask('.-')
ALNUM = LOWER | DIGIT
LEN363 = sum(1 << i for i in range(3, 64))

@prop('N04', 'abstract interpretation of check_bucket_name and check_key over powersets of bytes and lengths: the accepted set is computed per path (all bytes, first byte, last byte, length, address and prefix tests) and compared with the naming rules in both directions')
def n04(ctx):
    b = ctx.body(r'S3Path.*::check_bucket_name$')
    r, outs = run_pred(ctx, b)
    ctx.ob('check_bucket_name: every condition is understood', not r.unknown, 'bucket:unknown', 'a condition the analysis cannot evaluate: ' + '; '.join(list(r.unknown)[:2]))
    union = [0, 0, 0, 0]
    nt = 0
    for v, ps in outs:
        seen, cur, first, last, ln, fa = ps
        ip = any(f[0] == 'parse' and 'Ip' in f[1] and f[2] for f in fa)
        noip = any(f[0] == 'parse' and 'IpAddr' in f[1] and not f[2] for f in fa) or {('parse', t, False) for t in ()} and False
        noip = noip or any(f[0] == 'parse' and 'Ipv4Addr' in f[1] and not f[2] for f in fa)
        xn = ('starts_with', 'xn--', True) in fa
        noxn = ('starts_with', 'xn--', False) in fa
        if v is TRUE:
            nt += 1
            for name, s, want in (('bytes', seen, BUCKET_BYTES), ('first byte', first & BUCKET_BYTES if False else first, ALNUM), ('last byte', last, ALNUM)):
                ctx.ob(f'accepted names: {name} [{text(s)}]', not s & ~want, f'bucket:{name}', f'check_bucket_name accepts names with {name} in [{text(s & ~want)}]')
            ctx.ob('accepted names: length 3 to 63', not ln & ~LEN363, 'bucket:length', f'check_bucket_name accepts names of length {[i for i in range(80) if (ln & ~LEN363) >> i & 1][:5]}')
            ctx.ob('accepted names: not an IP address', noip and not ip, 'bucket:ip', 'check_bucket_name accepts IP addresses')
            ctx.ob('accepted names: no xn-- prefix', noxn, 'bucket:xn', 'check_bucket_name accepts names with the prefix xn--')
            union[0] |= seen; union[1] |= first; union[2] |= last; union[3] |= ln
        else:
            ctx.ob('check_bucket_name gives true or false', v is FALSE, 'bucket:result', 'check_bucket_name has an outcome which is not understood: ' + show(v)[:100])
            why = (cur is not None and cur and not cur & BUCKET_BYTES) or not first & ALNUM or not last & ALNUM or not ln & LEN363 or ip or xn
            ctx.ob(f'refused names break a rule', why, 'bucket:refused', f'check_bucket_name refuses valid names (byte {text(cur) if cur else "-"}; first {text(first)}; last {text(last)})')
    ctx.ob('valid names are accepted', nt > 0 and union == [BUCKET_BYTES, ALNUM, ALNUM, LEN363], 'bucket:accept', f'check_bucket_name does not accept all valid names: bytes {text(union[0])}, first {text(union[1])}, last {text(union[2])}')
    b = ctx.body(r'S3Path.*::check_key$')
    r, outs = run_pred(ctx, b)
    want = sum(1 << i for i in range(0, 1025))
    acc = ref = 0
    for v, ps in outs:
        if v is TRUE:
            acc |= ps[4]
            ctx.ob('check_key restricts only the length', ps[2] == ALLB and ps[3] == ALLB and not ps[5], 'key:other', 'check_key restricts more than the length')
        else:
            ref |= ps[4]
    ctx.ob('check_key accepts keys of at most 1024 bytes', acc & ~1 == want & ~1, 'key:length', f'check_key accepts lengths up to {acc.bit_length() - 1}')
    ctx.ob('check_key refuses longer keys', not ref & want & ~1 and ref, 'key:refused', 'check_key refuses keys of at most 1024 bytes')

# --------------------------------------------------------------------------------------------------
class PathParse(Exact):
    """facts about pieces of the path: x = head(x) '/' tail(x) with no '/' in head(x)"""
    init = frozenset()
    def __init__(self):
        Exact.__init__(self)
    def enter(self, ps, body, args, eng, mem):
        m = re.search(r'::(check_bucket_name|check_key)$', body['path'])
        if m:
            x = eng.snap(mem, args[0])
            return [(TRUE, ps | {(m.group(1), x, True)}), (FALSE, ps | {(m.group(1), x, False)})]
        return None
    def under(self, x):
        while x.k == 't' and len(x.a[1]) == 1 and (x.a[0] in ('as_bytes', 'bytes') or re.search(r'::(as_bytes|as_ref|bytes|chars|iter|into_iter)$', x.a[0])):
            x = x.a[1][0]
        return x
    def on_call(self, ps, e):
        r = self.path(ps, e)
        return [(v, p, e.mem) for v, p in r] if r is not None else Exact.on_call(self, ps, e)
    def path(self, ps, e):
        p = e.path
        m = re.search(r'str::<impl str>::(split_once|strip_prefix|is_empty|starts_with|find|splitn|split_at|get|len)$|memchr::memchr(?:::memchr)?$()|(?:traits|slice)::.*Index<.*>::(index)$|slice::<impl \[T\]>::(first|get|len|is_empty|starts_with|strip_prefix|split_at)$|(?:Chars|Bytes|Iter).* as core::iter::.*Iterator>::(next)$', p)
        if not m or not e.args:
            return None
        f = next((g for g in m.groups() if g), 'memchr')
        x = self.under(e.args[0])
        sep = e.args[1] if len(e.args) > 1 else None
        if f == 'memchr':
            f, x, sep = 'find', self.under(e.args[1]), e.args[0]
        slash = sep is not None and (sep is STR('/') or sep is INT(47) or sep.k == 'bytes' and bytes(sep.a[0]) == b'/')
        e.pure = True
        if x.k == 'str':
            if f in ('strip_prefix', 'starts_with') and slash:
                y = x.a[0].startswith('/')
                return [(INT(int(y)) if f == 'starts_with' else SOME(STR(x.a[0][1:])) if y else NONE, ps)]
            return [(INT(int(not x.a[0])), ps)] if f == 'is_empty' else None
        H, L, POS, F = T('head', x), T('tail', x), T('pos', x), T('from', x)
        has = lambda *q: q in ps
        def fork(a, yes, no):
            out = []
            if not has(*a, False): out.append((yes, ps | {a + (True,)}))
            if not has(*a, True): out.append((no, ps | {a + (False,)}))
            return out
        if f == 'is_empty':
            return [(T('eq', x, STR('')), ps)]
        if f == 'len':
            return [(T('len', x), ps)]
        if f in ('index', 'get') and sep is not None and sep.k == 'adt' and len(sep.a[2]) == 1 and 'Range' in sep.a[0]:
            i, v = sep.a[2][0], None
            one = x.k == 't' and x.a[0] == 'from' and i is INT(1)
            if sep.a[0].endswith('RangeTo') and i is POS: v = H
            elif sep.a[0].endswith('RangeFrom'):
                if i is POS: v = F
                elif i.k == 't' and i.a[0] == 'bin:Add' and set(i.a[1]) == {POS, INT(1)}: v = L
                elif one: v = T('tail', x.a[1][0])
                elif i is INT(1) and has('empty', H, True): v = L
            if v is not None:
                return [(v if f == 'index' else SOME(v), ps)]
        if f == 'split_at' and sep is POS:
            return [(TUP(H, F), ps)]
        if f == 'split_at' and sep is T('len', x):
            return [(TUP(x, STR('')), ps)]
        if f in ('first', 'next') or f == 'get' and sep is INT(0):
            if f == 'next' and not (e.args[0].k == 't' and self.under(e.args[0]) is not e.args[0]):
                return None
            # some other character stands for all the others
            return fork(('empty', H), SOME(INT(47)), SOME(INT(65))) + [(NONE, ps | {('empty', x, True), ('empty', H, False), ('split', x, False)})]
        if f == 'starts_with' or f == 'strip_prefix':
            if x.k == 't' and x.a[0] == 'from' and slash:
                return [(TRUE if f == 'starts_with' else SOME(T('tail', x.a[1][0])), ps)]
        if not slash and not (f == 'splitn' and len(e.args) == 3):
            return None
        if f == 'split_once':
            if has('starts', x, True):
                return [(SOME(TUP(STR(''), L)), ps)]
            return fork(('split', x), SOME(TUP(H, L)), NONE)
        if f == 'find':
            return fork(('split', x), SOME(POS), NONE)
        if f == 'splitn' and e.args[1] is INT(2) and e.args[2] in (STR('/'), INT(47)):
            return fork(('split', x), ITER([H, L]), ITER([x]))
        if f == 'strip_prefix':
            return [(SOME(L), ps | {('empty', H, True)}), (NONE, ps | {('empty', H, False)})]
        if f == 'starts_with':
            return [(TRUE, ps | {('empty', H, True)}), (FALSE, ps | {('empty', H, False)})]
    def on_branch(self, ps, v, eng, mem):
        t, pos = strip_not(v)
        def two(x, ps=ps):
            r = []
            if ('empty', x, False) not in ps: r.append((int(pos), ps | {('empty', x, True)}))
            if ('empty', x, True) not in ps: r.append((int(not pos), ps | {('empty', x, False)}))
            return r
        if t.k == 't' and len(t.a[1]) == 2:
            n, (x, y) = t.a[0], t.a[1]
            if n in ('eq', 'bin:Eq', 'bin:Ne', 'bin:Lt', 'bin:Le', 'bin:Gt', 'bin:Ge'):
                # the position behind the first "/" against the length
                for a, b, op in ((x, y, n), (y, x, {'bin:Lt': 'bin:Gt', 'bin:Le': 'bin:Ge', 'bin:Gt': 'bin:Lt', 'bin:Ge': 'bin:Le'}.get(n, n))):
                    if b.k == 't' and b.a[0] == 'len' and a.k == 't' and a.a[0] == 'bin:Add' and set(a.a[1]) == {T('pos', b.a[1][0]), INT(1)}:
                        if op in ('bin:Ne', 'bin:Lt'):
                            pos = not pos
                        elif op not in ('eq', 'bin:Eq', 'bin:Ge'):
                            continue
                        return two(T('tail', b.a[1][0]))
                    if a.k == 't' and a.a[0] == 'len' and b is INT(0):
                        if op in ('bin:Ne', 'bin:Gt'):
                            pos = not pos
                        elif op not in ('eq', 'bin:Eq'):
                            continue
                        return two(a.a[1][0])
            if n == 'eq':
                if y is STR('/') or x is STR('/'):
                    z = x if y is STR('/') else y
                    H, L = T('head', z), T('tail', z)
                    yes = ps | {('empty', H, True), ('empty', L, True)}
                    return [(int(pos), yes), (int(not pos), ps)]
                if x is STR(''):
                    x, y = y, x
                if y is STR(''):
                    return two(x)
        return None

PATHK = 'path::S3PathErrorKind'
@prop('N05', 'path-sensitive value analysis of the request path parser: every result is a decomposition of the path at its first two "/" and bucket and key passed check_bucket_name and check_key; every refusal follows a failed check')
def n05(ctx):
    f = ctx.facts
    b = ctx.body(r'S3Path.*::try_from_path$')
    r = PathParse()
    X = T('arg:path')
    e = Engine(f, r)
    outs = [(e.snap(m, rv), ps) for rv, m, ps in e.run(b, [X], {}, r.init, 0)]
    ctx.absorb(e)
    P1 = T('tail', X)
    H1, K1 = T('head', P1), T('tail', P1)
    ad = f.adts.get('path::S3Path')
    if not ad:
        raise Missing('S3Path')
    names = {v['name']: i for i, v in enumerate(ad['variants'])}
    seen = {'Root': 0, 'Bucket': 0, 'Object': 0, 'err': 0}
    E = lambda ps, x, w=True: ('empty', x, w) in ps
    for rv, ps in outs:
        lead = E(ps, T('head', X))
        for v in members(rv):
            if is_ok(v):
                for p in members(okv(v)):
                    vn = ad['variants'][p.a[1]]['name'] if p.k == 'adt' and p.a[0] == 'path::S3Path' else '?'
                    fs = fields(f, p)
                    key = f'ok:{vn}'
                    msg = f'try_from_path gives {vn} {dict((k, show(x)) for k, x in fs.items())} under {sorted((a, show(x), w) for a, x, w in ps)}'
                    ctx.ob(f'{vn}: the path starts with /', lead, key + ':lead', msg)
                    seen[vn] = seen.get(vn, 0) + 1
                    if vn == 'Root':
                        ctx.ob('Root: only for "/"', E(ps, P1), key, msg)
                    elif vn == 'Bucket':
                        x = fs['bucket']
                        one = x is P1 and ('split', P1, False) in ps
                        two = x is H1 and E(ps, K1)
                        ctx.ob('Bucket: the whole path, or all but a trailing /', one or two, key, msg)
                        ctx.ob('Bucket: the name was checked', ('check_bucket_name', x, True) in ps, key + ':unchecked', 'a bucket name which was not checked is accepted: ' + msg)
                    elif vn == 'Object':
                        x, k = fs['bucket'], fs['key']
                        ctx.ob('Object: bucket up to the first /, key is the rest', x is H1 and k is K1, key, msg)
                        ctx.ob('Object: the key is not empty', E(ps, K1, False), key + ':empty', msg)
                        ctx.ob('Object: the bucket name was checked', ('check_bucket_name', x, True) in ps, key + ':unchecked', 'a bucket name which was not checked is accepted: ' + msg)
                        ctx.ob('Object: the key was checked', ('check_key', k, True) in ps, key + ':key', 'a key which was not checked is accepted: ' + msg)
                    else:
                        ctx.ob('known result', False, key, msg)
            else:
                seen['err'] += 1
                bad = any(a in ('check_bucket_name', 'check_key') and w is False for a, x, w in ps)
                nolead = ('split', X, False) in ps or E(ps, T('head', X), False)
                ctx.ob('a refused path has no leading /, or a bad bucket name or key', bad or nolead, 'refused', f'try_from_path refuses a valid path: {sorted((a, show(x), w) for a, x, w in ps)}')
                ks = {f.adts[PATHK]['variants'][x.a[1]]['name'] for x in find(v, lambda y: y.k == 'adt' and y.a[0] == PATHK)}
                want = {'InvalidBucketName'} if any(a == 'check_bucket_name' and w is False for a, x, w in ps) else ({'KeyTooLong'} if any(a == 'check_key' and w is False for a, x, w in ps) else {'InvalidPath'})
                ctx.ob(f'the error is {sorted(want)}', ks == want, 'errkind:' + '/'.join(sorted(want)), f'try_from_path reports {sorted(ks)} instead of {sorted(want)}')
    for k, n in seen.items():
        ctx.ob(f'{k} outcome exists', n > 0, 'none:' + k, f'try_from_path never gives {k}')

# --------------------------------------------------------------------------------------------------
def consts_in(facts, b, seen=None):
    """string constants in a body, its closures and the constants it uses"""
    if seen is None:
        seen = set()
    out = set()
    if b['uid'] in seen:
        return out
    seen.add(b['uid'])
    def go(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == 'k' and isinstance(x[1], dict):
                c = x[1]
                if c['k'] == 'closure' or c['k'] == 'fn':
                    i = c.get('i') if c['k'] == 'closure' else c['f'].get('i')
                    if c['k'] == 'fn' and not (i is not None and facts.bodies.get(b['pre'] + str(i), {}).get('local')):
                        return
                    cb = facts.bodies.get(b['pre'] + str(i))
                    if cb: out.update(consts_in(facts, cb, seen))
                    return
                v = c.get('v')
                if v is not None and v[0] == 's':
                    out.add(v[1])
                if v is not None and v[0] == 'static':
                    for cb in facts.bypath.get(v[1], []):
                        if cb['krate'] == b['krate']: out.update(consts_in(facts, cb, seen))
                if 'i' in c:
                    cb = facts.bodies.get(b['pre'] + str(c['i']))
                    if cb: out.update(consts_in(facts, cb, seen))
            else:
                for y in x: go(y)
    for bb in b['blocks']:
        go(bb['s']); go(bb['t'])
    # closures built in place
    for bb in b['blocks']:
        for s in bb['s']:
            if s[0] == 'A' and s[2][0] == 'agg' and s[2][1] == 'closure' and s[2][3] >= 0:
                cb = facts.bodies.get(b['pre'] + str(s[2][3]))
                if cb: out.update(consts_in(facts, cb, seen))
    return out

@prop('N06', 'path-sensitive value analysis of the copy-source parser: the bucket and key it returns passed check_bucket_name and check_key, and come from the two groups of a pattern whose first group cannot contain "/" before the split')
def n06(ctx):
    f = ctx.facts
    b = ctx.body(r'AmzCopySource.*::from_header_str$')
    class R(PathParse):
        def on_call(self, ps, e):
            m = re.search(r'(?:captures|string|bytes)::.*Captures::<.*>::get$', e.path) or re.search(r'Captures.*::get$', e.path)
            if m:
                e.pure = True
                i = e.args[1]
                return [(SOME(T('group', e.args[0], i)), ps), (NONE, ps)]
            if re.search(r'Match::?<.*>::as_str$|Match.*::as_str$', e.path):
                e.pure = True
                return [(e.args[0], ps)]
            return PathParse.on_call(self, ps, e)
    r = R()
    X = T('arg:header')
    e = Engine(f, r)
    outs = [(e.snap(m, rv), ps) for rv, m, ps in e.run(b, [X], {}, r.init, 0)]
    ctx.absorb(e)
    ad = f.adts.get('headers::amz_copy_source::AmzCopySource')
    n = 0
    cap = False
    for rv, ps in outs:
        for v in members(rv):
            if is_ok(v):
                for p in members(okv(v)):
                    if p.k != 'adt':
                        ctx.ob('the result is understood', False, 'result', 'the copy source has a form the analysis does not know: ' + show(p)[:100])
                        continue
                    fs = fields(f, p)
                    n += 1
                    k = fs.get('key')
                    bk = fs.get('bucket')
                    ctx.ob('the key was checked', k is not None and ('check_key', k, True) in ps, 'key', 'a copy source whose key was not checked is accepted: ' + show(p)[:160])
                    if bk is not None:
                        ctx.ob('the bucket name was checked', ('check_bucket_name', bk, True) in ps, 'bucket', 'a copy source whose bucket name was not checked is accepted: ' + show(p)[:160])
                        g = bk.k == 't' and k.k == 't'
                        if g and bk.a[0] == 'group':
                            cap = True
                            ok = bk.a[1][0] is k.a[1][0] and k.a[0] == 'group' and bk.a[1][1] is INT(1) and k.a[1][1] is INT(2) and contains(bk, X)
                        else:
                            ok = bk is T('head', X) and k is T('tail', X)
                        ctx.ob('bucket and key are the two pieces of the header', ok, 'pieces', f'the copy source is split into {show(bk)[:100]} and {show(k)[:100]}')
            else:
                bad = any(a in ('check_bucket_name', 'check_key') and w is False for a, x, w in ps)
                nom = True
                ctx.ob('a refusal follows a failed match or check', bad or not any(a == 'check_key' for a, x, w in ps), 'refused', 'a valid copy source is refused')
    ctx.ob('copy sources are accepted', n > 0, 'none', 'no copy source is accepted')
    if cap:
        pats = [p for p in consts_in(f, b) if '(' in p and '/' in p]
        ctx.ob('one pattern', len(pats) == 1, 'pattern', f'patterns: {pats}')
        for p in pats:
            # the groups of the literal, on all short strings over {letter, /, newline}: first group up to the first '/' which is not the first character
            import itertools
            bad = None
            try:
                rx = re.compile(re.sub(r'(?<!\\)\$$', r'\\Z', p))      # without (?m), $ of the regex crate is the end of the text
                for n in range(1, 8):
                    for s in map(''.join, itertools.product('a/\n', repeat=n)):
                        m = rx.search(s)
                        i = s.find('/', 1)
                        want = (s[:i], s[i + 1:]) if i > 0 and i + 1 < len(s) and '\n' not in s[:i] else None
                        got = m.groups() if m else None
                        if want is not None and '/' not in want[0] and got != want:
                            bad = (s, got, want)
            except re.error as x:
                bad = str(x)
            ctx.ob(f'the pattern {p!r} splits at the first "/"', bad is None, 'pattern:groups', f'the pattern {p!r} does not split at the first "/": {bad}')

# --------------------------------------------------------------------------------------------------
class RootNames(FsRule):
    def __init__(self, op):
        FsRule.__init__(self)
        self.op = op
        self.names = {}
    def ev(self, ps, k, a, out, e):
        for x in a:
            for y in find(x, lambda q: isP(q, 'file') or isP(q, 'rootjoin')):
                self.names.setdefault(y.a[1][0] if isP(y, 'file') else T('cat', y.a[1][0]), (k, e.loc if e else ''))
        return ps

def piece_ok(x):
    """variable piece of an internal name: over an alphabet without '.' and '/'"""
    y = x
    while y.k == 't' and (y.a[0] in ('disp', 'dispint') or re.match(r'^\.(Ok|Some)\.', y.a[0])):
        if y.a[0] == 'dispint':
            return 'integer'
        y = y.a[1][0]
    if enc(x) is not None:
        ops = {q[1] for q in atoms(x) if q[0] == 'op'}
        if any('URL_SAFE' in o for o in ops):
            return 'base64url'
        return None
    if y.k == 't' and re.search(r'(Uuid|uuid).*(new_v4|parse_str|try_parse|parse|from_str)', y.a[0]):
        return 'uuid'
    return None

@prop('N03', 'shape analysis of every file name built in the storage root: it starts with a constant beginning with ".", its variable pieces are base64url, UUIDs or integers separated by constants containing ".", the constant heads of different kinds are not prefixes of each other, and no bucket name may start with "."')
def n03(ctx):
    heads = {}
    total = {}
    for op in OPS:
        r = RootNames(op)
        if op == 'copy_object':
            stub_copy(r)
        run_storage(ctx, op, r)
        for nme, (k, loc) in r.names.items():
            total.setdefault(nme, (op, k, loc))
    for nme, (op, k, loc) in total.items():
        ps = list(nme.a[1]) if nme.k == 't' and nme.a[0] == 'cat' else [nme]
        tx = show(nme)[:140]
        shp = []
        ok = ps[0].k == 'str' and ps[0].a[0].startswith('.') and len(ps[0].a[0]) > 1 and '/' not in ps[0].a[0]
        ctx.ob(f'{tx}: starts with a dotted constant', ok, 'head:' + (ps[0].a[0] if ps[0].k == 'str' else 'variable'), f'{op}: a file in the storage root whose name does not start with "." and a constant: {tx}', loc)
        prev = True
        for x in ps[1:] if ps[0].k == 'str' else ps:
            if x.k == 'str':
                shp.append(x.a[0])
                prev = '.' in x.a[0]
                continue
            kd = piece_ok(x)
            ctx.ob(f'{tx}: piece {show(x)[:60]} is {kd}', kd is not None, 'piece:' + (ps[0].a[0] if ps[0].k == 'str' else '?') + str(len(shp)), f'{op}: a piece of an internal file name is not limited to an alphabet without "." and "/": {show(x)[:140]}', loc)
            ctx.ob('pieces are separated', prev, 'separator:' + (ps[0].a[0] if ps[0].k == 'str' else '?'), f'{op}: two variable pieces of {tx} are not separated by a constant with "."', loc)
            prev = False
            shp.append(None)
        if ps[0].k == 'str':
            heads.setdefault(ps[0].a[0], set()).add(tuple(shp))
    hs = sorted(heads)
    ctx.ob(f'{len(hs)} kinds of internal names', len(hs) >= 3, 'kinds', f'internal names: {hs}')
    for i, h in enumerate(hs):
        ctx.ob(f'{h!r} has one shape', len(heads[h]) == 1, 'shape:' + h, f'names with head {h!r} have different shapes: {heads[h]}')
        for g in hs[i + 1:]:
            ctx.ob(f'{h!r} and {g!r} are not prefixes of each other', not g.startswith(h) and not h.startswith(g), 'prefix:' + h, f'the heads {h!r} and {g!r} of internal names are prefixes of each other')
    b = ctx.body(r'S3Path.*::check_bucket_name$')
    r, outs = run_pred(ctx, b)
    for v, ps in outs:
        if v is not FALSE:
            ctx.ob('no bucket name starts with "."', not ps[2] >> ord('.') & 1, 'bucket-dot', 'a bucket name may start with "." and so denote an internal file')

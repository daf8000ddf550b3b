"""Bucket, listing, multipart, copy and range operations."""
from core import *
from lists import Exact, ARR, exact
from props_storage import stub_copy, find_key, md5_of

def strlab(x):
    """string value below lossless wrappers"""
    while x.k == 't' and x.a[1] and re.search(r'(to_string_lossy|to_str|into_owned|display|to_owned|Into<.*>::into|String::from)$', x.a[0]):
        x = x.a[1][0]
    return x

def unopt(v):
    """members of an Option value: (values, may be None)"""
    out, none = [], False
    for m in members(v):
        if m.k == 'adt' and m.a[0] == OPTION:
            if m.a[1] == 0: none = True
            else: out += list(members(m.a[2][0]))
        else:
            out.append(m)
    return out, none

# --------------------------------------------------------------------------------------------------
class DelBucket(FsRule):
    """ps: (a file was found, bucket removed)"""
    init = (False, False)
    def __init__(self, op):
        FsRule.__init__(self)
        self.op = op
        self.n = 0
        self.scan = 0
    def on_next(self, ps, path, site, src, tag, e, eng, mem):
        return ps
    def ev(self, ps, k, a, out, e):
        found, rem = ps
        if k in ('is_dir', 'is_file') and a[0].k == 't' and a[0].a[0] in ('ftype', 'meta-of') and find(a[0], lambda y: y.k == 't' and y.a[0] == 'entry'):
            self.scan += 1
            if (out == 'false') == (k == 'is_dir'):
                found = True
        if k in MUT:
            self.n += 1
            labs = members(a[0])
            if k != 'remove_dir' or not all(x is BKT() or isP(x, 'entry') and x.a[1][0] is BKT() for x in labs):
                self.report(f'delete_bucket:{k}', f'delete_bucket: {k} on {show(a[0])[:120]}: only empty directories of the bucket may be removed', e)
            if found:
                self.report('delete_bucket:after', f'delete_bucket: {k} although the bucket holds an object', e)
            if BKT() in labs and out == 'ok' and k == 'remove_dir':
                rem = True
        return (found, rem)

@prop('B01', 'effect and path analysis of delete_bucket: the only effect is remove_dir on the bucket and directories below it (never remove_dir_all or remove_file), none follows the discovery of an entry which is not a directory, that discovery ends in BucketNotEmpty, and success implies the bucket was removed')
def b01(ctx):
    r = DelBucket('delete_bucket')
    e, outs = run_storage(ctx, 'delete_bucket', r)
    ctx.ob(f'delete_bucket: {r.n} effects are remove_dir of empty directories', not r.violations and r.n > 0, 'delete_bucket:none', 'delete_bucket removes nothing')
    nf = 0
    for rv, m, ps in outs:
        if ps[0]:
            nf += 1
            cs = codes(ctx.facts, rv)
            ctx.ob('delete_bucket: a bucket with an object is refused', not is_ok(rv), 'delete_bucket:nonempty', 'delete_bucket succeeds although the bucket holds an object')
            if is_err(rv) and cs - {'InternalError'}:
                ctx.ob('delete_bucket: refused with BucketNotEmpty', 'BucketNotEmpty' in cs, 'delete_bucket:code', f'delete_bucket refuses a bucket which is not empty with {sorted(cs)}')
    if r.scan:
        ctx.ob('delete_bucket: finds objects', nf > 0, 'delete_bucket:scan', 'delete_bucket ignores the objects it finds')
        ctx.ob('delete_bucket: reports BucketNotEmpty', any('BucketNotEmpty' in codes(ctx.facts, o[0]) for o in outs), 'delete_bucket:code', 'delete_bucket never reports BucketNotEmpty')
    ctx.ob('delete_bucket: succeeds', any(is_ok(o[0]) and o[2][1] for o in outs), 'delete_bucket:never', 'delete_bucket never succeeds with the bucket removed')

# --------------------------------------------------------------------------------------------------
class DelMany(FsRule):
    """ps: (outcome of the current key, reported for it, in an iteration)"""
    init = ('?', 0, False)
    def __init__(self, key):
        FsRule.__init__(self)
        self.key = key
        self.pushes = {'DeletedObject': 0, 'S3Error': 0}
        self.iters = 0
    def branch(self, ps, v, eng, mem):
        t, pos = strip_not(v)
        return None
    def on_next(self, ps, path, site, src, tag, e, eng, mem):
        if not contains(self.key, T('each', src)):
            return ps
        if ps[2]:
            self.iters += 1
            if ps[1] != 1:
                self.report('delete_objects:count', f'delete_objects: the outcome of a key is reported {ps[1]} times')
        return ('?', 0, tag == 'item')
    def ev(self, ps, k, a, out, e):
        st, n, it = ps
        o = OBJ(BUCKET, self.key)
        lab = a[0] if a else UNIT
        if k in ('is_file', 'is_dir', 'exists') and (lab is o or lab is T('meta-of', o)):
            st = {'true': 'there', 'false': 'absent' if st in ('?', 'absent') else st}.get(out, st)
        if k in ('remove_file', 'remove_dir') and lab is o:
            st = 'removed' if out == 'ok' else 'failed'
        elif out == 'err':
            st = 'failed'
        elif k == 'next_entry' and out == 'item':
            st = 'kept'
        return (st, n, it)
    def other(self, ps, e):
        if e.path.endswith('::push') and len(e.args) > 1:
            for x in members(e.args[1]):
                nm = x.a[0].split('::')[-1] if x.k == 'adt' else ''
                if nm in self.pushes:
                    self.pushes[nm] += 1
                    st, n, it = ps
                    ks, none = unopt(fields(e.eng.f, x).get('key', NONE))
                    if none or [q for q in ks if q is not self.key]:
                        self.report(f'delete_objects:key:{nm}', f'delete_objects: an entry of the result names {[show(q)[:80] for q in ks]} instead of the key it is about', e)
                    if nm == 'DeletedObject' and st in ('?', 'there', 'failed'):
                        self.report(f'delete_objects:deleted:{st}', f'delete_objects: a key is reported as deleted although the object was ' + {'?': 'never looked at', 'there': 'found and not removed', 'failed': 'not removed because of an error'}[st], e)
                    if nm == 'S3Error' and st == 'removed':
                        self.report('delete_objects:error', 'delete_objects: a key is reported as failed although it was removed without error', e)
                    return [(x2, p2, m2) for x2, p2, m2 in self.pushed(e, (st, n + 1, it))]
        return None
    def pushed(self, e, ps):
        m = dict(e.mem)
        r = e.raw[0]
        if r.k == 'ref':
            old = e.eng.load(m, r.a[0], r.a[1])
            e.eng.write_targets(m, [(r.a[0], r.a[1])], seq_push(e.eng.snap(m, old), 'call:' + e.path, tuple(e.args[1:])))
        return [(UNIT, ps, m)]

def b02_automaton(ctx):
    key = find_key(ctx, 'delete_objects')
    r = DelMany(key)
    e, outs = run_storage(ctx, 'delete_objects', r)
    ctx.ob('delete_objects: exactly one entry per key', not r.violations and r.iters > 0)
    ctx.ob('delete_objects: deleted keys are reported', r.pushes['DeletedObject'] > 0, 'delete_objects:none', 'delete_objects reports no deleted key')
    ctx.ob('delete_objects: failed keys are reported', r.pushes['S3Error'] > 0, 'delete_objects:noerr', 'delete_objects reports no failed key')
    for rv, m, ps in outs:
        if is_ok(rv):
            for o in members(okv(rv)):
                fs = fields(ctx.facts, o)
                for f, nm in (('deleted', 'DeletedObject'), ('errors', 'S3Error')):
                    v = fs.get(f, NONE)
                    has = ('adt', next((q.a[0] for q in find(v, lambda y: y.k == 'adt' and y.a[0].endswith('::' + nm))), None), 0) in atoms(v)
                    ctx.ob(f'delete_objects: the result lists {nm} entries in {f}', has, f'delete_objects:{f}', f'delete_objects does not return the {nm} entries in {f}: {show(v)[:120]}')

DKEY = lambda i: T('dkey', INT(i))
class DelExact(Exact):
    """a list of keys, one by one, paths never merged.  ps: (key being worked on, outcome of each key, failure of the whole request)"""
    stands_for_any = True
    def __init__(self, n):
        Exact.__init__(self)
        self.n = n
        self.init = (None, ('?',) * n, '')
    def input(self):
        objs = ARR([with_fields(T('object', INT(i)), key=DKEY(i)) for i in range(self.n)])
        return with_fields(IN, delete=with_fields(T('delete'), objects=objs))
    def special(self, ps, e):
        return FsRule.on_call(self, ps, e)
    def called(self, ps, body, args, eng, mem):
        for a in args:
            v = eng.snap(mem, a)
            if v.k == 't' and v.a[0] == 'dkey':
                return (v.a[1][0].a[0],) + ps[1:]
        return ps
    def ev(self, ps, k, a, out, e):
        cur, st, whole = ps
        lab = a[0] if a else UNIT
        ks = {q.a[1][0].a[0] for x in a for q in find(x, lambda q: q.k == 't' and q.a[0] == 'dkey')}
        if len(ks) == 1:
            cur = min(ks)
        S = lambda v: st[:cur] + (v,) + st[cur + 1:]
        o = None if cur is None else OBJ(BUCKET, DKEY(cur))
        if k in ('is_file', 'is_dir', 'exists') and o is not None and (lab is o or lab is T('meta-of', o)):
            if st[cur] != 'failed':
                st = S({'true': 'there', 'false': 'absent' if st[cur] in ('?', 'absent') else st[cur]}.get(out, st[cur]))
        elif k in ('remove_file', 'remove_dir') and lab is o:
            st = S('removed' if out == 'ok' else 'failed')
        elif out == 'err':
            w = k + ':' + cls(lab)
            if cur is None:
                whole = whole or w
            else:
                st = S('failed')
        elif k == 'next_entry' and out == 'item' and cur is not None:
            st = S('kept')
        return (cur, st, whole)

def delete_lists(ctx, n, check):
    r = DelExact(n)
    e, outs = run_storage(ctx, 'delete_objects', r, r.input(), r.init)
    ok = 0
    for rv, m, ps in outs:
        if not is_ok(rv):
            continue
        ok += 1
        got = {'deleted': [], 'errors': []}
        for o in members(okv(rv)):
            fs = fields(ctx.facts, o)
            for f in got:
                v = fs.get(f, NONE)
                if v is NONE:
                    continue
                xs = exact(v.a[2][0]) if v.k == 'adt' and v.a[0] == OPTION else None
                if xs is None:
                    raise Limit('delete_objects: ' + f + ' is ' + show(v)[:80])
                for x in xs:
                    ks, none = unopt(fields(ctx.facts, x).get('key', NONE))
                    got[f] += [None] if none or not ks else ks
        check(ps, got)
    return ok

def b02_exact(ctx, n):
    D = 'delete_objects'
    def check(ps, got):
        all_ = got['deleted'] + got['errors']
        for k in all_:
            ctx.ob(f'{D}, {n} keys: every entry names a key of the request', k is not None and k.k == 't' and k.a[0] == 'dkey', f'{D}:key', f'{D}: an entry of the result names {show(k) if k else "no key"} instead of the key it is about')
        for i in range(n):
            c = sum(k is DKEY(i) for k in all_)
            ctx.ob(f'{D}, {n} keys: one entry per key', c == 1, f'{D}:count', f'{D}: the outcome of a key is reported {c} times')
            st = ps[1][i]
            if DKEY(i) in got['deleted']:
                ctx.ob(f'{D}, {n} keys: deleted means deleted', st not in ('?', 'there', 'failed'), f'{D}:deleted:{st}', f'{D}: a key is reported as deleted although the object was ' + {'?': 'never looked at', 'there': 'not removed', 'failed': 'not removed because of an error'}.get(st, st))
            if DKEY(i) in got['errors']:
                ctx.ob(f'{D}, {n} keys: error means failed', st != 'removed', f'{D}:error', f'{D}: a key is reported as failed although it was removed without error')
        seen.update(('deleted',) * bool(got['deleted']) + ('errors',) * bool(got['errors']) + ('both',) * bool(got['deleted'] and got['errors']))
    seen = set()
    try:
        ok = delete_lists(ctx, n, check)
    except Limit as ex:
        if n < 3:
            raise
        ctx.assume.append(f'lists of three keys: too many paths ({ex})')
        return
    ctx.ob(f'{D}, {n} keys: succeeds', ok > 0, f'{D}:never', f'{D} never succeeds')
    if n:
        ctx.ob(f'{D}: deleted keys are reported', 'deleted' in seen, f'{D}:none', f'{D} reports no deleted key')
        ctx.ob(f'{D}: failed keys are reported', 'errors' in seen, f'{D}:noerr', f'{D} reports no failed key')
    if n > 1:
        ctx.ob(f'{D}: one failure does not hide the other outcomes', 'both' in seen, f'{D}:both', f'{D} never reports both a deleted and a failed key')

def delete_failures(ctx, n):
    """W01 for delete_objects: a failure is reported for the key it hits, or fails the request"""
    D = 'delete_objects'
    def check(ps, got):
        ctx.ob(f'{D}, {n} keys: a failure outside of the keys fails the request', not ps[2], f'{D}:{ps[2]}', f'{D} succeeds although {ps[2]} failed')
        for i in range(n):
            ctx.ob(f'{D}, {n} keys: a failure is reported for its key', ps[1][i] != 'failed' or DKEY(i) in got['errors'], f'{D}:unreported', f'{D} succeeds without an error for a key whose removal failed')
    delete_lists(ctx, n, check)

def decide(ctx, fn, items, otherwise):
    """fn(ctx, item) exactly; what the exact rule cannot follow is left to otherwise(ctx)"""
    sub = Ctx(ctx.pid, ctx.facts, ctx.tier)
    try:
        sub.parallel(fn, items)
    except Limit as ex:
        ctx.assume.append(f'decided by the automaton, not element by element ({ex})')
        return otherwise(ctx)
    ctx.merge(sub)

@prop('B02', 'exact interpretation over lists of 0 to 3 keys (paths never merged, what depends on the length left open): at the end every key has exactly one entry, in deleted only if that object was removed or found absent, in errors only if something failed for it. Code the exact rule cannot follow is decided by a per-iteration automaton over the requested keys: on every path one iteration adds exactly one entry, either DeletedObject or S3Error, naming the key of that iteration; DeletedObject only after that object was removed or found absent')
def b02(ctx):
    decide(ctx, b02_exact, [0, 1, 2, 3], b02_automaton)

# --------------------------------------------------------------------------------------------------
class Create(FsRule):
    init = ('?', False)
    def __init__(self):
        FsRule.__init__(self)
        self.n = 0
    def ev(self, ps, k, a, out, e):
        ex, mk_ = ps
        if k in ('exists', 'is_dir', 'metadata') and a[0] is BKT():
            ex = {'true': 'yes', 'false': 'no', 'ok': 'yes'}.get(out, ex)
        if k in MUT:
            self.n += 1
            if k != 'create_dir' or a[0] is not BKT():
                self.report(f'create_bucket:{k}', f'create_bucket: {k} on {show(a[0])[:100]}: only an exclusive create_dir of the bucket tells an existing bucket from a new one', e)
            if ex == 'yes':
                self.report('create_bucket:existing', 'create_bucket: changes a bucket which exists', e)
            if out == 'ok':
                mk_ = True
        return (ex, mk_)
    # the exclusive create_dir itself tells: its error has the kind AlreadyExists
    EK = T('errkind', T('ioerr', STR('create_dir')))
    def variant(self, ps, v, ad, vis):
        return ('yes', ps[1]) if v is self.EK and [ad['variants'][i]['name'] for i in vis] == ['AlreadyExists'] else ps
    def branch(self, ps, v, eng, mem):
        t, pos = strip_not(v)
        kind = None
        if t.k == 't' and t.a[0] == 'eq' and self.EK in t.a[1]:
            o = t.a[1][1 - t.a[1].index(self.EK)]
            kind = o.a[1] if o.k == 'adt' else None
        elif t.k == 't' and t.a[0].startswith('is:') and t.a[1][0] is self.EK:
            kind = int(t.a[0].rsplit(':', 1)[1])
        vs = eng.f.adts['core::io::error::ErrorKind']['variants']
        if kind is not None and vs[kind]['name'] == 'AlreadyExists':
            return [(int(pos), ('yes', ps[1])), (int(not pos), ps)]
        return None

@prop('B03', 'effect and path analysis of create_bucket: its only effect is an exclusive create_dir of the bucket; a bucket found to exist leads to BucketAlreadyExists; success implies this request created the directory')
def b03(ctx):
    r = Create()
    e, outs = run_storage(ctx, 'create_bucket', r)
    ctx.ob(f'create_bucket: {r.n} effects', not r.violations and r.n > 0)
    n = 0
    for rv, m, ps in outs:
        ctx.ob('create_bucket: success implies created', not is_ok(rv) or ps[1], 'create_bucket:ok', 'create_bucket succeeds without creating the bucket')
        if ps[0] == 'yes':
            cs = codes(ctx.facts, rv)
            n += 1
            ctx.ob('create_bucket: existing bucket', is_err(rv) and cs <= {'BucketAlreadyExists', 'BucketAlreadyOwnedByYou'} and cs, 'create_bucket:code', f'create_bucket of an existing bucket gives {sorted(cs) or "success"}')
    ctx.ob('create_bucket: detects existing buckets', n > 0, 'create_bucket:check', 'create_bucket does not detect an existing bucket')
    ctx.ob('create_bucket: succeeds', any(is_ok(o[0]) for o in outs))

# --------------------------------------------------------------------------------------------------
class Listing(FsRule):
    """ps: (kind of the current entry, name or prefix test, what was done with it, directory being read to the end, queue exhausted, the list is sorted)"""
    init = (None, '?', '', True, False, False)
    def __init__(self, op, adt, bucket):
        FsRule.__init__(self)
        self.op, self.adt, self.bucket = op, adt, bucket
        self.entries = 0
        self.added = 0
        self.queued = 0
        self.sorts = []
    def close(self, ps, e=None):
        kind, test, act, end, q, srt = ps
        if kind is None:
            return
        self.entries += 1
        B = lambda key, msg: self.report(f'{self.op}:{key}', f'{self.op}: {msg}', e)
        if self.bucket:
            if kind == 'dir':
                if act != 'q': B('dir', 'the content of a directory is not listed' if act == '' else 'a directory is handled as an object')
            elif kind == 'file':
                if test == 'no' and act != '': B('prefix', 'a key without the prefix is listed')
                if test in ('?', 'yes') and act == '': B('missing', 'an object is left out')
                if act == 'q': B('file', 'a file is handled as a directory')
                if len(act) > 1: B('twice', 'an object is listed more than once')
            elif kind == '?':
                if act == '': B('missing', 'an entry is left out')
                if act != '': B('kind', 'an entry is listed without looking at its type')
        else:
            good = kind == 'dir' and test == 'yes'
            if good and act != 'a': B('missing', 'a bucket is left out' if act == '' else 'a bucket is listed twice')
            if not good and act != '': B('extra', f'something which is not a bucket is listed (directory: {kind}, valid name: {test})')
    def enter(self, ps, body, args, eng, mem):
        if body['path'].endswith('::check_bucket_name') and not self.bucket:
            x = eng.snap(mem, args[0])
            good = find(x, lambda y: y.k == 't' and y.a[0] in ('name', 'entry', 'P:entry'))
            if not good:
                return None
            return [(TRUE, ps[:1] + ('yes',) + ps[2:]), (FALSE, ps[:1] + ('no',) + ps[2:])]
        return None
    def branch(self, ps, v, eng, mem):
        t, pos = strip_not(v)
        if t.k == 't' and re.search(r'(str::<impl str>|slice::<impl \[T\]>)::starts_with$', t.a[0]) and is_prefix(t.a[1][1]):
            x, y = t.a[1][0], t.a[1][1]
            if not is_key(x):
                self.report(f'{self.op}:prefix of', f'{self.op}: the prefix is compared with {show(x)[:100]}')
            return [(int(pos), ps[:1] + ('yes',) + ps[2:]), (int(not pos), ps[:1] + ('no',) + ps[2:])]
        return None
    def ev(self, ps, k, a, out, e):
        kind, test, act, end, q, srt = ps
        if k == 'next_entry':
            self.close(ps, e)
            if out == 'item':
                return ('?', '?', '', False, q, srt)
            return (None, '?', '', out == 'end', q, srt)
        if k == 'read_dir':
            if not end:
                self.report(f'{self.op}:unfinished', f'{self.op}: a directory is not read to its end', e)
            return (None, '?', '', out != 'ok', False, srt)
        if k in ('is_dir', 'is_file') and a[0].k == 't' and a[0].a[0] in ('ftype', 'meta-of') or k in ('is_dir', 'is_file') and isP(a[0], 'entry'):
            if kind is not None:
                d = (out == 'true') == (k == 'is_dir')
                kind = 'dir' if d else 'file'
        return (kind, test, act, end, q, srt)
    def on_next(self, ps, path, site, src, tag, e, eng, mem):
        if re.search(r'pop_|::get$|::next', path) and not find(src, lambda y: y.k == 'adt' and y.a[0].endswith('::' + self.adt)):
            if tag == 'item' and self.bucket and find(src, lambda y: isP(y, 'bucket')):
                if ps[3] == 'taken':
                    self.report(f'{self.op}:skipped', f'{self.op}: a directory which was found is not listed')
                ps = ps[:3] + ('taken',) + ps[4:]
            return ps[:4] + (tag == 'end',) + ps[5:]
        return ps
    def other(self, ps, e):
        if re.search(r'str::<impl str>::strip_prefix$', e.path) and self.bucket and len(e.args) > 1 and is_prefix(e.args[1]):
            if not is_key(e.args[0]):
                self.report(f'{self.op}:prefix of', f'{self.op}: the prefix is compared with {show(e.args[0])[:100]}', e)
            return [(SOME(T('after-prefix')), ps[:1] + ('yes',) + ps[2:]), (NONE, ps[:1] + ('no',) + ps[2:])]
        if re.search(r'::(push|push_back|push_front|insert|extend)$', e.path) and len(e.args) > 1 and ps[0] is not None:
            for x in members(e.args[-1]):
                c = None
                if x.k == 'adt' and x.a[0].endswith('::' + self.adt):
                    c = 'a'
                    self.added += 1
                    self.check_item(x, e)
                elif isP(x, 'entry'):
                    c = 'q'
                    self.queued += 1
                if c:
                    p2 = ps[:2] + ((ps[2] + c)[:3],) + ps[3:5] + (ps[5] and c == 'q',)
                    m = dict(e.mem)
                    r = e.raw[0]
                    if r.k == 'ref':
                        old = e.eng.load(m, r.a[0], r.a[1])
                        e.eng.write_targets(m, [(r.a[0], r.a[1])], seq_push(e.eng.snap(m, old), 'call:' + e.path, tuple(e.args[1:])))
                    return [(UNIT, p2, m)]
        m = re.search(r'::(sort|sort_by|sort_by_key|sort_unstable|sort_unstable_by|sort_unstable_by_key|sort_by_cached_key)$', e.path)
        if m and len(e.raw) > 1:
            # every entry of the list has a key (see check_item)
            A, B = [with_fields(x, key=SOME(T('.Some.0', T('.key', x)))) if self.bucket else x for x in (T('A'), T('B'))]
            n = 2 if m.group(1).endswith('_by') else 1
            for rv, mm, pp in e.eng.apply_value(e.raw[1], [A, B][:n], e.mem, ps, e.eng.sub(e.fr, 'sort')):
                self.sorts.append((m.group(1), e.eng.snap(mm, rv), e.loc))
            if self.islist(e.args[0]):
                return [(UNIT, ps[:5] + (True,))]
            return None
        if ps[5] and re.search(r'::(push|push_back|push_front|insert|extend|append|retain|retain_mut|truncate|remove|swap|reverse|dedup|dedup_by|dedup_by_key|drain|pop|pop_back|pop_front|clear|swap_remove|split_off|rotate_left|rotate_right|resize|fill)$', e.path) and e.args and self.islist(e.args[0]):
            e.lastps = ps[:5] + (False,)
            self.report(f'{self.op}:changed', f'{self.op}: the list is changed after it was sorted', e)
        return None
    def islist(self, v):
        b = [x for x in find(v, lambda y: y.k == 'adt' and y.a[0].endswith('::' + self.adt))]
        return bool(b) or v.k == 't' and 'Vec' in v.a[0] and v.a[0].endswith(('::new', '::with_capacity', '::default'))
    def check_item(self, x, e):
        fs = fields(e.eng.f, x)
        f = 'key' if self.bucket else 'name'
        ks, none = unopt(fs.get(f, NONE))
        ok = not none and ks and all((is_key if self.bucket else is_name)(q) for q in ks)
        if not ok:
            self.report(f'{self.op}:name', f'{self.op}: an entry is listed under {[show(q)[:100] for q in ks]} instead of its own {"key" if self.bucket else "name"}', e)
        for fld, what in (('size', 'len-of'), ('last_modified', 'modified')):
            if self.bucket:
                vs, none = unopt(fs.get(fld, NONE))
                if none or not vs or not all(find(q, lambda y: y.k == 't' and y.a[0] == what and find(y, lambda z: z.k == 't' and z.a[0] == 'entry')) for q in vs):
                    self.report(f'{self.op}:{fld}', f'{self.op}: {fld} of an entry is {[show(q)[:100] for q in vs]}', e)

def is_key(x):
    x = strlab(x)
    while x.k == 't' and x.a[0] == 'disp':
        x = strlab(x.a[1][0])
    return x.k == 't' and x.a[0] == 'rel' and isP(x.a[1][0], 'entry') and x.a[1][0].a[1][0] is BKT() and x.a[1][1] is BKT()

def is_prefix(x):
    """the whole requested prefix"""
    vs = members(strlab(x))
    return bool(vs) and all(y is F('prefix') or y.k == 't' and y.a[0] == '.Some.0' and y.a[1][0] is F('prefix') or y is STR('') for y in vs)

def is_name(x):
    x = strlab(x)
    return x.k == 't' and x.a[0] == 'name' and x.a[1][0] is T('entry', P('root'))

def ascending(kind, v):
    """is the comparison the ascending order of the key field?"""
    A, B = T('A'), T('B')
    key = lambda y, X: contains(y, F('key', X)) or any(find(y, lambda z: z.k == 't' and z.a[0].endswith('.key') and contains(z, X)))if False else bool(find(y, lambda z: z.k == 't' and z.a[0].split('.')[-1] == 'key' and contains(z, X)))
    bad = ('reverse', 'Reverse', 'lowercase', 'uppercase', 'len', 'rev')
    for m in members(v):
        ops = ' '.join(q[1] for q in atoms(m) if q[0] == 'op')
        if any(b in ops for b in bad) or any(q[0] == 'adt' and 'Reverse' in q[1] for q in atoms(m)):
            return False
        if kind.endswith('_by'):
            c = [y for y in find(m, lambda z: z.k == 't' and z.a[0].endswith(('::cmp', '::partial_cmp')))]
            if not c or not all(key(y.a[1][0], A) and key(y.a[1][1], B) for y in c):
                return False
        elif 'key' in kind:
            if not key(m, A):
                return False
        else:
            return False
    return True

# ---- listings, entry by entry
TREES = {        # (kind, id, entries)
    'empty': [], 'one object': [('f', 0)], 'two objects': [('f', 0), ('f', 1)], 'an object in a directory': [('d', 9, [('f', 0)])],
    'a directory before an object': [('d', 9, [('f', 0)]), ('f', 1)], 'an object before directories': [('f', 0), ('d', 8, [('d', 9, [('f', 1)])])],
}

class Walk(Exact):
    """the walk over a bucket with known entries, all calls succeeding, paths never merged.
    ps: (position in each directory, prefix test of each object, is the url encoding asked for, order of the objects after sorting)"""
    stands_for_any = True
    def __init__(self, op, tree):
        Exact.__init__(self)
        self.op = op
        self.kids = {}
        self.names = {}
        self.kind = {}
        self.grow(BKT(), tree)
        self.sorts = []
        self.encsort = False
    def grow(self, lab, tree):
        self.kids[lab] = [x[1] for x in tree]
        for x in tree:
            q = P('entry', lab, INT(x[1]))
            self.names[x[1]] = q
            self.kind[x[1]] = x[0]
            if x[0] == 'd':
                self.grow(q, x[2])
    def below(self, x):
        return x
    init = ((), (), '', None)
    def fid(self, x):
        s = {y.a[1][1].a[0] for y in find(x, lambda y: y.k == 't' and y.a[0] in ('entry', 'P:entry') and len(y.a[1]) == 2 and y.a[1][1].k == 'int')}
        return s
    def own(self, x):
        """the one object a value is about: the innermost entry"""
        for i in self.fid(x):
            if not any(j != i and find(self.names[j], lambda y: y is self.names[i]) for j in self.fid(x)):
                return i
        return None
    def ev(self, ps, k, a, out, e):
        if out == 'err':
            return None
        if k in ('is_dir', 'is_file'):
            i = self.own(a[0])
            if i is not None:
                return ps if ((self.kind[i] == 'd') == (k == 'is_dir')) == (out == 'true') else None
        if k in ('exists', 'metadata'):
            return ps if out in ('true', 'ok') else None
        return ps
    def next(self, ps, k, ref, e):
        v = ref
        for _ in range(10):
            if v.k == 'ref':
                v = e.eng.load(e.mem, v.a[0], v.a[1])
            elif v.k in ('seq', 'st'):
                v = v.a[0]
            elif v.k == 'adt' and len(v.a[2]) == 1:
                v = v.a[2][0]
        src = self.lab(e.eng.snap(e.mem, v))
        if not (src.k == 't' and src.a[0] == 'rd') or src.a[1][0] not in self.kids:
            raise Limit('entries of ' + show(src)[:80])
        lab = src.a[1][0]
        pos = dict(ps[0])
        i = pos.get(lab, 0)
        if i >= len(self.kids[lab]):
            return [(NONE if k == 'next' else OK(NONE), ps, e.mem)]
        pos[lab] = i + 1
        it = T('entry', lab, INT(self.kids[lab][i]))
        p2 = (tuple(sorted(pos.items(), key=lambda q: q[0].uid)),) + ps[1:]
        return [(SOME(OK(it)) if k == 'next' else OK(SOME(it)), p2, e.mem)]
    def branch(self, ps, v, eng, mem):
        t, pos = strip_not(v)
        if t.k == 't' and re.search(r'(str::<impl str>|slice::<impl \[T\]>)::starts_with$', t.a[0]) and is_prefix(t.a[1][1]):
            i = self.own(t.a[1][0])
            if i is not None:
                return self.test(ps, i, lambda yes: int(yes == pos))
        if t.k == 't' and contains(t, F('encoding_type')) and contains(t, STR('url')) and len(find(t, lambda y: y.k == 'str')) == 1:
            old = ps[2]
            return [(int(w == pos), ps[:2] + ('url' if w else 'not url',) + ps[3:]) for w in (True, False) if old in ('', 'url' if w else 'not url')]
        return None
    def test(self, ps, i, val):
        d = dict(ps[1])
        r = []
        for yes in (True, False):
            if d.get(i, yes) == yes:
                r.append((val(yes), ps[:1] + (tuple(sorted({**d, i: yes}.items())),) + ps[2:]))
        return r
    def special(self, ps, e):
        p, a = e.path, e.args
        if p.endswith('DirEntry::path') and a[0].k == 't' and a[0].a[0] == 'entry':
            e.pure = True
            return [(P('entry', *a[0].a[1]), ps)]
        if re.search(r'str::<impl str>::strip_prefix$', p) and len(a) > 1 and is_prefix(a[1]):
            i = self.own(a[0])
            if i is not None:
                return self.test(ps, i, lambda yes: SOME(T('after-prefix')) if yes else NONE)
        m = re.search(r'(VecDeque|Vec)::<.*>::(pop_front|pop_back|pop)$', p)
        if m:
            ref, v = self.target(e)
            xs = exact(v)
            if ref is None or xs is None:
                raise Limit('pop of ' + show(v)[:80])
            if not xs:
                return [(NONE, ps, e.mem)]
            x, rest = (xs[0], xs[1:]) if m.group(2) == 'pop_front' else (xs[-1], xs[:-1])
            return [(SOME(x), ps, self.store(e, ref, ARR(rest)))]
        m = re.search(r'::(sort|sort_by|sort_by_key|sort_unstable|sort_unstable_by|sort_unstable_by_key|sort_by_cached_key)$', p)
        if m:
            ref, v = self.target(e)
            xs = exact(v)
            if ref is None or xs is None:
                raise Limit('sort of ' + show(v)[:80])
            n = 2 if m.group(1).endswith('_by') else 1
            if len(e.raw) > 1:
                A, B = [with_fields(x, key=SOME(T('.Some.0', T('.key', x)))) for x in (T('A'), T('B'))]
                for rv, mm, pp in e.eng.apply_value(e.raw[1], [A, B][:n], e.mem, ps, e.eng.sub(e.fr, 'sort')):
                    self.sorts.append((m.group(1), e.eng.snap(mm, rv), e.loc))
            self.encsort = self.encsort or any(encoded(x) for x in xs)
            return [(UNIT, ps[:3] + (tuple(self.own(x) for x in xs),), self.store(e, ref, ARR(xs)))]
        m = re.search(r'::(dedup|dedup_by|dedup_by_key|truncate)$', p)
        if m:
            ref, v = self.target(e)
            xs = exact(v)
            if ref is not None and xs is not None:
                return [(UNIT, ps, self.store(e, ref, ARR(xs[:k]))) for k in sorted({len(xs), min(len(xs), 1 if m.group(1) != "truncate" else 0)})]
        return FsRule.on_call(self, ps, e)

def encoded(x):
    return bool(find(x, lambda y: y.k in ('t', 'fn') and re.search(r'urlencoding.*::encode', str(y.a[0])))) or any(q[0] == 'op' and re.search(r'urlencoding.*::encode|uri_encode|utf8_percent_encode', q[1]) for q in atoms(x))

def listing_exact(ctx, case):
    op, name = case
    R5 = ctx.pid == 'R05'
    def ob(mine, *a):
        if mine == R5:
            ctx.ob(*a)
    r = Walk(op, TREES[name])
    e, outs = run_storage(ctx, op, r, None, r.init)
    f = ctx.facts
    files = [i for i, k in r.kind.items() if k == 'f']
    n = 0
    W = f'{op}, {name}'
    seen = set()
    for rv, m, ps in outs:
        if not is_ok(rv):
            continue
        n += 1
        for o in members(okv(rv)):
            fs = fields(f, o)
            c = fs.get('contents', NONE)
            xs = exact(c.a[2][0]) if c.k == 'adt' and c.a[0] == OPTION and c.a[1] == 1 else None
            if xs is None:
                raise Limit(f'{op}: contents are {show(c)[:120]}')
            tested = dict(ps[1])
            want = [i for i in files if tested.get(i, True)]
            et, nt = unopt(fs.get('encoding_type', NONE))
            keys = []
            for x in xs:
                ff = fields(f, x)
                ks, none = unopt(ff.get('key', NONE))
                if len(ks) != 1 or none:
                    raise Limit(f'{op}: the key of an entry is {show(ff.get("key", NONE))[:120]}')
                i = r.own(ks[0])
                keys.append(i)
                enc_ = encoded(ks[0])
                if et:
                    ob(True, f'{W}: the announced encoding is applied to the keys', enc_, f'{op}:unencoded', f'{op} announces an encoding type, but the key is {show(ks[0])[:120]}')
                else:
                    ob(True, f'{W}: keys are given as they are', not enc_, f'{op}:encoded', f'{op} gives encoded keys without announcing it: {show(ks[0])[:120]}')
                    k = strlab(ks[0])
                    while k.k == 't' and k.a[0] == 'disp':
                        k = strlab(k.a[1][0])
                    ok = k.k == 't' and k.a[0] == 'rel' and k.a[1][0] is r.names.get(i) and k.a[1][1] is BKT()
                    ob(False, f'{W}: an entry has its own key', ok, f'{op}:name', f'{op}: an entry is listed under {show(ks[0])[:120]} instead of its own key')
                for fld, what in (('size', 'len-of'), ('last_modified', 'modified')):
                    vs, none = unopt(ff.get(fld, NONE))
                    ok = not none and vs and all(find(q, lambda y: y.k == 't' and y.a[0] == what and r.own(y) == i) for q in vs)
                    ob(False, f'{W}: {fld} of the same object', ok, f'{op}:{fld}', f'{op}: {fld} of an entry is {[show(q)[:100] for q in vs]}')
            ob(False, f'{W}: exactly the matching objects', sorted(map(str, keys)) == sorted(map(str, want)), f'{op}:entries', f'{op}: a bucket with {name} is listed as {len(xs)} entries ({keys}) where the objects {want} match')
            ob(False, f'{W}: sorted', len(xs) < 2 or ps[3] is not None and list(ps[3]) == keys, f'{op}:sorted', f'{op} returns a list which is not sorted, or changed after it was sorted')
            if op.endswith('v2'):
                kc, none = unopt(fs.get('key_count', NONE))
                def count(c):
                    if c.k == 'int':
                        return c.a[0] == len(xs)
                    ls = find(c, lambda y: y.k == 't' and y.a[0] == 'len' and exact(y.a[1][0]) is not None)
                    return len(ls) == 1 and [r.own(x) for x in exact(ls[0].a[1][0])] == keys and not any(q[0] == 'op' and q[1].startswith('bin:') for q in atoms(c))
                ob(False, f'{W}: the key count is the number of entries', not none and kc and all(map(count, kc)), f'{op}:key_count', f'{op}: key_count is {[show(c)[:120] for c in kc]} for {len(xs)} entries')
            if ps[2] == 'url':
                ob(True, f'{W}: the url encoding is announced when it is asked for', bool(et) and not nt, f'{op}:ignored', f'{op} does not announce the encoding type which was asked for')
            ob(True, f'{W}: an encoding is announced only when it was asked for', not et or ps[2] == 'url', f'{op}:announced', f'{op} announces the encoding type {[show(x)[:80] for x in et]} without having looked whether it is url')
            if et:
                seen.add('url')
                ds, none = unopt(fs.get('delimiter', NONE))
                ob(True, f'{W}: the announced encoding is applied to the delimiter', all(encoded(d) for d in ds), f'{op}:delimiter', f'{op} announces an encoding type, but the delimiter is {[show(d)[:100] for d in ds]}')
            else:
                seen.add('plain')
    ob(False, f'{W}: sorted ascending by key', all(ascending(k, v) for k, v, l in r.sorts), f'{op}:order', f'{op}: entries are not sorted ascending by key: {[(k, show(v)[:160]) for k, v, l in r.sorts]}', r.sorts[0][2] if r.sorts else '')
    ctx.ob(f'{W}: succeeds', n > 0, f'{op}:never', f'{op} never succeeds')
    ob(True, f'{W}: the order is that of the keys, not of their encoding', not r.encsort, f'{op}:order', f'{op} sorts the encoded keys')
    ob(True, f'{W}: with and without encoding', seen == {'url', 'plain'}, f'{op}:paths', f'{op}: only {sorted(seen)}')

LISTINGS = [(op, t) for op in ('list_objects', 'list_objects_v2') for t in TREES]

def listing_loose(ctx):
    for op in ('list_objects', 'list_objects_v2'):
        r = Listing(op, 'Object', True)
        e, outs = run_storage(ctx, op, r)
        for rv, m, ps in outs:
            for o in members(okv(rv)) if is_ok(rv) else ():
                fs = fields(ctx.facts, o)
                et, none = unopt(fs.get('encoding_type', NONE))
                ctx.ob(f'{op}: the announced encoding is applied to the keys', not et or encoded(fs.get('contents', NONE)), f'{op}:unencoded', f'{op} announces an encoding type, but does not encode the keys')

@prop('R05', 'exact interpretation of both listing operations over buckets with known entries (six trees of up to two objects and two directories, paths never merged): an encoding type is announced only on paths on which the request asked for url, then every key and the delimiter are url-encoded, and otherwise no key is; code over other containers: the encoder is applied to the list before an encoding is announced')
def r05(ctx):
    decide(ctx, listing_exact, LISTINGS, listing_loose)

def r02_automaton(ctx):
    f = ctx.facts
    for op in ('list_objects', 'list_objects_v2'):
        r = Listing(op, 'Object', True)
        e, outs = run_storage(ctx, op, r)
        nok = 0
        for rv, m, ps in outs:
            if not is_ok(rv):
                continue
            nok += 1
            r.close(ps)
            ctx.ob(f'{op}: success only after every queued directory was read', ps[4] and ps[3] is True, f'{op}:queue', f'{op} succeeds before every directory was read to its end')
            for o in members(okv(rv)):
                fs = fields(f, o)
                cs, none = unopt(fs.get('contents', NONE))
                good = not none and cs and all(('adt', find(c, lambda y: y.k == 'adt' and y.a[0].endswith('::Object'))[0].a[0], 0) in atoms(c) if find(c, lambda y: y.k == 'adt' and y.a[0].endswith('::Object')) else False for c in cs)
                ctx.ob(f'{op}: the entries are returned', good, f'{op}:contents', f'{op} does not return the list it built: {show(fs.get("contents", NONE))[:160]}')
                ctx.ob(f'{op}: the list is sorted and not changed afterwards', ps[5], f'{op}:sorted', f'{op} returns a list which is not sorted, or changed after it was sorted: {show(cs[0])[:200] if cs else ""}')
                if op.endswith('v2'):
                    kc, none = unopt(fs.get('key_count', NONE))
                    ok = not none and kc and all(c is INT(0) and any(x is not c for x in kc) or any(q[0] == 'op' and (q[1].endswith('::len') or q[1] == 'len') for q in atoms(c)) and not any(q[0] == 'op' and q[1].startswith('bin:') for q in atoms(c) if 'Sub' in q[1] or 'Add' in q[1]) for c in kc)
                    ctx.ob(f'{op}: key_count is the number of entries', ok, f'{op}:key_count', f'{op}: key_count is {[show(c)[:120] for c in kc]}')
        ctx.ob(f'{op}: succeeds', nok > 0)
        ctx.ob(f'{op}: walks entries', r.entries > 0 and r.added > 0 and r.queued > 0, f'{op}:walk', f'{op} does not walk the directories of the bucket')
        ctx.ob(f'{op}: sorted ascending by key', bool(r.sorts) and all(ascending(k, v) for k, v, l in r.sorts), f'{op}:order', f'{op}: entries are not sorted ascending by key: {[(k, show(v)[:160]) for k, v, l in r.sorts]}', r.sorts[0][2] if r.sorts else '')
        ctx.ob(f'{op}: walk rules', not r.violations)

@prop('R02', 'exact interpretation of both listing operations over six directory trees of up to two objects and two directories (paths never merged, what depends on the length of the list left open): the result has exactly the objects whose key passed the prefix test, each with its own key, size and time, in the order of a sort whose comparison is the ascending order of the key; code over other containers: per-entry automaton (every directory is queued and read to its end, every other entry is added exactly once unless the prefix test is false, the list is sorted and not changed afterwards)')
def r02(ctx):
    decide(ctx, listing_exact, LISTINGS, r02_automaton)

@prop('B04', 'per-entry automaton over the root directory: list_buckets adds an entry exactly once when it is a directory and its name passed check_bucket_name, under that name, and adds nothing else')
def b04(ctx):
    f = ctx.facts
    r = Listing('list_buckets', 'Bucket', False)
    e, outs = run_storage(ctx, 'list_buckets', r)
    nok = 0
    for rv, m, ps in outs:
        if is_ok(rv):
            nok += 1
            r.close(ps)
            ctx.ob('list_buckets: the directory is read to its end', ps[3], 'list_buckets:end', 'list_buckets succeeds before the directory was read to its end')
            for o in members(okv(rv)):
                cs, none = unopt(fields(f, o).get('buckets', NONE))
                ctx.ob('list_buckets: the entries are returned', not none and cs and all(find(c, lambda y: y.k == 'adt' and y.a[0].endswith('::Bucket')) for c in cs), 'list_buckets:result', 'list_buckets does not return the list it built')
    ctx.ob('list_buckets: walks entries', r.entries > 0 and r.added > 0 and nok > 0, 'list_buckets:walk', 'list_buckets lists nothing')
    ctx.ob('list_buckets: rules', not r.violations)

"""Properties of the file-system storage, decided on the events of fsmodel.py."""
from core import *

# --------------------------------------------------------------------------------------------------
# W01: an I/O error is never acknowledged as success
IOK = {'rename', 'remove_file', 'remove_dir', 'remove_dir_all', 'create_dir', 'create_dir_all', 'copy_file', 'write_file', 'read_file', 'read_dir', 'metadata', 'create', 'open',
       'write_all', 'write', 'flush', 'close', 'copy', 'seek', 'read', 'next_entry', 'next_chunk', 'file_type', 'modified', 'created', 'accessed', 'sync', 'set_len', 'canonicalize', 'resolve',
       'strip_prefix', 'hard_link', 'symlink', 'chmod', 'exists'}

class W01(FsRule):
    def __init__(self, op):
        FsRule.__init__(self)
        self.op = op
        self.sites_seen = set()
    init = (frozenset(), False)
    def ev(self, ps, k, a, out, e):
        errs, done = ps
        if k in IOK and out in ('ok', 'err'):
            self.sites_seen.add((k, cls(a[0]) if a else ''))
        if k == 'rename' and out == 'ok' and isP(a[1], 'obj'):
            done = True
        if k == 'unknown_fs':
            self.report(f'{self.op}:unknown', 'a file-system call whose outcome the analysis does not know: ' + show(a[0]), e)
        if k in IOK and out == 'err':
            if self.op == 'complete_multipart_upload' and k == 'remove_file' and is_part(a[0]) and done:
                return ps       # the object is complete: a part which is left behind is not a failure of the request
            w = k + ':' + (cls(a[0]) if a else '')
            errs = errs or frozenset({(w, e.loc)})      # one pending failure is as bad as several
        return (errs, done)
    def other(self, ps, e):
        if e.path.endswith('::push') and len(e.args) > 1 and e.args[1].k == 'adt' and e.args[1].a[0].endswith('::S3Error'):
            return [(UNIT, (frozenset(), ps[1]))]      # reported for this key
        return None

@prop('W01', 'error-flow analysis: on every path of the 16 storage operations (calls, closures and async bodies interpreted in place, merged by property state) a failure outcome of a file-system, body-stream or path-resolution call must not reach a successful return')
def w01(ctx):
    from props_ops import decide, delete_failures
    for op in OPS:
        if op == 'delete_objects':
            decide(ctx, delete_failures, [0, 1, 2], lambda c: w01_op(c, op))
        else:
            w01_op(ctx, op)

def w01_op(ctx, op):
    r = W01(op)
    e, outs = run_storage(ctx, op, r)
    bad = {}
    for rv, m, ps in outs:
        if is_ok(rv):
            for w, loc in ps[0]:
                bad[w] = loc
    for k, c in sorted(r.sites_seen):
        w = k + ':' + c
        ctx.ob(f'{op}: failure of {w} is reported', w not in bad, f'{op}:{w}', f'{op} succeeds although {w} failed', bad.get(w, ''))
    ctx.ob(f'{op}: both outcomes exist', any(is_ok(o[0]) for o in outs))

# --------------------------------------------------------------------------------------------------
# bodies: W02 (success only after the whole body is stored), W05 (ETag), W03 (atomic replacement)
class Body(FsRule):
    """ps: (write pending, hash pending, ended, dirty, problem set, stored label class, directory made)"""
    init = (False, False, False, False, frozenset(), '', False)
    def __init__(self, op, target):
        FsRule.__init__(self)
        self.op, self.target = op, target
        self.renames = []
        self.nchunks = 0
    def ev(self, ps, k, a, out, e):
        pw, ph, end, dirty, bad, done, mk_ = ps
        B = lambda s: bad | {s}
        if k == 'next_chunk':
            if pw:
                bad = B('a chunk of the body is not written')
            if ph:
                bad = B('a chunk of the body is not hashed')
            if out == 'item':
                self.nchunks += 1
                pw = ph = True
            elif out == 'end':
                pw = ph = False
                end = True
            else:
                pw = ph = False
                bad = B('the body stream failed')
        elif k == 'hash' and a[0] is T('chunk'):
            if not ph:
                bad = B('a chunk is hashed twice')
            ph = False
        elif k == 'hash':
            bad = B('bytes which are not a chunk of the body are hashed')
        elif k == 'hash_end':
            if not end:
                bad = B('the hash is finished before the end of the body')
        elif k in ('write_all', 'copy', 'write', 'write_file', 'copy_file'):
            src = a[0] if k in ('copy', 'copy_file') else a[1]
            dst = a[1] if k in ('copy', 'copy_file') else a[0]
            if src is T('chunk'):
                if k == 'write':
                    bad = B('a chunk is written with a single write call, which may store a part of it')
                if not pw:
                    bad = B('a chunk is written twice')
                pw = False
                dirty = True
            elif dst.k == 't' and dst.a[0] == 'file:w' and done == '' :
                bad = B('bytes which are not a chunk of the body are written to the object')
                dirty = True
            if out == 'err':
                bad = B('a write failed')
        elif k in ('flush', 'close', 'sync'):
            if done == '':
                if out == 'ok':
                    dirty = False
                else:
                    bad = B('flush failed')
        elif k == 'rename' and self.target(a[1]):
            if out == 'ok':
                self.renames.append(e.loc)
                if not end:
                    bad = B('the object is put in place before the end of the body')
                if pw:
                    bad = B('a chunk of the body is not written')
                if dirty:
                    bad = B('buffered bytes are not flushed before the object is put in place')
                if bad:
                    for s in sorted(bad):
                        if 'hash' not in s:
                            self.report(f'{self.op}:{s}', f'{self.op}: {s} when the object is put in place', e)
                done = 'stored'
            else:
                bad = B('rename failed')
        elif k == 'create_dir_all' and out == 'ok' and a[0] is OBJ():
            mk_ = True
        elif k == 'unknown_fs':
            self.report(f'{self.op}:unknown', 'a file-system call the analysis does not know: ' + show(a[0]), e)
        return (pw, ph, end, dirty, bad, done, mk_)

def body_ops():
    return [('put_object', lambda p: p is OBJ()), ('upload_part', is_part)]

@prop('W02', 'typestate over chunk reads, writes, flush and rename of every path of put_object and upload_part: success requires end of stream seen, every chunk written whole exactly once and in order, buffers flushed, and then the rename to the final name')
def w02(ctx):
    for op, target in body_ops():
        r = Body(op, target)
        e, outs = run_storage(ctx, op, r)
        ctx.ob(f'{op}: body chunks are read', r.nchunks > 0)
        ctx.ob(f'{op}: the stored body is put in place', bool(r.renames), f'{op}:no rename', f'{op} never puts the stored body in place')
        for rv, m, ps in outs:
            if not is_ok(rv):
                continue
            pw, ph, end, dirty, bad, done, mk_ = ps
            probs = sorted(b for b in bad if 'hash' not in b)
            ctx.ob(f'{op}: success implies stored body (state {ps[2:4] + ps[5:]})', (done or mk_) and not probs,
                   f'{op}:success', f'{op} reports success but ' + ('; '.join(probs) or 'the body was not stored'))
        # a directory object has no body: only when the announced length is zero
        if op == 'put_object':
            r2 = DirBody(op)
            run_storage(ctx, op, r2)
            ctx.ob('put_object: a directory is only created for a key ending in / with an empty body', not r2.violations)

class DirBody(FsRule):
    """directory objects: create_dir_all(obj) only below ends_with(key,'/') and content_length == 0"""
    init = (False, False)
    def __init__(self, op):
        FsRule.__init__(self)
        self.op = op
    def branch(self, ps, v, eng, mem):
        t, pos = strip_not(v)
        sl, z = ps
        if t.k == 't' and 'ends_with' in t.a[0] and contains(t, KEY):
            return [(int(pos), (True, z)), (int(not pos), (False, z))]
        if contains(t, F('content_length')) and t.k == 't' and (t.a[0] == 'eq' or t.a[0].startswith('bin:')) and any(x is FALSE for x in find(t, lambda y: y.k == 'int')):
            return [(int(pos), (sl, True)), (int(not pos), (sl, False))]
        return None
    def ev(self, ps, k, a, out, e):
        if k == 'create_dir_all' and a[0] is OBJ() and ps != (True, True):
            self.report('put_object:directory', 'a directory object is created although the key does not end with / or the body is not known to be empty', e)
        return ps

# --------------------------------------------------------------------------------------------------
# W03: nothing under a final name is modified in place
class W03(FsRule):
    def __init__(self, op):
        FsRule.__init__(self)
        self.op = op
        self.seen = 0
        self.live = 0
    init = frozenset()
    def ev(self, ps, k, a, out, e):
        def bad(msg, lab):
            self.report(f'{self.op}:{k}:{cls(lab)}', f'{self.op}: {msg} ({show(lab)[:120]})', e)
        if k in ('create', 'write_file', 'set_len', 'hard_link', 'symlink', 'copy_file'):
            self.seen += 1
            tgt = a[1] if k in ('copy_file', 'hard_link', 'symlink') and len(a) > 1 else a[0]
            if not is_tmp(tgt):
                bad('a file which clients can see is written in place', tgt)
        if k in ('write_all', 'write'):
            self.seen += 1
            f = a[0]
            if not (f.k == 't' and f.a[0] == 'file:w' and is_tmp(f.a[1][0])):
                bad('data is written to something which is not a private temporary file', f)
        if k == 'copy':
            self.seen += 1
            f = a[1]
            if not (f.k == 't' and f.a[0] == 'file:w' and is_tmp(f.a[1][0])):
                bad('data is written to something which is not a private temporary file', f)
        if k == 'rename':
            self.seen += 1
            if not is_tmp(a[0]):
                bad('a file which is not a private temporary file is renamed', a[0])
        if k == 'unknown_fs':
            self.report(f'{self.op}:unknown', 'a file-system call the analysis does not know: ' + show(a[0]), e)
        return ps

@prop('W03', 'effect analysis: in all 16 storage operations only files with a fresh random name are created or written; visible names (objects, parts, metadata) change only by rename of such a file or by removal')
def w03(ctx):
    for op in OPS:
        r = W03(op)
        run_storage(ctx, op, r)
        ctx.ob(f'{op}: {r.seen} write effects only touch private temporary files', not r.violations)
        if op in ('put_object', 'upload_part', 'copy_object', 'complete_multipart_upload'):
            ctx.ob(f'{op}: has write effects', r.seen > 0)

# --------------------------------------------------------------------------------------------------
# W05: the ETag is the MD5 of the stored bytes
class HashFile(FsRule):
    """hash of a file: every byte read until end of file is hashed"""
    init = (False, False, frozenset())      # pending, eof, problems
    def __init__(self, op):
        FsRule.__init__(self)
        self.op = op
    def ev(self, ps, k, a, out, e):
        pend, eof, bad = ps
        if k == 'read':
            if pend:
                bad = bad | {'bytes are read but not hashed'}
            pend = out == 'data'
            eof = out == 'eof'
        elif k == 'hash':
            if a[0] is T('rbytes'):
                if not pend:
                    bad = bad | {'bytes are hashed twice'}
                pend = False
            elif a[0].k == 't' and a[0].a[0] in ('content', 'chunk'):
                eof = True
            else:
                bad = bad | {'a part of the buffer which was not read is hashed: ' + show(a[0])[:60]}
        elif k == 'hash_end':
            if not eof:
                bad = bad | {'the hash is finished before the end of the file'}
            if pend:
                bad = bad | {'bytes are read but not hashed'}
        return (pend, eof, bad)

def etag_ok(v, want):
    """v: value of an ETag; want(digest term) -> None or problem"""
    out = []
    for m in members(v):
        if m.k == 'adt' and m.a[0] == OPTION:
            if m.a[1] == 0:
                out.append('there is no ETag')
            else:
                out += etag_ok(m.a[2][0], want)
            continue
        m = textual(m)
        if m.k == 't' and m.a[0] == 'cat' and len(m.a[1]) == 3 and m.a[1][0] is STR('"') and m.a[1][2] is STR('"'):
            x = m.a[1][1]
            d = find(x, lambda y: y.k == 't' and y.a[0] == 'digest')
            if not d:
                out.append('the ETag is not a digest: ' + show(x)[:100])
                continue
            if upper(x):
                out.append('the ETag is in upper case')
            out += [p for p in map(want, d) if p]
        else:
            out.append('the ETag is not a quoted digest: ' + show(m)[:100])
    return out

def upper(v):
    ops = ' '.join(q[1] for q in atoms(v) if q[0] == 'op').lower()
    return 'upper' in ops or bool(find(v, lambda x: x.k == 'adt' and x.a[0].endswith('AsciiCase') and x.a[1] == 1))

def md5_of(d, what):
    h = d.a[1][0]
    if not (h.k == 't' and h.a[0] == 'hash:new' and 'md5' in h.a[1][0].a[0].lower()):
        return 'the digest is not an MD5'
    if any(x not in what for x in d.a[1][1:]):
        return 'the digest covers something else than the stored bytes: ' + show(d)[:100]
    return None

def opened(e_rule):
    return e_rule.opened

class HashFileOpen(HashFile):
    def __init__(self, op):
        HashFile.__init__(self, op)
        self.hashed_files = set()
    def ev(self, ps, k, a, out, e):
        if k == 'read':
            f = a[0]
            self.hashed_files.add(f.a[1][0] if f.k == 't' and f.a[0] == 'file:r' else f)
        return HashFile.ev(self, ps, k, a, out, e)

@prop('W05', 'value flow and typestate: the ETag of put, upload, copy, complete, get and head is the quoted lower-case hex MD5 of exactly the bytes stored (each chunk or each read buffer prefix hashed once, until the end)')
def w05(ctx):
    f = ctx.facts
    for op, target in body_ops():
        r = Body(op, target)
        e, outs = run_storage(ctx, op, r)
        for rv, m, ps in outs:
            if not is_ok(rv):
                continue
            probs = {b for b in ps[4] if 'hash' in b}
            if ps[5]:
                for o in members(okv(rv)):
                    fs = fields(f, o)
                    et = fs.get('e_tag', NONE)
                    # directory objects (no rename) carry no ETag
                    alts = [x for x in members(et) if not (ps[6] and x is NONE)]
                    for x in alts:
                        probs |= set(etag_ok(x, lambda d: md5_of(d, {T('chunk')})))
                ctx.ob(f'{op}: ETag is the MD5 of the body', not probs, f'{op}:etag', f'{op}: ' + '; '.join(sorted(probs)))
    for op, path in (('get_object', ['e_tag']), ('head_object', ['e_tag']), ('copy_object', ['copy_object_result', 'e_tag']), ('complete_multipart_upload', ['e_tag'])):
        r = HashFileOpen(op)
        inp = IN
        e, outs = run_op(ctx.facts, stub_copy(r), ctx.op(op), [T('arg:self'), inp])
        ctx.absorb(e, r)
        got = 0
        for rv, m, ps in outs:
            if not is_ok(rv):
                continue
            probs = set(ps[2])
            for o in members(okv(rv)):
                v = o
                for p in path:
                    v = fields(f, v).get(p, NONE)
                    v2 = None
                    if p != path[-1]:
                        for x in members(v):
                            x = x.a[2][0] if x.k == 'adt' and x.a[0] == OPTION and x.a[1] == 1 else x
                            v2 = x if v2 is None else join(v2, x)
                        v = v2
                for x in members(v):
                    if (x is NONE or x.k == 't' and x.a[0] == '.e_tag' and x.a[1][0].k == 't' and x.a[1][0].a[0].endswith('::default')) and op in ('head_object', 'get_object'):
                        continue        # directory objects; see R03
                    got += 1
                    probs |= set(etag_ok(x, lambda d: md5_of(d, {T('rbytes')})))
            ctx.ob(f'{op}: ETag is the MD5 of the stored file', not probs, f'{op}:etag', f'{op}: ' + '; '.join(sorted(probs)))
        want = {OBJ()} if op != 'copy_object' else {OBJ(), OBJ(T('SRC_BUCKET'), T('SRC_KEY'))}
        ctx.ob(f'{op}: hashes the object file', bool(got) and r.hashed_files <= want and bool(r.hashed_files), f'{op}:file', f'{op}: the ETag covers {sorted(show(x)[:80] for x in r.hashed_files)}')

def stub_copy(r):
    """AmzCopySource::from_header_str gives an opaque bucket and key (its own parsing is property N06)"""
    def enter(ps, body, args, eng, mem):
        if body['path'].endswith('AmzCopySource::<\'a>::from_header_str') or body['path'].endswith('::from_header_str') and 'AmzCopySource' in body['path']:
            a = eng.snap(mem, args[0])
            r.copy_src = a if getattr(r, 'copy_src', None) is None else join(r.copy_src, a)
            ad = eng.f.adts.get('headers::amz_copy_source::AmzCopySource')
            if ad is None:
                raise Missing('AmzCopySource')
            outs = [(ERR(T('copy-source-error')), ps)]
            for i, v in enumerate(ad['variants']):
                fs = tuple({'bucket': T('SRC_BUCKET'), 'key': T('SRC_KEY')}.get(n, T('SRC_' + n)) for n in v['fields'])
                outs.append((OK(ADT('headers::amz_copy_source::AmzCopySource', i, fs)), ps))
            return outs
        return None
    r.enter = enter
    return r

# --------------------------------------------------------------------------------------------------
# W06: Content-MD5
MD5HDR = T('content-md5')
class Md5Check(FsRule):
    init = ('none', False)       # outcome of the comparison, stored
    def __init__(self, op, target, given):
        FsRule.__init__(self)
        self.op, self.target, self.given = op, target, given
        self.compared = 0
    def branch(self, ps, v, eng, mem):
        t, pos = strip_not(v)
        if t.k == 't' and (t.a[0] == 'eq' or 'ct_eq' in t.a[0]) and contains(t, MD5HDR) and find(t, lambda y: y.k == 't' and y.a[0] == 'digest'):
            ds = find(t, lambda y: y.k == 't' and y.a[0] == 'digest')
            if all(md5_of(d, {T('chunk')}) is None for d in ds) and T('chunk') in [x for d in ds for x in d.a[1][1:]]:
                self.compared += 1
                return [(int(pos), ('equal', ps[1])), (int(not pos), ('different', ps[1]))]
            return [(int(pos), ps), (int(not pos), ps)]
        return None
    def ev(self, ps, k, a, out, e):
        c, st = ps
        if k == 'rename' and self.target(a[1]):
            if out == 'ok':
                st = True
            if self.given and c != 'equal':
                self.report(f'{self.op}:unverified', f'{self.op}: the object is put in place although Content-MD5 was not found equal to the MD5 of the body (comparison: {c})', e)
        return (c, st)

@prop('W06', 'path analysis of put_object and upload_part with and without Content-MD5: the rename to the final name is dominated by the true branch of a comparison of the decoded header with the MD5 of all chunks; the false branch returns BadDigest')
def w06(ctx):
    for op, target in body_ops():
        r = Md5Check(op, target, True)
        e, outs = run_storage(ctx, op, r, with_fields(IN, content_md5=SOME(MD5HDR)))
        ctx.ob(f'{op}: Content-MD5 is compared with the digest', r.compared > 0, f'{op}:no comparison', f'{op} never compares Content-MD5 with the digest of the body')
        ctx.ob(f'{op}: stored only after the comparison succeeded', not r.violations)
        n = 0
        for rv, m, ps in outs:
            if ps[0] == 'different':
                n += 1
                cs = codes(ctx.facts, rv)
                ctx.ob(f'{op}: a different digest is refused with BadDigest', is_err(rv) and cs == {'BadDigest'} and not ps[1], f'{op}:mismatch', f'{op}: a wrong Content-MD5 leads to {sorted(cs) or "success"}')
        ctx.ob(f'{op}: mismatch outcome exists', n > 0, f'{op}:no mismatch', f'{op}: no path refuses a wrong Content-MD5')
        r = Md5Check(op, target, False)
        e, outs = run_storage(ctx, op, r, with_fields(IN, content_md5=NONE))
        ctx.ob(f'{op}: a request without Content-MD5 can succeed', any(is_ok(o[0]) and o[2][1] for o in outs), f'{op}:absent', f'{op}: cannot succeed without Content-MD5')
        ctx.ob(f'{op}: no digest error without Content-MD5', not any(codes(ctx.facts, o[0]) & {'BadDigest', 'InvalidDigest'} for o in outs), f'{op}:spurious', f'{op}: digest errors without Content-MD5')

# --------------------------------------------------------------------------------------------------
# W07: user metadata lives and dies with its object
class Meta(FsRule):
    """ps: (object change, metadata state of the target, source metadata, errors)"""
    init = ('', '?', '?')
    def __init__(self, op, b=BUCKET, k=KEY, src=None):
        FsRule.__init__(self)
        self.op, self.b, self.k, self.src = op, b, k, src
        self.saved = set()
        self.content = {}
    def tgt(self, lab): return fkind(lab) == ('meta', self.b, self.k)
    def srcm(self, lab): return self.src is not None and fkind(lab) == ('meta',) + self.src
    def ev(self, ps, k, a, out, e):
        o, st, src = ps
        if k in ('exists', 'is_file') and self.tgt(a[0]):
            st = 'absent' if out == 'false' else ('present' if out == 'true' else st)
        if k in ('exists', 'is_file') and self.srcm(a[0]) and src == '?':
            src = 'absent' if out == 'false' else 'present'
        if k == 'read_file' and self.srcm(a[0]) and out == 'ok':
            src = 'read'
        if k == 'remove_file' and out == 'ok':
            if self.tgt(a[0]): st = 'absent'
            elif (fkind(a[0]) or ('',))[0] == 'meta':
                self.report(f'{self.op}:other metadata', f'{self.op}: removes the metadata of another object: {show(a[0])[:140]}', e)
            if a[0] is OBJ(self.b, self.k): o = 'removed'
        if k in ('write_all', 'write_file'):
            f = a[0].a[1][0] if a[0].k == 't' and a[0].a[0] == 'file:w' else a[0]
            self.content[f] = a[1] if f not in self.content else join(self.content[f], a[1])
        if k == 'rename' and out == 'ok':
            if self.tgt(a[1]):
                st = 'saved'
                self.saved.add(self.content.get(a[0], T('nothing')))
            elif (fkind(a[1]) or ('',))[0] == 'meta':
                self.report(f'{self.op}:other metadata', f'{self.op}: saves the metadata of another object: {show(a[1])[:140]}', e)
            if a[1] is OBJ(self.b, self.k): o = 'stored'
        return (o, st, src)

METAIN = T('user-metadata')

@prop('W07', 'typestate over the metadata file of the target: put with metadata saves exactly it, put without and complete and delete leave none, copy leaves exactly the metadata of the source, get and head return what is saved for that object and nothing else')
def w07(ctx):
    f = ctx.facts
    # put with and without metadata
    for given in (True, False):
        r = Meta('put_object')
        e, outs = run_storage(ctx, 'put_object', r, with_fields(IN, metadata=SOME(METAIN) if given else NONE))
        n = 0
        for rv, m, ps in outs:
            if is_ok(rv) and ps[0] == 'stored':
                n += 1
                ctx.ob(f'put_object: metadata {"given" if given else "not given"}: the target ends up {"with" if given else "without"} metadata (found: {ps[1]})', ps[1] == ('saved' if given else 'absent'),
                       f'put_object:{"given" if given else "absent"}', f'put_object with{"" if given else "out"} user metadata succeeds and leaves the stored metadata "{ps[1]}"')
        ctx.ob(f'put_object: succeeds ({given})', n > 0)
        if given:
            ctx.ob('put_object: exactly the given metadata is saved', bool(r.saved) and all(contains(x, METAIN) for x in r.saved), 'put_object:content', 'put_object saves something else than the given metadata')
    # complete: the metadata of an overwritten object does not survive
    r = Meta('complete_multipart_upload')
    e, outs = run_storage(ctx, 'complete_multipart_upload', r)
    for rv, m, ps in outs:
        if is_ok(rv):
            ctx.ob(f'complete_multipart_upload: no metadata of a previous object survives (found: {ps[1]})', ps[0] == 'stored' and ps[1] == 'absent', 'complete_multipart_upload:stale', 'complete_multipart_upload leaves the metadata of the object it replaces')
    # delete
    for op, b, k in (('delete_object', BUCKET, KEY), ('delete_objects', BUCKET, None)):
        if k is None:
            k = find_key(ctx, op)
        r = Meta(op, b, k)
        e, outs = run_storage(ctx, op, r)
        n = 0
        if op == 'delete_object':
            for rv, m, ps in outs:
                if is_ok(rv) and ps[0] == 'removed':
                    n += 1
                    ctx.ob(f'{op}: the metadata is removed with the object (found: {ps[1]})', ps[1] == 'absent', f'{op}:stale', f'{op}: the metadata of a deleted object is left behind')
            ctx.ob(f'{op}: removes objects', n > 0, f'{op}:none', f'{op} never removes an object')
        else:
            r2 = MetaLoop(op, b, k)
            e, outs = run_storage(ctx, op, r2)
            ctx.ob(f'{op}: the metadata is removed with every object', r2.removed > 0 and not r2.violations, f'{op}:none', f'{op} never removes an object')
    # copy
    S = (T('SRC_BUCKET'), T('SRC_KEY'))
    r = stub_copy(Meta('copy_object', BUCKET, KEY, S))
    e, outs = run_storage(ctx, 'copy_object', r)
    n = 0
    for rv, m, ps in outs:
        if is_ok(rv):
            n += 1
            want = {'absent': 'absent', 'read': 'saved'}.get(ps[2])
            ctx.ob(f'copy_object: source metadata {ps[2]}, target metadata {ps[1]}', want is not None and ps[1] == want, f'copy_object:{ps[2]}', f'copy_object succeeds with source metadata "{ps[2]}" and leaves target metadata "{ps[1]}"')
    ctx.ob('copy_object: succeeds', n > 0)
    ctx.ob('copy_object: the saved metadata is that of the source', bool(r.saved) and all(find(x, lambda y: y.k == 't' and y.a[0] == 'content' and fkind(y.a[1][0]) == ('meta',) + S) for x in r.saved),
           'copy_object:content', 'copy_object saves something else than the metadata of its source')
    # get and head
    for op in ('get_object', 'head_object'):
        r = Meta(op, src=(BUCKET, KEY))
        e, outs = run_storage(ctx, op, r)
        for rv, m, ps in outs:
            if not is_ok(rv):
                continue
            v = fields(f, okv(rv)).get('metadata', NONE)
            for x in members(v):
                some = x.k == 'adt' and x.a[1] == 1
                good = find(x, lambda y: y.k == 't' and y.a[0] == 'content' and fkind(y.a[1][0]) == ('meta', BUCKET, KEY)) if some else True
                ctx.ob(f'{op}: returned metadata is {"read from the metadata file of that object" if some else "none"} (file: {ps[2]})', good and (some == (ps[2] == 'read')) and ps[2] in ('read', 'absent'),
                       f'{op}:{ps[2]}', f'{op}: metadata file "{ps[2]}" but returned metadata is {show(x)[:100]}')

class MetaLoop(Meta):
    init = ('', '?', '?')
    def __init__(self, op, b, k):
        Meta.__init__(self, op, b, k)
        self.removed = 0
    def on_next(self, ps, path, site, src, tag, e, eng, mem):
        if self.is_keys(src):
            self.end(ps, eng)
            return self.init
        return ps
    def is_keys(self, src):
        return contains(self.k, T('each', src))
    def end(self, ps, eng):
        if ps[0] == 'removed':
            self.removed += 1
            if ps[1] == 'failed':
                return
            if ps[1] != 'absent':
                self.report(f'{self.op}:stale', f'{self.op}: the metadata of a deleted object is left behind')
    def ev(self, ps, k, a, out, e):
        ps = Meta.ev(self, ps, k, a, out, e)
        if out == 'err' and k in ('remove_file', 'resolve'):
            ps = (ps[0], 'failed', ps[2])
        return ps

class Probe(FsRule):
    def __init__(self):
        FsRule.__init__(self)
        self.objs = set()
    def ev(self, ps, k, a, out, e):
        for x in a:
            for y in members(x):
                if isP(y, 'obj'):
                    self.objs.add(y)
        return ps

def find_key(ctx, op):
    """the key of the objects an operation on many objects touches"""
    r = Probe()
    run_storage(ctx, op, r)
    ks = {o.a[1][1] for o in r.objs}
    ctx.ob(f'{op}: touches the listed keys of its bucket', len(ks) == 1 and all(o.a[1][0] is BUCKET for o in r.objs) and all(find(k, lambda y: y.k == 't' and y.a[0] == 'each') for k in ks),
           f'{op}:keys', f'{op}: touches {sorted(show(o)[:90] for o in r.objs)}')
    return ks.pop() if ks else KEY

# --------------------------------------------------------------------------------------------------
# W08: DeleteObject
class Del(FsRule):
    """ps: (is_file, removed, key ends with /)"""
    init = ('?', False, '?')
    def __init__(self, op, k=KEY):
        FsRule.__init__(self)
        self.op, self.k = op, k
        self.n = 0
    def branch(self, ps, v, eng, mem):
        t, pos = strip_not(v)
        if t.k == 't' and 'ends_with' in t.a[0] and contains(t, self.k):
            return [(int(pos), (ps[0], ps[1], True)), (int(not pos), (ps[0], ps[1], False))]
        return None
    def ev(self, ps, k, a, out, e):
        isf, rem, sl = ps
        o = OBJ(BUCKET, self.k)
        if k in ('is_file', 'exists', 'metadata') and (a[0] is o or a[0] is T('meta-of', o)):
            isf = {'true': True, 'false': False, 'err': False}.get(out, isf)
        if k in MUT:
            self.n += 1
            if k == 'remove_file' and a[0] is o:
                rem = rem or out == 'ok'
            elif k == 'remove_file' and fkind(a[0]) == ('meta', BUCKET, self.k):
                if not rem:
                    self.report(f'{self.op}:metadata first', f'{self.op}: metadata is removed although the object is still there', e)
            elif k == 'remove_dir' and a[0] is o:
                if sl is not True:
                    self.report(f'{self.op}:dir', f'{self.op}: a directory is removed for a key which does not end with /', e)
                rem = rem or out == 'ok'
            else:
                self.report(f'{self.op}:{k}:{cls(a[0])}', f'{self.op}: {k} on something else than the object and its metadata: {show(a[0])[:140]}', e)
        return (isf, rem, sl)

@prop('W08', 'effect and path analysis of delete_object: the only things removed are the file of exactly that bucket and key, its metadata, or its empty directory; an existing object is removed before success is reported; a missing one is not an error')
def w08(ctx):
    r = Del('delete_object')
    e, outs = run_storage(ctx, 'delete_object', r)
    ctx.ob(f'delete_object: {r.n} effects are limited to the object and its metadata', not r.violations)
    ok = [o for o in outs if is_ok(o[0])]
    for rv, m, ps in ok:
        ctx.ob(f'delete_object: success with (is file, removed, directory key) = {ps}', not (ps[0] is True and not ps[1]), 'delete_object:kept', 'delete_object reports success although the existing object was not removed')
    ctx.ob('delete_object: removes an existing object', any(o[2][0] is True and o[2][1] for o in ok), 'delete_object:never', 'delete_object never removes an object')
    ctx.ob('delete_object: deleting a missing key succeeds', any(o[2][0] is False and not o[2][1] for o in ok), 'delete_object:missing', 'deleting a missing key is an error')
    ctx.ob('delete_object: a missing key is not an error', not any(codes(ctx.facts, o[0]) & {'NoSuchKey'} for o in outs), 'delete_object:nosuchkey', 'deleting a missing key is an error')

"""Copy, multipart, ranges and the agreement of GET and HEAD."""
from core import *
from props_storage import stub_copy
from props_ops import unopt, decide
from preds import value, Unknown
from lists import Exact, ARR

class Err(Exception):
    pass

# --------------------------------------------------------------------------------------------------
# R01: byte ranges
RANGE = 'headers::range::Range'
FIRST, LAST = T('FIRST'), T('LAST')
LEN = T('len-of', T('meta-of', OBJ()))
RVARS = (FIRST, LAST, LEN)

def rangeonly(v):
    """every variable of v is one of the range variables"""
    if v in RVARS or v.k == 'int':
        return True
    if v.k == 't' and (v.a[0].startswith('bin:') or v.a[0] in ('not', 'eq', 'min', 'max', 'satsub', 'satadd')):
        return all(map(rangeonly, v.a[1]))
    return False

def stub_range(ctx, r, want):
    """the parsed header becomes symbolic; want: '-', 'normal', 'open', 'suffix', 'bad'"""
    ad = ctx.facts.adts.get(RANGE)
    if not ad:
        raise Missing('type Range')
    vi = {v['name']: (i, v['fields']) for i, v in enumerate(ad['variants'])}
    if set(vi) != {'Normal', 'Suffix'} or vi['Normal'][1] != ['first', 'last'] or vi['Suffix'][1] != ['last']:
        raise Missing('the forms of Range: ' + str(vi))
    old = r.enter
    def enter(ps, body, args, eng, mem):
        if re.search(r'Range::from_header_str$', body['path']):
            i, j = vi['Normal'][0], vi['Suffix'][0]
            v = {'normal': OK(ADT(RANGE, i, (FIRST, SOME(LAST)))), 'open': OK(ADT(RANGE, i, (FIRST, NONE))), 'suffix': OK(ADT(RANGE, j, (LAST,))), 'bad': ERR(T('range-error'))}[want]
            r.parsed += 1
            return [(v, ps)]
        return old(ps, body, args, eng, mem)
    r.enter = enter
    r.parsed = 0
    return r

class RangeRule(FsRule):
    """ps: (conditions taken on the range variables, position of the file, the object is a directory)"""
    init = ((), INT(0), None)
    def branch(self, ps, v, eng, mem):
        t, pos = strip_not(v)
        if rangeonly(t) and t.k == 't':
            out = []
            for b in (0, 1):
                c = (t, b == int(pos))
                if (t, b != int(pos)) in ps[0]:
                    continue
                out.append((b, (ps[0] if c in ps[0] else ps[0] + (c,),) + ps[1:]))
            return out
        return None
    def ev(self, ps, k, a, out, e):
        if k in ('is_dir', 'is_file') and (a[0] is OBJ() or a[0] is T('meta-of', OBJ())):
            d = (out == 'true') == (k == 'is_dir')
            return ps[:2] + (d,) if ps[2] in (None, d) else None
        if k == 'seek' and out == 'ok' and a[0] is T('file:r', OBJ()):
            p = a[1]
            if p.k == 'adt' and p.a[0].endswith('SeekFrom') and p.a[1] == 0:
                return (ps[0], p.a[2][0], ps[2])
            return (ps[0], T('seek?', p), ps[2])
        return ps

def range_oracle(kind, f, l, n):
    """-> (first, last) or None"""
    if n == 0:
        return None
    if kind in ('normal', 'open'):
        if f >= n:
            return None
        return f, (n - 1 if kind == 'open' else min(l, n - 1))
    if l == 0:
        return None
    return max(0, n - l), n - 1

def intval(t, env):
    while t.k == 't' and t.a[0] in ('dispint', 'disp') or t.k == 't' and re.match(r'^\.(Ok|Some)\.0$', t.a[0]):
        t = t.a[1][0]
    return value(t, env)

def cat_text(t, env):
    """text of a formatted value with integer pieces"""
    ps = t.a[1] if t.k == 't' and t.a[0] == 'cat' else (t,)
    return ''.join(p.a[0] if p.k == 'str' else str(intval(p, env)) for p in ps)

@prop('R01', 'path-condition extraction: for each form of the parsed Range header the conditions on its numbers and the file length are collected on every path of get_object together with the terms for seek position, stream limit, Content-Length and Content-Range, and compared with RFC 7233 on all orderings of the variables (boundary values of a linear integer domain); the language of from_header_str is decided on texts of symbolic digits: every word of up to three tokens and every insertion into first-last')
def r01(ctx):
    f = ctx.facts
    import textlist
    textlist.range_syntax(ctx)
    BIG = (1 << 63) - 1
    nums = [0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, BIG - 1, BIG, BIG + 1, (1 << 64) - 1]
    lens = [0, 1, 2, 3, 5, 6, 10, 11, 4096, BIG - 1, BIG]
    for kind in ('-', 'normal', 'open', 'suffix', 'bad'):
        r = RangeRule()
        if kind != '-':
            stub_range(ctx, r, kind)
        e, outs = run_storage(ctx, 'get_object', r, with_fields(IN, range=NONE if kind == '-' else SOME(T('range-header'))))
        if kind == 'bad':
            ctx.ob('a range header which cannot be parsed is refused', r.parsed > 0 and not any(is_ok(o[0]) for o in outs), 'bad', 'get_object succeeds although the Range header is invalid')
            continue
        if kind != '-':
            ctx.ob(f'{kind}: the Range header is parsed', r.parsed > 0, 'parsed', 'get_object ignores the Range header')
        n = 0
        bad = {}
        for L in lens:
            for F_ in (nums if kind in ('normal', 'open') else [0]):
                for l in (nums if kind in ('normal', 'suffix') else [0]):
                    if kind == 'normal' and F_ > l:
                        continue
                    env = {FIRST: F_, LAST: l, LEN: L, 'wrap': 1 << 64}
                    want = range_oracle(kind, F_, l, L) if kind != '-' else (0, L - 1)
                    n += 1
                    oks = 0
                    inval = False
                    for rv, m, ps in outs:
                        try:
                            if ps[2] or not all(bool(value(t, env)) == b for t, b in ps[0]):
                                continue
                        except Unknown as x:
                            bad.setdefault('term', f'a condition the analysis cannot evaluate: {x}')
                            continue
                        cs = codes(f, rv)
                        where = f'{kind} range first={F_} last={l} of a file of {L} bytes'
                        if not is_ok(rv):
                            inval = inval or 'InvalidRange' in cs
                            if 'InvalidRange' in cs and want is not None:
                                bad.setdefault(kind + ':refused', f'{where} is refused although it is satisfiable')
                            continue
                        oks += 1
                        if want is None:
                            bad.setdefault(kind + ':accepted', f'{where} is accepted although it is not satisfiable')
                            continue
                        for o in members(okv(rv)):
                            msg = self_check(f, o, ps, env, want, L, kind)
                            if msg:
                                bad.setdefault(kind + ':' + msg[0], f'{where}: {msg[1]}')
                    if want is None and not inval:
                        bad.setdefault(kind + ':code', f'{kind} range first={F_} last={l} of a file of {L} bytes is not answered with InvalidRange')
                    if want is not None and not oks:
                        bad.setdefault(kind + ':never', f'{kind} range first={F_} last={l} of a file of {L} bytes never succeeds')
        for k, msg in bad.items():
            ctx.violate(k, msg)
        ctx.ob(f'{kind}: {n} cases of first, last and length agree with RFC 7233 on {len(outs)} paths', not bad)

def self_check(f, o, ps, env, want, L, kind):
    fs = fields(f, o)
    size = want[1] - want[0] + 1
    try:
        if value(ps[1], env) != want[0]:
            return 'seek', f'the file is read from byte {value(ps[1], env)} instead of {want[0]}'
        bs = find(fs.get('body', NONE), lambda y: y.k == 'adt' and y.a[0].endswith('::BytesStream'))
        if len(bs) != 1:
            return 'body', f'the body is not one stream of the object file: {show(fs.get("body", NONE))[:200]}'
        b = fields(f, bs[0])
        if b.get('reader') is not T('file:r', OBJ()):
            return 'body', f'the body is read from {show(b.get("reader"))[:100]}'
        lims, none = unopt(b.get('limit', NONE))
        if none and not (kind == '-'):
            return 'limit', 'the body is not limited to the range'
        for x in lims:
            if intval(x, env) != size:
                return 'limit', f'the body is limited to {intval(x, env)} bytes instead of {size}'
        cl, none = unopt(fs.get('content_length', NONE))
        if none or not cl:
            return 'content_length', 'there is no Content-Length'
        for x in cl:
            if intval(x, env) != size:
                return 'content_length', f'Content-Length is {intval(x, env)} instead of {size}'
        cr, none = unopt(fs.get('content_range', NONE))
        if kind == '-':
            if cr:
                return 'content_range', 'a response to a request without range has a Content-Range'
        else:
            if none or not cr:
                return 'content_range', 'there is no Content-Range'
            for x in cr:
                got = cat_text(x, env)
                if got != f'bytes {want[0]}-{want[1]}/{L}':
                    return 'content_range', f'Content-Range is {got!r} instead of "bytes {want[0]}-{want[1]}/{L}"'
    except Unknown as x:
        return 'term', f'a term the analysis cannot evaluate: {x}'
    return None

# --------------------------------------------------------------------------------------------------
# C01: CopyObject
SRC = P('obj', T('SRC_BUCKET'), T('SRC_KEY'))

class Content(FsRule):
    """content of temporary files.  state: ((tmp, content, flushed), ...) as a sorted tuple; content: tuple of labels or '?'"""
    def upd(self, fs, lab, f):
        d = dict((x, (c, fl)) for x, c, fl in fs)
        d[lab] = f(*d.get(lab, ((), True)))
        return tuple(sorted(((x, c, fl) for x, (c, fl) in d.items()), key=lambda q: q[0].uid))
    def get(self, fs, lab):
        for x, c, fl in fs:
            if x is lab:
                return c, fl
        return None, True
    def content(self, fs, k, a, out, e):
        w = lambda x: x.a[1][0] if x.k == 't' and x.a[0] == 'file:w' and x.a[1] else None
        if k == 'create' and out == 'ok':
            return self.upd(fs, a[0], lambda c, fl: ((), True))
        if k in ('write_all', 'write', 'copy') and (w(a[1]) if k == 'copy' else w(a[0])) is not None:
            t, src = (w(a[1]), a[0]) if k == 'copy' else (w(a[0]), a[1])
            if k == 'write' or out == 'err':
                src = T('part of', src)
            return self.upd(fs, t, lambda c, fl: ((c + (src,))[:3], False))
        if k in ('flush', 'close', 'sync') and w(a[0]) is not None and out == 'ok':
            return self.upd(fs, w(a[0]), lambda c, fl: (c, True))
        if k == 'copy_file':
            return self.upd(fs, a[1], lambda c, fl: ((T('file:r', a[0]) if out == 'ok' else T('part of', a[0]),), True))
        if k == 'write_file':
            return self.upd(fs, a[0], lambda c, fl: ((a[1] if out == 'ok' else T('part of', a[1]),), True))
        if k == 'rename' and out == 'ok':
            c, fl = self.get(fs, a[0])
            d = tuple(x for x in fs if x[0] is not a[0] and x[0] is not a[1])
            return self.upd(d, a[1], lambda *_: (c if c is not None else (T('unknown'),), fl))
        return fs

class Copy(Content):
    """ps: (files, stored, source exists, kind of source, progress of a read loop)"""
    init = ((), False, '?', '?', '')
    def __init__(self):
        FsRule.__init__(self)
        self.srcs = []
        self.n = 0
    def enter(self, ps, body, args, eng, mem):
        if re.search(r'AmzCopySource.*::from_header_str$', body['path']):
            self.srcs.append(eng.snap(mem, args[0]))
            ad = eng.f.adts.get('headers::amz_copy_source::AmzCopySource')
            if ad is None:
                raise Missing('AmzCopySource')
            outs = [(ERR(T('copy-source-error')), ps[:3] + ('invalid',) + ps[4:])]
            for i, v in enumerate(ad['variants']):
                fs = tuple({'bucket': T('SRC_BUCKET'), 'key': T('SRC_KEY')}.get(n, T('SRC_' + n)) for n in v['fields'])
                outs.append((OK(ADT('headers::amz_copy_source::AmzCopySource', i, fs)), ps[:3] + ('object' if 'bucket' in v['fields'] else 'other',) + ps[4:]))
            return outs
        return None
    def ev(self, ps, k, a, out, e):
        fs, st, ex, kind, rd = ps
        B = lambda key, msg: self.report('copy_object:' + key, 'copy_object: ' + msg, e)
        if k in ('exists', 'is_file', 'metadata', 'open') and (a[0] is SRC or a[0] is T('meta-of', SRC)):
            if out == 'false' or k == 'open' and out == 'err' and ex == '?':
                ex = 'no'
            elif out in ('true', 'ok') and ex == '?' and k != 'metadata':
                ex = 'yes'
        if k in MUT:
            self.n += 1
            if kind != 'object':
                B('other', f'{k} although the source is not an object of this server')
            if ex == 'no':
                B('missing', f'{k} although the source does not exist')
            for x in a:
                for y in members(x):
                    if y is SRC and not (k == 'copy_file' and x is a[0]):
                        B('source', f'{k} on the source of the copy')
                    if isP(y, 'obj') and y is not OBJ() and y is not SRC:
                        B('foreign', f'{k} on {show(y)[:120]}')
        # byte-wise copy loops
        if st:
            pass
        elif k == 'hash' and rd == 'pending':
            rd = 'hashed'
        elif k == 'read' and a[0] is T('file:r', SRC):
            if rd == 'pending' or rd == 'hashed' and any(T('loop') in c for x, c, fl in fs):
                B('loop', 'bytes are read from the source and not written')
            rd = {'data': 'pending', 'eof': 'eof', 'err': ''}[out]
        elif k in ('write_all',) and find(a[1], lambda y: y is T('rbytes')) and a[0].k == 't' and a[0].a[0] == 'file:w':
            if rd in ('pending', 'hashed') and out == 'ok':
                rd = 'written'
            tmp = a[0].a[1][0]
            return (self.upd(fs, tmp, lambda c, fl: ((T('loop'),), False)), st, ex, kind, rd)
        if k == 'seek' and a[0] is T('file:r', SRC):
            B('seek', 'the source is not copied from its first byte')
        fs = self.content(fs, k, a, out, e)
        if k == 'rename' and out == 'ok' and a[1] is OBJ():
            c, fl = self.get(fs, a[1])
            if c == (T('loop'),) and rd == 'eof':
                c = (T('file:r', SRC),)
            if c not in ((T('file:r', SRC),), (T('content', SRC),)):
                B('content', 'the object put in place is not one whole copy of the source: ' + str([show(x)[:80] for x in c or ()]))
            if not fl:
                B('flush', 'the copy is put in place before its buffers are flushed')
            st = True
        elif k == 'copy_file' and a[1] is OBJ() and out == 'ok':
            st = True
        fs = tuple(x for x in fs if x[0] is not OBJ())
        return (fs, st, ex, kind, rd)

@prop('C01', 'content analysis of copy_object: success implies the destination was replaced by a flushed temporary file whose content is exactly one complete copy of the file of the parsed source; the source is never changed; a missing source gives NoSuchKey, other kinds of source an error, without effects; the parsed text is the URL-decoded header')
def c01(ctx):
    f = ctx.facts
    r = Copy()
    e, outs = run_storage(ctx, 'copy_object', r)
    ctx.ob(f'copy_object: {r.n} effects: only the destination changes, and by one complete flushed copy', not r.violations and r.n > 0)
    ctx.ob('copy_object: the source header is parsed', bool(r.srcs), 'copy_object:source', 'copy_object does not parse the copy source')
    for v in r.srcs:
        for x in members(v):
            ops = [q[1] for q in atoms(x) if q[0] == 'op']
            ctx.ob('copy_object: the parsed source is the URL-decoded header', contains(x, F('copy_source')) and any(re.search(r'urlencoding::.*decode|percent_decode|decode_percent', o) for o in ops),
                   'copy_object:decode', 'copy_object parses a source which is not URL-decoded: ' + show(x)[:140])
    nok = 0
    miss = 0
    for rv, m, ps in outs:
        fs, st, ex, kind, rd = ps
        if is_ok(rv):
            nok += 1
            ctx.ob(f'copy_object: success implies copied (source {ex}, {kind})', st and ex != 'no' and kind == 'object', 'copy_object:success', f'copy_object succeeds although the destination was not replaced (source: {kind}, exists: {ex})')
        elif ex == 'no':
            miss += 1
            cs = codes(f, rv)
            ctx.ob('copy_object: a missing source is NoSuchKey', 'NoSuchKey' in cs, 'copy_object:code', f'copy_object of a missing source gives {sorted(cs)}')
    ctx.ob('copy_object: succeeds', nok > 0, 'copy_object:never', 'copy_object never succeeds')
    ctx.ob('copy_object: detects a missing source', miss > 0, 'copy_object:exists', 'copy_object does not detect a missing source')

# --------------------------------------------------------------------------------------------------
# M01: CompleteMultipartUpload
UID, PN = F('upload_id'), F('part_number')

def has_field(v, name):
    return bool(find(v, lambda y: y.k == 't' and y.a[0] == '.' + name))

class Complete(FsRule):
    """ps: (iteration of the current loop over the parts 0..2, copies in it, relations left for previous vs current number,
            dirty, problems, stored, some part copied, missing part)"""
    age = True
    init = (0, 0, '<=>', False, frozenset(), False, False, False)
    def __init__(self):
        FsRule.__init__(self)
        self.loops = {}
        self.n = 0
        self.removed = 0
    def parts(self, src):
        return bool(find(src, lambda y: y.k == 't' and y.a[0] == '.parts'))
    def close(self, ps, site):
        it, cp, rel, dirty, bad, st, some, miss = ps
        if it:
            l = self.loops.setdefault(site, [set(), set()])
            l[0].add(cp)
            if it >= 2:
                l[1].add(rel)
    def on_next(self, ps, path, site, src, tag, e, eng, mem):
        if not self.parts(src) or ps[5]:
            return ps
        self.close(ps, (site, src))
        it = ps[0]
        return (min(2, it + 1) if tag == 'item' else 0, 0, '<=>') + ps[3:]
    def branch(self, ps, v, eng, mem):
        t, pos = strip_not(v)
        if t.k == 't' and len(t.a[1]) == 2 and t.a[0] in ('bin:Lt', 'bin:Le', 'eq') and has_field(t, 'part_number'):
            x, y = t.a[1]
            k = lambda z: 'p' if find(z, lambda q: q.k == 't' and q.a[0] == 'prev') else 'c' if find(z, lambda q: q.k == 't' and q.a[0] == 'each') else '-'
            if any(find(z, lambda q: q.k == 't' and q.a[0] == 'older') for z in (x, y)) or {k(x), k(y)} != {'p', 'c'}:
                return None
            sat = {'bin:Lt': '<', 'bin:Le': '<=', 'eq': '='}[t.a[0]]
            if k(x) == 'c':
                sat = ''.join({'<': '>', '>': '<', '=': '='}[c] for c in sat)
            out = []
            for b in (0, 1):
                s = ''.join(c for c in ps[2] if (c in sat) == (b == int(pos)))
                if s:
                    out.append((b, ps[:2] + (s,) + ps[3:]))
            return out
        return None
    def ispart(self, x):
        """a part of this upload named by the current element"""
        k = fkind(x)
        return bool(k) and k[0] == 'part' and contains(k[1], UID)
    def ev(self, ps, k, a, out, e):
        it, cp, rel, dirty, bad, st, some, miss = ps
        B = lambda key, msg: self.report('complete_multipart_upload:' + key, 'complete_multipart_upload: ' + msg, e)
        w = a[1] if k == 'copy' else a[0] if a else UNIT
        if k in ('exists', 'is_file', 'metadata', 'open') and self.ispart(a[0]) and out in ('false', 'err'):
            miss = miss or out == 'false'
        if k in ('write_all', 'write', 'copy') and w.k == 't' and w.a[0] == 'file:w' and is_tmp(w.a[1][0]):
            self.n += 1
            src = a[0] if k == 'copy' else a[1]
            f = src.a[1][0] if src.k == 't' and src.a[0] in ('file:r', 'content') else None
            if st:
                pass
            elif f is None or k == 'write' or not self.ispart(f):
                bad = bad | {'something else than a part is written: ' + show(src)[:80]}
            else:
                pn = fkind(f)[2]
                if not (has_field(pn, 'part_number') and find(pn, lambda q: q.k == 't' and q.a[0] == 'each')) or find(pn, lambda q: q.k == 't' and q.a[0] in ('prev', 'older')):
                    bad = bad | {'the part written is not the listed one: ' + show(pn)[:80]}
                cp = min(2, cp + 1)
                some = True
                if out == 'err':
                    bad = bad | {'a part was not written completely'}
            dirty = True
        if k in ('flush', 'close', 'sync') and out == 'ok':
            dirty = False
        if k == 'seek' and a[0].k == 't' and a[0].a[0] == 'file:r' and self.ispart(a[0].a[1][0]):
            B('seek', 'a part is not read from its first byte')
        if k == 'rename' and out == 'ok' and a[1] is OBJ():
            if not is_tmp(a[0]):
                B('rename', 'the object is not the assembled file')
            if dirty:
                B('flush', 'the object is put in place before its buffers are flushed')
            for b in sorted(bad):
                B(b, b)
            if not some:
                B('empty', 'an object is made of no part at all')
            if miss:
                B('missing', 'the object is put in place although a listed part is missing')
            st = True
        elif k == 'rename' and out == 'ok' and (isP(a[1], 'obj') or self.ispart(a[1]) or self.ispart(a[0])):
            B('rename', f'{show(a[0])[:80]} is renamed to {show(a[1])[:80]}')
        if k in ('remove_file', 'remove_dir', 'remove_dir_all'):
            for x in members(a[0]):
                k0 = fkind(x)
                if k0 and k0[0] == 'part':
                    self.removed += 1
                    if not self.ispart(x) or not has_field(k0[2], 'part_number'):
                        B('foreign', 'a part which is not listed is removed: ' + show(x)[:120])
                    if not st:
                        B('early', 'a part is removed before the object is in place')
                elif fkind(x) != ('meta', BUCKET, KEY) and not is_tmp(x):
                    B('remove', f'{k} on {show(x)[:120]}')
        return (it, cp, rel, dirty, bad, st, some, miss)

def m01_automaton(ctx):
    f = ctx.facts
    op = 'complete_multipart_upload'
    r = Complete()
    e, outs = run_storage(ctx, op, r)
    ctx.ob(f'{op}: {r.n} writes assemble listed parts only', not r.violations and r.n > 0)
    ctx.ob(f'{op}: each listed part is written exactly once, in the listed order', any(l[0] == {1} for l in r.loops.values()), f'{op}:copies',
           f'{op}: no loop over the parts writes each of them exactly once: {[sorted(l[0]) for l in r.loops.values()]}')
    ctx.ob(f'{op}: part numbers are strictly ascending', any(l[1] == {'<'} for l in r.loops.values()), f'{op}:order',
           f'{op}: a part whose number is not greater than the previous one is accepted: {[sorted(l[1]) for l in r.loops.values()]}')
    nok = 0
    seen = set()
    for rv, m, ps in outs:
        cs = codes(f, rv)
        if is_ok(rv):
            nok += 1
            ctx.ob(f'{op}: success implies the object is in place', ps[5], f'{op}:success', f'{op} succeeds although the object was not put in place')
            continue
        if ps[2] in ('=', '>', '=>') and not ps[5]:
            seen.add('order')
            ctx.ob(f'{op}: a list which is not ascending gives InvalidPartOrder', cs == {'InvalidPartOrder'}, f'{op}:InvalidPartOrder', f'{op}: a part list which is not ascending gives {sorted(cs)}')
        if ps[7] and not ps[5]:
            seen.add('missing')
            ctx.ob(f'{op}: a missing part gives InvalidPart', cs == {'InvalidPart'}, f'{op}:InvalidPart', f'{op}: a missing part gives {sorted(cs)}')
    allc = set().union(*[codes(f, o[0]) for o in outs])
    ctx.ob(f'{op}: missing parts are detected', 'missing' in seen or 'InvalidPart' in allc, f'{op}:missing', f'{op} does not detect missing parts')
    ctx.ob(f'{op}: unordered lists are detected', 'order' in seen, f'{op}:unordered', f'{op} does not detect unordered lists')
    ctx.ob(f'{op}: the parts are removed', r.removed > 0, f'{op}:parts', f'{op} never removes the parts of a completed upload')
    ctx.ob(f'{op}: succeeds', nok > 0, f'{op}:never', f'{op} never succeeds')

PNUM = lambda i: T('pn', INT(i))
class Assemble(Exact):
    """one list of parts, element by element, paths never merged.
    ps: (numbers known to be ascending, numbers known not to be, parts written, dirty, problems, stored, missing part)"""
    stands_for_any = True
    init = (frozenset(), frozenset(), (), False, frozenset(), False, False)
    def __init__(self, n, none=None):
        Exact.__init__(self)
        self.n, self.none = n, none
        self.copies = self.removed = 0
    def special(self, ps, e):
        return FsRule.on_call(self, ps, e)
    def input(self):
        part = lambda i: with_fields(T('part', INT(i)), part_number=NONE if i == self.none else SOME(PNUM(i)))
        parts = NONE if self.n is None else SOME(ARR([part(i) for i in range(self.n)]))
        return with_fields(IN, multipart_upload=SOME(with_fields(T('upload'), parts=parts)))
    def branch(self, ps, v, eng, mem):
        t, pos = strip_not(v)
        if t.k == 't' and len(t.a[1]) == 2 and t.a[0] in ('bin:Lt', 'bin:Le', 'eq') and all(x.k == 't' and x.a[0] == 'pn' for x in t.a[1]):
            i, j = (x.a[1][0].a[0] for x in t.a[1])
            if i == j:
                return [(int((t.a[0] != 'bin:Lt') == pos), ps)]
            out = []
            for rel in '<=>':      # of number i to number j
                b = {'bin:Lt': rel == '<', 'bin:Le': rel != '>', 'eq': rel == '='}[t.a[0]]
                lo, hi = min(i, j), max(i, j)
                up = rel == ('<' if i < j else '>')
                kn = (lo, hi, True) if up else (lo, hi, False)
                if any(x[:2] == kn[:2] and x[2] != kn[2] for x in ps[0] | ps[1]):
                    continue
                p2 = (ps[0] | {kn} if up else ps[0], ps[1] if up else ps[1] | {kn}) + ps[2:]
                if (int(b == pos), p2) not in out:
                    out.append((int(b == pos), p2))
            return out
        return None
    def part(self, x):
        """index of the part of this upload a file holds"""
        k = fkind(x)
        if not k or k[0] != 'part' or not contains(k[1], UID):
            return None
        ns = {q.a[1][0].a[0] for q in find(k[2], lambda q: q.k == 't' and q.a[0] == 'pn')}
        return ns.pop() if len(ns) == 1 and unwrap_disp(k[2]).k == 't' and unwrap_disp(k[2]).a[0] == 'pn' else None
    def ev(self, ps, k, a, out, e):
        asc, desc, wr, dirty, bad, st, miss = ps
        B = lambda key, msg: self.report('complete_multipart_upload:' + key, 'complete_multipart_upload: ' + msg, e)
        w = a[1] if k == 'copy' else a[0] if a else UNIT
        if k in ('read', 'next_entry') and out == 'data' and st:
            return None
        if k in ('exists', 'is_file', 'metadata', 'open') and self.part(a[0]) is not None and out in ('false', 'err'):
            miss = miss or out == 'false'
        if k in ('write_all', 'write', 'copy') and w.k == 't' and w.a[0] == 'file:w' and is_tmp(w.a[1][0]) and not st:
            self.copies += 1
            src = a[0] if k == 'copy' else a[1]
            f = src.a[1][0] if src.k == 't' and src.a[0] in ('file:r', 'content') else None
            i = None if f is None else self.part(f)
            if k == 'write' or i is None:
                bad = bad | {'something else than a listed part is written: ' + show(src)[:80]}
            else:
                wr = wr + (i,)
                if out == 'err':
                    bad = bad | {'a part was not written completely'}
            dirty = True
        if k in ('flush', 'close', 'sync') and out == 'ok':
            dirty = False
        if k == 'seek' and a[0].k == 't' and a[0].a[0] == 'file:r' and self.part(a[0].a[1][0]) is not None:
            B('seek', 'a part is not read from its first byte')
        if k == 'rename' and out == 'ok' and a[1] is OBJ():
            if not is_tmp(a[0]):
                B('rename', 'the object is not the assembled file')
            if dirty:
                B('flush', 'the object is put in place before its buffers are flushed')
            for b in sorted(bad):
                B(b, b)
            if not wr:
                B('empty', 'an object is made of no part at all')
            elif wr != tuple(range(self.n or 0)):
                B('copies', f'of {self.n} listed parts those written are {[i + 1 for i in wr]}')
            if miss:
                B('missing', 'the object is put in place although a listed part is missing')
            if any((i, i + 1, True) not in asc for i in range(len(wr) - 1)):
                B('order', 'a part whose number is not greater than the previous one is accepted')
            st = True
        elif k == 'rename' and out == 'ok' and (isP(a[1], 'obj') or is_part(a[1]) or is_part(a[0])):
            B('rename', f'{show(a[0])[:80]} is renamed to {show(a[1])[:80]}')
        if k in ('remove_file', 'remove_dir', 'remove_dir_all'):
            for x in members(a[0]):
                k0 = fkind(x)
                if k0 and k0[0] == 'part':
                    self.removed += 1
                    if self.part(x) is None:
                        B('foreign', 'a part which is not listed is removed: ' + show(x)[:120])
                    if not st:
                        B('early', 'a part is removed before the object is in place')
                elif fkind(x) != ('meta', BUCKET, KEY) and not is_tmp(x):
                    B('remove', f'{k} on {show(x)[:120]}')
        return (asc, desc, wr, dirty, bad, st, miss)

def unwrap_disp(x):
    while x.k == 't' and x.a[0] in ('disp', 'dispint'):
        x = x.a[1][0]
    return x

def m01_exact(ctx, case):
    """lists of up to three parts"""
    f = ctx.facts
    op = 'complete_multipart_upload'
    n, none = case
    r = Assemble(n, none)
    e, outs = run_storage(ctx, op, r, r.input())
    what = 'no list' if n is None else f'{n} parts' + (', one without number' if none is not None else '')
    ctx.ob(f'{op}, {what}: {r.copies} writes, each listed part once, in order, numbers ascending', not r.violations)
    nok = 0
    seen = set()
    for rv, m, ps in outs:
        cs = codes(f, rv)
        if is_ok(rv):
            nok += 1
            ctx.ob(f'{op}: success implies the object is in place', ps[5], f'{op}:success', f'{op} succeeds although the object was not put in place')
            continue
        if ps[1] and not ps[5]:
            seen.add('order')
            ctx.ob(f'{op}: a list which is not ascending gives InvalidPartOrder', cs == {'InvalidPartOrder'} or ps[6] and cs == {'InvalidPart'}, f'{op}:InvalidPartOrder', f'{op}: a part list which is not ascending gives {sorted(cs)}')
        elif ps[6] and not ps[5]:
            seen.add('missing')
            ctx.ob(f'{op}: a missing part gives InvalidPart', cs == {'InvalidPart'}, f'{op}:InvalidPart', f'{op}: a missing part gives {sorted(cs)}')
    if n and none is None:
        allc = set().union(*[codes(f, o[0]) for o in outs])
        ctx.ob(f'{op}: missing parts are detected', 'missing' in seen or 'InvalidPart' in allc, f'{op}:missing', f'{op} does not detect missing parts')
        ctx.ob(f'{op}: unordered lists are detected', n < 2 or 'order' in seen, f'{op}:unordered', f'{op} does not detect unordered lists')
        ctx.ob(f'{op}: the parts are removed', r.removed > 0, f'{op}:parts', f'{op} never removes the parts of a completed upload')
        ctx.ob(f'{op}: succeeds', nok > 0, f'{op}:never', f'{op} never succeeds')
    else:
        ctx.ob(f'{op}, {what}: refused', nok == 0, f'{op}:refuse:{what}', f'{op} succeeds with {what}')

@prop('M01', 'exact interpretation over lists of 0 to 3 parts (paths never merged, anything that depends on the length of the list left open): on every path which puts the object in place each listed part was copied completely, exactly once and in order, its number known to be greater than the previous one, at least one part was copied, buffers are flushed; parts are removed only afterwards. Code the exact rule cannot follow is decided by a per-iteration automaton over the parts')
def m01(ctx):
    decide(ctx, m01_exact, [(None, None), (0, None), (1, None), (2, None), (3, None), (1, 0), (2, 1), (2, 0)], m01_automaton)

# --------------------------------------------------------------------------------------------------
# M02: upload ids and parts
class NoEffect(FsRule):
    init = ()
    def __init__(self):
        FsRule.__init__(self)
        self.muts = []
        self.renamed = []
    def ev(self, ps, k, a, out, e):
        if k in MUT:
            self.muts.append((k, a, e.loc))
            if k == 'rename':
                self.renamed.append((a, e.loc))
        return ps

def deint(x):
    while x.k == 't' and x.a[0] in ('disp', 'dispint') or x.k == 't' and re.match(r'^\.(Ok|Some)\.0$', x.a[0]):
        x = x.a[1][0]
    return x

@prop('M02', 'value flow: every upload id is a fresh random UUID returned with the bucket and key of the request; a part is stored only under the name made of the upload id (parsed as UUID) and the part number of its request, which is the name CompleteMultipartUpload reads')
def m02(ctx):
    f = ctx.facts
    r = NoEffect()
    e, outs = run_storage(ctx, 'create_multipart_upload', r)
    nok = 0
    for rv, m, ps in outs:
        if not is_ok(rv):
            continue
        nok += 1
        for o in members(okv(rv)):
            fs = fields(f, o)
            for fld, want in (('bucket', BUCKET), ('key', KEY)):
                vs, none = unopt(fs.get(fld, NONE))
                ctx.ob(f'create_multipart_upload: {fld} of the answer', not none and vs and all(v is want for v in vs), f'create:{fld}', f'create_multipart_upload answers with {fld} {[show(v)[:80] for v in vs]}')
            vs, none = unopt(fs.get('upload_id', NONE))
            ctx.ob('create_multipart_upload: a fresh random upload id', not none and vs and all(has_new_v4(v) and not contains(v, IN) and not any(q[0] == 'op' and re.search(r'::(slice|get|truncate|chars|split|trim|nil|index)', q[1]) for q in atoms(v)) for v in vs),
                   'create:id', f'create_multipart_upload gives out the upload id {[show(v)[:120] for v in vs]}')
    ctx.ob('create_multipart_upload: succeeds without touching objects', nok > 0 and not any(isP(x, 'obj') or isP(x, 'bucket') for k, a, l in r.muts for x in a), 'create:effects', 'create_multipart_upload changes objects or never succeeds')
    r = NoEffect()
    e, outs = run_storage(ctx, 'upload_part', r)
    ctx.ob('upload_part: stores the part', bool(r.renamed), 'upload:none', 'upload_part stores nothing')
    shapes = set()
    for a, loc in r.renamed:
        k = fkind(a[1])
        ok = bool(k) and k[0] == 'part' and contains(k[1], UID) and not has_field(k[1], 'part_number') and deint(k[2]) is PN
        ctx.ob('upload_part: the part is stored under its upload id and number', ok, 'upload:name', f'upload_part stores the part as {show(a[1])[:200]}', loc)
        shapes.add(shape(a[1]))
    class Reads(FsRule):
        def __init__(self):
            FsRule.__init__(self)
            self.labs = set()
        def ev(self, ps, k, a, out, e):
            if k in ('open', 'read_file', 'copy_file') and is_part(a[0]):
                self.labs.add(a[0])
            return ps
    r = Reads()
    run_storage(ctx, 'complete_multipart_upload', r)
    ctx.ob('complete_multipart_upload: reads parts under the same names', r.labs and {shape(x) for x in r.labs} == shapes, 'shape', f'parts are stored as {sorted(shapes)} and read as {sorted(shape(x) for x in r.labs)}')

def shape(lab):
    """a file name with its variable pieces replaced by their class"""
    n = lab.a[1][0]
    ps = n.a[1] if n.k == 't' and n.a[0] == 'cat' else (n,)
    return ''.join(p.a[0] if p.k == 'str' else '{part}' if has_field(p, 'part_number') else '{upload}' if contains(p, UID) else '{?}' for p in ps)

# --------------------------------------------------------------------------------------------------
# R03: GET and HEAD describe an object alike
class Kind(FsRule):
    """ps: (is a file, is a directory), consistent along a path"""
    init = (None, None)
    def ev(self, ps, k, a, out, e):
        isf, isd = ps
        if a and (a[0] is OBJ() or a[0] is T('meta-of', OBJ())) and k in ('is_dir', 'is_file', 'exists'):
            t = out == 'true'
            if k == 'is_file':
                if isf is not None and isf != t or t and isd: return None
                isf = t
            elif k == 'is_dir':
                if isd is not None and isd != t or t and isf: return None
                isd = t
            elif not t:
                if isf or isd: return None
                isf = isd = False
        return (isf, isd)

def const_strs(v):
    return {q[1] for q in atoms(v) if q[0] == 'str'}

@prop('R03', 'sibling comparison of get_object and head_object: for a file both return ETag, Last-Modified (formatted modification time of the object file), Content-Type and Content-Length from the same sources; for a directory object both return length 0')
def r03(ctx):
    f = ctx.facts
    info = {}
    for op in ('get_object', 'head_object'):
        r = Kind()
        e, outs = run_storage(ctx, op, r, with_fields(IN, range=NONE))
        for rv, m, ps in outs:
            if is_ok(rv):
                k = 'dir' if ps[1] or ps == (False, None) else 'file' if ps[0] or ps[1] is False and ps[0] is None else 'missing'
                for o in members(okv(rv)):
                    info.setdefault((op, k), []).append(fields(f, o))
        ks = {k for o, k in info if o == op}
        ctx.ob(f'{op}: success for a file or a directory object only', ks <= {'file', 'dir'} and 'file' in ks, f'{op}:kind', f'{op} succeeds for an object of kind {sorted(ks)}')
    for k in ('file', 'dir'):
        got = {}
        for op in ('get_object', 'head_object'):
            for fs in info.get((op, k), []):
                for fld in ('e_tag', 'last_modified', 'content_type', 'content_length'):
                    v = fs.get(fld, NONE)
                    vs, none = unopt(v)
                    d = got.setdefault((op, fld), set())
                    if none or not vs or all(x.k == 't' and x.a[0] == '.' + fld for x in vs):
                        d.add('absent')
                        continue
                    for x in vs:
                        if fld == 'content_length':
                            y = deint(x)
                            d.add('length of the file' if y is LEN else str(y.a[0]) if y.k == 'int' else show(y)[:80])
                        elif fld == 'content_type':
                            d.add(str(sorted(q for q in atoms(x) if q[0] in ('str', 'op'))))
                        elif fld == 'last_modified':
                            d.add('time ' + str(sorted(q[1] for q in atoms(x) if q[0] == 'op' and not q[1].startswith(('P:', '.')))) if find(x, lambda y: y is T('modified', T('meta-of', OBJ()))) else show(x)[:80])
                        else:
                            d.add('present')
        for fld, want in (('e_tag', {'present'} if k == 'file' else None), ('last_modified', None), ('content_type', None), ('content_length', {'length of the file'} if k == 'file' else {'0'})):
            a, b = got.get(('get_object', fld), set()), got.get(('head_object', fld), set())
            if not a or not b:
                ctx.ob(f'{k}: both operations succeed', k == 'dir' and not a and not b, f'{k}:{fld}', f'{k} objects are served by one of GET and HEAD only')
                continue
            if k == 'file' and fld == 'last_modified':
                ctx.ob('file: Last-Modified is the modification time', len(a) == 1 and all(x.startswith('time ') for x in a | b), 'file:time', f'Last-Modified of a file is {sorted(a | b)}')
            ctx.ob(f'{k}: GET and HEAD agree on {fld}', a == b and (want is None or a == want), f'{k}:{fld}', f'{k} object: {fld} is {sorted(a)} for GET and {sorted(b)} for HEAD')

# --------------------------------------------------------------------------------------------------
# R04: missing buckets and keys
class Missing_(FsRule):
    """ps: (bucket, object)"""
    init = ('?', '?')
    def __init__(self, op, src=False):
        FsRule.__init__(self)
        self.op = op
        self.n = 0
        self.created = 0
    def ev(self, ps, k, a, out, e):
        b, o = ps
        if a and a[0] is BKT() and k in ('is_dir', 'exists', 'metadata', 'is_file'):
            if k == 'is_file': pass
            elif out == 'true' or out == 'ok': b = 'yes' if b == '?' else b
            elif out == 'false': b = 'no'
        if a and a[0] is OBJ() and k in ('is_file', 'open', 'exists') and o in ('?', 'maybe dir'):
            if k == 'open': o = 'no' if out == 'err' else 'open'
            elif out == 'false': o = 'no'
            else: o = 'yes' if k == 'is_file' else 'open'
        if a and k == 'is_dir' and (a[0] is OBJ() or a[0] is T('meta-of', OBJ())) and o in ('?', 'no', 'open', 'dir?'):
            if out == 'true': o = 'dir'
            elif o == 'open': o = 'yes'
        if a and k == 'is_file' and a[0] is T('meta-of', OBJ()) and o == 'open':
            o = 'yes' if out == 'true' else 'dir'
        if k in MUT:
            self.n += 1
            labs = [y for x in a for y in members(x)]
            vis = any(isP(y, 'obj') or isP(y, 'bucket') or isP(y, 'parent') or isP(y, 'entry') or is_part(y) or (fkind(y) or ('',))[0] == 'meta' for y in labs)
            if vis and b != 'yes':
                self.report(f'{self.op}:{k}', f'{self.op}: {k} on {show(a[0])[:100]} before the bucket was found to exist', e)
        return (b, o)

@prop('R04', 'dominance and path analysis: in every operation on a bucket visible effects are dominated by a successful existence test of that bucket, whose failure ends in NoSuchBucket; get and head of an object which is not there (or of a directory under a key without "/") end in NoSuchKey and never in success')
def r04(ctx):
    f = ctx.facts
    for op in OPS:
        if op in ('create_bucket', 'list_buckets'):
            continue
        r = Missing_(op)
        if op == 'copy_object':
            stub_copy(r)
        e, outs = run_storage(ctx, op, r)
        ctx.ob(f'{op}: {r.n} effects only in an existing bucket', not r.violations)
        nb = 0
        for rv, m, ps in outs:
            b, o = ps
            cs = codes(f, rv)
            if b == 'no':
                nb += 1
                ctx.ob(f'{op}: a missing bucket is NoSuchBucket', is_err(rv) and cs == {'NoSuchBucket'}, f'{op}:bucket', f'{op} on a missing bucket gives {sorted(cs) or "success"}')
            if op in ('get_object', 'head_object'):
                continue
            if is_ok(rv):
                ctx.ob(f'{op}: success implies the bucket exists', b == 'yes', f'{op}:nobucket', f'{op} succeeds although the bucket was not found to exist')
        if op not in ('get_object', 'head_object'):
            ctx.ob(f'{op}: detects a missing bucket', nb > 0, f'{op}:detect', f'{op} does not detect a missing bucket')
    for op in ('get_object', 'head_object'):
        r = NoKey()
        e, outs = run_storage(ctx, op, r, with_fields(IN, range=NONE))
        nk = 0
        for rv, m, ps in outs:
            isf, isd, opened, sl = ps
            absent = opened is False or isf is False and (isd is False or sl is False) or isd is True and sl is False
            if absent and not (isf is True):
                nk += 1
                cs = codes(f, rv)
                ctx.ob(f'{op}: a missing key is NoSuchKey {ps}', is_err(rv) and cs == {'NoSuchKey'}, f'{op}:key', f'{op} of a missing key gives {sorted(cs) or "success"} (state {ps})')
        ctx.ob(f'{op}: detects a missing key', nk > 0, f'{op}:detect', f'{op} does not detect a missing key')

class NoKey(FsRule):
    """ps: (is a file, is a directory, could be opened, key ends with /)"""
    init = (None, None, None, None)
    def branch(self, ps, v, eng, mem):
        t, pos = strip_not(v)
        if t.k == 't' and 'ends_with' in t.a[0] and contains(t, KEY):
            return [(b, ps[:3] + (bool(b) == pos,)) for b in (0, 1) if ps[3] in (None, bool(b) == pos)]
        return None
    def ev(self, ps, k, a, out, e):
        isf, isd, op, sl = ps
        if a and (a[0] is OBJ() or a[0] is T('meta-of', OBJ())):
            if k == 'is_file':
                if isd is True and out == 'true' or isf is not None and isf != (out == 'true'): return None
                isf = out == 'true'
            elif k == 'is_dir':
                if isf is True and out == 'true' or isd is not None and isd != (out == 'true'): return None
                isd = out == 'true'
            elif k == 'open' and op is None and isf is None:
                op = out == 'ok'
            elif k == 'exists' and out == 'false':
                if isf is True: return None
                isf = isd = False
        return (isf, isd, op, sl)

"""The stream which sends an object."""
from core import *
from props_objects import intval
from preds import value, Unknown

BS = 'data_structures::bytes_stream::BytesStream'
READER, SIZE, BUFV, LIM, NREAD, IOERR = T('READER'), T('SIZE'), T('BUF'), T('LIM'), T('NREAD'), T('io-error')

class PollRule(FsRule):
    """ps: (outcome of poll_read, the buffer it was given, conditions on the numbers)"""
    init = (None, None, ())
    def __init__(self):
        FsRule.__init__(self)
        self.reads = 0
        self.twice = False
    def on_call(self, ps, e):
        if re.search(r'::poll_read(_vectored)?$', e.path):
            if not contains(e.args[0], READER):
                return None
            self.reads += 1
            if ps[0] is not None:
                self.twice = True
                return []
            buf = e.args[2] if len(e.args) > 2 else None
            return [(ADT(POLL, 1, ()), ('pending', buf, ps[2])), (READY(OK(NREAD)), ('read', buf, ps[2])), (READY(ERR(IOERR)), ('err', buf, ps[2]))]
        return None
    def on_branch(self, ps, v, eng, mem):
        t, pos = strip_not(v)
        if not arith(t):
            return None
        out = []
        for n in sorted(set(eng.sw_targets or [0])) + [None]:
            out.append((n if n is not None else next(q for q in range(10 ** 6) if q not in (eng.sw_targets or [0])), ps[:2] + (ps[2] + ((v, n, tuple(eng.sw_targets or [0])),) if (v, n, tuple(eng.sw_targets or [0])) not in ps[2] else ps[2],)))
        return out
    branch = on_branch

def arith(v):
    if v in (SIZE, LIM, NREAD) or v.k == 'int':
        return True
    if v.k == 'phi':
        return all(map(arith, v.a[0]))
    if v.k == 't' and (v.a[0].startswith('bin:') or v.a[0] in ('not', 'eq', 'min', 'max', 'satsub', 'satadd')):
        return all(map(arith, v.a[1]))
    return False

def buflen(v, env):
    """length of a buffer value, None if it is not determined"""
    if v.k == 'seq':
        n = None
        for st in v.a[1]:
            if st[0] == '*':
                return None
            op = st[0].rsplit('::', 1)[-1].split('(')[0]
            if op == 'resize':
                n = value(st[1][0], env)
            elif op == 'truncate':
                m = value(st[1][0], env)
                n = None if n is None else min(n, m)
            elif op == 'clear':
                n = 0
            elif op in ('poll_read', 'as_mut_slice', 'deref_mut', 'reserve', 'fill'):
                pass
            else:
                return None
        return n
    if v.k == 't':
        op = v.a[0]
        if re.search(r'from_elem$', op):
            return value(v.a[1][-1], env)
        if op in ('slice', 'index', 'range') or re.search(r'(Index|IndexMut)(<.*>)?.*::index(_mut)?$|::(get|split_to|slice)$', op):
            return sublen(v, env)
        if re.search(r'(::from|::into|::into_boxed_slice|::freeze|::to_vec)$', op) and v.a[1]:
            return buflen(v.a[1][0], env)
    return None

def sublen(v, env):
    for x in v.a[1][1:]:
        if x.k == 'adt' and re.search(r'ops::range::RangeTo$', x.a[0]):
            return value(x.a[2][0], env)
        if x.k == 'adt' and re.search(r'ops::range::Range$', x.a[0]) and x.a[2][0] is INT(0):
            return value(x.a[2][1], env)
        if x.k == 'adt' and re.search(r'ops::range::RangeFull$', x.a[0]):
            return buflen(v.a[1][0], env)
    return None

def holds(cs, env):
    for v, n, tg in cs:
        x = value(v, env)
        if n is None and x in tg or n is not None and x != n:
            return False
    return True

@prop('S01', 'transition-relation extraction: one poll of the stream is interpreted from a symbolic state (reader, buffer size, any buffer, remaining limit); length of the buffer handed to the reader, length of the emitted chunk and the next limit are terms over these, compared with the specification on all orderings of limit, buffer size and bytes read (the invariant is inductive over polls)')
def s01(ctx):
    f = ctx.facts
    b = ctx.body(r'BytesStream.*::poll_next$')
    ad = f.adts.get(BS)
    if not ad or len(ad['variants']) != 1 or set(ad['variants'][0]['fields']) != {'reader', 'buf_size', 'buf', 'limit'}:
        raise Missing('fields of BytesStream')
    names = ad['variants'][0]['fields']
    for limited in (True, False):
        r = PollRule()
        e = Engine(f, r)
        S = (9, 'self')
        val = {'reader': READER, 'buf_size': SIZE, 'buf': BUFV, 'limit': SOME(LIM) if limited else NONE}
        outs = e.run(b, [REF(S), T('cx')], {S: ADT(BS, 0, tuple(val[n] for n in names))}, r.init, 0)
        ctx.absorb(e, r)
        tag = 'limited' if limited else 'unlimited'
        ctx.ob(f'{tag}: one poll reads at most once', not r.twice, 'twice', 'one poll may read twice and drop what it read first')
        kinds = {}
        for rv, m, ps in outs:
            rv = e.snap(m, rv)
            st = fields(f, e.snap(m, m[S]))
            for size in (1, 3, 8, 4096):
                for lim in ((0, 1, 2, 3, 4, 7, 8, 9, 4096, 10 ** 6) if limited else (None,)):
                    room = size if lim is None else min(size, lim)
                    reads = sorted({0, 1, 2, room // 2, room - 1, room} & set(range(0, room + 1))) if ps[0] == 'read' else [0]
                    for nr in reads:
                        env = {SIZE: size, NREAD: nr, 'wrap': 1 << 64}
                        if lim is not None:
                            env[LIM] = lim
                        where = f'limit {lim}, buffer size {size}, read {nr}'
                        try:
                            if not holds(ps[2], env):
                                continue
                            kinds[ps[0]] = kinds.get(ps[0], 0) + 1
                            one_poll(ctx, e, f, tag, rv, st, ps, env, lim, size, nr, where)
                        except Unknown as x:
                            ctx.ob(f'{tag} {ps[0]}: decided', False, 'unknown', 'the stream depends on something else than limit, buffer size and bytes read: ' + str(x)[:200])
        for k in ('pending', 'read', 'err'):
            ctx.ob(f'{tag}: outcome "{k}" of the reader is handled ({kinds.get(k, 0)} cases)', kinds.get(k, 0) > 0, 'kind:' + k, f'the stream has no path for the outcome {k} of the reader')

def one_poll(ctx, e, f, tag, rv, st, ps, env, lim, size, nr, where):
    room = size if lim is None else min(size, lim)
    if ps[0] is None:
        # answered without reading: only at the end of a limited stream
        for x in members(rv):
            ctx.ob(f'{tag}: answers without reading only at the limit', lim == 0 and x is READY(NONE), 'noread', f'the stream answers {show(x)[:80]} without reading ({where})')
        return
    n = buflen(ps[1], env)
    ctx.ob(f'{tag} {ps[0]}: buffer length is known', n is not None, 'buffer', 'the length of the buffer handed to the reader is not determined: ' + show(ps[1])[:200])
    if n is None:
        return
    ctx.ob(f'{tag} {ps[0]} {where}: buffer within the limit', n <= room if lim is not None else True, 'overrun', f'the reader gets a buffer of {n} bytes although {lim} bytes remain to be sent ({where})')
    ctx.ob(f'{tag} {ps[0]} {where}: buffer not empty', n > 0 or room == 0, 'empty', f'the reader gets an empty buffer and the stream ends early ({where})')
    for x in members(rv):
        got = None
        for y in members(x.a[2][0]) if x.k == 'adt' and x.a[1] == 0 else (None,):
            if y is None:
                got = ('pending',)
            elif y is NONE:
                got = ('end',)
            elif y.k == 'adt' and y.a[0] == OPTION and is_err(y.a[2][0]):
                got = ('err', y.a[2][0].a[2][0])
            elif y.k == 'adt' and y.a[0] == OPTION and is_ok(y.a[2][0]):
                got = ('data', y.a[2][0].a[2][0])
            else:
                got = ('?', y)
            if ps[0] == 'pending':
                ok = got == ('pending',)
            elif ps[0] == 'err':
                ok = got[0] == 'err' and contains(got[1], IOERR)
            elif nr == 0:
                ok = got == ('end',)
            else:
                ok = got[0] == 'data'
            ctx.ob(f'{tag} {ps[0]} {where}: answer', ok, 'answer:' + ps[0], f'the reader gives {ps[0]} but the stream answers {got[0]} ({where})')
            if got[0] == 'data' and ok:
                m = buflen(got[1], env)
                ctx.ob(f'{tag} {where}: emits what was read', m == nr and contains_buf(got[1], ps[1]), 'emit', f'{nr} bytes were read but {m} bytes are sent ({where})')
    used = nr if ps[0] == 'read' else 0
    if lim is None:
        ctx.ob(f'{tag}: no limit appears', all(x is NONE for x in members(st['limit'])), 'limit', 'an unlimited stream gets a limit')
    else:
        for x in members(st['limit']):
            for z in (members(x.a[2][0]) if x.k == 'adt' and x.a[1] == 1 else (None,)):
                v = None if z is None else value(z, env)
                ctx.ob(f'{tag} {ps[0]} {where}: remaining limit', v == lim - used, 'limit', f'after sending {used} bytes of a limit of {lim} the remaining limit is {v} ({where})')
    ctx.ob(f'{tag}: buffer size is kept', all(x is SIZE for x in members(st['buf_size'])), 'size', 'the buffer size changes between polls: ' + show(st['buf_size'])[:100])

def contains_buf(v, buf):
    """the emitted bytes come from the buffer which was read into"""
    return bool(find(v, lambda y: y.k == 'seq' and any(s[0] != '*' and s[0].endswith('poll_read') for s in y.a[1])))

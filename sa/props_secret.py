"""Secret keys stay secret."""
from props_chunks import *
from props_auth import *
import props_chunks

KEYV = T('SECRET-KEY')
FMTSINK = re.compile(r'^<?(tracing|tracing_core|log|tracing_log|tracing_error)\b|core::fmt::(Formatter|builders|Write|write)|std::io::(stdio::)?_e?print|core::panicking|core::option::expect_failed|core::result::unwrap_failed|std::rt::panic')
QUIETARG = re.compile(r'(::len|::is_empty|::eq|::ne|::cmp|::is_some|::is_none|::is_ok|::is_err|::contains_key|::verify_slice|::verify)$')
WRAP = re.compile(r'tracing(_core)?::field::(debug|display)|tracing::field::(debug|display)|DebugValue|DisplayValue')

def bare(v):
    """a number or truth value"""
    n = v.a[0]
    return n in ('eq', 'not', 'len', 'hexshachunk', 'discr', 'isvar') or n.startswith(('bin:', 'is:')) or bool(QUIETARG.search(n))

class Leak:
    """which values tell a secret"""
    def __init__(self, facts):
        self.facts = facts
        self.secrets = {KEYV}
        self.holders = {}       # (adt, variant) -> {field index}
        self.memo = {}
        self.engines = []

    def source(self, t):
        return t in self.secrets or t.k == 't' and t.a[0] in ('secret', 'calculate_signature')

    def tells(self, v, kind=None, d=0):
        """does the value, printed as text, show a secret?"""
        key = (v, kind)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        r = self.memo[key] = self._tells(v, kind, d)
        return r

    def _tells(self, v, kind, d):
        if self.source(v):
            return True
        if v.k == 't':
            n = v.a[0]
            if bare(v):
                return False
            if n in ('disp', 'debug', 'display', 'dispint') or WRAP.search(n):
                k = 'Debug' if 'debug' in n.lower() else 'Display'
                return any(self.tells(x, k, d + 1) for x in v.a[1])
            if n in ('chunked-stream', 'try-stream'):
                return False if kind is None else False
        if v.k == 'adt' and kind in ('Debug', 'Display'):
            if v.a[0] in self.facts.adts and (v.a[0] in self.local()):
                if not self.holds(v):
                    return False
                imp = self.impl(kind, v.a[0])
                if imp is not None:
                    return self.prints(imp, v, d)
        return any(self.tells(x, kind, d + 1) for x in kids(v))

    def holds(self, v):
        return bool(find(v, self.source))

    def local(self):
        if not hasattr(self, '_local'):
            self._local = set(self.facts.adts)
        return self._local

    def impl(self, kind, adt):
        bs = [b for b in self.facts.bodies.values() if b['local'] and b['kind'] == 'fn' and re.match(r'^<%s(<.*>)? as core::fmt::%s>::fmt$' % (re.escape(adt), kind), b['path'])]
        return bs[0] if bs else None

    def prints(self, body, v, d):
        if d > 12:
            return True
        r = Sinks(self)
        S = (9, 'self')
        e = Engine(self.facts, r, trace_logs=True)
        outs = e.run(body, [REF(S), T('formatter')], {S: v}, r.init, 0)
        self.engines.append(e)
        return bool(r.hits)

class Sinks(FsRule):
    trace_logs = True
    def __init__(self, leak):
        FsRule.__init__(self)
        self.leak = leak
        self.hits = {}
        self.seen = 0
    def on_call(self, ps, e):
        watch(self, e)
        return FsRule.on_call(self, ps, e)

def watch(rule, e):
    lk = rule.leak
    if FMTSINK.search(e.path) or FMTSINK.search(e.decl or ''):
        rule.seen += 1
        for x in e.args:
            if lk.tells(x):
                rule.hits.setdefault((e.path, e.body and e.body['path']), (x, e.eng.trail()))

def mixed(base):
    class R(base):
        trace_logs = True
        leak = None
        def __init__(self, leak, *a):
            base.__init__(self, *a)
            self.leak, self.hits, self.seen = leak, {}, 0
        def on_call(self, ps, e):
            watch(self, e)
            if e.path.startswith(('tracing', '<tracing', 'log::')):
                e.pure = True
                return [(T('call:' + e.path, *[x for x in e.args if self.leak.holds(x)]), ps)]
            return base.on_call(self, ps, e)
        def enter(self, ps, body, args, eng, mem):
            for a in args:
                v = eng.snap(mem, a)
                for x in find(v, lambda y: y.k == 'adt' and y.a[0] in self.leak.facts.adts):
                    for i, c in enumerate(x.a[2]):
                        if self.leak.holds(c):
                            self.leak.holders.setdefault((x.a[0], x.a[1]), {}).setdefault(i, c)
            return base.enter(self, ps, body, args, eng, mem)
    return R

def report(ctx, r, what):
    for (p, b), (x, trail) in r.hits.items():
        ctx.violate('leak:%s:%s' % (b, p[:60]), 'a secret is written out: ' + show(x)[:260], '', trail)
    ctx.ob(f'{what}: {r.seen} formatting and logging calls show no secret', not r.hits, 'leak', 'a secret is written out')


PUBLIC = ('auth::SimpleAuth', 'streams::aws_chunked_stream::AwsChunkedStream', 'service::S3Service', 'service::SharedS3Service', 'ops::ReqContext')

RULE = ('symbolic interpretation with the secrets (the answer of the authentication provider, every signature computed from it, the keys a provider or the program is given) as symbols: '
        'no formatting, logging, panic or error value takes a term which contains one; a value of a local type is shown as its own Debug or Display implementation shows it')

@prop('A09', RULE)
def a09(ctx):
    f = ctx.facts
    lk = Leak(f)
    def go(what, r, body, args, mem=None):
        e, outs = run_op(f, r, body, args, mem)
        ctx.absorb(e)
        report(ctx, r, what)
        return outs
    # requests
    outs = go('handling of requests', mixed(AuthRule)(lk, f, ()), ctx.body(r'service::S3Service::handle$'), [with_fields(SVC, auth=SOME(AUTHV)), REQ])
    n = 0
    for rv, m, ps in outs:
        for x in members(rv):
            n += 1
            ctx.ob('what is answered holds no secret', not lk.tells(x), 'answer', 'an answer contains a secret: ' + show(x)[:200])
    ctx.ob('requests end in answers', n > 10, 'none', 'no answers were seen')
    # signatures
    for fn in ('calculate_signature', 'create_string_to_sign', 'create_chunk_string_to_sign', 'create_canonical_request', 'create_presigned_canonical_request'):
        b = ctx.body(r'signature_v4::%s$' % fn)
        args = [KEYV if fn == 'calculate_signature' and i == 1 else T('arg:%d' % i) for i in range(b['argc'])]
        if fn == 'create_chunk_string_to_sign':
            args[2] = T('secret', STR('previous'))
        outs = go(fn, mixed(FsRule)(lk), b, args)
    # chunks
    for frames in ([Layout('one chunk', [2]).xs], [Layout('bad signature', [1], broken=(0, 'line', '1;chunk-signature=' + 'b' * 64 + '\r\n')).xs], [[]]):
        b = ctx.body(r'AwsChunkedStream::new$')
        r = mixed(ChunkRule)(lk, frames)
        e = Engine(f, r)
        for rv, m, ps in e.run(b, [T('BODY'), SEED, CDATE, CREGION, KEYV], {}, r.init, 0):
            if len(r.stream) != 1:
                raise Missing('the generator of AwsChunkedStream')
            e.stack.append((b, 0, 0))
            for r2, m3, p3 in e.poll(r.stream[0], m, ps, e.sub(0, 'p'), ''):
                v = e.snap(m3, e.project(m3, r2, ('f', 0, '0')))
                ctx.ob('the end of a stream tells no secret', not lk.tells(v), 'stream', 'the error of a stream contains a secret: ' + show(v)[:200])
            e.stack.pop()
        ctx.absorb(e)
        report(ctx, r, 'chunks')
    # the provider
    reg = ctx.body(r'auth::SimpleAuth::register$')
    S = (9, 'self')
    sa = ADT('auth::SimpleAuth', 0, (T('keys', KEYV),))
    go('SimpleAuth::register', mixed(FsRule)(lk), reg, [REF(S), T('AK'), KEYV], {S: sa})
    get = ctx.body(r'<auth::SimpleAuth as auth::S3Auth>::get_secret_access_key$')
    r = mixed(FsRule)(lk)
    e, outs = run_op(f, r, get, [REF(S), T('AK')], {S: sa})
    ctx.absorb(e)
    report(ctx, r, 'SimpleAuth::get_secret_access_key')
    for rv, m, ps in outs:
        for x in members(rv):
            ctx.ob('the error of the provider tells no secret', is_ok(x) or not lk.tells(x), 'provider', 'the error of the provider contains a secret: ' + show(x)[:200])
    lk.holders.setdefault(('auth::SimpleAuth', 0), {})[0] = T('keys', KEYV)
    main(ctx, lk)
    # the types which hold them
    for (adt, vi), fs in sorted(lk.holders.items()):
        ad = f.adts.get(adt)
        n = len(ad['variants'][vi]['fields'])
        v = ADT(adt, vi, tuple(fs.get(i, T('field:%d' % i)) for i in range(n)))
        for kind in ('Debug', 'Display'):
            b = lk.impl(kind, adt)
            if b is not None and adt in PUBLIC:
                bad = lk.prints(b, v, 0)
                ctx.ob(f'{kind} of {adt} shows no secret', not bad, f'fmt:{adt}', f'the {kind} output of {adt} contains a secret')
        ctx.ob(f'{adt} holds secrets (fields {sorted(fs)})', True)
    for e in lk.engines:
        ctx.absorb(e)

def projections(s):
    """the places a value was taken from, up to the structure which held it"""
    out = [s]
    while s.k == 't' and (s.a[0].startswith('.') or s.a[0].startswith('call:') and len(s.a[1]) == 1 and re.search(r'::(clone|to_owned|to_string|into|from|as_str|as_ref|deref|unwrap|expect|unwrap_or_default)$', s.a[0])) and len(s.a[1]) >= 1:
        s = s.a[1][0]
        out.append(s)
    return out

class Main(FsRule):
    trace_logs = True
    def __init__(self, leak):
        FsRule.__init__(self)
        self.leak = leak
        self.shown, self.given = [], []
    def on_call(self, ps, e):
        p = e.path
        if p.endswith('SimpleAuth::register') and len(e.args) == 3:
            self.given.append(e.args[2])
        elif FMTSINK.search(p) or FMTSINK.search(e.decl or '') or p.endswith('block_on'):
            for x in e.args:
                self.shown.append((e.targs, x, p, e.eng.trail()))
        if p.endswith('Runtime::block_on') and len(e.args) == 2:
            out = []
            for rv, m, q in e.eng.poll(e.raw[1], e.mem, ps, e.eng.sub(e.fr, 'main'), ''):
                out.append((e.eng.project(m, rv, ('f', 0, '0')), q, m))
            return out
        return FsRule.on_call(self, ps, e)

def main(ctx, lk):
    """what the program gives to the provider is not printed"""
    f = ctx.facts
    bs = [b for b in f.bodies.values() if b['local'] and b['krate'].endswith('bin') and b['path'] == 'main' and b['kind'] == 'fn']
    if not bs:
        raise Missing('main')
    r = Main(lk)
    e, outs = run_op(f, r, bs[0], [])
    ctx.absorb(e)
    whole = {}
    keys = set()
    for s in r.given:
        ch = projections(s)
        keys |= set(ch[:-1]) or {s}
        if len(ch) > 1:
            names = {x.a[0][1:] for x in ch if x.k == 't' and x.a[0].startswith('.')}
            whole[ch[-1]] = [a for a, d in f.adts.items() if d.get('krate', 'bin').endswith('bin') and any(names & set(v['fields']) for v in d['variants'])]
    bad = []
    for targs, x, path, trail in r.shown:
        if path.endswith('block_on'):
            continue
        if shows(f, lk, x, keys, whole, targs, 0):
            bad.append((x, trail))
    for x, trail in bad[:3]:
        ctx.violate('main', 'the program prints a secret key: ' + show(x)[:200], '', trail)
    ctx.ob(f'main: none of the {len(r.shown)} values printed is a key given to the provider ({len(set(r.given))})', not bad, 'main')
    ctx.ob('main gives keys to the provider', bool(r.given), 'main-none')

def shows(f, lk, x, keys, whole, targs, d):
    if x in keys:
        return True
    if x in whole:
        imps = [b for a in whole[x] for b in [lk.impl('Debug', a), lk.impl('Display', a)] if b is not None]
        if not imps or d > 6:
            return True
        for b in imps:
            r = Main(lk)
            S = (9, 'self')
            e = Engine(f, r, trace_logs=True)
            e.run(b, [REF(S), T('formatter')], {S: x}, r.init, 0)
            if any(shows(f, lk, y, keys, {}, t, d + 1) for t, y, p, tr in r.shown if y is not x):
                return True
        return False
    if x.k == 't' and (x.a[0].startswith('.') or bare(x)):
        return False
    if x.k == 'seq' or x.k == 't' and 'SimpleAuth' in x.a[0]:
        # a value of the library: its own implementations are examined above
        b = base_of(x)
        if b.k == 't' and re.search(r's3_server::(auth::SimpleAuth|service::\w+)::new$', b.a[0]):
            return False
    return any(shows(f, lk, y, keys, whole, (), d + 1) for y in kids(x))

def base_of(x):
    while x.k in ('seq', 'mix') and x.a:
        x = seq_parts(x)[0] if x.k == 'seq' else x.a[0]
        if not hasattr(x, 'k'):
            break
    return x

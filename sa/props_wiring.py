"""From the command line and the provider to the requests: credentials, the service, the server program."""
from props_fields import *
import props_fields

MAPNEW = re.compile(r'(HashMap|BTreeMap|IndexMap)(::)?<.*>(::(new|with_capacity)| as core::default::Default>::default)$')
MAPFN = re.compile(r'(?:HashMap|BTreeMap|IndexMap)(?:::)?<.*>(?: as .*>)?::(insert|get|get_mut|get_key_value|contains_key|remove|index|entry|is_empty|len|clear|extend)$')
ENTRY = re.compile(r'::(?:Entry|VacantEntry|OccupiedEntry)(?:::)?<.*>::(or_insert|or_insert_with|insert_entry|insert|and_modify|or_default)$')

def fst(x): return x.a[0][0]
def snd(x): return x.a[0][1]

class Store(Exact):
    """maps with known keys"""
    def enter(self, ps, body, args, eng, mem):
        return None

    def find(self, xs, k):
        """the last entry of a key; None: not known"""
        if k.k != 'str' or any(fst(x).k != 'str' for x in xs):
            return None
        for x in reversed(xs):
            if fst(x) is k:
                return x
        return False

    def special(self, ps, e):
        p, a = e.path, e.args
        if MAPNEW.search(p):
            return [(T('hmap', ARR([])), ps, e.mem)]
        m = ENTRY.search(p)
        if m and a[0].k == 't' and a[0].a[0] == 'entry':
            r = e.raw[0]
            ref, hm, k = a[0].a[1][0], a[0].a[1][1], a[0].a[1][2]
            xs = exact(hm.a[1][0])
            x = self.find(xs, k)
            if x is None or ref.k != 'ref':
                return None
            if m.group(1) == 'or_insert':
                return [(T('slot'), ps, e.mem)] if x else [(T('slot'), ps, self.put(e, ref, xs, k, a[1]))]
            if m.group(1) == 'insert_entry':
                return [(T('slot'), ps, self.put(e, ref, xs, k, a[1]))]
            return None
        if re.search(r'(HashMap|BTreeMap|IndexMap)(?:::)?<.*>(?: as .*>)?::(iter|into_iter|keys|values)$', p) and a[0].k == 't' and a[0].a[0] == 'hmap':
            xs = exact(a[0].a[1][0])
            ys = [x for i, x in enumerate(xs) if self.find(xs[i + 1:], fst(x)) is False]
            k = p.rsplit('::', 1)[1]
            return [(ITER([fst(x) if k == 'keys' else snd(x) if k == 'values' else x for x in ys]), ps, e.mem)]
        m = MAPFN.search(p)
        if m:
            k = m.group(1)
            ref, v = self.target(e)
            if not (v.k == 't' and v.a[0] == 'hmap'):
                v = a[0]
            if v.k == 't' and v.a[0] == 'hmap':
                xs = exact(v.a[1][0])
                if k == 'is_empty':
                    return [(INT(int(not xs)), ps, e.mem)]
                if k == 'len':
                    return [(INT(len({fst(x) for x in xs})), ps, e.mem)]
                if k == 'clear':
                    return [(UNIT, ps, self.store(e, ref, T('hmap', ARR([]))))]
                if k == 'insert':
                    old = self.find(xs, a[1])
                    return [(SOME(snd(old)) if old else NONE, ps, self.put(e, ref, xs, a[1], a[2]))]
                if k == 'extend':
                    ys = exact(a[1])
                    return None if ys is None else [(UNIT, ps, self.store(e, ref, T('hmap', ARR(xs + ys))))]
                if k == 'entry':
                    return [(T('entry', e.raw[0], v, a[1]), ps, e.mem)]
                x = self.find(xs, a[1])
                if x is None:
                    return None
                if k == 'remove':
                    return [(SOME(snd(x)) if x else NONE, ps, self.store(e, ref, T('hmap', ARR([y for y in xs if fst(y) is not a[1]]))))]
                if k == 'contains_key':
                    return [(INT(int(bool(x))), ps, e.mem)]
                if k == 'index':
                    return [(snd(x), ps, e.mem)] if x else []
                if not x:
                    return [(NONE, ps, e.mem)]
                return [(SOME(x if k == 'get_key_value' else snd(x)), ps, e.mem)]
        return FsRule.on_call(self, ps, e)

    def put(self, e, ref, xs, k, v):
        while ref.k == 'ref' and e.eng.load(e.mem, ref.a[0], ref.a[1]).k == 'ref':
            ref = e.eng.load(e.mem, ref.a[0], ref.a[1])
        return self.store(e, ref, T('hmap', ARR(xs + [TUP(k, v)])))

KEYS = ('AKIAidKEY', 'AKIAIDKEY', 'AKIAidKEY ', 'akiaidkey', 'AKIAidKE')
def provider(ctx):
    """SimpleAuth answers what was registered: every sequence of registrations and every question over a few similar names"""
    f = ctx.facts
    new = ctx.body(r'auth::SimpleAuth::new$')
    reg = ctx.body(r'auth::SimpleAuth::register$')
    get = ctx.body(r'<auth::SimpleAuth as auth::S3Auth>::get_secret_access_key$')
    S = (9, 'self')
    for order in ((), (0,), (0, 1), (0, 1, 0), (2, 3), (1, 4, 1)):
        r = Store()
        e, outs = run_op(f, r, new, [])
        ctx.absorb(e)
        states = [{S: rv} for rv, m, ps in outs]
        now = {}
        for i, k in enumerate(order):
            now[KEYS[k]] = T('SECRET', INT(i))
            nxt = []
            for m in states:
                e, outs = run_op(f, r, reg, [REF(S), STR(KEYS[k]), now[KEYS[k]]], m)
                ctx.absorb(e)
                nxt += [{S: e.snap(m2, m2[S])} for rv, m2, ps in outs]
            states = nxt
        ctx.ob('keys can be registered', bool(states), 'register', 'register does not come back')
        for m in states:
            for k in KEYS:
                e, outs = run_op(f, r, get, [REF(S), STR(k)], m)
                ctx.absorb(e)
                want = now.get(k)
                for rv, m2, ps in outs:
                    for x in members(rv):
                        what = f'{len(order)} keys registered, asked for {"one of them" if want is not None else "another"}'
                        ok = is_ok(x) and x.a[2][0] is want if want is not None else is_err(x)
                        ctx.ob(what, ok, 'provider:' + ('wrong' if want is not None else 'unknown'),
                            f'the provider answers {show(x)[:160]} when asked for ' + ('a registered key' if want is not None else 'a key which was not registered'), trail=['auth::SimpleAuth'])

class Wire(FsRule):
    def __init__(self):
        FsRule.__init__(self)
        self.calls = []
    def enter(self, ps, body, args, eng, mem):
        p = body['path']
        if p.endswith('ops::setup_handlers'):
            return [(T('handlers'), ps)]
        if re.search(r'service::S3Service::handle$', p):
            self.calls.append(tuple(eng.snap(mem, a) for a in args))
            return [(T('pending-handle'), ps)]
        return None
    def await_other(self, ps, e, s):
        if s is T('pending-handle'):
            return [(OK(T('the-answer')), ps)]
        return FsRule.await_other(self, ps, e, s)

def body(ctx, rx):
    try:
        return ctx.body(rx)
    except Missing:
        return ctx.body(rx, kind='generic')

def service(ctx):
    """the service which handles requests has the storage and the provider which were given"""
    f = ctx.facts
    new = body(ctx, r'service::S3Service::new$')
    setauth = body(ctx, r'service::S3Service::set_auth$')
    shared = ctx.body(r'service::S3Service::into_shared$')
    call = ctx.body(r'<service::SharedS3Service as .*Service<.*>>::call$')
    clone = [b for b in f.find(r'<service::SharedS3Service as core::clone::Clone>::clone$') if b['local']]
    S = (9, 'self')
    for auths in ((), (T('AUTH-A'),), (T('AUTH-A'), T('AUTH-B'))):
        r = Wire()
        e, outs = run_op(f, r, new, [T('STORAGE')])
        ctx.absorb(e)
        vals = [e.snap(m, rv) for rv, m, ps in outs]
        for a in auths:
            nxt = []
            for v in vals:
                e, outs = run_op(f, r, setauth, [REF(S), a], {S: v})
                ctx.absorb(e)
                nxt += [e.snap(m, m[S]) for rv, m, ps in outs]
            vals = nxt
        for b in (shared,) + tuple(clone[:1]):
            nxt = []
            for v in vals:
                e, outs = run_op(f, r, b, [v] if b is shared else [REF(S)], {S: v})
                ctx.absorb(e)
                nxt += [e.snap(m, rv) for rv, m, ps in outs]
            vals = nxt
        ctx.ob('a service can be shared', bool(vals), 'shared', 'the service cannot be made')
        for v in vals:
            e, outs = run_op(f, r, call, [REF(S), T('REQ')], {S: v})
            ctx.absorb(e)
            ctx.ob('a request is answered', bool(outs), 'call', 'a request is not answered')
            for rv, m, ps in outs:
                for x in members(rv):
                    ctx.ob('the answer is that of the service', x is OK(T('the-answer')), 'answer', 'a request is answered with ' + show(x)[:150], trail=[call['path']])
        ctx.ob(f'{len(auths)} providers set: every request is handled by the service', bool(r.calls), 'handled', 'a request does not reach S3Service::handle')
        for c in r.calls:
            me = next(iter(find(c[0], lambda y: y.k == 'adt' and y.a[0] == 'service::S3Service')), c[0])
            fl = list(me.a[2]) if me.k == 'adt' else []
            ctx.ob('the service works on the storage given', T('STORAGE') in fl, 'storage', 'the service which handles requests has not the storage given: ' + show(me)[:200])
            held = [x for x in fl if x.k == 'adt' and x.a[0].endswith('Option')]
            want = SOME(auths[-1]) if auths else NONE
            ctx.ob('the service authenticates with the provider ' + ('set last' if auths else '(none was set)'), want in held and not any(x is not want and find(x, lambda y: y.k == 't' and y.a[0].startswith('AUTH')) for x in held), 'auth',
                'the service which handles requests holds ' + ', '.join(show(x)[:100] for x in held) + ' for ' + show(want), trail=[setauth['path'], call['path']])
            ctx.ob('the request is handed on', c[1] is T('REQ'), 'request', 'the service handles ' + show(c[1])[:150])

@prop('A10', 'interpretation of the provider over maps with known, similar keys (all registrations and questions), and of the construction of the service down to S3Service::handle: what handles a request holds the storage and the provider last set')
def a10(ctx):
    provider(ctx)
    service(ctx)

class Prog(FsRule):
    """main with the options given (ps unused)"""
    def __init__(self, facts, opts):
        FsRule.__init__(self)
        self.facts = facts
        self.opts = opts        # long name -> term or None
        self.served, self.bound, self.stores = [], [], []
        self.parsed = 0

    def option(self, name):
        return self.opts.get(name, T('OPT:' + name))

    def on_call(self, ps, e):
        p, a = e.path, e.args
        if p.endswith('StructOpt::from_args') or p.endswith('Parser::parse'):
            fc = [b for b in self.facts.find(r'(StructOpt|FromArgMatches)>::(from_clap|from_arg_matches)$') if b['krate'].endswith('bin')]
            if fc:
                out = []
                for rv, m, q in e.eng.run(fc[0], [T('MATCHES')], e.mem, ps, e.eng.sub(e.fr, 'args')):
                    out.append((e.eng.snap(m, rv), q, m))
                self.parsed += 1
                return out
        m = re.search(r'ArgMatches(?:::)?<.*>::(value_of|value_of_os|value_of_lossy|is_present|get_one|contains_id)$', p)
        if m and len(a) == 2 and a[1].k == 'str':
            v = self.option(a[1].a[0])
            if m.group(1) in ('is_present', 'contains_id'):
                return [(INT(int(v is not None)), ps)]
            return [(NONE if v is None else SOME(v), ps)]
        if re.search(r'<(.*)(String|PathBuf|OsString) as core::str::traits::FromStr>::from_str$|core::num::<impl core::str::traits::FromStr for \w+>::from_str$|str>::parse$', p) and a and (a[0] in self.opts.values() or a[0].k == 't' and a[0].a[0].startswith('OPT:')):
            return [(OK(a[0]), ps)]
        if p.endswith('Runtime::block_on') and len(a) == 2:
            out = []
            for rv, m, q in e.eng.poll(e.raw[1], e.mem, ps, e.eng.sub(e.fr, 'main'), ''):
                out.append((e.eng.project(m, rv, ('f', 0, '0')), q, m))
            return out
        if p.startswith(('hyper::', '<hyper::')) or '::serve' in p:
            for x in a:
                for y in find(x, lambda y: y.k == 't' and y.a[0].endswith('S3Service::into_shared')):
                    if (y, ps) not in self.served:
                        self.served.append((y, e.eng.trail()))
        if re.search(r'TcpListener::bind$|Server::<.*>::(try_)?bind$|Server::(try_)?bind$|TcpSocket::bind$', p):
            self.bound.append((a[-1], e.eng.trail()))
        if re.search(r's3_server::storages::fs::FileSystem::new$', p):
            self.stores.append((a[0], e.eng.trail()))
        return FsRule.on_call(self, ps, e)

def steps(v, base):
    """the calls made on a value since it was made by `base`, in order; None when not known"""
    if v.k == 't' and re.search(base, v.a[0]):
        return []
    if v.k == 'seq':
        s = steps(v.a[0], base)
        if s is None:
            return None
        for st in v.a[1]:
            if st[0] == '*':
                # a loop or a join: of one step it may have happened or not
                return None
            s.append(st)
        return s
    return None

class Cli(FsRule):
    pass

def options(ctx, f):
    """long option -> set of (method, argument) applied to it"""
    bs = [b for b in f.bodies.values() if b['local'] and b['krate'].endswith('bin') and b['kind'] == 'fn' and b['path'].endswith(('::augment_clap', '::clap'))]
    out = {}
    for b in bs:
        r = Cli()
        e, outs = run_op(f, r, b, [T('APP') for i in range(b['argc'])])
        ctx.absorb(e)
        for rv, m, ps in outs:
            for a in find(rv, lambda x: x.k == 't' and re.search(r'App::<.*>::arg$', x.a[0])):
                d, n = a.a[1][-1], 0
                calls = []
                while d.k == 't' and d.a[1] and n < 30:
                    calls.append((d.a[0].rsplit('::', 1)[1], d.a[1][-1]))
                    d, n = d.a[1][0], n + 1
                name = [x.a[0] for k, x in calls if k == 'with_name' and x.k == 'str']
                long = [x.a[0] for k, x in calls if k == 'long' and x.k == 'str']
                for nm in set(name):
                    out[nm] = (long, {(k, x.a[0]) for k, x in calls if x.k == 'str'})
    return out

AKEY, SKEY = T('ACCESS-KEY'), T('SECRET-KEY')
@prop('A11', 'interpretation of main with each of the four combinations of the key options: the service which is served, the provider it was given and the registrations of that provider; the declared options; the storage root and the address')
def a11(ctx):
    f = ctx.facts
    bs = [b for b in f.bodies.values() if b['local'] and b['krate'].endswith('bin') and b['path'] == 'main' and b['kind'] == 'fn']
    if not bs:
        raise Missing('main')
    opts = options(ctx, f)
    need = lambda a, b: ('requires', b) in opts.get(a, ((), ()))[1]
    for ak, sk in ((AKEY, SKEY), (None, None), (AKEY, None), (None, SKEY)):
        r = Prog(f, {'access-key': ak, 'secret-key': sk, 'fs-root': T('ROOT'), 'host': T('HOST'), 'port': T('PORT')})
        e, outs = run_op(f, r, bs[0], [])
        ctx.absorb(e)
        if not r.parsed:
            raise Missing('the options of main')
        tag = {(1, 1): 'both keys given', (0, 0): 'no key given', (1, 0): 'only the access key given', (0, 1): 'only the secret key given'}[(int(ak is not None), int(sk is not None))]
        if (ak is None) != (sk is None):
            fine = need(*(('access-key', 'secret-key') if ak is not None else ('secret-key', 'access-key')))
            ctx.ob(tag + ': the program refuses to start', fine or not r.served, 'one:' + tag, f'{tag}: the server is started, without authentication', trail=[bs[0]['path']])
            continue
        ctx.ob(tag + ': the server is started', bool(r.served), 'serve:' + tag, f'{tag}: nothing is served')
        for v, trail in r.served:
            s = steps(v.a[1][0], r'S3Service::new$')
            if s is None:
                ctx.ob(tag + ': the service is known', False, 'unknown:' + tag, f'{tag}: whether the service has a provider is not certain: ' + show(v)[:300], trail=trail)
                continue
            sets = [st for st in s if st[0].endswith('set_auth')]
            if ak is None:
                ctx.ob(tag + ': requests are not authenticated', not sets, 'anon', f'{tag}: a provider is set', trail=trail)
                continue
            ctx.ob(tag + ': the service which is served has a provider', bool(sets), 'set', f'{tag}: the service is served without a provider', trail=trail)
            for st in sets[-1:]:
                regs = steps(st[1][-1], r'SimpleAuth::new$|SimpleAuth as core::default::Default>::default$')
                good = regs is not None and [x[0].rsplit('::', 1)[-1] for x in regs] == ['register'] and tuple(regs[0][1][-2:]) == (ak, sk)
                ctx.ob(tag + ': the provider knows exactly the keys given', good, 'register', f'{tag}: the provider is ' + show(st[1][-1])[:250], trail=trail)
        for v, trail in r.bound:
            ctx.ob(tag + ': listens on the host and port given', contains(v, T('HOST')) and contains(v, T('PORT')), 'bind', f'{tag}: the server listens on ' + show(v)[:150], trail=trail)
        for v, trail in r.stores:
            ctx.ob(tag + ': serves the storage root given', v is T('ROOT'), 'root', f'{tag}: the storage root is ' + show(v)[:150], trail=trail)
        ctx.ob(tag + ': an address is bound and a storage opened', bool(r.bound and r.stores), 'none:' + tag, 'no address or storage')
    for n, d in (('fs-root', '.'), ('host', 'localhost'), ('port', '8014')):
        if n in opts:
            ctx.ob(f'--{n} is {d} unless given', ('default_value', d) in opts[n][1] and opts[n][0] == [n], 'default:' + n, f'the option {n} is declared as {sorted(opts[n][1])}')
    # the root which is served
    new = body(ctx, r'storages::fs::FileSystem::new$')
    r = FsRule()
    e, outs = run_op(f, r, new, [T('ROOT')])
    ctx.absorb(e)
    n = 0
    for rv, m, ps in outs:
        for x in members(rv):
            if is_ok(x):
                n += 1
                v = x.a[2][0]
                ok = v.k == 'adt' and any(rooted(y) for y in v.a[2])
                ctx.ob('the storage root is the directory given, as an absolute path without links and ..', ok, 'root-path', 'the root of the storage is ' + show(v)[:200], trail=[new['path']])
    ctx.ob('a storage can be opened', n > 0, 'root-none', 'FileSystem::new does not succeed')

def rooted(v):
    """the canonical path of ROOT (relative to the working directory)"""
    if v.k != 't' or not re.search(r'canonicalize|:canon|realpath', v.a[0]):
        w = v.a[1][0] if v.k == 't' and v.a[0] == '.Ok.0' and v.a[1] else None
        return w is not None and rooted(w)
    x = v.a[1][0]
    while x.k == 't' and re.search(r'join|absolute', x.a[0]) and x.a[1]:
        x = x.a[1][-1]
    return x is T('ROOT')

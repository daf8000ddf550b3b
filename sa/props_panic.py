"""D04: no request makes the server panic.

Every function a request can reach is interpreted (the service and its handlers with the request decided
lazily, then what those runs stand in for, with symbolic arguments).  A place which panics is fine when no
path reaches it; slicing, splitting and the like are fine when what the path has established implies the
precondition."""
from svcmodel import *
import props_dispatch as D
import re as _re
try:
    import re._parser as sre
except ImportError:
    import sre_parse as sre

# functions outside this crate which panic when their precondition fails
SLICE = _re.compile(r'::index(_mut)?$|::(split_at|split_at_mut|split_to|split_off|advance|drain|remove|swap_remove|insert|slice|truncate_front|copy_within|slice_ref|range|split_inclusive_at)$')
OTHER = _re.compile(r'(chrono|core::time|std::time|http)::.*::(ymd|yo|isoywd|and_hms|and_hms_(milli|micro|nano)|from_ymd|from_yo|from_hms|from_timestamp|timestamp|timestamp_millis|seconds|minutes|hours|days|weeks|milliseconds|from_static|from_secs_f32|from_secs_f64|with_second|east|west|single_unwrap)$'
                    r'|core::num::<impl [iu]\w+>::(abs|pow|rem_euclid|div_euclid|ilog\w*|isqrt|next_power_of_two)$|core::ops::arith::\w+::\w+$'
                    r'|::(copy_from_slice|clone_from_slice|chunks|chunks_exact|windows|step_by|swap|copy_to_slice|repeat|borrow_mut|block_on|get_u\d+\w*|get_i\d+\w*|from_utf8_lossy_owned|rotate_left|rotate_right|from_str_radix|from_digit|to_digit|with_capacity)$'
                    r'|<(chrono|std::time|core::time).* as core::ops::arith::\w+(<.*>)?>::\w+$')
HARMLESS = _re.compile(r'bytes::bytes::Bytes::copy_from_slice$|(HashMap|HashSet|BTreeMap|BTreeSet|IndexMap|HeaderMap|VecDeque).*::(insert|remove|drain|with_capacity|range)$|::with_capacity$')

def group_mandatory(pattern, idx):
    """the regular expression cannot match without capturing group idx (number or name)"""
    try:
        p = sre.parse(pattern)
    except Exception:
        return None
    if isinstance(idx, str):
        idx = p.state.groupdict.get(idx)
        if idx is None:
            return None
    def walk(seq):
        for op, av in seq:
            n = str(op)
            if n == 'SUBPATTERN':
                if av[0] == idx or walk(av[3]):
                    return True
            elif n in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
                if av[0] >= 1 and walk(av[2]):
                    return True
            elif n == 'ATOMIC_GROUP' and walk(av):
                return True
            elif n == 'BRANCH' and all(walk(x) for x in av[1]):
                return True
        return False
    return idx == 0 or walk(p)

def is_const(t):
    if t.k in ('int', 'str', 'bytes', 'fn', 'unit'):
        return True
    if t.k == 'arr':
        return all(is_const(x) for x in t.a[0])
    if t.k in ('adt', 'tup'):
        return all(is_const(x) for x in kids(t))
    if t.k == 'phi':
        return all(is_const(x) for x in t.a[0])
    if t.k == 't':
        return t.a[0].startswith('const:') or bool(t.a[1]) and not t.a[0].startswith('.') and all(is_const(x) for x in t.a[1])
    return False

# ---- linear reasoning on lengths ---------------------------------------------------------------------
LEN = _re.compile(r'(^len$|::len$|::remaining$|^strlen$)')
FIND = _re.compile(r'(memchr::\w*memchr\w*|memmem\w*|str>::r?find|iter::.*::r?position|slice::.*::(r?position))$')
POSIT = _re.compile(r'Memchr.*::next$|memchr.*Iterator>::next$')

def base(t):
    """a container without what has been done to it is another container; views of the same bytes are one"""
    while t.k == 't' and len(t.a[1]) == 1 and (t.a[0] in ('as_bytes', 'bytes', 'as_str') or VIEW.search(t.a[0])):
        t = t.a[1][0]
    return t
VIEW = _re.compile(r'core::convert::From<alloc::(vec::Vec|boxed::Box|string::String)<.*>::from$|::into_boxed_slice$|::into_boxed_str$|::freeze$')

def lenof(t):
    t = base(t)
    if t.k == 'str':
        return {}, len(t.a[0].encode())
    if t.k == 'bytes':
        return {}, len(t.a[0])
    if t.k == 'int':
        return {}, len(chr(t.a[0]).encode()) if 0 <= t.a[0] < 0xd800 else 1
    if t.k == 'arr':
        return {}, len(t.a[0])
    if t.k == 'seq':
        # what has been appended to it is still there
        b, steps = seq_parts(t)
        if all(st[0] != '*' and st[0].rsplit('::', 1)[-1] in ('extend_from_slice', 'push_str', 'push', 'put_slice') and len(st[1]) == 1 for st in steps):
            r = ({}, 0)
            for st in steps:
                r = add(r, ({}, 1) if st[0].endswith('push') else lenof(st[1][0]))
            if not (b.k == 't' and NEW.search(b.a[0])):
                r = add(r, lenof(b))
            return r
    return {T('len', t): 1}, 0
NEW = _re.compile(r'::(new|with_capacity|default)$')

def add(x, y, s=1):
    d = dict(x[0])
    for k, v in y[0].items():
        d[k] = d.get(k, 0) + s * v
        if not d[k]:
            del d[k]
    return d, x[1] + s * y[1]

FIRST = _re.compile(r'slice::<impl \[T\]>::(first|last)$|Vec.*::(first|last)$')

BSEARCH = _re.compile(r'slice::<impl \[T\]>::binary_search(_by|_by_key)?$|VecDeque::<.*>::binary_search(_by|_by_key)?$')

class Lin:
    def __init__(self, facts):
        """facts: [(term, truth)]"""
        self.ge = []        # linear forms known to be >= 0
        self.notunderstood = []
        self.seen = set()
        for t, v in facts:
            self.fact(t, v)

    def lin(self, t):
        """linear form of a usize term (opaque terms are variables)"""
        if t.k == 'int':
            return {}, t.a[0]
        if t.k == 't':
            n, a = t.a
            if LEN.search(n) and len(a) == 1:
                return lenof(a[0])
            if n in ('bin:Add', 'add', 'satadd', 'wrapadd') and len(a) == 2:
                return add(self.lin(a[0]), self.lin(a[1]))
            if n in ('bin:Sub', 'sub') and len(a) == 2:
                r = add(self.lin(a[0]), self.lin(a[1]), -1)
                if self.proves(r):
                    return r
        self.axioms(t)
        return {t: 1}, 0

    def axioms(self, t):
        if t in self.seen or t.k != 't':
            return
        self.seen.add(t)
        n, a = t.a
        if n == 'satsub' and len(a) == 2:
            x = self.lin(a[0])
            self.ge.append(add(x, ({t: 1}, 0), -1))
            self.ge.append(add(({t: 1}, 0), add(x, self.lin(a[1]), -1), -1))
        if n in ('.Some.0', '.0', '.1', '.Ok.0', '.Complete.0', '.Ok.0.Complete.0') and len(a) == 1:
            src = a[0]
            for _ in range(4):
                if src.k == 't' and src.a[0].startswith('.') and src.a[1]:
                    src = src.a[1][0]
            for s in members(src):
                if s.k != 't':
                    continue
                p = s.a[0][5:] if s.a[0].startswith('call:') else s.a[0]
                c = None
                if FIND.search(p):
                    c = s.a[1][0] if 'str>' in p or 'osition' in p or 'memmem' in p else s.a[1][-1]
                elif POSIT.search(p):
                    it = s.a[1][0]
                    while it.k not in ('t',) and kids(it):
                        it = list(kids(it))[0]
                    if it.k == 't' and it.a[1]:
                        c = it.a[1][-1]
                elif BSEARCH.search(p):
                    if n == '.Ok.0':
                        c = s.a[1][0]
                elif p.endswith('parse_headers'):
                    c = s.a[1][0]
                    self.ge.append(add(lenof(c), ({t: 1}, 0), -1))
                    continue
                if c is not None:
                    self.ge.append(add(add(lenof(c), ({t: 1}, 0), -1), ({}, 1), -1))
        if n in ('min', 'call:core::cmp::Ord::min') or n.endswith('::min'):
            for x in a:
                self.ge.append(add(self.lin(x), ({t: 1}, 0), -1))

    def fact(self, t, v):
        while t.k == 't' and t.a[0] == 'not':
            t, v = t.a[1][0], not v
        if t.k == 't' and len(t.a[1]) == 2:
            n, (x, y) = t.a[0], t.a[1]
            one = ({}, 1)
            if n in ('bin:Lt', 'lt', 'bin:Le', 'le', 'bin:Gt', 'gt', 'bin:Ge', 'ge'):
                op = n.replace('bin:', '').lower()
                if op in ('gt', 'ge'):
                    x, y, op = y, x, {'gt': 'lt', 'ge': 'le'}[op]
                lx, ly = self.lin(x), self.lin(y)
                if v:
                    self.ge.append(add(add(ly, lx, -1), one, -1) if op == 'lt' else add(ly, lx, -1))
                else:
                    self.ge.append(add(lx, ly, -1) if op == 'lt' else add(add(lx, ly, -1), one, -1))
                return
            if n in ('eq', 'bin:Eq', 'bin:Ne'):
                if n == 'bin:Ne':
                    v = not v
                if v:
                    for p, q in ((x, y), (y, x)):
                        if p.k == 't' and FIRST.search(p.a[0]) and len(p.a[1]) == 1 and q.k == 'adt' and q.a[0] == OPTION and q.a[1] == 1:
                            self.ge.append(add(lenof(p.a[1][0]), one, -1))
                            return
                    lx, ly = self.lin(x), self.lin(y)
                    self.ge += [add(lx, ly, -1), add(ly, lx, -1)]
                    # equal contents have equal lengths
                    if x.k != 'int' and y.k != 'int':
                        lx, ly = lenof(x), lenof(y)
                        self.ge += [add(lx, ly, -1), add(ly, lx, -1)]
                else:
                    for p, q in ((x, y), (y, x)):
                        if q.k == 'int' and q.a[0] == 0:
                            self.ge.append(add(self.lin(p), one, -1))
                return
            if _re.search(r'(starts_with|ends_with)$', n):
                if v:
                    self.ge.append(add(lenof(x), lenof(y), -1))
                return
            if n.endswith('is_char_boundary'):
                if v:
                    self.ge.append(add(lenof(x), self.lin(y), -1))
                return
        if t.k == 't' and n_empty(t):
            if not v:
                self.ge.append(add(lenof(t.a[1][0]), ({}, 1), -1))
            else:
                self.ge.append(add(({}, 0), lenof(t.a[1][0]), -1))
            return
        self.notunderstood.append(t)

    def proves(self, goal):
        """goal >= 0 follows (all variables are >= 0): Fourier-Motzkin on the negation"""
        d, c = goal
        if all(k >= 0 for k in d.values()) and c >= 0:
            return True
        # negation: -goal - 1 >= 0
        sysm = [add(({}, -1), goal, -1)] + self.ge
        vs = {k for f in sysm for k in f[0]}
        sysm += [({k: 1}, 0) for k in vs]
        for _ in range(len(vs)):
            cand = {}
            for f in sysm:
                for k, q in f[0].items():
                    p, n = cand.get(k, (0, 0))
                    cand[k] = (p + (q > 0), n + (q < 0))
            if not cand:
                break
            k = min(cand, key=lambda z: (cand[z][0] * cand[z][1], show(z)))
            pos = [f for f in sysm if f[0].get(k, 0) > 0]
            neg = [f for f in sysm if f[0].get(k, 0) < 0]
            rest = [f for f in sysm if not f[0].get(k, 0)]
            for p in pos:
                for q in neg:
                    a, b = p[0][k], -q[0][k]
                    r = add(({x: y * b for x, y in p[0].items()}, p[1] * b), ({x: y * a for x, y in q[0].items()}, q[1] * a))
                    rest.append(r)
            seen, sysm = set(), []
            for f in rest:
                key = (frozenset(f[0].items()), f[1])
                if key not in seen:
                    seen.add(key)
                    sysm.append(f)
            if any(not f[0] and f[1] < 0 for f in sysm):
                return True
            if len(sysm) > 400:
                return False
        return any(not f[0] and f[1] < 0 for f in sysm)

def n_empty(t):
    return t.a[0].endswith('is_empty') and len(t.a[1]) == 1

NCOPIED = T('ncopied')
# ---- collecting ----------------------------------------------------------------------------------------
MAXES = {'u8': 2 ** 8 - 1, 'u16': 2 ** 16 - 1, 'u32': 2 ** 32 - 1, 'u64': 2 ** 64 - 1, 'usize': 2 ** 64 - 1}
REGEXES = {}
def const_regexes(facts):
    """(function, pattern) of every regular expression made from a constant"""
    if id(facts) not in REGEXES:
        out = set()
        for b in facts.bodies.values():
            if not b['local']:
                continue
            loc = {}
            def const(o):
                if o[0] == 'k' and isinstance(o[1], dict) and isinstance(o[1].get('v'), list) and o[1]['v'][0] == 's':
                    return o[1]['v'][1]
                if o[0] in ('mv', 'cp') and len(o[1]) == 1:
                    return loc.get(o[1][0])
                return None
            for bb in b['blocks']:
                for st in bb['s']:
                    if st[0] == 'A' and len(st[1]) == 1:
                        rv = st[2]
                        v = None
                        if rv[0] == 'use':
                            v = const(rv[1])
                        elif rv[0] == 'ref' and rv[2][1:] in ([], ['*']):
                            v = loc.get(rv[2][0])
                        if v is not None:
                            loc[st[1][0]] = v
                t = bb['t']
                if t[0] == 'call' and t[1][0] == 'k' and isinstance(t[1][1], dict) and t[1][1].get('k') == 'fn' and t[1][1]['f']['p'].endswith('Regex::new'):
                    v = const(t[2][0])
                    out.add((b['path'], v))
        REGEXES[id(facts)] = out
    return REGEXES[id(facts)]

GET = _re.compile(r'(slice|str)::<impl .*>::get(_mut)?$')

class PanicMixin:
    """records the panicking places a run reaches and, when self.relevant is given, what the path knows there"""
    relevant = None
    def psetup(self):
        self.sites = {}         # key -> dict
        self.cutset = {}
        self.explicit = {}
        self.ascii = {}
        self.patterns = const_regexes(self.facts)

    def on_num(self, ps, name, a, eng, mem):
        if name == 'checked_add' and any(contains(x, NCOPIED) or x.k == 't' and _re.search(r'(^|::|:)len$', x.a[0]) for x in a):
            # the number of bytes copied or received in one request stays below 2^64
            return [(SOME(T('bin:Add', *a)), ps)]
        return None

    def site(self, kind, fn, args, b, line, eng, facts=None):
        key = (kind, fn, b['uid'], line, args)
        s = self.sites.setdefault(key, {'kind': kind, 'fn': fn, 'args': args, 'body': b, 'line': line, 'trail': eng.trail(), 'facts': set()})
        s['facts'].add(facts)

    def psub(self, ps):
        return None

    def overflow_type(self, eng):
        b, blk, l = eng.stack[-1]
        o = b['blocks'][blk]['t'][1]
        if o[0] in ('mv', 'cp'):
            m = _re.match(r'^\((\w+), bool\)$', self.facts.ty(b, b['locals'][o[1][0]]))
            return m.group(1) if m else ''
        return ''

    def on_panic(self, ps, what, ev):
        eng, b, l, mem, c = ev
        if what.startswith('assert:'):
            if what == 'assert:bounds' and c is not None:
                c = eng.snap(mem, c)
                if c.k != 'int':
                    self.site('bounds', what, (c,), b, l, eng, self.psub(ps))
                return
            if what.startswith('assert:overflow') and c is not None:
                ty = self.overflow_type(eng)
                for m in members(eng.snap(mem, c)):
                    if m.k == 't' and m.a[0] == 'overflow' and len(m.a[1]) == 3 and ty in MAXES:
                        self.site('arith', m.a[1][0].a[0] + ':' + ty, m.a[1][1:], b, l, eng, self.psub(ps))
                return
            if what.startswith('assert:misaligned') or what.startswith('assert:null'):
                return
        tr = eng.trail()
        self.explicit.setdefault((what, b['path'], l, tr[-1] if tr else ''), {'what': what, 'body': b, 'line': l, 'trail': tr, 'cond': None if c is None else eng.snap(mem, c)})

    def lemma(self, ps, e):
        p, a = e.path, e.args
        if _re.search(r'regex::(re_unicode::|regex::string::|re_bytes::)?Regex::new$', p) and a and a[0].k == 'str':
            if group_mandatory(a[0].a[0], 0) is not None:
                e.pure = True
                return [(OK(T('regex', a[0])), ps)]
        if _re.search(r'regex::.*Captures.*::(get|name)$', p) and len(a) == 2:
            rx = find(a[0], lambda x: x.k == 't' and x.a[0] == 'regex')
            for st in find(a[0], lambda x: x.k == 't' and x.a[0].startswith('static:')):
                pats = {q for q in self.patterns if q[0].startswith(st.a[0][7:] + '::')}
                if len(pats) == 1:
                    rx.append(T('regex', STR(next(iter(pats))[1])))
            i = a[1].a[0] if a[1].k in ('int', 'str') else None
            if i is not None and rx and all(group_mandatory(r.a[1][0].a[0], i) for r in rx):
                e.pure = True
                return [(SOME(T('group', a[0], a[1])), ps)]
        if _re.search(r'new_from_slice$', p) and 'mac' in p.lower():
            # HMAC takes keys of every length
            e.pure = True
            return [(OK(T('mac', *a)), ps)]
        if _re.search(r'(slice|str)::<impl .*>::get$', p) and len(a) == 2 and a[1].k == 'adt' and 'Range' in a[1].a[0] and contains(a[1], self.NREAD):
            # a read returns at most the length of its buffer
            e.pure = True
            return [(SOME(T('read-bytes', a[0])), ps)]
        if _re.search(r'core::str::(converts::)?from_utf8$|String::from_utf8$', p) and a and all(x.k in ('seq', 'mix') or x.k == 't' and NEW.search(x.a[0]) for x in members(a[0])):
            # a buffer filled byte by byte: the bytes are checked where they are appended
            ok = True
            for x in members(a[0]):
                if x.k == 'mix':
                    ok = ok and any(APPEND.search(str(q[1])) for q in atoms(x)) and any(NEW.search(str(q[1])) for q in atoms(x)) and not any(_re.search(r'memchr|split_at|slice::index', str(q[1])) for q in atoms(x))
                    continue
                b, steps = seq_parts(x)
                flat = [q for st in steps for q in (st[1] if st[0] == '*' else (st,))]
                ok = ok and b.k == 't' and NEW.search(b.a[0]) and all(APPEND.search(q[0]) for q in flat)
            if ok and fn_of(self.facts, e.body['path']):
                self.ascii[fn_of(self.facts, e.body['path'])['uid']] = 1
                e.pure = True
                return [(OK(T('ascii', a[0])), ps)]
        return None

    def watch(self, ps, e):
        p = e.path
        if not e.body or HARMLESS.search(p):
            return
        if SLICE.search(p):
            self.site('slice', p, tuple(e.args), e.body, int(e.loc.rsplit(':', 1)[1]), e.eng, self.psub(ps))
        elif OTHER.search(p):
            self.site('other', p, tuple(e.args), e.body, int(e.loc.rsplit(':', 1)[1]), e.eng, self.psub(ps))

    def on_call(self, ps, e):
        self.watch(ps, e)
        if self.relevant is not None and GET.search(e.path) and len(e.args) == 2 and base(e.args[0]) in self.relevant:
            c, i = e.args
            ends = list(i.a[2]) if i.k == 'adt' and i.a[0].rsplit('::', 1)[1] in ('RangeTo', 'RangeFrom') else [i] if i.k != 'adt' else []
            if len(ends) == 1:
                e.pure = True
                q = T('bin:Lt' if ends[0] is i else 'bin:Le', ends[0], T('len', base(c)))
                yes = {(q, True)} | ({(T('is_char_boundary', c, ends[0]), True)} if ends[0] is not i and 'str>' in e.path else set())
                no = set() if ends[0] is not i and 'str>' in e.path else {(q, False)}
                return [(SOME(T('got', c, i)), ps | frozenset(yes)), (NONE, ps | frozenset(no))]
        r = self.lemma(ps, e)
        if r is not None:
            return r
        return super().on_call(ps, e)

    def enter(self, ps, body, args, eng, mem):
        r = super().enter(ps, body, args, eng, mem)
        if r is not None:
            self.cutset[body['uid']] = body
        return r

class PDisp(PanicMixin, D.DispRule):
    def __init__(self, *a):
        D.DispRule.__init__(self, *a)
        self.psetup()

class PFn(PanicMixin, FsRule):
    """one function with symbolic arguments; ps: frozenset of (atom, truth) about the terms of interest"""
    init = frozenset()
    relevant = None
    def __init__(self, facts, cut=frozenset()):
        FsRule.__init__(self)
        self.facts = facts
        self.cut = cut
        self.psetup()

    def enter(self, ps, body, args, eng, mem):
        if body['uid'] in self.cut:
            sn = [eng.snap(mem, a) for a in args]
            rty = self.facts.ty(body, body['locals'][0])
            return [(T('call:' + body['path'], *sn), ps, eng.havoc(body['path'], args, sn, dict(mem), rty))]
        return super().enter(ps, body, args, eng, mem)
    def psub(self, ps):
        return ps
    def concerns(self, t):
        """the atom speaks of the length of a container or of a position of interest"""
        for x in t.a[1]:
            if base(x) in self.relevant or x.k == 't' and FIRST.search(x.a[0]) and base(x.a[1][0]) in self.relevant:
                return True
            for v in Lin(()).lin(x)[0]:
                if v in self.relevant or v.a[0] == 'len' and v.a[1][0] in self.relevant:
                    return True
        return False
    def branch(self, ps, v, eng, mem):
        t, pos = strip_not(v)
        if t.k == 't' and t.a[0] == 'eq' and NCOPIED in t.a[1] and any(x.k == 't' and LEN.search(x.a[0]) for x in t.a[1]):
            # a completed copy of bytes in memory has copied all of them
            return [(int(pos), ps)]
        if self.relevant is None or v.k != 't' or eng.sw_targets not in ([0], [1], [0, 1], None):
            return None
        t, pos = strip_not(v)
        if t.k != 't' or not self.concerns(t):
            return None
        out = []
        for n in (0, 1):
            val = bool(n) == pos
            if (t, not val) in ps:
                continue
            out.append((n, ps | {(t, val)}))
        return out

# ---- the functions a request can reach -------------------------------------------------------------------
def refs(body):
    """bodies mentioned by a body: functions called or named, closures made"""
    out = set()
    def go(x):
        if isinstance(x, dict):
            if x.get('k') == 'fn' and isinstance(x.get('f'), dict):
                i = x['f'].get('i')
                if i is not None:
                    out.add(i)
            for y in x.values():
                go(y)
        elif isinstance(x, list):
            if len(x) >= 4 and x[0] == 'agg' and x[1] in ('closure', 'coroutine', 'coroutine_closure') and isinstance(x[3], int):
                out.add(x[3])
            for y in x:
                go(y)
    go(body['blocks'])
    return {'%s:%s' % (body['uid'].rsplit(':', 1)[0], i) for i in out}

NOTREQ = _re.compile(r' as (core::fmt|std::fmt|core::default|core::clone|core::cmp|core::hash)|(^|::)tests?::|CALLSITE|::__|_tracing_attribute|^<.* as serde')

def reachable(facts, roots):
    seen, todo = set(), list(roots)
    memo = {}
    while todo:
        u = todo.pop()
        if u in seen or u not in facts.bodies:
            continue
        seen.add(u)
        todo += refs(facts.bodies[u])
    return seen

def lib(b):
    return b['local'] and b['krate'].endswith('lib') and not NOTREQ.search(b['path'])

def fn_of(facts, path):
    """the function a closure belongs to"""
    p = _re.sub(r'(::\{closure#\d+\})+$', '', path)
    bs = [b for b in facts.bodies.values() if b['local'] and b['path'] == p and b['kind'] == 'fn' and b['krate'].endswith('lib')]
    return bs[0] if bs else None

def alone(facts, b, relevant=None, cut=frozenset()):
    r = PFn(facts, cut)
    r.relevant = relevant
    args = [T('arg:%d' % i) for i in range(b['argc'])]
    if b['kind'] == 'fn':
        e, outs = run_op(facts, r, b, args, budget=60000 if relevant is not None else None)
    else:
        e = Engine(facts, r)
        e.stack.append((b, 0, 0))
        v = mk('clos', b['uid'], tuple(T('captured:%d' % i) for i in range(captures(facts, b))))
        for rv, m, p in e.apply_value(v, [T('arg:%d' % i) for i in range(1, b['argc'])], {}, r.init, 0):
            if any(q.k == 'clos' for q in members(rv)) or rv.k == 'adt' and rv.a[0].endswith('Pin'):
                e.poll(rv, m, p, e.sub(0, 'p'), '')
    return r, e

def captures(facts, b):
    n = [0]
    pre, i = b['uid'].rsplit(':', 1)
    def go(x):
        if isinstance(x, dict):
            for y in x.values():
                go(y)
        elif isinstance(x, list):
            if len(x) >= 4 and x[0] == 'agg' and str(x[3]) == i and isinstance(x[2], list):
                n[0] = max(n[0], len(x[2]))
            for y in x:
                go(y)
    for o in facts.bodies.values():
        if o['uid'].rsplit(':', 1)[0] == pre and o['local'] and b['path'].startswith(o['path']):
            go(o['blocks'])
    return n[0]

# ---- preconditions -----------------------------------------------------------------------------------------
def bytebound(lin, t):
    """a few facts about machine integers"""
    for x in find(t, lambda x: x.k == 't' and len(x.a[1]) == 2):
        n, (p, q) = x.a
        if n in ('bin:Shr', 'shr') and q.k == 'int' and q.a[0] < 8 and find(p, lambda z: z.k == 't' and z.a[0] == 'each'):
            lin.ge.append(({x: -1}, 255 >> q.a[0]))
        if n in ('bin:BitAnd', 'bitand'):
            for c in (p, q):
                if c.k == 'int' and c.a[0] >= 0:
                    lin.ge.append(({x: -1}, c.a[0]))
        if n in ('bin:Rem', 'rem') and q.k == 'int' and q.a[0] > 0:
            lin.ge.append(({x: -1}, q.a[0] - 1))

def goals(s, lin):
    """linear forms which must be >= 0, or None when the call always (never) panics"""
    p, a = s['fn'], s['args']
    if s['kind'] == 'bounds':
        t = a[0]
        if t.k == 'phi':
            out = []
            for x in t.a[0]:
                g = goals({**s, 'args': (x,)}, lin)
                if g is None:
                    return None
                out += g
            return out
        if t.k == 'int':
            return [] if t.a[0] else [({}, -1)]
        if t.k == 't' and t.a[0] in ('bin:Lt', 'lt'):
            x, y = t.a[1]
            return [add(add(lin.lin(y), lin.lin(x), -1), ({}, 1), -1)]
        return None
    if s['kind'] == 'arith':
        op, ty = p.split(':')
        x, y = lin.lin(a[0]), lin.lin(a[1])
        if op == 'Sub':
            return [add(x, y, -1)]
        if op == 'Add':
            # lengths and positions are far from the limit
            for k in list(x[0]) + list(y[0]):
                if k.k != 't':
                    continue
                if k.a[0] == 'len' or k.a[0].startswith('.') and find(k, lambda z: z.k == 't' and (FIND.search(z.a[0]) or POSIT.search(z.a[0]))) or FIND.search(k.a[0]) or 'memchr' in k.a[0] or k in (NCOPIED, FsRule.NREAD) or k.a[0] == 'each':
                    lin.ge.append(({k: -1}, 2 ** 40 if k.a[0] != 'each' else 255))
            return [add(({}, MAXES[ty]), add(x, y), -1)]
        return []
    n = p.rsplit('::', 1)[1]
    if n in ('index', 'index_mut') and len(a) == 2:
        i = a[1]
        ln = lenof(a[0])
        for x in (i.a[2] if i.k == 'adt' else (i,)):
            if FsRule.NREAD in members(x) and all(y == FsRule.NREAD or y == INT(0) for y in members(x)):
                # a read returns at most the length of its buffer
                lin.ge.append(add(ln, lin.lin(x), -1))
        if i.k == 'adt' and 'Range' in i.a[0]:
            f = [lin.lin(x) for x in i.a[2]]
            k = i.a[0].rsplit('::', 1)[1]
            if k == 'RangeFull':
                return []
            if k in ('RangeFrom', 'RangeTo'):
                return [add(ln, f[0], -1)]
            if k == 'RangeToInclusive':
                return [add(add(ln, f[0], -1), ({}, 1), -1)]
            if k == 'Range' and len(f) == 2:
                return [add(f[1], f[0], -1), add(ln, f[1], -1)]
            return None
        if 'HashMap' in p or 'BTreeMap' in p or 'HeaderMap' in p or 'Captures' in p:
            return None
        return [add(add(ln, lin.lin(i), -1), ({}, 1), -1)]
    if n in ('split_at', 'split_at_mut', 'split_to', 'split_off', 'advance') and len(a) == 2:
        return [add(lenof(a[0]), lin.lin(a[1]), -1)]
    if n in ('remove', 'swap_remove') and len(a) == 2:
        return [add(add(lenof(a[0]), lin.lin(a[1]), -1), ({}, 1), -1)]
    if n == 'insert' and len(a) == 3:
        return [add(lenof(a[0]), lin.lin(a[1]), -1)]
    if n == 'drain' and len(a) == 2 and a[1].k == 'adt' and a[1].a[0].endswith('RangeFull'):
        return []
    return None

def loopy(t):
    """the value changes from turn to turn (a join of finitely many plain values does not)"""
    return bool(find(t, lambda x: x.k == 'mix' or x.k == 'phi' and any(find(m, lambda y: y.k in ('phi', 'mix', 'seq')) for m in x.a[0])))

def interest(s):
    """the containers and the positions of a site"""
    out = set()
    def go(t, d):
        if t.k == 'int' or d > 12:
            return
        if t.k in ('adt', 'phi'):
            if t.k == 'phi':
                out.add(t)
            for c in kids(t):
                go(c, d + 1)
        elif t.k == 't' and (t.a[0] in ('bin:Add', 'bin:Sub', 'bin:Lt', 'bin:Mul', 'satadd', 'satsub', 'bin:Shr', 'bin:BitAnd') or LEN.search(t.a[0])):
            for c in t.a[1]:
                go(c, d + 1)
        elif not is_const(t):
            out.add(base(t))
    for a in s['args']:
        go(a, 0)
    return out

def first_of(args):
    """the arguments of the first turn of a loop when they hang on a single joined value"""
    ph = set()
    def go(t):
        if t.k == 'phi':
            ph.add(t)
        elif t.k != 'seq' or True:
            for c in kids(t):
                go(c)
    for a in args:
        go(a)
    if len(ph) != 1:
        return None
    p = next(iter(ph))
    c = [x for x in p.a[0] if not find(x, lambda y: y.k in ('seq', 'mix', 'phi'))]
    if len(c) != 1:
        return None
    def sub(t):
        if t is p:
            return c[0]
        if t.k == 't':
            return T(t.a[0], *[sub(x) for x in t.a[1]])
        if t.k == 'adt':
            return ADT(t.a[0], t.a[1], tuple(sub(x) for x in t.a[2]))
        return t
    if find(T('x', *args), lambda y: y.k in ('mix',)):
        return None
    return tuple(sub(a) for a in args)

def judge(s):
    """'proved', 'open' (the analysis cannot tell) or 'unguarded' with the reason, for one recorded site"""
    if len(s['args']) == 2 and s['args'][1].k == 'phi' and not loopy(s['args'][1]) and not any(contains(t, s['args'][1]) for q in s['facts'] for t, v in q or ()):
        # one of several positions: each must do
        js = {judge({**s, 'args': (s['args'][0], x)}) for x in s['args'][1].a[0]}
        return 'unguarded' if 'unguarded' in js else 'open' if 'open' in js else 'proved'
    if s['kind'] == 'arith' and sum(a.k == 'int' for a in s['args']) == 1:
        # one of several numbers, none of them tested, with a constant: each must do
        m = next(a for a in s['args'] if a.k != 'int')
        if m.k == 'phi' and not loopy(m) and not any(contains(t, x) for q in s['facts'] for t, v in q or () for x in (m,) + tuple(x for x in m.a[0] if x.k != 'int')):
            js = {judge({**s, 'args': tuple(x if a is m else a for a in s['args'])}) for x in m.a[0]}
            return 'unguarded' if 'unguarded' in js else 'open' if 'open' in js else 'proved'
    worst = 'proved'
    for facts in s['facts']:
        lin = Lin(facts or ())
        for a in s['args']:
            bytebound(lin, a)
        g = goals(s, lin)
        if g is None:
            return 'open' if facts else 'unguarded'
        if all(lin.proves(x) for x in g):
            if STRFN.search(s['fn']) and len(s['args']) >= 2 and not on_boundary(s, facts or ()):
                worst = 'unguarded' if not any(loopy(a) for a in s['args']) else ('open' if worst == 'proved' else worst)
            continue
        if len(s['args']) == 2 and s['args'][1].k == 'int' and facts and not lin.notunderstood and all(contains(t, s['args'][0]) or contains(t, base(s['args'][0])) for t, v in facts):
            # a fixed position in what has been tested, and the tests do not suffice
            worst = 'unguarded'
        elif any(loopy(a) for a in s['args']) or lin.notunderstood or any(loopy(k) for x in g for k in x[0]) or s['kind'] == 'arith' and any(find(a, lambda z: z.k == 'phi') for a in s['args']):
            # (numbers of several paths merged: which belong together is not known)
            worst = 'open' if worst == 'proved' else worst
        else:
            worst = 'unguarded'
    if worst == 'open' and any(loopy(a) for a in s['args']):
        fa = first_of(s['args'])
        if fa is not None:
            for facts in s['facts']:
                lin = Lin(facts or ())
                for a in fa:
                    bytebound(lin, a)
                g = goals({**s, 'args': fa}, lin)
                if g is None or lin.notunderstood or all(lin.proves(x) for x in g):
                    return worst
            return 'unguarded'
    return worst

STRFN = _re.compile(r'core::str::<impl str>::split_at|str::traits::.*(for str>|for alloc::string::String>)::index|alloc::string::String.*(index|split_off|drain|remove|insert)|<alloc::string::String as core::ops::index')
def on_boundary(s, facts):
    """positions in text: at the ends, behind a known prefix, where something has been found, or tested"""
    c, i = s['args'][0], s['args'][1]
    c = base(c)
    pos = list(i.a[2]) if i.k == 'adt' and 'Range' in i.a[0] else [i]
    if i.k == 'adt' and i.a[0].endswith(('RangeInclusive', 'RangeToInclusive')):
        return False
    def ok(x, d=0):
        if d > 6:
            return False
        if x.k == 'phi':
            return all(ok(y, d + 1) for y in x.a[0])
        if x.k == 'int':
            if x.a[0] == 0:
                return True
            return any(v and t.k == 't' and t.a[0].endswith('starts_with') and base(t.a[1][0]) is c and t.a[1][1].k in ('str', 'int') and lenof(t.a[1][1])[1] == x.a[0] for t, v in facts) or \
                x.a[0] == 1 and any(v and t.k == 't' and t.a[0] == 'eq' and any(p.k == 't' and FIRST.search(p.a[0]) and p.a[0].endswith('first') and base(p.a[1][0]) is c and q.k == 'adt' and q.a[1] == 1 and q.a[2][0].k == 'int' and q.a[2][0].a[0] < 128 for p, q in (t.a[1], t.a[1][::-1])) for t, v in facts) or \
                any(v and t.k == 't' and t.a[0].endswith('is_char_boundary') and base(t.a[1][0]) is c and t.a[1][1] is x for t, v in facts)
        if x.k != 't':
            return False
        n, a = x.a
        if any(v and t.k == 't' and t.a[0].endswith('is_char_boundary') and base(t.a[1][0]) is c and t.a[1][1] is x for t, v in facts):
            return True
        if LEN.search(n) and len(a) == 1:
            b = base(a[0])
            if b is c:
                return True
            return any(v and t.k == 't' and t.a[0].endswith('starts_with') and base(t.a[1][0]) is c and base(t.a[1][1]) is b for t, v in facts)
        if n in ('.Some.0', '.0'):
            return bool(find(x, lambda y: y.k == 't' and _re.search(r'(str>::r?find|memchr\w*|char_indices|match_indices|::r?position)$', y.a[0]) and any(contains(z, c) for z in y.a[1])))
        if n == 'bin:Add':
            # behind a character which has been found
            return any(ok(y, d + 1) for y in a if y.k != 'int') and all(y.k == 'int' and y.a[0] <= 1 or ok(y, d + 1) or y.k == 't' and LEN.search(y.a[0]) for y in a)
        if n in ('bin:Sub',):
            # an end without a known suffix
            return ok(a[0], d + 1) and any(v and t.k == 't' and t.a[0].endswith('ends_with') and base(t.a[1][0]) is c for t, v in facts)
        return n.endswith(('floor_char_boundary', 'ceil_char_boundary'))
    return all(ok(x) for x in pos)

CHRONO = _re.compile(r'chrono|core::time|std::time')
def other_ok(s):
    p, a = s['fn'], s['args']
    if all(is_const(x) for x in a):
        return True
    n = p.rsplit('::', 1)[1]
    if n == 'abs' and a and contains_call(a[0], r'TimeDelta::num_(seconds|minutes|hours|days|weeks)$'):
        return True      # far from i64::MIN
    if n in ('windows', 'chunks', 'chunks_exact', 'rchunks', 'step_by') and len(a) == 2 and a[1].k == 'int' and a[1].a[0] > 0:
        return True
    return False

def contains_call(t, rx):
    return bool(find(t, lambda x: x.k == 't' and _re.search(rx, x.a[0])))

# ---- bytes appended one by one ------------------------------------------------------------------------------
APPEND = _re.compile(r'::(push|extend_from_slice|push_str|extend|insert|append|write|write_all|write_str|insert_from_slice|put|put_slice|put_u8|resize)$')
from preds import StrPred, ALLB, NB
class AsciiRule(StrPred):
    """(function, argument): every byte of the argument which is appended as it is, is ASCII"""
    def __init__(self, x):
        StrPred.__init__(self, x)
        self.bad = {}
        self.n = 0
    def on_call(self, ps, e):
        if APPEND.search(e.path) and len(e.args) >= 2:
            for v in (m for a in e.args[1:] for m in members(a)):
                self.n += 1
                if v.k == 'int' and v.a[0] >= 128:
                    self.bad['the byte %d' % v.a[0]] = e.loc
                elif v.k == 'bytes' and any(c >= 128 for c in v.a[0]):
                    self.bad['bytes which are not ASCII'] = e.loc
                elif v is self.EACH:
                    m = ps[1] if ps[1] is not None else ALLB
                    if m >> 128:
                        self.bad['a byte of the argument which need not be ASCII'] = e.loc
                elif v is self.x or v.k == 't' and len(v.a[1]) == 1 and v.a[1][0] is self.x:
                    self.bad['the argument as it is'] = e.loc
        return StrPred.on_call(self, ps, e)

    def on_next(self, ps, *a):
        ps = StrPred.on_next(self, ps, *a)
        return (0,) + ps[1:]

def check_ascii(ctx, b):
    bad = {}
    for i in range(b['argc']):
        if not _re.search(r'str|\[u8\]|String', ctx.facts.ty(b, b['locals'][i + 1])):
            continue
        x = T('arg:%d' % i)
        r = AsciiRule(x)
        e = Engine(ctx.facts, r)
        e.run(b, [T('arg:%d' % j) for j in range(b['argc'])], {}, r.init, 0)
        bad.update(r.bad)
    return bad

@prop('D04', 'explicit panics (unwrap, expect, panic!, unreachable!, assert!) are never reached on any path of the service, its handlers, the storage operations and every other function a request reaches; '
             'the preconditions of slicing, indexing, splitting, advancing and of the panicking functions of chrono and std follow, in linear arithmetic over lengths and positions, from what the path has tested')
def d04(ctx):
    f = ctx.facts
    rules = []
    for auth in (True, False):
        r, e, outs = D.run_service(ctx, auth, PDisp(f))
        rules.append((r, 'service, %s authentication' % ('with' if auth else 'without')))
        seen = {}
        for ps, n, cv, trl in r.handled:
            seen.setdefault((n, bool(SvcRule.fact(r, ps, 'isform', ''))), {})[ps[:2]] = cv
        for (n, form), d in seen.items():
            for p0, cv in d.items():
                r0, e0, _ = D.run_handler(ctx, n, cv, p0 + ((),), PDisp(f))
                rules.append((r0, 'handler ' + n))
    # everything else a request can reach
    root = ctx.body(r'service::S3Service::handle$')
    roots = [root['uid']] + [b['uid'] for b in f.bodies.values() if lib(b) and b['kind'] == 'fn' and b['path'].startswith('<') and ' as ' in b['path']]
    R = reachable(f, roots)
    need = [f.bodies[u] for u in sorted(R, key=str) if lib(f.bodies[u]) and f.bodies[u]['kind'] in ('fn', 'closure', 'coroutine')]
    done = set(ctx.functions)
    cut = {root['uid']}
    inner = {}
    for b in need:
        o = fn_of(f, b['path'])
        if o is not None:
            inner.setdefault(o['uid'], []).append(b)
    tried = set()
    def isleft(b):
        mine = inner.get(b['uid'], [b])
        return b['uid'] not in tried and any(c['path'] not in done for c in mine if c['path'] not in insvc) and not (b['path'] in insvc and (len(mine) == 1 or any(c['path'] in insvc for c in mine if c is not b)))
    insvc = set(ctx.functions)
    left = [b for b in need if b['kind'] == 'fn' and isleft(b) and ' as ops::S3Handler>' not in b['path']]
    RF = {b['uid']: reachable(f, [b['uid']]) - {b['uid']} for b in left}
    while True:
        left = [b for b in left if isleft(b)]
        if not left:
            break
        top = [b for b in left if not any(b['uid'] in RF[c['uid']] for c in left if c is not b and c['uid'] not in RF[b['uid']])] or left[:1]
        for b in top:
            if isleft(b):
                tried.add(b['uid'])
                r, e = alone(f, b, cut=cut)
                ctx.absorb(e)
                done |= ctx.functions | {b['path']}
                rules.append((r, b['path']))
    # asynchronous code handed to code outside the crate: run the closure which makes it
    for b in need:
        if b['kind'] != 'coroutine' or b['path'] in done:
            continue
        p = _re.sub(r'::\{closure#\d+\}$', '', b['path'])
        for c in need:
            if c['path'] == p and c['kind'] == 'closure':
                r, e = alone(f, c, cut=cut)
                ctx.absorb(e)
                done |= ctx.functions
                rules.append((r, c['path']))
    # closures which only report an impossible failure stay unused
    need = [b for b in need if b['kind'] != 'closure' or b['path'] in done]
    ctx.assume.append('functions interpreted on their own with arbitrary arguments: %d of %d reachable bodies are covered' % (sum(b['path'] in done for b in need), len(need)))
    for b in need:
        ctx.ob('%s is analysed' % b['path'], b['path'] in done, 'not-analysed:' + b['path'], 'the analysis did not reach %s' % b['path'])
    for p, rx in sorted(const_regexes(f), key=str):
        ctx.ob('the regular expression of %s is constant and well-formed' % p, rx is not None and group_mandatory(rx, 0) is not None, 'regex:' + p,
               'the regular expression %r of %s may not compile' % (rx, p))
    for r, name in rules:
        for k, x in r.explicit.items():
            ctx.violate('panic:%s:%s' % (x['what'], x['body']['path'] if x['body']['local'] else (x['trail'] or ['?'])[-1].split('@')[0]), 'a request can reach this panic (%s)' % x['what'].split(':', 1)[1], (x['trail'] or ['?@' + str(x['line'])])[-1].split('@')[1], x['trail'])
        ctx.ob('no explicit panic is reachable: ' + name, not r.explicit, 'panics:' + name) if not r.explicit else None
    for u in sorted({u for r, _ in rules for u in r.ascii}, key=str):
        bad = check_ascii(ctx, f.bodies[u])
        ctx.ob('%s makes text out of ASCII bytes only' % f.bodies[u]['path'], not bad, 'utf8:' + f.bodies[u]['path'],
               '%s appends %s to a buffer and panics when the buffer is not UTF-8' % (f.bodies[u]['path'], ', '.join(sorted(bad))), next(iter(bad.values()), ''))
    import props_forms
    exact_fns = props_forms.stream_panics(ctx)
    ctx.assume.append('places in the two stream parsers which the linear arithmetic does not settle are settled by the exact interpretation of the bodies listed')
    sites = {}
    for r, name in rules:
        for s in r.sites.values():
            sites.setdefault((s['kind'], s['fn'], s['body']['path'], s['line']), []).append(s)
    opened = 0
    ctx.heavy = {fn_of(f, k[2])['uid'] for k in sites if fn_of(f, k[2]) is not None}
    for (kind, fn, path, line), ss in sorted(sites.items()):
        at = '%s:%d' % (ss[0]['body']['file'], line)
        what = '%s in %s' % ({'bounds': 'array index', 'arith': 'arithmetic (%s)' % fn}.get(kind) or fn.rsplit('::', 1)[-1], path)
        if kind == 'other':
            bad = [s for s in ss if not other_ok(s)]
            ctx.ob(what + ': cannot fail', not bad, 'call:%s:%s' % (fn, path), '%s panics on some values and its operand comes from the request: %s' % (fn, ', '.join(show(a)[:80] for a in (bad or ss)[0]['args'])), at, ss[0]['trail'])
            continue
        verdicts = site_verdict(ctx, kind, fn, path, line, ss)
        if verdicts and path in exact_fns and 'unguarded' in verdicts:
            verdicts = ['open']
        if verdicts is None or 'open' in verdicts:
            opened += 1
        ctx.ob(what + ': within bounds', verdicts is None or 'unguarded' not in verdicts, 'bounds:%s:%s' % (fn.rsplit('::', 1)[-1], path),
               '%s at %s: nothing on the path keeps it within bounds' % (fn, at), at, ss[0]['trail'])
    ctx.assume.append('sites inside loops whose bound is only shown for the first turn: %d of %d' % (opened, len(sites)))

def site_verdict(ctx, kind, fn, path, line, ss):
    f = ctx.facts
    up = []
    heavy = ctx.heavy
    for s in ss:
        for x in reversed(s['trail']):
            b = fn_of(f, x.split('@')[0])
            if b is not None and b not in up:
                up.append(b)
            if len(up) >= 4:
                break
    own = fn_of(f, path)
    if own is not None:
        up = [own] + [b for b in up if b is not own]
    up = [b for b in f.bodies.values() if b['local'] and b['path'] == path and b['kind'] == 'closure' and b['krate'].endswith('lib')][:1] + up
    vs = None
    limited = False
    chain = set()
    for b in up[:5]:
        chain.add(b['uid'])
        cut = frozenset(heavy - chain)
        pick = lambda r: [s for s in r.sites.values() if s['body']['path'] == path and s['line'] == line and s['fn'] == fn]
        try:
            mine = pick(alone(f, b, cut=cut)[0])
            if not mine:
                continue
            if all(judge(s) == 'proved' for s in mine):
                return ['proved']       # whatever the path knows
            rel = asked = set().union(*[interest(s) for s in mine])
            for _ in range(2):
                asked = set(rel)
                mine = pick(alone(f, b, asked, cut)[0])
                more = set().union(*[interest(s) for s in mine]) if mine else set()
                if more <= rel:
                    break
                rel |= more
        except Limit:
            if vs is None:
                return None
            limited = True      # what a caller knows has not been found out
            continue
        own = vs is None
        # what the path knew about a value nobody had asked about is unknown
        now = sorted({'open' if j == 'unguarded' and not interest(s) <= asked else j for s, j in ((s, judge(s)) for s in mine)})
        if 'unguarded' not in now:
            return now
        if own:
            vs = now
    return sorted({'open' if limited and v == 'unguarded' else v for v in vs}) if vs else vs

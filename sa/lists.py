"""Exact interpretation of code over lists of known length.

Lists are arrays of symbolic elements; iterators, adaptors, sorting and joining are evaluated element by element and
paths are never merged, so the result is a closed term over the elements.  Anything not known stays an opaque call
and shows up in the result."""
from core import *

NEWL = re.compile(r'^call:(?:alloc::vec::Vec::<.*>|smallvec::SmallVec::<.*>|alloc::collections::\w+::\w+::<.*>|alloc::string::String|bytes::\w+::\w+)::(?:new|with_capacity)$|^call:<.* as core::default::Default>::default$|^default$')
SORT = re.compile(r'::sort(_unstable)?$')

def exact(v):
    """elements of a list of known length, or None"""
    if v.k == 'arr':
        return list(v.a[0])
    if v.k == 'bytes':
        return [INT(x) for x in v.a[0]]
    if v.k == 't':
        if NEWL.match(v.a[0]):
            return []
        if v.a[0] == 'iter' and len(v.a[1]) == 3:
            x = exact(v.a[1][0])
            return None if x is None else x[v.a[1][1].a[0]:v.a[1][2].a[0]]
        if v.a[0] == 'iter' and len(v.a[1]) == 1:
            return exact(v.a[1][0])
        if v.a[0].startswith('.') and len(v.a[1]) == 1 and v.a[1][0].k == 'arr':
            return exact(v.a[1][0])      # a container which is modelled by its list
    if v.k == 'adt' and re.match(r'^core::option::(IntoIter|Iter)$', v.a[0]):
        while v.k == 'adt' and v.a[0] != OPTION and len(v.a[2]) == 1:
            v = v.a[2][0]
        return option(v)
    if v.k == 'seq':
        xs = exact(v.a[0])
        if xs is None:
            return None
        for st in v.a[1]:
            op = st[0]
            if op == '*':
                return None
            if re.search(r'::(push|push_back)$', op):
                xs.append(st[1][-1])
            elif re.search(r'::(push_front)$', op):
                xs.insert(0, st[1][-1])
            elif re.search(r'::(extend|append|extend_from_slice)$', op) or op.endswith('Extend>::extend'):
                y = exact(st[1][-1])
                if y is None:
                    return None
                xs += y
            elif SORT.search(op):
                xs = sort(xs)
            elif re.search(r'::reverse$', op):
                xs.reverse()
            elif re.search(r'::(reserve|shrink_to_fit)$', op):
                pass
            elif re.search(r'::clear$', op):
                xs = []
            else:
                return None
        return xs
    return None

def span(v):
    """numbers of a range with known ends"""
    if v.k == 'adt' and re.search(r'range::Range(Inclusive)?$', v.a[0]) and len(v.a[2]) >= 2 and all(x.k == 'int' for x in v.a[2][:2]):
        lo, hi = v.a[2][0].a[0], v.a[2][1].a[0]
        return [INT(i) for i in range(lo, hi + v.a[0].endswith('Inclusive'))] if hi - lo < 1000 else None
    return None

def option(v):
    """the elements of an Option"""
    if v.k == 'adt' and v.a[0] == OPTION:
        return [v.a[2][0]] if v.a[1] else []
    return None

def sort(xs):
    if len(xs) < 2:
        return xs
    src = T('sorted', *sorted(xs, key=lambda x: x.uid))
    return [T('nth', src, INT(i)) for i in range(len(xs))]

def ARR(xs): return mk('arr', tuple(xs))
def ITER(xs): return T('iter', ARR(xs), INT(0), INT(len(xs)))

LISTFN = re.compile(r"^<?(?:&(?:'\w+ )?(?:mut )?)?" r'(?:core|alloc|std|smallvec|I as core|bytes|itertools).*::(map|filter|filter_map|collect|enumerate|for_each|try_for_each|try_fold|fold|any|all|rev|skip|take|chain|zip|count|next|next_back|last|into_iter|copied|cloned|peekable|flat_map|flatten|inspect|len|from_iter|nth|'
                    r'iter|iter_mut|first|split_first|split_last|get|is_empty|join|concat|to_vec|as_slice|as_ref|drain|into_vec|contains|find|position|rposition|find_map|retain|as_mut_slice|into_boxed_slice|pop|sort|sort_unstable|reverse|extend_from_slice)$')

class Exact(FsRule):
    exact = True
    stands_for_any = False      # the lists stand for lists of any length: what depends on their length is left open
    def on_call(self, ps, e):
        r = self.lists(ps, e)
        if r is not None:
            return r
        r = self.text(ps, e)
        if r is not None:
            return r
        return self.special(ps, e)

    def special(self, ps, e):
        return None

    def text(self, ps, e):
        p, a = e.path, e.args
        one = lambda v: [(v, ps, e.mem)]
        if re.search(r'str::<impl str>::trim$', p):
            return one(T('trim', a[0]))
        if p.endswith('method::Method::as_str') or p.endswith('Method as core::convert::AsRef<str>>::as_ref'):
            return one(T('disp', a[0]))
        if p.endswith('::eq_ignore_ascii_case') and a[0].k == 'str' and a[1].k == 'str':
            return one(INT(int(a[0].a[0].lower() == a[1].a[0].lower())))
        if re.search(r'str::<impl str>::(starts_with|ends_with|contains)$', p) and a[0].k == 'str' and a[1].k == 'str':
            x, y = a[0].a[0], a[1].a[0]
            return one(INT(int({'s': x.startswith(y), 'e': x.endswith(y), 'c': y in x}[p.rsplit('::', 1)[1][0]])))
        if re.search(r'str::converts::(from_utf8|from_utf8_unchecked|from_utf8_mut)$|String::(from_utf8|from_utf8_unchecked)$|str::<impl str>::from_utf8(_unchecked)?$', p):
            return one(a[0] if p.endswith('unchecked') else OK(a[0]))
        if p.endswith('String::from_utf8_lossy'):
            return one(a[0])
        if re.search(r'str::<impl str>::(len|is_empty)$|String::(len|is_empty)$', p) and a[0].k == 'str':
            n = len(a[0].a[0].encode())
            return one(INT(n if p.endswith('len') else int(n == 0)))
        if re.search(r'str::<impl str>::(bytes|as_bytes)$|String::as_bytes$', p) or p.endswith('String::into_bytes'):
            if a[0].k == 'arr':
                return one(ITER(a[0].a[0]) if p.endswith('::bytes') else a[0])
        if re.search(r'<u?(8|16|32|64|size) as core::convert::From<.*>>::from$|<[iu]\w+ as core::convert::From<u\d+>>::from$|<char as core::convert::From<u8>>::from$|<impl core::convert::From<u8> for (char|u\d+|usize|i\d+)>::from$', p) and a and a[0].k == 'int':
            return one(a[0])
        return None

    def target(self, e, i=0):
        """(ref, value) of a mutable argument"""
        r, v, n = None, e.raw[i], 0
        while v.k == 'ref' and n < 8:
            r, v, n = v, e.eng.load(e.mem, v.a[0], v.a[1]), n + 1
        return r, v

    def fold(self, ps, e, clos, xs, step):
        """apply a closure to the elements in turn; step(acc, element, result, ps, mem) -> [(acc, ps, mem, go on?)]"""
        cur = [([], ps, e.mem)]
        done = []
        for i, x in enumerate(xs):
            nxt = []
            for acc, p0, m0 in cur:
                for rv, m, p in e.eng.apply_value(clos, [x], m0, p0, e.eng.sub(e.eng.frame_id(0, e.stack[-1][0], e.stack[-1][1]), ('it', len(e.stack), i))):
                    rv = e.eng.snap(m, rv)
                    for acc2, p2, m2, go in step(acc, x, rv, p, m):
                        (nxt if go else done).append((acc2, p2, m2))
            cur = nxt
            if len(cur) > 5000:
                raise Limit('paths')
        return done, cur

    def bools(self, e, v, p, m):
        return e.eng.truth(v, p, m)

    def lists(self, ps, e):
        m = LISTFN.match(e.path)
        if not m or not e.args:
            return None
        n = m.group(1)
        if n == 'from_iter':
            n = 'collect'
        xs = exact(e.args[0])
        if xs is None:
            xs = span(e.args[0])
        if xs is None:
            return None
        one = lambda v, mem=None: [(v, ps, e.mem if mem is None else mem)]
        put = lambda ref, v: self.store(e, ref, v)
        if self.stands_for_any and xs:
            if n in ('len', 'count'):
                return one(T('len', ARR(xs)))
            if n == 'enumerate':
                return one(ITER([TUP(T('idx', INT(i)), x) for i, x in enumerate(xs)]))
            if n in ('take', 'skip'):
                return one(ITER(xs)) + one(ITER(xs[:-1] if n == 'take' else xs[1:]))
        if n in ('iter', 'into_iter', 'copied', 'cloned', 'peekable', 'iter_mut'):
            if n == 'iter_mut' or n == 'into_iter' and re.match(r"^<&('\w+ )?mut ", e.path):
                ref, v = self.target(e)
                if ref is None:
                    return None
                return one(ITER([REF(ref.a[0], ref.a[1] + (('ci', i, 0, False),)) for i in range(len(xs))]), put(ref, ARR(exact(v) or xs)))
            return one(ITER(xs))
        if n in ('next', 'next_back', 'nth', 'pop'):
            ref, v = self.target(e)
            if ref is None or n == 'nth':
                return None
            if not xs:
                return one(NONE)
            raw = exact(v)
            if raw is not None and len(raw) == len(xs):
                xs = raw            # references to the elements stay references
            if n == 'next':
                return one(SOME(xs[0]), put(ref, ITER(xs[1:])))
            return one(SOME(xs[-1]), put(ref, ITER(xs[:-1]) if n == 'next_back' else ARR(xs[:-1])))
        if n in ('sort', 'sort_unstable', 'reverse'):
            ref, v = self.target(e)
            return None if ref is None else one(UNIT, put(ref, ARR(sort(xs) if n != 'reverse' else xs[::-1])))
        if n in ('drain',):
            ref, v = self.target(e)
            if ref is None or not e.args[1].k == 'adt' or 'RangeFull' not in e.args[1].a[0]:
                return None
            return one(ITER(xs), put(ref, ARR([])))
        if n in ('len', 'count'):
            return one(INT(len(xs)))
        if n == 'is_empty':
            return one(INT(int(not xs)))
        if n in ('first', 'last'):
            return one(SOME(xs[0 if n == 'first' else -1]) if xs else NONE)
        if n == 'get' and e.args[1].k == 'int':
            i = e.args[1].a[0]
            return one(SOME(xs[i]) if i < len(xs) else NONE)
        if n in ('split_first', 'split_last'):
            if not xs:
                return one(NONE)
            return one(SOME(TUP(xs[0], ARR(xs[1:])) if n == 'split_first' else TUP(xs[-1], ARR(xs[:-1]))))
        if n in ('to_vec', 'as_slice', 'as_ref', 'into_vec', 'as_mut_slice', 'into_boxed_slice'):
            return one(ARR(xs))
        if n == 'rev':
            return one(ITER(xs[::-1]))
        if n == 'enumerate':
            return one(ITER([TUP(INT(i), x) for i, x in enumerate(xs)]))
        if n in ('skip', 'take') and e.args[1].k == 'int':
            k = e.args[1].a[0]
            return one(ITER(xs[k:] if n == 'skip' else xs[:k]))
        if n in ('chain', 'zip'):
            ys = exact(e.args[1])
            if ys is None:
                return None
            return one(ITER(xs + ys if n == 'chain' else [TUP(a, b) for a, b in zip(xs, ys)]))
        if n == 'flatten':
            out = []
            for x in xs:
                y = exact(x)
                if y is None:
                    y = option(x)
                if y is None:
                    return None
                out += y
            return one(ITER(out))
        if n in ('join', 'concat'):
            sep = e.args[1] if n == 'join' else STR('')
            if 'String' in e.rty or 'Output' in e.rty:
                out = []
                for i, x in enumerate(xs):
                    out += ([sep] if i and sep is not STR('') else []) + [x]
                return one(T('parts', *out))
            return None
        if n == 'collect':
            if re.match(r'^(alloc|std)::string::String$', e.rty):
                return one(T('parts', *xs))
            if re.match(r'^(alloc::vec::Vec|smallvec::SmallVec|alloc::boxed::Box<\[|std::vec::Vec)', e.rty):
                return one(ARR(xs))
            if re.match(r'^core::(result::Result|option::Option)<(alloc::vec::Vec|smallvec::SmallVec)', e.rty):
                if all(is_ok(x) or x.k == 'adt' and x.a[0] == OPTION and x.a[1] == 1 for x in xs):
                    pass
                elif all(x.k == 'adt' and x.a[0] in (OPTION, RESULT) for x in xs):
                    # the first failure is the result
                    return one(next(x for x in xs if is_err(x) or x is NONE))
                else:
                    return None
                if True:
                    return one(mk('adt', xs[0].a[0], xs[0].a[1], (ARR([x.a[2][0] for x in xs]),)) if xs else (OK if 'result' in e.rty else SOME)(ARR([])))
            return None
        if n in ('try_for_each', 'try_fold'):
            k = 1 if n == 'try_fold' else 0
            cur, done = [(e.raw[1] if k else UNIT, ps, e.mem)], []
            for i, x in enumerate(xs):
                nxt = []
                for acc, p0, m0 in cur:
                    for rv, m2, p in e.eng.apply_value(e.raw[1 + k], [acc, x] if k else [x], m0, p0, e.eng.sub(e.eng.frame_id(0, e.stack[-1][0], e.stack[-1][1]), ('it', len(e.stack), i))):
                        for y in members(rv):
                            if is_ok(y) or y.k == 'adt' and y.a[0] == OPTION and y.a[1] == 1:
                                nxt.append((y.a[2][0], p, m2))
                            elif is_err(y) or y is NONE:
                                done.append((y, p, m2))
                            else:
                                raise Limit(n + ' of ' + show(y)[:80])
                cur = nxt
                if len(cur) > 5000:
                    raise Limit('paths')
            wrap = SOME if 'option::Option' in e.rty else OK
            return done + [(wrap(acc), p, m2) for acc, p, m2 in cur]
        if n == 'fold':
            cur = [(e.raw[1], ps, e.mem)]
            for i, x in enumerate(xs):
                nxt = []
                for acc, p0, m0 in cur:
                    for rv, m2, p in e.eng.apply_value(e.raw[2], [acc, x], m0, p0, e.eng.sub(e.eng.frame_id(0, e.stack[-1][0], e.stack[-1][1]), ('it', len(e.stack), i))):
                        nxt.append((rv, p, m2))
                cur = nxt
            return cur
        clos = e.raw[1] if len(e.raw) > 1 else None
        if n == 'map':
            _, out = self.fold(ps, e, clos, xs, lambda acc, x, rv, p, m: [(acc + [rv], p, m, True)])
            return [(ITER(acc), p, m) for acc, p, m in out]
        if n == 'flat_map':
            def step(acc, x, rv, p, m):
                y = exact(rv)
                if y is None: raise Limit('flat_map')
                return [(acc + y, p, m, True)]
            _, out = self.fold(ps, e, clos, xs, step)
            return [(ITER(acc), p, m) for acc, p, m in out]
        if n in ('for_each', 'inspect'):
            _, out = self.fold(ps, e, clos, xs, lambda acc, x, rv, p, m: [(acc, p, m, True)])
            return [(UNIT if n == 'for_each' else ITER(xs), p, m) for acc, p, m in out]
        if n == 'filter':
            _, out = self.fold(ps, e, clos, xs, lambda acc, x, rv, p, m: [(acc + [x] if v else acc, p2, m, True) for v, p2 in self.bools(e, rv, p, m)])
            return [(ITER(acc), p, m) for acc, p, m in out]
        if n == 'filter_map':
            def step(acc, x, rv, p, m):
                res = []
                for y in members(rv):
                    if y is NONE: res.append((acc, p, m, True))
                    elif y.k == 'adt' and y.a[0] == OPTION: res.append((acc + [y.a[2][0]], p, m, True))
                    else: raise Limit('filter_map of ' + show(y)[:80])
                return res
            _, out = self.fold(ps, e, clos, xs, step)
            return [(ITER(acc), p, m) for acc, p, m in out]
        if n in ('any', 'all'):
            hit = n == 'any'
            done, out = self.fold(ps, e, clos, xs, lambda acc, x, rv, p, m: [(INT(int(hit)), p2, m, False) if bool(v) == hit else (acc, p2, m, True) for v, p2 in self.bools(e, rv, p, m)])
            return done + [(INT(int(not hit)), p, m) for acc, p, m in out]
        if n in ('find', 'position', 'rposition'):
            if self.stands_for_any:
                return None
            val = lambda i: SOME(xs[i] if n == 'find' else INT(i))
            order = range(len(xs)) if n != 'rposition' else range(len(xs) - 1, -1, -1)
            done, out = self.fold(ps, e, clos, [xs[i] for i in order],
                lambda acc, x, rv, p, m: [(val(order[len(acc)]), p2, m, False) if v else (acc + [0], p2, m, True) for v, p2 in self.bools(e, rv, p, m)])
            return done + [(NONE, p, m) for acc, p, m in out]
        if n == 'find_map':
            if self.stands_for_any:
                return None
            def step(acc, x, rv, p, m):
                res = []
                for y in members(rv):
                    if y is NONE: res.append((acc, p, m, True))
                    elif y.k == 'adt' and y.a[0] == OPTION: res.append((y, p, m, False))
                    else: raise Limit('find_map of ' + show(y)[:80])
                return res
            done, out = self.fold(ps, e, clos, xs, step)
            return done + [(NONE, p, m) for acc, p, m in out]
        if n == 'retain':
            ref, v = self.target(e)
            if ref is None or self.stands_for_any:
                return None
            _, out = self.fold(ps, e, clos, xs, lambda acc, x, rv, p, m: [(acc + [x] if v else acc, p2, m, True) for v, p2 in self.bools(e, rv, p, m)])
            return [(UNIT, p, self.store(type('E', (), {'mem': m, 'eng': e.eng})(), ref, ARR(acc))) for acc, p, m in out]
        if n == 'contains':
            cur, done = [ps], []
            for x in xs:
                nxt = []
                for p0 in cur:
                    for v, p2 in e.eng.truth(e.eng.eq(x, e.args[1]), p0, e.mem):
                        (done if v else nxt).append(p2)
                cur = nxt
            return [(TRUE, p, e.mem) for p in done] + [(FALSE, p, e.mem) for p in cur]
        return None

    def store(self, e, ref, v):
        m = dict(e.mem)
        e.eng.write_targets(m, [(ref.a[0], ref.a[1])], v)
        return m

def flatten(v):
    """parts of a text built from pieces, or None"""
    if v.k == 'str':
        return [v]
    if v.k == 'int':
        return [STR(chr(v.a[0]))]
    if v.k == 'bytes':
        return [STR(bytes(v.a[0]).decode('latin1'))]
    if v.k == 'arr':
        return flat_all(v.a[0])
    if v.k == 't':
        op, a = v.a[0], v.a[1]
        if op in ('cat', 'parts'):
            return flat_all(a)
        if op == 'disp' and a[0].k in ('str', 'int'):
            return [STR(str(a[0].a[0]))]
        if op == 'disp' and a[0].k == 't' and a[0].a[0] in ('cat', 'parts', 'disp'):
            return flatten(a[0])
        if op == 'upper_hex' and a[0].k == 'int':
            return [STR('%X' % a[0].a[0])]
        if op.startswith('spec:') and a[0].k == 't':
            m = re.match(r'^spec:(0?)(\d+)$', op)
            if m and a[0].a[0] in ('upper_hex', 'lower_hex', 'dispint', 'disp') and a[0].a[1][0].k == 'int':
                s = {'upper_hex': '%X', 'lower_hex': '%x'}.get(a[0].a[0], '%d') % a[0].a[1][0].a[0]
                return [STR(s.rjust(int(m.group(2)), '0' if m.group(1) else ' '))]
        if NEWL.match(op):
            return []
        return [v]
    if v.k == 'seq':
        out = flatten(v.a[0])
        if out is None or v.a[0].k == 't' and not NEWL.match(v.a[0].a[0]) and v.a[0].a[0] not in ('cat', 'parts'):
            return None
        for st in v.a[1]:
            op = st[0]
            if op == '*':
                return None
            if re.search(r'::(push_str|push|extend_from_slice|extend|write_str|write_char|write_all|add_assign|append|write_fmt|put_u8|put_slice)$', op) or op == 'enc':
                f = flatten(st[1][-1])
                if f is None:
                    return None
                out = out + f
            elif re.search(r'::(reserve|shrink_to_fit)$', op):
                pass
            elif re.search(r'::pop$', op) and out and out[-1].k == 'str' and out[-1].a[0]:
                out = out[:-1] + [STR(out[-1].a[0][:-1])]
            elif re.search(r'::truncate$', op) and False:
                pass
            else:
                return None
        return out
    if v.k in ('st', 'phi'):
        return [v]
    return None

def flat_all(xs):
    out = []
    for x in xs:
        f = flatten(x)
        if f is None:
            return None
        out += f
    return out

def joined(parts):
    if parts is None:
        return None
    out = []
    for p in parts:
        if p.k == 'str' and out and out[-1].k == 'str':
            out[-1] = STR(out[-1].a[0] + p.a[0])
        elif p is not STR(''):
            out.append(p)
    return out

def text(v):
    """normalised parts of a text; nested texts inside terms are normalised too"""
    return joined(flatten(norm(v)))

def norm(v, memo=None):
    """texts inside terms in normal form: T('parts', ...)"""
    memo = {} if memo is None else memo
    if v in memo:
        return memo[v]
    r = v
    if v.k == 'seq':
        f = flatten(mk('seq', norm(v.a[0], memo), tuple(st if st[0] == '*' else (st[0], tuple(norm(x, memo) for x in st[1])) for st in v.a[1])))
        if f is not None:
            f = joined(f)
            r = f[0] if len(f) == 1 else T('parts', *f)
    elif v.k == 't':
        r = T(v.a[0], *[norm(x, memo) for x in v.a[1]])
        if r.a[0] in ('parts', 'cat'):
            f = joined(flatten(r))
            if f is not None:
                r = f[0] if len(f) == 1 else T('parts', *f)
        elif r.a[0] == 'sorted':
            r = T('sorted', *sorted(r.a[1], key=lambda x: x.uid))
        elif NEWL.match(r.a[0]):
            r = STR('')
    elif v.k == 'tup':
        r = TUP(*[norm(x, memo) for x in v.a[0]])
    elif v.k == 'arr':
        r = mk('arr', tuple(norm(x, memo) for x in v.a[0]))
    memo[v] = r
    return r

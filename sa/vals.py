"""Interned abstract values."""
import itertools

class V:
    __slots__ = ('k', 'a', '_atoms', 'frames', 'n', 'uid', 'depth', '_kids')
    def __repr__(self):
        return show(self)

_tab = {}
_uid = itertools.count()
EMPTY = frozenset()

def mk(k, *a):
    key = (k,) + a
    v = _tab.get(key)
    if v is None:
        v = V()
        v.k = k
        v.a = a
        v._atoms = None
        v._kids = None
        v.uid = next(_uid)
        fr = EMPTY
        n = 1
        dp = 0
        for c in kids0(k, a):
            fr |= c.frames
            n += c.n
            if c.depth > dp:
                dp = c.depth
        if k == 'ref':
            fr = fr | {a[0][0]}
        elif k in ('disc', 'dq') and a[1] is not None:
            fr = fr | {a[1][0]}
        v.frames = fr
        v.n = n
        v.depth = dp + 1
        _tab[key] = v
    return v

def kids0(k, a):
    if k in ('tup', 'arr'):
        return a[0]
    if k == 'adt':
        return a[2]
    if k == 'clos':
        return a[1]
    if k == 't':
        return a[1]
    if k == 'vt':
        return (a[0],)
    if k == 'st':
        return (a[0],) + tuple(x for _, x in a[1])
    if k == 'phi':
        return tuple(sorted(a[0], key=lambda x: x.uid))
    if k == 'seq':
        r = [a[0]]
        for st in a[1]:
            if st[0] == '*':
                for s in sorted(st[1], key=lambda s: (s[0], tuple(x.uid for x in s[1]))):
                    r.extend(s[1])
            else:
                r.extend(st[1])
        return tuple(r)
    if k in ('disc', 'dq'):
        return (a[0],)
    return ()

def kids(v):
    r = v._kids
    if r is None:
        r = v._kids = kids0(v.k, v.a)
    return r

def INT(n): return mk('int', n)
def STR(s): return mk('str', s)
def TUP(*xs): return mk('tup', tuple(xs))
def T(op, *args): return mk('t', op, tuple(args))
def REF(cell, proj=()): return mk('ref', cell, proj)
def ADT(path, vi, fields=()): return mk('adt', path, vi, tuple(fields))
def PHI(s):
    s = frozenset(s)
    if len(s) == 1:
        return next(iter(s))
    return mk('phi', s)
UNIT = TUP()
TRUE = INT(1)
FALSE = INT(0)
UNINIT = T('uninit')

RESULT = 'core::result::Result'
OPTION = 'core::option::Option'
POLL = 'core::task::poll::Poll'
CF = 'core::ops::control_flow::ControlFlow'
def OK(v): return ADT(RESULT, 0, (v,))
def ERR(v): return ADT(RESULT, 1, (v,))
def SOME(v): return ADT(OPTION, 1, (v,))
NONE = ADT(OPTION, 0, ())
def READY(v): return ADT(POLL, 0, (v,))

def atoms(v):
    """set of leaf/op labels below v: ('op',name) ('str',s) ('int',n) ('fn',..)"""
    if v._atoms is None:
        k = v.k
        if k == 'int':
            r = frozenset([('int', v.a[0])])
        elif k == 'str':
            r = frozenset([('str', v.a[0])])
        elif k == 'bytes':
            r = frozenset([('bytes', v.a[0])])
        elif k == 'mix':
            r = v.a[0]
        elif k == 'fn':
            r = frozenset([('fn', v.a[0])])
        elif k == 'ref':
            r = frozenset([('ref', v.a[0], v.a[1])])
        else:
            s = set()
            if k == 't':
                s.add(('op', v.a[0]))
            elif k == 'adt':
                s.add(('adt', v.a[0], v.a[1]))
            elif k == 'clos':
                s.add(('clos', v.a[0]))
            elif k == 'seq':
                for st in v.a[1]:
                    if st[0] == '*':
                        for x in st[1]:
                            s.add(('op', x[0]))
                    else:
                        s.add(('op', st[0]))
            for c in kids(v):
                s |= atoms(c)
            r = frozenset(s)
        v._atoms = r
    return v._atoms

MIXLOG = None
def MIX(at):
    if MIXLOG is not None: MIXLOG(at)
    return mk('mix', frozenset(at))

PHI_LIMIT = 14
N_LIMIT = 10 ** 12

def members(v):
    if v.k == 'phi':
        return v.a[0]
    return (v,)

def join(a, b, depth=0):
    if a is b:
        return a
    ka, kb = a.k, b.k
    if a is UNINIT: return b
    if b is UNINIT: return a
    if ka == 'mix' and kb == 'mix':
        return MIX(a.a[0] | b.a[0])
    if depth < 6:
        if ka == 'adt' and kb == 'adt' and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
            return mk('adt', a.a[0], a.a[1], tuple(join(x, y, depth + 1) for x, y in zip(a.a[2], b.a[2])))
        if ka == 'tup' and kb == 'tup' and len(a.a[0]) == len(b.a[0]):
            return mk('tup', tuple(join(x, y, depth + 1) for x, y in zip(a.a[0], b.a[0])))
        if ka == 'clos' and kb == 'clos' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
            return mk('clos', a.a[0], tuple(join(x, y, depth + 1) for x, y in zip(a.a[1], b.a[1])))
        if ka == 'seq' or kb == 'seq':
            r = seq_join(a, b)
            if r is not None:
                return r
        if ka == 'st' or kb == 'st':
            ba, fa = (a.a[0], dict(a.a[1])) if ka == 'st' else (a, {})
            bb, fb = (b.a[0], dict(b.a[1])) if kb == 'st' else (b, {})
            if ba is bb and ba.k != 'phi':
                out = {}
                for f in set(fa) | set(fb):
                    x = fa.get(f)
                    y = fb.get(f)
                    if x is None: x = T('.' + str(f), ba)
                    if y is None: y = T('.' + str(f), bb)
                    out[f] = join(x, y, depth + 1)
                return mk('st', ba, tuple(sorted(out.items(), key=lambda q: str(q[0]))))
    s = []
    for x in list(members(a)) + list(members(b)):
        # merge into an existing member of the same shape
        for i, y in enumerate(s):
            if y is x:
                break
            if x.k == 'adt' and y.k == 'adt' and x.a[0] == y.a[0] and x.a[1] == y.a[1] and depth < 6:
                s[i] = join(x, y, depth + 1)
                break
            if x.k == 'mix' and y.k == 'mix':
                s[i] = MIX(x.a[0] | y.a[0])
                break
            if x.k == 'seq' and y.k in ('seq', 't'):
                r = seq_join(y, x)
                if r is not None:
                    s[i] = r
                    break
        else:
            s.append(x)
    if len(s) > PHI_LIMIT:
        s = collapse(s)
    if len(s) == 1:
        return s[0]
    return PHI(s)

def collapse(s):
    """keep variants, fold everything else into one mix"""
    out = {}
    at = EMPTY
    for x in s:
        if x.k == 'adt':
            key = ('adt', x.a[0], x.a[1])
            out[key] = x if key not in out else join(out[key], x, 6 if len(s) > 60 else 1)
        elif x.k == 'vt':
            key = ('vt', x.a[1], x.a[2])
            if key in out and out[key] is not x:
                out[key] = mk('vt', MIX(atoms(out[key]) | atoms(x)), x.a[1], x.a[2])
            else:
                out[key] = x
        elif x.k == 'clos' or x.k == 'fn' or x.k == 'ref':
            out[x] = x
        else:
            at |= atoms(x)
    r = list(out.values())
    if at or not r:
        r.append(MIX(at))
    return r

def widen(o, j, hard=False, depth=0):
    """upper bound of o and j (j above o) taken from a set of bounded height"""
    if o is j:
        return o
    if depth > 9:
        return MIX(atoms(o) | atoms(j))
    if o.k == j.k and o.k in ('tup', 'clos', 'adt'):
        if o.k == 'tup' and len(o.a[0]) == len(j.a[0]):
            return mk('tup', tuple(widen(x, y, hard, depth + 1) for x, y in zip(o.a[0], j.a[0])))
        if o.k == 'clos' and o.a[0] == j.a[0] and len(o.a[1]) == len(j.a[1]):
            return mk('clos', o.a[0], tuple(widen(x, y, hard, depth + 1) for x, y in zip(o.a[1], j.a[1])))
        if o.k == 'adt' and o.a[0] == j.a[0] and o.a[1] == j.a[1] and len(o.a[2]) == len(j.a[2]):
            return mk('adt', o.a[0], o.a[1], tuple(widen(x, y, hard, depth + 1) for x, y in zip(o.a[2], j.a[2])))
    if j.k == 'seq' and j.depth <= 48 and (o.k == 'seq' and o.a[0] is j.a[0] or o is j.a[0]) and len(j.a[1]) <= 3 and seq_join(o, j) is j:
        return j        # stars only grow, and are bounded (see star)
    om = {}
    for x in members(o):
        if x.k == 'adt': om[('adt', x.a[0], x.a[1])] = x
        elif x.k == 'vt': om[('vt', x.a[1], x.a[2])] = x
    out = []
    at = EMPTY
    new = False
    keep = []
    oset = set(members(o))
    for x in members(j):
        if x.k == 'adt':
            y = om.get(('adt', x.a[0], x.a[1]))
            if y is None:
                out.append(x if depth < 5 else MIX(atoms(x)))
            else:
                out.append(widen(y, join(y, x), hard, depth + 1))
        elif x.k == 'vt':
            y = om.get(('vt', x.a[1], x.a[2]))
            if y is None or y is x:
                out.append(x)
            else:
                out.append(mk('vt', MIX(atoms(y.a[0]) | atoms(x.a[0])), x.a[1], x.a[2]))
        elif x.k in ('clos', 'fn', 'ref'):
            out.append(x)
        else:
            keep.append(x)
            if x not in oset:
                new = True
    if new:
        for x in keep:
            at |= atoms(x)
        for x in oset:
            if x.k == 'mix':
                at |= x.a[0]
        if hard:
            at = frozenset(x for x in at if x[0] != 'int')
        out.append(MIX(at))
    else:
        out += keep
    r = None
    if not out:
        return j
    for x in out:
        r = x if r is None else join(r, x)
    return r

def seq_parts(v):
    if v.k == 'seq':
        return v.a[0], v.a[1]
    return v, ()

def star(ext):
    by = {}
    for st in ext:
        by.setdefault((st[0], len(st[1])), []).append(st)
    out = set()
    for (op, n), l in by.items():
        if len(l) <= 5:
            out |= set(l)
        else:
            l.sort(key=lambda q: tuple(x.uid for x in q[1]))
            a = list(l[0][1])
            for q in l[1:]:
                a = [join(x, y) for x, y in zip(a, q[1])]
            a = [MIX(atoms(x)) if x.depth > 14 else x for x in a]
            out.add((op, tuple(a)))
    return ('*', frozenset(out))

def seq_join(a, b):
    """a then b where one extends the other: the extension becomes a star; common prefixes are kept"""
    ba, sa = seq_parts(a)
    bb, sb = seq_parts(b)
    if ba is not bb:
        return None
    if len(sa) > len(sb):
        sa, sb = sb, sa
    i = 0
    while i < len(sa) and sa[i] == sb[i]:
        i += 1
    if i == len(sa):
        # sb extends sa
        ext = set()
        for st in sb[i:]:
            if st[0] == '*':
                ext |= st[1]
            else:
                ext.add(st)
        pre = sa[:i]
        if pre and pre[-1][0] == '*':
            ext |= pre[-1][1]
            pre = pre[:-1]
        return mk('seq', ba, pre + (star(ext),))
    aged = any(('op', 'prev') in atoms(x) for s in (sa[i:], sb[i:]) for st in s if st[0] != '*' for x in st[1])
    if aged or i < len(sa) and sa[i][0] == '*' or i < len(sb) and sb[i][0] == '*':
        # star vs something: absorb when the rest is equal or both absorbed
        ext = set()
        for rest in (sa[i:], sb[i:]):
            for st in rest:
                if st[0] == '*':
                    ext |= st[1]
                else:
                    ext.add(st)
        return mk('seq', ba, sa[:i] + (star(ext),))
    return None

def seq_push(v, op, args):
    st = (op, tuple(args))
    b, s = seq_parts(v)
    if b.k == 'phi' :
        return PHI([seq_push(x, op, args) for x in b.a[0]]) if not s else mk('seq', b, s + (st,))
    if b.k == 'mix':
        at = atoms(v) | {('op', op)}
        for x in args:
            at |= atoms(x)
        return MIX(at)
    if s and s[-1][0] == '*' and st in s[-1][1]:
        return v
    if len(s) > 400:
        return MIX(atoms(v) | {('op', op)} | frozenset().union(*[atoms(x) for x in args]))
    return mk('seq', b, s + (st,))

def find(v, pred, seen=None, depth=0):
    """all subterms satisfying pred"""
    out = []
    seen = set()
    st = [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if pred(x):
            out.append(x)
        st.extend(kids(x))
    return out

def has_op(v, *names):
    at = atoms(v)
    return any(('op', n) in at for n in names)

def show(v, d=0):
    if d > 7:
        return '…'
    k, a = v.k, v.a
    if k == 'int': return str(a[0])
    if k == 'str': return repr(a[0])
    if k == 'bytes': return 'b' + repr(bytes(a[0]))
    if k == 'tup': return '(' + ', '.join(show(x, d + 1) for x in a[0]) + ')'
    if k == 'arr': return '[' + ', '.join(show(x, d + 1) for x in a[0]) + ']'
    if k == 'adt':
        p = a[0].split('::')[-1]
        return f"{p}#{a[1]}{{" + ', '.join(show(x, d + 1) for x in a[2]) + '}'
    if k == 'clos': return f"clos{a[0]}[" + ', '.join(show(x, d + 1) for x in a[1]) + ']'
    if k == 'ref': return f"&{a[0]}{a[1] or ''}"
    if k == 't':
        return a[0] + ('(' + ', '.join(show(x, d + 1) for x in a[1]) + ')' if a[1] else '')
    if k == 'vt': return f"{show(a[0], d+1)}@{a[2]}"
    if k == 'st': return f"{show(a[0], d+1)}{{" + ', '.join(f"{f}:{show(x, d+1)}" for f, x in a[1]) + '}'
    if k == 'phi': return 'phi{' + ' | '.join(sorted(show(x, d + 1) for x in a[0])) + '}'
    if k == 'seq':
        o = []
        for s in a[1]:
            if s[0] == '*':
                o.append('*{' + ' ; '.join(sorted(q[0].split('::')[-1] + '(' + ', '.join(show(x, d + 1) for x in q[1]) + ')' for q in s[1])) + '}')
            else:
                o.append(s[0].split('::')[-1] + '(' + ', '.join(show(x, d + 1) for x in s[1]) + ')')
        return f"<{show(a[0], d+1)} ; " + ' ; '.join(o) + '>'
    if k == 'fn': return f"fn:{a[0]}"
    if k == 'mix': return 'mix{' + ','.join(sorted(str(x[1]) for x in a[0]))[:200] + '}'
    if k == 'dq': return ('is' if a[5] else 'isnt') + f"#{a[4]}({show(a[0], d+1)})"
    if k == 'disc': return f"disc({show(a[0], d+1)})"
    return str((k,) + a)

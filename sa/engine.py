"""Path-sensitive abstract interpreter over the extracted facts (property simulation, ESP style).

States with the same property state are merged at every join point; everything else is an abstract
value (vals.py).  Local functions, closures and async bodies are interpreted in place, so a check sees
the same thing whether code is written inline or in a helper.
"""
import json, heapq, re, sys
from vals import *

sys.setrecursionlimit(20000)

class Facts:
    def __init__(self, files):
        self.bodies = {}
        self.tys = []
        self.adts = {}
        self.adtfields = {}
        self.roots = []
        self.bypath = {}
        self.fnrefs = {}
        self.crates = []
        for f in files:
            d = json.load(open(f))
            kr = d['crate'] + '-' + d['kind']
            self.crates.append(kr)
            off = len(self.tys)
            self.tys += d['tys']
            pre = kr + ':'
            for b in d['bodies']:
                b['uid'] = pre + str(b['id'])
                b['pre'] = pre
                b['off'] = off
                b['krate'] = kr
                self.bodies[b['uid']] = b
                if b['local']:
                    self.bypath.setdefault(b['path'], []).append(b)
            for k, v in d['adts'].items():
                self.adts.setdefault(k, v)
            self.adtfields.update(d['adtfields'])
            self.roots += [pre + str(r) for r in d['roots']]
        self.bodyinfo = {}

    def ty(self, b, i):
        return self.tys[b['off'] + i]

    def fnval(self, b, f):
        """interned function-item value"""
        key = (f.get('rp') or f['p'], f['k'], (b['pre'] + str(f['i'])) if 'i' in f else None,
               tuple(self.ty(b, t) for t in f['ta']), f['p'], f.get('adt'), f.get('v'))
        return mk('fn', key)

    def info(self, b):
        bi = self.bodyinfo.get(b['uid'])
        if bi is None:
            bi = self.bodyinfo[b['uid']] = BodyInfo(b)
        return bi

    def find(self, regex, kind=None, local=True):
        r = re.compile(regex)
        return [b for b in self.bodies.values() if b['local'] == local and (kind is None or b['kind'] == kind) and r.search(b['path'])]


def succs(t):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'sw': return [x[1] for x in t[2]] + [t[3]]
    if k == 'drop': return [t[2]]
    if k == 'call': return [t[4]] if t[4] >= 0 else []
    if k == 'assert': return [t[4]]
    if k == 'yield': return [t[2]]
    return []


class BodyInfo:
    """reverse post order"""
    def __init__(self, b):
        n = len(b['blocks'])
        self.rpo = [10 ** 6] * n
        seen = [False] * n
        order = []
        st = [(0, iter(succs(b['blocks'][0]['t'])))]
        seen[0] = True
        while st:
            x, it = st[-1]
            for y in it:
                if not seen[y]:
                    seen[y] = True
                    st.append((y, iter(succs(b['blocks'][y]['t']))))
                    break
            else:
                order.append(x)
                st.pop()
        order.reverse()
        for i, x in enumerate(order):
            self.rpo[x] = i
        self.heads = set()
        for x in order:
            for y in succs(b['blocks'][x]['t']):
                if self.rpo[y] <= self.rpo[x]:
                    self.heads.add(y)


class Ev:
    """one opaque call: what a rule sees"""
    __slots__ = ('path', 'decl', 'kind', 'args', 'raw', 'eng', 'mem', 'loc', 'body', 'stack', 'rty', 'targs', 'mac', 'pure', 'fr')

SPLIT = (0, 'split')
DBG = False

class Limit(Exception):
    pass


class Rule:
    """default: no events"""
    init = ()
    exact = False       # paths are never merged (inputs of known length)
    opaque = ()
    def on_call(self, ps, ev):
        """None: default opaque treatment; otherwise list of (retval, ps')"""
        return None
    def called(self, ps, body, args, eng, mem):
        """a function of the crate is entered -> ps"""
        return ps
    def enter(self, ps, body, args, eng, mem):
        """called before inlining a local body; None: inline; list of (ret, ps)"""
        return None
    def on_next(self, ps, path, site, src, tag, e, eng, mem):
        """an element is taken out of a local container or an iterator"""
        return ps
    age = False         # on the next element, what is known of the current one becomes 'prev'
    def aged(self, ps, sub):
        return ps
    def on_panic(self, ps, what, ev):
        pass
    def on_num(self, ps, name, args, eng, mem):
        """an arithmetic method of an integer; None: default treatment"""
        return None
    def on_assign(self, ps, body, line, place, val, eng, mem, frame):
        return ps


IDENT = [
    'core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut', 'core::convert::AsRef::as_ref', 'core::convert::AsMut::as_mut',
    'core::borrow::Borrow::borrow', 'core::borrow::BorrowMut::borrow_mut', 'alloc::borrow::ToOwned::to_owned', 'core::clone::Clone::clone',
    'core::future::into_future::IntoFuture::into_future', 'tracing::instrument::Instrument::instrument', 'tracing::instrument::Instrument::in_current_span', 'core::hint::must_use',
    'alloc::boxed::Box::<T>::new', 'alloc::boxed::Box::<T>::pin', 'alloc::rcs::arc::Arc::<T>::new', 'alloc::sync::Arc::<T>::new', 'alloc::rc::Rc::<T>::new',
    'core::pin::Pin::<Ptr>::new_unchecked', 'core::pin::Pin::<Ptr>::new', 'core::pin::Pin::<Ptr>::as_mut', 'core::pin::Pin::<Ptr>::get_mut', 'core::pin::Pin::<Ptr>::get_unchecked_mut',
    'core::pin::Pin::<Ptr>::as_ref', 'core::pin::Pin::<Ptr>::into_inner', 'alloc::boxed::Box::<T, A>::into_pin', 'alloc::boxed::Box::<T>::into_inner', 'alloc::boxed::Box::<T>::into_pin',
    'alloc::string::String::as_str', 'core::str::<impl str>::as_bytes', 'alloc::vec::Vec::<T, A>::as_slice', 'alloc::string::String::into_bytes', 'alloc::string::String::as_bytes',
    'alloc::string::String::into_boxed_str', 'alloc::vec::Vec::<T, A>::as_mut_slice', 'core::slice::<impl [T]>::as_ref',
    'std::path::Path::new', 'std::path::PathBuf::as_path', 'std::path::Path::to_path_buf', 'std::path::Path::as_os_str', 'std::path::PathBuf::into_os_string', 'core::mem::ManuallyDrop::<T>::new',
    'core::slice::<impl [T]>::to_vec', 'alloc::slice::<impl [T]>::to_vec', 'alloc::borrow::Cow::<\'_, B>::into_owned', 'core::str::<impl str>::to_string', 'alloc::str::<impl str>::to_string', 'alloc::str::<impl str>::into_string',
    'alloc::slice::<impl [T]>::into_vec', 'alloc::boxed::box_new',
    'futures_util::future::future::FutureExt::boxed', 'futures_util::stream::stream::StreamExt::boxed', 'futures_util::future::future::FutureExt::fuse', 'futures_util::stream::stream::StreamExt::fuse',
    'core::iter::traits::iterator::Iterator::by_ref', 'core::iter::traits::iterator::Iterator::fuse', 'core::iter::traits::iterator::Iterator::peekable',
    'core::any::type_name_of_val', 'core::cell::Cell::<T>::new', 'core::cell::RefCell::<T>::new',
    'core::convert::identity', 'futures_util::stream::stream::StreamExt::by_ref', 'std::sync::mutex::Mutex::<T>::new',
    'core::iter::traits::iterator::Iterator::copied', 'core::iter::traits::iterator::Iterator::cloned',
    'bytes::bytes::Bytes::copy_from_slice', 'bytes::bytes::Bytes::from_static',
    'core::mem::take_', 'alloc::string::String::from_str',
]
IDENT = set(IDENT)
IDENT_FROM = [  # resolved impl paths of From/Into/ToString/FromStr that keep the value
    r'^<alloc::string::String as core::convert::From<&(mut )?str>>::from$',
    r'^<alloc::string::String as core::convert::From<.*(str|String|char).*>>::from$',
    r'^<std::path::PathBuf as core::convert::From<.*>>::from$',
    r'^<alloc::vec::Vec<.*> as core::convert::From<.*>>::from$',
    r'^<alloc::boxed::Box<.*> as core::convert::From<T>>::from$',
    r'^<alloc::borrow::Cow<.*> as core::convert::From<.*>>::from$',
    r'^<bytes::bytes::Bytes as core::convert::From<.*>>::from$',
    r'^<T as core::convert::From<T>>::from$',
    r'^alloc::boxed::convert::<impl core::convert::From<.*> for alloc::boxed::Box<.*>>::from$',
    r'^<I as core::iter::traits::collect::IntoIterator>::into_iter$',
    r'^<T as alloc::string::SpecToString>::',
    r'^<.*(String|str|&str) as alloc::string::ToString>::to_string$',
]
IDENT_FROM = [re.compile(x) for x in IDENT_FROM]
PIN_IDENT = re.compile(r'^core::pin::Pin::<.*>::(get_unchecked_mut|get_mut|as_mut|get_ref|into_ref|new_unchecked|new)$')
CALL_ONCE = ('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call',
             'core::ops::async_function::AsyncFnOnce::async_call_once', 'core::ops::async_function::AsyncFnMut::async_call_mut', 'core::ops::async_function::AsyncFn::async_call')

STRINGY = re.compile(r'(String|str|char|Cow|Path|Url)')

def strip_tracing(path):
    return path.startswith(('tracing::', 'tracing_core::', 'log::', 'tracing_log::', '<tracing', 'tracing_error::'))


class Engine:
    def __init__(self, facts, rule=None, depth_limit=45, trace_logs=None, max_visits=400000, uncond_closures=False):
        self.f = facts
        self.rule = rule or Rule()
        self.depth_limit = depth_limit
        self.trace_logs = getattr(rule, "trace_logs", False) if trace_logs is None else trace_logs
        self.visits = 0
        self.max_visits = max_visits
        self.stack = []          # list of (body uid, block, line)
        self.frames = {}
        self.nframe = 0
        self.constcache = {}
        self.opaque_seen = {}
        self.covered = set()     # body uids interpreted
        self.blocks_seen = set()
        self.calls_seen = 0
        self.unknown_poll = set()
        self.sites = set()

    # ---------- memory ----------
    def sub(self, fr, tag):
        return self.frame_id(fr, {'uid': tag}, 0)

    def frame_id(self, parent, body, block):
        key = (parent, body['uid'], block)
        r = self.frames.get(key)
        if r is None:
            self.nframe += 1
            r = self.frames[key] = self.nframe
        return r

    def load(self, mem, cell, proj):
        v = mem.get(cell, UNINIT)
        for p in proj:
            v = self.project(mem, v, p)
        return v

    def project(self, mem, v, p):
        k = v.k
        if k == 'phi':
            s = None
            xs = v.a[0]
            if p[0] == 'd' and len(p) > 1:       # members of other variants are not meant
                xs = [x for x in xs if not (x.k == 'adt' and x.a[1] != p[1] or x.k == 'vt' and x.a[2] != p[1])] or xs
            for x in xs:
                y = self.project(mem, x, p)
                s = y if s is None else join(s, y)
            return s
        if p == '*':
            if k == 'ref':
                return self.load(mem, v.a[0], v.a[1])
            return v
        kind = p[0]
        if k == 'ref':           # transparent: box/pin deref without an explicit deref
            return self.project(mem, self.load(mem, v.a[0], v.a[1]), p)
        if kind == 'f':
            idx, name = p[1], p[2]
            if k == 'adt':
                fs = v.a[2]
                if idx < len(fs):
                    return fs[idx]
                return T('.' + (name or str(idx)), v)
            if k in ('tup',):
                if idx < len(v.a[0]):
                    return v.a[0][idx]
                return T('.' + str(idx), v)
            if k == 'clos':
                if idx < len(v.a[1]):
                    return v.a[1][idx]
                return T('.' + str(idx), v)
            if k == 'st':
                key = name or str(idx)
                for f, x in v.a[1]:
                    if f == key:
                        return x
                return self.project(mem, v.a[0], p)
            if k == 'vt' and v.a[0].k == 'mix':
                return v.a[0]
            if k == 'vt':
                ad = self.f.adts.get(v.a[1])
                vn = ad['variants'][v.a[2]]['name'] if ad else str(v.a[2])
                return T('.' + vn + '.' + (name or str(idx)), v.a[0])
            if k == 'mix':
                return v
            if k in ('int', 'str', 'bytes'):
                return v
            return T('.' + (name or str(idx)), v)
        if kind == 'd':
            return v
        if kind in ('i', 'ci'):
            if k == 't' and v.a[0].startswith('.') and len(v.a[1]) == 1 and v.a[1][0].k == 'arr':
                v = v.a[1][0]        # a container which is modelled by its list
                k = 'arr'
            if k in ('arr',):
                if kind == 'ci' and len(p) > 2 and isinstance(p[1], int):
                    i = p[1]
                    if p[3]:
                        i = len(v.a[0]) - i
                    if 0 <= i < len(v.a[0]):
                        return v.a[0][i]
                s = None
                for x in v.a[0]:
                    s = x if s is None else join(s, x)
                return s if s is not None else T('[]', v)
            if k == 'mix':
                return v
            if k == 'bytes' and kind == 'ci' and len(p) > 2 and isinstance(p[1], int) and not p[3] and p[1] < len(v.a[0]):
                return INT(v.a[0][p[1]])
            if kind == 'ci':
                return T('[%s%d]' % ('-' if p[3] else '', p[1]), v)
            if len(p) > 1 and isinstance(p[1], V):
                return T('[]', v, p[1])
            return T('[]', v)
        if kind == 'ss' and k == 'arr':
            n = len(v.a[0])
            return mk('arr', v.a[0][p[1]:n - p[2] if p[3] else p[2]])
        if kind == 'ss':
            return T('[%d..%s%d]' % (p[1], '-' if p[3] else '', p[2]), v)
        if kind == 'o':
            return T(p[1], v)
        return T('proj?', v)

    def setpath(self, mem, old, proj, val):
        if not proj:
            return val
        p = proj[0]
        k = old.k
        if k == 'phi':
            s = None
            for x in old.a[0]:
                y = self.setpath(mem, x, proj, val)
                s = y if s is None else join(s, y)
            return s
        if p == '*':
            return self.setpath(mem, old, proj[1:], val)
        kind = p[0]
        if kind == 'd':
            return self.setpath(mem, old, proj[1:], val)
        if kind == 'f':
            idx, name = p[1], p[2]
            cur = self.project(mem, old, p)
            nv = self.setpath(mem, cur, proj[1:], val)
            if k == 'adt' and idx < len(old.a[2]):
                fs = list(old.a[2]); fs[idx] = nv
                return mk('adt', old.a[0], old.a[1], tuple(fs))
            if k == 'tup' and idx < len(old.a[0]):
                fs = list(old.a[0]); fs[idx] = nv
                return mk('tup', tuple(fs))
            if k == 'clos' and idx < len(old.a[1]):
                fs = list(old.a[1]); fs[idx] = nv
                return mk('clos', old.a[0], tuple(fs))
            if k == 'mix':
                return MIX(atoms(old) | atoms(nv))
            key = name or str(idx)
            if k == 'st':
                d = dict(old.a[1]); d[key] = nv
                return mk('st', old.a[0], tuple(sorted(d.items(), key=lambda q: str(q[0]))))
            return mk('st', old, ((key, nv),))
        cur = self.project(mem, old, p)
        nv = self.setpath(mem, cur, proj[1:], val)
        if kind in ('i', 'ci'):
            if k == 'arr':
                if kind == 'ci' and not p[3] and p[1] < len(old.a[0]):
                    fs = list(old.a[0]); fs[p[1]] = nv
                    return mk('arr', tuple(fs))
                return mk('arr', tuple(join(x, nv) for x in old.a[0]))
            return seq_push(old, '[]=', (nv,))
        if kind == 'o':
            return seq_push(old, 'via ' + p[1], (nv,))
        return seq_push(old, 'set', (nv,))

    def resolve(self, mem, place, frame):
        """-> list of (cell, proj) targets, or None when the place goes through an opaque value"""
        cur = [((frame, place[0]), ())]
        for p in place[1:]:
            p = tuple(p) if isinstance(p, list) else p
            if p == '*':
                nxt = []
                for cell, proj in cur:
                    v = self.load(mem, cell, proj)
                    for m in members(v):
                        if m.k == 'ref':
                            nxt.append((m.a[0], m.a[1]))
                        else:
                            nxt.append((cell, proj))   # Box / opaque reference: transparent
                # dedupe
                cur = list(dict.fromkeys(nxt))
            else:
                if p[0] == 'i':
                    iv = self.load(mem, (frame, p[1]), ())
                    if iv.k == 'int':
                        p = ('ci', iv.a[0], 0, False)
                    elif iv.k == 't' or iv.k == 'phi':
                        p = ('i', iv)
                    else:
                        p = ('i',)
                nc = []
                for cell, proj in cur:
                    v = self.load(mem, cell, proj)
                    if p[0] == 'f' and v.k == 'ref':
                        nc.append((v.a[0], v.a[1] + (p,)))
                    else:
                        nc.append((cell, proj + (p,)))
                cur = nc
        return cur

    def read_place(self, mem, place, frame):
        cell = (frame, place[0])
        v = mem.get(cell, UNINIT)
        for p in place[1:]:
            if p != '*':
                p = tuple(p)
                if p[0] == 'i':
                    iv = mem.get((frame, p[1]), UNINIT)
                    if iv.k == 'int':
                        p = ('ci', iv.a[0], 0, False)
                    elif iv.k in ('t', 'phi'):
                        p = ('i', iv)
                    else:
                        p = ('i',)
            v = self.project(mem, v, p)
        return v

    def write_place(self, mem, place, frame, val):
        if len(place) == 1:
            c = (frame, place[0])
            if frame in val.frames and ('ref-cell', c) in refcells(val):
                val = self.snap_cell(mem, val, c)
            mem[c] = val
            return
        tg = self.resolve(mem, place, frame)
        self.write_targets(mem, tg, val)

    def snap_cell(self, mem, v, cell):
        if v.k == 'ref' and v.a[0] == cell:
            return self.load(mem, v.a[0], v.a[1])
        return self.snap(mem, v, 0, cell[0])

    def write_targets(self, mem, tg, val):
        strong = len(tg) == 1
        for cell, proj in tg:
            old = mem.get(cell, UNINIT)
            v1 = val
            if cell[0] in val.frames and ('ref-cell', cell) in refcells(val):
                v1 = self.snap_cell(mem, val, cell)
            nv = self.setpath(mem, old, proj, v1)
            mem[cell] = nv if strong else join(old, nv)

    def snap(self, mem, v, depth=0, frame=None, memo=None):
        if not v.frames and v.k != 'dq':
            return v
        if memo is None:
            memo = {}
        r = memo.get(v)
        if r is None:
            r = self.snap0(mem, v, depth, frame, memo)
            memo[v] = r
        return r

    def snap0(self, mem, v, depth, frame, memo):
        """replace references by the value they point to (frame: only references into that frame)"""
        if not v.frames and v.k != 'dq':
            return v
        if v.k == 'dq' and frame is not None and (v.a[1] is None or v.a[1][0] != frame) and not (frame in v.frames):
            return v
        if frame is not None and v.k != 'dq' and frame not in v.frames:
            return v
        if depth > 25:
            return MIX(a for a in atoms(v) if a[0] != 'ref')
        k, a = v.k, v.a
        if k == 'ref':
            if frame is not None and a[0][0] != frame:
                return v
            return self.snap(mem, self.load(mem, a[0], a[1]), depth + 1, frame, memo)
        s = lambda x: self.snap(mem, x, depth + 1, frame, memo)
        if k in ('tup', 'arr'):
            return mk(k, tuple(s(x) for x in a[0]))
        if k == 'adt':
            return mk('adt', a[0], a[1], tuple(s(x) for x in a[2]))
        if k == 'clos':
            return mk('clos', a[0], tuple(s(x) for x in a[1]))
        if k == 't':
            return mk('t', a[0], tuple(s(x) for x in a[1]))
        if k == 'vt':
            return mk('vt', s(a[0]), a[1], a[2])
        if k == 'st':
            return mk('st', s(a[0]), tuple((f, s(x)) for f, x in a[1]))
        if k == 'phi':
            r = None
            for x in a[0]:
                y = s(x)
                r = y if r is None else join(r, y)
            return r
        if k == 'seq':
            st = []
            for q in a[1]:
                if q[0] == '*':
                    st.append(('*', frozenset((o, tuple(s(x) for x in xs)) for o, xs in q[1])))
                else:
                    st.append((q[0], tuple(s(x) for x in q[1])))
            return mk('seq', s(a[0]), tuple(st))
        if k == 'disc':
            return T('disc', s(a[0]))
        if k == 'dq':
            r = T('is:%s:%d' % (a[3], a[4]), s(a[0]))
            return r if a[5] else T('not', r)
        return v

    # ---------- constants ----------
    def const(self, b, c):
        k = c['k']
        if k == 'fn':
            return self.f.fnval(b, c['f'])
        if k == 'closure':
            return mk('clos', b['pre'] + str(c['i']), ())
        v = c['v']
        if 'i' in c and (v is None or v[0] in ('raw', 'z', 'static')):
            r = self.const_body(b['pre'] + str(c['i']))
            if r is not None:
                return r
        if v is not None:
            if v[0] == 'i':
                return INT(int(v[1]))
            if v[0] == 's':
                return STR(v[1])
            if v[0] == 'b':
                return mk('bytes', tuple(v[1]))
            if v[0] == 'static':
                r = self.static_val(v[1], b)
                return r
            if v[0] == 'fnptr':
                return T('fnptr:' + v[1])
            if v[0] == 'z':
                ty = self.f.ty(b, c['ty'])
                if ty == '()':
                    return UNIT
                if 'path' in c:
                    return T('const:' + c['path'])
                return T('zst:' + ty[:80])
        if 'path' in c:
            return T('const:' + c['path'])
        if v is not None and v[0] == 'raw' and str(v[1]) == '0' and re.match(r'^core::option::Option<(&|alloc::boxed::Box<|core::ptr::non_null|fn)', self.f.ty(b, c['ty'])):
            return NONE
        return T('const?:' + self.f.ty(b, c['ty'])[:80], *( [STR(v[1])] if v and v[0] == 'raw' else []))

    def static_val(self, path, b):
        return T('static:' + path)

    def const_body(self, uid):
        if uid in self.constcache:
            return self.constcache[uid]
        self.constcache[uid] = None
        cb = self.f.bodies.get(uid)
        if cb is None:
            return None
        r = None
        mem = {}
        rule = self.rule
        self.rule = Rule()
        try:
            outs = self.run(cb, [], mem, (), self.sub(0, 'const:' + uid))
            for rv, m, _ in outs:
                rv = self.snap(m, rv)
                r = rv if r is None else join(r, rv)
        finally:
            self.rule = rule
        self.constcache[uid] = r
        return r

    def operand(self, mem, b, frame, o):
        if o[0] == 'k':
            return self.const(b, o[1])
        return self.read_place(mem, o[1], frame)

    # ---------- rvalues ----------
    def rvalue(self, mem, b, frame, r):
        k = r[0]
        if k == 'use':
            return self.operand(mem, b, frame, r[1])
        if k == 'ref':
            pl = r[2]
            if '*' in pl and not r[1]:
                # shared reborrow through an opaque reference: the value itself stands for the reference
                v = mem.get((frame, pl[0]), UNINIT)
                for i, p in enumerate(pl[1:]):
                    if p == '*' and any(m.k != 'ref' for m in members(v)):
                        return self.read_place(mem, pl, frame)
                    v = self.project(mem, v, tuple(p) if p != '*' and p[0] != 'i' else (p if p == '*' else ('i',)))
            tg = self.resolve(mem, r[2], frame)
            out = None
            for cell, proj in tg:
                x = REF(cell, proj)
                # reference to an opaque value reached through an opaque reference: transparent
                out = x if out is None else join(out, x)
            return out
        if k == 'disc':
            tg = self.resolve(mem, r[1], frame)
            v = self.read_place(mem, r[1], frame)
            while v.k == 'ref':
                tg = [(v.a[0], v.a[1])]
                v = self.load(mem, v.a[0], v.a[1])
            if len(tg) == 1:
                return mk('disc', v, tg[0][0], tg[0][1], r[2])
            return mk('disc', v, None, None, r[2])
        if k == 'agg':
            ops = tuple(self.operand(mem, b, frame, o) for o in r[2])
            if r[1] == 'tuple':
                return mk('tup', ops)
            if r[1] == 'array':
                return mk('arr', ops)
            if r[1] == 'adt':
                if r[5] >= 0:
                    return T('union', *ops)
                return mk('adt', r[3], r[4], ops)
            if r[1] == 'closure':
                if r[3] < 0:
                    return T('closure:' + r[4], *ops)
                return mk('clos', b['pre'] + str(r[3]), ops)
        if k == 'cast':
            v = self.operand(mem, b, frame, r[2])
            if r[1] == 'int' and v.k == 'int':
                ty = self.f.ty(b, r[3])
                m = re.match(r'^([ui])(8|16|32|64|128|size)$', ty)
                if m:
                    bits = 64 if m.group(2) == 'size' else int(m.group(2))
                    n = v.a[0] & ((1 << bits) - 1)
                    if m.group(1) == 'i' and n >> (bits - 1):
                        n -= 1 << bits
                    return INT(n)
            if r[1] == 'int' and v.k == 'disc':
                return v
            if r[1] == 'int':
                return v
            return v
        if k == 'bin':
            x = self.operand(mem, b, frame, r[2])
            y = self.operand(mem, b, frame, r[3])
            return self.binop(mem, r[1], x, y)
        if k == 'un':
            x = self.operand(mem, b, frame, r[2])
            return self.unop(mem, r[1], x)
        if k == 'rep':
            return T('repeat', self.operand(mem, b, frame, r[1]), INT(r[2]))
        if k == 'tls':
            return T('static:' + r[1])
        return T('rv?' + k)

    def binop(self, mem, op, x, y):
        if op in ('Eq', 'Ne'):
            if x.k == 'int' and y.k == 'disc':
                x, y = y, x
            if x.k == 'disc' and y.k == 'int':
                ad = self.f.adts.get(x.a[3])
                if ad:
                    for i, vv in enumerate(ad['variants']):
                        if int(vv['discr']) == y.a[0]:
                            return self.mkdq(x.a[0], x.a[1], x.a[2], x.a[3], i, op == 'Eq')
        x = self.deconst(x)
        y = self.deconst(y)
        if x.k == 'phi' and y.k != 'phi' and len(x.a[0]) <= 4 and op not in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            s = None
            for m in x.a[0]:
                z = self.binop(mem, op, m, y)
                s = z if s is None else join(s, z)
            return s
        if x.k == 'int' and y.k == 'int':
            a, c = x.a[0], y.a[0]
            try:
                n = {'Add': lambda: a + c, 'Sub': lambda: a - c, 'Mul': lambda: a * c, 'Div': lambda: a // c if c else None, 'Rem': lambda: a % c if c else None,
                     'BitAnd': lambda: a & c, 'BitOr': lambda: a | c, 'BitXor': lambda: a ^ c, 'Eq': lambda: int(a == c), 'Ne': lambda: int(a != c),
                     'Lt': lambda: int(a < c), 'Le': lambda: int(a <= c), 'Gt': lambda: int(a > c), 'Ge': lambda: int(a >= c),
                     'Shl': lambda: a << c if c < 64 else None, 'Shr': lambda: a >> c,
                     'AddUnchecked': lambda: a + c, 'SubUnchecked': lambda: a - c}.get(op, lambda: None)()
            except Exception:
                n = None
            if n is not None:
                return INT(n)
            if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
                n = {'A': a + c, 'S': a - c, 'M': a * c}[op[0]]
                return TUP(INT(n), FALSE if 0 <= n < 128 else T('overflow'))
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            x, y = self.snap(mem, x), self.snap(mem, y)
            return TUP(T('bin:' + op[:3], x, y), T('overflow', STR(op[:3]), x, y))
        xs, ys = self.snap(mem, x), self.snap(mem, y)
        if op in ('Eq', 'Ne'):
            e = self.eq(xs, ys)
            return e if op == 'Eq' else self.neg(e)
        if op in ('Gt', 'Ge'):     # normalise to Lt / Le
            return T('bin:' + {'Gt': 'Lt', 'Ge': 'Le'}[op], ys, xs)
        if op in ('Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor') and ys.uid < xs.uid:
            xs, ys = ys, xs
        if op == 'BitAnd':
            if xs is FALSE or ys is FALSE: return FALSE
        return T('bin:' + op, xs, ys)

    def mkdq(self, v, cell, proj, adt, vi, pos):
        pres = self.variant_filter(v, adt, vi)
        if pres is None:
            return INT(0 if pos else 1)
        ms = members(v)
        if all((m.k == 'adt' and m.a[1] == vi) or (m.k == 'vt' and m.a[2] == vi) for m in ms):
            return INT(1 if pos else 0)
        return mk('dq', v, cell, proj, adt, vi, pos)

    def deconst(self, v):
        if v.k == 'dq':
            return v
        if v.k == 'disc':
            ad = self.f.adts.get(v.a[3])
            if ad:
                r = None
                for m in members(v.a[0]):
                    if m.k == 'adt' and m.a[0] == v.a[3]:
                        x = INT(int(ad['variants'][m.a[1]]['discr']))
                    elif m.k == 'vt':
                        x = INT(int(ad['variants'][m.a[2]]['discr']))
                    else:
                        x = T('disc', m)
                    r = x if r is None else join(r, x)
                return r
            return T('disc', v.a[0])
        return v

    def neg(self, e):
        if e.k == 'dq':
            return mk('dq', *(e.a[:5] + (not e.a[5],)))
        if e is TRUE: return FALSE
        if e is FALSE: return TRUE
        if e.k == 't' and e.a[0] == 'not':
            return e.a[1][0]
        if e.k == 'phi':
            s = None
            for x in e.a[0]:
                y = self.neg(x)
                s = y if s is None else join(s, y)
            return s
        return T('not', e)

    def unop(self, mem, op, x):
        x = self.deconst(x)
        if op == 'Not':
            if x.k == 'int' and x.a[0] in (0, 1):
                return INT(1 - x.a[0])
            return self.neg(x)
        if op == 'Neg' and x.k == 'int':
            return INT(-x.a[0])
        if op == 'PtrMetadata':
            x = self.snap(mem, x)
            if x.k == 'arr': return INT(len(x.a[0]))
            if x.k == 'str': return INT(len(x.a[0].encode()))
            if x.k == 'bytes': return INT(len(x.a[0]))
            return T('len', x)
        return T('un:' + op, self.snap(mem, x))

    CONSTK = ('int', 'str', 'bytes')
    def eq(self, x, y):
        if x.k == 'phi' or y.k == 'phi':
            if x.k == 'phi' and len(x.a[0]) <= 6 and y.k != 'phi':
                s = None
                for m in x.a[0]:
                    z = self.eq(m, y)
                    s = z if s is None else join(s, z)
                return s
            if y.k == 'phi' and len(y.a[0]) <= 6 and x.k != 'phi':
                return self.eq(y, x)
        if x.k in self.CONSTK and y.k in self.CONSTK:
            if x.k == y.k:
                return INT(int(x.a[0] == y.a[0]))
            bx = bytes(x.a[0]) if x.k == 'bytes' else (x.a[0].encode() if x.k == 'str' else None)
            by = bytes(y.a[0]) if y.k == 'bytes' else (y.a[0].encode() if y.k == 'str' else None)
            if bx is not None and by is not None:
                return INT(int(bx == by))
        if x.k == 'adt' and y.k == 'adt' and x.a[0] == y.a[0]:
            if x.a[1] != y.a[1]:
                return FALSE
            r = TRUE
            for p, q2 in zip(x.a[2], y.a[2]):
                e = self.eq(p, q2)
                if e is FALSE: return FALSE
                if e is not TRUE:
                    r = e if r is TRUE else T('bin:BitAnd', r, e)
            return r
        if x.k == 'vt' and y.k == 'adt' and x.a[1] == y.a[0] and x.a[2] != y.a[1]:
            return FALSE
        if y.k == 'vt' and x.k == 'adt' and y.a[1] == x.a[0] and y.a[2] != x.a[1]:
            return FALSE
        if x.k == 'tup' and y.k == 'tup' and len(x.a[0]) == len(y.a[0]):
            r = TRUE
            for p, q2 in zip(x.a[0], y.a[0]):
                e = self.eq(p, q2)
                if e is FALSE: return FALSE
                if e is not TRUE:
                    r = e if r is TRUE else T('bin:BitAnd', r, e)
            return r
        if x.k == 't' and y.k == 't' and x.a[0].startswith('const:http::') and y.a[0].startswith('const:http::'):
            return INT(int(x is y))
        if y.k in self.CONSTK or (x.k not in self.CONSTK and y.uid < x.uid):
            pass
        else:
            x, y = y, x
        return T('eq', x, y)

    # ---------- interpretation ----------
    def run(self, b, args, mem, ps, frame):
        """interpret body b; mem is consumed.  returns list of (ret, mem, ps)"""
        uid = b['uid']
        self.covered.add(uid)
        info = self.f.info(b)
        blocks = b['blocks']
        rpo = info.rpo
        for i, a in enumerate(args):
            mem[(frame, i + 1)] = a
        table = {}    # (block, ps) -> mem
        visits = {}
        changes = {}
        heap = []
        queued = set()
        outs = {}
        seqno = [0]
        exact = self.rule.exact

        def push(blk, ps2, mem2):
            key = (blk, ps2, mem2.get(SPLIT))
            if exact:
                key = (blk, ps2, frozenset((c, v.uid) for c, v in mem2.items()))
                if key in table:
                    return
            old = table.get(key)
            if old is None:
                table[key] = mem2
                ch = True
            else:
                ch = False
                merged = dict(old)
                for c, v in mem2.items():
                    o = old.get(c)
                    if o is v:
                        continue
                    if o is None:
                        merged[c] = v
                        ch = True
                        continue
                    j = join(o, v)
                    if j is not o:
                        n = changes[(key, c)] = changes.get((key, c), 0) + 1
                        if n > 4:
                            j = widen(o, j, n > 20)
                            if n > 12 and j is not o:
                                j = widen(o, coarse(j), n > 20)
                            if n > 30:
                                j = MIX(x for x in atoms(j) | atoms(o) if x[0] != 'int')
                                if o.k == 'mix' and j.a[0] <= o.a[0]:
                                    continue
                            if j is o:
                                continue
                        merged[c] = j
                        ch = True
                if ch:
                    table[key] = merged
            if ch and key not in queued:
                queued.add(key)
                seqno[0] += 1
                heapq.heappush(heap, (rpo[blk], seqno[0], key))

        push(0, ps, mem)
        while heap:
            _, _, key = heapq.heappop(heap)
            queued.discard(key)
            blk, ps, _ = key
            mem = dict(table[key])
            visits[key] = visits.get(key, 0) + 1
            if visits[key] > 250:
                raise Limit(f'no convergence in {b["path"]} bb{blk}')
            self.visits += 1
            if self.visits > self.max_visits:
                raise Limit('visit budget exceeded in ' + b['path'])
            self.blocks_seen.add((uid, blk))
            bb = blocks[blk]
            self.stack.append((b, blk, bb['l']))
            try:
                dead = False
                for s in bb['s']:
                    if s[0] == 'A':
                        v = self.rvalue(mem, b, frame, s[2])
                        self.write_place(mem, s[1], frame, v)
                        if self.want_assign:
                            ps = self.rule.on_assign(ps, b, s[3], s[1], v, self, mem, frame)
                    elif s[0] == 'X':
                        c = (frame, s[1])
                        # keep storage-dead temporaries that may still be referenced by opaque results
                        mem.pop(c, None) if not self.referenced(mem, c) else None
                    elif s[0] == 'SD':
                        pass
                t = bb['t']
                k = t[0]
                if k == 'goto':
                    push(t[1], ps, mem)
                elif k == 'ret':
                    rv = mem.get((frame, 0), UNIT)
                    self.ret(outs, rv, mem, ps, frame)
                elif k == 'sw':
                    self.switch(b, frame, t, mem, ps, push)
                elif k == 'call':
                    self.call(b, blk, frame, t, mem, ps, push)
                elif k == 'drop':
                    push(t[2], ps, mem)
                elif k == 'assert':
                    c = self.operand(mem, b, frame, t[1])
                    if c.k == 'int' and bool(c.a[0]) == bool(t[2]):
                        push(t[4], ps, mem)
                        continue
                    self.frame_now = frame
                    self.rule.on_panic(ps, 'assert:' + t[3], (self, b, bb['l'], mem, c))
                    push(t[4], ps, mem)
                elif k == 'yield':
                    self.write_place(mem, t[1], frame, T('resume'))
                    push(t[2], ps, mem)
            finally:
                self.stack.pop()
        return [(rv, m, k[0]) for k, (rv, m) in outs.items()]

    want_assign = False
    sw_targets = None
    stack_fr = 0

    def referenced(self, mem, cell):
        f = cell[0]
        for c, v in mem.items():
            if f in v.frames and c != cell:
                # conservative: any reference to this very cell
                if ('ref-cell', cell) in refcells(v):
                    return True
        return False

    def ret(self, outs, rv, mem, ps, frame):
        if frame in rv.frames:
            rv = self.snap(mem, rv, 0, frame)
        m2 = {}
        for c, v in mem.items():
            if c[0] == frame:
                continue
            if frame in v.frames:
                v = self.snap(mem, v, 0, frame)
            m2[c] = v
        if SPLIT in mem:
            rest = tuple(x for x in mem[SPLIT].a[0] if x[0][0][0] != frame)
            m2.pop(SPLIT, None)
            if rest:
                m2[SPLIT] = mk('split', rest)
        if rv.k == 'phi':
            g = {}
            for x in sorted(rv.a[0], key=lambda x: x.uid):
                h = shape(x)
                g[h] = x if h not in g else join(g[h], x)
            if len(g) > 1:
                for x in g.values():
                    self.ret1(outs, x, m2, ps)
                return
        self.ret1(outs, rv, m2, ps)

    def ret1(self, outs, rv, m2, ps):
        key = (ps, shape(rv))
        if self.rule.exact:
            key = (ps, frozenset((c, v.uid) for c, v in m2.items()), rv)
        o = outs.get(key)
        if o is None:
            outs[key] = (rv, m2)
        else:
            m = dict(o[1])
            for c, v in m2.items():
                x = m.get(c)
                m[c] = v if x is None else join(x, v)
            outs[key] = (join(o[0], rv), m)

    def variant_filter(self, v, adt, vi):
        k = v.k
        if k == 'adt':
            return v if v.a[1] == vi else None
        if k == 'phi':
            s = None
            for x in v.a[0]:
                y = self.variant_filter(x, adt, vi)
                if y is not None:
                    s = y if s is None else join(s, y)
            return s
        if k == 'vt':
            return v if v.a[2] == vi else None
        if k == 'st':
            y = self.variant_filter(v.a[0], adt, vi)
            return None if y is None else v
        if k in ('t', 'seq', 'mix'):
            return mk('vt', v, adt, vi)
        return v

    def switch(self, b, frame, t, mem, ps, push):
        d = self.operand(mem, b, frame, t[1])
        tg = t[2]
        if d.k == 'phi' and any(m.k == 'disc' for m in d.a[0]):
            d = T('disc', d)
        if d.k == 'disc':
            v, cell, proj, adt = d.a
            ad = self.f.adts.get(adt)
            if ad is None:
                for _, x in tg:
                    push(x, ps, mem)
                push(t[3], ps, mem)
                return
            seen = set()
            dis = {int(x['discr']): i for i, x in enumerate(ad['variants'])}
            def go(vi, blk):
                fv = self.variant_filter(v, adt, vi)
                if fv is None:
                    return
                m = mem
                if cell is not None and fv is not v:
                    m = dict(mem)
                    self.write_targets(m, [(cell, proj)], fv)
                p2 = self.rule.variant(ps, v, ad, [vi]) if v.k == 't' and hasattr(self.rule, 'variant') else ps
                if p2 is not None:
                    push(blk, p2, m)
            for val, blk in tg:
                vi = dis.get(int(val))
                if vi is None:
                    continue
                seen.add(vi)
                go(vi, blk)
            rest = [i for i in range(len(ad['variants'])) if i not in seen]
            if rest and b['blocks'][t[3]]['t'][0] != 'unreach':
                s = None
                for vi in rest:
                    fv = self.variant_filter(v, adt, vi)
                    if fv is not None:
                        s = fv if s is None else join(s, fv)
                if s is not None:
                    m = mem
                    if cell is not None and s is not v and (v.k in ('adt', 'phi') or len(rest) == 1):
                        m = dict(mem)
                        self.write_targets(m, [(cell, proj)], s)
                    p2 = self.rule.variant(ps, v, ad, rest) if v.k == 't' and hasattr(self.rule, 'variant') else ps
                    if p2 is not None:
                        push(t[3], p2, m)
            return
        if d.k == 'dq':
            v, cell, proj, adt, vi, pos = d.a
            nv = len(self.f.adts[adt]['variants'])
            z = None
            for val, blk in tg:
                if int(val) == 0:
                    z = blk
            one = t[3]
            for isit, blk in ((True, one if pos else z), (False, z if pos else one)):
                s = None
                for i in range(nv):
                    if (i == vi) == isit:
                        fv = self.variant_filter(v, adt, i)
                        if fv is not None:
                            s = fv if s is None else join(s, fv)
                if s is None:
                    continue
                m = mem
                if cell is not None and s is not v and (isit or nv == 2 or v.k in ('adt', 'phi')):
                    cur = self.load(mem, cell, proj)
                    if cur is v:
                        m = dict(mem)
                        self.write_targets(m, [(cell, proj)], s)
                push(blk, ps, m)
            return
        if d.k == 'phi' and any(m.k == 'dq' for m in d.a[0]):
            d = self.snap(mem, d)
        vals = members(d)
        targets = {}
        for v in vals:
            if v.k == 'int':
                for val, blk in tg:
                    if int(val) == v.a[0]:
                        targets[blk] = 1
                        break
                else:
                    targets[t[3]] = 1
            else:
                self.sw_targets = [int(val) for val, _ in tg]
                asks = hasattr(self.rule, 'on_branch')
                ln = v.k == 't' and v.a[0].endswith('::len')
                r = self.int_switch(v, tg, ps, mem) if asks and ln else None
                if r is None and asks:
                    r = self.rule.on_branch(ps, v, self, mem)
                self.sw_targets = None
                if r is None and asks and not ln and (v.k != 't' or v.a[0][0] == '.'):
                    r = self.int_switch(v, tg, ps, mem)
                if r is not None:
                    # r: list of (int outcome or None, ps')
                    for n, ps2 in r:
                        if n is None:
                            for val, blk in tg:
                                push(blk, ps2, mem)
                            push(t[3], ps2, mem)
                        else:
                            for val, blk in tg:
                                if int(val) == n:
                                    push(blk, ps2, mem)
                                    break
                            else:
                                push(t[3], ps2, mem)
                    continue
                for val, blk in tg:
                    targets[blk] = 1
                targets[t[3]] = 1
        for blk in targets:
            if b['blocks'][blk]['t'][0] == 'unreach' and not b['blocks'][blk]['s']:
                continue
            push(blk, ps, mem)

    def int_switch(self, v, tg, ps, mem):
        """a switch on a number is a chain of equality tests: ask the rule about each"""
        out = []
        cur = [ps]
        for val, _ in tg:
            nxt = []
            for p in cur:
                r = self.rule.on_branch(p, T('eq', v, INT(int(val))), self, mem)
                if r is None:
                    return None
                for n, p2 in r:
                    if n is None:
                        return None
                    if n:
                        out.append((int(val), p2))
                    else:
                        nxt.append(p2)
            cur = nxt
        return out + [(-1, p) for p in cur]

    def loc(self):
        b, blk, l = self.stack[-1]
        return f"{b['file']}:{l}"

    def trail(self):
        out = []
        for b, blk, l in self.stack:
            if b['local']:
                s = f"{b['path']}@{b['file']}:{l}"
                if not out or out[-1] != s:
                    out.append(s)
        return out

    def call(self, b, blk, frame, t, mem, ps, push):
        fv = self.operand(mem, b, frame, t[1])
        args = [self.operand(mem, b, frame, o) for o in t[2]]
        dest, target = t[3], t[4]
        rty = self.f.ty(b, b['locals'][dest[0]]) if len(dest) == 1 else ''
        self.calls_seen += 1
        self.stack[-1] = (b, blk, t[5])
        fr = self.frame_id(frame, b, blk)
        for rv, m, p in self.apply(fv, args, mem, ps, fr, rty, t[6]):
            if target < 0:
                continue
            m = dict(m)
            self.write_place(m, dest, frame, rv)
            push(target, p, m)
        if target < 0:
            path = fv.a[0][0] if fv.k == 'fn' else '?'
            self.rule.on_panic(ps, 'call:' + path, (self, b, t[5], mem, None))

    def inline(self, b, args, mem, ps, fr):
        if any(x[0]['uid'] == b['uid'] for x in self.stack[:-1]) and sum(1 for x in self.stack if x[0]['uid'] == b['uid']) > 1:
            return None
        if len(self.stack) > self.depth_limit:
            return None
        ps = self.rule.called(ps, b, args, self, mem)
        r = self.rule.enter(ps, b, args, self, mem)
        if r is not None:
            return [(x[0], x[2] if len(x) == 3 else mem, x[1]) for x in r]
        return self.run(b, args, dict(mem), ps, fr)

    def apply_value(self, f, argt, mem, ps, fr, rty='', mac=''):
        """call a closure / fn value with a list of arguments"""
        f0 = f
        n = 0
        while f.k == 'ref' and n < 8:
            f = self.load(mem, f.a[0], f.a[1])
            n += 1
        if f.k == 'phi':
            out = []
            for x in f.a[0]:
                out += self.apply_value(x, argt, mem, ps, fr, rty, mac)
            return out
        if f.k == 'clos':
            cb = self.f.bodies.get(f.a[0])
            if cb is not None:
                # FnMut closures mutate their environment through the reference
                r = self.inline(cb, [f0 if f0.k == 'ref' else f] + list(argt), mem, ps, fr)
                if r is not None:
                    return r
            return [(T('call:closure', self.snap(mem, f), *[self.snap(mem, x) for x in argt]), mem, ps)]
        if f.k == 'fn':
            return self.apply(f, list(argt), mem, ps, fr, rty, mac)
        return self.opaque('call:value', 'call:value', 'value', [f] + list(argt), mem, ps, fr, rty, (), mac)

    def untuple(self, mem, v):
        if v.k == 'ref':
            v = self.load(mem, v.a[0], v.a[1])
        if v.k == 'tup':
            return list(v.a[0])
        if v is UNIT:
            return []
        return [self.project(mem, v, ('f', 0, ''))]

    def poll(self, v, mem, ps, fr, rty):
        """await a future value"""
        tgt = None
        n = 0
        while v.k == 'ref' and n < 10:
            tgt = (v.a[0], v.a[1])
            v = self.load(mem, v.a[0], v.a[1])
            n += 1
        if v.k == 'phi':
            out = []
            for x in v.a[0]:
                out += self.poll(x, mem, ps, fr, rty)
            return out
        if v.k == 'clos':
            cb = self.f.bodies.get(v.a[0])
            if cb is not None and cb['kind'] == 'coroutine':
                r = self.inline(cb, [v, T('resume')], mem, ps, fr)
                if r is not None:
                    return [(READY(rv), m, p) for rv, m, p in r]
            return [(READY(T('await', self.snap(mem, v))), mem, ps)]
        if v.k == 'adt' and v.a[0] == 'core::pin::Pin' and v.a[2]:
            return self.poll(v.a[2][0], mem, ps, fr, rty)
        if v.k == 't' and v.a[0] == 'fmap':
            out = []
            for rv, m, p in self.poll(v.a[1][0], mem, ps, fr, rty):
                inner = self.project(m, rv, ('f', 0, '0'))
                for r2, m2, p2 in self.apply_value(v.a[1][1], [inner], m, p, self.sub(fr, 'map')):
                    out.append((READY(r2), m2, p2))
            return out
        if v.k == 't' and v.a[0] == 'ready':
            return [(READY(v.a[1][0]), mem, ps)]
        # opaque future
        sv = self.snap(mem, v)
        ev = self.event('await', 'await', 'await', [v], mem, rty, (), '')
        r = self.rule.on_call(ps, ev)
        if r is not None:
            return [(READY(x[0]), x[2] if len(x) == 3 else mem, x[1]) for x in r]
        if sv.k == 't' and sv.a[0].startswith('call:'):
            return [(READY(T('await', sv)), mem, ps)]
        return [(READY(T('await', sv)), mem, ps)]

    def event(self, path, decl, kind, args, mem, rty, targs, mac):
        ev = Ev()
        ev.path = path; ev.decl = decl; ev.kind = kind; ev.raw = args
        ev.eng = self; ev.mem = mem
        ev.args = [self.snap(mem, a) for a in args]
        ev.rty = rty; ev.targs = targs; ev.mac = mac; ev.pure = False; ev.fr = self.stack_fr
        st = [x for x in self.stack if x[0]['local']]
        ev.body = st[-1][0] if st else None
        ev.loc = f"{st[-1][0]['file']}:{st[-1][2]}" if st else ''
        ev.stack = self.stack
        return ev

    def apply(self, fv, args, mem, ps, fr, rty, mac=''):
        n = 0
        while fv.k == 'ref' and n < 8:
            fv = self.load(mem, fv.a[0], fv.a[1])
            n += 1
        if fv.k == 'phi':
            out = []
            for x in fv.a[0]:
                out += self.apply(x, args, mem, ps, fr, rty, mac)
            return out
        if fv.k == 'clos':
            return self.apply_value(fv, args, mem, ps, fr, rty, mac)
        if fv.k != 'fn':
            return self.opaque('call:value', 'call:value', 'value', [fv] + args, mem, ps, fr, rty, (), mac)
        path, kind, iid, targs, decl, adt, vi = fv.a[0]
        if kind == 'ctor':
            return [(mk('adt', adt, vi, tuple(args)), mem, ps)]
        if decl in CALL_ONCE:
            at = self.untuple(mem, args[1]) if len(args) > 1 else []
            return self.apply_value(args[0], at, mem, ps, fr, rty, mac)
        if decl == 'core::future::future::Future::poll':
            return self.poll(args[0], mem, ps, fr, rty)
        if decl == 'core::future::get_context':
            return [(T('cx'), mem, ps)]
        if strip_tracing(path) and not self.trace_logs and not decl.startswith('tracing::instrument::'):
            if 'PartialOrd' in decl or path.endswith('is_enabled'):
                return [(FALSE, mem, ps)]
            return [(T('tracing'), mem, ps)]
        r = self.model(decl, path, kind, args, mem, ps, fr, rty, targs, mac)
        if r is not None:
            return r
        if iid is not None:
            cb = self.f.bodies.get(iid)
            if cb is not None and cb['kind'] in ('fn', 'closure', 'coroutine'):
                a2 = args
                if cb.get('spread'):
                    pass
                r = self.inline(cb, a2, mem, ps, fr)
                if r is not None:
                    return r
        return self.opaque(path, decl, kind, args, mem, ps, fr, rty, targs, mac)

    def opaque(self, path, decl, kind, args, mem, ps, fr, rty, targs, mac):
        self.opaque_seen[path] = self.opaque_seen.get(path, 0) + 1
        ev = self.event(path, decl, kind, args, mem, rty, targs, mac)
        if ev.loc:
            self.sites.add((ev.body['path'], path))
        r = self.rule.on_call(ps, ev)
        if r is not None:
            # the rule gives results; &mut arguments are still havocked
            out = []
            hm = None
            for x in r:
                if len(x) == 3:
                    out.append((x[0], x[2], x[1]))
                else:
                    if hm is None:
                        hm = self.havoc(path, args, ev.args, dict(mem), rty) if not ev.pure else mem
                    out.append((x[0], hm, x[1]))
            return out
        r = self.containers(path, decl, args, ev.args, mem, ps, rty, fr)
        if r is not None:
            return r
        # closures passed to unknown code: run them zero or more times
        states = [(mem, ps)]
        crets = []
        for i, a in enumerate(args):
            f = a
            n = 0
            while f.k == 'ref' and n < 6:
                f = self.load(mem, f.a[0], f.a[1])
                n += 1
            for fm in members(f):
                cb = self.f.bodies.get(fm.a[0]) if fm.k == 'clos' else (self.f.bodies.get(fm.a[0][2]) if fm.k == 'fn' and fm.a[0][2] else None)
                if cb is None:
                    continue
                if cb['kind'] == 'coroutine':
                    new = []
                    for m0, p0 in states:
                        for rv, m, p in self.poll(fm, m0, p0, self.sub(fr, ('co', i)), ''):
                            new.append((m, p))
                            crets.append(self.snap(m, rv))
                    states = new or states
                    continue
                nargs = cb['argc'] - (1 if fm.k == 'clos' else 0)
                others = [x for j, x in enumerate(ev.args) if j != i]
                elem = T('elem:' + decl.split('::')[-1], *others)
                if 'iter::' in decl and others:
                    x = elems(others[0])
                    elem = T('each', self.iter_source(others[0])) if x is None or x is NOELEM else x
                new = list(states)
                for m0, p0 in states:
                    argl = [elem] if nargs == 1 else [T('elem%d:%s' % (q, decl.split('::')[-1]), *others) for q in range(nargs)]
                    for rv, m, p in self.apply_value(a if fm is f else fm, argl, m0, p0, self.sub(fr, ('cl', i))):
                        crets.append(self.snap(m, rv))
                        new.append((m, p))
                # merge by property state
                d = {}
                for m, p in new:
                    if p in d:
                        mm = dict(d[p])
                        for c, v in m.items():
                            x = mm.get(c)
                            mm[c] = v if x is None else join(x, v)
                        d[p] = mm
                    else:
                        d[p] = m
                states = [(m, p) for p, m in d.items()]
        sargs = [x if x.k not in ('clos',) else T('closure', *kids(x)) for x in ev.args]
        cr = None
        for c in crets:
            cr = c if cr is None else join(cr, c)
        rvargs = sargs + ([T('ret', cr)] if cr is not None else [])
        out = []
        for m, p in states:
            m = self.havoc(path, args, ev.args, dict(m), rty)
            rv = self.opaque_result(path, args, rvargs, m, rty)
            out.append((rv, m, p))
        return out

    def num(self, name, a, mem):
        B = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'shl': 'Shl', 'shr': 'Shr'}
        if a and a[0].k == 'int' and name in ASCII:
            return [INT(int(0 <= a[0].a[0] < 128 and bool(re.fullmatch(ASCII[name], chr(a[0].a[0]), re.S))))]
        if a and a[0].k == 'int' and name in ('to_ascii_lowercase', 'to_ascii_uppercase') and 0 <= a[0].a[0] < 128:
            return [INT(ord(chr(a[0].a[0]).lower() if name.endswith('lowercase') else chr(a[0].a[0]).upper()))]
        m = re.match(r'^(wrapping|checked|saturating|overflowing)_(add|sub|mul|div|rem|shl|shr)$', name)
        if m and len(a) == 2:
            k, o = m.groups()
            if k == 'wrapping':
                return [self.binop(mem, B[o], a[0], a[1])]
            if k == 'checked':
                if a[0].k == 'int' and a[1].k == 'int':
                    v = self.binop(mem, B[o], a[0], a[1])
                    return [NONE if v.k != 'int' or v.a[0] < 0 else SOME(v)]
                return [NONE, SOME(self.binop(mem, B[o], a[0], a[1]))]
            if k == 'saturating' and o == 'sub':
                if a[0].k == 'int' and a[1].k == 'int':
                    return [INT(max(0, a[0].a[0] - a[1].a[0]))]
                return [T('satsub', a[0], a[1])]
            if k == 'saturating' and o == 'add' and a[0].k == 'int' and a[1].k == 'int' and 0 <= a[0].a[0] + a[1].a[0] < 128:
                return [INT(a[0].a[0] + a[1].a[0])]
            if k == 'saturating':
                return [T('sat' + o, a[0], a[1])]
        return None

    def containers(self, path, decl, args, sargs, mem, ps, rty, fr):
        if not args:
            return None
        if path.endswith('::index') and 'ndex' in path and len(sargs) == 2 and sargs[1].k == 'adt' and sargs[1].a[0].endswith('range::RangeFull'):
            return [(args[0], mem, ps)]          # all of it
        if re.search(r'Vec(Deque)?<.*> as core::ops::index::Index<.*>>::index$', path) and not rty.lstrip("&'_ ").startswith(('[', 'str')) and not (sargs[1].k == 'adt' and 'ange' in sargs[1].a[0]):
            a = sargs[0]
            if a.k in ('seq', 'phi') or a.k == 'arr' and sargs[1].k != 'int':
                el = elems(a)
                if el is not None and el is not NOELEM:
                    return [(el, mem, ps)]
            elif a.k == 'arr' and 0 <= sargs[1].a[0] < len(a.a[0]):
                return [(a.a[0][sargs[1].a[0]], mem, ps)]
        if GETOPT.search(path):
            a = args[0]
            tgt = None
            n = 0
            while a.k == 'ref' and n < 6:
                tgt = a
                a = self.load(mem, a.a[0], a.a[1])
                n += 1
            if a.k == 't' and a.a[0] == 'iter' and path.endswith(('::next', '::next_back')) and a.a[1][0].k == 'arr' and tgt is not None and len(a.a[1]) == 3:
                xs, i, j = a.a[1][0].a[0], a.a[1][1].a[0], a.a[1][2].a[0]
                m = dict(mem)
                old = dict(m[SPLIT].a[0]) if SPLIT in m else {}
                cell = (tgt.a[0], tgt.a[1])
                if i >= j:
                    old.pop(cell, None)
                    rv = NONE
                else:
                    if path.endswith('_back'):
                        j -= 1
                        rv = SOME(xs[j])
                    else:
                        rv = SOME(xs[i])
                        i += 1
                    old[cell] = (i, j)
                self.write_targets(m, [cell], T('iter', a.a[1][0], INT(i), INT(j)))
                if old:
                    m[SPLIT] = mk('split', tuple(sorted(old.items(), key=str)))
                else:
                    m.pop(SPLIT, None)
                return [(rv, m, ps)]
            e = elems(self.snap(mem, a))
            if DBG and e is None: print('ELEMS', path, show(self.snap(mem, a))[:700])
            if e is None and NEXT.search(path):
                src = self.iter_source(self.snap(mem, a))
                return self.iterate(path, src, T('each', src), mem, ps)
            if e is None:
                return None
            src = self.snap(mem, a)
            if e is NOELEM:
                return self.iterate(path, src, None, mem, ps)
            return self.iterate(path, src, e, mem, ps)
        if ITERFN.search(path):
            a = sargs[0]
            if a.k == 'arr' and path.endswith(('::iter', '::into_iter')):
                return [(T('iter', a, INT(0), INT(len(a.a[0]))), mem, ps)]
            if a.k == 't' and a.a[0] == 'iter' and path.endswith('::rev') and len(a.a[1]) == 3 and a.a[1][1] is FALSE:
                return [(T('iter', mk('arr', tuple(reversed(a.a[1][0].a[0]))), a.a[1][1], a.a[1][2]), mem, ps)]
            e = elems(a)
            if e is None:
                return None
            return [(T('iter', mk('arr', () if e is NOELEM else (e,))), mem, ps)]
        if GETONE.search(path):
            e = elems(sargs[0])
            if e is None or e is NOELEM:
                return None
            return [(e, mem, ps)]
        m = re.search(r'(?:Vec|VecDeque)::<.*>::(is_empty|len)$', path)
        if m:
            n = count(sargs[0])
            if n is not None:
                lo, hi = n
                if m.group(1) == 'is_empty' and (hi == 0 or lo > 0):
                    return [(INT(int(hi == 0)), mem, ps)]
                if m.group(1) == 'len' and lo == hi:
                    return [(INT(lo), mem, ps)]
        m = re.search(r'Iterator(?:>)?::(find|position)$', path)
        if m and len(args) == 2:
            a = args[0]
            n = 0
            while a.k == 'ref' and n < 6:
                a = self.load(mem, a.a[0], a.a[1])
                n += 1
            if a.k == 't' and a.a[0] == 'iter' and len(a.a[1]) == 3 and a.a[1][0].k == 'arr':
                out = []
                cur = [(mem, ps)]
                for i, x in enumerate(a.a[1][0].a[0]):
                    nxt = []
                    for mm, pp in cur:
                        for rv, m2, p2 in self.apply_value(args[1], [x], mm, pp, self.sub(fr, 'any')):
                            for val, p3 in self.truth(rv, p2, m2):
                                if val:
                                    out.append((SOME(x if m.group(1) == 'find' else INT(i)), m2, p3))
                                else:
                                    nxt.append((m2, p3))
                    cur = list({pp: (mm, pp) for mm, pp in reversed(nxt)}.values())
                return out + [(NONE, mm, pp) for mm, pp in cur]
        m = re.search(r'Iterator(?:>)?::(any|all)$', path)
        if m:
            a = args[0]
            n = 0
            while a.k == 'ref' and n < 6:
                a = self.load(mem, a.a[0], a.a[1])
                n += 1
            if a.k == 't' and a.a[0] == 'iter' and len(a.a[1]) == 3:
                hit = m.group(1) == 'any'
                out = []
                cur = [(mem, ps)]
                for x in a.a[1][0].a[0]:
                    nxt = []
                    for mm, pp in cur:
                        for rv, m2, p2 in self.apply_value(args[1], [x], mm, pp, self.sub(fr, 'any')):
                            for val, p3 in self.truth(rv, p2, m2):
                                if bool(val) == hit:
                                    out.append((INT(int(hit)), m2, p3))
                                else:
                                    nxt.append((m2, p3))
                    seen = set()
                    cur = []
                    for mm, pp in nxt:
                        if pp not in seen:
                            seen.add(pp)
                            cur.append((mm, pp))
                out += [(INT(int(not hit)), mm, pp) for mm, pp in cur]
                return out
            # a source of unknown length: a loop over its elements
            src = self.iter_source(self.snap(mem, a))
            e = elems(self.snap(mem, a))
            e = T('each', src) if e is None else (None if e is NOELEM else e)
            hit = m.group(1) == 'any'
            out = []
            todo = [ps]
            seen = {ps}
            site = (self.stack[-1][0]['uid'], self.stack[-1][1])
            mems = {ps: mem}
            while todo:
                pp = todo.pop()
                mm = mems[pp]
                p2 = self.rule.on_next(pp, path, site, src, 'end', None, self, mm)
                if p2 is not None:
                    out.append((INT(int(not hit)), mm, p2))
                p2 = None if e is None else self.rule.on_next(pp, path, site, src, 'item', e, self, mm)
                if p2 is None:
                    continue
                for rv, m2, p3 in self.apply_value(args[1], [e], mm, p2, self.sub(fr, 'any')):
                    for val, p4 in self.truth(rv, p3, m2):
                        if bool(val) == hit:
                            out.append((INT(int(hit)), m2, p4))
                        elif p4 not in seen:
                            seen.add(p4)
                            mems[p4] = m2
                            todo.append(p4)
            return out
        return None

    def iterate(self, path, src, e, mem, ps):
        out = []
        b, blk, _ = self.stack[-1]
        site = (b['uid'], blk)
        for tag, v in (('end', NONE), ('item', None if e is None else SOME(e))):
            if v is None:
                continue
            p = self.rule.on_next(ps, path, site, src, tag, e, self, mem)
            if p is not None:
                m = mem
                if self.rule.age and tag == 'item' and e.k == 't' and e.a[0] == 'each':
                    P = T('prev', src)
                    sub = {P: T('older', src), e: P}
                    m = {c: subst(x, sub) for c, x in mem.items()}
                    p = self.rule.aged(p, sub)
                out.append((v, m, p))
        return out

    def iter_source(self, v):
        while True:
            if v.k in ('seq', 'st'):
                v = v.a[0]
            elif v.k == 't' and ITERSRC.match(v.a[0]) and v.a[1]:
                v = v.a[1][0]
            elif v.k == 'phi':
                r = None
                for x in v.a[0]:
                    y = self.iter_source(x)
                    r = y if r is None else join(r, y)
                return r
            else:
                return v

    def truth(self, v, ps, mem):
        """fork on a boolean value -> [(0/1, ps)]"""
        v = self.snap(mem, v)
        out = []
        for x in members(v):
            if x.k == 'int':
                out.append((x.a[0], ps))
                continue
            r = self.rule.on_branch(ps, x, self, mem) if hasattr(self.rule, 'on_branch') else None
            for n, p2 in (r if r is not None else [(None, ps)]):
                if n is None:
                    out += [(0, p2), (1, p2)]
                else:
                    out.append((int(bool(n)), p2))
        return list(dict.fromkeys(out))

    def probe(self, clos, args, mem, ps=()):
        """results of a closure on constant arguments"""
        old = self.rule
        self.rule = Rule()
        try:
            r = None
            for rv, m, p in self.apply_value(clos, args, mem, ps, self.sub(0, 'probe')):
                rv = self.snap(m, rv)
                r = rv if r is None else join(r, rv)
            return r
        finally:
            self.rule = old

    def opaque_result(self, path, args, rvargs, mem, rty):
        if rty.startswith('&mut ') and args and args[0].k == 'ref' and '::next' not in path:
            r = args[0]
            return REF(r.a[0], r.a[1] + (('o', 'call:' + path),))
        if rty == '()':
            return UNIT
        return T('call:' + path, *rvargs)

    MUTNAMES = None
    def havoc(self, path, args, sargs, mem, rty):
        """arguments that are mutable references: their target absorbs the call"""
        if rty.startswith('&mut '):
            return mem
        mi = self.mut_args(path)
        for i, a in enumerate(args):
            for mm in members(a):
                if mm.k != 'ref':
                    continue
                if mi is not None and i not in mi:
                    continue
                if mi is None and not self.is_mutref(i):
                    continue
                old = self.load(mem, mm.a[0], mm.a[1])
                if old.k == 'clos':
                    continue
                others = tuple(x for j, x in enumerate(sargs) if j != i)
                nv = seq_push(self.snap(mem, old), 'call:' + path, others)
                self.write_targets(mem, [(mm.a[0], mm.a[1])], nv)
        return mem

    def mut_args(self, path):
        return None

    def is_mutref(self, i):
        # types of the current call's arguments
        b, blk, _ = self.stack[-1]
        t = b['blocks'][blk]['t']
        if t[0] != 'call' or i >= len(t[2]):
            return True
        o = t[2][i]
        if o[0] == 'k':
            return False
        pl = o[1]
        if len(pl) == 1:
            ty = self.f.ty(b, b['locals'][pl[0]])
            return '&mut ' in ty.split('<')[0] or ty.startswith('core::pin::Pin<&mut') or not ty.startswith('&')
        return True

    # ---------- models ----------
    def model(self, decl, path, kind, args, mem, ps, fr, rty, targs, mac):
        one = lambda v: [(v, mem, ps)]
        if decl == 'core::default::Default::default' and not args and path.startswith('<rusoto_s3::generated::'):
            # a structure of the API: its fields can be set one by one
            nm = path[1:].split(' as ')[0]
            ad = self.f.adts.get(nm)
            if ad and not ad['enum']:
                v = T('call:' + path)
                return one(ADT(nm, 0, tuple(T('.' + n, v) for n in ad['variants'][0]['fields'])))
        if decl in IDENT:
            if decl.endswith('::clone') or decl.endswith('to_owned') or decl.endswith('to_vec') or decl.endswith('copied') or decl.endswith('cloned'):
                v = args[0]
                if v.k == 'ref':
                    v = self.load(mem, v.a[0], v.a[1])
                return one(v)
            return one(args[0])
        if path in IDENT or PIN_IDENT.match(path):
            return one(args[0])
        if decl in ('core::convert::From::from', 'core::convert::Into::into', 'alloc::string::ToString::to_string', 'core::iter::traits::collect::IntoIterator::into_iter'):
            for r in IDENT_FROM:
                if r.match(path):
                    return one(args[0])
            if decl == 'alloc::string::ToString::to_string' and targs and re.match(r"^(&('\w+ )?)*(str|alloc::string::String|std::string::String|char|alloc::borrow::Cow<.*str>|std::borrow::Cow<.*str>)$", targs[0]):
                return one(args[0])
        if decl in ('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne'):
            x, y = self.snap(mem, args[0]), self.snap(mem, args[1])
            e = self.eq(x, y)
            if decl.endswith('ne'):
                e = self.neg(e)
            return self.rule_value(e, path, decl, kind, args, mem, ps, rty, targs, mac)
        if decl == 'core::ops::bit::Not::not':
            return one(self.neg(self.snap(mem, args[0])))
        if decl == 'core::mem::take' or decl == 'core::mem::replace':
            v = args[0]
            if v.k == 'ref':
                old = self.load(mem, v.a[0], v.a[1])
                m = dict(mem)
                self.write_targets(m, [(v.a[0], v.a[1])], args[1] if decl.endswith('replace') else T('default'))
                return [(old, m, ps)]
            return one(v)
        if decl == 'core::mem::swap':
            a, c = args
            if a.k == 'ref' and c.k == 'ref':
                va, vc = self.load(mem, a.a[0], a.a[1]), self.load(mem, c.a[0], c.a[1])
                m = dict(mem)
                self.write_targets(m, [(a.a[0], a.a[1])], vc)
                self.write_targets(m, [(c.a[0], c.a[1])], va)
                return [(UNIT, m, ps)]
        if path == 'alloc::boxed::box_assume_init_into_vec_unsafe':
            v = self.snap(mem, args[0])
            while v.k == 'st' and dict(v.a[1]).get('value') is not None:
                v = dict(v.a[1])['value']
            return one(v)
        m = NUM.match(path)
        if m:
            av = [self.snap(mem, a) for a in args]
            if m.group(1) == 'checked_sub' and len(av) == 2 and not (av[0].k == 'int' and av[1].k == 'int'):
                return [(NONE if val else SOME(self.binop(mem, 'Sub', av[0], av[1])), mem, p) for val, p in self.truth(self.binop(mem, 'Lt', av[0], av[1]), ps, mem)]
            self.numty = path.split('impl ', 1)[1].split('>')[0]
            r = self.rule.on_num(ps, m.group(1), av, self, mem)
            if r is not None:
                return [(x, mem, q) for x, q in r]
            r = self.num(m.group(1), av, mem)
            if r is not None:
                return [(x, mem, ps) for x in r]
        if decl in ('core::cmp::Ord::min', 'core::cmp::Ord::max', 'core::cmp::min', 'core::cmp::max'):
            x, y = [self.snap(mem, a) for a in args]
            nm = decl.rsplit('::', 1)[1]
            if x.k == 'int' and y.k == 'int':
                return one(INT({'min': min, 'max': max}[nm](x.a[0], y.a[0])))
            if y.uid < x.uid:
                x, y = y, x
            return one(T(nm, x, y))
        if decl == 'core::mem::drop':
            return one(UNIT)
        if path in ('core::option::Option::<T>::take', 'core::option::Option::<T>::replace', 'core::option::Option::<T>::insert', 'core::option::Option::<T>::get_or_insert_with', 'core::option::Option::<T>::get_or_insert'):
            v = args[0]
            if v.k == 'ref':
                old = self.load(mem, v.a[0], v.a[1])
                m = dict(mem)
                if path.endswith('take'):
                    self.write_targets(m, [(v.a[0], v.a[1])], NONE)
                    return [(old, m, ps)]
                if path.endswith('replace'):
                    self.write_targets(m, [(v.a[0], v.a[1])], SOME(args[1]))
                    return [(old, m, ps)]
                if path.endswith('::insert'):
                    self.write_targets(m, [(v.a[0], v.a[1])], SOME(args[1]))
                    return [(REF(v.a[0], v.a[1] + (('f', 0, '0'),)), m, ps)]
        if decl in ('futures_util::future::future::FutureExt::map',):
            return one(T('fmap', args[0], args[1]))
        if decl in ('core::future::ready::ready', 'futures_util::future::ready::ready'):
            return one(T('ready', args[0]))
        if decl in ('futures_util::future::ready::ok',):
            return one(T('ready', OK(args[0])))
        if decl in ('futures_util::future::ready::err',):
            return one(T('ready', ERR(args[0])))
        if path.startswith("core::fmt::rt::Argument::<'_>::new_"):
            v = self.snap(mem, args[0])
            kd = path.rsplit('new_', 1)[1]
            if kd == 'display' and (v.k == 'str' or targs and STRTY.match(targs[0])):
                return one(T('fmtarg', v))
            if kd == 'display' and targs and INTTY.match(targs[0]):
                return one(T('fmtarg', T('dispint', v)))
            return one(T('fmtarg', T('disp' if kd == 'display' else kd, v)))
        if path.startswith("core::fmt::Arguments::<'a>::new"):
            r = fmt_parts(self.snap(mem, args[0]), self.snap(mem, args[1]))
            if r is not None:
                return one(r)
        if path.startswith("core::fmt::Arguments::<'a>::from_str"):
            return one(args[0])
        if re.search(r'slice::<impl \[T\]>::concat$', path) and rty and rty.endswith('string::String'):
            v = self.snap(mem, args[0])
            if v.k == 'arr':
                return one(cat(*v.a[0]))
        if path == 'alloc::fmt::format':
            return one(self.snap(mem, args[0]))
        if decl == 'alloc::string::ToString::to_string':
            return one(T('disp', self.snap(mem, args[0])))
        if decl == 'core::ops::arith::Add::add' and 'String' in path:
            return one(cat(self.snap(mem, args[0]), self.snap(mem, args[1])))
        return None

    def rule_value(self, e, path, decl, kind, args, mem, ps, rty, targs, mac):
        if e.k == 'int':
            return [(e, mem, ps)]
        return [(e, mem, ps)]


STRTY = re.compile(r"^(&('\w+ )?(mut )?)*(str|alloc::string::String|std::string::String|char|(alloc|std)::borrow::Cow<.*str>|alloc::boxed::Box<str>)$")
INTTY = re.compile(r"^(&('\w+ )?(mut )?)*[iu](8|16|32|64|128|size)$")

def cat(*xs):
    out = []
    for x in xs:
        ps = x.a[1] if x.k == 't' and x.a[0] == 'cat' else (x,)
        for q in ps:
            if q.k == 't' and q.a[0] == 'dispint' and q.a[1][0].k == 'int':
                q = STR(str(q.a[1][0].a[0]))
            if q.k == 'int' :
                q = T('disp', q)
            if q.k == 'str' and out and out[-1].k == 'str':
                out[-1] = STR(out[-1].a[0] + q.a[0])
            elif not (q.k == 'str' and q.a[0] == ''):
                out.append(q)
    if not out:
        return STR('')
    if len(out) == 1 and out[0].k == 'str':
        return out[0]
    return T('cat', *out)

def fmt_parts(t, a):
    """format_args template (see library/core/src/fmt/mod.rs) -> concatenation"""
    if t.k == 'str':
        t = mk('bytes', tuple(t.a[0].encode()))
    if t.k != 'bytes' or a.k != 'arr':
        return None
    b = bytes(t.a[0])
    i = 0
    n = 0
    out = []
    lit = b''
    try:
        while True:
            c = b[i]; i += 1
            if c == 0:
                break
            if c < 0x80:
                lit = b[i:i + c]; i += c
                out.append(STR(lit.decode()))
                continue
            if c == 0x80:
                l = b[i] | b[i + 1] << 8; i += 2
                out.append(STR(b[i:i + l].decode())); i += l
                continue
            spec = ''
            if c & 1:
                fl = int.from_bytes(b[i:i + 4], 'little'); i += 4
                if fl & (1 << 24): spec += '0'
                if fl & (1 << 23): spec += '#'
                if fl & (1 << 21): spec += '+'
                if fl & 0x1fffff != 0x20: spec += 'fill%d' % (fl & 0x1fffff)
                if fl >> 29 & 3 != 3: spec += 'align%d' % (fl >> 29 & 3)
            if c & 2:
                spec += str(b[i] | b[i + 1] << 8) + ('$' if c & 16 else ''); i += 2
            if c & 4:
                spec += '.' + str(b[i] | b[i + 1] << 8) + ('$' if c & 32 else ''); i += 2
            if c & 8:
                n = b[i] | b[i + 1] << 8; i += 2
            v = a.a[0][n]; n += 1
            v = v.a[1][0] if v.k == 't' and v.a[0] == 'fmtarg' else v
            if spec:
                v = T('spec:' + spec, v)
            out.append(v)
    except IndexError:
        return None
    return cat(*out)

ASCII = {'is_ascii': r'.', 'is_ascii_lowercase': '[a-z]', 'is_ascii_uppercase': '[A-Z]', 'is_ascii_digit': '[0-9]', 'is_ascii_alphabetic': '[a-zA-Z]',
         'is_ascii_alphanumeric': '[a-zA-Z0-9]', 'is_ascii_hexdigit': '[0-9a-fA-F]', 'is_ascii_punctuation': r'[!-/:-@\[-`{-~]', 'is_ascii_control': r'[\x00-\x1f\x7f]',
         'is_ascii_whitespace': r'[ \t\n\x0c\r]', 'is_ascii_graphic': '[!-~]'}

# local containers: an element read from a container is one of the elements put into it
NUM = re.compile(r'^core::(?:num::<impl [ui](?:8|16|32|64|128|size)>|char::methods::<impl char>)::(\w+)$')
NEWC = re.compile(r'^call:(alloc::vec::Vec::<.*>::(new|with_capacity)|alloc::collections::vec_deque::VecDeque::<.*>::(new|with_capacity)|<alloc::vec::Vec<T> as core::default::Default>::default|smallvec::SmallVec::<.*>::new)$')
PUSH = re.compile(r'^call:.*(::push|::push_back|::push_front|::insert|::extend|::append|::extend_from_slice)$')
NEXT = re.compile(r'::next(_back)?$')
ITERSRC = re.compile(r'^(iter|call:.*(::into_iter|::iter|::iter_mut|::flatten|::drain|::rev|::fuse|::by_ref))$')
GETOPT = re.compile(r'(VecDeque::<.*>::(pop_front|pop_back|get|get_mut|front|back)|Vec::<.*>::pop|slice::<impl \[T\]>::(get|get_mut|first|last|first_mut|last_mut)|(IntoIter|Iter|IterMut|Drain|str::iter::R?SplitN?|str::iter::R?SplitTerminator|Components|Chars|Bytes)<.*> as core::iter::traits::iterator::Iterator>::next|(Rev|Flatten|Fuse|Copied|Cloned)<.*> as core::iter::traits::iterator::Iterator>::next|DoubleEndedIterator>::next_back)$')
ITERFN = re.compile(r'(slice::<impl \[T\]>::(iter|iter_mut)|VecDeque::<.*>::(iter|iter_mut|drain)|Vec::<.*>::drain|(as |<impl )core::iter::traits::collect::IntoIterator( for [^>]*)?>::into_iter|core::iter::traits::iterator::Iterator::rev)$')
GETONE = re.compile(r'(Vec::<.*>::(swap_remove|remove))$')

def elems(v, d=0):
    """join of the elements of a local container, or None when unknown"""
    if d > 6:
        return None
    if v.k == 'phi':
        r = None
        for x in v.a[0]:
            y = elems(x, d + 1)
            if y is None:
                return None
            if y is not NOELEM:
                r = y if r is None else join(r, y)
        return NOELEM if r is None else r
    if v.k == 'arr':
        r = None
        for x in v.a[0]:
            r = x if r is None else join(r, x)
        return NOELEM if r is None else r
    if v.k == 't':
        if NEWC.match(v.a[0]):
            return NOELEM
        if v.a[0] == 'iter':
            return elems(v.a[1][0], d + 1)
        return None
    if v.k == 'seq':
        r = elems(v.a[0], d + 1)
        if r is None:
            return None
        for st in v.a[1]:
            for op, xs in (st[1] if st[0] == '*' else (st,)):
                if PUSH.match(op):
                    for x in xs[-1:]:
                        if op.endswith(('extend', 'append', 'extend_from_slice')):
                            x = elems(x, d + 1)
                            if x is None:
                                return None
                            if x is NOELEM:
                                continue
                        r = x if r is NOELEM else join(r, x)
                elif op in ('[]=', 'set'):
                    for x in xs:
                        r = x if r is NOELEM else join(r, x)
        return r
    return None
NOELEM = T('no-element')

def count(v):
    """bounds (lo, hi) on the number of elements of a local container; hi None: unbounded; None: unknown"""
    if v.k == 'arr':
        return (len(v.a[0]), len(v.a[0]))
    if v.k == 't' and NEWC.match(v.a[0]):
        return (0, 0)
    if v.k == 'seq':
        c = count(v.a[0])
        if c is None:
            return None
        lo, hi = c
        for st in v.a[1]:
            for op, xs in (st[1] if st[0] == '*' else (st,)):
                if not (op.endswith(('::push', '::push_back', '::push_front')) and PUSH.match(op)):
                    if re.search(r'::(sort|sort_by|sort_by_key|sort_unstable|sort_unstable_by|sort_unstable_by_key|reverse|reserve)$', op):
                        continue
                    return None
                if st[0] == '*':
                    hi = None
                else:
                    lo += 1
                    hi = None if hi is None else hi + 1
        return (lo, hi)
    if v.k == 'phi':
        r = None
        for x in v.a[0]:
            c = count(x)
            if c is None:
                return None
            r = c if r is None else (min(r[0], c[0]), None if r[1] is None or c[1] is None else max(r[1], c[1]))
        return r
    return None

def coarse(v, d=0):
    """fold everything below the outer variants"""
    if v.k == 'phi':
        r = None
        for x in v.a[0]:
            y = coarse(x, d)
            r = y if r is None else join(r, y)
        return r
    if v.k == 'adt' and d < 2:
        return mk('adt', v.a[0], v.a[1], tuple(coarse(x, d + 1) for x in v.a[2]))
    if v.k == 'tup' and d < 2:
        return mk('tup', tuple(coarse(x, d + 1) for x in v.a[0]))
    if v.k in ('clos', 'fn', 'ref', 'int', 'str', 'mix'):
        return v
    if v.k == 'vt':
        return mk('vt', MIX(atoms(v.a[0])), v.a[1], v.a[2])
    return MIX(atoms(v))

def subst(v, sub, memo=None):
    """replace subterms"""
    if memo is None:
        memo = {}
        if not any(contains_(v, k) for k in sub):
            return v
    if v in sub:
        return sub[v]
    r = memo.get(v)
    if r is not None:
        return r
    k, a = v.k, v.a
    s = lambda x: subst(x, sub, memo)
    if k in ('tup', 'arr'): r = mk(k, tuple(s(x) for x in a[0]))
    elif k == 'adt': r = mk('adt', a[0], a[1], tuple(s(x) for x in a[2]))
    elif k == 'clos': r = mk('clos', a[0], tuple(s(x) for x in a[1]))
    elif k == 't': r = mk('t', a[0], tuple(s(x) for x in a[1]))
    elif k == 'vt': r = mk('vt', s(a[0]), a[1], a[2])
    elif k == 'st': r = mk('st', s(a[0]), tuple((f, s(x)) for f, x in a[1]))
    elif k == 'phi':
        for x in a[0]:
            y = s(x)
            r = y if r is None else join(r, y)
    elif k == 'seq':
        st = []
        for q in a[1]:
            if q[0] == '*': st.append(('*', frozenset((o, tuple(s(x) for x in xs)) for o, xs in q[1])))
            else: st.append((q[0], tuple(s(x) for x in q[1])))
        r = mk('seq', s(a[0]), tuple(st))
    elif k in ('disc', 'dq'): r = mk(k, s(a[0]), *a[1:])
    else: r = v
    memo[v] = r
    return r

_cont = {}
def contains_(v, x):
    key = (v, x)
    r = _cont.get(key)
    if r is None:
        r = _cont[key] = v is x or any(contains_(c, x) for c in kids(v))
    return r

_refcells = {}
def refcells(v):
    r = _refcells.get(v)
    if r is None:
        s = set()
        if v.k == 'ref':
            s.add(('ref-cell', v.a[0]))
        for c in kids(v):
            if c.frames:
                s |= refcells(c)
        r = _refcells[v] = frozenset(s)
    return r


def shape(v, d=0):
    k = v.k
    if k == 'adt':
        if d < 2 and len(v.a[2]) <= 2:
            return (v.a[0], v.a[1]) + tuple(shape(x, d + 1) for x in v.a[2])
        return (v.a[0], v.a[1])
    if k == 'vt':
        return (v.a[1], v.a[2])
    if k == 'int':
        return v.a[0] if d < 2 and v.a[0] in (0, 1) else 'n'
    if k == 'tup' and d < 2 and 0 < len(v.a[0]) <= 3:
        return ('t',) + tuple(shape(x, d + 1) for x in v.a[0])
    return 'o'

"""What the storage layer does, as events: every file-system effect with its classified operands and outcome.

The file-system, stream, hash and clock libraries are the vocabulary of the analysis: each of their calls
becomes an event with all its possible outcomes (success, failure, end of stream, absent file...).  The
code of the repository between those calls is interpreted (engine.py)."""
import re
from engine import *

FS = re.compile(r'^(?:<)?(async_fs|std::fs|tokio::fs|std::os::unix::fs|tokio::io|std::os::fd|libc|nix|rustix|tempfile)::')

def textual(v):
    """a text put together piece by piece, as the text it is"""
    if v.k == 'phi':
        return PHI({textual(x) for x in v.a[0]})
    if v.k == 'seq':
        import lists
        f = lists.joined(lists.flatten(v))
        if f:
            from engine import cat
            return cat(*[T('disp', x) if x.k not in ('str', 't') else x for x in f])
    return v

def base_of(v):
    while v.k in ('seq', 'st'):
        v = v.a[0]
    return v

def P(kind, *xs): return T('P:' + kind, *xs)
def isP(v, kind=None):
    return v.k == 't' and v.a[0].startswith('P:') and (kind is None or v.a[0] == 'P:' + kind)
def anyP(v):
    """path label of an operand: unwraps option/ok layers; a phi of equal labels is one label"""
    v = base_of(v)
    if v.k == 'phi':
        ls = {anyP(x) for x in v.a[0]}
        return ls.pop() if len(ls) == 1 else PHI(ls)
    if v.k == 'adt' and len(v.a[2]) == 1:
        return anyP(v.a[2][0])
    return v

def IOERR(what): return T('ioerr', STR(what))

# effect kind by function name; operands are described where they are used
ASYNC = {
    'rename': 'rename', 'remove_file': 'remove_file', 'remove_dir': 'remove_dir', 'remove_dir_all': 'remove_dir_all',
    'create_dir': 'create_dir', 'create_dir_all': 'create_dir_all', 'copy': 'copy_file', 'write': 'write_file', 'read': 'read_file',
    'read_to_string': 'read_file', 'read_dir': 'read_dir', 'metadata': 'metadata', 'symlink_metadata': 'metadata', 'hard_link': 'hard_link',
    'canonicalize': 'canonicalize', 'File::create': 'create', 'File::create_new': 'create', 'File::open': 'open', 'exists': 'exists', 'try_exists': 'try_exists',
    'File::metadata': 'fmetadata', 'File::sync_all': 'sync', 'File::sync_data': 'sync', 'File::set_len': 'set_len', 'set_permissions': 'chmod',
    'DirEntry::file_type': 'file_type', 'DirEntry::metadata': 'emetadata', 'symlink': 'symlink', 'DirBuilder::create': 'create_dir_all',
    'OpenOptions::open': 'open_opts', 'File::set_permissions': 'chmod', 'unix::symlink': 'symlink',
}
PUREFS = ('DirEntry::path', 'DirEntry::file_name', 'FileType::is_dir', 'FileType::is_file', 'FileType::is_symlink', 'Metadata::is_dir', 'Metadata::is_file', 'Metadata::len',
          'Metadata::modified', 'Metadata::created', 'Metadata::accessed', 'Metadata::file_type', 'Metadata::permissions', 'Metadata::is_symlink',
          'OpenOptions::new', 'OpenOptions::read', 'OpenOptions::write', 'OpenOptions::create', 'OpenOptions::create_new', 'OpenOptions::truncate', 'OpenOptions::append', 'File::options',
          'DirBuilder::new', 'DirBuilder::recursive')

def fsname(path):
    m = FS.match(path)
    if not m:
        return None
    p = re.sub(r'<[^<>]*>', '', path[len(m.group(0)):]).replace('::::', '::').strip('<>')
    p = p.split(' as ')[0]
    return p.strip(':')


class FsRule(Rule):
    """base: subclasses override ev()/ret() and keep a hashable property state"""
    init = ()
    SELF = T('arg:self')

    def __init__(self):
        self.violations = {}
        self.nev = {}
        self.nodes = set()

    # ---- to override ----
    def ev(self, ps, kind, args, out, e):
        """one effect with its outcome -> ps"""
        return ps

    def report(self, key, msg, e=None, trail=None):
        if key not in self.violations:
            loc = getattr(e, 'loc', '') if e is not None else ''
            tr = trail if trail is not None else (e.eng.trail() if e is not None and hasattr(e, 'eng') else [])
            self.violations[key] = {'key': key, 'msg': msg, 'at': loc, 'trail': tr}

    def branch(self, ps, v, eng, mem):
        return None

    # ---- machinery ----
    NREAD = T('nread')
    def on_branch(self, ps, v, eng, mem):
        t, pos = v, True
        while t.k == 't' and t.a[0] == 'not':
            t, pos = t.a[1][0], not pos
        if t is self.NREAD:
            return [(1, ps)]
        if t.k == 't' and t.a[0].startswith('is:') and t.a[0].endswith('ErrorKind:0') and t.a[1][0].k == 't' and t.a[1][0].a[0] == 'errkind':
            return [(int(not pos), ps)]
        if t.k == 't' and len(t.a[1]) == 2:
            x, y = t.a[1]
            r = None
            if t.a[0] == 'eq':
                for u, w in ((x, y), (y, x)):
                    if u.k == 't' and u.a[0] == 'errkind' and w.k == 'adt' and w.a[0].endswith('ErrorKind') and w.a[1] == 0:
                        return [(int(not pos), ps)]
            if t.a[0] == 'eq' and {x, y} == {self.NREAD, FALSE}: r = False
            elif t.a[0] == 'bin:Lt' and x is FALSE and y is self.NREAD: r = True
            elif t.a[0] == 'bin:Le' and x is self.NREAD and y is FALSE: r = False
            elif t.a[0] == 'bin:Le' and x is FALSE and y is self.NREAD: r = True
            elif t.a[0] == 'bin:Lt' and x is self.NREAD and y in (FALSE, TRUE): r = False
            elif t.a[0] == 'bin:Le' and x is TRUE and y is self.NREAD: r = True
            if r is not None:
                return [(int(r == pos), ps)]
        return self.branch(ps, v, eng, mem)

    def emit(self, ps, kind, args, out, e):
        self.nev[kind] = self.nev.get(kind, 0) + 1
        if e is not None and e.body is not None:
            self.nodes.add((e.body['path'], kind))
        return self.ev(ps, kind, args, out, e)

    def fork(self, ps, kind, args, e, outs):
        """outs: [(tag, value)]"""
        r = []
        for tag, v in outs:
            p = self.emit(ps, kind, args, tag, e)
            if p is not None:
                r.append((v, p))
        return r

    def two(self, ps, kind, args, e, okv=UNIT):
        return self.fork(ps, kind, args, e, [('ok', OK(okv)), ('err', ERR(IOERR(kind)))])

    def on_call(self, ps, e):
        p = e.path
        a = e.args
        if p == 'await':
            return self.on_await(ps, e)
        if p.endswith('io::error::Error::kind') and a and a[0].k == 't' and a[0].a[0] in ('ioerr', 'ioerr-missing'):
            e.pure = True
            return [(ADT('core::io::error::ErrorKind', 0, ()) if a[0].a[0] == 'ioerr-missing' else T('errkind', a[0]), ps)]
        # ---- paths ----
        if p.endswith('::absolutize_virtually'):
            e.pure = True
            lab = self.virt(anyP(a[0]), anyP(a[1]))
            return self.fork(ps, 'resolve', [anyP(a[0]), self.root_label(anyP(a[1])), lab], e, [('ok', OK(lab)), ('err', ERR(IOERR('resolve')))])
        if p in ('std::path::Path::join', 'std::path::PathBuf::push'):
            e.pure = p.endswith('join')
            lab = self.join_path(anyP(a[0]), anyP(a[1]))
            if p.endswith('join'):
                return [(lab, ps)]
            m = dict(e.mem)
            r = e.raw[0]
            if r.k == 'ref':
                e.eng.write_targets(m, [(r.a[0], r.a[1])], lab)
                return [(UNIT, ps, m)]
            return None
        if p == 'std::path::Path::parent':
            e.pure = True
            q = anyP(a[0])
            return [(NONE, ps), (SOME(P('parent', q)), ps)]
        if p in ('std::path::Path::exists', 'std::path::Path::is_dir', 'std::path::Path::is_file', 'std::path::Path::try_exists', 'std::path::Path::is_symlink'):
            e.pure = True
            k = p.rsplit('::', 1)[1]
            if k == 'try_exists':
                return self.fork(ps, 'exists', [anyP(a[0])], e, [('true', OK(TRUE)), ('false', OK(FALSE)), ('err', ERR(IOERR(k)))])
            return self.fork(ps, k, [anyP(a[0])], e, [('true', TRUE), ('false', FALSE)])
        if p == 'std::path::Path::strip_prefix':
            e.pure = True
            rel = T('rel', anyP(a[0]), anyP(a[1]))
            return self.fork(ps, 'strip_prefix', [anyP(a[0]), anyP(a[1])], e, [('ok', OK(rel)), ('err', ERR(IOERR('strip_prefix')))])
        if p in ('std::path::Path::to_string_lossy', 'std::ffi::os_str::OsStr::to_string_lossy', 'std::path::Path::display', 'std::path::Path::to_path_buf', 'std::path::Path::as_os_str'):
            e.pure = True
            return [(anyP(a[0]), ps)]
        if p in ('std::path::Path::to_str', 'std::ffi::os_str::OsStr::to_str'):
            e.pure = True
            return [(NONE, ps), (SOME(anyP(a[0])), ps)]
        n = fsname(p)
        if n is not None:
            return self.fs_call(ps, n, e)
        # ---- streams, readers and writers ----
        if p.endswith('StreamExt::next') or p.endswith('StreamExt::try_next'):
            e.pure = True
            return [(T('fut:' + ('try_next' if 'try_next' in p else 'next'), e.raw[0]), ps)]
        m = re.search(r'(?:TryStreamExt::(inspect_ok|map_ok|inspect_err|map_err)|StreamExt::(inspect|map))$', p)
        if m:
            e.pure = True
            return [(T('adapt:' + (m.group(1) or m.group(2)), e.raw[0], e.raw[1]), ps)]
        if re.search(r'BufWriter::<.*>::(new|with_capacity)$', p) or re.search(r'BufReader::<.*>::(new|with_capacity)$', p):
            e.pure = True
            return [(T('bufw' if 'BufWriter' in p else 'bufr', a[-1]), ps)]
        if re.search(r'AsyncWriteExt::(write_all|write|flush|close|write_vectored)$', p):
            e.pure = True
            return [(T('fut:' + p.rsplit('::', 1)[1], *([e.raw[0]] + [self.lab(x) for x in a[1:]])), ps)]
        if re.search(r'AsyncReadExt::(read|read_exact|read_to_end|read_to_string)$', p):
            e.pure = True
            return [(T('fut:' + p.rsplit('::', 1)[1], *e.raw), ps)]
        if re.search(r'AsyncReadExt::take$', p):
            e.pure = True
            return [(T('take', a[0], a[1]), ps)]
        if re.search(r'AsyncSeekExt::seek$', p):
            e.pure = True
            return [(T('fut:seek', a[0], a[1]), ps)]
        if re.search(r'^futures_util::io::(copy::copy|copy_buf::copy_buf)$', p):
            e.pure = True
            return [(T('fut:copy', self.lab(a[0]), self.lab(a[1])), ps)]
        # ---- hashing ----
        if p.endswith('digest::Digest>::new') or re.search(r'Digest>::(default)$', p):
            e.pure = True
            return [(T('hash:new', STR(self.hashty(e))), ps)]
        if re.search(r'(Digest|Update)>::(update|chain)$', p):
            ps = self.emit(ps, 'hash', [self.lab(a[1])], 'ok', e)
            m = dict(e.mem)
            r = e.raw[0]
            if r.k == 'ref':
                old = e.eng.load(m, r.a[0], r.a[1])
                e.eng.write_targets(m, [(r.a[0], r.a[1])], seq_push(e.eng.snap(m, old), 'update', (self.lab(a[1]),)))
                return [(UNIT, ps, m)]
            return [(UNIT, ps)]
        if re.search(r'Digest>::(finalize|finalize_reset|result)$', p):
            e.pure = True
            ps = self.emit(ps, 'hash_end', [a[0]], 'ok', e)
            return [(T('digest', base_of(a[0]), *sorted(self.hashed(a[0]), key=lambda x: x.uid)), ps)]
        if re.search(r'Digest>::digest$', p):
            e.pure = True
            return [(T('digest', T('hash:new', STR(self.hashty(e))), self.lab(a[0])), ps)]
        # bytes read into a buffer
        if re.search(r'slice::<impl \[T\]>::get$|slice::index::.*::(get|index)$|ops::index::Index.*>::index$|split_at$', p):
            b = base_of(a[0])
            if self.isbuf(b) and len(a) > 1:
                e.pure = True
                rng = a[1]
                ok = rng.k == 'adt' and rng.a[0].endswith('range::RangeTo') and rng.a[2] and find(rng.a[2][0], lambda x: x is T('nread'))
                ok = ok or rng.k == 'adt' and rng.a[0].endswith('range::Range') and len(rng.a[2]) == 2 and rng.a[2][0] is INT(0) and bool(find(rng.a[2][1], lambda x: x is T('nread')))
                lab = T('rbytes') if ok else T('rbytes-part')
                if p.endswith('get'):
                    return [(SOME(lab), ps), (NONE, ps)]
                return [(lab, ps)]
        return self.other(ps, e)

    def other(self, ps, e):
        return None

    def below(self, x):
        """directory label: everything found below a directory carries the label of that directory"""
        if x.k == 'phi':
            ls = {self.below(y) for y in x.a[0]}
            return ls.pop() if len(ls) == 1 else PHI(ls)
        while isP(x, 'entry'):
            x = x.a[1][0]
        return x

    def isbuf(self, b):
        return b.k == 't' and b.a[0].startswith(('call:alloc::vec::from_elem', 'repeat', 'call:bytes::bytes_mut')) or b.k == 'mix' and ('op', 'call:alloc::vec::from_elem') in b.a[0]

    def hashty(self, e):
        t = (e.targs or ('',))[0]
        return t

    def hashed(self, v):
        """labels fed to a hash object"""
        out = set()
        if v.k == 'seq':
            for st in v.a[1]:
                for op, xs in (st[1] if st[0] == '*' else (st,)):
                    out |= set(xs) if op == 'update' else {T('unknown:' + op)}
        if v.k == 'phi':
            for x in v.a[0]:
                out |= self.hashed(x)
        if v.k == 'mix':
            out.add(v)
        return out

    def lab(self, v):
        """label of written or hashed data / of a file handle: strips buffers, references and wrappers"""
        v = base_of(v)
        if v.k == 'phi':
            s = {self.lab(x) for x in v.a[0]}
            return s.pop() if len(s) == 1 else PHI(s)
        if v.k == 't' and v.a[0] in ('bufw', 'bufr') and v.a[1]:
            return self.lab(v.a[1][0])
        if v.k == 't' and re.match(r'^call:.*(as_ref|deref|as_slice|to_vec|Bytes::from)$', v.a[0]) and v.a[1]:
            return self.lab(v.a[1][0])
        return v

    def virt(self, p, root):
        p = textual(p)
        if root is T('.root', self.SELF):
            root = P('root')
        if isP(root, 'root'):
            if p.k == 't' and p.a[0] == 'cat' or p.k == 'str':
                return P('file', p)
            if isP(p):
                return p
            return P('bucket', p)
        if isP(p):
            return p
        return self.join_path(root, p)

    def join_path(self, d, k):
        k = textual(k)
        if d is T('.root', self.SELF):
            d = P('root')
        if isP(k):
            return k
        if isP(d, 'root'):
            if k.k == 't' and k.a[0] == 'cat' or k.k == 'str':
                return P('file', k)
            return P('rootjoin', k)
        if isP(d, 'bucket'):
            return P('obj', d.a[1][0], k)
        return P('join', d, k)

    def root_label(self, v):
        return P('root') if v is T('.root', self.SELF) else v

    def fs_call(self, ps, n, e):
        a = [self.root_label(anyP(x)) for x in e.args]
        short = n
        if short in ASYNC and not e.path.startswith('std::'):
            e.pure = True
            return [(T('fut:fs:' + ASYNC[short], *a), ps)]
        if short in ASYNC:
            e.pure = True
            return self.effect(ps, ASYNC[short], a, e)
        x = self.lab(e.args[0]) if e.args else UNIT
        if short == 'DirEntry::path':
            e.pure = True
            return [(P('entry', x.a[1][0]) if x.k == 't' and x.a[0] == 'entry' else P('?', x), ps)]
        if short == 'DirEntry::file_name':
            e.pure = True
            return [(T('name', x), ps)]
        if short in ('FileType::is_dir', 'FileType::is_file', 'Metadata::is_dir', 'Metadata::is_file'):
            e.pure = True
            return self.fork(ps, short.rsplit('::', 1)[1], [x], e, [('true', TRUE), ('false', FALSE)])
        if short in ('Metadata::modified', 'Metadata::created', 'Metadata::accessed'):
            e.pure = True
            k = short.rsplit('::', 1)[1]
            return self.fork(ps, k, [x], e, [('ok', OK(T(k, x))), ('err', ERR(IOERR(k)))])
        if short == 'Metadata::len':
            e.pure = True
            return [(T('len-of', x), ps)]
        if short == 'Metadata::file_type':
            e.pure = True
            return [(x, ps)]
        if short in ('FileType::is_symlink', 'Metadata::is_symlink', 'Metadata::permissions'):
            return None
        if short.startswith(('OpenOptions::', 'File::options', 'DirBuilder')):
            return None
        if 'Clone' in e.path or 'Debug' in e.path or 'Drop' in e.path:
            return None
        ps = self.emit(ps, 'unknown_fs', [STR(e.path)] + a, '?', e)
        return None

    def kinds(self, eng):
        """is a function under way which tells kinds of I/O errors apart?"""
        d = eng.f.__dict__.setdefault('errkinds', {})
        for fr in eng.stack:
            b = fr[0]
            if not b['local']:
                continue
            if b['uid'] not in d:
                d[b['uid']] = bool(re.search(r'io::error::Error::kind\b', str(b['blocks'])))
            if d[b['uid']]:
                return True
        return False

    def effect(self, ps, k, a, e):
        r = self.effect1(ps, k, a, e)
        if k in ('read_file', 'remove_file', 'metadata', 'open') and a and self.kinds(e.eng):
            # nothing is there: the call fails with NotFound
            x = self.lab(a[0])
            if not (x.k == 't' and x.a[0].startswith('file:')):
                q = self.emit(ps, 'exists', [x], 'false', e)
                if q is not None:
                    r = r + [(ERR(T('ioerr-missing', STR(k))), q)]
        return r

    def effect1(self, ps, k, a, e):
        x = a[0] if a else UNIT
        if k == 'create':
            return self.two(ps, k, [x], e, T('file:w', x))
        if k == 'open':
            return self.two(ps, k, [x], e, T('file:r', x))
        if k == 'open_opts':
            o = e.args[0] if e.path != 'await' else x
            at = atoms(o)
            pth = a[-1]
            wr = any(q[0] == 'op' and re.search(r'OpenOptions::(write|create|truncate|append|create_new)$', q[1]) for q in at) or o.k == 'mix'
            return self.two(ps, 'create' if wr else 'open', [pth], e, T('file:w' if wr else 'file:r', pth))
        if k == 'read_file':
            return self.two(ps, k, [x], e, T('content', x))
        if k == 'read_dir':
            return self.two(ps, k, [x], e, T('rd', self.below(x)))
        if k in ('metadata', 'fmetadata', 'emetadata'):
            y = self.lab(x)
            if y.k == 't' and y.a[0].startswith('file:'):
                y = y.a[1][0]
            return self.two(ps, 'metadata', [y], e, T('meta-of', y))
        if k == 'file_type':
            return self.two(ps, k, [self.lab(x)], e, T('ftype', self.lab(x)))
        if k in ('try_exists',):
            return self.fork(ps, 'exists', [x], e, [('true', OK(TRUE)), ('false', OK(FALSE)), ('err', ERR(IOERR(k)))])
        if k == 'exists':
            return self.fork(ps, 'exists', [x], e, [('true', TRUE), ('false', FALSE)])
        if k == 'canonicalize':
            return self.two(ps, k, [x], e, T('canonical', x))
        return self.two(ps, k, a, e)

    def on_await(self, ps, e):
        raw = e.raw[0]
        while raw.k == 'ref':
            raw = e.eng.load(e.mem, raw.a[0], raw.a[1])
        if raw.k == 'adt' and raw.a[0].endswith('Pin') and raw.a[2]:
            raw = raw.a[2][0]
        if raw.k == 't' and raw.a[0].startswith('fut:'):
            k = raw.a[0][4:]
            xs = raw.a[1]
            S = lambda v: self.lab(e.eng.snap(e.mem, v))
            if k.startswith('fs:'):
                return self.effect(ps, k[3:], list(xs), e)
            if k in ('next', 'try_next'):
                return self.next(ps, k, xs[0], e)
            if k in ('write_all', 'write', 'flush', 'close', 'write_vectored'):
                f = S(xs[0])
                if k == 'write':
                    return self.fork(ps, k, [f] + list(xs[1:]), e, [('ok', OK(T('nwritten'))), ('err', ERR(IOERR(k)))])
                return self.two(ps, k, [f] + list(xs[1:]), e)
            if k == 'copy':
                return self.two(ps, 'copy', list(xs), e, T('ncopied'))
            if k == 'seek':
                return self.two(ps, 'seek', [self.lab(xs[0])] + list(xs[1:]), e, T('pos'))
            if k in ('read', 'read_exact'):
                f = S(xs[0])
                outs = [('eof', OK(INT(0))), ('data', OK(T('nread'))), ('err', ERR(IOERR('read')))]
                return self.fork(ps, 'read', [f], e, outs)
            if k in ('read_to_end', 'read_to_string'):
                f = S(xs[0])
                m = dict(e.mem)
                r = xs[1]
                if r.k == 'ref':
                    e.eng.write_targets(m, [(r.a[0], r.a[1])], T('content', f.a[1][0] if f.k == 't' and f.a[1] else f))
                return [(v, p, m) for v, p in self.two(ps, 'read_file', [f], e, T('nread'))]
            return None
        s = e.args[0]
        return self.await_other(ps, e, s)

    def await_other(self, ps, e, s):
        at = atoms(s)
        if s.k == 'mix' and any(q[0] == 'op' and q[1].startswith('fut:') for q in at):
            ps = self.emit(ps, 'unknown_fs', [STR('imprecise await')], '?', e)
        return None

    def next(self, ps, k, ref, e):
        eng = e.eng
        v = ref
        n = 0
        while v.k == 'ref' and n < 10:
            v = eng.load(e.mem, v.a[0], v.a[1])
            n += 1
        adapters = []
        while True:
            if v.k == 'ref':
                v = eng.load(e.mem, v.a[0], v.a[1])
            elif v.k == 't' and v.a[0].startswith('adapt:'):
                adapters.append((v.a[0][6:], v.a[1][1]))
                v = v.a[1][0]
            elif v.k in ('seq', 'st'):
                v = v.a[0]
            elif v.k == 'adt' and len(v.a[2]) == 1:
                v = v.a[2][0]
            else:
                break
        src = self.lab(eng.snap(e.mem, v))
        isdir = src.k == 't' and src.a[0] == 'rd'
        item = T('entry', src.a[1][0]) if isdir else T('chunk')
        kind = 'next_entry' if isdir else 'next_chunk'
        out = []
        for tag in ('end', 'err', 'item'):
            p = self.emit(ps, kind, [src], tag, e)
            if p is None:
                continue
            if tag == 'end':
                rv = NONE if k == 'next' else OK(NONE)
                out.append((rv, p, e.mem))
            elif tag == 'err':
                rv = SOME(ERR(IOERR(kind))) if k == 'next' else ERR(IOERR(kind))
                out.append((rv, p, e.mem))
            else:
                st = [(item, e.mem, p)]
                for nm, cl in reversed(adapters):
                    if nm in ('inspect_ok', 'map_ok', 'inspect', 'map'):
                        nst = []
                        for it, m, pp in st:
                            arg = it if nm.endswith('_ok') else OK(it)
                            for rv, m2, p2 in eng.apply_value(cl, [arg], m, pp, eng.sub(e.fr, 'adapt')):
                                nst.append((it if nm.startswith('inspect') else (rv if nm == 'map_ok' else eng.project(m2, rv, ('f', 0, '0'))), m2, p2))
                        st = nst
                for it, m, pp in st:
                    rv = SOME(OK(it)) if k == 'next' else OK(SOME(it))
                    out.append((rv, pp, m))
        return out


def run_op(facts, rule, body, args, mem=None, ps=None, budget=None):
    """run an async fn (async_trait or plain) to completion -> engine, [(ret, mem, ps)]"""
    e = Engine(facts, rule)
    if budget:
        e.max_visits = budget
    ps = rule.init if ps is None else ps
    outs = []
    for rv, m, p in e.run(body, args, mem or {}, ps, 0):
        if any(q.k == 'clos' for q in members(rv)) or rv.k == 'adt' and rv.a[0].endswith('Pin'):
            e.stack.append((body, 0, 0))
            for r2, m2, p2 in e.poll(rv, m, p, e.sub(0, 'p'), ''):
                outs.append((e.snap(m2, e.project(m2, r2, ('f', 0, '0'))), m2, p2))
            e.stack.pop()
        else:
            outs.append((e.snap(m, rv), m, p))
    return e, outs

CODE = 'errors::S3ErrorCode'
def codes(facts, v):
    """names of the S3ErrorCode variants an error value may carry ('?' when unknown)"""
    vs = facts.adts[CODE]['variants']
    fields = find(v, lambda x: x.k == 'adt' and x.a[0] == CODE)
    out = {vs[x.a[1]]['name'] for x in fields}
    # operation error enums (dto)
    for x in find(v, lambda x: x.k == 'adt' and x.a[0].endswith('Error') and 'rusoto_s3' in x.a[0]):
        ad = facts.adts.get(x.a[0])
        if ad and ad['enum']:
            out.add(ad['variants'][x.a[1]]['name'])
    return out

def error_members(v):
    """the alternatives of an error value, one per construction"""
    out = []
    def go(x, d):
        if x.k == 'phi':
            for y in x.a[0]:
                go(y, d)
        elif x.k == 'adt' and d < 6 and len(x.a[2]) >= 1 and x.a[0] != CODE:
            if any(q.k == 'phi' for q in x.a[2][:1]) or x.a[2][0].k == 'adt' and x.a[2][0].a[0] != CODE:
                go(x.a[2][0], d + 1)
            else:
                out.append(x)
        else:
            out.append(x)
    go(v, 0)
    return out

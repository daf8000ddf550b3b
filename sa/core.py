"""Common parts of the checks: registry, obligations, reporting."""
import os, sys, json, time, re
from engine import *
from fsmodel import *

PROPS = {}
def prop(pid, rule):
    def deco(fn):
        PROPS[pid] = (fn, rule)
        return fn
    return deco

class Missing(Exception):
    """an anchor of the analysis is gone: the check has no answer"""

def _job(i):
    ctx, fn, items = JOB
    c = Ctx(ctx.pid, ctx.facts, ctx.tier)
    try:
        fn(c, items[i])
    except Exception as e:
        import traceback
        tb = ''.join(traceback.format_exc()[-1200:])
        try:
            if not isinstance(e, (Missing, Limit)):
                return RuntimeError(tb)
            e = type(e)(*[str(a) for a in e.args])
        except Exception:
            e = RuntimeError(str(e))
        return e
    return c.obligations, c.violations, c.functions, c.blocks, c.calls, c.events, c.assume

class Ctx:
    def __init__(self, pid, facts, tier):
        self.pid = pid
        self.facts = facts
        self.tier = tier
        self.violations = {}
        self.obligations = []      # (text, ok)
        self.functions = set()
        self.blocks = 0
        self.calls = 0
        self.events = {}
        self.assume = []

    # ---- obligations ----
    def ob(self, what, ok, key=None, msg=None, at='', trail=()):
        self.obligations.append((what, bool(ok)))
        if not ok:
            self.violate(key or what, msg or what, at, trail)
        return ok

    def violate(self, key, msg, at='', trail=()):
        if key not in self.violations:
            self.violations[key] = {'key': key, 'msg': msg, 'at': at, 'trail': list(trail)}

    def absorb(self, eng, rule=None):
        for u in eng.covered:
            b = self.facts.bodies[u]
            if b['local']:
                self.functions.add(b['path'])
        self.blocks += len(eng.blocks_seen)
        self.calls += eng.calls_seen
        if rule is not None:
            for k, v in getattr(rule, 'nev', {}).items():
                self.events[k] = self.events.get(k, 0) + v
            for v in getattr(rule, 'violations', {}).values():
                self.violations.setdefault(v['key'], v)

    def parallel(self, fn, items):
        """fn(ctx, item) for every item, in processes of their own"""
        import multiprocessing
        global JOB
        JOB = (self, fn, items)
        with multiprocessing.get_context('fork').Pool(min(8, len(items))) as pool:
            for r in pool.map(_job, range(len(items)), 1):
                if isinstance(r, BaseException):
                    raise r
                obs, vio, fns, blocks, calls, events, assume = r
                self.obligations += obs
                for k, v in vio.items():
                    self.violations.setdefault(k, v)
                self.functions |= fns
                self.blocks += blocks
                self.calls += calls
                for k, v in events.items():
                    self.events[k] = self.events.get(k, 0) + v
                self.assume += [x for x in assume if x not in self.assume]

    def merge(self, sub):
        self.obligations += sub.obligations
        for k, v in sub.violations.items():
            self.violations.setdefault(k, v)
        self.functions |= sub.functions
        self.blocks += sub.blocks
        self.calls += sub.calls
        self.assume += [x for x in sub.assume if x not in self.assume]
        for k, v in sub.events.items():
            self.events[k] = self.events.get(k, 0) + v

    # ---- anchors ----
    def body(self, regex, kind='fn', n=1):
        bs = [b for b in self.facts.find(regex) if b['kind'] == kind and b['krate'].endswith('lib')]
        if not bs:
            bs = [b for b in self.facts.find(regex) if b['kind'] == kind]
        if not bs:
            raise Missing('no function matches ' + regex)
        return bs[0]

    def op(self, name):
        return self.body(r'^<storages::fs::FileSystem as storage::S3Storage>::%s$' % name)


OPS = ['create_bucket', 'copy_object', 'delete_bucket', 'delete_object', 'delete_objects', 'get_bucket_location', 'get_object', 'head_bucket', 'head_object',
       'list_buckets', 'list_objects', 'list_objects_v2', 'put_object', 'create_multipart_upload', 'upload_part', 'complete_multipart_upload']

IN = T('arg:input')
def F(name, v=IN): return T('.' + name, v)
BUCKET, KEY = F('bucket'), F('key')

def with_fields(v, **kw):
    return mk('st', v, tuple(sorted(kw.items())))

def is_ok(v): return v.k == 'adt' and v.a[0] == RESULT and v.a[1] == 0
def is_err(v): return v.k == 'adt' and v.a[0] == RESULT and v.a[1] == 1
def okv(v): return v.a[2][0]

def fields(facts, v):
    """{field: value} of a struct value (members of a phi joined)"""
    out = {}
    for m in members(v):
        if m.k != 'adt':
            continue
        ad = facts.adts.get(m.a[0])
        if not ad:
            continue
        for n, x in zip(ad['variants'][m.a[1]]['fields'], m.a[2]):
            out[n] = x if n not in out else join(out[n], x)
    return out

# ---- names of files in the virtual root ----
B64 = re.compile(r'base64.*encode')
def fkind(lab):
    """kind of a file in the root by what its name is made of"""
    if not isP(lab, 'file'):
        return None
    n = lab.a[1][0]
    ps = n.a[1] if n.k == 't' and n.a[0] == 'cat' else (n,)
    var = [x for x in ps if x.k != 'str']
    if len(var) == 1 and has_new_v4(var[0]):
        return ('tmp',)
    if len(var) == 2 and all(enc(x) is not None for x in var):
        return ('meta', enc(var[0]), enc(var[1]))
    if len(var) == 2 and any(q[0] == 'op' and 'Uuid' in q[1] and 'parse' in q[1] for q in atoms(var[0])):
        return ('part', var[0], var[1])
    return ('file', n)

def enc(x):
    """argument of a base64 encoding"""
    while x.k == 't' and x.a[0] in ('disp',) or x.k == 't' and x.a[0].startswith(('.Ok', '.Some')):
        x = x.a[1][0]
    if x.k == 't' and B64.search(x.a[0]):
        return x.a[1][-1]
    return None

def has_new_v4(x):
    return any(q[0] == 'op' and q[1].endswith('new_v4') for q in atoms(x))

def cls(lab):
    """class of a path label, without its operands"""
    if lab.k == 'phi':
        return '|'.join(sorted({cls(x) for x in lab.a[0]}))
    k = fkind(lab)
    if k:
        return k[0]
    if isP(lab, 'parent'):
        return 'parent(' + cls(lab.a[1][0]) + ')'
    if isP(lab, 'entry'):
        return 'entry(' + cls(lab.a[1][0]) + ')'
    if isP(lab):
        return lab.a[0][2:]
    if lab.k == 't' and lab.a[0] in ('rd', 'entry', 'meta-of', 'ftype', 'file:r', 'file:w') and lab.a[1]:
        return lab.a[0] + '(' + cls(lab.a[1][0]) + ')'
    if lab.k == 't':
        return lab.a[0][:40]
    return lab.k

def OBJ(b=BUCKET, k=KEY): return P('obj', b, k)
def BKT(b=BUCKET): return P('bucket', b)
def is_meta(lab, b=BUCKET, k=KEY):
    return fkind(lab) == ('meta', b, k)
def is_part(lab):
    f = fkind(lab)
    return bool(f) and f[0] == 'part'
def is_tmp(lab):
    f = fkind(lab)
    return bool(f) and f[0] == 'tmp'

MUT = {'rename', 'remove_file', 'remove_dir', 'remove_dir_all', 'create_dir', 'create_dir_all', 'copy_file', 'write_file', 'create', 'hard_link', 'symlink', 'set_len', 'chmod'}

def contains(v, x):
    return bool(find(v, lambda y: y is x))

def opname(op):
    return op

def strip_not(v):
    pos = True
    while v.k == 't' and v.a[0] == 'not':
        v = v.a[1][0]
        pos = not pos
    return v, pos

def run_storage(ctx, op, rule, inp=None, ps=None):
    b = ctx.op(op)
    e, outs = run_op(ctx.facts, rule, b, [T('arg:self'), IN if inp is None else inp], None, ps)
    ctx.absorb(e, rule)
    if not outs:
        raise Missing('no outcome of ' + op)
    return e, outs

"""Time limits of signatures."""
from props_auth import *

STAMP = ['year', 'month', 'day', 'hour', 'minute', 'second']

class Clock:
    """evaluates time terms: times and durations in milliseconds, one signed date, the current time"""
    def __init__(self, date, elapsed, expires):
        self.date, self.now, self.expires = date, 10 ** 12 + elapsed, expires

    def isdate(self, t):
        if any(x[0] == 'op' and x[1].endswith(('::now', 'num_seconds', 'signed_duration_since')) for x in atoms(t)):
            return False
        fs = []
        def go(v):
            if v.k == 't' and v.a[0].startswith('.') and v.a[0][1:] in STAMP:
                fs.append((v.a[0][1:], v.a[1][0]))
                return True
            if v.k == 't' and (v.a[0].startswith(('call:chrono::', 'call:<chrono::', '.Some.0', '.Ok.0', '.Single.0', 'cast', 'await')) or re.search(r'TryFrom|TryInto|try_from|try_into|::from$|::into$|as_conv', v.a[0])) or v.k in ('adt', 'int'):
                return all([go(c) for c in kids(v)])
            return False
        return go(t) and fs == [(n, self.date) for n in STAMP]

    def ev(self, t):
        if t.k == 'int':
            return t.a[0]
        if t.k == 't':
            op, a = t.a[0], t.a[1]
            if op.endswith('Utc::now'):
                return self.now
            if a and self.isdate(t):
                return 10 ** 12
            if op == 'parsed:u32' or op.startswith('parsed:') and a[0] is Q('X-Amz-Expires'):
                if a[0] is Q('X-Amz-Expires'):
                    return self.expires
            n = op.rsplit('::', 1)[-1]
            if op == 'not':
                return 1 - self.ev(a[0])
            if op in ('.Some.0', '.Ok.0'):
                return self.ev(a[0])
            if op == 'eq':
                return int(self.ev(a[0]) == self.ev(a[1]))
            x = [self.ev(q) for q in a]
            if op.startswith('bin:') and len(x) == 2:
                k = op[4:].replace('WithOverflow', '').replace('Unchecked', '')
                if k in OPS2:
                    return int(OPS2[k](*x))
            if op in ('satsub', 'satadd', 'min', 'max'):
                return {'satsub': lambda p, q: p - q, 'satadd': lambda p, q: p + q, 'min': min, 'max': max}[op](*x)
            if op.startswith('cast') or n in ('from', 'into') and len(x) == 1:
                return x[0]
            if op.startswith('call:'):
                if n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne') and len(x) == 2:
                    return int(OPS2[n.capitalize()](*x))
                if n in ('signed_duration_since', 'sub', 'checked_sub_signed', 'add', 'checked_add_signed') and len(x) == 2:
                    return x[0] - x[1] if 'add' not in n else x[0] + x[1]
                if n in ('num_seconds', 'num_milliseconds', 'num_minutes', 'num_hours', 'num_days', 'timestamp', 'timestamp_millis'):
                    d = {'num_seconds': 1000, 'num_milliseconds': 1, 'num_minutes': 60000, 'num_hours': 3600000, 'num_days': 86400000, 'timestamp': 1000, 'timestamp_millis': 1}[n]
                    return x[0] // d if x[0] >= 0 or n == 'timestamp' else -(-x[0] // d)
                if n in ('seconds', 'try_seconds', 'minutes', 'try_minutes', 'hours', 'days', 'milliseconds', 'try_milliseconds', 'try_hours', 'try_days') and 'TimeDelta' in op:
                    return x[0] * {'s': 1000, 'm': 60000, 'h': 3600000, 'd': 86400000}[n.replace('try_', '')[0]] if 'milli' not in n else x[0]
                if n == 'zero' and 'TimeDelta' in op:
                    return 0
                if n in ('abs', 'unsigned_abs'):
                    return abs(x[0])
                if n == 'abs_diff':
                    return abs(x[0] - x[1])
                if n == 'neg':
                    return -x[0]
                if n in ('saturating_abs', 'wrapping_abs'):
                    return abs(x[0])
            if op in ('neg', 'un:Neg'):
                return -x[0]
        raise Unknown(show(t)[:200])

OPS2 = {'Lt': lambda p, q: p < q, 'Le': lambda p, q: p <= q, 'Gt': lambda p, q: p > q, 'Ge': lambda p, q: p >= q, 'Eq': lambda p, q: p == q, 'Ne': lambda p, q: p != q,
        'Add': lambda p, q: p + q, 'Sub': lambda p, q: p - q, 'Mul': lambda p, q: p * q, 'Rem': lambda p, q: abs(p) % abs(q) * (1 if p >= 0 else -1) if q else 0, 'Div': lambda p, q: int(p / q) if q else 0,
        'BitAnd': lambda p, q: p & q, 'BitOr': lambda p, q: p | q, 'BitXor': lambda p, q: p ^ q}

SKEW = 900
def grid(kind):
    """(elapsed ms, expires s, must be served?)"""
    if kind == 'header':
        for s in (0, 1, 59, 60, 300, 600, 870, SKEW - 2):
            for sg in (1, -1):
                yield sg * s * 1000, 0, True
        for s in (SKEW + 2, 960, 1200, 1800, 3600, 7200, 86400, 7 * 86400, 366 * 86400, 10 ** 10):
            for sg in (1, -1):
                yield sg * s * 1000, 0, False
        return
    for x in (1, 60, 899, 900, 901, 3600, 86400, 604800):
        for s in (0, 1, x // 2, x - 2):
            if 0 <= s < x:
                yield s * 1000, x, True
        for s in (x + 2, x + 899, x + 901, 2 * x + 2, x + 86400, 10 ** 10):
            yield s * 1000, x, False
        for s in (SKEW + 2, 960, 3600, 86400, 10 ** 10):
            yield -s * 1000, x, False
    for x in (0, 1 << 31, (1 << 32) - 1):
        yield (x + 2) * 1000, x, False
        yield -(SKEW + 2) * 1000, x, False

@prop('A07', 'path conditions of S3Service::handle over the current time and the signed date are collected on every path to a handler and evaluated, as terms over the elapsed time and X-Amz-Expires, on the boundaries and orders of magnitude of both; the x-amz-date parser is evaluated on texts of symbolic digits, with every character replaced, dropped or doubled')
def a07(ctx):
    import textlist
    textlist.date_syntax(ctx)
    r, e, outs = run_handle(ctx, want=('sig', 'time'))
    paths = {'header': [], 'presigned': [], 'form': []}
    for ps, cv, st, trail in r.sink:
        for s, w in verified(ps):
            k = supplied(w)
            if k:
                paths[k].append((frozenset((t, o) for t, o in ps[1] if now_in(t)), trail, source_terms(k, w)['date']))
    for k in ('header', 'presigned'):
        ctx.ob(f'{k}: {len(paths[k])} paths examined', bool(paths[k]), 'none:' + k, f'no verified {k} signature reaches a handler')
        for conds, trail, date in paths[k]:
            ctx.ob(f'{k}: the age of the request is tested', bool(conds), k + ':untested', f'a handler is reached with a {k} signature of any age', trail=trail)
        n = 0
        seen = {}
        for conds, trail, date in paths[k]:
            seen.setdefault((conds, date), trail)
        for el, ex, good in grid(k):
            served = None
            for (conds, date), trail in seen.items():
                c = Clock(date, el, ex)
                try:
                    if all(bool(c.ev(t)) == o for t, o in conds):
                        served = trail
                except Unknown as x:
                    ctx.ob(f'{k}: decided', False, k + ':unknown', 'a time is compared in a way which cannot be decided: ' + str(x), trail=trail)
                    served = False
                    break
            if served is False:
                break
            n += 1
            what = f'signed {abs(el) // 1000} s ' + ('ago' if el >= 0 else 'ahead') + (f', valid for {ex} s' if k == 'presigned' else '')
            if good:
                ctx.ob(f'{k}: {what}: served', served is not None, k + ':refused', f'a {k} request {what} is refused')
            else:
                ctx.ob(f'{k}: {what}: refused', served is None, k + ':stale', f'a {k} request {what} is served', trail=served or ())
    for conds, trail, date in paths['form']:
        ctx.ob('form: the expiration of the policy is tested', bool(conds), 'form:untested', 'a POST form is served whatever the expiration of its policy is: the policy is never evaluated', trail=trail)

def now_in(t):
    return any(x[0] == 'op' and x[1].endswith(('Utc::now',)) for x in atoms(t)) or contains(t, Q('X-Amz-Expires'))

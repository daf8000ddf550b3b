"""Runs the built server in a scratch directory as an unprivileged user and talks to it."""
import base64, atexit, datetime, hashlib, hmac, http.client, os, shutil, signal, socket, subprocess, sys, tempfile, time, urllib.parse

NOBODY = 65534
AK, SK = 'AKIDEXAMPLE', 'sEcrEtKeyExample0123456789'
REPO = os.getcwd()

class Server:
    def __init__(self, auth=False, env=None, root_setup=None):
        self.tmp = tempfile.mkdtemp(prefix='s3demo-')
        atexit.register(self.stop)
        self.root = os.path.join(self.tmp, 'root')
        os.mkdir(self.root)
        if root_setup:
            root_setup(self.tmp, self.root)
        exe = os.path.join(self.tmp, 's3-server')
        shutil.copy(os.path.join(REPO, 'target/debug/s3-server'), exe)
        os.chmod(exe, 0o755)
        for d, ds, fs in os.walk(self.tmp):
            os.chown(d, NOBODY, NOBODY)
            for f in fs:
                os.chown(os.path.join(d, f), NOBODY, NOBODY)
        s = socket.socket(); s.bind(('127.0.0.1', 0)); self.port = s.getsockname()[1]; s.close()
        args = [exe, '--fs-root', self.root, '--host', '127.0.0.1', '--port', str(self.port)]
        if auth:
            args += ['--access-key', AK, '--secret-key', SK]
        self.log = open(os.path.join(self.tmp, 'log'), 'wb')
        def drop():
            os.setgroups([]); os.setgid(NOBODY); os.setuid(NOBODY)
        e = {'PATH': '/usr/bin:/bin', 'RUST_LOG': 'off'}
        e.update(env or {})
        self.p = subprocess.Popen(args, cwd=self.tmp, stdout=self.log, stderr=self.log, preexec_fn=drop, env=e)
        for _ in range(200):
            try:
                socket.create_connection(('127.0.0.1', self.port), 1).close()
                return
            except OSError:
                time.sleep(0.05)
        raise SystemExit('server does not start: ' + open(os.path.join(self.tmp, 'log')).read()[-500:])
    def stop(self):
        if getattr(self, 'p', None):
            self.p.kill(); self.p.wait(); self.p = None
        if self.tmp:
            shutil.rmtree(self.tmp, ignore_errors=True); self.tmp = None
    def logtext(self):
        return open(os.path.join(self.tmp, 'log'), errors='replace').read()
    @property
    def host(self):
        return '127.0.0.1:%d' % self.port
    def req(self, method, path, body=b'', headers=None, timeout=30):
        """-> (status, {header: value}, body); the path is sent as it is"""
        c = http.client.HTTPConnection('127.0.0.1', self.port, timeout=timeout)
        try:
            c.putrequest(method, path, skip_host=True, skip_accept_encoding=True)
            h = {'Host': self.host}
            if body is not None and not any(k.lower() in ('content-length', 'transfer-encoding') for k in (headers or {})):
                h['Content-Length'] = str(len(body))
            h.update(headers or {})
            for k, v in h.items():
                c.putheader(k, v)
            c.endheaders()
            if body:
                c.send(body)
            r = c.getresponse()
            d = r.read()
            return r.status, {k.lower(): v for k, v in r.getheaders()}, d
        finally:
            c.close()
    def raw(self, data, timeout=10, shut=False):
        s = socket.create_connection(('127.0.0.1', self.port), timeout)
        try:
            for d in data if isinstance(data, list) else [data]:
                s.sendall(d)
                time.sleep(0.05)
            if shut:
                s.shutdown(socket.SHUT_WR)
            out = b''
            try:
                while True:
                    x = s.recv(65536)
                    if not x: break
                    out += x
            except socket.timeout:
                pass
            return out
        finally:
            s.close()
    def signed(self, method, path, query=None, body=b'', headers=None, **k):
        h = sign(method, path, query or [], dict(headers or {}), body, self.host, **k)
        return self.req(method, enc_path(path) + (('?' + cquery(query)) if query else ''), body, h)

def enc(s, safe='-_.~'):
    return urllib.parse.quote(s, safe=safe)
def enc_path(p):
    return enc(p, safe='/-_.~')
def cquery(q):
    return '&'.join(f'{enc(k)}={enc(v)}' for k, v in sorted(q))
def hm(k, s):
    return hmac.new(k, s.encode() if isinstance(s, str) else s, hashlib.sha256).digest()
def skey(date, secret=SK, region='us-east-1', service='s3'):
    return hm(hm(hm(hm(('AWS4' + secret).encode(), date), region), service), 'aws4_request')
def now(delta=0):
    t = datetime.datetime.utcnow() + datetime.timedelta(seconds=delta)
    return t.strftime('%Y%m%dT%H%M%SZ')

def sign(method, path, query, headers, body, host, date=None, secret=SK, ak=AK, payload=None, unsigned=(), cpath=None, region='us-east-1', seed=None):
    date = date or now()
    h = {'Host': host, 'x-amz-date': date}
    h['x-amz-content-sha256'] = payload if payload is not None else hashlib.sha256(body).hexdigest()
    h.update(headers)
    low = {k.lower(): ' '.join(v.split()) for k, v in h.items() if k.lower() not in unsigned}
    names = sorted(k for k in low if k == 'host' or k == 'content-type' or k == 'content-md5' or k.startswith('x-amz-') or k in ('range',))
    creq = '\n'.join([method, cpath or enc_path(path), cquery(query), ''.join(f'{k}:{low[k]}\n' for k in names), ';'.join(names), low.get('x-amz-content-sha256', payload or '')])
    scope = f'{date[:8]}/{region}/s3/aws4_request'
    sts = '\n'.join(['AWS4-HMAC-SHA256', date, scope, hashlib.sha256(creq.encode()).hexdigest()])
    sig = hmac.new(skey(date[:8], secret, region), sts.encode(), hashlib.sha256).hexdigest()
    if seed is not None:
        seed.append((sig, date, scope))
    h['Authorization'] = f'AWS4-HMAC-SHA256 Credential={ak}/{scope}, SignedHeaders={";".join(names)}, Signature={sig}'
    return h

def presign(method, path, host, expires=300, date=None, query=(), headers=None, secret=SK, ak=AK, region='us-east-1', tamper=None):
    """-> path and query"""
    date = date or now()
    h = {'host': host}
    h.update({k.lower(): v for k, v in (headers or {}).items()})
    names = sorted(h)
    scope = f'{date[:8]}/{region}/s3/aws4_request'
    q = list(query) + [('X-Amz-Algorithm', 'AWS4-HMAC-SHA256'), ('X-Amz-Credential', f'{ak}/{scope}'), ('X-Amz-Date', date), ('X-Amz-Expires', str(expires)), ('X-Amz-SignedHeaders', ';'.join(names))]
    creq = '\n'.join([method, enc_path(path), cquery(q), ''.join(f'{k}:{h[k]}\n' for k in names), ';'.join(names), 'UNSIGNED-PAYLOAD'])
    sts = '\n'.join(['AWS4-HMAC-SHA256', date, scope, hashlib.sha256(creq.encode()).hexdigest()])
    sig = hmac.new(skey(date[:8], secret, region), sts.encode(), hashlib.sha256).hexdigest()
    if tamper:
        q = tamper(q)
    return enc_path(path) + '?' + cquery(q + [('X-Amz-Signature', sig)])

def chunked(body, size, seedsig, date, scope, secret=SK, mangle=None):
    """aws-chunked encoding; mangle(i, data, sig) -> (data, sig)"""
    key = skey(date[:8], secret)
    prev = seedsig
    out = []
    parts = [body[i:i + size] for i in range(0, len(body), size)] + [b'']
    for i, d in enumerate(parts):
        sts = '\n'.join(['AWS4-HMAC-SHA256-PAYLOAD', date, scope, prev, hashlib.sha256(b'').hexdigest(), hashlib.sha256(d).hexdigest()])
        sig = hmac.new(key, sts.encode(), hashlib.sha256).hexdigest()
        prev = sig
        if mangle:
            d, sig = mangle(i, d, sig)
        if d is None:
            continue
        out.append(b'%x;chunk-signature=%s\r\n%s\r\n' % (len(d), sig.encode(), d))
    return b''.join(out)

def form(fields, content, filename='f', ctype='text/plain', boundary='bnd', secret=SK, ak=AK, date=None, region='us-east-1'):
    """a signed form upload -> (headers, body)"""
    date = date or now()
    policy = base64.b64encode(b'{"expiration":"2099-01-01T00:00:00Z","conditions":[]}').decode()
    scope = f'{date[:8]}/{region}/s3/aws4_request'
    sig = hmac.new(skey(date[:8], secret, region), policy.encode(), hashlib.sha256).hexdigest()
    fs = list(fields) + [('policy', policy), ('x-amz-algorithm', 'AWS4-HMAC-SHA256'), ('x-amz-credential', f'{ak}/{scope}'), ('x-amz-date', date), ('x-amz-signature', sig)]
    b = boundary.encode()
    out = b''.join(b'--' + b + b'\r\nContent-Disposition: form-data; name="' + n.encode() + b'"\r\n\r\n' + v.encode() + b'\r\n' for n, v in fs)
    out += b'--' + b + b'\r\nContent-Disposition: form-data; name="file"; filename="' + filename.encode() + b'"\r\nContent-Type: ' + ctype.encode() + b'\r\n\r\n' + content + b'\r\n--' + b + b'--\r\n'
    return {'Content-Type': 'multipart/form-data; boundary=' + boundary}, out

def check(cond, what):
    if not cond:
        print('FAILED:', what)
        sys.exit(1)
    print('ok:', what)

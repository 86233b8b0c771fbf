# Helper of the demonstrations: a real zdb server in a scratch directory, a raw protocol client, preloaded fault points.
import os, sys, socket, subprocess, tempfile, shutil, time, atexit, signal
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = tempfile.mkdtemp(prefix="zdbdemo-")
PROCS = []
def _clean():
    for p in PROCS:
        if p.poll() is None: p.kill(); p.wait()
    shutil.rmtree(ROOT, ignore_errors=True)
atexit.register(_clean)
def preload():
    so = os.path.join(ROOT, "point.so")
    if not os.path.exists(so): subprocess.check_call(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(HERE, "point.c"), "-ldl"])
    return so
class Server:
    def __init__(self, *args, point=None, name="db", binary=os.environ.get("ZDB_BINARY", "/repo/zdbd/zdb"), wait=True, env=None):
        self.dir = os.path.join(ROOT, name); os.makedirs(self.dir, exist_ok=True)
        self.data = self.dir + "/data"; self.index = self.dir + "/index"; self.sock = os.path.join(ROOT, name + ".sock")
        if os.path.exists(self.sock): os.unlink(self.sock)
        e = dict(os.environ); e.update(env or {})
        if point: e["LD_PRELOAD"] = preload(); e["POINT"] = point
        self.log = open(os.path.join(ROOT, name + ".log"), "ab")
        self.p = subprocess.Popen([binary, "--data", self.data, "--index", self.index, "--socket", self.sock] + list(args), stdout=self.log, stderr=self.log, env=e, cwd=ROOT)
        PROCS.append(self.p)
        if wait:
            for i in range(400):
                if self.p.poll() is not None: break
                try: s = socket.socket(socket.AF_UNIX); s.connect(self.sock); s.close(); break
                except OSError: time.sleep(0.01)
    def client(self, timeout=10): return Client(self.sock, timeout)
    def alive(self): return self.p.poll() is None
    def kill(self): self.p.kill(); self.p.wait()
    def term(self): self.p.terminate(); return self.p.wait(20)
    def wait(self, t=10): return self.p.wait(t)
class Gone(Exception): pass
class Err(bytes): pass
def enc(*a):
    o = b"*%d\r\n" % len(a)
    for x in a:
        if isinstance(x, str): x = x.encode()
        if isinstance(x, int): x = str(x).encode()
        o += b"$%d\r\n%s\r\n" % (len(x), x)
    return o
class Client:
    def __init__(self, path, timeout=10):
        self.s = socket.socket(socket.AF_UNIX); self.s.settimeout(timeout); self.s.connect(path); self.b = b""
    def raw(self, b): self.s.sendall(b)
    def _more(self):
        try: d = self.s.recv(65536)
        except ConnectionResetError: d = b""
        if not d: raise Gone()
        self.b += d
    def line(self):
        while b"\r\n" not in self.b: self._more()
        l, self.b = self.b.split(b"\r\n", 1); return l
    def reply(self):
        l = self.line(); t, r = l[:1], l[1:]
        if t == b"+": return r
        if t == b"-": return Err(r)
        if t == b":": return int(r)
        if t == b"$":
            n = int(r)
            if n < 0: return None
            while len(self.b) < n + 2: self._more()
            v, self.b = self.b[:n], self.b[n + 2:]; return v
        if t == b"*":
            n = int(r); return None if n < 0 else [self.reply() for _ in range(n)]
        raise Exception("reply %r" % l)
    def send(self, *a): self.s.sendall(enc(*a))
    def __call__(self, *a): self.send(*a); return self.reply()
    def close(self): self.s.close()
def scan(c, cmd="SCAN"):
    r, cur = [], None
    for _ in range(100000):
        x = c(cmd) if cur is None else c(cmd, cur)
        if isinstance(x, Err): break
        cur = x[0]; r += [e[0] for e in x[1]]
    return r
def info(c, ns): return dict(l.split(b": ", 1) for l in c("NSINFO", ns).split(b"\n") if b": " in l)
def ok(cond, what):
    if not cond: print("FAIL:", what); sys.exit(1)

# a small client for mtd, for the demonstrations
import os, random, shutil, signal, socket, struct, subprocess, tempfile, time
def mp(x):
    if isinstance(x, bool): return b"\xc3" if x else b"\xc2"
    if x is None: return b"\xc0"
    if isinstance(x, int): return bytes([x]) if 0 <= x < 128 else b"\xd3" + struct.pack(">q", x)
    if isinstance(x, bytes): return (bytes([0xa0 + len(x)]) if len(x) < 32 else b"\xdb" + struct.pack(">I", len(x))) + x
    if isinstance(x, list): return (bytes([0x90 + len(x)]) if len(x) < 16 else b"\xdd" + struct.pack(">I", len(x))) + b"".join(map(mp, x))
    if isinstance(x, dict): return bytes([0x80 + len(x)]) + b"".join(mp(k) + mp(v) for k, v in x.items())
class Reader:
    def __init__(s, sock): s.s = sock; s.b = b""
    def take(s, n):
        while len(s.b) < n:
            d = s.s.recv(65536)
            if not d: raise EOFError("connection closed")
            s.b += d
        r, s.b = s.b[:n], s.b[n:]; return r
    def get(s):
        c = s.take(1)[0]; u = lambda f: struct.unpack(">" + f, s.take(struct.calcsize(f)))[0]
        if c < 0x80: return c
        if c >= 0xe0: return c - 256
        if c < 0x90: return {s.get(): s.get() for _ in range(c & 15)}
        if c < 0xa0: return [s.get() for _ in range(c & 15)]
        if c < 0xc0: return s.take(c & 31)
        if c in (0xc0, 0xc2, 0xc3): return {0xc0: None, 0xc2: False, 0xc3: True}[c]
        if c in (0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd1, 0xd2, 0xd3): return u("BHIQbhiq"[(0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd1, 0xd2, 0xd3).index(c)])
        if c in (0xc4, 0xc5, 0xc6): return s.take(u("BHI"[c - 0xc4]))
        if c in (0xd9, 0xda, 0xdb): return s.take(u("BHI"[c - 0xd9]))
        if c in (0xdc, 0xdd): return [s.get() for _ in range(u("HI"[c - 0xdc]))]
        if c in (0xde, 0xdf): return {s.get(): s.get() for _ in range(u("HI"[c - 0xde]))}
        raise ValueError(c)
class Client:
    def __init__(s, port, core=0):
        s.s = socket.create_connection(("127.0.0.1", port), 5); s.s.settimeout(20); s.r = Reader(s.s); s.n = 0
        s.send([0, 14, {b"core": core, b"maxkeylen": 255}]); s.r.get()
    def send(s, x): s.s.sendall(mp(x))
    def call(s, cmd, *a):
        s.n = s.n % 100 + 1; s.send([s.n, cmd] + list(a)); r = s.r.get(); assert r[:2] == [s.n, cmd + 1], r; return r[2:]
    def get(s, k, *f):
        r = s.call(2, k, *f); return None if not r or r[0] is None and not f else r
    def put(s, k, **cols): return s.call(6, k, *[y for c, v in cols.items() for y in (int(c[1:]), v)])
    def replace(s, k, v): return s.call(8, k, v)
    def remove(s, k): return s.call(10, k)
    def scan(s, k, n, *f): return s.call(4, k, n, *f)
    def checkpoint(s): return s.call(12)
# log records
def E(e): return b"kEPO" + struct.pack("<IQ", 16, e)
def Q(): return b"kQUI" + struct.pack("<I", 8)
def W(): return b"kWAK" + struct.pack("<I", 8)
def cs(cols): return b"".join(mp(i) + mp(v) for i, v in cols)
def kv(c, ts, k, v): b = struct.pack("<QI", ts, len(k)) + k + v + b"\0\0\0\0"; return c + struct.pack("<I", 8 + len(b)) + b
def PUT(ts, k, *cols): return kv(b"kPUT", ts, k, cs(cols))
def REP(ts, k, v): return kv(b"kPU1", ts, k, v)
def REM(ts, k): return kv(b"kREM", ts, k, b"")
def MOD(ts, prev, k, *cols): b = struct.pack("<QQI", ts, prev, len(k)) + k + cs(cols) + b"\0\0\0\0"; return b"kMOD" + struct.pack("<I", 8 + len(b)) + b
class Server:
    def __init__(s, dir, j=1, *more): s.dir = dir; s.j = j; s.more = list(more); s.p = None
    def start(s):
        for _ in range(20):
            s.port = random.randrange(20000, 60000); s.log = open(s.dir + "/out", "ab")
            s.p = subprocess.Popen([os.getcwd() + "/mtd", "-p", str(s.port)] [:1] + ["--port", str(s.port), "-j", str(s.j), "--logdir=" + s.dir, "--ckpdir=" + s.dir] + s.more, stdout=s.log, stderr=s.log, stdin=subprocess.DEVNULL, cwd=s.dir)
            for _ in range(300):
                if s.p.poll() is not None: break
                try: c = Client(s.port); return c
                except (ConnectionError, OSError, EOFError): time.sleep(0.1)
            rc = s.p.poll(); s.kill()
            if rc is not None and b"in use" not in open(s.dir + "/out", "rb").read()[-500:]: raise SystemExit("the server ended with %s" % rc)
            if rc is None: raise SystemExit("the server does not come up")
        raise SystemExit("no port")
    def kill(s):
        if s.p: s.p.kill(); s.p.wait(); s.p = None
def scratch(): return tempfile.mkdtemp(prefix="mtd-demo.")
def restart(logs, ask, j=None):
    """Start mtd on these logs and return ask(client)."""
    d = scratch(); s = Server(d, j or len(logs))
    try:
        for i, l in enumerate(logs):
            if l is not None: open(d + "/kvd-log-%d" % i, "wb").write(l)
        return ask(s.start())
    finally: s.kill(); shutil.rmtree(d, ignore_errors=True)

"""Drives the built amqpprox over loopback: fake brokers, clients, control."""
import os, shutil, socket, struct, subprocess, sys, tempfile, threading, time

PROX = "/repo/_build/bin/amqpprox"

def frame(t, ch, p): return struct.pack(">BHI", t, ch, len(p)) + p + b"\xce"
def sstr(s): s = s.encode() if isinstance(s, str) else s; return bytes([len(s)]) + s
def lstr(s): s = s.encode() if isinstance(s, str) else s; return struct.pack(">I", len(s)) + s
def method(c, m, p=b""): return frame(1, 0, struct.pack(">HH", c, m) + p)
def body(ch, p): return frame(3, ch, p)
HDR = b"AMQP\x00\x00\x09\x01"
def start(): return method(10, 10, b"\x00\x09" + lstr(b"") + lstr("PLAIN") + lstr("en_US"))
def startok(props=b"", mech="PLAIN", resp=b"\0guest\0guest"): return method(10, 11, lstr(props) + sstr(mech) + lstr(resp) + sstr("en_US"))
def tune(): return method(10, 30, struct.pack(">HIH", 2047, 131072, 60))
def tuneok(): return method(10, 31, struct.pack(">HIH", 2047, 131072, 60))
def open_(v): return method(10, 40, sstr(v) + sstr("") + b"\0")
def openok(): return method(10, 41, sstr(""))
def close(code=200, text="bye"): return method(10, 50, struct.pack(">H", code) + sstr(text) + struct.pack(">HH", 0, 0))
def closeok(): return method(10, 51)

def free_port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p

class Peer:
    """A socket with frame reading."""
    def __init__(self, s): self.s = s; self.buf = b""; s.settimeout(10)
    def recvn(self, n):
        while len(self.buf) < n:
            d = self.s.recv(65536)
            if not d: raise EOFError
            self.buf += d
        r, self.buf = self.buf[:n], self.buf[n:]; return r
    def frame(self):
        h = self.recvn(7); t, ch, n = struct.unpack(">BHI", h); p = self.recvn(n + 1)
        assert p[-1] == 0xce, "frame end"
        return t, ch, p[:-1], h + p
    def method(self):
        t, ch, p, raw = self.frame(); assert t == 1, t
        return struct.unpack(">HH", p[:4]) + (p[4:],)
    def send(self, d): self.s.sendall(d)
    def rst(self):
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0)); self.s.close()
    def shut(self):
        try: self.s.shutdown(socket.SHUT_RDWR)
        except OSError: pass
        self.s.close()

class Broker:
    """Accepts and shakes hands; opened connections are put in .conns. hook(stage, peer, broker) may return True to take over."""
    def __init__(self, port=None, hook=None):
        self.l = socket.socket(); self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.l.bind(("127.0.0.1", port or 0)); self.l.listen(100); self.port = self.l.getsockname()[1]
        self.hook = hook; self.accepted = 0; self.conns = []; self.lock = threading.Lock(); self.info = []
        threading.Thread(target=self.loop, daemon=True).start()
    def loop(self):
        while True:
            try: s, a = self.l.accept()
            except OSError: return
            self.accepted += 1
            threading.Thread(target=self.one, args=(s,), daemon=True).start()
    def one(self, s):
        p = Peer(s); p.addr = None
        try:
            if self.hook and self.hook("connect", p, self): return
            p.hdr = p.recvn(8)
            if self.hook and self.hook("hdr", p, self): return
            p.send(start()); p.startok = p.method()
            if self.hook and self.hook("startok", p, self): return
            p.send(tune()); p.tuneok = p.method(); p.open = p.method()
            if self.hook and self.hook("open", p, self): return
            p.send(openok())
            with self.lock: self.conns.append(p)
        except (EOFError, OSError, AssertionError) as e:
            self.info.append(repr(e))

class Client(Peer):
    def __init__(self, port, vhost="/", do_open=True, props=b"", timeout=10, resp=b"\0guest\0guest"):
        super().__init__(socket.create_connection(("127.0.0.1", port), timeout=10)); self.s.settimeout(timeout)
        self.local = self.s.getsockname()
        if do_open is None: return
        self.send(HDR); assert self.method()[:2] == (10, 10)
        self.send(startok(props, resp=resp)); assert self.method()[:2] == (10, 30)
        self.send(tuneok()); self.send(open_(vhost))
        if do_open:
            m = self.method(); self.reply = m
            assert m[:2] == (10, 41), "client got %r" % (m,)

class Proxy:
    def __init__(self, *args):
        self.dir = tempfile.mkdtemp(prefix="amqpdemo"); self.ctlpath = os.path.join(self.dir, "ctl")
        self.out = open(os.path.join(self.dir, "out"), "wb")
        self.p = subprocess.Popen([PROX, "--logDirectory", os.path.join(self.dir, "logs"), "--controlSocket", self.ctlpath, "-v", "0"] + list(args), stdout=self.out, stderr=self.out, cwd=self.dir)
        for _ in range(200):
            if os.path.exists(self.ctlpath): break
            time.sleep(0.02)
        self.port = free_port()
    def ctl(self, cmd, timeout=10):
        s = socket.socket(socket.AF_UNIX); s.settimeout(timeout)
        for i in range(100):
            try: s.connect(self.ctlpath); break
            except OSError: time.sleep(0.02)
        s.sendall(cmd.encode() + b"\n"); r = b""
        try:
            while not r.endswith(b"\0"):
                d = s.recv(65536)
                if not d: break
                r += d
        finally: s.close()
        return r.rstrip(b"\0").decode()
    def backend(self, name, port, dc="dc1", extra=""): return self.ctl("BACKEND ADD %s %s 127.0.0.1 %d %s" % (name, dc, port, extra))
    def listen(self):
        self.ctl("LISTEN START %d" % self.port); time.sleep(0.3)
    def alive(self): return self.p.poll() is None
    def stop(self):
        if self.p.poll() is None: self.p.kill()
        self.p.wait(); shutil.rmtree(self.dir, ignore_errors=True)

def wait_for(f, secs=5):
    t = time.time() + secs
    while time.time() < t:
        if f(): return True
        time.sleep(0.02)
    return f()

def run(demo):
    px = Proxy(); rc = 1
    try:
        demo(px); rc = 0; print("demo: property holds")
    except BaseException as e:
        import traceback; traceback.print_exc(); print("demo: property broken: %s" % e)
    finally: px.stop()
    sys.stdout.flush(); os._exit(rc)

"""Starts /repo's memcached on a free loopback port and talks to it.  (copied beside each demo)"""
import socket, subprocess, time, os, sys, tempfile, atexit
class Server:
    def __init__(self, *args, engine=True):
        s = socket.socket(); s.bind(('127.0.0.1', 0)); self.port = s.getsockname()[1]; s.close()
        repo = os.getcwd()
        cmd = [repo + '/memcached', '-p', str(self.port), '-U', '0', '-l', '127.0.0.1', '-u', 'root']
        if engine: cmd += ['-E', repo + '/.libs/default_engine.so']
        self.p = subprocess.Popen(cmd + list(args), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        atexit.register(self.stop)
        for _ in range(200):
            try: socket.create_connection(('127.0.0.1', self.port), 1).close(); return
            except OSError: time.sleep(0.05)
        raise SystemExit('server did not start')
    def stop(self):
        if self.p.poll() is None: self.p.kill(); self.p.wait()
    def conn(self): return Conn(self.port)
    def alive(self): return self.p.poll() is None
class Conn:
    def __init__(self, port): self.s = socket.create_connection(('127.0.0.1', port), 10); self.b = b''
    def send(self, x): self.s.sendall(x if isinstance(x, bytes) else x.encode('latin1'))
    def line(self):
        while b'\n' not in self.b:
            d = self.s.recv(65536)
            if not d: r, self.b = self.b, b''; return r.decode('latin1') + '<closed>'
            self.b += d
        l, self.b = self.b.split(b'\n', 1); return l.decode('latin1').rstrip('\r')
    def read(self, n):
        while len(self.b) < n:
            d = self.s.recv(65536)
            if not d: break
            self.b += d
        r, self.b = self.b[:n], self.b[n:]; return r
    def one(self, x): self.send(x + '\r\n'); return self.line()      # one-line reply
    def until(self, x, ends=('END', 'ERROR', 'NOT_FOUND', 'NOT_FOUND_ELEMENT', 'DELETED', 'DELETED_DROPPED', 'TRIMMED', 'DUPLICATED', 'TYPE_MISMATCH', 'UNREADABLE', 'BKEY_MISMATCH', 'OUT_OF_RANGE', 'EFLAG_MISMATCH')):
        self.send(x + '\r\n'); r = []
        while True:
            l = self.line(); r.append(l)
            if l in ends or l.startswith(('CLIENT_ERROR', 'SERVER_ERROR', 'ATTR_ERROR')) or l.endswith('<closed>'): return r
def expect(what, got, want):
    if got != want: print('%s: got %r, expected %r' % (what, got, want)); sys.exit(1)

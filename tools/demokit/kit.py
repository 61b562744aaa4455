import os, socket, struct, subprocess, sys, time, tempfile, atexit, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
TMP = tempfile.mkdtemp(prefix='demo-'); atexit.register(shutil.rmtree, TMP, True)
REPO = os.getcwd()
CONN = 1337
def cxx(out, srcs, extra=()):
    B = REPO + '/_build/src'
    S = REPO + '/src'
    inc = ['-I' + HERE] + ['-I%s/%s' % (S, d) for d in ('util', 'decoder', 'input', 'encoder', 'net')] + ['-I' + REPO + '/_build']
    libs = ['-Wl,--start-group'] + ['%s/%s' % (B, l) for l in ('encoder/libalfalfaencoder.a', 'decoder/libalfalfadecoder.a', 'input/libalfalfainput.a', 'net/libnet.a', 'util/libalfalfautil.a')] + ['-Wl,--end-group']
    subprocess.check_call(['g++', '-std=c++14', '-pthread', '-O2', '-w', '-include', 'cstdint', '-o', out] + list(extra) + inc + list(srcs) + libs + ['/usr/lib/x86_64-linux-gnu/libx264.a', '-ljpeg', '-lpthread', '-lm', '-ldl'])
    return out
def sender(w=160, h=96):
    return cxx(TMP + '/sender', [REPO + '/src/salsify/salsify-sender.cc'], ['-DSALSIFY_CAMERA_WIDTH=%d' % w, '-DSALSIFY_CAMERA_HEIGHT=%d' % h])
def receiver():
    return cxx(TMP + '/receiver', [REPO + '/src/salsify/salsify-receiver.cc'])
def parse_data(b):
    conn, src, tgt, frame, frag, frags, tsl = struct.unpack('<HIIIHHI', b[:22])
    return dict(conn=conn, src=src, tgt=tgt, frame=frame, frag=frag, frags=frags, tsl=tsl, payload=b[22:], raw=b)
def parse_ack(b):
    conn, frame, frag, avg, cur, n = struct.unpack('<HIHIII', b[:20])
    return dict(conn=conn, frame=frame, frag=frag, avg=avg, cur=cur, list=list(struct.unpack('<%dI' % n, b[20:20 + 4 * n])), raw=b)
def make_ack(frame, frag, avg, cur, lst, conn=CONN):
    return struct.pack('<HIHIII', conn, frame, frag, avg, cur, len(lst)) + struct.pack('<%dI' % len(lst), *lst)
procs = []
def stop():
    for p in procs:
        try: p.kill()
        except OSError: pass
atexit.register(stop)
def popen(cmd, **env):
    e = dict(os.environ); e.update({k: str(v) for k, v in env.items()})
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(TMP + '/' + os.path.basename(cmd[0]) + '.err', 'w'), env=e)
    procs.append(p); return p
def udp():
    s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM); s.bind(('127.0.0.1', 0)); s.setblocking(False)
    s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4 << 20); return s
def free_port():
    s = udp(); p = s.getsockname()[1]; s.close(); return p
class RealSender:
    """the real sender, talking to this script"""
    def __init__(self, exe, mode='s2', **env):
        self.s = udp(); self.peer = None
        self.p = popen([exe, '-m', mode, '127.0.0.1', str(self.s.getsockname()[1]), str(CONN)], **env)
    def recv(self, timeout):
        end = time.time() + timeout
        while time.time() < end:
            try: b, self.peer = self.s.recvfrom(65536)
            except BlockingIOError: time.sleep(0.0005); continue
            return parse_data(b)
        return None
    def send(self, b): self.s.sendto(b, self.peer)
    def frame(self, timeout=10):
        """the next whole frame: list of fragments"""
        r = []
        while True:
            d = self.recv(timeout)
            if d is None: return None
            r.append(d)
            if d['frag'] == d['frags'] - 1: return r
class RealReceiver:
    """the real receiver, fed by this script"""
    def __init__(self, exe, w=160, h=96, **env):
        self.port = free_port(); self.s = udp()
        self.draw = TMP + '/draw'
        self.p = popen([exe, str(self.port), str(w), str(h)], DEMO_DRAW=self.draw, **env)
        time.sleep(1.0)
    def put(self, raw, timeout=3):
        """send one datagram, wait for its acknowledgement (None: there was none)"""
        self.s.sendto(raw, ('127.0.0.1', self.port))
        end = time.time() + timeout
        while time.time() < end:
            try: b, _ = self.s.recvfrom(65536)
            except (BlockingIOError, ConnectionRefusedError): time.sleep(0.0005); continue
            return parse_ack(b)
        return None
    def alive(self): return self.p.poll() is None
def record(exe_sender, n, mode='s2', avg=2000, **env):
    """the first n frames of a session in which every fragment is acknowledged as held"""
    s = RealSender(exe_sender, mode, **env); held = []; out = []
    while len(out) < n:
        f = s.frame()
        if f is None: raise SystemExit('demo: the sender fell silent')
        out.append(f); held = (held + [f[0]['tgt']])[-3:]
        s.send(make_ack(f[0]['frame'], f[-1]['frag'], avg, f[0]['tgt'], held))
    s.p.kill(); return out

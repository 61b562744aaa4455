"""Helpers of the demonstrations for the command-line tools (run with cwd = the repository, after its build)."""
import os, random, resource, shutil, signal, struct, subprocess, sys, tempfile
REPO = os.getcwd()
HERE = os.path.dirname(os.path.abspath(__file__))
TMP = tempfile.mkdtemp(prefix='demo.')
import atexit
atexit.register(lambda: shutil.rmtree(TMP, ignore_errors=True))
def path(n):
    return os.path.join(TMP, n)
def exe(n):
    for d in ('_build/src/frontend', '_build/src/salsify'):
        p = os.path.join(REPO, d, n)
        if os.path.exists(p):
            return p
    sys.exit('no ' + n)
def run(prog, *args, inp=b'', env=None, fsize=None, timeout=60, preload=None):
    """-> (status, stdout, stderr); status < 0: killed by that signal; None: did not end in time"""
    e = dict(os.environ); e.update(env or {})
    if preload:
        e['LD_PRELOAD'] = preload
    def pre():
        if fsize is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        r = subprocess.run([exe(prog)] + list(args), input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=TMP, env=e, preexec_fn=pre, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, b'', b''
    return r.returncode, r.stdout, r.stderr
def must(prog, *args, **kw):
    r = run(prog, *args, **kw)
    if r[0] != 0:
        print('unexpected: %s %s -> %s %s' % (prog, args, r[0], r[2].decode(errors='replace')[-300:])); sys.exit(3)
    return r
def picture(w, h, k, seed=1, noise=6):
    rnd = random.Random(seed * 1000 + k)
    y = bytes(min(255, max(0, int(60 + 90 * (((x + 3 * k) // 16 + r // 16) % 2) + (x * 5 + r * 3 + 7 * k) % 40 + rnd.randrange(-noise, noise + 1)))) for r in range(h) for x in range(w))
    cw, ch = (w + 1) // 2, (h + 1) // 2
    u = bytes((100 + x * 2 + k) % 256 for r in range(ch) for x in range(cw))
    v = bytes((140 + r * 2 - k) % 256 for r in range(ch) for x in range(cw))
    return y + u + v
def y4m(w, h, pics, fps=24):
    return b'YUV4MPEG2 W%d H%d F%d:1 Ip A0:0 C420\n' % (w, h, fps) + b''.join(b'FRAME\n' + p for p in pics)
def put(n, b):
    with open(path(n), 'wb') as f:
        f.write(b)
def get(n):
    with open(path(n), 'rb') as f:
        return f.read()
class Ivf:
    def __init__(self, b):
        self.ok = len(b) >= 32 and b[:4] == b'DKIF'; self.frames = []; self.claimed = 0; self.whole = True
        if not self.ok:
            return
        self.claimed, self.entry = struct.unpack_from('<II', b, 24); p = 32
        for i in range(self.claimed):
            if p + 12 > len(b):
                self.whole = False; break
            n = struct.unpack_from('<I', b, p)[0]
            if p + 12 + n > len(b):
                self.whole = False; break
            self.frames.append(b[p + 12:p + 12 + n]); p += 12 + n
def ivf(w, h, frames, entry=0):
    return b'DKIF' + struct.pack('<HH4sHHIIII', 0, 32, b'VP80', w, h, 24, 1, len(frames), entry) + b''.join(struct.pack('<IQ', len(f), 0) + f for f in frames)
def state_names(err, word):
    key = (' ' + word + ' state: ').encode()
    return [l.split(key)[1].decode() for l in err.split(b'\n') if key in l]
def compile_so(src):
    o = path('preload.so'); subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', o, os.path.join(HERE, src), '-ldl'], check=True); return o

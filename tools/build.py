#!/usr/bin/env python3
"""Builds the simulator and the simulated programs from /repo's working tree.
Objects are cached by content under /verif/.work/obj, so an unchanged file is not compiled again."""
import hashlib, os, re, subprocess, sys, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.path.join(VERIF, '.work')
SRC = os.path.join(REPO, 'src')
SIM = os.path.join(VERIF, 'sim')
X264 = '/usr/lib/x86_64-linux-gnu/libx264.a'

# programs: name -> main source
PROGS = {
    'salsify-sender': 'salsify/salsify-sender.cc', 'salsify-receiver': 'salsify/salsify-receiver.cc',
    'real-webcam': 'salsify/real-webcam.cc', 'fake-webcam': 'salsify/fake-webcam.cc',
    'xc-enc': 'frontend/xc-enc.cc', 'xc-dump': 'frontend/xc-dump.cc', 'xc-terminate-chunk': 'frontend/xc-terminate-chunk.cc',
    'xc-decode-bundle': 'frontend/decode-bundle.cc', 'xc-merge': 'frontend/xc-merge.cc', 'vp8decode': 'frontend/vp8decode.cc',
    'vp8play': 'frontend/vp8play.cc', 'comp-states': 'frontend/comp-states.cc', 'xc-diff': 'frontend/xc-diff.cc',
    'xc-dissect': 'frontend/xc-dissect.cc', 'xc-framesize': 'frontend/xc-framesize.cc', 'xc-ssim': 'frontend/xc-ssim.cc', 'xc-zero-out-residues': 'frontend/xc-zero-out-residues.cc',
}
# programs of this directory over the tree's classes; one that does not compile (another interface) is left out
OWN = {'encodings': SIM + '/prog/encodings.cc', 'quality': SIM + '/prog/quality.cc'}
SALSIFY = ['salsify-sender', 'salsify-receiver', 'real-webcam', 'fake-webcam']
TOOLS = [p for p in PROGS if p not in SALSIFY]
# files instrumented for preemption in the ordinary ("lite") variant: everything that shares state between threads
LITE = ['salsify/', 'frontend/', 'decoder/raster_handle.cc', 'decoder/frame_pool.cc', 'util/ivf_writer.cc', 'net/', 'decoder/player.cc', 'input/camera.cc']

class BuildError(Exception):
    pass

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:24]

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[-4000:]))

def read(p):
    with open(p, 'rb') as f:
        return f.read()

BASE = ['g++', '-std=c++14', '-pthread', '-O2', '-g1', '-fPIC', '-fno-gnu-unique', '-U_FORTIFY_SOURCE', '-include', 'cstdint', '-w']
TRACE = ['-fsanitize-coverage=trace-pc']

HOOKS = ['-include', SIM + '/include/sim_size.hh', '-DSALSIFY_CAMERA_WIDTH=sim_camera_width()', '-DSALSIFY_CAMERA_HEIGHT=sim_camera_height()']

def build(progs, full=False, defines=(), jobs=8, access=False):
    """returns the directory with the simulator and one .so per program"""
    os.makedirs(os.path.join(WORK, 'obj'), exist_ok=True)
    inc = ['-I' + os.path.join(SIM, 'include')] + ['-I' + os.path.join(SRC, d) for d in ('util', 'decoder', 'display', 'input', 'encoder', 'net')]
    hh = b''
    for p in sorted(glob.glob(SRC + '/*/*.hh') + glob.glob(SIM + '/include/*')):
        hh += p.encode() + read(p)
    hhash = sha(hh)
    simhh = sha(b''.join(read(p) for p in sorted(glob.glob(SIM + '/*.hh') + glob.glob(SIM + '/*.inc'))))
    def closure(path, seen=None):
        """a source with everything it includes that is not a header of the tree (headers are all hashed anyway): some sources include others"""
        seen = set() if seen is None else seen
        seen.add(path)
        body = read(path)
        for m in re.finditer(rb'^[ \t]*#[ \t]*include[ \t]*["<]([^">]+)[">]', body, re.M):
            name = m.group(1).decode(errors='replace')
            for d in [os.path.dirname(path)] + [i[2:] for i in inc]:
                q = os.path.normpath(os.path.join(d, name))
                if os.path.exists(q) and q not in seen:
                    body += closure(q, seen)
        return body
    libs = []
    for d in ('util', 'decoder', 'encoder', 'input', 'net'):
        am = read('%s/%s/Makefile.am' % (SRC, d)).decode().replace('\\\n', ' ')
        for m in re.finditer(r'^lib\w+_a_SOURCES\s*=(.*)$', am, re.M):
            libs += ['%s/%s' % (d, t) for t in m.group(1).split() if t.endswith('.cc')]
    libs = [l for l in dict.fromkeys(libs) if l != 'util/subprocess.cc']
    mainsrc = {p: PROGS.get(p) or OWN[p] for p in progs}
    todo = []  # (object, cmd)
    def obj(rel, extra=(), main=False):
        path = os.path.join(SRC, rel)
        flags = list(BASE) + list(defines) + list(extra)
        if not rel.startswith('net/'):
            flags.append('-DNDEBUG')
        shared = any(rel.startswith(x) for x in LITE)
        if access and shared:
            flags += ['-fsanitize=thread']  # preemption at every memory access (sim/access.cc provides the hooks)
        elif full or shared:
            flags += TRACE
        body = closure(path)
        # a program's main is compiled as such (falling off its end returns 0) and renamed in the object
        o = os.path.join(WORK, 'obj', sha(hhash, body, rel, SRC, ' '.join(flags)) + ('.main.o' if main else '.o'))
        if not os.path.exists(o):
            todo.append((o, flags + inc + ['-c', path, '-o']))
        return o
    lib_objs = [obj(l) for l in libs]
    asm_inc = b''.join(read(p) for p in sorted(glob.glob(SRC + '/decoder/*.asm')))
    for p in sorted(glob.glob(SRC + '/decoder/*.asm')):
        o = os.path.join(WORK, 'obj', sha(asm_inc, p) + '.o')
        if not os.path.exists(o):
            todo.append((o, ['yasm', '-f', 'elf64', '-I' + SRC + '/decoder', p, '-o']))
        lib_objs.append(o)
    main_objs = {p: obj(s, HOOKS if s.startswith('salsify/') else [], main=True) for p, s in mainsrc.items()}
    sim_objs = []
    for p in sorted(glob.glob(SIM + '/*.cc')):
        flags = ['g++', '-std=c++17', '-pthread', '-O1', '-g1', '-w', '-U_FORTIFY_SOURCE', '-fno-builtin', '-c', p, '-o']
        o = os.path.join(WORK, 'obj', sha(simhh, read(p), ' '.join(flags)) + '.o')
        if not os.path.exists(o):
            todo.append((o, flags))
        sim_objs.append(o)
    x264 = os.path.join(WORK, 'obj', 'x264pic.a')
    if not os.path.exists(x264):
        tmp = x264 + '.%d' % os.getpid()
        run(['objcopy', '--redefine-sym', 'stderr=sim_x264_stderr', X264, tmp]); os.replace(tmp, x264)
    shim = os.path.join(WORK, 'obj', sha(read(SIM + '/shim/x264_stderr.c')) + '.o')
    if not os.path.exists(shim):
        todo.append((shim, ['gcc', '-fPIC', '-O1', '-c', SIM + '/shim/x264_stderr.c', '-o']))
    def comp(t):
        o, cmd = t
        tmp = o + '.%d.tmp' % os.getpid()
        run(cmd + [tmp])
        if o.endswith('.main.o'):
            run(['objcopy', '--redefine-sym', 'main=sim_main', tmp])
        os.replace(tmp, o)
    own_objs = {main_objs[p] for p in progs if p in OWN}
    def comp_own(t):
        if t[0] not in own_objs:
            return comp(t)
        try:
            comp(t)
        except BuildError:
            pass
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(comp_own, todo))
    progs = [p for p in progs if p not in OWN or os.path.exists(main_objs[p])]
    main_objs = {p: main_objs[p] for p in progs}
    key = sha(*sorted(lib_objs), *sorted(main_objs.values()), *sim_objs)
    out = os.path.join(WORK, 'bin-' + key)
    if not os.path.exists(os.path.join(out, 'done')):
        os.makedirs(out, exist_ok=True)
        arc = os.path.join(out, 'liball.a')
        if os.path.exists(arc):
            os.remove(arc)
        run(['ar', 'rcs', arc] + lib_objs)
        def link(p):
            run(['g++', '-shared', '-Wl,-Bsymbolic', '-Wl,-z,noexecstack', '-o', os.path.join(out, p + '.so'), main_objs[p], arc, x264, shim, '-ljpeg', '-lpthread', '-lm', '-ldl'])
        with ThreadPoolExecutor(jobs) as ex:
            fs = [ex.submit(link, p) for p in progs]
            run(['g++', '-rdynamic', '-o', os.path.join(out, 'sim')] + sim_objs + ['-ljpeg', '-lpthread', '-ldl'])
            for f in fs:
                f.result()
        open(os.path.join(out, 'done'), 'w').close()
    return out

if __name__ == '__main__':
    full = '--full' in sys.argv
    progs = [a for a in sys.argv[1:] if not a.startswith('-')] or list(PROGS)
    try:
        print(build(progs, full))
    except BuildError as e:
        print(e); sys.exit(2)

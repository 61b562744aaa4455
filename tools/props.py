"""Per-property configuration of the checks."""
SESSION = ['salsify-sender', 'salsify-receiver']
CAM = SESSION + ['real-webcam']
XC = ['xc-enc', 'xc-dump', 'xc-terminate-chunk', 'xc-decode-bundle', 'xc-merge', 'vp8decode', 'comp-states']
TOOLS_REAL = 'the command-line tools with encoder, decoder, readers and writers, standard library and x264 helpers, compiled from /repo'
TOOLS_STUB = 'kernel (files, mappings, pipes, clocks, scheduling, process death), getopt, X11/GL display, SSIM-only x264 logging'
BOUNDS = ('-fsanitize=bounds-strict', '-fsanitize-undefined-trap-on-error', '-D_GLIBCXX_ASSERTIONS')
# quick: number of seeds and cap in seconds for the search itself; thorough: cap in seconds
P = {
    'C01': dict(progs=SESSION, access=True, runs=400, cap=60, nontrivial='frames_exact', technique='whole sessions under seeded schedules and network faults, every displayed picture compared with libvpx on the frames sent',
                note='Real sender and receiver; oracle: a model of which fragments reached the receiver and when, plus an independent VP8 decoder.'),
    'C02': dict(progs=SESSION, access=True, runs=400, cap=60, nontrivial='acks_sent', technique='whole sessions under seeded schedules and network faults, watching for exits, faults, deadlocks and stalled loops',
                note='Real sender and receiver; datagrams are well-formed members of the session (malformed ones are outside the fault model).'),
    'C03': dict(progs=SESSION, runs=300, cap=60, nontrivial='recovery_frames_checked', technique='fault history (losses, partitions, receiver crash and restart) then a fault-free suffix in which exact pictures must flow within six seconds',
                note='Bounded liveness: six simulated seconds after the last fault.'),
    'C04': dict(progs=SESSION, runs=200, cap=70, nontrivial='frames_exact', technique='the same sender stream delivered to two receivers in different fragment orders and with duplicates, results compared',
                note='Sender stream also checked fragment by fragment.'),
    'C05': dict(progs=SESSION, runs=350, cap=60, nontrivial='frames_sent', technique='sessions with lost, reordered, duplicated, stale and foreign acknowledgements; source of every frame checked against a model of the newest acknowledgement',
                note='Decision times are bounded by the observed camera dequeue and encoder start.'),
    'C06': dict(progs=SESSION, runs=400, cap=60, nontrivial='acks_sent', technique='real receiver fed by real and scripted arrival histories; every acknowledgement predicted by a reference model',
                note='Inter-arrival average recomputed exactly from the simulated arrival times.'),
    'C07': dict(progs=SESSION, runs=220, cap=70, nontrivial='slots_checked', technique='sessions with stalls and clock changes; every data datagram checked against the slot computed from the fragments queued and the delay reported',
                note='Send slots follow the queue model stated in the property.'),
    'C08': dict(progs=SESSION, runs=350, cap=60, nontrivial='frames_sent', technique='sessions under varying capacity; sizes of emitted frames and runs of skipped pictures checked against the acknowledgements read',
                note='Acknowledgement in force is bounded by the observed read times.'),
    'C09': dict(progs=SESSION, access=True, runs=400, cap=60, nontrivial='pictures_drawn', technique='preemptive schedules of the receiving and display threads with slow display and spurious wake-ups; drawn pictures compared with libvpx',
                note='Preemption at instrumented blocks of the receiver and the buffer pools.'),
    'C10': dict(progs=SESSION, runs=64, cap=70, nontrivial='memory_samples', technique='long simulated sessions with losses and outages; live heap of both programs compared with a self-calibrated bound',
                note='Heap bytes requested through operator new, per program.'),
    'C11': dict(progs=CAM, access=True, runs=350, cap=60, nontrivial='captures', technique='simulated V4L2 device that overwrites returned buffers; captured, displayed and sent pictures compared with what the device delivered',
                note='Webcam pictures are compared sample by sample (JPEG with what libjpeg decodes); session pictures by order.'),
    'C17': dict(progs=SESSION + XC + ['xc-framesize', 'xc-ssim', 'xc-zero-out-residues', 'encodings'], full=True, access=True, runs=700, cap=60, nontrivial='frames_compared', technique='two senders with the same pictures and reports, and sets of encodings over the real Encoder and its pools, under different seeded schedules, orders and heap contents; datagrams and encodings compared byte by byte',
                note='Sender modes s1 and s2 (the conventional mode adapts to the clock); encodings also with a target size.'),
    'C12': dict(progs=XC, runs=1800, cap=45, nontrivial='pictures_checked', history=True, technique='simulated fleets of encoding workers, killed and rerun at seeded points and interleaved, chunks joined and decoded; pictures, entry states and handed-over states compared with libvpx and with decoding',
                note='Real xc-enc, xc-terminate-chunk, xc-dump and xc-decode-bundle over a simulated file system.', real=TOOLS_REAL, stub=TOOLS_STUB),
    'C13': dict(progs=XC + ['xc-framesize', 'xc-zero-out-residues'], runs=1000, cap=45, nontrivial='successes_compared', history=True, technique='every tool run under seeded short transfers, interruptions, I/O errors, full disks, failing opens, mappings and allocations; whatever reports success is compared with the run without faults',
                note='Success with a different, missing or torn output is the violation.', real=TOOLS_REAL, stub=TOOLS_STUB),
    'C14': dict(progs=XC + ['xc-framesize', 'xc-zero-out-residues'], runs=800, cap=45, nontrivial='leftovers_checked', history=True, technique='process crash at a seeded system call, inside a write or between two instructions blocks, and I/O errors; the file left behind compared frame by frame with the undisturbed output',
                note='A crash is the death of the process: what it had written stays.', real=TOOLS_REAL, stub=TOOLS_STUB),
    'C15': dict(progs=XC + ['vp8play'], runs=1500, cap=45, nontrivial='pictures_checked', history=True, technique='streams cut at seeded points, resumed from the saved state by every tool with crashes and short transfers on the way, compared with never having stopped; wrong, damaged and minimally different states offered instead',
                note='Streams from xc-enc, libvpx and a generator of control frames that touch every part of the state.', real=TOOLS_REAL, stub=TOOLS_STUB),
    'C16': dict(progs=XC + ['xc-framesize', 'xc-ssim', 'xc-diff', 'xc-dissect', 'vp8play', 'fake-webcam', 'xc-zero-out-residues'], runs=1000, cap=45, nontrivial='refused', history=True, defines=BOUNDS, technique='stored files damaged by seeded faults (cuts, flipped bits, lost and repeated blocks, wrong fields, mixed-up files) under guarded memory and bounded steps; any crash, abort, endless loop or silent failure is the violation',
                note='Every heap block ends at an inaccessible page and array bounds are checked.', real=TOOLS_REAL, stub=TOOLS_STUB),
    'C18': dict(progs=['fake-webcam'], runs=4000, cap=45, nontrivial='pictures_timed', history=True, technique='fake webcam under a simulated clock, stalls of its reader and of itself, clock changes, short transfers and I/O errors; bytes compared with the input and every picture checked against its due time',
                note='Due times: start of the program plus a whole number of intervals.', real='fake-webcam with its YUV4MPEG reader and writer, compiled from /repo', stub='kernel (files, pipe, clocks, sleeping)'),
    'C19': dict(progs=['xc-decode-bundle', 'vp8decode', 'vp8play'], runs=6000, cap=45, nontrivial='pictures_checked', history=True, technique='seeded frame histories (libvpx encodings with random settings, random but valid frames over the whole syntax, and mixtures of them, split over files and read with short transfers) decoded by the real tools, every picture compared with libvpx',
                note='libvpx is the reference model; corners where libvpx and the standard disagree are not generated (DESIGN.md).', real=TOOLS_REAL, stub=TOOLS_STUB),
    'C20': dict(progs=['xc-terminate-chunk', 'xc-dump', 'xc-decode-bundle', 'xc-merge', 'xc-zero-out-residues', 'xc-dissect'], runs=3000, cap=45, nontrivial='pictures_checked', history=True, technique='seeded frame histories as in C19 rewritten by the real tools over a file system with short transfers; results decoded by libvpx and compared, rewritten again, and compared with what xc-dump and xc-dissect report',
                note='libvpx decides what a stream shows; modes are compared as xc-dissect reports them.', real=TOOLS_REAL, stub=TOOLS_STUB),
    'C21': dict(progs=['xc-enc', 'xc-dump', 'quality'], runs=1500, cap=45, nontrivial='frames_checked', history=True, technique='seeded histories of pictures and requests (quantizers, minimum SSIMs, sizes) put to the real encoder and xc-enc over a file system with short transfers, with copies of the encoder tried at every other quality; frames decoded by libvpx and measured',
                note='SSIM computed independently; pictures with sides that are multiples of 16 where it is compared.', real=TOOLS_REAL + '; a small program over the Encoder class', stub=TOOLS_STUB),
    'C22': dict(progs=['xc-dump', 'xc-framesize', 'xc-ssim', 'comp-states', 'xc-diff', 'xc-dissect'], runs=3000, cap=45, nontrivial='reports_checked', history=True, technique='seeded streams, decoder states and pictures put to the real reporting programs over a file system with short transfers; what they print is compared with what an independent parser, libvpx and direct computation find',
                note='macroblock details of xc-dissect are compared with themselves in other runs (alone, among the others, resumed from a saved state) and with constructed frames.', real=TOOLS_REAL, stub=TOOLS_STUB),
}
NA = {}

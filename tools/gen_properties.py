#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The text of the properties lives here."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=[o.strip() for o in observe.split(";")])))

NOTEST = "None of the existing tests starts the Salsify sender or receiver at all; "
S, R = "src/salsify/salsify-sender.cc", "src/salsify/salsify-receiver.cc"

prop("C01", "Receiver displays exactly the picture the sender's stream describes",
  "Whenever every fragment of a video frame reaches the Salsify receiver before any fragment of a later frame, and the frame was encoded against a decoder state the receiver holds (the initial state, or one it listed as complete in its last acknowledgement), the receiver displays, pixel for pixel, the picture that a standard VP8 decoder produces for that chain of frames. The acknowledgement it then sends names the frame's announced target state as its current state and lists it as complete.",
  ["schedules", "fault_sequences", "inputs"],
  "every camera content, operation mode, network loss/duplication/reordering/delay pattern and thread schedule",
  NOTEST + "the decoder tests play fixed, undamaged files from frame 0 in one thread, so restoring an older state, recycled picture buffers and state naming are never exercised.",
  [S, R, "src/decoder/decoder.cc", "src/decoder/raster_handle.cc", "src/decoder/player.hh", "src/encoder/encoder.cc"],
  [("state naming (minihash) on both ends", "src/decoder/decoder.cc: DecoderHash, Decoder::minihash"),
   ("restore a saved decoder and apply the frame", R + ": main receive callback"),
   ("encoder's own copy of the decoder state", "src/encoder/encoder.cc: write_frame/update of references")],
  "UDP datagrams in both directions; pictures handed to the display")

prop("C02", "No network behaviour kills or wedges a running session",
  "While datagrams of a session are lost, duplicated, delayed, reordered or cut off for a time, and while either host runs slowly, neither the Salsify sender nor the receiver exits, crashes, deadlocks or stops servicing its socket. The sender keeps capturing and the receiver keeps acknowledging what reaches it.",
  ["schedules", "fault_sequences"],
  "every sequence of loss, duplication, delay, reordering, partition, thread stall and spurious wake-up applied to well-formed datagrams of the session",
  NOTEST + "a crash needs a particular reordering of acknowledgements or a particular truncated frame, which no fixed test samples.",
  [S, R, "src/net/poller.cc", "src/net/packet.cc", "src/decoder/bool_decoder.hh", "src/decoder/decoder_state.hh"],
  [("choice of the reference encoder from acknowledgements", S + ": capture callback"),
   ("partial frames decoded with error concealment", R + ": enqueue_frame; src/decoder/decoder_state.hh"),
   ("poll loop", "src/net/poller.cc: Poller::poll")],
  "exit status and signals of the two programs; progress of camera reads, datagrams and acknowledgements")

prop("C03", "Video recovers within a bounded time once faults stop",
  "Once the network delivers again and both programs run, after any history of losses, partitions or a crash and restart of the receiver, the receiver is showing pictures bit-exact with what the sender encoded within six seconds, and stays exact for every later frame. No history leaves the session permanently out of step or frozen.",
  ["schedules", "fault_sequences", "crash_points"],
  "every fault history followed by a fault-free suffix, and every moment at which the receiver is killed and restarted with no memory",
  NOTEST + "recovery depends on which acknowledgements and partial frames were in flight when the fault ended.",
  [S, R],
  [("conservative mode: encode only against known receiver states", S + ": capture callback, conservative_until"),
   ("acknowledgement of current and complete states", R + ": AckPacket"),
   ("jump to a newer frame", R + ": packet.frame_no() > next_frame_no")],
  "pictures handed to the display, compared with the reference decoding of the sender's frames")

prop("C04", "Frames reassemble and apply once, in order, whatever the packet order",
  "The fragments the sender emits for a frame, put in fragment order, are exactly that frame's bytes with consistent headers, and the receiver's result depends only on which fragments arrived before the first fragment of a newer frame, not on their order or on duplicates. A frame is applied at most once, frames are applied in increasing frame number, and a fragment of an already finished frame changes nothing.",
  ["fault_sequences", "inputs"],
  "every arrival order, duplication and loss of the fragments of every frame, with frames of 1 to many fragments",
  NOTEST + "the number of arrival orders of even a five-fragment frame with duplicates exceeds what a test enumerates.",
  ["src/net/packet.cc", "src/net/packet.hh", R],
  [("fragmentation and header serialisation", "src/net/packet.cc: FragmentedFrame, Packet::to_string"),
   ("reassembly", "src/net/packet.cc: FragmentedFrame::add_packet, frame, partial_frame"),
   ("stale and newer frame handling", R + ": main receive callback")],
  "UDP datagrams; acknowledgements; pictures handed to the display")

prop("C05", "Sender encodes only against states the receiver can be expected to hold",
  "Every frame the sender emits names as its source either the initial state, the target state of the frame emitted just before it, or a state that the newest acknowledgement lists as complete. When a picture is captured while the newest acknowledgement reports a receiver state other than those after the acknowledged frame and after the frame before it, that picture and - unless such a period is already running - every picture whose source is chosen in the following five seconds is encoded only against a state listed complete by the newest acknowledgement, or the initial state; acknowledgements that are older than one already processed, or belong to another session, have no effect.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of capture, encoding completion and (lost, reordered, duplicated, foreign) acknowledgements",
  NOTEST + "the choice depends on the history of acknowledgements seen when each capture happens.",
  [S],
  [("source selection", S + ": capture callback"), ("acknowledgement filter", S + ": ack callback, ack_seq_no"),
   ("eviction of old encoders", S + ": clean-up loop in the capture callback")],
  "source and target fields of the datagrams; acknowledgements read by the sender; camera dequeues")

prop("C06", "Acknowledgements are truthful",
  "The receiver answers every datagram that belongs to a frame it has not finished with exactly one acknowledgement, sent to the datagram's source, which echoes its frame and fragment number and carries the smoothed inter-arrival delay computed from arrival times and the pauses the sender announces (the time since it queued its previous frame). It lists every state that arose, since the last source used, from a frame it received in full; every state it lists as complete is one that arose from a frame it received in full from a held state, and the receiver can still decode a later frame encoded against any of them that is not older than the last source used.",
  ["fault_sequences", "histories", "inputs"],
  "every arrival history, including senders that fall back to any listed state at any time",
  NOTEST + "whether a listed state can still be loaded depends on the whole history of evictions.",
  [R, "src/net/packet.cc"],
  [("state store and eviction", R + ": decoders, complete_states"), ("inter-arrival average", R + ": AverageInterPacketDelay"),
   ("acknowledgement format", "src/net/packet.cc: AckPacket")],
  "acknowledgement datagrams; pictures handed to the display")

prop("C07", "Outgoing packets are paced, in order and exactly once",
  "The sender hands every fragment of every frame it decided to send to the network exactly once and in order, never earlier than one millisecond before its slot, where slots start when the queue was last empty and follow each other at a fifth of the receiver's last reported inter-arrival delay, kept between 0.5 and 2 ms. Every queued fragment leaves: the backlog drains at that pace, also when the host's clock is set forwards or backwards.",
  ["schedules", "fault_sequences"],
  "every timing of encodes and acknowledgements, every thread stall and clock adjustment",
  NOTEST + "pacing is a property of every schedule of timers and encodes.",
  ["src/net/pacer.hh", S, "src/net/poller.cc"],
  [("pacer queue", "src/net/pacer.hh: Pacer"), ("send loop and poll timeout", S + ": socket Out action, main loop")],
  "send times, order and contents of data datagrams")

prop("C08", "Frame sizes respect the network's reported capacity",
  "In the s1 and s2 modes a frame is put on the network only if its size fits 1400 bytes times the packets the receiver can take in 100 ms at its last reported inter-arrival delay, less those in flight; otherwise the captured picture is skipped, and after three skips in a row the smallest encoding goes out regardless, so never more than three captured pictures in a row are dropped. Before any report arrives nothing is skipped, and the conventional mode sends every captured picture.",
  ["schedules", "fault_sequences", "configurations"],
  "every network capacity history, acknowledgement timing, content and operation mode",
  NOTEST + "the budget depends on acknowledgement timing relative to encode completion.",
  [S],
  [("budget", S + ": target_size"), ("candidate choice and skip limit", S + ": encode-end callback")],
  "sizes of the frames on the wire against acknowledgements read and camera dequeues")

prop("C09", "Decoded pictures reach the display once, in order and unmodified",
  "Every picture the receiver decodes is drawn exactly once, in decoding order, with the pixels it had when decoded, however slow the display is and however decoding and drawing interleave. Every enqueued picture is eventually drawn even if no further frame arrives.",
  ["schedules"],
  "every interleaving of the receiving, hand-off and display threads, including spurious wake-ups and long display stalls",
  NOTEST + "lost wake-ups and buffer reuse races need particular interleavings.",
  [R, "src/decoder/raster_handle.cc", "src/decoder/decoder.cc"],
  [("display queue", R + ": display_task, enqueue_frame"), ("picture buffer recycling", "src/decoder/raster_handle.cc: RasterPool")],
  "pictures handed to the display")

prop("C10", "A session runs indefinitely in bounded memory",
  "While acknowledgements flow, the live memory of the sender and of the receiver does not grow with the length of the session beyond a few bytes of bookkeeping per frame: it is bounded by the largest number of unacknowledged frames seen so far, and going through the same conditions again does not raise it. Old encoder and decoder states and reassembly buffers are released once the peer has moved past them.",
  ["histories", "fault_sequences"],
  "every session length and loss history in which acknowledgements keep arriving",
  NOTEST + "growth shows only over long histories with losses.",
  [S, R, "src/decoder/raster_handle.cc", "src/decoder/frame_pool.cc"],
  [("encoder eviction", S + ": clean-up loop"), ("decoder eviction and reassembly map", R + ": complete_states, fragmented_frames"),
   ("buffer pools", "src/decoder/raster_handle.cc; src/decoder/frame_pool.cc")],
  "bytes allocated and not freed, per program")

prop("C11", "Capture is faithful and fresh",
  "For every supported pixel format the picture taken from the camera has exactly the luma and chroma samples the device delivered for that capture (4:2:2 chroma taken from even rows; for motion JPEG the samples its decoding gives, the very first JPEG picture excepted), even though the device overwrites the buffer as soon as it is given back. Captures are taken in device order, none twice, each buffer is returned to the device, and the sender emits pictures in capture order with no picture sent twice.",
  ["inputs", "schedules", "configurations"],
  "every picture content, supported format, frame rate, device stall and consumer delay",
  "No test opens a camera; buffer hand-back races depend on device timing.",
  ["src/input/camera.cc", "src/salsify/real-webcam.cc", S],
  [("buffer rotation and format conversion", "src/input/camera.cc: Camera::get_next_frame"), ("capture to encode", S + ": capture callback")],
  "V4L2 requests; pictures handed to the display by the webcam viewer; frames on the wire")

prop("C12", "Independently encoded chunks join into one consistent video",
  "When a video is cut into chunks that are encoded by separate workers and rebased chunk by chunk onto the previous chunk's final state, in any worker order and with any worker killed and rerun, the chunks played in sequence show every input picture exactly once and in order, with each chunk's recorded entry state equal to the state in which its predecessor ends. The final states the workers hand over equal those a decoder reaches by decoding the chunks, and every worker's output depends only on its input files.",
  ["schedules", "crash_points", "inputs"],
  "every chunking, worker interleaving, crash point and rerun",
  "The existing tests encode single files with one process; no test runs the chunk/terminate/rebase pipeline or kills a step.",
  ["src/frontend/xc-enc.cc", "src/encoder/reencode.cc", "src/frontend/xc-terminate-chunk.cc", "src/frontend/xc-dump.cc", "src/frontend/decode-bundle.cc"],
  [("rebase", "src/encoder/reencode.cc: Encoder::reencode, update_residues"), ("entry-state hash", "src/util/ivf_writer.cc: set_expected_decoder_entry_hash"),
   ("state hand-over", "src/decoder/enc_state_serializer.hh")],
  "files written and exit statuses of the command-line tools")

prop("C13", "A tool that reports success has written its whole, correct output",
  "If an encoding, re-encoding, decoding, merging, terminating or state-dumping command exits with status 0, then every file and stream it was asked to write is complete and has the same contents as in a run without any fault, whatever short reads, short writes, interruptions, I/O errors or full disks it met. If it cannot, it exits with a non-zero status.",
  ["fault_sequences", "inputs"],
  "every placement of short transfers, interrupted calls, read/write/open/map errors and disk-full conditions",
  "The tests run the tools on a healthy file system only.",
  ["src/util/file_descriptor.hh", "src/util/ivf_writer.cc", "src/decoder/enc_state_serializer.hh", "src/input/yuv4mpeg.cc", "src/util/exception.hh", "src/frontend/vp8decode.cc"],
  [("system call checking", "src/util/exception.hh: SystemCall"), ("write loops", "src/util/file_descriptor.hh"), ("state file writer", "src/decoder/enc_state_serializer.hh: EncoderStateSerializer::write")],
  "exit status, output files and standard output")

prop("C14", "A killed encoder leaves a readable prefix",
  "If an encoder, re-encoder, merger or chunk terminator is killed at any instant, or stops on an I/O error, the output video it was writing is either not yet a video file at all or opens as a valid one whose frames are exactly the first frames of the undisturbed output. No kill point leaves a file that claims a frame which is missing, torn or different.",
  ["crash_points", "fault_sequences"],
  "every system call (and partial write) at which the writer can stop",
  "The tests never interrupt a writer.",
  ["src/util/ivf_writer.cc", "src/util/ivf.cc"],
  [("append then count", "src/util/ivf_writer.cc: IVFWriter::append_frame"), ("index from header count", "src/util/ivf.cc: IVF::IVF")],
  "bytes of the output file after the kill, read by the project's own reader and by an independent parser")

prop("C15", "Saved decoder state resumes exactly, and wrong state is refused",
  "Saving the decoder state after the last frame of a terminated chunk and resuming from the file gives, for every later frame, the same pictures and the same state names as never having stopped, and saving what was loaded reproduces the file byte for byte. A chunk or stream whose recorded entry state differs from the supplied state is refused with an error before any picture is produced; two states that differ in anything that can affect later pictures never carry the same name in the same session.",
  ["inputs", "histories", "crash_points"],
  "every stream, cut position and pairing of states with chunks",
  "The serialisation test covers one fixed set of vectors (which are not available offline) and never pairs a state with the wrong chunk.",
  ["src/decoder/decoder.cc", "src/decoder/decoder.hh", "src/decoder/enc_state_serializer.hh", "src/decoder/player.cc", "src/frontend/decode-bundle.cc", "src/frontend/xc-dump.cc"],
  [("serialise/deserialise", "src/decoder/decoder.cc: serialize, deserialize"), ("hash check", "src/decoder/player.cc: FilePlayer; src/frontend/decode-bundle.cc"), ("hash coverage", "src/decoder/decoder.cc: hash functions")],
  "state files, decoded pictures and exit statuses of the command-line tools")

prop("C16", "Damaged input never crashes or hangs a decoder",
  "Whatever bytes a video file, state file or picture stream contains, and wherever it is cut off or changed while stored, the decoding, dumping and playing tools end in bounded time with an ordinary exit status, never by a memory fault, an abort or an endless loop. A failure is reported as an error message and a non-zero status.",
  ["inputs", "fault_sequences"],
  "every truncation and corruption of stored inputs",
  "The tests decode valid vectors only.",
  ["src/util/ivf.cc", "src/util/chunk.hh", "src/decoder/bool_decoder.hh", "src/decoder/uncompressed_chunk.cc", "src/decoder/frame.cc", "src/input/yuv4mpeg.cc"],
  [("bounds-checked chunks", "src/util/chunk.hh"), ("bool decoder", "src/decoder/bool_decoder.hh"), ("IVF index", "src/util/ivf.cc")],
  "exit status, signals and step counts of the tools")

prop("C17", "Encoding results do not depend on thread scheduling",
  "For the same sequence of captured pictures and received reports, the sender in its s1 and s2 modes emits the same frames, bytes and state names however its encoding threads are scheduled, and whether its candidate encodings run in parallel or one after another. An encoding depends only on the encoder's state, the picture and the quality asked for, not on what the program encoded before or encodes at the same time. Running a tool twice on the same input gives the same output.",
  ["schedules"],
  "every interleaving of the encoding threads with each other and with the main loop",
  "The tests run single-threaded encoders, once each.",
  [S, "src/encoder/encoder.cc", "src/decoder/raster_handle.cc", "src/decoder/frame_pool.cc"],
  [("parallel encode jobs", S + ": do_encode_job"), ("shared buffer pools", "src/decoder/raster_handle.cc; src/decoder/frame_pool.cc"), ("hash cache", "src/decoder/raster_handle.cc: HashCachedRaster::hash")],
  "data datagrams; output files")

prop("C18", "The fake webcam plays every picture once, unaltered and on time",
  "The fake webcam writes a stream header and then every picture of its input exactly once, in order and unaltered, never earlier than its due time at the requested rate, and catches up after a stall rather than drifting. It ends with success exactly at the end of the input.",
  ["schedules", "fault_sequences", "inputs"],
  "every rate, reader back-pressure, stall and short write",
  "No test runs it; timing must hold for every stall pattern.",
  ["src/salsify/fake-webcam.cc", "src/input/yuv4mpeg.cc"],
  [("deadline schedule", "src/salsify/fake-webcam.cc: next_frame_is_due"), ("picture reader and writer", "src/input/yuv4mpeg.cc")],
  "bytes and times on standard output")

prop("C19", "Decoding conforms to VP8",
  "For every valid VP8 stream that uses the supported features, in one file or continued over several, the decoding tools show exactly the pictures, in number, order and every sample, that the VP8 format defines (libvpx shows the same). A stream that uses features which are not supported (other versions, the simple filter, colour and clamping bits, upscaling, a change of size) is refused with a message and a non-zero status; what was shown before that is right, and no wrong picture is ever shown as a success.",
  ["inputs", "histories", "fault_sequences"],
  "every stream: any combination of header fields, prediction modes, motion vectors, coefficients, reference updates, segments, filter settings and hidden frames, and every history of earlier frames",
  "The tests decode fourteen vectors of one encoder; header fields that it never writes, and combinations that depend on several earlier frames, never occur.",
  ["src/decoder/frame.cc", "src/decoder/frame_header.hh", "src/decoder/macroblock.cc", "src/decoder/prediction.cc", "src/decoder/tokens.cc", "src/decoder/loopfilter.cc", "src/decoder/decoder_state.hh", "src/decoder/quantization.cc", "src/decoder/transform.cc"],
  [("header fields", "src/decoder/frame_header.hh"), ("state carried between frames", "src/decoder/decoder_state.hh: FilterAdjustments, Segmentation, ProbabilityTables"), ("reference updates", "src/decoder/frame.cc: copy_to"), ("refusal of unsupported features", "src/decoder/uncompressed_chunk.cc; src/decoder/frame_header.hh")],
  "pictures written by vp8decode and xc-decode-bundle; exit status")

prop("C20", "Rewriting a stream preserves it",
  "For every valid VP8 stream, the tools that rewrite it keep what it means: the terminated chunk has the same number of frames and shows exactly the same pictures, afterwards the last decoded picture is the only reference, the state written beside it is the one decoding it leads to, and terminating it again changes nothing; joining two files keeps every frame byte for byte in order; taking out the residues keeps every header field, prediction mode and motion vector.",
  ["inputs", "histories"],
  "every stream: any combination of header fields, probability updates, modes, motion vectors, coefficients and partitions, written again by the serializer",
  "The round-trip test covers the vectors of one encoder.",
  ["src/encoder/serializer.cc", "src/encoder/bool_encoder.hh", "src/encoder/encode_tree.cc", "src/frontend/xc-terminate-chunk.cc", "src/frontend/xc-merge.cc", "src/frontend/xc-zero-out-residues.cc", "src/util/ivf_writer.cc"],
  [("frame serializer", "src/encoder/serializer.cc"), ("terminating", "src/frontend/xc-terminate-chunk.cc"), ("IVF writer", "src/util/ivf_writer.cc")],
  "files written by the tools, decoded by libvpx")

prop("C21", "The encoder delivers the quality asked for",
  "Asked for a quantizer, the encoder gives every frame exactly that quantizer. Asked for a minimum SSIM, every frame reaches it (measured between the decoded picture and the original), or uses the finest quantizer there is; and no finer quantizer than needed is used: one step coarser, encoded by the same encoder, would miss it. Asked for a size, the frame uses the finest quantizer in reach whose estimated size fits, or the coarsest in reach if none does (4 to 127, in real-time quality within 16 of the last frame's); the estimate follows the real size. In each case the frame is the one the encoder makes at that quantizer; there is one shown frame per picture, a key frame exactly where there is no state to continue from, and it decodes to a picture about as close to the original as its quantizer allows.",
  ["inputs", "histories", "fault_sequences"],
  "every picture, encoder state, quality setting and history of requests",
  "The encoder tests compare a few fixed encodings for decodability; none asks for a quality and measures it.",
  ["src/encoder/encoder.cc", "src/encoder/encode_inter.cc", "src/encoder/encode_intra.cc", "src/encoder/size_estimation.cc", "src/frontend/xc-enc.cc"],
  [("search for the SSIM", "src/encoder/encoder.cc: encode_with_quantizer_search"), ("search for the size", "src/encoder/encoder.cc: encode_with_target_size"), ("size estimates", "src/encoder/size_estimation.cc"), ("command line", "src/frontend/xc-enc.cc")],
  "frames returned by the Encoder and written by xc-enc, decoded by libvpx and measured")
prop("C22", "Reports about streams, states and pictures tell the truth",
  "xc-framesize lists every frame of an IVF file with its number and exact size, and the total. xc-ssim prints, for each pair of pictures of two videos (IVF or Y4M) up to the shorter one, the SSIM of the luma plane (with -a of each plane) of exactly these pictures. xc-dissect reports for each frame (with -f only for that one) its number, kind, size, and every header field, segment setting, quantizer, loop filter adjustment and probability update as they are coded in the frame; its macroblocks are listed once each in raster order with the modes, references, motion vectors and coefficients they have, and what it says about a frame does not depend on whether it is reported alone, among the others, or from a saved decoder state. comp-states counts the bits in which two saved states differ, and the share of samples of their pictures that differ and by how much; xc-diff names exactly the parts in which they differ; both exit with 0 exactly when the states are equal. Short reads and writes change nothing.",
  ["inputs", "histories", "fault_sequences"],
  "every stream, pair of states and pair of videos",
  "No test runs these programs; what they say about a frame depends on the whole stream before it, so that a few samples cannot settle it.",
  ["src/frontend/xc-dissect.cc", "src/frontend/xc-framesize.cc", "src/frontend/xc-ssim.cc", "src/frontend/comp-states.cc", "src/frontend/xc-diff.cc", "src/util/ssim.cc"],
  [("frame dissection", "src/frontend/xc-dissect.cc: print_frame_info"), ("state comparison", "src/frontend/xc-diff.cc, src/frontend/comp-states.cc"), ("SSIM", "src/util/ssim.cc: ssim"), ("frame sizes", "src/frontend/xc-framesize.cc")],
  "what the programs print and their exit statuses")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")

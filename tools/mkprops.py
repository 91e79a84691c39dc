#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one line per property).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=False):
    a = {"files": files, "mechanism": [{"name": mechanism, "where": files[0]}]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = [observe]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

NOE2E = ("The repository's in-tree tests are per-function DSP comparisons (checkasm) and header compile tests; "
         "none of them opens a decoder or decodes a frame. ")

p("C01", "Decoded pictures do not depend on threads, frame delay or scheduling",
  "For every stream that decodes without error, the sequence of returned pictures (count, order, dimensions, format, every visible pixel, attached headers, metadata and timestamps) is the same for every number of threads, every max_frame_delay and every thread interleaving, and equals what single-threaded decoding returns (if only the highest spatial layer is output: for streams passed in whole temporal units). "
  "It also does not depend on the previous contents of freshly allocated memory.",
  ["schedules", "configurations", "inputs"],
  "all interleavings of the worker threads with each other and with the calling thread; n_threads 1..16, max_frame_delay 0..n_threads; all valid streams and settings",
  NOE2E + "No test runs the task scheduler at all; output under real threads samples one OS-chosen interleaving, while the races between row progress, reference rows, post-filter passes, CDF hand-over and film grain are only visible in particular interleavings.",
  ["src/thread_task.c", "src/decode.c", "src/recon_tmpl.c", "src/lf_apply_tmpl.c", "src/cdef_apply_tmpl.c", "src/lr_apply_tmpl.c", "src/refmvs.c", "src/cdf.c", "src/picture.c", "src/lib.c"],
  "Two-pass frame-threaded and tile-threaded task scheduler with per-row progress counters, reference-row dependency tracking and ring of delayed output frames.",
  [("frame progress", "per-picture count of rows/entropy rows that other frames may read"),
   ("task queues", "ordered pending work of each frame in flight")],
  "dav1d_get_picture() results, compared pixel by pixel with a single-threaded decode of the same bytes")

p("C02", "Every API call returns: no deadlock or lost wakeup under any schedule",
  "Whatever the input (valid, corrupt or truncated), the settings, the thread interleaving, spurious condition wakeups or failed allocations, every library call returns after a bounded amount of work and never deadlocks. "
  "This includes flushing or closing a decoder while frames are still being decoded on worker threads, and draining it only partly before sending more data.",
  ["schedules", "inputs", "histories", "fault_sequences"],
  "all interleavings, including spurious wakeups and starved threads; all call histories of send/get/flush/close; valid and damaged streams; allocation and thread-creation failures",
  NOE2E + "A lost wakeup needs one precise interleaving of a signal with a wait, or an error on one tile while another frame waits for its rows; no test contains a waiting thread.",
  ["src/thread_task.c", "src/lib.c", "src/decode.c", "src/obu.c", "src/mem.c"],
  "One scheduler lock with condition variables for workers, per-frame completion conditions, and error paths that must still advance progress and count down tasks.",
  [("pending work", "queued tasks, waiting workers, conditions the API thread blocks on")],
  "return of dav1d_send_data/get_picture/flush/close within a bounded number of scheduling steps")

p("C03", "Closing a decoder releases everything it acquired",
  "After the decoder is closed and the application has dropped the pictures, data, event and property references it holds, no memory, thread, lock, picture buffer or input buffer of that decoder remains, whatever the input, settings, call history and interleaving were. "
  "Nothing is released twice.",
  ["histories", "inputs", "schedules", "crash_points"],
  "all histories of open/send/get/flush/apply-grain/close including closing at any point, for valid and damaged streams and every interleaving",
  NOE2E + "Leaks on close depend on which frames, tiles, headers and metadata were in flight at the moment of closing or of the error.",
  ["src/lib.c", "src/obu.c", "src/ref.c", "src/mem.c", "src/data.c", "src/picture.c", "src/cdf.c", "src/thread_task.c", "src/decode.c"],
  "Reference-counted buffers and recycled buffer pools released by close; worker threads joined.",
  [("reference counts", "owners of picture, header, CDF, segmentation map, motion field and data buffers")],
  "ledger of every allocation, thread, lock, picture-allocator and data-free callback made by the decoder")

p("C04", "No input makes the decoder touch memory it does not own",
  "For every byte sequence given to a decoder, whatever the settings, packetization and thread interleaving, the library performs no out-of-bounds, use-after-free or misaligned access, no division by zero, signed overflow or out-of-range shift count, and does not abort; damaged input is answered with negative error codes or decoded pictures.",
  ["inputs", "schedules", "histories"],
  "all byte strings (in particular damaged variants of valid streams: flipped bits, truncation, dropped, duplicated and reordered units), all settings, all interleavings",
  NOE2E + "The fuzzers under tests/dav1d_* are not run as tests and observe only whichever interleaving the OS picks; memory errors that need a damaged frame plus a particular order of workers cannot be sampled by the unit tests.",
  ["src/obu.c", "src/getbits.c", "src/decode.c", "src/recon_tmpl.c", "src/refmvs.c", "src/thread_task.c", "src/lib.c", "src/picture.c", "src/msac.c"],
  "Syntax validation before use, size checks of tiles and references, error propagation across threads.",
  None, "address/undefined-behaviour sanitizer plus guard-filled allocations under the simulator")

p("C05", "Failed allocations or thread creation are contained",
  "If any memory allocation, picture-buffer allocation, lock, condition or thread creation made by the library fails, the call that needed it (or a later one for work done in the background) reports a negative error or the affected frame is missing, and nothing crashes, hangs, leaks or is released twice. "
  "An open that fails leaves no decoder and no resources behind; after a failure goes away, the decoder can still be flushed and decodes a following key-frame sequence exactly as a fresh decoder would, or can be closed.",
  ["fault_sequences", "crash_points", "schedules", "configurations"],
  "every allocation/creation made during open, decode, flush and close failing once, several times or from some point on, under every interleaving, thread count and stream",
  NOE2E + "No test makes an allocation fail; there are hundreds of failure points and each has its own cleanup path, several of them on worker threads.",
  ["src/lib.c", "src/decode.c", "src/obu.c", "src/mem.c", "src/ref.c", "src/picture.c", "src/cdf.c", "src/refmvs.c", "src/data.c", "src/thread_task.c"],
  "Negative-errno error paths with goto-cleanup in every allocation site.",
  None, "API return codes, ledger of resources, pictures decoded after recovery")

p("C06", "A flushed decoder behaves like a fresh one",
  "After a flush returns, no picture, timestamp, content-metadata or error state of data sent before the flush is ever returned, the decoder accepts new data, and decoding a stream that starts with its own sequence header and key frame gives exactly the pictures a newly opened decoder gives, whatever was in flight, decoded, half-parsed or broken at the moment of the flush and whatever the interleaving.",
  ["histories", "crash_points", "schedules", "inputs"],
  "flush at every point of a decode (between any two calls, with frames in flight on any number of threads, after errors, after partially consumed data), repeated flushes",
  NOE2E + "The seek stress tool is not run as a test and needs sample files; what survives a flush depends on the exact progress of background threads.",
  ["src/lib.c", "src/obu.c", "src/decode.c", "src/thread_task.c"],
  "Flush stops the worker threads, drops cached pictures, references and parsed state and restarts.",
  [("reference slots, cached pictures, delayed output ring, operating point, event flags, cached error", "state that must not leak across a flush")],
  "pictures, headers, metadata, event flags and error codes after the flush vs. a fresh decoder")

p("C07", "Input buffers stay owned and unmodified until released, exactly once",
  "Every input buffer that is handed over is kept alive and byte-for-byte unmodified until the library calls its free callback, which happens exactly once and not before the last use by any thread, at the latest when the decoder is closed and the caller's references are dropped. "
  "A send call either consumes the data (and clears the caller's handle), or returns try-again leaving the handle untouched for resubmission, or reports an error; user-data attached to data or pictures is likewise released exactly once.",
  ["histories", "schedules", "inputs", "fault_sequences"],
  "all histories of create/wrap/send/unref/flush/close with valid and damaged data, data props with user data, all interleavings and failed allocations",
  NOE2E + "Early release is only visible when a worker still reads tile data after the API thread moved on.",
  ["src/data.c", "src/ref.c", "src/lib.c", "src/obu.c", "src/decode.c"],
  "Reference-counted data slices held by each frame's tile list, wrapped user buffers with a free callback.",
  None, "free-callback log, poisoned buffers after release, checksums of buffers while owned")

p("C08", "Picture buffers: allocator contract, completeness and lifetime",
  "Picture buffers come only from the configured allocator, called only from within library calls on the calling thread, are released exactly once through the matching callback (on the calling thread too, unless frame threading is in use), and are never read or written after release nor written outside the buffer layout. "
  "A returned picture is complete when it is returned and its pixels, headers and metadata never change afterwards as long as the application holds a reference, even while decoding continues, after flush and after close.",
  ["schedules", "histories", "inputs", "fault_sequences"],
  "all interleavings of workers with get/unref/flush/close, any hold time of pictures, default and custom allocators (including recycling and failing ones)",
  NOE2E + "A picture returned a row too early or recycled while still referenced only shows in particular interleavings.",
  ["src/picture.c", "src/lib.c", "src/ref.c", "src/mem.c", "src/decode.c", "src/thread_task.c", "include/dav1d/picture.h"],
  "Allocator callbacks, reference counting and pools; output only after all rows are done.",
  None, "checksums of held pictures, allocator call log with fibre identity, poisoned memory after release")

p("C09", "Timestamps and user data follow their frame",
  "Each returned picture carries the timestamp, duration, offset, size and user data of the data chunk that contained the temporal unit's frame that it shows (for a frame shown again by a later header, those of the chunk that showed it), and when a call reports a decode error the error-properties query returns the properties of a chunk of the failing frame. "
  "This holds for every thread count, packetization, flush and interleaving.",
  ["schedules", "histories", "inputs", "configurations"],
  "all streams with shown, hidden, re-shown frames and layers; all thread counts, interleavings and chunkings",
  NOE2E + "The association crosses threads and the delayed-output ring.",
  ["src/lib.c", "src/obu.c", "src/picture.c", "src/data.c", "src/decode.c"],
  "Props copied from input data to picture and to the cached error props.",
  None, "Dav1dPicture.m and dav1d_get_decode_error_data_props()")

p("C10", "Every shown frame is output exactly once, in order, within the delay bound",
  "For a valid stream the pictures returned are exactly the frames the stream shows for the selected operating point, each once and in bitstream order. "
  "A picture request returns try-again only when the decoder needs more data or has nothing left; draining at the end returns everything; and no more frames than the reported frame delay are held back.",
  ["inputs", "schedules", "histories", "configurations"],
  "all streams (hidden frames, re-shown frames and key frames, spatial/temporal layers), all settings, every interleaving and pattern of send/get calls",
  NOE2E + "Losing or duplicating a picture happens at the border between the delayed-output ring, drain and the caller's call pattern.",
  ["src/lib.c", "src/obu.c", "src/decode.c", "src/picture.c"],
  "Output queue of delayed frames and cached picture for spatial layers, drain protocol.",
  None, "sequence of dav1d_send_data/dav1d_get_picture results compared with a reference model of the stream")

p("C11", "Output is independent of how the stream is cut into chunks and calls",
  "Splitting the same sequence of OBUs into chunks of one or many OBUs, and interleaving send and get calls in any legal way, does not change the decoded pictures or their order (with spatial layers and only the highest one requested, chunks hold whole temporal units).",
  ["histories", "inputs", "configurations", "schedules"],
  "all splits of an OBU sequence at OBU borders into send calls, all legal interleavings of send/get, all thread counts",
  NOE2E + "The parser keeps partially consumed data across calls and blocks.",
  ["src/lib.c", "src/obu.c", "src/data.c"],
  "Parser consumes OBU by OBU from a kept slice and may return early when a picture is ready.",
  None, "picture sequence under different splits")

p("C12", "Output-selection settings select, and never alter, what is output",
  "Restricting decoding to intra, key or reference frames, outputting invisible frames, choosing an operating point or all layers, and disabling film grain each give exactly the selected subset of the pictures the unrestricted decode produces, with identical pixels, for every thread count and interleaving. "
  "Skipped frames never cause errors or stalls in frames that do not depend on them.",
  ["configurations", "inputs", "schedules"],
  "all combinations of decode_frame_type, output_invisible_frames, operating_point, all_layers, apply_grain with all streams, thread counts and interleavings",
  NOE2E + "The skip paths update reference slots and the output ring differently from decoded frames.",
  ["src/obu.c", "src/lib.c", "src/decode.c"],
  "Early skip in the frame header path that must still update reference state; output filter by layer and visibility.",
  None, "picture sequences compared with the reference model of the stream and with the unrestricted decode")

p("C13", "Film grain is applied identically by every path and only to outputs",
  "The picture with film grain is the same whether grain is applied inside the decoder with any number of threads and any interleaving, or afterwards by the application through the grain-application call on the ungrained picture. "
  "Applying grain never changes the frames used for reference: pictures decoded later are the same with grain on and off.",
  ["schedules", "configurations", "inputs"],
  "all film-grain parameters, bit depths and layouts, thread counts, interleavings",
  NOE2E + "checkasm compares single grain functions; it does not run the row scheduler that spreads grain over workers.",
  ["src/lib.c", "src/thread_task.c", "src/fg_apply_tmpl.c", "src/filmgrain_tmpl.c", "src/picture.c"],
  "Grain rows are handed to workers as delayed tasks with a completion wait.",
  None, "picture pixels from the three paths")

p("C14", "Decoders in one process do not influence each other",
  "Any number of decoders opened, used and closed concurrently from different application threads, including the very first use of the library in a process, each behave exactly as if they were alone.",
  ["schedules", "histories", "configurations"],
  "all interleavings of two or more decoder instances with different streams and settings, including concurrent first opens",
  NOE2E + "Shared one-time initialisation and any hidden global state are only exposed by concurrent instances.",
  ["src/lib.c", "src/wedge.c", "src/cpu.c", "src/qm.c", "src/ctx.c", "src/mem.c"],
  "One-time initialisation of shared tables; everything else per instance.",
  None, "pictures of each instance vs. the same instance alone")

p("C15", "Content metadata and headers are attached to the pictures they belong to",
  "Each returned picture carries the sequence and frame header it was decoded with (every field equal to what the bitstream coded, including the values inherited from reference frames and, for a re-shown frame, those of the frame shown), and dav1d_parse_sequence_header reports the same sequence header for the same data. Each picture also carries the most recent content-light and mastering-display metadata sent before it in its coded sequence, and exactly the T.35 payloads, in order and unmodified, that accompanied its own frame. "
  "T.35 payloads are never attached to another picture, lost, or truncated, for every thread count and interleaving.",
  ["inputs", "schedules", "histories"],
  "all placements of metadata OBUs relative to frame OBUs; thread counts; interleavings; re-shown frames",
  NOE2E + "Metadata is carried by reference across threads and the delayed-output ring.",
  ["src/obu.c", "src/picture.c", "src/lib.c"],
  "Reference-counted metadata moved or copied to the next output picture.",
  None, "Dav1dPicture.{seq_hdr,frame_hdr,content_light,mastering_display,itut_t35}")

p("C16", "Event flags announce new sequences and parameter changes with the right picture",
  "The event flags report a new sequence (or a change of its operating parameter information) with the first picture returned of that sequence: never missing and never before it or with a picture of an earlier sequence. Polling the flags after each picture gives the same answers for every thread count and interleaving (a frame that is shown again repeats its flags; several spatial layers are covered when all of them are output).",
  ["inputs", "schedules", "histories", "configurations"],
  "all streams with repeated, changed and parameter-only-changed sequence headers; thread counts; interleavings",
  NOE2E + "The flags travel with pictures through the delayed-output ring.",
  ["src/lib.c", "src/obu.c", "src/picture.c"],
  "Frame flags copied to each picture and accumulated when the picture is output.",
  None, "dav1d_get_event_flags() after every picture")

p("C17", "After damaged input the decoder recovers at the next key frame",
  "After any damaged, missing or undecodable data, once an intact sequence header and key frame are received, all following intact frames are returned with exactly the pixels of an undamaged decode, without a flush or reopen and within the normal frame delay, whatever the interleaving. "
  "Pictures that belong to the intact part before the damage are not affected either.",
  ["inputs", "fault_sequences", "schedules", "histories"],
  "all damages (bit flips, truncation, dropped, duplicated, reordered chunks) before a key frame, all thread counts and interleavings",
  NOE2E + "Recovery depends on which references and tasks were poisoned by the error and when the workers noticed it.",
  ["src/obu.c", "src/lib.c", "src/decode.c", "src/thread_task.c"],
  "Error propagation through progress counters and reference slots; cached error reporting.",
  None, "pictures after the key frame vs. an undamaged decode")

p("C18", "The command line player reports I/O failures and never corrupts output silently",
  "When reading the input or writing the output fails or is cut short (I/O error, short read or write, disk full, failing open or close, failing allocation), the command-line decoder ends in bounded time without a crash, and exits with success only if the output holds every requested frame completely; without faults the written output and reported checksum depend only on the stream, not on threads, muxer chunking or the clock.",
  ["fault_sequences", "crash_points", "inputs", "configurations"],
  "every I/O call of a run failing or being short, for each demuxer and muxer; simulated clock with stalls and jumps for realtime pacing",
  NOE2E + "No test runs the tool with failing I/O.",
  ["tools/dav1d.c", "tools/input/input.c", "tools/input/ivf.c", "tools/input/annexb.c", "tools/input/section5.c", "tools/output/output.c", "tools/output/md5.c", "tools/output/yuv.c", "tools/output/y4m2.c", "tools/output/xxhash.c"],
  "Demuxers and muxers on top of stdio, main loop with exit status.",
  None, "exit status, bytes that reached the simulated disk, stderr")

p("C19", "Frame size limit bounds what the decoder allocates",
  "With a frame size limit set, no frame with more pixels than the limit is decoded, output or given to the picture allocator; such frames are rejected with an error without large allocations, the decoder stays usable, and frames within the limit decode exactly as without the limit.",
  ["inputs", "configurations", "histories", "schedules"],
  "all limits and all frame sizes including size changes within a stream and super-resolution, thread counts, interleavings",
  NOE2E + "The check has to hold for each way a frame can obtain its size.",
  ["src/obu.c", "src/lib.c", "src/picture.c"],
  "Limit check while the frame header is parsed.",
  None, "return codes, allocator log, pictures")

p("C20", "Invalid arguments and settings are rejected without side effects",
  "Calls with out-of-range settings or null or inconsistent handles return an error and leave decoder, handles and caller data unchanged and usable; every accepted combination of settings opens a decoder that decodes, and the reported frame delay for the settings is between 1 and the number of threads (or an error) and is honoured. The command-line tool given unknown options, malformed or out-of-range values, missing values or contradictory choices exits with a non-zero status and writes no output.",
  ["configurations", "histories"],
  "all settings values at and beyond their documented ranges; API misuse such as null pointers, empty data, double unref of cleared handles; command lines of the tool",
  NOE2E + "No test calls the API.",
  ["src/lib.c", "src/data.c", "src/picture.c", "tools/dav1d_cli_parse.c", "tools/dav1d.c"],
  "Validation macros at API entry.",
  None, "return codes and state of handles")

p("C21", "No unsynchronised conflicting memory accesses between threads",
  "In every interleaving of a decode, any two conflicting accesses by different threads (workers, the calling thread, and application threads that own pictures or data) to the decoder's memory are ordered by locks, thread creation/join or atomics of sufficient memory order.",
  ["schedules", "inputs", "histories"],
  "all interleavings and thread counts, valid and damaged streams, flush and close, release of pictures from other application threads",
  NOE2E + "Races are invisible on strongly ordered hardware and in sampled schedules.",
  ["src/thread_task.c", "src/decode.c", "src/lib.c", "src/ref.c", "src/mem.c", "src/picture.c", "src/refmvs.c", "src/cdf.c"],
  "Acquire/release progress counters and one scheduler mutex.",
  None, "vector-clock race detector fed by simulated fibres")

p("C22", "Pictures and data may be referenced and released from any application thread",
  "Pictures returned by a decoder may be held, read and released from other application threads at any time, concurrently with decoding, flushing and closing, and this never changes what the decoder outputs, blocks it, or leaves anything unreleased.",
  ["schedules", "histories"],
  "all interleavings of one or more application threads that read and release pictures with the decoding thread and the workers",
  NOE2E + "Needs interleavings between application threads, recycled buffer pools and decoder teardown.",
  ["src/picture.c", "src/ref.c", "src/mem.c", "src/lib.c"],
  "Atomic reference counts; buffer pools that outlive the decoder until their last buffer returns.",
  None, "picture checksums, ledger, decoder output")

p("C23", "Container files deliver exactly their packets; damaged files do no harm",
  "For every well-formed IVF, Section 5 or Annex B file the command-line decoder recognises the format and decodes exactly the packets in the file, in order; if the file ends early (at any byte) it decodes exactly those packets that are complete. In an IVF file each packet is delivered with its data, time stamp (or a regular replacement if the time stamps do not increase) and file offset, and after seeking to a time the next packet is the first one that is not earlier; a seek behind the last packet fails and later seeks still work. Damaged, empty or misnamed files, and inputs that cannot be positioned, never cause a crash, an access outside of allocated memory or an endless loop, and never success without output.",
  ["inputs", "crash_points", "histories", "fault_sequences"],
  "all packet sizes, time stamps and header values, all byte positions at which the file ends, all damages of a file, all sequences of reads and seeks, short reads",
  NOE2E + "No test opens a container file; the cases that matter are positions of the end of the file and sequences of seeks.",
  ["tools/input/ivf.c", "tools/input/section5.c", "tools/input/annexb.c", "tools/input/input.c", "tools/input/parse.h", "tools/dav1d.c"],
  "Demuxers that scan the file when it is opened and read one packet at a time.",
  [("position", "file offset and last time stamp of a demuxer")], "packets returned by the demuxer; output of the tool compared with a reference model of the container")

p("C24", "Real-time pacing, frame times and termination signals",
  "With --realtime no frame is written before its time (one frame period per frame after the start, less the given cache), the tool never sleeps longer than that requires and never sleeps without --realtime; pacing does not change what is written. The frame times file has one plausible line per frame. After SIGINT or SIGTERM at any moment the tool writes at most two more frames, leaves only whole frames in the output and reports success only if the output is complete.",
  ["schedules", "crash_points", "configurations", "inputs"],
  "all frame rates, cache sizes, decode speeds, stalls and oversleeping of the simulated clock; a signal at any point of the run; all interleavings",
  NOE2E + "Depends on the clock and on the moment of a signal; no test runs the tool.",
  ["tools/dav1d.c", "tools/dav1d_cli_parse.c", "tools/output/output.c"],
  "synchronize() compares the elapsed time with a deadline per frame; a flag set by the signal handler is polled by the decode loop.",
  [("elapsed", "time since the first frame, or the deadline that was waited for"), ("signal_terminate", "set by the signal handler")], "simulated clock when bytes reach the disk, sleeps, frame times file, exit status")

p("C25", "What a decoder holds does not grow with the length of its input",
  "When the same data is decoded again and again by one decoder - run on, drained or flushed between repetitions, intact or damaged, for every thread count and interleaving - the memory, locks, threads, picture buffers and input buffers the decoder holds after the first few repetitions stop growing: they depend on the streams and settings, not on how much was decoded or how many frames failed.",
  ["inputs", "histories", "schedules", "configurations"],
  "all streams, damages and repetitions, thread counts and delays, interleavings",
  NOE2E + "Growth shows only over many repetitions, and what is lost until dav1d_close is invisible to leak checkers.",
  ["src/mem.c", "src/lib.c", "src/obu.c", "src/decode.c", "src/ref.c", "src/picture.c", "src/cdf.c"],
  "Buffers are reference counted and returned to pools which are reused; per-frame-context buffers are kept and grown to the largest frame.",
  None, "live heap blocks and bytes, locks, threads, picture and input buffers, measured after every repetition")

p("C26", "The player shows every picture once, in order and on time",
  "dav1dplay shows every picture of an intact file exactly once, in output order, from the first to the last (also those delayed in the decoder), with the pixels and time stamp of the decoder's picture; without --untimed not earlier than its time stamp says. Pausing and exposing do not change what is shown; each seek leads to one place of the stream from where it goes on in order to the end; quitting at any moment ends the player. It always ends (also if the file is damaged or an allocation or thread creation fails), releases every picture, buffer, lock and renderer buffer before its owner goes away, never shows a picture of its own invention, and its exit status is zero exactly if nothing failed.",
  ["schedules", "histories", "inputs", "crash_points", "configurations"],
  "all interleavings of the decoder thread, the main loop and a user who pauses, seeks, exposes and quits at any moment; thread counts and frame delays; both kinds of renderer, zero-copy and renderer-side film grain; damage; failures",
  "No test runs the player; needs a display, and depends on the interleaving of two threads and the user.",
  ["examples/dav1dplay.c", "examples/dp_fifo.c", "examples/dp_renderer_sdl.c", "tools/input/ivf.c"],
  "The decoder thread passes pictures through a bounded FIFO and one SDL event per picture to the main loop; seeks flush both.",
  [("fifo->count", "pictures waiting to be shown"), ("dec_should_terminate", "the user quit")], "calls of the renderer (pixels, time stamp, simulated time), exit status, ledger of heap, locks, threads, SDL objects and renderer buffers")

p("N01", "Decoded pixels conform to the AV1 specification",
  "For every conformant stream the decoded pixels equal those defined by the AV1 specification.",
  ["inputs"], "all conformant bitstreams",
  "The conformance vectors live in a separate repository that is not available here; checkasm compares implementations of DSP functions with each other.",
  ["src/decode.c", "src/recon_tmpl.c", "src/itx_1d.c", "src/mc_tmpl.c", "src/ipred_tmpl.c"],
  "Reconstruction process.")

p("N02", "CPU-specific DSP functions equal the portable ones",
  "Every CPU-specific implementation of a DSP function gives the same result as the portable C function for all valid inputs.",
  ["inputs", "configurations"], "all inputs of all DSP functions",
  "checkasm samples random inputs for each function.",
  ["src/x86", "src/arm", "src/mc_tmpl.c", "src/itx_tmpl.c"],
  "Function tables selected by CPU flags.")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))

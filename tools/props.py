MODULES = ["bits"]
HOOKS = {"guard": "VT_HOOKS", "enable": "no hook was needed: the checks compile the unmodified sources of /repo with interposed system calls", "source_commits": []}
NOTES = "Every check runs bin/check.py: TLC checks the design model of the area exhaustively, generates or is given scripts, the scripts run on the real code compiled from /repo, and TLC decides whether each recorded trace is a behaviour of the specification. DESIGN.md describes each area."
T = "TLA+ specification checked with TLC; traces of the real code validated against it by TLC"
BASE = ("Bounded: TLC enumerates the design model completely within the bounds named in DESIGN.md; the binding to the code is by scripts "
        "(%s) whose traces TLC accepts or rejects. Trusts TLC, the driver's recording of calls and results, and AddressSanitizer for memory errors.")
PROPS = []


def add(id, title, statement, over, text, why, files, mech, note, state=None, observe=None, level="model_checking", technique=T, na=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["public API"]
    a["hook_needed"] = None
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                      anchors=a, level_note=note, level=level, technique=technique, na=na))


BS = "src/mg/core/bitstream.h"
BC = "src/mg/core/bitstream.cpp"
add("B01", "Bits read from a stream are exactly the stored bits, in order",
    "Reading or peeking 0 to 32 bits (unsigned, sign-extended, or little-endian) yields the stored bits from the current position on, whatever the buffer size, the kind of storage, and the moment at which the storage delivers. "
    "A read advances the position by exactly the bits it returned and a peek by none. Asking for more bits than remain raises end-of-data, and a width outside 0 to 32 is refused, without moving the position.",
    ["inputs", "histories", "schedules"], "every content, buffer size, operation sequence, and every delivery time of an asynchronous storage",
    "the tests read two files and one array with one buffer size each; a fault needs a read that straddles a buffer switch, a short last block, or a late delivery",
    [BS, BC, "src/mg/media/TBitstream.h", "src/mg/core/file.h"],
    [("two buffers, the second filled while the first is consumed", BS + " bitstream_base::_nextbits, fill_buf, read_cb"), ("delivery event", BS + " wait, internal_read")],
    BASE % "random and TLC-generated read scripts over five kinds of storage, some under a deterministic scheduler that runs the storage's thread at chosen moments",
    state=[("current buffer and bit offset", "where reading is", BS), ("second buffer", "data read ahead", BS)])
add("B02", "Skipping, aligning, seeking and code search land exactly where asked",
    "Skipping n bits, aligning to a multiple of n bits, seeking to a byte and searching for a bit code move the reading position to exactly the stated place, and what is read next are the bits stored there. "
    "A target past the end ends at the end of the data (or raises end-of-data, for alignment and search) and never hangs or returns data from elsewhere.",
    ["inputs", "histories", "schedules"], "every content, buffer size, current position, target and delivery time",
    "the tests seek a handful of times inside one file; targets inside the read-ahead buffer, before the current buffer, or at the end with a read in flight are not reached",
    [BS, BC],
    [("position arithmetic over the two buffers", BS + " _set_position_read, _advance, _align"), ("reload of both buffers", BS + " reload")],
    BASE % "random and TLC-generated seek and skip scripts over five kinds of storage")
add("B03", "Bulk reads return every remaining byte once and end-of-stream is exact",
    "A bulk read of n bytes at a byte boundary returns min(n, bytes remaining) bytes, exactly those stored there, and advances by that much. "
    "End-of-stream is reported if and only if no stored bit remains to be read, and the test whether n more bits are available is never wrong once the whole content has been fetched.",
    ["inputs", "histories", "schedules"], "every content length relative to the buffer size, every interleaving of bulk and bit reads, every delivery time",
    "the tests copy two fixed files; lengths at buffer multiples, empty content and reads in flight at the end are not reached",
    [BS, BC], [("copy loop over buffers", BS + " _read"), ("end test over storage and both buffers", BS + " atend, has_bits")],
    BASE % "random and TLC-generated bulk read scripts over five kinds of storage")
add("B04", "Written bits are laid out most significant bit first, without gaps or overlap",
    "After a stream positioned on a byte boundary is flushed, the storage holds exactly the concatenation of the low n bits of each value put, little-endian values, direct byte blocks, and zero bits for skips and alignment, in the order of the calls. "
    "This holds for every buffer size and kind of storage, and the reported position is always the number of bits written.",
    ["inputs", "histories"], "every sequence of put, little-endian put, skip, align, direct write and flush, every buffer size",
    "the tests write one sequence with one buffer size; values with bits above the stated width, puts that straddle a full buffer, or direct writes after a partial flush are not reached",
    [BS, "src/mg/media/TBitstream.h", "src/mg/core/file.h"], [("bit packing", BS + " _putbits, _little_putbits"), ("flush keeping left-over bits", BS + " _flush_buf"), ("direct write", BS + " _write_direct")],
    BASE % "random write scripts over memory, file and asynchronous file storage")
add("B05", "Rewriting at an earlier position changes only the bytes rewritten",
    "Seeking a writing stream back to an earlier byte and writing replaces exactly the bytes written there and leaves all others, and seeking forward to the end again continues where the content ended. "
    "The final content is that of the last write to each byte.",
    ["inputs", "histories"], "every sequence of writes and seeks, every buffer size",
    "the tests never seek while writing, though every box size in a media file is patched that way",
    [BS, "src/mg/media/TBitstream.h"], [("flush before seek", BS + " _set_position_write"), ("growing memory storage", "src/mg/media/TBitstream.h fixed_memory_write")],
    BASE % "random write and seek scripts over memory and file storage")

MODULES += ["text", "codec"]
add("M01", "A byte buffer holds exactly what was put into it",
    "After any sequence of creating, filling, appending (also to itself), overwriting, clearing, cloning and assigning buffers, the content and length seen through each handle are those the calls define. "
    "A reading call returns only bytes that were put there and reports how many, and no call reads or writes outside its memory.",
    ["inputs", "histories"], "every sequence of operations on several handles, every length relative to the capacity",
    "the test fills two buffers with one length; growth, self-append, reads past the content and shared handles need particular sequences",
    ["src/mg/cbuffer.h", "src/mg/cresource.h"],
    [("reference counted buffer", "src/mg/cbuffer.h CBuffer"), ("growth", "CBuffer::add, EnsureSize")],
    BASE % "random operation scripts over four handles")
add("T01", "Strings hold exactly the text the calls define, each handle its own",
    "After any sequence of constructing, appending, formatting, case-changing, cutting, trimming, cloning, comparing and assigning strings, the text, its length and the terminating zero seen through each handle are those the calls define. "
    "Handles assigned from one another share the text until one is given another, while clones, concatenations and substrings are independent, and no call reads or writes outside its memory.",
    ["inputs", "histories"], "every text, every index, every sequence of operations on several handles",
    "the tests compare a few fixed literals; the faults need long texts, indexes at the end, self-append or shared handles",
    ["src/mg/alxstring.h", "src/mg/core/nx/util.cpp", "src/mg/core/util.h"],
    [("text over the reference counted buffer", "src/mg/alxstring.h"), ("formatted append", "append_format")],
    BASE % "random operation scripts over four handles")
add("T02", "Number, hexadecimal and format conversions are exact",
    "Converting a number to decimal or hexadecimal text, or text to a number or bytes, gives the exact value over the whole range of its type, and formatting inserts each argument's exact text. "
    "Converting back gives the value converted.",
    ["inputs"], "every 32 and 64 bit value, every text of digits, every format with its arguments",
    "the tests convert a handful of values; extreme values, signs and widths are not reached",
    ["src/mg/alxstring.h", "src/mg/core/nx/util.cpp"], [("conversions", "src/mg/alxstring.h")],
    BASE % "random and boundary values")
add("T03", "Splitting and replacing treat every occurrence once, left to right",
    "Splitting a text at a separator yields exactly the pieces between its occurrences, in order, and joining them with the separator gives the text back. "
    "Replacing puts the replacement for every occurrence found from left to right and leaves everything else.",
    ["inputs", "histories"], "every text, separator and replacement, including empty pieces, separators at the ends and repeated use",
    "the tests split two literals",
    ["src/mg/alxstring.h", "src/mg/splitter.h"], [("scan for separator", "Csplitter::split"), ("replace", "String::replace")],
    BASE % "random texts over small alphabets")
add("C01", "A command line gives each declared parameter its value and nothing else",
    "A command line is accepted exactly if every required parameter is given, and then each declared parameter, named by its name or shortcut, has the value written after the first separator (or its default) and was counted as often as it was given. "
    "Commands selected by letters run the action declared for the letter, with its text, in the order given.",
    ["inputs"], "every set of declarations and every argument vector",
    "no test parses a command line",
    ["src/mg/cmdline.h", "src/mgcli/mp4info.cpp"], [("declared parameters", "cmdline.h")],
    BASE % "random declarations and argument vectors")
add("E01", "Base 64 encoding in blocks is the encoding of the whole",
    "Whatever the sizes of the blocks handed over, the encoder's output, closed by its end call, is the standard base 64 text of all bytes, with padding and without line breaks, and never more than the announced size is written.",
    ["inputs", "histories"], "every byte sequence and every division into blocks", "no test encodes",
    ["src/b64/src/cencode.cpp"], [("three state encoder", "base64_encode_block")], BASE % "random bytes and block divisions",
    state=[("step and left over bits", "what is pending between blocks", "base64_encodestate")])
add("E02", "Base 64 decoding in blocks restores the bytes and ignores other characters",
    "Whatever the sizes of the blocks handed over and whatever characters outside the alphabet stand in between, the decoder returns exactly the bytes the alphabet's characters stand for. "
    "No character value makes it read outside its tables or buffers.",
    ["inputs", "histories"], "every text over all 256 characters and every division into blocks", "no test decodes",
    ["src/b64/src/cdecode.cpp"], [("four state decoder", "base64_decode_block"), ("code table", "base64_decode_value")], BASE % "random texts and block divisions",
    state=[("step and left over bits", "what is pending between blocks", "base64_decodestate")])
add("E03", "Section checksums are the MPEG-2 CRC-32",
    "The checksum of any block of bytes is the CRC-32 with polynomial 04C11DB7, all ones first, not reflected and not inverted; a block followed by its own checksum therefore has checksum zero. "
    "It does not depend on the alignment of the block or on checksums computed before.",
    ["inputs", "histories"], "every block of bytes, alignment and previous use", "no test computes a checksum",
    ["src/mg/media/wincrc.cpp", "src/mg/media/wincrc.h"], [("table", "CWinCrc"), ("byte loop", "crc_32")], BASE % "random blocks, and the residue checked in the model")

MODULES += ["conc"]
SCHED = ("Bounded: TLC explores the design model completely within the bounds named in DESIGN.md; the real code runs under a deterministic scheduler that decides at every lock, wait, clock reading and memory access "
         "(sequentially consistent memory), with virtual time; %s; TLC decides every distinct history.")
add("S01", "A signaled event releases every waiter and is never missed",
    "Whoever waits for an event when it is signaled goes on, even if the event is reset right after, and a wait that begins while the event is signaled returns at once. "
    "No wait returns without a signal, and no interleaving of signalling, resetting and waiting leaves somebody waiting for a signal that was given.",
    ["schedules", "histories"], "every interleaving of any number of threads signalling, resetting and waiting",
    "the tests signal once, long after the waiter waits; a lost wake-up needs a switch between the waiter's look and its sleep",
    ["src/mg/core/thread.h", "src/mg/core/thread.cpp"], [("flag and count under a lock, condition broadcast", "src/mg/core/thread.cpp signal_event")],
    SCHED % "tens of thousands of schedules of random programs of 2 to 4 threads",
    state=[("signaled flag, count of signals", "the event", "src/mg/core/thread.h signal_event")])
add("S02", "A timed wait tells the truth and never gives up early",
    "A wait with a time limit returns true if and only if the event was signaled when it began or became signaled while it waited, and returns false only after at least the stated time has passed. "
    "Asking whether an event is signaled never waits and never disturbs other waiters.",
    ["schedules", "histories"], "every interleaving, every spurious wake-up, every moment at which the time runs out",
    "the tests wait with generous limits; spurious wake-ups and signals that race with the end of the time are never seen",
    ["src/mg/core/thread.h", "src/mg/core/thread.cpp"], [("loop over the remaining time", "src/mg/core/thread.cpp signal_event::wait")],
    SCHED % "tens of thousands of schedules with virtual time and spurious wake-ups")
add("S03", "A critical section admits one thread, recursively, and trying never blocks",
    "At most one thread holds a critical section at a time, it may enter again and must leave as often, and once it left the next one gets in. "
    "Trying to enter succeeds exactly if nobody else holds it, and a scoped lock always gives back what it took.",
    ["schedules", "histories"], "every interleaving of nested entering, trying and leaving",
    "the test locks with two threads and no nesting",
    ["src/mg/core/thread.h", "src/mg/core/thread.cpp"], [("recursive mutex", "src/mg/core/thread.cpp critical_section"), ("scoped lock", "src/mg/core/thread.h auto_lock")],
    SCHED % "tens of thousands of schedules of random programs of 2 to 4 threads",
    state=[("owner and depth", "who holds it", "src/mg/core/thread.h critical_section")])
add("S04", "A thread runs its body once, learns it should stop, and joining waits for it",
    "A started thread runs its body exactly once, is reported as done if and only if the body has returned, and joining returns only then (at once for a thread never started, and again without harm). "
    "Once told to stop the body is told so at its next question and at all later ones.",
    ["schedules", "histories"], "every interleaving of starting, stopping, asking, waiting and joining from several threads",
    "the test starts one thread and stops it",
    ["src/mg/core/thread.h", "src/mg/core/thread.cpp"], [("stop and done events", "src/mg/core/thread.h cthread"), ("join once", "src/mg/core/thread.cpp cthread::join")],
    SCHED % "tens of thousands of schedules of programs with one or two threads and two users",
    state=[("new, started, over, joined", "life of a thread", "src/mg/core/thread.h cthread")])
add("P01", "A promised value reaches its handler exactly once, whoever is first",
    "Whether the handler is registered before, after, or while the value is delivered on another thread, it runs exactly once with that value, and so does the handler of every promise it is forwarded to. "
    "A value nobody handles yet is kept and reported as present.",
    ["schedules", "histories"], "every interleaving of registering and delivering, every chain of forwarding",
    "the tests register long before or long after the delivery",
    ["src/mg/promises.h"], [("kept value, handler, forwarding under one lock", "src/mg/promises.h CPromise")],
    SCHED % "tens of thousands of schedules of 1 to 3 promises and up to 3 threads",
    state=[("handler, kept value, forward", "a promise", "src/mg/promises.h CPromise")])
add("P02", "A failure reaches exactly one error handler along the chain, or its cause",
    "An error delivered to a promise, or thrown by a value handler of it or of a promise it forwards to, runs that promise's error handler exactly once; it is passed on only if the handler asks for it, kept if there is none yet, and an error the handler throws leaves the call that caused it. "
    "No error is dropped and none is reported twice.",
    ["schedules", "histories"], "every interleaving, every chain, every behaviour of the handlers",
    "the tests see one error on one promise",
    ["src/mg/promises.h"], [("error kept, handled, passed on or rethrown", "src/mg/promises.h call_er, set_er, call_cb")],
    SCHED % "tens of thousands of schedules of 1 to 3 promises and up to 3 threads")
add("R01", "A shared object lives exactly as long as a handle to it",
    "An object is destroyed exactly once, by whoever drops the last handle, after its clean-up function ran on the intact object, and never while any handle on any thread shows it. "
    "Copying, assigning (also to itself) and dropping handles concurrently keeps the number of handles exact.",
    ["schedules", "histories"], "every interleaving of handle operations on several threads",
    "the tests use handles on one thread",
    ["src/mg/cresource.h"], [("reference count", "src/mg/cresource.h CInternalResource"), ("assignment order", "src/mg/cresource.h CResource::Assign")],
    SCHED % "tens of thousands of schedules of up to 3 threads with 2 handles each and a shared one",
    state=[("count of handles", "an object", "src/mg/cresource.h m_iRefCnt")])

MODULES += ["files"]
FH, FC, UH, UC = "src/mg/core/file.h", "src/mg/core/file.cpp", "src/mg/core/uvbase.h", "src/mg/core/uvbase.cpp"
LOOP = SCHED % "tens of thousands of schedules of an owner thread, a loop thread and 1 to 3 worker threads of a stand-in for libuv's loop that completes requests in any order, cuts them short and makes them fail"
add("F01", "Asynchronous reads deliver the right bytes in the order they were asked for",
    "However many reads of a file are in flight and in whatever order they complete, each delivers exactly the bytes stored at the position it was issued for, and the results are handed over in the order the reads were issued. "
    "A read reaching the end of the file delivers what there is and one beyond it delivers nothing.",
    ["schedules", "histories"], "every order of completion, every interleaving of issuing and delivery, every partial result",
    "the tests read one file on an idle disk, where requests complete in the order of issue",
    [FH, FC, UC], [("reads numbered and served in order", FC + " process_read_cb"), ("position advanced at issue", FC + " cfile::read")], LOOP,
    state=[("reads issued, completed, served", "how far each has come", FC)])
add("F02", "Each file operation ends once, in its handler or its error handler",
    "An operation on a file ends exactly once: its value handler runs with the result, or its error handler with the code of the operating system's error, never both, never twice and never neither, whether the handlers were registered before or after the end. "
    "An error without a handler, and one that a handler throws, reaches the loop's owner.",
    ["schedules", "histories"], "every operation, fault and moment at which a handler is registered",
    "the tests inject no fault but a missing file", [FH, FC, UH, UC, "src/mg/promises.h"],
    [("libuv callbacks turned into promises", FC + " uv_file_cb"), ("error codes", "src/mg/core/error.h")], LOOP)
add("F03", "A file ends up with exactly the bytes written where they were written",
    "After the writes issued have ended, the file holds each byte last written at each position, the bytes between as they were, and zeros where nothing was ever written; opening for writing alone empties it and opening for reading and writing keeps it. "
    "The memory handed to a write is not needed after the write ended, and is not released before.",
    ["schedules", "histories"], "every sequence of writes and seeks on two files, every order of completion, every partial write",
    "the tests write one file from start to end", [FH, FC], [("position advanced at issue", FC + " cfile::write"), ("flags", FC + " open")], LOOP)
add("F04", "Closing or destroying a file waits for what is in flight and closes once",
    "A file closed or destroyed while operations are in flight is closed after they ended and their handlers ran, exactly once, on a living or an ended loop. "
    "No handler or callback touches a file object after its destruction returned.",
    ["schedules", "histories", "faults"], "every moment of closing or destroying relative to completions, worker threads and the end of the loop",
    "the tests close idle files; freed memory touched by a late completion needs a particular schedule", [FH, FC],
    [("wait for operations in flight", FC + " ~cfile, close")], LOOP, state=[("operations in flight", "count kept by the file", FC)])
add("F05", "A failure on the loop thread is reported to its owner exactly once",
    "An error nobody handles on the loop thread is kept, ends no other work that is already under way, and is thrown to the owner at the next call that checks or ends the loop, exactly once and with its own code. "
    "Without such an error these calls throw nothing.",
    ["schedules", "faults"], "every fault, handler that throws, and moment at which the owner looks", "the tests let nothing fail on the loop thread",
    [UH, UC], [("exception kept by the loop", UC + " uv_loop_base run, check_exception")], LOOP)
add("F06", "A loop told to end finishes the work under way and then ends",
    "Once told to end, the loop thread runs the operations issued before and their handlers, closes what it opened and ends, and whoever waits for it goes on. "
    "A handler may itself end the loop, several times, and nothing of this depends on who is first.",
    ["schedules", "histories"], "every moment of ending relative to operations in flight, from the owner and from handlers", "the tests end an idle loop",
    [UH, UC], [("stop handle and drain", UC)], LOOP, state=[("running, stopping, draining, over", "life of the loop", UC)])
add("F08", "Position, size and end of a file follow the calls made",
    "The position is where the next operation starts: it advances by what each read or write covers and goes where it is set. "
    "The size is that of the content written so far, wherever the position is, and the end is reported exactly if no byte is left to read at the position.",
    ["histories", "inputs"], "every sequence of opening, reading, writing and seeking, including beyond the end", "the tests seek inside one file",
    [FH, FC], [("position and size", FC + " get_position, set_position, size, eof")], LOOP)
TB = "src/mg/media/TBitstream.h"
MODULES.append("storage")
add("B06", "A storage is a sequence of bytes with a position, whatever its kind",
    "Reading a storage (fixed memory, growing memory, a synchronous or an asynchronous file) delivers the bytes from the position on, as many as were asked for or as there are, and writing puts bytes there, growing the storage where needed; each calls back once and moves the position by what was covered. "
    "This holds in any mixture of reads, writes and repositioning, and for positions beyond four gigabytes. The end is reported only at the end, and always once a read came out short.",
    ["inputs", "histories"], "every content and sequence of reads, writes and seeks", "the tests use each storage in one direction only",
    [TB, FH], [("the storages", TB + " fixed_memory_read, fixed_memory_write; " + FH + " sync_file_bitstream, file_bitstream")],
    BASE % "random sequences of operations on seven kinds of storage")
add("F07", "A copy is complete, in order and stored when the call returns",
    "Copying a range of one storage to another appends exactly the bytes of the range, in order, and returns only when all of them have been stored and flushed and no callback is left to come. "
    "This holds whatever the chunk size, the two kinds of storage, and the moments at which they deliver and store; only a small fixed number of chunks (eleven) is on its way at any time. If a storage fails, the copy ends with that error.",
    ["inputs", "schedules", "crash_points"], "every content, range, chunk size, pair of storages and schedule of their threads", "the tests copy whole files on an idle machine",
    [BC, FH, TB], [("counting what is on its way", BC + " _ccopy_stream wait_read, wait_end, read_cb, write_cb")], SCHED)
FQ = "src/mg/media/fixed_queue.h"
MQ = "src/mg/media/media_queue.h"
MODULES.append("queues")
add("Q01", "A media queue hands out its items whole, in order, and within its memory",
    "Items leave a queue in the order they entered, each with its description and body unchanged, whatever the sizes of the items and the wrapping of the memory block, and looking at an item leaves it there. "
    "A queue of fixed size refuses an item only when its free room is less than twice the largest item, and then keeps everything; one that drops loses only oldest items, only while short of room in that sense; one that grows always accepts. "
    "An item too long for the caller's buffer stays, and nothing is ever written outside the block.",
    ["inputs", "histories"], "every sequence of insertions, removals, looks and clears, with every item and block size", "no test uses the queues",
    [FQ, MQ], [("items laid out on one block, wrapping", FQ + " get_head_space, get_tail_space, push, pop"), ("growing and repacking", MQ + " no_space")],
    BASE % "all sequences of six insertions and removals over three kinds of queue, generated by TLC from the layout model, and random longer ones",
    state=[("items held", "order and bodies", FQ)])
add("Q02", "A media queue used by several threads acts as if one at a time",
    "Whatever threads insert, remove, look at, count or clear at the same time, every call acts at one moment between its start and its return, as it would alone. "
    "No item is lost, doubled or mixed up, also while the queue moves its items to a larger block.",
    ["schedules"], "every interleaving of producers and consumers", "no test uses the queues", [FQ, MQ],
    [("lock of the queue", FQ + " push, pop, delete_item, clear"), ("moving to a larger block under the lock", MQ + " no_space, size, locked_pick_next")], SCHED)

# ---------------------------------------------------------------- media
MODULES.append("media")
MP = "src/mg/media/mp4parse.h"
FL = "src/mg/media/mp4/mp4.fl"
MEDIA = BASE % "random MP4 files, built byte by byte by the generator and parsed a second time from their bytes by the specification; the repository's box descriptions (*.fl) are translated to C++ by lib/flavor.py, which stands in for the unavailable flavor compiler"
add("K01", "An MP4 file's tracks and samples are read as the file describes them",
    "For every well-formed file, the reader reports its tracks with their kind, language, time scale, duration and offset, and for every sample the place, size, decoding time and composition time that the sample tables give it. "
    "It does so whatever the order and version of the boxes, boxes it does not know, the storage, and the read buffer.",
    ["inputs"], "every well-formed movie of sample tables, box order, chunking and storage",
    "the tests that parse media need files that are not there, and read a few; a fault needs a particular table (runs of length one, one chunk rule for several chunks, a common size, a 64-bit header)", [MP, FL],
    [("decoding and composition times from run-length tables", MP + " CMP4TimeManager"), ("place of a sample from chunks and sizes", MP + " CMP4SampleManager get_sample_offset, get_chunk_number"), ("walk over the boxes", MP + " MP4Reader, CPM4Track parse_boxes, skip_current")],
    MEDIA, state=[("sample tables", "run-length tables and their expansion", MP)])
add("K02", "Seeking in an MP4 track finds the sample on show and its access point",
    "For every track and time, looking up the random access point gives the last one not decoded after the sample being decoded at that time (the first one if there is none), and the next one after it. "
    "Looking up by presentation time gives a sample shown at that time, or else the one shown just before or just after; the time the reader reports for a sample always leads back to it.",
    ["inputs"], "every track, time scale and time, also before the first and after the last sample", "no test seeks; a fault needs a time scale that does not divide the unit of time, reordered samples, or a time past the end", [MP],
    [("time to sample in the track's ticks", MP + " hns_to_ticks, get_decoding_sample_number, get_composition_sample_number"), ("sample to access point", MP + " get_IFrame_number, get_next_IFrame_time")], MEDIA)
add("K03", "An MP4 movie is read from any time, every sample once, in file order",
    "From the beginning, reading by file order returns every sample of every track exactly once, in the order of their places in the file, with its bytes, times and access point flag, and then reports the end. "
    "After moving to a time, it starts each track at the access point or sample that belongs to that time and returns every sample from there on in the same way.",
    ["inputs", "histories"], "every movie of one to four tracks with any interleaving, and every sequence of moves and reads", "no test reads a movie by file order; a fault needs interleaving in which a chunk ends where another track's begins, or a track that ends early", [MP],
    [("next sample by place", MP + " MP4Reader next_file_chunks"), ("move of all tracks", MP + " MP4Reader move")], MEDIA, state=[("next sample per track", "reading position", MP)])
MW = "src/mg/media/mp4write.h"
MUXED = BASE % "random streams given to the muxer; the file it writes is parsed from its bytes by the specification; box descriptions are translated by lib/flavor.py, which stands in for the unavailable flavor compiler"
add("W01", "A written MP4 file holds every added sample, with its bytes and times",
    "When writing ends, the file is a well-formed MP4 in which each stream has exactly the samples that were added to it, in their order, with their bytes and, for video, their access point marks; nothing temporary is left. "
    "Within the resolution of the time scales, decoding times count from the stream's first sample and presentation times keep their distances within each stream and between streams, also when decoding times are left to the muxer. "
    "It holds for every order of adding across streams, every size of sample, one sample or many, and both kinds of output.",
    ["inputs", "histories"], "every set of streams, times, sizes and orders of adding, including streams of one sample, equal sizes and streams that end early", "no stable test writes an MP4; a fault needs equal sizes, a single sample, a stream that ends early, or reordering with another stream", [MW, "src/mg/media/mp4mux.h"],
    [("sample tables", MW + " CMP4Stream write_stts, write_ctts, write_stsc, write_stsz, write_stco, write_stss"), ("alignment of streams", MW + " level_start_time, compute_auto_decoding_time"), ("waiting samples", MW + " add_sample, write_samples")], MUXED,
    state=[("samples and chunks of each stream", "in memory until the file ends", MW)])
add("W02", "Samples of several streams are interleaved within the chosen distance",
    "In the written file no sample lies before a sample of another stream that is due more than the chosen distance (and 10 ms) earlier, whatever the order in which the streams were fed. "
    "Each sample is stored whole and once, and its stream's tables point to it.",
    ["inputs", "histories"], "every order of feeding two or three streams, also one stream completely before the other, and every distance", "no test looks at the order in a file; a fault needs one stream to run ahead of another", [MW],
    [("who may be stored", MW + " MP4Write add_sample, min_stream"), ("chunks", MW + " sample_written, register_chunk")], MUXED,
    state=[("waiting samples of each stream", "limit in use and how far each stream is", MW)])
add("W03", "A written MP4 file describes its streams as they were announced",
    "Each track has the kind, language and time scale its stream was added with. "
    "A video track carries the parameter sets unchanged, their profile and level, and the picture size that was given or else the one the sequence parameter set describes, with fields and cropping taken into account; an audio track carries the object type, sampling rate and channels.",
    ["inputs"], "every sequence parameter set without scaling matrices, every size, sampling rate and number of channels", "no stable test parses a parameter set or a description; a fault needs a profile, picture order type, chroma format, cropping or emulation bytes the samples lack", [MW, "src/mg/media/h264nal.h", "src/mg/media/mp4/h264.fl"],
    [("description of video", MW + " AVCDecoderConfigurationRecordFromSPSandPPS, CMP4VisualEntry"), ("sequence parameter set", "src/mg/media/mp4/h264.fl H264Sequence"), ("bytes against start codes", "src/mg/media/h264nal.h decode_nal"), ("description of audio", MW + " add_audio_stream")], MUXED)

# ---------------------------------------------------------------- presentations and manifests
MODULES.append("manifests")
DI = "src/mg/media/mp4dynamicinfo.h"
DASH = "src/mg/media/mpd_renderer.h"
HLS = "src/mg/media/hls_renderer.h"
SHOWN = BASE % "random presentations of one to four streams; the specification computes what must be shown and interprets the elements of the manifest, which the driver only splits into names and values"
add("D01", "A presentation answers every question about its times from its points",
    "A presentation made of points names for any time up to its end a nearest point, for each point its time in its source file, its next point and the file it lies in, and where it ends in that file, also when the next chunk belongs to another file or a chunk spans two. "
    "Times that are no points, or have no end, are refused. Moving a presentation that begins before zero keeps all of this.",
    ["inputs", "histories"], "every sequence of points, file changes, spanning chunks and bit rates, and every time asked", "no test builds a presentation; a fault needs a file change next to the point asked, or a presentation that begins before zero", [DI],
    [("points by time", DI + " DynamicPoints get_closest, get_end, get_end_computed"), ("path by time", DI + " DynamicBitrate Add, get_iterator_path"), ("moving", DI + " rebase")], SHOWN,
    state=[("points, file changes, spanning chunks and paths", "by computed time", DI)])
add("D02", "A DASH manifest describes exactly the streams, chunks and codecs it is given",
    "For every presentation the DASH manifest is well-formed, its timeline expands to exactly the chunks of each stream with their times and durations, gaps included, and its duration is exact. "
    "Each bit rate appears once under an id of its own, with its bandwidth, size and codec; the address templates name the stream as asked; each set has the largest size of its own bit rates and the protection given for its kind.",
    ["inputs"], "every sequence of chunks, equal, unequal or with gaps, any number of streams and bit rates", "no test renders a manifest; a fault needs runs of equal chunks broken by others, several streams, or fractions with leading zeros", [DASH, DI],
    [("counting equal chunks", DASH + " add_point, end_stream"), ("codec string", DASH + " add_video_bitrate"), ("rendering in order", DI + " render")], SHOWN,
    state=[("run of equal chunks", "duration, count and time so far", DASH)])
add("D03", "HLS playlists list every segment of the video with its exact duration",
    "The main playlist lists each video bit rate with the sum of its own and the audio's bandwidth, its size and codecs, and the address of its playlist. "
    "Each of those lists every segment once, in order, with its exact duration and its own address, a target duration no rounded segment exceeds, the key if one is set, and the end mark.",
    ["inputs"], "every sequence of segments, bit rates and streams in any order", "no test renders a playlist; a fault needs unequal segments, fractions with leading zeros, or the video before the audio", [HLS, DI],
    [("one body for all bit rates", HLS + " add_point, bit_rate_body"), ("main playlist", HLS + " add_video_bitrate, end")], SHOWN)
add("D04", "A smooth streaming index lists every chunk with the files it is made of",
    "For every presentation the index is well-formed, announces the number of chunks it lists, and lists each stream's chunks in order with their durations, the first with its time. "
    "Each chunk names, for every bit rate, the file and the time in it from which it is made, twice if it spans two files; the private data of video is given with start codes.",
    ["inputs"], "every presentation, several files, spanning chunks, any characters in paths", "no test renders an index", [DI],
    [("rendering points and their sources", DI + " DynamicPoints render"), ("index", DI + " SSFRenderer")], SHOWN)
add("D05", "A time in 100 ns units and its hours, minutes, seconds and milliseconds agree",
    "A time made from hours, minutes, seconds and milliseconds is their sum, every time splits back into fields within their ranges, and its text has each field with its leading zeros and a sign only when negative.",
    ["inputs"], "every time up to 20 days and its negative", "no test formats a time; a fault needs a field at its boundary", ["src/mg/media/hnano.h"],
    [("fields", "src/mg/media/hnano.h HundredNano H, M, S, ML"), ("text", "src/mg/media/hnano.h ToString, hns")], BASE % "random and boundary times")

# ---------------------------------------------------------------- fragments
MODULES.append("fragments")
FR = "src/mg/media/mp4fragmented.h"
ED = "src/mg/media/mp4edit.cpp"
CE = "src/mg/media/mp4/cenc.fl"
HL = "src/mg/media/hls_renderer.h"
MR = "src/mg/media/MOOFReader.h"
FRAG = BASE % "random movies cut into fragments with random bounds, scales and keys; the specification picks the samples of the movie and parses the fragment from its bytes; box descriptions are translated by lib/flavor.py; encryption uses a stand-in cipher with the same interface"
add("G01", "A fragment holds exactly the samples presented in its interval",
    "A fragment made from an interval of a movie, or from the end of one movie and the beginning of the next, is a well-formed fragment with exactly the samples presented from the interval's beginning until before its end, in stored order, with their bytes and durations. "
    "It has the sequence number and track asked for, its samples are presented from the time given with their distances kept, and the index in front of it gives its size, duration and earliest time, whatever the time scale and however late the time.",
    ["inputs"], "every movie, interval, time scale and base time, also intervals in which nothing is presented", "no test makes a fragment; a fault needs reordered samples, times beyond 32 bits, delayed tracks or a second movie", [ED, FR],
    [("samples of an interval", ED + " produce_m4f_chunk, produce_m4f_chunk_cross"), ("boxes of a fragment", FR + " CMP4Fragment end, add_sample")], FRAG,
    state=[("samples of the fragment", "waiting until it ends", FR)])
add("G03", "An initialization segment describes its stream and how it is protected",
    "The initialization segment is well-formed, has one track without samples that carries the kind, identifier, time scale, codec data, picture size or sampling rate it was asked for, and the duration of the whole. "
    "If a key identifier is given the description says what the samples are without protection, the scheme and the key, and carries the protection system data unchanged.",
    ["inputs"], "every parameter set, duration, scale, key identifier and system data", "no test makes an initialization segment; a fault needs a duration beyond 32 bits or another movie time scale, or protection", [FR, ED],
    [("initialization", ED + " produce_m4f_initialization"), ("protection boxes", CE)], FRAG)
add("G04", "Encrypted fragments and segments decrypt to what was given",
    "Decrypting an encrypted fragment with the key, and the vectors and sub-samples the fragment itself states, yields the samples that were added, of which those of more than 112 bytes are hidden at least in part; no two samples share a vector, and the auxiliary information has the sizes and place it states. "
    "An encrypted HLS segment is padded to whole blocks, chained from the segment's number, and its length is told beforehand.",
    ["inputs"], "every key, size of sample and sequence number, with and without sub-samples", "no test encrypts; a fault needs sizes at block boundaries or sequence numbers beyond one byte", [FR, CE, HL],
    [("protection of samples", FR + " set_encryption, add_sample"), ("protection of segments", HL + " hls3_encrypt_buffer")], FRAG)
add("G05", "A fragment reader reports what each fragment says, and of that fragment only",
    "For every well-formed fragment, alone or in a run, reading reports the number of samples, each with its size, duration and signed presentation offset from the fragment or its defaults, its base time and the place of its data. "
    "Live times, lookahead times, vectors, sub-samples and auxiliary places and sizes are reported when the fragment has them and only then, with 32 or 64 bits as stated.",
    ["inputs", "histories"], "every choice of optional fields, versions, defaults and boxes in any order, and every run of fragments", "no test reads a fragment; a fault needs an optional field the previous fragment had and this one has not, or a 32 bit version", [MR, CE],
    [("one fragment after another", MR + " parse"), ("optional boxes", CE + ", src/mg/media/mp4/mp4_fragments.fl")], FRAG,
    state=[("what the fragment has", "cleared for each", MR)])

DY = "src/mg/media/mp4dynamic.cpp"
MI = "src/mg/media/mp4dynamicinfo.h"
CUTS = BASE % "random sequences of up to three files with up to three streams, indexed whole and cut with random lengths; the specification parses the files and every fragment from its bytes; box descriptions are translated by lib/flavor.py"
add("G02", "The fragments of a presentation hold every sample of its files exactly once",
    "When files are indexed one after another and cut into fragments, the fragments of each stream hold its samples in order, each once, with bytes and durations, from where the sound meets the picture to the last of the last file. "
    "Samples of a file keep their distances in and between streams, a following file goes on where the one before it ended, and fragments are numbered one by one.",
    ["inputs", "histories"], "every sequence of files, with streams that end apart, delayed streams, and lengths shorter and longer than a file", "no test makes a presentation; a fault needs a last fragment, sound left over for the next file, or a second stream of sound", [DY, "src/mg/media/mp4dynamic.h", FR],
    [("what is left of a file for the next", DY), ("samples of a fragment", ED)], CUTS,
    state=[("points of each stream", "a beginning for each fragment", DY), ("sound not yet in a fragment", "kept for the next file", DY)])
add("D06", "A presentation is cut at access points, and its points say where",
    "Pictures are cut at the first access point that is at least the length asked for after the last cut, sound where the length is full, and what is left of a file ends in a fragment or is continued by the next file. "
    "The points of a stream are where its fragments begin and its last sample ends, and its duration is the distance between the first and the last.",
    ["inputs", "histories"], "every pattern of access points, reordered and delayed pictures, every length and sequence of files", "no test makes a presentation; a fault needs access points apart from the length asked for, or pictures presented after the nominal end", [DY, MI],
    [("cutting pictures", DY), ("points and durations", MI)], CUTS)

# ---------------------------------------------------------------- cutting and joining
MODULES.append("edits")
MJ = "src/mg/media/MediaJoin.h"
EDITED = BASE % "random files of one to three streams, cut and joined with random intervals; the specification finds the samples of every part in the sources and in the file that was made, which it parses from its bytes; the streams of an interval are entered wherever C01 allows; box descriptions are translated by lib/flavor.py"
add("J01", "Joining parts of files keeps exactly the samples presented in each part",
    "A file made by joining intervals of files has, for each stream, exactly the samples of every interval from its entry until before its end, in stored order, part after part, with their bytes, access points and distances, described as in the first file. "
    "Where a part follows another no stream goes back, and one stream goes on at once.",
    ["inputs", "histories"], "every set of files, interval and sequence of parts, with other time scales, delayed and reordered streams", "no test joins files; a fault needs parts whose streams begin or end apart, parts shorter than what is read ahead, or reordered next to plain streams", [ED, MJ, "src/mg/media/mp4edit.h"],
    [("cutting and joining", ED + " do_edit_header_mux, do_edit_mux"), ("putting one part behind another", MJ + " Compute, GetJoinTime")], EDITED,
    state=[("samples kept back to be put behind the next part", "a few for each stream", ED), ("end of each stream", "after every part", MJ)])
add("J02", "Only files with the same streams, described alike, are joined",
    "A file with other streams, another order of them, other parameter sets of video or another codec, rate or number of channels of audio than the first is refused. "
    "A file that was refused leaves no trace in the result, and a file that agrees is accepted, whatever came before it.",
    ["inputs", "histories"], "every pair of files, and every sequence of accepted and refused ones", "no test joins files; a fault needs parameter sets of other sizes or that differ in one byte", [ED],
    [("comparing descriptions", ED + " do_edit_header_mux, do_edit_mux")], EDITED)

# ---------------------------------------------------------------- dates
MODULES.append("times")
CT = "src/mg/core/nx/ctime.cpp"
MW = "src/mg/media/mp4write.h"
add("X01", "A date shows its fields and is as far from others as the calendar says",
    "A date made from year, month and day, or from text, shows the same fields in every form, and its distance to any other, earlier or later, is that of the calendar in every unit, whatever the time zone. "
    "The present has the fields and the total of the clock, in UTC or local, and the time elapsed since it; its XML form has its distance from UTC. A written MP4 file says when it was made, in seconds since 1904.",
    ["inputs", "configurations"], "every pair of dates from 1601 to 2400, every time zone, text with and without a time", "no test makes a date; a fault needs a leap year, a date before another or before 1970, or a zone with minutes or west of Greenwich", [CT, "src/mg/core/ctime.h", MW],
    [("fields and totals", CT + " tm_to_sm, total_seconds, total_hnano"), ("text", CT + " Ctime, ToXml"), ("creation times", MW + " MP4NOW")], BASE % "random and boundary dates in random time zones, histories of four dates compared with each other; memory is filled before a date is made in it")

# ---------------------------------------------------------------- transport streams
MODULES.append("transport")
TW = "src/mg/media/tswrite.h"
TX = "src/mg/media/tsmux.h"
TR = "src/mg/media/ts.h"
TP = "src/mg/media/tsparse.h"
CARRIED = BASE % "random streams of H.264, AAC and time codes with units of sizes about those of packets; the specification parses tables, packets, clocks and units from their bytes"
add("U01", "A transport stream that is written carries its streams as the standard says",
    "Every packet that is written is well-formed, counted by PID and belongs to one unit; tables describe each stream and the clock, and come where they were asked for. "
    "Every sample comes back whole from one unit with its times and sign of access, with parameter sets where pictures can be entered, and the clock goes with the decoding times, all modulo 33 bits.",
    ["inputs", "histories"], "every set of streams, sizes of samples about those of packets and of lengths, times about those where 33 bits are used up", "no test writes a transport stream; a fault needs a sample that leaves one byte of a packet unused, times that are moved before zero, or a length beyond 16 bits", [TW, TX],
    [("units into packets", TW + " close_pes, output_ts"), ("tables and streams", TX)], CARRIED,
    state=[("counters of packets", "one for each PID", TW), ("when tables and clocks are due", "with every sample", TX)])
add("U02", "A transport stream by the book is read as it was meant",
    "For every well-formed transport stream, in whatever way its units are split into packets and those of its streams take turns, the program and every NAL unit and AAC frame are reported once, in order, with bytes, times and description. "
    "Tables that are damaged or not valid yet are not used, packets sent twice count once, units of which a packet was lost or that began before the first packet are left out, and no input of that kind ends the reading.",
    ["inputs", "histories", "fault_sequences"], "every way to split and interleave units, with pointers, descriptors, stuffing and clocks, and packets lost, damaged or sent twice", "no test reads a transport stream; a fault needs a split at some byte, parameter sets with emulation prevention, a table in two packets, or a lost packet", [TR, TP, "src/mg/media/h264nal.h"],
    [("packets into units", TR + " tspacket::add, psi::process, ts_pes"), ("what is in units", TP), ("emulation prevention", "src/mg/media/h264nal.h decode_nal")], CARRIED,
    state=[("the unit under way", "one for each PID", TR), ("program", "the first tables", TP)])

# ---------------------------------------------------------------- the program as a whole
MODULES.append("program")
CL = "src/mgcli/mp4info.cpp"
SHOW = BASE % "runs of the mg program on random files; its result is read as a player would: manifest, then what it names; box descriptions are translated by lib/flavor.py"
add("Y01", "What the program makes for DASH is what its inputs show, in every quality",
    "When the program makes an MPEG-DASH presentation of files, or intervals of files, in some qualities, it ends well, and every initialization and fragment that the manifest names, by bit rate and time, is there and plays. "
    "In each quality the fragments of a stream hold the samples of its files that are presented in the intervals exactly once, cut where G02 and D06 say, and the times and durations of the manifest are those in the fragments, in whatever time scale.",
    ["inputs", "configurations"], "every sequence of inputs and intervals, number of qualities, length of fragments and time scale", "no test runs the program on a file; a fault needs a second input, an interval that ends in a group of pictures, a second quality or a coarse time scale", [CL, DY, MI, "src/mg/media/mpd_renderer.h"],
    [("from options to a presentation", CL), ("cutting", DY), ("the manifest", "src/mg/media/mpd_renderer.h")], SHOW)
add("Y02", "What the program makes for HTTP Live Streaming is what its inputs show",
    "When the program makes playlists and segments of files, or intervals of files, in some qualities, it ends well, and every segment a playlist names is there, can be decrypted under its key and its number, and begins with tables and a picture at which decoding can start. "
    "One after another the segments of a quality are one transport stream that holds the samples presented in the intervals exactly once, with the bytes, times and distances of the files, each presented and decoded when the playlist says that its segment plays. "
    "Segments begin at the first access point after the length asked for, and as long as a segment lasts in the playlist is until the next begins.",
    ["inputs", "configurations", "histories"], "every sequence of inputs and intervals, number of qualities, length of segments and key, delays of streams and order of pictures", "no test runs the program on a file; a fault needs sound stored first or over early, pictures reordered across near access points, a second input, or more than 255 segments", [CL, "src/mg/media/tsinfo.cpp", "src/mg/media/tsmux.h", "src/mg/media/mp4edit.cpp", "src/mg/media/hls_renderer.h"],
    [("from options to segments", "src/mg/media/tsinfo.cpp do_hls_mux"), ("times in segments", "src/mg/media/tsmux.h HLSMux"), ("playlists and encryption", "src/mg/media/hls_renderer.h")], SHOW)

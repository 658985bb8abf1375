#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one source of the property texts)."""
import json, os, sys
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

ENC_FILES = ["lib/lib.c", "lib/arch/generic/enc_head.c", "lib/arch/generic/enc_tail.c", "lib/arch/generic/32/enc_loop.c",
             "lib/arch/generic/64/enc_loop.c", "lib/arch/ssse3/enc_loop_asm.c", "lib/arch/ssse3/enc_loop.c", "lib/arch/avx/enc_loop_asm.c",
             "lib/arch/avx2/enc_loop_asm.c", "lib/arch/avx2/enc_loop.c", "lib/arch/avx512/enc_loop.c", "lib/arch/neon32/enc_loop.c",
             "lib/arch/neon64/enc_loop_asm.c", "lib/tables/tables.c"]
DEC_FILES = ["lib/lib.c", "lib/arch/generic/dec_head.c", "lib/arch/generic/dec_tail.c", "lib/arch/generic/32/dec_loop.c",
             "lib/arch/ssse3/dec_loop.c", "lib/arch/avx2/dec_loop.c", "lib/arch/neon32/dec_loop.c", "lib/arch/neon64/dec_loop.c",
             "lib/tables/tables.c", "lib/tables/table_dec_32bit.h"]
ST = [("stream state", "end-of-stream marker, position in the group, left-over bits, flags", "include/libbase64.h struct base64_state")]

prop("S01", "Encoding does not depend on how the input stream is cut into blocks",
     "For every byte stream and every way it arrives in blocks (any sizes, empty ones included, interleaved with other streams), the outputs of the block calls followed by the finalising call, taken in order, are exactly the standard padded Base64 text of the whole stream, which is also what the single whole-buffer call produces. "
     "Each call reports exactly the number of characters it delivered, and at no time does the encoder hold back more than the characters of one incomplete 3-byte group. This holds for every codec available in the build, on every supported architecture.",
     ["schedules", "inputs", "configurations"], "every input stream, every block schedule, every interleaving of streams at block granularity, every compiled-in codec, x86-64, i686, aarch64, armhf and s390x builds",
     "The tests stream one 256-byte table with equal block sizes on one stream at a time and never force AVX512; block schedules, carry phases, vector-loop round counts and stream interleavings form a product they do not sample.",
     ENC_FILES, [("carry of left-over bits between blocks", "lib/arch/generic/enc_head.c, enc_tail.c"), ("vectorised inner loops per codec", "lib/arch/*/enc_loop*.c"), ("finalisation", "lib/lib.c base64_stream_encode_final")],
     ST, ["return of each encode call", "output buffer"])
prop("S02", "Decoding does not depend on how the encoded stream is cut into blocks",
     "For every byte stream, feeding its padded Base64 text to the decoder in any block schedule (any sizes, empty blocks included, cuts inside a group or between the two padding characters, interleaved with other streams) makes every call report success, and the outputs in order are exactly the original bytes. "
     "An empty block never changes anything, and at no time does the decoder hold back a byte of a complete group. This holds for every codec available in the build, on every supported architecture, and the whole-buffer call gives the same bytes.",
     ["schedules", "inputs", "configurations"], "every stream, every block schedule including empty blocks and cuts around the padding, every interleaving, every compiled-in codec, five architectures",
     "The tests decode one 344-character text with equal block sizes; cuts around the padding at other phases, empty blocks, long blocks and interleaved streams are not sampled.",
     DEC_FILES, [("carry and padding states between blocks", "lib/arch/generic/dec_head.c, dec_tail.c"), ("vectorised inner loops per codec", "lib/arch/*/dec_loop.c")],
     ST, ["return of each decode call", "output buffer"])
prop("S03", "Damaged text is detected at the right place and never decoded to wrong bytes",
     "When encoded text is damaged in transit (characters changed, lost, duplicated, reordered, inserted, truncated, or data following the padding), block-wise decoding reports an error exactly at the block that contains the first character which cannot occur at that position, for every block schedule and codec; every earlier block reports success. "
     "The bytes delivered are always exactly those denoted by the text before the damage, or a prefix of them in the failing block. The whole-buffer call reports success exactly when the whole text is well-formed and complete.",
     ["fault_sequences", "schedules", "inputs", "configurations"], "every damage pattern at every position, every block schedule, every compiled-in codec, five architectures",
     "The tests substitute seven invalid characters in one text in whole-buffer calls; position-in-vector times character value times schedule times codec is a product they sample thinly, and stream-mode verdicts under damage are not tested at all.",
     DEC_FILES, [("validation inside the vector loops, fall back to bytewise decoding", "lib/arch/*/dec_loop.c"), ("bytewise state machine and padding rules", "lib/arch/generic/dec_head.c, dec_tail.c"), ("incomplete final group check", "lib/lib.c base64_decode")],
     ST, ["return of each decode call", "output buffer", "reported length"])
prop("S04", "A decode failure is final, and re-initialising starts clean",
     "Once a block call on a decoding stream has reported an error, every later call on that stream reports an error and delivers nothing, whatever it is fed; once a stream has ended in padding, any further non-empty block is an error. "
     "Initialising a stream state again, for encoding or decoding and after any history, makes it behave exactly like a fresh one.",
     ["histories", "schedules", "fault_sequences"], "every call history on a stream state: damage anywhere, then any further blocks, then re-initialisation for either direction",
     "The tests stop at the first error and use a fresh state for each stream; no test continues a failed stream or reuses a state after a failure.",
     DEC_FILES, [("error/end latch", "lib/arch/generic/dec_head.c, dec_tail.c"), ("state initialisation", "lib/lib.c base64_stream_encode_init, base64_stream_decode_init")],
     ST, ["return of each decode call", "reported length"])
prop("S05", "Calls stay inside the caller's buffers under every block schedule",
     "No encode or decode call, for any block schedule, alignment, damage or codec, reads outside the given input block or the stream state, writes to its input, or writes outside the documented output size (4 characters per started 3 input bytes when encoding, 3 bytes per started 4 characters when decoding, plus the closing characters of the finalising call). "
     "Output beyond what is documented is never touched, not even temporarily.",
     ["schedules", "inputs", "fault_sequences", "configurations"], "every block schedule, buffer alignment and adjacency, damage pattern, codec and architecture",
     "Valgrind runs of the tests see one input size ladder up to 256 bytes, with slack output buffers; the overshoot of vector loads and stores depends on block length, carry phase and where decoding stops.",
     ENC_FILES + DEC_FILES, [("round-count limits that leave room for wide loads and stores", "lib/arch/*/enc_loop*.c, lib/arch/*/dec_loop.c")],
     ST, ["memory around the input, output and state buffers"])
prop("S06", "A stream can be checkpointed, moved and resumed from its state alone",
     "All progress of a stream lives in the caller's state structure: copying it at any block boundary, losing the process, and continuing from the copy in a restarted process (or at another address, or after replaying the blocks since the checkpoint) yields exactly the output of the uninterrupted stream. "
     "A checkpoint taken on one codec can be resumed with another, and one taken with the default codec on a machine with fewer instruction sets.",
     ["crash_points", "schedules", "histories"], "every block boundary as checkpoint, every crash point after it, repeated crashes, encode and decode, any mix of codecs before and after",
     "No test copies a stream state or resumes one; hidden process-wide state would go unnoticed.",
     ["lib/lib.c", "lib/lib_openmp.c", "include/libbase64.h", "lib/arch/generic/enc_head.c", "lib/arch/generic/enc_tail.c", "lib/arch/generic/dec_head.c", "lib/arch/generic/dec_tail.c"],
     [("self-contained plain-data state", "include/libbase64.h struct base64_state"), ("state write-back at the end of each call", "lib/arch/generic/enc_tail.c, dec_tail.c")], ST, ["output after resume"])
prop("S07", "The library never allocates memory, and works when allocation is impossible",
     "Whole-buffer and streaming calls of any input size succeed with unchanged results while every memory allocation and every system call fails, because they neither allocate dynamically nor call the operating system. (Serial builds; a parallel build may use its thread runtime.)",
     ["fault_sequences", "inputs", "configurations"], "every call sequence and size with every allocation and system call failing",
     "The tests run with working memory allocation and cannot see a call that allocates.",
     ["lib/lib.c", "lib/codec_choose.c", "lib/arch/generic/codec.c"], [("stack-only working storage", "lib/arch/*/codec.c")], None, ["allocator entry points", "system call entry"])
prop("S08", "A call leaves nothing behind but its outputs",
     "Every call of the library, for any input, block schedule, damage, codec and architecture, returns with the caller's execution state as the platform's calling convention promises: all callee-saved general-purpose and vector registers, direction flag, floating-point and vector control settings unchanged and the x87/MMX register stack empty; errno is unchanged too. "
     "What a caller computes around a call therefore never depends on which codec served it.",
     ["inputs", "schedules", "configurations"], "every call, data, block length, damage, codec and architecture",
     "The tests keep nothing in callee-saved vector registers and use no floating point; which registers hold live values around a call is up to the caller's compiler, so a register lost in one path of one codec stays unnoticed.",
     ["lib/arch/*/enc_loop_asm.c", "lib/arch/*/enc_loop.c", "lib/arch/*/dec_loop.c", "lib/arch/*/codec.c", "lib/lib.c", "lib/codec_choose.c"],
     [("register lists of the inline assembly", "lib/arch/neon64/enc_loop_asm.c, lib/arch/neon32/enc_loop.c, lib/arch/{ssse3,avx,avx2}/enc_loop_asm.c, lib/arch/avx512/enc_loop.c"), ("instructions that save what they change (cpuid, xgetbv)", "lib/codec_choose.c")], None, ["registers and control words at return"])

prop("S09", "The work of a call is bounded by its block, its stack by a constant",
     "Every call returns after an amount of work at most proportional to the length of the block it is given (a small constant number of instructions per byte, plus a constant), whatever the data, the damage in it, the codec and everything that happened to the stream or the process before; "
     "and it needs no more than a fixed amount of stack (at most 64 KiB), however long the block.",
     ["inputs", "schedules", "histories", "configurations"], "every block length, data, damage, history, codec and architecture",
     "The tests do not measure work or stack; work that grows with the square of the block, or with what came before, passes them on their short inputs.",
     ["lib/lib.c", "lib/arch/*/enc_loop*.c", "lib/arch/*/dec_loop.c", "lib/arch/generic/dec_head.c", "lib/arch/generic/dec_tail.c", "lib/arch/generic/enc_head.c", "lib/arch/generic/enc_tail.c", "lib/codec_choose.c"],
     [("one pass over the block; the vector loop entered again only for the rest", "lib/arch/*/codec.c, dec_tail.c"), ("detection only at first use", "lib/lib.c codec_get")], None, ["instructions or memory accesses per call", "stack below the caller"])

prop("T01", "Concurrent callers get the results they would get alone",
     "Any number of threads using the library at the same time, each on its own streams and buffers and including the very first use in the process, each get exactly the results they would get running alone, for every interleaving of their instructions.",
     ["schedules", "histories"], "every instruction-level interleaving of 2 to 4 caller threads, first use included",
     "All tests are single-threaded.",
     ["lib/lib.c", "lib/codec_choose.c", "lib/arch/generic/codec.c"], [("lazily initialised process-wide codec choice", "lib/lib.c"), ("no other writable process-wide data", "lib/arch/*/codec.c")],
     [("process-wide codec choice", "remembered result of CPU detection", "lib/lib.c static struct codec")], ["results of each thread"])
prop("T02", "A call interrupted at any instant by another use of the library is unaffected",
     "The library is re-entrant: if a call is interrupted at any instruction by a handler that itself runs complete library operations on other streams, both the interrupted call and the operations in the handler give the results they would give alone, also when the interrupted call is the first use in the process.",
     ["schedules", "crash_points"], "every interruption instant of every call, nested up to two levels",
     "No test interrupts a call.",
     ["lib/lib.c", "lib/codec_choose.c"], [("no locks, no writable static working storage", "lib/lib.c, lib/arch/*/codec.c")],
     [("process-wide codec choice", "remembered result of CPU detection", "lib/lib.c static struct codec")], ["results of the interrupted and the nested operations"])
prop("T03", "Forcing a codec concerns only the stream or call that asked for it",
     "A stream or call that forces a codec uses exactly that codec: if it is not in the build, decoding reports this with -1 and zero length and encoding yields nothing, and if it is, no instruction outside that codec's instruction set is executed on its behalf. "
     "Every other stream or call, earlier, later or concurrent, behaves as if the forcing had not happened; without flags the default codec is used.",
     ["histories", "schedules", "configurations"], "every history and interleaving of streams and calls with different force flags, builds with all, some and no optional codecs",
     "The tests use one flag value at a time, in one thread, and only see results that all available codecs share.",
     ["lib/lib.c", "lib/codec_choose.c", "lib/codecs.h"], [("codec dispatch", "lib/lib.c"), ("forced choice", "lib/codec_choose.c codec_choose_forced"), ("stubs for missing codecs", "lib/codecs.h")],
     [("process-wide codec choice", "remembered result of CPU detection", "lib/lib.c static struct codec")], ["return values, lengths and outputs of all streams", "instructions executed"])
prop("T04", "Automatic codec choice is safe on every x86 machine and operating system",
     "With default flags the library never executes an instruction that the machine it runs on does not support: for every combination of CPU feature bits, highest reported CPUID leaf, and register state enabled by the operating system, detection itself and every later call only use reported and enabled instruction sets, and results are correct. "
     "If a compiled-in vector codec is usable on that machine, a vector codec is chosen, and the choice stays fixed for the life of the process.",
     ["configurations", "histories"], "every simulated machine (feature bits, CPUID limit, XCR0), every first call, every later call",
     "The tests run on the one CPU that happens to be present.",
     ["lib/codec_choose.c", "lib/lib.c"], [("CPUID/XGETBV feature detection", "lib/codec_choose.c codec_choose_x86")],
     [("process-wide codec choice", "remembered result of CPU detection", "lib/lib.c static struct codec")], ["instructions executed", "results"])

prop("T05", "A caller that vanishes in the middle of a call harms no one else",
     "A call may be cut off at any instruction for good: its thread ends, the process continues in a child forked by another thread, or a signal handler jumps out of it. Only the stream and the output of that call are lost. "
     "Every other caller, concurrent or later, in any number, the same operation tried again included, gets the results it would get alone and gets them without waiting for the one that vanished; the first use in the process may be what is cut off, and this may happen any number of times.",
     ["crash_points", "schedules", "histories"], "every instruction as the point of death, any number of deaths, 1 to 4 callers, every interleaving, first use included",
     "No test abandons a call.",
     ["lib/lib.c", "lib/codec_choose.c", "lib/arch/generic/codec.c"], [("nothing held or counted between entry and return", "lib/lib.c, lib/arch/*/codec.c"), ("codec choice usable at every point of its update", "lib/lib.c codec_get")],
     [("process-wide codec choice", "remembered result of CPU detection", "lib/lib.c static struct codec")], ["results and progress of the surviving callers"])

prop("P01", "Parallel encoding equals serial encoding for every team and schedule",
     "In a build with thread parallelism, whole-buffer encoding of an input of any size gives exactly the standard Base64 text and its length, for every number of threads the runtime grants (fewer than requested included) and every interleaving of those threads, and threads never write outside the output.",
     ["schedules", "inputs", "configurations", "fault_sequences"], "every team size, every interleaving at memory-access granularity, every input size around the parallel threshold and beyond, every codec; 64-bit, 32-bit and big-endian builds",
     "The tests' longest input is far below the parallel threshold; the benchmark runs the parallel path without checking any output.",
     ["lib/lib_openmp.c", "lib/lib.c"], [("partition into whole groups per thread, serial remainder", "lib/lib_openmp.c base64_encode_openmp"), ("shared/private data of the parallel region", "lib/lib_openmp.c")], None, ["output, reported length"])
prop("P02", "Parallel decoding of valid text equals serial decoding for every schedule",
     "In a build with thread parallelism, whole-buffer decoding of valid padded Base64 text of any size reports success and gives exactly the original bytes and length, for every number of threads granted and every interleaving of those threads, and never writes outside the documented output.",
     ["schedules", "inputs", "configurations", "fault_sequences"], "every team size, every interleaving at memory-access granularity, every text size around the parallel threshold and beyond, every codec; 64-bit, 32-bit and big-endian builds",
     "The tests' longest input is far below the parallel threshold; the benchmark runs the parallel path without checking any output.",
     ["lib/lib_openmp.c", "lib/lib.c"], [("partition into whole groups per thread, serial remainder", "lib/lib_openmp.c base64_decode_openmp")], None, ["return value, output, reported length"])
prop("P03", "Parallel decoding rejects exactly what serial decoding rejects",
     "In a build with thread parallelism, whole-buffer decoding of damaged, truncated or overlong text of any size reports failure exactly when the text as a whole is not well-formed and complete, wherever the damage lies relative to the threads' parts (padding in the middle included), for every team size and interleaving. "
     "The reported length is always set and never exceeds the documented output size, on failure and with an unavailable codec too.",
     ["fault_sequences", "schedules", "inputs", "configurations"], "every damage position relative to part boundaries, every team size and interleaving",
     "No test decodes an input long enough to take the parallel path.",
     ["lib/lib_openmp.c", "lib/lib.c"], [("combination of the parts' verdicts", "lib/lib_openmp.c base64_decode_openmp")], None, ["return value, reported length"])

prop("P04", "A parallel build is a good guest in a program that uses threads itself",
     "In a build with thread parallelism, whole-buffer calls may be made anywhere in a threaded program: by several threads at once, by every thread of a parallel region, inside critical sections, single constructs, shared loops and sections, with nested parallelism on or off, and under any thread settings (team size, dynamic adjustment, nesting, schedule, thread limit). "
     "Every call returns, with the results of the serial build; it asks for no more threads than the caller's settings allow, and it leaves those settings and the caller's own team (its thread number, its place in shared constructs, what it has locked) as they were.",
     ["schedules", "configurations", "histories", "inputs"], "every program of nested constructs, settings and calls, every number of threads granted, every interleaving",
     "No test calls the library of a parallel build from a threaded program.",
     ["lib/lib_openmp.c", "lib/lib.c"], [("the library's parallel region, its single construct and its shared loop", "lib/lib_openmp.c")],
     [("thread settings", "the OpenMP internal control variables of the calling thread", "the runtime; lib/lib_openmp.c must not change them")], ["results", "progress", "omp_get_* before and after a call", "the application's own constructs"])

CLI = ["bin/base64.c"]
prop("U01", "The tool's encoding is exact under every legal I/O behaviour",
     "For every input and wrap width, whatever sizes reads and writes are satisfied in and however often writes are interrupted by signals, the command-line tool writes exactly the standard Base64 text of its input, broken into lines of the requested width, and exits 0 after a bounded number of I/O operations.",
     ["schedules", "fault_sequences", "inputs", "configurations"], "every schedule of short reads, short writes and interrupted writes, every input size relative to the tool's buffers, every wrap width, native and emulated gathered writes",
     "The one command-line test round-trips one small file with full reads and writes.",
     CLI + ["lib/lib.c"], [("retry loops for partial and interrupted writes", "bin/base64.c write_stdout, writev_retry"), ("line wrapping across buffers", "bin/base64.c write_wrapped"), ("read loop", "bin/base64.c encode")],
     [("column", "current output column kept across buffers", "bin/base64.c write_wrapped")], ["bytes accepted on standard output", "exit status"], "BASE64_SIM_BUFFER_RAW_SIZE (small buffers; the default size is checked too)")
prop("U02", "The tool's decoding is exact under every legal I/O behaviour",
     "For every valid encoded text with newlines anywhere, whatever sizes reads and writes are satisfied in and however often writes are interrupted by signals, the command-line tool in decode mode writes exactly the original bytes and exits 0 after a bounded number of I/O operations; with newline stripping turned off it does the same for text without newlines.",
     ["schedules", "fault_sequences", "inputs", "configurations"], "every schedule of short reads, short writes and interrupted writes, every placement of newlines relative to groups, padding and the tool's buffers",
     "The one command-line test round-trips one small file with full reads and writes.",
     CLI + ["lib/lib.c"], [("newline tokenising within buffers", "bin/base64.c decode, find_newline"), ("retry loop for partial and interrupted writes", "bin/base64.c write_stdout")], None, ["bytes accepted on standard output", "exit status"], "BASE64_SIM_BUFFER_RAW_SIZE (small buffers; the default size is checked too)")
prop("U03", "An I/O failure never passes as success and never corrupts the tool's output",
     "When opening, reading, writing, allocating or closing the output fails at any point while the command-line tool encodes or decodes, either the tool recovers and its output is complete and exact, or it exits non-zero with a message on standard error; in every case what reached standard output is an exact prefix of the correct output, with nothing lost, repeated or altered.",
     ["fault_sequences", "crash_points", "inputs", "configurations"], "every position and kind of open, read, write and allocation failure (after partial transfers too), and a failed write reported only at the close, encode and decode, native and emulated gathered writes",
     "No test injects an I/O or allocation failure.",
     CLI, [("error returns of the write loops", "bin/base64.c write_stdout, writev_retry"), ("stream error check", "bin/base64.c encode, decode"), ("exit status", "bin/base64.c main")], None, ["bytes accepted on standard output", "standard error", "exit status"])
prop("U04", "The tool rejects damaged text and emits only bytes that precede the damage",
     "In decode mode, if the text (newlines aside) contains a character that cannot occur at its position, including anything after the padding, the tool exits non-zero with a message on standard error, whatever the I/O behaviour; what it wrote is a prefix of the bytes denoted by the text before the damage.",
     ["fault_sequences", "schedules", "inputs"], "every damage pattern and position relative to lines and the tool's buffers, every I/O schedule",
     "No test feeds the tool invalid input.",
     CLI + ["lib/arch/generic/dec_tail.c"], [("decode status check", "bin/base64.c decode")], None, ["bytes accepted on standard output", "standard error", "exit status"])
prop("U05", "Line noise is ignored on request",
     "With the option to ignore garbage, inserting any bytes outside the Base64 alphabet (other than the padding character) anywhere into a valid text, inside groups, around the padding and across read boundaries, changes nothing: the tool writes exactly the original bytes and exits 0.",
     ["fault_sequences", "schedules", "inputs"], "every noise pattern (all 191 non-alphabet byte values), every position, every I/O schedule",
     "No test uses the option.",
     CLI, [("garbage tokenising within buffers", "bin/base64.c decode, find_garbage")], None, ["bytes accepted on standard output", "exit status"])
prop("U06", "An encode-decode pipeline delivers exactly its input, or a prefix on death",
     "Two instances of the tool connected by a bounded pipe, encoding into decoding, deliver exactly the input and both exit 0 after a bounded number of steps, under every schedule of the two processes and every pipe capacity. "
     "If either side dies at any point, what was delivered is a prefix of the input, the other side still terminates, and an encoder whose reader has gone does not exit 0 unless it had written everything.",
     ["schedules", "crash_points", "inputs"], "every schedule, pipe capacity, wrap width, crash point of either process",
     "No test runs two instances concurrently or kills one.",
     CLI + ["lib/lib.c"], [("blocking, partial reads and writes", "bin/base64.c"), ("newline stripping matches wrapping", "bin/base64.c write_wrapped, decode")], None, ["bytes delivered", "exit statuses"], "BASE64_SIM_BUFFER_RAW_SIZE (small buffers)")

prop("U07", "The command line means what the help text says, under every I/O behaviour",
     "For every argument vector made of options (short, long, joined in one word, with values in any spelling), values and operands in any order: either the tool does exactly what the options and the operand say, reading the named file (standard input when there is none, or when it is '-') and nothing else, the last wrap width counting; "
     "or, when an option is unknown, lacks its argument, has a wrap width that is empty, negative or not a decimal number, when there is more than one operand or the file cannot be opened, the tool exits non-zero with a message on standard error, without having read input or written output. Asked for help it writes the help text and exits 0, unless writing it fails.",
     ["inputs", "fault_sequences", "schedules"], "every argument vector, with every I/O behaviour and failure while it is carried out", "No test runs the tool with anything but -d and -w.",
     CLI, [("option parser", "bin/base64.c parse_opts, get_wrap"), ("help", "bin/base64.c usage, main")], None, ["bytes accepted on standard output", "bytes read from either input", "exit status"])

prop("U08", "The tool keeps up with its input in bounded memory, however long it is",
     "However long the input, encoding or decoding, the command-line tool's memory in use stays below a fixed limit that does not grow with the input, and it never asks for more input while more than a fixed amount of output that the input read so far determines is unwritten. "
     "It finishes after a number of input and output operations proportional to the length of input and output, under every pattern of partial reads, partial writes, interruptions and noise in the text.",
     ["inputs", "schedules", "fault_sequences"], "every input length up to beyond 4 GiB, encode and decode, every line layout and noise density, every read and write size pattern, interruptions",
     "The one command-line test uses a small file; memory that grows with the input or input that is held back shows only on long streams and under partial writes.",
     CLI, [("two fixed buffers, reused for every block", "bin/base64.c buffer_alloc, encode, decode"), ("every block is written before the next is read", "bin/base64.c encode, decode, write_wrapped")], None, ["allocations in use", "bytes read against bytes written", "number of operations"], "BASE64_SIM_BUFFER_RAW_SIZE (small buffers; the default size is checked too)")

prop("N01", "The committed lookup tables are what their generators produce",
     "Running the table generators reproduces the committed lookup tables bit for bit, and the tables agree with the Base64 alphabet on little- and big-endian machines.",
     ["configurations"], "all tables, both byte orders", "No test regenerates the tables.",
     ["lib/tables/table_generator.c", "lib/tables/table_enc_12bit.py", "lib/tables/table_dec_32bit.h", "lib/tables/table_enc_12bit.h"], [("generators", "lib/tables")])
prop("N03", "Only the documented symbols are exported and the header works from C++",
     "The relocatable object exports exactly the documented entry points, and the public header can be included from C and C++.",
     ["configurations"], "all build modes", "No test looks at the symbol table.", ["Makefile", "lib/exports.txt", "include/libbase64.h"], [("symbol list", "lib/exports.txt")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

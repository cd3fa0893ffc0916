#!/usr/bin/env python3
"""Authoring source of properties.jsonl (run by hand; the output is committed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = hook
    P.append(d)

E='code/header/essentials/'; ES='code/source/essentials/'; C='code/header/core/'; CS='code/source/core/'
HOOK='ZPL_VERIFY: guarded loop-invariant anchors (expand to nothing when the guard is off)'

p('M01','Memory block primitives act exactly on the given bytes',
  'For every size, alignment, content and (where allowed) overlap, the byte-block operations (copy, overlapping move, fill, zero, compare, search forwards, search backwards, swap) have exactly the effect of the byte-by-byte definition. They read and write no byte outside the blocks they are given, and return the documented pointer or sign.',
  ['inputs'],'all sizes, start alignments 0..7, byte values, contents and overlap distances',
  'The tests never call these with odd alignments or overlaps; word-at-a-time code paths and tails depend on size, alignment and overlap together.',
  [E+'memory.h',ES+'memory.c'],[('fill / move / compare',E+'memory.h inline bodies'),('search, swap, copy',ES+'memory.c')],hook=HOOK)
p('M02','Alignment helpers give the least aligned value not below the input',
  'Rounding an address or an integer up to a power-of-two alignment (up to 2^62) yields the smallest multiple of the alignment that is not below the input, for every input whose result is representable. The power-of-two test is true exactly for positive powers of two, and pointer add, subtract and difference are mutually inverse.',
  ['inputs'],'all 64-bit values and alignments','No test calls them directly; a wrong mask shows only for particular residues.',
  [E+'memory.h'],[('align_forward family, pointer arithmetic',E+'memory.h')])
p('A01','Arena allocations are aligned, in bounds, disjoint and fail cleanly',
  'Every block an arena hands out is aligned as requested, lies wholly inside the arena memory and overlaps no other live block, whatever the sequence of sizes and power-of-two alignments; a request that does not fit returns nothing and changes nothing. Ending a snapshot restores the usage at the time it was taken, so earlier blocks stay valid and the later space is reusable.',
  ['inputs','histories'],'all arena states, sizes and alignments, hence all allocation histories',
  'Tests make two or three same-alignment allocations of round sizes from an aligned buffer; overlap needs mixed alignments or an unaligned start.',
  [E+'memory_custom.h',ES+'memory_custom.c'],[('arena allocator procedure, snapshots',ES+'memory_custom.c')],
  state=[('total_allocated','offset of the first free byte',E+'memory_custom.h')])
p('A02','Pool blocks are distinct, aligned, in bounds and recycled without loss',
  'A pool hands out only blocks that are aligned, lie wholly inside its memory and overlap no live block, until its capacity is exhausted, and then returns nothing. A freed block becomes available again, freeing everything restores the full capacity, and the usage count equals the number of live blocks times the block size.',
  ['inputs','histories'],'all block sizes/alignments/counts and allocate/free histories','Tests allocate at most four blocks with one geometry.',
  [E+'memory_custom.h',ES+'memory_custom.c'],[('free list threading, pool allocator procedure',ES+'memory_custom.c')],
  state=[('free_list','intrusive list of free blocks',E+'memory_custom.h')])
p('A03','Scratch memory never hands out overlapping live blocks',
  'Every block obtained from a scratch (ring) allocator lies wholly inside its memory, is aligned as requested and overlaps no block that has not been freed, for every sequence of allocations and frees, including wrap-around. When a request does not fit, no existing block is disturbed.',
  ['inputs','histories'],'all allocate/free histories, sizes and alignments','The scratch allocator has no test.',
  [E+'memory_custom.h',ES+'memory_custom.c'],[('scratch allocator procedure and freed-header walk',ES+'memory_custom.c')],
  state=[('alloc_point/free_point','ring head and tail',E+'memory_custom.h')])
p('A04','Stack allocator restores exactly the previous top on free',
  'Blocks obtained from a stack allocator are aligned, in bounds and disjoint from every other live block, and a freed latest block returns the allocator to precisely the state before that block was allocated. When the stack grows through its backing allocator, live blocks keep their contents at the same offsets from the start of the stack; when growth fails, the request returns nothing and live blocks are undisturbed.',
  ['inputs','histories'],'all last-in first-out histories, sizes and alignments','The stack allocator has no test.',
  [E+'memory_custom.h',ES+'memory_custom.c'],[('stack allocator procedure',ES+'memory_custom.c')],
  state=[('allocated','offset of the first free byte',E+'memory_custom.h')])
p('A05','Generic allocation helpers preserve contents and report failure',
  'Resizing a block through any allocator keeps the first min(old,new) bytes, and copy/duplicate helpers return a block with exactly the source content (text copies are terminated). When the underlying allocator fails, the helper returns nothing and the old block and all other memory are unchanged.',
  ['inputs','fault_sequences'],'all sizes and contents, every allocation failure point','No test injects allocation failure or inspects contents after resize.',
  [E+'memory_custom.h',ES+'memory_custom.c'],[('default resize, copy helpers, heap allocator procedure',ES+'memory_custom.c')])
p('C01','Dynamic arrays behave as sequences under every operation',
  'Appending one or many items, inserting at an index, removing, popping, filling, resizing, reserving, shrinking and copying a dynamic array have exactly the effect of the same operation on the abstract sequence of its items, capacity never falls below the count (indices run from 0 to the count), and no memory outside the array is touched. If memory cannot be obtained, the operation reports failure and the array keeps its items.',
  ['inputs','histories','fault_sequences'],'all array contents, counts, capacities, indices, element sizes and allocation failures',
  'Tests use arrays only incidentally (no direct test), never at growth boundaries or under allocation failure.',
  [E+'collections/array.h'],[('append/insert/remove/grow macros',E+'collections/array.h')],
  state=[('array header','count, capacity, element size, allocator','code/header/essentials/collections/array.h')])
p('C02','Hash table behaves as a finite map from keys to values',
  'After any sequence of set, get, remove by key, clear and rehash operations, looking up a key yields the value most recently set for that key if it was not removed since, and nothing otherwise; every other key is unaffected by each operation. Visiting the table enumerates exactly the live entries.',
  ['inputs','histories'],'all operation histories and keys, including colliding keys and growth','Tests insert ten consecutive keys; collision chains after removal and rehash are never checked.',
  [E+'collections/hashtable.h'],[('chained lookup, growth and removal',E+'collections/hashtable.h')],
  state=[('hashes/entries','bucket heads and chained entries',E+'collections/hashtable.h')])
p('C03','Ring buffer is a bounded first-in first-out queue',
  'Items come out of a ring buffer in insertion order; it reports empty exactly when it holds no item and full exactly when it holds its capacity; appending to a full ring discards only the oldest item, and a bulk append or read equals the same sequence of single operations. Reading from an empty ring yields nothing.',
  ['inputs','histories'],'all capacities, head/tail positions and operation sequences','The ring buffer has no test; wrap-around and full/empty confusion need specific histories.',
  [E+'collections/ring.h'],[('head/tail arithmetic',E+'collections/ring.h')],state=[('head, tail, capacity','queue position',E+'collections/ring.h')])
p('C04','Linked list stays doubly linked under insertion and removal',
  'Inserting an element after a position or removing an element yields exactly the expected sequence, and afterwards following next links and following previous links enumerate the same elements in opposite order.',
  ['inputs','histories'],'all list lengths and positions','The list has no test.',
  [E+'collections/list.h'],[('link updates',E+'collections/list.h')])
p('C05','Fixed-capacity buffers append, pop and clear like sequences',
  'A fixed-capacity buffer reports the capacity it was created with, and appending one or many items, popping and clearing change its count and contents exactly as the abstract sequence while writing only inside its storage; copying yields an independent buffer with the same items.',
  ['inputs','histories'],'all capacities, element sizes, contents within capacity','No direct test.',
  [E+'collections/buffer.h'],[('buffer macros',E+'collections/buffer.h')])
p('S01','Managed strings stay consistent and terminated under every operation',
  'After any operation on a managed string (make, duplicate, append, set, clear, reserve, trim (of text without embedded zero bytes), join, append rune/bytes) its stored length equals its content length, never exceeds its capacity, and the content is followed by a terminator; the content is exactly the mathematical result of the operation. Equality holds exactly when lengths and bytes agree, and failure to obtain memory is reported without touching freed or foreign memory.',
  ['inputs','histories','fault_sequences'],'all contents, lengths, capacities, cut sets and allocation failures','Managed strings are used in tests only as plumbing for a few fixed texts.',
  [C+'string.h',CS+'string.c'],[('string header, growth and trimming',CS+'string.c')],state=[('length, capacity','header stored before the text',C+'string.h')])
p('S02','Text helpers follow the C library meaning and stay within the text',
  'Length, comparison, copying, concatenation, searching, splitting, skipping, case conversion and character classification of plain text give the result of their mathematical definition for every text, and never read past the terminator or stated bound nor write past the stated size.',
  ['inputs'],'all byte strings, all characters, all bounds','The helpers have no direct test; bounds violations need unterminated or boundary-length texts.',
  [C+'string.h',CS+'string.c'],[('inline text helpers',C+'string.h'),('classification, comparison, search',CS+'string.c')],hook=HOOK)
p('N01','Integer text conversion is exact and invertible in every base',
  'Converting any 64-bit signed or unsigned integer to text in any supported base (2 to 36) yields its canonical numeral, and parsing that numeral in the same base yields the integer back. Parsing stops at the first character that is not a digit of the base and reports the end position, and accepts the documented sign and prefixes.',
  ['inputs'],'all 64-bit integers, bases 2..36 (formatting) and all numerals','Tests convert a handful of small numbers; extremes such as the most negative integer are not sampled.',
  [C+'string.h',CS+'string.c'],[('digit scanning and emission',CS+'string.c')],hook=HOOK)
p('U01','UTF-8 coding is exact, validates input, and never over-reads',
  'Encoding a valid code point and decoding it returns the same code point and consumed length; decoding accepts exactly the well-formed sequences (no overlong forms, surrogates or values above the Unicode maximum), and on any malformed or truncated input reports the error rune and reads no byte beyond the stated length. Counting code points and converting between 8-bit and 16-bit encodings agree with decoding.',
  ['inputs'],'all code points, all byte sequences and lengths','No test covers UTF-8 coding directly.',
  [C+'string.h',CS+'string.c',CS+'stringlib.c'],[('encode/decode tables and range checks',CS+'string.c')])
p('H01','Checksums equal their published algorithms for every message',
  'The Adler-32, CRC-32 and CRC-64 checksums of any byte string of any length equal the values given by the published definitions of those algorithms, and computing them reads exactly the message bytes.',
  ['inputs'],'all byte strings of all lengths','Tests check a single twelve-byte message, which never reaches the blocked/modulo paths or most table entries.',
  ['code/source/hashing.c','code/header/hashing.h'],[('tables and folding loops','code/source/hashing.c')],hook=HOOK)
p('H02','Hash functions equal their published algorithms for every message',
  'The 32- and 64-bit FNV-1 and FNV-1a hashes and the 32- and 64-bit Murmur hashes (with every seed) of any byte string of any length equal the values of the published algorithms, and computing them reads exactly the message bytes.',
  ['inputs'],'all byte strings, lengths and seeds','Tests check one message of one length; tail handling has 4 or 8 residue classes.',
  ['code/source/hashing.c','code/header/hashing.h'],[('mixing loops and tails','code/source/hashing.c')],hook=HOOK)
p('H03','Base64 encoding is canonical and decoding inverts it',
  'Encoding any byte string yields its canonical padded Base64 text, and decoding that text yields the original bytes. Decoding any text whatsoever, well-formed or not, reads only the given text, writes only its own result, and reports text that is not Base64 as failure.',
  ['inputs'],'all byte strings and all texts','Tests encode one message whose length needs no padding and never decode malformed text.',
  ['code/source/hashing.c','code/header/hashing.h'],[('alphabet tables, padding handling','code/source/hashing.c')])
p('P01','Formatted printing never writes outside the given buffer',
  'For every format, arguments and buffer size, bounded formatted printing writes only inside the buffer of the stated size and leaves the text terminated within it. The returned count never exceeds the stated size.',
  ['inputs'],'all formats, arguments and buffer sizes','Tests print into ample static buffers only.',
  [CS+'print.c',C+'print.h'],[('remaining-space accounting',CS+'print.c')])
p('P02','Formatted printing renders integers, text and padding exactly',
  'When the buffer is large enough, integer, character and text conversions with any combination of positive width, precision, left/zero padding, sign and size modifiers produce exactly the text the documented format language defines, and literal text passes through unchanged.',
  ['inputs'],'all integer values, flag/width combinations','Tests cover about ten fixed formats.',
  [CS+'print.c',C+'print.h'],[('conversion, padding and sign handling',CS+'print.c')])
p('O01','Sorting yields the ordered permutation and search finds it',
  'Comparison sorting any array of any element size and stride leaves a permutation of the original elements in non-decreasing order and touches nothing else; the supplied comparison helpers order exactly as the underlying values. Binary search on a sorted array returns the index of an equal element when one exists and reports absence otherwise.',
  ['inputs'],'all arrays, element sizes, keys','No test covers sorting or searching.',
  [C+'sort.h',CS+'sort.c'],[('quicksort/insertion sort, comparators, binary search',CS+'sort.c')])
p('O02','Radix sort, reversal and shuffling permute in place and in bounds',
  'Radix sorting any array of unsigned integers of each supported width leaves it sorted in place; reversing twice restores the array and reverses it once; shuffling leaves a permutation of the elements. None touches memory outside the arrays given.',
  ['inputs'],'all arrays, counts, widths and random states','No test covers these.',
  [C+'sort.h',CS+'sort.c',C+'misc.h'],[('counting passes, index arithmetic',CS+'sort.c')])
p('R01','Random ranges stay within bounds and unique sequences never repeat',
  'A random integer drawn from an inclusive range lies in that range for every generator state and every range with lower not above upper, the unit floating-point draws lie in [0,1], and equal generator states produce equal draws. The unique-sequence generator yields no value twice within its period.',
  ['inputs','histories'],'all generator states and ranges','Random behaviour cannot be settled by sampling; extreme ranges are never drawn.',
  [C+'random.h',CS+'random.c'],[('range reduction, permutation generator',CS+'random.c')])
p('F01','Memory streams behave like a growable file',
  'Reading, writing, seeking, telling and sizing a memory-backed stream give the results of the same operations on a byte sequence: a read returns only existing bytes, a write past the end grows the stream when it owns its storage and otherwise stores only the part that fits, read-only streams refuse writes, positions stay within the stream, and no access leaves the backing buffer. A cloned stream never changes the caller\'s buffer, and closing releases exactly what the stream owns.',
  ['inputs','histories'],'all offsets, sizes, flag combinations and operation sequences','Four tests with in-range accesses only.',
  [CS+'file_stream.c',C+'file_stream.h',CS+'file.c'],[('stream read/write/seek procedures',CS+'file_stream.c')],
  state=[('buf, cap, flags','stream content and ownership',CS+'file_stream.c')])
p('F02','Tar archives round-trip and damaged archives are rejected safely',
  'An archive packed from any set of entries unpacks to the same names and contents, with every header and block laid out as the tar format requires. Unpacking any byte sequence either delivers records whose data lie inside the archive or reports an error, and never accesses memory outside the archive buffer.',
  ['inputs'],'all entry names/sizes/contents and all damaged archives','Tar has no test.',
  [CS+'file_tar.c',C+'file_tar.h'],[('header checksum, block padding, length parsing',CS+'file_tar.c')])
p('F03','Path helpers decompose paths consistently and stay in the text',
  'The base name, extension, absolute, relative and root queries classify and split every path text according to their documented definition, returning positions inside the given text and reading nothing past its terminator.',
  ['inputs'],'all path texts','No test covers path helpers.',
  [CS+'file_misc.c',C+'file_misc.h'],[('separator and dot scanning',CS+'file_misc.c')])
p('T01','Document trees keep parent and child links consistent',
  'After any sequence of inserting, appending, moving, swapping and removing nodes in a document tree, the children of a container are exactly the expected sequence and every node at every depth has its container as parent; lookups by name return the first match. Failure to obtain memory is reported and leaves the tree as it was.',
  ['inputs','histories','fault_sequences'],'all trees and edit histories','Tests build small trees and never inspect parent links after edits.',
  ['code/source/adt.c','code/header/adt.h'],[('node array growth, move, swap, remove','code/source/adt.c')],
  state=[('nodes, parent','child array and back link','code/header/adt.h')])
p('T02','Document queries return the node the locator describes',
  'Resolving a locator against a document returns exactly the node reached by following its segments (field names, array indices, and field=value or value filters with closed brackets), and nothing when no such node exists; it never reads outside the locator or the document.',
  ['inputs'],'all documents and locator texts','Tests resolve a few well-formed locators.',
  ['code/source/adt.c'],[('segment scanning and filter matching','code/source/adt.c')])
p('J01','JSON parsing is memory-safe for every input text',
  'Parsing any terminated text whose nesting fits the call stack as JSON terminates, never reads past the terminator or writes outside the text and the produced tree, and reports an error for text that is not acceptable instead of crashing. Strings in the result lie inside the given text and are terminated.',
  ['inputs'],'all texts','Tests parse about two dozen fixed documents; truncated or malformed tails are the failure class.',
  ['code/source/parsers/json.c','code/source/adt.c'],[('recursive descent, trimming, literal and number scanning','code/source/parsers/json.c')])
p('J02','JSON documents survive writing and re-parsing',
  'Writing any document tree of objects, arrays, strings (without quotes and backslashes), integers and constants as JSON and parsing the text again yields an equal tree, and a parsed document has exactly the members, order, types and values that its text denotes.',
  ['inputs'],'all document trees of the supported types','Tests compare a few fixed documents.',
  ['code/source/parsers/json.c','code/source/adt.c'],[('writer and parser','code/source/parsers/json.c')])
p('V01','CSV parsing is memory-safe and inverts CSV writing',
  'Parsing any text as CSV terminates and stays inside the text; cells come out in row and column order with quoted delimiters and doubled quotes decoded, and rows with a different number of cells are reported. Writing a table and parsing it again yields the same cells; white space around unquoted cells is not kept and unquoted cells that read as numbers become numbers.',
  ['inputs'],'all texts, delimiters and tables','Tests use a dozen fixed documents.',
  ['code/source/parsers/csv.c'],[('cell scanning, row accounting, writer','code/source/parsers/csv.c')])
p('W01','URI splitting and percent-coding are safe and invertible',
  'Splitting any text as a URI query terminates and stays inside the text, and yields the documented base, keys and values. Percent-encoding any text and decoding it yields the original text, and decoding any text never reads or writes outside it.',
  ['inputs'],'all texts','Tests use a few fixed URIs.',
  ['code/source/parsers/uri.c'],[('percent coding, splitting','code/source/parsers/uri.c')])
p('X01','Command-line options are parsed according to their declaration',
  'For every declared option set and every argument vector, parsing assigns each recognised option exactly the value given on the command line (numeric options being given well-formed numbers), reports unknown or malformed options and missing values as errors, and never reads outside the arguments. Positional arguments are assigned in the order in which they were registered.',
  ['inputs'],'all option declarations and argument vectors','Option parsing has no test.',
  ['code/source/opts.c','code/header/opts.h'],[('argument scanning and typed value parsing','code/source/opts.c')])
p('Q01','Job queues accept up to capacity and dispatch each job once',
  'Enqueueing a job succeeds exactly when the queue of its priority is not full and otherwise changes nothing; a dispatch step hands queued jobs only to idle workers, each accepted job to exactly one worker and in order within a priority, and loses none. The empty, full and done queries reflect exactly the pending jobs and busy workers.',
  ['inputs','histories'],'all queue contents, worker states and dispatch counters (main-thread side)','No test exercises the job system.',
  ['code/source/jobs.c','code/header/jobs.h'],[('enqueue, dispatch and status queries','code/source/jobs.c')],
  state=[('queues, workers','pending jobs per priority and worker status','code/header/jobs.h')])
p('G01','Half floats and plain-data geometry conversions are exact',
  'Converting any half-precision value to single precision is exact and converting back returns the same value, and every single-precision value converts to one of its two neighbouring halves with correct sign, zero, infinity and not-a-number class. Transposing, copying and viewing matrices move values without altering them, and converting between rectangle and box forms keeps the corner and gives exactly the sum or difference of the coordinates.',
  ['inputs'],'all bit patterns','No test covers the math module.',
  ['code/source/math.c','code/header/math.h'],[('bit manipulation','code/source/math.c')])
p('E01','Calendar epoch conversion is invertible',
  'Converting a time stamp between the Unix and Windows epochs and back returns the original value, and the conversion shifts by the documented constant offset for every representable time.',
  ['inputs'],'all time stamps for which the result is representable','One stamp is tested.',
  [CS+'time.c',C+'time.h'],[('epoch offset',CS+'time.c')])
# not applicable
p('K01','Locks, semaphores, barriers and atomics synchronise threads',
  'Critical sections guarded by a lock never overlap, a semaphore never admits more holders than its count, a barrier releases only when all participants have arrived, and atomic read-modify-write operations are indivisible under every schedule.',
  ['schedules'],'all interleavings','No test runs threads concurrently.',
  ['code/source/threading/'],[('inline assembly, pthread calls','code/source/threading/')])
p('K02','File operations reach the operating system faithfully',
  'Bytes written to a file are the bytes read back, copies and moves preserve content, directory listing enumerates the entries, and every failure of the operating system is reported.',
  ['inputs','fault_sequences'],'all file contents, paths and OS failures','Tests touch no file system failure.',
  [CS+'file.c',CS+'file_misc.c'],[('system calls',CS+'file.c')])
p('K03','Sockets, processes and dynamic libraries honour their contracts',
  'Data sent over a socket or pipe arrives in order, child processes report their exit code, and resources are released on every path.',
  ['schedules','fault_sequences'],'all peers and OS behaviours','No test.',
  ['code/source/socket.c','code/source/process.c','code/source/dll.c'],[('system calls','code/source/socket.c')])
p('K04','Transcendental and matrix arithmetic meets its accuracy',
  'Trigonometric, exponential and interpolation functions stay within their stated error, and matrix and quaternion operations satisfy their algebraic identities up to rounding.',
  ['inputs'],'all floating-point arguments','No test.',
  ['code/source/math.c'],[('polynomial approximations','code/source/math.c')])
p('K05','Regular expressions match exactly their language',
  'Compiling and matching any pattern against any text reports a match exactly when the documented pattern language matches, with the correct captures, and never accesses memory outside its inputs.',
  ['inputs'],'all patterns and texts','No test.',
  ['code/source/regex.c'],[('pattern compiler and backtracking matcher','code/source/regex.c')])
p('K06','Floating-point text conversion is accurate',
  'Printing a floating-point number with given precision and parsing decimal text yield correctly rounded results.',
  ['inputs'],'all floating-point values and numerals','A few values are tested.',
  [CS+'print.c',CS+'string.c','code/source/adt.c'],[('digit generation','code/source/core/print.c')])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))

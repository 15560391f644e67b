#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the property texts live here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=mech, where=files[0])])))
IO='api/src/cmp/io/'; II='api/include/cmp/io/'
BUF=[IO+'input_resource.cpp',IO+'output_resource.cpp',IO+'io_buffer.cpp']
SEEK=[IO+'seekable_transfer_resource.ipp',IO+'seekable_input_resource.ipp',IO+'seekable_output_resource.ipp',IO+'seekable_io_resource.ipp']
FILE=[IO+'file.cpp',IO+'impl/unix_like/unix_like_file.cpp']
STD=[IO+'impl/unix_like/unix_like_uin.cpp',IO+'impl/unix_like/unix_like_uout.cpp',IO+'uio.cpp']
CTR=[IO+'impl/ctr_essence.ipp',IO+'opaque_container_io_resource.ipp',IO+'transparent_container_io_resource.ipp',IO+'opaque_container_input_resource.ipp',IO+'opaque_container_output_resource.ipp',IO+'transparent_container_input_resource.ipp',IO+'transparent_container_output_resource.ipp']
TXT=[IO+'text_input_stream.ipp',IO+'text_output_stream.ipp',IO+'input_stream.ipp',IO+'output_stream.ipp']
GUI=['api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp','api/src/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp','api/src/cmp/desktop_gui/impl/common/common_window.cpp']

p('C01','A file object behaves as one flat byte array with one cursor',
 'For every history of reads, writes, seeks, flushes, position queries and end-of-file queries on an open file, in every access mode and with every buffer capacity including none, each call returns exactly what an unbuffered byte array with a single cursor would return, and after a flush or close the file on disk equals that array. This stays true when reads and writes are freely mixed without a seek between them, and when the operating system splits a transfer into several short ones or interrupts it with a signal.',
 ['histories','configurations','fault_sequences'],'all operation histories x all buffer capacities x all ways the OS may split or interrupt each transfer',
 'The tests open tiny files with the default buffer and do a handful of reads or writes; they never mix reads with writes, cross a buffer boundary, or see a short or interrupted system call.',
 BUF+SEEK+FILE,'One buffer shared by reading and writing, a descriptor offset that lags behind it, and read-ahead that is undone by seeking back; simulated kernel behind open/read/write/lseek.')
p('C02','An in-memory container resource behaves as one flat byte array with one cursor',
 'For every history of reads, writes, seeks, flushes and queries on a container-backed resource (owning or borrowing; input, output or both; any element width; any buffer capacity including none), each call returns what a flat byte array with a single cursor would return, positions given when seeking being in elements and positions reported being in bytes. After a flush the container holds exactly that array: it grows only as far as the furthest byte written, with gaps zero-filled, and never reads or writes outside itself. When growing the container fails for lack of memory the call throws, nothing already accepted is lost or duplicated, and the same history can continue. A copied, moved or assigned resource continues exactly where the original was, with its buffered and pending data, and an owning resource never shares its container with another.',
 ['histories','configurations','fault_sequences'],'all operation histories x element widths x buffer capacities x allocation-failure points',
 'Tests read and write a few short strings unbuffered at the start of the container; none uses buffering with wide elements, overwrites across the end, seeks past the end, or fails an allocation.',
 CTR+BUF+SEEK,'Byte-level cursor over std::basic_string/vector storage with element-unit seeks and resize on write; the failing allocator is the fault.')
p('C03','Accepted output reaches the device exactly once and in order despite faults',
 'Every byte a file or standard-output write reports as accepted reaches the device exactly once, in order and at the right offset, as long as the object stays open and the device eventually recovers; bytes not accepted never reach it. Short writes and signal interruptions are absorbed silently, and when the device refuses data (full disk, I/O error, would-block) the pending bytes are kept and delivered by a later flush, seek, read or write once the fault is gone. An unbuffered resource never reports more bytes written than the device took.',
 ['fault_sequences','histories','configurations'],'all sequences of short, interrupted and failing writes interleaved with all operation histories',
 'No test makes a write short or fail; on a healthy local disk every write is complete and succeeds.',
 [IO+'output_resource.cpp',IO+'io_buffer.cpp']+FILE+STD[1:2],'Write-behind buffer drained by flush, which must keep the undelivered remainder; raw write loop.')
p('C04','A crash leaves a prefix of the accepted writes, at least up to the last flush',
 'If the process dies at any instant, including in the middle of a write that was only partly carried out, the file holds the result of applying some prefix (in bytes) of the accepted writes in the order they were made, never a later write without an earlier one and never bytes that were not written. That prefix includes everything accepted before the last flush, close or repositioning that met no device error, and a new file object opened on the file reads back exactly what is there.',
 ['crash_points','histories','configurations'],'every system-call boundary and every byte within a write as crash point, in every history',
 'Tests never kill the process; all of them close the file normally before looking at it.',
 [IO+'output_resource.cpp',IO+'seekable_output_resource.ipp',IO+'seekable_io_resource.ipp']+FILE,'Order in which the buffer and direct (oversized) writes are issued to the kernel, and flush-before-seek/close.')
p('C05','A failing read never yields wrong data and a retry resumes where it stopped',
 'A read from a file or from standard input that meets device errors, interruptions or short transfers returns a count no larger than requested, places exactly that many correct consecutive bytes of the source at the start of the caller\'s array, writes nothing outside the requested range, and advances the position by exactly that count. Once the fault clears, further reads continue with the next byte, with no gap and no repetition, and a fault-free read returns everything requested up to the end of the file.',
 ['fault_sequences','histories','configurations'],'all placements of read errors, interruptions and short reads in all histories and buffer capacities',
 'No test makes a read fail or return short; the loop that handles short reads is never entered.',
 [IO+'input_resource.cpp',IO+'io_buffer.cpp']+FILE+STD[:1],'Raw read loop, buffer fill and the undo-by-seek of read-ahead.')
p('C06','Standard input yields the same data however it is chunked, without over-waiting',
 'What a program reads from standard input (raw bytes, code points, tokens, lines, numbers) depends only on the byte sequence sent, never on how it is split into chunks, how long each chunk is delayed, or on signal interruptions. A read returns as soon as the bytes it needs have been delivered, without waiting for more (a line read returns once its newline has arrived), and the end of input is reported only after every byte was handed out.',
 ['schedules','fault_sequences','inputs','configurations'],'all chunkings, delays and interruptions of every input byte sequence, for every buffer capacity',
 'Standard input is only exercised by a manual test; terminals and pipes deliver chunks the automated tests never produce.',
 STD[:1]+[IO+'input_resource.cpp']+TXT[:1],'Blocking read of the descriptor into the buffer; a read larger than one chunk has to continue.')
p('C07','Tied output is delivered before input is read, so conversations never deadlock',
 'Whenever a program reads from an input that is tied to an output, everything written to that output before has been handed to the operating system by the time the read waits for or returns data, in order and exactly once. Hence a prompt-and-answer conversation with a peer that only answers what it has received never deadlocks, whatever the buffer capacities, chunk sizes, delays and short writes; standard input is tied to standard output from the start.',
 ['schedules','configurations','fault_sequences'],'all interleavings of program and peer, all chunkings and buffer capacities',
 'Needs a second party whose next move depends on what it has received; no automated test has one.',
 [IO+'input_resource.cpp',IO+'output_resource.cpp']+STD,'The tie between input and output resource, flushed by each read.')
p('C08','Closing, destroying or exiting delivers all pending output exactly once',
 'When a file is closed, reopened or destroyed, when an output stream object is destroyed or flushed, and when the process exits normally after using the standard output and error streams, every byte accepted before has been handed to the device exactly once and in order, with any buffer capacity and with short or interrupted writes. Nothing is delivered afterwards, and moving a file object moves its pending output with it.',
 ['histories','configurations','fault_sequences'],'all histories ending in close, reopen, move, scope exit or process exit',
 'Tests check file contents after an orderly close with the default buffer; process exit, moves and reopening with pending data are not exercised.',
 FILE+[IO+'output_stream.ipp',IO+'output_resource.cpp']+STD,'Destructors of the file and of output streams, static destruction order of the standard streams.')
p('C09','Text written through a stream is read back unchanged in every encoding',
 'Any sequence of valid Unicode text written through a text output stream (as strings of any width, single code points, integers or booleans; UTF-8, UTF-16 or UTF-32; either byte order; with or without a byte order mark) produces exactly the standard encoding of that text, and a text input stream with the matching or BOM-detected settings reads exactly the same code points back (carriage returns, which take part in line-end translation, aside). This holds on files, containers and standard streams, for every buffer capacity and however the transfers are split or interrupted, including code points that straddle buffer and transfer boundaries. A value that is no code point (a surrogate, or beyond U+10FFFF) given to a UTF-8 stream is refused with an exception; nothing of it is written and writing can go on.',
 ['inputs','configurations','fault_sequences'],'all texts x encodings x byte orders x resources x transfer splittings',
 'Tests read five fixed files in one piece; writing UTF-16/32 in the non-native order and sequences straddling a buffer boundary are not covered.',
 TXT+BUF+['api/src/cmp/unicode/impl/impl.cpp'],'Per-code-unit reads and writes with byte-order inversion on top of buffered resources.')
p('C10','Damaged or truncated text ends in a documented error after the intact prefix',
 'When stored or transmitted text is cut off at any byte or has bytes flipped, reading it yields exactly the code points of the intact prefix before anything else, and a sequence cut off by the end of input or an ill-formed UTF-8 or UTF-16 sequence is reported as a documented library exception rather than as text. Reading never crashes, never touches memory out of bounds and always terminates.',
 ['inputs','crash_points','fault_sequences'],'every truncation point and every corruption of every text in every encoding',
 'Tests only decode intact files.',
 [TXT[0],'api/src/cmp/unicode/impl/impl.cpp','api/src/cmp/unicode/exceptions.cpp'],'Decoder state machine driven by short reads at the truncation point.')
p('C11','Binary values survive the round trip in either byte order, or fail cleanly',
 'Any sequence of fundamental values written through a binary data stream appears on the resource as their object representations in the byte order chosen for the stream, and a data input stream set to that byte order reads the same values back, on files, containers and standard streams, for every buffer capacity and transfer splitting. If the data ends inside a value, or the device fails, reading throws the past-the-end exception and leaves the target variable untouched.',
 ['inputs','configurations','fault_sequences','crash_points'],'all value sequences x types x byte orders x truncation points x transfer splittings',
 'Tests write and read a few integers in native order from an intact file.',
 [IO+'data_input_stream.ipp',IO+'data_output_stream.ipp',IO+'input_stream.ipp',IO+'output_stream.ipp','api/src/cmp/io/general.cpp'],'Byte-order inversion in two layers, short-read detection.')
p('C12','Lines and tokens are segmented the same way regardless of buffering and faults',
 'For any text in which carriage returns occur only in front of line feeds, any mixture of reading lines, whitespace-separated tokens, numbers, booleans, single characters and the remaining text consumes the text left to right with nothing lost, repeated or invented: a line ends at (and excludes) the next LF or CRLF, a token is the next maximal run of non-whitespace, and the character that ends it is consumed. The result depends only on the text and the calls, not on resource kind, encoding, buffer capacity or transfer splitting.',
 ['inputs','histories','configurations','fault_sequences'],'all texts x all sequences of extraction calls x configurations x transfer splittings',
 'Tests extract one or two lines or numbers from a fixed file.',
 [TXT[0]]+BUF,'Character-at-a-time extraction loops over is-at-end and buffered reads.')
p('C13','Open semantics, access modes and descriptor ownership are always respected',
 'Opening an existing file never alters it; a missing file is created only if creation was requested; an open succeeds whenever the file is there (or may be created) and its permissions allow the requested access, also for a file the library created itself; and every failed open returns false and leaves a closed object without side effects. Reading a write-only file or writing a read-only file throws the access-mode exception and has no effect on the device. Over any history of opening (also with failures), closing, reopening, moving and destroying file objects, each descriptor obtained is closed exactly once and no operation ever touches a descriptor the object does not own.',
 ['histories','fault_sequences','configurations'],'all open/close/move/destroy histories over several objects, with open failures injected anywhere',
 'Tests open and close single files; leaks, double closes and failed opens are invisible to them.',
 FILE+[II+'impl/unix_like/unix_like_file.hpp'],'Descriptor member and its transfer on move, close-before-reopen, access-mode switch.')
p('C14','A reopened file object keeps nothing of the file it had open before',
 'After a file object is closed or simply opened again, on the same or another path and possibly with another access mode, it behaves exactly like a newly constructed object opened that way: no buffered data, position, end-of-file state or pending output of the earlier file is visible or delivered to the new one, and pending output still goes to the earlier file. This also holds when an open in between fails or the earlier file failed to accept its last data.',
 ['histories','fault_sequences','configurations'],'all sequences of opens on one object with all intermediate histories and faults',
 'No test reuses a file object.',
 FILE+[IO+'io_buffer.cpp'],'Buffer flags, read-ahead amount, remembered path and access mode across open/close.')
p('C15','Separate objects used by separate threads never influence each other',
 'Threads that each work on their own files, container resources and text or data streams obtain exactly the results and leave exactly the files they would have if run alone, under every interleaving of their steps and with transfer faults in any of them, and never use common memory without synchronisation.',
 ['schedules','fault_sequences','histories'],'all interleavings of two to four threads at basic-block granularity',
 'All tests are single-threaded.',
 FILE+BUF+TXT+['api/src/cmp/unicode/formatters.ipp','api/src/cmp/unicode/parsers.ipp'],'Absence of hidden shared mutable state in I/O and in the Unicode, formatting and parsing code underneath it.')
p('C16','A reader follows changes other processes make to the open file',
 'While a file is open, data another process appends becomes readable and is reported by the end-of-file query, even after the end had been reached before; renaming, replacing or unlinking the path, or truncating the file, neither disturbs the open object nor crashes it, and reads never return bytes that were never in the file at that offset. End-of-file queries and seeks relative to the end always refer to the opened file, not to whatever the path currently names.',
 ['schedules','histories','configurations'],'all interleavings of reader operations with appends, truncations, renames and unlinks by another party',
 'Needs a concurrent second writer; tests use static files.',
 FILE+[IO+'input_resource.cpp'],'End-of-file query, buffer refill at end of file, seeks from end.')
p('C17','GUI events reach the right window exactly once, in order, with the right content',
 'Every key press, key release, resize and close request the toolkit delivers to an open window results in exactly one call of the matching handler of the object that currently represents that window, in delivery order, with the matching key (and its name) and kind, and in no call on any other object. This holds while windows are opened, shown, hidden, moved into other objects (by construction or assignment) and closed in any order.',
 ['histories','schedules'],'all histories of window operations interleaved with all event sequences',
 'The GUI package has no automated tests at all.',
 GUI,'Table of native-handle/object pairs maintained by open, move and close; signal callbacks.')
p('C18','Closing obeys the close handler and the event loop ends with the last window',
 'A close request, from the user or from the program, runs the window\'s close handler exactly once and destroys the window if and only if the handler leaves the decision at closing. A closed window receives no further events or updates and can be opened again; the event loop keeps running exactly as long as at least one window exists and returns zero promptly after the last one is gone.',
 ['histories','schedules'],'all sequences of close requests, vetoes, programmatic closes and reopenings',
 'The GUI package has no automated tests at all.',
 GUI,'Close-request callback, event-loop condition, handle reset after destruction.')
p('C19','Window updates report consistent simulated time',
 'Whenever the event loop is idle every open window is updated once per round; each update reports the time since that window\'s previous update (or its opening) and since its opening, so that the deltas are never negative and add up to the total, whatever the clock does between rounds and also after the window was moved into another object or reopened. Pending events are always handled before the next round of updates.',
 ['schedules','histories'],'all clock advance patterns x event arrival patterns x window histories',
 'The GUI package has no automated tests and the real clock cannot be controlled.',
 GUI,'Start and last time stamps per window, carried by moves; idle branch of the event loop.')
p('C20','Handlers may open, close, move and retitle windows without corrupting the loop',
 'From inside any update or event handler a program may open new windows, close, veto, hide, show, retitle or move any window including the one being handled, and the loop continues correctly: no handler runs on a closed or moved-from object, no remaining window misses its events, and nothing is accessed after it was freed.',
 ['schedules','histories'],'all handler-issued operations at all points of all histories',
 'The GUI package has no automated tests at all.',
 GUI,'Iteration over the window table while handlers change it.')
p('C21','Numbers and booleans written to a text stream are read back as the same values',
 'Every integer of every integer type including its extremes, every boolean, and every finite floating-point number whose integral part fits in 64 bits (negative ones included, up to rounding), written to a text stream and followed by white space, is read back by the matching text input stream as the same value. The same holds when it is first formatted into a string of any width with any integer format (radix 2 to 36, sign policy, thousands separators), any boolean format whose two words differ and contain no white space, or any floating-point format without thousands separators (to within the places it keeps), written as text, read back as a word and parsed with that format; integers look exactly as the format says, and fractions have the number of places it says. This holds in every encoding and byte order, on files, containers and standard streams, for every buffer capacity and however the transfers are split or interrupted.',
 ['inputs','configurations','fault_sequences'],'all values x formats x encodings x resources x transfer splittings',
 'Tests format and parse a few dozen fixed values and never pass them through a stream with a small buffer or split transfers.',
 TXT+['api/src/cmp/unicode/formatters.ipp','api/src/cmp/unicode/parsers.ipp','api/src/cmp/unicode/parsers.cpp','api/src/cmp/unicode/formats.cpp'],'Formatting operators, word extraction, parsers and formatters with default and given formats.')
p('C22','Words that are no value of the requested kind are refused, all others are read',
 'Reading a boolean, an integer or a floating-point number from a text stream, or parsing a word with a given format, returns a value only if the word conforms to the format: an optional sign that comes first (a minus only for signed types, a plus only if the format shows signs), digits of the radix in either case, thousands separators exactly where the format puts them, at most one radix character followed by digits, or one of the two boolean words. Every other word, however it was damaged, is refused with parse_failed, and the next extraction starts at the next word. Words that conform give the value they denote. (Not promised: numbers that do not fit the type, a missing sign where the format always shows one, an empty part beside the radix character, other numbers of places than the format says.) This holds in every encoding and byte order, on files, containers and standard input, for every buffer capacity and however the transfers are split or interrupted.',
 ['inputs','configurations','fault_sequences'],'all words x types x formats x encodings x resources x transfer splittings',
 'Tests parse a few malformed words; the combinations of sign, separators, radix and position are not enumerable by hand.',
 TXT+['api/src/cmp/unicode/parsers.ipp','api/src/cmp/unicode/parsers.cpp','api/src/cmp/unicode/formats.cpp'],'Parsers called by the extraction operators of text streams.')
p('C23','A window keeps the title, size, mode and visibility it was given',
 'The toolkit window of an open window object has the title it was opened with or last given, the size it was opened with (or the user resized it to), is maximized, minimized or standard as it was opened, and is visible exactly if it was shown and not hidden since; get_title returns that title. Opening a window that is open is refused and changes nothing; reopening a closed one gives it the new title, size and mode and none of the old ones. All this survives moving the object, events, and operations on other windows, at top level and from inside handlers.',
 ['histories','schedules'],'all histories of window operations interleaved with all event sequences',
 'The GUI package has no automated tests at all.',
 GUI,'Calls to the toolkit in open, show, hide and set_title on the handle the object represents now.')
p('C24','A test module runs every test once and reports truthfully, even when a test dies',
 'Each run of a test module executes every registered test exactly once and in the order of registration, and returns exactly the number of tests of that run that failed, whether or not standard output accepts the report, and also when it is run again. The report numbers and names every test with its result and number of successful stages, totals the successes and failures and lists each failed test with the stage it failed on; the announcement of a test and the stages it completed are delivered before its code goes on, so that they are known even when the process dies inside it. Dummies record each construction, copy, move and destruction as one message and keep their value through copies and moves; messages are handed out in order, once, and none is left over for the next test.',
 ['histories','crash_points','fault_sequences'],'all test modules x all results x all points at which the process dies or the console stops taking output',
 'The tests are written with the test module, but no test checks what it reports; none dies, and the console always works.',
 ['api/src/cmp/core/test_module.ipp','api/include/cmp/core/test_module.hpp'],'Counting, message queue and flushes to std::cout; the console behind std::cout is the seam.')
# not applicable
UN='api/src/cmp/unicode/'
p('N01','Unicode conversion, iteration and text algorithms are correct for all strings',
 'Converting, iterating, comparing, searching and trimming Unicode strings gives the result the Unicode standard prescribes for every input.',
 ['inputs'],'all strings','Tests sample a few strings.',[UN+'algorithms.ipp',UN+'by_code_point.cpp'],'Pure functions of their arguments.')
p('N03','The Windows and macOS back ends give the same guarantees',
 'Files, standard streams and windows on Windows and macOS satisfy the properties listed for the Unix-like and GTK back ends.',
 ['histories','fault_sequences'],'as C01-C24','Not compiled on this platform.',[IO+'impl/windows/windows_file.cpp','api/src/cmp/desktop_gui/impl/windows/windows_window.cpp'],'Other platform back ends.')
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')

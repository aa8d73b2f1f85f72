#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that it stays schema-valid)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    if hook is not None: a['hook_needed'] = hook
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

p('C01', 'Garbage collection never changes what a program does',
  'Whatever a program computes, prints, throws or stores is the same no matter at which of the points where a collection may happen one actually happens. In particular a value of any type that the program can still reach - through variables, closures, pending calls, pending exception handlers, partially evaluated arguments, containers, views, code or classes - is never freed, reused or altered by a collection.',
  ['programs', 'schedules'], 'for every program and every choice of the instants at which the collector runs',
  'Collections only start when a heap is within 128 objects of its limit (hundreds of thousands of allocations), so the test suite sees a handful of collections at fixed places; which values are live only in registers, on the value stack or in a handler at a collection point depends on the schedule.',
  ['lib/garbage-collection.c', 'lib/vm.c', 'lib/allocator.c', 'lib/closure.c', 'lib/nujel-private.h'],
  [('mark phase from class table, native functions and the running thread', 'lib/garbage-collection.c: lRootsMark, lThreadGCMark and the per-type mark functions'),
   ('collection points in jumps, calls, eval and handler entry', 'lib/vm.c: lGarbageCollectIfNecessary in lBytecodeEval'),
   ('sweep and free lists', 'lib/garbage-collection.c: lGCSweep, *Free; lib/allocator.c: *AllocRaw')],
  observe=['program output', 'heap state around every collection'], hook='NUJEL_SIM: the simulator decides at each collection point whether to collect')
p('C02', 'Unreachable memory is reclaimed, exactly once, along with what it owns',
  'After a collection every object the program can no longer reach is available for allocation again, exactly once, and the allocation accounting agrees with the heap; native memory lives exactly as long as the value that owns it. A program whose live data is bounded therefore runs forever in bounded memory, however much garbage it produces and whatever mix of types, failed operations and caught errors produced it.',
  ['programs', 'histories', 'schedules'], 'for every history of allocation, mutation, resizing, failure and collection',
  'The tests run short programs and never look at what a collection frees; a leak, a double free or a wrong count shows only over long histories or at exhaustion.',
  ['lib/garbage-collection.c', 'lib/allocator.c', 'lib/buffer.c', 'lib/array.c', 'lib/symbol.c', 'lib/reader.c', 'lib/vm.c'],
  [('sweep frees what was not marked and releases owned memory', 'lib/garbage-collection.c: lGCSweep, lBufferFree, lArrayFree, lBytecodeArrayFree'),
   ('allocation accounting that triggers collections', 'lib/allocator.c: *Active, lGCShouldRunSoon'),
   ('resizing of native memory', 'lib/buffer.c: lnmBufferLengthSet; lib/array.c: lnmArrayLengthSet')],
  observe=['heap state after every collection', 'native allocation table', 'whether long-running programs survive'], hook='NUJEL_SIM')
p('C03', 'Exceptions reach the innermost handler and leave the program state intact',
  'When an operation fails or a value is thrown, control reaches the innermost enclosing handler with the thrown value (as a list: a value that is not one arrives as the only element of one, and a trace of the calls may follow), the work done before the failure stays done, nothing after it inside the protected body runs, and evaluation continues after the protected expression exactly as if the handler had produced its value - wherever that expression stands, however deeply calls, handlers, loops and rethrows nest, and whether the failure comes from the program, a runtime check or a failing system operation. An exception nobody handles is reported and ends the evaluation.',
  ['programs', 'fault_sequences'], 'for every program and every choice of which operations fail, at every call depth and operand position',
  'The tests contain a few dozen try expressions, all in tail or statement position, and no system operation ever fails in them.',
  ['lib/vm.c', 'lib/closure.c', 'lib/val.c', 'stdlib/core/flow.nuj', 'stdlib/compiler/compiler.nuj'],
  [('handler frames and unwinding', 'lib/vm.c: lopTry, lopThrow/throwException, lopRet'),
   ('saved value-stack depth per frame', 'lib/vm.c: lStoreInClosure, lRestoreFromClosure'),
   ('typed errors of native procedures', 'lib/val.c: lValException*; lib/nujel.h: req* checks')],
  observe=['program output and trace of effects'])
p('C04', 'A file write that reports success is on disk completely; a failed one says so',
  'When writing a whole value to a file reports success, the file then holds exactly those bytes, whether the runtime goes on, exits or dies right afterwards; when the system refuses any part of opening, writing or closing - disk full, I/O error, permission, too many open files - the call reports failure and does not leave the handle open. Other files are not touched, and a later successful write of the same path fully replaces what was there.',
  ['fault_sequences', 'crash_points', 'inputs'], 'for every content and size, every failing or short system call, every crash point and every sequence of writes',
  'Tests write a few small files to a healthy disk; short writes, errors that only surface when the file is closed, full disks and death between calls never occur.',
  ['binlib/io.nuj', 'bin/port.c', 'stdlib_modules/net.nuj'],
  [('whole-file write', 'binlib/io.nuj: spit, file/write, file/copy'),
   ('handle operations', 'bin/port.c: lnfFileOpenOutput, lnfFileWriteAst, lnfFileClose, lnfFileFlush')],
  observe=['return value', 'file contents after exit or crash', 'number of open handles'])
p('C05', 'Reading a file returns all of its bytes or reports failure, never anything else',
  'Reading a whole file yields exactly the bytes it held, as string or as buffer, for every content and size and however the system portions the data; if the file is missing, unreadable, shrinks while being read, or reading fails part way, the caller learns so and never receives truncated, padded or stale data as if it were the file. Either way the handle is closed again.',
  ['inputs', 'fault_sequences'], 'for every content, every partitioning of the reads and every failing system call',
  'Tests read small existing files from a disk that always answers completely.',
  ['binlib/io.nuj', 'bin/port.c', 'bin/misc.c', 'lib/buffer.c'],
  [('whole-file read', 'binlib/io.nuj: slurp/buffer, slurp, file/read, file/copy'),
   ('read loop', 'bin/port.c: lnfFileReadAst'), ('buffer to string conversion', 'lib/buffer.c: lnfBufferToString')],
  observe=['returned value', 'number of open handles'])
p('C06', 'Running a command returns exactly its output and exit code',
  'Running an external command hands the given text to the shell unchanged, waits for it, and returns its exit status together with every byte it wrote, in order, however the output is portioned and however long it is. If the command cannot be started or its output cannot be read, that is reported and nothing partial is passed off as its output; in no case is memory or the pipe leaked.',
  ['inputs', 'schedules', 'fault_sequences'], 'for every output size and partitioning of the pipe reads, every exit status, and every failing call',
  'The tests run a couple of commands with one-line outputs.',
  ['bin/io.c', 'binlib/io.nuj'], [('popen read loop and buffer growth', 'bin/io.c: lnfPopen'), ('trimmed variant', 'binlib/io.nuj: popen/trim')],
  observe=['returned pair', 'pipe and native memory accounting'])
p('C07', 'An HTTP request returns the response the server sent, or fails cleanly',
  'An HTTP GET sends one well-formed request for the given host and path with the given header fields and returns the status, header fields and body exactly as the server sent them, however the response is split into segments and whatever bytes the body holds. If the host does not resolve, an address does not answer or the socket cannot be set up, the remaining addresses are tried and otherwise the failure is reported; a refused, reset, truncated or malformed exchange is never reported as a complete response, never makes the client spin or hang by itself, and never leaks the connection.',
  ['schedules', 'fault_sequences', 'inputs'], 'for every response, segmentation, address list, and connection or transfer failure',
  'No test opens a connection.',
  ['stdlib_modules/net/http.nuj', 'stdlib_modules/net.nuj', 'bin/net.c', 'bin/port.c'],
  [('address loop', 'bin/net.c: lnfSocketConect'), ('request and response parsing', 'stdlib_modules/net/http.nuj: req*, get'), ('download to a file', 'stdlib_modules/net.nuj: get, download')],
  observe=['returned tree', 'request bytes at the server', 'open sockets'])
p('C08', 'A Gopher request returns the document the server sent, or fails cleanly',
  'A Gopher fetch connects to the host and port the URL names, sends the selector followed by one line end, and returns the text exactly as sent, or for menus exactly the listed items with their type, text, selector, host and port, however the response is segmented. Unresolvable hosts, refused or broken connections are reported and leak nothing.',
  ['schedules', 'fault_sequences', 'inputs'], 'for every URL, menu, segmentation and connection failure',
  'No test opens a connection.',
  ['stdlib_modules/net/gopher.nuj', 'bin/net.c', 'bin/port.c'],
  [('URL and menu parsing', 'stdlib_modules/net/gopher.nuj: parse-url, get*, parse-gopher-map, get')],
  observe=['returned value', 'request bytes', 'open sockets'])
p('C09', 'An interactive session evaluates each line once and survives every error',
  'A session evaluates each complete input line exactly once and in order, prints its result, keeps definitions for later lines, joins a form whose brackets are closed on a later line, reports an erroneous line and goes on with the next, and ends when input ends, with status zero. This does not depend on how the input bytes arrive or on when collections happen.',
  ['histories', 'schedules', 'inputs'], 'for every sequence of valid, failing and unfinished lines and every way the bytes arrive',
  'The interactive loop is not exercised by the tests at all.',
  ['stdlib_modules/repl.nuj', 'binlib/tiny-repl.nuj', 'stdlib/string/portng.nuj', 'binlib/init.nuj'],
  [('session loop', 'stdlib_modules/repl.nuj: main, read-cmd, cmd/raw; binlib/tiny-repl.nuj'), ('line input', 'stdlib/string/portng.nuj: read-line, read-line/raw, readline')],
  observe=['session transcript', 'exit status'])
p('C10', 'Terminal input decodes the same however it arrives; the terminal is restored',
  'The terminal layer turns a stream of key bytes and escape sequences into the same sequence of key and character events, in order and each exactly once, however the bytes are split over reads and however long they take to arrive. A program that switched the terminal to raw mode leaves it in its original state however it exits, even if querying or setting it was repeated.',
  ['schedules', 'inputs'], 'for every key sequence, every split and timing of its bytes, and every way to end the program',
  'No test drives a terminal.',
  ['stdlib_modules/term/TermApp.nuj', 'stdlib_modules/term/VT100.nuj', 'bin/port.c'],
  [('input state machine', 'stdlib_modules/term/TermApp.nuj: parse-input-buffer, parse-input-key, pop-input-buffer!'), ('raw mode', 'bin/port.c: lnfFileRaw, disableRawMode')],
  observe=['event sequence', 'terminal attributes after exit'])
p('C11', 'A serialized value loads back as an equal value, in this or a later process',
  'Serialising any data value and loading it back - in the same process, or in a fresh one after the bytes went through a file - yields an equal value of the same types with the same sharing, cycles and mutability, independent of the original; serialised functions behave as the originals did. Loading works whenever collections happen, during or after, and the loaded value stays valid after the bytes it came from are gone.',
  ['inputs', 'histories', 'schedules', 'crash_points'], 'for every value graph, and every interleaving of serialising, collecting, restarting and loading',
  'The tests serialise a handful of constants and compare printed forms in the same process.',
  ['lib/imageWriter.c', 'lib/imageReader.c', 'bin/main.c'],
  [('image writer with identity map', 'lib/imageWriter.c: ctxAdd*, writeMapGet/Set'), ('image reader with identity map', 'lib/imageReader.c: read*, readMapGet/Set'), ('booting from an image file', 'bin/main.c: createRootClosureFromExternalImage')],
  observe=['loaded value', 'heap and native memory'])
p('C12', 'Running out of memory never yields a wrong result',
  'If an allocation fails or a heap is exhausted at any point, the program either gets an exception or the runtime ends with a non-zero status; it never continues with corrupted or silently missing data, never crashes, and everything it printed before that is what it would have printed anyway.',
  ['crash_points', 'programs', 'configurations'], 'for every program and every allocation that fails',
  'Allocation never fails while the tests run, and no test fills a heap.',
  ['lib/allocator.c', 'lib/buffer.c', 'lib/array.c', 'lib/vm.c', 'lib/reader.c', 'lib/imageWriter.c', 'lib/imageReader.c', 'bin/io.c'],
  [('allocation checks', 'lib/allocator.c: lBytecodeArrayAlloc, lArrayAlloc, lBufferAlloc, *AllocRaw; lib/vm.c: lBytecodeEnsureSufficientStack'), ('exceptions on failed resizes', 'lib/buffer.c: lnmBufferLengthSet; lib/array.c')],
  observe=['exit status', 'output prefix'])
p('C13', 'Equal names are the same symbol and different names never are',
  'Two symbols or keywords are identical exactly when their names are equal, at any time: across collections that drop unused names, re-creation of dropped names, reading, converting and generating symbols, and any number of distinct names created over the life of the program. Variables, tree keys and methods therefore always find what was stored under that name.',
  ['histories', 'schedules'], 'for every history of creating, dropping and re-creating names, and every collection schedule',
  'Tests use a small fixed set of names in a process too short for names to be dropped and re-created.',
  ['lib/symbol.c', 'lib/garbage-collection.c', 'lib/tree.c'],
  [('hash index with deleted slots', 'lib/symbol.c: lSymbolIndexSlot, lSymS, lSymbolFree'), ('dropping unused names', 'lib/garbage-collection.c: lGCSweep')],
  observe=['identity comparisons and lookups of the program'], hook='NUJEL_SIM')
p('C14', 'Time and randomness depend only on the clock and the seed',
  'The wall clock procedures report the system time in their documented units and stay consistent with each other whatever the clock does, including jumps; elapsed-time measurement reports the time that passed. A generator started from a seed produces the same sequence always; an unseeded one depends only on the clock, and bounded results stay within their bound.',
  ['schedules', 'inputs'], 'for every clock behaviour and every seed',
  'Tests cannot control the clock and check a few seeds.',
  ['lib/compatibility.c', 'lib/core-operators.c', 'lib/arithmetic.c', 'stdlib_modules/random.nuj', 'stdlib/core/core.nuj'],
  [('clock access', 'lib/compatibility.c: getMSecs; time procedures'), ('generator', 'stdlib_modules/random.nuj')],
  observe=['returned values against the simulated clock'])
p('C15', 'A module is loaded once, whole, and a failed load can be retried',
  'Importing a module evaluates its source exactly once per process however many importers ask for it and by whichever path, and every importer sees the same exported values; names that are not exported stay private. If loading fails - missing or unreadable file, unreadable source, an error while evaluating - the importer gets an error, nothing half-loaded is kept, and a later attempt loads the then current source.',
  ['histories', 'fault_sequences', 'inputs'], 'for every module graph, import order and every failing file access or module body, followed by retries',
  'Tests import only modules that are compiled in and that always load.',
  ['stdlib/core/module.nuj', 'binlib/io.nuj', 'binlib/init.nuj'],
  [('cache, store and external loaders', 'stdlib/core/module.nuj: module/load*, module/import, module/insert'), ('file-system loader', 'binlib/io.nuj: module/loader/filesystem'), ('path resolution', 'stdlib/core/module.nuj: module/resolve-string')],
  observe=['effects of module bodies', 'imported values', 'errors'])
p('C16', 'The editor keeps exactly the text the keystrokes describe',
  'After any sequence of keystrokes the editor buffer holds exactly the text that those insertions, deletions, kills, yanks and cursor movements describe, the cursor stays inside the text, and what the screen shows is that text - however the key bytes arrive and whenever collections happen.',
  ['histories', 'schedules'], 'for every initial file, every key sequence and every way its bytes arrive',
  'The tests exercise single buffer operations on small fixed texts; no key sequence and no screen.',
  ['stdlib_modules/app/termed.nuj', 'stdlib_modules/app/termed/buffer.nuj', 'stdlib_modules/term/TermApp.nuj', 'stdlib_modules/term/VT100.nuj'],
  [('text buffer', 'stdlib_modules/app/termed/buffer.nuj'), ('key dispatch', 'stdlib_modules/app/termed.nuj: read-input, handle-key-down'), ('screen diffing', 'stdlib_modules/term/TermApp.nuj: flip, draw-char, draw-text')],
  observe=['buffer contents', 'screen reconstructed from the output bytes'])
p('C17', 'File-system queries and changes report what really happened',
  'Creating, removing and listing directories, removing files, changing directory and querying file attributes act on exactly the named path and report success exactly when the system did it (a directory that cannot be opened lists as nothing, #nil); listings, including recursive ones, contain every entry exactly once under its right path and nothing else, in whatever order the system returns them. A failing call changes nothing else, is reported, and leaks no directory handle.',
  ['histories', 'fault_sequences', 'inputs'], 'for every directory tree, enumeration order, sequence of operations and failing call',
  'Tests list a couple of directories of the repository.',
  ['bin/io.c', 'bin/misc.c', 'binlib/io.nuj'],
  [('directory procedures', 'bin/io.c: lnfDirectoryRead, lnfDirectoryMake, lnfDirectoryRemove, lnfChangeDirectory, lnfFileStat, lnfFileRemove'), ('recursive listing', 'binlib/io.nuj: directory/read-recursive, directory/read-relative, file/file?, file/dir?')],
  observe=['returned values', 'file system afterwards'])
p('C18', 'Building the bootstrap image is reproducible under any collection schedule',
  'Compiling the standard library into an image produces a working runtime image whatever the collection schedule and memory layout: the image differs between schedules in nothing a program can observe, and a runtime booted from it rebuilds an equivalent image again.',
  ['schedules', 'configurations'], 'for every collection schedule during the build',
  'The tests use the one image that one build happened to produce.',
  ['tools/build-image.nuj', 'lib/imageWriter.c', 'stdlib/compiler/compiler.nuj', 'stdlib/compiler/backend.nuj'],
  [('compile and serialise the library', 'tools/build-image.nuj'), ('assembler', 'stdlib/compiler/backend.nuj')],
  observe=['canonical form of the built image', 'behaviour of a runtime booted from it'], hook='NUJEL_SIM')
p('C19', 'Ports read, write and position like the byte stream they stand for',
  'A sequence of reads, writes, seeks, position queries, flushes and end-of-file tests on open files and string ports behaves as on a plain sequence of bytes with a position, with every transferred byte in place and every count right, however the system portions the transfers. A failing transfer is reported as an error and never as data, an operation on a bad handle or a too small buffer is refused, and flushed data survives the death of the process.',
  ['histories', 'fault_sequences', 'crash_points'], 'for every sequence of port operations, every partitioning of transfers and every failing call',
  'Tests use string ports and single whole-file transfers.',
  ['bin/port.c', 'stdlib/string/portng.nuj'],
  [('native handle operations', 'bin/port.c'), ('port classes', 'stdlib/string/portng.nuj: OutputPort, StringOutputPort, InputPort, cat, with-string-port')],
  observe=['returned values', 'file contents'])
p('C20', 'Line input returns every line exactly, however it arrives',
  'Reading lines from an input returns each line exactly as sent, without its terminator, of any length, in order, then the unterminated rest if there is one, then end of input; bytes are neither lost, duplicated nor invented however the input is split over reads and however long it takes to arrive. A read error is reported as an error.',
  ['schedules', 'inputs', 'fault_sequences'], 'for every input, every split and timing of its bytes, and every failing read',
  'No test reads from standard input.',
  ['stdlib/string/portng.nuj', 'bin/port.c'],
  [('line reader', 'stdlib/string/portng.nuj: read-line/raw, read-line, readline'), ('character input', 'stdlib/string/portng.nuj: InputPort char-read'), ('read loop', 'bin/port.c: lnfFileReadAst')],
  observe=['returned lines'])
p('C21', 'Scripts run their arguments in order and report their outcome in the exit status',
  'Started with a script, a module or expressions on the command line, the runtime evaluates what it was given in order with the given arguments and with the environment it was started with visible in System/Environment, and ends with the status the program asked for, zero after success and non-zero after a script that failed or could not be loaded; everything printed before the end has reached standard output. A closed or failing output does not make it hang or crash.',
  ['inputs', 'fault_sequences', 'crash_points'], 'for every command line, script outcome and failing system call',
  'The test driver looks only at a fixed set of scripts that succeed.',
  ['binlib/init.nuj', 'bin/main.c', 'bin/environment.c', 'bin/io.c', 'binlib/io.nuj', 'stdlib/core/module.nuj'],
  [('argument interpretation', 'binlib/init.nuj: init'), ('environment', 'bin/environment.c: lRedefineEnvironment'), ('exit', 'bin/io.c: lnfExit'), ('module main', 'stdlib/core/module.nuj: module/main; binlib/io.nuj: file/eval-module')],
  observe=['exit status', 'standard output and error'])

p('C22', 'The Gopher browser shows what the servers sent and follows links and history',
  'Whenever the Gopher browser waits for a key its screen shows the page the keys so far lead to - the lines the server sent, the selected link, the position and the address - and it has made exactly the requests those pages need, each to the host, port and selector of the link followed. A page that cannot be loaded is reported in its place and browsing goes on; leaving restores the terminal and leaves no connection open.',
  ['inputs', 'schedules', 'fault_sequences'], 'for every set of pages, key history, arrival of keys and data, and sequence of network failures',
  'No test runs the browser: it needs servers, a terminal and keys in time.',
  ['stdlib_modules/app/gopher.nuj', 'stdlib_modules/net/gopher.nuj', 'stdlib_modules/term/VT100.nuj', 'bin/net.c', 'bin/port.c'],
  [('page state and history', 'stdlib_modules/app/gopher.nuj: follow-link, history-back, next-line, previous-line, center-buffer'), ('loading', 'stdlib_modules/app/gopher.nuj: get-data; stdlib_modules/net/gopher.nuj: get'), ('connections', 'bin/net.c: lnfSocketConect')],
  observe=['screen', 'requests', 'terminal attributes', 'open sockets'])

def n(id, title, statement, text, why, files, mech):
    p(id, title, statement, ['inputs'], text, why, files, mech)
n('N01', 'Printing a value and reading it back gives an equal value',
  'Every readable data value, written in its external form and read again, gives an equal value of the same type.', 'for every data value',
  'Tests check a fixed list of literals.', ['lib/reader.c', 'stdlib/string/printer.nuj'], [('reader', 'lib/reader.c'), ('printer', 'stdlib/string/printer.nuj')])
n('N02', 'Reading arbitrary text yields a value or an error',
  'For every byte string the reader returns a value or a read error and never crashes or reads past the text.', 'for every byte string',
  'Tests read well-formed sources and a few malformed ones.', ['lib/reader.c'], [('recursive descent reader', 'lib/reader.c: lReadValue and helpers')])
n('N03', 'Compiled code means what the source says',
  'Macro expansion, constant folding and code generation preserve the meaning of every program.', 'for every program',
  'Tests sample expressions.', ['stdlib/compiler/compiler.nuj', 'stdlib/compiler/backend.nuj', 'lib/vm.c'], [('compiler', 'stdlib/compiler/compiler.nuj'), ('assembler', 'stdlib/compiler/backend.nuj')])
n('N04', 'Arithmetic and comparison follow their definitions for all operands',
  'Integer, float and mixed arithmetic, comparison and bit operations give the mathematically defined result or a typed error for all operands.', 'for every operand combination',
  'Tests sample operands.', ['lib/arithmetic.c', 'lib/vm.c', 'stdlib/math/math.nuj'], [('operators', 'lib/arithmetic.c, lib/vm.c')])
n('N05', 'Trees behave as ordered maps and stay balanced',
  'After any sequence of insertions, updates and lookups a tree holds exactly the last value stored under each key and its height stays logarithmic.', 'for every operation sequence',
  'Tests use small trees.', ['lib/tree.c'], [('balanced insertion', 'lib/tree.c: lTreeInsert, lTreeBalance')])
n('N06', 'String and collection procedures agree with their definitions',
  'Searching, cutting, splitting, joining, mapping, filtering, sorting and formatting return the value their documentation defines for all arguments.', 'for every argument',
  'Tests sample arguments.', ['lib/string.c', 'lib/array.c', 'stdlib/collections', 'stdlib/string'], [('library procedures', 'lib/string.c, lib/buffer.c, stdlib/')])
n('N07', 'Checksums and serialisation formats match their specifications',
  'MD5, CRC32, CRC32C, Adler32 and JSON output are the standard ones for every input.', 'for every input',
  'Tests use published vectors.', ['stdlib_modules/crypto', 'stdlib_modules/serialization'], [('implementations', 'stdlib_modules/crypto/*.nuj, stdlib_modules/serialization/json.nuj')])
n('N08', 'Numeric and memory views convert exactly within their bounds',
  'Typed views over buffers store and load exactly the representable value at exactly the addressed bytes and refuse every access outside.', 'for every view type, index and value',
  'Tests sample indices and values.', ['lib/buffer.c'], [('typed access', 'lib/buffer.c: lBufferViewRef, lBufferViewSet')])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')

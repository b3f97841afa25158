NOTES='Contracts: specs/*.gvc. Verifier: govc/. Bounded replay harnesses: harness/. Findings: KNOWN_FINDINGS.txt. See DESIGN.md.'
PROPS=[
dict(id='C01',title='Integers are written as their exact decimal numeral',
 statement='Writing an integer of any width and signedness in JSON appends to the buffer exactly the canonical base-10 numeral of that value (a minus sign for negative values, no leading zeros) and leaves the bytes already in the buffer unchanged.',
 over=['inputs'],quant='every value of int8..int64, uint8..uint64, int, uint and every prior buffer content',
 why='Tests sample a handful of small integers per width; the digit-group code has a different path per magnitude, and two of those paths were wrong at the pinned commit without any test failing.',
 files=['msgfmt/jsonfmt/encoder_int.go'],mech=[('three-digit table','msgfmt/jsonfmt/encoder_int.go init / digits'),('WriteUint8..WriteUint64, WriteInt8..WriteInt64','msgfmt/jsonfmt/encoder_int.go')],
 note='Every Write(U)IntN function is verified for all inputs against "prefix unchanged and suffix is the numeral of the value" (numeral defined by digit value recurrence); the digit table is proved by complete enumeration of the initialised table.'),
dict(id='C02',title='Strings are written as the JSON literal that denotes them',
 statement='Writing a string in JSON appends one JSON string literal: a quote, each byte of the string in order (quote, backslash and control bytes escaped, every other byte unchanged), and a closing quote. Nothing is dropped, reordered or added, and a valid UTF-8 string decodes back to itself.',
 over=['inputs'],quant='every byte string and every prior buffer content',
 why='Tests use about ten strings; the fast path, the slow path and the flush of pending plain bytes interact only for particular positions of escapes.',
 files=['msgfmt/jsonfmt/encoder_str.go'],mech=[('fast path then slow path with pending run','msgfmt/jsonfmt/encoder_str.go WriteString, writeStringSlowPath'),('safeSet table','msgfmt/jsonfmt/encoder_str.go')],
 note='WriteString is verified for all strings: result == prefix + literal(str), with inductive loop invariants for both loops.'),
dict(id='C03',title='Byte slices are written as an unambiguous escaped JSON literal',
 statement='Writing a byte slice in JSON appends one JSON string literal in which every byte of the slice appears in order, plain when printable ASCII and otherwise as its defined escape (two hex digits for control and non-ASCII bytes). No byte is dropped, reordered or added.',
 over=['inputs'],quant='every byte slice and every prior buffer content',
 why='Tests use a few slices; dropped bytes appear only for particular positions of non-ASCII bytes, as two defects at the pinned commit showed.',
 files=['msgfmt/jsonfmt/encoder_bytes.go'],mech=[('fast path then slow path with pending run','msgfmt/jsonfmt/encoder_bytes.go WriteBytes, writeBytesSlowPath')],
 note='WriteBytes is verified for all slices: result == prefix + literal(bytes), with inductive loop invariants for both loops.'),
dict(id='C04',title='Floats are written as JSON numbers accurate to six fraction digits',
 statement='Writing a float with WriteFloat64Lossy or WriteFloat32Lossy leaves the bytes before it as they were and appends one JSON number: for magnitudes up to 0x4ffffff, the canonical integer part, and, if the six-digit fraction is not zero, a point and one to six fraction digits without trailing zeros, off from the value by at most 0.53e-6, with a minus sign exactly if the value is below zero. Larger magnitudes, and every value with WriteFloat64 and WriteFloat32, are written as the shortest number that reads back as the value. NaN and infinities are written as null.',
 over=['inputs'],quant='every float64 and float32 and every prior buffer content',
 why='Tests write a handful of floats; the padding, trimming, rounding and range limits fail only for particular digit patterns, and null for NaN was missing at the pinned commit.',
 files=['msgfmt/jsonfmt/encoder_float.go','msgfmt/jsonfmt/encoder_int.go'],mech=[('scaled integer, zero padding and trimming','msgfmt/jsonfmt/encoder_float.go WriteFloat64Lossy, WriteFloat32Lossy'),('shortest form','msgfmt/jsonfmt/encoder_float.go WriteFloat64, WriteFloat32')],
 note='All five functions are proved for all inputs over floats modelled as reals with a rounding function of bounded relative error. strconv.FormatFloat is trusted; math.IsNaN/IsInf are uninterpreted.'),
dict(id='C05',title='The JSON of a composite value is made of the JSON of its parts in order',
 statement='Encoding a value of any type in JSON (by MarshalToString or the encoder of its type, also after other text in the buffer) leaves the bytes before it as they were and appends one JSON text for it: arrays and slices as the texts of their elements in order, a nil slice as []; structs as the named texts of the fields that are exported, not functions or channels and not tagged "-", in order, under their json tag name or field name; maps as every entry once with a quoted key, nil maps as null; pointers and interfaces as what they refer to or null; errors as their quoted text, json.Marshalers as what they return; values that can not be encoded as a quoted message. Types that contain themselves are encoded too. Map keys are plain strings, byte slices, numbers, booleans, pointers or interfaces of these.',
 over=['inputs'],quant='every type built from the kinds of Go, every value of it and every prior buffer content',
 why='Tests encode a few dozen fixed values; separators, nil values, pointer-shaped values in interfaces and recursive types interact, and seven defects existed at the pinned commit (every map crashed on go 1.18 and later).',
 files=['msgfmt/jsonfmt/encoder.go','msgfmt/jsonfmt/encoder_array.go','msgfmt/jsonfmt/encoder_slice.go','msgfmt/jsonfmt/encoder_stuct.go','msgfmt/jsonfmt/encoder_map.go','msgfmt/jsonfmt/encoder_pointer.go','msgfmt/jsonfmt/encoder_dynamic.go','msgfmt/jsonfmt/encoder_error.go','reflect2/unsafe_map.go'],mech=[('element loops','msgfmt/jsonfmt/encoder_array.go, encoder_slice.go, encoder_stuct.go, encoder_map.go'),('encoder of a type','msgfmt/jsonfmt/encoder.go createEncoderOf, encoderOfStruct, getFieldName'),('dynamic values','msgfmt/jsonfmt/encoder_dynamic.go, encoder.go onePtrInterfaceEncoder')],
 note='The Encode methods, createEncoderOf, encoderOfStruct and getFieldName are proved for all inputs. Trusted: reflect2 types and the runtime map iterator (enumerates each entry once), the encoder cache. The composition over real types is checked by bounded comparison with an independent oracle on each run.'),
dict(id='C07',title='Integer readers return the exact numeral value or an overflow error',
 statement='Reading an integer from a source consumes the longest run of decimal digits there (after one leading minus sign for the signed readers, which are called with at least one byte available) and returns exactly the value of that numeral, leaving the source just after it. If the value does not fit the width, 0 is returned and an error other than io.EOF is left on the source. This holds for every digit count and however the text is split into reads.',
 over=['inputs','histories'],quant='every text, every position of a signed or unsigned numeral in it, every buffer size and division of the text into reads, every value in and out of range',
 why='Tests read a few short literals from strings; overflow depends on the exact value and refilling on where the buffer ends inside the numeral. Three overflow defects existed at the pinned commit.',
 files=['parse/read/int.go'],mech=[('digit loop with overflow test','parse/read/int.go Uint64'),('sign and range checks','parse/read/int.go Int32, Int64, Int')],
 note='read.Uint64, Int32, Int64 and Int are proved against the numeral value of the longest digit run, for all inputs and all divisions into reads; the io.Reader contract is assumed. Lookahead bytes kept by PeekN (nextList) are assumed empty on entry.'),
dict(id='C08',title='A source delivers exactly the bytes of its reader, in order, once',
 statement='However a reader divides its stream into reads (including empty reads and bytes returned together with the error that ends it), a Source delivers exactly the bytes of the stream, in order, each once: consuming current bytes or n bytes removes exactly those from the front of what remains, peeking removes nothing, consuming past the end stops, and the source reports the end or the read error only after every byte has been delivered.',
 over=['inputs','histories','faults'],quant='every byte stream, buffer size, division into reads, read error position and sequence of peek and consume operations',
 why='Tests use a few strings with one buffer size; loss of bytes needs a token crossing a refill or an error returned with data. Four defects existed at the pinned commit.',
 files=['parse/parse.go'],mech=[('refill','parse/parse.go Source.Consume'),('counted consume','parse/parse.go Source.ConsumeN'),('lookahead','parse/parse.go Source.PeekN')],
 note='Consume, ConsumeN, NewSource and NewSourceString are proved against a ghost stream (buffered bytes followed by what the reader will deliver); the io.Reader contract is assumed.'),
dict(id='C10',title='Text runs end exactly at the first byte or rune outside the set',
 statement='Readers that take a run of text (all bytes except one or two delimiters) append exactly the longest such prefix to the given buffer and leave the source at the delimiter or at the end; skippers for white space skip exactly the longest run of white space and return its length. This holds wherever refills fall and also when the text ends without a delimiter. The rune-class readers and skippers take exactly the longest run of runes in the class.',
 over=['inputs','histories'],quant='every text, delimiter pair and range table, every buffer size and division into reads',
 why='Tests use short strings; the run has to continue across refills, which depends on lengths and the division into reads.',
 files=['parse/read/any.go','parse/read/range.go','parse/skip/space.go','parse/skip/range.go'],mech=[('bytes except','parse/read/any.go'),('white space','parse/skip/space.go'),('rune ranges','parse/read/range.go, parse/skip/range.go')],
 note='AnyExcept1, AnyExcept2 and skip.Space are proved for all inputs and all divisions into reads. The rune-range functions are checked by bounded comparison only.'),
dict(id='C12',title='Messages render every literal and value in order, for every earlier use',
 statement='Formatting with a message format and string-keyed values appends to the given buffer exactly the format with every {key} replaced by the value of that key in its rendering (text for strings and Stringers, escaped bytes for []byte, JSON for everything else including nil, formatted time for goTime), literals unchanged and in order. This does not depend on the keys, order or types the same format was used with earlier. A format that is malformed or names an unknown key never panics but yields a message that reports it together with the arguments. Fprintf, Printf and Fprintln write the message once, to the given writer.',
 over=['inputs','histories'],quant='every format, list of string-keyed values and history of earlier uses of the same format',
 why='Tests use each format once with one set of values; the cache of compiled formats, the malformed formats and nil values were wrong at the pinned commit without any test failing.',
 files=['msgfmt/formatter.go','msgfmt/msgfmt.go','msgfmt/parse.go','msgfmt/custom.go'],mech=[('fold of formatters','msgfmt/formatter.go Formatters.Format'),('value formatters','msgfmt/formatter_str.go, formatter_stringer.go, formatter_json.go, custom.go'),('cache of compiled formats','msgfmt/msgfmt.go FormatterOf, matches'),('format parser','msgfmt/parse.go')],
 note='The formatters, their fold, the lookup of keys, the cache test and the printing functions are proved for all inputs. The division of a format into literals and keys (compile, a Pratt parser over closures) is a bounded comparison with an independent oracle on every run. Assumed: Stringers and JSON encoders append a text determined by the value.'),
dict(id='C13',title='Byte slices in messages are written completely and escaped as defined',
 statement='A []byte value placed in a formatted message appears as its bytes in order, plain when printable ASCII other than backslash and |, and otherwise as the defined escape (backslash n, r, t or backslash, or \\x and two hex digits). No byte is dropped, reordered or added, and the message before it is unchanged.',
 over=['inputs'],quant='every byte slice and every message before it',
 why='Tests use a few slices; dropped bytes appear only for particular positions of escapes, as two defects at the pinned commit showed.',
 files=['msgfmt/formatter_bytes.go'],mech=[('fast path then slow path with pending run','msgfmt/formatter_bytes.go writeBytes, writeBytesSlowPath'),('value selection','msgfmt/formatter_bytes.go bytesFormatter.Format')],
 note='writeBytes and bytesFormatter.Format are proved for all slices: result == prefix + escaped bytes, with inductive loop invariants.'),
dict(id='C17',title='Every log call at or above the minimum level delivers one event, others none',
 statement='A Trace, Debug, Info or Log call (package function or Context method) below the minimum level delivers nothing; every other log call delivers one event with exactly its level, its properties, its context and no error to the installed handlers. A ...Call or LogAccess call with an error always delivers, at WARN (LogAccess: ERROR) with that error, and returns a non-nil error; without an error it is gated like its plain form and returns nil. Context.Trace below the suppressed level delivers nothing. When an aggregator handles the event, the individual entry is written only at or above the minimum call level.',
 over=['inputs','histories'],quant='every log function, minimum level, level, error, property list, context and earlier log calls, while handlers do not panic',
 why='Tests log one or two events at one level; twenty entry points each repeat the gating and forwarding code, and one wrong constant among them shows only for particular level settings.',
 files=['countlog/countlog.go','countlog/context.go','countlog/root.go'],mech=[('level gate and event construction','countlog/countlog.go Trace..LogAccess, log'),('context methods','countlog/context.go'),('aggregation and output','countlog/root.go statsAndOutput.Handle')],
 note='All log functions, log, getHandler, newHandler, ShouldLog and SetMinLevel are proved against ghost counters of deliveries and the content of the last event. Assumed: sinks do not modify the event, formatting an error message does not panic, the installed sinks are set.'),
dict(id='C18',title='A panic in a log handler never reaches the code that logs',
 statement='When a handler (event writer or aggregator) panics while handling an event, the log call still returns normally, the event is handed to a newly created handler for the event, and if that one panics as well the panic is reported to loglog.Error. Later events of the same name keep being delivered to handlers created for that name. Without a panic nothing is retried or reported.',
 over=['inputs','histories','faults'],quant='every log function, event, panic value and pattern of panicking deliveries',
 why='No test makes a handler panic twice; the redirecting handler installed after the first panic was never exercised and panicked itself at the pinned commit.',
 files=['countlog/root.go'],mech=[('recover','countlog/root.go oneHandler.Handle, statsAndOutput.Handle'),('retry and report','countlog/root.go nomalModeOnPanic, fallbackModeOnPanic'),('redirect','countlog/root.go redirector.Handle')],
 note='oneHandler.Handle, statsAndOutput.Handle, redirector.Handle, newRootHandler, nomalModeOnPanic and fallbackModeOnPanic are proved never to panic for sinks that may panic at any delivery, with ghost counters for deliveries, panics, panic handling and reports; only root handlers are stored in the handler cache. Assumed: sinks do not panic in HandlerOf.'),
dict(id='C23',title='An event writer makes exactly one write of each event, of all its text',
 statement='Handling an event writes the text the event format gives for it to the configured writer (standard output if none was given) in exactly one Write call, with nothing added, missing or shared with another event: the buffer is given back for reuse only after that write. A failed write is reported once to loglog.Error, a successful one is not.',
 over=['inputs','histories','faults'],quant='every event, formatter, writer (including failing ones) and content of the buffer pool',
 why='Tests write to a buffer that never fails and look at one line; a buffer recycled too early or text left over from the buffer of another event shows only with particular earlier events.',
 files=['countlog/output/writer.go'],mech=[('write','countlog/output/writer.go writeEvent.Handle'),('recycling','countlog/output/writer.go recylceWriter.Write')],
 note='NewEventWriter, HandlerOf, LogSite, writeEvent.Handle and recylceWriter.Write are proved against ghost state of the writer: number of writes, destination, exact bytes, ownership of the buffer, failure. Assumed: a writer does not keep the bytes; sequential (no interleaving inside Handle).'),
dict(id='C25',title='Text log formats write every part of an event, in order, for any property values',
 statement='The human readable, compact and printf formats write, after what the buffer already holds, the line their format defines for the log site and event: the level name (coloured in the human readable format), timestamp, message or event name, error if it has a non-empty text, context properties, properties with the values of this event (whatever their types), location from WARN up, in this order, and do not panic.',
 over=['inputs','histories'],quant='every log site, event level, error, context and property values, also of other types than at the first event of the site',
 why='Tests format one event with the values the formatter was made from; level names were all missing and values of another type crashed at the pinned commit.',
 files=['countlog/output/format.go','countlog/output/hrf/hrf.go','countlog/output/compact/compact.go','countlog/output/printf/printf.go','countlog/spi/color.go'],mech=[('order','countlog/output/format.go Formatters.Format'),('parts','countlog/output/hrf, countlog/output/compact: Format methods'),('parts of a site','FormatterOf of hrf, compact and printf')],
 note='Formatters.Format (in order, nothing else) and the Format methods of all parts of the hrf and compact formats are proved for all events. FormatterOf of the three formats, the table of coloured names and the printf layout are compared whole-line with an independent oracle on seeded sites and events (bounded).'),
dict(id='C26',title='Every JSON log line is one valid JSON object with all parts of the event',
 statement='The JSON format writes, after what the buffer already holds, one object and a newline: member "event" with the event name, one member for each property with the JSON of the value of this event (null for nil, whatever its type), "timestamp" in nanoseconds and "location", names and texts escaped as JSON strings.',
 over=['inputs','histories'],quant='every log site and event, property names and values of any encodable type, also of other types than at the first event of the site',
 why='The only test checks a prefix of one line; the lines were not valid JSON at the pinned commit.',
 files=['countlog/output/json/json.go'],mech=[('line','countlog/output/json/json.go jsonFormatter.Format'),('site','countlog/output/json/json.go JsonFormat.FormatterOf')],
 note='FormatterOf and Format are proved for all sites and events: the line is the prefix with the escaped name, the members in order with the encoder of the type of the value, the timestamp and the suffix. That each value encoder writes valid JSON is C02 to C05.'),
dict(id='C24',title='The asynchronous writer loses no message it accepted, nor mixes them up',
 statement='A message written to the blocking asynchronous writer reaches the underlying writer exactly once, in the order of the Write calls, with the bytes it had when Write was called (the caller may reuse its buffer at once); the non-blocking one either does the same or, with the queue full, gives the message to the dropped-message callback, never both and never neither. Close writes out what was accepted before it (within one second), then closes the underlying writer if it can be closed. A failed write is reported and does not stop later ones.',
 over=['inputs','histories','schedules','faults'],quant='every message, queue length, mode, sequence of writes, and write failure; select choices are arbitrary',
 why='The package has no tests; loss shows only when Close comes while messages are queued, and mixing only when the caller reuses its buffer before the goroutine has written it.',
 files=['countlog/output/async/async.go','concurrent/unbounded_executor.go'],mech=[('queue','countlog/output/async/async.go Write'),('drain','countlog/output/async/async.go asyncWrite'),('close','countlog/output/async/async.go Close, concurrent StopAndWaitForever')],
 note='NewAsyncWriter, both Write methods, asyncWrite and Close are proved against ghost state of the channel operations: every received message is written once before the next receive, the goroutine ends only after having seen the queue empty or the timer expired, sends are copies of the argument. A channel is trusted to be first in, first out; select chooses arbitrarily among ready cases.'),
dict(id='C27',title='StopAndWait returns only when every goroutine of the executor has ended',
 statement='Each goroutine started with Go is counted under its starting place before Go returns and is uncounted once when its function has ended, by returning or by a panic; a panic never leaves the goroutine and is reported once to LogPanic unless it is the stop signal. Stop cancels the context given to the functions. StopAndWaitForever returns only when no counter is positive, StopAndWait also when its context is done. The counters are only used with the mutex held, which is always released.',
 over=['inputs','histories','schedules','faults'],quant='every sequence of Go and Stop calls, every function (returning, panicking with any value), every context',
 why='The package has no tests; a lost decrement or a counter used without the lock shows only for panicking functions or particular schedules.',
 files=['concurrent/unbounded_executor.go'],mech=[('count','concurrent/unbounded_executor.go Go'),('wait','concurrent/unbounded_executor.go checkGoroutines, StopAndWait')],
 note='All methods and the goroutine body (a closure) are proved; the map of counters may only be read or written in states where the mutex is held (an obligation at each access). Critical sections are taken as atomic; a function is assumed not to interleave calls of the executor with the wrapper\'s own critical section.'),
dict(id='C16',title='Goroutine-local storage is private to its goroutine and gone when it ends',
 statement='A function wrapped by WithGls or WithEmptyGls runs with a storage of its own: empty, or holding for every key of the storage of the goroutine that called WithGls the same value, or its Copy if the value has one. Get and Set read and write only the storage of the calling goroutine (Get gives nil without one, Set panics). Whether the function returns or panics, its storage is removed; no storage of another goroutine id is ever touched, also of ids that share a shard. Shards are only used with their lock held, which is always released.',
 over=['inputs','histories','schedules'],quant='every goroutine id, key, value, storage content, function (returning or panicking)',
 why='Tests use one or two goroutines; leaking after a panic, sharing of a parent value or a race on a shard shows only with particular functions, values or schedules.',
 files=['gls/gls.go'],mech=[('shards','gls/gls.go ResetGls, DeleteGls, GetGls, init'),('inherit','gls/gls.go WithGls'),('access','gls/gls.go Get, Set')],
 note='All functions of gls.go, the closures and the package initialiser are proved, with an obligation at each access of a shard that its lock is held (for writing where it writes). GoID (assembly) is trusted to give the id of the goroutine, a positive number; critical sections are taken as atomic; the function is trusted not to reassign the tables of shards.'),
dict(id='C22',title='CloseAll closes every resource once and reports every error',
 statement='CloseAll closes each resource exactly once, in order, whatever the others return, and returns nil when none failed, else a MultiError with the errors in order. Close closes its resource once and returns its error. Every error is logged once at error level as property err, after the properties of the caller; nothing is logged as an error when none failed. MergeErrors returns nil when all its errors are nil, else a MultiError of the others in order, and leaves its argument as it was.',
 over=['inputs','faults','histories'],quant='every list of resources and errors, every combination of failures, every list of properties',
 why='The package has no tests; a wrong or lost error shows only when two or more resources of one call fail.',
 files=['closer.go'],mech=[('close all','closer.go CloseAll'),('merge','closer.go MergeErrors'),('close','closer.go Close')],
 note='Close, CloseAll and MergeErrors are proved for all lists over ghost lists of closed resources and their errors; that one error event carries the error as the last property is proved from the contract of countlog.Error. That the log site knows the names of the properties is checked by the harness (bounded). A resource is trusted not to panic in Close and not to change the lists of the caller.'),
dict(id='C19',title='Every counted event is exported exactly once, under its own dimensions',
 statement='Every event handed to the handler of a log site with agg counter adds exactly one to the counter of its dimensions (the values of the properties named in dim) and to no other. An export gives each counter of each shard exactly once to the collector, with the name of the event, the dimensions and the value counted since the last export, and resets it; so nothing is lost or counted twice, whatever events and exports overlap. Shards are used with their mutex held, which is released also when an event does not fit its log site. Windows are exported again and again until their context is done. Sites without agg are not counted.',
 over=['inputs','histories','schedules'],quant='every log site, dimension list, sequence of events (also such that panic) and exports, every goroutine',
 why='The only tests drive one event through the logger; loss and double counting depend on overlap of events and exports, and a leaked lock needs a panicking event.',
 files=['countlog/stats/counter.go','countlog/stats/state.go','countlog/stats/window.go','countlog/stats/stats.go'],mech=[('count','countlog/stats/counter.go Handle, window.go Mutate'),('export','countlog/stats/window.go Export, exportShard, state.go Export'),('site','countlog/stats/stats.go HandlerOf, createHandler, newWindow')],
 note='Handle, Mutate, Export, exportShard, newWindow, createHandler, HandlerOf, the counter and the extractor without dimensions are proved for all shards, keys and events (keys of a map are quantified over), with the obligation that every access of a shard holds a mutex. The extractors with dimensions build map keys through unsafe casts: their contract is assumed and checked by the harness (bounded), as is the periodic export.'),
dict(id='C20',title='A rotating log file keeps every message, whole, in files of limited size',
 statement='A message accepted by lumberjack.Logger.Write is in exactly one file, in one piece, after everything written before; no file Write leaves behind is larger than MaxSize megabytes; a larger message is refused and changes nothing. An existing file is appended to, or, when the message would not fit, moved to a backup before a new file is begun; a file with content is never truncated. Files are only opened, moved and closed with the mutex held, which is always released. Clean-up removes only backups, keeps the newest MaxBackups, and compressed backups hold the same text. (Backups whose names carry the same time replace each other: the times are taken to differ.)',
 over=['inputs','histories','faults'],quant='every message, size limit, existing file, sequence of Write, Rotate, Close, and failure of the operating system',
 why='The tests of the package do not build at this commit; loss or an oversized file depends on sizes at the limit, on the file found at start, and on which system call fails.',
 files=['countlog/output/lumberjack/lumberjack.go','countlog/output/lumberjack/chown_linux.go'],mech=[('write','countlog/output/lumberjack/lumberjack.go Write'),('rotate','countlog/output/lumberjack/lumberjack.go rotate, openNew, openExistingOrNew'),('clean up','countlog/output/lumberjack/lumberjack.go millRunOnce, timeFromName')],
 note='Write, Rotate, Close, rotate, openNew, openExistingOrNew, chown, max, filename and timeFromName are proved over a ghost model of the current log file (exists, size, open handle, truncated) given by contracts of os.Stat, OpenFile, Rename and File.Write, with every call allowed to fail; for a configured Filename and MaxSize unchanged while the file is open. Selection, removal and compression of backups (millRunOnce) are checked by the harness on real files (bounded).'),
]

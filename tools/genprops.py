# Source of properties.jsonl: run `python3 tools/genprops.py` to rewrite it.
import json
T='sttp/transport/'
P=[]
def p(id,title,statement,over,text,why,files,mech,obs=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if obs: d['anchors']['observe_at']=obs
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
NOTEST="No existing test connects a subscriber to anything: the only test that opens a connection needs a live openPDC server and is not part of the stable suite."

p('P01','Compressed measurement streams decode losslessly',
 'For every sequence of measurements (ID, timestamp, state flags, 32-bit value) encoded by a conforming TSSC publisher, the decoder returns exactly that sequence, in order and with every field bit-identical, and then reports end of data. This holds for every way of dividing the sequence into packets and for every history of adaptive code-table changes the sequence causes.',
 ['inputs','histories'],'all measurement sequences up to the bound over an alphabet that reaches every code word and every coding mode, and all divisions into packets',
 'The repository has no TSSC test and no encoder; state carried from point to point and packet to packet (deltas, history slots, adaptive modes) makes the input space history dependent.',
 [T+'tssc/Decoder.go',T+'tssc/PointMetadata.go'],
 [('delta/XOR decoding of id, time, flags and value','tssc.Decoder.TryGetMeasurement'),('adaptive code words','pointMetadata.ReadCode / adaptCommands')],
 ['tssc.Decoder public API'])
p('P02','Compact measurements decode to the values the publisher encoded',
 'A measurement serialised in compact format decodes to the same signal, 32-bit value, full-precision or base-offset timestamp and state-flag groups, for every setting of time inclusion and millisecond resolution, both base-time slots and every packing of measurements into a packet. A full-width timestamp keeps its leap-second bits, and flags are reported for exactly the compact flag bits that were set.',
 ['inputs','configurations'],'all compact flag bytes x time settings x base-time values x value/time/ID boundary values, one to three measurements per packet',
 NOTEST+' Encoding variants combine flags, settings and previously received base times.',
 [T+'CompactMeasurement.go',T+'DataSubscriber.go'],
 [('variable length compact format','CompactMeasurement.Decode'),('base time offsets','handleUpdateBaseTimes')],
 ['new-measurements callback'])
p('P03','Data packets are delivered once, in order, and nothing else is delivered',
 'For every history of server responses, the measurements handed to the application are exactly the measurements of the accepted data packets, each packet once, in arrival order, resolved through the signal index cache the packet names. Packets that are ignored, rejected or cut short never cause zero-valued, stale or duplicated measurements to be delivered, even when the application returns its measurement slices for reuse. The received-measurement total equals the number delivered since the last subscribe.',
 ['histories','inputs','schedules'],'all response histories up to the depth bound over data packets (compact/compressed, either cache), cache updates, resets and recycled slices, and interleavings of both channels up to the preemption bound',
 NOTEST+' The property quantifies over histories of packets and cache updates with slice recycling.',
 [T+'DataSubscriber.go',T+'SignalIndexCache.go','sttp/Subscriber.go'],
 [('synchronous callback from the socket thread','handleDataPacket'),('slice pool','MeasurementPool / PutMeasurementSlice')],
 ['new-measurements callback','received totals'])
p('P04','Compressed packets are decoded only in sequence',
 'Compressed data packets are decoded only when their sequence number is the next expected one for their signal index cache; packets with any other number are ignored, except that a packet with sequence number zero always restarts decoding from a clean state. After sequence number 65535 the next expected number is 1, and after a restart decoding is again lossless whatever was received before.',
 ['histories'],'all histories of in-sequence, skipped, repeated and reset packets on both caches up to the depth bound, plus the roll-over',
 NOTEST+' Loss, duplication and reset must be combined with decoder state.',
 [T+'DataSubscriber.go',T+'tssc/Decoder.go'],[('sequence check and decoder reset','parseTSSCMeasurements')],
 ['new-measurements callback','error messages'])
p('P05','Buffer blocks reach the application once, in order, and complete',
 'Buffer blocks arriving in any order, with duplicates and retransmissions, are handed to the application exactly once each, in sequence-number order without gaps, with the signal and the exact bytes that were sent, and no empty placeholder blocks. Each newly received block is acknowledged to the publisher with its own sequence number, and a new connection starts the sequence over with nothing left from the previous one.',
 ['histories','fault_sequences'],'all arrival orders with duplication, retransmission and reconnection of up to the bounded number of blocks, both protocol header versions',
 NOTEST+' Reordering and retransmission need arrival permutations.',
 [T+'DataSubscriber.go',T+'BufferBlock.go'],[('reordering cache','handleBufferBlock')],['new-buffer-blocks callback','commands received by the publisher'])
p('P06','Response handling is independent of TCP segmentation',
 'However the bytes of a response stream are split into TCP segments, the subscriber performs the same observable actions in the same order: same callbacks with the same contents, same commands sent back, same byte counters. A stream that ends in the middle of a response behaves like the complete responses before it followed by a connection loss.',
 ['inputs','fault_sequences'],'all single and double split points and all truncation points of response streams covering every response kind',
 NOTEST+' Loopback delivers whole writes, so split headers and payloads are never exercised.',
 [T+'DataSubscriber.go'],[('length-prefixed reads','runCommandChannelResponseThread / readPayloadHeader / readPacket')],['callbacks','commands','byte counters'])
p('P07','Malformed responses never crash or wedge the subscriber',
 'No sequence of bytes received from the peer, over TCP or UDP, makes the subscriber panic, hang or deliver measurements that the peer did not encode. After a malformed response the subscriber either ignores it and keeps working or drops the connection, and in both cases it can still be disconnected and closed normally.',
 ['inputs','fault_sequences'],'every truncation, every length/count field replaced by boundary values and every response/command code combination, on every response kind and protocol version',
 NOTEST+' Hostile or damaged input is never generated.',
 [T+'DataSubscriber.go',T+'SignalIndexCache.go',T+'CompactMeasurement.go',T+'tssc/Decoder.go',T+'Common.go'],[('length checks before use','response handlers')],['process survival','callbacks','connection state'])
p('P08','Signal index caches are installed atomically and resolve consistently',
 'After a signal index cache update is accepted, every index in it maps to exactly the signal ID, source and ID the publisher sent, the reverse lookup agrees, and unknown indexes are reported as unknown; the update is confirmed to the publisher exactly once and announced to the application. Updates alternate between two slots so packets for the previous cache still resolve, and an update that cannot be decoded leaves the current caches in force.',
 ['histories','inputs','configurations','schedules'],'all histories of cache updates (valid, empty, truncated, either slot, compressed or not, either GUID byte order, both versions) interleaved with data packets; all interleavings of an update with datagrams and reading threads up to the preemption bound',
 NOTEST+' Cache switch-over is only visible in response histories.',
 [T+'SignalIndexCache.go',T+'DataSubscriber.go'],[('cache decode','SignalIndexCache.decode'),('double buffering','handleUpdateSignalIndexCache')],['active cache lookups','subscription-updated callback','commands'])
p('P09','Commands sent to the publisher are never torn or interleaved',
 'Whatever application threads and internal threads send commands at the same time, the publisher receives a sequence of complete command frames, each with a correct length and exactly the payload of one issued command, each issued command once and in issue order per thread. This holds for payloads of any size.',
 ['schedules','inputs'],'all interleavings of concurrent senders and response-triggered acknowledgements up to the preemption bound, payload sizes around the internal buffer size',
 NOTEST+' Interleavings of senders cannot be forced by ordinary tests.',
 [T+'DataSubscriber.go'],[('single buffer write per command','SendServerCommandWithPayload')],['bytes received by the publisher'])
p('P10','Connection and subscription settings are conveyed exactly',
 'For every combination of connection configuration and subscription settings, the operational-modes command announces exactly the configured protocol version, encoding and compression choices (payload compression only without a UDP data channel), and the subscribe command carries every setting as a key=value pair with the value the application chose, with the filter expression intact. Metadata requests carry the configured metadata filters. Configurations and settings left as created mean protocol version 2, all compression, standard identifier byte order, automatic metadata request and subscription, unlimited reconnection at intervals of 1 to 30 s, and publication with times every second (lag 10 s, lead 5 s), whatever was done to other objects.',
 ['configurations','inputs'],'all on/off combinations of the boolean settings and boundary values of the others',
 NOTEST+' The set of settings combinations is large.',
 [T+'DataSubscriber.go','sttp/Subscriber.go','sttp/Settings.go','sttp/Config.go'],[('connection string construction','Subscribe / sendOperationalModes'),('settings mapping','Subscriber.Subscribe / connect')],['commands received by the publisher'])
p('P11','Connection state and callbacks follow the real connection',
 'For every history of connect, disconnect, close, subscribe, unsubscribe, peer drop and refused connection, the reported connected, subscribed and listening states match the actual connection whenever the system is idle, and the counters restart with each connection. Each established connection is announced once before its data and its termination is announced once after it, no measurements or buffer blocks of that connection arrive after the termination announcement, and every socket opened is eventually closed.',
 ['histories','fault_sequences'],'all operation/event histories up to the depth bound, with and without auto-reconnect',
 NOTEST,
 [T+'DataSubscriber.go',T+'SubscriberConnector.go','sttp/Subscriber.go'],[('state flags and disconnect thread','connect / disconnect / runDisconnectThread')],['state queries','callbacks','sockets'])
p('P12','Disconnecting and closing always complete and are final',
 'Disconnect and Close, called at any moment and from any thread or callback concurrently with connecting, retrying, reading, sending or another disconnect, always complete without deadlock, panic, endless spinning or waiting out a retry delay. Once a disconnect requested by the application has completed, the subscriber holds no open connection and does not open a new one until asked to.',
 ['schedules','histories'],'all interleavings, up to the preemption bound, of shutdown calls with connection establishment, retry waits, peer drops, data reception and command sending',
 NOTEST+' Shutdown races need controlled interleavings and timer races.',
 [T+'DataSubscriber.go',T+'SubscriberConnector.go','sttp/thread/Thread.go','sttp/Subscriber.go'],[('disconnect thread and joins','disconnect / runDisconnectThread / Cancel')],['return of the calls','sockets','virtual time'])
p('P13','Connection retries respect the configured limits and back-off',
 'When connecting fails, the number of further attempts never exceeds the configured maximum (unbounded only when configured so), the waits between attempts are never shorter than the configured interval, never shrink from one failed attempt to the next and never exceed the configured maximum interval. A failure to connect within the limit is reported to the caller as a failure, a successful attempt as success, and a lost connection is retried only when auto-reconnect is enabled.',
 ['configurations','fault_sequences'],'all outcome sequences (refused/accepted/dropped) x retry configurations up to the bound, under virtual time',
 NOTEST+' Timing is only decidable with a virtual clock.',
 [T+'SubscriberConnector.go','sttp/Subscriber.go'],[('retry loop and exponential back-off','SubscriberConnector.connect / waitForRetry')],['dial attempts with virtual times','return values','messages'])
p('P14','The automatic metadata and subscription workflow runs on every connection',
 'On every established connection, including automatic reconnections and accepted reverse connections, the subscriber announces its operational modes first and then performs exactly the configured steps: a metadata request when configured, a subscribe after the metadata has arrived (or right after connecting when metadata is not requested), and nothing that is not configured. A configuration-changed notice triggers a new metadata request only when metadata is requested automatically.',
 ['configurations','histories'],'all combinations of automatic settings x connection kinds x drop points in the workflow',
 NOTEST,
 ['sttp/Subscriber.go',T+'DataSubscriber.go',T+'SubscriberConnector.go'],[('intermediate callback handlers','handleConnect / handleReconnect / handleMetadataReceived')],['commands received by the publisher'])
p('P15','Thread wrapper runs its function once per start and join waits for it',
 'A thread object executes its function exactly once for every start that reported success, never runs two executions at the same time, and reports not running once no execution is pending or active. A join issued after a successful start returns only after that execution has finished, and a thread that has finished can be started again.',
 ['schedules'],'all interleavings of concurrent starts, try-starts, joins and running queries by up to three threads, up to the preemption bound',
 'No test covers the thread wrapper, and the property is about interleavings.',
 ['sttp/thread/Thread.go'],[('running flag and mutex','Thread.Start / TryStart / Join / run')],['executions','return values'])
p('P16','Each signal has one metadata record, shared by everyone who asks',
 'All lookups of the same signal during a connection return the same metadata record, from whatever threads and at whatever moment they are made, and a new record starts with neutral scaling. Metadata received from the publisher and signal index cache entries are reflected in those records field by field, rows without a signal and documents without the signal list are passed over without losing anything else, and adjusted values are value times multiplier plus adder of that record.',
 ['schedules','inputs'],'all interleavings of concurrent lookups, cache installation and metadata loading up to the preemption bound; enumerated metadata tables',
 'Existing tests never look up metadata; uniqueness is a property of interleavings.',
 [T+'DataSubscriber.go',T+'MeasurementMetadata.go','sttp/Subscriber.go'],[('concurrent registry','LookupMetadata'),('metadata load','loadMeasurementMetadata')],['record identity and fields'])
p('P17','A peer that does not speak STTP is rejected before anything is processed',
 'On a connection that has not been validated yet (protocol version 2 and later), the first response must be a short success or failure answer to the operational-modes command, or a no-operation; anything else, including an oversized length, is reported as an error and the connection is dropped without invoking any data callback or changing subscription state. The subscriber reports itself validated only after a valid first response and refuses to subscribe before that.',
 ['inputs','histories'],'all first-response code pairs and length classes on first, re-established and accepted connections',
 NOTEST,
 [T+'DataSubscriber.go'],[('initial response validation','readPayloadHeader / processServerResponse')],['callbacks','connection state','error messages'])
p('P18','Listening mode serves one publisher at a time, again and again',
 'While listening, the subscriber accepts one publisher connection at a time, closes any additional connection without disturbing the established one, and after the publisher drops it accepts the next publisher and works with it as with the first. Disconnecting stops listening and releases the port so that listening can be started again.',
 ['schedules','histories'],'all histories of publisher connects, drops, extra connects and disconnect/listen cycles, with interleavings up to the preemption bound',
 NOTEST,
 [T+'DataSubscriber.go','sttp/Subscriber.go'],[('accept loop','runListeningSocketAcceptThread')],['sockets','callbacks','state queries'])
p('P19','The measurement reader hands out every measurement once, in order',
 'Every measurement received while a measurement reader is attached is returned by exactly one next-measurement call, in arrival order and with the received contents, whatever the speed of the consumer. A waiting call returns promptly with the completed flag when its context ends, no measurement is lost to a call that returned completed, and closing the reader or the subscriber never panics or blocks forever.',
 ['schedules','histories'],'all interleavings of packet arrival, one or two consumers, context cancellation and close up to the preemption bound',
 NOTEST,
 ['sttp/MeasurementReader.go','sttp/Subscriber.go'],[('channel hand-off','newMeasurementReader / NextMeasurement')],['returned measurements','return of the calls'])
p('P20','Replacing a callback takes effect immediately and safely',
 'Once a call that assigns a callback has returned, every later event is delivered to the new callback only, on an active connection as well as before connecting, and no event is lost or delivered to both. Assigning callbacks while events are being delivered never deadlocks or crashes, including assigning to none.',
 ['schedules','configurations'],'every callback kind x moment of assignment, with interleavings of event delivery and assignment up to the preemption bound',
 NOTEST,
 ['sttp/Subscriber.go',T+'DataSubscriber.go'],[('reader/writer lock around callbacks','BeginCallbackAssignment / BeginCallbackSync')],['callback invocations'])
p('P21','Every server notification reaches its handler once with its contents',
 'Each success, failure, notification, configuration-changed, data-start-time, processing-complete, base-time and no-operation response causes exactly the corresponding application event, once, with the transmitted contents, and notifications are confirmed to the publisher with their own hash. A later response never alters the contents handed out for an earlier one, and success and failure answers change the reported subscription state only for subscribe and unsubscribe.',
 ['histories','inputs','schedules'],'all response histories up to the depth bound over all response kinds, with delayed execution of asynchronous handlers',
 NOTEST,
 [T+'DataSubscriber.go','sttp/Subscriber.go'],[('response dispatch','processServerResponse and handlers')],['callbacks','commands'])
p('P22','UDP data channel and encrypted packets deliver the same data as TCP',
 'With a UDP data channel configured, data packets arriving as datagrams deliver exactly the measurements they carry, with or without cipher keys and with either key parity, also after the keys have been rotated. Unsubscribing or disconnecting releases the UDP port, subscribing again re-opens it, and the command channel keeps working throughout.',
 ['histories','configurations','schedules'],'all histories of key updates, datagrams of either parity, unsubscribe/subscribe cycles up to the depth bound; all interleavings of datagrams with key updates and command channel data up to the preemption bound',
 NOTEST,
 [T+'DataSubscriber.go',T+'Common.go'],[('data channel thread','runDataChannelResponseThread'),('AES-CBC','decipherAES / handleUpdateCipherKeys')],['callbacks','open ports'])
p('P23','Filter expression operators compute the documented results',
 'For every combination of operand types, values (including null) and operators, evaluating the expression yields the value and type given by the documented type promotion, comparison, logic, bit and arithmetic rules, or an error where the documentation excludes the combination. Results do not depend on spelling variants of an operator or on redundant parentheses, and a comparison with a null operand is null and selects nothing.',
 ['inputs','programs'],'all expressions of one and two operators over representative values of every type and all operator spellings',
 'Existing tests check about a hundred hand-picked expressions; the operator x type x type x null matrix has thousands of cells.',
 ['sttp/data/ExpressionTree.go','sttp/data/ValueExpression.go','sttp/data/Constants.go','sttp/data/FilterExpressionParser.go'],[('type derivation and evaluation','ExpressionTree.evaluateOperator and operation functions')],['EvaluateExpression'])
p('P24','Filter expression functions compute the documented results',
 'For every function of the expression language and every combination of argument types and boundary values (including null and optional arguments), evaluation yields the documented result, or an error for excluded argument types and for arguments that cannot be evaluated. Function names are case-insensitive and evaluation never modifies its inputs.',
 ['inputs','programs'],'all functions x argument tuples over small per-type alphabets including empty strings, negative and out-of-range indexes, nulls',
 'Existing tests use one or two argument tuples per function.',
 ['sttp/data/ExpressionTree.go','sttp/data/ValueExpression.go'],[('function evaluation','ExpressionTree.evaluateFunction')],['EvaluateExpression'])
p('P25','Filter statements select exactly the matching rows, ordered and limited',
 'A filter statement returns exactly the rows of the named table for which the condition is true, in the requested order (each term ascending or descending, text case-insensitive unless exact order is requested, nulls first) and cut to the requested number of rows. Selecting by statement, by table method and as a set agree with each other, and rows whose condition is null are not selected.',
 ['inputs','programs'],'all small tables x conditions x order-by clauses x limits up to the bound',
 'Existing tests use two fixed tables with a handful of statements.',
 ['sttp/data/FilterExpressionParser.go','sttp/data/ExpressionTree.go','sttp/data/DataTable.go','sttp/data/DataRow.go'],[('row selection and sorting','ExpressionTree.Select')],['SelectDataRows','DataTable.Select'])
p('P26','Combined filter expressions yield the union of their parts',
 'A filter expression made of several statements (filters, signal IDs, measurement keys, point tags) selects the union of what each statement selects alone, in statement order without repeating a row in a set, and identifiers match the identifying fields of the primary table case-insensitively. Unknown identifiers select no row, invalid statements are reported as an error instead of being skipped, and repeated evaluation gives the same answer; signal IDs asked for from a table whose identifying fields are not known are an error.',
 ['programs','histories'],'all statement lists up to the bound over an alphabet of all statement kinds, with all separators and repeated evaluation',
 'Existing tests combine statements in a few fixed ways.',
 ['sttp/data/FilterExpressionParser.go','sttp/data/TableIDFields.go'],[('statement visiting and set building','FilterExpressionParser.Evaluate')],['SelectDataRows','SelectDataRowSet','SelectSignalIDSet'])
p('P27','No filter expression crashes its evaluator',
 'Parsing and evaluating any text as a filter expression, against any row, either produces a result or returns an error; it never panics, hangs or exhausts memory. The same text evaluated twice on the same data gives the same outcome.',
 ['inputs','programs'],'all token sequences up to the length bound over the token alphabet of the language, and all operator and function applications over boundary values',
 'Existing tests only evaluate valid expressions plus a few syntax errors.',
 ['sttp/data/FilterExpressionParser.go','sttp/data/ExpressionTree.go','sttp/data/ValueExpression.go'],[('error returns instead of panics','parser visitor recover, operation functions')],['process survival','error results'])
p('P28','Metadata documents load completely and with the right types',
 'A schema-described XML metadata document loads into exactly the tables, columns, types and rows it contains: every value reads back through the typed accessor of its column as the value written, missing elements read as null, and tables and columns are found by name regardless of case. Loading one document never depends on documents loaded before it, and a document without a usable schema is reported as an error.',
 ['inputs','histories'],'all small schemas over all column types x row contents (present, missing, boundary text), repeated loads',
 'One sample document is loaded by existing tests.',
 ['sttp/data/DataSet.go','sttp/data/DataTable.go','sttp/data/DataColumn.go','sttp/data/DataRow.go','sttp/data/DataType.go'],[('schema and record loading','DataSet.ParseXml')],['DataSet accessors'])
p('P29','Computed columns equal their expression on the current row',
 'Reading a computed column, by index or by name, yields the value of its expression over the current values of the same row, converted to the column type, null when the expression is null, and following later changes of the other columns. Rows never influence each other, chains of computed columns work in any column order, and an expression that cannot be computed (including one that refers to itself) is reported as an error.',
 ['inputs','histories'],'all small tables with computed columns in every position, expression and type, and all write/read histories up to the bound',
 'Existing tests read computed columns of one fixed table.',
 ['sttp/data/DataRow.go','sttp/data/DataColumn.go','sttp/data/ExpressionTree.go'],[('lazy expression evaluation','DataRow.getComputedValue')],['row accessors'])
p('P30','Row values keep their type, and row comparison is a consistent order',
 'A value stored in a row is read back unchanged by the accessor of its column type and refused by the other typed accessors, by index and by name alike, with null reported as null; the text form denotes the same value to the precision it shows. Comparing rows by a column is a total order agreeing with the natural order of the column type (text case-insensitive unless exact, true before false), nulls first.',
 ['inputs'],'all column types x boundary values x accessors, and all pairs and triples of values for the order laws',
 'Existing tests touch only some accessors and no comparison laws.',
 ['sttp/data/DataRow.go','sttp/data/DataType.go'],[('typed accessors','DataRow.*Value'),('comparison','CompareDataRowColumns')],['row accessors','CompareDataRowColumns'])
p('P31','Set operations follow set algebra',
 'Every set operation and query gives the result of mathematical set algebra on the elements involved, whether the other operand is given as a set or as a list with or without repetitions, including empty operands and an operand that is the set itself. Queries never modify their operands, and mutating operations modify only the receiver.',
 ['histories','inputs'],'all operation sequences up to the depth bound over a small universe with all list operands including duplicates',
 'Existing tests check single operations on fixed sets without duplicate list elements.',
 ['sttp/hashset/HashSet.go'],[('map based set','HashSet methods')],['set contents and query results'])
p('P32','Identifiers survive every textual and binary form and order consistently',
 'A GUID written as text or as bytes in either byte order and read back is the same GUID, for every accepted text form, and reading never modifies or aliases the input bytes. Comparison is a total order consistent with equality and with the standard component order, and malformed text or short input is reported as an error.',
 ['inputs'],'all GUIDs over a byte alphabet at each position, all text forms and lengths, all pairs/triples for the order laws',
 'Existing tests check fixed GUID values.',
 ['sttp/guid/Guid.go'],[('byte order swap','swapGuidEndianness'),('component comparison','Compare')],['guid package API'])
p('P33','Timestamps convert between ticks and calendar time without distortion',
 'Every representable instant from year 1 to 9999 converts from ticks to calendar time and back to the same instant, conversions preserve order, and leap-second bits never change the calendar time. Setting and querying the leap-second bits leaves the instant intact and reports exactly what was set.',
 ['inputs'],'all boundary instants (era, year, month, day, unit boundaries and their neighbours) over the whole range x leap-second bit combinations',
 'Existing tests convert a few present-day instants.',
 ['sttp/ticks/Ticks.go'],[('tick arithmetic','ToTime / FromTime')],['ticks package API'])
p('P34','XML documents expose their structure faithfully',
 'For every well-formed document the node tree exposes exactly its elements: names, namespaces, attributes, nesting level, parent, sibling and by-name links are mutually consistent, and the maximum depth is right. Selecting nodes by path, with wildcards and attribute or child-value predicates, returns exactly the matching nodes in document order, and loading a second document replaces the first.',
 ['inputs','histories'],'all small documents up to the size bound x all path expressions up to the length bound',
 'Existing tests use one sample document.',
 ['sttp/xml/XmlDocument.go','sttp/xml/XmlNode.go'],[('tree traversal','XmlDocument.traverse'),('path selection','XmlNode.SelectNodes')],['node links','SelectNodes'])
p('P35','Number formatting only inserts grouping',
 'Formatting a number and removing the grouping symbols gives back the plain decimal form of the number (with the chosen decimal symbol and precision), and grouping symbols separate the integer digits in threes from the right, for every integer and floating-point value including negatives, zeros, extremes, infinities and not-a-number.',
 ['inputs'],'all digit-count boundaries and signs x precisions x symbol choices',
 'There is no test of the formatting package.',
 ['sttp/format/Common.go','sttp/format/Float.go','sttp/format/Int.go','sttp/format/UInt.go'],[('digit grouping','formatNumber')],['format package API'])
p('P36','Signal references, signal kinds and flag names are interpreted consistently',
 'A signal reference is split into its source, signal kind and position whatever hyphens the source contains, and a reference that does not follow the format is reported as unknown instead of crashing. Signal-kind acronyms and names map back to the same kind, and the text form of state flags names exactly the bits that are set. Every published code, type, operator and function prints its own name or symbol, and exactly the names of the time intervals are accepted as such; a measurement prints its signal, time, value and flags.',
 ['inputs'],'all references over a small alphabet up to the length bound, all kinds, all single and paired flag bits, all members of the enumerations',
 'There is no test of these functions.',
 [T+'MeasurementMetadata.go',T+'SignalKind.go',T+'Constants.go'],[('reference parsing','ParseSignalReference'),('enumeration text','String methods')],['transport package API'])
p('P37','Data sets and tables keep their members in order and find them by name',
 'After any history of adding, replacing, removing and clearing, a data set holds exactly the tables last added under each name and a table exactly its columns and rows in the order they were added; names are found in any letter case, and missing names and positions outside the table give nothing. A row reads every value last assigned to it, including in columns added after the row was made, a cloned row or column equals its source without sharing later assignments, and a predicate selects the matching rows in order up to the limit; the printed form names exactly the members present.',
 ['histories'],'all histories up to the bound of table, column and row operations, with every member looked up after each step',
 'Tests build one table once and read it; replacing, clearing, cloning and adding columns under existing rows are never combined.',
 ['sttp/data/DataSet.go','sttp/data/DataTable.go','sttp/data/DataRow.go','sttp/data/DataColumn.go'],[('case-insensitive name index','DataSet.AddTable / DataTable.AddColumn'),('row values by column position','DataRow.Value')],['data package API'])
p('P38','Expression trees and reused parsers mean what their text says',
 'A tree prepared from a statement carries its table, limit and order and gives on each row, and selects from the table, what the statement alone does, whatever call prepared it, in whatever order and however often rows are evaluated; a tree put together from its parts behaves like the same expression written as text. A parser that is evaluated repeatedly, with other limit, sort and tracking settings, changed data or another data set, gives each time what a new parser would give. Invalid text is an error through every call and on every attempt, and reading a part as another kind or a value as another type is an error.',
 ['histories','inputs'],'all lists of up to three statements through every preparing call, all operation sequences up to the bound on one parser, all operators and functions on all value combinations as built trees',
 'Tests prepare each expression once through one call and evaluate it once; building trees, reusing parsers, mixing calls and repeating failed ones are not exercised.',
 ['sttp/data/FilterExpressionParser.go','sttp/data/ExpressionTree.go','sttp/data/Expression.go','sttp/data/ValueExpression.go'],[('parse state kept between calls','FilterExpressionParser.Evaluate / ExpressionTrees'),('current row of a tree','ExpressionTree.Evaluate')],['data package API'])
p('P39','Refused calls and failing sockets are reported and survived',
 'A request to connect or listen is refused with an error while connected or listening and for addresses without a port from 1 to 65535, and every other address, names, IPv4 and IPv6 alike, is used as given; a refused call changes nothing and does not affect later ones. A data port that cannot be opened, a command that cannot be sent, and errors accepting connections, reading the data port or closing sockets are reported as errors. A data port that cannot be opened leaves the subscriber connected without a subscription, a command that cannot be sent ends the connection, and otherwise, and with the next attempt after the cause is gone, everything works as without the failure.',
 ['histories','inputs','fault_sequences','schedules'],'all listed addresses in every call and state, all histories of operations and socket failures up to the depth bound, every failing write, all schedules up to the deviation bound',
 'Tests run without a network and do not produce failing sockets; failures at a chosen moment of a chosen socket are not repeatable with real ones.',
 ['sttp/Subscriber.go',T+'DataSubscriber.go',T+'SubscriberConnector.go'],[('address parsing','Subscriber.Dial / Listen'),('refusal of calls','DataSubscriber.Connect / Listen / Subscribe'),('write error','DataSubscriber.SendServerCommandWithPayload'),('accept loop','DataSubscriber.Listen'),('closing of sockets','DataSubscriber.Disconnect / Unsubscribe')],['simulated sockets','subscriber state queries','error messages'])
p('P40','Connections, metadata and lost data are reported in the logs',
 'An application that sets no connection receivers is told of every established connection once in the status log, with the direction, and of every terminated connection once in the error log, each naming the publisher it was made with (address and, for accepted connections, its host name if it has one); without loggers of its own these messages go as whole lines to standard output and standard error. Every metadata document received is summarised once in the status log with the number of records in all and per table and the schema version if there is one. Compressed data out of sequence is reported as an error at once, then at most once in two seconds until decoding restarts; between a subscribe and the restart that follows it is not reported.',
 ['histories','inputs','configurations','schedules'],'all histories of connections, drops, packets and waits up to the depth bound, also repeated to length 40, all listed documents, with and without loggers, all schedules up to the deviation bound',
 'Tests do not run connections; direction, identity and the two-second rule need sequences of publishers, packets and clock readings.',
 ['sttp/Subscriber.go',T+'DataSubscriber.go',T+'Common.go'],[('default receivers and loggers','Subscriber.Default*'),('metadata summary','Subscriber.showMetadataSummary'),('connection identity','DataSubscriber.establishConnection / resolveDNSName'),('sequence report','DataSubscriber.parseTSSCMeasurements')],['message loggers','standard output and error'])
p('P41','Readers of one data set do not disturb each other',
 'Several threads may read values, compare rows, look up members and evaluate or select with expressions of their own on one data set at the same time: each gets exactly the results it would get alone, computed columns included. Reading does not change what the data set says afterwards.',
 ['schedules','inputs'],'all pairs and selected triples of reading operations on one data set with all interleavings of their statements up to the preemption bound',
 'Tests use a data set from one thread only; shared scratch state is visible only when another reader runs between two particular statements.',
 ['sttp/data/DataRow.go','sttp/data/DataTable.go','sttp/data/ExpressionTree.go','sttp/data/FilterExpressionParser.go'],[('computed values','DataRow.getComputedValue / expressionTree'),('evaluation','ExpressionTree.Evaluate'),('selection','DataTable.Select')],['values and rows returned to each thread'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))

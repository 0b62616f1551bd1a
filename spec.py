"""The texts of the properties: gen.py turns them into properties.jsonl and MANIFEST.json."""
W = 'src/mpack/mpack-writer.c'
WH = 'src/mpack/mpack-writer.h'
R = 'src/mpack/mpack-reader.c'
RH = 'src/mpack/mpack-reader.h'
N = 'src/mpack/mpack-node.c'
NH = 'src/mpack/mpack-node.h'
X = 'src/mpack/mpack-expect.c'
P = 'src/mpack/mpack-platform.c'
C = 'src/mpack/mpack-common.c'
CH = 'src/mpack/mpack-common.h'

SPEC = []


def spec(pid, title, statement, over, text, why, files, mech, state=(), observe=(), tech=None):
    SPEC.append({'id': pid, 'title': title, 'statement': statement,
                 'quantifier': {'over': over.split(), 'text': text}, 'why_tests_cant': why,
                 'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                             'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                             'observe_at': list(observe), 'hook_needed': None}, 'tech': tech})


# ------------------------------------------------------------------ writer
spec('W01', 'Written bytes are canonical MessagePack, whatever the buffering',
     'A sequence of write calls that ends without error delivers, to a fixed buffer, a flush callback, growable memory or a file, '
     'exactly the bytes of the written values in order, each in its smallest MessagePack encoding (or the old-spec encoding when that is '
     'selected), with nothing lost, duplicated or reordered. '
     'The bytes do not depend on the buffer size, on where flushes fall, or on how a value is split over several calls.',
     'inputs programs schedules configurations',
     'for every program of write calls, every value and length, every buffer size and every position at which a value meets the end of the buffer',
     'The unit tests write short values into a few fixed buffer sizes; a lost or doubled byte needs a value boundary, a flush boundary and a length class to line up.',
     [W, WH],
     [('smallest-encoding selection and native encoders', W + ': mpack_write_u8 .. mpack_start_ext'),
      ('flush of a full buffer and straddling writes', W + ': mpack_writer_ensure, mpack_write_native_straddle')],
     [('position/end/buffer', 'bytes written and not yet flushed', W + ': mpack_writer_t')],
     ['arguments of the flush callback, target buffer, file contents'],
     'deterministic simulation: seeded write programs against simulated sinks, compared byte for byte with a reference encoder')
spec('W02', 'A failed or overflowing write is never reported as success',
     'If a flush fails, a fixed buffer is too small, memory runs out or the disk fails at any point, destroying the writer reports an error of the kind that happened. '
     'Everything a sink received before the failure is an exact prefix of the correct output, no sink is called again after the failure, and nothing is written outside the given buffer.',
     'fault_sequences inputs programs',
     'for every program of write calls and every failure of a flush, allocation or disk write at any point of it, including the final flush in destroy',
     'The tests use an allocation-failure counter and a failing flush for a handful of documents; the failing call, the buffered bytes and the value being split have to coincide.',
     [W], [('sticky error and position reset', W + ': mpack_writer_flag_error'), ('final flush on destroy', W + ': mpack_writer_destroy'),
           ('too_big on a full fixed buffer', W + ': mpack_writer_ensure')],
     [('error', 'first error of the writer', W)], ['return value of destroy, flush callback arguments'],
     'deterministic simulation with fault injection: seeded write programs with failing flushes, allocations and disk; refinement against a prefix model')
spec('W03', 'Growable writers hand over exactly the output, or nothing',
     'A writer that grows its own memory gives the caller, on success, one block that holds exactly the written bytes and that the caller may free; on any error it gives no block and frees all memory it used. '
     'The memory used stays within a constant factor of the bytes written, even when messages are flushed individually.',
     'fault_sequences inputs programs',
     'for every sequence of messages written, every allocation that fails or moves, and every flush between messages',
     'Tests cover growth of a few documents and count leaks; growth inside one value, a failing last shrink, or repeated message flushes are combinations they do not sample.',
     [W], [('doubling growth', W + ': mpack_growable_writer_flush'), ('shrink and hand-over', W + ': mpack_growable_writer_teardown')],
     [('target_data/target_size', 'where the caller receives the block', W)], ['target pointer and size after destroy, live simulated allocations'],
     'deterministic simulation with allocation-fault injection and allocator accounting')
spec('W04', 'Automatically sized containers encode like hand-counted ones',
     'An array or map whose size is determined automatically produces the same bytes as one opened with the right element count beforehand, for any nesting, any element kinds and sizes, and any mixture of the two kinds of container.',
     'inputs programs configurations',
     'for every nesting of automatically sized and pre-sized containers, every element size relative to the internal pages, and any output buffer size',
     'Tests build a few shapes with the default page size; page boundaries falling inside headers, nested builds on later pages and count-width changes need sizes that line up.',
     [W], [('pages of recorded writes', W + ': mpack_builder_begin, mpack_builder_add_page, mpack_builder_flush'), ('replay of the recorded builds', W + ': mpack_builder_resolve'),
           ('element counting', W + ': mpack_builder_track_element')],
     [('builder.current_build/latest_build/pages', 'open builds and their recorded bytes', W)], ['output bytes'],
     'deterministic simulation: seeded build programs with tiny pages, compared with a reference encoder')
spec('W05', 'Automatically sized containers stay safe when memory or the sink fails',
     'If an allocation, flush or any other step fails while automatically sized containers are open, being completed or nested, the writer reports that error once, further calls have no effect, all memory is released on destroy, and what the sink received is a prefix of the correct output.',
     'fault_sequences programs',
     'for every point of a program with automatically sized containers at which an allocation or flush can fail, and every sequence of further calls after it',
     'The tests run one allocation-failure sweep over a few builds and stop using the writer after the first error; calls after the failure are not exercised.',
     [W], [('page allocation', W + ': mpack_builder_begin, mpack_builder_add_page'), ('release on destroy', W + ': mpack_writer_destroy')],
     [('builder.stash_buffer', 'the real output buffer while building', W)], ['output bytes, live allocations, error handler calls'],
     'deterministic simulation with fault injection at allocations and flushes inside builds')
spec('W06', 'A written file is complete and closed exactly when success is reported',
     'If writing to a file reports success, the file contains exactly the written bytes; if opening, writing or closing the file fails, an error is reported and the file holds at most a prefix of them. '
     'A file is closed exactly once if the writer owns it, and never if it does not, also when the failure is reported by jumping out of the error handler.',
     'fault_sequences inputs programs',
     'for every document and every disk error, full disk, short write or failing close at any point',
     'The tests write small files on a healthy disk and one unwritable path.',
     [W], [('file flush and close', W + ': mpack_file_writer_flush, mpack_file_writer_teardown_close'), ('open', W + ': mpack_writer_init_filename')],
     [('context', 'the FILE being written', W)], ['contents of the simulated disk, open FILE count'],
     'deterministic simulation on a simulated disk with injected write, close and open faults')
spec('W07', 'Flushing a message delivers it at once and keeps the stream intact',
     'After a message is explicitly flushed without error, everything written so far has been delivered to the sink; the bytes of the whole stream are the same as without explicit flushes. '
     'Flushing with an open container, or without a sink, is reported as a bug and loses nothing silently.',
     'inputs programs schedules fault_sequences',
     'for every sequence of messages, every placement of explicit flushes and every buffer size',
     'Tests flush once or twice between tiny messages.',
     [W], [('explicit flush', W + ': mpack_writer_flush_message')], [('position', 'bytes not yet delivered', W)], ['bytes seen by the flush callback when the call returns'],
     'deterministic simulation: delivery invariant checked after every explicit flush')

# ------------------------------------------------------------------ reader
spec('R01', 'Decoded values do not depend on how the bytes arrive',
     'Reading a valid stream yields the same tags, numbers, strings, binary data, extensions and timestamps as the MessagePack specification assigns to its bytes, '
     'whether the bytes come from memory, a callback in pieces of any size, or a file, and whatever the buffer size. '
     'Two tags compare as equal exactly when they hold the same value, and their order is consistent.',
     'inputs schedules configurations programs',
     'for every valid stream, every split into deliveries, every buffer size and every mixture of reading calls',
     'Tests decode known byte strings from memory and a few streams with one chunking; a value split at one particular byte by one particular delivery is not sampled.',
     [R, RH], [('tag parsing', R + ': mpack_parse_tag'), ('straddling reads and refills', R + ': mpack_read_native_straddle, mpack_reader_ensure_straddle'),
               ('fill loop', R + ': mpack_fill_range')],
     [('data/end/buffer', 'bytes delivered and not consumed', RH)], ['values returned by the reading calls'],
     'deterministic simulation: simulated sources with seeded chunking, refinement against a reference decoder')
spec('R02', 'Truncated, failed or corrupt input is always reported, never decoded',
     'If the input ends, fails or is not valid MessagePack before the end of what a call must read, that call puts the reader in the error state of what happened and returns an empty value; '
     'everything read before is exact, and a call never succeeds by using bytes that were not delivered.',
     'fault_sequences inputs schedules programs',
     'for every stream, every truncation point, every source error, every corruption, and every reading call in progress at that time',
     'The tests truncate a few documents at a few points and have one corrupt-byte test per rule.',
     [R], [('error on short fill', R + ': mpack_fill_range, mpack_reader_ensure_straddle'), ('tag validation', R + ': mpack_parse_tag')],
     [('error', 'sticky reader error', RH)], ['return values, reader error'],
     'deterministic simulation with injected truncation, source faults and byte corruption; oracle: reference decoder on the delivered prefix')
spec('R03', 'Skipping and discarding consume exactly what reading would',
     'Skipping bytes or discarding an element, with or without a skip callback or seekable file, leaves the reader at the same stream position as reading it would, '
     'never moves beyond it, and fails when the input ends before it.',
     'inputs schedules fault_sequences programs',
     'for every stream, every mixture of reads, skips and discards, every split of the input, and sources with and without skipping or seeking, including failing seeks',
     'Tests discard a few documents; large skips that mix buffered bytes, callbacks and seeks past the end are not covered.',
     [R], [('skip', R + ': mpack_skip_bytes_straddle'), ('file seek', R + ': mpack_file_reader_skip'), ('discard', R + ': mpack_discard')],
     [('skip/fill', 'callbacks of the source', RH)], ['offset of the source and next value read'],
     'deterministic simulation: model of the stream position compared after every skip, with failing and short sources')
spec('R04', 'Consumed plus remaining bytes are exactly the delivered bytes',
     'Between elements, the bytes reported as remaining are exactly those the source delivered and no element consumed, in order; '
     'continuing from them with a new reader, a parser or other code continues the stream without losing or repeating a byte.',
     'schedules inputs programs',
     'for every stream of messages, every split into deliveries, and every point between elements at which the remaining bytes are taken over',
     'The tests check the remaining count on one in-memory document.',
     [R], [('remaining', R + ': mpack_reader_remaining'), ('buffer refill', R + ': mpack_reader_ensure_straddle')],
     [('data/end', 'unconsumed buffered bytes', RH)], ['returned pointer and count'],
     'deterministic simulation: repeated hand-over between readers on one simulated stream, conservation of bytes as invariant')
spec('R05', 'In-place reads return the right bytes or fail without overrunning',
     'Reading data in place returns a pointer to exactly the requested bytes, valid until the next read, or reports that it does not fit the buffer; whether it fits depends only on the sizes, not on how the bytes arrived. '
     'Bytes before or behind the requested ones are neither lost nor overwritten.',
     'schedules inputs configurations',
     'for every length, buffer size, amount of leftover data and split of the input',
     'Tests read a few short strings in place from memory.',
     [R], [('in-place read', R + ': mpack_read_bytes_inplace_notrack, mpack_reader_ensure_straddle'), ('advice', RH + ': mpack_should_read_bytes_inplace')],
     [('buffer/size', 'capacity of the buffer', RH)], ['returned pointer contents and next values'],
     'deterministic simulation: seeded chunking around the buffer capacity, byte comparison with the stream')
spec('R06', 'Copied and allocated reads are exact, terminated and never leak',
     'Reads that copy into a caller buffer or a new allocation give exactly the bytes of the stream, add a terminator where a string is promised, refuse content that breaks the promise (too long, NUL inside, invalid UTF-8), and never write outside the buffer. '
     'When they fail, for any reason, they return nothing to free, leave an empty string where one is promised, and leak nothing.',
     'inputs schedules fault_sequences',
     'for every length, content, split of the input, source failure and allocation failure',
     'Tests use short well-formed strings and one allocation failure sweep.',
     [R], [('allocating read', R + ': mpack_read_bytes_alloc_impl'), ('cstr reads', R + ': mpack_read_cstr_unchecked, mpack_read_utf8')],
     [('allocation', 'block owned by the call until returned', R)], ['returned block, buffer contents, allocator state'],
     'deterministic simulation with source and allocation faults, guarded buffers and allocator accounting')
spec('R07', 'Reading from files reports every disk fault and closes files once',
     'Reading from a file gives the bytes of the file from its current position; a read error, a premature end, a failing open, seek or close is reported and never decoded as data. '
     'The file is closed exactly once if the reader owns it and never if it does not.',
     'fault_sequences inputs',
     'for every file content and every open, read, short read, seek, tell or close fault at any point',
     'Tests read healthy files and one missing path.',
     [R], [('file fill, skip and teardown', R + ': mpack_file_reader_fill, mpack_file_reader_skip, mpack_file_reader_teardown_close')],
     [('context', 'the FILE being read', R)], ['values read, open FILE count'],
     'deterministic simulation on a simulated disk with injected faults')

# ------------------------------------------------------------------ trees
spec('N01', 'A parsed tree equals its message, whatever the source',
     'Parsing valid MessagePack from memory, into a node pool, from a file or from a stream gives a tree with exactly the types, values, lengths, order and bytes of the message, in every encoding width. '
     'The reported message size is exact, so that message after message can be parsed from one source; nothing depends on how the bytes arrived or where allocation pages end.',
     'inputs schedules configurations',
     'for every sequence of messages in every encoding, every source, every split of a stream, and every shape relative to node pages and the parse stack',
     'Tests parse small literals, mostly from memory with default page sizes; page and buffer growth in the middle of containers depends on shape and arrival together.',
     [N, NH], [('parse loop and stack', N + ': mpack_tree_continue_parsing, mpack_tree_push_stack'), ('child allocation from pages', N + ': mpack_tree_parse_children'), ('stream buffer growth', N + ': mpack_tree_reserve_fill')],
     [('parser', 'resumable parse state', NH + ': mpack_tree_parser_t'), ('buffer', 'received bytes', NH + ': mpack_tree_t')], ['every node accessor, mpack_tree_size'],
     'deterministic simulation: simulated sources and chunking, tree walked against a reference decoder')
spec('N02', 'Incremental parsing completes exactly when the message has arrived',
     'Parsing from a non-blocking stream returns false without error only when the stream had nothing more to give and the message is still incomplete; it can be resumed at any point with the same result as an uninterrupted parse. '
     'Once all bytes of a message have arrived the parse succeeds without asking the stream for more, so a blocking peer that waits for an answer is never kept waiting.',
     'schedules inputs fault_sequences',
     'for every message sequence and every division of its bytes into arrivals and empty reads',
     'Tests feed one byte at a time for a few messages; resuming inside a container header or after many empty reads is a matter of schedule.',
     [N], [('pause and resume', N + ': mpack_tree_try_parse, mpack_tree_parse_start, mpack_tree_continue_parsing'), ('exact byte accounting', N + ': mpack_tree_reserve_bytes')],
     [('possible_nodes_left', 'received bytes not yet accounted for', NH), ('state', 'not started, in progress, parsed', NH)], ['result of try_parse, calls of the read function'],
     'deterministic simulation: seeded arrival schedules with would-block, progress and no-needless-read checked at every step')
spec('N03', 'Size, node and pool limits are enforced exactly and bound memory',
     'A message is accepted if and only if its bytes and nodes are within the configured limits and the node pool, however it arrives; otherwise parsing fails with a too-big error. '
     'Lengths or counts declared by a peer never make the parser use memory out of proportion to the limits and to the bytes actually received.',
     'inputs schedules configurations',
     'for every message and every limit around its size and node count, every arrival schedule, and limits changed between messages',
     'Tests use one limit per message and deliver it in one way; enforcement depends on what is already buffered.',
     [N], [('limits', N + ': mpack_tree_reserve_bytes, mpack_tree_reserve_fill, mpack_tree_parse_children'), ('pool', N + ': mpack_tree_init_pool')],
     [('max_size/max_nodes', 'limits', NH), ('node_count', 'nodes of the current message', NH)], ['accept or reject, allocator peak'],
     'deterministic simulation: limits drawn around the model size, seeded arrivals, allocator accounting')
spec('N04', 'Malformed or truncated messages never parse',
     'Parsing arbitrary, corrupted or truncated bytes fails with an error that fits the damage, with size zero and a nil root, without reading outside the data or exhausting the stack, however deep the nesting; '
     'it succeeds only on bytes that the MessagePack specification accepts.',
     'inputs schedules fault_sequences',
     'for every byte string, every truncation and corruption, and every arrival schedule',
     'Tests list some invalid literals; the space of damaged messages and their arrivals is unbounded.',
     [N], [('tag decoding', N + ': mpack_tree_parse_node_contents'), ('bounds accounting', N + ': mpack_tree_reserve_bytes')],
     [('error', 'sticky error', NH)], ['error code, mpack_tree_size, root node'],
     'deterministic simulation with corruption injection; independent decoder as oracle; sanitizer builds')
spec('N05', 'Node accessors return the value or flag the documented error',
     'Each typed accessor, copy, allocation, index and lookup on a parsed tree returns the exact value when the node fits the request, and otherwise flags the documented error and returns a harmless default. '
     'Lookups find a key in either integer encoding, treat duplicates as errors and report absence; copies respect buffer sizes, NUL and UTF-8 rules; after any error every accessor gives its default.',
     'inputs programs fault_sequences',
     'for every tree, every sequence of accessor calls with any arguments, and every allocation failure among them',
     'Tests try each accessor on hand-picked nodes; combinations of encodings, ranges, duplicate keys and buffer sizes are not covered.',
     [N, NH], [('typed access', N + ': mpack_node_u8 .. mpack_node_double_strict'), ('lookups', N + ': mpack_node_map_int_impl, mpack_node_map_str_impl'), ('copies', N + ': mpack_node_copy_cstr, mpack_node_cstr_alloc')],
     [('nil_node/missing_node', 'stand-ins for absent nodes', NH)], ['return values, error state, caller buffers'],
     'deterministic simulation: seeded accessor programs against the reference value, with allocation faults')
spec('N06', 'Allocation and stream failures while parsing are reported and leak nothing',
     'Whenever an allocation fails or the stream reports a failure while a tree is being parsed or read, the tree reports that error, hands out no node data, and destroying it releases all memory exactly once.',
     'fault_sequences schedules inputs',
     'for every message, every allocation that fails (pages, buffer growth, stack growth, copies) and every point at which the stream fails',
     'Tests count allocations on a few documents; a failing reallocation between two arrivals needs schedule and fault together.',
     [N], [('page, buffer and stack growth', N + ': mpack_tree_parse_children, mpack_tree_reserve_fill, mpack_tree_push_stack'), ('cleanup', N + ': mpack_tree_cleanup, mpack_tree_destroy')],
     [('next', 'list of owned pages', NH), ('parser.stack_owned', 'whether the parse stack was allocated', NH)], ['error state, allocator state after destroy'],
     'deterministic simulation with allocation and stream fault injection; allocator accounting')
spec('N07', 'Loading a tree from a file reports every fault and respects the limit',
     'A tree loaded from a file holds exactly the bytes of the file; an empty file, one above the size limit, and any open, seek, read or memory fault are reported as errors and never parsed. '
     'The file is closed exactly once if the tree owns it and never otherwise, and nothing is leaked.',
     'fault_sequences inputs',
     'for every file, every size limit around its size, and every fault at any I/O call',
     'Tests load healthy files and a missing one.',
     [N], [('file loading', N + ': mpack_file_tree_read, mpack_tree_init_stdfile, mpack_tree_init_filename')],
     [('context', 'loaded data', N + ': mpack_file_tree_t')], ['error after init, tree contents, open FILE count'],
     'deterministic simulation on a simulated disk with injected faults')

# ------------------------------------------------------------------ expect
spec('X01', 'Expected numbers arrive exactly or are refused',
     'Reading a number with the Expect functions returns exactly the value in the stream, whatever width and signedness it was encoded with, when the requested type, range or match allows it; '
     'otherwise it flags a type error and returns the documented safe value. No value outside the requested type or range, and no NaN for a range, is ever returned.',
     'inputs schedules fault_sequences programs',
     'for every encoded value, every requested type, range or match value, every split of the input and every fault during the read',
     'Tests check the borders of each type in memory; combinations of encoding, bound and split are not enumerable.',
     [X, 'src/mpack/mpack-expect.h'], [('integer checks', X + ': mpack_expect_u8 .. mpack_expect_i64'), ('range checks', X + ': MPACK_EXPECT_RANGE_IMPL'), ('floats', X + ': mpack_expect_float, mpack_expect_double')],
     [('error', 'sticky reader error', RH)], ['returned values, error state'],
     'deterministic simulation: seeded programs over simulated sources, values compared with a reference decoder')
spec('X02', 'Expected strings and data are complete, checked and within bounds',
     'The Expect functions for strings, binary data and extensions return exactly the bytes, length and type in the stream if type, size limit and content (UTF-8, no NUL, equal to a given string) fit, and otherwise flag the documented error. '
     'They never write outside the given buffer, and when they fail they return an empty string, zero type and size, and no pointer.',
     'inputs schedules fault_sequences',
     'for every value, every size limit around its length, every split of the input, every source or allocation failure',
     'Tests use short values that fit or do not; limits that meet a refill or a fault in the middle of the value are not covered.',
     [X, 'src/mpack/mpack-expect.h'], [('buffers', X + ': mpack_expect_str_buf, mpack_expect_cstr, mpack_expect_bin_buf, mpack_expect_ext_buf'), ('allocations', X + ': mpack_expect_cstr_alloc_unchecked, mpack_expect_bin_alloc, mpack_expect_ext_alloc'), ('matching', X + ': mpack_expect_str_match')],
     [('error', 'sticky reader error', RH)], ['returned values, caller buffers, allocator state'],
     'deterministic simulation with source and allocation faults, guarded buffers, reference decoder')
spec('X03', 'Keys and enums are recognised exactly, duplicates refused',
     'Reading a map with the key functions identifies each listed key once, wherever it appears and however its bytes arrive: the returned index and the found flags tell exactly the keys seen so far, an unlisted key returns the count without error, and a repeated key is an error. '
     'Enum functions return the index of the string in the list, and on any failure the count.',
     'inputs schedules programs fault_sequences',
     'for every map, key list (with prefixes, near misses and repeats), split of the input and fault',
     'Tests read a few small maps in memory; in-place keys that straddle a refill, or unlisted compound keys, are not covered.',
     [X], [('lookup', X + ': mpack_expect_enum_optional, mpack_expect_enum'), ('keys', X + ': mpack_expect_key_cstr, mpack_expect_key_uint')],
     [('found', 'keys seen', 'caller')], ['returned index, found array, next value'],
     'deterministic simulation: seeded maps, key lists and chunkings against a reference lookup')
spec('X04', 'Expected container sizes are within the requested limits',
     'Reading an array or map header with a limit, range or exact count succeeds exactly when the count satisfies it, and reports that count; or-nil variants accept nil as empty. '
     'Storage allocated for the elements holds all of them, on every platform, and when anything fails a safe count is returned and nothing is left allocated.',
     'inputs schedules fault_sequences configurations',
     'for every count up to 2^32-1, every limit around it, element size, allocation failure, and 32 and 64 bit platforms',
     'Tests use small counts; size computations with attacker-chosen counts need 32-bit builds and huge counts.',
     [X, 'src/mpack/mpack-expect.h'], [('counts', X + ': mpack_expect_map_range, mpack_expect_array_max_or_nil'), ('storage', X + ': mpack_expect_array_alloc_impl')],
     [('count', 'declared number of elements', 'stream')], ['returned counts and blocks, allocator state'],
     'deterministic simulation with hostile counts, allocation faults and 32-bit builds')
spec('X05', 'A value of the wrong shape stops an Expect program safely',
     'Whenever an Expect call meets a value of another type, a truncated, failing or invalid input, the reader enters the matching error state, the call returns its documented safe value, '
     'and every later call returns its safe value without touching the source; values read before are unaffected.',
     'inputs fault_sequences programs schedules',
     'for every schema program, every deviation of the data from it at any element, every fault at any byte',
     'Tests try a few wrong types per function on complete in-memory data.',
     [X, R], [('safe values', X + ': all functions'), ('error propagation', R + ': mpack_reader_flag_error')],
     [('error', 'sticky reader error', RH)], ['return values, error state, source calls'],
     'deterministic simulation: mismatching programs, corrupt streams, source faults; every return value checked')

# ------------------------------------------------------------------ errors
spec('E01', 'The first error is kept and reported exactly once',
     'Once a reader, writer or tree meets an error, that first error is what it reports until it is destroyed, and what destroying it returns. '
     'A registered error handler is called exactly once, with that error and object, and not at all when nothing failed; all further operations do nothing, return empty values and call no source, sink or skip callback. '
     'An object initialised in an error state behaves the same from the start.',
     'fault_sequences programs schedules',
     'for every program, every fault at any point, and every sequence of calls after the fault',
     'Tests register handlers in a few places and stop at the first error.',
     [W, R, N], [('flag error', W + ': mpack_writer_flag_error; ' + R + ': mpack_reader_flag_error; ' + N + ': mpack_tree_flag_error')],
     [('error', 'sticky error', W)], ['handler calls, error queries, destroy results'],
     'deterministic simulation with fault injection on all three interfaces; handler calls and states recorded and checked')
spec('E02', 'Error handlers may jump out or destroy the object safely',
     'An error handler may leave by a non-local jump, or destroy the object that failed and then return, at any error whatsoever. '
     'Destroying the object afterwards (if it was not) releases everything exactly once: no leak, no double free or close, no use of freed memory.',
     'fault_sequences programs schedules',
     'for every call in which an error can be raised, every fault raising it, and both ways of leaving the handler',
     'The tests jump out of a few calls; each internal place where an error is raised with work left to do is a separate case.',
     [W, R, N], [('order of cleanup and error report', W + ': mpack_growable_writer_teardown, mpack_file_writer_teardown_close; ' + R + ': mpack_file_reader_teardown_close')],
     [('teardown', 'cleanup callback', W)], ['allocator and FILE accounting, teardown calls'],
     'deterministic simulation with fault injection; the simulated handler longjmps or destroys, resources are accounted')

# ------------------------------------------------------------------ whole library
spec('M01', 'Hostile input never causes undefined behaviour, hangs or waste',
     'Whatever bytes arrive, in whatever pieces, and whichever reading calls the program makes on them (reader, Expect, tree and node functions, skipping, copying, allocating, in-place reading), '
     'the library touches only memory it owns, uses no uninitialised data, always returns, and leaves every buffer it was given intact outside the bytes it was asked to fill. '
     'Nesting, lengths and counts claimed by the input never overflow the stack, a size computation or an allocation, on 64-bit and on 32-bit platforms, and everything allocated is released when the object is destroyed.',
     'inputs programs fault_sequences configurations',
     'for every byte sequence, every chunking of it, every program of reading calls, every failing allocation or source, on 32-bit and 64-bit builds',
     'The tests contain hand-written malformed messages; a hostile length or depth has to meet a particular call, buffer fill and platform to do harm.',
     [R, N, X, C],
     [('bounds before copying', R + ': mpack_reader_ensure_straddle, mpack_read_native_straddle, mpack_fill_range'), ('non-recursive discard', R + ': mpack_discard'),
      ('claimed counts checked against the data', N + ': mpack_tree_reserve_bytes, mpack_tree_parse_children')],
     [('data/end', 'unread bytes in the buffer', RH + ': mpack_reader_t'), ('possible_nodes_left', 'bytes that can still become nodes', NH + ': mpack_tree_parser_t')],
     ['address, memory and undefined-behaviour sanitizers; guard bytes around buffers; allocator accounting; step limits'],
     'deterministic simulation: seeded hostile bytes, chunking and faults against seeded reading programs, under sanitizers on 32- and 64-bit builds')
spec('T01', 'Misuse is flagged as a bug where it happens; correct use never is',
     'With tracking enabled, a program that opens, fills, reads or closes elements against the rules (too many or too few, wrong type, unclosed, wrong kind of close, destroy with open elements) gets mpack_error_bug at that very call, and a correct program never does. '
     'Misuse that every build must notice (a message flush or destroy inside a build or without a flush function, an odd build map, a finished build around an unfinished container, too small buffers, unusable timestamps or old-spec types, use of an unparsed tree, empty pools or limits) is flagged in all configurations. '
     'After the flag nothing more is read, flushed or handed over, and no memory is leaked, freed twice or corrupted.',
     'programs inputs configurations',
     'for every sequence of calls up to and including the first illegal one, every nesting of elements, every position in it, and every error handler',
     'The tests try each illegal call in one short program; the tracking stack has to be right after any history of nesting, growth, builds and partial reads.',
     [C, W, R],
     [('tracking stack', C + ': mpack_track_push, mpack_track_pop, mpack_track_element, mpack_track_bytes, mpack_track_destroy'),
      ('unconditional checks', W + ': mpack_writer_flush_message, mpack_builder_complete; ' + N + ': mpack_tree_root')],
     [('track', 'open elements and what is left in them', C + ': mpack_track_t')], ['error state after each call, mpack_break() calls'],
     'deterministic simulation: seeded programs with one illegal call, refinement of the tracking state against a reference stack; growth of the stack under failing allocations')

spec('G01', 'Every supported configuration behaves the same',
     'Turning off floating point, extensions, strings, the C library, the allocator or compiler built-ins, or compiling the library as C++, removes only the functions that need them. '
     'Everything that remains writes the same bytes, reads the same values and flags the same errors as in the full configuration. '
     'Where a feature is missing the documented substitute applies: raw floats, software shortening of doubles, skipped extension types flagged unsupported, fixed nesting limits.',
     'configurations inputs programs fault_sequences',
     'for every supported combination of the configuration switches explored and every input, program and fault sequence run in it',
     'The test suite builds several configurations but runs the same few samples in them; code used in only one of them meets few inputs.',
     [P, C, W, R, X, N],
     [('own string functions', P + ': mpack_memcmp, mpack_memmove, mpack_strlen'), ('software shortening', CH + ': mpack_shorten_raw_double_to_float'),
      ('no allocator', N + ': mpack_tree_reserve_bytes, mpack_tree_push_stack')],
     [], ['bytes, values and errors of every call'],
     'deterministic simulation: the same seeded programs, streams and faults against builds of different configurations, each compared with the reference model')
spec('D01', 'Debug printing shows the data exactly and never fails on it',
     'Printing data, a file or a node as pseudo-JSON produces the documented text for every value, in any size of buffer, in any split of callback calls, and with the documented truncation, prefix and annotation rules. '
     'A buffer is always null-terminated and never overrun, malformed or truncated data ends in an error note, and nothing is left allocated or changed by printing.',
     'inputs fault_sequences configurations',
     'for every message, every corruption of it, every buffer size, every callback and every failing allocation or file',
     'The tests compare the output for one sample file; buffer boundaries, long numbers, odd types and broken data are not sampled.',
     [C, R, N],
     [('print buffer', C + ': mpack_print_append, mpack_print_flush'), ('elements', R + ': mpack_print_element; ' + N + ': mpack_node_print_element'), ('prefix and escapes', C + ': mpack_tag_debug_pseudo_json')],
     [('mpack_print_t', 'pending output', CH + ': mpack_print_t')], ['text, null terminator, guard bytes, callback calls'],
     'deterministic simulation: seeded data, buffer sizes, callbacks, file and allocation faults against a reference formatter (debug builds)')

# ------------------------------------------------------------------ systems
spec('C01', 'Connected programs exchange every message intact and make progress',
     'When programs exchange messages over byte streams using any mix of the writing and reading interfaces (message flushing, growable or fixed buffers, builders; readers, Expect, blocking and non-blocking trees, streaming relays), '
     'every message sent arrives exactly once, in order and with the same value. '
     'No side reports an error, waits for more data than the message needs, or withholds a message it was told to flush, so every exchange completes however the scheduler and the network split, delay and interleave the bytes.',
     'schedules inputs programs configurations',
     'for every interleaving of clients, servers and relays, every connection capacity, delay and chunking, every buffer size and combination of interfaces',
     'Tests run one object at a time on complete data; a read that waits for a byte too many, or a flush that keeps a byte back, only shows when the peer waits in turn.',
     [W, R, N, X], [('message flush', W + ': mpack_writer_flush_message'), ('reads only as much as needed', R + ': mpack_fill_range; ' + N + ': mpack_tree_reserve_fill'), ('incremental parse', N + ': mpack_tree_try_parse')],
     [('connection', 'bytes in flight between two simulated processes', 'simulator')], ['received values, sequence numbers, blocked tasks'],
     'deterministic simulation of whole systems: real library in every simulated process, seeded scheduler, network and clock; history checked for order, exactly-once and progress')
spec('C02', 'Crashes and broken connections lose only unfinished messages',
     'When processes crash, connections break in the middle of a message, memory runs out or the disk fails, no process accepts a message or a stored file that was not written completely, and nothing acknowledged is lost. '
     'Failures are reported as the I/O or memory error they are, only to those they happened to, and once they stop, clients that reconnect and servers that reload their files finish within a bounded number of steps.',
     'crash_points fault_sequences schedules inputs',
     'for every crash point inside any library call, every byte at which a connection or file is cut, every fault sequence, and every interleaving',
     'No test restarts anything: a torn tail that parses as a shorter valid message, or a writer that reports success before the bytes are out, needs the fault and the reload in one history.',
     [W, R, N], [('truncation is an error', R + ': mpack_fill_range; ' + N + ': mpack_tree_parse'), ('errors of the final flush', W + ': mpack_writer_destroy, mpack_file_writer_teardown_close')],
     [('durable file', 'snapshot that survives crashes', 'simulated disk')], ['acknowledgements, durable file, error codes, completion'],
     'deterministic simulation with crashes, connection cuts, allocation and disk faults; exactly-once and durability checked against the history, liveness as bounded completion')
spec('I01', 'Separate objects do not affect each other',
     'Any number of readers, writers, trees and print calls may be in progress at once, interleaved at any callback or allocation, and each gives the result it gives alone. '
     'This holds also when another of them fails, runs out of memory, or is abandoned in the middle of a call.',
     'schedules programs fault_sequences',
     'for every interleaving of independent objects at callbacks and allocations, and every fault or abandonment of one of them',
     'The tests never have two operations in progress at the same time, so shared static state would go unnoticed.',
     [W, R, N, C], [('all state lives in the object', WH + ': mpack_writer_t; ' + RH + ': mpack_reader_t; ' + NH + ': mpack_tree_t')],
     [], ['bytes and values of every task'],
     'deterministic simulation: cooperative tasks switched inside callbacks and allocations, each compared with the reference model')

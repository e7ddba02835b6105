import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

B = 'bloscpack/'
p('C01', 'Byte data and metadata survive a round trip on every surface',
  'Compressing bytes and decompressing the result returns exactly the original bytes and the original metadata, for every input size, chunk size, blosc setting, checksum, offsets and append-reservation setting, through every surface: files, bytes, file pointers, in-memory chunk lists and the command line. '
  'How the underlying streams split their reads and writes, and how large their buffers are, makes no difference; a stream that returns less than was asked for gives the right result or an exception, never wrong data.',
  ['inputs', 'configurations', 'schedules'],
  'all byte strings, all chunkings (multiples of the chunk size +-1, one-byte last chunk, single chunk, empty), all valid arguments, all ways a stream may split a transfer',
  'the tests use a handful of linspace arrays and default streams; they never vary stream granularity and try few sizes and settings.',
  [B+'file_io.py', B+'abstract_io.py', B+'memory_io.py', B+'args.py', B+'cli.py'],
  [('pack / unpack loops', B+'abstract_io.py'), ('chunk calculation', B+'args.py: calculate_nchunks'), ('chunk read/write', B+'file_io.py: _read_compressed_chunk_fp, _write_compressed_chunk')],
  observe=['return value of unpack_*', 'bytes of the output file', 'returned metadata'])
p('C02', 'NumPy arrays survive a round trip with dtype, shape and layout',
  'Packing a numpy array without object fields and unpacking it returns an array with the same dtype (structured, nested, sub-array and padded dtypes included), shape, C or Fortran order and element bytes, whatever the memory layout of the input (strided, reversed, transposed, broadcast, read-only, non-native byte order, zero-size, zero-dimensional). '
  'The only arrays that may be refused, with an exception, are those with Python objects, those whose dtype numpy itself cannot describe in its file format (overlapping fields), and those whose item size is zero, does not divide the chunk size or exceeds what Blosc can express.',
  ['inputs', 'configurations', 'schedules'],
  'all arrays numpy can express without objects, all chunk sizes and arguments, file and bytes surfaces, all stream granularities',
  'the tests sample about ten arrays; layouts, padded dtypes and chunk boundaries are unbounded.',
  [B+'numpy_io.py', B+'abstract_io.py', B+'file_io.py'],
  [('array metadata', B+'numpy_io.py: _ndarray_meta'), ('contiguity conversion', B+'numpy_io.py: PlainNumpySource'), ('reconstruction', B+'numpy_io.py: PlainNumpySink')],
  observe=['unpacked ndarray'])
p('C03', 'Any history of appends reads back as the concatenation',
  'After any sequence of appends (API on files or file pointers, or command line, with any mix of blosc arguments), the archive decompresses to the original data followed by every appended piece in order, with its metadata unchanged. '
  'A file-pointer append returns the number of chunks it added; the header and offsets then account exactly for the data (chunk count, last chunk size, remaining reservation, one exact offset per chunk), all other header fields keep their values. '
  'An append to a non-empty archive raises NotEnoughSpace exactly when it needs more chunks than remain reserved.',
  ['histories', 'inputs', 'configurations'],
  'all append sequences with sizes around the chunk boundary, empty appends, reservations from zero up, mixed blosc arguments, archives with and without metadata and checksums',
  'the tests do at most two appends with fixed sizes; accounting errors only show after particular sequences.',
  [B+'append.py', B+'args.py', B+'headers.py'],
  [('append_fp', B+'append.py'), ('reservation check', B+'append.py: NotEnoughSpace'), ('header and offset rewrite', B+'append.py, '+B+'file_io.py: _write_offsets')],
  state=[('max_app_chunks', 'remaining reserved offset entries', 'header bytes 24..31')],
  observe=['return value', 'archive bytes', 'unpack result'])
p('C04', 'A refused append or metadata rewrite changes nothing',
  'When an append or an in-place metadata rewrite is refused because the request is not acceptable (not enough reserved chunks, no offsets, invalid or incomplete arguments, metadata unchanged, metadata too large for its allocation or not serialisable, incompatible checksum, archive without a metadata section, unreadable or malformed archive), the archive is byte-for-byte what it was before. '
  'This holds for the command line too, including an append that also replaces metadata.',
  ['histories', 'inputs', 'configurations'],
  'all refusal reasons crossed with archive shapes, reached at any point of an operation history, on files and file pointers',
  'the tests assert that the exception is raised in one or two situations and never compare the archive afterwards.',
  [B+'append.py', B+'file_io.py', B+'cli.py'],
  [('checks precede the first write', B+'append.py: append_fp, _rewrite_metadata_fp'), ('size check before header write', B+'file_io.py: _write_metadata')],
  observe=['archive bytes before and after'])
p('C05', 'In-place metadata rewrite is exact, contained and crash-safe',
  'After any sequence of in-place metadata rewrites the archive returns the metadata last written, every other byte of the archive (header, offsets, chunks, total length) is unchanged and the allocated metadata space keeps its size. '
  'If a rewrite of checksummed metadata is interrupted at any write, reading the archive yields the old metadata, the new metadata, or an error, never a mixture, and the data chunks stay intact.',
  ['histories', 'crash_points', 'inputs'],
  'all rewrite sequences with any codec, level and same-size checksum override, any metadata sizes that fit, crash at every raw write boundary and sector tear',
  'the tests rewrite once with one dict and never interrupt.',
  [B+'append.py', B+'file_io.py'],
  [('_rewrite_metadata_fp/_recreate_metadata', B+'append.py'), ('fixed max_meta_size allocation', B+'file_io.py: _write_metadata')],
  observe=['_read_metadata / unpack result', 'archive bytes outside the metadata section'])
p('C06', 'Damage under a checksum is never delivered as data',
  'When any byte of a checksummed chunk, of its stored checksum, of a checksummed metadata payload or of its checksum is altered, or the archive is cut short anywhere before the end of its last chunk, every way of reading it (API, arrays, command line) fails with an exception or non-zero exit, and any bytes already delivered are a prefix of the true data. '
  'Damage inside a chunk body or its checksum that leaves lengths intact is reported as ChecksumMismatch.',
  ['fault_sequences', 'inputs', 'configurations'],
  'all bit flips, overwritten, zeroed or lost ranges and truncations, at all positions, all checksum kinds, all codecs',
  'one test overwrites one fixed position of one file under one checksum.',
  [B+'abstract_io.py', B+'file_io.py', B+'checksums.py'],
  [('digest comparison before decompression', B+'abstract_io.py: unpack'), ('metadata digest comparison', B+'file_io.py: _read_metadata')],
  observe=['exception', 'bytes written to the sink'])
p('C07', 'Interrupted compression never passes for a finished archive',
  'If compression to a file is cut off at any point (process killed between or during writes), the file left behind either decompresses to exactly the complete input or is rejected with an error; for checksummed archives this also holds when a power failure loses an arbitrary subset of the unsynced sectors (a sector being written as a unit). '
  'As long as not all chunks are in the file, every offset entry present in the file is -1.',
  ['crash_points', 'inputs', 'configurations'],
  'every raw write boundary and sector tear of every compression surface, random subsets of lost sectors, all settings',
  'no test interrupts a compression; crash points are unbounded.',
  [B+'abstract_io.py', B+'file_io.py', B+'numpy_io.py'],
  [('offsets initialised to -1 and filled in last', B+'file_io.py: CompressedFPSink.init_offsets/finalize'), ('chunk count in the header', B+'headers.py')],
  observe=['crash image of the output file read back'])
p('C08', 'Interrupted append loses nothing that was stored before it',
  'If an append to a checksummed archive is cut off at any write, the archive then decompresses to the old data followed by a (possibly empty) prefix of the new data, or is rejected; it may be rejected only while its last chunk is partly overwritten, and the chunks before the last one and the metadata stay intact in place. '
  'A later append to what is left (the 32-byte header being written as a unit) either yields that data followed by the newly appended data with a consistent header, or is refused leaving the file unchanged.',
  ['crash_points', 'histories', 'inputs'],
  'every raw write boundary and sector tear during every append of a history, followed by recovery reads and further appends',
  'no test interrupts an append.',
  [B+'append.py', B+'file_io.py'],
  [('order: last chunk, new chunks, header, offsets', B+'append.py: append_fp')],
  observe=['crash image read back', 'chunks at the old offsets'])
p('C09', 'Success is reported only when the result is complete',
  'If an I/O error, full disk, short input, memory allocation failure or interrupt strikes any operation at any point, the operation reports it by an exception (or non-zero exit status); whenever an operation returns normally, or the command exits 0, its complete and correct result is in the output file or return value. '
  'Once the faults stop, repeating the compression or decompression succeeds.',
  ['fault_sequences', 'inputs', 'configurations'],
  'every fault kind (EIO, ENOSPC, short transfers, close and open failures, input that ends early, MemoryError, KeyboardInterrupt) at every I/O and codec call of every operation',
  'no test injects a fault.',
  [B+'file_io.py', B+'abstract_io.py', B+'append.py', B+'numpy_io.py', B+'cli.py'],
  [('exceptions propagate, files closed by with blocks', B+'file_io.py'), ('length of each read', B+'file_io.py: PlainFPSource')],
  observe=['exception/exit status against output contents'])
p('C10', 'Operations touch only their named output',
  'An operation creates, modifies, truncates or deletes no file other than the output it was told to write (for append and metadata rewrite: the archive), whether it succeeds or fails; inputs are never modified and no temporary files remain. '
  'A request whose data input and output are the same file, under the same name or another link to it, is refused without changing that file.',
  ['inputs', 'fault_sequences', 'configurations'],
  'every operation, with bystander files and links around, with and without injected failures',
  'tests look only at the expected output.',
  [B+'file_io.py', B+'append.py', B+'numpy_io.py', B+'cli.py'],
  [('open modes of inputs and outputs', B+'file_io.py, '+B+'append.py, '+B+'numpy_io.py')],
  observe=['snapshot of the whole simulated file system before and after'])
p('C11', 'No file handle outlives the operation that opened it',
  'Every file an operation opens by name is closed by the time the operation returns or raises, even if it fails half way; file objects handed in by the caller are left open and usable.',
  ['fault_sequences', 'inputs', 'configurations'],
  'every operation, succeeding, given bad input, or struck by a fault at any I/O event',
  'CPython reference counting hides leaks from tests, and no test fails an operation half way.',
  [B+'file_io.py', B+'numpy_io.py', B+'append.py', B+'cli.py'],
  [('with blocks', B+'file_io.py, '+B+'append.py, '+B+'cli.py'), ('unpack_ndarray_from_file', B+'numpy_io.py')],
  observe=['set of open handles of the simulated file system'])
p('C12', 'Concurrent operations on separate outputs do not disturb each other',
  'Operations run at the same time in several threads, on different outputs or different archives, each give the same result as when run alone, under every interleaving, even if they share argument objects, input arrays, input bytes, metadata or input files, and even if some of them fail.',
  ['schedules', 'inputs', 'configurations'],
  'all thread interleavings at bytecode granularity of 2 to 4 concurrent operations of any kind',
  'no test uses threads; the interleaving is chosen by the interpreter.',
  [B+'numpy_io.py', B+'abstract_io.py', B+'file_io.py', B+'append.py', B+'args.py', B+'log.py'],
  [('per-call source and sink objects', B+'file_io.py, '+B+'numpy_io.py'), ('argument objects not written to', B+'numpy_io.py: pack_ndarray, '+B+'append.py')],
  observe=['result of each operation against its solo result'])
p('C13', 'Results depend only on the arguments, and arguments are not changed',
  'The result of an operation depends only on its arguments and input data: not on which operations ran before it, succeeded or failed, nor on the log level. '
  'No operation modifies an object passed to it (argument objects, metadata, arrays, bytes) or leaves process-wide state changed, except that the command line sets its log level and thread count.',
  ['histories', 'inputs', 'configurations'],
  'all sequences of operations, including failing ones, with argument objects reused across calls',
  'each test builds fresh argument objects and runs one operation.',
  [B+'numpy_io.py', B+'file_io.py', B+'append.py', B+'args.py', B+'abstract_objects.py', B+'log.py'],
  [('defaults built per call', B+'abstract_io.py: pack'), ('argument objects copied', B+'numpy_io.py, '+B+'file_io.py: _write_metadata')],
  observe=['result bytes against the same call in a fresh process', 'argument objects before and after'])
p('C14', 'Every archive written conforms to the documented format',
  'Every archive written or updated by any surface conforms to the format in the README and can be read by an independent implementation of it: header fields match the arguments and data, each used offset is the exact position of its chunk, unused offsets are -1, every chunk is a Blosc buffer of the stated size followed by the right checksum, and the metadata section is laid out as described with uncompressed metadata stored as codec 0 and level 0 and compression dropped when it does not help.',
  ['inputs', 'configurations', 'histories'],
  'all data, arguments, metadata and operation histories',
  'tests read back with the same code that wrote; a symmetric error in both passes.',
  [B+'headers.py', B+'file_io.py', B+'append.py', B+'checksums.py', 'README.rst'],
  [('header encoders', B+'headers.py'), ('offset bookkeeping', B+'file_io.py: CompressedFPSink')],
  observe=['archive bytes, parsed by an independent parser'])
p('C15', 'Restoring an array never writes or exposes memory outside the data',
  'Restoring a numpy array from any archive, however its chunks and array metadata disagree (extra appended data, missing or oversized chunks, wrong shape or dtype), never writes outside the memory of the array being built and never returns an array containing bytes that were not decompressed from the archive; a disagreement raises an exception.',
  ['inputs', 'histories', 'fault_sequences'],
  'all archives: appended to, hand-made by a conforming writer with mismatching shapes, or damaged in headers and metadata',
  'no test unpacks a mismatching archive; memory errors are silent.',
  [B+'numpy_io.py', B+'append.py'],
  [('PlainNumpySink.put', B+'numpy_io.py'), ('unpack_ndarray', B+'numpy_io.py')],
  observe=['destination range of every native decompression', 'poisoned fresh memory in the returned array'])
p('C16', 'The command line keeps its contract',
  'blpk exits 0 exactly when the requested operation was carried out completely; it never overwrites an existing output unless --force is given, refuses a missing input, a wrong extension, a malformed chunk size or an unreadable metadata file without creating an output, and reports these, checksum mismatches and format version mismatches as an "error:" message with non-zero exit instead of a traceback. '
  'Options (typesize, level, shuffle, codec, chunk size, checksum, offsets, metadata, number of threads) take effect as given, default output names add or strip .blp, and info prints the true header, metadata, offsets and first-chunk values.',
  ['inputs', 'configurations', 'histories', 'fault_sequences'],
  'all subcommands, aliases, option combinations, file situations and archive conditions',
  'the cli test covers a few fixed commands on the success path.',
  [B+'cli.py', B+'log.py'],
  [('check_files', B+'cli.py'), ('log.error exits', B+'log.py'), ('main', B+'cli.py')],
  observe=['exit status', 'standard output', 'files'])
p('C17', 'Compression and decompression stream with bounded look-ahead',
  'Compressing, decompressing and appending file to file work chunk by chunk: at any moment the amount of input consumed exceeds what has been put out by no more than a few chunks, and the memory in use stays within a few chunks, independent of the file size. '
  'Compression without offsets writes its output strictly front to back without seeking, and reads its plain input once, front to back, so a non-seekable input works.',
  ['inputs', 'configurations', 'schedules'],
  'all file sizes, chunk sizes and settings, all stream granularities',
  'tests compare final files only.',
  [B+'abstract_io.py', B+'file_io.py', B+'append.py'],
  [('read-compress-write loop', B+'abstract_io.py: pack'), ('lazy sources', B+'file_io.py')],
  observe=['order of raw reads and writes at the simulated file system'])
p('C18', 'Reading any damaged archive ends quickly',
  'Whatever the bytes of an archive, every operation reading it (decompress, array restore, info, append, metadata rewrite) finishes, with a result or an exception, after a number of steps and I/O requests bounded in proportion to the size of the file; it never loops without progress.',
  ['inputs', 'fault_sequences'],
  'all byte strings: damaged headers, counts, sizes and offsets, truncations, random bytes',
  'only well-formed archives and one fixed corruption are tested; termination is over all inputs.',
  [B+'file_io.py', B+'headers.py', B+'append.py', B+'numpy_io.py'],
  [('loops driven by header counts stop at end of file', B+'file_io.py')],
  observe=['step and I/O event counters'])
p('C19', 'Append never turns damaged data into data that verifies',
  'If the checksummed last chunk of an archive, its checksum or the checksummed metadata is damaged, or the archive is cut short, an append is refused and the file stays unchanged; damage elsewhere stays detectable after the append. '
  'No append ever makes an archive whose damage a read would have reported read back without an error.',
  ['fault_sequences', 'histories', 'inputs'],
  'all damage positions and kinds, before any append of a history, all checksums',
  'no test appends to a damaged archive.',
  [B+'append.py', B+'file_io.py'],
  [('read of the last chunk before rewriting it', B+'append.py: append_fp')],
  observe=['exception and archive bytes', 'unpack after append'])
p('C20', 'Every conforming archive is read, whoever wrote it',
  'Any archive that conforms to the documented format version 3, including ones this version would not write itself (any codec, blosc flags, checksum, reservation and metadata preallocation, unknown chunk or last-chunk size, non-uniform chunks, unfilled offsets, trailing bytes, historic array dtype encodings), decompresses to its data and metadata. '
  'Archives of another format version, with unknown option bits, checksum, codec or serializer identifiers, or with an unknown number of chunks are rejected with an exception, never misread.',
  ['inputs', 'configurations'],
  'all archives an independent conforming writer can produce',
  'tests only read archives just written by the same code.',
  [B+'headers.py', B+'file_io.py', B+'numpy_io.py'],
  [('decoders', B+'headers.py'), ('sequential chunk reader', B+'file_io.py'), ('dtype compatibility', B+'numpy_io.py: _conv')],
  observe=['unpack result'])
p('C21', 'Header and option codecs are inverse and range-checked',
  'Encoding and decoding of headers, option bit fields and integers are inverse functions, and values out of range are rejected.',
  ['inputs'], 'all field values', 'tests sample a few values.',
  [B+'headers.py'], [('encode/decode', B+'headers.py')])
p('C22', 'Chunk arithmetic covers the input exactly',
  'For every input size and chunk size the computed chunk count, chunk size and last chunk size are in range and add up to the input size.',
  ['inputs'], 'all sizes up to the limits', 'tests sample a few sizes.',
  [B+'args.py'], [('calculate_nchunks', B+'args.py')])
p('C23', 'Human-readable sizes parse and print consistently',
  'Readable sizes such as 1M parse to the documented number of bytes, and printed sizes are within rounding of the true size.',
  ['inputs'], 'all sizes and suffixes', 'tests sample a few strings.',
  [B+'pretty.py'], [('pretty_size/reverse_pretty', B+'pretty.py')])
p('C24', 'The number of blosc threads does not affect the data',
  'Compressing or decompressing with any number of blosc threads yields archives that decompress to the same data.',
  ['schedules', 'configurations'], 'all thread counts and native interleavings', 'tests use the default thread count and the native scheduler.',
  [B+'cli.py'], [('set_nthreads', B+'cli.py: process_nthread_arg')])
for q in P:
    assert len(q['title']) <= 80, q['id']
with open('/verif/properties.jsonl', 'w') as f:
    for q in P:
        f.write(json.dumps(q) + '\n')

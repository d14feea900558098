"""Writes /verif/properties.jsonl (kept as code so the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

p('C01', 'Stored objects read back identical under their git id',
  'Storing an object of any type, content and size, fed to a loose, full-git or in-memory database by a stream that is read in chunks of any size and may return less than asked for, gives it as id the SHA-1 of "<type> <size>\\0<content>". Reading that id back from the same database yields the same type, size and bytes, both as info and as stream. With an output stream override installed the same bytes and id are produced but the database itself is left unchanged.',
  ['inputs', 'configurations'], 'every object type, every content, every size and chunk size (including 0, exact multiples of the chunk size and one either side), loose / git / memory database, with and without an output override',
  'Tests store a 17 byte text, 250 four-byte integers and two 50 MB buffers whose length is never at a chunk boundary; the claim ranges over all sizes relative to the copy chunk and all contents.',
  ['gitdb/db/loose.py', 'gitdb/db/mem.py', 'gitdb/db/git.py', 'gitdb/fun.py', 'gitdb/stream.py'],
  [('store()', 'gitdb/db/loose.py: LooseObjectDB.store'), ('header + chunked copy', 'gitdb/fun.py: write_object, stream_copy, loose_object_header'), ('memory store', 'gitdb/db/mem.py: MemoryDB.store/stream')],
  ['IStream.binsha after store', 'db.info(sha), db.stream(sha).read()'])

p('C02', 'Sized reads and rewinds of object streams return the exact bytes',
  'Reading an object stream with any sequence of positive read sizes returns, at each read, exactly the next min(n, remaining) bytes of the object: never more, and fewer (or nothing) only at the end of the object. Rewinding to the start at any point makes the stream deliver the object again from its first byte. This holds for loose objects and for objects stored whole in a pack, however their data was compressed.',
  ['inputs', 'histories'], 'every sequence of read sizes and rewinds, every valid zlib encoding of the object (stored blocks of any length, highly and barely compressible parts, flush markers), every object size',
  'Tests read whole objects or one fixed chunk size from data compressed by zlib at one level; the window arithmetic depends on how compressed and uncompressed offsets interleave.',
  ['gitdb/stream.py'], [('sliding compressed window', 'gitdb/stream.py: DecompressMemMapReader.read'), ('header parsing', 'gitdb/stream.py: DecompressMemMapReader._parse_header_info/new'), ('rewind', 'gitdb/stream.py: DecompressMemMapReader.seek')],
  ['stream.read(n)', 'stream.seek(0)'],
  [dict(name='_br/_cws/_cwe/_buf', meaning='uncompressed position, compressed window, header leftover', where='gitdb/stream.py: DecompressMemMapReader')])

p('C03', 'Walking a pack visits every entry exactly once and terminates',
  'Iterating over the objects of a valid pack file yields every entry once, in file order, with its true offset, type, size and (un-deltified) data, and then stops. This holds for any entry sizes, including empty objects, and for any valid compression of each entry.',
  ['inputs'], 'every sequence of entries (kinds, sizes including 0) and every zlib encoding of each entry',
  'Three fixture packs are walked; no empty entries and only the block structures zlib happened to choose.',
  ['gitdb/pack.py', 'gitdb/stream.py'], [('next-offset computation', 'gitdb/pack.py: PackFile._iter_objects'), ('compressed extent', 'gitdb/stream.py: DecompressMemMapReader.compressed_bytes_read')],
  ['PackFile.stream_iter()'])

p('C04', 'Pack entry headers survive encoding and decoding',
  'The pack entry header written for any object type and any size decodes to the same type and size and to its own length, and is the encoding the git pack format prescribes. Decoding any header bytes, including the base reference of offset and reference deltas, gives the type, size, base distance or base id, and data start that git assigns to those bytes.',
  ['inputs'], 'all types 1-7, all sizes and base distances up to 2^64, all header byte strings of up to 10+10 bytes',
  'Headers met in tests come from small objects (1-3 size bytes) and short base distances.',
  ['gitdb/fun.py', 'gitdb/pack.py'], [('encode', 'gitdb/fun.py: create_pack_object_header'), ('decode', 'gitdb/fun.py: pack_object_header_info'), ('delta base decode', 'gitdb/pack.py: pack_object_at')],
  ['create_pack_object_header / pack_object_header_info', 'PackFile.info(offset), PackFile.stream(offset)'])

p('C05', 'Applying a well-formed delta reproduces the target exactly',
  'For every well-formed git delta and base object, the delta result has exactly the size the delta announces and is exactly the concatenation, in order, of the base ranges its copy commands name (a zero copy length meaning 65536) and the literal bytes of its insert commands.',
  ['inputs'], 'all sequences of copy and insert commands within the bound, all command-byte masks, all offsets (32 bit) and lengths (24 bit), all base sizes',
  'Fixture packs only hold deltas git chose to write: low offsets, short copies, few masks; 0x10000-length and 3-byte-length copies do not occur.',
  ['gitdb/fun.py', 'gitdb/stream.py'], [('opcode interpreter', 'gitdb/fun.py: apply_delta_data'), ('size header', 'gitdb/fun.py: msb_size'), ('buffers', 'gitdb/stream.py: DeltaApplyReader._set_cache_brute_')],
  ['apply_delta_data output', 'DeltaApplyReader.read()/size'])

p('C06', 'A malformed delta command stream is an error, never data',
  'A delta command stream that contains the reserved zero command, a copy that reaches outside the base object, or a command cut off by the end of the delta makes applying the delta fail with an exception. It never completes normally.',
  ['inputs'], 'every byte string of up to the bound as command stream, every base size',
  'No test applies a damaged delta; where in the stream the damage sits (last command or not) matters.',
  ['gitdb/fun.py'], [('bounds tests and final length assertion', 'gitdb/fun.py: apply_delta_data')],
  ['apply_delta_data raises'])

p('C07', 'Deltified objects resolve through their whole base chain',
  'An object stored in a pack as a chain of deltas, by any mix of offset and reference deltas ending at a whole object of the same pack, is returned with the type of that whole object and with the size and bytes obtained by applying the deltas from the base upwards, whatever the intermediate sizes; sized reads and rewinds of it behave as for whole objects. Info and stream agree on id, type and size, and a chain whose base is missing from the pack is reported as an error.',
  ['inputs', 'configurations'], 'all chain shapes up to the bound, mixing both delta kinds in every order, all intermediate sizes',
  'Fixtures never have an offset delta below a reference delta and chains only as git writes them.',
  ['gitdb/pack.py', 'gitdb/stream.py'], [('chain collection', 'gitdb/pack.py: PackFile.collect_streams, PackEntity.collect_streams_at_offset'), ('chain application', 'gitdb/stream.py: DeltaApplyReader'), ('delta info', 'gitdb/pack.py: PackEntity._object')],
  ['PackEntity.info/stream', 'PackedDB.info/stream'])

p('C08', 'Pack index lookup finds exactly the listed ids',
  'Looking up a 20-byte id in a valid pack index of version 1 or 2 returns the position of that id if the index lists it, and reports it absent otherwise. This includes ids with the smallest and largest first byte, first and last table entries and empty fan-out buckets.',
  ['inputs'], 'every valid (sorted) index of up to the bound of entries and every 20-byte id',
  'Tests look up the ids of three fixture indexes and almost no absent id; bucket borders depend on which bytes happen to occur.',
  ['gitdb/pack.py'], [('fan-out bisection', 'gitdb/pack.py: PackIndexFile.sha_to_index'), ('fan-out table', 'gitdb/pack.py: PackIndexFile._read_fanout')],
  ['PackIndexFile.sha_to_index', 'PackedDB.has_object'])

p('C09', 'Pack index fields are returned exactly at any offset size',
  'For every entry of a valid pack index (version 1 or 2) the id, pack offset and checksum returned for its position are exactly the ones the file stores there, including pack offsets of 2 GiB and more that live in the large-offset table. The bulk list of offsets equals the offsets of the single entries, and the two trailing checksums are returned as stored.',
  ['inputs'], 'every index content, every number of entries, every position, offsets up to 2^63',
  'The large-offset case is an explicitly skipped test (test_pack_64); all fixture offsets are below 2 GiB.',
  ['gitdb/pack.py'], [('v1/v2 accessors', 'gitdb/pack.py: PackIndexFile._entry_v*, _offset_v*, _sha_v*, _crc_v*'), ('bulk offsets', 'gitdb/pack.py: PackIndexFile.offsets'), ('table layout', 'gitdb/pack.py: PackIndexFile._initialize')],
  ['PackIndexFile.entry/offset/sha/crc/offsets'])

p('C10', 'Written packs and their indexes describe exactly the given objects',
  'A pack written from any sequence of objects carries the right object count, one entry per object with its type, size and compressed data, and the SHA-1 of everything before it as trailer. Its index lists for every object id the entry offset and the CRC-32 of exactly that entry, plus the pack checksum. If fewer objects arrive than announced, or an object delivers a different amount of data than its size, writing fails with an exception.',
  ['inputs', 'fault_sequences'], 'every number (bounded), type and size of objects relative to the copy chunk, every announced count, short-delivering streams',
  'Tests write one pack per fixture, never read the CRCs of what they wrote against recomputed ones at chunk boundaries, and sizes stay below one chunk.',
  ['gitdb/pack.py'], [('pack writer', 'gitdb/pack.py: PackEntity.write_pack'), ('chunked compress + crc', 'gitdb/pack.py: write_stream_to_pack')],
  ['bytes passed to pack_write / index_write', 'returned checksums'])

p('C11', 'An index written for any set of entries reads back entry for entry',
  'For any set of distinct ids with any CRC and any pack offset, given in any order, the index file written for them is a valid version 2 index: reading it returns every id at its sorted position with its own CRC and offset, looking every id up finds it, and offsets of 2 GiB and more survive. Its trailing checksum is the SHA-1 of everything before it and is the one reported to the caller.',
  ['inputs'], 'every set of up to the bound of entries in every order, all ids, CRCs and offsets up to 2^63',
  'Only small offsets and the ids of fixture objects are ever written.',
  ['gitdb/pack.py'], [('index writer', 'gitdb/pack.py: IndexWriter.append/write')],
  ['IndexWriter.write output read by PackIndexFile'])

p('C12', 'Abbreviated ids resolve to the one matching object or fail',
  'Resolving an abbreviated hex id (from three digits up, odd or even length, in either letter case) returns the full id when exactly one stored object has that prefix, reports ambiguity when two or more different objects have it, and reports a missing object (in an error that can be printed) when none has. This holds for a pack index, a packed, loose or compound database, and wherever the matching objects live, including the same object being stored in several places.',
  ['inputs', 'configurations'], 'all sets of ids up to the bound, all prefixes and prefix lengths, all placements over packs and loose storage',
  'Fixture ids have no shared prefixes, so the ambiguous branch inside one pack is never reached (the tests say so in a comment).',
  ['gitdb/pack.py', 'gitdb/fun.py', 'gitdb/db/pack.py', 'gitdb/db/loose.py', 'gitdb/db/base.py'],
  [('index prefix search', 'gitdb/pack.py: PackIndexFile.partial_sha_to_index'), ('nibble compare', 'gitdb/fun.py: is_equal_canonical_sha'), ('database level', 'gitdb/db/*.py: partial_to_complete_sha, partial_to_complete_sha_hex')],
  ['partial_to_complete_sha_hex / partial_to_complete_sha'])

p('C13', 'A compound database serves exactly the union of its parts',
  'A database combined from other databases (nested ones included) contains an object if and only if one of its parts does; info and stream of a contained object come from a part that has it, an absent object is reported as missing, size is the sum over the parts and enumeration lists every part. After its caches are refreshed (forced, or when the time stamps of the changed directories show the change, which is then reported to the caller) this is true of the current contents, for any earlier history of queries and changes; membership tests with "in" agree.',
  ['histories', 'configurations'], 'all placements of objects over parts, all histories of queries, content changes and refreshes up to the bound',
  'Tests query one fixed repository and never change contents between queries.',
  ['gitdb/db/base.py', 'gitdb/db/git.py'], [('query with cache', 'gitdb/db/base.py: CompoundDB._db_query'), ('refresh', 'gitdb/db/base.py: CompoundDB.update_cache')],
  ['has_object/info/stream/size/sha_iter of CompoundDB'],
  [dict(name='_db_cache', meaning='id to part that last answered', where='gitdb/db/base.py: CompoundDB')])

p('C14', 'A packed database follows the packs on disk and ignores query history',
  'After a refresh that is forced, or made when the time stamp of the directory has changed since the last one, a packed database consists of exactly the packs present in its directory (a pack file whose index file does not exist yet, or no longer, is not part of it and disturbs nothing): new ones are served, removed ones are not, unchanged ones stay. Which packs are consulted first never changes an answer: an object is found exactly when one of those packs lists it, and what is returned belongs to that id, for any history of earlier queries.',
  ['histories', 'configurations'], 'all before/after sets of packs up to the bound, all contents of the packs, all histories of queries (hit counts, resort interval)',
  'One pack is renamed away and back once; the priority resort after 500 hits is only passed through with everything present.',
  ['gitdb/db/pack.py'], [('refresh', 'gitdb/db/pack.py: PackedDB.update_cache'), ('priority search', 'gitdb/db/pack.py: PackedDB._pack_info, _sort_entities')],
  ['PackedDB.entities/has_object/info/stream/size/sha_iter'],
  [dict(name='_entities', meaning='[hits, pack, lookup function] per pack', where='gitdb/db/pack.py: PackedDB')])

p('C15', 'Alternates follow the alternates file',
  'After a refresh, a reference database consists of exactly the usable object directories its alternates file names, each once; entries that are unusable are skipped without disturbing the others, and a missing file means no alternates. Objects of alternates, and of theirs in turn, are found through the git database that refers to them; alternates that lead back to a database on the way, or to themselves, change nothing about that and make nothing run forever. Names of directories may consist of any bytes.',
  ['histories', 'configurations'], 'all successive contents of the alternates file (subsets, order, duplicates, unusable entries, missing file) up to the bound, every graph of alternates of a few databases, cycles included',
  'Tests use one valid and one invalid entry in three fixed sequences.',
  ['gitdb/db/ref.py', 'gitdb/db/git.py'], [('re-read', 'gitdb/db/ref.py: ReferenceDB._update_dbs_from_ref_file'), ('refresh', 'gitdb/db/ref.py: ReferenceDB.update_cache')],
  ['ReferenceDB.databases(), has_object'])

p('C16', 'A failed or interrupted store never leaves a wrong object behind',
  'If storing a loose object fails at any file-system step (including disk-full short writes), the caller gets an exception, and nothing of the failed attempt remains: no temporary file and no object under that id that was not complete. If the process dies at any step instead, the file found under any object name is either absent or the complete object, and previously stored objects are untouched.',
  ['fault_sequences', 'crash_points'], 'every single failing file-system call (error or short write), every bounded run of consecutive ones, and every crash point during a store, with the object already present or not, for content stores and direct copies of compressed data',
  'No test makes a file-system call fail.',
  ['gitdb/db/loose.py', 'gitdb/stream.py'], [('temp file + rename', 'gitdb/db/loose.py: LooseObjectDB.store'), ('short write detection', 'gitdb/stream.py: FDCompressedSha1Writer.write/close, FDStream.write')],
  ['directory contents after the fault', 'exception at the caller'])

p('C17', 'Locked files are exclusive and replaced all-or-nothing',
  'At any time at most one holder has a file locked; a second attempt fails without disturbing the holder (locks of different files do not meet), and a holder that reads gets the contents of the file. After a commit the file holds exactly what was written, after a rollback, a failed open, a commit that fails to replace it or the deletion of an unfinished holder it is unchanged, and in all of these cases the lock is released; if the process dies at any step the file holds the old or the complete new content.',
  ['schedules', 'crash_points', 'fault_sequences', 'histories'], 'all interleavings of two holders, all operation sequences up to the bound, all crash points, all single and consecutive failing file-system calls',
  'One fixed sequence of operations on one file is tested, without failing calls.',
  ['gitdb/util.py', 'gitdb/stream.py'], [('lock file', 'gitdb/util.py: LockedFD.open'), ('commit/rollback', 'gitdb/util.py: LockedFD._end_writing')],
  ['file and lock file on disk'],
  [dict(name='_fd/_write', meaning='open descriptor and mode', where='gitdb/util.py: LockedFD')])

p('C18', 'Merging a chain of deltas equals applying them one after the other',
  'Merging any chain of well-formed deltas, each produced against the result of the next, into a single list of changes and applying that list to the base object gives the same bytes and size as applying the deltas one after the other. The merged changes are contiguous and non-empty.',
  ['inputs'], 'all chains up to the bound of deltas and commands per delta, with every overlap between copy ranges and chunk borders',
  'No test runs this code (the pure-python variant is not the default reader).',
  ['gitdb/fun.py'], [('merge', 'gitdb/fun.py: connect_deltas, TopdownDeltaChunkList.connect_with_next_base'), ('slicing', 'gitdb/fun.py: delta_list_slice, _closest_index'), ('apply', 'gitdb/fun.py: DeltaChunkList.apply')],
  ['connect_deltas(...).apply(base, write)'])

p('C19', 'Verifying a packed object reports true exactly for intact data',
  'Checksum verification of a packed object reports success exactly when the CRC-32 of the bytes of its entry, from its offset up to the next entry or the pack trailer, equals the one in the index, for every position and size of the entry. Content verification of an object that can be read reports success exactly when the git id of what is read from the pack equals the id asked for.',
  ['inputs', 'configurations'], 'all pack layouts up to the bound (order of entries unrelated to order of ids), entry sizes relative to the chunk size, intact and altered data',
  'Tests only verify intact packs, with entries smaller than one chunk.',
  ['gitdb/pack.py'], [('verification', 'gitdb/pack.py: PackEntity.is_valid_stream'), ('entry extents', 'gitdb/pack.py: PackEntity._set_cache_')],
  ['PackEntity.is_valid_stream'])

p('C20', 'Concurrent stores of the same object do not disturb each other',
  'When two writers store the same object in the same loose database at the same time, then for every interleaving of their file-system steps both succeed with the same id, the object is complete afterwards and at every moment it is visible, and no temporary file remains.',
  ['schedules'], 'all interleavings of the file-system steps of two stores of the same object, object initially absent or present',
  'All tests are single threaded.',
  ['gitdb/db/loose.py'], [('unique temp file, rename', 'gitdb/db/loose.py: LooseObjectDB.store')],
  ['db directory at every step'])

p('C21', 'Hashing writers digest and pass on exactly what was written',
  'For any sequence of writes, each hashing writer reports as digest the SHA-1 of the concatenation of everything written, in binary and hex form alike, and delivers exactly that data: unchanged through the pass-through writer, as compressed data that decompresses to it through the compressing memory and file writers once closed. A write to the file writer that the system does not complete raises.',
  ['inputs', 'fault_sequences'], 'all sequences of writes up to the bound with any sizes (including empty), all short writes',
  'Tests do a single write per writer and size.',
  ['gitdb/stream.py'], [('writers', 'gitdb/stream.py: Sha1Writer, FlexibleSha1Writer, ZippedStoreShaWriter, FDCompressedSha1Writer')],
  ['sha(), getvalue(), bytes in the file'])

p('C22', 'Copying from a memory database transfers exactly the missing objects',
  'Copying any list of ids from an in-memory database to a loose or git database stores exactly those that the target did not have, returns how many that were, leaves the ones it had untouched, and every copied object then reads back from the target with the same id, type, size and bytes. An id that the memory database does not hold is reported as missing.',
  ['inputs', 'configurations', 'histories'], 'all lists of ids with repetitions up to the bound, every subset already present in the target, earlier partial reads of the objects',
  'One test copies everything into an empty database.',
  ['gitdb/db/mem.py', 'gitdb/db/loose.py'], [('copy', 'gitdb/db/mem.py: MemoryDB.stream_copy'), ('direct store', 'gitdb/db/loose.py: LooseObjectDB.store with id set')],
  ['return value of stream_copy', 'target database'])

p('C23', 'On-disk pack creation is all-or-nothing under the pack names',
  'Creating a pack on disk either returns a pack whose data and index file are both complete under the name derived from the pack checksum, or fails with an exception, leaving no temporary file and no open descriptor. If any step fails or the process dies, no file under a pack name is incomplete, packs that existed before are untouched, and a packed database over the directory goes on to serve them.',
  ['fault_sequences', 'crash_points'], 'every single failing file-system call (error or short write), every bounded run of consecutive ones, and every crash point, every bounded list of objects',
  'Only one successful creation is tested.',
  ['gitdb/pack.py'], [('temp files + rename', 'gitdb/pack.py: PackEntity.create')],
  ['directory contents after the fault'])

p('C24', 'File descriptors are released on every path',
  'Storing, reading and querying loose objects and opening, committing or rolling back locked files close every file descriptor they opened by the time the operation has returned or raised (for a lock: by the time it ended), including when any file-system call in between fails.',
  ['fault_sequences'], 'every failing file-system call and every bounded run of consecutive ones during store, info, stream, has_object and the locked-file operations',
  'The suite runs with few descriptors allowed but never makes a call fail.',
  ['gitdb/db/loose.py', 'gitdb/util.py', 'gitdb/stream.py'], [('close in finally', 'gitdb/db/loose.py: store; gitdb/util.py: file_contents_ro_filepath, LockedFD; gitdb/stream.py: FDCompressedSha1Writer.close')],
  ['open descriptors after the call'])

p('C25', 'Enumerating a database agrees with looking objects up',
  'Enumerating a loose, packed, in-memory or git database yields exactly the ids it serves, size() is the number of ids enumerated, and has_object is true for each of them and false for any other id. Files that are not objects (temporary files, packs, info files, other directories, files with upper-case names) are never enumerated, and looking up an absent id always reports a missing object.',
  ['inputs', 'configurations'], 'all directory contents up to the bound (objects, temporary and foreign files), all placements over loose and packed storage',
  'Tests enumerate directories that only contain objects they just stored.',
  ['gitdb/db/loose.py', 'gitdb/db/pack.py', 'gitdb/db/mem.py', 'gitdb/db/base.py'], [('directory walk', 'gitdb/db/loose.py: LooseObjectDB.sha_iter'), ('index walk', 'gitdb/db/pack.py: PackedDB.sha_iter')],
  ['sha_iter(), size(), has_object()'])

p('C26', 'Objects are served from anywhere in packs of any size',
  'Wherever an object, its delta or its delta base lies in a pack, and however large the pack is (including offsets and base distances beyond 2 GiB and 4 GiB), a packed database and the pack itself serve its id, type, size and bytes, verify its checksum, and report its true offset.',
  ['inputs', 'configurations'], 'all positions of the entries in packs of up to 6 GiB, all distances between a delta and its base, whole objects and both kinds of deltas',
  'Fixture packs are a few kilobytes; a mapping window, a sign bit or a truncated offset matters only for packs a test cannot carry along.',
  ['gitdb/pack.py', 'gitdb/util.py', 'gitdb/fun.py', 'gitdb/stream.py'], [('mapping of packs and indices', 'gitdb/util.py: mman; gitdb/pack.py: PackFile._set_cache_, PackIndexFile._set_cache_'), ('entry and base offsets', 'gitdb/pack.py: pack_object_at, PackEntity.collect_streams_at_offset; gitdb/fun.py: pack_object_header_info')],
  ['PackedDB.info/stream', 'PackEntity.is_valid_stream', 'PackIndexFile.offset'])

p('C27', 'A delta that does not fit the sizes it announces is an error, never data',
  'When the base size or the target size announced by a delta differs from the size of its actual base or of the result of its commands, reading the object raises; when both fit, the object is delivered. Data other than the object is never returned.',
  ['inputs'], 'all announced sizes, all chains up to the bound with any of the deltas lying, reference and offset deltas',
  'No test carries a delta whose announcement lies; the value space of wrong sizes relative to the true ones cannot be sampled.',
  ['gitdb/stream.py', 'gitdb/fun.py'], [('delta application', 'gitdb/stream.py: DeltaApplyReader._set_cache_brute_; gitdb/fun.py: apply_delta_data, msb_size')],
  ['PackEntity.stream(sha).read()'])

p('C28', 'Truncated object data is an error, never short or padded contents',
  'When the compressed data of a loose or packed object ends before the object is complete (the file was cut at any byte, or the data decompresses to less than the header announces), reading the object raises at the latest when the missing part is asked for; reads before that return exactly the bytes of the object. Nothing is silently shortened, padded or repeated.',
  ['inputs', 'crash_points'], 'every byte position to cut at, all announced sizes, every sequence of read sizes, loose objects, whole pack entries, deltas',
  'Tests never cut a file; where the cut lies relative to header, window and compressed block decides which code runs.',
  ['gitdb/stream.py', 'gitdb/db/loose.py', 'gitdb/pack.py', 'gitdb/fun.py'], [('end of data', 'gitdb/stream.py: DecompressMemMapReader.read, _parse_header_info'), ('bases and deltas', 'gitdb/stream.py: DeltaApplyReader._set_cache_brute_')],
  ['db.stream(sha).read(n)', 'PackFile.stream'])

p('C29', 'Streams with short reads are stored completely, truncated ones not at all',
  'Storing an object, or writing it into a pack, from a stream that delivers fewer bytes per read than asked for (like a pipe) stores all of its bytes under the right id. If the stream ends before the announced size, storing raises and leaves the database or pack directory as it was.',
  ['inputs', 'histories'], 'all divisions of the data into reads up to the bound, all announced and delivered sizes, loose / git / in-memory database and packs',
  'Tests store from in-memory streams, which always deliver what is asked for.',
  ['gitdb/fun.py', 'gitdb/db/loose.py', 'gitdb/db/mem.py', 'gitdb/pack.py'], [('chunked copy', 'gitdb/fun.py: stream_copy, write_object'), ('into a pack', 'gitdb/pack.py: PackEntity.write_pack; gitdb/fun.py: write_stream_to_pack')],
  ['IStream.binsha', 'db.stream(sha).read()', 'database directory'])

p('C30', 'Streams handed out by loose, packed and git databases are independent',
  'Reading from one object stream in any way (any sizes, rewinding, abandoning it) never changes what another stream of the same or another object delivers, whether it was obtained before, in between or afterwards, from the same database or another one over the same directory. A stream goes on delivering its object after the file it came from was removed or the database was updated or dropped.',
  ['histories', 'inputs'], 'all interleavings up to the bound of sized reads and rewinds of two streams, with other database operations in between, loose and packed objects and deltas',
  'Tests read one stream at a time.',
  ['gitdb/stream.py', 'gitdb/pack.py', 'gitdb/db/loose.py', 'gitdb/db/pack.py', 'gitdb/util.py'], [('per stream state', 'gitdb/stream.py: DecompressMemMapReader, DeltaApplyReader'), ('shared mapping', 'gitdb/pack.py: PackFile._cursor; gitdb/db/loose.py: LooseObjectDB._map_loose_object')],
  ['OStream.read of either stream'])

p('C31', 'Every way to ask a pack for an object gives the same answer',
  'For every object of a pack, asking by id or by index entry, by the pack entity or a packed database, for info, stream or the delta chain, or iterating over all of them, gives the same id, type, size and bytes, and the raw entries (as stored, not undeltified) name the true type of the entry, its base and its size.',
  ['inputs'], 'all packs up to the bound of whole objects and chains of both kinds of deltas, in every order of ids',
  'Tests compare the ways on fixture packs only.',
  ['gitdb/pack.py', 'gitdb/db/pack.py'], [('entity', 'gitdb/pack.py: PackEntity._object, info, stream, info_at_index, stream_at_index, collect_streams, info_iter, stream_iter'), ('file', 'gitdb/pack.py: PackFile.info, stream, stream_iter'), ('database', 'gitdb/db/pack.py: PackedDB.info, stream')],
  ['each of these methods'])

p('C32', 'File content helpers return exactly the bytes of the file',
  'Reading a file by path or descriptor, as buffer or stream, memory-mapped or not, returns exactly its bytes, for every size including an empty file, stays valid when the file is removed, and keeps no descriptor open once the result is dropped. Allocated memory blocks have the size asked for and are readable and writable like a file.',
  ['inputs', 'configurations'], 'all file sizes (0 included) and contents, all combinations of path / descriptor, stream / buffer, mapped / read',
  'Tests read one small non-empty file.',
  ['gitdb/util.py'], [('helpers', 'gitdb/util.py: file_contents_ro, file_contents_ro_filepath, allocate_memory')],
  ['file_contents_ro', 'file_contents_ro_filepath', 'allocate_memory'])

p('C33', 'Object headers and ids survive encoding and decoding',
  'The header written for a loose object of any type and size is the one git prescribes, and each parser gives back its type and size; an entry header and a base distance in a pack decode to what was encoded and to the true number of bytes used, as do the sizes in a delta header; a loose object is recognised as such exactly by its zlib signature; binary and hexadecimal ids convert into each other without loss.',
  ['inputs'], 'all types, sizes, distances, ids and signature bytes within the bounds',
  'Tests convert a handful of values.',
  ['gitdb/fun.py', 'gitdb/util.py', 'gitdb/stream.py'], [('headers', 'gitdb/fun.py: loose_object_header, loose_object_header_info, create_pack_object_header, pack_object_header_info, is_loose_object'), ('ids', 'gitdb/util.py: to_hex_sha, to_bin_sha')],
  ['return values of these functions'])

p('C34', 'Large objects are streamed in pieces, never held in memory as a whole',
  'Storing an undeltified object from a stream, copying it between databases, reading it in pieces from a loose, packed or git database, writing it into a pack, walking over it and verifying it never hold more than a small constant number of copy chunks of it in memory, however large the object is; looking it up (has_object, info, opening its stream and reading its first bytes) does not load it at all.',
  ['inputs'], 'every object size within a range of about ten copy chunks, every size of the pieces read, all the operations named',
  'Tests never measure memory, and their objects are small.',
  ['gitdb/stream.py', 'gitdb/fun.py', 'gitdb/pack.py', 'gitdb/db/loose.py'], [('chunked copy', 'gitdb/fun.py: stream_copy, write_object'), ('window into the map', 'gitdb/stream.py: DecompressMemMapReader._read'), ('chunked pack writing', 'gitdb/pack.py: write_stream_to_pack'), ('header only', 'gitdb/fun.py: loose_object_header_info')],
  ['memory allocated during db.store, db.stream().read(n), db.info, PackEntity.write_pack/create/is_valid_stream/info_iter, PackFile.stream_iter'])

p('C35', 'A broken delta chain is an error, never data, and always found out',
  'If the base of a deltified object cannot be the base - the chain leads back to the object itself, refers to an id the pack does not have, or to a place outside of the pack or to its header - then info, stream, enumeration and verification of the object raise an error (or report it as invalid) in bounded time and memory; they never deliver contents. Every other object of the same pack is served as usual.',
  ['inputs'], 'every pack of up to three entries, each a base object or an offset or reference delta on any entry (itself and later ones included), an absent id, the pack header, a place before the file or beyond its end',
  'Tests only read well-formed packs.',
  ['gitdb/pack.py'], [('offset chains', 'gitdb/pack.py: PackFile.collect_streams'), ('reference chains', 'gitdb/pack.py: PackEntity.collect_streams_at_offset'), ('resolution', 'gitdb/stream.py: DeltaApplyReader.new'), ('type of the base', 'gitdb/pack.py: PackEntity._object')],
  ['PackEntity.info/stream/info_iter/stream_iter/is_valid_stream', 'PackedDB and GitDB info/stream'])

p('C36', 'Objects survive being packed and repacked',
  'Objects stored in a git database that are written into a pack (PackEntity.create fed by the streams of the database) and whose loose files are then removed are, after a refresh or in a new database object, served with the same type, size and contents; objects neither packed nor loose any more are reported missing, and nothing else changes. Writing the objects of a pack with delta chains into a new pack gives a pack that serves the same objects, none of them deltified, and passes verification.',
  ['inputs', 'histories'], 'every choice of which objects are packed, which loose files are removed and which are asked for before; every content and size; delta chains of several shapes; repeated repacking',
  'Tests write packs but never serve a database from a pack they wrote after its loose objects are gone.',
  ['gitdb/pack.py', 'gitdb/db/git.py', 'gitdb/db/base.py', 'gitdb/db/loose.py'], [('pack writing', 'gitdb/pack.py: PackEntity.create, write_pack'), ('refresh', 'gitdb/db/base.py: CompoundDB.update_cache; gitdb/db/pack.py: PackedDB.update_cache'), ('delta streams as input', 'gitdb/stream.py: DeltaApplyReader')],
  ['GitDB.info/stream/has_object/size', 'PackEntity.create, is_valid_stream'])

p('C37', 'Processes at work in one directory at the same time do not disturb each other',
  'While one process stores an object, creates a pack, commits a lock or removes a file, another one that stores other objects, creates the same pack, enumerates, looks objects up, refreshes a packed database or reads the file is not disturbed: what has to succeed succeeds, every object or file is seen as it was before or as it is afterwards, never incomplete or in between, what was there before stays visible throughout, and afterwards everything both of them made is there and no temporary file is.',
  ['schedules', 'inputs'], 'every interleaving of the file system calls of the two processes up to the stated number of context switches; all contents',
  'Tests run one process at a time.',
  ['gitdb/db/loose.py', 'gitdb/db/pack.py', 'gitdb/db/base.py', 'gitdb/pack.py', 'gitdb/util.py'], [('temporary file and rename', 'gitdb/db/loose.py: LooseObjectDB.store; gitdb/pack.py: PackEntity.create'), ('refresh', 'gitdb/db/pack.py: PackedDB.update_cache'), ('enumeration', 'gitdb/db/loose.py: LooseObjectDB.sha_iter'), ('commit', 'gitdb/util.py: LockedFD._end_writing')],
  ['db.store, PackEntity.create, db.has_object/info/stream/sha_iter/size, update_cache, LockedFD.commit, file_contents_ro_filepath'])

p('C38', 'A read that fails because of the system is reported, and not remembered',
  'If file-system calls fail while a loose, packed or git database is opened, refreshed, or asked for an object, an abbreviation, its size or its ids, the answer is right or the failure is reported (by an exception; info and stream may report the object as missing); has_object never denies an object of the database itself. Afterwards the same database object answers everything correctly again (objects of alternates: after a refresh), and no descriptor of a loose object stays open.',
  ['faults', 'histories'], 'every query, every run of up to four failing calls (opening, mapping, reading, closing; of packs, indexes, objects and the alternates file), with caches cold or warm',
  'Tests never make a call fail.',
  ['gitdb/db/loose.py', 'gitdb/db/pack.py', 'gitdb/db/base.py', 'gitdb/db/ref.py', 'gitdb/pack.py'], [('lazy attributes', 'gitdb/util.py: LazyMixin; gitdb/db/pack.py: PackedDB._set_cache_; gitdb/pack.py: PackIndexFile._set_cache_'), ('refresh', 'gitdb/db/pack.py: PackedDB.update_cache'), ('mapping of loose objects', 'gitdb/db/loose.py: LooseObjectDB._map_loose_object')],
  ['db.has_object/info/stream/sha_iter/size/partial_to_complete_sha, update_cache'])

p('C39', 'A pack file or index that was cut is found out',
  'If the index of a pack ends at any byte before its true end, every query of the pack by id, abbreviation or enumeration - through the index, the pack entity or a packed database, asked once or again - is answered as for the complete index or raises an error; no object of the pack is ever reported missing, ambiguous, or under another id. Walking a pack file that ends at any byte before its true end, or whose header announces another number of objects than there are, yields only true entries and then raises instead of ending; verifying by checksum an object of which a part is missing never succeeds. A file without the signature of a pack, or with the signature of an index but an unknown version, is refused whenever it is asked for anything.',
  ['inputs'], 'every byte at which an index (both versions) or a pack of entries of any size and contents can end; every wrong count',
  'Tests only read complete files.',
  ['gitdb/pack.py', 'gitdb/db/pack.py'], [('index tables', 'gitdb/pack.py: PackIndexFile._set_cache_, _initialize, sha_to_index'), ('walk', 'gitdb/pack.py: PackFile._iter_objects'), ('checksum verification', 'gitdb/pack.py: PackEntity.is_valid_stream'), ('packs of a database', 'gitdb/db/pack.py: PackedDB.update_cache, _pack_info')],
  ['PackIndexFile.sha_to_index/partial_sha_to_index/offsets/size, PackEntity.info/stream/info_iter/stream_iter/is_valid_stream, PackFile.stream_iter, PackedDB.has_object/info/stream/size/sha_iter'])

p('N03', 'Threads may share one database object for reading',
  'Concurrent reads through one shared database object from several threads return the same results as sequential ones.',
  ['schedules'], 'all thread interleavings at byte-code granularity', 'All tests are single threaded.',
  ['gitdb/db/pack.py', 'gitdb/db/base.py'], [('unlocked counters and caches', 'gitdb/db/pack.py: PackedDB._pack_info')], ['PackedDB.info/stream'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')

LN = ('Every path of the analysed operations in the current source is covered (no sampling): a path-sensitive abstract interpretation of the '
      'monomorphised MIR with joins, so a pass is an argument over all inputs and histories within the modelled semantics. Trusted: rustc\'s MIR, the '
      'transfer functions for std / ic-stable-structures calls, and the rules stated in DESIGN.md as the reading of the property.')

FS = 'stable-fs/src/fs.rs'
FD = 'stable-fs/src/runtime/fd.rs'
FILE = 'stable-fs/src/runtime/file.rs'
DIR = 'stable-fs/src/runtime/dir.rs'
SH = 'stable-fs/src/runtime/structure_helpers.rs'
ST = 'stable-fs/src/storage/stable.rs'
TR = 'stable-fs/src/storage/transient.rs'
NC = 'stable-fs/src/filename_cache.rs'
MP = 'stable-fs/src/storage/metadata_provider.rs'
PC = 'stable-fs/src/storage/ptr_cache.rs'
CI = 'stable-fs/src/storage/chunk_iterator.rs'
AL = 'stable-fs/src/storage/allocator.rs'
TY = 'stable-fs/src/storage/types.rs'
JR = 'stable-fs/src/storage/journal.rs'

PROPS = []


def P(id, title, statement, over, quant, why, files, mech, level_note=LN, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, level_note=level_note, **kw))


P('C01', 'Descriptor rights are enforced and never change by themselves',
  'A file can be read through a descriptor only if that descriptor carries the read right, and written or resized through it only if it carries the '
  'write right; otherwise the call fails and nothing in the file system changes. The rights and flags of an open descriptor are exactly those given '
  'when it was opened or last set by the caller: no other operation (I/O, seek, renumber, operations on other descriptors) alters them.',
  ['inputs', 'histories'], 'every descriptor, every rights mask, every sequence of operations on it',
  'Tests open a handful of descriptors with a handful of rights; the guarantee is about every descriptor state and every one of the read/write entry points.',
  [FS, FILE, FD], [('rights test before storage access', FILE), ('read/write entry points', FS), ('set_stat', FS)])

P('C02', 'Operations on closed, unknown or wrong-kind descriptors fail without effect',
  'An operation given a descriptor number that is not open fails with the bad-descriptor error (closing the root descriptor and the documented no-op calls on the '
  'standard streams excepted), and an operation that needs a file or a directory fails when given a descriptor of the other kind. '
  'In both cases nothing changes: no file, directory, metadata or other descriptor is touched.',
  ['inputs', 'histories'], 'every descriptor number, every public operation that takes descriptors (one or two), every history of opens, closes and renumberings',
  'The space of (operation, descriptor state) pairs including stale, reused and renumbered numbers is not enumerated by tests.',
  [FS, FD], [('descriptor lookup', FD), ('entry points', FS)])

P('C03', 'The descriptor table stays consistent: no collisions, exact open counts',
  'A newly returned descriptor number is never one that is already open, never the root descriptor and never a standard stream; closing frees exactly the '
  'descriptor closed, and renumbering moves exactly one descriptor, replacing the destination. At every moment the number of open descriptors the file system '
  'accounts to a file equals the number of descriptors that really are open on it.',
  ['inputs', 'histories'], 'every interleaving of open, close, renumber and create operations over any number of descriptors',
  'Collisions and miscounts need particular close/renumber/reopen sequences; tests run a few fixed ones.',
  [FD, FS], [('descriptor allocation', FD), ('per-node open count', FD), ('renumber', FS)])

P('C04', 'Files that are open or mounted are not destroyed or mixed up by directory changes',
  'Removing, replacing or recursively deleting a name never releases the storage of a file or directory on which a descriptor is open (the call fails instead, '
  'or another link remains), and a mounted file cannot be removed, replaced, renamed or hard-linked.',
  ['inputs', 'histories'], 'every path, every combination of open descriptors and mounts at the moment of a remove / rename / recursive removal',
  'The dangerous states combine an open descriptor (possibly through another link or renumbered) with a particular structural operation.',
  [SH, FS, FD], [('remove_file / remove_dir', SH), ('rename', SH), ('open count', FD), ('mount guards', SH)])

P('C05', 'The file-name cache never changes what a path resolves to',
  'Looking a path up through the file-name cache gives the same node as resolving it in the directory tree: a cached answer is always one that was resolved '
  'for exactly that starting directory and path, and no answer survives the removal or renaming of any directory entry.',
  ['inputs', 'histories'], 'every path, every sequence of lookups, creations, removals and renames, any cache size',
  'A stale cache entry needs a lookup, a structural change and another lookup through the same key; the tests cover only a few such sequences.',
  [NC, DIR, SH, FS], [('cache', NC), ('resolution through the cache', SH), ('invalidation', FS)])

P('C07', 'Directory sizes equal the number of entries; only empty directories disappear',
  'The size recorded for a directory is at all times the number of names in it: each added name increases it by one, each removed name decreases it by one, '
  'in the same operation, and nothing else changes it. A directory is removed, or replaced by a rename, only when it is empty; remove_file never removes a '
  'directory and remove_dir never removes a file.',
  ['inputs', 'histories'], 'every sequence of create, link, rename and remove operations',
  'The balance must hold along every path through the structural operations, including the rename variants tests do not enumerate.',
  [SH, FS, FILE, DIR], [('add / remove entry', SH), ('create', FILE), ('create', DIR), ('rename', SH)])

P('C08', 'Link counts equal the number of names; storage is released exactly with the last link',
  'The link count recorded for a file or directory equals the number of directory entries that name it: one more with each added entry, one less with each '
  'removed one. Storage of a node is released when its last name is removed, and never while another name remains; no metadata update made by one step of an '
  'operation is overwritten by a stale copy in a later step.',
  ['inputs', 'histories'], 'every sequence of create, hard-link, rename, replace and remove operations',
  'Leaks and premature releases depend on link history (hard links, rename over links, links to the same file) that tests sample sparsely.',
  [SH, FS, FILE], [('add / remove entry', SH), ('create_hard_link', SH), ('rename', SH), ('release', SH)])

P('C12', 'Cursors: sequential, positioned, vectored and append I/O address the right bytes',
  'A sequential read or write starts at the descriptor\'s cursor (a write in append mode at the end of the file), the buffers of a vectored call are transferred '
  'in order and contiguously, and the cursor ends exactly after the bytes reported; positioned reads and writes use the given offset and leave the cursor alone; '
  'seek, tell and open position the cursor as specified, and a refused seek changes nothing.',
  ['inputs', 'histories'], 'every cursor, offset, buffer count and length, all flags',
  'The arithmetic over cursor, offset and partial transfers must hold for all 64-bit values and all vectors, not for the few literal positions in tests.',
  [FILE, FS], [('read / write / seek', FILE), ('vectored entry points', FS)])

P('C10', 'Storage failures are never reported as success',
  'When a step of an operation on the storage fails, the operation as a whole fails: no read, write, create, rename, remove, mount or metadata call reports success after '
  'the storage refused one of its steps (deliberate probes, such as looking a name up before creating it, excepted).',
  ['inputs', 'histories', 'faults'], 'every operation, every storage step inside it, every error that step can return',
  'Tests hardly ever make the storage fail, and never at every call site of every operation.',
  [FS, FILE, DIR, SH], [('error propagation', FS), ('structural helpers', SH)])

P('C11', 'Descriptors are not leaked and not closed behind the caller\'s back',
  'A descriptor an operation opens for its own use is closed again on every path, or is the one returned by success; also when the operation fails. Operations '
  'not asked to close or renumber a descriptor leave every descriptor of the caller open and referring to the same file.',
  ['inputs', 'histories', 'faults'], 'every operation that opens descriptors internally (create, link, rename, remove, recursive removal, mount and its relatives), every exit path including errors',
  'A leak on an error path is invisible to a test that does not provoke that very error and then count descriptors.',
  [FS, SH, FD], [('internal opens', SH), ('mount family', FS), ('recursive removal', SH)])

P('C24', 'Path resolution: relative, normalised, never above the start',
  'Absolute paths are refused; "." and empty parts are skipped, ".." goes one directory up and never above the directory the path starts from; the remaining '
  'parts are looked up unchanged, in order, each in the directory the previous one led to. An entry is removed only when the path has been followed to its end '
  'and names an entry.',
  ['inputs'], 'every path string, every starting directory',
  'Paths are arbitrary strings; combinations of "..", ".", empty parts and trailing separators are sampled by a handful of literals.',
  [SH, FS], [('find_node / path walk', SH), ('create_path', SH), ('removal', SH)])

P('C25', 'Attributes: reported as stored, changed only by their own setter',
  'set_accessed_time, set_modified_time, and the other setters change exactly their attribute of the file of the descriptor, to exactly the given value; '
  'metadata, metadata_from_node, open_metadata and get_stat report what is stored for the file asked for; read-only operations change nothing; structural '
  'operations change no attribute of existing files except link count and size; a new file or directory has the attributes given at creation.',
  ['inputs', 'histories'], 'every descriptor, every value, every operation',
  'A setter on the wrong node or clobbering a neighbour attribute shows up only if a test compares every attribute of every file after every operation.',
  [FS, FILE, DIR, SH], [('setters', FS), ('metadata queries', FS), ('node creation', FILE)])

P('C30', 'Refused operations change nothing',
  'When open, create, link, rename, remove, or a metadata or I/O call is refused because of its arguments or the current state, the stored file system is '
  'exactly as before: after the first change to it, only failures of the storage itself can still make the operation fail. (Recursive removal and errors found '
  'while resolving the second path of a rename or link are excluded.)',
  ['inputs', 'histories'], 'every operation, every error it can return, every state',
  'Half-done failures need a refusal discovered late, after something was already changed; tests check the error code, rarely the state afterwards.',
  [SH, FS, FILE, DIR], [('create_path', SH), ('rename', SH), ('create_hard_link', SH), ('open', FS)])

P('C34', 'Open flags do what they say',
  'Without CREATE open creates nothing; with CREATE and EXCLUSIVE an existing entry is never opened; TRUNCATE empties an existing regular file and nothing else '
  'loses data; with DIRECTORY no regular file is created or opened; the descriptor returned is of the kind of the entry it refers to and refers to the entry '
  'the path names under the given directory.',
  ['inputs', 'histories'], 'every combination of open flags, every path, existing or not, of either kind',
  'The flag combinations times the kinds of existing entries are not enumerated by tests.',
  [FS, SH, FILE], [('open', FS), ('create_open_file / create_open_directory', FS)])

P('C36', 'Rename and hard links do exactly what is asked',
  'A successful rename or link records the new name, in the directory and under the last part the new path says, for the node the old path names; rename also '
  'removes the old name. They are refused before any change when the source is mounted, either path names no entry, a directory would be hard-linked, a '
  'directory would move below itself, or the replaced entry is of the other kind; renaming a file to another name of itself changes nothing; the descriptor '
  'returned refers to the moved or linked file.',
  ['inputs', 'histories'], 'every pair of paths and directories, every combination of kinds, links and mounts',
  'The dangerous cases are relations between two paths (same node, ancestor, replaced target) that tests cover with a few examples.',
  [SH, FS], [('rename', SH), ('create_hard_link', SH)])

P('C06', 'Names inside a directory are unique and lead to their entry',
  'A name is recorded in a directory only when that directory has no entry of that name; the name stored with an entry is the name asked for; a lookup '
  'returns only entries of the directory searched whose stored name is the name searched.',
  ['inputs', 'histories'], 'every operation that adds an entry, every name, every directory content',
  'A second entry of the same name appears only through an operation whose existence check looks at another directory, another name or an older state.',
  [SH, DIR, FS], [('find_node', SH), ('Dir::add_entry / find_node', DIR), ('create, link, rename', SH)])

P('C16', 'Shrinking a file discards the bytes above the new size',
  'After a stored file has become smaller, no byte above its new size is kept to be seen again: all chunks above the new size are removed, and the rest of the last '
  'chunk is overwritten with zeros; so a file that later grows reads as zeros there.',
  ['inputs', 'histories'], 'every old and new size, both chunk layouts and back ends, every chunk present or missing',
  'Stale bytes surface only with particular pairs of sizes relative to chunk borders, sparse files, and a later growth.',
  [ST, TR], [('put_metadata / resize', ST), ('put_metadata', TR)])

P('C17', 'Mounted and stored contents never mix',
  'While a memory is mounted on a file its stored chunks and stored metadata are neither read nor changed, and reads and writes go to the memory mounted on that '
  'very file; while none is mounted, no mounted memory and no mounted metadata of it is touched.',
  ['inputs', 'histories'], 'every storage operation, every file, mounted or not, in both back ends',
  'A mix-up shows only when the same file is used mounted and unmounted in one history, or two files are mounted at once.',
  [ST, TR, TY], [('storage operations', ST), ('storage operations', TR), ('metadata provider', ST)])

P('C13', 'Size limits are respected and a write grows the file exactly to its end',
  'No file ever has a stored size above the limit set for it or above the largest file size; a write whose end overflows or lies beyond these limits changes '
  'nothing; writing no bytes changes nothing; a successful write leaves the size at the larger of the old size and the end of the range; metadata is replaced '
  'only by metadata of the same kind of file and node.',
  ['inputs'], 'every offset, length and limit, every store of metadata, both back ends',
  'The interesting offsets are near 2^64 and around the limit; tests pick a few.',
  [ST, TR, TY], [('write, metadata validation', ST), ('write, metadata validation', TR)])

P('C18', 'Mounting, unmounting and copying keep track of exactly the memory given',
  'Mounting succeeds only on an existing file without a mounted memory and mounts exactly the memory given; a refused mount changes no mount; unmounting returns the '
  'memory that was mounted and forgets it; initialising or storing a mounted memory leaves the same memory mounted, also when it fails, and on success carries the '
  'metadata over; nothing else changes what is mounted.',
  ['inputs', 'histories', 'faults'], 'every mount, unmount and copy operation, every outcome, both back ends',
  'Losing a mount needs a failure in the middle of a copy.',
  [ST, TR], [('mount_node, unmount_node, init_mounted_memory, store_mounted_memory', ST), ('the same', TR)])

P('C31', 'The size and attributes of a file after mounting are what the policy says',
  'After mounting, the file has the explicit size given; or the size of the memory; or the size it had when it was last mounted if that fits into the memory and '
  'otherwise zero or the size of the memory, as the policy says. Other attributes are those of the last mount, or of the stored file at the first mount; the link '
  'count is that of the stored file.',
  ['inputs', 'histories'], 'every policy, memory size and earlier mount, both back ends',
  'The outcome depends on earlier mounts of the same file and on how sizes compare.',
  [ST, TR, TY], [('MountedFileSizePolicy', TY), ('mount_node', ST), ('mount_node', TR)])

P('C09', 'Node numbers are never used twice',
  'Every new file or directory gets a node number that was never given before, also after the storage was closed and opened again: the stored counter is advanced and '
  'stored whenever a number is taken, and is changed by nothing else; a new storage starts counting behind the root directory; every number taken is used for one new '
  'file or directory only, which has its metadata recorded under it.',
  ['inputs', 'histories', 'faults'], 'every creation, every history of creations and removals, failed operations and restarts, both back ends',
  'A reused number mixes up two files only long after, when both exist.',
  [ST, TR, SH], [('new_node', ST), ('new_node', TR), ('create_file, create_dir, create_path', SH)])

P('C22', 'Opening an existing storage keeps what is stored in it',
  'Making a StableStorage over memories that already hold a file system loads it and changes no stored file, directory, metadata, node counter or chunk: it only sets up '
  'the chunk allocator where there was none, renews its marker, and takes over the size of a mounted file from the old journal, at most once. A storage of another version '
  'or with an unknown allocator is refused. Making a FileSystem of a storage changes nothing in it.',
  ['histories', 'faults'], 'every content of the memories, every earlier version of the allocator and the journal, every number of times it is opened',
  'Loss at opening shows only for contents a test has not prepared, or at the second opening.',
  [ST, JR, AL, FS], [('new_with_custom_memories and the other constructors', ST), ('CacheJournal', JR), ('ChunkPtrAllocator::new', AL), ('FileSystem::new', FS)])

P('C23', 'The storage uses exactly the memories given to it',
  'A StableStorage keeps every part of its data in the memory of that part\'s fixed number, counted from the start of the range it was given (or 229 by default), so that a '
  'storage made before is found again; it touches no memory outside these, keeps no two things in one memory, and refuses a range that is too short or ends beyond the '
  'last memory.',
  ['inputs', 'histories'], 'every range of memories, both constructors',
  'A swapped or overlapping memory is invisible to tests that write and read back with one version of the code.',
  [ST], [('new, new_with_memory_manager', ST)])

P('C27', 'The chunk size is fixed once chunks are in use',
  'The chunk size recorded in the chunk allocator is always one of the supported sizes; it is changed only while no chunk was ever handed out, and the size in use is always '
  'the recorded one; an attempt to change it later fails and changes nothing.',
  ['inputs', 'histories'], 'every order of setting the chunk size, writing, removing and opening the storage again',
  'Needs a change of size after chunks were used, or after re-opening.',
  [ST, AL], [('set_chunk_size', ST), ('set_chunk_size', AL), ('constructors', ST)])

P('C33', 'A listing gives every entry of the directory exactly once',
  'Going through the entries of a directory from a given entry on gives every entry stored for exactly this directory from there on, each once, in order of their numbers, '
  'with its own number and content, until the callback asks to stop, after which it is not called any more; "." (with the node of the directory) and ".." come first, once, '
  'when the listing starts before the entries, and not when it starts at an entry. A single entry asked for is the one stored under that number.',
  ['inputs', 'histories'], 'every starting point, every directory content, every point at which the callback stops, both back ends',
  'Skips and repetitions show at particular starting points and gaps left by removals.',
  [ST, TR, FS], [('with_direntries, get_direntry', ST), ('the same', TR), ('with_direntries, get_direntry', FS)])

P('C37', 'Every file is read and written in the chunk format it is stored in',
  'The content of a file is read and written in the chunk format recorded in its metadata; if none is recorded, in the format of the chunks it has, or, while it is empty, in '
  'the format set for new files. The storage changes nothing in the metadata of an existing file but its size (and the link count when it is mounted), so the recorded format '
  'stays; the format for new files changes only when it is set.',
  ['inputs', 'histories'], 'every file, with or without a recorded format, every history of changes of the format for new files, both back ends',
  'A mix-up needs a file written in one format and accessed after the format was switched.',
  [ST, TR], [('read, write, chunk_type', ST), ('put_metadata', ST), ('set_chunk_type', ST)])

P('C14', 'Every stored chunk belongs to exactly one file part at a time',
  'In the chunked store with growing chunk addresses, a chunk of stable memory is handed out either from the list of free chunks or from fresh memory, never while '
  'something else still uses it; the list of free chunks changes only by handing a chunk out or taking one back; a chunk is given back exactly when the record that '
  'refers to it is removed, and every chunk handed out is recorded.',
  ['inputs', 'histories'], 'every operation that allocates or frees chunks, any earlier history of allocations',
  'Two files sharing a chunk, or leaked chunks, appear only after particular sequences of removals and growth.',
  [ST, AL, PC], [('chunk allocator', AL), ('write, resize, removal', ST)])

P('C28', 'Reading and writing move every byte between its place in the buffer and its place in the file',
  'A read that reports n bytes has put the bytes offset .. offset+n of the file into the first n bytes of the buffer, and stops short of the buffer or of the end of the file '
  'never; a write of a buffer puts byte i of it at byte offset+i of the file, for every i, and reports the whole length. This holds in every layout (chunks of the old and '
  'the new format, mounted memory, the in-memory store), whatever chunks exist, for every offset, length and file size, wherever chunk boundaries fall.',
  ['inputs', 'histories'], 'every offset, buffer length, file size and chunk size; every set of existing chunks',
  'An error in the position arithmetic shows only for particular alignments of offset and length to chunk boundaries and for particular holes in the file.',
  [ST, TR, CI, SH], [('read and write of the chunked store', ST), ('read and write of the in-memory store', TR), ('chunk iterator', CI)])

P('C15', 'Bytes of a file that were never written read as zero',
  'Inside of a file, what no write ever covered reads as zero: a read fills the buffer with zeros exactly where no chunk is stored (a stored chunk is never passed over), a '
  'chunk newly recorded for a file is zero in all places except those written by the same write, whatever the memory it was taken from held before, and a chunk of the old '
  'format that did not exist is built on zeros.',
  ['inputs', 'histories'], 'every offset, length, chunk size and set of existing chunks; every earlier content of the memory a chunk is taken from',
  'Old bytes show only when a chunk that some other file used before is taken again and only part of it is written; a stored chunk is passed over only for particular patterns of holes.',
  [ST, TR, SH], [('read and write of the chunked store', ST), ('read and write of the in-memory store', TR)])

P('C29', 'No memory is accessed beyond the size it was grown to',
  'Whatever is read from or written to a stable memory lies inside of it: a memory mounted as a file is grown far enough before a read or write that goes through it and '
  'before it is filled from, or stored into, the file; the chunk memory is grown to the end of a new chunk before anything is done in the chunk, and nothing done in a chunk '
  'goes past its end; the memory of the free chunk list is grown before a number is written to it; and opening a storage looks only into memories that it has just grown or '
  'has found not to be empty.',
  ['inputs', 'histories'], 'every offset, length, chunk size, file size and earlier size of each memory',
  'An access beyond the end of a stable memory traps and takes the canister call with it. Memories grow in pages of 64 KiB, so a missing or short grow is noticed only where an access crosses the last page, far away from the small files of the tests.',
  [ST, TR, MP, AL, SH], [('access to mounted memories', ST), ('access to mounted memories of the in-memory store', TR), ('free chunk list', AL), ('metadata in the chunk memory', MP), ('growing of memories', SH)])

P('C19', 'The metadata cache always agrees with the stored metadata',
  'In the chunked store the metadata reported for a file or directory is the metadata stored for exactly that node: the metadata cache is filled only with what was just '
  'read from, or just written to, the place where that metadata is stored (together with the address of that place); stored metadata that changes is replaced in the '
  'cache, and stored metadata that is removed leaves the cache, in the same operation.',
  ['inputs', 'histories'], 'every storage operation, every earlier content of the caches (also after they were emptied because they were full)',
  'A stale entry shows only when metadata was changed or removed after it was cached, and disappears again when the cache is emptied.',
  [ST, MP], [('MetadataProvider', MP), ('put_metadata, rm_file', ST)])

P('C20', 'The chunk address cache always agrees with the chunk records',
  'In the chunked store the cache of chunk addresses says where a chunk of a file is only for what is recorded for exactly that chunk, and says that a chunk does not exist '
  'only where nothing is recorded; when the record of a chunk is added or removed, the cached answer is replaced or dropped in the same operation.',
  ['inputs', 'histories'], 'every read, write, resize and removal, every earlier content of the cache, sparse and dense files',
  'A wrong entry needs a sparse file, or a chunk created or removed after its number was cached.',
  [ST, PC, CI], [('PtrCache', PC), ('write_chunks_v2, put_metadata', ST), ('ChunkV2Iterator', CI)])

P('C32', 'Releasing a file removes everything stored for it and nothing of other files',
  'When the storage releases a file or directory, all that is stored for it goes: its metadata, the metadata kept from times when a memory was mounted on it, and every chunk record in every format, those that hold metadata included; '
  'nothing of it is stored again by the same operation. A storage operation on a file adds and removes chunks and metadata of that file only.',
  ['inputs', 'histories'], 'every node, every combination of formats, mounts and sizes it has had',
  'A record left behind is not visible through the file system, whose numbers are never used again; it only takes space, for ever, and only for files with a particular history (mounted once, a certain size, one of the two formats).',
  [ST, TR, MP], [('rm_file', ST), ('rm_file', TR), ('MetadataProvider::remove_metadata', MP)])

P('C21', 'Stored records keep their format and are read back as they were written',
  'Names, chunks, headers, directory entries and metadata are read back from storage exactly as they were written, by this version and by every other: a name is stored as its length '
  'byte followed by its 255 bytes, a chunk as its 4096 bytes, headers, entries, metadata and times with every part encoded under its established name (parts added later may be absent), '
  'kinds of nodes and chunks under their established names, and the record of a mounted file as the fixed 96 byte layout. Two names are the same exactly if their lengths and their bytes up to '
  'the length agree, and names are ordered byte by byte, a name before its continuations; a name made from a byte string holds exactly these bytes. The numbers of the node kinds are 3, 4 and 7 in both directions.',
  ['inputs', 'histories'], 'every record that can be stored, every pair of names, records stored by earlier versions',
  'A format that changed on both the writing and the reading side passes every test that writes and reads within one version, and fails only on storage made before an upgrade; a comparison that is wrong for some pairs of names needs a directory with just these.',
  [TY, 'stable-fs/src/runtime/types.rs'], [('FileName, FileChunk, Header, Metadata, DirEntry, FileType', TY), ('ChunkType', 'stable-fs/src/runtime/types.rs')])

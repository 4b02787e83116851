D = {
'C01': ('''For every descriptor operation, each event that reads, writes or resizes content is matched to the open file whose node it acts on; on every path to it the fact "this
descriptor's rights contain the needed right" must hold (bit tests are normalised to the single bits). Exits that report success without the right are violations too, and writes to the rights
field of a descriptor are enumerated: only opening and `set_stat` may do it, with the value given.''',
 'the property is about reading, writing and setting the size; other operations check no rights in this code base and the statement does not claim they do.'),
'C02': ('''For every operation that takes a descriptor: on every successful exit the table lookup of that descriptor is known to have found an entry of the kind needed; every event that changes
state comes after that knowledge; exits where the lookup is known to have failed return `BadFileDescriptor` (or the error of the kind).''', ''),
'C03': ('''Typestate of the descriptor table: insertions under numbers not given by the caller must be dominated by knowledge that the number is free (from the free list, whose elements are shown to be unused
numbers of at least 4, or from the counter, with a loop while it is taken). The change of the open count of each node is summed symbolically along every path and compared with the number of
table entries gained and lost for that node.''', ''),
'C04': ('''Every event that removes the last link, releases storage, removes an entry or adds one to a mounted file must be guarded on all paths by "open count is zero" / "not mounted" for the same node; the
counts consulted must come from the descriptor table of the same file system.''', ''),
'C05': ('''The name cache is cleared on every path on which a directory entry is removed or renamed, with no cache access between the change and the clearing; every insertion is shown to record the node
to which the same (directory, path) pair was resolved, or under which it was just created; lookups use the same key form.''', ''),
'C06': ('''An entry is added only on paths where a lookup of the same name term in the same directory term is known to have failed; `FileName` construction is decided on its own body (bytes, length, nothing else; too long is refused);
the lookup loop accepts an entry only on full equality; the name index is shown to change together with the entries; new entry numbers are above every existing one.''',
 'the literal empty name and the leaf reached when the whole path was found are excluded by C24/C36/C05; a `with_direntries` scan is matched to the lookup by its directory argument.'),
'C07': ('''Pairing: on every path to a successful exit, entry insertions into a directory and `+1` writes of that directory's size are matched one to one (same for removals); every other metadata write keeps the size it read.
Removal of a directory requires the fact size == 0.''', ''),
'C08': ('''Pairing of entries and link counts for the node term that the entry names, including replaced entries of rename; where the new count can be 0 the storage release must follow before success, and
release happens nowhere else. Lost updates: a metadata write derived from a read that is older than another write to the same node is a violation.''',
 'unsigned arithmetic on link counts is taken not to wrap.'),
'C09': ('''The number given out is the stored counter, the counter is written back advanced before any use; nothing else writes it; every creation records metadata under a number just taken.''',
 'two recordings under one number count only when no new number is taken between them.'),
'C10': ('''Error dataflow: for every storage call that can fail, the `Err` value is followed to the exits; an exit that reports success on a path on which the call is known to have failed is a violation, both in the file system
layer and inside of the storage methods.''', 'looking up what is known from an earlier mount (get_metadata inside mount_node) is a deliberate probe.'),
'C11': ('''Ownership: each descriptor opened inside an operation is either the value returned by the success exit or closed on every path to any exit; nothing closes descriptors of the caller; the one returned is not closed again.''', ''),
'C12': ('''The offset term of every transfer is compared with the cursor (plus the lengths already moved, through the loop), and the cursor stored at exit with cursor + reported length; positioned operations leave it; seek targets are
compared as linear forms with overflow excluded; vectored operations visit all elements in order.''', ''),
'C13': ('''Every metadata write: the size term is shown to be at most the file's limit and the maximum file size on each path, in the same kind and node as the metadata replaced; writes: the end is computed by a checked addition and compared with the limits before the first change,
and the size stored afterwards is max(old, end).''', 'obligations inside a nested put_metadata are decided at put_metadata itself.'),
'C14': ('''The free list of chunks is decided as a stack: the four possible changes of its stored words are enumerated as terms (length, element, highest address), so that every address is handed out at most once. Ownership: every allocation is recorded under a key known to be absent before the
next allocation; every record removed is given back once on every path.''',
 'stored addresses 8/16/24/128 are part of the format. Constructors and set_chunk_size are covered by C22 and C27.'),
'C15': ('''Read side: each place where the buffer is filled instead of read needs, on all paths, the knowledge that no chunk is recorded for the very chunk number (lookup miss, cached "missing", or the merge with the ordered list of stored chunks being ahead);
the merge is shown to start at the same chunk, to move by one and never to drop a taken element. Write side: for a newly recorded chunk the pieces written on all paths before the write ends are summed as intervals and must tile [0, chunk size).''',
 'a cached "missing" is right by C20. Mounted files are excluded: their content is the memory. The static ZEROES is taken as zero.'),
'C16': ('''On every path on which the stored size becomes smaller: the range of chunk numbers removed starts at ceil(size / chunk size) and reaches the last possible chunk (linear forms, with the two back ends and both formats separately), and the bytes from size % chunk size to the end of the remaining chunk are overwritten
with zeros unless the remainder is 0 or the chunk is known to be missing.''',
 'the lookup of the chunk that holds the new end counts as the start of the zeroing loop. Shrinking a mounted file leaves bytes in its memory by design.'),
'C17': ('''Each access to chunk records and to the mounted memory is classified by the knowledge of "is mounted" on its paths (control is split on it); the memory used is the one recorded for the same node; the two sets of metadata are used exclusively by their own state.''', ''),
'C18': ('''The map of mounts changes only in the four operations and only under the node of the call; on every exit of the copying operations, also the failing ones, the state of the map for that node is the memory it had before; a refused mount leaves the map and the metadata unchanged (path-wise comparison of final and initial terms).''',
 'edges on which stored metadata is missing, exceeds its own limit or differs in kind or node are impossible by C13 and "mounted implies metadata".'),
'C19': ('''Every insertion into the metadata cache is matched to the read or write of the same node's metadata that produced the value and the address; every write to the stored metadata is followed (or preceded) in the same operation by the replacement in the cache; removals likewise; what get_metadata answers is traced to one of the three places for the node asked.''', ''),
'C20': ('''Invariant "the cached answer for (node, chunk) is what the record says": each insertion into the cache is justified by a record seen or made for the same key on that path (or by a miss), through the chunk iterator; each change of the records is followed by replacing or dropping the cached key.''',
 'the strict lower bound of the counter that produces runs of "missing" entries is not checked.'),
'C21': ('''The bodies that turn names, chunks, headers, entries, metadata and times into bytes and back are interpreted on abstract byte strings (pieces of a value at known offsets): the piece at each offset must be the established one, and reading the pieces back must give each part its own value. The generated serde code is followed to the names under which the parts and variants are
written and read (all parts, no renaming, no skipping, later parts optional). The fixed layout of the record of a mounted file comes from the compiler's type layout. Equality and order of names are followed to the ranges of bytes compared.''',
 'the CBOR library and the maps of stable-structures are taken to return what was put in.'),
'C22': ('''In the constructors, collections are opened with init/load forms; every write to a stable memory is enumerated and must be one of the allowed set-up steps under its condition (allocator memory empty, marker old, chunk size 0, journal non-empty); taking over the journal is followed by resetting it on all paths.''', ''),
'C23': ('''The memory id of each part is evaluated as base + constant in both constructors and compared with the layout; ids are distinct; taking from the given range requires the check of both ends on all paths.''',
 'offsets (header 0 ... lookup 9, journal 8), default base 229, version 1 and markers are pinned as the format. `end - start` is taken not to wrap for reversed ranges.'),
'C24': ('''The path machine is analysed element by element: the resolution starts only after the leading "/" was excluded; a ".." step with nothing left is an error exit; the names looked up are the elements of the split, each in the directory found by the previous one; ending operations need a real last name.''', ''),
'C25': ('''Frame conditions by term comparison: for every metadata write of every operation each field is either the field as read or, in its own setter, exactly the argument; getters return the stored value; read-only operations contain no state-changing event.''', ''),
'C27': ('''The stored word is written only under "is one of the supported sizes" and "highest address is 0"; field in use and stored word are changed on the same paths to the same value; refused exits have no change.''', ''),
'C28': ('''For each transfer (a copy between a piece of the caller's buffer and a piece of a stored chunk, memory or vector) the term place-in-file minus place-in-buffer is normalised as a polynomial and proved equal to the offset of the call by following it backwards along all loop paths (co-induction over the joins, with the loop's own conditions).
This covers vectors of pieces filled in one loop and used in another, saturating arithmetic, chunk iterators, and early exits. Transfers are shown to stay within a chunk, to follow each other without gaps from the start of the buffer, and to be shorter than asked only at the end of a chunk or of the file.''',
 'truncation of chunk numbers to u32 and minima with constants of at least the largest chunk number are dropped, because sizes are bounded by C02/C13. The argument "nothing left stays nothing left" is the side condition of the co-induction. A chunk list built by `filter_map` is not recognised (it would alarm).'),
'C29': ('''Each read and write of a memory is followed backwards along all paths to a grow of the same memory by enough pages, or to an edge that says that it has them; the required end is rewritten at each join, so the loops that copy a file block by block are covered through the invariant offset + remaining = size. New chunks must be grown to
their full end (this gives the invariant for stored chunks), stored chunks are accessed inside of their size.''',
 'a memory never shrinks (this is so for wasm memories). Reads of the free list at a pushed slot rely on C14.'),
'C30': ('''For each operation, every exit with a refusal (an error value the operation itself decides on) must not be reachable from any event that changes stored state; failures reported by the storage are excepted.''',
 'remove_recursive and multi-step path creation are judged by their own documented steps.'),
'C31': ('''The size term put for a mounted file is compared, for each value of the policy, with explicit size / pages times 64 KiB / earlier size under its guards; the other fields must be those of the earlier mount or of the stored file.''', ''),
'C32': ('''In both back ends every successful exit of the release must pass a removal from each metadata map under the node released; for each chunk map, the ranges iterated and removed (each on all paths, every element reaching the removal) must add up, as intervals, to all possible chunk numbers, those of metadata chunks as they occur in the code included.
Keys of all removals and insertions of all operations are traced to the node of the call.''',
 'directory entries are not covered: only empty directories are released (C07).'),
'C33': ('''The arguments of the callback are traced to the elements of the range over the directory's entries from the starting number; stops exactly on the callback's answer; "." and ".." are decided for each starting hypothesis.''',
 'listing while the callback changes the directory is not claimed.'),
'C34': ('''For each flag, the creating / truncating / opening events are checked for the fact on that flag bit; exclusive and truncate on existing and missing names; kind checks before a descriptor is handed out.''',
 'facts of the form "the lookup missed" count as evidence that the name does not exist.'),
'C36': ('''Terms of source, target and replaced entries are compared with what the two paths resolve to; guards dominate the first change; exits after the recording of the new name are of the listed kinds; success requires the recorded new entry and the removed old one.''',
 'after the new entry is recorded only FilenameTooLong, NoSuchFileOrDirectory, OperationNotPermitted, InvalidArgument and TextFileBusy may still be returned.'),
'C37': ('''Each content access in one of the two formats needs the fact that the metadata says so; if it says nothing, that chunks of that format exist, or, for an empty file, that the storage's type for new files is that one; writers of the type field are enumerated.''',
 'metadata made up for a missing file is allowed for the root directory only.'),
}

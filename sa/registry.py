"""property id -> (rule function, one-line note for the evidence file)"""
import rules_fd as fd
import rules_fs as fs
import rules_io as io
import rules_dir as dr
import rules_st as st
import rules_sm as sm
import rules_al as al
import rules_ca as ca
import rules_ly as ly
import rules_tr as tr
import rules_mm as mm
import rules_fm as fm
import rules_rm as rm

RULES = {
    'C01': (fd.c01, 'Whole-program dataflow over the MIR of the descriptor operations.'),
    'C02': (fd.c02, 'Whole-program dataflow over the MIR of the descriptor operations.'),
    'C03': (fd.c03, 'Whole-program dataflow over the MIR of the descriptor operations.'),
    'C04': (fs.c04, 'Must-analysis over the structural operations: guards before every link removal.'),
    'C05': (fs.c05, 'Value provenance of cache keys and values; invalidation on every path that removes an entry.'),
    'C07': (fs.c07, 'Pairing (typestate) of entry changes with size changes on every successful path.'),
    'C08': (fs.c08, 'Pairing (typestate) of entry changes with link-count changes; release on every path.'),
    'C12': (io.c12, 'Symbolic linear-arithmetic equality of cursor, offset and transferred byte counts on every path.'),
    'C10': (io.c10, 'Error-flow analysis: no successful exit is reachable after a storage step reported failure.'),
    'C11': (io.c11, 'Typestate of descriptors opened internally, on every path of every operation.'),
    'C24': (io.c24, 'Guards and value provenance of path parts in every path walk.'),
    'C25': (io.c25, 'Effect analysis: which attributes of which node each operation writes, and with what value.'),
    'C30': (io.c30, 'Effect order: no refusal is reachable after the first stored change.'),
    'C34': (io.c34, 'Path conditions on the flags at every creation, truncation and returned descriptor.'),
    'C36': (io.c36, 'Value provenance and guard dominance in rename and create_hard_link.'),
    'C06': (dr.c06, 'Guard dominance: the name looked up is the name recorded, in the same directory, with nothing recorded in between.'),
    'C16': (st.c16, 'Path obligations over every store of a file size: drain loops and zeroing of the last chunk.'),
    'C17': (st.c17, 'Path conditions: mounted or not, at every access to chunks, metadata and mounted memories.'),
    'C13': (sm.c13, 'Linear inequalities established on every path to a store of metadata or bytes.'),
    'C18': (sm.c18, 'Typestate of the mounts: value of the mount table at every exit, pairing of removal and re-insertion.'),
    'C31': (sm.c31, 'Value provenance of size and attributes stored at mount, with the path conditions of each policy.'),
    'C14': (al.c14, 'Value provenance of chunk addresses; pairing of records added and removed with chunks taken and returned.'),
    'C19': (ca.c19, 'Value provenance of every cache entry; pairing of stored and cached changes on every path.'),
    'C20': (ca.c20, 'Value provenance and path conditions of every cached chunk address; pairing of record and cache changes.'),
    'C09': (ly.c09, 'Value provenance of every node number; pairing of numbers given with the stored counter.'),
    'C22': (ly.c22, 'Effect analysis of the constructors, with the path conditions of every stored change.'),
    'C23': (ly.c23, 'Value provenance of every memory: offset from the start of the range, range tests on every path.'),
    'C27': (ly.c27, 'Path conditions and value provenance of every change of the chunk size.'),
    'C33': (ly.c33, 'Path obligations over the listing loop, split by where the listing starts.'),
    'C37': (ly.c37, 'Path conditions on the recorded format at every access to content; value provenance of stored metadata.'),
    'C32': (rm.c32, 'Must-reach analysis of the removals on every successful exit of the release, with the interval of removed chunk numbers; provenance of the keys of all removals and insertions.'),
    'C21': (fm.c21, 'Symbolic contents of the encoded bytes composed with the decoder; wire names on both sides of the serialisation; truth of every outcome of the comparisons; record layout.'),
    'C29': (mm.c29, 'Every read and write of a memory, followed backwards along all paths to a sufficient grow (or to the knowledge that the memory is large enough), with the offsets rewritten at every join.'),
    'C15': (tr.c15, 'What is known wherever the buffer is filled instead of read, and what a new chunk is filled with on every path.'),
    'C28': (tr.c28, 'Polynomial identities over the positions of every transfer, proved backwards along all paths.'),
}

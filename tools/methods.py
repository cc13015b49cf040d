# How each property is decided; goes into DESIGN.md.
IMPM = 'Chunk lengths and contents are symbolic, the number of chunks and the fan-out are forked. '
METHOD = {
'C01': IMPM + 'The real layout builds into the store, the root is read back from its stored bytes with a fresh reader, and the result is compared byte for byte (array equality query) with the input.',
'C02': 'As C01 with the trickle layout.',
'C03': IMPM + 'The harness computes the reference layout recursively from the number of chunks and the fan-out and compares every node of the stored DAG with it: type, data, recorded sizes, link sizes and order, and presence in the store.',
'C04': 'As C03 with a recursive definition of the trickle layout.',
'C05': IMPM + 'base+extra chunks are imported in one go and in two steps; content and root identifier must agree.',
'C06': IMPM + 'One fault (failing chunk read, failing store operation, oversized chunk) at a symbolic position and of a symbolic kind; either an error is returned, or no fault was delivered and all blocks are in the store.',
'C07': 'Identifier builder, raw leaves, no-copy and source path are choices; every added block is checked for the prefix, and the position info of every leaf against the offset of its chunk.',
'C08': 'Trees of given shapes with symbolic leaf sizes and contents; the reference is the concatenation and an integer position. Each operation is compared in returned count, error, bytes and position.',
'C11': 'Trees as C08; one failing read, missing block or short writer at a symbolic place; the reference says which bytes may have been delivered, that the error is not an end of file, and where reading continues.',
'C12': 'Trees as C08; a cancellation arrives before a symbolic block read (or the store blocks until cancelled), schedules are explored with bounded deviations; delivered bytes, progress and the number of goroutines left are asserted.',
'C13': 'Base files of symbolic leaf sizes; the reference is an array to which the writes are applied; the result is read back from stored bytes and compared byte for byte.',
'C14': 'As C13 with mixed operations and a position; every returned count, error, size and byte is compared with the array model.',
'C15': 'As C13 with truncations to a symbolic size followed by other operations.',
'C16': 'Encoded bytes and content of the first node and of each node handed out are recorded and compared again at the end.',
'C17': 'As C13 with one failing read or store at a symbolic position and of a symbolic kind: an error is reported somewhere, or the result equals the reference and all its blocks are in the store.',
'C21': 'Hash digits of each name are symbolic bits behind the hash hook of the repository, so all relative positions (no collision, collision down to any level) are covered. The reference is a Go map.',
'C22': 'The expected trie is computed recursively from entries and digits and compared with every stored node: bitfield, link names, order, sizes, type, fan-out, hash type, identifiers; two insertion orders must give one identifier.',
'C23': 'Store, reopen, change, store, reopen, against the map; nodes and link lists handed out earlier are compared again at the end.',
'C24': 'All enumeration interfaces against the map, with every part loaded or not, both answer orders of the store, and bounded-deviation schedules of the parallel walk.',
'C25': 'One digit of a name takes any value; the harness follows the expected prefix in the stored DAG. The hash of a name of symbolic bytes (each length 0..15) is compared with an independent statement of MurmurHash3 x64-128 as one bit-vector equality.',
'C26': 'The third name has the digits of one of the others in all levels: an error must be reported and the entries be unchanged; otherwise insertion must work.',
'C27': 'Nodes with symbolic fan-out, hash type, bitfield bytes and number and names of links, also nested; any panic or endless loop in opening or using them is an implicit assertion failure.',
'C28': 'As C21 with one failing read or store at a symbolic position; either the operation fails and the entries are as before, or it is right and everything is stored.',
'C35': 'As C24 with cancellation at a symbolic read, or a consumer that leaves.',
'C18': 'A model (sizes, data, total modulo 2^64) is kept next to the real node; sizes, differences and data length are symbolic 64-bit values, every getter is compared after every edit and after decoding.',
'C19': 'The expected bytes are built field by field in the harness from the format definition and compared as byte arrays.',
'C20': 'Recorded sizes, total and child contents are symbolic, with children that are raw or file nodes; panics, endless loops (step limits confirmed natively) and size mismatches in results are failures.',
'C29': 'The reference is an array of values per name; identifiers of two lengths and a symbolic threshold make every conversion point reachable. Find, Links, ForEachLink, EnumLinksAsync are compared after the sequence and after reopening.',
'C30': 'The same operations with a reference that only knows entries, threshold and the net change since conversion; the stored type is compared after each operation.',
'C31': 'The expected root is built independently (sorted plain node, or the recursive reference trie of C22) and identifiers compared.',
'C32': 'Every memory access of every goroutine is stamped with a vector clock; two accesses to one location without an ordering by channels, mutexes, wait groups or contexts, one of them a write, are a violation with the schedule as replay. Goroutines left are counted.',
'C33': 'The name is symbolic bytes and the hash of an unknown name symbolic bits; the result is compared with a linear search of the model.',
'C34': 'Entries of each kind with symbolic contents; iteration is compared with the model, contents byte for byte.',
'C36': 'As C29 with one failing operation or cancellation at a symbolic position; results are compared with the model, which changes only on success.',

'C09': 'As C13; each reachable node of the result is checked for the prefix of the identifiers of the base, each leaf for its encoding; the option is overridden or not.',
'C10': 'The reference is a recursive definition of the trickle shape for any parameters; imported DAGs and hand-built DAGs that differ at one symbolic place must be accepted exactly when they conform.',
'C37': 'As C01 and C06 through the default entry points, with the structure comparison of C03 and C04.',
'C38': 'A model (identifiers and sizes per child) next to the real node; child sizes are symbolic 64-bit values, links, sizes and link sizes are compared after every edit and after commit.',
'C39': 'Two readers over one node: operations in turns against two positions, and two goroutines whose memory accesses are compared by happens-before, with symbolic leaf sizes, contents and position.',
}

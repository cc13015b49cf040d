# The properties: the source of properties.jsonl and of the claims in MANIFEST.json.
def P(id, title, statement, over, text, why, files, mech, **k):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if 'observe' in k: d['anchors']['observe_at'] = k['observe']
    return d

IMPH = 'importer/helpers/dagbuilder.go'
BAL = 'importer/balanced/builder.go'
TRI = 'importer/trickle/trickledag.go'
RD = 'io/dagreader.go'
MOD = 'mod/dagmodifier.go'
HAMT = 'hamt/hamt.go'
HUT = 'hamt/util.go'
DIR = 'io/directory.go'
RES = 'io/resolve.go'
FILE = 'file/unixfile.go'
FS = 'unixfs.go'

PROPS = [
P('C01', 'Balanced import reads back the imported bytes',
  'A file imported with the balanced layout, once stored, reads back as exactly the bytes that were chunked, for every sequence of chunk sizes, fan-out limit and leaf encoding. The size the file reports is the number of those bytes.',
  ['inputs', 'configurations'], 'all contents, chunk lengths, chunk counts, fan-outs, raw or wrapped leaves',
  'Tests import a few random files of fixed sizes with one fan-out; a chunk count that just crosses a layer boundary, or an unusual fan-out, is not sampled.',
  [BAL, IMPH, RD, FS], [('layered building', BAL + ': Layout, fillNodeRec'), ('leaf creation', IMPH + ': NewLeafNode'), ('depth-first reading', RD + ': CtxReadFull')]),
P('C02', 'Trickle import reads back the imported bytes',
  'A file imported with the trickle layout, once stored, reads back as exactly the bytes that were chunked, for every sequence of chunk sizes, fan-out limit and leaf encoding. The size the file reports is the number of those bytes.',
  ['inputs', 'configurations'], 'all contents, chunk lengths, chunk counts, fan-outs, raw or wrapped leaves',
  'Tests import a few random files; the number of chunks at which a new layer or a deeper subtree starts is not sampled systematically.',
  [TRI, IMPH, RD, FS], [('layer filling', TRI + ': Layout, fillTrickleRec'), ('leaf layer', IMPH + ': FillNodeLayer')]),
P('C03', 'Balanced import builds the specified, canonical DAG',
  'The balanced layout stores a tree whose leaves hold the chunks in order, all at the same depth, and whose nodes are all full except along the right edge. Every inner node records the byte count of each child in order, its own total, and links carrying the cumulative size of the subtree, and holds no data itself; all of its blocks are stored.',
  ['inputs', 'configurations'], 'all contents, chunk lengths and counts, fan-outs, leaf encodings',
  'The identifier of an imported file depends on every detail of the layout; the tests compare a handful of shapes and sizes.',
  [BAL, IMPH], [('layered building', BAL + ': Layout, fillNodeRec'), ('size bookkeeping', IMPH + ': AddChild, Commit')]),
P('C04', 'Trickle import builds the specified, canonical DAG',
  'The trickle layout stores a tree in which every inner node has its leaves first, in order, up to the fan-out limit, followed by four subtrees of each depth starting from one, all full except the last ones. Sizes recorded in nodes and links are those of the bytes below them, inner nodes hold no data, and all blocks are stored.',
  ['inputs', 'configurations'], 'all contents, chunk lengths and counts, fan-outs, leaf encodings',
  'The structure verifier of the repository is run on a few random files, and does not look at recorded sizes or at whether subtrees are filled.',
  [TRI, IMPH], [('layer filling', TRI + ': fillTrickleRec'), ('size bookkeeping', IMPH + ': AddChild, Commit')]),
P('C05', 'Appending to a trickle file equals importing the concatenation',
  'Appending chunks to a stored trickle file gives a file whose content is the old content followed by the new chunks, and whose tree is the one a single import of all the chunks would have built. A file that is a single node with inline data keeps that data as its first bytes.',
  ['inputs', 'histories'], 'all splits of a chunk sequence into base and appended part, all fan-outs and leaf encodings, all contents',
  'Where the base left off in its layer (empty, direct leaves only, complete layers, part of a subtree) decides the code path; tests append to a few random files and check content only for most.',
  [TRI], [('resume position', TRI + ': trickleDepthInfo, appendFillLastChild, appendRec')]),
P('C06', 'Import and append never hide a failed chunk or store operation',
  'If reading a chunk fails, storing a block fails, or a chunk exceeds the block size limit, the import or append returns an error. When it returns no error every block of the result is stored.',
  ['fault_sequences', 'inputs'], 'every position of one failing chunk read, one failing store operation or one oversized chunk, in every layout',
  'No existing test makes the store or the chunker fail in the middle of an import.',
  [BAL, TRI, IMPH], [('error propagation', IMPH + ': Next, AddChild, Done')]),
P('C07', 'Import options apply to every block and to file references',
  'Every block of an imported file uses the requested identifier version and hash, and leaves are raw blocks exactly when requested. In no-copy mode each leaf refers to the path and to the byte offset of its own chunk in the source, and importing from a source without a path is refused.',
  ['configurations', 'inputs'], 'all identifier builders in the list, leaf encodings, chunk lengths and counts, sources with and without a path',
  'Tests check the prefix of one or two nodes and offsets for fixed-size chunks.',
  [IMPH, BAL, TRI], [('builder options', IMPH + ': NewLeafNode, ProcessFileStore, New')]),
P('C08', 'A file reader behaves as a seekable byte array',
  'For any well-formed file tree, any sequence of reads, full reads, seeks relative to start, position or end, and copy-to-writer calls returns what the same operations return on the byte array that is the concatenation of the leaves. A short read happens only at the end, seeking before the start is an error that leaves the position unchanged, and the reported size is that of the array.',
  ['inputs', 'histories', 'programs'], 'all operation sequences up to a length, all lengths, offsets and whences, all leaf sizes (including empty leaves) in a set of tree shapes, all contents',
  'Tests seek and read at sampled offsets in trees the importer builds; mixed sequences, zero-length leaves and boundaries of nested subtrees are not covered.',
  [RD], [('position and current leaf', RD + ': Seek, CtxReadFull, WriteTo, resetPosition')]),
P('C13', 'Writing in place overlays bytes and leaves the rest of the file alone',
  'Writing bytes at an offset of an existing file replaces exactly those bytes, extends the file when the write goes past its end, and fills a gap between the old end and the offset with zeros. This holds for every base file, layout, leaf encoding, offset and length, and for several writes in a row, whether or not they are flushed in between; a negative offset is refused.',
  ['inputs', 'histories'], 'all sequences of a few writes, all offsets and lengths relative to leaf and file boundaries, a set of base shapes, all contents',
  'Tests write at sampled offsets in files made of large leaves; writes that straddle leaves, end exactly on a boundary, or follow an unflushed write elsewhere are rare or absent.',
  [MOD], [('in-place leaf rewrite', MOD + ': modifyDag'), ('buffered writes', MOD + ': Write, WriteAt, Sync'), ('growth', MOD + ': appendData, expandSparse')]),
P('C14', 'A file being modified behaves as a seekable byte array',
  'Any sequence of writes, positioned writes, seeks, reads, truncations and flushes on an open file returns what the same operations return on a byte array with a position, the reported size always is that of the array, and the node handed out holds the array. A seek past the end extends the file with zeros; invalid seeks and sizes are refused.',
  ['inputs', 'histories', 'programs'], 'all sequences of a few operations with all arguments within small ranges, a set of base shapes',
  'The interplay of buffered writes, the cached reader and the position has many orders; the tests cover a handful.',
  [MOD], [('position and buffers', MOD + ': Seek, CtxReadFull, Sync, Size'), ('node', MOD + ': GetNode')]),
P('C15', 'Truncation keeps exactly the prefix, or extends with zeros',
  'Truncating a file to a size keeps exactly that many leading bytes, or extends the file with zeros when the size is larger, and the new size and content show in later operations and in the stored file. A negative size is refused.',
  ['inputs', 'histories'], 'all sizes, before and after other operations, a set of base shapes and leaf encodings',
  'Tests truncate one file to a few sizes; sizes on leaf and subtree boundaries, zero, and growing are not all covered.',
  [MOD], [('truncation', MOD + ': Truncate, dagTruncate'), ('growth', MOD + ': expandSparse')]),
P('C16', 'Modifying a file never alters nodes that were handed out or in',
  'The node a modification started from, and every node handed out while modifying, keep the content they had at that time, whatever is written or truncated later.',
  ['inputs', 'histories'], 'all sequences of a few writes and truncations with all arguments in small ranges, a set of base shapes',
  'Tests look at the latest node only; nodes sharing structure show the damage only when an old one is read again.',
  [MOD], [('copies', MOD + ': GetNode, NewDagModifier'), ('link updates', MOD + ': modifyDag, dagTruncate')]),
P('C17', 'Modifying a file never hides a failed store operation',
  'When a block cannot be read or stored while a file is modified, some operation up to and including the one that hands out the result reports an error. When no operation reports an error, the result holds exactly what was written and all of its blocks are stored.',
  ['fault_sequences', 'inputs', 'histories'], 'every position of one failing read or store in sequences of a few operations',
  'No existing test makes the store fail during a modification.',
  [MOD], [('error propagation', MOD + ': Sync, modifyDag, dagTruncate, appendData')]),

P('C11', 'Reading a file never hides a missing block, a bad node or a failed writer',
  'When a block cannot be read, or the writer of a copy fails, the reader reports an error and never an early end of file; the bytes delivered before are right and the position afterwards is that of the next bytes. Opening a directory, symlink, unknown node or metadata node without a child as a file is refused, and a metadata node reads as its child.',
  ['fault_sequences', 'inputs'], 'all positions of one failing read, missing block or short write, before and after seeks; all node types',
  'Tests read files whose blocks are all there.',
  [RD], [('error propagation', RD + ': CtxReadFull, Seek, WriteTo'), ('node types', RD + ': NewDagReader')]),
P('C12', 'Cancelling or closing a reader stops it without damage',
  'Cancelling the context of a read, cancelling the context of the reader or closing the reader makes a pending read return, with only bytes that are really in the file, and leaves no goroutine behind. After a read cut by its own context the reader goes on at the right position with the next call; a context of a read that ends after that read has no effect on later ones.',
  ['schedules', 'inputs'], 'every point at which the cancellation can arrive, including while the store does not answer; schedules with a bounded number of deviations',
  'One test cancels one read at one point.',
  [RD], [('contexts', RD + ': CtxReadFull, Read, Close'), ('walking', RD + ': dagWalker')]),
P('C21', 'A sharded directory is a map from names to entries',
  'After any sequence of insertions, replacements, takings and removals a sharded directory holds exactly the entries a map would hold: lookups, the previous entry that an operation reports, not-found errors and the listing agree with the map. That includes directories that were opened from a stored form whose sub-directories are deeper than the entries need, or empty, as other implementations may leave them.',
  ['inputs', 'histories', 'configurations'], 'all operation sequences up to a length over a few names, all relative positions of their hashes, directories built in memory or read back from the store',
  'Hash collisions of several levels, and the collapse of a sub-directory after removals, depend on the hashes of names; tests use random names that rarely collide deeply.',
  [HAMT], [('insertion and splitting', HAMT + ': swapValue'), ('removal and collapsing', HAMT + ': swapValue, childer.rm')]),
P('C22', 'The DAG of a sharded directory depends only on its entries',
  'The stored form of a sharded directory is the canonical trie of its entries: the same whatever the order of insertion and whatever else was inserted and removed before. A slot holds an entry directly when a single name reaches it and a sub-directory otherwise; the bitfield, link names, link order, sizes and recorded hash type and fan-out are those of the format, and every block has the identifier version and hash of the directory.',
  ['inputs', 'histories', 'configurations'], 'all operation sequences up to a length over a few names, all relative hash positions, several fan-outs',
  'Canonicity is a statement about pairs of histories; tests compare a few.',
  [HAMT], [('serialisation', HAMT + ': Node, serializeAsNode'), ('collapsing', HAMT + ': swapValue')]),
P('C23', 'A sharded directory survives storing and reopening',
  'Storing a sharded directory and opening it from its root gives the same entries, and all blocks it needs are stored; changes made after reopening are in the next stored form, and a node handed in or out earlier still holds what it held.',
  ['inputs', 'histories', 'configurations'], 'all operation sequences up to a length between two stores, all hash positions, several fan-outs, any part loaded before',
  'Which sub-directories are loaded, dirty or only links depends on the history; tests store once at the end.',
  [HAMT], [('opening', HAMT + ': NewHamtFromDag'), ('lazy loading', HAMT + ': loadChild, Node')]),
P('C24', 'Enumeration of a sharded directory yields every entry exactly once',
  'Listing, iterating and streaming the entries of a sharded directory each deliver every entry once, under its name with its identifier and size, whatever part is loaded and in whatever order blocks and goroutines answer; the stream is closed at the end and no goroutine stays behind. An iteration stops at the first error of its callback and returns it.',
  ['inputs', 'schedules', 'configurations'], 'all contents over a few names, all hash positions, all loading states; schedules with a bounded number of deviations',
  'The parallel walk has many interleavings; a test run shows one.',
  [HAMT], [('parallel walk', HAMT + ': parallelShardWalk, EnumLinksAsync, EnumLinks'), ('iteration', HAMT + ': ForEachLink')]),
P('C25', 'Placement in a sharded directory follows the hash of the name',
  'The position of a name at each level is the next group of bits of the hash of the name, most significant first, where a group has as many bits as the fan-out needs, and link names start with that position in upper-case hexadecimal padded to the width of the largest position. The hash is the first half of MurmurHash3 x64-128 of the name, stored most significant byte first.',
  ['inputs', 'configurations'], 'all hash values in one digit and a pair of values elsewhere, all fan-outs from 8 to 1024; all names up to 15 bytes for the hash',
  'Other implementations must find the entries; tests check a few hashes and one fan-out.',
  [HUT, HAMT], [('bit groups', HUT + ': hashBits.Next'), ('hash', HUT + ': murmur3Hash'), ('prefix', HAMT + ': linkNamePrefix')]),
P('C26', 'Names whose hashes collide completely are refused, not mixed up',
  'Inserting a name whose hash equals that of a present name in all usable bits fails with an error, and the directory still holds the earlier entries unchanged.',
  ['inputs', 'histories'], 'any directory over a few names, one more name with the same hash as either, several fan-outs',
  'Real 64-bit collisions do not occur in tests.',
  [HAMT, HUT], [('depth limit', HUT + ': Next'), ('splitting', HAMT + ': swapValue')]),
P('C27', 'Malformed sharded directory nodes give errors, not panics',
  'Opening and using a sharded directory node whose header, fan-out, bitfield, number of links, link names or nested nodes are not what the format requires either fails with an error or works; it never panics or loops.',
  ['inputs'], 'all combinations of a list of headers, bitfields of a few bytes, up to two links with listed names, one level of nesting',
  'Directories come from the network; tests use well-formed ones.',
  [HAMT], [('opening', HAMT + ': NewHamtFromDag'), ('children', HAMT + ': childer.makeChilder, childer.loadChild')]),
P('C28', 'Sharded directory operations never hide a failed store operation',
  'When a block cannot be read or stored, the operation on a sharded directory that needed it reports an error; without an error its result is right and its blocks are stored. A failed operation leaves the entries as they were.',
  ['fault_sequences', 'inputs'], 'every position of one failing read or store in every operation, any loading state, all hash positions',
  'No existing test makes a read fail inside a trie operation.',
  [HAMT], [('error propagation', HAMT + ': loadChild, swapValue, Node, EnumLinksAsync')]),
P('C35', 'Cancelling the enumeration of a sharded directory ends it cleanly',
  'Listing or iterating with a context that is cancelled at any moment either gives all entries or reports an error, never a partial listing as if complete; a stream is closed, delivers only real entries, each at most once, and no goroutine stays behind even when the consumer stops reading.',
  ['schedules', 'inputs'], 'cancellation before and during each of the first reads, consumers that leave; schedules with a bounded number of deviations',
  'One test cancels one listing.',
  [HAMT], [('cancellation', HAMT + ': EnumLinks, EnumLinksAsync, parallelShardWalk, emitResult')]),
P('C18', 'File nodes keep exact account of their sizes and survive encoding',
  'Whatever sequence of child sizes is added to or removed from a UnixFS node and whatever data it is given, its total size is the sum of the child sizes and the inline data plus explicit adjustments made since its child sizes were last cleared, and data, child sizes, type and total are what was set. Encoding and decoding a node changes nothing, gives a message of the length the wire format prescribes, and re-encoding gives the same bytes.',
  ['inputs', 'histories'], 'all sequences of up to a few edits, all 64-bit sizes, all types, all data lengths to 1 MiB',
  'Tests check one node with a few sizes; wrap-around and removal at each index are not sampled.',
  [FS], [('accounting', FS + ': FSNode.AddBlockSize, RemoveBlockSize, RemoveAllBlockSizes, SetData, UpdateFilesize'), ('coding', FS + ': FSNode.GetBytes, FSNodeFromBytes, ExtractFSNode, UnwrapData, DataSize')]),
P('C19', 'The UnixFS helper constructors encode what the format prescribes',
  'The functions that make encoded files, directories, raw data, symlinks, sharded-directory headers and metadata produce exactly the wire bytes the UnixFS format prescribes for their arguments, and the functions that take such messages apart give back what was put in, including the recorded size.',
  ['inputs'], 'all short data, numbers of every varint length, every helper',
  'Round-trip tests with one example miss fields that are dropped or swapped for particular values.',
  [FS], [('constructors', FS + ': FilePBData, FolderPBData, WrapData, SymlinkData, HAMTShardData, BytesForMetadata'), ('accessors', FS + ': UnwrapData, DataSize, MetadataFromBytes, ReadUnixFSNodeData')]),
P('C20', 'Malformed file nodes give errors, not panics or endless loops',
  'Reading, seeking in, copying, writing to, truncating or appending to a file whose recorded sizes disagree with its links, its children or its data either fails with an error or works; it never panics and never fails to end. Changing a node that is no UnixFS node at all fails with an error.',
  ['inputs'], 'a root with any recorded sizes, total, data and up to two children that lie about their size; every operation',
  'Files come from the network; tests use files the importer made.',
  [RD, MOD, TRI], [('reading', RD + ': CtxReadFull, Seek, WriteTo'), ('modifying', MOD + ': modifyDag, dagTruncate, appendData'), ('appending', TRI + ': appendRec')]),
P('C29', 'A directory is a map from names to entries in either form',
  'After any sequence of additions, replacements and removals a directory, made in memory or opened from its root, holds exactly the entries a map would hold: lookups, not-found errors and all three listings agree with the map (an iteration stops at the first error of its callback and returns it), whatever the threshold and however often the directory changed between the basic and the sharded form. So does the directory opened from its stored root.',
  ['inputs', 'histories', 'configurations'], 'all operation sequences up to a length over a few names, every threshold, hash collisions or not, opened or fresh',
  'Whether an operation converts the directory depends on exact sizes relative to the threshold; tests try a few.',
  [DIR, HAMT], [('either form', DIR + ': BasicDirectory, HAMTDirectory, DynamicDirectory'), ('conversion', DIR + ': switchToSharding, switchToBasic')]),
P('C30', 'The form of a directory follows the size of its entries',
  'Adding an entry never leaves a basic directory whose estimated size (lengths of names and identifiers) is at or above the threshold, and a basic directory stays basic below it. A sharded directory becomes basic by an operation exactly when the net change of size since it was opened or converted is a decrease and the size is below the threshold. With a threshold of zero the form never changes, and nothing but additions makes a directory sharded.',
  ['inputs', 'histories', 'configurations'], 'all operation sequences up to a length over a few names with identifiers of different lengths, every threshold',
  'The boundary cases need sizes exactly at the threshold after replacements and removals; tests use a few totals.',
  [DIR], [('estimation', DIR + ': addToEstimatedSize, removeFromEstimatedSize, addToSizeChange, removeFromSizeChange'), ('decision', DIR + ': needsToSwitchToHAMTDir, needsToSwitchToBasicDir, sizeBelowThreshold')]),
P('C31', 'A stored directory depends only on its entries, form and identifier options',
  'The root of a directory is a function of its entries, its form and its identifier options, whatever operations and conversions led there; conversions keep the identifier options and everything the root refers to is stored. The node a directory was opened from stays unchanged, and only directory nodes open as directories.',
  ['inputs', 'histories', 'configurations'], 'all operation sequences up to a length over a few names, every threshold, identifier versions 0 and 1, every declared type and malformed nodes',
  'A statement about pairs of histories, and about conversions at every threshold.',
  [DIR, HAMT], [('serialisation', DIR + ': GetNode'), ('options', DIR + ': SetCidBuilder, switchToSharding, switchToBasic'), ('opening', DIR + ': NewDirectoryFromNode')]),
P('C32', 'Nothing an operation on a directory leaves running touches the directory',
  'When an operation on a directory has returned, no goroutine it started still reads or writes the directory while the next operation of the same caller runs, and all of them end.',
  ['schedules', 'inputs', 'histories'], 'all operations on a few names at every threshold; schedules with a bounded number of deviations; every pair of accesses is compared by happens-before',
  'The walk that estimates the size runs in the background; a test run shows one interleaving and the race detector only sees the one that ran.',
  [DIR, HAMT], [('size estimation', DIR + ': sizeBelowThreshold'), ('parallel walk', HAMT + ': EnumLinksAsync, parallelShardWalk')]),
P('C33', 'One step of path resolution agrees with the content of the directory',
  'Resolving the first name of a path through a directory of either form gives the entry stored under that name and the rest of the path, or an error if there is no such entry; for other nodes it follows their named links. An empty path gives an error, nothing is written, and a block that cannot be read or a cancellation is never reported as a missing entry.',
  ['inputs', 'fault_sequences'], 'any short name, any hash of it, directories over a few names in either form, other kinds of nodes; one failing read or cancellation',
  'Tests resolve one name in one sharded directory.',
  [RES, HAMT], [('resolution', RES + ': ResolveUnixfsOnce'), ('lookup', HAMT + ': Shard.Find')]),
P('C34', 'The file tree view of a node shows exactly what the node holds',
  'The view of a UnixFS node as a file, symlink or directory gives the content, the target or the entries, each once, with the size recorded; nodes of other types are refused. Iteration over a directory ends with an error if an entry cannot be shown, a block cannot be read or the context is cancelled, and never looks complete when it is not; no goroutine stays behind.',
  ['inputs', 'fault_sequences', 'schedules'], 'directories over a few names in either form with entries of every kind, every declared type; one failing read or cancellation; bounded-deviation schedules',
  'Tests show one small tree whose blocks are all there.',
  [FILE], [('types', FILE + ': NewUnixfsFile'), ('iteration', FILE + ': ufsDirectory.Entries, ufsIterator.Next')]),
P('C36', 'Directory operations never hide a failed store operation or a cancellation',
  'When a block cannot be read or stored, or the context is cancelled, an operation on a directory reports an error unless its result is right all the same; not-found is only reported when the entry is not there, and a listing without error is complete. A failed operation leaves the entries as they were, and the form still follows the size.',
  ['fault_sequences', 'inputs', 'configurations'], 'one failing read or store at each of the first positions, or a cancellation before or during each operation, any starting directory, every threshold',
  'No existing test makes a store fail or cancels during a directory operation.',
  [DIR, HAMT], [('propagation', DIR + ': AddChild, RemoveChild, switchToSharding, switchToBasic'), ('size estimation', DIR + ': sizeBelowThreshold')]),
P('C09', 'Modifying a file keeps its identifier options and leaf encoding',
  'Every block that a write, truncation or extension adds to a file has an identifier of the same version and hash function as the root of the file (raw leaves have the raw codec and version 1). Leaves that are overwritten or cut keep their encoding, and leaves that are added are raw exactly when the option of the modifier says so, which by default follows the version of the root.',
  ['inputs', 'histories', 'configurations'], 'all writes and truncations of small sizes at any offset, three identifier builders, either leaf encoding, either layout',
  'Tests modify files with one builder and compare only the root.',
  [MOD, TRI], [('inheritance', MOD + ': NewDagModifier'), ('overwriting', MOD + ': modifyDag'), ('truncation', MOD + ': dagTruncate'), ('appending', MOD + ': appendData')]),
P('C10', 'The trickle verifier accepts conforming DAGs and no others',
  'The verifier accepts a DAG exactly when it has the trickle shape for the given numbers of direct links and layer repeats, inner nodes hold no data and are files, leaves have the stated encoding, every block can be read and all identifiers have the stated prefix. In particular it accepts whatever the trickle importer and append make with the same parameters.',
  ['inputs', 'configurations'], 'all imported DAGs up to a number of chunks, all parameters in a range, and every DAG that differs in one node in one of eight ways',
  'Tests run it on DAGs that are right.',
  [TRI], [('verification', TRI + ': VerifyTrickleDagStructure, verifyTDagRec')]),
P('C37', 'The default importers read back, use the default fan-out and hide no fault',
  'Importing a file without options, in the balanced or the trickle layout, gives a DAG that reads back as the bytes of the splitter, has version 0 identifiers, wrapped leaves and at most the default number of links in a node, and is stored completely. A failing chunk or store operation is reported.',
  ['inputs', 'fault_sequences'], 'all chunk counts up to a limit, all lengths and contents, one fault at each position',
  'Tests import a few fixed sizes and no fault.',
  ['importer/importer.go'], [('entry points', 'importer/importer.go' + ': BuildDagFromReader, BuildTrickleDagFromReader')]),
P('C38', 'A file node under construction keeps its links and its sizes in step',
  'After any sequence of adding and removing children, committing and reopening, the node has exactly the remaining children in order, with the recorded size of each, their cumulative sizes on the links, and a total that is the sum. Every child added is stored and the identifier builder is kept.',
  ['inputs', 'histories'], 'all sequences of edits up to a length, all 64-bit sizes',
  'Tests build such nodes only through whole imports.',
  [IMPH], [('construction', IMPH + ': FSNodeOverDag')]),
P('C39', 'Several readers of one file node do not disturb each other',
  'Readers opened on the same node keep their own positions and deliver the same content as a single reader would, whether they are used in turns or by different goroutines at the same time, and closing one leaves the others working. They share no memory that one of them writes.',
  ['schedules', 'inputs', 'histories'], 'all operations in turns, leaf sizes and contents; schedules with a bounded number of deviations; every pair of accesses compared by happens-before',
  'A test run shows one interleaving, and the tests use one reader at a time.',
  [RD], [('construction', RD + ': NewDagReader'), ('reading', RD + ': CtxReadFull, WriteTo, Seek'), ('leaves', RD + ': saveNodeData')]),
]
PROPS.sort(key=lambda p: p['id'])

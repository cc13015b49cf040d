# The checks: harnesses, bounds and budgets per property; source of checks.json.
def H(fn, bound, reach=(), t=(20, 200), q={}, th=None, **k):
    pkg, f = fn.split('.')
    d = dict(pkg=pkg, fn=f, bound=bound, params=dict(quick=q), time=dict(quick=t[0], thorough=t[1]), reach=list(reach))
    if th is not None:
        d['params']['thorough'] = dict(q, **th)
    d.update(k)
    return d

CHECKS = {}
def C(id, *hs, assumptions=(), outside=''):
    CHECKS[id] = dict(harness=list(hs), assumptions=list(assumptions), outside=outside)

IMP_A = ['identifiers of distinct blocks are distinct (hashes are injective)', 'the store returns what was stored under an identifier']
C('C01', H('imp.BalancedRoundTrip', 'every chunk count up to the limit, fan-outs 2..5 (thorough 2..6), every chunk length up to 1 MiB, all contents, raw and wrapped leaves', ['deep'], (20, 400), dict(chunks=40, links=4), dict(chunks=120, links=5)), H('imp.BalancedRoundTrip', 'fan-outs 2 and 3, every third chunk count up to 180 (every count up to 400), chunks of 1 byte, all contents', ['deep'], (20, 200), dict(chunks=60, step=3, links=2, fixed=1), dict(chunks=400, step=1)),
  assumptions=IMP_A, outside='more chunks than the limit; the chunking algorithms themselves (another module)')
C('C02', H('imp.TrickleRoundTrip', 'as C01, trickle layout', ['deep'], (20, 400), dict(chunks=40, links=4), dict(chunks=120, links=5)), H('imp.TrickleRoundTrip', 'fan-out 1, every third chunk count up to 240 (every count up to 700), chunks of 1 byte, all contents', ['deep'], (25, 200), dict(chunks=80, step=3, minlinks=1, links=1, fixed=1), dict(chunks=700, step=1)),
  assumptions=IMP_A, outside='more chunks than the limit')
C('C03', H('imp.BalancedStructure', 'every chunk count up to the limit, fan-outs 2..5 (thorough 2..6), all chunk lengths and contents, raw and wrapped leaves', ['deep'], (20, 400), dict(chunks=40, links=4), dict(chunks=120, links=5)), H('imp.BalancedStructure', 'fan-outs 2 and 3, every third chunk count up to 180 (every count up to 400), chunks of 3 bytes but the last, all contents', ['deep'], (20, 200), dict(chunks=60, step=3, links=2, fixed=3), dict(chunks=400, step=1)),
  assumptions=IMP_A, outside='more chunks than the limit')
C('C04', H('imp.TrickleStructure', 'as C03, trickle layout', ['deep'], (20, 400), dict(chunks=40, links=4), dict(chunks=120, links=5)), H('imp.TrickleStructure', 'fan-out 1, every third chunk count up to 240 (every count up to 700), chunks of 3 bytes but the last, all contents', ['deep'], (25, 200), dict(chunks=80, step=3, minlinks=1, links=1, fixed=3), dict(chunks=700, step=1)),
  assumptions=IMP_A, outside='more chunks than the limit')
C('C05', H('imp.Append', 'every base of up to 16 and appended part of up to 10 chunks (thorough 40 and 20), fan-outs 2..4, all lengths and contents', ['partial'], (25, 400), dict(base=16, extra=10, links=3), dict(base=40, extra=20, links=3)),
  H('imp.AppendFlat', 'single-node files with inline data of any length, up to 10 (24) appended chunks', (), (15, 150), dict(extra=10, links=2), dict(extra=24, links=3)),
  assumptions=IMP_A, outside='appending to files whose inner nodes hold data themselves')
C('C06', H('imp.BalancedFaults', 'up to 12 (24) chunks, one fault at every position', ['chunker', 'storage', 'oversized', 'no-fault'], (15, 150), dict(chunks=12, links=3), dict(chunks=24, links=3)),
  H('imp.TrickleFaults', 'as above, trickle', ['chunker', 'storage', 'oversized', 'no-fault'], (15, 150), dict(chunks=12, links=3), dict(chunks=24, links=3)),
  H('imp.AppendFaults', 'append of up to 6 (10) chunks to up to 10 (16), fan-outs 1 and 2, one fault at every position or an oversized chunk; single nodes with inline data as well', ['fault', 'oversized'], (25, 150), dict(base=10, extra=6), dict(base=16, extra=10)),
  assumptions=IMP_A, outside='more than one fault per import')
C('C07', H('imp.BalancedOptions', 'up to 8 (16) chunks, every builder of the list, all lengths', ['filestore', 'no-path'], (15, 150), dict(chunks=8, links=2), dict(chunks=16, links=3)),
  H('imp.TrickleOptions', 'as above, trickle', ['filestore', 'no-path'], (15, 150), dict(chunks=8, links=2), dict(chunks=16, links=3)),
  assumptions=IMP_A, outside='hash functions outside the list')
C('C08', H('rd.Ops', 'two (three) operations on trees of up to 3 leaves, leaf sizes up to 1 MiB, all offsets and contents', ['eof', 'negative', 'beyond', 'writeto'], (40, 400), dict(ops=2, kinds=1, shapes=4), dict(ops=2, kinds=3, shapes=6)),
  H('rd.OpsDeep', 'one (two) operations followed by reading the rest on nested trees including empty leaves', ['eof', 'negative', 'beyond', 'writeto'], (25, 400), dict(ops=1, kinds=1), dict(ops=2, kinds=3)),
  H('rd.OpsWide', 'one (two) operations followed by reading the rest on a file of thirteen leaves', ['eof', 'negative', 'beyond', 'writeto'], (20, 150), dict(ops=1, kinds=1, off=80, want=60), dict(ops=2)),
  H('rd.Huge', 'a file of 8 to 32 GiB (one leaf shared by doubling, and a tail): two seeks of each kind to any offset around the end, the middle or the beginning, with reads of up to 4096 bytes or a copy of the rest', ['read', 'writeto'], (25, 120), dict(ops=2), dict(ops=2)),
  assumptions=IMP_A + ['the tree is well formed: recorded sizes match the leaves, inner nodes hold no data'], outside='longer sequences; trees deeper than three levels')
MOD_A = IMP_A + ['the base file is well formed', 'a single raw block is not grown (the modifier refuses it)']
C('C13', H('dmod.Writes', 'two (three) writes or positioned writes of up to 2 (3) bytes at any offset up to 4 (6)', ['gap', 'negative'], (40, 400), dict(ops=2, leafmax=2, wmax=2, offmax=4), dict(ops=3, leafmax=3, wmax=3, offmax=6)), H('dmod.Writes', 'one operation at any offset up to 42 on files of thirteen leaves of three bytes, flat, nested or trickle, also with more children than the modifier\'s fan-out', ['gap', 'negative'], (25, 150), dict(basefrom=6, bases=3, offmax=42, wmax=8, rmax=10, split=3, leafmax=3, ops=1), dict()), H('dmod.Writes', 'files of up to three leaves, leaves and arguments of up to 300 bytes, offsets up to 700, one operation', ['gap', 'negative'], (30, 200), dict(leafmax=300, offmax=700, wmax=300, rmax=300, split=512, ops=1), dict()), H('dmod.Huge', 'a file of 8 to 32 GiB (one leaf shared by doubling, and a tail): one write, truncation or read at any offset around the end, the middle or the beginning, arguments up to 4096 bytes', ['write', 'truncate'], (15, 60), dict(), dict(doubled=24)), H('dmod.Writes', 'one write of 2 000 000 to 2 200 000 bytes at any offset up to 700', [], (15, 100), dict(leafmax=300, offmax=700, wmin=2000000, wmax=2200000, split=1048576, bases=3, ops=1), dict()), H('dmod.Buffered', 'two or three writes of 600 000 to 1 200 000 bytes, at any offset up to 700, after a seek or before a truncation, so that the buffer of 2 MiB fills up or not', ['full'], (20, 150), dict(leafmax=300, offmax=700, wmin=600000, wmax=1200000, split=1048576, bases=3), dict()), assumptions=MOD_A)
C('C14', H('dmod.Ops', 'two (three) operations out of write, positioned write, seek, read, truncate, sync and hand-out with every argument in small ranges; base files of up to three leaves in a balanced or trickle shape, raw or wrapped leaves of up to 2 (3) bytes', (), (40, 500), dict(ops=2, leafmax=2, wmax=2, offmax=4, rmax=3), dict(ops=3, leafmax=3, wmax=3, offmax=6)), H('dmod.Ops', 'one operation at any offset up to 42 on files of thirteen leaves of three bytes, flat, nested or trickle, also with more children than the modifier\'s fan-out', [], (25, 150), dict(basefrom=6, bases=3, offmax=42, wmax=8, rmax=10, split=3, leafmax=3, ops=1), dict()), H('dmod.Ops', 'files of up to three leaves, leaves and arguments of up to 300 bytes, offsets up to 700, one operation', [], (30, 200), dict(leafmax=300, offmax=700, wmax=300, rmax=300, split=512, ops=1), dict()), H('dmod.Huge', 'a file of 8 to 32 GiB (one leaf shared by doubling, and a tail): one write, truncation or read at any offset around the end, the middle or the beginning, arguments up to 4096 bytes', ['write', 'truncate'], (15, 60), dict(), dict(doubled=24)), assumptions=MOD_A)
C('C15', H('dmod.Truncates', 'one truncation to any size up to 4 (6), followed by two (four) kinds of operation; base files of up to three leaves in a balanced or trickle shape, raw or wrapped leaves of up to 2 (3) bytes', (), (40, 400), dict(posts=2, leafmax=2, wmax=2, offmax=4, rmax=3), dict(posts=4, leafmax=3, wmax=3, offmax=6)), H('dmod.Truncates', 'one operation at any offset up to 42 on files of thirteen leaves of three bytes, flat, nested or trickle, also with more children than the modifier\'s fan-out', [], (25, 150), dict(basefrom=6, bases=3, offmax=42, wmax=8, rmax=10, split=3, leafmax=3, ops=1, posts=1), dict()), H('dmod.Truncates', 'files of up to three leaves, leaves and arguments of up to 300 bytes, offsets up to 700, one operation', [], (30, 200), dict(leafmax=300, offmax=700, wmax=300, rmax=300, split=512, ops=1, posts=1), dict()), H('dmod.Huge', 'a file of 8 to 32 GiB (one leaf shared by doubling, and a tail): one write, truncation or read at any offset around the end, the middle or the beginning, arguments up to 4096 bytes', ['write', 'truncate'], (15, 60), dict(), dict(doubled=24)), assumptions=MOD_A)
C('C16', H('dmod.Snapshots', 'two (three) writes or truncations with nodes handed out in between; base files of up to three leaves in a balanced or trickle shape, raw or wrapped leaves of up to 2 (3) bytes', (), (40, 400), dict(ops=2, leafmax=2, wmax=1, offmax=3), dict(ops=3, leafmax=3, wmax=3, offmax=6)), H('dmod.Snapshots', 'one operation at any offset up to 42 on files of thirteen leaves of three bytes, flat, nested or trickle, also with more children than the modifier\'s fan-out', [], (25, 150), dict(basefrom=6, bases=3, offmax=42, wmax=8, rmax=10, split=3, leafmax=3, ops=1), dict()), H('dmod.Snapshots', 'files of up to three leaves, leaves and arguments of up to 300 bytes, offsets up to 700, one operation', [], (30, 200), dict(leafmax=300, offmax=700, wmax=300, rmax=300, split=512, ops=1), dict()), assumptions=MOD_A)
C('C17', H('dmod.Faults', 'two (three) operations with one failing read or store at each of the first four (eight) positions; base files of up to three leaves in a balanced or trickle shape, raw or wrapped leaves of up to 2 (3) bytes', ['fault', 'reported'], (40, 400), dict(ops=2, leafmax=2, wmax=1, offmax=3, rmax=2, faults=4), dict(ops=3, leafmax=3, wmax=2, offmax=5, faults=8)), H('dmod.Faults', 'one operation at any offset up to 42 on files of thirteen leaves of three bytes, flat, nested or trickle, also with more children than the modifier\'s fan-out', ['fault', 'reported'], (25, 150), dict(basefrom=6, bases=3, offmax=42, wmax=8, rmax=10, split=3, leafmax=3, ops=1, faults=4), dict()), H('dmod.Faults', 'files of up to three leaves, leaves and arguments of up to 300 bytes, offsets up to 700, one operation', ['fault', 'reported'], (30, 200), dict(leafmax=300, offmax=700, wmax=300, rmax=300, split=512, ops=1, faults=4), dict()), assumptions=MOD_A)
HAMT_A = IMP_A + ['the hash of a name is any bit string (each group of bits takes two values unless stated), replaced through the hook the tests of the repository use', 'names are not empty']
C('C21', H('hm.Map', 'three names, two (three) operations out of swap, take, set-link, remove and find on any starting directory, freshly built or read back, loaded or not; hashes of two (three) digits with two values each, fan-out 8', ['two-entries'], (40, 600), dict(names=3, depth=2, ops=2), dict(names=3, depth=3, ops=3)), H('hm.Map', 'three (four) names that share the first digit and then take a common value or one of their own, two operations', ['two-entries'], (20, 200), dict(names=3, depth=3, ops=2, spreads=3, kinds=2), dict(names=4, kinds=5)),
  H('hm.Loose', 'three names each as deep as its place allows or higher, with or without a sub-directory that holds nothing; one (two) operations, reopened', ['loose'], (20, 150), dict(names=3, depth=2, ops=1), dict(ops=2, depth=3)),
  assumptions=HAMT_A, outside='more than three names; longer histories')
C('C22', H('hm.Canon', 'three names, two operations (swap, take) on any starting directory as above, insertion in both orders; fan-out 8 (8, 16 and 256)', ['sub-shard'], (35, 500), dict(names=3, depth=2, ops=2, orders=2), dict(names=3, depth=3, ops=3, orders=2, fans=3)), H('hm.Canon', 'as above with identifiers of version 0 or 1, one operation, names that all share the first digit and then take a common value or one of their own', ['sub-shard'], (20, 200), dict(names=3, depth=3, ops=1, orders=2, builders=2, spreads=2), dict(ops=2, names=4)),
  H('hm.Wide', 'twenty (thirty) names whose hashes fill the root, come in groups, share one sub-shard or reach four levels, one of them with a symbolic place among the others: built in both orders, reopened or not, listed, changed, and taken apart one by one in either order; fan-out 16 (16 and 8)', ['wide'], (25, 150), dict(names=20, fans=1), dict(names=30, fans=2)),
  assumptions=HAMT_A, outside='more than three names; longer histories')
C('C23', H('hm.Persist', 'three names, one (two) operations between two stores, digits as above; fan-out 8 (8, 16, 256)', (), (25, 500), dict(names=3, depth=2, ops=1, builders=2), dict(names=3, depth=3, ops=2, fans=3)), H('hm.Persist', 'three (four) names that share the first digit and then take a common value or one of their own', (), (20, 200), dict(names=3, depth=3, ops=1, spreads=3), dict(names=4, ops=2)),
  assumptions=HAMT_A, outside='more than three names')
C('C24', H('hm.Enumerate', 'three names, two-valued digits, every loading state; answers of the store in both orders; round-robin schedule', (), (15, 200), dict(names=3, depth=3), dict(names=4, depth=3)),
  H('hm.Enumerate', 'four names, all present, two digits', (), (20, 100), dict(names=4, depth=2, full=1), dict(spreads=2, names=5)),
  H('hm.Enumerate', 'two names in one sub-shard; every schedule with up to one (two) deviations from round robin among all goroutines and select choices', (), (40, 500), dict(names=2, depth=2, delays=1, fixed=1, race=1), dict(delays=2), nonative=True),
  H('hm.Wide', 'twenty (thirty) names whose hashes fill the root, come in groups, share one sub-shard or reach four levels, one of them with a symbolic place among the others: built in both orders, reopened or not, listed, changed, and taken apart one by one in either order; fan-out 16 (16 and 8)', ['wide'], (25, 150), dict(names=20, fans=1), dict(names=30, fans=2)),
  assumptions=HAMT_A, outside='schedules with more deviations')
C('C25', H('hm.Place', 'two names; one digit of one name has any value, the others two; fan-outs 8 to 256', (), (20, 150), dict(names=2, depth=2, fans=6), dict(names=2, depth=3)),
  H('hm.Place', 'as above, fan-outs 512 and 1024 (as far as the time allows)', (), (25, 300), dict(names=2, depth=2, fans=2, fanfrom=6), dict(depth=3)),
  H('hm.Hash', 'every name of up to 15 bytes', (), (15, 60), dict(max=16)),
  assumptions=HAMT_A, outside='names of 16 bytes and more for the hash function (its block loop uses pointer casts)')
C('C26', H('hm.Exhaust', 'two names with distinct hashes and one whose hash may equal either; fan-outs 8 (8, 16, 256), two (three) digits', ['collision'], (15, 300), dict(names=3, depth=2), dict(names=4, depth=3, fans=3)),
  assumptions=HAMT_A, outside='more names')
C('C27', H('hm.Malformed', 'one node with any of the listed headers, bitfields of up to 3 bytes, up to two links of the listed names; two operations', ['opened', 'refused'], (35, 400), dict(fans=2, headers=2, labels=3), dict(fans=9, headers=3, labels=6)),
  H('hm.Malformed', 'two nodes, one linking to the other', ['opened', 'refused'], (25, 400), dict(fans=2, headers=1, labels=3, nested=1), dict(fans=3, headers=1, labels=5, nested=1)),
  assumptions=IMP_A, outside='nodes with more links; deeper nesting')
C('C28', H('hm.Faults', 'three names, one read or write fault at each of three positions, each operation; any loading state; digits as above', ['fault'], (30, 500), dict(names=3, depth=2), dict(names=3, depth=3, faults=5)),
  assumptions=HAMT_A, outside='several faults')
C('C35', H('hm.Cancel', 'three names; cancellation before, and during each of the first three reads; or the consumer leaves after any of two links; two answering modes of the store', (), (15, 200), dict(names=3, depth=3), dict(names=4, depth=3, at=6)),
  H('hm.Cancel', 'two names in one sub-shard, every schedule with up to one (two) deviations from round robin', (), (25, 500), dict(names=2, depth=2, delays=1, at=3, fixed=1), dict(delays=2), nonative=True),
  assumptions=HAMT_A, outside='schedules with more deviations')
C('C11', H('rd.Faults', 'shapes of up to three leaves (thorough: nested), leaf sizes 0..64, all offsets and contents; one failing read at each of the first positions, one missing block, or a writer that takes any number of bytes; one operation from any position, then reading on', ['read-fault', 'seek-fault', 'writer-fault'], (45, 600), dict(shapes=5, faults=3, blocks=4, kinds=1, leafmax=64, space=200, errors=5), dict(shapes=8, faults=4, blocks=6, kinds=3, leafmax=64, space=200)),
  H('rd.Reject', 'every declared type of node and values beyond, inline data of up to 20 bytes, metadata nodes with no child, a leaf or a tree below', ['through', 'unknown'], (15, 60)),
  assumptions=IMP_A, outside='several independent faults')
C('C12', H('rd.Cancel', 'nine tree shapes with leaves of 1 to 64 bytes, raw or wrapped, cancellation of the call, of the reader or Close, before any of the first six block reads or after the call; reads and copies; a store that never answers', ['cut', 'done', 'resumed', 'copied'], (20, 200), {'shapes': 9, 'from': 0, 'at': 6, 'kinds': 3}, {'at': 9}),
  H('rd.Cancel', 'as above, every schedule with one deviation from round robin', ['cut', 'done', 'resumed', 'copied'], (40, 200), {'shapes': 9, 'from': 0, 'at': 6, 'delays': 1}, nonative=True),
  H('rd.Cancel', 'three shapes, every schedule with two deviations (thorough only)', ['cut', 'done', 'resumed'], (5, 400), {'shapes': 3, 'from': 1, 'at': 3, 'delays': 0, 'leafmax': 2}, {'delays': 2}, nonative=True),
  assumptions=IMP_A, outside='schedules with more deviations; what the store itself does when cancelled')

C('C18', H('fsn.FSNode', 'sequences of three (five) edits (add, remove or drop child sizes, set data, change size) of a node of any type, all 64-bit sizes, inline data of any length up to 1 MiB', (), (15, 200), dict(ops=3), dict(ops=5)),
  H('fsn.FSNode', 'up to three (four) child sizes, then two (three) edits', (), (20, 150), dict(ops=2, start=3), dict(ops=3, start=4)),
  H('fsn.FSNode', 'sequences of two edits, with the length of the encoding compared too', (), (20, 100), dict(ops=2, length=1), dict(ops=2, length=1)),
  assumptions=['sums are modulo 2^64, as they are in the format'], outside='longer sequences')
C('C19', H('fsn.Helpers', 'data of up to 3 (6) bytes, numbers from a list with every varint length class, every helper', (), (25, 100), dict(max=3), dict(max=6)),
  outside='longer data')
C('C20', H('fsn.MalformedRead', 'a root with up to two recorded sizes (any up to 4, or 2^63), any recorded total, inline data or not, up to two children that are raw, or file nodes lying about their size; two reads, seeks or copies', ['opened'], (50, 500), dict(types=1, bigs=1, leaves=2, ops=2), dict(types=4, bigs=2, leaves=4, ops=2)),
  H('fsn.MalformedModify', 'the same files; one write, truncation, seek or read, or an append', ['failed', 'worked'], (50, 500), dict(types=1, bigs=1, leaves=2), dict(types=4, bigs=2, leaves=4)),
  assumptions=IMP_A, outside='more children, deeper trees')
DIR_A = IMP_A + ['the hash of a name is any bit string out of a family in which names share the first digit or not (replaced through the hook of the repository)', 'names are not empty, the directory is used by one goroutine']
C('C29', H('dirs.Map', 'three names, two (three) additions, replacements and removals from any starting directory, made in memory or opened, every threshold, fan-out 8 (8, 16)', ['basic', 'sharded'], (60, 500), dict(names=3, ops=2), dict(names=3, ops=3, fans=2)),
  H('dirs.Wide', 'ten (fourteen) names added one by one in either order and removed one by one in either order, opened again in between or not, some replaced; four ways their hashes lie; every threshold', ['sharded', 'basic'], (25, 200), dict(names=10, fans=1), dict(names=14, fans=2)),
  assumptions=DIR_A, outside='more names, longer histories')
C('C30', H('dirs.Switch', 'as C29; the form is compared after each operation', ['to-basic', 'to-sharded'], (60, 500), dict(names=3, ops=2, changes=1), dict(names=3, ops=3, fans=2)),
  H('dirs.Switch', 'three names, one (two) operations after the threshold was switched off or changed to any other', [], (20, 150), dict(names=3, ops=1), dict(ops=2)),
  H('dirs.Wide', 'ten (fourteen) names added one by one in either order and removed one by one in either order, opened again in between or not, some replaced; four ways their hashes lie; every threshold', ['sharded', 'basic'], (25, 200), dict(names=10, fans=1), dict(names=14, fans=2)),
  assumptions=DIR_A, outside='more names, longer histories')
C('C31', H('dirs.Canon', 'three names, one (two) operations from any starting directory, identifiers of version 0 or 1, every threshold', (), (40, 400), dict(names=3, ops=1), dict(names=3, ops=2, fans=2)),
  H('dirs.Reject', 'every declared type and values beyond, raw blocks, empty and broken messages', ['opened', 'refused'], (10, 30)),
  H('dirs.Wide', 'ten (fourteen) names added one by one in either order and removed one by one in either order, opened again in between or not, some replaced; four ways their hashes lie; every threshold', ['sharded', 'basic'], (25, 200), dict(names=10, fans=1), dict(names=14, fans=2)),
  assumptions=DIR_A, outside='more names, longer histories')
C('C32', H('dirs.Concurrent', 'three names, two operations, every threshold, round-robin schedule with accesses checked by vector clocks', (), (60, 300), dict(names=3, ops=2), dict(names=3, ops=2, fans=2)),
  H('dirs.Concurrent', 'two names, one removal from an opened directory, every schedule with one (two) deviations from round robin', (), (90, 400), dict(names=2, ops=1, delays=1, full=1, reopen=1, opkinds=1, clashes=3, **{'async': 1}), dict(delays=2), nonative=True),
  H('dirs.Concurrent', 'two names, one removal or replacement, any start, every schedule with one deviation (thorough only)', (), (5, 400), dict(names=1, ops=1, delays=0, full=1), dict(names=2, delays=1, full=0), nonative=True),
  assumptions=DIR_A, outside='schedules with more deviations')
C('C36', H('dirs.Faults', 'three names; one operation; one failing read or store at each of the first two (three) positions, or a cancellation before it or before each of those reads; any starting directory, every threshold', ['failed', 'fault'], (90, 500), dict(names=3, at=2), dict(names=3, at=3, fans=2)),
  assumptions=DIR_A, outside='several faults')
C('C33', H('dirs.Resolve', 'any name of up to 3 (4) bytes with any hash if unknown, paths of up to two names, directories of up to three entries in either form, files, symlinks and other nodes with the same links, raw blocks, broken messages; one failing read or cancellation', ['error', 'found'], (40, 200), dict(names=3), dict(names=3, len=4, fans=2)),
  assumptions=DIR_A, outside='longer names; larger directories')
C('C34', H('dirs.View', 'directories of up to three entries (file, symlink, directory, undecodable node) in either form, each top-level node, every declared type; one failing read or cancellation at each of three positions; file sizes and contents symbolic', ['complete', 'error'], (40, 300), dict(names=3), dict(names=3, shifts=4, at=5, fans=2)),
  H('dirs.View', 'two names, every schedule with one (two) deviations from round robin', ['complete', 'error'], (60, 500), dict(names=2, delays=1, leafmax=1), dict(delays=2), nonative=True),
  H('dirs.ViewWide', 'nine (fourteen) names, more than are prefetched, with hashes that lie in four ways, in either form; one failing read or cancellation at each of six positions', ['complete', 'error'], (25, 100), dict(names=9, fans=1, at=6), dict(names=14, fans=2, shifts=3)),
  H('dirs.ViewWide', 'seven names, every schedule with one deviation from round robin', ['complete', 'error'], (30, 200), dict(names=7, fans=1, spreads=2, at=3, delays=1), nonative=True),
  assumptions=DIR_A, outside='schedules with more deviations')

C('C09', H('dmod.Identifiers', 'files of up to five chunks in either layout, three identifier builders, raw or wrapped leaves and the option turned over; one (two) writes or truncations at any offset up to 4, or an extension by about 4096 bytes', ['new-leaf', 'gap'], (60, 500), dict(ops=1), dict(ops=2)),
  assumptions=MOD_A, outside='hash functions outside the list; more operations')
C('C10', H('imp.Verifier', 'up to 12 (24) chunks, fan-outs 1..3, any direct links and layer repeats up to 6; any one node of the DAG changed in one of nine ways, one block missing, other identifiers', ['accepted', 'refused'], (60, 400), dict(chunks=12, links=3), dict(chunks=24, links=4)),
  assumptions=IMP_A, outside='layer repeat 0; several deviations at once')
C('C37', H('imp.Defaults', 'up to 7 (16) chunks of up to 4096 bytes, the default fan-out replaced by 2 or 3 (2 to 4), one fault', ['fault'], (20, 200), dict(chunks=7), dict(chunks=16, links=3)),
  assumptions=IMP_A, outside='more chunks')
C('C38', H('imp.Over', 'up to two (three) children, then four (five) additions and removals of children of any size, raw or wrapped, and reopenings', (), (30, 300), dict(ops=4, start=2), dict(ops=5, start=3)),
  assumptions=['sums are modulo 2^64, as they are in the format'], outside='longer sequences')
C('C39', H('rd.Turns', 'files of one and two (up to three) leaves of up to 16 bytes, two operations in turns, one reader closed', ['closed', 'eof', 'beyond'], (60, 400), dict(ops=2, shapes=2, **{'from': 1}, kinds=1), dict(ops=3, kinds=1, shapes=4)),
  H('rd.Readers', 'nine shapes, two goroutines that seek to any position and read on, accesses checked by vector clocks', ['concurrent'], (30, 200), dict(shapes=9, kinds=3), dict(shapes=9, kinds=3, leafmax=64)),
  H('rd.Readers', 'as above, every schedule with one (two) deviations from round robin', ['concurrent'], (30, 300), dict(shapes=2, **{'from': 1}, delays=1, leafmax=2, kinds=1), dict(delays=2), nonative=True),
  assumptions=IMP_A, outside='schedules with more deviations')

From 1b56c02593af763f345ff930c3fa2c4d473f3ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:43 +0000
Subject: [PATCH 01/17] fix: resume trickle appends at the layer where the DAG
 left off

Append computed the depth of the last child (and of its remaining siblings)
as if the current layer was always partially filled, so appending to a DAG
that had only direct leaves, or only complete layers, skipped a layer or
left sub-trees underfilled, and the result was not a trickle DAG.
---
 importer/trickle/trickledag.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/importer/trickle/trickledag.go b/importer/trickle/trickledag.go
index c2e6d03..415b73c 100644
--- a/importer/trickle/trickledag.go
+++ b/importer/trickle/trickledag.go
@@ -123,12 +123,13 @@ func Append(ctx context.Context, basen ipld.Node, db *h.DagBuilderHelper) (out i
 	}
 
 	// Last child in this node may not be a full tree, lets fill it up.
-	if err := appendFillLastChild(ctx, fsn, depth-1, repeatNumber, db); err != nil {
+	if err := appendFillLastChild(ctx, fsn, depth, repeatNumber, db); err != nil {
 		return nil, err
 	}
 
-	// after appendFillLastChild, our depth is now increased by one
-	if !db.Done() {
+	// If the layer at this depth was only partially filled,
+	// appendFillLastChild completed it.
+	if repeatNumber != 0 {
 		depth++
 	}
 
@@ -153,6 +154,11 @@ func Append(ctx context.Context, basen ipld.Node, db *h.DagBuilderHelper) (out i
 	return fsn.GetDagNode()
 }
 
+// appendFillLastChild fills up the last child of the node (which may not be a
+// full tree) and the rest of the layer it belongs to. The `depth` and
+// `repeatNumber` (see `trickleDepthInfo`) identify the position of the next
+// child to be added, the last child belongs to the previous layer if that
+// position is the first one of its layer.
 func appendFillLastChild(ctx context.Context, fsn *h.FSNodeOverDag, depth int, repeatNumber int, db *h.DagBuilderHelper) error {
 	if fsn.NumChildren() <= db.Maxlinks() {
 		return nil
@@ -167,8 +173,13 @@ func appendFillLastChild(ctx context.Context, fsn *h.FSNodeOverDag, depth int, r
 		return err
 	}
 
+	lastDepth := depth
+	if repeatNumber == 0 {
+		lastDepth--
+	}
+
 	// Fill out last child (may not be full tree)
-	newChild, nchildSize, err := appendRec(ctx, lastChild, db, depth-1)
+	newChild, nchildSize, err := appendRec(ctx, lastChild, db, lastDepth)
 	if err != nil {
 		return err
 	}
@@ -219,17 +230,13 @@ func appendRec(ctx context.Context, fsn *h.FSNodeOverDag, db *h.DagBuilderHelper
 	}
 	// TODO: Same as `appendFillLastChild`, when is this case possible?
 
-	// If at correct depth, no need to continue
-	if depth == maxDepth {
-		return fsn, fsn.FileSize(), nil
-	}
-
 	if err := appendFillLastChild(ctx, fsn, depth, repeatNumber, db); err != nil {
 		return nil, 0, err
 	}
 
-	// after appendFillLastChild, our depth is now increased by one
-	if !db.Done() {
+	// If the layer at this depth was only partially filled,
+	// appendFillLastChild completed it.
+	if repeatNumber != 0 {
 		depth++
 	}
 
-- 
2.43.0


From c918f70233d8a1c4b8fa9256d6808947077b4033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:06 +0000
Subject: [PATCH 02/17] fix: keep inline file data when appending to a
 single-node file

Append added links to the node that held the data, and readers only
consider the data of nodes without links: the previous contents of the file
were lost. Move that data to a first leaf.
---
 importer/trickle/trickledag.go | 42 ++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/importer/trickle/trickledag.go b/importer/trickle/trickledag.go
index 415b73c..af1d2bb 100644
--- a/importer/trickle/trickledag.go
+++ b/importer/trickle/trickledag.go
@@ -97,6 +97,12 @@ func Append(ctx context.Context, basen ipld.Node, db *h.DagBuilderHelper) (out i
 		return nil, dag.ErrNotProtobuf
 	}
 
+	// The file may be a single node holding its data inline, but nodes with
+	// children don't carry data.
+	if err := moveDataToLeaf(base, db); err != nil {
+		return nil, err
+	}
+
 	// Convert to unixfs node for working with easily
 
 	fsn, err := h.NewFSNFromDag(base)
@@ -154,6 +160,42 @@ func Append(ctx context.Context, basen ipld.Node, db *h.DagBuilderHelper) (out i
 	return fsn.GetDagNode()
 }
 
+// moveDataToLeaf turns a file that is a single node holding all of its data
+// into a node with that data in a leaf, its only child.
+func moveDataToLeaf(base *dag.ProtoNode, db *h.DagBuilderHelper) error {
+	fsn, err := ft.FSNodeFromBytes(base.Data())
+	if err != nil {
+		return err
+	}
+
+	data := fsn.Data()
+	if len(base.Links()) > 0 || len(data) == 0 || (fsn.Type() != ft.TFile && fsn.Type() != ft.TRaw) {
+		return nil
+	}
+
+	leaf, err := db.NewLeafNode(data, ft.TRaw)
+	if err != nil {
+		return err
+	}
+
+	rootData, err := ft.NewFSNode(ft.TFile).GetBytes()
+	if err != nil {
+		return err
+	}
+	base.SetData(rootData)
+
+	root, err := h.NewFSNFromDag(base)
+	if err != nil {
+		return err
+	}
+	if err := root.AddChild(leaf, uint64(len(data)), db); err != nil {
+		return err
+	}
+
+	_, err = root.Commit()
+	return err
+}
+
 // appendFillLastChild fills up the last child of the node (which may not be a
 // full tree) and the rest of the layer it belongs to. The `depth` and
 // `repeatNumber` (see `trickleDepthInfo`) identify the position of the next
-- 
2.43.0


From f209f81e3276308158e297d2818866625c83053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:23 +0000
Subject: [PATCH 03/17] fix: keep track of the offset of buffered writes

WriteAt recorded where the write buffer starts but not the resulting current
offset, so a later WriteAt (or Write) could be appended to a buffer it does
not continue; reading moved the current offset but not the start of the next
buffer; and a write at the start of the buffer but shorter than it was
appended to the buffer instead of overwriting it. A negative offset panicked.
---
 mod/dagmodifier.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 6cc484a..89fa798 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -91,11 +91,13 @@ func (dm *DagModifier) WriteAt(b []byte, offset int64) (int, error) {
 	// TODO: this is currently VERY inefficient
 	// each write that happens at an offset other than the current one causes a
 	// flush to disk, and dag rewrite
-	if offset == int64(dm.writeStart) && dm.wrBuf != nil {
-		// If we would overwrite the previous write
-		if len(b) >= dm.wrBuf.Len() {
-			dm.wrBuf.Reset()
-		}
+	if offset < 0 {
+		return 0, ErrSeekFail
+	}
+	if offset == int64(dm.writeStart) && dm.wrBuf != nil && len(b) >= dm.wrBuf.Len() {
+		// We would overwrite the previous write
+		dm.wrBuf.Reset()
+		dm.curWrOff = dm.writeStart
 	} else if uint64(offset) != dm.curWrOff {
 		size, err := dm.Size()
 		if err != nil {
@@ -112,7 +114,7 @@ func (dm *DagModifier) WriteAt(b []byte, offset int64) (int, error) {
 		if err != nil {
 			return 0, err
 		}
-		dm.writeStart = uint64(offset)
+		dm.curWrOff = uint64(offset)
 	}
 
 	return dm.Write(b)
@@ -148,6 +150,7 @@ func (dm *DagModifier) Write(b []byte) (int, error) {
 	}
 	if dm.wrBuf == nil {
 		dm.wrBuf = new(bytes.Buffer)
+		dm.writeStart = dm.curWrOff
 	}
 
 	n, err := dm.wrBuf.Write(b)
-- 
2.43.0


From 1b2401c7b463595cd37f29473517b4ff9018aa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:23 +0000
Subject: [PATCH 04/17] fix: do not modify the links of other copies of the
 node

Copies of a node share its link objects: writing changed the node the
DagModifier was created from, and the nodes previously returned by GetNode.
---
 mod/dagmodifier.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 89fa798..05f6b58 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -338,7 +338,11 @@ func (dm *DagModifier) modifyDag(n ipld.Node, offset uint64) (cid.Cid, error) {
 				return cid.Cid{}, err
 			}
 
-			node.Links()[i].Cid = k
+			// Copies of this node (including the one the modifier was
+			// created from) share its links, don't change them in place.
+			lnk := *node.Links()[i]
+			lnk.Cid = k
+			node.Links()[i] = &lnk
 
 			// Recache serialized node
 			_, err = node.EncodeProtobuf(true)
-- 
2.43.0


From 912801c2e12a9cb5651a3a7d7dfba9b541da8dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:23 +0000
Subject: [PATCH 05/17] fix: seek relative to the end and before the start

Seek(offset, io.SeekEnd) moved to size-offset, while the reader it forwards
the call to (as any io.Seeker) moves to size+offset. A position before the
start of the file wrapped around instead of being an error.
---
 mod/dagmodifier.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 05f6b58..06217ac 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -473,11 +473,15 @@ func (dm *DagModifier) Seek(offset int64, whence int) (int64, error) {
 	case io.SeekStart:
 		newoffset = uint64(offset)
 	case io.SeekEnd:
-		newoffset = uint64(fisize) - uint64(offset)
+		newoffset = uint64(fisize) + uint64(offset)
 	default:
 		return 0, ErrUnrecognizedWhence
 	}
 
+	if int64(newoffset) < 0 {
+		return 0, ErrSeekFail
+	}
+
 	if int64(newoffset) > fisize {
 		if err := dm.expandSparse(int64(newoffset) - fisize); err != nil {
 			return 0, err
@@ -487,7 +491,7 @@ func (dm *DagModifier) Seek(offset int64, whence int) (int64, error) {
 	dm.writeStart = newoffset
 
 	if dm.read != nil {
-		_, err = dm.read.Seek(offset, whence)
+		_, err = dm.read.Seek(int64(newoffset), io.SeekStart)
 		if err != nil {
 			return 0, err
 		}
-- 
2.43.0


From 916113ff13cfcd3f3eae25ba99f4e06087a09031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:51 +0000
Subject: [PATCH 06/17] fix: stop using the reader of the previous contents of
 the file

After Truncate or after growing the file, Read went on with a reader of the
file as it was before. A negative size for Truncate panicked.
---
 mod/dagmodifier.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 06217ac..7834b11 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -139,15 +139,23 @@ func (dm *DagModifier) expandSparse(size int64) error {
 	if err != nil {
 		return err
 	}
+	dm.dropReader()
 	err = dm.dagserv.Add(dm.ctx, nnode)
 	return err
 }
 
-// Write continues writing to the dag at the current offset
-func (dm *DagModifier) Write(b []byte) (int, error) {
+// dropReader discards the active reader (if any), which still reads the
+// contents the file had when it was created.
+func (dm *DagModifier) dropReader() {
 	if dm.read != nil {
 		dm.read = nil
+		dm.readCancel()
 	}
+}
+
+// Write continues writing to the dag at the current offset
+func (dm *DagModifier) Write(b []byte) (int, error) {
+	dm.dropReader()
 	if dm.wrBuf == nil {
 		dm.wrBuf = new(bytes.Buffer)
 		dm.writeStart = dm.curWrOff
@@ -202,10 +210,7 @@ func (dm *DagModifier) Sync() error {
 	}
 
 	// If we have an active reader, kill it
-	if dm.read != nil {
-		dm.read = nil
-		dm.readCancel()
-	}
+	dm.dropReader()
 
 	// Number of bytes we're going to write
 	buflen := dm.wrBuf.Len()
@@ -503,6 +508,10 @@ func (dm *DagModifier) Seek(offset int64, whence int) (int64, error) {
 // Truncate truncates the current Node to 'size' and replaces it with the
 // new one.
 func (dm *DagModifier) Truncate(size int64) error {
+	if size < 0 {
+		return errors.New("cannot truncate to a negative size")
+	}
+
 	err := dm.Sync()
 	if err != nil {
 		return err
@@ -531,6 +540,7 @@ func (dm *DagModifier) Truncate(size int64) error {
 		return err
 	}
 
+	dm.dropReader()
 	dm.curNode = nnode
 	return nil
 }
-- 
2.43.0


From 1dd701199722bcea900b3c2d9e2e694d6499ba32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:12 +0000
Subject: [PATCH 07/17] fix: return an error for a malformed HAMT node instead
 of panicking

A stored node whose bitfield is longer than its fanout allows, or has more
bits set than the node has links, made NewHamtFromDag, Node and the
operations panic; a link name shorter than the index prefix made Node
panic. Check both when the node is read, and the name when it is written.
---
 hamt/hamt.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/hamt/hamt.go b/hamt/hamt.go
index e789aa8..34d166c 100644
--- a/hamt/hamt.go
+++ b/hamt/hamt.go
@@ -165,7 +165,9 @@ func NewHamtFromDag(dserv ipld.DAGService, nd ipld.Node) (*Shard, error) {
 		return nil, err
 	}
 
-	ds.childer.makeChilder(fsn.Data(), pbnd.Links())
+	if err := ds.childer.makeChilder(fsn.Data(), pbnd.Links()); err != nil {
+		return nil, err
+	}
 
 	ds.hashFunc = fsn.HashType()
 	ds.builder = pbnd.CidBuilder()
@@ -209,6 +211,9 @@ func (ds *Shard) Node() (ipld.Node, error) {
 		} else {
 			// child unloaded, just copy in link with updated name
 			lnk := ds.childer.link(sliceIndex)
+			if _, err := ds.childLinkType(lnk); err != nil {
+				return nil, err
+			}
 			label := lnk.Name[ds.maxpadlen:]
 
 			err := out.AddRawLink(ds.linkNamePrefix(childIndex)+label, lnk)
@@ -796,15 +801,22 @@ func newChilder(ds ipld.DAGService, size int) (*childer, error) {
 	}, nil
 }
 
-func (s *childer) makeChilder(data []byte, links []*ipld.Link) *childer {
-	s.children = make([]*Shard, len(links))
+func (s *childer) makeChilder(data []byte, links []*ipld.Link) error {
+	if len(data) > len(s.bitfield) {
+		return fmt.Errorf("hamt bitfield of %d bytes is too long for its fanout", len(data))
+	}
 	s.bitfield.SetBytes(data)
+	if n := s.bitfield.Ones(); n != len(links) {
+		return fmt.Errorf("hamt bitfield has %d bits set, but the node has %d links", n, len(links))
+	}
+
+	s.children = make([]*Shard, len(links))
 	if len(links) > 0 {
 		s.links = make([]*ipld.Link, len(links))
 		copy(s.links, links)
 	}
 
-	return s
+	return nil
 }
 
 // Return the `sliceIndex` associated with a child.
-- 
2.43.0


From f0c1d90f9485368ce2abeabf23573663170c9401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:03 +0000
Subject: [PATCH 08/17] fix: EnumLinks reports cancellation instead of a
 partial listing

A walk whose context is cancelled ends early and drops its results, and
EnumLinks returned what it had with a nil error, which callers take for
the whole directory.
---
 hamt/hamt.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hamt/hamt.go b/hamt/hamt.go
index 34d166c..b99b1b7 100644
--- a/hamt/hamt.go
+++ b/hamt/hamt.go
@@ -403,7 +403,8 @@ func (ds *Shard) EnumLinks(ctx context.Context) ([]*ipld.Link, error) {
 		}
 		links = append(links, linkResult.Link)
 	}
-	return links, nil
+	// a cancelled walk ends early without a result that says so
+	return links, ctx.Err()
 }
 
 // ForEachLink walks the Shard and calls the given function.
-- 
2.43.0


From 2f7111985e7370fbb64c55aa93d9e3b79143eb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:00 +0000
Subject: [PATCH 09/17] fix: a failed write in WriteTo moves the reader's
 offset too

The bytes the writer took are consumed from the current node, but the
offset stayed, so later seeks and reads disagreed about the position.
---
 io/dagreader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/dagreader.go b/io/dagreader.go
index 7284bdc..9c9a554 100644
--- a/io/dagreader.go
+++ b/io/dagreader.go
@@ -265,6 +265,7 @@ func (dr *dagReader) readNodeDataBuffer(out []byte) int {
 func (dr *dagReader) writeNodeDataBuffer(w io.Writer) (int64, error) {
 
 	n, err := dr.currentNodeData.WriteTo(w)
+	dr.offset += int64(n)
 	if err != nil {
 		return n, err
 	}
@@ -276,7 +277,6 @@ func (dr *dagReader) writeNodeDataBuffer(w io.Writer) (int64, error) {
 		// single node's data, not the entire DAG.
 	}
 
-	dr.offset += int64(n)
 	return n, nil
 }
 
-- 
2.43.0


From a8bc46d5fa67f76e019e74dc10afbd53c32660b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:00 +0000
Subject: [PATCH 10/17] fix: a failed Seek leaves the reader at the beginning,
 not half way down

Seek resets the offset to zero and then moves the walker; when fetching a
node failed, the walker stayed where it was, so the next read returned
bytes from the middle of the file as if they were its beginning.
---
 io/dagreader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/io/dagreader.go b/io/dagreader.go
index 9c9a554..67cf651 100644
--- a/io/dagreader.go
+++ b/io/dagreader.go
@@ -462,6 +462,9 @@ func (dr *dagReader) Seek(offset int64, whence int) (int64, error) {
 		})
 
 		if err != nil {
+			// The walker may have stopped anywhere on the way down, the
+			// position is (consistently) the beginning of the DAG.
+			dr.resetPosition()
 			return 0, err
 		}
 
-- 
2.43.0


From 2e87d8bc0c7198239e15a171c000f43aa5fd27d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:14 +0000
Subject: [PATCH 11/17] fix: wait for the size estimation to end before
 changing the HAMT directory

---
 io/directory.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/io/directory.go b/io/directory.go
index a0ec307..dbc4239 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -517,9 +517,16 @@ func (d *HAMTDirectory) sizeBelowThreshold(ctx context.Context, sizeChange int)
 
 	// We stop the enumeration once we have enough information and exit this function.
 	ctx, cancel := context.WithCancel(ctx)
-	defer cancel()
+	linkResults := d.EnumLinksAsync(ctx)
+	defer func() {
+		// The enumeration reads the shard, which the caller is about to modify:
+		// wait until it has ended.
+		cancel()
+		for range linkResults {
+		}
+	}()
 
-	for linkResult := range d.EnumLinksAsync(ctx) {
+	for linkResult := range linkResults {
 		if linkResult.Err != nil {
 			return false, linkResult.Err
 		}
-- 
2.43.0


From 866c0658837bd709d3d1daefb3203227303d442b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:14 +0000
Subject: [PATCH 12/17] fix: account a replaced or removed HAMT entry under its
 own name

---
 io/directory.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/io/directory.go b/io/directory.go
index dbc4239..d02edd9 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -373,7 +373,7 @@ func (d *HAMTDirectory) AddChild(ctx context.Context, name string, nd ipld.Node)
 	}
 
 	if oldChild != nil {
-		d.removeFromSizeChange(oldChild.Name, oldChild.Cid)
+		d.removeFromSizeChange(name, oldChild.Cid)
 	}
 	d.addToSizeChange(name, nd.Cid())
 	return nil
@@ -413,7 +413,7 @@ func (d *HAMTDirectory) RemoveChild(ctx context.Context, name string) error {
 	}
 
 	if oldChild != nil {
-		d.removeFromSizeChange(oldChild.Name, oldChild.Cid)
+		d.removeFromSizeChange(name, oldChild.Cid)
 	}
 
 	return nil
-- 
2.43.0


From 6923d2655e385d9a11a67e2df1d4c4c279d68308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:17 +0000
Subject: [PATCH 13/17] fix: do not take a canceled size estimation for a small
 directory

---
 io/directory.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/io/directory.go b/io/directory.go
index d02edd9..45b9c56 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -539,6 +539,11 @@ func (d *HAMTDirectory) sizeBelowThreshold(ctx context.Context, sizeChange int)
 		}
 	}
 
+	// A canceled enumeration ends early without a result that says so.
+	if err := ctx.Err(); err != nil {
+		return false, err
+	}
+
 	// We enumerated *all* links in all shards and didn't reach the threshold.
 	return true, nil
 }
-- 
2.43.0


From 7b398358f55366baf71888324cc231559e7cb151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:15 +0000
Subject: [PATCH 14/17] fix: restore the size when decoding metadata

---
 unixfs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unixfs.go b/unixfs.go
index f5020e0..643dbf6 100644
--- a/unixfs.go
+++ b/unixfs.go
@@ -365,6 +365,7 @@ func MetadataFromBytes(b []byte) (*Metadata, error) {
 	}
 	md := new(Metadata)
 	md.MimeType = pbm.GetMimeType()
+	md.Size = pbd.GetFilesize()
 	return md, nil
 }
 
-- 
2.43.0


From 231226fe2e963f2411d9ed03ab5e1f5808d5c6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:45 +0000
Subject: [PATCH 15/17] fix: return an error when modifying a file whose sizes
 do not fit its blocks

---
 mod/dagmodifier.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 7834b11..f4fcb01 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -267,6 +267,9 @@ func (dm *DagModifier) modifyDag(n ipld.Node, offset uint64) (cid.Cid, error) {
 				return cid.Cid{}, err
 			}
 
+			if offset > uint64(len(fsn.Data())) {
+				return cid.Cid{}, ft.ErrMalformedFileFormat
+			}
 			_, err = dm.wrBuf.Read(fsn.Data()[offset:])
 			if err != nil && err != io.EOF {
 				return cid.Cid{}, err
@@ -289,6 +292,9 @@ func (dm *DagModifier) modifyDag(n ipld.Node, offset uint64) (cid.Cid, error) {
 			return nd.Cid(), nil
 		case *mdag.RawNode:
 			origData := nd0.RawData()
+			if offset > uint64(len(origData)) {
+				return cid.Cid{}, ft.ErrMalformedFileFormat
+			}
 			bytes := make([]byte, len(origData))
 
 			// copy orig data up to offset
@@ -329,6 +335,10 @@ func (dm *DagModifier) modifyDag(n ipld.Node, offset uint64) (cid.Cid, error) {
 		return cid.Cid{}, err
 	}
 
+	if fsn.NumChildren() != len(node.Links()) {
+		return cid.Cid{}, ft.ErrMalformedFileFormat
+	}
+
 	var cur uint64
 	for i, bs := range fsn.BlockSizes() {
 		// We found the correct child to write into
@@ -555,9 +565,15 @@ func (dm *DagModifier) dagTruncate(ctx context.Context, n ipld.Node, size uint64
 			if err != nil {
 				return nil, err
 			}
+			if size > uint64(len(fsn.Data())) {
+				return nil, ft.ErrMalformedFileFormat
+			}
 			nd.SetData(ft.WrapData(fsn.Data()[:size]))
 			return nd, nil
 		case *mdag.RawNode:
+			if size > uint64(len(nd.RawData())) {
+				return nil, ft.ErrMalformedFileFormat
+			}
 			return mdag.NewRawNodeWPrefix(nd.RawData()[:size], nd.Cid().Prefix())
 		}
 	}
@@ -605,6 +621,11 @@ func (dm *DagModifier) dagTruncate(ctx context.Context, n ipld.Node, size uint64
 		ndata.AddBlockSize(childsize)
 	}
 
+	if modified == nil {
+		// The children hold less than the size of the file.
+		return nil, ft.ErrMalformedFileFormat
+	}
+
 	err = dm.dagserv.Add(ctx, modified)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 95e3fd526c9213bdad70e96c8a7e5c6c264ed914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:01 +0000
Subject: [PATCH 16/17] fix: return an error when resolving an empty path in a
 sharded directory

---
 io/resolve.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/io/resolve.go b/io/resolve.go
index 0c2cb6e..db4e596 100644
--- a/io/resolve.go
+++ b/io/resolve.go
@@ -23,7 +23,9 @@ func ResolveUnixfsOnce(ctx context.Context, ds ipld.NodeGetter, nd ipld.Node, na
 			return nd.ResolveLink(names)
 		}
 
-		if fsn.Type() == ft.THAMTShard {
+		// An empty path names nothing in the directory: ResolveLink
+		// returns the error that says so.
+		if fsn.Type() == ft.THAMTShard && len(names) > 0 {
 			rods := dag.NewReadOnlyDagService(ds)
 			s, err := hamt.NewHamtFromDag(rods, nd)
 			if err != nil {
-- 
2.43.0


From 487b4beb33726d9ccd6d7991fdd5022b03e73781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:18 +0000
Subject: [PATCH 17/17] fix: do not append below a leaf when the DAG has a
 larger fan-out

---
 importer/trickle/trickledag.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/importer/trickle/trickledag.go b/importer/trickle/trickledag.go
index af1d2bb..c5fca67 100644
--- a/importer/trickle/trickledag.go
+++ b/importer/trickle/trickledag.go
@@ -211,6 +211,11 @@ func appendFillLastChild(ctx context.Context, fsn *h.FSNodeOverDag, depth int, r
 	// Recursive step, grab last child
 	last := fsn.NumChildren() - 1
 	lastChild, err := fsn.GetChild(ctx, last, db.GetDagServ())
+	if err == dag.ErrNotProtobuf || (err == nil && lastChild.NumChildren() == 0) {
+		// A leaf, the DAG was built with a larger fan-out than ours: there is
+		// nothing to fill, and leaves can't have children.
+		return nil
+	}
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From d397451886a232bf78c9fc27e5589f64e6917daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:11 +0000
Subject: [PATCH 01/47] fix: accept item type names when setting item
 attributes

itemSet only parsed numbers, so every 'type=...' from a command, an undo or a
stored item failed.
---
 pkg/world/world.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 7df1d58..6d53382 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -401,8 +401,8 @@ func itemSet(item Item, params ItemParams) (Item, error) {
 		item.External = *params.External
 	}
 	if params.Type != nil {
-		if iotaType, err := strconv.Atoi(*params.Type); err == nil {
-			item.Type = ItemType(iotaType)
+		if itemType, err := parseItemType(*params.Type); err == nil {
+			item.Type = itemType
 		} else {
 			errs = append(errs, err)
 		}
@@ -416,6 +416,21 @@ func itemSet(item Item, params ItemParams) (Item, error) {
 	return item, nil
 }
 
+// parseItemType accepts the grammar's name for an ItemType, its number, or the empty string for "no type".
+func parseItemType(s string) (ItemType, error) {
+	if t := ItemTypeFromString(s); t != 0 || s == "" {
+		return t, nil
+	}
+	n, err := strconv.Atoi(s)
+	if err != nil {
+		return 0, err
+	}
+	if n != 0 && StringFromItemType(ItemType(n)) == "" {
+		return 0, errors.New("unknown Item type").UseCode(errors.TopolithErrorInvalid).WithData(errors.KvPair{Key: "type", Value: s})
+	}
+	return ItemType(n), nil
+}
+
 func (w *world) ItemParent(childId string) (Item, bool) {
 	w.resetLatestTrackers()
 	tree, ok := w.Tree.Find(childId)
@@ -681,7 +696,7 @@ func equalItemParams(existing Item, params ItemParams) error {
 	if (params.Name != nil && *params.Name != existing.Name) ||
 		(params.Expanded != nil && *params.Expanded != existing.Expanded) ||
 		(params.External != nil && *params.External != existing.External) ||
-		(params.Type != nil && strconv.Itoa(int(existing.Type)) != *params.Type) ||
+		(params.Type != nil && !sameItemType(existing.Type, *params.Type)) ||
 		(params.Mechanism != nil && *params.Mechanism != existing.Mechanism) {
 		existingJson, _ := json.Marshal(existing)
 		paramsJson, _ := json.Marshal(params)
@@ -697,6 +712,11 @@ func equalItemParams(existing Item, params ItemParams) error {
 	return nil
 }
 
+func sameItemType(existing ItemType, s string) bool {
+	t, err := parseItemType(s)
+	return err == nil && t == existing
+}
+
 func equalRelParams(existing Rel, params RelParams) error {
 	if (params.Verb != nil && *params.Verb != existing.Verb) ||
 		(params.Mechanism != nil && *params.Mechanism != existing.Mechanism) ||
-- 
2.43.0


From ca4e6c188fbb231896d5d9af8c4985a4954b62f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:31 +0000
Subject: [PATCH 02/47] fix: create items with their attributes in the tree and
 in the result

ItemCreate put the bare item in the tree and returned it, so attributes were
missing from the answer and lost when the world was written and read back.
---
 pkg/world/world.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 6d53382..262dd8a 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -325,11 +325,12 @@ func (w *world) ItemCreate(id string, params ItemParams) WorldWithItem {
 		}
 		return w
 	}
-	item := Item{
-		Id: id,
+	item, err := itemSet(Item{Id: id}, params)
+	if err != nil {
+		w.latestErr = err
+		return w
 	}
 	w.Items[id] = item
-	w.ItemSet(id, params) // After we set in the tracking map on World.
 	w.latestItem = &item
 	if err := w.Tree.AddOrMove(&item); err != nil {
 		// This shouldn't happen if we're properly syncing the Items map with Tree...
-- 
2.43.0


From 3767a124771139978c6b70afb1739492479c083f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:32 +0000
Subject: [PATCH 03/47] fix: do not store an item when setting its attributes
 fails

---
 pkg/world/world.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 262dd8a..6d97798 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -384,6 +384,7 @@ func (w *world) ItemSet(id string, params ItemParams) WorldWithItem {
 	item, err := itemSet(item, params)
 	if err != nil {
 		w.latestErr = err
+		return w
 	}
 	w.Items[id] = item
 	w.latestItem = &item
-- 
2.43.0


From 8c196c3c3d975f8543d19322dfe38ebe7253ae65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:34 +0000
Subject: [PATCH 04/47] fix: keep tree items in step with changed item
 attributes

ItemSet changed only the Items map; the text form, ItemComponents and
ItemParent kept showing the attributes from creation.
---
 pkg/world/tree.go  | 11 +++++++++++
 pkg/world/world.go |  1 +
 2 files changed, 12 insertions(+)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index 6baa839..9708079 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -15,6 +15,7 @@ var emptyTree = newTree(nil, nil)
 // It represents the hierarchy a World, where each Item can only be part of a single parent Item.
 type Tree interface {
 	Item() Item                          // Item returns the Item of this Tree.
+	SetItem(item Item)                   // SetItem replaces the data of the Item with the same ID in this Tree or its Components. If there is none, noop.
 	AddOrMove(item *Item) error          // AddOrMove adds an Item to Tree.Components. If the Item already exists in a different Tree, it will be moved with all its Components.
 	Has(id string, strict bool) bool     // Has returns whether the Item with the given ID is in this Tree. If not strict, search Component trees as well.
 	Find(id string) (Tree, bool)         // Find returns the Tree with the given ID, if it exists in this Tree or its Components.
@@ -142,6 +143,16 @@ func (t *tree) String() string {
 	return treeString
 }
 
+func (t *tree) SetItem(item Item) {
+	if t.item != nil && t.item.Id == item.Id {
+		t.item = &item
+		return
+	}
+	for _, c := range t.components.ToSlice() {
+		c.SetItem(item)
+	}
+}
+
 func (t *tree) AddOrMove(item *Item) error {
 	if item == nil {
 		return errors.New("cannot add nil Item to Tree").UseCode(errors.TopolithErrorInvalid)
diff --git a/pkg/world/world.go b/pkg/world/world.go
index 6d97798..3cc5cc1 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -387,6 +387,7 @@ func (w *world) ItemSet(id string, params ItemParams) WorldWithItem {
 		return w
 	}
 	w.Items[id] = item
+	w.Tree.SetItem(item)
 	w.latestItem = &item
 	return w
 }
-- 
2.43.0


From aefbf60a504ef00e6bf0d2f1c76da69d91a89aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:54 +0000
Subject: [PATCH 05/47] fix: keep the ends of relationships in step with
 changed items

Rel.From and Rel.To are copies taken at creation; after ItemSet they were stale,
and a world no longer equalled itself after being written and read back.
---
 pkg/world/world.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 3cc5cc1..6cd23ba 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -388,6 +388,15 @@ func (w *world) ItemSet(id string, params ItemParams) WorldWithItem {
 	}
 	w.Items[id] = item
 	w.Tree.SetItem(item)
+	for k, rel := range w.Rels {
+		if rel.From.Id == id {
+			rel.From = item
+		}
+		if rel.To.Id == id {
+			rel.To = item
+		}
+		w.Rels[k] = rel
+	}
 	w.latestItem = &item
 	return w
 }
-- 
2.43.0


From ffcd0b61b3bee3edb990c2e617c47644bef87a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:56 +0000
Subject: [PATCH 06/47] fix: return a created relationship with its attributes

---
 pkg/world/world.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 6cd23ba..ee2fa56 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -499,9 +499,7 @@ func (w *world) RelCreate(fromId, toId string, params RelParams) WorldWithRel {
 		To:   toItem,
 	}
 	w.Rels[rel.id()] = rel
-	w.RelSet(fromId, toId, params) // After we set in the tracking map on World.
-	w.latestRel = &rel
-	return w
+	return w.RelSet(fromId, toId, params) // After we set in the tracking map on World.
 }
 
 func (w *world) RelDelete(fromId, toId string) World {
-- 
2.43.0


From e0ccda3bcc233604ed607da5b1655355142f0def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:58 +0000
Subject: [PATCH 07/47] fix: do not confuse relationships of items whose ids
 contain the separator

'a::b' -> 'c' and 'a' -> 'b::c' shared one key.
---
 pkg/world/rel.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/world/rel.go b/pkg/world/rel.go
index 4c810a6..557d3ef 100644
--- a/pkg/world/rel.go
+++ b/pkg/world/rel.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/williamflynt/topolith/pkg/errors"
 	"github.com/williamflynt/topolith/pkg/grammar"
+	"strconv"
 	"strings"
 )
 
@@ -87,7 +88,8 @@ func (r Rel) id() string {
 }
 
 func relIdFromIds(fromId, toId string) string {
-	return fromId + RelIdSeparator + toId
+	// Quoted, because an Item ID may itself contain the separator.
+	return strconv.Quote(fromId) + RelIdSeparator + strconv.Quote(toId)
 }
 
 // RelParams is a struct that represents the parameters that can be set on a Rel.
-- 
2.43.0


From 16bb89fe75105027bfe40d4c27b88618fafdb07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:00 +0000
Subject: [PATCH 08/47] fix: make the to and from queries find what they
 describe

RelFrom compared item ids with relationship keys, so it never found anything, and
both had strict the wrong way round.
---
 pkg/world/world.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index ee2fa56..8a96b05 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -531,7 +531,7 @@ func (w *world) RelFetch(fromId, toId string, strict bool) []Rel {
 func (w *world) RelTo(toId string, strict bool) []Rel {
 	rels := make([]Rel, 0)
 	rightIds := []string{toId}
-	if strict {
+	if !strict {
 		rightIds = append(w.Tree.GetDescendantIds(toId), toId)
 	}
 	for _, rel := range w.Rels {
@@ -545,11 +545,11 @@ func (w *world) RelTo(toId string, strict bool) []Rel {
 func (w *world) RelFrom(fromId string, strict bool) []Rel {
 	rels := make([]Rel, 0)
 	leftIds := []string{fromId}
-	if strict {
+	if !strict {
 		leftIds = append(w.Tree.GetDescendantIds(fromId), fromId)
 	}
-	for k, rel := range w.Rels {
-		if slices.Contains(leftIds, k) {
+	for _, rel := range w.Rels {
+		if slices.Contains(leftIds, rel.From.Id) {
 			rels = append(rels, rel)
 		}
 	}
-- 
2.43.0


From 152086cfe1a8bfb3779d8fe57805ba0c990b4b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:39 +0000
Subject: [PATCH 09/47] fix: update the parent of moved tree nodes

AddOrMove and Delete changed only the component sets; a node kept its old
parent, so a second move left it in two places.
---
 pkg/world/tree.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index 9708079..b348a78 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -166,6 +166,7 @@ func (t *tree) AddOrMove(item *Item) error {
 		// Just move the node to this Tree.
 		node.Parent().Components().Remove(node)
 		t.components.Add(node)
+		node.(*tree).parent = t
 		return nil
 	}
 	// Not in any Tree. Make it and add.
@@ -218,6 +219,7 @@ func (t *tree) Delete(id string) {
 	found.Parent().Components().Remove(found)
 	for _, c := range foundComponents {
 		found.Parent().Components().Add(c)
+		c.(*tree).parent = found.(*tree).parent
 	}
 }
 
-- 
2.43.0


From 6cf0b74769c6f87aef0b57b95973880858d69561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:41 +0000
Subject: [PATCH 10/47] fix: refuse to move a tree node into its own components

The node was cut off from the root and became its own ancestor; its items
disappeared from the tree and lookups below it never ended.
---
 pkg/world/tree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index b348a78..8050c3b 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -163,6 +163,11 @@ func (t *tree) AddOrMove(item *Item) error {
 	}
 	if node, ok := t.Root().Find(item.Id); ok {
 		// Already in a different Tree.
+		for ancestor := t.parent; ancestor != nil; ancestor = ancestor.parent {
+			if Tree(ancestor) == node {
+				return errors.New("cannot move Item into its own Components").UseCode(errors.TopolithErrorConflict).WithData(errors.KvPair{Key: "id", Value: item.Id})
+			}
+		}
 		// Just move the node to this Tree.
 		node.Parent().Components().Remove(node)
 		t.components.Add(node)
-- 
2.43.0


From c90e45a9d9bd78578b6e20e795e0116e893a6fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:42 +0000
Subject: [PATCH 11/47] fix: never hand out or change the shared empty tree

TreeFromString("") returned it for callers to change, and deleting the item of
a root moved its components into it, where every other tree could see them.
---
 pkg/world/tree.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index 8050c3b..6e32af5 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -37,7 +37,7 @@ type Tree interface {
 // `tree{nil::[tree{item "2"::[tree{item "1"::[]}]} tree{item "3"::[]}]}`
 func TreeFromString(s string) (Tree, map[string]Item, error) {
 	if s == "" {
-		return emptyTree, map[string]Item{}, nil
+		return newTree(nil, nil), map[string]Item{}, nil
 	}
 
 	p, err := grammar.Parse(s)
@@ -220,6 +220,10 @@ func (t *tree) Delete(id string) {
 		// The item doesn't exist here.
 		return
 	}
+	if found.(*tree).parent == nil {
+		// The root has no parent to take its Components.
+		return
+	}
 	foundComponents := found.Components().ToSlice()
 	found.Parent().Components().Remove(found)
 	for _, c := range foundComponents {
-- 
2.43.0


From fab646ca098cdc2cbd7ef8b1bf8d11df5a11a44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:44 +0000
Subject: [PATCH 12/47] fix: sort the second tree's components by their own ids
 in TreeEqual

---
 pkg/world/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index 6e32af5..e367fd5 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -74,7 +74,7 @@ func TreeEqual(t1, t2 Tree) bool {
 		return components1Slice[i].Item().Id < components1Slice[j].Item().Id
 	})
 	sort.Slice(components2Slice, func(i, j int) bool {
-		return components1Slice[i].Item().Id < components1Slice[j].Item().Id
+		return components2Slice[i].Item().Id < components2Slice[j].Item().Id
 	})
 	// Compare recursively.
 	for i, c1 := range components1Slice {
-- 
2.43.0


From 91d139c446c64907c8be03675a87bb725c6baf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:46 +0000
Subject: [PATCH 13/47] fix: compare relationships with the same source in a
 fixed order in WorldEqual

They were sorted by source id only, so a world with two relationships from one
item was at random unequal to itself.
---
 pkg/world/world.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 8a96b05..ef80cd7 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -214,10 +214,10 @@ func WorldEqual(w1, w2 World) bool {
 		return false
 	}
 	sort.Slice(rels1, func(i, j int) bool {
-		return rels1[i].From.Id < rels1[j].From.Id
+		return rels1[i].id() < rels1[j].id()
 	})
 	sort.Slice(rels2, func(i, j int) bool {
-		return rels2[i].From.Id < rels2[j].From.Id
+		return rels2[i].id() < rels2[j].id()
 	})
 	for i, rel1 := range rels1 {
 		if !RelEqual(rel1, rels2[i]) {
-- 
2.43.0


From 1b0b91dafbeb35ab1fdea0526b9e8f0d750e57bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:48 +0000
Subject: [PATCH 14/47] fix: return the items read from a tree in
 TreeFromString

The map was emptied while the tree was built.
---
 pkg/world/tree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index e367fd5..2acd9b9 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -5,6 +5,7 @@ import (
 	mapset "github.com/deckarep/golang-set/v2"
 	"github.com/williamflynt/topolith/pkg/errors"
 	"github.com/williamflynt/topolith/pkg/grammar"
+	"maps"
 	"sort"
 	"strings"
 )
@@ -54,7 +55,8 @@ func TreeFromString(s string) (Tree, map[string]Item, error) {
 		itemMap[item.Id] = item
 	}
 
-	t, err := convertNodeToTree(p.Tree, itemMap, nil)
+	// The conversion consumes the map to prevent cycles.
+	t, err := convertNodeToTree(p.Tree, maps.Clone(itemMap), nil)
 	return t, itemMap, err
 }
 
-- 
2.43.0


From 0c1121ab8ef9a384199ec7a9176e9ee3b41b1fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:57 +0000
Subject: [PATCH 15/47] fix: end a keyword where its word ends, so that longer
 words stay identifiers

---
 pkg/grammar/grammar.peg    | 32 +++++++--------
 pkg/grammar/grammar.peg.go | 80 ++++++++++++++++++++++++++++++--------
 pkg/grammar/main.go        |  9 +++++
 3 files changed, 89 insertions(+), 32 deletions(-)

diff --git a/pkg/grammar/grammar.peg b/pkg/grammar/grammar.peg
index de250c3..9150092 100644
--- a/pkg/grammar/grammar.peg
+++ b/pkg/grammar/grammar.peg
@@ -226,27 +226,27 @@ ItemType
 Keyword
   <- WORLD / ENDWORLD / ERROR / OK / ITEM / ITEM_EXISTS / REL / REL_EXISTS / FROM_QUERY / TO_QUERY / IN / IN_QUERY / CREATE / DELETE / SET / CLEAR / FETCH / LIST / EXISTS / FREE / NEST / FLAG / DELIMITER
 
-WORLD       <- 'world' _
-ENDWORLD    <- 'endworld' _
-ERROR       <- 'error' _
-OK          <- 'ok' _
-ITEM        <- 'item' 's'? _
+WORLD       <- 'world' &{ wordEnd(buffer[position]) } _
+ENDWORLD    <- 'endworld' &{ wordEnd(buffer[position]) } _
+ERROR       <- 'error' &{ wordEnd(buffer[position]) } _
+OK          <- 'ok' &{ wordEnd(buffer[position]) } _
+ITEM        <- 'item' 's'? &{ wordEnd(buffer[position]) } _
 ITEM_EXISTS <- 'item?' _
-REL         <- 'rel' 's'? _
+REL         <- 'rel' 's'? &{ wordEnd(buffer[position]) } _
 REL_EXISTS  <- 'rel?' _
 FROM_QUERY  <- 'from?' _    # Rels from this Item to anywhere.
 TO_QUERY    <- 'to?' _      # Rels from anywhere to this Item.
-IN          <- 'in' _
+IN          <- 'in' &{ wordEnd(buffer[position]) } _
 IN_QUERY    <- 'in?' _      # Items under this one in the Tree, recursively unless STRICT set.
-CREATE      <- 'create' _
-DELETE      <- 'delete' _
-SET         <- 'set' _
-CLEAR       <- 'clear' _
-FETCH       <- 'fetch' _
-LIST        <- 'list' _
-EXISTS      <- 'exists' _
-FREE        <- 'free' _
-NEST        <- 'nest' _
+CREATE      <- 'create' &{ wordEnd(buffer[position]) } _
+DELETE      <- 'delete' &{ wordEnd(buffer[position]) } _
+SET         <- 'set' &{ wordEnd(buffer[position]) } _
+CLEAR       <- 'clear' &{ wordEnd(buffer[position]) } _
+FETCH       <- 'fetch' &{ wordEnd(buffer[position]) } _
+LIST        <- 'list' &{ wordEnd(buffer[position]) } _
+EXISTS      <- 'exists' &{ wordEnd(buffer[position]) } _
+FREE        <- 'free' &{ wordEnd(buffer[position]) } _
+NEST        <- 'nest' &{ wordEnd(buffer[position]) } _
 TRUE        <- 'true' _
 FALSE       <- 'false' _
 
diff --git a/pkg/grammar/grammar.peg.go b/pkg/grammar/grammar.peg.go
index b15330a..331f7b4 100644
--- a/pkg/grammar/grammar.peg.go
+++ b/pkg/grammar/grammar.peg.go
@@ -4152,7 +4152,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position408, tokenIndex408
 			return false
 		},
-		/* 69 WORLD <- <('w' 'o' 'r' 'l' 'd' _)> */
+		/* 69 WORLD <- <('w' 'o' 'r' 'l' 'd' &{ wordEnd(buffer[position]) } _)> */
 		func() bool {
 			position421, tokenIndex421 := position, tokenIndex
 			{
@@ -4177,6 +4177,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l421
 				}
 				position++
+				if !(wordEnd(buffer[position])) {
+					goto l421
+				}
 				if !_rules[rule_]() {
 					goto l421
 				}
@@ -4187,7 +4190,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position421, tokenIndex421
 			return false
 		},
-		/* 70 ENDWORLD <- <('e' 'n' 'd' 'w' 'o' 'r' 'l' 'd' _)> */
+		/* 70 ENDWORLD <- <('e' 'n' 'd' 'w' 'o' 'r' 'l' 'd' &{ wordEnd(buffer[position]) } _)> */
 		func() bool {
 			position423, tokenIndex423 := position, tokenIndex
 			{
@@ -4224,6 +4227,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l423
 				}
 				position++
+				if !(wordEnd(buffer[position])) {
+					goto l423
+				}
 				if !_rules[rule_]() {
 					goto l423
 				}
@@ -4234,7 +4240,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position423, tokenIndex423
 			return false
 		},
-		/* 71 ERROR <- <('e' 'r' 'r' 'o' 'r' _)> */
+		/* 71 ERROR <- <('e' 'r' 'r' 'o' 'r' &{ wordEnd(buffer[position]) } _)> */
 		func() bool {
 			position425, tokenIndex425 := position, tokenIndex
 			{
@@ -4259,6 +4265,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l425
 				}
 				position++
+				if !(wordEnd(buffer[position])) {
+					goto l425
+				}
 				if !_rules[rule_]() {
 					goto l425
 				}
@@ -4269,7 +4278,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position425, tokenIndex425
 			return false
 		},
-		/* 72 OK <- <('o' 'k' _)> */
+		/* 72 OK <- <('o' 'k' &{ wordEnd(buffer[position]) } _)> */
 		func() bool {
 			position427, tokenIndex427 := position, tokenIndex
 			{
@@ -4282,6 +4291,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l427
 				}
 				position++
+				if !(wordEnd(buffer[position])) {
+					goto l427
+				}
 				if !_rules[rule_]() {
 					goto l427
 				}
@@ -4292,7 +4304,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position427, tokenIndex427
 			return false
 		},
-		/* 73 ITEM <- <('i' 't' 'e' 'm' 's'? _)> */
+		/* 73 ITEM <- <('i' 't' 'e' 'm' 's'? &{ wordEnd(buffer[position]) } _)> */
 		func() bool {
 			position429, tokenIndex429 := position, tokenIndex
 			{
@@ -4324,6 +4336,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					position, tokenIndex = position431, tokenIndex431
 				}
 			l432:
+				if !(wordEnd(buffer[position])) {
+					goto l429
+				}
 				if !_rules[rule_]() {
 					goto l429
 				}
@@ -4369,7 +4384,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position433, tokenIndex433
 			return false
 		},
-		/* 75 REL <- <('r' 'e' 'l' 's'? _)> */
+		/* 75 REL <- <('r' 'e' 'l' 's'? &{ wordEnd(buffer[position]) } _)> */
 		func() bool {
 			position435, tokenIndex435 := position, tokenIndex
 			{
@@ -4397,6 +4412,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					position, tokenIndex = position437, tokenIndex437
 				}
 			l438:
+				if !(wordEnd(buffer[position])) {
+					goto l435
+				}
 				if !_rules[rule_]() {
 					goto l435
 				}
@@ -4500,7 +4518,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position443, tokenIndex443
 			return false
 		},
-		/* 79 IN <- <('i' 'n' _)> */
+		/* 79 IN <- <('i' 'n' &{ wordEnd(buffer[position]) } _)> */
 		func() bool {
 			position445, tokenIndex445 := position, tokenIndex
 			{
@@ -4513,6 +4531,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l445
 				}
 				position++
+				if !(wordEnd(buffer[position])) {
+					goto l445
+				}
 				if !_rules[rule_]() {
 					goto l445
 				}
@@ -4550,7 +4571,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position447, tokenIndex447
 			return false
 		},
-		/* 81 CREATE <- <('c' 'r' 'e' 'a' 't' 'e' _)> */
+		/* 81 CREATE <- <('c' 'r' 'e' 'a' 't' 'e' &{ wordEnd(buffer[position]) } _)> */
 		func() bool {
 			position449, tokenIndex449 := position, tokenIndex
 			{
@@ -4579,6 +4600,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l449
 				}
 				position++
+				if !(wordEnd(buffer[position])) {
+					goto l449
+				}
 				if !_rules[rule_]() {
 					goto l449
 				}
@@ -4589,7 +4613,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position449, tokenIndex449
 			return false
 		},
-		/* 82 DELETE <- <('d' 'e' 'l' 'e' 't' 'e' _)> */
+		/* 82 DELETE <- <('d' 'e' 'l' 'e' 't' 'e' &{ wordEnd(buffer[position]) } _)> */
 		func() bool {
 			position451, tokenIndex451 := position, tokenIndex
 			{
@@ -4618,6 +4642,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l451
 				}
 				position++
+				if !(wordEnd(buffer[position])) {
+					goto l451
+				}
 				if !_rules[rule_]() {
 					goto l451
 				}
@@ -4628,7 +4655,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position451, tokenIndex451
 			return false
 		},
-		/* 83 SET <- <('s' 'e' 't' _)> */
+		/* 83 SET <- <('s' 'e' 't' &{ wordEnd(buffer[position]) } _)> */
 		func() bool {
 			position453, tokenIndex453 := position, tokenIndex
 			{
@@ -4645,6 +4672,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l453
 				}
 				position++
+				if !(wordEnd(buffer[position])) {
+					goto l453
+				}
 				if !_rules[rule_]() {
 					goto l453
 				}
@@ -4655,7 +4685,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position453, tokenIndex453
 			return false
 		},
-		/* 84 CLEAR <- <('c' 'l' 'e' 'a' 'r' _)> */
+		/* 84 CLEAR <- <('c' 'l' 'e' 'a' 'r' &{ wordEnd(buffer[position]) } _)> */
 		func() bool {
 			position455, tokenIndex455 := position, tokenIndex
 			{
@@ -4680,6 +4710,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l455
 				}
 				position++
+				if !(wordEnd(buffer[position])) {
+					goto l455
+				}
 				if !_rules[rule_]() {
 					goto l455
 				}
@@ -4690,7 +4723,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position455, tokenIndex455
 			return false
 		},
-		/* 85 FETCH <- <('f' 'e' 't' 'c' 'h' _)> */
+		/* 85 FETCH <- <('f' 'e' 't' 'c' 'h' &{ wordEnd(buffer[position]) } _)> */
 		func() bool {
 			position457, tokenIndex457 := position, tokenIndex
 			{
@@ -4715,6 +4748,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l457
 				}
 				position++
+				if !(wordEnd(buffer[position])) {
+					goto l457
+				}
 				if !_rules[rule_]() {
 					goto l457
 				}
@@ -4725,7 +4761,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position457, tokenIndex457
 			return false
 		},
-		/* 86 LIST <- <('l' 'i' 's' 't' _)> */
+		/* 86 LIST <- <('l' 'i' 's' 't' &{ wordEnd(buffer[position]) } _)> */
 		func() bool {
 			position459, tokenIndex459 := position, tokenIndex
 			{
@@ -4746,6 +4782,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l459
 				}
 				position++
+				if !(wordEnd(buffer[position])) {
+					goto l459
+				}
 				if !_rules[rule_]() {
 					goto l459
 				}
@@ -4756,7 +4795,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position459, tokenIndex459
 			return false
 		},
-		/* 87 EXISTS <- <('e' 'x' 'i' 's' 't' 's' _)> */
+		/* 87 EXISTS <- <('e' 'x' 'i' 's' 't' 's' &{ wordEnd(buffer[position]) } _)> */
 		func() bool {
 			position461, tokenIndex461 := position, tokenIndex
 			{
@@ -4785,6 +4824,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l461
 				}
 				position++
+				if !(wordEnd(buffer[position])) {
+					goto l461
+				}
 				if !_rules[rule_]() {
 					goto l461
 				}
@@ -4795,7 +4837,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position461, tokenIndex461
 			return false
 		},
-		/* 88 FREE <- <('f' 'r' 'e' 'e' _)> */
+		/* 88 FREE <- <('f' 'r' 'e' 'e' &{ wordEnd(buffer[position]) } _)> */
 		func() bool {
 			position463, tokenIndex463 := position, tokenIndex
 			{
@@ -4816,6 +4858,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l463
 				}
 				position++
+				if !(wordEnd(buffer[position])) {
+					goto l463
+				}
 				if !_rules[rule_]() {
 					goto l463
 				}
@@ -4826,7 +4871,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position463, tokenIndex463
 			return false
 		},
-		/* 89 NEST <- <('n' 'e' 's' 't' _)> */
+		/* 89 NEST <- <('n' 'e' 's' 't' &{ wordEnd(buffer[position]) } _)> */
 		func() bool {
 			position465, tokenIndex465 := position, tokenIndex
 			{
@@ -4847,6 +4892,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l465
 				}
 				position++
+				if !(wordEnd(buffer[position])) {
+					goto l465
+				}
 				if !_rules[rule_]() {
 					goto l465
 				}
diff --git a/pkg/grammar/main.go b/pkg/grammar/main.go
index 381db04..087bb39 100644
--- a/pkg/grammar/main.go
+++ b/pkg/grammar/main.go
@@ -73,3 +73,12 @@ func Parse(s string) (*Parser, error) {
 func cleanString(s string) string {
 	return strings.Trim(strings.TrimSpace(s), "\"")
 }
+
+// wordEnd tells whether r, the character after a keyword, ends that keyword rather than continuing a longer word.
+func wordEnd(r rune) bool {
+	switch {
+	case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '-', r == '_':
+		return false
+	}
+	return true
+}
-- 
2.43.0


From 9446fd09e62810bb3e0a009ab6b2d27de06459a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:18 +0000
Subject: [PATCH 16/47] fix: keep quoted identifiers of an identifier list
 whole

---
 pkg/grammar/grammar.peg    |  5 +----
 pkg/grammar/grammar.peg.go | 10 ++--------
 pkg/grammar/main.go        | 17 +++++++++++++++++
 3 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/pkg/grammar/grammar.peg b/pkg/grammar/grammar.peg
index 9150092..fd4cbb9 100644
--- a/pkg/grammar/grammar.peg
+++ b/pkg/grammar/grammar.peg
@@ -148,10 +148,7 @@ IdentifierList
   <- <Identifier Identifier*>
   {
     p.InputAttributes.ResourceId = ""
-    ids := strings.Fields(text)
-    for _, id := range ids {
-      p.InputAttributes.ResourceIds = append(p.InputAttributes.ResourceIds, cleanString(id))
-    }
+    p.InputAttributes.ResourceIds = append(p.InputAttributes.ResourceIds, splitIdentifiers(text)...)
   }
 
 WorldParams <- _ WorldParamVersion _ WorldParamId _ WorldParamName _ WorldParamExpanded _
diff --git a/pkg/grammar/grammar.peg.go b/pkg/grammar/grammar.peg.go
index 331f7b4..3f0d1b2 100644
--- a/pkg/grammar/grammar.peg.go
+++ b/pkg/grammar/grammar.peg.go
@@ -699,10 +699,7 @@ func (p *Parser) Execute() {
 		case ruleAction18:
 
 			p.InputAttributes.ResourceId = ""
-			ids := strings.Fields(text)
-			for _, id := range ids {
-				p.InputAttributes.ResourceIds = append(p.InputAttributes.ResourceIds, cleanString(id))
-			}
+			p.InputAttributes.ResourceIds = append(p.InputAttributes.ResourceIds, splitIdentifiers(text)...)
 
 		case ruleAction19:
 
@@ -5428,10 +5425,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 		nil,
 		/* 141 Action18 <- <{
 		   p.InputAttributes.ResourceId = ""
-		   ids := strings.Fields(text)
-		   for _, id := range ids {
-		     p.InputAttributes.ResourceIds = append(p.InputAttributes.ResourceIds, cleanString(id))
-		   }
+		   p.InputAttributes.ResourceIds = append(p.InputAttributes.ResourceIds, splitIdentifiers(text)...)
 		 }> */
 		nil,
 		/* 142 Action19 <- <{
diff --git a/pkg/grammar/main.go b/pkg/grammar/main.go
index 087bb39..e97eeb6 100644
--- a/pkg/grammar/main.go
+++ b/pkg/grammar/main.go
@@ -74,6 +74,23 @@ func cleanString(s string) string {
 	return strings.Trim(strings.TrimSpace(s), "\"")
 }
 
+// splitIdentifiers splits the text of an identifier list into its identifiers, without breaking up quoted ones.
+func splitIdentifiers(s string) []string {
+	ids := make([]string, 0)
+	for s = strings.TrimSpace(s); s != ""; s = strings.TrimSpace(s) {
+		n := strings.IndexAny(s, " \t\r\n\"")
+		if s[0] == '"' {
+			n = strings.IndexByte(s[1:], '"') + 2
+		}
+		if n < 0 {
+			n = len(s)
+		}
+		ids = append(ids, cleanString(s[:n]))
+		s = s[n:]
+	}
+	return ids
+}
+
 // wordEnd tells whether r, the character after a keyword, ends that keyword rather than continuing a longer word.
 func wordEnd(r rune) bool {
 	switch {
-- 
2.43.0


From a688aeae3d0834b6e8ef714514e2c51586575da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:43 +0000
Subject: [PATCH 17/47] fix: end a quoted status message at its closing quote

---
 pkg/grammar/grammar.peg    | 2 +-
 pkg/grammar/grammar.peg.go | 4 ++--
 pkg/grammar/main.go        | 9 +++++++++
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/grammar/grammar.peg b/pkg/grammar/grammar.peg
index fd4cbb9..9d802c4 100644
--- a/pkg/grammar/grammar.peg
+++ b/pkg/grammar/grammar.peg
@@ -125,7 +125,7 @@ StatusObject
   <- ErrCode (ERROR / OK) <StringLike*>
   {
     p.StmtType = "Status"
-    p.Response.Status.Message = cleanString(text)
+    p.Response.Status.Message = statusMessage(text)
   }
 
 ErrCode <- <Number> { p.Response.Status.Code = p.number }
diff --git a/pkg/grammar/grammar.peg.go b/pkg/grammar/grammar.peg.go
index 3f0d1b2..4ea475f 100644
--- a/pkg/grammar/grammar.peg.go
+++ b/pkg/grammar/grammar.peg.go
@@ -684,7 +684,7 @@ func (p *Parser) Execute() {
 		case ruleAction13:
 
 			p.StmtType = "Status"
-			p.Response.Status.Message = cleanString(text)
+			p.Response.Status.Message = statusMessage(text)
 
 		case ruleAction14:
 			p.Response.Status.Code = p.number
@@ -5410,7 +5410,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 		nil,
 		/* 136 Action13 <- <{
 		   p.StmtType = "Status"
-		   p.Response.Status.Message = cleanString(text)
+		   p.Response.Status.Message = statusMessage(text)
 		 }> */
 		nil,
 		/* 137 Action14 <- <{ p.Response.Status.Code = p.number }> */
diff --git a/pkg/grammar/main.go b/pkg/grammar/main.go
index e97eeb6..6e3ec76 100644
--- a/pkg/grammar/main.go
+++ b/pkg/grammar/main.go
@@ -74,6 +74,15 @@ func cleanString(s string) string {
 	return strings.Trim(strings.TrimSpace(s), "\"")
 }
 
+// statusMessage returns the message in the text that follows a status: the quoted string it starts with, or all of it.
+func statusMessage(s string) string {
+	if quoted, ok := strings.CutPrefix(strings.TrimSpace(s), "\""); ok {
+		message, _, _ := strings.Cut(quoted, "\"")
+		return message
+	}
+	return cleanString(s)
+}
+
 // splitIdentifiers splits the text of an identifier list into its identifiers, without breaking up quoted ones.
 func splitIdentifiers(s string) []string {
 	ids := make([]string, 0)
-- 
2.43.0


From 6f757b668888ec984dcf03d747164a425e9c9edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:43 +0000
Subject: [PATCH 18/47] fix: write and read the id, name and description of a
 world as quoted text

---
 pkg/world/world.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index ef80cd7..2d65cec 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -97,17 +97,13 @@ func FromString(s string) (World, error) {
 		return nil, errors.New("error parsing World").UseCode(errors.TopolithErrorInvalid).WithError(err).WithDescription("error parsing World").WithData(errors.KvPair{Key: "input", Value: s})
 	}
 
-	w := CreateWorld(p.WorldParams["name"])
+	w := CreateWorld(strings.Trim(p.WorldParams["name"], "\""))
 
-	if version, err := strconv.Atoi(p.WorldParams["version"]); err == nil && version != 0 {
+	if version, err := strconv.Atoi(p.WorldParams["version"]); err == nil {
 		w.SetVersion(version)
 	}
-	if p.WorldParams["id"] != "" {
-		w.SetId(p.WorldParams["id"])
-	}
-	if p.WorldParams["expanded"] != "" {
-		w.SetExpanded(p.WorldParams["expanded"])
-	}
+	w.SetId(p.WorldParams["id"])
+	w.SetExpanded(strings.Trim(p.WorldParams["expanded"], "\""))
 
 	for _, itemStr := range p.ItemStrings {
 		item, err := ItemFromString(itemStr)
@@ -265,7 +261,7 @@ func (w *world) String() string {
 	for _, rel := range w.Rels {
 		allRels = append(allRels, rel.String())
 	}
-	return fmt.Sprintf("$$world\nversion=%d\nid=%s\nname=%s\nexpanded=%s\n%s\n%s\nendworld$$",
+	return fmt.Sprintf("$$world\nversion=%d\nid=\"%s\"\nname=\"%s\"\nexpanded=\"%s\"\n%s\n%s\nendworld$$",
 		w.Version_,
 		w.Id_,
 		w.Name_,
-- 
2.43.0


From ef4a434d82f83a9b573e611598a13659ea4a1c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:56 +0000
Subject: [PATCH 19/47] fix: refuse to read a World from text that is not one

---
 pkg/world/world.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 2d65cec..34a4dfa 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -97,6 +97,10 @@ func FromString(s string) (World, error) {
 		return nil, errors.New("error parsing World").UseCode(errors.TopolithErrorInvalid).WithError(err).WithDescription("error parsing World").WithData(errors.KvPair{Key: "input", Value: s})
 	}
 
+	if p.StmtType != "WorldObject" {
+		return nil, errors.New("not a World").UseCode(errors.TopolithErrorInvalid).WithDescription("error parsing World").WithData(errors.KvPair{Key: "input", Value: s})
+	}
+
 	w := CreateWorld(strings.Trim(p.WorldParams["name"], "\""))
 
 	if version, err := strconv.Atoi(p.WorldParams["version"]); err == nil {
-- 
2.43.0


From cce63969f7feec696ff09806c109f689b1c3736d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:58 +0000
Subject: [PATCH 20/47] fix: do not take the top of a World's Tree for an Item
 called nil

---
 pkg/world/world.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 34a4dfa..0837239 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -130,12 +130,18 @@ func FromString(s string) (World, error) {
 		parentId string
 	}
 	stack := []queueItem{{p.Tree, ""}}
+	isRoot := strings.HasPrefix(p.TreeString, "tree{nil") // The node at the top has no Item; there may be an Item with ID "nil".
 	for len(stack) > 0 {
 		current := stack[len(stack)-1]
 		stack = stack[:len(stack)-1]
 		for _, child := range current.node.Children {
-			stack = append(stack, queueItem{child, current.node.Id})
+			parentId := current.node.Id
+			if isRoot {
+				parentId = ""
+			}
+			stack = append(stack, queueItem{child, parentId})
 		}
+		isRoot = false
 		if current.parentId != "" {
 			w.Nest(current.node.Id, current.parentId)
 		}
-- 
2.43.0


From 17586c4b96fb73fd54cb7c534aba611c19f561e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:20 +0000
Subject: [PATCH 21/47] fix: refuse to read an Item from text that is not one

---
 pkg/world/item.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/world/item.go b/pkg/world/item.go
index 325a1e3..69471b2 100644
--- a/pkg/world/item.go
+++ b/pkg/world/item.go
@@ -113,6 +113,9 @@ func ItemFromString(s string) (Item, error) {
 	if err != nil {
 		return Item{}, errors.New("error parsing Item").UseCode(errors.TopolithErrorInvalid).WithError(err).WithDescription("error parsing Item").WithData(errors.KvPair{Key: "input", Value: s})
 	}
+	if p.StmtType != "Command" || p.InputAttributes.ResourceType != "item" || !strings.HasPrefix(p.InputAttributes.Verb, "create-or-") {
+		return Item{}, errors.New("not an Item").UseCode(errors.TopolithErrorInvalid).WithDescription("error parsing Item").WithData(errors.KvPair{Key: "input", Value: s})
+	}
 	return itemSet(Item{Id: p.InputAttributes.ResourceId}, ItemParamsFromInput(p.InputAttributes))
 }
 
-- 
2.43.0


From a15589110b4a486467a0bba8cc1f610bb05d11a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:22 +0000
Subject: [PATCH 22/47] fix: refuse to read a Rel from text that is not one

---
 pkg/world/rel.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/world/rel.go b/pkg/world/rel.go
index 557d3ef..bd59893 100644
--- a/pkg/world/rel.go
+++ b/pkg/world/rel.go
@@ -49,6 +49,9 @@ func RelFromString(w World, s string) (Rel, error) {
 	if err != nil {
 		return Rel{}, fmt.Errorf("error parsing Rel: %w", err)
 	}
+	if p.StmtType != "Command" || p.InputAttributes.ResourceType != "rel" || !strings.HasPrefix(p.InputAttributes.Verb, "create-or-") {
+		return Rel{}, errors.New("not a Rel").UseCode(errors.TopolithErrorInvalid).WithDescription("error parsing Rel").WithData(errors.KvPair{Key: "input", Value: s})
+	}
 	fromItem, ok := w.ItemFetch(p.InputAttributes.ResourceId)
 	if !ok {
 		return Rel{}, errors.New("from Item not found").UseCode(errors.TopolithErrorNotFound).WithDescription("FromItem not found").WithData(errors.KvPair{Key: "input", Value: s}, errors.KvPair{Key: "fromId", Value: p.InputAttributes.ResourceId})
-- 
2.43.0


From b5156c1f64b0f8fe0560b4b413fa713911123d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:24 +0000
Subject: [PATCH 23/47] fix: refuse to read a Tree from text that is not one

---
 pkg/world/tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index 2acd9b9..7091305 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -46,6 +46,10 @@ func TreeFromString(s string) (Tree, map[string]Item, error) {
 		return nil, map[string]Item{}, errors.New("error parsing Tree").UseCode(errors.TopolithErrorInvalid).WithError(err).WithDescription("error parsing Tree").WithData(errors.KvPair{Key: "input", Value: s})
 	}
 
+	if p.StmtType != "Tree" {
+		return nil, map[string]Item{}, errors.New("not a Tree").UseCode(errors.TopolithErrorInvalid).WithDescription("error parsing Tree").WithData(errors.KvPair{Key: "input", Value: s})
+	}
+
 	itemMap := make(map[string]Item)
 	for _, itemStr := range p.ItemStrings {
 		item, err := ItemFromString(itemStr)
-- 
2.43.0


From 636771ccebf250430bd37882edad4d1cab3eae4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:26 +0000
Subject: [PATCH 24/47] fix: keep the Item at the root of a Tree read from text

---
 pkg/world/tree.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index 7091305..dee9af5 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -60,8 +60,11 @@ func TreeFromString(s string) (Tree, map[string]Item, error) {
 	}
 
 	// The conversion consumes the map to prevent cycles.
-	t, err := convertNodeToTree(p.Tree, maps.Clone(itemMap), nil)
-	return t, itemMap, err
+	t, err := convertNodeToTree(p.Tree, maps.Clone(itemMap), nil, !strings.HasPrefix(p.TreeString, "tree{nil"))
+	if err != nil {
+		return nil, itemMap, err
+	}
+	return t, itemMap, nil
 }
 
 func TreeEqual(t1, t2 Tree) bool {
@@ -96,12 +99,13 @@ func TreeEqual(t1, t2 Tree) bool {
 }
 
 // convertNodeToTree recursively converts a grammar.Node to a Tree.
-func convertNodeToTree(node grammar.Node, itemMap map[string]Item, parent *tree) (*tree, error) {
+// Every node but the root has an Item; the root has one if rootHasItem.
+func convertNodeToTree(node grammar.Node, itemMap map[string]Item, parent *tree, rootHasItem bool) (*tree, error) {
 	var itemPtr *Item
-	if parent != nil {
+	if parent != nil || rootHasItem {
 		item, ok := itemMap[node.Id]
 		if !ok {
-			return parent, errors.New("Item not found in map").UseCode(errors.TopolithErrorNotFound).WithDescription("Item not found in map").WithData(errors.KvPair{Key: "id", Value: node.Id})
+			return nil, errors.New("Item not found in map").UseCode(errors.TopolithErrorNotFound).WithDescription("Item not found in map").WithData(errors.KvPair{Key: "id", Value: node.Id})
 		}
 		itemPtr = &item
 	}
@@ -112,7 +116,7 @@ func convertNodeToTree(node grammar.Node, itemMap map[string]Item, parent *tree)
 		parent:     parent,
 	}
 	for _, childNode := range node.Children {
-		childTree, err := convertNodeToTree(childNode, itemMap, t)
+		childTree, err := convertNodeToTree(childNode, itemMap, t, rootHasItem)
 		if err != nil {
 			return t, err
 		}
-- 
2.43.0


From 4ef8e5da979e18706a2bda91b16090874a13cf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:36 +0000
Subject: [PATCH 25/47] fix: read Trees that have an Item called nil

---
 pkg/world/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index dee9af5..5c94498 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -108,8 +108,8 @@ func convertNodeToTree(node grammar.Node, itemMap map[string]Item, parent *tree,
 			return nil, errors.New("Item not found in map").UseCode(errors.TopolithErrorNotFound).WithDescription("Item not found in map").WithData(errors.KvPair{Key: "id", Value: node.Id})
 		}
 		itemPtr = &item
+		delete(itemMap, node.Id) // Prevent cycles.
 	}
-	delete(itemMap, node.Id) // Prevent cycles.
 	t := &tree{
 		item:       itemPtr,
 		components: mapset.NewSet[Tree](),
-- 
2.43.0


From fcb6e32ecfc9c1553df2182d1e8644b2b6758e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:49 +0000
Subject: [PATCH 26/47] fix: delete and restore the relationship that was named

---
 pkg/app/command.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index d3de1f4..610d70d 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -663,7 +663,7 @@ type RelDeleteCommand struct {
 }
 
 func (c *RelDeleteCommand) Execute(w world.World) (fmt.Stringer, error) {
-	rels := w.RelFetch(c.Id, c.Id, true)
+	rels := w.RelFetch(c.Id, c.ToId, true)
 	if len(rels) == 0 {
 		c.noDelete = true
 		return world.Rel{}, nil
@@ -680,7 +680,7 @@ func (c *RelDeleteCommand) Undo(w world.World) error {
 	if c.noDelete {
 		return nil
 	}
-	return w.RelCreate(c.Id, c.Id, c.oldParams).Err()
+	return w.RelCreate(c.Id, c.ToId, c.oldParams).Err()
 }
 
 // --- EXPORTED FUNCTIONS ---
-- 
2.43.0


From f3849dcd8df3b1e98e6326aa3d056a0720a13fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:51 +0000
Subject: [PATCH 27/47] fix: answer with the existing relationship when it is
 created again

---
 pkg/app/command.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index 610d70d..b355b44 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -450,7 +450,7 @@ type RelCreateCommand struct {
 func (c *RelCreateCommand) Execute(w world.World) (fmt.Stringer, error) {
 	if rels := w.RelFetch(c.Id, c.ToId, true); len(rels) > 0 {
 		c.noCreate = true
-		return world.Rel{}, nil
+		return rels[0], nil
 	}
 	return w.RelCreate(c.Id, c.ToId, c.Params).Rel()
 }
-- 
2.43.0


From c5fdd086ab8c88d9746679dc4f18dabc86f9eab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:52 +0000
Subject: [PATCH 28/47] fix: list the components of an item for 'item in'

---
 pkg/app/command.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index b355b44..9dca89b 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -726,6 +726,9 @@ func itemCommand(base CommandBase, input grammar.InputAttributes) (Command, erro
 	case Fetch:
 		return &ItemFetchCommand{CommandBase: base}, nil
 	case List:
+		if base.Id != "" {
+			return &ItemComponentsListCommand{CommandBase: base}, nil
+		}
 		return &ItemListCommand{CommandBase: base, Limit: limitFromInput(input)}, nil
 	case Set:
 		return &ItemSetCommand{CommandBase: base, Params: world.ItemParamsFromInput(input)}, nil
-- 
2.43.0


From 7301192fb8f689b852faf1a88d54af23a6c17f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:36 +0000
Subject: [PATCH 29/47] fix: report failed nest and free commands, and take
 back what they moved

---
 pkg/app/command.go | 80 +++++++++++++++++++++++++++-------------------
 1 file changed, 47 insertions(+), 33 deletions(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index 9dca89b..21f66d2 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -262,56 +262,48 @@ func (c *ItemDeleteCommand) Undo(w world.World) error {
 // ItemNestCommand represents a nest command for Item.
 type ItemNestCommand struct {
 	CommandBase
-	Ids          []string
-	ParentId     string
-	oldParentIds map[string]string
-	noNest       map[string]bool
+	Ids      []string
+	ParentId string
+	moves    []itemMove
 }
 
 func (c *ItemNestCommand) Execute(w world.World) (fmt.Stringer, error) {
-	oldParentIds := make(map[string]string)
-	noNest := make(map[string]bool)
+	c.moves = make([]itemMove, 0)
 	errs := make([]error, 0)
 	for _, id := range c.Ids {
 		oldParentId, found := w.Parent(id)
 		if !found {
-			noNest[id] = true
 			errs = append(errs, errors.New("could not find Item").UseCode(errors.TopolithErrorNotFound).WithData(errors.KvPair{Key: "id", Value: id}))
 			continue
 		}
-		oldParentIds[id] = oldParentId // Empty string if root.
-		if oldParentId == c.ParentId {
-			noNest[id] = true
+		if err := w.Nest(id, c.ParentId).Err(); err != nil {
+			errs = append(errs, err)
 			continue
 		}
-		w.Nest(id, c.ParentId)
+		c.moves = append(c.moves, itemMove{id: id, oldParentId: oldParentId})
 	}
 	if len(errs) > 0 {
+		errs = append(errs, c.Undo(w)) // All or nothing.
 		return BoolStringer(false), errors.Join(errs...)
 	}
 	return BoolStringer(true), nil
 }
 
 func (c *ItemNestCommand) Undo(w world.World) error {
-	for id, oldParentId := range c.oldParentIds {
-		if oldParentId == "" {
-			w.Free(id)
-			continue
-		}
-		w.Nest(id, oldParentId)
-	}
-	return nil
+	moves := c.moves
+	c.moves = nil
+	return undoMoves(w, moves)
 }
 
 // ItemFreeCommand represents a free command for Item.
 type ItemFreeCommand struct {
 	CommandBase
-	Ids          []string
-	oldParentIds map[string]string
+	Ids   []string
+	moves []itemMove
 }
 
 func (c *ItemFreeCommand) Execute(w world.World) (fmt.Stringer, error) {
-	oldParentIds := make(map[string]string)
+	c.moves = make([]itemMove, 0)
 	errs := make([]error, 0)
 
 	for _, id := range c.Ids {
@@ -320,24 +312,24 @@ func (c *ItemFreeCommand) Execute(w world.World) (fmt.Stringer, error) {
 			errs = append(errs, errors.New("could not find Item").UseCode(errors.TopolithErrorNotFound).WithData(errors.KvPair{Key: "id", Value: id}))
 			continue
 		}
-		oldParentIds[id] = oldParentId // Empty string if root.
-		w.Free(id)
+		if err := w.Free(id).Err(); err != nil {
+			errs = append(errs, err)
+			continue
+		}
+		c.moves = append(c.moves, itemMove{id: id, oldParentId: oldParentId})
 	}
 
 	if len(errs) > 0 {
+		errs = append(errs, c.Undo(w)) // All or nothing.
 		return BoolStringer(false), errors.Join(errs...)
 	}
 	return BoolStringer(true), nil
 }
 
 func (c *ItemFreeCommand) Undo(w world.World) error {
-	for id, oldParentId := range c.oldParentIds {
-		if oldParentId == "" {
-			continue
-		}
-		w.Nest(id, oldParentId)
-	}
-	return nil
+	moves := c.moves
+	c.moves = nil
+	return undoMoves(w, moves)
 }
 
 // ItemExistsCommand represents an exists command for Item.
@@ -719,6 +711,28 @@ func boolPtr(b bool) *bool {
 	return &b
 }
 
+// itemMove is a move of an Item to another parent, with what we need to take it back.
+type itemMove struct {
+	id          string
+	oldParentId string // Empty string if root.
+}
+
+// undoMoves takes back the given moves, last one first.
+func undoMoves(w world.World, moves []itemMove) error {
+	for i := len(moves) - 1; i >= 0; i-- {
+		var err error
+		if moves[i].oldParentId == "" {
+			err = w.Free(moves[i].id).Err()
+		} else {
+			err = w.Nest(moves[i].id, moves[i].oldParentId).Err()
+		}
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func itemCommand(base CommandBase, input grammar.InputAttributes) (Command, error) {
 	switch CommandVerb(input.Verb) {
 	case Create:
@@ -737,9 +751,9 @@ func itemCommand(base CommandBase, input grammar.InputAttributes) (Command, erro
 	case Delete:
 		return &ItemDeleteCommand{CommandBase: base}, nil
 	case Nest:
-		return &ItemNestCommand{CommandBase: base, Ids: input.ResourceIds, ParentId: input.SecondaryIds[0], oldParentIds: make(map[string]string), noNest: make(map[string]bool)}, nil
+		return &ItemNestCommand{CommandBase: base, Ids: input.ResourceIds, ParentId: input.SecondaryIds[0]}, nil
 	case Free:
-		return &ItemFreeCommand{CommandBase: base, Ids: input.ResourceIds, oldParentIds: make(map[string]string)}, nil
+		return &ItemFreeCommand{CommandBase: base, Ids: input.ResourceIds}, nil
 	case Exists:
 		return &ItemExistsCommand{CommandBase: base}, nil
 	case InQuery:
-- 
2.43.0


From 1716fc18ebc2f663c7c4c6e5b52064dc15c12c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:37 +0000
Subject: [PATCH 30/47] fix: restore nesting and relationships when the
 deletion of an item is undone

---
 pkg/app/command.go | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index 21f66d2..6c38540 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -234,8 +234,11 @@ func (c *ItemClearCommand) Undo(w world.World) error {
 // ItemDeleteCommand represents a delete command for Item.
 type ItemDeleteCommand struct {
 	CommandBase
-	oldParams world.ItemParams
-	noDelete  bool
+	oldParams     world.ItemParams
+	oldParentId   string
+	oldComponents []string
+	oldRels       []world.Rel
+	noDelete      bool
 }
 
 func (c *ItemDeleteCommand) Execute(w world.World) (fmt.Stringer, error) {
@@ -249,6 +252,9 @@ func (c *ItemDeleteCommand) Execute(w world.World) (fmt.Stringer, error) {
 	c.oldParams.Type = strPtr(world.StringFromItemType(item.Type))
 	c.oldParams.Mechanism = strPtr(item.Mechanism)
 	c.oldParams.Expanded = strPtr(item.Expanded)
+	c.oldParentId, _ = w.Parent(c.Id)
+	c.oldComponents, _ = w.Components(c.Id)
+	c.oldRels = append(w.RelFrom(c.Id, true), w.RelTo(c.Id, true)...)
 	return world.Item{}, w.ItemDelete(c.Id).Err()
 }
 
@@ -256,7 +262,31 @@ func (c *ItemDeleteCommand) Undo(w world.World) error {
 	if c.noDelete {
 		return nil
 	}
-	return w.ItemCreate(c.Id, c.oldParams).Err()
+	if err := w.ItemCreate(c.Id, c.oldParams).Err(); err != nil {
+		return err
+	}
+	if c.oldParentId != "" {
+		if err := w.Nest(c.Id, c.oldParentId).Err(); err != nil {
+			return err
+		}
+	}
+	for _, id := range c.oldComponents {
+		if err := w.Nest(id, c.Id).Err(); err != nil {
+			return err
+		}
+	}
+	for _, rel := range c.oldRels {
+		params := world.RelParams{
+			Verb:      strPtr(rel.Verb),
+			Mechanism: strPtr(rel.Mechanism),
+			Async:     boolPtr(rel.Async),
+			Expanded:  strPtr(rel.Expanded),
+		}
+		if err := w.RelCreate(rel.From.Id, rel.To.Id, params).Err(); err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 // ItemNestCommand represents a nest command for Item.
-- 
2.43.0


From 2a66a5de9107d03dffffa50e0b2a963d66910cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:53 +0000
Subject: [PATCH 31/47] fix: forget undone commands when a new one is executed

---
 pkg/app/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/app/main.go b/pkg/app/main.go
index 2dfdcb4..15272af 100644
--- a/pkg/app/main.go
+++ b/pkg/app/main.go
@@ -87,7 +87,7 @@ func (h *app) Persistence() persistence.Persistence {
 // --- INTERNAL ---
 
 func (h *app) exec(c Command) (fmt.Stringer, error) {
-	h.commands = append(h.commands, c)
+	h.commands = append(h.commands[:h.commandsIdx+1], c)
 	h.commandsIdx++
 	return c.Execute(h.world)
 }
-- 
2.43.0


From 580ff0b6a57cb6cc66bec88b9906db081b60f8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:55 +0000
Subject: [PATCH 32/47] fix: redo the command that was undone, not the one
 before it

---
 pkg/app/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/app/main.go b/pkg/app/main.go
index 15272af..a10bd34 100644
--- a/pkg/app/main.go
+++ b/pkg/app/main.go
@@ -111,7 +111,7 @@ func (h *app) redo() (error, int) {
 	if h.commandsIdx >= len(h.commands)-1 {
 		return nil, 0
 	}
-	_, err := h.commands[h.commandsIdx].Execute(h.world)
+	_, err := h.commands[h.commandsIdx+1].Execute(h.world)
 	if err != nil {
 		// We aren't going to validate state of the World. But a problem happened.
 		// Clear app, reset commandsIdx, and return the error.
-- 
2.43.0


From 32b2d320c79dbe55b281c5a491a1aa4fb0a83215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:56 +0000
Subject: [PATCH 33/47] fix: keep failed commands out of the history

---
 pkg/app/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/app/main.go b/pkg/app/main.go
index a10bd34..22b6775 100644
--- a/pkg/app/main.go
+++ b/pkg/app/main.go
@@ -87,9 +87,14 @@ func (h *app) Persistence() persistence.Persistence {
 // --- INTERNAL ---
 
 func (h *app) exec(c Command) (fmt.Stringer, error) {
+	o, err := c.Execute(h.world)
+	if err != nil {
+		// It changed nothing, so there is nothing to undo or redo.
+		return o, err
+	}
 	h.commands = append(h.commands[:h.commandsIdx+1], c)
 	h.commandsIdx++
-	return c.Execute(h.world)
+	return o, nil
 }
 
 func (h *app) undo() (error, int) {
-- 
2.43.0


From b64036667a922279f0f75206d0546d83f25f18c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:16 +0000
Subject: [PATCH 34/47] fix: hand out the history as a list of its own

---
 pkg/app/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/app/main.go b/pkg/app/main.go
index 22b6775..4445834 100644
--- a/pkg/app/main.go
+++ b/pkg/app/main.go
@@ -6,6 +6,7 @@ import (
 	"github.com/williamflynt/topolith/pkg/grammar"
 	"github.com/williamflynt/topolith/pkg/persistence"
 	"github.com/williamflynt/topolith/pkg/world"
+	"slices"
 )
 
 type App interface {
@@ -69,7 +70,7 @@ func (h *app) Exec(s string) string {
 }
 
 func (h *app) History() []Command {
-	return h.commands[:h.commandsIdx+1]
+	return slices.Clone(h.commands[:h.commandsIdx+1])
 }
 
 func (h *app) CanUndo() bool {
-- 
2.43.0


From fae5fcfe942498617f8e68555a9c5a6d27f513e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:18 +0000
Subject: [PATCH 35/47] fix: never let one error write into the data or causes
 of another

---
 pkg/errors/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/errors/main.go b/pkg/errors/main.go
index 42aeddd..7e10c3a 100644
--- a/pkg/errors/main.go
+++ b/pkg/errors/main.go
@@ -1,6 +1,9 @@
 package errors
 
-import "fmt"
+import (
+	"fmt"
+	"slices"
+)
 
 // TopolithErrorCode is an iota that represents the error code of a TopolithError.
 type TopolithErrorCode int
@@ -37,7 +40,7 @@ func (e TopolithError) WithDescription(description string) TopolithError {
 }
 
 func (e TopolithError) WithData(data ...KvPair) TopolithError {
-	e.Data = append(e.Data, data...)
+	e.Data = append(slices.Clip(e.Data), data...) // Never write to the list of the error we came from.
 	return e
 }
 
@@ -47,6 +50,7 @@ func (e TopolithError) ClearData() TopolithError {
 }
 
 func (e TopolithError) WithError(errs ...error) TopolithError {
+	e.errs = slices.Clip(e.errs) // Never write to the list of the error we came from.
 	for _, err := range errs {
 		e.errs = append(e.errs, err)
 	}
-- 
2.43.0


From e226475e97fbd2232afa76c321a2121c85eef3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:21 +0000
Subject: [PATCH 36/47] fix: do not count a nil error as the first cause of an
 error

---
 pkg/errors/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/errors/main.go b/pkg/errors/main.go
index 7e10c3a..d77ec76 100644
--- a/pkg/errors/main.go
+++ b/pkg/errors/main.go
@@ -52,7 +52,9 @@ func (e TopolithError) ClearData() TopolithError {
 func (e TopolithError) WithError(errs ...error) TopolithError {
 	e.errs = slices.Clip(e.errs) // Never write to the list of the error we came from.
 	for _, err := range errs {
-		e.errs = append(e.errs, err)
+		if err != nil {
+			e.errs = append(e.errs, err)
+		}
 	}
 	return e
 }
-- 
2.43.0


From e6655b865fa90fd4e62ebe3ba1e71dacdc56809b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:55 +0000
Subject: [PATCH 37/47] fix: keep the previous file when saving a world fails
 part-way

---
 pkg/persistence/main.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/pkg/persistence/main.go b/pkg/persistence/main.go
index b7b9761..760dcb9 100644
--- a/pkg/persistence/main.go
+++ b/pkg/persistence/main.go
@@ -46,7 +46,30 @@ func (fp *filePersistence) Save(world world.World) error {
 
 	filePath := filepath.Join(fp.directory, world.Name()+".world")
 	data := world.String()
-	return os.WriteFile(filePath, []byte(data), 0644)
+	return writeFile(filePath, []byte(data))
+}
+
+// writeFile replaces the file at the given path as a whole. If that fails, the previous file stays as it was.
+func writeFile(filePath string, data []byte) error {
+	f, err := os.CreateTemp(filepath.Dir(filePath), ".save-*.tmp")
+	if err != nil {
+		return err
+	}
+	defer os.Remove(f.Name()) // Does nothing once the file is renamed.
+	_, err = f.Write(data)
+	if err == nil {
+		err = f.Chmod(0644)
+	}
+	if err == nil {
+		err = f.Sync()
+	}
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		return err
+	}
+	return os.Rename(f.Name(), filePath)
 }
 
 // Load loads a world from a file.
-- 
2.43.0


From e9771fced44ac2dfafd76a2ff9b1ac2e57f9f8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:56 +0000
Subject: [PATCH 38/47] fix: refuse to save a world outside of the directory

---
 pkg/persistence/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/persistence/main.go b/pkg/persistence/main.go
index 760dcb9..60244f5 100644
--- a/pkg/persistence/main.go
+++ b/pkg/persistence/main.go
@@ -1,10 +1,12 @@
 package persistence
 
 import (
+	"github.com/williamflynt/topolith/pkg/errors"
 	"github.com/williamflynt/topolith/pkg/world"
 	"os"
 	"path/filepath"
 	"runtime"
+	"strings"
 )
 
 // Persistence defines the interface for saving, loading, and managing worlds.
@@ -40,6 +42,9 @@ func getDefaultDirectory() string {
 
 // Save saves a world to a file.
 func (fp *filePersistence) Save(world world.World) error {
+	if name := world.Name(); strings.ContainsAny(name, `/\`) {
+		return errors.New("World name cannot contain a path separator").UseCode(errors.TopolithErrorInvalid).WithData(errors.KvPair{Key: "name", Value: name})
+	}
 	if err := os.MkdirAll(fp.directory, 0755); err != nil {
 		return err
 	}
-- 
2.43.0


From 890afce926a981973769fb16bb67b1a42a4bd9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:58 +0000
Subject: [PATCH 39/47] fix: load a saved world by its name also when the name
 ends in .world

---
 pkg/persistence/main.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/persistence/main.go b/pkg/persistence/main.go
index 60244f5..b78b477 100644
--- a/pkg/persistence/main.go
+++ b/pkg/persistence/main.go
@@ -79,11 +79,11 @@ func writeFile(filePath string, data []byte) error {
 
 // Load loads a world from a file.
 func (fp *filePersistence) Load(name string) (world.World, error) {
-	filePath := name
-	if filepath.Ext(name) != ".world" {
-		filePath = filepath.Join(fp.directory, name+".world")
+	data, err := os.ReadFile(filepath.Join(fp.directory, name+".world"))
+	if os.IsNotExist(err) && filepath.Ext(name) == ".world" {
+		// Not the name of a saved world, but the path of a file.
+		data, err = os.ReadFile(name)
 	}
-	data, err := os.ReadFile(filePath)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 1434b951c924c53e1b97d53791dcdf02cc9a3dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:16 +0000
Subject: [PATCH 40/47] fix: name the missing item when the end of a
 relationship is not found

---
 pkg/world/world.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 0837239..5ca0915 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -486,9 +486,9 @@ func (w *world) RelCreate(fromId, toId string, params RelParams) WorldWithRel {
 	toItem, ok := w.ItemFetch(toId)
 	if !ok {
 		w.latestErr = errors.
-			New("fromId for Rel not found").
+			New("toId for Rel not found").
 			UseCode(errors.TopolithErrorNotFound).
-			WithData(errors.KvPair{Key: "fromId", Value: fromId})
+			WithData(errors.KvPair{Key: "toId", Value: toId})
 		return w
 	}
 	existing, ok := w.Rels[relIdFromIds(fromId, toId)]
-- 
2.43.0


From 1cdf740eb88f912468f6eb8db8b057d61a22bda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:19 +0000
Subject: [PATCH 41/47] verif: reach undo and redo from outside the package
 (build tag verif)

---
 pkg/app/verif_hooks.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)
 create mode 100644 pkg/app/verif_hooks.go

diff --git a/pkg/app/verif_hooks.go b/pkg/app/verif_hooks.go
new file mode 100644
index 0000000..42e93b2
--- /dev/null
+++ b/pkg/app/verif_hooks.go
@@ -0,0 +1,25 @@
+//go:build verif
+
+package app
+
+// VerifUndo undoes the last executed Command of the App. It returns the number of Command objects that can be redone.
+// It is not ok if this App has no undo.
+func VerifUndo(a App) (err error, redoable int, ok bool) {
+	h, ok := a.(interface{ undo() (error, int) })
+	if !ok {
+		return nil, 0, false
+	}
+	err, redoable = h.undo()
+	return err, redoable, true
+}
+
+// VerifRedo executes the last undone Command of the App again. It returns the number of Command objects that can be redone.
+// It is not ok if this App has no redo.
+func VerifRedo(a App) (err error, redoable int, ok bool) {
+	h, ok := a.(interface{ redo() (error, int) })
+	if !ok {
+		return nil, 0, false
+	}
+	err, redoable = h.redo()
+	return err, redoable, true
+}
-- 
2.43.0


From 0ee9e133a4c5cb4e0c09a7bc0b8e47b6f603f426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:56 +0000
Subject: [PATCH 42/47] fix: answer an error to a command that is no string in
 the web module

---
 cmd/wasm/main.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmd/wasm/main.go b/cmd/wasm/main.go
index 17cdee4..297f72e 100644
--- a/cmd/wasm/main.go
+++ b/cmd/wasm/main.go
@@ -5,6 +5,7 @@ package main
 import (
 	"encoding/json"
 	"github.com/williamflynt/topolith/pkg/app"
+	"github.com/williamflynt/topolith/pkg/errors"
 	"github.com/williamflynt/topolith/pkg/grammar"
 	"github.com/williamflynt/topolith/pkg/world"
 	"strconv"
@@ -28,6 +29,9 @@ func main() {
 		if len(args) != 1 {
 			return "Expected one argument"
 		}
+		if !isString(args[0]) {
+			return jsReplyToJsValue(toReply(errors.New("expected a string").UseCode(errors.TopolithErrorInvalid).String()))
+		}
 		command := args[0].String()
 		response := app.Exec(command)
 		return jsReplyToJsValue(toReply(response))
@@ -36,6 +40,11 @@ func main() {
 	select {}
 }
 
+// isString tells whether v is a string. It takes any value; js.Value.Type and js.Value.String panic on a BigInt.
+func isString(v js.Value) bool {
+	return js.Global().Get("Object").Invoke(v).InstanceOf(js.Global().Get("String"))
+}
+
 func toReply(response string) JavaScriptReply {
 	p, err := grammar.Parse(response)
 	// TODO: Structure the error as a TopolithError.
-- 
2.43.0


From 410e279477db8b2a30572c678a0f9e6c6e750e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:24 +0000
Subject: [PATCH 43/47] fix: give all items or relationships of a response as
 its object, not only the last

---
 pkg/grammar/grammar.peg    |  6 ++++++
 pkg/grammar/grammar.peg.go | 12 ++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/pkg/grammar/grammar.peg b/pkg/grammar/grammar.peg
index 9d802c4..c2c127c 100644
--- a/pkg/grammar/grammar.peg
+++ b/pkg/grammar/grammar.peg
@@ -33,6 +33,12 @@ Response
   <- Objects? _ DELIMITER DELIMITER _ StatusObject END
   {
     p.StmtType = "Response"
+    switch p.Response.Object.Type {
+    case "item":
+      p.Response.Object.Repr = strings.Join(p.ItemStrings, "\n")
+    case "rel":
+      p.Response.Object.Repr = strings.Join(p.RelStrings, "\n")
+    }
   }
 
 Command
diff --git a/pkg/grammar/grammar.peg.go b/pkg/grammar/grammar.peg.go
index 4ea475f..7c19779 100644
--- a/pkg/grammar/grammar.peg.go
+++ b/pkg/grammar/grammar.peg.go
@@ -622,6 +622,12 @@ func (p *Parser) Execute() {
 		case ruleAction0:
 
 			p.StmtType = "Response"
+			switch p.Response.Object.Type {
+			case "item":
+				p.Response.Object.Repr = strings.Join(p.ItemStrings, "\n")
+			case "rel":
+				p.Response.Object.Repr = strings.Join(p.RelStrings, "\n")
+			}
 
 		case ruleAction1:
 
@@ -5357,6 +5363,12 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 		},
 		/* 122 Action0 <- <{
 		   p.StmtType = "Response"
+		   switch p.Response.Object.Type {
+		   case "item":
+		     p.Response.Object.Repr = strings.Join(p.ItemStrings, "\n")
+		   case "rel":
+		     p.Response.Object.Repr = strings.Join(p.RelStrings, "\n")
+		   }
 		 }> */
 		nil,
 		/* 123 Action1 <- <{
-- 
2.43.0


From 5ed5e6470403d8d12d42a60224ebfd9651083170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:16 +0000
Subject: [PATCH 44/47] fix: give the id of a read world as it was written in
 the text of its object

---
 pkg/grammar/grammar.peg    | 4 ++--
 pkg/grammar/grammar.peg.go | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/grammar/grammar.peg b/pkg/grammar/grammar.peg
index c2c127c..d573d78 100644
--- a/pkg/grammar/grammar.peg
+++ b/pkg/grammar/grammar.peg
@@ -159,13 +159,13 @@ IdentifierList
 
 WorldParams <- _ WorldParamVersion _ WorldParamId _ WorldParamName _ WorldParamExpanded _
   {
-    p.WorldParams["paramString"] = fmt.Sprintf("version=%s\nid=%s\nname=%s\nexpanded=%s", p.WorldParams["version"], p.WorldParams["id"], p.WorldParams["name"], p.WorldParams["expanded"])
+    p.WorldParams["paramString"] = fmt.Sprintf("version=%s\nid=%s\nname=%s\nexpanded=%s", p.WorldParams["version"], p.WorldParams["idString"], p.WorldParams["name"], p.WorldParams["expanded"])
   }
 ItemParams  <- (ItemParam)+
 RelParams   <- (RelParam)+
 
 WorldParamVersion <- VERSION EQUALS <Number>        { p.WorldParams["version"] = cleanString(text) }
-WorldParamId      <- ID EQUALS <StringLike>         { p.WorldParams["id"] = cleanString(text) }
+WorldParamId      <- ID EQUALS <StringLike>         { p.WorldParams["id"] = cleanString(text); p.WorldParams["idString"] = strings.TrimSpace(text) }
 WorldParamName    <- NAME EQUALS <StringLike?>       { p.WorldParams["name"] = strings.TrimSpace(text) }
 WorldParamExpanded <- EXPANDED EQUALS <StringLike?> { p.WorldParams["expanded"] = strings.TrimSpace(text) }
 
diff --git a/pkg/grammar/grammar.peg.go b/pkg/grammar/grammar.peg.go
index 7c19779..252a5d7 100644
--- a/pkg/grammar/grammar.peg.go
+++ b/pkg/grammar/grammar.peg.go
@@ -709,12 +709,13 @@ func (p *Parser) Execute() {
 
 		case ruleAction19:
 
-			p.WorldParams["paramString"] = fmt.Sprintf("version=%s\nid=%s\nname=%s\nexpanded=%s", p.WorldParams["version"], p.WorldParams["id"], p.WorldParams["name"], p.WorldParams["expanded"])
+			p.WorldParams["paramString"] = fmt.Sprintf("version=%s\nid=%s\nname=%s\nexpanded=%s", p.WorldParams["version"], p.WorldParams["idString"], p.WorldParams["name"], p.WorldParams["expanded"])
 
 		case ruleAction20:
 			p.WorldParams["version"] = cleanString(text)
 		case ruleAction21:
 			p.WorldParams["id"] = cleanString(text)
+			p.WorldParams["idString"] = strings.TrimSpace(text)
 		case ruleAction22:
 			p.WorldParams["name"] = strings.TrimSpace(text)
 		case ruleAction23:
@@ -5441,12 +5442,12 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 		 }> */
 		nil,
 		/* 142 Action19 <- <{
-		   p.WorldParams["paramString"] = fmt.Sprintf("version=%s\nid=%s\nname=%s\nexpanded=%s", p.WorldParams["version"], p.WorldParams["id"], p.WorldParams["name"], p.WorldParams["expanded"])
+		   p.WorldParams["paramString"] = fmt.Sprintf("version=%s\nid=%s\nname=%s\nexpanded=%s", p.WorldParams["version"], p.WorldParams["idString"], p.WorldParams["name"], p.WorldParams["expanded"])
 		 }> */
 		nil,
 		/* 143 Action20 <- <{ p.WorldParams["version"] = cleanString(text) }> */
 		nil,
-		/* 144 Action21 <- <{ p.WorldParams["id"] = cleanString(text) }> */
+		/* 144 Action21 <- <{ p.WorldParams["id"] = cleanString(text); p.WorldParams["idString"] = strings.TrimSpace(text) }> */
 		nil,
 		/* 145 Action22 <- <{ p.WorldParams["name"] = strings.TrimSpace(text) }> */
 		nil,
-- 
2.43.0


From 86801bbdefafb31576b383978ff13f4b7c052ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:08 +0000
Subject: [PATCH 45/47] fix: load by path what only a path can name, instead of
 looking for it below the directory of the worlds

---
 pkg/persistence/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/persistence/main.go b/pkg/persistence/main.go
index b78b477..2a1ff84 100644
--- a/pkg/persistence/main.go
+++ b/pkg/persistence/main.go
@@ -79,7 +79,11 @@ func writeFile(filePath string, data []byte) error {
 
 // Load loads a world from a file.
 func (fp *filePersistence) Load(name string) (world.World, error) {
-	data, err := os.ReadFile(filepath.Join(fp.directory, name+".world"))
+	var data []byte
+	err := os.ErrNotExist
+	if !strings.ContainsAny(name, `/\`) { // Save takes no other names.
+		data, err = os.ReadFile(filepath.Join(fp.directory, name+".world"))
+	}
 	if os.IsNotExist(err) && filepath.Ext(name) == ".world" {
 		// Not the name of a saved world, but the path of a file.
 		data, err = os.ReadFile(name)
-- 
2.43.0


From f232456d9df5f4b8568aabfb1f4fb9789b041268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:09 +0000
Subject: [PATCH 46/47] fix: load a world with a long name by the path of its
 file

---
 pkg/persistence/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/persistence/main.go b/pkg/persistence/main.go
index 2a1ff84..02b00fe 100644
--- a/pkg/persistence/main.go
+++ b/pkg/persistence/main.go
@@ -1,12 +1,14 @@
 package persistence
 
 import (
+	stderrors "errors"
 	"github.com/williamflynt/topolith/pkg/errors"
 	"github.com/williamflynt/topolith/pkg/world"
 	"os"
 	"path/filepath"
 	"runtime"
 	"strings"
+	"syscall"
 )
 
 // Persistence defines the interface for saving, loading, and managing worlds.
@@ -84,7 +86,7 @@ func (fp *filePersistence) Load(name string) (world.World, error) {
 	if !strings.ContainsAny(name, `/\`) { // Save takes no other names.
 		data, err = os.ReadFile(filepath.Join(fp.directory, name+".world"))
 	}
-	if os.IsNotExist(err) && filepath.Ext(name) == ".world" {
+	if (os.IsNotExist(err) || stderrors.Is(err, syscall.ENAMETOOLONG)) && filepath.Ext(name) == ".world" {
 		// Not the name of a saved world, but the path of a file.
 		data, err = os.ReadFile(name)
 	}
-- 
2.43.0


From c93b181964a7324be5bf63faade80a69b3f48a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:13 +0000
Subject: [PATCH 47/47] fix: forget what an earlier execution of a command
 found

Executing a command that once found nothing to do, in a world where there is something
to do, left the flag from before standing, and undo took nothing back.
---
 pkg/app/command.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index 6c38540..82a47ef 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -127,6 +127,7 @@ type ItemCreateCommand struct {
 }
 
 func (c *ItemCreateCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noCreate = false
 	if item, ok := w.ItemFetch(c.Id); ok {
 		c.noCreate = true
 		return item, nil
@@ -182,6 +183,7 @@ type ItemSetCommand struct {
 }
 
 func (c *ItemSetCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noSet = false
 	item, ok := w.ItemFetch(c.Id)
 	if !ok {
 		c.noSet = true
@@ -211,6 +213,7 @@ type ItemClearCommand struct {
 }
 
 func (c *ItemClearCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noSet = false
 	item, ok := w.ItemFetch(c.Id)
 	if !ok {
 		c.noSet = true
@@ -242,6 +245,7 @@ type ItemDeleteCommand struct {
 }
 
 func (c *ItemDeleteCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noDelete = false
 	item, ok := w.ItemFetch(c.Id)
 	if !ok {
 		c.noDelete = true
@@ -383,6 +387,7 @@ type ItemCreateOrFetchCommand struct {
 }
 
 func (c *ItemCreateOrFetchCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noCreate = false
 	item, ok := w.ItemFetch(c.Id)
 	if ok {
 		c.noCreate = true
@@ -407,6 +412,7 @@ type ItemCreateOrSetCommand struct {
 }
 
 func (c *ItemCreateOrSetCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noCreate = false
 	if item, ok := w.ItemFetch(c.Id); ok {
 		c.noCreate = true
 		c.oldParams.External = boolPtr(item.External)
@@ -470,6 +476,7 @@ type RelCreateCommand struct {
 }
 
 func (c *RelCreateCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noCreate = false
 	if rels := w.RelFetch(c.Id, c.ToId, true); len(rels) > 0 {
 		c.noCreate = true
 		return rels[0], nil
@@ -528,6 +535,7 @@ type RelClearCommand struct {
 }
 
 func (c *RelClearCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noSet = false
 	rels := w.RelFetch(c.Id, c.ToId, true)
 	if len(rels) == 0 {
 		c.noSet = true
@@ -601,6 +609,7 @@ type RelCreateOrFetchCommand struct {
 }
 
 func (c *RelCreateOrFetchCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noCreate = false
 	rels := w.RelFetch(c.Id, c.ToId, true)
 	if len(rels) > 0 {
 		c.noCreate = true
@@ -626,6 +635,7 @@ type RelCreateOrSetCommand struct {
 }
 
 func (c *RelCreateOrSetCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noCreate = false
 	rels := w.RelFetch(c.Id, c.ToId, true)
 	if len(rels) > 0 {
 		c.noCreate = true
@@ -656,6 +666,7 @@ type RelSetCommand struct {
 }
 
 func (c *RelSetCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noSet = false
 	rels := w.RelFetch(c.Id, c.ToId, true)
 	if len(rels) == 0 {
 		c.noSet = true
@@ -685,6 +696,7 @@ type RelDeleteCommand struct {
 }
 
 func (c *RelDeleteCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noDelete = false
 	rels := w.RelFetch(c.Id, c.ToId, true)
 	if len(rels) == 0 {
 		c.noDelete = true
-- 
2.43.0


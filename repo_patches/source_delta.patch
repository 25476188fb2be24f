From cac2b64e7b59a18ac00cbc1f7a74b8242d81f0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:22 +0000
Subject: [PATCH 01/42] fix: match ? after * inside a list instead of panicking

---
 pkg/items/items.go | 4 +---
 pkg/items/tree.go  | 8 ++------
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/pkg/items/items.go b/pkg/items/items.go
index c4894fa..c476eba 100644
--- a/pkg/items/items.go
+++ b/pkg/items/items.go
@@ -343,7 +343,7 @@ func matchStarItems(s string, items []Item, nextItems *nextItemsTree) (matched,
 		s = s[offset:]
 
 		switch flag {
-		case FindDone:
+		case FindDone, FindForwarded:
 			sub := s[length:]
 			if matched, abortGready = matchItems(sub, items[1:], nextItems); matched || abortGready {
 				return
@@ -458,8 +458,6 @@ func matchStarItems(s string, items []Item, nextItems *nextItemsTree) (matched,
 			return
 		case FindNotSupported:
 			panic("not supported in match")
-		case FindForwarded:
-			panic("forwarded match")
 		case FindStar:
 			if len(items) == 1 {
 				if nextItems == nil || nextItems.IsEmpty() {
diff --git a/pkg/items/tree.go b/pkg/items/tree.go
index 63a17be..14c28aa 100644
--- a/pkg/items/tree.go
+++ b/pkg/items/tree.go
@@ -201,7 +201,7 @@ func (item *TreeItem) matchStar(s string, store Store) (matched int, abortGready
 		s = s[offset:]
 
 		switch flag {
-		case FindDone:
+		case FindDone, FindForwarded:
 			s := s[length:]
 
 			if s == "" && len(item.Childs) == 0 && item.Terminate {
@@ -305,8 +305,6 @@ func (item *TreeItem) matchStar(s string, store Store) (matched int, abortGready
 
 		case FindNotSupported:
 			panic("not supported in match")
-		case FindForwarded:
-			panic("forwarded match")
 		case FindStar:
 			if len(item.Childs) == 0 && item.Terminate {
 				store.Store(item.Query, item.Index)
@@ -500,7 +498,7 @@ func (item *TreeItem) matchStarItemsInTree(s string, items []Item, store Store)
 		s = s[offset:]
 
 		switch flag {
-		case FindDone:
+		case FindDone, FindForwarded:
 			sub := s[length:]
 			if n, _ := item.matchItemsInTree(sub, items[1:], store); n > 0 {
 				matched += n
@@ -580,8 +578,6 @@ func (item *TreeItem) matchStarItemsInTree(s string, items []Item, store Store)
 
 		case FindNotSupported:
 			panic("not supported in match")
-		case FindForwarded:
-			panic("forwarded match")
 		case FindStar:
 			if len(items) == 1 {
 				if n := item.matchStarNextTreeItem(s, store); n > 0 {
-- 
2.43.0


From 5dc896f26ab57946946c4ad149d15281a1225981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:31 +0000
Subject: [PATCH 02/42] fix: treat wildcards in a list of one value as
 wildcards

---
 pkg/items/stringlist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/items/stringlist.go b/pkg/items/stringlist.go
index 374140c..cd79f20 100644
--- a/pkg/items/stringlist.go
+++ b/pkg/items/stringlist.go
@@ -222,7 +222,7 @@ func NewItemList(vals []string) (item Item, err error) {
 	if len(vals) == 0 {
 		return
 	}
-	if len(vals) == 1 {
+	if len(vals) == 1 && !HasWildcard(vals[0]) {
 		if vals[0] == "" {
 			return nil, nil
 		}
-- 
2.43.0


From fdae83510de49fa9e4004a0091f2f49e51500d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 03/42] fix: keep the length of a list value with * unlimited

---
 pkg/items/chain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/items/chain.go b/pkg/items/chain.go
index b727ea7..2c4714c 100644
--- a/pkg/items/chain.go
+++ b/pkg/items/chain.go
@@ -22,7 +22,7 @@ func (item *Chain) Equal(a Item) bool {
 
 func (c *Chain) Append(item Item) {
 	c.MinSize += item.MinLen()
-	if l := item.MaxLen(); l == -1 {
+	if l := item.MaxLen(); l == -1 || c.MaxSize == -1 {
 		c.MaxSize = -1
 	} else {
 		c.MaxSize += l
-- 
2.43.0


From b253bdc6e968d9abed8ea6ef09bd0d33654d988e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 04/42] fix: scan a list after * from its first occurrence

---
 pkg/items/items.go | 22 +++++++++++-----------
 pkg/items/tree.go  | 43 ++++++++++++++++++++++---------------------
 2 files changed, 33 insertions(+), 32 deletions(-)

diff --git a/pkg/items/items.go b/pkg/items/items.go
index c476eba..52668a3 100644
--- a/pkg/items/items.go
+++ b/pkg/items/items.go
@@ -378,17 +378,21 @@ func matchStarItems(s string, items []Item, nextItems *nextItemsTree) (matched,
 			}
 
 			for {
-				var offsetN int
 				offset := -1
 				for i := 0; i < list.Len(); i++ {
-					if offsetN, length = list.FindN(s, i); offsetN == -1 {
-						// TODO: skip on next scan ?
-						continue
-					}
-					if offset == -1 || offset < offsetN {
+					if offsetN, _ := list.FindN(s, i); offsetN != -1 && (offset == -1 || offset > offsetN) {
 						offset = offsetN
 					}
-					s := s[offsetN+length:]
+				}
+				if offset == -1 {
+					break
+				}
+				s = s[offset:]
+				for i := 0; i < list.Len(); i++ {
+					if length = list.MatchN(s, i); length == -1 {
+						continue
+					}
+					s := s[length:]
 					if len(items) == 1 {
 						if nextItems == nil || nextItems.IsEmpty() {
 							if s == "" {
@@ -405,10 +409,6 @@ func matchStarItems(s string, items []Item, nextItems *nextItemsTree) (matched,
 						return
 					}
 				}
-				if offset == -1 {
-					break
-				}
-				s = s[offset:]
 				// shift to one rune from minimal offset
 				if _, length = utf8.DecodeRuneInString(s); length < 1 {
 					break
diff --git a/pkg/items/tree.go b/pkg/items/tree.go
index 14c28aa..5e40860 100644
--- a/pkg/items/tree.go
+++ b/pkg/items/tree.go
@@ -232,16 +232,21 @@ func (item *TreeItem) matchStar(s string, store Store) (matched int, abortGready
 			}
 
 			for {
-				var offsetN int
 				offset := -1
 				for i := 0; i < list.Len(); i++ {
-					if offsetN, length = list.FindN(s, i); offsetN == -1 {
-						continue
-					}
-					if offset == -1 || offset < offsetN {
+					if offsetN, _ := list.FindN(s, i); offsetN != -1 && (offset == -1 || offset > offsetN) {
 						offset = offsetN
 					}
-					s := s[offsetN+length:]
+				}
+				if offset == -1 {
+					break
+				}
+				s = s[offset:]
+				for i := 0; i < list.Len(); i++ {
+					if length = list.MatchN(s, i); length == -1 {
+						continue
+					}
+					s := s[length:]
 
 					if s == "" {
 						if item.Terminate {
@@ -255,10 +260,6 @@ func (item *TreeItem) matchStar(s string, store Store) (matched int, abortGready
 						}
 					}
 				}
-				if offset == -1 {
-					break
-				}
-				s = s[offset:]
 				if _, length = utf8.DecodeRuneInString(s); length < 1 {
 					break
 				}
@@ -518,17 +519,21 @@ func (item *TreeItem) matchStarItemsInTree(s string, items []Item, store Store)
 			}
 
 			for {
-				var offsetN int
 				offset := -1
 				for i := 0; i < list.Len(); i++ {
-					if offsetN, length = list.FindN(s, i); offsetN == -1 {
-						// TODO: skip on next scan ?
-						continue
-					}
-					if offset == -1 || offset < offsetN {
+					if offsetN, _ := list.FindN(s, i); offsetN != -1 && (offset == -1 || offset > offsetN) {
 						offset = offsetN
 					}
-					s := s[offsetN+length:]
+				}
+				if offset == -1 {
+					break
+				}
+				s = s[offset:]
+				for i := 0; i < list.Len(); i++ {
+					if length = list.MatchN(s, i); length == -1 {
+						continue
+					}
+					s := s[length:]
 					if len(items) == 1 {
 						if n := item.matchNextTreeItem(s, store); n > 0 {
 							matched += n
@@ -537,10 +542,6 @@ func (item *TreeItem) matchStarItemsInTree(s string, items []Item, store Store)
 						matched += n
 					}
 				}
-				if offset == -1 {
-					break
-				}
-				s = s[offset:]
 				// shift to one rune from minimal offset
 				if _, length = utf8.DecodeRuneInString(s); length < 1 {
 					break
-- 
2.43.0


From dd9df75f5d74550a5291663f0728ee04158044bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 05/42] fix: match * right after * (from a list value or a next
 tree item)

---
 pkg/items/items.go | 14 +++++++++-----
 pkg/items/tree.go  | 13 +++++++++++--
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/pkg/items/items.go b/pkg/items/items.go
index 52668a3..3949bcb 100644
--- a/pkg/items/items.go
+++ b/pkg/items/items.go
@@ -459,19 +459,23 @@ func matchStarItems(s string, items []Item, nextItems *nextItemsTree) (matched,
 		case FindNotSupported:
 			panic("not supported in match")
 		case FindStar:
+			if length == -1 {
+				abortGready = true
+				return
+			}
+			s = s[length:]
 			if len(items) == 1 {
 				if nextItems == nil || nextItems.IsEmpty() {
 					matched = true
 					return
 				} else {
 					items, nextItems := nextItems.Next()
-					if matched, _ = matchStarItems(s, items, nextItems); matched {
-						return
-					}
+					matched, _ = matchStarItems(s, items, nextItems)
+					return
 				}
 			}
-			items = items[1:]
-			// continue
+			matched, _ = matchStarItems(s, items[1:], nextItems)
+			return
 		default:
 			panic(fmt.Errorf("unsupported find flag: %d", flag))
 		}
diff --git a/pkg/items/tree.go b/pkg/items/tree.go
index 5e40860..63acf38 100644
--- a/pkg/items/tree.go
+++ b/pkg/items/tree.go
@@ -307,10 +307,14 @@ func (item *TreeItem) matchStar(s string, store Store) (matched int, abortGready
 		case FindNotSupported:
 			panic("not supported in match")
 		case FindStar:
-			if len(item.Childs) == 0 && item.Terminate {
+			if length == -1 {
+				abortGready = true
+				return
+			}
+			s = s[length:]
+			if item.Terminate {
 				store.Store(item.Query, item.Index)
 				matched++
-				return
 			}
 			for i := 0; i < len(item.Childs); i++ {
 				if n, _ := item.Childs[i].matchStar(s, store); n > 0 {
@@ -580,6 +584,11 @@ func (item *TreeItem) matchStarItemsInTree(s string, items []Item, store Store)
 		case FindNotSupported:
 			panic("not supported in match")
 		case FindStar:
+			if length == -1 {
+				abortGready = true
+				return
+			}
+			s = s[length:]
 			if len(items) == 1 {
 				if n := item.matchStarNextTreeItem(s, store); n > 0 {
 					matched += n
-- 
2.43.0


From 0d2de76daa3d95617545ea35c397117475a33287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 06/42] fix: search for a rune behind invalid UTF-8

---
 pkg/utils/runesranges.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/pkg/utils/runesranges.go b/pkg/utils/runesranges.go
index aa9a15a..663446e 100644
--- a/pkg/utils/runesranges.go
+++ b/pkg/utils/runesranges.go
@@ -272,10 +272,7 @@ func (rs *RunesRanges) IndexByte(b []byte) (pos int, c rune, n int) {
 			}
 		} else {
 			c, n = utf8.DecodeRune(b[i:])
-			if c == utf8.RuneError {
-				return -1, utf8.RuneError, 0
-			}
-			if rs.ContainsUnicode(c) {
+			if c != utf8.RuneError && rs.ContainsUnicode(c) {
 				pos = i
 				return
 			}
@@ -304,10 +301,7 @@ func (rs *RunesRanges) Index(s string) (pos int, c rune, n int) {
 			i++
 		} else {
 			c, n = utf8.DecodeRuneInString(s[i:])
-			if c == utf8.RuneError {
-				return -1, utf8.RuneError, 0
-			}
-			if rs.ContainsUnicode(c) {
+			if c != utf8.RuneError && rs.ContainsUnicode(c) {
 				pos = i
 				return
 			}
-- 
2.43.0


From 7a3019ca7a3710adfd1581821606bebb817dec2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 07/42] fix: endless loop of RunesRanges.IndexByte on ASCII
 outside of the set

---
 pkg/utils/runesranges.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/utils/runesranges.go b/pkg/utils/runesranges.go
index 663446e..f88319c 100644
--- a/pkg/utils/runesranges.go
+++ b/pkg/utils/runesranges.go
@@ -270,6 +270,7 @@ func (rs *RunesRanges) IndexByte(b []byte) (pos int, c rune, n int) {
 			if rs.ASCII.Contains(b[i]) {
 				return i, rune(b[i]), 1
 			}
+			i++
 		} else {
 			c, n = utf8.DecodeRune(b[i:])
 			if c != utf8.RuneError && rs.ContainsUnicode(c) {
-- 
2.43.0


From 4bcb81dd5859c828fc12477eda465f09b81f9550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:55 +0000
Subject: [PATCH 08/42] fix: keep a class of one wildcard symbol a class

---
 pkg/items/wildcard.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/items/wildcard.go b/pkg/items/wildcard.go
index ced7e7f..b15869d 100644
--- a/pkg/items/wildcard.go
+++ b/pkg/items/wildcard.go
@@ -30,7 +30,7 @@ func NextWildcardItem(s string) (item Item, next string, err error) {
 			return nil, next, nil
 		}
 		if len(runes.UnicodeRanges) == 0 {
-			if n == 1 {
+			if n == 1 && !HasWildcard(string(rune(c))) {
 				return Byte(c), next, nil
 			}
 		}
-- 
2.43.0


From e77f214db02b44af600c4a8ebfd837a9f52de266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 09/42] fix: match anything after * followed by an empty list
 value

---
 pkg/items/items.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/items/items.go b/pkg/items/items.go
index 3949bcb..7158a34 100644
--- a/pkg/items/items.go
+++ b/pkg/items/items.go
@@ -312,7 +312,7 @@ func matchStarItems(s string, items []Item, nextItems *nextItemsTree) (matched,
 	)
 	if len(items) == 0 {
 		if nextItems == nil || nextItems.IsEmpty() {
-			matched = s == ""
+			matched = true
 			abortGready = true
 			return
 		} else {
-- 
2.43.0


From 7eb5cf4fe7a937de3b13f9987de1c0e543da0d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 10/42] fix: match globs without wildcards in GlobTree

---
 glob/tree.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/glob/tree.go b/glob/tree.go
index a1c347b..c321e26 100644
--- a/glob/tree.go
+++ b/glob/tree.go
@@ -28,8 +28,14 @@ func addGlob(rootTree *items.TreeItem, gg *Glob, index int) *items.TreeItem {
 		treeItem = newItem
 	}
 
-	if gg.Prefix != "" {
-		node := items.NewString(gg.Prefix)
+	prefix := gg.Prefix
+	if len(gg.Items) == 0 {
+		// no wildcards, match the complete string
+		prefix = gg.Node
+	}
+
+	if prefix != "" || len(gg.Items) == 0 {
+		node := items.NewString(prefix)
 		newItem := items.LocateChildTreeItem(treeItem.Childs, node, false)
 		if newItem == nil {
 			if treeItem.Childs == nil {
-- 
2.43.0


From efe05603b0fb4431a8116be83245d4344a540538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 11/42] fix: GlobTree.AddGlob lost the normalized glob

---
 glob/tree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/glob/tree.go b/glob/tree.go
index c321e26..e4d61e6 100644
--- a/glob/tree.go
+++ b/glob/tree.go
@@ -154,6 +154,7 @@ func (gtree *GlobTree) AddGlob(g *Glob, index int) (normalized string, n int, er
 		err = ErrIndexDup
 		return
 	}
+	normalized = g.Node
 
 	addGlob(gtree.Root, g, index)
 
-- 
2.43.0


From eb14284d67b0ad83dd61d698360099ded95e30b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:27 +0000
Subject: [PATCH 12/42] fix: report a glob that ends where a longer one of the
 tree goes on

---
 pkg/items/tree.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pkg/items/tree.go b/pkg/items/tree.go
index 63acf38..f9ec084 100644
--- a/pkg/items/tree.go
+++ b/pkg/items/tree.go
@@ -155,13 +155,11 @@ func (item *TreeItem) match(s string, store Store) (matched int, abort bool) {
 	case FindForwarded:
 		panic("forwarded match")
 	case FindStar:
-		if len(item.Childs) == 0 {
-			if item.Terminate {
-				store.Store(item.Query, item.Index)
-				matched++
-			}
-			return
-		} else {
+		if item.Terminate {
+			store.Store(item.Query, item.Index)
+			matched++
+		}
+		if len(item.Childs) > 0 {
 			for i := 0; i < len(item.Childs); i++ {
 				if n, _ := item.Childs[i].matchStar(s, store); n > 0 {
 					matched += n
@@ -204,10 +202,11 @@ func (item *TreeItem) matchStar(s string, store Store) (matched int, abortGready
 		case FindDone, FindForwarded:
 			s := s[length:]
 
-			if s == "" && len(item.Childs) == 0 && item.Terminate {
+			if s == "" && item.Terminate {
 				store.Store(item.Query, item.Index)
 				matched++
-			} else {
+			}
+			if len(item.Childs) > 0 {
 				for i := 0; i < len(item.Childs); i++ {
 					if n, _ := item.Childs[i].match(s, store); n > 0 {
 						matched += n
-- 
2.43.0


From 011d7f1ff680091a059648753e6041d659c50ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:29 +0000
Subject: [PATCH 13/42] fix: endless loop of GlobTree.Match on * inside of a
 list value

---
 pkg/items/tree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/items/tree.go b/pkg/items/tree.go
index f9ec084..8d5c079 100644
--- a/pkg/items/tree.go
+++ b/pkg/items/tree.go
@@ -450,6 +450,7 @@ func (item *TreeItem) matchItemsInTree(s string, items []Item, store Store) (mat
 			} else if n, _ := item.matchStarItemsInTree(s, items[pos:], store); n > 0 {
 				matched += n
 			}
+			return
 		default:
 			panic(fmt.Errorf("unsupported find flag: %d", flag))
 		}
-- 
2.43.0


From f429024dc782c213adabbb6806d3eaa2df68922a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:37 +0000
Subject: [PATCH 14/42] fix: reject a malformed value of a list with *

---
 pkg/items/group.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/items/group.go b/pkg/items/group.go
index 17c7bda..dabe276 100644
--- a/pkg/items/group.go
+++ b/pkg/items/group.go
@@ -84,12 +84,14 @@ func (item *Group) IsOptional() bool {
 
 func NewGroup(vals []string) (item Item, err error) {
 	items := make([]Item, 0, len(vals))
+	hasStar := false
 	for i := 0; i < len(vals); i++ {
 		if HasWildcard(vals[i]) {
 			v := vals[i]
 
 			if v == "*" {
-				return Star(0), nil
+				// any string, but check other values
+				hasStar = true
 			} else if v == "?" {
 				items = append(items, Any(1))
 			} else {
@@ -114,6 +116,9 @@ func NewGroup(vals []string) (item Item, err error) {
 			items = append(items, NewString(vals[i]))
 		}
 	}
+	if hasStar {
+		return Star(0), nil
+	}
 	if len(items) == 0 {
 		return nil, nil
 	}
-- 
2.43.0


From 1527bb47214100c7a1422d1f73c1b217db1b633a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 15/42] fix: panic on a glob with an invalid UTF-8 byte between
 wildcards

---
 pkg/items/stringlist.go | 2 +-
 pkg/items/wildcard.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/items/stringlist.go b/pkg/items/stringlist.go
index cd79f20..5fe1c4d 100644
--- a/pkg/items/stringlist.go
+++ b/pkg/items/stringlist.go
@@ -228,7 +228,7 @@ func NewItemList(vals []string) (item Item, err error) {
 		}
 		// one item optimization
 		c, n := utf8.DecodeRuneInString(vals[0])
-		if n == len(vals[0]) {
+		if n == len(vals[0]) && c != utf8.RuneError {
 			if c <= 127 {
 				return Byte(c), nil
 			}
diff --git a/pkg/items/wildcard.go b/pkg/items/wildcard.go
index b15869d..e8eb867 100644
--- a/pkg/items/wildcard.go
+++ b/pkg/items/wildcard.go
@@ -77,7 +77,7 @@ func NextWildcardItem(s string) (item Item, next string, err error) {
 		v, next := utils.SplitString(s, end)
 
 		c, n := utf8.DecodeRuneInString(v)
-		if n == len(v) {
+		if n == len(v) && c != utf8.RuneError {
 			if c <= 127 {
 				return Byte(c), next, nil
 			}
-- 
2.43.0


From ae2d4e4df00c2f14fc47567212d18218220994ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:15 +0000
Subject: [PATCH 16/42] fix: don't merge adjacent runes of different UTF-8
 length into one range

---
 pkg/utils/runesranges.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/utils/runesranges.go b/pkg/utils/runesranges.go
index f88319c..e2af2df 100644
--- a/pkg/utils/runesranges.go
+++ b/pkg/utils/runesranges.go
@@ -28,7 +28,9 @@ func RunesRangeMerge(ranges []RuneRange) []RuneRange {
 		pos := i
 		if pos < n-1 {
 			for next := i + 1; next < n; next++ {
-				if ranges[pos].First == ranges[next].First || ranges[pos].Last+1 >= ranges[next].First {
+				if ranges[pos].First == ranges[next].First || ranges[pos].Last >= ranges[next].First ||
+					(ranges[pos].Last+1 == ranges[next].First && utf8.RuneLen(ranges[pos].Last) == utf8.RuneLen(ranges[next].First)) {
+					// adjacent runes of different length can't be written as one range
 					if ranges[pos].Last < ranges[next].Last {
 						// merge two ranges, like [1-3 1-4] [1-3 2-5] [1-3 4-5 5-7]
 						ranges[pos].Last = ranges[next].Last
-- 
2.43.0


From cb0684b0150b13512b5f925b2872bf95178a3466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 17/42] fix: write and count all symbols of ASCIISet (runs up
 to DEL, NUL)

---
 pkg/utils/asciiset.go | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/pkg/utils/asciiset.go b/pkg/utils/asciiset.go
index 6e9ef9b..0ed96f3 100644
--- a/pkg/utils/asciiset.go
+++ b/pkg/utils/asciiset.go
@@ -17,24 +17,22 @@ type ASCIISet [8]uint32
 
 func (ac *ASCIISet) WriteString(buf *strings.Builder) {
 	if !ac.IsEmpty() {
-		var start, i byte
-		for i = 1; i <= 127; i++ {
-			if ac.Contains(i) {
-				if start == 0 {
+		start := -1
+		for i := 0; i <= utf8.RuneSelf; i++ {
+			// RuneSelf is never in the set, so it closes the last range
+			if ac.Contains(byte(i)) {
+				if start == -1 {
 					start = i
 				}
-			} else if start != 0 {
-				buf.WriteByte(start)
+			} else if start != -1 {
+				buf.WriteByte(byte(start))
 				if i > start+1 {
 					buf.WriteByte('-')
-					buf.WriteByte(i - 1)
+					buf.WriteByte(byte(i - 1))
 				}
-				start = 0
+				start = -1
 			}
 		}
-		if start != 0 {
-			buf.WriteByte(start)
-		}
 	}
 }
 
@@ -45,13 +43,13 @@ func (ac *ASCIISet) IsEmpty() bool {
 
 func (ac *ASCIISet) Count() (n int, first byte) {
 	if !ac.IsEmpty() {
-		var i byte = 1
-		for ; i <= 127; i++ {
+		var i byte
+		for ; i < utf8.RuneSelf; i++ {
 			if ac.Contains(i) {
-				n++
-				if first == 0 {
+				if n == 0 {
 					first = i
 				}
+				n++
 			}
 		}
 	}
@@ -78,7 +76,7 @@ func (ac *ASCIISet) String() string {
 
 func (ac *ASCIISet) WriteStringAll(buf *strings.Builder) {
 	var i byte
-	for i = 1; i < 127; i++ {
+	for i = 0; i < utf8.RuneSelf; i++ {
 		if ac.Contains(i) {
 			buf.WriteByte(i)
 		}
-- 
2.43.0


From 618ba217bd245b72cd8a626db5f3ab14d40c5a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 18/42] fix: write random strings the glob matches (prefix,
 suffix, classes)

---
 glob/glob.go             |  2 ++
 pkg/items/runesranges.go | 19 ++++++++++++-------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/glob/glob.go b/glob/glob.go
index 417d2c9..39a80b3 100644
--- a/glob/glob.go
+++ b/glob/glob.go
@@ -25,9 +25,11 @@ func (g *Glob) WriteRandom(buf *strings.Builder) {
 	if len(g.Items) == 0 {
 		buf.WriteString(g.Node)
 	} else {
+		buf.WriteString(g.Prefix)
 		for i := 0; i < len(g.Items); i++ {
 			g.Items[i].WriteRandom(buf)
 		}
+		buf.WriteString(g.Suffix)
 	}
 
 }
diff --git a/pkg/items/runesranges.go b/pkg/items/runesranges.go
index 6ebefdf..c9e7ed6 100644
--- a/pkg/items/runesranges.go
+++ b/pkg/items/runesranges.go
@@ -3,6 +3,7 @@ package items
 import (
 	"math/rand"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/msaf1980/go-matcher/pkg/utils"
 )
@@ -28,15 +29,19 @@ func (item *RunesRanges) Equal(a Item) bool {
 }
 
 func (item *RunesRanges) WriteRandom(buf *strings.Builder) {
-	if !item.ASCII.IsEmpty() {
-		var i byte
-		for i = 1; i < 128; i++ {
-			if item.ASCII.Contains(i) {
-				buf.WriteByte(i)
-			}
+	ascii := item.ASCII.StringAll()
+	n := rand.Intn(len(ascii) + len(item.UnicodeRanges))
+	if n < len(ascii) {
+		buf.WriteByte(ascii[n])
+	} else {
+		r := item.UnicodeRanges[n-len(ascii)]
+		c := r.First + rune(rand.Intn(int(r.Last-r.First)+1))
+		if !utf8.ValidRune(c) {
+			// surrogates
+			c = r.First
 		}
+		buf.WriteRune(c)
 	}
-	buf.WriteRune(item.UnicodeRanges[rand.Intn(len(item.UnicodeRanges))].First)
 }
 
 func (item *RunesRanges) WriteString(buf *strings.Builder) string {
-- 
2.43.0


From 36995e82665abec6e36cbab57fce58684d873f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 19/42] fix: count dots in the max length of a path glob

---
 gglob/gglob.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gglob/gglob.go b/gglob/gglob.go
index 6e5b4cc..3babf1d 100644
--- a/gglob/gglob.go
+++ b/gglob/gglob.go
@@ -104,6 +104,11 @@ func Parse(s string) (gg *GGlob, err error) {
 		gg.MaxLen = items.AddMaxLen(gg.MaxLen, g.MaxLen)
 	}
 
+	if gg.MaxLen != -1 && len(gg.Parts) > 1 {
+		// dots between parts
+		gg.MaxLen += len(gg.Parts) - 1
+	}
+
 	var buf strings.Builder
 	buf.Grow(len(s))
 	for i, g := range gg.Parts {
-- 
2.43.0


From 869a4744cde5cf72aea9c485f1ef4a48e2b018ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 20/42] fix: reject a path glob with an empty last part

---
 gglob/gglob.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gglob/gglob.go b/gglob/gglob.go
index 3babf1d..b3fcc6a 100644
--- a/gglob/gglob.go
+++ b/gglob/gglob.go
@@ -88,8 +88,8 @@ func Parse(s string) (gg *GGlob, err error) {
 	gg = &GGlob{Glob: s, Parts: make([]*glob.Glob, 0, level)}
 
 	nextParts := s
-	for nextParts != "" {
-		part, nextParts, _ = strings.Cut(nextParts, ".")
+	for ok := s != ""; ok; {
+		part, nextParts, ok = strings.Cut(nextParts, ".")
 		if part == "" {
 			err = items.ErrNodeEmpty{s}
 			return
-- 
2.43.0


From 60e2b955c3b7372216cdb583c75a3acd52fc0d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 21/42] fix: PathSplitB lost an empty last part

---
 gglob/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gglob/utils.go b/gglob/utils.go
index 8578b96..b583715 100644
--- a/gglob/utils.go
+++ b/gglob/utils.go
@@ -41,8 +41,8 @@ func PathSplitB(path string, parts *[]string) (ok bool) {
 	}
 
 	var part string
-	for path != "" {
-		part, path, _ = strings.Cut(path, ".")
+	for next := path != ""; next; {
+		part, path, next = strings.Cut(path, ".")
 		if part == "" {
 			return
 		}
-- 
2.43.0


From 4e5599a62ce3fae1885da5fbaa3186a54e854b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 22/42] fix: GGlobTree.AddGlob lost the normalized glob

---
 gglob/gtree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gglob/gtree.go b/gglob/gtree.go
index 4db72ae..8e4ac4c 100644
--- a/gglob/gtree.go
+++ b/gglob/gtree.go
@@ -226,6 +226,7 @@ func (gtree *GGlobTree) AddGlob(g *GGlob, index int) (normalized string, n int,
 		err = glob.ErrIndexDup
 		return
 	}
+	normalized = g.Node
 
 	addGGlob(gtree.Root, g, index)
 
-- 
2.43.0


From 4303bfa738050b03bd983c7876d3c1f51f5bd0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 23/42] fix: don't skip tags when the key of a != term is
 absent

---
 gtags/tagged_term.go | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/gtags/tagged_term.go b/gtags/tagged_term.go
index bd5bd34..af609fa 100644
--- a/gtags/tagged_term.go
+++ b/gtags/tagged_term.go
@@ -142,28 +142,19 @@ func (terms TaggedTermList) MatchByTags(tags []Tag) bool {
 	var i int
 LOOP:
 	for _, term := range terms {
-		if len(tags) == i {
+		// scan for tag (don't skip tags before the next terms, if not found)
+		pos := i
+		for pos < len(tags) && tags[pos].Key != term.Key {
+			pos++
+		}
+		if pos == len(tags) {
 			if term.Op == TaggedTermNe || term.Op == TaggedTermNotMatch {
 				// != and ~=! can be skiped and key can not exist
 				continue LOOP
 			}
 			return false
 		}
-		if term.Key != tags[i].Key {
-			// scan for tag
-			for ; i < len(tags); i++ {
-				if tags[i].Key == term.Key {
-					break
-				}
-			}
-			if len(tags) == i {
-				if term.Op == TaggedTermNe || term.Op == TaggedTermNotMatch {
-					// != and ~=! can be skiped and key can not exist
-					continue LOOP
-				}
-				return false
-			}
-		}
+		i = pos
 		if !term.Match(tags[i].Value) {
 			return false
 		}
-- 
2.43.0


From 8e4b11f137f9ef93bc1abb03d2f92a77a997ed57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 24/42] fix: report and count seriesByTag() without terms in
 GTagsTree

---
 gtags/tree.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gtags/tree.go b/gtags/tree.go
index fbc765f..a8d14c3 100644
--- a/gtags/tree.go
+++ b/gtags/tree.go
@@ -117,12 +117,19 @@ func (gtree *GTagsTree) AddTerms(terms TaggedTermList, index int) (normalized st
 }
 
 func (gtree *GTagsTree) MatchByTagsMap(tags map[string]string, store items.Store) (matched int) {
-	return gtree.Root.MatchByTagsMap(tags, store)
+	if gtree.Terminate {
+		store.Store(gtree.Terminated.Query, gtree.Terminated.Index)
+		matched++
+	}
+	matched += gtree.Root.MatchByTagsMap(tags, store)
+	return
 }
 
 func (gtree *GTagsTree) MatchByTags(tags []Tag, store items.Store) (matched int) {
 	if gtree.Terminate {
 		store.Store(gtree.Terminated.Query, gtree.Terminated.Index)
+		matched++
 	}
-	return gtree.Root.MatchByTags(tags, store)
+	matched += gtree.Root.MatchByTags(tags, store)
+	return
 }
-- 
2.43.0


From e398f88a34d4007ca91cb4e0bc0c8f507f905f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:22 +0000
Subject: [PATCH 25/42] fix: GTagsTree.AddTerms lost the query

---
 gtags/tree.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gtags/tree.go b/gtags/tree.go
index a8d14c3..020af16 100644
--- a/gtags/tree.go
+++ b/gtags/tree.go
@@ -99,13 +99,17 @@ func (gtree *GTagsTree) AddTerms(terms TaggedTermList, index int) (normalized st
 		err = glob.ErrIndexDup
 		return
 	}
+	normalized = terms.String()
 
 	if len(terms) == 0 {
 		gtree.Terminated = items.Terminated{
 			Terminate: true, Index: index, Query: normalized,
 		}
 	} else {
-		gtree.Root.Parse(terms, normalized, index)
+		lastItem := gtree.Root.Parse(terms, normalized, index)
+		lastItem.Terminate = true
+		lastItem.Query = normalized
+		lastItem.Index = index
 	}
 
 	gtree.Queries[normalized] = index
-- 
2.43.0


From 2acde2dbb180fc7a4b9e8ee6ff0e5af19d12f0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 26/42] fix: match != terms of GTagsTree against no tags at all

---
 gtags/items.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/gtags/items.go b/gtags/items.go
index 4bb5e3c..4ebfbe3 100644
--- a/gtags/items.go
+++ b/gtags/items.go
@@ -253,10 +253,6 @@ func (item *TaggedItem) Parse(terms TaggedTermList, query string, index int) (la
 }
 
 func (item *TaggedItem) MatchByTagsMap(tags map[string]string, store items.Store) (matched int) {
-	if len(tags) == 0 {
-		return
-	}
-
 	for i := 0; i < len(item.Items); i++ {
 		v, ok := tags[item.Items[i].Key]
 		if ok {
@@ -303,10 +299,6 @@ func (item *TaggedItem) MatchByTagsMap(tags map[string]string, store items.Store
 }
 
 func (item *TaggedItem) MatchByTags(tags []Tag, store items.Store) (matched int) {
-	if len(tags) == 0 {
-		return
-	}
-
 	matchPos := 0
 
 	for i := 0; i < len(item.Items); i++ {
-- 
2.43.0


From e0999d7714ba60950c26500da6dfe72f471b1b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 27/42] fix: reject seriesByTag terms with a blank key

---
 gtags/tagged_term.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gtags/tagged_term.go b/gtags/tagged_term.go
index af609fa..79caf2c 100644
--- a/gtags/tagged_term.go
+++ b/gtags/tagged_term.go
@@ -248,6 +248,9 @@ func ParseTaggedConditions(conditions []string) (terms TaggedTermList, err error
 			return nil, ErrExprInvalid{s}
 		}
 		terms[i].Key = strings.TrimSpace(s[:pos])
+		if terms[i].Key == "" {
+			return nil, ErrExprInvalid{s}
+		}
 		s = s[pos:]
 		if strings.HasPrefix(s, "=") {
 			if strings.HasPrefix(s, "=~") {
-- 
2.43.0


From d5c73c701d2725d4085a4e4b2a2287c14b439236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 28/42] fix: write = terms with a value like ~v so that they
 are not read as =~

---
 gtags/tagged_term.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gtags/tagged_term.go b/gtags/tagged_term.go
index 79caf2c..e7df5a0 100644
--- a/gtags/tagged_term.go
+++ b/gtags/tagged_term.go
@@ -42,6 +42,10 @@ type TaggedTerm struct {
 func (t TaggedTerm) WriteString(buf *strings.Builder) {
 	buf.WriteString(t.Key)
 	buf.WriteString(t.Op.String())
+	if (t.Op == TaggedTermEq || t.Op == TaggedTermNe) && strings.HasPrefix(t.Value, "~") {
+		// not a regexp operator
+		buf.WriteByte(' ')
+	}
 	buf.WriteString(t.Value)
 }
 
-- 
2.43.0


From c10eaa4a6b8973bbd29f759d7b378d08bce6171c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:02 +0000
Subject: [PATCH 29/42] fix: quote seriesByTag terms which hold a single quote
 with double quotes

---
 gtags/tagged_term.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gtags/tagged_term.go b/gtags/tagged_term.go
index e7df5a0..9cbbf1a 100644
--- a/gtags/tagged_term.go
+++ b/gtags/tagged_term.go
@@ -112,9 +112,13 @@ func (t TaggedTermList) WriteString(buf *strings.Builder) {
 		if i > 0 {
 			buf.WriteByte(',')
 		}
-		buf.WriteByte('\'')
+		quote := byte('\'')
+		if strings.IndexByte(t[i].Key, quote) != -1 || strings.IndexByte(t[i].Value, quote) != -1 {
+			quote = '"'
+		}
+		buf.WriteByte(quote)
 		t[i].WriteString(buf)
-		buf.WriteByte('\'')
+		buf.WriteByte(quote)
 	}
 	buf.WriteString(")")
 }
-- 
2.43.0


From 51728a977711fcc54187ac5f290fd27671644c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:25 +0000
Subject: [PATCH 30/42] fix: reject a tagged path with a tag not delimited with
 = before others

---
 gtags/tagged_term.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gtags/tagged_term.go b/gtags/tagged_term.go
index 9cbbf1a..036c368 100644
--- a/gtags/tagged_term.go
+++ b/gtags/tagged_term.go
@@ -384,6 +384,11 @@ func GraphitePathTags(path string) (tags []Tag, err error) {
 func NextTag(tags string) (tag, value, next string, found bool) {
 	tag, next, found = strings.Cut(tags, "=")
 	if found {
+		if strings.IndexByte(tag, '&') != -1 {
+			// the first tag is not delimited with =
+			found = false
+			return
+		}
 		value, next, _ = strings.Cut(next, "&")
 	}
 	return
@@ -392,6 +397,11 @@ func NextTag(tags string) (tag, value, next string, found bool) {
 func GraphiteNextTag(tags string) (tag, value, next string, found bool) {
 	tag, next, found = strings.Cut(tags, "=")
 	if found {
+		if strings.IndexByte(tag, ';') != -1 {
+			// the first tag is not delimited with =
+			found = false
+			return
+		}
 		value, next, _ = strings.Cut(next, ";")
 	}
 	return
-- 
2.43.0


From a49290c9506d5739bae8622ece2e88f3bf176ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 31/42] fix: don't panic on expand of empty expressions only,
 like {}

---
 expand/expand.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/expand/expand.go b/expand/expand.go
index 755c61f..d9549dc 100644
--- a/expand/expand.go
+++ b/expand/expand.go
@@ -240,6 +240,11 @@ func ParseExpr(in string) (e *Expressions) {
 		start, stop = getPair(in)
 	}
 
+	if len(e.exps) == 0 {
+		// only empty expressions, like {} or []
+		e.exps = append(e.exps, Expression{})
+	}
+
 	last := len(e.exps) - 1
 	if e.exps[last].typ == expWildcard {
 		s := e.exps[last].body
-- 
2.43.0


From d5ced6073982bacea3434588eb3d1b09bf80c768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 32/42] fix: keep the brackets of a malformed class on expand

---
 expand/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expand/expression.go b/expand/expression.go
index aceba7d..6203db9 100644
--- a/expand/expression.go
+++ b/expand/expression.go
@@ -143,7 +143,7 @@ func getExpression(in string) Expression {
 			// return rune{in}
 			rs, ok := runesRangeExpand(in)
 			if !ok {
-				return Expression{typ: expWildcard, body: in}
+				return Expression{typ: expWildcard, body: orig}
 			}
 			if len(rs) == 0 {
 				return Expression{body: ""}
-- 
2.43.0


From 5785acc7e9517e286b987dec99363e0a1f9ebbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:14 +0000
Subject: [PATCH 33/42] fix: expand NUL in a class

---
 expand/runes.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expand/runes.go b/expand/runes.go
index e6edd8f..4e60ec4 100644
--- a/expand/runes.go
+++ b/expand/runes.go
@@ -35,7 +35,7 @@ func runesRangeMerge(rs []runes) []runes {
 					}
 					// skip to next, merged
 					i++
-					rs[i].stop = 0
+					rs[i].stop = -1
 				} else {
 					break
 				}
@@ -44,9 +44,9 @@ func runesRangeMerge(rs []runes) []runes {
 
 		if pos != j {
 			rs[j] = rs[pos]
-			rs[pos].stop = 0
+			rs[pos].stop = -1
 		}
-		if rs[j].stop != 0 {
+		if rs[j].stop != -1 {
 			j++
 		}
 	}
-- 
2.43.0


From 97281c4ce1d8dd3e87da470a22ef066cfef6ad17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:59 +0000
Subject: [PATCH 34/42] fix: don't expand a class to wildcard symbols, like
 [)-+] to *

---
 expand/expression.go |  4 ++++
 expand/runes.go      | 12 ++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/expand/expression.go b/expand/expression.go
index 6203db9..30e97a3 100644
--- a/expand/expression.go
+++ b/expand/expression.go
@@ -148,6 +148,10 @@ func getExpression(in string) Expression {
 			if len(rs) == 0 {
 				return Expression{body: ""}
 			}
+			if runesRangeHasWildcard(rs) {
+				// can't be written without a class, like [)-+]
+				return Expression{typ: expWildcard, body: orig}
+			}
 			return Expression{typ: expRunes, body: orig, runes: rs}
 		}
 	default:
diff --git a/expand/runes.go b/expand/runes.go
index 4e60ec4..ee6ae0e 100644
--- a/expand/runes.go
+++ b/expand/runes.go
@@ -115,6 +115,18 @@ func runesRangeExpand(s string) (rs []runes, ok bool) {
 	return rs, true
 }
 
+// runesRangeHasWildcard returns true, if a range contains a wildcard symbol
+func runesRangeHasWildcard(rs []runes) bool {
+	for _, c := range "[]{}*?" {
+		for i := 0; i < len(rs); i++ {
+			if rs[i].start <= c && c <= rs[i].stop {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func (r *runes) count() int {
 	return int(r.stop - r.start + 1)
 }
-- 
2.43.0


From 563319fefe6a6665a9779745d47d798d4ecf2ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 35/42] fix: don't preallocate results out of the limits on
 expand

---
 expand/expand.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/expand/expand.go b/expand/expand.go
index d9549dc..0ec88a8 100644
--- a/expand/expand.go
+++ b/expand/expand.go
@@ -14,6 +14,9 @@ var (
 	asciiSet = utils.MakeASCIISetMust("[]{}*?")
 )
 
+// maxPrealloc is the limit of results, preallocated before expand
+const maxPrealloc = 4096
+
 // Expand takes the string contains the shell expansion expression and returns list of strings after they are expanded (from begin).
 //
 // Argument max for restict max expanded results, > 0 - restuct  max expamnded results, 0 - disables expand, -1 - unlimited, etc.
@@ -91,6 +94,11 @@ func (e *Expressions) Expand(max, depth int, try bool) ([]string, error) {
 		if e.exps[i].typ == expWildcard {
 			break
 		}
+		if count > maxPrealloc {
+			// only a hint, the result may be limited
+			count = maxPrealloc
+			break
+		}
 	}
 
 	result := make([]string, 0, count)
-- 
2.43.0


From 05a3dd7a100405aa75b58be30f1cbb182533fd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 36/42] fix: reset parsed expressions after ExpandTry, they may
 be expanded again

---
 expand/expand.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/expand/expand.go b/expand/expand.go
index 0ec88a8..60b35fb 100644
--- a/expand/expand.go
+++ b/expand/expand.go
@@ -166,6 +166,7 @@ func expand(exps []Expression, result []string, count, max, depth int, try bool,
 			}
 
 			if try {
+				exps[0].reset()
 				break
 			}
 		}
-- 
2.43.0


From b6768028998c1d69495a83b635dcdb2aabe4333b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:01 +0000
Subject: [PATCH 37/42] fix: escapeTo lost the last symbol after an escaped one

---
 pkg/escape/url.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/escape/url.go b/pkg/escape/url.go
index bedba35..bb53e93 100644
--- a/pkg/escape/url.go
+++ b/pkg/escape/url.go
@@ -182,7 +182,7 @@ func escapeTo(s string, mode encoding, sb *bytes.Buffer) {
 	if pos == 0 {
 		sb.WriteString(s)
 		return
-	} else if pos < len(s)-1 {
+	} else if pos < len(s) {
 		sb.WriteString(s[pos:])
 	}
 }
-- 
2.43.0


From f67ae1e86449f0891a6d647e08f5842b7d7111d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:02 +0000
Subject: [PATCH 38/42] fix: return the position of an ASCII symbol from
 RunesRanges.EndsWith

---
 pkg/utils/runesranges.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/utils/runesranges.go b/pkg/utils/runesranges.go
index e2af2df..f6065dc 100644
--- a/pkg/utils/runesranges.go
+++ b/pkg/utils/runesranges.go
@@ -353,7 +353,7 @@ func (rs *RunesRanges) EndsWith(s string) (c rune, n int) {
 	// detect ASCII
 	if c < utf8.RuneSelf {
 		if rs.ASCII.Contains(byte(c)) {
-			return c, 1
+			return c, len(s) - n
 		} else {
 			return utf8.RuneError, -1
 		}
-- 
2.43.0


From d9a1e203fa2b29bb26ede7d1d66db3d31e56d9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 39/42] fix: init the lowest index of a new AllStore

---
 pkg/items/store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/items/store.go b/pkg/items/store.go
index d807e3d..20a732d 100644
--- a/pkg/items/store.go
+++ b/pkg/items/store.go
@@ -81,7 +81,7 @@ type AllStore struct {
 }
 
 func NewAllStore() *AllStore {
-	return &AllStore{}
+	return &AllStore{Min: MinStore{-1}}
 }
 
 func (s *AllStore) Init() {
-- 
2.43.0


From 244bd997f483f31ea47c15f674c689c5b176982d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 40/42] fix: return the position from Byte.MatchLast

---
 pkg/items/byte.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/items/byte.go b/pkg/items/byte.go
index 2367cd6..86c5c4b 100644
--- a/pkg/items/byte.go
+++ b/pkg/items/byte.go
@@ -72,8 +72,8 @@ func (item Byte) Match(s string) (offset int, support FindFlag) {
 }
 
 func (item Byte) MatchLast(s string) (offset int, support FindFlag) {
-	n := len(s) - 1
-	if c := s[n]; c != byte(item) {
+	offset = len(s) - 1
+	if s == "" || s[offset] != byte(item) {
 		offset = -1
 	}
 	return
-- 
2.43.0


From 078ad86237b43e04bb1e7d00c006e865e3b253cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:54 +0000
Subject: [PATCH 41/42] fix: compare all globs in IntersectGlobs, not the first
 with itself

---
 pkg/items/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/items/utils.go b/pkg/items/utils.go
index f390c17..d7d5474 100644
--- a/pkg/items/utils.go
+++ b/pkg/items/utils.go
@@ -57,7 +57,7 @@ func IntersectGlobs(globs []string) string {
 				// glob shortest item
 				return globs[0][:pos]
 			}
-			c, _ := utf8.DecodeRuneInString(globs[0][pos:])
+			c, _ := utf8.DecodeRuneInString(globs[i][pos:])
 			if c0 != c {
 				return globs[0][:pos]
 			}
-- 
2.43.0


From fbcdb676e1ad06f2721dde6a2ddb329f2c556efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 42/42] fix: count of results overflows with a huge limit of
 expand

---
 expand/expand.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expand/expand.go b/expand/expand.go
index 60b35fb..a5a2dbf 100644
--- a/expand/expand.go
+++ b/expand/expand.go
@@ -125,6 +125,10 @@ func expand(exps []Expression, result []string, count, max, depth int, try bool,
 	cur := len(buf)
 
 	if max > 0 {
+		if count > 0 && exps[0].count() > max/count {
+			// not fit, even if the product below overflows
+			max = 0
+		}
 		if count <= 0 {
 			count = 1
 		}
-- 
2.43.0


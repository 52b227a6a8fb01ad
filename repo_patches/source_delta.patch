From 5e2d60ab5db1b8ff0814dff35922c478b391f481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:31 +0000
Subject: [PATCH 1/5] fix: Store and LoadOrStore must not return before the key
 they found is linked

A node which is not fully linked is invisible to Load and Delete, so a Store
that replaced its value could return and the same goroutine's next Load
reported the key as absent.
---
 gen_func.go        | 21 ++++++++++++---------
 gen_int.go         | 21 ++++++++++++---------
 gen_int32.go       | 21 ++++++++++++---------
 gen_int32desc.go   | 21 ++++++++++++---------
 gen_int64.go       | 21 ++++++++++++---------
 gen_int64desc.go   | 21 ++++++++++++---------
 gen_intdesc.go     | 21 ++++++++++++---------
 gen_ordered.go     | 21 ++++++++++++---------
 gen_ordereddesc.go | 21 ++++++++++++---------
 gen_string.go      | 21 ++++++++++++---------
 gen_stringdesc.go  | 21 ++++++++++++---------
 gen_uint.go        | 21 ++++++++++++---------
 gen_uint32.go      | 21 ++++++++++++---------
 gen_uint32desc.go  | 21 ++++++++++++---------
 gen_uint64.go      | 21 ++++++++++++---------
 gen_uint64desc.go  | 21 ++++++++++++---------
 gen_uintdesc.go    | 21 ++++++++++++---------
 skipmap.tpl        | 21 ++++++++++++---------
 18 files changed, 216 insertions(+), 162 deletions(-)

diff --git a/gen_func.go b/gen_func.go
index 8653cae..980fa19 100644
--- a/gen_func.go
+++ b/gen_func.go
@@ -123,14 +123,15 @@ func (s *FuncMap[keyT, valueT]) Store(key keyT, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -289,13 +290,14 @@ func (s *FuncMap[keyT, valueT]) LoadOrStore(key keyT, value valueT) (actual valu
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -359,13 +361,14 @@ func (s *FuncMap[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT) (actu
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
diff --git a/gen_int.go b/gen_int.go
index d833df1..9e67607 100644
--- a/gen_int.go
+++ b/gen_int.go
@@ -121,14 +121,15 @@ func (s *IntMap[valueT]) Store(key int, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -287,13 +288,14 @@ func (s *IntMap[valueT]) LoadOrStore(key int, value valueT) (actual valueT, load
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -357,13 +359,14 @@ func (s *IntMap[valueT]) LoadOrStoreLazy(key int, f func() valueT) (actual value
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
diff --git a/gen_int32.go b/gen_int32.go
index 0e934b6..4dd1b83 100644
--- a/gen_int32.go
+++ b/gen_int32.go
@@ -121,14 +121,15 @@ func (s *Int32Map[valueT]) Store(key int32, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -287,13 +288,14 @@ func (s *Int32Map[valueT]) LoadOrStore(key int32, value valueT) (actual valueT,
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -357,13 +359,14 @@ func (s *Int32Map[valueT]) LoadOrStoreLazy(key int32, f func() valueT) (actual v
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
diff --git a/gen_int32desc.go b/gen_int32desc.go
index 40d61e1..01905a7 100644
--- a/gen_int32desc.go
+++ b/gen_int32desc.go
@@ -121,14 +121,15 @@ func (s *Int32MapDesc[valueT]) Store(key int32, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -287,13 +288,14 @@ func (s *Int32MapDesc[valueT]) LoadOrStore(key int32, value valueT) (actual valu
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -357,13 +359,14 @@ func (s *Int32MapDesc[valueT]) LoadOrStoreLazy(key int32, f func() valueT) (actu
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
diff --git a/gen_int64.go b/gen_int64.go
index e089813..b6cff69 100644
--- a/gen_int64.go
+++ b/gen_int64.go
@@ -121,14 +121,15 @@ func (s *Int64Map[valueT]) Store(key int64, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -287,13 +288,14 @@ func (s *Int64Map[valueT]) LoadOrStore(key int64, value valueT) (actual valueT,
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -357,13 +359,14 @@ func (s *Int64Map[valueT]) LoadOrStoreLazy(key int64, f func() valueT) (actual v
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
diff --git a/gen_int64desc.go b/gen_int64desc.go
index 3fa40fa..a5923a6 100644
--- a/gen_int64desc.go
+++ b/gen_int64desc.go
@@ -121,14 +121,15 @@ func (s *Int64MapDesc[valueT]) Store(key int64, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -287,13 +288,14 @@ func (s *Int64MapDesc[valueT]) LoadOrStore(key int64, value valueT) (actual valu
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -357,13 +359,14 @@ func (s *Int64MapDesc[valueT]) LoadOrStoreLazy(key int64, f func() valueT) (actu
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
diff --git a/gen_intdesc.go b/gen_intdesc.go
index eb274b5..9360f6f 100644
--- a/gen_intdesc.go
+++ b/gen_intdesc.go
@@ -121,14 +121,15 @@ func (s *IntMapDesc[valueT]) Store(key int, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -287,13 +288,14 @@ func (s *IntMapDesc[valueT]) LoadOrStore(key int, value valueT) (actual valueT,
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -357,13 +359,14 @@ func (s *IntMapDesc[valueT]) LoadOrStoreLazy(key int, f func() valueT) (actual v
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
diff --git a/gen_ordered.go b/gen_ordered.go
index c1c5abb..08e3fe5 100644
--- a/gen_ordered.go
+++ b/gen_ordered.go
@@ -121,14 +121,15 @@ func (s *OrderedMap[keyT, valueT]) Store(key keyT, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -287,13 +288,14 @@ func (s *OrderedMap[keyT, valueT]) LoadOrStore(key keyT, value valueT) (actual v
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -357,13 +359,14 @@ func (s *OrderedMap[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT) (a
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
diff --git a/gen_ordereddesc.go b/gen_ordereddesc.go
index 6a944f9..0d9cde2 100644
--- a/gen_ordereddesc.go
+++ b/gen_ordereddesc.go
@@ -121,14 +121,15 @@ func (s *OrderedMapDesc[keyT, valueT]) Store(key keyT, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -287,13 +288,14 @@ func (s *OrderedMapDesc[keyT, valueT]) LoadOrStore(key keyT, value valueT) (actu
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -357,13 +359,14 @@ func (s *OrderedMapDesc[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
diff --git a/gen_string.go b/gen_string.go
index 6e46134..efa74ef 100644
--- a/gen_string.go
+++ b/gen_string.go
@@ -121,14 +121,15 @@ func (s *StringMap[valueT]) Store(key string, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -287,13 +288,14 @@ func (s *StringMap[valueT]) LoadOrStore(key string, value valueT) (actual valueT
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -357,13 +359,14 @@ func (s *StringMap[valueT]) LoadOrStoreLazy(key string, f func() valueT) (actual
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
diff --git a/gen_stringdesc.go b/gen_stringdesc.go
index b28a632..220bc58 100644
--- a/gen_stringdesc.go
+++ b/gen_stringdesc.go
@@ -121,14 +121,15 @@ func (s *StringMapDesc[valueT]) Store(key string, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -287,13 +288,14 @@ func (s *StringMapDesc[valueT]) LoadOrStore(key string, value valueT) (actual va
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -357,13 +359,14 @@ func (s *StringMapDesc[valueT]) LoadOrStoreLazy(key string, f func() valueT) (ac
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
diff --git a/gen_uint.go b/gen_uint.go
index d266c27..9d12ee3 100644
--- a/gen_uint.go
+++ b/gen_uint.go
@@ -121,14 +121,15 @@ func (s *UintMap[valueT]) Store(key uint, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -287,13 +288,14 @@ func (s *UintMap[valueT]) LoadOrStore(key uint, value valueT) (actual valueT, lo
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -357,13 +359,14 @@ func (s *UintMap[valueT]) LoadOrStoreLazy(key uint, f func() valueT) (actual val
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
diff --git a/gen_uint32.go b/gen_uint32.go
index 648c8e1..53a6891 100644
--- a/gen_uint32.go
+++ b/gen_uint32.go
@@ -121,14 +121,15 @@ func (s *Uint32Map[valueT]) Store(key uint32, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -287,13 +288,14 @@ func (s *Uint32Map[valueT]) LoadOrStore(key uint32, value valueT) (actual valueT
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -357,13 +359,14 @@ func (s *Uint32Map[valueT]) LoadOrStoreLazy(key uint32, f func() valueT) (actual
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
diff --git a/gen_uint32desc.go b/gen_uint32desc.go
index c994276..cf7aa1e 100644
--- a/gen_uint32desc.go
+++ b/gen_uint32desc.go
@@ -121,14 +121,15 @@ func (s *Uint32MapDesc[valueT]) Store(key uint32, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -287,13 +288,14 @@ func (s *Uint32MapDesc[valueT]) LoadOrStore(key uint32, value valueT) (actual va
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -357,13 +359,14 @@ func (s *Uint32MapDesc[valueT]) LoadOrStoreLazy(key uint32, f func() valueT) (ac
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
diff --git a/gen_uint64.go b/gen_uint64.go
index e29247f..51d1804 100644
--- a/gen_uint64.go
+++ b/gen_uint64.go
@@ -121,14 +121,15 @@ func (s *Uint64Map[valueT]) Store(key uint64, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -287,13 +288,14 @@ func (s *Uint64Map[valueT]) LoadOrStore(key uint64, value valueT) (actual valueT
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -357,13 +359,14 @@ func (s *Uint64Map[valueT]) LoadOrStoreLazy(key uint64, f func() valueT) (actual
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
diff --git a/gen_uint64desc.go b/gen_uint64desc.go
index 9d24953..55982fc 100644
--- a/gen_uint64desc.go
+++ b/gen_uint64desc.go
@@ -121,14 +121,15 @@ func (s *Uint64MapDesc[valueT]) Store(key uint64, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -287,13 +288,14 @@ func (s *Uint64MapDesc[valueT]) LoadOrStore(key uint64, value valueT) (actual va
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -357,13 +359,14 @@ func (s *Uint64MapDesc[valueT]) LoadOrStoreLazy(key uint64, f func() valueT) (ac
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
diff --git a/gen_uintdesc.go b/gen_uintdesc.go
index 106d4e5..7a77f4f 100644
--- a/gen_uintdesc.go
+++ b/gen_uintdesc.go
@@ -121,14 +121,15 @@ func (s *UintMapDesc[valueT]) Store(key uint, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -287,13 +288,14 @@ func (s *UintMapDesc[valueT]) LoadOrStore(key uint, value valueT) (actual valueT
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -357,13 +359,14 @@ func (s *UintMapDesc[valueT]) LoadOrStoreLazy(key uint, f func() valueT) (actual
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
diff --git a/skipmap.tpl b/skipmap.tpl
index 0f6aea7..fe322b0 100644
--- a/skipmap.tpl
+++ b/skipmap.tpl
@@ -120,14 +120,15 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) Store(key {{.Ke
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -286,13 +287,14 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) LoadOrStore(key
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
@@ -356,13 +358,14 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) LoadOrStoreLazy
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// Just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
+			// If the node is not fully linked, some other goroutine is in the process of adding it: Load and Delete
+			// do not see it yet, so we must not return before it is linked.
 			continue
 		}
 
-- 
2.43.0


From abce1653b67eb4df4a5cc0446680f478f427ca1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:39 +0000
Subject: [PATCH 2/5] fix: Store must not lose its value to a concurrent
 LoadAndDelete

Store could replace the value of a node after LoadAndDelete had marked the
node and read its value: the stored value was neither returned nor kept.
---
 gen_func.go        | 29 +++++++++++++++++++++++++----
 gen_int.go         | 29 +++++++++++++++++++++++++----
 gen_int32.go       | 29 +++++++++++++++++++++++++----
 gen_int32desc.go   | 29 +++++++++++++++++++++++++----
 gen_int64.go       | 29 +++++++++++++++++++++++++----
 gen_int64desc.go   | 29 +++++++++++++++++++++++++----
 gen_intdesc.go     | 29 +++++++++++++++++++++++++----
 gen_ordered.go     | 29 +++++++++++++++++++++++++----
 gen_ordereddesc.go | 29 +++++++++++++++++++++++++----
 gen_string.go      | 29 +++++++++++++++++++++++++----
 gen_stringdesc.go  | 29 +++++++++++++++++++++++++----
 gen_uint.go        | 29 +++++++++++++++++++++++++----
 gen_uint32.go      | 29 +++++++++++++++++++++++++----
 gen_uint32desc.go  | 29 +++++++++++++++++++++++++----
 gen_uint64.go      | 29 +++++++++++++++++++++++++----
 gen_uint64desc.go  | 29 +++++++++++++++++++++++++----
 gen_uintdesc.go    | 29 +++++++++++++++++++++++++----
 skipmap.tpl        | 29 +++++++++++++++++++++++++----
 18 files changed, 450 insertions(+), 72 deletions(-)

diff --git a/gen_func.go b/gen_func.go
index 980fa19..d5b3363 100644
--- a/gen_func.go
+++ b/gen_func.go
@@ -46,6 +46,23 @@ func (n *funcnode[keyT, valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if the node still holds the one old points to.
+func (n *funcnode[keyT, valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the value of a marked node, and moves it: a Store which found the node before it was marked
+// can no longer replace the value.
+func (n *funcnode[keyT, valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *funcnode[keyT, valueT]) loadNext(i int) *funcnode[keyT, valueT] {
 	return (*funcnode[keyT, valueT])(n.next.load(i))
 }
@@ -123,10 +140,14 @@ func (s *FuncMap[keyT, valueT]) Store(key keyT, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			old := atomic.LoadPointer(&nodeFound.value) // must be read before the flags
 			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// Just replace the value.
-				nodeFound.storeVal(value)
-				return
+				// Just replace the value. It fails if the value has been replaced, or taken by a deletion,
+				// since we read it: try again.
+				if nodeFound.casVal(old, value) {
+					return
+				}
+				continue
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -271,7 +292,7 @@ func (s *FuncMap[keyT, valueT]) LoadAndDelete(key keyT) (value valueT, loaded bo
 			nodeToDelete.mu.Unlock()
 			unlockfunc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_int.go b/gen_int.go
index 9e67607..ea021ac 100644
--- a/gen_int.go
+++ b/gen_int.go
@@ -44,6 +44,23 @@ func (n *intnode[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if the node still holds the one old points to.
+func (n *intnode[valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the value of a marked node, and moves it: a Store which found the node before it was marked
+// can no longer replace the value.
+func (n *intnode[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *intnode[valueT]) loadNext(i int) *intnode[valueT] {
 	return (*intnode[valueT])(n.next.load(i))
 }
@@ -121,10 +138,14 @@ func (s *IntMap[valueT]) Store(key int, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			old := atomic.LoadPointer(&nodeFound.value) // must be read before the flags
 			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// Just replace the value.
-				nodeFound.storeVal(value)
-				return
+				// Just replace the value. It fails if the value has been replaced, or taken by a deletion,
+				// since we read it: try again.
+				if nodeFound.casVal(old, value) {
+					return
+				}
+				continue
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -269,7 +290,7 @@ func (s *IntMap[valueT]) LoadAndDelete(key int) (value valueT, loaded bool) {
 			nodeToDelete.mu.Unlock()
 			unlockint(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_int32.go b/gen_int32.go
index 4dd1b83..fc41580 100644
--- a/gen_int32.go
+++ b/gen_int32.go
@@ -44,6 +44,23 @@ func (n *int32node[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if the node still holds the one old points to.
+func (n *int32node[valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the value of a marked node, and moves it: a Store which found the node before it was marked
+// can no longer replace the value.
+func (n *int32node[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *int32node[valueT]) loadNext(i int) *int32node[valueT] {
 	return (*int32node[valueT])(n.next.load(i))
 }
@@ -121,10 +138,14 @@ func (s *Int32Map[valueT]) Store(key int32, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			old := atomic.LoadPointer(&nodeFound.value) // must be read before the flags
 			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// Just replace the value.
-				nodeFound.storeVal(value)
-				return
+				// Just replace the value. It fails if the value has been replaced, or taken by a deletion,
+				// since we read it: try again.
+				if nodeFound.casVal(old, value) {
+					return
+				}
+				continue
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -269,7 +290,7 @@ func (s *Int32Map[valueT]) LoadAndDelete(key int32) (value valueT, loaded bool)
 			nodeToDelete.mu.Unlock()
 			unlockint32(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_int32desc.go b/gen_int32desc.go
index 01905a7..a202b33 100644
--- a/gen_int32desc.go
+++ b/gen_int32desc.go
@@ -44,6 +44,23 @@ func (n *int32nodeDesc[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if the node still holds the one old points to.
+func (n *int32nodeDesc[valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the value of a marked node, and moves it: a Store which found the node before it was marked
+// can no longer replace the value.
+func (n *int32nodeDesc[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *int32nodeDesc[valueT]) loadNext(i int) *int32nodeDesc[valueT] {
 	return (*int32nodeDesc[valueT])(n.next.load(i))
 }
@@ -121,10 +138,14 @@ func (s *Int32MapDesc[valueT]) Store(key int32, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			old := atomic.LoadPointer(&nodeFound.value) // must be read before the flags
 			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// Just replace the value.
-				nodeFound.storeVal(value)
-				return
+				// Just replace the value. It fails if the value has been replaced, or taken by a deletion,
+				// since we read it: try again.
+				if nodeFound.casVal(old, value) {
+					return
+				}
+				continue
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -269,7 +290,7 @@ func (s *Int32MapDesc[valueT]) LoadAndDelete(key int32) (value valueT, loaded bo
 			nodeToDelete.mu.Unlock()
 			unlockint32Desc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_int64.go b/gen_int64.go
index b6cff69..f2dbc0a 100644
--- a/gen_int64.go
+++ b/gen_int64.go
@@ -44,6 +44,23 @@ func (n *int64node[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if the node still holds the one old points to.
+func (n *int64node[valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the value of a marked node, and moves it: a Store which found the node before it was marked
+// can no longer replace the value.
+func (n *int64node[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *int64node[valueT]) loadNext(i int) *int64node[valueT] {
 	return (*int64node[valueT])(n.next.load(i))
 }
@@ -121,10 +138,14 @@ func (s *Int64Map[valueT]) Store(key int64, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			old := atomic.LoadPointer(&nodeFound.value) // must be read before the flags
 			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// Just replace the value.
-				nodeFound.storeVal(value)
-				return
+				// Just replace the value. It fails if the value has been replaced, or taken by a deletion,
+				// since we read it: try again.
+				if nodeFound.casVal(old, value) {
+					return
+				}
+				continue
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -269,7 +290,7 @@ func (s *Int64Map[valueT]) LoadAndDelete(key int64) (value valueT, loaded bool)
 			nodeToDelete.mu.Unlock()
 			unlockint64(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_int64desc.go b/gen_int64desc.go
index a5923a6..5de6130 100644
--- a/gen_int64desc.go
+++ b/gen_int64desc.go
@@ -44,6 +44,23 @@ func (n *int64nodeDesc[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if the node still holds the one old points to.
+func (n *int64nodeDesc[valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the value of a marked node, and moves it: a Store which found the node before it was marked
+// can no longer replace the value.
+func (n *int64nodeDesc[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *int64nodeDesc[valueT]) loadNext(i int) *int64nodeDesc[valueT] {
 	return (*int64nodeDesc[valueT])(n.next.load(i))
 }
@@ -121,10 +138,14 @@ func (s *Int64MapDesc[valueT]) Store(key int64, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			old := atomic.LoadPointer(&nodeFound.value) // must be read before the flags
 			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// Just replace the value.
-				nodeFound.storeVal(value)
-				return
+				// Just replace the value. It fails if the value has been replaced, or taken by a deletion,
+				// since we read it: try again.
+				if nodeFound.casVal(old, value) {
+					return
+				}
+				continue
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -269,7 +290,7 @@ func (s *Int64MapDesc[valueT]) LoadAndDelete(key int64) (value valueT, loaded bo
 			nodeToDelete.mu.Unlock()
 			unlockint64Desc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_intdesc.go b/gen_intdesc.go
index 9360f6f..d8a72c3 100644
--- a/gen_intdesc.go
+++ b/gen_intdesc.go
@@ -44,6 +44,23 @@ func (n *intnodeDesc[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if the node still holds the one old points to.
+func (n *intnodeDesc[valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the value of a marked node, and moves it: a Store which found the node before it was marked
+// can no longer replace the value.
+func (n *intnodeDesc[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *intnodeDesc[valueT]) loadNext(i int) *intnodeDesc[valueT] {
 	return (*intnodeDesc[valueT])(n.next.load(i))
 }
@@ -121,10 +138,14 @@ func (s *IntMapDesc[valueT]) Store(key int, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			old := atomic.LoadPointer(&nodeFound.value) // must be read before the flags
 			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// Just replace the value.
-				nodeFound.storeVal(value)
-				return
+				// Just replace the value. It fails if the value has been replaced, or taken by a deletion,
+				// since we read it: try again.
+				if nodeFound.casVal(old, value) {
+					return
+				}
+				continue
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -269,7 +290,7 @@ func (s *IntMapDesc[valueT]) LoadAndDelete(key int) (value valueT, loaded bool)
 			nodeToDelete.mu.Unlock()
 			unlockintDesc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_ordered.go b/gen_ordered.go
index 08e3fe5..77b9833 100644
--- a/gen_ordered.go
+++ b/gen_ordered.go
@@ -44,6 +44,23 @@ func (n *orderednode[keyT, valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if the node still holds the one old points to.
+func (n *orderednode[keyT, valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the value of a marked node, and moves it: a Store which found the node before it was marked
+// can no longer replace the value.
+func (n *orderednode[keyT, valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *orderednode[keyT, valueT]) loadNext(i int) *orderednode[keyT, valueT] {
 	return (*orderednode[keyT, valueT])(n.next.load(i))
 }
@@ -121,10 +138,14 @@ func (s *OrderedMap[keyT, valueT]) Store(key keyT, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			old := atomic.LoadPointer(&nodeFound.value) // must be read before the flags
 			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// Just replace the value.
-				nodeFound.storeVal(value)
-				return
+				// Just replace the value. It fails if the value has been replaced, or taken by a deletion,
+				// since we read it: try again.
+				if nodeFound.casVal(old, value) {
+					return
+				}
+				continue
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -269,7 +290,7 @@ func (s *OrderedMap[keyT, valueT]) LoadAndDelete(key keyT) (value valueT, loaded
 			nodeToDelete.mu.Unlock()
 			unlockordered(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_ordereddesc.go b/gen_ordereddesc.go
index 0d9cde2..229452c 100644
--- a/gen_ordereddesc.go
+++ b/gen_ordereddesc.go
@@ -44,6 +44,23 @@ func (n *orderednodeDesc[keyT, valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if the node still holds the one old points to.
+func (n *orderednodeDesc[keyT, valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the value of a marked node, and moves it: a Store which found the node before it was marked
+// can no longer replace the value.
+func (n *orderednodeDesc[keyT, valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *orderednodeDesc[keyT, valueT]) loadNext(i int) *orderednodeDesc[keyT, valueT] {
 	return (*orderednodeDesc[keyT, valueT])(n.next.load(i))
 }
@@ -121,10 +138,14 @@ func (s *OrderedMapDesc[keyT, valueT]) Store(key keyT, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			old := atomic.LoadPointer(&nodeFound.value) // must be read before the flags
 			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// Just replace the value.
-				nodeFound.storeVal(value)
-				return
+				// Just replace the value. It fails if the value has been replaced, or taken by a deletion,
+				// since we read it: try again.
+				if nodeFound.casVal(old, value) {
+					return
+				}
+				continue
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -269,7 +290,7 @@ func (s *OrderedMapDesc[keyT, valueT]) LoadAndDelete(key keyT) (value valueT, lo
 			nodeToDelete.mu.Unlock()
 			unlockorderedDesc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_string.go b/gen_string.go
index efa74ef..79666f9 100644
--- a/gen_string.go
+++ b/gen_string.go
@@ -44,6 +44,23 @@ func (n *stringnode[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if the node still holds the one old points to.
+func (n *stringnode[valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the value of a marked node, and moves it: a Store which found the node before it was marked
+// can no longer replace the value.
+func (n *stringnode[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *stringnode[valueT]) loadNext(i int) *stringnode[valueT] {
 	return (*stringnode[valueT])(n.next.load(i))
 }
@@ -121,10 +138,14 @@ func (s *StringMap[valueT]) Store(key string, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			old := atomic.LoadPointer(&nodeFound.value) // must be read before the flags
 			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// Just replace the value.
-				nodeFound.storeVal(value)
-				return
+				// Just replace the value. It fails if the value has been replaced, or taken by a deletion,
+				// since we read it: try again.
+				if nodeFound.casVal(old, value) {
+					return
+				}
+				continue
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -269,7 +290,7 @@ func (s *StringMap[valueT]) LoadAndDelete(key string) (value valueT, loaded bool
 			nodeToDelete.mu.Unlock()
 			unlockstring(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_stringdesc.go b/gen_stringdesc.go
index 220bc58..171eeca 100644
--- a/gen_stringdesc.go
+++ b/gen_stringdesc.go
@@ -44,6 +44,23 @@ func (n *stringnodeDesc[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if the node still holds the one old points to.
+func (n *stringnodeDesc[valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the value of a marked node, and moves it: a Store which found the node before it was marked
+// can no longer replace the value.
+func (n *stringnodeDesc[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *stringnodeDesc[valueT]) loadNext(i int) *stringnodeDesc[valueT] {
 	return (*stringnodeDesc[valueT])(n.next.load(i))
 }
@@ -121,10 +138,14 @@ func (s *StringMapDesc[valueT]) Store(key string, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			old := atomic.LoadPointer(&nodeFound.value) // must be read before the flags
 			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// Just replace the value.
-				nodeFound.storeVal(value)
-				return
+				// Just replace the value. It fails if the value has been replaced, or taken by a deletion,
+				// since we read it: try again.
+				if nodeFound.casVal(old, value) {
+					return
+				}
+				continue
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -269,7 +290,7 @@ func (s *StringMapDesc[valueT]) LoadAndDelete(key string) (value valueT, loaded
 			nodeToDelete.mu.Unlock()
 			unlockstringDesc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_uint.go b/gen_uint.go
index 9d12ee3..04f9acc 100644
--- a/gen_uint.go
+++ b/gen_uint.go
@@ -44,6 +44,23 @@ func (n *uintnode[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if the node still holds the one old points to.
+func (n *uintnode[valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the value of a marked node, and moves it: a Store which found the node before it was marked
+// can no longer replace the value.
+func (n *uintnode[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *uintnode[valueT]) loadNext(i int) *uintnode[valueT] {
 	return (*uintnode[valueT])(n.next.load(i))
 }
@@ -121,10 +138,14 @@ func (s *UintMap[valueT]) Store(key uint, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			old := atomic.LoadPointer(&nodeFound.value) // must be read before the flags
 			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// Just replace the value.
-				nodeFound.storeVal(value)
-				return
+				// Just replace the value. It fails if the value has been replaced, or taken by a deletion,
+				// since we read it: try again.
+				if nodeFound.casVal(old, value) {
+					return
+				}
+				continue
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -269,7 +290,7 @@ func (s *UintMap[valueT]) LoadAndDelete(key uint) (value valueT, loaded bool) {
 			nodeToDelete.mu.Unlock()
 			unlockuint(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_uint32.go b/gen_uint32.go
index 53a6891..caec78e 100644
--- a/gen_uint32.go
+++ b/gen_uint32.go
@@ -44,6 +44,23 @@ func (n *uint32node[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if the node still holds the one old points to.
+func (n *uint32node[valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the value of a marked node, and moves it: a Store which found the node before it was marked
+// can no longer replace the value.
+func (n *uint32node[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *uint32node[valueT]) loadNext(i int) *uint32node[valueT] {
 	return (*uint32node[valueT])(n.next.load(i))
 }
@@ -121,10 +138,14 @@ func (s *Uint32Map[valueT]) Store(key uint32, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			old := atomic.LoadPointer(&nodeFound.value) // must be read before the flags
 			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// Just replace the value.
-				nodeFound.storeVal(value)
-				return
+				// Just replace the value. It fails if the value has been replaced, or taken by a deletion,
+				// since we read it: try again.
+				if nodeFound.casVal(old, value) {
+					return
+				}
+				continue
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -269,7 +290,7 @@ func (s *Uint32Map[valueT]) LoadAndDelete(key uint32) (value valueT, loaded bool
 			nodeToDelete.mu.Unlock()
 			unlockuint32(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_uint32desc.go b/gen_uint32desc.go
index cf7aa1e..99bbad5 100644
--- a/gen_uint32desc.go
+++ b/gen_uint32desc.go
@@ -44,6 +44,23 @@ func (n *uint32nodeDesc[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if the node still holds the one old points to.
+func (n *uint32nodeDesc[valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the value of a marked node, and moves it: a Store which found the node before it was marked
+// can no longer replace the value.
+func (n *uint32nodeDesc[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *uint32nodeDesc[valueT]) loadNext(i int) *uint32nodeDesc[valueT] {
 	return (*uint32nodeDesc[valueT])(n.next.load(i))
 }
@@ -121,10 +138,14 @@ func (s *Uint32MapDesc[valueT]) Store(key uint32, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			old := atomic.LoadPointer(&nodeFound.value) // must be read before the flags
 			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// Just replace the value.
-				nodeFound.storeVal(value)
-				return
+				// Just replace the value. It fails if the value has been replaced, or taken by a deletion,
+				// since we read it: try again.
+				if nodeFound.casVal(old, value) {
+					return
+				}
+				continue
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -269,7 +290,7 @@ func (s *Uint32MapDesc[valueT]) LoadAndDelete(key uint32) (value valueT, loaded
 			nodeToDelete.mu.Unlock()
 			unlockuint32Desc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_uint64.go b/gen_uint64.go
index 51d1804..2cf9852 100644
--- a/gen_uint64.go
+++ b/gen_uint64.go
@@ -44,6 +44,23 @@ func (n *uint64node[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if the node still holds the one old points to.
+func (n *uint64node[valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the value of a marked node, and moves it: a Store which found the node before it was marked
+// can no longer replace the value.
+func (n *uint64node[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *uint64node[valueT]) loadNext(i int) *uint64node[valueT] {
 	return (*uint64node[valueT])(n.next.load(i))
 }
@@ -121,10 +138,14 @@ func (s *Uint64Map[valueT]) Store(key uint64, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			old := atomic.LoadPointer(&nodeFound.value) // must be read before the flags
 			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// Just replace the value.
-				nodeFound.storeVal(value)
-				return
+				// Just replace the value. It fails if the value has been replaced, or taken by a deletion,
+				// since we read it: try again.
+				if nodeFound.casVal(old, value) {
+					return
+				}
+				continue
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -269,7 +290,7 @@ func (s *Uint64Map[valueT]) LoadAndDelete(key uint64) (value valueT, loaded bool
 			nodeToDelete.mu.Unlock()
 			unlockuint64(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_uint64desc.go b/gen_uint64desc.go
index 55982fc..6b4ca01 100644
--- a/gen_uint64desc.go
+++ b/gen_uint64desc.go
@@ -44,6 +44,23 @@ func (n *uint64nodeDesc[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if the node still holds the one old points to.
+func (n *uint64nodeDesc[valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the value of a marked node, and moves it: a Store which found the node before it was marked
+// can no longer replace the value.
+func (n *uint64nodeDesc[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *uint64nodeDesc[valueT]) loadNext(i int) *uint64nodeDesc[valueT] {
 	return (*uint64nodeDesc[valueT])(n.next.load(i))
 }
@@ -121,10 +138,14 @@ func (s *Uint64MapDesc[valueT]) Store(key uint64, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			old := atomic.LoadPointer(&nodeFound.value) // must be read before the flags
 			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// Just replace the value.
-				nodeFound.storeVal(value)
-				return
+				// Just replace the value. It fails if the value has been replaced, or taken by a deletion,
+				// since we read it: try again.
+				if nodeFound.casVal(old, value) {
+					return
+				}
+				continue
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -269,7 +290,7 @@ func (s *Uint64MapDesc[valueT]) LoadAndDelete(key uint64) (value valueT, loaded
 			nodeToDelete.mu.Unlock()
 			unlockuint64Desc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_uintdesc.go b/gen_uintdesc.go
index 7a77f4f..49d8aba 100644
--- a/gen_uintdesc.go
+++ b/gen_uintdesc.go
@@ -44,6 +44,23 @@ func (n *uintnodeDesc[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if the node still holds the one old points to.
+func (n *uintnodeDesc[valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the value of a marked node, and moves it: a Store which found the node before it was marked
+// can no longer replace the value.
+func (n *uintnodeDesc[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *uintnodeDesc[valueT]) loadNext(i int) *uintnodeDesc[valueT] {
 	return (*uintnodeDesc[valueT])(n.next.load(i))
 }
@@ -121,10 +138,14 @@ func (s *UintMapDesc[valueT]) Store(key uint, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			old := atomic.LoadPointer(&nodeFound.value) // must be read before the flags
 			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// Just replace the value.
-				nodeFound.storeVal(value)
-				return
+				// Just replace the value. It fails if the value has been replaced, or taken by a deletion,
+				// since we read it: try again.
+				if nodeFound.casVal(old, value) {
+					return
+				}
+				continue
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -269,7 +290,7 @@ func (s *UintMapDesc[valueT]) LoadAndDelete(key uint) (value valueT, loaded bool
 			nodeToDelete.mu.Unlock()
 			unlockuintDesc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/skipmap.tpl b/skipmap.tpl
index fe322b0..95fe00b 100644
--- a/skipmap.tpl
+++ b/skipmap.tpl
@@ -43,6 +43,23 @@ func (n *{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}}) loadVal() {
 	return *(*{{.ValueType}})(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if the node still holds the one old points to.
+func (n *{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}}) casVal(old unsafe.Pointer, value {{.ValueType}}) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the value of a marked node, and moves it: a Store which found the node before it was marked
+// can no longer replace the value.
+func (n *{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}}) takeVal() {{.ValueType}} {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*{{.ValueType}})(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}}) loadNext(i int) *{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}} {
 	return (*{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}})(n.next.load(i))
 }
@@ -120,10 +137,14 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) Store(key {{.Ke
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			old := atomic.LoadPointer(&nodeFound.value) // must be read before the flags
 			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// Just replace the value.
-				nodeFound.storeVal(value)
-				return
+				// Just replace the value. It fails if the value has been replaced, or taken by a deletion,
+				// since we read it: try again.
+				if nodeFound.casVal(old, value) {
+					return
+				}
+				continue
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -268,7 +289,7 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) LoadAndDelete(k
 			nodeToDelete.mu.Unlock()
 			unlock{{.Name}}(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
-- 
2.43.0


From 48d93c9dd8f089c90ef5b2f0675aa866a59f3351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:47 +0000
Subject: [PATCH 3/5] fix: Len must not be negative

A key could be deleted, and subtracted from the length, before the goroutine
which added it had counted it.
---
 gen_func.go        | 9 ++++++---
 gen_int.go         | 9 ++++++---
 gen_int32.go       | 9 ++++++---
 gen_int32desc.go   | 9 ++++++---
 gen_int64.go       | 9 ++++++---
 gen_int64desc.go   | 9 ++++++---
 gen_intdesc.go     | 9 ++++++---
 gen_ordered.go     | 9 ++++++---
 gen_ordereddesc.go | 9 ++++++---
 gen_string.go      | 9 ++++++---
 gen_stringdesc.go  | 9 ++++++---
 gen_uint.go        | 9 ++++++---
 gen_uint32.go      | 9 ++++++---
 gen_uint32desc.go  | 9 ++++++---
 gen_uint64.go      | 9 ++++++---
 gen_uint64desc.go  | 9 ++++++---
 gen_uintdesc.go    | 9 ++++++---
 skipmap.tpl        | 9 ++++++---
 18 files changed, 108 insertions(+), 54 deletions(-)

diff --git a/gen_func.go b/gen_func.go
index d5b3363..646bf0d 100644
--- a/gen_func.go
+++ b/gen_func.go
@@ -186,9 +186,10 @@ func (s *FuncMap[keyT, valueT]) Store(key keyT, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockfunc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -362,9 +363,10 @@ func (s *FuncMap[keyT, valueT]) LoadOrStore(key keyT, value valueT) (actual valu
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockfunc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -433,9 +435,10 @@ func (s *FuncMap[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT) (actu
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockfunc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_int.go b/gen_int.go
index ea021ac..6f222d0 100644
--- a/gen_int.go
+++ b/gen_int.go
@@ -184,9 +184,10 @@ func (s *IntMap[valueT]) Store(key int, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -360,9 +361,10 @@ func (s *IntMap[valueT]) LoadOrStore(key int, value valueT) (actual valueT, load
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -431,9 +433,10 @@ func (s *IntMap[valueT]) LoadOrStoreLazy(key int, f func() valueT) (actual value
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_int32.go b/gen_int32.go
index fc41580..56f0cf6 100644
--- a/gen_int32.go
+++ b/gen_int32.go
@@ -184,9 +184,10 @@ func (s *Int32Map[valueT]) Store(key int32, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint32(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -360,9 +361,10 @@ func (s *Int32Map[valueT]) LoadOrStore(key int32, value valueT) (actual valueT,
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint32(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -431,9 +433,10 @@ func (s *Int32Map[valueT]) LoadOrStoreLazy(key int32, f func() valueT) (actual v
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint32(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_int32desc.go b/gen_int32desc.go
index a202b33..209da7f 100644
--- a/gen_int32desc.go
+++ b/gen_int32desc.go
@@ -184,9 +184,10 @@ func (s *Int32MapDesc[valueT]) Store(key int32, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint32Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -360,9 +361,10 @@ func (s *Int32MapDesc[valueT]) LoadOrStore(key int32, value valueT) (actual valu
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint32Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -431,9 +433,10 @@ func (s *Int32MapDesc[valueT]) LoadOrStoreLazy(key int32, f func() valueT) (actu
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint32Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_int64.go b/gen_int64.go
index f2dbc0a..0fdc005 100644
--- a/gen_int64.go
+++ b/gen_int64.go
@@ -184,9 +184,10 @@ func (s *Int64Map[valueT]) Store(key int64, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint64(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -360,9 +361,10 @@ func (s *Int64Map[valueT]) LoadOrStore(key int64, value valueT) (actual valueT,
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint64(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -431,9 +433,10 @@ func (s *Int64Map[valueT]) LoadOrStoreLazy(key int64, f func() valueT) (actual v
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint64(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_int64desc.go b/gen_int64desc.go
index 5de6130..2b84345 100644
--- a/gen_int64desc.go
+++ b/gen_int64desc.go
@@ -184,9 +184,10 @@ func (s *Int64MapDesc[valueT]) Store(key int64, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint64Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -360,9 +361,10 @@ func (s *Int64MapDesc[valueT]) LoadOrStore(key int64, value valueT) (actual valu
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint64Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -431,9 +433,10 @@ func (s *Int64MapDesc[valueT]) LoadOrStoreLazy(key int64, f func() valueT) (actu
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint64Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_intdesc.go b/gen_intdesc.go
index d8a72c3..79540f8 100644
--- a/gen_intdesc.go
+++ b/gen_intdesc.go
@@ -184,9 +184,10 @@ func (s *IntMapDesc[valueT]) Store(key int, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockintDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -360,9 +361,10 @@ func (s *IntMapDesc[valueT]) LoadOrStore(key int, value valueT) (actual valueT,
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockintDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -431,9 +433,10 @@ func (s *IntMapDesc[valueT]) LoadOrStoreLazy(key int, f func() valueT) (actual v
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockintDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_ordered.go b/gen_ordered.go
index 77b9833..84e976b 100644
--- a/gen_ordered.go
+++ b/gen_ordered.go
@@ -184,9 +184,10 @@ func (s *OrderedMap[keyT, valueT]) Store(key keyT, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockordered(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -360,9 +361,10 @@ func (s *OrderedMap[keyT, valueT]) LoadOrStore(key keyT, value valueT) (actual v
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockordered(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -431,9 +433,10 @@ func (s *OrderedMap[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT) (a
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockordered(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_ordereddesc.go b/gen_ordereddesc.go
index 229452c..4e23ed8 100644
--- a/gen_ordereddesc.go
+++ b/gen_ordereddesc.go
@@ -184,9 +184,10 @@ func (s *OrderedMapDesc[keyT, valueT]) Store(key keyT, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockorderedDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -360,9 +361,10 @@ func (s *OrderedMapDesc[keyT, valueT]) LoadOrStore(key keyT, value valueT) (actu
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockorderedDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -431,9 +433,10 @@ func (s *OrderedMapDesc[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockorderedDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_string.go b/gen_string.go
index 79666f9..f388191 100644
--- a/gen_string.go
+++ b/gen_string.go
@@ -184,9 +184,10 @@ func (s *StringMap[valueT]) Store(key string, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockstring(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -360,9 +361,10 @@ func (s *StringMap[valueT]) LoadOrStore(key string, value valueT) (actual valueT
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockstring(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -431,9 +433,10 @@ func (s *StringMap[valueT]) LoadOrStoreLazy(key string, f func() valueT) (actual
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockstring(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_stringdesc.go b/gen_stringdesc.go
index 171eeca..5db93e8 100644
--- a/gen_stringdesc.go
+++ b/gen_stringdesc.go
@@ -184,9 +184,10 @@ func (s *StringMapDesc[valueT]) Store(key string, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockstringDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -360,9 +361,10 @@ func (s *StringMapDesc[valueT]) LoadOrStore(key string, value valueT) (actual va
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockstringDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -431,9 +433,10 @@ func (s *StringMapDesc[valueT]) LoadOrStoreLazy(key string, f func() valueT) (ac
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockstringDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_uint.go b/gen_uint.go
index 04f9acc..39a29eb 100644
--- a/gen_uint.go
+++ b/gen_uint.go
@@ -184,9 +184,10 @@ func (s *UintMap[valueT]) Store(key uint, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -360,9 +361,10 @@ func (s *UintMap[valueT]) LoadOrStore(key uint, value valueT) (actual valueT, lo
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -431,9 +433,10 @@ func (s *UintMap[valueT]) LoadOrStoreLazy(key uint, f func() valueT) (actual val
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_uint32.go b/gen_uint32.go
index caec78e..fd85943 100644
--- a/gen_uint32.go
+++ b/gen_uint32.go
@@ -184,9 +184,10 @@ func (s *Uint32Map[valueT]) Store(key uint32, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint32(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -360,9 +361,10 @@ func (s *Uint32Map[valueT]) LoadOrStore(key uint32, value valueT) (actual valueT
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint32(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -431,9 +433,10 @@ func (s *Uint32Map[valueT]) LoadOrStoreLazy(key uint32, f func() valueT) (actual
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint32(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_uint32desc.go b/gen_uint32desc.go
index 99bbad5..8920de7 100644
--- a/gen_uint32desc.go
+++ b/gen_uint32desc.go
@@ -184,9 +184,10 @@ func (s *Uint32MapDesc[valueT]) Store(key uint32, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint32Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -360,9 +361,10 @@ func (s *Uint32MapDesc[valueT]) LoadOrStore(key uint32, value valueT) (actual va
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint32Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -431,9 +433,10 @@ func (s *Uint32MapDesc[valueT]) LoadOrStoreLazy(key uint32, f func() valueT) (ac
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint32Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_uint64.go b/gen_uint64.go
index 2cf9852..41bebce 100644
--- a/gen_uint64.go
+++ b/gen_uint64.go
@@ -184,9 +184,10 @@ func (s *Uint64Map[valueT]) Store(key uint64, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint64(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -360,9 +361,10 @@ func (s *Uint64Map[valueT]) LoadOrStore(key uint64, value valueT) (actual valueT
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint64(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -431,9 +433,10 @@ func (s *Uint64Map[valueT]) LoadOrStoreLazy(key uint64, f func() valueT) (actual
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint64(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_uint64desc.go b/gen_uint64desc.go
index 6b4ca01..a11753a 100644
--- a/gen_uint64desc.go
+++ b/gen_uint64desc.go
@@ -184,9 +184,10 @@ func (s *Uint64MapDesc[valueT]) Store(key uint64, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint64Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -360,9 +361,10 @@ func (s *Uint64MapDesc[valueT]) LoadOrStore(key uint64, value valueT) (actual va
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint64Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -431,9 +433,10 @@ func (s *Uint64MapDesc[valueT]) LoadOrStoreLazy(key uint64, f func() valueT) (ac
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint64Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_uintdesc.go b/gen_uintdesc.go
index 49d8aba..9d36e0a 100644
--- a/gen_uintdesc.go
+++ b/gen_uintdesc.go
@@ -184,9 +184,10 @@ func (s *UintMapDesc[valueT]) Store(key uint, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuintDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -360,9 +361,10 @@ func (s *UintMapDesc[valueT]) LoadOrStore(key uint, value valueT) (actual valueT
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuintDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -431,9 +433,10 @@ func (s *UintMapDesc[valueT]) LoadOrStoreLazy(key uint, f func() valueT) (actual
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuintDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/skipmap.tpl b/skipmap.tpl
index 95fe00b..f2209ae 100644
--- a/skipmap.tpl
+++ b/skipmap.tpl
@@ -183,9 +183,10 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) Store(key {{.Ke
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlock{{.Name}}(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -359,9 +360,10 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) LoadOrStore(key
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlock{{.Name}}(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -430,9 +432,10 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) LoadOrStoreLazy
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the node before it can be deleted, the length must not be negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlock{{.Name}}(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
-- 
2.43.0


From 21fa53e5afc435e7a68ba3f690d30cd2160deff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:55 +0000
Subject: [PATCH 4/5] fix: NaN keys must not break maps made by New and NewDesc

NaN is neither less than, greater than, nor equal to any key, so storing it
broke the order of the list: other keys became unreachable. NaN is now equal
to itself and before any other key, as in NewFloat32 and NewFloat64.
---
 gen.go             |  8 ++++----
 gen_ordered.go     | 12 ++++++------
 gen_ordereddesc.go | 12 ++++++------
 util.go            |  6 ++++++
 4 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/gen.go b/gen.go
index 2c57612..74ef570 100644
--- a/gen.go
+++ b/gen.go
@@ -71,10 +71,10 @@ func main() {
 		StructSuffix:    "",
 		Funcs: template.FuncMap{
 			"Less": func(i, j string) string {
-				return fmt.Sprintf("(%s < %s)", i, j)
+				return fmt.Sprintf("(%s < %s || (isNaN(%s) && !isNaN(%s)))", i, j, i, j)
 			},
 			"Equal": func(i, j string) string {
-				return fmt.Sprintf("%s == %s", i, j)
+				return fmt.Sprintf("(%s == %s || (isNaN(%s) && isNaN(%s)))", i, j, i, j)
 			},
 		},
 	}
@@ -84,10 +84,10 @@ func main() {
 	base.Path = "gen_ordereddesc.go"
 	base.Funcs = template.FuncMap{
 		"Less": func(i, j string) string {
-			return fmt.Sprintf("(%s > %s)", i, j)
+			return fmt.Sprintf("(%s > %s || (isNaN(%s) && !isNaN(%s)))", i, j, i, j)
 		},
 		"Equal": func(i, j string) string {
-			return fmt.Sprintf("%s == %s", i, j)
+			return fmt.Sprintf("(%s == %s || (isNaN(%s) && isNaN(%s)))", i, j, i, j)
 		},
 	}
 	generate(base)
diff --git a/gen_ordered.go b/gen_ordered.go
index 84e976b..55e327b 100644
--- a/gen_ordered.go
+++ b/gen_ordered.go
@@ -84,7 +84,7 @@ func (s *OrderedMap[keyT, valueT]) findNode(key keyT, preds *[maxLevel]*orderedn
 	x := s.header
 	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
 		succ := x.atomicLoadNext(i)
-		for succ != nil && (succ.key < key) {
+		for succ != nil && (succ.key < key || (isNaN(succ.key) && !isNaN(key))) {
 			x = succ
 			succ = x.atomicLoadNext(i)
 		}
@@ -92,7 +92,7 @@ func (s *OrderedMap[keyT, valueT]) findNode(key keyT, preds *[maxLevel]*orderedn
 		succs[i] = succ
 
 		// Check if the key already in the skipmap.
-		if succ != nil && succ.key == key {
+		if succ != nil && (succ.key == key || (isNaN(succ.key) && isNaN(key))) {
 			return succ
 		}
 	}
@@ -106,7 +106,7 @@ func (s *OrderedMap[keyT, valueT]) findNodeDelete(key keyT, preds *[maxLevel]*or
 	lFound, x := -1, s.header
 	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
 		succ := x.atomicLoadNext(i)
-		for succ != nil && (succ.key < key) {
+		for succ != nil && (succ.key < key || (isNaN(succ.key) && !isNaN(key))) {
 			x = succ
 			succ = x.atomicLoadNext(i)
 		}
@@ -114,7 +114,7 @@ func (s *OrderedMap[keyT, valueT]) findNodeDelete(key keyT, preds *[maxLevel]*or
 		succs[i] = succ
 
 		// Check if the key already in the skip list.
-		if lFound == -1 && succ != nil && succ.key == key {
+		if lFound == -1 && succ != nil && (succ.key == key || (isNaN(succ.key) && isNaN(key))) {
 			lFound = i
 		}
 	}
@@ -216,13 +216,13 @@ func (s *OrderedMap[keyT, valueT]) Load(key keyT) (value valueT, ok bool) {
 	x := s.header
 	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
 		nex := x.atomicLoadNext(i)
-		for nex != nil && (nex.key < key) {
+		for nex != nil && (nex.key < key || (isNaN(nex.key) && !isNaN(key))) {
 			x = nex
 			nex = x.atomicLoadNext(i)
 		}
 
 		// Check if the key already in the skip list.
-		if nex != nil && nex.key == key {
+		if nex != nil && (nex.key == key || (isNaN(nex.key) && isNaN(key))) {
 			if nex.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nex.loadVal(), true
 			}
diff --git a/gen_ordereddesc.go b/gen_ordereddesc.go
index 4e23ed8..11e428e 100644
--- a/gen_ordereddesc.go
+++ b/gen_ordereddesc.go
@@ -84,7 +84,7 @@ func (s *OrderedMapDesc[keyT, valueT]) findNode(key keyT, preds *[maxLevel]*orde
 	x := s.header
 	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
 		succ := x.atomicLoadNext(i)
-		for succ != nil && (succ.key > key) {
+		for succ != nil && (succ.key > key || (isNaN(succ.key) && !isNaN(key))) {
 			x = succ
 			succ = x.atomicLoadNext(i)
 		}
@@ -92,7 +92,7 @@ func (s *OrderedMapDesc[keyT, valueT]) findNode(key keyT, preds *[maxLevel]*orde
 		succs[i] = succ
 
 		// Check if the key already in the skipmap.
-		if succ != nil && succ.key == key {
+		if succ != nil && (succ.key == key || (isNaN(succ.key) && isNaN(key))) {
 			return succ
 		}
 	}
@@ -106,7 +106,7 @@ func (s *OrderedMapDesc[keyT, valueT]) findNodeDelete(key keyT, preds *[maxLevel
 	lFound, x := -1, s.header
 	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
 		succ := x.atomicLoadNext(i)
-		for succ != nil && (succ.key > key) {
+		for succ != nil && (succ.key > key || (isNaN(succ.key) && !isNaN(key))) {
 			x = succ
 			succ = x.atomicLoadNext(i)
 		}
@@ -114,7 +114,7 @@ func (s *OrderedMapDesc[keyT, valueT]) findNodeDelete(key keyT, preds *[maxLevel
 		succs[i] = succ
 
 		// Check if the key already in the skip list.
-		if lFound == -1 && succ != nil && succ.key == key {
+		if lFound == -1 && succ != nil && (succ.key == key || (isNaN(succ.key) && isNaN(key))) {
 			lFound = i
 		}
 	}
@@ -216,13 +216,13 @@ func (s *OrderedMapDesc[keyT, valueT]) Load(key keyT) (value valueT, ok bool) {
 	x := s.header
 	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
 		nex := x.atomicLoadNext(i)
-		for nex != nil && (nex.key > key) {
+		for nex != nil && (nex.key > key || (isNaN(nex.key) && !isNaN(key))) {
 			x = nex
 			nex = x.atomicLoadNext(i)
 		}
 
 		// Check if the key already in the skip list.
-		if nex != nil && nex.key == key {
+		if nex != nil && (nex.key == key || (isNaN(nex.key) && isNaN(key))) {
 			if nex.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nex.loadVal(), true
 			}
diff --git a/util.go b/util.go
index f6ce1a4..f25f876 100644
--- a/util.go
+++ b/util.go
@@ -29,3 +29,9 @@ type ordered interface {
 		~float32 | ~float64 | // float
 		~string
 }
+
+// isNaN reports whether x is a floating-point NaN.
+// It is always false for the types which are not floating-point.
+func isNaN[T ordered](x T) bool {
+	return x != x
+}
-- 
2.43.0


From 02f51ce1fd69beea8a9ac6e12b7ce036f14689b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:03 +0000
Subject: [PATCH 5/5] fix: LoadOrStoreLazy must unlock the nodes if f panics

The locks of the preceding nodes stayed held, and later operations on
neighbouring keys waited for them forever.
---
 gen_func.go        | 15 ++++++++++++++-
 gen_int.go         | 15 ++++++++++++++-
 gen_int32.go       | 15 ++++++++++++++-
 gen_int32desc.go   | 15 ++++++++++++++-
 gen_int64.go       | 15 ++++++++++++++-
 gen_int64desc.go   | 15 ++++++++++++++-
 gen_intdesc.go     | 15 ++++++++++++++-
 gen_ordered.go     | 15 ++++++++++++++-
 gen_ordereddesc.go | 15 ++++++++++++++-
 gen_string.go      | 15 ++++++++++++++-
 gen_stringdesc.go  | 15 ++++++++++++++-
 gen_uint.go        | 15 ++++++++++++++-
 gen_uint32.go      | 15 ++++++++++++++-
 gen_uint32desc.go  | 15 ++++++++++++++-
 gen_uint64.go      | 15 ++++++++++++++-
 gen_uint64desc.go  | 15 ++++++++++++++-
 gen_uintdesc.go    | 15 ++++++++++++++-
 skipmap.tpl        | 15 ++++++++++++++-
 18 files changed, 252 insertions(+), 18 deletions(-)

diff --git a/gen_func.go b/gen_func.go
index 646bf0d..67b15a0 100644
--- a/gen_func.go
+++ b/gen_func.go
@@ -133,6 +133,19 @@ func unlockfunc[keyT any, valueT any](preds [maxLevel]*funcnode[keyT, valueT], h
 	}
 }
 
+// lazyfunc returns the result of f. If f does not return (it panics or exits the goroutine), preds are unlocked.
+func lazyfunc[keyT any, valueT any](f func() valueT, preds *[maxLevel]*funcnode[keyT, valueT], highestLevel int) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockfunc(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *FuncMap[keyT, valueT]) Store(key keyT, value valueT) {
 	level := s.randomlevel()
@@ -429,7 +442,7 @@ func (s *FuncMap[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT) (actu
 			unlockfunc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyfunc(f, &preds, highestLocked)
 		nn := newFuncNode(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_int.go b/gen_int.go
index 6f222d0..2aab64a 100644
--- a/gen_int.go
+++ b/gen_int.go
@@ -131,6 +131,19 @@ func unlockint[valueT any](preds [maxLevel]*intnode[valueT], highestLevel int) {
 	}
 }
 
+// lazyint returns the result of f. If f does not return (it panics or exits the goroutine), preds are unlocked.
+func lazyint[valueT any](f func() valueT, preds *[maxLevel]*intnode[valueT], highestLevel int) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockint(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *IntMap[valueT]) Store(key int, value valueT) {
 	level := s.randomlevel()
@@ -427,7 +440,7 @@ func (s *IntMap[valueT]) LoadOrStoreLazy(key int, f func() valueT) (actual value
 			unlockint(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyint(f, &preds, highestLocked)
 		nn := newIntNode(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_int32.go b/gen_int32.go
index 56f0cf6..f2fe50d 100644
--- a/gen_int32.go
+++ b/gen_int32.go
@@ -131,6 +131,19 @@ func unlockint32[valueT any](preds [maxLevel]*int32node[valueT], highestLevel in
 	}
 }
 
+// lazyint32 returns the result of f. If f does not return (it panics or exits the goroutine), preds are unlocked.
+func lazyint32[valueT any](f func() valueT, preds *[maxLevel]*int32node[valueT], highestLevel int) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockint32(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *Int32Map[valueT]) Store(key int32, value valueT) {
 	level := s.randomlevel()
@@ -427,7 +440,7 @@ func (s *Int32Map[valueT]) LoadOrStoreLazy(key int32, f func() valueT) (actual v
 			unlockint32(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyint32(f, &preds, highestLocked)
 		nn := newInt32Node(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_int32desc.go b/gen_int32desc.go
index 209da7f..1702b5d 100644
--- a/gen_int32desc.go
+++ b/gen_int32desc.go
@@ -131,6 +131,19 @@ func unlockint32Desc[valueT any](preds [maxLevel]*int32nodeDesc[valueT], highest
 	}
 }
 
+// lazyint32Desc returns the result of f. If f does not return (it panics or exits the goroutine), preds are unlocked.
+func lazyint32Desc[valueT any](f func() valueT, preds *[maxLevel]*int32nodeDesc[valueT], highestLevel int) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockint32Desc(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *Int32MapDesc[valueT]) Store(key int32, value valueT) {
 	level := s.randomlevel()
@@ -427,7 +440,7 @@ func (s *Int32MapDesc[valueT]) LoadOrStoreLazy(key int32, f func() valueT) (actu
 			unlockint32Desc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyint32Desc(f, &preds, highestLocked)
 		nn := newInt32NodeDesc(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_int64.go b/gen_int64.go
index 0fdc005..a2aa888 100644
--- a/gen_int64.go
+++ b/gen_int64.go
@@ -131,6 +131,19 @@ func unlockint64[valueT any](preds [maxLevel]*int64node[valueT], highestLevel in
 	}
 }
 
+// lazyint64 returns the result of f. If f does not return (it panics or exits the goroutine), preds are unlocked.
+func lazyint64[valueT any](f func() valueT, preds *[maxLevel]*int64node[valueT], highestLevel int) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockint64(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *Int64Map[valueT]) Store(key int64, value valueT) {
 	level := s.randomlevel()
@@ -427,7 +440,7 @@ func (s *Int64Map[valueT]) LoadOrStoreLazy(key int64, f func() valueT) (actual v
 			unlockint64(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyint64(f, &preds, highestLocked)
 		nn := newInt64Node(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_int64desc.go b/gen_int64desc.go
index 2b84345..25e5d70 100644
--- a/gen_int64desc.go
+++ b/gen_int64desc.go
@@ -131,6 +131,19 @@ func unlockint64Desc[valueT any](preds [maxLevel]*int64nodeDesc[valueT], highest
 	}
 }
 
+// lazyint64Desc returns the result of f. If f does not return (it panics or exits the goroutine), preds are unlocked.
+func lazyint64Desc[valueT any](f func() valueT, preds *[maxLevel]*int64nodeDesc[valueT], highestLevel int) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockint64Desc(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *Int64MapDesc[valueT]) Store(key int64, value valueT) {
 	level := s.randomlevel()
@@ -427,7 +440,7 @@ func (s *Int64MapDesc[valueT]) LoadOrStoreLazy(key int64, f func() valueT) (actu
 			unlockint64Desc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyint64Desc(f, &preds, highestLocked)
 		nn := newInt64NodeDesc(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_intdesc.go b/gen_intdesc.go
index 79540f8..b881615 100644
--- a/gen_intdesc.go
+++ b/gen_intdesc.go
@@ -131,6 +131,19 @@ func unlockintDesc[valueT any](preds [maxLevel]*intnodeDesc[valueT], highestLeve
 	}
 }
 
+// lazyintDesc returns the result of f. If f does not return (it panics or exits the goroutine), preds are unlocked.
+func lazyintDesc[valueT any](f func() valueT, preds *[maxLevel]*intnodeDesc[valueT], highestLevel int) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockintDesc(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *IntMapDesc[valueT]) Store(key int, value valueT) {
 	level := s.randomlevel()
@@ -427,7 +440,7 @@ func (s *IntMapDesc[valueT]) LoadOrStoreLazy(key int, f func() valueT) (actual v
 			unlockintDesc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyintDesc(f, &preds, highestLocked)
 		nn := newIntNodeDesc(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_ordered.go b/gen_ordered.go
index 55e327b..fa641c6 100644
--- a/gen_ordered.go
+++ b/gen_ordered.go
@@ -131,6 +131,19 @@ func unlockordered[keyT ordered, valueT any](preds [maxLevel]*orderednode[keyT,
 	}
 }
 
+// lazyordered returns the result of f. If f does not return (it panics or exits the goroutine), preds are unlocked.
+func lazyordered[keyT ordered, valueT any](f func() valueT, preds *[maxLevel]*orderednode[keyT, valueT], highestLevel int) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockordered(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *OrderedMap[keyT, valueT]) Store(key keyT, value valueT) {
 	level := s.randomlevel()
@@ -427,7 +440,7 @@ func (s *OrderedMap[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT) (a
 			unlockordered(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyordered(f, &preds, highestLocked)
 		nn := newOrderedNode(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_ordereddesc.go b/gen_ordereddesc.go
index 11e428e..1662acd 100644
--- a/gen_ordereddesc.go
+++ b/gen_ordereddesc.go
@@ -131,6 +131,19 @@ func unlockorderedDesc[keyT ordered, valueT any](preds [maxLevel]*orderednodeDes
 	}
 }
 
+// lazyorderedDesc returns the result of f. If f does not return (it panics or exits the goroutine), preds are unlocked.
+func lazyorderedDesc[keyT ordered, valueT any](f func() valueT, preds *[maxLevel]*orderednodeDesc[keyT, valueT], highestLevel int) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockorderedDesc(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *OrderedMapDesc[keyT, valueT]) Store(key keyT, value valueT) {
 	level := s.randomlevel()
@@ -427,7 +440,7 @@ func (s *OrderedMapDesc[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT
 			unlockorderedDesc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyorderedDesc(f, &preds, highestLocked)
 		nn := newOrderedNodeDesc(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_string.go b/gen_string.go
index f388191..f2c911e 100644
--- a/gen_string.go
+++ b/gen_string.go
@@ -131,6 +131,19 @@ func unlockstring[valueT any](preds [maxLevel]*stringnode[valueT], highestLevel
 	}
 }
 
+// lazystring returns the result of f. If f does not return (it panics or exits the goroutine), preds are unlocked.
+func lazystring[valueT any](f func() valueT, preds *[maxLevel]*stringnode[valueT], highestLevel int) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockstring(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *StringMap[valueT]) Store(key string, value valueT) {
 	level := s.randomlevel()
@@ -427,7 +440,7 @@ func (s *StringMap[valueT]) LoadOrStoreLazy(key string, f func() valueT) (actual
 			unlockstring(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazystring(f, &preds, highestLocked)
 		nn := newStringNode(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_stringdesc.go b/gen_stringdesc.go
index 5db93e8..c334dc6 100644
--- a/gen_stringdesc.go
+++ b/gen_stringdesc.go
@@ -131,6 +131,19 @@ func unlockstringDesc[valueT any](preds [maxLevel]*stringnodeDesc[valueT], highe
 	}
 }
 
+// lazystringDesc returns the result of f. If f does not return (it panics or exits the goroutine), preds are unlocked.
+func lazystringDesc[valueT any](f func() valueT, preds *[maxLevel]*stringnodeDesc[valueT], highestLevel int) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockstringDesc(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *StringMapDesc[valueT]) Store(key string, value valueT) {
 	level := s.randomlevel()
@@ -427,7 +440,7 @@ func (s *StringMapDesc[valueT]) LoadOrStoreLazy(key string, f func() valueT) (ac
 			unlockstringDesc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazystringDesc(f, &preds, highestLocked)
 		nn := newStringNodeDesc(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_uint.go b/gen_uint.go
index 39a29eb..5fedf7e 100644
--- a/gen_uint.go
+++ b/gen_uint.go
@@ -131,6 +131,19 @@ func unlockuint[valueT any](preds [maxLevel]*uintnode[valueT], highestLevel int)
 	}
 }
 
+// lazyuint returns the result of f. If f does not return (it panics or exits the goroutine), preds are unlocked.
+func lazyuint[valueT any](f func() valueT, preds *[maxLevel]*uintnode[valueT], highestLevel int) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockuint(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *UintMap[valueT]) Store(key uint, value valueT) {
 	level := s.randomlevel()
@@ -427,7 +440,7 @@ func (s *UintMap[valueT]) LoadOrStoreLazy(key uint, f func() valueT) (actual val
 			unlockuint(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyuint(f, &preds, highestLocked)
 		nn := newUintNode(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_uint32.go b/gen_uint32.go
index fd85943..50ac6e1 100644
--- a/gen_uint32.go
+++ b/gen_uint32.go
@@ -131,6 +131,19 @@ func unlockuint32[valueT any](preds [maxLevel]*uint32node[valueT], highestLevel
 	}
 }
 
+// lazyuint32 returns the result of f. If f does not return (it panics or exits the goroutine), preds are unlocked.
+func lazyuint32[valueT any](f func() valueT, preds *[maxLevel]*uint32node[valueT], highestLevel int) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockuint32(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *Uint32Map[valueT]) Store(key uint32, value valueT) {
 	level := s.randomlevel()
@@ -427,7 +440,7 @@ func (s *Uint32Map[valueT]) LoadOrStoreLazy(key uint32, f func() valueT) (actual
 			unlockuint32(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyuint32(f, &preds, highestLocked)
 		nn := newUint32Node(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_uint32desc.go b/gen_uint32desc.go
index 8920de7..47a4b2f 100644
--- a/gen_uint32desc.go
+++ b/gen_uint32desc.go
@@ -131,6 +131,19 @@ func unlockuint32Desc[valueT any](preds [maxLevel]*uint32nodeDesc[valueT], highe
 	}
 }
 
+// lazyuint32Desc returns the result of f. If f does not return (it panics or exits the goroutine), preds are unlocked.
+func lazyuint32Desc[valueT any](f func() valueT, preds *[maxLevel]*uint32nodeDesc[valueT], highestLevel int) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockuint32Desc(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *Uint32MapDesc[valueT]) Store(key uint32, value valueT) {
 	level := s.randomlevel()
@@ -427,7 +440,7 @@ func (s *Uint32MapDesc[valueT]) LoadOrStoreLazy(key uint32, f func() valueT) (ac
 			unlockuint32Desc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyuint32Desc(f, &preds, highestLocked)
 		nn := newUint32NodeDesc(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_uint64.go b/gen_uint64.go
index 41bebce..0151dd5 100644
--- a/gen_uint64.go
+++ b/gen_uint64.go
@@ -131,6 +131,19 @@ func unlockuint64[valueT any](preds [maxLevel]*uint64node[valueT], highestLevel
 	}
 }
 
+// lazyuint64 returns the result of f. If f does not return (it panics or exits the goroutine), preds are unlocked.
+func lazyuint64[valueT any](f func() valueT, preds *[maxLevel]*uint64node[valueT], highestLevel int) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockuint64(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *Uint64Map[valueT]) Store(key uint64, value valueT) {
 	level := s.randomlevel()
@@ -427,7 +440,7 @@ func (s *Uint64Map[valueT]) LoadOrStoreLazy(key uint64, f func() valueT) (actual
 			unlockuint64(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyuint64(f, &preds, highestLocked)
 		nn := newUint64Node(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_uint64desc.go b/gen_uint64desc.go
index a11753a..04790a8 100644
--- a/gen_uint64desc.go
+++ b/gen_uint64desc.go
@@ -131,6 +131,19 @@ func unlockuint64Desc[valueT any](preds [maxLevel]*uint64nodeDesc[valueT], highe
 	}
 }
 
+// lazyuint64Desc returns the result of f. If f does not return (it panics or exits the goroutine), preds are unlocked.
+func lazyuint64Desc[valueT any](f func() valueT, preds *[maxLevel]*uint64nodeDesc[valueT], highestLevel int) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockuint64Desc(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *Uint64MapDesc[valueT]) Store(key uint64, value valueT) {
 	level := s.randomlevel()
@@ -427,7 +440,7 @@ func (s *Uint64MapDesc[valueT]) LoadOrStoreLazy(key uint64, f func() valueT) (ac
 			unlockuint64Desc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyuint64Desc(f, &preds, highestLocked)
 		nn := newUint64NodeDesc(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_uintdesc.go b/gen_uintdesc.go
index 9d36e0a..4a9801f 100644
--- a/gen_uintdesc.go
+++ b/gen_uintdesc.go
@@ -131,6 +131,19 @@ func unlockuintDesc[valueT any](preds [maxLevel]*uintnodeDesc[valueT], highestLe
 	}
 }
 
+// lazyuintDesc returns the result of f. If f does not return (it panics or exits the goroutine), preds are unlocked.
+func lazyuintDesc[valueT any](f func() valueT, preds *[maxLevel]*uintnodeDesc[valueT], highestLevel int) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockuintDesc(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *UintMapDesc[valueT]) Store(key uint, value valueT) {
 	level := s.randomlevel()
@@ -427,7 +440,7 @@ func (s *UintMapDesc[valueT]) LoadOrStoreLazy(key uint, f func() valueT) (actual
 			unlockuintDesc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyuintDesc(f, &preds, highestLocked)
 		nn := newUintNodeDesc(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/skipmap.tpl b/skipmap.tpl
index f2209ae..9adc711 100644
--- a/skipmap.tpl
+++ b/skipmap.tpl
@@ -130,6 +130,19 @@ func unlock{{.Name}}{{.TypeParam}}(preds [maxLevel]*{{.StructPrefixLow}}node{{.S
 	}
 }
 
+// lazy{{.Name}} returns the result of f. If f does not return (it panics or exits the goroutine), preds are unlocked.
+func lazy{{.Name}}{{.TypeParam}}(f func() {{.ValueType}}, preds *[maxLevel]*{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}}, highestLevel int) {{.ValueType}} {
+	returned := false
+	defer func() {
+		if !returned {
+			unlock{{.Name}}(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) Store(key {{.KeyType}}, value {{.ValueType}}) {
 	level := s.randomlevel()
@@ -426,7 +439,7 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) LoadOrStoreLazy
 			unlock{{.Name}}(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazy{{.Name}}(f, &preds, highestLocked)
 		nn := new{{.StructPrefix}}Node{{.StructSuffix}}(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
-- 
2.43.0


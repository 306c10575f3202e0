From 30e76970d83b6cd7c917195ae69183c0fa1aa72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:18 +0000
Subject: [PATCH] fix: count an added value before it becomes removable

Add incremented the length after it had published and unlocked the new
node. A Remove of the same value could finish in between, and Len
returned -1. Increment before the node is marked fully linked.
---
 gen_func.go        | 3 ++-
 gen_int.go         | 3 ++-
 gen_int32.go       | 3 ++-
 gen_int32desc.go   | 3 ++-
 gen_int64.go       | 3 ++-
 gen_int64desc.go   | 3 ++-
 gen_intdesc.go     | 3 ++-
 gen_ordered.go     | 3 ++-
 gen_ordereddesc.go | 3 ++-
 gen_string.go      | 3 ++-
 gen_stringdesc.go  | 3 ++-
 gen_uint.go        | 3 ++-
 gen_uint32.go      | 3 ++-
 gen_uint32desc.go  | 3 ++-
 gen_uint64.go      | 3 ++-
 gen_uint64desc.go  | 3 ++-
 gen_uintdesc.go    | 3 ++-
 skipset.tpl        | 3 ++-
 18 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/gen_func.go b/gen_func.go
index 1c87d41..a5b807d 100644
--- a/gen_func.go
+++ b/gen_func.go
@@ -156,9 +156,10 @@ func (s *FuncSet[T]) Add(value T) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it can be found (and removed), so that the length never becomes negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockfunc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_int.go b/gen_int.go
index 1c0f06d..3ae5ed4 100644
--- a/gen_int.go
+++ b/gen_int.go
@@ -154,9 +154,10 @@ func (s *IntSet) Add(value int) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it can be found (and removed), so that the length never becomes negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_int32.go b/gen_int32.go
index d35b998..0dd2d7e 100644
--- a/gen_int32.go
+++ b/gen_int32.go
@@ -154,9 +154,10 @@ func (s *Int32Set) Add(value int32) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it can be found (and removed), so that the length never becomes negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint32(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_int32desc.go b/gen_int32desc.go
index e3b3187..6eb9851 100644
--- a/gen_int32desc.go
+++ b/gen_int32desc.go
@@ -154,9 +154,10 @@ func (s *Int32SetDesc) Add(value int32) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it can be found (and removed), so that the length never becomes negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint32Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_int64.go b/gen_int64.go
index 2fb0530..908bccf 100644
--- a/gen_int64.go
+++ b/gen_int64.go
@@ -154,9 +154,10 @@ func (s *Int64Set) Add(value int64) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it can be found (and removed), so that the length never becomes negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint64(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_int64desc.go b/gen_int64desc.go
index 7bd45e6..b4587ad 100644
--- a/gen_int64desc.go
+++ b/gen_int64desc.go
@@ -154,9 +154,10 @@ func (s *Int64SetDesc) Add(value int64) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it can be found (and removed), so that the length never becomes negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint64Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_intdesc.go b/gen_intdesc.go
index 2add73e..7205578 100644
--- a/gen_intdesc.go
+++ b/gen_intdesc.go
@@ -154,9 +154,10 @@ func (s *IntSetDesc) Add(value int) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it can be found (and removed), so that the length never becomes negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockintDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_ordered.go b/gen_ordered.go
index 05d7644..1ffea8d 100644
--- a/gen_ordered.go
+++ b/gen_ordered.go
@@ -154,9 +154,10 @@ func (s *OrderedSet[T]) Add(value T) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it can be found (and removed), so that the length never becomes negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockordered(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_ordereddesc.go b/gen_ordereddesc.go
index 7408ec4..2bd51c6 100644
--- a/gen_ordereddesc.go
+++ b/gen_ordereddesc.go
@@ -154,9 +154,10 @@ func (s *OrderedSetDesc[T]) Add(value T) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it can be found (and removed), so that the length never becomes negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockorderedDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_string.go b/gen_string.go
index b0eccb1..10c2d5c 100644
--- a/gen_string.go
+++ b/gen_string.go
@@ -154,9 +154,10 @@ func (s *StringSet) Add(value string) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it can be found (and removed), so that the length never becomes negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockstring(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_stringdesc.go b/gen_stringdesc.go
index 139f433..253c643 100644
--- a/gen_stringdesc.go
+++ b/gen_stringdesc.go
@@ -154,9 +154,10 @@ func (s *StringSetDesc) Add(value string) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it can be found (and removed), so that the length never becomes negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockstringDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_uint.go b/gen_uint.go
index 23e689a..6cc9fd5 100644
--- a/gen_uint.go
+++ b/gen_uint.go
@@ -154,9 +154,10 @@ func (s *UintSet) Add(value uint) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it can be found (and removed), so that the length never becomes negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_uint32.go b/gen_uint32.go
index b3f49ed..25f8605 100644
--- a/gen_uint32.go
+++ b/gen_uint32.go
@@ -154,9 +154,10 @@ func (s *Uint32Set) Add(value uint32) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it can be found (and removed), so that the length never becomes negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint32(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_uint32desc.go b/gen_uint32desc.go
index fdb0151..8edec00 100644
--- a/gen_uint32desc.go
+++ b/gen_uint32desc.go
@@ -154,9 +154,10 @@ func (s *Uint32SetDesc) Add(value uint32) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it can be found (and removed), so that the length never becomes negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint32Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_uint64.go b/gen_uint64.go
index c0cbc8f..987cf79 100644
--- a/gen_uint64.go
+++ b/gen_uint64.go
@@ -154,9 +154,10 @@ func (s *Uint64Set) Add(value uint64) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it can be found (and removed), so that the length never becomes negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint64(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_uint64desc.go b/gen_uint64desc.go
index bf66e05..e47c559 100644
--- a/gen_uint64desc.go
+++ b/gen_uint64desc.go
@@ -154,9 +154,10 @@ func (s *Uint64SetDesc) Add(value uint64) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it can be found (and removed), so that the length never becomes negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint64Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_uintdesc.go b/gen_uintdesc.go
index 430a8fb..c5b7453 100644
--- a/gen_uintdesc.go
+++ b/gen_uintdesc.go
@@ -154,9 +154,10 @@ func (s *UintSetDesc) Add(value uint) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it can be found (and removed), so that the length never becomes negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuintDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/skipset.tpl b/skipset.tpl
index 0d1f59c..31c2bb2 100644
--- a/skipset.tpl
+++ b/skipset.tpl
@@ -153,9 +153,10 @@ func (s *{{.StructPrefix}}Set{{.StructSuffix}}{{.TypeArgument}}) Add(value {{.Ty
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it can be found (and removed), so that the length never becomes negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlock{{.Name}}(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
-- 
2.43.0


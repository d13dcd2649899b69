From 325b7a2d1ba295c97329c91179240808622a88ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 1/9] fix: ArrMap.Set stores the value when the new key splits
 an existing entry

---
 arr_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arr_map.go b/arr_map.go
index 01fda75..ff26598 100644
--- a/arr_map.go
+++ b/arr_map.go
@@ -167,7 +167,7 @@ func (m ArrMap[K, V]) Set(key K, value V) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &arrkv[K, V]{k: key}
+				kv := &arrkv[K, V]{k: key, v: value}
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
-- 
2.43.0


From b30a6062acbe9f417a2a6ffb6aa9ca6c1c1a3d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 2/9] fix: BytesSet.Del removes the given key, not a different
 one sharing its slot

---
 bytes_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytes_set.go b/bytes_set.go
index c0027fb..7fac452 100644
--- a/bytes_set.go
+++ b/bytes_set.go
@@ -203,7 +203,7 @@ func (s BytesSet) Del(key []byte) {
 			bit, idx = 1<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 			continue
 		}
-		if bytes.Equal((*byteskv[struct{}])(item.ptr).k, key) { // key missing
+		if !bytes.Equal((*byteskv[struct{}])(item.ptr).k, key) { // key missing
 			return
 		}
 		l.pmap &^= bit
-- 
2.43.0


From 0ce1ab2929b0cefa9991d54ff382234cdfd115ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 3/9] fix: generic Map and Set rehash the conflicting key with
 its own hash and iteration count

---
 generic_map.go | 4 ++--
 generic_set.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/generic_map.go b/generic_map.go
index d93eb22..70ad36d 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -146,7 +146,7 @@ func (m Map[K, V]) Set(key K, value V) {
 			return
 		}
 		// rehash conflicting key
-		chd := ckey.Hash(m.seed, uint(d%(64/4))) >> (4 * (d % (64 / 4)))
+		chd := ckey.Hash(m.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -235,7 +235,7 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 			return
 		}
 		// rehash conflicting key
-		chd := key.Hash(m.seed, uint(d%(64/4))) >> (4 * (d % (64 / 4)))
+		chd := ckey.Hash(m.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
diff --git a/generic_set.go b/generic_set.go
index ec8f206..d862c20 100644
--- a/generic_set.go
+++ b/generic_set.go
@@ -97,7 +97,7 @@ func (s Set[K]) Add(key K) {
 			return
 		}
 		// rehash conflicting key
-		chd := ckey.Hash(s.seed, uint(d%(64/4))) >> (4 * (d % (64 / 4)))
+		chd := ckey.Hash(s.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		s.dep -= uint64(d) // conflicting key depth
-- 
2.43.0


From 3a60a84fda794b1b109e5135e3c52d4a7967d273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 4/9] fix: HashBytes honours iteration counts of 255 and above

---
 generic_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generic_map.go b/generic_map.go
index 70ad36d..857dca9 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -43,7 +43,7 @@ type Key[K any] interface {
 func HashBytes(key []byte, seed maphash.Seed, iter uint) uint64 {
 	var hw maphash.Hash
 	hw.SetSeed(seed)
-	for i := uint8(0); i <= uint8(iter); i++ {
+	for i := uint(0); i <= iter; i++ {
 		hw.Write(key)
 	}
 	return hw.Sum64()
-- 
2.43.0


From e851604474c3019f5d4e9a7470a6987d7e063f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 5/9] fix: Int implements Key, so it can be used as the key
 type of a generic Map

---
 int_map.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/int_map.go b/int_map.go
index 6eeb39c..66ad37a 100644
--- a/int_map.go
+++ b/int_map.go
@@ -31,6 +31,8 @@ import (
 // Int may be used as the key type of a generic Map[Int, V].
 type Int int
 
+func (i Int) Equal(i2 Int) bool { return i == i2 }
+
 func (i Int) Hash(seed maphash.Seed, iter uint) uint64 {
 	b := intbytes(IntKey(i))
 	var hw maphash.Hash
-- 
2.43.0


From fc7376c1c7483d929607baf2feef2a893a4e7935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 6/9] fix: Mod calls the callback before restructuring, so a
 panic or a read in it cannot corrupt the map

---
 arr_map.go     | 5 +++--
 bytes_map.go   | 5 +++--
 generic_map.go | 5 +++--
 int_map.go     | 5 +++--
 string_map.go  | 5 +++--
 5 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/arr_map.go b/arr_map.go
index ff26598..19244c4 100644
--- a/arr_map.go
+++ b/arr_map.go
@@ -251,6 +251,9 @@ func (m ArrMap[K, V]) Mod(key K, mod func(*V, bool)) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
+		// call mod before restructuring, in case mod panics or reads m
+		kv := &arrkv[K, V]{k: key}
+		mod(&kv.v, false)
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -269,8 +272,6 @@ func (m ArrMap[K, V]) Mod(key K, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &arrkv[K, V]{k: key}
-				mod(&kv.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
diff --git a/bytes_map.go b/bytes_map.go
index 830804d..58b1e9f 100644
--- a/bytes_map.go
+++ b/bytes_map.go
@@ -267,6 +267,9 @@ func (m BytesMap[V]) Mod(key []byte, mod func(*V, bool)) {
 			item.ptr = unsafe.Pointer(kv)
 			return
 		}
+		// call mod before restructuring, in case mod panics or reads m
+		kv := &byteskv[V]{k: key}
+		mod(&kv.v, false)
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -285,8 +288,6 @@ func (m BytesMap[V]) Mod(key []byte, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &byteskv[V]{k: key}
-				mod(&kv.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
diff --git a/generic_map.go b/generic_map.go
index 857dca9..446b26a 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -236,6 +236,9 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 		}
 		// rehash conflicting key
 		chd := ckey.Hash(m.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
+		// call mod before restructuring, in case mod panics or reads m
+		kv := &kv[K, V]{k: key}
+		mod(&kv.v, false)
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -252,8 +255,6 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &kv[K, V]{k: key}
-				mod(&kv.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
diff --git a/int_map.go b/int_map.go
index 66ad37a..c8be18d 100644
--- a/int_map.go
+++ b/int_map.go
@@ -272,6 +272,9 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
+		// call mod before restructuring, in case mod panics or reads m
+		val := &intkv[V]{}
+		mod(&val.v, false)
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -290,8 +293,6 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				val := &intkv[V]{}
-				mod(&val.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0] = link{ptr: unsafe.Pointer(val), pmap: uint32(key), tmap: uint32(key >> 32)}
 					pair[1] = link{ptr: unsafe.Pointer(cval), pmap: uint32(ckey), tmap: uint32(ckey >> 32)}
diff --git a/string_map.go b/string_map.go
index 2470a61..eafb6c8 100644
--- a/string_map.go
+++ b/string_map.go
@@ -253,6 +253,9 @@ func (m StringMap[V]) Mod(key string, mod func(*V, bool)) {
 			chw.WriteString(ckey)
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
+		// call mod before restructuring, in case mod panics or reads m
+		kv := &strkv[V]{k: key}
+		mod(&kv.v, false)
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -271,8 +274,6 @@ func (m StringMap[V]) Mod(key string, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &strkv[V]{k: key}
-				mod(&kv.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
-- 
2.43.0


From b4f96bf3445e958f758e0ea4efb44361301ef4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 7/9] fix: Del clears the vacated slot and the whole traversal
 path, so removed entries are not retained

---
 arr_map.go     | 8 ++++++--
 arr_set.go     | 8 ++++++--
 bytes_map.go   | 8 ++++++--
 bytes_set.go   | 8 ++++++--
 generic_map.go | 8 ++++++--
 generic_set.go | 8 ++++++--
 int_map.go     | 8 ++++++--
 int_set.go     | 8 ++++++--
 string_map.go  | 8 ++++++--
 string_set.go  | 8 ++++++--
 10 files changed, 60 insertions(+), 20 deletions(-)

diff --git a/arr_map.go b/arr_map.go
index 19244c4..fe9beef 100644
--- a/arr_map.go
+++ b/arr_map.go
@@ -345,7 +345,7 @@ func (m ArrMap[K, V]) Del(key K) {
 			continue
 		}
 		if (*arrkv[K, V])(item.ptr).k != key { // key missing
-			return
+			break
 		}
 		l.pmap &^= bit
 		l.tmap &^= bit
@@ -377,6 +377,9 @@ func (m ArrMap[K, V]) Del(key K) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if count%4 != 0 || d == 0 { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
@@ -392,8 +395,9 @@ func (m ArrMap[K, V]) Del(key K) {
 			d--
 			path[d].link = nil
 		}
-		return // item removed
+		break // item removed
 	}
+	m.path = [12]pathLink{} // clear the path to prevent leaks
 }
 
 // All ranges over values in m, applying the do callback to each value until
diff --git a/arr_set.go b/arr_set.go
index c19eccf..d5c2d8f 100644
--- a/arr_set.go
+++ b/arr_set.go
@@ -205,7 +205,7 @@ func (s ArrSet[K]) Del(key K) {
 			continue
 		}
 		if (*arrkv[K, struct{}])(item.ptr).k != key { // key missing
-			return
+			break
 		}
 		l.pmap &^= bit
 		l.tmap &^= bit
@@ -237,6 +237,9 @@ func (s ArrSet[K]) Del(key K) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if count%4 != 0 || d == 0 { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
@@ -252,8 +255,9 @@ func (s ArrSet[K]) Del(key K) {
 			d--
 			path[d].link = nil
 		}
-		return // item removed
+		break // item removed
 	}
+	s.path = [12]pathLink{} // clear the path to prevent leaks
 }
 
 // All ranges over keys in s, applying the do callback to each key until
diff --git a/bytes_map.go b/bytes_map.go
index 58b1e9f..afd11f5 100644
--- a/bytes_map.go
+++ b/bytes_map.go
@@ -360,7 +360,7 @@ func (m BytesMap[V]) Del(key []byte) {
 			continue
 		}
 		if !bytes.Equal((*byteskv[V])(item.ptr).k, key) { // key missing
-			return
+			break
 		}
 		l.pmap &^= bit
 		l.tmap &^= bit
@@ -392,6 +392,9 @@ func (m BytesMap[V]) Del(key []byte) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if count%4 != 0 || d == 0 { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
@@ -407,8 +410,9 @@ func (m BytesMap[V]) Del(key []byte) {
 			d--
 			path[d].link = nil
 		}
-		return // item removed
+		break // item removed
 	}
+	m.path = [12]pathLink{} // clear the path to prevent leaks
 }
 
 // All ranges over values in m, applying the do callback to each value until
diff --git a/bytes_set.go b/bytes_set.go
index 7fac452..a7ffc2b 100644
--- a/bytes_set.go
+++ b/bytes_set.go
@@ -204,7 +204,7 @@ func (s BytesSet) Del(key []byte) {
 			continue
 		}
 		if !bytes.Equal((*byteskv[struct{}])(item.ptr).k, key) { // key missing
-			return
+			break
 		}
 		l.pmap &^= bit
 		l.tmap &^= bit
@@ -236,6 +236,9 @@ func (s BytesSet) Del(key []byte) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if count%4 != 0 || d == 0 { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
@@ -251,8 +254,9 @@ func (s BytesSet) Del(key []byte) {
 			d--
 			path[d].link = nil
 		}
-		return // item removed
+		break // item removed
 	}
+	s.path = [12]pathLink{} // clear the path to prevent leaks
 }
 
 // All ranges over keys in s, applying the do callback to each key until
diff --git a/generic_map.go b/generic_map.go
index 446b26a..e4a09e2 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -323,7 +323,7 @@ func (m Map[K, V]) Del(key K) {
 			continue
 		}
 		if !key.Equal((*kv[K, V])(item.ptr).k) { // key missing
-			return
+			break
 		}
 		l.pmap &^= bit
 		l.tmap &^= bit
@@ -355,6 +355,9 @@ func (m Map[K, V]) Del(key K) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if count%4 != 0 || d == 0 { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
@@ -370,8 +373,9 @@ func (m Map[K, V]) Del(key K) {
 			d--
 			path[d].link = nil
 		}
-		return // item removed
+		break // item removed
 	}
+	m.path = [12]pathLink{} // clear the path to prevent leaks
 }
 
 // All ranges over values in m, applying the do callback to each value until
diff --git a/generic_set.go b/generic_set.go
index d862c20..90c48a5 100644
--- a/generic_set.go
+++ b/generic_set.go
@@ -181,7 +181,7 @@ func (s Set[K]) Del(key K) {
 			continue
 		}
 		if !key.Equal((*kv[K, struct{}])(item.ptr).k) { // key missing
-			return
+			break
 		}
 		l.pmap &^= bit
 		l.tmap &^= bit
@@ -213,6 +213,9 @@ func (s Set[K]) Del(key K) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if count%4 != 0 || d == 0 { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
@@ -228,8 +231,9 @@ func (s Set[K]) Del(key K) {
 			d--
 			path[d].link = nil
 		}
-		return // item removed
+		break // item removed
 	}
+	s.path = [12]pathLink{} // clear the path to prevent leaks
 }
 
 // All ranges over keys in s, applying the do callback to each key until
diff --git a/int_map.go b/int_map.go
index c8be18d..4bd1beb 100644
--- a/int_map.go
+++ b/int_map.go
@@ -372,7 +372,7 @@ func (m IntMap[V]) Del(key IntKey) {
 			continue
 		}
 		if k := IntKey(item.pmap) | (IntKey(item.tmap) << 32); k != key { // key missing
-			return
+			break
 		}
 		l.pmap &^= bit
 		l.tmap &^= bit
@@ -404,6 +404,9 @@ func (m IntMap[V]) Del(key IntKey) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if count%4 != 0 || d == 0 { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
@@ -419,8 +422,9 @@ func (m IntMap[V]) Del(key IntKey) {
 			d--
 			path[d].link = nil
 		}
-		return // item removed
+		break // item removed
 	}
+	m.path = [12]pathLink{} // clear the path to prevent leaks
 }
 
 // All ranges over values in m, applying the do callback to each value until
diff --git a/int_set.go b/int_set.go
index 7c6e44a..9a214d6 100644
--- a/int_set.go
+++ b/int_set.go
@@ -207,7 +207,7 @@ func (s IntSet) Del(key IntKey) {
 			continue
 		}
 		if k := IntKey(item.pmap) | (IntKey(item.tmap) << 32); k != key { // key missing
-			return
+			break
 		}
 		l.pmap &^= bit
 		l.tmap &^= bit
@@ -239,6 +239,9 @@ func (s IntSet) Del(key IntKey) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if count%4 != 0 || d == 0 { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
@@ -254,8 +257,9 @@ func (s IntSet) Del(key IntKey) {
 			d--
 			path[d].link = nil
 		}
-		return // item removed
+		break // item removed
 	}
+	s.path = [12]pathLink{} // clear the path to prevent leaks
 }
 
 // All ranges over keys in s, applying the do callback to each key until
diff --git a/string_map.go b/string_map.go
index eafb6c8..ff8ffb6 100644
--- a/string_map.go
+++ b/string_map.go
@@ -346,7 +346,7 @@ func (m StringMap[V]) Del(key string) {
 			continue
 		}
 		if (*strkv[V])(item.ptr).k != key { // key missing
-			return
+			break
 		}
 		l.pmap &^= bit
 		l.tmap &^= bit
@@ -378,6 +378,9 @@ func (m StringMap[V]) Del(key string) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if count%4 != 0 || d == 0 { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
@@ -393,8 +396,9 @@ func (m StringMap[V]) Del(key string) {
 			d--
 			path[d].link = nil
 		}
-		return // item removed
+		break // item removed
 	}
+	m.path = [12]pathLink{} // clear the path to prevent leaks
 }
 
 // All ranges over values in m, applying the do callback to each value until
diff --git a/string_set.go b/string_set.go
index 4b7da97..4031598 100644
--- a/string_set.go
+++ b/string_set.go
@@ -201,7 +201,7 @@ func (s StringSet) Del(key string) {
 			continue
 		}
 		if (*strkv[struct{}])(item.ptr).k != key { // key missing
-			return
+			break
 		}
 		l.pmap &^= bit
 		l.tmap &^= bit
@@ -233,6 +233,9 @@ func (s StringSet) Del(key string) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if count%4 != 0 || d == 0 { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
@@ -248,8 +251,9 @@ func (s StringSet) Del(key string) {
 			d--
 			path[d].link = nil
 		}
-		return // item removed
+		break // item removed
 	}
+	s.path = [12]pathLink{} // clear the path to prevent leaks
 }
 
 // All ranges over keys in s, applying the do callback to each key until
-- 
2.43.0


From bbd46246625cf024a983a48c807228b480018708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 8/9] fix: IntMap and IntSet clear the inline key when a
 colliding entry becomes a branch

---
 int_map.go | 2 ++
 int_set.go | 1 +
 2 files changed, 3 insertions(+)

diff --git a/int_map.go b/int_map.go
index 4bd1beb..175ab8b 100644
--- a/int_map.go
+++ b/int_map.go
@@ -195,6 +195,7 @@ func (m IntMap[V]) Set(key IntKey, value V) {
 				return // item added
 			}
 			// handle collision at new level
+			item.tmap = 0 // clear the inline key
 			item.ptr = newLinkArray(1)
 			item = (*link)(item.ptr)
 		}
@@ -305,6 +306,7 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 				return // item added
 			}
 			// handle collision at new level
+			item.tmap = 0 // clear the inline key
 			item.ptr = newLinkArray(1)
 			item = (*link)(item.ptr)
 		}
diff --git a/int_set.go b/int_set.go
index 9a214d6..ff75e9b 100644
--- a/int_set.go
+++ b/int_set.go
@@ -144,6 +144,7 @@ func (s IntSet) Add(key IntKey) {
 				return // key added
 			}
 			// handle collision at new level
+			item.tmap = 0 // clear the inline key
 			item.ptr = newLinkArray(1)
 			item = (*link)(item.ptr)
 		}
-- 
2.43.0


From a296a1de241e6557b11a328487421c99e7f31842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 9/9] fix: a panic in Hash while an entry is split no longer
 corrupts generic maps and sets

---
 generic_map.go | 22 ++++++++++++++++------
 generic_set.go | 11 ++++++++---
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/generic_map.go b/generic_map.go
index e4a09e2..8e8fe43 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -147,9 +147,11 @@ func (m Map[K, V]) Set(key K, value V) {
 		}
 		// rehash conflicting key
 		chd := ckey.Hash(m.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
-		// replace with new branch until non-colliding
-		l.tmap &^= bit
-		m.dep -= uint64(d) // conflicting key depth
+		// replace with new branch until non-colliding; the branch is built apart from
+		// the trie, in case hashing panics
+		var branch link
+		slot, cd := item, d
+		item = &branch
 		for {
 			d++
 			if d&0xF != 0 { // hash bits available
@@ -169,7 +171,10 @@ func (m Map[K, V]) Set(key K, value V) {
 				} else {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(ckv), unsafe.Pointer(kv)
 				}
+				*slot = branch
+				l.tmap &^= bit
 				m.len++
+				m.dep -= uint64(cd) // conflicting key depth
 				m.dep += uint64(d) * 2
 				return // item added
 			}
@@ -239,9 +244,11 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 		// call mod before restructuring, in case mod panics or reads m
 		kv := &kv[K, V]{k: key}
 		mod(&kv.v, false)
-		// replace with new branch until non-colliding
-		l.tmap &^= bit
-		m.dep -= uint64(d) // conflicting key depth
+		// replace with new branch until non-colliding; the branch is built apart from
+		// the trie, in case hashing panics
+		var branch link
+		slot, cd := item, d
+		item = &branch
 		for {
 			d++
 			if d&0xF != 0 { // hash bits available
@@ -260,7 +267,10 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 				} else {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(ckv), unsafe.Pointer(kv)
 				}
+				*slot = branch
+				l.tmap &^= bit
 				m.len++
+				m.dep -= uint64(cd) // conflicting key depth
 				m.dep += uint64(d) * 2
 				return // item added
 			}
diff --git a/generic_set.go b/generic_set.go
index 90c48a5..ee956f6 100644
--- a/generic_set.go
+++ b/generic_set.go
@@ -98,9 +98,11 @@ func (s Set[K]) Add(key K) {
 		}
 		// rehash conflicting key
 		chd := ckey.Hash(s.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
-		// replace with new branch until non-colliding
-		l.tmap &^= bit
-		s.dep -= uint64(d) // conflicting key depth
+		// replace with new branch until non-colliding; the branch is built apart from
+		// the trie, in case hashing panics
+		var branch link
+		slot, cd := item, d
+		item = &branch
 		for {
 			d++
 			if d&0xF != 0 { // hash bits available
@@ -120,7 +122,10 @@ func (s Set[K]) Add(key K) {
 				} else {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(ckv), unsafe.Pointer(kv)
 				}
+				*slot = branch
+				l.tmap &^= bit
 				s.len++
+				s.dep -= uint64(cd) // conflicting key depth
 				s.dep += uint64(d) * 2
 				return // key added
 			}
-- 
2.43.0


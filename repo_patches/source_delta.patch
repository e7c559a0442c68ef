From a32c9a5b7a64f912c29718dc0841b28aad2f692a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:58 +0000
Subject: [PATCH 01/71] fix: KEYS glob: match '?' and '[' after '*' as
 wildcards, not literally

---
 util/util.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/util/util.go b/util/util.go
index 2667940..810c54d 100644
--- a/util/util.go
+++ b/util/util.go
@@ -50,14 +50,9 @@ func PattenMatch(pattern, src string) bool {
 			if patPos == patLen {
 				return true
 			}
+			// the rest of the pattern may itself start with '?' or '['
 			for srcPos < srcLen {
-				for srcPos < srcLen && src[srcPos] != pattern[patPos] {
-					srcPos++
-				}
-				if srcPos == srcLen {
-					return patPos == patLen
-				}
-				if PattenMatch(pattern[patPos+1:], src[srcPos+1:]) {
+				if PattenMatch(pattern[patPos:], src[srcPos:]) {
 					return true
 				} else {
 					srcPos++
-- 
2.43.0


From 95497cc38630ee3999f65240e098c93a66b05da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:58 +0000
Subject: [PATCH 02/71] fix: KEYS glob: a '-' without both range ends no longer
 panics or reads outside the bracket

---
 util/util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 810c54d..2a90b9f 100644
--- a/util/util.go
+++ b/util/util.go
@@ -69,11 +69,12 @@ func PattenMatch(pattern, src string) bool {
 				not = true
 				patPos++
 			}
+			first := patPos
 			for patPos < patLen {
 				if pattern[patPos] == ']' {
 					close = true
 					break
-				} else if pattern[patPos] == '-' {
+				} else if pattern[patPos] == '-' && patPos > first && patPos+1 < patLen && pattern[patPos+1] != ']' {
 					start, end := pattern[patPos-1], pattern[patPos+1]
 					if src[srcPos] >= start && src[srcPos] <= end {
 						match = true
-- 
2.43.0


From ed3418217f5e7e192cf0658b469408dc68a4e6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:30 +0000
Subject: [PATCH 03/71] fix: SET: EX/PX without a valid argument is an error
 instead of a crash or an ignored option

---
 memdb/strings.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 42a7871..1c4d8f4 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -47,18 +47,18 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 			optNum++
 			i++
 			if i >= len(cmd) {
-				resp.NewSimpleError("syntax error")
+				return resp.NewSimpleError("syntax error")
 			}
 			exval, err = strconv.ParseInt(string(cmd[i]), 10, 64)
 			if err != nil {
-				resp.NewSimpleError("value is not an integer")
+				return resp.NewSimpleError("value is not an integer")
 			}
 		case "px":
 			px = true
 			optNum++
 			i++
 			if i >= len(cmd) {
-				resp.NewSimpleError("syntax error")
+				return resp.NewSimpleError("syntax error")
 			}
 			pxval, err = strconv.ParseInt(string(cmd[i]), 10, 64)
 			if err != nil {
-- 
2.43.0


From dde3db415985e5472f3e34d6446a7320040fbc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:31 +0000
Subject: [PATCH 04/71] fix: SET: EXAT and PXAT read their argument

---
 memdb/strings.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/memdb/strings.go b/memdb/strings.go
index 1c4d8f4..4776cb4 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -67,6 +67,7 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 		case "exat":
 			exat = true
 			optNum++
+			i++
 			if i >= len(cmd) {
 				return resp.NewSimpleError("syntax error")
 			}
@@ -77,6 +78,7 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 		case "pxat":
 			pxat = true
 			optNum++
+			i++
 			if i >= len(cmd) {
 				return resp.NewSimpleError("syntax error")
 			}
-- 
2.43.0


From 80aa00acba4891effb62673f578dcd2345c87cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:32 +0000
Subject: [PATCH 05/71] fix: SET: a failed NX/XX condition no longer changes
 the key's TTL

---
 memdb/strings.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/memdb/strings.go b/memdb/strings.go
index 4776cb4..cf4ae9b 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -139,6 +139,11 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 	}
 
+	// a failed NX/XX condition leaves the key and its ttl alone
+	if (nx && oldOk) || (xx && !oldOk) {
+		return res
+	}
+
 	if !keepttl {
 		db.DeleteExpire(key)
 	}
-- 
2.43.0


From ed56efcac6311284d79c2dc12ee50b7a64194534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:33 +0000
Subject: [PATCH 06/71] fix: SET: overwrite a key of another type; only the GET
 option requires a string

---
 memdb/strings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index cf4ae9b..8ad0a46 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -104,7 +104,7 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 	defer db.locks.UnLock(key)
 
 	oldVal, oldOk := db.dict.Get(key)
-	if oldOk {
+	if oldOk && get {
 		if _, ok := oldVal.([]byte); !ok {
 			return resp.NewSimpleError("The value stored at key is not a string")
 		}
-- 
2.43.0


From ac0f1b12a6ae86075da7afb2732dadf417cd3d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:34 +0000
Subject: [PATCH 07/71] fix: SET: reject non-positive and overflowing expire
 times

---
 memdb/strings.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 8ad0a46..cafa9fc 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -3,6 +3,7 @@ package memdb
 import (
 	"fmt"
 	"gRedis/resp"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -98,6 +99,12 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("syntax error")
 	}
 
+	now := time.Now().Unix()
+	if (ex && (exval <= 0 || exval > math.MaxInt64-now)) || (px && pxval <= 0) ||
+		(exat && exatval <= 0) || (pxat && pxatval <= 0) {
+		return resp.NewSimpleError("invalid expire time in command")
+	}
+
 	// set
 	var res resp.RedisData
 	db.locks.Lock(key)
@@ -149,10 +156,10 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	if ex {
-		db.SetExpire(key, time.Now().Unix()+exval)
+		db.SetExpire(key, now+exval)
 	}
 	if px {
-		db.SetExpire(key, time.Now().Unix()+pxval/1000)
+		db.SetExpire(key, now+pxval/1000)
 	}
 	if exat {
 		db.SetExpire(key, exatval)
-- 
2.43.0


From aa6801ed46fd929061cc50354eaad84822353289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:35 +0000
Subject: [PATCH 08/71] fix: SETEX: reject non-positive and overflowing expire
 times

---
 memdb/strings.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index cafa9fc..3634a7d 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -368,6 +368,10 @@ func setExString(db *MemDb, cmd [][]byte) resp.RedisData {
 	if err != nil {
 		return resp.NewSimpleError("value is not an integer")
 	}
+	now := time.Now().Unix()
+	if sec <= 0 || sec > math.MaxInt64-now {
+		return resp.NewSimpleError("invalid expire time in command")
+	}
 
 	val := cmd[3]
 
@@ -375,7 +379,7 @@ func setExString(db *MemDb, cmd [][]byte) resp.RedisData {
 	defer db.locks.UnLock(key)
 
 	db.dict.Set(key, val)
-	db.SetExpire(key, time.Now().Unix()+sec)
+	db.SetExpire(key, now+sec)
 
 	return resp.NewSimpleString("OK")
 }
-- 
2.43.0


From 7e6810e2485200fa8320b5c20ae546b79a43513c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:37 +0000
Subject: [PATCH 09/71] fix: GETRANGE: the largest end index no longer
 overflows to an empty range

---
 memdb/strings.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/memdb/strings.go b/memdb/strings.go
index 3634a7d..fbbd236 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -236,6 +236,9 @@ func getRangeString(db *MemDb, cmd [][]byte) resp.RedisData {
 	if end < 0 {
 		end = len(v) + end
 	}
+	if end >= len(v) {
+		end = len(v) - 1
+	}
 	end++
 
 	if start > end || start >= len(v) || end < 0 {
-- 
2.43.0


From 0eb36370167b8d9ab5ab7c9b9866ef497d6f6349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:38 +0000
Subject: [PATCH 10/71] fix: SETRANGE: keep the bytes after the written range
 and never modify the old value in place

---
 memdb/strings.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index fbbd236..9527b28 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -292,15 +292,15 @@ func setRangeString(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	//  If the offset is larger than the current length of the string at key, the string is padded with zero-bytes to make offset fit.
-	if offset > len(oldVal) {
-		newVal = oldVal
-		zeroes := make([]byte, offset-len(oldVal)) // pre-allocating memory
-		newVal = append(newVal, zeroes...)
-	} else {
-		newVal = oldVal[:offset]
+	size := offset + len(value)
+	if size < len(oldVal) {
+		size = len(oldVal)
 	}
 
-	newVal = append(newVal, value...)
+	// a new buffer: replies may still refer to the old one
+	newVal = make([]byte, size)
+	copy(newVal, oldVal)
+	copy(newVal[offset:], value)
 	db.dict.Set(key, newVal)
 	return resp.NewInteger(int64(len(newVal)))
 }
-- 
2.43.0


From f8032645f2ddae5c66e971ad4bed5f90c1795a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:39 +0000
Subject: [PATCH 11/71] fix: SETRANGE: limit the string size instead of
 crashing, an empty value writes nothing

---
 memdb/strings.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/memdb/strings.go b/memdb/strings.go
index 9527b28..5e9b8aa 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -9,6 +9,9 @@ import (
 	"time"
 )
 
+// the largest string a command may build
+const maxStringLen = 512 * 1024 * 1024
+
 /*
 EX seconds -- Set the specified expire time, in seconds.
 PX milliseconds -- Set the specified expire time, in milliseconds.
@@ -275,6 +278,9 @@ func setRangeString(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	value := cmd[3]
+	if offset > maxStringLen-len(value) {
+		return resp.NewSimpleError("string exceeds maximum allowed size")
+	}
 
 	var oldVal, newVal []byte
 	db.locks.Lock(key)
@@ -291,6 +297,11 @@ func setRangeString(db *MemDb, cmd [][]byte) resp.RedisData {
 		oldVal = make([]byte, 0)
 	}
 
+	// nothing to write: neither create nor pad the string
+	if len(value) == 0 {
+		return resp.NewInteger(int64(len(oldVal)))
+	}
+
 	//  If the offset is larger than the current length of the string at key, the string is padded with zero-bytes to make offset fit.
 	size := offset + len(value)
 	if size < len(oldVal) {
-- 
2.43.0


From 7e6825218d1557d92fba9b195aa84fd8b9c96462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:40 +0000
Subject: [PATCH 12/71] fix: MGET: answer expired keys with nil and read all
 keys atomically

---
 memdb/strings.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 5e9b8aa..d77129f 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -323,22 +323,26 @@ func mGetString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	res := make([]resp.RedisData, 0)
 
+	keys := make([]string, 0, len(cmd)-1)
 	for _, k := range cmd[1:] {
 		key := string(k)
-		if !db.DeleteExpiredKey(key) {
-			db.locks.RLock(key)
-
-			if val, ok := db.dict.Get(key); ok {
-				if v, ok := val.([]byte); ok {
-					res = append(res, resp.NewBulkString(v))
-				} else {
-					res = append(res, resp.NewBulkString(nil)) // not string
-				}
+		db.DeleteExpiredKey(key)
+		keys = append(keys, key)
+	}
+
+	// lock all keys together, so that MGET never observes half of a multi-key write
+	db.locks.MRLock(keys)
+	defer db.locks.MRUnLock(keys)
+
+	for _, key := range keys {
+		if val, ok := db.dict.Get(key); ok {
+			if v, ok := val.([]byte); ok {
+				res = append(res, resp.NewBulkString(v))
 			} else {
-				res = append(res, resp.NewBulkString(nil))
+				res = append(res, resp.NewBulkString(nil)) // not string
 			}
-
-			db.locks.RUnLock(key)
+		} else {
+			res = append(res, resp.NewBulkString(nil))
 		}
 	}
 
-- 
2.43.0


From 64dbb694fe97b212c303fe7322c0cc3ef3076de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:42 +0000
Subject: [PATCH 13/71] fix: SETNX: test for the key while holding its lock

---
 memdb/strings.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index d77129f..1e7ce37 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -411,15 +411,15 @@ func setNxString(db *MemDb, cmd [][]byte) resp.RedisData {
 	key := string(cmd[1])
 	db.DeleteExpiredKey(key)
 
-	if _, ok := db.dict.Get(key); ok {
-		return resp.NewInteger(0)
-	}
-
 	val := cmd[2]
 
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
 
+	if _, ok := db.dict.Get(key); ok {
+		return resp.NewInteger(0)
+	}
+
 	db.dict.Set(key, val)
 
 	return resp.NewInteger(1)
-- 
2.43.0


From f7309371deb7e8ba9f2e3e16cbdd9ceb6e348dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:43 +0000
Subject: [PATCH 14/71] fix: INCR, INCRBY, DECR, DECRBY: a missing key counts
 as 0 and is created

---
 memdb/strings.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 1e7ce37..2aaf9af 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -477,7 +477,9 @@ func incrString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 		return resp.NewInteger(nV)
 	} else {
-		return resp.NewInteger(0)
+		// If the key does not exist, it is set to 0 before performing the operation.
+		db.dict.Set(key, []byte(strconv.FormatInt(1, 10)))
+		return resp.NewInteger(1)
 	}
 }
 
@@ -515,7 +517,9 @@ func incrByString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 		return resp.NewInteger(nV)
 	} else {
-		return resp.NewInteger(0)
+		// If the key does not exist, it is set to 0 before performing the operation.
+		db.dict.Set(key, []byte(strconv.FormatInt(increment, 10)))
+		return resp.NewInteger(increment)
 	}
 }
 
@@ -548,7 +552,9 @@ func decrString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 		return resp.NewInteger(nV)
 	} else {
-		return resp.NewInteger(0)
+		// If the key does not exist, it is set to 0 before performing the operation.
+		db.dict.Set(key, []byte(strconv.FormatInt(-1, 10)))
+		return resp.NewInteger(-1)
 	}
 }
 
@@ -586,7 +592,9 @@ func decrByString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 		return resp.NewInteger(nV)
 	} else {
-		return resp.NewInteger(0)
+		// If the key does not exist, it is set to 0 before performing the operation.
+		db.dict.Set(key, []byte(strconv.FormatInt(-decrement, 10)))
+		return resp.NewInteger(-decrement)
 	}
 }
 
-- 
2.43.0


From 83dc915f16e47ec8a91ea404f1816e1fe20ee235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:44 +0000
Subject: [PATCH 15/71] fix: INCR, INCRBY, DECR, DECRBY: reply with an error
 instead of wrapping around

---
 memdb/strings.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/memdb/strings.go b/memdb/strings.go
index 2aaf9af..ec84255 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -471,6 +471,9 @@ func incrString(db *MemDb, cmd [][]byte) resp.RedisData {
 			return resp.NewSimpleError("value is not an integer")
 		}
 
+		if nV == math.MaxInt64 {
+			return resp.NewSimpleError("increment or decrement would overflow")
+		}
 		nV++
 		nVal := strconv.FormatInt(nV, 10)
 		db.dict.Set(key, []byte(nVal))
@@ -511,6 +514,9 @@ func incrByString(db *MemDb, cmd [][]byte) resp.RedisData {
 			return resp.NewSimpleError("value is not an integer")
 		}
 
+		if (increment > 0 && nV > math.MaxInt64-increment) || (increment < 0 && nV < math.MinInt64-increment) {
+			return resp.NewSimpleError("increment or decrement would overflow")
+		}
 		nV += increment
 		nVal := strconv.FormatInt(nV, 10)
 		db.dict.Set(key, []byte(nVal))
@@ -546,6 +552,9 @@ func decrString(db *MemDb, cmd [][]byte) resp.RedisData {
 			return resp.NewSimpleError("value is not an integer")
 		}
 
+		if nV == math.MinInt64 {
+			return resp.NewSimpleError("increment or decrement would overflow")
+		}
 		nV--
 		nVal := strconv.FormatInt(nV, 10)
 		db.dict.Set(key, []byte(nVal))
@@ -586,6 +595,9 @@ func decrByString(db *MemDb, cmd [][]byte) resp.RedisData {
 			return resp.NewSimpleError("(error) value is not an integer")
 		}
 
+		if (decrement > 0 && nV < math.MinInt64+decrement) || (decrement < 0 && nV > math.MaxInt64+decrement) {
+			return resp.NewSimpleError("increment or decrement would overflow")
+		}
 		nV -= decrement
 		nVal := strconv.FormatInt(nV, 10)
 		db.dict.Set(key, []byte(nVal))
@@ -593,6 +605,9 @@ func decrByString(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewInteger(nV)
 	} else {
 		// If the key does not exist, it is set to 0 before performing the operation.
+		if decrement == math.MinInt64 {
+			return resp.NewSimpleError("increment or decrement would overflow")
+		}
 		db.dict.Set(key, []byte(strconv.FormatInt(-decrement, 10)))
 		return resp.NewInteger(-decrement)
 	}
-- 
2.43.0


From f37e9b1755353d37dddf166f95f7e92831bb06cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:45 +0000
Subject: [PATCH 16/71] fix: INCRBYFLOAT: reject operands and results that are
 not finite

---
 memdb/strings.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index ec84255..c9ead16 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -613,6 +613,10 @@ func decrByString(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 }
 
+func isFinite(f float64) bool {
+	return !math.IsNaN(f) && !math.IsInf(f, 0)
+}
+
 func incrByFloatString(db *MemDb, cmd [][]byte) resp.RedisData {
 	if len(cmd) != 3 {
 		return resp.NewSimpleError("wrong number of arguments for command")
@@ -623,7 +627,7 @@ func incrByFloatString(db *MemDb, cmd [][]byte) resp.RedisData {
 	db.DeleteExpiredKey(key)
 
 	increment, err := strconv.ParseFloat(string(cmd[2]), 64)
-	if err != nil {
+	if err != nil || !isFinite(increment) {
 		return resp.NewSimpleError("value is not an float")
 	}
 
@@ -637,11 +641,14 @@ func incrByFloatString(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 
 		fV, err := strconv.ParseFloat(string(v), 64)
-		if err != nil {
+		if err != nil || !isFinite(fV) {
 			return resp.NewSimpleError("value is not an float")
 		}
 
 		fV += increment
+		if !isFinite(fV) {
+			return resp.NewSimpleError("increment would produce NaN or Infinity")
+		}
 		fVal := strconv.FormatFloat(fV, 'f', -1, 64)
 		db.dict.Set(key, []byte(fVal))
 
-- 
2.43.0


From 2a6075e10c13017b31c139a17628c3586f9a4400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:13 +0000
Subject: [PATCH 17/71] fix: PERSIST: reply 0 for a missing key or a key
 without timeout

---
 memdb/keys.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index ceb418b..c371184 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -147,9 +147,8 @@ func persistKey(db *MemDb, cmd [][]byte) resp.RedisData {
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
 
-	db.DeleteExpire(key)
-
-	return resp.NewInteger(int64(1))
+	// 1 only if a timeout was removed
+	return resp.NewInteger(int64(db.DeleteExpire(key)))
 }
 
 func ttlKey(db *MemDb, cmd [][]byte) resp.RedisData {
-- 
2.43.0


From fec70eb51ddb9090e837e04dfafc1102468e2811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:14 +0000
Subject: [PATCH 18/71] fix: EXPIRE: reject a timeout that overflows the clock
 instead of expiring the key at once

---
 memdb/keys.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index c371184..f9155b7 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"gRedis/resp"
 	"gRedis/util"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -93,7 +94,11 @@ func expireKey(db *MemDb, cmd [][]byte) resp.RedisData {
 	if err != nil {
 		return resp.NewSimpleError("value is not an integer")
 	}
-	ttl := time.Now().Unix() + v
+	now := time.Now().Unix()
+	if v > math.MaxInt64-now {
+		return resp.NewSimpleError("invalid expire time in command")
+	}
+	ttl := now + v
 
 	// get option
 	var option string
-- 
2.43.0


From 0217c5393af517b84facf29b756d07d00e0c8217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:16 +0000
Subject: [PATCH 19/71] fix: EXPIRE LT: a key without timeout counts as never
 expiring

---
 memdb/keys.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index f9155b7..98217e2 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -128,7 +128,8 @@ func expireKey(db *MemDb, cmd [][]byte) resp.RedisData {
 			res = db.SetExpire(key, ttl)
 		}
 	case "lt":
-		if v, ok := db.expires.Get(key); ok && ttl < v.(int64) {
+		// a key without ttl has an infinite one
+		if v, ok := db.expires.Get(key); !ok || ttl < v.(int64) {
 			res = db.SetExpire(key, ttl)
 		}
 	default:
-- 
2.43.0


From 4f2c6b4c5fcb00ac372a9369333b61ac9ea4db6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:17 +0000
Subject: [PATCH 20/71] fix: lazy expiry: check the deadline again under the
 key lock before deleting

---
 memdb/memdb.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/memdb/memdb.go b/memdb/memdb.go
index b450868..7c05c92 100644
--- a/memdb/memdb.go
+++ b/memdb/memdb.go
@@ -55,6 +55,10 @@ func (db *MemDb) DeleteExpiredKey(key string) bool {
 	if db.CheckExpire(key) {
 		db.locks.Lock(key)
 		defer db.locks.UnLock(key)
+		// the key may have been written again before the lock was taken
+		if !db.CheckExpire(key) {
+			return false
+		}
 		db.dict.Delete(key)
 		db.expires.Delete(key)
 		return true
-- 
2.43.0


From ee39e7e2c3e36848ae2e7d6b935e131342120f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:18 +0000
Subject: [PATCH 21/71] fix: a deadline in the past removes the key at once, so
 concurrent commands cannot revive it

---
 memdb/memdb.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/memdb/memdb.go b/memdb/memdb.go
index 7c05c92..01dfcc6 100644
--- a/memdb/memdb.go
+++ b/memdb/memdb.go
@@ -42,6 +42,12 @@ func (db *MemDb) SetExpire(key string, ttl int64) int {
 		//logger.Error("SetExpire: key doesn't exist")
 		return 0
 	}
+	// already past: remove the key at once, while the caller holds its lock
+	if time.Now().Unix() > ttl {
+		db.dict.Delete(key)
+		db.expires.Delete(key)
+		return 1
+	}
 	db.expires.Set(key, ttl)
 	return 1
 }
-- 
2.43.0


From 5309bb0c55d02c90c8d9aa2fc6178993912da1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:20 +0000
Subject: [PATCH 22/71] fix: ConcurrentMap: count keys atomically and let Keys
 run while keys come and go

---
 memdb/concurrentMap.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/memdb/concurrentMap.go b/memdb/concurrentMap.go
index 72cf441..f869fad 100644
--- a/memdb/concurrentMap.go
+++ b/memdb/concurrentMap.go
@@ -3,14 +3,15 @@ package memdb
 import (
 	"gRedis/util"
 	"sync"
+	"sync/atomic"
 )
 
 const MaxSegSize int = int(1<<32 - 1) // max signed int32
 
 type ConcurrentMap struct {
 	table []*segment
-	size  int // table size
-	count int // key counts
+	size  int   // table size
+	count int64 // key counts, accessed atomically
 }
 
 type segment struct {
@@ -52,7 +53,7 @@ func (m *ConcurrentMap) Set(key string, value any) int {
 
 	if _, ok := segment.ht[key]; !ok {
 		added = 1
-		m.count++
+		atomic.AddInt64(&m.count, 1)
 	}
 	segment.ht[key] = value
 	return added
@@ -67,7 +68,7 @@ func (m *ConcurrentMap) Delete(key string) int {
 
 	if _, ok := segment.ht[key]; ok {
 		delete(segment.ht, key)
-		m.count--
+		atomic.AddInt64(&m.count, -1)
 		return 1
 	}
 
@@ -89,7 +90,7 @@ func (m *ConcurrentMap) Size() int {
 }
 
 func (m *ConcurrentMap) Count() int {
-	return m.count
+	return int(atomic.LoadInt64(&m.count))
 }
 
 func (m *ConcurrentMap) Clear() {
@@ -98,13 +99,11 @@ func (m *ConcurrentMap) Clear() {
 
 // 这里拿到的keys有可能有过期的，需要lazy deletion
 func (m *ConcurrentMap) Keys() []string {
-	keys := make([]string, m.count)
-	k := 0
+	keys := make([]string, 0, m.Count())
 	for i := range m.table {
 		m.table[i].rwMu.Lock()
 		for key := range m.table[i].ht {
-			keys[k] = key
-			k++
+			keys = append(keys, key)
 		}
 		m.table[i].rwMu.Unlock()
 	}
-- 
2.43.0


From afd594ea70d50e6b633056ddf9534217d3176a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:21 +0000
Subject: [PATCH 23/71] fix: DEL: delete several keys atomically

---
 memdb/keys.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index 98217e2..c577347 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -25,15 +25,21 @@ func delKey(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("wrong number of arguments for command")
 	}
 
-	deleted := 0
+	keys := make([]string, 0, len(cmd)-1)
 	for _, k := range cmd[1:] {
 		key := string(k)
-		if !db.DeleteExpiredKey(key) {
-			db.locks.Lock(key)
-			deleted += db.dict.Delete(key)
-			db.DeleteExpire(key)
-			db.locks.UnLock(key)
-		}
+		db.DeleteExpiredKey(key)
+		keys = append(keys, key)
+	}
+
+	// lock all keys together, so that observers see all of them deleted or none
+	db.locks.MLock(keys)
+	defer db.locks.MUnLock(keys)
+
+	deleted := 0
+	for _, key := range keys {
+		deleted += db.dict.Delete(key)
+		db.DeleteExpire(key)
 	}
 
 	return resp.NewInteger(int64(deleted))
-- 
2.43.0


From 17865c5ce6e25f3a6c710252352b71b04c748487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:22 +0000
Subject: [PATCH 24/71] fix: EXISTS: look at several keys atomically

---
 memdb/keys.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index c577347..e927cb9 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -50,15 +50,21 @@ func existsKey(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("wrong number of arguments for command")
 	}
 
-	existed := 0
+	keys := make([]string, 0, len(cmd)-1)
 	for _, k := range cmd[1:] {
 		key := string(k)
-		if !db.DeleteExpiredKey(key) {
-			db.locks.RLock(key)
-			if _, ok := db.dict.Get(key); ok {
-				existed++
-			}
-			db.locks.RUnLock(key)
+		db.DeleteExpiredKey(key)
+		keys = append(keys, key)
+	}
+
+	// lock all keys together, so that no multi-key write is seen half done
+	db.locks.MRLock(keys)
+	defer db.locks.MRUnLock(keys)
+
+	existed := 0
+	for _, key := range keys {
+		if _, ok := db.dict.Get(key); ok {
+			existed++
 		}
 	}
 
-- 
2.43.0


From de36021453a048120a5e5f5ffb7541b54cbc5ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:17 +0000
Subject: [PATCH 25/71] fix: LINSERT: insert at the first pivot only (AFTER
 looped forever when value and pivot were equal)

---
 memdb/list_struct.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/memdb/list_struct.go b/memdb/list_struct.go
index 287b99a..56afaf1 100644
--- a/memdb/list_struct.go
+++ b/memdb/list_struct.go
@@ -68,6 +68,7 @@ func (l *List) InsertBefore(val []byte, pivot []byte) bool {
 			cur.Prev = node
 			node.Prev.Next = node
 			l.Len++
+			break
 		}
 	}
 	return ok
@@ -82,6 +83,7 @@ func (l *List) InsertAfter(val []byte, pivot []byte) bool {
 			cur.Next = node
 			node.Next.Prev = node
 			l.Len++
+			break
 		}
 	}
 	return ok
-- 
2.43.0


From ce9d67d0c73d95b8af738a9b4e768332557e6c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:19 +0000
Subject: [PATCH 26/71] fix: LINDEX, LSET: the smallest 64-bit index is out of
 range instead of a crash

---
 memdb/list_struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memdb/list_struct.go b/memdb/list_struct.go
index 56afaf1..6aedbc8 100644
--- a/memdb/list_struct.go
+++ b/memdb/list_struct.go
@@ -28,7 +28,7 @@ func NewList() *List {
 func (l *List) Index(index int) *ListNode {
 	var cur *ListNode
 	if index < 0 {
-		if -index > l.Len {
+		if index < -l.Len {
 			return nil
 		}
 		cur = l.Tail.Prev
-- 
2.43.0


From 42f6e4d21a467b05acc46172debc46bbfe6fe37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:20 +0000
Subject: [PATCH 27/71] fix: LREM: the smallest 64-bit count removes every
 match instead of none

---
 memdb/list_struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memdb/list_struct.go b/memdb/list_struct.go
index 6aedbc8..9e9c4ad 100644
--- a/memdb/list_struct.go
+++ b/memdb/list_struct.go
@@ -184,7 +184,7 @@ func (l *List) Remove(val []byte, count int) int {
 			cur = cur.Next
 		}
 	} else {
-		for cur := l.Tail.Prev; cur != l.Head && removed < -count; {
+		for cur := l.Tail.Prev; cur != l.Head && -removed > count; {
 			if bytes.Equal(cur.Val, val) {
 				cur.Next.Prev = cur.Prev
 				cur.Prev.Next = cur.Next
-- 
2.43.0


From d137fb67d21f9f576bed785a56e0f0a4e37c69a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:21 +0000
Subject: [PATCH 28/71] fix: LMOVE: do not create an empty destination when the
 source has the wrong type

---
 memdb/list.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/memdb/list.go b/memdb/list.go
index 22af999..8b19136 100644
--- a/memdb/list.go
+++ b/memdb/list.go
@@ -159,10 +159,9 @@ func lMoveList(db *MemDb, cmd [][]byte) resp.RedisData {
 	if !ok {
 		return resp.NewBulkString(nil)
 	}
-	desVal, ok := db.dict.Get(des)
-	if !ok {
+	desVal, desOk := db.dict.Get(des)
+	if !desOk {
 		desVal = NewList()
-		db.dict.Set(des, desVal)
 	}
 
 	// wrong type
@@ -183,6 +182,11 @@ func lMoveList(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 	}
 
+	// create the destination only now that nothing can fail
+	if !desOk {
+		db.dict.Set(des, desList)
+	}
+
 	var srcPop *ListNode
 	if srcDrc == "left" {
 		srcPop = srcList.LPop()
-- 
2.43.0


From 2352065a5ba468cc9f1ed9b81d96253c6807910a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:23 +0000
Subject: [PATCH 29/71] fix: LPOP, RPOP: an explicit count always replies with
 an array, and 0 is a valid count

---
 memdb/list.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/memdb/list.go b/memdb/list.go
index 8b19136..777cc3c 100644
--- a/memdb/list.go
+++ b/memdb/list.go
@@ -219,7 +219,7 @@ func lPopList(db *MemDb, cmd [][]byte) resp.RedisData {
 	var err error
 	if len(cmd) == 3 {
 		count, err = strconv.Atoi(string(cmd[2]))
-		if err != nil || count <= 0 {
+		if err != nil || count < 0 {
 			return resp.NewSimpleError("value is out of range, must be positive")
 		}
 	}
@@ -246,7 +246,8 @@ func lPopList(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 	}()
 
-	if count == 1 {
+	// without a count a single element, otherwise an array
+	if len(cmd) == 2 {
 		node := l.LPop()
 		if node == nil {
 			return resp.NewBulkString(nil)
@@ -732,7 +733,7 @@ func rPopList(db *MemDb, cmd [][]byte) resp.RedisData {
 	var err error
 	if len(cmd) == 3 {
 		count, err = strconv.Atoi(string(cmd[2]))
-		if err != nil || count <= 0 {
+		if err != nil || count < 0 {
 			return resp.NewSimpleError("value is out of range, must be positive")
 		}
 	}
@@ -759,7 +760,8 @@ func rPopList(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 	}()
 
-	if count == 1 {
+	// without a count a single element, otherwise an array
+	if len(cmd) == 2 {
 		node := l.RPop()
 		if node == nil {
 			return resp.NewBulkString(nil)
-- 
2.43.0


From 3c41ee64f79fb19eaf55f0c0479fed6fa8630e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:24 +0000
Subject: [PATCH 30/71] fix: LPOP, RPOP: reject surplus arguments instead of
 popping

---
 memdb/list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/memdb/list.go b/memdb/list.go
index 777cc3c..b1b61d3 100644
--- a/memdb/list.go
+++ b/memdb/list.go
@@ -205,7 +205,7 @@ func lMoveList(db *MemDb, cmd [][]byte) resp.RedisData {
 }
 
 func lPopList(db *MemDb, cmd [][]byte) resp.RedisData {
-	if len(cmd) < 2 {
+	if len(cmd) < 2 || len(cmd) > 3 {
 		return resp.NewSimpleError("wrong number of arguments for command")
 	}
 
@@ -719,7 +719,7 @@ func lTrimList(db *MemDb, cmd [][]byte) resp.RedisData {
 }
 
 func rPopList(db *MemDb, cmd [][]byte) resp.RedisData {
-	if len(cmd) < 2 {
+	if len(cmd) < 2 || len(cmd) > 3 {
 		return resp.NewSimpleError("wrong number of arguments for command")
 	}
 
-- 
2.43.0


From 5a12e7559086be6ac2b9c7ba3f7835057787f468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:25 +0000
Subject: [PATCH 31/71] fix: LTRIM: a missing key is an empty list, not an
 error

---
 memdb/list.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/memdb/list.go b/memdb/list.go
index b1b61d3..11e4b7f 100644
--- a/memdb/list.go
+++ b/memdb/list.go
@@ -677,9 +677,7 @@ func lTrimList(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		return resp.NewSimpleError("no such key")
-	}
+	db.DeleteExpiredKey(key)
 
 	start, err := strconv.Atoi(string(cmd[2]))
 	if err != nil {
@@ -697,7 +695,8 @@ func lTrimList(db *MemDb, cmd [][]byte) resp.RedisData {
 	// key not existed
 	v, ok := db.dict.Get(key)
 	if !ok {
-		return resp.NewSimpleError("no such key")
+		// a missing key is an empty list
+		return resp.NewSimpleString("OK")
 	}
 
 	// wrong type
-- 
2.43.0


From 2168d3b3d4e2afbb6bca028b6ecd2a0285894385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:26 +0000
Subject: [PATCH 32/71] fix: LPOS: RANK, COUNT and MAXLEN combine as
 documented, COUNT without a match is an empty array

---
 memdb/list.go | 145 +++++++++-----------------------------------------
 1 file changed, 26 insertions(+), 119 deletions(-)

diff --git a/memdb/list.go b/memdb/list.go
index 11e4b7f..ef7dec7 100644
--- a/memdb/list.go
+++ b/memdb/list.go
@@ -285,7 +285,7 @@ func lPosList(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	element := cmd[2]
 
-	var rank, count, maxLen bool
+	var rank, count bool
 	var rankVal, countVal, maxLenVal int
 	if len(cmd) > 3 {
 		// parse options
@@ -311,7 +311,6 @@ func lPosList(db *MemDb, cmd [][]byte) resp.RedisData {
 					return resp.NewSimpleError("COUNT can't be negative")
 				}
 			case "maxlen":
-				maxLen = true
 				maxLenVal, err = strconv.Atoi(string(cmd[i+1]))
 				if err != nil {
 					return resp.NewSimpleError("value is not an integer")
@@ -340,133 +339,41 @@ func lPosList(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 	}
 
-	var res []resp.RedisData
-	var reverse bool
-	var pos int
-
-	// normally pos without options
-	if !count && !rank && !maxLen {
-		pos = l.Pos(element)
-		if pos == -1 {
-			return resp.NewBulkString(nil)
-		} else {
-			return resp.NewInteger(int64(pos))
-		}
-	}
-
-	if count && countVal == 0 {
-		countVal = l.Len
-	}
-
-	if maxLen && maxLenVal == 0 {
-		maxLenVal = l.Len
-	}
-
-	var cur *ListNode
-	if rank {
-		if rankVal > 0 {
-			pos = -1
-			for cur = l.Head.Next; cur != l.Tail; cur = cur.Next {
-				pos++
-				if bytes.Equal(element, cur.Val) {
-					rankVal--
+	// scan at most maxLen elements from the head, or from the tail for a negative
+	// rank, skip the first |rank|-1 matches and collect at most count of the rest
+	reverse := rank && rankVal < 0
+	cur, pos := l.Head.Next, 0
+	if reverse {
+		cur, pos = l.Tail.Prev, l.Len-1
+	}
+
+	res := make([]resp.RedisData, 0)
+	for scanned := 0; scanned < l.Len && (maxLenVal == 0 || scanned < maxLenVal); scanned++ {
+		if bytes.Equal(element, cur.Val) {
+			if rankVal > 1 {
+				rankVal--
+			} else if rankVal < -1 {
+				rankVal++
+			} else {
+				if !count {
+					return resp.NewInteger(int64(pos))
 				}
-				if maxLen {
-					maxLenVal--
-					if maxLenVal == 0 {
-						break
-					}
-				}
-				if rankVal == 0 {
-					break
-				}
-			}
-		} else {
-			reverse = true
-			pos = l.Len
-			for cur = l.Tail.Prev; cur != l.Head; cur = cur.Prev {
-				pos--
-				if bytes.Equal(element, cur.Val) {
-					rankVal++
-				}
-				if maxLen {
-					maxLenVal--
-					if maxLenVal == 0 {
-						break
-					}
-				}
-				if rankVal == 0 {
+				res = append(res, resp.NewInteger(int64(pos)))
+				if countVal != 0 && len(res) == countVal {
 					break
 				}
 			}
 		}
-	} else {
-		cur = l.Head.Next
-		pos = 0
-		if maxLen {
-			maxLenVal--
-		}
-	}
-
-	// when rank is out of range, return nil
-	if (rank && rankVal != 0) || cur == l.Head || cur == l.Tail {
-		return resp.NewBulkString(nil)
-	}
-
-	if count {
-		if !reverse {
-			for ; cur != l.Tail; cur = cur.Next {
-				if bytes.Equal(element, cur.Val) {
-					res = append(res, resp.NewInteger(int64(pos)))
-					countVal--
-					if countVal == 0 {
-						break
-					}
-				}
-				if maxLen {
-					if maxLenVal <= 0 {
-						break
-					}
-					maxLenVal--
-				}
-				pos++
-			}
+		if reverse {
+			cur = cur.Prev
+			pos--
 		} else {
-			for ; cur != l.Head; cur = cur.Prev {
-				if bytes.Equal(element, cur.Val) {
-					res = append(res, resp.NewInteger(int64(pos)))
-					countVal--
-					if countVal == 0 {
-						break
-					}
-				}
-				if maxLen {
-					if maxLenVal <= 0 {
-						break
-					}
-					maxLenVal--
-				}
-				pos--
-			}
-		}
-	} else {
-		// if count is not set, return first find pos inside maxLen range
-		for ; cur != l.Tail; cur = cur.Next {
-			if bytes.Equal(element, cur.Val) {
-				return resp.NewInteger(int64(pos))
-			}
+			cur = cur.Next
 			pos++
-			if maxLen {
-				if maxLenVal <= 0 {
-					break
-				}
-				maxLenVal--
-			}
 		}
-		return resp.NewBulkString(nil)
 	}
 
-	if len(res) == 0 {
+	if !count {
 		return resp.NewBulkString(nil)
 	}
 	return resp.NewArray(res)
-- 
2.43.0


From 7cc27ac020ef0710e853cee5cdea73bfab86a76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:27 +0000
Subject: [PATCH 33/71] fix: LPOS: options are validated and COUNT replies with
 an array for missing keys as well

---
 memdb/list.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/memdb/list.go b/memdb/list.go
index ef7dec7..cc17bf4 100644
--- a/memdb/list.go
+++ b/memdb/list.go
@@ -279,9 +279,7 @@ func lPosList(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		return resp.NewBulkString(nil)
-	}
+	db.DeleteExpiredKey(key)
 
 	element := cmd[2]
 
@@ -330,6 +328,9 @@ func lPosList(db *MemDb, cmd [][]byte) resp.RedisData {
 	// key not existed
 	v, ok := db.dict.Get(key)
 	if !ok {
+		if count {
+			return resp.NewArray([]resp.RedisData{})
+		}
 		return resp.NewBulkString(nil)
 	}
 
-- 
2.43.0


From c65d312a4787ef41dd2bafea590e7cbc9b69d5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:29 +0000
Subject: [PATCH 34/71] fix: HINCRBY, HINCRBYFLOAT: validate the increment
 before creating the hash

---
 memdb/hash.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index 162611e..fd5cf4f 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -157,6 +157,11 @@ func hIncrByHash(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("wrong number of arguments for command")
 	}
 
+	increment, err := strconv.Atoi(string(cmd[3]))
+	if err != nil {
+		return resp.NewSimpleError("value is not an integer")
+	}
+
 	// passive delete expired key
 	key := string(cmd[1])
 	db.DeleteExpiredKey(key)
@@ -178,11 +183,6 @@ func hIncrByHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	field := string(cmd[2])
-	increment, err := strconv.Atoi(string(cmd[3]))
-	if err != nil {
-		return resp.NewSimpleError("value is not an integer")
-	}
-
 	val, ok := h.IncrBy(field, increment)
 	if !ok {
 		return resp.NewSimpleError("hash value is not an integer")
@@ -196,6 +196,11 @@ func hIncrByFloatHash(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("wrong number of arguments for command")
 	}
 
+	increment, err := strconv.ParseFloat(string(cmd[3]), 64)
+	if err != nil {
+		return resp.NewSimpleError("value is not an float")
+	}
+
 	// passive delete expired key
 	key := string(cmd[1])
 	db.DeleteExpiredKey(key)
@@ -218,11 +223,6 @@ func hIncrByFloatHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	field := string(cmd[2])
-	increment, err := strconv.ParseFloat(string(cmd[3]), 64)
-	if err != nil {
-		return resp.NewSimpleError("value is not an float")
-	}
-
 	val, ok := h.IncrByFloat(field, increment)
 	if !ok {
 		return resp.NewSimpleError("hash value is not an float")
-- 
2.43.0


From c195d478c5d227eca3598b30f04f6e12c704cdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:30 +0000
Subject: [PATCH 35/71] fix: HINCRBY: reply with an error instead of wrapping
 around

---
 memdb/hash.go        | 2 +-
 memdb/hash_struct.go | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index fd5cf4f..5049009 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -185,7 +185,7 @@ func hIncrByHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	field := string(cmd[2])
 	val, ok := h.IncrBy(field, increment)
 	if !ok {
-		return resp.NewSimpleError("hash value is not an integer")
+		return resp.NewSimpleError("hash value is not an integer or the result would overflow")
 	}
 
 	return resp.NewInteger(int64(val))
diff --git a/memdb/hash_struct.go b/memdb/hash_struct.go
index dc73ddb..9ec0de6 100644
--- a/memdb/hash_struct.go
+++ b/memdb/hash_struct.go
@@ -1,6 +1,7 @@
 package memdb
 
 import (
+	"math"
 	"strconv"
 )
 
@@ -84,6 +85,9 @@ func (h *Hash) IncrBy(key string, increment int) (int, bool) {
 		if err != nil {
 			return 0, false
 		}
+		if (increment > 0 && n > math.MaxInt-increment) || (increment < 0 && n < math.MinInt-increment) {
+			return 0, false
+		}
 		value := n + increment
 		h.Set(key, []byte(strconv.Itoa(value)))
 		return value, true
-- 
2.43.0


From b46c4bdb291400614db62680c11c993a627daecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:31 +0000
Subject: [PATCH 36/71] fix: HINCRBYFLOAT: reject operands and results that are
 not finite

---
 memdb/hash.go        | 4 ++--
 memdb/hash_struct.go | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index 5049009..cfe552b 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -197,7 +197,7 @@ func hIncrByFloatHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	increment, err := strconv.ParseFloat(string(cmd[3]), 64)
-	if err != nil {
+	if err != nil || !isFinite(increment) {
 		return resp.NewSimpleError("value is not an float")
 	}
 
@@ -225,7 +225,7 @@ func hIncrByFloatHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	field := string(cmd[2])
 	val, ok := h.IncrByFloat(field, increment)
 	if !ok {
-		return resp.NewSimpleError("hash value is not an float")
+		return resp.NewSimpleError("hash value is not an float or the result would not be finite")
 	}
 
 	return resp.NewBulkString([]byte(strconv.FormatFloat(val, 'f', -1, 64)))
diff --git a/memdb/hash_struct.go b/memdb/hash_struct.go
index 9ec0de6..06a62bd 100644
--- a/memdb/hash_struct.go
+++ b/memdb/hash_struct.go
@@ -101,10 +101,13 @@ func (h *Hash) IncrByFloat(key string, increment float64) (float64, bool) {
 		return increment, true
 	} else {
 		f, err := strconv.ParseFloat(string(v), 64)
-		if err != nil {
+		if err != nil || !isFinite(f) {
 			return 0, false
 		}
 		value := f + increment
+		if !isFinite(value) {
+			return 0, false
+		}
 		h.Set(key, []byte(strconv.FormatFloat(value, 'f', -1, 64)))
 		return value, true
 	}
-- 
2.43.0


From 0b972a6b0c29cf6f746dffa6d6ab4220156a4ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:33 +0000
Subject: [PATCH 37/71] fix: HMGET: a missing key answers nil for every field

---
 memdb/hash.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index cfe552b..ff01af0 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -304,10 +304,7 @@ func hMGetHash(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		// an empty list when key does not exist.
-		return resp.NewArray([]resp.RedisData{})
-	}
+	db.DeleteExpiredKey(key)
 
 	db.locks.RLock(key)
 	defer db.locks.RUnLock(key)
@@ -315,8 +312,8 @@ func hMGetHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	// key not existed
 	v, ok := db.dict.Get(key)
 	if !ok {
-		// an empty list when key does not exist.
-		return resp.NewArray([]resp.RedisData{})
+		// every field of a missing hash is nil
+		v = NewHash()
 	}
 
 	// wrong type
-- 
2.43.0


From 4fb2a2ada32151e1eacbc2e471ce06a5381e5d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:34 +0000
Subject: [PATCH 38/71] fix: HSETNX: depend on the field, not on the key, and
 report a wrong type

---
 memdb/hash.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index ff01af0..b8f0b59 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -418,9 +418,6 @@ func hSetNxHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	if !ok {
 		v = NewHash()
 		db.dict.Set(key, v)
-	} else {
-		// 0 if the field already exists in the hash and no operation was performed.
-		return resp.NewInteger(0)
 	}
 
 	// wrong type
@@ -431,6 +428,10 @@ func hSetNxHash(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	field := string(cmd[2])
 	val := cmd[3]
+	// 0 if the field already exists in the hash and no operation was performed.
+	if h.Exist(field) {
+		return resp.NewInteger(0)
+	}
 	h.Set(field, val)
 
 	return resp.NewInteger(1)
-- 
2.43.0


From c713f52f9b5d57691602f455c70ace3a68ab5f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:35 +0000
Subject: [PATCH 39/71] fix: HRANDFIELD: an explicit count of 1 replies with an
 array and honours WITHVALUES

---
 memdb/hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index b8f0b59..d41bacd 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -549,7 +549,7 @@ func hRandFieldHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	//  a single, randomly selected field when the count option is not used
-	if count == 1 {
+	if len(cmd) == 2 {
 		fields := h.Random(1)
 		return resp.NewBulkString([]byte(fields[0]))
 	}
-- 
2.43.0


From 4b09189daa617c65c5935190e869c0d00e844f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:37 +0000
Subject: [PATCH 40/71] fix: HRANDFIELD: refuse a huge negative count instead
 of crashing

---
 memdb/hash.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/memdb/hash.go b/memdb/hash.go
index d41bacd..1ae7753 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -504,6 +504,9 @@ func hStrLenHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	return resp.NewInteger(int64(h.StrLen(field)))
 }
 
+// the most random elements (with repetitions) a command may ask for
+const maxRandomCount = 1 << 20
+
 func hRandFieldHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	if len(cmd) < 2 || len(cmd) > 4 {
 		return resp.NewSimpleError("wrong number of arguments for command")
@@ -523,6 +526,9 @@ func hRandFieldHash(db *MemDb, cmd [][]byte) resp.RedisData {
 		if err != nil {
 			return resp.NewSimpleError("value is not an integer")
 		}
+		if count < -maxRandomCount {
+			return resp.NewSimpleError("value is out of range")
+		}
 	}
 
 	if len(cmd) == 4 {
-- 
2.43.0


From 1dbfaf426f65fb8b2485ab6bb1b10d7d1926eb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:12 +0000
Subject: [PATCH 41/71] fix: SREM: delete the key when its last member is
 removed

---
 memdb/set.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/memdb/set.go b/memdb/set.go
index 37a9c8b..c876c6a 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -637,6 +637,14 @@ func sRemSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 	}
 
+	// if set is empty, delete it
+	defer func() {
+		if s.Len() == 0 {
+			db.dict.Delete(key)
+			db.DeleteExpire(key)
+		}
+	}()
+
 	res := 0
 	for _, _key := range cmd[2:] {
 		key := string(_key)
-- 
2.43.0


From f4bf78ad58d445c5a77df81da01eb2547067093f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:13 +0000
Subject: [PATCH 42/71] fix: SINTER, SUNION, SDIFF and STORE forms: expired
 keys count as empty sets

---
 memdb/set.go | 54 ++++++++++++++++++----------------------------------
 1 file changed, 18 insertions(+), 36 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index c876c6a..1b3ed03 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -75,10 +75,9 @@ func sInterSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-1)
 	for _, _key := range cmd[1:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
+		// an expired key is an empty set, like a missing one
+		db.DeleteExpiredKey(key)
+		keys = append(keys, key)
 	}
 
 	db.locks.MRLock(keys)
@@ -143,15 +142,10 @@ func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-2)
 	for _, _key := range cmd[2:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
-	}
-	if len(keys) == 0 {
-		return resp.NewInteger(0)
+		// an expired key is an empty set, like a missing one
+		db.DeleteExpiredKey(key)
+		keys = append(keys, key)
 	}
-
 	// get primary key
 	key := keys[0]
 
@@ -224,10 +218,9 @@ func sDiffSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-1)
 	for _, _key := range cmd[1:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
+		// an expired key is an empty set, like a missing one
+		db.DeleteExpiredKey(key)
+		keys = append(keys, key)
 	}
 
 	db.locks.MRLock(keys)
@@ -292,15 +285,10 @@ func sDiffStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-2)
 	for _, _key := range cmd[2:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
+		// an expired key is an empty set, like a missing one
+		db.DeleteExpiredKey(key)
+		keys = append(keys, key)
 	}
-	if len(keys) == 0 {
-		return resp.NewInteger(0)
-	}
-
 	// get primary key
 	key := keys[0]
 
@@ -663,10 +651,9 @@ func sUnionSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-1)
 	for _, _key := range cmd[1:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
+		// an expired key is an empty set, like a missing one
+		db.DeleteExpiredKey(key)
+		keys = append(keys, key)
 	}
 
 	db.locks.MRLock(keys)
@@ -731,15 +718,10 @@ func sUnionStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-2)
 	for _, _key := range cmd[2:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
+		// an expired key is an empty set, like a missing one
+		db.DeleteExpiredKey(key)
+		keys = append(keys, key)
 	}
-	if len(keys) == 0 {
-		return resp.NewInteger(0)
-	}
-
 	// get primary key
 	key := keys[0]
 
-- 
2.43.0


From d897e7b11095ff86b171700eab7c1bcc97551d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:14 +0000
Subject: [PATCH 43/71] fix: SINTERSTORE: missing keys count as empty sets

---
 memdb/set.go | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index 1b3ed03..edcf735 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -191,13 +191,15 @@ func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	sets := make([]*Set, 0, len(keys)-1)
 	for _, key := range keys[1:] {
 		_set, ok := db.dict.Get(key)
-		if ok {
-			set, ok := _set.(*Set)
-			if !ok {
-				return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
-			}
-			sets = append(sets, set)
+		if !ok {
+			// Keys that do not exist are considered to be empty sets.
+			_set = NewSet()
+		}
+		set, ok := _set.(*Set)
+		if !ok {
+			return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 		}
+		sets = append(sets, set)
 	}
 
 	inter := s.Intersect(sets...)
@@ -334,13 +336,15 @@ func sDiffStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	sets := make([]*Set, 0, len(keys)-1)
 	for _, key := range keys[1:] {
 		_set, ok := db.dict.Get(key)
-		if ok {
-			set, ok := _set.(*Set)
-			if !ok {
-				return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
-			}
-			sets = append(sets, set)
+		if !ok {
+			// Keys that do not exist are considered to be empty sets.
+			_set = NewSet()
+		}
+		set, ok := _set.(*Set)
+		if !ok {
+			return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 		}
+		sets = append(sets, set)
 	}
 
 	diff := s.Difference(sets...)
@@ -767,13 +771,15 @@ func sUnionStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	sets := make([]*Set, 0, len(keys)-1)
 	for _, key := range keys[1:] {
 		_set, ok := db.dict.Get(key)
-		if ok {
-			set, ok := _set.(*Set)
-			if !ok {
-				return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
-			}
-			sets = append(sets, set)
+		if !ok {
+			// Keys that do not exist are considered to be empty sets.
+			_set = NewSet()
 		}
+		set, ok := _set.(*Set)
+		if !ok {
+			return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
+		}
+		sets = append(sets, set)
 	}
 
 	union := s.Union(sets...)
-- 
2.43.0


From 405fdde47b1acc9e1f2bb172b9288d53637df3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:16 +0000
Subject: [PATCH 44/71] fix: SINTERSTORE, SUNIONSTORE, SDIFFSTORE: leave the
 destination alone when a source has the wrong type

---
 memdb/set.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index edcf735..fea3aaa 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -167,11 +167,16 @@ func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 	}
 
-	// whatever old destination key/value it is, just cover before return
+	// whatever old destination key/value it is, just cover before return,
+	// unless a source key has the wrong type
 	_, oldOk := db.dict.Get(dest)
 	destSet := NewSet()
+	stored := false
 
 	defer func() {
+		if !stored {
+			return
+		}
 		db.dict.Set(dest, destSet)
 		if oldOk {
 			db.DeleteExpire(dest)
@@ -184,6 +189,7 @@ func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		for _, mem := range members {
 			destSet.Add(mem)
 		}
+		stored = true
 		return resp.NewInteger(int64(destSet.Len()))
 	}
 
@@ -208,6 +214,7 @@ func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		destSet.Add(mem)
 	}
 
+	stored = true
 	return resp.NewInteger(int64(destSet.Len()))
 }
 
@@ -312,11 +319,16 @@ func sDiffStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 	}
 
-	// whatever old destination key/value it is, just cover old before return
+	// whatever old destination key/value it is, just cover before return,
+	// unless a source key has the wrong type
 	_, oldOk := db.dict.Get(dest)
 	destSet := NewSet()
+	stored := false
 
 	defer func() {
+		if !stored {
+			return
+		}
 		db.dict.Set(dest, destSet)
 		if oldOk {
 			db.DeleteExpire(dest)
@@ -329,6 +341,7 @@ func sDiffStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		for _, mem := range members {
 			destSet.Add(mem)
 		}
+		stored = true
 		return resp.NewInteger(int64(destSet.Len()))
 	}
 
@@ -353,6 +366,7 @@ func sDiffStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		destSet.Add(mem)
 	}
 
+	stored = true
 	return resp.NewInteger(int64(destSet.Len()))
 }
 
@@ -747,11 +761,16 @@ func sUnionStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 	}
 
-	// whatever old destination key/value it is, just cover before return
+	// whatever old destination key/value it is, just cover before return,
+	// unless a source key has the wrong type
 	_, oldOk := db.dict.Get(dest)
 	destSet := NewSet()
+	stored := false
 
 	defer func() {
+		if !stored {
+			return
+		}
 		db.dict.Set(dest, destSet)
 		if oldOk {
 			db.DeleteExpire(dest)
@@ -764,6 +783,7 @@ func sUnionStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		for _, mem := range members {
 			destSet.Add(mem)
 		}
+		stored = true
 		return resp.NewInteger(int64(destSet.Len()))
 	}
 
@@ -788,6 +808,7 @@ func sUnionStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		destSet.Add(mem)
 	}
 
+	stored = true
 	return resp.NewInteger(int64(destSet.Len()))
 }
 
-- 
2.43.0


From c4ad9f85d88fde5c60f0f8de73c2d36b59757a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:17 +0000
Subject: [PATCH 45/71] fix: SINTERSTORE, SUNIONSTORE, SDIFFSTORE: an empty
 result deletes the destination

---
 memdb/set.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index fea3aaa..a3ad376 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -177,7 +177,12 @@ func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		if !stored {
 			return
 		}
-		db.dict.Set(dest, destSet)
+		// an empty result deletes the destination
+		if destSet.Len() == 0 {
+			db.dict.Delete(dest)
+		} else {
+			db.dict.Set(dest, destSet)
+		}
 		if oldOk {
 			db.DeleteExpire(dest)
 		}
@@ -329,7 +334,12 @@ func sDiffStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		if !stored {
 			return
 		}
-		db.dict.Set(dest, destSet)
+		// an empty result deletes the destination
+		if destSet.Len() == 0 {
+			db.dict.Delete(dest)
+		} else {
+			db.dict.Set(dest, destSet)
+		}
 		if oldOk {
 			db.DeleteExpire(dest)
 		}
@@ -771,7 +781,12 @@ func sUnionStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		if !stored {
 			return
 		}
-		db.dict.Set(dest, destSet)
+		// an empty result deletes the destination
+		if destSet.Len() == 0 {
+			db.dict.Delete(dest)
+		} else {
+			db.dict.Set(dest, destSet)
+		}
 		if oldOk {
 			db.DeleteExpire(dest)
 		}
-- 
2.43.0


From 6e2a37e816ca18bc29929a91eec9991b2ef730e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:18 +0000
Subject: [PATCH 46/71] fix: SMOVE: create a missing or expired destination

---
 memdb/set.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index a3ad376..5bf2b77 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -460,9 +460,7 @@ func sMoveSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	des := string(cmd[2])
-	if db.DeleteExpiredKey(des) {
-		return resp.NewInteger(0)
-	}
+	db.DeleteExpiredKey(des)
 
 	member := string(cmd[3])
 
@@ -486,9 +484,10 @@ func sMoveSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 	}()
 
-	desVal, ok := db.dict.Get(des)
-	if !ok {
-		return resp.NewInteger(0)
+	// a missing destination is created when there is a member to move
+	desVal, desOk := db.dict.Get(des)
+	if !desOk {
+		desVal = NewSet()
 	}
 
 	desSet, ok := desVal.(*Set)
@@ -497,6 +496,9 @@ func sMoveSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	res := srcSet.Move(desSet, member)
+	if !desOk && res == 1 {
+		db.dict.Set(des, desSet)
+	}
 
 	return resp.NewInteger(int64(res))
 }
-- 
2.43.0


From 15014a39b388bca293af5fc3cc9c5d5b3043b4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:19 +0000
Subject: [PATCH 47/71] fix: SPOP, SRANDMEMBER: the empty string is a member
 like any other

---
 memdb/set.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index 5bf2b77..f9b3b7c 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -551,9 +551,6 @@ func sPopSet(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	if !count {
 		pop := s.Pop()
-		if pop == "" {
-			return resp.NewBulkString(nil)
-		}
 		return resp.NewBulkString([]byte(pop))
 	}
 
@@ -611,7 +608,7 @@ func sRandMemberSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	var rand []string
 	if !count {
 		rand = s.Random(1)
-		if rand[0] == "" {
+		if len(rand) == 0 {
 			return resp.NewBulkString(nil)
 		}
 		return resp.NewBulkString([]byte(rand[0]))
-- 
2.43.0


From 8147d2f7ad582a6dd371bbcbd5f39a48879e87cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:20 +0000
Subject: [PATCH 48/71] fix: SRANDMEMBER: huge counts no longer crash, a count
 of 0 is an empty array

---
 memdb/set.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index f9b3b7c..df08fbd 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -588,8 +588,8 @@ func sRandMemberSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 	}
 
-	if countVal == 0 {
-		return resp.NewBulkString(nil)
+	if countVal < -maxRandomCount {
+		return resp.NewSimpleError("value is out of range")
 	}
 
 	db.locks.RLock(key)
@@ -614,14 +614,8 @@ func sRandMemberSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewBulkString([]byte(rand[0]))
 	}
 
-	var res []resp.RedisData
-	if countVal < 0 {
-		res = make([]resp.RedisData, 0, -countVal)
-	} else {
-		res = make([]resp.RedisData, 0, countVal)
-	}
-
 	rand = s.Random(countVal)
+	res := make([]resp.RedisData, 0, len(rand))
 	for i := 0; i < len(rand); i++ {
 		res = append(res, resp.NewBulkString([]byte(rand[i])))
 	}
-- 
2.43.0


From 4c966d4beb81f84dfbb5a2fa2d1daaecc1d67b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:22 +0000
Subject: [PATCH 49/71] fix: SPOP: a count of 0 pops nothing

---
 memdb/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memdb/set.go b/memdb/set.go
index df08fbd..c57e9ac 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -525,7 +525,7 @@ func sPopSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 	}
 
-	if countVal <= 0 {
+	if countVal < 0 {
 		return resp.NewSimpleError("value must be positive")
 	}
 
-- 
2.43.0


From 9b6824b8f8797b1fec87c4a5ec9fc14bf82389ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:57 +0000
Subject: [PATCH 50/71] fix: parser: an empty line is a protocol error instead
 of a crash

---
 resp/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resp/parser.go b/resp/parser.go
index 88efef6..f530cc6 100644
--- a/resp/parser.go
+++ b/resp/parser.go
@@ -142,7 +142,7 @@ func readline(reader *bufio.Reader, buf *readBuffer) (msg []byte, err error) {
 		if err != nil {
 			return nil, err
 		}
-		if len(msg) == 0 || msg[len(msg)-2] != '\r' {
+		if len(msg) < 3 || msg[len(msg)-2] != '\r' {
 			return nil, errors.New("Protocol error: stream msg invalid")
 		}
 	}
-- 
2.43.0


From 4af933c9cfdba4ff9545d62b9be2eb4aaf2a91d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:59 +0000
Subject: [PATCH 51/71] fix: parser: an unknown type byte is a protocol error
 instead of a nil element that crashes the server

---
 resp/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resp/parser.go b/resp/parser.go
index f530cc6..d7dff56 100644
--- a/resp/parser.go
+++ b/resp/parser.go
@@ -166,6 +166,8 @@ func parseSingleLine(msg []byte) (RedisData, error) {
 			return nil, err
 		}
 		data = NewInteger(integerData)
+	default:
+		return nil, errors.New("Protocol error: unknown type")
 	}
 
 	return data, nil
-- 
2.43.0


From f238c34fb6248b327f61ac7c71db88dbdd6e0ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:00 +0000
Subject: [PATCH 52/71] fix: parser: limit the bulk length to 512 MB instead of
 crashing on a huge one

---
 resp/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resp/parser.go b/resp/parser.go
index d7dff56..f77a2ee 100644
--- a/resp/parser.go
+++ b/resp/parser.go
@@ -8,6 +8,9 @@ import (
 	"strconv"
 )
 
+// the largest bulk string a client may send
+const maxBulkLen = 512 * 1024 * 1024
+
 type RedisResp struct {
 	Data RedisData
 	Err  error
@@ -176,7 +179,7 @@ func parseSingleLine(msg []byte) (RedisData, error) {
 func parseBulkStringHeader(msg []byte, buf *readBuffer) error {
 	// read header; discard flag and "\r\n"
 	stringLen, err := strconv.ParseInt(string(msg[1:len(msg)-2]), 10, 64)
-	if stringLen < -1 || err != nil {
+	if stringLen < -1 || stringLen > maxBulkLen || err != nil {
 		return errors.New("Protocol error: " + string(msg))
 	}
 
-- 
2.43.0


From b3ea6c48612300e04d3f91f25427b6507c71ff32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:02 +0000
Subject: [PATCH 53/71] fix: parser: an empty array inside an array no longer
 swallows all further requests

---
 resp/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resp/parser.go b/resp/parser.go
index f77a2ee..dd8b765 100644
--- a/resp/parser.go
+++ b/resp/parser.go
@@ -215,6 +215,10 @@ func parseArrayHeader(msg []byte, buf *readBuffer) error {
 	if arrayLen > 0 {
 		buf.inArray = true
 		buf.arrayData = NewArray([]RedisData{})
+	} else {
+		// an enclosing array is abandoned, as it is for a nested array with elements
+		buf.inArray = false
+		buf.arrayData = nil
 	}
 	return nil
 }
-- 
2.43.0


From 06e3cfb39d1b498620cf4290e309116c86c0eddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:02 +0000
Subject: [PATCH 54/71] fix: server: skip an empty request instead of crashing

---
 server/handler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/handler.go b/server/handler.go
index 017598f..d348f19 100644
--- a/server/handler.go
+++ b/server/handler.go
@@ -67,6 +67,9 @@ func (m *Manager) Handle(conn net.Conn) {
 
 		// excute parsed command
 		cmd := arrayData.ToCommand()
+		if len(cmd) == 0 {
+			continue
+		}
 		redisData := m.ExecCommand(cmd)
 
 		// write result to connection
-- 
2.43.0


From 6fbe7a8217d12dcf87305eaea932a05805e79250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:04 +0000
Subject: [PATCH 55/71] fix: resp: line breaks echoed in errors and simple
 strings no longer corrupt the reply stream

---
 resp/data.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resp/data.go b/resp/data.go
index 65b99da..a9ea47b 100644
--- a/resp/data.go
+++ b/resp/data.go
@@ -14,6 +14,9 @@ import (
 
 var (
 	CRLF string = "\r\n"
+
+	// simple strings and errors end at the first line break, so they cannot contain one
+	lineBreaks = strings.NewReplacer("\r", " ", "\n", " ")
 )
 
 type RedisData interface {
@@ -60,7 +63,7 @@ func (s *SimpleString) GetBytesData() []byte {
 }
 
 func (s *SimpleString) ToRedisFormat() []byte {
-	return []byte(fmt.Sprintf("+%s%s", s.data, CRLF)) // +OK\r\n
+	return []byte(fmt.Sprintf("+%s%s", lineBreaks.Replace(s.data), CRLF)) // +OK\r\n
 }
 
 func (s *SimpleString) String() string {
@@ -83,7 +86,7 @@ func (e *SimpleError) GetBytesData() []byte {
 }
 
 func (e *SimpleError) ToRedisFormat() []byte {
-	return []byte(fmt.Sprintf("-%s%s", e.data, CRLF)) // -Error message\r\n
+	return []byte(fmt.Sprintf("-%s%s", lineBreaks.Replace(e.data), CRLF)) // -Error message\r\n
 }
 
 func (e *SimpleError) String() string {
-- 
2.43.0


From bf3b55028c8b354e8aa6a0933d75b4caf67cd177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:05 +0000
Subject: [PATCH 56/71] fix: SELECT affects only the connection that issued it

---
 server/handler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/handler.go b/server/handler.go
index d348f19..8d1b88b 100644
--- a/server/handler.go
+++ b/server/handler.go
@@ -40,6 +40,9 @@ func (m *Manager) Handle(conn net.Conn) {
 		}
 	}()
 
+	// the selected database belongs to this connection
+	session := &Manager{db: m.dbs[0], dbs: m.dbs}
+
 	// read from client and pump redis to ch
 	for redisResp := range ch {
 		// hanle errs
@@ -70,7 +73,7 @@ func (m *Manager) Handle(conn net.Conn) {
 		if len(cmd) == 0 {
 			continue
 		}
-		redisData := m.ExecCommand(cmd)
+		redisData := session.ExecCommand(cmd)
 
 		// write result to connection
 		if redisData != nil {
-- 
2.43.0


From 140b1d01d904974798e2dfad0d31990f07dcd6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:05 +0000
Subject: [PATCH 57/71] fix: SELECT: an index out of range is an error reply

---
 server/handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/handler.go b/server/handler.go
index 8d1b88b..ace0fe6 100644
--- a/server/handler.go
+++ b/server/handler.go
@@ -117,7 +117,7 @@ func (m *Manager) Select(cmd [][]byte) resp.RedisData {
 	}
 
 	if dbIdx >= len(m.dbs) || dbIdx < 0 {
-		return resp.NewSimpleString(fmt.Sprintf("ERR DB index is out of range with maximum %d", len(m.dbs)))
+		return resp.NewSimpleError(fmt.Sprintf("ERR DB index is out of range with maximum %d", len(m.dbs)))
 	}
 
 	m.db = m.dbs[dbIdx]
-- 
2.43.0


From dfc3cfbb24d5fb88de29bdfe18d1d8d8f50964b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:07 +0000
Subject: [PATCH 58/71] fix: config: a file that ends with a newline no longer
 loops forever

---
 config/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/config/config.go b/config/config.go
index 00d7d7a..eda212a 100644
--- a/config/config.go
+++ b/config/config.go
@@ -99,6 +99,9 @@ func (conf *Config) ParseConfFile() error {
 		argvs := strings.Fields(line)
 
 		if len(argvs) == 0 {
+			if ioErr == io.EOF {
+				break
+			}
 			continue
 		}
 
-- 
2.43.0


From 0ceabd8ea8e83754179af0cdf0a45e345121ae78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:08 +0000
Subject: [PATCH 59/71] fix: config: a name without value is an error instead
 of a crash

---
 config/config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/config/config.go b/config/config.go
index eda212a..15ceeae 100644
--- a/config/config.go
+++ b/config/config.go
@@ -105,6 +105,10 @@ func (conf *Config) ParseConfFile() error {
 			continue
 		}
 
+		if len(argvs) < 2 {
+			return errors.New("missing value for " + argvs[0])
+		}
+
 		switch strings.ToLower(argvs[0]) {
 		case "host":
 			if ip := net.ParseIP(argvs[1]); ip == nil {
-- 
2.43.0


From a2126a0ccaefde8719ec901b87a3b630db1fde28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:10 +0000
Subject: [PATCH 60/71] fix: config: report read errors

---
 config/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index 15ceeae..2a633ce 100644
--- a/config/config.go
+++ b/config/config.go
@@ -93,7 +93,7 @@ func (conf *Config) ParseConfFile() error {
 	for {
 		line, ioErr := fileReader.ReadString('\n')
 		if ioErr != nil && ioErr != io.EOF {
-			return err
+			return ioErr
 		}
 
 		argvs := strings.Fields(line)
-- 
2.43.0


From 828aace356a6f23113e37dad72229aa174fa4d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:11 +0000
Subject: [PATCH 61/71] fix: config: reject a segment or database count that is
 not positive

---
 config/config.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/config/config.go b/config/config.go
index 2a633ce..600f4d0 100644
--- a/config/config.go
+++ b/config/config.go
@@ -129,11 +129,17 @@ func (conf *Config) ParseConfFile() error {
 			if err != nil {
 				return err
 			}
+			if conf.SegNum <= 0 {
+				return errors.New("segnum must be positive")
+			}
 		case "dbnum":
 			conf.DbNum, err = strconv.Atoi(argvs[1])
 			if err != nil {
 				return err
 			}
+			if conf.DbNum <= 0 {
+				return errors.New("dbnum must be positive")
+			}
 		}
 
 		if ioErr == io.EOF {
-- 
2.43.0


From 278d9d1f6a2c7d1e446ed05655524d6aa0cef370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:30 +0000
Subject: [PATCH 62/71] fix: KEYS does not list a key removed while it runs

---
 memdb/keys.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/memdb/keys.go b/memdb/keys.go
index e927cb9..6ec5213 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -81,6 +81,9 @@ func keysKey(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := db.dict.Keys()
 	for _, key := range keys {
 		if !db.DeleteExpiredKey(key) {
+			if _, ok := db.dict.Get(key); !ok {
+				continue // deleted since the keys were collected
+			}
 			if util.PattenMatch(pattern, key) {
 				res = append(res, resp.NewBulkString([]byte(key)))
 			}
-- 
2.43.0


From 4e4a625ca8214f9d1206e1b980352e4852dc6388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:34 +0000
Subject: [PATCH 63/71] fix: RENAME of a key to itself does not make it vanish
 for a moment

---
 memdb/keys.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/memdb/keys.go b/memdb/keys.go
index 6ec5213..1b4859c 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -216,6 +216,9 @@ func renameKey(db *MemDb, cmd [][]byte) resp.RedisData {
 	if !ok {
 		return resp.NewSimpleError("no such key")
 	}
+	if oldKey == newKey {
+		return resp.NewSimpleString("OK")
+	}
 
 	oldTTL, ok := db.expires.Get(oldKey)
 
-- 
2.43.0


From 8aad42684937e418f46bfd9a97276911fad128c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:54 +0000
Subject: [PATCH 64/71] fix: TTL of a key expiring while TTL runs is -2, not -1

---
 memdb/keys.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/memdb/keys.go b/memdb/keys.go
index 1b4859c..3140dc0 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -194,6 +194,10 @@ func ttlKey(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewInteger(int64(-1))
 	}
 
+	if now > ttl.(int64) {
+		return resp.NewInteger(int64(-2)) // expired since it was looked up
+	}
+
 	return resp.NewInteger(ttl.(int64) - now)
 }
 
-- 
2.43.0


From ab8dad9099d65c7baa1cb684dce0e019dfbd2cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:38 +0000
Subject: [PATCH 65/71] fix: a command name with non-ASCII letters is not a
 command

---
 server/handler.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server/handler.go b/server/handler.go
index ace0fe6..bb881a9 100644
--- a/server/handler.go
+++ b/server/handler.go
@@ -10,6 +10,7 @@ import (
 	"net"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 type Manager struct {
@@ -92,7 +93,11 @@ func (m *Manager) Handle(conn net.Conn) {
 }
 
 func (m *Manager) ExecCommand(cmd [][]byte) resp.RedisData {
-	cmdName := strings.ToLower(string((cmd[0])))
+	cmdName := string(cmd[0])
+	// command names are ASCII: lower-casing must not turn other letters into ASCII ones
+	if strings.IndexFunc(cmdName, func(r rune) bool { return r >= utf8.RuneSelf }) < 0 {
+		cmdName = strings.ToLower(cmdName)
+	}
 	command, ok := memdb.CmdTable[cmdName]
 
 	if cmdName == "select" {
-- 
2.43.0


From 9476b49692cf461597af73e3ee2301ec9a6685fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:33 +0000
Subject: [PATCH 66/71] fix: KEYS looks each key up under its lock

---
 memdb/keys.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index 3140dc0..a2525d2 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -81,8 +81,13 @@ func keysKey(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := db.dict.Keys()
 	for _, key := range keys {
 		if !db.DeleteExpiredKey(key) {
-			if _, ok := db.dict.Get(key); !ok {
-				continue // deleted since the keys were collected
+			// deleted since the keys were collected, or only there for a moment
+			// inside a command that holds the lock
+			db.locks.RLock(key)
+			_, ok := db.dict.Get(key)
+			db.locks.RUnLock(key)
+			if !ok {
+				continue
 			}
 			if util.PattenMatch(pattern, key) {
 				res = append(res, resp.NewBulkString([]byte(key)))
-- 
2.43.0


From 2ef0d4b3fb40bd015b6607305c2843d53a840069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:16 +0000
Subject: [PATCH 67/71] fix: listen on an IPv6 host

---
 server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index 21518f3..4f07047 100644
--- a/server/server.go
+++ b/server/server.go
@@ -14,7 +14,7 @@ import (
 
 // start a redis server
 func Start(config *config.Config) error {
-	listener, err := net.Listen("tcp", config.Host+":"+strconv.Itoa(config.Port))
+	listener, err := net.Listen("tcp", net.JoinHostPort(config.Host, strconv.Itoa(config.Port)))
 	if err != nil {
 		logger.Panic(err)
 		return err
-- 
2.43.0


From 948faaa43f553443c880260e0c3f5e669a66f45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:42 +0000
Subject: [PATCH 68/71] fix: segnum and dbnum on the command line must be
 positive

---
 config/config.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/config/config.go b/config/config.go
index 600f4d0..75198b9 100644
--- a/config/config.go
+++ b/config/config.go
@@ -69,6 +69,12 @@ func Init() (*Config, error) {
 		ipErr := &CfgError{message: fmt.Sprintf("Ip address %s is invaild", _conf.Host)}
 		return nil, ipErr
 	}
+	if _conf.SegNum <= 0 {
+		return nil, &CfgError{message: "segnum must be positive"}
+	}
+	if _conf.DbNum <= 0 {
+		return nil, &CfgError{message: "dbnum must be positive"}
+	}
 	if _conf.ConfigFile != "" {
 		err := _conf.ParseConfFile()
 		if err != nil {
-- 
2.43.0


From a05242c0d40abbd54a0a6bb430717503f9f40c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:42 +0000
Subject: [PATCH 69/71] fix: the log level on the command line is
 case-insensitive, as in a file

---
 config/config.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/config/config.go b/config/config.go
index 75198b9..e1b41ca 100644
--- a/config/config.go
+++ b/config/config.go
@@ -64,6 +64,7 @@ func Init() (*Config, error) {
 
 	initFlag(_conf)
 	flag.Parse()
+	_conf.LogLevel = strings.ToLower(_conf.LogLevel)
 
 	if ip := net.ParseIP(_conf.Host); ip == nil {
 		ipErr := &CfgError{message: fmt.Sprintf("Ip address %s is invaild", _conf.Host)}
-- 
2.43.0


From f6c452ae324aa2080650c57a58607965dd3960f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:34 +0000
Subject: [PATCH 70/71] fix: a restart appends to the log instead of
 overwriting it

---
 logger/logger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logger/logger.go b/logger/logger.go
index 4951003..5eb801d 100644
--- a/logger/logger.go
+++ b/logger/logger.go
@@ -62,7 +62,7 @@ func Init(config *config.Config) error {
 
 	// check file
 	fileName := path.Join(logConf.Path, logConf.Name)
-	logFile, err = os.OpenFile(fileName, os.O_RDWR|os.O_CREATE, 0755)
+	logFile, err = os.OpenFile(fileName, os.O_RDWR|os.O_CREATE|os.O_APPEND, 0755)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From d1fe496b38f9c4500dcd52ad04983289640a531a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:19 +0000
Subject: [PATCH 71/71] fix: parser: end with the first error instead of
 leaving its goroutine behind

---
 resp/parser.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/resp/parser.go b/resp/parser.go
index dd8b765..e9edfae 100644
--- a/resp/parser.go
+++ b/resp/parser.go
@@ -38,15 +38,12 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 		msg, err := readline(streamReader, buf)
 		if err != nil {
 			// read all and close channel
-			if err == io.EOF {
-				ch <- &RedisResp{Err: err}
-				close(ch)
-				return
+			if err != io.EOF {
+				logger.Error("Stream Error: ", err)
 			}
-			logger.Error("Stream Error: ", err)
 			ch <- &RedisResp{Err: err}
-			buf = &readBuffer{}
-			continue
+			close(ch)
+			return
 		}
 		// make redis data
 		if buf.multiLine {
@@ -62,7 +59,8 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 				if err != nil {
 					logger.Error("Stream Error: ", err)
 					ch <- &RedisResp{Err: err}
-					buf = &readBuffer{}
+					close(ch)
+					return
 				} else {
 					if buf.stringLen == -1 { // null bulk string
 						if buf.inArray { // Null elements in arrays; ["hello",nil,"world"]
@@ -88,7 +86,8 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 				if err != nil {
 					logger.Error("Stream Error: ", err)
 					ch <- &RedisResp{Err: err}
-					buf = &readBuffer{}
+					close(ch)
+					return
 				} else {
 					if buf.arrayLen == -1 { // null bulk string
 						ch <- &RedisResp{Data: NewArray(nil)}
@@ -107,8 +106,8 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 		if err != nil {
 			logger.Error("Stream Error: ", err)
 			ch <- &RedisResp{Err: err}
-			buf = &readBuffer{}
-			continue
+			close(ch)
+			return
 		}
 
 		// send redis data
-- 
2.43.0


From 46e7a474f403eaca637fe3c10ffc05b2f7384a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:19 +0000
Subject: [PATCH 01/86] fix: values that look like numbers must read back as
 they were written

---
 cache/cachestring.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index ce49c68..cb4f0d5 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -14,10 +14,11 @@ func (c *Cache) Set(key, value string) (string, error) {
 }
 
 func tryInt64(value string) interface{} {
-	if n, err := strconv.Atoi(value); err == nil {
+	// only convert when the number is spelled exactly as fmtString will spell it
+	if n, err := strconv.Atoi(value); err == nil && strconv.Itoa(n) == value {
 		// try convert string value to int
 		return n
-	} else if f, err := strconv.ParseFloat(value, 64); err == nil {
+	} else if f, err := strconv.ParseFloat(value, 64); err == nil && strconv.FormatFloat(f, 'f', -1, 64) == value {
 		// try float
 		return f
 	}
-- 
2.43.0


From e4a44bae1b3768923a69c07ddc5e81effe0bbee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:20 +0000
Subject: [PATCH 02/86] fix: overwriting a key must clear its old deadline

---
 cache/cachestring.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index cb4f0d5..10a5eb1 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -10,6 +10,7 @@ func (c *Cache) Set(key, value string) (string, error) {
 	defer c.lock.Unlock()
 
 	c.dataDict.Store(key, tryInt64(value))
+	c.expiresDict.Delete(key)
 	return OK, nil
 }
 
@@ -105,6 +106,7 @@ func (c *Cache) GetSet(key, value string) (string, error) {
 	old, ok := c.get(key)
 
 	c.dataDict.Store(key, tryInt64(value))
+	c.expiresDict.Delete(key)
 
 	if !ok{
 		return "", ErrKeyNil
@@ -316,6 +318,7 @@ func (c *Cache) MSet(kv map[string]string) (ok string) {
 
 	for k, v := range kv {
 		c.dataDict.Store(k, tryInt64(v))
+		c.expiresDict.Delete(k)
 	}
 
 	return OK
-- 
2.43.0


From 6547d3396472000055e5ffa6ae780db51961d575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:21 +0000
Subject: [PATCH 03/86] fix: an expired key must be absent for every command

---
 cache/cachedb.go     | 2 +-
 cache/cachestring.go | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/cache/cachedb.go b/cache/cachedb.go
index b675204..fbacfaa 100644
--- a/cache/cachedb.go
+++ b/cache/cachedb.go
@@ -23,7 +23,7 @@ func (c *Cache) Flush() {
 
 func (c *Cache) Exists(keys ...string) (n int){
 	for _, key := range keys{
-		if _, ok := c.dataDict.Load(key); ok{
+		if _, ok := c.get(key); ok{
 			n++
 		}
 	}
diff --git a/cache/cachestring.go b/cache/cachestring.go
index 10a5eb1..991adf7 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -32,6 +32,8 @@ func (c *Cache) SetNX(key, value string) (int, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
+	c.expired(key)
+
 	if _, loaded := c.dataDict.LoadOrStore(key, tryInt64(value)); loaded {
 		return 0, nil
 	} else {
@@ -242,6 +244,8 @@ func (c *Cache) IncrBy(key string, increment int64) (int, error) {
 }
 
 func (c *Cache) incrBy(key string, increment int64) (int, error) {
+	c.expired(key)
+
 	actual, ok := c.dataDict.LoadOrStore(key, increment)
 	if !ok {
 		return int(increment), nil
@@ -278,6 +282,8 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
+	c.expired(key)
+
 	actual, ok := c.dataDict.LoadOrStore(key, increment)
 	if !ok {
 		return increment, nil
@@ -331,6 +337,8 @@ func (c *Cache) MSetNX(kv map[string]string) int {
 	n := 0
 
 	for k, v := range kv {
+		c.expired(k)
+
 		if _, loaded := c.dataDict.LoadOrStore(k, tryInt64(v)); !loaded {
 			n++
 		}
-- 
2.43.0


From 326a8daee0aeef113bab5c54b21b4068464e3bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:22 +0000
Subject: [PATCH 04/86] fix: GetSet on a key of the wrong type must not
 overwrite it

---
 cache/cachestring.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index 991adf7..b9df904 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -106,6 +106,9 @@ func (c *Cache) GetSet(key, value string) (string, error) {
 	defer c.lock.Unlock()
 
 	old, ok := c.get(key)
+	if _, err := fmtString(old); ok && err != nil {
+		return "", err
+	}
 
 	c.dataDict.Store(key, tryInt64(value))
 	c.expiresDict.Delete(key)
-- 
2.43.0


From 8447859c3cbba39741cbc3648f246b2907ffdaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:23 +0000
Subject: [PATCH 05/86] fix: integer and float counters must work on any number
 a key holds

---
 cache/cachestring.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index b9df904..f944338 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -62,6 +62,11 @@ func (c *Cache) PSetEX(key, value string, expiresMs int64) (string, error) {
 	return OK, nil
 }
 
+// value stored for the result of a float command, an integral result is an int
+func floatValue(f float64) interface{} {
+	return tryInt64(strconv.FormatFloat(f, 'f', -1, 64))
+}
+
 func fmtString(v interface{}) (str string, err error) {
 	switch value := v.(type) {
 	case string:
@@ -249,7 +254,7 @@ func (c *Cache) IncrBy(key string, increment int64) (int, error) {
 func (c *Cache) incrBy(key string, increment int64) (int, error) {
 	c.expired(key)
 
-	actual, ok := c.dataDict.LoadOrStore(key, increment)
+	actual, ok := c.dataDict.LoadOrStore(key, int(increment))
 	if !ok {
 		return int(increment), nil
 	}
@@ -287,7 +292,7 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 
 	c.expired(key)
 
-	actual, ok := c.dataDict.LoadOrStore(key, increment)
+	actual, ok := c.dataDict.LoadOrStore(key, floatValue(increment))
 	if !ok {
 		return increment, nil
 	}
@@ -295,11 +300,19 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 	switch val := actual.(type) {
 	case float64:
 		val += increment
-		c.dataDict.Store(key, val)
+		c.dataDict.Store(key, floatValue(val))
 		return val, nil
 	case int:
 		f := float64(val) + increment
-		c.dataDict.Store(key, f)
+		c.dataDict.Store(key, floatValue(f))
+		return f, nil
+	case string:
+		f, err := strconv.ParseFloat(val, 64)
+		if err != nil {
+			return 0, ErrWrongType
+		}
+		f += increment
+		c.dataDict.Store(key, floatValue(f))
 		return f, nil
 	default:
 		return 0, ErrWrongType
-- 
2.43.0


From b531dfd66fa1d325bd27bb44806758dde2f0f36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:23 +0000
Subject: [PATCH 06/86] fix: integer counters must not wrap around

---
 cache/cache.go       | 1 +
 cache/cachestring.go | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/cache/cache.go b/cache/cache.go
index cf717fb..831dc04 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -29,6 +29,7 @@ func (c *Cache) Cron() {
 
 var ErrKeyNil = errors.New("redis nil")
 var ErrWrongType = errors.New("wrong type,operation against a key holding the wrong kind of value")
+var ErrIntOverflow = errors.New("increment or decrement would overflow")
 var ErrOffsetOutOfRange = errors.New("offset is out of range")
 
 var OK = "OK"
diff --git a/cache/cachestring.go b/cache/cachestring.go
index f944338..c377b2d 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -1,6 +1,7 @@
 package cache
 
 import (
+	"math"
 	"strconv"
 	"time"
 )
@@ -277,6 +278,9 @@ func (c *Cache) incrBy(key string, increment int64) (int, error) {
 	case int:
 		val = t + int(increment)
 		n = t + int(increment)
+		if (n > t) != (increment > 0) && increment != 0 {
+			return 0, ErrIntOverflow
+		}
 	default:
 		return 0, ErrWrongType
 	}
@@ -327,6 +331,11 @@ func (c *Cache) Decr(key string) (int, error) {
 }
 
 func (c *Cache) DecrBy(key string, decrement int64) (int, error) {
+	// the smallest int64 can not be negated
+	if decrement == math.MinInt64 {
+		return 0, ErrIntOverflow
+	}
+
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
-- 
2.43.0


From c4320a032a1bad6412fc9a8d76c3929ef1f07fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:24 +0000
Subject: [PATCH 07/86] fix: Type must report a hash as hash

---
 cache/cachedb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache/cachedb.go b/cache/cachedb.go
index fbacfaa..79b1c8f 100644
--- a/cache/cachedb.go
+++ b/cache/cachedb.go
@@ -38,7 +38,7 @@ func (c *Cache)Type(key string) string {
 	}
 
 	switch v.(type) {
-	case hashEntry:
+	case *hashEntry:
 		return "hash"
 	default:
 		return "string"
-- 
2.43.0


From 53c0b0b3a0ebe2e612a001a6053249310cc9eb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:25 +0000
Subject: [PATCH 08/86] fix: the periodic expiry must only remove expired keys

---
 cache/cachecron.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cache/cachecron.go b/cache/cachecron.go
index e9aaa43..e330032 100644
--- a/cache/cachecron.go
+++ b/cache/cachecron.go
@@ -6,10 +6,11 @@ import "time"
 func (c *Cache) cronExpire(duration time.Duration) {
 	for range time.NewTicker(duration).C{
 		c.lock.Lock()
-		c.dataDict.Range(func(key interface{}, value interface{}) bool {
+		c.expiresDict.Range(func(key interface{}, value interface{}) bool {
 			expire, ok := value.(time.Time)
 			if !ok{
 				c.expiresDict.Delete(key)
+				return true
 			}
 
 			if expire.Before(time.Now()){
-- 
2.43.0


From 7e04553f0aebd283b364e86f95e2754c459b2684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:04 +0000
Subject: [PATCH 09/86] fix: a float counter must not yield NaN or infinity

---
 cache/cachestring.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index c377b2d..bf8e647 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -304,6 +304,9 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 	switch val := actual.(type) {
 	case float64:
 		val += increment
+		if math.IsNaN(val) || math.IsInf(val, 0) {
+			return 0, ErrWrongType
+		}
 		c.dataDict.Store(key, floatValue(val))
 		return val, nil
 	case int:
@@ -312,10 +315,10 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 		return f, nil
 	case string:
 		f, err := strconv.ParseFloat(val, 64)
-		if err != nil {
+		f += increment
+		if err != nil || math.IsNaN(f) || math.IsInf(f, 0) {
 			return 0, ErrWrongType
 		}
-		f += increment
 		c.dataDict.Store(key, floatValue(f))
 		return f, nil
 	default:
-- 
2.43.0


From 2f3f0ab370b5c604fe1c2a7f8dcaab6076d86c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:05 +0000
Subject: [PATCH 10/86] fix: HExists must not change the length of the hash

---
 cache/cachehash.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index b79a1ea..4df25e9 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -99,8 +99,6 @@ func (c *Cache) HExists(key string, field string) (n int, err error) {
 		n = 1
 	}
 
-	he.length -= n
-
 	return n, err
 }
 
-- 
2.43.0


From 2c8a6f812cf8058cd913eb5b8b8b1cd591ed45e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:06 +0000
Subject: [PATCH 11/86] fix: HSetNX must store numbers like HSet does

---
 cache/cachehash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index 4df25e9..3fbcd0a 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -76,7 +76,7 @@ func (c *Cache) HSetNX(key string, field string, value string) (n int, err error
 		c.dataDict.Store(key, he)
 	}
 
-	if _, ok := he.LoadOrStore(field, value); !ok {
+	if _, ok := he.LoadOrStore(field, tryInt64(value)); !ok {
 		he.length++
 		n = 1
 	}
-- 
2.43.0


From 4b4d03416de0c236eb50d7a2ce3f54849c3d7715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:06 +0000
Subject: [PATCH 12/86] fix: hash counters must store the sum, not the
 increment

---
 cache/cachehash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index 3fbcd0a..4220f33 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -194,7 +194,7 @@ func (c *Cache) HIncrBy(key, field string, increment int) (n int, err error){
 	}
 
 	if err == nil{
-		he.set(field, strconv.Itoa(increment))
+		he.set(field, strconv.Itoa(n))
 	}
 
 	return n, err
@@ -241,7 +241,7 @@ func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, e
 	}
 
 	if err == nil{
-		he.set(field, strconv.FormatFloat(increment, 'f', -1, 64))
+		he.set(field, strconv.FormatFloat(f, 'f', -1, 64))
 	}
 
 	return f, err
-- 
2.43.0


From b25680266969402c91b31134bbefebef7c3e97de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:07 +0000
Subject: [PATCH 13/86] fix: hash counters must not wrap around

---
 cache/cachehash.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index 4220f33..7b0b297 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -181,6 +181,9 @@ func (c *Cache) HIncrBy(key, field string, increment int) (n int, err error){
 		}
 	case int:
 		n = val + increment
+		if (n > val) != (increment > 0) && increment != 0 {
+			return 0, ErrIntOverflow
+		}
 	case int32:
 		n = int(val) + increment
 	case int64:
-- 
2.43.0


From 234e02d6c661b1e770b197916b7790d34d51b565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:08 +0000
Subject: [PATCH 14/86] fix: HIncrByFloat must work on any number a field holds

---
 cache/cachehash.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index 7b0b297..8ce4a48 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -2,6 +2,7 @@ package cache
 
 import (
 	"errors"
+	"math"
 	"strconv"
 )
 
@@ -226,9 +227,13 @@ func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, e
 	case string:
 		if val == ""{
 			f = increment
+		}else if f, err = strconv.ParseFloat(val, 64); err != nil{
+			f, err = 0, ErrHashValueIsNotFloat
 		}else{
-			err = ErrHashValueIsNotFloat
+			f += increment
 		}
+	case float64:
+		f = val + increment
 	case int:
 		f = float64(val) + increment
 	case int32:
@@ -243,6 +248,10 @@ func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, e
 		err = ErrHashValueIsNotFloat
 	}
 
+	if math.IsNaN(f) || math.IsInf(f, 0){
+		f, err = 0, ErrHashValueIsNotFloat
+	}
+
 	if err == nil{
 		he.set(field, strconv.FormatFloat(f, 'f', -1, 64))
 	}
-- 
2.43.0


From 2efcf8e34753f5a9bae6ba3d91cdaf27a406f3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:09 +0000
Subject: [PATCH 15/86] fix: HKeys, HVals and HGetAll on an absent key must not
 panic

---
 cache/cachehash.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index 8ce4a48..ea3f6f4 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -308,6 +308,10 @@ func(c *Cache) HKeys(key string)(fields []string,err error){
 		return nil, err
 	}
 
+	if he == nil{
+		return nil, nil
+	}
+
 	 he.Range(func(key, value interface{}) bool {
 		if field, ok := key.(string); ok{
 			fields = append(fields, field)
@@ -325,6 +329,10 @@ func(c *Cache) HVals(key string)(values []string,err error){
 		return nil, err
 	}
 
+	if he == nil{
+		return nil, nil
+	}
+
 	he.Range(func(key, value interface{}) bool {
 		if field, ok := value.(string); ok{
 			values = append(values, field)
@@ -342,6 +350,10 @@ func(c *Cache) HGetAll(key string)(kv map[string]string,err error){
 		return nil, err
 	}
 
+	if he == nil{
+		return nil, nil
+	}
+
 	he.Range(func(key, value interface{}) bool {
 		if field, ok := key.(string); ok{
 			if v, err := fmtString(value); err != nil{
-- 
2.43.0


From 7e417326b55acc0a7f18ea31560471cfdaef5ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:10 +0000
Subject: [PATCH 16/86] fix: HVals and HGetAll must return every value

---
 cache/cachehash.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index ea3f6f4..24397da 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -334,8 +334,8 @@ func(c *Cache) HVals(key string)(values []string,err error){
 	}
 
 	he.Range(func(key, value interface{}) bool {
-		if field, ok := value.(string); ok{
-			values = append(values, field)
+		if str, err := fmtString(value); err == nil{
+			values = append(values, str)
 		}
 		return true
 	})
@@ -354,9 +354,10 @@ func(c *Cache) HGetAll(key string)(kv map[string]string,err error){
 		return nil, nil
 	}
 
+	kv = make(map[string]string, he.length)
 	he.Range(func(key, value interface{}) bool {
 		if field, ok := key.(string); ok{
-			if v, err := fmtString(value); err != nil{
+			if v, err := fmtString(value); err == nil{
 				kv[field] = v
 			}
 		}
-- 
2.43.0


From 20a3f5cd484be7b5c2d09569b0fb99d13687fb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:11 +0000
Subject: [PATCH 17/86] fix: a hash without fields must not exist

---
 cache/cachehash.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index 24397da..994378a 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -125,6 +125,12 @@ func (c *Cache) HDel(key string, fields ...string) (n int, err error) {
 		he.length -= n
 	}
 
+	// a hash without fields does not exist
+	if he.length == 0{
+		c.dataDict.Delete(key)
+		c.expiresDict.Delete(key)
+	}
+
 	return n, nil
 }
 
@@ -265,6 +271,10 @@ func (c *Cache) HMSet(key string, fv map[string]string) (n int, err error){
 		return n, err
 	}
 
+	if len(fv) == 0{
+		return 0, nil
+	}
+
 	if he == nil{
 		he = newHash()
 		c.dataDict.Store(key, he)
-- 
2.43.0


From 8406867d51bde6ee98a650458038e1c05ec1e208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:28 +0000
Subject: [PATCH 18/86] fix: multi-key commands must be atomic

---
 cache/cachestring.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index bf8e647..01d56fa 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -347,8 +347,8 @@ func (c *Cache) DecrBy(key string, decrement int64) (int, error) {
 }
 
 func (c *Cache) MSet(kv map[string]string) (ok string) {
-	//c.lock.Lock()
-	//defer c.lock.Unlock()
+	c.lock.Lock()
+	defer c.lock.Unlock()
 
 	for k, v := range kv {
 		c.dataDict.Store(k, tryInt64(v))
@@ -359,8 +359,8 @@ func (c *Cache) MSet(kv map[string]string) (ok string) {
 }
 
 func (c *Cache) MSetNX(kv map[string]string) int {
-	//c.lock.Lock()
-	//defer c.lock.Unlock()
+	c.lock.Lock()
+	defer c.lock.Unlock()
 
 	n := 0
 
@@ -376,8 +376,8 @@ func (c *Cache) MSetNX(kv map[string]string) int {
 }
 
 func (c *Cache) MGet(keys ...string) []interface{} {
-	//c.lock.RLock()
-	//defer c.lock.RUnlock()
+	c.lock.RLock()
+	defer c.lock.RUnlock()
 
 	var values = make([]interface{}, len(keys))
 	for id, k := range keys {
-- 
2.43.0


From bf84b2477e3ca5029eefab2343655609688b167c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:29 +0000
Subject: [PATCH 19/86] fix: hash commands must hold the lock of the cache

---
 cache/cachehash.go | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index 994378a..10a22e4 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -52,6 +52,9 @@ func (c *Cache) getHashEntry(key string) (*hashEntry, error) {
 }
 
 func (c *Cache) HSet(key string, field string, value string) (n int, err error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -67,6 +70,9 @@ func (c *Cache) HSet(key string, field string, value string) (n int, err error)
 
 //HGET
 func (c *Cache) HSetNX(key string, field string, value string) (n int, err error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -87,6 +93,9 @@ func (c *Cache) HSetNX(key string, field string, value string) (n int, err error
 
 //HEXISTS
 func (c *Cache) HExists(key string, field string) (n int, err error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -105,6 +114,9 @@ func (c *Cache) HExists(key string, field string) (n int, err error) {
 
 //HDEL
 func (c *Cache) HDel(key string, fields ...string) (n int, err error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -136,6 +148,9 @@ func (c *Cache) HDel(key string, fields ...string) (n int, err error) {
 
 //HLEN
 func (c *Cache) HLen(key string) (n int, err error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -150,6 +165,9 @@ func (c *Cache) HLen(key string) (n int, err error) {
 
 //HSTRLEN
 func (c *Cache) HStrLen(key, field string) (n int, err error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil || he == nil {
 		return n, err
@@ -163,6 +181,9 @@ func (c *Cache) HStrLen(key, field string) (n int, err error) {
 }
 
 func (c *Cache) HIncrBy(key, field string, increment int) (n int, err error){
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return n, err
@@ -213,6 +234,9 @@ func (c *Cache) HIncrBy(key, field string, increment int) (n int, err error){
 var ErrHashValueIsNotFloat = errors.New("hash value is not a float")
 //HINCRBY
 func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, err error){
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return f, err
@@ -266,6 +290,9 @@ func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, e
 }
 //HMSET
 func (c *Cache) HMSet(key string, fv map[string]string) (n int, err error){
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return n, err
@@ -289,6 +316,9 @@ func (c *Cache) HMSet(key string, fv map[string]string) (n int, err error){
 
 //HMGET
 func (c *Cache)HMGet(key string, fields ...string) ([]interface{}, error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return nil, err
@@ -313,6 +343,9 @@ func (c *Cache)HMGet(key string, fields ...string) ([]interface{}, error) {
 
 //HKEYS
 func(c *Cache) HKeys(key string)(fields []string,err error){
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return nil, err
@@ -334,6 +367,9 @@ func(c *Cache) HKeys(key string)(fields []string,err error){
 
 //HVALS
 func(c *Cache) HVals(key string)(values []string,err error){
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return nil, err
@@ -355,6 +391,9 @@ func(c *Cache) HVals(key string)(values []string,err error){
 
 //HGETALL
 func(c *Cache) HGetAll(key string)(kv map[string]string,err error){
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return nil, err
@@ -379,6 +418,9 @@ func(c *Cache) HGetAll(key string)(kv map[string]string,err error){
 }
 //HSCAN
 func (c *Cache) HGet(key string, field string) (value string, err error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return value, err
-- 
2.43.0


From 075c5d40ec7b1e28155e210c22d1cc13b1f57349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:29 +0000
Subject: [PATCH 20/86] fix: Exists and Type must hold the lock of the cache

---
 cache/cachedb.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cache/cachedb.go b/cache/cachedb.go
index 79b1c8f..26b8550 100644
--- a/cache/cachedb.go
+++ b/cache/cachedb.go
@@ -22,6 +22,9 @@ func (c *Cache) Flush() {
 }
 
 func (c *Cache) Exists(keys ...string) (n int){
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	for _, key := range keys{
 		if _, ok := c.get(key); ok{
 			n++
@@ -32,6 +35,9 @@ func (c *Cache) Exists(keys ...string) (n int){
 }
 
 func (c *Cache)Type(key string) string {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	v, ok := c.get(key)
 	if !ok{
 		return "none"
-- 
2.43.0


From 020980d1b0b40e7b12480d98a0cc00803ec85c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:48 +0000
Subject: [PATCH 21/86] fix: a bulk string must be read completely

---
 redis/conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/conn.go b/redis/conn.go
index f74639b..8b675a1 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -198,7 +198,7 @@ func (c Conn) readMessage() (Message, error) {
 
 		// read data
 		var data = make([]byte, length)
-		if _, err := c.Reader.Read(data); err != nil {
+		if _, err := io.ReadFull(c.Reader, data); err != nil {
 			return nil, err
 		}
 
-- 
2.43.0


From dd35ccccef512dca90a435a3792bc7b043b5e5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:49 +0000
Subject: [PATCH 22/86] fix: a negative bulk length must be an error, not a
 panic

---
 redis/conn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redis/conn.go b/redis/conn.go
index 8b675a1..1fe19b8 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -196,6 +196,10 @@ func (c Conn) readMessage() (Message, error) {
 			return NilMessage{}, nil
 		}
 
+		if length < 0 {
+			return nil, errors.New("invalid bulk string length " + string(bs))
+		}
+
 		// read data
 		var data = make([]byte, length)
 		if _, err := io.ReadFull(c.Reader, data); err != nil {
-- 
2.43.0


From 165ad62d9aff8358ff32b26a0f5590cd1c4f592e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:50 +0000
Subject: [PATCH 23/86] fix: a line longer than the read buffer or cut short
 must not be a message

---
 redis/conn.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index 1fe19b8..e1b4c7f 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -173,6 +173,24 @@ func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 	}
 }
 
+// read a line of any length, without the line break
+func (c Conn) readLine() ([]byte, error) {
+	line, err := c.Reader.ReadBytes('\n')
+	if err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+		return nil, err
+	}
+
+	line = line[:len(line)-1]
+	if n := len(line); n > 0 && line[n-1] == '\r' {
+		line = line[:n-1]
+	}
+
+	return line, nil
+}
+
 func (c Conn) readMessage() (Message, error) {
 	protocol, err := c.readProtocol()
 	if err != nil {
@@ -182,7 +200,7 @@ func (c Conn) readMessage() (Message, error) {
 	switch protocol {
 	case ProtocolBulkString:
 		// $1
-		bs, _, err := c.Reader.ReadLine()
+		bs, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
@@ -214,21 +232,21 @@ func (c Conn) readMessage() (Message, error) {
 
 		return msg, nil
 	case ProtocolSimpleString:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
 
 		return SimpleStringMessage(string(line)), nil
 	case ProtocolError:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
 		return ErrorMessage(string(line)), nil
 
 	case ProtocolInt:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
@@ -238,7 +256,7 @@ func (c Conn) readMessage() (Message, error) {
 			return IntMessage(number), nil
 		}
 	case ProtocolArray:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 55304c622728286a8965e6b7ea6c8c2020df35ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:27 +0000
Subject: [PATCH 24/86] fix: a bulk string must end with a line break

---
 redis/conn.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index e1b4c7f..f9ffbfb 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -96,9 +96,16 @@ func (c Conn) readBulkString(length int) string {
 }
 
 func (c Conn) discardEof() error {
-	_, _, err := c.Reader.ReadLine()
+	var eof [len(MessageEOF)]byte
+	if _, err := io.ReadFull(c.Reader, eof[:]); err != nil {
+		return err
+	}
+
+	if string(eof[:]) != MessageEOF {
+		return errors.New("bulk string is not followed by a line break")
+	}
 
-	return err
+	return nil
 }
 
 // save message content to io reader
-- 
2.43.0


From 82f96b4adc3865a4010513554461127fd861e51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:28 +0000
Subject: [PATCH 25/86] fix: an absurd bulk length must be an error, not a
 crash

---
 redis/conn.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/redis/conn.go b/redis/conn.go
index f9ffbfb..b1a198f 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -11,6 +11,9 @@ import (
 	"time"
 )
 
+// a redis string is never longer than 512MB
+const maxBulkLength = 512 * 1024 * 1024
+
 type Conn struct {
 	conn         net.Conn
 	Reader       *bufio.Reader
@@ -221,7 +224,7 @@ func (c Conn) readMessage() (Message, error) {
 			return NilMessage{}, nil
 		}
 
-		if length < 0 {
+		if length < 0 || length > maxBulkLength {
 			return nil, errors.New("invalid bulk string length " + string(bs))
 		}
 
-- 
2.43.0


From 2be6c6749805462bd6d2336774a74469ee8aec95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:29 +0000
Subject: [PATCH 26/86] fix: client calls must return what the server replied

---
 redis/command.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/redis/command.go b/redis/command.go
index 7346c68..cff43ce 100644
--- a/redis/command.go
+++ b/redis/command.go
@@ -55,6 +55,8 @@ type FloatCommand struct {
 
 func (cmd *FloatCommand) Parse(message Message) {
 	if val, err := strconv.ParseFloat(message.String(), 64); err != nil {
+		cmd.Err = err
+	} else {
 		cmd.Val = val
 	}
 }
@@ -71,6 +73,8 @@ type IntCommand struct {
 func (i *IntCommand) Parse(message Message) {
 	if message, ok := message.(IntMessage); ok {
 		i.Val = int(message)
+	} else {
+		i.Err = errors.New("failed to parse response")
 	}
 }
 
@@ -108,11 +112,15 @@ func (cmd *OKCommand) Parse(message Message) {
 	m, ok := message.(SimpleStringMessage)
 	if !ok {
 		cmd.Err = errors.New("failed parse redis data")
+		return
 	}
 
 	if m.String() != "OK" {
 		cmd.Err = errors.New(m.String())
+		return
 	}
+
+	cmd.Val = m.String()
 }
 
 func (cmd *OKCommand) Result() (string, error) {
@@ -135,5 +143,7 @@ func (i *InterfaceArrayCommand) Parse(message Message) {
 				i.Val = append(i.Val, m.String())
 			}
 		}
+	} else {
+		i.Err = errors.New("failed to parse response")
 	}
 }
-- 
2.43.0


From 1b8d1fbe1ded31e7ba004d5e425c1674fa9c5d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:30 +0000
Subject: [PATCH 27/86] fix: SetNX, SetEX, PSetEX and IncrBy must send their
 own command

---
 redis/redis.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/redis/redis.go b/redis/redis.go
index 4d99e21..2a19c72 100644
--- a/redis/redis.go
+++ b/redis/redis.go
@@ -91,7 +91,7 @@ func (redis *Redis) Select(index int) (string, error) {
 }
 
 func (redis *Redis) SetNX(key, value string) (string, error) {
-	rc := OKCommand{
+	rc := StringCommand{
 		BaseCommand: NewBaseCommand("SetNX", key, value),
 	}
 	redis.process(&rc)
@@ -100,7 +100,7 @@ func (redis *Redis) SetNX(key, value string) (string, error) {
 
 func (redis *Redis) SetEX(key, value string, expires uint64) (string, error) {
 	rc := OKCommand{
-		BaseCommand: NewBaseCommand("SetNX", key, value, strconv.FormatUint(expires, 10)),
+		BaseCommand: NewBaseCommand("SetEX", key, strconv.FormatUint(expires, 10), value),
 	}
 	redis.process(&rc)
 	return rc.Result()
@@ -108,7 +108,7 @@ func (redis *Redis) SetEX(key, value string, expires uint64) (string, error) {
 
 func (redis *Redis) PSetEX(key, value string, expiresMs uint64) (string, error) {
 	rc := OKCommand{
-		BaseCommand: NewBaseCommand("SetNX", key, value, strconv.FormatUint(expiresMs, 10)),
+		BaseCommand: NewBaseCommand("PSetEX", key, strconv.FormatUint(expiresMs, 10), value),
 	}
 	redis.process(&rc)
 	return rc.Result()
@@ -175,7 +175,7 @@ func (redis *Redis) Incr(key string) (int, error) {
 
 func (redis *Redis) IncrBy(key string, increment int) (int, error) {
 	rc := IntCommand{
-		BaseCommand: NewBaseCommand("Incr", key, strconv.Itoa(increment)),
+		BaseCommand: NewBaseCommand("IncrBy", key, strconv.Itoa(increment)),
 	}
 	redis.process(&rc)
 
-- 
2.43.0


From f27a4c3da5e896c3cb3809d2dbb27d8f6b541eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:31 +0000
Subject: [PATCH 28/86] fix: a failed dial must not leave the pool locked

---
 redis/pool.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redis/pool.go b/redis/pool.go
index 13943ca..274ee53 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -43,6 +43,7 @@ func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 		if pool.size < pool.capacity {
 			conn, err := pool.create()
 			if err != nil {
+				pool.l.Unlock()
 				return nil, err
 			}
 			pool.size++
-- 
2.43.0


From 22f74ed4705d66d94f4093fab6288b6af4bae813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:30 +0000
Subject: [PATCH 29/86] fix: a broken connection must not be used again

---
 redis/conn.go | 17 ++++++++++++++---
 redis/pool.go | 23 +++++++++++++++++++++--
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index b1a198f..50a2415 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"net"
 	"strconv"
+	"sync/atomic"
 	"time"
 )
 
@@ -21,6 +22,7 @@ type Conn struct {
 	Timeout      time.Duration
 	ReadTimeout  time.Duration
 	WriteTimeout time.Duration
+	broken       int32 // not 0: an exchange failed, the stream can not be used any more
 }
 
 func (c *Conn) WithTimeout(duration time.Duration) {
@@ -36,17 +38,26 @@ func (c *Conn) WithWriteTimeout(duration time.Duration) {
 }
 
 func (c *Conn) Recv() (Message, error) {
-	return c.readMessage()
+	message, err := c.readMessage()
+	if err != nil {
+		atomic.StoreInt32(&c.broken, 1)
+	}
+
+	return message, err
 }
 
 func (c *Conn) Send(message Message) error {
 	_, err := c.Writer.Write([]byte(message.Serialize()))
 
+	if err == nil {
+		err = c.Writer.Flush()
+	}
+
 	if err != nil {
-		return err
+		atomic.StoreInt32(&c.broken, 1)
 	}
 
-	return c.Writer.Flush()
+	return err
 }
 
 func (c *Conn) SendAndWaitReply(message Message) (Message, error) {
diff --git a/redis/pool.go b/redis/pool.go
index 274ee53..83fbdd9 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"sync"
+	"sync/atomic"
 )
 
 const defaultPoolCapacity = 20
@@ -36,7 +37,7 @@ func (pool *Pool) Init(capacity int, addr string) {
 func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 	select {
 	case c := <-pool.connC:
-		return c, nil
+		return pool.repair(c)
 	default:
 		// no conn available, try create new conn
 		pool.l.Lock()
@@ -56,10 +57,28 @@ func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 	case <-ctx.Done():
 		return nil, errors.New("no connection available")
 	case c := <-pool.connC:
-		return c, nil
+		return pool.repair(c)
 	}
 }
 
+// replace a broken connection by a new one
+func (pool *Pool) repair(conn *Conn) (*Conn, error) {
+	if atomic.LoadInt32(&conn.broken) == 0 {
+		return conn, nil
+	}
+
+	_ = conn.Close()
+
+	fresh, err := pool.create()
+	if err != nil {
+		// keep the place in the pool, the next caller tries again
+		pool.connC <- conn
+		return nil, err
+	}
+
+	return fresh, nil
+}
+
 func (pool Pool) create() (conn *Conn, err error) {
 	if conn, err = Connect(pool.addr); err != nil {
 		return conn, err
-- 
2.43.0


From 6294fd89875fdd9a8d041f6d856c783f55ee9400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:31 +0000
Subject: [PATCH 30/86] fix: a connection refused by an open handler must be
 closed

---
 redis/pool.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redis/pool.go b/redis/pool.go
index 83fbdd9..0700eec 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -86,6 +86,7 @@ func (pool Pool) create() (conn *Conn, err error) {
 
 	for _, handler := range pool.connOpenHandler {
 		if err := handler(conn); err != nil {
+			_ = conn.Close()
 			return conn, err
 		}
 	}
-- 
2.43.0


From d70d542e3166f2875bcef7f9197e4f9c2a898bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:32 +0000
Subject: [PATCH 31/86] fix: Pool.Close must return when no idle connection is
 left

---
 redis/pool.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/redis/pool.go b/redis/pool.go
index 0700eec..b70535a 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -101,20 +101,30 @@ func (pool Pool) Put(conn *Conn) {
 }
 
 //Close close all conn opened in the pool
-func (pool Pool) Close() error {
-	for conn := range pool.connC {
+func (pool *Pool) Close() error {
+	for {
+		var conn *Conn
+		select {
+		case conn = <-pool.connC:
+		default:
+			// no idle conn left
+			return nil
+		}
+
+		pool.l.Lock()
+		pool.size--
+		pool.l.Unlock()
+
 		for _, handler := range pool.connCloseHandler {
 			if err := handler(conn); err != nil {
 				return err
 			}
 		}
 
-		if err := conn.Close(); err != nil {
+		if err := conn.Close(); err != nil && atomic.LoadInt32(&conn.broken) == 0 {
 			return err
 		}
 	}
-
-	return nil
 }
 
 func (pool *Pool) ExecCommand(ctx context.Context, command Command) {
-- 
2.43.0


From 3bcb70e3826ffcebfdeb8b8b650410764617c171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:42 +0000
Subject: [PATCH 32/86] fix: a snapshot string must be read completely

---
 redis/rdb/rdb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index 8ef7a55..5a26f41 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -163,7 +163,7 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 	}
 
 	buf := make([]byte, length)
-	if _, err := reader.Read(buf); err != nil {
+	if _, err := io.ReadFull(reader, buf); err != nil {
 		return str, err
 	}
 	str = string(buf)
-- 
2.43.0


From 8f9f32715e87521138417a4b2b08fa29aceda57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:43 +0000
Subject: [PATCH 33/86] fix: 32 and 64 bit lengths and binary doubles of a
 snapshot must be decoded

---
 redis/rdb/rdb.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index 5a26f41..e2a395a 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -2,7 +2,6 @@ package rdb
 
 import (
 	"bufio"
-	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -10,6 +9,7 @@ import (
 	"github.com/sirupsen/logrus"
 	"io"
 	"log"
+	"math"
 	"strconv"
 	"unsafe"
 )
@@ -66,21 +66,15 @@ func LoadLen(reader *bufio.Reader) (length uint64, encoded bool, err error) {
 		case BitLen32:
 			logrus.Infoln("BitLen32")
 			buf = make([]byte, 4)
-			if n, err := io.ReadFull(reader, buf); err == nil && n == 4 {
-				var lengthUint32 uint32
-				err = binary.Write(bytes.NewBuffer(buf), binary.LittleEndian, lengthUint32)
-				length = uint64(lengthUint32)
-			} else if n != 4 {
-				err = errors.New("failed to read 4 byte for BitLen32")
+			if _, err = io.ReadFull(reader, buf); err == nil {
+				length = uint64(binary.BigEndian.Uint32(buf))
 			}
 		case BitLen64:
 			logrus.Infoln("BitLen64")
 
 			buf = make([]byte, 8)
-			if n, err := io.ReadFull(reader, buf); err == nil && n == 8 {
-				err = binary.Write(bytes.NewBuffer(buf), binary.LittleEndian, length)
-			} else if n != 8 {
-				err = errors.New("failed to read 8 byte for BitLen64")
+			if _, err = io.ReadFull(reader, buf); err == nil {
+				length = binary.BigEndian.Uint64(buf)
 			}
 		default:
 			err = errors.New(fmt.Sprintf("Unknown length encoding %d in rdbLoadLen(), %d, %d", buf[0], BitLen32, BitLen64))
@@ -215,7 +209,7 @@ func LoadBinaryDouble(reader *bufio.Reader) (f float64, err error) {
 		return f, errors.New(fmt.Sprintf("failed to load [%d] bytes for LoadBinaryDouble", int(length)))
 	}
 
-	err = binary.Write(bytes.NewBuffer(buf), binary.LittleEndian, f)
+	f = math.Float64frombits(binary.LittleEndian.Uint64(buf))
 	return f, err
 }
 
-- 
2.43.0


From 46831a6217e8fae1361fa7cec0c3a39bbf783d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 34/86] fix: integer encoded snapshot strings are signed

---
 redis/rdb/rdb.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index e2a395a..f06ef30 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -114,7 +114,7 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 			}
 
 			num := binary.LittleEndian.Uint16(buf)
-			str = fmt.Sprintf("%d", num)
+			str = fmt.Sprintf("%d", int16(num))
 		case EncInt32:
 			// 4 byte
 			var buf = make([]byte, 4)
@@ -125,7 +125,7 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 			}
 			num := binary.LittleEndian.Uint32(buf)
 			//buf[0] | (buf[1] << 8) | (buf[2] << 16 | buf[3] << 24)
-			str = fmt.Sprintf("%d", num)
+			str = fmt.Sprintf("%d", int32(num))
 		case EncLzf:
 			var n uint64
 			// 解压前长度
-- 
2.43.0


From d0a84f2b647faed01b3d7c710e8affebe4d01920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:45 +0000
Subject: [PATCH 35/86] fix: a truncated snapshot must be an error, not the end
 of the process

---
 redis/rdb/rdb.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index f06ef30..9723eb5 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -8,7 +8,6 @@ import (
 	"github.com/liujiangwei/xxcache/redis/lzf"
 	"github.com/sirupsen/logrus"
 	"io"
-	"log"
 	"math"
 	"strconv"
 	"unsafe"
@@ -58,7 +57,7 @@ func LoadLen(reader *bufio.Reader) (length uint64, encoded bool, err error) {
 			num := binary.BigEndian.Uint16([]byte{buf[0] & 0x3F, buf[1]})
 			length = uint64(num)
 		} else {
-			panic("failed to load BitLen14")
+			return length, encoded, err
 		}
 	default:
 		// compare first byte
@@ -119,7 +118,7 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 			// 4 byte
 			var buf = make([]byte, 4)
 			if n, err := io.ReadFull(reader, buf); err != nil {
-				log.Fatal(err)
+				return str, err
 			} else if n != 4 {
 				return str, errors.New("failed to read 4 bytes for EncInt32")
 			}
-- 
2.43.0


From 0cd5b7f1ba2cc47d366f487d75c7a4d40e8bceba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:46 +0000
Subject: [PATCH 36/86] fix: an illegal snapshot string must be an error, not a
 crash or garbage

---
 redis/rdb/rdb.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index 9723eb5..e80c81f 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -83,6 +83,9 @@ func LoadLen(reader *bufio.Reader) (length uint64, encoded bool, err error) {
 	return length, encoded, err
 }
 
+// a redis string is never longer than 512MB
+const maxStringLength = 512 * 1024 * 1024
+
 const EncInt8 = 0
 const EncInt16 = 1
 const EncInt32 = 2
@@ -139,6 +142,9 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 				return str, err
 			}
 
+			if n > maxStringLength {
+				return str, errors.New("snapshot string is too long")
+			}
 			var c = make([]byte, n)
 			if n, err := io.ReadFull(reader, c); err != nil {
 				return str, err
@@ -146,7 +152,13 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 				return str, errors.New(fmt.Sprintf("failed to read [%d] bytes for LoadString EncLzf", len(c)))
 			}
 
+			if length > maxStringLength {
+				return str, errors.New("snapshot string is too long")
+			}
 			str = lzf.DeCompress(string(c), int(length))
+			if len(str) != int(length) {
+				return "", errors.New("failed to decompress string")
+			}
 		default:
 			err = errors.New("failed decode string")
 		}
@@ -155,6 +167,10 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 		return str, err
 	}
 
+	if length > maxStringLength {
+		return str, errors.New("snapshot string is too long")
+	}
+
 	buf := make([]byte, length)
 	if _, err := io.ReadFull(reader, buf); err != nil {
 		return str, err
-- 
2.43.0


From 5aacaa0d675386a01fc96949a95609aa48dd3eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:47 +0000
Subject: [PATCH 37/86] fix: infinite snapshot scores must be infinite

---
 redis/rdb/rdb.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index e80c81f..f4cb0ff 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -180,15 +180,9 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 	return str, err
 }
 
-//R_Zero = 0.0;
-//R_PosInf = 1.0/R_Zero;
-//RNegInf = -1.0/R_Zero;
-//RNan = R_Zero/R_Zero;
-// todo
-const RZero = float64(1.0)
-const RPosInf = 1.0 / RZero
-const RNegInf = -1.0 / RZero
-const RNan = RZero / RZero
+var RPosInf = math.Inf(1)
+var RNegInf = math.Inf(-1)
+var RNan = math.NaN()
 
 func LoadDouble(reader *bufio.Reader) (f float64, err error) {
 	var length byte
-- 
2.43.0


From 7bd987aa18238aedf2cd4535597b6629dfd49420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:48 +0000
Subject: [PATCH 38/86] fix: decompressing what was compressed must yield the
 original

---
 redis/lzf/lzf.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/redis/lzf/lzf.go b/redis/lzf/lzf.go
index 731b30d..9b1a115 100644
--- a/redis/lzf/lzf.go
+++ b/redis/lzf/lzf.go
@@ -9,9 +9,14 @@ import (
 )
 
 func Compress(str string) string {
-	encoded := make([]byte, len(str))
+	if str == "" {
+		return str
+	}
+
+	// data that does not shrink grows by less than 4%
+	encoded := make([]byte, len(str)+len(str)/16+16)
 	input := []byte(str)
-	length := C.lzf_compress(unsafe.Pointer(&input[0]), C.uint(len(str)), unsafe.Pointer(&encoded[0]), C.uint(len(str)))
+	length := C.lzf_compress(unsafe.Pointer(&input[0]), C.uint(len(str)), unsafe.Pointer(&encoded[0]), C.uint(len(encoded)))
 	if length == 0 {
 		return str
 	}
@@ -20,10 +25,14 @@ func Compress(str string) string {
 }
 
 func DeCompress(str string, length int) string {
+	if str == "" || length <= 0 {
+		return str
+	}
+
 	input := []byte(str)
 	var decoded = make([]byte, length)
 	dl := C.lzf_decompress(unsafe.Pointer(&input[0]), C.uint(len(input)), unsafe.Pointer(&decoded[0]), C.uint(length))
-	if dl == 0 {
+	if int(dl) != length {
 		return str
 	}
 	return string(decoded)
-- 
2.43.0


From 7273fa8e611f3ffc448863c7df71a8ff12acef33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:49 +0000
Subject: [PATCH 39/86] fix: intset members are signed

---
 redis/intset/intset.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redis/intset/intset.go b/redis/intset/intset.go
index cbcbc88..84ca7c1 100644
--- a/redis/intset/intset.go
+++ b/redis/intset/intset.go
@@ -25,7 +25,7 @@ func Load(encoded string) (set []int64) {
 			end := 8 + 2*(i+1)
 
 			num := binary.LittleEndian.Uint16([]byte(encoded[start:end]))
-			set = append(set, int64(num))
+			set = append(set, int64(int16(num)))
 		}
 	case EncInt32:
 		for i := 0; i < int(length); i++ {
@@ -33,7 +33,7 @@ func Load(encoded string) (set []int64) {
 			end := 8 + 4*(i+1)
 
 			num := binary.LittleEndian.Uint32([]byte(encoded[start:end]))
-			set = append(set, int64(num))
+			set = append(set, int64(int32(num)))
 		}
 	case EncInt64:
 		for i := 0; i < int(length); i++ {
-- 
2.43.0


From 0d98e6fd5c2c9e7b275ae16e525ed939169fd2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:50 +0000
Subject: [PATCH 40/86] fix: a zipmap entry starts right after the one before
 it

---
 redis/zipmap/zipmap.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/redis/zipmap/zipmap.go b/redis/zipmap/zipmap.go
index fcee6f9..ef5c64d 100644
--- a/redis/zipmap/zipmap.go
+++ b/redis/zipmap/zipmap.go
@@ -159,7 +159,7 @@ func Len(key string, value string) int {
 
 func Load(encoded string) (hash map[string]string) {
 	hash = make(map[string]string, encoded[0])
-	for i := 1; i < len(encoded)-1; i++ {
+	for i := 1; i < len(encoded)-1; {
 		kl := uint32(encoded[i])
 		i++
 		if kl >= BigLen {
@@ -178,13 +178,9 @@ func Load(encoded string) (hash map[string]string) {
 			i += 4
 		}
 
-		// value free length
+		// value free length, always one byte
 		vfl := uint32(encoded[i])
 		i++
-		if vfl >= BigLen {
-			vfl = binary.LittleEndian.Uint32([]byte(encoded[i : i+4]))
-			i += 4
-		}
 
 		// value
 		value := encoded[i : i+int(vl)]
-- 
2.43.0


From b6db383b5b1b601049c1ebb73626566aaf2c024d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:51 +0000
Subject: [PATCH 41/86] fix: ziplist strings of 64 bytes and more must be
 decoded

---
 redis/ziplist/ziplist.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redis/ziplist/ziplist.go b/redis/ziplist/ziplist.go
index efe70e9..393fff9 100644
--- a/redis/ziplist/ziplist.go
+++ b/redis/ziplist/ziplist.go
@@ -93,11 +93,11 @@ func (iterator *Iterator) entry() (size, length uint32, str string) {
 		case ZipStr14b:
 			size = 2
 			//(len) = (((ptr)[0] & 0x3f) << 8) | (ptr)[1];
-			length = uint32((iterator.val[iterator.pos]&0x3f)<<8 | iterator.val[iterator.pos+1])
+			length = uint32(iterator.val[iterator.pos]&0x3f)<<8 | uint32(iterator.val[iterator.pos+1])
 		case ZipStr32b:
 			size = 5
 			pos := iterator.pos
-			length = uint32(iterator.val[pos+1]<<24 | iterator.val[pos+2]<<16 | iterator.val[pos+3]<<8 | iterator.val[pos+4])
+			length = binary.BigEndian.Uint32([]byte(iterator.val[pos+1 : pos+5]))
 		default:
 			panic("failed to decode zip list item")
 		}
@@ -125,7 +125,7 @@ func (iterator *Iterator) entry() (size, length uint32, str string) {
 	}
 
 	if length > 0 {
-		str = iterator.val[iterator.pos+1 : iterator.pos+int(length)+1]
+		str = iterator.val[iterator.pos+int(size) : iterator.pos+int(size+length)]
 	}
 
 	return length, size, str
-- 
2.43.0


From 24e1c0451caf41419b358c10b0bc0b6efcd32f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:52 +0000
Subject: [PATCH 42/86] fix: ziplist integers must be decoded to their decimal
 form

---
 redis/ziplist/ziplist.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/redis/ziplist/ziplist.go b/redis/ziplist/ziplist.go
index 393fff9..aa63569 100644
--- a/redis/ziplist/ziplist.go
+++ b/redis/ziplist/ziplist.go
@@ -113,7 +113,7 @@ func (iterator *Iterator) entry() (size, length uint32, str string) {
 		case ZipInt32b:
 			length = 4
 		case ZipInt64b:
-			length = 5
+			length = 8
 		default:
 			if encoding >= ZipIntImmMin && encoding <= ZipIntImmMax {
 				val := (encoding & ZipIntImmMask) - 1
@@ -128,6 +128,19 @@ func (iterator *Iterator) entry() (size, length uint32, str string) {
 		str = iterator.val[iterator.pos+int(size) : iterator.pos+int(size+length)]
 	}
 
+	switch encoding {
+	case ZipInt8b:
+		str = strconv.Itoa(int(int8(str[0])))
+	case ZipInt16b:
+		str = strconv.Itoa(int(int16(binary.LittleEndian.Uint16([]byte(str)))))
+	case ZipInt24b:
+		str = strconv.Itoa(int(int32(binary.LittleEndian.Uint32([]byte("\x00"+str))) >> 8))
+	case ZipInt32b:
+		str = strconv.Itoa(int(int32(binary.LittleEndian.Uint32([]byte(str)))))
+	case ZipInt64b:
+		str = strconv.FormatInt(int64(binary.LittleEndian.Uint64([]byte(str))), 10)
+	}
+
 	return length, size, str
 }
 
-- 
2.43.0


From b7c33337db23598e6117e64d57978ade838ad132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:20 +0000
Subject: [PATCH 43/86] fix: a snapshot expiry is an absolute time in
 milliseconds

---
 redis/replication.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redis/replication.go b/redis/replication.go
index 57142f0..04cbc68 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -199,7 +199,7 @@ func (repl *Replication) Load() (err error) {
 			if _, err = io.ReadFull(buf, expireS); err != nil {
 				return err
 			}
-			expiresTime = uint64(binary.LittleEndian.Uint32(expireS) * 1000)
+			expiresTime = uint64(binary.LittleEndian.Uint32(expireS)) * 1000
 		case rdb.OpCodeExpireTimeMs:
 			var milliTime = make([]byte, 8)
 			if _, err = io.ReadFull(buf, milliTime); err != nil {
@@ -527,7 +527,7 @@ func (repl *Replication) Load() (err error) {
 			}
 
 			if expiresTime > 0 {
-				args := []string{"pExpire", key, strconv.Itoa(int(expiresTime))}
+				args := []string{"pExpireAt", key, strconv.Itoa(int(expiresTime))}
 				cmd := NewBaseCommand(args...)
 				repl.Messages <- ReplicationMessage{
 					Database: repl.database,
-- 
2.43.0


From 37a9bee7a0cc98089a61cef8ebd9dd2be45d9b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 44/86] fix: a snapshot list must keep its order

---
 redis/replication.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index 04cbc68..64b7a05 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -315,7 +315,7 @@ func (repl *Replication) Load() (err error) {
 				}
 
 				var value string
-				var args = []string{"lPush", key}
+				var args = []string{"rPush", key}
 				for ; length > 0; length-- {
 					if value, err = rdb.LoadString(buf); err != nil {
 						logrus.Warnln("failed to load TypeList value", err)
-- 
2.43.0


From 81e412ca044902533146a0bc10b2cfb8c4882566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:22 +0000
Subject: [PATCH 45/86] fix: a snapshot hash must be loaded as a hash

---
 redis/replication.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index 64b7a05..c46d20b 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -398,7 +398,7 @@ func (repl *Replication) Load() (err error) {
 					return err
 				}
 
-				var args = []string{"zAdd", key}
+				var args = []string{"hmSet", key}
 				var field, value string
 				for ; length > 0; length-- {
 					if field, err = rdb.LoadString(buf); err != nil {
-- 
2.43.0


From 63bbf7b2eed68f3c942f4fcb3c81e4963639d95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:24 +0000
Subject: [PATCH 46/86] fix: zAdd takes the score before the member

---
 redis/replication.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/redis/replication.go b/redis/replication.go
index c46d20b..b267fce 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -369,7 +369,6 @@ func (repl *Replication) Load() (err error) {
 						logrus.Warnln("failed to load TypeZSet, TypeZSet2 value", err)
 						return err
 					}
-					args = append(args, value)
 					if opCode == rdb.TypeZSet2 {
 						if score, err = rdb.LoadBinaryDouble(buf); err != nil {
 							logrus.Warnln("failed to load TypeZSet, TypeZSet2 value TypeZSet2", err)
@@ -382,7 +381,7 @@ func (repl *Replication) Load() (err error) {
 						}
 					}
 
-					args = append(args, strconv.FormatFloat(score, 'f', -1, 64))
+					args = append(args, strconv.FormatFloat(score, 'f', -1, 64), value)
 				}
 
 				cmd := NewBaseCommand(args...)
@@ -480,7 +479,7 @@ func (repl *Replication) Load() (err error) {
 					var args = []string{"zAdd", key}
 					list := ziplist.Load(str)
 					for i := 0; i < len(list)/2; i++ {
-						args = append(args, list[2*i], list[2*i+1])
+						args = append(args, list[2*i+1], list[2*i])
 					}
 					cmd := NewBaseCommand(args...)
 					repl.Messages <- ReplicationMessage{
-- 
2.43.0


From fae07a0831721d288558f3300043d64fa761833a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:25 +0000
Subject: [PATCH 47/86] fix: the empty string is a legal key

---
 redis/replication.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/redis/replication.go b/redis/replication.go
index b267fce..9529e63 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -287,9 +287,6 @@ func (repl *Replication) Load() (err error) {
 			if key, err = rdb.LoadString(buf); err != nil {
 				logrus.Warnln("failed to load key", err)
 				return err
-			} else if key == "" {
-				logrus.Warnln("failed to load key, key is empty", err)
-				return errors.New("empty key")
 			}
 
 			// opCode is object type
-- 
2.43.0


From 96fbf4d4b2bcf37a1885fc77b5de91c763a4e215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:26 +0000
Subject: [PATCH 48/86] fix: an unsupported snapshot value must be an error

---
 redis/replication.go | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/redis/replication.go b/redis/replication.go
index 9529e63..b0c0d39 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -506,20 +506,11 @@ func (repl *Replication) Load() (err error) {
 					}
 				}
 			case rdb.TypeStreamListPacks:
-				var length uint64
-				if length, _, err = rdb.LoadLen(buf); err != nil {
-					return err
-				}
-
-				for ; length > 0; length-- {
-					//if value, Err = rdb.LoadString(buf); Err != nil {
-					//	return Err
-					//}
-					//logrus.Infoln("TypeListQuickList", key, value)
-				}
-				err = errors.New("TypeStreamListPacks unsupported now")
+				return errors.New("TypeStreamListPacks unsupported now")
 			case rdb.TypeModule, rdb.TypeModule2:
-				err = errors.New("TypeModule TypeModule2 unsupported now")
+				return errors.New("TypeModule TypeModule2 unsupported now")
+			default:
+				return errors.New("unknown type " + strconv.Itoa(int(opCode)))
 			}
 
 			if expiresTime > 0 {
-- 
2.43.0


From 11850d2a5228d65716e65a5fc692fcc74ee3eea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:27 +0000
Subject: [PATCH 49/86] fix: a file that is not a snapshot must be an error

---
 redis/replication.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index b0c0d39..98207e5 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -180,9 +180,12 @@ func (repl *Replication) Load() (err error) {
 
 	buf := bufio.NewReader(file)
 	var version = make([]byte, 9)
-	if _, err = buf.Read(version); err != nil {
+	if _, err = io.ReadFull(buf, version); err != nil {
 		return err
 	}
+	if !strings.HasPrefix(string(version), "REDIS") {
+		return errors.New("not a rdb file")
+	}
 	// start to load rdb file
 	var opCode uint
 	var expiresTime uint64
-- 
2.43.0


From b55fd1a4947a935e8e57ddd2397e3198c03446c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:28 +0000
Subject: [PATCH 50/86] fix: the rdb file must be closed

---
 redis/replication.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/redis/replication.go b/redis/replication.go
index 98207e5..6e7d8ce 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -145,6 +145,10 @@ func (repl *Replication) sync() (err error) {
 		return errors.New("failed to open rdb file," + err.Error())
 	}
 
+	defer func() {
+		_ = fp.Close()
+	}()
+
 	if protocol, length, err := repl.conn.ReadWithWriter(fp); err != nil {
 		return errors.New("failed to save rdb file," + err.Error())
 	} else {
@@ -178,6 +182,10 @@ func (repl *Replication) Load() (err error) {
 		return errors.New("failed to open rdb file," + err.Error())
 	}
 
+	defer func() {
+		_ = file.Close()
+	}()
+
 	buf := bufio.NewReader(file)
 	var version = make([]byte, 9)
 	if _, err = io.ReadFull(buf, version); err != nil {
-- 
2.43.0


From e8c2fc0098fddd3eebc2c9d4438ab8da37058b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:29 +0000
Subject: [PATCH 51/86] fix: an error reply to SYNC is not a snapshot

---
 redis/replication.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redis/replication.go b/redis/replication.go
index 6e7d8ce..ebe0abd 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -151,6 +151,8 @@ func (repl *Replication) sync() (err error) {
 
 	if protocol, length, err := repl.conn.ReadWithWriter(fp); err != nil {
 		return errors.New("failed to save rdb file," + err.Error())
+	} else if protocol != ProtocolBulkString {
+		return errors.New("failed to save rdb file, master did not send one")
 	} else {
 		logrus.Infoln("redis rdb file", protocol, length, repl.RdbFile)
 	}
-- 
2.43.0


From b069186fdad40234f5a422322f769902c8fd19e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:30 +0000
Subject: [PATCH 52/86] fix: keep-alive newlines before the snapshot must be
 skipped

---
 redis/conn.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/redis/conn.go b/redis/conn.go
index 50a2415..3e9c7e8 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -129,6 +129,13 @@ func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 		return protocol, 0, err
 	}
 
+	// a master sends empty lines while it prepares the snapshot
+	for protocol == '\n' || protocol == '\r' {
+		if protocol, err = c.readProtocol(); err != nil {
+			return protocol, 0, err
+		}
+	}
+
 	buf := bufio.NewWriter(writer)
 
 	defer func() {
-- 
2.43.0


From a7843157d9289508200a9bac597b96674f0c20a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:50 +0000
Subject: [PATCH 53/86] fix: a snapshot that can not be written must be an
 error

---
 redis/conn.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index 3e9c7e8..7adc532 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -123,8 +123,8 @@ func (c Conn) discardEof() error {
 }
 
 // save message content to io reader
-func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
-	protocol, err := c.readProtocol()
+func (c Conn) ReadWithWriter(writer io.Writer) (protocol Protocol, n int, err error) {
+	protocol, err = c.readProtocol()
 	if err != nil {
 		return protocol, 0, err
 	}
@@ -139,7 +139,9 @@ func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 	buf := bufio.NewWriter(writer)
 
 	defer func() {
-		_ = buf.Flush()
+		if e := buf.Flush(); e != nil && err == nil {
+			err = e
+		}
 	}()
 
 	switch protocol {
-- 
2.43.0


From 7eea38d2e6d70015626044b5a9f358f95bf9e050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:51 +0000
Subject: [PATCH 54/86] fix: a nil reply to SYNC is not a snapshot

---
 redis/conn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redis/conn.go b/redis/conn.go
index 7adc532..2ad0030 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -157,6 +157,10 @@ func (c Conn) ReadWithWriter(writer io.Writer) (protocol Protocol, n int, err er
 			return ProtocolBulkString, 0, err
 		}
 
+		if length < 0 {
+			return ProtocolBulkString, 0, errors.New("invalid bulk string length " + string(bs))
+		}
+
 		for i := 0; i < length; i++ {
 			b, err := c.Reader.ReadByte()
 			if err != nil {
-- 
2.43.0


From 8dfae7d15b6066db82c2fb991cc36eb30decec7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:52 +0000
Subject: [PATCH 55/86] fix: streamed commands belong to the selected database

---
 redis/replication.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index ebe0abd..200f87c 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -74,6 +74,9 @@ func (repl *Replication) SyncWithRedis() error {
 }
 
 func (repl *Replication) WaitForMessage() {
+	// the stream starts in database 0
+	repl.database = 0
+
 	for {
 		message, err := repl.conn.Recv()
 		if err != nil {
@@ -87,8 +90,15 @@ func (repl *Replication) WaitForMessage() {
 			continue
 		}
 
+		if args, ok := message.(ArrayMessage); ok && len(args) == 2 && strings.ToLower(args[0].String()) == "select" {
+			if index, err := strconv.Atoi(args[1].String()); err == nil {
+				repl.database = index
+				continue
+			}
+		}
+
 		repl.Messages <- ReplicationMessage{
-			Database: 0,
+			Database: repl.database,
 			Message:  message,
 			Offset:   0,
 		}
-- 
2.43.0


From 240368b271b0ab5444903b7535b5fd88377a9dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:53 +0000
Subject: [PATCH 56/86] fix: only a ping command is a ping

---
 redis/replication.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/redis/replication.go b/redis/replication.go
index 200f87c..9c885cc 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -85,12 +85,13 @@ func (repl *Replication) WaitForMessage() {
 			return
 		}
 
-		if strings.HasPrefix(strings.ToLower(message.String()), "ping") {
+		args, ok := message.(ArrayMessage)
+		if ok && len(args) > 0 && strings.ToLower(args[0].String()) == "ping" {
 			repl.lastPing = time.Now()
 			continue
 		}
 
-		if args, ok := message.(ArrayMessage); ok && len(args) == 2 && strings.ToLower(args[0].String()) == "select" {
+		if ok && len(args) == 2 && strings.ToLower(args[0].String()) == "select" {
 			if index, err := strconv.Atoi(args[1].String()); err == nil {
 				repl.database = index
 				continue
-- 
2.43.0


From 1a02316e886f72f84ff97966b46e5a4f3a2e3fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:54 +0000
Subject: [PATCH 57/86] fix: the client must use an initialized cache

---
 xxcache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xxcache.go b/xxcache.go
index cd29f87..0c3a0c8 100644
--- a/xxcache.go
+++ b/xxcache.go
@@ -31,7 +31,7 @@ const redisRdbFile = "temp.rdb"
 func New(option Option) (client Client, err error) {
 	client.option = option
 
-	client.cache = new(cache.Cache)
+	client.cache = cache.New()
 	prepareOption(&option)
 
 	repl := redis.Replication{
-- 
2.43.0


From 0e64216e031fa156e8874ede30c4be7cc974a566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:55 +0000
Subject: [PATCH 58/86] fix: the end of the replication stream must not be
 handled as messages

---
 xxcache.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xxcache.go b/xxcache.go
index 0c3a0c8..1719b8c 100644
--- a/xxcache.go
+++ b/xxcache.go
@@ -63,7 +63,13 @@ func New(option Option) (client Client, err error) {
 func (client *Client) handleReplication(repl redis.Replication) {
 	for {
 		select {
-		case message := <-repl.Messages:
+		case message, ok := <-repl.Messages:
+			if !ok {
+				// the stream has ended, only errors are left to report
+				repl.Messages = nil
+				continue
+			}
+
 			if message.Database != client.option.database {
 				continue
 			}
-- 
2.43.0


From e637eab14cdb195ba2742fdf747273b4448e7afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:56 +0000
Subject: [PATCH 59/86] fix: the replication handler must not wait for itself

---
 xxcache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xxcache.go b/xxcache.go
index 1719b8c..7fc63e3 100644
--- a/xxcache.go
+++ b/xxcache.go
@@ -75,7 +75,7 @@ func (client *Client) handleReplication(repl redis.Replication) {
 			}
 
 			if err := cache.HandleMessage(client.cache, message.Message); err != nil {
-				repl.Err <- err
+				logrus.Warnln("repl error", err)
 			}
 		case err := <-repl.Err:
 			if err != nil {
-- 
2.43.0


From 8fbac8c58361de77b121219c2bc9270b3c563846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:57 +0000
Subject: [PATCH 60/86] fix: a key that is not found locally must be read from
 redis

---
 command.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/command.go b/command.go
index b33bdcd..302283f 100644
--- a/command.go
+++ b/command.go
@@ -1,6 +1,7 @@
 package xxcache
 
 import (
+	"github.com/liujiangwei/xxcache/cache"
 	"time"
 )
 
@@ -75,7 +76,13 @@ type HashCommand interface {
 }
 
 func (client Client) Get(key string) (string, error) {
-	return client.cache.Get(key)
+	val, err := client.cache.Get(key)
+	if err == cache.ErrKeyNil {
+		// key is not found in the local cache
+		return client.redis.Get(key)
+	}
+
+	return val, err
 }
 
 func (client Client) Set(key string, value string) (string, error) {
-- 
2.43.0


From b14b199f2d5ed121e14130d3f055cf3c9f87f121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:58 +0000
Subject: [PATCH 61/86] fix: a replicated set or hmset must be applied or
 refused, rpush must not panic

---
 cache/message.go | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/cache/message.go b/cache/message.go
index d915d1f..20ff939 100644
--- a/cache/message.go
+++ b/cache/message.go
@@ -3,6 +3,7 @@ package cache
 import (
 	"errors"
 	"github.com/liujiangwei/xxcache/redis"
+	"strconv"
 	"strings"
 )
 
@@ -18,25 +19,45 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 
 	switch strings.ToLower(messages[0].String()) {
 	case "set":
-		_, err = cache.Set(messages[1].String(), messages[2].String())
-	case "rpush":
-		if len(messages) < 2 {
-			return errors.New("rpush command args error")
+		if len(messages) == 5 {
+			return handleSetWithExpire(cache, messages)
 		}
-
-		var values []string
-		for i := 2; i < len(messages); i++ {
-			values = append(values, messages[i].String())
+		if len(messages) != 3 {
+			return errors.New("set command args error")
 		}
-		_, err = cache.RPush(messages[1].String(), values...)
+		_, err = cache.Set(messages[1].String(), messages[2].String())
 	case "hmset":
-		if len(messages) < 2 {
+		if len(messages) < 4 || len(messages)%2 != 0 {
 			return errors.New("hmset command args error")
 		}
 
+		fv := make(map[string]string)
+		for i := 2; i < len(messages); i += 2 {
+			fv[messages[i].String()] = messages[i+1].String()
+		}
+		_, err = cache.HMSet(messages[1].String(), fv)
 	default:
 		return errors.New("unknown handled command," + message.Serialize())
 	}
 
 	return err
 }
+
+// set key value EX seconds, set key value PX milliseconds
+func handleSetWithExpire(cache *Cache, messages redis.ArrayMessage) error {
+	expires, err := strconv.ParseInt(messages[4].String(), 10, 64)
+	if err != nil {
+		return err
+	}
+
+	switch strings.ToLower(messages[3].String()) {
+	case "ex":
+		_, err = cache.SetEX(messages[1].String(), messages[2].String(), expires)
+	case "px":
+		_, err = cache.PSetEX(messages[1].String(), messages[2].String(), expires)
+	default:
+		err = errors.New("unknown set option," + messages.Serialize())
+	}
+
+	return err
+}
-- 
2.43.0


From 7ccb6420e22edfd4a6ef3cb4c09f37fcb444affe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:59 +0000
Subject: [PATCH 62/86] fix: replicated writes the cache implements must reach
 it

---
 cache/message.go | 123 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 120 insertions(+), 3 deletions(-)

diff --git a/cache/message.go b/cache/message.go
index 20ff939..696914e 100644
--- a/cache/message.go
+++ b/cache/message.go
@@ -7,6 +7,28 @@ import (
 	"strings"
 )
 
+var commandArity = map[string]int{
+	"setnx":        3,
+	"setex":        4,
+	"psetex":       4,
+	"getset":       3,
+	"append":       3,
+	"setrange":     4,
+	"incr":         2,
+	"decr":         2,
+	"incrby":       3,
+	"decrby":       3,
+	"incrbyfloat":  3,
+	"mset":         -3,
+	"msetnx":       -3,
+	"del":          -2,
+	"flushdb":      -1,
+	"hsetnx":       4,
+	"hdel":         -3,
+	"hincrby":      4,
+	"hincrbyfloat": 4,
+}
+
 func HandleMessage(cache *Cache, message redis.Message) (err error) {
 	messages, ok := message.(redis.ArrayMessage)
 	if !ok {
@@ -17,7 +39,102 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 		return errors.New("empty message")
 	}
 
-	switch strings.ToLower(messages[0].String()) {
+	name := strings.ToLower(messages[0].String())
+
+	// number of arguments including the name, negative for at least that many
+	if n, ok := commandArity[name]; ok && (n > 0 && len(messages) != n || n < 0 && len(messages) < -n) {
+		return errors.New(name + " command args error")
+	}
+
+	var key string
+	if len(messages) > 1 {
+		key = messages[1].String()
+	}
+
+	switch name {
+	case "setnx":
+		_, err = cache.SetNX(key, messages[2].String())
+	case "setex", "psetex":
+		var expires int64
+		if expires, err = strconv.ParseInt(messages[2].String(), 10, 64); err != nil {
+			return err
+		}
+		if name == "setex" {
+			_, err = cache.SetEX(key, messages[3].String(), expires)
+		} else {
+			_, err = cache.PSetEX(key, messages[3].String(), expires)
+		}
+	case "getset":
+		if _, err = cache.GetSet(key, messages[2].String()); err == ErrKeyNil {
+			err = nil
+		}
+	case "append":
+		_, err = cache.Append(key, messages[2].String())
+	case "setrange":
+		var offset int
+		if offset, err = strconv.Atoi(messages[2].String()); err != nil {
+			return err
+		}
+		_, err = cache.SetRange(key, offset, messages[3].String())
+	case "incr":
+		_, err = cache.Incr(key)
+	case "decr":
+		_, err = cache.Decr(key)
+	case "incrby", "decrby":
+		var n int64
+		if n, err = strconv.ParseInt(messages[2].String(), 10, 64); err != nil {
+			return err
+		}
+		if name == "incrby" {
+			_, err = cache.IncrBy(key, n)
+		} else {
+			_, err = cache.DecrBy(key, n)
+		}
+	case "incrbyfloat":
+		var f float64
+		if f, err = strconv.ParseFloat(messages[2].String(), 64); err != nil {
+			return err
+		}
+		_, err = cache.IncrByFloat(key, f)
+	case "mset", "msetnx":
+		if len(messages)%2 != 1 {
+			return errors.New(name + " command args error")
+		}
+		kv := make(map[string]string)
+		for i := 1; i < len(messages); i += 2 {
+			kv[messages[i].String()] = messages[i+1].String()
+		}
+		if name == "mset" {
+			cache.MSet(kv)
+		} else {
+			cache.MSetNX(kv)
+		}
+	case "del":
+		for _, m := range messages[1:] {
+			cache.Del(m.String())
+		}
+	case "flushdb":
+		cache.Flush()
+	case "hsetnx":
+		_, err = cache.HSetNX(key, messages[2].String(), messages[3].String())
+	case "hdel":
+		var fields []string
+		for _, m := range messages[2:] {
+			fields = append(fields, m.String())
+		}
+		_, err = cache.HDel(key, fields...)
+	case "hincrby":
+		var n int
+		if n, err = strconv.Atoi(messages[3].String()); err != nil {
+			return err
+		}
+		_, err = cache.HIncrBy(key, messages[2].String(), n)
+	case "hincrbyfloat":
+		var f float64
+		if f, err = strconv.ParseFloat(messages[3].String(), 64); err != nil {
+			return err
+		}
+		_, err = cache.HIncrByFloat(key, messages[2].String(), f)
 	case "set":
 		if len(messages) == 5 {
 			return handleSetWithExpire(cache, messages)
@@ -26,9 +143,9 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 			return errors.New("set command args error")
 		}
 		_, err = cache.Set(messages[1].String(), messages[2].String())
-	case "hmset":
+	case "hmset", "hset":
 		if len(messages) < 4 || len(messages)%2 != 0 {
-			return errors.New("hmset command args error")
+			return errors.New(name + " command args error")
 		}
 
 		fv := make(map[string]string)
-- 
2.43.0


From a9dd3eb6b0a2ea181c1aaeab640674c5c070828b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:00 +0000
Subject: [PATCH 63/86] fix: keys loaded with an expiry must expire

---
 cache/cacheutil.go | 14 ++++++++++++++
 cache/message.go   |  8 ++++++++
 2 files changed, 22 insertions(+)

diff --git a/cache/cacheutil.go b/cache/cacheutil.go
index 78285c0..b33e5e5 100644
--- a/cache/cacheutil.go
+++ b/cache/cacheutil.go
@@ -33,6 +33,20 @@ func (c *Cache) expires(key string, duration time.Duration) {
 	}
 }
 
+// set the time the key expires at, returns 0 if the key does not exist
+func (c *Cache) PExpireAt(key string, timestamp time.Time) (int, error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
+	if _, ok := c.get(key); !ok {
+		return 0, nil
+	}
+
+	c.expiresDict.Store(key, timestamp)
+
+	return 1, nil
+}
+
 func (c *Cache) get(key string) (value interface{},ok bool){
 	val, ok := c.dataDict.Load(key)
 	if !ok{
diff --git a/cache/message.go b/cache/message.go
index 696914e..a3ee9f6 100644
--- a/cache/message.go
+++ b/cache/message.go
@@ -5,6 +5,7 @@ import (
 	"github.com/liujiangwei/xxcache/redis"
 	"strconv"
 	"strings"
+	"time"
 )
 
 var commandArity = map[string]int{
@@ -23,6 +24,7 @@ var commandArity = map[string]int{
 	"msetnx":       -3,
 	"del":          -2,
 	"flushdb":      -1,
+	"pexpireat":    3,
 	"hsetnx":       4,
 	"hdel":         -3,
 	"hincrby":      4,
@@ -113,6 +115,12 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 		for _, m := range messages[1:] {
 			cache.Del(m.String())
 		}
+	case "pexpireat":
+		var ms int64
+		if ms, err = strconv.ParseInt(messages[2].String(), 10, 64); err != nil {
+			return err
+		}
+		cache.PExpireAt(key, time.Unix(ms/1000, ms%1000*int64(time.Millisecond)))
 	case "flushdb":
 		cache.Flush()
 	case "hsetnx":
-- 
2.43.0


From b3265ab54f9abc80d84280962a287125936c21bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:29 +0000
Subject: [PATCH 64/86] fix: concurrent readers must not see a key past its
 deadline

---
 cache/cachestring.go |  8 ++++----
 cache/cacheutil.go   | 11 +++--------
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index 01d56fa..5ed3e84 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -130,8 +130,8 @@ func (c *Cache) StrLen(key string) (int, error) {
 	c.lock.RLock()
 	defer c.lock.RUnlock()
 
-	val, ok := c.dataDict.Load(key)
-	if !ok || c.expired(key) {
+	val, ok := c.get(key)
+	if !ok {
 		return 0, nil
 	}
 
@@ -210,8 +210,8 @@ func (c *Cache) GetRange(key string, start, end int) (string, error) {
 	c.lock.RLock()
 	defer c.lock.RUnlock()
 
-	old, ok := c.dataDict.Load(key)
-	if !ok || c.expired(key) {
+	old, ok := c.get(key)
+	if !ok {
 		return "", nil
 	}
 	oldStr, err := fmtString(old)
diff --git a/cache/cacheutil.go b/cache/cacheutil.go
index b33e5e5..e5ff121 100644
--- a/cache/cacheutil.go
+++ b/cache/cacheutil.go
@@ -48,15 +48,10 @@ func (c *Cache) PExpireAt(key string, timestamp time.Time) (int, error) {
 }
 
 func (c *Cache) get(key string) (value interface{},ok bool){
-	val, ok := c.dataDict.Load(key)
-	if !ok{
-		return val, ok
-	}
-
+	// another reader may collect the expired key at any time, so look at the deadline first
 	if c.expired(key) {
-		val = nil
-		ok = false
+		return nil, false
 	}
 
-	return val, ok
+	return c.dataDict.Load(key)
 }
\ No newline at end of file
-- 
2.43.0


From a56fb43ba91fa76c8ef9e6203d220f36813843c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:50 +0000
Subject: [PATCH 65/86] fix: closing the pool must not leave a caller waiting
 forever

---
 redis/pool.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/redis/pool.go b/redis/pool.go
index b70535a..bf18eb5 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -101,8 +101,9 @@ func (pool Pool) Put(conn *Conn) {
 }
 
 //Close close all conn opened in the pool
+// Their places stay in the pool: a caller that is about to take one of them opens a new conn instead.
 func (pool *Pool) Close() error {
-	for {
+	for n := len(pool.connC); n > 0; n-- {
 		var conn *Conn
 		select {
 		case conn = <-pool.connC:
@@ -111,20 +112,31 @@ func (pool *Pool) Close() error {
 			return nil
 		}
 
-		pool.l.Lock()
-		pool.size--
-		pool.l.Unlock()
+		err := pool.closeConn(conn)
+		pool.connC <- conn
 
-		for _, handler := range pool.connCloseHandler {
-			if err := handler(conn); err != nil {
-				return err
-			}
+		if err != nil {
+			return err
 		}
+	}
 
-		if err := conn.Close(); err != nil && atomic.LoadInt32(&conn.broken) == 0 {
+	return nil
+}
+
+// close a conn and leave it to be replaced by its next user
+func (pool *Pool) closeConn(conn *Conn) error {
+	if atomic.SwapInt32(&conn.broken, 1) != 0 {
+		_ = conn.Close()
+		return nil
+	}
+
+	for _, handler := range pool.connCloseHandler {
+		if err := handler(conn); err != nil {
 			return err
 		}
 	}
+
+	return conn.Close()
 }
 
 func (pool *Pool) ExecCommand(ctx context.Context, command Command) {
-- 
2.43.0


From e5d640ebaff505942c8685a48833f443fb516cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:59 +0000
Subject: [PATCH 66/86] fix: a caller must not wait while the pool has a free
 place

---
 redis/pool.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redis/pool.go b/redis/pool.go
index bf18eb5..5bdc3c5 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -48,7 +48,8 @@ func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 				return nil, err
 			}
 			pool.size++
-			pool.connC <- conn
+			pool.l.Unlock()
+			return conn, nil
 		}
 		pool.l.Unlock()
 	}
-- 
2.43.0


From 20ca1f1e2fe19adae619937aa259543141435dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:34 +0000
Subject: [PATCH 67/86] fix: a string that does not decompress must be an error

---
 redis/lzf/lzf.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redis/lzf/lzf.go b/redis/lzf/lzf.go
index 9b1a115..08cd2f9 100644
--- a/redis/lzf/lzf.go
+++ b/redis/lzf/lzf.go
@@ -33,7 +33,8 @@ func DeCompress(str string, length int) string {
 	var decoded = make([]byte, length)
 	dl := C.lzf_decompress(unsafe.Pointer(&input[0]), C.uint(len(input)), unsafe.Pointer(&decoded[0]), C.uint(length))
 	if int(dl) != length {
-		return str
+		// not a compressed string of that length
+		return ""
 	}
 	return string(decoded)
 }
-- 
2.43.0


From 69332d32edff5b5ef9d20b0db27a454546e6a027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:36 +0000
Subject: [PATCH 68/86] fix: a damaged compact encoding must be an error, not a
 crash

---
 redis/replication.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/redis/replication.go b/redis/replication.go
index 9c885cc..63e6628 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -199,6 +199,13 @@ func (repl *Replication) Load() (err error) {
 		_ = file.Close()
 	}()
 
+	// the decoders of compact encodings panic when the encoded data is damaged
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("damaged snapshot, %v", r)
+		}
+	}()
+
 	buf := bufio.NewReader(file)
 	var version = make([]byte, 9)
 	if _, err = io.ReadFull(buf, version); err != nil {
-- 
2.43.0


From f7f8bb9e905c3a5771fef5a1df5410b4118a240c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:30 +0000
Subject: [PATCH 69/86] fix: an error in answer to the ping must not count as a
 pong

---
 redis/replication.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index 63e6628..c4a119e 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -134,7 +134,7 @@ func (repl *Replication) ping() error {
 	}
 	if message, err := repl.conn.SendAndWaitReply(cmd.Serialize()); err != nil {
 		return err
-	} else if message.String() != PONG.String() {
+	} else if _, refused := message.(ErrorMessage); refused || message.String() != PONG.String() {
 		err = errors.New(fmt.Sprintf("ping, receive %s from %s", message.String(), repl.MasterAddr))
 		return err
 	}
-- 
2.43.0


From e522128098f7614ba3b7df9186ce63c218ebf225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:49 +0000
Subject: [PATCH 70/86] fix: a connection that ends inside the length of the
 snapshot must fail the transfer

---
 redis/conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/conn.go b/redis/conn.go
index 2ad0030..6c4b9fb 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -146,7 +146,7 @@ func (c Conn) ReadWithWriter(writer io.Writer) (protocol Protocol, n int, err er
 
 	switch protocol {
 	case ProtocolBulkString:
-		bs, _, err := c.Reader.ReadLine()
+		bs, err := c.readLine()
 		if err != nil {
 			return ProtocolBulkString, 0, err
 		}
-- 
2.43.0


From 0cec98765cb404d98563bcd8940a85d11fdb1cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:44 +0000
Subject: [PATCH 71/86] fix: refuse arrays nested beyond what the stack can
 hold

---
 redis/conn.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index 6c4b9fb..fee2c83 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -15,6 +15,9 @@ import (
 // a redis string is never longer than 512MB
 const maxBulkLength = 512 * 1024 * 1024
 
+// arrays nested deeper than this are refused before they exhaust the stack
+const maxNesting = 10000
+
 type Conn struct {
 	conn         net.Conn
 	Reader       *bufio.Reader
@@ -38,7 +41,7 @@ func (c *Conn) WithWriteTimeout(duration time.Duration) {
 }
 
 func (c *Conn) Recv() (Message, error) {
-	message, err := c.readMessage()
+	message, err := c.readMessage(maxNesting)
 	if err != nil {
 		atomic.StoreInt32(&c.broken, 1)
 	}
@@ -225,7 +228,7 @@ func (c Conn) readLine() ([]byte, error) {
 	return line, nil
 }
 
-func (c Conn) readMessage() (Message, error) {
+func (c Conn) readMessage(depth int) (Message, error) {
 	protocol, err := c.readProtocol()
 	if err != nil {
 		return nil, err
@@ -299,9 +302,13 @@ func (c Conn) readMessage() (Message, error) {
 			return nil, err
 		}
 
+		if depth == 0 {
+			return nil, errors.New("arrays are nested too deep")
+		}
+
 		var messages ArrayMessage
 		for i := 0; i < number; i++ {
-			if message, err := c.readMessage(); err != nil {
+			if message, err := c.readMessage(depth - 1); err != nil {
 				return nil, err
 			} else {
 				messages = append(messages, message)
-- 
2.43.0


From 73d4ebe65ed52ab15c43138e0eacdb56d916be64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:04 +0000
Subject: [PATCH 72/86] fix: clip the start of a range instead of counting up
 to it

---
 cache/cachestring.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index 5ed3e84..f23c5f0 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -225,6 +225,9 @@ func (c *Cache) GetRange(key string, start, end int) (string, error) {
 	if end < 0 {
 		end = len(oldStr) + end
 	}
+	if start < 0 {
+		start = 0
+	}
 
 	var str []byte
 	for i := start; i <= end; i++ {
-- 
2.43.0


From 7e7c2b8be5a584a039d6686b4b07a126721028ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:04 +0000
Subject: [PATCH 73/86] fix: refuse an offset beyond the longest string instead
 of crashing

---
 cache/cachestring.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index f23c5f0..d4c121d 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -162,11 +162,14 @@ func (c *Cache) Append(key string, value string) (int, error) {
 	return len(value), nil
 }
 
+// a redis string is never longer than 512MB
+const maxStringLength = 512 * 1024 * 1024
+
 func (c *Cache) SetRange(key string, pos int, replace string) (int, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
-	if pos < 0 {
+	if pos < 0 || pos > maxStringLength-len(replace) {
 		return 0, ErrOffsetOutOfRange
 	}
 
-- 
2.43.0


From b5344aa21a6c88497504a122e61ed398df441994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:04 +0000
Subject: [PATCH 74/86] fix: a very long time to live must not overflow

---
 cache/cachestring.go |  4 ++--
 cache/cacheutil.go   | 17 ++++++++++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index d4c121d..3f488cc 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -48,7 +48,7 @@ func (c *Cache) SetEX(key, value string, expires int64) (string, error) {
 	defer c.lock.Unlock()
 
 	c.dataDict.Store(key, tryInt64(value))
-	c.expires(key, time.Second*time.Duration(expires))
+	c.expires(key, timeToLive(expires, time.Second))
 
 	return OK, nil
 }
@@ -58,7 +58,7 @@ func (c *Cache) PSetEX(key, value string, expiresMs int64) (string, error) {
 	defer c.lock.Unlock()
 
 	c.dataDict.Store(key, tryInt64(value))
-	c.expires(key, time.Millisecond*time.Duration(expiresMs))
+	c.expires(key, timeToLive(expiresMs, time.Millisecond))
 
 	return OK, nil
 }
diff --git a/cache/cacheutil.go b/cache/cacheutil.go
index e5ff121..b793df2 100644
--- a/cache/cacheutil.go
+++ b/cache/cacheutil.go
@@ -1,6 +1,9 @@
 package cache
 
-import "time"
+import (
+	"math"
+	"time"
+)
 
 // if key is expired
 func (c *Cache) expired(key string) bool {
@@ -33,6 +36,18 @@ func (c *Cache) expires(key string, duration time.Duration) {
 	}
 }
 
+// n units as a duration, at most the longest one there is
+func timeToLive(n int64, unit time.Duration) time.Duration {
+	if n <= 0 {
+		return 0
+	}
+	if n > math.MaxInt64/int64(unit) {
+		return math.MaxInt64
+	}
+
+	return time.Duration(n) * unit
+}
+
 // set the time the key expires at, returns 0 if the key does not exist
 func (c *Cache) PExpireAt(key string, timestamp time.Time) (int, error) {
 	c.lock.Lock()
-- 
2.43.0


From 268944984a81bd5546e48349d52a84dff06443eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:04 +0000
Subject: [PATCH 75/86] fix: an increment that is not a number must be refused

---
 cache/cachehash.go   | 4 ++++
 cache/cachestring.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index 10a22e4..70ee0d0 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -237,6 +237,10 @@ func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, e
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
+	if math.IsNaN(increment) || math.IsInf(increment, 0){
+		return f, ErrHashValueIsNotFloat
+	}
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return f, err
diff --git a/cache/cachestring.go b/cache/cachestring.go
index 3f488cc..09de251 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -300,6 +300,10 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
+	if math.IsNaN(increment) || math.IsInf(increment, 0) {
+		return 0, ErrWrongType
+	}
+
 	c.expired(key)
 
 	actual, ok := c.dataDict.LoadOrStore(key, floatValue(increment))
-- 
2.43.0


From 05c913b6030e0164d5f2f281f134b95840259d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:26 +0000
Subject: [PATCH 76/86] fix: refuse a zip map that does not end where its pairs
 end

---
 redis/zipmap/zipmap.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/redis/zipmap/zipmap.go b/redis/zipmap/zipmap.go
index ef5c64d..cf831f6 100644
--- a/redis/zipmap/zipmap.go
+++ b/redis/zipmap/zipmap.go
@@ -159,7 +159,8 @@ func Len(key string, value string) int {
 
 func Load(encoded string) (hash map[string]string) {
 	hash = make(map[string]string, encoded[0])
-	for i := 1; i < len(encoded)-1; {
+	i := 1
+	for i < len(encoded)-1 {
 		kl := uint32(encoded[i])
 		i++
 		if kl >= BigLen {
@@ -191,5 +192,10 @@ func Load(encoded string) (hash map[string]string) {
 		hash[key] = value
 	}
 
+	// the last pair ends right before the end marker
+	if i != len(encoded)-1 || encoded[i] != End {
+		panic("failed to decode zip map")
+	}
+
 	return hash
 }
-- 
2.43.0


From 7b8238a7047aaf5847aaa005b671cfc6ef3642f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:26 +0000
Subject: [PATCH 77/86] fix: refuse an int set of an unknown width

---
 redis/intset/intset.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redis/intset/intset.go b/redis/intset/intset.go
index 84ca7c1..51189ca 100644
--- a/redis/intset/intset.go
+++ b/redis/intset/intset.go
@@ -43,6 +43,8 @@ func Load(encoded string) (set []int64) {
 			num := binary.LittleEndian.Uint64([]byte(encoded[start:end]))
 			set = append(set, int64(num))
 		}
+	default:
+		panic("failed to decode int set")
 	}
 
 	return set
-- 
2.43.0


From 3864d9e9bb61613d50a4445bedb0b2a34aaa919a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:00 +0000
Subject: [PATCH 78/86] fix: a command on many keys must see them at one moment

---
 cache/cachedb.go     | 11 ++++++++---
 cache/cachestring.go | 11 +++++++----
 cache/cacheutil.go   | 13 +++++++++++--
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/cache/cachedb.go b/cache/cachedb.go
index 26b8550..ef9a695 100644
--- a/cache/cachedb.go
+++ b/cache/cachedb.go
@@ -1,5 +1,7 @@
 package cache
 
+import "time"
+
 func (c *Cache)Del(key string) (n int){
 	c.lock.Lock()
 	defer c.lock.Unlock()
@@ -22,11 +24,14 @@ func (c *Cache) Flush() {
 }
 
 func (c *Cache) Exists(keys ...string) (n int){
-	c.lock.RLock()
-	defer c.lock.RUnlock()
+	// not even another reader may collect a key that expires meanwhile
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
+	now := time.Now()
 
 	for _, key := range keys{
-		if _, ok := c.get(key); ok{
+		if _, ok := c.getAt(key, now); ok{
 			n++
 		}
 	}
diff --git a/cache/cachestring.go b/cache/cachestring.go
index 09de251..5e28361 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -373,9 +373,10 @@ func (c *Cache) MSetNX(kv map[string]string) int {
 	defer c.lock.Unlock()
 
 	n := 0
+	now := time.Now()
 
 	for k, v := range kv {
-		c.expired(k)
+		c.expiredAt(k, now)
 
 		if _, loaded := c.dataDict.LoadOrStore(k, tryInt64(v)); !loaded {
 			n++
@@ -386,13 +387,15 @@ func (c *Cache) MSetNX(kv map[string]string) int {
 }
 
 func (c *Cache) MGet(keys ...string) []interface{} {
-	c.lock.RLock()
-	defer c.lock.RUnlock()
+	// not even another reader may collect a key that expires meanwhile
+	c.lock.Lock()
+	defer c.lock.Unlock()
 
 	var values = make([]interface{}, len(keys))
+	now := time.Now()
 	for id, k := range keys {
 
-		if v, ok := c.get(k); !ok {
+		if v, ok := c.getAt(k, now); !ok {
 			values[id] = ErrKeyNil
 		} else {
 			if str, err := fmtString(v);err != nil{
diff --git a/cache/cacheutil.go b/cache/cacheutil.go
index b793df2..bea5341 100644
--- a/cache/cacheutil.go
+++ b/cache/cacheutil.go
@@ -7,6 +7,11 @@ import (
 
 // if key is expired
 func (c *Cache) expired(key string) bool {
+	return c.expiredAt(key, time.Now())
+}
+
+// if key is expired at a given moment, a command on many keys looks at all of them at the same one
+func (c *Cache) expiredAt(key string, now time.Time) bool {
 	v, ok := c.expiresDict.Load(key)
 	if !ok || v == nil {
 		return false
@@ -14,7 +19,7 @@ func (c *Cache) expired(key string) bool {
 
 	var expired bool
 	if expires, ok := v.(time.Time); ok {
-		expired = expires.Before(time.Now())
+		expired = expires.Before(now)
 	}
 
 	// delete expired key value
@@ -63,8 +68,12 @@ func (c *Cache) PExpireAt(key string, timestamp time.Time) (int, error) {
 }
 
 func (c *Cache) get(key string) (value interface{},ok bool){
+	return c.getAt(key, time.Now())
+}
+
+func (c *Cache) getAt(key string, now time.Time) (value interface{}, ok bool) {
 	// another reader may collect the expired key at any time, so look at the deadline first
-	if c.expired(key) {
+	if c.expiredAt(key, now) {
 		return nil, false
 	}
 
-- 
2.43.0


From c49140cc9254af3568ae2f2036d46b8478b8aa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:23 +0000
Subject: [PATCH 79/86] fix: a deadline of zero is a deadline

---
 redis/replication.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/redis/replication.go b/redis/replication.go
index c4a119e..83cd7cd 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -217,6 +217,7 @@ func (repl *Replication) Load() (err error) {
 	// start to load rdb file
 	var opCode uint
 	var expiresTime uint64
+	var expires bool // expiresTime is that of the next key, 0 is a time as well
 	for err == nil {
 		// load op code first
 		if opCode, err = rdb.LoadOpCode(buf); err != nil {
@@ -231,12 +232,14 @@ func (repl *Replication) Load() (err error) {
 				return err
 			}
 			expiresTime = uint64(binary.LittleEndian.Uint32(expireS)) * 1000
+			expires = true
 		case rdb.OpCodeExpireTimeMs:
 			var milliTime = make([]byte, 8)
 			if _, err = io.ReadFull(buf, milliTime); err != nil {
 				return err
 			}
 			expiresTime = binary.LittleEndian.Uint64(milliTime)
+			expires = true
 		case rdb.OpCodeFreq:
 			var lfu byte
 			if lfu, err = buf.ReadByte(); err != nil {
@@ -544,7 +547,7 @@ func (repl *Replication) Load() (err error) {
 				return errors.New("unknown type " + strconv.Itoa(int(opCode)))
 			}
 
-			if expiresTime > 0 {
+			if expires {
 				args := []string{"pExpireAt", key, strconv.Itoa(int(expiresTime))}
 				cmd := NewBaseCommand(args...)
 				repl.Messages <- ReplicationMessage{
@@ -552,7 +555,7 @@ func (repl *Replication) Load() (err error) {
 					Message:  cmd.Serialize(),
 					Offset:   0,
 				}
-				expiresTime = 0
+				expires = false
 			}
 		}
 	}
-- 
2.43.0


From ce28ba6819db9c1fcb6c7a0cac7154f30fc729b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:35 +0000
Subject: [PATCH 80/86] fix: a slow connection attempt must not hold up the
 other callers of the pool

---
 redis/conn.go | 5 +++++
 redis/pool.go | 8 ++------
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index fee2c83..548a92f 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -87,6 +87,11 @@ func (c *Conn) ExecCommand(ctx context.Context, command Command) {
 }
 
 func (c *Conn) Close() error {
+	if c.conn == nil {
+		// only a place in a pool
+		return nil
+	}
+
 	return c.conn.Close()
 }
 
diff --git a/redis/pool.go b/redis/pool.go
index 5bdc3c5..216b494 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -42,14 +42,10 @@ func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 		// no conn available, try create new conn
 		pool.l.Lock()
 		if pool.size < pool.capacity {
-			conn, err := pool.create()
-			if err != nil {
-				pool.l.Unlock()
-				return nil, err
-			}
+			// take the place first: dialling can last, nobody else must wait for it
 			pool.size++
 			pool.l.Unlock()
-			return conn, nil
+			return pool.repair(&Conn{broken: 1})
 		}
 		pool.l.Unlock()
 	}
-- 
2.43.0


From 6a51ce88638080c95a487425d0be16943db2c086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:36 +0000
Subject: [PATCH 81/86] fix: a connection attempt ends with the context of its
 caller

---
 redis/conn.go |  6 +++++-
 redis/pool.go | 14 +++++++-------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index 548a92f..d6c7c64 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -335,7 +335,11 @@ func NewConn(conn net.Conn) *Conn {
 }
 
 func Connect(address string) (*Conn, error) {
-	conn, err := net.Dial("tcp", address)
+	return connect(context.Background(), address)
+}
+
+func connect(ctx context.Context, address string) (*Conn, error) {
+	conn, err := new(net.Dialer).DialContext(ctx, "tcp", address)
 
 	if err != nil {
 		return nil, err
diff --git a/redis/pool.go b/redis/pool.go
index 216b494..5628928 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -37,7 +37,7 @@ func (pool *Pool) Init(capacity int, addr string) {
 func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 	select {
 	case c := <-pool.connC:
-		return pool.repair(c)
+		return pool.repair(ctx, c)
 	default:
 		// no conn available, try create new conn
 		pool.l.Lock()
@@ -45,7 +45,7 @@ func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 			// take the place first: dialling can last, nobody else must wait for it
 			pool.size++
 			pool.l.Unlock()
-			return pool.repair(&Conn{broken: 1})
+			return pool.repair(ctx, &Conn{broken: 1})
 		}
 		pool.l.Unlock()
 	}
@@ -54,19 +54,19 @@ func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 	case <-ctx.Done():
 		return nil, errors.New("no connection available")
 	case c := <-pool.connC:
-		return pool.repair(c)
+		return pool.repair(ctx, c)
 	}
 }
 
 // replace a broken connection by a new one
-func (pool *Pool) repair(conn *Conn) (*Conn, error) {
+func (pool *Pool) repair(ctx context.Context, conn *Conn) (*Conn, error) {
 	if atomic.LoadInt32(&conn.broken) == 0 {
 		return conn, nil
 	}
 
 	_ = conn.Close()
 
-	fresh, err := pool.create()
+	fresh, err := pool.create(ctx)
 	if err != nil {
 		// keep the place in the pool, the next caller tries again
 		pool.connC <- conn
@@ -76,8 +76,8 @@ func (pool *Pool) repair(conn *Conn) (*Conn, error) {
 	return fresh, nil
 }
 
-func (pool Pool) create() (conn *Conn, err error) {
-	if conn, err = Connect(pool.addr); err != nil {
+func (pool *Pool) create(ctx context.Context) (conn *Conn, err error) {
+	if conn, err = connect(ctx, pool.addr); err != nil {
 		return conn, err
 	}
 
-- 
2.43.0


From c2f634ac8b2eca7d7b09042b06672afc4d07c6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:09 +0000
Subject: [PATCH 82/86] fix: what a master expires, unlinks or flushes reaches
 the local copy

---
 cache/cacheutil.go | 38 ++++++++++++++++++++++++++++++++++++++
 cache/message.go   | 36 ++++++++++++++++++++++++++++++------
 xxcache.go         |  2 +-
 3 files changed, 69 insertions(+), 7 deletions(-)

diff --git a/cache/cacheutil.go b/cache/cacheutil.go
index bea5341..79bc6b9 100644
--- a/cache/cacheutil.go
+++ b/cache/cacheutil.go
@@ -67,6 +67,44 @@ func (c *Cache) PExpireAt(key string, timestamp time.Time) (int, error) {
 	return 1, nil
 }
 
+// remove the deadline of the key, returns 0 if the key does not exist or has none
+func (c *Cache) Persist(key string) (int, error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
+	if _, ok := c.get(key); !ok {
+		return 0, nil
+	}
+	if _, ok := c.expiresDict.Load(key); !ok {
+		return 0, nil
+	}
+
+	c.expiresDict.Delete(key)
+
+	return 1, nil
+}
+
+// the moment n units from now
+func expiresIn(n int64, unit time.Duration) time.Time {
+	if n <= 0 {
+		return time.Unix(0, 0)
+	}
+
+	return time.Now().Add(timeToLive(n, unit))
+}
+
+// the moment n units after the epoch
+func expiresAt(n int64, unit time.Duration) time.Time {
+	if unit == time.Second {
+		if n > math.MaxInt64/1000 {
+			n = math.MaxInt64 / 1000
+		}
+		return time.Unix(n, 0)
+	}
+
+	return time.Unix(n/1000, n%1000*int64(time.Millisecond))
+}
+
 func (c *Cache) get(key string) (value interface{},ok bool){
 	return c.getAt(key, time.Now())
 }
diff --git a/cache/message.go b/cache/message.go
index a3ee9f6..be3d965 100644
--- a/cache/message.go
+++ b/cache/message.go
@@ -23,14 +23,27 @@ var commandArity = map[string]int{
 	"mset":         -3,
 	"msetnx":       -3,
 	"del":          -2,
+	"unlink":       -2,
 	"flushdb":      -1,
+	"flushall":     -1,
+	"expire":       3,
+	"pexpire":      3,
+	"expireat":     3,
 	"pexpireat":    3,
+	"persist":      2,
 	"hsetnx":       4,
 	"hdel":         -3,
 	"hincrby":      4,
 	"hincrbyfloat": 4,
 }
 
+// ForEveryDatabase tells if a command acts on all databases, whichever is selected
+func ForEveryDatabase(message redis.Message) bool {
+	messages, ok := message.(redis.ArrayMessage)
+
+	return ok && len(messages) > 0 && strings.ToLower(messages[0].String()) == "flushall"
+}
+
 func HandleMessage(cache *Cache, message redis.Message) (err error) {
 	messages, ok := message.(redis.ArrayMessage)
 	if !ok {
@@ -111,17 +124,28 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 		} else {
 			cache.MSetNX(kv)
 		}
-	case "del":
+	case "del", "unlink":
 		for _, m := range messages[1:] {
 			cache.Del(m.String())
 		}
-	case "pexpireat":
-		var ms int64
-		if ms, err = strconv.ParseInt(messages[2].String(), 10, 64); err != nil {
+	case "expire", "pexpire", "expireat", "pexpireat":
+		var n int64
+		if n, err = strconv.ParseInt(messages[2].String(), 10, 64); err != nil {
 			return err
 		}
-		cache.PExpireAt(key, time.Unix(ms/1000, ms%1000*int64(time.Millisecond)))
-	case "flushdb":
+		switch name {
+		case "expire":
+			_, err = cache.PExpireAt(key, expiresIn(n, time.Second))
+		case "pexpire":
+			_, err = cache.PExpireAt(key, expiresIn(n, time.Millisecond))
+		case "expireat":
+			_, err = cache.PExpireAt(key, expiresAt(n, time.Second))
+		case "pexpireat":
+			_, err = cache.PExpireAt(key, expiresAt(n, time.Millisecond))
+		}
+	case "persist":
+		_, err = cache.Persist(key)
+	case "flushdb", "flushall":
 		cache.Flush()
 	case "hsetnx":
 		_, err = cache.HSetNX(key, messages[2].String(), messages[3].String())
diff --git a/xxcache.go b/xxcache.go
index 7fc63e3..4c53449 100644
--- a/xxcache.go
+++ b/xxcache.go
@@ -70,7 +70,7 @@ func (client *Client) handleReplication(repl redis.Replication) {
 				continue
 			}
 
-			if message.Database != client.option.database {
+			if message.Database != client.option.database && !cache.ForEveryDatabase(message.Message) {
 				continue
 			}
 
-- 
2.43.0


From 54b815954353577966d9759db32caacb7f50d842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:11 +0000
Subject: [PATCH 83/86] fix: a master's SET comes with any of its options

---
 cache/cachestring.go | 22 +++++++++++++++++
 cache/message.go     | 59 +++++++++++++++++++++++++++++++++-----------
 2 files changed, 67 insertions(+), 14 deletions(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index 5e28361..7974644 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -63,6 +63,28 @@ func (c *Cache) PSetEX(key, value string, expiresMs int64) (string, error) {
 	return OK, nil
 }
 
+// set the value and the time it expires at
+func (c *Cache) SetAt(key, value string, timestamp time.Time) (string, error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
+	c.dataDict.Store(key, tryInt64(value))
+	c.expiresDict.Store(key, timestamp)
+
+	return OK, nil
+}
+
+// set the value and leave the deadline as it is
+func (c *Cache) SetKeepTTL(key, value string) (string, error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
+	c.expired(key)
+	c.dataDict.Store(key, tryInt64(value))
+
+	return OK, nil
+}
+
 // value stored for the result of a float command, an integral result is an int
 func floatValue(f float64) interface{} {
 	return tryInt64(strconv.FormatFloat(f, 'f', -1, 64))
diff --git a/cache/message.go b/cache/message.go
index be3d965..da9b175 100644
--- a/cache/message.go
+++ b/cache/message.go
@@ -168,13 +168,10 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 		}
 		_, err = cache.HIncrByFloat(key, messages[2].String(), f)
 	case "set":
-		if len(messages) == 5 {
-			return handleSetWithExpire(cache, messages)
-		}
-		if len(messages) != 3 {
+		if len(messages) < 3 {
 			return errors.New("set command args error")
 		}
-		_, err = cache.Set(messages[1].String(), messages[2].String())
+		err = handleSet(cache, messages)
 	case "hmset", "hset":
 		if len(messages) < 4 || len(messages)%2 != 0 {
 			return errors.New(name + " command args error")
@@ -192,20 +189,54 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 	return err
 }
 
-// set key value EX seconds, set key value PX milliseconds
-func handleSetWithExpire(cache *Cache, messages redis.ArrayMessage) error {
-	expires, err := strconv.ParseInt(messages[4].String(), 10, 64)
-	if err != nil {
-		return err
+// set key value and the options of a master, in any order
+func handleSet(cache *Cache, messages redis.ArrayMessage) (err error) {
+	key, value := messages[1].String(), messages[2].String()
+
+	var condition, expiry string
+	var n int64
+	for i := 3; i < len(messages); i++ {
+		option := strings.ToLower(messages[i].String())
+		switch option {
+		case "get":
+		case "nx", "xx":
+			// the condition was met, a master only sends what it has carried out
+			if condition != "" && condition != option {
+				return errors.New("set condition conflict," + messages.Serialize())
+			}
+			condition = option
+		case "keepttl", "ex", "px", "exat", "pxat":
+			if expiry != "" {
+				return errors.New("set expiry conflict," + messages.Serialize())
+			}
+			expiry = option
+			if option == "keepttl" {
+				continue
+			}
+			if i++; i == len(messages) {
+				return errors.New("set command args error")
+			}
+			if n, err = strconv.ParseInt(messages[i].String(), 10, 64); err != nil {
+				return err
+			}
+		default:
+			return errors.New("unknown set option," + messages.Serialize())
+		}
 	}
 
-	switch strings.ToLower(messages[3].String()) {
+	switch expiry {
 	case "ex":
-		_, err = cache.SetEX(messages[1].String(), messages[2].String(), expires)
+		_, err = cache.SetEX(key, value, n)
 	case "px":
-		_, err = cache.PSetEX(messages[1].String(), messages[2].String(), expires)
+		_, err = cache.PSetEX(key, value, n)
+	case "exat":
+		_, err = cache.SetAt(key, value, expiresAt(n, time.Second))
+	case "pxat":
+		_, err = cache.SetAt(key, value, expiresAt(n, time.Millisecond))
+	case "keepttl":
+		_, err = cache.SetKeepTTL(key, value)
 	default:
-		err = errors.New("unknown set option," + messages.Serialize())
+		_, err = cache.Set(key, value)
 	}
 
 	return err
-- 
2.43.0


From cf5ead709ad61f54f56c717a3ab66bee5c0a0f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:10 +0000
Subject: [PATCH 84/86] fix: a command ends with the context of its caller

ExecCommand took a context and ignored it: a caller whose context had ended
went on waiting for a server that did not answer.
---
 redis/conn.go | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/redis/conn.go b/redis/conn.go
index d6c7c64..1ddf72a 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -71,8 +71,44 @@ func (c *Conn) SendAndWaitReply(message Message) (Message, error) {
 	return c.Recv()
 }
 
+// closeWhenDone closes the conn if ctx ends before the returned function is called
+func (c *Conn) closeWhenDone(ctx context.Context) (release func()) {
+	if ctx.Done() == nil {
+		return func() {}
+	}
+
+	stop, closed := make(chan struct{}), make(chan bool, 1)
+	go func() {
+		select {
+		case <-ctx.Done():
+			_ = c.Close()
+			closed <- true
+		case <-stop:
+			closed <- false
+		}
+	}()
+
+	return func() {
+		close(stop)
+		if <-closed {
+			atomic.StoreInt32(&c.broken, 1)
+		}
+	}
+}
+
+// ExecCommand ends with ctx: then nobody reads the reply any more, and the conn is closed
 func (c *Conn) ExecCommand(ctx context.Context, command Command) {
+	if err := ctx.Err(); err != nil {
+		command.Error(err)
+		return
+	}
+
+	defer c.closeWhenDone(ctx)()
+
 	if msg, err := c.SendAndWaitReply(command.Serialize()); err != nil {
+		if ctx.Err() != nil {
+			err = ctx.Err()
+		}
 		command.Error(err)
 	} else {
 		switch msg.(type) {
-- 
2.43.0


From a574828c3e680726d1a77cb646b7f231efa32b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:10 +0000
Subject: [PATCH 85/86] fix: the greeting of a connection ends with the context
 of its caller

---
 redis/pool.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redis/pool.go b/redis/pool.go
index 5628928..0079a3d 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -81,6 +81,8 @@ func (pool *Pool) create(ctx context.Context) (conn *Conn, err error) {
 		return conn, err
 	}
 
+	defer conn.closeWhenDone(ctx)()
+
 	for _, handler := range pool.connOpenHandler {
 		if err := handler(conn); err != nil {
 			_ = conn.Close()
-- 
2.43.0


From 8c902e1a46c382b2de885fabfbae4d38fad1aa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:48 +0000
Subject: [PATCH 86/86] fix: the timeouts of a client bound its calls

Option.Timeout, ReadTimeout and WriteTimeout, and the same of a Conn, had no
effect: a call on a server that does not answer never came back.
---
 redis/conn.go  | 14 ++++++++++++++
 redis/redis.go | 19 ++++++++++++++++++-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/redis/conn.go b/redis/conn.go
index 1ddf72a..66c99f2 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -41,6 +41,10 @@ func (c *Conn) WithWriteTimeout(duration time.Duration) {
 }
 
 func (c *Conn) Recv() (Message, error) {
+	if c.ReadTimeout > 0 {
+		_ = c.conn.SetReadDeadline(time.Now().Add(c.ReadTimeout))
+	}
+
 	message, err := c.readMessage(maxNesting)
 	if err != nil {
 		atomic.StoreInt32(&c.broken, 1)
@@ -50,6 +54,10 @@ func (c *Conn) Recv() (Message, error) {
 }
 
 func (c *Conn) Send(message Message) error {
+	if c.WriteTimeout > 0 {
+		_ = c.conn.SetWriteDeadline(time.Now().Add(c.WriteTimeout))
+	}
+
 	_, err := c.Writer.Write([]byte(message.Serialize()))
 
 	if err == nil {
@@ -98,6 +106,12 @@ func (c *Conn) closeWhenDone(ctx context.Context) (release func()) {
 
 // ExecCommand ends with ctx: then nobody reads the reply any more, and the conn is closed
 func (c *Conn) ExecCommand(ctx context.Context, command Command) {
+	if c.Timeout > 0 {
+		var cancel context.CancelFunc
+		ctx, cancel = context.WithTimeout(ctx, c.Timeout)
+		defer cancel()
+	}
+
 	if err := ctx.Err(); err != nil {
 		command.Error(err)
 		return
diff --git a/redis/redis.go b/redis/redis.go
index 2a19c72..afb6ed9 100644
--- a/redis/redis.go
+++ b/redis/redis.go
@@ -16,6 +16,7 @@ func ConvertToMessage(args ...string) Message {
 
 type Redis struct {
 	connPool Pool
+	timeout  time.Duration // how long a call lasts at most, if not 0
 }
 
 type Option struct {
@@ -34,6 +35,14 @@ func NewClient(option Option) *Redis {
 
 	redis.connPool.Init(option.PoolSize, option.Addr)
 
+	redis.timeout = option.Timeout
+	redis.connPool.AddConnOpenHandler(func(conn *Conn) error {
+		conn.WithReadTimeout(option.ReadTimeout)
+		conn.WithWriteTimeout(option.WriteTimeout)
+
+		return nil
+	})
+
 	if option.Password != "" {
 		redis.connPool.AddConnOpenHandler(func(conn *Conn) error {
 			cmd := StringCommand{
@@ -62,7 +71,15 @@ func NewClient(option Option) *Redis {
 }
 
 func (redis *Redis) process(command Command) {
-	redis.connPool.ExecCommand(context.Background(), command)
+	ctx := context.Background()
+
+	if redis.timeout > 0 {
+		var cancel context.CancelFunc
+		ctx, cancel = context.WithTimeout(ctx, redis.timeout)
+		defer cancel()
+	}
+
+	redis.connPool.ExecCommand(ctx, command)
 }
 
 // 1.search in local databases
-- 
2.43.0


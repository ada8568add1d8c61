From 5eeef8bd99a071e0dca94dc06b23d03006e3c3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:13 +0000
Subject: [PATCH 01/45] fix: encode varints that need five bytes instead of
 panicking

WriteVaruint and WriteVarint used a four byte buffer, so any varuint32 >= 2^28
(or varint32 with magnitude >= 2^27) panicked. Values that do not fit in 32 bits
are reported as errors.
---
 pkg/abi/encode.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index d8b420e..1d07d9c 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -217,13 +217,19 @@ func (enc *Encoder) WriteInt64(v int64) error {
 }
 
 func (enc *Encoder) WriteVaruint(v uint) error {
-	var b [4]byte
+	if uint64(v) > math.MaxUint32 {
+		return errors.New("eosio encoder: varuint32 out of range")
+	}
+	var b [binary.MaxVarintLen32]byte
 	l := binary.PutUvarint(b[:], uint64(v))
 	return enc.WriteBytes(b[:l])
 }
 
 func (enc *Encoder) WriteVarint(v int) error {
-	var b [4]byte
+	if int64(v) > math.MaxInt32 || int64(v) < math.MinInt32 {
+		return errors.New("eosio encoder: varint32 out of range")
+	}
+	var b [binary.MaxVarintLen32]byte
 	l := binary.PutVarint(b[:], int64(v))
 	return enc.WriteBytes(b[:l])
 }
-- 
2.43.0


From a0de0b18575293e8d22ccfa9b2f2a3839e530a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:13 +0000
Subject: [PATCH 02/45] fix: reject varints that do not fit in 32 bits when
 decoding

A varuint32 above 2^32-1 was accepted; used as a length or variant index it
turned negative when converted to int and panicked.
---
 pkg/abi/decode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 4419fd5..a033004 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -418,6 +418,9 @@ func (dec *Decoder) ReadVaruint() (uint, error) {
 	if err != nil {
 		return 0, err
 	}
+	if v > math.MaxUint32 {
+		return 0, errors.New("abi: varuint32 out of range")
+	}
 	return uint(v), nil
 }
 
@@ -426,6 +429,9 @@ func (dec *Decoder) ReadVarint() (int, error) {
 	if err != nil {
 		return 0, err
 	}
+	if v > math.MaxInt32 || v < math.MinInt32 {
+		return 0, errors.New("abi: varint32 out of range")
+	}
 	return int(v), nil
 }
 
-- 
2.43.0


From b81cb8799b922ef0ba7054ade9e1ded1fcc07f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:07 +0000
Subject: [PATCH 03/45] fix: report write errors of the optional presence byte

Encoding a struct ignored the result of writing the presence byte, so with a nil
last field a failed write was reported as success.
---
 pkg/abi/encode.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index 1d07d9c..353d372 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -113,7 +113,9 @@ func (enc *Encoder) EncodeValue(v reflect.Value) error {
 			tag := v.Type().Field(i).Tag.Get("eosio")
 			if tag == "optional" {
 				exists := !v.Field(i).IsZero()
-				enc.WriteBool(exists)
+				if err := enc.WriteBool(exists); err != nil {
+					return err
+				}
 				if !exists {
 					continue
 				}
-- 
2.43.0


From c664d69ab7bff474c91cd090de8db443eb70ce08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:07 +0000
Subject: [PATCH 04/45] fix: return an error when encoding a nil pointer to a
 Marshaler

The nil check came after the Marshaler lookup, so a nil *Asset, *Action etc. (or
an untyped nil) panicked where other nil pointers give an error.
---
 pkg/abi/encode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index 353d372..e654a50 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -77,6 +77,10 @@ func (enc *Encoder) Encode(v interface{}) error {
 }
 
 func (enc *Encoder) EncodeValue(v reflect.Value) error {
+	if !v.IsValid() || (v.Kind() == reflect.Ptr && v.IsNil()) {
+		return errors.New("eosio encoder: encountered unexpected nil pointer")
+	}
+
 	// check if value conforms to Marshaler
 	if v.CanInterface() {
 		if m, ok := v.Interface().(Marshaler); ok {
-- 
2.43.0


From 56c88067c6912349982d85e5e1ef6d9fee22939a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:07 +0000
Subject: [PATCH 05/45] fix: report truncation inside a binary extension field

Any io.EOF while decoding an extension field was taken to mean that the field is
absent, also when the data ended after part of it had been read (an ABI cut off
after its variant count decoded without error). Only treat the field as absent
when no byte of it is there.
---
 pkg/abi/decode.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index a033004..0bd7090 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -15,6 +15,7 @@ type DecodeFunc func(dec *Decoder, v interface{}) (done bool, err error)
 type Decoder struct {
 	r  io.Reader
 	fn DecodeFunc
+	n  int64 // bytes consumed from r
 }
 
 type Unmarshaler interface {
@@ -26,6 +27,11 @@ func NewDecoder(r io.Reader, fn DecodeFunc) *Decoder {
 	return &Decoder{r: r, fn: fn}
 }
 
+// Number of bytes read from the underlying reader so far.
+func (dec *Decoder) Offset() int64 {
+	return dec.n
+}
+
 // Decode into given value.
 func (dec *Decoder) Decode(v interface{}) error {
 	var err error
@@ -232,13 +238,14 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 					}
 				}
 
+				start := dec.n
 				if tag == "variant" {
 					err = dec.DecodeVariant(vi)
 				} else {
 					err = dec.Decode(vi)
 				}
 
-				if tag == "extension" && err == io.EOF {
+				if tag == "extension" && err == io.EOF && dec.n == start {
 					// TODO: make sure extensions are only last field in a top-level struct
 					pv.Set(reflect.Zero(pv.Type()))
 					continue
@@ -318,6 +325,7 @@ func (dec *Decoder) ReadBytes(n int) (an int, b []byte, err error) {
 	}
 	b = make([]byte, n)
 	an, err = io.ReadFull(dec.r, b)
+	dec.n += int64(an)
 	if err != nil {
 		return an, b, err
 	}
-- 
2.43.0


From ea9cac6244a9e6b882100a0e74b181975c77a9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:04 +0000
Subject: [PATCH 06/45] fix: don't allocate memory for lengths the input only
 claims

---
 pkg/abi/decode.go | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 0bd7090..4dbed3e 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -18,6 +18,9 @@ type Decoder struct {
 	n  int64 // bytes consumed from r
 }
 
+// Upper limit for the memory that is allocated before the data that fills it has been read.
+const maxReadAlloc = 64 * 1024
+
 type Unmarshaler interface {
 	UnmarshalABI(*Decoder) error
 }
@@ -262,9 +265,17 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 		l, err = dec.ReadVaruint()
 		if err == nil {
 			if pv.Len() != int(l) {
-				pv.Set(reflect.MakeSlice(pv.Type(), int(l), int(l)))
+				// grow as elements are read, the length can't be trusted
+				n := minInt(int(l), 16)
+				pv.Set(reflect.MakeSlice(pv.Type(), n, n))
 			}
 			for i := 0; i < int(l); i++ {
+				if i == pv.Len() {
+					n := minInt(int(l), 2*i)
+					grown := reflect.MakeSlice(pv.Type(), n, n)
+					reflect.Copy(grown, pv)
+					pv.Set(grown)
+				}
 				pv := pv.Index(i)
 				if pv.Kind() == reflect.Ptr {
 					if pv.IsNil() {
@@ -323,13 +334,23 @@ func (dec *Decoder) ReadBytes(n int) (an int, b []byte, err error) {
 	if n == 0 {
 		return 0, []byte{}, nil
 	}
-	b = make([]byte, n)
-	an, err = io.ReadFull(dec.r, b)
-	dec.n += int64(an)
-	if err != nil {
-		return an, b, err
+	// don't trust the given length until the data is there, it may come from the input
+	b = make([]byte, minInt(n, maxReadAlloc))
+	for {
+		var rn int
+		rn, err = io.ReadFull(dec.r, b[an:])
+		an += rn
+		dec.n += int64(rn)
+		if err == io.EOF && an > 0 {
+			err = io.ErrUnexpectedEOF
+		}
+		if err != nil || an == n {
+			return an, b, err
+		}
+		grown := make([]byte, minInt(n, 2*len(b)))
+		copy(grown, b)
+		b = grown
 	}
-	return an, b, nil
 }
 
 func (dec *Decoder) ReadByte() (byte, error) {
@@ -459,6 +480,13 @@ func (dec *Decoder) ReadFloat64() (float64, error) {
 	return math.Float64frombits(b), nil
 }
 
+func minInt(a, b int) int {
+	if a < b {
+		return a
+	}
+	return b
+}
+
 // taken from encoding/json:
 // indirect walks down v allocating pointers as needed,
 // until it gets to a non-pointer.
-- 
2.43.0


From 9ca95c35ce64124ae51fe6474fde8895101f3f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:06 +0000
Subject: [PATCH 07/45] fix: grow transaction lists as they are decoded instead
 of trusting their length

---
 pkg/chain/transaction.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/chain/transaction.go b/pkg/chain/transaction.go
index dffb1df..ae05b24 100644
--- a/pkg/chain/transaction.go
+++ b/pkg/chain/transaction.go
@@ -152,8 +152,9 @@ func (tx *Transaction) UnmarshalABI(d *abi.Decoder) error {
 	if err != nil {
 		return err
 	}
-	tx.ContextFreeActions = make([]Action, len)
+	tx.ContextFreeActions = make([]Action, 0)
 	for i := 0; i < int(len); i++ {
+		tx.ContextFreeActions = append(tx.ContextFreeActions, Action{})
 		err = tx.ContextFreeActions[i].UnmarshalABI(d)
 		if err != nil {
 			return err
@@ -163,8 +164,9 @@ func (tx *Transaction) UnmarshalABI(d *abi.Decoder) error {
 	if err != nil {
 		return err
 	}
-	tx.Actions = make([]Action, len)
+	tx.Actions = make([]Action, 0)
 	for i := 0; i < int(len); i++ {
+		tx.Actions = append(tx.Actions, Action{})
 		err = tx.Actions[i].UnmarshalABI(d)
 		if err != nil {
 			return err
@@ -174,8 +176,9 @@ func (tx *Transaction) UnmarshalABI(d *abi.Decoder) error {
 	if err != nil {
 		return err
 	}
-	tx.Extensions = make([]TransactionExtension, len)
+	tx.Extensions = make([]TransactionExtension, 0)
 	for i := 0; i < int(len); i++ {
+		tx.Extensions = append(tx.Extensions, TransactionExtension{})
 		err = tx.Extensions[i].UnmarshalABI(d)
 		if err != nil {
 			return err
-- 
2.43.0


From 037292b912ff2397bb1a10c7e50b02730d626f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:08 +0000
Subject: [PATCH 08/45] fix: report read and write errors of action and
 permission names

---
 pkg/chain/action.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/pkg/chain/action.go b/pkg/chain/action.go
index 58bdd0c..eb4c045 100644
--- a/pkg/chain/action.go
+++ b/pkg/chain/action.go
@@ -51,14 +51,23 @@ func (a Action) Digest() Checksum256 {
 // abi.Marshaler conformance
 
 func (pl PermissionLevel) MarshalABI(e *abi.Encoder) error {
-	pl.Actor.MarshalABI(e)
+	err := pl.Actor.MarshalABI(e)
+	if err != nil {
+		return err
+	}
 	return pl.Permission.MarshalABI(e)
 }
 
 func (a Action) MarshalABI(e *abi.Encoder) error {
 	var err error
-	a.Account.MarshalABI(e)
-	a.Name.MarshalABI(e)
+	err = a.Account.MarshalABI(e)
+	if err != nil {
+		return err
+	}
+	err = a.Name.MarshalABI(e)
+	if err != nil {
+		return err
+	}
 	l := uint(len(a.Authorization))
 	err = e.WriteVaruint(l)
 	if err != nil {
@@ -76,13 +85,22 @@ func (a Action) MarshalABI(e *abi.Encoder) error {
 // abi.Unmarshaler conformance
 
 func (pl *PermissionLevel) UnmarshalABI(d *abi.Decoder) error {
-	pl.Actor.UnmarshalABI(d)
+	err := pl.Actor.UnmarshalABI(d)
+	if err != nil {
+		return err
+	}
 	return pl.Permission.UnmarshalABI(d)
 }
 
 func (a *Action) UnmarshalABI(d *abi.Decoder) error {
-	a.Account.UnmarshalABI(d)
-	a.Name.UnmarshalABI(d)
+	err := a.Account.UnmarshalABI(d)
+	if err != nil {
+		return err
+	}
+	err = a.Name.UnmarshalABI(d)
+	if err != nil {
+		return err
+	}
 	l, err := d.ReadVaruint()
 	if err != nil {
 		return err
-- 
2.43.0


From eb5e9a094b461158f0149e5b88fe6b03bfab222b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:10 +0000
Subject: [PATCH 09/45] fix: replace the authorizations of a reused action when
 decoding

---
 pkg/chain/action.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/chain/action.go b/pkg/chain/action.go
index eb4c045..c038e59 100644
--- a/pkg/chain/action.go
+++ b/pkg/chain/action.go
@@ -105,6 +105,7 @@ func (a *Action) UnmarshalABI(d *abi.Decoder) error {
 	if err != nil {
 		return err
 	}
+	a.Authorization = make([]PermissionLevel, 0)
 	for i := 0; i < int(l); i++ {
 		var pl PermissionLevel
 		err = pl.UnmarshalABI(d)
-- 
2.43.0


From 1eca3eea797ec902453eedf35b0b50b17e7c0989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:28 +0000
Subject: [PATCH 10/45] fix: limit the nesting depth of decoded values

---
 pkg/abi/decode.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 4dbed3e..f810925 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -16,11 +16,16 @@ type Decoder struct {
 	r  io.Reader
 	fn DecodeFunc
 	n  int64 // bytes consumed from r
+
+	depth int // current nesting of DecodeValue
 }
 
 // Upper limit for the memory that is allocated before the data that fills it has been read.
 const maxReadAlloc = 64 * 1024
 
+// Upper limit for the nesting of values.
+const maxDepth = 10000
+
 type Unmarshaler interface {
 	UnmarshalABI(*Decoder) error
 }
@@ -152,6 +157,12 @@ func (dec *Decoder) DecodeVariant(v interface{}) error {
 func (dec *Decoder) DecodeValue(v reflect.Value) error {
 	var err error
 
+	dec.depth++
+	defer func() { dec.depth-- }()
+	if dec.depth > maxDepth {
+		return errors.New("abi: exceeded max depth")
+	}
+
 	u, pv := indirect(v, false)
 	if u != nil {
 		return u.UnmarshalABI(dec)
-- 
2.43.0


From 6b67a0b4287e13d24884a0bc25a3ad2c0dd2e3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:59 +0000
Subject: [PATCH 11/45] fix: stop decoding endless lists of elements that take
 up no space

---
 pkg/abi/decode.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index f810925..6c839e2 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -23,6 +23,9 @@ type Decoder struct {
 // Upper limit for the memory that is allocated before the data that fills it has been read.
 const maxReadAlloc = 64 * 1024
 
+// Upper limit for consecutive list elements that take up no space in the input.
+const maxEmptyElements = 1024
+
 // Upper limit for the nesting of values.
 const maxDepth = 10000
 
@@ -205,7 +208,9 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 			if pv.IsNil() || pv.Len() != 0 {
 				pv.Set(reflect.MakeMap(pv.Type()))
 			}
+			empty := 0
 			for i := 0; i < int(l); i++ {
+				start := dec.n
 				// read key
 				key := reflect.New(keyType).Elem()
 				err = dec.Decode(key.Addr().Interface())
@@ -220,6 +225,9 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 				}
 				// set value
 				pv.SetMapIndex(key, value)
+				if empty, err = dec.countEmpty(empty, start); err != nil {
+					break
+				}
 			}
 		}
 
@@ -280,7 +288,9 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 				n := minInt(int(l), 16)
 				pv.Set(reflect.MakeSlice(pv.Type(), n, n))
 			}
+			empty := 0
 			for i := 0; i < int(l); i++ {
+				start := dec.n
 				if i == pv.Len() {
 					n := minInt(int(l), 2*i)
 					grown := reflect.MakeSlice(pv.Type(), n, n)
@@ -299,6 +309,9 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 				if err != nil {
 					break
 				}
+				if empty, err = dec.countEmpty(empty, start); err != nil {
+					break
+				}
 			}
 		}
 
@@ -336,6 +349,17 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 	return err
 }
 
+// Count consecutive elements without data so that the loop over a bogus element count ends.
+func (dec *Decoder) countEmpty(count int, start int64) (int, error) {
+	if dec.n != start {
+		return 0, nil
+	}
+	if count++; count > maxEmptyElements {
+		return count, errors.New("abi: too many empty elements")
+	}
+	return count, nil
+}
+
 // reading methods
 
 func (dec *Decoder) ReadBytes(n int) (an int, b []byte, err error) {
-- 
2.43.0


From 85c2337655f03ea56b2e27e43d1009cfadad0310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:01 +0000
Subject: [PATCH 12/45] fix: decode pointers to built-in types in maps

---
 pkg/abi/decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 6c839e2..a468471 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -170,6 +170,10 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 	if u != nil {
 		return u.UnmarshalABI(dec)
 	}
+	if v.Kind() == reflect.Ptr && pv.CanAddr() {
+		// pointer to pointer, e.g. map values, the pointed to value may have a fast path
+		return dec.Decode(pv.Addr().Interface())
+	}
 
 	switch pv.Kind() {
 
-- 
2.43.0


From 1815ff22a74a62d73f87454bbd7bb2889eae0748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:28 +0000
Subject: [PATCH 13/45] fix: length-prefix bytes encoded through an ABI and
 accept chain.Bytes

---
 pkg/chain/abi.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index c925d18..963c8de 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -317,8 +317,11 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 			}
 		case "bytes":
 			var vv []byte
+			var vv2 Bytes
 			if vv, ok = v.([]byte); ok {
-				err = enc.WriteBytes(vv)
+				err = Bytes(vv).MarshalABI(enc)
+			} else if vv2, ok = v.(Bytes); ok {
+				err = vv2.MarshalABI(enc)
 			}
 		// chain builtins
 		case "asset":
-- 
2.43.0


From 160aafaea106f0b31598a3e17031fe213ce18e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:30 +0000
Subject: [PATCH 14/45] fix: report write errors of the presence byte in ABI
 encoding

---
 pkg/chain/abi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 963c8de..c6c80d7 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -154,7 +154,7 @@ func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}) error
 	if t.isOptional {
 		err = enc.WriteBool(exists)
 		if !exists || err != nil {
-			return nil
+			return err
 		}
 	} else if !exists {
 		return fmt.Errorf("found nil for non optional %v", t.baseName)
-- 
2.43.0


From 35095f875cd90a43119bcb72e99e912c131b6064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:32 +0000
Subject: [PATCH 15/45] fix: support structs without fields in ABI encoding and
 decoding

---
 pkg/chain/abi.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index c6c80d7..35f15b3 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -671,10 +671,10 @@ func (rt *resolvedType) allFields() []*struct {
 	if rt.fields == nil {
 		return nil
 	}
-	var rv []*struct {
+	rv := []*struct {
 		name string
 		typ  *resolvedType
-	}
+	}{}
 	var seen map[string]bool = make(map[string]bool)
 	var cur *resolvedType = rt
 	for {
-- 
2.43.0


From 7ab4f6cda894e2c26ee2e31be177dba8ccf24489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:35 +0000
Subject: [PATCH 16/45] fix: don't panic on short type names and recognize
 optional extensions

---
 pkg/chain/abi.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 35f15b3..12a19e0 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"reflect"
+	"strings"
 
 	"github.com/greymass/go-eosio/pkg/abi"
 )
@@ -588,21 +589,20 @@ func (r *resolver) resolve(name string) *resolvedType {
 	if r.types[name] != nil {
 		return r.types[name]
 	}
-	var isOptional bool
+	var isOptional, isExtension bool
 	baseName := name
-	if name[len(name)-1] == '?' {
-		isOptional = true
-		baseName = name[:len(name)-1]
-	}
-	var isExtension bool
-	if baseName[len(baseName)-1] == '$' {
-		isExtension = true
-		baseName = baseName[:len(baseName)-1]
+	// the extension marker comes last, e.g. "name?$", but the reverse order is tolerated
+	for _, suffix := range []string{"$", "?", "$"} {
+		if strings.HasSuffix(baseName, suffix) {
+			baseName = strings.TrimSuffix(baseName, suffix)
+			isOptional = isOptional || suffix == "?"
+			isExtension = isExtension || suffix == "$"
+		}
 	}
 	var isArray bool
-	if baseName[len(baseName)-2] == '[' && baseName[len(baseName)-1] == ']' {
+	if strings.HasSuffix(baseName, "[]") {
 		isArray = true
-		baseName = baseName[:len(baseName)-2]
+		baseName = strings.TrimSuffix(baseName, "[]")
 	}
 
 	t := resolvedType{
-- 
2.43.0


From 39bff3eb0c5c65ca692b91c9a4f64227e72db8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:37 +0000
Subject: [PATCH 17/45] fix: decode eosio::name through an ABI

---
 pkg/chain/abi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 12a19e0..0a40527 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -543,7 +543,7 @@ func (a Abi) decodeInner(dec *abi.Decoder, t *resolvedType, v *interface{}) erro
 			var rv ExtendedAsset
 			err = rv.UnmarshalABI(dec)
 			*v = rv
-		case "name":
+		case "name", "eosio::name":
 			var rv Name
 			err = rv.UnmarshalABI(dec)
 			*v = rv
-- 
2.43.0


From 7162bf63abed69270be1f73aebdedfc15ca0c920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:39 +0000
Subject: [PATCH 18/45] fix: allow nil for aliases of optional types in ABI
 encoding

---
 pkg/chain/abi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 0a40527..dd71167 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -157,7 +157,7 @@ func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}) error
 		if !exists || err != nil {
 			return err
 		}
-	} else if !exists {
+	} else if !exists && (t.ref == nil || t.isArray) {
 		return fmt.Errorf("found nil for non optional %v", t.baseName)
 	}
 	if t.isArray {
-- 
2.43.0


From 597916fee13e49f2fcdc69c03267c88d66591f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:41 +0000
Subject: [PATCH 19/45] fix: resolve aliases of base structs in ABI definitions

---
 pkg/chain/abi.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index dd71167..79a52bb 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -678,6 +678,11 @@ func (rt *resolvedType) allFields() []*struct {
 	var seen map[string]bool = make(map[string]bool)
 	var cur *resolvedType = rt
 	for {
+		// a base may be named by an alias
+		for cur.ref != nil && !cur.isArray && !cur.isOptional && !seen[cur.name] {
+			seen[cur.name] = true
+			cur = cur.ref
+		}
 		if cur.fields == nil {
 			return nil // invalid struct
 		}
-- 
2.43.0


From eb7321a955dae3f2966bcdc7d300c4bd98213f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:32 +0000
Subject: [PATCH 20/45] fix: only treat extensions as absent at the end of the
 data in ABI encoding and decoding

---
 pkg/chain/abi.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 79a52bb..c48b68f 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -190,7 +190,16 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 		if !ok {
 			return fmt.Errorf("expected map, found %v", reflect.TypeOf(v))
 		}
+		omitted := ""
 		for _, f := range fields {
+			// extensions can be left out at the end of the struct
+			if _, exists := vs[f.name]; !exists && f.typ.isExtension {
+				omitted = f.name
+				continue
+			}
+			if omitted != "" {
+				return fmt.Errorf("found %v after missing extension %v", f.name, omitted)
+			}
 			if err = a.encodeType(enc, f.typ, vs[f.name]); err != nil {
 				return err
 			}
@@ -429,9 +438,6 @@ func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error
 	} else {
 		err = a.decodeInner(dec, t, v)
 	}
-	if err == io.EOF && t.isExtension {
-		return nil
-	}
 	return err
 }
 
@@ -444,7 +450,11 @@ func (a Abi) decodeInner(dec *abi.Decoder, t *resolvedType, v *interface{}) erro
 		vs := make(map[string]interface{})
 		for _, field := range fields {
 			var fv interface{}
+			start := dec.Offset()
 			err := a.decodeType(dec, field.typ, &fv)
+			if err == io.EOF && field.typ.isExtension && dec.Offset() == start {
+				continue // extension not present
+			}
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 96991bce4932abe3f657fad7e9149b8090a10652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:35 +0000
Subject: [PATCH 21/45] fix: grow arrays as they are decoded through an ABI
 instead of trusting their length

---
 pkg/chain/abi.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index c48b68f..01c03fc 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -426,8 +426,9 @@ func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error
 		var l uint
 		l, err = dec.ReadVaruint()
 		if err == nil {
-			va := make([]interface{}, l)
+			va := []interface{}{}
 			for i := 0; i < int(l); i++ {
+				va = append(va, nil)
 				err = a.decodeInner(dec, t, &va[i])
 				if err != nil {
 					return err // can't recover from this
-- 
2.43.0


From dc7cea8a1e2f75b78a720c6605600d0bd4fd8b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:04 +0000
Subject: [PATCH 22/45] fix: limit recursion when encoding and decoding through
 an ABI

---
 pkg/chain/abi.go | 71 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 55 insertions(+), 16 deletions(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 01c03fc..e067b5f 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -1,6 +1,7 @@
 package chain
 
 import (
+	"errors"
 	"fmt"
 	"io"
 	"reflect"
@@ -138,7 +139,7 @@ func (a Abi) Decode(r io.Reader, name string) (interface{}, error) {
 	t := res.resolve(name)
 	dec := NewDecoder(r)
 	var rv interface{}
-	err := a.decodeType(dec, t, &rv)
+	err := a.decodeType(dec, t, &rv, &recursion{})
 	return rv, err
 }
 
@@ -146,11 +147,14 @@ func (a Abi) Encode(w io.Writer, name string, v interface{}) error {
 	res := resolver{&a, make(map[string]*resolvedType)}
 	t := res.resolve(name)
 	enc := NewEncoder(w)
-	return a.encodeType(enc, t, v)
+	return a.encodeType(enc, t, v, 0)
 }
 
-func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}) error {
+func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}, depth int) error {
 	var err error
+	if depth++; depth > maxDepth {
+		return errors.New("exceeded max depth")
+	}
 	exists := v != nil
 	if t.isOptional {
 		err = enc.WriteBool(exists)
@@ -170,21 +174,21 @@ func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}) error
 			return err
 		}
 		for _, e := range va {
-			err = a.encodeInner(enc, t, e)
+			err = a.encodeInner(enc, t, e, depth)
 			if err != nil {
 				return err
 			}
 		}
 	} else {
-		err = a.encodeInner(enc, t, v)
+		err = a.encodeInner(enc, t, v, depth)
 	}
 	return err
 }
 
-func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error {
+func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}, depth int) error {
 	var err error
 	if ref := t.ref; ref != nil {
-		return a.encodeType(enc, ref, v)
+		return a.encodeType(enc, ref, v, depth)
 	} else if fields := t.allFields(); fields != nil {
 		vs, ok := v.(map[string]interface{})
 		if !ok {
@@ -200,7 +204,7 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 			if omitted != "" {
 				return fmt.Errorf("found %v after missing extension %v", f.name, omitted)
 			}
-			if err = a.encodeType(enc, f.typ, vs[f.name]); err != nil {
+			if err = a.encodeType(enc, f.typ, vs[f.name], depth); err != nil {
 				return err
 			}
 		}
@@ -231,7 +235,7 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 		}
 		err = enc.WriteVaruint(uint(ti))
 		if err == nil {
-			err = a.encodeType(enc, tv, va[1])
+			err = a.encodeType(enc, tv, va[1], depth)
 		}
 	} else {
 		var ok bool
@@ -413,7 +417,7 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 	return err
 }
 
-func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error {
+func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}, rec *recursion) error {
 	var err error
 	if t.isOptional {
 		var exists bool
@@ -429,7 +433,7 @@ func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error
 			va := []interface{}{}
 			for i := 0; i < int(l); i++ {
 				va = append(va, nil)
-				err = a.decodeInner(dec, t, &va[i])
+				err = a.decodeInner(dec, t, &va[i], rec)
 				if err != nil {
 					return err // can't recover from this
 				}
@@ -437,22 +441,26 @@ func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error
 			*v = va
 		}
 	} else {
-		err = a.decodeInner(dec, t, v)
+		err = a.decodeInner(dec, t, v, rec)
 	}
 	return err
 }
 
-func (a Abi) decodeInner(dec *abi.Decoder, t *resolvedType, v *interface{}) error {
+func (a Abi) decodeInner(dec *abi.Decoder, t *resolvedType, v *interface{}, rec *recursion) error {
 	var err error
+	if err = rec.enter(dec); err != nil {
+		return err
+	}
+	defer rec.leave()
 
 	if ref := t.ref; ref != nil {
-		return a.decodeType(dec, ref, v)
+		return a.decodeType(dec, ref, v, rec)
 	} else if fields := t.allFields(); fields != nil {
 		vs := make(map[string]interface{})
 		for _, field := range fields {
 			var fv interface{}
 			start := dec.Offset()
-			err := a.decodeType(dec, field.typ, &fv)
+			err := a.decodeType(dec, field.typ, &fv, rec)
 			if err == io.EOF && field.typ.isExtension && dec.Offset() == start {
 				continue // extension not present
 			}
@@ -475,7 +483,7 @@ func (a Abi) decodeInner(dec *abi.Decoder, t *resolvedType, v *interface{}) erro
 		tv := (*variant)[idx]
 		var vv []interface{} = make([]interface{}, 2)
 		vv[0] = tv.name
-		err = a.decodeType(dec, tv, &vv[1])
+		err = a.decodeType(dec, tv, &vv[1], rec)
 		if err != nil {
 			return err
 		}
@@ -589,6 +597,37 @@ func (a Abi) decodeInner(dec *abi.Decoder, t *resolvedType, v *interface{}) erro
 	return err
 }
 
+// upper limit for the nesting of values
+const maxDepth = 10000
+
+// upper limit for consecutive values that take up no space in the input
+const maxEmptyValues = 10000
+
+// keeps track of nesting and progress so that self-referencing types and bogus lengths don't go on forever
+type recursion struct {
+	depth  int
+	offset int64
+	empty  int
+}
+
+func (r *recursion) enter(dec *abi.Decoder) error {
+	if r.depth++; r.depth > maxDepth {
+		return errors.New("exceeded max depth")
+	}
+	if offset := dec.Offset(); offset != r.offset {
+		r.offset = offset
+		r.empty = 0
+	}
+	if r.empty++; r.empty > maxEmptyValues {
+		return errors.New("too many empty values")
+	}
+	return nil
+}
+
+func (r *recursion) leave() {
+	r.depth--
+}
+
 // create a tree of types that's easier to traverse
 
 type resolver struct {
-- 
2.43.0


From f496261b5f1eadb10d5665829ce9d43cc178bb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:22 +0000
Subject: [PATCH 23/45] fix: reject checksum texts of the wrong length instead
 of panicking or truncating

---
 pkg/chain/checksum.go | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/pkg/chain/checksum.go b/pkg/chain/checksum.go
index 06ea317..edcc268 100644
--- a/pkg/chain/checksum.go
+++ b/pkg/chain/checksum.go
@@ -4,6 +4,7 @@ import (
 	"crypto/sha256"
 	"crypto/sha512"
 	"encoding/hex"
+	"fmt"
 
 	"github.com/greymass/go-eosio/pkg/abi"
 	"github.com/greymass/go-eosio/pkg/ripemd160"
@@ -117,28 +118,29 @@ func (c512 Checksum512) MarshalText() (text []byte, err error) {
 // encoding.TextUnmarshaler conformance
 
 func (c160 *Checksum160) UnmarshalText(text []byte) error {
-	data := make([]byte, hex.DecodedLen(len(text)))
-	_, err := hex.Decode(data, text)
-	if err == nil {
-		copy((*c160)[:], data[:20])
-	}
-	return err
+	return decodeFixedHex((*c160)[:], text)
 }
 
 func (c256 *Checksum256) UnmarshalText(text []byte) error {
-	data := make([]byte, hex.DecodedLen(len(text)))
-	_, err := hex.Decode(data, text)
-	if err == nil {
-		copy((*c256)[:], data[:32])
-	}
-	return err
+	return decodeFixedHex((*c256)[:], text)
 }
 
 func (c512 *Checksum512) UnmarshalText(text []byte) error {
+	return decodeFixedHex((*c512)[:], text)
+}
+
+// helpers
+
+// decode hex text that must be exactly as long as dst
+func decodeFixedHex(dst []byte, text []byte) error {
 	data := make([]byte, hex.DecodedLen(len(text)))
 	_, err := hex.Decode(data, text)
-	if err == nil {
-		copy((*c512)[:], data[:64])
+	if err != nil {
+		return err
 	}
-	return err
+	if len(data) != len(dst) {
+		return fmt.Errorf("invalid length: expected %d bytes, found %d", len(dst), len(data))
+	}
+	copy(dst, data)
+	return nil
 }
-- 
2.43.0


From 2578eb7f72d30a6ab0b2c8370787d03558cde35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:25 +0000
Subject: [PATCH 24/45] fix: reject float128 texts of the wrong length

---
 pkg/chain/numbers.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pkg/chain/numbers.go b/pkg/chain/numbers.go
index 4edba44..26185ea 100644
--- a/pkg/chain/numbers.go
+++ b/pkg/chain/numbers.go
@@ -219,11 +219,7 @@ func (i128 *Int128) UnmarshalText(text []byte) error {
 }
 
 func (f128 *Float128) UnmarshalText(text []byte) error {
-	b, err := hex.DecodeString(string(text))
-	if err == nil {
-		copy(f128.Data[:], b)
-	}
-	return err
+	return decodeFixedHex(f128.Data[:], text)
 }
 
 // json.Marshaler conformance
-- 
2.43.0


From d4fadcfcb8ae4c06fa0eea55d0c966b77c2200ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:27 +0000
Subject: [PATCH 25/45] fix: report malformed hex when parsing bytes

---
 pkg/chain/bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/chain/bytes.go b/pkg/chain/bytes.go
index 7427f71..69dbc36 100644
--- a/pkg/chain/bytes.go
+++ b/pkg/chain/bytes.go
@@ -54,5 +54,5 @@ func (b *Bytes) UnmarshalText(text []byte) error {
 	if err == nil {
 		*b = data
 	}
-	return nil
+	return err
 }
-- 
2.43.0


From ef0b691f1a8a6fd6f962456b9e44c0e55c8f2e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:05 +0000
Subject: [PATCH 26/45] fix: parse blobs without writing into the given text
 and accept any base64 padding

---
 pkg/chain/blob.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pkg/chain/blob.go b/pkg/chain/blob.go
index a382d73..d35971c 100644
--- a/pkg/chain/blob.go
+++ b/pkg/chain/blob.go
@@ -2,6 +2,7 @@ package chain
 
 import (
 	"encoding/base64"
+	"strings"
 
 	"github.com/greymass/go-eosio/pkg/abi"
 )
@@ -50,14 +51,10 @@ func (b Blob) MarshalText() (text []byte, err error) {
 // encoding.TextUnmarshaler conformance
 
 func (b *Blob) UnmarshalText(text []byte) error {
-	// fix up the base64 encoding padding
-	switch len(text) % 4 {
-	case 2:
-		text = append(text, "=="...)
-	case 3:
-		text = append(text, "="...)
+	// padding may be missing, incomplete or surplus depending on where the text comes from
+	data, err := base64.RawStdEncoding.DecodeString(strings.TrimRight(string(text), "="))
+	if err == nil {
+		*b = data
 	}
-	var err error
-	*b, err = base64.StdEncoding.DecodeString(string(text))
 	return err
 }
-- 
2.43.0


From 1b2915b744b2036569cf65fcd094e89c2397110f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:07 +0000
Subject: [PATCH 27/45] fix: render the smallest asset amount and symbols with
 many decimals

---
 pkg/chain/asset.go | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/pkg/chain/asset.go b/pkg/chain/asset.go
index 5592188..6772e95 100644
--- a/pkg/chain/asset.go
+++ b/pkg/chain/asset.go
@@ -2,7 +2,6 @@ package chain
 
 import (
 	"errors"
-	"fmt"
 	"strconv"
 	"strings"
 
@@ -82,21 +81,19 @@ func A(s string) *Asset {
 // String representation of asset, e.g. "1.0000 EOS"
 func (a *Asset) String() string {
 	s := ""
+	v := uint64(a.Value)
 	if a.Value < 0 {
 		s = "-"
-	}
-	v := int(a.Value)
-	if v < 0 {
 		v = -v
 	}
-	s += fmt.Sprint(v / a.Symbol.Precision())
-	if a.Symbol.Decimals() > 0 {
-		f := v % a.Symbol.Precision()
-		fs := strconv.Itoa(f)
-		for len(fs) < a.Symbol.Decimals() {
-			fs = "0" + fs
-		}
-		s += "." + fs
+	vs := strconv.FormatUint(v, 10)
+	d := a.Symbol.Decimals()
+	for len(vs) <= d {
+		vs = "0" + vs
+	}
+	s += vs[:len(vs)-d]
+	if d > 0 {
+		s += "." + vs[len(vs)-d:]
 	}
 	return s + " " + a.Symbol.Name()
 }
-- 
2.43.0


From a792696bd22c8fe56ee4b3843c6f5e612270afc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:10 +0000
Subject: [PATCH 28/45] fix: reject integers that don't fit in an int128 and
 encode the smallest one

---
 pkg/chain/numbers.go | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/pkg/chain/numbers.go b/pkg/chain/numbers.go
index 26185ea..a42642e 100644
--- a/pkg/chain/numbers.go
+++ b/pkg/chain/numbers.go
@@ -45,25 +45,15 @@ func NewUint128(i *big.Int) Uint128 {
 
 // Create new Int128 from big.Int, panics if big.Int is too large.
 func NewInt128(i *big.Int) Int128 {
-	var b []byte
-	if i.BitLen() > 128 {
-		panic("int128 only supports bitlen <= 128")
+	var b [16]byte
+	if !isInt128(i) {
+		panic("int128 only supports values from -2^127 to 2^127-1")
 	}
-	switch i.Sign() {
-	case 0:
-		return Int128{0, 0}
-	case 1:
-		b = i.Bytes()
-		for len(b) < 16 {
-			b = append([]byte{0}, b...)
-		}
-	case -1:
-		length := uint(i.BitLen()/8+1) * 8
-		b = new(big.Int).Add(i, new(big.Int).Lsh(big.NewInt(1), length)).Bytes()
-		for len(b) < 16 {
-			b = append([]byte{0xff}, b...)
-		}
+	if i.Sign() == -1 {
+		// two's complement
+		i = new(big.Int).Add(i, new(big.Int).Lsh(big.NewInt(1), 128))
 	}
+	i.FillBytes(b[:])
 	return Int128{
 		binary.BigEndian.Uint64(b[8:]),
 		binary.BigEndian.Uint64(b[:8]),
@@ -80,12 +70,19 @@ func NewUint128FromString(s string) (Uint128, error) {
 
 func NewInt128FromString(s string) (Int128, error) {
 	i, ok := (&big.Int{}).SetString(s, 10)
-	if !ok || i.BitLen() > 128 {
+	if !ok || !isInt128(i) {
 		return Int128{}, errors.New("invalid signed integer")
 	}
 	return NewInt128(i), nil
 }
 
+func isInt128(i *big.Int) bool {
+	if i.Sign() == -1 {
+		i = new(big.Int).Not(i) // -i - 1
+	}
+	return i.BitLen() <= 127
+}
+
 func (u128 Uint128) Bytes(o binary.ByteOrder) []byte {
 	var b [16]byte
 	if o == binary.BigEndian {
-- 
2.43.0


From 06318877e076e9baa940f824f3cbd5b43da7f697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:12 +0000
Subject: [PATCH 29/45] fix: don't panic on non-ASCII characters when decoding
 base58

---
 pkg/base58/base58.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/base58/base58.go b/pkg/base58/base58.go
index eb6c070..5dc462a 100644
--- a/pkg/base58/base58.go
+++ b/pkg/base58/base58.go
@@ -48,7 +48,7 @@ func Decode(b string) []byte {
 		}
 
 		total := uint64(0)
-		for _, v := range t[:n] {
+		for _, v := range []byte(t[:n]) {
 			tmp := b58[v]
 			if tmp == 255 {
 				return []byte("")
-- 
2.43.0


From 0531fb80ee92d66ef5babd2049e542a58abff584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:42 +0000
Subject: [PATCH 30/45] fix: use the ripemd160 checksum for legacy public keys
 and don't panic on short ones

---
 pkg/chain/public_key.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/chain/public_key.go b/pkg/chain/public_key.go
index 2b4335a..79a835d 100644
--- a/pkg/chain/public_key.go
+++ b/pkg/chain/public_key.go
@@ -45,7 +45,10 @@ func NewPublicKeyFromString(s string) (*PublicKey, error) {
 		}, err
 	}
 	// legacy format
-	d, err := base58.CheckDecode(s[len(s)-50:])
+	if len(s) < 50 {
+		return nil, errors.New("invalid public key string")
+	}
+	d, err := base58.CheckDecodeEosio(s[len(s)-50:], "")
 	return &PublicKey{
 		Type: K1,
 		Data: d,
@@ -61,7 +64,7 @@ func (pk *PublicKey) LegacyString(prefix string) string {
 	if pk.Type != K1 {
 		panic("only K1 keys can be converted to legacy format")
 	}
-	return prefix + base58.CheckEncode(pk.Data)
+	return prefix + base58.CheckEncodeEosio(pk.Data, "")
 }
 
 // abi.Marshaler conformance
-- 
2.43.0


From 736584cadb33c3a30766f1f8cf1ce8242d047fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:45 +0000
Subject: [PATCH 31/45] fix: reject key and signature texts with a wrong
 delimiter

---
 pkg/chain/public_key.go | 3 +++
 pkg/chain/signature.go  | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/chain/public_key.go b/pkg/chain/public_key.go
index 79a835d..fb62516 100644
--- a/pkg/chain/public_key.go
+++ b/pkg/chain/public_key.go
@@ -26,6 +26,9 @@ func NewPublicKeyFromString(s string) (*PublicKey, error) {
 		return nil, errors.New("invalid public key string")
 	}
 	if s[0:4] == "PUB_" {
+		if s[6] != '_' {
+			return nil, errors.New("invalid public key string")
+		}
 		// new format
 		var t KeyType
 		switch s[4:6] {
diff --git a/pkg/chain/signature.go b/pkg/chain/signature.go
index 6e661fe..ee4b004 100644
--- a/pkg/chain/signature.go
+++ b/pkg/chain/signature.go
@@ -22,7 +22,7 @@ func NewSignature(t KeyType, d []byte) *Signature {
 }
 
 func NewSignatureString(s string) (*Signature, error) {
-	if len(s) < 7 || s[:4] != "SIG_" {
+	if len(s) < 7 || s[:4] != "SIG_" || s[6] != '_' {
 		return nil, errors.New("invalid signature string")
 	}
 	var t KeyType
-- 
2.43.0


From ef1a9a1e05ca1478e7e8978c5ba5cf5e878aa9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:47 +0000
Subject: [PATCH 32/45] fix: encode signature values as text in JSON

---
 pkg/chain/signature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/chain/signature.go b/pkg/chain/signature.go
index ee4b004..750f43a 100644
--- a/pkg/chain/signature.go
+++ b/pkg/chain/signature.go
@@ -107,7 +107,7 @@ func (s *Signature) UnmarshalABI(d *abi.Decoder) error {
 
 // encoding.TextMarshaler conformance
 
-func (s *Signature) MarshalText() (text []byte, err error) {
+func (s Signature) MarshalText() (text []byte, err error) {
 	return []byte(s.String()), nil
 }
 
-- 
2.43.0


From 5d14816f6bb0b2fd7bbb0dcbf1b2d22916dd8abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:03 +0000
Subject: [PATCH 33/45] fix: use the EOSIO name for R1 keys and signatures

---
 pkg/chain/key_type.go   | 8 +++++---
 pkg/chain/public_key.go | 6 +++---
 pkg/chain/signature.go  | 6 +++---
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/pkg/chain/key_type.go b/pkg/chain/key_type.go
index b89c5c3..ea6ea80 100644
--- a/pkg/chain/key_type.go
+++ b/pkg/chain/key_type.go
@@ -4,16 +4,18 @@ type KeyType byte
 
 const (
 	K1 KeyType = 0
-	P1 KeyType = 1
+	R1 KeyType = 1
 	WA KeyType = 2
+
+	P1 = R1 // old name for R1
 )
 
 func (t KeyType) String() string {
 	switch t {
 	case K1:
 		return "K1"
-	case P1:
-		return "P1"
+	case R1:
+		return "R1"
 	case WA:
 		return "WA"
 	default:
diff --git a/pkg/chain/public_key.go b/pkg/chain/public_key.go
index fb62516..2432e11 100644
--- a/pkg/chain/public_key.go
+++ b/pkg/chain/public_key.go
@@ -34,8 +34,8 @@ func NewPublicKeyFromString(s string) (*PublicKey, error) {
 		switch s[4:6] {
 		case "K1":
 			t = K1
-		case "P1":
-			t = P1
+		case "R1":
+			t = R1
 		case "WA":
 			t = WA
 		default:
@@ -89,7 +89,7 @@ func (pk *PublicKey) UnmarshalABI(d *abi.Decoder) error {
 	}
 	pk.Type = KeyType(t)
 	switch pk.Type {
-	case K1, P1:
+	case K1, R1:
 		_, pk.Data, err = d.ReadBytes(33)
 	case WA:
 		_, data, err := d.ReadBytes(34) // key_data + user_presence
diff --git a/pkg/chain/signature.go b/pkg/chain/signature.go
index 750f43a..62d64fc 100644
--- a/pkg/chain/signature.go
+++ b/pkg/chain/signature.go
@@ -29,8 +29,8 @@ func NewSignatureString(s string) (*Signature, error) {
 	switch s[4:6] {
 	case "K1":
 		t = K1
-	case "P1":
-		t = P1
+	case "R1":
+		t = R1
 	case "WA":
 		t = WA
 	default:
@@ -67,7 +67,7 @@ func (s *Signature) UnmarshalABI(d *abi.Decoder) error {
 	}
 	s.Type = KeyType(t)
 	switch s.Type {
-	case K1, P1:
+	case K1, R1:
 		_, s.Data, err = d.ReadBytes(65)
 	case WA:
 		_, data, err := d.ReadBytes(65) // sig data
-- 
2.43.0


From 23bef9f073a7b86ee660685403506e863ad902f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:05 +0000
Subject: [PATCH 34/45] fix: reject time texts outside the range of the type

---
 pkg/chain/time.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/chain/time.go b/pkg/chain/time.go
index 4a012a1..ffb1d1a 100644
--- a/pkg/chain/time.go
+++ b/pkg/chain/time.go
@@ -1,6 +1,7 @@
 package chain
 
 import (
+	"errors"
 	"time"
 
 	"github.com/greymass/go-eosio/pkg/abi"
@@ -51,7 +52,11 @@ func NewTimePointSecFromString(s string) (TimePointSec, error) {
 	if err != nil {
 		return 0, err
 	}
-	return NewTimePointSec(t), nil
+	rv := NewTimePointSec(t)
+	if rv.Time().Unix() != t.Unix() {
+		return 0, errors.New("time out of range")
+	}
+	return rv, nil
 }
 
 func NewBlockTimestampFromString(s string) (BlockTimestamp, error) {
@@ -62,7 +67,11 @@ func NewBlockTimestampFromString(s string) (BlockTimestamp, error) {
 	if err != nil {
 		return 0, err
 	}
-	return NewBlockTimestamp(t), nil
+	rv := NewBlockTimestamp(t)
+	if !rv.Time().Equal(t.Round(time.Millisecond * 500)) {
+		return 0, errors.New("time out of range")
+	}
+	return rv, nil
 }
 
 func (tp TimePoint) Time() time.Time {
-- 
2.43.0


From bc1473795ae0369fb32b057cad4be6b4840321fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:51 +0000
Subject: [PATCH 35/45] fix: don't generate an unused variable for structs with
 arrays

---
 pkg/codegen/codegen.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index e4c52b5..3ee9f3e 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -266,7 +266,6 @@ func GenUnmarshalFn(structType interface{}) string {
 			f.Code = render(writeSliceTemplate, f)
 		}
 		if f.IsArray {
-			ctx.UsesLength = true
 			f.Code = indent(f.Code)
 			f.Code = render(writeArrayTemplate, f)
 		}
-- 
2.43.0


From ba6e42ec3f625bc192787d4f2fc3596cbb9de8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:53 +0000
Subject: [PATCH 36/45] fix: generate decoding code for pointers that
 allocates, compiles and resets absent optionals

---
 pkg/codegen/codegen.go | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index 3ee9f3e..262eca5 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -52,19 +52,11 @@ var writeTemplate = template.Must(template.New("").Parse(`
 ))
 
 var readTemplate = template.Must(template.New("").Parse(`
-	{{ if .IsPtr -}}
-	var tmp {{ .Type }}
-	{{ end -}}
-	if {{ if .IsPtr }}tmp{{ else -}}
-		v.{{ .Name }}
+	if {{ .Target }}
 		{{- if or .IsSlice .IsArray }}[i]{{ end -}}
-	{{- end -}}
 	, err = d.Read{{ .Method }}(); err != nil {
 		return err
-	}
-	{{- if .IsPtr }}
-	v.{{ .Name }}{{ if or .IsSlice .IsArray }}[i]{{ end }} = &tmp
-	{{- end }}`,
+	}`,
 ))
 
 var writeOtherTemplate = template.Must(template.New("").Parse(`
@@ -78,9 +70,7 @@ var writeOtherTemplate = template.Must(template.New("").Parse(`
 ))
 
 var readOtherTemplate = template.Must(template.New("").Parse(`
-	if err = {{ if and .IsPtr (or .IsSlice .IsArray) }}(*{{ end -}}
-		v.{{ .Name -}}
-		{{- if and .IsPtr (or .IsSlice .IsArray) }}){{ end -}}
+	if err = {{ .Target -}}
 		{{- if or .IsSlice .IsArray }}[i]{{ end -}}
 	.UnmarshalABI(d); err != nil {
 		return err
@@ -101,7 +91,7 @@ var readSliceTemplate = template.Must(template.New("").Parse(`
 	if length, err = d.ReadVaruint(); err != nil {
 		return err
 	}
-	v.{{ .Name }} = make([]{{ .Type }}, length)
+	{{ .Target }} = make([]{{ .Type }}, length)
 	for i := 0; i < int(length); i++ {
 		{{- .Code }}
 	}`,
@@ -135,12 +125,22 @@ var writeOptionalTemplate = template.Must(template.New("").Parse(`
 	{{- end -}}
 `))
 
+var readPointerTemplate = template.Must(template.New("").Parse(`
+	{
+		var tmp {{ if .IsSlice }}[]{{ else if .IsArray }}[{{ .ArrayLen }}]{{ end }}{{ .Type }}
+		{{- .Code }}
+		v.{{ .Name }} = &tmp
+	}`,
+))
+
 var readOptionalTemplate = template.Must(template.New("").Parse(`
 	if exists, err = d.ReadBool(); err != nil {
 		return err
 	}
 	if exists {
 		{{- .Code }}
+	} else {
+		v.{{ .Name }} = nil
 	}`,
 ))
 
@@ -171,6 +171,7 @@ type field struct {
 	ArrayLen   int
 	Code       string
 	Method     string
+	Target     string // what the generated code reads into
 }
 
 func GenUnmarshalFn(structType interface{}) string {
@@ -284,6 +285,10 @@ func GenUnmarshalFn(structType interface{}) string {
 	ctx.UsesExists = false
 
 	for _, f := range ctx.Fields {
+		f.Target = "v." + f.Name
+		if f.IsPtr {
+			f.Target = "tmp"
+		}
 		tpl := readTemplate
 		if f.Method == "" {
 			tpl = readOtherTemplate
@@ -298,6 +303,10 @@ func GenUnmarshalFn(structType interface{}) string {
 			f.Code = indent(f.Code)
 			f.Code = render(readArrayTemplate, f)
 		}
+		if f.IsPtr {
+			f.Code = indent(f.Code)
+			f.Code = render(readPointerTemplate, f)
+		}
 		if f.IsOptional {
 			ctx.UsesExists = true
 			f.Code = indent(f.Code)
-- 
2.43.0


From 64cc7544d11cf851f99673020c13fdeea6851ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:56 +0000
Subject: [PATCH 37/45] fix: grow slices in generated code as they are decoded
 instead of trusting their length

---
 pkg/codegen/codegen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index 262eca5..bb77e1a 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -91,8 +91,9 @@ var readSliceTemplate = template.Must(template.New("").Parse(`
 	if length, err = d.ReadVaruint(); err != nil {
 		return err
 	}
-	{{ .Target }} = make([]{{ .Type }}, length)
+	{{ .Target }} = make([]{{ .Type }}, 0)
 	for i := 0; i < int(length); i++ {
+		{{ .Target }} = append({{ .Target }}, *new({{ .Type }}))
 		{{- .Code }}
 	}`,
 ))
-- 
2.43.0


From 043b25d4b5da2fea2a2bb1461de03c78c159f5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:58 +0000
Subject: [PATCH 38/45] fix: don't qualify types of the package that code is
 generated for

---
 pkg/codegen/codegen.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index bb77e1a..5f51ed8 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -189,6 +189,10 @@ func GenUnmarshalFn(structType interface{}) string {
 			Name: t.Field(i).Name,
 			Type: t.Field(i).Type.String(),
 		}
+		// types of the package the code is generated for are not qualified
+		if elem := elemType(t.Field(i).Type); elem.Name() != "" && elem.PkgPath() == t.PkgPath() {
+			f.Type = strings.TrimSuffix(f.Type, elem.String()) + elem.Name()
+		}
 		if t.Field(i).Type.Kind() == reflect.Map {
 			// TODO: handle maps
 		}
@@ -321,6 +325,13 @@ func GenUnmarshalFn(structType interface{}) string {
 
 }
 
+func elemType(t reflect.Type) reflect.Type {
+	for t.Name() == "" && (t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice || t.Kind() == reflect.Array) {
+		t = t.Elem()
+	}
+	return t
+}
+
 func render(t *template.Template, v interface{}) string {
 	buf := new(bytes.Buffer)
 	err := t.Execute(buf, v)
-- 
2.43.0


From fab280698b307dca999602a960ee906e17319d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:55 +0000
Subject: [PATCH 39/45] fix: don't turn negative integers into positive
 uint128s

---
 pkg/chain/numbers.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/chain/numbers.go b/pkg/chain/numbers.go
index a42642e..0f05c46 100644
--- a/pkg/chain/numbers.go
+++ b/pkg/chain/numbers.go
@@ -33,8 +33,11 @@ func (bn BlockNum) String() string {
 	return fmt.Sprintf("%010d", bn)
 }
 
-// Create new Uint128 from big.Int, panics if big.Int is too large.
+// Create new Uint128 from big.Int, panics if big.Int is too large or negative.
 func NewUint128(i *big.Int) Uint128 {
+	if i.Sign() == -1 {
+		panic("uint128 only supports positive values")
+	}
 	var b [16]byte
 	i.FillBytes(b[:])
 	return Uint128{
-- 
2.43.0


From c09099716b40a80b5d9d8cd81094eb389c88d095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:16 +0000
Subject: [PATCH 40/45] fix: don't report EOF for an absent extension field at
 the end of a struct

---
 pkg/abi/decode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index a468471..5bdc91e 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -274,6 +274,7 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 				if tag == "extension" && err == io.EOF && dec.n == start {
 					// TODO: make sure extensions are only last field in a top-level struct
 					pv.Set(reflect.Zero(pv.Type()))
+					err = nil
 					continue
 				}
 
-- 
2.43.0


From 79331c1cdb8a46de45259d9b2b5428880ca7d91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:20 +0000
Subject: [PATCH 41/45] fix: reject key and signature text holding data of the
 wrong size

---
 pkg/chain/public_key.go | 24 ++++++++++++++++--------
 pkg/chain/signature.go  | 16 +++++++++++-----
 2 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/pkg/chain/public_key.go b/pkg/chain/public_key.go
index 2432e11..661a559 100644
--- a/pkg/chain/public_key.go
+++ b/pkg/chain/public_key.go
@@ -1,6 +1,7 @@
 package chain
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -42,20 +43,27 @@ func NewPublicKeyFromString(s string) (*PublicKey, error) {
 			return nil, fmt.Errorf("unknown key type: %s", s[4:6])
 		}
 		d, err := base58.CheckDecodeEosio(s[7:], t.String())
-		return &PublicKey{
-			Type: t,
-			Data: d,
-		}, err
+		return newCheckedPublicKey(t, d, err)
 	}
 	// legacy format
 	if len(s) < 50 {
 		return nil, errors.New("invalid public key string")
 	}
 	d, err := base58.CheckDecodeEosio(s[len(s)-50:], "")
-	return &PublicKey{
-		Type: K1,
-		Data: d,
-	}, err
+	return newCheckedPublicKey(K1, d, err)
+}
+
+// create public key from decoded text, making sure that the data is what the key type calls for
+func newCheckedPublicKey(t KeyType, d []byte, err error) (*PublicKey, error) {
+	if err != nil {
+		return nil, err
+	}
+	pk := &PublicKey{}
+	buf := bytes.NewBuffer(append([]byte{byte(t)}, d...))
+	if err := pk.UnmarshalABI(NewDecoder(buf)); err != nil || buf.Len() > 0 {
+		return nil, errors.New("invalid public key data")
+	}
+	return pk, nil
 }
 
 func (pk *PublicKey) String() string {
diff --git a/pkg/chain/signature.go b/pkg/chain/signature.go
index 62d64fc..e2a4a14 100644
--- a/pkg/chain/signature.go
+++ b/pkg/chain/signature.go
@@ -1,6 +1,7 @@
 package chain
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -37,11 +38,16 @@ func NewSignatureString(s string) (*Signature, error) {
 		return nil, fmt.Errorf("unknown signature type: %s", s[4:6])
 	}
 	d, err := base58.CheckDecodeEosio(s[7:], t.String())
-	return &Signature{
-		Type: t,
-		Data: d,
-	}, err
-
+	if err != nil {
+		return nil, err
+	}
+	// make sure that the data is what the signature type calls for
+	sig := &Signature{}
+	buf := bytes.NewBuffer(append([]byte{byte(t)}, d...))
+	if err := sig.UnmarshalABI(NewDecoder(buf)); err != nil || buf.Len() > 0 {
+		return nil, errors.New("invalid signature data")
+	}
+	return sig, nil
 }
 
 func (pk *Signature) String() string {
-- 
2.43.0


From b34166b43ea2c7c05043af5ef29815f9947a0b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:53 +0000
Subject: [PATCH 42/45] fix: don't accept signs in the fraction of time points

---
 pkg/chain/time.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/chain/time.go b/pkg/chain/time.go
index ffb1d1a..e762986 100644
--- a/pkg/chain/time.go
+++ b/pkg/chain/time.go
@@ -2,6 +2,7 @@ package chain
 
 import (
 	"errors"
+	"strings"
 	"time"
 
 	"github.com/greymass/go-eosio/pkg/abi"
@@ -33,11 +34,20 @@ func NewBlockTimestamp(t time.Time) BlockTimestamp {
 	return BlockTimestamp((t.Round(time.Millisecond*500).UnixMilli() - blockTimestampEpochMilli) / 500)
 }
 
+// parse without the sign that time.Parse lets through in the fraction, e.g. "05.-12"
+func parseTimePoint(s string) (time.Time, error) {
+	t, err := time.Parse(TimePointFormat, s)
+	if err == nil && strings.LastIndexAny(s, "+-") > len("2006-01") {
+		err = errors.New("invalid time")
+	}
+	return t, err
+}
+
 func NewTimePointFromString(s string) (TimePoint, error) {
 	if len(s) > 0 && s[len(s)-1] == 'Z' {
 		s = s[:len(s)-1]
 	}
-	t, err := time.Parse(TimePointFormat, s)
+	t, err := parseTimePoint(s)
 	if err != nil {
 		return 0, err
 	}
@@ -63,7 +73,7 @@ func NewBlockTimestampFromString(s string) (BlockTimestamp, error) {
 	if len(s) > 0 && s[len(s)-1] == 'Z' {
 		s = s[:len(s)-1]
 	}
-	t, err := time.Parse(TimePointFormat, s)
+	t, err := parseTimePoint(s)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 50a6e73a1695c4f77a7ec55cc0988ade935b0660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:35 +0000
Subject: [PATCH 43/45] fix: variant with an alternative that is not a pointer
 crashes the decoder

The other alternatives were asked whether they are nil, which panics for
kinds that can't be; clearing them needs no such test.
---
 pkg/abi/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 5bdc91e..54f1f75 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -135,7 +135,7 @@ func (dec *Decoder) DecodeVariant(v interface{}) error {
 	}
 	// enumerate fields and set to nil where needed
 	for i := 0; i < ptrValue.NumField(); i++ {
-		if i != int(vIdx) && !ptrValue.Field(i).IsNil() {
+		if i != int(vIdx) {
 			ptrValue.Field(i).Set(reflect.Zero(ptrValue.Field(i).Type()))
 		}
 	}
-- 
2.43.0


From 27f8c36f7a8b7cd135b1581622eb73230663cf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:34 +0000
Subject: [PATCH 44/45] fix: variant index is a varuint32, not a single byte

Variants with more than 128 alternatives could not be decoded.
---
 pkg/abi/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 54f1f75..a0e671f 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -117,7 +117,7 @@ func (dec *Decoder) DecodeVariant(v interface{}) error {
 		return fmt.Errorf("abi: invalid variant type, unable to decode into %s", val.Type())
 	}
 	// read variant index
-	vIdx, err := dec.ReadByte()
+	vIdx, err := dec.ReadVaruint()
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 49e63404948087f75849ece2b563ea52117a66e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:31 +0000
Subject: [PATCH 45/45] fix: refused text sets 128-bit integers to zero

---
 pkg/chain/numbers.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pkg/chain/numbers.go b/pkg/chain/numbers.go
index 0f05c46..5d984d9 100644
--- a/pkg/chain/numbers.go
+++ b/pkg/chain/numbers.go
@@ -207,15 +207,21 @@ func (f128 Float128) MarshalText() (text []byte, err error) {
 // encoding.TextUnmarshaler conformance
 
 func (u128 *Uint128) UnmarshalText(text []byte) error {
-	var err error
-	*u128, err = NewUint128FromString(string(text))
-	return err
+	v, err := NewUint128FromString(string(text))
+	if err != nil {
+		return err
+	}
+	*u128 = v
+	return nil
 }
 
 func (i128 *Int128) UnmarshalText(text []byte) error {
-	var err error
-	*i128, err = NewInt128FromString(string(text))
-	return err
+	v, err := NewInt128FromString(string(text))
+	if err != nil {
+		return err
+	}
+	*i128 = v
+	return nil
 }
 
 func (f128 *Float128) UnmarshalText(text []byte) error {
-- 
2.43.0


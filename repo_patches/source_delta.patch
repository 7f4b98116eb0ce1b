From 9fd8673deef47932849bf2f16aed46edebf4b004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:38 +0000
Subject: [PATCH 01/40] fix: varint writers no longer panic on values needing 9
 or 10 bytes

---
 encoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoder.go b/encoder.go
index 37a7775..a8ebcee 100644
--- a/encoder.go
+++ b/encoder.go
@@ -152,7 +152,7 @@ func (e *Encoder) WriteUVarInt(v int) (err error) {
 		zlog.Debug("encode: write uvarint", zap.Int("val", v))
 	}
 
-	buf := make([]byte, 8)
+	buf := make([]byte, binary.MaxVarintLen64)
 	l := binary.PutUvarint(buf, uint64(v))
 	return e.toWriter(buf[:l])
 }
@@ -162,7 +162,7 @@ func (e *Encoder) WriteVarInt(v int) (err error) {
 		zlog.Debug("encode: write varint", zap.Int("val", v))
 	}
 
-	buf := make([]byte, 8)
+	buf := make([]byte, binary.MaxVarintLen64)
 	l := binary.PutVarint(buf, int64(v))
 	return e.toWriter(buf[:l])
 }
-- 
2.43.0


From 55ce9a488d16b09686887652bcf27bcb7a7da09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:40 +0000
Subject: [PATCH 02/40] fix: refuse compact-u16 lengths above 65535 instead of
 omitting the prefix

---
 encoder.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/encoder.go b/encoder.go
index a8ebcee..13440a2 100644
--- a/encoder.go
+++ b/encoder.go
@@ -136,9 +136,7 @@ func (e *Encoder) WriteLength(length int) error {
 			return err
 		}
 	case EncodingCompactU16:
-		var buf []byte
-		EncodeCompactU16Length(&buf, length)
-		if err := e.WriteBytes(buf, false); err != nil {
+		if err := e.WriteCompactU16(length); err != nil {
 			return err
 		}
 	default:
@@ -353,7 +351,9 @@ func (e *Encoder) WriteCompactU16(ln int) (err error) {
 		zlog.Debug("encode: write compact-u16", zap.Int("val", ln))
 	}
 	buf := make([]byte, 0)
-	EncodeCompactU16Length(&buf, ln)
+	if err := EncodeCompactU16Length(&buf, ln); err != nil {
+		return err
+	}
 	return e.toWriter(buf)
 }
 
-- 
2.43.0


From ef39bb8f7e57541fe67fb6d9acb6254ad726b5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:42 +0000
Subject: [PATCH 03/40] fix: encode every borsh complex-enum variant the
 decoder can read back

---
 encoder_borsh.go | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/encoder_borsh.go b/encoder_borsh.go
index c1cc611..e34d31f 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -257,20 +257,7 @@ func (enc *Encoder) encodeComplexEnumBorsh(rv reflect.Value) error {
 	if int(enum)+1 >= t.NumField() {
 		return errors.New("complex enum too large")
 	}
-	// Enum is empty
-	field := rv.Field(int(enum) + 1)
-	if field.Kind() == reflect.Ptr {
-		field = field.Elem()
-	}
-	if field.Kind() == reflect.Struct {
-		return enc.encodeStructBorsh(field.Type(), field)
-	}
-	// Encode the value if it's a primitive type
-	isPrimitive, err := enc.encodePrimitive(field, nil)
-	if isPrimitive {
-		return err
-	}
-	return nil
+	return enc.encodeBorsh(rv.Field(int(enum)+1), nil)
 }
 
 type BorshEnum uint8
-- 
2.43.0


From 56e5f653c8bbc467e2fba945a708c6d46afad888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:23 +0000
Subject: [PATCH 04/40] fix: optional value-type fields with a custom
 unmarshaler no longer panic on decode

---
 decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index c843348..3a50c41 100644
--- a/decoder.go
+++ b/decoder.go
@@ -743,7 +743,7 @@ func indirect(v reflect.Value, decodingNull bool) (BinaryUnmarshaler, reflect.Va
 		if v.IsNil() {
 			v.Set(reflect.New(v.Type().Elem()))
 		}
-		if v.Type().NumMethod() > 0 && v.CanInterface() {
+		if !decodingNull && v.Type().NumMethod() > 0 && v.CanInterface() {
 			if u, ok := v.Interface().(BinaryUnmarshaler); ok {
 				return u, reflect.Value{}
 			}
-- 
2.43.0


From 4dd358fd72621657b1c8dc53aec07f92545764b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:24 +0000
Subject: [PATCH 05/40] fix: borsh decoding of custom-unmarshaler fields
 honours option, coption, byte order and sizeof

---
 decoder_borsh.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/decoder_borsh.go b/decoder_borsh.go
index bcac383..add780e 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -410,8 +410,10 @@ func (dec *Decoder) decodeStructBorsh(rt reflect.Type, rv reflect.Value) (err er
 
 		rt := v.Type()
 		ptrImplements := reflect.PtrTo(rt).Implements(unmarshalableType)
-		vImplements := rt.Implements(unmarshalableType)
-		if ptrImplements || vImplements {
+		vImplements := rt.Kind() == reflect.Ptr && rt.Implements(unmarshalableType)
+		if (ptrImplements || vImplements) && !fieldTag.Option && !fieldTag.COption {
+			// Make the options of this field (e.g. the byte order) visible to the unmarshaler:
+			dec.currentFieldOpt = option
 			switch {
 			case ptrImplements:
 				m := reflect.New(rt)
@@ -421,7 +423,6 @@ func (dec *Decoder) decodeStructBorsh(rt reflect.Type, rv reflect.Value) (err er
 					return err
 				}
 				v.Set(reflect.ValueOf(val).Elem())
-				continue
 			case vImplements:
 				m := reflect.New(rt.Elem())
 				val := m.Interface()
@@ -430,11 +431,8 @@ func (dec *Decoder) decodeStructBorsh(rt reflect.Type, rv reflect.Value) (err er
 					return err
 				}
 				v.Set(reflect.ValueOf(val))
-				continue
 			}
-		}
-
-		if err = dec.decodeBorsh(v, option); err != nil {
+		} else if err = dec.decodeBorsh(v, option); err != nil {
 			return fmt.Errorf("error while decoding %q field: %w", structField.Name, err)
 		}
 
-- 
2.43.0


From d1cdc82eb1d7623b0c4ce23d5eac8134bb060cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:44 +0000
Subject: [PATCH 06/40] fix: decoding into a nil pointer returns
 InvalidDecoderError instead of panicking

---
 decoder_bin.go         | 2 +-
 decoder_borsh.go       | 2 +-
 decoder_compact-u16.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoder_bin.go b/decoder_bin.go
index ca58676..4e500ed 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -28,7 +28,7 @@ import (
 
 func (dec *Decoder) decodeWithOptionBin(v interface{}, option *option) (err error) {
 	rv := reflect.ValueOf(v)
-	if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return &InvalidDecoderError{reflect.TypeOf(v)}
 	}
 
diff --git a/decoder_borsh.go b/decoder_borsh.go
index add780e..9a503e3 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -28,7 +28,7 @@ import (
 
 func (dec *Decoder) decodeWithOptionBorsh(v interface{}, option *option) (err error) {
 	rv := reflect.ValueOf(v)
-	if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return &InvalidDecoderError{reflect.TypeOf(v)}
 	}
 
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 13396dd..7801bde 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -27,7 +27,7 @@ import (
 
 func (dec *Decoder) decodeWithOptionCompactU16(v interface{}, option *option) (err error) {
 	rv := reflect.ValueOf(v)
-	if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return &InvalidDecoderError{reflect.TypeOf(v)}
 	}
 
-- 
2.43.0


From db9cd625520b0e1da3d475bf3dd747a179126fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:45 +0000
Subject: [PATCH 07/40] fix: SetPosition rejects positions that overflow int

---
 decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 3a50c41..b35f574 100644
--- a/decoder.go
+++ b/decoder.go
@@ -660,7 +660,7 @@ func (dec *Decoder) SkipBytes(count uint) error {
 }
 
 func (dec *Decoder) SetPosition(idx uint) error {
-	if int(idx) < len(dec.data) {
+	if idx < uint(len(dec.data)) {
 		dec.pos = int(idx)
 		return nil
 	}
-- 
2.43.0


From aed999bc66f8957a1665c9c43a451b224e4661a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:47 +0000
Subject: [PATCH 08/40] fix: borsh maps keyed by named 64-bit integer types no
 longer panic on encode

---
 encoder_borsh.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoder_borsh.go b/encoder_borsh.go
index e34d31f..6bd18b5 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -367,11 +367,11 @@ func vComp(keys []reflect.Value) func(int, int) bool {
 		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32:
 			return a.Int() < b.Int()
 		case reflect.Int64:
-			return a.Interface().(int64) < b.Interface().(int64)
+			return a.Int() < b.Int()
 		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32:
 			return a.Uint() < b.Uint()
 		case reflect.Uint64:
-			return a.Interface().(uint64) < b.Interface().(uint64)
+			return a.Uint() < b.Uint()
 		case reflect.Float32, reflect.Float64:
 			return a.Float() < b.Float()
 		case reflect.String:
-- 
2.43.0


From 67182a88f8ec5bfb2de47e932c95cfbe39fe49fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:08 +0000
Subject: [PATCH 09/40] fix: sizeof counts that are negative or exceed the
 slice are errors, not panics

---
 decoder_bin.go         | 2 +-
 decoder_borsh.go       | 2 +-
 decoder_compact-u16.go | 2 +-
 encoder_bin.go         | 3 +++
 encoder_borsh.go       | 3 +++
 encoder_compact-u16.go | 3 +++
 6 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/decoder_bin.go b/decoder_bin.go
index 4e500ed..910a04e 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -189,7 +189,7 @@ func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
 			zlog.Debug("reading slice", zap.Int("len", l), typeField("type", rv))
 		}
 
-		if l > dec.Remaining() {
+		if l < 0 || l > dec.Remaining() {
 			return io.ErrUnexpectedEOF
 		}
 
diff --git a/decoder_borsh.go b/decoder_borsh.go
index 9a503e3..023aa3e 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -228,7 +228,7 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 			// Empty slices are left nil
 			return
 		}
-		if l > dec.Remaining() {
+		if l < 0 || l > dec.Remaining() {
 			return io.ErrUnexpectedEOF
 		}
 
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 7801bde..9f6f67b 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -188,7 +188,7 @@ func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error)
 			zlog.Debug("reading slice", zap.Int("len", l), typeField("type", rv))
 		}
 
-		if l > dec.Remaining() {
+		if l < 0 || l > dec.Remaining() {
 			return io.ErrUnexpectedEOF
 		}
 
diff --git a/encoder_bin.go b/encoder_bin.go
index 4ba95ec..541ad2a 100644
--- a/encoder_bin.go
+++ b/encoder_bin.go
@@ -125,6 +125,9 @@ func (e *Encoder) encodeBin(rv reflect.Value, opt *option) (err error) {
 		var l int
 		if opt.hasSizeOfSlice() {
 			l = opt.getSizeOfSlice()
+			if l < 0 || l > rv.Len() {
+				return fmt.Errorf("encode: sizeof value %d does not fit a slice of %d elements", l, rv.Len())
+			}
 			if traceEnabled {
 				zlog.Debug("encode: slice with sizeof set", zap.Int("size_of", l))
 			}
diff --git a/encoder_borsh.go b/encoder_borsh.go
index 6bd18b5..6156a10 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -170,6 +170,9 @@ func (e *Encoder) encodeBorsh(rv reflect.Value, opt *option) (err error) {
 		var l int
 		if opt.hasSizeOfSlice() {
 			l = opt.getSizeOfSlice()
+			if l < 0 || l > rv.Len() {
+				return fmt.Errorf("encode: sizeof value %d does not fit a slice of %d elements", l, rv.Len())
+			}
 			if traceEnabled {
 				zlog.Debug("encode: slice with sizeof set", zap.Int("size_of", l))
 			}
diff --git a/encoder_compact-u16.go b/encoder_compact-u16.go
index 2616177..c985202 100644
--- a/encoder_compact-u16.go
+++ b/encoder_compact-u16.go
@@ -123,6 +123,9 @@ func (e *Encoder) encodeCompactU16(rv reflect.Value, opt *option) (err error) {
 		var l int
 		if opt.hasSizeOfSlice() {
 			l = opt.getSizeOfSlice()
+			if l < 0 || l > rv.Len() {
+				return fmt.Errorf("encode: sizeof value %d does not fit a slice of %d elements", l, rv.Len())
+			}
 			if traceEnabled {
 				zlog.Debug("encode: slice with sizeof set", zap.Int("size_of", l))
 			}
-- 
2.43.0


From 31a605f105fcb79b378c5c14bee7707e79b02e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:10 +0000
Subject: [PATCH 10/40] fix: decoding an empty map or slice clears what the
 target held before

---
 decoder_bin.go         | 1 +
 decoder_borsh.go       | 2 ++
 decoder_compact-u16.go | 1 +
 3 files changed, 4 insertions(+)

diff --git a/decoder_bin.go b/decoder_bin.go
index 910a04e..f320d19 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -224,6 +224,7 @@ func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
 		}
 		if l == 0 {
 			// If the map has no content, keep it nil.
+			rv.Set(reflect.Zero(rt))
 			return nil
 		}
 		rv.Set(reflect.MakeMap(rt))
diff --git a/decoder_borsh.go b/decoder_borsh.go
index 023aa3e..895a19b 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -226,6 +226,7 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 
 		if l == 0 {
 			// Empty slices are left nil
+			rv.Set(reflect.Zero(rt))
 			return
 		}
 		if l < 0 || l > dec.Remaining() {
@@ -263,6 +264,7 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 		}
 		if l == 0 {
 			// If the map has no content, keep it nil.
+			rv.Set(reflect.Zero(rt))
 			return nil
 		}
 		rv.Set(reflect.MakeMap(rt))
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 9f6f67b..dac86c6 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -223,6 +223,7 @@ func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error)
 		}
 		if l == 0 {
 			// If the map has no content, keep it nil.
+			rv.Set(reflect.Zero(rt))
 			return nil
 		}
 		rv.Set(reflect.MakeMap(rt))
-- 
2.43.0


From 77e9a123ffc748f357b52c84e7956bc1abe973db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:06 +0000
Subject: [PATCH 11/40] fix: 128-bit JSON parsing rejects out-of-range values
 and reads hex and big-endian values right

---
 u128.go | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/u128.go b/u128.go
index 7ea82d9..23e103f 100644
--- a/u128.go
+++ b/u128.go
@@ -125,25 +125,24 @@ func (i *Uint128) unmarshalJSON_decimal(s string) error {
 	if !ok {
 		return fmt.Errorf("could not parse %q", s)
 	}
-	oo := parsed.FillBytes(make([]byte, 16))
-	ReverseBytes(oo)
-
-	dec := NewBinDecoder(oo)
-
-	out, err := dec.ReadUint128(i.getByteOrder())
-	if err != nil {
-		return err
+	if parsed.Sign() < 0 || parsed.BitLen() > 128 {
+		return fmt.Errorf("value %q does not fit in 128 bits", s)
 	}
-	i.Lo = out.Lo
-	i.Hi = out.Hi
+	i.setBytes(parsed.FillBytes(make([]byte, 16)))
 
 	return nil
 }
 
+// setBytes sets the value from its 16-byte big-endian representation (see Bytes).
+func (i *Uint128) setBytes(buf []byte) {
+	i.Hi = binary.BigEndian.Uint64(buf[:8])
+	i.Lo = binary.BigEndian.Uint64(buf[8:])
+}
+
 func (i *Uint128) unmarshalJSON_hex(s string) error {
 	truncatedVal := s[2:]
-	if len(truncatedVal) != 16 {
-		return fmt.Errorf("uint128 expects 16 characters after 0x, had %v", len(truncatedVal))
+	if len(truncatedVal) != 32 {
+		return fmt.Errorf("uint128 expects 32 characters after 0x, had %v", len(truncatedVal))
 	}
 
 	data, err := hex.DecodeString(truncatedVal)
@@ -151,14 +150,8 @@ func (i *Uint128) unmarshalJSON_hex(s string) error {
 		return err
 	}
 
-	order := i.getByteOrder()
-	if order == binary.LittleEndian {
-		i.Lo = order.Uint64(data[:8])
-		i.Hi = order.Uint64(data[8:])
-	} else {
-		i.Hi = order.Uint64(data[:8])
-		i.Lo = order.Uint64(data[8:])
-	}
+	// Same notation as HexString:
+	i.setBytes(data)
 
 	return nil
 }
-- 
2.43.0


From c5628185b24e0099de444efaed57460f1b936694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:08 +0000
Subject: [PATCH 12/40] fix: 16- and 32-bit varint reads reject values that do
 not fit instead of truncating

---
 decoder.go | 15 +++++++++++++++
 types.go   |  2 +-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index b35f574..6e3f2ef 100644
--- a/decoder.go
+++ b/decoder.go
@@ -156,6 +156,9 @@ func sizeof(t reflect.Type, v reflect.Value) int {
 
 var ErrVarIntBufferSize = errors.New("varint: invalid buffer size")
 
+// ErrVarIntOverflow is returned when a varint does not fit the requested integer size.
+var ErrVarIntOverflow = errors.New("varint: value overflows the requested integer size")
+
 func (dec *Decoder) ReadUvarint64() (uint64, error) {
 	l, read := binary.Uvarint(dec.data[dec.pos:])
 	if read <= 0 {
@@ -185,6 +188,9 @@ func (dec *Decoder) ReadVarint32() (out int32, err error) {
 	if err != nil {
 		return out, err
 	}
+	if n < math.MinInt32 || n > math.MaxInt32 {
+		return 0, ErrVarIntOverflow
+	}
 	out = int32(n)
 	if traceEnabled {
 		zlog.Debug("decode: read varint32", zap.Int32("val", out))
@@ -197,6 +203,9 @@ func (dec *Decoder) ReadUvarint32() (out uint32, err error) {
 	if err != nil {
 		return out, err
 	}
+	if n > math.MaxUint32 {
+		return 0, ErrVarIntOverflow
+	}
 	out = uint32(n)
 	if traceEnabled {
 		zlog.Debug("decode: read uvarint32", zap.Uint32("val", out))
@@ -209,6 +218,9 @@ func (dec *Decoder) ReadVarint16() (out int16, err error) {
 	if err != nil {
 		return out, err
 	}
+	if n < math.MinInt16 || n > math.MaxInt16 {
+		return 0, ErrVarIntOverflow
+	}
 	out = int16(n)
 	if traceEnabled {
 		zlog.Debug("decode: read varint16", zap.Int16("val", out))
@@ -221,6 +233,9 @@ func (dec *Decoder) ReadUvarint16() (out uint16, err error) {
 	if err != nil {
 		return out, err
 	}
+	if n > math.MaxUint16 {
+		return 0, ErrVarIntOverflow
+	}
 	out = uint16(n)
 	if traceEnabled {
 		zlog.Debug("decode: read uvarint16", zap.Uint16("val", out))
diff --git a/types.go b/types.go
index db56ba3..b739dca 100644
--- a/types.go
+++ b/types.go
@@ -144,7 +144,7 @@ func (o Varuint16) MarshalWithEncoder(encoder *Encoder) error {
 type Varuint32 uint32
 
 func (o *Varuint32) UnmarshalWithDecoder(decoder *Decoder) error {
-	value, err := decoder.ReadUvarint64()
+	value, err := decoder.ReadUvarint32()
 	if err != nil {
 		return fmt.Errorf("varuint32: %s", err)
 	}
-- 
2.43.0


From a4ce6289ede94b95aa6013c64cf3792d610e2bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:10 +0000
Subject: [PATCH 13/40] fix: Int64, Uint64 and JSONFloat64 marshalers work on a
 fresh encoder or decoder

---
 decoder.go |  8 ++++++++
 encoder.go |  8 ++++++++
 types.go   | 12 ++++++------
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/decoder.go b/decoder.go
index 6e3f2ef..9c76ed6 100644
--- a/decoder.go
+++ b/decoder.go
@@ -137,6 +137,14 @@ func (dec *Decoder) Decode(v interface{}) (err error) {
 	}
 }
 
+// fieldOrder returns the byte order of the field being decoded.
+func (dec *Decoder) fieldOrder() binary.ByteOrder {
+	if dec.currentFieldOpt == nil {
+		return defaultByteOrder
+	}
+	return dec.currentFieldOpt.Order
+}
+
 func sizeof(t reflect.Type, v reflect.Value) int {
 	switch t.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
diff --git a/encoder.go b/encoder.go
index 13440a2..55e630c 100644
--- a/encoder.go
+++ b/encoder.go
@@ -85,6 +85,14 @@ func (e *Encoder) Encode(v interface{}) (err error) {
 	}
 }
 
+// fieldOrder returns the byte order of the field being encoded.
+func (e *Encoder) fieldOrder() binary.ByteOrder {
+	if e.currentFieldOpt == nil {
+		return defaultByteOrder
+	}
+	return e.currentFieldOpt.Order
+}
+
 func (e *Encoder) toWriter(bytes []byte) (err error) {
 	e.count += len(bytes)
 	if traceEnabled {
diff --git a/types.go b/types.go
index b739dca..20c8c22 100644
--- a/types.go
+++ b/types.go
@@ -207,7 +207,7 @@ func (f *JSONFloat64) UnmarshalJSON(data []byte) error {
 }
 
 func (f *JSONFloat64) UnmarshalWithDecoder(dec *Decoder) error {
-	value, err := dec.ReadFloat64(dec.currentFieldOpt.Order)
+	value, err := dec.ReadFloat64(dec.fieldOrder())
 	if err != nil {
 		return err
 	}
@@ -217,7 +217,7 @@ func (f *JSONFloat64) UnmarshalWithDecoder(dec *Decoder) error {
 }
 
 func (f JSONFloat64) MarshalWithEncoder(enc *Encoder) error {
-	return enc.WriteFloat64(float64(f), enc.currentFieldOpt.Order)
+	return enc.WriteFloat64(float64(f), enc.fieldOrder())
 }
 
 type Int64 int64
@@ -267,7 +267,7 @@ func (i *Int64) UnmarshalJSON(data []byte) error {
 }
 
 func (i *Int64) UnmarshalWithDecoder(dec *Decoder) error {
-	value, err := dec.ReadInt64(dec.currentFieldOpt.Order)
+	value, err := dec.ReadInt64(dec.fieldOrder())
 	if err != nil {
 		return err
 	}
@@ -277,7 +277,7 @@ func (i *Int64) UnmarshalWithDecoder(dec *Decoder) error {
 }
 
 func (i Int64) MarshalWithEncoder(enc *Encoder) error {
-	return enc.WriteInt64(int64(i), enc.currentFieldOpt.Order)
+	return enc.WriteInt64(int64(i), enc.fieldOrder())
 }
 
 type Uint64 uint64
@@ -327,7 +327,7 @@ func (i *Uint64) UnmarshalJSON(data []byte) error {
 }
 
 func (i *Uint64) UnmarshalWithDecoder(dec *Decoder) error {
-	value, err := dec.ReadUint64(dec.currentFieldOpt.Order)
+	value, err := dec.ReadUint64(dec.fieldOrder())
 	if err != nil {
 		return err
 	}
@@ -337,5 +337,5 @@ func (i *Uint64) UnmarshalWithDecoder(dec *Decoder) error {
 }
 
 func (i Uint64) MarshalWithEncoder(enc *Encoder) error {
-	return enc.WriteUint64(uint64(i), enc.currentFieldOpt.Order)
+	return enc.WriteUint64(uint64(i), enc.fieldOrder())
 }
-- 
2.43.0


From dce32d9862b6cea6afb89af2aed680eece3a5a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:11 +0000
Subject: [PATCH 14/40] fix: WriteByWrite copies what it records, as io.Writer
 requires

---
 tools.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools.go b/tools.go
index 9c7c8b3..07a19bd 100644
--- a/tools.go
+++ b/tools.go
@@ -50,7 +50,7 @@ func NewWriteByWrite(name string) *WriteByWrite {
 }
 
 func (rec *WriteByWrite) Write(b []byte) (int, error) {
-	rec.writes = append(rec.writes, b)
+	rec.writes = append(rec.writes, append([]byte(nil), b...))
 	return len(b), nil
 }
 
-- 
2.43.0


From b8d5ac9c0773d66548882de76535961aae36ca71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:13 +0000
Subject: [PATCH 15/40] fix: Written counts the bytes the writer accepted

---
 encoder.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/encoder.go b/encoder.go
index 55e630c..485b66f 100644
--- a/encoder.go
+++ b/encoder.go
@@ -94,11 +94,7 @@ func (e *Encoder) fieldOrder() binary.ByteOrder {
 }
 
 func (e *Encoder) toWriter(bytes []byte) (err error) {
-	e.count += len(bytes)
-	if traceEnabled {
-		zlog.Debug("	> encode: appending", zap.Stringer("hex", HexBytes(bytes)), zap.Int("pos", e.count))
-	}
-	_, err = e.output.Write(bytes)
+	_, err = e.Write(bytes)
 	return
 }
 
@@ -123,11 +119,12 @@ func (e *Encoder) WriteBytes(b []byte, writeLength bool) error {
 }
 
 func (e *Encoder) Write(b []byte) (n int, err error) {
-	e.count += len(b)
+	n, err = e.output.Write(b)
+	e.count += n
 	if traceEnabled {
-		zlog.Debug("	> encode: appending", zap.Stringer("hex", HexBytes(b)), zap.Int("pos", e.count))
+		zlog.Debug("	> encode: appended", zap.Stringer("hex", HexBytes(b)), zap.Int("pos", e.count))
 	}
-	return e.output.Write(b)
+	return n, err
 }
 
 func (e *Encoder) WriteLength(length int) error {
-- 
2.43.0


From dbb00cd2154229cb80dd6e9afa9549b4a0cb7a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:15 +0000
Subject: [PATCH 16/40] fix: borsh encoding of a pointer to a sizeof-counted
 slice omits the length prefix

---
 encoder_borsh.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoder_borsh.go b/encoder_borsh.go
index 6156a10..81a0b22 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -131,9 +131,9 @@ func (e *Encoder) encodeBorsh(rv reflect.Value, opt *option) (err error) {
 	case reflect.Ptr:
 		if rv.IsNil() {
 			el := reflect.New(rv.Type().Elem()).Elem()
-			return e.encodeBorsh(el, nil)
+			return e.encodeBorsh(el, opt)
 		} else {
-			return e.encodeBorsh(rv.Elem(), nil)
+			return e.encodeBorsh(rv.Elem(), opt)
 		}
 	case reflect.Interface:
 		// skip
-- 
2.43.0


From 319b9e60e850456c0c0d76ea63c0ee2ea59a1d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:36 +0000
Subject: [PATCH 17/40] fix: case conversion slices words at byte offsets so
 non-ASCII names are not garbled

---
 heck.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/heck.go b/heck.go
index 5053c1e..ba1c74e 100644
--- a/heck.go
+++ b/heck.go
@@ -167,7 +167,9 @@ func ToSnakeForSighash(s string) string {
 
 type reader struct {
 	runes []rune
-	index int
+	// offsets holds the byte offset of each rune, to slice the string with.
+	offsets []int
+	index   int
 }
 
 func splitStringByRune(s string) []rune {
@@ -189,14 +191,19 @@ func iterateStringAsRunes(s string, callback func(r rune) bool) {
 }
 
 func newReader(s string) *reader {
+	offsets := make([]int, 0, len(s))
+	for offset := range s {
+		offsets = append(offsets, offset)
+	}
 	return &reader{
-		runes: splitStringByRune(s),
-		index: -1,
+		runes:   splitStringByRune(s),
+		offsets: offsets,
+		index:   -1,
 	}
 }
 
 func (r reader) This() (int, rune) {
-	return r.index, r.runes[r.index]
+	return r.offsets[r.index], r.runes[r.index]
 }
 
 func (r reader) HasNext() bool {
@@ -206,14 +213,14 @@ func (r reader) HasNext() bool {
 func (r *reader) Next() (int, rune) {
 	if r.HasNext() {
 		r.index++
-		return r.index, r.runes[r.index]
+		return r.offsets[r.index], r.runes[r.index]
 	}
 	return -1, rune(0)
 }
 
 func (r reader) Peek() (int, rune) {
 	if r.HasNext() {
-		return r.index + 1, r.runes[r.index+1]
+		return r.offsets[r.index+1], r.runes[r.index+1]
 	}
 	return -1, rune(0)
 }
-- 
2.43.0


From bc3651193e77cd3ca8cc29e6f3646711498b0fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:23 +0000
Subject: [PATCH 18/40] fix: appending to a decoded byte slice no longer
 overwrites the bytes that follow it

---
 decoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index 9c76ed6..a0d08a7 100644
--- a/decoder.go
+++ b/decoder.go
@@ -261,7 +261,7 @@ func (dec *Decoder) ReadByteSlice() (out []byte, err error) {
 		return nil, fmt.Errorf("byte array: varlen=%d, missing %d bytes", length, dec.pos+length-len(dec.data))
 	}
 
-	out = dec.data[dec.pos : dec.pos+length]
+	out = dec.data[dec.pos : dec.pos+length : dec.pos+length]
 	dec.pos += length
 	if traceEnabled {
 		zlog.Debug("decode: read byte array", zap.Stringer("hex", HexBytes(out)))
@@ -311,7 +311,7 @@ func readNBytes(n int, reader *Decoder) ([]byte, error) {
 	if reader.pos+n > len(reader.data) {
 		return nil, fmt.Errorf("not enough data: %d bytes missing", reader.pos+n-len(reader.data))
 	}
-	out := reader.data[reader.pos : reader.pos+n]
+	out := reader.data[reader.pos : reader.pos+n : reader.pos+n]
 	reader.pos += n
 	return out, nil
 }
@@ -384,7 +384,7 @@ func (dec *Decoder) Peek(n int) (out []byte, err error) {
 		return
 	}
 
-	out = dec.data[dec.pos : dec.pos+n]
+	out = dec.data[dec.pos : dec.pos+n : dec.pos+n]
 	if traceEnabled {
 		zlog.Debug("decode: peek", zap.Int("n", n), zap.Binary("out", out))
 	}
-- 
2.43.0


From 9acb6a5cee6b2c1a82c4d476646add94d2ae4b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:25 +0000
Subject: [PATCH 19/40] fix: the byte order of a field no longer leaks into
 values encoded or decoded after it

---
 decoder_bin.go         | 1 +
 decoder_borsh.go       | 1 +
 decoder_compact-u16.go | 1 +
 encoder_bin.go         | 1 +
 encoder_borsh.go       | 1 +
 encoder_compact-u16.go | 1 +
 6 files changed, 6 insertions(+)

diff --git a/decoder_bin.go b/decoder_bin.go
index f320d19..6a62003 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -45,6 +45,7 @@ func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
 	if opt == nil {
 		opt = newDefaultOption()
 	}
+	defer func(prev *option) { dec.currentFieldOpt = prev }(dec.currentFieldOpt)
 	dec.currentFieldOpt = opt
 
 	unmarshaler, rv := indirect(rv, opt.is_Optional())
diff --git a/decoder_borsh.go b/decoder_borsh.go
index 895a19b..26ca527 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -45,6 +45,7 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 	if opt == nil {
 		opt = newDefaultOption()
 	}
+	defer func(prev *option) { dec.currentFieldOpt = prev }(dec.currentFieldOpt)
 	dec.currentFieldOpt = opt
 
 	unmarshaler, rv := indirect(rv, opt.is_Optional() || opt.is_COptional())
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index dac86c6..b082cac 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -44,6 +44,7 @@ func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error)
 	if opt == nil {
 		opt = newDefaultOption()
 	}
+	defer func(prev *option) { dec.currentFieldOpt = prev }(dec.currentFieldOpt)
 	dec.currentFieldOpt = opt
 
 	unmarshaler, rv := indirect(rv, opt.is_Optional())
diff --git a/encoder_bin.go b/encoder_bin.go
index 541ad2a..810c846 100644
--- a/encoder_bin.go
+++ b/encoder_bin.go
@@ -29,6 +29,7 @@ func (e *Encoder) encodeBin(rv reflect.Value, opt *option) (err error) {
 	if opt == nil {
 		opt = newDefaultOption()
 	}
+	defer func(prev *option) { e.currentFieldOpt = prev }(e.currentFieldOpt)
 	e.currentFieldOpt = opt
 
 	if traceEnabled {
diff --git a/encoder_borsh.go b/encoder_borsh.go
index 81a0b22..6dd6650 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -67,6 +67,7 @@ func (e *Encoder) encodeBorsh(rv reflect.Value, opt *option) (err error) {
 	if opt == nil {
 		opt = newDefaultOption()
 	}
+	defer func(prev *option) { e.currentFieldOpt = prev }(e.currentFieldOpt)
 	e.currentFieldOpt = opt
 
 	if traceEnabled {
diff --git a/encoder_compact-u16.go b/encoder_compact-u16.go
index c985202..3159ed2 100644
--- a/encoder_compact-u16.go
+++ b/encoder_compact-u16.go
@@ -28,6 +28,7 @@ func (e *Encoder) encodeCompactU16(rv reflect.Value, opt *option) (err error) {
 	if opt == nil {
 		opt = newDefaultOption()
 	}
+	defer func(prev *option) { e.currentFieldOpt = prev }(e.currentFieldOpt)
 	e.currentFieldOpt = opt
 
 	if traceEnabled {
-- 
2.43.0


From 3180d83ec4bf485589fed89c80b4a42bcf6679bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:32 +0000
Subject: [PATCH 20/40] fix: borsh maps whose keys cannot be ordered are an
 error, not a panic

---
 encoder_borsh.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/encoder_borsh.go b/encoder_borsh.go
index 6dd6650..b8b1acc 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -212,6 +212,9 @@ func (e *Encoder) encodeBorsh(rv reflect.Value, opt *option) (err error) {
 
 	case reflect.Map:
 		keys := rv.MapKeys()
+		if len(keys) > 1 && !isSortableKind(rt.Key().Kind()) {
+			return fmt.Errorf("encode: unsupported map key type %q", rt.Key())
+		}
 		sort.Slice(keys, vComp(keys))
 
 		keyCount := rv.Len()
@@ -360,6 +363,17 @@ func (e *Encoder) encodeStructBorsh(rt reflect.Type, rv reflect.Value) (err erro
 	return nil
 }
 
+// isSortableKind tells whether vComp can order map keys of this kind.
+func isSortableKind(k reflect.Kind) bool {
+	switch k {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
+		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,
+		reflect.Float32, reflect.Float64, reflect.String, reflect.Interface:
+		return true
+	}
+	return false
+}
+
 func vComp(keys []reflect.Value) func(int, int) bool {
 	return func(i int, j int) bool {
 		a, b := keys[i], keys[j]
-- 
2.43.0


From 58e0f6a643127fa727c42f914c0988ae15d59b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:33 +0000
Subject: [PATCH 21/40] fix: borsh lengths above 32 bits are refused instead of
 truncated

---
 encoder.go       | 3 +++
 encoder_borsh.go | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/encoder.go b/encoder.go
index 485b66f..186f41f 100644
--- a/encoder.go
+++ b/encoder.go
@@ -137,6 +137,9 @@ func (e *Encoder) WriteLength(length int) error {
 			return err
 		}
 	case EncodingBorsh:
+		if length < 0 || uint64(length) > math.MaxUint32 {
+			return fmt.Errorf("encode: length %d does not fit the 32-bit borsh prefix", length)
+		}
 		if err := e.WriteUint32(uint32(length), LE); err != nil {
 			return err
 		}
diff --git a/encoder_borsh.go b/encoder_borsh.go
index b8b1acc..159a5d6 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -179,7 +179,7 @@ func (e *Encoder) encodeBorsh(rv reflect.Value, opt *option) (err error) {
 			}
 		} else {
 			l = rv.Len()
-			if err = e.WriteUint32(uint32(l), LE); err != nil {
+			if err = e.WriteLength(l); err != nil {
 				return
 			}
 		}
@@ -228,7 +228,7 @@ func (e *Encoder) encodeBorsh(rv reflect.Value, opt *option) (err error) {
 			zlog = zlog.Named("struct")
 		}
 
-		if err = e.WriteUint32(uint32(keyCount), LE); err != nil {
+		if err = e.WriteLength(keyCount); err != nil {
 			return
 		}
 
-- 
2.43.0


From eda7dc867d6ef60060af0a14e6036a5193a1f8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:05 +0000
Subject: [PATCH 22/40] fix: errors from deeply nested fields no longer take
 memory quadratic in the depth

---
 decoder_bin.go         |  2 +-
 decoder_borsh.go       |  2 +-
 decoder_compact-u16.go |  2 +-
 encoder_bin.go         |  2 +-
 encoder_borsh.go       |  2 +-
 encoder_compact-u16.go |  2 +-
 error.go               | 32 +++++++++++++++++++++++++++++++-
 7 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/decoder_bin.go b/decoder_bin.go
index 6a62003..0cc4e8b 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -336,7 +336,7 @@ func (dec *Decoder) decodeStructBin(rt reflect.Type, rv reflect.Value) (err erro
 		}
 
 		if err = dec.decodeBin(v, option); err != nil {
-			return fmt.Errorf("error while decoding %q field: %w", structField.Name, err)
+			return &fieldError{"decoding", structField.Name, err}
 		}
 
 		if fieldTag.SizeOf != "" {
diff --git a/decoder_borsh.go b/decoder_borsh.go
index 26ca527..8909fda 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -436,7 +436,7 @@ func (dec *Decoder) decodeStructBorsh(rt reflect.Type, rv reflect.Value) (err er
 				v.Set(reflect.ValueOf(val))
 			}
 		} else if err = dec.decodeBorsh(v, option); err != nil {
-			return fmt.Errorf("error while decoding %q field: %w", structField.Name, err)
+			return &fieldError{"decoding", structField.Name, err}
 		}
 
 		if fieldTag.SizeOf != "" {
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index b082cac..8ef7d41 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -335,7 +335,7 @@ func (dec *Decoder) decodeStructCompactU16(rt reflect.Type, rv reflect.Value) (e
 		}
 
 		if err = dec.decodeCompactU16(v, option); err != nil {
-			return fmt.Errorf("error while decoding %q field: %w", structField.Name, err)
+			return &fieldError{"decoding", structField.Name, err}
 		}
 
 		if fieldTag.SizeOf != "" {
diff --git a/encoder_bin.go b/encoder_bin.go
index 810c846..e25e75c 100644
--- a/encoder_bin.go
+++ b/encoder_bin.go
@@ -262,7 +262,7 @@ func (e *Encoder) encodeStructBin(rt reflect.Type, rv reflect.Value) (err error)
 		}
 
 		if err := e.encodeBin(rv, option); err != nil {
-			return fmt.Errorf("error while encoding %q field: %w", structField.Name, err)
+			return &fieldError{"encoding", structField.Name, err}
 		}
 	}
 	return nil
diff --git a/encoder_borsh.go b/encoder_borsh.go
index 159a5d6..25639cd 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -357,7 +357,7 @@ func (e *Encoder) encodeStructBorsh(rt reflect.Type, rv reflect.Value) (err erro
 		}
 
 		if err := e.encodeBorsh(rv, option); err != nil {
-			return fmt.Errorf("error while encoding %q field: %w", structField.Name, err)
+			return &fieldError{"encoding", structField.Name, err}
 		}
 	}
 	return nil
diff --git a/encoder_compact-u16.go b/encoder_compact-u16.go
index 3159ed2..5979a82 100644
--- a/encoder_compact-u16.go
+++ b/encoder_compact-u16.go
@@ -260,7 +260,7 @@ func (e *Encoder) encodeStructCompactU16(rt reflect.Type, rv reflect.Value) (err
 		}
 
 		if err := e.encodeCompactU16(rv, option); err != nil {
-			return fmt.Errorf("error while encoding %q field: %w", structField.Name, err)
+			return &fieldError{"encoding", structField.Name, err}
 		}
 	}
 	return nil
diff --git a/error.go b/error.go
index 40e448e..750b42f 100644
--- a/error.go
+++ b/error.go
@@ -14,7 +14,11 @@
 
 package bin
 
-import "reflect"
+import (
+	"fmt"
+	"reflect"
+	"strings"
+)
 
 // An InvalidDecoderError describes an invalid argument passed to Decoder.
 // (The argument to Decoder must be a non-nil pointer.)
@@ -32,3 +36,29 @@ func (e *InvalidDecoderError) Error() string {
 	}
 	return "decoder: Decode(nil " + e.Type.String() + ")"
 }
+
+// fieldError adds the name of the struct field being processed to an error.
+// The message is built on demand: a chain of them (one per nesting level) must
+// not hold a copy of the whole message at every level.
+type fieldError struct {
+	action string
+	field  string
+	err    error
+}
+
+func (e *fieldError) Error() string {
+	var msg strings.Builder
+	for {
+		fmt.Fprintf(&msg, "error while %s %q field: ", e.action, e.field)
+		inner, ok := e.err.(*fieldError)
+		if !ok {
+			msg.WriteString(e.err.Error())
+			return msg.String()
+		}
+		e = inner
+	}
+}
+
+func (e *fieldError) Unwrap() error {
+	return e.err
+}
-- 
2.43.0


From b9265e21baab6a40ee474b25747df990e3012a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:06 +0000
Subject: [PATCH 23/40] fix: hostile input for a recursive type is an error
 instead of a stack overflow

---
 decoder.go             | 9 +++++++++
 decoder_bin.go         | 8 +++++++-
 decoder_borsh.go       | 8 +++++++-
 decoder_compact-u16.go | 8 +++++++-
 4 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index a0d08a7..7159648 100644
--- a/decoder.go
+++ b/decoder.go
@@ -76,8 +76,17 @@ type Decoder struct {
 	currentFieldOpt *option
 
 	encoding Encoding
+
+	// depth is the number of nested values being decoded.
+	depth int
 }
 
+// maxDecodeDepth bounds how deep values can nest, so that hostile input for a
+// recursive type is an error instead of a stack overflow.
+const maxDecodeDepth = 100_000
+
+var errTooDeep = fmt.Errorf("decode: exceeded the maximum nesting depth of %d", maxDecodeDepth)
+
 // Reset resets the decoder to decode a new message.
 func (dec *Decoder) Reset(data []byte) {
 	dec.data = data
diff --git a/decoder_bin.go b/decoder_bin.go
index 0cc4e8b..70a92ee 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -45,8 +45,14 @@ func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
 	if opt == nil {
 		opt = newDefaultOption()
 	}
-	defer func(prev *option) { dec.currentFieldOpt = prev }(dec.currentFieldOpt)
+	defer func(prev *option) {
+		dec.currentFieldOpt = prev
+		dec.depth--
+	}(dec.currentFieldOpt)
 	dec.currentFieldOpt = opt
+	if dec.depth++; dec.depth > maxDecodeDepth {
+		return errTooDeep
+	}
 
 	unmarshaler, rv := indirect(rv, opt.is_Optional())
 
diff --git a/decoder_borsh.go b/decoder_borsh.go
index 8909fda..97a3fc1 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -45,8 +45,14 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 	if opt == nil {
 		opt = newDefaultOption()
 	}
-	defer func(prev *option) { dec.currentFieldOpt = prev }(dec.currentFieldOpt)
+	defer func(prev *option) {
+		dec.currentFieldOpt = prev
+		dec.depth--
+	}(dec.currentFieldOpt)
 	dec.currentFieldOpt = opt
+	if dec.depth++; dec.depth > maxDecodeDepth {
+		return errTooDeep
+	}
 
 	unmarshaler, rv := indirect(rv, opt.is_Optional() || opt.is_COptional())
 
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 8ef7d41..8058b23 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -44,8 +44,14 @@ func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error)
 	if opt == nil {
 		opt = newDefaultOption()
 	}
-	defer func(prev *option) { dec.currentFieldOpt = prev }(dec.currentFieldOpt)
+	defer func(prev *option) {
+		dec.currentFieldOpt = prev
+		dec.depth--
+	}(dec.currentFieldOpt)
 	dec.currentFieldOpt = opt
+	if dec.depth++; dec.depth > maxDecodeDepth {
+		return errTooDeep
+	}
 
 	unmarshaler, rv := indirect(rv, opt.is_Optional())
 
-- 
2.43.0


From bc2f900a9a05dddbfdfec7b6dac25fa1a369c621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:53 +0000
Subject: [PATCH 24/40] fix: arrays and slices of unsigned types with their own
 marshaler call it for each element

---
 decoder_bin.go         |  4 ++--
 decoder_borsh.go       |  4 ++--
 decoder_compact-u16.go |  4 ++--
 encoder.go             | 10 ++++++++++
 encoder_bin.go         |  4 ++--
 encoder_borsh.go       |  4 ++--
 encoder_compact-u16.go |  4 ++--
 7 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/decoder_bin.go b/decoder_bin.go
index 70a92ee..351ffc5 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -167,7 +167,7 @@ func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
 			zlog.Debug("decoding: reading array", zap.Int("length", l))
 		}
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := packedElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			if err := reflect_readArrayOfUint_(dec, l, k, rv, LE); err != nil {
 				return err
@@ -200,7 +200,7 @@ func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
 			return io.ErrUnexpectedEOF
 		}
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := packedElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			if err := reflect_readArrayOfUint_(dec, l, k, rv, LE); err != nil {
 				return err
diff --git a/decoder_borsh.go b/decoder_borsh.go
index 97a3fc1..9ca23c0 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -202,7 +202,7 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 			zlog.Debug("decoding: reading array", zap.Int("length", l))
 		}
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := packedElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			if err := reflect_readArrayOfUint_(dec, l, k, rv, LE); err != nil {
 				return err
@@ -240,7 +240,7 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 			return io.ErrUnexpectedEOF
 		}
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := packedElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			if err := reflect_readArrayOfUint_(dec, l, k, rv, LE); err != nil {
 				return err
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 8058b23..04603b2 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -166,7 +166,7 @@ func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error)
 			zlog.Debug("decoding: reading array", zap.Int("length", l))
 		}
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := packedElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			if err := reflect_readArrayOfUint_(dec, l, k, rv, LE); err != nil {
 				return err
@@ -199,7 +199,7 @@ func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error)
 			return io.ErrUnexpectedEOF
 		}
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := packedElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			if err := reflect_readArrayOfUint_(dec, l, k, rv, LE); err != nil {
 				return err
diff --git a/encoder.go b/encoder.go
index 186f41f..3b6b73e 100644
--- a/encoder.go
+++ b/encoder.go
@@ -401,6 +401,16 @@ func reflect_writeArrayOfUint64(e *Encoder, l int, rv reflect.Value, order binar
 	return e.WriteBytes(arr, false)
 }
 
+// packedElemKind returns the kind of the elements of an array or slice, or
+// reflect.Invalid if they marshal themselves, which means that they must be
+// handled one by one and never in bulk.
+func packedElemKind(rt reflect.Type) reflect.Kind {
+	if rt.Implements(marshalableType) && reflect.PtrTo(rt).Implements(unmarshalableType) {
+		return reflect.Invalid
+	}
+	return rt.Kind()
+}
+
 // reflect_writeArrayOfUint_ is used for writing arrays/slices of uints of any size.
 func reflect_writeArrayOfUint_(e *Encoder, l int, k reflect.Kind, rv reflect.Value, order binary.ByteOrder) error {
 	switch k {
diff --git a/encoder_bin.go b/encoder_bin.go
index e25e75c..d8ca981 100644
--- a/encoder_bin.go
+++ b/encoder_bin.go
@@ -108,7 +108,7 @@ func (e *Encoder) encodeBin(rv reflect.Value, opt *option) (err error) {
 			zlog.Debug("encode: array", zap.Int("length", l), zap.Stringer("type", rv.Kind()))
 		}
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := packedElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			// if it's a [n]byte, accumulate and write in one command:
 			if err := reflect_writeArrayOfUint_(e, l, k, rv, LE); err != nil {
@@ -146,7 +146,7 @@ func (e *Encoder) encodeBin(rv reflect.Value, opt *option) (err error) {
 
 		// we would want to skip to the correct head_offset
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := packedElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			// if it's a [n]byte, accumulate and write in one command:
 			if err := reflect_writeArrayOfUint_(e, l, k, rv, LE); err != nil {
diff --git a/encoder_borsh.go b/encoder_borsh.go
index 25639cd..0c733ba 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -154,7 +154,7 @@ func (e *Encoder) encodeBorsh(rv reflect.Value, opt *option) (err error) {
 			zlog.Debug("encode: array", zap.Int("length", l), zap.Stringer("type", rv.Kind()))
 		}
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := packedElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			// if it's a [n]byte, accumulate and write in one command:
 			if err := reflect_writeArrayOfUint_(e, l, k, rv, LE); err != nil {
@@ -191,7 +191,7 @@ func (e *Encoder) encodeBorsh(rv reflect.Value, opt *option) (err error) {
 
 		// we would want to skip to the correct head_offset
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := packedElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			// if it's a [n]byte, accumulate and write in one command:
 			if err := reflect_writeArrayOfUint_(e, l, k, rv, LE); err != nil {
diff --git a/encoder_compact-u16.go b/encoder_compact-u16.go
index 5979a82..f4cd281 100644
--- a/encoder_compact-u16.go
+++ b/encoder_compact-u16.go
@@ -107,7 +107,7 @@ func (e *Encoder) encodeCompactU16(rv reflect.Value, opt *option) (err error) {
 			zlog.Debug("encode: array", zap.Int("length", l), zap.Stringer("type", rv.Kind()))
 		}
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := packedElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			// if it's a [n]byte, accumulate and write in one command:
 			if err := reflect_writeArrayOfUint_(e, l, k, rv, LE); err != nil {
@@ -144,7 +144,7 @@ func (e *Encoder) encodeCompactU16(rv reflect.Value, opt *option) (err error) {
 
 		// we would want to skip to the correct head_offset
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := packedElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			// if it's a [n]byte, accumulate and write in one command:
 			if err := reflect_writeArrayOfUint_(e, l, k, rv, LE); err != nil {
-- 
2.43.0


From fe32cab65700a3aac7de9a57692fe6c86179ffdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:33 +0000
Subject: [PATCH 25/40] fix: element types with only a marshaler or only an
 unmarshaler are not packed either

---
 decoder.go             | 8 ++++++++
 decoder_bin.go         | 4 ++--
 decoder_borsh.go       | 4 ++--
 decoder_compact-u16.go | 4 ++--
 encoder.go             | 8 ++++----
 5 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/decoder.go b/decoder.go
index 7159648..2a76f43 100644
--- a/decoder.go
+++ b/decoder.go
@@ -957,6 +957,14 @@ func reflect_readArrayOfUint64(d *Decoder, l int, rv reflect.Value, order binary
 	return nil
 }
 
+// unpackedElemKind is the counterpart of packedElemKind for decoding.
+func unpackedElemKind(rt reflect.Type) reflect.Kind {
+	if reflect.PtrTo(rt).Implements(unmarshalableType) {
+		return reflect.Invalid
+	}
+	return rt.Kind()
+}
+
 // reflect_readArrayOfUint_ is used for reading arrays/slices of uints of any size.
 func reflect_readArrayOfUint_(d *Decoder, l int, k reflect.Kind, rv reflect.Value, order binary.ByteOrder) error {
 	switch k {
diff --git a/decoder_bin.go b/decoder_bin.go
index 351ffc5..1a485fc 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -167,7 +167,7 @@ func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
 			zlog.Debug("decoding: reading array", zap.Int("length", l))
 		}
 
-		switch k := packedElemKind(rv.Type().Elem()); k {
+		switch k := unpackedElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			if err := reflect_readArrayOfUint_(dec, l, k, rv, LE); err != nil {
 				return err
@@ -200,7 +200,7 @@ func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
 			return io.ErrUnexpectedEOF
 		}
 
-		switch k := packedElemKind(rv.Type().Elem()); k {
+		switch k := unpackedElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			if err := reflect_readArrayOfUint_(dec, l, k, rv, LE); err != nil {
 				return err
diff --git a/decoder_borsh.go b/decoder_borsh.go
index 9ca23c0..6a46c32 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -202,7 +202,7 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 			zlog.Debug("decoding: reading array", zap.Int("length", l))
 		}
 
-		switch k := packedElemKind(rv.Type().Elem()); k {
+		switch k := unpackedElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			if err := reflect_readArrayOfUint_(dec, l, k, rv, LE); err != nil {
 				return err
@@ -240,7 +240,7 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 			return io.ErrUnexpectedEOF
 		}
 
-		switch k := packedElemKind(rv.Type().Elem()); k {
+		switch k := unpackedElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			if err := reflect_readArrayOfUint_(dec, l, k, rv, LE); err != nil {
 				return err
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 04603b2..139033e 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -166,7 +166,7 @@ func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error)
 			zlog.Debug("decoding: reading array", zap.Int("length", l))
 		}
 
-		switch k := packedElemKind(rv.Type().Elem()); k {
+		switch k := unpackedElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			if err := reflect_readArrayOfUint_(dec, l, k, rv, LE); err != nil {
 				return err
@@ -199,7 +199,7 @@ func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error)
 			return io.ErrUnexpectedEOF
 		}
 
-		switch k := packedElemKind(rv.Type().Elem()); k {
+		switch k := unpackedElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			if err := reflect_readArrayOfUint_(dec, l, k, rv, LE); err != nil {
 				return err
diff --git a/encoder.go b/encoder.go
index 3b6b73e..6a2d9fd 100644
--- a/encoder.go
+++ b/encoder.go
@@ -401,11 +401,11 @@ func reflect_writeArrayOfUint64(e *Encoder, l int, rv reflect.Value, order binar
 	return e.WriteBytes(arr, false)
 }
 
-// packedElemKind returns the kind of the elements of an array or slice, or
-// reflect.Invalid if they marshal themselves, which means that they must be
-// handled one by one and never in bulk.
+// packedElemKind returns the kind of the elements of an array or slice to
+// encode, or reflect.Invalid if they marshal themselves, which means that they
+// must be handled one by one and never in bulk.
 func packedElemKind(rt reflect.Type) reflect.Kind {
-	if rt.Implements(marshalableType) && reflect.PtrTo(rt).Implements(unmarshalableType) {
+	if rt.Implements(marshalableType) {
 		return reflect.Invalid
 	}
 	return rt.Kind()
-- 
2.43.0


From 57607eccb7b6cbe1f8d2065bf85a3d59ac5088b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:42 +0000
Subject: [PATCH 26/40] fix: float32 signaling NaNs keep their bits in Bin and
 CompactU16

---
 decoder.go             | 7 +++++++
 decoder_bin.go         | 2 +-
 decoder_compact-u16.go | 2 +-
 encoder.go             | 6 ++++++
 encoder_bin.go         | 2 +-
 encoder_compact-u16.go | 2 +-
 6 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/decoder.go b/decoder.go
index 2a76f43..010ee56 100644
--- a/decoder.go
+++ b/decoder.go
@@ -791,6 +791,11 @@ func indirect(v reflect.Value, decodingNull bool) (BinaryUnmarshaler, reflect.Va
 	return nil, v
 }
 
+// reflect_setFloat32 is the counterpart of reflect_float32 for decoding.
+func reflect_setFloat32(rv reflect.Value, f float32) {
+	rv.Set(reflect.ValueOf(f).Convert(rv.Type()))
+}
+
 func reflect_readArrayOfBytes(d *Decoder, l int, rv reflect.Value) error {
 	buf, err := d.ReadNBytes(l)
 	if err != nil {
@@ -916,6 +921,8 @@ var (
 	typeOfUint16 = reflect.TypeOf(uint16(0))
 	typeOfUint32 = reflect.TypeOf(uint32(0))
 	typeOfUint64 = reflect.TypeOf(uint64(0))
+
+	typeOfFloat32 = reflect.TypeOf(float32(0))
 )
 
 func reflect_readArrayOfUint64(d *Decoder, l int, rv reflect.Value, order binary.ByteOrder) error {
diff --git a/decoder_bin.go b/decoder_bin.go
index 1a485fc..33c91aa 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -144,7 +144,7 @@ func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
 	case reflect.Float32:
 		var n float32
 		n, err = dec.ReadFloat32(opt.Order)
-		rv.SetFloat(float64(n))
+		reflect_setFloat32(rv, n)
 		return
 	case reflect.Float64:
 		var n float64
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 139033e..848cffb 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -143,7 +143,7 @@ func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error)
 	case reflect.Float32:
 		var n float32
 		n, err = dec.ReadFloat32(opt.Order)
-		rv.SetFloat(float64(n))
+		reflect_setFloat32(rv, n)
 		return
 	case reflect.Float64:
 		var n float64
diff --git a/encoder.go b/encoder.go
index 6a2d9fd..b989aff 100644
--- a/encoder.go
+++ b/encoder.go
@@ -369,6 +369,12 @@ func (e *Encoder) WriteCompactU16Length(ln int) (err error) {
 	return e.WriteCompactU16(ln)
 }
 
+// reflect_float32 returns a float32 value bit by bit: rv.Float() goes through
+// float64, which turns a signaling NaN into a quiet one.
+func reflect_float32(rv reflect.Value) float32 {
+	return rv.Convert(typeOfFloat32).Interface().(float32)
+}
+
 func reflect_writeArrayOfBytes(e *Encoder, l int, rv reflect.Value) error {
 	arr := make([]byte, l)
 	for i := 0; i < l; i++ {
diff --git a/encoder_bin.go b/encoder_bin.go
index d8ca981..e5f17cd 100644
--- a/encoder_bin.go
+++ b/encoder_bin.go
@@ -85,7 +85,7 @@ func (e *Encoder) encodeBin(rv reflect.Value, opt *option) (err error) {
 	case reflect.Int64:
 		return e.WriteInt64(rv.Int(), opt.Order)
 	case reflect.Float32:
-		return e.WriteFloat32(float32(rv.Float()), opt.Order)
+		return e.WriteFloat32(reflect_float32(rv), opt.Order)
 	case reflect.Float64:
 		return e.WriteFloat64(rv.Float(), opt.Order)
 	case reflect.Bool:
diff --git a/encoder_compact-u16.go b/encoder_compact-u16.go
index f4cd281..e8da191 100644
--- a/encoder_compact-u16.go
+++ b/encoder_compact-u16.go
@@ -84,7 +84,7 @@ func (e *Encoder) encodeCompactU16(rv reflect.Value, opt *option) (err error) {
 	case reflect.Int64:
 		return e.WriteInt64(rv.Int(), opt.Order)
 	case reflect.Float32:
-		return e.WriteFloat32(float32(rv.Float()), opt.Order)
+		return e.WriteFloat32(reflect_float32(rv), opt.Order)
 	case reflect.Float64:
 		return e.WriteFloat64(rv.Float(), opt.Order)
 	case reflect.Bool:
-- 
2.43.0


From 0192f69fc20d2c003b2fb8449d9f041216cb438a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:25 +0000
Subject: [PATCH 27/40] fix: a refused hex text leaves no partial bytes behind

---
 types.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index 20c8c22..29f18cd 100644
--- a/types.go
+++ b/types.go
@@ -87,8 +87,13 @@ func (t *HexBytes) UnmarshalJSON(data []byte) (err error) {
 		return
 	}
 
-	*t, err = hex.DecodeString(s)
-	return
+	value, err := hex.DecodeString(s)
+	if err != nil {
+		return err
+	}
+
+	*t = value
+	return nil
 }
 
 func (t HexBytes) String() string {
-- 
2.43.0


From 52ea803bf446b3805e702ace861039935b5ef2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:05 +0000
Subject: [PATCH 28/40] fix: a sizeof count that does not fit an int is
 refused, not taken as 0

---
 decoder.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index 010ee56..4fbaca7 100644
--- a/decoder.go
+++ b/decoder.go
@@ -161,9 +161,10 @@ func sizeof(t reflect.Type, v reflect.Value) int {
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		n := int(v.Uint())
 		// all the builtin array length types are native int
-		// so this guards against weird truncation
-		if n < 0 {
-			return 0
+		// so this guards against weird truncation: a negative
+		// size is refused by the encoder and by the decoder
+		if n < 0 || uint64(n) != v.Uint() {
+			return -1
 		}
 		return n
 	default:
-- 
2.43.0


From d142960b74b127fcabf8d7ff7c7807e60245fabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:46 +0000
Subject: [PATCH 29/40] fix: Int128 text and JSON are signed, as its
 DecimalString and BigInt are

---
 u128.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/u128.go b/u128.go
index 23e103f..0ec127e 100644
--- a/u128.go
+++ b/u128.go
@@ -201,7 +201,7 @@ func (i Int128) BigInt() *big.Int {
 }
 
 func (i Int128) String() string {
-	return Uint128(i).String()
+	return i.DecimalString()
 }
 
 func (i Int128) DecimalString() string {
@@ -209,11 +209,26 @@ func (i Int128) DecimalString() string {
 }
 
 func (i Int128) MarshalJSON() (data []byte, err error) {
-	return []byte(`"` + Uint128(i).String() + `"`), nil
+	return []byte(`"` + i.String() + `"`), nil
 }
 
 func (i *Int128) UnmarshalJSON(data []byte) error {
 	var el Uint128
+	var s string
+	if err := json.Unmarshal(data, &s); err == nil && strings.HasPrefix(s, "-") {
+		parsed, ok := (&big.Int{}).SetString(s, 0)
+		if !ok {
+			return fmt.Errorf("could not parse %q", s)
+		}
+		modulus := new(big.Int).Lsh(big.NewInt(1), 128)
+		if parsed.Cmp(new(big.Int).Neg(new(big.Int).Rsh(modulus, 1))) < 0 {
+			return fmt.Errorf("value %q does not fit in 128 bits", s)
+		}
+		// two's complement
+		el.setBytes(parsed.Mod(parsed, modulus).FillBytes(make([]byte, 16)))
+		*i = Int128(el)
+		return nil
+	}
 	if err := json.Unmarshal(data, &el); err != nil {
 		return err
 	}
-- 
2.43.0


From 7dd2473d8a5c1bfe71c7fd807a86ac137712e88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:15 +0000
Subject: [PATCH 30/40] fix: an unexported field after binary_extension fields
 no longer panics the decoder

---
 decoder_bin.go         | 2 +-
 decoder_borsh.go       | 2 +-
 decoder_compact-u16.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoder_bin.go b/decoder_bin.go
index 33c91aa..4d37547 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -279,7 +279,7 @@ func (dec *Decoder) decodeStructBin(rt reflect.Type, rv reflect.Value) (err erro
 			continue
 		}
 
-		if !fieldTag.BinaryExtension && seenBinaryExtensionField {
+		if !fieldTag.BinaryExtension && seenBinaryExtensionField && structField.PkgPath == "" {
 			panic(fmt.Sprintf("the `bin:\"binary_extension\"` tags must be packed together at the end of struct fields, problematic field %q", structField.Name))
 		}
 
diff --git a/decoder_borsh.go b/decoder_borsh.go
index 6a46c32..1955576 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -354,7 +354,7 @@ func (dec *Decoder) decodeStructBorsh(rt reflect.Type, rv reflect.Value) (err er
 			continue
 		}
 
-		if !fieldTag.BinaryExtension && seenBinaryExtensionField {
+		if !fieldTag.BinaryExtension && seenBinaryExtensionField && structField.PkgPath == "" {
 			panic(fmt.Sprintf("the `bin:\"binary_extension\"` tags must be packed together at the end of struct fields, problematic field %q", structField.Name))
 		}
 
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 848cffb..0908ccb 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -278,7 +278,7 @@ func (dec *Decoder) decodeStructCompactU16(rt reflect.Type, rv reflect.Value) (e
 			continue
 		}
 
-		if !fieldTag.BinaryExtension && seenBinaryExtensionField {
+		if !fieldTag.BinaryExtension && seenBinaryExtensionField && structField.PkgPath == "" {
 			panic(fmt.Sprintf("the `bin:\"binary_extension\"` tags must be packed together at the end of struct fields, problematic field %q", structField.Name))
 		}
 
-- 
2.43.0


From adccbd954f0eaf584d8a339175a2bba3d36af581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:07 +0000
Subject: [PATCH 31/40] fix: a sizeof tag on an unexported field no longer
 strips the length prefix of the slice it names

---
 encoder_bin.go         | 12 ++++++------
 encoder_borsh.go       | 12 ++++++------
 encoder_compact-u16.go | 12 ++++++------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/encoder_bin.go b/encoder_bin.go
index e5f17cd..8ac5742 100644
--- a/encoder_bin.go
+++ b/encoder_bin.go
@@ -220,24 +220,24 @@ func (e *Encoder) encodeStructBin(rt reflect.Type, rv reflect.Value) (err error)
 
 		rv := rv.Field(i)
 
-		if fieldTag.SizeOf != "" {
+		if !rv.CanInterface() {
 			if traceEnabled {
-				zlog.Debug("encode: struct field has sizeof tag",
+				zlog.Debug("encode:  skipping field: unable to interface field, probably since field is not exported",
 					zap.String("sizeof_field_name", fieldTag.SizeOf),
 					zap.String("struct_field_name", structField.Name),
 				)
 			}
-			sizeOfMap[fieldTag.SizeOf] = sizeof(structField.Type, rv)
+			continue
 		}
 
-		if !rv.CanInterface() {
+		if fieldTag.SizeOf != "" {
 			if traceEnabled {
-				zlog.Debug("encode:  skipping field: unable to interface field, probably since field is not exported",
+				zlog.Debug("encode: struct field has sizeof tag",
 					zap.String("sizeof_field_name", fieldTag.SizeOf),
 					zap.String("struct_field_name", structField.Name),
 				)
 			}
-			continue
+			sizeOfMap[fieldTag.SizeOf] = sizeof(structField.Type, rv)
 		}
 
 		option := &option{
diff --git a/encoder_borsh.go b/encoder_borsh.go
index 0c733ba..d289936 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -314,24 +314,24 @@ func (e *Encoder) encodeStructBorsh(rt reflect.Type, rv reflect.Value) (err erro
 
 		rv := rv.Field(i)
 
-		if fieldTag.SizeOf != "" {
+		if !rv.CanInterface() {
 			if traceEnabled {
-				zlog.Debug("encode: struct field has sizeof tag",
+				zlog.Debug("encode:  skipping field: unable to interface field, probably since field is not exported",
 					zap.String("sizeof_field_name", fieldTag.SizeOf),
 					zap.String("struct_field_name", structField.Name),
 				)
 			}
-			sizeOfMap[fieldTag.SizeOf] = sizeof(structField.Type, rv)
+			continue
 		}
 
-		if !rv.CanInterface() {
+		if fieldTag.SizeOf != "" {
 			if traceEnabled {
-				zlog.Debug("encode:  skipping field: unable to interface field, probably since field is not exported",
+				zlog.Debug("encode: struct field has sizeof tag",
 					zap.String("sizeof_field_name", fieldTag.SizeOf),
 					zap.String("struct_field_name", structField.Name),
 				)
 			}
-			continue
+			sizeOfMap[fieldTag.SizeOf] = sizeof(structField.Type, rv)
 		}
 
 		option := &option{
diff --git a/encoder_compact-u16.go b/encoder_compact-u16.go
index e8da191..62d04e1 100644
--- a/encoder_compact-u16.go
+++ b/encoder_compact-u16.go
@@ -218,24 +218,24 @@ func (e *Encoder) encodeStructCompactU16(rt reflect.Type, rv reflect.Value) (err
 
 		rv := rv.Field(i)
 
-		if fieldTag.SizeOf != "" {
+		if !rv.CanInterface() {
 			if traceEnabled {
-				zlog.Debug("encode: struct field has sizeof tag",
+				zlog.Debug("encode:  skipping field: unable to interface field, probably since field is not exported",
 					zap.String("sizeof_field_name", fieldTag.SizeOf),
 					zap.String("struct_field_name", structField.Name),
 				)
 			}
-			sizeOfMap[fieldTag.SizeOf] = sizeof(structField.Type, rv)
+			continue
 		}
 
-		if !rv.CanInterface() {
+		if fieldTag.SizeOf != "" {
 			if traceEnabled {
-				zlog.Debug("encode:  skipping field: unable to interface field, probably since field is not exported",
+				zlog.Debug("encode: struct field has sizeof tag",
 					zap.String("sizeof_field_name", fieldTag.SizeOf),
 					zap.String("struct_field_name", structField.Name),
 				)
 			}
-			continue
+			sizeOfMap[fieldTag.SizeOf] = sizeof(structField.Type, rv)
 		}
 
 		option := &option{
-- 
2.43.0


From 31ea92048faa522a05f01a5090738631589425b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:09 +0000
Subject: [PATCH 32/40] fix: input that selects an unexported borsh enum
 variant is an error, not a panic

---
 decoder_borsh.go | 6 ++++++
 encoder_borsh.go | 6 +++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/decoder_borsh.go b/decoder_borsh.go
index 1955576..31c3ace 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -305,6 +305,9 @@ func (dec *Decoder) deserializeComplexEnum(rv reflect.Value) error {
 		return err
 	}
 	enum := BorshEnum(tmp)
+	if !rv.Field(0).CanSet() {
+		return fmt.Errorf("complex enum tag %q is not exported", rt.Field(0).Name)
+	}
 	rv.Field(0).Set(reflect.ValueOf(enum).Convert(rv.Field(0).Type()))
 
 	// read enum field, if necessary
@@ -312,6 +315,9 @@ func (dec *Decoder) deserializeComplexEnum(rv reflect.Value) error {
 		return errors.New("complex enum too large")
 	}
 	field := rv.Field(int(enum) + 1)
+	if !field.CanSet() {
+		return fmt.Errorf("complex enum variant %q is not exported", rt.Field(int(enum)+1).Name)
+	}
 	return dec.decodeBorsh(field, nil)
 }
 
diff --git a/encoder_borsh.go b/encoder_borsh.go
index d289936..d070c51 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -264,7 +264,11 @@ func (enc *Encoder) encodeComplexEnumBorsh(rv reflect.Value) error {
 	if int(enum)+1 >= t.NumField() {
 		return errors.New("complex enum too large")
 	}
-	return enc.encodeBorsh(rv.Field(int(enum)+1), nil)
+	field := rv.Field(int(enum) + 1)
+	if !field.CanInterface() {
+		return fmt.Errorf("complex enum variant %q is not exported", t.Field(int(enum)+1).Name)
+	}
+	return enc.encodeBorsh(field, nil)
 }
 
 type BorshEnum uint8
-- 
2.43.0


From 61c3d65de5fee9c825556abf1749c188d9f53002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:28 +0000
Subject: [PATCH 33/40] fix: a variant definition with more types than its
 uint8 ids can name is refused

---
 variant.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/variant.go b/variant.go
index 2d359db..47e9a83 100644
--- a/variant.go
+++ b/variant.go
@@ -21,6 +21,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math"
 	"reflect"
 	"strings"
 )
@@ -192,6 +193,9 @@ func NewVariantDefinition(typeIDEncoding TypeIDEncoding, types []VariantType) (o
 			out.typeNameToID[typeDef.Name] = typeID
 		}
 	case Uint8TypeIDEncoding:
+		if len(types) > math.MaxUint8+1 {
+			panic(fmt.Sprintf("Uint8TypeIDEncoding can have at most %d variant type definitions, got %v", math.MaxUint8+1, len(types)))
+		}
 		for i, typeDef := range types {
 			typeID := TypeIDFromUint8(uint8(i))
 
-- 
2.43.0


From cfe00b33cc7d884ec312613f24c05769642a8b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:18 +0000
Subject: [PATCH 34/40] fix: an absent optional pointer to a pointer is cleared
 as a whole in a target in use

---
 decoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index 4fbaca7..ef5291d 100644
--- a/decoder.go
+++ b/decoder.go
@@ -719,7 +719,7 @@ func (dec *Decoder) HasRemaining() bool {
 // indirect walks down v allocating pointers as needed,
 // until it gets to a non-pointer.
 // if it encounters an Unmarshaler, indirect stops and returns that.
-// if decodingNull is true, indirect stops at the last pointer so it can be set to nil.
+// if decodingNull is true, indirect stops at the first settable pointer so it can be set to nil.
 //
 // *Note* This is a copy of `encoding/json/decoder.go#indirect` of Golang 1.14.
 //
@@ -762,7 +762,7 @@ func indirect(v reflect.Value, decodingNull bool) (BinaryUnmarshaler, reflect.Va
 			break
 		}
 
-		if v.Elem().Kind() != reflect.Ptr && decodingNull && v.CanSet() {
+		if decodingNull && v.CanSet() {
 			break
 		}
 
-- 
2.43.0


From d02823c82a1528124572768ccb70fd8f4f1ce18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:48 +0000
Subject: [PATCH 35/40] fix: refuse interface-keyed maps whose keys cannot be
 ordered in Borsh instead of panicking

---
 encoder_borsh.go | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/encoder_borsh.go b/encoder_borsh.go
index d070c51..a999f50 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -212,7 +212,7 @@ func (e *Encoder) encodeBorsh(rv reflect.Value, opt *option) (err error) {
 
 	case reflect.Map:
 		keys := rv.MapKeys()
-		if len(keys) > 1 && !isSortableKind(rt.Key().Kind()) {
+		if len(keys) > 1 && !isSortable(keys) {
 			return fmt.Errorf("encode: unsupported map key type %q", rt.Key())
 		}
 		sort.Slice(keys, vComp(keys))
@@ -367,15 +367,33 @@ func (e *Encoder) encodeStructBorsh(rt reflect.Type, rv reflect.Value) (err erro
 	return nil
 }
 
-// isSortableKind tells whether vComp can order map keys of this kind.
-func isSortableKind(k reflect.Kind) bool {
-	switch k {
-	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
-		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,
-		reflect.Float32, reflect.Float64, reflect.String, reflect.Interface:
-		return true
+// isSortable tells whether vComp can order these map keys: all of them (or, in
+// an interface-keyed map, all of the values they hold) have to be signed
+// integers, unsigned integers, floats or strings.
+func isSortable(keys []reflect.Value) bool {
+	class := reflect.Invalid
+	for _, key := range keys {
+		if key.Kind() == reflect.Interface {
+			key = key.Elem()
+		}
+		k := key.Kind()
+		switch k {
+		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+			k = reflect.Int64
+		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+			k = reflect.Uint64
+		case reflect.Float32, reflect.Float64:
+			k = reflect.Float64
+		case reflect.String:
+		default:
+			return false
+		}
+		if class != reflect.Invalid && k != class {
+			return false
+		}
+		class = k
 	}
-	return false
+	return true
 }
 
 func vComp(keys []reflect.Value) func(int, int) bool {
-- 
2.43.0


From c2b76a1c7d89cdfd589abff688afd7dfb4bdef4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:52 +0000
Subject: [PATCH 36/40] fix: refuse to encode values that nest without end
 instead of overflowing the stack

---
 encoder.go             | 10 ++++++++++
 encoder_bin.go         |  8 +++++++-
 encoder_borsh.go       |  8 +++++++-
 encoder_compact-u16.go |  8 +++++++-
 4 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/encoder.go b/encoder.go
index b989aff..14a6cab 100644
--- a/encoder.go
+++ b/encoder.go
@@ -35,8 +35,18 @@ type Encoder struct {
 	encoding        Encoding
 
 	output io.Writer
+
+	// depth is the number of nested values being encoded.
+	depth int
 }
 
+// maxEncodeDepth bounds how deep values can nest, so that a value that contains
+// itself (or, in Borsh, a self-referential type with required nil pointers,
+// which stand for zero values) is an error instead of a stack overflow.
+const maxEncodeDepth = maxDecodeDepth
+
+var errEncodeTooDeep = fmt.Errorf("encode: exceeded the maximum nesting depth of %d", maxEncodeDepth)
+
 func (enc *Encoder) IsBorsh() bool {
 	return enc.encoding.IsBorsh()
 }
diff --git a/encoder_bin.go b/encoder_bin.go
index 8ac5742..f6a205b 100644
--- a/encoder_bin.go
+++ b/encoder_bin.go
@@ -29,8 +29,14 @@ func (e *Encoder) encodeBin(rv reflect.Value, opt *option) (err error) {
 	if opt == nil {
 		opt = newDefaultOption()
 	}
-	defer func(prev *option) { e.currentFieldOpt = prev }(e.currentFieldOpt)
+	defer func(prev *option) {
+		e.currentFieldOpt = prev
+		e.depth--
+	}(e.currentFieldOpt)
 	e.currentFieldOpt = opt
+	if e.depth++; e.depth > maxEncodeDepth {
+		return errEncodeTooDeep
+	}
 
 	if traceEnabled {
 		zlog.Debug("encode: type",
diff --git a/encoder_borsh.go b/encoder_borsh.go
index a999f50..92fcc87 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -67,8 +67,14 @@ func (e *Encoder) encodeBorsh(rv reflect.Value, opt *option) (err error) {
 	if opt == nil {
 		opt = newDefaultOption()
 	}
-	defer func(prev *option) { e.currentFieldOpt = prev }(e.currentFieldOpt)
+	defer func(prev *option) {
+		e.currentFieldOpt = prev
+		e.depth--
+	}(e.currentFieldOpt)
 	e.currentFieldOpt = opt
+	if e.depth++; e.depth > maxEncodeDepth {
+		return errEncodeTooDeep
+	}
 
 	if traceEnabled {
 		zlog.Debug("encode: type",
diff --git a/encoder_compact-u16.go b/encoder_compact-u16.go
index 62d04e1..122b776 100644
--- a/encoder_compact-u16.go
+++ b/encoder_compact-u16.go
@@ -28,8 +28,14 @@ func (e *Encoder) encodeCompactU16(rv reflect.Value, opt *option) (err error) {
 	if opt == nil {
 		opt = newDefaultOption()
 	}
-	defer func(prev *option) { e.currentFieldOpt = prev }(e.currentFieldOpt)
+	defer func(prev *option) {
+		e.currentFieldOpt = prev
+		e.depth--
+	}(e.currentFieldOpt)
 	e.currentFieldOpt = opt
+	if e.depth++; e.depth > maxEncodeDepth {
+		return errEncodeTooDeep
+	}
 
 	if traceEnabled {
 		zlog.Debug("encode: type",
-- 
2.43.0


From bcea21f07f2225de21502dd4e25d6bd84e12e4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:21 +0000
Subject: [PATCH 37/40] fix: keep nested values within the stack limit of
 32-bit platforms too

---
 decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index ef5291d..460472f 100644
--- a/decoder.go
+++ b/decoder.go
@@ -83,7 +83,7 @@ type Decoder struct {
 
 // maxDecodeDepth bounds how deep values can nest, so that hostile input for a
 // recursive type is an error instead of a stack overflow.
-const maxDecodeDepth = 100_000
+const maxDecodeDepth = 30_000
 
 var errTooDeep = fmt.Errorf("decode: exceeded the maximum nesting depth of %d", maxDecodeDepth)
 
-- 
2.43.0


From aa8cb85ede0059df7691b91b15bf58cbd3b03253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:54 +0000
Subject: [PATCH 38/40] fix: refuse map lengths that the input cannot hold
 instead of looping over entries without bytes

---
 decoder_bin.go         | 5 +++++
 decoder_borsh.go       | 5 +++++
 decoder_compact-u16.go | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/decoder_bin.go b/decoder_bin.go
index 4d37547..dd73fcb 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -234,6 +234,11 @@ func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
 			rv.Set(reflect.Zero(rt))
 			return nil
 		}
+		if l > 1 && uint64(l) > uint64(dec.Remaining()) {
+			// The entries of a map differ, so no two of them can take no
+			// bytes at all.
+			return io.ErrUnexpectedEOF
+		}
 		rv.Set(reflect.MakeMap(rt))
 		for i := 0; i < int(l); i++ {
 			key := reflect.New(rt.Key())
diff --git a/decoder_borsh.go b/decoder_borsh.go
index 31c3ace..b8b0e86 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -274,6 +274,11 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 			rv.Set(reflect.Zero(rt))
 			return nil
 		}
+		if l > 1 && uint64(l) > uint64(dec.Remaining()) {
+			// The entries of a map differ, so no two of them can take no
+			// bytes at all.
+			return io.ErrUnexpectedEOF
+		}
 		rv.Set(reflect.MakeMap(rt))
 		for i := 0; i < int(l); i++ {
 			key := reflect.New(rt.Key())
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 0908ccb..b4c10b9 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -233,6 +233,11 @@ func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error)
 			rv.Set(reflect.Zero(rt))
 			return nil
 		}
+		if l > 1 && uint64(l) > uint64(dec.Remaining()) {
+			// The entries of a map differ, so no two of them can take no
+			// bytes at all.
+			return io.ErrUnexpectedEOF
+		}
 		rv.Set(reflect.MakeMap(rt))
 		for i := 0; i < int(l); i++ {
 			key := reflect.New(rt.Key())
-- 
2.43.0


From b065bb20c65e754c5cf14e9e235eba2582794386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:43 +0000
Subject: [PATCH 39/40] fix: encode maps with NaN keys in the Bin and
 CompactU16 encodings instead of panicking

---
 encoder_bin.go         | 7 ++++---
 encoder_compact-u16.go | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/encoder_bin.go b/encoder_bin.go
index f6a205b..7550ced 100644
--- a/encoder_bin.go
+++ b/encoder_bin.go
@@ -187,12 +187,13 @@ func (e *Encoder) encodeBin(rv reflect.Value, opt *option) (err error) {
 			return
 		}
 
-		for _, mapKey := range rv.MapKeys() {
-			if err = e.Encode(mapKey.Interface()); err != nil {
+		// A key that is NaN cannot be looked up, so iterate over the entries.
+		for iter := rv.MapRange(); iter.Next(); {
+			if err = e.Encode(iter.Key().Interface()); err != nil {
 				return
 			}
 
-			if err = e.Encode(rv.MapIndex(mapKey).Interface()); err != nil {
+			if err = e.Encode(iter.Value().Interface()); err != nil {
 				return
 			}
 		}
diff --git a/encoder_compact-u16.go b/encoder_compact-u16.go
index 122b776..202f348 100644
--- a/encoder_compact-u16.go
+++ b/encoder_compact-u16.go
@@ -185,12 +185,13 @@ func (e *Encoder) encodeCompactU16(rv reflect.Value, opt *option) (err error) {
 			return
 		}
 
-		for _, mapKey := range rv.MapKeys() {
-			if err = e.Encode(mapKey.Interface()); err != nil {
+		// A key that is NaN cannot be looked up, so iterate over the entries.
+		for iter := rv.MapRange(); iter.Next(); {
+			if err = e.Encode(iter.Key().Interface()); err != nil {
 				return
 			}
 
-			if err = e.Encode(rv.MapIndex(mapKey).Interface()); err != nil {
+			if err = e.Encode(iter.Value().Interface()); err != nil {
 				return
 			}
 		}
-- 
2.43.0


From d1f4d83c3f6c72305832ed6bd49634e39b663b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:42 +0000
Subject: [PATCH 40/40] fix: split words at the same characters as Rust's heck,
 keeping vowel signs and number forms

---
 heck.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/heck.go b/heck.go
index ba1c74e..6b7e226 100644
--- a/heck.go
+++ b/heck.go
@@ -48,9 +48,9 @@ func transform(
 				// The mode including the current character, assuming the
 				// current character does not result in a word boundary.
 				next_mode := func() _WordMode {
-					if unicode.IsLower(c) {
+					if isLowercase(c) {
 						return _Lowercase
-					} else if unicode.IsUpper(c) {
+					} else if isUppercase(c) {
 						return _Uppercase
 					} else {
 						return mode
@@ -59,7 +59,7 @@ func transform(
 
 				// Word boundary after if next is underscore or current is
 				// not uppercase and next is uppercase
-				if next == '_' || (next_mode == _Lowercase && unicode.IsUpper(next)) {
+				if next == '_' || (next_mode == _Lowercase && isUppercase(next)) {
 					if !first_word {
 						// boundary(f)?;
 						boundary(builder)
@@ -75,7 +75,7 @@ func transform(
 
 					// Otherwise if current and previous are uppercase and next
 					// is lowercase, word boundary before
-				} else if mode == _Uppercase && unicode.IsUpper(c) && unicode.IsLower(next) {
+				} else if mode == _Uppercase && isUppercase(c) && isLowercase(next) {
 					if !first_word {
 						// boundary(f)?;
 						boundary(builder)
@@ -243,11 +243,27 @@ func (r *reader) Move() bool {
 // #[cfg(not(feature = "unicode"))]
 func splitIntoWords(s string) []string {
 	parts := strings.FieldsFunc(s, func(r rune) bool {
-		return !(unicode.IsLetter(r) || unicode.IsDigit(r))
+		return !isAlphanumeric(r)
 	})
 	return parts
 }
 
+// isAlphanumeric is Rust's char::is_alphanumeric, which includes the vowel
+// signs of many scripts and all kinds of numbers.
+func isAlphanumeric(r rune) bool {
+	return unicode.IsLetter(r) || unicode.IsNumber(r) || unicode.Is(unicode.Other_Alphabetic, r)
+}
+
+// isLowercase is Rust's char::is_lowercase.
+func isLowercase(r rune) bool {
+	return unicode.IsLower(r) || unicode.Is(unicode.Other_Lowercase, r)
+}
+
+// isUppercase is Rust's char::is_uppercase.
+func isUppercase(r rune) bool {
+	return unicode.IsUpper(r) || unicode.Is(unicode.Other_Uppercase, r)
+}
+
 type _WordMode int
 
 const (
@@ -288,9 +304,9 @@ func ToRustSnakeCase(s string) string {
 				// The mode including the current character, assuming the
 				// current character does not result in a word boundary.
 				next_mode := func() _WordMode {
-					if unicode.IsLower(c) {
+					if isLowercase(c) {
 						return _Lowercase
-					} else if unicode.IsUpper(c) {
+					} else if isUppercase(c) {
 						return _Uppercase
 					} else {
 						return mode
@@ -299,7 +315,7 @@ func ToRustSnakeCase(s string) string {
 
 				// Word boundary after if next is underscore or current is
 				// not uppercase and next is uppercase
-				if next == '_' || (next_mode == _Lowercase && unicode.IsUpper(next)) {
+				if next == '_' || (next_mode == _Lowercase && isUppercase(next)) {
 					if !first_word {
 						// boundary(f)?;
 						builder.WriteRune('_')
@@ -315,7 +331,7 @@ func ToRustSnakeCase(s string) string {
 
 					// Otherwise if current and previous are uppercase and next
 					// is lowercase, word boundary before
-				} else if mode == _Uppercase && unicode.IsUpper(c) && unicode.IsLower(next) {
+				} else if mode == _Uppercase && isUppercase(c) && isLowercase(next) {
 					if !first_word {
 						// boundary(f)?;
 						builder.WriteRune('_')
-- 
2.43.0


From f23079999cd68b5ea0e114baf4b864bd645d2b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:31 +0000
Subject: [PATCH 01/13] fix: reject int64 values that do not fit the scanned
 integer type

---
 sequel/encoding/int.go  | 3 +++
 sequel/encoding/uint.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/sequel/encoding/int.go b/sequel/encoding/int.go
index a9120bc..d5838ce 100644
--- a/sequel/encoding/int.go
+++ b/sequel/encoding/int.go
@@ -79,6 +79,9 @@ func (i *signedIntScanner[T, Addr]) Scan(v any) error {
 		}
 	case int64:
 		val := T(vi)
+		if int64(val) != vi {
+			return fmt.Errorf(`sequel/encoding: value %d is out of range of ~int%d`, vi, i.bitSize)
+		}
 		switch any(i.addr).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(i.addr)) = &val
diff --git a/sequel/encoding/uint.go b/sequel/encoding/uint.go
index 472420d..191916c 100644
--- a/sequel/encoding/uint.go
+++ b/sequel/encoding/uint.go
@@ -80,6 +80,9 @@ func (u *unsignedIntScanner[T, Addr]) Scan(v any) error {
 		}
 	case int64:
 		val := T(vi)
+		if int64(val) != vi {
+			return fmt.Errorf(`sequel/encoding: value %d is out of range of ~uint%d`, vi, u.bitSize)
+		}
 		switch any(u.addr).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(u.addr)) = &val
-- 
2.43.0


From 0eeea285dbeff4b081869b8fb8363e81b31b2f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:31 +0000
Subject: [PATCH 02/13] fix: scan NULL into a ~[]byte target as nil

---
 sequel/encoding/string.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sequel/encoding/string.go b/sequel/encoding/string.go
index 572406e..b37cfce 100644
--- a/sequel/encoding/string.go
+++ b/sequel/encoding/string.go
@@ -36,7 +36,8 @@ func (s *strScanner[T, Ptr]) Scan(v any) error {
 			*(**T)(unsafe.Pointer(s.addr)) = nil
 			return nil
 		case *T:
-			*(*T)(unsafe.Pointer(s.addr)) = T("")
+			var v T
+			*(*T)(unsafe.Pointer(s.addr)) = v
 			return nil
 		default:
 			panic("unreachable")
-- 
2.43.0


From 66be81581dc6f7f40ec99dfb731279cd2c886176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:32 +0000
Subject: [PATCH 03/13] fix: do not retain the driver's buffer when scanning
 into ~[]byte

---
 sequel/encoding/string.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sequel/encoding/string.go b/sequel/encoding/string.go
index b37cfce..9d42f07 100644
--- a/sequel/encoding/string.go
+++ b/sequel/encoding/string.go
@@ -55,7 +55,8 @@ func (s *strScanner[T, Ptr]) Scan(v any) error {
 			panic("unreachable")
 		}
 	case []byte:
-		val := T(vi)
+		// copy, the driver may reuse its buffer after Scan returns
+		val := T(string(vi))
 		switch any(s.addr).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(s.addr)) = &val
-- 
2.43.0


From 61746832f0f5c066b9fde2e576ed8e0e53993ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:00 +0000
Subject: [PATCH 04/13] fix: scan rune arrays by rune, clear them on NULL and
 leave them unchanged on overflow

---
 sequel/encoding/rune_array.go | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/sequel/encoding/rune_array.go b/sequel/encoding/rune_array.go
index 46b75f8..a8d0306 100644
--- a/sequel/encoding/rune_array.go
+++ b/sequel/encoding/rune_array.go
@@ -18,28 +18,27 @@ func RuneArrayScanner[T ~rune](v []T, size int) sql.Scanner {
 func (s *runeArrScanner[T]) Scan(v any) error {
 	switch vi := v.(type) {
 	case nil:
-		s.v = make([]T, s.size)
+		for i := range s.size {
+			s.v[i] = 0
+		}
 		return nil
 	case []byte:
-		i := int(0)
-		for len(vi) > 0 {
-			if i >= s.size {
-				return fmt.Errorf(`sequel/encoding: rune array overflow, should be %d, but it is %d`, s.size, i)
-			}
-			r, size := utf8.DecodeRune(vi)
-			s.v[i] = T(r)
-			i++
-			vi = vi[size:]
-		}
+		return s.scanString(string(vi))
 	case string:
-		if len(vi) > s.size {
-			return fmt.Errorf(`sequel/encoding: rune array overflow, should be %d, but it is %d`, s.size, len(vi))
-		}
-		for i := range vi {
-			s.v[i] = T(vi[i])
-		}
+		return s.scanString(vi)
 	default:
 		return fmt.Errorf(`sequel/encoding: unsupported scan type %T for [%d]~rune`, vi, s.size)
 	}
+}
+
+func (s *runeArrScanner[T]) scanString(str string) error {
+	if n := utf8.RuneCountInString(str); n > s.size {
+		return fmt.Errorf(`sequel/encoding: rune array overflow, should be %d, but it is %d`, s.size, n)
+	}
+	var i int
+	for _, r := range str {
+		s.v[i] = T(r)
+		i++
+	}
 	return nil
 }
-- 
2.43.0


From 48450092a1fb6d91f09a62f1de2bb321eae5b4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:56 +0000
Subject: [PATCH 05/13] fix: reject list elements that do not fit the sqltype
 element type

---
 sequel/sqltype/int_slice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sequel/sqltype/int_slice.go b/sequel/sqltype/int_slice.go
index 932de30..bacf337 100644
--- a/sequel/sqltype/int_slice.go
+++ b/sequel/sqltype/int_slice.go
@@ -77,7 +77,7 @@ func scanBytes[T ~int | ~int8 | ~int16 | ~int32 | ~int64 |
 	} else {
 		b := make([]T, len(elems))
 		for i, v := range elems {
-			n, err := strconv.ParseInt(unsafe.String(unsafe.SliceData(v), len(v)), 10, 64)
+			n, err := strconv.ParseInt(unsafe.String(unsafe.SliceData(v), len(v)), 10, int(unsafe.Sizeof(b[i]))*8)
 			if err != nil {
 				return fmt.Errorf("sqltype: parsing array element index %d: %v", i, err)
 			}
-- 
2.43.0


From 941344e25c3a8ec406064b6e1eb6c348ae874912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:56 +0000
Subject: [PATCH 06/13] fix: parse pgtype array elements with the element
 type's width and sign

---
 sequel/driver/postgres/pgtype/int_array.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/sequel/driver/postgres/pgtype/int_array.go b/sequel/driver/postgres/pgtype/int_array.go
index d0593aa..3718b96 100644
--- a/sequel/driver/postgres/pgtype/int_array.go
+++ b/sequel/driver/postgres/pgtype/int_array.go
@@ -77,11 +77,20 @@ func scanBytes[T ~int | ~int8 | ~int16 | ~int32 | ~int64 |
 	} else {
 		b := make([]T, len(elems))
 		for i, v := range elems {
-			n, err := strconv.ParseInt(unsafe.String(unsafe.SliceData(v), len(v)), 10, 64)
-			if err != nil {
-				return fmt.Errorf("pgtype: parsing array element index %d: %v", i, err)
+			str, bitSize := unsafe.String(unsafe.SliceData(v), len(v)), int(unsafe.Sizeof(b[i]))*8
+			if ^b[i] < 0 {
+				n, err := strconv.ParseInt(str, 10, bitSize)
+				if err != nil {
+					return fmt.Errorf("pgtype: parsing array element index %d: %v", i, err)
+				}
+				b[i] = T(n)
+			} else {
+				n, err := strconv.ParseUint(str, 10, bitSize)
+				if err != nil {
+					return fmt.Errorf("pgtype: parsing array element index %d: %v", i, err)
+				}
+				b[i] = T(n)
 			}
-			b[i] = T(n)
 		}
 		*a = b
 	}
-- 
2.43.0


From 2af7e1f0ecd257cc9fa5ed6929b65d0bd1452eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:27 +0000
Subject: [PATCH 07/13] fix: serialise string lists as valid JSON for control
 characters and invalid UTF-8

---
 sequel/encoding/marshaler.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sequel/encoding/marshaler.go b/sequel/encoding/marshaler.go
index b7932bf..89698d7 100644
--- a/sequel/encoding/marshaler.go
+++ b/sequel/encoding/marshaler.go
@@ -1,6 +1,7 @@
 package encoding
 
 import (
+	"encoding/json"
 	"strconv"
 	"time"
 
@@ -11,9 +12,9 @@ func MarshalStringSlice[V ~[]byte | ~string](list []V) string {
 	if n := len(list); n > 0 {
 		blr := strpool.AcquireString()
 		defer strpool.ReleaseString(blr)
-		blr.WriteString("[" + strconv.Quote((string)(list[0])))
+		blr.WriteString("[" + marshalString((string)(list[0])))
 		for i := 1; i < n; i++ {
-			blr.WriteString("," + strconv.Quote((string)(list[i])))
+			blr.WriteString("," + marshalString((string)(list[i])))
 		}
 		blr.WriteByte(']')
 		return blr.String()
@@ -94,3 +95,9 @@ func MarshalTimeList[V time.Time](list []V) string {
 	}
 	return "[]"
 }
+
+// marshalString returns the JSON string of s, [strconv.Quote] has escapes (`\x00`, `\a`, `\v`) which JSON doesn't have.
+func marshalString(s string) string {
+	b, _ := json.Marshal(s)
+	return string(b)
+}
-- 
2.43.0


From 6f99bdf2627aeef7aaa29eb01828720789c742fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:28 +0000
Subject: [PATCH 08/13] fix: keep multi-byte letters in camel and pascal case
 names

---
 cmd/sqlgen/internal/strfmt/strfmt.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/sqlgen/internal/strfmt/strfmt.go b/cmd/sqlgen/internal/strfmt/strfmt.go
index 37d624f..a103654 100644
--- a/cmd/sqlgen/internal/strfmt/strfmt.go
+++ b/cmd/sqlgen/internal/strfmt/strfmt.go
@@ -1,6 +1,9 @@
 package strfmt
 
-import "strings"
+import (
+	"strings"
+	"unicode/utf8"
+)
 
 var uppercaseAcronym = map[string]string{
 	"ID": "id",
@@ -46,6 +49,9 @@ func toCamelInitCase(s string, initCase bool) string {
 		} else if vIsNum := v >= '0' && v <= '9'; vIsNum {
 			n.WriteByte(v)
 			capNext = true
+		} else if v >= utf8.RuneSelf { // part of a multi-byte character, keep it
+			n.WriteByte(v)
+			capNext = false
 		} else {
 			capNext = v == '_' || v == ' ' || v == '-' || v == '.'
 		}
-- 
2.43.0


From dc14ecc50001d6b305e0cd28a21c5b192188e82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:03 +0000
Subject: [PATCH 09/13] fix: merge every setting of a config and keep the
 unspecified ones

---
 cmd/sqlgen/codegen/config.go | 76 +++++++++++++++++++++++++++---------
 1 file changed, 57 insertions(+), 19 deletions(-)

diff --git a/cmd/sqlgen/codegen/config.go b/cmd/sqlgen/codegen/config.go
index 4ac3c22..ff714fb 100644
--- a/cmd/sqlgen/codegen/config.go
+++ b/cmd/sqlgen/codegen/config.go
@@ -183,7 +183,6 @@ func (c *Config) initIfEmpty() {
 }
 
 func (c *Config) Merge(mapCfg *Config) *Config {
-	c.QuoteIdentifier = mapCfg.QuoteIdentifier
 	if mapCfg.Source != nil {
 		c.Source = append([]string{}, mapCfg.Source...)
 	}
@@ -200,6 +199,12 @@ func (c *Config) Merge(mapCfg *Config) *Config {
 	if mapCfg.Tag != "" {
 		c.Tag = mapCfg.Tag
 	}
+	if mapCfg.QuoteIdentifier {
+		c.QuoteIdentifier = true
+	}
+	if mapCfg.ReadOnly {
+		c.ReadOnly = true
+	}
 	if mapCfg.Getter.Prefix != "" {
 		c.Getter.Prefix = mapCfg.Getter.Prefix
 	}
@@ -210,19 +215,13 @@ func (c *Config) Merge(mapCfg *Config) *Config {
 		c.Exec.Filename = mapCfg.Exec.Filename
 	}
 	if mapCfg.Database != nil {
-		c.Database = &DatabaseConfig{
-			Dir:      mapCfg.Database.Dir,
-			Package:  mapCfg.Database.Package,
-			Filename: mapCfg.Database.Filename,
-		}
-
-		if mapCfg.Database.Operator != nil {
-			c.Database.Operator = &DatabaseOperatorConfig{
-				Dir:      mapCfg.Database.Operator.Dir,
-				Package:  mapCfg.Database.Operator.Package,
-				Filename: mapCfg.Database.Operator.Filename,
-			}
-		}
+		c.Database = c.Database.merge(mapCfg.Database)
+	}
+	if mapCfg.OmitGetters {
+		c.OmitGetters = true
+	}
+	if mapCfg.SourceMap {
+		c.SourceMap = true
 	}
 	if mapCfg.SkipHeader {
 		c.SkipHeader = true
@@ -231,20 +230,59 @@ func (c *Config) Merge(mapCfg *Config) *Config {
 		c.SkipModTidy = true
 	}
 	if mapCfg.Migration != nil {
-		c.Migration = &MigrationConfig{
-			DSN:      mapCfg.Migration.DSN,
-			Package:  mapCfg.Migration.Package,
-			Dir:      mapCfg.Migration.Dir,
-			Filename: mapCfg.Migration.Filename,
+		migration := MigrationConfig{}
+		if c.Migration != nil {
+			migration = *c.Migration
 		}
+		setIfNotEmpty(&migration.DSN, mapCfg.Migration.DSN)
+		setIfNotEmpty(&migration.Package, mapCfg.Migration.Package)
+		setIfNotEmpty(&migration.Dir, mapCfg.Migration.Dir)
+		setIfNotEmpty(&migration.Filename, mapCfg.Migration.Filename)
+		c.Migration = &migration
 	}
 	if mapCfg.DataTypes != nil {
+		if c.DataTypes == nil {
+			c.DataTypes = make(map[string]*DataType)
+		}
 		maps.Copy(c.DataTypes, mapCfg.DataTypes)
 	}
 	c.initIfEmpty()
 	return c
 }
 
+func (c *DatabaseConfig) merge(mapCfg *DatabaseConfig) *DatabaseConfig {
+	db, operator := DatabaseConfig{}, DatabaseOperatorConfig{}
+	if c != nil {
+		db = *c
+		if c.Operator != nil {
+			operator = *c.Operator
+			// The operator follows the database unless it is configured differently
+			if operator.Package == db.Package {
+				operator.Package = ""
+			}
+			if operator.Dir == db.Dir {
+				operator.Dir = ""
+			}
+		}
+	}
+	setIfNotEmpty(&db.Package, mapCfg.Package)
+	setIfNotEmpty(&db.Dir, mapCfg.Dir)
+	setIfNotEmpty(&db.Filename, mapCfg.Filename)
+	if mapCfg.Operator != nil {
+		setIfNotEmpty(&operator.Package, mapCfg.Operator.Package)
+		setIfNotEmpty(&operator.Dir, mapCfg.Operator.Dir)
+		setIfNotEmpty(&operator.Filename, mapCfg.Operator.Filename)
+	}
+	db.Operator = &operator
+	return &db
+}
+
+func setIfNotEmpty(dst *string, v string) {
+	if v != "" {
+		*dst = v
+	}
+}
+
 func (c Config) RenameFunc() func(string) string {
 	switch c.NamingConvention {
 	case SnakeCase:
-- 
2.43.0


From e9ddec5912c978cc73fe5db4ad461a2d84ccaa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:15 +0000
Subject: [PATCH 10/13] fix: update statements number the key's placeholder
 after the assigned columns

---
 cmd/sqlgen/codegen/generate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index f6b8f4a..9a981ca 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -628,11 +628,11 @@ func (g *Generator) buildUpdateByPK(w io.Writer, importPkgs *Package, t *compile
 	}
 	buf.WriteString(" WHERE ")
 	if pk, ok := t.AutoIncrKey(); ok {
-		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(t.Columns)))
+		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(columns)+1))
 		columns = append(columns, pk)
 	} else if len(t.Keys) == 1 {
 		pk := t.Keys[0]
-		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(t.Columns)))
+		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(columns)+1))
 		columns = append(columns, pk)
 	} else {
 		keyNames := lo.Map(t.Keys, func(v *compiler.Column, _ int) string {
-- 
2.43.0


From f3415c4e3bcfb4649d59b24ba5b52fcadd6029d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:15 +0000
Subject: [PATCH 11/13] fix: buildUpdateByPK returns its pooled buffer once

---
 cmd/sqlgen/codegen/generate.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 9a981ca..915252f 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -665,7 +665,6 @@ func (g *Generator) buildUpdateByPK(w io.Writer, importPkgs *Package, t *compile
 	}
 	fprintfln(w, "}")
 	fprintfln(w, "}")
-	strpool.ReleaseString(buf)
 	return nil
 }
 
-- 
2.43.0


From 7d90b93635f0245f0d49fd37d960756b51740b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:15 +0000
Subject: [PATCH 12/13] fix: generated string literals keep every byte of a
 name

---
 cmd/sqlgen/codegen/generate.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 915252f..8f96068 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -95,9 +95,7 @@ func (g *Generator) LogError(err error) {
 func (g *Generator) Quote(str string) string {
 	buf := make([]byte, 0, len(str))
 	buf = append(buf, byte(g.quoteRune))
-	for i := range str {
-		buf = append(buf, byte(str[i]))
-	}
+	buf = append(buf, str...)
 	buf = append(buf, byte(g.quoteRune))
 	return unsafe.String(unsafe.SliceData(buf), len(buf))
 }
-- 
2.43.0


From 259bbfe64d32e866db19adbb4b2f3d2ba203d255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:15 +0000
Subject: [PATCH 13/13] fix: composite key names are quoted like every other
 column name

---
 cmd/sqlgen/codegen/generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 8f96068..2d7a86c 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -386,7 +386,7 @@ func (g *Generator) buildCompositeKeys(w io.Writer, importPkgs *Package, table *
 		if i > 0 {
 			fmt.Fprint(w, `,`)
 		}
-		fmt.Fprint(w, g.Quote(f.Name))
+		fmt.Fprint(w, g.Quote(g.QuoteIdentifier(f.Name)))
 	}
 	fmt.Fprint(w, `}, []int{`)
 	for i, f := range table.Keys {
-- 
2.43.0


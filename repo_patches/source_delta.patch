From 2930f3c526caf6965d81aa1c5b12bdbe1f3e19fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:18 +0000
Subject: [PATCH 01/36] fix: NewLineDecoder panics for readers other than
 *bufio.Reader

The type assertion shadowed the reader with a nil *bufio.Reader.
---
 unjson/stream.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unjson/stream.go b/unjson/stream.go
index c0c1f79..21c3544 100644
--- a/unjson/stream.go
+++ b/unjson/stream.go
@@ -22,8 +22,8 @@ func NewLineDecoder(r io.Reader) *LineDecoder {
 		return nil
 	}
 	d := LineDecoder{}
-	if r, ok := r.(*bufio.Reader); ok {
-		d.r = r
+	if br, ok := r.(*bufio.Reader); ok {
+		d.r = br
 	} else {
 		d.r = bufio.NewReader(r)
 	}
-- 
2.43.0


From 7b37d96725d9a00cb1d20dc2508ddc770dec7f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:52 +0000
Subject: [PATCH 02/36] fix: LineDecoder loses or truncates records

The last line was lost if it was not terminated and filled the read buffer.
After a read error inside a line the part of the line before the error was
decoded as a record, and the rest of it as another.
---
 unjson/stream.go | 55 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/unjson/stream.go b/unjson/stream.go
index 21c3544..8b15528 100644
--- a/unjson/stream.go
+++ b/unjson/stream.go
@@ -13,6 +13,7 @@ import (
 type LineDecoder struct {
 	Decoder                // Use a specific type decoder
 	r       *bufio.Reader  // underlying reader
+	line    []byte         // the part of the current line read so far
 	p       njson.Document // a local njson.Parser
 }
 
@@ -32,27 +33,45 @@ func NewLineDecoder(r io.Reader) *LineDecoder {
 
 // Decode decodes the next JSON line in the stream to x
 func (d *LineDecoder) Decode(x interface{}) (err error) {
-	s := strings.Builder{}
+	line, err := d.readLine()
+	if err != nil {
+		return err
+	}
+	n, tail, err := d.p.Parse(line)
+	if err != nil {
+		return err
+	}
+	if strings.TrimSpace(tail) != "" {
+		return errors.New("Invalid line delimited JSON")
+	}
+	if d.Decoder == nil {
+		return UnmarshalFromNode(n, x)
+	}
+	return d.Decoder.Decode(x, n)
+}
+
+// readLine reads the next line of the stream.
+// The last line of the stream does not need to be terminated.
+// If the underlying reader fails the part of the line that is already read
+// is kept so that the line is still read whole if the error was temporary.
+func (d *LineDecoder) readLine() (string, error) {
 	for {
-		line, isPrefix, err := d.r.ReadLine()
-		if err != nil {
-			return err
-		}
-		s.Write(line)
-		if isPrefix {
+		part, err := d.r.ReadSlice('\n')
+		d.line = append(d.line, part...)
+		switch err {
+		case nil:
+		case bufio.ErrBufferFull:
 			continue
+		case io.EOF:
+			if len(d.line) == 0 {
+				return "", err
+			}
+		default:
+			return "", err
 		}
-		n, tail, err := d.p.Parse(s.String())
-		if err != nil {
-			return err
-		}
-		if strings.TrimSpace(tail) != "" {
-			return errors.New("Invalid line delimited JSON")
-		}
-		if d.Decoder == nil {
-			return UnmarshalFromNode(n, x)
-		}
-		return d.Decoder.Decode(x, n)
+		line := strings.TrimSuffix(string(d.line), "\n")
+		d.line = d.line[:0]
+		return strings.TrimSuffix(line, "\r"), nil
 	}
 }
 
-- 
2.43.0


From f0e69b988f6d3e30b8c0ce80eaf4ed379d545757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:53 +0000
Subject: [PATCH 03/36] fix: LineDecoder keeps the nodes of every decoded line

The memory of a decoder grew with the length of the stream.
---
 unjson/stream.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unjson/stream.go b/unjson/stream.go
index 8b15528..6de6fd1 100644
--- a/unjson/stream.go
+++ b/unjson/stream.go
@@ -37,6 +37,8 @@ func (d *LineDecoder) Decode(x interface{}) (err error) {
 	if err != nil {
 		return err
 	}
+	// Drop the nodes of the previous line
+	d.p.Reset()
 	n, tail, err := d.p.Parse(line)
 	if err != nil {
 		return err
-- 
2.43.0


From fd2fd3b134ff1c260ed68136d59522d271371140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:13 +0000
Subject: [PATCH 04/36] fix: decoding into a nil map panics

---
 unjson/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unjson/decode.go b/unjson/decode.go
index e87e213..cb9a4ca 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -305,6 +305,9 @@ func (d *mapDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	case njson.TypeNull:
 		return
 	case njson.TypeObject:
+		if v.IsNil() {
+			v.Set(reflect.MakeMap(d.typ))
+		}
 		val := reflect.New(d.typ.Elem()).Elem()
 		iter := n.Values()
 		for iter.Next() {
-- 
2.43.0


From 12d9a4c73e5ee2af0bbc862810391735505a7055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:13 +0000
Subject: [PATCH 05/36] fix: errors of slice and array elements are lost when
 decoding

---
 unjson/decode.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index cb9a4ca..6ad2ccf 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -197,7 +197,9 @@ func (dec *arrayDecoder) decode(v reflect.Value, n njson.Node) error {
 		iter := n.Values()
 		for i := 0; i < dec.size; i++ {
 			if iter.Next() {
-				dec.decoder.decode(v.Index(i), iter.Value())
+				if err := dec.decoder.decode(v.Index(i), iter.Value()); err != nil {
+					return err
+				}
 			} else {
 				for ; i < dec.size; i++ {
 					el := v.Index(i)
@@ -258,7 +260,7 @@ func (d *sliceDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 			err = d.decoder.decode(v.Index(i), iter.Value())
 			if err != nil {
 				v.SetLen(i)
-				break
+				return
 			}
 		}
 	default:
-- 
2.43.0


From ba2c453e70efbbc9861a0b9a82bc72b5cb6b7ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:14 +0000
Subject: [PATCH 06/36] fix: float64 values are encoded with float32 precision

---
 unjson/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unjson/encode.go b/unjson/encode.go
index cf89c9f..a9a05d0 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -131,7 +131,7 @@ func newEncoder(typ reflect.Type, options *Options, hints hint, codecs cache) (e
 	case reflect.Float32:
 		return newFloatEncoder(32, options)
 	case reflect.Float64:
-		return newFloatEncoder(32, options)
+		return newFloatEncoder(64, options)
 	case reflect.Bool:
 		return boolEncoder{}, nil
 	case reflect.String:
-- 
2.43.0


From 26df07d62c1db9b02cf385eba0ff2d126b3e431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:15 +0000
Subject: [PATCH 07/36] fix: Node.Append of an invalid node makes the document
 unusable

Skip invalid nodes as Set and Replace do.
---
 node.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/node.go b/node.go
index 2fd55ec..981b8c9 100644
--- a/node.go
+++ b/node.go
@@ -300,10 +300,13 @@ func (n Node) Append(values ...Node) {
 	if nn := n.get(); nn != nil && nn.info.IsArray() {
 		vv := nn.values
 		for _, v := range values {
-			vv = append(vv, V{
-				id:  n.doc.copyOrAdopt(v.Document(), v.ID(), n.id),
-				key: "",
-			})
+			// Skip invalid nodes
+			if id := n.doc.copyOrAdopt(v.Document(), v.ID(), n.id); id < maxUint {
+				vv = append(vv, V{
+					id:  id,
+					key: "",
+				})
+			}
 		}
 		// copyOrAdopt might grow nodes array invalidating nn pointer
 		n.doc.nodes[n.id].values = vv
-- 
2.43.0


From 87f8c1724888f48a97be591cd774b66bfee6e6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:35 +0000
Subject: [PATCH 08/36] fix: strings ending with an escaped backslash are not
 parsed

The backslash before the closing quote was taken to escape the quote.
---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index ee0ffb2..c052413 100644
--- a/parser.go
+++ b/parser.go
@@ -144,8 +144,8 @@ readString:
 		i := strings.IndexByte(s, delimString) - 1
 		if 0 <= i && i < len(s) {
 			if s[i] == delimEscape {
-				// Advance past '\' and '"' and scan the remaining string
-				for i += 2; 0 <= i && i < len(s); i++ { // Avoid bounds check
+				// The '\' might be escaped itself, scan the string from the first '\'
+				for i = strings.IndexByte(s, delimEscape); 0 <= i && i < len(s); i++ { // Avoid bounds check
 					switch s[i] {
 					case delimString:
 						// Slice until the closing quote
-- 
2.43.0


From e96b9a0f326b041ba30c79120a7bf28cd1d0acf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:36 +0000
Subject: [PATCH 09/36] fix: LineEncoder breaks lines of values that marshal
 with line breaks

---
 unjson/stream.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/unjson/stream.go b/unjson/stream.go
index 6de6fd1..d0114ca 100644
--- a/unjson/stream.go
+++ b/unjson/stream.go
@@ -103,6 +103,12 @@ func (e *LineEncoder) Encode(x interface{}) (err error) {
 	if err != nil {
 		return
 	}
+	// Custom marshalers can use line breaks as whitespace
+	for i, c := range e.buffer {
+		if c == '\n' || c == '\r' {
+			e.buffer[i] = ' '
+		}
+	}
 	e.buffer = append(e.buffer, '\n')
 	_, err = e.w.Write(e.buffer)
 	return
-- 
2.43.0


From fb9a4fd53cc60143f1d97f361e38a782d1d8f1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:36 +0000
Subject: [PATCH 10/36] fix: LineEncoder does not report short writes

---
 unjson/stream.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/unjson/stream.go b/unjson/stream.go
index d0114ca..88bf3b1 100644
--- a/unjson/stream.go
+++ b/unjson/stream.go
@@ -110,6 +110,9 @@ func (e *LineEncoder) Encode(x interface{}) (err error) {
 		}
 	}
 	e.buffer = append(e.buffer, '\n')
-	_, err = e.w.Write(e.buffer)
-	return
+	n, err := e.w.Write(e.buffer)
+	if err == nil && n < len(e.buffer) {
+		err = io.ErrShortWrite
+	}
+	return err
 }
-- 
2.43.0


From cc8c17aca37a1b6538f42f595247fd13c5151e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:37 +0000
Subject: [PATCH 11/36] fix: iterators show the values of a document that was
 reset

The values slice is reused by the document, possibly for a new owner.
---
 node.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 981b8c9..aa9996d 100644
--- a/node.go
+++ b/node.go
@@ -475,7 +475,7 @@ func (i *IterV) Close() {
 
 // Next increments the iteration cursor and checks if the iterarion finished.
 func (i *IterV) Next() bool {
-	if 0 <= i.index && i.index < len(i.values) {
+	if 0 <= i.index && i.index < len(i.values) && i.node.get() != nil {
 		i.V = i.values[i.index]
 		i.index++
 		return true
@@ -488,6 +488,9 @@ func (i *IterV) Next() bool {
 
 // Len returns the length of the values.
 func (i *IterV) Len() int {
+	if i.node.get() == nil {
+		return 0
+	}
 	return len(i.values)
 }
 
-- 
2.43.0


From ebb5760f7e5c206d909d7bef7ddaab771e042962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:35 +0000
Subject: [PATCH 12/36] fix: custom marshalers and unmarshalers of struct field
 types are not used

---
 unjson/cache.go  | 12 ++++++++++++
 unjson/decode.go | 23 ++++++++++++++++-------
 unjson/encode.go | 23 ++++++++++++++++-------
 3 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/unjson/cache.go b/unjson/cache.go
index f548ea6..d1f4078 100644
--- a/unjson/cache.go
+++ b/unjson/cache.go
@@ -94,6 +94,12 @@ func cacheType(typ reflect.Type) bool {
 	}
 }
 func (c cache) encoder(typ reflect.Type, options *Options, hints hint) (encoder, error) {
+	// A struct codec cached for decoding does not apply to types that encode themselves
+	if typ != nil {
+		if enc := newCustomEncoder(typ); enc != nil {
+			return enc, nil
+		}
+	}
 	key := cacheKey{typ, hints}
 	if x := c[key]; x != nil {
 		if e, ok := x.(encoder); ok {
@@ -109,6 +115,12 @@ func (c cache) encoder(typ reflect.Type, options *Options, hints hint) (encoder,
 }
 
 func (c cache) decoder(typ reflect.Type, options *Options) (decoder, error) {
+	// A struct codec cached for encoding does not apply to types that decode themselves
+	if typ != nil {
+		if dec := newCustomDecoder(typ); dec != nil {
+			return dec, nil
+		}
+	}
 	key := cacheKey{typ, 0}
 	if x := c[key]; x != nil {
 		if e, ok := x.(decoder); ok {
diff --git a/unjson/decode.go b/unjson/decode.go
index 6ad2ccf..060dfba 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -127,13 +127,8 @@ func newDecoder(typ reflect.Type, options *Options, codecs cache) (decoder, erro
 	if typ == nil {
 		return nil, errInvalidType
 	}
-	switch {
-	case typ.Implements(typNodeUnmarshaler):
-		return njsonDecoder{}, nil
-	case typ.Implements(typJSONUnmarshaler):
-		return jsonDecoder{}, nil
-	case typ.Implements(typTextUnmarshaler):
-		return textDecoder{}, nil
+	if dec := newCustomDecoder(typ); dec != nil {
+		return dec, nil
 	}
 
 	switch typ.Kind() {
@@ -167,6 +162,20 @@ func newDecoder(typ reflect.Type, options *Options, codecs cache) (decoder, erro
 	}
 }
 
+// newCustomDecoder returns a decoder for types that decode themselves
+func newCustomDecoder(typ reflect.Type) decoder {
+	switch {
+	case typ.Implements(typNodeUnmarshaler):
+		return njsonDecoder{}
+	case typ.Implements(typJSONUnmarshaler):
+		return jsonDecoder{}
+	case typ.Implements(typTextUnmarshaler):
+		return textDecoder{}
+	default:
+		return nil
+	}
+}
+
 type arrayDecoder struct {
 	// typ     reflect.Type
 	size      int
diff --git a/unjson/encode.go b/unjson/encode.go
index a9a05d0..f36b84a 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -100,13 +100,8 @@ func newEncoder(typ reflect.Type, options *Options, hints hint, codecs cache) (e
 	if typ == nil {
 		return nil, errInvalidType
 	}
-	switch {
-	case typ.Implements(typAppender):
-		return njsonEncoder{}, nil
-	case typ.Implements(typJSONMarshaler):
-		return jsonEncoder{}, nil
-	case typ.Implements(typTextMarshaler):
-		return textEncoder{}, nil
+	if enc := newCustomEncoder(typ); enc != nil {
+		return enc, nil
 	}
 	switch typ.Kind() {
 	case reflect.Ptr:
@@ -141,6 +136,20 @@ func newEncoder(typ reflect.Type, options *Options, hints hint, codecs cache) (e
 	}
 }
 
+// newCustomEncoder returns an encoder for types that encode themselves
+func newCustomEncoder(typ reflect.Type) encoder {
+	switch {
+	case typ.Implements(typAppender):
+		return njsonEncoder{}
+	case typ.Implements(typJSONMarshaler):
+		return jsonEncoder{}
+	case typ.Implements(typTextMarshaler):
+		return textEncoder{}
+	default:
+		return nil
+	}
+}
+
 type njsonEncoder struct{}
 
 func (njsonEncoder) encode(out []byte, v reflect.Value) ([]byte, error) {
-- 
2.43.0


From d5c37ce827e08859cdc952815ff6d27f4b40b2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:17 +0000
Subject: [PATCH 13/36] fix: generated code depends on map iteration order

---
 internal/generator/append.go    | 16 ++++++---
 internal/generator/generator.go | 10 +++++-
 internal/generator/unmarshal.go | 58 ++++++++++++++++-----------------
 3 files changed, 49 insertions(+), 35 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 11f41f8..f94b0d7 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -117,13 +117,21 @@ func (g *Generator) EnsureReversePath(path meta.FieldPath, code meta.Code) meta.
 	}`, path, code)
 }
 
+// sortFields returns the fields of a struct from the shallowest to the deepest, in order of declaration.
+func sortFields(fields meta.Fields) (sorted []meta.Field) {
+	for name := range fields {
+		sorted = append(sorted, fields[name]...)
+	}
+	sort.Slice(sorted, func(i, j int) bool {
+		return meta.ShortestPath(sorted[i].Path, sorted[j].Path) < 0
+	})
+	return
+}
+
 // StructAppender returns the AppendJSON block code for a struct
 func (g *Generator) StructAppender(fields meta.Fields) (c meta.Code) {
 	c = c.Println(`more := 0`)
-	sortedFields := []meta.Field{}
-	for name := range fields {
-		sortedFields = append(sortedFields, fields[name]...)
-	}
+	sortedFields := sortFields(fields)
 	sort.SliceStable(sortedFields, func(i, j int) bool {
 		return sortedFields[i].Tag < sortedFields[j].Tag
 	})
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 1dc7c54..20b0fda 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -19,6 +19,7 @@ import (
 	"log"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 	"time"
 
@@ -50,6 +51,7 @@ func (g *Generator) AllStructs() (all []string) {
 	for _, typ := range types {
 		all = append(all, g.TypeString(typ))
 	}
+	sort.Strings(all)
 	return
 }
 
@@ -210,7 +212,13 @@ func (g *Generator) Header() string {
 	h = append(h, fmt.Sprintf(headerComment, ts))
 	h = append(h, fmt.Sprintf("package %s", g.Name()))
 
-	for path, pkg := range g.imports {
+	paths := make([]string, 0, len(g.imports))
+	for path := range g.imports {
+		paths = append(paths, path)
+	}
+	sort.Strings(paths)
+	for _, path := range paths {
+		pkg := g.imports[path]
 		if filepath.Base(path) == pkg.Name() {
 			h = append(h, fmt.Sprintf("import %q", path))
 		} else {
diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index dd5a68e..10de980 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -303,33 +303,32 @@ func (g *Generator) StructUnmarshaler(t *types.Struct) (code meta.Code) {
 	fields := meta.NewFields(t, true)
 	tagKey := g.TagKey()
 	used := make(map[string]bool)
-	for name := range fields {
-		for _, field := range fields[name] {
-			field = field.WithTag(tagKey)
-			if field.Name() == "_" {
-				continue
-			}
-			if !CanUnmarshal(field.Type()) {
-				continue
-			}
-			name, tag, ok := g.parseField(field.Var, field.Tag)
-			if !ok {
-				continue
-			}
-			if tag.Name != "" {
-				name = tag.Name
-			}
-			if used[name] {
-				continue
-			}
-			used[name] = true
-			var cf meta.Code
-			if tag.Params.Has("raw") && meta.IsString(field.Type()) {
-				cf = g.RawStringUnmarshaler(field.Type())
-			} else {
-				cf = g.TypeUnmarshaler(field.Type())
-			}
-			code = g.Code(`%s
+	for _, field := range sortFields(fields) {
+		field = field.WithTag(tagKey)
+		if field.Name() == "_" {
+			continue
+		}
+		if !CanUnmarshal(field.Type()) {
+			continue
+		}
+		name, tag, ok := g.parseField(field.Var, field.Tag)
+		if !ok {
+			continue
+		}
+		if tag.Name != "" {
+			name = tag.Name
+		}
+		if used[name] {
+			continue
+		}
+		used[name] = true
+		var cf meta.Code
+		if tag.Params.Has("raw") && meta.IsString(field.Type()) {
+			cf = g.RawStringUnmarshaler(field.Type())
+		} else {
+			cf = g.TypeUnmarshaler(field.Type())
+		}
+		code = g.Code(`%s
 				case %s:
 					n := n.With(values.ID())
 					%s{
@@ -337,9 +336,8 @@ func (g *Generator) StructUnmarshaler(t *types.Struct) (code meta.Code) {
 						%s
 					}
 					`, code, fmt.Sprintf("`%s`", name), g.EnsurePath(field.Path), field.Path, cf)
-			if code.Err() != nil {
-				return
-			}
+		if code.Err() != nil {
+			return
 		}
 	}
 	return g.Code(`
-- 
2.43.0


From 22bef9cbbc632e2d5d20984bae4ebfb854d8f309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:29 +0000
Subject: [PATCH 14/36] fix: njson -w leaves a damaged output file when writing
 fails

---
 cmd/njson/njson.go | 71 ++++++++++++++++++++++++++++------------------
 1 file changed, 43 insertions(+), 28 deletions(-)

diff --git a/cmd/njson/njson.go b/cmd/njson/njson.go
index 54fd72e..96e9a00 100644
--- a/cmd/njson/njson.go
+++ b/cmd/njson/njson.go
@@ -1,8 +1,9 @@
 package main
 
 import (
+	"bytes"
 	"fmt"
-	"io"
+	"io/ioutil"
 	"log"
 	"os"
 	"path"
@@ -138,37 +139,51 @@ func main() {
 		return
 	}
 
-	var out io.Writer = os.Stdout
-	// var tout io.Writer = os.Stderr
 	if *writeFile {
-		filename := g.Filename()
-		filename = filepath.Join(*targetPath, filename)
-		f, err := os.Create(filename)
-		defer f.Close()
-		if err != nil {
-			logger.Fatalf("Failed to open file %q for writing: %s", filename, err)
+		filename := filepath.Join(*targetPath, g.Filename())
+		if err := writeOutput(filename, g); err != nil {
+			logger.Fatalf("Failed to write output: %s", err)
 		}
-		out = f
-		// if t != nil && t != g {
-		// 	filename := t.Filename()
-		// 	filename = filepath.Join(*targetPath, filename)
-		// 	f, err := os.Create(filename)
-		// 	defer f.Close()
-		// 	if err != nil {
-		// 		logger.Fatalf("Failed to open file %q for writing: %s", filename, err)
-		// 	}
-		// 	tout = f
-		// }
-
+		return
 	}
-	if err := g.PrintTo(out); err != nil {
+	if err := g.PrintTo(os.Stdout); err != nil {
 		logger.Fatalf("Failed to write output: %s", err)
 	}
-	// if t != nil && t != g {
-	// 	if err := t.PrintTo(tout); err != nil {
-	// 		logger.Fatalf("Failed to write tests: %s", err)
-
-	// 	}
-	// }
+}
 
+// writeOutput replaces a file with the output of a generator.
+// Whatever goes wrong the file is either left as it was or complete.
+func writeOutput(filename string, g *generator.Generator) (err error) {
+	out := new(bytes.Buffer)
+	if err = g.PrintTo(out); err != nil {
+		return
+	}
+	mode := os.FileMode(0644)
+	if info, err := os.Stat(filename); err == nil {
+		mode = info.Mode().Perm()
+	}
+	// The suffix is not .go so that an abandoned file is not part of the package
+	f, err := ioutil.TempFile(filepath.Dir(filename), filepath.Base(filename)+".tmp")
+	if err != nil {
+		return
+	}
+	defer func() {
+		if err != nil {
+			os.Remove(f.Name())
+		}
+	}()
+	_, err = f.Write(out.Bytes())
+	if err == nil {
+		err = f.Sync()
+	}
+	if e := f.Close(); err == nil {
+		err = e
+	}
+	if err == nil {
+		err = os.Chmod(f.Name(), mode)
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), filename)
+	}
+	return
 }
-- 
2.43.0


From a2914f0fa6125d51b4f9a75821d3b76d8edc9b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:00 +0000
Subject: [PATCH 15/36] fix: text of text marshalers is not escaped

---
 unjson/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unjson/encode.go b/unjson/encode.go
index f36b84a..d5bfe07 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -219,7 +219,7 @@ func (textEncoder) encode(out []byte, v reflect.Value) (text []byte, err error)
 	text, err = v.Interface().(encoding.TextMarshaler).MarshalText()
 	if err == nil {
 		out = append(out, delimString)
-		out = append(out, text...)
+		out = strjson.AppendEscaped(out, string(text), false)
 		out = append(out, delimString)
 	}
 	return out, err
-- 
2.43.0


From 89ea989ae0b7b3055af1bb249b38ec4f17cafbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:37 +0000
Subject: [PATCH 16/36] fix: text unmarshalers are given escaped text

---
 node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node.go b/node.go
index aa9996d..a788573 100644
--- a/node.go
+++ b/node.go
@@ -226,7 +226,7 @@ func (n Node) WrapUnmarshalText(u encoding.TextUnmarshaler) (err error) {
 		switch t := node.info.Type(); t {
 		case TypeString:
 			buf := bufferpool.Get().([]byte)
-			buf = append(buf[:0], node.raw...)
+			buf = strjson.AppendUnescaped(buf[:0], node.raw)
 			err = u.UnmarshalText(buf)
 			bufferpool.Put(buf)
 			return
-- 
2.43.0


From cb32e89af1b18c3365306cb2822a61031121c992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:23 +0000
Subject: [PATCH 17/36] fix: map keys are not unescaped and decoding custom key
 types panics

---
 document.go      |  2 +-
 unjson/decode.go | 41 ++++++++++++++++++++++++++++++-----------
 2 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/document.go b/document.go
index ea8a555..7c155e2 100644
--- a/document.go
+++ b/document.go
@@ -226,7 +226,7 @@ func (d *Document) toInterfaceMap(values []V) (interface{}, bool) {
 		ok bool
 	)
 	for _, v := range values {
-		m[v.key], ok = d.toInterface(v.id)
+		m[strjson.Unescaped(v.key)], ok = d.toInterface(v.id)
 		if !ok {
 			return nil, false
 		}
diff --git a/unjson/decode.go b/unjson/decode.go
index 060dfba..baaeab0 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -281,9 +281,8 @@ func (d *sliceDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 
 type mapDecoder struct {
 	typ       reflect.Type
-	keys      decoder
+	textKeys  bool // keys decode themselves from text
 	decoder   decoder
-	zeroKey   reflect.Value
 	zeroValue reflect.Value
 }
 
@@ -292,14 +291,11 @@ func newMapDecoder(typ reflect.Type, options *Options, codecs cache) (*mapDecode
 	el := typ.Elem()
 	md := mapDecoder{
 		typ:       typ,
-		zeroKey:   reflect.Zero(key),
 		zeroValue: reflect.Zero(el),
 	}
-	if key.Implements(typTextUnmarshaler) {
-		md.keys = textDecoder{}
-	} else if key.Kind() == reflect.String {
-		md.keys = stringDecoder{}
-	} else {
+	if reflect.PtrTo(key).Implements(typTextUnmarshaler) || key.Kind() == reflect.Ptr && key.Implements(typTextUnmarshaler) {
+		md.textKeys = true
+	} else if key.Kind() != reflect.String {
 		return nil, errInvalidType
 	}
 	// First cache the decoder to avoid recursion issues
@@ -319,15 +315,21 @@ func (d *mapDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 		if v.IsNil() {
 			v.Set(reflect.MakeMap(d.typ))
 		}
-		val := reflect.New(d.typ.Elem()).Elem()
-		iter := n.Values()
+		var (
+			key  reflect.Value
+			val  = reflect.New(d.typ.Elem()).Elem()
+			iter = n.Values()
+		)
 		for iter.Next() {
 			val.Set(d.zeroValue)
 			err = d.decoder.decode(val, iter.Value())
 			if err != nil {
 				return
 			}
-			v.SetMapIndex(reflect.ValueOf(iter.Key()), val)
+			if key, err = d.decodeKey(iter.Key()); err != nil {
+				return
+			}
+			v.SetMapIndex(key, val)
 		}
 		return
 	default:
@@ -335,6 +337,23 @@ func (d *mapDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	}
 }
 
+// decodeKey converts the raw key of an object to a key of the map
+func (d *mapDecoder) decodeKey(raw string) (reflect.Value, error) {
+	text := strjson.Unescaped(raw)
+	key := reflect.New(d.typ.Key()).Elem()
+	if !d.textKeys {
+		key.SetString(text)
+		return key, nil
+	}
+	u, ok := key.Addr().Interface().(encoding.TextUnmarshaler)
+	if !ok {
+		// The key is a pointer to a type that decodes itself
+		key.Set(reflect.New(d.typ.Key().Elem()))
+		u = key.Interface().(encoding.TextUnmarshaler)
+	}
+	return key, u.UnmarshalText([]byte(text))
+}
+
 type ptrDecoder struct {
 	decoder decoder
 	zero    reflect.Value
-- 
2.43.0


From 494f652e2cc81ff7809d930c4934fa274843ee3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:24 +0000
Subject: [PATCH 18/36] fix: fields of embedded nil pointers are lost when
 decoding

---
 unjson/codec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index 08ebc0a..9dbceb7 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -218,7 +218,7 @@ func (c *structCodec) decode(v reflect.Value, n njson.Node) (err error) {
 				for _, i := range fc.index[1:] {
 					if i == -1 {
 						if field.IsNil() {
-							field = reflect.New(field.Type().Elem())
+							field.Set(reflect.New(field.Type().Elem()))
 						}
 						field = field.Elem()
 					} else {
-- 
2.43.0


From ec266302c138fcb1c0f44c1ae424b8f41458243a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:34 +0000
Subject: [PATCH 19/36] fix: numbers lose precision when they are parsed

---
 node.go            |  7 ++----
 numjson/numjson.go | 62 +++++++++++++++++++++++++++++++++++-----------
 2 files changed, 49 insertions(+), 20 deletions(-)

diff --git a/node.go b/node.go
index a788573..94b81c9 100644
--- a/node.go
+++ b/node.go
@@ -4,7 +4,6 @@ import (
 	"encoding"
 	"encoding/json"
 	"io"
-	"math"
 	"strconv"
 	"sync"
 
@@ -103,8 +102,7 @@ func (n Node) ToFloat() (float64, bool) {
 // ToInt converts a node's value to int64.
 func (n Node) ToInt() (int64, bool) {
 	if n := n.get(); n != nil {
-		f := numjson.ParseFloat(n.raw)
-		return int64(f), math.MinInt64 <= f && f < math.MaxInt64 && math.Trunc(f) == f
+		return numjson.ParseInt(n.raw)
 	}
 	return 0, false
 }
@@ -112,8 +110,7 @@ func (n Node) ToInt() (int64, bool) {
 // ToUint converts a node's  value to uint64.
 func (n Node) ToUint() (uint64, bool) {
 	if n := n.get(); n != nil {
-		f := numjson.ParseFloat(n.raw)
-		return uint64(f), 0 <= f && f < math.MaxUint64 && math.Trunc(f) == f
+		return numjson.ParseUint(n.raw)
 	}
 	return 0, false
 }
diff --git a/numjson/numjson.go b/numjson/numjson.go
index fb3c233..204d27e 100644
--- a/numjson/numjson.go
+++ b/numjson/numjson.go
@@ -12,10 +12,12 @@ func ParseFloat(s string) float64 {
 	var (
 		i      uint
 		j      int
+		n      int // number of integer digits
 		c      byte
 		num    uint64
 		dec    uint64
 		f      float64
+		ok     bool
 		signed bool
 	)
 	if len(s) > 0 {
@@ -55,8 +57,9 @@ func ParseFloat(s string) float64 {
 	}
 	goto fallback
 decimal:
+	n = j
+	j = 0
 	if c == '.' {
-		j = 0
 		for i++; i < uint(len(s)); i++ {
 			c = s[i]
 			if '0' <= c && c <= '9' {
@@ -69,21 +72,17 @@ decimal:
 			}
 			return fNaN
 		}
-		if 0 < j && j <= 18 {
-			f = float64(num) + float64(dec)*math.Pow10(-j)
-			if signed {
-				return -f
-			}
-			return f
-		}
 		if j == 0 {
 			return fNaN
 		}
-		goto fallback
+		if f, ok = exact(num, dec, n, j, 0); !ok {
+			goto fallback
+		}
+		goto done
 	}
 scientific:
 	if c == 'e' || c == 'E' {
-		signed := false
+		expSigned := false
 		exp := 0
 		jj := 0
 		for i++; i < uint(len(s)); i++ {
@@ -96,7 +95,7 @@ scientific:
 			if jj == 0 {
 				switch c {
 				case '-':
-					signed = true
+					expSigned = true
 					continue
 				case '+':
 					continue
@@ -110,10 +109,11 @@ scientific:
 		if exp > 300 {
 			goto fallback
 		}
-		if signed {
-			f = (float64(num) + float64(dec)*math.Pow10(-j)) * math.Pow10(-exp)
-		} else {
-			f = float64(num)*math.Pow10(exp) + float64(dec)*math.Pow10(exp-j)
+		if expSigned {
+			exp = -exp
+		}
+		if f, ok = exact(num, dec, n, j, exp); !ok {
+			goto fallback
 		}
 		goto done
 	}
@@ -129,14 +129,46 @@ fallback:
 
 }
 
+// exact combines the n integer digits of num, the j decimal digits of dec and an exponent
+// if the result can be calculated without rounding the intermediate values.
+func exact(num, dec uint64, n, j, exp int) (float64, bool) {
+	const (
+		maxDigits = 15 // 10^15 < 2^53
+		maxPow10  = 22 // 10^22 is exactly representable
+	)
+	if n+j > maxDigits {
+		return 0, false
+	}
+	for i := 0; i < j; i++ {
+		num *= 10
+	}
+	f := float64(num + dec)
+	switch exp -= j; {
+	case 0 <= exp && exp <= maxPow10:
+		return f * math.Pow10(exp), true
+	case -maxPow10 <= exp && exp < 0:
+		return f / math.Pow10(-exp), true
+	default:
+		return 0, false
+	}
+}
+
 // ParseInt parses an int from string
 func ParseInt(s string) (int64, bool) {
+	// Large integers lose precision as floats
+	if i, err := strconv.ParseInt(s, 10, 64); err == nil && s[0] != '+' {
+		return i, true
+	}
 	f := ParseFloat(s)
 	return int64(f), math.MinInt64 <= f && f < math.MaxInt64 && math.Trunc(f) == f
 }
 
 // ParseUint parses an uint from string
 func ParseUint(s string) (uint64, bool) {
+	// Large integers lose precision as floats
+	if u, err := strconv.ParseUint(s, 10, 64); err == nil {
+		return u, true
+	}
 	f := ParseFloat(s)
 	return uint64(f), 0 <= f && f < math.MaxUint64 && math.Trunc(f) == f
 }
-- 
2.43.0


From 038163ccbd18cd0ff23832013b97b0a8cf659ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:36 +0000
Subject: [PATCH 20/36] fix: numbers that overflow their type are decoded as
 different numbers

---
 unjson/decode.go | 48 ++++++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index baaeab0..65af62a 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -4,6 +4,7 @@ import (
 	"encoding"
 	"encoding/json"
 	"errors"
+	"math"
 	"reflect"
 	"strconv"
 
@@ -447,14 +448,16 @@ func (uintDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	switch raw, t := n.Data(); t {
 	case njson.TypeNumber:
 		n, ok := numjson.ParseUint(raw)
-		if ok {
-			v.SetUint(n)
-			return nil
+		if !ok {
+			if n, err = strconv.ParseUint(raw, 10, 64); err != nil {
+				return
+			}
 		}
-		if n, err = strconv.ParseUint(raw, 10, 64); err == nil {
-			v.SetUint(n)
+		if v.OverflowUint(n) {
+			return errValue
 		}
-		return
+		v.SetUint(n)
+		return nil
 	default:
 		return n.TypeError(njson.TypeNumber)
 	case njson.TypeNull:
@@ -469,14 +472,16 @@ func (intDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	switch raw, t := n.Data(); t {
 	case njson.TypeNumber:
 		n, ok := numjson.ParseInt(raw)
-		if ok {
-			v.SetInt(n)
-			return nil
+		if !ok {
+			if n, err = strconv.ParseInt(raw, 10, 64); err != nil {
+				return
+			}
 		}
-		if n, err = strconv.ParseInt(raw, 10, 64); err == nil {
-			v.SetInt(n)
+		if v.OverflowInt(n) {
+			return errValue
 		}
-		return
+		v.SetInt(n)
+		return nil
 	default:
 		return n.TypeError(njson.TypeNumber)
 	case njson.TypeNull:
@@ -491,14 +496,21 @@ func (floatDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	switch raw, typ := n.Data(); typ {
 	case njson.TypeNumber:
 		f := numjson.ParseFloat(raw)
-		if f == f {
-			v.SetFloat(f)
-			return nil
+		if f != f {
+			if f, err = strconv.ParseFloat(raw, 64); err != nil {
+				return
+			}
 		}
-		if f, err = strconv.ParseFloat(raw, 64); err == nil {
-			v.SetFloat(f)
+		if v.Kind() == reflect.Float32 {
+			// Round first, the largest float32 is usually written as a larger number
+			f32 := float64(float32(f))
+			if math.IsInf(f32, 0) && !math.IsInf(f, 0) {
+				return errValue
+			}
+			f = f32
 		}
-		return
+		v.SetFloat(f)
+		return nil
 	case njson.TypeNull:
 		v.SetFloat(0)
 		return nil
-- 
2.43.0


From dd47e6a5cd25166097180c0574a6e1eee9ca6cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:36 +0000
Subject: [PATCH 21/36] fix: encoding nil pointers and decoding to them panics

---
 unjson/decode.go |  5 +++--
 unjson/encode.go | 23 +++++++++++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index 65af62a..ce74d22 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -37,7 +37,7 @@ type typeDecoder struct {
 }
 
 // Decode implements the Decoder interface.
-// It handles the case of a x being a nil pointer by creating a new blank value.
+// If x is a nil pointer only null can be decoded.
 func (c *typeDecoder) Decode(x interface{}, n njson.Node) error {
 	if x == nil {
 		return errInvalidValueType
@@ -50,7 +50,8 @@ func (c *typeDecoder) Decode(x interface{}, n njson.Node) error {
 		if n.Type() == njson.TypeNull {
 			return nil
 		}
-		v.Set(reflect.New(c.typ.Elem()))
+		// There's nowhere to store the value
+		return errInvalidValueType
 	}
 	return c.decode(v.Elem(), n)
 }
diff --git a/unjson/encode.go b/unjson/encode.go
index d5bfe07..cb513f9 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -42,9 +42,14 @@ func (m *typeEncoder) Encode(out []byte, x interface{}) ([]byte, error) {
 	}
 	v := reflect.ValueOf(x)
 	if v.Kind() == reflect.Ptr {
+		if v.Type().Elem() != m.typ {
+			return out, errInvalidValueType
+		}
+		if v.IsNil() {
+			return append(out, strNull...), nil
+		}
 		v = v.Elem()
-	}
-	if v.Type() != m.typ {
+	} else if v.Type() != m.typ {
 		return out, errInvalidValueType
 	}
 	return m.encode(out, v)
@@ -150,15 +155,26 @@ func newCustomEncoder(typ reflect.Type) encoder {
 	}
 }
 
+// isNil checks if v is a nil pointer or interface
+func isNil(v reflect.Value) bool {
+	return (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) && v.IsNil()
+}
+
 type njsonEncoder struct{}
 
 func (njsonEncoder) encode(out []byte, v reflect.Value) ([]byte, error) {
+	if isNil(v) {
+		return append(out, strNull...), nil
+	}
 	return v.Interface().(njson.Appender).AppendJSON(out)
 }
 
 type jsonEncoder struct{}
 
 func (jsonEncoder) encode(out []byte, v reflect.Value) (b []byte, err error) {
+	if isNil(v) {
+		return append(out, strNull...), nil
+	}
 	b, err = v.Interface().(json.Marshaler).MarshalJSON()
 	if err == nil && b != nil {
 		out = append(out, b...)
@@ -216,6 +232,9 @@ func (c interfaceEncoder) encode(b []byte, v reflect.Value) ([]byte, error) {
 type textEncoder struct{}
 
 func (textEncoder) encode(out []byte, v reflect.Value) (text []byte, err error) {
+	if isNil(v) {
+		return append(out, strNull...), nil
+	}
 	text, err = v.Interface().(encoding.TextMarshaler).MarshalText()
 	if err == nil {
 		out = append(out, delimString)
-- 
2.43.0


From 0473a2c47f41502930662a2c4b2776ff399c349c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:36 +0000
Subject: [PATCH 22/36] fix: marshal and unmarshal methods of pointers are not
 used for values

---
 unjson/cache.go  | 25 +++++++++++++++++++++++++
 unjson/decode.go | 36 ++++++++++++++++++++++++++++++++----
 unjson/encode.go | 39 ++++++++++++++++++++++-----------------
 3 files changed, 79 insertions(+), 21 deletions(-)

diff --git a/unjson/cache.go b/unjson/cache.go
index d1f4078..68fa28b 100644
--- a/unjson/cache.go
+++ b/unjson/cache.go
@@ -99,7 +99,15 @@ func (c cache) encoder(typ reflect.Type, options *Options, hints hint) (encoder,
 		if enc := newCustomEncoder(typ); enc != nil {
 			return enc, nil
 		}
+		if custom := newCustomEncoder(reflect.PtrTo(typ)); custom != nil {
+			// Use the methods of the type's pointer if possible
+			return addrEncoder{custom, c.fallbackEncoder(typ, options, hints)}, nil
+		}
 	}
+	return c.defaultEncoder(typ, options, hints)
+}
+
+func (c cache) defaultEncoder(typ reflect.Type, options *Options, hints hint) (encoder, error) {
 	key := cacheKey{typ, hints}
 	if x := c[key]; x != nil {
 		if e, ok := x.(encoder); ok {
@@ -114,6 +122,23 @@ func (c cache) encoder(typ reflect.Type, options *Options, hints hint) (encoder,
 	return enc, nil
 }
 
+// fallbackEncoder returns the default encoder of a type or nil if the type is not supported.
+func (c cache) fallbackEncoder(typ reflect.Type, options *Options, hints hint) encoder {
+	// Incomplete codecs of types that are not supported should not be cached
+	tmp := make(cache, len(c))
+	for key, x := range c {
+		tmp[key] = x
+	}
+	enc, err := tmp.defaultEncoder(typ, options, hints)
+	if err != nil {
+		return nil
+	}
+	for key, x := range tmp {
+		c[key] = x
+	}
+	return enc
+}
+
 func (c cache) decoder(typ reflect.Type, options *Options) (decoder, error) {
 	// A struct codec cached for encoding does not apply to types that decode themselves
 	if typ != nil {
diff --git a/unjson/decode.go b/unjson/decode.go
index ce74d22..2428b7f 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -74,7 +74,11 @@ func (njsonDecoder) Decode(x interface{}, n njson.Node) error {
 }
 
 func (njsonDecoder) decode(v reflect.Value, n njson.Node) error {
-	return v.Interface().(njson.Unmarshaler).UnmarshalNodeJSON(n)
+	x, err := customValue(v)
+	if err != nil {
+		return err
+	}
+	return x.(njson.Unmarshaler).UnmarshalNodeJSON(n)
 }
 
 // jsonDecoder implements the Decoder interface for types implementing json.Unmarshaller
@@ -89,7 +93,11 @@ func (jsonDecoder) Decode(x interface{}, n njson.Node) (err error) {
 }
 
 func (jsonDecoder) decode(v reflect.Value, n njson.Node) (err error) {
-	return n.WrapUnmarshalJSON(v.Interface().(json.Unmarshaler))
+	x, err := customValue(v)
+	if err != nil {
+		return err
+	}
+	return n.WrapUnmarshalJSON(x.(json.Unmarshaler))
 }
 
 // NewTypeDecoder creates a new decoder for a type.
@@ -164,8 +172,13 @@ func newDecoder(typ reflect.Type, options *Options, codecs cache) (decoder, erro
 	}
 }
 
-// newCustomDecoder returns a decoder for types that decode themselves
+// newCustomDecoder returns a decoder for types that decode themselves.
+// Pointers to such types are handled by ptrDecoder so that nil pointers get a value.
 func newCustomDecoder(typ reflect.Type) decoder {
+	if typ.Kind() != reflect.Interface {
+		// Values are decoded in place so the methods of their pointers apply
+		typ = reflect.PtrTo(typ)
+	}
 	switch {
 	case typ.Implements(typNodeUnmarshaler):
 		return njsonDecoder{}
@@ -178,6 +191,17 @@ func newCustomDecoder(typ reflect.Type) decoder {
 	}
 }
 
+// customValue returns the value to call the methods of a type that decodes itself on
+func customValue(v reflect.Value) (interface{}, error) {
+	if v.Kind() != reflect.Interface {
+		return v.Addr().Interface(), nil
+	}
+	if v.IsNil() {
+		return nil, errInvalidValueType
+	}
+	return v.Interface(), nil
+}
+
 type arrayDecoder struct {
 	// typ     reflect.Type
 	size      int
@@ -524,7 +548,11 @@ type textDecoder struct{}
 
 func (textDecoder) decode(v reflect.Value, n njson.Node) error {
 	if n.Type() == njson.TypeString {
-		return n.WrapUnmarshalText(v.Interface().(encoding.TextUnmarshaler))
+		x, err := customValue(v)
+		if err != nil {
+			return err
+		}
+		return n.WrapUnmarshalText(x.(encoding.TextUnmarshaler))
 	}
 	return n.TypeError(njson.TypeString)
 }
diff --git a/unjson/encode.go b/unjson/encode.go
index cb513f9..5a72f2f 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -77,27 +77,15 @@ func newTypeEncoder(typ reflect.Type, options *Options) (*typeEncoder, error) {
 	if typ == nil {
 		return nil, errInvalidType
 	}
-	m := typeEncoder{}
+	m := typeEncoder{typ: typ}
 	if typ.Kind() == reflect.Ptr {
 		m.typ = typ.Elem()
-	} else {
-		m.typ = typ
-		typ = reflect.PtrTo(typ)
 	}
-	switch {
-	case typ.Implements(typAppender):
-		m.encoder = njsonEncoder{}
-	case typ.Implements(typJSONMarshaler):
-		m.encoder = jsonEncoder{}
-	case typ.Implements(typTextMarshaler):
-		m.encoder = textEncoder{}
-	default:
-		e, err := newEncoder(m.typ, options, 0, cache{})
-		if err != nil {
-			return nil, err
-		}
-		m.encoder = e
+	e, err := cache{}.encoder(m.typ, options, 0)
+	if err != nil {
+		return nil, err
 	}
+	m.encoder = e
 	return &m, nil
 }
 
@@ -141,6 +129,23 @@ func newEncoder(typ reflect.Type, options *Options, hints hint, codecs cache) (e
 	}
 }
 
+// addrEncoder encodes values of types whose pointers encode themselves.
+// Values that are not addressable are encoded using the type's default encoder.
+type addrEncoder struct {
+	custom encoder
+	encoder
+}
+
+func (e addrEncoder) encode(out []byte, v reflect.Value) ([]byte, error) {
+	if v.CanAddr() {
+		return e.custom.encode(out, v.Addr())
+	}
+	if e.encoder == nil {
+		return out, errInvalidType
+	}
+	return e.encoder.encode(out, v)
+}
+
 // newCustomEncoder returns an encoder for types that encode themselves
 func newCustomEncoder(typ reflect.Type) encoder {
 	switch {
-- 
2.43.0


From 3e6bf14d6f0b5e8ff73f7c60beeca23ae5d4d2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:10 +0000
Subject: [PATCH 23/36] fix: unmarshal methods that cannot be generated are
 silently left out

---
 internal/generator/unmarshal.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 10de980..0e39acf 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -39,7 +39,11 @@ func (g *Generator) Unmarshaler(typeName string) (code meta.Code) {
 
 // WriteUnmarshaler writes an unmarshaler method for a type in the generator's buffer.
 func (g *Generator) WriteUnmarshaler(typeName string) (err error) {
-	code := g.Unmarshaler(typeName).Format()
+	code := g.Unmarshaler(typeName)
+	if err = code.Err(); err != nil {
+		return
+	}
+	code = code.Format()
 	if err = code.Err(); err != nil {
 		return
 	}
-- 
2.43.0


From f17dd52296b49463e5eab0177df93faedfb62cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:34 +0000
Subject: [PATCH 24/36] fix: decoding into a named empty interface type panics

---
 unjson/decode.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index 2428b7f..78873df 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -445,8 +445,11 @@ func (interfaceDecoder) decode(v reflect.Value, n njson.Node) error {
 		return errInvalidValueType
 	}
 	if x, ok := n.ToInterface(); ok {
-		xx := v.Addr().Interface().(*interface{})
-		*xx = x
+		if x == nil {
+			v.Set(reflect.Zero(v.Type()))
+		} else {
+			v.Set(reflect.ValueOf(x))
+		}
 		return nil
 	}
 	return n.TypeError(njson.TypeAnyValue)
-- 
2.43.0


From df5c20c05149a81961b12ca111b3982b7c8bd55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:05 +0000
Subject: [PATCH 25/36] fix: generated unmarshalers give a slice decoded into
 again exactly the values of its array

---
 internal/generator/unmarshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 0e39acf..d02e190 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -118,7 +118,7 @@ case njson.TypeArray:
 	size := values.Len()
 	
 	if cap(*r) < size {
-		*r = make([]%s, len(*r) + size)
+		*r = make([]%s, size)
 	} else {
 		*r = (*r)[:size]
 	}
-- 
2.43.0


From 0480c2a87c471fb516142fb79cb04bcc738af40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:16 +0000
Subject: [PATCH 26/36] fix: generated unmarshalers store values their fields
 cannot hold as different values

---
 internal/generator/unmarshal.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index d02e190..8d862df 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -166,12 +166,15 @@ func (g *Generator) BasicUnmarshaler(t types.Type, b *types.Basic) (code meta.Co
 	case types.Bool:
 		c = "if b, ok := n.ToBool(); ok { *r = %s(b) } else { return n.TypeError(njson.TypeBoolean) }"
 	case types.String:
-		return g.Code("*r = %s(n.Unescaped())", t)
+		c = "if typ := n.Type(); typ == njson.TypeString || typ == njson.TypeNull { *r = %s(n.Unescaped()) } else { return n.TypeError(njson.TypeString) }"
 	case types.Int, types.Int8, types.Int16, types.Int32, types.Int64:
-		c = "if i, ok := n.ToInt(); ok { *r = %s(i) } else { return n.TypeError(njson.TypeNumber) }"
+		c = "if i, ok := n.ToInt(); ok && int64(%[1]s(i)) == i { *r = %[1]s(i) } else { return n.TypeError(njson.TypeNumber) }"
 	case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
-		c = ("if u, ok := n.ToUint(); ok { *r = %s(u) } else { return n.TypeError(njson.TypeNumber) }")
-	case types.Float32, types.Float64:
+		c = "if u, ok := n.ToUint(); ok && uint64(%[1]s(u)) == u { *r = %[1]s(u) } else { return n.TypeError(njson.TypeNumber) }"
+	case types.Float32:
+		c = "if f, ok := n.ToFloat(); ok && !math.IsInf(float64(%[1]s(f)), 0) { *r = %[1]s(f) } else { return n.TypeError(njson.TypeNumber) }"
+		return g.Code(c, t).Import(njsonPkg, types.NewPackage("math", "math"))
+	case types.Float64:
 		c = "if f, ok := n.ToFloat(); ok { *r = %s(f) } else { return n.TypeError(njson.TypeNumber) }"
 	default:
 		return code.Error(typeError{t})
-- 
2.43.0


From c22c495479961fc494378ae04e579e813b0c7251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:18 +0000
Subject: [PATCH 27/36] fix: generated unmarshalers do not unescape map keys

---
 internal/generator/unmarshal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 8d862df..482562d 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -292,12 +292,12 @@ case njson.TypeObject:
 			r := &v
 			%[3]s
 		}
-		m[values.Key()] = v
+		m[%[1]s(strjson.Unescaped(values.Key()))] = v
 	}
 default:
 	return n.TypeError(njson.TypeObject|njson.TypeNull)
 }
-`, typK, typV, codeV).Import(njsonPkg)
+`, typK, typV, codeV).Import(njsonPkg, strjsonPkg)
 }
 
 // RawStringUnmarshaler unmarshals strings without unescaping
-- 
2.43.0


From fe7ccc6e8e5d6eb78c42110850d57c3c1c15c29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:21 +0000
Subject: [PATCH 28/36] fix: generated code does not escape the text of text
 marshalers

---
 internal/generator/append.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index f94b0d7..2b66b9d 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -197,9 +197,9 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 			return out, err
 		}
 		out = append(out, '"')
-		out = append(out, data...)
+		out = strjson.AppendEscaped(out, string(data), false)
 		out = append(out, '"')
-		`)
+		`).Import(strjsonPkg)
 
 	}
 	switch t := typ.Underlying().(type) {
-- 
2.43.0


From 42d6f4c1697db0441ad19188ec183668ce639d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:21 +0000
Subject: [PATCH 29/36] fix: generated code quotes map keys twice

---
 internal/generator/append.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 2b66b9d..2dc01a5 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -212,23 +212,31 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 			}
 		`, g.TypeAppender(t.Elem(), params))
 	case *types.Map:
+		key := g.TypeAppender(t.Key(), nil)
+		if b, ok := t.Key().Underlying().(*types.Basic); ok && b.Info()&types.IsString == 0 && !types.Implements(t.Key(), typTextMarshaler) {
+			// Strings and texts have their own quotes
+			key = g.Code(`
+				out = append(out, '"')
+				%s
+				out = append(out, '"')
+			`, key)
+		}
 		return g.Code(`
 			{
 				more := 0
 				for k, v := range v {
 					out = append(out, "{,"[more])
 					more = 1
-					out = append(out, '"')
 					{
 						v := k
 						%s
 					}
-					out = append(out, '"', ':')
+					out = append(out, ':')
 					%s
 				}
 				out = append(out, "{}"[more:]...)
 			}
-		`, g.TypeAppender(t.Key(), nil), g.TypeAppender(t.Elem(), params))
+		`, key, g.TypeAppender(t.Elem(), params))
 	case *types.Slice:
 		return g.Code(`
 			out = append(out, '[')
-- 
2.43.0


From 13467e6186da2cd93527f44679138662045b325f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:48 +0000
Subject: [PATCH 30/36] fix: generated code does not use marshal methods of
 pointers and panics for nil pointers

---
 internal/generator/append.go | 49 ++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 2dc01a5..710677e 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -28,6 +28,11 @@ func (g *Generator) Appender(typName string) (c meta.Code) {
 	}
 	receiverName := strings.ToLower(typName[:1])
 	method := g.AppendMethod()
+	var body types.Type = typ
+	if !types.Implements(typ, typJSONAppender) && !types.Implements(typ, typJSONMarshaler) && !types.Implements(typ, typTextMarshaler) {
+		// Methods of the type's pointer may be calling this one
+		body = typ.Underlying()
+	}
 	return g.Code(`
 		func (%[1]s *%[2]s) %[3]s(out []byte) ([]byte, error) {
 			if v := %[1]s; v != nil {
@@ -37,7 +42,7 @@ func (g *Generator) Appender(typName string) (c meta.Code) {
 			}
 			return out, nil
 		}
-	`, receiverName, typ, method, g.TypeAppender(typ, nil))
+	`, receiverName, typ, method, g.TypeAppender(body, nil))
 
 }
 
@@ -172,26 +177,31 @@ func (g *Generator) StructAppender(fields meta.Fields) (c meta.Code) {
 	return
 }
 
-// TypeAppender returnds the AppendJSON block code for a type
-func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Code) {
+// implements checks if a variable of a type has the methods of an interface.
+func implements(typ types.Type, iface *types.Interface) bool {
+	return types.Implements(typ, iface) || types.Implements(types.NewPointer(typ), iface)
+}
+
+// customAppender returns the code block to append a value by its own method, if it has one.
+func (g *Generator) customAppender(typ types.Type) (c meta.Code, ok bool) {
 	switch {
-	case types.Implements(typ, typJSONAppender):
-		return g.Code(`
+	case implements(typ, typJSONAppender):
+		c = g.Code(`
 		var err error
 		if out, err = v.AppendJSON(out); err != nil {
 			return out, err
 		}
 		`)
-	case types.Implements(typ, typJSONMarshaler):
-		return g.Code(`
+	case implements(typ, typJSONMarshaler):
+		c = g.Code(`
 		data, err := v.MarshalJSON()
 		if err != nil {
 			return out, err
 		}
 		out = append(out, data...)
 		`)
-	case types.Implements(typ, typTextMarshaler):
-		return g.Code(`
+	case implements(typ, typTextMarshaler):
+		c = g.Code(`
 		data, err := v.MarshalText()
 		if err != nil {
 			return out, err
@@ -200,7 +210,26 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 		out = strjson.AppendEscaped(out, string(data), false)
 		out = append(out, '"')
 		`).Import(strjsonPkg)
+	default:
+		return c, false
+	}
+	switch typ.Underlying().(type) {
+	case *types.Pointer, *types.Interface:
+		c = g.Code(`
+			if v == nil {
+				out = append(out, "null"...)
+			} else {
+				%s
+			}
+		`, c)
+	}
+	return c, true
+}
 
+// TypeAppender returnds the AppendJSON block code for a type
+func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Code) {
+	if c, ok := g.customAppender(typ); ok {
+		return c
 	}
 	switch t := typ.Underlying().(type) {
 	case *types.Pointer:
@@ -213,7 +242,7 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 		`, g.TypeAppender(t.Elem(), params))
 	case *types.Map:
 		key := g.TypeAppender(t.Key(), nil)
-		if b, ok := t.Key().Underlying().(*types.Basic); ok && b.Info()&types.IsString == 0 && !types.Implements(t.Key(), typTextMarshaler) {
+		if b, ok := t.Key().Underlying().(*types.Basic); ok && b.Info()&types.IsString == 0 && !implements(t.Key(), typTextMarshaler) {
 			// Strings and texts have their own quotes
 			key = g.Code(`
 				out = append(out, '"')
-- 
2.43.0


From 1ae19bde37a41b4944764e054341fad719881d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:13 +0000
Subject: [PATCH 31/36] fix: bytemaper -w truncates the output file before it
 has anything to write

---
 internal/bytemaper/bytemaper.go | 59 +++++++++++++++++++++++++++------
 1 file changed, 49 insertions(+), 10 deletions(-)

diff --git a/internal/bytemaper/bytemaper.go b/internal/bytemaper/bytemaper.go
index 2a33dc9..75ba008 100644
--- a/internal/bytemaper/bytemaper.go
+++ b/internal/bytemaper/bytemaper.go
@@ -1,9 +1,12 @@
 package main
 
 import (
+	"bytes"
 	"flag"
+	"io/ioutil"
 	"log"
 	"os"
+	"path/filepath"
 	"strconv"
 	"strings"
 	"unicode"
@@ -113,14 +116,6 @@ func fromHex(c byte) byte {
 }
 func main() {
 	flag.Parse()
-	w := os.Stdout
-	if *fileName != "" {
-		f, err := os.Create(*fileName)
-		if err != nil {
-			log.Fatalln("Failed to open file for writing", err)
-		}
-		w = f
-	}
 	masks := map[string]string{}
 	var tr func(b byte) byte
 	for _, arg := range flag.Args() {
@@ -192,14 +187,58 @@ func main() {
 		}
 		masks[name] = string(mask)
 	}
-	if err := tpl.Execute(w, map[string]interface{}{
+	out := new(bytes.Buffer)
+	err := tpl.Execute(out, map[string]interface{}{
 		"PkgName": *pkgName,
 		"Maps":    masks,
 		"Prefix":  *prefix,
-	}); err != nil {
+	})
+	if err == nil {
+		if *fileName == "" {
+			_, err = os.Stdout.Write(out.Bytes())
+		} else {
+			err = replaceFile(*fileName, out.Bytes())
+		}
+	}
+	if err != nil {
 		log.Fatalln("Failed to write file", err)
 	}
+}
 
+// replaceFile replaces the contents of a file.
+// Whatever goes wrong the file is either left as it was or complete.
+func replaceFile(filename string, data []byte) (err error) {
+	mode := os.FileMode(0644)
+	if info, err := os.Stat(filename); err == nil {
+		if !info.Mode().IsRegular() {
+			return ioutil.WriteFile(filename, data, mode)
+		}
+		mode = info.Mode().Perm()
+	}
+	// The suffix is not .go so that an abandoned file is not part of the package
+	f, err := ioutil.TempFile(filepath.Dir(filename), filepath.Base(filename)+".tmp")
+	if err != nil {
+		return
+	}
+	defer func() {
+		if err != nil {
+			os.Remove(f.Name())
+		}
+	}()
+	_, err = f.Write(data)
+	if err == nil {
+		err = f.Sync()
+	}
+	if e := f.Close(); err == nil {
+		err = e
+	}
+	if err == nil {
+		err = os.Chmod(f.Name(), mode)
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), filename)
+	}
+	return
 }
 
 var funcs = template.FuncMap{
-- 
2.43.0


From c6ed946556d3358cb06941d343603afbf839ba70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:13 +0000
Subject: [PATCH 32/36] fix: bytemaper makes an empty map for an argument of
 one character or one it cannot unquote

---
 internal/bytemaper/bytemaper.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/bytemaper/bytemaper.go b/internal/bytemaper/bytemaper.go
index 75ba008..4ac979d 100644
--- a/internal/bytemaper/bytemaper.go
+++ b/internal/bytemaper/bytemaper.go
@@ -121,11 +121,16 @@ func main() {
 	for _, arg := range flag.Args() {
 		name := arg
 		if i := strings.IndexByte(arg, ':'); i != -1 {
+			quoted := arg[i+1:]
 			name = arg[:i]
-			if arg = arg[i+1:]; len(arg) >= 2 && arg[0] != '"' && arg[len(arg)-1] != '"' {
-				arg = "\"" + arg + "\""
+			if len(quoted) < 2 || quoted[0] != '"' || quoted[len(quoted)-1] != '"' {
+				quoted = "\"" + quoted + "\""
 			}
-			arg, _ = strconv.Unquote(arg)
+			chars, err := strconv.Unquote(quoted)
+			if err != nil {
+				log.Fatalf("Invalid arg %q: %s\n", arg, err)
+			}
+			arg = chars
 		} else {
 			arg = ""
 		}
-- 
2.43.0


From d0fe117158cee9bd521093f250e3684388b696b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:08 +0000
Subject: [PATCH 33/36] fix: deeply nested input overflows the stack, which
 ends the process

---
 parser.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index c052413..38ece2a 100644
--- a/parser.go
+++ b/parser.go
@@ -7,9 +7,14 @@ import (
 type parser struct {
 	nodes []node
 	n     uint
+	depth uint // of nested arrays and objects
 	err   error
 }
 
+// maxDepth is how deep values can be nested.
+// It is the same as in encoding/json and guards against stack overflows that are fatal.
+const maxDepth = 10000
+
 // Parse parses a JSON string and returns the root node
 func (d *Document) Parse(s string) (Node, string, error) {
 	p := d.parser()
@@ -93,10 +98,22 @@ func (p *parser) parseValue(s string, pos uint) uint {
 				goto readString
 			}
 			if c == delimBeginObject {
-				return p.parseObject(s, pos+1)
+				if p.depth >= maxDepth {
+					return p.abort(pos, TypeObject, c, "less nesting")
+				}
+				p.depth++
+				pos = p.parseObject(s, pos+1)
+				p.depth--
+				return pos
 			}
 			if c == delimBeginArray {
-				return p.parseArray(s, pos+1)
+				if p.depth >= maxDepth {
+					return p.abort(pos, TypeArray, c, "less nesting")
+				}
+				p.depth++
+				pos = p.parseArray(s, pos+1)
+				p.depth--
+				return pos
 			}
 			if bytemapIsDigit[c] == 1 {
 				s = s[pos:]
-- 
2.43.0


From c1ea373bf215af89a5adbb3a48bbbe1176a3d67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:45 +0000
Subject: [PATCH 34/36] fix: appending many escaped or unescaped strings to one
 buffer took quadratic time

AppendEscaped and AppendUnescaped grew the buffer to exactly the size
needed, so appending n strings one after the other copied the whole
buffer each time.
---
 strjson/escape.go   | 8 +++-----
 strjson/unescape.go | 7 +++----
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/strjson/escape.go b/strjson/escape.go
index 7db23a1..7e61ffb 100644
--- a/strjson/escape.go
+++ b/strjson/escape.go
@@ -101,11 +101,9 @@ func AppendEscaped(dst []byte, s string, HTML bool) []byte {
 		pos  uint
 		i    uint
 	)
-	if size = len(dst) + len(s); cap(dst) < size {
-		if buf := make([]byte, len(dst), size); len(buf) >= len(dst) {
-			copy(buf[:len(dst)], dst)
-			dst = buf
-		}
+	if size = len(dst); cap(dst)-size < len(s) {
+		// Grow like append does, the buffer might be appended to many times
+		dst = append(dst, make([]byte, len(s))...)[:size]
 	}
 
 escape:
diff --git a/strjson/unescape.go b/strjson/unescape.go
index 5c55bbd..a8e335a 100644
--- a/strjson/unescape.go
+++ b/strjson/unescape.go
@@ -137,10 +137,9 @@ func AppendUnescaped(dst []byte, s string) []byte {
 		buf    []byte
 	)
 	if n = offset + len(s); cap(dst) < n {
-		buf = make([]byte, n)
-		copy(buf, dst)
-		dst = buf
-		buf = buf[offset:]
+		// Grow like append does, the buffer might be appended to many times
+		dst = append(dst, make([]byte, len(s))...)
+		buf = dst[offset:]
 	} else {
 		buf = dst[len(dst):cap(dst)]
 	}
-- 
2.43.0


From 2fc9368715fcbcb2cad43d1b5e3c2e4c86f40643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:14 +0000
Subject: [PATCH 35/36] fix: printing a generated file left the generator empty

PrintTo and DumpTo drained the generator's buffer. Printing again, after a
writer failed for example, wrote a header without any code and no error.
---
 internal/generator/generator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 20b0fda..25154e4 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -142,7 +142,7 @@ func (g *Generator) DumpTo(w io.Writer) error {
 	if _, err := w.Write([]byte(g.Header())); err != nil {
 		return err
 	}
-	if _, err := g.buffer.WriteTo(w); err != nil {
+	if _, err := w.Write(g.buffer.Bytes()); err != nil {
 		return err
 	}
 	return nil
@@ -153,7 +153,8 @@ func (g *Generator) PrintTo(w io.Writer) error {
 	fset := token.NewFileSet()
 	buf := new(bytes.Buffer)
 	buf.WriteString(g.Header())
-	g.buffer.WriteTo(buf)
+	// Keep the buffer so that the file can be written again
+	buf.Write(g.buffer.Bytes())
 	filename := g.Filename()
 	astFile, err := parser.ParseFile(fset, filename, buf.Bytes(), parser.ParseComments)
 	if err != nil {
-- 
2.43.0


From 41ba68955f3702035a184359ea3f7e7b4c8b47a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:15 +0000
Subject: [PATCH 36/36] fix: debug output that could not be written was
 reported as success

---
 cmd/njson/njson.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/njson/njson.go b/cmd/njson/njson.go
index 96e9a00..5cde979 100644
--- a/cmd/njson/njson.go
+++ b/cmd/njson/njson.go
@@ -132,7 +132,9 @@ func main() {
 		// }
 	}
 	if *debug {
-		g.DumpTo(os.Stderr)
+		if err := g.DumpTo(os.Stderr); err != nil {
+			logger.Fatalf("Failed to write output: %s", err)
+		}
 		if t != nil {
 			t.DumpTo(os.Stderr)
 		}
-- 
2.43.0


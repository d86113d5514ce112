From eb639531f77ff0741783df4b6711d224f1950ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:32 +0000
Subject: [PATCH 01/23] fix: keep the first rendering error and stop writing
 once it has occurred

Values wrote to the writer (and overwrote the context error) even after an
earlier write had failed, containers overwrote the context error with the
result of a later child, and errors returned by imperative funcs were dropped
by some containers - so a failed render could report success with torn output.
---
 aitch.go         | 11 +++++++++++
 collection.go    |  6 +++---
 conditional.go   |  2 +-
 element.go       |  2 +-
 html/document.go |  4 +++-
 imperative.go    | 10 ++++++----
 iterate.go       | 13 +++++++++----
 value.go         | 11 +++++++----
 8 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/aitch.go b/aitch.go
index a8f5e44..6f07fa5 100644
--- a/aitch.go
+++ b/aitch.go
@@ -40,6 +40,17 @@ const (
 	iteratorNode
 )
 
+// renderNode renders the node (unless rendering has already failed) and ensures that
+// the first error encountered is the one kept in the context
+func renderNode(ctx *context.Context, n Node) error {
+	if ctx.Error == nil {
+		if err := n.Render(ctx); err != nil && ctx.Error == nil {
+			ctx.Error = err
+		}
+	}
+	return ctx.Error
+}
+
 var (
 	space             = []byte{' '}
 	openAngleBracket  = []byte{'<'}
diff --git a/collection.go b/collection.go
index 69243c3..bd2f91f 100644
--- a/collection.go
+++ b/collection.go
@@ -11,8 +11,8 @@ type collection struct {
 func (c *collection) Render(ctx *context.Context) error {
 	for _, n := range c.nodes {
 		if n.Type() != AttributeNode {
-			if ctx.Error = n.Render(ctx); ctx.Error != nil {
-				return ctx.Error
+			if err := renderNode(ctx, n); err != nil {
+				return err
 			}
 		}
 	}
@@ -47,7 +47,7 @@ type contentCollector struct {
 func (c *contentCollector) Render(ctx *context.Context) error {
 	for _, n := range c.collector(ctx) {
 		if n != nil && n.Type() != AttributeNode {
-			_ = n.Render(ctx)
+			_ = renderNode(ctx, n)
 		}
 	}
 	return ctx.Error
diff --git a/conditional.go b/conditional.go
index 580f1bb..2b4b18b 100644
--- a/conditional.go
+++ b/conditional.go
@@ -43,7 +43,7 @@ func (c conditionalAttributes) evaluate(ctx *context.Context) map[string][]Node
 func (c *conditional) Render(ctx *context.Context) error {
 	if c.fn(ctx) {
 		for _, n := range c.nodes {
-			if ctx.Error = n.Render(ctx); ctx.Error != nil {
+			if err := renderNode(ctx, n); err != nil {
 				break
 			}
 		}
diff --git a/element.go b/element.go
index 3393d73..a0ae006 100644
--- a/element.go
+++ b/element.go
@@ -131,7 +131,7 @@ func (e *element) Render(ctx *context.Context) error {
 	renderAttributes(ctx, e.attributes, e.attIndices, e.conditionals)
 	ctx.Write(closeAngleBracket)
 	for _, c := range e.contents {
-		ctx.Error = c.Render(ctx)
+		_ = renderNode(ctx, c)
 	}
 	ctx.Write(closeTagStart)
 	ctx.Write(e.name)
diff --git a/html/document.go b/html/document.go
index 829565b..1912578 100644
--- a/html/document.go
+++ b/html/document.go
@@ -15,7 +15,9 @@ func (d *document) Render(ctx *context.Context) error {
 		_ = d.prologue.Render(ctx)
 	}
 	for _, n := range d.contents {
-		_ = n.Render(ctx)
+		if err := n.Render(ctx); err != nil {
+			return err
+		}
 	}
 	return ctx.Error
 }
diff --git a/imperative.go b/imperative.go
index 45fcf7c..78d60b9 100644
--- a/imperative.go
+++ b/imperative.go
@@ -35,11 +35,13 @@ type imperative struct {
 	fn func(ctx ImperativeContext) error
 }
 
-func (i *imperative) Render(ctx *context.Context) (err error) {
+func (i *imperative) Render(ctx *context.Context) error {
 	if i.fn != nil {
-		err = i.fn(&imperativeContext{ctx: ctx})
+		if err := i.fn(&imperativeContext{ctx: ctx}); err != nil && ctx.Error == nil {
+			ctx.Error = err
+		}
 	}
-	return
+	return ctx.Error
 }
 
 func (i *imperative) Type() NodeType {
@@ -70,7 +72,7 @@ func (ic *imperativeContext) WriteRaw(data []byte) {
 func (ic *imperativeContext) WriteNodes(nodes ...Node) {
 	for _, node := range nodes {
 		if node != nil && node.Type() != AttributeNode {
-			_ = node.Render(ic.ctx)
+			_ = renderNode(ic.ctx, node)
 		}
 	}
 }
diff --git a/iterate.go b/iterate.go
index 6a300d8..f82814b 100644
--- a/iterate.go
+++ b/iterate.go
@@ -91,14 +91,14 @@ func (i *iterator) Render(ctx *context.Context) error {
 				ictx.Data = ctx.Data
 			}
 			for _, n := range i.nodes {
-				if err := n.Render(ictx); err != nil {
+				if err := renderNode(ictx, n); err != nil {
 					ctx.Error = err
 					return err
 				}
 			}
 		}
 	}
-	return nil
+	return ctx.Error
 }
 
 func (i *iterator) Type() NodeType {
@@ -152,13 +152,18 @@ func (i *yieldIterator) Render(ctx *context.Context) error {
 		Parent: ctx,
 	}
 	i.fn(ctx, func(item any) {
+		if ctx.Error != nil {
+			return
+		}
 		ictx.Cargo = item
 		if mi, ok := item.(map[string]any); ok {
 			ictx.Data = mi
 		}
 		for _, n := range i.nodes {
-			if err := n.Render(ictx); err != nil {
-				ctx.Error = err
+			if err := renderNode(ictx, n); err != nil {
+				if ctx.Error == nil {
+					ctx.Error = err
+				}
 				return
 			}
 		}
diff --git a/value.go b/value.go
index c499054..88c16da 100644
--- a/value.go
+++ b/value.go
@@ -33,14 +33,17 @@ func NewConcatValue(values ...any) Value {
 }
 
 func (v Value) render(ctx *context.Context) (bool, error) {
+	if ctx.Error != nil {
+		return false, ctx.Error
+	}
 	var l int
 	if v.dynamicFunc != nil {
-		data := v.dynamicFunc(ctx)
-		l, ctx.Error = ctx.Writer.Write(data)
+		if data := v.dynamicFunc(ctx); ctx.Error == nil {
+			l, ctx.Error = ctx.Writer.Write(data)
+		}
 	} else if len(v.concats) > 0 {
-		var written bool
 		for _, concat := range v.concats {
-			if written, ctx.Error = concat.render(ctx); written {
+			if written, _ := concat.render(ctx); written {
 				l++
 			}
 		}
-- 
2.43.0


From 5054d3e125718ee6ecb81be6b02143386b433cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:05 +0000
Subject: [PATCH 02/23] fix: render attributes in declared order when
 conditional attributes are active

The order came from map iteration, so the same template and data could produce
different output on each render (and TestConditional_Cases failed at random).
---
 conditional.go | 12 ++++++++----
 element.go     | 12 ++++++------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/conditional.go b/conditional.go
index 2b4b18b..ca90ef6 100644
--- a/conditional.go
+++ b/conditional.go
@@ -29,15 +29,19 @@ func (a conditionalAttribute) evaluate(ctx *context.Context) bool {
 
 type conditionalAttributes []conditionalAttribute
 
-func (c conditionalAttributes) evaluate(ctx *context.Context) map[string][]Node {
-	result := make(map[string][]Node, len(c))
+// evaluate returns the active attributes (by name) along with their names in declared order
+func (c conditionalAttributes) evaluate(ctx *context.Context) (names []string, active map[string][]Node) {
+	active = make(map[string][]Node, len(c))
 	for _, a := range c {
 		if a.evaluate(ctx) {
 			name := a.attribute.Name()
-			result[name] = append(result[name], a.attribute)
+			if _, ok := active[name]; !ok {
+				names = append(names, name)
+			}
+			active[name] = append(active[name], a.attribute)
 		}
 	}
-	return result
+	return names, active
 }
 
 func (c *conditional) Render(ctx *context.Context) error {
diff --git a/element.go b/element.go
index a0ae006..9b40ca7 100644
--- a/element.go
+++ b/element.go
@@ -6,11 +6,10 @@ import (
 
 func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[string]int, conditionals conditionalAttributes) {
 	if len(conditionals) > 0 {
-		if evaluated := conditionals.evaluate(ctx); len(evaluated) > 0 {
+		if names, evaluated := conditionals.evaluate(ctx); len(evaluated) > 0 {
 			use := &delimitedAttribute{}
-			for name, index := range attIndices {
-				attr := attributes[index]
-				if eAttr, ok := evaluated[name]; ok {
+			for _, attr := range attributes {
+				if eAttr, ok := evaluated[attr.Name()]; ok {
 					switch at := attr.(type) {
 					case *delimitedAttribute:
 						use.name = at.name
@@ -30,8 +29,9 @@ func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[st
 					_ = attr.Render(ctx)
 				}
 			}
-			for name, ca := range evaluated {
-				if _, ok := attIndices[name]; !ok && len(ca) > 0 {
+			for _, name := range names {
+				if _, ok := attIndices[name]; !ok {
+					ca := evaluated[name]
 					first := ca[0]
 					switch at := first.(type) {
 					case *delimitedAttribute:
-- 
2.43.0


From 2e6cf11c8f65e49b3946259c5489edbd44ff0419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:07 +0000
Subject: [PATCH 03/23] fix: merging delimited attributes no longer alters the
 attribute nodes passed in

A class/style attribute node shared by several elements picked up the values
merged into it by the first of those elements.
---
 attribute.go  | 12 ++++++++++++
 element.go    |  4 ++--
 imperative.go |  3 ++-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/attribute.go b/attribute.go
index 53bb020..d92cf22 100644
--- a/attribute.go
+++ b/attribute.go
@@ -132,6 +132,18 @@ func (a *delimitedAttribute) getValues() []Value {
 	return a.values
 }
 
+// merge returns a new delimited attribute with the values of both (neither of which is altered - as
+// they may also be used elsewhere)
+func (a *delimitedAttribute) merge(other *delimitedAttribute) *delimitedAttribute {
+	values := make([]Value, 0, len(a.values)+len(other.values))
+	values = append(values, a.values...)
+	return &delimitedAttribute{
+		name:      a.name,
+		delimiter: a.delimiter,
+		values:    append(values, other.values...),
+	}
+}
+
 // DelimitedAttribute creates a new delimited attribute Node
 //
 // examples of delimited attributes are Class() and Style()
diff --git a/element.go b/element.go
index 9b40ca7..d901cb9 100644
--- a/element.go
+++ b/element.go
@@ -88,7 +88,7 @@ func (e *voidElement) addAttributes(attrs []Node) Node {
 			existing := e.attributes[idx]
 			if delimited, ok := existing.(*delimitedAttribute); ok {
 				if addD, ok := att.(*delimitedAttribute); ok {
-					delimited.values = append(delimited.values, addD.values...)
+					e.attributes[idx] = delimited.merge(addD)
 					continue
 				}
 			}
@@ -154,7 +154,7 @@ func (e *element) addAttributes(attrs []Node) Node {
 			existing := e.attributes[idx]
 			if delimited, ok := existing.(*delimitedAttribute); ok {
 				if addD, ok := att.(*delimitedAttribute); ok {
-					delimited.values = append(delimited.values, addD.values...)
+					e.attributes[idx] = delimited.merge(addD)
 					continue
 				}
 			}
diff --git a/imperative.go b/imperative.go
index 78d60b9..7379b95 100644
--- a/imperative.go
+++ b/imperative.go
@@ -87,7 +87,8 @@ func (ic *imperativeContext) Start(elementName []byte, isVoid bool, attrs ...Nod
 		if attr != nil && attr.Type() == AttributeNode {
 			if idx, ok := attIndices[attr.Name()]; ok {
 				if da, ok := attr.(*delimitedAttribute); ok {
-					avs := attValues[idx]
+					// use full slice expression so that appending does not alter the values of the original attribute
+					avs := attValues[idx][:len(attValues[idx]):len(attValues[idx])]
 					for _, dv := range da.values {
 						if len(avs) > 0 {
 							avs = append(avs, Value{value: da.delimiter})
-- 
2.43.0


From 746706e323a317cd2d51f7329d59106e7625e3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:41 +0000
Subject: [PATCH 04/23] fix: sibling conditionals nested four deep no longer
 overwrite each other's conditions

The accumulated conditions were appended to a shared slice, so a conditional
attribute could be controlled by the condition of a following sibling.
---
 element.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/element.go b/element.go
index d901cb9..660e3b0 100644
--- a/element.go
+++ b/element.go
@@ -251,7 +251,8 @@ func attributesAndContents(conditions []ConditionalFunc, content []Node) (attrs
 					attrs = append(attrs, addA...)
 					condAttrs = append(condAttrs, addCa...)
 				case *conditional:
-					newConditions := append(conditions, cn.fn)
+					// full slice expression so that sibling conditionals never share (and overwrite) conditions
+					newConditions := append(conditions[:len(conditions):len(conditions)], cn.fn)
 					for _, a := range cn.attributes {
 						condAttrs = append(condAttrs, conditionalAttribute{
 							attribute:  a,
-- 
2.43.0


From 7cc2abfaa6489c095102744a79d2046b77e2ba51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:43 +0000
Subject: [PATCH 05/23] fix: repeated attributes within a conditional take
 effect in the order declared

Attributes given directly to a conditional were always taken before those in
its nested collections and conditionals, so the last declared did not win.
---
 conditional.go | 17 ++++++++---------
 element.go     |  8 +-------
 2 files changed, 9 insertions(+), 16 deletions(-)

diff --git a/conditional.go b/conditional.go
index ca90ef6..77b1e89 100644
--- a/conditional.go
+++ b/conditional.go
@@ -8,9 +8,9 @@ import (
 type ConditionalFunc func(ctx *context.Context) bool
 
 type conditional struct {
-	nodes      []Node
-	attributes []Node
-	fn         ConditionalFunc
+	nodes    []Node // non-attribute nodes
+	declared []Node // all nodes (including attributes) in the order they were declared
+	fn       ConditionalFunc
 }
 
 type conditionalAttribute struct {
@@ -71,14 +71,13 @@ func Conditional(fn ConditionalFunc, nodes ...Node) Node {
 		return Collection(nodes...)
 	}
 	result := &conditional{
-		nodes:      make([]Node, 0, len(nodes)),
-		attributes: make([]Node, 0, len(nodes)),
-		fn:         fn,
+		nodes:    make([]Node, 0, len(nodes)),
+		declared: make([]Node, 0, len(nodes)),
+		fn:       fn,
 	}
 	for _, n := range nodes {
-		if n.Type() == AttributeNode {
-			result.attributes = append(result.attributes, n)
-		} else {
+		result.declared = append(result.declared, n)
+		if n.Type() != AttributeNode {
 			result.nodes = append(result.nodes, n)
 		}
 	}
diff --git a/element.go b/element.go
index 660e3b0..ade9349 100644
--- a/element.go
+++ b/element.go
@@ -253,13 +253,7 @@ func attributesAndContents(conditions []ConditionalFunc, content []Node) (attrs
 				case *conditional:
 					// full slice expression so that sibling conditionals never share (and overwrite) conditions
 					newConditions := append(conditions[:len(conditions):len(conditions)], cn.fn)
-					for _, a := range cn.attributes {
-						condAttrs = append(condAttrs, conditionalAttribute{
-							attribute:  a,
-							conditions: newConditions,
-						})
-					}
-					_, addCa, _ := attributesAndContents(newConditions, cn.nodes)
+					_, addCa, _ := attributesAndContents(newConditions, cn.declared)
 					condAttrs = append(condAttrs, addCa...)
 				}
 			}
-- 
2.43.0


From 7eb0a61f5ef425ed465c50fcc07f34fdd5fee734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 06/23] fix: ignore nil nodes in Conditional, When, Iterate,
 IterateKey and IterateYield

Element and Attribute return nil for invalid names - which Collection and the
element constructors ignore, but these panicked on.
---
 conditional.go | 3 +++
 iterate.go     | 6 +++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/conditional.go b/conditional.go
index 77b1e89..fe211f5 100644
--- a/conditional.go
+++ b/conditional.go
@@ -76,6 +76,9 @@ func Conditional(fn ConditionalFunc, nodes ...Node) Node {
 		fn:       fn,
 	}
 	for _, n := range nodes {
+		if n == nil {
+			continue
+		}
 		result.declared = append(result.declared, n)
 		if n.Type() != AttributeNode {
 			result.nodes = append(result.nodes, n)
diff --git a/iterate.go b/iterate.go
index f82814b..0feb3e7 100644
--- a/iterate.go
+++ b/iterate.go
@@ -23,7 +23,7 @@ func Iterate(fn func(ctx *context.Context) []any, nodes ...Node) Node {
 		fn:    fn,
 	}
 	for _, n := range nodes {
-		if n.Type() != AttributeNode {
+		if n != nil && n.Type() != AttributeNode {
 			result.nodes = append(result.nodes, n)
 		}
 	}
@@ -59,7 +59,7 @@ func IterateKey(key string, nodes ...Node) Node {
 		},
 	}
 	for _, n := range nodes {
-		if n.Type() != AttributeNode {
+		if n != nil && n.Type() != AttributeNode {
 			result.nodes = append(result.nodes, n)
 		}
 	}
@@ -128,7 +128,7 @@ func IterateYield(fn func(ctx *context.Context, yield func(any)), nodes ...Node)
 		nodes: make([]Node, 0, len(nodes)),
 	}
 	for _, n := range nodes {
-		if n.Type() != AttributeNode {
+		if n != nil && n.Type() != AttributeNode {
 			result.nodes = append(result.nodes, n)
 		}
 	}
-- 
2.43.0


From ea588d9424acba4979a29f29ba59a4c73ad919a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:46 +0000
Subject: [PATCH 07/23] fix: IterateYield no longer leaks the data of a
 previous item into later items

An item that is not a map saw the data of the last map item (or none at all)
instead of the data of the outer context, as it does with Iterate.
---
 iterate.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/iterate.go b/iterate.go
index 0feb3e7..89d79f0 100644
--- a/iterate.go
+++ b/iterate.go
@@ -158,6 +158,8 @@ func (i *yieldIterator) Render(ctx *context.Context) error {
 		ictx.Cargo = item
 		if mi, ok := item.(map[string]any); ok {
 			ictx.Data = mi
+		} else {
+			ictx.Data = ctx.Data
 		}
 		for _, n := range i.nodes {
 			if err := renderNode(ictx, n); err != nil {
-- 
2.43.0


From 23f25416e1d8ccfa1c7947527d061ee546e6ddbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:48 +0000
Subject: [PATCH 08/23] fix: html escape fmt.Stringer values

They were written raw - so data behind a String() method could inject markup
where the same data as a string could not.
---
 value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value.go b/value.go
index 88c16da..2269508 100644
--- a/value.go
+++ b/value.go
@@ -160,7 +160,7 @@ func valueToBytes(v any) []byte {
 	case float64:
 		return []byte(strconv.FormatFloat(vt, 'g', -1, 64))
 	case fmt.Stringer:
-		return []byte(vt.String())
+		return htmlEscapeString(vt.String())
 	case func() any:
 		return valueToBytes(vt())
 	}
-- 
2.43.0


From 03b8af6f934662d31bde1172e0c81da87f72d32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:50 +0000
Subject: [PATCH 09/23] fix: context.Get no longer panics on some types of
 Cargo

Maps with a named string key type, structs with an unexported field of that
name and structs with a nil embedded pointer - all caused a reflect panic.
---
 context/context.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/context/context.go b/context/context.go
index cdbec55..47afe8f 100644
--- a/context/context.go
+++ b/context/context.go
@@ -60,15 +60,15 @@ func Get[T any](ctx *Context, key string) (T, bool) {
 		switch v.Kind() {
 		case reflect.Map:
 			if v.Type().Key().Kind() == reflect.String {
-				if val := v.MapIndex(reflect.ValueOf(key)); val.IsValid() {
+				if val := v.MapIndex(reflect.ValueOf(key).Convert(v.Type().Key())); val.IsValid() {
 					if typed, ok := val.Interface().(T); ok {
 						return typed, true
 					}
 				}
 			}
 		case reflect.Struct:
-			if f, ok := v.Type().FieldByName(key); ok {
-				if val := v.FieldByIndex(f.Index); val.IsValid() {
+			if f, ok := v.Type().FieldByName(key); ok && f.IsExported() {
+				if val, err := v.FieldByIndexErr(f.Index); err == nil {
 					if typed, ok := val.Interface().(T); ok {
 						return typed, true
 					}
-- 
2.43.0


From b7e4caf350a5130d3bd495167d5431f78236a20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:38 +0000
Subject: [PATCH 10/23] fix: css units no longer overwrite the spare capacity
 of a slice passed as arguments

css.Px(sizes[:1]...) replaced sizes[1] with the unit.
---
 css/units.go | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/css/units.go b/css/units.go
index f7d4c47..3653bc0 100644
--- a/css/units.go
+++ b/css/units.go
@@ -22,75 +22,80 @@ var (
 
 // Px creates a value with "px" (pixels)
 func Px(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitPx)...)
+	return withUnit(value, unitPx)
 }
 
 // Pt creates a value with "pt" (points)
 func Pt(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitPt)...)
+	return withUnit(value, unitPt)
 }
 
 // Pc creates a value with "pc" (picas)
 func Pc(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitPc)...)
+	return withUnit(value, unitPc)
 }
 
 // In creates a value with "in" (inches)
 func In(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitInch)...)
+	return withUnit(value, unitInch)
 }
 
 // Cm creates a value with "cm" (centimeters)
 func Cm(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitCm)...)
+	return withUnit(value, unitCm)
 }
 
 // Mm creates a value with "mm" (millimeters)
 func Mm(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitMm)...)
+	return withUnit(value, unitMm)
 }
 
 // Em creates a value with "em" (relative to parent font size)
 func Em(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitEm)...)
+	return withUnit(value, unitEm)
 }
 
 // Rem creates a value with "rem" (relative to root font size)
 func Rem(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitRem)...)
+	return withUnit(value, unitRem)
 }
 
 // Percent creates a value with "%" (unitPercent)
 func Percent(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitPercent)...)
+	return withUnit(value, unitPercent)
 }
 
 // Vw creates a value with "vw" (viewport width)
 func Vw(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitVw)...)
+	return withUnit(value, unitVw)
 }
 
 // Vh creates a value with "vh" (viewport height)
 func Vh(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitVh)...)
+	return withUnit(value, unitVh)
 }
 
 // VMin creates a value with "vmin" (smaller of vw or vh)
 func VMin(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitVmin)...)
+	return withUnit(value, unitVmin)
 }
 
 // VMax creates a value with "vmax" (larger of vw or vh)
 func VMax(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitVmax)...)
+	return withUnit(value, unitVmax)
 }
 
 // Ch creates a value with "ch" (width of 0 glyph)
 func Ch(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitCh)...)
+	return withUnit(value, unitCh)
 }
 
 // Ex creates a value with "ex" (x-height of current font)
 func Ex(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitEx)...)
+	return withUnit(value, unitEx)
+}
+
+// withUnit creates a value followed by the unit (without altering the slice of values passed)
+func withUnit(value []any, unit []byte) aitch.Value {
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unit)...)
 }
-- 
2.43.0


From 5102ce2980ed2df38e00cd49d4f063d3ccc7b9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 11/23] fix: Element recognises void element names regardless
 of case

HTML element names are not case-sensitive - Element("BR") rendered <BR></BR>,
which browsers treat as two line breaks.
---
 element.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/element.go b/element.go
index ade9349..54f86d8 100644
--- a/element.go
+++ b/element.go
@@ -2,6 +2,7 @@ package aitch
 
 import (
 	"github.com/go-andiamo/aitch/context"
+	"strings"
 )
 
 func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[string]int, conditionals conditionalAttributes) {
@@ -181,7 +182,7 @@ func Element(name string, contents ...any) Node {
 		}
 		return nil
 	}
-	if _, void := voidElementNames[name]; void {
+	if _, void := voidElementNames[strings.ToLower(name)]; void {
 		return NewVoidElement([]byte(name), contents...)
 	}
 	return NewElement([]byte(name), contents...)
-- 
2.43.0


From 25ef0ed47f6a8734f873a7e50c5de798307f93ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:13 +0000
Subject: [PATCH 12/23] fix: GenerateCode reports the first write error

Only the error of the last of several consecutive writes was looked at - so code
with a piece missing could be reported as successfully written.
---
 html/generator.go | 47 ++++++++++++++++++++++++++---------------------
 svg/generator.go  | 43 ++++++++++++++++++++++++-------------------
 2 files changed, 50 insertions(+), 40 deletions(-)

diff --git a/html/generator.go b/html/generator.go
index ea0701f..0b67deb 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -34,10 +34,15 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		}
 		return result
 	}
+	out := func(data []byte) {
+		if err == nil {
+			_, err = w.Write(data)
+		}
+	}
 	write := func(s string) {
-		_, err = w.Write(indent)
-		_, err = w.Write([]byte(s))
-		_, err = w.Write(nl)
+		out(indent)
+		out([]byte(s))
+		out(nl)
 	}
 	incIndent := func() {
 		indent = append(indent, tab)
@@ -60,40 +65,40 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		} else {
 			start = `aitch.Element("` + string(name) + `", `
 		}
-		_, err = w.Write(indent)
-		_, err = w.Write([]byte(start))
+		out(indent)
+		out([]byte(start))
 		if selfClosing && len(attrs) == 0 {
-			_, err = w.Write([]byte{')', ',', '\n'})
+			out([]byte{')', ',', '\n'})
 			return
 		}
 		for i, a := range attrs {
 			if i > 0 {
-				_, err = w.Write([]byte{',', ' '})
+				out([]byte{',', ' '})
 			}
 			if attr, ok := attrMap[strings.ToLower(a.Key)]; ok {
 				if boolAttrs[strings.ToLower(a.Key)] {
-					_, err = w.Write([]byte(funcName(attr)))
-					_, err = w.Write([]byte{'(', ')'})
+					out([]byte(funcName(attr)))
+					out([]byte{'(', ')'})
 				} else {
-					_, err = w.Write([]byte(funcName(attr)))
-					_, err = w.Write([]byte{'(', '"'})
-					_, err = w.Write([]byte(escape(a.Val)))
-					_, err = w.Write([]byte{'"', ')'})
+					out([]byte(funcName(attr)))
+					out([]byte{'(', '"'})
+					out([]byte(escape(a.Val)))
+					out([]byte{'"', ')'})
 				}
 			} else {
-				_, err = w.Write([]byte(`aitch.Attribute("`))
-				_, err = w.Write([]byte(a.Key))
-				_, err = w.Write([]byte{'"', ' ', ',', '"'})
-				_, err = w.Write([]byte(escape(a.Val)))
-				_, err = w.Write([]byte{'"', ')'})
+				out([]byte(`aitch.Attribute("`))
+				out([]byte(a.Key))
+				out([]byte{'"', ' ', ',', '"'})
+				out([]byte(escape(a.Val)))
+				out([]byte{'"', ')'})
 			}
 		}
 		if selfClosing {
-			_, err = w.Write([]byte{')', ','})
+			out([]byte{')', ','})
 		} else if len(attrs) > 0 {
-			_, err = w.Write([]byte{','})
+			out([]byte{','})
 		}
-		_, err = w.Write([]byte{'\n'})
+		out([]byte{'\n'})
 		if !selfClosing {
 			incIndent()
 		}
diff --git a/svg/generator.go b/svg/generator.go
index e5bfdfe..424a759 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -34,10 +34,15 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		}
 		return result
 	}
+	out := func(data []byte) {
+		if err == nil {
+			_, err = w.Write(data)
+		}
+	}
 	write := func(s string) {
-		_, err = w.Write(indent)
-		_, err = w.Write([]byte(s))
-		_, err = w.Write(nl)
+		out(indent)
+		out([]byte(s))
+		out(nl)
 	}
 	incIndent := func() {
 		indent = append(indent, tab)
@@ -60,35 +65,35 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		} else {
 			start = `aitch.Element("` + string(name) + `", `
 		}
-		_, err = w.Write(indent)
-		_, err = w.Write([]byte(start))
+		out(indent)
+		out([]byte(start))
 		if selfClosing && len(attrs) == 0 {
-			_, err = w.Write([]byte{')', ',', '\n'})
+			out([]byte{')', ',', '\n'})
 			return
 		}
 		for i, a := range attrs {
 			if i > 0 {
-				_, err = w.Write([]byte{',', ' '})
+				out([]byte{',', ' '})
 			}
 			if attr, ok := attrMap[strings.ToLower(a.Key)]; ok {
-				_, err = w.Write([]byte(funcName(attr)))
-				_, err = w.Write([]byte{'(', '"'})
-				_, err = w.Write([]byte(escape(a.Val)))
-				_, err = w.Write([]byte{'"', ')'})
+				out([]byte(funcName(attr)))
+				out([]byte{'(', '"'})
+				out([]byte(escape(a.Val)))
+				out([]byte{'"', ')'})
 			} else {
-				_, err = w.Write([]byte(`aitch.Attribute("`))
-				_, err = w.Write([]byte(a.Key))
-				_, err = w.Write([]byte{'"', ' ', ',', '"'})
-				_, err = w.Write([]byte(escape(a.Val)))
-				_, err = w.Write([]byte{'"', ')'})
+				out([]byte(`aitch.Attribute("`))
+				out([]byte(a.Key))
+				out([]byte{'"', ' ', ',', '"'})
+				out([]byte(escape(a.Val)))
+				out([]byte{'"', ')'})
 			}
 		}
 		if selfClosing {
-			_, err = w.Write([]byte{')', ','})
+			out([]byte{')', ','})
 		} else if len(attrs) > 0 {
-			_, err = w.Write([]byte{','})
+			out([]byte{','})
 		}
-		_, err = w.Write([]byte{'\n'})
+		out([]byte{'\n'})
 		if !selfClosing {
 			incIndent()
 		}
-- 
2.43.0


From 78e632dcc52e53589010f31b8e7bedb2f31bbf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:14 +0000
Subject: [PATCH 13/23] fix: GenerateCode writes names and text as valid Go
 string literals

Carriage returns, NULs, invalid UTF-8, byte order marks and quotes (or
backslashes) in tag and attribute names produced code that could not compile.
---
 html/generator.go | 31 +++++++++++++------------------
 svg/generator.go  | 29 ++++++++++++-----------------
 2 files changed, 25 insertions(+), 35 deletions(-)

diff --git a/html/generator.go b/html/generator.go
index 0b67deb..90d65db 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"reflect"
 	"runtime"
+	"strconv"
 	"strings"
 )
 
@@ -52,18 +53,12 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			indent = indent[:len(indent)-1]
 		}
 	}
-	escape := func(s string) string {
-		return strings.Replace(
-			strings.Replace(
-				strings.Replace(strings.Replace(s, "\\", `\\`, -1), "\t", `\t`, -1), "\n", `\n`, -1),
-			`"`, `\"`, -1)
-	}
 	writeElementStart := func(name string, attrs []html.Attribute, selfClosing bool) {
 		start := ""
 		if elem, ok := elemMap[strings.ToLower(string(name))]; ok {
 			start = funcName(elem) + "("
 		} else {
-			start = `aitch.Element("` + string(name) + `", `
+			start = `aitch.Element(` + strconv.Quote(name) + `, `
 		}
 		out(indent)
 		out([]byte(start))
@@ -81,16 +76,16 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 					out([]byte{'(', ')'})
 				} else {
 					out([]byte(funcName(attr)))
-					out([]byte{'(', '"'})
-					out([]byte(escape(a.Val)))
-					out([]byte{'"', ')'})
+					out([]byte{'('})
+					out([]byte(strconv.Quote(a.Val)))
+					out([]byte{')'})
 				}
 			} else {
-				out([]byte(`aitch.Attribute("`))
-				out([]byte(a.Key))
-				out([]byte{'"', ' ', ',', '"'})
-				out([]byte(escape(a.Val)))
-				out([]byte{'"', ')'})
+				out([]byte(`aitch.Attribute(`))
+				out([]byte(strconv.Quote(a.Key)))
+				out([]byte{' ', ','})
+				out([]byte(strconv.Quote(a.Val)))
+				out([]byte{')'})
 			}
 		}
 		if selfClosing {
@@ -116,7 +111,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		case html.TextToken:
 			token := tokenizer.Token()
 			if strings.Trim(token.Data, " \n\t") != "" {
-				write(`html.Text("` + escape(token.Data) + `"),`)
+				write(`html.Text(` + strconv.Quote(token.Data) + `),`)
 			}
 		case html.StartTagToken:
 			token := tokenizer.Token()
@@ -129,10 +124,10 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			write("),")
 		case html.CommentToken:
 			token := tokenizer.Token()
-			write(`html.Comment("` + escape(token.Data) + `"),`)
+			write(`html.Comment(` + strconv.Quote(token.Data) + `),`)
 		case html.DoctypeToken:
 			token := tokenizer.Token()
-			write(`html.PI("DOCTYPE", "` + escape(token.Data) + `"),`)
+			write(`html.PI("DOCTYPE", ` + strconv.Quote(token.Data) + `),`)
 		}
 	}
 	if err == nil {
diff --git a/svg/generator.go b/svg/generator.go
index 424a759..5e94b97 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"reflect"
 	"runtime"
+	"strconv"
 	"strings"
 )
 
@@ -52,18 +53,12 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			indent = indent[:len(indent)-1]
 		}
 	}
-	escape := func(s string) string {
-		return strings.Replace(
-			strings.Replace(
-				strings.Replace(strings.Replace(s, "\\", `\\`, -1), "\t", `\t`, -1), "\n", `\n`, -1),
-			`"`, `\"`, -1)
-	}
 	writeElementStart := func(name string, attrs []html.Attribute, selfClosing bool) {
 		start := ""
 		if elem, ok := elemMap[strings.ToLower(string(name))]; ok {
 			start = funcName(elem) + "("
 		} else {
-			start = `aitch.Element("` + string(name) + `", `
+			start = `aitch.Element(` + strconv.Quote(name) + `, `
 		}
 		out(indent)
 		out([]byte(start))
@@ -77,15 +72,15 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			}
 			if attr, ok := attrMap[strings.ToLower(a.Key)]; ok {
 				out([]byte(funcName(attr)))
-				out([]byte{'(', '"'})
-				out([]byte(escape(a.Val)))
-				out([]byte{'"', ')'})
+				out([]byte{'('})
+				out([]byte(strconv.Quote(a.Val)))
+				out([]byte{')'})
 			} else {
-				out([]byte(`aitch.Attribute("`))
-				out([]byte(a.Key))
-				out([]byte{'"', ' ', ',', '"'})
-				out([]byte(escape(a.Val)))
-				out([]byte{'"', ')'})
+				out([]byte(`aitch.Attribute(`))
+				out([]byte(strconv.Quote(a.Key)))
+				out([]byte{' ', ','})
+				out([]byte(strconv.Quote(a.Val)))
+				out([]byte{')'})
 			}
 		}
 		if selfClosing {
@@ -111,7 +106,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		case html.TextToken:
 			token := tokenizer.Token()
 			if strings.Trim(token.Data, " \n\t") != "" {
-				write(`svg.Text("` + escape(token.Data) + `"),`)
+				write(`svg.Text(` + strconv.Quote(token.Data) + `),`)
 			}
 		case html.StartTagToken:
 			token := tokenizer.Token()
@@ -124,7 +119,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			write("),")
 		case html.CommentToken:
 			token := tokenizer.Token()
-			write(`svg.Comment("` + escape(token.Data) + `"),`)
+			write(`svg.Comment(` + strconv.Quote(token.Data) + `),`)
 		}
 	}
 	if err == nil {
-- 
2.43.0


From e71d450b575d738efb1d8a43f86d8d8d45b0757d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:24 +0000
Subject: [PATCH 14/23] fix: GenerateCode always writes balanced code

A void element written as just a start tag (e.g. <br> or <img src=x>) swallowed
everything after it and was never closed - as was any element with its end tag
omitted, and stray end tags closed one too many.
---
 html/generator.go | 42 +++++++++++++++++++++++++++++++++++++++---
 svg/generator.go  | 42 +++++++++++++++++++++++++++++++++++++++---
 2 files changed, 78 insertions(+), 6 deletions(-)

diff --git a/html/generator.go b/html/generator.go
index 90d65db..0bcdaa4 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -45,6 +45,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		out([]byte(s))
 		out(nl)
 	}
+	var openElements []string
 	incIndent := func() {
 		indent = append(indent, tab)
 	}
@@ -53,6 +54,11 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			indent = indent[:len(indent)-1]
 		}
 	}
+	closeElement := func() {
+		openElements = openElements[:len(openElements)-1]
+		decIndent()
+		write("),")
+	}
 	writeElementStart := func(name string, attrs []html.Attribute, selfClosing bool) {
 		start := ""
 		if elem, ok := elemMap[strings.ToLower(string(name))]; ok {
@@ -95,6 +101,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		}
 		out([]byte{'\n'})
 		if !selfClosing {
+			openElements = append(openElements, name)
 			incIndent()
 		}
 	}
@@ -115,13 +122,21 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			}
 		case html.StartTagToken:
 			token := tokenizer.Token()
-			writeElementStart(token.Data, token.Attr, false)
+			writeElementStart(token.Data, token.Attr, voidElements[token.Data])
 		case html.SelfClosingTagToken:
 			token := tokenizer.Token()
 			writeElementStart(token.Data, token.Attr, true)
 		case html.EndTagToken:
-			decIndent()
-			write("),")
+			token := tokenizer.Token()
+			// close down to the matching element (closing any left open within it) or ignore if there isn't one
+			for at := len(openElements) - 1; at >= 0; at-- {
+				if openElements[at] == token.Data {
+					for len(openElements) > at {
+						closeElement()
+					}
+					break
+				}
+			}
 		case html.CommentToken:
 			token := tokenizer.Token()
 			write(`html.Comment(` + strconv.Quote(token.Data) + `),`)
@@ -130,6 +145,9 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			write(`html.PI("DOCTYPE", ` + strconv.Quote(token.Data) + `),`)
 		}
 	}
+	for err == nil && len(openElements) > 0 {
+		closeElement()
+	}
 	if err == nil {
 		decIndent()
 		write(")\n")
@@ -449,3 +467,21 @@ func mappings() (elems map[string]any, attrs map[string]any, boolAttrs map[strin
 	}
 	return
 }
+
+// voidElements are the elements that have no content - and, therefore, no end tag
+var voidElements = map[string]bool{
+	"area":   true,
+	"base":   true,
+	"br":     true,
+	"col":    true,
+	"embed":  true,
+	"hr":     true,
+	"img":    true,
+	"input":  true,
+	"link":   true,
+	"meta":   true,
+	"param":  true,
+	"source": true,
+	"track":  true,
+	"wbr":    true,
+}
diff --git a/svg/generator.go b/svg/generator.go
index 5e94b97..772c754 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -45,6 +45,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		out([]byte(s))
 		out(nl)
 	}
+	var openElements []string
 	incIndent := func() {
 		indent = append(indent, tab)
 	}
@@ -53,6 +54,11 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			indent = indent[:len(indent)-1]
 		}
 	}
+	closeElement := func() {
+		openElements = openElements[:len(openElements)-1]
+		decIndent()
+		write("),")
+	}
 	writeElementStart := func(name string, attrs []html.Attribute, selfClosing bool) {
 		start := ""
 		if elem, ok := elemMap[strings.ToLower(string(name))]; ok {
@@ -90,6 +96,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		}
 		out([]byte{'\n'})
 		if !selfClosing {
+			openElements = append(openElements, name)
 			incIndent()
 		}
 	}
@@ -110,18 +117,29 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			}
 		case html.StartTagToken:
 			token := tokenizer.Token()
-			writeElementStart(token.Data, token.Attr, false)
+			writeElementStart(token.Data, token.Attr, voidElements[token.Data])
 		case html.SelfClosingTagToken:
 			token := tokenizer.Token()
 			writeElementStart(token.Data, token.Attr, true)
 		case html.EndTagToken:
-			decIndent()
-			write("),")
+			token := tokenizer.Token()
+			// close down to the matching element (closing any left open within it) or ignore if there isn't one
+			for at := len(openElements) - 1; at >= 0; at-- {
+				if openElements[at] == token.Data {
+					for len(openElements) > at {
+						closeElement()
+					}
+					break
+				}
+			}
 		case html.CommentToken:
 			token := tokenizer.Token()
 			write(`svg.Comment(` + strconv.Quote(token.Data) + `),`)
 		}
 	}
+	for err == nil && len(openElements) > 0 {
+		closeElement()
+	}
 	if err == nil {
 		decIndent()
 		write(")\n")
@@ -343,3 +361,21 @@ func mappings() (elems map[string]any, attrs map[string]any) {
 	}
 	return
 }
+
+// voidElements are the elements that have no content - and, therefore, no end tag
+var voidElements = map[string]bool{
+	"area":   true,
+	"base":   true,
+	"br":     true,
+	"col":    true,
+	"embed":  true,
+	"hr":     true,
+	"img":    true,
+	"input":  true,
+	"link":   true,
+	"meta":   true,
+	"param":  true,
+	"source": true,
+	"track":  true,
+	"wbr":    true,
+}
-- 
2.43.0


From 71e4655d8b08dd21ccd228003e7c9ba6d1057934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 15/23] fix: GenerateCode no longer loses or changes attributes

Attributes (and elements) with names that aitch.Attribute and aitch.Element do not
allow, e.g. @click, disappeared on rendering; the values of translate="no",
spellcheck="false" and hidden="until-found" were dropped (inverting the meaning
of the first two), and the last of repeated attributes was used, not the first.
---
 html/generator.go | 36 ++++++++++++++++++++++++++----------
 svg/generator.go  | 27 +++++++++++++++++++++------
 2 files changed, 47 insertions(+), 16 deletions(-)

diff --git a/html/generator.go b/html/generator.go
index 0bcdaa4..cf77eca 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"os"
 	"reflect"
+	"regexp"
 	"runtime"
 	"strconv"
 	"strings"
@@ -54,6 +55,13 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			indent = indent[:len(indent)-1]
 		}
 	}
+	newCall := func(fn string, name string) string {
+		if !validName.MatchString(name) {
+			// aitch.Element and aitch.Attribute do not allow the name
+			return `aitch.New` + fn + `([]byte(` + strconv.Quote(name) + `)`
+		}
+		return `aitch.` + fn + `(` + strconv.Quote(name)
+	}
 	closeElement := func() {
 		openElements = openElements[:len(openElements)-1]
 		decIndent()
@@ -64,7 +72,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		if elem, ok := elemMap[strings.ToLower(string(name))]; ok {
 			start = funcName(elem) + "("
 		} else {
-			start = `aitch.Element(` + strconv.Quote(name) + `, `
+			start = newCall("Element", name) + `, `
 		}
 		out(indent)
 		out([]byte(start))
@@ -72,12 +80,21 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			out([]byte{')', ',', '\n'})
 			return
 		}
-		for i, a := range attrs {
-			if i > 0 {
+		seen := make(map[string]bool, len(attrs))
+		for _, a := range attrs {
+			if seen[a.Key] {
+				// the first of any repeated attributes is the one that counts
+				continue
+			}
+			if len(seen) > 0 {
 				out([]byte{',', ' '})
 			}
-			if attr, ok := attrMap[strings.ToLower(a.Key)]; ok {
-				if boolAttrs[strings.ToLower(a.Key)] {
+			seen[a.Key] = true
+			isBool := boolAttrs[strings.ToLower(a.Key)]
+			// a boolean attribute func takes no value - so it can't be used if the value means something
+			hasValue := a.Val != "" && !strings.EqualFold(a.Val, a.Key)
+			if attr, ok := attrMap[strings.ToLower(a.Key)]; ok && !(isBool && hasValue) {
+				if isBool {
 					out([]byte(funcName(attr)))
 					out([]byte{'(', ')'})
 				} else {
@@ -87,9 +104,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 					out([]byte{')'})
 				}
 			} else {
-				out([]byte(`aitch.Attribute(`))
-				out([]byte(strconv.Quote(a.Key)))
-				out([]byte{' ', ','})
+				out([]byte(newCall("Attribute", a.Key) + ` ,`))
 				out([]byte(strconv.Quote(a.Val)))
 				out([]byte{')'})
 			}
@@ -267,7 +282,6 @@ func mappings() (elems map[string]any, attrs map[string]any, boolAttrs map[strin
 		"action":              Action,
 		"allowfullscreen":     AllowFullScreen,
 		"alt":                 Alt,
-		"aria-":               Aria,
 		"aria-atomic":         AriaAtomic,
 		"aria-busy":           AriaBusy,
 		"aria-checked":        AriaChecked,
@@ -309,7 +323,6 @@ func mappings() (elems map[string]any, attrs map[string]any, boolAttrs map[strin
 		"contenteditable":     ContentEditable,
 		"controls":            Controls,
 		"crossorigin":         CrossOrigin,
-		"data-":               Data,
 		"datetime":            DateTime,
 		"default":             Default,
 		"defer":               Defer,
@@ -485,3 +498,6 @@ var voidElements = map[string]bool{
 	"track":  true,
 	"wbr":    true,
 }
+
+// validName matches the names allowed by aitch.Element and aitch.Attribute
+var validName = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9._\-:]*$`)
diff --git a/svg/generator.go b/svg/generator.go
index 772c754..4befdfb 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"os"
 	"reflect"
+	"regexp"
 	"runtime"
 	"strconv"
 	"strings"
@@ -54,6 +55,13 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			indent = indent[:len(indent)-1]
 		}
 	}
+	newCall := func(fn string, name string) string {
+		if !validName.MatchString(name) {
+			// aitch.Element and aitch.Attribute do not allow the name
+			return `aitch.New` + fn + `([]byte(` + strconv.Quote(name) + `)`
+		}
+		return `aitch.` + fn + `(` + strconv.Quote(name)
+	}
 	closeElement := func() {
 		openElements = openElements[:len(openElements)-1]
 		decIndent()
@@ -64,7 +72,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		if elem, ok := elemMap[strings.ToLower(string(name))]; ok {
 			start = funcName(elem) + "("
 		} else {
-			start = `aitch.Element(` + strconv.Quote(name) + `, `
+			start = newCall("Element", name) + `, `
 		}
 		out(indent)
 		out([]byte(start))
@@ -72,19 +80,23 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			out([]byte{')', ',', '\n'})
 			return
 		}
-		for i, a := range attrs {
-			if i > 0 {
+		seen := make(map[string]bool, len(attrs))
+		for _, a := range attrs {
+			if seen[a.Key] {
+				// the first of any repeated attributes is the one that counts
+				continue
+			}
+			if len(seen) > 0 {
 				out([]byte{',', ' '})
 			}
+			seen[a.Key] = true
 			if attr, ok := attrMap[strings.ToLower(a.Key)]; ok {
 				out([]byte(funcName(attr)))
 				out([]byte{'('})
 				out([]byte(strconv.Quote(a.Val)))
 				out([]byte{')'})
 			} else {
-				out([]byte(`aitch.Attribute(`))
-				out([]byte(strconv.Quote(a.Key)))
-				out([]byte{' ', ','})
+				out([]byte(newCall("Attribute", a.Key) + ` ,`))
 				out([]byte(strconv.Quote(a.Val)))
 				out([]byte{')'})
 			}
@@ -379,3 +391,6 @@ var voidElements = map[string]bool{
 	"track":  true,
 	"wbr":    true,
 }
+
+// validName matches the names allowed by aitch.Element and aitch.Attribute
+var validName = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9._\-:]*$`)
-- 
2.43.0


From 490e1512c1f1c79bef4e27cc4014ed846d0f62f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:24 +0000
Subject: [PATCH 16/23] fix: html.GenerateCode keeps scripts, styles and
 doctype identifiers intact

Their text was generated as escaped text - so the rendered script, style or
doctype was not the one that was read.
---
 html/generator.go | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/html/generator.go b/html/generator.go
index cf77eca..5e0ed12 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -122,8 +122,11 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	}
 	write("var template = aitch.Collection(")
 	incIndent()
+	lastStartTag := ""
 	for err == nil && !eof {
 		tokenType := tokenizer.Next()
+		inElement := lastStartTag
+		lastStartTag = ""
 		switch tokenType {
 		case html.ErrorToken:
 			if err = tokenizer.Err(); err == io.EOF {
@@ -133,14 +136,23 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		case html.TextToken:
 			token := tokenizer.Token()
 			if strings.Trim(token.Data, " \n\t") != "" {
-				write(`html.Text(` + strconv.Quote(token.Data) + `),`)
+				if rawTextElements[inElement] {
+					// as bytes - so that it isn't escaped on rendering
+					write(`html.Text([]byte(` + strconv.Quote(token.Data) + `)),`)
+				} else {
+					write(`html.Text(` + strconv.Quote(token.Data) + `),`)
+				}
 			}
 		case html.StartTagToken:
 			token := tokenizer.Token()
 			writeElementStart(token.Data, token.Attr, voidElements[token.Data])
+			lastStartTag = token.Data
 		case html.SelfClosingTagToken:
 			token := tokenizer.Token()
-			writeElementStart(token.Data, token.Attr, true)
+			// the tokenizer (like browsers) ignores the self-closing of elements with unparsed text
+			unparsed := rawTextElements[token.Data] || token.Data == "textarea" || token.Data == "title"
+			writeElementStart(token.Data, token.Attr, !unparsed)
+			lastStartTag = token.Data
 		case html.EndTagToken:
 			token := tokenizer.Token()
 			// close down to the matching element (closing any left open within it) or ignore if there isn't one
@@ -157,7 +169,12 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			write(`html.Comment(` + strconv.Quote(token.Data) + `),`)
 		case html.DoctypeToken:
 			token := tokenizer.Token()
-			write(`html.PI("DOCTYPE", ` + strconv.Quote(token.Data) + `),`)
+			if strings.ContainsAny(token.Data, `'"`) && !strings.ContainsAny(token.Data, "<>&\x00") {
+				// as bytes - so that the quotes aren't escaped on rendering
+				write(`html.PI("DOCTYPE", []byte(` + strconv.Quote(token.Data) + `)),`)
+			} else {
+				write(`html.PI("DOCTYPE", ` + strconv.Quote(token.Data) + `),`)
+			}
 		}
 	}
 	for err == nil && len(openElements) > 0 {
@@ -501,3 +518,15 @@ var voidElements = map[string]bool{
 
 // validName matches the names allowed by aitch.Element and aitch.Attribute
 var validName = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9._\-:]*$`)
+
+// rawTextElements are the elements whose text is not parsed (and must not be escaped)
+var rawTextElements = map[string]bool{
+	"iframe":    true,
+	"noembed":   true,
+	"noframes":  true,
+	"noscript":  true,
+	"plaintext": true,
+	"script":    true,
+	"style":     true,
+	"xmp":       true,
+}
-- 
2.43.0


From 38b0732164c14e3d1aa3c525a57365b4f6b57554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:25 +0000
Subject: [PATCH 17/23] fix: svg.GenerateCode reads style, script and title as
 svg rather than as html

In svg they are ordinary elements - their text was escaped twice, any elements in
them became text and, if they were self-closed, so did everything following.
---
 svg/generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svg/generator.go b/svg/generator.go
index 4befdfb..28f8108 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -18,6 +18,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	}
 	elemMap, attrMap := mappings()
 	tokenizer := html.NewTokenizer(r)
+	tokenizer.AllowCDATA(true)
 	indent := []byte{}
 	eof := false
 	var err error
@@ -130,9 +131,11 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		case html.StartTagToken:
 			token := tokenizer.Token()
 			writeElementStart(token.Data, token.Attr, voidElements[token.Data])
+			tokenizer.NextIsNotRawText()
 		case html.SelfClosingTagToken:
 			token := tokenizer.Token()
 			writeElementStart(token.Data, token.Attr, true)
+			tokenizer.NextIsNotRawText()
 		case html.EndTagToken:
 			token := tokenizer.Token()
 			// close down to the matching element (closing any left open within it) or ignore if there isn't one
-- 
2.43.0


From 4e7f095b70851b6a3218e283d81df47f9f98ceb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 18/23] fix: svg.GenerateCode recognises elements and
 attributes with mixed case names

Names such as linearGradient and gradientUnits were looked up in lower case (but
mapped in mixed case) - so were generated as lineargradient and gradientunits,
which are not svg.
---
 svg/generator.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/svg/generator.go b/svg/generator.go
index 28f8108..aa51125 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -17,6 +17,8 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		w = os.Stdout
 	}
 	elemMap, attrMap := mappings()
+	// the tokenizer lower-cases the names of elements and attributes
+	elemMap, attrMap = lowerKeys(elemMap), lowerKeys(attrMap)
 	tokenizer := html.NewTokenizer(r)
 	tokenizer.AllowCDATA(true)
 	indent := []byte{}
@@ -377,6 +379,14 @@ func mappings() (elems map[string]any, attrs map[string]any) {
 	return
 }
 
+func lowerKeys(m map[string]any) map[string]any {
+	result := make(map[string]any, len(m))
+	for k, v := range m {
+		result[strings.ToLower(k)] = v
+	}
+	return result
+}
+
 // voidElements are the elements that have no content - and, therefore, no end tag
 var voidElements = map[string]bool{
 	"area":   true,
-- 
2.43.0


From 0d75da8409ae98c94daa7ab0d3c19242027e95b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:19 +0000
Subject: [PATCH 19/23] fix: svg.Class merges its values as html.Class and
 svg.Style do

Repeated svg.Class declarations overwrote each other and svg.Class("a", "b")
rendered as class="ab".
---
 svg/attributes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svg/attributes.go b/svg/attributes.go
index 72511d0..498068a 100644
--- a/svg/attributes.go
+++ b/svg/attributes.go
@@ -48,8 +48,10 @@ func CalcMode(value ...any) aitch.Node {
 }
 
 // Class declares an SVG "class" attribute
+//
+// Use multiple Class() declarations on a single element - the values are joined into one "class" attribute delimited with " " (space)
 func Class(value ...any) aitch.Node {
-	return aitch.NewAttribute(attrClass, value...)
+	return aitch.NewDelimitedAttribute(attrClass, space, value...)
 }
 
 // Clip declares an SVG "clip" attribute
@@ -721,6 +723,7 @@ func Y2(value ...any) aitch.Node {
 
 var (
 	stylesDelim                    = []byte{';', ' '}
+	space                          = []byte{' '}
 	attrAccumulate                 = []byte("accumulate")
 	attrAdditive                   = []byte("additive")
 	attrAlignmentBaseline          = []byte("alignment-baseline")
-- 
2.43.0


From b9a4f21bdd5a75e72e44e18189eafd8196cfa8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:59 +0000
Subject: [PATCH 20/23] fix: htmx headers escape header names completely

---
 htmx/attributes.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/htmx/attributes.go b/htmx/attributes.go
index d6612c5..32336f9 100644
--- a/htmx/attributes.go
+++ b/htmx/attributes.go
@@ -3,7 +3,6 @@ package htmx
 import (
 	"github.com/go-andiamo/aitch"
 	"sort"
-	"strings"
 )
 
 // Get declares an "hx-get" attribute for issuing a GET request via htmx
@@ -313,7 +312,7 @@ func HeadersJS(value ...HeadersMap) aitch.Node {
 type HeadersMap map[string]any
 
 func (m HeadersMap) serialize(prefix []byte) []any {
-	result := make([]any, 0, (len(m)*2)+3)
+	result := make([]any, 0, (len(m)*4)+3)
 	if len(prefix) > 0 {
 		result = append(result, prefix)
 	}
@@ -325,7 +324,7 @@ func (m HeadersMap) serialize(prefix []byte) []any {
 	sort.Strings(keys)
 	delimit := ""
 	for _, key := range keys {
-		result = append(result, []byte(delimit+`'`+strings.ReplaceAll(key, `"`, `&quot;`)+`': `), m[key])
+		result = append(result, []byte(delimit+`'`), key, []byte(`': `), m[key])
 		delimit = ", "
 	}
 	result = append(result, []byte{'}'})
-- 
2.43.0


From afaa08a75d9fe47cb3d744e2c2f1abd8c660485f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:18 +0000
Subject: [PATCH 21/23] fix: errors returned by attribute nodes are no longer
 lost

An error returned by the Render of an attribute node that is not one of
aitch's own (and so does not set the error of the context) was ignored.
---
 element.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/element.go b/element.go
index 54f86d8..231aaec 100644
--- a/element.go
+++ b/element.go
@@ -24,10 +24,10 @@ func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[st
 						}
 						_ = use.Render(ctx)
 					default:
-						_ = eAttr[len(eAttr)-1].Render(ctx)
+						_ = renderNode(ctx, eAttr[len(eAttr)-1])
 					}
 				} else {
-					_ = attr.Render(ctx)
+					_ = renderNode(ctx, attr)
 				}
 			}
 			for _, name := range names {
@@ -47,7 +47,7 @@ func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[st
 						}
 						_ = use.Render(ctx)
 					default:
-						_ = ca[len(ca)-1].Render(ctx)
+						_ = renderNode(ctx, ca[len(ca)-1])
 					}
 				}
 			}
@@ -55,7 +55,7 @@ func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[st
 		}
 	}
 	for _, attr := range attributes {
-		_ = attr.Render(ctx)
+		_ = renderNode(ctx, attr)
 	}
 }
 
-- 
2.43.0


From 9be18539f3c34eca8a2d079f1f91b614002bd090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:44 +0000
Subject: [PATCH 22/23] fix: Imperative Start renders attribute nodes that are
 not aitch's own

Only their names were written.
---
 imperative.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/imperative.go b/imperative.go
index 7379b95..01cb088 100644
--- a/imperative.go
+++ b/imperative.go
@@ -82,6 +82,7 @@ func (ic *imperativeContext) Start(elementName []byte, isVoid bool, attrs ...Nod
 	ic.ctx.Write(elementName)
 	attValues := make([][]Value, 0, len(attrs))
 	attNames := make([][]byte, 0, len(attrs))
+	attNodes := make([]Node, 0, len(attrs))
 	attIndices := map[string]int{}
 	for _, attr := range attrs {
 		if attr != nil && attr.Type() == AttributeNode {
@@ -101,9 +102,11 @@ func (ic *imperativeContext) Start(elementName []byte, isVoid bool, attrs ...Nod
 				} else {
 					attValues[idx] = nil
 				}
+				attNodes[idx] = attr
 			} else {
 				attIndices[attr.Name()] = len(attNames)
 				attNames = append(attNames, []byte(attr.Name()))
+				attNodes = append(attNodes, attr)
 				if da, ok := attr.(*delimitedAttribute); ok {
 					avs := make([]Value, 0, len(da.values)*2)
 					for i, v := range da.values {
@@ -122,14 +125,17 @@ func (ic *imperativeContext) Start(elementName []byte, isVoid bool, attrs ...Nod
 		}
 	}
 	for a, attName := range attNames {
-		ic.ctx.Write(space)
-		ic.ctx.Write(attName)
 		if vs := attValues[a]; vs != nil {
+			ic.ctx.Write(space)
+			ic.ctx.Write(attName)
 			ic.ctx.Write(attStart)
 			for _, vv := range vs {
 				_, _ = vv.render(ic.ctx)
 			}
 			ic.ctx.Write(attEnd)
+		} else {
+			// not an attribute with values (boolean, or not one of ours)
+			_ = renderNode(ic.ctx, attNodes[a])
 		}
 	}
 	ic.ctx.Write(closeAngleBracket)
-- 
2.43.0


From 66b3219f23e2e2b0e1a1f625fa53c0855c565b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 23/23] fix: templates report errors that user-defined nodes
 leave in the context

---
 template.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/template.go b/template.go
index f75e7fe..a0b4fec 100644
--- a/template.go
+++ b/template.go
@@ -66,13 +66,11 @@ func contextFuncMap(nodeMap NodeMap) template.FuncMap {
 func contextFunc(node Node) any {
 	if node.Type() == AttributeNode {
 		return func(ctx *context.Context) (template.HTMLAttr, error) {
-			err := node.Render(ctx)
-			return "", err
+			return "", renderNode(ctx, node)
 		}
 	} else {
 		return func(ctx *context.Context) (template.HTML, error) {
-			err := node.Render(ctx)
-			return "", err
+			return "", renderNode(ctx, node)
 		}
 	}
 }
-- 
2.43.0


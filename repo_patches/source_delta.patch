From 83e5ef8fe82cbe072aede93495a2c4df3dbc1348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 001/109] fix: select only the files the -i pattern names

The pattern was cut with the wrong offset for a path without a directory
("-i a.hbuf" became the regexp "hbuf"), was not anchored and left '.'
unescaped, so building a.hbuf also built ba.hbuf.
---
 pkg/build/build.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index bb87369..d8685fe 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -112,8 +112,8 @@ func NewBuilder(build Function, param *Param) *Builder {
 func Build(out string, in string, typ string, pack string) error {
 	in = filepath.Clean(in)
 	path := filepath.Dir(in)
-	name := in[len(path)+1:]
-	reg, err := regexp.Compile(strings.ReplaceAll(name, "*", "(.*)"))
+	name := regexp.QuoteMeta(filepath.Base(in))
+	reg, err := regexp.Compile("^" + strings.ReplaceAll(name, "\\*", "(.*)") + "$")
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From bb5a2fa2883e5d1fda0bb1df0c2b6d77eac68017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 002/109] fix: resolve an import of a file in the current
 directory

The name was cut with the wrong offset when the path has no directory part,
so that "b.hbuf" was looked up as "buf" and the build failed.
---
 pkg/parser/interface.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/interface.go b/pkg/parser/interface.go
index 3a58826..769be28 100644
--- a/pkg/parser/interface.go
+++ b/pkg/parser/interface.go
@@ -137,7 +137,7 @@ func parseDirFile(fset *token.FileSet, pkg *ast.Package, path string, name strin
 			spec.Path.Value = imp
 		}
 		path := filepath.Dir(imp)
-		name := imp[len(path)+1:]
+		name := filepath.Base(imp)
 		err := parseDirFile(fset, pkg, path, name)
 		if err != nil {
 			switch err.(type) {
-- 
2.43.0


From f9253e1edbcfb3e95979497964b4f49416cb106f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 003/109] fix: check the keys of every tag, not only of the
 first

---
 pkg/build/build.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index d8685fe..2b6eeb0 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -310,7 +310,10 @@ func (b *Builder) checkTags(tags []*ast.Tag) error {
 	}
 
 	for _, tag := range tags {
-		return b.checkKeyValue(tag.KV)
+		err := b.checkKeyValue(tag.KV)
+		if err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 18ad403cc7935222bbd663363e90c5e114aa0751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 004/109] fix: check the tags of an enum like those of data and
 servers

---
 pkg/build/enum.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/build/enum.go b/pkg/build/enum.go
index aa4acf6..a24da0e 100644
--- a/pkg/build/enum.go
+++ b/pkg/build/enum.go
@@ -6,6 +6,10 @@ import (
 )
 
 func (b *Builder) checkEnum(file *ast.File, enum *ast.EnumType, index int) error {
+	err := b.checkTags(enum.Tags)
+	if err != nil {
+		return err
+	}
 	name := enum.Name.Name
 	if _, ok := _keys[BaseType(name)]; ok {
 		return scanner.Error{
@@ -21,7 +25,7 @@ func (b *Builder) checkEnum(file *ast.File, enum *ast.EnumType, index int) error
 		}
 	}
 
-	err := b.checkEnumItem(file, enum)
+	err = b.checkEnumItem(file, enum)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 83a827e119fc5abf0a43d07c573eac584f3acda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 005/109] fix: report an unknown map key type instead of
 crashing

---
 pkg/build/build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 2b6eeb0..5981865 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -265,7 +265,7 @@ func (b *Builder) checkDataMapKey(file *ast.File, varType *ast.VarType) error {
 			return nil
 		}
 		obj := b.GetDataType(file, varType.TypeExpr.(*ast.Ident).Name)
-		if obj.Kind == ast.Enum {
+		if nil != obj && obj.Kind == ast.Enum {
 			varType.TypeExpr.(*ast.Ident).Obj = obj
 			return nil
 		}
-- 
2.43.0


From 98fb552774afdc64a57f5dff5402b4ae18d8e5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 006/109] fix: report cyclic inheritance instead of recursing
 without end

---
 pkg/build/build.go | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 5981865..f8c33fb 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -157,9 +157,51 @@ func (b *Builder) checkFiles() error {
 		}
 	}
 
+	for _, file := range b.pkg.Files {
+		err := b.checkCyclicExtends(file)
+		if err != nil {
+			return err
+		}
+	}
 	return nil
 }
 
+// checkCyclicExtends reports a type that is, directly or indirectly, its own base.
+func (b *Builder) checkCyclicExtends(file *ast.File) error {
+	for _, s := range file.Specs {
+		spec, ok := s.(*ast.TypeSpec)
+		if ok && extendsType(spec.Type, spec.Type, map[ast.Expr]void{}) {
+			return scanner.Error{
+				Pos: b.fset.Position(spec.Name.Pos()),
+				Msg: "Cyclic extends: " + spec.Name.Name,
+			}
+		}
+	}
+	return nil
+}
+
+func extendsType(typ ast.Expr, base ast.Expr, visited map[ast.Expr]void) bool {
+	if _, ok := visited[typ]; ok {
+		return false
+	}
+	visited[typ] = void{}
+
+	var extends []*ast.Extends
+	switch t := typ.(type) {
+	case *ast.DataType:
+		extends = t.Extends
+	case *ast.ServerType:
+		extends = t.Extends
+	}
+	for _, extend := range extends {
+		next := extend.Name.Obj.Decl.(*ast.TypeSpec).Type
+		if next == base || extendsType(next, base, visited) {
+			return true
+		}
+	}
+	return false
+}
+
 func (b *Builder) checkFile(file *ast.File, imports map[string]void) error {
 	for index, s := range file.Specs {
 		switch s.(type) {
-- 
2.43.0


From e8d79acb3646b7062c7a07a844add55ec7286555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:05 +0000
Subject: [PATCH 007/109] fix: report a file whose first token is invalid
 instead of crashing

---
 pkg/parser/interface.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/interface.go b/pkg/parser/interface.go
index 769be28..785b143 100644
--- a/pkg/parser/interface.go
+++ b/pkg/parser/interface.go
@@ -83,7 +83,9 @@ func ParseFile(fset *token.FileSet, filename string, src interface{}, mode Mode)
 	// parse source
 	p.init(fset, filename, text, mode)
 	f = p.parseFile()
-	f.Path = filename
+	if f != nil {
+		f.Path = filename
+	}
 	return
 }
 
-- 
2.43.0


From af915d40ea6ccce390f31627d9009f81d0f9a3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:05 +0000
Subject: [PATCH 008/109] fix: report a stray '.' instead of scanning it for
 ever

scanNumber does not consume '.', so that Scan made no progress on ".5".
---
 pkg/scanner/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 1d3d44d..62be993 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -708,7 +708,7 @@ scanAgain:
 			insertSemi = true
 			tok = token.IDENT
 		}
-	case isDecimal(ch) || ch == '.' && isDecimal(rune(s.peek())):
+	case isDecimal(ch):
 		insertSemi = true
 		tok, lit = s.scanNumber()
 	default:
-- 
2.43.0


From 3feb1a3593e0d061b7d5ce89b83831c98dbbeb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:05 +0000
Subject: [PATCH 009/109] fix: end a method like a field

The token after a method was skipped whatever it was, so that a '}' on the
same line was lost and anything else was accepted.
---
 pkg/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index a0fc84d..efcee3c 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -860,7 +860,7 @@ func (p *parser) parseServerSpec(doc *ast.CommentGroup, tags []*ast.Tag) ast.Spe
 	var list []*ast.FuncType
 	for p.tok != token.RBRACE && p.tok != token.EOF {
 		list = append(list, p.parseMethodSpec())
-		p.next()
+		p.expectSemi()
 	}
 	rbrace := p.expect(token.RBRACE)
 
-- 
2.43.0


From 9c49ab73740de975a45e15f0523011403087a22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:05 +0000
Subject: [PATCH 010/109] fix: report an array or map as method type instead of
 crashing

---
 pkg/parser/parser.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index efcee3c..40fd73d 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -595,6 +595,18 @@ func (p *parser) parseVarType() ast.Type {
 	return typ
 }
 
+// parseMethodType parses the result or parameter type of a method, which
+// cannot be an array or a map.
+func (p *parser) parseMethodType() *ast.VarType {
+	pos := p.pos
+	typ := p.parseVarType()
+	if v, ok := typ.(*ast.VarType); ok {
+		return v
+	}
+	p.error(pos, "method type cannot be an array or a map")
+	return &ast.VarType{TypeExpr: typ.Type()}
+}
+
 func (p *parser) parseMethodSpec() *ast.FuncType {
 	if p.trace {
 		defer un(trace(p, "MethodSpec"))
@@ -602,18 +614,18 @@ func (p *parser) parseMethodSpec() *ast.FuncType {
 
 	doc := p.leadComment
 	tags := p.parseTags()
-	result := p.parseVarType()
+	result := p.parseMethodType()
 	name := p.parseIdent()
 	p.expect(token.LPAREN)
-	param := p.parseVarType()
+	param := p.parseMethodType()
 	paramName := p.parseIdent()
 	p.expect(token.RPAREN)
 	id := p.parseId()
 
 	var typ = &ast.FuncType{
-		Result:    result.(*ast.VarType),
+		Result:    result,
 		Name:      name,
-		Param:     param.(*ast.VarType),
+		Param:     param,
 		ParamName: paramName,
 		Doc:       doc,
 		Comment:   doc,
-- 
2.43.0


From 965781fb2e1426ebb378cd1f12e7615eb76fcb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:05 +0000
Subject: [PATCH 011/109] fix: require '=' before the value of an enum item

Any token was taken for the '='.
---
 pkg/parser/parser.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 40fd73d..371788b 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -840,13 +840,7 @@ func (p *parser) parseEnumItem(scope *ast.Scope) *ast.EnumItem {
 	}
 	name := p.parseIdent()
 
-	var id *ast.BasicLit
-	p.next()
-	if p.tok != token.INT {
-		p.errorExpected(p.pos, "not find int")
-	}
-	id = &ast.BasicLit{ValuePos: p.pos, Kind: p.tok, Value: p.lit}
-	p.next()
+	id := p.parseId()
 
 	p.expectSemi() // call before accessing p.linecomment
 	return &ast.EnumItem{
-- 
2.43.0


From 8d1ce4a8db3ec7d6089aef2bc858c1b1dd633a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:05 +0000
Subject: [PATCH 012/109] fix: do not print parser traces when tracing is off

---
 pkg/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 371788b..59257f5 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -652,7 +652,7 @@ func (p *parser) parseMapType(value *ast.VarType) *ast.MapType {
 }
 
 func (p *parser) tryIdentOrType() ast.Type {
-	if p.tok != token.IDENT {
+	if p.trace {
 		defer un(trace(p, "TypeName"))
 	}
 	v := &ast.VarType{
-- 
2.43.0


From 82db8861575fd06ac33d54722a5e8aaa12006051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 013/109] fix: report an array or map as map key instead of
 crashing

---
 pkg/build/data.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/build/data.go b/pkg/build/data.go
index 83836e2..202c596 100644
--- a/pkg/build/data.go
+++ b/pkg/build/data.go
@@ -170,7 +170,14 @@ func (b *Builder) checkDataItem(file *ast.File, data *ast.DataType) error {
 			}
 		case *ast.MapType:
 			ma := item.Type.(*ast.MapType)
-			err := b.checkDataMapKey(file, ma.Key.(*ast.VarType))
+			key, ok := ma.Key.(*ast.VarType)
+			if !ok {
+				return scanner.Error{
+					Pos: b.fset.Position(ma.LSS),
+					Msg: "Map keys can only be of type",
+				}
+			}
+			err := b.checkDataMapKey(file, key)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 3a83f514761dd52acb163e1f669f3c1fa8bb2a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 014/109] fix: accept names with a leading, trailing or double
 '_' instead of crashing

---
 pkg/build/build.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index f8c33fb..d5fdab7 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -473,6 +473,9 @@ func StringToHumpName(val string) string {
 	temp := strings.Split(val, "_")
 	var ret string
 	for _, item := range temp {
+		if 0 == len(item) {
+			continue
+		}
 		ret += strings.ToUpper(item[:1])
 		ret += item[1:]
 	}
@@ -487,9 +490,15 @@ func StringToFirstLower(val string) string {
 	temp := strings.Split(val, "_")
 	var ret string
 	for _, item := range temp {
+		if 0 == len(item) {
+			continue
+		}
 		ret += strings.ToUpper(item[:1])
 		ret += item[1:]
 	}
+	if 0 == len(ret) {
+		return ret
+	}
 	return strings.ToLower(ret[:1]) + ret[1:]
 }
 
-- 
2.43.0


From e5cdbc402d7a61f3409a8c8e7b916ac301e9fe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 015/109] fix: report a table without db fields instead of
 crashing

---
 pkg/golang/database.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 61777a3..fdbd1c3 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -84,6 +84,10 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 		b.printNameData(dst, typ)
 	}
 
+	if nil == key && typ == fType && (fDbs[0].Del || fDbs[0].Remove || isDbScope(fDbs[0].Update) || isDbScope(fDbs[0].Set) || isDbScope(fDbs[0].Get)) {
+		return build.ErrorToFileError(build.NewError(typ.Name.Pos(), "Not find db field: "+typ.Name.Name), b.fSet)
+	}
+
 	val := strings.ToLower(fDbs[0].List)
 	if "self" == val || "parent" == val {
 		w := wFields
@@ -195,6 +199,11 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 	return nil
 }
 
+func isDbScope(val string) bool {
+	val = strings.ToLower(val)
+	return "self" == val || "parent" == val
+}
+
 func (b *Builder) getDBField(typ *ast.DataType) ([]*build.DB, []*build.DBField, *build.DBField, error) {
 	dbs := build.GetDB(typ.Name.Name, typ.Tags)
 	if 0 == len(dbs) {
-- 
2.43.0


From 0ca14ed6096259c661c8e566bf93082fa8533a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:39 +0000
Subject: [PATCH 016/109] fix: keep every value of a multi-valued where tag
 whole

---
 pkg/build/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/build/database.go b/pkg/build/database.go
index 15c700b..925bb8d 100644
--- a/pkg/build/database.go
+++ b/pkg/build/database.go
@@ -74,7 +74,7 @@ func GetDB(n string, tag []*ast.Tag) []*DB {
 					} else if "where" == item.Name.Name {
 						where := make([]string, len(item.Values))
 						for i, val := range item.Values {
-							where[i] = val.Value[1 : len(item.Values[0].Value)-1]
+							where[i] = val.Value[1 : len(val.Value)-1]
 						}
 						db.Where = where
 					} else if "offset" == item.Name.Name {
-- 
2.43.0


From d25d6970754da28745cb1d2c7456d936b9c2e1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:39 +0000
Subject: [PATCH 017/109] fix: report a format or bind value without '.'
 instead of crashing

---
 pkg/build/binding.go | 2 +-
 pkg/build/verify.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/build/binding.go b/pkg/build/binding.go
index 8fbfa79..9cb503a 100644
--- a/pkg/build/binding.go
+++ b/pkg/build/binding.go
@@ -25,7 +25,7 @@ func GetBinding(tags []*ast.Tag, file *ast.File, getType func(file *ast.File, na
 					return nil, NewError(item.Pos()+1, "Not set value")
 				}
 				temp := strings.Split(value, ".")
-				if 0 == len(temp) {
+				if 2 != len(temp) {
 					return nil, NewError(item.Pos()+1, "Not find server method:"+value)
 				}
 
diff --git a/pkg/build/verify.go b/pkg/build/verify.go
index 662eecf..4206526 100644
--- a/pkg/build/verify.go
+++ b/pkg/build/verify.go
@@ -36,7 +36,7 @@ func GetVerify(tags []*ast.Tag, file *ast.File, getType func(file *ast.File, nam
 					return nil, NewError(i.Pos()+1, "Not set format")
 				}
 				temp := strings.Split(format, ".")
-				if 0 == len(temp) {
+				if 2 != len(temp) {
 					return nil, NewError(i.Pos()+1, "Not find enum field:"+format)
 				}
 
-- 
2.43.0


From 766105844c0c9fa6e108c5cb656db680de027b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:40 +0000
Subject: [PATCH 018/109] fix: do not crash on a name that is no field in a db
 expression

---
 pkg/golang/database.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index fdbd1c3..64124c2 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -408,6 +408,12 @@ func (b *Builder) printParam(buf *build.Writer, text string, self *build.DBField
 				if t != "$" {
 					field = b.findField(fields, t[2:len(t)-1])
 				}
+				if nil == field {
+					return scanner.Error{
+						//Pos: b.Position(data.Name.Pos()),
+						Msg: "Invalid name: " + t[2:len(t)-1],
+					}
+				}
 
 				buf.Code(".T(")
 				if build.IsNil(field.Field.Type) {
-- 
2.43.0


From b15fc5092618bef74aafae8313dec7f6a960d3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 019/109] fix: do not crash on an enum as db table

---
 pkg/golang/database.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 64124c2..f3dc25d 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -65,7 +65,11 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 		if nil == table {
 			return nil
 		}
-		typ = table.Decl.(*ast.TypeSpec).Type.(*ast.DataType)
+		data, ok := table.Decl.(*ast.TypeSpec).Type.(*ast.DataType)
+		if !ok {
+			return nil
+		}
+		typ = data
 		dbs, fields, key, err = b.getDBField(typ)
 		if nil != err {
 			return nil
-- 
2.43.0


From 8e49e9add3533e8df7d23f2235545f270992efdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:37 +0000
Subject: [PATCH 020/109] fix: write a comment of several lines as one line
 comment

---
 pkg/ast/ast.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/ast/ast.go b/pkg/ast/ast.go
index bd3ed75..0949b7e 100644
--- a/pkg/ast/ast.go
+++ b/pkg/ast/ast.go
@@ -95,12 +95,12 @@ func (g *CommentGroup) Text() string {
 	}
 	lines = lines[0:n]
 
-	// Add final "" entry to get trailing newline from Join.
-	if n > 0 && lines[n-1] != "" {
-		lines = append(lines, "")
+	if n == 0 {
+		return ""
 	}
 
-	return strings.Join(lines, "\n")
+	// One line, as the generators put it behind a line comment marker.
+	return strings.TrimRight(strings.Join(lines, " "), " ") + "\n"
 }
 
 // isDirective reports whether c is a comment directive.
-- 
2.43.0


From 5f17b36dee0f5655b06346dd245d2f6e9f50a701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:06 +0000
Subject: [PATCH 021/109] fix: look up the formats of an inherited field where
 it is declared

---
 pkg/dart/ui.go           | 2 +-
 pkg/dart/verify.go       | 2 +-
 pkg/golang/verify.go     | 2 +-
 pkg/typescript/verify.go | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index 87c6ec9..2e9fbdb 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -509,7 +509,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 		isArray := build.IsArray(field.Type)
 		isNil := build.IsNil(field.Type)
 
-		verify, err := build.GetVerify(field.Tags, dst.File, b.GetDataType)
+		verify, err := build.GetVerify(field.Tags, data.Name.Obj.Data.(*ast.File), b.GetDataType)
 		if err != nil {
 			return err
 		}
diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index fb72025..4b1bccf 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -31,7 +31,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 	dName := build.StringToHumpName(data.Name.Name)
 	err := build.EnumField(data, func(field *ast.Field, data *ast.DataType) error {
 		fName := build.StringToHumpName(field.Name.Name)
-		verify, err := build.GetVerify(field.Tags, dst.File, b.GetDataType)
+		verify, err := build.GetVerify(field.Tags, data.Name.Obj.Data.(*ast.File), b.GetDataType)
 		if err != nil {
 			return err
 		}
diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index cec26bb..dab0293 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -68,7 +68,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 	err := build.EnumField(data, func(field *ast.Field, data *ast.DataType) error {
 		fName := build.StringToHumpName(field.Name.Name)
 
-		verify, err := build.GetVerify(field.Tags, dst.File, b.GetDataType)
+		verify, err := build.GetVerify(field.Tags, data.Name.Obj.Data.(*ast.File), b.GetDataType)
 		if err != nil {
 			return err
 		}
diff --git a/pkg/typescript/verify.go b/pkg/typescript/verify.go
index 655a64b..32a0df2 100644
--- a/pkg/typescript/verify.go
+++ b/pkg/typescript/verify.go
@@ -29,7 +29,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 	dName := build.StringToHumpName(data.Name.Name)
 	err := build.EnumField(data, func(field *ast.Field, data *ast.DataType) error {
 		fName := build.StringToHumpName(field.Name.Name)
-		verify, err := build.GetVerify(field.Tags, dst.File, b.GetDataType)
+		verify, err := build.GetVerify(field.Tags, data.Name.Obj.Data.(*ast.File), b.GetDataType)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 646860ffc9101408150125269cd72a2b807148b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:18 +0000
Subject: [PATCH 022/109] fix: refer to a Go type by the name it is declared
 with

---
 pkg/golang/data.go   | 2 +-
 pkg/golang/gloang.go | 2 +-
 pkg/golang/server.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/golang/data.go b/pkg/golang/data.go
index ce3cf51..792bc80 100644
--- a/pkg/golang/data.go
+++ b/pkg/golang/data.go
@@ -117,7 +117,7 @@ func (b *Builder) printDefault(dst *build.Writer, expr ast.Expr) {
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
 			pack := b.getPackage(dst, expr)
-			dst.Code(pack + (expr.(*ast.Ident)).Name)
+			dst.Code(pack + build.StringToHumpName((expr.(*ast.Ident)).Name))
 			if t.Obj.Kind == ast.Enum {
 				dst.Code("(0)")
 			} else {
diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index b67ee5b..70c26d1 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -240,7 +240,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, b2 bool) {
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
 			pack := b.getPackage(dst, expr)
-			dst.Code(pack + (expr.(*ast.Ident)).Name)
+			dst.Code(pack + build.StringToHumpName(t.Name))
 		} else {
 			if build.Date == build.BaseType((expr.(*ast.Ident)).Name) {
 				dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/hbuf", "")
diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 8c5df35..6204d8d 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -133,7 +133,7 @@ func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *bu
 		dst.Code("\terr := ")
 	}
 	dst.Code(pack)
-	dst.Code("Get").Code(bind.Server.Name.Name).Code("(ctx).").Code(bind.Method.Name.Name).Code("(ctx, &")
+	dst.Code("Get").Code(build.StringToHumpName(bind.Server.Name.Name)).Code("(ctx).").Code(build.StringToHumpName(bind.Method.Name.Name)).Code("(ctx, &")
 	dst.Code("req.")
 	b.printType(dst, bind.Method.Param.Type(), true)
 	dst.Code(")\n")
-- 
2.43.0


From 3580ae9550f49c2bac1de95375e317035caa36e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:46 +0000
Subject: [PATCH 023/109] fix: select the rows of an update by the where fields
 of the calling data

---
 pkg/golang/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index f3dc25d..9a60a93 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -775,7 +775,7 @@ func (b *Builder) printUpdateData(dst *build.Writer, typ *ast.DataType, key stri
 	if typ != fType {
 		key = "parent"
 	}
-	w := b.getParamWhere(dst, fields, false, false, false)
+	w := b.getParamWhere(dst, wFields, false, false, false)
 	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbUpdate(ctx context.Context) (int64, int64, error) {\n")
-- 
2.43.0


From a55d3987a83d6e98e71422147cc70a0b5cfc9807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:46 +0000
Subject: [PATCH 024/109] fix: import the cache package in every database file
 that uses it

---
 pkg/golang/database.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 9a60a93..62d8727 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -615,6 +615,7 @@ func (b *Builder) printCountData(dst *build.Writer, typ *ast.DataType, db *build
 
 	dst.Code("\tvar count int64\n")
 	if nil != c {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\tc, key, _ := cache.DbGet(ctx, \"\", tableName, s, &count)\n")
 		dst.Code("\tif c != nil {\n")
 		dst.Code("\t\treturn *c, nil\n")
@@ -654,6 +655,7 @@ func (b *Builder) printDeleteData(dst *build.Writer, db *build.DB, wFields []*bu
 	dst.Code("func (g " + fName + ") DbDel(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if isCache {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
@@ -682,6 +684,7 @@ func (b *Builder) printRemoveData(dst *build.Writer, db *build.DB, wFields []*bu
 	dst.Code("func (g " + fName + ") DbRemove(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if isCache {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
@@ -708,6 +711,7 @@ func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val stri
 	dst.Code("func (g " + fName + ") DbInsert(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if nil != c {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
@@ -733,6 +737,7 @@ func (b *Builder) printInsertListData(dst *build.Writer, typ *ast.DataType, db *
 	dst.Code("\t\treturn 0, 0, nil\n")
 	dst.Code("\t}\n")
 	if isCache {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
@@ -781,6 +786,7 @@ func (b *Builder) printUpdateData(dst *build.Writer, typ *ast.DataType, key stri
 	dst.Code("func (g " + fName + ") DbUpdate(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if nil != c {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
@@ -813,6 +819,7 @@ func (b *Builder) printSetData(dst *build.Writer, typ *ast.DataType, key string,
 	dst.Code("func (g " + fName + ") DbSet(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if nil != c {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
-- 
2.43.0


From b2b06ede70bd92428b2f933894e3fc019993c071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:25 +0000
Subject: [PATCH 025/109] fix: read a column by the name it is written with

---
 pkg/golang/database.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 62d8727..369f4a9 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -262,14 +262,14 @@ func (b *Builder) getItemAndValue(fields []*build.DBField, key string) (strings.
 	for _, field := range fields {
 		get := ""
 		if 0 < len(field.Dbs[0].Get) {
-			get = strings.ReplaceAll(field.Dbs[0].Get, "?", build.StringToUnderlineName(field.Dbs[0].Name))
+			get = strings.ReplaceAll(field.Dbs[0].Get, "?", field.Dbs[0].Name)
 		} else if "self" == key && (field.Dbs[0].DefaultWhere ||
 			0 == len(field.Dbs[0].Where) &&
 				0 == len(field.Dbs[0].Limit) &&
 				0 == len(field.Dbs[0].Group) &&
 				0 == len(field.Dbs[0].Offset) &&
 				0 == len(field.Dbs[0].Order)) {
-			get = build.StringToUnderlineName(field.Dbs[0].Name)
+			get = field.Dbs[0].Name
 		} else {
 			continue
 		}
-- 
2.43.0


From db5eac56beb24fd1a17735193433748d6eec1e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:26 +0000
Subject: [PATCH 026/109] fix: select a row by the column of the key field

---
 pkg/golang/database.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 369f4a9..df669f2 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -124,7 +124,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 	if fDbs[0].Del {
 		w := wFields
 		if typ == fType {
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
 		b.printDeleteData(dst, dbs[0], w, fType, nil != c)
@@ -133,7 +133,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 	if fDbs[0].Remove {
 		w := wFields
 		if typ == fType {
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
 		b.printRemoveData(dst, dbs[0], w, fType, nil != c)
@@ -166,7 +166,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			f = wFields
 		}
 		if typ == fType {
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
 		b.printUpdateData(dst, typ, val, dbs[0], w, f, fType, c)
@@ -180,7 +180,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			f = wFields
 		}
 		if typ == fType {
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
 		b.printSetData(dst, typ, val, dbs[0], w, f, fType, c)
@@ -194,7 +194,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			f = wFields
 		}
 		if typ == fType {
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			key.Dbs[0].DefaultWhere = true
 			w = []*build.DBField{key}
 		}
-- 
2.43.0


From d15c50d472b270b2c3369fa8a1421deb89dd214c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:27 +0000
Subject: [PATCH 027/109] fix: write one ORDER BY and one GROUP BY for several
 fields

---
 pkg/golang/database.go | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index df669f2..11aa576 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -326,20 +326,26 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 	}
 
 	if groupBy {
-		isFist := true
+		many := b.countField(fields, func(db *build.DB) bool { return 0 < len(db.Group) }) > 1
+		if many {
+			where.Code("\tgroup := \" GROUP BY \"\n")
+		}
 		for _, field := range fields {
 			group := field.Dbs[0].Group
 			if 0 < len(group) {
 				if build.IsNil(field.Field.Type) {
 					where.Code("\tif nil != g." + build.StringToHumpName(field.Field.Name.Name) + " {\t")
 				}
-				if isFist {
-					where.Code("\ts.T(\" GROUP BY \")")
+				if many {
+					where.Code("\ts.T(group)")
 				} else {
-					where.Code("\ts.T(\", \")")
+					where.Code("\ts.T(\" GROUP BY \")")
 				}
 
 				_ = b.printParam(where, group, field, fields, "", "")
+				if many {
+					where.Code("\tgroup = \", \"\n")
+				}
 				if build.IsNil(field.Field.Type) {
 					where.Code("\t}\n")
 				}
@@ -348,7 +354,10 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 	}
 
 	if orderBy {
-
+		many := b.countField(fields, func(db *build.DB) bool { return 0 < len(db.Order) }) > 1
+		if many {
+			where.Code("\torder := \" ORDER BY \"\n")
+		}
 		for _, field := range fields {
 			order := field.Dbs[0].Order
 			if 0 < len(order) {
@@ -361,10 +370,17 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 				}
 
 				where.Code(" {\n")
-				where.Code("\t\ts.T(\" ORDER BY \")")
+				if many {
+					where.Code("\t\ts.T(order)")
+				} else {
+					where.Code("\t\ts.T(\" ORDER BY \")")
+				}
 
 				_ = b.printParam(where, order, field, fields, "", "")
 
+				if many {
+					where.Code("\t\torder = \", \"\n")
+				}
 				where.Code("\t}\n")
 			}
 		}
@@ -384,6 +400,16 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 	return where
 }
 
+func (b *Builder) countField(fields []*build.DBField, call func(db *build.DB) bool) int {
+	count := 0
+	for _, field := range fields {
+		if call(field.Dbs[0]) {
+			count++
+		}
+	}
+	return count
+}
+
 func (b *Builder) findField(fields []*build.DBField, name string) *build.DBField {
 	for _, item := range fields {
 		if item.Field.Name.Name == name {
-- 
2.43.0


From bc36c9f48e4d414ea33f1370d56ac6bdbf3e4c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:27 +0000
Subject: [PATCH 028/109] fix: do not insert null data with DbInsert, as
 documented

---
 pkg/golang/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 11aa576..a41e286 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -747,7 +747,7 @@ func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val stri
 	dst.Code("\ts := db.NewSql()\n")
 	dst.Code("\ts.T(\"INSERT INTO \").T(tableName).T(\" SET \").Del(\",\")\n")
 
-	set := b.printSet(fields, val, false)
+	set := b.printSet(fields, val, true)
 	dst.AddImports(set.GetImports())
 	dst.Code(set.String())
 
-- 
2.43.0


From 19cf221c4550cbdb1765d657295e70cd766fac7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:58 +0000
Subject: [PATCH 029/109] fix: report a db expression with an unknown field
 instead of dropping the condition

---
 pkg/golang/database.go | 174 ++++++++++++++++++++++++++++-------------
 1 file changed, 121 insertions(+), 53 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index a41e286..eaa404e 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -3,7 +3,6 @@ package golang
 import (
 	"hbuf/pkg/ast"
 	"hbuf/pkg/build"
-	"hbuf/pkg/scanner"
 	"regexp"
 	"strconv"
 	"strings"
@@ -99,7 +98,9 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 		if "self" == val {
 			f = wFields
 		}
-		b.printListData(dst, typ, val, dbs[0], w, f, fType, c)
+		if err := b.printListData(dst, typ, val, dbs[0], w, f, fType, c); err != nil {
+			return err
+		}
 	}
 
 	if 0 < len(fDbs[0].Map) {
@@ -112,13 +113,17 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 				if "self" == val {
 					f = wFields
 				}
-				b.printMapData(dst, val, typ, dbs[0], w, f, fType, ks[0], c)
+				if err := b.printMapData(dst, val, typ, dbs[0], w, f, fType, ks[0], c); err != nil {
+					return err
+				}
 			}
 		}
 	}
 
 	if fDbs[0].Count {
-		b.printCountData(dst, typ, dbs[0], wFields, fType, fields, c)
+		if err := b.printCountData(dst, typ, dbs[0], wFields, fType, fields, c); err != nil {
+			return err
+		}
 	}
 
 	if fDbs[0].Del {
@@ -127,7 +132,9 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
-		b.printDeleteData(dst, dbs[0], w, fType, nil != c)
+		if err := b.printDeleteData(dst, dbs[0], w, fType, nil != c); err != nil {
+			return err
+		}
 	}
 
 	if fDbs[0].Remove {
@@ -136,7 +143,9 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
-		b.printRemoveData(dst, dbs[0], w, fType, nil != c)
+		if err := b.printRemoveData(dst, dbs[0], w, fType, nil != c); err != nil {
+			return err
+		}
 	}
 
 	val = strings.ToLower(fDbs[0].Insert)
@@ -146,7 +155,9 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 		if "self" == val {
 			f = wFields
 		}
-		b.printInsertData(dst, typ, val, dbs[0], w, f, fType, key, c)
+		if err := b.printInsertData(dst, typ, val, dbs[0], w, f, fType, key, c); err != nil {
+			return err
+		}
 	}
 
 	val = strings.ToLower(fDbs[0].Inserts)
@@ -169,7 +180,9 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
-		b.printUpdateData(dst, typ, val, dbs[0], w, f, fType, c)
+		if err := b.printUpdateData(dst, typ, val, dbs[0], w, f, fType, c); err != nil {
+			return err
+		}
 	}
 
 	val = strings.ToLower(fDbs[0].Set)
@@ -183,7 +196,9 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
-		b.printSetData(dst, typ, val, dbs[0], w, f, fType, c)
+		if err := b.printSetData(dst, typ, val, dbs[0], w, f, fType, c); err != nil {
+			return err
+		}
 	}
 
 	val = strings.ToLower(fDbs[0].Get)
@@ -198,7 +213,9 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			key.Dbs[0].DefaultWhere = true
 			w = []*build.DBField{key}
 		}
-		b.printGetData(dst, typ, val, dbs[0], w, f, fType, c)
+		if err := b.printGetData(dst, typ, val, dbs[0], w, f, fType, c); err != nil {
+			return err
+		}
 	}
 	return nil
 }
@@ -288,7 +305,7 @@ func (b *Builder) getItemAndValue(fields []*build.DBField, key string) (strings.
 
 }
 
-func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page, orderBy, groupBy bool) *build.Writer {
+func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page, orderBy, groupBy bool) (*build.Writer, error) {
 	where := build.NewWriter()
 	where.Packages = dst.Packages
 
@@ -303,10 +320,14 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 					} else {
 						where.Code("\tif nil != g." + fieldName + " {\n")
 					}
-					_ = b.printParam(where, item, field, fields, "", "\t\ts")
+					if err := b.printParam(where, item, field, fields, "", "\t\ts"); err != nil {
+						return nil, err
+					}
 					where.Code("\t}\n")
 				} else {
-					_ = b.printParam(where, item, field, fields, "", "\ts")
+					if err := b.printParam(where, item, field, fields, "", "\ts"); err != nil {
+						return nil, err
+					}
 				}
 			} else {
 				if build.IsNil(field.Field.Type) {
@@ -316,10 +337,14 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 						where.Code(" && nil != g." + fieldName + "[" + strconv.Itoa(i) + "]")
 					}
 					where.Code(" {\n")
-					_ = b.printParam(where, item, field, fields, "["+strconv.Itoa(i)+"]", "\t\ts")
+					if err := b.printParam(where, item, field, fields, "["+strconv.Itoa(i)+"]", "\t\ts"); err != nil {
+						return nil, err
+					}
 					where.Code("\t}\n")
 				} else {
-					_ = b.printParam(where, item, field, fields, "["+strconv.Itoa(i)+"]", "\ts")
+					if err := b.printParam(where, item, field, fields, "["+strconv.Itoa(i)+"]", "\ts"); err != nil {
+						return nil, err
+					}
 				}
 			}
 		}
@@ -342,7 +367,9 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 					where.Code("\ts.T(\" GROUP BY \")")
 				}
 
-				_ = b.printParam(where, group, field, fields, "", "")
+				if err := b.printParam(where, group, field, fields, "", ""); err != nil {
+					return nil, err
+				}
 				if many {
 					where.Code("\tgroup = \", \"\n")
 				}
@@ -376,7 +403,9 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 					where.Code("\t\ts.T(\" ORDER BY \")")
 				}
 
-				_ = b.printParam(where, order, field, fields, "", "")
+				if err := b.printParam(where, order, field, fields, "", ""); err != nil {
+					return nil, err
+				}
 
 				if many {
 					where.Code("\t\torder = \", \"\n")
@@ -397,7 +426,7 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 			}
 		}
 	}
-	return where
+	return where, nil
 }
 
 func (b *Builder) countField(fields []*build.DBField, call func(db *build.DB) bool) int {
@@ -439,10 +468,7 @@ func (b *Builder) printParam(buf *build.Writer, text string, self *build.DBField
 					field = b.findField(fields, t[2:len(t)-1])
 				}
 				if nil == field {
-					return scanner.Error{
-						//Pos: b.Position(data.Name.Pos()),
-						Msg: "Invalid name: " + t[2:len(t)-1],
-					}
+					return build.ErrorToFileError(build.NewError(self.Field.Name.Pos(), "Invalid name: "+t[2:len(t)-1]), b.fSet)
 				}
 
 				buf.Code(".T(")
@@ -462,10 +488,7 @@ func (b *Builder) printParam(buf *build.Writer, text string, self *build.DBField
 					temp = ""
 				}
 				if nil == field {
-					return scanner.Error{
-						//Pos: b.Position(data.Name.Pos()),
-						Msg: "Invalid name: " + t[2:len(t)-1],
-					}
+					return build.ErrorToFileError(build.NewError(self.Field.Name.Pos(), "Invalid name: "+t[2:len(t)-1]), b.fSet)
 				}
 				if 0 == len(field.Dbs[0].Converter) && build.IsArray(field.Field.Type) && 0 == len(temp) {
 					buf.Code(".L(\",\", ")
@@ -494,7 +517,7 @@ func (b *Builder) printParam(buf *build.Writer, text string, self *build.DBField
 	return nil
 }
 
-func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) {
+func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) error {
 	fName := build.StringToHumpName(fType.Name.Name)
 	dName := build.StringToHumpName(typ.Name.Name)
 	if typ != fType {
@@ -502,7 +525,10 @@ func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string
 	} else if "self" == key {
 		dName = fName
 	}
-	w := b.getParamWhere(dst, wFields, true, true, true)
+	w, err := b.getParamWhere(dst, wFields, true, true, true)
+	if err != nil {
+		return err
+	}
 	dst.AddImports(w.GetImports())
 
 	item, scan, _ := b.getItemAndValue(fields, key)
@@ -553,12 +579,13 @@ func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string
 	dst.Code("\treturn ret, nil\n")
 	dst.Code("}\n")
 	dst.Code("\n")
+	return nil
 }
 
-func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, keyName string, c *cache) {
+func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, keyName string, c *cache) error {
 	kType, KName, ok := b.getKey(dst, fields, keyName)
 	if !ok {
-		return
+		return nil
 	}
 	fName := build.StringToHumpName(fType.Name.Name)
 	dName := build.StringToHumpName(typ.Name.Name)
@@ -567,7 +594,10 @@ func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType,
 	} else if "self" == key {
 		dName = fName
 	}
-	w := b.getParamWhere(dst, wFields, true, true, true)
+	w, err := b.getParamWhere(dst, wFields, true, true, true)
+	if err != nil {
+		return err
+	}
 	dst.AddImports(w.GetImports())
 	dst.AddImports(kType.GetImports())
 	dst.AddImports(KName.GetImports())
@@ -620,12 +650,16 @@ func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType,
 	dst.Code("\treturn ret, nil\n")
 	dst.Code("}\n")
 	dst.Code("\n")
+	return nil
 }
 
-func (b *Builder) printCountData(dst *build.Writer, typ *ast.DataType, db *build.DB, wFields []*build.DBField, fType *ast.DataType, fFields []*build.DBField, c *cache) {
+func (b *Builder) printCountData(dst *build.Writer, typ *ast.DataType, db *build.DB, wFields []*build.DBField, fType *ast.DataType, fFields []*build.DBField, c *cache) error {
 	fName := build.StringToHumpName(fType.Name.Name)
 
-	w := b.getParamWhere(dst, wFields, false, false, true)
+	w, err := b.getParamWhere(dst, wFields, false, false, true)
+	if err != nil {
+		return err
+	}
 	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbCount(ctx context.Context) (int64, error) {\n")
@@ -670,12 +704,16 @@ func (b *Builder) printCountData(dst *build.Writer, typ *ast.DataType, db *build
 	dst.Code("\treturn count, nil\n")
 	dst.Code("}\n")
 	dst.Code("\n")
+	return nil
 }
 
-func (b *Builder) printDeleteData(dst *build.Writer, db *build.DB, wFields []*build.DBField, fType *ast.DataType, isCache bool) {
+func (b *Builder) printDeleteData(dst *build.Writer, db *build.DB, wFields []*build.DBField, fType *ast.DataType, isCache bool) error {
 	fName := build.StringToHumpName(fType.Name.Name)
 
-	w := b.getParamWhere(dst, wFields, true, false, false)
+	w, err := b.getParamWhere(dst, wFields, true, false, false)
+	if err != nil {
+		return err
+	}
 	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbDel(ctx context.Context) (int64, int64, error) {\n")
@@ -699,12 +737,16 @@ func (b *Builder) printDeleteData(dst *build.Writer, db *build.DB, wFields []*bu
 
 	dst.Code("\treturn s.Exec(ctx)\n")
 	dst.Code("}\n\n")
+	return nil
 }
 
-func (b *Builder) printRemoveData(dst *build.Writer, db *build.DB, wFields []*build.DBField, fType *ast.DataType, isCache bool) {
+func (b *Builder) printRemoveData(dst *build.Writer, db *build.DB, wFields []*build.DBField, fType *ast.DataType, isCache bool) error {
 	fName := build.StringToHumpName(fType.Name.Name)
 
-	w := b.getParamWhere(dst, wFields, true, false, false)
+	w, err := b.getParamWhere(dst, wFields, true, false, false)
+	if err != nil {
+		return err
+	}
 	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbRemove(ctx context.Context) (int64, int64, error) {\n")
@@ -724,14 +766,18 @@ func (b *Builder) printRemoveData(dst *build.Writer, db *build.DB, wFields []*bu
 
 	dst.Code("\treturn s.Exec(ctx)\n")
 	dst.Code("}\n\n")
+	return nil
 }
 
-func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, key *build.DBField, c *cache) {
+func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, key *build.DBField, c *cache) error {
 	fName := build.StringToHumpName(fType.Name.Name)
 	if typ != fType {
 		val = "parent"
 	}
-	w := b.getParamWhere(dst, wFields, false, false, false)
+	w, err := b.getParamWhere(dst, wFields, false, false, false)
+	if err != nil {
+		return err
+	}
 	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbInsert(ctx context.Context) (int64, int64, error) {\n")
@@ -747,12 +793,16 @@ func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val stri
 	dst.Code("\ts := db.NewSql()\n")
 	dst.Code("\ts.T(\"INSERT INTO \").T(tableName).T(\" SET \").Del(\",\")\n")
 
-	set := b.printSet(fields, val, true)
+	set, err := b.printSet(fields, val, true)
+	if err != nil {
+		return err
+	}
 	dst.AddImports(set.GetImports())
 	dst.Code(set.String())
 
 	dst.Code("\treturn s.Exec(ctx)\n")
 	dst.Code("}\n\n")
+	return nil
 }
 
 func (b *Builder) printInsertListData(dst *build.Writer, typ *ast.DataType, db *build.DB, fields []*build.DBField, key *build.DBField, isCache bool) {
@@ -801,12 +851,15 @@ func (b *Builder) printInsertListData(dst *build.Writer, typ *ast.DataType, db *
 	dst.Code("}\n\n")
 }
 
-func (b *Builder) printUpdateData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) {
+func (b *Builder) printUpdateData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) error {
 	fName := build.StringToHumpName(fType.Name.Name)
 	if typ != fType {
 		key = "parent"
 	}
-	w := b.getParamWhere(dst, wFields, false, false, false)
+	w, err := b.getParamWhere(dst, wFields, false, false, false)
+	if err != nil {
+		return err
+	}
 	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbUpdate(ctx context.Context) (int64, int64, error) {\n")
@@ -822,7 +875,10 @@ func (b *Builder) printUpdateData(dst *build.Writer, typ *ast.DataType, key stri
 	dst.Code("\ts := db.NewSql()\n")
 	dst.Code("\ts.T(\"UPDATE \").T(tableName).T(\" SET \").Del(\",\")\n")
 
-	set := b.printSet(fields, key, true)
+	set, err := b.printSet(fields, key, true)
+	if err != nil {
+		return err
+	}
 	dst.AddImports(set.GetImports())
 	dst.Code(set.String())
 
@@ -832,14 +888,18 @@ func (b *Builder) printUpdateData(dst *build.Writer, typ *ast.DataType, key stri
 
 	dst.Code("\treturn s.Exec(ctx)\n")
 	dst.Code("}\n\n")
+	return nil
 }
 
-func (b *Builder) printSetData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) {
+func (b *Builder) printSetData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) error {
 	fName := build.StringToHumpName(fType.Name.Name)
 	if typ != fType {
 		key = "parent"
 	}
-	w := b.getParamWhere(dst, wFields, false, false, false)
+	w, err := b.getParamWhere(dst, wFields, false, false, false)
+	if err != nil {
+		return err
+	}
 	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbSet(ctx context.Context) (int64, int64, error) {\n")
@@ -855,7 +915,10 @@ func (b *Builder) printSetData(dst *build.Writer, typ *ast.DataType, key string,
 	dst.Code("\ts := db.NewSql()\n")
 	dst.Code("\ts.T(\"UPDATE \").T(tableName).T(\" SET \").Del(\",\")\n")
 
-	set := b.printSet(fields, key, false)
+	set, err := b.printSet(fields, key, false)
+	if err != nil {
+		return err
+	}
 	dst.AddImports(set.GetImports())
 	dst.Code(set.String())
 
@@ -865,9 +928,10 @@ func (b *Builder) printSetData(dst *build.Writer, typ *ast.DataType, key string,
 
 	dst.Code("\treturn s.Exec(ctx)\n")
 	dst.Code("}\n\n")
+	return nil
 }
 
-func (b *Builder) printSet(fields []*build.DBField, key string, isNil bool) *build.Writer {
+func (b *Builder) printSet(fields []*build.DBField, key string, isNil bool) (*build.Writer, error) {
 	dst := build.NewWriter()
 	for _, field := range fields {
 		set := ""
@@ -887,17 +951,18 @@ func (b *Builder) printSet(fields []*build.DBField, key string, isNil bool) *bui
 		}
 
 		dst.Code("\ts.T(\",\")")
-		_ = b.printParam(dst, set, field, fields, "", "")
+		if err := b.printParam(dst, set, field, fields, "", ""); err != nil {
+			return nil, err
+		}
 
 		if isNil && build.IsNil(field.Field.Type) && !field.Dbs[0].Force {
 			dst.Code("\t}\n")
 		}
 	}
-	return dst
-
+	return dst, nil
 }
 
-func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) {
+func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) error {
 	fName := build.StringToHumpName(fType.Name.Name)
 	dName := build.StringToHumpName(typ.Name.Name)
 	if typ == fType {
@@ -908,7 +973,10 @@ func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string,
 		key = "self"
 	}
 
-	w := b.getParamWhere(dst, wFields, false, true, true)
+	w, err := b.getParamWhere(dst, wFields, false, true, true)
+	if err != nil {
+		return err
+	}
 	dst.AddImports(w.GetImports())
 
 	item, scan, _ := b.getItemAndValue(fields, key)
@@ -955,5 +1023,5 @@ func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string,
 	}
 	dst.Code("\treturn val, nil\n")
 	dst.Code("}\n\n")
-
+	return nil
 }
-- 
2.43.0


From f13aa29dbdf3772fd33b22b09f928bd891e71161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:11 +0000
Subject: [PATCH 030/109] fix: exit with status 1 when nothing could be built

---
 cmd/main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/main.go b/cmd/main.go
index 189ea4b..1c81fa2 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -9,6 +9,7 @@ import (
 	"hbuf/pkg/java"
 	ts "hbuf/pkg/typescript"
 	"log"
+	"os"
 )
 
 var version = "0.0.1"
@@ -46,12 +47,12 @@ func main() {
 	}
 	if !build.CheckType(*typ) {
 		fmt.Println(fmt.Errorf("Type error : %s", *typ))
-		return
+		os.Exit(1)
 	}
 
 	err := build.Build(*out, *in, *typ, *pack)
 	if err != nil {
 		fmt.Println(fmt.Errorf("Build error: %s", err))
-		return
+		os.Exit(1)
 	}
 }
-- 
2.43.0


From 0fe0cba7855e4bd4ee669f82032e8ac2786a2231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:07 +0000
Subject: [PATCH 031/109] fix: use the declared parameter name in Go clients
 and bindings, and return from bound void methods

---
 pkg/golang/server.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 6204d8d..44f9ca3 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -121,9 +121,14 @@ func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *bu
 	if err != nil {
 		return err
 	}
+	param := build.StringToFirstLower(method.ParamName.Name)
+	nilValue := "nil, "
+	if isSub {
+		nilValue = ""
+	}
 	if nil != verify {
-		dst.Code("\tif err := req.Verify(ctx); err != nil {\n")
-		dst.Code("\t\treturn nil, erro.Wrap(err)\n")
+		dst.Code("\tif err := " + param + ".Verify(ctx); err != nil {\n")
+		dst.Code("\t\treturn " + nilValue + "erro.Wrap(err)\n")
 		dst.Code("\t}\n")
 	}
 	pack := b.getPackage(dst, bind.Server.Name)
@@ -134,12 +139,12 @@ func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *bu
 	}
 	dst.Code(pack)
 	dst.Code("Get").Code(build.StringToHumpName(bind.Server.Name.Name)).Code("(ctx).").Code(build.StringToHumpName(bind.Method.Name.Name)).Code("(ctx, &")
-	dst.Code("req.")
+	dst.Code(param + ".")
 	b.printType(dst, bind.Method.Param.Type(), true)
 	dst.Code(")\n")
 
 	dst.Code("\tif err != nil {\n")
-	dst.Code("\t\treturn nil, err\n")
+	dst.Code("\t\treturn " + nilValue + "err\n")
 	dst.Code("\t}\n")
 
 	dst.Code("\treturn ")
@@ -205,7 +210,7 @@ func (b *Builder) printClient(dst *build.Writer, typ *ast.ServerType) {
 		} else {
 			dst.Code("\tret")
 		}
-		dst.Code(", err := r.client.Invoke(ctx, req, \"" + name + "/" + build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\", &rpc.ClientInvoke{\n")
+		dst.Code(", err := r.client.Invoke(ctx, " + build.StringToFirstLower(method.ParamName.Name) + ", \"" + name + "/" + build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\", &rpc.ClientInvoke{\n")
 		if !isMethod {
 			dst.Code("\t\tToData: func(buf []byte) (hbuf.Data, error) {\n")
 			dst.Code("\t\t\tvar req ")
-- 
2.43.0


From ed6ca6fdfb75940e60b77654b69a6bd0357ee4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:08 +0000
Subject: [PATCH 032/109] fix: name the embedded data of a binding without its
 package

---
 pkg/golang/server.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 44f9ca3..7ec742f 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -109,7 +109,10 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 
 			dst.Code(" erro.NewError(\"not find server " + build.StringToUnderlineName(typ.Name.Name) + "\")\n")
 		} else {
-			b.printBinding(dst, method, bind, isSub)
+			err = b.printBinding(dst, method, bind, isSub)
+			if err != nil {
+				return err
+			}
 		}
 		dst.Code("}\n\n")
 	}
@@ -140,7 +143,7 @@ func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *bu
 	dst.Code(pack)
 	dst.Code("Get").Code(build.StringToHumpName(bind.Server.Name.Name)).Code("(ctx).").Code(build.StringToHumpName(bind.Method.Name.Name)).Code("(ctx, &")
 	dst.Code(param + ".")
-	b.printType(dst, bind.Method.Param.Type(), true)
+	dst.Code(build.StringToHumpName(bind.Method.Param.Type().(*ast.Ident).Name))
 	dst.Code(")\n")
 
 	dst.Code("\tif err != nil {\n")
@@ -152,7 +155,7 @@ func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *bu
 		dst.Code("&")
 		b.printType(dst, method.Result.Type(), true)
 		dst.Code("{")
-		b.printType(dst, bind.Method.Result.Type(), true)
+		dst.Code(build.StringToHumpName(bind.Method.Result.Type().(*ast.Ident).Name))
 		dst.Code(": *reps}, ")
 	}
 	dst.Code("nil\n")
-- 
2.43.0


From 20cc06b00c2ec135a4333cb444d3c403752b1895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:08 +0000
Subject: [PATCH 033/109] fix: compare 64 bit integers in Verify by value

---
 pkg/golang/verify.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index dab0293..5bae803 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -141,13 +141,13 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
-							dst.Code(f.Min + " > i.Get" + fName + "().Val ")
+							dst.Code(f.Min + " > i.Get" + fName + "() ")
 						}
 						if 0 < len(f.Max) {
 							if 0 < len(f.Min) {
 								dst.Code("|| ")
 							}
-							dst.Code(f.Max + " < i.Get" + fName + "().Val ")
+							dst.Code(f.Max + " < i.Get" + fName + "() ")
 						}
 						dst.Code("{\n")
 						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
-- 
2.43.0


From da4b220c1108e33c0e53e5f2b543a3704dcfdbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:09 +0000
Subject: [PATCH 034/109] fix: compare decimals in Verify with the maximum, and
 import the package

---
 pkg/golang/verify.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index 5bae803..c316b09 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -180,6 +180,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 					}
 				case build.Decimal:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
+						dst.Import("github.com/shopspring/decimal", "")
 						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
@@ -189,7 +190,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							if 0 < len(f.Min) {
 								dst.Code("|| ")
 							}
-							dst.Code("decimal.NewFromFloat(" + f.Min + ").LessThan(i.Get" + fName + "()) ")
+							dst.Code("decimal.NewFromFloat(" + f.Max + ").LessThan(i.Get" + fName + "()) ")
 						}
 						dst.Code("{\n")
 						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
-- 
2.43.0


From 4f3f4a594c267ab354ab6f58b1eb720da964cd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:24 +0000
Subject: [PATCH 035/109] fix: route inherited methods to the derived server in
 TypeScript, Dart and Java, as in Go

---
 pkg/dart/server.go       | 4 ++--
 pkg/java/server.go       | 4 ++--
 pkg/typescript/server.go | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/dart/server.go b/pkg/dart/server.go
index 87cba6a..a274ef2 100644
--- a/pkg/dart/server.go
+++ b/pkg/dart/server.go
@@ -70,7 +70,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("    return invoke<")
 		b.printType(dst, method.Result.Type(), false)
 		dst.Code(">(\"")
-		dst.Code(build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
+		dst.Code(build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
 		dst.Code("\", ")
 		//TODO dst.Code(server.Id.Value + " << 32 | " + method.Id.Value)
 		dst.Code("0 << 32 | " + method.Id.Value)
@@ -114,7 +114,7 @@ func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("  " + build.StringToHumpName(typ.Name.Name) + "Router(this.server){\n")
 	dst.Code("    _invokeNames = {\n")
 	_ = build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
-		dst.Code("      \"" + build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\": ServerInvoke(\n")
+		dst.Code("      \"" + build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\": ServerInvoke(\n")
 		dst.Code("        toData: (List<int> buf) async {\n")
 		dst.Code("          return ")
 		b.printType(dst, method.Param.Type(), false)
diff --git a/pkg/java/server.go b/pkg/java/server.go
index 38627c8..dcca0dc 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -74,7 +74,7 @@ func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code(", Server.Context ctx) throws Exception {\n")
 
 		dst.Code("\t\t\treturn invoke(\"")
-		dst.Code(build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
+		dst.Code(build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
 		dst.Code("\", ")
 		//TODO dst.Code(server.Id.Value + " << 32 | " + method.Id.Value)
 		dst.Code("0 << 32 | " + method.Id.Value)
@@ -117,7 +117,7 @@ func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 	//dst.Code("\t" + build.StringToHumpName(typ.Name.Name) + "Router(this.server){\n")
 	//dst.Code("\t\t_invokeNames = {\n")
 	//_ = build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
-	//	dst.Code("\t\t\t\"" + build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\": ServerInvoke(\n")
+	//	dst.Code("\t\t\t\"" + build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\": ServerInvoke(\n")
 	//	dst.Code("\t\t\t\ttoData: (List<int> buf) async {\n")
 	//	dst.Code("\t\t\t\t\treturn ")
 	//	b.printType(dst, method.Param.Type(), false)
diff --git a/pkg/typescript/server.go b/pkg/typescript/server.go
index d41599b..9784f38 100644
--- a/pkg/typescript/server.go
+++ b/pkg/typescript/server.go
@@ -95,7 +95,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 			b.printType(dst, method.Result.Type(), false, false)
 		}
 		dst.Code(">(\"")
-		dst.Code(build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
+		dst.Code(build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
 		dst.Code("\", ")
 		dst.Code("0 << 32 | " + method.Id.Value)
 		dst.Code(", ")
@@ -139,7 +139,7 @@ func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("\t\tthis.server = server\n")
 	dst.Code("\t\tthis.invoke = {\n")
 	err := build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
-		dst.Code("\t\t\t\"" + build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\": {\n")
+		dst.Code("\t\t\t\"" + build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\": {\n")
 		dst.Code("\t\t\t\tformData(data: BinaryData | Record<string, any>): h.Data {\n")
 		dst.Code("\t\t\t\t\treturn ")
 		b.printType(dst, method.Param.Type(), false, false)
-- 
2.43.0


From 6c76cd770de89c7f3161901dec40bf806fd1a7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:32 +0000
Subject: [PATCH 036/109] fix: refer to a TypeScript, Dart or Java type by the
 name it is declared with

---
 pkg/dart/dart.go             | 2 +-
 pkg/dart/data.go             | 8 ++++----
 pkg/java/java.go             | 2 +-
 pkg/typescript/data.go       | 8 ++++----
 pkg/typescript/typescript.go | 6 +++---
 5 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/pkg/dart/dart.go b/pkg/dart/dart.go
index 62b402b..0987c04 100644
--- a/pkg/dart/dart.go
+++ b/pkg/dart/dart.go
@@ -215,7 +215,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool) {
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
 			b.getPackage(dst, expr, "")
-			dst.Code(expr.(*ast.Ident).Name)
+			dst.Code(build.StringToHumpName(expr.(*ast.Ident).Name))
 		} else {
 			if build.Decimal == build.BaseType((expr.(*ast.Ident).Name)) {
 				dst.Import("package:decimal/decimal.dart", "")
diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index 792e74a..701cb53 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -408,15 +408,15 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 		if nil != t.Obj {
 			if ast.Enum == t.Obj.Kind {
 				if empty {
-					dst.Code("null == " + name + " ? null :" + v + " is num ? " + t.Name + ".valueOf(" + v + ".toInt()) : null == num.tryParse(" + v + ".toString()) ? null : " + t.Name + ".valueOf(num.tryParse(" + v + ".toString())!.toInt())")
+					dst.Code("null == " + name + " ? null :" + v + " is num ? " + build.StringToHumpName(t.Name) + ".valueOf(" + v + ".toInt()) : null == num.tryParse(" + v + ".toString()) ? null : " + build.StringToHumpName(t.Name) + ".valueOf(num.tryParse(" + v + ".toString())!.toInt())")
 				} else {
-					dst.Code("null == " + name + " ? " + t.Name + ".valueOf(0) : " + t.Name + ".valueOf(" + v + " is num ? " + v + ".toInt() : num.tryParse(" + v + ".toString())?.toInt() ?? 0)")
+					dst.Code("null == " + name + " ? " + build.StringToHumpName(t.Name) + ".valueOf(0) : " + build.StringToHumpName(t.Name) + ".valueOf(" + v + " is num ? " + v + ".toInt() : num.tryParse(" + v + ".toString())?.toInt() ?? 0)")
 				}
 			} else if ast.Data == t.Obj.Kind {
 				if empty {
-					dst.Code("null == " + name + " ? null : " + t.Name + ".fromMap(" + v + ")")
+					dst.Code("null == " + name + " ? null : " + build.StringToHumpName(t.Name) + ".fromMap(" + v + ")")
 				} else {
-					dst.Code("null == " + name + " ? " + t.Name + ".fromMap({}) : " + t.Name + ".fromMap(" + v + ")")
+					dst.Code("null == " + name + " ? " + build.StringToHumpName(t.Name) + ".fromMap({}) : " + build.StringToHumpName(t.Name) + ".fromMap(" + v + ")")
 				}
 			} else {
 				dst.Code("map[\"" + name + "\"]")
diff --git a/pkg/java/java.go b/pkg/java/java.go
index 180c4fa..1ffdefa 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -224,7 +224,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool) {
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
 			b.getPackage(dst, expr, "")
-			dst.Code(expr.(*ast.Ident).Name)
+			dst.Code(build.StringToHumpName(expr.(*ast.Ident).Name))
 		} else {
 			if build.Decimal == build.BaseType((expr.(*ast.Ident).Name)) {
 				dst.Import("java.math.BigDecimal", "")
diff --git a/pkg/typescript/data.go b/pkg/typescript/data.go
index 58c91d5..42c2135 100644
--- a/pkg/typescript/data.go
+++ b/pkg/typescript/data.go
@@ -198,16 +198,16 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 					}
 				} else {
 					if empty {
-						dst.Code("null == " + name + " ? null : " + p + "." + t.Name + ".valueOf(Number(" + v + ").valueOf())")
+						dst.Code("null == " + name + " ? null : " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(Number(" + v + ").valueOf())")
 					} else {
-						dst.Code("null == " + name + " ? " + p + "." + t.Name + ".valueOf(0) : " + p + "." + t.Name + ".valueOf(Number(" + v + ").valueOf())")
+						dst.Code("null == " + name + " ? " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(0) : " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(Number(" + v + ").valueOf())")
 					}
 				}
 			} else if ast.Data == t.Obj.Kind {
 				if empty {
-					dst.Code("null == " + name + " ? null : " + p + "." + t.Name + ".fromJson(" + v + ")")
+					dst.Code("null == " + name + " ? null : " + p + "." + build.StringToHumpName(t.Name) + ".fromJson(" + v + ")")
 				} else {
-					dst.Code("null == " + name + " ? " + p + "." + t.Name + ".fromJson({}) : " + p + "." + t.Name + ".fromJson(" + v + ")")
+					dst.Code("null == " + name + " ? " + p + "." + build.StringToHumpName(t.Name) + ".fromJson({}) : " + p + "." + build.StringToHumpName(t.Name) + ".fromJson(" + v + ")")
 				}
 			} else {
 				dst.Code("map[\"" + name + "\"]")
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index ecfd7a7..4e3a205 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -245,7 +245,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool, isR
 				pkg := b.getPackage(dst, expr, "")
 				dst.Code(pkg)
 				dst.Code(".")
-				dst.Code(expr.(*ast.Ident).Name)
+				dst.Code(build.StringToHumpName(expr.(*ast.Ident).Name))
 			}
 		} else {
 			if isRecordKey {
@@ -332,14 +332,14 @@ func (b *Builder) printDefault(dst *build.Writer, expr ast.Expr, notEmpty bool)
 				pkg := b.getPackage(dst, expr, "")
 				dst.Code(pkg)
 				dst.Code(".")
-				dst.Code(expr.(*ast.Ident).Name)
+				dst.Code(build.StringToHumpName(expr.(*ast.Ident).Name))
 				dst.Code(".valueOf(0)")
 			} else {
 				dst.Code("new ")
 				pkg := b.getPackage(dst, expr, "")
 				dst.Code(pkg)
 				dst.Code(".")
-				dst.Code(expr.(*ast.Ident).Name)
+				dst.Code(build.StringToHumpName(expr.(*ast.Ident).Name))
 				dst.Code("()")
 			}
 		} else {
-- 
2.43.0


From d8380a9b95f68e21123f85b18d36167172e8a479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:26 +0000
Subject: [PATCH 037/109] fix: import what a Go verify function uses where it
 is used

---
 pkg/golang/verify.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index c316b09..78fffd1 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -88,8 +88,8 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 			pack := b.getPackage(dst, val.Enum.Name) + build.StringToHumpName(val.Enum.Name.Name) + build.StringToHumpName(val.Item.Name.Name)
 
 			if build.IsNil(field.Type) && 0 == i {
-				dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 				if !f.Null {
+					dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 					dst.Code("\tif nil == i." + fName)
 					if build.GetBaseType(field.Type) == build.String {
 						dst.Code(" || len(i.Get" + fName + "()) == 0")
@@ -197,9 +197,9 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						dst.Code("\t}\n")
 					}
 				case build.String:
-					dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 					pack := b.getPackage(dst, val.Enum.Name) + build.StringToHumpName(val.Enum.Name.Name) + build.StringToHumpName(val.Item.Name.Name)
 					if 0 < len(f.Min) || 0 < len(f.Max) {
+						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
 							dst.Import("unicode/utf8", "")
@@ -221,6 +221,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						if first {
 							dst.Code(":")
 						}
+						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 						dst.Import("regexp", "")
 						dst.Code("= regexp.MatchString(\"" + f.Reg + "\", i.Get" + fName + "())\n")
 						dst.Code("\tif err != nil {\n")
-- 
2.43.0


From a5f65f4a0586e226ff52a29bc88c9abdb0ca50a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:26 +0000
Subject: [PATCH 038/109] fix: import the database packages only into files
 with database functions

---
 pkg/golang/database.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index eaa404e..cf2ec9a 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -45,10 +45,13 @@ func getCache(name string, tags []*ast.Tag) *cache {
 	return c
 }
 
-func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error {
+func (b *Builder) printTableName(dst *build.Writer, db *build.DB) {
 	dst.Import("context", "")
 	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
+	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
+}
 
+func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error {
 	dbs, wFields, key, err := b.getDBField(typ)
 	if 0 == len(dbs) || nil != err {
 		return nil
@@ -533,7 +536,7 @@ func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string
 
 	item, scan, _ := b.getItemAndValue(fields, key)
 	dst.Code("func (g " + fName + ") DbList(ctx context.Context) ([]" + dName + ", error) {\n")
-	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
+	b.printTableName(dst, db)
 	dst.Code("\ts := db.NewSql()\n")
 	dst.Code("\ts.T(\"SELECT " + item.String() + " FROM \").T(tableName)")
 	if db.Fake {
@@ -604,7 +607,7 @@ func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType,
 
 	item, scan, _ := b.getItemAndValue(fields, key)
 	dst.Code("func (g " + fName + ") DbMap(ctx context.Context) (map[" + kType.String() + "]" + dName + ", error) {\n")
-	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
+	b.printTableName(dst, db)
 	dst.Code("\ts := db.NewSql()\n")
 	dst.Code("\ts.T(\"SELECT " + item.String() + " FROM \").T(tableName)")
 	if db.Fake {
@@ -663,7 +666,7 @@ func (b *Builder) printCountData(dst *build.Writer, typ *ast.DataType, db *build
 	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbCount(ctx context.Context) (int64, error) {\n")
-	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
+	b.printTableName(dst, db)
 	dst.Code("\ts := db.NewSql()\n")
 	dst.Code("\ts.T(\"SELECT COUNT(1) FROM \").T(tableName)")
 	if db.Fake {
@@ -717,7 +720,7 @@ func (b *Builder) printDeleteData(dst *build.Writer, db *build.DB, wFields []*bu
 	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbDel(ctx context.Context) (int64, int64, error) {\n")
-	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
+	b.printTableName(dst, db)
 	if isCache {
 		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
@@ -750,7 +753,7 @@ func (b *Builder) printRemoveData(dst *build.Writer, db *build.DB, wFields []*bu
 	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbRemove(ctx context.Context) (int64, int64, error) {\n")
-	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
+	b.printTableName(dst, db)
 	if isCache {
 		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
@@ -781,7 +784,7 @@ func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val stri
 	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbInsert(ctx context.Context) (int64, int64, error) {\n")
-	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
+	b.printTableName(dst, db)
 	if nil != c {
 		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
@@ -808,7 +811,7 @@ func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val stri
 func (b *Builder) printInsertListData(dst *build.Writer, typ *ast.DataType, db *build.DB, fields []*build.DBField, key *build.DBField, isCache bool) {
 	name := build.StringToHumpName(typ.Name.Name)
 	dst.Code("func (g " + name + ") DbInsertList(ctx context.Context, val []*" + name + ") (int64, int64, error) {\n")
-	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
+	b.printTableName(dst, db)
 	dst.Code("\tif nil == val || 0 == len(val) {\n")
 	dst.Code("\t\treturn 0, 0, nil\n")
 	dst.Code("\t}\n")
@@ -863,7 +866,7 @@ func (b *Builder) printUpdateData(dst *build.Writer, typ *ast.DataType, key stri
 	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbUpdate(ctx context.Context) (int64, int64, error) {\n")
-	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
+	b.printTableName(dst, db)
 	if nil != c {
 		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
@@ -903,7 +906,7 @@ func (b *Builder) printSetData(dst *build.Writer, typ *ast.DataType, key string,
 	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbSet(ctx context.Context) (int64, int64, error) {\n")
-	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
+	b.printTableName(dst, db)
 	if nil != c {
 		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
@@ -982,7 +985,7 @@ func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string,
 	item, scan, _ := b.getItemAndValue(fields, key)
 
 	dst.Code("func (g " + fName + ") DbGet(ctx context.Context) (*" + dName + ", error) {\n")
-	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
+	b.printTableName(dst, db)
 	dst.Code("\ts := db.NewSql()\n")
 	dst.Code("\ts.T(\"SELECT " + item.String() + " FROM \").T(tableName)")
 	if db.Fake {
-- 
2.43.0


From 8917a7c5134e8d5d8f8bb58b8ac394641ee5d59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:01 +0000
Subject: [PATCH 039/109] fix: import the package of a format only into files
 that refer to it

---
 pkg/golang/verify.go | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index 78fffd1..ce021a9 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -85,17 +85,14 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				continue
 			}
 
-			pack := b.getPackage(dst, val.Enum.Name) + build.StringToHumpName(val.Enum.Name.Name) + build.StringToHumpName(val.Item.Name.Name)
-
 			if build.IsNil(field.Type) && 0 == i {
 				if !f.Null {
-					dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 					dst.Code("\tif nil == i." + fName)
 					if build.GetBaseType(field.Type) == build.String {
 						dst.Code(" || len(i.Get" + fName + "()) == 0")
 					}
 					dst.Code(" {\n")
-					dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
+					b.printVerifyResult(dst, val)
 					dst.Code("\t}\n")
 				} else {
 					dst.Code("\tif nil == i." + fName)
@@ -108,9 +105,8 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				}
 			}
 			if build.IsEnum(field.Type) {
-				dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 				dst.Code("\tif 0 == len(i.Get" + fName + "().ToName()) {\n")
-				dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
+				b.printVerifyResult(dst, val)
 				dst.Code("\t}\n")
 			} else if build.IsMap(field.Type) {
 
@@ -121,7 +117,6 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				switch t {
 				case build.Int8, build.Int16, build.Int32, build.Uint8, build.Uint16, build.Uint32, build.Float, build.Double:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
-						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
 							dst.Code(f.Min + " > i.Get" + fName + "() ")
@@ -133,12 +128,11 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							dst.Code(f.Max + " < i.Get" + fName + "() ")
 						}
 						dst.Code("{\n")
-						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
+						b.printVerifyResult(dst, val)
 						dst.Code("\t}\n")
 					}
 				case build.Uint64, build.Int64:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
-						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
 							dst.Code(f.Min + " > i.Get" + fName + "() ")
@@ -150,12 +144,11 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							dst.Code(f.Max + " < i.Get" + fName + "() ")
 						}
 						dst.Code("{\n")
-						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
+						b.printVerifyResult(dst, val)
 						dst.Code("\t}\n")
 					}
 				case build.Date:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
-						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
 							parse, err := time.Parse("2006-01-02T15:04:05Z", f.Min)
@@ -175,13 +168,12 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " < i.Get" + fName + "().UnixMilli() ")
 						}
 						dst.Code("{ //" + f.Min + "--" + f.Max + "\n")
-						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
+						b.printVerifyResult(dst, val)
 						dst.Code("\t}\n")
 					}
 				case build.Decimal:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
 						dst.Import("github.com/shopspring/decimal", "")
-						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
 							dst.Code("decimal.NewFromFloat(" + f.Min + ").GreaterThan(i.Get" + fName + "()) ")
@@ -193,13 +185,11 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							dst.Code("decimal.NewFromFloat(" + f.Max + ").LessThan(i.Get" + fName + "()) ")
 						}
 						dst.Code("{\n")
-						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
+						b.printVerifyResult(dst, val)
 						dst.Code("\t}\n")
 					}
 				case build.String:
-					pack := b.getPackage(dst, val.Enum.Name) + build.StringToHumpName(val.Enum.Name.Name) + build.StringToHumpName(val.Item.Name.Name)
 					if 0 < len(f.Min) || 0 < len(f.Max) {
-						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
 							dst.Import("unicode/utf8", "")
@@ -213,7 +203,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							dst.Code(f.Max + " < utf8.RuneCountInString(i.Get" + fName + "()) ")
 						}
 						dst.Code("{\n")
-						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
+						b.printVerifyResult(dst, val)
 						dst.Code("\t}\n")
 					}
 					if 0 < len(f.Reg) {
@@ -221,14 +211,13 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						if first {
 							dst.Code(":")
 						}
-						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 						dst.Import("regexp", "")
 						dst.Code("= regexp.MatchString(\"" + f.Reg + "\", i.Get" + fName + "())\n")
 						dst.Code("\tif err != nil {\n")
 						dst.Code("\t\treturn err\n")
 						dst.Code("\t}\n")
 						dst.Code("\tif !match {\n")
-						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
+						b.printVerifyResult(dst, val)
 						dst.Code("\t}\n")
 						first = false
 					}
@@ -246,6 +235,12 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 	return nil
 }
 
+func (b *Builder) printVerifyResult(dst *build.Writer, val *build.VerifyEnum) {
+	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
+	pack := b.getPackage(dst, val.Enum.Name) + build.StringToHumpName(val.Enum.Name.Name) + build.StringToHumpName(val.Item.Name.Name)
+	dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
+}
+
 func (b *Builder) printVerifyDataCode(dst *build.Writer, data *ast.DataType) error {
 	dName := build.StringToHumpName(data.Name.Name)
 	b.getPackage(dst, data.Name)
-- 
2.43.0


From 70abbae9a89b7356f8ef50399554c3b21ae05ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:19 +0000
Subject: [PATCH 040/109] fix: find a bound server in the same file

---
 pkg/golang/verify.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index ce021a9..25ed4e8 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -39,6 +39,8 @@ func (b *Builder) GetDataType(file *ast.File, name string) *ast.Object {
 				return obj
 			case *ast.EnumType:
 				return obj
+			case *ast.ServerType:
+				return obj
 			}
 		}
 	}
-- 
2.43.0


From 3472a77b90ffa273aca19c02ba70d62341ac7578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:40 +0000
Subject: [PATCH 041/109] fix: import the error package only where a default
 server uses it

---
 pkg/golang/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 7ec742f..4eafcdd 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -80,8 +80,6 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 		}
 		isSub := method.Result.Type().(*ast.Ident).Name == "void"
 
-		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/erro", "")
-
 		dst.Code("func (s *Default" + serverName + ") ")
 		dst.Code(build.StringToHumpName(method.Name.Name))
 		dst.Code("(ctx context.Context, ")
@@ -101,6 +99,7 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 			return err
 		}
 		if bind == nil {
+			dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/erro", "")
 			if isSub {
 				dst.Code("\treturn ")
 			} else {
@@ -130,6 +129,7 @@ func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *bu
 		nilValue = ""
 	}
 	if nil != verify {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/erro", "")
 		dst.Code("\tif err := " + param + ".Verify(ctx); err != nil {\n")
 		dst.Code("\t\treturn " + nilValue + "erro.Wrap(err)\n")
 		dst.Code("\t}\n")
-- 
2.43.0


From abfcc7898a2d6f3603c00337bd357530674a5225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 042/109] fix: give lists and maps with scope self of another
 table the type of the caller

---
 pkg/golang/database.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index cf2ec9a..2ba3607 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -524,9 +524,10 @@ func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string
 	fName := build.StringToHumpName(fType.Name.Name)
 	dName := build.StringToHumpName(typ.Name.Name)
 	if typ != fType {
+		if "self" == key {
+			dName = fName
+		}
 		key = "self"
-	} else if "self" == key {
-		dName = fName
 	}
 	w, err := b.getParamWhere(dst, wFields, true, true, true)
 	if err != nil {
@@ -593,9 +594,10 @@ func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType,
 	fName := build.StringToHumpName(fType.Name.Name)
 	dName := build.StringToHumpName(typ.Name.Name)
 	if typ != fType {
+		if "self" == key {
+			dName = fName
+		}
 		key = "self"
-	} else if "self" == key {
-		dName = fName
 	}
 	w, err := b.getParamWhere(dst, wFields, true, true, true)
 	if err != nil {
-- 
2.43.0


From fc976f8179046b0f6bf62b0d54e4303664103237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 043/109] fix: find the key field of a map whatever its
 capitals

---
 pkg/build/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/build/database.go b/pkg/build/database.go
index 925bb8d..cdc3812 100644
--- a/pkg/build/database.go
+++ b/pkg/build/database.go
@@ -96,7 +96,7 @@ func GetDB(n string, tag []*ast.Tag) []*DB {
 					} else if "list" == item.Name.Name {
 						db.List = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
 					} else if "map" == item.Name.Name {
-						db.Map = strings.ToLower(item.Values[0].Value[1 : len(item.Values[0].Value)-1])
+						db.Map = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
 					} else if "table" == item.Name.Name {
 						db.Table = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
 					} else if "set" == item.Name.Name {
-- 
2.43.0


From 92955116dfe87d74797b4383bcdf1cebd0ed5731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 044/109] fix: import math/rand and time for a cache only when
 they are used

---
 pkg/golang/database.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 2ba3607..b89b804 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -569,10 +569,10 @@ func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string
 	dst.Code("\t}\n")
 
 	if nil != c {
-		dst.Import("math/rand", "")
-		dst.Import("time", "")
 		dst.Code("\t_, _ = cache.DbSet(ctx, key, tableName, s, &ret, ")
 		if 0 < c.min {
+			dst.Import("math/rand", "")
+			dst.Import("time", "")
 			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + ")+" + strconv.Itoa(c.min) + ")*time.Second")
 		} else {
 			dst.Code("0")
@@ -641,10 +641,10 @@ func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType,
 	dst.Code("\t}\n")
 
 	if nil != c {
-		dst.Import("math/rand", "")
-		dst.Import("time", "")
 		dst.Code("\t_, _ = cache.DbSet(ctx, key, tableName, s, &ret, ")
 		if 0 < c.min {
+			dst.Import("math/rand", "")
+			dst.Import("time", "")
 			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + ")+" + strconv.Itoa(c.min) + ")*time.Second")
 		} else {
 			dst.Code("0")
@@ -695,10 +695,10 @@ func (b *Builder) printCountData(dst *build.Writer, typ *ast.DataType, db *build
 	dst.Code("\t}\n")
 
 	if nil != c {
-		dst.Import("math/rand", "")
-		dst.Import("time", "")
 		dst.Code("\t_, _ = cache.DbSet(ctx, key, tableName, s, &count, ")
 		if 0 < c.min {
+			dst.Import("math/rand", "")
+			dst.Import("time", "")
 			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + ")+" + strconv.Itoa(c.min) + ")*time.Second")
 		} else {
 			dst.Code("0")
@@ -1015,10 +1015,10 @@ func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string,
 	dst.Code("\t\treturn nil, err\n")
 	dst.Code("\t}\n")
 	if nil != c {
-		dst.Import("math/rand", "")
-		dst.Import("time", "")
 		dst.Code("\t_, _ = cache.DbSet(ctx, key, tableName, s, &val, ")
 		if 0 < c.min {
+			dst.Import("math/rand", "")
+			dst.Import("time", "")
 			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + ")+" + strconv.Itoa(c.min) + ")*time.Second")
 		} else {
 			dst.Code("0")
-- 
2.43.0


From 25033fdddaaff4109a06e21f650b490e451870e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 045/109] fix: do not let a cache of fixed time to live panic

---
 pkg/golang/database.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index b89b804..b2877d1 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -42,6 +42,9 @@ func getCache(name string, tags []*ast.Tag) *cache {
 			}
 		}
 	}
+	if c.max <= c.min {
+		c.max = c.min + 1
+	}
 	return c
 }
 
-- 
2.43.0


From e6371d3acf99c5ce29561fa61e6995968ecc280e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 046/109] fix: do not import what only the conditions of an
 insert would use

---
 pkg/golang/database.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index b2877d1..9726ef7 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -782,11 +782,6 @@ func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val stri
 	if typ != fType {
 		val = "parent"
 	}
-	w, err := b.getParamWhere(dst, wFields, false, false, false)
-	if err != nil {
-		return err
-	}
-	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbInsert(ctx context.Context) (int64, int64, error) {\n")
 	b.printTableName(dst, db)
-- 
2.43.0


From ae6457895116353f12ae8ab9f431a0634d3000d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 047/109] fix: check for null by the first format that there is

---
 pkg/dart/verify.go       | 3 ++-
 pkg/golang/verify.go     | 6 ++++--
 pkg/typescript/verify.go | 3 ++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index 4b1bccf..7e005a8 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -47,7 +47,8 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				continue
 			}
 			b.getPackage(dst, val.Enum.Name, "enum")
-			if isNull && 0 == i {
+			if isNull {
+				isNull = false
 				if !f.Null {
 					dst.Code("\tif (text?.isEmpty ?? true) {\n")
 					dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index 25ed4e8..ebc1c9e 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -81,13 +81,15 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 		dst.Code("func (i *" + dName + ") Verify" + fName + "(ctx context.Context) error {\n")
 
 		first := true
-		for i, val := range verify.GetFormat() {
+		isNull := build.IsNil(field.Type)
+		for _, val := range verify.GetFormat() {
 			f := build.GetFormat(val.Item.Tags)
 			if nil == f {
 				continue
 			}
 
-			if build.IsNil(field.Type) && 0 == i {
+			if isNull {
+				isNull = false
 				if !f.Null {
 					dst.Code("\tif nil == i." + fName)
 					if build.GetBaseType(field.Type) == build.String {
diff --git a/pkg/typescript/verify.go b/pkg/typescript/verify.go
index 32a0df2..bcb4bd3 100644
--- a/pkg/typescript/verify.go
+++ b/pkg/typescript/verify.go
@@ -46,7 +46,8 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				continue
 			}
 			pName := b.getPackage(dst, val.Enum.Name, "enum")
-			if isNull && 0 == i {
+			if isNull {
+				isNull = false
 				dst.Tab(1).Code("if (value == '' || value == 'null' || value == 'undefined') {\n")
 				if !f.Null {
 					b.printVerifyError(dst, pName, val)
-- 
2.43.0


From 37d63a46723110c5f93a22d93be24b54d74a9ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 048/109] fix: compare decimals with the exact bounds of a
 format

---
 pkg/golang/verify.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index ebc1c9e..7f54cc6 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -180,13 +180,13 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						dst.Import("github.com/shopspring/decimal", "")
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
-							dst.Code("decimal.NewFromFloat(" + f.Min + ").GreaterThan(i.Get" + fName + "()) ")
+							dst.Code("decimal.RequireFromString(\"" + f.Min + "\").GreaterThan(i.Get" + fName + "()) ")
 						}
 						if 0 < len(f.Max) {
 							if 0 < len(f.Min) {
 								dst.Code("|| ")
 							}
-							dst.Code("decimal.NewFromFloat(" + f.Max + ").LessThan(i.Get" + fName + "()) ")
+							dst.Code("decimal.RequireFromString(\"" + f.Max + "\").LessThan(i.Get" + fName + "()) ")
 						}
 						dst.Code("{\n")
 						b.printVerifyResult(dst, val)
-- 
2.43.0


From 3a499e56e198fd85081ec78e428b4c04565f26c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 049/109] fix: read uint64 in TypeScript as unsigned

---
 pkg/typescript/data.go       | 8 ++++++--
 pkg/typescript/typescript.go | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/typescript/data.go b/pkg/typescript/data.go
index 42c2135..c08ab38 100644
--- a/pkg/typescript/data.go
+++ b/pkg/typescript/data.go
@@ -229,10 +229,14 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 					}
 				} else {
 					dst.Import("long", "Long")
+					zero, unsigned := "Long.ZERO", ""
+					if build.Uint64 == build.BaseType(expr.(*ast.Ident).Name) {
+						zero, unsigned = "Long.UZERO", ", true"
+					}
 					if empty {
-						dst.Code("null == " + name + " ? null : Long.fromString(" + v + ".toString())")
+						dst.Code("null == " + name + " ? null : Long.fromString(" + v + ".toString()" + unsigned + ")")
 					} else {
-						dst.Code("null == " + name + " ? Long.ZERO : Long.fromString(" + v + ".toString())")
+						dst.Code("null == " + name + " ? " + zero + " : Long.fromString(" + v + ".toString()" + unsigned + ")")
 					}
 				}
 			case build.Float, build.Double:
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index 4e3a205..294839e 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -19,7 +19,7 @@ var _types = map[build.BaseType]string{
 
 var _typesValue = map[build.BaseType]string{
 	build.Int8: "0", build.Int16: "0", build.Int32: "0", build.Int64: "Long.ZERO", build.Uint8: "0",
-	build.Uint16: "0", build.Uint32: "0", build.Uint64: "Long.ZERO", build.Bool: "false", build.Float: "0.0",
+	build.Uint16: "0", build.Uint32: "0", build.Uint64: "Long.UZERO", build.Bool: "false", build.Float: "0.0",
 	build.Double: "0.0", build.String: "\"\"", build.Date: "new Date()", build.Decimal: "new d.Decimal(0)",
 }
 
-- 
2.43.0


From a18893fff168a8f0502890e3b7d98d49b2010140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 050/109] fix: give a TypeScript map with bool keys the key
 type that is read

---
 pkg/typescript/typescript.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index 294839e..ebc2f70 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -255,6 +255,8 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool, isR
 					dst.Code("string")
 				} else if build.Date == build.BaseType((expr.(*ast.Ident).Name)) {
 					dst.Code("number")
+				} else if build.Bool == build.BaseType((expr.(*ast.Ident).Name)) {
+					dst.Code("string")
 				} else {
 					dst.Code(_types[build.BaseType((expr.(*ast.Ident).Name))])
 				}
-- 
2.43.0


From 6ab31f837467f2b2764fee098fbe9789ab47d299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 051/109] fix: write the null values of a map in TypeScript

---
 pkg/typescript/data.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/typescript/data.go b/pkg/typescript/data.go
index c08ab38..4c9a15f 100644
--- a/pkg/typescript/data.go
+++ b/pkg/typescript/data.go
@@ -421,12 +421,18 @@ func (b *Builder) printToJson(dst *build.Writer, key string, name string, expr a
 			b.printToJson(dst, "", "key", t.Key, data, empty, true)
 			dst.Code(",")
 			b.printToJson(dst, "", "value", t.VType, data, empty, false)
+			if build.IsNil(t.VType) {
+				dst.Code(" ?? null")
+			}
 			dst.Code("))")
 		} else {
 			dst.Code("h.convertRecord(" + key + name + ", (key, value) => new h.RecordEntry(")
 			b.printToJson(dst, "", "key", t.Key, data, empty, true)
 			dst.Code(",")
 			b.printToJson(dst, "", "value", t.VType, data, empty, false)
+			if build.IsNil(t.VType) {
+				dst.Code(" ?? null")
+			}
 			dst.Code("))")
 		}
 	case *ast.VarType:
-- 
2.43.0


From e65cc47ce52c3bf408a6bccdfc4cb48033adaada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 052/109] fix: give a TypeScript enum field a default also
 where no item is 0

---
 pkg/typescript/data.go       |  2 +-
 pkg/typescript/typescript.go | 21 ++++++++++++++++-----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/pkg/typescript/data.go b/pkg/typescript/data.go
index 4c9a15f..3671248 100644
--- a/pkg/typescript/data.go
+++ b/pkg/typescript/data.go
@@ -200,7 +200,7 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 					if empty {
 						dst.Code("null == " + name + " ? null : " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(Number(" + v + ").valueOf())")
 					} else {
-						dst.Code("null == " + name + " ? " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(0) : " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(Number(" + v + ").valueOf())")
+						dst.Code("null == " + name + " ? " + b.getEnumDefault(dst, t) + " : " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(Number(" + v + ").valueOf())")
 					}
 				}
 			} else if ast.Data == t.Obj.Kind {
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index ebc2f70..b52c22b 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -325,17 +325,28 @@ func (b *Builder) getPackage(dst *build.Writer, expr ast.Expr, s string) string
 	return p[5:]
 }
 
+// getEnumDefault The item with value 0, or the first one if there is none
+func (b *Builder) getEnumDefault(dst *build.Writer, t *ast.Ident) string {
+	name := b.getPackage(dst, t, "") + "." + build.StringToHumpName(t.Name)
+	items := t.Obj.Decl.(*ast.TypeSpec).Type.(*ast.EnumType).Items
+	for _, item := range items {
+		if id, err := strconv.ParseInt(item.Id.Value, 0, 64); nil == err && 0 == id {
+			return name + ".valueOf(0)"
+		}
+	}
+	if 0 == len(items) {
+		return name + ".valueOf(0)"
+	}
+	return name + "." + build.StringToAllUpper(items[0].Name.Name)
+}
+
 func (b *Builder) printDefault(dst *build.Writer, expr ast.Expr, notEmpty bool) string {
 	switch expr.(type) {
 	case *ast.Ident:
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
 			if ast.Enum == t.Obj.Kind {
-				pkg := b.getPackage(dst, expr, "")
-				dst.Code(pkg)
-				dst.Code(".")
-				dst.Code(build.StringToHumpName(expr.(*ast.Ident).Name))
-				dst.Code(".valueOf(0)")
+				dst.Code(b.getEnumDefault(dst, t))
 			} else {
 				dst.Code("new ")
 				pkg := b.getPackage(dst, expr, "")
-- 
2.43.0


From 28d4900a99bec170de5f95613aa81d880ef14a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 053/109] fix: check numbers of a TypeScript form for their
 whole text and exact range

---
 pkg/typescript/verify.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pkg/typescript/verify.go b/pkg/typescript/verify.go
index bcb4bd3..a347890 100644
--- a/pkg/typescript/verify.go
+++ b/pkg/typescript/verify.go
@@ -68,23 +68,23 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				t := build.GetBaseType(field.Type)
 				switch t {
 				case build.Int8:
-					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*", field.Type, "–128", "127")
+					b.verifyNum(dst, pName, val, f, "^-?[0-9]+$", field.Type, "-128", "127")
 				case build.Int16:
-					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*", field.Type, "-32768", "32767")
+					b.verifyNum(dst, pName, val, f, "^-?[0-9]+$", field.Type, "-32768", "32767")
 				case build.Int32:
-					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*", field.Type, "-2147483648", "2147483647")
+					b.verifyNum(dst, pName, val, f, "^-?[0-9]+$", field.Type, "-2147483648", "2147483647")
 				case build.Uint8:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "0", "255")
+					b.verifyNum(dst, pName, val, f, "^[0-9]+$", field.Type, "0", "255")
 				case build.Uint16:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "0", "65535")
+					b.verifyNum(dst, pName, val, f, "^[0-9]+$", field.Type, "0", "65535")
 				case build.Uint32:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "0", "4294967295")
+					b.verifyNum(dst, pName, val, f, "^[0-9]+$", field.Type, "0", "4294967295")
 				case build.Float, build.Double:
-					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*.\\\\d*|0.\\\\d*[0-9]\\\\d*", field.Type, "", "")
+					b.verifyNum(dst, pName, val, f, "^-?[0-9]+(\\\\.[0-9]+)?([eE][-+]?[0-9]+)?$", field.Type, "", "")
 				case build.Int64:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "-9223372036854775808", "9223372036854775808")
+					b.verifyNum(dst, pName, val, f, "^-?[0-9]+$", field.Type, "-9223372036854775808", "9223372036854775807")
 				case build.Uint64:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "0", "18446744073709551615615")
+					b.verifyNum(dst, pName, val, f, "^[0-9]+$", field.Type, "0", "18446744073709551615")
 				case build.Date:
 					dst.Code("\tDateTime? val = DateTime.tryParse(value!);\n")
 					dst.Code("\tif (null == val) {\n")
@@ -207,13 +207,13 @@ func (b *Builder) verifyNum(dst *build.Writer, pName string, val *build.VerifyEn
 	if 0 < len(f.Min) || 0 < len(f.Max) {
 		dst.Tab(2).Code("if (")
 		if 0 < len(f.Min) {
-			dst.Code("new d.Decimal(").Code(f.Min).Code(").greaterThan(val)")
+			dst.Code("new d.Decimal(\"").Code(f.Min).Code("\").greaterThan(val)")
 		}
 		if 0 < len(f.Max) {
 			if 0 < len(f.Min) {
 				dst.Code(" || ")
 			}
-			dst.Code("new d.Decimal(").Code(f.Max).Code(").lessThan(val)")
+			dst.Code("new d.Decimal(\"").Code(f.Max).Code("\").lessThan(val)")
 		}
 		dst.Code(") {\n")
 		b.printVerifyError(dst, pName, val)
-- 
2.43.0


From c3bad1b2d06718db50be37c86eefb513769fafc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 054/109] fix: check dates and decimals of a TypeScript form in
 TypeScript

---
 pkg/typescript/verify.go | 79 +++++++++++-----------------------------
 1 file changed, 21 insertions(+), 58 deletions(-)

diff --git a/pkg/typescript/verify.go b/pkg/typescript/verify.go
index a347890..a859db3 100644
--- a/pkg/typescript/verify.go
+++ b/pkg/typescript/verify.go
@@ -4,7 +4,6 @@ import (
 	"hbuf/pkg/ast"
 	"hbuf/pkg/build"
 	"strconv"
-	"strings"
 	"time"
 )
 
@@ -38,9 +37,12 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 		}
 		dst.Import("element-plus", "type {LocaleContext}")
 		dst.Code("export const verify").Code(dName).Code("_").Code(fName).Code(" = (locale: LocaleContext) => (rule: any, value: any, callback: any): any => {\n")
+		if build.Date == build.GetBaseType(field.Type) {
+			dst.Tab(1).Code("const time = new Date(value).getTime()\n")
+		}
 		dst.Tab(1).Code("value = '' + value\n")
 		isNull := build.IsNil(field.Type)
-		for i, val := range verify.GetFormat() {
+		for _, val := range verify.GetFormat() {
 			f := build.GetFormat(val.Item.Tags)
 			if nil == f {
 				continue
@@ -86,70 +88,31 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				case build.Uint64:
 					b.verifyNum(dst, pName, val, f, "^[0-9]+$", field.Type, "0", "18446744073709551615")
 				case build.Date:
-					dst.Code("\tDateTime? val = DateTime.tryParse(value!);\n")
-					dst.Code("\tif (null == val) {\n")
-					b.printVerifyError(dst, pName, val)
-					dst.Code("\t}\n")
-					if 0 < len(f.Min) || 0 < len(f.Max) {
-						dst.Code("\tif (")
-						if 0 < len(f.Min) {
-							parse, err := time.Parse("2006-01-02T15:04:05Z", f.Min)
-							if err != nil {
-								return err
-							}
-							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " > val.millisecondsSinceEpoch")
+					dst.Tab(1).Code("if (isNaN(time)")
+					if 0 < len(f.Min) {
+						parse, err := time.Parse("2006-01-02T15:04:05Z", f.Min)
+						if err != nil {
+							return err
 						}
-						if 0 < len(f.Max) {
-							if 0 < len(f.Min) {
-								dst.Code(" || ")
-							}
-							parse, err := time.Parse("2006-01-02T15:04:05Z", f.Max)
-							if err != nil {
-								return err
-							}
-							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " < val.millisecondsSinceEpoch")
+						dst.Code(" || " + strconv.FormatInt(parse.UnixMilli(), 10) + " > time")
+					}
+					if 0 < len(f.Max) {
+						parse, err := time.Parse("2006-01-02T15:04:05Z", f.Max)
+						if err != nil {
+							return err
 						}
-						dst.Code(") {\n")
-						b.printVerifyError(dst, pName, val)
-						b.printVerifyError(dst, pName, val)
-						dst.Code("\t}\n")
+						dst.Code(" || " + strconv.FormatInt(parse.UnixMilli(), 10) + " < time")
 					}
+					dst.Code(") {\n")
+					b.printVerifyError(dst, pName, val)
+					dst.Tab(1).Code("}\n")
 				case build.Decimal:
 					if 0 < len(f.Reg) {
-						dst.Code("\tif (!new RegExp(\"" + strings.ReplaceAll(f.Reg, "$", "\\$") + "\").test(value!)) {\n")
-						b.printVerifyError(dst, pName, val)
-						dst.Code("\t}\n")
-					}
-					if i == len(verify.GetFormat())-1 {
-						dst.Code("\tif (!new RegExp(\"-?[0-9]\\\\d*.\\\\d*|0.\\\\d*[0-9]\\\\d*\").test(value")
-						if build.IsNil(field.Type) {
-							dst.Code("!")
-						}
-						dst.Code(")) {\n")
-						b.printVerifyError(dst, pName, val)
-						dst.Code("\t}\n")
-
-						dst.Import("decimal.js", "* as d")
-						dst.Code("\tDecimal? val = Decimal.tryParse(value!);\n")
-						dst.Code("\tif (null == val) {\n")
+						dst.Code("\tif (!new RegExp(\"" + f.Reg + "\").test(value!)) {\n")
 						b.printVerifyError(dst, pName, val)
 						dst.Code("\t}\n")
-						if 0 < len(f.Min) || 0 < len(f.Max) {
-							dst.Code("\tif (")
-							if 0 < len(f.Min) {
-								dst.Code("1 == val.compareTo(Decimal.fromInt(" + f.Min + "))")
-							}
-							if 0 < len(f.Max) {
-								if 0 < len(f.Min) {
-									dst.Code(" || ")
-								}
-								dst.Code("-1 == val.compareTo(Decimal.fromInt(" + f.Max + "))")
-							}
-							dst.Code(") {\n")
-							b.printVerifyError(dst, pName, val)
-							dst.Code("\t}\n")
-						}
 					}
+					b.verifyNum(dst, pName, val, f, "^-?[0-9]+(\\\\.[0-9]+)?([eE][-+]?[0-9]+)?$", field.Type, "", "")
 				case build.String:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
 						dst.Code("\tif (")
-- 
2.43.0


From d4903257174b40b56712512246c0755c86e252ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:29 +0000
Subject: [PATCH 055/109] fix: count characters, not UTF-16 units, in a
 TypeScript form

---
 pkg/typescript/verify.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/typescript/verify.go b/pkg/typescript/verify.go
index a859db3..13f400d 100644
--- a/pkg/typescript/verify.go
+++ b/pkg/typescript/verify.go
@@ -117,13 +117,13 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 					if 0 < len(f.Min) || 0 < len(f.Max) {
 						dst.Code("\tif (")
 						if 0 < len(f.Min) {
-							dst.Code(f.Min + " > (value?.length ?? 0)")
+							dst.Code(f.Min + " > Array.from(value).length")
 						}
 						if 0 < len(f.Max) {
 							if 0 < len(f.Min) {
 								dst.Code(" || ")
 							}
-							dst.Code(f.Max + " < (value?.length ?? 0)")
+							dst.Code(f.Max + " < Array.from(value).length")
 						}
 						dst.Code(") {\n")
 						b.printVerifyError(dst, pName, val)
-- 
2.43.0


From b5888e15f58089c6329257bf8f00d0bc9cf3b9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 056/109] fix: assign the value of a TypeScript form item also
 to a field of data type

---
 pkg/typescript/ui.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index 024327a..2d30130 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -396,6 +396,8 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 	case *ast.VarType:
 		t := expr.(*ast.VarType)
 		b.printFormString(dst, name, t.Type(), t.Empty, digit, format)
+	default:
+		dst.Code(name)
 	}
 }
 
-- 
2.43.0


From 5b1fe4eb51688397afdf5043695d897b28ea0cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 057/109] fix: take the first of the dates that are picked in a
 TypeScript form

---
 pkg/typescript/ui.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index 2d30130..c5b6e17 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -479,7 +479,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 				} else if "month" == form.form {
 					dst.Code("_ctx.$timeToUtc($event)")
 				} else if "dates" == form.form {
-					dst.Code("($event?.length ?? 0 == 0) ? null :_ctx.$timeToUtc($event[0])")
+					dst.Code("(!Array.isArray($event) || 0 == $event.length) ? null : _ctx.$timeToUtc($event[0])")
 				} else if "year" == form.form {
 					dst.Code("_ctx.$timeToUtc($event)")
 				} else {
-- 
2.43.0


From 9b1388734345b8e5806010bbe78fe52b9ce1cf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 058/109] fix: write clearable once in a TypeScript form

---
 pkg/typescript/ui.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index c5b6e17..c339bb8 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -587,9 +587,6 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			if isNull {
 				dst.Tab(7).Code("clearable\n")
 			}
-			if isNull {
-				dst.Tab(7).Code("clearable\n")
-			}
 			if form.onlyRead {
 				dst.Tab(7).Code("disabled\n")
 			}
-- 
2.43.0


From 8c62044cbf7dd55961ca3378437e4dfa383d3d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 059/109] fix: set a date, not a number, from the text of a
 TypeScript form

---
 pkg/typescript/ui.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index c339bb8..a280c64 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -359,7 +359,7 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 				if empty {
 					dst.Code("(").Code(name).Code(" == null || ").Code(name).Code(".length == 0)").Code(" ? null : ")
 				}
-				dst.Code("Date.parse(" + name + ") ?? ").Code(name)
+				dst.Code("(isNaN(Date.parse(").Code(name).Code(")) ? ").Code(name).Code(" : new Date(").Code(name).Code("))")
 			case build.Decimal:
 				dst.Import("decimal.js", "* as d")
 				if empty {
-- 
2.43.0


From 7384f9d25110ab6faaa94b151d704257d2f42c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:38 +0000
Subject: [PATCH 060/109] fix: give a TypeScript password item an operand that
 can be empty

---
 pkg/typescript/ui.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index a280c64..5ade857 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -575,7 +575,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 		} else if "pass" == form.form {
 			dst.Tab(6).Code("<el-input\n")
 			dst.Tab(7).Code("modelValue={")
-			b.printToString(dst, "_ctx.model!."+fieldName, field.Type, false, form.digit, form.format, " ?? \"\"")
+			b.printToString(dst, "_ctx.model!."+fieldName, field.Type, false, form.digit, form.format, " || \"\"")
 			dst.Code("}\n")
 
 			dst.Tab(7).Code("onUpdate:modelValue={($event: string) => _ctx.model!.").Code(fieldName).Code(" = ")
-- 
2.43.0


From f0d442536b4a012b248a7273ef25b39b6cbf2033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 061/109] fix: refer to an enum in a TypeScript form by the
 name it is declared with

---
 pkg/typescript/ui.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index 5ade857..d676099 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -315,7 +315,7 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 			dst.Code("(").Code(name).Code(" == null || ").Code(name).Code(".length == 0)").Code(" ? null : ")
 		}
 		p := b.getPackage(dst, t.Name, "")
-		dst.Code("(").Code(p).Code(".").Code(t.Name.Name).Code(".nameOf(").Code(name).Code("))")
+		dst.Code("(").Code(p).Code(".").Code(build.StringToHumpName(t.Name.Name)).Code(".nameOf(").Code(name).Code("))")
 	case *ast.Ident:
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
-- 
2.43.0


From 828bcd366b932707ee28791e188551ab3b90803d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 062/109] fix: do not let the name of a method parameter clash
 with what generated code uses

---
 pkg/golang/server.go     | 52 +++++++++++++++++++++++++++++++---------
 pkg/typescript/server.go | 24 ++++++++++++++++---
 2 files changed, 62 insertions(+), 14 deletions(-)

diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 4eafcdd..5710ed7 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -1,11 +1,36 @@
 package golang
 
 import (
+	gotoken "go/token"
 	"hbuf/pkg/ast"
 	"hbuf/pkg/build"
 	"sort"
 )
 
+// Names that the generated functions use themselves
+var _usedNames = map[string]struct{}{
+	"ctx": {}, "r": {}, "s": {}, "ret": {}, "reps": {}, "err": {}, "nil": {}, "error": {}, "byte": {},
+	"context": {}, "json": {}, "hbuf": {}, "rpc": {}, "erro": {}, "manage": {},
+}
+
+// paramName The name of the parameter of a method, which must not hide another name the function needs
+func (b *Builder) paramName(dst *build.Writer, method *ast.FuncType, packs ...string) string {
+	name := build.StringToFirstLower(method.ParamName.Name)
+	_, used := _usedNames[name]
+	used = used || gotoken.IsKeyword(name)
+	packs = append(packs, b.getPackage(dst, method.Param.Type()))
+	if "void" != method.Result.Type().(*ast.Ident).Name {
+		packs = append(packs, b.getPackage(dst, method.Result.Type()))
+	}
+	for _, pack := range packs {
+		used = used || pack == name+"."
+	}
+	if used {
+		name += "Param"
+	}
+	return name
+}
+
 func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) error {
 	dst.Import("context", "")
 
@@ -45,7 +70,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 
 		dst.Code("\t" + build.StringToHumpName(method.Name.Name))
 		dst.Code("(ctx context.Context, ")
-		dst.Code(build.StringToFirstLower(method.ParamName.Name))
+		dst.Code(b.paramName(dst, method))
 		dst.Code(" *")
 		b.printType(dst, method.Param, true)
 		dst.Code(") ")
@@ -80,10 +105,20 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 		}
 		isSub := method.Result.Type().(*ast.Ident).Name == "void"
 
+		bind, err := build.GetBinding(method.Tags, dst.File, b.GetDataType)
+		if nil != err {
+			return err
+		}
+		var packs []string
+		if nil != bind {
+			packs = append(packs, b.getPackage(dst, bind.Server.Name))
+		}
+		param := b.paramName(dst, method, packs...)
+
 		dst.Code("func (s *Default" + serverName + ") ")
 		dst.Code(build.StringToHumpName(method.Name.Name))
 		dst.Code("(ctx context.Context, ")
-		dst.Code(build.StringToFirstLower(method.ParamName.Name))
+		dst.Code(param)
 		dst.Code(" *")
 		b.printType(dst, method.Param, true)
 		if isSub {
@@ -94,10 +129,6 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 			dst.Code(", error) {\n")
 		}
 
-		bind, err := build.GetBinding(method.Tags, dst.File, b.GetDataType)
-		if nil != err {
-			return err
-		}
 		if bind == nil {
 			dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/erro", "")
 			if isSub {
@@ -108,7 +139,7 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 
 			dst.Code(" erro.NewError(\"not find server " + build.StringToUnderlineName(typ.Name.Name) + "\")\n")
 		} else {
-			err = b.printBinding(dst, method, bind, isSub)
+			err = b.printBinding(dst, method, param, bind, isSub)
 			if err != nil {
 				return err
 			}
@@ -118,12 +149,11 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 	return nil
 }
 
-func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *build.Binding, isSub bool) error {
+func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, param string, bind *build.Binding, isSub bool) error {
 	verify, err := build.GetVerify(method.Param.Type().(*ast.Ident).Obj.Decl.(*ast.TypeSpec).Type.(*ast.DataType).Tags, dst.File, b.GetDataType)
 	if err != nil {
 		return err
 	}
-	param := build.StringToFirstLower(method.ParamName.Name)
 	nilValue := "nil, "
 	if isSub {
 		nilValue = ""
@@ -196,7 +226,7 @@ func (b *Builder) printClient(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("func (r *" + serverName + "Client) ")
 		dst.Code(build.StringToHumpName(method.Name.Name))
 		dst.Code("(ctx context.Context, ")
-		dst.Code(build.StringToFirstLower(method.ParamName.Name))
+		dst.Code(b.paramName(dst, method))
 		dst.Code(" *")
 		b.printType(dst, method.Param, true)
 		dst.Code(") ")
@@ -213,7 +243,7 @@ func (b *Builder) printClient(dst *build.Writer, typ *ast.ServerType) {
 		} else {
 			dst.Code("\tret")
 		}
-		dst.Code(", err := r.client.Invoke(ctx, " + build.StringToFirstLower(method.ParamName.Name) + ", \"" + name + "/" + build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\", &rpc.ClientInvoke{\n")
+		dst.Code(", err := r.client.Invoke(ctx, " + b.paramName(dst, method) + ", \"" + name + "/" + build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\", &rpc.ClientInvoke{\n")
 		if !isMethod {
 			dst.Code("\t\tToData: func(buf []byte) (hbuf.Data, error) {\n")
 			dst.Code("\t\t\tvar req ")
diff --git a/pkg/typescript/server.go b/pkg/typescript/server.go
index 9784f38..45355f4 100644
--- a/pkg/typescript/server.go
+++ b/pkg/typescript/server.go
@@ -5,6 +5,24 @@ import (
 	"hbuf/pkg/build"
 )
 
+// Names that a parameter cannot have
+var _reservedNames = map[string]struct{}{
+	"ctx": {}, "arguments": {}, "await": {}, "break": {}, "case": {}, "catch": {}, "class": {}, "const": {}, "continue": {}, "debugger": {},
+	"default": {}, "delete": {}, "do": {}, "else": {}, "enum": {}, "eval": {}, "export": {}, "extends": {}, "false": {}, "finally": {},
+	"for": {}, "function": {}, "if": {}, "implements": {}, "import": {}, "in": {}, "instanceof": {}, "interface": {}, "let": {}, "new": {},
+	"null": {}, "package": {}, "private": {}, "protected": {}, "public": {}, "return": {}, "static": {}, "super": {}, "switch": {}, "this": {},
+	"throw": {}, "true": {}, "try": {}, "typeof": {}, "var": {}, "void": {}, "while": {}, "with": {}, "yield": {},
+}
+
+// paramName The name of the parameter of a method
+func paramName(method *ast.FuncType) string {
+	name := build.StringToFirstLower(method.ParamName.Name)
+	if _, ok := _reservedNames[name]; ok {
+		name += "Param"
+	}
+	return name
+}
+
 func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) {
 	dst.Import("hbuf_ts", "* as h")
 
@@ -32,7 +50,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 
 		dst.Code("\t" + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
-		dst.Code(build.StringToFirstLower(method.ParamName.Name) + ": ")
+		dst.Code(paramName(method) + ": ")
 		b.printType(dst, method.Param, false, false)
 
 		dst.Code(", ctx?: h.Context): ")
@@ -75,7 +93,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 
 		dst.Code("\t" + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
-		dst.Code(build.StringToFirstLower(method.ParamName.Name) + ": ")
+		dst.Code(paramName(method) + ": ")
 		b.printType(dst, method.Param, false, false)
 
 		dst.Code(", ctx?: h.Context): ")
@@ -99,7 +117,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("\", ")
 		dst.Code("0 << 32 | " + method.Id.Value)
 		dst.Code(", ")
-		dst.Code(build.StringToFirstLower(method.ParamName.Name))
+		dst.Code(paramName(method))
 		dst.Code(", ")
 		if isMethod {
 			dst.Code("null, null);\n")
-- 
2.43.0


From 439c5b55315cf809b691a2e28f7cf37602742732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:53 +0000
Subject: [PATCH 063/109] fix: take ids by their value, not by the way they are
 written

---
 pkg/parser/parser.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 59257f5..22c4bd7 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"errors"
 	"fmt"
 	"hbuf/pkg/ast"
 	"hbuf/pkg/scanner"
@@ -518,6 +519,15 @@ func (p *parser) parseId() *ast.BasicLit {
 		p.errorExpected(p.pos, "not find int")
 	}
 	id = &ast.BasicLit{ValuePos: p.pos, Kind: p.tok, Value: p.lit}
+	if p.tok == token.INT {
+		// The target languages do not agree on how a number may be written
+		val, err := strconv.ParseInt(p.lit, 0, 64)
+		if nil == err {
+			id.Value = strconv.FormatInt(val, 10)
+		} else if errors.Is(err, strconv.ErrRange) {
+			p.error(p.pos, "id out of range: "+p.lit)
+		}
+	}
 	p.next()
 	return id
 }
-- 
2.43.0


From 7678455572b4de5c9434e239bf4d20549abdfb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:40 +0000
Subject: [PATCH 064/109] fix: name the interface in a Java file after the file

---
 pkg/java/java.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/java/java.go b/pkg/java/java.go
index 1ffdefa..37f34ec 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
+	"strings"
 )
 
 var _types = map[build.BaseType]string{
@@ -185,9 +186,11 @@ func (b *Builder) Node(dst *JavaWriter, fset *token.FileSet, node interface{}) e
 	dst.SetPath(file)
 	dst.SetPackages(val.Value.Value[1 : len(val.Value.Value)-1])
 
-	dst.data.Code("public interface UserData {\n")
-	dst.server.Code("public interface UserServer {\n")
-	dst.enum.Code("public interface UserEnum {\n")
+	name := strings.TrimSuffix(filepath.Base(file.Path), ".hbuf")
+	name = build.StringToHumpName(name)
+	dst.data.Code("public interface " + name + "Data {\n")
+	dst.server.Code("public interface " + name + "Server {\n")
+	dst.enum.Code("public interface " + name + "Enum {\n")
 	for _, s := range file.Specs {
 		switch s.(type) {
 		case *ast.ImportSpec:
-- 
2.43.0


From 687e4e4e24b8b2556ff10981e00edb51d4ff10bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:40 +0000
Subject: [PATCH 065/109] fix: let generated Java enums compile

---
 pkg/java/enum.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/pkg/java/enum.go b/pkg/java/enum.go
index 09a1027..b9baf5e 100644
--- a/pkg/java/enum.go
+++ b/pkg/java/enum.go
@@ -11,10 +11,6 @@ func (b *Builder) printEnumCode(dst *build.Writer, typ *ast.EnumType) {
 
 func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	enumName := build.StringToHumpName(typ.Name.Name)
-	_, isUi := build.GetTag(typ.Tags, "ui")
-	if isUi {
-		b.getPackage(dst, typ.Name, "ui")
-	}
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
 		dst.Code("///" + typ.Doc.Text())
 	}
@@ -32,7 +28,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	dst.Code("\t\tpublic boolean equals(Object o) {\n")
 	dst.Code("\t\t\tif (this == o) return true;\n")
 	dst.Code("\t\t\tif (o == null || getClass() != o.getClass()) return false;\n")
-	dst.Code("\t\t\tTest test = (Test) o;\n")
+	dst.Code("\t\t\t" + enumName + " test = (" + enumName + ") o;\n")
 	dst.Code("\t\t\treturn value == test.value;\n")
 	dst.Code("\t\t}\n\n")
 
@@ -47,7 +43,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	dst.Code("\t\t\t\t\treturn item;\n")
 	dst.Code("\t\t\t\t}\n")
 	dst.Code("\t\t\t}\n")
-	dst.Code("\t\t\tthrow new RuntimeException(\"Get Test by value error, value=\" + value);\n")
+	dst.Code("\t\t\tthrow new RuntimeException(\"Get " + enumName + " by value error, value=\" + value);\n")
 	dst.Code("\t\t}\n\n")
 
 	dst.Code("\t\tpublic static " + enumName + " nameOf(String name) {\n")
@@ -56,7 +52,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	dst.Code("\t\t\t\t\treturn item;\n")
 	dst.Code("\t\t\t\t}\n")
 	dst.Code("\t\t\t}\n")
-	dst.Code("\t\t\tthrow new RuntimeException(\"Get Test by name error, name=\" + name);\n")
+	dst.Code("\t\t\tthrow new RuntimeException(\"Get " + enumName + " by name error, name=\" + name);\n")
 	dst.Code("\t\t}\n\n")
 
 	for _, item := range typ.Items {
@@ -64,11 +60,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 			dst.Code("///" + item.Doc.Text())
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
-		dst.Code("\t\tstatic final " + enumName + " " + itemName + " = new " + enumName + "(" + item.Id.Value + ", \"" + itemName + "\"")
-		if isUi {
-			dst.Code(", (context) => " + enumName + "Localizations.of(context)." + itemName)
-		}
-		dst.Code(");\n")
+		dst.Code("\t\tstatic final " + enumName + " " + itemName + " = new " + enumName + "(" + item.Id.Value + ", \"" + itemName + "\");\n")
 	}
 	dst.Code("\n")
 	dst.Code("\t\tstatic final " + enumName + "[] values = new " + enumName + "[]{\n")
-- 
2.43.0


From 77c975de81a850da794cbaedae1d497f65bb6748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:40 +0000
Subject: [PATCH 066/109] fix: find Java enum items by name, under the names
 they have in the other languages

---
 pkg/java/enum.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/java/enum.go b/pkg/java/enum.go
index b9baf5e..8050995 100644
--- a/pkg/java/enum.go
+++ b/pkg/java/enum.go
@@ -48,7 +48,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 
 	dst.Code("\t\tpublic static " + enumName + " nameOf(String name) {\n")
 	dst.Code("\t\t\tfor (" + enumName + " item : values) {\n")
-	dst.Code("\t\t\t\tif (item.name == name) {\n")
+	dst.Code("\t\t\t\tif (item.name.equals(name)) {\n")
 	dst.Code("\t\t\t\t\treturn item;\n")
 	dst.Code("\t\t\t\t}\n")
 	dst.Code("\t\t\t}\n")
@@ -60,7 +60,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 			dst.Code("///" + item.Doc.Text())
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
-		dst.Code("\t\tstatic final " + enumName + " " + itemName + " = new " + enumName + "(" + item.Id.Value + ", \"" + itemName + "\");\n")
+		dst.Code("\t\tstatic final " + enumName + " " + itemName + " = new " + enumName + "(" + item.Id.Value + ", \"" + build.StringToHumpName(item.Name.Name) + "\");\n")
 	}
 	dst.Code("\n")
 	dst.Code("\t\tstatic final " + enumName + "[] values = new " + enumName + "[]{\n")
-- 
2.43.0


From ae106983339b9b226d6768f0571b131c7780793c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:41 +0000
Subject: [PATCH 067/109] fix: write the Override annotation of Java with a
 capital letter

---
 pkg/java/data.go   | 4 ++--
 pkg/java/server.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/java/data.go b/pkg/java/data.go
index 2ca61f9..4838664 100644
--- a/pkg/java/data.go
+++ b/pkg/java/data.go
@@ -27,7 +27,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 		}
 		isSuper := build.CheckSuperField(field.Name.Name, typ)
 		if isSuper {
-			dst.Code("\t@override\n")
+			dst.Code("\t@Override\n")
 		}
 		dst.Code("\t\t")
 		b.printType(dst, field.Type, false)
@@ -38,7 +38,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 			dst.Code("\t/// Set " + field.Doc.Text())
 		}
 		if isSuper {
-			dst.Code("\t@override\n")
+			dst.Code("\t@Override\n")
 		}
 		dst.Code("\t\tvoid set")
 		dst.Code(build.StringToHumpName(field.Name.Name) + "(")
diff --git a/pkg/java/server.go b/pkg/java/server.go
index dcca0dc..24785ef 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -31,7 +31,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 			dst.Code("///" + method.Doc.Text())
 		}
 		if build.CheckSuperMethod(method.Name.Name, typ) {
-			dst.Code("\t@override\n")
+			dst.Code("\t@Override\n")
 		}
 		dst.Code("\t\tCompletableFuture<")
 		b.printType(dst, method.Result.Type(), false)
-- 
2.43.0


From 1727775afc0fe1947abf2fd98d3b1ff0283d9152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 068/109] fix: import BigInteger where Java code uses it

---
 pkg/java/java.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/java/java.go b/pkg/java/java.go
index 37f34ec..c0668d7 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -233,7 +233,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool) {
 				dst.Import("java.math.BigDecimal", "")
 			} else if build.Date == build.BaseType((expr.(*ast.Ident).Name)) {
 				dst.Import("java.util.Date", "")
-			} else if build.Int64 == build.BaseType((expr.(*ast.Ident).Name)) {
+			} else if build.Uint64 == build.BaseType((expr.(*ast.Ident).Name)) {
 				dst.Import("java.math.BigInteger", "")
 			}
 			if notEmpty {
-- 
2.43.0


From b8206de1fa7c9f8abdd283d49d381072a536fd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:54 +0000
Subject: [PATCH 069/109] fix: import Java types, bases included, from the
 package of their file

---
 pkg/java/data.go | 1 +
 pkg/java/java.go | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/java/data.go b/pkg/java/data.go
index 4838664..e0d60b4 100644
--- a/pkg/java/data.go
+++ b/pkg/java/data.go
@@ -170,6 +170,7 @@ func (b *Builder) printExtend(dst *build.Writer, extends []*ast.Extends, start b
 		if 0 != i || start {
 			dst.Code(", ")
 		}
+		b.getPackage(dst, v.Name, "")
 		dst.Code(build.StringToHumpName(v.Name.Name))
 	}
 }
diff --git a/pkg/java/java.go b/pkg/java/java.go
index c0668d7..a286d98 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -272,7 +272,11 @@ func (b *Builder) getPackage(dst *build.Writer, expr ast.Expr, s string) string
 	}
 
 	_, name := filepath.Split(file.(*ast.File).Path)
-	name = dst.Packages + "." + build.StringToHumpName(name[:len(name)-len(".hbuf")])
+	pkg := dst.Packages
+	if val, ok := file.(*ast.File).Packages["java"]; ok {
+		pkg = val.Value.Value[1 : len(val.Value.Value)-1]
+	}
+	name = pkg + "." + build.StringToHumpName(name[:len(name)-len(".hbuf")])
 	if 0 < len(s) {
 		name = name + "." + s + ".dart"
 	} else {
-- 
2.43.0


From 0d8f4ff22bd7dbd2b891dfeb280238eeccb09deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:29 +0000
Subject: [PATCH 070/109] fix: let other packages use the items of a Java enum

---
 pkg/java/enum.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/java/enum.go b/pkg/java/enum.go
index 8050995..500d390 100644
--- a/pkg/java/enum.go
+++ b/pkg/java/enum.go
@@ -16,8 +16,8 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	}
 	dst.Code("\tclass " + enumName)
 	dst.Code("\t{\n")
-	dst.Code("\t\tfinal int value;\n")
-	dst.Code("\t\tfinal String name;\n\n")
+	dst.Code("\t\tpublic final int value;\n")
+	dst.Code("\t\tpublic final String name;\n\n")
 
 	dst.Code("\t\tprivate " + enumName + "(int value, String name){\n")
 	dst.Code("\t\t\tthis.value = value;\n")
@@ -60,10 +60,10 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 			dst.Code("///" + item.Doc.Text())
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
-		dst.Code("\t\tstatic final " + enumName + " " + itemName + " = new " + enumName + "(" + item.Id.Value + ", \"" + build.StringToHumpName(item.Name.Name) + "\");\n")
+		dst.Code("\t\tpublic static final " + enumName + " " + itemName + " = new " + enumName + "(" + item.Id.Value + ", \"" + build.StringToHumpName(item.Name.Name) + "\");\n")
 	}
 	dst.Code("\n")
-	dst.Code("\t\tstatic final " + enumName + "[] values = new " + enumName + "[]{\n")
+	dst.Code("\t\tpublic static final " + enumName + "[] values = new " + enumName + "[]{\n")
 	for _, item := range typ.Items {
 		dst.Code("\t\t\t" + build.StringToAllUpper(item.Name.Name) + ",\n")
 	}
-- 
2.43.0


From acac02f6449e9b9316643c63d241a083bc45f32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:29 +0000
Subject: [PATCH 071/109] fix: let Java methods without a result compile

---
 pkg/java/server.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/pkg/java/server.go b/pkg/java/server.go
index 24785ef..0b6f921 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -34,7 +34,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 			dst.Code("\t@Override\n")
 		}
 		dst.Code("\t\tCompletableFuture<")
-		b.printType(dst, method.Result.Type(), false)
+		b.printResult(dst, method)
 		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
@@ -44,6 +44,14 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("\t}\n\n")
 }
 
+func (b *Builder) printResult(dst *build.Writer, method *ast.FuncType) {
+	if "void" == method.Result.Type().(*ast.Ident).Name {
+		dst.Code("Void")
+		return
+	}
+	b.printType(dst, method.Result.Type(), false)
+}
+
 func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("\tclass " + build.StringToHumpName(typ.Name.Name) + "Client extends Server.ClientRouter implements " + build.StringToHumpName(typ.Name.Name))
 
@@ -66,7 +74,7 @@ func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 	_ = build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
 		dst.Code("\t\t@Override\n")
 		dst.Code("\t\tpublic CompletableFuture<")
-		b.printType(dst, method.Result.Type(), false)
+		b.printResult(dst, method)
 		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
@@ -80,11 +88,15 @@ func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("0 << 32 | " + method.Id.Value)
 		dst.Code(", ")
 		dst.Code(build.StringToFirstLower(method.ParamName.Name))
-		dst.Code(", (data) -> Data.formJson.invoke(new String(data), ")
-		b.printType(dst, method.Result.Type(), false)
-		dst.Code("Impl.class), (data)-> new ")
-		b.printType(dst, method.Result.Type(), false)
-		dst.Code("Impl().formData(data));\n")
+		if "void" == method.Result.Type().(*ast.Ident).Name {
+			dst.Code(", (data) -> null, (data)-> null);\n")
+		} else {
+			dst.Code(", (data) -> Data.formJson.invoke(new String(data), ")
+			b.printType(dst, method.Result.Type(), false)
+			dst.Code("Impl.class), (data)-> new ")
+			b.printType(dst, method.Result.Type(), false)
+			dst.Code("Impl().formData(data));\n")
+		}
 
 		dst.Code("\t\t}\n\n")
 		return nil
-- 
2.43.0


From b45c1d3db1db8300c00c8362d09d50acf2856d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:30 +0000
Subject: [PATCH 072/109] fix: copy the fields in the copy method of Java data

---
 pkg/java/data.go | 76 +++++++++++++++---------------------------------
 1 file changed, 23 insertions(+), 53 deletions(-)

diff --git a/pkg/java/data.go b/pkg/java/data.go
index e0d60b4..36d1bcf 100644
--- a/pkg/java/data.go
+++ b/pkg/java/data.go
@@ -87,6 +87,13 @@ func (b *Builder) printDataEntity(dst *build.Writer, typ *ast.DataType) {
 	dst.Code("\t\t@Override\n")
 	dst.Code("\t\tpublic " + build.StringToHumpName(typ.Name.Name) + " copy(){\n")
 	dst.Code("\t\t\t" + build.StringToHumpName(typ.Name.Name) + "Impl ret = new " + build.StringToHumpName(typ.Name.Name) + "Impl();\n")
+	_ = build.EnumField(typ, func(field *ast.Field, data *ast.DataType) error {
+		name := build.StringToFirstLower(field.Name.Name)
+		dst.Code("\t\t\tret." + name + " = ")
+		b.printCopy(dst, "this."+name, field.Type)
+		dst.Code(";\n")
+		return nil
+	})
 	dst.Code("\t\t\treturn ret;\n")
 	dst.Code("\t\t}\n\n")
 
@@ -103,65 +110,28 @@ func (b *Builder) printDataEntity(dst *build.Writer, typ *ast.DataType) {
 	dst.Code("\t}\n\n")
 }
 
-func (b *Builder) printCopy(dst *build.Writer, name string, expr ast.Expr, data *ast.DataType, empty bool) {
-	switch expr.(type) {
+func (b *Builder) printCopy(dst *build.Writer, name string, expr ast.Expr) {
+	switch t := expr.(type) {
 	case *ast.Ident:
-		t := expr.(*ast.Ident)
-		if nil != t.Obj {
-			if ast.Enum == t.Obj.Kind {
-				dst.Code(name)
-			} else if ast.Data == t.Obj.Kind {
-				if empty {
-					dst.Code(name + "?.copy()")
-				} else {
-					dst.Code(name + ".copy()")
-				}
-			} else {
-				dst.Code(name)
-			}
+		if nil != t.Obj && ast.Data == t.Obj.Kind {
+			dst.Code("null == " + name + " ? null : " + name + ".copy()")
+		} else if nil == t.Obj && build.Date == build.BaseType(t.Name) {
+			dst.Code("null == " + name + " ? null : new Date(" + name + ".getTime())")
 		} else {
-			switch build.BaseType(expr.(*ast.Ident).Name) {
-			case build.Decimal:
-				if empty {
-					dst.Code("null == " + name + " ? null : Decimal.fromJson(" + name + "!.toJson())")
-				} else {
-					dst.Code("Decimal.fromJson(" + name + ".toJson())")
-				}
-			default:
-				dst.Code(name)
-			}
+			dst.Code(name)
 		}
 	case *ast.ArrayType:
-		t := expr.(*ast.ArrayType)
-		empty = t.IsEmpty()
-		if empty {
-			dst.Code(name + "?.map((temp) => ")
-			b.printCopy(dst, "temp", t.VType, data, empty)
-			dst.Code(").toList()")
-		} else {
-			dst.Code(name + ".map((temp) => ")
-			b.printCopy(dst, "temp", t.VType, data, empty)
-			dst.Code(").toList()")
-		}
+		dst.Import("java.util.stream.Collectors", "")
+		dst.Code("null == " + name + " ? null : " + name + ".stream().map((item) -> ")
+		b.printCopy(dst, "item", t.VType)
+		dst.Code(").collect(Collectors.toList())")
 	case *ast.MapType:
-		t := expr.(*ast.MapType)
-		empty = t.IsEmpty()
-		if empty {
-			dst.Code(name + "?.map((key,value) => MapEntry(")
-			b.printCopy(dst, "key", t.Key, data, empty)
-			dst.Code(",")
-			b.printCopy(dst, "value", t.Key, data, empty)
-			dst.Code(")")
-		} else {
-			dst.Code(name + ".map((key,value) => MapEntry(")
-			b.printCopy(dst, "key", t.Key, data, empty)
-			dst.Code(",")
-			b.printCopy(dst, "value", t.Key, data, empty)
-			dst.Code("))")
-		}
+		dst.Import("java.util.LinkedHashMap", "")
+		dst.Code("null == " + name + " ? null : " + name + ".entrySet().stream().collect(LinkedHashMap::new, (map, item) -> map.put(item.getKey(), ")
+		b.printCopy(dst, "item.getValue()", t.VType)
+		dst.Code("), Map::putAll)")
 	case *ast.VarType:
-		t := expr.(*ast.VarType)
-		b.printCopy(dst, name, t.Type(), data, t.Empty)
+		b.printCopy(dst, name, t.Type())
 	}
 }
 
-- 
2.43.0


From 5b786d3396d7173252c98c890c7a0621625f7a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:05 +0000
Subject: [PATCH 073/109] fix: do not use keywords of Java as names of its
 variables

---
 pkg/java/data.go   |  8 ++++----
 pkg/java/java.go   | 27 +++++++++++++++++++++++++++
 pkg/java/server.go |  6 +++---
 3 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/pkg/java/data.go b/pkg/java/data.go
index 36d1bcf..0d19d55 100644
--- a/pkg/java/data.go
+++ b/pkg/java/data.go
@@ -59,14 +59,14 @@ func (b *Builder) printDataEntity(dst *build.Writer, typ *ast.DataType) {
 	err := build.EnumField(typ, func(field *ast.Field, data *ast.DataType) error {
 		dst.Code("\t\t")
 		b.printType(dst, field.Type, false)
-		dst.Code(" " + build.StringToFirstLower(field.Name.Name) + ";\n\n")
+		dst.Code(" " + javaName(field.Name.Name) + ";\n\n")
 
 		dst.Code("\t\t@Override\n")
 		dst.Code("\t\tpublic ")
 		b.printType(dst, field.Type, false)
 		dst.Code(" get" + build.StringToHumpName(field.Name.Name))
 		dst.Code("(){\n")
-		dst.Code("\t\t\treturn this." + build.StringToFirstLower(field.Name.Name) + ";\n")
+		dst.Code("\t\t\treturn this." + javaName(field.Name.Name) + ";\n")
 		dst.Code("\t\t}\n\n")
 
 		dst.Code("\t\t@Override\n")
@@ -74,7 +74,7 @@ func (b *Builder) printDataEntity(dst *build.Writer, typ *ast.DataType) {
 		dst.Code(build.StringToHumpName(field.Name.Name) + "(")
 		b.printType(dst, field.Type, false)
 		dst.Code(" value){\n")
-		dst.Code("\t\t\tthis." + build.StringToFirstLower(field.Name.Name) + " = value;\n")
+		dst.Code("\t\t\tthis." + javaName(field.Name.Name) + " = value;\n")
 		dst.Code("\t\t}\n\n")
 		return nil
 	})
@@ -88,7 +88,7 @@ func (b *Builder) printDataEntity(dst *build.Writer, typ *ast.DataType) {
 	dst.Code("\t\tpublic " + build.StringToHumpName(typ.Name.Name) + " copy(){\n")
 	dst.Code("\t\t\t" + build.StringToHumpName(typ.Name.Name) + "Impl ret = new " + build.StringToHumpName(typ.Name.Name) + "Impl();\n")
 	_ = build.EnumField(typ, func(field *ast.Field, data *ast.DataType) error {
-		name := build.StringToFirstLower(field.Name.Name)
+		name := javaName(field.Name.Name)
 		dst.Code("\t\t\tret." + name + " = ")
 		b.printCopy(dst, "this."+name, field.Type)
 		dst.Code(";\n")
diff --git a/pkg/java/java.go b/pkg/java/java.go
index a286d98..8304171 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -293,3 +293,30 @@ func (b *Builder) getPackage(dst *build.Writer, expr ast.Expr, s string) string
 	dst.Import(name, "")
 	return ""
 }
+
+var _keywords = map[string]struct{}{
+	"abstract": {}, "assert": {}, "boolean": {}, "break": {}, "byte": {}, "case": {}, "catch": {}, "char": {}, "class": {},
+	"const": {}, "continue": {}, "default": {}, "do": {}, "double": {}, "else": {}, "enum": {}, "extends": {}, "false": {},
+	"final": {}, "finally": {}, "float": {}, "for": {}, "goto": {}, "if": {}, "implements": {}, "import": {}, "instanceof": {},
+	"int": {}, "interface": {}, "long": {}, "native": {}, "new": {}, "null": {}, "package": {}, "private": {}, "protected": {},
+	"public": {}, "return": {}, "short": {}, "static": {}, "strictfp": {}, "super": {}, "switch": {}, "synchronized": {},
+	"this": {}, "throw": {}, "throws": {}, "transient": {}, "true": {}, "try": {}, "void": {}, "volatile": {}, "while": {},
+}
+
+// javaName is the name of a variable in Java, which must not be a keyword of it
+func javaName(name string) string {
+	name = build.StringToFirstLower(name)
+	if _, ok := _keywords[name]; ok {
+		return name + "_"
+	}
+	return name
+}
+
+// paramName is the name of the parameter of a method, beside which there is another one called ctx
+func paramName(name string) string {
+	name = javaName(name)
+	if "ctx" == name {
+		return name + "_"
+	}
+	return name
+}
diff --git a/pkg/java/server.go b/pkg/java/server.go
index 0b6f921..6f70ef4 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -38,7 +38,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
-		dst.Code(" " + build.StringToFirstLower(method.ParamName.Name))
+		dst.Code(" " + paramName(method.ParamName.Name))
 		dst.Code(", Server.Context ctx) throws Exception ;\n\n")
 	}
 	dst.Code("\t}\n\n")
@@ -78,7 +78,7 @@ func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
-		dst.Code(" " + build.StringToFirstLower(method.ParamName.Name))
+		dst.Code(" " + paramName(method.ParamName.Name))
 		dst.Code(", Server.Context ctx) throws Exception {\n")
 
 		dst.Code("\t\t\treturn invoke(\"")
@@ -87,7 +87,7 @@ func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 		//TODO dst.Code(server.Id.Value + " << 32 | " + method.Id.Value)
 		dst.Code("0 << 32 | " + method.Id.Value)
 		dst.Code(", ")
-		dst.Code(build.StringToFirstLower(method.ParamName.Name))
+		dst.Code(paramName(method.ParamName.Name))
 		if "void" == method.Result.Type().(*ast.Ident).Name {
 			dst.Code(", (data) -> null, (data)-> null);\n")
 		} else {
-- 
2.43.0


From 37d185b416441bffc5b91f6094eb8ee1f77dc19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:27 +0000
Subject: [PATCH 074/109] fix: take a typed text for a number only if all of it
 is one (TypeScript)

---
 pkg/typescript/ui.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index d676099..491f27f 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -349,7 +349,7 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 				if empty {
 					dst.Code("(").Code(name).Code(" == null || ").Code(name).Code(".length == 0)").Code(" ? null : ")
 				}
-				dst.Code("(/([-+]?\\d+)(\\.\\d+)?/.test(").Code(name).Code(") ? Number.parseFloat(" + name + ") :").Code(name).Code(")")
+				dst.Code("(/^[-+]?[0-9]+(\\.[0-9]+)?([eE][-+]?[0-9]+)?$/.test(").Code(name).Code(") ? Number.parseFloat(" + name + ") :").Code(name).Code(")")
 			case build.Bool:
 				if empty {
 					dst.Code("(").Code(name).Code(" == null || ").Code(name).Code(".length == 0)").Code(" ? null : ")
-- 
2.43.0


From aac4843b4514238b002ae2d89caa3b545820705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:28 +0000
Subject: [PATCH 075/109] fix: keep a typed uint64 unsigned (TypeScript)

---
 pkg/typescript/ui.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index 491f27f..3490ad4 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -344,7 +344,7 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 				if empty {
 					dst.Code("(").Code(name).Code(" == null || ").Code(name).Code(".length == 0)").Code(" ? null : ")
 				}
-				dst.Code("(/^[+]?[0-9]+$/.test(").Code(name).Code(") ? Long.fromValue(" + name + ") :").Code(name).Code(")")
+				dst.Code("(/^[+]?[0-9]+$/.test(").Code(name).Code(") ? Long.fromValue(" + name + ", true) :").Code(name).Code(")")
 			case build.Float, build.Double:
 				if empty {
 					dst.Code("(").Code(name).Code(" == null || ").Code(name).Code(".length == 0)").Code(" ? null : ")
-- 
2.43.0


From 9a5029cac90eaf1dfcd296a65bfff5cdf6584da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:29 +0000
Subject: [PATCH 076/109] fix: show nothing for a list or map that is null
 (TypeScript)

---
 pkg/typescript/ui.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index 3490ad4..4a1fbcc 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -293,8 +293,14 @@ func (b *Builder) printToString(dst *build.Writer, name string, expr ast.Expr, e
 			}
 		}
 	case *ast.ArrayType:
+		if expr.(*ast.ArrayType).Empty {
+			dst.Code("null == ").Code(name).Code(" ? \"\" : ")
+		}
 		dst.Code("\"\"+").Code(name)
 	case *ast.MapType:
+		if expr.(*ast.MapType).Empty {
+			dst.Code("null == ").Code(name).Code(" ? \"\" : ")
+		}
 		dst.Code("\"\"+").Code(name)
 	case *ast.VarType:
 		t := expr.(*ast.VarType)
-- 
2.43.0


From 9a77afa08366aea45d2d0f25fd39c5710eec47db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:52 +0000
Subject: [PATCH 077/109] fix: close the brackets of a nullable map in Dart

---
 pkg/dart/data.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index 701cb53..8f4d02a 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -387,7 +387,7 @@ func (b *Builder) printCopy(dst *build.Writer, name string, expr ast.Expr, data
 			b.printCopy(dst, "key", t.Key, data, empty)
 			dst.Code(",")
 			b.printCopy(dst, "value", t.Key, data, empty)
-			dst.Code(")")
+			dst.Code("))")
 		} else {
 			dst.Code(name + ".map((key,value) => MapEntry(")
 			b.printCopy(dst, "key", t.Key, data, empty)
@@ -582,7 +582,7 @@ func (b *Builder) printToMap(dst *build.Writer, name string, expr ast.Expr, data
 			b.printToMap(dst, "key", t.Key, data, empty)
 			dst.Code(",")
 			b.printToMap(dst, "value", t.Key, data, empty)
-			dst.Code(")")
+			dst.Code("))")
 		} else {
 			dst.Code(name + ".map((key,value) => MapEntry(")
 			b.printToMap(dst, "key", t.Key, data, empty)
-- 
2.43.0


From a0224f512d27e73b1a33120051b6acfba828ba6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:52 +0000
Subject: [PATCH 078/109] fix: convert the values of a Dart map by their own
 type

---
 pkg/dart/data.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index 8f4d02a..b11e75f 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -386,13 +386,13 @@ func (b *Builder) printCopy(dst *build.Writer, name string, expr ast.Expr, data
 			dst.Code(name + "?.map((key,value) => MapEntry(")
 			b.printCopy(dst, "key", t.Key, data, empty)
 			dst.Code(",")
-			b.printCopy(dst, "value", t.Key, data, empty)
+			b.printCopy(dst, "value", t.VType, data, empty)
 			dst.Code("))")
 		} else {
 			dst.Code(name + ".map((key,value) => MapEntry(")
 			b.printCopy(dst, "key", t.Key, data, empty)
 			dst.Code(",")
-			b.printCopy(dst, "value", t.Key, data, empty)
+			b.printCopy(dst, "value", t.VType, data, empty)
 			dst.Code("))")
 		}
 	case *ast.VarType:
@@ -581,13 +581,13 @@ func (b *Builder) printToMap(dst *build.Writer, name string, expr ast.Expr, data
 			dst.Code(name + "?.map((key,value) => MapEntry(")
 			b.printToMap(dst, "key", t.Key, data, empty)
 			dst.Code(",")
-			b.printToMap(dst, "value", t.Key, data, empty)
+			b.printToMap(dst, "value", t.VType, data, empty)
 			dst.Code("))")
 		} else {
 			dst.Code(name + ".map((key,value) => MapEntry(")
 			b.printToMap(dst, "key", t.Key, data, empty)
 			dst.Code(",")
-			b.printToMap(dst, "value", t.Key, data, empty)
+			b.printToMap(dst, "value", t.VType, data, empty)
 			dst.Code("))")
 		}
 	case *ast.VarType:
-- 
2.43.0


From e86c6d3e0427e2da759d333630836beee9b936a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:52 +0000
Subject: [PATCH 079/109] fix: write the keys of a Dart map as texts, which
 JSON demands, and read them

---
 pkg/dart/data.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index b11e75f..75403e1 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -455,9 +455,9 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 				}
 			case build.Bool:
 				if empty {
-					dst.Code("null == " + name + " ? null : (" + v + " is bool ? " + v + " : (" + v + " is num ? 0 != " + v + " : (null == num.tryParse(" + v + ".toString()) ? null : 0 != num.tryParse(" + v + ".toString()))))")
+					dst.Code("null == " + name + " ? null : (" + v + " is bool ? " + v + " : (\"true\" == " + v + " ? true : (\"false\" == " + v + " ? false : (" + v + " is num ? 0 != " + v + " : (null == num.tryParse(" + v + ".toString()) ? null : 0 != num.tryParse(" + v + ".toString()))))))")
 				} else {
-					dst.Code("null == " + name + " ? false:(" + v + " is bool ? " + v + " : 0 != (" + v + " is num ? " + v + " : num.tryParse(" + v + ".toString()) ?? 0))")
+					dst.Code("null == " + name + " ? false:(" + v + " is bool ? " + v + " : \"true\" == " + v + " || 0 != (" + v + " is num ? " + v + " : num.tryParse(" + v + ".toString()) ?? 0))")
 				}
 			case build.Decimal:
 				if empty {
@@ -579,14 +579,16 @@ func (b *Builder) printToMap(dst *build.Writer, name string, expr ast.Expr, data
 		empty = t.IsEmpty()
 		if empty {
 			dst.Code(name + "?.map((key,value) => MapEntry(")
+			dst.Code("\"${")
 			b.printToMap(dst, "key", t.Key, data, empty)
-			dst.Code(",")
+			dst.Code("}\",")
 			b.printToMap(dst, "value", t.VType, data, empty)
 			dst.Code("))")
 		} else {
 			dst.Code(name + ".map((key,value) => MapEntry(")
+			dst.Code("\"${")
 			b.printToMap(dst, "key", t.Key, data, empty)
-			dst.Code(",")
+			dst.Code("}\",")
 			b.printToMap(dst, "value", t.VType, data, empty)
 			dst.Code("))")
 		}
-- 
2.43.0


From 6c8fe72ebef085d38f0f340b8a2cd39f525758db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:52 +0000
Subject: [PATCH 080/109] fix: let a Dart list or map of floats compile

---
 pkg/dart/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index 75403e1..406965b 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -439,7 +439,7 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 				if empty {
 					dst.Code("null == " + name + " ? null : (" + v + " is num ? " + v + ".toDouble() : num.tryParse(" + v + ".toString())?.toDouble())")
 				} else {
-					dst.Code("null == " + name + " ? 0 : (" + v + " is num ? " + v + ".toDouble() : num.tryParse(" + v + ".toString())?.toDouble() ?? 0)")
+					dst.Code("null == " + name + " ? 0.0 : (" + v + " is num ? " + v + ".toDouble() : num.tryParse(" + v + ".toString())?.toDouble() ?? 0.0)")
 				}
 			case build.String:
 				if empty {
-- 
2.43.0


From c09df8b27e49610cad774552b166783e5ea55a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:52 +0000
Subject: [PATCH 081/109] fix: give a Dart enum field a default also where no
 item is 0

---
 pkg/dart/data.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index 406965b..b7b32c5 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -3,6 +3,7 @@ package dart
 import (
 	"hbuf/pkg/ast"
 	"hbuf/pkg/build"
+	"strconv"
 )
 
 func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
@@ -410,7 +411,7 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 				if empty {
 					dst.Code("null == " + name + " ? null :" + v + " is num ? " + build.StringToHumpName(t.Name) + ".valueOf(" + v + ".toInt()) : null == num.tryParse(" + v + ".toString()) ? null : " + build.StringToHumpName(t.Name) + ".valueOf(num.tryParse(" + v + ".toString())!.toInt())")
 				} else {
-					dst.Code("null == " + name + " ? " + build.StringToHumpName(t.Name) + ".valueOf(0) : " + build.StringToHumpName(t.Name) + ".valueOf(" + v + " is num ? " + v + ".toInt() : num.tryParse(" + v + ".toString())?.toInt() ?? 0)")
+					dst.Code("null == " + name + " ? " + enumDefault(t) + " : " + build.StringToHumpName(t.Name) + ".valueOf(" + v + " is num ? " + v + ".toInt() : num.tryParse(" + v + ".toString())?.toInt() ?? 0)")
 				}
 			} else if ast.Data == t.Obj.Kind {
 				if empty {
@@ -516,6 +517,21 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 	}
 }
 
+// enumDefault The item with value 0, or the first one if there is none
+func enumDefault(t *ast.Ident) string {
+	name := build.StringToHumpName(t.Name)
+	items := t.Obj.Decl.(*ast.TypeSpec).Type.(*ast.EnumType).Items
+	for _, item := range items {
+		if id, err := strconv.ParseInt(item.Id.Value, 0, 64); nil == err && 0 == id {
+			return name + ".valueOf(0)"
+		}
+	}
+	if 0 == len(items) {
+		return name + ".valueOf(0)"
+	}
+	return name + "." + build.StringToAllUpper(items[0].Name.Name)
+}
+
 func (b *Builder) printToMap(dst *build.Writer, name string, expr ast.Expr, data *ast.DataType, empty bool) {
 	switch expr.(type) {
 	case *ast.Ident:
-- 
2.43.0


From c499f1d464e95a752fb90c3308a4bb8b574787fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:52 +0000
Subject: [PATCH 082/109] fix: write uint64 in Dart as unsigned

---
 pkg/dart/data.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index b7b32c5..8dd4206 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -556,7 +556,13 @@ func (b *Builder) printToMap(dst *build.Writer, name string, expr ast.Expr, data
 			switch build.BaseType(expr.(*ast.Ident).Name) {
 			case build.Int8, build.Int16, build.Int32, build.Uint32, build.Uint8, build.Uint16, build.Float, build.Double, build.String, build.Bool:
 				dst.Code(name)
-			case build.Uint64, build.Int64:
+			case build.Uint64:
+				if empty {
+					dst.Code(name + "?.toStringUnsigned()")
+				} else {
+					dst.Code(name + ".toStringUnsigned()")
+				}
+			case build.Int64:
 				if empty {
 					dst.Code(name + "?.toString()")
 				} else {
-- 
2.43.0


From 59178c0f181b0c6307a12e4e1757db8d2faa0aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:52 +0000
Subject: [PATCH 083/109] fix: compare a Dart field with the name other with
 that of the other data

---
 pkg/dart/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index 8dd4206..4ee924e 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -276,7 +276,7 @@ func (b *Builder) printDataEntity(dst *build.Writer, typ *ast.DataType) {
 	dst.Code("\t\t\tother is _" + build.StringToHumpName(typ.Name.Name) + " &&\n")
 	dst.Code("\t\t\t\t\truntimeType == other.runtimeType ")
 	err = build.EnumField(typ, func(field *ast.Field, data *ast.DataType) error {
-		dst.Code("&& \n\t\t\t\t\t")
+		dst.Code("&& \n\t\t\t\t\tthis.")
 		dst.Code(build.StringToFirstLower(field.Name.Name))
 		dst.Code(" == other.")
 		dst.Code(build.StringToFirstLower(field.Name.Name))
-- 
2.43.0


From 90d07443dba2eab56a00a21597ba2879cb9f41cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:52 +0000
Subject: [PATCH 084/109] fix: do not let the name of a parameter clash with
 what generated Dart code uses

---
 pkg/dart/server.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/pkg/dart/server.go b/pkg/dart/server.go
index a274ef2..c17e950 100644
--- a/pkg/dart/server.go
+++ b/pkg/dart/server.go
@@ -5,6 +5,23 @@ import (
 	"hbuf/pkg/build"
 )
 
+// Names that a parameter cannot have
+var _reservedNames = map[string]struct{}{
+	"ctx": {}, "assert": {}, "await": {}, "break": {}, "case": {}, "catch": {}, "class": {}, "const": {}, "continue": {}, "default": {},
+	"do": {}, "else": {}, "enum": {}, "extends": {}, "false": {}, "final": {}, "finally": {}, "for": {}, "if": {}, "in": {}, "invoke": {},
+	"is": {}, "new": {}, "null": {}, "rethrow": {}, "return": {}, "super": {}, "switch": {}, "this": {}, "throw": {}, "true": {}, "try": {},
+	"var": {}, "void": {}, "while": {}, "with": {}, "yield": {},
+}
+
+// paramName The name of the parameter of a method
+func paramName(method *ast.FuncType) string {
+	name := build.StringToFirstLower(method.ParamName.Name)
+	if _, ok := _reservedNames[name]; ok {
+		name += "Param"
+	}
+	return name
+}
+
 func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) {
 	dst.Import("dart:convert", "")
 	dst.Import("dart:typed_data", "")
@@ -38,7 +55,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
-		dst.Code(" " + build.StringToFirstLower(method.ParamName.Name))
+		dst.Code(" " + paramName(method))
 		dst.Code(", [Context? ctx]);\n\n")
 	}
 	dst.Code("}\n\n")
@@ -64,7 +81,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
-		dst.Code(" " + build.StringToFirstLower(method.ParamName.Name))
+		dst.Code(" " + paramName(method))
 		dst.Code(", [Context? ctx]){\n")
 
 		dst.Code("    return invoke<")
@@ -75,7 +92,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 		//TODO dst.Code(server.Id.Value + " << 32 | " + method.Id.Value)
 		dst.Code("0 << 32 | " + method.Id.Value)
 		dst.Code(", ")
-		dst.Code(build.StringToFirstLower(method.ParamName.Name))
+		dst.Code(paramName(method))
 		dst.Code(", ")
 		b.printType(dst, method.Result.Type(), false)
 		dst.Code(".fromMap, ")
-- 
2.43.0


From 6965fb2c385e808f4c7520ed7678e1e946f9f08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:21 +0000
Subject: [PATCH 085/109] fix: take a raw string in a tag for the same text in
 quotes

---
 pkg/parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 22c4bd7..dd152a5 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -1066,6 +1066,12 @@ func (p *parser) parseKeyValue() *ast.KeyValue {
 		var value string
 		if p.tok == token.STRING {
 			value = p.lit
+			if '`' == value[0] {
+				// everything that uses the value expects the escapes of a quoted string
+				if text, err := strconv.Unquote(value); nil == err {
+					value = strconv.Quote(text)
+				}
+			}
 			p.next()
 		} else {
 			p.expect(token.STRING)
-- 
2.43.0


From 26f7e7faa3c3158a5474c6f07ae8ee310dccd744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:21 +0000
Subject: [PATCH 086/109] fix: keep the dollar signs of a text in Dart

---
 pkg/dart/language.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/dart/language.go b/pkg/dart/language.go
index 836891b..69570ac 100644
--- a/pkg/dart/language.go
+++ b/pkg/dart/language.go
@@ -3,8 +3,14 @@ package dart
 import (
 	"hbuf/pkg/build"
 	"sort"
+	"strings"
 )
 
+// a dollar sign in a text of Dart begins an interpolation
+func dartText(text string) string {
+	return strings.ReplaceAll(text, "$", "\\$")
+}
+
 func printLanguge(dst *build.Writer) {
 	langsKeys := build.GetKeysByMap(dst.GetLangs())
 	sort.Strings(langsKeys)
@@ -72,7 +78,7 @@ func printLanguge(dst *build.Writer) {
 
 		for _, key := range lanKeys {
 			dst.Code("  @override\n")
-			dst.Code("  String get " + key + " => \"" + build.GetLang(key, "____", l.Lang[key]) + "\";\n")
+			dst.Code("  String get " + key + " => \"" + dartText(build.GetLang(key, "____", l.Lang[key])) + "\";\n")
 			dst.Code("\n")
 		}
 		dst.Code("}\n")
@@ -84,7 +90,7 @@ func printLanguge(dst *build.Writer) {
 			dst.Code("  const " + keyName + l.Name + "Localizations();\n")
 			for _, f := range lanKeys {
 				dst.Code("  @override\n")
-				dst.Code("  String get " + f + " => \"" + build.GetLang(f, key, l.Lang[f]) + "\";\n")
+				dst.Code("  String get " + f + " => \"" + dartText(build.GetLang(f, key, l.Lang[f])) + "\";\n")
 				dst.Code("\n")
 			}
 			dst.Code("}\n")
-- 
2.43.0


From dc54f07bc0573c606f3f71683c6573000b7fa1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:21 +0000
Subject: [PATCH 087/109] fix: do not take the label of an enum item with a
 digit apart

---
 pkg/build/language.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/build/language.go b/pkg/build/language.go
index 4977bc8..7865f78 100644
--- a/pkg/build/language.go
+++ b/pkg/build/language.go
@@ -56,7 +56,7 @@ func GetLang(val string, key string, lanMap map[string]string) string {
 		return val
 	}
 
-	if !regexp.MustCompile(`[a-z0-9]`).MatchString(val) {
+	if !regexp.MustCompile(`[a-z]`).MatchString(val) {
 		val = strings.ToLower(val)
 	}
 
-- 
2.43.0


From 1cd0dbd5faafd8f55f169f01177698d6fe6ebeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:48 +0000
Subject: [PATCH 088/109] fix: check numbers of a Dart form by their whole text
 and their range

---
 pkg/dart/verify.go | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index 7e005a8..e83fd02 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -71,23 +71,23 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				t := build.GetBaseType(field.Type)
 				switch t {
 				case build.Int8:
-					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*", field.Type, "–128", "127")
+					b.verifyNum(dst, val, f, "^-?[0-9]+\\$", field.Type, "-128", "127")
 				case build.Int16:
-					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*", field.Type, "-32768", "32767")
+					b.verifyNum(dst, val, f, "^-?[0-9]+\\$", field.Type, "-32768", "32767")
 				case build.Int32:
-					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*", field.Type, "-2147483648", "2147483647")
+					b.verifyNum(dst, val, f, "^-?[0-9]+\\$", field.Type, "-2147483648", "2147483647")
 				case build.Uint8:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "0", "255")
+					b.verifyNum(dst, val, f, "^[0-9]+\\$", field.Type, "0", "255")
 				case build.Uint16:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "0", "65535")
+					b.verifyNum(dst, val, f, "^[0-9]+\\$", field.Type, "0", "65535")
 				case build.Uint32:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "0", "4294967295")
+					b.verifyNum(dst, val, f, "^[0-9]+\\$", field.Type, "0", "4294967295")
 				case build.Float, build.Double:
-					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*.\\\\d*|0.\\\\d*[0-9]\\\\d*", field.Type, "", "")
+					b.verifyNum(dst, val, f, "^-?[0-9]+(\\\\.[0-9]+)?([eE][-+]?[0-9]+)?\\$", field.Type, "", "")
 				case build.Int64:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "-9223372036854775808", "9223372036854775808")
+					b.verifyNum(dst, val, f, "^-?[0-9]+\\$", field.Type, "-9223372036854775808", "9223372036854775807")
 				case build.Uint64:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "0", "18446744073709551615615")
+					b.verifyNum(dst, val, f, "^[0-9]+\\$", field.Type, "0", "18446744073709551615")
 				case build.Date:
 					dst.Code("\tDateTime? val = DateTime.tryParse(text!);\n")
 					dst.Code("\tif (null == val) {\n")
@@ -187,12 +187,9 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 }
 
 func (b *Builder) verifyNum(dst *build.Writer, val *build.VerifyEnum, f *build.Format, reg string, field ast.Type, min, max string) {
-	dst.Code("\tif (!RegExp(\"" + reg + "\").hasMatch(text")
-	if build.IsNil(field) {
-		dst.Code("!")
-	}
-
-	dst.Code(")) {\n")
+	// every format has its own val
+	dst.Code("\t{\n")
+	dst.Code("\tif (!RegExp(\"" + reg + "\").hasMatch(text!)) {\n")
 	dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
 	dst.Code("\t}\n")
 	dst.Import("package:decimal/decimal.dart", "")
@@ -210,16 +207,17 @@ func (b *Builder) verifyNum(dst *build.Writer, val *build.VerifyEnum, f *build.F
 	if 0 < len(f.Min) || 0 < len(f.Max) {
 		dst.Code("\tif (")
 		if 0 < len(f.Min) {
-			dst.Code("Decimal.tryParse(" + f.Min + ") > val")
+			dst.Code("Decimal.parse(\"" + f.Min + "\") > val")
 		}
 		if 0 < len(f.Max) {
 			if 0 < len(f.Min) {
 				dst.Code(" || ")
 			}
-			dst.Code("Decimal.tryParse(" + f.Max + ") < val")
+			dst.Code("Decimal.parse(\"" + f.Max + "\") < val")
 		}
 		dst.Code(") {\n")
 		dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
 		dst.Code("\t}\n")
 	}
+	dst.Code("\t}\n")
 }
-- 
2.43.0


From da2c8d850ec78157873e211d1fe23038ea90d7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:48 +0000
Subject: [PATCH 089/109] fix: check dates and decimals of a Dart form with
 every format

---
 pkg/dart/verify.go | 36 +++++-------------------------------
 1 file changed, 5 insertions(+), 31 deletions(-)

diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index e83fd02..d5b2107 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -41,7 +41,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 
 		dst.Code("String? verify" + dName + "_" + fName + "(BuildContext context, String? text) {\n")
 		isNull := build.IsNil(field.Type)
-		for i, val := range verify.GetFormat() {
+		for _, val := range verify.GetFormat() {
 			f := build.GetFormat(val.Item.Tags)
 			if nil == f {
 				continue
@@ -89,6 +89,8 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				case build.Uint64:
 					b.verifyNum(dst, val, f, "^[0-9]+\\$", field.Type, "0", "18446744073709551615")
 				case build.Date:
+					// every format has its own val
+					dst.Code("\t{\n")
 					dst.Code("\tDateTime? val = DateTime.tryParse(text!);\n")
 					dst.Code("\tif (null == val) {\n")
 					dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
@@ -116,42 +118,14 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
 						dst.Code("\t}\n")
 					}
+					dst.Code("\t}\n")
 				case build.Decimal:
 					if 0 < len(f.Reg) {
 						dst.Code("\tif (!RegExp(\"" + strings.ReplaceAll(f.Reg, "$", "\\$") + "\").hasMatch(text!)) {\n")
 						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
 						dst.Code("\t}\n")
 					}
-					if i == len(verify.GetFormat())-1 {
-						dst.Code("\tif (!RegExp(\"-?[0-9]\\\\d*.\\\\d*|0.\\\\d*[0-9]\\\\d*\").hasMatch(text")
-						if build.IsNil(field.Type) {
-							dst.Code("!")
-						}
-						dst.Code(")) {\n")
-						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
-						dst.Code("\t}\n")
-
-						dst.Import("package:decimal/decimal.dart", "")
-						dst.Code("\tDecimal? val = Decimal.tryParse(text!);\n")
-						dst.Code("\tif (null == val) {\n")
-						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
-						dst.Code("\t}\n")
-						if 0 < len(f.Min) || 0 < len(f.Max) {
-							dst.Code("\tif (")
-							if 0 < len(f.Min) {
-								dst.Code("1 == val.compareTo(Decimal.fromInt(" + f.Min + "))")
-							}
-							if 0 < len(f.Max) {
-								if 0 < len(f.Min) {
-									dst.Code(" || ")
-								}
-								dst.Code("-1 == val.compareTo(Decimal.fromInt(" + f.Max + "))")
-							}
-							dst.Code(") {\n")
-							dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
-							dst.Code("\t}\n")
-						}
-					}
+					b.verifyNum(dst, val, f, "^-?[0-9]+(\\\\.[0-9]+)?([eE][-+]?[0-9]+)?\\$", field.Type, "", "")
 				case build.String:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
 						dst.Code("\tif (")
-- 
2.43.0


From e7312bb7da2e1f393321cc8eb01c6bff3b59b0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:49 +0000
Subject: [PATCH 090/109] fix: count characters, not UTF-16 units, in a Dart
 form

---
 pkg/dart/verify.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index d5b2107..e461cc4 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -130,13 +130,13 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 					if 0 < len(f.Min) || 0 < len(f.Max) {
 						dst.Code("\tif (")
 						if 0 < len(f.Min) {
-							dst.Code(f.Min + " > (text?.length ?? 0)")
+							dst.Code(f.Min + " > (text?.runes.length ?? 0)")
 						}
 						if 0 < len(f.Max) {
 							if 0 < len(f.Min) {
 								dst.Code(" || ")
 							}
-							dst.Code(f.Max + " < (text?.length ?? 0)")
+							dst.Code(f.Max + " < (text?.runes.length ?? 0)")
 						}
 						dst.Code(") {\n")
 						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
-- 
2.43.0


From d3804417b37f9233bcfbac99164f61f70ce3662e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:49 +0000
Subject: [PATCH 091/109] fix: take no text for an empty one in a Dart form

---
 pkg/dart/verify.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index e461cc4..9c2c508 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -40,6 +40,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 		}
 
 		dst.Code("String? verify" + dName + "_" + fName + "(BuildContext context, String? text) {\n")
+		dst.Code("\ttext ??= '';\n")
 		isNull := build.IsNil(field.Type)
 		for _, val := range verify.GetFormat() {
 			f := build.GetFormat(val.Item.Tags)
-- 
2.43.0


From 9cd40799d81cbcc9564f15faaa8b7a2e714cd615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:44 +0000
Subject: [PATCH 092/109] fix: save no null in a required field of a Dart form

---
 pkg/dart/ui.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index 2e9fbdb..ecf4f5d 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -539,7 +539,9 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 				setValue.Code(";\n")
 				if !form.onlyRead {
 					setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = ")
-					setValue.Code("\"\" == val ? null : ")
+					if isNil {
+						setValue.Code("\"\" == val ? null : ")
+					}
 					b.printFormString(setValue, "val", field.Type, false, form.digit, form.format)
 					setValue.Code(";\n")
 				}
@@ -588,7 +590,9 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			setValue.Code(";\n")
 			if !form.onlyRead {
 				setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = ")
-				setValue.Code("\"\" == val ? null : ")
+				if isNil {
+					setValue.Code("\"\" == val ? null : ")
+				}
 				b.printFormString(setValue, "val", field.Type, false, form.digit, form.format)
 				setValue.Code(";\n")
 			}
@@ -705,8 +709,11 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			setValue.Code(";\n")
 			if !form.onlyRead {
 				setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = ")
-				setValue.Code("\"\" == val ? null : ")
-				setValue.Code("val ;\n")
+				if isNil {
+					setValue.Code("val ;\n")
+				} else {
+					setValue.Code("val! ;\n")
+				}
 			}
 			setValue.Code("\t\t" + fieldName + ".readOnly = readOnly || " + onlyRead + ";\n")
 			setValue.Code("\t\t" + fieldName + ".widthSizes = sizes;\n")
-- 
2.43.0


From 80cea98056f9863a9b34f138b0d7514e22ed257c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:44 +0000
Subject: [PATCH 093/109] fix: check the controls of a Dart form that hold no
 text

---
 pkg/dart/ui.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index ecf4f5d..36c25c6 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -477,6 +477,20 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 	}
 }
 
+// formText 返回表单控件的值 val 的文本
+func (b *Builder) formText(expr ast.Expr, form string) string {
+	if "image" == form {
+		if build.IsArray(expr) {
+			return "val?.map((e) => e.url).join(\",\")"
+		}
+		return "(val?.isEmpty ?? true) ? null : val!.first.url"
+	}
+	if !build.IsArray(expr) && build.Uint64 == build.GetBaseType(expr) {
+		return "val?.toStringUnsigned()"
+	}
+	return "val?.toString()"
+}
+
 func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 	name := build.StringToHumpName(typ.Name.Name)
 	lang := dst.GetLang(name)
@@ -553,7 +567,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			setValue.Code("\t\t" + fieldName + ".padding = padding;\n")
 			if nil != verify {
 				b.getPackage(dst, typ.Name, "verify")
-				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(fieldName) + "(context, val!);\n")
+				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(fieldName) + "(context, val);\n")
 			}
 			setValue.Code("\t\t" + fieldName + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
 
@@ -577,7 +591,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			setValue.Code("\t\t" + fieldName + ".padding = padding;\n")
 			if nil != verify {
 				b.getPackage(dst, typ.Name, "verify")
-				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(fieldName) + "(context, val!);\n")
+				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(fieldName) + "(context, " + b.formText(field.Type, "click") + ");\n")
 			}
 			setValue.Code("\t\t" + fieldName + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
 
@@ -611,7 +625,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			}
 			if nil != verify {
 				b.getPackage(dst, typ.Name, "verify")
-				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(fieldName) + "(context, val!);\n")
+				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(fieldName) + "(context, val);\n")
 			}
 			setValue.Code("\t\t" + fieldName + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
 
@@ -669,7 +683,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			}
 			if nil != verify {
 				b.getPackage(dst, typ.Name, "verify")
-				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(fieldName) + "(context, val!);\n")
+				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(fieldName) + "(context, " + b.formText(field.Type, "image") + ");\n")
 			}
 			setValue.Code("\t\t" + fieldName + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
 			fields.Code("\t\t\t" + fieldName + ".build(context),\n")
@@ -720,7 +734,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			setValue.Code("\t\t" + fieldName + ".padding = padding;\n")
 			if nil != verify {
 				b.getPackage(dst, typ.Name, "verify")
-				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(fieldName) + "(context, val!);\n")
+				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(fieldName) + "(context, val?.toString());\n")
 			}
 			setValue.Code("\t\t" + fieldName + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
 
@@ -745,7 +759,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			setValue.Code("\t\t" + fieldName + ".padding = padding;\n")
 			if nil != verify {
 				b.getPackage(dst, typ.Name, "verify")
-				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(fieldName) + "(context, val!);\n")
+				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(fieldName) + "(context, val?.toString());\n")
 			}
 			setValue.Code("\t\t" + fieldName + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
 
-- 
2.43.0


From 8bdcf765923856a50cd7542cd6bb62d2a7f6d33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:44 +0000
Subject: [PATCH 094/109] fix: show uint64 without a sign in Dart forms and
 tables

---
 pkg/dart/ui.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index 36c25c6..e964a40 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -334,11 +334,16 @@ func (b *Builder) printToString(dst *build.Writer, expr ast.Expr, empty bool, di
 			b.printToString(dst, t.Obj.Decl.(*ast.TypeSpec).Type, empty, digit, format, val)
 		} else {
 			switch build.BaseType(t.Name) {
-			case build.Int8, build.Int16, build.Int32, build.Int64, build.Uint8, build.Uint16, build.Uint32, build.Uint64:
+			case build.Int8, build.Int16, build.Int32, build.Int64, build.Uint8, build.Uint16, build.Uint32:
 				if empty {
 					dst.Code("?")
 				}
 				dst.Code(".toString()")
+			case build.Uint64:
+				if empty {
+					dst.Code("?")
+				}
+				dst.Code(".toStringUnsigned()")
 			case build.Float, build.Double:
 				if empty {
 					dst.Code("?")
-- 
2.43.0


From a4e3d132aa9515b740b905f2ecdde48a5e9769a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:45 +0000
Subject: [PATCH 095/109] fix: name the class of an enum in a Dart form

---
 pkg/dart/ui.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index e964a40..7ab1e79 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -407,7 +407,7 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 	switch expr.(type) {
 	case *ast.EnumType:
 		t := expr.(*ast.EnumType)
-		dst.Code(t.Name.Name + ".nameOf(" + name + "!)")
+		dst.Code(build.StringToHumpName(t.Name.Name) + ".nameOf(" + name + "!)")
 	case *ast.Ident:
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
-- 
2.43.0


From 56a4a5e148752c793b39071b9af627719f714b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:45 +0000
Subject: [PATCH 096/109] fix: take an empty text for no elements in a Dart
 form

---
 pkg/dart/ui.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index 7ab1e79..dcd4846 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -544,6 +544,11 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 				setValue.Code(").join(\",\");\n")
 				if !form.onlyRead {
 					setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = ")
+					if isNil {
+						setValue.Code("\"\" == val ? null : ")
+					} else {
+						setValue.Code("\"\" == val ? [] : ")
+					}
 					setValue.Code("val?.split(\",\").map((e) =>e")
 					b.printFormString(setValue, "val", field.Type, false, form.digit, form.format)
 					setValue.Code(").toList()")
-- 
2.43.0


From 6b5e89f90e1c4616ae60b2544e0bef8161e2ad98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:40 +0000
Subject: [PATCH 097/109] fix: end no comment of TypeScript at a Unicode line
 break

---
 pkg/ast/ast.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/ast/ast.go b/pkg/ast/ast.go
index 0949b7e..dc8aaaf 100644
--- a/pkg/ast/ast.go
+++ b/pkg/ast/ast.go
@@ -40,6 +40,9 @@ func stripTrailingWhitespace(s string) string {
 	return s[0:i]
 }
 
+// lineBreaks are those of the languages that are generated.
+var lineBreaks = strings.NewReplacer("\r", " ", "\u2028", " ", "\u2029", " ")
+
 func (g *CommentGroup) Text() string {
 	if g == nil {
 		return ""
@@ -100,7 +103,7 @@ func (g *CommentGroup) Text() string {
 	}
 
 	// One line, as the generators put it behind a line comment marker.
-	return strings.TrimRight(strings.Join(lines, " "), " ") + "\n"
+	return strings.TrimRight(lineBreaks.Replace(strings.Join(lines, " ")), " ") + "\n"
 }
 
 // isDirective reports whether c is a comment directive.
-- 
2.43.0


From 55dad3fd898d25cc87a9c4dd4e3bc328bc08135c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:41 +0000
Subject: [PATCH 098/109] fix: take no backslash of a comment for an escape in
 Java

---
 pkg/java/data.go   | 6 +++---
 pkg/java/enum.go   | 4 ++--
 pkg/java/java.go   | 5 +++++
 pkg/java/server.go | 4 ++--
 4 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/pkg/java/data.go b/pkg/java/data.go
index 0d19d55..a1fbc30 100644
--- a/pkg/java/data.go
+++ b/pkg/java/data.go
@@ -14,7 +14,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 
 func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + docText(typ.Doc))
 	}
 	dst.Code("\tinterface " + build.StringToHumpName(typ.Name.Name) + " extends Data")
 	if nil != typ.Extends {
@@ -23,7 +23,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	dst.Code(" {\n")
 	for _, field := range typ.Fields.List {
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t/// Get " + field.Doc.Text())
+			dst.Code("\t/// Get " + docText(field.Doc))
 		}
 		isSuper := build.CheckSuperField(field.Name.Name, typ)
 		if isSuper {
@@ -35,7 +35,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 		dst.Code("();\n\n")
 
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t/// Set " + field.Doc.Text())
+			dst.Code("\t/// Set " + docText(field.Doc))
 		}
 		if isSuper {
 			dst.Code("\t@Override\n")
diff --git a/pkg/java/enum.go b/pkg/java/enum.go
index 500d390..0c44eee 100644
--- a/pkg/java/enum.go
+++ b/pkg/java/enum.go
@@ -12,7 +12,7 @@ func (b *Builder) printEnumCode(dst *build.Writer, typ *ast.EnumType) {
 func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	enumName := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + docText(typ.Doc))
 	}
 	dst.Code("\tclass " + enumName)
 	dst.Code("\t{\n")
@@ -57,7 +57,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 
 	for _, item := range typ.Items {
 		if nil != item.Doc && 0 < len(item.Doc.Text()) {
-			dst.Code("///" + item.Doc.Text())
+			dst.Code("///" + docText(item.Doc))
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
 		dst.Code("\t\tpublic static final " + enumName + " " + itemName + " = new " + enumName + "(" + item.Id.Value + ", \"" + build.StringToHumpName(item.Name.Name) + "\");\n")
diff --git a/pkg/java/java.go b/pkg/java/java.go
index 8304171..036b9b8 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -320,3 +320,8 @@ func paramName(name string) string {
 	}
 	return name
 }
+
+// docText returns the text of a comment; \u would be an escape even there
+func docText(doc *ast.CommentGroup) string {
+	return strings.ReplaceAll(doc.Text(), "\\", "\\\\")
+}
diff --git a/pkg/java/server.go b/pkg/java/server.go
index 6f70ef4..d9a0f39 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -18,7 +18,7 @@ func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) {
 
 func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + docText(typ.Doc))
 	}
 	dst.Code("\tinterface " + build.StringToHumpName(typ.Name.Name))
 	if nil != typ.Extends {
@@ -28,7 +28,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("{\n")
 	for _, method := range typ.Methods {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("///" + method.Doc.Text())
+			dst.Code("///" + docText(method.Doc))
 		}
 		if build.CheckSuperMethod(method.Name.Name, typ) {
 			dst.Code("\t@Override\n")
-- 
2.43.0


From a5b36dabd625fe6bca77729cbf869a241081ed28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:55 +0000
Subject: [PATCH 099/109] fix: define inherited methods of a Go default server
 that come from several bases

Where two of the servers that a server extends have the same method (they
extend the same server, say), the embedded default servers made it
ambiguous, and the generated Go did not compile.
---
 pkg/golang/server.go | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 5710ed7..87c8cda 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -146,7 +146,42 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 		}
 		dst.Code("}\n\n")
 	}
-	return nil
+	return b.printServerShared(dst, typ)
+}
+
+// printServerShared The methods that more than one of the extended servers has; the first of these serves them
+func (b *Builder) printServerShared(dst *build.Writer, typ *ast.ServerType) error {
+	servers := map[string][]*ast.ServerType{}
+	for _, extend := range typ.Extends {
+		base := extend.Name.Obj.Decl.(*ast.TypeSpec).Type.(*ast.ServerType)
+		err := build.EnumMethod(base, func(method *ast.FuncType, server *ast.ServerType) error {
+			servers[method.Name.Name] = append(servers[method.Name.Name], base)
+			return nil
+		})
+		if err != nil {
+			return err
+		}
+	}
+
+	return build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
+		if server == typ || 2 > len(servers[method.Name.Name]) {
+			return nil
+		}
+		param := b.paramName(dst, method)
+		name := build.StringToHumpName(method.Name.Name)
+		dst.Code("func (s *Default" + build.StringToHumpName(typ.Name.Name) + ") " + name + "(ctx context.Context, " + param + " *")
+		b.printType(dst, method.Param, true)
+		if method.Result.Type().(*ast.Ident).Name == "void" {
+			dst.Code(") error {\n")
+		} else {
+			dst.Code(") (*")
+			b.printType(dst, method.Result.Type(), true)
+			dst.Code(", error) {\n")
+		}
+		dst.Code("\treturn s.Default" + build.StringToHumpName(servers[method.Name.Name][0].Name.Name) + "." + name + "(ctx, " + param + ")\n")
+		dst.Code("}\n\n")
+		return nil
+	})
 }
 
 func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, param string, bind *build.Binding, isSub bool) error {
-- 
2.43.0


From 3cd5f966a7a0a10239245a73519b676a8fc9d384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:03 +0000
Subject: [PATCH 100/109] fix: point at the word with the invalid name, not at
 the declaration

An enum item or a base named like a keyword or a basic type was reported at
the name of the whole declaration.
---
 pkg/build/data.go   | 2 +-
 pkg/build/enum.go   | 2 +-
 pkg/build/server.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/build/data.go b/pkg/build/data.go
index 202c596..bd28ced 100644
--- a/pkg/build/data.go
+++ b/pkg/build/data.go
@@ -43,7 +43,7 @@ func (b *Builder) checkDataExtends(file *ast.File, data *ast.DataType, index int
 	for i, item := range data.Extends {
 		if _, ok := _keys[BaseType(item.Name.Name)]; ok {
 			return scanner.Error{
-				Pos: b.fset.Position(data.Name.Pos()),
+				Pos: b.fset.Position(item.Name.Pos()),
 				Msg: "Invalid name: " + item.Name.Name,
 			}
 		}
diff --git a/pkg/build/enum.go b/pkg/build/enum.go
index a24da0e..e916525 100644
--- a/pkg/build/enum.go
+++ b/pkg/build/enum.go
@@ -42,7 +42,7 @@ func (b *Builder) checkEnumItem(file *ast.File, enum *ast.EnumType) error {
 		}
 		if _, ok := _keys[BaseType(item.Name.Name)]; ok {
 			return scanner.Error{
-				Pos: b.fset.Position(enum.Name.Pos()),
+				Pos: b.fset.Position(item.Name.Pos()),
 				Msg: "Invalid name: " + item.Name.Name,
 			}
 		}
diff --git a/pkg/build/server.go b/pkg/build/server.go
index 754975d..71a833e 100644
--- a/pkg/build/server.go
+++ b/pkg/build/server.go
@@ -152,7 +152,7 @@ func (b *Builder) checkServerExtends(file *ast.File, server *ast.ServerType, ind
 	for i, item := range server.Extends {
 		if _, ok := _keys[BaseType(item.Name.Name)]; ok {
 			return scanner.Error{
-				Pos: b.fset.Position(server.Name.Pos()),
+				Pos: b.fset.Position(item.Name.Pos()),
 				Msg: "Invalid name: " + item.Name.Name,
 			}
 		}
-- 
2.43.0


From bc69aac215c3db1d6343a60f07e25c16ed53fcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:02 +0000
Subject: [PATCH 101/109] fix: use an element of a required list only if it has
 it

[db:where="a","b"] on a list that cannot be null read an element for each
condition, and panicked if there were fewer.
---
 pkg/golang/database.go | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 9726ef7..24fefa5 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -336,22 +336,20 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 					}
 				}
 			} else {
+				where.Code("\tif ")
 				if build.IsNil(field.Field.Type) {
-					where.Code("\tif nil != g." + fieldName + " && " + strconv.Itoa(i) + " < len(g." + fieldName + ")")
-					array := field.Field.Type.(*ast.ArrayType)
-					if array.VType.Empty {
-						where.Code(" && nil != g." + fieldName + "[" + strconv.Itoa(i) + "]")
-					}
-					where.Code(" {\n")
-					if err := b.printParam(where, item, field, fields, "["+strconv.Itoa(i)+"]", "\t\ts"); err != nil {
-						return nil, err
-					}
-					where.Code("\t}\n")
-				} else {
-					if err := b.printParam(where, item, field, fields, "["+strconv.Itoa(i)+"]", "\ts"); err != nil {
-						return nil, err
-					}
+					where.Code("nil != g." + fieldName + " && ")
+				}
+				where.Code(strconv.Itoa(i) + " < len(g." + fieldName + ")")
+				array := field.Field.Type.(*ast.ArrayType)
+				if array.VType.Empty {
+					where.Code(" && nil != g." + fieldName + "[" + strconv.Itoa(i) + "]")
+				}
+				where.Code(" {\n")
+				if err := b.printParam(where, item, field, fields, "["+strconv.Itoa(i)+"]", "\t\ts"); err != nil {
+					return nil, err
 				}
+				where.Code("\t}\n")
 			}
 		}
 	}
-- 
2.43.0


From efbaab6a95ed44657a0f8b2d1f872c5e3e014ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:07 +0000
Subject: [PATCH 102/109] fix: refuse a format that does not exist also in Dart

The error was dropped, and what follows it in the data left out.
---
 pkg/dart/dart.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/dart/dart.go b/pkg/dart/dart.go
index 0987c04..cc04e33 100644
--- a/pkg/dart/dart.go
+++ b/pkg/dart/dart.go
@@ -188,18 +188,24 @@ func (b *Builder) Node(dst *DartWriter, fset *token.FileSet, node interface{}) e
 		switch s.(type) {
 		case *ast.ImportSpec:
 		case *ast.TypeSpec:
-			b.printTypeSpec(dst, (s.(*ast.TypeSpec)).Type)
+			err := b.printTypeSpec(dst, (s.(*ast.TypeSpec)).Type)
+			if err != nil {
+				return err
+			}
 		}
 	}
 	return nil
 }
 
-func (b *Builder) printTypeSpec(dst *DartWriter, expr ast.Expr) {
+func (b *Builder) printTypeSpec(dst *DartWriter, expr ast.Expr) error {
 	switch expr.(type) {
 	case *ast.DataType:
 		b.printDataCode(dst.data, expr.(*ast.DataType))
 		b.printFormCode(dst.ui, expr)
-		b.printVerifyCode(dst.verify, expr.(*ast.DataType))
+		err := b.printVerifyCode(dst.verify, expr.(*ast.DataType))
+		if err != nil {
+			return err
+		}
 	case *ast.ServerType:
 		b.printServerCode(dst.server, expr.(*ast.ServerType))
 
@@ -207,6 +213,7 @@ func (b *Builder) printTypeSpec(dst *DartWriter, expr ast.Expr) {
 		b.printEnumCode(dst.enum, expr.(*ast.EnumType))
 		b.printFormCode(dst.ui, expr)
 	}
+	return nil
 }
 
 func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool) {
-- 
2.43.0


From 15de07bd16947de1e97ace6b1c8187324d1926c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:09 +0000
Subject: [PATCH 103/109] fix: say where a wrong format or bind is, in every
 target

---
 pkg/dart/dart.go             | 2 +-
 pkg/golang/gloang.go         | 2 +-
 pkg/typescript/typescript.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dart/dart.go b/pkg/dart/dart.go
index cc04e33..e9fe90e 100644
--- a/pkg/dart/dart.go
+++ b/pkg/dart/dart.go
@@ -57,7 +57,7 @@ func Build(file *ast.File, fset *token.FileSet, param *build.Param) error {
 	dst := NewGoWriter()
 	err := b.Node(dst, fset, file)
 	if err != nil {
-		return err
+		return build.ErrorToFileError(err, fset)
 	}
 
 	if 0 == len(dst.path) {
diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index 70c26d1..259dc3c 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -87,7 +87,7 @@ func Build(file *ast.File, fSet *token.FileSet, param *build.Param) error {
 	dst := NewGoWriter()
 	err := b.Node(dst, fSet, file)
 	if err != nil {
-		return err
+		return build.ErrorToFileError(err, fSet)
 	}
 	if 0 == len(dst.packages) {
 		return nil
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index b52c22b..263da36 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -69,7 +69,7 @@ func Build(file *ast.File, fSet *token.FileSet, param *build.Param) error {
 	dst := NewGoWriter()
 	err := b.Node(dst, fSet, file)
 	if err != nil {
-		return err
+		return build.ErrorToFileError(err, fSet)
 	}
 
 	if 0 == len(dst.path) {
-- 
2.43.0


From 0c830742963539fb96ccefb2c656a9bfd4fae674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:56 +0000
Subject: [PATCH 104/109] fix: look up the formats of a bound method's
 parameter in the file of its data

---
 pkg/golang/server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 87c8cda..84efa9f 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -185,7 +185,8 @@ func (b *Builder) printServerShared(dst *build.Writer, typ *ast.ServerType) erro
 }
 
 func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, param string, bind *build.Binding, isSub bool) error {
-	verify, err := build.GetVerify(method.Param.Type().(*ast.Ident).Obj.Decl.(*ast.TypeSpec).Type.(*ast.DataType).Tags, dst.File, b.GetDataType)
+	data := method.Param.Type().(*ast.Ident).Obj.Decl.(*ast.TypeSpec).Type.(*ast.DataType)
+	verify, err := build.GetVerify(data.Tags, data.Name.Obj.Data.(*ast.File), b.GetDataType)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From be81c2ce390e23ebc0548578df717217e72fad93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:48 +0000
Subject: [PATCH 105/109] fix: write to the current directory, which is the
 output directory ., in every target

---
 pkg/dart/dart.go             | 2 +-
 pkg/java/java.go             | 2 +-
 pkg/typescript/typescript.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dart/dart.go b/pkg/dart/dart.go
index e9fe90e..7afecb2 100644
--- a/pkg/dart/dart.go
+++ b/pkg/dart/dart.go
@@ -67,7 +67,7 @@ func Build(file *ast.File, fset *token.FileSet, param *build.Param) error {
 	dir, name := filepath.Split(param.GetOut())
 	name = name[:len(name)-len(".hbuf")]
 
-	err = os.MkdirAll(dir, os.ModePerm)
+	err = os.MkdirAll(filepath.Clean(dir), os.ModePerm)
 	if err != nil {
 		return err
 	}
diff --git a/pkg/java/java.go b/pkg/java/java.go
index 036b9b8..f8d60b3 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -76,7 +76,7 @@ func Build(file *ast.File, fset *token.FileSet, param *build.Param) error {
 	dir, name := filepath.Split(param.GetOut())
 	name = build.StringToHumpName(name[:len(name)-len(".hbuf")])
 
-	err = os.MkdirAll(dir, os.ModePerm)
+	err = os.MkdirAll(filepath.Clean(dir), os.ModePerm)
 	if err != nil {
 		return err
 	}
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index 263da36..fcdd6a9 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -79,7 +79,7 @@ func Build(file *ast.File, fSet *token.FileSet, param *build.Param) error {
 	dir, name := filepath.Split(param.GetOut())
 	name = name[:len(name)-len(".hbuf")]
 
-	err = os.MkdirAll(dir, os.ModePerm)
+	err = os.MkdirAll(filepath.Clean(dir), os.ModePerm)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 0f1efea07d17b54a13cfd37c8dcdde6d99561a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:53 +0000
Subject: [PATCH 106/109] fix: report output that could not be written

---
 pkg/dart/dart.go             | 12 +++++++-----
 pkg/golang/gloang.go         | 18 ++++++++++--------
 pkg/java/java.go             | 12 +++++++-----
 pkg/typescript/typescript.go | 10 ++++++----
 4 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/pkg/dart/dart.go b/pkg/dart/dart.go
index 7afecb2..00af695 100644
--- a/pkg/dart/dart.go
+++ b/pkg/dart/dart.go
@@ -1,6 +1,7 @@
 package dart
 
 import (
+	"bufio"
 	"go/printer"
 	"hbuf/pkg/ast"
 	"hbuf/pkg/build"
@@ -150,7 +151,8 @@ func writerFile(data *build.Writer, out string) error {
 			print(err)
 		}
 	}(fc)
-	_, _ = fc.WriteString("// @dart = 2.12\n\n")
+	w := bufio.NewWriter(fc)
+	_, _ = w.WriteString("// @dart = 2.12\n\n")
 	if 0 < len(data.GetImports()) {
 		imps := make([]string, len(data.GetImports()))
 
@@ -161,13 +163,13 @@ func writerFile(data *build.Writer, out string) error {
 		}
 		sort.Strings(imps)
 		for _, val := range imps {
-			_, _ = fc.WriteString("import '" + val + "';\n")
+			_, _ = w.WriteString("import '" + val + "';\n")
 		}
 	}
-	_, _ = fc.WriteString("\n")
+	_, _ = w.WriteString("\n")
 
-	_, _ = fc.WriteString(data.GetCode().String())
-	return nil
+	_, _ = w.WriteString(data.GetCode().String())
+	return w.Flush()
 }
 
 func (b *Builder) Node(dst *DartWriter, fset *token.FileSet, node interface{}) error {
diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index 259dc3c..1d85d37 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -1,6 +1,7 @@
 package golang
 
 import (
+	"bufio"
 	"go/printer"
 	ast "hbuf/pkg/ast"
 	"hbuf/pkg/build"
@@ -149,11 +150,12 @@ func (b *Builder) writerFile(data *build.Writer, packages string, out string, i
 			print(err)
 		}
 	}(fc)
+	w := bufio.NewWriter(fc)
 
-	_, _ = fc.WriteString("package " + packages + "\n\n")
+	_, _ = w.WriteString("package " + packages + "\n\n")
 
 	if 0 < len(data.GetImports()) {
-		_, _ = fc.WriteString("import (\n")
+		_, _ = w.WriteString("import (\n")
 		imps := make([]string, len(data.GetImports()))
 
 		i := 0
@@ -164,17 +166,17 @@ func (b *Builder) writerFile(data *build.Writer, packages string, out string, i
 		sort.Strings(imps)
 		for _, val := range imps {
 			key := data.GetImports()[val]
-			_, _ = fc.WriteString("\t")
+			_, _ = w.WriteString("\t")
 			if 0 < len(key) {
-				_, _ = fc.WriteString(key + " ")
+				_, _ = w.WriteString(key + " ")
 			}
-			_, _ = fc.WriteString("\"" + val + "\"\n")
+			_, _ = w.WriteString("\"" + val + "\"\n")
 		}
-		_, _ = fc.WriteString(")\n\n")
+		_, _ = w.WriteString(")\n\n")
 	}
 	code := data.GetCode().String()
-	_, _ = fc.WriteString(code[:len(code)-1])
-	return nil
+	_, _ = w.WriteString(code[:len(code)-1])
+	return w.Flush()
 }
 
 func (b *Builder) Node(dst *GoWriter, fset *token.FileSet, node interface{}) error {
diff --git a/pkg/java/java.go b/pkg/java/java.go
index f8d60b3..5a1804b 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -1,6 +1,7 @@
 package java
 
 import (
+	"bufio"
 	"go/printer"
 	"hbuf/pkg/ast"
 	"hbuf/pkg/build"
@@ -146,8 +147,9 @@ func writerFile(data *build.Writer, packages string, out string) error {
 			print(err)
 		}
 	}(fc)
+	w := bufio.NewWriter(fc)
 
-	_, _ = fc.WriteString("package " + packages + ";\n\n")
+	_, _ = w.WriteString("package " + packages + ";\n\n")
 
 	if 0 < len(data.GetImports()) {
 		imps := make([]string, len(data.GetImports()))
@@ -159,12 +161,12 @@ func writerFile(data *build.Writer, packages string, out string) error {
 		}
 		sort.Strings(imps)
 		for _, val := range imps {
-			_, _ = fc.WriteString("import " + val + ";\n")
+			_, _ = w.WriteString("import " + val + ";\n")
 		}
 	}
-	_, _ = fc.WriteString("\n")
-	_, _ = fc.WriteString(data.GetCode().String())
-	return nil
+	_, _ = w.WriteString("\n")
+	_, _ = w.WriteString(data.GetCode().String())
+	return w.Flush()
 }
 
 func (b *Builder) Node(dst *JavaWriter, fset *token.FileSet, node interface{}) error {
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index fcdd6a9..fbce144 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -1,6 +1,7 @@
 package ts
 
 import (
+	"bufio"
 	"go/printer"
 	"hbuf/pkg/ast"
 	"hbuf/pkg/build"
@@ -168,6 +169,7 @@ func writerFile(data *build.Writer, out string) error {
 			print(err)
 		}
 	}(fc)
+	w := bufio.NewWriter(fc)
 	if 0 < len(data.GetImports()) {
 		imps := make([]string, len(data.GetImports()))
 
@@ -179,13 +181,13 @@ func writerFile(data *build.Writer, out string) error {
 		}
 		sort.Strings(imps)
 		for _, val := range imps {
-			_, _ = fc.WriteString("import " + temp[val] + " from \"" + val + "\"\n")
+			_, _ = w.WriteString("import " + temp[val] + " from \"" + val + "\"\n")
 		}
 	}
-	_, _ = fc.WriteString("\n")
+	_, _ = w.WriteString("\n")
 
-	_, _ = fc.WriteString(data.GetCode().String())
-	return nil
+	_, _ = w.WriteString(data.GetCode().String())
+	return w.Flush()
 }
 
 func (b *Builder) Node(dst *DartWriter, fset *token.FileSet, node interface{}) error {
-- 
2.43.0


From 73c753eae0b70a768004a789bd3937ba0317157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:15 +0000
Subject: [PATCH 107/109] fix: refuse a table or a key of a map that does not
 exist

---
 pkg/golang/database.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 24fefa5..7ecab1e 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -68,11 +68,11 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 	if 0 < len(dbs[0].Table) {
 		table := b.build.GetDataType(b.getFile(typ.Name), dbs[0].Table)
 		if nil == table {
-			return nil
+			return build.ErrorToFileError(build.NewError(typ.Name.Pos(), "Not find table: "+dbs[0].Table), b.fSet)
 		}
 		data, ok := table.Decl.(*ast.TypeSpec).Type.(*ast.DataType)
 		if !ok {
-			return nil
+			return build.ErrorToFileError(build.NewError(typ.Name.Pos(), "Not a valid table: "+dbs[0].Table), b.fSet)
 		}
 		typ = data
 		dbs, fields, key, err = b.getDBField(typ)
@@ -80,7 +80,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			return nil
 		}
 		if len(dbs) == 0 {
-			return nil
+			return build.ErrorToFileError(build.NewError(fType.Name.Pos(), "Not a valid table: "+fDbs[0].Table), b.fSet)
 		}
 	}
 
@@ -590,7 +590,7 @@ func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string
 func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, keyName string, c *cache) error {
 	kType, KName, ok := b.getKey(dst, fields, keyName)
 	if !ok {
-		return nil
+		return build.ErrorToFileError(build.NewError(fType.Name.Pos(), "Not find key: "+keyName), b.fSet)
 	}
 	fName := build.StringToHumpName(fType.Name.Name)
 	dName := build.StringToHumpName(typ.Name.Name)
-- 
2.43.0


From 75665f02becd5dffd8732609454069178e7da96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:39 +0000
Subject: [PATCH 108/109] fix: comments that begin with line do not break or
 move anything

---
 pkg/scanner/scanner.go | 84 ------------------------------------------
 1 file changed, 84 deletions(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 62be993..bc09e09 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -1,11 +1,9 @@
 package scanner
 
 import (
-	"bytes"
 	"fmt"
 	"hbuf/pkg/token"
 	"path/filepath"
-	"strconv"
 	"unicode"
 	"unicode/utf8"
 )
@@ -117,7 +115,6 @@ func (s *Scanner) errorf(offs int, format string, args ...interface{}) {
 func (s *Scanner) scanComment() string {
 	// initial '/' already consumed; s.ch == '/' || s.ch == '*'
 	offs := s.offset - 1 // position of initial '/'
-	next := -1           // position immediately following the comment; < 0 means invalid comment
 	numCR := 0
 
 	if s.ch == '/' {
@@ -130,11 +127,6 @@ func (s *Scanner) scanComment() string {
 			}
 			s.next()
 		}
-		// if we are at '\n', the position following the comment is afterwards
-		next = s.offset
-		if s.ch == '\n' {
-			next++
-		}
 		goto exit
 	}
 
@@ -148,7 +140,6 @@ func (s *Scanner) scanComment() string {
 		s.next()
 		if ch == '*' && s.ch == '/' {
 			s.next()
-			next = s.offset
 			goto exit
 		}
 	}
@@ -163,10 +154,6 @@ exit:
 		numCR--
 	}
 
-	if next >= 0 /* implies valid comment */ && (lit[1] == '*' || offs == s.lineOffset) && bytes.HasPrefix(lit[2:], prefix) {
-		s.updateLineInfo(next, offs, lit)
-	}
-
 	if numCR > 0 {
 		lit = stripCR(lit, lit[1] == '*')
 	}
@@ -174,77 +161,6 @@ exit:
 	return string(lit)
 }
 
-var prefix = []byte("line ")
-
-func (s *Scanner) updateLineInfo(next, offs int, text []byte) {
-	// extract comment text
-	if text[1] == '*' {
-		text = text[:len(text)-2] // lop off trailing "*/"
-	}
-	text = text[7:] // lop off leading "//line " or "/*line "
-	offs += 7
-
-	i, n, ok := trailingDigits(text)
-	if i == 0 {
-		return // ignore (not a line directive)
-	}
-	// i > 0
-
-	if !ok {
-		// text has a suffix :xxx but xxx is not a number
-		s.error(offs+i, "invalid line number: "+string(text[i:]))
-		return
-	}
-
-	var line, col int
-	i2, n2, ok2 := trailingDigits(text[:i-1])
-	if ok2 {
-		//line filename:line:col
-		i, i2 = i2, i
-		line, col = n2, n
-		if col == 0 {
-			s.error(offs+i2, "invalid column number: "+string(text[i2:]))
-			return
-		}
-		text = text[:i2-1] // lop off ":col"
-	} else {
-		//line filename:line
-		line = n
-	}
-
-	if line == 0 {
-		s.error(offs+i, "invalid line number: "+string(text[i:]))
-		return
-	}
-
-	// If we have a column (//line filename:line:col form),
-	// an empty filename means to use the previous filename.
-	filename := string(text[:i-1]) // lop off ":line", and trim white space
-	if filename == "" && ok2 {
-		filename = s.file.Position(s.file.Pos(offs)).Filename
-	} else if filename != "" {
-		// Put a relative filename in the current directory.
-		// This is for compatibility with earlier releases.
-		// See issue 26671.
-		filename = filepath.Clean(filename)
-		if !filepath.IsAbs(filename) {
-			filename = filepath.Join(s.dir, filename)
-		}
-	}
-
-	s.file.AddLineColumnInfo(next, filename, line, col)
-}
-
-func trailingDigits(text []byte) (int, int, bool) {
-	i := bytes.LastIndexByte(text, ':') // look from right (Windows filenames may contain ':')
-	if i < 0 {
-		return 0, 0, false // no ":"
-	}
-	// i >= 0
-	n, err := strconv.ParseUint(string(text[i+1:]), 10, 0)
-	return i + 1, int(n), err == nil
-}
-
 func (s *Scanner) findLineEnd() bool {
 	// initial '/' already consumed
 
-- 
2.43.0


From 76b3ddb1dd32512b75616a5bf4f7fda31d83c26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:57 +0000
Subject: [PATCH 109/109] fix: keep names that begin with a letter outside
 ASCII

---
 pkg/build/build.go    | 16 +++++++++++-----
 pkg/build/language.go |  5 ++---
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index d5fdab7..bde1d5e 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -8,6 +8,7 @@ import (
 	"path/filepath"
 	"regexp"
 	"strings"
+	"unicode/utf8"
 )
 
 type BaseType string
@@ -465,6 +466,12 @@ func CheckSuperMethod(name string, typ *ast.ServerType) bool {
 	return false
 }
 
+// firstToUpper The text with its first letter, which can be longer than a byte, in upper case
+func firstToUpper(val string) string {
+	_, size := utf8.DecodeRuneInString(val)
+	return strings.ToUpper(val[:size]) + val[size:]
+}
+
 // StringToHumpName 转驼峰名
 func StringToHumpName(val string) string {
 	if 0 == len(val) {
@@ -476,8 +483,7 @@ func StringToHumpName(val string) string {
 		if 0 == len(item) {
 			continue
 		}
-		ret += strings.ToUpper(item[:1])
-		ret += item[1:]
+		ret += firstToUpper(item)
 	}
 	return ret
 }
@@ -493,13 +499,13 @@ func StringToFirstLower(val string) string {
 		if 0 == len(item) {
 			continue
 		}
-		ret += strings.ToUpper(item[:1])
-		ret += item[1:]
+		ret += firstToUpper(item)
 	}
 	if 0 == len(ret) {
 		return ret
 	}
-	return strings.ToLower(ret[:1]) + ret[1:]
+	_, size := utf8.DecodeRuneInString(ret)
+	return strings.ToLower(ret[:size]) + ret[size:]
 }
 
 // StringToUnderlineName 下划线
diff --git a/pkg/build/language.go b/pkg/build/language.go
index 7865f78..4a2da9f 100644
--- a/pkg/build/language.go
+++ b/pkg/build/language.go
@@ -63,7 +63,7 @@ func GetLang(val string, key string, lanMap map[string]string) string {
 	rex := regexp.MustCompile(`[A-Z_]`)
 	match := rex.FindAllStringSubmatchIndex(val, -1)
 	if nil == match {
-		return strings.ToUpper(val[:1]) + strings.ToLower(val[1:])
+		return firstToUpper(strings.ToLower(val))
 	}
 	var ret string
 	var index = 0
@@ -76,8 +76,7 @@ func GetLang(val string, key string, lanMap map[string]string) string {
 			continue
 		}
 		if 0 == len(ret) {
-			ret += strings.ToUpper(temp[:1])
-			ret += strings.ToLower(temp[1:])
+			ret += firstToUpper(strings.ToLower(temp))
 		} else {
 			ret += " " + strings.ToLower(temp)
 		}
-- 
2.43.0


From 8bb3f12773b06437e3c58f586cdee3a70f881471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:55 +0000
Subject: [PATCH 01/47] fix: take request-field if, retry if, error message and
 ignore_and_response into account as variable references

A variable referenced only from one of these expressions was not considered a
dependency, so the definition could be evaluated before (or concurrently with)
the variable it uses and the request failed with an undeclared reference.
---
 resolver/def.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/resolver/def.go b/resolver/def.go
index 76ba0a4..0a96da8 100644
--- a/resolver/def.go
+++ b/resolver/def.go
@@ -235,6 +235,8 @@ func (e *VariableExpr) ReferenceNames() []string {
 // ReferenceNames returns all the unique reference names in the error definition.
 func (e *GRPCError) ReferenceNames() []string {
 	names := e.If.ReferenceNames()
+	names = append(names, e.Message.ReferenceNames()...)
+	names = append(names, e.IgnoreAndResponse.ReferenceNames()...)
 	for _, def := range e.DefSet.Definitions() {
 		names = append(names, def.ReferenceNames()...)
 	}
@@ -281,6 +283,10 @@ func (e *CallExpr) ReferenceNames() []string {
 	var names []string
 	for _, arg := range e.Request.Args {
 		names = append(names, arg.Value.ReferenceNames()...)
+		names = append(names, arg.If.ReferenceNames()...)
+	}
+	if e.Retry != nil {
+		names = append(names, e.Retry.If.ReferenceNames()...)
 	}
 	for _, grpcErr := range e.Errors {
 		names = append(names, grpcErr.ReferenceNames()...)
-- 
2.43.0


From 8b5b1c1e0eb062d7f3df04c9cf1b3504710c7d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:05 +0000
Subject: [PATCH 02/47] fix: do not take over the fields of an inlined message

The fields of a message passed with args { inline } were moved to the message
argument, so a field alias referring to one of them was silently ignored and
the aliased field was left unset.
---
 resolver/resolver.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index d25fee1..18fbccb 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -3792,7 +3792,10 @@ func (r *Resolver) resolveMessageArgumentFields(ctx *context, arg *Message, defs
 							}
 							continue
 						}
-						fields = append(fields, field)
+						// The owner of the field is replaced by the message argument,
+						// so the field must not be shared with the inlined message.
+						copied := *field
+						fields = append(fields, &copied)
 						evaluatedArgNameMap[field.Name] = field.Type
 					}
 				} else {
-- 
2.43.0


From 6b20bfb29f80ac9e7170b7815cebf6fc83ba915c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:08 +0000
Subject: [PATCH 03/47] fix: evaluate expressions that compare a message with
 null and use a macro

The expression rewritten for the comparison was unparsed, which fails with
'unsupported expression' when it contains a comprehension such as exists, all
or map. Check the rewritten expression directly instead.
---
 grpc/federation/cel.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/grpc/federation/cel.go b/grpc/federation/cel.go
index f884a0c..770c62e 100644
--- a/grpc/federation/cel.go
+++ b/grpc/federation/cel.go
@@ -11,12 +11,10 @@ import (
 	"sync"
 
 	"github.com/google/cel-go/cel"
-	celast "github.com/google/cel-go/common/ast"
 	"github.com/google/cel-go/common/operators"
 	celtypes "github.com/google/cel-go/common/types"
 	"github.com/google/cel-go/common/types/ref"
 	celext "github.com/google/cel-go/ext"
-	"github.com/google/cel-go/parser"
 	"golang.org/x/sync/singleflight"
 	exprpb "google.golang.org/genproto/googleapis/api/expr/v1alpha1"
 	"google.golang.org/genproto/googleapis/rpc/code"
@@ -787,15 +785,12 @@ func createCELAst(req *EvalCELRequest, env *cel.Env) (*cel.Ast, error) {
 		return nil, err
 	}
 	if newComparingNullResolver().Resolve(checkedExpr) {
-		ca, err := celast.ToAST(checkedExpr)
-		if err != nil {
-			return nil, err
-		}
-		expr, err = parser.Unparse(ca.Expr(), ca.SourceInfo())
-		if err != nil {
-			return nil, err
-		}
-		ast, iss = env.Compile(expr)
+		// Check the rewritten expression again instead of unparsing it,
+		// since an expression expanded from macros cannot be unparsed.
+		ast, iss = env.Check(cel.ParsedExprToAst(&exprpb.ParsedExpr{
+			Expr:       checkedExpr.GetExpr(),
+			SourceInfo: checkedExpr.GetSourceInfo(),
+		}))
 		if iss.Err() != nil {
 			return nil, iss.Err()
 		}
-- 
2.43.0


From 986a6f5ef95a6e8661b7a427d27313927c377da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:41 +0000
Subject: [PATCH 04/47] fix: never evaluate a definition twice

A goroutine that missed the cache just before the definition was completed by
another one started it again, which repeated its gRPC calls.
---
 grpc/federation/cel.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/grpc/federation/cel.go b/grpc/federation/cel.go
index 770c62e..6fc77fc 100644
--- a/grpc/federation/cel.go
+++ b/grpc/federation/cel.go
@@ -318,6 +318,12 @@ type singleflightCache struct {
 	resultMap map[string]*singleflightCacheResult
 }
 
+func (c *singleflightCache) get(name string) *singleflightCacheResult {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
+	return c.resultMap[name]
+}
+
 type singleflightCacheResult struct {
 	result any
 	err    error
@@ -370,13 +376,14 @@ type localValue interface {
 }
 
 func (v *LocalValue) do(name string, cb func() (any, error)) (any, error) {
-	v.sgCache.mu.RLock()
-	if cache, exists := v.sgCache.resultMap[name]; exists {
-		v.sgCache.mu.RUnlock()
+	if cache := v.sgCache.get(name); cache != nil {
 		return cache.result, cache.err
 	}
-	v.sgCache.mu.RUnlock()
 	ret, err, _ := v.sg.Do(name, func() (any, error) {
+		// The evaluation could have been completed by others after the cache was checked above.
+		if cache := v.sgCache.get(name); cache != nil {
+			return cache.result, cache.err
+		}
 		ret, err := cb()
 		v.sgCache.mu.Lock()
 		v.sgCache.resultMap[name] = &singleflightCacheResult{
-- 
2.43.0


From b1826b3426677bf06263d7c93fd3437da7b438b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:55 +0000
Subject: [PATCH 05/47] fix: collect dependent methods, custom resolvers and
 services of every definition of a message

---
 generator/code_generator.go | 45 ++++++-------------------------------
 resolver/message.go         | 10 ++++-----
 2 files changed, 11 insertions(+), 44 deletions(-)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index eb04e6d..d16f401 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -1585,54 +1585,23 @@ func (s *Service) dependentMethods(msg *resolver.Message) []*DependentMethod {
 		return nil
 	}
 	var ret []*DependentMethod
-	for _, varDef := range msg.Rule.DefSet.Definitions() {
+	for _, varDef := range msg.AllVariableDefinitions() {
 		if varDef.Expr == nil {
 			continue
 		}
 
 		expr := varDef.Expr
-		if expr.Call != nil {
-			if expr.Call.Method != nil {
-				method := expr.Call.Method
-				ret = append(ret, &DependentMethod{
-					Name: fmt.Sprintf("%s_%s", fullServiceName(method.Service), method.Name),
-					FQDN: "/" + method.FQDN(),
-				})
-			}
-			continue
+		if expr.Call != nil && expr.Call.Method != nil {
+			method := expr.Call.Method
+			ret = append(ret, &DependentMethod{
+				Name: fmt.Sprintf("%s_%s", fullServiceName(method.Service), method.Name),
+				FQDN: "/" + method.FQDN(),
+			})
 		}
-
 		for _, msgExpr := range varDef.MessageExprs() {
 			ret = append(ret, s.dependentMethods(msgExpr.Message)...)
 		}
 	}
-	for _, field := range msg.Fields {
-		if field.Rule == nil {
-			continue
-		}
-		if field.Rule.Oneof == nil {
-			continue
-		}
-		for _, varDef := range field.Rule.Oneof.DefSet.Definitions() {
-			if varDef.Expr == nil {
-				continue
-			}
-			expr := varDef.Expr
-			if expr.Call != nil {
-				if expr.Call.Method != nil {
-					method := expr.Call.Method
-					ret = append(ret, &DependentMethod{
-						Name: fmt.Sprintf("%s_%s", fullServiceName(method.Service), method.Name),
-						FQDN: "/" + method.FQDN(),
-					})
-				}
-				continue
-			}
-			for _, msgExpr := range varDef.MessageExprs() {
-				ret = append(ret, s.dependentMethods(msgExpr.Message)...)
-			}
-		}
-	}
 	return ret
 }
 
diff --git a/resolver/message.go b/resolver/message.go
index bb7ab5d..1d213a8 100644
--- a/resolver/message.go
+++ b/resolver/message.go
@@ -543,10 +543,8 @@ func (m *Message) CustomResolvers() []*CustomResolver {
 			})
 		}
 	}
-	for _, group := range m.Rule.DefSet.DefinitionGroups() {
-		for _, def := range group.VariableDefinitions() {
-			ret = append(ret, m.customResolvers(def)...)
-		}
+	for _, def := range m.AllVariableDefinitions() {
+		ret = append(ret, m.customResolvers(def)...)
 	}
 	return ret
 }
@@ -650,10 +648,10 @@ func dependServicesByDefinition(def *VariableDefinition, defMap map[*VariableDef
 	if expr == nil {
 		return nil
 	}
+	var ret []*Service
 	if expr.Call != nil {
-		return []*Service{expr.Call.Method.Service}
+		ret = append(ret, expr.Call.Method.Service)
 	}
-	var ret []*Service
 	for _, msgExpr := range def.MessageExprs() {
 		if msgExpr.Message != nil {
 			ret = append(ret, msgExpr.Message.dependServices(defMap)...)
-- 
2.43.0


From 603f191406d8193a39c4a70db0085b5edb5b18b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:01 +0000
Subject: [PATCH 06/47] fix: declare every conversion a message alias needs and
 scope the definitions of error blocks

---
 generator/code_generator.go               | 60 ++++++++++++++++-------
 generator/templates/cast.go.tmpl          |  6 ++-
 generator/templates/error_handler.go.tmpl |  8 ++-
 resolver/type_conversion.go               | 14 +++++-
 4 files changed, 67 insertions(+), 21 deletions(-)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index d16f401..29d9551 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -2196,6 +2196,11 @@ type CastStructField struct {
 	FromFieldName string
 	CastName      string
 	RequiredCast  bool
+	// FromOneofName and FromOneofType are set if the presence of the source field can be known only by the type of the oneof value.
+	FromOneofName string
+	FromOneofType string
+	// ToOneofType is set if the value needs to be wrapped by the oneof type.
+	ToOneofType string
 }
 
 func (f *CastField) ToStruct() *CastStruct {
@@ -2225,6 +2230,14 @@ func (f *CastField) ToStruct() *CastStruct {
 			if field == nil {
 				continue
 			}
+			fromField := f.fromField(toField, fromMsg)
+			if fromField.Oneof != nil && (fromField.Type.Kind != types.Message || fromField.Type.Repeated) {
+				field.FromOneofName = util.ToPublicGoVariable(fromField.Oneof.Name)
+				field.FromOneofType = f.oneofTypeName(fromField)
+			}
+			if !field.RequiredCast {
+				field.ToOneofType = f.oneofTypeName(toField)
+			}
 			fields = append(fields, field)
 		}
 		castOneofStructs = append(castOneofStructs, &CastOneofStruct{
@@ -2251,24 +2264,7 @@ func (f *CastField) ToStruct() *CastStruct {
 }
 
 func (f *CastField) toStructField(toField *resolver.Field, fromMsg *resolver.Message) *CastStructField {
-	if toField.HasRule() && len(toField.Rule.Aliases) != 0 {
-		for _, alias := range toField.Rule.Aliases {
-			if fromMsg != alias.Message {
-				continue
-			}
-			fromField := alias
-			fromType := fromField.Type
-			toType := toField.Type
-			requiredCast := requiredCast(fromType, toType)
-			return &CastStructField{
-				ToFieldName:   util.ToPublicGoVariable(toField.Name),
-				FromFieldName: util.ToPublicGoVariable(fromField.Name),
-				RequiredCast:  requiredCast,
-				CastName:      castFuncName(fromType, toType),
-			}
-		}
-	}
-	fromField := fromMsg.Field(toField.Name)
+	fromField := f.fromField(toField, fromMsg)
 	if fromField == nil {
 		return nil
 	}
@@ -2283,6 +2279,34 @@ func (f *CastField) toStructField(toField *resolver.Field, fromMsg *resolver.Mes
 	}
 }
 
+func (f *CastField) fromField(toField *resolver.Field, fromMsg *resolver.Message) *resolver.Field {
+	if toField.HasRule() {
+		for _, alias := range toField.Rule.Aliases {
+			if fromMsg == alias.Message {
+				return alias
+			}
+		}
+	}
+	return fromMsg.Field(toField.Name)
+}
+
+// oneofTypeName returns the Go type name of the struct which wraps the value of the oneof field.
+func (f *CastField) oneofTypeName(field *resolver.Field) string {
+	msg := field.Oneof.Message
+	var names []string
+	for _, n := range append(msg.ParentMessageNames(), msg.Name, field.Name) {
+		names = append(names, util.ToPublicGoVariable(n))
+	}
+	name := strings.Join(names, "_")
+	if of := field.Type.OneofField; of != nil && of.IsConflict() {
+		name += "_"
+	}
+	if f.service.GoPackage().ImportPath != msg.GoPackage().ImportPath {
+		name = fmt.Sprintf("%s.%s", f.file.getAlias(msg.GoPackage()), name)
+	}
+	return name
+}
+
 type CastOneof struct {
 	Name         string
 	FieldName    string
diff --git a/generator/templates/cast.go.tmpl b/generator/templates/cast.go.tmpl
index deb92ea..8ea0656 100644
--- a/generator/templates/cast.go.tmpl
+++ b/generator/templates/cast.go.tmpl
@@ -49,14 +49,18 @@ switch {
 	{{ $name := .Name }}
 	{{- $localName := toLocalVariable $name }}
 	{{- range .Fields }}
+	{{- if .FromOneofType }}
+	case func() bool { _, ok := from.Get{{ .FromOneofName }}().(*{{ .FromOneofType }}); return ok }():
+	{{- else }}
 	case from.Get{{ .FromFieldName }}() != nil:
+	{{- end }}
 	{{- if .RequiredCast }}
 	{{ $localName }}, err := s.{{ .CastName }}(from.Get{{ .FromFieldName }}())
 	if err != nil {
 		return nil, err
 	}
 	{{- else }}
-	{{ $localName }} := from.Get{{ .FromFieldName }}()
+	{{ $localName }} := &{{ .ToOneofType }}{ {{ .ToFieldName }}: from.Get{{ .FromFieldName }}() }
 	{{- end }}
 	ret.{{ $name }} = {{ $localName }}
 	{{- end }}
diff --git a/generator/templates/error_handler.go.tmpl b/generator/templates/error_handler.go.tmpl
index f856eaf..8e6b85a 100644
--- a/generator/templates/error_handler.go.tmpl
+++ b/generator/templates/error_handler.go.tmpl
@@ -31,10 +31,16 @@ type localStatusType struct {
 }
 stat, handleErr := func() (*localStatusType, error) {
 	var stat *grpcfed.Status
-	{{- range $grpcErrors }}
+	{{- range $errIdx, $grpcError := $grpcErrors }}
 	{{- $logLevel := .LogLevelValue }}
 	{{- if .VariableDefinitionSet }}
+	{{- if $errIdx }}
+	{ // the definitions of each error must not conflict with the ones of the previous errors.
+	{{- end }}
 	{{- template "evalDefSet" .VariableDefinitionSet }}
+	{{- if $errIdx }}
+	}
+	{{- end }}
 	{{- end }}
 	if err := grpcfed.If(ctx, &grpcfed.IfParam[*localValueType]{
 		Value: value,
diff --git a/resolver/type_conversion.go b/resolver/type_conversion.go
index 007adc5..3db7e20 100644
--- a/resolver/type_conversion.go
+++ b/resolver/type_conversion.go
@@ -70,7 +70,7 @@ func typeConversionDecls(fromType, toType *Type, convertedFQDNMap map[string]str
 		}
 		decls = append(decls, &TypeConversionDecl{From: fromType, To: toType})
 		for _, field := range toType.Message.Fields {
-			fromField := fromType.Message.Field(field.Name)
+			fromField := typeConversionSourceField(fromType.Message, field)
 			if fromField == nil {
 				continue
 			}
@@ -82,6 +82,18 @@ func typeConversionDecls(fromType, toType *Type, convertedFQDNMap map[string]str
 	return decls
 }
 
+// typeConversionSourceField returns the field of fromMsg whose value is assigned to toField.
+func typeConversionSourceField(fromMsg *Message, toField *Field) *Field {
+	if toField.Rule != nil {
+		for _, alias := range toField.Rule.Aliases {
+			if alias.Message == fromMsg {
+				return alias
+			}
+		}
+	}
+	return fromMsg.Field(toField.Name)
+}
+
 func enumSelectorTypeConversionDecls(msg *Message, toType *Type, convertedFQDNMap map[string]struct{}) []*TypeConversionDecl {
 	var decls []*TypeConversionDecl
 	if msg.IsEnumSelector() {
-- 
2.43.0


From 2f1a659a3859e3f28936cd5bb7cede6b5dde0c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:09 +0000
Subject: [PATCH 07/47] fix: give the variables of every error of a call a name
 of their own

---
 resolver/context.go  | 18 ++++++++++++++++++
 resolver/resolver.go |  8 ++++----
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/resolver/context.go b/resolver/context.go
index d6742a0..f003484 100644
--- a/resolver/context.go
+++ b/resolver/context.go
@@ -1,5 +1,7 @@
 package resolver
 
+import "fmt"
+
 type context struct {
 	errorBuilder *errorBuilder
 	allWarnings  *allWarnings
@@ -8,6 +10,7 @@ type context struct {
 	enum         *Enum
 	plugin       *CELPlugin
 	defIdx       int
+	errIdx       int
 	errDetailIdx int
 	variableMap  map[string]*VariableDefinition
 }
@@ -34,6 +37,7 @@ func (c *context) clone() *context {
 		plugin:       c.plugin,
 		defIdx:       c.defIdx,
 
+		errIdx:       c.errIdx,
 		errDetailIdx: c.errDetailIdx,
 		variableMap:  c.variableMap,
 	}
@@ -69,6 +73,12 @@ func (c *context) withPlugin(plugin *CELPlugin) *context {
 	return ctx
 }
 
+func (c *context) withErrIndex(idx int) *context {
+	ctx := c.clone()
+	ctx.errIdx = idx
+	return ctx
+}
+
 func (c *context) withErrDetailIndex(idx int) *context {
 	ctx := c.clone()
 	ctx.errDetailIdx = idx
@@ -116,6 +126,14 @@ func (c *context) defIndex() int {
 	return c.defIdx
 }
 
+// errVariablePrefix returns the prefix of the names given to the variables of the error being resolved.
+func (c *context) errVariablePrefix() string {
+	if c.errIdx == 0 {
+		return fmt.Sprintf("_def%d", c.defIndex())
+	}
+	return fmt.Sprintf("_def%d_err%d", c.defIndex(), c.errIdx)
+}
+
 func (c *context) errDetailIndex() int {
 	return c.errDetailIdx
 }
diff --git a/resolver/resolver.go b/resolver/resolver.go
index 18fbccb..0fa5537 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -2650,7 +2650,7 @@ func (r *Resolver) resolveCallExpr(ctx *context, def *federation.CallExpr, build
 
 	var grpcErrs []*GRPCError
 	for idx, grpcErr := range def.GetError() {
-		grpcErrs = append(grpcErrs, r.resolveGRPCError(ctx, grpcErr, builder.WithError(idx)))
+		grpcErrs = append(grpcErrs, r.resolveGRPCError(ctx.withErrIndex(idx), grpcErr, builder.WithError(idx)))
 	}
 	return &CallExpr{
 		Method:  method,
@@ -2713,7 +2713,7 @@ func (r *Resolver) resolveGRPCError(ctx *context, def *federation.GRPCError, bui
 	for idx, errDef := range def.GetDef() {
 		name := errDef.GetName()
 		if name == "" {
-			n := fmt.Sprintf("_def%d_def%d", ctx.defIndex(), idx)
+			n := fmt.Sprintf("%s_def%d", ctx.errVariablePrefix(), idx)
 			errDef.Name = &n
 		} else {
 			if err := r.validateName(name); err != nil {
@@ -2776,7 +2776,7 @@ func (r *Resolver) resolveGRPCErrorDetails(ctx *context, details []*federation.G
 		for idx, errDetailDef := range detail.GetDef() {
 			name := errDetailDef.GetName()
 			if name == "" {
-				n := fmt.Sprintf("_def%d_err_detail%d_def%d", ctx.defIndex(), ctx.errDetailIndex(), idx)
+				n := fmt.Sprintf("%s_err_detail%d_def%d", ctx.errVariablePrefix(), ctx.errDetailIndex(), idx)
 				errDetailDef.Name = &n
 			} else {
 				if err := r.validateName(name); err != nil {
@@ -2816,7 +2816,7 @@ func (r *Resolver) resolveGRPCDetailMessages(ctx *context, messages []*federatio
 	}
 	msgs := make([]*federation.VariableDefinition, 0, len(messages))
 	for idx, message := range messages {
-		name := fmt.Sprintf("_def%d_err_detail%d_msg%d", ctx.defIndex(), ctx.errDetailIndex(), idx)
+		name := fmt.Sprintf("%s_err_detail%d_msg%d", ctx.errVariablePrefix(), ctx.errDetailIndex(), idx)
 		msgs = append(msgs, &federation.VariableDefinition{
 			Name: &name,
 			Expr: &federation.VariableDefinition_Message{
-- 
2.43.0


From 31839392501a89b753cad2ca43c4c3a9b8b9f733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:24 +0000
Subject: [PATCH 08/47] fix: take the enum of a map definition into account as
 variable references

---
 resolver/def.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resolver/def.go b/resolver/def.go
index 0a96da8..5413fe3 100644
--- a/resolver/def.go
+++ b/resolver/def.go
@@ -323,6 +323,8 @@ func (e *MapIteratorExpr) ReferenceNames() []string {
 		names = append(names, e.By.ReferenceNames()...)
 	case e.Message != nil:
 		names = append(names, e.Message.ReferenceNames()...)
+	case e.Enum != nil:
+		names = append(names, e.Enum.ReferenceNames()...)
 	}
 	return toUniqueReferenceNames(names)
 }
-- 
2.43.0


From 2378a30aa42a29ada43bd527eafdcf6d1460d180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:57 +0000
Subject: [PATCH 09/47] fix: do not evaluate a definition again after a panic

---
 grpc/federation/cel.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/grpc/federation/cel.go b/grpc/federation/cel.go
index 6fc77fc..cb501ae 100644
--- a/grpc/federation/cel.go
+++ b/grpc/federation/cel.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"log/slog"
 	"reflect"
+	"runtime/debug"
 	"sort"
 	"strings"
 	"sync"
@@ -379,19 +380,24 @@ func (v *LocalValue) do(name string, cb func() (any, error)) (any, error) {
 	if cache := v.sgCache.get(name); cache != nil {
 		return cache.result, cache.err
 	}
-	ret, err, _ := v.sg.Do(name, func() (any, error) {
+	ret, err, _ := v.sg.Do(name, func() (ret any, err error) {
 		// The evaluation could have been completed by others after the cache was checked above.
 		if cache := v.sgCache.get(name); cache != nil {
 			return cache.result, cache.err
 		}
-		ret, err := cb()
-		v.sgCache.mu.Lock()
-		v.sgCache.resultMap[name] = &singleflightCacheResult{
-			result: ret,
-			err:    err,
-		}
-		v.sgCache.mu.Unlock()
-		return ret, err
+		defer func() {
+			// The result must be kept in case of a panic too, otherwise others evaluate the definition again.
+			if r := recover(); r != nil {
+				err = RecoverError(r, debug.Stack())
+			}
+			v.sgCache.mu.Lock()
+			v.sgCache.resultMap[name] = &singleflightCacheResult{
+				result: ret,
+				err:    err,
+			}
+			v.sgCache.mu.Unlock()
+		}()
+		return cb()
 	})
 	return ret, err
 }
-- 
2.43.0


From bff3c3711d0d348e872db8d5cd2bc2fe3a74e3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:52 +0000
Subject: [PATCH 10/47] fix: stop waiting for the next attempt of a call when
 its context is done

---
 grpc/federation/lib.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grpc/federation/lib.go b/grpc/federation/lib.go
index 3a58c24..d29584b 100644
--- a/grpc/federation/lib.go
+++ b/grpc/federation/lib.go
@@ -115,7 +115,7 @@ func WithRetry[T any](ctx context.Context, param *RetryParam[T]) (*T, error) {
 		}
 		res = result
 		return nil
-	}, param.BackOff); err != nil {
+	}, backoff.WithContext(param.BackOff, ctx)); err != nil {
 		return nil, err
 	}
 	return res, nil
-- 
2.43.0


From 15b41dadab54315c856c4af59e33e89f956d0eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:52 +0000
Subject: [PATCH 11/47] fix: handle the errors of a call that have no status

---
 grpc/federation/alias.go | 1 -
 grpc/federation/cel.go   | 2 +-
 grpc/federation/error.go | 9 +++++++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/grpc/federation/alias.go b/grpc/federation/alias.go
index 9c17c5e..f88d890 100644
--- a/grpc/federation/alias.go
+++ b/grpc/federation/alias.go
@@ -38,7 +38,6 @@ var (
 	Getenv                = os.Getenv
 	GRPCErrorf            = status.Errorf
 	NewGRPCStatus         = status.New
-	GRPCStatusFromError   = status.FromError
 	ErrorGroupWithContext = errgroup.WithContext
 	NewCELEnv             = cel.NewCustomEnv
 	NewCELVariable        = cel.Variable
diff --git a/grpc/federation/cel.go b/grpc/federation/cel.go
index cb501ae..57fd3b6 100644
--- a/grpc/federation/cel.go
+++ b/grpc/federation/cel.go
@@ -824,7 +824,7 @@ func setCELProgramCache(ctx context.Context, cacheIndex int, program cel.Program
 }
 
 func SetGRPCError(ctx context.Context, value localValue, err error) {
-	stat, ok := grpcstatus.FromError(err)
+	stat, ok := GRPCStatusFromError(err)
 	if !ok {
 		return
 	}
diff --git a/grpc/federation/error.go b/grpc/federation/error.go
index 466cbd8..3f9b9b4 100644
--- a/grpc/federation/error.go
+++ b/grpc/federation/error.go
@@ -16,6 +16,15 @@ import (
 // If an error occurs during method execution in the Federation Service, this error handler is called and the returned error is treated as a final error.
 type ErrorHandler func(ctx context.Context, methodName string, err error) error
 
+// GRPCStatusFromError returns the status of err.
+// An error which has no status is never regarded as success: it is converted in the same way as gRPC does for the error returned by a method.
+func GRPCStatusFromError(err error) (*Status, bool) {
+	if stat, ok := grpcstatus.FromError(err); ok {
+		return stat, true
+	}
+	return grpcstatus.FromContextError(err), true
+}
+
 // RecoveredError represents recovered error.
 type RecoveredError struct {
 	Message string
-- 
2.43.0


From e9ff51280d255d8f0b5e845017a27cb9db3cae7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:35 +0000
Subject: [PATCH 12/47] fix: give a call whose retry was interrupted by its
 context a status

---
 grpc/federation/lib.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/grpc/federation/lib.go b/grpc/federation/lib.go
index d29584b..e1854bb 100644
--- a/grpc/federation/lib.go
+++ b/grpc/federation/lib.go
@@ -2,6 +2,7 @@ package federation
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"reflect"
 	"runtime/debug"
@@ -116,6 +117,10 @@ func WithRetry[T any](ctx context.Context, param *RetryParam[T]) (*T, error) {
 		res = result
 		return nil
 	}, backoff.WithContext(param.BackOff, ctx)); err != nil {
+		if ctxErr := ctx.Err(); ctxErr != nil && errors.Is(err, ctxErr) {
+			// given up waiting for the next attempt.
+			return nil, grpcstatus.FromContextError(err).Err()
+		}
 		return nil, err
 	}
 	return res, nil
-- 
2.43.0


From efeaaee6900fbf599566321d0146fd78fbd9f5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:28 +0000
Subject: [PATCH 13/47] fix: pass the context only to the functions that
 require it

An environment has one macro per method name: of the functions of all libraries
and plugins with the same name only the one declared last worked, and standard
member functions such as contains, split or join could not be used at all.
---
 grpc/federation/cel/bind.go | 74 ++++++++++++++++++++++++++-----------
 1 file changed, 52 insertions(+), 22 deletions(-)

diff --git a/grpc/federation/cel/bind.go b/grpc/federation/cel/bind.go
index 030d404..94f3971 100644
--- a/grpc/federation/cel/bind.go
+++ b/grpc/federation/cel/bind.go
@@ -6,6 +6,8 @@ import (
 
 	"github.com/google/cel-go/cel"
 	"github.com/google/cel-go/common/ast"
+	"github.com/google/cel-go/common/containers"
+	"github.com/google/cel-go/common/decls"
 	"github.com/google/cel-go/common/types/ref"
 )
 
@@ -25,21 +27,8 @@ func BindFunction(name string, opts ...BindFunctionOpt) []cel.EnvOption {
 		celOpts = append(celOpts, opt.FunctionOpt)
 	}
 	return []cel.EnvOption{
-		cel.Macros(cel.ReceiverVarArgMacro(funcName, func(mef cel.MacroExprFactory, target ast.Expr, args []ast.Expr) (ast.Expr, *cel.Error) {
-			sel := toSelectorName(target)
-			fqdn := funcName
-			if sel != "" {
-				fqdn = sel + "." + funcName
-			}
-			var argsWithCtx []ast.Expr
-			if len(args) > 0 && args[0].AsIdent() == ContextVariableName {
-				argsWithCtx = args
-			} else {
-				argsWithCtx = append([]ast.Expr{mef.NewIdent(ContextVariableName)}, args...)
-			}
-			return mef.NewCall(fqdn, argsWithCtx...), nil
-		})),
 		cel.Function(name, celOpts...),
+		contextMacro(funcName),
 	}
 }
 
@@ -49,17 +38,58 @@ func BindMemberFunction(name string, opts ...BindMemberFunctionOpt) []cel.EnvOpt
 		celOpts = append(celOpts, opt.FunctionOpt)
 	}
 	return []cel.EnvOption{
-		cel.Macros(cel.ReceiverVarArgMacro(name, func(mef cel.MacroExprFactory, target ast.Expr, args []ast.Expr) (ast.Expr, *cel.Error) {
-			var argsWithCtx []ast.Expr
+		cel.Function(name, celOpts...),
+		contextMacro(name),
+	}
+}
+
+// contextMacro passes the context value to the functions and member functions called funcName
+// that were declared by BindFunction and BindMemberFunction.
+// Since an environment can only have one macro per name, the macro must work for every function with that name:
+// the call is left as it is unless the environment has a function which requires the context.
+func contextMacro(funcName string) cel.EnvOption {
+	return func(env *cel.Env) (*cel.Env, error) {
+		macro := cel.ReceiverVarArgMacro(funcName, func(mef cel.MacroExprFactory, target ast.Expr, args []ast.Expr) (ast.Expr, *cel.Error) {
 			if len(args) > 0 && args[0].AsIdent() == ContextVariableName {
-				argsWithCtx = args
-			} else {
-				argsWithCtx = append([]ast.Expr{mef.NewIdent(ContextVariableName)}, args...)
+				return nil, nil
 			}
-			return mef.NewMemberCall(name, target, argsWithCtx...), nil
-		})),
-		cel.Function(name, celOpts...),
+			argsWithCtx := append([]ast.Expr{mef.NewIdent(ContextVariableName)}, args...)
+			if sel, ok := containers.ToQualifiedName(target); ok {
+				fqdn := sel + "." + funcName
+				for _, name := range env.Container.ResolveCandidateNames(fqdn) {
+					if fn, exists := env.Functions()[name]; exists {
+						if !requiresContext(fn, false) {
+							return nil, nil
+						}
+						return mef.NewCall(fqdn, argsWithCtx...), nil
+					}
+				}
+			}
+			if fn, exists := env.Functions()[funcName]; exists && requiresContext(fn, true) {
+				return mef.NewMemberCall(funcName, target, argsWithCtx...), nil
+			}
+			return nil, nil
+		})
+		return cel.Macros(macro)(env)
+	}
+}
+
+// requiresContext reports whether fn has an overload whose first argument (except the receiver) is the context value.
+func requiresContext(fn *decls.FunctionDecl, isMember bool) bool {
+	idx := 0
+	if isMember {
+		idx = 1
+	}
+	for _, overload := range fn.OverloadDecls() {
+		if overload.IsMemberFunction() != isMember {
+			continue
+		}
+		args := overload.ArgTypes()
+		if len(args) > idx && args[idx].TypeName() == ContextTypeName {
+			return true
+		}
 	}
+	return false
 }
 
 func OverloadFunc(name string, args []*cel.Type, result *cel.Type, cb func(ctx context.Context, values ...ref.Val) ref.Val) BindFunctionOpt {
-- 
2.43.0


From 088a6b2e22d7e8cde1bb1d81bcfbfa2ee953aa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:00 +0000
Subject: [PATCH 14/47] fix: report the messages of library and plugin errors
 as they are

types.NewErr takes a format: a percent sign in the message was garbled.
---
 grpc/federation/cel/plugin.go  |  10 ++--
 grpc/federation/cel/strings.go |  18 +++---
 grpc/federation/cel/time.go    | 102 ++++++++++++++++-----------------
 grpc/federation/cel/url.go     |  18 +++---
 grpc/federation/cel/uuid.go    |   4 +-
 5 files changed, 76 insertions(+), 76 deletions(-)

diff --git a/grpc/federation/cel/plugin.go b/grpc/federation/cel/plugin.go
index a3a2203..835d861 100644
--- a/grpc/federation/cel/plugin.go
+++ b/grpc/federation/cel/plugin.go
@@ -319,7 +319,7 @@ func (i *CELPluginInstance) Call(ctx context.Context, fn *CELFunction, md metada
 	defer i.mu.Unlock()
 
 	if err := i.sendRequest(fn, md, args...); err != nil {
-		return types.NewErr(err.Error())
+		return types.NewErr("%s", err.Error())
 	}
 	return i.recvResponse(fn)
 }
@@ -353,15 +353,15 @@ func (i *CELPluginInstance) sendRequest(fn *CELFunction, md metadata.MD, args ..
 func (i *CELPluginInstance) recvResponse(fn *CELFunction) ref.Val {
 	content, err := i.recvContent()
 	if err != nil {
-		return types.NewErr(err.Error())
+		return types.NewErr("%s", err.Error())
 	}
 
 	var res plugin.CELPluginResponse
 	if err := protojson.Unmarshal([]byte(content), &res); err != nil {
-		return types.NewErr(fmt.Sprintf("grpc-federation: failed to decode response: %s", err.Error()))
+		return types.NewErr("grpc-federation: failed to decode response: %s", err.Error())
 	}
 	if res.Error != "" {
-		return types.NewErr(res.Error)
+		return types.NewErr("%s", res.Error)
 	}
 	return i.celPluginValueToRef(fn, fn.Return, res.Value)
 }
@@ -509,7 +509,7 @@ func (i *CELPluginInstance) celPluginValueToRef(fn *CELFunction, typ *cel.Type,
 	case types.DoubleKind:
 		return types.Double(v.GetDouble())
 	case types.ErrorKind:
-		return types.NewErr(v.GetString_())
+		return types.NewErr("%s", v.GetString_())
 	case types.IntKind:
 		return types.Int(v.GetInt64())
 	case types.StringKind:
diff --git a/grpc/federation/cel/strings.go b/grpc/federation/cel/strings.go
index 8b7e164..d08619c 100644
--- a/grpc/federation/cel/strings.go
+++ b/grpc/federation/cel/strings.go
@@ -534,7 +534,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					i, err := strconv.Atoi(args[0].(types.String).Value().(string))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.Int(i)
 				},
@@ -630,7 +630,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					b, err := strconv.ParseBool(args[0].(types.String).Value().(string))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.Bool(b)
 				},
@@ -642,7 +642,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					c, err := strconv.ParseComplex(args[0].(types.String).Value().(string), int(args[1].(types.Int).Value().(int64)))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.NewDynamicList(types.DefaultTypeAdapter, []ref.Val{types.Double(real(c)), types.Double(imag(c))})
 				},
@@ -654,7 +654,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					f, err := strconv.ParseFloat(args[0].(types.String).Value().(string), int(args[1].(types.Int).Value().(int64)))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.Double(f)
 				},
@@ -666,7 +666,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					i, err := strconv.ParseInt(args[0].(types.String).Value().(string), int(args[1].(types.Int).Value().(int64)), int(args[2].(types.Int).Value().(int64)))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.Int(i)
 				},
@@ -678,7 +678,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					u, err := strconv.ParseUint(args[0].(types.String).Value().(string), int(args[1].(types.Int).Value().(int64)), int(args[2].(types.Int).Value().(int64)))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.Uint(u)
 				},
@@ -738,7 +738,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					s, err := strconv.QuotedPrefix(args[0].(types.String).Value().(string))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.String(s)
 				},
@@ -750,7 +750,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					s, err := strconv.Unquote(args[0].(types.String).Value().(string))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.String(s)
 				},
@@ -762,7 +762,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					s, b, t, err := strconv.UnquoteChar(args[0].(types.String).Value().(string), args[1].(types.String).Value().(string)[0])
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.NewDynamicList(types.DefaultTypeAdapter, []ref.Val{types.String(s), types.Bool(b), types.String(t)})
 				},
diff --git a/grpc/federation/cel/time.go b/grpc/federation/cel/time.go
index 958134b..fd10bc5 100644
--- a/grpc/federation/cel/time.go
+++ b/grpc/federation/cel/time.go
@@ -241,7 +241,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					d, err := time.ParseDuration(string(args[0].(types.String)))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.Duration{Duration: d}
 				},
@@ -253,7 +253,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(args[0])
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.Duration{
 						Duration: time.Since(v),
@@ -267,7 +267,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(args[0])
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.Duration{
 						Duration: time.Until(v),
@@ -396,7 +396,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					loc, err := time.LoadLocation(string(args[0].(types.String)))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return lib.toLocationValue(loc.String(), 0)
 				},
@@ -408,7 +408,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					loc, err := time.LoadLocationFromTZData(string(args[0].(types.String)), []byte(args[1].(types.Bytes)))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return lib.toLocationValue(loc.String(), 0)
 				},
@@ -420,7 +420,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					loc, err := self.Value().(*Location).GoLocation()
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.String(loc.String())
 				},
@@ -447,7 +447,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					loc, err := args[7].Value().(*Location).GoLocation()
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return lib.toTimeValue(
 						time.Date(
@@ -478,7 +478,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					t, err := time.Parse(string(args[0].(types.String)), string(args[1].(types.String)))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return lib.toTimeValue(t)
 				},
@@ -490,11 +490,11 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					loc, err := args[2].Value().(*Location).GoLocation()
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					t, err := time.ParseInLocation(string(args[0].(types.String)), string(args[1].(types.String)), loc)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return lib.toTimeValue(t)
 				},
@@ -530,7 +530,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return lib.toTimeValue(
 						v.Add(time.Duration(args[0].(types.Int))),
@@ -541,7 +541,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return lib.toTimeValue(
 						v.Add(args[0].(types.Duration).Duration),
@@ -555,7 +555,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return lib.toTimeValue(
 						v.AddDate(int(args[0].(types.Int)), int(args[1].(types.Int)), int(args[2].(types.Int))),
@@ -569,11 +569,11 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					a0, err := lib.refToGoTimeValue(args[0])
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.Bool(v.After(a0))
 				},
@@ -585,7 +585,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.Bytes(
 						v.AppendFormat(
@@ -599,7 +599,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.Bytes(
 						v.AppendFormat(
@@ -616,11 +616,11 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					a0, err := lib.refToGoTimeValue(args[0])
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.Bool(v.Before(a0))
 				},
@@ -632,11 +632,11 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					a0, err := lib.refToGoTimeValue(args[0])
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.Int(v.Compare(a0))
 				},
@@ -648,7 +648,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.Int(v.Day())
 				},
@@ -660,11 +660,11 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					a0, err := lib.refToGoTimeValue(args[0])
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.Bool(v.Equal(a0))
 				},
@@ -676,7 +676,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.String(v.Format(string(args[0].(types.String))))
 				},
@@ -688,7 +688,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.Int(v.Hour())
 				},
@@ -700,11 +700,11 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					loc, err := args[0].Value().(*Location).GoLocation()
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return lib.toTimeValue(v.In(loc))
 				},
@@ -716,7 +716,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.Bool(v.IsDST())
 				},
@@ -728,7 +728,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.Bool(v.IsZero())
 				},
@@ -740,7 +740,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return lib.toTimeValue(v.Local())
 				},
@@ -752,7 +752,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					name, offset := v.Zone()
 					return lib.toLocationValue(name, offset)
@@ -765,7 +765,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.Int(v.Minute())
 				},
@@ -777,7 +777,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.Int(v.Month())
 				},
@@ -789,7 +789,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.Int(v.Nanosecond())
 				},
@@ -801,7 +801,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return lib.toTimeValue(v.Round(time.Duration(args[0].(types.Int))))
 				},
@@ -810,7 +810,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return lib.toTimeValue(v.Round(args[0].(types.Duration).Duration))
 				},
@@ -822,7 +822,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.Int(v.Second())
 				},
@@ -834,7 +834,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.String(v.String())
 				},
@@ -846,11 +846,11 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					a0, err := lib.refToGoTimeValue(args[0])
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.Duration{
 						Duration: v.Sub(a0),
@@ -864,7 +864,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return lib.toTimeValue(v.Truncate(time.Duration(args[0].(types.Int))))
 				},
@@ -873,7 +873,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return lib.toTimeValue(v.Truncate(args[0].(types.Duration).Duration))
 				},
@@ -885,7 +885,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return lib.toTimeValue(v.UTC())
 				},
@@ -897,7 +897,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.Int(v.Unix())
 				},
@@ -909,7 +909,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.Int(v.UnixMicro())
 				},
@@ -921,7 +921,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.Int(v.UnixMilli())
 				},
@@ -933,7 +933,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.Int(v.UnixNano())
 				},
@@ -945,7 +945,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.Int(v.Weekday())
 				},
@@ -957,7 +957,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.Int(v.Year())
 				},
@@ -969,7 +969,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.Int(v.YearDay())
 				},
diff --git a/grpc/federation/cel/url.go b/grpc/federation/cel/url.go
index fe3f14b..66b9a12 100644
--- a/grpc/federation/cel/url.go
+++ b/grpc/federation/cel/url.go
@@ -123,7 +123,7 @@ func (lib *URLLibrary) CompileOptions() []cel.EnvOption {
 
 					result, err := url.JoinPath(base, paths...)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.String(result)
 				},
@@ -143,7 +143,7 @@ func (lib *URLLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					result, err := url.PathUnescape(string(args[0].(types.String)))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.String(result)
 				},
@@ -163,7 +163,7 @@ func (lib *URLLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					result, err := url.QueryUnescape(string(args[0].(types.String)))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return types.String(result)
 				},
@@ -177,7 +177,7 @@ func (lib *URLLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					v, err := url.Parse(string(args[0].(types.String)))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return lib.toURLValue(*v)
 				},
@@ -189,7 +189,7 @@ func (lib *URLLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					v, err := url.ParseRequestURI(string(args[0].(types.String)))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return lib.toURLValue(*v)
 				},
@@ -347,7 +347,7 @@ func (lib *URLLibrary) CompileOptions() []cel.EnvOption {
 					var err error
 					v.Path, err = url.JoinPath(v.Path, paths...)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 
 					return lib.toURLValue(v)
@@ -362,7 +362,7 @@ func (lib *URLLibrary) CompileOptions() []cel.EnvOption {
 
 					b, err := v.MarshalBinary()
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 
 					return types.Bytes(b)
@@ -377,7 +377,7 @@ func (lib *URLLibrary) CompileOptions() []cel.EnvOption {
 
 					u, err := v.Parse(string(args[0].(types.String)))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 
 					return lib.toURLValue(*u)
@@ -458,7 +458,7 @@ func (lib *URLLibrary) CompileOptions() []cel.EnvOption {
 					var u url.URL
 					err := u.UnmarshalBinary(args[0].(types.Bytes))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return lib.toURLValue(u)
 				},
diff --git a/grpc/federation/cel/uuid.go b/grpc/federation/cel/uuid.go
index 6a3efb9..65787d6 100644
--- a/grpc/federation/cel/uuid.go
+++ b/grpc/federation/cel/uuid.go
@@ -78,7 +78,7 @@ func (lib *UUIDLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, _ ...ref.Val) ref.Val {
 					id, err := uuid.NewRandom()
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return &UUID{UUID: id}
 				},
@@ -90,7 +90,7 @@ func (lib *UUIDLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					id, err := uuid.NewRandomFromReader(args[0].(*Rand))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.NewErr("%s", err.Error())
 					}
 					return &UUID{UUID: id}
 				},
-- 
2.43.0


From c4088b79265ec8ce4c0025343a6046caa0f6f4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:01 +0000
Subject: [PATCH 15/47] fix: accept the bytes arguments of indexByte,
 lastIndexByte, isGraphic and isPrint

The overloads with a byte asserted a byte where the value is a byte slice, and always failed.
---
 grpc/federation/cel/strings.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/grpc/federation/cel/strings.go b/grpc/federation/cel/strings.go
index d08619c..ab4ab49 100644
--- a/grpc/federation/cel/strings.go
+++ b/grpc/federation/cel/strings.go
@@ -178,7 +178,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("indexByte"),
 			OverloadFunc(createStringsID("indexByte_string_byte_int"), []*cel.Type{cel.StringType, cel.BytesType}, cel.IntType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Int(strings.IndexByte(args[0].(types.String).Value().(string), args[1].(types.Bytes).Value().(byte)))
+					return types.Int(strings.IndexByte(args[0].(types.String).Value().(string), args[1].(types.Bytes).Value().([]byte)[0]))
 				},
 			),
 			OverloadFunc(createStringsID("indexByte_string_string_int"), []*cel.Type{cel.StringType, cel.StringType}, cel.IntType,
@@ -229,7 +229,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("lastIndexByte"),
 			OverloadFunc(createStringsID("lastIndexByte_string_byte_int"), []*cel.Type{cel.StringType, cel.BytesType}, cel.IntType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Int(strings.LastIndexByte(args[0].(types.String).Value().(string), args[1].(types.Bytes).Value().(byte)))
+					return types.Int(strings.LastIndexByte(args[0].(types.String).Value().(string), args[1].(types.Bytes).Value().([]byte)[0]))
 				},
 			),
 			OverloadFunc(createStringsID("lastIndexByte_string_string_int"), []*cel.Type{cel.StringType, cel.StringType}, cel.IntType,
@@ -594,7 +594,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("isGraphic"),
 			OverloadFunc(createStringsID("isGraphic_byte_bool"), []*cel.Type{cel.BytesType}, cel.BoolType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bool(strconv.IsGraphic(rune(args[0].(types.Bytes).Value().(byte))))
+					return types.Bool(strconv.IsGraphic(rune(args[0].(types.Bytes).Value().([]byte)[0])))
 				},
 			),
 			OverloadFunc(createStringsID("isGraphic_string_bool"), []*cel.Type{cel.StringType}, cel.BoolType,
@@ -607,7 +607,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("isPrint"),
 			OverloadFunc(createStringsID("isPrint_byte_bool"), []*cel.Type{cel.BytesType}, cel.BoolType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bool(strconv.IsPrint(rune(args[0].(types.Bytes).Value().(byte))))
+					return types.Bool(strconv.IsPrint(rune(args[0].(types.Bytes).Value().([]byte)[0])))
 				},
 			),
 			OverloadFunc(createStringsID("isPrint_string_bool"), []*cel.Type{cel.StringType}, cel.BoolType,
-- 
2.43.0


From 2b19529961a16e94d2a74d6cab2a39892ebef9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:02 +0000
Subject: [PATCH 16/47] fix: take the first character of a string instead of
 its first byte as a rune

quoteRune, appendQuoteRune and their variants, isGraphic and isPrint gave wrong results for every character outside ASCII.
---
 grpc/federation/cel/strings.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/grpc/federation/cel/strings.go b/grpc/federation/cel/strings.go
index ab4ab49..82ef8a7 100644
--- a/grpc/federation/cel/strings.go
+++ b/grpc/federation/cel/strings.go
@@ -20,6 +20,11 @@ var _ cel.SingletonLibrary = new(StringsLibrary)
 type StringsLibrary struct {
 }
 
+// firstRune returns the first character of a non-empty string.
+func firstRune(v ref.Val) rune {
+	return []rune(v.(types.String).Value().(string))[0]
+}
+
 func NewStringsLibrary() *StringsLibrary {
 	return &StringsLibrary{}
 }
@@ -454,12 +459,12 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendQuoteRune"),
 			OverloadFunc(createStringsID("appendQuoteRune_bytes_int_bytes"), []*cel.Type{cel.BytesType, cel.StringType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendQuoteRune(args[0].(types.Bytes).Value().([]byte), rune(args[1].(types.String).Value().(string)[0])))
+					return types.Bytes(strconv.AppendQuoteRune(args[0].(types.Bytes).Value().([]byte), firstRune(args[1])))
 				},
 			),
 			OverloadFunc(createStringsID("appendQuoteRune_string_int_string"), []*cel.Type{cel.StringType, cel.StringType}, cel.StringType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.String(strconv.AppendQuoteRune([]byte(args[0].(types.String).Value().(string)), rune(args[1].(types.String).Value().(string)[0])))
+					return types.String(strconv.AppendQuoteRune([]byte(args[0].(types.String).Value().(string)), firstRune(args[1])))
 				},
 			),
 		),
@@ -467,12 +472,12 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendQuoteRuneToASCII"),
 			OverloadFunc(createStringsID("appendQuoteRuneToASCII_bytes_string_bytes"), []*cel.Type{cel.BytesType, cel.StringType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendQuoteRuneToASCII(args[0].(types.Bytes).Value().([]byte), rune(args[1].(types.String).Value().(string)[0])))
+					return types.Bytes(strconv.AppendQuoteRuneToASCII(args[0].(types.Bytes).Value().([]byte), firstRune(args[1])))
 				},
 			),
 			OverloadFunc(createStringsID("appendQuoteRuneToASCII_string_string_string"), []*cel.Type{cel.StringType, cel.StringType}, cel.StringType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.String(strconv.AppendQuoteRuneToASCII([]byte(args[0].(types.String).Value().(string)), rune(args[1].(types.String).Value().(string)[0])))
+					return types.String(strconv.AppendQuoteRuneToASCII([]byte(args[0].(types.String).Value().(string)), firstRune(args[1])))
 				},
 			),
 		),
@@ -480,12 +485,12 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendQuoteRuneToGraphic"),
 			OverloadFunc(createStringsID("appendQuoteRuneToGraphic_bytes_string_bytes"), []*cel.Type{cel.BytesType, cel.StringType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendQuoteRuneToGraphic(args[0].(types.Bytes).Value().([]byte), rune(args[1].(types.String).Value().(string)[0])))
+					return types.Bytes(strconv.AppendQuoteRuneToGraphic(args[0].(types.Bytes).Value().([]byte), firstRune(args[1])))
 				},
 			),
 			OverloadFunc(createStringsID("appendQuoteRuneToGraphic_string_string_string"), []*cel.Type{cel.StringType, cel.StringType}, cel.StringType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.String(strconv.AppendQuoteRuneToGraphic([]byte(args[0].(types.String).Value().(string)), rune(args[1].(types.String).Value().(string)[0])))
+					return types.String(strconv.AppendQuoteRuneToGraphic([]byte(args[0].(types.String).Value().(string)), firstRune(args[1])))
 				},
 			),
 		),
@@ -599,7 +604,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			),
 			OverloadFunc(createStringsID("isGraphic_string_bool"), []*cel.Type{cel.StringType}, cel.BoolType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bool(strconv.IsGraphic(rune(args[0].(types.String).Value().(string)[0])))
+					return types.Bool(strconv.IsGraphic(firstRune(args[0])))
 				},
 			),
 		),
@@ -612,7 +617,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			),
 			OverloadFunc(createStringsID("isPrint_string_bool"), []*cel.Type{cel.StringType}, cel.BoolType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bool(strconv.IsPrint(rune(args[0].(types.String).Value().(string)[0])))
+					return types.Bool(strconv.IsPrint(firstRune(args[0])))
 				},
 			),
 		),
@@ -696,7 +701,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("quoteRune"),
 			OverloadFunc(createStringsID("quoteRune_string_string"), []*cel.Type{cel.StringType}, cel.StringType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.String(strconv.QuoteRune(rune(args[0].(types.String).Value().(string)[0])))
+					return types.String(strconv.QuoteRune(firstRune(args[0])))
 				},
 			),
 		),
@@ -704,7 +709,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("quoteRuneToASCII"),
 			OverloadFunc(createStringsID("quoteRuneToASCII_string_string"), []*cel.Type{cel.StringType}, cel.StringType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.String(strconv.QuoteRuneToASCII(rune(args[0].(types.String).Value().(string)[0])))
+					return types.String(strconv.QuoteRuneToASCII(firstRune(args[0])))
 				},
 			),
 		),
@@ -712,7 +717,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("quoteRuneToGraphic"),
 			OverloadFunc(createStringsID("quoteRuneToGraphic_string_string"), []*cel.Type{cel.StringType}, cel.StringType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.String(strconv.QuoteRuneToGraphic(rune(args[0].(types.String).Value().(string)[0])))
+					return types.String(strconv.QuoteRuneToGraphic(firstRune(args[0])))
 				},
 			),
 		),
-- 
2.43.0


From 4cf449dcaecded31c93893a217dfa47cee46968b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:21 +0000
Subject: [PATCH 17/47] fix: do not append to the memory of bytes arguments

The append functions wrote behind the end of their argument, which may be shared
with the results of other calls or with the request.
---
 grpc/federation/cel/strings.go | 21 +++++++++++----------
 grpc/federation/cel/time.go    |  3 ++-
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/grpc/federation/cel/strings.go b/grpc/federation/cel/strings.go
index 82ef8a7..8e08a35 100644
--- a/grpc/federation/cel/strings.go
+++ b/grpc/federation/cel/strings.go
@@ -2,6 +2,7 @@ package cel
 
 import (
 	"context"
+	"slices"
 	"strconv"
 	"strings"
 
@@ -407,7 +408,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendBool"),
 			OverloadFunc(createStringsID("appendBool_bytes_bool_bytes"), []*cel.Type{cel.BytesType, cel.BoolType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendBool(args[0].(types.Bytes).Value().([]byte), args[1].(types.Bool).Value().(bool)))
+					return types.Bytes(strconv.AppendBool(slices.Clip(args[0].(types.Bytes).Value().([]byte)), args[1].(types.Bool).Value().(bool)))
 				},
 			),
 			OverloadFunc(createStringsID("appendBool_string_bool_string"), []*cel.Type{cel.StringType, cel.BoolType}, cel.StringType,
@@ -420,7 +421,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendFloat"),
 			OverloadFunc(createStringsID("appendFloat_bytes_float64_string_int_int_bytes"), []*cel.Type{cel.BytesType, cel.DoubleType, cel.StringType, cel.IntType, cel.IntType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendFloat(args[0].(types.Bytes).Value().([]byte), args[1].(types.Double).Value().(float64), args[2].(types.String).Value().(string)[0], int(args[3].(types.Int).Value().(int64)), int(args[4].(types.Int).Value().(int64))))
+					return types.Bytes(strconv.AppendFloat(slices.Clip(args[0].(types.Bytes).Value().([]byte)), args[1].(types.Double).Value().(float64), args[2].(types.String).Value().(string)[0], int(args[3].(types.Int).Value().(int64)), int(args[4].(types.Int).Value().(int64))))
 				},
 			),
 			OverloadFunc(createStringsID("appendFloat_string_float64_int_string_int_string"), []*cel.Type{cel.StringType, cel.DoubleType, cel.StringType, cel.IntType, cel.IntType}, cel.StringType,
@@ -433,7 +434,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendInt"),
 			OverloadFunc(createStringsID("appendInt_bytes_int_int_bytes"), []*cel.Type{cel.BytesType, cel.IntType, cel.IntType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendInt(args[0].(types.Bytes).Value().([]byte), args[1].(types.Int).Value().(int64), int(args[2].(types.Int).Value().(int64))))
+					return types.Bytes(strconv.AppendInt(slices.Clip(args[0].(types.Bytes).Value().([]byte)), args[1].(types.Int).Value().(int64), int(args[2].(types.Int).Value().(int64))))
 				},
 			),
 			OverloadFunc(createStringsID("appendInt_string_int_int_string"), []*cel.Type{cel.StringType, cel.IntType, cel.IntType}, cel.StringType,
@@ -446,7 +447,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendQuote"),
 			OverloadFunc(createStringsID("appendQuote_bytes_string_bytes"), []*cel.Type{cel.BytesType, cel.StringType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendQuote(args[0].(types.Bytes).Value().([]byte), args[1].(types.String).Value().(string)))
+					return types.Bytes(strconv.AppendQuote(slices.Clip(args[0].(types.Bytes).Value().([]byte)), args[1].(types.String).Value().(string)))
 				},
 			),
 			OverloadFunc(createStringsID("appendQuote_string_string_string"), []*cel.Type{cel.StringType, cel.StringType}, cel.StringType,
@@ -459,7 +460,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendQuoteRune"),
 			OverloadFunc(createStringsID("appendQuoteRune_bytes_int_bytes"), []*cel.Type{cel.BytesType, cel.StringType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendQuoteRune(args[0].(types.Bytes).Value().([]byte), firstRune(args[1])))
+					return types.Bytes(strconv.AppendQuoteRune(slices.Clip(args[0].(types.Bytes).Value().([]byte)), firstRune(args[1])))
 				},
 			),
 			OverloadFunc(createStringsID("appendQuoteRune_string_int_string"), []*cel.Type{cel.StringType, cel.StringType}, cel.StringType,
@@ -472,7 +473,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendQuoteRuneToASCII"),
 			OverloadFunc(createStringsID("appendQuoteRuneToASCII_bytes_string_bytes"), []*cel.Type{cel.BytesType, cel.StringType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendQuoteRuneToASCII(args[0].(types.Bytes).Value().([]byte), firstRune(args[1])))
+					return types.Bytes(strconv.AppendQuoteRuneToASCII(slices.Clip(args[0].(types.Bytes).Value().([]byte)), firstRune(args[1])))
 				},
 			),
 			OverloadFunc(createStringsID("appendQuoteRuneToASCII_string_string_string"), []*cel.Type{cel.StringType, cel.StringType}, cel.StringType,
@@ -485,7 +486,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendQuoteRuneToGraphic"),
 			OverloadFunc(createStringsID("appendQuoteRuneToGraphic_bytes_string_bytes"), []*cel.Type{cel.BytesType, cel.StringType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendQuoteRuneToGraphic(args[0].(types.Bytes).Value().([]byte), firstRune(args[1])))
+					return types.Bytes(strconv.AppendQuoteRuneToGraphic(slices.Clip(args[0].(types.Bytes).Value().([]byte)), firstRune(args[1])))
 				},
 			),
 			OverloadFunc(createStringsID("appendQuoteRuneToGraphic_string_string_string"), []*cel.Type{cel.StringType, cel.StringType}, cel.StringType,
@@ -498,7 +499,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendQuoteToASCII"),
 			OverloadFunc(createStringsID("appendQuoteToASCII_bytes_string_bytes"), []*cel.Type{cel.BytesType, cel.StringType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendQuoteToASCII(args[0].(types.Bytes).Value().([]byte), args[1].(types.String).Value().(string)))
+					return types.Bytes(strconv.AppendQuoteToASCII(slices.Clip(args[0].(types.Bytes).Value().([]byte)), args[1].(types.String).Value().(string)))
 				},
 			),
 			OverloadFunc(createStringsID("appendQuoteToASCII_string_string_string"), []*cel.Type{cel.StringType, cel.StringType}, cel.StringType,
@@ -511,7 +512,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendQuoteToGraphic"),
 			OverloadFunc(createStringsID("appendQuoteToGraphic_bytes_string_bytes"), []*cel.Type{cel.BytesType, cel.StringType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendQuoteToGraphic(args[0].(types.Bytes).Value().([]byte), args[1].(types.String).Value().(string)))
+					return types.Bytes(strconv.AppendQuoteToGraphic(slices.Clip(args[0].(types.Bytes).Value().([]byte)), args[1].(types.String).Value().(string)))
 				},
 			),
 			OverloadFunc(createStringsID("appendQuoteToGraphic_string_string_string"), []*cel.Type{cel.StringType, cel.StringType}, cel.StringType,
@@ -524,7 +525,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendUint"),
 			OverloadFunc(createStringsID("appendUint_bytes_uint_int_bytes"), []*cel.Type{cel.BytesType, cel.UintType, cel.IntType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendUint(args[0].(types.Bytes).Value().([]byte), args[1].(types.Uint).Value().(uint64), int(args[2].(types.Int).Value().(int64))))
+					return types.Bytes(strconv.AppendUint(slices.Clip(args[0].(types.Bytes).Value().([]byte)), args[1].(types.Uint).Value().(uint64), int(args[2].(types.Int).Value().(int64))))
 				},
 			),
 			OverloadFunc(createStringsID("appendUint_string_uint_int_string"), []*cel.Type{cel.StringType, cel.UintType, cel.IntType}, cel.StringType,
diff --git a/grpc/federation/cel/time.go b/grpc/federation/cel/time.go
index fd10bc5..4d53c4e 100644
--- a/grpc/federation/cel/time.go
+++ b/grpc/federation/cel/time.go
@@ -2,6 +2,7 @@ package cel
 
 import (
 	"context"
+	"slices"
 	"time"
 
 	"github.com/google/cel-go/cel"
@@ -603,7 +604,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 					}
 					return types.Bytes(
 						v.AppendFormat(
-							[]byte(args[0].(types.Bytes)),
+							slices.Clip([]byte(args[0].(types.Bytes))),
 							string(args[1].(types.String)),
 						),
 					)
-- 
2.43.0


From 6dff246ec67cd25ab91a8db1106bc41d0bd7ade8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:22 +0000
Subject: [PATCH 18/47] fix: join the paths of a URL as net/url does

The path of the URL was unescaped twice (or the call failed), and its raw path was left behind.
---
 grpc/federation/cel/url.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/grpc/federation/cel/url.go b/grpc/federation/cel/url.go
index 66b9a12..9f7e497 100644
--- a/grpc/federation/cel/url.go
+++ b/grpc/federation/cel/url.go
@@ -344,13 +344,7 @@ func (lib *URLLibrary) CompileOptions() []cel.EnvOption {
 						paths = append(paths, string(pathElem.(types.String)))
 					}
 
-					var err error
-					v.Path, err = url.JoinPath(v.Path, paths...)
-					if err != nil {
-						return types.NewErr("%s", err.Error())
-					}
-
-					return lib.toURLValue(v)
+					return lib.toURLValue(*v.JoinPath(paths...))
 				},
 			),
 		),
-- 
2.43.0


From 70e9fd96ff4042a78c989460fe80ee23d2a4b8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:22 +0000
Subject: [PATCH 19/47] fix: do not truncate the code point of containsRune and
 indexRune

---
 grpc/federation/cel/strings.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/grpc/federation/cel/strings.go b/grpc/federation/cel/strings.go
index 8e08a35..46e3334 100644
--- a/grpc/federation/cel/strings.go
+++ b/grpc/federation/cel/strings.go
@@ -5,6 +5,7 @@ import (
 	"slices"
 	"strconv"
 	"strings"
+	"unicode"
 
 	"github.com/google/cel-go/cel"
 	"github.com/google/cel-go/common/types"
@@ -21,6 +22,14 @@ var _ cel.SingletonLibrary = new(StringsLibrary)
 type StringsLibrary struct {
 }
 
+// intToRune returns the character of a code point. The result for a value outside the range of the runes isn't a valid rune.
+func intToRune(v types.Int) rune {
+	if v < 0 || v > unicode.MaxRune {
+		return -1
+	}
+	return rune(v)
+}
+
 // firstRune returns the first character of a non-empty string.
 func firstRune(v ref.Val) rune {
 	return []rune(v.(types.String).Value().(string))[0]
@@ -84,8 +93,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			OverloadFunc(createStringsID("containsRune_string_int_bool"), []*cel.Type{cel.StringType, cel.IntType}, cel.BoolType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					str := args[0].(types.String).Value().(string)
-					r := rune(args[1].(types.Int).Value().(int64))
-					return types.Bool(strings.ContainsRune(str, r))
+					return types.Bool(strings.ContainsRune(str, intToRune(args[1].(types.Int))))
 				},
 			),
 		),
@@ -198,7 +206,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("indexRune"),
 			OverloadFunc(createStringsID("indexRune_string_int_int"), []*cel.Type{cel.StringType, cel.IntType}, cel.IntType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Int(strings.IndexRune(args[0].(types.String).Value().(string), rune(args[1].(types.Int).Value().(int64))))
+					return types.Int(strings.IndexRune(args[0].(types.String).Value().(string), intToRune(args[1].(types.Int))))
 				},
 			),
 		),
-- 
2.43.0


From 878396fb4013ad847c7893ad000e104dc0c8a10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:52 +0000
Subject: [PATCH 20/47] fix: leave dollar signs inside string literals alone

Every $ of an expression was replaced by the name of the message argument, also inside string literals.
---
 grpc/federation/cel.go   |  3 +--
 grpc/federation/const.go | 51 ++++++++++++++++++++++++++++++++++++++++
 resolver/resolver.go     |  4 ++--
 3 files changed, 54 insertions(+), 4 deletions(-)

diff --git a/grpc/federation/cel.go b/grpc/federation/cel.go
index 57fd3b6..fdbc6c8 100644
--- a/grpc/federation/cel.go
+++ b/grpc/federation/cel.go
@@ -8,7 +8,6 @@ import (
 	"reflect"
 	"runtime/debug"
 	"sort"
-	"strings"
 	"sync"
 
 	"github.com/google/cel-go/cel"
@@ -787,7 +786,7 @@ func createCELProgram(ctx context.Context, req *EvalCELRequest) (cel.Program, er
 }
 
 func createCELAst(req *EvalCELRequest, env *cel.Env) (*cel.Ast, error) {
-	expr := strings.Replace(req.Expr, "$", MessageArgumentVariableName, -1)
+	expr := ReplaceMessageArgument(req.Expr)
 	ast, iss := env.Compile(expr)
 	if iss.Err() != nil {
 		return nil, iss.Err()
diff --git a/grpc/federation/const.go b/grpc/federation/const.go
index 972c27b..6180051 100644
--- a/grpc/federation/const.go
+++ b/grpc/federation/const.go
@@ -1,6 +1,8 @@
 package federation
 
 import (
+	"strings"
+
 	grpcfedcel "github.com/mercari/grpc-federation/grpc/federation/cel"
 )
 
@@ -10,3 +12,52 @@ const (
 	ContextVariableName         = grpcfedcel.ContextVariableName
 	ContextTypeName             = grpcfedcel.ContextTypeName
 )
+
+// ReplaceMessageArgument replaces the `$` symbols of a CEL expression with MessageArgumentVariableName.
+// The contents of string literals and comments are left as they are.
+func ReplaceMessageArgument(expr string) string {
+	var b strings.Builder
+	for i := 0; i < len(expr); {
+		switch {
+		case expr[i] == '$':
+			b.WriteString(MessageArgumentVariableName)
+			i++
+		case expr[i] == '"' || expr[i] == '\'':
+			end := endOfStringLiteral(expr, i)
+			b.WriteString(expr[i:end])
+			i = end
+		case strings.HasPrefix(expr[i:], "//"):
+			end := len(expr)
+			if n := strings.IndexByte(expr[i:], '\n'); n >= 0 {
+				end = i + n
+			}
+			b.WriteString(expr[i:end])
+			i = end
+		default:
+			b.WriteByte(expr[i])
+			i++
+		}
+	}
+	return b.String()
+}
+
+// endOfStringLiteral returns the offset behind the string literal whose opening quote is at start.
+func endOfStringLiteral(expr string, start int) int {
+	var raw bool
+	for i := start - 1; i >= 0 && i >= start-2 && strings.IndexByte("rRbB", expr[i]) >= 0; i-- {
+		raw = raw || expr[i] == 'r' || expr[i] == 'R'
+	}
+	quote := expr[start : start+1]
+	if triple := strings.Repeat(quote, 3); strings.HasPrefix(expr[start:], triple) {
+		quote = triple
+	}
+	for i := start + len(quote); i < len(expr); i++ {
+		switch {
+		case expr[i] == '\\' && !raw:
+			i++
+		case strings.HasPrefix(expr[i:], quote):
+			return i + len(quote)
+		}
+	}
+	return len(expr)
+}
diff --git a/resolver/resolver.go b/resolver/resolver.go
index 0fa5537..53880d4 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -683,7 +683,7 @@ func (r *Resolver) lookupPackageNameMapFromCELValue(ctx *context, val *CELValue)
 		// skip reporting error
 		return nil
 	}
-	expr := strings.Replace(val.Expr, "$", federation.MessageArgumentVariableName, -1)
+	expr := federation.ReplaceMessageArgument(val.Expr)
 	ast, issues := env.Parse(expr)
 	if issues.Err() != nil {
 		// skip reporting error
@@ -4432,7 +4432,7 @@ func (r *Resolver) resolveCELValue(ctx *context, env *cel.Env, value *CELValue)
 	if strings.Contains(value.Expr, federation.MessageArgumentVariableName) {
 		return fmt.Errorf("%q is a reserved keyword and cannot be used as a variable name", federation.MessageArgumentVariableName)
 	}
-	expr := strings.Replace(value.Expr, "$", federation.MessageArgumentVariableName, -1)
+	expr := federation.ReplaceMessageArgument(value.Expr)
 	r.celRegistry.clear()
 	ast, issues := env.Compile(expr)
 	if issues.Err() != nil {
-- 
2.43.0


From db0f11131661c3020b75e7015fff2f3fa88b35e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:51 +0000
Subject: [PATCH 21/47] fix: do not report a failed sibling definition as a
 cancellation to other groups

---
 grpc/federation/cel.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/grpc/federation/cel.go b/grpc/federation/cel.go
index fdbc6c8..913b6df 100644
--- a/grpc/federation/cel.go
+++ b/grpc/federation/cel.go
@@ -517,11 +517,25 @@ type DefMap[T any, U any, V localValue] struct {
 
 func EvalDef[T any, U localValue](ctx context.Context, value U, def Def[T, U]) error {
 	_, err := value.do(def.Name, func() (any, error) {
-		return nil, evalDef(ctx, value, def)
+		return nil, definitionError(ctx, evalDef(ctx, value, def))
 	})
 	return err
 }
 
+// definitionError returns the error for all groups of definitions waiting for the evaluated definition.
+// If the evaluation was interrupted because another definition of the evaluating group had failed,
+// it is the error of that definition. The groups still running must not take it for a cancellation of the request.
+func definitionError(ctx context.Context, err error) error {
+	if err == nil || ctx.Err() == nil {
+		return err
+	}
+	cause := context.Cause(ctx)
+	if errors.Is(cause, context.Canceled) || errors.Is(cause, context.DeadlineExceeded) {
+		return err
+	}
+	return cause
+}
+
 func IgnoreAndResponse[T any, U localValue](ctx context.Context, value U, def Def[T, U]) error {
 	// doesn't use cache to create response variable by same name key.
 	return evalDef(ctx, value, def)
@@ -600,8 +614,7 @@ func evalDef[T any, U localValue](ctx context.Context, value U, def Def[T, U]) e
 
 func EvalDefMap[T any, U any, V localValue](ctx context.Context, value V, def DefMap[T, U, V]) error {
 	_, err := value.do(def.Name, func() (any, error) {
-		err := evalDefMap(ctx, value, def)
-		return nil, err
+		return nil, definitionError(ctx, evalDefMap(ctx, value, def))
 	})
 	return err
 }
-- 
2.43.0


From 71d0e88fbf410972d88f01767e103eb9447c6a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:54 +0000
Subject: [PATCH 22/47] fix: report definitions without an expression instead
 of panicking

---
 resolver/graph.go    |  2 +-
 resolver/message.go  |  3 +++
 resolver/resolver.go | 51 +++++++++++++++++++++++++++++++++++++++++---
 3 files changed, 52 insertions(+), 4 deletions(-)

diff --git a/resolver/graph.go b/resolver/graph.go
index 31e3489..aa7b743 100644
--- a/resolver/graph.go
+++ b/resolver/graph.go
@@ -339,7 +339,7 @@ func setupVariableDependencyByReferenceName(nodes []*MessageDependencyGraphNode)
 			continue
 		}
 		var iterName string
-		if def.Expr.Map != nil && def.Expr.Map.Iterator != nil {
+		if def.Expr != nil && def.Expr.Map != nil && def.Expr.Map.Iterator != nil {
 			iterName = def.Expr.Map.Iterator.Name
 		}
 		for _, ref := range refs {
diff --git a/resolver/message.go b/resolver/message.go
index 1d213a8..ebd9107 100644
--- a/resolver/message.go
+++ b/resolver/message.go
@@ -285,6 +285,9 @@ func (m *Message) UseAllNameReference() {
 		if varDef.Name == "" {
 			continue
 		}
+		if varDef.Expr == nil {
+			continue
+		}
 		// Validation results won't be referenced
 		if varDef.Expr.Validation != nil {
 			continue
diff --git a/resolver/resolver.go b/resolver/resolver.go
index 53880d4..7c8a8c0 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -768,6 +768,10 @@ func (r *Resolver) validateService(ctx *context, svc *Service) {
 func (r *Resolver) validateMethodResponse(ctx *context, service *Service) {
 	for _, method := range service.Methods {
 		response := method.FederationResponse()
+		if response == nil {
+			// the type of the response could not be resolved and the error is already reported.
+			continue
+		}
 		if response.Rule == nil {
 			ctx.addError(
 				ErrWithLocation(
@@ -1383,11 +1387,14 @@ func (r *Resolver) resolveAutoBindFields(ctx *context, msg *Message, builder *so
 		if !varDef.AutoBind {
 			continue
 		}
+		if varDef.Expr == nil {
+			continue
+		}
 		typ := varDef.Expr.Type
 		if typ == nil {
 			continue
 		}
-		if typ.Kind != types.Message {
+		if typ.Kind != types.Message || typ.Message == nil {
 			continue
 		}
 		for _, field := range typ.Message.Fields {
@@ -2189,6 +2196,9 @@ func (r *Resolver) resolveServiceVariable(ctx *context, env *cel.Env, def *feder
 	}
 
 	expr := r.resolveServiceVariableExpr(ctx, def, builder)
+	if expr == nil {
+		return nil
+	}
 	switch {
 	case expr.By != nil:
 		if err := r.resolveCELValue(ctx, env, expr.By); err != nil {
@@ -2271,8 +2281,18 @@ func (r *Resolver) resolveServiceVariableExpr(ctx *context, def *federation.Serv
 	case *federation.ServiceVariable_Enum:
 		return &ServiceVariableExpr{Enum: r.resolveEnumExpr(ctx, def.GetEnum(), builder.WithEnum())}
 	case *federation.ServiceVariable_Validation:
-		return &ServiceVariableExpr{Validation: r.resolveServiceVariableValidationExpr(ctx, def.GetValidation(), builder.WithValidation())}
+		validation := r.resolveServiceVariableValidationExpr(ctx, def.GetValidation(), builder.WithValidation())
+		if validation == nil {
+			return nil
+		}
+		return &ServiceVariableExpr{Validation: validation}
 	}
+	ctx.addError(
+		ErrWithLocation(
+			`one of "by", "map", "message", "enum" or "validation" must be specified`,
+			builder.Location(),
+		),
+	)
 	return nil
 }
 
@@ -2466,6 +2486,12 @@ func (r *Resolver) resolveVariableExpr(ctx *context, varDef *federation.Variable
 	case *federation.VariableDefinition_Validation:
 		return &VariableExpr{Validation: r.resolveValidationExpr(ctx, varDef.GetValidation(), builder.WithValidation())}
 	}
+	ctx.addError(
+		ErrWithLocation(
+			`one of "by", "map", "message", "enum", "call" or "validation" must be specified`,
+			builder.Location(),
+		),
+	)
 	return nil
 }
 
@@ -2523,6 +2549,12 @@ func (r *Resolver) resolveMapIteratorExpr(ctx *context, def *federation.MapExpr,
 	case *federation.MapExpr_Enum:
 		return &MapIteratorExpr{Enum: r.resolveEnumExpr(ctx, def.GetEnum(), builder.WithEnum())}
 	}
+	ctx.addError(
+		ErrWithLocation(
+			`one of "by", "message" or "enum" must be specified`,
+			builder.Location(),
+		),
+	)
 	return nil
 }
 
@@ -2662,7 +2694,17 @@ func (r *Resolver) resolveCallExpr(ctx *context, def *federation.CallExpr, build
 }
 
 func (r *Resolver) resolveValidationExpr(ctx *context, def *federation.ValidationExpr, builder *source.ValidationExprOptionBuilder) *ValidationExpr {
-	grpcErr := r.resolveGRPCError(ctx, def.GetError(), builder.WithError())
+	errDef := def.GetError()
+	if errDef == nil {
+		ctx.addError(
+			ErrWithLocation(
+				`"error" must be specified`,
+				builder.WithError().Location(),
+			),
+		)
+		errDef = &federation.GRPCError{}
+	}
+	grpcErr := r.resolveGRPCError(ctx, errDef, builder.WithError())
 	if grpcErr.Ignore {
 		ctx.addError(
 			ErrWithLocation(
@@ -4021,6 +4063,9 @@ func (r *Resolver) resolveMapExprCELValues(ctx *context, env *cel.Env, expr *Map
 }
 
 func (r *Resolver) resolveMapIteratorExprCELValues(ctx *context, env *cel.Env, expr *MapIteratorExpr, mapBuilder *source.MapExprOptionBuilder) *Type {
+	if expr == nil {
+		return nil
+	}
 	switch {
 	case expr.By != nil:
 		if err := r.resolveCELValue(ctx, env, expr.By); err != nil {
-- 
2.43.0


From b428a025c0dba94b86073fe70575944b1a46aa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:54 +0000
Subject: [PATCH 23/47] fix: keep service variables that have a condition

---
 generator/templates/server.go.tmpl | 29 +++++++++++++++++++++++++++++
 resolver/resolver.go               |  2 +-
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/generator/templates/server.go.tmpl b/generator/templates/server.go.tmpl
index b7369fd..510c865 100644
--- a/generator/templates/server.go.tmpl
+++ b/generator/templates/server.go.tmpl
@@ -424,6 +424,34 @@ func (s *{{ $serviceName }}) initServiceVariables() error {
 
 	{{ range $svcVars.Defs }}
 	{{- if .IsValidation }}
+	{{- if .UseIf }}
+	if err := grpcfed.If(ctx, &grpcfed.IfParam[*localValueType]{
+		Value: value,
+		Expr: `{{ .If }}`,
+		CacheIndex: {{ .CELCacheIndex }},
+		Body: func(value *localValueType) error {
+			return grpcfed.If(ctx, &grpcfed.IfParam[*localValueType]{
+				Value: value,
+				Expr: `{{ .Expr.Validation.Error.If.Expr }}`,
+				CacheIndex: {{ .CELCacheIndex }},
+				Body: func(value *localValueType) error {
+					errmsg, err := grpcfed.EvalCEL(ctx, &grpcfed.EvalCELRequest{
+						Value: value,
+						Expr: `{{ .Expr.Validation.Error.Message.Expr }}`,
+						OutType: reflect.TypeOf(""),
+						CacheIndex: {{ .CELCacheIndex }},
+					})
+					if err != nil {
+						return err
+					}
+					return grpcfed.NewGRPCStatus(grpcfed.InternalCode, errmsg.(string)).Err()
+				},
+			})
+		},
+	}); err != nil {
+		return err
+	}
+	{{- else }}
 	if err := grpcfed.If(ctx, &grpcfed.IfParam[*localValueType]{
 		Value: value,
 		Expr: `{{ .Expr.Validation.Error.If.Expr }}`,
@@ -443,6 +471,7 @@ func (s *{{ $serviceName }}) initServiceVariables() error {
 	}); err != nil {
 		return err
 	}
+	{{- end }}
 	{{- else }}
 	{{- template "declDef" . }}
 	if err := def_{{ .Key }}(ctx); err != nil {
diff --git a/resolver/resolver.go b/resolver/resolver.go
index 7c8a8c0..6e3cbb7 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -2190,8 +2190,8 @@ func (r *Resolver) resolveServiceVariable(ctx *context, env *cel.Env, def *feder
 						builder.WithIf().Location(),
 					),
 				)
+				return nil
 			}
-			return nil
 		}
 	}
 
-- 
2.43.0


From ce876d5422c607e812505eaf02bbb2158b4131a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:31 +0000
Subject: [PATCH 24/47] fix: name the map entry of an environment variable
 after its camel case name

---
 resolver/resolver.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index 6e3cbb7..0512965 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -21,8 +21,6 @@ import (
 	celtypes "github.com/google/cel-go/common/types"
 	"github.com/google/cel-go/common/types/ref"
 	celext "github.com/google/cel-go/ext"
-	"golang.org/x/text/cases"
-	"golang.org/x/text/language"
 	"google.golang.org/genproto/googleapis/rpc/errdetails"
 	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/reflect/protoreflect"
@@ -2009,7 +2007,7 @@ func (r *Resolver) resolveEnvVar(ctx *context, def *federation.EnvVar, builder *
 	}
 	if typ.Message != nil && typ.Message.IsMapEntry {
 		mp := typ.Message
-		mp.Name = cases.Title(language.Und).String(name) + "Entry"
+		mp.Name = toMapEntryName(name)
 		file := ctx.file()
 		copied := *file
 		copied.Package = &Package{Name: file.PrivatePackageName()}
-- 
2.43.0


From e33fcfa1e771442383b7e7e148f815abb36ca204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:56 +0000
Subject: [PATCH 25/47] fix: declare the arguments that service variables pass
 to a message

---
 resolver/def.go      | 10 ++++++++++
 resolver/resolver.go | 45 +++++++++++++++++++++++++++++++++++++-------
 resolver/types.go    |  2 ++
 3 files changed, 50 insertions(+), 7 deletions(-)

diff --git a/resolver/def.go b/resolver/def.go
index 5413fe3..c6767d8 100644
--- a/resolver/def.go
+++ b/resolver/def.go
@@ -2,6 +2,8 @@ package resolver
 
 import (
 	"sort"
+
+	"github.com/mercari/grpc-federation/source"
 )
 
 func (set *VariableDefinitionSet) Definitions() VariableDefinitions {
@@ -397,3 +399,11 @@ func toUniqueReferenceNames(names []string) []string {
 	sort.Strings(ret)
 	return ret
 }
+
+// messageArgBuilder returns the builder for the argument of the message expression.
+func (def *VariableDefinition) messageArgBuilder(idx int) *source.ArgumentOptionBuilder {
+	if def.svcVarBuilder != nil {
+		return def.svcVarBuilder.WithMessage().WithArgs(idx)
+	}
+	return def.builder.WithMessage().WithArgs(idx)
+}
diff --git a/resolver/resolver.go b/resolver/resolver.go
index 0512965..3569161 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -3657,6 +3657,16 @@ func (r *Resolver) resolveMessageArgument(ctx *context, files []*File) {
 			// A non-response message may also become a root message.
 			// In such a case, the message argument field does not exist.
 			// However, since it is necessary to resolve the CEL reference, needs to call recursive message argument resolver.
+			if defs := serviceVariableDefinitions(files, rootMsg); len(defs) != 0 {
+				// The message argument of the message used by service variables is declared by them.
+				msgArg.Fields = append(msgArg.Fields, r.resolveMessageArgumentFields(ctx, msgArg, defs)...)
+				for _, field := range msgArg.Fields {
+					field.Message = msgArg
+				}
+				r.cachedMessageMap[msgArg.FQDN()] = msgArg
+				r.resolveMessageArgumentRecursive(ctx, root, svcMsgSet)
+				continue
+			}
 			ctx := newContext() // ignore if exists error.
 			_ = r.resolveMessageArgumentRecursive(ctx, root, svcMsgSet)
 			continue
@@ -3684,6 +3694,30 @@ func (r *Resolver) resolveMessageArgument(ctx *context, files []*File) {
 	}
 }
 
+// serviceVariableDefinitions returns the service variables that refer to the message.
+func serviceVariableDefinitions(files []*File, msg *Message) []*VariableDefinition {
+	var defs []*VariableDefinition
+	for _, file := range files {
+		for _, svc := range file.Services {
+			if svc.Rule == nil {
+				continue
+			}
+			builder := source.NewServiceBuilder(file.Name, svc.Name).WithOption()
+			for idx, svcVar := range svc.Rule.Vars {
+				for _, msgExpr := range svcVar.MessageExprs() {
+					if msgExpr.Message == msg {
+						def := svcVar.ToVariableDefinition()
+						def.svcVarBuilder = builder.WithVar(idx)
+						defs = append(defs, def)
+						break
+					}
+				}
+			}
+		}
+	}
+	return defs
+}
+
 func (r *Resolver) resolveMessageArgumentRecursive(
 	ctx *context,
 	node *AllMessageDependencyGraphNode,
@@ -3795,8 +3829,7 @@ func (r *Resolver) resolveMessageArgumentFields(ctx *context, arg *Message, defs
 									typ.Kind.ToString(),
 									fieldType.Kind.ToString(),
 								),
-								varDef.builder.WithMessage().
-									WithArgs(argIdx).Location(),
+								varDef.messageArgBuilder(argIdx).Location(),
 							),
 						)
 					}
@@ -3807,8 +3840,7 @@ func (r *Resolver) resolveMessageArgumentFields(ctx *context, arg *Message, defs
 						ctx.addError(
 							ErrWithLocation(
 								"inline value is not message type",
-								varDef.builder.WithMessage().
-									WithArgs(argIdx).
+								varDef.messageArgBuilder(argIdx).
 									WithInline().Location(),
 							),
 						)
@@ -3825,8 +3857,7 @@ func (r *Resolver) resolveMessageArgumentFields(ctx *context, arg *Message, defs
 											typ.Kind.ToString(),
 											field.Type.Kind.ToString(),
 										),
-										varDef.builder.WithMessage().
-											WithArgs(argIdx).Location(),
+										varDef.messageArgBuilder(argIdx).Location(),
 									),
 								)
 							}
@@ -3874,7 +3905,7 @@ func (r *Resolver) validateMessageDependencyArgumentName(ctx *context, argNameMa
 			ctx.addError(
 				ErrWithLocation(
 					fmt.Sprintf("%q argument is defined in other message dependency arguments, but not in this context", name),
-					def.builder.WithMessage().WithArgs(0).Location(),
+					def.messageArgBuilder(0).Location(),
 				),
 			)
 		}
diff --git a/resolver/types.go b/resolver/types.go
index 0789d18..e9c3506 100644
--- a/resolver/types.go
+++ b/resolver/types.go
@@ -191,6 +191,8 @@ type VariableDefinition struct {
 	Used     bool
 	Expr     *VariableExpr
 	builder  *source.VariableDefinitionOptionBuilder
+	// svcVarBuilder is the builder of the service variable the definition was made from.
+	svcVarBuilder *source.ServiceVariableBuilder
 }
 
 type VariableDefinitions []*VariableDefinition
-- 
2.43.0


From ad829e269051661c5b3e5f4843361a90b2fec43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:21 +0000
Subject: [PATCH 26/47] fix: accept fields without env option in messages of
 environment variables

---
 resolver/message.go  | 10 ++++++++++
 resolver/resolver.go |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/resolver/message.go b/resolver/message.go
index ebd9107..4308ca7 100644
--- a/resolver/message.go
+++ b/resolver/message.go
@@ -252,6 +252,16 @@ func (m *Message) HasCustomResolver() bool {
 	return m.Rule != nil && m.Rule.CustomResolver
 }
 
+// hasEnvField whether the message has a field with "env" option.
+func (m *Message) hasEnvField() bool {
+	for _, field := range m.Fields {
+		if field.HasRule() && field.Rule.Env != nil {
+			return true
+		}
+	}
+	return false
+}
+
 func (m *Message) HasRuleEveryFields() bool {
 	if m == nil {
 		return false
diff --git a/resolver/resolver.go b/resolver/resolver.go
index 3569161..73d4ce6 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -1543,6 +1543,10 @@ func (r *Resolver) validateMessageFields(ctx *context, msg *Message, builder *so
 	for _, field := range msg.Fields {
 		builder := builder.WithField(field.Name)
 		if !field.HasRule() {
+			if msg.hasEnvField() {
+				// "env" option is optional for the fields of the message that represents environment variables.
+				continue
+			}
 			ctx.addError(
 				ErrWithLocation(
 					fmt.Sprintf(`%q field in %q message needs to specify "grpc.federation.field" option`, field.Name, msg.FQDN()),
-- 
2.43.0


From 43036fbe3101dfe8141d560274e3f4bda68b4dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:25 +0000
Subject: [PATCH 27/47] fix: report invalid definitions instead of panicking or
 staying silent

---
 resolver/cel.go        |  2 +-
 resolver/error.go      |  6 +++++-
 resolver/resolver.go   | 16 +++++++++++++---
 validator/validator.go |  2 +-
 4 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/resolver/cel.go b/resolver/cel.go
index 3c1fe7c..2308ed2 100644
--- a/resolver/cel.go
+++ b/resolver/cel.go
@@ -51,7 +51,7 @@ func (r *CELRegistry) FindStructFieldType(structType, fieldName string) (*celtyp
 	fieldType, found := r.Registry.FindStructFieldType(structType, fieldName)
 	if msg := r.messageMap[structType]; msg != nil {
 		if field := msg.Field(fieldName); field != nil {
-			if field.Type.Kind == types.Enum {
+			if found && field.Type.Kind == types.Enum {
 				// HACK: cel-go currently does not support enum types, so it will always be an int type.
 				// Therefore, in case of enum type, copy the *Type of int type, and then map the created *Type to the enum type.
 				// Finally, at `fromCELType` phase, lookup enum type from *Type address.
diff --git a/resolver/error.go b/resolver/error.go
index 49f47c3..4a9c7ac 100644
--- a/resolver/error.go
+++ b/resolver/error.go
@@ -33,10 +33,14 @@ func (e *LocationError) Error() string {
 }
 
 // ExtractIndividualErrors extracts all error instances from Error type.
+// If err is not Error type, err itself is the only instance.
 func ExtractIndividualErrors(err error) []error {
+	if err == nil {
+		return nil
+	}
 	var e *Error
 	if !errors.As(err, &e) {
-		return nil
+		return []error{err}
 	}
 	if e == nil {
 		return nil
diff --git a/resolver/resolver.go b/resolver/resolver.go
index 73d4ce6..ea4b642 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -300,6 +300,7 @@ func (r *Resolver) resolveFileImportRuleRecursive(ctx *context, files []*descrip
 			}
 			importFileDefs = append(importFileDefs, deps...)
 			fileDef.Dependency = append(fileDef.Dependency, path)
+			depMap[path] = struct{}{}
 		}
 	}
 	if len(importFileDefs) == 0 {
@@ -2573,7 +2574,7 @@ func (r *Resolver) resolveMessageExpr(ctx *context, def *federation.MessageExpr,
 			),
 		)
 	}
-	if ctx.msg == msg {
+	if msg != nil && ctx.msg == msg {
 		ctx.addError(
 			ErrWithLocation(
 				fmt.Sprintf(`recursive definition: %q is own message name`, msg.Name),
@@ -3893,7 +3894,7 @@ func (r *Resolver) validateMessageDependencyArgumentName(ctx *context, argNameMa
 			if arg.Name != "" {
 				curDepArgNameMap[arg.Name] = struct{}{}
 			}
-			if arg.Value.CEL != nil && arg.Value.Inline {
+			if arg.Value != nil && arg.Value.CEL != nil && arg.Value.Inline {
 				fieldType := arg.Value.Type()
 				if fieldType != nil && fieldType.Message != nil {
 					for _, field := range fieldType.Message.Fields {
@@ -3942,7 +3943,16 @@ func (r *Resolver) resolveMessageCELValues(ctx *context, env *cel.Env, msg *Mess
 			}
 		}
 		if field.Rule.Oneof != nil {
-			fieldEnv, _ := env.Extend()
+			fieldEnv, err := env.Extend()
+			if err != nil {
+				ctx.addError(
+					ErrWithLocation(
+						err.Error(),
+						fieldBuilder.Location(),
+					),
+				)
+				continue
+			}
 			oneof := field.Rule.Oneof
 			oneofBuilder := fieldBuilder.WithOneOf()
 			if oneof.If != nil {
diff --git a/validator/validator.go b/validator/validator.go
index 0f46ded..f92a606 100644
--- a/validator/validator.go
+++ b/validator/validator.go
@@ -72,7 +72,7 @@ func (v *Validator) Validate(ctx context.Context, file *source.File, opts ...Val
 		compilerErr, ok := err.(*compiler.CompilerError)
 		if !ok {
 			// unknown compile error
-			return nil
+			return []*ValidationOutput{{Path: file.Path(), Message: err.Error()}}
 		}
 		return v.compilerErrorToValidationOutputs(compilerErr)
 	}
-- 
2.43.0


From 4855df55bf16b7c2b585c4e1738440731b6df17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:10 +0000
Subject: [PATCH 28/47] fix: report a service in a file without go_package and
 a validation without code instead of panicking

---
 generator/code_generator.go | 3 +++
 resolver/resolver.go        | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index 29d9551..782ac5c 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -2870,6 +2870,9 @@ func (e *GRPCError) CELCacheIndex() int {
 // GoGRPCStatusCode converts a gRPC status code to a corresponding Go const name
 // e.g. FAILED_PRECONDITION -> FailedPrecondition.
 func (e *GRPCError) GoGRPCStatusCode() string {
+	if e.Code == nil {
+		return "UnknownCode"
+	}
 	strCode := e.Code.String()
 	if strCode == "OK" {
 		// The only exception that the second character is in capital case as well
diff --git a/resolver/resolver.go b/resolver/resolver.go
index ea4b642..0ad7223 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -761,6 +761,14 @@ func (r *Resolver) validateService(ctx *context, svc *Service) {
 	if svc.Rule == nil {
 		return
 	}
+	if svc.File.GoPackage == nil {
+		ctx.addError(
+			ErrWithLocation(
+				`"go_package" option must be specified in the file that defines the service`,
+				source.NewServiceBuilder(ctx.fileName(), svc.Name).Location(),
+			),
+		)
+	}
 	r.validateMethodResponse(ctx, svc)
 }
 
-- 
2.43.0


From 94d6ef584040ddda7aeb84db63e8a876536c41be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:25 +0000
Subject: [PATCH 29/47] fix: report a failure to declare the error or map
 variable instead of panicking

---
 resolver/resolver.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index 0ad7223..e526fb9 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -4101,6 +4101,7 @@ func (r *Resolver) resolveMapExprCELValues(ctx *context, env *cel.Env, expr *Map
 					builder.WithIteratorSource().Location(),
 				),
 			)
+			return nil
 		}
 		mapEnv = newEnv
 	}
@@ -4174,9 +4175,18 @@ func (r *Resolver) resolveCallExprCELValues(ctx *context, env *cel.Env, expr *Ca
 			}
 		}
 	}
-	grpcErrEnv, _ := env.Extend(
+	grpcErrEnv, err := env.Extend(
 		cel.Variable("error", cel.ObjectType("grpc.federation.private.Error")),
 	)
+	if err != nil {
+		ctx.addError(
+			ErrWithLocation(
+				fmt.Sprintf(`failed to extend cel.Env from error variable: %s`, err.Error()),
+				builder.Location(),
+			),
+		)
+		return NewMessageType(expr.Method.Response, false)
+	}
 	if expr.Retry != nil {
 		retryBuilder := builder.WithRetry()
 		retry := expr.Retry
-- 
2.43.0


From 7ff17e3f9cf70d450a14d32e7d6f581928337ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:43 +0000
Subject: [PATCH 30/47] fix: reject a retry without a policy instead of
 panicking

---
 resolver/resolver.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index e526fb9..904c19b 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -3430,6 +3430,14 @@ func (r *Resolver) resolveRetry(ctx *context, def *federation.RetryPolicy, timeo
 	if def == nil {
 		return nil
 	}
+	if def.GetConstant() == nil && def.GetExponential() == nil {
+		ctx.addError(
+			ErrWithLocation(
+				`"constant" or "exponential" must be specified`,
+				builder.Location(),
+			),
+		)
+	}
 	ifExpr := "true"
 	if cond := def.GetIf(); cond != "" {
 		ifExpr = cond
-- 
2.43.0


From 1b9fcd51415f2be2bfbbe4fc27ff315f575d97d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:03 +0000
Subject: [PATCH 31/47] fix: keep one object for a message that its nested
 messages refer to

---
 resolver/resolver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index 904c19b..42504bf 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -1158,6 +1158,8 @@ func (r *Resolver) resolveMessage(ctx *context, pkg *Package, name string, build
 		Name: msgDef.GetName(),
 		Desc: msgDef,
 	}
+	// Nested messages may refer to this message.
+	r.cachedMessageMap[fqdn] = msg
 	for _, nestedMsgDef := range msgDef.GetNestedType() {
 		nestedMsg := r.resolveMessage(ctx, pkg, fmt.Sprintf("%s.%s", name, nestedMsgDef.GetName()), builder.WithMessage(name))
 		if nestedMsg == nil {
@@ -1185,7 +1187,6 @@ func (r *Resolver) resolveMessage(ctx *context, pkg *Package, name string, build
 			),
 		)
 	}
-	r.cachedMessageMap[fqdn] = msg
 	r.messageToRuleMap[msg] = rule
 	ctx = ctx.withMessage(msg)
 	var oneofs []*Oneof
-- 
2.43.0


From 48ca0edd80ef9542f0c848f44f7e7e0017a11019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:03 +0000
Subject: [PATCH 32/47] fix: reject cyclic messages that no other message leads
 to

---
 resolver/graph.go | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/resolver/graph.go b/resolver/graph.go
index aa7b743..ebaf8aa 100644
--- a/resolver/graph.go
+++ b/resolver/graph.go
@@ -31,18 +31,24 @@ func CreateAllMessageDependencyGraph(ctx *context, msgs []*Message) *AllMessageD
 			roots = append(roots, node)
 		}
 	}
-	if len(roots) == 0 {
-		return nil
-	}
 	sort.Slice(roots, func(i, j int) bool {
 		return roots[i].Message.Name < roots[j].Message.Name
 	})
-	graph := &AllMessageDependencyGraph{Roots: roots}
-	if err := validateAllMessageGraph(graph); err != nil {
+	// The messages of a cycle may not be reachable from any root.
+	nodes := append([]*AllMessageDependencyGraphNode{}, roots...)
+	for _, msg := range msgs {
+		if node, exists := msgToNode[msg]; exists {
+			nodes = append(nodes, node)
+		}
+	}
+	if err := validateAllMessageGraph(nodes); err != nil {
 		ctx.addError(err)
 		return nil
 	}
-	return graph
+	if len(roots) == 0 {
+		return nil
+	}
+	return &AllMessageDependencyGraph{Roots: roots}
 }
 
 func (n *AllMessageDependencyGraphNode) childMessages() []*Message {
@@ -447,23 +453,27 @@ func validateMessageNodeCyclicDependency(target *MessageDependencyGraphNode, vis
 	return nil
 }
 
-func validateAllMessageGraph(graph *AllMessageDependencyGraph) *LocationError {
-	for _, root := range graph.Roots {
-		if err := validateAllMessageGraphNode(root); err != nil {
+func validateAllMessageGraph(nodes []*AllMessageDependencyGraphNode) *LocationError {
+	validated := make(map[*AllMessageDependencyGraphNode]struct{})
+	for _, node := range nodes {
+		if err := validateAllMessageGraphNode(node, validated); err != nil {
 			return err
 		}
 	}
 	return nil
 }
 
-func validateAllMessageGraphNode(node *AllMessageDependencyGraphNode) *LocationError {
-	if err := validateAllMessageGraphNodeCyclicDependency(node, make(map[*AllMessageDependencyGraphNode]struct{}), []*AllMessageDependencyGraphNode{}); err != nil {
+func validateAllMessageGraphNode(node *AllMessageDependencyGraphNode, validated map[*AllMessageDependencyGraphNode]struct{}) *LocationError {
+	if err := validateAllMessageGraphNodeCyclicDependency(node, make(map[*AllMessageDependencyGraphNode]struct{}), validated, []*AllMessageDependencyGraphNode{}); err != nil {
 		return err
 	}
 	return nil
 }
 
-func validateAllMessageGraphNodeCyclicDependency(target *AllMessageDependencyGraphNode, visited map[*AllMessageDependencyGraphNode]struct{}, path []*AllMessageDependencyGraphNode) *LocationError {
+func validateAllMessageGraphNodeCyclicDependency(target *AllMessageDependencyGraphNode, visited, validated map[*AllMessageDependencyGraphNode]struct{}, path []*AllMessageDependencyGraphNode) *LocationError {
+	if _, exists := validated[target]; exists {
+		return nil
+	}
 	path = append(path, target)
 	if _, exists := visited[target]; exists {
 		var messages []string
@@ -479,10 +489,11 @@ func validateAllMessageGraphNodeCyclicDependency(target *AllMessageDependencyGra
 	}
 	visited[target] = struct{}{}
 	for _, child := range target.Children {
-		if err := validateAllMessageGraphNodeCyclicDependency(child, visited, path); err != nil {
+		if err := validateAllMessageGraphNodeCyclicDependency(child, visited, validated, path); err != nil {
 			return err
 		}
 	}
 	delete(visited, target)
+	validated[target] = struct{}{}
 	return nil
 }
-- 
2.43.0


From c4734e4734c1878e14554445474517236c017f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:22 +0000
Subject: [PATCH 33/47] fix: generate the resolver of response messages that
 other messages depend on

---
 resolver/graph.go    | 28 ++++++++++++++--
 resolver/resolver.go | 77 +++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 94 insertions(+), 11 deletions(-)

diff --git a/resolver/graph.go b/resolver/graph.go
index ebaf8aa..5fc3fa4 100644
--- a/resolver/graph.go
+++ b/resolver/graph.go
@@ -51,13 +51,35 @@ func CreateAllMessageDependencyGraph(ctx *context, msgs []*Message) *AllMessageD
 	return &AllMessageDependencyGraph{Roots: roots}
 }
 
-func (n *AllMessageDependencyGraphNode) childMessages() []*Message {
-	messages := []*Message{n.Message}
+// nodes returns all nodes reachable from the roots. Each node is returned once.
+func (g *AllMessageDependencyGraph) nodes() []*AllMessageDependencyGraphNode {
+	var nodes []*AllMessageDependencyGraphNode
+	visited := make(map[*AllMessageDependencyGraphNode]struct{})
+	for _, root := range g.Roots {
+		nodes = append(nodes, root.nodes(visited)...)
+	}
+	return nodes
+}
+
+func (n *AllMessageDependencyGraphNode) nodes(visited map[*AllMessageDependencyGraphNode]struct{}) []*AllMessageDependencyGraphNode {
+	if _, exists := visited[n]; exists {
+		return nil
+	}
+	visited[n] = struct{}{}
+	nodes := []*AllMessageDependencyGraphNode{n}
 	for _, child := range n.Children {
 		if child.Message.Rule == nil {
 			continue
 		}
-		messages = append(messages, child.childMessages()...)
+		nodes = append(nodes, child.nodes(visited)...)
+	}
+	return nodes
+}
+
+func (n *AllMessageDependencyGraphNode) childMessages() []*Message {
+	var messages []*Message
+	for _, node := range n.nodes(make(map[*AllMessageDependencyGraphNode]struct{})) {
+		messages = append(messages, node.Message)
 	}
 	return messages
 }
diff --git a/resolver/resolver.go b/resolver/resolver.go
index 42504bf..56e5b9f 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -3644,23 +3644,38 @@ func (r *Resolver) resolveMessageArgument(ctx *context, files []*File) {
 	// Need to prepare the svcMsgSet first to build env messages.
 	// This is necessary because we need to know which messages are used by which services when creating the messages.
 	svcMsgSet := make(map[*Service]map[*Message]struct{})
-	for _, root := range graph.Roots {
-		// The root message is always the response message of the method.
-		rootMsg := root.Message
+	for _, node := range graph.nodes() {
+		// The response message of a method is not always a root: other messages may depend on it.
+		msg := node.Message
 		// Store the messages to serviceMsgMap first to avoid inserting duplicated ones to Service.Messages
 		for _, svc := range r.cachedServiceMap {
 			if _, exists := svcMsgSet[svc]; !exists {
 				svcMsgSet[svc] = make(map[*Message]struct{})
 			}
 			// If the method of the service has not a response message, it is excluded.
-			if svc.HasMessageInMethod(rootMsg) || svc.HasMessageInVariables(rootMsg) {
-				for _, msg := range root.childMessages() {
+			if svc.HasMessageInMethod(msg) || svc.HasMessageInVariables(msg) {
+				for _, msg := range node.childMessages() {
 					svcMsgSet[svc][msg] = struct{}{}
 				}
 			}
 		}
 	}
 
+	isRoot := make(map[*AllMessageDependencyGraphNode]struct{})
+	for _, root := range graph.Roots {
+		isRoot[root] = struct{}{}
+	}
+	for _, node := range graph.nodes() {
+		if _, exists := isRoot[node]; exists {
+			continue
+		}
+		if node.Message.Rule == nil {
+			continue
+		}
+		// The methods pass the fields of the request message in addition to the arguments other messages pass.
+		r.addRequestFieldsToMessageArgument(ctx, node.Message)
+	}
+
 	for _, root := range graph.Roots {
 		rootMsg := root.Message
 
@@ -3695,6 +3710,7 @@ func (r *Resolver) resolveMessageArgument(ctx *context, files []*File) {
 		}
 
 		msgArg.Fields = append(msgArg.Fields, reqMsg.Fields...)
+		r.addRequestFieldsToMessageArgument(ctx, rootMsg)
 		r.cachedMessageMap[msgArg.FQDN()] = msgArg
 		r.resolveMessageArgumentRecursive(ctx, root, svcMsgSet)
 	}
@@ -3716,6 +3732,40 @@ func (r *Resolver) resolveMessageArgument(ctx *context, files []*File) {
 	}
 }
 
+// addRequestFieldsToMessageArgument adds the request fields of the methods that respond with the message to its message argument.
+func (r *Resolver) addRequestFieldsToMessageArgument(ctx *context, msg *Message) {
+	for _, method := range r.lookupMethodsFromResponseMessage(msg) {
+		msgArg := msg.Rule.MessageArgument
+		if msgArg == nil {
+			msgArg = newMessageArgument(msg)
+			msg.Rule.MessageArgument = msgArg
+		}
+		for _, field := range method.Request.Fields {
+			if arg := msgArg.Field(field.Name); arg != nil {
+				if isDifferentType(arg.Type, field.Type) {
+					ctx.addError(
+						ErrWithLocation(
+							fmt.Sprintf(
+								"%q argument name is declared with a different type kind. found %q and %q type",
+								field.Name,
+								arg.Type.Kind.ToString(),
+								field.Type.Kind.ToString(),
+							),
+							newMessageBuilderFromMessage(msg).Location(),
+						),
+					)
+				}
+				continue
+			}
+			// The owner of the field is replaced by the message argument,
+			// so the field must not be shared with the request message.
+			copied := *field
+			copied.Message = msgArg
+			msgArg.Fields = append(msgArg.Fields, &copied)
+		}
+	}
+}
+
 // serviceVariableDefinitions returns the service variables that refer to the message.
 func serviceVariableDefinitions(files []*File, msg *Message) []*VariableDefinition {
 	var defs []*VariableDefinition
@@ -5269,12 +5319,23 @@ func (r *Resolver) resolveValue(def *commonValueDef) (*Value, error) {
 }
 
 func (r *Resolver) lookupRequestMessageFromResponseMessage(resMsg *Message) *Message {
+	for _, method := range r.lookupMethodsFromResponseMessage(resMsg) {
+		return method.Request
+	}
+	return nil
+}
+
+func (r *Resolver) lookupMethodsFromResponseMessage(resMsg *Message) []*Method {
+	var methods []*Method
 	for _, method := range r.cachedMethodMap {
-		if method.FederationResponse() == resMsg {
-			return method.Request
+		if method.FederationResponse() == resMsg && method.Request != nil {
+			methods = append(methods, method)
 		}
 	}
-	return nil
+	sort.Slice(methods, func(i, j int) bool {
+		return methods[i].FQDN() < methods[j].FQDN()
+	})
+	return methods
 }
 
 func (r *Resolver) splitMethodFullName(pkg *Package, name string) (string, string, string, error) {
-- 
2.43.0


From b035f896eb5b87ef76e7fcc3b529dbb2f8bfa307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:22 +0000
Subject: [PATCH 34/47] fix: do not generate the services of imported files
 again

---
 generator/generator.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/generator/generator.go b/generator/generator.go
index ee1290b..4cd5555 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -601,13 +601,26 @@ func (g *Generator) generateByGRPCFederation(r *PluginRequest) (*pluginpb.CodeGe
 		return nil, err
 	}
 
+	generateFileMap := make(map[string]struct{})
+	for _, name := range r.req.GetFileToGenerate() {
+		generateFileMap[name] = struct{}{}
+	}
+
 	var resp pluginpb.CodeGeneratorResponse
 	for _, file := range result.Files {
+		fileName := relativePath
+		if _, exists := generateFileMap[file.Name]; !exists {
+			if file.HasServiceWithRule() || len(file.CELPlugins) != 0 {
+				// The code of an imported file is generated when the file itself is processed.
+				continue
+			}
+			fileName = file.Name
+		}
 		out, err := NewCodeGenerator().Generate(file)
 		if err != nil {
 			return nil, err
 		}
-		dir, err := pathResolver.OutputDir(relativePath, file.GoPackage)
+		dir, err := pathResolver.OutputDir(fileName, file.GoPackage)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From aa02e76d5bc65ee0d3a3209d8e8182a0022f4fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:14 +0000
Subject: [PATCH 35/47] fix: report and look up the position of every element

Elements written as separate blocks (def {..} def {..}), several elements of one kind,
error codes and messages, environment variables, oneof definitions, detail messages and
methods without option were reported at another element or at none.
---
 source/file.go | 266 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 192 insertions(+), 74 deletions(-)

diff --git a/source/file.go b/source/file.go
index 63c9a48..cb1f800 100644
--- a/source/file.go
+++ b/source/file.go
@@ -243,17 +243,19 @@ func (f *File) findMessageByPos(ctx *findContext, pos Position, node *ast.Messag
 	} else {
 		ctx.message = msg
 	}
+	var defIdx int
 	for _, decl := range node.MessageBody.Decls {
 		switch n := decl.(type) {
 		case *ast.OptionNode:
 			if !f.matchOption(f.optionName(n), msgOptionName) {
 				continue
 			}
-			if found := f.findMessageOptionByPos(ctx.child(), pos, n); found != nil {
+			if found := f.findMessageOptionByPos(ctx.child(), defIdx, pos, n); found != nil {
 				return found
 			}
+			defIdx += len(f.getDefsFromMessageOption(n))
 		case *ast.FieldNode:
-			if found := f.findFieldByPos(ctx, pos, n); found != nil {
+			if found := f.findFieldByPos(ctx.child(), pos, n); found != nil {
 				return found
 			}
 		case *ast.MessageNode:
@@ -269,6 +271,9 @@ func (f *File) findMessageByPos(ctx *findContext, pos Position, node *ast.Messag
 				return found
 			}
 		case *ast.MapFieldNode:
+			if found := f.findFieldByPos(ctx.child(), pos, n); found != nil {
+				return found
+			}
 		}
 	}
 	return nil
@@ -286,7 +291,7 @@ func (f *File) findEnumByPos(ctx *findContext, pos Position, node *ast.EnumNode)
 				return found
 			}
 		case *ast.EnumValueNode:
-			if found := f.findEnumValueByPos(ctx, pos, n); found != nil {
+			if found := f.findEnumValueByPos(ctx.child(), pos, n); found != nil {
 				return found
 			}
 		}
@@ -405,7 +410,7 @@ func (f *File) findOneofByPos(ctx *findContext, pos Position, node *ast.OneofNod
 	for _, elem := range node.Decls {
 		switch n := elem.(type) {
 		case *ast.FieldNode:
-			if found := f.findFieldByPos(ctx, pos, n); found != nil {
+			if found := f.findFieldByPos(ctx.child(), pos, n); found != nil {
 				return found
 			}
 		}
@@ -413,10 +418,9 @@ func (f *File) findOneofByPos(ctx *findContext, pos Position, node *ast.OneofNod
 	return nil
 }
 
-func (f *File) findFieldByPos(ctx *findContext, pos Position, node *ast.FieldNode) *Location {
+func (f *File) findFieldByPos(ctx *findContext, pos Position, node ast.FieldDeclNode) *Location {
 	opts := node.GetOptions()
-	fieldName := string(node.Name.AsIdentifier())
-	ctx.field = &Field{Name: fieldName}
+	ctx.field = &Field{Name: f.fieldName(node)}
 	if opts != nil {
 		for _, opt := range opts.Options {
 			if !f.matchOption(f.optionName(opt), fieldOptionName) {
@@ -427,7 +431,7 @@ func (f *File) findFieldByPos(ctx *findContext, pos Position, node *ast.FieldNod
 			}
 		}
 	}
-	if f.containsPos(node.FldType, pos) {
+	if n, ok := node.(*ast.FieldNode); ok && f.containsPos(n.FldType, pos) {
 		ctx.field.Type = true
 		return f.buildLocation(ctx)
 	}
@@ -462,10 +466,16 @@ func (f *File) findFieldOptionByPos(ctx *findContext, pos Position, node *ast.Op
 	return nil
 }
 
-func (f *File) findMessageOptionByPos(ctx *findContext, pos Position, node *ast.OptionNode) *Location {
+func (f *File) findMessageOptionByPos(ctx *findContext, defIdx int, pos Position, node *ast.OptionNode) *Location {
 	switch n := node.Val.(type) {
 	case *ast.MessageLiteralNode:
 		ctx.messageOption = &MessageOption{}
+		if f.isDefOption(node) {
+			if found := f.findDefByPos(ctx, defIdx, pos, f.getDefsFromMessageOption(node)); found != nil {
+				return found
+			}
+			break
+		}
 		for _, elem := range n.Elements {
 			optName := elem.Name.Name.AsIdentifier()
 			switch optName {
@@ -475,9 +485,11 @@ func (f *File) findMessageOptionByPos(ctx *findContext, pos Position, node *ast.
 					return f.buildLocation(ctx)
 				}
 			case "def":
-				if found := f.findDefByPos(ctx, pos, f.getMessageListFromNode(elem.Val)); found != nil {
+				defs := f.getMessageListFromNode(elem.Val)
+				if found := f.findDefByPos(ctx, defIdx, pos, defs); found != nil {
 					return found
 				}
+				defIdx += len(defs)
 			}
 		}
 	case *ast.StringLiteralNode:
@@ -494,6 +506,39 @@ func (f *File) findMessageOptionByPos(ctx *findContext, pos Position, node *ast.
 	return nil
 }
 
+// isDefOption whether the option is written like `option (grpc.federation.message).def = {}`.
+func (f *File) isDefOption(node *ast.OptionNode) bool {
+	return strings.HasSuffix(f.optionName(node), ".def")
+}
+
+// getDefsFromMessageOption returns all definitions of a grpc.federation.message option.
+func (f *File) getDefsFromMessageOption(node *ast.OptionNode) []*ast.MessageLiteralNode {
+	if f.isDefOption(node) {
+		return f.getMessageListFromNode(node.Val)
+	}
+	literal, ok := node.Val.(*ast.MessageLiteralNode)
+	if !ok {
+		return nil
+	}
+	var defs []*ast.MessageLiteralNode
+	for _, elem := range literal.Elements {
+		if elem.Name.Name.AsIdentifier() == "def" {
+			defs = append(defs, f.getMessageListFromNode(elem.Val)...)
+		}
+	}
+	return defs
+}
+
+func (f *File) fieldName(node ast.FieldDeclNode) string {
+	switch n := node.(type) {
+	case *ast.FieldNode:
+		return string(n.Name.AsIdentifier())
+	case *ast.MapFieldNode:
+		return string(n.Name.AsIdentifier())
+	}
+	return ""
+}
+
 func (f *File) getMessageListFromNode(node ast.Node) []*ast.MessageLiteralNode {
 	switch value := node.(type) {
 	case *ast.MessageLiteralNode:
@@ -512,8 +557,9 @@ func (f *File) getMessageListFromNode(node ast.Node) []*ast.MessageLiteralNode {
 	return nil
 }
 
-func (f *File) findDefByPos(ctx *findContext, pos Position, list []*ast.MessageLiteralNode) *Location {
-	for idx, node := range list {
+func (f *File) findDefByPos(ctx *findContext, startIdx int, pos Position, list []*ast.MessageLiteralNode) *Location {
+	for i, node := range list {
+		idx := startIdx + i
 		for _, elem := range node.Elements {
 			fieldName := elem.Name.Name.AsIdentifier()
 			switch fieldName {
@@ -572,16 +618,17 @@ func (f *File) findDefByPos(ctx *findContext, pos Position, list []*ast.MessageL
 			}
 		}
 	}
-	if len(list) == 0 {
-		return nil
-	}
-	if f.containsPos(list[0], pos) {
-		return f.buildLocation(ctx)
+	for i, node := range list {
+		if f.containsPos(node, pos) {
+			ctx.def = &VariableDefinitionOption{Idx: startIdx + i}
+			return f.buildLocation(ctx)
+		}
 	}
 	return nil
 }
 
 func (f *File) findMessageExprByPos(ctx *findContext, defIdx int, pos Position, node *ast.MessageLiteralNode) *Location {
+	var argIdx int
 	for _, elem := range node.Elements {
 		fieldName := elem.Name.Name.AsIdentifier()
 		switch fieldName {
@@ -598,19 +645,26 @@ func (f *File) findMessageExprByPos(ctx *findContext, defIdx int, pos Position,
 				return f.buildLocation(ctx)
 			}
 		case "args":
-			if found := f.findMessageArgumentByPos(ctx, defIdx, pos, f.getMessageListFromNode(elem.Val)); found != nil {
+			args := f.getMessageListFromNode(elem.Val)
+			if found := f.findMessageArgumentByPos(ctx, defIdx, argIdx, pos, args); found != nil {
 				return found
 			}
+			argIdx += len(args)
 		}
 	}
 	if f.containsPos(node, pos) {
+		ctx.def = &VariableDefinitionOption{
+			Idx:     defIdx,
+			Message: &MessageExprOption{},
+		}
 		return f.buildLocation(ctx)
 	}
 	return nil
 }
 
-func (f *File) findMessageArgumentByPos(ctx *findContext, defIdx int, pos Position, list []*ast.MessageLiteralNode) *Location {
-	for argIdx, literal := range list {
+func (f *File) findMessageArgumentByPos(ctx *findContext, defIdx, startIdx int, pos Position, list []*ast.MessageLiteralNode) *Location {
+	for i, literal := range list {
+		argIdx := startIdx + i
 		for _, arg := range literal.Elements {
 			fieldName := arg.Name.Name.AsIdentifier()
 			switch fieldName {
@@ -672,6 +726,7 @@ func (f *File) findMessageArgumentByPos(ctx *findContext, defIdx int, pos Positi
 }
 
 func (f *File) findCallExprByPos(ctx *findContext, defIdx int, pos Position, node *ast.MessageLiteralNode) *Location {
+	var reqIdx int
 	for _, elem := range node.Elements {
 		fieldName := elem.Name.Name.AsIdentifier()
 		switch fieldName {
@@ -688,9 +743,11 @@ func (f *File) findCallExprByPos(ctx *findContext, defIdx int, pos Position, nod
 				return f.buildLocation(ctx)
 			}
 		case "request":
-			if found := f.findMethodRequestByPos(ctx, defIdx, pos, f.getMessageListFromNode(elem.Val)); found != nil {
+			requests := f.getMessageListFromNode(elem.Val)
+			if found := f.findMethodRequestByPos(ctx, defIdx, reqIdx, pos, requests); found != nil {
 				return found
 			}
+			reqIdx += len(requests)
 		}
 	}
 	if f.containsPos(node, pos) {
@@ -703,8 +760,9 @@ func (f *File) findCallExprByPos(ctx *findContext, defIdx int, pos Position, nod
 	return nil
 }
 
-func (f *File) findMethodRequestByPos(ctx *findContext, defIdx int, pos Position, list []*ast.MessageLiteralNode) *Location {
-	for idx, literal := range list {
+func (f *File) findMethodRequestByPos(ctx *findContext, defIdx, startIdx int, pos Position, list []*ast.MessageLiteralNode) *Location {
+	for i, literal := range list {
+		idx := startIdx + i
 		for _, field := range literal.Elements {
 			fieldName := field.Name.Name.AsIdentifier()
 			switch fieldName {
@@ -788,7 +846,7 @@ func (f *File) findServiceByPos(ctx *findContext, pos Position, node *ast.Servic
 				return found
 			}
 		case *ast.RPCNode:
-			if found := f.findMethodByPos(ctx, pos, n); found != nil {
+			if found := f.findMethodByPos(ctx.child(), pos, n); found != nil {
 				return found
 			}
 		}
@@ -1019,14 +1077,12 @@ func (f *File) nodeInfoByMessage(node *ast.MessageNode, msg *Message) *ast.NodeI
 	if string(node.Name.AsIdentifier()) != msg.Name {
 		return nil
 	}
+	var opts []*ast.OptionNode
 	for _, decl := range node.MessageBody.Decls {
 		switch n := decl.(type) {
 		case *ast.OptionNode:
-			if !f.matchOption(f.optionName(n), msgOptionName) {
-				continue
-			}
-			if msg.Option != nil {
-				return f.nodeInfoByMessageOption(n, msg.Option)
+			if f.matchOption(f.optionName(n), msgOptionName) {
+				opts = append(opts, n)
 			}
 		case *ast.FieldNode:
 			if msg.Field != nil {
@@ -1060,19 +1116,15 @@ func (f *File) nodeInfoByMessage(node *ast.MessageNode, msg *Message) *ast.NodeI
 			}
 		}
 	}
+	if msg.Option != nil && len(opts) != 0 {
+		return f.nodeInfoByMessageOptions(opts, msg.Option)
+	}
 	return f.nodeInfo(node)
 }
 
 func (f *File) nodeInfoByOneof(node *ast.OneofNode, msg *Message) *ast.NodeInfo {
 	for _, decl := range node.Decls {
 		switch n := decl.(type) {
-		case *ast.OptionNode:
-			if !f.matchOption(f.optionName(n), msgOptionName) {
-				continue
-			}
-			if msg.Option != nil {
-				return f.nodeInfoByMessageOption(n, msg.Option)
-			}
 		case *ast.FieldNode:
 			if msg.Field != nil {
 				if string(n.Name.AsIdentifier()) != msg.Field.Name {
@@ -1132,22 +1184,26 @@ func (f *File) nodeInfoByEnumValue(node *ast.EnumValueNode, value *EnumValue) *a
 			if !f.matchOption(f.optionName(opt), enumValueOptionName) {
 				continue
 			}
-			return f.nodeInfoByEnumValueOption(opt, value.Option)
+			if info := f.nodeInfoByEnumValueOption(opt, value.Option); info != nil {
+				return info
+			}
 		}
 	}
 	return f.nodeInfo(node)
 }
 
 func (f *File) nodeInfoByEnumValueOption(node *ast.OptionNode, opt *EnumValueOption) *ast.NodeInfo {
-	switch n := node.Val.(type) {
-	case *ast.StringLiteralNode:
-		if opt.Default && strings.HasSuffix(f.optionName(node), "default") {
-			return f.nodeInfo(n)
-		}
-		if opt.Alias && strings.HasSuffix(f.optionName(node), "alias") {
-			return f.nodeInfo(n)
-		}
-	case *ast.MessageLiteralNode:
+	optName := f.optionName(node)
+	if opt.Default && strings.HasSuffix(optName, ".default") {
+		return f.nodeInfo(node.Val)
+	}
+	if opt.Alias && strings.HasSuffix(optName, ".alias") {
+		return f.nodeInfo(node.Val)
+	}
+	if !strings.HasSuffix(optName, enumValueOptionName) {
+		return nil
+	}
+	if n, ok := node.Val.(*ast.MessageLiteralNode); ok {
 		var attrs []*ast.MessageLiteralNode
 		for _, elem := range n.Elements {
 			optName := elem.Name.Name.AsIdentifier()
@@ -1192,28 +1248,33 @@ func (f *File) nodeInfoByEnumValueAttribute(list []*ast.MessageLiteralNode, attr
 	return f.nodeInfo(node)
 }
 
-func (f *File) nodeInfoByMessageOption(node *ast.OptionNode, opt *MessageOption) *ast.NodeInfo {
-	switch n := node.Val.(type) {
-	case *ast.StringLiteralNode:
-		if opt.Alias && strings.HasSuffix(f.optionName(node), "alias") {
-			return f.nodeInfo(n)
+func (f *File) nodeInfoByMessageOptions(nodes []*ast.OptionNode, opt *MessageOption) *ast.NodeInfo {
+	var defs []*ast.MessageLiteralNode
+	for _, node := range nodes {
+		if opt.Def != nil {
+			defs = append(defs, f.getDefsFromMessageOption(node)...)
+			continue
 		}
-	case *ast.MessageLiteralNode:
-		var defs []*ast.MessageLiteralNode
-		for _, elem := range n.Elements {
-			optName := elem.Name.Name.AsIdentifier()
-			switch {
-			case opt.Def != nil && optName == "def":
-				defs = append(defs, f.getMessageListFromNode(elem.Val)...)
-			case opt.Alias && optName == "alias":
+		if !opt.Alias {
+			continue
+		}
+		if strings.HasSuffix(f.optionName(node), ".alias") {
+			return f.nodeInfo(node.Val)
+		}
+		literal, ok := node.Val.(*ast.MessageLiteralNode)
+		if !ok || f.isDefOption(node) {
+			continue
+		}
+		for _, elem := range literal.Elements {
+			if elem.Name.Name.AsIdentifier() == "alias" {
 				return f.nodeInfo(elem.Val)
 			}
 		}
-		if len(defs) != 0 {
-			return f.nodeInfoByDef(defs, opt.Def)
-		}
 	}
-	return f.nodeInfo(node)
+	if len(defs) != 0 {
+		return f.nodeInfoByDef(defs, opt.Def)
+	}
+	return f.nodeInfo(nodes[0])
 }
 
 func (f *File) nodeInfoByDef(list []*ast.MessageLiteralNode, def *VariableDefinitionOption) *ast.NodeInfo {
@@ -1497,7 +1558,7 @@ func (f *File) nodeInfoByValidationExpr(node *ast.MessageLiteralNode, opt *Valid
 				return nil
 			}
 			return f.nodeInfo(value)
-		case fieldName == "error":
+		case opt.Error != nil && fieldName == "error":
 			value, ok := elem.Val.(*ast.MessageLiteralNode)
 			if !ok {
 				return nil
@@ -1526,6 +1587,10 @@ func (f *File) nodeInfoByGRPCError(list []*ast.MessageLiteralNode, opt *GRPCErro
 				return nil
 			}
 			return f.nodeInfo(value)
+		case opt.Code && fieldName == "code":
+			return f.nodeInfo(elem.Val)
+		case opt.Message && fieldName == "message":
+			return f.nodeInfo(elem.Val)
 		case opt.Ignore && fieldName == "ignore":
 			value, ok := elem.Val.(*ast.IdentNode)
 			if !ok {
@@ -1596,7 +1661,7 @@ func (f *File) nodeInfoByGRPCErrorDetail(list []*ast.MessageLiteralNode, detail
 		return f.nodeInfoByDef(defs, detail.Def)
 	}
 	if len(messages) != 0 {
-		return f.nodeInfoByDef(messages, detail.Message)
+		return f.nodeInfoByDetailMessage(messages, detail.Message)
 	}
 	if len(preconditionFailures) != 0 {
 		return f.nodeInfoByPreconditionFailure(preconditionFailures, detail.PreconditionFailure)
@@ -1611,6 +1676,17 @@ func (f *File) nodeInfoByGRPCErrorDetail(list []*ast.MessageLiteralNode, detail
 	return f.nodeInfo(node)
 }
 
+func (f *File) nodeInfoByDetailMessage(list []*ast.MessageLiteralNode, msg *VariableDefinitionOption) *ast.NodeInfo {
+	if msg.Idx >= len(list) {
+		return nil
+	}
+	node := list[msg.Idx]
+	if msg.Message != nil {
+		return f.nodeInfoByMessageExpr(node, msg.Message)
+	}
+	return f.nodeInfo(node)
+}
+
 func (f *File) nodeInfoByPreconditionFailure(list []*ast.MessageLiteralNode, failure *GRPCErrorDetailPreconditionFailureOption) *ast.NodeInfo {
 	if failure.Idx >= len(list) {
 		return nil
@@ -1709,6 +1785,8 @@ func (f *File) nodeInfoByArgument(list []*ast.MessageLiteralNode, arg *ArgumentO
 	for _, elem := range literal.Elements {
 		fieldName := elem.Name.Name.AsIdentifier()
 		switch {
+		case arg.Name && fieldName == "name":
+			return f.nodeInfo(elem.Val)
 		case arg.By && fieldName == "by":
 			value, ok := elem.Val.(*ast.StringLiteralNode)
 			if !ok {
@@ -1733,7 +1811,9 @@ func (f *File) nodeInfoByField(node ast.FieldDeclNode, field *Field) *ast.NodeIn
 			if !f.matchOption(f.optionName(opt), fieldOptionName) {
 				continue
 			}
-			return f.nodeInfoByFieldOption(opt, field.Option)
+			if info := f.nodeInfoByFieldOption(opt, field.Option); info != nil {
+				return info
+			}
 		}
 	}
 	if field.Type && node.FieldType() != nil {
@@ -1743,15 +1823,25 @@ func (f *File) nodeInfoByField(node ast.FieldDeclNode, field *Field) *ast.NodeIn
 }
 
 func (f *File) nodeInfoByFieldOption(node *ast.OptionNode, opt *FieldOption) *ast.NodeInfo {
-	switch n := node.Val.(type) {
-	case *ast.StringLiteralNode:
-		if opt.By && strings.HasSuffix(f.optionName(node), "by") {
-			return f.nodeInfo(n)
+	optName := f.optionName(node)
+	switch {
+	case strings.HasSuffix(optName, ".by"):
+		if opt.By {
+			return f.nodeInfo(node.Val)
 		}
-	case *ast.MessageLiteralNode:
-		if opt.Oneof != nil && strings.HasSuffix(f.optionName(node), "oneof") {
+		return nil
+	case strings.HasSuffix(optName, ".alias"):
+		if opt.Alias {
+			return f.nodeInfo(node.Val)
+		}
+		return nil
+	case strings.HasSuffix(optName, ".oneof"):
+		if n, ok := node.Val.(*ast.MessageLiteralNode); ok && opt.Oneof != nil {
 			return f.nodeInfoByFieldOneof(n, opt.Oneof)
 		}
+		return nil
+	}
+	if n, ok := node.Val.(*ast.MessageLiteralNode); ok {
 		for _, elem := range n.Elements {
 			optName := elem.Name.Name.AsIdentifier()
 			switch {
@@ -1761,6 +1851,8 @@ func (f *File) nodeInfoByFieldOption(node *ast.OptionNode, opt *FieldOption) *as
 					return nil
 				}
 				return f.nodeInfo(value)
+			case opt.Alias && optName == "alias":
+				return f.nodeInfo(elem.Val)
 			case opt.Oneof != nil && optName == "oneof":
 				value, ok := elem.Val.(*ast.MessageLiteralNode)
 				if !ok {
@@ -1774,6 +1866,7 @@ func (f *File) nodeInfoByFieldOption(node *ast.OptionNode, opt *FieldOption) *as
 }
 
 func (f *File) nodeInfoByFieldOneof(node *ast.MessageLiteralNode, opt *FieldOneof) *ast.NodeInfo {
+	var defs []*ast.MessageLiteralNode
 	for _, elem := range node.Elements {
 		fieldName := elem.Name.Name.AsIdentifier()
 		switch {
@@ -1786,7 +1879,7 @@ func (f *File) nodeInfoByFieldOneof(node *ast.MessageLiteralNode, opt *FieldOneo
 		case opt.Default && fieldName == "default":
 			return f.nodeInfo(elem.Val)
 		case opt.Def != nil && fieldName == "def":
-			return f.nodeInfoByDef(f.getMessageListFromNode(elem.Val), opt.Def)
+			defs = append(defs, f.getMessageListFromNode(elem.Val)...)
 		case opt.By && fieldName == "by":
 			value, ok := elem.Val.(*ast.StringLiteralNode)
 			if !ok {
@@ -1795,6 +1888,9 @@ func (f *File) nodeInfoByFieldOneof(node *ast.MessageLiteralNode, opt *FieldOneo
 			return f.nodeInfo(value)
 		}
 	}
+	if len(defs) != 0 {
+		return f.nodeInfoByDef(defs, opt.Def)
+	}
 	return f.nodeInfo(node)
 }
 
@@ -1880,6 +1976,28 @@ func (f *File) nodeInfoByEnvVar(list []*ast.MessageLiteralNode, v *EnvVar) *ast.
 				return nil
 			}
 			return f.nodeInfo(value)
+		case v.Type && fieldName == "type":
+			return f.nodeInfo(elem.Val)
+		case v.Option != nil && fieldName == "option":
+			value, ok := elem.Val.(*ast.MessageLiteralNode)
+			if !ok {
+				return nil
+			}
+			return f.nodeInfoByEnvVarOption(value, v.Option)
+		}
+	}
+	return f.nodeInfo(node)
+}
+
+func (f *File) nodeInfoByEnvVarOption(node *ast.MessageLiteralNode, opt *EnvVarOption) *ast.NodeInfo {
+	for _, elem := range node.Elements {
+		fieldName := elem.Name.Name.AsIdentifier()
+		switch {
+		case opt.Alternate && fieldName == "alternate",
+			opt.Default && fieldName == "default",
+			opt.Required && fieldName == "required",
+			opt.Ignored && fieldName == "ignored":
+			return f.nodeInfo(elem.Val)
 		}
 	}
 	return f.nodeInfo(node)
@@ -1973,7 +2091,7 @@ func (f *File) nodeInfoByMethod(node *ast.RPCNode, mtd *Method) *ast.NodeInfo {
 			}
 		}
 	}
-	return nil
+	return f.nodeInfo(node)
 }
 
 func (f *File) nodeInfoByMethodOption(node *ast.OptionNode, opt *MethodOption) *ast.NodeInfo {
-- 
2.43.0


From 4cc01463414fea6a6a92014af5aabb96925e2ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:14 +0000
Subject: [PATCH 36/47] fix: report the positions of a diagnostic in the text
 that was validated

The file on disk was read again, which may differ from the given text.
---
 validator/validator.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/validator/validator.go b/validator/validator.go
index f92a606..a8df9cf 100644
--- a/validator/validator.go
+++ b/validator/validator.go
@@ -76,13 +76,21 @@ func (v *Validator) Validate(ctx context.Context, file *source.File, opts ...Val
 		}
 		return v.compilerErrorToValidationOutputs(compilerErr)
 	}
+	// The text being validated may differ from the one on disk.
+	if relPath, err := compiler.RelativePathFromImportPaths(file.Path(), v.importPaths); err == nil {
+		v.pathToFileMap[relPath] = file
+	}
 	r := resolver.New(protos, resolver.ImportPathOption(v.importPaths...))
 	result, err := r.Resolve()
-	return v.ToValidationOutputByResolverResult(result, err, opts...)
+	return v.toValidationOutputByResolverResult(result, err)
 }
 
 func (v *Validator) ToValidationOutputByResolverResult(result *resolver.Result, err error, opts ...ValidatorOption) []*ValidationOutput {
 	v.applyOptions(opts...)
+	return v.toValidationOutputByResolverResult(result, err)
+}
+
+func (v *Validator) toValidationOutputByResolverResult(result *resolver.Result, err error) []*ValidationOutput {
 	var outs []*ValidationOutput
 	if result != nil {
 		outs = v.toValidationOutputByWarnings(result.Warnings)
-- 
2.43.0


From f4d7c2265d2b710ccb7e8b4da8c00658f152b811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:30 +0000
Subject: [PATCH 37/47] fix: reject service variables of messages without the
 message option

The generated code called a resolver that does not exist.
---
 resolver/resolver.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index 56e5b9f..4112616 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -770,6 +770,35 @@ func (r *Resolver) validateService(ctx *context, svc *Service) {
 		)
 	}
 	r.validateMethodResponse(ctx, svc)
+	r.validateServiceVariableMessages(ctx, svc)
+}
+
+func (r *Resolver) validateServiceVariableMessages(ctx *context, svc *Service) {
+	builder := source.NewServiceBuilder(ctx.fileName(), svc.Name).WithOption()
+	for idx, svcVar := range svc.Rule.Vars {
+		if svcVar.Expr == nil {
+			continue
+		}
+		varBuilder := builder.WithVar(idx)
+		switch {
+		case svcVar.Expr.Message != nil:
+			r.validateDependentMessageRule(ctx, svcVar.Expr.Message, varBuilder.WithMessage())
+		case svcVar.Expr.Map != nil && svcVar.Expr.Map.Expr != nil && svcVar.Expr.Map.Expr.Message != nil:
+			r.validateDependentMessageRule(ctx, svcVar.Expr.Map.Expr.Message, varBuilder.WithMap().WithMessage())
+		}
+	}
+}
+
+func (r *Resolver) validateDependentMessageRule(ctx *context, expr *MessageExpr, builder *source.MessageExprOptionBuilder) {
+	if expr.Message == nil || expr.Message.Rule != nil {
+		return
+	}
+	ctx.addError(
+		ErrWithLocation(
+			fmt.Sprintf(`"%s.%s" message does not specify "grpc.federation.message" option`, expr.Message.PackageName(), expr.Message.Name),
+			builder.WithName().Location(),
+		),
+	)
 }
 
 func (r *Resolver) validateMethodResponse(ctx *context, service *Service) {
-- 
2.43.0


From a7fbf93f1d16405d5e4967b68916b1828db2909f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:30 +0000
Subject: [PATCH 38/47] fix: report the errors of detail messages at the
 message

---
 resolver/resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index 4112616..5204105 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -4434,7 +4434,7 @@ func (r *Resolver) resolveGRPCErrorDetailCELValues(ctx *context, env *cel.Env, d
 		}
 	}
 	for idx, def := range detail.Messages.Definitions() {
-		env = r.resolveVariableDefinitionCELValues(ctx, env, def, builder.WithDef(idx))
+		env = r.resolveVariableDefinitionCELValues(ctx, env, def, builder.WithMessage(idx))
 	}
 
 	for fIdx, failure := range detail.PreconditionFailures {
-- 
2.43.0


From 32baf3f6d96c88c9b3c12c63cb645bdecbe15852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:30 +0000
Subject: [PATCH 39/47] fix: reject lists bound to single fields and requests
 of an incompatible type

A list bound to a field that is not one (and the reverse), a scalar passed to a message
field of a request, and a string passed to an enum field of one were accepted.
---
 resolver/resolver.go | 62 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 50 insertions(+), 12 deletions(-)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index 5204105..b4ffecf 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -1630,6 +1630,21 @@ func (r *Resolver) validateRequestFieldType(ctx *context, fromType *Type, toFiel
 		return
 	}
 	toType := toField.Type
+	if toType == nil {
+		return
+	}
+	if isDifferentType(fromType, toType) && !isConvertibleRequestType(fromType, toType) {
+		ctx.addError(
+			ErrWithLocation(
+				fmt.Sprintf(
+					`cannot convert type automatically: field type is %q but specified value type is %q`,
+					toType.Kind.ToString(), fromType.Kind.ToString(),
+				),
+				builder.Location(),
+			),
+		)
+		return
+	}
 	if toType.Kind == types.Message {
 		if fromType.Message == nil || toType.Message == nil {
 			return
@@ -1706,18 +1721,14 @@ func (r *Resolver) validateRequestFieldType(ctx *context, fromType *Type, toFiel
 			return
 		}
 	}
-	if isDifferentType(fromType, toField.Type) {
-		ctx.addError(
-			ErrWithLocation(
-				fmt.Sprintf(
-					`cannot convert type automatically: field type is %q but specified value type is %q`,
-					toField.Type.Kind.ToString(), fromType.Kind.ToString(),
-				),
-				builder.Location(),
-			),
-		)
-		return
+}
+
+// isConvertibleRequestType reports whether the value of a different type is assigned to the request field after conversion.
+func isConvertibleRequestType(fromType, toType *Type) bool {
+	if toType.Kind != types.Enum || isDifferentCardinality(fromType, toType) {
+		return false
 	}
+	return fromType.IsNumber() || (fromType.Message != nil && fromType.Message.IsEnumSelector())
 }
 
 func (r *Resolver) findMessageAliasName(from, to *Message) bool {
@@ -1781,6 +1792,18 @@ func (r *Resolver) validateBindFieldType(ctx *context, fromType *Type, toField *
 		return
 	}
 	toType := toField.Type
+	if isDifferentCardinality(fromType, toType) {
+		ctx.addError(
+			ErrWithLocation(
+				fmt.Sprintf(
+					`cannot convert type automatically: field type is %q but specified value type is %q`,
+					toType.Kind.ToString(), fromType.Kind.ToString(),
+				),
+				builder.Location(),
+			),
+		)
+		return
+	}
 	if fromType.Kind == types.Message {
 		if fromType.Message.IsEnumSelector() && toType.Kind == types.Enum {
 			r.validateBindFieldEnumSelectorType(ctx, fromType.Message, toField, builder)
@@ -1841,7 +1864,7 @@ func (r *Resolver) validateBindFieldType(ctx *context, fromType *Type, toField *
 			return
 		}
 	}
-	if fromType.Kind == types.Enum {
+	if fromType.Kind == types.Enum && toType.Kind == types.Enum {
 		if fromType.Enum == nil || toType.Enum == nil {
 			return
 		}
@@ -5510,6 +5533,9 @@ func isDifferentType(from, to *Type) bool {
 	if from == nil || to == nil {
 		return false
 	}
+	if isDifferentCardinality(from, to) {
+		return true
+	}
 	if from.IsNumber() && to.IsNumber() {
 		return false
 	}
@@ -5523,6 +5549,18 @@ func isDifferentType(from, to *Type) bool {
 	return from.Kind != to.Kind
 }
 
+// isDifferentCardinality reports whether only one of the types is a list.
+func isDifferentCardinality(from, to *Type) bool {
+	if from.IsNull || to.IsNull || isMapType(from) || isMapType(to) {
+		return false
+	}
+	return from.Repeated != to.Repeated
+}
+
+func isMapType(typ *Type) bool {
+	return typ.Kind == types.Message && typ.Message != nil && typ.Message.IsMapEntry
+}
+
 func isExactlySameType(left, right *Type) bool {
 	if left == nil || right == nil {
 		return false
-- 
2.43.0


From 2ebfcc66e59ef09a3a0dcc6fa4fd35bc3b03c545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:23 +0000
Subject: [PATCH 40/47] fix: publish the diagnostics of the last edited text in
 the language server

Edited texts were validated concurrently on one validator: results of an older text could
be published last or be mixed up. Definitions in the edited file were looked up in the file
on disk, the text of a closed file was still used, and unknown positions underflowed.
---
 lsp/server/definition.go         |  4 ++--
 lsp/server/handler.go            |  5 ++--
 lsp/server/text_document_sync.go | 40 ++++++++++++++++++++++++++++----
 lsp/server/util.go               | 22 ++++++++----------
 lsp/server/validator.go          | 23 +++++++++++-------
 5 files changed, 65 insertions(+), 29 deletions(-)

diff --git a/lsp/server/definition.go b/lsp/server/definition.go
index 2ca5ef4..486e5e8 100644
--- a/lsp/server/definition.go
+++ b/lsp/server/definition.go
@@ -152,7 +152,7 @@ func (h *Handler) findTypeDefinition(path string, protoFiles []*descriptorpb.Fil
 	if filePath == "" {
 		return nil, err
 	}
-	content, err := os.ReadFile(filePath)
+	content, err := h.readFile(filePath)
 	if err != nil {
 		return nil, err
 	}
@@ -192,7 +192,7 @@ func (h *Handler) findMethodDefinition(path string, protoFiles []*descriptorpb.F
 	if filePath == "" {
 		return nil, err
 	}
-	content, err := os.ReadFile(filePath)
+	content, err := h.readFile(filePath)
 	if err != nil {
 		return nil, err
 	}
diff --git a/lsp/server/handler.go b/lsp/server/handler.go
index 9b34464..2f94e8c 100644
--- a/lsp/server/handler.go
+++ b/lsp/server/handler.go
@@ -21,6 +21,7 @@ type Handler struct {
 	compiler                      *compiler.Compiler
 	validator                     *validator.Validator
 	completer                     *Completer
+	validateMu                    sync.Mutex
 	fileContentMu                 sync.Mutex
 	fileToContentMap              map[string][]byte
 	tokenTypeMap                  map[string]uint32
@@ -146,12 +147,12 @@ func (h *Handler) DidChangeWorkspaceFolders(ctx context.Context, params *protoco
 
 func (h *Handler) DidClose(ctx context.Context, params *protocol.DidCloseTextDocumentParams) error {
 	h.logger.Info("DidClose", slog.Any("params", params))
-	return nil
+	return h.didClose(params)
 }
 
 func (h *Handler) DidOpen(ctx context.Context, params *protocol.DidOpenTextDocumentParams) error {
 	h.logger.Info("DidOpen", slog.Any("params", params))
-	return nil
+	return h.didOpen(params)
 }
 
 func (h *Handler) DidSave(ctx context.Context, params *protocol.DidSaveTextDocumentParams) error {
diff --git a/lsp/server/text_document_sync.go b/lsp/server/text_document_sync.go
index f084617..46dd6a8 100644
--- a/lsp/server/text_document_sync.go
+++ b/lsp/server/text_document_sync.go
@@ -9,15 +9,45 @@ import (
 	"go.lsp.dev/uri"
 )
 
-func (h *Handler) didChange(ctx context.Context, params *protocol.DidChangeTextDocumentParams) error {
-	parsedURI, err := url.ParseRequestURI(string(params.TextDocument.URI))
+func documentPath(docURI uri.URI) (string, error) {
+	parsedURI, err := url.ParseRequestURI(string(docURI))
 	if err != nil {
-		return err
+		return "", err
 	}
 	if parsedURI.Scheme != uri.FileScheme {
-		return fmt.Errorf("text document uri must specify the %s scheme, got %v", uri.FileScheme, parsedURI.Scheme)
+		return "", fmt.Errorf("text document uri must specify the %s scheme, got %v", uri.FileScheme, parsedURI.Scheme)
+	}
+	return parsedURI.Path, nil
+}
+
+func (h *Handler) didOpen(params *protocol.DidOpenTextDocumentParams) error {
+	path, err := documentPath(params.TextDocument.URI)
+	if err != nil {
+		return err
+	}
+	h.fileContentMu.Lock()
+	defer h.fileContentMu.Unlock()
+	h.fileToContentMap[path] = []byte(params.TextDocument.Text)
+	return nil
+}
+
+func (h *Handler) didClose(params *protocol.DidCloseTextDocumentParams) error {
+	path, err := documentPath(params.TextDocument.URI)
+	if err != nil {
+		return err
+	}
+	// the content of the file is on the disk again.
+	h.fileContentMu.Lock()
+	defer h.fileContentMu.Unlock()
+	delete(h.fileToContentMap, path)
+	return nil
+}
+
+func (h *Handler) didChange(ctx context.Context, params *protocol.DidChangeTextDocumentParams) error {
+	path, err := documentPath(params.TextDocument.URI)
+	if err != nil {
+		return err
 	}
-	path := parsedURI.Path
 	h.fileContentMu.Lock()
 	for _, change := range params.ContentChanges {
 		h.fileToContentMap[path] = []byte(change.Text)
diff --git a/lsp/server/util.go b/lsp/server/util.go
index 39b9d74..ebb72c6 100644
--- a/lsp/server/util.go
+++ b/lsp/server/util.go
@@ -1,32 +1,30 @@
 package server
 
 import (
-	"fmt"
-	"net/url"
 	"os"
 
 	"go.lsp.dev/uri"
 )
 
 func (h *Handler) getFile(docURI uri.URI) (string, []byte, error) {
-	parsedURI, err := url.ParseRequestURI(string(docURI))
+	path, err := documentPath(docURI)
 	if err != nil {
 		return "", nil, err
 	}
-	if parsedURI.Scheme != uri.FileScheme {
-		return "", nil, fmt.Errorf("text document uri must specify the %s scheme, got %v", uri.FileScheme, parsedURI.Scheme)
+	content, err := h.readFile(path)
+	if err != nil {
+		return "", nil, err
 	}
-	path := parsedURI.Path
+	return path, content, nil
+}
 
+// readFile returns the text of the file, which is the edited one if the file is open.
+func (h *Handler) readFile(path string) ([]byte, error) {
 	h.fileContentMu.Lock()
 	content, exists := h.fileToContentMap[path]
 	h.fileContentMu.Unlock()
 	if exists {
-		return path, content, nil
-	}
-	file, err := os.ReadFile(path)
-	if err != nil {
-		return "", nil, err
+		return content, nil
 	}
-	return path, file, nil
+	return os.ReadFile(path)
 }
diff --git a/lsp/server/validator.go b/lsp/server/validator.go
index 236455b..e72931d 100644
--- a/lsp/server/validator.go
+++ b/lsp/server/validator.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"log/slog"
 
+	"github.com/bufbuild/protocompile/ast"
 	"go.lsp.dev/protocol"
 	"go.lsp.dev/uri"
 
@@ -13,6 +14,10 @@ import (
 )
 
 func (h *Handler) validateText(ctx context.Context, docURI uri.URI) {
+	// The texts are validated one after another, so the diagnostics of the last text are published last.
+	h.validateMu.Lock()
+	defer h.validateMu.Unlock()
+
 	path, content, err := h.getFile(docURI)
 	if err != nil {
 		return
@@ -24,14 +29,8 @@ func (h *Handler) validateText(ctx context.Context, docURI uri.URI) {
 	errs := h.validator.Validate(ctx, file, validator.ImportPathOption(h.importPaths...))
 	diagnostics := make([]protocol.Diagnostic, 0, len(errs))
 	for _, err := range errs {
-		start := protocol.Position{
-			Line:      uint32(err.Start.Line) - 1,
-			Character: uint32(err.Start.Col) - 1,
-		}
-		end := protocol.Position{
-			Line:      uint32(err.End.Line) - 1,
-			Character: uint32(err.End.Col) - 1,
-		}
+		start := toPosition(err.Start)
+		end := toPosition(err.End)
 		var severity protocol.DiagnosticSeverity
 		if err.IsWarning {
 			severity = protocol.DiagnosticSeverityWarning
@@ -51,3 +50,11 @@ func (h *Handler) validateText(ctx context.Context, docURI uri.URI) {
 		h.logger.Error("failed to publish diagnostics", slog.String("error", err.Error()))
 	}
 }
+
+// toPosition converts the position in the source. The position is zero if the place of the error is unknown.
+func toPosition(pos ast.SourcePos) protocol.Position {
+	return protocol.Position{
+		Line:      uint32(max(pos.Line-1, 0)),
+		Character: uint32(max(pos.Col-1, 0)),
+	}
+}
-- 
2.43.0


From 50867bad4e58ce79107e31b50e2425c5bfb423cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:04 +0000
Subject: [PATCH 41/47] fix: hand the complete resolved model to every
 code-generation plugin

All plugins read the request from one buffer, so only the first one received it. The encoded model
mixed up definitions, graphs and messages made by the resolver that share a name, and lost types of
custom resolvers, files, error handling, proto path and output directory.
---
 generator/generator.go              |  4 +-
 grpc/federation/generator/decode.go | 33 +++++++++++++++++
 grpc/federation/generator/encode.go | 57 +++++++++++++++++++++++++++--
 3 files changed, 88 insertions(+), 6 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 4cd5555..be3b16d 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -728,7 +728,6 @@ func evalAllCodeGenerationPlugin(ctx context.Context, results []*ProtoFileResult
 		if err != nil {
 			return err
 		}
-		genReqReader := bytes.NewBuffer(encodedGenReq)
 		for _, plugin := range opt.Plugins {
 			wasmFile, err := os.ReadFile(plugin.Path)
 			if err != nil {
@@ -743,10 +742,9 @@ func evalAllCodeGenerationPlugin(ctx context.Context, results []*ProtoFileResult
 					gotHash,
 				)
 			}
-			if err := evalCodeGeneratorPlugin(ctx, wasmFile, genReqReader); err != nil {
+			if err := evalCodeGeneratorPlugin(ctx, wasmFile, bytes.NewReader(encodedGenReq)); err != nil {
 				return err
 			}
-			genReqReader.Reset()
 		}
 	}
 	return nil
diff --git a/grpc/federation/generator/decode.go b/grpc/federation/generator/decode.go
index f996591..171a907 100644
--- a/grpc/federation/generator/decode.go
+++ b/grpc/federation/generator/decode.go
@@ -72,6 +72,8 @@ func (d *decoder) toCodeGeneratorRequest(req *plugin.CodeGeneratorRequest) (*Cod
 		return nil, err
 	}
 	return &CodeGeneratorRequest{
+		ProtoPath:           req.GetProtoPath(),
+		OutDir:              req.GetOutDir(),
 		Files:               req.GetFiles(),
 		GRPCFederationFiles: grpcFederationFiles,
 	}, nil
@@ -251,6 +253,9 @@ func (d *decoder) toServiceRule(rule *plugin.ServiceRule) (*resolver.ServiceRule
 }
 
 func (d *decoder) toEnv(env *plugin.Env) (*resolver.Env, error) {
+	if env == nil {
+		return nil, nil
+	}
 	vars, err := d.toEnvVars(env.GetVars())
 	if err != nil {
 		return nil, err
@@ -1057,10 +1062,15 @@ func (d *decoder) toCallExpr(expr *plugin.CallExpr) (*resolver.CallExpr, error)
 	if err != nil {
 		return nil, err
 	}
+	grpcErrs, err := d.toGRPCErrors(expr.GetErrors())
+	if err != nil {
+		return nil, err
+	}
 	if expr.Timeout != nil {
 		timeout := expr.GetTimeout().AsDuration()
 		ret.Timeout = &timeout
 	}
+	ret.Errors = grpcErrs
 	ret.Method = mtd
 	ret.Request = req
 	ret.Retry = retry
@@ -1221,6 +1231,24 @@ func (d *decoder) toValidationExpr(expr *plugin.ValidationExpr) (*resolver.Valid
 	return ret, nil
 }
 
+func (d *decoder) toGRPCErrors(errs []*plugin.GRPCError) ([]*resolver.GRPCError, error) {
+	if errs == nil {
+		return nil, nil
+	}
+	ret := make([]*resolver.GRPCError, 0, len(errs))
+	for _, e := range errs {
+		grpcErr, err := d.toGRPCError(e)
+		if err != nil {
+			return nil, err
+		}
+		if grpcErr == nil {
+			continue
+		}
+		ret = append(ret, grpcErr)
+	}
+	return ret, nil
+}
+
 func (d *decoder) toGRPCError(e *plugin.GRPCError) (*resolver.GRPCError, error) {
 	if e == nil {
 		return nil, nil
@@ -1230,6 +1258,10 @@ func (d *decoder) toGRPCError(e *plugin.GRPCError) (*resolver.GRPCError, error)
 		Ignore: e.GetIgnore(),
 	}
 
+	defSet, err := d.toVariableDefinitionSet(e.GetDefSet())
+	if err != nil {
+		return nil, err
+	}
 	ifValue, err := d.toCELValue(e.GetIf())
 	if err != nil {
 		return nil, err
@@ -1246,6 +1278,7 @@ func (d *decoder) toGRPCError(e *plugin.GRPCError) (*resolver.GRPCError, error)
 	if err != nil {
 		return nil, err
 	}
+	ret.DefSet = defSet
 	ret.If = ifValue
 	ret.Message = msgValue
 	ret.Details = details
diff --git a/grpc/federation/generator/encode.go b/grpc/federation/generator/encode.go
index 5f73210..173c8c0 100644
--- a/grpc/federation/generator/encode.go
+++ b/grpc/federation/generator/encode.go
@@ -13,6 +13,9 @@ import (
 
 type encoder struct {
 	ref *plugin.Reference
+	// ids holds the identifiers of the elements whose names are not necessarily unique in the request.
+	ids       map[any]string
+	idCounter map[string]int
 }
 
 func newEncoder() *encoder {
@@ -31,6 +34,8 @@ func newEncoder() *encoder {
 			VariableDefinitionMap:      make(map[string]*plugin.VariableDefinition),
 			VariableDefinitionGroupMap: make(map[string]*plugin.VariableDefinitionGroup),
 		},
+		ids:       make(map[any]string),
+		idCounter: make(map[string]int),
 	}
 }
 
@@ -58,8 +63,10 @@ func CreateCodeGeneratorRequest(cfg *CodeGeneratorRequestConfig) *plugin.CodeGen
 
 func (e *encoder) toCodeGeneratorRequest(cfg *CodeGeneratorRequestConfig) *plugin.CodeGeneratorRequest {
 	ret := &plugin.CodeGeneratorRequest{
+		Type:      e.toActionType(cfg.Type),
 		ProtoPath: cfg.ProtoPath,
 		OutDir:    cfg.OutDir,
+		Files:     cfg.Files,
 		Reference: e.ref,
 	}
 	for _, file := range e.toFiles(cfg.GRPCFederationFiles) {
@@ -68,6 +75,20 @@ func (e *encoder) toCodeGeneratorRequest(cfg *CodeGeneratorRequestConfig) *plugi
 	return ret
 }
 
+func (e *encoder) toActionType(typ ActionType) plugin.ActionType {
+	switch typ {
+	case KeepAction:
+		return plugin.ActionType_KEEP_ACTION
+	case CreateAction:
+		return plugin.ActionType_CREATE_ACTION
+	case DeleteAction:
+		return plugin.ActionType_DELETE_ACTION
+	case UpdateAction:
+		return plugin.ActionType_UPDATE_ACTION
+	}
+	return plugin.ActionType_GENERATE_ACTION
+}
+
 func (e *encoder) toFile(file *resolver.File) *plugin.File {
 	if file == nil {
 		return nil
@@ -969,7 +990,7 @@ func (e *encoder) toIterator(iter *resolver.Iterator) *plugin.Iterator {
 	}
 	return &plugin.Iterator{
 		Name:     iter.Name,
-		SourceId: e.toVariableDefinitionID(iter.Source),
+		SourceId: e.toVariableDefinition(iter.Source).GetId(),
 	}
 }
 
@@ -1010,6 +1031,7 @@ func (e *encoder) toCallExpr(expr *resolver.CallExpr) *plugin.CallExpr {
 		Request:  e.toRequest(expr.Request),
 		Timeout:  timeout,
 		Retry:    e.toRetryPolicy(expr.Retry),
+		Errors:   e.toGRPCErrors(expr.Errors),
 	}
 }
 
@@ -1123,11 +1145,20 @@ func (e *encoder) toValidationExpr(expr *resolver.ValidationExpr) *plugin.Valida
 	}
 }
 
+func (e *encoder) toGRPCErrors(errs []*resolver.GRPCError) []*plugin.GRPCError {
+	ret := make([]*plugin.GRPCError, 0, len(errs))
+	for _, err := range errs {
+		ret = append(ret, e.toGRPCError(err))
+	}
+	return ret
+}
+
 func (e *encoder) toGRPCError(err *resolver.GRPCError) *plugin.GRPCError {
 	if err == nil {
 		return nil
 	}
 	return &plugin.GRPCError{
+		DefSet:            e.toVariableDefinitionSet(err.DefSet),
 		Code:              err.Code,
 		If:                e.toCELValue(err.If),
 		Message:           e.toCELValue(err.Message),
@@ -1249,6 +1280,18 @@ func (e *encoder) toLocalizedMessage(msg *resolver.LocalizedMessage) *plugin.Loc
 	}
 }
 
+// toUniqueID returns the identifier of the element.
+// If several elements have the same name, it is made unique by the order of their appearance.
+func (e *encoder) toUniqueID(elem any, name string) string {
+	if id, exists := e.ids[elem]; exists {
+		return id
+	}
+	e.idCounter[name]++
+	id := fmt.Sprintf("%s#%d", name, e.idCounter[name])
+	e.ids[elem] = id
+	return id
+}
+
 func (e *encoder) toFileID(file *resolver.File) string {
 	if file == nil {
 		return ""
@@ -1274,6 +1317,10 @@ func (e *encoder) toMessageID(msg *resolver.Message) string {
 	if msg == nil {
 		return ""
 	}
+	if msg.Desc == nil {
+		// The message was made by the resolver.
+		return e.toUniqueID(msg, msg.FQDN())
+	}
 	return msg.FQDN()
 }
 
@@ -1281,6 +1328,10 @@ func (e *encoder) toFieldID(field *resolver.Field) string {
 	if field == nil {
 		return ""
 	}
+	if field.Desc == nil {
+		// The field belongs to a message that was made by the resolver.
+		return e.toUniqueID(field, field.FQDN())
+	}
 	return field.FQDN()
 }
 
@@ -1320,14 +1371,14 @@ func (e *encoder) toDependencyGraphID(graph *resolver.MessageDependencyGraph) st
 	for _, root := range graph.Roots {
 		roots = append(roots, root.FQDN())
 	}
-	return strings.Join(roots, ":")
+	return e.toUniqueID(graph, strings.Join(roots, ":"))
 }
 
 func (e *encoder) toVariableDefinitionID(def *resolver.VariableDefinition) string {
 	if def == nil {
 		return ""
 	}
-	return def.Name
+	return e.toUniqueID(def, def.Name)
 }
 
 func (e *encoder) toVariableDefinitionGroupID(group resolver.VariableDefinitionGroup) string {
-- 
2.43.0


From f795555512c4594a1f37cb55825c6dbf137eb9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:04 +0000
Subject: [PATCH 42/47] fix: order messages and services of the same name by
 their full name

The order of same-named messages and services of different packages was random.
---
 resolver/graph.go    | 5 ++++-
 resolver/resolver.go | 5 ++++-
 resolver/service.go  | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/resolver/graph.go b/resolver/graph.go
index 5fc3fa4..85959fc 100644
--- a/resolver/graph.go
+++ b/resolver/graph.go
@@ -32,7 +32,10 @@ func CreateAllMessageDependencyGraph(ctx *context, msgs []*Message) *AllMessageD
 		}
 	}
 	sort.Slice(roots, func(i, j int) bool {
-		return roots[i].Message.Name < roots[j].Message.Name
+		if roots[i].Message.Name != roots[j].Message.Name {
+			return roots[i].Message.Name < roots[j].Message.Name
+		}
+		return roots[i].Message.FQDN() < roots[j].Message.FQDN()
 	})
 	// The messages of a cycle may not be reachable from any root.
 	nodes := append([]*AllMessageDependencyGraphNode{}, roots...)
diff --git a/resolver/resolver.go b/resolver/resolver.go
index b4ffecf..b9023e3 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -3773,7 +3773,10 @@ func (r *Resolver) resolveMessageArgument(ctx *context, files []*File) {
 			msgs = append(msgs, msg)
 		}
 		sort.Slice(msgs, func(i, j int) bool {
-			return msgs[i].Name < msgs[j].Name
+			if msgs[i].Name != msgs[j].Name {
+				return msgs[i].Name < msgs[j].Name
+			}
+			return msgs[i].FQDN() < msgs[j].FQDN()
 		})
 		args := make([]*Message, 0, len(msgs))
 		for _, msg := range msgs {
diff --git a/resolver/service.go b/resolver/service.go
index 18d9890..bef4883 100644
--- a/resolver/service.go
+++ b/resolver/service.go
@@ -168,7 +168,10 @@ func (s *Service) UseServices() []*Service {
 		svcs = append(svcs, svc)
 	}
 	sort.Slice(svcs, func(i, j int) bool {
-		return svcs[i].Name < svcs[j].Name
+		if svcs[i].Name != svcs[j].Name {
+			return svcs[i].Name < svcs[j].Name
+		}
+		return svcs[i].FQDN() < svcs[j].FQDN()
 	})
 	return svcs
 }
-- 
2.43.0


From 27060386fc9bb1c572d5dc0a378408edfa299043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:04 +0000
Subject: [PATCH 43/47] fix: find imported files from every import path and
 forget options of earlier calls

An import path was taken to contain the files of another one it is a prefix of. Manual imports and
files of import rules stayed enabled for later calls, an edited text was ignored if an import path
is relative, and a single import rule was overlooked.
---
 compiler/compiler.go   | 35 ++++++++++++++++++++++++++++-------
 source/file.go         | 19 +++++++++----------
 validator/validator.go |  1 +
 3 files changed, 38 insertions(+), 17 deletions(-)

diff --git a/compiler/compiler.go b/compiler/compiler.go
index 3dc8091..e9e18d2 100644
--- a/compiler/compiler.go
+++ b/compiler/compiler.go
@@ -129,17 +129,35 @@ func RelativePathFromImportPaths(protoPath string, importPaths []string) (string
 	}
 
 	for _, importPath := range absImportPaths {
-		if strings.HasPrefix(absProtoPath, importPath) {
-			relPath, err := filepath.Rel(importPath, absProtoPath)
-			if err != nil {
-				return "", fmt.Errorf("failed to get relative path from %s and %s: %w", importPath, absProtoPath, err)
-			}
-			return relPath, nil
+		relPath, err := filepath.Rel(importPath, absProtoPath)
+		if err != nil {
+			return "", fmt.Errorf("failed to get relative path from %s and %s: %w", importPath, absProtoPath, err)
 		}
+		if relPath == ".." || strings.HasPrefix(relPath, ".."+string(filepath.Separator)) {
+			// the file isn't under the import path.
+			continue
+		}
+		return relPath, nil
 	}
 	return protoPath, nil
 }
 
+// isSamePath whether both paths point to the same file. A path is relative if the import path is relative.
+func isSamePath(a, b string) bool {
+	if a == b {
+		return true
+	}
+	absA, err := filepath.Abs(a)
+	if err != nil {
+		return false
+	}
+	absB, err := filepath.Abs(b)
+	if err != nil {
+		return false
+	}
+	return absA == absB
+}
+
 type dependentProtoFileSet struct {
 	path string
 	data []byte
@@ -147,7 +165,10 @@ type dependentProtoFileSet struct {
 
 // Compile compile the target Protocol Buffers file and produces all file descriptors.
 func (c *Compiler) Compile(ctx context.Context, file *source.File, opts ...Option) ([]*descriptorpb.FileDescriptorProto, error) {
+	// the options given to the previous call must not affect this one.
 	c.importPaths = []string{}
+	c.manualImport = false
+	c.importRule = false
 
 	for _, opt := range opts {
 		opt(c)
@@ -164,7 +185,7 @@ func (c *Compiler) Compile(ctx context.Context, file *source.File, opts ...Optio
 		Resolver: protocompile.WithStandardImports(&protocompile.SourceResolver{
 			ImportPaths: append(c.importPaths, filepath.Dir(relPath), ""),
 			Accessor: func(p string) (io.ReadCloser, error) {
-				if p == file.Path() {
+				if isSamePath(p, file.Path()) {
 					return io.NopCloser(bytes.NewBuffer(file.Content())), nil
 				}
 				f, err := os.Open(p)
diff --git a/source/file.go b/source/file.go
index cb1f800..8541233 100644
--- a/source/file.go
+++ b/source/file.go
@@ -1007,19 +1007,18 @@ func (f *File) optionValuesByImportRule(node *ast.OptionNode) []ast.ValueNode {
 	//   import: ["example.proto"]
 	// };
 	if fieldNodes, ok := node.GetValue().Value().([]*ast.MessageFieldNode); ok {
-		var fieldNode *ast.MessageFieldNode
+		var ret []ast.ValueNode
 		for _, n := range fieldNodes {
-			if n.Name.Name.AsIdentifier() == "import" {
-				fieldNode = n
-				break
+			if n.Name.Name.AsIdentifier() != "import" {
+				continue
+			}
+			if valueNodes, ok := n.Val.Value().([]ast.ValueNode); ok {
+				ret = append(ret, valueNodes...)
+			} else {
+				ret = append(ret, n.Val)
 			}
 		}
-		if fieldNode == nil {
-			return nil
-		}
-		if valueNodes, ok := fieldNode.Val.Value().([]ast.ValueNode); ok {
-			return valueNodes
-		}
+		return ret
 	}
 	return nil
 }
diff --git a/validator/validator.go b/validator/validator.go
index a8df9cf..201c8e1 100644
--- a/validator/validator.go
+++ b/validator/validator.go
@@ -55,6 +55,7 @@ func ManualImportOption() ValidatorOption {
 func (v *Validator) applyOptions(opts ...ValidatorOption) {
 	v.pathToFileMap = map[string]*source.File{}
 	v.importPaths = []string{}
+	v.manualImport = false
 	for _, opt := range opts {
 		opt(v)
 	}
-- 
2.43.0


From c2472b1cf157413ad50d200306e0412a0bcaed91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:28 +0000
Subject: [PATCH 44/47] fix: keep log attributes of concurrently resolved
 messages apart

Messages resolved at the same time appended attributes to the same array, so an attribute of one
of them replaced that of another one.
---
 grpc/federation/log/context.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/grpc/federation/log/context.go b/grpc/federation/log/context.go
index 32f00c9..65f118e 100644
--- a/grpc/federation/log/context.go
+++ b/grpc/federation/log/context.go
@@ -3,6 +3,7 @@ package log
 import (
 	"context"
 	"log/slog"
+	"slices"
 	"sync"
 )
 
@@ -41,7 +42,9 @@ func Attrs(ctx context.Context) []slog.Attr {
 
 	ref.mu.RLock()
 	defer ref.mu.RUnlock()
-	return ref.attrs
+	// The attributes are copied because they are handed to child contexts and errors,
+	// which must not share the array new attributes are appended to.
+	return slices.Clone(ref.attrs)
 }
 
 // SetLogger set logger instance for current context.
-- 
2.43.0


From fecb0487a1f237d515d2c92b22b424c6e9f385c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:02 +0000
Subject: [PATCH 45/47] fix: plugin functions with enum values: generated
 plugin code compiles, lists of enums can be passed

---
 generator/code_generator.go   |  8 ++++++--
 grpc/federation/cel_plugin.go | 12 ++++++++++++
 resolver/cel.go               | 10 +++++++++-
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index 782ac5c..1ef6210 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -253,7 +253,7 @@ func (r *CELFunctionReturn) Converter() string {
 			return "ToFloat64ListCELPluginResponse"
 		case types.Float:
 			return "ToFloat32ListCELPluginResponse"
-		case types.Int32, types.Sint32, types.Sfixed32, types.Enum:
+		case types.Int32, types.Sint32, types.Sfixed32:
 			return "ToInt32ListCELPluginResponse"
 		case types.Int64, types.Sint64, types.Sfixed64:
 			return "ToInt64ListCELPluginResponse"
@@ -267,6 +267,8 @@ func (r *CELFunctionReturn) Converter() string {
 			return "ToStringListCELPluginResponse"
 		case types.Bytes:
 			return "ToBytesListCELPluginResponse"
+		case types.Enum:
+			return "ToEnumListCELPluginResponse"
 		case types.Message:
 			cloned := r.ret.Clone()
 			cloned.Repeated = false
@@ -279,7 +281,7 @@ func (r *CELFunctionReturn) Converter() string {
 		return "ToFloat64CELPluginResponse"
 	case types.Float:
 		return "ToFloat32CELPluginResponse"
-	case types.Int32, types.Sint32, types.Sfixed32, types.Enum:
+	case types.Int32, types.Sint32, types.Sfixed32:
 		return "ToInt32CELPluginResponse"
 	case types.Int64, types.Sint64, types.Sfixed64:
 		return "ToInt64CELPluginResponse"
@@ -293,6 +295,8 @@ func (r *CELFunctionReturn) Converter() string {
 		return "ToStringCELPluginResponse"
 	case types.Bytes:
 		return "ToBytesCELPluginResponse"
+	case types.Enum:
+		return "ToEnumCELPluginResponse"
 	case types.Message:
 		msg := r.file.toTypeText(r.ret)
 		return fmt.Sprintf("ToMessageCELPluginResponse[%s]", msg)
diff --git a/grpc/federation/cel_plugin.go b/grpc/federation/cel_plugin.go
index 2932231..159a19d 100644
--- a/grpc/federation/cel_plugin.go
+++ b/grpc/federation/cel_plugin.go
@@ -264,6 +264,18 @@ func ToInt64ListCELPluginResponse(v []int64) (*celplugin.CELPluginResponse, erro
 	return toListResponse(ret), nil
 }
 
+func ToEnumCELPluginResponse[T ~int32](v T) (*celplugin.CELPluginResponse, error) {
+	return ToInt64CELPluginResponse(int64(v))
+}
+
+func ToEnumListCELPluginResponse[T ~int32](v []T) (*celplugin.CELPluginResponse, error) {
+	i64 := make([]int64, 0, len(v))
+	for _, vv := range v {
+		i64 = append(i64, int64(vv))
+	}
+	return ToInt64ListCELPluginResponse(i64)
+}
+
 func toInt64CELPluginValue(v int64) *celplugin.CELPluginValue {
 	return &celplugin.CELPluginValue{Value: &celplugin.CELPluginValue_Int64{Int64: v}}
 }
diff --git a/resolver/cel.go b/resolver/cel.go
index 2308ed2..edb69c1 100644
--- a/resolver/cel.go
+++ b/resolver/cel.go
@@ -242,9 +242,13 @@ func (f *CELFunction) signatures(args []*Type, ret *Type) []*CELPluginFunctionSi
 	var sigs []*CELPluginFunctionSignature
 	for idx, arg := range args {
 		if arg.Kind == types.Enum {
+			intType := Int32Type
+			if arg.Repeated {
+				intType = Int32RepeatedType
+			}
 			sigs = append(sigs,
 				f.signatures(
-					append(append(append([]*Type{}, args[:idx]...), Int32Type), args[idx+1:]...),
+					append(append(append([]*Type{}, args[:idx]...), intType), args[idx+1:]...),
 					ret,
 				)...,
 			)
@@ -284,6 +288,10 @@ func (plugin *CELPlugin) CompileOptions() []cel.EnvOption {
 			bindFunc = cel.FunctionBinding(func(args ...ref.Val) ref.Val { return nil })
 		)
 		for _, sig := range fn.Signatures() {
+			// overloads which have the same arguments must not differ only in the return type.
+			if fn.Return != nil && !sig.Return.IsExactType(ToCELType(fn.Return)) {
+				continue
+			}
 			if fn.Receiver != nil {
 				overload = cel.MemberOverload(sig.ID, sig.Args, sig.Return, bindFunc)
 			} else {
-- 
2.43.0


From 58be72fd9406de79aa8f10eabf2e77d14c867539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:08 +0000
Subject: [PATCH 46/47] fix: pass lists of any origin, durations and timestamps
 to plugins and take them as results

---
 grpc/federation/cel/plugin.go | 58 +++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 20 deletions(-)

diff --git a/grpc/federation/cel/plugin.go b/grpc/federation/cel/plugin.go
index 835d861..db82994 100644
--- a/grpc/federation/cel/plugin.go
+++ b/grpc/federation/cel/plugin.go
@@ -11,18 +11,20 @@ import (
 	"io"
 	"os"
 	"path/filepath"
-	"reflect"
 	"sync"
 
 	"github.com/google/cel-go/cel"
 	"github.com/google/cel-go/common/types"
 	"github.com/google/cel-go/common/types/ref"
+	"github.com/google/cel-go/common/types/traits"
 	"github.com/tetratelabs/wazero"
 	"github.com/tetratelabs/wazero/imports/wasi_snapshot_preview1"
 	"google.golang.org/grpc/metadata"
 	"google.golang.org/protobuf/encoding/protojson"
 	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/known/anypb"
+	"google.golang.org/protobuf/types/known/durationpb"
+	"google.golang.org/protobuf/types/known/timestamppb"
 
 	"github.com/mercari/grpc-federation/grpc/federation/cel/plugin"
 )
@@ -401,13 +403,19 @@ func (i *CELPluginInstance) refToCELPluginValue(typ *cel.Type, v ref.Val) (*plug
 	switch typ.Kind() {
 	case types.ListKind:
 		elemType := typ.Parameters()[0]
-		slice := reflect.ValueOf(v.Value())
+		lister, ok := v.(traits.Lister)
+		if !ok {
+			return nil, fmt.Errorf("grpc-federation: failed to convert %T to CEL list value", v)
+		}
+		size, ok := lister.Size().(types.Int)
+		if !ok {
+			return nil, fmt.Errorf("grpc-federation: failed to get list size: %v", lister.Size())
+		}
 		list := &plugin.CELPluginListValue{}
-		for idx := 0; idx < slice.Len(); idx++ {
-			src := slice.Index(idx).Interface()
-			val := i.celRegistry.NativeToValue(src)
+		for idx := types.Int(0); idx < size; idx++ {
+			val := lister.Get(idx)
 			if types.IsError(val) {
-				return nil, fmt.Errorf("failed to convert %T to CEL value: %v", src, val.Value())
+				return nil, fmt.Errorf("failed to convert element of list to CEL value: %v", val.Value())
 			}
 			value, err := i.refToCELPluginValue(elemType, val)
 			if err != nil {
@@ -462,22 +470,16 @@ func (i *CELPluginInstance) refToCELPluginValue(typ *cel.Type, v ref.Val) (*plug
 				Uint64: uint64(vv),
 			},
 		}, nil
+	case types.DurationKind:
+		vv := v.(types.Duration)
+		return toCELPluginMessageValue(durationpb.New(vv.Duration))
+	case types.TimestampKind:
+		vv := v.(types.Timestamp)
+		return toCELPluginMessageValue(timestamppb.New(vv.Time))
 	case types.StructKind:
 		switch vv := v.Value().(type) {
 		case proto.Message:
-			any, ok := vv.(*anypb.Any)
-			if !ok {
-				anyValue, err := anypb.New(vv)
-				if err != nil {
-					return nil, fmt.Errorf("grpc-federation: failed to create any instance: %w", err)
-				}
-				any = anyValue
-			}
-			return &plugin.CELPluginValue{
-				Value: &plugin.CELPluginValue_Message{
-					Message: any,
-				},
-			}, nil
+			return toCELPluginMessageValue(vv)
 		default:
 			return nil, fmt.Errorf(
 				`grpc-federation: currently unsupported native proto message "%T"`,
@@ -488,6 +490,22 @@ func (i *CELPluginInstance) refToCELPluginValue(typ *cel.Type, v ref.Val) (*plug
 	return nil, fmt.Errorf(`grpc-federation: found unexpected cel function's argument type "%s"`, typ)
 }
 
+func toCELPluginMessageValue(msg proto.Message) (*plugin.CELPluginValue, error) {
+	any, ok := msg.(*anypb.Any)
+	if !ok {
+		anyValue, err := anypb.New(msg)
+		if err != nil {
+			return nil, fmt.Errorf("grpc-federation: failed to create any instance: %w", err)
+		}
+		any = anyValue
+	}
+	return &plugin.CELPluginValue{
+		Value: &plugin.CELPluginValue_Message{
+			Message: any,
+		},
+	}, nil
+}
+
 func (i *CELPluginInstance) celPluginValueToRef(fn *CELFunction, typ *cel.Type, v *plugin.CELPluginValue) ref.Val {
 	switch typ.Kind() {
 	case types.ListKind:
@@ -516,7 +534,7 @@ func (i *CELPluginInstance) celPluginValueToRef(fn *CELFunction, typ *cel.Type,
 		return types.String(v.GetString_())
 	case types.UintKind:
 		return types.Uint(v.GetUint64())
-	case types.StructKind:
+	case types.StructKind, types.DurationKind, types.TimestampKind:
 		return i.celRegistry.NativeToValue(v.GetMessage())
 	}
 	return types.NewErr("grpc-federation: unknown result type %s from %s function", typ, fn.Name)
-- 
2.43.0


From 77d518d5393f5ac4bdb6ebb685d92851bbc719a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:14 +0000
Subject: [PATCH 47/47] fix: a plugin that ended or was closed fails calls
 instead of hanging or panicking

---
 grpc/federation/cel/plugin.go | 63 +++++++++++++++++++++++++++++------
 1 file changed, 52 insertions(+), 11 deletions(-)

diff --git a/grpc/federation/cel/plugin.go b/grpc/federation/cel/plugin.go
index db82994..f111b06 100644
--- a/grpc/federation/cel/plugin.go
+++ b/grpc/federation/cel/plugin.go
@@ -124,6 +124,9 @@ func (p *CELPlugin) CreateInstance(ctx context.Context, celRegistry *types.Regis
 		WithStderr(os.Stderr).
 		WithArgs("plugin")
 
+	// cancel terminates the module instance even if it doesn't respond.
+	ctx, cancel := context.WithCancel(ctx)
+
 	// setting the buffer size to 1 ensures that the function can exit even if there is no receiver.
 	instanceModErrCh := make(chan error, 1)
 	go func() {
@@ -142,12 +145,19 @@ func (p *CELPlugin) CreateInstance(ctx context.Context, celRegistry *types.Regis
 		stdout:           stdoutR,
 		instanceModErrCh: instanceModErrCh,
 		gcQueue:          gcQueue,
+		done:             make(chan struct{}),
+		cancel:           cancel,
 	}
 	// start GC thread.
 	// It is enqueued into gcQueue using the `instance.GC()` function.
 	go func() {
-		for range gcQueue {
-			instance.startGC()
+		for {
+			select {
+			case <-gcQueue:
+				instance.startGC()
+			case <-instance.done:
+				return
+			}
 		}
 	}()
 	return instance
@@ -163,6 +173,9 @@ type CELPluginInstance struct {
 	closed           bool
 	mu               sync.Mutex
 	gcQueue          chan struct{}
+	done             chan struct{} // closed when the instance is no longer available.
+	doneOnce         sync.Once
+	cancel           context.CancelFunc
 }
 
 const PluginProtocolVersion = 1
@@ -183,6 +196,15 @@ func (i *CELPluginInstance) ValidatePlugin(ctx context.Context) error {
 	i.mu.Lock()
 	defer i.mu.Unlock()
 
+	if err := i.validatePlugin(); err != nil {
+		// An invalid plugin is never used, so all its resources must be released here.
+		i.terminate()
+		return err
+	}
+	return nil
+}
+
+func (i *CELPluginInstance) validatePlugin() error {
 	if err := i.write([]byte(versionCommand)); err != nil {
 		return fmt.Errorf("failed to send cel protocol version command: %w", err)
 	}
@@ -224,7 +246,8 @@ func (i *CELPluginInstance) write(cmd []byte) error {
 		return nil
 	}
 
-	writeCh := make(chan error)
+	// setting the buffer size to 1 ensures that the function can exit even if there is no receiver.
+	writeCh := make(chan error, 1)
 	go func() {
 		_, err := i.stdin.Write(cmd)
 		writeCh <- err
@@ -233,7 +256,7 @@ func (i *CELPluginInstance) write(cmd []byte) error {
 	case err := <-i.instanceModErrCh:
 		// If the module instance is terminated,
 		// it is considered that the termination process has been completed.
-		i.closed = true
+		i.terminate()
 		return err
 	case err := <-writeCh:
 		return err
@@ -244,12 +267,21 @@ func (i *CELPluginInstance) Close(ctx context.Context) error {
 	i.mu.Lock()
 	defer i.mu.Unlock()
 
-	defer func() { i.closed = true }()
-	if err := i.write([]byte(exitCommand)); err != nil {
-		return err
-	}
-	close(i.gcQueue)
-	return nil
+	defer func() {
+		i.closed = true
+		i.doneOnce.Do(func() { close(i.done) })
+	}()
+	return i.write([]byte(exitCommand))
+}
+
+// terminate releases all resources of the instance without waiting for the module instance.
+// The lock must be held by the caller.
+func (i *CELPluginInstance) terminate() {
+	i.closed = true
+	i.doneOnce.Do(func() { close(i.done) })
+	i.cancel()
+	_ = i.stdin.Close()
+	_ = i.stdout.Close()
 }
 
 func (i *CELPluginInstance) LibraryName() string {
@@ -365,6 +397,9 @@ func (i *CELPluginInstance) recvResponse(fn *CELFunction) ref.Val {
 	if res.Error != "" {
 		return types.NewErr("%s", res.Error)
 	}
+	if res.Value == nil {
+		return types.NewErr("grpc-federation: plugin function %s has failed without error message", fn.Name)
+	}
 	return i.celPluginValueToRef(fn, fn.Return, res.Value)
 }
 
@@ -377,7 +412,8 @@ func (i *CELPluginInstance) recvContent() (string, error) {
 		response string
 		err      error
 	}
-	readCh := make(chan readResult)
+	// setting the buffer size to 1 ensures that the function can exit even if there is no receiver.
+	readCh := make(chan readResult, 1)
 	go func() {
 		reader := bufio.NewReader(i.stdout)
 		content, err := reader.ReadString('\n')
@@ -393,6 +429,11 @@ func (i *CELPluginInstance) recvContent() (string, error) {
 	}()
 	select {
 	case err := <-i.instanceModErrCh:
+		// The module instance never responds again.
+		i.terminate()
+		if err == nil {
+			err = errors.New("grpc-federation: plugin has been terminated without response")
+		}
 		return "", err
 	case result := <-readCh:
 		return result.response, result.err
-- 
2.43.0


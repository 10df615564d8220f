// ---- schemas: verdict, errors, references
// verdict of the constraint built for a schema, of its part for a type
uf sch(*jsval.JSVal, *schema.Schema, any) bool
uf typed(*jsval.JSVal, *schema.Schema, int, any) bool
// the schema, its part for a type, cannot be built
uf serr(*schema.Schema) bool
uf terr(*schema.Schema, int) bool
// the schema, its part for a type, uses the reference
uf sref(*schema.Schema, string) bool
uf tref(*schema.Schema, int, string) bool
// number of the first n schemas that accept v
uf scnt(*jsval.JSVal, [int]*schema.Schema, any, int) int
axiom scnt0: forall j *jsval.JSVal, a [int]*schema.Schema, v any {scnt(j, a, v, 0)} :: scnt(j, a, v, 0) == 0
axiom scntS: forall j *jsval.JSVal, a [int]*schema.Schema, v any, n int {scnt(j, a, v, n), a[n]} :: 0 <= n ==> scnt(j, a, v, n+1) == scnt(j, a, v, n) + (if sch(j, a[n], v) then 1 else 0)

axiom typed_null: forall j *jsval.JSVal, s *schema.Schema, v any {typed(j, s, 1, v)} :: typed(j, s, 1, v) == nullok(v)

define listok(l) = forall i int {elems(l)[i]} :: 0 <= i && i < len(l) ==> elems(l)[i] != nil
// well-formed schemas: no nil subschemas
define schemasok() = forall s *schema.Schema {s.AllOf} {s.AnyOf} {s.OneOf} {s.Items} {s.Properties} {s.PatternProperties} {s.Dependencies.Schemas} :: s != nil ==> listok(s.AllOf) && listok(s.AnyOf) && listok(s.OneOf)
  && (s.Items != nil ==> listok(s.Items.Schemas) && (!s.Items.TupleMode ==> len(s.Items.Schemas) > 0))
  && (forall k string {has(s.Properties, k)} :: has(s.Properties, k) ==> s.Properties[k] != nil)
  && (forall k *regexp.Regexp {has(s.PatternProperties, k)} :: has(s.PatternProperties, k) ==> k != nil && s.PatternProperties[k] != nil)
  && (forall k string {has(s.Dependencies.Schemas, k)} :: has(s.Dependencies.Schemas, k) ==> s.Dependencies.Schemas[k] != nil)
define ctxok(ctx) = ctx != nil && ctx.V != nil && ctx.R != nil

define stype(s, t) = if len(s.Type) > 0 then hastype(s.Type, t) else gtype(s, t)
define untyped(s) = len(s.Type) == 0 && (forall t int {gtype(s, t)} :: !gtype(s, t))
define notpart(j, s, v) = s.Not != nil ==> !sch(j, s.Not, v)
define allpart(j, s, v) = forall i int {elems(s.AllOf)[i]} :: 0 <= i && i < len(s.AllOf) ==> sch(j, elems(s.AllOf)[i], v)
define anypart(j, s, v) = len(s.AnyOf) > 0 ==> (exists i int {elems(s.AnyOf)[i]} :: 0 <= i && i < len(s.AnyOf) && sch(j, elems(s.AnyOf)[i], v))
define onepart(j, s, v) = len(s.OneOf) > 0 ==> scnt(j, elems(s.OneOf), v, len(s.OneOf)) == 1
define typepart(j, s, v) = if !untyped(s) then (exists t int {typed(j, s, t, v)} :: stype(s, t) && typed(j, s, t, v))
  else len(s.Enum) > 0 ==> (exists i int {elems(s.Enum)[i]} :: 0 <= i && i < len(s.Enum) && ieq(elems(s.Enum)[i], v))
define inlist(l, n) = exists i int {elems(l)[i]} :: 0 <= i && i < len(l) && sref(elems(l)[i], n)
define errlist(l) = exists i int {elems(l)[i]} :: 0 <= i && i < len(l) && serr(elems(l)[i])
define grew(ctx) = forall n string {has(ctx.R, n)} :: pre(has(ctx.R, n)) ==> has(ctx.R, n)
define grows(ctx) = forall n string {has(ctx.R, n)} :: old(has(ctx.R, n)) ==> has(ctx.R, n)

define allsofar(c, j, l, n) = len(c.constraints) == n && (forall v any {allacc(elems(c.constraints), len(c.constraints), v)} :: allacc(elems(c.constraints), len(c.constraints), v) == (forall i int {elems(l)[i]} :: 0 <= i && i < n ==> sch(j, elems(l)[i], v)))
define anysofar(c, j, l, n) = len(c.constraints) == n && (forall v any {anyacc(elems(c.constraints), len(c.constraints), v)} :: anyacc(elems(c.constraints), len(c.constraints), v) == (exists i int {elems(l)[i]} :: 0 <= i && i < n && sch(j, elems(l)[i], v)))
define onesofar(c, j, l, n) = len(c.constraints) == n && (forall v any {cnt(elems(c.constraints), v, len(c.constraints))} :: cnt(elems(c.constraints), v, len(c.constraints)) == scnt(j, elems(l), v, n))
define typessofar(c, j, s, l, n) = (forall v any {anyacc(elems(c.constraints), len(c.constraints), v)} :: anyacc(elems(c.constraints), len(c.constraints), v) == (exists i int {elems(l)[i]} :: 0 <= i && i < n && typed(j, s, elems(l)[i], v)))
define partssofar(g, j, l, n) = len(g) == n && (forall i int {elems(g)[i]} {elems(l)[i]} :: 0 <= i && i < n ==> elems(g)[i] != nil && (forall v any {accepts(elems(g)[i], v)} :: accepts(elems(g)[i], v) == sch(j, elems(l)[i], v)))
define listdone(ctx, l, n) = forall i int {elems(l)[i]} :: 0 <= i && i < n ==> !serr(elems(l)[i]) && (forall x string {sref(elems(l)[i], x)} :: sref(elems(l)[i], x) ==> has(ctx.R, x))

extern (schema.PrimitiveType).String(t) (s)
  modifies nothing

func builder.buildFromSchema(ctx, s) (c, e)
  internal
  requires ctxok(ctx) && s != nil && schemasok() && nolocks()
  modifies contents(ctx.R), open
  defines open == old(open)
  defines e == nil ==> (forall v any {accepts(c, v)} :: accepts(c, v) == sch(ctx.V, s, v))
  defines (e != nil) == serr(s)
  final forall n string {sref(s, n)} :: sref(s, n) == (if s.Reference != "" then n == s.Reference else s.Not != nil && sref(s.Not, n) || inlist(s.AllOf, n) || inlist(s.AnyOf, n) || inlist(s.OneOf, n) || stype(s, 5) && tref(s, 5, n) || stype(s, 4) && tref(s, 4, n))
  final forall x *jsval.EnumConstraint, v any {accepts(box(x), v)} :: accepts(box(x), v) == enumok(x, v)
  ensures c: e == nil ==> c != nil
  ensures [C14] grow: grows(ctx)
  ensures [C14] uses: e == nil ==> (forall n string {sref(s, n)} :: sref(s, n) ==> has(ctx.R, n))
  ensures nolocks()
  proves [C14] reference: e == nil && s.Reference != "" ==> istype(c, *jsval.ReferenceConstraint) && unbox(c, *jsval.ReferenceConstraint).reference == s.Reference && unbox(c, *jsval.ReferenceConstraint).resolver == box(ctx.V)
  proves [C13] verdict: e == nil && s.Reference == "" ==> (forall v any {accepts(c, v)} :: accepts(c, v) == (notpart(ctx.V, s, v) && allpart(ctx.V, s, v) && anypart(ctx.V, s, v) && onepart(ctx.V, s, v) && typepart(ctx.V, s, v)))
  proves [C13] error: (e != nil) == (s.Reference == "" && (s.Not != nil && serr(s.Not) || errlist(s.AllOf) || errlist(s.AnyOf) || errlist(s.OneOf) || (exists t int {typin(elems(s.Type), len(s.Type), t)} {terr(s, t)} :: stype(s, t) && (t < 1 || t > 7 || (t == 4 || t == 5) && terr(s, t)))))
  inv ctxok(ctx)
  inv isopen($ct:*jsval.AllConstraint)
  inv grows(ctx)
  inv grew(ctx)
  inv range(.AllOf) allsofar($ac:*jsval.AllConstraint, ctx.V, s.AllOf, $i)
  inv range(.AllOf) isopen($ac:*jsval.AllConstraint)
  inv range(.AllOf) listdone(ctx, s.AllOf, $i)
  inv range(.AnyOf) anysofar($ac:*jsval.AnyConstraint, ctx.V, s.AnyOf, $i)
  inv range(.AnyOf) isopen($ac:*jsval.AnyConstraint)
  inv range(.AnyOf) listdone(ctx, s.AnyOf, $i)
  inv range(.OneOf) onesofar($oc:*jsval.OneOfConstraint, ctx.V, s.OneOf, $i)
  inv range(.OneOf) isopen($oc:*jsval.OneOfConstraint)
  inv range(.OneOf) listdone(ctx, s.OneOf, $i)
  // parts built before they are added
  inv range(.AllOf) partssofar($grown:[]jsval.Constraint, ctx.V, s.AllOf, $i)
  inv partssofar($parts:[]jsval.Constraint, ctx.V, s.AllOf, len(s.AllOf))
  inv range(.AnyOf) partssofar($grown:[]jsval.Constraint, ctx.V, s.AnyOf, $i)
  inv partssofar($parts:[]jsval.Constraint, ctx.V, s.AnyOf, len(s.AnyOf))
  inv range(.OneOf) partssofar($grown:[]jsval.Constraint, ctx.V, s.OneOf, $i)
  inv partssofar($parts:[]jsval.Constraint, ctx.V, s.OneOf, len(s.OneOf))
  inv childrenOK($ct:*jsval.AllConstraint)
  inv childrenOK($ac:*jsval.AllConstraint)
  inv childrenOK($ac:*jsval.AnyConstraint)
  inv childrenOK($oc:*jsval.OneOfConstraint)
  inv childrenOK($tct:*jsval.AnyConstraint)
  inv range(sts) forall i int {elems($sts:schema.PrimitiveTypes)[i]} :: 0 <= i && i < len($sts:schema.PrimitiveTypes) ==> stype(s, elems($sts:schema.PrimitiveTypes)[i])
  inv range(sts) forall t int {terr(s, t)} {hastype($sts:schema.PrimitiveTypes, t)} :: stype(s, t) ==> hastype($sts:schema.PrimitiveTypes, t)
  inv range(sts) forall t int, v any {typed(ctx.V, s, t, v)} :: stype(s, t) ==> hastype($sts:schema.PrimitiveTypes, t)
  inv range(sts) isopen($tct:*jsval.AnyConstraint) && len($tct:*jsval.AnyConstraint.constraints) == $i
  inv range(sts) typessofar($tct:*jsval.AnyConstraint, ctx.V, s, $sts:schema.PrimitiveTypes, $i)
  inv range(sts) forall i int {elems($sts:schema.PrimitiveTypes)[i]} :: 0 <= i && i < $i ==> 1 <= elems($sts:schema.PrimitiveTypes)[i] && elems($sts:schema.PrimitiveTypes)[i] <= 7 && (elems($sts:schema.PrimitiveTypes)[i] == 4 || elems($sts:schema.PrimitiveTypes)[i] == 5 ==> !terr(s, elems($sts:schema.PrimitiveTypes)[i]) && (forall x string {tref(s, elems($sts:schema.PrimitiveTypes)[i], x)} :: tref(s, elems($sts:schema.PrimitiveTypes)[i], x) ==> has(ctx.R, x)))

func builder.buildArrayConstraint(ctx, c, s) (e)
  internal
  requires ctxok(ctx) && s != nil && schemasok() && nolocks()
  requires c != nil && isopen(c)
  requires arrnew(c)
  modifies c.items, c.positionalItems, c.additionalItems, c.minItems, c.maxItems, c.uniqueItems, contents(ctx.R), open
  defines open == store(old(open), box(c), false)
  defines e == nil ==> (forall v any {accepts(box(c), v)} :: accepts(box(c), v) == typed(ctx.V, s, 5, v))
  defines (e != nil) == terr(s, 5)
  final forall n string {tref(s, 5, n)} :: tref(s, 5, n) == (s.Items != nil && (if !s.Items.TupleMode then sref(elems(s.Items.Schemas)[0], n) else inlist(s.Items.Schemas, n) || s.AdditionalItems != nil && s.AdditionalItems.Schema != nil && sref(s.AdditionalItems.Schema, n)))
  ensures [C14] grow: grows(ctx)
  ensures [C14] uses: e == nil ==> (forall n string {tref(s, 5, n)} :: tref(s, 5, n) ==> has(ctx.R, n))
  ensures nolocks()
  proves [C12] items: e == nil && s.Items != nil && !s.Items.TupleMode ==> c.items != nil && (forall v any {accepts(c.items, v)} :: accepts(c.items, v) == sch(ctx.V, elems(s.Items.Schemas)[0], v)) && c.positionalItems == old(c.positionalItems)
  proves [C12] positional: e == nil && s.Items != nil && s.Items.TupleMode ==> c.items == nil && len(c.positionalItems) == len(s.Items.Schemas) && (forall i int, v any {accepts(elems(c.positionalItems)[i], v)} :: 0 <= i && i < len(s.Items.Schemas) ==> accepts(elems(c.positionalItems)[i], v) == sch(ctx.V, elems(s.Items.Schemas)[i], v))
  proves [C12] present: e == nil && s.Items != nil && s.Items.TupleMode ==> (forall i int {elems(c.positionalItems)[i]} :: 0 <= i && i < len(c.positionalItems) ==> elems(c.positionalItems)[i] != nil)
  proves [C12] additional: e == nil && s.Items != nil && s.Items.TupleMode ==> (if s.AdditionalItems == nil then c.additionalItems == nil else if s.AdditionalItems.Schema != nil then c.additionalItems != nil && (forall v any {accepts(c.additionalItems, v)} :: accepts(c.additionalItems, v) == sch(ctx.V, s.AdditionalItems.Schema, v)) else istype(c.additionalItems, emptyConstraint))
  proves [C12] noitems: e == nil && s.Items == nil ==> c.items == nil && c.positionalItems == old(c.positionalItems) && c.additionalItems == old(c.additionalItems)
  proves [C12] length: e == nil ==> c.minItems == (if s.MinItems.Initialized then s.MinItems.Val else -1) && c.maxItems == (if s.MaxItems.Initialized then s.MaxItems.Val else -1)
  proves [C12] unique: e == nil ==> c.uniqueItems == (s.UniqueItems.Initialized && s.UniqueItems.Val)
  proves [C12] error: (e != nil) == (s.Items != nil && (if !s.Items.TupleMode then serr(elems(s.Items.Schemas)[0]) else errlist(s.Items.Schemas) || s.AdditionalItems != nil && s.AdditionalItems.Schema != nil && serr(s.AdditionalItems.Schema)))
  inv isopen(c)
  inv listdone(ctx, s.Items.Schemas, $i)
  inv grows(ctx)
  inv grew(ctx)
  inv forall i int, v any {accepts(elems($specs:[]jsval.Constraint)[i], v)} :: 0 <= i && i < $i ==> accepts(elems($specs:[]jsval.Constraint)[i], v) == sch(ctx.V, elems(s.Items.Schemas)[i], v)
  inv forall i int {elems($specs:[]jsval.Constraint)[i]} :: 0 <= i && i < $i ==> elems($specs:[]jsval.Constraint)[i] != nil

define keydone(ctx, m, k) = !serr(m[k]) && (forall x string {sref(m[k], x)} :: sref(m[k], x) ==> has(ctx.R, x))
define inmap(m, n) = exists k string {has(m, k)} :: has(m, k) && sref(m[k], n)
define inpats(m, n) = exists k *regexp.Regexp {has(m, k)} :: has(m, k) && sref(m[k], n)
define errmap(m) = exists k string {has(m, k)} :: has(m, k) && serr(m[k])
define errpats(m) = exists k *regexp.Regexp {has(m, k)} :: has(m, k) && serr(m[k])
define isfor(j, c, s) = c != nil && (forall v any {accepts(c, v)} :: accepts(c, v) == sch(j, s, v))
func builder.buildObjectConstraint(ctx, c, s) (e)
  internal
  requires ctxok(ctx) && s != nil && schemasok() && nolocks()
  requires c != nil && isopen(c)
  requires objnew(c)
  requires ctx.R != c.required
  requires c.properties != c.schemadeps
  requires c.propdeps != s.Dependencies.Names
  modifies c.minProperties, c.maxProperties, c.additionalProperties, contents(c.properties), contents(c.patternProperties), contents(c.required), contents(c.propdeps), contents(c.schemadeps), contents(ctx.R), open
  defines open == store(old(open), box(c), false)
  defines e == nil ==> (forall v any {accepts(box(c), v)} :: accepts(box(c), v) == typed(ctx.V, s, 4, v))
  defines (e != nil) == terr(s, 4)
  final forall n string {tref(s, 4, n)} :: tref(s, 4, n) == (inmap(s.Properties, n) || inpats(s.PatternProperties, n) || inmap(s.Dependencies.Schemas, n) || s.AdditionalProperties != nil && s.AdditionalProperties.Schema != nil && sref(s.AdditionalProperties.Schema, n))
  ensures [C14] grow: grows(ctx)
  ensures [C14] uses: e == nil ==> (forall n string {tref(s, 4, n)} :: tref(s, 4, n) ==> has(ctx.R, n))
  ensures nolocks()
  proves [C12] count: e == nil ==> c.minProperties == (if s.MinProperties.Initialized then s.MinProperties.Val else -1) && c.maxProperties == (if s.MaxProperties.Initialized then s.MaxProperties.Val else -1)
  proves [C12] required: e == nil ==> (forall k string {has(c.required, k)} :: has(c.required, k) == (exists i int {elems(s.Required)[i]} :: 0 <= i && i < len(s.Required) && elems(s.Required)[i] == k))
  proves [C12] properties: e == nil ==> (forall k string {has(c.properties, k)} :: has(c.properties, k) == has(s.Properties, k) && (has(c.properties, k) ==> isfor(ctx.V, c.properties[k], s.Properties[k])))
  proves [C12] patterns: e == nil ==> (forall k *regexp.Regexp {has(c.patternProperties, k)} :: has(c.patternProperties, k) == has(s.PatternProperties, k) && (has(c.patternProperties, k) ==> isfor(ctx.V, c.patternProperties[k], s.PatternProperties[k])))
  proves [C12] additional: e == nil ==> (if s.AdditionalProperties == nil then c.additionalProperties == nil else if s.AdditionalProperties.Schema != nil then isfor(ctx.V, c.additionalProperties, s.AdditionalProperties.Schema) else istype(c.additionalProperties, emptyConstraint))
  proves [C12] propdeps: e == nil ==> (forall k string {has(c.propdeps, k)} :: npdeps(c, k) == (if has(s.Dependencies.Names, k) then len(s.Dependencies.Names[k]) else 0) && (forall i int {elems(c.propdeps[k])[i]} :: 0 <= i && i < npdeps(c, k) ==> elems(c.propdeps[k])[i] == elems(s.Dependencies.Names[k])[i]))
  proves [C12] schemadeps: e == nil ==> (forall k string {has(c.schemadeps, k)} :: has(c.schemadeps, k) == has(s.Dependencies.Schemas, k) && (has(c.schemadeps, k) ==> isfor(ctx.V, c.schemadeps[k], s.Dependencies.Schemas[k])))
  proves [C12] error: (e != nil) == (errmap(s.Properties) || errpats(s.PatternProperties) || errmap(s.Dependencies.Schemas) || s.AdditionalProperties != nil && s.AdditionalProperties.Schema != nil && serr(s.AdditionalProperties.Schema))
  inv isopen(c) && grows(ctx)
  inv grew(ctx)
  inv range(.Properties) forall k string {has(c.properties, k)} {$visited[k]} :: has(c.properties, k) == $visited[k] && ($visited[k] ==> isfor(ctx.V, c.properties[k], s.Properties[k]) && keydone(ctx, s.Properties, k))
  inv range(.PatternProperties) forall k *regexp.Regexp {has(c.patternProperties, k)} {$visited[k]} :: has(c.patternProperties, k) == $visited[k] && ($visited[k] ==> isfor(ctx.V, c.patternProperties[k], s.PatternProperties[k]) && keydone(ctx, s.PatternProperties, k))
  inv range(.Names) forall k string {has(c.propdeps, k)} {$visited[k]} :: if $visited[k] then npdeps(c, k) == len(s.Dependencies.Names[k]) && (forall i int {elems(c.propdeps[k])[i]} :: 0 <= i && i < npdeps(c, k) ==> elems(c.propdeps[k])[i] == elems(s.Dependencies.Names[k])[i]) else npdeps(c, k) == 0
  inv range(.Schemas, depschemas) forall k string {has(c.schemadeps, k)} {$visited[k]} :: has(c.schemadeps, k) == $visited[k] && ($visited[k] ==> isfor(ctx.V, c.schemadeps[k], s.Dependencies.Schemas[k]) && keydone(ctx, s.Dependencies.Schemas, k))

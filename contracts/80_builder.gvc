// ---- building constraints from schemas
// the dependency jsschema: its list of types
uf typin([int]int, int, int) bool
axiom typin_def: forall a [int]int, n int, t int {typin(a, n, t)} :: typin(a, n, t) == (exists i int {a[i]} :: 0 <= i && i < n && a[i] == t)
define hastype(l, t) = typin(elems(l), len(l), t)
extern (schema.PrimitiveTypes).Contains(l, t) (b)
  modifies nothing
  ensures b == hastype(l, t)

define typeok(s, t) = len(s.Type) == 0 || hastype(s.Type, t)

func builder.buildStringConstraint(ctx, c, s) (e)
  internal
  requires c != nil && s != nil && ctx != nil
  // a new constraint: the verdict of the finished one is that of the schema
  requires strnew(c)
  requires isopen(c)
  modifies c.maxLength, c.minLength, c.regexp, c.format, c.enums, c.initialized, c.value, open
  defines open == store(old(open), box(c), false)
  defines e == nil ==> (forall v any {accepts(box(c), v)} :: accepts(box(c), v) == typed(ctx.V, s, 3, v))
  ensures [C12] type: (e == nil) == typeok(s, 3)
  ensures [C12] maxlength: e == nil ==> c.maxLength == (if s.MaxLength.Initialized then s.MaxLength.Val else old(c.maxLength))
  ensures [C12] minlength: e == nil ==> c.minLength == (if s.MinLength.Initialized then s.MinLength.Val else old(c.minLength))
  ensures [C12] pattern: e == nil ==> c.regexp == (if s.Pattern != nil then s.Pattern else old(c.regexp))
  ensures [C12] format: e == nil ==> c.format == (if s.Format != "" then s.Format else old(c.format))
  ensures [C12] enum: e == nil ==> (if len(s.Enum) > 0 then c.enums != nil && c.enums.enums == s.Enum else c.enums == old(c.enums))
  ensures [C12] default: e == nil ==> (if s.Default != nil then c.initialized && c.value == s.Default else c.initialized == old(c.initialized) && c.value == old(c.value))

define numbuilt(c, s) = 
     (if s.Minimum.Initialized then c.applyMinimum && c.minimum == s.Minimum.Val else c.applyMinimum == old(c.applyMinimum) && c.minimum == old(c.minimum))
  && (if s.Maximum.Initialized then c.applyMaximum && c.maximum == s.Maximum.Val else c.applyMaximum == old(c.applyMaximum) && c.maximum == old(c.maximum))
  && (s.Minimum.Initialized ==> c.exclusiveMinimum == (if s.ExclusiveMinimum.Initialized then s.ExclusiveMinimum.Val else old(c.exclusiveMinimum)))
  && (s.Maximum.Initialized ==> c.exclusiveMaximum == (if s.ExclusiveMaximum.Initialized then s.ExclusiveMaximum.Val else old(c.exclusiveMaximum)))
define multbuilt(c, s) = if s.MultipleOf.Initialized then c.applyMultipleOf && c.multipleOf == s.MultipleOf.Val else c.applyMultipleOf == old(c.applyMultipleOf) && c.multipleOf == old(c.multipleOf)
define enumbuilt(c, s) = if len(s.Enum) > 0 then c.enums != nil && c.enums.enums == s.Enum else c.enums == old(c.enums)
define defbuilt(c, s) = if s.Default != nil then c.initialized && c.value == s.Default else c.initialized == old(c.initialized) && c.value == old(c.value)

func builder.buildNumberConstraint(ctx, c, s) (e)
  internal
  requires c != nil && s != nil && ctx != nil
  // a new constraint: the verdict of the finished one is that of the schema
  requires numnew(c)
  requires isopen(c)
  modifies c.applyMinimum, c.minimum, c.exclusiveMinimum, c.applyMaximum, c.maximum, c.exclusiveMaximum, c.applyMultipleOf, c.multipleOf, c.enums, c.initialized, c.value, open
  defines open == store(old(open), box(c), false)
  defines e == nil ==> (forall v any {accepts(box(c), v)} :: accepts(box(c), v) == typed(ctx.V, s, 7, v))
  ensures [C12] type: (e == nil) == typeok(s, 7)
  ensures [C12] bounds: e == nil ==> numbuilt(c, s)
  ensures [C12] divisor: e == nil ==> multbuilt(c, s)
  ensures [C12] enum: e == nil ==> enumbuilt(c, s)
  ensures [C12] default: e == nil ==> defbuilt(c, s)
func builder.buildIntegerConstraint(ctx, c, s) (e)
  internal
  requires c != nil && s != nil && ctx != nil
  // a new constraint: the verdict of the finished one is that of the schema
  requires numnew(c)
  requires isopen(c) && isopen(addr(c.NumberConstraint))
  modifies c.applyMinimum, c.minimum, c.exclusiveMinimum, c.applyMaximum, c.maximum, c.exclusiveMaximum, c.applyMultipleOf, c.multipleOf, c.enums, c.initialized, c.value, open
  defines open == store(store(old(open), box(c), false), box(addr(c.NumberConstraint)), false)
  defines e == nil ==> (forall v any {accepts(box(c), v)} :: accepts(box(c), v) == typed(ctx.V, s, 2, v))
  ensures [C12] type: (e == nil) == typeok(s, 2)
  ensures [C12] bounds: e == nil ==> numbuilt(c, s)
  ensures [C12] divisor: e == nil ==> multbuilt(c, s)
  ensures [C12] enum: e == nil ==> enumbuilt(c, s)
  ensures [C12] default: e == nil ==> defbuilt(c, s)
func builder.buildBooleanConstraint(ctx, c, s) (e)
  internal
  requires c != nil && s != nil && ctx != nil
  // a new constraint: the verdict of the finished one is that of the schema
  requires !c.initialized
  requires isopen(c)
  modifies c.initialized, c.value, open
  defines open == store(old(open), box(c), false)
  defines e == nil ==> (forall v any {accepts(box(c), v)} :: accepts(box(c), v) == typed(ctx.V, s, 6, v))
  ensures [C12] type: e == nil
  ensures [C12] default: if istype(s.Default, bool) then c.initialized && c.value == s.Default else c.initialized == old(c.initialized) && c.value == old(c.value)
func builder.buildEnumConstraint(ctx, c, s) (e)
  internal
  requires c != nil && s != nil
  modifies c.enums
  ensures [C12] enum: e == nil && len(c.enums) == len(s.Enum) && (forall i int {elems(c.enums)[i]} :: 0 <= i && i < len(s.Enum) ==> elems(c.enums)[i] == elems(s.Enum)[i])
func builder.buildReferenceConstraint(ctx, c, s) (e)
  internal
  requires c != nil && s != nil
  requires isopen(c)
  modifies c.reference, open
  defines open == store(old(open), box(c), false)
  ensures [C14] name: (e == nil) == (s.Reference != "") && (e == nil ==> c.reference == s.Reference)

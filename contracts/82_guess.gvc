// ---- what an untyped schema describes
define enumkind(s, i) = rkind(rvof(elems(s.Enum)[i]))
define looksobj(s) = len(s.Properties) > 0 || s.AdditionalProperties == nil || s.AdditionalProperties.Schema != nil || s.MinProperties.Initialized || s.MaxProperties.Initialized || len(s.Required) > 0 || len(s.PatternProperties) > 0
  || (exists i int {elems(s.Enum)[i]} :: 0 <= i && i < len(s.Enum) && (enumkind(s, i) == 21 || enumkind(s, i) == 25))
define looksarr(s) = s.Items != nil || s.AdditionalItems == nil || s.AdditionalItems.Schema != nil || s.MinItems.Initialized || s.MaxItems.Initialized || s.UniqueItems.Initialized
  || (exists i int {elems(s.Enum)[i]} :: 0 <= i && i < len(s.Enum) && enumkind(s, i) == 23)
define knownformat(f) = f == "date-time" || f == "email" || f == "hostname" || f == "ipv4" || f == "ipv6" || f == "uri"
define looksstr(s) = s.MinLength.Initialized || s.MaxLength.Initialized || s.Pattern != nil || knownformat(s.Format)
  || (exists i int {elems(s.Enum)[i]} :: 0 <= i && i < len(s.Enum) && enumkind(s, i) == 24)
define looksbool(s) = exists i int {elems(s.Enum)[i]} :: 0 <= i && i < len(s.Enum) && enumkind(s, i) == 1
define intkind(k) = 2 <= k && k <= 6
define numkind(k) = intkind(k) || k == 13 || k == 14
define numword(s) = s.MultipleOf.Initialized || s.Minimum.Initialized || s.Maximum.Initialized || s.ExclusiveMinimum.Initialized || s.ExclusiveMaximum.Initialized
define looksnum(s) = numword(s) || (exists i int {elems(s.Enum)[i]} :: 0 <= i && i < len(s.Enum) && numkind(enumkind(s, i)))
define whole(x) = feq(floor(x), x)
// the number type: integer if the deciding keyword or the first numeric enum value is integral
define isnumtype(s, t) = if s.MultipleOf.Initialized then t == (if whole(s.MultipleOf.Val) then 2 else 7)
  else if s.Minimum.Initialized then t == (if whole(s.Minimum.Val) then 2 else 7)
  else if s.Maximum.Initialized then t == (if whole(s.Maximum.Val) then 2 else 7)
  else if s.ExclusiveMinimum.Initialized || s.ExclusiveMaximum.Initialized then t == 7
  else (exists i int {elems(s.Enum)[i]} :: 0 <= i && i < len(s.Enum) && numkind(enumkind(s, i)) && (forall j int {elems(s.Enum)[j]} :: 0 <= j && j < i ==> !numkind(enumkind(s, j))) && t == (if intkind(enumkind(s, i)) then 2 else 7))

func builder.schemaLooksLikeObject(s) (b)
  internal
  requires s != nil
  modifies nothing
  ensures [C13] object: b == looksobj(s)
  inv forall i int {elems(s.Enum)[i]} :: 0 <= i && i < $i ==> !(enumkind(s, i) == 21 || enumkind(s, i) == 25)
func builder.schemaLooksLikeArray(s) (b)
  internal
  requires s != nil
  modifies nothing
  ensures [C13] array: b == looksarr(s)
  inv forall i int {elems(s.Enum)[i]} :: 0 <= i && i < $i ==> enumkind(s, i) != 23
func builder.schemaLooksLikeString(s) (b)
  internal
  requires s != nil
  modifies nothing
  ensures [C13] string: b == looksstr(s)
  inv forall i int {elems(s.Enum)[i]} :: 0 <= i && i < $i ==> enumkind(s, i) != 24
func builder.schemaLooksLikeNumber(s) (b, t)
  internal
  requires s != nil
  modifies nothing
  ensures [C13] number: b == looksnum(s)
  ensures [C13] numtype: b ==> isnumtype(s, t)
  inv forall i int {elems(s.Enum)[i]} :: 0 <= i && i < $i ==> !numkind(enumkind(s, i))
func builder.schemaLooksLikeBool(s) (b)
  internal
  requires s != nil
  modifies nothing
  ensures [C13] bool: b == looksbool(s)
  inv forall i int {elems(s.Enum)[i]} :: 0 <= i && i < $i ==> enumkind(s, i) != 1
define guessed(s, t) = t == 4 && looksobj(s) || t == 5 && looksarr(s) || t == 3 && looksstr(s) || looksnum(s) && isnumtype(s, t) || t == 6 && looksbool(s)
// the types guessed for a schema
uf gtype(*schema.Schema, int) bool
func builder.guessSchemaType(s) (l)
  internal
  requires s != nil
  modifies nothing
  defines forall t int {gtype(s, t)} {hastype(l, t)} :: gtype(s, t) == hastype(l, t)
  proves [C13] guess: forall t int {hastype(l, t)} :: hastype(l, t) == guessed(s, t)
  ensures forall i int {elems(l)[i]} :: 0 <= i && i < len(l) ==> hastype(l, elems(l)[i])
  ensures len(l) > 0 ==> fresh(l)

define item(v, i) = riface(rindex(rvof(v), i))
define nitems(v) = rlen(rvof(v))
define lenok(c, n) = (c.minItems > -1 ==> n >= c.minItems) && (c.maxItems > -1 ==> n <= c.maxItems)
define uniqok(v) = forall i int, j int {stringify(item(v, i)), stringify(item(v, j))} :: 0 <= i && i < j && j < nitems(v) ==> stringify(item(v, i)) != stringify(item(v, j))
define itemsok(c, v) = forall i int {rindex(rvof(v), i)} :: 0 <= i && i < nitems(v) ==> accepts(c.items, item(v, i))
define posok(c, v) = forall i int {rindex(rvof(v), i)} :: 0 <= i && i < nitems(v) && i < len(c.positionalItems) ==> accepts(elems(c.positionalItems)[i], item(v, i))
define addok(c, v) = len(c.positionalItems) > 0 && nitems(v) > len(c.positionalItems) ==> c.additionalItems != nil && (forall i int {rindex(rvof(v), i)} :: len(c.positionalItems) <= i && i < nitems(v) ==> accepts(c.additionalItems, item(v, i)))
define arrayok(c, v) = lenok(c, nitems(v)) && (c.uniqueItems ==> uniqok(v)) && (if c.items != nil then itemsok(c, v) else posok(c, v) && addok(c, v))

// elements of a slice can be taken out of it (rvof is exported data)
axiom slice_elems: forall v any, i int {rindex(rvof(v), i)} :: rkind(rvof(v)) == 23 && 0 <= i && i < rlen(rvof(v)) ==> rkind(rindex(rvof(v), i)) != 0

func (*jsval.ArrayConstraint).Validate(c, v) (e)
  concurrent
  ensures [C16] unlock: nolocks()
  requires forall i int {elems(c.positionalItems)[i]} :: 0 <= i && i < len(c.positionalItems) ==> elems(c.positionalItems)[i] != nil
  modifies nothing
  ensures [C05] kind: kindof(typeof(v)) != 23 ==> e != nil
  ensures [C05] array: kindof(typeof(v)) == 23 ==> ((e == nil) == arrayok(c, v))
  inv forall i int {rindex(rvof(v), i)} :: 0 <= i && i < $i ==> accepts(c.items, item(v, i))
  inv forall i int {rindex(rvof(v), i)} :: 0 <= i && i < $i ==> accepts(elems(c.positionalItems)[i], item(v, i))
  inv forall i int {rindex(rvof(v), i)} :: len(c.positionalItems) <= i && i < len(c.positionalItems) + $i ==> accepts(c.additionalItems, item(v, i))
  inv forall i int, j int {stringify(item(v, i)), stringify(item(v, j))} :: 0 <= i && i < j && j < $i ==> stringify(item(v, i)) != stringify(item(v, j))
  inv $i <= nitems(v) && (forall i int {stringify(item(v, i))} :: 0 <= i && i < $i ==> has($u:map[string]unit, stringify(item(v, i))))
  inv forall k string {has($u:map[string]unit, k)} :: has($u:map[string]unit, k) ==> (exists i int {stringify(item(v, i))} :: 0 <= i && i < $i && k == stringify(item(v, i)))
define arrnew(c) = c.minItems == -1 && c.maxItems == -1 && !c.uniqueItems && c.items == nil && len(c.positionalItems) == 0 && istype(c.additionalItems, emptyConstraint) && !c.initialized
func jsval.Array() (c)
  modifies open
  defines open == store(old(open), box(c), true)
  ensures fresh(c)
  ensures [C05] new: arrnew(c)
func (*jsval.ArrayConstraint).AdditionalItems(c, x) (r)
  requires isopen(c)
  modifies c.additionalItems
  ensures [C05] set: r == c && c.additionalItems == x
func (*jsval.ArrayConstraint).Items(c, x) (r)
  requires isopen(c)
  modifies c.items
  ensures [C05] set: r == c && c.items == x
func (*jsval.ArrayConstraint).MinItems(c, n) (r)
  requires isopen(c)
  modifies c.minItems
  ensures [C05] set: r == c && c.minItems == n
func (*jsval.ArrayConstraint).MaxItems(c, n) (r)
  requires isopen(c)
  modifies c.maxItems
  ensures [C05] set: r == c && c.maxItems == n
func (*jsval.ArrayConstraint).PositionalItems(c, l) (r)
  requires isopen(c)
  modifies c.positionalItems
  ensures [C05] set: r == c && len(c.positionalItems) == len(l) && (forall i int {elems(c.positionalItems)[i]} :: 0 <= i && i < len(l) ==> elems(c.positionalItems)[i] == elems(l)[i])
func (*jsval.ArrayConstraint).UniqueItems(c, b) (r)
  requires isopen(c)
  modifies c.uniqueItems
  ensures [C05] set: r == c && c.uniqueItems == b

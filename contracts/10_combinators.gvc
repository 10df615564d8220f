// number of children among the first n that accept v
uf cnt([int]any, any, int) int
axiom cnt0: forall a [int]any, v any {cnt(a, v, 0)} :: cnt(a, v, 0) == 0
axiom cntS: forall a [int]any, v any, n int {cnt(a, v, n), a[n]} :: 0 <= n ==> cnt(a, v, n+1) == cnt(a, v, n) + (if accepts(a[n], v) then 1 else 0)
lemma cnt_prefix by n: forall a [int]any, b [int]any, v any, n int {cnt(a, v, n), cnt(b, v, n)} :: 0 <= n && (forall i int {a[i]} {b[i]} :: 0 <= i && i < n ==> a[i] == b[i]) ==> cnt(a, v, n) == cnt(b, v, n)

// all, some of the first n accept v
uf allacc([int]any, int, any) bool
axiom allacc_def: forall a [int]any, n int, v any {allacc(a, n, v)} :: allacc(a, n, v) == (forall i int {a[i]} :: 0 <= i && i < n ==> accepts(a[i], v))
uf anyacc([int]any, int, any) bool
axiom anyacc_def: forall a [int]any, n int, v any {anyacc(a, n, v)} :: anyacc(a, n, v) == (exists i int {a[i]} :: 0 <= i && i < n && accepts(a[i], v))

define childrenOK(c) = forall i int {elems(c.constraints)[i]} :: 0 <= i && i < len(c.constraints) ==> elems(c.constraints)[i] != nil

func (*jsval.AnyConstraint).Validate(c, v) (e)
  concurrent
  ensures [C16] unlock: nolocks()
  requires childrenOK(c)
  modifies nothing
  ensures [C04] any: (e == nil) == (exists i int {elems(c.constraints)[i]} :: 0 <= i && i < len(c.constraints) && accepts(elems(c.constraints)[i], v))
  inv forall i int {elems(c.constraints)[i]} :: 0 <= i && i < $i ==> !accepts(elems(c.constraints)[i], v)

func (*jsval.AllConstraint).Validate(c, v) (e)
  concurrent
  ensures [C16] unlock: nolocks()
  requires childrenOK(c)
  modifies nothing
  ensures [C04] all: (e == nil) == (forall i int {elems(c.constraints)[i]} :: 0 <= i && i < len(c.constraints) ==> accepts(elems(c.constraints)[i], v))
  inv forall i int {elems(c.constraints)[i]} :: 0 <= i && i < $i ==> accepts(elems(c.constraints)[i], v)

func (*jsval.OneOfConstraint).Validate(c, v) (e)
  concurrent
  ensures [C16] unlock: nolocks()
  requires childrenOK(c)
  modifies nothing
  ensures [C04] oneof: (e == nil) == (cnt(elems(c.constraints), v, len(c.constraints)) == 1)
  inv $n:int == cnt(elems(c.constraints), v, $i)

func jsval.Any() (c)
  ensures [C04] nothing: forall v any {anyacc(elems(c.constraints), len(c.constraints), v)} :: !anyacc(elems(c.constraints), len(c.constraints), v)
  modifies open
  defines open == store(old(open), box(c), true)
  ensures fresh(c)
  ensures [C04] new: len(c.constraints) == 0
func jsval.All() (c)
  ensures [C04] everything: forall v any {allacc(elems(c.constraints), len(c.constraints), v)} :: allacc(elems(c.constraints), len(c.constraints), v)
  modifies open
  defines open == store(old(open), box(c), true)
  ensures fresh(c)
  ensures [C04] new: len(c.constraints) == 0
func jsval.OneOf() (c)
  ensures [C04] nothing: forall v any {cnt(elems(c.constraints), v, len(c.constraints))} :: cnt(elems(c.constraints), v, len(c.constraints)) == 0
  modifies open
  defines open == store(old(open), box(c), true)
  ensures fresh(c)
  ensures [C04] new: len(c.constraints) == 0
define added(c, x) = len(c.constraints) == old(len(c.constraints)) + 1
  && elems(c.constraints)[old(len(c.constraints))] == x
  && (forall i int {elems(c.constraints)[i]} :: 0 <= i && i < old(len(c.constraints)) ==> elems(c.constraints)[i] == old(elems(c.constraints)[i]))
func (*jsval.comboconstraint).Add(c, x)
  modifies c.constraints
  ensures [C04] add: added(c, x)
func (*jsval.AnyConstraint).Add(c, x) (r)
  requires isopen(c)
  modifies c.constraints
  ensures [C04] add: r == c && added(c, x)
  ensures [C04] meaning: forall v any {anyacc(elems(c.constraints), len(c.constraints), v)} :: anyacc(elems(c.constraints), len(c.constraints), v) == (old(anyacc(elems(c.constraints), len(c.constraints), v)) || accepts(x, v))
func (*jsval.AllConstraint).Add(c, x) (r)
  requires isopen(c)
  modifies c.constraints
  ensures [C04] add: r == c && added(c, x)
  ensures [C04] meaning: forall v any {allacc(elems(c.constraints), len(c.constraints), v)} :: allacc(elems(c.constraints), len(c.constraints), v) == (old(allacc(elems(c.constraints), len(c.constraints), v)) && accepts(x, v))
func (*jsval.OneOfConstraint).Add(c, x) (r)
  requires isopen(c)
  modifies c.constraints
  ensures [C04] add: r == c && added(c, x)
  ensures [C04] meaning: forall v any {cnt(elems(c.constraints), v, len(c.constraints))} :: cnt(elems(c.constraints), v, len(c.constraints)) == old(cnt(elems(c.constraints), v, len(c.constraints))) + (if accepts(x, v) then 1 else 0)
func (*jsval.comboconstraint).Constraints(c) (l)
  modifies nothing
  ensures [C04] get: l == c.constraints
func (*jsval.AnyConstraint).Reduce(c) (r)
  requires isopen(c)
  modifies open
  defines open == store(old(open), box(c), false)
  // its verdict is fixed now: see Validate
  defines forall v any {accepts(box(c), v)} :: accepts(box(c), v) == anyacc(elems(c.constraints), len(c.constraints), v)
  ensures [C04] meaning: len(c.constraints) == 1 ==> (forall v any {accepts(r, v)} :: accepts(r, v) == anyacc(elems(c.constraints), len(c.constraints), v))
  ensures [C04] reduce: r == (if len(c.constraints) == 1 then elems(c.constraints)[0] else box(c))
func (*jsval.AllConstraint).Reduce(c) (r)
  requires isopen(c)
  modifies open
  defines open == store(old(open), box(c), false)
  // its verdict is fixed now: see Validate
  defines forall v any {accepts(box(c), v)} :: accepts(box(c), v) == allacc(elems(c.constraints), len(c.constraints), v)
  ensures [C04] meaning: len(c.constraints) == 1 ==> (forall v any {accepts(r, v)} :: accepts(r, v) == allacc(elems(c.constraints), len(c.constraints), v))
  ensures [C04] reduce: r == (if len(c.constraints) == 1 then elems(c.constraints)[0] else box(c))
func (*jsval.OneOfConstraint).Reduce(c) (r)
  requires isopen(c)
  modifies open
  defines open == store(old(open), box(c), false)
  // its verdict is fixed now: see Validate
  defines forall v any {accepts(box(c), v)} :: accepts(box(c), v) == (cnt(elems(c.constraints), v, len(c.constraints)) == 1)
  ensures [C04] meaning: len(c.constraints) == 1 ==> (forall v any {accepts(r, v)} :: accepts(r, v) == (cnt(elems(c.constraints), v, len(c.constraints)) == 1))
  ensures [C04] reduce: r == (if len(c.constraints) == 1 then elems(c.constraints)[0] else box(c))

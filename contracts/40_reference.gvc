// Who may touch what in a validator that is shared between goroutines: these
// fields only with the lock of the same object held, nothing else is written.
guard jsval.ConstraintMap.refs by lock
guard jsval.ReferenceConstraint.resolved by lock
guard jsval.StructInfoRegistry.registry by lock

uf refok(any, string) bool
uf refval(any, string) any
iface jsval.RefResolver.GetReference(r, s) (c, e)
  ensures (e == nil) == refok(r, s)
  ensures e == nil ==> c == refval(r, s)
  modifies nothing

func jsval.Reference(rs) (c)
  modifies open
  defines open == store(old(open), box(c), true)
  ensures fresh(c)
  ensures [C10] new: c.resolver == rs && c.resolved == nil && c.reference == ""
func (*jsval.ReferenceConstraint).RefersTo(r, s) (x)
  requires isopen(r)
  modifies r.reference
  ensures [C10] set: x == r && r.reference == s
func (*jsval.ReferenceConstraint).Resolved(r) (c, e)
  concurrent
  ensures [C16] unlock: nolocks()
  requires nolocks()
  requires r.resolved == nil ==> r.resolver != nil
  modifies r.resolved
  ensures [C10] cached: old(r.resolved) != nil ==> e == nil && c == old(r.resolved) && r.resolved == old(r.resolved)
  ensures [C10] resolve: old(r.resolved) == nil && refok(r.resolver, r.reference) ==> e == nil && c == refval(r.resolver, r.reference) && r.resolved == c
  ensures [C10] dangling: old(r.resolved) == nil && !refok(r.resolver, r.reference) ==> e != nil && r.resolved == nil
  ensures [C10] unlock: nolocks()
define refknown(r) = r.resolved != nil || refok(r.resolver, r.reference)
define referent(r) = if r.resolved != nil then r.resolved else refval(r.resolver, r.reference)
define refwf(r) = (r.resolved == nil ==> r.resolver != nil) && (refknown(r) ==> referent(r) != nil)
func (*jsval.ReferenceConstraint).Validate(r, v) (e)
  concurrent
  ensures [C16] unlock: nolocks()
  requires nolocks()
  requires refwf(r)
  modifies r.resolved
  ensures [C10] verdict: (e == nil) == old(refknown(r) && accepts(referent(r), v))
  ensures [C10] unlock: nolocks()
func (*jsval.ReferenceConstraint).HasDefault(r) (b)
  concurrent
  ensures [C16] unlock: nolocks()
  requires nolocks()
  requires refwf(r)
  modifies r.resolved
  ensures [C10] hasdef: b == old(refknown(r) && hasdef(referent(r)))
func (*jsval.ReferenceConstraint).DefaultValue(r) (x)
  concurrent
  ensures [C16] unlock: nolocks()
  requires nolocks()
  requires refwf(r)
  modifies r.resolved
  ensures [C10] defval: x == (if old(refknown(r)) then defval(old(referent(r))) else nil)

func (*jsval.ConstraintMap).SetReference(m, name, c)
  concurrent
  ensures [C16] unlock: nolocks()
  requires nolocks()
  modifies m.refs, contents(m.refs)
  ensures [C10] set: m.refs != nil && has(m.refs, name) && m.refs[name] == c
  ensures [C10] others: old(m.refs) != nil ==> m.refs == old(m.refs) && (forall k string {has(m.refs, k)} :: k != name ==> has(m.refs, k) == old(has(m.refs, k)) && (has(m.refs, k) ==> m.refs[k] == old(m.refs[k])))
  ensures [C10] only: old(m.refs) == nil ==> fresh(m.refs) && (forall k string {has(m.refs, k)} :: k != name ==> !has(m.refs, k))
  ensures [C10] unlock: nolocks()
func (*jsval.ConstraintMap).GetReference(m, name) (c, e)
  concurrent
  ensures [C16] unlock: nolocks()
  requires nolocks()
  modifies m.refs
  ensures [C10] found: (e == nil) == old(m.refs != nil && has(m.refs, name))
  ensures [C10] value: e == nil ==> c == old(m.refs[name])
  ensures [C10] same: old(m.refs) != nil ==> m.refs == old(m.refs)
  ensures [C10] empty: old(m.refs) == nil ==> m.refs == nil || fresh(m.refs) && (forall k string {has(m.refs, k)} :: !has(m.refs, k))
  ensures [C10] unlock: nolocks()
func (jsval.ConstraintMap).Len(m) (n)
  modifies nothing
  ensures [C10] len: n == (if m.refs == nil then 0 else len(m.refs))

func jsval.New() (v)
  modifies nothing
  ensures fresh(v)
  ensures [C10] new: v.ConstraintMap != nil && fresh(v.ConstraintMap) && v.ConstraintMap.refs == nil && v.root == nil && v.Name == ""
func (*jsval.JSVal).Validate(v, x) (e)
  concurrent
  ensures [C16] unlock: nolocks()
  requires nolocks()
  requires v.root != nil
  modifies nothing
  ensures [C10] root: (e == nil) == accepts(v.root, x)
func (*jsval.JSVal).SetName(v, s) (r)
  modifies v.Name
  ensures [C10] set: r == v && v.Name == s
func (*jsval.JSVal).SetRoot(v, c) (r)
  modifies v.root
  ensures [C10] set: r == v && v.root == c
func (*jsval.JSVal).Root(v) (c)
  modifies nothing
  ensures [C10] get: c == v.root
func (*jsval.JSVal).SetConstraintMap(v, cm) (r)
  modifies v.ConstraintMap
  ensures [C10] set: r == v && v.ConstraintMap == cm

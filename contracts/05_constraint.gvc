// Verdict of a child constraint. The verdict is treated as a function of the
// constraint and the value (children are not mutated during a validation).
uf accepts(any, any) bool
uf hasdef(any) bool
uf defval(any) any

iface jsval.Constraint.Validate(c, v) (e)
  requires nolocks()
  ensures (e == nil) == accepts(c, v)
  modifies nothing
iface jsval.Constraint.HasDefault(c) (b)
  requires nolocks()
  ensures b == hasdef(c)
  modifies nothing
iface jsval.Constraint.DefaultValue(c) (x)
  requires nolocks()
  ensures x == defval(c)
  modifies nothing

// Constraints that are still being configured. Constructors open a constraint,
// the builder closes it when it hands it on; setters work on open ones only, so
// that the verdict of a finished constraint is fixed.
ghost open [any]bool
define isopen(c) = open[box(c)]

// ---- objects (maps with string keys, structs) as sets of properties
uf rbase(reflect.Value) reflect.Value
axiom rbase_through: forall r reflect.Value {rbase(r), relem(r)} :: rkind(r) == 22 || rkind(r) == 20 ==> rbase(r) == rbase(relem(r))
axiom rbase_self: forall r reflect.Value {rbase(r)} :: rkind(r) != 22 && rkind(r) != 20 ==> rbase(r) == r

uf noshadow(any) bool
uf pfield(reflect.Value, string) reflect.Value
axiom pfield_def: forall r reflect.Value, p string {pfield(r, p)} {fieldval(r, xfield(rtypeof(r), p))} :: pfield(r, p) == fieldval(r, xfield(rtypeof(r), p))
// fields of structs without colliding names
axiom pfield_maybe: forall r reflect.Value, p string {pfield(r, p)} :: noshadow(rtypeof(r)) && xhas(rtypeof(r), p) && rkind(pfield(r, p)) != 0 ==> ismaybe(rtypeof(pfield(r, p))) == xmaybe(rtypeof(r), p)
axiom pfield_disj: forall r reflect.Value, p string, q string {pfield(r, p), pfield(r, q)} :: noshadow(rtypeof(r)) && xhas(rtypeof(r), p) && xhas(rtypeof(r), q) && p != q ==> rdisj(pfield(r, p), pfield(r, q))

uf pv(reflect.Value, string, int) reflect.Value
axiom pv_def: forall r reflect.Value, p string, n int {pv(r, p, n)} :: pv(r, p, n) == (if rkind(r) == 21 && tkind(tkey(rtypeof(r))) == 24 then rmapval(r, p, n) else if rkind(r) == 25 && xhas(rtypeof(r), p) then pfield(r, p) else zero(reflect.Value))
uf pex(reflect.Value, string, int) bool
axiom pex_def: forall r reflect.Value, p string, n int {pex(r, p, n)} :: pex(r, p, n) == (rkind(pv(r, p, n)) != 0 && (ismaybe(rtypeof(pv(r, p, n))) ==> rvalid(pv(r, p, n), n)))
uf pvalue(reflect.Value, string, int) any
axiom pvalue_def: forall r reflect.Value, p string, n int {pvalue(r, p, n)} :: pvalue(r, p, n) == (if ismaybe(rtypeof(pv(r, p, n))) then rinner(pv(r, p, n), n) else rifv(pv(r, p, n), n))

// a is a list of m different names: the names of the present properties
uf enum([int]string, int, reflect.Value, int) bool
axiom enum_def: forall a [int]string, m int, r reflect.Value, n int {enum(a, m, r, n)} :: enum(a, m, r, n) == (
     (forall i int {a[i]} :: 0 <= i && i < m ==> pex(r, a[i], n))
  && (forall p string {pex(r, p, n)} :: pex(r, p, n) ==> (exists i int {a[i]} :: 0 <= i && i < m && a[i] == p))
  && (forall i int, j int {a[i], a[j]} :: 0 <= i && i < j && j < m ==> a[i] != a[j]))
uf pcount(reflect.Value, int) int
axiom pcount_def: forall a [int]string, m int, r reflect.Value, n int {enum(a, m, r, n)} :: enum(a, m, r, n) && 0 <= m ==> m == pcount(r, n)

define objectish(r) = rkind(r) == 25 || rkind(r) == 21 && tkind(tkey(rtypeof(r))) == 24
// what the contracts assume of a struct: no methods that take over property
// access, no colliding field names; of a map: its elements are not Maybe values
uf rtid(any) int
axiom rifv_struct: forall r reflect.Value, n int {rifv(r, n)} :: rkind(r) == 25 ==> typeof(rifv(r, n)) == rtid(rtypeof(r))
define objwf(r) = (rkind(r) == 25 ==> noshadow(rtypeof(r)) && !implements(rifv(r, over), "GetPropValue") && !implements(rifv(r, over), "GetPropNames") && rkind(rmeth(r, "SetPropValue")) == 0)
  && (rkind(r) == 21 ==> !ismaybe(telem(rtypeof(r))) && tkind(tkey(rtypeof(r))) == 24)
iface jsval.getPropValuer.GetPropValue(x, p) (v, e)
  modifies nothing
iface jsval.getPropNameser.GetPropNames(x) (v, e)
  modifies nothing
define reg() = structInfoRegistry

func (*jsval.ObjectConstraint).getProp(o, rv, p) (r)
  internal
  requires nolocks()
  requires regok(reg())
  requires rkind(rv) == 25 ==> objwf(rv)
  modifies contents(structInfoRegistry.registry)
  ensures [C11] prop: r == pv(rv, p, over)
  ensures regok(reg()) && nolocks()
func (*jsval.ObjectConstraint).getPropNames(o, rv) (l, e)
  internal
  requires nolocks()
  requires regok(reg())
  requires objwf(rv)
  requires rkind(rv) != 22 && rkind(rv) != 20
  modifies contents(structInfoRegistry.registry)
  ensures [C06] kind: rkind(rv) != 21 && rkind(rv) != 25 ==> e != nil
  ensures [C06, C11] names: objectish(rv) ==> e == nil && enum(elems(l), len(l), rv, over)
  ensures regok(reg()) && nolocks()
  inv forall j int {elems($k:[]string)[j]} {elems($v:[]reflect.Value)[j]} :: 0 <= j && j < $i ==> elems($k:[]string)[j] == rstring(elems($v:[]reflect.Value)[j])
define ctarget(t) = if t == maybefloatT then floatT else if t == maybeintT then intT else t
define coerced(v, t) = if v == nil then rzero(t) else if rconvok(rtypeof(rvof(v)), ctarget(t)) then rconvert(rvof(v), ctarget(t)) else rvof(v)
axiom typevars: tkind(floatT) == 14 && tkind(intT) == 6 && floatT != nil && intT != nil && tkind(maybefloatT) == 25 && tkind(maybeintT) == 25
func jsval.coerceValue(v, t) (r)
  internal
  requires t != nil
  modifies nothing
  ensures [C08] coerced: r == coerced(v, t)
func jsval.maybeValue(v) (r)
  internal
  modifies nothing
  ensures [C06, C11] inner: if rkind(v) != 0 && ismaybe(rtypeof(v)) then r == rres(rmeth(v, "Value"), over) else r == v

define ismset(f) = timpl(rtypeof(f), maybeif) || rcanaddr(f) && timpl(tptrto(rtypeof(f)), maybeif)
uf setok(reflect.Value, string, any) bool
axiom setok_def: forall r reflect.Value, p string, v any {setok(r, p, v)} :: setok(r, p, v) == (
  if rkind(r) == 21 then !risnil(r) && tkind(tkey(rtypeof(r))) == 24 && tassign(rtypeof(coerced(v, telem(rtypeof(r)))), telem(rtypeof(r)))
  else rkind(r) == 25 && xhas(rtypeof(r), p) && rkind(pfield(r, p)) != 0 && (
    if ismset(pfield(r, p)) then msetok(rtypeof(pfield(r, p)), coerced(v, rtypeof(pfield(r, p))))
    else rcanset(pfield(r, p)) && tassign(rtypeof(coerced(v, rtypeof(pfield(r, p)))), rtypeof(pfield(r, p)))))
func (*jsval.ObjectConstraint).setProp(o, rv, p, val) (e)
  internal
  requires nolocks()
  requires regok(reg())
  requires objwf(rv)
  requires rkind(rv) != 22 && rkind(rv) != 20
  modifies contents(structInfoRegistry.registry), over
  ensures [C08] settable: (e == nil) == setok(rv, p, val)
  ensures [C08] refused: e != nil ==> over == old(over)
  ensures [C08] set: e == nil && (rkind(rv) == 21 || ismset(pfield(rv, p)) || !ismaybe(rtypeof(pfield(rv, p)))) ==> pex(rv, p, over)
  ensures [C08] mapvalue: e == nil && rkind(rv) == 21 && tkind(telem(rtypeof(rv))) == 20 ==> pvalue(rv, p, over) == val
  ensures [C08] field: e == nil && rkind(rv) == 25 && ismset(pfield(rv, p)) ==> pvalue(rv, p, over) == mset(rtypeof(pfield(rv, p)), coerced(val, rtypeof(pfield(rv, p))))
  ensures [C08] others: forall q string {pex(rv, q, over)} {pvalue(rv, q, over)} :: q != p ==> pex(rv, q, over) == pex(rv, q, old(over)) && (pex(rv, q, over) ==> pvalue(rv, q, over) == pvalue(rv, q, old(over)))
  ensures regok(reg()) && nolocks()

// ---- configuration
define kept(m, k) = forall q string {has(m, q)} :: q != k ==> has(m, q) == old(has(m, q)) && (has(m, q) ==> m[q] == old(m[q]))
define nokeys(m) = m != nil && (forall q string {has(m, q)} :: !has(m, q))
define nopats(m) = m != nil && (forall q *regexp.Regexp {has(m, q)} :: !has(m, q))
define objnew(o) = o.additionalProperties == nil && o.minProperties == -1 && o.maxProperties == -1 && nokeys(o.properties) && nopats(o.patternProperties) && nokeys(o.required) && nokeys(o.propdeps) && nokeys(o.schemadeps) && !o.initialized
func jsval.Object() (o)
  modifies open
  defines open == store(old(open), box(o), true)
  ensures fresh(o)
  ensures [C06] new: o.additionalProperties == nil && o.minProperties == -1 && o.maxProperties == -1
  ensures [C06] newprops: nokeys(o.properties)
  ensures [C06] newpats: nopats(o.patternProperties)
  ensures [C06] newreq: nokeys(o.required)
  ensures [C07] newpdeps: nokeys(o.propdeps)
  ensures [C07] newsdeps: nokeys(o.schemadeps)
  ensures [C08] nodefault: !o.initialized
  ensures o.properties != o.schemadeps
  ensures fresh(o.properties) && fresh(o.patternProperties) && fresh(o.required) && fresh(o.propdeps) && fresh(o.schemadeps)
func (*jsval.ObjectConstraint).Required(o, l) (r)
  requires isopen(o)
  requires nolocks()
  requires o.required != nil
  modifies contents(o.required)
  ensures [C06] all: r == o && (forall i int {elems(l)[i]} :: 0 <= i && i < len(l) ==> has(o.required, elems(l)[i]))
  ensures [C06] others: forall q string {has(o.required, q)} :: has(o.required, q) == (old(has(o.required, q)) || (exists i int {elems(l)[i]} :: 0 <= i && i < len(l) && elems(l)[i] == q))
  ensures nolocks()
  inv forall i int {elems(l)[i]} :: 0 <= i && i < $i ==> has(o.required, elems(l)[i])
  inv forall q string {has(o.required, q)} :: has(o.required, q) == (old(has(o.required, q)) || (exists i int {elems(l)[i]} :: 0 <= i && i < $i && elems(l)[i] == q))
func (*jsval.ObjectConstraint).IsPropRequired(o, s) (b)
  requires nolocks()
  modifies nothing
  ensures [C06] required: b == (o.required != nil && has(o.required, s))
  ensures nolocks()
func (*jsval.ObjectConstraint).MinProperties(o, n) (r)
  requires isopen(o)
  modifies o.minProperties
  ensures [C06] set: r == o && o.minProperties == n
func (*jsval.ObjectConstraint).MaxProperties(o, n) (r)
  requires isopen(o)
  modifies o.maxProperties
  ensures [C06] set: r == o && o.maxProperties == n
func (*jsval.ObjectConstraint).AdditionalProperties(o, c) (r)
  requires isopen(o)
  modifies o.additionalProperties
  ensures [C06] set: r == o && o.additionalProperties == c
func (*jsval.ObjectConstraint).AddProp(o, p, c) (r)
  requires isopen(o)
  requires nolocks()
  requires o.properties != nil
  modifies contents(o.properties)
  ensures [C06] added: r == o && has(o.properties, p) && o.properties[p] == c
  ensures [C06] others: kept(o.properties, p)
  ensures nolocks()
func (*jsval.ObjectConstraint).PatternProperties(o, k, c) (r)
  requires isopen(o)
  requires nolocks()
  requires o.patternProperties != nil
  modifies contents(o.patternProperties)
  ensures [C06] added: r == o && has(o.patternProperties, k) && o.patternProperties[k] == c
  ensures [C06] others: forall q *regexp.Regexp {has(o.patternProperties, q)} :: q != k ==> has(o.patternProperties, q) == old(has(o.patternProperties, q)) && (has(o.patternProperties, q) ==> o.patternProperties[q] == old(o.patternProperties[q]))
  ensures nolocks()
func (*jsval.ObjectConstraint).PatternPropertiesString(o, s, c) (r)
  requires isopen(o)
  requires nolocks()
  requires o.patternProperties != nil && rxvalid(s)
  // what memory refers to is allocated
  hyp forall k *regexp.Regexp {has(o.patternProperties, k)} :: has(o.patternProperties, k) ==> allocated(k)
  modifies contents(o.patternProperties)
  ensures [C06] added: r == o && (exists k *regexp.Regexp {has(o.patternProperties, k)} :: has(o.patternProperties, k) && rxsrc(k) == s && o.patternProperties[k] == c && !old(has(o.patternProperties, k)))
  ensures [C06] keep: forall q *regexp.Regexp {has(o.patternProperties, q)} {old(has(o.patternProperties, q))} :: old(has(o.patternProperties, q)) ==> has(o.patternProperties, q) && o.patternProperties[q] == old(o.patternProperties[q])
  ensures [C06] others: forall q *regexp.Regexp {has(o.patternProperties, q)} :: has(o.patternProperties, q) && !old(has(o.patternProperties, q)) ==> rxsrc(q) == s && o.patternProperties[q] == c
  ensures nolocks()
define npdeps(o, p) = if o.propdeps != nil && has(o.propdeps, p) then len(o.propdeps[p]) else 0
func (*jsval.ObjectConstraint).PropDependency(o, p, l) (r)
  requires isopen(o)
  requires nolocks()
  requires o.propdeps != nil
  modifies contents(o.propdeps)
  ensures [C07] count: r == o && npdeps(o, p) == old(npdeps(o, p)) + len(l)
  ensures [C07] keep: forall i int {elems(o.propdeps[p])[i]} :: 0 <= i && i < old(npdeps(o, p)) ==> elems(o.propdeps[p])[i] == old(elems(o.propdeps[p])[i])
  ensures [C07] add: forall i int {elems(l)[i]} :: 0 <= i && i < len(l) ==> elems(o.propdeps[p])[old(npdeps(o, p)) + i] == elems(l)[i]
  ensures [C07] addat: forall i int {elems(o.propdeps[p])[i]} :: old(npdeps(o, p)) <= i && i < old(npdeps(o, p)) + len(l) ==> elems(o.propdeps[p])[i] == elems(l)[i - old(npdeps(o, p))]
  ensures [C07] others: kept(o.propdeps, p)
  ensures allocated(o.propdeps[p])
  ensures nolocks()
func (*jsval.ObjectConstraint).SchemaDependency(o, p, c) (r)
  requires isopen(o)
  requires nolocks()
  requires o.schemadeps != nil
  modifies contents(o.schemadeps)
  ensures [C07] added: r == o && has(o.schemadeps, p) && o.schemadeps[p] == c
  ensures [C07] others: kept(o.schemadeps, p)
  ensures nolocks()
define pdeps(o, p) = if o.propdeps != nil && has(o.propdeps, p) then o.propdeps[p] else nil
define sdep(o, p) = if o.schemadeps != nil && has(o.schemadeps, p) then o.schemadeps[p] else nil
func (*jsval.ObjectConstraint).GetPropDependencies(o, p) (l)
  requires nolocks()
  modifies nothing
  ensures [C07] count: len(l) == npdeps(o, p)
  ensures [C07] deps: len(l) > 0 ==> l == o.propdeps[p]
  ensures nolocks()
func (*jsval.ObjectConstraint).GetSchemaDependency(o, p) (c)
  requires nolocks()
  modifies nothing
  ensures [C07] dep: c == sdep(o, p)
  ensures nolocks()

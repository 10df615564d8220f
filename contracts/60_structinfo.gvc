// ---- struct types seen through reflection
uf tkind(any) int
uf telem(any) any
uf tkey(any) any
uf tnumfield(any) int
uf tfield(any, int) reflect.StructField
uf timpl(any, any) bool
uf tptrto(any) any
uf tagget(reflect.StructTag, string) string
axiom tnumfield_pos: forall t any {tnumfield(t)} :: 0 <= tnumfield(t)
axiom telem_nonnil: forall t any {telem(t)} :: tkind(t) == 22 ==> telem(t) != nil
axiom tfield_type: forall t any, i int {tfield(t, i)} :: 0 <= i && i < tnumfield(t) ==> tfield(t, i).Type != nil
axiom tptr_nonnil: forall t any {tptrto(t)} :: tptrto(t) != nil
iface reflect.Type.Kind(t) (k)
  returns tkind(t)
iface reflect.Type.Elem(t) (x)
  requires tkind(t) == 22 || tkind(t) == 17 || tkind(t) == 18 || tkind(t) == 21 || tkind(t) == 23
  returns telem(t)
iface reflect.Type.Key(t) (x)
  requires tkind(t) == 21
  returns tkey(t)
iface reflect.Type.NumField(t) (n)
  requires tkind(t) == 25
  returns tnumfield(t)
iface reflect.Type.Field(t, i) (f)
  requires tkind(t) == 25
  requires 0 <= i && i < tnumfield(t)
  returns tfield(t, i)
iface reflect.Type.Implements(t, u) (b)
  requires u != nil && tkind(u) == 20
  returns timpl(t, u)
extern reflect.PtrTo(t) (x)
  requires t != nil
  returns tptrto(t)
extern reflect.PointerTo(t) (x)
  requires t != nil
  returns tptrto(t)
extern (reflect.StructTag).Get(tag, k) (s)
  returns tagget(tag, k)

// ---- which property names a struct type has
uf maybetype() any
define ismaybe(t) = timpl(t, maybeif) || timpl(tptrto(t), maybeif)
define ftarget(f) = if tkind(f.Type) == 22 then telem(f.Type) else f.Type
define fembedded(f) = f.Anonymous && tkind(ftarget(f)) == 25
define ftag(f) = tagget(f.Tag, "json")
define fown(f) = !fembedded(f) && f.PkgPath == "" && ftag(f) != "-"
// the name before the first comma of a tag
uf tagname(string) string
axiom tagname_def: forall s string, n int {tagname(s), substr(s, 0, n)} :: 0 <= n && n <= len(s) && (forall i int {s[i]} :: 0 <= i && i < n ==> s[i] != 44) && (n == len(s) || s[n] == 44) ==> tagname(s) == substr(s, 0, n)
axiom tagname_all: forall s string {tagname(s)} :: (forall i int {s[i]} :: 0 <= i && i < len(s) ==> s[i] != 44) ==> tagname(s) == s
// the parts of a string between separators; of the first one at a comma more is known
extern strings.Split(s, sep) (r)
  requires sep != ""
  ensures len(r) >= 1
  ensures sep == "," ==> elems(r)[0] == tagname(s)
  ensures fresh(r)
  modifies nothing
extern strings.SplitN(s, sep, n) (r)
  requires sep != "" && n >= 1
  ensures len(r) >= 1
  ensures sep == "," && n >= 2 ==> elems(r)[0] == tagname(s)
  ensures fresh(r)
  modifies nothing
extern strings.Cut(s, sep) (before, after, found)
  ensures sep == "," ==> before == tagname(s)
  modifies nothing
define fname(f) = if ftag(f) == "" || ftag(f)[0] == 44 then f.Name else tagname(ftag(f))
uf xhas(any, string) bool
uf xfield(any, string) string
uf xmaybe(any, string) bool
uf xhasN(any, int, string) bool
uf xfieldN(any, int, string) string
uf xmaybeN(any, int, string) bool
axiom xhas0: forall t any, p string {xhasN(t, 0, p)} :: !xhasN(t, 0, p)
axiom xhasS: forall t any, n int, p string {xhasN(t, n+1, p)} :: 0 <= n && n < tnumfield(t) ==>
  xhasN(t, n+1, p) == (xhasN(t, n, p) || (if fembedded(tfield(t, n)) then xhas(ftarget(tfield(t, n)), p) else fown(tfield(t, n)) && p == fname(tfield(t, n))))
axiom xinfoS: forall t any, n int, p string {xfieldN(t, n+1, p)} :: 0 <= n && n < tnumfield(t) ==>
  xfieldN(t, n+1, p) == (if fembedded(tfield(t, n)) then (if xhas(ftarget(tfield(t, n)), p) then xfield(ftarget(tfield(t, n)), p) else xfieldN(t, n, p))
     else if fown(tfield(t, n)) && p == fname(tfield(t, n)) then tfield(t, n).Name else xfieldN(t, n, p))
axiom xmaybeS: forall t any, n int, p string {xmaybeN(t, n+1, p)} :: 0 <= n && n < tnumfield(t) ==>
  xmaybeN(t, n+1, p) == (if fembedded(tfield(t, n)) then (if xhas(ftarget(tfield(t, n)), p) then xmaybe(ftarget(tfield(t, n)), p) else xmaybeN(t, n, p))
     else if fown(tfield(t, n)) && p == fname(tfield(t, n)) then ismaybe(tfield(t, n).Type) else xmaybeN(t, n, p))
axiom xhas_def: forall t any, p string {xhas(t, p)} :: xhas(t, p) == xhasN(t, tnumfield(t), p)
axiom xfield_def: forall t any, p string {xfield(t, p)} :: xfield(t, p) == xfieldN(t, tnumfield(t), p)
axiom xmaybe_def: forall t any, p string {xmaybe(t, p)} :: xmaybe(t, p) == xmaybeN(t, tnumfield(t), p)
axiom maybeif_def: maybeif != nil && tkind(maybeif) == 20

define propsof(m, t) = forall p string {has(m, p)} :: has(m, p) == xhas(t, p) && (has(m, p) ==> m[p].FieldName == xfield(t, p) && m[p].IsMaybe == xmaybe(t, p))

func jsval.extract(t) (m)
  internal
  requires t != nil && tkind(t) == 25
  modifies nothing
  ensures fresh(m)
  ensures [C11] names: propsof(m, t)
  inv forall p string {has($m:map[string]PropInfo, p)} :: has($m:map[string]PropInfo, p) == xhasN(t, $i, p) && (has($m:map[string]PropInfo, p) ==> $m:map[string]PropInfo[p].FieldName == xfieldN(t, $i, p) && $m:map[string]PropInfo[p].IsMaybe == xmaybeN(t, $i, p))
  inv forall p string {has($m:map[string]PropInfo, p)} :: has($m:map[string]PropInfo, p) == ($visited[p] || xhasN(t, $$i, p)) && (has($m:map[string]PropInfo, p) ==> $m:map[string]PropInfo[p].FieldName == (if $visited[p] then xfield(ftarget(tfield(t, $$i)), p) else xfieldN(t, $$i, p)) && $m:map[string]PropInfo[p].IsMaybe == (if $visited[p] then xmaybe(ftarget(tfield(t, $$i)), p) else xmaybeN(t, $$i, p)))
  inv forall i int {ftag(tfield(t, $$i))[i]} :: 0 <= i && i < $i ==> ftag(tfield(t, $$i))[i] != 44
  inv $f:int == (if $i == 0 then 0 else $i - 1)
  inv 0 <= $i && $i <= tnumfield(t)

// ---- struct values
uf rvalid(reflect.Value, int) bool
uf rinner(reflect.Value, int) any
uf rmeth(reflect.Value, string) reflect.Value
uf rmname(reflect.Value) string
uf rmrecv(reflect.Value) reflect.Value
uf rres(reflect.Value, int) reflect.Value
uf tfbnok(any, string) bool
uf tfbn(any, string) reflect.StructField
uf rfbiok(reflect.Value, []int) bool
uf rfbi(reflect.Value, []int) reflect.Value
iface reflect.Type.FieldByName(t, name) (f, ok)
  requires tkind(t) == 25
  ensures ok == tfbnok(t, name)
  ensures ok ==> f == tfbn(t, name)
  modifies nothing
extern (reflect.Value).FieldByIndexErr(r, idx) (x, e)
  requires rkind(r) == 25
  ensures (e == nil) == rfbiok(r, idx)
  ensures e == nil ==> x == rfbi(r, idx)
  modifies nothing
axiom rfbi_kind: forall r reflect.Value, x []int {rfbi(r, x)} :: rfbiok(r, x) ==> rkind(rfbi(r, x)) != 0
axiom rtype_kind: forall r reflect.Value {rtypeof(r)} :: rkind(r) != 0 ==> tkind(rtypeof(r)) == rkind(r)
define ridx(rv, name) = tfbn(rtypeof(rv), name).Index
uf fieldval(reflect.Value, string) reflect.Value
axiom fieldval_def: forall r reflect.Value, s string {fieldval(r, s)} :: fieldval(r, s) == (if tfbnok(rtypeof(r), s) && rfbiok(r, ridx(r, s)) then rfbi(r, ridx(r, s)) else zero(reflect.Value))
extern (reflect.Value).MethodByName(r, name) (m)
  requires rkind(r) != 0
  returns rmeth(r, name)
axiom rmeth_name: forall r reflect.Value, s string {rmeth(r, s)} :: rmname(rmeth(r, s)) == s && rmrecv(rmeth(r, s)) == r
// a type that is a Maybe (itself or through its address) has Valid and Value
axiom maybe_valid: forall r reflect.Value {rmeth(r, "Valid")} :: rkind(r) != 0 && ismaybe(rtypeof(r)) ==> rkind(rmeth(r, "Valid")) == 19
axiom maybe_value: forall r reflect.Value {rmeth(r, "Value")} :: rkind(r) != 0 && ismaybe(rtypeof(r)) ==> rkind(rmeth(r, "Value")) == 19
axiom maybe_valid2: forall r reflect.Value, n int {rres(rmeth(r, "Valid"), n)} :: rkind(rres(rmeth(r, "Valid"), n)) == 1 && rbool(rres(rmeth(r, "Valid"), n)) == rvalid(r, n)
axiom maybe_value2: forall r reflect.Value, n int {rres(rmeth(r, "Value"), n)} :: rkind(rres(rmeth(r, "Value"), n)) != 0 && rifv(rres(rmeth(r, "Value"), n), n) == rinner(r, n)
extern (reflect.Value).Call(m, in) (out)
  requires rkind(m) == 19
  requires len(in) == 0 ==> rmname(m) == "Valid" || rmname(m) == "Value"
  requires len(in) == 1 ==> rmname(m) == "Set" && rkind(elems(in)[0]) != 0
  requires len(in) <= 1
  modifies over
  ensures len(out) == 1
  ensures len(in) == 0 ==> over == old(over) && elems(out)[0] == rres(m, over)
  ensures len(in) == 1 ==> rkind(elems(out)[0]) == 20 && risnil(elems(out)[0]) == msetok(rtypeof(settarget(m)), elems(in)[0])
  ensures len(in) == 1 && !risnil(elems(out)[0]) ==> over == old(over) && implements(rifv(elems(out)[0], over), "Error")
  ensures len(in) == 1 && risnil(elems(out)[0]) ==> rvalid(settarget(m), over) && rinner(settarget(m), over) == mset(rtypeof(settarget(m)), elems(in)[0])
  ensures len(in) == 1 ==> keeps(settarget(m), old(over), over)

uf msetok(any, reflect.Value) bool
uf mset(any, reflect.Value) any
uf settarget(reflect.Value) reflect.Value
uf raddr(reflect.Value) reflect.Value
uf rcanaddr(reflect.Value) bool
uf rcanset(reflect.Value) bool
uf rdisj(reflect.Value, reflect.Value) bool
// writing to f between the versions m and n leaves everything disjoint from f alone
define keeps(f, m, n) = forall g reflect.Value {rifv(g, n)} {rvalid(g, n)} {rinner(g, n)} :: rdisj(g, f) ==> rifv(g, n) == rifv(g, m) && rvalid(g, n) == rvalid(g, m) && rinner(g, n) == rinner(g, m)
axiom settarget_addr: forall f reflect.Value {rmeth(raddr(f), "Set")} :: settarget(rmeth(raddr(f), "Set")) == f
axiom settarget_field: forall r reflect.Value, i []int {rmeth(rfbi(r, i), "Set")} :: settarget(rmeth(rfbi(r, i), "Set")) == rfbi(r, i)
axiom maybe_set: forall r reflect.Value {rmeth(r, "Set")} :: rkind(r) != 0 && timpl(rtypeof(r), maybeif) ==> rkind(rmeth(r, "Set")) == 19
extern (reflect.Value).CanAddr(r) (b)
  returns rcanaddr(r)
extern (reflect.Value).CanSet(r) (b)
  returns rcanset(r)
extern (reflect.Value).Addr(r) (p)
  requires rcanaddr(r)
  returns raddr(r)
axiom raddr_kind: forall r reflect.Value {raddr(r)} :: rcanaddr(r) ==> rkind(raddr(r)) == 22 && rtypeof(raddr(r)) == tptrto(rtypeof(r))
uf tassign(any, any) bool
uf rconvok(any, any) bool
uf rconvert(reflect.Value, any) reflect.Value
uf rzero(any) reflect.Value
axiom tkind_pos: forall t any {tkind(t)} :: t != nil ==> 1 <= tkind(t) && tkind(t) <= 26
iface reflect.Type.AssignableTo(t, u) (b)
  requires u != nil
  returns tassign(t, u)
iface reflect.Type.ConvertibleTo(t, u) (b)
  requires u != nil
  returns rconvok(t, u)
extern reflect.Zero(t) (r)
  requires t != nil
  returns rzero(t)
axiom rzero_type: forall t any {rzero(t)} :: t != nil ==> rkind(rzero(t)) == tkind(t) && rtypeof(rzero(t)) == t
extern (reflect.Value).Convert(r, t) (x)
  requires rkind(r) != 0 && t != nil && rconvok(rtypeof(r), t)
  returns rconvert(r, t)
axiom rconvert_type: forall r reflect.Value, t any {rconvert(r, t)} :: t != nil ==> rkind(rconvert(r, t)) == tkind(t) && rtypeof(rconvert(r, t)) == t
axiom rconvert_string: forall r reflect.Value, t any {rconvert(r, t)} :: rkind(r) == 24 && tkind(t) == 24 ==> rstring(rconvert(r, t)) == rstring(r)
axiom rconvok_string: forall s string, t any {rconvok(rtypeof(rvof(box(s, string))), t)} :: tkind(t) == 24 ==> rconvok(rtypeof(rvof(box(s, string))), t)
// an interface value holds the value it was made from
axiom rconvert_iface: forall v any, t any, n int {rifv(rconvert(rvof(v), t), n)} :: tkind(t) == 20 ==> rifv(rconvert(rvof(v), t), n) == v
axiom rzero_iface: forall t any, n int {rifv(rzero(t), n)} :: tkind(t) == 20 ==> rifv(rzero(t), n) == nil
axiom rconv_any: forall t any, u any {rconvok(t, u)} :: t != nil && u != nil && tassign(t, u) ==> rconvok(t, u)
extern (reflect.Value).Set(f, v)
  requires rcanset(f) && rkind(v) != 0 && tassign(rtypeof(v), rtypeof(f))
  modifies over
  ensures rifv(f, over) == rifv(v, old(over))
  ensures keeps(f, old(over), over)

// ---- maps with string keys
uf rmapval(reflect.Value, string, int) reflect.Value
uf rcontents(reflect.Value) any
axiom rmapval_copy: forall r reflect.Value, s string, n int, m int {rifv(rmapval(r, s, n), m)} :: rifv(rmapval(r, s, n), m) == rcontents(rmapval(r, s, n))
axiom rmapval_type: forall r reflect.Value, s string, n int {rmapval(r, s, n)} :: rkind(r) == 21 && rkind(rmapval(r, s, n)) != 0 ==> rtypeof(rmapval(r, s, n)) == telem(rtypeof(r))
axiom map_types: forall t any {tkey(t)} {telem(t)} :: tkind(t) == 21 ==> tkey(t) != nil && telem(t) != nil
extern (reflect.Value).MapKeys(r) (l)
  requires rkind(r) == 21
  modifies nothing
  ensures forall i int {elems(l)[i]} :: 0 <= i && i < len(l) ==> rkind(elems(l)[i]) == tkind(tkey(rtypeof(r)))
  ensures tkind(tkey(rtypeof(r))) == 24 ==> (forall i int {elems(l)[i]} :: 0 <= i && i < len(l) ==> rkind(rmapval(r, rstring(elems(l)[i]), over)) != 0)
  ensures tkind(tkey(rtypeof(r))) == 24 ==> (forall s string {rmapval(r, s, over)} :: rkind(rmapval(r, s, over)) != 0 ==> (exists i int {elems(l)[i]} :: 0 <= i && i < len(l) && rstring(elems(l)[i]) == s))
  ensures tkind(tkey(rtypeof(r))) == 24 ==> (forall i int, j int {elems(l)[i], elems(l)[j]} :: 0 <= i && i < j && j < len(l) ==> rstring(elems(l)[i]) != rstring(elems(l)[j]))
extern (reflect.Value).MapIndex(r, k) (x)
  requires rkind(r) == 21 && tkind(tkey(rtypeof(r))) == 24 && rkind(k) == 24 && rtypeof(k) == tkey(rtypeof(r))
  returns rmapval(r, rstring(k), over)
extern (reflect.Value).SetMapIndex(r, k, v)
  requires rkind(r) == 21 && !risnil(r) && tkind(tkey(rtypeof(r))) == 24 && rkind(k) == 24 && rtypeof(k) == tkey(rtypeof(r))
  requires rkind(v) != 0 && tassign(rtypeof(v), telem(rtypeof(r)))
  modifies over
  ensures rkind(rmapval(r, rstring(k), over)) != 0 && rcontents(rmapval(r, rstring(k), over)) == rifv(v, old(over))
  ensures forall s string {rmapval(r, s, over)} :: s != rstring(k) ==> rmapval(r, s, over) == rmapval(r, s, old(over))

func jsval.fieldByName(rv, name) (r)
  internal
  requires rkind(rv) == 25
  modifies nothing
  ensures [C11] field: r == fieldval(rv, name)
func (*jsval.StructInfo).FieldName(si, p) (f, ok)
  concurrent
  ensures [C16] unlock: nolocks()
  requires nolocks()
  modifies nothing
  ensures [C11] known: ok == (si.props != nil && has(si.props, p))
  ensures [C11] field: ok ==> f == si.props[p].FieldName
  ensures nolocks()
define inprops(m, rv, p, n) = has(m, p) && rkind(fieldval(rv, m[p].FieldName)) != 0 && (m[p].IsMaybe ==> rvalid(fieldval(rv, m[p].FieldName), n))
func (*jsval.StructInfo).PropNames(si, rv) (l)
  concurrent
  ensures [C16] unlock: nolocks()
  requires nolocks()
  requires rkind(rv) == 25
  requires forall p string {has(si.props, p)} :: has(si.props, p) && si.props[p].IsMaybe && rkind(fieldval(rv, si.props[p].FieldName)) != 0 ==> ismaybe(rtypeof(fieldval(rv, si.props[p].FieldName)))
  modifies nothing
  ensures [C11] listed: forall p string {has(si.props, p)} :: inprops(si.props, rv, p, over) ==> (exists i int {elems(l)[i]} :: 0 <= i && i < len(l) && elems(l)[i] == p)
  ensures [C11] only: forall i int {elems(l)[i]} :: 0 <= i && i < len(l) ==> inprops(si.props, rv, elems(l)[i], over)
  ensures [C11] once: forall i int, j int {elems(l)[i], elems(l)[j]} :: 0 <= i && i < j && j < len(l) ==> elems(l)[i] != elems(l)[j]
  ensures nolocks()
  inv forall p string {$visited[p]} :: $visited[p] && inprops(si.props, rv, p, over) ==> (exists i int {elems($l:[]string)[i]} :: 0 <= i && i < len($l:[]string) && elems($l:[]string)[i] == p)
  inv forall i int {elems($l:[]string)[i]} :: 0 <= i && i < len($l:[]string) ==> $visited[elems($l:[]string)[i]] && inprops(si.props, rv, elems($l:[]string)[i], over)
  inv forall i int, j int {elems($l:[]string)[i], elems($l:[]string)[j]} :: 0 <= i && i < j && j < len($l:[]string) ==> elems($l:[]string)[i] != elems($l:[]string)[j]

// ---- the registry caches, per struct type, exactly that type's properties
define regok(r) = r.registry != nil && (forall t any {has(r.registry, t)} :: has(r.registry, t) ==> propsof(r.registry[t].props, t))
func (*jsval.StructInfoRegistry).Lookup(r, t) (si, ok)
  concurrent
  ensures [C16] unlock: nolocks()
  requires nolocks()
  requires t != nil && tkind(t) == 25
  requires regok(r)
  modifies nothing
  ensures [C11] cached: ok ==> propsof(si.props, t)
  ensures nolocks()
func (*jsval.StructInfoRegistry).Register(r, t) (si)
  concurrent
  ensures [C16] unlock: nolocks()
  requires nolocks()
  requires t != nil && tkind(t) == 25
  requires regok(r)
  modifies contents(r.registry)
  ensures [C11] registered: propsof(si.props, t)
  ensures [C11] consistent: regok(r)
  ensures nolocks()

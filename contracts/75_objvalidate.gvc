// ---- the verdict of an object constraint
define obase(v) = rbase(rvof(v))
define declared(o, p) = o.properties != nil && has(o.properties, p)
define isreq(o, p) = o.required != nil && has(o.required, p)
define cntok(o, n) = (o.minProperties > -1 ==> n >= o.minProperties) && (o.maxProperties > -1 ==> n <= o.maxProperties)
define reqok(o, r, n) = forall p string {has(o.required, p)} :: isreq(o, p) ==> pex(r, p, n)
define declok(o, r, n) = forall p string {has(o.properties, p)} :: declared(o, p) && pex(r, p, n) ==> accepts(o.properties[p], pvalue(r, p, n))
define dfltok(o, r, n) = forall p string {has(o.properties, p)} :: declared(o, p) && !pex(r, p, n) && hasdef(o.properties[p]) ==> setok(r, p, defval(o.properties[p]))
define ispat(o, x) = o.patternProperties != nil && has(o.patternProperties, x)
define patok(o, r, n) = forall p string, x *regexp.Regexp {pex(r, p, n), has(o.patternProperties, x)} :: pex(r, p, n) && !declared(o, p) && ispat(o, x) && rxmatch(x, p) ==> accepts(o.patternProperties[x], pvalue(r, p, n))
define matched(o, p) = exists x *regexp.Regexp {rxmatch(x, p)} :: ispat(o, x) && rxmatch(x, p)
define addlok(o, r, n) = forall p string {pex(r, p, n)} :: pex(r, p, n) && !declared(o, p) && !matched(o, p) ==> o.additionalProperties != nil && accepts(o.additionalProperties, pvalue(r, p, n))
define pdepok(o, r, n) = forall p string, i int {pex(r, p, n), elems(o.propdeps[p])[i]} :: pex(r, p, n) && 0 <= i && i < npdeps(o, p) ==> pex(r, elems(o.propdeps[p])[i], n)
define sdepok(o, r, n, v) = forall p string {pex(r, p, n)} :: pex(r, p, n) && npdeps(o, p) == 0 && sdep(o, p) != nil ==> accepts(sdep(o, p), v)

func (*jsval.ObjectConstraint).Validate(o, v) (e)
  concurrent
  ensures [C16] unlock: nolocks()
  requires nolocks()
  requires regok(reg())
  requires objwf(obase(v))
  requires forall p string {has(o.properties, p)} :: declared(o, p) ==> o.properties[p] != nil
  requires forall x *regexp.Regexp {has(o.patternProperties, x)} :: ispat(o, x) ==> x != nil && o.patternProperties[x] != nil
  modifies contents(structInfoRegistry.registry), over
  ensures [C06] kind: rkind(obase(v)) != 21 && rkind(obase(v)) != 25 ==> e != nil
  ensures [C06] count: objectish(obase(v)) && e == nil ==> cntok(o, pcount(obase(v), old(over)))
  ensures [C06] required: objectish(obase(v)) && e == nil ==> reqok(o, obase(v), old(over))
  ensures [C06] declared: objectish(obase(v)) && e == nil ==> declok(o, obase(v), old(over))
  ensures [C06] patterns: objectish(obase(v)) && e == nil ==> patok(o, obase(v), old(over))
  ensures [C06] additional: objectish(obase(v)) && e == nil ==> addlok(o, obase(v), old(over))
  ensures [C08] defaultable: objectish(obase(v)) && e == nil ==> dfltok(o, obase(v), old(over))
  ensures [C07] propdeps: objectish(obase(v)) && e == nil ==> pdepok(o, obase(v), old(over))
  ensures [C07] schemadeps: objectish(obase(v)) && e == nil ==> sdepok(o, obase(v), old(over), v)
  ensures [C06, C07, C08] accepted: objectish(obase(v)) && cntok(o, pcount(obase(v), old(over))) && reqok(o, obase(v), old(over)) && declok(o, obase(v), old(over)) && dfltok(o, obase(v), old(over)) && patok(o, obase(v), old(over)) && addlok(o, obase(v), old(over)) && pdepok(o, obase(v), old(over)) && sdepok(o, obase(v), old(over), v) ==> e == nil
  ensures [C08] present: objectish(obase(v)) ==> (forall p string {pex(obase(v), p, over)} {pv(obase(v), p, over)} {pvalue(obase(v), p, over)} :: pex(obase(v), p, old(over)) ==> pex(obase(v), p, over) && pvalue(obase(v), p, over) == pvalue(obase(v), p, old(over)))
  ensures [C08] nothingelse: objectish(obase(v)) ==> (forall p string {pex(obase(v), p, over)} :: pex(obase(v), p, over) && !pex(obase(v), p, old(over)) ==> declared(o, p) && hasdef(o.properties[p]))
  ensures [C08] filled: rkind(obase(v)) == 21 && objectish(obase(v)) && tkind(telem(rtypeof(obase(v)))) == 20 && e == nil ==> (forall p string {has(o.properties, p)} :: declared(o, p) && !pex(obase(v), p, old(over)) && hasdef(o.properties[p]) ==> pex(obase(v), p, over) && pvalue(obase(v), p, over) == defval(o.properties[p]))
  ensures nolocks() && regok(reg())
  inv rbase($rv:reflect.Value) == obase(v)
  inv regok(reg())
  // names present
  inv range([]) forall p string {has($premain:map[string]unit, p)} :: has($premain:map[string]unit, p) == (exists i int {elems($fields:[]string)[i]} :: 0 <= i && i < $i && elems($fields:[]string)[i] == p)
  // copies of the configuration
  inv range(.properties) forall p string {has($propdefs:map[string]jsval.Constraint, p)} :: has($propdefs:map[string]jsval.Constraint, p) == $visited[p] && (has($propdefs:map[string]jsval.Constraint, p) ==> $propdefs:map[string]jsval.Constraint[p] == o.properties[p])
  inv range(.required) forall p string {has($required:map[string]unit, p)} :: has($required:map[string]unit, p) == $visited[p]
  inv range(premain) forall p string {has($pcands:map[string]unit, p)} :: has($pcands:map[string]unit, p) == $visited[p]
  // required
  inv range(required) forall p string {$visited[p]} :: $visited[p] && !declared(o, p) ==> pex(obase(v), p, old(over))
  // declared properties
  inv range(propdefs) forall p string {has($premain:map[string]unit, p)} :: has($premain:map[string]unit, p) == (pex(obase(v), p, old(over)) && !$visited[p])
  inv range(propdefs) forall p string {has($pseen:map[string]unit, p)} {pex(obase(v), p, old(over))} :: has($pseen:map[string]unit, p) == (pex(obase(v), p, old(over)) && $visited[p])
  inv range(propdefs) forall p string {$visited[p]} :: $visited[p] && pex(obase(v), p, old(over)) ==> accepts(o.properties[p], pvalue(obase(v), p, old(over)))
  inv range(propdefs) forall p string {$visited[p]} :: $visited[p] && !pex(obase(v), p, old(over)) ==> !isreq(o, p) && (hasdef(o.properties[p]) ==> setok(obase(v), p, defval(o.properties[p])))
  inv range(propdefs) forall p string {pex(obase(v), p, over)} {pv(obase(v), p, over)} {pvalue(obase(v), p, over)} :: pex(obase(v), p, old(over)) ==> pex(obase(v), p, over) && pvalue(obase(v), p, over) == pvalue(obase(v), p, old(over))
  inv range(propdefs) forall p string {pex(obase(v), p, over)} {pv(obase(v), p, over)} :: pex(obase(v), p, over) && !pex(obase(v), p, old(over)) ==> $visited[p] && hasdef(o.properties[p])
  inv range(propdefs) rkind(obase(v)) == 21 && tkind(telem(rtypeof(obase(v)))) == 20 ==> (forall p string {$visited[p]} :: $visited[p] && !pex(obase(v), p, old(over)) && hasdef(o.properties[p]) ==> pex(obase(v), p, over) && pvalue(obase(v), p, over) == defval(o.properties[p]))
  // patterns
  inv range(.patternProperties, pcands) forall p string {has($premain:map[string]unit, p)} :: has($premain:map[string]unit, p) ==> pex(obase(v), p, old(over)) && !declared(o, p)
  inv range(.patternProperties, pcands) forall p string {has($pseen:map[string]unit, p)} {pex(obase(v), p, old(over))} :: has($pseen:map[string]unit, p) == (pex(obase(v), p, old(over)) && !has($premain:map[string]unit, p))
  inv range(.patternProperties) forall p string, x *regexp.Regexp {has($premain:map[string]unit, p), $visited[x]} :: has($premain:map[string]unit, p) && $visited[x] ==> !rxmatch(x, p)
  inv range(.patternProperties) forall p string {has($premain:map[string]unit, p)} {pex(obase(v), p, old(over))} :: pex(obase(v), p, old(over)) && !declared(o, p) && !has($premain:map[string]unit, p) ==> (exists x *regexp.Regexp {rxmatch(x, p)} :: $visited[x] && rxmatch(x, p))
  inv range(.patternProperties) forall p string, x *regexp.Regexp {pex(obase(v), p, old(over)), $visited[x]} :: $visited[x] && pex(obase(v), p, old(over)) && !declared(o, p) && rxmatch(x, p) ==> accepts(o.patternProperties[x], pvalue(obase(v), p, old(over)))
  inv range(pcands) forall p string, x *regexp.Regexp {has($premain:map[string]unit, p), $$visited[x]} :: has($premain:map[string]unit, p) && $$visited[x] && (x != $pat:*regexp.Regexp || $visited[p]) ==> !rxmatch(x, p)
  inv range(pcands) forall p string {has($premain:map[string]unit, p)} {pex(obase(v), p, old(over))} :: pex(obase(v), p, old(over)) && !declared(o, p) && !has($premain:map[string]unit, p) ==> (exists x *regexp.Regexp {rxmatch(x, p)} :: $$visited[x] && rxmatch(x, p))
  inv range(pcands) forall p string, x *regexp.Regexp {pex(obase(v), p, old(over)), $$visited[x]} :: $$visited[x] && (x != $pat:*regexp.Regexp || $visited[p]) && pex(obase(v), p, old(over)) && !declared(o, p) && rxmatch(x, p) ==> accepts(o.patternProperties[x], pvalue(obase(v), p, old(over)))
  // additional properties
  inv range(premain) forall p string {has($pseen:map[string]unit, p)} {pex(obase(v), p, old(over))} :: has($pseen:map[string]unit, p) == (pex(obase(v), p, old(over)) && (!has($premain:map[string]unit, p) || $visited[p]))
  inv range(premain) forall p string {$visited[p]} :: $visited[p] ==> accepts(o.additionalProperties, pvalue(obase(v), p, old(over)))
  // dependencies
  inv range(pseen) forall p string {has($pseen:map[string]unit, p)} {pex(obase(v), p, old(over))} :: has($pseen:map[string]unit, p) == pex(obase(v), p, old(over))
  inv range(pseen) forall p string, i int {$visited[p], elems(o.propdeps[p])[i]} :: $visited[p] && 0 <= i && i < npdeps(o, p) ==> pex(obase(v), elems(o.propdeps[p])[i], old(over))
  inv range(pseen) forall p string {$visited[p]} :: $visited[p] && npdeps(o, p) == 0 && sdep(o, p) != nil ==> accepts(sdep(o, p), v)
  inv range([]) forall i int {elems($deps:[]string)[i]} :: 0 <= i && i < $i ==> pex(obase(v), elems($deps:[]string)[i], old(over))

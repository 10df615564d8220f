// C15: the generator. "emits out y T": the function writes to out the text of a
// Go expression of type T; y is the value it has when the generated program
// runs. The calls in the expression are executed under the contracts of the
// real constructors and setters (govc/emit.go).

// eqv(a, b): constraint a gives the same verdicts and has the same default as b
uf eqv(any, any) bool
axiom eqv_self: forall a any {eqv(a, a)} :: eqv(a, a)
axiom eqv_same: forall x any, a any, b any {eqv(x, a), ieq(a, b)} {eqv(x, a), ieq(b, a)} :: eqv(x, a) && (ieq(a, b) || ieq(b, a)) ==> eqv(x, b)
axiom eqv_verdict: forall a any, b any, v any {eqv(a, b), accepts(a, v)} {eqv(a, b), accepts(b, v)} :: eqv(a, b) ==> accepts(a, v) == accepts(b, v)
axiom eqv_default: forall a any, b any {eqv(a, b)} :: eqv(a, b) ==> hasdef(a) == hasdef(b) && (hasdef(a) ==> defval(a) == defval(b))
// an expression that compiled compiles again, and matches the same strings
axiom rx_source: forall r *regexp.Regexp {rxsrc(r)} :: r != nil ==> rxvalid(rxsrc(r))
axiom rx_match: forall a *regexp.Regexp, b *regexp.Regexp, s string {rxmatch(a, s), rxmatch(b, s)} :: rxsrc(a) == rxsrc(b) ==> rxmatch(a, s) == rxmatch(b, s)
// the variables of the generated program
uf identval(string) any
uf isident(string) bool
uf quoted(string) string
extern strconv.Quote(s) (r)
  returns quoted(s)
uf fmtfloat(float64, int, int, int) string
extern strconv.FormatFloat(f, verb, prec, bits) (s)
  returns fmtfloat(f, verb, prec, bits)
uf fmtbool(bool) string
extern strconv.FormatBool(b) (s)
  returns fmtbool(b)
extern strconv.FormatInt(n, base) (s)
  requires base == 10
  returns itoa(n)

// conversions T(x) of a constant to the predeclared type of a kind
uf mkint(int, int) any
uf mkuint(int, int) any
uf mkfloat(int, float64) any
uf fitsint(int, int) bool
uf fitsuint(int, int) bool
uf fitsfloat(int, float64) bool
// values of predeclared types; floats are finite and not negative zero
uf plain(any) bool
axiom plain_int: forall v any {rint(rvof(v))} :: plain(v) && isintk(kindof(typeof(v))) ==> mkint(kindof(typeof(v)), rint(rvof(v))) == v && fitsint(kindof(typeof(v)), rint(rvof(v)))
axiom plain_uint: forall v any {ruint(rvof(v))} :: plain(v) && isuintk(kindof(typeof(v))) ==> mkuint(kindof(typeof(v)), ruint(rvof(v))) == v && fitsuint(kindof(typeof(v)), ruint(rvof(v)))
axiom plain_float: forall v any {rfloat(rvof(v))} :: plain(v) && isfloatk(kindof(typeof(v))) ==> mkfloat(kindof(typeof(v)), rfloat(rvof(v))) == v && fitsfloat(kindof(typeof(v)), rfloat(rvof(v))) && !isnan(rfloat(rvof(v))) && !isinf(rfloat(rvof(v))) && (feq(rfloat(rvof(v)), 0.0) ==> rfloat(rvof(v)) == 0.0)
axiom plain_string: forall v any {rstring(rvof(v))} :: plain(v) && kindof(typeof(v)) == 24 ==> box(rstring(rvof(v)), string) == v
axiom plain_bool: forall v any {rbool(rvof(v))} :: plain(v) && kindof(typeof(v)) == 1 ==> box(rbool(rvof(v)), bool) == v

define finite(f) = !isnan(f) && !isinf(f)
// the generator's context: the package is known by its name, the variables
// declared for the references hold equivalent constraints
define genok(ctx) = ctx != nil && ctx.pkgname == "jsval"
  && (ctx.cmname != "" ==> isident(ctx.cmname) && istype(identval(ctx.cmname), *ConstraintMap) && unbox(identval(ctx.cmname), *ConstraintMap) != nil)
  && (forall k string {has(ctx.refs, k)} :: has(ctx.refs, k) ==> has(ctx.refnames, k) && isident(ctx.refnames[k]) && eqv(identval(ctx.refnames[k]), ctx.refs[k]) && implements(identval(ctx.refnames[k]), "DefaultValue,HasDefault,Validate"))

func jsval.generateValueCode(ctx, out, v) (e)
  requires genok(ctx)
  modifies nothing
  hyp plain(v) && kindof(typeof(v)) != 12
  emits [C15] out y any
  ensures [C15] value: e == nil ==> y == v && !y_nl
func jsval.generateEnumCode(ctx, out, c) (e)
  requires genok(ctx)
  requires c != nil
  modifies nothing
  emits [C15] out ys list any
  ensures [C15] values: e == nil ==> ys_len == len(c.enums) && (forall i int {ys[i]} :: 0 <= i && i < len(c.enums) ==> ys[i] == elems(c.enums)[i])
  inv emitcomma(out) == ($i > 0 && $i == len(c.enums))
  inv emitlen(out) == $i && $i <= len(c.enums)
  inv forall i int {emititems(out)[i]} :: 0 <= i && i < $i ==> emititems(out)[i] == elems(c.enums)[i]

define sameenums(y, c) = (y.enums == nil) == (c.enums == nil) && (c.enums != nil ==> len(y.enums.enums) == len(c.enums.enums) && (forall i int {elems(y.enums.enums)[i]} :: 0 <= i && i < len(c.enums.enums) ==> elems(y.enums.enums)[i] == elems(c.enums.enums)[i]))
define samedefault(y, c) = y.initialized == c.initialized && (c.initialized ==> y.value == c.value)
define samenum(y, c) = y.applyMinimum == c.applyMinimum && y.applyMaximum == c.applyMaximum && y.applyMultipleOf == c.applyMultipleOf
  && y.exclusiveMinimum == c.exclusiveMinimum && y.exclusiveMaximum == c.exclusiveMaximum
  && (c.applyMinimum ==> feq(y.minimum, c.minimum)) && (c.applyMaximum ==> feq(y.maximum, c.maximum)) && (c.applyMultipleOf ==> feq(y.multipleOf, c.multipleOf))
define finbounds(c) = finite(c.minimum) && finite(c.maximum) && finite(c.multipleOf)
func jsval.generateIntegerCode(ctx, out, c) (e)
  requires genok(ctx)
  requires c != nil
  hyp finbounds(c)
  modifies nothing
  emits [C15] out y *IntegerConstraint
  ensures [C15] bounds: e == nil ==> samenum(y, c) && !y_nl
  ensures [C15] enum: e == nil ==> sameenums(y, c)
  ensures [C15] default: e == nil ==> samedefault(y, c)
  defines e == nil ==> eqv(box(y), box(c))
func jsval.generateNumberCode(ctx, out, c) (e)
  requires genok(ctx)
  requires c != nil
  hyp finbounds(c)
  modifies nothing
  emits [C15] out y *NumberConstraint
  ensures [C15] bounds: e == nil ==> samenum(y, c) && !y_nl
  ensures [C15] enum: e == nil ==> sameenums(y, c)
  ensures [C15] default: e == nil ==> samedefault(y, c)
  defines e == nil ==> eqv(box(y), box(c))
func jsval.generateBooleanCode(ctx, out, c) (e)
  requires genok(ctx)
  requires c != nil
  hyp c.initialized ==> istype(c.value, bool)
  modifies nothing
  emits [C15] out y *BooleanConstraint
  ensures [C15] default: e == nil ==> samedefault(y, c) && !y_nl
  defines e == nil ==> eqv(box(y), box(c))
func jsval.generateNullCode(ctx, out, c) (e)
  requires genok(ctx)
  modifies nothing
  emits [C15] out y nullConstraint
  ensures [C15] null: e == nil ==> y == c && !y_nl
func jsval.generateEmptyCode(ctx, out, c) (e)
  requires genok(ctx)
  modifies nothing
  emits [C15] out y emptyConstraint
  ensures [C15] null: e == nil ==> y == c && !y_nl
define samerx(a, b) = (a == nil) == (b == nil) && (b != nil ==> rxsrc(a) == rxsrc(b))
func jsval.generateStringCode(ctx, out, c) (e)
  requires genok(ctx)
  requires c != nil
  modifies nothing
  emits [C15] out y *StringConstraint
  ensures [C15] lengths: e == nil ==> !y_nl && (c.maxLength > -1 ==> y.maxLength == c.maxLength) && (c.maxLength <= -1 ==> y.maxLength <= -1) && (c.minLength > 0 ==> y.minLength == c.minLength) && (c.minLength <= 0 ==> y.minLength <= 0)
  ensures [C15] verdict: e == nil ==> (forall s string {runecount(s)} :: strok(y, s) == strok(c, s))
  ensures [C15] format: e == nil ==> y.format == c.format
  ensures [C15] pattern: e == nil ==> samerx(y.regexp, c.regexp)
  ensures [C15] enum: e == nil ==> sameenums(y, c)
  ensures [C15] default: e == nil ==> samedefault(y, c)
  defines e == nil ==> eqv(box(y), box(c))
func jsval.generateReferenceCode(ctx, out, c) (e)
  requires genok(ctx)
  requires c != nil
  // a validator with references has a map of them
  hyp ctx.cmname != ""
  modifies nothing
  emits [C15] out y *ReferenceConstraint
  ensures [C15] refers: e == nil ==> !y_nl && y.reference == c.reference && y.resolver == identval(ctx.cmname) && y.resolved == nil
  defines e == nil ==> eqv(box(y), box(c))
func jsval.generateNotCode(ctx, out, c) (e)
  requires genok(ctx)
  requires c != nil
  modifies nothing
  emits [C15] out y *NotConstraint
  ensures [C15] child: e == nil ==> !y_nl && eqv(y.child, c.child)
  ensures [C15] verdict: e == nil ==> (forall v any {accepts(c.child, v)} :: accepts(y.child, v) == accepts(c.child, v))
  defines e == nil ==> eqv(box(y), box(c))
// the constraint types of the package
define known(c) = istype(c, nullConstraint) || istype(c, emptyConstraint)
  || istype(c, *JSVal) && unbox(c, *JSVal) != nil || istype(c, *AnyConstraint) && unbox(c, *AnyConstraint) != nil
  || istype(c, *AllConstraint) && unbox(c, *AllConstraint) != nil || istype(c, *ArrayConstraint) && unbox(c, *ArrayConstraint) != nil
  || istype(c, *BooleanConstraint) && unbox(c, *BooleanConstraint) != nil || istype(c, *EnumConstraint) && unbox(c, *EnumConstraint) != nil
  || istype(c, *IntegerConstraint) && unbox(c, *IntegerConstraint) != nil || istype(c, *NotConstraint) && unbox(c, *NotConstraint) != nil
  || istype(c, *NumberConstraint) && unbox(c, *NumberConstraint) != nil || istype(c, *ObjectConstraint) && unbox(c, *ObjectConstraint) != nil
  || istype(c, *OneOfConstraint) && unbox(c, *OneOfConstraint) != nil || istype(c, *ReferenceConstraint) && unbox(c, *ReferenceConstraint) != nil
  || istype(c, *StringConstraint) && unbox(c, *StringConstraint) != nil
define isconstraint(y) = implements(y, "DefaultValue,HasDefault,Validate")
func jsval.generateCode(ctx, out, c) (e)
  requires genok(ctx)
  hyp known(c)
  modifies nothing
  emits [C15] out y any
  ensures [C15] equivalent: e == nil && !istype(c, *EnumConstraint) ==> eqv(y, c)
  ensures [C15] enum: e == nil && istype(c, *EnumConstraint) ==> istype(y, *EnumConstraint) && len(unbox(y, *EnumConstraint).enums) == len(unbox(c, *EnumConstraint).enums) && (forall i int {elems(unbox(y, *EnumConstraint).enums)[i]} :: 0 <= i && i < len(unbox(c, *EnumConstraint).enums) ==> elems(unbox(y, *EnumConstraint).enums)[i] == elems(unbox(c, *EnumConstraint).enums)[i])
  ensures [C15] usable: e == nil && !istype(c, *JSVal) ==> isconstraint(y) && !y_nl
  defines e == nil && istype(c, *EnumConstraint) ==> eqv(y, c)
define eqvprefix(a, b, n) = forall i int {a[i]} {b[i]} :: 0 <= i && i < n ==> eqv(a[i], b[i])
lemma cnt_eqv by n: forall a [int]any, b [int]any, v any, n int {cnt(a, v, n), cnt(b, v, n)} :: 0 <= n && eqvprefix(a, b, n) ==> cnt(a, v, n) == cnt(b, v, n)
define samechildren(y, c) = len(y.constraints) == len(c.constraints) && eqvprefix(elems(y.constraints), elems(c.constraints), len(c.constraints))
func jsval.generateAnyCode(ctx, out, c) (e)
  requires genok(ctx)
  requires c != nil
  modifies nothing
  emits [C15] out y *AnyConstraint
  ensures [C15] children: e == nil ==> !y_nl && samechildren(y, c)
  ensures [C15] verdict: e == nil ==> (forall v any {anyacc(elems(c.constraints), len(c.constraints), v)} :: anyacc(elems(y.constraints), len(y.constraints), v) == anyacc(elems(c.constraints), len(c.constraints), v))
  defines e == nil ==> eqv(box(y), box(c))
  inv len(emitted(out).constraints) == $i && $i <= len(c.constraints)
  inv eqvprefix(elems(emitted(out).constraints), elems(c.constraints), $i)
func jsval.generateOneOfCode(ctx, out, c) (e)
  requires genok(ctx)
  requires c != nil
  modifies nothing
  emits [C15] out y *OneOfConstraint
  ensures [C15] children: e == nil ==> !y_nl && samechildren(y, c)
  ensures [C15] verdict: e == nil ==> (forall v any {cnt(elems(c.constraints), v, len(c.constraints))} :: cnt(elems(y.constraints), v, len(y.constraints)) == cnt(elems(c.constraints), v, len(c.constraints)))
  defines e == nil ==> eqv(box(y), box(c))
  inv len(emitted(out).constraints) == $i && $i <= len(c.constraints)
  inv eqvprefix(elems(emitted(out).constraints), elems(c.constraints), $i)
func jsval.generateAllCode(ctx, out, c) (e)
  requires genok(ctx)
  requires c != nil
  modifies nothing
  emits [C15] out y any
  ensures [C15] kind: e == nil ==> !y_nl && isconstraint(y) && (istype(y, *AllConstraint) || istype(y, emptyConstraint) && len(c.constraints) == 0)
  ensures [C15] children: e == nil && istype(y, *AllConstraint) ==> samechildren(unbox(y, *AllConstraint), c)
  ensures [C15] verdict: e == nil && istype(y, *AllConstraint) ==> (forall v any {allacc(elems(c.constraints), len(c.constraints), v)} :: allacc(elems(unbox(y, *AllConstraint).constraints), len(unbox(y, *AllConstraint).constraints), v) == allacc(elems(c.constraints), len(c.constraints), v))
  ensures [C15] everything: e == nil && istype(y, emptyConstraint) ==> (forall v any {allacc(elems(c.constraints), len(c.constraints), v)} :: allacc(elems(c.constraints), len(c.constraints), v))
  defines e == nil ==> eqv(y, box(c))
  inv len(emitted(out).constraints) == $i && $i <= len(c.constraints)
  inv eqvprefix(elems(emitted(out).constraints), elems(c.constraints), $i)
define samechild(a, b) = (a == nil) == (b == nil) && (b != nil ==> eqv(a, b))
func jsval.generateArrayCode(ctx, out, c) (e)
  requires genok(ctx)
  requires c != nil
  modifies nothing
  // no setter gives an array constraint a default
  hyp !c.initialized
  emits [C15] out y *ArrayConstraint
  ensures [C15] items: e == nil ==> !y_nl && samechild(y.items, c.items)
  ensures [C15] additional: e == nil ==> samechild(y.additionalItems, c.additionalItems)
  ensures [C15] positional: e == nil ==> len(y.positionalItems) == len(c.positionalItems) && eqvprefix(elems(y.positionalItems), elems(c.positionalItems), len(c.positionalItems))
  ensures [C15] limits: e == nil ==> (c.minItems > -1 ==> y.minItems == c.minItems) && (c.minItems <= -1 ==> y.minItems <= -1) && (c.maxItems > -1 ==> y.maxItems == c.maxItems) && (c.maxItems <= -1 ==> y.maxItems <= -1)
  ensures [C15] unique: e == nil ==> y.uniqueItems == c.uniqueItems
  ensures [C15] default: e == nil ==> !y.initialized
  ensures [C15] verdict: e == nil ==> (forall v any {rvof(v)} :: arrayok(y, v) == arrayok(c, v))
  defines e == nil ==> eqv(box(y), box(c))
  inv !emitcomma(out) && emitlen(out) == $i && $i <= len(c.positionalItems)
  inv eqvprefix(emititems(out), elems(c.positionalItems), $i)
func jsval.generateValidatorCode(ctx, out, v) (e)
  requires genok(ctx)
  requires v != nil
  modifies nothing
  emits [C15] out y *JSVal
  ensures [C15] name: e == nil ==> y.Name == v.Name
  ensures [C15] root: e == nil ==> eqv(y.root, v.root)
  ensures [C15] map: e == nil && ctx.cmname != "" ==> y.ConstraintMap == unbox(identval(ctx.cmname), *ConstraintMap)
  defines e == nil ==> eqv(box(y), box(v))
define haskey(m, q) = m != nil && has(m, q)
define listed(a, n, q) = exists i int {a[i]} :: 0 <= i && i < n && a[i] == q
define distinct(a, n) = forall i int, j int {a[i], a[j]} :: 0 <= i && i < j && j < n ==> a[i] != a[j]
define samemap(y, c) = forall q string {has(y, q)} {has(c, q)} :: haskey(y, q) == haskey(c, q) && (haskey(c, q) ==> eqv(y[q], c[q]))
define samedeps(y, c, q) = npdeps(y, q) == npdeps(c, q) && (forall i int {elems(y.propdeps[q])[i]} :: 0 <= i && i < npdeps(c, q) ==> elems(y.propdeps[q])[i] == elems(c.propdeps[q])[i])
func jsval.generateObjectCode(ctx, out, c) (e)
  requires genok(ctx)
  requires c != nil
  requires nolocks()
  modifies nothing
  // no setter gives an object constraint a default
  hyp !c.initialized
  hyp forall q string {has(c.propdeps, q)} :: haskey(c.propdeps, q) ==> allocated(c.propdeps[q])
  hyp forall x *regexp.Regexp {has(c.patternProperties, x)} :: haskey(c.patternProperties, x) ==> x != nil
  emits [C15] out y *ObjectConstraint
  ensures [C15] default: e == nil ==> !y_nl && !y.initialized
  ensures [C15] count: e == nil ==> (c.minProperties > -1 ==> y.minProperties == c.minProperties) && (c.minProperties <= -1 ==> y.minProperties <= -1) && (c.maxProperties > -1 ==> y.maxProperties == c.maxProperties) && (c.maxProperties <= -1 ==> y.maxProperties <= -1)
  ensures [C15] additional: e == nil ==> samechild(y.additionalProperties, c.additionalProperties)
  ensures [C15] required: e == nil ==> (forall q string {has(y.required, q)} {has(c.required, q)} :: haskey(y.required, q) == haskey(c.required, q))
  ensures [C15] properties: e == nil ==> samemap(y.properties, c.properties)
  ensures [C15] patterns: e == nil ==> (forall x *regexp.Regexp {has(c.patternProperties, x)} :: haskey(c.patternProperties, x) ==> (exists k *regexp.Regexp {has(y.patternProperties, k)} :: haskey(y.patternProperties, k) && rxsrc(k) == rxsrc(x) && eqv(y.patternProperties[k], c.patternProperties[x])))
  ensures [C15] nopatterns: e == nil ==> (forall k *regexp.Regexp {has(y.patternProperties, k)} :: haskey(y.patternProperties, k) ==> (exists x *regexp.Regexp {has(c.patternProperties, x)} :: haskey(c.patternProperties, x) && rxsrc(k) == rxsrc(x) && eqv(y.patternProperties[k], c.patternProperties[x])))
  ensures [C15] propdeps: e == nil ==> (forall q string {has(y.propdeps, q)} {has(c.propdeps, q)} :: npdeps(y, q) == npdeps(c, q))
  ensures [C15] deplists: e == nil ==> (forall q string, i int {elems(y.propdeps[q])[i]} :: 0 <= i && i < npdeps(c, q) ==> elems(y.propdeps[q])[i] == elems(c.propdeps[q])[i])
  ensures [C15] schemadeps: e == nil ==> samemap(y.schemadeps, c.schemadeps)
  defines e == nil ==> eqv(box(y), box(c))
  inv nolocks()
  // lists of keys
  inv range(.required) len($grown:[]string) == card($visited)
  inv range(.required, .properties, .propdeps, .schemadeps) forall q string {$visited[q]} :: $visited[q] ==> listed(elems($grown:[]string), len($grown:[]string), q)
  inv range(.required, .properties, .propdeps, .schemadeps) forall i int {elems($grown:[]string)[i]} :: 0 <= i && i < len($grown:[]string) ==> $visited[elems($grown:[]string)[i]]
  inv range(.propdeps) distinct(elems($grown:[]string), len($grown:[]string))
  // a list of names
  inv range(pnames) emitlen(out) == $i && $i <= len($over:[]string)
  inv range(pnames) emitcomma(out) == ($i > 0 && $i == len($over:[]string))
  inv range(pnames) forall i int {emititems(out)[i]} {elems($over:[]string)[i]} :: 0 <= i && i < $i ==> emititems(out)[i] == elems($over:[]string)[i]
  // properties
  inv range(pnames) forall q string {has(emitted(out).properties, q)} :: has(emitted(out).properties, q) ==> haskey(c.properties, q) && eqv(emitted(out).properties[q], c.properties[q])
  inv range(pnames) forall i int {elems($over:[]string)[i]} :: 0 <= i && i < $i ==> has(emitted(out).properties, elems($over:[]string)[i])
  // patterns
  inv range(.patternProperties) forall x *regexp.Regexp {$visited[x]} :: $visited[x] ==> listed(elems($grown:[]*regexp.Regexp), len($grown:[]*regexp.Regexp), x)
  inv range(.patternProperties) forall i int {elems($grown:[]*regexp.Regexp)[i]} :: 0 <= i && i < len($grown:[]*regexp.Regexp) ==> $visited[elems($grown:[]*regexp.Regexp)[i]]
  inv range(patterns) forall k *regexp.Regexp {has(emitted(out).patternProperties, k)} :: has(emitted(out).patternProperties, k) ==> (exists x *regexp.Regexp {has(c.patternProperties, x)} :: haskey(c.patternProperties, x) && rxsrc(k) == rxsrc(x) && eqv(emitted(out).patternProperties[k], c.patternProperties[x]))
  inv range(patterns) forall i int {elems($over:[]*regexp.Regexp)[i]} :: 0 <= i && i < $i ==> (exists k *regexp.Regexp {has(emitted(out).patternProperties, k)} :: has(emitted(out).patternProperties, k) && rxsrc(k) == rxsrc(elems($over:[]*regexp.Regexp)[i]) && eqv(emitted(out).patternProperties[k], c.patternProperties[elems($over:[]*regexp.Regexp)[i]]))
  // dependencies
  inv range(keys) forall q string {has(emitted(out).schemadeps, q)} :: has(emitted(out).schemadeps, q) ==> haskey(c.schemadeps, q) && eqv(emitted(out).schemadeps[q], c.schemadeps[q])
  inv range(keys) forall i int {elems($over:[]string)[i]} :: 0 <= i && i < $i ==> has(emitted(out).schemadeps, elems($over:[]string)[i])
  inv range(keys) forall i int {elems($over:[]string)[i]} :: 0 <= i && i < $i ==> samedeps(emitted(out), c, elems($over:[]string)[i])
  inv range(keys) forall q string {has(emitted(out).propdeps, q)} :: has(emitted(out).propdeps, q) ==> listed(elems($over:[]string), $i, q)
  inv range(deplist) forall i int {elems($keys:[]string)[i]} :: 0 <= i && i < $$i ==> samedeps(emitted(out), c, elems($keys:[]string)[i])
  inv range(deplist) forall q string {has(emitted(out).propdeps, q)} :: has(emitted(out).propdeps, q) ==> listed(elems($keys:[]string), $$i, q) || q == $from:string
  inv range(deplist) npdeps(emitted(out), $from:string) == $i && $i <= npdeps(c, $from:string)
  inv range(deplist) (forall i int {elems(emitted(out).propdeps[$from:string])[i]} :: 0 <= i && i < $i ==> elems(emitted(out).propdeps[$from:string])[i] == elems(c.propdeps[$from:string])[i])
  inv range(keys, deplist) forall q string {has(emitted(out).propdeps, q)} :: has(emitted(out).propdeps, q) ==> allocated(emitted(out).propdeps[q])
  inv range(.schemadeps, keys) forall q string, i int {elems(emitted(out).propdeps[q])[i]} :: 0 <= i && i < npdeps(c, q) ==> elems(emitted(out).propdeps[q])[i] == elems(c.propdeps[q])[i]

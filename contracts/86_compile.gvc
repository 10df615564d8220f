// ---- references and whole documents
// what a reference denotes in a document, whether it denotes anything
uf rfound(any, string) bool
uf rtarget(any, string) any
// verdict and references of a decoded schema (*schema.Schema or JSON object)
uf rsch(*jsval.JSVal, any, any) bool
uf rsref(any, string) bool
axiom rsch_schema: forall j *jsval.JSVal, s *schema.Schema, v any {rsch(j, box(s), v)} :: rsch(j, box(s), v) == sch(j, s, v)
axiom rsref_schema: forall s *schema.Schema, n string {rsref(box(s), n)} :: rsref(box(s), n) == sref(s, n)
// the dependencies jsref and jsschema
extern jsref.New() (r)
  modifies nothing
  ensures fresh(r)
extern (*jsref.Resolver).Resolve(r, x, ref, opts) (t, e)
  modifies nothing
  ensures (e == nil) == rfound(x, ref)
  ensures e == nil ==> t == rtarget(x, ref)
  ensures istype(t, *schema.Schema) ==> unbox(t, *schema.Schema) != nil
// the fields of the new schema are those Extract gives it: nothing is known of them before
extern schema.New() (s)
  modifies nothing
  ensures fresh(s)
extern (*schema.Schema).Extract(s, m) (e)
  modifies nothing
  ensures e == nil ==> (forall j *jsval.JSVal, v any {sch(j, s, v)} :: sch(j, s, v) == rsch(j, box(m), v))
  ensures e == nil ==> (forall n string {sref(s, n)} :: sref(s, n) == rsref(box(m), n))

define refs(v) = v.ConstraintMap.refs
define registered(v, n) = refs(v) != nil && has(refs(v), n)
define isschema(x) = istype(x, *schema.Schema) || istype(x, map[string]any)
// a registered constraint is that of the schema the reference denotes
define goodref(v, s, x, n) = refs(v)[n] != nil && (n == "#" && (forall y any {accepts(refs(v)[n], y)} :: accepts(refs(v)[n], y) == sch(v, s, y)) || rfound(x, n) && isschema(rtarget(x, n)) && (forall y any {accepts(refs(v)[n], y)} :: accepts(refs(v)[n], y) == rsch(v, rtarget(x, n), y)))
define goodrefs(v, s, x) = forall n string {has(refs(v), n)} :: registered(v, n) ==> goodref(v, s, x, n)
// references of registered schemas have been noted
define noted(ctx, v, n) = has(ctx.R, n) || registered(v, n)
define closed(ctx, v, x) = forall n string, m string {has(refs(v), n), rsref(rtarget(x, n), m)} :: registered(v, n) && n != "#" && rsref(rtarget(x, n), m) ==> noted(ctx, v, m)
define rootclosed(ctx, v, s) = forall m string {sref(s, m)} :: sref(s, m) ==> noted(ctx, v, m)
define same(v) = forall n string {has(refs(v), n)} :: old(registered(v, n)) ==> registered(v, n)
define samepre(v) = forall n string {has(refs(v), n)} :: pre(registered(v, n)) ==> registered(v, n)
func builder.compileReferences(ctx, r, v, ref, x) (e)
  internal
  requires ctxok(ctx) && v == ctx.V && v.ConstraintMap != nil && schemasok() && nolocks()
  requires r != nil
  requires goodrefs(v, ctx.S, x)
  requires closed(ctx, v, x)
  modifies contents(ctx.R), v.ConstraintMap.refs, contents(v.ConstraintMap.refs), open
  ensures [C14] registered: e == nil ==> registered(v, ref)
  ensures [C14] kept: same(v)
  ensures [C14] grow: grows(ctx)
  ensures [C14] reached: e == nil ==> (forall n string {has(ctx.R, n)} :: has(ctx.R, n) && !old(has(ctx.R, n)) ==> registered(v, n))
  ensures old(refs(v)) != nil ==> refs(v) == old(refs(v))
  ensures old(refs(v)) == nil ==> refs(v) == nil || fresh(refs(v))
  ensures [C14] good: e == nil ==> goodrefs(v, ctx.S, x)
  ensures [C14] closed: e == nil ==> closed(ctx, v, x)
  ensures nolocks()
  inv ctxok(ctx)
  inv same(v)
  inv refs(v) == pre(refs(v)) && refs(v) != nil
  inv samepre(v)
  inv grows(ctx)
  inv grew(ctx)
  inv goodrefs(v, ctx.S, x)
  inv closed(ctx, v, x)
  inv registered(v, ref)
  inv forall n string {$visited[n]} {has(refs(v), n)} :: $visited[n] ==> registered(v, n)
  inv forall n string {has(ctx.R, n)} {has(refs(v), n)} :: has(ctx.R, n) && !pre(has(ctx.R, n)) ==> registered(v, n)

func (*builder.Builder).BuildWithCtx(b, s, x) (v, e)
  requires schemasok() && nolocks()
  modifies open
  ensures [C14] nil: s == nil ==> e != nil
  ensures [C14] valid: e == nil ==> v != nil && v.root != nil && v.ConstraintMap != nil
  ensures [C12, C13] verdict: e == nil ==> (forall y any {accepts(v.root, y)} :: accepts(v.root, y) == sch(v, s, y))
  ensures [C14] root: e == nil ==> (forall n string {sref(s, n)} :: sref(s, n) ==> registered(v, n))
  ensures [C14] targets: e == nil ==> goodrefs(v, s, if x == nil then box(s) else x)
  ensures [C14] reached: e == nil ==> (forall n string, m string {has(refs(v), n), rsref(rtarget(if x == nil then box(s) else x, n), m)} :: registered(v, n) && n != "#" && rsref(rtarget(if x == nil then box(s) else x, n), m) ==> registered(v, m))
  ensures nolocks()
  inv ctxok($ctx:*builder.buildctx) && $ctx:*builder.buildctx.V == $v:*jsval.JSVal && $ctx:*builder.buildctx.S == s && $v:*jsval.JSVal.ConstraintMap == pre($v:*jsval.JSVal.ConstraintMap) && $ctx:*builder.buildctx.R == pre($ctx:*builder.buildctx.R)
  inv if pre(refs($v:*jsval.JSVal)) != nil then refs($v:*jsval.JSVal) == pre(refs($v:*jsval.JSVal)) else refs($v:*jsval.JSVal) == nil || fresh(refs($v:*jsval.JSVal))
  inv samepre($v:*jsval.JSVal)
  inv grew($ctx:*builder.buildctx)
  inv goodrefs($v:*jsval.JSVal, s, if x == nil then box(s) else x)
  inv closed($ctx:*builder.buildctx, $v:*jsval.JSVal, if x == nil then box(s) else x)
  inv rootclosed($ctx:*builder.buildctx, $v:*jsval.JSVal, s)
  inv forall n string {$visited[n]} {has(refs($v:*jsval.JSVal), n)} :: $visited[n] ==> registered($v:*jsval.JSVal, n)
  inv forall n string {has($ctx:*builder.buildctx.R, n)} {has(refs($v:*jsval.JSVal), n)} :: has($ctx:*builder.buildctx.R, n) && !pre(has($ctx:*builder.buildctx.R, n)) ==> registered($v:*jsval.JSVal, n)
func (*builder.Builder).Build(b, s) (v, e)
  requires schemasok() && nolocks()
  modifies open
  ensures [C14] nil: s == nil ==> e != nil
  ensures [C14] valid: e == nil ==> v != nil && v.root != nil && v.ConstraintMap != nil
  ensures [C12, C13] verdict: e == nil ==> (forall y any {accepts(v.root, y)} :: accepts(v.root, y) == sch(v, s, y))
  ensures [C14] root: e == nil ==> (forall n string {sref(s, n)} :: sref(s, n) ==> registered(v, n))
  ensures [C14] targets: e == nil ==> goodrefs(v, s, box(s))
  ensures nolocks()
func builder.New() (b)
  modifies nothing
  ensures fresh(b)

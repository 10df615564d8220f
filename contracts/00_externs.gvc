// Trusted contracts on dependencies (standard library, pdebug, pkg/errors).
extern errors.New(text) (e)
  ensures e != nil
  modifies nothing
extern errors.Wrapf(err, f, args) (e)
  ensures (e == nil) == (err == nil)
  modifies nothing
extern errors.Wrap(err, m) (e)
  ensures (e == nil) == (err == nil)
  modifies nothing
extern errors.Errorf(f, args) (e)
  ensures e != nil
  modifies nothing
extern fmt.Errorf(f, args) (e)
  ensures e != nil
  modifies nothing
extern pdebug.Printf(f, args)
  noop
uf itoa(int) string
extern strconv.Itoa(n) (s)
  returns itoa(n)
iface error.Error(e) (s)
  modifies nothing

// fmt.Sprintf: a function of the format and the arguments
uf fmtstr(string, [int]any, int) string
uf stringify(any) string
axiom fmt_s: forall a [int]any {fmtstr("%s", a, 1)} :: fmtstr("%s", a, 1) == stringify(a[0])
extern fmt.Sprintf(f, args) (s)
  returns fmtstr(f, elems(args), len(args))

// strings, unicode
uf runecount(string) int
axiom runecount_range: forall s string {runecount(s)} :: 0 <= runecount(s) && runecount(s) <= len(s)
extern utf8.RuneCountInString(s) (n)
  returns runecount(s)
extern strings.IndexByte(s, c) (n)
  ensures n == -1 || 0 <= n && n < len(s) && s[n] == c
  ensures n == -1 ==> (forall i int {s[i]} :: 0 <= i && i < len(s) ==> s[i] != c)
  ensures n >= 0 ==> (forall i int {s[i]} :: 0 <= i && i < n ==> s[i] != c)
  modifies nothing

// reflection
uf kindof(int) int
uf rvof(any) reflect.Value
uf rkind(reflect.Value) int
uf relem(reflect.Value) reflect.Value
uf rstring(reflect.Value) string
uf rfloat(reflect.Value) float64
uf rint(reflect.Value) int64
uf ruint(reflect.Value) uint64
uf rbool(reflect.Value) bool
uf risnil(reflect.Value) bool
uf rlen(reflect.Value) int
uf rindex(reflect.Value, int) reflect.Value
// contents of addressable values depend on the version "over" of the objects
// under validation
ghost over int
uf rifv(reflect.Value, int) any
define riface(r) = rifv(r, over)
uf rtypeof(reflect.Value) any
axiom rv_zero: rkind(zero(reflect.Value)) == 0
axiom rv_zero2: forall r reflect.Value {rkind(r)} :: (rkind(r) == 0) == (r == zero(reflect.Value))
axiom rv_kind: forall v any {rvof(v)} :: rkind(rvof(v)) == kindof(typeof(v))
axiom rv_iface: forall v any, n int {rifv(rvof(v), n)} :: v != nil ==> rifv(rvof(v), n) == v
axiom rv_float: forall f float64 {rvof(box(f, float64))} :: rfloat(rvof(box(f, float64))) == f
axiom rv_string: forall s string {rvof(box(s, string))} :: rstring(rvof(box(s, string))) == s
axiom rv_bool: forall b bool {rvof(box(b, bool))} :: rbool(rvof(box(b, bool))) == b
axiom rv_notiface: forall v any {rvof(v)} :: rkind(rvof(v)) != 20
axiom kind_range: forall t int {kindof(t)} :: 0 <= kindof(t) && kindof(t) <= 26 && ((kindof(t) == 0) == (t == 0))
axiom rtype_nonnil: forall r reflect.Value {rtypeof(r)} :: rkind(r) != 0 ==> rtypeof(r) != nil
axiom rlen_pos: forall r reflect.Value {rlen(r)} :: 0 <= rlen(r)
axiom typeof_nil: forall v any {typeof(v)} :: (typeof(v) == 0) == (v == nil)
extern reflect.ValueOf(v) (r)
  returns rvof(v)
extern (reflect.Value).Kind(r) (k)
  returns rkind(r)
extern (reflect.Value).Elem(r) (x)
  requires rkind(r) == 22 || rkind(r) == 20
  returns relem(r)
extern (reflect.Value).String(r) (s)
  returns rstring(r)
extern (reflect.Value).Float(r) (f)
  requires rkind(r) == 13 || rkind(r) == 14
  returns rfloat(r)
extern (reflect.Value).Int(r) (i)
  requires 2 <= rkind(r) && rkind(r) <= 6
  returns rint(r)
extern (reflect.Value).Uint(r) (i)
  requires 7 <= rkind(r) && rkind(r) <= 12
  returns ruint(r)
extern (reflect.Value).Bool(r) (i)
  requires rkind(r) == 1
  returns rbool(r)
extern (reflect.Value).IsNil(r) (b)
  requires 18 <= rkind(r) && rkind(r) <= 23 || rkind(r) == 26
  returns risnil(r)
extern (reflect.Value).IsValid(r) (b)
  returns rkind(r) != 0
extern (reflect.Value).Len(r) (n)
  requires rkind(r) == 17 || rkind(r) == 18 || rkind(r) == 21 || rkind(r) == 23 || rkind(r) == 24
  returns rlen(r)
extern (reflect.Value).Index(r, i) (x)
  requires rkind(r) == 17 || rkind(r) == 23
  requires 0 <= i && i < rlen(r)
  returns rindex(r, i)
extern (reflect.Value).Interface(r) (x)
  requires rkind(r) != 0
  returns riface(r)
extern (reflect.Value).Type(r) (t)
  requires rkind(r) != 0
  returns rtypeof(r)
iface reflect.Type.String(t) (s)
  modifies nothing
uf kindname(int) string
extern (reflect.Kind).String(k) (s)
  returns kindname(k)

// float64
uf fmod(float64, float64) float64
extern math.Mod(x, y) (z)
  returns fmod(x, y)
extern math.Floor(x) (z)
  returns floor(x)
extern math.IsNaN(x) (b)
  returns isnan(x)
extern math.Trunc(x) (z)
  returns ftrunc(x)
axiom i2f_fin: forall n int {i2f(n)} :: !isnan(i2f(n)) && !isinf(i2f(n)) && feq(floor(i2f(n)), i2f(n))

// formats decided by the standard library
uf timeok(string, string) bool
uf timeval(string, string) time.Time
extern time.Parse(layout, s) (t, e)
  ensures (e == nil) == timeok(layout, s)
  ensures e == nil ==> t == timeval(layout, s)
  modifies nothing
uf mailok(string) bool
extern mail.ParseAddress(s) (a, e)
  ensures (e == nil) == mailok(s)
  modifies nothing
uf ipok(string) bool
extern net.ParseIP(s) (ip)
  ensures (ip == nil) == !ipok(s)
  modifies nothing
uf uriok(string) bool
extern url.Parse(s) (u, e)
  ensures (e == nil) == uriok(s)
  modifies nothing
// regular expressions
uf rxmatch(*regexp.Regexp, string) bool
uf rxsrc(*regexp.Regexp) string
extern (*regexp.Regexp).MatchString(r, s) (b)
  requires r != nil
  returns rxmatch(r, s)
extern (*regexp.Regexp).String(r) (s)
  requires r != nil
  returns rxsrc(r)
uf rxvalid(string) bool
extern regexp.MustCompile(s) (r)
  requires rxvalid(s)
  ensures fresh(r)
  ensures r != nil && fresh(r) && rxsrc(r) == s
  modifies nothing

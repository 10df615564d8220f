// ---- values seen through one pointer
define target(v) = if rkind(rvof(v)) == 22 || rkind(rvof(v)) == 20 then relem(rvof(v)) else rvof(v)

// ---- null / empty / boolean / enum / not
func (jsval.emptyConstraint).Validate(c, v) (e)
  concurrent
  ensures [C16] unlock: nolocks()
  modifies nothing
  ensures [C03] empty: e == nil
func (jsval.emptyConstraint).HasDefault(c) (b)
  concurrent
  ensures [C16] unlock: nolocks()
  modifies nothing
  ensures [C03] nodef: !b
func (jsval.emptyConstraint).DefaultValue(c) (x)
  concurrent
  ensures [C16] unlock: nolocks()
  modifies nothing
  ensures [C03] nodefv: x == nil
func (jsval.nullConstraint).HasDefault(c) (b)
  concurrent
  ensures [C16] unlock: nolocks()
  modifies nothing
  ensures [C03] nodef: !b
func (jsval.nullConstraint).DefaultValue(c) (x)
  concurrent
  ensures [C16] unlock: nolocks()
  modifies nothing
  ensures [C03] nodefv: x == nil
func (jsval.NotConstraint).HasDefault(c) (b)
  concurrent
  ensures [C16] unlock: nolocks()
  modifies nothing
  ensures [C03] nodef: !b
func (jsval.NotConstraint).DefaultValue(c) (x)
  concurrent
  ensures [C16] unlock: nolocks()
  modifies nothing
  ensures [C03] nodefv: x == nil
func (jsval.defaultValue).HasDefault(c) (b)
  concurrent
  ensures [C16] unlock: nolocks()
  modifies nothing
  ensures [C08] hasdef: b == c.initialized
func (jsval.defaultValue).DefaultValue(c) (x)
  concurrent
  ensures [C16] unlock: nolocks()
  modifies nothing
  ensures [C08] defv: x == c.value
define nullok(v) = v == nil || (18 <= kindof(typeof(v)) && kindof(typeof(v)) <= 23 && risnil(rvof(v)))
func (jsval.nullConstraint).Validate(c, v) (e)
  concurrent
  ensures [C16] unlock: nolocks()
  modifies nothing
  ensures [C03] null: (e == nil) == nullok(v)
// the verdict is that of Validate
axiom accepts_null: forall v any {accepts(box(zero(jsval.nullConstraint)), v)} :: accepts(box(zero(jsval.nullConstraint)), v) == nullok(v)
func (*jsval.BooleanConstraint).Validate(c, v) (e)
  concurrent
  ensures [C16] unlock: nolocks()
  modifies nothing
  ensures [C03] bool: (e == nil) == (kindof(typeof(v)) == 1)
func jsval.Boolean() (c)
  modifies open
  defines open == store(old(open), box(c), true)
  ensures fresh(c)
  ensures [C03] new: !c.initialized && c.value == nil
func (*jsval.BooleanConstraint).Default(c, v) (r)
  requires isopen(c)
  modifies c.initialized, c.value
  ensures [C08] setdef: r == c && c.initialized && c.value == v

define enumok(c, v) = exists i int {elems(c.enums)[i]} :: 0 <= i && i < len(c.enums) && ieq(elems(c.enums)[i], v)
func jsval.Enum(v) (c)
  modifies nothing
  ensures fresh(c)
  ensures [C03] new: c.enums == v
func (*jsval.EnumConstraint).Enum(c, v) (r)
  modifies c.enums
  ensures [C03] setenum: r == c && c.enums == v
func (*jsval.EnumConstraint).Validate(c, v) (e)
  concurrent
  ensures [C16] unlock: nolocks()
  modifies nothing
  ensures [C03] enum: (e == nil) == enumok(c, v)
  inv forall i int {elems(c.enums)[i]} :: 0 <= i && i < $i ==> !ieq(elems(c.enums)[i], v)

func jsval.Not(c) (r)
  modifies nothing
  // see Validate
  defines forall v any {accepts(box(r), v)} :: accepts(box(r), v) == (c != nil && !accepts(c, v))
  ensures fresh(r)
  ensures [C04] new: r.child == c
func (jsval.NotConstraint).Validate(c, v) (e)
  concurrent
  ensures [C16] unlock: nolocks()
  modifies nothing
  ensures [C04] not: (e == nil) == (c.child != nil && !accepts(c.child, v))

// ---- strings
define isdigit(b) = 48 <= b && b <= 57
define isletter(b) = 97 <= b && b <= 122 || 65 <= b && b <= 90 || b == 95
define hostchars(s) = forall i int {s[i]} :: 0 <= i && i < len(s) ==> isletter(s[i]) || isdigit(s[i]) || s[i] == 45 || s[i] == 46
define hostletter(s) = exists i int {s[i]} :: 0 <= i && i < len(s) && isletter(s[i])
define hostdash(s) = forall i int {s[i]} :: 0 <= i && i < len(s) && s[i] == 45 ==> i > 0 && s[i-1] != 46 && i < len(s) - 1 && s[i+1] != 46
define hostdot(s) = forall i int {s[i]} :: 0 <= i && i < len(s) && s[i] == 46 ==> i > 0 && s[i-1] != 46
define hostlabels(s) = forall i int {s[i]} :: 0 <= i && i + 63 < len(s) ==> s[i] == 46 || (exists j int {s[j]} :: i < j && j <= i + 63 && s[j] == 46)
define hostok(s) = 0 < len(s) && len(s) <= 255 && hostchars(s) && hostletter(s) && hostdash(s) && hostdot(s) && hostlabels(s)
define ipv4chars(s) = forall i int {s[i]} :: 0 <= i && i < len(s) ==> s[i] == 46 || isdigit(s[i])
define hascolon(s) = exists i int {s[i]} :: 0 <= i && i < len(s) && s[i] == 58
define formatok(f, s) = ((f == "datetime" || f == "date-time") ==> timeok("2006-01-02T15:04:05Z07:00", s))
  && (f == "email" ==> mailok(s))
  && (f == "hostname" ==> hostok(s))
  && (f == "ipv4" ==> ipv4chars(s) && ipok(s))
  && (f == "ipv6" ==> hascolon(s) && ipok(s))
  && (f == "uri" ==> uriok(s))
define strok(c, s) = (c.maxLength > -1 ==> runecount(s) <= c.maxLength)
  && (c.minLength > -1 ==> runecount(s) >= c.minLength)
  && formatok(c.format, s)
  && (c.regexp != nil ==> rxmatch(c.regexp, s))
  && (c.enums != nil ==> enumok(c.enums, s))

func jsval.isDomainName(s) (b)
  internal
  modifies nothing
  ensures [C01] hostname: b == hostok(s)
  inv forall i int {s[i]} :: 0 <= i && i < $i ==> isletter(s[i]) || isdigit(s[i]) || s[i] == 45 || s[i] == 46
  inv $ok:bool == (exists i int {s[i]} :: 0 <= i && i < $i && isletter(s[i]))
  inv $last:byte == (if $i == 0 then 46 else s[$i-1])
  inv forall i int {s[i]} :: 0 <= i && i < $i && s[i] == 45 ==> i > 0 && s[i-1] != 46
  inv forall i int {s[i]} :: 0 <= i && i < $i - 1 && s[i] == 45 ==> s[i+1] != 46
  inv forall i int {s[i]} :: 0 <= i && i < $i && s[i] == 46 ==> i > 0 && s[i-1] != 46
  inv 0 <= $p:int && $p:int <= $i && (forall j int {s[j]} :: $i - $p:int <= j && j < $i ==> s[j] != 46)
  inv 0 <= $p:int && $p:int <= $i && ($p:int == $i || s[$i - $p:int - 1] == 46)
  inv 0 <= $p:int && $p:int <= $i && (forall i int {s[i]} :: 0 <= i && i + 63 < $i - $p:int ==> s[i] == 46 || (exists j int {s[j]} :: i < j && j <= i + 63 && s[j] == 46))

func (*jsval.StringConstraint).Validate(c, v) (e)
  concurrent
  ensures [C16] unlock: nolocks()
  modifies nothing
  ensures [C01] kind: rkind(target(v)) != 24 ==> e != nil
  ensures [C01] string: rkind(target(v)) == 24 ==> ((e == nil) == strok(c, rstring(target(v))))
  inv forall i int {$str[i]} :: 0 <= i && i < $pos ==> $str[i] == 46 || isdigit($str[i])
define strnew(c) = c.maxLength == -1 && c.minLength <= 0 && c.regexp == nil && c.format == "" && c.enums == nil && !c.initialized
func jsval.String() (c)
  modifies open
  defines open == store(old(open), box(c), true)
  ensures fresh(c)
  ensures [C01] new: strnew(c)
func (*jsval.StringConstraint).Default(c, v) (r)
  requires isopen(c)
  modifies c.initialized, c.value
  ensures [C08] setdef: r == c && c.initialized && c.value == v
func (*jsval.StringConstraint).Enum(c, l) (r)
  requires isopen(c)
  modifies c.enums, c.enums.enums
  ensures [C01] setenum: r == c && c.enums != nil && c.enums.enums == l
func (*jsval.StringConstraint).MaxLength(c, n) (r)
  requires isopen(c)
  modifies c.maxLength
  ensures [C01] set: r == c && c.maxLength == n
func (*jsval.StringConstraint).MinLength(c, n) (r)
  requires isopen(c)
  modifies c.minLength
  ensures [C01] set: r == c && c.minLength == n
func (*jsval.StringConstraint).Regexp(c, x) (r)
  requires isopen(c)
  modifies c.regexp
  ensures [C01] set: r == c && c.regexp == x
func (*jsval.StringConstraint).RegexpString(c, x) (r)
  requires isopen(c)
  requires rxvalid(x)
  modifies c.regexp
  ensures [C01] set: r == c && c.regexp != nil && rxsrc(c.regexp) == x
func (*jsval.StringConstraint).Format(c, f) (r)
  requires isopen(c)
  modifies c.format
  ensures [C01] set: r == c && c.format == f

// ---- numbers (JSON numbers: no NaN)
define numok(c, f) = (c.applyMinimum ==> (if c.exclusiveMinimum then c.minimum < f else c.minimum <= f))
  && (c.applyMaximum ==> (if c.exclusiveMaximum then f < c.maximum else f <= c.maximum))
  && (c.applyMultipleOf && !feq(c.multipleOf, 0.0) ==> feq(fmod(f, c.multipleOf), 0.0))
  && (c.enums != nil ==> enumok(c.enums, box(f)))
define nonan(c, f) = !isnan(f) && !isnan(c.minimum) && !isnan(c.maximum) && !isnan(c.multipleOf)
func (*jsval.NumberConstraint).Validate(c, v) (e)
  concurrent
  ensures [C16] unlock: nolocks()
  modifies nothing
  ensures [C02] kind: rkind(target(v)) != 13 && rkind(target(v)) != 14 ==> e != nil
  ensures [C02] number: (rkind(target(v)) == 13 || rkind(target(v)) == 14) && nonan(c, rfloat(target(v))) ==> ((e == nil) == numok(c, rfloat(target(v))))
define isintk(k) = 2 <= k && k <= 6
define isuintk(k) = 7 <= k && k <= 12
define isfloatk(k) = k == 13 || k == 14
define intval(r) = if isintk(rkind(r)) then i2f(rint(r)) else if isuintk(rkind(r)) then i2f(ruint(r)) else rfloat(r)
func (*jsval.IntegerConstraint).Validate(c, v) (e)
  concurrent
  ensures [C16] unlock: nolocks()
  modifies nothing
  ensures [C02] kind: !isintk(rkind(target(v))) && !isuintk(rkind(target(v))) && !isfloatk(rkind(target(v))) ==> e != nil
  ensures [C02] frac: isfloatk(rkind(target(v))) && !feq(floor(rfloat(target(v))), rfloat(target(v))) ==> e != nil
  ensures [C02] int: isintk(rkind(target(v))) && nonan(c, i2f(rint(target(v)))) ==> ((e == nil) == numok(c, i2f(rint(target(v)))))
  ensures [C02] uint: isuintk(rkind(target(v))) && nonan(c, i2f(ruint(target(v)))) ==> ((e == nil) == numok(c, i2f(ruint(target(v)))))
  ensures [C02] float: isfloatk(rkind(target(v))) && feq(floor(rfloat(target(v))), rfloat(target(v))) && nonan(c, rfloat(target(v))) ==> ((e == nil) == numok(c, rfloat(target(v))))
define numnew(c) = !c.applyMinimum && !c.applyMaximum && !c.applyMultipleOf && !c.exclusiveMinimum && !c.exclusiveMaximum && c.enums == nil && !c.initialized && feq(c.minimum, 0.0) && feq(c.maximum, 0.0) && feq(c.multipleOf, 0.0)
func jsval.Number() (c)
  modifies open
  defines open == store(old(open), box(c), true)
  ensures fresh(c)
  ensures [C02] new: numnew(c)
func jsval.Integer() (c)
  modifies open
  defines open == store(store(old(open), box(c), true), box(addr(c.NumberConstraint)), true)
  ensures fresh(c)
  ensures [C02] new: numnew(c)
func (*jsval.NumberConstraint).Enum(c, l) (r)
  requires isopen(c)
  modifies c.enums, c.enums.enums
  ensures [C02] setenum: r == c && c.enums != nil && c.enums.enums == l
func (*jsval.NumberConstraint).Default(c, v) (r)
  requires isopen(c)
  modifies c.initialized, c.value
  ensures [C08] setdef: r == c && c.initialized && c.value == v
func (*jsval.NumberConstraint).Maximum(c, n) (r)
  requires isopen(c)
  modifies c.applyMaximum, c.maximum
  ensures [C02] set: r == c && c.applyMaximum && c.maximum == n
func (*jsval.NumberConstraint).Minimum(c, n) (r)
  requires isopen(c)
  modifies c.applyMinimum, c.minimum
  ensures [C02] set: r == c && c.applyMinimum && c.minimum == n
func (*jsval.NumberConstraint).MultipleOf(c, n) (r)
  requires isopen(c)
  modifies c.applyMultipleOf, c.multipleOf
  ensures [C02] set: r == c && c.applyMultipleOf && c.multipleOf == n
func (*jsval.NumberConstraint).ExclusiveMinimum(c, b) (r)
  requires isopen(c)
  modifies c.exclusiveMinimum
  ensures [C02] set: r == c && c.exclusiveMinimum == b
func (*jsval.NumberConstraint).ExclusiveMaximum(c, b) (r)
  requires isopen(c)
  modifies c.exclusiveMaximum
  ensures [C02] set: r == c && c.exclusiveMaximum == b
func (*jsval.IntegerConstraint).Enum(c, l) (r)
  requires isopen(c) && isopen(addr(c.NumberConstraint))
  modifies c.enums, c.enums.enums
  ensures [C02] setenum: r == c && c.enums != nil && c.enums.enums == l
func (*jsval.IntegerConstraint).Default(c, v) (r)
  requires isopen(c) && isopen(addr(c.NumberConstraint))
  modifies c.initialized, c.value
  ensures [C08] setdef: r == c && c.initialized && c.value == v
func (*jsval.IntegerConstraint).Maximum(c, n) (r)
  requires isopen(c) && isopen(addr(c.NumberConstraint))
  modifies c.applyMaximum, c.maximum
  ensures [C02] set: r == c && c.applyMaximum && c.maximum == n
func (*jsval.IntegerConstraint).Minimum(c, n) (r)
  requires isopen(c) && isopen(addr(c.NumberConstraint))
  modifies c.applyMinimum, c.minimum
  ensures [C02] set: r == c && c.applyMinimum && c.minimum == n
func (*jsval.IntegerConstraint).MultipleOf(c, n) (r)
  requires isopen(c) && isopen(addr(c.NumberConstraint))
  modifies c.applyMultipleOf, c.multipleOf
  ensures [C02] set: r == c && c.applyMultipleOf && c.multipleOf == n
func (*jsval.IntegerConstraint).ExclusiveMinimum(c, b) (r)
  requires isopen(c) && isopen(addr(c.NumberConstraint))
  modifies c.exclusiveMinimum
  ensures [C02] set: r == c && c.exclusiveMinimum == b
func (*jsval.IntegerConstraint).ExclusiveMaximum(c, b) (r)
  requires isopen(c) && isopen(addr(c.NumberConstraint))
  modifies c.exclusiveMaximum
  ensures [C02] set: r == c && c.exclusiveMaximum == b

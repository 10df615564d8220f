package main

import (
	"math/big"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/lestrrat-go/jsval"
)

func init() {
	suites = append(suites,
		Suite{"string", "C01 C16", 6000, caseString},
		Suite{"hostname", "C01", 6000, caseHostname},
		Suite{"formats", "C01", 300, caseFormats},
		Suite{"string-setters", "C01", 600, caseStringSetters},
		Suite{"number", "C02 C16", 8000, caseNumber},
		Suite{"integer", "C02", 8000, caseInteger},
		Suite{"simple", "C03 C16", 3000, caseSimple},
		Suite{"combinators", "C04 C16", 6000, caseCombinators},
		Suite{"array", "C05 C16", 8000, caseArray},
		Suite{"scalar-defaults", "C08", 600, caseScalarDefaults},
	)
}

type namedString string
type namedInt int16
type namedFloat float64
type namedBool bool

// ---- strings

type strSpec struct {
	min, max int
	hasMin   bool
	hasMax   bool
	rx       string
	format   string
	enum     []interface{}
}

var patterns = []string{"^a", "b$", "^[a-c]+$", "o", "^$", "[0-9]", "^foo$", "^.{3}$"}

type fmtSample struct {
	s  string
	ok bool
}

var fmtSamples = map[string][]fmtSample{
	"date-time": {{"2015-12-25T12:34:56Z", true}, {"2015-12-25T12:34:56+09:00", true}, {"2015-12-25T12:34:56.123Z", true}, {"2016-02-29T00:00:00-07:30", true},
		{"2015-12-25", false}, {"2015-12-25 12:34:56Z", false}, {"2015-13-25T12:34:56Z", false}, {"2015-02-29T00:00:00Z", false}, {"2015-12-25T25:34:56Z", false}, {"2015-12-25T12:34:56", false}, {"", false}, {"foo", false}, {"12:34:56Z", false}, {"2015-12-25T12:34:56ZZ", false}, {"Mon, 02 Jan 2006 15:04:05 MST", false}},
	"email":    {{"foo@bar.com", true}, {"a.b+c@example.org", true}, {"Foo Bar <foo@bar.com>", true}, {"foo", false}, {"@bar.com", false}, {"foo@", false}, {"", false}, {"foo@bar@baz", false}, {"foo bar@baz", false}},
	"ipv4":     {{"127.0.0.1", true}, {"0.0.0.0", true}, {"255.255.255.255", true}, {"8.8.8.8", true}, {"256.0.0.1", false}, {"1.2.3", false}, {"1.2.3.4.5", false}, {"::1", false}, {"a.b.c.d", false}, {"", false}, {"1.2.3.", false}, {"127.0.0.1 ", false}, {"::ffff:1.2.3.4", false}, {"-1.2.3.4", false}, {"1234", false}},
	"ipv6":     {{"::1", true}, {"::", true}, {"fe80::1", true}, {"2001:db8:85a3::8a2e:370:7334", true}, {"2001:DB8::FF", true}, {"::ffff:1.2.3.4", true}, {"1.2.3.4", false}, {"::1::2", false}, {"12345::", false}, {"gggg::1", false}, {"", false}, {"1:2:3:4:5:6:7", false}, {"1:2:3:4:5:6:7:8:9", false}, {"fe80", false}, {"foo", false}, {":", false}},
	"uri":      {{"http://example.com/", true}, {"urn:isbn:0451450523", true}, {"https://u:p@h:80/p?q=1#f", true}, {"http://[::1", false}, {"%zz", false}, {":foo", false}, {"http://a b.com/", false}},
	"hostname": {{"example.com", true}, {"a", true}, {"a-b.c", true}, {"example.com.", true}, {"_srv.example", true}, {"1a", true}, {"", false}, {".", false}, {"a..b", false}, {"-a", false}, {"a-", false}, {"a-.b", false}, {"a.-b", false}, {"1.2", false}, {"foo bar", false}, {"é.com", false}, {"a/b", false}, {strings.Repeat("a", 63), true}, {strings.Repeat("a", 64), false}, {strings.Repeat("a", 63) + ".b", true}, {strings.Repeat("a", 64) + ".b", false}, {"b." + strings.Repeat("a", 64), false}, {strings.Repeat("a.", 127) + "a", true}, {strings.Repeat("a.", 127) + "ab", false}},
}

func init() { fmtSamples["datetime"] = fmtSamples["date-time"] }

func fmtOK(format, s string) (ok, known bool) {
	if format == "hostname" {
		return hostOK(s), true
	}
	l, has := fmtSamples[format]
	if !has {
		return true, true // unknown formats are not checked
	}
	for _, x := range l {
		if x.s == s {
			return x.ok, true
		}
	}
	return false, false
}

var labelRx = regexp.MustCompile(`\A[A-Za-z0-9_]([A-Za-z0-9_-]*[A-Za-z0-9_])?\z`)
var letterRx = regexp.MustCompile(`[A-Za-z_]`)

// hostOK: labels of 1 to 63 letters, digits, underscores and inner hyphens,
// separated by single dots, one optional final dot, at most 255 bytes in
// all, and not all digits and hyphens.
func hostOK(s string) bool {
	if len(s) == 0 || len(s) > 255 || !letterRx.MatchString(s) {
		return false
	}
	for _, l := range strings.Split(strings.TrimSuffix(s, "."), ".") {
		if len(l) > 63 || !labelRx.MatchString(l) {
			return false
		}
	}
	return true
}

func strVerdict(sp strSpec, s string) (ok, known bool) {
	n := utf8.RuneCountInString(s)
	ok = !(sp.hasMin && n < sp.min) && !(sp.hasMax && n > sp.max)
	if sp.rx != "" && !regexp.MustCompile(sp.rx).MatchString(s) {
		ok = false
	}
	if sp.enum != nil {
		in := false
		for _, e := range sp.enum {
			if x, is := e.(string); is && x == s {
				in = true
			}
		}
		ok = ok && in
	}
	f, known := fmtOK(sp.format, s)
	if !ok {
		return false, true
	}
	return f, known
}

func (t *T) strSpec() strSpec {
	var sp strSpec
	if t.chance(0.35) {
		sp.hasMin, sp.min = true, t.Intn(5)
	}
	if t.chance(0.35) {
		sp.hasMax, sp.max = true, t.Intn(6)
	}
	if t.chance(0.25) {
		sp.rx = t.pick(patterns...)
	}
	if t.chance(0.3) {
		sp.format = t.pick("date-time", "datetime", "email", "ipv4", "ipv6", "uri", "hostname", "nosuchformat")
	}
	if t.chance(0.25) {
		sp.enum = []interface{}{}
		for i := t.Intn(4); i >= 0; i-- {
			if t.chance(0.2) {
				sp.enum = append(sp.enum, t.jsonValue(0))
			} else {
				sp.enum = append(sp.enum, t.word())
			}
		}
	}
	return sp
}

func (t *T) buildString(sp strSpec) *jsval.StringConstraint {
	c := jsval.String()
	// setters in random order
	fs := []func(){}
	if sp.hasMin {
		fs = append(fs, func() { c.MinLength(sp.min) })
	}
	if sp.hasMax {
		fs = append(fs, func() { c.MaxLength(sp.max) })
	}
	if sp.rx != "" {
		if t.chance(0.5) {
			fs = append(fs, func() { c.RegexpString(sp.rx) })
		} else {
			fs = append(fs, func() { c.Regexp(regexp.MustCompile(sp.rx)) })
		}
	}
	if sp.format != "" {
		fs = append(fs, func() { c.Format(sp.format) })
	}
	if sp.enum != nil {
		fs = append(fs, func() { c.Enum(sp.enum...) })
	}
	t.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	for _, f := range fs {
		f()
	}
	return c
}

func (t *T) strInput(sp strSpec) string {
	if l := fmtSamples[sp.format]; l != nil && t.chance(0.8) {
		return l[t.Intn(len(l))].s
	}
	if sp.enum != nil && t.chance(0.6) {
		if s, ok := sp.enum[t.Intn(len(sp.enum))].(string); ok {
			return s
		}
	}
	if t.chance(0.4) {
		alpha := []rune("abcfo01 é日")
		r := make([]rune, t.Intn(8))
		for i := range r {
			r[i] = alpha[t.Intn(len(alpha))]
		}
		return string(r)
	}
	return t.word()
}

func caseString(t *T) {
	sp := t.strSpec()
	c := t.buildString(sp)
	t.Desc("String %+v", sp)
	for i := 0; i < 6; i++ {
		s := t.strInput(sp)
		want, known := strVerdict(sp, s)
		if !known {
			continue
		}
		if x := sp.enum; x != nil && t.chance(0.02) {
			// a value of another string type is a string as well
			t.Verdict("named string without enum", t.buildString(strSpec{}).Validate(namedString(s)), true)
		}
		switch t.Intn(8) {
		case 0:
			t.Desc("value *string %q", s)
			t.Verdict("pointer", c.Validate(&s), want)
		case 1:
			t.Desc("value namedString %q", s)
			t.Verdict("named type", c.Validate(namedString(s)), want)
		default:
			t.Desc("value %q", s)
			t.Verdict("string", c.Validate(s), want)
		}
	}
	v := t.jsonValue(1)
	if _, ok := v.(string); !ok {
		t.Desc("value %s", show(v))
		t.Verdict("non-string", c.Validate(v), false)
	}
	t.Verdict("int", c.Validate(t.Intn(9)), false)
	t.Verdict("[]byte", c.Validate([]byte("abc")), false)
	var np *string
	t.Verdict("nil *string", c.Validate(np), false)
}

func caseHostname(t *T) {
	c := jsval.String().Format("hostname")
	var s string
	if t.chance(0.3) {
		l := fmtSamples["hostname"]
		s = l[t.Intn(len(l))].s
	}
	for n := t.Intn(4); n > 0; n-- {
		alpha := t.pick("ab", "a-", "a1_", "a.-1", "aZ9_-.", "a.")
		ln := t.Intn(6)
		if t.chance(0.2) {
			ln = 60 + t.Intn(6)
		}
		for i := 0; i < ln; i++ {
			s += string(alpha[t.Intn(len(alpha))])
		}
		if t.chance(0.6) {
			s += "."
		}
	}
	if t.chance(0.15) { // near the length limit
		for len(s) < 250+t.Intn(8) {
			s += t.pick("a", "a", "a", "b.", "c.d")
		}
	}
	if t.chance(0.1) {
		i := t.Intn(len(s) + 1)
		s = s[:i] + string(rune(t.Intn(256))) + s[i:]
	}
	t.Desc("hostname %q", s)
	t.Verdict("hostname", c.Validate(s), hostOK(s))
}

func caseFormats(t *T) {
	for f, l := range fmtSamples {
		for _, x := range l {
			if f == "hostname" {
				t.Want(hostOK(x.s) == x.ok, "oracle: hostname %q", x.s)
			}
		}
	}
	f := t.pick("date-time", "datetime", "email", "ipv4", "ipv6", "uri", "hostname")
	t.Desc("format %s", f)
	c := jsval.String().Format(f)
	for _, x := range fmtSamples[f] {
		t.Desc("value %q", x.s)
		t.Verdict("format "+f, c.Validate(x.s), x.ok)
	}
	u := jsval.String().Format(t.pick("nosuch", "Email", "ip", "regex"))
	t.Verdict("unknown format", u.Validate(t.word()), true)
}

// later settings replace earlier ones and leave the others alone
func caseStringSetters(t *T) {
	a, b := t.strSpec(), t.strSpec()
	c := t.buildString(a)
	m := a
	t.Desc("String %+v then %+v", a, b)
	if b.hasMin {
		c.MinLength(b.min)
		m.hasMin, m.min = true, b.min
	}
	if b.hasMax {
		c.MaxLength(b.max)
		m.hasMax, m.max = true, b.max
	}
	if b.rx != "" {
		c.RegexpString(b.rx)
		m.rx = b.rx
	}
	if b.format != "" {
		c.Format(b.format)
		m.format = b.format
	}
	if b.enum != nil {
		c.Enum(b.enum...)
		m.enum = b.enum
	}
	for i := 0; i < 8; i++ {
		s := t.strInput(m)
		if want, known := strVerdict(m, s); known {
			t.Desc("value %q", s)
			t.Verdict("string", c.Validate(s), want)
		}
	}
}

// ---- numbers

type numSpec struct {
	min, max, mult float64
	hasMin, hasMax bool
	hasMult        bool
	exMin, exMax   bool
	enum           []interface{}
}

func (t *T) numSpec() numSpec {
	var sp numSpec
	if t.chance(0.45) {
		sp.hasMin, sp.min = true, t.number()
	}
	if t.chance(0.45) {
		sp.hasMax, sp.max = true, t.number()
	}
	sp.exMin, sp.exMax = t.chance(0.3), t.chance(0.3)
	if t.chance(0.3) {
		sp.hasMult, sp.mult = true, t.pickF(1, 2, 3, 5, 10, 0.5, 0.25, 1.5, 0.1, 7, -2)
	}
	if t.chance(0.2) {
		sp.enum = []interface{}{}
		for i := t.Intn(4); i >= 0; i-- {
			sp.enum = append(sp.enum, t.number())
		}
	}
	return sp
}

func numVerdict(sp numSpec, f float64) bool {
	if sp.hasMin && (f < sp.min || sp.exMin && f == sp.min) {
		return false
	}
	if sp.hasMax && (f > sp.max || sp.exMax && f == sp.max) {
		return false
	}
	if sp.hasMult && sp.mult != 0 {
		q := new(big.Rat).Quo(new(big.Rat).SetFloat64(f), new(big.Rat).SetFloat64(sp.mult))
		if !q.IsInt() {
			return false
		}
	}
	if sp.enum != nil {
		for _, e := range sp.enum {
			if x, ok := e.(float64); ok && x == f {
				return true
			}
		}
		return false
	}
	return true
}

type numLike interface {
	Validate(interface{}) error
}

func (t *T) setNumber(c *jsval.NumberConstraint, sp numSpec) {
	fs := []func(){}
	if sp.hasMin {
		fs = append(fs, func() { c.Minimum(sp.min) })
	}
	if sp.hasMax {
		fs = append(fs, func() { c.Maximum(sp.max) })
	}
	if sp.exMin || t.chance(0.2) {
		fs = append(fs, func() { c.ExclusiveMinimum(sp.exMin) })
	}
	if sp.exMax || t.chance(0.2) {
		fs = append(fs, func() { c.ExclusiveMaximum(sp.exMax) })
	}
	if sp.hasMult {
		fs = append(fs, func() { c.MultipleOf(sp.mult) })
	}
	if sp.enum != nil {
		fs = append(fs, func() { c.Enum(sp.enum...) })
	}
	t.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	for _, f := range fs {
		f()
	}
}

func (t *T) setInteger(c *jsval.IntegerConstraint, sp numSpec) {
	fs := []func(){}
	if sp.hasMin {
		fs = append(fs, func() { c.Minimum(sp.min) })
	}
	if sp.hasMax {
		fs = append(fs, func() { c.Maximum(sp.max) })
	}
	if sp.exMin || t.chance(0.2) {
		fs = append(fs, func() { c.ExclusiveMinimum(sp.exMin) })
	}
	if sp.exMax || t.chance(0.2) {
		fs = append(fs, func() { c.ExclusiveMaximum(sp.exMax) })
	}
	if sp.hasMult {
		fs = append(fs, func() { c.MultipleOf(sp.mult) })
	}
	if sp.enum != nil {
		fs = append(fs, func() { c.Enum(sp.enum...) })
	}
	t.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	for _, f := range fs {
		f()
	}
}

func (t *T) numInput(sp numSpec) float64 {
	switch {
	case sp.hasMin && t.chance(0.3):
		return sp.min + t.pickF(0, 0, 1, -1, 0.5, -0.5, 1e-3, -1e-3)
	case sp.hasMax && t.chance(0.3):
		return sp.max + t.pickF(0, 0, 1, -1, 0.5, -0.5, 1e-3, -1e-3)
	case sp.hasMult && t.chance(0.4):
		return sp.mult * float64(t.Intn(20)-10)
	case len(sp.enum) > 0 && t.chance(0.6):
		return sp.enum[t.Intn(len(sp.enum))].(float64)
	}
	return t.number()
}

func caseNumber(t *T) {
	sp := t.numSpec()
	c := jsval.Number()
	t.setNumber(c, sp)
	t.Desc("Number %+v", sp)
	for i := 0; i < 6; i++ {
		f := t.numInput(sp)
		switch t.Intn(8) {
		case 0:
			t.Desc("value *float64 %v", f)
			t.Verdict("pointer", c.Validate(&f), numVerdict(sp, f))
		case 1:
			f32 := float32(f)
			t.Desc("value float32 %v", f32)
			t.Verdict("float32", c.Validate(f32), numVerdict(sp, float64(f32)))
		case 2:
			t.Desc("value namedFloat %v", f)
			t.Verdict("named", c.Validate(namedFloat(f)), numVerdict(sp, f))
		default:
			t.Desc("value %v", f)
			t.Verdict("float64", c.Validate(f), numVerdict(sp, f))
		}
	}
	v := t.jsonValue(1)
	if _, ok := v.(float64); !ok {
		t.Desc("value %s", show(v))
		t.Verdict("non-number", c.Validate(v), false)
	}
	var np *float64
	t.Verdict("nil *float64", c.Validate(np), false)
	if t.chance(0.3) {
		b := t.numSpec()
		t.Desc("then %+v", b)
		if b.hasMin {
			c.Minimum(b.min)
			sp.hasMin, sp.min = true, b.min
		}
		if b.hasMax {
			c.Maximum(b.max)
			sp.hasMax, sp.max = true, b.max
		}
		c.ExclusiveMinimum(b.exMin).ExclusiveMaximum(b.exMax)
		sp.exMin, sp.exMax = b.exMin, b.exMax
		if b.hasMult {
			c.MultipleOf(b.mult)
			sp.hasMult, sp.mult = true, b.mult
		}
		if b.enum != nil {
			c.Enum(b.enum...)
			sp.enum = b.enum
		}
		for i := 0; i < 4; i++ {
			f := t.numInput(sp)
			t.Desc("value %v", f)
			t.Verdict("float64", c.Validate(f), numVerdict(sp, f))
		}
	}
}

func isIntegral(f float64) bool { return new(big.Rat).SetFloat64(f).IsInt() }

func caseInteger(t *T) {
	sp := t.numSpec()
	c := jsval.Integer()
	t.setInteger(c, sp)
	t.Desc("Integer %+v", sp)
	iv := func(f float64) bool { return isIntegral(f) && numVerdict(sp, f) }
	for i := 0; i < 6; i++ {
		f := t.numInput(sp)
		if t.chance(0.5) {
			f = float64(int64(f))
		}
		n := int64(f)
		if n > 100 || n < -100 {
			n = n % 100
		}
		switch t.Intn(12) {
		case 0:
			x := int(n)
			t.Desc("value int %d", x)
			t.Verdict("int", c.Validate(x), iv(float64(n)))
		case 1:
			x := int8(n)
			t.Desc("value int8 %d", x)
			t.Verdict("int8", c.Validate(x), iv(float64(n)))
		case 2:
			t.Desc("value int16 %d", n)
			t.Verdict("named int16", c.Validate(namedInt(n)), iv(float64(n)))
		case 3:
			t.Desc("value int32 %d", n)
			t.Verdict("int32", c.Validate(int32(n)), iv(float64(n)))
		case 4:
			t.Desc("value *int64 %d", n)
			t.Verdict("*int64", c.Validate(&n), iv(float64(n)))
		case 5:
			if n < 0 {
				n = -n
			}
			u := uint64(n)
			t.Desc("value uint64 %d", n)
			t.Verdict("uint64", c.Validate(u), iv(float64(n)))
		case 6:
			if n < 0 {
				n = -n
			}
			t.Desc("value uint8 %d", n)
			t.Verdict("uint8", c.Validate(uint8(n)), iv(float64(n)))
		case 7:
			if n < 0 {
				n = -n
			}
			t.Desc("value uint %d", n)
			t.Verdict("uint", c.Validate(uint(n)), iv(float64(n)))
		case 8:
			f32 := float32(f)
			t.Desc("value float32 %v", f32)
			t.Verdict("float32", c.Validate(f32), iv(float64(f32)))
		default:
			t.Desc("value %v", f)
			t.Verdict("float64", c.Validate(f), iv(f))
		}
	}
	v := t.jsonValue(1)
	if _, ok := v.(float64); !ok {
		t.Desc("value %s", show(v))
		t.Verdict("non-number", c.Validate(v), false)
	}
	var np *int
	t.Verdict("nil *int", c.Validate(np), false)
	if sp.enum == nil && !sp.hasMin && !sp.hasMax && !sp.hasMult {
		for _, x := range []interface{}{int16(3), uint16(3), uint32(3), uintptr(3), int64(-1 << 62), uint64(1 << 63)} {
			t.Desc("value %s", show(x))
			t.Verdict("integer type", c.Validate(x), true)
		}
	}
}

// ---- boolean, null, empty, enum, not

func caseSimple(t *T) {
	v := t.jsonValue(1)
	t.Desc("value %s", show(v))
	t.Verdict("empty", jsval.EmptyConstraint.Validate(v), true)
	t.Verdict("null", jsval.NullConstraint.Validate(v), v == nil)
	_, isb := v.(bool)
	t.Verdict("boolean", jsval.Boolean().Validate(v), isb)
	t.Verdict("boolean named", jsval.Boolean().Validate(namedBool(true)), true)
	t.Verdict("boolean int", jsval.Boolean().Validate(1), false)
	var np *int
	var nm map[string]int
	var ns []int
	for _, x := range []interface{}{np, nm, ns, (*string)(nil), (func())(nil), (chan int)(nil)} {
		t.Desc("null of %T", x)
		t.Verdict("nil of a type", jsval.NullConstraint.Validate(x), true)
	}
	n := 3
	for _, x := range []interface{}{&n, map[string]int{}, []int{}, 0, "", false, struct{}{}, 0.0} {
		t.Desc("null of %T", x)
		t.Verdict("not nil", jsval.NullConstraint.Validate(x), false)
	}
	var l []interface{}
	for i := t.Intn(4); i > 0; i-- {
		l = append(l, t.jsonValue(0))
	}
	if t.chance(0.3) {
		l = append(l, 1, int64(1), "1")
	}
	c := jsval.Enum(l...)
	if t.chance(0.4) {
		l2 := append([]interface{}{}, l...)
		l2 = append(l2, t.jsonValue(0))
		if len(l2) > 2 && t.chance(0.5) {
			l2 = l2[1:]
		}
		c.Enum(l2...)
		l = l2
	}
	t.Desc("enum %#v", l)
	cands := append([]interface{}{t.jsonValue(0), t.jsonValue(0), 1, int64(1), "1", 1.0, nil, true}, l...)
	for _, x := range cands {
		in := false
		for _, e := range l {
			if e == x {
				in = true
			}
		}
		t.Desc("value %s", show(x))
		t.Verdict("enum", c.Validate(x), in)
	}
	for _, c := range []jsval.Constraint{jsval.EmptyConstraint, jsval.NullConstraint, c, jsval.Any(), jsval.All(), jsval.OneOf(), jsval.Not(jsval.EmptyConstraint)} {
		t.Want(!c.HasDefault() && c.DefaultValue() == nil, "%T has a default", c)
	}
}

// ---- combinators

type ctree struct {
	kind string
	kids []*ctree
	val  interface{}
}

func (t *T) ctree(depth int) *ctree {
	if depth == 0 || t.chance(0.25) {
		return &ctree{kind: t.pick("yes", "no", "is", "string", "integer"), val: t.Intn(3)}
	}
	x := &ctree{kind: t.pick("any", "all", "oneof", "not")}
	n := t.Intn(4)
	if t.chance(0.1) {
		n += 3
	}
	if x.kind == "not" {
		n = 1
	}
	for i := 0; i < n; i++ {
		x.kids = append(x.kids, t.ctree(depth-1))
	}
	return x
}

func (x *ctree) verdict(v interface{}) bool {
	n := 0
	for _, k := range x.kids {
		if k.verdict(v) {
			n++
		}
	}
	switch x.kind {
	case "yes":
		return true
	case "no":
		return false
	case "is":
		return v == x.val
	case "string":
		_, ok := v.(string)
		return ok
	case "integer":
		_, ok := v.(int)
		return ok
	case "any":
		return n > 0
	case "all":
		return n == len(x.kids)
	case "oneof":
		return n == 1
	case "not":
		return n == 0
	}
	return false
}

func (x *ctree) String() string {
	if len(x.kids) == 0 && x.val != nil {
		if x.kind == "is" {
			return "is" + string(rune('0'+x.val.(int)))
		}
		return x.kind
	}
	s := x.kind + "("
	for i, k := range x.kids {
		if i > 0 {
			s += ","
		}
		s += k.String()
	}
	return s + ")"
}

func (t *T) buildC(x *ctree) jsval.Constraint {
	red := func(c jsval.Constraint, r func() jsval.Constraint) jsval.Constraint {
		if t.chance(0.4) {
			return r()
		}
		return c
	}
	switch x.kind {
	case "any":
		c := jsval.Any()
		for _, k := range x.kids {
			c.Add(t.buildC(k))
		}
		return red(c, c.Reduce)
	case "all":
		c := jsval.All()
		for _, k := range x.kids {
			c.Add(t.buildC(k))
		}
		return red(c, c.Reduce)
	case "oneof":
		c := jsval.OneOf()
		for _, k := range x.kids {
			c.Add(t.buildC(k))
		}
		return red(c, c.Reduce)
	case "not":
		return jsval.Not(t.buildC(x.kids[0]))
	case "string":
		return jsval.String()
	case "integer":
		return jsval.Integer()
	}
	return &stub{name: x.kind, ok: x.verdict}
}

func caseCombinators(t *T) {
	x := t.ctree(3)
	c := t.buildC(x)
	t.Desc("%s", x)
	for _, v := range []interface{}{0, 1, 2, "a", nil} {
		t.Desc("value %v", v)
		t.Verdict("combinator", c.Validate(v), x.verdict(v))
		t.Verdict("combinator, again", c.Validate(v), x.verdict(v))
	}
	// children are kept in order
	a, b := jsval.String(), jsval.Integer()
	l := jsval.Any().Add(a).Add(b).Constraints()
	t.Want(len(l) == 2 && l[0] == jsval.Constraint(a) && l[1] == jsval.Constraint(b), "Constraints() lost a child")
	t.Want(jsval.All().Add(a).Reduce() == jsval.Constraint(a), "Reduce of a single child is the child")
}

// ---- arrays

func caseArray(t *T) {
	c := jsval.Array()
	type spec struct {
		Min, Max, Tuple int
		HasMin, HasMax  bool
		Unique, Items   bool
		Additional      string
	}
	var sp spec
	if t.chance(0.3) {
		sp.HasMin, sp.Min = true, t.Intn(4)
		c.MinItems(sp.Min)
	}
	if t.chance(0.3) {
		sp.HasMax, sp.Max = true, t.Intn(5)
		c.MaxItems(sp.Max)
	}
	if t.chance(0.35) {
		sp.Unique = true
		c.UniqueItems(true)
	}
	even := func(v interface{}) bool { n, ok := v.(int); return ok && n%2 == 0 }
	small := func(v interface{}) bool { n, ok := v.(int); return ok && n < 4 }
	if t.chance(0.3) {
		sp.Items = true
		c.Items(&stub{ok: even})
	}
	var pos []jsval.Constraint
	var posf []func(interface{}) bool
	if t.chance(0.5) {
		sp.Tuple = t.Intn(4)
		for i := 0; i < sp.Tuple; i++ {
			f := even
			if t.chance(0.3) {
				f = accept
			}
			if t.chance(0.2) {
				f = small
			}
			posf = append(posf, f)
			pos = append(pos, &stub{ok: f})
		}
		c.PositionalItems(pos)
	}
	sp.Additional = "any"
	switch t.Intn(3) {
	case 0:
		sp.Additional = "none"
		c.AdditionalItems(nil)
	case 1:
		sp.Additional = "small"
		c.AdditionalItems(&stub{ok: small})
	}
	t.Desc("Array %+v", sp)
	for r := 0; r < 5; r++ {
		n := t.Intn(6)
		in := make([]interface{}, n)
		ints := make([]int, n)
		for i := range in {
			k := t.Intn(8)
			if t.chance(0.5) {
				k = 2 * t.Intn(5)
			}
			if i > 0 && t.chance(0.05) {
				k = ints[i-1]
			}
			in[i], ints[i] = k, k
		}
		want := !(sp.HasMin && n < sp.Min) && !(sp.HasMax && n > sp.Max)
		if sp.Unique {
			seen := map[int]bool{}
			for _, k := range ints {
				if seen[k] {
					want = false
				}
				seen[k] = true
			}
		}
		for i, x := range in {
			switch {
			case sp.Items:
				want = want && even(x)
			case i < sp.Tuple:
				want = want && posf[i](x)
			case sp.Tuple == 0:
			case sp.Additional == "none":
				want = false
			case sp.Additional == "small":
				want = want && small(x)
			}
		}
		t.Desc("value %v", ints)
		if t.chance(0.3) {
			t.Verdict("[]int", c.Validate(ints), want)
		} else {
			t.Verdict("array", c.Validate(in), want)
		}
	}
	v := t.jsonValue(1)
	if _, ok := v.([]interface{}); !ok {
		t.Desc("value %s", show(v))
		t.Verdict("non-array", c.Validate(v), false)
	}
	// strings and mixed values
	if sp.Unique && sp.Tuple == 0 && !sp.Items && !sp.HasMin && !sp.HasMax {
		t.Verdict("unique strings", c.Validate([]interface{}{"a", "b", "ab", ""}), true)
		t.Verdict("repeated string", c.Validate([]interface{}{"a", "b", "c", "a"}), false)
		t.Verdict("unique floats", c.Validate([]interface{}{1.0, 1.5, -1.0}), true)
	}
}

// ---- defaults recorded by the setters

func caseScalarDefaults(t *T) {
	v := t.jsonValue(1)
	if t.chance(0.2) {
		v = nil
	}
	t.Desc("default %s", show(v))
	for _, c := range []jsval.Constraint{jsval.String(), jsval.Number(), jsval.Integer(), jsval.Boolean(), jsval.Array(), jsval.Object()} {
		t.Want(!c.HasDefault(), "%T has a default before one is set", c)
	}
	for _, c := range []jsval.Constraint{jsval.String().Default(v), jsval.Number().Default(v), jsval.Integer().Default(v), jsval.Boolean().Default(v)} {
		t.Want(c.HasDefault(), "%T has no default after Default", c)
		t.Want(show(c.DefaultValue()) == show(v), "%T: default %s, want %s", c, show(c.DefaultValue()), show(v))
	}
	w := t.jsonValue(0)
	c := jsval.String().Default(v).Default(w).MinLength(1).Enum("a")
	t.Want(c.HasDefault() && show(c.DefaultValue()) == show(w), "the last default counts")
}

// encoding/json as abstract, mutually inverse functions on the Maybe payloads
uf jsonmok(any) bool
uf jsonbytes(any) [int]byte
uf jsonlen(any) int
extern json.Marshal(v) (b, e)
  ensures (e == nil) == jsonmok(v)
  ensures e == nil ==> elems(b) == jsonbytes(v) && len(b) == jsonlen(v)
  modifies nothing
uf utf8valid(string) bool
uf jsonok_bool([int]byte, int) bool
uf jsonval_bool([int]byte, int, bool) bool
axiom json_rt_bool: forall x bool, o bool {jsonval_bool(jsonbytes(box(x, bool)), jsonlen(box(x, bool)), o)} :: jsonmok(box(x, bool)) && jsonok_bool(jsonbytes(box(x, bool)), jsonlen(box(x, bool))) && jsonval_bool(jsonbytes(box(x, bool)), jsonlen(box(x, bool)), o) == x
axiom json_rtok_bool: forall x bool {jsonbytes(box(x, bool))} :: jsonmok(box(x, bool)) && jsonok_bool(jsonbytes(box(x, bool)), jsonlen(box(x, bool)))
uf jsonok_float64([int]byte, int) bool
uf jsonval_float64([int]byte, int, float64) float64
axiom json_rt_float64: forall x float64, o float64 {jsonval_float64(jsonbytes(box(x, float64)), jsonlen(box(x, float64)), o)} :: !isnan(x) && !isinf(x) ==> jsonmok(box(x, float64)) && jsonok_float64(jsonbytes(box(x, float64)), jsonlen(box(x, float64))) && jsonval_float64(jsonbytes(box(x, float64)), jsonlen(box(x, float64)), o) == x
axiom json_rtok_float64: forall x float64 {jsonbytes(box(x, float64))} :: !isnan(x) && !isinf(x) ==> jsonmok(box(x, float64)) && jsonok_float64(jsonbytes(box(x, float64)), jsonlen(box(x, float64)))
uf jsonok_int64([int]byte, int) bool
uf jsonval_int64([int]byte, int, int64) int64
axiom json_rt_int64: forall x int64, o int64 {jsonval_int64(jsonbytes(box(x, int64)), jsonlen(box(x, int64)), o)} :: jsonmok(box(x, int64)) && jsonok_int64(jsonbytes(box(x, int64)), jsonlen(box(x, int64))) && jsonval_int64(jsonbytes(box(x, int64)), jsonlen(box(x, int64)), o) == x
axiom json_rtok_int64: forall x int64 {jsonbytes(box(x, int64))} :: jsonmok(box(x, int64)) && jsonok_int64(jsonbytes(box(x, int64)), jsonlen(box(x, int64)))
uf jsonok_string([int]byte, int) bool
uf jsonval_string([int]byte, int, string) string
axiom json_rt_string: forall x string, o string {jsonval_string(jsonbytes(box(x, string)), jsonlen(box(x, string)), o)} :: utf8valid(x) ==> jsonmok(box(x, string)) && jsonok_string(jsonbytes(box(x, string)), jsonlen(box(x, string))) && jsonval_string(jsonbytes(box(x, string)), jsonlen(box(x, string)), o) == x
axiom json_rtok_string: forall x string {jsonbytes(box(x, string))} :: utf8valid(x) ==> jsonmok(box(x, string)) && jsonok_string(jsonbytes(box(x, string)), jsonlen(box(x, string)))
uf jsonok_uint64([int]byte, int) bool
uf jsonval_uint64([int]byte, int, uint64) uint64
axiom json_rt_uint64: forall x uint64, o uint64 {jsonval_uint64(jsonbytes(box(x, uint64)), jsonlen(box(x, uint64)), o)} :: jsonmok(box(x, uint64)) && jsonok_uint64(jsonbytes(box(x, uint64)), jsonlen(box(x, uint64))) && jsonval_uint64(jsonbytes(box(x, uint64)), jsonlen(box(x, uint64)), o) == x
axiom json_rtok_uint64: forall x uint64 {jsonbytes(box(x, uint64))} :: jsonmok(box(x, uint64)) && jsonok_uint64(jsonbytes(box(x, uint64)), jsonlen(box(x, uint64)))

uf timefmt(time.Time, string) string
uf timesec(time.Time) time.Time
uf timerfc(time.Time) bool
extern (time.Time).Format(t, layout) (s)
  returns timefmt(t, layout)
axiom time_rt: forall t time.Time {timefmt(t, "2006-01-02T15:04:05Z07:00")} :: timerfc(t) ==> timeok("2006-01-02T15:04:05Z07:00", timefmt(t, "2006-01-02T15:04:05Z07:00")) && timeval("2006-01-02T15:04:05Z07:00", timefmt(t, "2006-01-02T15:04:05Z07:00")) == timesec(t) && utf8valid(timefmt(t, "2006-01-02T15:04:05Z07:00"))

func (*jsval.ValidFlag).Reset(v)
  modifies deref(v)
  ensures [C09] reset: !deref(v)
func (jsval.ValidFlag).Valid(v) (b)
  modifies nothing
  ensures [C09] valid: b == v

func (jsval.MaybeBool).Value(v) (x)
  modifies nothing
  ensures [C09] value: x == box(v.Bool, bool)
func (jsval.MaybeBool).MarshalJSON(v) (b, e)
  modifies nothing
  ensures [C09] enc: (e == nil) == jsonmok(box(v.Bool, bool)) && (e == nil ==> elems(b) == jsonbytes(box(v.Bool, bool)) && len(b) == jsonlen(box(v.Bool, bool)))
func (*jsval.MaybeBool).UnmarshalJSON(v, data) (e)
  modifies v.ValidFlag, v.Bool
  ensures [C09] dec: (e == nil) == jsonok_bool(elems(data), len(data))
  ensures [C09] decval: e == nil ==> v.ValidFlag && v.Bool == jsonval_bool(elems(data), len(data), zero(bool))
  ensures [C09] decerr: e != nil ==> unchanged(v.ValidFlag) && unchanged(v.Bool)

func (jsval.MaybeFloat).Value(v) (x)
  modifies nothing
  ensures [C09] value: x == box(v.Float, float64)
func (jsval.MaybeFloat).MarshalJSON(v) (b, e)
  modifies nothing
  ensures [C09] enc: (e == nil) == jsonmok(box(v.Float, float64)) && (e == nil ==> elems(b) == jsonbytes(box(v.Float, float64)) && len(b) == jsonlen(box(v.Float, float64)))
func (*jsval.MaybeFloat).UnmarshalJSON(v, data) (e)
  modifies v.ValidFlag, v.Float
  ensures [C09] dec: (e == nil) == jsonok_float64(elems(data), len(data))
  ensures [C09] decval: e == nil ==> v.ValidFlag && v.Float == jsonval_float64(elems(data), len(data), zero(float64))
  ensures [C09] decerr: e != nil ==> unchanged(v.ValidFlag) && unchanged(v.Float)

func (jsval.MaybeInt).Value(v) (x)
  modifies nothing
  ensures [C09] value: x == box(v.Int, int64)
func (jsval.MaybeInt).MarshalJSON(v) (b, e)
  modifies nothing
  ensures [C09] enc: (e == nil) == jsonmok(box(v.Int, int64)) && (e == nil ==> elems(b) == jsonbytes(box(v.Int, int64)) && len(b) == jsonlen(box(v.Int, int64)))
func (*jsval.MaybeInt).UnmarshalJSON(v, data) (e)
  modifies v.ValidFlag, v.Int
  ensures [C09] dec: (e == nil) == jsonok_int64(elems(data), len(data))
  ensures [C09] decval: e == nil ==> v.ValidFlag && v.Int == jsonval_int64(elems(data), len(data), zero(int64))
  ensures [C09] decerr: e != nil ==> unchanged(v.ValidFlag) && unchanged(v.Int)

func (jsval.MaybeString).Value(v) (x)
  modifies nothing
  ensures [C09] value: x == box(v.String, string)
func (jsval.MaybeString).MarshalJSON(v) (b, e)
  modifies nothing
  ensures [C09] enc: (e == nil) == jsonmok(box(v.String, string)) && (e == nil ==> elems(b) == jsonbytes(box(v.String, string)) && len(b) == jsonlen(box(v.String, string)))
func (*jsval.MaybeString).UnmarshalJSON(v, data) (e)
  modifies v.ValidFlag, v.String
  ensures [C09] dec: (e == nil) == jsonok_string(elems(data), len(data))
  ensures [C09] decval: e == nil ==> v.ValidFlag && v.String == jsonval_string(elems(data), len(data), zero(string))
  ensures [C09] decerr: e != nil ==> unchanged(v.ValidFlag) && unchanged(v.String)

func (jsval.MaybeUint).Value(v) (x)
  modifies nothing
  ensures [C09] value: x == box(v.Uint, uint64)
func (jsval.MaybeUint).MarshalJSON(v) (b, e)
  modifies nothing
  ensures [C09] enc: (e == nil) == jsonmok(box(v.Uint, uint64)) && (e == nil ==> elems(b) == jsonbytes(box(v.Uint, uint64)) && len(b) == jsonlen(box(v.Uint, uint64)))
func (*jsval.MaybeUint).UnmarshalJSON(v, data) (e)
  modifies v.ValidFlag, v.Uint
  ensures [C09] dec: (e == nil) == jsonok_uint64(elems(data), len(data))
  ensures [C09] decval: e == nil ==> v.ValidFlag && v.Uint == jsonval_uint64(elems(data), len(data), zero(uint64))
  ensures [C09] decerr: e != nil ==> unchanged(v.ValidFlag) && unchanged(v.Uint)

func (*jsval.MaybeBool).Set(v, x) (e)
  modifies v.ValidFlag, v.Bool
  ensures [C09] set-bool: istype(x, bool) ==> e == nil && v.ValidFlag && v.Bool == unbox(x, bool)
  ensures [C09] other: !istype(x, bool) ==> e != nil
  ensures [C09] err: e != nil ==> unchanged(v.ValidFlag) && unchanged(v.Bool)

func (*jsval.MaybeFloat).Set(v, x) (e)
  modifies v.ValidFlag, v.Float
  ensures [C09] set-float64: istype(x, float64) ==> e == nil && v.ValidFlag && v.Float == unbox(x, float64)
  ensures [C09] set-float32: istype(x, float32) ==> e == nil && v.ValidFlag && v.Float == f32to64(unbox(x, float32))
  ensures [C09] other: !istype(x, float64) && !istype(x, float32) ==> e != nil
  ensures [C09] err: e != nil ==> unchanged(v.ValidFlag) && unchanged(v.Float)

func (*jsval.MaybeInt).Set(v, x) (e)
  modifies v.ValidFlag, v.Int
  ensures [C09] set-int: istype(x, int) ==> e == nil && v.ValidFlag && v.Int == unbox(x, int)
  ensures [C09] set-int8: istype(x, int8) ==> e == nil && v.ValidFlag && v.Int == unbox(x, int8)
  ensures [C09] set-int16: istype(x, int16) ==> e == nil && v.ValidFlag && v.Int == unbox(x, int16)
  ensures [C09] set-int32: istype(x, int32) ==> e == nil && v.ValidFlag && v.Int == unbox(x, int32)
  ensures [C09] set-int64: istype(x, int64) ==> e == nil && v.ValidFlag && v.Int == unbox(x, int64)
  ensures [C09] set-float64: istype(x, float64) ==> e == nil && v.ValidFlag && v.Int == f2i(unbox(x, float64), int64)
  ensures [C09] other: !istype(x, int) && !istype(x, int8) && !istype(x, int16) && !istype(x, int32) && !istype(x, int64) && !istype(x, float64) ==> e != nil
  ensures [C09] err: e != nil ==> unchanged(v.ValidFlag) && unchanged(v.Int)

func (*jsval.MaybeString).Set(v, x) (e)
  modifies v.ValidFlag, v.String
  ensures [C09] set-string: istype(x, string) ==> e == nil && v.ValidFlag && v.String == unbox(x, string)
  ensures [C09] other: !istype(x, string) ==> e != nil
  ensures [C09] err: e != nil ==> unchanged(v.ValidFlag) && unchanged(v.String)

func (*jsval.MaybeUint).Set(v, x) (e)
  modifies v.ValidFlag, v.Uint
  ensures [C09] set-uint: istype(x, uint) ==> e == nil && v.ValidFlag && v.Uint == unbox(x, uint)
  ensures [C09] set-uint8: istype(x, uint8) ==> e == nil && v.ValidFlag && v.Uint == unbox(x, uint8)
  ensures [C09] set-uint16: istype(x, uint16) ==> e == nil && v.ValidFlag && v.Uint == unbox(x, uint16)
  ensures [C09] set-uint32: istype(x, uint32) ==> e == nil && v.ValidFlag && v.Uint == unbox(x, uint32)
  ensures [C09] set-uint64: istype(x, uint64) ==> e == nil && v.ValidFlag && v.Uint == unbox(x, uint64)
  ensures [C09] set-float64: istype(x, float64) ==> e == nil && v.ValidFlag && v.Uint == f2i(unbox(x, float64), uint64)
  ensures [C09] other: !istype(x, uint) && !istype(x, uint8) && !istype(x, uint16) && !istype(x, uint32) && !istype(x, uint64) && !istype(x, float64) ==> e != nil
  ensures [C09] err: e != nil ==> unchanged(v.ValidFlag) && unchanged(v.Uint)

func (jsval.MaybeTime).Value(v) (x)
  modifies nothing
  ensures [C09] value: x == box(v.Time, time.Time)
func (*jsval.MaybeTime).Set(v, x) (e)
  modifies v.ValidFlag, v.Time
  ensures [C09] set-time: istype(x, time.Time) ==> e == nil && v.ValidFlag && v.Time == unbox(x, time.Time)
  ensures [C09] set-string: istype(x, string) ==> (e == nil) == timeok("2006-01-02T15:04:05Z07:00", unbox(x, string))
  ensures [C09] set-stringval: istype(x, string) && e == nil ==> v.ValidFlag && v.Time == timeval("2006-01-02T15:04:05Z07:00", unbox(x, string))
  ensures [C09] other: !istype(x, time.Time) && !istype(x, string) ==> e != nil
  ensures [C09] err: e != nil ==> unchanged(v.ValidFlag) && unchanged(v.Time)
func (jsval.MaybeTime).MarshalJSON(v) (b, e)
  modifies nothing
  ensures [C09] enc: (e == nil) == jsonmok(box(timefmt(v.Time, "2006-01-02T15:04:05Z07:00"), string)) && (e == nil ==> elems(b) == jsonbytes(box(timefmt(v.Time, "2006-01-02T15:04:05Z07:00"), string)) && len(b) == jsonlen(box(timefmt(v.Time, "2006-01-02T15:04:05Z07:00"), string)))
define timedec(data) = jsonval_string(elems(data), len(data), "")
func (*jsval.MaybeTime).UnmarshalJSON(v, data) (e)
  modifies v.ValidFlag, v.Time
  ensures [C09] dec: (e == nil) == (jsonok_string(elems(data), len(data)) && timeok("2006-01-02T15:04:05Z07:00", timedec(data)))
  ensures [C09] decval: e == nil ==> v.ValidFlag && v.Time == timeval("2006-01-02T15:04:05Z07:00", timedec(data))
  ensures [C09] decerr: e != nil ==> unchanged(v.ValidFlag) && unchanged(v.Time)

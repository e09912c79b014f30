package props

import (
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/wujiu2020/strip"
)

type argCase struct {
	name                                            string
	act1, act2, act3, extra, all, all2, named, rest interface{}
	zero                                            interface{}
	want                                            func(s string) interface{}
	restOf                                          func(s string, none bool) interface{}
	equal                                           func(got, want interface{}) bool
}

type myInt int16
type myStr string
type myBool bool
type myStrs []string
type myMap map[string]int
type plainStruct struct{ A int }
type someIface interface{ M() }

// either: any of the values is acceptable
type either []interface{}

func deepEq(got, want interface{}) bool {
	if e, ok := want.(either); ok {
		for _, w := range e {
			if deepEq(got, w) {
				return true
			}
		}
		return false
	}
	if f, ok := want.(float64); ok {
		if g, ok := got.(float64); ok && math.IsNaN(f) && math.IsNaN(g) {
			return true
		}
	}
	if f, ok := want.(float32); ok {
		if g, ok := got.(float32); ok && f != f && g != g {
			return true
		}
	}
	return reflect.DeepEqual(got, want)
}

func mk[T any](name string, want func(s string) interface{}) argCase {
	var z T
	return argCase{
		name: name,
		act1: act1[T]{}, act2: act2[T]{}, act3: act3[T]{}, extra: extraAct[T]{}, all: allAct[T]{}, all2: &allAct2[T]{}, named: namedAct[T]{}, rest: restAct[T]{},
		restOf: func(s string, none bool) interface{} {
			switch interface{}([]T(nil)).(type) {
			case []string:
				if none {
					return []string(nil)
				}
				return splitStrs(s)
			case []byte:
				if none {
					return []byte(nil)
				}
				return []byte(s)
			}
			return []T(nil)
		},
		zero: z, want: want, equal: deepEq,
	}
}

func intOf(bits int) func(s string) (int64, bool) {
	return func(s string) (int64, bool) {
		v, err := strconv.ParseInt(s, 10, bits)
		return v, err == nil
	}
}

func wantInt[T int | int8 | int16 | int32 | int64 | myInt](bits int) func(string) interface{} {
	return func(s string) interface{} {
		v, err := strconv.ParseInt(s, 10, bits)
		if err != nil {
			return T(0)
		}
		return T(v)
	}
}

func wantUint[T uint | uint8 | uint16 | uint32 | uint64](bits int) func(string) interface{} {
	return func(s string) interface{} {
		v, err := strconv.ParseUint(s, 10, bits)
		if err != nil {
			return T(0)
		}
		return T(v)
	}
}

func boolOf(s string) bool {
	if s == "on" {
		return true
	}
	b, err := strconv.ParseBool(s)
	return err == nil && b
}

func splitStrs(s string) []string {
	out := []string{}
	for _, e := range strings.Split(s, ",") {
		if e = strings.TrimSpace(e); e != "" {
			out = append(out, e)
		}
	}
	return out
}

func ptr[T any](v T) *T { return &v }

var argCases = []argCase{
	mk[string]("string", func(s string) interface{} { return s }),
	mk[myStr]("named string", func(s string) interface{} { return myStr(s) }),
	mk[bool]("bool", func(s string) interface{} { return boolOf(s) }),
	mk[myBool]("named bool", func(s string) interface{} { return myBool(boolOf(s)) }),
	mk[int]("int", wantInt[int](64)),
	mk[int8]("int8", wantInt[int8](8)),
	mk[int16]("int16", wantInt[int16](16)),
	mk[int32]("int32", wantInt[int32](32)),
	mk[int64]("int64", wantInt[int64](64)),
	mk[myInt]("named int16", wantInt[myInt](16)),
	mk[uint]("uint", wantUint[uint](64)),
	mk[uint8]("uint8", wantUint[uint8](8)),
	mk[uint16]("uint16", wantUint[uint16](16)),
	mk[uint32]("uint32", wantUint[uint32](32)),
	mk[uint64]("uint64", wantUint[uint64](64)),
	mk[float32]("float32", func(s string) interface{} {
		v, err := strconv.ParseFloat(s, 32)
		if err != nil {
			return float32(0)
		}
		return float32(v)
	}),
	mk[float64]("float64", func(s string) interface{} {
		v, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return float64(0)
		}
		return v
	}),
	mk[[]byte]("[]byte", func(s string) interface{} { return []byte(s) }),
	mk[[]string]("[]string", func(s string) interface{} { return splitStrs(s) }),
	mk[myStrs]("named []string", func(s string) interface{} { return myStrs(splitStrs(s)) }),
	mk[*string]("*string", func(s string) interface{} { return ptr(s) }),
	mk[*int]("*int", func(s string) interface{} {
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			return either{(*int)(nil), ptr(0)}
		}
		return ptr(int(v))
	}),
	// types that text does not convert to: the zero value
	mk[[]int]("[]int", func(s string) interface{} { return []int(nil) }),
	mk[plainStruct]("struct", func(s string) interface{} { return plainStruct{} }),
	mk[*plainStruct]("*struct", func(s string) interface{} { return (*plainStruct)(nil) }),
	mk[myMap]("map", func(s string) interface{} { return myMap(nil) }),
	mk[time.Time]("time", func(s string) interface{} { return time.Time{} }),
	mk[func()]("func", func(s string) interface{} { return nil }),
	mk[chan int]("chan", func(s string) interface{} { return (chan int)(nil) }),
	mk[interface{}]("interface{}", func(s string) interface{} { return nil }),
	mk[someIface]("interface", func(s string) interface{} { return nil }),
}

func init() {
	for i := range argCases {
		if argCases[i].name == "func" {
			argCases[i].zero = nil
			argCases[i].equal = func(got, want interface{}) bool {
				f, ok := got.(func())
				return ok && f == nil
			}
		}
	}
}

var argValues = []string{
	"0", "1", "-1", "+1", "01", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "65535", "65536",
	"2147483647", "2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
	"-9223372036854775808", "18446744073709551615", "18446744073709551616",
	"true", "false", "on", "off", "T", "1.5", "1e3", "1e400", "1e39", "3.4028236e38", "-1e39", "1.00000005960464477540", "16777217.0000001", "NaN", "inf", "0x10", "1_0", "x", "a,b", "a, b ,,c", "a, ,b", " 1", "é", "a%20b", ",", "-", "t rue",
}

var _ = strip.Get

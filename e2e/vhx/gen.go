package vh

import (
	"context"
	"errors"
	"fmt"
	"hash/fnv"
	"reflect"
	"sort"
	"strings"
	"sync"
)

// ---- which original bodies ran

var hitMu sync.Mutex
var hits = map[string]int{}

func Hit(name string) {
	hitMu.Lock()
	hits[name]++
	hitMu.Unlock()
}

func TotalHits() int {
	hitMu.Lock()
	defer hitMu.Unlock()
	n := 0
	for _, v := range hits {
		n += v
	}
	return n
}

func Hits() map[string]int {
	hitMu.Lock()
	defer hitMu.Unlock()
	m := map[string]int{}
	for k, v := range hits {
		m[k] = v
	}
	return m
}

// HitsSince formats the bodies that ran since the given snapshot.
func HitsSince(m map[string]int) string {
	n := Hits()
	var s []string
	for k, v := range n {
		if d := v - m[k]; d != 0 {
			s = append(s, fmt.Sprintf("%s*%d", k, d))
		}
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

// ---- canonical text of values

var CtxKey interface{}

var errT = reflect.TypeOf((*error)(nil)).Elem()
var ctxT = reflect.TypeOf((*context.Context)(nil)).Elem()

func Canons(vs []reflect.Value) string {
	var s []string
	for _, v := range vs {
		s = append(s, Canon(v))
	}
	return strings.Join(s, ";")
}

func CanonAny(vs ...interface{}) string {
	var s []string
	for _, v := range vs {
		s = append(s, Canon(reflect.ValueOf(v)))
	}
	return strings.Join(s, ";")
}

func Canon(v reflect.Value) string {
	if !v.IsValid() {
		return "nil"
	}
	if v.CanInterface() && v.Type().Implements(ctxT) {
		if (v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr) && v.IsNil() {
			return "nil"
		}
		return fmt.Sprintf("ctx(%v)", v.Interface().(context.Context).Value(CtxKey))
	}
	if v.CanInterface() && v.Type().Implements(errT) {
		if (v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr) && v.IsNil() {
			return "nil"
		}
		return "err(" + v.Interface().(error).Error() + ")"
	}
	switch v.Kind() {
	case reflect.Interface:
		return Canon(v.Elem())
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + Canon(v.Elem())
	case reflect.Func:
		if v.IsNil() {
			return "nil"
		}
		t := v.Type()
		if t.NumIn() == 1 && t.In(0).Kind() == reflect.Int && t.NumOut() == 1 {
			return "func(3)=" + Canon(v.Call([]reflect.Value{reflect.ValueOf(3)})[0])
		}
		return "func"
	case reflect.Struct:
		var s []string
		for i := 0; i < v.NumField(); i++ {
			s = append(s, Canon(v.Field(i)))
		}
		return v.Type().Name() + "{" + strings.Join(s, ",") + "}"
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Len() == 0 {
			return "[]"
		}
		var s []string
		for i := 0; i < v.Len(); i++ {
			s = append(s, Canon(v.Index(i)))
		}
		return "[" + strings.Join(s, ",") + "]"
	case reflect.Map:
		var s []string
		for _, k := range v.MapKeys() {
			s = append(s, Canon(k)+":"+Canon(v.MapIndex(k)))
		}
		sort.Strings(s)
		return "map[" + strings.Join(s, ",") + "]"
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	case reflect.Chan:
		return fmt.Sprintf("chan(%d,%d)", v.Len(), v.Cap())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprint(v.Uint())
	case reflect.Float32, reflect.Float64:
		return fmt.Sprint(v.Float())
	case reflect.Complex64, reflect.Complex128:
		return fmt.Sprint(v.Complex())
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	}
	return v.Kind().String()
}

// ---- deterministic results of replacement number id called with args

func hash(parts ...interface{}) uint32 {
	h := fnv.New32a()
	fmt.Fprint(h, parts...)
	return h.Sum32()
}

func Gen(id int, args string, t reflect.Type, i int) reflect.Value {
	h := hash(id, "|", args, "|", t.String(), "|", i)
	return genValue(h, t, 0)
}

func genValue(h uint32, t reflect.Type, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	if t == errT {
		if h%3 != 0 {
			v.Set(reflect.ValueOf(errors.New(fmt.Sprintf("e%x", h))))
		}
		return v
	}
	sub := func(i int, t reflect.Type) reflect.Value { return genValue(hash(h, i), t, depth+1) }
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(h % 101))
		if t.Kind() == reflect.Int {
			v.SetInt(int64(h%1000000) + 1000000)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(h % 101))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(h%1000) + 0.5)
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(complex(float64(h%100), 2))
	case reflect.Bool:
		v.SetBool(h%2 == 0)
	case reflect.String:
		v.SetString(fmt.Sprintf("m%x", h))
	case reflect.Interface:
		if t.NumMethod() == 0 {
			v.Set(reflect.ValueOf(fmt.Sprintf("any%x", h)))
		}
	case reflect.Ptr:
		v.Set(reflect.New(t.Elem()))
		v.Elem().Set(sub(0, t.Elem()))
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath == "" && depth < 4 {
				v.Field(i).Set(sub(i, t.Field(i).Type))
			}
		}
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(sub(i, t.Elem()))
		}
	case reflect.Slice:
		v.Set(reflect.MakeSlice(t, int(h%3), int(h%3)))
		for i := 0; i < v.Len(); i++ {
			v.Index(i).Set(sub(i, t.Elem()))
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(t))
		for i := 0; i < int(h%3); i++ {
			v.SetMapIndex(sub(i, t.Key()), sub(i+100, t.Elem()))
		}
	case reflect.Func:
		v.Set(reflect.MakeFunc(t, func(in []reflect.Value) []reflect.Value {
			var out []reflect.Value
			for i := 0; i < t.NumOut(); i++ {
				out = append(out, genValue(hash(h, Canons(in)), t.Out(i), depth+1))
			}
			return out
		}))
	}
	return v
}

// GenResults gives all results of replacement id of a function of type t.
func GenResults(id int, args string, t reflect.Type) []reflect.Value {
	var out []reflect.Value
	for i := 0; i < t.NumOut(); i++ {
		out = append(out, Gen(id, args, t.Out(i), i))
	}
	return out
}

// Catch runs f and gives its result or its panic as text.
func Catch(f func() string) (res string) {
	defer func() {
		if e := recover(); e != nil {
			res = fmt.Sprintf("panic(%v)", e)
		}
	}()
	return f()
}

package r03

import (
	"errors"
	"fmt"
	"strings"

	"rlab/r03/sub"
)

// every kind of declaration
var vInt int = 10
var vInferInt = 11
var vStr string = "str"
var vInferStr = "infer"
var vBool bool = true
var vFloat float64 = 2.5
var vByte byte = 'b'
var vRune rune = 'r'

var (
	gInt      int
	gA, gB    string = "ga", "gb"
	gInferred        = []string{"x", "y"}
)

var vSlice []int = []int{1, 2, 3}
var vMap map[string]int = map[string]int{"k": 1, "n": 1}
var vArr [3]int = [3]int{4, 5, 6}
var vSt sub.St = sub.St{A: 1, B: "st", L: []int{1}}
var vInferSt = sub.St{A: 2, B: "infst", L: []int{2}}
var vPtr *sub.St = &sub.St{A: 3, B: "ptr", P: &sub.St{A: 9}}
var vInferPtr = &sub.St{A: 4, B: "infptr", P: &sub.St{A: 9}}
var vNum sub.Num = 5
var vInferNum = sub.Num(6)
var vFn func(int) string = func(x int) string { return fmt.Sprint("f", x) }
var vInferFn = func(x int) string { return fmt.Sprint("g", x) }
var vAny interface{} = 12
var vErr error = errors.New("verr")
var vBox sub.Box[int] = sub.Box[int]{V: 8, N: 1}
var vInferBox = sub.Box[string]{V: "bx", N: 2}
var vChan chan int = make(chan int, 5)
var vIface fmt.Stringer = str("ifc")
var vSlSt []sub.St = []sub.St{{A: 1, B: "l"}}
var vMapSt map[string]*sub.St = map[string]*sub.St{"a": {A: 1, B: "l"}}

// names that are used for other things elsewhere
var x int = 100
var err error = errors.New("pkg err")
var i int = 77

type str string

func (s str) String() string { return "<" + string(s) + ">" }

type T struct{ f int }

func (t T) useInt(a int) int    { return t.f + a + vInt }
func (t *T) usePtr(a int) int   { return t.f + a + vInt }
func gen[A any](a A, n int) int { return n + vInt }
func id[A any](a A) A           { return a }
func two(a int, b string) string {
	return fmt.Sprint(a, b)
}
func variadic(xs ...int) int {
	n := 0
	for _, x := range xs {
		n += x
	}
	return n
}

type pair struct {
	K int
	V string
}

func s(v ...interface{}) string { return fmt.Sprint(v...) }

func forms() {
	// int
	I := vals[int](&vInt, "vInt", func(k int) int { return 1000 + k })
	I.f("return", func() string { f := func() int { return vInt }; return s(f()) }, func(v int) string { return s(v) })
	I.f("define", func() string { a := vInt; return s(a) }, func(v int) string { return s(v) })
	I.f("var", func() string { var a int = vInt; return s(a) }, func(v int) string { return s(v) })
	I.f("binary", func() string {
		return s(vInt+1, 2*vInt, vInt-vInt, -vInt, ^vInt, vInt%7, vInt<<1, vInt == 5, !(vInt > 3))
	}, func(v int) string { return s(v+1, 2*v, v-v, -v, ^v, v%7, v<<1, v == 5, !(v > 3)) })
	I.f("paren", func() string { return s((vInt), (vInt)+1) }, func(v int) string { return s(v, v+1) })
	I.f("arg", func() string { return two(vInt, "z") }, func(v int) string { return two(v, "z") })
	I.f("generic call", func() string { return s(id(vInt), id[int](vInt), gen("a", 1)) }, func(v int) string { return s(v, v, 1+v) })
	I.f("variadic", func() string { return s(variadic(vInt, 1, vInt)) }, func(v int) string { return s(2*v + 1) })
	I.f("method body", func() string { return s(T{1}.useInt(2), (&T{1}).usePtr(2)) }, func(v int) string { return s(3+v, 3+v) })
	I.f("composite", func() string {
		return s(pair{vInt, "a"}, pair{K: vInt}, []int{vInt, 1: vInt}, [2]int{0, vInt}, map[string]int{"a": vInt}, map[int]string{vInt + 0: "a"}, &pair{K: vInt})
	}, func(v int) string {
		return s(pair{v, "a"}, pair{K: v}, []int{v, v}, [2]int{0, v}, map[string]int{"a": v}, map[int]string{v: "a"}, &pair{K: v})
	})
	I.f("index", func() string {
		a := []int{1, 2, 3, 4, 5, 6, 7}
		return s(a[vInt%7], a[vInt%3:], a[:vInt%7], a[vInt%2:vInt%2+2], "abcdefg"[vInt%7])
	}, func(v int) string {
		a := []int{1, 2, 3, 4, 5, 6, 7}
		return s(a[v%7], a[v%3:], a[:v%7], a[v%2:v%2+2], "abcdefg"[v%7])
	})
	I.f("slice max", func() string { a := make([]int, 0, 10); return s(cap(a[0 : 0 : vInt%10])) }, func(v int) string { return s(v % 10) })
	I.f("assign index", func() string { m := map[int]int{}; m[vInt] = 1; m[vInt]++; m[vInt] += 2; return s(m) }, func(v int) string { return s(map[int]int{v: 4}) })
	I.f("if", func() string {
		if vInt%2 == 0 {
			return "even"
		} else if a := vInt % 3; a == 0 {
			return "three"
		}
		return "odd"
	}, func(v int) string {
		if v%2 == 0 {
			return "even"
		} else if v%3 == 0 {
			return "three"
		}
		return "odd"
	})
	I.f("for", func() string {
		n := 0
		for i := 0; i < vInt%9; i++ {
			n++
		}
		for i := vInt % 4; i > 0; i -= vInt - vInt + 1 {
			n += 10
		}
		return s(n)
	}, func(v int) string { return s(v%9 + v%4*10) })
	I.f("range int", func() string {
		n := 0
		for range vInt % 5 {
			n++
		}
		return s(n)
	}, func(v int) string { return s(v % 5) })
	I.f("switch tag", func() string {
		switch vInt % 3 {
		case 0:
			return "a"
		case 1:
			return "b"
		}
		return "c"
	}, func(v int) string { return []string{"a", "b", "c"}[v%3] })
	I.f("switch case", func() string {
		switch 1003 {
		case vInt:
			return "a"
		case vInt + 1, vInt + 2:
			return "b"
		}
		switch {
		case vInt > 1002:
			return "d"
		}
		return "c"
	}, func(v int) string {
		switch {
		case v == 1003:
			return "a"
		case v+1 == 1003 || v+2 == 1003:
			return "b"
		case v > 1002:
			return "d"
		}
		return "c"
	})
	I.f("send", func() string { c := make(chan int, 2); c <- vInt; c <- vInt; return s(<-c, <-c) }, func(v int) string { return s(v, v) })
	I.f("select send", func() string {
		c := make(chan int, 1)
		select {
		case c <- vInt:
		}
		return s(<-c)
	}, func(v int) string { return s(v) })
	I.f("select body", func() string {
		c := make(chan int, 1)
		c <- 1
		select {
		case v := <-c:
			return s(v, vInt)
		default:
			return s(vInt)
		}
	}, func(v int) string { return s(1, v) })
	I.f("defer arg", func() (r string) { defer func(a int) { r = s(a, vInt) }(vInt); return "" }, func(v int) string { return s(v, v) })
	I.f("go arg", func() string { c := make(chan int); go func(a int) { c <- a }(vInt); return s(<-c) }, func(v int) string { return s(v) })
	I.f("go body", func() string { c := make(chan int); go func() { c <- vInt }(); return s(<-c) }, func(v int) string { return s(v) })
	I.f("closure", func() string { f := func() func() int { return func() int { return vInt } }; return s(f()()) }, func(v int) string { return s(v) })
	I.f("conversion", func() string { return s(float64(vInt)/2, interface{}(vInt), sub.Num(vInt), sub.Num(vInt).Dbl()) }, func(v int) string { return s(float64(v)/2, v, sub.Num(v), v*2) })
	I.f("op assign", func() string { a := 1; a += vInt; a, b := vInt, vInt; return s(a, b) }, func(v int) string { return s(v, v) })
	I.f("labels", func() string {
		n := 0
	L:
		for {
			switch {
			case n < 2:
				n++
				continue L
			}
			n += vInt
			break L
		}
		{
			n += vInt
		}
		return s(n)
	}, func(v int) string { return s(2 + 2*v) })
	I.f("shadow before", func() string { a := vInt; vInt := a + 1; return s(vInt, a) }, func(v int) string { return s(v+1, v) })
	I.f("self shadow", func() string { vInt := vInt + 1; vInt++; return s(vInt) }, func(v int) string { return s(v + 2) })
	I.f("after inner scope", func() string {
		r := ""
		if true {
			vInt := 1
			r += s(vInt)
		}
		for vInt := 0; vInt < 1; vInt++ {
			r += s(vInt)
		}
		for vInt := range []int{1} {
			r += s(vInt)
		}
		switch vInt := 3; vInt {
		case 3:
			r += s(vInt)
		}
		func(vInt int) { r += s(vInt) }(5)
		if vInt := 9; vInt > 1 {
			r += s(vInt)
		} else {
			r += s(vInt)
		}
		switch vInt := interface{}(4).(type) {
		case int:
			r += s(vInt)
		}
		return r + s(vInt)
	}, func(v int) string { return "1003594" + s(v) })
	I.f("struct field name", func() string { a := struct{ vInt int }{vInt: 5}; return s(a.vInt, vInt) }, func(v int) string { return s(5, v) })
	I.f("min max", func() string { return s(min(vInt, 5), max(vInt, 5)) }, func(v int) string { return s(5, max(v, 5)) })
	I.addr("&", func() string { p := &vInt; return s(*p) }, func(v int) string { return s(v) })
	I.addr("&arg", func() string { return s(*id(&vInt)) }, func(v int) string { return s(v) })
	I.addr("&(paren)", func() string { return s(*&(vInt)) }, func(v int) string { return s(v) })
	I.write("=", func(v int) { vInt = v })
	I.write("tuple", func(v int) { vInt, _ = v, 1 })
	I.write("op", func(v int) { vInt = 0; vInt += v })
	I.write("inc", func(v int) { vInt = v - 1; vInt++ })
	I.write("range", func(v int) {
		for vInt = range []int{1} {
		}
		for _, vInt = range []int{v} {
		}
	})
	I.write("closure", func(v int) { func() { vInt = v }() })

	// inferred types
	vals[int](&vInferInt, "vInferInt", func(k int) int { return 2000 + k }).
		f("read", func() string { return s(vInferInt, vInferInt+1) }, func(v int) string { return s(v, v+1) }).
		write("=", func(v int) { vInferInt = v })
	vals[string](&vStr, "vStr", func(k int) string { return fmt.Sprint("s", k) }).
		f("read", func() string { return vStr + "x" + vStr }, func(v string) string { return v + "x" + v }).
		f("index", func() string { return s(vStr[1], vStr[1:], vStr[:1], len(vStr)) }, func(v string) string { return s(v[1], v[1:], v[:1], len(v)) }).
		f("range", func() string {
			r := ""
			for i, c := range vStr {
				r += s(i, string(c))
			}
			return r
		}, func(v string) string {
			r := ""
			for i, c := range v {
				r += s(i, string(c))
			}
			return r
		}).
		f("convert", func() string { return s([]byte(vStr), str(vStr), str(vStr).String(), strings.ToUpper(vStr)) }, func(v string) string { return s([]byte(v), str(v), str(v).String(), strings.ToUpper(v)) }).
		f("map key", func() string { m := map[string]int{vStr + "": 1, "q": 2}; return s(m[vStr], m["q"]) }, func(v string) string { return s(1, 2) }).
		write("=", func(v string) { vStr = v })
	vals[string](&vInferStr, "vInferStr", func(k int) string { return fmt.Sprint("i", k) }).
		f("read", func() string { return vInferStr }, func(v string) string { return v }).
		addr("&", func() string { return *(&vInferStr) }, func(v string) string { return v }).
		write("=", func(v string) { vInferStr = v })
	vals[bool](&vBool, "vBool", func(k int) bool { return k%2 == 0 }).
		f("read", func() string {
			if vBool && !(!vBool) || vBool {
				return "t"
			}
			return s(vBool)
		}, func(v bool) string {
			if v {
				return "t"
			}
			return "false"
		}).
		f("for", func() string {
			for vBool {
				return "in"
			}
			return "out"
		}, func(v bool) string {
			if v {
				return "in"
			}
			return "out"
		}).
		write("=", func(v bool) { vBool = v })
	vals[float64](&vFloat, "vFloat", func(k int) float64 { return float64(k) + 0.5 }).
		f("read", func() string { return s(vFloat, vFloat*2, int(vFloat)) }, func(v float64) string { return s(v, v*2, int(v)) }).
		write("=", func(v float64) { vFloat = v })
	vals[byte](&vByte, "vByte", func(k int) byte { return byte(k) }).
		f("read", func() string { return s(vByte, []byte{vByte}, string([]byte{'a', vByte})) }, func(v byte) string { return s(v, []byte{v}, string([]byte{'a', v})) }).
		write("=", func(v byte) { vByte = v })
	vals[rune](&vRune, "vRune", func(k int) rune { return rune('a' + k%20) }).
		f("read", func() string { return s(vRune, string(vRune)) }, func(v rune) string { return s(v, string(v)) }).
		write("=", func(v rune) { vRune = v })

	// a group
	vals[int](&gInt, "gInt", func(k int) int { return 3000 + k }).
		f("read", func() string { return s(gInt) }, func(v int) string { return s(v) }).
		addr("&", func() string { return s(*(&gInt)) }, func(v int) string { return s(v) }).
		write("=", func(v int) { gInt = v })
	vals[string](&gA, "gA", func(k int) string { return fmt.Sprint("A", k) }).
		f("read", func() string { return gA }, func(v string) string { return v }).
		write("=", func(v string) { gA = v })
	vals[string](&gB, "gB", func(k int) string { return fmt.Sprint("B", k) }).
		f("read", func() string { return gB }, func(v string) string { return v }).
		write("=", func(v string) { _, gB = 0, v })
	vals[[]string](&gInferred, "gInferred", func(k int) []string { return []string{fmt.Sprint("l", k), "m"} }).
		f("read", func() string { return s(gInferred, gInferred[0], len(gInferred), append([]string{"z"}, gInferred...)) }, func(v []string) string { return s(v, v[0], len(v), append([]string{"z"}, v...)) }).
		write("=", func(v []string) { gInferred = v })

	vals[[]int](&vSlice, "vSlice", func(k int) []int { return []int{k, k + 1, k + 2} }).
		f("read", func() string {
			return s(vSlice, len(vSlice), cap(vSlice) >= 3, vSlice[1], vSlice[1:], vSlice[:2], vSlice == nil)
		}, func(v []int) string { return s(v, len(v), true, v[1], v[1:], v[:2], false) }).
		f("spread", func() string { return s(variadic(vSlice...), append([]int(nil), vSlice...)) }, func(v []int) string { return s(variadic(v...), v) }).
		f("range", func() string {
			n := 0
			for i, v := range vSlice {
				n += i * v
			}
			for i := range vSlice {
				n += i
			}
			for _, i := range vSlice {
				n += i
			}
			return s(n)
		}, func(v []int) string {
			n := 3
			for i, x := range v {
				n += i*x + x
			}
			return s(n)
		}).
		f("copy", func() string { a := make([]int, 2); copy(a, vSlice); return s(a) }, func(v []int) string { return s(v[:2]) }).
		write("=", func(v []int) { vSlice = v }).
		write("append", func(v []int) { vSlice = append([]int(nil), v...) })
	vals[map[string]int](&vMap, "vMap", func(k int) map[string]int { return map[string]int{"k": k, "n": 1} }).
		f("read", func() string {
			v, ok := vMap["k"]
			_, ok2 := vMap["zz"]
			return s(vMap, v, ok, ok2, vMap["n"], len(vMap))
		}, func(v map[string]int) string { return s(v, v["k"], true, false, 1, 2) }).
		f("range", func() string {
			n := 0
			for _, v := range vMap {
				n += v
			}
			return s(n)
		}, func(v map[string]int) string { return s(v["k"] + 1) }).
		write("=", func(v map[string]int) { vMap = v }).
		write("index", func(v map[string]int) {
			vMap = map[string]int{}
			for k, x := range v {
				vMap[k] = x
			}
		})
	vals[[3]int](&vArr, "vArr", func(k int) [3]int { return [3]int{k, k + 1, 9} }).
		f("read", func() string { return s(vArr, vArr[1], len(vArr), vArr == [3]int{}) }, func(v [3]int) string { return s(v, v[1], 3, false) }).
		f("range", func() string {
			n := 0
			for _, v := range vArr {
				n += v
			}
			return s(n)
		}, func(v [3]int) string { return s(v[0] + v[1] + v[2]) }).
		addr("&", func() string { return s((*(&vArr))[1]) }, func(v [3]int) string { return s(v[1]) }).
		write("=", func(v [3]int) { vArr = v }).
		write("index", func(v [3]int) {
			for i := range v {
				vArr[i] = v[i]
			}
		})
	mkSt := func(k int) sub.St { return sub.St{A: k, B: fmt.Sprint("b", k), L: []int{k}} }
	stRead := func(v sub.St) string { return s(v.A, v.B, v.A+1, v.Val(), v.With(3).A, v.Kids()[0], len(v.L)) }
	vals[sub.St](&vSt, "vSt", mkSt).
		f("fields", func() string { return s(vSt.A, vSt.B, vSt.A+1, vSt.Val(), vSt.With(3).A, vSt.Kids()[0], len(vSt.L)) }, stRead).
		f("copy", func() string { a := vSt; return s(a.A, (vSt).B) }, func(v sub.St) string { return s(v.A, v.B) }).
		f("arg", func() string { return s(id(vSt).A, []sub.St{vSt}[0].B) }, func(v sub.St) string { return s(v.A, v.B) }).
		f("method value", func() string { f := vSt.Val; return s(f()) }, func(v sub.St) string { return s(v.Val()) }).
		f("method expr", func() string { return s(sub.St.Val(vSt)) }, func(v sub.St) string { return s(v.Val()) }).
		addr("ptr method", func() string { return s(vSt.Ptr()) }, func(v sub.St) string { return s(v.Ptr()) }).
		addr("&", func() string { p := &vSt; return s(p.A, (&vSt).B) }, func(v sub.St) string { return s(v.A, v.B) }).
		addr("ptr method expr", func() string { return s((*sub.St).Ptr(&vSt)) }, func(v sub.St) string { return s(v.Ptr()) }).
		write("=", func(v sub.St) { vSt = v }).
		write("fields", func(v sub.St) { vSt.A = v.A; vSt.B = v.B; vSt.L = v.L; vSt.P = nil })
	vals[sub.St](&vInferSt, "vInferSt", mkSt).
		f("fields", func() string {
			return s(vInferSt.A, vInferSt.B, vInferSt.A+1, vInferSt.Val(), vInferSt.With(3).A, vInferSt.Kids()[0], len(vInferSt.L))
		}, stRead).
		addr("ptr method", func() string { return s(vInferSt.Ptr()) }, func(v sub.St) string { return s(v.Ptr()) }).
		write("=", func(v sub.St) { vInferSt = v })
	mkP := func(k int) *sub.St { v := mkSt(k); v.P = &sub.St{A: k + 1}; return &v }
	ptrRead := func(v *sub.St) string { return s(v.A, v.B, v.Val(), v.Ptr(), v.P.A, (*v).B, v == nil, v.P.Ptr()) }
	vals[*sub.St](&vPtr, "vPtr", mkP).
		f("fields", func() string {
			return s(vPtr.A, vPtr.B, vPtr.Val(), vPtr.Ptr(), vPtr.P.A, (*vPtr).B, vPtr == nil, vPtr.P.Ptr())
		}, ptrRead).
		f("copy", func() string { p := vPtr; return s(p.A) }, func(v *sub.St) string { return s(v.A) }).
		f("method value", func() string { f := vPtr.Ptr; return s(f()) }, func(v *sub.St) string { return s(v.Ptr()) }).
		f("&field", func() string { p := &vPtr.A; return s(*p) }, func(v *sub.St) string { return s(v.A) }).
		write("=", func(v *sub.St) { vPtr = v })
	vals[*sub.St](&vInferPtr, "vInferPtr", mkP).
		f("fields", func() string {
			return s(vInferPtr.A, vInferPtr.B, vInferPtr.Val(), vInferPtr.Ptr(), vInferPtr.P.A, (*vInferPtr).B, vInferPtr == nil, vInferPtr.P.Ptr())
		}, ptrRead).
		write("=", func(v *sub.St) { vInferPtr = v })
	vals[sub.Num](&vNum, "vNum", func(k int) sub.Num { return sub.Num(k) }).
		f("read", func() string { return s(vNum, vNum+1, vNum.Dbl(), int(vNum)) }, func(v sub.Num) string { return s(v, v+1, v.Dbl(), int(v)) }).
		write("=", func(v sub.Num) { vNum = v })
	vals[sub.Num](&vInferNum, "vInferNum", func(k int) sub.Num { return sub.Num(k) }).
		f("read", func() string { return s(vInferNum, vInferNum+1, vInferNum.Dbl(), int(vInferNum)) }, func(v sub.Num) string { return s(v, v+1, v.Dbl(), int(v)) }).
		write("=", func(v sub.Num) { vInferNum = v })
	mkF := func(k int) func(int) string { return func(x int) string { return fmt.Sprint("fn", k, x) } }
	vals[func(int) string](&vFn, "vFn", mkF).
		f("call", func() string { return vFn(3) + (vFn)(4) }, func(v func(int) string) string { return v(3) + v(4) }).
		f("value", func() string { f := vFn; return f(3) + id(vFn)(4) }, func(v func(int) string) string { return v(3) + v(4) }).
		f("defer", func() (r string) { defer func() { r = vFn(5) }(); return "" }, func(v func(int) string) string { return v(5) }).
		write("=", func(v func(int) string) { vFn = v })
	vals[func(int) string](&vInferFn, "vInferFn", mkF).
		f("call", func() string { return vInferFn(3) }, func(v func(int) string) string { return v(3) }).
		write("=", func(v func(int) string) { vInferFn = v })
	vals[interface{}](&vAny, "vAny", func(k int) interface{} {
		if k%2 == 0 {
			return k
		}
		return fmt.Sprint("any", k)
	}).
		f("read", func() string { n, ok := vAny.(int); return s(vAny, n, ok, vAny != nil) }, func(v interface{}) string { n, ok := v.(int); return s(v, n, ok, true) }).
		f("type switch", func() string {
			switch v := vAny.(type) {
			case int:
				return s("int", v)
			case string:
				return s("string", v)
			}
			return "?"
		}, func(v interface{}) string {
			if n, ok := v.(int); ok {
				return s("int", n)
			}
			return s("string", v.(string))
		}).
		write("=", func(v interface{}) { vAny = v })
	vals[error](&vErr, "vErr", func(k int) error { return fmt.Errorf("e%d", k) }).
		f("read", func() string { return s(vErr, vErr.Error(), vErr != nil, errors.Is(vErr, vErr)) }, func(v error) string { return s(v, v.Error(), true, true) }).
		f("return", func() string { f := func() (int, error) { return 1, vErr }; _, err := f(); return s(err) }, func(v error) string { return s(v) }).
		write("=", func(v error) { vErr = v })
	vals[sub.Box[int]](&vBox, "vBox", func(k int) sub.Box[int] { return sub.Box[int]{V: k, N: k} }).
		f("read", func() string { return s(vBox.V, vBox.N, vBox.Get()) }, func(v sub.Box[int]) string { return s(v.V, v.N, v.Get()) }).
		write("=", func(v sub.Box[int]) { vBox = v })
	vals[sub.Box[string]](&vInferBox, "vInferBox", func(k int) sub.Box[string] { return sub.Box[string]{V: fmt.Sprint(k), N: k} }).
		f("read", func() string { return s(vInferBox.V, vInferBox.N, vInferBox.Get()) }, func(v sub.Box[string]) string { return s(v.V, v.N, v.Get()) }).
		addr("ptr method", func() string { return s(vInferBox.Addr()) }, func(v sub.Box[string]) string { return s(v.Addr()) }).
		write("=", func(v sub.Box[string]) { vInferBox = v })
	vals[chan int](&vChan, "vChan", func(k int) chan int { return make(chan int, 5+k) }).
		f("read", func() string { vChan <- 4; return s(<-vChan, cap(vChan), len(vChan)) }, func(v chan int) string { return s(4, cap(v), 0) }).
		f("select", func() string {
			select {
			case a := <-vChan:
				return s(a)
			default:
				return s(cap(vChan))
			}
		}, func(v chan int) string { return s(cap(v)) }).
		write("=", func(v chan int) { vChan = v })
	vals[fmt.Stringer](&vIface, "vIface", func(k int) fmt.Stringer { return str(fmt.Sprint(k)) }).
		f("read", func() string { return s(vIface.String(), vIface) }, func(v fmt.Stringer) string { return s(v.String(), v) }).
		write("=", func(v fmt.Stringer) { vIface = v })
	vals[[]sub.St](&vSlSt, "vSlSt", func(k int) []sub.St { return []sub.St{{A: k, B: "l"}} }).
		f("read", func() string { return s(vSlSt[0].A, vSlSt[0].Val(), vSlSt[0].Ptr(), len(vSlSt), (&vSlSt[0]).B) }, func(v []sub.St) string { return s(v[0].A, v[0].Val(), v[0].Ptr(), 1, v[0].B) }).
		write("=", func(v []sub.St) { vSlSt = v })
	vals[map[string]*sub.St](&vMapSt, "vMapSt", func(k int) map[string]*sub.St { return map[string]*sub.St{"a": {A: k, B: "l"}} }).
		f("read", func() string { return s(vMapSt["a"].A, vMapSt["a"].Val(), vMapSt["a"].Ptr(), len(vMapSt)) }, func(v map[string]*sub.St) string { return s(v["a"].A, v["a"].Val(), v["a"].Ptr(), 1) }).
		write("=", func(v map[string]*sub.St) { vMapSt = v })

	// variables of another package, and names used for other things
	vals[int](&sub.Int, "Int", func(k int) int { return 4000 + k }).in("rlab/r03/sub").
		f("read", func() string { return s(sub.Int, sub.Int+1, (sub.Int), sub.ReadInt()) }, func(v int) string { return s(v, v+1, v, v) }).
		addr("&", func() string { return s(*(&sub.Int)) }, func(v int) string { return s(v) }).
		write("=", func(v int) { sub.Int = v })
	vals[string](&sub.Str, "Str", func(k int) string { return fmt.Sprint("sub", k) }).in("rlab/r03/sub").
		f("read", func() string { return s(sub.Str, sub.Str+"x") }, func(v string) string { return s(v, v+"x") }).
		write("=", func(v string) { sub.Str = v })
	vals[sub.St](&sub.Struct, "Struct", mkSt).in("rlab/r03/sub").
		f("fields", func() string {
			return s(sub.Struct.A, sub.Struct.B, sub.Struct.A+1, sub.Struct.Val(), sub.Struct.With(3).A, sub.Struct.Kids()[0], len(sub.Struct.L))
		}, stRead).
		addr("ptr method", func() string { return s(sub.Struct.Ptr()) }, func(v sub.St) string { return s(v.Ptr()) }).
		addr("&", func() string { p := &sub.Struct; return s(p.A) }, func(v sub.St) string { return s(v.A) }).
		write("=", func(v sub.St) { sub.Struct = v })
	vals[*sub.St](&sub.Ptr, "Ptr", mkP).in("rlab/r03/sub").
		f("fields", func() string {
			return s(sub.Ptr.A, sub.Ptr.B, sub.Ptr.Val(), sub.Ptr.Ptr(), sub.Ptr.P.A, (*sub.Ptr).B, sub.Ptr == nil, sub.Ptr.P.Ptr())
		}, ptrRead).
		write("=", func(v *sub.St) { sub.Ptr = v })
	vals[sub.St](&sub.Inferred, "Inferred", mkSt).in("rlab/r03/sub").
		f("fields", func() string {
			return s(sub.Inferred.A, sub.Inferred.B, sub.Inferred.A+1, sub.Inferred.Val(), sub.Inferred.With(3).A, sub.Inferred.Kids()[0], len(sub.Inferred.L))
		}, stRead).
		write("=", func(v sub.St) { sub.Inferred = v })
	vals[func(int) int](&sub.Fn, "Fn", func(k int) func(int) int { return func(x int) int { return x * k } }).in("rlab/r03/sub").
		f("call", func() string { return s(sub.Fn(3)) }, func(v func(int) int) string { return s(v(3)) }).
		write("=", func(v func(int) int) { sub.Fn = v })
	vals[int](&x, "x", func(k int) int { return 5000 + k }).
		f("read", func() string {
			a := x
			for x := 0; x < 2; x++ {
				a += x
			}
			return s(a, x, variadic(1, 2))
		}, func(v int) string { return s(v+1, v, 3) }).
		write("=", func(v int) { x = v })
	vals[error](&err, "err", func(k int) error { return fmt.Errorf("pe%d", k) }).
		f("read", func() string { a := err; _, err := fmt.Sscan("1", new(int)); return s(a, err) }, func(v error) string { return s(v, nil) }).
		f("if", func() string {
			if err := errors.New("l"); err != nil {
				return s(err)
			}
			return s(err)
		}, func(v error) string { return "l" }).
		write("=", func(v error) { err = v })
	vals[int](&i, "i", func(k int) int { return 6000 + k }).
		f("read", func() string {
			n := 0
			for i := range 3 {
				n += i
			}
			return s(n, i)
		}, func(v int) string { return s(3, v) }).
		write("=", func(v int) { i = v })
}

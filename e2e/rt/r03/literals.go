package r03

import (
	"context"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/mock"

	"rlab/r03/sub"
)

// mocks that name the variable where they are installed
func literals() {
	lit := func(p interface{}, name string, patch, patchA func(get func() interface{}) func(), m func(set func(core.Object)) func()) {
		for _, v := range all {
			if v.name == name && v.addr == p {
				v.patchLit, v.patchALit, v.mockLit = patch, patchA, m
				return
			}
		}
		panic("no such variable: " + name)
	}
	lit(&vInt, "vInt",
		func(get func() interface{}) func() {
			return mock.Patch(&vInt, func() int { x, _ := get().(int); return x })
		},
		func(get func() interface{}) func() { return mock.Patch((&vInt), func() *int { return get().(*int) }) },
		func(set func(core.Object)) func() {
			return mock.Mock(&vInt, func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) error {
				set(results)
				return nil
			})
		})
	lit(&vInferStr, "vInferStr",
		func(get func() interface{}) func() {
			return mock.Patch(&vInferStr, func() string { x, _ := get().(string); return x })
		},
		func(get func() interface{}) func() {
			return mock.Patch((&vInferStr), func() *string { return get().(*string) })
		},
		func(set func(core.Object)) func() {
			return mock.Mock(&vInferStr, func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) error {
				set(results)
				return nil
			})
		})
	lit(&vSlice, "vSlice",
		func(get func() interface{}) func() {
			return mock.Patch(&vSlice, func() []int { x, _ := get().([]int); return x })
		},
		func(get func() interface{}) func() {
			return mock.Patch((&vSlice), func() *[]int { return get().(*[]int) })
		},
		func(set func(core.Object)) func() {
			return mock.Mock(&vSlice, func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) error {
				set(results)
				return nil
			})
		})
	lit(&vMap, "vMap",
		func(get func() interface{}) func() {
			return mock.Patch(&vMap, func() map[string]int { x, _ := get().(map[string]int); return x })
		},
		func(get func() interface{}) func() {
			return mock.Patch((&vMap), func() *map[string]int { return get().(*map[string]int) })
		},
		func(set func(core.Object)) func() {
			return mock.Mock(&vMap, func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) error {
				set(results)
				return nil
			})
		})
	lit(&vArr, "vArr",
		func(get func() interface{}) func() {
			return mock.Patch(&vArr, func() [3]int { x, _ := get().([3]int); return x })
		},
		func(get func() interface{}) func() {
			return mock.Patch((&vArr), func() *[3]int { return get().(*[3]int) })
		},
		func(set func(core.Object)) func() {
			return mock.Mock(&vArr, func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) error {
				set(results)
				return nil
			})
		})
	lit(&vSt, "vSt",
		func(get func() interface{}) func() {
			return mock.Patch(&vSt, func() sub.St { x, _ := get().(sub.St); return x })
		},
		func(get func() interface{}) func() {
			return mock.Patch((&vSt), func() *sub.St { return get().(*sub.St) })
		},
		func(set func(core.Object)) func() {
			return mock.Mock(&vSt, func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) error {
				set(results)
				return nil
			})
		})
	lit(&vPtr, "vPtr",
		func(get func() interface{}) func() {
			return mock.Patch(&vPtr, func() *sub.St { x, _ := get().(*sub.St); return x })
		},
		func(get func() interface{}) func() {
			return mock.Patch((&vPtr), func() **sub.St { return get().(**sub.St) })
		},
		func(set func(core.Object)) func() {
			return mock.Mock(&vPtr, func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) error {
				set(results)
				return nil
			})
		})
	lit(&vInferPtr, "vInferPtr",
		func(get func() interface{}) func() {
			return mock.Patch(&vInferPtr, func() *sub.St { x, _ := get().(*sub.St); return x })
		},
		func(get func() interface{}) func() {
			return mock.Patch((&vInferPtr), func() **sub.St { return get().(**sub.St) })
		},
		func(set func(core.Object)) func() {
			return mock.Mock(&vInferPtr, func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) error {
				set(results)
				return nil
			})
		})
	lit(&vNum, "vNum",
		func(get func() interface{}) func() {
			return mock.Patch(&vNum, func() sub.Num { x, _ := get().(sub.Num); return x })
		},
		func(get func() interface{}) func() {
			return mock.Patch((&vNum), func() *sub.Num { return get().(*sub.Num) })
		},
		func(set func(core.Object)) func() {
			return mock.Mock(&vNum, func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) error {
				set(results)
				return nil
			})
		})
	lit(&vFn, "vFn",
		func(get func() interface{}) func() {
			return mock.Patch(&vFn, func() func(int) string { x, _ := get().(func(int) string); return x })
		},
		func(get func() interface{}) func() {
			return mock.Patch((&vFn), func() *func(int) string { return get().(*func(int) string) })
		},
		func(set func(core.Object)) func() {
			return mock.Mock(&vFn, func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) error {
				set(results)
				return nil
			})
		})
	lit(&vAny, "vAny",
		func(get func() interface{}) func() {
			return mock.Patch(&vAny, func() interface{} { x, _ := get().(interface{}); return x })
		},
		func(get func() interface{}) func() {
			return mock.Patch((&vAny), func() *interface{} { return get().(*interface{}) })
		},
		func(set func(core.Object)) func() {
			return mock.Mock(&vAny, func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) error {
				set(results)
				return nil
			})
		})
	lit(&vErr, "vErr",
		func(get func() interface{}) func() {
			return mock.Patch(&vErr, func() error { x, _ := get().(error); return x })
		},
		func(get func() interface{}) func() {
			return mock.Patch((&vErr), func() *error { return get().(*error) })
		},
		func(set func(core.Object)) func() {
			return mock.Mock(&vErr, func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) error {
				set(results)
				return nil
			})
		})
	lit(&gB, "gB",
		func(get func() interface{}) func() {
			return mock.Patch(&gB, func() string { x, _ := get().(string); return x })
		},
		func(get func() interface{}) func() {
			return mock.Patch((&gB), func() *string { return get().(*string) })
		},
		func(set func(core.Object)) func() {
			return mock.Mock(&gB, func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) error {
				set(results)
				return nil
			})
		})
	lit(&gInferred, "gInferred",
		func(get func() interface{}) func() {
			return mock.Patch(&gInferred, func() []string { x, _ := get().([]string); return x })
		},
		func(get func() interface{}) func() {
			return mock.Patch((&gInferred), func() *[]string { return get().(*[]string) })
		},
		func(set func(core.Object)) func() {
			return mock.Mock(&gInferred, func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) error {
				set(results)
				return nil
			})
		})
	lit(&sub.Int, "Int",
		func(get func() interface{}) func() {
			return mock.Patch(&sub.Int, func() int { x, _ := get().(int); return x })
		},
		func(get func() interface{}) func() {
			return mock.Patch((&sub.Int), func() *int { return get().(*int) })
		},
		func(set func(core.Object)) func() {
			return mock.Mock(&sub.Int, func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) error {
				set(results)
				return nil
			})
		})
	lit(&sub.Str, "Str",
		func(get func() interface{}) func() {
			return mock.Patch(&sub.Str, func() string { x, _ := get().(string); return x })
		},
		func(get func() interface{}) func() {
			return mock.Patch((&sub.Str), func() *string { return get().(*string) })
		},
		func(set func(core.Object)) func() {
			return mock.Mock(&sub.Str, func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) error {
				set(results)
				return nil
			})
		})
	lit(&sub.Ptr, "Ptr",
		func(get func() interface{}) func() {
			return mock.Patch(&sub.Ptr, func() *sub.St { x, _ := get().(*sub.St); return x })
		},
		func(get func() interface{}) func() {
			return mock.Patch((&sub.Ptr), func() **sub.St { return get().(**sub.St) })
		},
		func(set func(core.Object)) func() {
			return mock.Mock(&sub.Ptr, func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) error {
				set(results)
				return nil
			})
		})
	lit(&sub.Struct, "Struct",
		func(get func() interface{}) func() {
			return mock.Patch(&sub.Struct, func() sub.St { x, _ := get().(sub.St); return x })
		},
		func(get func() interface{}) func() {
			return mock.Patch((&sub.Struct), func() *sub.St { return get().(*sub.St) })
		},
		func(set func(core.Object)) func() {
			return mock.Mock(&sub.Struct, func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) error {
				set(results)
				return nil
			})
		})
	lit(&vSlSt, "vSlSt",
		func(get func() interface{}) func() {
			return mock.Patch(&vSlSt, func() []sub.St { x, _ := get().([]sub.St); return x })
		},
		func(get func() interface{}) func() {
			return mock.Patch((&vSlSt), func() *[]sub.St { return get().(*[]sub.St) })
		},
		func(set func(core.Object)) func() {
			return mock.Mock(&vSlSt, func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) error {
				set(results)
				return nil
			})
		})
}

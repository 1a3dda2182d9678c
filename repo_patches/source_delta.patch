From c876596b1cdcb2857190979bf166d8005a1cd187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 01/71] fix: goroutines inherit recorders together with the
 receiver they are bound to

---
 cmd/xgo/asset/runtime_gen/internal/trap/init.go | 5 +++--
 runtime/internal/trap/init.go                   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/init.go b/cmd/xgo/asset/runtime_gen/internal/trap/init.go
index ec2d5e8..509e16c 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/init.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/init.go
@@ -113,8 +113,9 @@ func cloneFuncRecordMapping(recorders map[uintptr][]*recorderHolder) map[uintptr
 		newRecorders[pc] = make([]*recorderHolder, len(recorders))
 		for i, recorder := range recorders {
 			newRecorders[pc][i] = &recorderHolder{
-				pre:  recorder.pre,
-				post: recorder.post,
+				wantRecvPtr: recorder.wantRecvPtr,
+				pre:         recorder.pre,
+				post:        recorder.post,
 			}
 		}
 	}
diff --git a/runtime/internal/trap/init.go b/runtime/internal/trap/init.go
index ec2d5e8..509e16c 100644
--- a/runtime/internal/trap/init.go
+++ b/runtime/internal/trap/init.go
@@ -113,8 +113,9 @@ func cloneFuncRecordMapping(recorders map[uintptr][]*recorderHolder) map[uintptr
 		newRecorders[pc] = make([]*recorderHolder, len(recorders))
 		for i, recorder := range recorders {
 			newRecorders[pc][i] = &recorderHolder{
-				pre:  recorder.pre,
-				post: recorder.post,
+				wantRecvPtr: recorder.wantRecvPtr,
+				pre:         recorder.pre,
+				post:        recorder.post,
 			}
 		}
 	}
-- 
2.43.0


From b25a6c885d588ce441c99c0f02cad69d481ad1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 02/71] fix: a variable recorder may have both a pre and a post
 part

---
 cmd/xgo/asset/runtime_gen/internal/trap/record.go | 4 ++--
 runtime/internal/trap/record.go                   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/record.go b/cmd/xgo/asset/runtime_gen/internal/trap/record.go
index fcea21d..8ab8ad6 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/record.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/record.go
@@ -56,11 +56,11 @@ func pushRecorder(fn interface{}, pre interface{}, post interface{}) func() {
 				postV.Call([]reflect.Value{arg})
 			}
 		}
-		if pre != nil && post != nil && preIsPtr == postIsPtr {
+		if pre != nil && post != nil && preIsPtr != postIsPtr {
 			panic(fmt.Errorf("pre-recorder and post-recorder should have the same type, actual: pre has %T, post has %T", pre, post))
 		}
 
-		if !preIsPtr {
+		if !preIsPtr && !postIsPtr {
 			return PushVarRecordHandler(varPtr, preHandler, postHandler)
 		}
 		return PushVarPtrRecordHandler(varPtr, preHandler, postHandler)
diff --git a/runtime/internal/trap/record.go b/runtime/internal/trap/record.go
index fcea21d..8ab8ad6 100644
--- a/runtime/internal/trap/record.go
+++ b/runtime/internal/trap/record.go
@@ -56,11 +56,11 @@ func pushRecorder(fn interface{}, pre interface{}, post interface{}) func() {
 				postV.Call([]reflect.Value{arg})
 			}
 		}
-		if pre != nil && post != nil && preIsPtr == postIsPtr {
+		if pre != nil && post != nil && preIsPtr != postIsPtr {
 			panic(fmt.Errorf("pre-recorder and post-recorder should have the same type, actual: pre has %T, post has %T", pre, post))
 		}
 
-		if !preIsPtr {
+		if !preIsPtr && !postIsPtr {
 			return PushVarRecordHandler(varPtr, preHandler, postHandler)
 		}
 		return PushVarPtrRecordHandler(varPtr, preHandler, postHandler)
-- 
2.43.0


From 49434e0986244246a9f7847d815c24661b33c36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 03/71] fix: run the post part of each recorder and
 interceptor, not of the last one

---
 cmd/xgo/asset/runtime_gen/internal/trap/trap.go | 2 ++
 cmd/xgo/asset/runtime_gen/internal/trap/var.go  | 2 ++
 runtime/internal/trap/trap.go                   | 2 ++
 runtime/internal/trap/var.go                    | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index 879b509..ff24293 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -155,6 +155,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	var postRecordersAndInterceptors []func()
 	var mocked bool
 	for _, h := range recordHandlers {
+		h := h // captured by the post func
 		if h.wantRecvPtr != nil && (recvPtr == nil || !sameReceiver(recvPtr, h.wantRecvPtr)) {
 			continue
 		}
@@ -176,6 +177,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 
 	if !mocked {
 		for _, h := range interceptors {
+			h := h // captured by the post func
 			var data interface{}
 			var stop bool
 			if h.pre != nil {
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/var.go b/cmd/xgo/asset/runtime_gen/internal/trap/var.go
index 391589a..5f6f755 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/var.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/var.go
@@ -109,6 +109,7 @@ func trapVarPtr(infoPtr unsafe.Pointer, varAddr interface{}, res interface{}) {
 func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, tracing bool, res interface{}, recorders []*varRecordHolder, interceptors []*recorderHolder, mock func(fnInfo *core.FuncInfo, res interface{}), mockRes interface{}) {
 	var postRecorders []func()
 	for _, recorder := range recorders {
+		recorder := recorder // captured by the post func
 		var data interface{}
 		if recorder.pre != nil {
 			data, _ = recorder.pre(funcInfo, res)
@@ -122,6 +123,7 @@ func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, traci
 
 	var postInterceptors []func()
 	for _, interceptor := range interceptors {
+		interceptor := interceptor // captured by the post func
 		var data interface{}
 		if interceptor.pre != nil {
 			data, _ = interceptor.pre(funcInfo, nil, nil, []interface{}{res})
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index 879b509..ff24293 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -155,6 +155,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	var postRecordersAndInterceptors []func()
 	var mocked bool
 	for _, h := range recordHandlers {
+		h := h // captured by the post func
 		if h.wantRecvPtr != nil && (recvPtr == nil || !sameReceiver(recvPtr, h.wantRecvPtr)) {
 			continue
 		}
@@ -176,6 +177,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 
 	if !mocked {
 		for _, h := range interceptors {
+			h := h // captured by the post func
 			var data interface{}
 			var stop bool
 			if h.pre != nil {
diff --git a/runtime/internal/trap/var.go b/runtime/internal/trap/var.go
index 391589a..5f6f755 100644
--- a/runtime/internal/trap/var.go
+++ b/runtime/internal/trap/var.go
@@ -109,6 +109,7 @@ func trapVarPtr(infoPtr unsafe.Pointer, varAddr interface{}, res interface{}) {
 func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, tracing bool, res interface{}, recorders []*varRecordHolder, interceptors []*recorderHolder, mock func(fnInfo *core.FuncInfo, res interface{}), mockRes interface{}) {
 	var postRecorders []func()
 	for _, recorder := range recorders {
+		recorder := recorder // captured by the post func
 		var data interface{}
 		if recorder.pre != nil {
 			data, _ = recorder.pre(funcInfo, res)
@@ -122,6 +123,7 @@ func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, traci
 
 	var postInterceptors []func()
 	for _, interceptor := range interceptors {
+		interceptor := interceptor // captured by the post func
 		var data interface{}
 		if interceptor.pre != nil {
 			data, _ = interceptor.pre(funcInfo, nil, nil, []interface{}{res})
-- 
2.43.0


From 191daf5c6f988f5765768a7029fb07a4e7cce290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 04/71] fix: compare the arguments of a method replacer without
 reading past the last one

---
 cmd/xgo/asset/runtime_gen/internal/trap/object.go | 2 +-
 runtime/internal/trap/object.go                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/object.go b/cmd/xgo/asset/runtime_gen/internal/trap/object.go
index 831bf43..29ed304 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/object.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/object.go
@@ -168,7 +168,7 @@ func checkFuncTypeMatch(a reflect.Type, b reflect.Type, skipAFirst bool) (atype
 		return formatFuncType(a, skipAFirst), formatFuncType(b, false), false
 	}
 
-	for i := 0; i < na; i++ {
+	for i := 0; i < nb; i++ {
 		ta := a.In(i + base)
 		tb := b.In(i)
 		if ta != tb {
diff --git a/runtime/internal/trap/object.go b/runtime/internal/trap/object.go
index 831bf43..29ed304 100644
--- a/runtime/internal/trap/object.go
+++ b/runtime/internal/trap/object.go
@@ -168,7 +168,7 @@ func checkFuncTypeMatch(a reflect.Type, b reflect.Type, skipAFirst bool) (atype
 		return formatFuncType(a, skipAFirst), formatFuncType(b, false), false
 	}
 
-	for i := 0; i < na; i++ {
+	for i := 0; i < nb; i++ {
 		ta := a.In(i + base)
 		tb := b.In(i)
 		if ta != tb {
-- 
2.43.0


From 2635e47a0723642e673567af2fa20502d8560efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:41 +0000
Subject: [PATCH 05/71] fix: a mock of one receiver no longer hides the mocks
 of other receivers

---
 .../runtime_gen/internal/trap/stack_data.go   | 26 ++++++++++++-------
 .../asset/runtime_gen/internal/trap/trap.go   |  7 +----
 runtime/internal/trap/stack_data.go           | 26 ++++++++++++-------
 runtime/internal/trap/trap.go                 |  7 +----
 4 files changed, 36 insertions(+), 30 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go b/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
index 146281c..4c028ab 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
@@ -78,19 +78,27 @@ type varRecordHolder struct {
 	post func(fnInfo *core.FuncInfo, res interface{}, data interface{})
 }
 
-func (c *StackData) getLastMock(pc uintptr) (recvPtr interface{}, mock func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool) {
-	var mockList []*mockHolder
+// getLastMock returns the last mock that applies to the receiver of the call
+func (c *StackData) getLastMock(pc uintptr, recvPtr interface{}) func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool {
 	if c != nil {
-		mockList = c.interceptors.mock[pc]
+		if m := lastMockOf(c.interceptors.mock[pc], recvPtr); m != nil {
+			return m.mock
+		}
 	}
-	if len(mockList) == 0 {
-		mockList = globalInterceptorHolder.mock[pc]
-		if len(mockList) == 0 {
-			return nil, nil
+	if m := lastMockOf(globalInterceptorHolder.mock[pc], recvPtr); m != nil {
+		return m.mock
+	}
+	return nil
+}
+
+func lastMockOf(mockList []*mockHolder, recvPtr interface{}) *mockHolder {
+	for i := len(mockList) - 1; i >= 0; i-- {
+		m := mockList[i]
+		if m.wantRecvPtr == nil || (recvPtr != nil && sameReceiver(recvPtr, m.wantRecvPtr)) {
+			return m
 		}
 	}
-	m := mockList[len(mockList)-1]
-	return m.wantRecvPtr, m.mock
+	return nil
 }
 
 func (c *StackData) getLastVarMock(varAddr uintptr) (mock func(fnInfo *core.FuncInfo, res interface{})) {
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index ff24293..e588e3c 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -48,8 +48,6 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	pkg := funcInfo.Pkg
 	name := funcInfo.IdentityName
 
-	var mock func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool
-
 	var isTesting bool
 	var testName string
 
@@ -135,7 +133,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	//
 	//
 	// === start check mock and interceptors ===
-	wantPtr, mockFn := stackData.getLastMock(fnPC)
+	mock := stackData.getLastMock(fnPC, recvPtr)
 	recordHandlers := stackData.getRecordHandlers(fnPC)
 	var interceptors []*recorderHolder
 	if depth <= 1 {
@@ -148,9 +146,6 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		// targeted function
 		interceptors = stackData.getGeneralInterceptors()
 	}
-	if mockFn != nil && (wantPtr == nil || (recvPtr != nil && sameReceiver(recvPtr, wantPtr))) {
-		mock = mockFn
-	}
 
 	var postRecordersAndInterceptors []func()
 	var mocked bool
diff --git a/runtime/internal/trap/stack_data.go b/runtime/internal/trap/stack_data.go
index 146281c..4c028ab 100644
--- a/runtime/internal/trap/stack_data.go
+++ b/runtime/internal/trap/stack_data.go
@@ -78,19 +78,27 @@ type varRecordHolder struct {
 	post func(fnInfo *core.FuncInfo, res interface{}, data interface{})
 }
 
-func (c *StackData) getLastMock(pc uintptr) (recvPtr interface{}, mock func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool) {
-	var mockList []*mockHolder
+// getLastMock returns the last mock that applies to the receiver of the call
+func (c *StackData) getLastMock(pc uintptr, recvPtr interface{}) func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool {
 	if c != nil {
-		mockList = c.interceptors.mock[pc]
+		if m := lastMockOf(c.interceptors.mock[pc], recvPtr); m != nil {
+			return m.mock
+		}
 	}
-	if len(mockList) == 0 {
-		mockList = globalInterceptorHolder.mock[pc]
-		if len(mockList) == 0 {
-			return nil, nil
+	if m := lastMockOf(globalInterceptorHolder.mock[pc], recvPtr); m != nil {
+		return m.mock
+	}
+	return nil
+}
+
+func lastMockOf(mockList []*mockHolder, recvPtr interface{}) *mockHolder {
+	for i := len(mockList) - 1; i >= 0; i-- {
+		m := mockList[i]
+		if m.wantRecvPtr == nil || (recvPtr != nil && sameReceiver(recvPtr, m.wantRecvPtr)) {
+			return m
 		}
 	}
-	m := mockList[len(mockList)-1]
-	return m.wantRecvPtr, m.mock
+	return nil
 }
 
 func (c *StackData) getLastVarMock(varAddr uintptr) (mock func(fnInfo *core.FuncInfo, res interface{})) {
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index ff24293..e588e3c 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -48,8 +48,6 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	pkg := funcInfo.Pkg
 	name := funcInfo.IdentityName
 
-	var mock func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool
-
 	var isTesting bool
 	var testName string
 
@@ -135,7 +133,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	//
 	//
 	// === start check mock and interceptors ===
-	wantPtr, mockFn := stackData.getLastMock(fnPC)
+	mock := stackData.getLastMock(fnPC, recvPtr)
 	recordHandlers := stackData.getRecordHandlers(fnPC)
 	var interceptors []*recorderHolder
 	if depth <= 1 {
@@ -148,9 +146,6 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		// targeted function
 		interceptors = stackData.getGeneralInterceptors()
 	}
-	if mockFn != nil && (wantPtr == nil || (recvPtr != nil && sameReceiver(recvPtr, wantPtr))) {
-		mock = mockFn
-	}
 
 	var postRecordersAndInterceptors []func()
 	var mocked bool
-- 
2.43.0


From b9ec202428176953135b3a8e5bc960a8757ac9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:41 +0000
Subject: [PATCH 06/71] fix: mock and record methods whose receiver is not
 comparable

---
 cmd/xgo/asset/runtime_gen/internal/trap/mock.go | 14 +++++++++++++-
 runtime/internal/trap/mock.go                   | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
index e6b4a9b..ef80e26 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
@@ -364,7 +364,19 @@ func sameReceiver(recvPtr interface{}, actRecvPtr interface{}) bool {
 	// assume both are non-nil
 	recvPtrVal := reflect.ValueOf(recvPtr)
 	actRecvPtrVal := reflect.ValueOf(actRecvPtr)
-	return recvPtrVal.Elem().Interface() == actRecvPtrVal.Elem().Interface()
+	return equalValue(recvPtrVal.Elem().Interface(), actRecvPtrVal.Elem().Interface())
+}
+
+// equalValue compares a and b with ==, receivers that are
+// not comparable(e.g. slice, or struct having a map) are
+// compared by content
+func equalValue(a interface{}, b interface{}) (equal bool) {
+	defer func() {
+		if e := recover(); e != nil {
+			equal = reflect.DeepEqual(a, b)
+		}
+	}()
+	return a == b
 }
 
 // return `true` if hit ptr type
diff --git a/runtime/internal/trap/mock.go b/runtime/internal/trap/mock.go
index e6b4a9b..ef80e26 100644
--- a/runtime/internal/trap/mock.go
+++ b/runtime/internal/trap/mock.go
@@ -364,7 +364,19 @@ func sameReceiver(recvPtr interface{}, actRecvPtr interface{}) bool {
 	// assume both are non-nil
 	recvPtrVal := reflect.ValueOf(recvPtr)
 	actRecvPtrVal := reflect.ValueOf(actRecvPtr)
-	return recvPtrVal.Elem().Interface() == actRecvPtrVal.Elem().Interface()
+	return equalValue(recvPtrVal.Elem().Interface(), actRecvPtrVal.Elem().Interface())
+}
+
+// equalValue compares a and b with ==, receivers that are
+// not comparable(e.g. slice, or struct having a map) are
+// compared by content
+func equalValue(a interface{}, b interface{}) (equal bool) {
+	defer func() {
+		if e := recover(); e != nil {
+			equal = reflect.DeepEqual(a, b)
+		}
+	}()
+	return a == b
 }
 
 // return `true` if hit ptr type
-- 
2.43.0


From 088d30d55afd38de1b459b05294de525f99ea589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:41 +0000
Subject: [PATCH 07/71] fix: tracing a returned error whose Error method panics
 must not panic

---
 cmd/xgo/asset/runtime_gen/internal/trap/object.go | 10 ++++++++++
 cmd/xgo/asset/runtime_gen/internal/trap/trap.go   |  2 +-
 runtime/internal/trap/object.go                   | 10 ++++++++++
 runtime/internal/trap/trap.go                     |  2 +-
 4 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/object.go b/cmd/xgo/asset/runtime_gen/internal/trap/object.go
index 29ed304..7b99cc9 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/object.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/object.go
@@ -91,6 +91,16 @@ func trySplitLastError(resultNames []string, results []interface{}) ([]string, [
 	return resultNames, results, nil
 }
 
+// getErrMsg never panics, even if the Error() method does
+func getErrMsg(err error) (msg string) {
+	defer func() {
+		if e := recover(); e != nil {
+			msg = fmt.Sprint(err)
+		}
+	}()
+	return err.Error()
+}
+
 type structValue struct {
 	Names  []string
 	Values []interface{}
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index e588e3c..e55fb73 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -396,7 +396,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		resultNamesNoErr, resultsNoErr, resErr := trySplitLastError(resultNames, results)
 		resultsJSON := json.RawMessage(xgo_runtime.MarshalNoError(newStructValue(resultNamesNoErr, resultsNoErr)))
 		if !hasPanic && resErr != nil {
-			errStr = resErr.Error()
+			errStr = getErrMsg(resErr)
 		}
 
 		// Relative end time outside lock (time methods may trap / deadlock).
diff --git a/runtime/internal/trap/object.go b/runtime/internal/trap/object.go
index 29ed304..7b99cc9 100644
--- a/runtime/internal/trap/object.go
+++ b/runtime/internal/trap/object.go
@@ -91,6 +91,16 @@ func trySplitLastError(resultNames []string, results []interface{}) ([]string, [
 	return resultNames, results, nil
 }
 
+// getErrMsg never panics, even if the Error() method does
+func getErrMsg(err error) (msg string) {
+	defer func() {
+		if e := recover(); e != nil {
+			msg = fmt.Sprint(err)
+		}
+	}()
+	return err.Error()
+}
+
 type structValue struct {
 	Names  []string
 	Values []interface{}
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index e588e3c..e55fb73 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -396,7 +396,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		resultNamesNoErr, resultsNoErr, resErr := trySplitLastError(resultNames, results)
 		resultsJSON := json.RawMessage(xgo_runtime.MarshalNoError(newStructValue(resultNamesNoErr, resultsNoErr)))
 		if !hasPanic && resErr != nil {
-			errStr = resErr.Error()
+			errStr = getErrMsg(resErr)
 		}
 
 		// Relative end time outside lock (time methods may trap / deadlock).
-- 
2.43.0


From 392574a1c0c882c6c2b377470b08652e5ce68b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:41 +0000
Subject: [PATCH 08/71] fix: errors and truncated values are written to the
 trace as valid JSON

---
 .../asset/runtime_gen/internal/runtime/marshal.go  | 14 ++++++++++++--
 cmd/xgo/asset/runtime_gen/internal/trap/object.go  |  3 ++-
 runtime/internal/runtime/marshal.go                | 14 ++++++++++++--
 runtime/internal/trap/object.go                    |  3 ++-
 4 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/runtime/marshal.go b/cmd/xgo/asset/runtime_gen/internal/runtime/marshal.go
index 4b2e97e..a67c186 100755
--- a/cmd/xgo/asset/runtime_gen/internal/runtime/marshal.go
+++ b/cmd/xgo/asset/runtime_gen/internal/runtime/marshal.go
@@ -6,6 +6,15 @@ import (
 	"runtime/debug"
 )
 
+// quoteJSON quotes s as a JSON string, %q is not always valid JSON
+func quoteJSON(s string) []byte {
+	q, err := json.Marshal(s)
+	if err != nil {
+		return []byte(`""`)
+	}
+	return q
+}
+
 func MarshalNoError(v interface{}) (result []byte) {
 	g := GetG()
 	if !g.looseJsonMarshaling {
@@ -27,10 +36,11 @@ func MarshalNoError(v interface{}) (result []byte) {
 		}
 		var qstackTrace string
 		if len(stackTrace) > 0 {
-			qstackTrace = fmt.Sprintf(", %q: %q", "stackTrace", string(stackTrace))
+			qstackTrace = fmt.Sprintf(", %q: %s", "stackTrace", quoteJSON(string(stackTrace)))
 		}
 		if err != nil {
-			result = []byte(fmt.Sprintf("{%q: %q%s}", "error", err.Error(), qstackTrace))
+			// fmt is safe against a panicking Error()
+			result = []byte(fmt.Sprintf("{%q: %s%s}", "error", quoteJSON(fmt.Sprint(err)), qstackTrace))
 		}
 	}()
 	result, err = json.Marshal(v)
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/object.go b/cmd/xgo/asset/runtime_gen/internal/trap/object.go
index 7b99cc9..68cc8b9 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/object.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/object.go
@@ -122,7 +122,8 @@ func (c *structValue) MarshalJSON() ([]byte, error) {
 		}
 		res := runtime.MarshalNoError(c.Values[i])
 		if len(res) > DEFAULT_SIZE_LIMIT {
-			fields[i] = fmt.Sprintf("%q: %q", fieldName, string(res[:DEFAULT_SIZE_LIMIT]))
+			// %q is not always valid JSON
+			fields[i] = fmt.Sprintf("%q: %s", fieldName, runtime.MarshalNoError(string(res[:DEFAULT_SIZE_LIMIT])))
 		} else {
 			fields[i] = fmt.Sprintf("%q: %s", fieldName, res)
 		}
diff --git a/runtime/internal/runtime/marshal.go b/runtime/internal/runtime/marshal.go
index 4b2e97e..a67c186 100644
--- a/runtime/internal/runtime/marshal.go
+++ b/runtime/internal/runtime/marshal.go
@@ -6,6 +6,15 @@ import (
 	"runtime/debug"
 )
 
+// quoteJSON quotes s as a JSON string, %q is not always valid JSON
+func quoteJSON(s string) []byte {
+	q, err := json.Marshal(s)
+	if err != nil {
+		return []byte(`""`)
+	}
+	return q
+}
+
 func MarshalNoError(v interface{}) (result []byte) {
 	g := GetG()
 	if !g.looseJsonMarshaling {
@@ -27,10 +36,11 @@ func MarshalNoError(v interface{}) (result []byte) {
 		}
 		var qstackTrace string
 		if len(stackTrace) > 0 {
-			qstackTrace = fmt.Sprintf(", %q: %q", "stackTrace", string(stackTrace))
+			qstackTrace = fmt.Sprintf(", %q: %s", "stackTrace", quoteJSON(string(stackTrace)))
 		}
 		if err != nil {
-			result = []byte(fmt.Sprintf("{%q: %q%s}", "error", err.Error(), qstackTrace))
+			// fmt is safe against a panicking Error()
+			result = []byte(fmt.Sprintf("{%q: %s%s}", "error", quoteJSON(fmt.Sprint(err)), qstackTrace))
 		}
 	}()
 	result, err = json.Marshal(v)
diff --git a/runtime/internal/trap/object.go b/runtime/internal/trap/object.go
index 7b99cc9..68cc8b9 100644
--- a/runtime/internal/trap/object.go
+++ b/runtime/internal/trap/object.go
@@ -122,7 +122,8 @@ func (c *structValue) MarshalJSON() ([]byte, error) {
 		}
 		res := runtime.MarshalNoError(c.Values[i])
 		if len(res) > DEFAULT_SIZE_LIMIT {
-			fields[i] = fmt.Sprintf("%q: %q", fieldName, string(res[:DEFAULT_SIZE_LIMIT]))
+			// %q is not always valid JSON
+			fields[i] = fmt.Sprintf("%q: %s", fieldName, runtime.MarshalNoError(string(res[:DEFAULT_SIZE_LIMIT])))
 		} else {
 			fields[i] = fmt.Sprintf("%q: %s", fieldName, res)
 		}
-- 
2.43.0


From beb464bcb4bb7f503a88d43f3aa3614e19f60c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 09/71] fix: finishing a trace keeps the goroutine's mocks,
 recorders and interceptors

---
 .../runtime_gen/internal/trap/stack_data.go   |  7 ++++++
 .../asset/runtime_gen/internal/trap/trap.go   | 24 ++++++++++++++++++-
 runtime/internal/trap/stack_data.go           |  7 ++++++
 runtime/internal/trap/trap.go                 | 24 ++++++++++++++++++-
 4 files changed, 60 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go b/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
index 4c028ab..d4cea63 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
@@ -39,6 +39,13 @@ type interceptorHolders struct {
 	interceptors []*recorderHolder
 }
 
+// used tells if anything has ever been set up
+func (c *interceptorHolders) used() bool {
+	return c.mock != nil || c.varMock != nil || c.varPtrMock != nil ||
+		c.recorder != nil || c.varRecorder != nil || c.varPtrRecorder != nil ||
+		c.interceptors != nil
+}
+
 func getStackData() *StackData {
 	return getStackDataOf(stack.Get())
 }
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index e55fb73..f180980 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -297,6 +297,9 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		if outputFile == "" && onFinish == nil {
 			if stackAttached {
 				stack.Detach()
+			} else {
+				stackData.hasStartedTracing = false
+				stackData.filterTrace = nil
 			}
 			return postRecorder, false
 		}
@@ -440,7 +443,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 					}
 				}
 			}
-			stack.Detach()
+			finishTracing(stackData)
 		}
 	}
 	if mocked {
@@ -453,6 +456,25 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	return post, false
 }
 
+// finishTracing drops the finished stack, but keeps mocks, recorders
+// and interceptors that were set up before or during the tracing.
+func finishTracing(stackData *StackData) {
+	stack.Detach()
+	stackData.hasStartedTracing = false
+	stackData.filterTrace = nil
+	stackData.onFinish = nil
+	stackData.stackOutputFile = ""
+	if !stackData.interceptors.used() {
+		return
+	}
+	stack.Attach(&stack.Stack{
+		Begin: xgo_runtime.XgoRealTimeNow(),
+		Data: map[interface{}]interface{}{
+			dataKey: stackData,
+		},
+	})
+}
+
 type StackDataExportImpl struct {
 	data *stack_model.Stack
 
diff --git a/runtime/internal/trap/stack_data.go b/runtime/internal/trap/stack_data.go
index 4c028ab..d4cea63 100644
--- a/runtime/internal/trap/stack_data.go
+++ b/runtime/internal/trap/stack_data.go
@@ -39,6 +39,13 @@ type interceptorHolders struct {
 	interceptors []*recorderHolder
 }
 
+// used tells if anything has ever been set up
+func (c *interceptorHolders) used() bool {
+	return c.mock != nil || c.varMock != nil || c.varPtrMock != nil ||
+		c.recorder != nil || c.varRecorder != nil || c.varPtrRecorder != nil ||
+		c.interceptors != nil
+}
+
 func getStackData() *StackData {
 	return getStackDataOf(stack.Get())
 }
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index e55fb73..f180980 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -297,6 +297,9 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		if outputFile == "" && onFinish == nil {
 			if stackAttached {
 				stack.Detach()
+			} else {
+				stackData.hasStartedTracing = false
+				stackData.filterTrace = nil
 			}
 			return postRecorder, false
 		}
@@ -440,7 +443,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 					}
 				}
 			}
-			stack.Detach()
+			finishTracing(stackData)
 		}
 	}
 	if mocked {
@@ -453,6 +456,25 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	return post, false
 }
 
+// finishTracing drops the finished stack, but keeps mocks, recorders
+// and interceptors that were set up before or during the tracing.
+func finishTracing(stackData *StackData) {
+	stack.Detach()
+	stackData.hasStartedTracing = false
+	stackData.filterTrace = nil
+	stackData.onFinish = nil
+	stackData.stackOutputFile = ""
+	if !stackData.interceptors.used() {
+		return
+	}
+	stack.Attach(&stack.Stack{
+		Begin: xgo_runtime.XgoRealTimeNow(),
+		Data: map[interface{}]interface{}{
+			dataKey: stackData,
+		},
+	})
+}
+
 type StackDataExportImpl struct {
 	data *stack_model.Stack
 
-- 
2.43.0


From b2500016a6538d1f2654af4db154ff49abe65fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:41 +0000
Subject: [PATCH 10/71] fix: a mock or recorder of a generic instantiation
 leaves other instantiations alone

Instantiations of the same GC shape share one compiled function, so
mocking F[int] also replaced F[MyInt] and mocking F[*A] made a call of
F[*B] panic in reflect. Compare the types of the call with those of the
chosen instantiation.
---
 .../asset/runtime_gen/internal/trap/init.go   |  2 +
 .../asset/runtime_gen/internal/trap/mock.go   | 55 +++++++++++++++++--
 .../asset/runtime_gen/internal/trap/record.go | 14 +++--
 .../runtime_gen/internal/trap/stack_data.go   | 21 ++++---
 .../asset/runtime_gen/internal/trap/trap.go   |  5 +-
 runtime/internal/trap/init.go                 |  2 +
 runtime/internal/trap/mock.go                 | 55 +++++++++++++++++--
 runtime/internal/trap/record.go               | 14 +++--
 runtime/internal/trap/stack_data.go           | 21 ++++---
 runtime/internal/trap/trap.go                 |  5 +-
 10 files changed, 158 insertions(+), 36 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/init.go b/cmd/xgo/asset/runtime_gen/internal/trap/init.go
index 509e16c..384f027 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/init.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/init.go
@@ -79,6 +79,7 @@ func cloneFuncMocks(mock map[uintptr][]*mockHolder) map[uintptr][]*mockHolder {
 		for i, m := range mocks {
 			newMocks[i] = &mockHolder{
 				wantRecvPtr: m.wantRecvPtr,
+				wantType:    m.wantType,
 				mock:        m.mock,
 			}
 		}
@@ -114,6 +115,7 @@ func cloneFuncRecordMapping(recorders map[uintptr][]*recorderHolder) map[uintptr
 		for i, recorder := range recorders {
 			newRecorders[pc][i] = &recorderHolder{
 				wantRecvPtr: recorder.wantRecvPtr,
+				wantType:    recorder.wantType,
 				pre:         recorder.pre,
 				post:        recorder.post,
 			}
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
index ef80e26..a47e939 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
@@ -32,7 +32,9 @@ var ErrNotInstrumented = errors.New("not instrumented by xgo, see https://github
 
 type mockHolder struct {
 	wantRecvPtr interface{}
-	mock        func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool
+	// set when fn is generic, see sameInstance
+	wantType reflect.Type
+	mock     func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool
 }
 
 type varMockHolder struct {
@@ -116,9 +118,9 @@ func pushMockInterceptor(fn interface{}, interceptor Interceptor) func() {
 		panic(fmt.Errorf("fn should be func or pointer to variable, actual: %T", fn))
 	}
 
-	recvPtr, _, _, trappingPC := Inspect(fn)
+	recvPtr, funcInfo, _, trappingPC := Inspect(fn)
 	handler := buildMockFromInterceptor(recvPtr, interceptor)
-	return pushMockHandler(trappingPC, recvPtr, handler)
+	return pushInstanceMockHandler(trappingPC, recvPtr, instanceType(funcInfo, fn), handler)
 }
 
 func pushMockReplacer(fn interface{}, replacer interface{}) func() {
@@ -159,7 +161,7 @@ func pushMockReplacer(fn interface{}, replacer interface{}) func() {
 
 	recvPtr, funcInfo, _, trappingPC := Inspect(fn)
 	handler := buildMockHandler(recvPtr, funcInfo, replacer)
-	return pushMockHandler(trappingPC, recvPtr, handler)
+	return pushInstanceMockHandler(trappingPC, recvPtr, instanceType(funcInfo, fn), handler)
 }
 
 // pushMockHandler pushes a mock handler to the stack.
@@ -168,6 +170,10 @@ func pushMockReplacer(fn interface{}, replacer interface{}) func() {
 // the caller returned.
 // `mock` returns `false` if the original function should be called.
 func pushMockHandler(pc uintptr, recvPtr interface{}, handler func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool) func() {
+	return pushInstanceMockHandler(pc, recvPtr, nil, handler)
+}
+
+func pushInstanceMockHandler(pc uintptr, recvPtr interface{}, wantType reflect.Type, handler func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool) func() {
 	holder := &globalInterceptorHolder
 	if runtime.XgoInitFinished() {
 		stackData := getOrAttachStackData()
@@ -176,7 +182,7 @@ func pushMockHandler(pc uintptr, recvPtr interface{}, handler func(fnInfo *core.
 	if holder.mock == nil {
 		holder.mock = map[uintptr][]*mockHolder{}
 	}
-	h := &mockHolder{wantRecvPtr: recvPtr, mock: handler}
+	h := &mockHolder{wantRecvPtr: recvPtr, wantType: wantType, mock: handler}
 	holder.mock[pc] = append(holder.mock[pc], h)
 	return func() {
 		if holder == &globalInterceptorHolder && runtime.XgoInitFinished() {
@@ -367,6 +373,45 @@ func sameReceiver(recvPtr interface{}, actRecvPtr interface{}) bool {
 	return equalValue(recvPtrVal.Elem().Interface(), actRecvPtrVal.Elem().Interface())
 }
 
+// instanceType returns the type of fn if fn is generic
+func instanceType(funcInfo *core.FuncInfo, fn interface{}) reflect.Type {
+	if funcInfo == nil || !funcInfo.Generic {
+		return nil
+	}
+	return reflect.TypeOf(fn)
+}
+
+// sameInstance tells if a call is made to the instantiation having
+// type wantType. Go compiles instantiations of the same shape into
+// one function, e.g. F[*A] and F[*B], so their pc are the same.
+// bound is true if wantType is the type of a method value, which
+// does not contain the receiver.
+func sameInstance(wantType reflect.Type, bound bool, recvPtr interface{}, args []interface{}, results []interface{}) bool {
+	if wantType == nil {
+		return true
+	}
+	params := args
+	if recvPtr != nil && !bound {
+		params = make([]interface{}, 0, 1+len(args))
+		params = append(params, recvPtr)
+		params = append(params, args...)
+	}
+	if len(params) != wantType.NumIn() || len(results) != wantType.NumOut() {
+		return true
+	}
+	for i, param := range params {
+		if reflect.TypeOf(param).Elem() != wantType.In(i) {
+			return false
+		}
+	}
+	for i, result := range results {
+		if reflect.TypeOf(result).Elem() != wantType.Out(i) {
+			return false
+		}
+	}
+	return true
+}
+
 // equalValue compares a and b with ==, receivers that are
 // not comparable(e.g. slice, or struct having a map) are
 // compared by content
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/record.go b/cmd/xgo/asset/runtime_gen/internal/trap/record.go
index 8ab8ad6..c947f63 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/record.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/record.go
@@ -70,9 +70,9 @@ func pushRecorder(fn interface{}, pre interface{}, post interface{}) func() {
 		panic(fmt.Errorf("fn should be func or pointer to variable, actual: %T", fn))
 	}
 
-	recvPtr, _, _, trappingPC := Inspect(fn)
+	recvPtr, funcInfo, _, trappingPC := Inspect(fn)
 	preHandler, postHandler := buildRecorderHandler(recvPtr, fn, pre, post)
-	return PushRecordHandler(trappingPC, recvPtr, preHandler, postHandler)
+	return pushInstanceRecordHandler(trappingPC, recvPtr, instanceType(funcInfo, fn), preHandler, postHandler)
 }
 
 func pushRecorderInterceptor(fn interface{}, preInterceptor PreInterceptor, postInterceptor PostInterceptor) func() {
@@ -132,12 +132,16 @@ func pushRecorderInterceptor(fn interface{}, preInterceptor PreInterceptor, post
 		panic(fmt.Errorf("fn should be func or pointer to variable, actual: %T", fn))
 	}
 
-	recvPtr, _, _, trappingPC := Inspect(fn)
+	recvPtr, funcInfo, _, trappingPC := Inspect(fn)
 	pre, post := buildRecorderFromInterceptor(recvPtr, preInterceptor, postInterceptor)
-	return PushRecordHandler(trappingPC, recvPtr, pre, post)
+	return pushInstanceRecordHandler(trappingPC, recvPtr, instanceType(funcInfo, fn), pre, post)
 }
 
 func PushRecordHandler(pc uintptr, recvPtr interface{}, pre func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) (interface{}, bool), post func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}, data interface{})) func() {
+	return pushInstanceRecordHandler(pc, recvPtr, nil, pre, post)
+}
+
+func pushInstanceRecordHandler(pc uintptr, recvPtr interface{}, wantType reflect.Type, pre func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) (interface{}, bool), post func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}, data interface{})) func() {
 	holder := &globalInterceptorHolder
 	if runtime.XgoInitFinished() {
 		stack := getOrAttachStackData()
@@ -146,7 +150,7 @@ func PushRecordHandler(pc uintptr, recvPtr interface{}, pre func(fnInfo *core.Fu
 	if holder.recorder == nil {
 		holder.recorder = map[uintptr][]*recorderHolder{}
 	}
-	h := &recorderHolder{wantRecvPtr: recvPtr, pre: pre, post: post}
+	h := &recorderHolder{wantRecvPtr: recvPtr, wantType: wantType, pre: pre, post: post}
 	holder.recorder[pc] = append(holder.recorder[pc], h)
 	return func() {
 		if holder == &globalInterceptorHolder && runtime.XgoInitFinished() {
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go b/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
index d4cea63..bfa5196 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
@@ -1,6 +1,8 @@
 package trap
 
 import (
+	"reflect"
+
 	"github.com/xhd2015/xgo/runtime/core"
 	"github.com/xhd2015/xgo/runtime/internal/stack"
 	"github.com/xhd2015/xgo/runtime/trace/stack_model"
@@ -76,8 +78,10 @@ func getOrAttachStackDataOf(stk *stack.Stack) *StackData {
 
 type recorderHolder struct {
 	wantRecvPtr interface{}
-	pre         func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) (interface{}, bool)
-	post        func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}, data interface{})
+	// set when fn is generic, see sameInstance
+	wantType reflect.Type
+	pre      func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) (interface{}, bool)
+	post     func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}, data interface{})
 }
 
 type varRecordHolder struct {
@@ -86,22 +90,25 @@ type varRecordHolder struct {
 }
 
 // getLastMock returns the last mock that applies to the receiver of the call
-func (c *StackData) getLastMock(pc uintptr, recvPtr interface{}) func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool {
+func (c *StackData) getLastMock(pc uintptr, recvPtr interface{}, args []interface{}, results []interface{}) func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool {
 	if c != nil {
-		if m := lastMockOf(c.interceptors.mock[pc], recvPtr); m != nil {
+		if m := lastMockOf(c.interceptors.mock[pc], recvPtr, args, results); m != nil {
 			return m.mock
 		}
 	}
-	if m := lastMockOf(globalInterceptorHolder.mock[pc], recvPtr); m != nil {
+	if m := lastMockOf(globalInterceptorHolder.mock[pc], recvPtr, args, results); m != nil {
 		return m.mock
 	}
 	return nil
 }
 
-func lastMockOf(mockList []*mockHolder, recvPtr interface{}) *mockHolder {
+func lastMockOf(mockList []*mockHolder, recvPtr interface{}, args []interface{}, results []interface{}) *mockHolder {
 	for i := len(mockList) - 1; i >= 0; i-- {
 		m := mockList[i]
-		if m.wantRecvPtr == nil || (recvPtr != nil && sameReceiver(recvPtr, m.wantRecvPtr)) {
+		if m.wantRecvPtr != nil && (recvPtr == nil || !sameReceiver(recvPtr, m.wantRecvPtr)) {
+			continue
+		}
+		if sameInstance(m.wantType, m.wantRecvPtr != nil, recvPtr, args, results) {
 			return m
 		}
 	}
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index f180980..b9ba100 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -133,7 +133,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	//
 	//
 	// === start check mock and interceptors ===
-	mock := stackData.getLastMock(fnPC, recvPtr)
+	mock := stackData.getLastMock(fnPC, recvPtr, args, results)
 	recordHandlers := stackData.getRecordHandlers(fnPC)
 	var interceptors []*recorderHolder
 	if depth <= 1 {
@@ -154,6 +154,9 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		if h.wantRecvPtr != nil && (recvPtr == nil || !sameReceiver(recvPtr, h.wantRecvPtr)) {
 			continue
 		}
+		if !sameInstance(h.wantType, h.wantRecvPtr != nil, recvPtr, args, results) {
+			continue
+		}
 		var data interface{}
 		var stop bool
 		if h.pre != nil {
diff --git a/runtime/internal/trap/init.go b/runtime/internal/trap/init.go
index 509e16c..384f027 100644
--- a/runtime/internal/trap/init.go
+++ b/runtime/internal/trap/init.go
@@ -79,6 +79,7 @@ func cloneFuncMocks(mock map[uintptr][]*mockHolder) map[uintptr][]*mockHolder {
 		for i, m := range mocks {
 			newMocks[i] = &mockHolder{
 				wantRecvPtr: m.wantRecvPtr,
+				wantType:    m.wantType,
 				mock:        m.mock,
 			}
 		}
@@ -114,6 +115,7 @@ func cloneFuncRecordMapping(recorders map[uintptr][]*recorderHolder) map[uintptr
 		for i, recorder := range recorders {
 			newRecorders[pc][i] = &recorderHolder{
 				wantRecvPtr: recorder.wantRecvPtr,
+				wantType:    recorder.wantType,
 				pre:         recorder.pre,
 				post:        recorder.post,
 			}
diff --git a/runtime/internal/trap/mock.go b/runtime/internal/trap/mock.go
index ef80e26..a47e939 100644
--- a/runtime/internal/trap/mock.go
+++ b/runtime/internal/trap/mock.go
@@ -32,7 +32,9 @@ var ErrNotInstrumented = errors.New("not instrumented by xgo, see https://github
 
 type mockHolder struct {
 	wantRecvPtr interface{}
-	mock        func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool
+	// set when fn is generic, see sameInstance
+	wantType reflect.Type
+	mock     func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool
 }
 
 type varMockHolder struct {
@@ -116,9 +118,9 @@ func pushMockInterceptor(fn interface{}, interceptor Interceptor) func() {
 		panic(fmt.Errorf("fn should be func or pointer to variable, actual: %T", fn))
 	}
 
-	recvPtr, _, _, trappingPC := Inspect(fn)
+	recvPtr, funcInfo, _, trappingPC := Inspect(fn)
 	handler := buildMockFromInterceptor(recvPtr, interceptor)
-	return pushMockHandler(trappingPC, recvPtr, handler)
+	return pushInstanceMockHandler(trappingPC, recvPtr, instanceType(funcInfo, fn), handler)
 }
 
 func pushMockReplacer(fn interface{}, replacer interface{}) func() {
@@ -159,7 +161,7 @@ func pushMockReplacer(fn interface{}, replacer interface{}) func() {
 
 	recvPtr, funcInfo, _, trappingPC := Inspect(fn)
 	handler := buildMockHandler(recvPtr, funcInfo, replacer)
-	return pushMockHandler(trappingPC, recvPtr, handler)
+	return pushInstanceMockHandler(trappingPC, recvPtr, instanceType(funcInfo, fn), handler)
 }
 
 // pushMockHandler pushes a mock handler to the stack.
@@ -168,6 +170,10 @@ func pushMockReplacer(fn interface{}, replacer interface{}) func() {
 // the caller returned.
 // `mock` returns `false` if the original function should be called.
 func pushMockHandler(pc uintptr, recvPtr interface{}, handler func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool) func() {
+	return pushInstanceMockHandler(pc, recvPtr, nil, handler)
+}
+
+func pushInstanceMockHandler(pc uintptr, recvPtr interface{}, wantType reflect.Type, handler func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool) func() {
 	holder := &globalInterceptorHolder
 	if runtime.XgoInitFinished() {
 		stackData := getOrAttachStackData()
@@ -176,7 +182,7 @@ func pushMockHandler(pc uintptr, recvPtr interface{}, handler func(fnInfo *core.
 	if holder.mock == nil {
 		holder.mock = map[uintptr][]*mockHolder{}
 	}
-	h := &mockHolder{wantRecvPtr: recvPtr, mock: handler}
+	h := &mockHolder{wantRecvPtr: recvPtr, wantType: wantType, mock: handler}
 	holder.mock[pc] = append(holder.mock[pc], h)
 	return func() {
 		if holder == &globalInterceptorHolder && runtime.XgoInitFinished() {
@@ -367,6 +373,45 @@ func sameReceiver(recvPtr interface{}, actRecvPtr interface{}) bool {
 	return equalValue(recvPtrVal.Elem().Interface(), actRecvPtrVal.Elem().Interface())
 }
 
+// instanceType returns the type of fn if fn is generic
+func instanceType(funcInfo *core.FuncInfo, fn interface{}) reflect.Type {
+	if funcInfo == nil || !funcInfo.Generic {
+		return nil
+	}
+	return reflect.TypeOf(fn)
+}
+
+// sameInstance tells if a call is made to the instantiation having
+// type wantType. Go compiles instantiations of the same shape into
+// one function, e.g. F[*A] and F[*B], so their pc are the same.
+// bound is true if wantType is the type of a method value, which
+// does not contain the receiver.
+func sameInstance(wantType reflect.Type, bound bool, recvPtr interface{}, args []interface{}, results []interface{}) bool {
+	if wantType == nil {
+		return true
+	}
+	params := args
+	if recvPtr != nil && !bound {
+		params = make([]interface{}, 0, 1+len(args))
+		params = append(params, recvPtr)
+		params = append(params, args...)
+	}
+	if len(params) != wantType.NumIn() || len(results) != wantType.NumOut() {
+		return true
+	}
+	for i, param := range params {
+		if reflect.TypeOf(param).Elem() != wantType.In(i) {
+			return false
+		}
+	}
+	for i, result := range results {
+		if reflect.TypeOf(result).Elem() != wantType.Out(i) {
+			return false
+		}
+	}
+	return true
+}
+
 // equalValue compares a and b with ==, receivers that are
 // not comparable(e.g. slice, or struct having a map) are
 // compared by content
diff --git a/runtime/internal/trap/record.go b/runtime/internal/trap/record.go
index 8ab8ad6..c947f63 100644
--- a/runtime/internal/trap/record.go
+++ b/runtime/internal/trap/record.go
@@ -70,9 +70,9 @@ func pushRecorder(fn interface{}, pre interface{}, post interface{}) func() {
 		panic(fmt.Errorf("fn should be func or pointer to variable, actual: %T", fn))
 	}
 
-	recvPtr, _, _, trappingPC := Inspect(fn)
+	recvPtr, funcInfo, _, trappingPC := Inspect(fn)
 	preHandler, postHandler := buildRecorderHandler(recvPtr, fn, pre, post)
-	return PushRecordHandler(trappingPC, recvPtr, preHandler, postHandler)
+	return pushInstanceRecordHandler(trappingPC, recvPtr, instanceType(funcInfo, fn), preHandler, postHandler)
 }
 
 func pushRecorderInterceptor(fn interface{}, preInterceptor PreInterceptor, postInterceptor PostInterceptor) func() {
@@ -132,12 +132,16 @@ func pushRecorderInterceptor(fn interface{}, preInterceptor PreInterceptor, post
 		panic(fmt.Errorf("fn should be func or pointer to variable, actual: %T", fn))
 	}
 
-	recvPtr, _, _, trappingPC := Inspect(fn)
+	recvPtr, funcInfo, _, trappingPC := Inspect(fn)
 	pre, post := buildRecorderFromInterceptor(recvPtr, preInterceptor, postInterceptor)
-	return PushRecordHandler(trappingPC, recvPtr, pre, post)
+	return pushInstanceRecordHandler(trappingPC, recvPtr, instanceType(funcInfo, fn), pre, post)
 }
 
 func PushRecordHandler(pc uintptr, recvPtr interface{}, pre func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) (interface{}, bool), post func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}, data interface{})) func() {
+	return pushInstanceRecordHandler(pc, recvPtr, nil, pre, post)
+}
+
+func pushInstanceRecordHandler(pc uintptr, recvPtr interface{}, wantType reflect.Type, pre func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) (interface{}, bool), post func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}, data interface{})) func() {
 	holder := &globalInterceptorHolder
 	if runtime.XgoInitFinished() {
 		stack := getOrAttachStackData()
@@ -146,7 +150,7 @@ func PushRecordHandler(pc uintptr, recvPtr interface{}, pre func(fnInfo *core.Fu
 	if holder.recorder == nil {
 		holder.recorder = map[uintptr][]*recorderHolder{}
 	}
-	h := &recorderHolder{wantRecvPtr: recvPtr, pre: pre, post: post}
+	h := &recorderHolder{wantRecvPtr: recvPtr, wantType: wantType, pre: pre, post: post}
 	holder.recorder[pc] = append(holder.recorder[pc], h)
 	return func() {
 		if holder == &globalInterceptorHolder && runtime.XgoInitFinished() {
diff --git a/runtime/internal/trap/stack_data.go b/runtime/internal/trap/stack_data.go
index d4cea63..bfa5196 100644
--- a/runtime/internal/trap/stack_data.go
+++ b/runtime/internal/trap/stack_data.go
@@ -1,6 +1,8 @@
 package trap
 
 import (
+	"reflect"
+
 	"github.com/xhd2015/xgo/runtime/core"
 	"github.com/xhd2015/xgo/runtime/internal/stack"
 	"github.com/xhd2015/xgo/runtime/trace/stack_model"
@@ -76,8 +78,10 @@ func getOrAttachStackDataOf(stk *stack.Stack) *StackData {
 
 type recorderHolder struct {
 	wantRecvPtr interface{}
-	pre         func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) (interface{}, bool)
-	post        func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}, data interface{})
+	// set when fn is generic, see sameInstance
+	wantType reflect.Type
+	pre      func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) (interface{}, bool)
+	post     func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}, data interface{})
 }
 
 type varRecordHolder struct {
@@ -86,22 +90,25 @@ type varRecordHolder struct {
 }
 
 // getLastMock returns the last mock that applies to the receiver of the call
-func (c *StackData) getLastMock(pc uintptr, recvPtr interface{}) func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool {
+func (c *StackData) getLastMock(pc uintptr, recvPtr interface{}, args []interface{}, results []interface{}) func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool {
 	if c != nil {
-		if m := lastMockOf(c.interceptors.mock[pc], recvPtr); m != nil {
+		if m := lastMockOf(c.interceptors.mock[pc], recvPtr, args, results); m != nil {
 			return m.mock
 		}
 	}
-	if m := lastMockOf(globalInterceptorHolder.mock[pc], recvPtr); m != nil {
+	if m := lastMockOf(globalInterceptorHolder.mock[pc], recvPtr, args, results); m != nil {
 		return m.mock
 	}
 	return nil
 }
 
-func lastMockOf(mockList []*mockHolder, recvPtr interface{}) *mockHolder {
+func lastMockOf(mockList []*mockHolder, recvPtr interface{}, args []interface{}, results []interface{}) *mockHolder {
 	for i := len(mockList) - 1; i >= 0; i-- {
 		m := mockList[i]
-		if m.wantRecvPtr == nil || (recvPtr != nil && sameReceiver(recvPtr, m.wantRecvPtr)) {
+		if m.wantRecvPtr != nil && (recvPtr == nil || !sameReceiver(recvPtr, m.wantRecvPtr)) {
+			continue
+		}
+		if sameInstance(m.wantType, m.wantRecvPtr != nil, recvPtr, args, results) {
 			return m
 		}
 	}
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index f180980..b9ba100 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -133,7 +133,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	//
 	//
 	// === start check mock and interceptors ===
-	mock := stackData.getLastMock(fnPC, recvPtr)
+	mock := stackData.getLastMock(fnPC, recvPtr, args, results)
 	recordHandlers := stackData.getRecordHandlers(fnPC)
 	var interceptors []*recorderHolder
 	if depth <= 1 {
@@ -154,6 +154,9 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		if h.wantRecvPtr != nil && (recvPtr == nil || !sameReceiver(recvPtr, h.wantRecvPtr)) {
 			continue
 		}
+		if !sameInstance(h.wantType, h.wantRecvPtr != nil, recvPtr, args, results) {
+			continue
+		}
 		var data interface{}
 		var stop bool
 		if h.pre != nil {
-- 
2.43.0


From 2026ac0e3cdb6930c42af816acbeaf7c2775f721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:50 +0000
Subject: [PATCH 11/71] fix: undoing a recorder or interceptor during a call
 does not disturb the other ones

Removal shifted the list in place while the call was still ranging over
it, so that a one-shot interceptor made the next one be skipped and the
last one run twice.
---
 .../asset/runtime_gen/internal/trap/interceptor.go   |  4 ++--
 cmd/xgo/asset/runtime_gen/internal/trap/mock.go      | 12 ++++++------
 cmd/xgo/asset/runtime_gen/internal/trap/record.go    | 12 ++++++------
 runtime/internal/trap/interceptor.go                 |  4 ++--
 runtime/internal/trap/mock.go                        | 12 ++++++------
 runtime/internal/trap/record.go                      | 12 ++++++------
 6 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/interceptor.go b/cmd/xgo/asset/runtime_gen/internal/trap/interceptor.go
index 588e3eb..0523f9c 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/interceptor.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/interceptor.go
@@ -56,13 +56,13 @@ func pushInterceptor(pre PreInterceptor, post PostInterceptor) func() {
 		list := holder.interceptors
 		n := len(list)
 		if list[n-1] == h {
-			holder.interceptors = list[:n-1]
+			holder.interceptors = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.interceptors = append(list[:i], list[i+1:]...)
+				holder.interceptors = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
index a47e939..752b7e0 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
@@ -191,13 +191,13 @@ func pushInstanceMockHandler(pc uintptr, recvPtr interface{}, wantType reflect.T
 		list := holder.mock[pc]
 		n := len(list)
 		if list[n-1] == h {
-			holder.mock[pc] = list[:n-1]
+			holder.mock[pc] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.mock[pc] = append(list[:i], list[i+1:]...)
+				holder.mock[pc] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -223,13 +223,13 @@ func pushVarMockHandler(varAddr uintptr, mock func(fnInfo *core.FuncInfo, res in
 		list := holder.varMock[varAddr]
 		n := len(list)
 		if list[n-1] == h {
-			holder.varMock[varAddr] = list[:n-1]
+			holder.varMock[varAddr] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.varMock[varAddr] = append(list[:i], list[i+1:]...)
+				holder.varMock[varAddr] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -255,13 +255,13 @@ func pushVarPtrMockHandler(varAddr uintptr, mock func(fnInfo *core.FuncInfo, res
 		list := holder.varPtrMock[varAddr]
 		n := len(list)
 		if list[n-1] == h {
-			holder.varPtrMock[varAddr] = list[:n-1]
+			holder.varPtrMock[varAddr] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.varPtrMock[varAddr] = append(list[:i], list[i+1:]...)
+				holder.varPtrMock[varAddr] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/record.go b/cmd/xgo/asset/runtime_gen/internal/trap/record.go
index c947f63..12621d1 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/record.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/record.go
@@ -159,13 +159,13 @@ func pushInstanceRecordHandler(pc uintptr, recvPtr interface{}, wantType reflect
 		list := holder.recorder[pc]
 		n := len(list)
 		if list[n-1] == h {
-			holder.recorder[pc] = list[:n-1]
+			holder.recorder[pc] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.recorder[pc] = append(list[:i], list[i+1:]...)
+				holder.recorder[pc] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -191,13 +191,13 @@ func PushVarRecordHandler(varAddr uintptr, pre func(fnInfo *core.FuncInfo, res i
 		list := holder.varRecorder[varAddr]
 		n := len(list)
 		if list[n-1] == h {
-			holder.varRecorder[varAddr] = list[:n-1]
+			holder.varRecorder[varAddr] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.varRecorder[varAddr] = append(list[:i], list[i+1:]...)
+				holder.varRecorder[varAddr] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -223,13 +223,13 @@ func PushVarPtrRecordHandler(varAddr uintptr, pre func(fnInfo *core.FuncInfo, re
 		list := holder.varPtrRecorder[varAddr]
 		n := len(list)
 		if list[n-1] == h {
-			holder.varPtrRecorder[varAddr] = list[:n-1]
+			holder.varPtrRecorder[varAddr] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.varPtrRecorder[varAddr] = append(list[:i], list[i+1:]...)
+				holder.varPtrRecorder[varAddr] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
diff --git a/runtime/internal/trap/interceptor.go b/runtime/internal/trap/interceptor.go
index 588e3eb..0523f9c 100644
--- a/runtime/internal/trap/interceptor.go
+++ b/runtime/internal/trap/interceptor.go
@@ -56,13 +56,13 @@ func pushInterceptor(pre PreInterceptor, post PostInterceptor) func() {
 		list := holder.interceptors
 		n := len(list)
 		if list[n-1] == h {
-			holder.interceptors = list[:n-1]
+			holder.interceptors = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.interceptors = append(list[:i], list[i+1:]...)
+				holder.interceptors = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
diff --git a/runtime/internal/trap/mock.go b/runtime/internal/trap/mock.go
index a47e939..752b7e0 100644
--- a/runtime/internal/trap/mock.go
+++ b/runtime/internal/trap/mock.go
@@ -191,13 +191,13 @@ func pushInstanceMockHandler(pc uintptr, recvPtr interface{}, wantType reflect.T
 		list := holder.mock[pc]
 		n := len(list)
 		if list[n-1] == h {
-			holder.mock[pc] = list[:n-1]
+			holder.mock[pc] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.mock[pc] = append(list[:i], list[i+1:]...)
+				holder.mock[pc] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -223,13 +223,13 @@ func pushVarMockHandler(varAddr uintptr, mock func(fnInfo *core.FuncInfo, res in
 		list := holder.varMock[varAddr]
 		n := len(list)
 		if list[n-1] == h {
-			holder.varMock[varAddr] = list[:n-1]
+			holder.varMock[varAddr] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.varMock[varAddr] = append(list[:i], list[i+1:]...)
+				holder.varMock[varAddr] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -255,13 +255,13 @@ func pushVarPtrMockHandler(varAddr uintptr, mock func(fnInfo *core.FuncInfo, res
 		list := holder.varPtrMock[varAddr]
 		n := len(list)
 		if list[n-1] == h {
-			holder.varPtrMock[varAddr] = list[:n-1]
+			holder.varPtrMock[varAddr] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.varPtrMock[varAddr] = append(list[:i], list[i+1:]...)
+				holder.varPtrMock[varAddr] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
diff --git a/runtime/internal/trap/record.go b/runtime/internal/trap/record.go
index c947f63..12621d1 100644
--- a/runtime/internal/trap/record.go
+++ b/runtime/internal/trap/record.go
@@ -159,13 +159,13 @@ func pushInstanceRecordHandler(pc uintptr, recvPtr interface{}, wantType reflect
 		list := holder.recorder[pc]
 		n := len(list)
 		if list[n-1] == h {
-			holder.recorder[pc] = list[:n-1]
+			holder.recorder[pc] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.recorder[pc] = append(list[:i], list[i+1:]...)
+				holder.recorder[pc] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -191,13 +191,13 @@ func PushVarRecordHandler(varAddr uintptr, pre func(fnInfo *core.FuncInfo, res i
 		list := holder.varRecorder[varAddr]
 		n := len(list)
 		if list[n-1] == h {
-			holder.varRecorder[varAddr] = list[:n-1]
+			holder.varRecorder[varAddr] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.varRecorder[varAddr] = append(list[:i], list[i+1:]...)
+				holder.varRecorder[varAddr] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -223,13 +223,13 @@ func PushVarPtrRecordHandler(varAddr uintptr, pre func(fnInfo *core.FuncInfo, re
 		list := holder.varPtrRecorder[varAddr]
 		n := len(list)
 		if list[n-1] == h {
-			holder.varPtrRecorder[varAddr] = list[:n-1]
+			holder.varPtrRecorder[varAddr] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.varPtrRecorder[varAddr] = append(list[:i], list[i+1:]...)
+				holder.varPtrRecorder[varAddr] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
-- 
2.43.0


From 8451fd79fe9d50d3166fe6df054779dd41809671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:53 +0000
Subject: [PATCH 12/71] fix: an interceptor of a generic function can return an
 error and gets the context

The flags telling so are not known for generic functions, so returning
an error panicked instead of becoming the function's error.
---
 .../asset/runtime_gen/internal/trap/build.go  | 30 +++++++++++++++----
 runtime/internal/trap/build.go                | 30 +++++++++++++++----
 2 files changed, 48 insertions(+), 12 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/build.go b/cmd/xgo/asset/runtime_gen/internal/trap/build.go
index b4bf661..0c57889 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/build.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/build.go
@@ -242,7 +242,7 @@ func buildMockFromInterceptor(recvPtr interface{}, interceptor Interceptor) func
 		}
 
 		var ctx context.Context = context.TODO()
-		if funcInfo.FirstArgCtx {
+		if firstArgIsCtx(funcInfo, args) {
 			// see https://github.com/xhd2015/xgo/issues/316 and https://github.com/xhd2015/xgo/issues/377
 			argCtx := reflect.ValueOf(args[0]).Elem().Interface()
 			if argCtx != nil {
@@ -254,7 +254,7 @@ func buildMockFromInterceptor(recvPtr interface{}, interceptor Interceptor) func
 
 		err := interceptor(ctx, funcInfo, argObj, resObject)
 		if err != nil {
-			if funcInfo.LastResultErr {
+			if lastResultIsErr(funcInfo, results) {
 				lastErr := results[len(results)-1].(*error)
 				*lastErr = err
 			} else {
@@ -303,7 +303,7 @@ func buildRecorderFromInterceptor(recvPtr interface{}, preInterceptor PreInterce
 				})
 			}
 			var ctx context.Context = context.TODO()
-			if funcInfo.FirstArgCtx {
+			if firstArgIsCtx(funcInfo, args) {
 				argCtx := reflect.ValueOf(args[0]).Elem().Interface()
 				if argCtx != nil {
 					if expectCtx, ok := argCtx.(context.Context); ok {
@@ -316,7 +316,7 @@ func buildRecorderFromInterceptor(recvPtr interface{}, preInterceptor PreInterce
 				if err == ErrMocked {
 					return nil, true
 				}
-				if funcInfo.LastResultErr {
+				if lastResultIsErr(funcInfo, results) {
 					lastErr := results[len(results)-1].(*error)
 					*lastErr = err
 				} else {
@@ -355,7 +355,7 @@ func buildRecorderFromInterceptor(recvPtr interface{}, preInterceptor PreInterce
 				})
 			}
 			var ctx context.Context = context.TODO()
-			if funcInfo.FirstArgCtx {
+			if firstArgIsCtx(funcInfo, args) {
 				// see https://github.com/xhd2015/xgo/issues/377
 				argCtx := reflect.ValueOf(args[0]).Elem().Interface()
 				if argCtx != nil {
@@ -366,7 +366,7 @@ func buildRecorderFromInterceptor(recvPtr interface{}, preInterceptor PreInterce
 			}
 			err := postInterceptor(ctx, funcInfo, argObj, resObject, data)
 			if err != nil {
-				if funcInfo.LastResultErr {
+				if lastResultIsErr(funcInfo, results) {
 					lastErr := results[len(results)-1].(*error)
 					*lastErr = err
 				} else {
@@ -377,3 +377,21 @@ func buildRecorderFromInterceptor(recvPtr interface{}, preInterceptor PreInterce
 	}
 	return pre, post
 }
+
+// the info of a generic function is shared by all of its instantiations
+// and does not tell the types, so look at the values in that case
+func firstArgIsCtx(funcInfo *core.FuncInfo, args []interface{}) bool {
+	if !funcInfo.Generic || len(args) == 0 {
+		return funcInfo.FirstArgCtx
+	}
+	_, ok := args[0].(*context.Context)
+	return ok
+}
+
+func lastResultIsErr(funcInfo *core.FuncInfo, results []interface{}) bool {
+	if !funcInfo.Generic || len(results) == 0 {
+		return funcInfo.LastResultErr
+	}
+	_, ok := results[len(results)-1].(*error)
+	return ok
+}
diff --git a/runtime/internal/trap/build.go b/runtime/internal/trap/build.go
index b4bf661..0c57889 100644
--- a/runtime/internal/trap/build.go
+++ b/runtime/internal/trap/build.go
@@ -242,7 +242,7 @@ func buildMockFromInterceptor(recvPtr interface{}, interceptor Interceptor) func
 		}
 
 		var ctx context.Context = context.TODO()
-		if funcInfo.FirstArgCtx {
+		if firstArgIsCtx(funcInfo, args) {
 			// see https://github.com/xhd2015/xgo/issues/316 and https://github.com/xhd2015/xgo/issues/377
 			argCtx := reflect.ValueOf(args[0]).Elem().Interface()
 			if argCtx != nil {
@@ -254,7 +254,7 @@ func buildMockFromInterceptor(recvPtr interface{}, interceptor Interceptor) func
 
 		err := interceptor(ctx, funcInfo, argObj, resObject)
 		if err != nil {
-			if funcInfo.LastResultErr {
+			if lastResultIsErr(funcInfo, results) {
 				lastErr := results[len(results)-1].(*error)
 				*lastErr = err
 			} else {
@@ -303,7 +303,7 @@ func buildRecorderFromInterceptor(recvPtr interface{}, preInterceptor PreInterce
 				})
 			}
 			var ctx context.Context = context.TODO()
-			if funcInfo.FirstArgCtx {
+			if firstArgIsCtx(funcInfo, args) {
 				argCtx := reflect.ValueOf(args[0]).Elem().Interface()
 				if argCtx != nil {
 					if expectCtx, ok := argCtx.(context.Context); ok {
@@ -316,7 +316,7 @@ func buildRecorderFromInterceptor(recvPtr interface{}, preInterceptor PreInterce
 				if err == ErrMocked {
 					return nil, true
 				}
-				if funcInfo.LastResultErr {
+				if lastResultIsErr(funcInfo, results) {
 					lastErr := results[len(results)-1].(*error)
 					*lastErr = err
 				} else {
@@ -355,7 +355,7 @@ func buildRecorderFromInterceptor(recvPtr interface{}, preInterceptor PreInterce
 				})
 			}
 			var ctx context.Context = context.TODO()
-			if funcInfo.FirstArgCtx {
+			if firstArgIsCtx(funcInfo, args) {
 				// see https://github.com/xhd2015/xgo/issues/377
 				argCtx := reflect.ValueOf(args[0]).Elem().Interface()
 				if argCtx != nil {
@@ -366,7 +366,7 @@ func buildRecorderFromInterceptor(recvPtr interface{}, preInterceptor PreInterce
 			}
 			err := postInterceptor(ctx, funcInfo, argObj, resObject, data)
 			if err != nil {
-				if funcInfo.LastResultErr {
+				if lastResultIsErr(funcInfo, results) {
 					lastErr := results[len(results)-1].(*error)
 					*lastErr = err
 				} else {
@@ -377,3 +377,21 @@ func buildRecorderFromInterceptor(recvPtr interface{}, preInterceptor PreInterce
 	}
 	return pre, post
 }
+
+// the info of a generic function is shared by all of its instantiations
+// and does not tell the types, so look at the values in that case
+func firstArgIsCtx(funcInfo *core.FuncInfo, args []interface{}) bool {
+	if !funcInfo.Generic || len(args) == 0 {
+		return funcInfo.FirstArgCtx
+	}
+	_, ok := args[0].(*context.Context)
+	return ok
+}
+
+func lastResultIsErr(funcInfo *core.FuncInfo, results []interface{}) bool {
+	if !funcInfo.Generic || len(results) == 0 {
+		return funcInfo.LastResultErr
+	}
+	_, ok := results[len(results)-1].(*error)
+	return ok
+}
-- 
2.43.0


From bbe92dc1e2c4aea8774bfe7a3be8cf8aad910065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:13 +0000
Subject: [PATCH 13/71] fix: find instantiations whose type arguments contain
 brackets

ParseFuncName took the last opening bracket, so G[[]int] or
(*T[func(int) int]).X were reported as not instrumented.
---
 cmd/xgo/asset/runtime_gen/core/func.go | 27 ++++++++++++++++++++++----
 runtime/core/func.go                   | 27 ++++++++++++++++++++++----
 2 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/core/func.go b/cmd/xgo/asset/runtime_gen/core/func.go
index 1726112..d03c628 100755
--- a/cmd/xgo/asset/runtime_gen/core/func.go
+++ b/cmd/xgo/asset/runtime_gen/core/func.go
@@ -108,7 +108,7 @@ func ParseFuncName(fullName string) (pkgPath string, recvName string, recvPtr bo
 	pkg_recv_func_no_generic := fullName
 	// func generic
 	if strings.HasSuffix(pkg_recv_func_no_generic, "]") {
-		leftIdx := strings.LastIndex(pkg_recv_func_no_generic, "[")
+		leftIdx := matchingOpen(pkg_recv_func_no_generic, '[', ']')
 		if leftIdx < 0 {
 			// invalid
 			return
@@ -132,13 +132,13 @@ func ParseFuncName(fullName string) (pkgPath string, recvName string, recvPtr bo
 	pkg_recv_generic := pkg_recv_generic_paren
 	if strings.HasSuffix(pkg_recv_generic_paren, ")") {
 		// receiver wrap
-		leftIdx := strings.LastIndex(pkg_recv_generic_paren, "(")
+		leftIdx := matchingOpen(pkg_recv_generic_paren, '(', ')')
 		if leftIdx < 0 {
 			// invalid
 			return
 		}
 		pkg_recv_generic = pkg_recv_generic_paren[leftIdx+1 : len(pkg_recv_generic_paren)-1]
-		if pkg_recv_generic_paren[leftIdx-1] != '.' {
+		if leftIdx == 0 || pkg_recv_generic_paren[leftIdx-1] != '.' {
 			// invalid
 			return
 		}
@@ -149,7 +149,7 @@ func ParseFuncName(fullName string) (pkgPath string, recvName string, recvPtr bo
 	pkg_recv := pkg_recv_generic
 	// parse generic
 	if strings.HasSuffix(pkg_recv_generic, "]") {
-		leftIdx := strings.LastIndex(pkg_recv_generic, "[")
+		leftIdx := matchingOpen(pkg_recv_generic, '[', ']')
 		if leftIdx < 0 {
 			// invalid
 			return
@@ -190,3 +190,22 @@ func ParseFuncName(fullName string) (pkgPath string, recvName string, recvPtr bo
 
 	return
 }
+
+// matchingOpen returns the index of the bracket that is closed by
+// the last byte of s, type arguments may contain brackets as well,
+// e.g. G[[]int], G[map[string]int], (*T[func(int) int]).X
+func matchingOpen(s string, open byte, close byte) int {
+	depth := 0
+	for i := len(s) - 1; i >= 0; i-- {
+		switch s[i] {
+		case close:
+			depth++
+		case open:
+			depth--
+			if depth == 0 {
+				return i
+			}
+		}
+	}
+	return -1
+}
diff --git a/runtime/core/func.go b/runtime/core/func.go
index 1726112..d03c628 100644
--- a/runtime/core/func.go
+++ b/runtime/core/func.go
@@ -108,7 +108,7 @@ func ParseFuncName(fullName string) (pkgPath string, recvName string, recvPtr bo
 	pkg_recv_func_no_generic := fullName
 	// func generic
 	if strings.HasSuffix(pkg_recv_func_no_generic, "]") {
-		leftIdx := strings.LastIndex(pkg_recv_func_no_generic, "[")
+		leftIdx := matchingOpen(pkg_recv_func_no_generic, '[', ']')
 		if leftIdx < 0 {
 			// invalid
 			return
@@ -132,13 +132,13 @@ func ParseFuncName(fullName string) (pkgPath string, recvName string, recvPtr bo
 	pkg_recv_generic := pkg_recv_generic_paren
 	if strings.HasSuffix(pkg_recv_generic_paren, ")") {
 		// receiver wrap
-		leftIdx := strings.LastIndex(pkg_recv_generic_paren, "(")
+		leftIdx := matchingOpen(pkg_recv_generic_paren, '(', ')')
 		if leftIdx < 0 {
 			// invalid
 			return
 		}
 		pkg_recv_generic = pkg_recv_generic_paren[leftIdx+1 : len(pkg_recv_generic_paren)-1]
-		if pkg_recv_generic_paren[leftIdx-1] != '.' {
+		if leftIdx == 0 || pkg_recv_generic_paren[leftIdx-1] != '.' {
 			// invalid
 			return
 		}
@@ -149,7 +149,7 @@ func ParseFuncName(fullName string) (pkgPath string, recvName string, recvPtr bo
 	pkg_recv := pkg_recv_generic
 	// parse generic
 	if strings.HasSuffix(pkg_recv_generic, "]") {
-		leftIdx := strings.LastIndex(pkg_recv_generic, "[")
+		leftIdx := matchingOpen(pkg_recv_generic, '[', ']')
 		if leftIdx < 0 {
 			// invalid
 			return
@@ -190,3 +190,22 @@ func ParseFuncName(fullName string) (pkgPath string, recvName string, recvPtr bo
 
 	return
 }
+
+// matchingOpen returns the index of the bracket that is closed by
+// the last byte of s, type arguments may contain brackets as well,
+// e.g. G[[]int], G[map[string]int], (*T[func(int) int]).X
+func matchingOpen(s string, open byte, close byte) int {
+	depth := 0
+	for i := len(s) - 1; i >= 0; i-- {
+		switch s[i] {
+		case close:
+			depth++
+		case open:
+			depth--
+			if depth == 0 {
+				return i
+			}
+		}
+	}
+	return -1
+}
-- 
2.43.0


From 5858a4eada4be18d1494ec7b94c9be80beb2ccfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:00 +0000
Subject: [PATCH 14/71] fix: the goroutines of the Go runtime do not inherit
 mocks and traces

Starting the gc workers from a goroutine that traces or mocks ran the
inheritance with runtime locks held (fatal error: schedule: holding
locks, or a deadlock on the lock of the stack), and put them into the
trace.
---
 cmd/xgo/asset/patches/go1.24/src/runtime/xgo_trap.go.txt    | 6 ++++++
 cmd/xgo/asset/patches/go1.25/src/runtime/xgo_trap.go.txt    | 6 ++++++
 cmd/xgo/asset/patches/go1.26/src/runtime/xgo_trap.go.txt    | 6 ++++++
 cmd/xgo/asset/patches/go1.27/src/runtime/xgo_trap.go.txt    | 6 ++++++
 .../asset/runtime_gen/internal/runtime/xgo_trap_template.go | 6 ++++++
 patches/go1.24/src/runtime/xgo_trap.go                      | 6 ++++++
 patches/go1.25/src/runtime/xgo_trap.go                      | 6 ++++++
 patches/go1.26/src/runtime/xgo_trap.go                      | 6 ++++++
 patches/go1.27/src/runtime/xgo_trap.go                      | 6 ++++++
 runtime/internal/runtime/xgo_trap_template.go               | 6 ++++++
 10 files changed, 60 insertions(+)

diff --git a/cmd/xgo/asset/patches/go1.24/src/runtime/xgo_trap.go.txt b/cmd/xgo/asset/patches/go1.24/src/runtime/xgo_trap.go.txt
index a1b03fe..4cb3b7d 100755
--- a/cmd/xgo/asset/patches/go1.24/src/runtime/xgo_trap.go.txt
+++ b/cmd/xgo/asset/patches/go1.24/src/runtime/xgo_trap.go.txt
@@ -269,6 +269,12 @@ func __xgo_callback_on_create_g(curg *g, newg *g) {
 	if curg == nil {
 		return
 	}
+	// goroutines of the runtime itself(e.g. gc workers) are not started
+	// by the program, and callbacks are not safe here because locks
+	// might be held.
+	if isSystemGoroutine(newg, false) {
+		return
+	}
 	// println("new g:", hex(uintptr(unsafe.Pointer(newg))), "from g:", hex(uintptr(unsafe.Pointer(curg))))
 	curg_p := unsafe.Pointer(&curg.__xgo_g)
 	newg_p := unsafe.Pointer(&newg.__xgo_g)
diff --git a/cmd/xgo/asset/patches/go1.25/src/runtime/xgo_trap.go.txt b/cmd/xgo/asset/patches/go1.25/src/runtime/xgo_trap.go.txt
index a1b03fe..4cb3b7d 100755
--- a/cmd/xgo/asset/patches/go1.25/src/runtime/xgo_trap.go.txt
+++ b/cmd/xgo/asset/patches/go1.25/src/runtime/xgo_trap.go.txt
@@ -269,6 +269,12 @@ func __xgo_callback_on_create_g(curg *g, newg *g) {
 	if curg == nil {
 		return
 	}
+	// goroutines of the runtime itself(e.g. gc workers) are not started
+	// by the program, and callbacks are not safe here because locks
+	// might be held.
+	if isSystemGoroutine(newg, false) {
+		return
+	}
 	// println("new g:", hex(uintptr(unsafe.Pointer(newg))), "from g:", hex(uintptr(unsafe.Pointer(curg))))
 	curg_p := unsafe.Pointer(&curg.__xgo_g)
 	newg_p := unsafe.Pointer(&newg.__xgo_g)
diff --git a/cmd/xgo/asset/patches/go1.26/src/runtime/xgo_trap.go.txt b/cmd/xgo/asset/patches/go1.26/src/runtime/xgo_trap.go.txt
index a1b03fe..4cb3b7d 100755
--- a/cmd/xgo/asset/patches/go1.26/src/runtime/xgo_trap.go.txt
+++ b/cmd/xgo/asset/patches/go1.26/src/runtime/xgo_trap.go.txt
@@ -269,6 +269,12 @@ func __xgo_callback_on_create_g(curg *g, newg *g) {
 	if curg == nil {
 		return
 	}
+	// goroutines of the runtime itself(e.g. gc workers) are not started
+	// by the program, and callbacks are not safe here because locks
+	// might be held.
+	if isSystemGoroutine(newg, false) {
+		return
+	}
 	// println("new g:", hex(uintptr(unsafe.Pointer(newg))), "from g:", hex(uintptr(unsafe.Pointer(curg))))
 	curg_p := unsafe.Pointer(&curg.__xgo_g)
 	newg_p := unsafe.Pointer(&newg.__xgo_g)
diff --git a/cmd/xgo/asset/patches/go1.27/src/runtime/xgo_trap.go.txt b/cmd/xgo/asset/patches/go1.27/src/runtime/xgo_trap.go.txt
index a1b03fe..4cb3b7d 100755
--- a/cmd/xgo/asset/patches/go1.27/src/runtime/xgo_trap.go.txt
+++ b/cmd/xgo/asset/patches/go1.27/src/runtime/xgo_trap.go.txt
@@ -269,6 +269,12 @@ func __xgo_callback_on_create_g(curg *g, newg *g) {
 	if curg == nil {
 		return
 	}
+	// goroutines of the runtime itself(e.g. gc workers) are not started
+	// by the program, and callbacks are not safe here because locks
+	// might be held.
+	if isSystemGoroutine(newg, false) {
+		return
+	}
 	// println("new g:", hex(uintptr(unsafe.Pointer(newg))), "from g:", hex(uintptr(unsafe.Pointer(curg))))
 	curg_p := unsafe.Pointer(&curg.__xgo_g)
 	newg_p := unsafe.Pointer(&newg.__xgo_g)
diff --git a/cmd/xgo/asset/runtime_gen/internal/runtime/xgo_trap_template.go b/cmd/xgo/asset/runtime_gen/internal/runtime/xgo_trap_template.go
index c23797e..691bca8 100755
--- a/cmd/xgo/asset/runtime_gen/internal/runtime/xgo_trap_template.go
+++ b/cmd/xgo/asset/runtime_gen/internal/runtime/xgo_trap_template.go
@@ -270,6 +270,12 @@ func __xgo_callback_on_create_g(curg *g, newg *g) {
 	if curg == nil {
 		return
 	}
+	// goroutines of the runtime itself(e.g. gc workers) are not started
+	// by the program, and callbacks are not safe here because locks
+	// might be held.
+	if isSystemGoroutine(newg, false) {
+		return
+	}
 	// println("new g:", hex(uintptr(unsafe.Pointer(newg))), "from g:", hex(uintptr(unsafe.Pointer(curg))))
 	curg_p := unsafe.Pointer(&curg.__xgo_g)
 	newg_p := unsafe.Pointer(&newg.__xgo_g)
diff --git a/patches/go1.24/src/runtime/xgo_trap.go b/patches/go1.24/src/runtime/xgo_trap.go
index a1b03fe..4cb3b7d 100644
--- a/patches/go1.24/src/runtime/xgo_trap.go
+++ b/patches/go1.24/src/runtime/xgo_trap.go
@@ -269,6 +269,12 @@ func __xgo_callback_on_create_g(curg *g, newg *g) {
 	if curg == nil {
 		return
 	}
+	// goroutines of the runtime itself(e.g. gc workers) are not started
+	// by the program, and callbacks are not safe here because locks
+	// might be held.
+	if isSystemGoroutine(newg, false) {
+		return
+	}
 	// println("new g:", hex(uintptr(unsafe.Pointer(newg))), "from g:", hex(uintptr(unsafe.Pointer(curg))))
 	curg_p := unsafe.Pointer(&curg.__xgo_g)
 	newg_p := unsafe.Pointer(&newg.__xgo_g)
diff --git a/patches/go1.25/src/runtime/xgo_trap.go b/patches/go1.25/src/runtime/xgo_trap.go
index a1b03fe..4cb3b7d 100644
--- a/patches/go1.25/src/runtime/xgo_trap.go
+++ b/patches/go1.25/src/runtime/xgo_trap.go
@@ -269,6 +269,12 @@ func __xgo_callback_on_create_g(curg *g, newg *g) {
 	if curg == nil {
 		return
 	}
+	// goroutines of the runtime itself(e.g. gc workers) are not started
+	// by the program, and callbacks are not safe here because locks
+	// might be held.
+	if isSystemGoroutine(newg, false) {
+		return
+	}
 	// println("new g:", hex(uintptr(unsafe.Pointer(newg))), "from g:", hex(uintptr(unsafe.Pointer(curg))))
 	curg_p := unsafe.Pointer(&curg.__xgo_g)
 	newg_p := unsafe.Pointer(&newg.__xgo_g)
diff --git a/patches/go1.26/src/runtime/xgo_trap.go b/patches/go1.26/src/runtime/xgo_trap.go
index a1b03fe..4cb3b7d 100644
--- a/patches/go1.26/src/runtime/xgo_trap.go
+++ b/patches/go1.26/src/runtime/xgo_trap.go
@@ -269,6 +269,12 @@ func __xgo_callback_on_create_g(curg *g, newg *g) {
 	if curg == nil {
 		return
 	}
+	// goroutines of the runtime itself(e.g. gc workers) are not started
+	// by the program, and callbacks are not safe here because locks
+	// might be held.
+	if isSystemGoroutine(newg, false) {
+		return
+	}
 	// println("new g:", hex(uintptr(unsafe.Pointer(newg))), "from g:", hex(uintptr(unsafe.Pointer(curg))))
 	curg_p := unsafe.Pointer(&curg.__xgo_g)
 	newg_p := unsafe.Pointer(&newg.__xgo_g)
diff --git a/patches/go1.27/src/runtime/xgo_trap.go b/patches/go1.27/src/runtime/xgo_trap.go
index a1b03fe..4cb3b7d 100644
--- a/patches/go1.27/src/runtime/xgo_trap.go
+++ b/patches/go1.27/src/runtime/xgo_trap.go
@@ -269,6 +269,12 @@ func __xgo_callback_on_create_g(curg *g, newg *g) {
 	if curg == nil {
 		return
 	}
+	// goroutines of the runtime itself(e.g. gc workers) are not started
+	// by the program, and callbacks are not safe here because locks
+	// might be held.
+	if isSystemGoroutine(newg, false) {
+		return
+	}
 	// println("new g:", hex(uintptr(unsafe.Pointer(newg))), "from g:", hex(uintptr(unsafe.Pointer(curg))))
 	curg_p := unsafe.Pointer(&curg.__xgo_g)
 	newg_p := unsafe.Pointer(&newg.__xgo_g)
diff --git a/runtime/internal/runtime/xgo_trap_template.go b/runtime/internal/runtime/xgo_trap_template.go
index c23797e..691bca8 100644
--- a/runtime/internal/runtime/xgo_trap_template.go
+++ b/runtime/internal/runtime/xgo_trap_template.go
@@ -270,6 +270,12 @@ func __xgo_callback_on_create_g(curg *g, newg *g) {
 	if curg == nil {
 		return
 	}
+	// goroutines of the runtime itself(e.g. gc workers) are not started
+	// by the program, and callbacks are not safe here because locks
+	// might be held.
+	if isSystemGoroutine(newg, false) {
+		return
+	}
 	// println("new g:", hex(uintptr(unsafe.Pointer(newg))), "from g:", hex(uintptr(unsafe.Pointer(curg))))
 	curg_p := unsafe.Pointer(&curg.__xgo_g)
 	newg_p := unsafe.Pointer(&newg.__xgo_g)
-- 
2.43.0


From 72f89792c3ff71bdc856ddcb775e38604d2b5f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:00 +0000
Subject: [PATCH 15/71] fix: starting a goroutine does not add xgo's own calls
 to the trace

---
 cmd/xgo/asset/runtime_gen/internal/trap/init.go | 5 +++++
 runtime/internal/trap/init.go                   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/init.go b/cmd/xgo/asset/runtime_gen/internal/trap/init.go
index 384f027..9b29917 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/init.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/init.go
@@ -59,6 +59,11 @@ func inerhitStack(curG stack.G, newG stack.G) {
 
 	// associate trace
 	if stackData.hasStartedTracing {
+		// the time functions might be instrumented, they are not
+		// called by the program
+		runtime.GetG().IncTrappingDepth()
+		defer runtime.GetG().DecTrappingDepth()
+
 		newStackData.hasStartedTracing = true
 		newStackData.filterTrace = stackData.filterTrace
 
diff --git a/runtime/internal/trap/init.go b/runtime/internal/trap/init.go
index 384f027..9b29917 100644
--- a/runtime/internal/trap/init.go
+++ b/runtime/internal/trap/init.go
@@ -59,6 +59,11 @@ func inerhitStack(curG stack.G, newG stack.G) {
 
 	// associate trace
 	if stackData.hasStartedTracing {
+		// the time functions might be instrumented, they are not
+		// called by the program
+		runtime.GetG().IncTrappingDepth()
+		defer runtime.GetG().DecTrappingDepth()
+
 		newStackData.hasStartedTracing = true
 		newStackData.filterTrace = stackData.filterTrace
 
-- 
2.43.0


From 5e568f1d882e1c5685d5686544ca20e757599125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:00 +0000
Subject: [PATCH 16/71] fix: keep goroutines in the trace that a goroutine
 starts outside of any call

---
 cmd/xgo/asset/runtime_gen/internal/stack/stack.go | 11 +++++++----
 runtime/internal/stack/stack.go                   | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/stack/stack.go b/cmd/xgo/asset/runtime_gen/internal/stack/stack.go
index d4e1888..778c4ab 100755
--- a/cmd/xgo/asset/runtime_gen/internal/stack/stack.go
+++ b/cmd/xgo/asset/runtime_gen/internal/stack/stack.go
@@ -152,22 +152,25 @@ func (c *Stack) Finish(cur *Entry, oldTop *Entry, end time.Time, setStackEnd boo
 	c.Depth--
 }
 
-// AppendGoChild attaches a synthetic "go" node under the current Top under lock.
+// AppendGoChild attaches a synthetic "go" node under the current Top, or to
+// the roots if there is none, under lock.
 func (c *Stack) AppendGoChild(beginNs int64, getStack func() *Stack) {
 	if c == nil {
 		return
 	}
 	c.mu.Lock()
 	defer c.mu.Unlock()
-	if c.Top == nil {
-		return
-	}
 	child := &Entry{
 		BeginNs:  beginNs,
 		Go:       true,
 		FuncName: "go",
 		GetStack: getStack,
 	}
+	if c.Top == nil {
+		// started by the goroutine itself, not inside of any trapped call
+		c.Roots = append(c.Roots, child)
+		return
+	}
 	c.Top.Children = append(c.Top.Children, child)
 }
 
diff --git a/runtime/internal/stack/stack.go b/runtime/internal/stack/stack.go
index d4e1888..778c4ab 100644
--- a/runtime/internal/stack/stack.go
+++ b/runtime/internal/stack/stack.go
@@ -152,22 +152,25 @@ func (c *Stack) Finish(cur *Entry, oldTop *Entry, end time.Time, setStackEnd boo
 	c.Depth--
 }
 
-// AppendGoChild attaches a synthetic "go" node under the current Top under lock.
+// AppendGoChild attaches a synthetic "go" node under the current Top, or to
+// the roots if there is none, under lock.
 func (c *Stack) AppendGoChild(beginNs int64, getStack func() *Stack) {
 	if c == nil {
 		return
 	}
 	c.mu.Lock()
 	defer c.mu.Unlock()
-	if c.Top == nil {
-		return
-	}
 	child := &Entry{
 		BeginNs:  beginNs,
 		Go:       true,
 		FuncName: "go",
 		GetStack: getStack,
 	}
+	if c.Top == nil {
+		// started by the goroutine itself, not inside of any trapped call
+		c.Roots = append(c.Roots, child)
+		return
+	}
 	c.Top.Children = append(c.Top.Children, child)
 }
 
-- 
2.43.0


From 2fe5c36e2f3924cf4a3f9583f678831acc85b8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:00 +0000
Subject: [PATCH 17/71] fix: a trace filter may call functions that are traced
 itself

It was asked about the calls made by itself, without an end.
---
 cmd/xgo/asset/runtime_gen/internal/trap/trap.go | 3 ++-
 runtime/internal/trap/trap.go                   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index b9ba100..ee07aa5 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -210,7 +210,8 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 
 	// filter trace
 	var allowTracingThisEntry bool
-	if isTracing && (stackData.filterTrace == nil || stackData.filterTrace(funcInfo)) {
+	// the filter itself might call trapped functions, see below
+	if isTracing && depth <= 1 && (stackData.filterTrace == nil || stackData.filterTrace(funcInfo)) {
 		allowTracingThisEntry = true
 	}
 
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index b9ba100..ee07aa5 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -210,7 +210,8 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 
 	// filter trace
 	var allowTracingThisEntry bool
-	if isTracing && (stackData.filterTrace == nil || stackData.filterTrace(funcInfo)) {
+	// the filter itself might call trapped functions, see below
+	if isTracing && depth <= 1 && (stackData.filterTrace == nil || stackData.filterTrace(funcInfo)) {
 		allowTracingThisEntry = true
 	}
 
-- 
2.43.0


From af058105144931239367cb000729f874f7e9502a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:00 +0000
Subject: [PATCH 18/71] fix: calls made by deferred functions during a panic
 are not shown as panicking

---
 .../asset/runtime_gen/internal/trap/trap.go   | 23 ++++++++++++++++++-
 runtime/internal/trap/trap.go                 | 23 ++++++++++++++++++-
 2 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index ee07aa5..a448ad5 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -7,6 +7,7 @@ import (
 	"path/filepath"
 	"reflect"
 	"runtime"
+	"strings"
 	"sync/atomic"
 	"testing"
 	"time"
@@ -355,7 +356,9 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		var hasPanic bool
 		var panicLine int
 		var errStr string
-		if pe, retpc := xgo_runtime.XgoPeekPanic(); pe != nil {
+		// a function called from a deferred function also sees the panic,
+		// but it returns normally
+		if pe, retpc := xgo_runtime.XgoPeekPanic(); pe != nil && calledByPanic(3) {
 			hasPanic = true
 			// frame:
 			//   0: trap.trap
@@ -460,6 +463,24 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	return post, false
 }
 
+// calledByPanic tells if the function found by skip(see runtime.Callers)
+// was called by a panic, with nothing but the runtime in between.
+func calledByPanic(skip int) bool {
+	var pcs [10]uintptr
+	n := runtime.Callers(skip, pcs[:])
+	frames := runtime.CallersFrames(pcs[:n])
+	for n > 0 {
+		frame, more := frames.Next()
+		if frame.Function == "runtime.gopanic" {
+			return true
+		}
+		if !more || !strings.HasPrefix(frame.Function, "runtime.") {
+			break
+		}
+	}
+	return false
+}
+
 // finishTracing drops the finished stack, but keeps mocks, recorders
 // and interceptors that were set up before or during the tracing.
 func finishTracing(stackData *StackData) {
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index ee07aa5..a448ad5 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -7,6 +7,7 @@ import (
 	"path/filepath"
 	"reflect"
 	"runtime"
+	"strings"
 	"sync/atomic"
 	"testing"
 	"time"
@@ -355,7 +356,9 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		var hasPanic bool
 		var panicLine int
 		var errStr string
-		if pe, retpc := xgo_runtime.XgoPeekPanic(); pe != nil {
+		// a function called from a deferred function also sees the panic,
+		// but it returns normally
+		if pe, retpc := xgo_runtime.XgoPeekPanic(); pe != nil && calledByPanic(3) {
 			hasPanic = true
 			// frame:
 			//   0: trap.trap
@@ -460,6 +463,24 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	return post, false
 }
 
+// calledByPanic tells if the function found by skip(see runtime.Callers)
+// was called by a panic, with nothing but the runtime in between.
+func calledByPanic(skip int) bool {
+	var pcs [10]uintptr
+	n := runtime.Callers(skip, pcs[:])
+	frames := runtime.CallersFrames(pcs[:n])
+	for n > 0 {
+		frame, more := frames.Next()
+		if frame.Function == "runtime.gopanic" {
+			return true
+		}
+		if !more || !strings.HasPrefix(frame.Function, "runtime.") {
+			break
+		}
+	}
+	return false
+}
+
 // finishTracing drops the finished stack, but keeps mocks, recorders
 // and interceptors that were set up before or during the tracing.
 func finishTracing(stackData *StackData) {
-- 
2.43.0


From ccfae1e963be2eecc54a1fbb3fa71d7eca0ebcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:00 +0000
Subject: [PATCH 19/71] fix: a call whose mock panics is finished in the trace,
 and its recorders run

The entry stayed open and took up the calls made later.
---
 .../asset/runtime_gen/internal/trap/trap.go   | 26 +++++++++++++++----
 runtime/internal/trap/trap.go                 | 26 +++++++++++++++----
 2 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index a448ad5..2317d1e 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -21,6 +21,8 @@ import (
 	"github.com/xhd2015/xgo/runtime/trace/stack_model"
 )
 
+const callMockFunc = "github.com/xhd2015/xgo/runtime/internal/trap.callMock"
+
 // skip 2: <user func> -> runtime.XgoTrap -> trap
 const SKIP = 2
 
@@ -231,7 +233,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 			// mock and recorders to run
 			// no tracing and general interceptors can run
 			if mock != nil {
-				ok := mock(funcInfo, recvPtr, args, results)
+				ok := callMock(mock, funcInfo, recvPtr, args, results, callRecorderWithDepth)
 				// ok=true indicates not call old function
 				return callRecorderWithDepth, ok
 			}
@@ -241,7 +243,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		if !allowTracingThisEntry {
 			// without tracing, mock becomes simpler
 			if mock != nil {
-				ok := mock(funcInfo, recvPtr, args, results)
+				ok := callMock(mock, funcInfo, recvPtr, args, results, callRecorderWithDepth)
 				// ok=true indicates not call old function
 				return callRecorderWithDepth, ok
 			}
@@ -457,14 +459,28 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		hitMock = true
 		return post, true
 	} else if mock != nil {
-		hitMock = mock(funcInfo, recvPtr, args, results)
+		hitMock = callMock(mock, funcInfo, recvPtr, args, results, post)
 		return post, hitMock
 	}
 	return post, false
 }
 
+// callMock calls the mock, if it does not return then the function is left
+// right here, so run post.
+func callMock(mock func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool, funcInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}, post func()) bool {
+	var returned bool
+	defer func() {
+		if !returned && post != nil {
+			post()
+		}
+	}()
+	ok := mock(funcInfo, recvPtr, args, results)
+	returned = true
+	return ok
+}
+
 // calledByPanic tells if the function found by skip(see runtime.Callers)
-// was called by a panic, with nothing but the runtime in between.
+// was called by a panic, with nothing but the runtime and callMock in between.
 func calledByPanic(skip int) bool {
 	var pcs [10]uintptr
 	n := runtime.Callers(skip, pcs[:])
@@ -474,7 +490,7 @@ func calledByPanic(skip int) bool {
 		if frame.Function == "runtime.gopanic" {
 			return true
 		}
-		if !more || !strings.HasPrefix(frame.Function, "runtime.") {
+		if !more || !strings.HasPrefix(frame.Function, "runtime.") && !strings.HasPrefix(frame.Function, callMockFunc) {
 			break
 		}
 	}
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index a448ad5..2317d1e 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -21,6 +21,8 @@ import (
 	"github.com/xhd2015/xgo/runtime/trace/stack_model"
 )
 
+const callMockFunc = "github.com/xhd2015/xgo/runtime/internal/trap.callMock"
+
 // skip 2: <user func> -> runtime.XgoTrap -> trap
 const SKIP = 2
 
@@ -231,7 +233,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 			// mock and recorders to run
 			// no tracing and general interceptors can run
 			if mock != nil {
-				ok := mock(funcInfo, recvPtr, args, results)
+				ok := callMock(mock, funcInfo, recvPtr, args, results, callRecorderWithDepth)
 				// ok=true indicates not call old function
 				return callRecorderWithDepth, ok
 			}
@@ -241,7 +243,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		if !allowTracingThisEntry {
 			// without tracing, mock becomes simpler
 			if mock != nil {
-				ok := mock(funcInfo, recvPtr, args, results)
+				ok := callMock(mock, funcInfo, recvPtr, args, results, callRecorderWithDepth)
 				// ok=true indicates not call old function
 				return callRecorderWithDepth, ok
 			}
@@ -457,14 +459,28 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		hitMock = true
 		return post, true
 	} else if mock != nil {
-		hitMock = mock(funcInfo, recvPtr, args, results)
+		hitMock = callMock(mock, funcInfo, recvPtr, args, results, post)
 		return post, hitMock
 	}
 	return post, false
 }
 
+// callMock calls the mock, if it does not return then the function is left
+// right here, so run post.
+func callMock(mock func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool, funcInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}, post func()) bool {
+	var returned bool
+	defer func() {
+		if !returned && post != nil {
+			post()
+		}
+	}()
+	ok := mock(funcInfo, recvPtr, args, results)
+	returned = true
+	return ok
+}
+
 // calledByPanic tells if the function found by skip(see runtime.Callers)
-// was called by a panic, with nothing but the runtime in between.
+// was called by a panic, with nothing but the runtime and callMock in between.
 func calledByPanic(skip int) bool {
 	var pcs [10]uintptr
 	n := runtime.Callers(skip, pcs[:])
@@ -474,7 +490,7 @@ func calledByPanic(skip int) bool {
 		if frame.Function == "runtime.gopanic" {
 			return true
 		}
-		if !more || !strings.HasPrefix(frame.Function, "runtime.") {
+		if !more || !strings.HasPrefix(frame.Function, "runtime.") && !strings.HasPrefix(frame.Function, callMockFunc) {
 			break
 		}
 	}
-- 
2.43.0


From 72c187813894b50b198adee6d430045690d0c88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:06 +0000
Subject: [PATCH 20/71] fix: keep the operands of &, slicing and len usable
 when rewriting variables

&arr[i], &s.a.b, arr[:], *&(v), (&v).Field and len(arr) in a constant
no longer fail to compile; indexes of assignment targets and the third
index of a slice expression are reads.
---
 instrument/resolve/collect_var_ref.go |   4 +
 instrument/resolve/expr.go            | 138 ++++++++++++++++++++++----
 2 files changed, 125 insertions(+), 17 deletions(-)

diff --git a/instrument/resolve/collect_var_ref.go b/instrument/resolve/collect_var_ref.go
index 507bc06..d5bf046 100644
--- a/instrument/resolve/collect_var_ref.go
+++ b/instrument/resolve/collect_var_ref.go
@@ -42,6 +42,10 @@ func (c *Scope) collectSelector(addr *ast.UnaryExpr, sel *ast.SelectorExpr) bool
 	} else {
 		// This is variable.Field
 		originalSel = sel
+		if _, ok := deparen(expr).(*ast.UnaryExpr); ok {
+			// (&variable).Field, let the caller visit &variable
+			return false
+		}
 	}
 
 	// selInfo should be an object
diff --git a/instrument/resolve/expr.go b/instrument/resolve/expr.go
index addf4b5..239c1b3 100644
--- a/instrument/resolve/expr.go
+++ b/instrument/resolve/expr.go
@@ -22,6 +22,9 @@ func (c *Scope) traverseCallExpr(callExpr *ast.CallExpr) {
 	// we can enhance this in the future by getting type info
 	var isSelector bool
 	fn := callExpr.Fun
+	if c.isLenOfArray(callExpr) {
+		return
+	}
 	if sel, ok := fn.(*ast.SelectorExpr); ok {
 		// type check X.Y to get X's type
 		if isIdent(sel.X) || isSelectorExpr(sel.X) {
@@ -74,7 +77,7 @@ func (c *Scope) traverseExpr(node ast.Expr) {
 	case *ast.UnaryExpr:
 		// take addr
 		if node.Op == token.AND {
-			switch x := node.X.(type) {
+			switch x := deparen(node.X).(type) {
 			case *ast.Ident:
 				if c.collectIdent(node, x) {
 					return
@@ -84,22 +87,10 @@ func (c *Scope) traverseExpr(node ast.Expr) {
 				if collected {
 					return
 				}
-				// If collectSelector returned false, check if it's because we detected
-				// the &pkgVar.Field pattern and skipped it. If so, we should not traverse
-				// into the selector to avoid collecting the base variable separately.
-				xInfo := c.resolveInfo(x.X)
-				if obj, ok := xInfo.(types.Object); ok {
-					// Unwrap Pointer if present
-					if ptrObj, ok := obj.(types.Pointer); ok {
-						obj = ptrObj.Value
-					}
-					// Check if it's a package variable
-					if _, ok := obj.(types.PkgVariable); ok {
-						// This is &pkgVar.Field pattern that was skipped, don't traverse
-						return
-					}
-				}
 			}
+			// otherwise keep the operand addressable
+			c.traverseInPlace(node.X)
+			return
 		}
 		c.traverseExpr(node.X)
 	case *ast.CallExpr:
@@ -121,7 +112,14 @@ func (c *Scope) traverseExpr(node ast.Expr) {
 		c.traverseExpr(node.X)
 	case *ast.CompositeLit:
 		// something{...}
+		_, isMap := node.Type.(*ast.MapType)
 		for _, elem := range node.Elts {
+			if kv, ok := elem.(*ast.KeyValueExpr); ok && isMap {
+				// the key is an expression, not a field
+				c.traverseExpr(kv.Key)
+				c.traverseExpr(kv.Value)
+				continue
+			}
 			c.traverseExpr(elem)
 		}
 	case *ast.IndexExpr:
@@ -130,9 +128,15 @@ func (c *Scope) traverseExpr(node ast.Expr) {
 		c.traverseExpr(node.Index)
 	case *ast.SliceExpr:
 		// something[...:...], only traverse the index
-		c.traverseExpr(node.X)
+		if c.isArrayOrUnknown(node.X) {
+			// slicing an array requires it to be addressable
+			c.traverseInPlace(node.X)
+		} else {
+			c.traverseExpr(node.X)
+		}
 		c.traverseExpr(node.Low)
 		c.traverseExpr(node.High)
+		c.traverseExpr(node.Max)
 	case *ast.ChanType:
 		// chan something
 	case *ast.MapType:
@@ -181,3 +185,103 @@ func deparen(expr ast.Expr) ast.Expr {
 		expr = p.X
 	}
 }
+
+// traverseInPlace traverses an expression whose operand must
+// stay addressable, so the variable it is a part of is not replaced
+func (c *Scope) traverseInPlace(node ast.Expr) {
+	switch node := deparen(node).(type) {
+	case *ast.Ident:
+		// nothing
+	case *ast.SelectorExpr:
+		if c.isPointer(node.X) {
+			c.traverseExpr(node.X)
+			return
+		}
+		c.traverseInPlace(node.X)
+	case *ast.IndexExpr:
+		if c.isArrayOrUnknown(node.X) {
+			c.traverseInPlace(node.X)
+		} else {
+			c.traverseExpr(node.X)
+		}
+		c.traverseExpr(node.Index)
+	case nil:
+		// nothing
+	default:
+		c.traverseExpr(node)
+	}
+}
+
+// traverseAssignTarget traverses the left side of an assignment: it
+// always refers to the variable itself, but its indexes are read
+func (c *Scope) traverseAssignTarget(node ast.Expr) {
+	switch node := deparen(node).(type) {
+	case *ast.Ident:
+		// nothing
+	case *ast.SelectorExpr:
+		c.traverseAssignTarget(node.X)
+	case *ast.StarExpr:
+		c.traverseAssignTarget(node.X)
+	case *ast.TypeAssertExpr:
+		c.traverseAssignTarget(node.X)
+	case *ast.IndexExpr:
+		c.traverseAssignTarget(node.X)
+		c.traverseExpr(node.Index)
+	case *ast.SliceExpr:
+		c.traverseAssignTarget(node.X)
+		c.traverseExpr(node.Low)
+		c.traverseExpr(node.High)
+		c.traverseExpr(node.Max)
+	case *ast.UnaryExpr:
+		if node.Op == token.AND {
+			c.traverseAssignTarget(node.X)
+		} else {
+			c.traverseExpr(node.X)
+		}
+	case nil:
+		// nothing
+	default:
+		c.traverseExpr(node)
+	}
+}
+
+func (c *Scope) exprType(node ast.Expr) types.Type {
+	typ := c.resolveObject(node).Type()
+	if typ == nil {
+		return types.Unknown{}
+	}
+	return typ
+}
+
+func (c *Scope) isPointer(node ast.Expr) bool {
+	return types.IsPointer(c.exprType(node))
+}
+
+func (c *Scope) isArrayOrUnknown(node ast.Expr) bool {
+	underlying := c.exprType(node).Underlying()
+	if _, ok := underlying.(types.Array); ok {
+		return true
+	}
+	return types.IsUnknown(underlying)
+}
+
+// isLenOfArray checks len(a) and cap(a) where a is an array or a
+// pointer to array, they are constants
+func (c *Scope) isLenOfArray(callExpr *ast.CallExpr) bool {
+	if len(callExpr.Args) != 1 || (!isIdent(callExpr.Args[0]) && !isSelectorExpr(callExpr.Args[0])) {
+		return false
+	}
+	if !isIdent(callExpr.Fun) {
+		return false
+	}
+	op, ok := c.resolveInfo(callExpr.Fun).(types.OperationName)
+	if !ok || (op != "len" && op != "cap") {
+		return false
+	}
+	underlying := c.exprType(callExpr.Args[0]).Underlying()
+	if ptr, ok := underlying.(types.RawPtr); ok {
+		underlying = ptr.Elem
+	}
+	_, ok = underlying.(types.Array)
+	return ok
+}
-- 
2.43.0


From 451d228c02062ce5f801b577429989a084fb0db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:06 +0000
Subject: [PATCH 21/71] fix: names defined by if, for, switch and select end
 with the statement

A read of a package variable after such a statement is not taken for the
local name, the range expression is read before its key and value exist,
and case expressions and communications of select are read.
---
 instrument/resolve/decl.go | 13 ++++++--
 instrument/resolve/stmt.go | 67 ++++++++++++++++++++++++++------------
 2 files changed, 56 insertions(+), 24 deletions(-)

diff --git a/instrument/resolve/decl.go b/instrument/resolve/decl.go
index 65dff9d..b046049 100644
--- a/instrument/resolve/decl.go
+++ b/instrument/resolve/decl.go
@@ -1,6 +1,9 @@
 package resolve
 
-import "go/ast"
+import (
+	"go/ast"
+	"go/token"
+)
 
 func (ctx *Scope) traverseDecl(node ast.Decl) {
 	if node == nil {
@@ -15,8 +18,12 @@ func (ctx *Scope) traverseDecl(node ast.Decl) {
 					ctx.Add(spec.Name.Name)
 				}
 			case *ast.ValueSpec:
-				for _, value := range spec.Values {
-					ctx.traverseExpr(value)
+				// a constant may only refer to a variable
+				// by its type, like len(array)
+				if node.Tok != token.CONST {
+					for _, value := range spec.Values {
+						ctx.traverseExpr(value)
+					}
 				}
 				// name after values
 				for _, name := range spec.Names {
diff --git a/instrument/resolve/stmt.go b/instrument/resolve/stmt.go
index ba73aa8..2f73183 100644
--- a/instrument/resolve/stmt.go
+++ b/instrument/resolve/stmt.go
@@ -15,16 +15,21 @@ func (c *Scope) traverseStmt(node ast.Stmt) {
 	case *ast.EmptyStmt:
 		// nothing
 	case *ast.RangeStmt:
+		// X is outside of the scope of the key and value
+		c.traverseExpr(node.X)
+		scope := c.newScope()
 		if node.Tok == token.DEFINE {
 			if key, ok := node.Key.(*ast.Ident); ok && !isBlankName(key.Name) {
-				c.Add(key.Name)
+				scope.Add(key.Name)
 			}
 			if value, ok := node.Value.(*ast.Ident); ok && !isBlankName(value.Name) {
-				c.Add(value.Name)
+				scope.Add(value.Name)
 			}
+		} else {
+			c.traverseAssignTarget(node.Key)
+			c.traverseAssignTarget(node.Value)
 		}
-		c.traverseExpr(node.X)
-		c.traverseBlockStmt(node.Body)
+		scope.traverseBlockStmt(node.Body)
 	case *ast.DeferStmt:
 		c.traverseCallExpr(node.Call)
 	case *ast.GoStmt:
@@ -33,6 +38,11 @@ func (c *Scope) traverseStmt(node ast.Stmt) {
 		for _, rhs := range node.Rhs {
 			c.traverseExpr(rhs)
 		}
+		if node.Tok != token.DEFINE {
+			for _, lhs := range node.Lhs {
+				c.traverseAssignTarget(lhs)
+			}
+		}
 
 		// edge case:
 		// tt:=tt --> before this line, tt is another define
@@ -104,26 +114,38 @@ func (c *Scope) traverseStmt(node ast.Stmt) {
 			}
 		}
 	case *ast.TypeSwitchStmt:
-		c.traverseStmt(node.Init)
-		c.traverseStmt(node.Assign)
-		c.traverseBlockStmt(node.Body)
+		// names defined by init and assign belong to
+		// the switch
+		scope := c.newScope()
+		scope.traverseStmt(node.Init)
+		scope.traverseStmt(node.Assign)
+		for _, stmt := range node.Body.List {
+			if clause, ok := stmt.(*ast.CaseClause); ok {
+				// List is types
+				scope.traverseBlockStmt(&ast.BlockStmt{List: clause.Body})
+			}
+		}
 	case *ast.BadStmt:
 		// nothing
 	case *ast.IfStmt:
-		c.traverseStmt(node.Init)
-		c.traverseExpr(node.Cond)
+		// names defined by init belong to the if
+		scope := c.newScope()
+		scope.traverseStmt(node.Init)
+		scope.traverseExpr(node.Cond)
 		// node.Then =
-		c.traverseBlockStmt(node.Body)
-		c.traverseStmt(node.Else)
+		scope.traverseBlockStmt(node.Body)
+		scope.traverseStmt(node.Else)
 	case *ast.ForStmt:
-		c.traverseStmt(node.Init)
-		c.traverseExpr(node.Cond)
-		c.traverseStmt(node.Post)
-		c.traverseBlockStmt(node.Body)
+		scope := c.newScope()
+		scope.traverseStmt(node.Init)
+		scope.traverseExpr(node.Cond)
+		scope.traverseStmt(node.Post)
+		scope.traverseBlockStmt(node.Body)
 	case *ast.SwitchStmt:
-		c.traverseStmt(node.Init)
-		c.traverseExpr(node.Tag)
-		c.traverseBlockStmt(node.Body)
+		scope := c.newScope()
+		scope.traverseStmt(node.Init)
+		scope.traverseExpr(node.Tag)
+		scope.traverseBlockStmt(node.Body)
 	case *ast.SelectStmt:
 		c.traverseBlockStmt(node.Body)
 	case *ast.DeclStmt:
@@ -137,13 +159,16 @@ func (c *Scope) traverseStmt(node ast.Stmt) {
 	case *ast.BlockStmt:
 		c.traverseBlockStmt(node)
 	case *ast.IncDecStmt:
-		// ignore
+		c.traverseAssignTarget(node.X)
 	case *ast.CaseClause:
+		c.traverseExprs(node.List)
 		c.traverseBlockStmt(&ast.BlockStmt{List: node.Body})
 	case *ast.CommClause:
 		// select {...}
-		// TODO: handle name introduced in case
-		c.traverseBlockStmt(&ast.BlockStmt{List: node.Body})
+		// names introduced in case belong to the clause
+		scope := c.newScope()
+		scope.traverseStmt(node.Comm)
+		scope.traverseBlockStmt(&ast.BlockStmt{List: node.Body})
 	case *ast.SendStmt:
 		// ignore
 		c.traverseExpr(node.Chan)
-- 
2.43.0


From e01d184c33ee6435488d240e76878665f0a6dd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:06 +0000
Subject: [PATCH 22/71] fix: resolve promoted methods, type parameters and
 untyped constants of variables

Methods with pointer receivers promoted from embedded fields, or called on
fields and array elements, get the address of the variable. Type
parameters hide package names. Variables initialised from runes, untyped
constant expressions or a single call with several results get the
type go gives them.
---
 instrument/resolve/block.go              |   3 +
 instrument/resolve/generic_go1.18.go     |  50 ++++
 instrument/resolve/generic_non_go1.18.go |  13 +
 instrument/resolve/resolve.go            | 297 ++++++++++++++++-------
 instrument/resolve/scope.go              |  12 +
 instrument/resolve/traverse.go           |   3 +-
 instrument/resolve/types/type.go         |   5 +-
 7 files changed, 287 insertions(+), 96 deletions(-)

diff --git a/instrument/resolve/block.go b/instrument/resolve/block.go
index 69bbc58..ce770bc 100644
--- a/instrument/resolve/block.go
+++ b/instrument/resolve/block.go
@@ -24,6 +24,9 @@ func (c *Scope) traverseFunc(recv *ast.FieldList, debugFuncName string, funcType
 	for _, argName := range argNames {
 		names[argName] = true
 	}
+	for _, name := range getTypeParamNames(recv, funcType) {
+		names[name] = true
+	}
 	scope := c.newScope()
 	scope.Names = names
 	scope.traverseBlockStmt(body)
diff --git a/instrument/resolve/generic_go1.18.go b/instrument/resolve/generic_go1.18.go
index a1ec6c0..c4b9aab 100644
--- a/instrument/resolve/generic_go1.18.go
+++ b/instrument/resolve/generic_go1.18.go
@@ -6,6 +6,7 @@ package resolve
 import (
 	"go/ast"
 
+	"github.com/xhd2015/xgo/instrument/edit"
 	"github.com/xhd2015/xgo/instrument/resolve/types"
 )
 
@@ -51,3 +52,52 @@ func (c *Scope) resolveIndexListExpr(expr ast.Expr) (types.Info, bool) {
 	}
 	return types.Unknown{}, true
 }
+
+// type parameters declared by a function or by its receiver
+func getTypeParamNames(recv *ast.FieldList, funcType *ast.FuncType) []string {
+	names := getFieldNames(funcType.TypeParams)
+	if recv == nil || len(recv.List) == 0 {
+		return names
+	}
+	recvType := deparen(recv.List[0].Type)
+	if star, ok := recvType.(*ast.StarExpr); ok {
+		recvType = deparen(star.X)
+	}
+	var params []ast.Expr
+	switch recvType := recvType.(type) {
+	case *ast.IndexExpr:
+		params = []ast.Expr{recvType.Index}
+	case *ast.IndexListExpr:
+		params = recvType.Indices
+	}
+	for _, param := range params {
+		if idt, ok := param.(*ast.Ident); ok && !isBlankName(idt.Name) {
+			names = append(names, idt.Name)
+		}
+	}
+	return names
+}
+
+// type parameters declared by a type
+func getTypeDeclParamNames(decl *edit.Decl) []string {
+	if decl.Decl == nil {
+		return nil
+	}
+	for _, spec := range decl.Decl.Specs {
+		if spec, ok := spec.(*ast.TypeSpec); ok && spec.Name == decl.Ident {
+			return getFieldNames(spec.TypeParams)
+		}
+	}
+	return nil
+}
+
+// T for T[A] and T[A,B]
+func getInstantiatedTypeExpr(expr ast.Expr) ast.Expr {
+	switch expr := expr.(type) {
+	case *ast.IndexExpr:
+		return expr.X
+	case *ast.IndexListExpr:
+		return expr.X
+	}
+	return nil
+}
diff --git a/instrument/resolve/generic_non_go1.18.go b/instrument/resolve/generic_non_go1.18.go
index 1a3a8e5..3a9beab 100644
--- a/instrument/resolve/generic_non_go1.18.go
+++ b/instrument/resolve/generic_non_go1.18.go
@@ -6,6 +6,7 @@ package resolve
 import (
 	"go/ast"
 
+	"github.com/xhd2015/xgo/instrument/edit"
 	"github.com/xhd2015/xgo/instrument/resolve/types"
 )
 
@@ -17,3 +18,15 @@ func (c *Scope) traverseIndexListExpr(expr ast.Expr) bool {
 func (c *Scope) resolveIndexListExpr(expr ast.Expr) (types.Info, bool) {
 	return nil, false
 }
+
+func getTypeParamNames(recv *ast.FieldList, funcType *ast.FuncType) []string {
+	return nil
+}
+
+func getTypeDeclParamNames(decl *edit.Decl) []string {
+	return nil
+}
+
+func getInstantiatedTypeExpr(expr ast.Expr) ast.Expr {
+	return nil
+}
diff --git a/instrument/resolve/resolve.go b/instrument/resolve/resolve.go
index c876c92..3efcb33 100644
--- a/instrument/resolve/resolve.go
+++ b/instrument/resolve/resolve.go
@@ -109,7 +109,7 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 					config_debug.OnResolvePackageDeclareInfo(c.Package.PkgPath(), c.File.File.File.Name, expr)
 				}
 				if decl.Kind == edit.DeclKindType {
-					typ := c.resolveType(decl.Type)
+					typ := c.withNames(getTypeDeclParamNames(decl)).resolveType(decl.Type)
 					if types.IsUnknown(typ) {
 						return types.Unknown{}
 					}
@@ -127,6 +127,10 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 						varType = c.resolveType(decl.Type)
 					} else if decl.Value != nil {
 						valInfo := c.resolveInfo(decl.Value)
+						if lit, ok := valInfo.(types.UntypedLiteral); ok && decl.Kind == edit.DeclKindConst {
+							// an untyped constant
+							return lit
+						}
 						if obj, ok := valInfo.(types.Object); ok {
 							varType = obj.Type()
 						}
@@ -147,7 +151,8 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 				} else if decl.Kind == edit.DeclKindFunc {
 					var signature types.Signature
 					if decl.FuncDecl != nil && decl.FuncDecl.Syntax != nil && decl.FuncDecl.Syntax.Type != nil {
-						typ := c.resolveType(decl.FuncDecl.Syntax.Type)
+						funcType := decl.FuncDecl.Syntax.Type
+						typ := c.withNames(getTypeParamNames(nil, funcType)).resolveType(funcType)
 						if typ, ok := typ.(types.Signature); ok {
 							signature = typ
 						}
@@ -208,7 +213,10 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 				return types.Pointer{
 					Value: info,
 				}
-			} else if expr.Op == token.NOT {
+			} else if expr.Op == token.NOT || expr.Op == token.SUB || expr.Op == token.ADD || expr.Op == token.XOR {
+				if lit, ok := info.(types.UntypedLiteral); ok {
+					return lit
+				}
 				return types.Value{
 					Type_: info.Type(),
 				}
@@ -223,8 +231,11 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 			// first op type
 			opValue := c.resolveObject(expr.X)
 			// if untyped literal, resolve the second op
-			if _, ok := opValue.(types.UntypedLiteral); ok {
+			if xLit, ok := opValue.(types.UntypedLiteral); ok {
 				opValue = c.resolveObject(expr.Y)
+				if yLit, ok := opValue.(types.UntypedLiteral); ok {
+					return getUntypedKind(xLit, yLit)
+				}
 			}
 			if types.IsUnknown(opValue) {
 				return types.Unknown{}
@@ -233,18 +244,26 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 				Type_: opValue.Type(),
 			}
 		case token.SHL, token.SHR:
-			// && ||
 			// always first op type
 			opValue := c.resolveObject(expr.X)
 			if types.IsUnknown(opValue) {
 				return types.Unknown{}
 			}
+			if lit, ok := opValue.(types.UntypedLiteral); ok {
+				if lit.Type_ == types.Basic("rune") {
+					return lit
+				}
+				// shifting an untyped constant gives an integer
+				return types.UntypedLiteral{
+					Type_: types.Basic("int"),
+				}
+			}
 			return types.Value{
 				Type_: opValue.Type(),
 			}
 		case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
-			// boolean
-			return types.Value{
+			// untyped boolean
+			return types.UntypedLiteral{
 				Type_: types.Basic("bool"),
 			}
 		}
@@ -295,11 +314,36 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 			return info
 		case types.PkgTypeMethod:
 			return info
+		case types.Object:
+			// otherwise this yields an element
+			// from an array, slice or map
+			objType := info.Type()
+			if objType == nil {
+				return types.Unknown{}
+			}
+			underlying := objType.Underlying()
+			if ptr, ok := underlying.(types.RawPtr); ok {
+				underlying = ptr.Elem
+				if _, ok := underlying.(types.Array); !ok {
+					return types.Unknown{}
+				}
+			}
+			var elemType types.Type
+			switch underlying := underlying.(type) {
+			case types.Array:
+				elemType = underlying.Elem
+			case types.Slice:
+				elemType = underlying.Elem
+			case types.Map:
+				elemType = types.ResolveLazy(underlying.Value)
+			}
+			if elemType == nil || types.IsUnknown(elemType) {
+				return types.Unknown{}
+			}
+			return types.Value{
+				Type_: elemType,
+			}
 		}
-
-		// otherwise this yields an element type
-		// from a slice or array
-		// TODO: support array
 		return types.Unknown{}
 	case *ast.BasicLit:
 		typ := getBasicLitConstType(expr.Kind)
@@ -310,21 +354,22 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 			Type_: typ,
 		}
 	case *ast.StructType:
-		fields := make([]types.StructField, len(expr.Fields.List))
-		for i, field := range expr.Fields.List {
+		fields := make([]types.StructField, 0, len(expr.Fields.List))
+		for _, field := range expr.Fields.List {
 			typ := c.lazyResolveType(field.Type)
 			if len(field.Names) > 0 {
 				for _, name := range field.Names {
-					fields[i] = types.StructField{
+					fields = append(fields, types.StructField{
 						Name: name.Name,
 						Type: typ,
-					}
+					})
 				}
 			} else {
-				fields[i] = types.StructField{
-					Name: getEmbedFieldName(field.Type),
-					Type: typ,
-				}
+				fields = append(fields, types.StructField{
+					Name:     getEmbedFieldName(field.Type),
+					Type:     typ,
+					Embedded: true,
+				})
 			}
 		}
 		return types.Struct{
@@ -364,9 +409,14 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 		// }
 		var results []types.Type
 		if expr.Results != nil {
-			results = make([]types.Type, len(expr.Results.List))
-			for i, result := range expr.Results.List {
-				results[i] = c.lazyResolveType(result.Type)
+			results = make([]types.Type, 0, len(expr.Results.List))
+			for _, result := range expr.Results.List {
+				typ := c.lazyResolveType(result.Type)
+				results = append(results, typ)
+				// (a, b int)
+				for i := 1; i < len(result.Names); i++ {
+					results = append(results, typ)
+				}
 			}
 		}
 		return types.Signature{
@@ -480,7 +530,11 @@ func validateBasicName(name string) types.Type {
 		return types.Basic(name)
 	case "complex64", "complex128":
 		return types.Basic(name)
-		// TODO: "error"
+	case "uintptr", "rune":
+		return types.Basic(name)
+	case "error", "any":
+		// interfaces, but written by name
+		return types.Basic(name)
 	}
 	return types.Unknown{}
 }
@@ -544,22 +598,44 @@ func getBasicLitConstType(kind token.Token) types.Type {
 	case token.STRING:
 		return types.Basic("string")
 	case token.CHAR:
-		return types.Basic("byte")
+		return types.Basic("rune")
 	case token.FLOAT:
 		return types.Basic("float64")
+	case token.IMAG:
+		return types.Basic("complex128")
 	}
 	return types.Unknown{}
 }
 
+// getUntypedKind gives the kind of an operation on two untyped
+// constants: the one that appears later in integer, rune,
+// floating-point, complex
+func getUntypedKind(x types.UntypedLiteral, y types.UntypedLiteral) types.UntypedLiteral {
+	kinds := []types.Basic{"int", "rune", "float64", "complex128"}
+	for i := len(kinds) - 1; i >= 0; i-- {
+		if x.Type_ == kinds[i] {
+			return x
+		}
+		if y.Type_ == kinds[i] {
+			return y
+		}
+	}
+	return x
+}
+
 func (c *Scope) newFileScope(pkg *edit.Package, file *edit.File) *Scope {
 	// config.LogDebug("newFileScope: next pkgDepth=%d", c.PkgDepth+1)
 	return newFileScope(c.Global, pkg, file, c.PkgDepth+1)
 }
 
 func getEmbedFieldName(typ ast.Expr) string {
+	typ = deparen(typ)
 	starExpr, ok := typ.(*ast.StarExpr)
 	if ok {
-		typ = starExpr.X
+		typ = deparen(starExpr.X)
+	}
+	if x := getInstantiatedTypeExpr(typ); x != nil {
+		typ = x
 	}
 	sel, ok := typ.(*ast.SelectorExpr)
 	if ok {
@@ -628,7 +704,7 @@ func (c *Scope) resolveSelectorSubInfo(expr *ast.SelectorExpr) types.Info {
 			// update the nested expr type to be pointer
 			// A.B -> A to pointer
 			// A.B.C -> A, A.B all to be pointer
-			forAllNestedExpr(expr.X, func(expr ast.Expr) {
+			c.forAllNestedExpr(expr.X, func(expr ast.Expr) {
 				info := c.resolveInfo(expr)
 				if obj, ok := info.(types.Object); ok {
 					c.Global.ExprInfo[expr] = types.Pointer{
@@ -646,89 +722,124 @@ func (c *Scope) resolveSelectorSubInfo(expr *ast.SelectorExpr) types.Info {
 	return types.Unknown{}
 }
 
-func forAllNestedExpr(expr ast.Expr, fn func(expr ast.Expr)) {
-	fn(expr)
+// forAllNestedExpr visits the expressions that must be addressable
+// for expr to be addressable
+func (c *Scope) forAllNestedExpr(expr ast.Expr, fn func(expr ast.Expr)) {
 	switch expr := expr.(type) {
 	case *ast.SelectorExpr:
-		forAllNestedExpr(expr.X, fn)
+		if !c.isPointer(expr.X) {
+			c.forAllNestedExpr(expr.X, fn)
+		}
 		fn(expr.Sel)
+	case *ast.IndexExpr:
+		if c.isArrayOrUnknown(expr.X) {
+			c.forAllNestedExpr(expr.X, fn)
+		}
 	case *ast.ParenExpr:
-		forAllNestedExpr(expr.X, fn)
+		c.forAllNestedExpr(expr.X, fn)
 	}
+	fn(expr)
 }
 
+type embeddedType struct {
+	typ types.Type
+	// reached through a pointer
+	isPtr bool
+}
+
+// resolveFieldToObject finds a field or method of valType, including
+// the ones promoted from embedded fields.
 // valType can be: LazyType, ptr to LazyType
 // LazyType usually comes from struct field
 // deferred resolving
 func (c *Scope) resolveFieldToObject(valType types.Type, fieldName string, onDetectedPointer func()) types.Object {
-	valType = types.ResolveLazy(valType)
-	var isPtr bool
-	resolveType := valType
-	if ptrType, ok := valType.(types.PtrType); ok {
-		// *T
-		isPtr = true
-		resolveType = types.ResolveLazy(ptrType.Elem)
-	}
-	if genInstanceType, ok := resolveType.(types.GenericInstanceType); ok {
-		resolveType = genInstanceType.Type
-	}
-	// in go, a named type cannot be pointer
-	if namedType, ok := resolveType.(types.NamedType); ok {
-		// see issue https://github.com/xhd2015/xgo/issues/314
-		resolvedNamedType := types.ResolveAlias(namedType)
-		decl := c.getPkgNameDecl(resolvedNamedType.PkgPath, resolvedNamedType.Name)
-		var method *edit.FuncDecl
-		if decl != nil {
-			method = decl.Methods[fieldName]
-		}
-		if method != nil {
-			if !isPtr && method.RecvPtr {
-				// update expr.X's type to be ptr
-				// TODO: if is paren, deparen all
-				if onDetectedPointer != nil {
-					onDetectedPointer()
-				}
-			}
-			return types.PkgTypeMethod{
-				Name: fieldName,
-				Recv: resolvedNamedType,
-				// TODO params
+	visited := make(map[PkgName]bool)
+	level := []embeddedType{{typ: valType}}
+	for len(level) > 0 {
+		var next []embeddedType
+		for _, embedded := range level {
+			object, embeddeds := c.resolveDirectField(embedded, fieldName, visited, onDetectedPointer)
+			if object != nil {
+				return object
 			}
-		} else {
-			// check fields
-			var isPtr bool
-			valType := valType.Underlying()
-			if rawPtr, ok := valType.(types.RawPtr); ok {
-				isPtr = true
-				valType = rawPtr.Elem
+			next = append(next, embeddeds...)
+		}
+		level = next
+	}
+	return types.Unknown{}
+}
+
+func (c *Scope) resolveDirectField(embedded embeddedType, fieldName string, visited map[PkgName]bool, onDetectedPointer func()) (types.Object, []embeddedType) {
+	isPtr := embedded.isPtr
+	typ := embedded.typ
+	for {
+		switch t := typ.(type) {
+		case types.LazyType:
+			typ = t()
+			continue
+		case types.PtrType:
+			// *T
+			isPtr = true
+			typ = t.Elem
+			continue
+		case types.GenericInstanceType:
+			typ = t.Type
+			continue
+		case types.NamedType:
+			pkgName := PkgName{PkgPath: t.PkgPath, Name: t.Name}
+			if visited[pkgName] {
+				return nil, nil
 			}
-			ud, ok := valType.(types.Struct)
-			if ok {
-				var fieldType types.Type
-				for _, field := range ud.Fields {
-					if field.Name == fieldName {
-						fieldType = field.Type
-						break
-					}
-				}
-				// struct X{ *Reader }
-				// x:=&X{}
-				// x.Reader -> *Reader
-				if fieldType != nil && !types.IsUnknown(fieldType) {
-					v := types.Value{
-						Type_: fieldType,
+			visited[pkgName] = true
+			decl := c.getPkgNameDecl(t.PkgPath, t.Name)
+			if decl != nil {
+				if method := decl.Methods[fieldName]; method != nil {
+					if !isPtr && method.RecvPtr && onDetectedPointer != nil {
+						onDetectedPointer()
 					}
-					// comment the following code due to: https://github.com/xhd2015/xgo/issues/361
-					_ = isPtr
-					// if isPtr && !types.IsPointer(fieldType) {
-					// 	return types.Pointer{
-					// 		Value: v,
-					// 	}
-					// }
-					return v
+					return types.PkgTypeMethod{
+						Name: fieldName,
+						Recv: t,
+						// TODO params
+					}, nil
 				}
 			}
+			// either an alias, or a type whose fields
+			// are the ones of another type
+			// see issue https://github.com/xhd2015/xgo/issues/314
+			typ = t.Type
+			continue
 		}
+		break
 	}
-	return types.Unknown{}
+	structType, ok := typ.(types.Struct)
+	if !ok {
+		return nil, nil
+	}
+	for _, field := range structType.Fields {
+		if field.Name != fieldName {
+			continue
+		}
+		// struct X{ *Reader }
+		// x:=&X{}
+		// x.Reader -> *Reader
+		// see also https://github.com/xhd2015/xgo/issues/361
+		fieldType := types.ResolveLazy(field.Type)
+		if fieldType == nil || types.IsUnknown(fieldType) {
+			return types.Unknown{}, nil
+		}
+		return types.Value{
+			Type_: field.Type,
+		}, nil
+	}
+	var embeddeds []embeddedType
+	for _, field := range structType.Fields {
+		if field.Embedded {
+			embeddeds = append(embeddeds, embeddedType{
+				typ:   field.Type,
+				isPtr: isPtr,
+			})
+		}
+	}
+	return nil, embeddeds
 }
diff --git a/instrument/resolve/scope.go b/instrument/resolve/scope.go
index 52ebdb8..c4b8991 100644
--- a/instrument/resolve/scope.go
+++ b/instrument/resolve/scope.go
@@ -170,6 +170,18 @@ func (c *Scope) newScope() *Scope {
 	}
 }
 
+// withNames gives a scope with the local names
+func (c *Scope) withNames(names []string) *Scope {
+	if len(names) == 0 {
+		return c
+	}
+	scope := c.newScope()
+	for _, name := range names {
+		scope.Add(name)
+	}
+	return scope
+}
+
 // tt:=tt --> creates a new scope in later phase
 func (c *Scope) splitScopeWithDef(defs map[string]*Define, names map[string]bool) {
 	clone := *c
diff --git a/instrument/resolve/traverse.go b/instrument/resolve/traverse.go
index 1f27f17..4170fc2 100644
--- a/instrument/resolve/traverse.go
+++ b/instrument/resolve/traverse.go
@@ -39,7 +39,8 @@ func CollectDecls(pkg *edit.Package) {
 									continue
 								}
 								var value ast.Expr
-								if i < len(spec.Values) {
+								// var a, b = f() has no value for each
+								if len(spec.Values) == len(spec.Names) {
 									value = spec.Values[i]
 								}
 								kind := edit.DeclKindVar
diff --git a/instrument/resolve/types/type.go b/instrument/resolve/types/type.go
index 022c98d..91193e9 100644
--- a/instrument/resolve/types/type.go
+++ b/instrument/resolve/types/type.go
@@ -125,8 +125,9 @@ type Struct struct {
 }
 
 type StructField struct {
-	Name string
-	Type Type
+	Name     string
+	Type     Type
+	Embedded bool
 }
 
 type Interface struct {
-- 
2.43.0


From 37ca2c15aee006c4c5e3c9c205abb3f6e9522d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:06 +0000
Subject: [PATCH 23/71] fix: do not refer to types of inaccessible internal
 packages

---
 instrument/instrument_var/trap_var.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/instrument/instrument_var/trap_var.go b/instrument/instrument_var/trap_var.go
index f780f1c..87a9918 100644
--- a/instrument/instrument_var/trap_var.go
+++ b/instrument/instrument_var/trap_var.go
@@ -188,6 +188,9 @@ func (c *UseContext) doUseTypeInFile(typ types.Type) (res string) {
 		if !token.IsExported(typ.Name) {
 			panic(fmt.Sprintf("unexported type: %s", typ.Name))
 		}
+		if !canImport(c.pkgPath, typ.PkgPath) {
+			panic(fmt.Sprintf("type of internal package: %s.%s", typ.PkgPath, typ.Name))
+		}
 		pos := c.fset.Position(c.pos)
 		pkgRef, isNew := c.impRecorder.RecordImport(typ.PkgPath, fmt.Sprintf("__xgo_var_ref_%d_%d", pos.Line, pos.Column))
 		if isNew {
@@ -231,6 +234,20 @@ func (c *UseContext) doUseTypeInFile(typ types.Type) (res string) {
 	}
 }
 
+// canImport checks the rule of internal packages, see
+// https://go.dev/doc/go1.4#internalpackages
+func canImport(pkgPath string, impPath string) bool {
+	elems := strings.Split(impPath, "/")
+	for i := len(elems) - 1; i >= 0; i-- {
+		if elems[i] != "internal" {
+			continue
+		}
+		parent := strings.Join(elems[:i], "/")
+		return parent != "" && (pkgPath == parent || strings.HasPrefix(pkgPath, parent+"/"))
+	}
+	return true
+}
+
 type importRecorder struct {
 	// pkg -> pkgRef, pkgRef
 	// is guaranteed to have no conflicts with
-- 
2.43.0


From fc493dbb889ba9634e0db7af2a69833cdebf5cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 24/71] fix: resolve the type of a variable where it is
 declared

not where it is used: local names or imports of other files there may
hide what its declaration refers to.
---
 instrument/resolve/collect_var_ref.go |  3 ++-
 instrument/resolve/resolve.go         | 10 ++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/instrument/resolve/collect_var_ref.go b/instrument/resolve/collect_var_ref.go
index d5bf046..e5f8a9d 100644
--- a/instrument/resolve/collect_var_ref.go
+++ b/instrument/resolve/collect_var_ref.go
@@ -82,7 +82,8 @@ func (c *Scope) collectVarRef(addr *ast.UnaryExpr, expr ast.Expr, originalSel *a
 	if decl == nil {
 		return false
 	}
-	if !c.tryResolveDeclType(decl) {
+	declScope := c.newDeclScope(c.Global.Packages.GetPackage(pkgPath), decl)
+	if !declScope.tryResolveDeclType(decl) {
 		return false
 	}
 
diff --git a/instrument/resolve/resolve.go b/instrument/resolve/resolve.go
index 3efcb33..65339ee 100644
--- a/instrument/resolve/resolve.go
+++ b/instrument/resolve/resolve.go
@@ -108,6 +108,9 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 				if config.DEBUG {
 					config_debug.OnResolvePackageDeclareInfo(c.Package.PkgPath(), c.File.File.File.Name, expr)
 				}
+				// what a declaration refers to is determined
+				// where it is declared
+				c := c.newDeclScope(c.Package.Package, decl)
 				if decl.Kind == edit.DeclKindType {
 					typ := c.withNames(getTypeDeclParamNames(decl)).resolveType(decl.Type)
 					if types.IsUnknown(typ) {
@@ -628,6 +631,13 @@ func (c *Scope) newFileScope(pkg *edit.Package, file *edit.File) *Scope {
 	return newFileScope(c.Global, pkg, file, c.PkgDepth+1)
 }
 
+func (c *Scope) newDeclScope(pkg *edit.Package, decl *edit.Decl) *Scope {
+	if pkg == nil || decl.File == nil {
+		return c
+	}
+	return newFileScope(c.Global, pkg, decl.File, c.PkgDepth)
+}
+
 func getEmbedFieldName(typ ast.Expr) string {
 	typ = deparen(typ)
 	starExpr, ok := typ.(*ast.StarExpr)
-- 
2.43.0


From d4a106d6e813c19dbb307d066049b41e3e1a9361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 25/71] fix: accept parenthesised receiver types

func (t *(T)) M() and func ((T)) M() made xgo panic.
---
 cmd/xgo/asset/compiler_patch_gen/syntax/decl.go | 17 ++++++++++++++---
 instrument/ast/recv.go                          | 15 ++++++++++++++-
 patch/syntax/decl.go                            | 17 ++++++++++++++---
 3 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/cmd/xgo/asset/compiler_patch_gen/syntax/decl.go b/cmd/xgo/asset/compiler_patch_gen/syntax/decl.go
index 862dae2..a88bf10 100755
--- a/cmd/xgo/asset/compiler_patch_gen/syntax/decl.go
+++ b/cmd/xgo/asset/compiler_patch_gen/syntax/decl.go
@@ -107,6 +107,17 @@ func extractFuncDecls(fileIndex int, declIndex int, f *syntax.File, file string,
 	return nil
 }
 
+// unparen skips parentheses around a receiver type: (*T), *(T)
+func unparen(expr syntax.Expr) syntax.Expr {
+	for {
+		paren, ok := expr.(*syntax.ParenExpr)
+		if !ok {
+			return expr
+		}
+		expr = paren.X
+	}
+}
+
 func getFuncDeclInfo(fileIndex int, declIndex int, f *syntax.File, file string, fn *syntax.FuncDecl, funcsMapping map[string]*compiler_extra.FuncMapping) *info.DeclInfo {
 	if fn.Body == nil {
 		// see bug https://github.com/xhd2015/xgo/issues/202
@@ -135,12 +146,12 @@ func getFuncDeclInfo(fileIndex int, declIndex int, f *syntax.File, file string,
 			recvName = fn.Recv.Name.Value
 		}
 
-		recvTypeExpr := fn.Recv.Type
+		recvTypeExpr := unparen(fn.Recv.Type)
 
 		// *A
-		if starExpr, ok := fn.Recv.Type.(*syntax.Operation); ok && starExpr.Op == syntax.Mul {
+		if starExpr, ok := recvTypeExpr.(*syntax.Operation); ok && starExpr.Op == syntax.Mul {
 			// *A
-			recvTypeExpr = starExpr.X
+			recvTypeExpr = unparen(starExpr.X)
 			recvPtr = true
 		}
 		// check if generic
diff --git a/instrument/ast/recv.go b/instrument/ast/recv.go
index f093fc6..f626a28 100644
--- a/instrument/ast/recv.go
+++ b/instrument/ast/recv.go
@@ -30,6 +30,8 @@ func ParseReceiverInfo(fnName string, receiverType ast.Expr) (identityName strin
 //	*pkg.T    → ptr=true,  generic=false, recv="T"  (StarExpr→SelectorExpr)
 //	*pkg.T[K] → ptr=true,  generic=true,  recv="T"  (StarExpr→IndexExpr→SelectorExpr)
 //
+// Parentheses around the type or around its base are skipped: (*T), *(T).
+//
 // The SelectorExpr case occurs when a method receiver references a type from
 // another package (e.g., *otherpkg.Type). The Go AST represents this as
 // *ast.StarExpr{X: *ast.SelectorExpr{X: pkg, Sel: Type}}. Previously this
@@ -38,10 +40,11 @@ func ParseReceiverInfo(fnName string, receiverType ast.Expr) (identityName strin
 // which is the *ast.Ident for the type name portion (e.g., "Type").
 func ParseReceiverType(typeExpr ast.Expr) (ptr bool, generic bool, recvType *ast.Ident) {
 	orig := typeExpr
+	typeExpr = unparen(typeExpr)
 	starExpr, ok := typeExpr.(*ast.StarExpr)
 	if ok {
 		ptr = true
-		typeExpr = starExpr.X
+		typeExpr = unparen(starExpr.X)
 	}
 	indexExpr, ok := typeExpr.(*ast.IndexExpr)
 	if ok {
@@ -64,3 +67,13 @@ func ParseReceiverType(typeExpr ast.Expr) (ptr bool, generic bool, recvType *ast
 	}
 	return ptr, generic, idt
 }
+
+func unparen(expr ast.Expr) ast.Expr {
+	for {
+		paren, ok := expr.(*ast.ParenExpr)
+		if !ok {
+			return expr
+		}
+		expr = paren.X
+	}
+}
diff --git a/patch/syntax/decl.go b/patch/syntax/decl.go
index 862dae2..a88bf10 100644
--- a/patch/syntax/decl.go
+++ b/patch/syntax/decl.go
@@ -107,6 +107,17 @@ func extractFuncDecls(fileIndex int, declIndex int, f *syntax.File, file string,
 	return nil
 }
 
+// unparen skips parentheses around a receiver type: (*T), *(T)
+func unparen(expr syntax.Expr) syntax.Expr {
+	for {
+		paren, ok := expr.(*syntax.ParenExpr)
+		if !ok {
+			return expr
+		}
+		expr = paren.X
+	}
+}
+
 func getFuncDeclInfo(fileIndex int, declIndex int, f *syntax.File, file string, fn *syntax.FuncDecl, funcsMapping map[string]*compiler_extra.FuncMapping) *info.DeclInfo {
 	if fn.Body == nil {
 		// see bug https://github.com/xhd2015/xgo/issues/202
@@ -135,12 +146,12 @@ func getFuncDeclInfo(fileIndex int, declIndex int, f *syntax.File, file string,
 			recvName = fn.Recv.Name.Value
 		}
 
-		recvTypeExpr := fn.Recv.Type
+		recvTypeExpr := unparen(fn.Recv.Type)
 
 		// *A
-		if starExpr, ok := fn.Recv.Type.(*syntax.Operation); ok && starExpr.Op == syntax.Mul {
+		if starExpr, ok := recvTypeExpr.(*syntax.Operation); ok && starExpr.Op == syntax.Mul {
 			// *A
-			recvTypeExpr = starExpr.X
+			recvTypeExpr = unparen(starExpr.X)
 			recvPtr = true
 		}
 		// check if generic
-- 
2.43.0


From 15d5f9904c3a4dd940bf812475d550ffbf447400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:29 +0000
Subject: [PATCH 26/71] fix: keep the initialization order of package variables

Metadata variables were declared behind variables of the package, so
an initializer calling an instrumented function had to wait for them
and was overtaken by later initializers.
---
 cmd/xgo/instrument.go                       |  4 +-
 instrument/instrument_reg/instrument_reg.go | 71 ++++++++++++++++++---
 instrument/patch/init.go                    | 14 ++++
 3 files changed, 77 insertions(+), 12 deletions(-)

diff --git a/cmd/xgo/instrument.go b/cmd/xgo/instrument.go
index 71cd0ba..0392bcc 100644
--- a/cmd/xgo/instrument.go
+++ b/cmd/xgo/instrument.go
@@ -381,9 +381,7 @@ func registerFuncTab(packages *edit.Packages) {
 	for _, pkg := range packages.Packages {
 		pkgPath := pkg.LoadPackage.GoPackage.ImportPath
 		stdlib := pkg.LoadPackage.GoPackage.Standard
-		for _, file := range pkg.Files {
-			instrument_reg.RegisterFuncTab(fset, file, pkgPath, stdlib)
-		}
+		instrument_reg.RegisterFuncTab(fset, pkg.Files, pkgPath, stdlib)
 	}
 }
 
diff --git a/instrument/instrument_reg/instrument_reg.go b/instrument/instrument_reg/instrument_reg.go
index 8e2cd77..228954c 100644
--- a/instrument/instrument_reg/instrument_reg.go
+++ b/instrument/instrument_reg/instrument_reg.go
@@ -2,6 +2,7 @@ package instrument_reg
 
 import (
 	"go/token"
+	"strings"
 
 	astutil "github.com/xhd2015/xgo/instrument/ast"
 	"github.com/xhd2015/xgo/instrument/compiler_extra"
@@ -10,7 +11,59 @@ import (
 	"github.com/xhd2015/xgo/instrument/patch"
 )
 
-func RegisterFuncTab(fset *token.FileSet, file *edit.File, pkgPath string, stdlib bool) {
+// RegisterFuncTab registers functions, variables and interfaces of
+// the files of a package.
+//
+// The variables that hold their metadata are declared before any other
+// variable of the package: functions refer to them, so if they were
+// declared later, an initializer that calls such a function would have
+// to wait for them, and be overtaken by initializers that do not.
+// see https://go.dev/ref/spec#Package_initialization
+func RegisterFuncTab(fset *token.FileSet, files []*edit.File, pkgPath string, stdlib bool) {
+	for _, group := range groupFiles(files) {
+		var defs []string
+		for _, file := range group {
+			defs = append(defs, registerFile(fset, file, pkgPath, stdlib))
+		}
+		code := compiler_extra.JoinStmts(defs...)
+		if code == "" {
+			continue
+		}
+		first := group[0]
+		patch.AddCode(first.Edit, patch.GetVarInsertPosition(first.File.Syntax), code)
+	}
+}
+
+// groupFiles splits files into those that are always compiled together:
+// files of the package, its tests and its external tests
+func groupFiles(files []*edit.File) [][]*edit.File {
+	groups := make([][]*edit.File, 3)
+	for _, file := range files {
+		syntax := file.File.Syntax
+		if syntax == nil || syntax.Name == nil {
+			continue
+		}
+		var i int
+		if strings.HasSuffix(file.File.Name, "_test.go") {
+			i = 1
+			if strings.HasSuffix(syntax.Name.Name, "_test") {
+				i = 2
+			}
+		}
+		groups[i] = append(groups[i], file)
+	}
+	n := 0
+	for _, group := range groups {
+		if len(group) > 0 {
+			groups[n] = group
+			n++
+		}
+	}
+	return groups[:n]
+}
+
+// registerFile returns definitions to be put before other variables
+func registerFile(fset *token.FileSet, file *edit.File, pkgPath string, stdlib bool) string {
 	fileIndex := file.Index
 	perFilePkgNames := compiler_extra.PkgNames{
 		REGISTER:     constants.Register(fileIndex),
@@ -30,21 +83,21 @@ func RegisterFuncTab(fset *token.FileSet, file *edit.File, pkgPath string, stdli
 
 	res := compiler_extra.GetFileRegStmts(fileDecls, stdlib, FILE_VAR, FILE_VAR_FOR_VAR, perFilePkgNames)
 	if len(res.VarDefStmts) == 0 {
-		return
+		return ""
 	}
 
-	regCode := compiler_extra.GenerateRegCode(perFilePkgNames.XGO_INIT, res.VarDefStmts, res.VarRegStmts, res.DelayInitStmts)
+	regCode := compiler_extra.GenerateRegCode(perFilePkgNames.XGO_INIT, nil, res.VarRegStmts, res.DelayInitStmts)
 	initFunc := compiler_extra.DeclareInitFunc(perFilePkgNames)
 
-	pkgStubs := compiler_extra.DeclarePkgStubs(pkgPath, perFilePkgNames)
-	fileStub := compiler_extra.DeclareFileStub(fileIndex, absFile)
-	fileForVarStub := compiler_extra.DeclareFileStubForVar(fileIndex, absFile)
-	stubRegCode := compiler_extra.JoinStmts(compiler_extra.JoinStmts(pkgStubs...), fileStub, fileForVarStub, regCode)
-
 	fileSyntax := file.File.Syntax
 	pos := patch.GetFuncInsertPosition(fileSyntax)
-	patch.AddCode(file.Edit, pos, stubRegCode)
+	patch.AddCode(file.Edit, pos, regCode)
 	patch.Append(file.Edit, fileSyntax, "\n"+initFunc)
+
+	pkgStubs := compiler_extra.DeclarePkgStubs(pkgPath, perFilePkgNames)
+	fileStub := compiler_extra.DeclareFileStub(fileIndex, absFile)
+	fileForVarStub := compiler_extra.DeclareFileStubForVar(fileIndex, absFile)
+	return compiler_extra.JoinStmts(compiler_extra.JoinStmts(pkgStubs...), fileStub, fileForVarStub, compiler_extra.JoinStmts(res.VarDefStmts...))
 }
 
 func buildCompilerExtra(fset *token.FileSet, file *edit.File) *compiler_extra.FileDecls {
diff --git a/instrument/patch/init.go b/instrument/patch/init.go
index b17f676..50b26c1 100644
--- a/instrument/patch/init.go
+++ b/instrument/patch/init.go
@@ -40,6 +40,20 @@ func GetFuncInsertPosition(file *ast.File) token.Pos {
 	return fileEnd
 }
 
+// GetVarInsertPosition returns the position before any
+// declaration of the file, right after the imports
+func GetVarInsertPosition(file *ast.File) token.Pos {
+	pos := file.Name.End()
+	for _, decl := range file.Decls {
+		genDecl, ok := decl.(*ast.GenDecl)
+		if !ok || genDecl.Tok != token.IMPORT {
+			break
+		}
+		pos = genDecl.End()
+	}
+	return pos
+}
+
 // Append inserts s at the end of the buffer using its length,
 // NOTE: when the source file has \r\n the file.End() isn't correct
 func Append(edit *goedit.Edit, file *ast.File, s string) {
-- 
2.43.0


From 7c6b6c6e4135b0e3ae0b571d99fdacc208e3f3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 27/71] fix: keep the names of package-level closures

---
 .../instrument/compiler_extra/register.go        | 16 ++++++++++++----
 instrument/compiler_extra/register.go            | 16 ++++++++++++----
 patch/instrument/compiler_extra/register.go      | 16 ++++++++++++----
 3 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/cmd/xgo/asset/compiler_patch_gen/instrument/compiler_extra/register.go b/cmd/xgo/asset/compiler_patch_gen/instrument/compiler_extra/register.go
index a07849c..d82eeaf 100755
--- a/cmd/xgo/asset/compiler_patch_gen/instrument/compiler_extra/register.go
+++ b/cmd/xgo/asset/compiler_patch_gen/instrument/compiler_extra/register.go
@@ -194,14 +194,22 @@ func JoinQuoteNames(names []string, sep string) string {
 func DeclarePkgStubs(pkgPath string, names PkgNames) []string {
 	return []string{
 		fmt.Sprintf("type %s struct{%s}", names.FUNC_INFO_TYPE, strings.Join(constants.FUNC_INFO_FIELDS, ";")),
-		fmt.Sprintf("var %s = %s", names.REGISTER, constants.REGISTER_SIGNATURE),
-		fmt.Sprintf("var %s = %s", names.TRAP_FUNC, constants.TRAP_FUNC_SIGNATURE),
-		fmt.Sprintf("var %s = %s", names.TRAP_VAR, constants.TRAP_VAR_SIGNATURE),
-		fmt.Sprintf("var %s = %s", names.TRAP_VAR_PTR, constants.TRAP_VAR_PTR_SIGNATURE),
+		declareFuncVar(names.REGISTER, constants.REGISTER_SIGNATURE),
+		declareFuncVar(names.TRAP_FUNC, constants.TRAP_FUNC_SIGNATURE),
+		declareFuncVar(names.TRAP_VAR, constants.TRAP_VAR_SIGNATURE),
+		declareFuncVar(names.TRAP_VAR_PTR, constants.TRAP_VAR_PTR_SIGNATURE),
 		fmt.Sprintf("var %s=%q", names.PKG_VAR, pkgPath),
 	}
 }
 
+// declareFuncVar defines a variable with a default function.
+// The function is not a literal, because literals are numbered
+// throughout the package(p.init.func1,...), which would rename
+// those of the user
+func declareFuncVar(name string, funcLit string) string {
+	return fmt.Sprintf("func %s_default%s;var %s = %s_default", name, strings.TrimPrefix(funcLit, "func"), name, name)
+}
+
 func DeclareFileStub(fileIndex int, absFile string) string {
 	return fmt.Sprintf("var %s=%q", constants.FileVar(fileIndex), absFile)
 }
diff --git a/instrument/compiler_extra/register.go b/instrument/compiler_extra/register.go
index 424ab7e..c4c6a53 100644
--- a/instrument/compiler_extra/register.go
+++ b/instrument/compiler_extra/register.go
@@ -192,14 +192,22 @@ func JoinQuoteNames(names []string, sep string) string {
 func DeclarePkgStubs(pkgPath string, names PkgNames) []string {
 	return []string{
 		fmt.Sprintf("type %s struct{%s}", names.FUNC_INFO_TYPE, strings.Join(constants.FUNC_INFO_FIELDS, ";")),
-		fmt.Sprintf("var %s = %s", names.REGISTER, constants.REGISTER_SIGNATURE),
-		fmt.Sprintf("var %s = %s", names.TRAP_FUNC, constants.TRAP_FUNC_SIGNATURE),
-		fmt.Sprintf("var %s = %s", names.TRAP_VAR, constants.TRAP_VAR_SIGNATURE),
-		fmt.Sprintf("var %s = %s", names.TRAP_VAR_PTR, constants.TRAP_VAR_PTR_SIGNATURE),
+		declareFuncVar(names.REGISTER, constants.REGISTER_SIGNATURE),
+		declareFuncVar(names.TRAP_FUNC, constants.TRAP_FUNC_SIGNATURE),
+		declareFuncVar(names.TRAP_VAR, constants.TRAP_VAR_SIGNATURE),
+		declareFuncVar(names.TRAP_VAR_PTR, constants.TRAP_VAR_PTR_SIGNATURE),
 		fmt.Sprintf("var %s=%q", names.PKG_VAR, pkgPath),
 	}
 }
 
+// declareFuncVar defines a variable with a default function.
+// The function is not a literal, because literals are numbered
+// throughout the package(p.init.func1,...), which would rename
+// those of the user
+func declareFuncVar(name string, funcLit string) string {
+	return fmt.Sprintf("func %s_default%s;var %s = %s_default", name, strings.TrimPrefix(funcLit, "func"), name, name)
+}
+
 func DeclareFileStub(fileIndex int, absFile string) string {
 	return fmt.Sprintf("var %s=%q", constants.FileVar(fileIndex), absFile)
 }
diff --git a/patch/instrument/compiler_extra/register.go b/patch/instrument/compiler_extra/register.go
index a07849c..d82eeaf 100755
--- a/patch/instrument/compiler_extra/register.go
+++ b/patch/instrument/compiler_extra/register.go
@@ -194,14 +194,22 @@ func JoinQuoteNames(names []string, sep string) string {
 func DeclarePkgStubs(pkgPath string, names PkgNames) []string {
 	return []string{
 		fmt.Sprintf("type %s struct{%s}", names.FUNC_INFO_TYPE, strings.Join(constants.FUNC_INFO_FIELDS, ";")),
-		fmt.Sprintf("var %s = %s", names.REGISTER, constants.REGISTER_SIGNATURE),
-		fmt.Sprintf("var %s = %s", names.TRAP_FUNC, constants.TRAP_FUNC_SIGNATURE),
-		fmt.Sprintf("var %s = %s", names.TRAP_VAR, constants.TRAP_VAR_SIGNATURE),
-		fmt.Sprintf("var %s = %s", names.TRAP_VAR_PTR, constants.TRAP_VAR_PTR_SIGNATURE),
+		declareFuncVar(names.REGISTER, constants.REGISTER_SIGNATURE),
+		declareFuncVar(names.TRAP_FUNC, constants.TRAP_FUNC_SIGNATURE),
+		declareFuncVar(names.TRAP_VAR, constants.TRAP_VAR_SIGNATURE),
+		declareFuncVar(names.TRAP_VAR_PTR, constants.TRAP_VAR_PTR_SIGNATURE),
 		fmt.Sprintf("var %s=%q", names.PKG_VAR, pkgPath),
 	}
 }
 
+// declareFuncVar defines a variable with a default function.
+// The function is not a literal, because literals are numbered
+// throughout the package(p.init.func1,...), which would rename
+// those of the user
+func declareFuncVar(name string, funcLit string) string {
+	return fmt.Sprintf("func %s_default%s;var %s = %s_default", name, strings.TrimPrefix(funcLit, "func"), name, name)
+}
+
 func DeclareFileStub(fileIndex int, absFile string) string {
 	return fmt.Sprintf("var %s=%q", constants.FileVar(fileIndex), absFile)
 }
-- 
2.43.0


From 94e7e2002c18fa95145e6471a4b14fe27d71d5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 28/71] fix: restore every instrumented file of the extracted
 runtime

---
 cmd/xgo/trace.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/cmd/xgo/trace.go b/cmd/xgo/trace.go
index d5ef4ef..15395d3 100644
--- a/cmd/xgo/trace.go
+++ b/cmd/xgo/trace.go
@@ -263,15 +263,25 @@ func loadDependency(goroot string, goBinary string, goVersion *goinfo.GoVersion,
 				return nil, err
 			}
 		} else {
-			// always copy trace.go because it will be instrumented
-			logDebug("extracting runtime/trace/trace.go from xgo to %s", tmpRuntime)
-			content, err := asset.RuntimeGenFS.ReadFile(asset.RuntimeGen + "/trace/trace.go")
+			// always copy files of runtime/trace because they will be instrumented
+			logDebug("extracting runtime/trace from xgo to %s", tmpRuntime)
+			embedTraceDir := concatEmbedPath(asset.RuntimeGen, "trace")
+			entries, err := asset.RuntimeGenFS.ReadDir(embedTraceDir)
 			if err != nil {
 				return nil, err
 			}
-			err = os.WriteFile(filepath.Join(tmpRuntime, "trace", "trace.go"), content, 0755)
-			if err != nil {
-				return nil, err
+			for _, entry := range entries {
+				if entry.IsDir() {
+					continue
+				}
+				content, err := asset.RuntimeGenFS.ReadFile(concatEmbedPath(embedTraceDir, entry.Name()))
+				if err != nil {
+					return nil, err
+				}
+				err = os.WriteFile(filepath.Join(tmpRuntime, "trace", entry.Name()), content, 0755)
+				if err != nil {
+					return nil, err
+				}
 			}
 		}
 	}
-- 
2.43.0


From 7c8ea98c7ea7ad4baa234499613d9a7475bc019b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 29/71] fix: relative line directives of instrumented files

---
 cmd/xgo/instrument.go                       |  1 +
 instrument/instrument_go/line_directive.go  | 65 +++++++++++++++++++++
 instrument/instrument_reg/instrument_reg.go |  6 +-
 3 files changed, 69 insertions(+), 3 deletions(-)
 create mode 100644 instrument/instrument_go/line_directive.go

diff --git a/cmd/xgo/instrument.go b/cmd/xgo/instrument.go
index 0392bcc..ce89b38 100644
--- a/cmd/xgo/instrument.go
+++ b/cmd/xgo/instrument.go
@@ -392,6 +392,7 @@ func applyInstrumentWithEditNotes(overlayFS overlay.Overlay, packages *edit.Pack
 			if !file.Edit.HasEdit() {
 				continue
 			}
+			instrument_go.FixRelativeLineDirectives(file.Edit, file.File.Syntax, file.File.AbsPath)
 			content := string(file.Edit.Buffer().Bytes())
 			if mayHaveCover {
 				var err error
diff --git a/instrument/instrument_go/line_directive.go b/instrument/instrument_go/line_directive.go
new file mode 100644
index 0000000..4e4543d
--- /dev/null
+++ b/instrument/instrument_go/line_directive.go
@@ -0,0 +1,65 @@
+package instrument_go
+
+import (
+	"go/ast"
+	"go/token"
+	"path/filepath"
+	"strconv"
+	"strings"
+
+	"github.com/xhd2015/xgo/support/edit/goedit"
+)
+
+// FixRelativeLineDirectives makes file names in line directives absolute.
+// A relative name is relative to the directory of the file that contains it,
+// while an edited file is compiled from another directory.
+func FixRelativeLineDirectives(fileEdit *goedit.Edit, syntax *ast.File, absFile string) {
+	fset := fileEdit.Fset()
+	dir := filepath.Dir(absFile)
+	for _, group := range syntax.Comments {
+		for _, comment := range group.List {
+			const prefixLen = len("//line ")
+			text := comment.Text
+			if strings.HasPrefix(text, "//line ") {
+				if fset.PositionFor(comment.Pos(), false).Column != 1 {
+					continue
+				}
+			} else if strings.HasPrefix(text, "/*line ") {
+				text = strings.TrimSuffix(text, "*/")
+			} else {
+				continue
+			}
+			name := lineDirectiveFile(text[prefixLen:])
+			if name == "" || filepath.IsAbs(name) {
+				continue
+			}
+			start := comment.Pos() + token.Pos(prefixLen)
+			fileEdit.Replace(start, start+token.Pos(len(name)), filepath.Join(dir, name))
+		}
+	}
+}
+
+// lineDirectiveFile returns the file name of <name>:<line> or
+// <name>:<line>:<column>
+func lineDirectiveFile(s string) string {
+	name, ok := trimNumber(s)
+	if !ok {
+		return ""
+	}
+	if shorter, ok := trimNumber(name); ok {
+		return shorter
+	}
+	return name
+}
+
+func trimNumber(s string) (string, bool) {
+	i := strings.LastIndex(s, ":")
+	if i < 0 {
+		return "", false
+	}
+	n, err := strconv.ParseUint(s[i+1:], 10, 32)
+	if err != nil || n == 0 {
+		return "", false
+	}
+	return s[:i], true
+}
diff --git a/instrument/instrument_reg/instrument_reg.go b/instrument/instrument_reg/instrument_reg.go
index 228954c..35dac0e 100644
--- a/instrument/instrument_reg/instrument_reg.go
+++ b/instrument/instrument_reg/instrument_reg.go
@@ -130,7 +130,7 @@ func buildCompilerExtra(fset *token.FileSet, file *edit.File) *compiler_extra.Fi
 			}
 		}
 		pos := funcInfo.FuncDecl.Pos()
-		lineNum := fset.Position(pos).Line
+		lineNum := fset.PositionFor(pos, false).Line
 		decls.TrapFuncs = append(decls.TrapFuncs, compiler_extra.FuncInfo{
 			IdentityName:     funcInfo.IdentityName,
 			Name:             funcInfo.FuncDecl.Name.Name,
@@ -150,7 +150,7 @@ func buildCompilerExtra(fset *token.FileSet, file *edit.File) *compiler_extra.Fi
 	}
 	for _, varInfo := range file.TrapVars {
 		pos := varInfo.Decl.Decl.Pos()
-		lineNum := fset.Position(pos).Line
+		lineNum := fset.PositionFor(pos, false).Line
 		decls.TrapVars = append(decls.TrapVars, compiler_extra.VarInfo{
 			Name:    varInfo.Name,
 			LineNum: lineNum,
@@ -159,7 +159,7 @@ func buildCompilerExtra(fset *token.FileSet, file *edit.File) *compiler_extra.Fi
 	}
 	for _, intfType := range file.InterfaceTypes {
 		pos := intfType.Ident.Pos()
-		lineNum := fset.Position(pos).Line
+		lineNum := fset.PositionFor(pos, false).Line
 		decls.InterfaceTypes = append(decls.InterfaceTypes, compiler_extra.InterfaceType{
 			Name:    intfType.Name,
 			LineNum: lineNum,
-- 
2.43.0


From 6c5b933647997ba14a0825a20bccab6243700d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 30/71] fix: import the trace package right after the package
 clause

---
 cmd/xgo/trace.go | 60 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 18 deletions(-)

diff --git a/cmd/xgo/trace.go b/cmd/xgo/trace.go
index 15395d3..e12e0af 100644
--- a/cmd/xgo/trace.go
+++ b/cmd/xgo/trace.go
@@ -4,6 +4,8 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"go/scanner"
+	"go/token"
 	"os"
 	"path/filepath"
 	"strconv"
@@ -692,31 +694,53 @@ type GoListPkg struct {
 
 }
 
+// addBlankImport imports the trace package on the line of
+// the package clause, so that no line is moved
 func addBlankImport(content string) (string, bool) {
-	var base int
-	idx := strings.Index(content, "package ")
-	if idx < 0 {
+	fset := token.NewFileSet()
+	file := fset.AddFile("", fset.Base(), len(content))
+	var sc scanner.Scanner
+	sc.Init(file, []byte(content), func(token.Position, string) {}, 0)
+	next := func() (int, token.Token, string) {
+		pos, tok, lit := sc.Scan()
+		return file.Offset(pos), tok, lit
+	}
+	if _, tok, _ := next(); tok != token.PACKAGE {
 		return "", false
 	}
-	base += idx
-	subContent := content[idx:]
-	rIdx := strings.Index(subContent, "\r")
-	if rIdx > 0 {
-		base += rIdx
-		subContent = subContent[rIdx+1:]
-	}
-	nIdx := strings.Index(subContent, "\n")
-	if nIdx < 0 {
-		q := fmt.Sprintf(";import _ %q", constants.RUNTIME_TRACE_PKG)
-		return content + q, true
+	start, tok, name := next()
+	if tok != token.IDENT {
+		return "", false
 	}
-	base += nIdx
+	// end of the package clause, or of an import that follows it on the line
+	end := start + len(name)
 	sep := ";"
-	if base > 0 && content[base-1] == ';' {
-		sep = ""
+	for {
+		semicolon, tok, lit := next()
+		if tok != token.SEMICOLON || lit != ";" {
+			break
+		}
+		start, tok, _ := next()
+		if tok == token.EOF || strings.Contains(content[semicolon:start], "\n") {
+			// an explicit semicolon ends the line
+			end = semicolon + 1
+			sep = ""
+			break
+		}
+		if tok != token.IMPORT {
+			break
+		}
+		start, tok, lit = next()
+		if tok == token.IDENT || tok == token.PERIOD {
+			start, tok, lit = next()
+		}
+		if tok != token.STRING {
+			break
+		}
+		end = start + len(lit)
 	}
 	q := fmt.Sprintf("%simport _ %q", sep, constants.RUNTIME_TRACE_PKG)
-	return content[:base] + q + content[base:], true
+	return content[:end] + q + content[end:], true
 }
 
 // applyBlankImportThroughOverlay injects import _ "…/runtime/trace" into the
-- 
2.43.0


From 6a1050ccbfba95ecae0e626451aecaff33bc24f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:34 +0000
Subject: [PATCH 31/71] fix: the target of a mock is the variable itself, also
 when its address is mocked

---
 instrument/edit/edit.go               | 4 ++++
 instrument/instrument_var/trap_var.go | 3 +++
 instrument/resolve/collect_var_ref.go | 1 +
 instrument/resolve/expr.go            | 1 +
 instrument/resolve/scope.go           | 3 +++
 5 files changed, 12 insertions(+)

diff --git a/instrument/edit/edit.go b/instrument/edit/edit.go
index a7f3f49..7dfc8ba 100644
--- a/instrument/edit/edit.go
+++ b/instrument/edit/edit.go
@@ -55,6 +55,10 @@ type VarRef struct {
 	// FieldAccess indicates this is &variable.Field pattern
 	// In this case, keep the & and use _xgo_get() instead of _xgo_get_addr()
 	FieldAccess bool
+	// Target indicates &variable is the target of a mock, recorder
+	// or interceptor. It always denotes the variable itself, even if
+	// the address is mocked, so it is not rewritten.
+	Target bool
 }
 
 type FuncDecl struct {
diff --git a/instrument/instrument_var/trap_var.go b/instrument/instrument_var/trap_var.go
index 87a9918..fa0c319 100644
--- a/instrument/instrument_var/trap_var.go
+++ b/instrument/instrument_var/trap_var.go
@@ -119,6 +119,9 @@ func rewriteVarDefAndRefs(fset *token.FileSet, pkgPath string, file *edit.File,
 }
 
 func applyRewrite(prefix string, varRef *edit.VarRef) {
+	if varRef.Target {
+		return
+	}
 	fileEdit := varRef.File.Edit
 	if varRef.Addr != nil && !varRef.FieldAccess {
 		// delete & (but keep it for field access pattern)
diff --git a/instrument/resolve/collect_var_ref.go b/instrument/resolve/collect_var_ref.go
index e5f8a9d..967be9d 100644
--- a/instrument/resolve/collect_var_ref.go
+++ b/instrument/resolve/collect_var_ref.go
@@ -130,6 +130,7 @@ func (c *Scope) collectVarRef(addr *ast.UnaryExpr, expr ast.Expr, originalSel *a
 		NameStart:   nameStart,
 		NameEnd:     expr.End(),
 		FieldAccess: fieldAccess,
+		Target:      addr != nil && originalSel == nil && addr == c.Global.trapTarget,
 	})
 	return true
 }
diff --git a/instrument/resolve/expr.go b/instrument/resolve/expr.go
index 239c1b3..3aee69a 100644
--- a/instrument/resolve/expr.go
+++ b/instrument/resolve/expr.go
@@ -38,6 +38,7 @@ func (c *Scope) traverseCallExpr(callExpr *ast.CallExpr) {
 				// to see its type so that we
 				// need to insert trap points
 				c.recordMockRef(callExpr.Args[0])
+				c.Global.trapTarget = deparen(callExpr.Args[0])
 			}
 		}
 	}
diff --git a/instrument/resolve/scope.go b/instrument/resolve/scope.go
index c4b8991..3099131 100644
--- a/instrument/resolve/scope.go
+++ b/instrument/resolve/scope.go
@@ -92,6 +92,9 @@ type GlobalScope struct {
 	NamedTypeToDecl map[PkgName]*edit.Decl
 
 	cachedFileScopes map[*edit.File]*Scope
+
+	// the last seen fn of mock.Patch(fn,...) and alike
+	trapTarget ast.Expr
 }
 
 type PackageScope struct {
-- 
2.43.0


From 244f6bfd445b7d42d3232b6911dee764f73becbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:26 +0000
Subject: [PATCH 32/71] fix: a call whose results are unknown has no type

The result of a method was taken as a value of an empty type, so the
getter of a pointer to it was generated as func() *{}
---
 instrument/resolve/resolve.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/instrument/resolve/resolve.go b/instrument/resolve/resolve.go
index 65339ee..9cee551 100644
--- a/instrument/resolve/resolve.go
+++ b/instrument/resolve/resolve.go
@@ -491,6 +491,11 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 			if !ok {
 				return types.Unknown{}
 			}
+			if len(signature.Results) == 0 {
+				// either no result at all, or a method
+				// whose results are not known
+				return types.Unknown{}
+			}
 			// tuple
 			tuple := make(types.TupleValue, len(signature.Results))
 			for i := range signature.Results {
-- 
2.43.0


From 68c65a52aee179a510a71655fb5e842ad0a4e22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:53 +0000
Subject: [PATCH 33/71] fix: sub path of a directory in a module from the
 module down

FindGoModDirSubPath returned the elements bottom up, but callers join
them to a path.
---
 support/goinfo/find.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/goinfo/find.go b/support/goinfo/find.go
index ada3523..a76fd3c 100644
--- a/support/goinfo/find.go
+++ b/support/goinfo/find.go
@@ -46,7 +46,7 @@ func FindGoModDirSubPath(dir string) ([]string, string, error) {
 		if stat.IsDir() {
 			continue
 		}
-		return subPath, absDir, nil
+		return reverse(subPath), absDir, nil
 	}
 }
 
-- 
2.43.0


From e5b5be7727e77228958f2addee519861fe462007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:53 +0000
Subject: [PATCH 34/71] fix: read the module path of go.mod as the go command
 does

A tab after module, a quoted path and the block form were not understood.
---
 support/goinfo/mod.go | 57 +++++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 16 deletions(-)

diff --git a/support/goinfo/mod.go b/support/goinfo/mod.go
index 74a39a6..b2d445f 100644
--- a/support/goinfo/mod.go
+++ b/support/goinfo/mod.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"os"
 	"path/filepath"
+	"strconv"
 	"strings"
 
 	"github.com/xhd2015/xgo/support/osinfo"
@@ -112,30 +113,54 @@ func reverse(list []string) []string {
 	return list
 }
 
-const modulePrefix = "module "
+const moduleVerb = "module"
 
+// see golang.org/x/mod/modfile.ModulePath
 func parseModPath(goModContent string) string {
 	s := goModContent
-	for {
-		s = strings.TrimLeft(s, " \t")
-		newLineIdx := strings.Index(s, "\n")
-		if strings.HasPrefix(s, modulePrefix) {
-			ed := newLineIdx
-			if ed < 0 {
-				ed = len(s)
+	inBlock := false
+	for s != "" {
+		line := s
+		s = ""
+		if newLineIdx := strings.Index(line, "\n"); newLineIdx >= 0 {
+			line, s = line[:newLineIdx], line[newLineIdx+1:]
+		}
+		if commentIdx := strings.Index(line, "//"); commentIdx >= 0 {
+			line = line[:commentIdx]
+		}
+		line = strings.TrimSpace(line)
+		if !inBlock {
+			if !strings.HasPrefix(line, moduleVerb) {
+				continue
 			}
-			module := strings.TrimSpace(s[len(modulePrefix):ed])
-			commentIdx := strings.Index(module, "//")
-			if commentIdx >= 0 {
-				module = strings.TrimSpace(module[:commentIdx])
+			line = line[len(moduleVerb):]
+			module := strings.TrimSpace(line)
+			if module == "(" {
+				// module (
+				//   a/b
+				// )
+				inBlock = true
+				continue
 			}
-			return module
+			if len(module) == len(line) {
+				// no space after module
+				continue
+			}
+			line = module
 		}
-		if newLineIdx < 0 {
-			return ""
+		if line == "" {
+			continue
+		}
+		if line[0] == '"' || line[0] == '`' {
+			module, err := strconv.Unquote(line)
+			if err != nil {
+				return ""
+			}
+			return module
 		}
-		s = s[newLineIdx+1:]
+		return line
 	}
+	return ""
 }
 
 func ModCompare(path string, x, y string) int {
-- 
2.43.0


From 7e9ea04207897296d207ad57c67339595f3c4430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:32 +0000
Subject: [PATCH 35/71] fix: edits of one line keep their order

With more than 12 edits, sort.Slice with a comparison by index put them
in any order or made Apply panic. A line below 1 is an error too.
---
 support/transform/edit/line/line.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/support/transform/edit/line/line.go b/support/transform/edit/line/line.go
index 9bff9e9..42cf284 100644
--- a/support/transform/edit/line/line.go
+++ b/support/transform/edit/line/line.go
@@ -45,12 +45,9 @@ func (c *Edit) Replace(lineNum int, id string, lines []string) {
 
 func (c *Edit) Apply(lines []string) ([]string, error) {
 	// sort edits to apply sequentially
-	sort.Slice(c.edits, func(i, j int) bool {
-		d := c.edits[i].line - c.edits[j].line
-		if d == 0 {
-			return i < j
-		}
-		return d < 0
+	// edits of the same line keep their order
+	sort.SliceStable(c.edits, func(i, j int) bool {
+		return c.edits[i].line < c.edits[j].line
 	})
 	n := len(lines)
 	newLines := make([]string, 0, n)
@@ -61,7 +58,7 @@ func (c *Edit) Apply(lines []string) ([]string, error) {
 	for i := 0; i < m; i++ {
 		e := c.edits[i]
 		line := e.line
-		if line > n {
+		if line < 1 || line > n {
 			return nil, fmt.Errorf("bad line: %d", line)
 		}
 		if cursor < line {
-- 
2.43.0


From 3f0a59c3fcfbffaab4e5c985068ab59ea89cfd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:01 +0000
Subject: [PATCH 36/71] fix: write a patched file that is not patched any more

EditFile compared the result with the cleaned content instead of the
content of the file, so a stale patch stayed.
---
 instrument/patch/patch.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/instrument/patch/patch.go b/instrument/patch/patch.go
index 7b7ec67..153ae75 100644
--- a/instrument/patch/patch.go
+++ b/instrument/patch/patch.go
@@ -14,7 +14,8 @@ func EditFile(file string, callback func(content string) (string, error)) (err e
 	if err != nil {
 		return err
 	}
-	content := CleanPatch(string(bytes))
+	oldContent := string(bytes)
+	content := CleanPatch(oldContent)
 	defer func() {
 		if e := recover(); e != nil {
 			if pe, ok := e.(error); ok {
@@ -31,7 +32,7 @@ func EditFile(file string, callback func(content string) (string, error)) (err e
 	if err != nil {
 		return err
 	}
-	if newContent == content {
+	if newContent == oldContent {
 		return nil
 	}
 	return fileutil.WriteFile(file, []byte(newContent))
-- 
2.43.0


From b00de7d2a94d2c4577067984b34c194508bf9838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:01 +0000
Subject: [PATCH 37/71] fix: find the package clause behind comments

A comment with the word package in it was taken as the package clause.
---
 instrument/patch/patch.go | 59 ++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/instrument/patch/patch.go b/instrument/patch/patch.go
index 153ae75..0dbec47 100644
--- a/instrument/patch/patch.go
+++ b/instrument/patch/patch.go
@@ -49,40 +49,55 @@ func AddCodeAfterImportsLegacy(code string, beginMark string, endMark string, co
 
 // return start and end index of package name
 func mustFindPackageName(code string) (int, int) {
-	const PACKAGE_MARK = "package "
-	pkgIdx := strings.Index(code, PACKAGE_MARK)
-	if pkgIdx < 0 {
+	const PACKAGE_MARK = "package"
+	pkgIdx := skipSpaceAndComments(code, 0)
+	if !strings.HasPrefix(code[pkgIdx:], PACKAGE_MARK) {
 		panic(fmt.Errorf("package not found"))
 	}
 	base := pkgIdx + len(PACKAGE_MARK)
-
-	// until next non-space
-	n := len(code)
-	nameStart := -1
-	for i := base; i < n; i++ {
-		if code[i] != ' ' && code[i] != '\t' {
-			nameStart = i
+	nameStart := skipSpaceAndComments(code, base)
+	if nameStart == base || nameStart >= len(code) {
+		panic(fmt.Errorf("package name not found"))
+	}
+	nameEnd := len(code)
+	for i, c := range code[nameStart:] {
+		if !isToken(c) {
+			nameEnd = nameStart + i
 			break
 		}
 	}
-	if nameStart < 0 {
-		panic(fmt.Errorf("package name not found"))
-	}
-	if !isToken(code[nameStart]) {
+	if nameEnd == nameStart {
 		panic(fmt.Errorf("package not expected symbol: %q", code[nameStart]))
 	}
-	nameEnd := n
-	for i := nameStart + 1; i < n; i++ {
-		if !isToken(code[i]) {
-			nameEnd = i
-			break
+	return nameStart, nameEnd
+}
+
+func skipSpaceAndComments(code string, i int) int {
+	for i < len(code) {
+		switch {
+		case strings.IndexByte(" \t\r\n", code[i]) >= 0:
+			i++
+		case strings.HasPrefix(code[i:], "//"):
+			n := strings.IndexByte(code[i:], '\n')
+			if n < 0 {
+				return len(code)
+			}
+			i += n
+		case strings.HasPrefix(code[i:], "/*"):
+			n := strings.Index(code[i+2:], "*/")
+			if n < 0 {
+				return len(code)
+			}
+			i += 2 + n + 2
+		default:
+			return i
 		}
 	}
-	return nameStart, nameEnd
+	return i
 }
 
-func isToken(c byte) bool {
-	return c == '_' || unicode.IsLetter(rune(c)) || unicode.IsDigit(rune(c))
+func isToken(c rune) bool {
+	return c == '_' || unicode.IsLetter(c) || unicode.IsDigit(c)
 }
 
 // Deprecated: use AddContentAtIndex instead
-- 
2.43.0


From 6e619221237eb5c0c5466adb71bb476357ca1bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:01 +0000
Subject: [PATCH 38/71] fix: the end of a patch is found by its exact label

An end marker whose label only begins with the label ended the patch.
---
 instrument/patch/clean_patch.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/instrument/patch/clean_patch.go b/instrument/patch/clean_patch.go
index 3d57fc8..e4a34d1 100644
--- a/instrument/patch/clean_patch.go
+++ b/instrument/patch/clean_patch.go
@@ -96,7 +96,7 @@ func extractOldContent(content string) string {
 }
 
 func findStartEnd(content string, i int, start PatchMarker, end PatchMarker) (beginIdx int, beginEndIdx int, endIdx int, endEndIdx int) {
-	beginIdx, beginEndIdx = findMarker(content, i, start, "")
+	beginIdx, beginEndIdx = findMarker(content, i, start)
 	if beginIdx == -1 {
 		return -1, -1, -1, -1
 	}
@@ -105,10 +105,14 @@ func findStartEnd(content string, i int, start PatchMarker, end PatchMarker) (be
 	// e.g. /*<begin label>*//*<end label>*/
 	label := content[beginIdx+len(start.Begin) : beginEndIdx-len(start.End)]
 
-	endIdx, endEndIdx = findMarker(content, beginEndIdx, end, label)
+	// the label must match exactly, not just its beginning
+	endMark := end.Begin + label + end.End
+	endIdx = strings.Index(content[beginEndIdx:], endMark)
 	if endIdx == -1 {
 		return -1, -1, -1, -1
 	}
+	endIdx += beginEndIdx
+	endEndIdx = endIdx + len(endMark)
 
 	return beginIdx, beginEndIdx, endIdx, endEndIdx
 }
@@ -117,13 +121,13 @@ func findStartEnd(content string, i int, start PatchMarker, end PatchMarker) (be
 // and marker.End in content starting from i.
 // It returns the start and end indices of the marker.
 // If the marker is not found, it returns -1, -1.
-func findMarker(content string, i int, marker PatchMarker, label string) (int, int) {
-	start := strings.Index(content[i:], marker.Begin+label)
+func findMarker(content string, i int, marker PatchMarker) (int, int) {
+	start := strings.Index(content[i:], marker.Begin)
 	if start == -1 {
 		return -1, -1
 	}
 	start += i
-	i = start + len(marker.Begin) + len(label)
+	i = start + len(marker.Begin)
 	end := strings.Index(content[i:], marker.End)
 	if end == -1 {
 		return -1, -1
-- 
2.43.0


From ed0de29cc16c8866a49ce83440a953a16fdc8469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:01 +0000
Subject: [PATCH 39/71] fix: keep what a patch replaced when it is updated

Updating a replacement put the replaced text back in front of the new
one, and ReplaceContentAfter did not keep it at all, so removing the
patch lost it. The end mark is looked for after the begin mark.
---
 instrument/patch/clean_patch.go |  4 ++++
 instrument/patch/patch.go       | 10 ++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/instrument/patch/clean_patch.go b/instrument/patch/clean_patch.go
index e4a34d1..54957a9 100644
--- a/instrument/patch/clean_patch.go
+++ b/instrument/patch/clean_patch.go
@@ -80,6 +80,10 @@ func CleanPatchMarkers(content string, start PatchMarker, end PatchMarker) strin
 	return result.String()
 }
 
+func fmtOldContent(content string) string {
+	return "/*old:" + content + "*/"
+}
+
 func extractOldContent(content string) string {
 	idxOld := strings.Index(content, "/*old:")
 	if idxOld == -1 {
diff --git a/instrument/patch/patch.go b/instrument/patch/patch.go
index 0dbec47..1f16c6d 100644
--- a/instrument/patch/patch.go
+++ b/instrument/patch/patch.go
@@ -173,7 +173,7 @@ func ReplaceContentAfter(content string, beginMark string, endMark string, seq [
 	if replaceContent == "" {
 		return content
 	}
-	closuerContent := beginMark + replaceContent + endMark
+	closuerContent := beginMark + fmtOldContent(target) + replaceContent + endMark
 	idx := indexSeq(content, seq, false)
 	if idx < 0 {
 		panic(fmt.Errorf("sequence not found: %v", seq))
@@ -207,7 +207,7 @@ func insertOrReplaceContentNoDuplicate(content string, replace bool, replaceLen
 		return content
 	}
 	if replace {
-		return content[:idx] + beginMark + fmt.Sprintf("/*old:%s*/", content[idx:idx+replaceLen]) + separator + insertContent + separator + endMark + separator + content[idx+replaceLen:]
+		return content[:idx] + beginMark + fmtOldContent(content[idx:idx+replaceLen]) + separator + insertContent + separator + endMark + separator + content[idx+replaceLen:]
 	}
 	closureContent := beginMark + separator + insertContent + separator + endMark + separator
 	if strings.Contains(content, closureContent) {
@@ -224,13 +224,15 @@ func tryReplaceWithMark(content string, beginMark string, endMark string, separa
 	if beginIdx < 0 {
 		return content, false
 	}
-	endIdx := strings.Index(content, endMark)
+	endIdx := strings.Index(content[beginIdx+len(beginMark):], endMark)
 	if endIdx < 0 {
 		return content, false
 	}
+	endIdx += beginIdx + len(beginMark)
 	oldContent := extractOldContent(content[beginIdx+len(beginMark) : endIdx])
 	if oldContent != "" {
-		patchContent = oldContent + patchContent
+		// keep what was replaced, it is restored when unpatching
+		patchContent = fmtOldContent(oldContent) + patchContent
 	}
 	lastIdx := endIdx + len(endMark)
 	return content[:beginIdx] + beginMark + separator + patchContent + separator + endMark + separator + content[lastIdx:], true
-- 
2.43.0


From 153a2f6f447e4f80e86743ac22c8cbf14722ec7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:34 +0000
Subject: [PATCH 40/71] fix: put each edit of a patch script where its own
 command says

Edits of several positions in one block were all placed by the last
insert command, in order of commands instead of positions; edits before
any goto were dropped, a missing directive was ignored, only the last
copy_func and replace_directive counted, a receiver matched any type
with its prefix, copying a generic function or a method kept its name.
---
 instrument/patch/apply_engine.go | 357 ++++++++++++++++++-------------
 1 file changed, 208 insertions(+), 149 deletions(-)

diff --git a/instrument/patch/apply_engine.go b/instrument/patch/apply_engine.go
index 16ac091..251307e 100644
--- a/instrument/patch/apply_engine.go
+++ b/instrument/patch/apply_engine.go
@@ -5,6 +5,7 @@ import (
 	"go/ast"
 	"go/parser"
 	"go/token"
+	"sort"
 	"strings"
 )
 
@@ -13,26 +14,37 @@ type cursor struct {
 	offset    int  // byte offset for insert_before
 	endOffset int  // byte offset for insert_after / end of replace range
 	isReplace bool // set by find_for_replace
+	nextLine  int  // set by insert_after_line: byte offset for insert_after
 }
 
-// edit represents a single edit operation collected during patch application.
-type edit struct {
-	seq       int    // sequence number (incremented per positioning command)
-	offset    int    // insertion offset
-	oldEnd    int    // for replace: end offset of old content
-	newText   string // the text to insert/replace with
-	oldText   string // for replace: the original text (for marker old tag)
-	isReplace bool
+// insertion is a piece of text inserted at a position of the original text.
+type insertion struct {
+	offset int
+	before bool // insert_before: later pieces go in front of earlier ones
+	text   string
 }
 
 // editGroup represents all edits at a single sequence number (cursor position).
 type editGroup struct {
-	seq       int
-	offset    int    // insertion point for insert_before
-	insertEnd int    // insertion point for insert_after
-	segments  []string
-	isReplace bool
-	oldText   string // for replace: the original text
+	seq        int
+	insertions []*insertion
+	replace    *replacement
+	lastText   *string // the text a newline is appended to
+}
+
+// replacement replaces original[offset:endOffset]
+type replacement struct {
+	offset    int
+	endOffset int
+	text      string
+}
+
+// textEdit replaces original[offset:endOffset] with text,
+// it is a pure insertion if offset == endOffset.
+type textEdit struct {
+	offset    int
+	endOffset int
+	text      string
 }
 
 // applyPatch applies a single PatchBlock to the original Go source text.
@@ -51,6 +63,12 @@ func applyPatch(original string, block PatchBlock) (string, error) {
 	}
 
 	for _, cmd := range block.Commands {
+		switch cmd.Type {
+		case CmdInsertBefore, CmdInsertAfter, CmdInsertAfterLine:
+			if state.seq == 0 {
+				return "", fmt.Errorf("insert %q requires a prior goto or match", cmd.EditText)
+			}
+		}
 		switch cmd.Type {
 		case CmdGoto:
 			c, err := evalGoto(state, cmd.GotoTarget)
@@ -59,7 +77,6 @@ func applyPatch(original string, block PatchBlock) (string, error) {
 			}
 			state.cursor = c
 			state.seq++
-			state.lastInsertMode = insertBefore
 
 		case CmdMatch:
 			c, err := evalMatch(state, cmd.SearchText, false)
@@ -68,7 +85,6 @@ func applyPatch(original string, block PatchBlock) (string, error) {
 			}
 			state.cursor = c
 			state.seq++
-			state.lastInsertMode = insertBefore
 
 		case CmdFindForReplace:
 			c, err := evalMatch(state, cmd.SearchText, true)
@@ -77,31 +93,30 @@ func applyPatch(original string, block PatchBlock) (string, error) {
 			}
 			state.cursor = c
 			state.seq++
-			state.lastInsertMode = insertBefore
 
 		case CmdInsertBefore:
 			if cmd.EditText == "" {
 				return "", fmt.Errorf("insert_before requires text")
 			}
-			state.lastInsertMode = insertBefore
-			state.addSegment(cmd.EditText)
+			state.addInsertion(state.cursor.offset, true, cmd.EditText)
 
 		case CmdInsertAfter:
 			if cmd.EditText == "" {
 				return "", fmt.Errorf("insert_after requires text")
 			}
-			state.lastInsertMode = insertAfter
-			state.addSegment(cmd.EditText)
+			state.addInsertion(state.cursor.end(), false, cmd.EditText)
 
 		case CmdInsertAfterLine:
 			if cmd.EditText == "" {
 				return "", fmt.Errorf("insert_after_line requires text")
 			}
-			if state.cursor.endOffset < len(state.original) && state.original[state.cursor.endOffset] == '\n' {
-				state.cursor.endOffset++
+			// the cursor moves: following insert_after continue on that line
+			end := state.cursor.end()
+			if end < len(state.original) && state.original[end] == '\n' {
+				end++
 			}
-			state.lastInsertMode = insertAfter
-			state.addSegment(cmd.EditText)
+			state.cursor.nextLine = end
+			state.addInsertion(end, false, cmd.EditText)
 
 		case CmdReplace:
 			if cmd.EditText == "" {
@@ -111,8 +126,10 @@ func applyPatch(original string, block PatchBlock) (string, error) {
 				return "", fmt.Errorf("replace requires prior find_for_replace")
 			}
 			oldText := state.original[state.cursor.offset:state.cursor.endOffset]
-			state.lastInsertMode = insertBefore
-			state.addReplace(cmd.EditText, oldText)
+			if strings.Contains(oldText, "*/") {
+				return "", fmt.Errorf("replace cannot keep old text that ends a comment: %q", oldText)
+			}
+			state.addReplace(cmd.EditText)
 
 		case CmdNewline:
 			state.addNewline()
@@ -122,40 +139,32 @@ func applyPatch(original string, block PatchBlock) (string, error) {
 			if err != nil {
 				return "", fmt.Errorf("copy_func %q: %w", cmd.CopySource, err)
 			}
-			state.appendContent = strings.TrimSuffix(copied, "\n")
+			state.appendContents = append(state.appendContents, copied)
 
 		case CmdReplaceDirective:
 			if cmd.SearchText == "" || cmd.CopyTarget == "" {
 				return "", fmt.Errorf("replace_directive requires old and new text")
 			}
-			state.directiveReplace = &directiveReplacement{
+			state.directiveReplaces = append(state.directiveReplaces, directiveReplacement{
 				oldText: cmd.SearchText,
 				newText: cmd.CopyTarget,
-			}
+			})
 		}
 	}
 
-	return state.applyEdits(block.Name), nil
+	return state.applyEdits(block.Name)
 }
 
-type insertMode int
-
-const (
-	insertBefore insertMode = iota
-	insertAfter
-)
-
 type applyState struct {
-	original       string
-	fset           *token.FileSet
-	astFile        *ast.File
-	cursor         cursor
-	seq            int
-	lastInsertMode insertMode
-
-	groups           map[int]*editGroup
-	appendContent    string
-	directiveReplace *directiveReplacement
+	original string
+	fset     *token.FileSet
+	astFile  *ast.File
+	cursor   cursor
+	seq      int
+
+	groups            map[int]*editGroup
+	appendContents    []string
+	directiveReplaces []directiveReplacement
 }
 
 type directiveReplacement struct {
@@ -163,135 +172,172 @@ type directiveReplacement struct {
 	newText string
 }
 
+// end returns the offset that insert_after inserts at
+func (c cursor) end() int {
+	if c.nextLine > 0 {
+		return c.nextLine
+	}
+	if c.endOffset > c.offset {
+		return c.endOffset
+	}
+	return c.offset
+}
+
 func (s *applyState) getGroup() *editGroup {
 	g, ok := s.groups[s.seq]
 	if !ok {
-		insertEnd := s.cursor.offset
-		if s.cursor.endOffset > insertEnd {
-			insertEnd = s.cursor.endOffset
-		}
-		g = &editGroup{
-			seq:       s.seq,
-			offset:    s.cursor.offset,
-			insertEnd: insertEnd,
-		}
+		g = &editGroup{seq: s.seq}
 		s.groups[s.seq] = g
 	}
 	return g
 }
 
-func (s *applyState) addSegment(text string) {
+func (s *applyState) addInsertion(offset int, before bool, text string) {
 	g := s.getGroup()
-	g.segments = append(g.segments, text)
+	ins := &insertion{offset: offset, before: before, text: text}
+	g.insertions = append(g.insertions, ins)
+	g.lastText = &ins.text
 }
 
-func (s *applyState) addReplace(newText, oldText string) {
+func (s *applyState) addReplace(newText string) {
 	g := s.getGroup()
-	g.isReplace = true
-	g.oldText = oldText
-	g.segments = append(g.segments, newText)
+	if g.replace == nil {
+		g.replace = &replacement{offset: s.cursor.offset, endOffset: s.cursor.endOffset}
+	}
+	g.replace.text += newText
+	g.lastText = &g.replace.text
 }
 
 func (s *applyState) addNewline() {
-	g := s.getGroup()
 	// newline merges with the previous segment: "A" + newline → "A\n"
-	if len(g.segments) > 0 {
-		g.segments[len(g.segments)-1] += "\n"
+	g := s.getGroup()
+	if g.lastText != nil {
+		*g.lastText += "\n"
 	}
 }
 
-// combineSegments combines text segments for an edit group.
+// edits returns the edits of a group in the order in which
+// they appear at their position.
+//
 // For insert_before: segments are collected in insertion order, then applied
-// in reverse so the last written goes closest to original content.
-// For insert_after: segments are applied in forward order.
+// in reverse. For insert_after: segments are applied in forward order.
 // newline merges "\n" with the adjacent text segment, so it stays on the
 // correct side of the text in the final output.
-func (s *applyState) combineSegments(g *editGroup) string {
-	if g.isReplace {
-		return strings.Join(g.segments, "")
+func (g *editGroup) edits(original string, markerBegin string, markerEnd string) []textEdit {
+	var before string
+	var beforeOffset int
+	var after []textEdit
+	for _, ins := range g.insertions {
+		if ins.before {
+			before = ins.text + before
+			beforeOffset = ins.offset
+			continue
+		}
+		if n := len(after); n > 0 && after[n-1].offset == ins.offset {
+			after[n-1].text += ins.text
+			continue
+		}
+		after = append(after, textEdit{offset: ins.offset, endOffset: ins.offset, text: ins.text})
 	}
 
-	if len(g.segments) == 0 {
-		return ""
+	var edits []textEdit
+	if before != "" {
+		edits = append(edits, textEdit{
+			offset:    beforeOffset,
+			endOffset: beforeOffset,
+			text:      markerBegin + before + markerEnd,
+		})
 	}
-
-	var buf strings.Builder
-	if s.lastInsertMode == insertBefore {
-		for i := len(g.segments) - 1; i >= 0; i-- {
-			buf.WriteString(g.segments[i])
-		}
-	} else {
-		for _, seg := range g.segments {
-			buf.WriteString(seg)
+	if r := g.replace; r != nil {
+		begin := markerBegin
+		if oldText := original[r.offset:r.endOffset]; oldText != "" {
+			begin += fmtOldContent(oldText)
 		}
+		edits = append(edits, textEdit{
+			offset:    r.offset,
+			endOffset: r.endOffset,
+			text:      begin + r.text + markerEnd,
+		})
 	}
-
-	return buf.String()
+	for _, edit := range after {
+		edit.text = markerBegin + edit.text + markerEnd
+		edits = append(edits, edit)
+	}
+	return edits
 }
 
 // applyEdits applies all collected edits and wraps them with markers.
-func (s *applyState) applyEdits(blockName string) string {
-	result := s.original
-
-	// Process edits in REVERSE offset order (highest offset first)
-	// to avoid position shifts when inserting text.
-	maxSeq := s.seq
-	for seq := maxSeq; seq >= 1; seq-- {
-		g, ok := s.groups[seq]
-		if !ok {
-			continue
+func (s *applyState) applyEdits(blockName string) (string, error) {
+	markerBegin := fmt.Sprintf("/*<begin %s>*/", blockName)
+	markerEnd := fmt.Sprintf("/*<end %s>*/", blockName)
+
+	var edits []textEdit
+	for seq := 0; seq <= s.seq; seq++ {
+		if g, ok := s.groups[seq]; ok {
+			edits = append(edits, g.edits(s.original, markerBegin, markerEnd)...)
 		}
-
-		insertText := s.combineSegments(g)
-		if insertText == "" && !g.isReplace {
-			continue
+	}
+	for _, dr := range s.directiveReplaces {
+		idx := findDirective(s.original, dr.oldText)
+		if idx < 0 {
+			return "", fmt.Errorf("replace_directive: directive not found: %q", dr.oldText)
 		}
+		annotation := fmt.Sprintf("/*<next-line-original %s>%s</next-line-original>*/", blockName, dr.oldText)
+		edits = append(edits, textEdit{
+			offset:    idx,
+			endOffset: idx + len(dr.oldText),
+			text:      annotation + "\n" + dr.newText,
+		})
+	}
 
-		if g.isReplace {
-			markerBegin := fmt.Sprintf("/*<begin %s>*/", blockName)
-			if g.oldText != "" {
-				markerBegin += fmt.Sprintf("/*old:%s*/", g.oldText)
-			}
-			markerEnd := fmt.Sprintf("/*<end %s>*/", blockName)
-			wrapped := markerBegin + insertText + markerEnd
+	// The edits are positions of the original text: put them in order, those
+	// inserting at a position come before the one replacing from it.
+	sort.SliceStable(edits, func(i, j int) bool {
+		a, b := edits[i], edits[j]
+		if a.offset != b.offset {
+			return a.offset < b.offset
+		}
+		return a.endOffset == a.offset && b.endOffset > b.offset
+	})
 
-			// Replace old content (from offset to oldEnd) with wrapped text
-			result = result[:g.offset] + wrapped + result[g.offset+len(g.oldText):]
-		} else {
-			markerBegin := fmt.Sprintf("/*<begin %s>*/", blockName)
-			markerEnd := fmt.Sprintf("/*<end %s>*/", blockName)
-
-			if s.lastInsertMode == insertBefore || seq < maxSeq {
-				// insert_before: insert at offset
-				wrapped := markerBegin + insertText + markerEnd
-				result = result[:g.offset] + wrapped + result[g.offset:]
-			} else {
-				// insert_after: insert at insertEnd
-				wrapped := markerBegin + insertText + markerEnd
-				result = result[:g.insertEnd] + wrapped + result[g.insertEnd:]
-			}
+	var buf strings.Builder
+	last := 0
+	for _, edit := range edits {
+		if edit.offset < last {
+			return "", fmt.Errorf("edits overlap at: %q", s.original[edit.offset:last])
 		}
+		buf.WriteString(s.original[last:edit.offset])
+		buf.WriteString(edit.text)
+		last = edit.endOffset
 	}
+	buf.WriteString(s.original[last:])
 
-	if s.appendContent != "" {
-		if !strings.HasSuffix(result, "\n") {
+	result := buf.String()
+	for _, content := range s.appendContents {
+		result += markerBegin
+		if !strings.HasSuffix(strings.TrimSuffix(result, markerBegin), "\n") {
 			result += "\n"
 		}
-		markerBegin := fmt.Sprintf("/*<begin %s>*/", blockName)
-		markerEnd := fmt.Sprintf("/*<end %s>*/", blockName)
-		result += markerBegin + s.appendContent + markerEnd
+		result += content + markerEnd
 	}
+	return result, nil
+}
 
-	if s.directiveReplace != nil {
-		dr := s.directiveReplace
-		idx := strings.Index(result, dr.oldText)
-		if idx >= 0 {
-			annotation := fmt.Sprintf("/*<next-line-original %s>%s</next-line-original>*/", blockName, dr.oldText)
-			result = result[:idx] + annotation + "\n" + dr.newText + result[idx+len(dr.oldText):]
+// findDirective finds the line that consists of the directive
+func findDirective(content string, directive string) int {
+	for i := 0; i < len(content); {
+		end := strings.Index(content[i:], "\n")
+		if end < 0 {
+			end = len(content)
+		} else {
+			end += i
+		}
+		if content[i:end] == directive {
+			return i
 		}
+		i = end + 1
 	}
-
-	return result
+	return -1
 }
 
 // evalGoto evaluates a goto command and returns a cursor positioned at the target.
@@ -382,11 +428,7 @@ func evalGotoFunc(state *applyState, rest string) (cursor, error) {
 			if fd.Recv == nil || len(fd.Recv.List) == 0 {
 				continue
 			}
-			// Use the original text to match the receiver pattern
-			recvStart := state.fset.Position(fd.Recv.Pos()).Offset
-			recvEnd := state.fset.Position(fd.Recv.End()).Offset
-			recvText := strings.TrimSpace(state.original[recvStart:recvEnd])
-			if !strings.Contains(recvText, recv[1:len(recv)-1]) {
+			if !matchReceiver(state, fd.Recv.List[0], recv[1:len(recv)-1]) {
 				continue
 			}
 		} else if fd.Recv != nil && len(fd.Recv.List) > 0 {
@@ -400,6 +442,20 @@ func evalGotoFunc(state *applyState, rest string) (cursor, error) {
 	return cursor{}, fmt.Errorf("function not found: %s", funcName)
 }
 
+// matchReceiver checks if a receiver is the given one, which may
+// or may not name the receiver: both `t *T` and `*T` match `(t *T)`.
+func matchReceiver(state *applyState, field *ast.Field, recv string) bool {
+	recv = strings.Join(strings.Fields(recv), " ")
+
+	typeStart := state.fset.Position(field.Type.Pos()).Offset
+	typeEnd := state.fset.Position(field.Type.End()).Offset
+	typeText := strings.Join(strings.Fields(state.original[typeStart:typeEnd]), " ")
+	if recv == typeText {
+		return true
+	}
+	return len(field.Names) > 0 && recv == field.Names[0].Name+" "+typeText
+}
+
 func evalGotoBrace(state *applyState, opening bool) (cursor, error) {
 	// Find the current declaration to locate its braces
 	node := state.cursorNode()
@@ -410,8 +466,12 @@ func evalGotoBrace(state *applyState, opening bool) (cursor, error) {
 
 	var lbrace, rbrace token.Pos
 	switch n := node.(type) {
-	case *ast.TypeSpec:
-		switch t := n.Type.(type) {
+	case *ast.TypeSpec, *ast.StructType, *ast.InterfaceType:
+		typ := n
+		if ts, ok := n.(*ast.TypeSpec); ok {
+			typ = ts.Type
+		}
+		switch t := typ.(type) {
 		case *ast.StructType:
 			if t.Fields == nil {
 				return cursor{}, fmt.Errorf("struct has no fields")
@@ -451,11 +511,10 @@ func evalGotoBrace(state *applyState, opening bool) (cursor, error) {
 
 func evalGotoField(state *applyState, fieldName string) (cursor, error) {
 	node := state.cursorNode()
-	ts, ok := node.(*ast.TypeSpec)
-	if !ok {
-		return cursor{}, fmt.Errorf("current node is not a struct")
+	if ts, ok := node.(*ast.TypeSpec); ok {
+		node = ts.Type
 	}
-	st, ok := ts.Type.(*ast.StructType)
+	st, ok := node.(*ast.StructType)
 	if !ok {
 		return cursor{}, fmt.Errorf("current node is not a struct")
 	}
@@ -565,14 +624,14 @@ func evalCopyFunc(state *applyState, sourceName, targetName string) (string, err
 		if !ok {
 			continue
 		}
-		if fd.Name.Name != sourceName {
+		if fd.Name.Name != sourceName || fd.Recv != nil {
 			continue
 		}
 		funcStart := state.fset.Position(fd.Pos()).Offset
+		nameStart := state.fset.Position(fd.Name.Pos()).Offset
+		nameEnd := state.fset.Position(fd.Name.End()).Offset
 		funcEnd := state.fset.Position(fd.End()).Offset
-		funcSrc := state.original[funcStart:funcEnd]
-		result := strings.Replace(funcSrc, "func "+sourceName+"(", "func "+targetName+"(", 1)
-		return result, nil
+		return state.original[funcStart:nameStart] + targetName + state.original[nameEnd:funcEnd], nil
 	}
 	return "", fmt.Errorf("function %q not found", sourceName)
 }
-- 
2.43.0


From f9ae4871a898850d48d1ed189b2a0325b4382538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:52 +0000
Subject: [PATCH 41/71] fix: clear all blocks of a patch script before applying
 any of them

A block found its position in what a later block had inserted, so that
applying a script again gave another text; blocks without a name were
never cleared; text of nested patches was restored as if it were the
text replaced by the outer one; match found text inside markers.
---
 instrument/patch/apply.go        | 75 ++++++++++++++++----------------
 instrument/patch/apply_engine.go | 49 +++++++++++++++++----
 instrument/patch/clean_patch.go  | 11 ++---
 3 files changed, 85 insertions(+), 50 deletions(-)

diff --git a/instrument/patch/apply.go b/instrument/patch/apply.go
index bbfc6e0..94e045e 100644
--- a/instrument/patch/apply.go
+++ b/instrument/patch/apply.go
@@ -210,19 +210,20 @@ func ApplyXgoPatchFile(patchFile, targetFile string) error {
 
 // ApplyXgoPatchContent applies parsed patch content to a source string.
 // Each <patch> block is applied independently; blocks re-parse after prior block edits.
-// Before applying a named patch, any existing markers with that name are cleared.
+// Before applying them, any existing markers with their names are cleared.
 func ApplyXgoPatchContent(source string, patchContent string) (string, error) {
 	pf, err := ParseXgoPatch(patchContent)
 	if err != nil {
 		return "", err
 	}
 
+	// clear all blocks before applying any, last applied first, so that
+	// no block finds its position in what a later one has inserted
 	result := source
+	for i := len(pf.Blocks) - 1; i >= 0; i-- {
+		result = clearPatch(result, pf.Blocks[i].Name)
+	}
 	for _, block := range pf.Blocks {
-		if block.Name != "" {
-			result = clearPatch(result, block.Name)
-		}
-
 		var err error
 		result, err = applyPatch(result, block)
 		if err != nil {
@@ -237,38 +238,6 @@ func ApplyXgoPatchContent(source string, patchContent string) (string, error) {
 // For replace edits, the /*<old:...>*/ content is restored.
 // For replace_directive, the /*<next-line-original> annotation is used to restore.
 func clearPatch(content string, patchName string) string {
-	// First pass: handle <next-line-original> annotations
-	annotStart := "/*<next-line-original " + patchName + ">"
-	annotEnd := "</next-line-original>*/"
-	for {
-		annotIdx := strings.Index(content, annotStart)
-		if annotIdx < 0 {
-			break
-		}
-		annotContentStart := annotIdx + len(annotStart)
-		annotCloseIdx := strings.Index(content[annotContentStart:], annotEnd)
-		if annotCloseIdx < 0 {
-			break
-		}
-		annotCloseIdx += annotContentStart
-		oldText := content[annotContentStart:annotCloseIdx]
-		nextLineStart := annotCloseIdx + len(annotEnd)
-		var nextLineEnd int
-		firstNL := strings.Index(content[nextLineStart:], "\n")
-		if firstNL < 0 {
-			nextLineEnd = len(content)
-		} else {
-			afterFirst := nextLineStart + firstNL + 1
-			secondNL := strings.Index(content[afterFirst:], "\n")
-			if secondNL < 0 {
-				nextLineEnd = len(content)
-			} else {
-				nextLineEnd = afterFirst + secondNL
-			}
-		}
-		content = content[:annotIdx] + oldText + content[nextLineEnd:]
-	}
-
 	beginMarker := "/*<begin " + patchName + ">"
 	endMarker := "/*<end " + patchName + ">*/"
 
@@ -306,6 +275,38 @@ func clearPatch(content string, patchName string) string {
 		content = content[:beginIdx] + content[endEnd:]
 	}
 
+	// Then: handle <next-line-original> annotations
+	annotStart := "/*<next-line-original " + patchName + ">"
+	annotEnd := "</next-line-original>*/"
+	for {
+		annotIdx := strings.Index(content, annotStart)
+		if annotIdx < 0 {
+			break
+		}
+		annotContentStart := annotIdx + len(annotStart)
+		annotCloseIdx := strings.Index(content[annotContentStart:], annotEnd)
+		if annotCloseIdx < 0 {
+			break
+		}
+		annotCloseIdx += annotContentStart
+		oldText := content[annotContentStart:annotCloseIdx]
+		nextLineStart := annotCloseIdx + len(annotEnd)
+		var nextLineEnd int
+		firstNL := strings.Index(content[nextLineStart:], "\n")
+		if firstNL < 0 {
+			nextLineEnd = len(content)
+		} else {
+			afterFirst := nextLineStart + firstNL + 1
+			secondNL := strings.Index(content[afterFirst:], "\n")
+			if secondNL < 0 {
+				nextLineEnd = len(content)
+			} else {
+				nextLineEnd = afterFirst + secondNL
+			}
+		}
+		content = content[:annotIdx] + oldText + content[nextLineEnd:]
+	}
+
 	return content
 }
 
diff --git a/instrument/patch/apply_engine.go b/instrument/patch/apply_engine.go
index 251307e..16ab008 100644
--- a/instrument/patch/apply_engine.go
+++ b/instrument/patch/apply_engine.go
@@ -5,6 +5,7 @@ import (
 	"go/ast"
 	"go/parser"
 	"go/token"
+	"regexp"
 	"sort"
 	"strings"
 )
@@ -591,9 +592,15 @@ func evalMatch(state *applyState, searchText string, forReplace bool) (cursor, e
 	}
 
 	if forReplace && state.cursor.offset > scopeStart && state.cursor.offset <= scopeEnd {
-		before := state.original[scopeStart:state.cursor.offset]
-		if idx := strings.LastIndex(before, searchText); idx >= 0 {
-			offset := scopeStart + idx
+		offset := -1
+		for next := scopeStart; next >= 0; {
+			next = findText(state.original[:state.cursor.offset], next, searchText)
+			if next >= 0 {
+				offset = next
+				next++
+			}
+		}
+		if offset >= 0 {
 			return cursor{
 				offset:    offset,
 				endOffset: offset + len(searchText),
@@ -602,13 +609,10 @@ func evalMatch(state *applyState, searchText string, forReplace bool) (cursor, e
 		}
 	}
 
-	searchIn := state.original[scopeStart:scopeEnd]
-	idx := strings.Index(searchIn, searchText)
-	if idx < 0 {
+	offset := findText(state.original[:scopeEnd], scopeStart, searchText)
+	if offset < 0 {
 		return cursor{}, fmt.Errorf("text not found in scope: %q", searchText)
 	}
-
-	offset := scopeStart + idx
 	endOffset := offset + len(searchText)
 
 	return cursor{
@@ -618,6 +622,35 @@ func evalMatch(state *applyState, searchText string, forReplace bool) (cursor, e
 	}, nil
 }
 
+var markerRegexp = regexp.MustCompile(`(?s)/\*<begin[^>]*>\*/(/\*old:.*?\*/)?|/\*<end[^>]*>\*/|/\*<next-line-original [^>]*>.*?</next-line-original>\*/`)
+
+// findText finds text starting from i, outside the markers of
+// other patches: they are not part of the source.
+func findText(content string, i int, text string) int {
+	var markers [][]int
+	if strings.Contains(content, "/*<") {
+		markers = markerRegexp.FindAllStringIndex(content, -1)
+	}
+	for {
+		idx := strings.Index(content[i:], text)
+		if idx < 0 {
+			return -1
+		}
+		idx += i
+		inMarker := false
+		for _, m := range markers {
+			if idx < m[1] && m[0] < idx+len(text) {
+				inMarker = true
+				break
+			}
+		}
+		if !inMarker {
+			return idx
+		}
+		i = idx + 1
+	}
+}
+
 func evalCopyFunc(state *applyState, sourceName, targetName string) (string, error) {
 	for _, decl := range state.astFile.Decls {
 		fd, ok := decl.(*ast.FuncDecl)
diff --git a/instrument/patch/clean_patch.go b/instrument/patch/clean_patch.go
index 54957a9..c60844c 100644
--- a/instrument/patch/clean_patch.go
+++ b/instrument/patch/clean_patch.go
@@ -7,8 +7,8 @@ import (
 // CleanPatch removes all content between /*<begin and /*<end markers,
 // and also handles <next-line-original> annotations.
 func CleanPatch(content string) string {
-	content = cleanNextLineOriginal(content)
-	return CleanPatchMarkers(content, PatchMarker{Begin: "/*<begin", End: ">*/"}, PatchMarker{Begin: "/*<end", End: ">*/"})
+	content = CleanPatchMarkers(content, PatchMarker{Begin: "/*<begin", End: ">*/"}, PatchMarker{Begin: "/*<end", End: ">*/"})
+	return cleanNextLineOriginal(content)
 }
 
 func cleanNextLineOriginal(content string) string {
@@ -84,12 +84,13 @@ func fmtOldContent(content string) string {
 	return "/*old:" + content + "*/"
 }
 
+// extractOldContent returns the old content that follows the begin marker.
+// Old content further on belongs to patches of the inserted text.
 func extractOldContent(content string) string {
-	idxOld := strings.Index(content, "/*old:")
-	if idxOld == -1 {
+	if !strings.HasPrefix(content, "/*old:") {
 		return ""
 	}
-	base := idxOld + len("/*old:")
+	base := len("/*old:")
 	idxEnd := strings.Index(content[base:], "*/")
 	if idxEnd == -1 {
 		return ""
-- 
2.43.0


From 48f934e1bfa54eabd4f82a9d917ab4d679796faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:39 +0000
Subject: [PATCH 42/71] fix: report an error a JSON handler panicked with

---
 support/netutil/http.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/support/netutil/http.go b/support/netutil/http.go
index a7ebe63..d03e36e 100644
--- a/support/netutil/http.go
+++ b/support/netutil/http.go
@@ -42,7 +42,7 @@ func HandleJSON(w http.ResponseWriter, r *http.Request, h func(ctx context.Conte
 			stack := debug.Stack()
 			log.Printf("panic: %s", stack)
 			if pe, ok := e.(error); ok {
-				e = pe
+				err = pe
 			} else {
 				err = fmt.Errorf("panic: %v", e)
 			}
@@ -58,8 +58,8 @@ func HandleJSON(w http.ResponseWriter, r *http.Request, h func(ctx context.Conte
 			if httpErr, ok := err.(HttpStatusErr); ok {
 				code = httpErr.HttpStatusCode()
 			}
-			w.WriteHeader(code)
 			w.Header().Set("Content-Type", "text/plain")
+			w.WriteHeader(code)
 			w.Write([]byte(err.Error()))
 			return
 		}
-- 
2.43.0


From 538092f9db2ba972f44322cb3c9297a0e78cc040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:23 +0000
Subject: [PATCH 43/71] fix: deliver all output of a test to the explorer
 before its end

---
 cmd/xgo/test-explorer/poll.go        | 11 ++++----
 cmd/xgo/test-explorer/run_session.go | 40 ++++++++++++++++++++++------
 2 files changed, 38 insertions(+), 13 deletions(-)

diff --git a/cmd/xgo/test-explorer/poll.go b/cmd/xgo/test-explorer/poll.go
index 26a55c5..b4f970f 100644
--- a/cmd/xgo/test-explorer/poll.go
+++ b/cmd/xgo/test-explorer/poll.go
@@ -1,7 +1,6 @@
 package test_explorer
 
 import (
-	"bufio"
 	"context"
 	"fmt"
 	"io"
@@ -122,6 +121,7 @@ func startRun(sess session.Session, projectDir string, absDir string, file strin
 	// - build with gcflags="all=-N -l"
 	// - start dlv
 	// - output prompt
+	outputDone := make(chan struct{})
 	go func() {
 		defer sess.SendEvents(&TestingItemEvent{
 			Event: Event_TestEnd,
@@ -142,6 +142,8 @@ func startRun(sess session.Session, projectDir string, absDir string, file strin
 			Args:       testArgs,
 		}
 		err := runner(ctx)
+		pw.Close()
+		<-outputDone
 		if err != nil {
 			sess.SendEvents(&TestingItemEvent{
 				Event: Event_Output,
@@ -151,14 +153,13 @@ func startRun(sess session.Session, projectDir string, absDir string, file strin
 	}()
 
 	go func() {
-		scanner := bufio.NewScanner(pr)
-		for scanner.Scan() {
-			data := scanner.Bytes()
+		defer close(outputDone)
+		forEachLine(pr, func(data []byte) {
 			sess.SendEvents(&TestingItemEvent{
 				Event: Event_Output,
 				Msg:   string(data),
 			})
-		}
+		})
 	}()
 }
 
diff --git a/cmd/xgo/test-explorer/run_session.go b/cmd/xgo/test-explorer/run_session.go
index 1e8b878..e18268e 100644
--- a/cmd/xgo/test-explorer/run_session.go
+++ b/cmd/xgo/test-explorer/run_session.go
@@ -334,6 +334,9 @@ func (c *runSession) Start() error {
 		var err error
 		defer func() {
 			w.Close()
+			if defStdErr != nil {
+				defStdErr.Close()
+			}
 			errCh <- err
 		}()
 		var stderr io.Writer
@@ -368,9 +371,12 @@ func (c *runSession) Start() error {
 	}()
 
 	// consume stderr
-	if defStdErrReader != nil {
+	stderrDone := make(chan struct{})
+	if defStdErrReader == nil {
+		close(stderrDone)
+	} else {
 		go func() {
-			defer defStdErr.Close()
+			defer close(stderrDone)
 			consumeTestEvent(defStdErrReader, rootPath, plainMsgBuilder, func(event *TestingItemEvent) {
 				// this loop will never write pm
 				// so access to pm is single threaded
@@ -384,6 +390,7 @@ func (c *runSession) Start() error {
 		// wait all finish
 		defer func() {
 			err := <-errCh
+			<-stderrDone
 			if err != nil {
 				sendEvent(&TestingItemEvent{Event: Event_ItemStatus, Path: rootPath, Msg: err.Error(), Status: RunStatus_Fail})
 			}
@@ -583,10 +590,7 @@ func runTest(goCmd string, dir string, customFlags []string, testArgs []string,
 }
 
 func consumeTestEvent(r io.Reader, rootItemPath []string, builder func(line []byte) ([]*TestingItemEvent, error), callback func(*TestingItemEvent)) {
-	scanner := bufio.NewScanner(r)
-	for scanner.Scan() {
-		data := scanner.Bytes()
-
+	forEachLine(r, func(data []byte) {
 		events, err := builder(data)
 		if err != nil {
 			callback(&TestingItemEvent{
@@ -599,6 +603,22 @@ func consumeTestEvent(r io.Reader, rootItemPath []string, builder func(line []by
 		for _, event := range events {
 			callback(event)
 		}
+	})
+}
+
+// forEachLine reads r to its end, lines can be of any length
+func forEachLine(r io.Reader, callback func(line []byte)) {
+	reader := bufio.NewReader(r)
+	for {
+		line, err := reader.ReadBytes('\n')
+		if len(line) > 0 {
+			line = bytes.TrimSuffix(line, []byte{'\n'})
+			line = bytes.TrimSuffix(line, []byte{'\r'})
+			callback(line)
+		}
+		if err != nil {
+			return
+		}
 	}
 }
 
@@ -619,6 +639,10 @@ func (c *jsonTestEventBuilder) build(line []byte) ([]*TestingItemEvent, error) {
 	if err != nil {
 		return nil, err
 	}
+	if event == nil {
+		// to be continued
+		return nil, nil
+	}
 	return buildEvent(event, c.pathPrefix, c.dirPkgPath, c.pm, c.testResolver)
 }
 
@@ -647,9 +671,9 @@ func (c *jsonTestEventBuilder) parse(line []byte) (*TestEvent, error) {
 		return nil, nil
 	}
 	pkg := m[1]
-	c.prefix = nil
 
-	output := strings.Join(c.prefix, "\n") + "\n" + s
+	output := strings.Join(append(c.prefix, s), "\n")
+	c.prefix = nil
 	return &TestEvent{
 		Package: pkg,
 		Action:  TestEventAction_Fail,
-- 
2.43.0


From 02188befd113ccc704929922a69d1977e5687dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 44/71] fix: limit the nesting of trace files to what JSON
 decoders accept

---
 .../runtime_gen/internal/runtime/marshal.go   | 40 ++++++++++++++
 .../runtime_gen/internal/stack/export.go      | 54 ++++++++++++-------
 .../asset/runtime_gen/internal/trap/object.go |  2 +-
 .../asset/runtime_gen/internal/trap/var.go    |  2 +-
 runtime/internal/runtime/marshal.go           | 40 ++++++++++++++
 runtime/internal/stack/export.go              | 54 ++++++++++++-------
 runtime/internal/trap/object.go               |  2 +-
 runtime/internal/trap/var.go                  |  2 +-
 8 files changed, 154 insertions(+), 42 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/runtime/marshal.go b/cmd/xgo/asset/runtime_gen/internal/runtime/marshal.go
index a67c186..08a9a0a 100755
--- a/cmd/xgo/asset/runtime_gen/internal/runtime/marshal.go
+++ b/cmd/xgo/asset/runtime_gen/internal/runtime/marshal.go
@@ -46,3 +46,43 @@ func MarshalNoError(v interface{}) (result []byte) {
 	result, err = json.Marshal(v)
 	return
 }
+
+// maxValueDepth leaves room for the calls around the value, because
+// nested JSON is neither encoded nor decoded beyond 10000 levels.
+const maxValueDepth = 5000
+
+// MarshalValueNoError is like MarshalNoError, and also gives up on
+// values that are nested too deep to be part of a trace
+func MarshalValueNoError(v interface{}) []byte {
+	result := MarshalNoError(v)
+	if exceedsDepth(result, maxValueDepth) {
+		return MarshalNoError(map[string]string{"error": "exceeded max depth"})
+	}
+	return result
+}
+
+// exceedsDepth tells if data, which is valid JSON, is nested deeper than limit
+func exceedsDepth(data []byte, limit int) bool {
+	var depth int
+	var inString bool
+	for i := 0; i < len(data); i++ {
+		switch c := data[i]; {
+		case inString:
+			if c == '\\' {
+				i++
+			} else if c == '"' {
+				inString = false
+			}
+		case c == '"':
+			inString = true
+		case c == '{' || c == '[':
+			depth++
+			if depth > limit {
+				return true
+			}
+		case c == '}' || c == ']':
+			depth--
+		}
+	}
+	return false
+}
diff --git a/cmd/xgo/asset/runtime_gen/internal/stack/export.go b/cmd/xgo/asset/runtime_gen/internal/stack/export.go
index 51c1e8d..22b6b00 100755
--- a/cmd/xgo/asset/runtime_gen/internal/stack/export.go
+++ b/cmd/xgo/asset/runtime_gen/internal/stack/export.go
@@ -23,24 +23,43 @@ func Export(stack *Stack, offsetNS int64) *stack_model.Stack {
 	}
 }
 
+// maxDepth limits the nesting of exported calls, because nested JSON
+// is neither encoded nor decoded beyond 10000 levels.
+// Calls nested deeper are listed right behind their caller.
+const maxDepth = 2000
+
 func ExportStackEntries(entries []*Entry, rootBegin time.Time, offsetNS int64) []*stack_model.StackEntry {
 	if entries == nil {
 		return nil
 	}
-	list := make([]*stack_model.StackEntry, len(entries))
-	for i, entry := range entries {
-		list[i] = ExportStackEntry(entry, rootBegin, offsetNS)
+	list := make([]*stack_model.StackEntry, 0, len(entries))
+	return appendStackEntries(list, entries, rootBegin, offsetNS, 1)
+}
+
+func appendStackEntries(list []*stack_model.StackEntry, entries []*Entry, rootBegin time.Time, offsetNS int64, depth int) []*stack_model.StackEntry {
+	for _, entry := range entries {
+		list = appendStackEntry(list, entry, rootBegin, offsetNS, depth)
 	}
 	return list
 }
 
-func ExportStackEntry(entry *Entry, rootBegin time.Time, offsetNS int64) *stack_model.StackEntry {
+func appendStackEntry(list []*stack_model.StackEntry, entry *Entry, rootBegin time.Time, offsetNS int64, depth int) []*stack_model.StackEntry {
 	if entry == nil {
-		return nil
+		return append(list, nil)
+	}
+
+	exported := &stack_model.StackEntry{}
+	list = append(list, exported)
+	addChildren := func(entries []*Entry, rootBegin time.Time, offsetNS int64) {
+		if depth < maxDepth {
+			exported.Children = appendStackEntries(exported.Children, entries, rootBegin, offsetNS, depth+1)
+		} else {
+			list = appendStackEntries(list, entries, rootBegin, offsetNS, depth)
+		}
 	}
 
 	var isRunning bool
-	children := ExportStackEntries(entry.Children, rootBegin, offsetNS)
+	addChildren(entry.Children, rootBegin, offsetNS)
 	beginNs := entry.BeginNs + offsetNS
 	endNs := entry.EndNs + offsetNS
 	fnInfo := ExportFuncInfo(entry)
@@ -51,8 +70,7 @@ func ExportStackEntry(entry *Entry, rootBegin time.Time, offsetNS int64) *stack_
 			childStack := entry.GetStack()
 			if childStack != nil {
 				childBegin, childEnd, childRoots := childStack.Snapshot()
-				exportedChildren := ExportStackEntries(childRoots, childBegin, beginNs)
-				children = append(children, exportedChildren...)
+				addChildren(childRoots, childBegin, beginNs)
 				// Prefer zero-value compare over IsZero(): time.Time methods can
 				// be instrumented under --trap-stdlib / --trap-all and re-enter
 				// trap/export (see SetEndIfZero). Safe outside mu, but keep
@@ -74,17 +92,15 @@ func ExportStackEntry(entry *Entry, rootBegin time.Time, offsetNS int64) *stack_
 	if isRunning {
 		fnInfo.Name += " (running)"
 	}
-	return &stack_model.StackEntry{
-		FuncInfo:  fnInfo,
-		BeginNs:   beginNs,
-		EndNs:     endNs,
-		Args:      entry.Args,
-		Results:   entry.Results,
-		Panic:     entry.Panic,
-		PanicLine: entry.PanicLine,
-		Error:     entry.Error,
-		Children:  children,
-	}
+	exported.FuncInfo = fnInfo
+	exported.BeginNs = beginNs
+	exported.EndNs = endNs
+	exported.Args = entry.Args
+	exported.Results = entry.Results
+	exported.Panic = entry.Panic
+	exported.PanicLine = entry.PanicLine
+	exported.Error = entry.Error
+	return list
 }
 
 func ExportFuncInfo(entry *Entry) *stack_model.FuncInfo {
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/object.go b/cmd/xgo/asset/runtime_gen/internal/trap/object.go
index 68cc8b9..3bff525 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/object.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/object.go
@@ -120,7 +120,7 @@ func (c *structValue) MarshalJSON() ([]byte, error) {
 		if name == "" {
 			fieldName = fmt.Sprintf("__field_%d", i)
 		}
-		res := runtime.MarshalNoError(c.Values[i])
+		res := runtime.MarshalValueNoError(c.Values[i])
 		if len(res) > DEFAULT_SIZE_LIMIT {
 			// %q is not always valid JSON
 			fields[i] = fmt.Sprintf("%q: %s", fieldName, runtime.MarshalNoError(string(res[:DEFAULT_SIZE_LIMIT])))
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/var.go b/cmd/xgo/asset/runtime_gen/internal/trap/var.go
index 5f6f755..f56a793 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/var.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/var.go
@@ -152,7 +152,7 @@ func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, traci
 	_, file, line, _ := runtime.Caller(SKIP + 2)
 	end := xgo_runtime.XgoRealTimeNow()
 	endNs := end.UnixNano() - stk.Begin.UnixNano()
-	resultsJSON := json.RawMessage(xgo_runtime.MarshalNoError(res))
+	resultsJSON := json.RawMessage(xgo_runtime.MarshalValueNoError(res))
 	// Single locked push+finish so export cannot race with var trap records.
 	cur, oldTop := stk.PushNew(begin, funcInfo.Name, func(cur *stack.Entry) {
 		cur.File = file
diff --git a/runtime/internal/runtime/marshal.go b/runtime/internal/runtime/marshal.go
index a67c186..08a9a0a 100644
--- a/runtime/internal/runtime/marshal.go
+++ b/runtime/internal/runtime/marshal.go
@@ -46,3 +46,43 @@ func MarshalNoError(v interface{}) (result []byte) {
 	result, err = json.Marshal(v)
 	return
 }
+
+// maxValueDepth leaves room for the calls around the value, because
+// nested JSON is neither encoded nor decoded beyond 10000 levels.
+const maxValueDepth = 5000
+
+// MarshalValueNoError is like MarshalNoError, and also gives up on
+// values that are nested too deep to be part of a trace
+func MarshalValueNoError(v interface{}) []byte {
+	result := MarshalNoError(v)
+	if exceedsDepth(result, maxValueDepth) {
+		return MarshalNoError(map[string]string{"error": "exceeded max depth"})
+	}
+	return result
+}
+
+// exceedsDepth tells if data, which is valid JSON, is nested deeper than limit
+func exceedsDepth(data []byte, limit int) bool {
+	var depth int
+	var inString bool
+	for i := 0; i < len(data); i++ {
+		switch c := data[i]; {
+		case inString:
+			if c == '\\' {
+				i++
+			} else if c == '"' {
+				inString = false
+			}
+		case c == '"':
+			inString = true
+		case c == '{' || c == '[':
+			depth++
+			if depth > limit {
+				return true
+			}
+		case c == '}' || c == ']':
+			depth--
+		}
+	}
+	return false
+}
diff --git a/runtime/internal/stack/export.go b/runtime/internal/stack/export.go
index 51c1e8d..22b6b00 100644
--- a/runtime/internal/stack/export.go
+++ b/runtime/internal/stack/export.go
@@ -23,24 +23,43 @@ func Export(stack *Stack, offsetNS int64) *stack_model.Stack {
 	}
 }
 
+// maxDepth limits the nesting of exported calls, because nested JSON
+// is neither encoded nor decoded beyond 10000 levels.
+// Calls nested deeper are listed right behind their caller.
+const maxDepth = 2000
+
 func ExportStackEntries(entries []*Entry, rootBegin time.Time, offsetNS int64) []*stack_model.StackEntry {
 	if entries == nil {
 		return nil
 	}
-	list := make([]*stack_model.StackEntry, len(entries))
-	for i, entry := range entries {
-		list[i] = ExportStackEntry(entry, rootBegin, offsetNS)
+	list := make([]*stack_model.StackEntry, 0, len(entries))
+	return appendStackEntries(list, entries, rootBegin, offsetNS, 1)
+}
+
+func appendStackEntries(list []*stack_model.StackEntry, entries []*Entry, rootBegin time.Time, offsetNS int64, depth int) []*stack_model.StackEntry {
+	for _, entry := range entries {
+		list = appendStackEntry(list, entry, rootBegin, offsetNS, depth)
 	}
 	return list
 }
 
-func ExportStackEntry(entry *Entry, rootBegin time.Time, offsetNS int64) *stack_model.StackEntry {
+func appendStackEntry(list []*stack_model.StackEntry, entry *Entry, rootBegin time.Time, offsetNS int64, depth int) []*stack_model.StackEntry {
 	if entry == nil {
-		return nil
+		return append(list, nil)
+	}
+
+	exported := &stack_model.StackEntry{}
+	list = append(list, exported)
+	addChildren := func(entries []*Entry, rootBegin time.Time, offsetNS int64) {
+		if depth < maxDepth {
+			exported.Children = appendStackEntries(exported.Children, entries, rootBegin, offsetNS, depth+1)
+		} else {
+			list = appendStackEntries(list, entries, rootBegin, offsetNS, depth)
+		}
 	}
 
 	var isRunning bool
-	children := ExportStackEntries(entry.Children, rootBegin, offsetNS)
+	addChildren(entry.Children, rootBegin, offsetNS)
 	beginNs := entry.BeginNs + offsetNS
 	endNs := entry.EndNs + offsetNS
 	fnInfo := ExportFuncInfo(entry)
@@ -51,8 +70,7 @@ func ExportStackEntry(entry *Entry, rootBegin time.Time, offsetNS int64) *stack_
 			childStack := entry.GetStack()
 			if childStack != nil {
 				childBegin, childEnd, childRoots := childStack.Snapshot()
-				exportedChildren := ExportStackEntries(childRoots, childBegin, beginNs)
-				children = append(children, exportedChildren...)
+				addChildren(childRoots, childBegin, beginNs)
 				// Prefer zero-value compare over IsZero(): time.Time methods can
 				// be instrumented under --trap-stdlib / --trap-all and re-enter
 				// trap/export (see SetEndIfZero). Safe outside mu, but keep
@@ -74,17 +92,15 @@ func ExportStackEntry(entry *Entry, rootBegin time.Time, offsetNS int64) *stack_
 	if isRunning {
 		fnInfo.Name += " (running)"
 	}
-	return &stack_model.StackEntry{
-		FuncInfo:  fnInfo,
-		BeginNs:   beginNs,
-		EndNs:     endNs,
-		Args:      entry.Args,
-		Results:   entry.Results,
-		Panic:     entry.Panic,
-		PanicLine: entry.PanicLine,
-		Error:     entry.Error,
-		Children:  children,
-	}
+	exported.FuncInfo = fnInfo
+	exported.BeginNs = beginNs
+	exported.EndNs = endNs
+	exported.Args = entry.Args
+	exported.Results = entry.Results
+	exported.Panic = entry.Panic
+	exported.PanicLine = entry.PanicLine
+	exported.Error = entry.Error
+	return list
 }
 
 func ExportFuncInfo(entry *Entry) *stack_model.FuncInfo {
diff --git a/runtime/internal/trap/object.go b/runtime/internal/trap/object.go
index 68cc8b9..3bff525 100644
--- a/runtime/internal/trap/object.go
+++ b/runtime/internal/trap/object.go
@@ -120,7 +120,7 @@ func (c *structValue) MarshalJSON() ([]byte, error) {
 		if name == "" {
 			fieldName = fmt.Sprintf("__field_%d", i)
 		}
-		res := runtime.MarshalNoError(c.Values[i])
+		res := runtime.MarshalValueNoError(c.Values[i])
 		if len(res) > DEFAULT_SIZE_LIMIT {
 			// %q is not always valid JSON
 			fields[i] = fmt.Sprintf("%q: %s", fieldName, runtime.MarshalNoError(string(res[:DEFAULT_SIZE_LIMIT])))
diff --git a/runtime/internal/trap/var.go b/runtime/internal/trap/var.go
index 5f6f755..f56a793 100644
--- a/runtime/internal/trap/var.go
+++ b/runtime/internal/trap/var.go
@@ -152,7 +152,7 @@ func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, traci
 	_, file, line, _ := runtime.Caller(SKIP + 2)
 	end := xgo_runtime.XgoRealTimeNow()
 	endNs := end.UnixNano() - stk.Begin.UnixNano()
-	resultsJSON := json.RawMessage(xgo_runtime.MarshalNoError(res))
+	resultsJSON := json.RawMessage(xgo_runtime.MarshalValueNoError(res))
 	// Single locked push+finish so export cannot race with var trap records.
 	cur, oldTop := stk.PushNew(begin, funcInfo.Name, func(cur *stack.Entry) {
 		cur.File = file
-- 
2.43.0


From 0319732f3b1857233848bbdc98ff50df9d11150e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:03 +0000
Subject: [PATCH 45/71] fix: show trace files that are broken, oddly named or
 have large numbers

---
 cmd/xgo/trace/main.go          |  6 +++++-
 cmd/xgo/trace/render/render.go | 11 +++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/cmd/xgo/trace/main.go b/cmd/xgo/trace/main.go
index 141c484..1a81e52 100644
--- a/cmd/xgo/trace/main.go
+++ b/cmd/xgo/trace/main.go
@@ -1,6 +1,7 @@
 package trace
 
 import (
+	"bytes"
 	_ "embed"
 	"encoding/json"
 	"fmt"
@@ -211,7 +212,10 @@ func parseRecord(file string) (*RootExport, error) {
 		return nil, err
 	}
 	var root *RootExport
-	err = json.Unmarshal(data, &root)
+	// keep numbers exactly as they are
+	decoder := json.NewDecoder(bytes.NewReader(data))
+	decoder.UseNumber()
+	err = decoder.Decode(&root)
 	if err != nil {
 		return nil, err
 	}
diff --git a/cmd/xgo/trace/render/render.go b/cmd/xgo/trace/render/render.go
index 53aa58f..61934d9 100644
--- a/cmd/xgo/trace/render/render.go
+++ b/cmd/xgo/trace/render/render.go
@@ -3,6 +3,7 @@ package render
 import (
 	"encoding/json"
 	"fmt"
+	"html"
 	"io"
 	"os"
 	"strings"
@@ -20,6 +21,7 @@ func readStacks(file string, force bool) ([]*stack_model.Stack, bool, error) {
 	if err != nil {
 		return nil, false, err
 	}
+	defer reader.Close()
 	return readStacksFromReader(reader, force)
 }
 
@@ -40,13 +42,18 @@ func readStacksFromReader(reader io.Reader, force bool) ([]*stack_model.Stack, b
 		return nil, false, nil
 	}
 	stacks = append(stacks, &stack)
-	for {
+	var corrupted bool
+	for !corrupted {
 		var stack stack_model.Stack
 		err = decoder.Decode(&stack)
 		if err != nil {
 			if err == io.EOF {
 				break
 			}
+			if _, ok := err.(*json.UnmarshalTypeError); !ok {
+				// the decoder cannot go beyond a syntax error
+				corrupted = true
+			}
 			stack = stack_model.Stack{
 				Begin: time.Now().Format(time.RFC3339),
 				Children: []*stack_model.StackEntry{
@@ -95,7 +102,7 @@ func RenderStacks(stacks []*stack_model.Stack, file string, w io.Writer) (err er
 	<head>
 		<meta charset="UTF-8">
 		<meta name="viewport" content="width=device-width, initial-scale=1.0">
-		<title>Trace of ` + file + `</title>
+		<title>Trace of ` + html.EscapeString(file) + `</title>
 	</head>
 	<body style="height: 100%;">
 	`,
-- 
2.43.0


From fe1f716e2625640cd6177931b8819159fedb1d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:03 +0000
Subject: [PATCH 46/71] Revert "fix: deliver all output of a test to the
 explorer before its end"

This reverts commit 538092f9db2ba972f44322cb3c9297a0e78cc040.
---
 cmd/xgo/test-explorer/poll.go        | 11 ++++----
 cmd/xgo/test-explorer/run_session.go | 40 ++++++----------------------
 2 files changed, 13 insertions(+), 38 deletions(-)

diff --git a/cmd/xgo/test-explorer/poll.go b/cmd/xgo/test-explorer/poll.go
index b4f970f..26a55c5 100644
--- a/cmd/xgo/test-explorer/poll.go
+++ b/cmd/xgo/test-explorer/poll.go
@@ -1,6 +1,7 @@
 package test_explorer
 
 import (
+	"bufio"
 	"context"
 	"fmt"
 	"io"
@@ -121,7 +122,6 @@ func startRun(sess session.Session, projectDir string, absDir string, file strin
 	// - build with gcflags="all=-N -l"
 	// - start dlv
 	// - output prompt
-	outputDone := make(chan struct{})
 	go func() {
 		defer sess.SendEvents(&TestingItemEvent{
 			Event: Event_TestEnd,
@@ -142,8 +142,6 @@ func startRun(sess session.Session, projectDir string, absDir string, file strin
 			Args:       testArgs,
 		}
 		err := runner(ctx)
-		pw.Close()
-		<-outputDone
 		if err != nil {
 			sess.SendEvents(&TestingItemEvent{
 				Event: Event_Output,
@@ -153,13 +151,14 @@ func startRun(sess session.Session, projectDir string, absDir string, file strin
 	}()
 
 	go func() {
-		defer close(outputDone)
-		forEachLine(pr, func(data []byte) {
+		scanner := bufio.NewScanner(pr)
+		for scanner.Scan() {
+			data := scanner.Bytes()
 			sess.SendEvents(&TestingItemEvent{
 				Event: Event_Output,
 				Msg:   string(data),
 			})
-		})
+		}
 	}()
 }
 
diff --git a/cmd/xgo/test-explorer/run_session.go b/cmd/xgo/test-explorer/run_session.go
index e18268e..1e8b878 100644
--- a/cmd/xgo/test-explorer/run_session.go
+++ b/cmd/xgo/test-explorer/run_session.go
@@ -334,9 +334,6 @@ func (c *runSession) Start() error {
 		var err error
 		defer func() {
 			w.Close()
-			if defStdErr != nil {
-				defStdErr.Close()
-			}
 			errCh <- err
 		}()
 		var stderr io.Writer
@@ -371,12 +368,9 @@ func (c *runSession) Start() error {
 	}()
 
 	// consume stderr
-	stderrDone := make(chan struct{})
-	if defStdErrReader == nil {
-		close(stderrDone)
-	} else {
+	if defStdErrReader != nil {
 		go func() {
-			defer close(stderrDone)
+			defer defStdErr.Close()
 			consumeTestEvent(defStdErrReader, rootPath, plainMsgBuilder, func(event *TestingItemEvent) {
 				// this loop will never write pm
 				// so access to pm is single threaded
@@ -390,7 +384,6 @@ func (c *runSession) Start() error {
 		// wait all finish
 		defer func() {
 			err := <-errCh
-			<-stderrDone
 			if err != nil {
 				sendEvent(&TestingItemEvent{Event: Event_ItemStatus, Path: rootPath, Msg: err.Error(), Status: RunStatus_Fail})
 			}
@@ -590,7 +583,10 @@ func runTest(goCmd string, dir string, customFlags []string, testArgs []string,
 }
 
 func consumeTestEvent(r io.Reader, rootItemPath []string, builder func(line []byte) ([]*TestingItemEvent, error), callback func(*TestingItemEvent)) {
-	forEachLine(r, func(data []byte) {
+	scanner := bufio.NewScanner(r)
+	for scanner.Scan() {
+		data := scanner.Bytes()
+
 		events, err := builder(data)
 		if err != nil {
 			callback(&TestingItemEvent{
@@ -603,22 +599,6 @@ func consumeTestEvent(r io.Reader, rootItemPath []string, builder func(line []by
 		for _, event := range events {
 			callback(event)
 		}
-	})
-}
-
-// forEachLine reads r to its end, lines can be of any length
-func forEachLine(r io.Reader, callback func(line []byte)) {
-	reader := bufio.NewReader(r)
-	for {
-		line, err := reader.ReadBytes('\n')
-		if len(line) > 0 {
-			line = bytes.TrimSuffix(line, []byte{'\n'})
-			line = bytes.TrimSuffix(line, []byte{'\r'})
-			callback(line)
-		}
-		if err != nil {
-			return
-		}
 	}
 }
 
@@ -639,10 +619,6 @@ func (c *jsonTestEventBuilder) build(line []byte) ([]*TestingItemEvent, error) {
 	if err != nil {
 		return nil, err
 	}
-	if event == nil {
-		// to be continued
-		return nil, nil
-	}
 	return buildEvent(event, c.pathPrefix, c.dirPkgPath, c.pm, c.testResolver)
 }
 
@@ -671,9 +647,9 @@ func (c *jsonTestEventBuilder) parse(line []byte) (*TestEvent, error) {
 		return nil, nil
 	}
 	pkg := m[1]
-
-	output := strings.Join(append(c.prefix, s), "\n")
 	c.prefix = nil
+
+	output := strings.Join(c.prefix, "\n") + "\n" + s
 	return &TestEvent{
 		Package: pkg,
 		Action:  TestEventAction_Fail,
-- 
2.43.0


From 56749a35c569a2b93f2c8de29575161929038fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:54 +0000
Subject: [PATCH 47/71] fix: find generics in packages with a dotted path,
 report lines of grouped variables

The go runtime escapes dots in the last element of a package path, so
names of generic functions were looked up under a path like
gopkg.in/yaml%2ev3. And a slash inside of the type arguments of a
function was taken for one of its package path.
---
 cmd/xgo/asset/runtime_gen/core/func.go       | 17 +++++----------
 cmd/xgo/asset/runtime_gen/functab/functab.go | 23 ++++++++++++++++++++
 instrument/instrument_reg/instrument_reg.go  |  3 ++-
 runtime/core/func.go                         | 17 +++++----------
 runtime/functab/functab.go                   | 23 ++++++++++++++++++++
 5 files changed, 60 insertions(+), 23 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/core/func.go b/cmd/xgo/asset/runtime_gen/core/func.go
index d03c628..c629a3d 100755
--- a/cmd/xgo/asset/runtime_gen/core/func.go
+++ b/cmd/xgo/asset/runtime_gen/core/func.go
@@ -104,7 +104,6 @@ func (c *FuncInfo) DisplayName() string {
 //	recvGeneric
 //	pkgPath
 func ParseFuncName(fullName string) (pkgPath string, recvName string, recvPtr bool, typeGeneric string, funcGeneric string, funcName string) {
-	sepIdx := strings.LastIndex(fullName, "/")
 	pkg_recv_func_no_generic := fullName
 	// func generic
 	if strings.HasSuffix(pkg_recv_func_no_generic, "]") {
@@ -167,16 +166,12 @@ func ParseFuncName(fullName string) (pkgPath string, recvName string, recvPtr bo
 			// invalid
 			return
 		}
-		if dotIdx < sepIdx {
-			if strings.Contains(typeGeneric, "/") {
-				// recheck, see bug https://github.com/xhd2015/xgo/issues/211
-				sepIdx = strings.LastIndex(pkg_recv, "/")
-			}
-			if dotIdx < sepIdx {
-				// no recv
-				pkgPath = recv_ptr
-				return
-			}
+		// type arguments may contain "/" as well, so look for it after they are gone
+		// see bug https://github.com/xhd2015/xgo/issues/211
+		if dotIdx < strings.LastIndex(pkg_recv, "/") {
+			// no recv
+			pkgPath = recv_ptr
+			return
 		}
 		pkgPath = pkg_recv[:dotIdx]
 		recv_ptr = pkg_recv[dotIdx+1:]
diff --git a/cmd/xgo/asset/runtime_gen/functab/functab.go b/cmd/xgo/asset/runtime_gen/functab/functab.go
index a046de0..3f50b79 100755
--- a/cmd/xgo/asset/runtime_gen/functab/functab.go
+++ b/cmd/xgo/asset/runtime_gen/functab/functab.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"reflect"
+	"strconv"
 	"strings"
 	"sync"
 	"unsafe"
@@ -124,6 +125,7 @@ func GetTypeMethods(typ reflect.Type) map[string]*core.FuncInfo {
 
 func getInterfaceOrGenericByFullName(fullName string) *core.FuncInfo {
 	pkgPath, recvName, recvPtr, typeGeneric, funcGeneric, funcName := core.ParseFuncName(fullName)
+	pkgPath = unescapePkgPath(pkgPath)
 	if typeGeneric != "" || funcGeneric != "" {
 		// generic, currently does not solve generic interface
 		idName := funcName
@@ -142,6 +144,27 @@ func getInterfaceOrGenericByFullName(fullName string) *core.FuncInfo {
 	return nil
 }
 
+// unescapePkgPath reverts the escaping of package paths in names that
+// the go runtime reports, e.g. gopkg.in/yaml%2ev3
+func unescapePkgPath(pkgPath string) string {
+	if !strings.Contains(pkgPath, "%") {
+		return pkgPath
+	}
+	var b strings.Builder
+	for i := 0; i < len(pkgPath); i++ {
+		if pkgPath[i] == '%' && i+2 < len(pkgPath) {
+			c, err := strconv.ParseUint(pkgPath[i+1:i+3], 16, 8)
+			if err == nil {
+				b.WriteByte(byte(c))
+				i += 2
+				continue
+			}
+		}
+		b.WriteByte(pkgPath[i])
+	}
+	return b.String()
+}
+
 var errType = reflect.TypeOf((*error)(nil)).Elem()
 var ctxType = reflect.TypeOf((*context.Context)(nil)).Elem()
 
diff --git a/instrument/instrument_reg/instrument_reg.go b/instrument/instrument_reg/instrument_reg.go
index 35dac0e..d783bba 100644
--- a/instrument/instrument_reg/instrument_reg.go
+++ b/instrument/instrument_reg/instrument_reg.go
@@ -149,7 +149,8 @@ func buildCompilerExtra(fset *token.FileSet, file *edit.File) *compiler_extra.Fi
 		})
 	}
 	for _, varInfo := range file.TrapVars {
-		pos := varInfo.Decl.Decl.Pos()
+		// not that of the group it may be declared in
+		pos := varInfo.Decl.Ident.Pos()
 		lineNum := fset.PositionFor(pos, false).Line
 		decls.TrapVars = append(decls.TrapVars, compiler_extra.VarInfo{
 			Name:    varInfo.Name,
diff --git a/runtime/core/func.go b/runtime/core/func.go
index d03c628..c629a3d 100644
--- a/runtime/core/func.go
+++ b/runtime/core/func.go
@@ -104,7 +104,6 @@ func (c *FuncInfo) DisplayName() string {
 //	recvGeneric
 //	pkgPath
 func ParseFuncName(fullName string) (pkgPath string, recvName string, recvPtr bool, typeGeneric string, funcGeneric string, funcName string) {
-	sepIdx := strings.LastIndex(fullName, "/")
 	pkg_recv_func_no_generic := fullName
 	// func generic
 	if strings.HasSuffix(pkg_recv_func_no_generic, "]") {
@@ -167,16 +166,12 @@ func ParseFuncName(fullName string) (pkgPath string, recvName string, recvPtr bo
 			// invalid
 			return
 		}
-		if dotIdx < sepIdx {
-			if strings.Contains(typeGeneric, "/") {
-				// recheck, see bug https://github.com/xhd2015/xgo/issues/211
-				sepIdx = strings.LastIndex(pkg_recv, "/")
-			}
-			if dotIdx < sepIdx {
-				// no recv
-				pkgPath = recv_ptr
-				return
-			}
+		// type arguments may contain "/" as well, so look for it after they are gone
+		// see bug https://github.com/xhd2015/xgo/issues/211
+		if dotIdx < strings.LastIndex(pkg_recv, "/") {
+			// no recv
+			pkgPath = recv_ptr
+			return
 		}
 		pkgPath = pkg_recv[:dotIdx]
 		recv_ptr = pkg_recv[dotIdx+1:]
diff --git a/runtime/functab/functab.go b/runtime/functab/functab.go
index a046de0..3f50b79 100644
--- a/runtime/functab/functab.go
+++ b/runtime/functab/functab.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"reflect"
+	"strconv"
 	"strings"
 	"sync"
 	"unsafe"
@@ -124,6 +125,7 @@ func GetTypeMethods(typ reflect.Type) map[string]*core.FuncInfo {
 
 func getInterfaceOrGenericByFullName(fullName string) *core.FuncInfo {
 	pkgPath, recvName, recvPtr, typeGeneric, funcGeneric, funcName := core.ParseFuncName(fullName)
+	pkgPath = unescapePkgPath(pkgPath)
 	if typeGeneric != "" || funcGeneric != "" {
 		// generic, currently does not solve generic interface
 		idName := funcName
@@ -142,6 +144,27 @@ func getInterfaceOrGenericByFullName(fullName string) *core.FuncInfo {
 	return nil
 }
 
+// unescapePkgPath reverts the escaping of package paths in names that
+// the go runtime reports, e.g. gopkg.in/yaml%2ev3
+func unescapePkgPath(pkgPath string) string {
+	if !strings.Contains(pkgPath, "%") {
+		return pkgPath
+	}
+	var b strings.Builder
+	for i := 0; i < len(pkgPath); i++ {
+		if pkgPath[i] == '%' && i+2 < len(pkgPath) {
+			c, err := strconv.ParseUint(pkgPath[i+1:i+3], 16, 8)
+			if err == nil {
+				b.WriteByte(byte(c))
+				i += 2
+				continue
+			}
+		}
+		b.WriteByte(pkgPath[i])
+	}
+	return b.String()
+}
+
 var errType = reflect.TypeOf((*error)(nil)).Elem()
 var ctxType = reflect.TypeOf((*context.Context)(nil)).Elem()
 
-- 
2.43.0


From 6fe3843d0c8bbf305c4524afe30597a44893d428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:28 +0000
Subject: [PATCH 48/71] fix: register the name of the receiver for methods the
 compiler instruments

---
 cmd/xgo/asset/compiler_patch_gen/syntax/syntax.go | 2 +-
 patch/syntax/syntax.go                            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/asset/compiler_patch_gen/syntax/syntax.go b/cmd/xgo/asset/compiler_patch_gen/syntax/syntax.go
index 1070964..aaa7879 100755
--- a/cmd/xgo/asset/compiler_patch_gen/syntax/syntax.go
+++ b/cmd/xgo/asset/compiler_patch_gen/syntax/syntax.go
@@ -156,7 +156,7 @@ func convertFuncDecl(funcDecl *info.DeclInfo) *compiler_extra.FuncInfo {
 	var receiver *compiler_extra.Field
 	if funcDecl.RecvTypeName != "" {
 		receiver = &compiler_extra.Field{
-			Name: funcDecl.RecvTypeName,
+			Name: funcDecl.RecvName,
 		}
 	}
 	return &compiler_extra.FuncInfo{
diff --git a/patch/syntax/syntax.go b/patch/syntax/syntax.go
index 1070964..aaa7879 100644
--- a/patch/syntax/syntax.go
+++ b/patch/syntax/syntax.go
@@ -156,7 +156,7 @@ func convertFuncDecl(funcDecl *info.DeclInfo) *compiler_extra.FuncInfo {
 	var receiver *compiler_extra.Field
 	if funcDecl.RecvTypeName != "" {
 		receiver = &compiler_extra.Field{
-			Name: funcDecl.RecvTypeName,
+			Name: funcDecl.RecvName,
 		}
 	}
 	return &compiler_extra.FuncInfo{
-- 
2.43.0


From 3e2f179f4e3a8dff0151bb1376fd092db46bfa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:59 +0000
Subject: [PATCH 49/71] fix: find generics of a main package, which the go
 runtime calls main

---
 cmd/xgo/asset/runtime_gen/functab/functab.go | 6 ++++++
 runtime/functab/functab.go                   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/cmd/xgo/asset/runtime_gen/functab/functab.go b/cmd/xgo/asset/runtime_gen/functab/functab.go
index 3f50b79..20154e5 100755
--- a/cmd/xgo/asset/runtime_gen/functab/functab.go
+++ b/cmd/xgo/asset/runtime_gen/functab/functab.go
@@ -126,6 +126,12 @@ func GetTypeMethods(typ reflect.Type) map[string]*core.FuncInfo {
 func getInterfaceOrGenericByFullName(fullName string) *core.FuncInfo {
 	pkgPath, recvName, recvPtr, typeGeneric, funcGeneric, funcName := core.ParseFuncName(fullName)
 	pkgPath = unescapePkgPath(pkgPath)
+	if pkgPath == "main" {
+		// the go runtime calls any main package so
+		if mainFunc := funcFullNameMapping["main.main"]; mainFunc != nil {
+			pkgPath = mainFunc.Pkg
+		}
+	}
 	if typeGeneric != "" || funcGeneric != "" {
 		// generic, currently does not solve generic interface
 		idName := funcName
diff --git a/runtime/functab/functab.go b/runtime/functab/functab.go
index 3f50b79..20154e5 100644
--- a/runtime/functab/functab.go
+++ b/runtime/functab/functab.go
@@ -126,6 +126,12 @@ func GetTypeMethods(typ reflect.Type) map[string]*core.FuncInfo {
 func getInterfaceOrGenericByFullName(fullName string) *core.FuncInfo {
 	pkgPath, recvName, recvPtr, typeGeneric, funcGeneric, funcName := core.ParseFuncName(fullName)
 	pkgPath = unescapePkgPath(pkgPath)
+	if pkgPath == "main" {
+		// the go runtime calls any main package so
+		if mainFunc := funcFullNameMapping["main.main"]; mainFunc != nil {
+			pkgPath = mainFunc.Pkg
+		}
+	}
 	if typeGeneric != "" || funcGeneric != "" {
 		// generic, currently does not solve generic interface
 		idName := funcName
-- 
2.43.0


From ecf1eeed5324a12b3bdf074481faa7378e1defaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:45 +0000
Subject: [PATCH 50/71] fix: copy directories through relative links and report
 every copy error

---
 support/filecopy/copy.go | 55 ++++++++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/support/filecopy/copy.go b/support/filecopy/copy.go
index 366faac..983f554 100644
--- a/support/filecopy/copy.go
+++ b/support/filecopy/copy.go
@@ -222,7 +222,16 @@ func copyReplaceDir(srcDir string, targetDir string, opts *Options) error {
 	wg.Wait()
 
 	// fmt.Printf("copied: %d\n", atomic.LoadInt64(&added))
-	return err
+	if err != nil {
+		return err
+	}
+	// errors that happened after the last file was sent
+	select {
+	case err := <-errCh:
+		return err
+	default:
+		return nil
+	}
 }
 
 // copy if panic happened, they are converted to error
@@ -243,31 +252,48 @@ type copyOptions struct {
 	filterSubPath func(subPath string, dir bool) bool
 }
 
+// same as filepath.EvalSymlinks
+const maxLinks = 255
+
 func copyDirHandle(srcDir string, targetAbsDir string, opts *copyOptions, handler func(srcFile string, dstFile string) error) error {
 	// special case, when srcDir is a symbolic, it fails to
 	// walk, so we make a workaround here
-	stat, err := os.Lstat(srcDir)
+	// NOTE: a trailing slash hides the link
+	actualDir := filepath.Clean(srcDir)
+	stat, err := os.Lstat(actualDir)
 	if err != nil {
 		return err
 	}
-	actualDir := srcDir
-	if !stat.IsDir() {
+	for i := 0; !stat.IsDir(); i++ {
+		if i >= maxLinks {
+			return fmt.Errorf("too many symbolic links: %s", srcDir)
+		}
 		// example:
 		//   - link: C:\hostedtoolcache\windows\go\1.24.2\x64
 		//   - resolved: D:\hostedtoolcache\windows\go\1.24.2\x64\
-		linkDir, err := os.Readlink(srcDir)
+		linkDir, err := os.Readlink(actualDir)
 		if err != nil {
 			return err
 		}
+		if !filepath.IsAbs(linkDir) {
+			// relative to the directory of the link
+			parent, err := filepath.EvalSymlinks(filepath.Dir(actualDir))
+			if err != nil {
+				return err
+			}
+			linkDir = filepath.Join(parent, linkDir)
+		}
 		actualDir = linkDir
+		stat, err = os.Lstat(actualDir)
+		if err != nil {
+			return err
+		}
 	}
 	// clean example:
 	//   - before: D:\hostedtoolcache\windows\go\1.24.2\x64\
 	//   - after: D:\hostedtoolcache\windows\go\1.24.2\x64
 	actualDir = filepath.Clean(actualDir)
 	actualDir = strings.TrimRight(actualDir, string(filepath.Separator))
-	n := len(actualDir)
-	prefixLen := n + len(string(filepath.Separator))
 	return filepath.WalkDir(actualDir, func(path string, d fs.DirEntry, err error) error {
 		if err != nil {
 			return err
@@ -276,7 +302,10 @@ func copyDirHandle(srcDir string, targetAbsDir string, opts *copyOptions, handle
 		if path == actualDir {
 			return os.MkdirAll(targetAbsDir, 0755)
 		}
-		subPath := path[prefixLen:]
+		subPath, err := filepath.Rel(actualDir, path)
+		if err != nil {
+			return err
+		}
 
 		isDir := d.IsDir()
 		if opts != nil && opts.filterSubPath != nil && !opts.filterSubPath(subPath, isDir) {
@@ -318,7 +347,7 @@ func CopyFileAll(src string, dst string) error {
 	return copyFile(src, dst, true, nil)
 }
 
-func copyFile(src string, dst string, mkdirs bool, buf []byte) error {
+func copyFile(src string, dst string, mkdirs bool, buf []byte) (err error) {
 	reader, err := os.Open(src)
 	if err != nil {
 		return err
@@ -336,7 +365,13 @@ func copyFile(src string, dst string, mkdirs bool, buf []byte) error {
 	if err != nil {
 		return err
 	}
-	defer writer.Close()
+	// a failure to write can be reported as late as by Close
+	defer func() {
+		closeErr := writer.Close()
+		if err == nil {
+			err = closeErr
+		}
+	}()
 
 	// NOTE: go has optimization when copy file on linux
 	// but that omits the buffer we pass to it,
-- 
2.43.0


From f6d1eaca0adcad6176eaa1c8d51c50447b1a786d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:45 +0000
Subject: [PATCH 51/71] fix: do not take an interrupted setup as complete

---
 cmd/xgo/main.go  | 33 ++++++++++++++++++++++++++++++---
 cmd/xgo/patch.go | 36 +++++++++++++++++++++++++++++++-----
 2 files changed, 61 insertions(+), 8 deletions(-)

diff --git a/cmd/xgo/main.go b/cmd/xgo/main.go
index 2eace03..d797dcf 100644
--- a/cmd/xgo/main.go
+++ b/cmd/xgo/main.go
@@ -411,10 +411,16 @@ func handleBuild(cmd string, args []string) error {
 	// for cache: /tmp/xgo/go-instrument/go1.21.0
 	instrumentCacheDir = filepath.Join(globalXgoTmpDir, "go-instrument"+instrumentSuffix, mappedInstrumentName)
 
+	revisionFile := filepath.Join(instrumentDir, INSTRUMENT_XGO_REVISION_FILE)
+
 	logDebug("instrument dir: %s", instrumentDir)
 	if cmdSetup && deleteFlag {
 		logDebug("delete instrument dir: %s", instrumentDir)
-		err := os.RemoveAll(instrumentDir)
+		err := clearRevision(revisionFile)
+		if err != nil {
+			return err
+		}
+		err = os.RemoveAll(instrumentDir)
 		if err != nil {
 			return err
 		}
@@ -464,7 +470,6 @@ func handleBuild(cmd string, args []string) error {
 	// we no longer need separate build cache
 	// but we need to separate it from normal GOCACHE
 	buildCacheDir := filepath.Join(instrumentCacheDir, "build-cache")
-	revisionFile := filepath.Join(instrumentDir, INSTRUMENT_XGO_REVISION_FILE)
 	fullSyncRecord := filepath.Join(instrumentDir, "full-sync-record.txt")
 
 	err = os.MkdirAll(buildCacheDir, 0755)
@@ -512,6 +517,29 @@ func handleBuild(cmd string, args []string) error {
 			return err
 		}
 
+		lastRunComplete, err := hasRevision(revisionFile)
+		if err != nil {
+			return err
+		}
+		if !lastRunComplete {
+			// anything can be half-written, including binaries,
+			// so the next sync must be a full one
+			err = removeIfExists(fullSyncRecord)
+			if err != nil {
+				return err
+			}
+		}
+
+		resetOrRevisionChanged := resetInstrument || buildCompiler || coreRevisionChanged || instrumentedGorootNeedRecreate
+		if resetOrRevisionChanged || opts.patchGorootInPlace {
+			// the revision is written again when everything is done, so
+			// that a run which gets interrupted is not taken as complete
+			err = clearRevision(revisionFile)
+			if err != nil {
+				return err
+			}
+		}
+
 		if resetInstrument {
 			if !instrumented {
 				logDebug("reset instrument %s", instrumentDir)
@@ -543,7 +571,6 @@ func handleBuild(cmd string, args []string) error {
 			}
 		}
 
-		resetOrRevisionChanged := resetInstrument || buildCompiler || coreRevisionChanged || instrumentedGorootNeedRecreate
 		if opts.patchGorootInPlace || isDevelopment || resetOrRevisionChanged {
 			if !opts.patchGorootInPlace && (instrumentedGorootNeedRecreate || !instrumented) {
 				if cmdSetup && flagV {
diff --git a/cmd/xgo/patch.go b/cmd/xgo/patch.go
index d477740..ca0a9e2 100644
--- a/cmd/xgo/patch.go
+++ b/cmd/xgo/patch.go
@@ -170,6 +170,26 @@ func checkRevisionChanged(coreRevisionFile string, currentCoreRevision string) (
 	return false, nil
 }
 
+// hasRevision tells if the last run that changed
+// the instrumented GOROOT completed
+func hasRevision(revisionFile string) (bool, error) {
+	revision, err := readOrEmpty(revisionFile)
+	if err != nil {
+		return false, err
+	}
+	return revision != "", nil
+}
+
+// clearRevision makes the saved revision, if any, not match any revision.
+// NOTE: the file itself is kept, it also tells that GOROOT is instrumented
+func clearRevision(revisionFile string) error {
+	err := os.Truncate(revisionFile, 0)
+	if err != nil && !errors.Is(err, os.ErrNotExist) {
+		return err
+	}
+	return nil
+}
+
 func readOrEmpty(file string) (string, error) {
 	version, err := os.ReadFile(file)
 	if err != nil {
@@ -230,11 +250,9 @@ func syncGoroot(goroot string, instrumentGoroot string, fullSyncRecordFile strin
 		}
 	} else {
 		logDebug("fully copy $GOROOT and write %s", fullSyncRecordFile)
-		rmErr := os.Remove(fullSyncRecordFile)
-		if rmErr != nil {
-			if !errors.Is(rmErr, os.ErrNotExist) {
-				return rmErr
-			}
+		err := removeIfExists(fullSyncRecordFile)
+		if err != nil {
+			return err
 		}
 
 		// need copy, delete target dst dir first
@@ -261,6 +279,14 @@ func copyGorootSrc(goroot string, instrumentGoroot string) error {
 	return filecopy.CopyReplaceDir(filepath.Join(goroot, "src"), filepath.Join(instrumentGoroot, "src"), false)
 }
 
+func removeIfExists(file string) error {
+	err := os.Remove(file)
+	if err != nil && !errors.Is(err, os.ErrNotExist) {
+		return err
+	}
+	return nil
+}
+
 func statNoErr(f string) bool {
 	_, err := os.Stat(f)
 	return err == nil
-- 
2.43.0


From 5a9fa14ca7b387929dd080bb66ef00a6fd67c091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:03 +0000
Subject: [PATCH 52/71] fix: pass numbers of env and mock_rules in
 test.config.json on as written

---
 support/testconfig/config.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/support/testconfig/config.go b/support/testconfig/config.go
index 1869c1b..24d4a53 100644
--- a/support/testconfig/config.go
+++ b/support/testconfig/config.go
@@ -3,6 +3,7 @@
 package testconfig
 
 import (
+	"bytes"
 	"encoding/json"
 	"errors"
 	"fmt"
@@ -106,8 +107,15 @@ func Parse(data []byte) (*Config, error) {
 	if len(data) == 0 {
 		return &Config{}, nil
 	}
+	// check the whole document first, a decoder stops after one value
+	if err := json.Unmarshal(data, new(interface{})); err != nil {
+		return nil, err
+	}
+	// numbers are passed on as they are written
+	dec := json.NewDecoder(bytes.NewReader(data))
+	dec.UseNumber()
 	var m map[string]interface{}
-	if err := json.Unmarshal(data, &m); err != nil {
+	if err := dec.Decode(&m); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 9354cb8aa9e009e9f9ae8162809ec2f1a2184628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:29 +0000
Subject: [PATCH 53/71] fix: match all of a pattern's segment against a path
 segment

---
 patch/legacy/match/pattern.go | 26 ++++++++++----------------
 support/pattern/pattern.go    | 26 ++++++++++----------------
 2 files changed, 20 insertions(+), 32 deletions(-)

diff --git a/patch/legacy/match/pattern.go b/patch/legacy/match/pattern.go
index 3a2f27a..bb61576 100755
--- a/patch/legacy/match/pattern.go
+++ b/patch/legacy/match/pattern.go
@@ -158,51 +158,45 @@ func doMatch(exprs []expr, segments []string, prefix bool) bool {
 		return doMatch(exprs[1:], segments, prefix)
 	}
 	if len(segments) == 0 {
-		return expr.matchEmpty()
+		return expr.matchEmpty() && doMatch(exprs[1:], segments, prefix)
 	}
 
-	if !expr.matchNoDoubleStar(segments[0], prefix) {
+	if !expr.matchNoDoubleStar(segments[0]) {
 		return false
 	}
 	return doMatch(exprs[1:], segments[1:], prefix)
 }
 
-func (c expr) matchNoDoubleStar(name string, prefix bool) bool {
-	return c.matchRunesFrom(0, prefix, []rune(name))
+func (c expr) matchNoDoubleStar(name string) bool {
+	return c.matchRunesFrom(0, []rune(name))
 }
 
 // f(L, i, runes,j ) -> if L[i]==="*", f(L,i+1, runes,j) or f(L,i,runes,j+1)
-func (c expr) matchRunesFrom(i int, prefix bool, runes []rune) bool {
+func (c expr) matchRunesFrom(i int, runes []rune) bool {
 	if i >= len(c.elements) {
 		return len(runes) == 0
 	}
 	part := c.elements[i]
 	switch part.kind {
 	case kind_star:
-		if c.matchRunesFrom(i+1, prefix, runes) {
+		if c.matchRunesFrom(i+1, runes) {
 			return true
 		}
 		if len(runes) > 0 {
-			return c.matchRunesFrom(i, prefix, runes[1:])
+			return c.matchRunesFrom(i, runes[1:])
 		}
 		return false
 	case kind_plain_str:
 		n := len(part.runes)
-		if !prefix {
-			if n != len(runes) {
-				return false
-			}
-		} else {
-			if n > len(runes) {
-				return false
-			}
+		if n > len(runes) {
+			return false
 		}
 		for j := 0; j < n; j++ {
 			if runes[j] != part.runes[j] {
 				return false
 			}
 		}
-		return true
+		return c.matchRunesFrom(i+1, runes[n:])
 	default:
 		panic(fmt.Errorf("unknown expr kind: %v", part.kind))
 	}
diff --git a/support/pattern/pattern.go b/support/pattern/pattern.go
index 1061813..7b9803b 100644
--- a/support/pattern/pattern.go
+++ b/support/pattern/pattern.go
@@ -156,51 +156,45 @@ func doMatch(exprs []expr, segments []string, prefix bool) bool {
 		return doMatch(exprs[1:], segments, prefix)
 	}
 	if len(segments) == 0 {
-		return expr.matchEmpty()
+		return expr.matchEmpty() && doMatch(exprs[1:], segments, prefix)
 	}
 
-	if !expr.matchNoDoubleStar(segments[0], prefix) {
+	if !expr.matchNoDoubleStar(segments[0]) {
 		return false
 	}
 	return doMatch(exprs[1:], segments[1:], prefix)
 }
 
-func (c expr) matchNoDoubleStar(name string, prefix bool) bool {
-	return c.matchRunesFrom(0, prefix, []rune(name))
+func (c expr) matchNoDoubleStar(name string) bool {
+	return c.matchRunesFrom(0, []rune(name))
 }
 
 // f(L, i, runes,j ) -> if L[i]==="*", f(L,i+1, runes,j) or f(L,i,runes,j+1)
-func (c expr) matchRunesFrom(i int, prefix bool, runes []rune) bool {
+func (c expr) matchRunesFrom(i int, runes []rune) bool {
 	if i >= len(c.elements) {
 		return len(runes) == 0
 	}
 	part := c.elements[i]
 	switch part.kind {
 	case kind_star:
-		if c.matchRunesFrom(i+1, prefix, runes) {
+		if c.matchRunesFrom(i+1, runes) {
 			return true
 		}
 		if len(runes) > 0 {
-			return c.matchRunesFrom(i, prefix, runes[1:])
+			return c.matchRunesFrom(i, runes[1:])
 		}
 		return false
 	case kind_plain_str:
 		n := len(part.runes)
-		if !prefix {
-			if n != len(runes) {
-				return false
-			}
-		} else {
-			if n > len(runes) {
-				return false
-			}
+		if n > len(runes) {
+			return false
 		}
 		for j := 0; j < n; j++ {
 			if runes[j] != part.runes[j] {
 				return false
 			}
 		}
-		return true
+		return c.matchRunesFrom(i+1, runes[n:])
 	default:
 		panic(fmt.Errorf("unknown expr kind: %v", part.kind))
 	}
-- 
2.43.0


From eca589cbb38a882e9a323b81eaec4cd140d89b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:44 +0000
Subject: [PATCH 54/71] fix: do not keep collecting traces after a run with
 --strace

The flags of a run are written into .xgo/gen/modules, and the next
run without any of them left them there.
---
 instrument/instrument_xgo_runtime/link.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/instrument/instrument_xgo_runtime/link.go b/instrument/instrument_xgo_runtime/link.go
index 9112816..0626056 100644
--- a/instrument/instrument_xgo_runtime/link.go
+++ b/instrument/instrument_xgo_runtime/link.go
@@ -187,9 +187,13 @@ func LinkXgoRuntime(goroot string, projectDir string, xgoRuntimeModuleDir string
 			absFile := overlay.AbsFile(loadFile.AbsPath)
 			switch loadFile.Name {
 			case constants.FLAG_FILE:
-				if suffixPkg == constants.RUNTIME_TRAP_FLAGS_PKG[n:] && (collectTestTrace || collectTestTraceDir != "" || xgoRaceSafe) {
+				if suffixPkg == constants.RUNTIME_TRAP_FLAGS_PKG[n:] {
+					// the file may still have the flags of an earlier run,
+					// so they are also set when they are all off
 					flagsContent := InjectFlags(strutil.ToReadonlyString(content), collectTestTrace, collectTestTraceDir, xgoRaceSafe)
-					overrideContent(absFile, flagsContent)
+					if flagsContent != strutil.ToReadonlyString(content) {
+						overrideContent(absFile, flagsContent)
+					}
 				}
 			case constants.TRACE_FILE:
 				if suffixPkg == constants.RUNTIME_TRACE_PKG[n:] {
-- 
2.43.0


From c9b24f3c13841709e44a12d1322357ec417828ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:07 +0000
Subject: [PATCH 55/71] fix: do not add the runtime to the project's go.mod
 while checking its version

---
 instrument/instrument_xgo_runtime/parse.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/instrument/instrument_xgo_runtime/parse.go b/instrument/instrument_xgo_runtime/parse.go
index a49ba11..658be74 100644
--- a/instrument/instrument_xgo_runtime/parse.go
+++ b/instrument/instrument_xgo_runtime/parse.go
@@ -15,6 +15,12 @@ import (
 )
 
 func CheckRuntimeLegacyVersion(projectDir string, overlayFS overlay.Overlay, mod string, modfile string) (bool, string, error) {
+	// with -mod=mod, go list adds a requirement on the runtime
+	// to go.mod when it is missing
+	readonly := mod == "mod" || (mod == "" && hasGoFlag("-mod=mod", "--mod=mod"))
+	if readonly {
+		mod = "readonly"
+	}
 	opts := load.LoadOptions{
 		Dir:     projectDir,
 		Overlay: overlayFS,
@@ -25,6 +31,10 @@ func CheckRuntimeLegacyVersion(projectDir string, overlayFS overlay.Overlay, mod
 		constants.RUNTIME_CORE_PKG,
 	}, opts)
 	if err != nil {
+		if readonly {
+			// go.mod is to be updated by the build
+			return false, "", nil
+		}
 		return false, "", err
 	}
 	var foundCorePkg *load.Package
@@ -58,6 +68,17 @@ func CheckRuntimeLegacyVersion(projectDir string, overlayFS overlay.Overlay, mod
 	return true, coreVersion, nil
 }
 
+func hasGoFlag(flags ...string) bool {
+	for _, goFlag := range strings.Fields(os.Getenv("GOFLAGS")) {
+		for _, flag := range flags {
+			if goFlag == flag {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func isDeprecatedCoreVersion(coreVersion string) bool {
 	return strings.HasPrefix(coreVersion, "1.0.")
 }
-- 
2.43.0


From 9cb513bcd8a37adac4b16177cb9781e9e812799c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:19 +0000
Subject: [PATCH 56/71] fix: the sums of -modfile alt.mod are in alt.sum

---
 cmd/xgo/trace.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/trace.go b/cmd/xgo/trace.go
index e12e0af..f2c9184 100644
--- a/cmd/xgo/trace.go
+++ b/cmd/xgo/trace.go
@@ -299,8 +299,8 @@ func loadDependency(goroot string, goBinary string, goVersion *goinfo.GoVersion,
 	}
 
 	// Copy go.sum alongside go.mod so -modfile can find it
-	goSum := strings.TrimSuffix(goMod, "go.mod") + "go.sum"
-	tmpGoSum := strings.TrimSuffix(tmpGoMod, "go.mod") + "go.sum"
+	goSum := strings.TrimSuffix(goMod, ".mod") + ".sum"
+	tmpGoSum := strings.TrimSuffix(tmpGoMod, ".mod") + ".sum"
 	_ = filecopy.CopyFileAll(goSum, tmpGoSum) // best-effort: go.sum may not exist
 
 	// use -modfile ?
-- 
2.43.0


From bdc6391fb140ee474c421e08eb9e3908158c5e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:20 +0000
Subject: [PATCH 57/71] fix: find the root and the vendor dir of the module
 from its subdirectories

---
 cmd/xgo/main.go  |  5 +----
 cmd/xgo/trace.go | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/cmd/xgo/main.go b/cmd/xgo/main.go
index d797dcf..9511fd2 100644
--- a/cmd/xgo/main.go
+++ b/cmd/xgo/main.go
@@ -284,10 +284,7 @@ func handleBuild(cmd string, args []string) error {
 			return err
 		}
 	}
-	projectRootDir := projectDir
-	for i, n := 0, len(subPaths); i < n; i++ {
-		projectRootDir = filepath.Dir(projectRootDir)
-	}
+	projectRootDir := getProjectRoot(projectDir, subPaths)
 
 	// generate at .xgo/gen
 	// and add .xgo/gen to .gitignore
diff --git a/cmd/xgo/trace.go b/cmd/xgo/trace.go
index f2c9184..9179a71 100644
--- a/cmd/xgo/trace.go
+++ b/cmd/xgo/trace.go
@@ -38,6 +38,13 @@ type importResult struct {
 func getProjectRoot(projectDir string, modRootRel []string) string {
 	projectRoot := projectDir
 	n := len(modRootRel)
+	if n > 0 {
+		// "", "." and ".." have no parent by name
+		absDir, err := filepath.Abs(projectDir)
+		if err == nil {
+			projectRoot = absDir
+		}
+	}
 	for i := 0; i < n; i++ {
 		projectRoot = filepath.Dir(projectRoot)
 	}
@@ -78,7 +85,11 @@ func importRuntimeDepGenOverlay(test bool, goroot string, goBinary string, goVer
 	}
 	var vendorDir string
 	if mod == "vendor" || mod == "" {
-		vendorDir, err = getVendorDir(projectDir)
+		absProjectRoot, err := filepath.Abs(projectRoot)
+		if err != nil {
+			return nil, err
+		}
+		vendorDir, err = getVendorDir(absProjectRoot)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From a35dd68c7ed4c10f2380cf11011822ba6dfa0e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:20 +0000
Subject: [PATCH 58/71] fix: connect the standard input of the program

---
 cmd/xgo/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/xgo/main.go b/cmd/xgo/main.go
index 9511fd2..f8470ab 100644
--- a/cmd/xgo/main.go
+++ b/cmd/xgo/main.go
@@ -1103,6 +1103,7 @@ xgo will try best to compile with newer xgo/runtime v%s, it's recommended to upg
 		execCmd.Dir = projectDir
 	}
 	execCmd.Env = execCmdEnv
+	execCmd.Stdin = os.Stdin
 	execCmd.Stdout = os.Stdout
 	execCmd.Stderr = os.Stderr
 	logDebug("command executable path: %v", execCmd.Path)
-- 
2.43.0


From 28fcb74d36b616e04cfcc0c69f66b0af75f89281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:27 +0000
Subject: [PATCH 59/71] fix: read command lines of go build, go run and go test
 as go does

---
 cmd/xgo/main.go   |  39 ++++++--
 cmd/xgo/option.go | 248 ++++++++++++++++++++++++++++++++++++++--------
 cmd/xgo/trace.go  |  10 +-
 3 files changed, 240 insertions(+), 57 deletions(-)

diff --git a/cmd/xgo/main.go b/cmd/xgo/main.go
index f8470ab..4af08e1 100644
--- a/cmd/xgo/main.go
+++ b/cmd/xgo/main.go
@@ -156,11 +156,26 @@ func handleBuild(cmd string, args []string) error {
 	cmdExec := cmd == "exec"
 	cmdSetup := cmd == "setup"
 	var xgoFlags []string
+	var err error
 	actualArgs := args
+	if !cmdExec && !cmdSetup {
+		// as with go, -C dir comes first and applies before anything else
+		var changeDir string
+		changeDir, actualArgs, err = cutChangeDir(args)
+		if err != nil {
+			return err
+		}
+		if changeDir != "" {
+			err := os.Chdir(changeDir)
+			if err != nil {
+				return err
+			}
+		}
+	}
 	if !cmdExec {
 		// exec does not consume XGO_FLAGS
 		xgoFlags = parseXgoFlags(os.Getenv(exec_tool.XGO_FLAGS))
-		actualArgs = append(xgoFlags, args...)
+		actualArgs = append(xgoFlags, actualArgs...)
 	}
 	opts, err := parseOptions(cmd, actualArgs)
 	if err != nil {
@@ -686,7 +701,7 @@ func handleBuild(cmd string, args []string) error {
 			// make modfile absolute
 			modfile, err = filepath.Abs(modfile)
 			if err != nil {
-				return nil
+				return err
 			}
 		}
 		instrumentGo := filepath.Join(instrumentGoroot, "bin", "go"+osinfo.EXE_SUFFIX)
@@ -753,7 +768,7 @@ xgo will try best to compile with newer xgo/runtime v%s, it's recommended to upg
 		needLocalRuntime := goVersion.Minor >= 25
 		if enableStackTrace || needUpgrade || needLocalRuntime {
 			// check if xgo/runtime ready
-			impResult, impRuntimeErr := importRuntimeDepGenOverlay(cmdTest, instrumentGoroot, instrumentGo, goVersion, modfile, realXgoSrc, projectDir, projectRoot, localXgoGenDir, mainModule, mod, resetInstrument || flagA, needUpgrade || needLocalRuntime, remainArgs)
+			impResult, impRuntimeErr := importRuntimeDepGenOverlay(cmd, instrumentGoroot, instrumentGo, goVersion, modfile, realXgoSrc, projectDir, projectRoot, localXgoGenDir, mainModule, mod, resetInstrument || flagA, needUpgrade || needLocalRuntime, remainArgs)
 			if impRuntimeErr != nil {
 				// can be silently ignored
 				if enableStackTrace {
@@ -806,10 +821,12 @@ xgo will try best to compile with newer xgo/runtime v%s, it's recommended to upg
 		var mayHaveCover bool
 		// example:
 		//    -cover -coverpkg github.com/xhd2015/xgo/... -coverprofile cover.out
-		for _, arg := range args {
-			if strings.HasPrefix(arg, "-cover") {
-				mayHaveCover = true
-				break
+		for _, args := range [][]string{remainArgs, buildFlags, strings.Fields(os.Getenv("GOFLAGS"))} {
+			for _, arg := range args {
+				if strings.HasPrefix(goFlagName(cmd, arg), "cover") && strings.HasPrefix(arg, "-") {
+					mayHaveCover = true
+					break
+				}
 			}
 		}
 
@@ -949,9 +966,9 @@ xgo will try best to compile with newer xgo/runtime v%s, it's recommended to upg
 			execCmdEnv = append(execCmdEnv, exec_tool.XGO_UNIFIEDTEST+"=true")
 		}
 
-		if cmdBuild || (cmdTest && flagC) || debugMode {
+		if cmdBuild || (cmdTest && flagC) || debugMode || output != "" {
 			// output
-			if !debugMode && noBuildOutput {
+			if !debugMode && noBuildOutput && (cmdBuild || flagC) {
 				discardOut := filepath.Join(sessionTmpDir, "discard.out")
 				buildCmdArgs = append(buildCmdArgs, "-o", discardOut)
 			} else if output != "" {
@@ -962,6 +979,10 @@ xgo will try best to compile with newer xgo/runtime v%s, it's recommended to upg
 					if err != nil {
 						return fmt.Errorf("make output absolute: %w", err)
 					}
+					if strings.HasSuffix(output, "/") || strings.HasSuffix(output, string(filepath.Separator)) {
+						// to go this is a directory even if it does not exist
+						absOutput += string(filepath.Separator)
+					}
 					finalBuildOutput = absOutput
 				}
 			} else if debugMode {
diff --git a/cmd/xgo/option.go b/cmd/xgo/option.go
index 538311d..7dc99de 100644
--- a/cmd/xgo/option.go
+++ b/cmd/xgo/option.go
@@ -3,6 +3,7 @@ package main
 import (
 	"fmt"
 	"os"
+	"strconv"
 	"strings"
 
 	"github.com/xhd2015/xgo/support/flag"
@@ -204,6 +205,9 @@ func parseOptions(cmd string, args []string) (*options, error) {
 
 	nArg := len(args)
 
+	// set when the value of a flag is bad
+	var flagErr error
+
 	type FlagValue struct {
 		Flags  []string
 		Value  *string
@@ -330,7 +334,14 @@ func parseOptions(cmd string, args []string) (*options, error) {
 			Flags:  []string{"--xgo-race-safe"},
 			Single: true,
 			Set: func(v string) {
-				xgoRaceSafe = v == "" || v == "true"
+				switch v {
+				case "", "true", "on", "1":
+					xgoRaceSafe = true
+				case "false", "off", "0":
+					xgoRaceSafe = false
+				default:
+					flagErr = fmt.Errorf("unrecognized value %s: %s, expects on|off", "--xgo-race-safe", v)
+				}
 			},
 		},
 	}
@@ -376,49 +387,71 @@ func parseOptions(cmd string, args []string) (*options, error) {
 				} else if v == "false" {
 					unified = false
 				} else {
-					panic(fmt.Errorf("unrecognized value %s: %s, expects <empty>,true or false", "--unified", v))
+					flagErr = fmt.Errorf("unrecognized value %s: %s, expects <empty>,true or false", "--unified", v)
 				}
 			},
 		})
 	}
 
+	// go test ends the list of packages at the first flag
+	// after it, or at a flag it does not know. What is not
+	// a flag after that is for the test binary, with all that follows
+	var testPkgSeen bool
+	var testPkgDone bool
+
 	for i := 0; i < nArg; i++ {
 		arg := args[i]
-		if !strings.HasPrefix(arg, "-") {
+		// to go, - is not a flag
+		if !strings.HasPrefix(arg, "-") || arg == "-" {
 			if cmd == "run" || cmd == "exec" {
 				// run and exec consumes all remaining args
 				remainArgs = append(remainArgs, args[i:]...)
 				break
 			}
+			if cmd == "test" {
+				if testPkgDone {
+					testArgs = append(testArgs, args[i:]...)
+					break
+				}
+				testPkgSeen = true
+			}
 			remainArgs = append(remainArgs, arg)
 			continue
 		}
+		if testPkgSeen {
+			// flags of xgo are not seen by go test
+			name := arg
+			if eqIdx := strings.Index(name, "="); eqIdx >= 0 {
+				name = name[:eqIdx]
+			}
+			if isGoBoolFlag(cmd, name) || isGoValueFlag(cmd, name) {
+				testPkgDone = true
+			}
+		}
 		if cmd == "test" && (arg == "-args" || arg == "--args") {
 			// pass everything after -args to test binary
 			testArgs = append(testArgs, args[i+1:]...)
 			break
 		}
 		if arg == "--" {
+			if cmd == "test" {
+				// to go test, this and everything after are arguments of the test binary
+				testArgs = append(testArgs, args[i:]...)
+				break
+			}
 			remainArgs = append(remainArgs, args[i+1:]...)
 			break
 		}
-		if arg == "-" {
-			return nil, fmt.Errorf("unrecognized flag: %s", arg)
-		}
-		if arg == "-a" || arg == "--a" {
-			flagA = true
+		if ok := tryParseGoBoolFlag("a", &flagA, arg); ok {
 			continue
 		}
-		if arg == "-x" || arg == "--x" {
-			flagX = true
+		if ok := tryParseGoBoolFlag("x", &flagX, arg); ok {
 			continue
 		}
-		if arg == "-c" || arg == "--c" {
-			flagC = true
+		if ok := tryParseGoBoolFlag("c", &flagC, arg); ok {
 			continue
 		}
-		if arg == "-v" || arg == "--v" {
-			flagV = true
+		if ok := tryParseGoBoolFlag("v", &flagV, arg); ok {
 			continue
 		}
 		if arg == "--log-compile" {
@@ -510,7 +543,10 @@ func parseOptions(cmd string, args []string) (*options, error) {
 			continue
 		}
 
-		argVal, ok := parseStackTraceFlag(arg)
+		argVal, ok, err := parseStackTraceFlag(arg)
+		if err != nil {
+			return nil, err
+		}
 		if ok {
 			stackTrace = argVal
 			continue
@@ -526,8 +562,10 @@ func parseOptions(cmd string, args []string) (*options, error) {
 		if trapStdlibFlag != "" {
 			if trapStdlibVal == "" || trapStdlibVal == "true" {
 				trapStdlib = true
-			} else {
+			} else if trapStdlibVal == "false" {
 				trapStdlib = false
+			} else {
+				return nil, fmt.Errorf("--trap-stdlib expects true or false, got %q", trapStdlibVal)
 			}
 			continue
 		}
@@ -536,8 +574,10 @@ func parseOptions(cmd string, args []string) (*options, error) {
 		if trapAllFlag != "" {
 			if trapAllVal == "" || trapAllVal == "true" {
 				trapAll = "true"
-			} else {
+			} else if trapAllVal == "false" {
 				trapAll = "false"
+			} else {
+				return nil, fmt.Errorf("--trap-all expects true or false, got %q", trapAllVal)
 			}
 			continue
 		}
@@ -566,6 +606,9 @@ func parseOptions(cmd string, args []string) (*options, error) {
 				break
 			}
 		}
+		if flagErr != nil {
+			return nil, flagErr
+		}
 		if found {
 			continue
 		}
@@ -577,11 +620,35 @@ func parseOptions(cmd string, args []string) (*options, error) {
 			eqIdx := strings.Index(arg, "=")
 			if eqIdx >= 0 {
 				// things like -count=0
+				if cmd == "test" && !isGoBoolFlag(cmd, arg[:eqIdx]) && !isGoValueFlag(cmd, arg[:eqIdx]) {
+					// a flag of the test binary
+					testPkgDone = true
+				}
+				remainArgs = append(remainArgs, arg)
+				continue
+			}
+			if isGoBoolFlag(cmd, arg) {
+				// -race
+				remainArgs = append(remainArgs, arg)
+				continue
+			}
+			if isGoValueFlag(cmd, arg) {
+				// -count 0, -ldflags -v
+				// whatever the value is, go takes it as the value
+				if i+1 >= nArg {
+					return nil, fmt.Errorf("flag %s requires value", arg)
+				}
+				remainArgs = append(remainArgs, arg, args[i+1])
+				i++
+				continue
+			}
+			if cmd == "test" {
+				// a flag of the test binary
+				testPkgDone = true
 				remainArgs = append(remainArgs, arg)
 				continue
 			}
 			if i+1 < nArg && !strings.HasPrefix(args[i+1], "-") {
-				// -count 0
 				// check if next arg starts with "-" (i.e. an option)
 				remainArgs = append(remainArgs, arg, args[i+1])
 				i++
@@ -740,7 +807,7 @@ func tryParseEqSuffixValue(flag string, arg string) (string, bool) {
 	return suffix[1:], true
 }
 
-func parseStackTraceFlag(arg string) (string, bool) {
+func parseStackTraceFlag(arg string) (string, bool, error) {
 	var stackTracePrefix string
 	if strings.HasPrefix(arg, "--strace") {
 		stackTracePrefix = "--strace"
@@ -748,22 +815,22 @@ func parseStackTraceFlag(arg string) (string, bool) {
 		stackTracePrefix = "--stack-trace"
 	}
 	if stackTracePrefix == "" {
-		return "", false
+		return "", false, nil
 	}
 	if len(arg) == len(stackTracePrefix) {
-		return "on", true
+		return "on", true, nil
 	}
 	if arg[len(stackTracePrefix)] != '=' {
-		return "", false
+		return "", false, nil
 	}
 	val := arg[len(stackTracePrefix)+1:]
 	if val == "" || val == "on" || val == "true" {
-		return "on", true
+		return "on", true, nil
 	}
 	if val == "off" || val == "false" {
-		return "off", true
+		return "off", true, nil
 	}
-	panic(fmt.Errorf("unrecognized value %s: %s, expects on|off", arg, val))
+	return "", false, fmt.Errorf("unrecognized value %s: %s, expects on|off", arg, val)
 }
 
 func resolveUseFilePatches(explicit *bool, goVersion *goinfo.GoVersion) (value bool, warning string, err error) {
@@ -791,37 +858,132 @@ func resolveUseFilePatches(explicit *bool, goVersion *goinfo.GoVersion) (value b
 	return false, "", nil
 }
 
-func getPkgArgs(args []string) []string {
+// flags of go build, go run and go test that take no value
+var goBoolFlags = map[string]bool{
+	"a": true, "n": true, "race": true, "msan": true, "asan": true, "cover": true,
+	"v": true, "work": true, "x": true, "buildvcs": true, "json": true, "linkshared": true,
+	"modcacherw": true, "trimpath": true, "i": true,
+}
+
+var goTestBoolFlags = map[string]bool{
+	"c": true, "artifacts": true, "benchmem": true, "failfast": true, "fullpath": true, "short": true,
+}
+
+// flags of go build, go run and go test that require a value
+var goValueFlags = map[string]bool{
+	"C": true, "p": true, "covermode": true, "coverpkg": true, "asmflags": true, "buildmode": true,
+	"compiler": true, "gccgoflags": true, "gcflags": true, "installsuffix": true, "ldflags": true,
+	"mod": true, "modfile": true, "overlay": true, "pgo": true, "pkgdir": true, "tags": true,
+	"toolexec": true, "o": true, "exec": true,
+	"debug-actiongraph": true, "debug-runtime-trace": true, "debug-trace": true,
+}
+
+var goTestValueFlags = map[string]bool{
+	"bench": true, "benchtime": true, "blockprofile": true, "blockprofilerate": true, "count": true,
+	"coverprofile": true, "cpu": true, "cpuprofile": true, "fuzz": true, "fuzzminimizetime": true, "fuzztime": true,
+	"list": true, "memprofile": true, "memprofilerate": true, "mutexprofile": true, "mutexprofilefraction": true,
+	"outputdir": true, "parallel": true, "run": true, "shuffle": true, "skip": true, "timeout": true,
+	"trace": true, "vet": true,
+}
+
+// goFlagName strips the leading dashes, -flag and --flag are the same,
+// so are -run and -test.run for go test
+func goFlagName(cmd string, arg string) string {
+	name := strings.TrimPrefix(strings.TrimPrefix(arg, "-"), "-")
+	if cmd == "test" && strings.HasPrefix(name, "test.") {
+		testName := name[len("test."):]
+		if testName == "v" || testName == "cover" || (goTestBoolFlags[testName] && testName != "c") || goTestValueFlags[testName] {
+			return testName
+		}
+	}
+	return name
+}
+
+func isGoBoolFlag(cmd string, arg string) bool {
+	name := goFlagName(cmd, arg)
+	return goBoolFlags[name] || (cmd == "test" && goTestBoolFlags[name])
+}
+
+func isGoValueFlag(cmd string, arg string) bool {
+	name := goFlagName(cmd, arg)
+	return goValueFlags[name] || (cmd == "test" && goTestValueFlags[name])
+}
+
+// parse: -f, --f, -f=true, --f=false. Other values are
+// left to go, such as -v=test2json
+func tryParseGoBoolFlag(name string, pval *bool, arg string) bool {
+	for _, flag := range []string{"-" + name, "--" + name} {
+		if arg == flag {
+			*pval = true
+			return true
+		}
+		if strings.HasPrefix(arg, flag+"=") {
+			val, err := strconv.ParseBool(arg[len(flag)+1:])
+			if err != nil {
+				return false
+			}
+			*pval = val
+			return true
+		}
+	}
+	return false
+}
+
+// cutChangeDir cuts the leading -C dir, which go requires to be the first flag
+func cutChangeDir(args []string) (dir string, remain []string, err error) {
+	if len(args) == 0 {
+		return "", args, nil
+	}
+	for _, flag := range []string{"-C", "--C"} {
+		if args[0] == flag {
+			if len(args) == 1 {
+				return "", nil, fmt.Errorf("flag %s requires value", flag)
+			}
+			return args[1], args[2:], nil
+		}
+		if strings.HasPrefix(args[0], flag+"=") {
+			return args[0][len(flag)+1:], args[1:], nil
+		}
+	}
+	return "", args, nil
+}
+
+// getPkgArgs returns the packages, or files, among args
+func getPkgArgs(cmd string, args []string) []string {
 	n := len(args)
 	newArgs := make([]string, 0, n)
 	for i := 0; i < n; i++ {
 		arg := args[i]
 		if !strings.HasPrefix(arg, "-") {
-			// stop at first non-arg
-			newArgs = append(newArgs, args[i:]...)
+			if cmd != "run" {
+				newArgs = append(newArgs, arg)
+				continue
+			}
+			// go run takes leading go files or one package,
+			// the rest are arguments of the program
+			newArgs = append(newArgs, arg)
+			if strings.HasSuffix(arg, ".go") {
+				for i+1 < n && strings.HasSuffix(args[i+1], ".go") {
+					i++
+					newArgs = append(newArgs, args[i])
+				}
+			}
 			break
 		}
-		if arg == "-args" {
-			// go test -args: pass everything after to underlying program
+		if cmd == "test" && len(newArgs) > 0 {
+			// go test: packages end at the next flag
 			break
 		}
-		eqIdx := strings.Index(arg, "=")
-		if eqIdx >= 0 {
+		if strings.Contains(arg, "=") || isGoBoolFlag(cmd, arg) {
 			// self hosted arg
 			continue
 		}
-		// make --opt equivalent with -opt
-		if strings.HasPrefix(arg, "--") {
-			arg = arg[1:]
-		}
-		switch arg {
-		case "-a", "-n", "-race", "-masan", "-asan", "-cover", "-v", "-work", "-x", "-linkshared", "-buildvcs", // shared among build,test,run
-			"-args", "-c", "-json": // -json for test
-			// zero arg
-		default:
-			// 1 arg
-			i++
+		if cmd == "test" && !isGoValueFlag(cmd, arg) {
+			// a flag of the test binary, which ends the packages
+			break
 		}
+		// 1 arg
+		i++
 	}
 	return newArgs
 }
diff --git a/cmd/xgo/trace.go b/cmd/xgo/trace.go
index 9179a71..4d0ef84 100644
--- a/cmd/xgo/trace.go
+++ b/cmd/xgo/trace.go
@@ -74,7 +74,7 @@ func getVendorDir(projectRoot string) (string, error) {
 // by employing this technique with -modfile=replacedModFile, we can instruct go
 // to build with different modules.
 // TODO: may apply tags
-func importRuntimeDepGenOverlay(test bool, goroot string, goBinary string, goVersion *goinfo.GoVersion, absModFile string, xgoSrc string, projectDir string, projectRoot string, localXgoGenDir string, mainModule string, mod string, forceCopyRuntime bool, forceLoad bool, args []string) (*importResult, error) {
+func importRuntimeDepGenOverlay(cmd string, goroot string, goBinary string, goVersion *goinfo.GoVersion, absModFile string, xgoSrc string, projectDir string, projectRoot string, localXgoGenDir string, mainModule string, mod string, forceCopyRuntime bool, forceLoad bool, args []string) (*importResult, error) {
 	if mainModule == "" {
 		// only work with module
 		return nil, nil
@@ -151,14 +151,14 @@ func importRuntimeDepGenOverlay(test bool, goroot string, goBinary string, goVer
 		}
 	}
 
-	pkgArgs := getPkgArgs(args)
+	pkgArgs := getPkgArgs(cmd, args)
 	var fileReplace map[string]string
 	if mainModule != constants.RUNTIME_MODULE {
 		// When building xgo/runtime itself, skip blank import injection.
 		// The runtime module already compiles all its packages; injecting
 		// import _ "runtime/trace" creates a cycle: core → trace → internal/trap → core.
 		// See patches/go1.25/issues/RUNTIME_LIB_SELF_REQUIRE.md
-		fileReplace, err = addBlankImports(goroot, goBinary, projectDir, pkgArgs, test, overlayDir)
+		fileReplace, err = addBlankImports(goroot, goBinary, projectDir, pkgArgs, overlayDir)
 		if err != nil {
 			return nil, err
 		}
@@ -552,9 +552,9 @@ func isLocalReplace(modPath string) bool {
 	return false
 }
 
-func addBlankImports(goroot string, goBinary string, projectDir string, pkgArgs []string, test bool, tmpProjectDir string) (replace map[string]string, err error) {
+func addBlankImports(goroot string, goBinary string, projectDir string, pkgArgs []string, tmpProjectDir string) (replace map[string]string, err error) {
 	// list files, add init
-	// NOTE: go build tag applies,
+	// NOTE: go build tag applies
 	// ignored files will be placed to IgnoredGoFiles
 
 	// meanings:
-- 
2.43.0


From 68f41d3570e1955342853f1a0fd105fafbf18a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:27 +0000
Subject: [PATCH 60/71] fix: instrument the files selected by -tags, -overlay
 and -race

---
 cmd/xgo/instrument.go   |  3 ++-
 cmd/xgo/main.go         |  6 ++++--
 cmd/xgo/option.go       | 40 ++++++++++++++++++++++++++++++++++++++++
 cmd/xgo/trace.go        |  9 +++++----
 instrument/load/load.go |  5 +++++
 support/goinfo/list.go  |  7 +++++--
 6 files changed, 61 insertions(+), 9 deletions(-)

diff --git a/cmd/xgo/instrument.go b/cmd/xgo/instrument.go
index ce89b38..b43e0e5 100644
--- a/cmd/xgo/instrument.go
+++ b/cmd/xgo/instrument.go
@@ -50,7 +50,7 @@ type instrumentResult struct {
 // goroot is critical for stdlib
 // includeAsMainModules: extra module paths treated as main for mock/trap (option B:
 // reclassify packages already on the load graph; do not bulk-load module/...).
-func instrumentUserCode(goroot string, projectDir string, projectRoot string, goVersion *goinfo.GoVersion, xgoSrc string, mod string, modfile string, mainModule string, includeAsMainModules []string, xgoRuntimeModuleDir string, mayHaveCover bool, overlayFS overlay.Overlay, includeTest bool, rules []Rule, trapPkgs []string, trapAll string, collectTestTrace bool, collectTestTraceDir string, xgoRaceSafe bool, goFlag bool, triedUpgrade bool) (*instrumentResult, error) {
+func instrumentUserCode(goroot string, projectDir string, projectRoot string, goVersion *goinfo.GoVersion, xgoSrc string, mod string, modfile string, listFlags []string, mainModule string, includeAsMainModules []string, xgoRuntimeModuleDir string, mayHaveCover bool, overlayFS overlay.Overlay, includeTest bool, rules []Rule, trapPkgs []string, trapAll string, collectTestTrace bool, collectTestTraceDir string, xgoRaceSafe bool, goFlag bool, triedUpgrade bool) (*instrumentResult, error) {
 	logDebug("instrumentUserSpace: mod=%s, modfile=%s, xgoRuntimeModuleDir=%s, includeTest=%v, collectTestTrace=%v, includeAsMainModules=%v", mod, modfile, xgoRuntimeModuleDir, includeTest, collectTestTrace, includeAsMainModules)
 	if mod == "" {
 		// check vendor dir
@@ -141,6 +141,7 @@ func instrumentUserCode(goroot string, projectDir string, projectRoot string, go
 			Overlay:         overlayFS,
 			IncludeTest:     includeTest,
 			ModFile:         modfile,
+			ListFlags:       listFlags,
 			MaxFileSize:     MAX_FILE_SIZE,
 			FilterErrorFile: true,
 			Goroot:          goroot,
diff --git a/cmd/xgo/main.go b/cmd/xgo/main.go
index 4af08e1..3b1338e 100644
--- a/cmd/xgo/main.go
+++ b/cmd/xgo/main.go
@@ -738,6 +738,8 @@ func handleBuild(cmd string, args []string) error {
 			callerOverlay = overlay.ParseGoOverlay(goOverlay, overlayPathOpts)
 			callerOverlay.ApplyFileRedirects(overlayFS)
 		}
+		listFlags := getListFlags(cmd, tags, overlayFile, buildFlags, remainArgs)
+
 		// TODO: remove this check once most clients are updated
 		needUpgrade, coreVersion, err := instrument_xgo_runtime.CheckRuntimeLegacyVersion(projectDir, overlayFS, mod, modfile)
 		if err != nil {
@@ -768,7 +770,7 @@ xgo will try best to compile with newer xgo/runtime v%s, it's recommended to upg
 		needLocalRuntime := goVersion.Minor >= 25
 		if enableStackTrace || needUpgrade || needLocalRuntime {
 			// check if xgo/runtime ready
-			impResult, impRuntimeErr := importRuntimeDepGenOverlay(cmd, instrumentGoroot, instrumentGo, goVersion, modfile, realXgoSrc, projectDir, projectRoot, localXgoGenDir, mainModule, mod, resetInstrument || flagA, needUpgrade || needLocalRuntime, remainArgs)
+			impResult, impRuntimeErr := importRuntimeDepGenOverlay(cmd, instrumentGoroot, instrumentGo, goVersion, modfile, realXgoSrc, projectDir, projectRoot, localXgoGenDir, mainModule, mod, listFlags, resetInstrument || flagA, needUpgrade || needLocalRuntime, remainArgs)
 			if impRuntimeErr != nil {
 				// can be silently ignored
 				if enableStackTrace {
@@ -841,7 +843,7 @@ xgo will try best to compile with newer xgo/runtime v%s, it's recommended to upg
 		if len(instrumentIncludeAsMain) == 0 {
 			instrumentIncludeAsMain = opts.MockRuleIncludeAsMainModule
 		}
-		instrumentUserCodeResult, err = instrumentUserCode(instrumentGoroot, projectDir, projectRoot, goVersion, realXgoSrc, modForLoad, modfileForLoad, mainModule, instrumentIncludeAsMain, xgoRuntimeModuleDir, mayHaveCover, overlayFS, cmdTest, opts.FilterRules, trapPkgs, trapAll, collectTestTrace, collectTestTraceDir, xgoRaceSafe, goFlag, needUpgrade)
+		instrumentUserCodeResult, err = instrumentUserCode(instrumentGoroot, projectDir, projectRoot, goVersion, realXgoSrc, modForLoad, modfileForLoad, listFlags, mainModule, instrumentIncludeAsMain, xgoRuntimeModuleDir, mayHaveCover, overlayFS, cmdTest, opts.FilterRules, trapPkgs, trapAll, collectTestTrace, collectTestTraceDir, xgoRaceSafe, goFlag, needUpgrade)
 		if err != nil {
 			return err
 		}
diff --git a/cmd/xgo/option.go b/cmd/xgo/option.go
index 7dc99de..5404153 100644
--- a/cmd/xgo/option.go
+++ b/cmd/xgo/option.go
@@ -948,6 +948,46 @@ func cutChangeDir(args []string) (dir string, remain []string, err error) {
 	return "", args, nil
 }
 
+// getListFlags returns the flags that go list needs
+// to find the same files as the build
+func getListFlags(cmd string, tags string, overlayFile string, buildFlags []string, remainArgs []string) []string {
+	var listFlags []string
+	if tags != "" {
+		listFlags = append(listFlags, "-tags="+tags)
+	}
+	if overlayFile != "" {
+		listFlags = append(listFlags, "-overlay="+overlayFile)
+	}
+	for _, args := range [][]string{buildFlags, remainArgs} {
+		for i := 0; i < len(args); i++ {
+			arg := args[i]
+			if !strings.HasPrefix(arg, "-") {
+				if cmd == "run" {
+					// program arguments
+					break
+				}
+				continue
+			}
+			name := goFlagName(cmd, arg)
+			if eqIdx := strings.Index(name, "="); eqIdx >= 0 {
+				name = name[:eqIdx]
+			}
+			switch name {
+			case "race", "msan", "asan", "compiler", "installsuffix":
+				if strings.Contains(arg, "=") || isGoBoolFlag(cmd, arg) {
+					listFlags = append(listFlags, arg)
+				} else if i+1 < len(args) {
+					listFlags = append(listFlags, arg+"="+args[i+1])
+				}
+			}
+			if !strings.Contains(arg, "=") && isGoValueFlag(cmd, arg) {
+				i++
+			}
+		}
+	}
+	return listFlags
+}
+
 // getPkgArgs returns the packages, or files, among args
 func getPkgArgs(cmd string, args []string) []string {
 	n := len(args)
diff --git a/cmd/xgo/trace.go b/cmd/xgo/trace.go
index 4d0ef84..ed3aa2e 100644
--- a/cmd/xgo/trace.go
+++ b/cmd/xgo/trace.go
@@ -74,7 +74,7 @@ func getVendorDir(projectRoot string) (string, error) {
 // by employing this technique with -modfile=replacedModFile, we can instruct go
 // to build with different modules.
 // TODO: may apply tags
-func importRuntimeDepGenOverlay(cmd string, goroot string, goBinary string, goVersion *goinfo.GoVersion, absModFile string, xgoSrc string, projectDir string, projectRoot string, localXgoGenDir string, mainModule string, mod string, forceCopyRuntime bool, forceLoad bool, args []string) (*importResult, error) {
+func importRuntimeDepGenOverlay(cmd string, goroot string, goBinary string, goVersion *goinfo.GoVersion, absModFile string, xgoSrc string, projectDir string, projectRoot string, localXgoGenDir string, mainModule string, mod string, listFlags []string, forceCopyRuntime bool, forceLoad bool, args []string) (*importResult, error) {
 	if mainModule == "" {
 		// only work with module
 		return nil, nil
@@ -158,7 +158,7 @@ func importRuntimeDepGenOverlay(cmd string, goroot string, goBinary string, goVe
 		// The runtime module already compiles all its packages; injecting
 		// import _ "runtime/trace" creates a cycle: core → trace → internal/trap → core.
 		// See patches/go1.25/issues/RUNTIME_LIB_SELF_REQUIRE.md
-		fileReplace, err = addBlankImports(goroot, goBinary, projectDir, pkgArgs, overlayDir)
+		fileReplace, err = addBlankImports(goroot, goBinary, projectDir, listFlags, pkgArgs, overlayDir)
 		if err != nil {
 			return nil, err
 		}
@@ -552,9 +552,9 @@ func isLocalReplace(modPath string) bool {
 	return false
 }
 
-func addBlankImports(goroot string, goBinary string, projectDir string, pkgArgs []string, tmpProjectDir string) (replace map[string]string, err error) {
+func addBlankImports(goroot string, goBinary string, projectDir string, listFlags []string, pkgArgs []string, tmpProjectDir string) (replace map[string]string, err error) {
 	// list files, add init
-	// NOTE: go build tag applies
+	// NOTE: go build tag applies, see listFlags
 	// ignored files will be placed to IgnoredGoFiles
 
 	// meanings:
@@ -562,6 +562,7 @@ func addBlankImports(goroot string, goBinary string, projectDir string, pkgArgs
 	//   XTestGoFiles      []string   // _test.go files outside package
 	// XTestGoFiles are files with another package name, such as api_test for api
 	listArgs := []string{"list", "-json"}
+	listArgs = append(listArgs, listFlags...)
 	listArgs = append(listArgs, pkgArgs...)
 	output, err := cmd.Dir(projectDir).Env([]string{
 		"GOROOT=" + goroot,
diff --git a/instrument/load/load.go b/instrument/load/load.go
index 0988579..9ef04d6 100644
--- a/instrument/load/load.go
+++ b/instrument/load/load.go
@@ -25,6 +25,10 @@ type LoadOptions struct {
 	ModFile     string // -modfile flag
 	Deps        bool   // -deps flag
 
+	// other flags of go list that select
+	// files, such as -tags, -race and -overlay
+	ListFlags []string
+
 	// max file size to parse
 	// if file size is larger than this
 	// see https://github.com/xhd2015/xgo/issues/303
@@ -73,6 +77,7 @@ func LoadPackages(args []string, opts LoadOptions) (*Packages, error) {
 		ModFile: modFile,
 		Goroot:  goroot,
 		Deps:    deps,
+		Flags:   opts.ListFlags,
 		Test:    false, // NOTE: don't set it
 	})
 	if err != nil {
diff --git a/support/goinfo/list.go b/support/goinfo/list.go
index 5f084ec..fd9614e 100644
--- a/support/goinfo/list.go
+++ b/support/goinfo/list.go
@@ -42,8 +42,10 @@ type LoadPackageOptions struct {
 	Mod     string
 	ModFile string // -modfile flag
 	Goroot  string // GOROOT env
-	Deps    bool   // -deps flag
-	Test    bool   // -test flag, if true, will have packages like "github.com/xhd2015/xgo/runtime/test/trap/inspect [github.com/xhd2015/xgo/runtime/test/trap/inspect.test]", so don't set it
+	// other flags that select files, such as -tags, -race and -overlay
+	Flags []string
+	Deps  bool // -deps flag
+	Test  bool // -test flag, if true, will have packages like "github.com/xhd2015/xgo/runtime/test/trap/inspect [github.com/xhd2015/xgo/runtime/test/trap/inspect.test]", so don't set it
 }
 
 // go list -e -json ./pkg
@@ -55,6 +57,7 @@ func ListPackages(args []string, opts LoadPackageOptions) ([]*Package, error) {
 	if opts.ModFile != "" {
 		flags = append(flags, "-modfile="+opts.ModFile)
 	}
+	flags = append(flags, opts.Flags...)
 	if opts.Deps {
 		flags = append(flags, "-deps")
 	}
-- 
2.43.0


From 04c031937a16ba15d012a1f4cfbd13d38b045934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:44 +0000
Subject: [PATCH 61/71] fix: separate the names in the sum of a package's
 instrumented functions

---
 cmd/xgo/instrument.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/xgo/instrument.go b/cmd/xgo/instrument.go
index b43e0e5..1cd1d87 100644
--- a/cmd/xgo/instrument.go
+++ b/cmd/xgo/instrument.go
@@ -360,12 +360,13 @@ func md5sumTraps(files []*compiler_extra.File, hasVarTrap bool) string {
 	h := md5.New()
 	for _, file := range files {
 		// assume files are stable
-		io.WriteString(h, file.Name)
+		// NOTE: names are separated, A and B are not AB
+		io.WriteString(h, "file:"+file.Name+"\n")
 		for _, fn := range file.Funcs {
-			io.WriteString(h, fn.IdentityName)
+			io.WriteString(h, "func:"+fn.IdentityName+"\n")
 		}
 		for _, intf := range file.Interfaces {
-			io.WriteString(h, intf.Name)
+			io.WriteString(h, "interface:"+intf.Name+"\n")
 		}
 	}
 	var v string = "v:0"
-- 
2.43.0


From 31bb0fc1562de1e37e6aa7396609c5e035a68fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:16 +0000
Subject: [PATCH 62/71] fix: do not take an interrupted extraction of the
 runtime as complete

---
 cmd/xgo/trace.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/trace.go b/cmd/xgo/trace.go
index ed3aa2e..b9a5ab2 100644
--- a/cmd/xgo/trace.go
+++ b/cmd/xgo/trace.go
@@ -267,11 +267,22 @@ func loadDependency(goroot string, goBinary string, goVersion *goinfo.GoVersion,
 			if err != nil {
 				return nil, err
 			}
-			err = instrument_embed.CopyDir(asset.RuntimeGenFS, asset.RuntimeGen, tmpRuntime, instrument_embed.CopyOptions{})
+			// an interrupted extraction must not be taken as complete
+			// by the next run
+			partialRuntime := tmpRuntime + ".partial"
+			err = os.RemoveAll(partialRuntime)
 			if err != nil {
 				return nil, err
 			}
-			err = os.Rename(filepath.Join(tmpRuntime, "go.mod.txt"), filepath.Join(tmpRuntime, "go.mod"))
+			err = instrument_embed.CopyDir(asset.RuntimeGenFS, asset.RuntimeGen, partialRuntime, instrument_embed.CopyOptions{})
+			if err != nil {
+				return nil, err
+			}
+			err = os.Rename(filepath.Join(partialRuntime, "go.mod.txt"), filepath.Join(partialRuntime, "go.mod"))
+			if err != nil {
+				return nil, err
+			}
+			err = os.Rename(partialRuntime, tmpRuntime)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 79192063c8664f6a32b83fb47eccf4fe5a5b7bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:57 +0000
Subject: [PATCH 63/71] fix: functions used as targets are instrumented
 whatever the quotas of --trap-all

A function of a dependency that is passed to mock.Patch and the like was not
instrumented if 16 functions above it in its file (or 96 in its package)
already were, which --trap-all or a reference of trap.AddInterceptor makes
common.
---
 instrument/instrument_func/trap.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/instrument/instrument_func/trap.go b/instrument/instrument_func/trap.go
index 8ff6713..7d22d62 100644
--- a/instrument/instrument_func/trap.go
+++ b/instrument/instrument_func/trap.go
@@ -67,6 +67,7 @@ func TrapFuncs(editor *goedit.Edit, pkgPath string, file *ast.File, fileIndex in
 
 	var funcInfos []*edit.FuncInfo
 	var extraFuncs []*compiler_extra.Func
+	var numQuotaFuncs int
 	// Visit all decls in the AST
 	for _, decl := range file.Decls {
 		funcDecl, ok := decl.(*ast.FuncDecl)
@@ -106,8 +107,9 @@ func TrapFuncs(editor *goedit.Edit, pkgPath string, file *ast.File, fileIndex in
 			config_debug.OnTrapFunc(pkgPath, funcDecl, identityName)
 		}
 
+		// referenced by mock.Patch and so on
+		var hitRecorder bool
 		if instrumentMode != config.InstrumentMode_All {
-			var hitRecorder bool
 			if recorder != nil {
 				var hasFnRecord bool
 				var hasTypeMethodRecord bool
@@ -160,9 +162,11 @@ func TrapFuncs(editor *goedit.Edit, pkgPath string, file *ast.File, fileIndex in
 			// take the first 100, see
 			//  - https://github.com/xhd2015/xgo/issues/333#issuecomment-2830937257
 			var addExtra bool
-			if instrumentMode == config.InstrumentMode_All {
+			if instrumentMode == config.InstrumentMode_All || hitRecorder {
+				// a function that is referenced is not subject to the quotas
 				addExtra = true
-			} else if len(extraFuncs) < config.MAX_EXTRA_FUNCS_PER_FILE {
+			} else if numQuotaFuncs < config.MAX_EXTRA_FUNCS_PER_FILE {
+				numQuotaFuncs++
 				if pkgQuota != nil {
 					n := *pkgQuota
 					if n <= 0 {
-- 
2.43.0


From b2e8ef4a3aa44eade95f1aba6e9ca126ff2933e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:28 +0000
Subject: [PATCH 64/71] fix: mock rules exclude what they say of the main
 module

A rule that excludes a part of the main module (one package, one name)
excluded all of it, also after a rule that includes it; and a rule that
excludes all of it left the package of the current directory and packages
that listed packages import.
---
 cmd/xgo/instrument.go | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/cmd/xgo/instrument.go b/cmd/xgo/instrument.go
index 1cd1d87..8669007 100644
--- a/cmd/xgo/instrument.go
+++ b/cmd/xgo/instrument.go
@@ -183,12 +183,19 @@ func instrumentUserCode(goroot string, projectDir string, projectRoot string, go
 			depOnlyCnt++
 		}
 		isXgo, allow := config.CheckInstrument(pkgPath)
+		if !includeMain && (!pkg.Initial || len(loadArgs) == 0) {
+			if _, ok := goinfo.PkgWithinModule(pkgPath, mainModule); ok {
+				// excluded by rules: only loaded as a dependency, or because
+				// go list without args loads the current directory
+				allow = false
+			}
+		}
 		if isXgo {
 			pkg.Xgo = true
 			xgoCnt++
 		}
+		pkg.AllowInstrument = allow
 		if allow {
-			pkg.AllowInstrument = true
 			allowCnt++
 		}
 	}
@@ -431,26 +438,30 @@ func hasFunc(pkg *edit.Package, fn string) bool {
 }
 
 func getLoadPackages(rules []Rule) (includeMain bool, packages []string, err error) {
-	var mainExcludueFunc bool
-	var mainExcludeVar bool
+	// the first rule decides
+	var mainFunc string
+	var mainVar string
 	for _, rule := range rules {
 		if rule.MainModule != nil && *rule.MainModule {
+			if rule.Pkg != nil || rule.Name != nil || rule.Stdlib != nil || rule.Generic != nil || rule.Exported != nil || rule.Closure != nil {
+				// only a part of the main module
+				continue
+			}
+			if rule.Action == "" {
+				continue
+			}
 			var kinds []string
 			if rule.Kind != nil {
 				kinds = splitCommaList(*rule.Kind)
 			}
-			if rule.Action == "exclude" {
-				if len(kinds) == 0 {
-					mainExcludueFunc = true
-					mainExcludeVar = true
-				} else {
-					for _, kind := range kinds {
-						if kind == "func" {
-							mainExcludueFunc = true
-						} else if kind == "var" {
-							mainExcludeVar = true
-						}
-					}
+			if len(kinds) == 0 {
+				kinds = []string{"func", "var"}
+			}
+			for _, kind := range kinds {
+				if kind == "func" && mainFunc == "" {
+					mainFunc = rule.Action
+				} else if kind == "var" && mainVar == "" {
+					mainVar = rule.Action
 				}
 			}
 			continue
@@ -494,7 +505,7 @@ func getLoadPackages(rules []Rule) (includeMain bool, packages []string, err err
 			}
 		}
 	}
-	return !(mainExcludueFunc && mainExcludeVar), packages, nil
+	return !(mainFunc == "exclude" && mainVar == "exclude"), packages, nil
 }
 
 func splitCommaList(s string) []string {
-- 
2.43.0


From 0d878eb47c5945e1cd6bb9ac8a7f074c13dfd3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:15 +0000
Subject: [PATCH 65/71] fix: what tracing does for itself is not seen by mocks
 and interceptors

---
 .../asset/runtime_gen/internal/trap/init.go   | 13 ++-
 .../runtime_gen/internal/trap/stack_data.go   | 18 +++++
 .../asset/runtime_gen/internal/trap/trap.go   | 81 ++++++++++++-------
 .../asset/runtime_gen/internal/trap/var.go    | 32 +++++---
 runtime/internal/trap/init.go                 | 13 ++-
 runtime/internal/trap/stack_data.go           | 18 +++++
 runtime/internal/trap/trap.go                 | 81 ++++++++++++-------
 runtime/internal/trap/var.go                  | 32 +++++---
 8 files changed, 194 insertions(+), 94 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/init.go b/cmd/xgo/asset/runtime_gen/internal/trap/init.go
index 9b29917..2ae2656 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/init.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/init.go
@@ -59,17 +59,16 @@ func inerhitStack(curG stack.G, newG stack.G) {
 
 	// associate trace
 	if stackData.hasStartedTracing {
-		// the time functions might be instrumented, they are not
-		// called by the program
-		runtime.GetG().IncTrappingDepth()
-		defer runtime.GetG().DecTrappingDepth()
-
 		newStackData.hasStartedTracing = true
 		newStackData.filterTrace = stackData.filterTrace
 
 		// Append under parent stack mutex so Export cannot race with Push/Top.
-		curStack.AppendGoChild(newStack.Begin.Sub(curStack.Begin).Nanoseconds(), func() *stack.Stack {
-			return newStack
+		// The time functions might be instrumented, they are not called by
+		// the program.
+		stackData.quietly(func() {
+			curStack.AppendGoChild(newStack.Begin.Sub(curStack.Begin).Nanoseconds(), func() *stack.Stack {
+				return newStack
+			})
 		})
 	}
 }
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go b/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
index bfa5196..4d84ce2 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
@@ -23,9 +23,27 @@ type StackData struct {
 
 	inspecting func(pc uintptr, funcInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{})
 
+	// quiet tells that the bookkeeping of tracing itself is running,
+	// whatever it calls is none of the user's calls
+	quiet bool
+
 	interceptors interceptorHolders
 }
 
+// quietly runs fn, with no call made by it being trapped
+func (c *StackData) quietly(fn func()) {
+	if c == nil {
+		fn()
+		return
+	}
+	prev := c.quiet
+	c.quiet = true
+	defer func() {
+		c.quiet = prev
+	}()
+	fn()
+}
+
 type interceptorHolders struct {
 	// pc->mock
 	mock       map[uintptr][]*mockHolder
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index 2317d1e..fe39bec 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -75,6 +75,9 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 			stackData.inspecting(pc, funcInfo, recvPtr, args, results)
 			return nil, true
 		}
+		if stackData.quiet {
+			return nil, false
+		}
 		begin = xgo_runtime.XgoRealTimeNow()
 		isTracing = stackData.hasStartedTracing
 	}
@@ -326,14 +329,17 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		copy(marshalNames[1:], argNamesNoCtx)
 		copy(marshalArgs[1:], argsNoCtx)
 	}
-	argsJSON := json.RawMessage(xgo_runtime.MarshalNoError(newStructValue(marshalNames, marshalArgs)))
-
-	// Push under stack mutex so Export cannot observe a half-built entry.
-	cur, oldTop := stk.PushNew(begin, name, func(cur *stack.Entry) {
-		cur.File = callFile
-		cur.Line = callLine
-		cur.FuncInfo = funcInfo
-		cur.Args = argsJSON
+	var cur, oldTop *stack.Entry
+	stackData.quietly(func() {
+		argsJSON := json.RawMessage(xgo_runtime.MarshalNoError(newStructValue(marshalNames, marshalArgs)))
+
+		// Push under stack mutex so Export cannot observe a half-built entry.
+		cur, oldTop = stk.PushNew(begin, name, func(cur *stack.Entry) {
+			cur.File = callFile
+			cur.Line = callLine
+			cur.FuncInfo = funcInfo
+			cur.Args = argsJSON
+		})
 	})
 
 	var hitMock bool
@@ -360,8 +366,13 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		var errStr string
 		// a function called from a deferred function also sees the panic,
 		// but it returns normally
-		if pe, retpc := xgo_runtime.XgoPeekPanic(); pe != nil && calledByPanic(3) {
-			hasPanic = true
+		pe, retpc := xgo_runtime.XgoPeekPanic()
+		if pe != nil {
+			stackData.quietly(func() {
+				hasPanic = calledByPanic(5)
+			})
+		}
+		if hasPanic {
 			// frame:
 			//   0: trap.trap
 			//   1: runtime.gopanic
@@ -402,17 +413,23 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 					break
 				}
 			}
-			errStr = fmt.Sprint(pe)
+			stackData.quietly(func() {
+				errStr = fmt.Sprint(pe)
+			})
 		}
 
 		resultNamesNoErr, resultsNoErr, resErr := trySplitLastError(resultNames, results)
-		resultsJSON := json.RawMessage(xgo_runtime.MarshalNoError(newStructValue(resultNamesNoErr, resultsNoErr)))
 		if !hasPanic && resErr != nil {
 			errStr = getErrMsg(resErr)
 		}
 
 		// Relative end time outside lock (time methods may trap / deadlock).
-		endNs := end.UnixNano() - stk.Begin.UnixNano()
+		var endNs int64
+		var resultsJSON json.RawMessage
+		stackData.quietly(func() {
+			resultsJSON = xgo_runtime.MarshalNoError(newStructValue(resultNamesNoErr, resultsNoErr))
+			endNs = end.UnixNano() - stk.Begin.UnixNano()
+		})
 		// finish under lock: entry fields + Top/Depth for race-free export
 		stk.Finish(cur, oldTop, end, isStartTracing, func(cur *stack.Entry) {
 			cur.EndNs = endNs
@@ -428,16 +445,16 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 			}
 		})
 		if isStartTracing {
-			exportedStack := stack.Export(stk, 0)
+			var exportedStack *stack_model.Stack
+			stackData.quietly(func() {
+				exportedStack = stack.Export(stk, 0)
+			})
 			if isTesting {
-				outputFile := filepath.Join(flags.COLLECT_TEST_TRACE_DIR, testName+".json")
-				os.MkdirAll(filepath.Dir(outputFile), 0755)
-
-				exportedStackJSON := xgo_runtime.MarshalNoError(exportedStack)
-				err := os.WriteFile(outputFile, exportedStackJSON, 0644)
-				if err != nil {
-					fmt.Fprintf(os.Stderr, "error writing stack: %v\n", err)
-				}
+				stackData.quietly(func() {
+					outputFile := filepath.Join(flags.COLLECT_TEST_TRACE_DIR, testName+".json")
+					os.MkdirAll(filepath.Dir(outputFile), 0755)
+					writeStack(outputFile, exportedStack)
+				})
 			} else {
 				if stackData.onFinish != nil {
 					stackData.onFinish(&StackDataExportImpl{
@@ -445,11 +462,9 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 					})
 				}
 				if stackData.stackOutputFile != "" {
-					exportedStackJSON := xgo_runtime.MarshalNoError(exportedStack)
-					err := os.WriteFile(stackData.stackOutputFile, exportedStackJSON, 0644)
-					if err != nil {
-						fmt.Fprintf(os.Stderr, "error writing stack: %v\n", err)
-					}
+					stackData.quietly(func() {
+						writeStack(stackData.stackOutputFile, exportedStack)
+					})
 				}
 			}
 			finishTracing(stackData)
@@ -465,6 +480,14 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	return post, false
 }
 
+func writeStack(file string, exportedStack *stack_model.Stack) {
+	exportedStackJSON := xgo_runtime.MarshalNoError(exportedStack)
+	err := os.WriteFile(file, exportedStackJSON, 0644)
+	if err != nil {
+		fmt.Fprintf(os.Stderr, "error writing stack: %v\n", err)
+	}
+}
+
 // callMock calls the mock, if it does not return then the function is left
 // right here, so run post.
 func callMock(mock func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool, funcInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}, post func()) bool {
@@ -531,7 +554,9 @@ func (c *StackDataExportImpl) JSON() ([]byte, error) {
 	if atomic.LoadInt32(&c.jsonCached) == 1 {
 		return c.json, nil
 	}
-	c.json = xgo_runtime.MarshalNoError(c.data)
+	getStackData().quietly(func() {
+		c.json = xgo_runtime.MarshalNoError(c.data)
+	})
 	atomic.StoreInt32(&c.jsonCached, 1)
 	return c.json, nil
 }
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/var.go b/cmd/xgo/asset/runtime_gen/internal/trap/var.go
index f56a793..cc7c7bc 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/var.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/var.go
@@ -20,6 +20,9 @@ func trapVar(infoPtr unsafe.Pointer, varAddr interface{}, res interface{}) {
 		return
 	}
 	stkData := getStackDataOf(stk)
+	if stkData != nil && stkData.quiet {
+		return
+	}
 	ptr := reflect.ValueOf(varAddr).Pointer()
 
 	recorders := stkData.getVarRecordHandlers(ptr)
@@ -54,6 +57,9 @@ func trapVarPtr(infoPtr unsafe.Pointer, varAddr interface{}, res interface{}) {
 		return
 	}
 	stkData := getStackDataOf(stk)
+	if stkData != nil && stkData.quiet {
+		return
+	}
 	ptr := reflect.ValueOf(varAddr).Pointer()
 
 	recorders := stkData.getVarPtrRecordHandlers(ptr)
@@ -151,17 +157,19 @@ func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, traci
 	}
 	_, file, line, _ := runtime.Caller(SKIP + 2)
 	end := xgo_runtime.XgoRealTimeNow()
-	endNs := end.UnixNano() - stk.Begin.UnixNano()
-	resultsJSON := json.RawMessage(xgo_runtime.MarshalValueNoError(res))
-	// Single locked push+finish so export cannot race with var trap records.
-	cur, oldTop := stk.PushNew(begin, funcInfo.Name, func(cur *stack.Entry) {
-		cur.File = file
-		cur.Line = line
-		cur.FuncInfo = funcInfo
-		cur.Results = resultsJSON
-	})
-	stk.Finish(cur, oldTop, end, false, func(cur *stack.Entry) {
-		cur.EndNs = endNs
-		cur.Finished = true
+	getStackDataOf(stk).quietly(func() {
+		endNs := end.UnixNano() - stk.Begin.UnixNano()
+		resultsJSON := json.RawMessage(xgo_runtime.MarshalValueNoError(res))
+		// Single locked push+finish so export cannot race with var trap records.
+		cur, oldTop := stk.PushNew(begin, funcInfo.Name, func(cur *stack.Entry) {
+			cur.File = file
+			cur.Line = line
+			cur.FuncInfo = funcInfo
+			cur.Results = resultsJSON
+		})
+		stk.Finish(cur, oldTop, end, false, func(cur *stack.Entry) {
+			cur.EndNs = endNs
+			cur.Finished = true
+		})
 	})
 }
diff --git a/runtime/internal/trap/init.go b/runtime/internal/trap/init.go
index 9b29917..2ae2656 100644
--- a/runtime/internal/trap/init.go
+++ b/runtime/internal/trap/init.go
@@ -59,17 +59,16 @@ func inerhitStack(curG stack.G, newG stack.G) {
 
 	// associate trace
 	if stackData.hasStartedTracing {
-		// the time functions might be instrumented, they are not
-		// called by the program
-		runtime.GetG().IncTrappingDepth()
-		defer runtime.GetG().DecTrappingDepth()
-
 		newStackData.hasStartedTracing = true
 		newStackData.filterTrace = stackData.filterTrace
 
 		// Append under parent stack mutex so Export cannot race with Push/Top.
-		curStack.AppendGoChild(newStack.Begin.Sub(curStack.Begin).Nanoseconds(), func() *stack.Stack {
-			return newStack
+		// The time functions might be instrumented, they are not called by
+		// the program.
+		stackData.quietly(func() {
+			curStack.AppendGoChild(newStack.Begin.Sub(curStack.Begin).Nanoseconds(), func() *stack.Stack {
+				return newStack
+			})
 		})
 	}
 }
diff --git a/runtime/internal/trap/stack_data.go b/runtime/internal/trap/stack_data.go
index bfa5196..4d84ce2 100644
--- a/runtime/internal/trap/stack_data.go
+++ b/runtime/internal/trap/stack_data.go
@@ -23,9 +23,27 @@ type StackData struct {
 
 	inspecting func(pc uintptr, funcInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{})
 
+	// quiet tells that the bookkeeping of tracing itself is running,
+	// whatever it calls is none of the user's calls
+	quiet bool
+
 	interceptors interceptorHolders
 }
 
+// quietly runs fn, with no call made by it being trapped
+func (c *StackData) quietly(fn func()) {
+	if c == nil {
+		fn()
+		return
+	}
+	prev := c.quiet
+	c.quiet = true
+	defer func() {
+		c.quiet = prev
+	}()
+	fn()
+}
+
 type interceptorHolders struct {
 	// pc->mock
 	mock       map[uintptr][]*mockHolder
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index 2317d1e..fe39bec 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -75,6 +75,9 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 			stackData.inspecting(pc, funcInfo, recvPtr, args, results)
 			return nil, true
 		}
+		if stackData.quiet {
+			return nil, false
+		}
 		begin = xgo_runtime.XgoRealTimeNow()
 		isTracing = stackData.hasStartedTracing
 	}
@@ -326,14 +329,17 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		copy(marshalNames[1:], argNamesNoCtx)
 		copy(marshalArgs[1:], argsNoCtx)
 	}
-	argsJSON := json.RawMessage(xgo_runtime.MarshalNoError(newStructValue(marshalNames, marshalArgs)))
-
-	// Push under stack mutex so Export cannot observe a half-built entry.
-	cur, oldTop := stk.PushNew(begin, name, func(cur *stack.Entry) {
-		cur.File = callFile
-		cur.Line = callLine
-		cur.FuncInfo = funcInfo
-		cur.Args = argsJSON
+	var cur, oldTop *stack.Entry
+	stackData.quietly(func() {
+		argsJSON := json.RawMessage(xgo_runtime.MarshalNoError(newStructValue(marshalNames, marshalArgs)))
+
+		// Push under stack mutex so Export cannot observe a half-built entry.
+		cur, oldTop = stk.PushNew(begin, name, func(cur *stack.Entry) {
+			cur.File = callFile
+			cur.Line = callLine
+			cur.FuncInfo = funcInfo
+			cur.Args = argsJSON
+		})
 	})
 
 	var hitMock bool
@@ -360,8 +366,13 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		var errStr string
 		// a function called from a deferred function also sees the panic,
 		// but it returns normally
-		if pe, retpc := xgo_runtime.XgoPeekPanic(); pe != nil && calledByPanic(3) {
-			hasPanic = true
+		pe, retpc := xgo_runtime.XgoPeekPanic()
+		if pe != nil {
+			stackData.quietly(func() {
+				hasPanic = calledByPanic(5)
+			})
+		}
+		if hasPanic {
 			// frame:
 			//   0: trap.trap
 			//   1: runtime.gopanic
@@ -402,17 +413,23 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 					break
 				}
 			}
-			errStr = fmt.Sprint(pe)
+			stackData.quietly(func() {
+				errStr = fmt.Sprint(pe)
+			})
 		}
 
 		resultNamesNoErr, resultsNoErr, resErr := trySplitLastError(resultNames, results)
-		resultsJSON := json.RawMessage(xgo_runtime.MarshalNoError(newStructValue(resultNamesNoErr, resultsNoErr)))
 		if !hasPanic && resErr != nil {
 			errStr = getErrMsg(resErr)
 		}
 
 		// Relative end time outside lock (time methods may trap / deadlock).
-		endNs := end.UnixNano() - stk.Begin.UnixNano()
+		var endNs int64
+		var resultsJSON json.RawMessage
+		stackData.quietly(func() {
+			resultsJSON = xgo_runtime.MarshalNoError(newStructValue(resultNamesNoErr, resultsNoErr))
+			endNs = end.UnixNano() - stk.Begin.UnixNano()
+		})
 		// finish under lock: entry fields + Top/Depth for race-free export
 		stk.Finish(cur, oldTop, end, isStartTracing, func(cur *stack.Entry) {
 			cur.EndNs = endNs
@@ -428,16 +445,16 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 			}
 		})
 		if isStartTracing {
-			exportedStack := stack.Export(stk, 0)
+			var exportedStack *stack_model.Stack
+			stackData.quietly(func() {
+				exportedStack = stack.Export(stk, 0)
+			})
 			if isTesting {
-				outputFile := filepath.Join(flags.COLLECT_TEST_TRACE_DIR, testName+".json")
-				os.MkdirAll(filepath.Dir(outputFile), 0755)
-
-				exportedStackJSON := xgo_runtime.MarshalNoError(exportedStack)
-				err := os.WriteFile(outputFile, exportedStackJSON, 0644)
-				if err != nil {
-					fmt.Fprintf(os.Stderr, "error writing stack: %v\n", err)
-				}
+				stackData.quietly(func() {
+					outputFile := filepath.Join(flags.COLLECT_TEST_TRACE_DIR, testName+".json")
+					os.MkdirAll(filepath.Dir(outputFile), 0755)
+					writeStack(outputFile, exportedStack)
+				})
 			} else {
 				if stackData.onFinish != nil {
 					stackData.onFinish(&StackDataExportImpl{
@@ -445,11 +462,9 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 					})
 				}
 				if stackData.stackOutputFile != "" {
-					exportedStackJSON := xgo_runtime.MarshalNoError(exportedStack)
-					err := os.WriteFile(stackData.stackOutputFile, exportedStackJSON, 0644)
-					if err != nil {
-						fmt.Fprintf(os.Stderr, "error writing stack: %v\n", err)
-					}
+					stackData.quietly(func() {
+						writeStack(stackData.stackOutputFile, exportedStack)
+					})
 				}
 			}
 			finishTracing(stackData)
@@ -465,6 +480,14 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	return post, false
 }
 
+func writeStack(file string, exportedStack *stack_model.Stack) {
+	exportedStackJSON := xgo_runtime.MarshalNoError(exportedStack)
+	err := os.WriteFile(file, exportedStackJSON, 0644)
+	if err != nil {
+		fmt.Fprintf(os.Stderr, "error writing stack: %v\n", err)
+	}
+}
+
 // callMock calls the mock, if it does not return then the function is left
 // right here, so run post.
 func callMock(mock func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool, funcInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}, post func()) bool {
@@ -531,7 +554,9 @@ func (c *StackDataExportImpl) JSON() ([]byte, error) {
 	if atomic.LoadInt32(&c.jsonCached) == 1 {
 		return c.json, nil
 	}
-	c.json = xgo_runtime.MarshalNoError(c.data)
+	getStackData().quietly(func() {
+		c.json = xgo_runtime.MarshalNoError(c.data)
+	})
 	atomic.StoreInt32(&c.jsonCached, 1)
 	return c.json, nil
 }
diff --git a/runtime/internal/trap/var.go b/runtime/internal/trap/var.go
index f56a793..cc7c7bc 100644
--- a/runtime/internal/trap/var.go
+++ b/runtime/internal/trap/var.go
@@ -20,6 +20,9 @@ func trapVar(infoPtr unsafe.Pointer, varAddr interface{}, res interface{}) {
 		return
 	}
 	stkData := getStackDataOf(stk)
+	if stkData != nil && stkData.quiet {
+		return
+	}
 	ptr := reflect.ValueOf(varAddr).Pointer()
 
 	recorders := stkData.getVarRecordHandlers(ptr)
@@ -54,6 +57,9 @@ func trapVarPtr(infoPtr unsafe.Pointer, varAddr interface{}, res interface{}) {
 		return
 	}
 	stkData := getStackDataOf(stk)
+	if stkData != nil && stkData.quiet {
+		return
+	}
 	ptr := reflect.ValueOf(varAddr).Pointer()
 
 	recorders := stkData.getVarPtrRecordHandlers(ptr)
@@ -151,17 +157,19 @@ func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, traci
 	}
 	_, file, line, _ := runtime.Caller(SKIP + 2)
 	end := xgo_runtime.XgoRealTimeNow()
-	endNs := end.UnixNano() - stk.Begin.UnixNano()
-	resultsJSON := json.RawMessage(xgo_runtime.MarshalValueNoError(res))
-	// Single locked push+finish so export cannot race with var trap records.
-	cur, oldTop := stk.PushNew(begin, funcInfo.Name, func(cur *stack.Entry) {
-		cur.File = file
-		cur.Line = line
-		cur.FuncInfo = funcInfo
-		cur.Results = resultsJSON
-	})
-	stk.Finish(cur, oldTop, end, false, func(cur *stack.Entry) {
-		cur.EndNs = endNs
-		cur.Finished = true
+	getStackDataOf(stk).quietly(func() {
+		endNs := end.UnixNano() - stk.Begin.UnixNano()
+		resultsJSON := json.RawMessage(xgo_runtime.MarshalValueNoError(res))
+		// Single locked push+finish so export cannot race with var trap records.
+		cur, oldTop := stk.PushNew(begin, funcInfo.Name, func(cur *stack.Entry) {
+			cur.File = file
+			cur.Line = line
+			cur.FuncInfo = funcInfo
+			cur.Results = resultsJSON
+		})
+		stk.Finish(cur, oldTop, end, false, func(cur *stack.Entry) {
+			cur.EndNs = endNs
+			cur.Finished = true
+		})
 	})
 }
-- 
2.43.0


From a621a0722cd219040fbcd389c57c0553f1f7f83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:43 +0000
Subject: [PATCH 66/71] fix: what a dot import names can be the target of a
 mock

---
 instrument/resolve/expr.go    | 20 +++++++++++---------
 instrument/resolve/import.go  | 16 ++++++++++++++++
 instrument/resolve/record.go  | 28 +++++++++++++++++++++++++---
 instrument/resolve/resolve.go | 21 +++++++++++++++++++++
 instrument/resolve/scope.go   | 10 ++++++----
 5 files changed, 79 insertions(+), 16 deletions(-)

diff --git a/instrument/resolve/expr.go b/instrument/resolve/expr.go
index 3aee69a..940d685 100644
--- a/instrument/resolve/expr.go
+++ b/instrument/resolve/expr.go
@@ -31,15 +31,15 @@ func (c *Scope) traverseCallExpr(callExpr *ast.CallExpr) {
 			isSelector = true
 			c.traverseExpr(sel)
 		}
-		if c.needDetectMock() && len(callExpr.Args) > 0 {
-			// check if mock.Patch
-			if c.recordTrap(sel) {
-				// resolve the first argument's type
-				// to see its type so that we
-				// need to insert trap points
-				c.recordMockRef(callExpr.Args[0])
-				c.Global.trapTarget = deparen(callExpr.Args[0])
-			}
+	}
+	if c.needDetectMock() && len(callExpr.Args) > 0 {
+		// check if mock.Patch
+		if c.recordTrap(fn) {
+			// resolve the first argument's type
+			// to see its type so that we
+			// need to insert trap points
+			c.recordMockRef(callExpr.Args[0])
+			c.Global.trapTarget = deparen(callExpr.Args[0])
 		}
 	}
 	if !isSelector {
@@ -160,6 +160,8 @@ func (c *Scope) traverseExpr(node ast.Expr) {
 		if idt, ok := node.Key.(*ast.Ident); ok {
 			if c.Has(idt.Name) || c.Package.Decls[idt.Name] != nil {
 				keyMightConflict = true
+			} else if _, decl := c.getDotImportDecl(idt.Name); decl != nil {
+				keyMightConflict = true
 			}
 		}
 		if !keyMightConflict {
diff --git a/instrument/resolve/import.go b/instrument/resolve/import.go
index 12425f0..4d19273 100644
--- a/instrument/resolve/import.go
+++ b/instrument/resolve/import.go
@@ -44,6 +44,22 @@ func getFileImports(registry PackageRegistry, file *ast.File) Imports {
 	return imports
 }
 
+// getFileDotImports gives the packages imported by `import . "pkg"`
+func getFileDotImports(file *ast.File) []string {
+	var pkgPaths []string
+	for _, impDecl := range file.Imports {
+		if impDecl.Name == nil || impDecl.Name.Name != "." {
+			continue
+		}
+		pkgPath, err := strconv.Unquote(impDecl.Path.Value)
+		if err != nil {
+			continue
+		}
+		pkgPaths = append(pkgPaths, pkgPath)
+	}
+	return pkgPaths
+}
+
 func isVersion(s string) bool {
 	if !strings.HasPrefix(s, "v") {
 		return false
diff --git a/instrument/resolve/record.go b/instrument/resolve/record.go
index 96281da..89ceeb1 100644
--- a/instrument/resolve/record.go
+++ b/instrument/resolve/record.go
@@ -8,8 +8,8 @@ import (
 	"github.com/xhd2015/xgo/instrument/resolve/types"
 )
 
-func (c *Scope) recordTrap(sel *ast.SelectorExpr) bool {
-	typInfo := c.tryResolvePkgRef(sel)
+func (c *Scope) recordTrap(fn ast.Expr) bool {
+	typInfo := c.tryResolvePkgRef(fn)
 	if types.IsUnknown(typInfo) {
 		return false
 	}
@@ -98,7 +98,15 @@ func (c *Scope) recordMockRef(fn ast.Expr) {
 }
 
 // try simply resolve as pkg.Name, to detect for mock.Patch calls
-func (c *Scope) tryResolvePkgRef(sel *ast.SelectorExpr) types.Info {
+func (c *Scope) tryResolvePkgRef(fn ast.Expr) types.Info {
+	if idt, ok := fn.(*ast.Ident); ok {
+		// import . "github.com/xhd2015/xgo/runtime/mock"
+		return c.tryResolveDotRef(idt)
+	}
+	sel, ok := fn.(*ast.SelectorExpr)
+	if !ok {
+		return types.Unknown{}
+	}
 	idt, ok := sel.X.(*ast.Ident)
 	if !ok {
 		return types.Unknown{}
@@ -119,3 +127,17 @@ func (c *Scope) tryResolvePkgRef(sel *ast.SelectorExpr) types.Info {
 		Name:    sel.Sel.Name,
 	}
 }
+
+func (c *Scope) tryResolveDotRef(idt *ast.Ident) types.Info {
+	if len(c.File.DotImports) == 0 || c.Has(idt.Name) || c.Package.Decls[idt.Name] != nil {
+		return types.Unknown{}
+	}
+	pkg, decl := c.getDotImportDecl(idt.Name)
+	if decl == nil {
+		return types.Unknown{}
+	}
+	return types.PkgVariable{
+		PkgPath: pkg.LoadPackage.GoPackage.ImportPath,
+		Name:    idt.Name,
+	}
+}
diff --git a/instrument/resolve/resolve.go b/instrument/resolve/resolve.go
index 9cee551..48f4f1c 100644
--- a/instrument/resolve/resolve.go
+++ b/instrument/resolve/resolve.go
@@ -173,6 +173,9 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 				// this only refers to a package
 				return types.ImportPath(pkgPath)
 			}
+			if pkg, decl := c.getDotImportDecl(expr.Name); decl != nil {
+				return c.newFileScope(pkg, decl.File).resolveInfo(decl.Ident)
+			}
 			if expr.Name == "nil" {
 				return types.UntypedNil{}
 			}
@@ -592,6 +595,24 @@ func (c *Scope) loadPackage(pkgPath string) *edit.Package {
 	return pkg
 }
 
+// getDotImportDecl finds what the name refers to among the packages
+// imported by `import . "pkg"`
+func (c *Scope) getDotImportDecl(name string) (*edit.Package, *edit.Decl) {
+	if !ast.IsExported(name) {
+		return nil, nil
+	}
+	for _, pkgPath := range c.File.DotImports {
+		pkg := c.loadPackage(pkgPath)
+		if pkg == nil {
+			continue
+		}
+		if decl := pkg.Decls[name]; decl != nil {
+			return pkg, decl
+		}
+	}
+	return nil, nil
+}
+
 func deref(typ types.Info) types.Type {
 	if ptr, ok := typ.(types.PtrType); ok {
 		return ptr.Elem
diff --git a/instrument/resolve/scope.go b/instrument/resolve/scope.go
index 3099131..86f547f 100644
--- a/instrument/resolve/scope.go
+++ b/instrument/resolve/scope.go
@@ -107,8 +107,9 @@ func (c PackageScope) PkgPath() string {
 }
 
 type FileScope struct {
-	File    *edit.File
-	Imports Imports
+	File       *edit.File
+	Imports    Imports
+	DotImports []string
 }
 
 type PkgName struct {
@@ -152,8 +153,9 @@ func newFileScope(global *GlobalScope, pkg *edit.Package, file *edit.File, pkgDe
 			Decls:   pkg.Decls,
 		},
 		File: &FileScope{
-			File:    file,
-			Imports: imports,
+			File:       file,
+			Imports:    imports,
+			DotImports: getFileDotImports(file.File.Syntax),
 		},
 		PkgDepth: pkgDepth,
 	}
-- 
2.43.0


From d62d62b828df200830e402819397e8cd7af20a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:54 +0000
Subject: [PATCH 67/71] fix: functions needed to set up and run mocks can be
 mocked themselves

---
 .../asset/runtime_gen/internal/trap/build.go  |  6 +++---
 .../runtime_gen/internal/trap/inspect.go      |  7 ++++---
 .../asset/runtime_gen/internal/trap/mock.go   | 21 +++++++++++--------
 .../asset/runtime_gen/internal/trap/record.go |  5 ++---
 .../asset/runtime_gen/internal/trap/std.go    | 19 +++++++++++++++++
 .../asset/runtime_gen/internal/trap/trap.go   |  7 ++-----
 runtime/internal/trap/build.go                |  6 +++---
 runtime/internal/trap/inspect.go              |  7 ++++---
 runtime/internal/trap/mock.go                 | 21 +++++++++++--------
 runtime/internal/trap/record.go               |  5 ++---
 runtime/internal/trap/std.go                  | 19 +++++++++++++++++
 runtime/internal/trap/trap.go                 |  7 ++-----
 12 files changed, 84 insertions(+), 46 deletions(-)
 create mode 100644 cmd/xgo/asset/runtime_gen/internal/trap/std.go
 create mode 100644 runtime/internal/trap/std.go

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/build.go b/cmd/xgo/asset/runtime_gen/internal/trap/build.go
index 0c57889..3284a28 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/build.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/build.go
@@ -241,7 +241,7 @@ func buildMockFromInterceptor(recvPtr interface{}, interceptor Interceptor) func
 			})
 		}
 
-		var ctx context.Context = context.TODO()
+		var ctx context.Context = contextTODO
 		if firstArgIsCtx(funcInfo, args) {
 			// see https://github.com/xhd2015/xgo/issues/316 and https://github.com/xhd2015/xgo/issues/377
 			argCtx := reflect.ValueOf(args[0]).Elem().Interface()
@@ -302,7 +302,7 @@ func buildRecorderFromInterceptor(recvPtr interface{}, preInterceptor PreInterce
 					valPtr: res,
 				})
 			}
-			var ctx context.Context = context.TODO()
+			var ctx context.Context = contextTODO
 			if firstArgIsCtx(funcInfo, args) {
 				argCtx := reflect.ValueOf(args[0]).Elem().Interface()
 				if argCtx != nil {
@@ -354,7 +354,7 @@ func buildRecorderFromInterceptor(recvPtr interface{}, preInterceptor PreInterce
 					valPtr: res,
 				})
 			}
-			var ctx context.Context = context.TODO()
+			var ctx context.Context = contextTODO
 			if firstArgIsCtx(funcInfo, args) {
 				// see https://github.com/xhd2015/xgo/issues/377
 				argCtx := reflect.ValueOf(args[0]).Elem().Interface()
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/inspect.go b/cmd/xgo/asset/runtime_gen/internal/trap/inspect.go
index 423a4f9..bcc214c 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/inspect.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/inspect.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 	"reflect"
 	"runtime"
-	"strings"
 
 	"github.com/xhd2015/xgo/runtime/core"
 	"github.com/xhd2015/xgo/runtime/functab"
@@ -56,12 +55,14 @@ func Inspect(f interface{}) (recvPtr interface{}, funcInfo *core.FuncInfo, funcP
 		fullName := origFullName
 
 		// check method
-		if strings.HasSuffix(fullName, methodSuffix) {
+		if hasSuffix(fullName, methodSuffix) {
 			needRecv = true
 			fullName = fullName[:len(fullName)-len(methodSuffix)]
 		}
 
-		funcInfo = functab.GetFuncByFullName(fullName)
+		getStackData().quietly(func() {
+			funcInfo = functab.GetFuncByFullName(fullName)
+		})
 		if funcInfo == nil {
 			// not a method, might be generic or closure
 			// we currently cannot handle this
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
index 752b7e0..b820de7 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
@@ -1,11 +1,9 @@
 package trap
 
 import (
-	"context"
 	"errors"
 	"fmt"
 	"reflect"
-	"strings"
 
 	"github.com/xhd2015/xgo/runtime/core"
 	"github.com/xhd2015/xgo/runtime/functab"
@@ -60,7 +58,7 @@ func PushMockReplacerMethodByName(instance interface{}, method string, replacer
 func PushMockByName(pkgPath string, funcName string, interceptor Interceptor) func() {
 	recvPtr, funcInfo, _, trappingPC := getFuncByName(pkgPath, funcName)
 	if funcInfo.Kind == core.Kind_Var || funcInfo.Kind == core.Kind_VarPtr || funcInfo.Kind == core.Kind_Const {
-		if strings.HasPrefix(funcName, "*") {
+		if hasPrefix(funcName, "*") {
 			// type: fun() *T
 			handler := func(fnInfo *core.FuncInfo, res interface{}) {
 				var argObj object
@@ -70,7 +68,7 @@ func PushMockByName(pkgPath string, funcName string, interceptor Interceptor) fu
 						valPtr: res,
 					},
 				}
-				interceptor(context.Background(), fnInfo, argObj, resObject)
+				interceptor(contextBackground, fnInfo, argObj, resObject)
 			}
 			return pushVarPtrMockHandler(reflect.ValueOf(funcInfo.Var).Pointer(), handler)
 		}
@@ -103,7 +101,7 @@ func pushMockInterceptor(fn interface{}, interceptor Interceptor) func() {
 					valPtr: res,
 				},
 			}
-			err := interceptor(context.Background(), fnInfo, argObj, resObject)
+			err := interceptor(contextBackground, fnInfo, argObj, resObject)
 			if err != nil {
 				if err == ErrMocked {
 					return
@@ -289,7 +287,7 @@ func pushMockReplacerByName(pkgPath string, funcName string, replacer interface{
 			}
 		}
 	} else if funcInfo.Kind == core.Kind_Var || funcInfo.Kind == core.Kind_VarPtr || funcInfo.Kind == core.Kind_Const {
-		if strings.HasPrefix(funcName, "*") {
+		if hasPrefix(funcName, "*") {
 			// be func() *T'
 			vr := funcInfo.Var
 			wantPtrType := reflect.FuncOf(nil, []reflect.Type{reflect.TypeOf(vr)}, false)
@@ -333,13 +331,18 @@ func pushMockReplacerMethodByName(instance interface{}, method string, replacer
 }
 
 func getFuncByName(pkgPath string, funcName string) (recvPtr interface{}, fn *core.FuncInfo, funcPC uintptr, trappingPC uintptr) {
-	if strings.HasPrefix(funcName, "*") {
-		ptrFn := functab.GetFuncByPkg(pkgPath, funcName[1:])
+	if hasPrefix(funcName, "*") {
+		var ptrFn *core.FuncInfo
+		getStackData().quietly(func() {
+			ptrFn = functab.GetFuncByPkg(pkgPath, funcName[1:])
+		})
 		if ptrFn.Kind == core.Kind_Var {
 			return ptrFn.Var, ptrFn, ptrFn.PC, ptrFn.PC
 		}
 	}
-	fn = functab.GetFuncByPkg(pkgPath, funcName)
+	getStackData().quietly(func() {
+		fn = functab.GetFuncByPkg(pkgPath, funcName)
+	})
 	if fn == nil {
 		panic(fmt.Errorf("failed to setup mock for: %s.%s", pkgPath, funcName))
 	}
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/record.go b/cmd/xgo/asset/runtime_gen/internal/trap/record.go
index 12621d1..50b5d26 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/record.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/record.go
@@ -1,7 +1,6 @@
 package trap
 
 import (
-	"context"
 	"fmt"
 	"reflect"
 
@@ -99,7 +98,7 @@ func pushRecorderInterceptor(fn interface{}, preInterceptor PreInterceptor, post
 						valPtr: res,
 					},
 				}
-				data, err := preInterceptor(context.Background(), funcInfo, argObj, resObject)
+				data, err := preInterceptor(contextBackground, funcInfo, argObj, resObject)
 				if err != nil {
 					if err == ErrMocked {
 						return nil, true
@@ -119,7 +118,7 @@ func pushRecorderInterceptor(fn interface{}, preInterceptor PreInterceptor, post
 						valPtr: res,
 					},
 				}
-				err := postInterceptor(context.Background(), funcInfo, argObj, resObject, data)
+				err := postInterceptor(contextBackground, funcInfo, argObj, resObject, data)
 				if err != nil {
 					panic(err)
 				}
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/std.go b/cmd/xgo/asset/runtime_gen/internal/trap/std.go
new file mode 100644
index 0000000..ef15530
--- /dev/null
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/std.go
@@ -0,0 +1,19 @@
+package trap
+
+import "context"
+
+// Functions of the standard library might be mocked themselves, so what is
+// needed to set up and to run mocks does not call them.
+
+var (
+	contextBackground = context.Background()
+	contextTODO       = context.TODO()
+)
+
+func hasPrefix(s string, prefix string) bool {
+	return len(s) >= len(prefix) && s[:len(prefix)] == prefix
+}
+
+func hasSuffix(s string, suffix string) bool {
+	return len(s) >= len(suffix) && s[len(s)-len(suffix):] == suffix
+}
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index fe39bec..833ed2c 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -7,7 +7,6 @@ import (
 	"path/filepath"
 	"reflect"
 	"runtime"
-	"strings"
 	"sync/atomic"
 	"testing"
 	"time"
@@ -368,9 +367,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		// but it returns normally
 		pe, retpc := xgo_runtime.XgoPeekPanic()
 		if pe != nil {
-			stackData.quietly(func() {
-				hasPanic = calledByPanic(5)
-			})
+			hasPanic = calledByPanic(3)
 		}
 		if hasPanic {
 			// frame:
@@ -513,7 +510,7 @@ func calledByPanic(skip int) bool {
 		if frame.Function == "runtime.gopanic" {
 			return true
 		}
-		if !more || !strings.HasPrefix(frame.Function, "runtime.") && !strings.HasPrefix(frame.Function, callMockFunc) {
+		if !more || !hasPrefix(frame.Function, "runtime.") && !hasPrefix(frame.Function, callMockFunc) {
 			break
 		}
 	}
diff --git a/runtime/internal/trap/build.go b/runtime/internal/trap/build.go
index 0c57889..3284a28 100644
--- a/runtime/internal/trap/build.go
+++ b/runtime/internal/trap/build.go
@@ -241,7 +241,7 @@ func buildMockFromInterceptor(recvPtr interface{}, interceptor Interceptor) func
 			})
 		}
 
-		var ctx context.Context = context.TODO()
+		var ctx context.Context = contextTODO
 		if firstArgIsCtx(funcInfo, args) {
 			// see https://github.com/xhd2015/xgo/issues/316 and https://github.com/xhd2015/xgo/issues/377
 			argCtx := reflect.ValueOf(args[0]).Elem().Interface()
@@ -302,7 +302,7 @@ func buildRecorderFromInterceptor(recvPtr interface{}, preInterceptor PreInterce
 					valPtr: res,
 				})
 			}
-			var ctx context.Context = context.TODO()
+			var ctx context.Context = contextTODO
 			if firstArgIsCtx(funcInfo, args) {
 				argCtx := reflect.ValueOf(args[0]).Elem().Interface()
 				if argCtx != nil {
@@ -354,7 +354,7 @@ func buildRecorderFromInterceptor(recvPtr interface{}, preInterceptor PreInterce
 					valPtr: res,
 				})
 			}
-			var ctx context.Context = context.TODO()
+			var ctx context.Context = contextTODO
 			if firstArgIsCtx(funcInfo, args) {
 				// see https://github.com/xhd2015/xgo/issues/377
 				argCtx := reflect.ValueOf(args[0]).Elem().Interface()
diff --git a/runtime/internal/trap/inspect.go b/runtime/internal/trap/inspect.go
index 423a4f9..bcc214c 100644
--- a/runtime/internal/trap/inspect.go
+++ b/runtime/internal/trap/inspect.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 	"reflect"
 	"runtime"
-	"strings"
 
 	"github.com/xhd2015/xgo/runtime/core"
 	"github.com/xhd2015/xgo/runtime/functab"
@@ -56,12 +55,14 @@ func Inspect(f interface{}) (recvPtr interface{}, funcInfo *core.FuncInfo, funcP
 		fullName := origFullName
 
 		// check method
-		if strings.HasSuffix(fullName, methodSuffix) {
+		if hasSuffix(fullName, methodSuffix) {
 			needRecv = true
 			fullName = fullName[:len(fullName)-len(methodSuffix)]
 		}
 
-		funcInfo = functab.GetFuncByFullName(fullName)
+		getStackData().quietly(func() {
+			funcInfo = functab.GetFuncByFullName(fullName)
+		})
 		if funcInfo == nil {
 			// not a method, might be generic or closure
 			// we currently cannot handle this
diff --git a/runtime/internal/trap/mock.go b/runtime/internal/trap/mock.go
index 752b7e0..b820de7 100644
--- a/runtime/internal/trap/mock.go
+++ b/runtime/internal/trap/mock.go
@@ -1,11 +1,9 @@
 package trap
 
 import (
-	"context"
 	"errors"
 	"fmt"
 	"reflect"
-	"strings"
 
 	"github.com/xhd2015/xgo/runtime/core"
 	"github.com/xhd2015/xgo/runtime/functab"
@@ -60,7 +58,7 @@ func PushMockReplacerMethodByName(instance interface{}, method string, replacer
 func PushMockByName(pkgPath string, funcName string, interceptor Interceptor) func() {
 	recvPtr, funcInfo, _, trappingPC := getFuncByName(pkgPath, funcName)
 	if funcInfo.Kind == core.Kind_Var || funcInfo.Kind == core.Kind_VarPtr || funcInfo.Kind == core.Kind_Const {
-		if strings.HasPrefix(funcName, "*") {
+		if hasPrefix(funcName, "*") {
 			// type: fun() *T
 			handler := func(fnInfo *core.FuncInfo, res interface{}) {
 				var argObj object
@@ -70,7 +68,7 @@ func PushMockByName(pkgPath string, funcName string, interceptor Interceptor) fu
 						valPtr: res,
 					},
 				}
-				interceptor(context.Background(), fnInfo, argObj, resObject)
+				interceptor(contextBackground, fnInfo, argObj, resObject)
 			}
 			return pushVarPtrMockHandler(reflect.ValueOf(funcInfo.Var).Pointer(), handler)
 		}
@@ -103,7 +101,7 @@ func pushMockInterceptor(fn interface{}, interceptor Interceptor) func() {
 					valPtr: res,
 				},
 			}
-			err := interceptor(context.Background(), fnInfo, argObj, resObject)
+			err := interceptor(contextBackground, fnInfo, argObj, resObject)
 			if err != nil {
 				if err == ErrMocked {
 					return
@@ -289,7 +287,7 @@ func pushMockReplacerByName(pkgPath string, funcName string, replacer interface{
 			}
 		}
 	} else if funcInfo.Kind == core.Kind_Var || funcInfo.Kind == core.Kind_VarPtr || funcInfo.Kind == core.Kind_Const {
-		if strings.HasPrefix(funcName, "*") {
+		if hasPrefix(funcName, "*") {
 			// be func() *T'
 			vr := funcInfo.Var
 			wantPtrType := reflect.FuncOf(nil, []reflect.Type{reflect.TypeOf(vr)}, false)
@@ -333,13 +331,18 @@ func pushMockReplacerMethodByName(instance interface{}, method string, replacer
 }
 
 func getFuncByName(pkgPath string, funcName string) (recvPtr interface{}, fn *core.FuncInfo, funcPC uintptr, trappingPC uintptr) {
-	if strings.HasPrefix(funcName, "*") {
-		ptrFn := functab.GetFuncByPkg(pkgPath, funcName[1:])
+	if hasPrefix(funcName, "*") {
+		var ptrFn *core.FuncInfo
+		getStackData().quietly(func() {
+			ptrFn = functab.GetFuncByPkg(pkgPath, funcName[1:])
+		})
 		if ptrFn.Kind == core.Kind_Var {
 			return ptrFn.Var, ptrFn, ptrFn.PC, ptrFn.PC
 		}
 	}
-	fn = functab.GetFuncByPkg(pkgPath, funcName)
+	getStackData().quietly(func() {
+		fn = functab.GetFuncByPkg(pkgPath, funcName)
+	})
 	if fn == nil {
 		panic(fmt.Errorf("failed to setup mock for: %s.%s", pkgPath, funcName))
 	}
diff --git a/runtime/internal/trap/record.go b/runtime/internal/trap/record.go
index 12621d1..50b5d26 100644
--- a/runtime/internal/trap/record.go
+++ b/runtime/internal/trap/record.go
@@ -1,7 +1,6 @@
 package trap
 
 import (
-	"context"
 	"fmt"
 	"reflect"
 
@@ -99,7 +98,7 @@ func pushRecorderInterceptor(fn interface{}, preInterceptor PreInterceptor, post
 						valPtr: res,
 					},
 				}
-				data, err := preInterceptor(context.Background(), funcInfo, argObj, resObject)
+				data, err := preInterceptor(contextBackground, funcInfo, argObj, resObject)
 				if err != nil {
 					if err == ErrMocked {
 						return nil, true
@@ -119,7 +118,7 @@ func pushRecorderInterceptor(fn interface{}, preInterceptor PreInterceptor, post
 						valPtr: res,
 					},
 				}
-				err := postInterceptor(context.Background(), funcInfo, argObj, resObject, data)
+				err := postInterceptor(contextBackground, funcInfo, argObj, resObject, data)
 				if err != nil {
 					panic(err)
 				}
diff --git a/runtime/internal/trap/std.go b/runtime/internal/trap/std.go
new file mode 100644
index 0000000..ef15530
--- /dev/null
+++ b/runtime/internal/trap/std.go
@@ -0,0 +1,19 @@
+package trap
+
+import "context"
+
+// Functions of the standard library might be mocked themselves, so what is
+// needed to set up and to run mocks does not call them.
+
+var (
+	contextBackground = context.Background()
+	contextTODO       = context.TODO()
+)
+
+func hasPrefix(s string, prefix string) bool {
+	return len(s) >= len(prefix) && s[:len(prefix)] == prefix
+}
+
+func hasSuffix(s string, suffix string) bool {
+	return len(s) >= len(suffix) && s[len(s)-len(suffix):] == suffix
+}
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index fe39bec..833ed2c 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -7,7 +7,6 @@ import (
 	"path/filepath"
 	"reflect"
 	"runtime"
-	"strings"
 	"sync/atomic"
 	"testing"
 	"time"
@@ -368,9 +367,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		// but it returns normally
 		pe, retpc := xgo_runtime.XgoPeekPanic()
 		if pe != nil {
-			stackData.quietly(func() {
-				hasPanic = calledByPanic(5)
-			})
+			hasPanic = calledByPanic(3)
 		}
 		if hasPanic {
 			// frame:
@@ -513,7 +510,7 @@ func calledByPanic(skip int) bool {
 		if frame.Function == "runtime.gopanic" {
 			return true
 		}
-		if !more || !strings.HasPrefix(frame.Function, "runtime.") && !strings.HasPrefix(frame.Function, callMockFunc) {
+		if !more || !hasPrefix(frame.Function, "runtime.") && !hasPrefix(frame.Function, callMockFunc) {
 			break
 		}
 	}
-- 
2.43.0


From 66314bef179c048f1b9239839aed4f66e2f22ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:44 +0000
Subject: [PATCH 68/71] fix: caller overlays with deletions and chains, and
 projects reached by a symlink

An empty target of a caller's -overlay deletes the file, it was taken for the
project directory. A target that is a source as well keeps its content on the
disk. Paths emitted to go are also spelled as go lists them: with a working
directory that is a symlink nothing was instrumented.
---
 cmd/xgo/main.go               |  2 ++
 instrument/overlay/io.go      | 37 ++++++++++++--------
 instrument/overlay/overlay.go | 63 ++++++++++++++++++++++++++++-------
 3 files changed, 77 insertions(+), 25 deletions(-)

diff --git a/cmd/xgo/main.go b/cmd/xgo/main.go
index 3b1338e..d3bb28f 100644
--- a/cmd/xgo/main.go
+++ b/cmd/xgo/main.go
@@ -882,6 +882,8 @@ xgo will try best to compile with newer xgo/runtime v%s, it's recommended to upg
 			if callerOverlay != nil {
 				callerOverlay.ProjectOntoCallerSources(goOverlay)
 			}
+			// the same for the paths of the packages, as listed by go
+			overlay.ParseGoOverlay(generatedGoOverlay, overlayPathOpts).ProjectOntoCallerSources(goOverlay)
 			if len(goOverlay.Replace) > 0 {
 				overlayFile = filepath.Join(localXgoGenDir, "overlay.json")
 				logDebug("write overlay file: %s", overlayFile)
diff --git a/instrument/overlay/io.go b/instrument/overlay/io.go
index 7ae14bb..0c48071 100644
--- a/instrument/overlay/io.go
+++ b/instrument/overlay/io.go
@@ -70,14 +70,17 @@ func ParseGoOverlay(input *GoOverlay, opts PathOptions) *ParsedOverlay {
 	out := &ParsedOverlay{Entries: make([]OverlayEntry, 0, len(input.Replace))}
 	for source, target := range input.Replace {
 		srcRes := ResolveAbsFile(source, opts)
-		tgtRes := ResolveAbsFile(target, opts)
-		out.Entries = append(out.Entries, OverlayEntry{
+		entry := OverlayEntry{
 			SourceInput:     source,
 			SourceResolved:  srcRes,
 			SourceCanonical: evalSymlinksAbs(srcRes),
-			TargetResolved:  tgtRes,
-			TargetCanonical: evalSymlinksAbs(tgtRes),
-		})
+		}
+		if target != "" {
+			// an empty target means that the file does not exist
+			entry.TargetResolved = ResolveAbsFile(target, opts)
+			entry.TargetCanonical = evalSymlinksAbs(entry.TargetResolved)
+		}
+		out.Entries = append(out.Entries, entry)
 	}
 	return out
 }
@@ -91,6 +94,10 @@ func (p *ParsedOverlay) ApplyFileRedirects(fs Overlay) {
 		return
 	}
 	for _, e := range p.Entries {
+		if e.TargetCanonical == "" {
+			fs.Delete(e.SourceCanonical)
+			continue
+		}
 		// Canonical source/target; OverrideFile re-keys via absFileKey.
 		fs.OverrideFile(e.SourceCanonical, e.TargetCanonical)
 	}
@@ -147,10 +154,7 @@ func CanonicalizeAbsFile(file AbsFile, opts PathOptions) AbsFile {
 
 func evalSymlinksAbs(file AbsFile) AbsFile {
 	path := filepath.FromSlash(string(file))
-	if resolved, err := filepath.EvalSymlinks(path); err == nil {
-		path = resolved
-	}
-	return AbsFile(filepath.ToSlash(filepath.Clean(path)))
+	return AbsFile(filepath.ToSlash(filepath.Clean(evalSymlinks(path))))
 }
 
 // ComposeGoOverlays returns the single-level Go overlay obtained by applying
@@ -165,10 +169,9 @@ func evalSymlinksAbs(file AbsFile) AbsFile {
 // caller may be nil. generated is parsed in one pass when non-nil.
 func ComposeGoOverlays(caller *ParsedOverlay, generated *GoOverlay, opts PathOptions) (*GoOverlay, error) {
 	combined := make(Replace)
-	if caller != nil {
-		for source, target := range caller.CanonicalReplace() {
-			combined[source] = target
-		}
+	callerReplace := caller.CanonicalReplace()
+	for source, target := range callerReplace {
+		combined[source] = target
 	}
 	if generated != nil {
 		// Generated paths (from MakeGoOverlay) are already abs; parse once so
@@ -199,6 +202,14 @@ func ComposeGoOverlays(caller *ParsedOverlay, generated *GoOverlay, opts PathOpt
 		if !ok {
 			return source, nil
 		}
+		if callerTarget, ok := callerReplace[source]; ok && callerTarget == target {
+			if _, ok := callerReplace[target]; ok {
+				// the content of a caller's target is always that
+				// on the disk, even if it is replaced as a source
+				resolved[source] = target
+				return target, nil
+			}
+		}
 		visiting[source] = true
 		terminal, err := resolve(target, append(path, source))
 		delete(visiting, source)
diff --git a/instrument/overlay/overlay.go b/instrument/overlay/overlay.go
index a10ff8e..6f86030 100644
--- a/instrument/overlay/overlay.go
+++ b/instrument/overlay/overlay.go
@@ -19,6 +19,11 @@ type FileOverlay struct {
 	Content string
 
 	hasOverriddenContent bool
+	// the path as it was given, which may have symlinks. It is the one
+	// go knows the file by.
+	givenFile AbsFile
+	// the file is to be treated as if it did not exist
+	deleted bool
 }
 
 func MakeOverlay() Overlay {
@@ -32,16 +37,31 @@ func MakeOverlay() Overlay {
 // Get/Override always store and look up under this key.
 func absFileKey(file AbsFile) AbsFile {
 	path := filepath.FromSlash(string(file))
-	path = filepath.Clean(path)
-	if resolved, err := filepath.EvalSymlinks(path); err == nil {
-		path = resolved
+	return AbsFile(evalSymlinks(filepath.Clean(path)))
+}
+
+// evalSymlinks evaluates the symlinks of path. The file, and directories
+// it is in, may only exist in the overlay.
+func evalSymlinks(path string) string {
+	resolved, err := filepath.EvalSymlinks(path)
+	if err == nil {
+		return resolved
 	}
-	return AbsFile(path)
+	dir := filepath.Dir(path)
+	if dir == path || dir == "." {
+		return path
+	}
+	return filepath.Join(evalSymlinks(dir), filepath.Base(path))
+}
+
+func givenAbsFile(file AbsFile) AbsFile {
+	return AbsFile(filepath.Clean(filepath.FromSlash(string(file))))
 }
 
 func (o Overlay) OverrideFile(absFile AbsFile, targetFile AbsFile) {
 	o[absFileKey(absFile)] = &FileOverlay{
-		AbsFile: absFileKey(targetFile),
+		AbsFile:   absFileKey(targetFile),
+		givenFile: givenAbsFile(absFile),
 	}
 }
 
@@ -51,9 +71,15 @@ func (o Overlay) OverrideContent(absFile AbsFile, content string) {
 	o[absFileKey(absFile)] = &FileOverlay{
 		Content:              content,
 		hasOverriddenContent: true,
+		givenFile:            givenAbsFile(absFile),
 	}
 }
 
+// Delete makes the file not exist
+func (o Overlay) Delete(absFile AbsFile) {
+	o[absFileKey(absFile)] = &FileOverlay{deleted: true, givenFile: givenAbsFile(absFile)}
+}
+
 func (o Overlay) Get(absFile AbsFile) *FileOverlay {
 	return o[absFileKey(absFile)]
 }
@@ -63,6 +89,9 @@ func (o Overlay) Size(absFile AbsFile) (size int64, err error) {
 
 	readOSFile := absFile
 	if overlayFile != nil {
+		if overlayFile.deleted {
+			return 0, &os.PathError{Op: "stat", Path: string(absFile), Err: os.ErrNotExist}
+		}
 		if overlayFile.hasOverriddenContent {
 			return int64(len(overlayFile.Content)), nil
 		}
@@ -82,6 +111,9 @@ func (o Overlay) Read(absFile AbsFile) (hitContent bool, content string, err err
 
 	readOSFile := absFile
 	if overlayFile != nil {
+		if overlayFile.deleted {
+			return false, "", &os.PathError{Op: "open", Path: string(absFile), Err: os.ErrNotExist}
+		}
 		if overlayFile.hasOverriddenContent {
 			return true, overlayFile.Content, nil
 		}
@@ -101,6 +133,9 @@ func (o Overlay) ReadBytes(absFile AbsFile) (hitContent bool, content []byte, er
 
 	readOSFile := absFile
 	if overlayFile != nil {
+		if overlayFile.deleted {
+			return false, nil, &os.PathError{Op: "open", Path: string(absFile), Err: os.ErrNotExist}
+		}
 		if overlayFile.hasOverriddenContent {
 			return true, []byte(overlayFile.Content), nil
 		}
@@ -157,6 +192,7 @@ func (o Overlay) MakeGoOverlay(overlayDir string, opts Options) (*GoOverlay, err
 	}
 	replace := make(Replace, len(o))
 	for absFile, fileOverlay := range o {
+		var target AbsFile
 		if fileOverlay.hasOverriddenContent {
 			absFilePath := getPathMapping(string(absFile), pathMappings)
 			writeFile := fileutil.RebaseAbsPath(absOverlayDir, absFilePath)
@@ -166,19 +202,22 @@ func (o Overlay) MakeGoOverlay(overlayDir string, opts Options) (*GoOverlay, err
 			}
 			content := fileOverlay.Content
 			if !noLineDirective {
-				content = patch.FmtLineDirective(string(absFile), 1) + "\n" + content
+				content = patch.FmtLineDirective(string(fileOverlay.givenFile), 1) + "\n" + content
 			}
 			err = os.WriteFile(writeFile, []byte(content), 0644)
 			if err != nil {
 				return nil, err
 			}
-			replace[AbsFile(filepath.ToSlash(string(absFile)))] = AbsFile(filepath.ToSlash(writeFile))
-			continue
-		}
-		if fileOverlay.AbsFile == "" {
-			continue
+			target = AbsFile(filepath.ToSlash(writeFile))
+		} else if !fileOverlay.deleted {
+			if fileOverlay.AbsFile == "" {
+				continue
+			}
+			target = AbsFile(filepath.ToSlash(string(fileOverlay.AbsFile)))
 		}
-		replace[AbsFile(filepath.ToSlash(string(absFile)))] = AbsFile(filepath.ToSlash(string(fileOverlay.AbsFile)))
+		replace[AbsFile(filepath.ToSlash(string(absFile)))] = target
+		// go looks up its own spelling of the path
+		replace[AbsFile(filepath.ToSlash(string(fileOverlay.givenFile)))] = target
 	}
 	return &GoOverlay{Replace: replace}, nil
 }
-- 
2.43.0


From 3b536b4494d2a80c791ce47ae1ef33bb930ef287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:44 +0000
Subject: [PATCH 69/71] fix: names declared by var trap and by the compiler may
 belong to different files

A dependency with a mocked variable in a file other than its first one and a
mocked function did not compile.
---
 cmd/xgo/instrument.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmd/xgo/instrument.go b/cmd/xgo/instrument.go
index 8669007..5bfd935 100644
--- a/cmd/xgo/instrument.go
+++ b/cmd/xgo/instrument.go
@@ -273,10 +273,9 @@ func instrumentUserCode(goroot string, projectDir string, projectRoot string, go
 		initial := pkg.Initial
 		pkgRecorder := recorder.GetOrInit(pkgPath)
 
+		// whether the names used by the compiler, which
+		// are those of the first file, are already declared
 		var hasVarTrap bool
-		if pkgRecorder != nil && pkgRecorder.NumVars > 0 {
-			hasVarTrap = true
-		}
 
 		mode := config.CheckInstrumentMode(stdlib, main, initial, needTrapAll)
 
@@ -322,6 +321,10 @@ func instrumentUserCode(goroot string, projectDir string, projectRoot string, go
 				}
 			}
 
+			if file.Index == 0 && (len(file.TrapVars) > 0 || len(file.TrapFuncs) > 0 || len(file.InterfaceTypes) > 0) {
+				hasVarTrap = true
+			}
+
 			if len(extraFuncs) > 0 || len(extraInterfaces) > 0 {
 				extraFiles = append(extraFiles, &compiler_extra.File{
 					Name:       file.File.Name,
-- 
2.43.0


From 3951e781e77def13b72a91dd5460613435e4428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:46 +0000
Subject: [PATCH 70/71] fix: keep the go directive, work in workspaces and with
 replaced vendored modules

The go directive of the main module was raised to the toolchain's version,
which changes the language version (loop variables) and GODEBUG defaults of
the program. It is now raised only if necessary, to 1.18.

In a workspace the module files were replaced by -modfile, which go rejects,
and the runtime was looked up in the workspace, so that files in the module
cache or in a checked-out runtime were rewritten. Replacements now go to an
overlaid go.work, and the standalone runtime is loaded outside of it.

A module replaced by another one was looked up in vendor under the path of
its replacement.
---
 cmd/xgo/instrument.go                     |   9 +-
 cmd/xgo/trace.go                          | 222 ++++++++++++++--------
 instrument/instrument_xgo_runtime/link.go |   4 +
 instrument/load/load.go                   |   4 +
 support/goinfo/list.go                    |   7 +-
 5 files changed, 169 insertions(+), 77 deletions(-)

diff --git a/cmd/xgo/instrument.go b/cmd/xgo/instrument.go
index 5bfd935..3110ad1 100644
--- a/cmd/xgo/instrument.go
+++ b/cmd/xgo/instrument.go
@@ -59,7 +59,14 @@ func instrumentUserCode(goroot string, projectDir string, projectRoot string, go
 			return nil, err
 		}
 		if vendorDir != "" {
-			mod = "vendor"
+			// in a workspace, vendor belongs to the workspace
+			goWork, err := getGoWork(goroot, filepath.Join(goroot, "bin", "go"), projectDir)
+			if err != nil {
+				return nil, err
+			}
+			if goWork == "" {
+				mod = "vendor"
+			}
 		}
 	}
 
diff --git a/cmd/xgo/trace.go b/cmd/xgo/trace.go
index b9a5ab2..9b4359b 100644
--- a/cmd/xgo/trace.go
+++ b/cmd/xgo/trace.go
@@ -83,13 +83,21 @@ func importRuntimeDepGenOverlay(cmd string, goroot string, goBinary string, goVe
 	if err != nil {
 		return nil, err
 	}
+	goWork, err := getGoWork(goroot, goBinary, projectDir)
+	if err != nil {
+		return nil, err
+	}
 	var vendorDir string
 	if mod == "vendor" || mod == "" {
 		absProjectRoot, err := filepath.Abs(projectRoot)
 		if err != nil {
 			return nil, err
 		}
-		vendorDir, err = getVendorDir(absProjectRoot)
+		vendorParent := absProjectRoot
+		if goWork != "" {
+			vendorParent = filepath.Dir(goWork)
+		}
+		vendorDir, err = getVendorDir(vendorParent)
 		if err != nil {
 			return nil, err
 		}
@@ -101,7 +109,7 @@ func importRuntimeDepGenOverlay(cmd string, goroot string, goBinary string, goVe
 	if forceLoad {
 		needLoad = true
 	} else {
-		needLoad, err = checkNeedLoadDep(goroot, goBinary, projectRoot, vendorDir, absModFile)
+		needLoad, err = checkNeedLoadDep(goroot, goBinary, projectRoot, goWork, vendorDir, absModFile)
 		if err != nil {
 			return nil, err
 		}
@@ -138,7 +146,7 @@ func importRuntimeDepGenOverlay(cmd string, goroot string, goBinary string, goVe
 			return nil, err
 		}
 
-			overlayInfo, err := loadDependency(goroot, goBinary, goVersion, absModFile, xgoSrc, projectRoot, mainModule, vendorDir, overlayDir, runtimeModuleDir, forceCopyRuntime)
+			overlayInfo, err := loadDependency(goroot, goBinary, goVersion, absModFile, xgoSrc, projectRoot, mainModule, goWork, vendorDir, overlayDir, runtimeModuleDir, forceCopyRuntime)
 		if err != nil {
 			return nil, err
 		}
@@ -187,10 +195,13 @@ type ListError struct {
 	Err string
 }
 
-func checkNeedLoadDep(goroot string, goBinary string, projectRoot string, vendorDir string, modfile string) (bool, error) {
+func checkNeedLoadDep(goroot string, goBinary string, projectRoot string, goWork string, vendorDir string, modfile string) (bool, error) {
 	effectiveMod := "mod"
 	if vendorDir != "" {
 		effectiveMod = "vendor"
+	} else if goWork != "" {
+		// -mod=mod is rejected in workspace mode
+		effectiveMod = "readonly"
 	}
 	// -e: suppress error
 	//  if github.com/xhd2015/xgo/runtime does not exists,
@@ -242,7 +253,7 @@ type dependencyInfo struct {
 	modfile string // alternative go.mod
 }
 
-func loadDependency(goroot string, goBinary string, goVersion *goinfo.GoVersion, modfileOption string, xgoSrc string, projectRoot string, mainModule string, vendorDir string, tmpOverlayDir string, tmpRuntime string, forceCopyRuntime bool) (*dependencyInfo, error) {
+func loadDependency(goroot string, goBinary string, goVersion *goinfo.GoVersion, modfileOption string, xgoSrc string, projectRoot string, mainModule string, goWork string, vendorDir string, tmpOverlayDir string, tmpRuntime string, forceCopyRuntime bool) (*dependencyInfo, error) {
 	if isDevelopment {
 		err := filecopy.NewOptions().Ignore(".xgo", "test").CopyReplaceDir(filepath.Join(xgoSrc, "runtime"), tmpRuntime)
 		if err != nil {
@@ -325,28 +336,58 @@ func loadDependency(goroot string, goBinary string, goVersion *goinfo.GoVersion,
 	tmpGoSum := strings.TrimSuffix(tmpGoMod, ".mod") + ".sum"
 	_ = filecopy.CopyFileAll(goSum, tmpGoSum) // best-effort: go.sum may not exist
 
+	// in a workspace go.mod is not replaced by -modfile, and
+	// replacements go to go.work, where they have precedence
+	// over those of the modules
+	var tmpGoWork string
+	if goWork != "" {
+		tmpGoWork = fileutil.RebasePath(tmpOverlayDir, goWork)
+		err := filecopy.CopyFileAll(goWork, tmpGoWork)
+		if err != nil {
+			return nil, err
+		}
+	}
+	editModules := func(goModFlags []string, replaceFlags []string) error {
+		modArgs := append([]string{"mod", "edit"}, goModFlags...)
+		if goWork == "" {
+			modArgs = append(modArgs, replaceFlags...)
+		}
+		modArgs = append(modArgs, tmpGoMod)
+		env := []string{"GOROOT=" + goroot}
+		err := cmd.Env(env).Run(goBinary, modArgs...)
+		if err != nil || goWork == "" {
+			return err
+		}
+		workArgs := append([]string{"work", "edit"}, replaceFlags...)
+		workArgs = append(workArgs, tmpGoWork)
+		return cmd.Env(env).Run(goBinary, workArgs...)
+	}
+
 	// use -modfile ?
 	var modfile string
 	var mod string
 	goModReplace := make(map[overlay.AbsFile]overlay.AbsFile)
+	if goWork != "" {
+		goModReplace[overlay.AbsFile(goWork)] = overlay.AbsFile(tmpGoWork)
+	}
+	// the go directive of the temporary go.mod must not be less than
+	// those of its dependencies
+	minGoVersion := "1.18"
 	if vendorDir != "" {
-		var hasReplace bool
-
 		// read vendor/modules.txt,
 		vendorInfo, err := goinfo.ParseVendor(vendorDir)
 		if err != nil {
 			return nil, err
 		}
-		replacedModules := make([]string, 0, len(vendorInfo.VendorList))
+		var requireFlags []string
+		var replaceFlags []string
 		// get all modules, convert all deps to replace
 		for _, mod := range vendorInfo.VendorList {
 			// modInfo is completely optional
 			modInfo := vendorInfo.VendorMeta[mod]
+			// a replaced module is vendored under its own path,
+			// also see https://github.com/xhd2015/xgo/issues/87#issuecomment-2074722912
 			modPath := mod.Path
-			if modInfo.Replacement.Path != "" &&
-				!isLocalReplace(modInfo.Replacement.Path) { // !isLocalReplace, see https://github.com/xhd2015/xgo/issues/87#issuecomment-2074722912
-				modPath = modInfo.Replacement.Path
-			}
 			vendorModPath := filepath.Join(vendorDir, modPath)
 			vendorModFile := filepath.Join(vendorModPath, "go.mod")
 			replaceModFile := fileutil.RebasePath(tmpOverlayDir, vendorModFile)
@@ -361,18 +402,18 @@ func loadDependency(goroot string, goBinary string, goVersion *goinfo.GoVersion,
 			if version == "" {
 				version = "v0.0.0-00010101000000-000000000000"
 			}
-			requireCmd := fmt.Sprintf("-require=%s@%s", modPath, version)
+			requireFlags = append(requireFlags, fmt.Sprintf("-require=%s@%s", modPath, version))
 
 			// logDebug("replace %s -> %s", modPath, vendorModPath)
-			replacedModules = append(replacedModules,
-				requireCmd,
-				fmt.Sprintf("-replace=%s=%s", modPath, vendorModPath),
-			)
-			hasReplace = true
+			replaceFlags = append(replaceFlags, fmt.Sprintf("-replace=%s=%s", modPath, vendorModPath))
 			// create placeholder go.mod for each module
 			modGoVersion := modInfo.GoVersion
 			if modGoVersion == "" {
-				modGoVersion = fmt.Sprintf("%d.%d", goVersion.Major, goVersion.Minor)
+				// what go assumes if the version is unknown
+				modGoVersion = "1.16"
+			}
+			if compareGoDirective(modGoVersion, minGoVersion) > 0 {
+				minGoVersion = modGoVersion
 			}
 			err := createGoModPlaceholder(replaceModFile, modPath, modGoVersion)
 			if err != nil {
@@ -380,43 +421,26 @@ func loadDependency(goroot string, goBinary string, goVersion *goinfo.GoVersion,
 			}
 			goModReplace[overlay.AbsFile(vendorModFile)] = overlay.AbsFile(replaceModFile)
 		}
-		logDebug("num replaced modules: %d", len(replacedModules)/2)
+		logDebug("num replaced modules: %d", len(replaceFlags))
 
-		if hasReplace {
-			if false {
-				// go.sum needs to be synced?
-				goSum := filepath.Join(projectRoot, "go.sum")
-				tmpGoSum := fileutil.RebasePath(tmpOverlayDir, goSum)
-				err := os.MkdirAll(filepath.Dir(tmpGoSum), 0755)
-				if err != nil {
-					return nil, err
-				}
-				// write an empty go.sum
-				err = os.WriteFile(tmpGoSum, nil, 0755)
-				if err != nil {
-					return nil, err
-				}
-				goModReplace[overlay.AbsFile(goSum)] = overlay.AbsFile(tmpGoSum)
+		// system may have limit on single go command
+		requireGroups := splitArgsBatch(requireFlags, 100)
+		for i, replaceGroup := range splitArgsBatch(replaceFlags, 100) {
+			if len(replaceGroup) == 0 {
+				continue
+			}
+			err := editModules(requireGroups[i], replaceGroup)
+			if err != nil {
+				return nil, err
 			}
-			// force use -mod=mod
+		}
+		if goWork != "" {
+			mod = "readonly"
+		} else {
 			mod = "mod" // force use mod after replaced vendor
 			modfile = tmpGoMod
-			for _, replaceModuleGroup := range splitArgsBatch(replacedModules, 100) {
-				// go mod edit -replace go.mod
-				editArgs := make([]string, 0, 3+len(replaceModuleGroup))
-				editArgs = append(editArgs, "mod", "edit")
-				editArgs = append(editArgs, replaceModuleGroup...)
-				editArgs = append(editArgs, tmpGoMod)
-				err = cmd.Env([]string{
-					"GOROOT=" + goroot,
-				}).Run(goBinary, editArgs...)
-				if err != nil {
-					return nil, err
-				}
-			}
-
 		}
-	} else {
+	} else if goWork == "" {
 		// TODO: why
 		modfile = tmpGoMod
 	}
@@ -426,19 +450,23 @@ func loadDependency(goroot string, goBinary string, goVersion *goinfo.GoVersion,
 	// which Go 1.25 rejects. See patches/go1.25/issues/RUNTIME_LIB_SELF_REQUIRE.md
 	if mainModule != constants.RUNTIME_MODULE {
 		logDebug("require %s v%s, replaced: %s", constants.RUNTIME_MODULE, VERSION, tmpRuntime)
-		modEditArgs := []string{"mod", "edit",
-			fmt.Sprintf("-require=%s@v%s", constants.RUNTIME_MODULE, VERSION),
-			fmt.Sprintf("-replace=%s=%s", constants.RUNTIME_MODULE, tmpRuntime),
-		}
+		modFlags := []string{fmt.Sprintf("-require=%s@v%s", constants.RUNTIME_MODULE, VERSION)}
 		// In Go 1.26+, 'go mod tidy' is required when using old go directives (e.g. go 1.14)
 		// with require/replace. Bump the go directive to at least 1.18 to avoid this.
+		// But not further than necessary: the directive decides the language version
+		// and default GODEBUG settings of the program.
 		if goVersion.Minor >= 26 {
-			modEditArgs = append(modEditArgs, fmt.Sprintf("-go=%d.%d", goVersion.Major, goVersion.Minor))
+			content, err := os.ReadFile(tmpGoMod)
+			if err != nil {
+				return nil, err
+			}
+			if compareGoDirective(parseGoDirective(string(content)), minGoVersion) < 0 {
+				modFlags = append(modFlags, "-go="+minGoVersion)
+			}
 		}
-		modEditArgs = append(modEditArgs, tmpGoMod)
-		err = cmd.Env([]string{
-			"GOROOT=" + goroot,
-		}).Run(goBinary, modEditArgs...)
+		err := editModules(modFlags, []string{
+			fmt.Sprintf("-replace=%s=%s", constants.RUNTIME_MODULE, tmpRuntime),
+		})
 		if err != nil {
 			return nil, err
 		}
@@ -517,6 +545,66 @@ func needCopyRuntimeFromXgo(targetRuntimeDir string) (bool, error) {
 	return false, nil
 }
 
+// getGoWork returns the go.work in effect, empty if not in a workspace
+func getGoWork(goroot string, goBinary string, dir string) (string, error) {
+	output, err := cmd.Dir(dir).Env([]string{
+		"GOROOT=" + goroot,
+	}).Output(goBinary, "env", "GOWORK")
+	if err != nil {
+		return "", err
+	}
+	goWork := strings.TrimSpace(output)
+	if goWork == "off" {
+		return "", nil
+	}
+	return goWork, nil
+}
+
+// parseGoDirective returns the version of the go directive,
+// empty if there is none
+func parseGoDirective(goMod string) string {
+	for _, line := range strings.Split(goMod, "\n") {
+		if idx := strings.Index(line, "//"); idx >= 0 {
+			line = line[:idx]
+		}
+		fields := strings.Fields(line)
+		if len(fields) == 2 && fields[0] == "go" {
+			return fields[1]
+		}
+	}
+	return ""
+}
+
+// compareGoDirective compares versions of the go directive,
+// such as 1.18, 1.22.3 and 1.23rc1
+func compareGoDirective(a string, b string) int {
+	for a != "" || b != "" {
+		var x, y int
+		x, a = nextVersionNumber(a)
+		y, b = nextVersionNumber(b)
+		if x != y {
+			if x < y {
+				return -1
+			}
+			return 1
+		}
+	}
+	return 0
+}
+
+func nextVersionNumber(version string) (int, string) {
+	i := 0
+	n := 0
+	for i < len(version) && version[i] >= '0' && version[i] <= '9' {
+		n = n*10 + int(version[i]-'0')
+		i++
+	}
+	for i < len(version) && (version[i] < '0' || version[i] > '9') {
+		i++
+	}
+	return n, version[i:]
+}
+
 // system may have limit on single go command
 func splitArgsBatch(args []string, limit int) [][]string {
 	if len(args) <= limit {
@@ -549,20 +637,6 @@ func splitArgsBatch(args []string, limit int) [][]string {
 	return groups
 }
 
-func isLocalReplace(modPath string) bool {
-	// ./ or ../
-	if modPath == "." || modPath == ".." {
-		return true
-	}
-	if strings.HasPrefix(modPath, "./") {
-		return true
-	}
-	if strings.HasPrefix(modPath, "../") {
-		return true
-	}
-	return false
-}
-
 func addBlankImports(goroot string, goBinary string, projectDir string, listFlags []string, pkgArgs []string, tmpProjectDir string) (replace map[string]string, err error) {
 	// list files, add init
 	// NOTE: go build tag applies, see listFlags
diff --git a/instrument/instrument_xgo_runtime/link.go b/instrument/instrument_xgo_runtime/link.go
index 0626056..613ff1b 100644
--- a/instrument/instrument_xgo_runtime/link.go
+++ b/instrument/instrument_xgo_runtime/link.go
@@ -56,6 +56,10 @@ func LinkXgoRuntime(goroot string, projectDir string, xgoRuntimeModuleDir string
 		opts = load.LoadOptions{
 			Dir:  xgoRuntimeModuleDir,
 			Fset: fset,
+			// the files of these packages are going to be rewritten,
+			// they must be those in the separate module, whatever
+			// workspace and flags apply to the project
+			Env: []string{"GOWORK=off", "GOFLAGS="},
 		}
 	} else {
 		opts = load.LoadOptions{
diff --git a/instrument/load/load.go b/instrument/load/load.go
index 9ef04d6..8b3bd9e 100644
--- a/instrument/load/load.go
+++ b/instrument/load/load.go
@@ -29,6 +29,9 @@ type LoadOptions struct {
 	// files, such as -tags, -race and -overlay
 	ListFlags []string
 
+	// extra environment of go list
+	Env []string
+
 	// max file size to parse
 	// if file size is larger than this
 	// see https://github.com/xhd2015/xgo/issues/303
@@ -78,6 +81,7 @@ func LoadPackages(args []string, opts LoadOptions) (*Packages, error) {
 		Goroot:  goroot,
 		Deps:    deps,
 		Flags:   opts.ListFlags,
+		Env:     opts.Env,
 		Test:    false, // NOTE: don't set it
 	})
 	if err != nil {
diff --git a/support/goinfo/list.go b/support/goinfo/list.go
index fd9614e..4ce14ec 100644
--- a/support/goinfo/list.go
+++ b/support/goinfo/list.go
@@ -44,8 +44,10 @@ type LoadPackageOptions struct {
 	Goroot  string // GOROOT env
 	// other flags that select files, such as -tags, -race and -overlay
 	Flags []string
-	Deps  bool // -deps flag
-	Test  bool // -test flag, if true, will have packages like "github.com/xhd2015/xgo/runtime/test/trap/inspect [github.com/xhd2015/xgo/runtime/test/trap/inspect.test]", so don't set it
+	// extra environment
+	Env  []string
+	Deps bool // -deps flag
+	Test bool // -test flag, if true, will have packages like "github.com/xhd2015/xgo/runtime/test/trap/inspect [github.com/xhd2015/xgo/runtime/test/trap/inspect.test]", so don't set it
 }
 
 // go list -e -json ./pkg
@@ -71,6 +73,7 @@ func ListPackages(args []string, opts LoadPackageOptions) ([]*Package, error) {
 		goCmd = filepath.Join(opts.Goroot, "bin", "go")
 		env = append(env, "GOROOT="+opts.Goroot)
 	}
+	env = append(env, opts.Env...)
 	output, err := cmd.Dir(opts.Dir).Env(env).Output(goCmd, flags...)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From f273309a069fe6a75d30a670fcce83d24e53e5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:31 +0000
Subject: [PATCH 71/71] fix: flags given by GOFLAGS, project directories that
 are symlinks, relative ones in workspaces

xgo passes -mod, -modfile and -overlay to go itself, which overrode those of GOFLAGS.
---
 cmd/xgo/go_build.go | 32 ++++++++++++++++++++++++++++++++
 cmd/xgo/main.go     | 24 ++++++++++++++++++++++++
 cmd/xgo/trace.go    | 10 +++++-----
 3 files changed, 61 insertions(+), 5 deletions(-)

diff --git a/cmd/xgo/go_build.go b/cmd/xgo/go_build.go
index 40674bd..b99439f 100644
--- a/cmd/xgo/go_build.go
+++ b/cmd/xgo/go_build.go
@@ -4,6 +4,7 @@ import (
 	"os"
 	"os/exec"
 	"path/filepath"
+	"strings"
 
 	"github.com/xhd2015/xgo/instrument/build"
 )
@@ -35,3 +36,34 @@ func buildExecTool(dir string, execToolBin string) error {
 	cmd.Env = build.AppendNativeBuildEnv(os.Environ())
 	return cmd.Run()
 }
+
+// parseGoFlags returns the last value of each flag in GOFLAGS, which
+// are separated by spaces and may be quoted
+func parseGoFlags(goFlags string) map[string]string {
+	values := make(map[string]string)
+	for {
+		goFlags = strings.TrimLeft(goFlags, " \t\r\n")
+		if goFlags == "" {
+			return values
+		}
+		var flag string
+		end := -1
+		if quote := goFlags[0]; quote == '\'' || quote == '"' {
+			goFlags = goFlags[1:]
+			end = strings.IndexByte(goFlags, quote)
+		} else {
+			end = strings.IndexAny(goFlags, " \t\r\n")
+		}
+		if end < 0 {
+			flag, goFlags = goFlags, ""
+		} else {
+			flag, goFlags = goFlags[:end], goFlags[end+1:]
+		}
+		idx := strings.Index(flag, "=")
+		if idx < 0 || !strings.HasPrefix(flag, "-") {
+			continue
+		}
+		name := strings.TrimPrefix(strings.TrimPrefix(flag[:idx], "-"), "-")
+		values[name] = flag[idx+1:]
+	}
+}
diff --git a/cmd/xgo/main.go b/cmd/xgo/main.go
index d3bb28f..48871dc 100644
--- a/cmd/xgo/main.go
+++ b/cmd/xgo/main.go
@@ -198,8 +198,32 @@ func handleBuild(cmd string, args []string) error {
 		if err != nil {
 			return fmt.Errorf("resolve overlay base directory: %w", err)
 		}
+		if wd, _ := os.Getwd(); overlayBaseDir != wd {
+			// as PWD is another directory, go lists paths
+			// there with symlinks evaluated
+			if evalDir, err := filepath.EvalSymlinks(overlayBaseDir); err == nil && evalDir != overlayBaseDir {
+				projectDir = evalDir
+				overlayBaseDir = evalDir
+			}
+		}
 	}
 	overlayPathOpts := overlay.PathOptions{BaseDir: overlayBaseDir}
+	if !cmdExec && !opts.noInstrument {
+		// flags that xgo passes to go itself override those in GOFLAGS
+		goFlags := parseGoFlags(os.Getenv("GOFLAGS"))
+		if opts.mod == "" {
+			opts.mod = goFlags["mod"]
+		}
+		if opts.overlay == "" {
+			opts.overlay = goFlags["overlay"]
+		}
+		if goModfile := goFlags["modfile"]; opts.modfile == "" && goModfile != "" {
+			if !filepath.IsAbs(goModfile) {
+				goModfile = filepath.Join(overlayBaseDir, goModfile)
+			}
+			opts.modfile = goModfile
+		}
+	}
 	if overlayFile := opts.overlay; overlayFile != "" {
 		opts.overlay = string(overlay.ResolveAbsFile(overlay.AbsFile(overlayFile), overlayPathOpts))
 	}
diff --git a/cmd/xgo/trace.go b/cmd/xgo/trace.go
index 9b4359b..b5be59a 100644
--- a/cmd/xgo/trace.go
+++ b/cmd/xgo/trace.go
@@ -83,17 +83,17 @@ func importRuntimeDepGenOverlay(cmd string, goroot string, goBinary string, goVe
 	if err != nil {
 		return nil, err
 	}
+	projectRoot, err = filepath.Abs(projectRoot)
+	if err != nil {
+		return nil, err
+	}
 	goWork, err := getGoWork(goroot, goBinary, projectDir)
 	if err != nil {
 		return nil, err
 	}
 	var vendorDir string
 	if mod == "vendor" || mod == "" {
-		absProjectRoot, err := filepath.Abs(projectRoot)
-		if err != nil {
-			return nil, err
-		}
-		vendorParent := absProjectRoot
+		vendorParent := projectRoot
 		if goWork != "" {
 			vendorParent = filepath.Dir(goWork)
 		}
-- 
2.43.0


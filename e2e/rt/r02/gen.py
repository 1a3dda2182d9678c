#!/usr/bin/env python3
"""Writes inst_test.go: the instantiations, spelled out (a func value taken
inside generic code is a closure, which cannot be named as a target)."""
import os
BOX = [("int", "5", "a"), ("MyInt", "MyInt(5)", "MyInt(a)"), ("string", '"s"', "fmt.Sprint(a)"), ("MyStr", 'MyStr("s")', "MyStr(fmt.Sprint(a))"),
       ("*Pt", "&Pt{1, 2}", "&Pt{a, a}"), ("*tgt.T", "&tgt.T{ID: 3}", "&tgt.T{ID: a}"), ("Pt", "Pt{1, 2}", "Pt{a, 1}"), ("[]int", "[]int{1}", "[]int{a}"),
       ("any", "any(3)", "any(a)"), ("error", 'errors.New("x")', 'fmt.Errorf("e%d", a)'), ("tgt.Shape", "tgt.Shape(&tgt.Sq{S: 1})", "tgt.Shape(&tgt.Sq{S: a})"),
       ("func(int) int", "func(x int) int { return x }", "func(x int) int { return x + a }"), ("map[string]Pt", 'map[string]Pt{}', 'map[string]Pt{"a": {a, a}}')]
o = ["// Code generated by gen.py; DO NOT EDIT.", "package r02", "", 'import (', '"errors"', '"fmt"', '"rlab/tgt"', ')', "",
     "func addInstances(add func(*Subject)) {", "var _ = errors.New"]
for t, v, mk in BOX:
    o.append("{")
    o.append("type A = %s; mk := func(a int) A { return %s }" % (t, mk))
    o.append("args := func(a int) []interface{} { return []interface{}{mk(a)} }")
    o.append("for i := 0; i < 2; i++ { i := i; var v A = %s; b := &tgt.Box[%s]{V: v, ID: i}; w := *b" % (v, t))
    o.append("_ = w")
    o.append('add(&Subject{Group: "(*Box).Get", Inst: "%s", Key: fmt.Sprint("%s", i), Recv: b, Bound: []interface{}{b.Get}, Expr: (*tgt.Box[%s]).Get,' % (t, t, t))
    o.append('Calls: []func(a int) string{func(a int) string { return C(b.Get(a)) }, func(a int) string { return C((*tgt.Box[%s]).Get(b, a)) }, func(a int) string { return callGet(b, a) }},' % t)
    o.append('Orig: func(a int) string { return C(v, i+a) }})')
    if t != "func(int) int":
        o.append('add(&Subject{Group: "Box.With", Inst: "%s", Key: fmt.Sprint("%s", i), Recv: w, Bound: []interface{}{w.With}, Expr: tgt.Box[%s].With, Args: args,' % (t, t, t))
        o.append('Calls: []func(a int) string{func(a int) string { return C(w.With(mk(a))) }, func(a int) string { return callWith(w, mk(a)) }},')
        o.append('Orig: func(a int) string { return C(tgt.Box[A]{V: mk(a), ID: i + 1}) }})')
    o.append('tr := &tgt.Tree[%s]{V: v}; if i == 0 { tr = nil }' % t)
    o.append('add(&Subject{Group: "(*Tree).Size", Inst: "%s", Key: fmt.Sprint("%s", i), Recv: tr, Bound: []interface{}{tr.Size}, Expr: (*tgt.Tree[%s]).Size, Args: none,' % (t, t, t))
    o.append('Calls: []func(a int) string{func(a int) string { return C(tr.Size()) }}, Orig: func(a int) string { return C(i) }})')
    o.append("}")
    def g(group, expr, call, orig, args="args"):
        o.append('add(&Subject{Group: "%s", Inst: "%s", Expr: %s, Args: %s, Calls: []func(a int) string{%s}, Orig: func(a int) string { %s }})'
                 % (group, t, expr, args, ", ".join("func(a int) string { %s }" % c for c in call), orig))
    g("G", "tgt.G[%s]" % t, ["return C(tgt.G(mk(a)))", "f := tgt.G[%s]; return C(f(mk(a)))" % t, "return callG(mk(a))"], "return C(mk(a))")
    g("H", "tgt.H[%s]" % t, ["return C(tgt.H(mk(a)))"], 'return C("h")')
    g("MapOf", "tgt.MapOf[string, %s]" % t, ['return C(tgt.MapOf("k", mk(a)))'], 'return C(map[string]A{"k": mk(a)})', 'func(a int) []interface{} { return []interface{}{"k", mk(a)} }')
    g("Ret", "tgt.Ret[%s]" % t, ["return C(tgt.Ret[%s]())" % t], "var z A; return C(z)", "none")
    g("Many3", "tgt.Many3[%s]" % t, ["return C(tgt.Many3(mk(a), mk(2)))", "return C(tgt.Many3([]A{mk(a), mk(2)}...))"], "return C(2, []A{mk(a), mk(2)})", "func(a int) []interface{} { return []interface{}{[]A{mk(a), mk(2)}} }")
    o.append("}")
for t in ("int", "MyInt", "float64"):
    o.append('add(&Subject{Group: "Twice", Inst: "%s", Expr: tgt.Twice[%s], Args: func(a int) []interface{} { return []interface{}{%s(a)} }, Calls: []func(a int) string{func(a int) string { return C(tgt.Twice(%s(a))) }}, Orig: func(a int) string { return C(%s(a) + %s(a)) }})' % ((t,) * 6))
o.append("}")
o.append("func callG[A any](x A) string { return C(tgt.G(x)) }")
o.append("func callGet[A any](b *tgt.Box[A], a int) string { return C(b.Get(a)) }")
o.append("func callWith[A any](b tgt.Box[A], v A) string { return C(b.With(v)) }")
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "inst_test.go")
open(f, "w").write("\n".join(o) + "\n")
os.system("gofmt -w " + f)

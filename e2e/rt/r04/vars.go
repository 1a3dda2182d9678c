package r04

import "verif/vh"

var VarA int = 10
var VarB string = "b"

func ReadA() int    { return VarA }
func ReadB() string { return VarB }
func PtrA() *int    { return &VarA }

// a target with a node, so that the function itself can be a goroutine
func Body(out chan string, a int) int {
	vh.Hit("Body")
	out <- "orig"
	return a + 1
}

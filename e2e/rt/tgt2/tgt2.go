// Package tgt2 has functions that are only reachable by name from outside.
package tgt2

import (
	"fmt"

	"verif/vh"
)

func Wrap(a, b int) (string, int) { return unexp(a, b) }

func unexp(a, b int) (string, int) {
	vh.Hit("unexp")
	return fmt.Sprintf("u%d/%d", a, b), a + b
}

type hidden struct{ id int }

func (h *hidden) secret(a int) int { vh.Hit("secret"); return h.id*100 + a }

func (h hidden) secretVal(a int, s string) (string, error) {
	vh.Hit("secretVal")
	if a%5 == 0 {
		return "", fmt.Errorf("five %s", s)
	}
	return fmt.Sprintf("%d%s%d", h.id, s, a), nil
}

var hid = &hidden{id: 4}

func Hid() interface{}    { return hid }
func HidVal() interface{} { return *hid }

func CallSecret(a int) int { return hid.secret(a) }

func CallSecretVal(a int, s string) (string, error) { return hid.secretVal(a, s) }

// Same names as in package tgt.
func Add(a, b int) int { vh.Hit("tgt2.Add"); return a + b + 5000 }

type T struct{ ID int }

func (t *T) Ptr(a int) int { vh.Hit("tgt2.Ptr"); return t.ID + a + 7000 }

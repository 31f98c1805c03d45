// Package vhook is called at the entry of every function of the packages under test.
package vhook

var F func()

func P() {
	if F != nil {
		F()
	}
}

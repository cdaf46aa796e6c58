// Package spew is a small stand-in for github.com/davecgh/go-spew/spew.
package spew

import "fmt"

func Dump(a ...interface{}) { fmt.Printf("%#v\n", a) }

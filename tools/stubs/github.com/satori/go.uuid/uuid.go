// Package uuid is a small stand-in for github.com/satori/go.uuid.
package uuid

import (
	"crypto/rand"
	"fmt"
)

type UUID [16]byte

var Nil UUID

func NewV4() (u UUID) {
	rand.Read(u[:])
	return
}

func NewV1() UUID { return NewV4() }

func (u UUID) String() string { return fmt.Sprintf("%x-%x-%x-%x-%x", u[0:4], u[4:6], u[6:8], u[8:10], u[10:]) }

// Package io is a stub.
package io

type Reader interface {
	Read(p []byte) (n int, err error)
}

// Package time is a stub: the exported types of the real package that programs
// under analysis refer to.
package time

type Location struct{ name string }

type Time struct {
	wall uint64
	ext  int64
	loc  *Location
}

func (t Time) Unix() int64 { return 0 }

type Duration int64

type Month int

type Weekday int

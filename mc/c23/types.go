//go:build go1.21

package main

import "time"

// Node is a list.
type Node struct {
	Next *Node `json:"next"`
	V    int   `json:"v,omitempty"`
}

type Tree struct {
	Kids []Tree
	Name string `json:"name"`
}

type Dict struct {
	Sub map[string]Dict
	P   *map[string]*Dict
}

type A struct {
	B  *B
	BB []*B `json:"bb"`
}

type B struct {
	A  []A
	AA [1]*A
}

type List []List

type Deep map[string]Deep

type Chain *Chain

type Base struct {
	ID   int64
	Note *string `json:"note,omitempty"`
}

type hidden struct {
	Seen bool
	gone int
}

type Emb struct {
	Base
	X int
}

type EmbPtr struct {
	*Base
	X int
}

type EmbNamed struct {
	Base `json:"base"`
	ID   string
}

type EmbHidden struct {
	hidden
	X int
}

type EmbRec struct {
	*EmbRec
	X []int
}

type EmbOther struct {
	Word
	Nums
	X int
}

type Word string

type Nums []int

type Mix struct {
	Base
	Emb
	Y time.Time
	Z *time.Time
}

type Quoted struct {
	A int      `json:",string"`
	B *int     `json:"b,string"`
	C bool     `json:",string"`
	D float64  `json:",string,omitempty"`
	E string   `json:",string"`
	F []int    `json:",string"`
	G Word     `json:",string"`
	H **int    `json:",string"`
	I Int      `json:",string"`
	J *Int     `json:",string"`
	K *bool    `json:",omitempty,string"`
	L *float32 `json:"l,string,omitempty"`
}

type Int int

type IntPtr *int

type Ptrs struct {
	A **int
	B *[]string
	C *map[string]*Base
	D **Base
	E *IntPtr
	F []**Base
	G *struct{ V *Base }
	H *Deep
	I [2]*Base
	J *Word
}

type Bytes struct {
	B [4]byte
	U []uint16
}

type Raw struct {
	B []byte
}

type Keys struct {
	A map[Word]int
	B map[Int]*Base
	C map[uint8][]Word
}

// end

var decls = []reflectType{
	of(Node{}), of(Tree{}), of(Dict{}), of(A{}), of(B{}), of(List{}), of(Deep{}), of(Chain(nil)), of(Base{}), of(Emb{}), of(EmbPtr{}), of(EmbNamed{}),
	of(EmbHidden{}), of(EmbRec{}), of(EmbOther{}), of(Word("")), of(Nums{}), of(Mix{}), of(Quoted{}), of(Int(0)), of(IntPtr(nil)), of(Ptrs{}), of(Bytes{}), of(Raw{}), of(Keys{}),
}

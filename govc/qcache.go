package main

import (
	"crypto/sha256"
	"encoding/binary"
)

// Query cache: two queries that differ only in the names of their variables have the same answer.

type queryKey struct {
	buf  []byte
	num  map[int]int
	vars int
}

func (k *queryKey) int(n int) { k.buf = binary.AppendVarint(k.buf, int64(n)) }

func (k *queryKey) str(s string) {
	k.int(len(s))
	k.buf = append(k.buf, s...)
}

func (k *queryKey) term(t *Term) int {
	if n, ok := k.num[t.id]; ok {
		return n
	}
	var kids []int
	for _, a := range t.args {
		kids = append(kids, k.term(a))
	}
	n := len(k.num)
	k.num[t.id] = n
	k.int(int(t.op))
	k.str(t.sort.smt)
	switch t.op {
	case OVar:
		k.int(k.vars)
		k.vars++
		return n
	}
	k.str(t.name)
	if t.ival != nil {
		k.str(t.ival.String())
	} else {
		k.int(-1)
	}
	k.int(len(kids))
	for _, a := range kids {
		k.int(a)
	}
	k.int(len(t.coefs))
	for _, x := range t.coefs {
		k.str(x.String())
	}
	// the definition of div and mod in SMT depends on the operand's interval
	if t.op == ODiv || t.op == OMod {
		nm, q := narrow(t)
		k.str(nm)
		if q {
			k.int(1)
		}
	}
	return n
}

func queryKeyOf(as []*Term) [32]byte {
	k := &queryKey{num: map[int]int{}}
	for _, a := range as {
		k.int(-2 - k.term(a))
	}
	return sha256.Sum256(k.buf)
}

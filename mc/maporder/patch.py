#!/usr/bin/env python3
"""patch.py GOROOT SCRATCH OUT: makes an overlay of internal/runtime/maps in
which the order of a map iteration is taken from a hook (verifOrder) when it
gives one."""
import json, os, sys
goroot, scratch, out = sys.argv[1:4]
f = os.path.join(goroot, 'src/internal/runtime/maps/table.go')
s = open(f).read()
a = '''	it.typ = typ

	if m == nil || m.used == 0 {
		return
	}
'''
assert s.count(a) == 1
s = s.replace(a, a + '''
	if verifOrder != nil && m.used > 1 && verifInit(it, typ, m) {
		return
	}
''')
b = '''	if it.dirIdx < 0 {
		// Map was small at Init.
'''
assert s.count(b) == 1
s = s.replace(b, '''	if it.entryOffset == verifMagic {
		verifNext(it)
		return
	}

''' + b)
s += '''
const verifMagic = 0x7665726966_6d61

// verifOrder gives the order of n keys, or nothing.
var verifOrder func(n int) []int

// verifRank gives the place of an element among those of a map.
var verifRank func(elem unsafe.Pointer) string

type verifList struct {
	keys []unsafe.Pointer
}

func verifInit(it *Iter, typ *abi.MapType, m *Map) bool {
	order := verifOrder(int(m.used))
	if order == nil {
		return false
	}
	l := new(verifList)
	var raw Iter
	raw.typ = typ
	raw.m = m
	raw.globalDepth = m.globalDepth
	raw.clearSeq = m.clearSeq
	if m.dirLen <= 0 {
		raw.dirIdx = -1
		raw.group.data = m.dirPtr
	}
	var keys []unsafe.Pointer
	for {
		raw.Next()
		if raw.key == nil {
			break
		}
		k := newobject(typ.Key) // later deletions clear the slot
		typedmemmove(typ.Key, k, raw.key)
		keys = append(keys, k)
	}
	if typ.Key.Kind() == abi.String {
		for i := range keys {
			for j := i; j > 0 && *(*string)(keys[j]) < *(*string)(keys[j-1]); j-- {
				keys[j], keys[j-1] = keys[j-1], keys[j]
			}
		}
	}
	if typ.Key.Kind() == abi.Uint32 && verifRank != nil {
		// buckets of a map of types
		ranks := make([]string, len(keys))
		for i := range keys {
			_, elem, ok := m.getWithKey(typ, keys[i])
			if ok {
				ranks[i] = verifRank(elem)
			}
			for j := i; j > 0 && ranks[j] < ranks[j-1]; j-- {
				keys[j], keys[j-1] = keys[j-1], keys[j]
				ranks[j], ranks[j-1] = ranks[j-1], ranks[j]
			}
		}
	}
	if len(keys) != len(order) {
		fatal("verif: length of order")
	}
	for _, o := range order {
		l.keys = append(l.keys, keys[o])
	}
	it.m = m
	it.entryOffset = verifMagic
	it.group.data = unsafe.Pointer(l)
	return true
}

func verifNext(it *Iter) {
	l := (*verifList)(it.group.data)
	for it.entryIdx < uint64(len(l.keys)) {
		k := l.keys[it.entryIdx]
		it.entryIdx++
		key, elem, ok := it.m.getWithKey(it.typ, k)
		if !ok {
			continue
		}
		it.key, it.elem = key, elem
		return
	}
	it.key, it.elem = nil, nil
}
'''
g = os.path.join(scratch, 'maps_table.go')
open(g, 'w').write(s)
json.dump({f: g}, open(out, 'w'))

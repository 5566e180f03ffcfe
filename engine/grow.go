package main

import (
	"reflect"
	"sync"
)

type growKey struct {
	size     int64
	ptr      bool
	oldCap   int
	oldLen   int
	newLen   int
	fromZero bool
}

var (
	growMu    sync.Mutex
	growCache = map[growKey]int{}
)

// growCap returns the capacity that the Go runtime gives a slice of capacity
// oldCap after append grows it to newLen, by asking the runtime itself for an
// element type of the same size and pointerness.
func growCap(t *TI, oldLen, oldCap, newLen int) int {
	k := growKey{size: sizes.Sizeof(t.t), ptr: hasPointers(t), oldCap: oldCap, oldLen: oldLen, newLen: newLen}
	growMu.Lock()
	defer growMu.Unlock()
	if c, ok := growCache[k]; ok {
		return c
	}
	c := newLen
	if k.size > 0 {
		var et reflect.Type
		if k.ptr {
			et = reflect.ArrayOf(int((k.size+7)/8), reflect.TypeOf((*int)(nil)))
		} else {
			switch k.size {
			case 1:
				et = reflect.TypeOf(byte(0))
			case 2:
				et = reflect.TypeOf(uint16(0))
			case 4:
				et = reflect.TypeOf(uint32(0))
			case 8:
				et = reflect.TypeOf(uint64(0))
			default:
				et = reflect.ArrayOf(int(k.size), reflect.TypeOf(byte(0)))
			}
		}
		s := reflect.MakeSlice(reflect.SliceOf(et), oldLen, oldCap)
		a := reflect.MakeSlice(reflect.SliceOf(et), newLen-oldLen, newLen-oldLen)
		c = reflect.AppendSlice(s, a).Cap()
	}
	growCache[k] = c
	return c
}

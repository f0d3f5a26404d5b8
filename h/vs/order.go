package vs

import (
	"fmt"
	"reflect"
	"sort"
	"sync"
	"sync/atomic"
	"unsafe"
)

// Order decides in which order the walk number walk over a map of n keys goes:
// it permutes the indices of the sorted keys in place. nil: sorted.
var Order func(walk int, idx []int)

// Native leaves the order to the runtime.
var Native bool

// QuietWalks: walks are no steps.
var QuietWalks bool

var walks atomic.Int64

// Walks is the number of walks over maps with at least two keys since ResetWalks.
func Walks() int  { return int(walks.Load()) }
func ResetWalks() { walks.Store(0) }

// Keys returns the keys of a map in the order that Order wants.
func Keys[K comparable, V any](m map[K]V) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if !QuietWalks {
		YieldAt("map walk")
	}
	if len(keys) < 2 || Native {
		return keys
	}
	if less := lesser[K](); less != nil {
		sort.Slice(keys, func(i, j int) bool { return less(&keys[i], &keys[j]) })
	}
	w := int(walks.Add(1)) - 1
	if Order == nil {
		return keys
	}
	idx := make([]int, len(keys))
	for i := range idx {
		idx[i] = i
	}
	Order(w, idx)
	out := make([]K, len(keys))
	for i, j := range idx {
		out[i] = keys[j]
	}
	return out
}

// field is a part of a key that can be compared as a number or a string.
type field struct {
	off  uintptr
	kind reflect.Kind
}

var lessers sync.Map // reflect.Type to []field, nil if it is compared as printed

func fields(t reflect.Type, off uintptr, out []field) ([]field, bool) {
	switch t.Kind() {
	case reflect.String, reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return append(out, field{off: off, kind: t.Kind()}), true
	case reflect.Struct:
		ok := true
		for i := 0; i < t.NumField() && ok; i++ {
			out, ok = fields(t.Field(i).Type, off+t.Field(i).Offset, out)
		}
		return out, ok
	}
	return nil, false
}

func num(p unsafe.Pointer, k reflect.Kind) int64 {
	switch k {
	case reflect.Bool, reflect.Uint8:
		return int64(*(*uint8)(p))
	case reflect.Int8:
		return int64(*(*int8)(p))
	case reflect.Int16:
		return int64(*(*int16)(p))
	case reflect.Uint16:
		return int64(*(*uint16)(p))
	case reflect.Int32:
		return int64(*(*int32)(p))
	case reflect.Uint32:
		return int64(*(*uint32)(p))
	}
	return *(*int64)(p)
}

func lesser[K comparable]() func(a, b *K) bool {
	t := reflect.TypeFor[K]()
	var fs []field
	if v, ok := lessers.Load(t); ok {
		fs = v.([]field)
	} else {
		if l, ok := fields(t, 0, nil); ok {
			fs = l
		}
		lessers.Store(t, fs)
	}
	if fs == nil {
		return func(a, b *K) bool { return fmt.Sprintf("%#v", *a) < fmt.Sprintf("%#v", *b) }
	}
	return func(a, b *K) bool {
		for _, f := range fs {
			p, q := unsafe.Add(unsafe.Pointer(a), f.off), unsafe.Add(unsafe.Pointer(b), f.off)
			if f.kind == reflect.String {
				if x, y := *(*string)(p), *(*string)(q); x != y {
					return x < y
				}
				continue
			}
			if x, y := num(p, f.kind), num(q, f.kind); x != y {
				return x < y
			}
		}
		return false
	}
}

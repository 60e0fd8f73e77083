package simrt

import (
	"fmt"
	"reflect"
	"sort"
)

// K gives reference-like keys a sequence number, so that map iteration can be put in a
// deterministic order.
func K[T comparable](k T) T {
	s := S
	if s == nil {
		return k
	}
	var a any = k
	if _, ok := s.keyIDs[a]; !ok {
		s.nextKey++
		s.keyIDs[a] = s.nextKey
	}
	return k
}

// Keys lists the keys of m in an order chosen by the simulator.
func Keys[M ~map[K2]V, K2 comparable, V any](m M, site int) []K2 {
	s := S
	if len(m) == 0 {
		MR(m, site)
		return nil
	}
	MR(m, site)
	keys := make([]K2, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	var z K2
	switch any(z).(type) {
	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, string, float32, float64:
		sort.Slice(keys, func(i, j int) bool { return lessBasic(keys[i], keys[j]) })
	default:
		rt := reflect.TypeOf(&z).Elem()
		switch rt.Kind() {
		case reflect.Ptr, reflect.Interface, reflect.Chan, reflect.UnsafePointer:
			sort.Slice(keys, func(i, j int) bool { return s.keyID(keys[i]) < s.keyID(keys[j]) })
		default:
			sort.Slice(keys, func(i, j int) bool {
				return fmt.Sprintf("%#v", keys[i]) < fmt.Sprintf("%#v", keys[j])
			})
		}
	}
	if s != nil && s.quiet == 0 && len(keys) > 1 {
		// one decision selects rotation+direction for long maps, a full shuffle for short ones
		if len(keys) <= 8 {
			for i := 0; i < len(keys)-1; i++ {
				j := i + s.C.Choose(Map, len(keys)-i)
				keys[i], keys[j] = keys[j], keys[i]
			}
		} else {
			r := s.C.Choose(Map, 2*len(keys))
			if r >= len(keys) {
				for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
					keys[i], keys[j] = keys[j], keys[i]
				}
			}
			r %= len(keys)
			keys = append(append([]K2(nil), keys[r:]...), keys[:r]...)
		}
	}
	return keys
}

func (s *Sim) keyID(k any) int64 {
	id, ok := s.keyIDs[k]
	if !ok {
		s.nextKey++
		id = s.nextKey
		s.keyIDs[k] = id
	}
	return id
}

func lessBasic(a, b any) bool {
	switch x := a.(type) {
	case int:
		return x < b.(int)
	case int8:
		return x < b.(int8)
	case int16:
		return x < b.(int16)
	case int32:
		return x < b.(int32)
	case int64:
		return x < b.(int64)
	case uint:
		return x < b.(uint)
	case uint8:
		return x < b.(uint8)
	case uint16:
		return x < b.(uint16)
	case uint32:
		return x < b.(uint32)
	case uint64:
		return x < b.(uint64)
	case string:
		return x < b.(string)
	case float32:
		return x < b.(float32)
	case float64:
		return x < b.(float64)
	}
	return false
}

// Alloc guards make: it refuses absurd sizes as a resource-exhaustion violation.
func Alloc[N ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n N, elem uintptr) N {
	s := S
	if s == nil {
		return n
	}
	if int64(n) > 0 {
		b := int64(n) * int64(elem)
		if b/int64(n) != int64(elem) {
			b = 1 << 62
		}
		if b > s.AllocMax {
			s.AllocMax = b
		}
		s.AllocSum += b
		Cost(b)
		if s.Cfg.AllocLimit > 0 && b > s.Cfg.AllocLimit && !s.killing {
			s.Fail("alloc", fmt.Sprintf("allocation of %d bytes in one make (limit %d for this workload)\n%s", b, s.Cfg.AllocLimit, stackOf()))
		}
	}
	return n
}

// Cost accounts for work in proportion to n bytes done in one operation.
func Cost(n int64) {
	s := S
	if s == nil || s.quiet > 0 || n < 1024 {
		return
	}
	s.steps += n / 64
	if s.steps >= s.nextSlow {
		s.slow()
	}
}

// StrOf, BytesOf and StrAdd account for the making of strings.
func StrOf[T ~string](v T) T {
	Cost(int64(len(v)))
	return v
}

func BytesOf[T ~[]byte](v T) T {
	Cost(int64(len(v)))
	return v
}

func StrAdd[T ~string](a, b T) T {
	Cost(int64(len(a) + len(b)))
	return b
}

// Sizeof helps the rewriter.
func Sizeof[T any]() uintptr {
	var z T
	return reflect.TypeOf(&z).Elem().Size()
}

// ElemSize is the size of a slice type's elements.
func ElemSize[T any]() uintptr {
	var z T
	return reflect.TypeOf(&z).Elem().Elem().Size()
}

// Entry pairs a map with one of its keys.
type Entry[M ~map[K2]V, K2 comparable, V any] struct {
	M M
	K K2
}

// Entries lists the iteration steps over m.
func Entries[M ~map[K2]V, K2 comparable, V any](m M, site int) []Entry[M, K2, V] {
	ks := Keys(m, site)
	out := make([]Entry[M, K2, V], len(ks))
	for i, k := range ks {
		out[i] = Entry[M, K2, V]{m, k}
	}
	return out
}

// Zero resets a variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

package simrt

import (
	"fmt"
	"reflect"
	"sort"
)

// MapSeed decides the order in which instrumented code iterates over maps. 0: sorted order.
var MapSeed uint64

var mapIterations uint64

// MapIterations counts the map iterations whose order was decided here
func MapIterations() uint64 { return mapIterations }

// MapKeys returns the keys of map m, a []K, in an order decided by MapSeed and nothing else. It is the seam
// for Go's random map iteration order.
func MapKeys(m interface{}) interface{} {
	v := reflect.ValueOf(m)
	kt := reflect.SliceOf(v.Type().Key())
	keys := v.MapKeys()
	sort.Slice(keys, func(i, j int) bool { return less(keys[i], keys[j]) })
	if s := mapOrder(); s != 0 {
		nx := func() uint64 {
			s += 0x9e3779b97f4a7c15
			z := s
			z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
			z = (z ^ (z >> 27)) * 0x94d049bb133111eb
			return z ^ (z >> 31)
		}
		for i := len(keys) - 1; i > 0; i-- {
			j := int(nx() % uint64(i+1))
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	out := reflect.MakeSlice(kt, len(keys), len(keys))
	for i, k := range keys {
		out.Index(i).Set(k)
	}
	return out.Interface()
}

// mapOrder counts an iteration and returns the seed in force. The counter is the simulator's, not the code's:
// it is hidden from the race detector.
//
//go:norace
func mapOrder() uint64 {
	if !active {
		return 0
	}
	mapIterations++
	return MapSeed
}

func less(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.String:
		return a.String() < b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	case reflect.Bool:
		return !a.Bool() && b.Bool()
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

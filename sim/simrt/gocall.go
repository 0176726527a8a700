package simrt

import "reflect"

// GoCall is a go statement: fn and args have been evaluated, the call happens in a new task.
func GoCall(fn interface{}, args ...interface{}) {
	v := reflect.ValueOf(fn)
	t := v.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if t.IsVariadic() && i >= t.NumIn()-1 {
			pt = t.In(t.NumIn() - 1).Elem()
		} else {
			pt = t.In(i)
		}
		switch {
		case a == nil:
			in[i] = reflect.Zero(pt)
		case reflect.TypeOf(a).AssignableTo(pt):
			in[i] = reflect.ValueOf(a)
		default:
			in[i] = reflect.ValueOf(a).Convert(pt)
		}
	}
	Go(func() { v.Call(in) })
}

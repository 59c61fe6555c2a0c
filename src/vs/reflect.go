package vs

import "reflect"

// Wrap prepares a function value for a go statement whose function is not a
// literal: `go vs.Wrap(f)(args)`.
func Wrap[F any](f F) F {
	if !Active() {
		return f
	}
	v := reflect.ValueOf(f)
	variadic := v.Type().IsVariadic()
	return reflect.MakeFunc(v.Type(), func(args []reflect.Value) []reflect.Value {
		defer Detach(Attach())
		if variadic {
			return v.CallSlice(args)
		}
		return v.Call(args)
	}).Interface().(F)
}

// Package vndhook lets a harness stand in for functions that are empty in this environment.
package vndhook

// F holds what to call instead of an empty function.
var F map[string]func(args ...interface{})

func Call(name string, args ...interface{}) {
	if f := F[name]; f != nil {
		f(args...)
	}
}

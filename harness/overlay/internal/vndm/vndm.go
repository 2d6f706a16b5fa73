// Package vndm holds the models the symbolic executor uses in place of a few library functions
// whose real bodies rest on reflection.
package vndm

import "context"

// RuntimeError is the value of a run-time panic.
type RuntimeError struct{ msg string }

func (e *RuntimeError) Error() string { return "runtime error: " + e.msg }
func (e *RuntimeError) RuntimeError() {}

func kind(v interface{}) int            { return 0 }
func asString(v interface{}) string     { return "" }
func asInt(v interface{}) int64         { return 0 }
func isConst(v interface{}) bool        { return false }
func typeName(v interface{}) string     { return "" }
func sliceLen(v interface{}) int        { return 0 }
func sliceSwap(v interface{}, i, j int) {}

type fmtError struct{ s string }

func (e *fmtError) Error() string { return e.s }

type wrapError struct {
	s   string
	err error
}

func (e *wrapError) Error() string { return e.s }
func (e *wrapError) Unwrap() error { return e.err }

// Errorf keeps the wrapped error and a literal text.
func Errorf(format string, a ...interface{}) error {
	s := Sprintf(format, a...)
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' && format[i+1] == 'w' {
			for _, x := range a {
				if e, ok := x.(error); ok {
					return &wrapError{s, e}
				}
			}
		}
	}
	return &fmtError{s}
}

// Sprintf handles %s, %v, %d of strings, errors and integers; everything else prints its type.
func Sprintf(format string, a ...interface{}) string {
	out := ""
	n := 0
	lit := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		out += format[lit:i]
		i++
		for i < len(format) && (format[i] == '+' || format[i] == '#' || format[i] == '-' || format[i] >= '0' && format[i] <= '9' || format[i] == '.') {
			i++
		}
		if i >= len(format) {
			lit = i
			break
		}
		lit = i + 1
		if format[i] == '%' {
			out += "%"
			continue
		}
		if n < len(a) {
			out += str(a[n])
			n++
		}
	}
	if lit < len(format) {
		out += format[lit:]
	}
	return out
}

// Sprint prints its operands next to each other.
func Sprint(a ...interface{}) string {
	out := ""
	for _, x := range a {
		out += str(x)
	}
	return out
}

func str(x interface{}) string {
	if x == nil {
		return "<nil>"
	}
	if e, ok := x.(error); ok {
		return e.Error()
	}
	if s, ok := x.(interface{ String() string }); ok {
		return s.String()
	}
	switch kind(x) {
	case 2:
		return asString(x)
	case 3, 4:
		if isConst(x) {
			return itoa(asInt(x))
		}
		return "<int>"
	}
	return "<" + typeName(x) + ">"
}

func itoa(v int64) string {
	if v == 0 {
		return "0"
	}
	neg := v < 0
	if neg {
		v = -v
	}
	s := ""
	for v != 0 {
		s = string(rune('0'+v%10)) + s
		v /= 10
	}
	if neg {
		s = "-" + s
	}
	return s
}

// FormatInt prints a known number; the text of an unknown one is a placeholder.
func FormatInt(v int64, base int) string {
	if !isConst(v) {
		return "<int>"
	}
	if v < 0 {
		return "-" + FormatUint(uint64(-v), base)
	}
	return FormatUint(uint64(v), base)
}

// FormatUint prints a known number; the text of an unknown one is a placeholder.
func FormatUint(v uint64, base int) string {
	if !isConst(v) {
		return "<int>"
	}
	if v == 0 {
		return "0"
	}
	s := ""
	for v != 0 {
		s = "0123456789abcdefghijklmnopqrstuvwxyz"[v%uint64(base):v%uint64(base)+1] + s
		v /= uint64(base)
	}
	return s
}

// Itoa is strconv.Itoa.
func Itoa(v int) string { return FormatInt(int64(v), 10) }

// ErrorsIs follows Unwrap chains.
func ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	for {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		if m, ok := err.(interface{ Unwrap() []error }); ok {
			for _, e := range m.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		if err = u.Unwrap(); err == nil {
			return false
		}
	}
}

type valueCtx struct {
	context.Context
	key, val interface{}
}

func (c *valueCtx) Value(key interface{}) interface{} {
	if c.key == key {
		return c.val
	}
	return c.Context.Value(key)
}

// WithValue is context.WithValue.
func WithValue(parent context.Context, key, val interface{}) context.Context {
	return &valueCtx{parent, key, val}
}

// SortSlice is an insertion sort.
func SortSlice(x interface{}, less func(i, j int) bool) {
	n := sliceLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			sliceSwap(x, j, j-1)
		}
	}
}

// files are those that vnd.File created.
var files map[string][]byte

func File(name string, content []byte) string {
	if files == nil {
		files = map[string][]byte{}
	}
	name = "/vnd/" + name
	files[name] = append([]byte{}, content...)
	return name
}

func ReadFile(name string) ([]byte, error) {
	b, ok := files[name]
	if !ok {
		return nil, &fmtError{"open " + name + ": no such file or directory"}
	}
	return append([]byte{}, b...), nil
}

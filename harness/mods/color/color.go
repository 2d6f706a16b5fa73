// Package color stands in for github.com/fatih/color in the checks: nothing is coloured.
package color

type Attribute int

const (
	Reset Attribute = iota
	Bold
	Faint
	Italic
	Underline
)

const (
	FgBlack Attribute = iota + 30
	FgRed
	FgGreen
	FgYellow
	FgBlue
	FgMagenta
	FgCyan
	FgWhite
)

type Color struct{}

func New(value ...Attribute) *Color { return &Color{} }

func (c *Color) Add(value ...Attribute) *Color { return c }

func (c *Color) SprintfFunc() func(format string, a ...interface{}) string {
	return func(format string, a ...interface{}) string { return format }
}

func (c *Color) SprintFunc() func(a ...interface{}) string {
	return func(a ...interface{}) string { return "" }
}

func (c *Color) Println(a ...interface{}) (int, error)               { return 0, nil }
func (c *Color) Printf(format string, a ...interface{}) (int, error) { return 0, nil }

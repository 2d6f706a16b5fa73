// Package table stands in for github.com/rodaine/table in the checks: nothing is printed.
package table

import "io"

type Formatter func(string, ...interface{}) string
type WidthFunc func(string) int

type Table interface {
	WithHeaderFormatter(f Formatter) Table
	WithFirstColumnFormatter(f Formatter) Table
	WithPadding(p int) Table
	WithWriter(w io.Writer) Table
	WithWidthFunc(f WidthFunc) Table
	AddRow(vals ...interface{}) Table
	Print()
}

type table struct{}

func New(columnHeaders ...interface{}) Table { return table{} }

func (t table) WithHeaderFormatter(f Formatter) Table      { return t }
func (t table) WithFirstColumnFormatter(f Formatter) Table { return t }
func (t table) WithPadding(p int) Table                    { return t }
func (t table) WithWriter(w io.Writer) Table               { return t }
func (t table) WithWidthFunc(f WidthFunc) Table            { return t }
func (t table) AddRow(vals ...interface{}) Table           { return t }
func (t table) Print()                                     {}

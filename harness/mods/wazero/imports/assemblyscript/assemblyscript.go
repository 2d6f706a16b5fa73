// Package assemblyscript stands in for wazero's: it exports nothing.
package assemblyscript

import (
	"context"

	"github.com/tetratelabs/wazero"
	"github.com/tetratelabs/wazero/api"
)

func MustInstantiate(ctx context.Context, r wazero.Runtime) {}

func Instantiate(ctx context.Context, r wazero.Runtime) (api.Closer, error) {
	return r.NewHostModuleBuilder("env").Instantiate(ctx, r)
}

type FunctionExporter interface {
	WithAbortMessageDisabled() FunctionExporter
	WithTraceToStdout() FunctionExporter
	WithTraceToStderr() FunctionExporter
	ExportFunctions(wazero.HostModuleBuilder)
}

type functionExporter struct{}

func NewFunctionExporter() FunctionExporter { return functionExporter{} }

func (e functionExporter) WithAbortMessageDisabled() FunctionExporter { return e }
func (e functionExporter) WithTraceToStdout() FunctionExporter        { return e }
func (e functionExporter) WithTraceToStderr() FunctionExporter        { return e }
func (e functionExporter) ExportFunctions(wazero.HostModuleBuilder)   {}

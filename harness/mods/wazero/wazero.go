// Package wazero stands in for github.com/tetratelabs/wazero in the checks: the same API (the
// api package is wazero's own), but a module is Go code that a check registers in Modules under
// the bytes of its "binary", with linear memory made of byte slices. Nothing is executed here.
package wazero

import (
	"context"
	"errors"
	"io"
	"io/fs"

	"github.com/tetratelabs/wazero/api"
)

// Guest is what a registered module does when instantiated: it returns its exports and memory.
type Guest struct {
	Functions map[string]func(ctx context.Context, params []uint64) ([]uint64, error)
	Memory    *Memory
}

// Modules maps a binary to its stand-in. host gives the imported functions: host[module][name].
var Modules map[string]func(host map[string]map[string]api.GoFunction) *Guest

type Namespace interface {
	Module(moduleName string) api.Module
	InstantiateModule(ctx context.Context, compiled CompiledModule, config ModuleConfig) (api.Module, error)
	CloseWithExitCode(ctx context.Context, exitCode uint32) error
	api.Closer
}

type Runtime interface {
	NewHostModuleBuilder(moduleName string) HostModuleBuilder
	CompileModule(ctx context.Context, binary []byte) (CompiledModule, error)
	InstantiateModuleFromBinary(ctx context.Context, source []byte) (api.Module, error)
	Namespace
	NewNamespace(context.Context) Namespace
	CloseWithExitCode(ctx context.Context, exitCode uint32) error
	api.Closer
}

type CompiledModule interface {
	Name() string
	ImportedFunctions() []api.FunctionDefinition
	ExportedFunctions() map[string]api.FunctionDefinition
	ImportedMemories() []api.MemoryDefinition
	ExportedMemories() map[string]api.MemoryDefinition
	Close(context.Context) error
}

type HostFunctionBuilder interface {
	WithGoFunction(fn api.GoFunction, params, results []api.ValueType) HostFunctionBuilder
	WithGoModuleFunction(fn api.GoModuleFunction, params, results []api.ValueType) HostFunctionBuilder
	WithFunc(interface{}) HostFunctionBuilder
	WithName(name string) HostFunctionBuilder
	WithParameterNames(names ...string) HostFunctionBuilder
	WithResultNames(names ...string) HostFunctionBuilder
	Export(name string) HostModuleBuilder
}

type HostModuleBuilder interface {
	NewFunctionBuilder() HostFunctionBuilder
	Compile(context.Context) (CompiledModule, error)
	Instantiate(context.Context, Namespace) (api.Module, error)
}

type RuntimeConfig interface {
	WithCoreFeatures(api.CoreFeatures) RuntimeConfig
	WithMemoryLimitPages(memoryLimitPages uint32) RuntimeConfig
	WithMemoryCapacityFromMax(memoryCapacityFromMax bool) RuntimeConfig
	WithDebugInfoEnabled(bool) RuntimeConfig
}

type runtimeConfig struct{}

func NewRuntimeConfig() RuntimeConfig                                   { return runtimeConfig{} }
func NewRuntimeConfigCompiler() RuntimeConfig                           { return runtimeConfig{} }
func NewRuntimeConfigInterpreter() RuntimeConfig                        { return runtimeConfig{} }
func (c runtimeConfig) WithCoreFeatures(api.CoreFeatures) RuntimeConfig { return c }
func (c runtimeConfig) WithMemoryLimitPages(uint32) RuntimeConfig       { return c }
func (c runtimeConfig) WithMemoryCapacityFromMax(bool) RuntimeConfig    { return c }
func (c runtimeConfig) WithDebugInfoEnabled(bool) RuntimeConfig         { return c }

type ModuleConfig interface {
	WithArgs(...string) ModuleConfig
	WithEnv(key, value string) ModuleConfig
	WithFS(fs.FS) ModuleConfig
	WithName(string) ModuleConfig
	WithStartFunctions(...string) ModuleConfig
	WithStderr(io.Writer) ModuleConfig
	WithStdin(io.Reader) ModuleConfig
	WithStdout(io.Writer) ModuleConfig
	WithSysWalltime() ModuleConfig
	WithSysNanotime() ModuleConfig
	WithSysNanosleep() ModuleConfig
	WithRandSource(io.Reader) ModuleConfig
}

type moduleConfig struct {
	name  string
	start []string
}

func NewModuleConfig() ModuleConfig { return moduleConfig{start: []string{"_start"}} }

func (c moduleConfig) WithArgs(...string) ModuleConfig             { return c }
func (c moduleConfig) WithEnv(key, value string) ModuleConfig      { return c }
func (c moduleConfig) WithFS(fs.FS) ModuleConfig                   { return c }
func (c moduleConfig) WithName(n string) ModuleConfig              { c.name = n; return c }
func (c moduleConfig) WithStartFunctions(s ...string) ModuleConfig { c.start = s; return c }
func (c moduleConfig) WithStderr(io.Writer) ModuleConfig           { return c }
func (c moduleConfig) WithStdin(io.Reader) ModuleConfig            { return c }
func (c moduleConfig) WithStdout(io.Writer) ModuleConfig           { return c }
func (c moduleConfig) WithSysWalltime() ModuleConfig               { return c }
func (c moduleConfig) WithSysNanotime() ModuleConfig               { return c }
func (c moduleConfig) WithSysNanosleep() ModuleConfig              { return c }
func (c moduleConfig) WithRandSource(io.Reader) ModuleConfig       { return c }

type runtime struct {
	host    map[string]map[string]api.GoFunction
	modules map[string]api.Module
}

func NewRuntime(ctx context.Context) Runtime { return NewRuntimeWithConfig(ctx, NewRuntimeConfig()) }

func NewRuntimeWithConfig(ctx context.Context, rConfig RuntimeConfig) Runtime {
	return &runtime{host: map[string]map[string]api.GoFunction{}, modules: map[string]api.Module{}}
}

func (r *runtime) NewHostModuleBuilder(moduleName string) HostModuleBuilder {
	return &hostModuleBuilder{r: r, name: moduleName, fns: map[string]api.GoFunction{}}
}

func (r *runtime) CompileModule(ctx context.Context, binary []byte) (CompiledModule, error) {
	g, ok := Modules[string(binary)]
	if !ok {
		return nil, errors.New("invalid binary")
	}
	return &compiledModule{new: g}, nil
}

func (r *runtime) InstantiateModuleFromBinary(ctx context.Context, source []byte) (api.Module, error) {
	c, err := r.CompileModule(ctx, source)
	if err != nil {
		return nil, err
	}
	return r.InstantiateModule(ctx, c, NewModuleConfig())
}

func (r *runtime) Module(moduleName string) api.Module { return r.modules[moduleName] }

func (r *runtime) InstantiateModule(ctx context.Context, compiled CompiledModule, config ModuleConfig) (api.Module, error) {
	c := compiled.(*compiledModule)
	cfg := config.(moduleConfig)
	if _, ok := r.modules[cfg.name]; ok && cfg.name != "" {
		return nil, errors.New("module name in use")
	}
	m := &module{name: cfg.name, g: c.new(r.host)}
	r.modules[cfg.name] = m
	for _, s := range cfg.start {
		if f := m.ExportedFunction(s); f != nil {
			if _, err := f.Call(ctx); err != nil {
				return nil, err
			}
		}
	}
	return m, nil
}

func (r *runtime) NewNamespace(context.Context) Namespace {
	return &runtime{host: r.host, modules: map[string]api.Module{}}
}

func (r *runtime) CloseWithExitCode(ctx context.Context, exitCode uint32) error { return nil }
func (r *runtime) Close(context.Context) error                                  { return nil }

type compiledModule struct {
	new func(host map[string]map[string]api.GoFunction) *Guest
}

func (c *compiledModule) Name() string                                         { return "" }
func (c *compiledModule) ImportedFunctions() []api.FunctionDefinition          { return nil }
func (c *compiledModule) ExportedFunctions() map[string]api.FunctionDefinition { return nil }
func (c *compiledModule) ImportedMemories() []api.MemoryDefinition             { return nil }
func (c *compiledModule) ExportedMemories() map[string]api.MemoryDefinition    { return nil }
func (c *compiledModule) Close(context.Context) error                          { return nil }

type hostModuleBuilder struct {
	r    *runtime
	name string
	fns  map[string]api.GoFunction
}

func (b *hostModuleBuilder) NewFunctionBuilder() HostFunctionBuilder {
	return &hostFunctionBuilder{b: b}
}

func (b *hostModuleBuilder) Compile(context.Context) (CompiledModule, error) {
	return nil, errors.New("not supported")
}

func (b *hostModuleBuilder) Instantiate(ctx context.Context, ns Namespace) (api.Module, error) {
	b.r.host[b.name] = b.fns
	m := &module{name: b.name, g: &Guest{}}
	b.r.modules[b.name] = m
	return m, nil
}

type hostFunctionBuilder struct {
	b  *hostModuleBuilder
	fn api.GoFunction
}

type moduleFunc struct{ fn api.GoModuleFunction }

func (f moduleFunc) Call(ctx context.Context, stack []uint64) { f.fn.Call(ctx, nil, stack) }

func (f *hostFunctionBuilder) WithGoFunction(fn api.GoFunction, params, results []api.ValueType) HostFunctionBuilder {
	f.fn = fn
	return f
}

func (f *hostFunctionBuilder) WithGoModuleFunction(fn api.GoModuleFunction, params, results []api.ValueType) HostFunctionBuilder {
	f.fn = moduleFunc{fn}
	return f
}

func (f *hostFunctionBuilder) WithFunc(interface{}) HostFunctionBuilder               { return f }
func (f *hostFunctionBuilder) WithName(name string) HostFunctionBuilder               { return f }
func (f *hostFunctionBuilder) WithParameterNames(names ...string) HostFunctionBuilder { return f }
func (f *hostFunctionBuilder) WithResultNames(names ...string) HostFunctionBuilder    { return f }

func (f *hostFunctionBuilder) Export(name string) HostModuleBuilder {
	f.b.fns[name] = f.fn
	return f.b
}

type module struct {
	name string
	g    *Guest
}

func (m *module) String() string { return "module[" + m.name + "]" }
func (m *module) Name() string   { return m.name }

func (m *module) Memory() api.Memory {
	if m.g.Memory == nil {
		return nil
	}
	return m.g.Memory
}

func (m *module) ExportedFunction(name string) api.Function {
	fn, ok := m.g.Functions[name]
	if !ok {
		return nil
	}
	return &function{fn}
}

func (m *module) ExportedFunctionDefinitions() map[string]api.FunctionDefinition { return nil }
func (m *module) ExportedMemory(name string) api.Memory                          { return m.Memory() }
func (m *module) ExportedMemoryDefinitions() map[string]api.MemoryDefinition     { return nil }
func (m *module) ExportedGlobal(name string) api.Global                          { return nil }
func (m *module) CloseWithExitCode(ctx context.Context, exitCode uint32) error   { return nil }
func (m *module) Close(context.Context) error                                    { return nil }

type function struct {
	fn func(ctx context.Context, params []uint64) ([]uint64, error)
}

func (f *function) Definition() api.FunctionDefinition { return nil }

// Call runs the function; as in wazero, a panic of a host function ends the call with an error.
func (f *function) Call(ctx context.Context, params ...uint64) (r []uint64, err error) {
	defer func() {
		if e := recover(); e != nil {
			r, err = nil, errors.New("wasm error: panic in a host function")
		}
	}()
	return f.fn(ctx, params)
}

// Memory is linear memory of Total bytes, of which only Segments matter to the check.
type Memory struct {
	Segments []Segment
	Total    uint32
}

type Segment struct {
	Base uint32
	Buf  []byte
}

func (m *Memory) Definition() api.MemoryDefinition { return nil }
func (m *Memory) Size() uint32                     { return m.Total }

func (m *Memory) Grow(deltaPages uint32) (previousPages uint32, ok bool) { return 0, false }

func (m *Memory) Read(offset, byteCount uint32) ([]byte, bool) {
	end := uint64(offset) + uint64(byteCount)
	if end > uint64(m.Total) {
		return nil, false
	}
	for _, s := range m.Segments {
		if offset >= s.Base && end <= uint64(s.Base)+uint64(len(s.Buf)) {
			a, b := uint64(offset-s.Base), end-uint64(s.Base)
			return s.Buf[a:b:b], true
		}
	}
	return make([]byte, byteCount), true
}

func (m *Memory) Write(offset uint32, v []byte) bool {
	b, ok := m.Read(offset, uint32(len(v)))
	if ok {
		copy(b, v)
	}
	return ok
}

func (m *Memory) WriteString(offset uint32, v string) bool { return m.Write(offset, []byte(v)) }

func (m *Memory) le(offset uint32, n int) (uint64, bool) {
	b, ok := m.Read(offset, uint32(n))
	var v uint64
	for i := range b {
		v |= uint64(b[i]) << (8 * i)
	}
	return v, ok
}

func (m *Memory) putLe(offset uint32, v uint64, n int) bool {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v >> (8 * i))
	}
	return m.Write(offset, b)
}

func (m *Memory) ReadByte(offset uint32) (byte, bool) {
	v, ok := m.le(offset, 1)
	return byte(v), ok
}

func (m *Memory) ReadUint16Le(offset uint32) (uint16, bool) {
	v, ok := m.le(offset, 2)
	return uint16(v), ok
}

func (m *Memory) ReadUint32Le(offset uint32) (uint32, bool) {
	v, ok := m.le(offset, 4)
	return uint32(v), ok
}

func (m *Memory) ReadUint64Le(offset uint32) (uint64, bool) { return m.le(offset, 8) }

func (m *Memory) ReadFloat32Le(offset uint32) (float32, bool) {
	v, ok := m.le(offset, 4)
	return api.DecodeF32(v), ok
}

func (m *Memory) ReadFloat64Le(offset uint32) (float64, bool) {
	v, ok := m.le(offset, 8)
	return api.DecodeF64(v), ok
}

func (m *Memory) WriteByte(offset uint32, v byte) bool       { return m.putLe(offset, uint64(v), 1) }
func (m *Memory) WriteUint16Le(offset uint32, v uint16) bool { return m.putLe(offset, uint64(v), 2) }
func (m *Memory) WriteUint32Le(offset, v uint32) bool        { return m.putLe(offset, uint64(v), 4) }
func (m *Memory) WriteUint64Le(offset uint32, v uint64) bool { return m.putLe(offset, v, 8) }
func (m *Memory) WriteFloat32Le(offset uint32, v float32) bool {
	return m.putLe(offset, api.EncodeF32(v), 4)
}
func (m *Memory) WriteFloat64Le(offset uint32, v float64) bool {
	return m.putLe(offset, api.EncodeF64(v), 8)
}

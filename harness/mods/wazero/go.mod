module github.com/tetratelabs/wazero

go 1.19

module github.com/rodaine/table

go 1.19

module github.com/fatih/color

go 1.19

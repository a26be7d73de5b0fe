module github.com/alxarch/njson/verifsim

go 1.24

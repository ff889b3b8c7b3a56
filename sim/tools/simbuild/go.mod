module simbuild

go 1.24

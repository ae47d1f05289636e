module vmc

go 1.24

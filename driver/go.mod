module verifdriver
go 1.23.3
require github.com/yanun0323/goast v0.0.0
require (
 golang.org/x/tools v0.27.0
	golang.org/x/mod v0.22.0 // indirect
	golang.org/x/sync v0.9.0 // indirect
)
replace github.com/yanun0323/goast => /repo

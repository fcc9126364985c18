module verifharness

go 1.23

require github.com/codeallergy/value v0.0.0

require (
	github.com/shopspring/decimal v1.3.1
	golang.org/x/crypto v0.6.0
)

require (
	github.com/pkg/errors v0.9.1 // indirect
	golang.org/x/sys v0.5.0 // indirect
)

replace github.com/codeallergy/value => /repo

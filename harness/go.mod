module github.com/lestrrat-go/helium/verifharness

go 1.24

require (
	github.com/lestrrat-go/helium v0.0.0
	golang.org/x/text v0.0.0-20161027091323-a8b38433e35b
	pgregory.net/rapid v1.3.0
)

require (
	github.com/lestrrat-go/pdebug v0.0.0-20160817063333-2e6eaaa5717f // indirect
	github.com/lestrrat-go/strcursor v0.0.0-20160229112842-cbe932022364 // indirect
	github.com/pkg/errors v0.8.1 // indirect
	github.com/jessevdk/go-flags v0.0.0-20161024052657-a44368c298f0 // indirect
)

replace github.com/lestrrat-go/helium => /repo

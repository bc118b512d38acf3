module verifharness

go 1.26

require (
	github.com/TooManySugar/ll1parser v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/TooManySugar/ll1parser => /repo

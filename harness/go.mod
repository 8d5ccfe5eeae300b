module vp/harness

go 1.23

require (
	github.com/markbates/pkger v0.0.0
	pgregory.net/rapid v1.3.0
)

require github.com/gobuffalo/here v0.6.0 // indirect

replace github.com/markbates/pkger => /repo

module verif/harness

go 1.26.0

require (
	github.com/xhd2015/xgo v0.0.0
	golang.org/x/mod v0.42.0
	pgregory.net/rapid v1.3.0
)

replace github.com/xhd2015/xgo => /repo

module verifharness

go 1.23

require (
	github.com/qjebbs/go-sqlf/v2 v2.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/qjebbs/go-sqlf/v2 => /repo

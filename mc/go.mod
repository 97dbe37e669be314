module birchmc

go 1.24

require (
	github.com/tychoish/birch v0.3.1
	github.com/tychoish/birch/x/ftdc v0.0.0-00010101000000-000000000000
	github.com/tychoish/fun v0.14.7
)

replace github.com/tychoish/birch => /repo

replace github.com/tychoish/birch/x/ftdc => /repo/x/ftdc

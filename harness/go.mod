module verif/harness

go 1.24

require (
	github.com/tychoish/birch v0.3.1
	github.com/tychoish/birch/x/ftdc v0.0.0-00010101000000-000000000000
	pgregory.net/rapid v1.3.0
)

require (
	github.com/shirou/gopsutil v3.21.11+incompatible
	github.com/tychoish/fun v0.14.7
)

require (
	github.com/fsnotify/fsnotify v1.6.0 // indirect
	github.com/tklauser/go-sysconf v0.3.11 // indirect
	github.com/tklauser/numcpus v0.6.0 // indirect
	golang.org/x/sys v0.4.0 // indirect
)

replace github.com/tychoish/birch => /repo

replace github.com/tychoish/birch/x/ftdc => /repo/x/ftdc

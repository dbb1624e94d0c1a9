module verif/mc

go 1.21

require (
	github.com/akm/tparser v0.0.0
	golang.org/x/text v0.3.7
)

require (
	github.com/philopon/go-toposort v0.0.0-20170620085441-9be86dbd762f // indirect
	github.com/pkg/errors v0.9.1 // indirect
)

replace github.com/akm/tparser => /repo

module joyverif

go 1.23

require (
	github.com/nareix/joy5 v0.0.0
	pgregory.net/rapid v1.3.0
)

require github.com/pkg/errors v0.8.0 // indirect

replace github.com/nareix/joy5 => /repo

module verif

go 1.26

require (
	github.com/aiq/tok v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/aiq/tok => /repo

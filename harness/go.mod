module vpharness

go 1.26

require (
	github.com/dufourgilles/emberlib v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/dufourgilles/emberlib => /repo

module verif/harness

go 1.23.0

require (
	github.com/vorlif/spreak v0.0.0
	golang.org/x/text v0.28.0
	pgregory.net/rapid v1.3.0
)

replace github.com/vorlif/spreak => /repo

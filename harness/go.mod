module verif/harness

go 1.23

require (
	github.com/rom1mouret/ml-essentials v0.0.0
	golang.org/x/text v0.3.5
	gonum.org/v1/gonum v0.8.2
	pgregory.net/rapid v1.3.0
)

replace github.com/rom1mouret/ml-essentials => /repo

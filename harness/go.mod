module gseverif

go 1.23

require (
	github.com/go-ego/gse v0.0.0
	pgregory.net/rapid v1.3.0
)

require github.com/vcaesar/cedar v0.20.2 // indirect

replace github.com/go-ego/gse => /repo

module gseverif

go 1.22

require (
	github.com/go-ego/gse v0.0.0
	github.com/vcaesar/cedar v0.20.2 // indirect
)

replace github.com/go-ego/gse => /repo

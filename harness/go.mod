module verifharness

go 1.26.0

require (
	github.com/Comcast/scte35-go v0.0.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/bamiaux/iobit v0.0.0-20170418073505-498159a04883 // indirect
	github.com/davecgh/go-spew v1.1.1 // indirect
	golang.org/x/text v0.22.0 // indirect
)

replace github.com/Comcast/scte35-go => /repo

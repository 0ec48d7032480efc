module vf

go 1.24

require (
	github.com/proximax-storage/go-xpx-crypto v0.0.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/pkg/errors v0.8.1 // indirect
	github.com/proximax-storage/go-xpx-utils v0.0.0-20190604083640-90d06ff8a19f // indirect
	golang.org/x/crypto v0.0.0-20190513172903-22d7a77e9e5f // indirect
)

replace github.com/proximax-storage/go-xpx-crypto => /repo

replace pgregory.net/rapid => ./third/rapid

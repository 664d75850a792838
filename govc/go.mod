module govc

go 1.22

require golang.org/x/tools v0.22.0

require (
	golang.org/x/mod v0.18.0 // indirect
	golang.org/x/sync v0.7.0 // indirect
)

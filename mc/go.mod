module verif/mc

go 1.22

require (
	github.com/julioguillermo/godeep v0.0.0
)

require (
	golang.org/x/crypto v0.12.0 // indirect
	golang.org/x/sys v0.11.0 // indirect
	golang.org/x/term v0.11.0 // indirect
)

replace github.com/julioguillermo/godeep => /repo

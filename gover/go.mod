module verif.local/gover

go 1.26.0

require verif.local/spec v0.0.0

replace verif.local/spec => ../spec

require (
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
	golang.org/x/tools v0.52.0
)

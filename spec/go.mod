module verif.local/spec

go 1.23

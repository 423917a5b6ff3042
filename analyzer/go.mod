module verif/analyzer

go 1.26.0

require (
 golang.org/x/tools v0.52.0
 golang.org/x/mod v0.42.0
 golang.org/x/sync v0.24.0
)

module verif

go 1.27

require (
	github.com/braintree/manners v0.0.0
	github.com/buger/goterm v0.0.0
	github.com/gocraft/health v0.0.0
	github.com/gocraft/web v0.0.0
	github.com/spf13/cobra v0.0.0
)

replace github.com/gocraft/health => /repo

replace github.com/gocraft/web => ./stubs/web

replace github.com/braintree/manners => ./stubs/manners

replace github.com/buger/goterm => ./stubs/goterm

replace github.com/spf13/cobra => ./stubs/cobra

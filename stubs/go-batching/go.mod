module code.cloudfoundry.org/go-batching

go 1.20

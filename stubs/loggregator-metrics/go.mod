module code.cloudfoundry.org/go-loggregator/metrics

go 1.20

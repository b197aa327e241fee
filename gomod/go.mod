module code.cloudfoundry.org/log-cache

go 1.20

require (
	code.cloudfoundry.org/go-envstruct v1.5.0
	code.cloudfoundry.org/go-loggregator v7.4.0+incompatible
	code.cloudfoundry.org/rfc5424 v0.0.0-20180905210152-236a6d29298a
	github.com/blang/semver v3.5.1+incompatible
	github.com/golang/protobuf v1.3.2
	github.com/grpc-ecosystem/grpc-gateway v1.11.1
	github.com/onsi/ginkgo v1.12.0
	github.com/onsi/gomega v1.7.1
	github.com/prometheus/client_golang v1.1.0
	github.com/prometheus/client_model v0.0.0-20190812154241-14fe0d1b01d4
	github.com/shirou/gopsutil v2.18.12+incompatible
	golang.org/x/net v0.0.0-20190613194153-d28f0bde5980
	google.golang.org/genproto v0.0.0-20180817151627-c66870c02cf8
	google.golang.org/grpc v1.23.0
)

require (
	github.com/beorn7/perks v1.0.1 // indirect
	github.com/hpcloud/tail v1.0.0 // indirect
	github.com/matttproud/golang_protobuf_extensions v1.0.1 // indirect
	github.com/prometheus/procfs v0.0.3 // indirect
	golang.org/x/sys v0.0.0-20191120155948-bd437916bb0e // indirect
	golang.org/x/text v0.3.0 // indirect
	gopkg.in/fsnotify.v1 v1.4.7 // indirect
	gopkg.in/tomb.v1 v1.0.0-20141024135613-dd632973f1e7 // indirect
	gopkg.in/yaml.v2 v2.2.4 // indirect
)

require (
	code.cloudfoundry.org/go-batching v0.0.0-20171020220229-924d2a9b48ac
	code.cloudfoundry.org/go-diodes v0.0.0-20231113191959-85adc333ee36
	code.cloudfoundry.org/go-loggregator/metrics v0.0.0
	code.cloudfoundry.org/go-orchestrator v0.0.0
	code.cloudfoundry.org/tlsconfig v0.0.0-20200131000646-bbe0f8da39b3
	github.com/cespare/xxhash v1.1.0
	github.com/Benjamintf1/unmarshalledmatchers v0.0.0-20190408201839-bb1c1f34eaea
	pgregory.net/rapid v1.3.0
	github.com/anishathalye/porcupine v1.3.1
	github.com/cloudfoundry/gosigar v1.1.0
	github.com/dvsekhvalnov/jose2go v0.0.0
	github.com/emirpasic/gods v1.12.0
	github.com/go-kit/kit v0.9.0
	github.com/gorilla/mux v1.7.0
	github.com/influxdata/go-syslog v1.0.1
	github.com/opentracing/opentracing-go v1.1.0
	github.com/prometheus/common v0.6.0
	github.com/prometheus/prometheus v2.3.2+incompatible
)

replace (
	code.cloudfoundry.org/go-batching => /verif/stubs/go-batching
	code.cloudfoundry.org/go-diodes => /verif/stubs/go-diodes
	code.cloudfoundry.org/go-loggregator/metrics => /verif/stubs/loggregator-metrics
	code.cloudfoundry.org/go-orchestrator => /verif/stubs/go-orchestrator
	code.cloudfoundry.org/tlsconfig => /verif/stubs/tlsconfig
	github.com/cespare/xxhash => /verif/stubs/xxhash
	github.com/cloudfoundry/gosigar => /verif/stubs/gosigar
	github.com/dvsekhvalnov/jose2go => /verif/stubs/jose2go
	github.com/emirpasic/gods => /verif/stubs/gods
	github.com/go-kit/kit => /verif/stubs/go-kit
	github.com/gorilla/mux => /verif/stubs/mux
	github.com/influxdata/go-syslog => /verif/stubs/go-syslog
	github.com/opentracing/opentracing-go => /verif/stubs/opentracing-go
	github.com/prometheus/prometheus => /verif/stubs/prometheus
)

module github.com/prometheus/prometheus

go 1.20

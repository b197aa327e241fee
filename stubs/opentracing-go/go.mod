module github.com/opentracing/opentracing-go

go 1.20

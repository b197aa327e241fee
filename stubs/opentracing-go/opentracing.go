// Package opentracing is a minimal offline stand-in for github.com/opentracing/opentracing-go.
package opentracing

import "context"

type Span interface {
	SetTag(key string, value interface{}) Span
	Finish()
}

// SpanFromContext returns nil: no tracer is ever installed here.
func SpanFromContext(ctx context.Context) Span { return nil }

// Package metrics is an offline stand-in for code.cloudfoundry.org/go-loggregator/metrics.
package metrics

import (
	"log"
	"sync"
)

// Counter is a cumulative metric.
type Counter interface {
	Add(float64)
}

// Gauge is a metric that can go up and down.
type Gauge interface {
	Add(float64)
	Set(float64)
}

// Opts are the options of one metric.
type Opts struct{ ConstLabels map[string]string }

// MetricOption configures a metric.
type MetricOption func(o *Opts)

// WithMetricTags sets the tags of a metric.
func WithMetricTags(tags map[string]string) MetricOption {
	return func(o *Opts) {
		if o.ConstLabels == nil {
			o.ConstLabels = map[string]string{}
		}
		for k, v := range tags {
			o.ConstLabels[k] = v
		}
	}
}

// RegistryOption configures a Registry.
type RegistryOption func(*Registry)

// WithDefaultTags is accepted and ignored.
func WithDefaultTags(map[string]string) RegistryOption { return func(*Registry) {} }

// WithServer is accepted and ignored.
func WithServer(int) RegistryOption { return func(*Registry) {} }

// Registry hands out metrics.
type Registry struct{}

// NewRegistry creates a Registry.
func NewRegistry(logger *log.Logger, opts ...RegistryOption) *Registry { return &Registry{} }

type value struct {
	mu sync.Mutex
	v  float64
}

func (v *value) Add(d float64) { v.mu.Lock(); v.v += d; v.mu.Unlock() }
func (v *value) Set(d float64) { v.mu.Lock(); v.v = d; v.mu.Unlock() }

// NewCounter creates a counter.
func (r *Registry) NewCounter(name string, opts ...MetricOption) Counter { return &value{} }

// NewGauge creates a gauge.
func (r *Registry) NewGauge(name string, opts ...MetricOption) Gauge { return &value{} }

// Package vtm fakes the metrics registry.
package vtm

import (
	"sync"

	"code.cloudfoundry.org/go-loggregator/metrics"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
)

// Registry hands out vt.Metrics by name.
type Registry struct {
	mu sync.Mutex
	m  map[string]*vt.Metric
}

// New creates a Registry.
func New() *Registry { return &Registry{m: map[string]*vt.Metric{}} }

// Get returns the metric of that name.
func (r *Registry) Get(name string) *vt.Metric {
	r.mu.Lock()
	defer r.mu.Unlock()
	x, ok := r.m[name]
	if !ok {
		x = &vt.Metric{}
		r.m[name] = x
	}
	return x
}

func (r *Registry) NewCounter(name string, opts ...metrics.MetricOption) metrics.Counter {
	return r.Get(name)
}

func (r *Registry) NewGauge(name string, opts ...metrics.MetricOption) metrics.Gauge {
	return r.Get(name)
}

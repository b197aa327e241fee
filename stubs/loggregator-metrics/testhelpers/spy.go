// Package testhelpers is an offline stand-in for code.cloudfoundry.org/go-loggregator/metrics/testhelpers.
package testhelpers

import (
	"fmt"
	"sort"
	"sync"

	"code.cloudfoundry.org/go-loggregator/metrics"
)

type SpyMetric struct {
	mu    sync.Mutex
	value float64
	name  string
	tags  map[string]string
}

func (s *SpyMetric) Add(d float64)  { s.mu.Lock(); s.value += d; s.mu.Unlock() }
func (s *SpyMetric) Set(d float64)  { s.mu.Lock(); s.value = d; s.mu.Unlock() }
func (s *SpyMetric) Value() float64 { s.mu.Lock(); defer s.mu.Unlock(); return s.value }

type SpyMetricsRegistry struct {
	mu      sync.Mutex
	Metrics map[string]*SpyMetric
}

func NewMetricsRegistry() *SpyMetricsRegistry {
	return &SpyMetricsRegistry{Metrics: map[string]*SpyMetric{}}
}

func key(name string, tags map[string]string) string {
	ks := make([]string, 0, len(tags))
	for k := range tags {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		name += fmt.Sprintf("|%s=%s", k, tags[k])
	}
	return name
}

func (s *SpyMetricsRegistry) get(name string, opts []metrics.MetricOption) *SpyMetric {
	o := &metrics.Opts{}
	for _, f := range opts {
		f(o)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	k := key(name, o.ConstLabels)
	m, ok := s.Metrics[k]
	if !ok {
		m = &SpyMetric{name: name, tags: o.ConstLabels}
		s.Metrics[k] = m
	}
	return m
}

func (s *SpyMetricsRegistry) NewCounter(name string, opts ...metrics.MetricOption) metrics.Counter {
	return s.get(name, opts)
}

func (s *SpyMetricsRegistry) NewGauge(name string, opts ...metrics.MetricOption) metrics.Gauge {
	return s.get(name, opts)
}

// GetMetric returns the metric with the name and tags, or panics.
func (s *SpyMetricsRegistry) GetMetric(name string, tags map[string]string) *SpyMetric {
	s.mu.Lock()
	defer s.mu.Unlock()
	if m, ok := s.Metrics[key(name, tags)]; ok {
		return m
	}
	if len(tags) == 0 {
		for _, m := range s.Metrics {
			if m.name == name {
				return m
			}
		}
	}
	panic(fmt.Sprintf("unknown metric: %s", key(name, tags)))
}

// GetMetricValue returns the value of the metric with the name and tags.
func (s *SpyMetricsRegistry) GetMetricValue(name string, tags map[string]string) float64 {
	return s.GetMetric(name, tags).Value()
}

// HasMetric tells whether the metric exists.
func (s *SpyMetricsRegistry) HasMetric(name string, tags map[string]string) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	_, ok := s.Metrics[key(name, tags)]
	return ok
}

// Package orchestrator is an offline stand-in for code.cloudfoundry.org/go-orchestrator.
// It keeps the documented contract: each term queries every worker for its actual
// tasks, removes tasks that are not expected (or over-replicated), adds tasks that
// are missing (to the least loaded live worker not already running them) and moves
// work from overloaded to underloaded workers.
package orchestrator

import (
	"context"
	"sync"
	"time"
)

// Communicator manages the intra communication between the Orchestrator and workers.
type Communicator interface {
	List(ctx context.Context, worker interface{}) ([]interface{}, error)
	Add(ctx context.Context, worker interface{}, task interface{}) error
	Remove(ctx context.Context, worker interface{}, task interface{}) error
}

// WorkerState stores the state of a worker.
type WorkerState struct {
	Name  interface{}
	Tasks []interface{}
}

// Task stores the required information for a task.
type Task struct {
	Name      interface{}
	Instances int
}

type Orchestrator struct {
	c       Communicator
	timeout time.Duration

	mu         sync.Mutex
	workers    []interface{}
	tasks      []Task
	lastActual []WorkerState
}

// OrchestratorOption configures an Orchestrator.
type OrchestratorOption func(*Orchestrator)

// WithCommunicatorTimeout sets the timeout for each communicator call.
func WithCommunicatorTimeout(t time.Duration) OrchestratorOption {
	return func(o *Orchestrator) { o.timeout = t }
}

// New creates a new Orchestrator.
func New(c Communicator, opts ...OrchestratorOption) *Orchestrator {
	o := &Orchestrator{c: c, timeout: 10 * time.Second}
	for _, f := range opts {
		f(o)
	}
	return o
}

// TaskOption configures a task.
type TaskOption func(*Task)

// WithTaskInstances configures the number of workers that should run the task (default 1).
func WithTaskInstances(i int) TaskOption { return func(t *Task) { t.Instances = i } }

// AddWorker adds a worker.
func (o *Orchestrator) AddWorker(w interface{}) {
	o.mu.Lock()
	defer o.mu.Unlock()
	for _, x := range o.workers {
		if x == w {
			return
		}
	}
	o.workers = append(o.workers, w)
}

// AddTask adds a task.
func (o *Orchestrator) AddTask(def interface{}, opts ...TaskOption) {
	o.mu.Lock()
	defer o.mu.Unlock()
	for _, x := range o.tasks {
		if x.Name == def {
			return
		}
	}
	t := Task{Name: def, Instances: 1}
	for _, f := range opts {
		f(&t)
	}
	o.tasks = append(o.tasks, t)
}

// LastActual returns the actual state observed by the latest term.
func (o *Orchestrator) LastActual() []WorkerState {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.lastActual
}

// NextTerm reaches out to every worker and brings the actual state towards the expected state.
func (o *Orchestrator) NextTerm(ctx context.Context) {
	o.mu.Lock()
	defer o.mu.Unlock()

	lists := make([][]interface{}, len(o.workers))
	oks := make([]bool, len(o.workers))
	var wg sync.WaitGroup
	for i, w := range o.workers {
		i, w := i, w
		wg.Add(1)
		go func() {
			defer wg.Done()
			c, cancel := context.WithTimeout(ctx, o.timeout)
			defer cancel()
			ts, err := o.c.List(c, w)
			lists[i], oks[i] = ts, err == nil
		}()
	}
	wg.Wait()

	var ws []WorkerState
	for i, w := range o.workers {
		if oks[i] {
			ws = append(ws, WorkerState{Name: w, Tasks: lists[i]})
		}
	}
	o.lastActual = ws
	if len(ws) == 0 {
		return
	}

	cur := make([][]interface{}, len(ws)) // what each live worker will run after the removals
	type op struct {
		w int
		t interface{}
	}
	var removes, adds []op
	expected := map[interface{}]int{}
	for _, t := range o.tasks {
		expected[t.Name] = t.Instances
	}
	seen := map[interface{}]int{}
	for i, w := range ws {
		mine := map[interface{}]bool{}
		for _, t := range w.Tasks {
			if mine[t] || seen[t] >= expected[t] {
				removes = append(removes, op{i, t})
				continue
			}
			mine[t] = true
			seen[t]++
			cur[i] = append(cur[i], t)
		}
	}

	has := func(i int, t interface{}) bool {
		for _, x := range cur[i] {
			if x == t {
				return true
			}
		}
		return false
	}
	for _, t := range o.tasks {
		for n := seen[t.Name]; n < t.Instances; n++ {
			best := -1
			for i := range ws {
				if !has(i, t.Name) && (best < 0 || len(cur[i]) < len(cur[best])) {
					best = i
				}
			}
			if best < 0 {
				break
			}
			cur[best] = append(cur[best], t.Name)
			adds = append(adds, op{best, t.Name})
		}
	}

	// Rebalance: move tasks from the most to the least loaded worker.
	for {
		hi, lo := 0, 0
		for i := range ws {
			if len(cur[i]) > len(cur[hi]) {
				hi = i
			}
			if len(cur[i]) < len(cur[lo]) {
				lo = i
			}
		}
		if len(cur[hi])-len(cur[lo]) < 2 {
			break
		}
		moved := false
		for k, t := range cur[hi] {
			if has(lo, t) {
				continue
			}
			cur[hi] = append(append([]interface{}{}, cur[hi][:k]...), cur[hi][k+1:]...)
			cur[lo] = append(cur[lo], t)
			pending := false
			for a := range adds {
				if adds[a] == (op{hi, t}) {
					adds[a].w = lo
					pending = true
					break
				}
			}
			if !pending {
				removes = append(removes, op{hi, t})
				adds = append(adds, op{lo, t})
			}
			moved = true
			break
		}
		if !moved {
			break
		}
	}

	for _, r := range removes {
		c, cancel := context.WithTimeout(ctx, o.timeout)
		o.c.Remove(c, ws[r.w].Name, r.t)
		cancel()
	}
	for _, a := range adds {
		c, cancel := context.WithTimeout(ctx, o.timeout)
		o.c.Add(c, ws[a.w].Name, a.t)
		cancel()
	}
}

// Driver for the node's routing: request checks, tables, agent, reverse proxies, batches.
package main

import (
	"fmt"
	"sort"

	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
)

type R = vt.R

func main() {
	vt.Open()
	switch vt.Mode {
	case "reader":
		vt.RunAll(readerTasks(), 8)
	case "table":
		vt.RunAll(tableTasks(), 8)
	case "agent":
		vt.RunAll(agentTasks(), 8)
	case "ingress":
		vt.RunAll(ingressTasks(), 8)
	case "egress":
		vt.RunAll(egressTasks(), 64)
	case "batch":
		vt.RunAll(batchTasks(), 48)
	default:
		vt.Fatal("mode %q", vt.Mode)
	}
	vt.Close()
}

// ranks numbers 64-bit values by their order.
type ranks struct{ vs []uint64 }

func newRanks(vs ...uint64) *ranks {
	m := map[uint64]bool{}
	r := &ranks{}
	for _, v := range vs {
		if !m[v] {
			m[v] = true
			r.vs = append(r.vs, v)
		}
	}
	sort.Slice(r.vs, func(i, j int) bool { return r.vs[i] < r.vs[j] })
	return r
}

func (r *ranks) of(v uint64) int {
	return sort.Search(len(r.vs), func(i int) bool { return r.vs[i] >= v })
}

func name(f string, a ...interface{}) string { return fmt.Sprintf(f, a...) }

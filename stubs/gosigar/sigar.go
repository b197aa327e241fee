// Package sigar is an offline stand-in for github.com/cloudfoundry/gosigar (memory only, Linux).
package sigar

import (
	"bufio"
	"os"
	"strconv"
	"strings"
)

type Mem struct {
	Total, Used, Free, ActualFree, ActualUsed uint64
}

// Get fills m from /proc/meminfo.
func (m *Mem) Get() error {
	f, err := os.Open("/proc/meminfo")
	if err != nil {
		return err
	}
	defer f.Close()
	v := map[string]uint64{}
	s := bufio.NewScanner(f)
	for s.Scan() {
		fs := strings.Fields(s.Text())
		if len(fs) >= 2 {
			n, _ := strconv.ParseUint(fs[1], 10, 64)
			v[strings.TrimSuffix(fs[0], ":")] = n * 1024
		}
	}
	m.Total, m.Free = v["MemTotal"], v["MemFree"]
	m.ActualFree = m.Free + v["Buffers"] + v["Cached"]
	m.Used, m.ActualUsed = m.Total-m.Free, m.Total-m.ActualFree
	return s.Err()
}

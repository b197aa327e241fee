package main

import (
	"context"
	"crypto/tls"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vtx"
	rpc "code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
)

// spawn starts a program, the function returned ends it with no warning.
func spawn(bin string, env []string) func() {
	cmd := exec.Command("/bin/bash", "-c", `ulimit -v 6000000; exec "$0"`, bin)
	cmd.Dir, cmd.Env = filepath.Dir(bin), env
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		vt.Fatal("%s", err)
	}
	died := make(chan struct{})
	go func() { cmd.Wait(); close(died) }()
	return func() { cmd.Process.Kill(); <-died }
}

func pairEnv(ca *vtx.CA, p vtx.Pair) []string {
	return []string{"CA_PATH=" + ca.Path, "CERT_PATH=" + p.CertPath, "KEY_PATH=" + p.KeyPath, fmt.Sprintf("HEALTH_PORT=%d", vtx.FreePort())}
}

// scheds are schedulers of which at most one leads at a time.
type scheds struct {
	lead  int32
	stops []func()
}

const (
	nobody      = -1
	unreachable = -2 // who leads cannot be asked
)

func (s *scheds) leads(i int) { atomic.StoreInt32(&s.lead, int32(i)) }

// covers: the owners of each source as the nodes tell it.
func (x *world) covers() map[string][]string {
	t := map[string][]string{}
	for _, s := range x.srcs {
		t[s] = []string{}
	}
	for _, n := range x.live() {
		res, err := rpc.NewOrchestrationClient(n.conn).ListRanges(ctx5(), &rpc.ListRangesRequest{})
		if err != nil {
			return nil
		}
		for _, s := range x.srcs {
			for _, g := range res.GetRanges() {
				if h := hash(x.str[s]); g.Start <= h && h <= g.End {
					t[s] = append(t[s], n.w)
					break
				}
			}
		}
	}
	return t
}

// scheduled waits until the schedulers have given every source as many owners as it shall have, for some rounds.
func (x *world) scheduled(factor int, interval time.Duration) {
	want := factor
	if l := len(x.live()); l < want {
		want = l
	}
	var last map[string][]string
	same := 0
	if x.over() {
		return
	}
	x.wait(40*time.Second, func() bool {
		t := x.covers()
		full := t != nil
		for _, os := range t {
			full = full && len(os) == want
		}
		if !full || !reflect.DeepEqual(t, last) {
			same = 0
		}
		last = t
		same++
		time.Sleep(interval / 2)
		return full && same > 16
	})
	ns := []string{}
	for _, n := range x.live() {
		ns = append(ns, n.w)
	}
	x.follow(last, ns)
	x.e.Log(R{"op": "scheduled", "ns": ns, "t": x.full(last), "factor": factor})
}

// stranger: someone whose certificate the nodes do not trust, or who has none.
func (x *world) stranger(opt grpc.DialOption, what string) {
	if x.over() {
		return
	}
	n := x.live()[x.r.Intn(len(x.live()))]
	ctx, done := context.WithTimeout(context.Background(), 20*time.Second)
	defer done()
	c, err := grpc.DialContext(ctx, n.addr, opt)
	if err == nil {
		defer c.Close()
		_, err = rpc.NewEgressClient(c).Meta(ctx, &rpc.MetaRequest{})
	}
	x.e.Log(R{"op": "stranger", "n": n.w, "what": what, "err": err != nil})
}

// syslog has the built syslog server bring messages to a node. It is to be ended when they have arrived.
func (x *world) syslog(env []string, pair vtx.Pair, via string) func() {
	var srcs []string
	for _, s := range x.srcs {
		if !strings.Contains(x.str[s], " ") {
			srcs = append(srcs, s)
		}
	}
	if x.over() || len(srcs) == 0 {
		return func() {}
	}
	port := vtx.FreePort()
	stop := spawn(os.Getenv("VERIF_SYSLOG_BIN"), append(env, "LOG_CACHE_ADDR="+x.node(via).addr, fmt.Sprint("SYSLOG_PORT=", port), "SYSLOG_TLS_CERT_PATH="+pair.CertPath, "SYSLOG_TLS_KEY_PATH="+pair.KeyPath))
	var c *tls.Conn
	if !x.wait(30*time.Second, func() bool {
		var err error
		c, err = tls.Dial("tcp", fmt.Sprint("127.0.0.1:", port), &tls.Config{InsecureSkipVerify: true, MaxVersion: tls.VersionTLS12})
		return err == nil
	}) {
		x.e.Log(R{"op": "stuck", "what": "the syslog server does not serve", "n": via})
		return stop
	}
	var ss []string
	for l := 0; l < 1+x.r.Intn(8); l++ {
		ss = append(ss, srcs[x.r.Intn(len(srcs))])
	}
	es, batch := x.draft(ss, func(src string, i int) *loggregator_v2.Envelope {
		return &loggregator_v2.Envelope{SourceId: x.str[src], InstanceId: "7", Timestamp: x.base + int64(i)*second,
			Message: &loggregator_v2.Envelope_Gauge{Gauge: &loggregator_v2.Gauge{Metrics: map[string]*loggregator_v2.GaugeValue{"m": {Unit: "u", Value: float64(i)}}}}}
	})
	x.mu.Lock()
	x.sent(via, "syslog", false, batch)
	x.e.Log(R{"op": "relay", "via": via, "batch": batch})
	x.mu.Unlock()
	for _, e := range es {
		t := fmt.Sprintf(`<14>1 %s host %s [APP/7] - [gauge@47450 name="m" value="%v" unit="u"]`, time.Unix(0, e.Timestamp).UTC().Format(time.RFC3339Nano), e.SourceId, e.GetGauge().GetMetrics()["m"].Value)
		fmt.Fprintf(c, "%d %s", len(t), t)
	}
	return func() {
		c.Close()
		stop()
	}
}

func cluster(name string, ep int, dir string, ca, other *vtx.CA, pair, odd vtx.Pair) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		r := vt.Rand(name)
		nodes, cap := 2+r.Intn(3), []int{1000, 5}[r.Intn(2)]
		factor := 1 + r.Intn(2)
		if ep%5 == 4 {
			nodes = 1
		}
		words := []string{}
		for i := 0; i < 8; i++ {
			words = append(words, fmt.Sprint("s", i))
		}
		x := newWorld(e, r, words, nodes, cap)
		e.Cfg["programs"] = true
		defer x.close()
		creds := func(p vtx.Pair, c *vtx.CA) grpc.DialOption {
			return grpc.WithTransportCredentials(credentials.NewTLS(&tls.Config{Certificates: []tls.Certificate{p.TLS()}, RootCAs: c.Pool(), ServerName: "log-cache"}))
		}
		x.dial = []grpc.DialOption{creds(pair, ca)}
		var addrs []string
		for i, n := range x.nodes {
			n.addr = fmt.Sprintf("127.%d.%d.%d:%d", 200+os.Getpid()%50, os.Getpid()/50%250+1, ep%250+1, 7000+i)
			addrs = append(addrs, n.addr)
		}
		x.start = func(i int) func() {
			env := append(pairEnv(ca, pair), "ADDR="+addrs[i], fmt.Sprint("MAX_PER_SOURCE=", cap), "MEMORY_LIMIT_PERCENT=100", "QUERY_TIMEOUT=20s")
			if nodes > 1 || r.Intn(2) == 0 {
				env = append(env, fmt.Sprint("NODE_INDEX=", i), "NODE_ADDRS="+strings.Join(addrs, ","))
			}
			return spawn(os.Getenv("VERIF_LOG_CACHE_BIN"), env)
		}
		for _, i := range r.Perm(nodes) {
			x.bring(x.nodes[i])
		}
		if x.over() {
			return
		}
		s := &scheds{}
		interval := 100 * time.Millisecond
		electing := r.Intn(3) > 0
		count := 1 + r.Intn(40)
		scheduler := func(i, factor int) {
			env := append(pairEnv(ca, pair), fmt.Sprint("INTERVAL=", interval), fmt.Sprint("COUNT=", count), fmt.Sprint("REPLICATION_FACTOR=", factor), "NODE_ADDRS="+strings.Join(addrs, ","))
			if electing {
				lis, err := net.Listen("tcp", "127.0.0.1:0")
				if err != nil {
					vt.Fatal("%s", err)
				}
				hs := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
					if atomic.LoadInt32(&s.lead) != int32(i) {
						w.WriteHeader([]int{http.StatusLocked, 404, 500, 204}[rand.Intn(4)])
					}
				})}
				if atomic.LoadInt32(&s.lead) == unreachable {
					lis.Close()
				}
				go hs.Serve(lis)
				s.stops = append(s.stops, func() { hs.Close() })
				env = append(env, "LEADER_ELECTION_ENDPOINT=http://"+lis.Addr().String())
			}
			s.stops = append(s.stops, spawn(os.Getenv("VERIF_SCHEDULER_BIN"), env))
		}
		stop := func() {
			for i := range s.stops {
				s.stops[len(s.stops)-1-i]()
			}
			s.stops = nil
		}
		defer func() { stop() }()
		run := func(factor int) {
			if nodes > 1 || r.Intn(2) == 0 {
				scheduler(0, factor)
				if electing {
					scheduler(1, factor)
				}
			}
		}
		if electing {
			s.leads([]int{nobody, nobody, unreachable}[r.Intn(3)])
			run(1)
			time.Sleep(10 * interval)
			if t := x.covers(); t != nil {
				x.e.Log(R{"op": "unled", "t": x.full(t)})
			}
			if atomic.LoadInt32(&s.lead) == unreachable {
				s.leads(0)
				stop()
				run(1)
			}
			s.leads(0)
		} else {
			run(1)
		}
		settle := func(factor int) {
			if nodes == 1 {
				x.follow(nil, nil)
				return
			}
			x.scheduled(factor, interval)
		}
		settle(1)
		x.warm()
		if factor > 1 && nodes > 1 {
			stop()
			run(factor)
			settle(factor)
		}
		some := func() {
			for k := 0; k < 6 && !x.over(); k++ {
				var ss []string
				for l := 0; l < 1+r.Intn(8); l++ {
					ss = append(ss, words[r.Intn(len(words))])
				}
				x.send(x.live()[r.Intn(len(x.live()))].w, ss, r.Intn(8) == 0)
			}
			done := func() {}
			if ns := x.live(); len(ns) > 0 {
				done = x.syslog(pairEnv(ca, pair), pair, ns[r.Intn(len(ns))].w)
			}
			x.check()
			done()
		}
		some()
		x.stranger(grpc.WithInsecure(), "no tls")
		x.stranger(grpc.WithTransportCredentials(credentials.NewTLS(&tls.Config{InsecureSkipVerify: true})), "no certificate")
		x.stranger(grpc.WithTransportCredentials(credentials.NewTLS(&tls.Config{InsecureSkipVerify: true, Certificates: []tls.Certificate{odd.TLS()}})), "certificate of another")
		if x.over() {
			return
		}
		if nodes > 1 {
			if electing {
				s.leads(1)
				time.Sleep(5 * interval)
				settle(factor)
				some()
			}
			n := x.nodes[r.Intn(nodes)]
			x.end(n)
			settle(factor)
			some()
			x.bring(n)
			settle(factor)
			if factor == 1 {
				x.warm()
			}
			some()
		} else if r.Intn(2) == 0 {
			x.end(x.nodes[0])
			x.bring(x.nodes[0])
			settle(factor)
			some()
		}
		if !x.over() {
			x.metas()
		}
	}
}

func programs() {
	dir := vtx.Dir()
	ca, other := vtx.NewCA(dir, "ca"), vtx.NewCA(dir, "other")
	pair, odd := ca.Issue("node", []string{"log-cache"}), other.Issue("odd", []string{"log-cache"})
	var ts []vt.Task
	for i := 0; i < int(vt.N); i++ {
		name := fmt.Sprint("programs-", i)
		ts = append(ts, vt.Task{Name: name, Run: cluster(name, i, dir, ca, other, pair, odd)})
	}
	vt.RunAll(ts, 8)
	vtx.Remove(dir)
}

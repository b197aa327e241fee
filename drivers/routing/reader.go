package main

import (
	"context"
	"math"
	"regexp"
	"strconv"
	"sync"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/routing"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
	rpc "code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"github.com/golang/protobuf/proto"
)

// The times requests use, by rank; rank 3 is the time 0.
var times = []int64{math.MinInt64, -5, -1, 0, 1, 5, 1500000000000000000, math.MaxInt64}

const zeroRank, nowRank = 3, 99

type asked struct {
	src        string
	start, end int64
	kinds      []rpc.EnvelopeType
	re         *regexp.Regexp
	limit      int
	desc       bool
}

// fakeStore keeps what it was asked, by source.
type fakeStore struct {
	mu   sync.Mutex
	got  map[string][]asked
	ret  map[string][]*loggregator_v2.Envelope
	meta map[string]rpc.MetaInfo
}

func (s *fakeStore) Get(src string, start, end time.Time, kinds []rpc.EnvelopeType, re *regexp.Regexp, limit int, desc bool) []*loggregator_v2.Envelope {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.got[src] = append(s.got[src], asked{src, start.UnixNano(), end.UnixNano(), append([]rpc.EnvelopeType{}, kinds...), re, limit, desc})
	return s.ret[src]
}

func (s *fakeStore) Meta() map[string]rpc.MetaInfo {
	s.mu.Lock()
	defer s.mu.Unlock()
	m := map[string]rpc.MetaInfo{}
	for k, v := range s.meta {
		m[k] = v
	}
	return m
}

func clamp(n int64) int64 {
	if n > math.MaxInt32 {
		return math.MaxInt32
	}
	if n < -math.MaxInt32 {
		return -math.MaxInt32
	}
	return n
}

func rank(t int64) int {
	for i, v := range times {
		if v == t {
			return i
		}
	}
	return -99
}

// oneRead runs one request and reports what was asked of the store.
func oneRead(e *vt.Episode, st *fakeStore, rd *routing.LocalStoreReader, src string, q R, limit int64) {
	req := &rpc.ReadRequest{
		SourceId: src, StartTime: times[vt.I(q, "start")], EndTime: times[vt.I(q, "end")],
		Limit: limit, NameFilter: vt.S(q, "filter"), Descending: vt.B(q, "desc"),
	}
	for _, t := range q["types"].([]interface{}) {
		req.EnvelopeTypes = append(req.EnvelopeTypes, rpc.EnvelopeType(rpc.EnvelopeType_value[t.(string)]))
	}
	var want []*loggregator_v2.Envelope
	rnd := vt.Rand(src)
	for i := rnd.Intn(4); i > 0; i-- {
		want = append(want, &loggregator_v2.Envelope{SourceId: src, Timestamp: rnd.Int63()})
	}
	st.mu.Lock()
	st.ret[src] = want
	st.mu.Unlock()
	q["src"] = src
	q["limit"] = clamp(limit)

	t0 := time.Now().UnixNano()
	resp, err := rd.Read(context.Background(), req)
	t1 := time.Now().UnixNano()

	st.mu.Lock()
	got := st.got[src]
	delete(st.got, src)
	delete(st.ret, src)
	st.mu.Unlock()
	ev := R{"op": "read", "q": q, "err": err != nil, "calls": len(got), "same": false}
	ev["a"] = R{"src": "", "start": 0, "end": 0, "limit": 0, "kinds": []string{}, "filter": "", "desc": false}
	if len(got) > 0 {
		g := got[len(got)-1]
		end := rank(g.end)
		if g.end >= t0 && g.end <= t1 {
			end = nowRank
		}
		kinds := []string{}
		for _, k := range g.kinds {
			kinds = append(kinds, k.String())
		}
		f := ""
		if g.re != nil {
			if f = g.re.String(); f == "" {
				f = "(empty)"
			}
		}
		ev["a"] = R{"src": g.src, "start": rank(g.start), "end": end, "limit": clamp(int64(g.limit)), "kinds": kinds, "filter": f, "desc": g.desc}
	}
	if err == nil {
		b := resp.GetEnvelopes().GetBatch()
		same := resp.GetEnvelopes() != nil && len(b) == len(want)
		for i := 0; same && i < len(b); i++ {
			same = b[i] == want[i] || proto.Equal(b[i], want[i])
		}
		ev["same"] = same
	}
	e.Log(ev)
}

var limits = []int64{math.MinInt64, math.MinInt32, -1, 0, 1, 2, 99, 100, 101, 500, 999, 1000, 1001, math.MaxInt32, 1 << 32, 1<<32 + 5, math.MaxInt64}

func readerTasks() []vt.Task {
	st := &fakeStore{got: map[string][]asked{}, ret: map[string][]*loggregator_v2.Envelope{}, meta: map[string]rpc.MetaInfo{}}
	rd := routing.NewLocalStoreReader(st)
	var ts []vt.Task
	scn := vt.Scenarios()
	for i := 0; i < len(scn); i += 50 {
		i := i
		ts = append(ts, vt.Task{Name: name("gen-%d", i), Run: func(e *vt.Episode) {
			for j := i; j < i+50 && j < len(scn); j++ {
				oneRead(e, st, rd, "s"+strconv.Itoa(j), scn[j][0], int64(vt.I(scn[j][0], "limit")))
			}
		}})
	}
	filters := []string{"", "a.*", "^x$", "(", "[z-a]", "a**"}
	kinds := []string{"ANY", "LOG", "COUNTER", "GAUGE", "TIMER", "EVENT"}
	for i := int64(0); i < vt.N; i++ {
		n := name("rnd-%d", i)
		ts = append(ts, vt.Task{Name: n, Run: func(e *vt.Episode) {
			r := vt.Rand(n)
			for j := 0; j < 30; j++ {
				types := []interface{}{}
				for k := r.Intn(5); k > 0; k-- {
					types = append(types, kinds[r.Intn(6)])
				}
				q := R{"op": "read", "start": r.Intn(len(times)), "end": r.Intn(len(times)), "filter": filters[r.Intn(6)], "types": types, "desc": r.Intn(2) == 0}
				if r.Intn(2) == 0 {
					q["start"] = r.Intn(zeroRank + 1)
					q["end"] = zeroRank + r.Intn(len(times)-zeroRank)
					q["filter"] = filters[r.Intn(3)]
				}
				oneRead(e, st, rd, n+"/"+strconv.Itoa(j), q, limits[r.Intn(len(limits))])
			}
			// meta, from a store of its own
			for j := 0; j < 3; j++ {
				ms := &fakeStore{meta: map[string]rpc.MetaInfo{}}
				kept := R{"": []int64{}}
				for k := r.Intn(5); k > 0; k-- {
					m := rpc.MetaInfo{Count: int64(r.Intn(100)), Expired: int64(r.Intn(100)), OldestTimestamp: int64(r.Intn(100)), NewestTimestamp: int64(r.Intn(100))}
					src := "m" + strconv.Itoa(r.Intn(10))
					ms.meta[src] = m
					kept[src] = []int64{m.Count, m.Expired, m.OldestTimestamp, m.NewestTimestamp}
				}
				resp, err := routing.NewLocalStoreReader(ms).Meta(context.Background(), &rpc.MetaRequest{LocalOnly: r.Intn(2) == 0})
				got := R{"": []int64{}}
				own := true
				seen := map[*rpc.MetaInfo]bool{}
				for src, m := range resp.GetMeta() {
					own = own && !seen[m]
					seen[m] = true
					got[src] = []int64{m.GetCount(), m.GetExpired(), m.GetOldestTimestamp(), m.GetNewestTimestamp()}
				}
				e.Log(R{"op": "meta", "kept": kept, "got": got, "err": err != nil, "own": own})
			}
		}})
	}
	return ts
}

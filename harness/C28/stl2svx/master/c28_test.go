package master

//verif:race

import (
	"archive/zip"
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"sync"
	"testing"
	"time"

	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
	"golang.org/x/net/context"
	"google.golang.org/grpc"
)

func vIdle(m *master) map[string]bool {
	m.amu.Lock()
	defer m.amu.Unlock()
	r := map[string]bool{}
	for a := range m.idleAgents {
		r[a] = true
	}
	return r
}

func vWait(key, desc string, f func()) bool {
	done := make(chan bool)
	go func() { defer close(done); vTry(key, desc, f) }()
	select {
	case <-done:
		return true
	case <-time.After(20 * time.Second):
		vFail("hang", "%s: no end in sight", desc)
		return false
	}
}

// histories of registrations and hand-outs, one after the other
func TestVerifC28Histories(t *testing.T) {
	log.SetOutput(io.Discard)
	// steps: 0..2 register agent, 3 take an agent (if there is one)
	n := 5
	if vThorough() {
		n = 7
	}
	var rec func(seq []int)
	rec = func(seq []int) {
		desc := fmt.Sprintf("steps %v", seq)
		ok := vWait("history", desc, func() {
			vCase("history", len(seq) < 2, desc)
			m := New()
			want := map[string]bool{}
			for _, s := range seq {
				if s < 3 {
					a := fmt.Sprintf("agent%d", s)
					if _, err := m.RegisterAgent(nil, &pb.RegisterAgentRequest{Address: a}); err != nil {
						vFail("register", "%s: %v", desc, err)
					}
					want[a] = true
				} else if len(want) > 0 {
					a := m.getIdleAgent()
					if !want[a] {
						vFail("handout", "%s: %q handed out, idle %v", desc, a, want)
					}
					delete(want, a)
				}
				if got := vIdle(m); fmt.Sprint(got) != fmt.Sprint(want) {
					vFail("idle", "%s: idle %v, want %v", desc, got, want)
					return
				}
			}
		})
		if !ok || len(seq) == n {
			return
		}
		for s := 0; s < 4; s++ {
			rec(append(seq[:len(seq):len(seq)], s))
		}
	}
	rec(nil)
	vExhaustive(fmt.Sprintf("all histories of %d steps of registering three agents and handing one out", n))
}

// many takers at once: every registration is handed out once
func TestVerifC28Takers(t *testing.T) {
	log.SetOutput(io.Discard)
	r := vRand(28)
	for i := 0; i < vN(12); i++ {
		agents, takers := 1+r.Intn(40), 2+r.Intn(8)
		desc := fmt.Sprintf("%d agents, %d takers", agents, takers)
		m := New()
		var mu sync.Mutex
		taken := map[string]int{}
		var wg sync.WaitGroup
		left := agents
		for g := 0; g < takers; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					mu.Lock()
					if left == 0 {
						mu.Unlock()
						return
					}
					left--
					mu.Unlock()
					a := m.getIdleAgent()
					mu.Lock()
					taken[a]++
					mu.Unlock()
				}
			}()
		}
		vWait("takers", desc, func() {
			vCase("takers", agents < 2, desc)
			var rg sync.WaitGroup
			for j := 0; j < agents; j++ {
				rg.Add(1)
				go func(j int) {
					defer rg.Done()
					m.RegisterAgent(nil, &pb.RegisterAgentRequest{Address: fmt.Sprint("agent", j)})
				}(j)
			}
			rg.Wait()
			wg.Wait()
			for j := 0; j < agents; j++ {
				if n := taken[fmt.Sprint("agent", j)]; n != 1 {
					vFail("handout", "%s: agent%d handed out %d times", desc, j, n)
				}
			}
			if got := vIdle(m); len(got) != 0 || len(taken) != agents {
				vFail("idle", "%s: %v still idle, taken %v", desc, got, taken)
			}
		})
	}
}

type vAgent struct {
	addr string
	mu   sync.Mutex
	busy int
	max  int
	jobs []int64
	fail func(z int64) bool
	wait time.Duration
	idle func(addr string) bool // whether the master takes the agent for idle
	bad  int
}

func (a *vAgent) SliceJob(ctx context.Context, in *pb.SliceJobRequest) (*pb.SliceJobResponse, error) {
	a.mu.Lock()
	a.busy++
	if a.busy > a.max {
		a.max = a.busy
	}
	a.jobs = append(a.jobs, in.GetZ())
	a.mu.Unlock()
	time.Sleep(a.wait)
	if a.idle(a.addr) {
		a.mu.Lock()
		a.bad++
		a.mu.Unlock()
	}
	a.mu.Lock()
	defer a.mu.Unlock()
	a.busy--
	if a.fail(in.GetZ()) {
		return nil, errors.New("no")
	}
	return &pb.SliceJobResponse{PngFile: []byte(fmt.Sprint("slice ", in.GetZ()))}, nil
}

// whole jobs, with agents on the loopback network
func TestVerifC28Jobs(t *testing.T) {
	log.SetOutput(io.Discard)
	r := vRand(281)
	for i := 0; i < vN(8); i++ {
		k, slices := 1+r.Intn(4), 1+r.Intn(12)
		failEvery := 0
		if r.Intn(2) == 0 && k > 1 {
			failEvery = slices // one slice fails
		}
		desc := fmt.Sprintf("%d agents, %d slices, failing %v", k, slices, failEvery > 0)
		m := New()
		var zbuf bytes.Buffer
		m.zipFile = zip.NewWriter(&zbuf)
		var agents []*vAgent
		var servers []*grpc.Server
		for j := 0; j < k; j++ {
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				t.Fatal(err)
			}
			a := &vAgent{addr: l.Addr().String(), wait: time.Duration(1+r.Intn(15)) * time.Millisecond,
				fail: func(z int64) bool { return failEvery > 0 && z == int64(failEvery-1) },
				idle: func(addr string) bool { return vIdle(m)[addr] }}
			s := grpc.NewServer()
			pb.RegisterAgentServer(s, a)
			go s.Serve(l)
			agents = append(agents, a)
			servers = append(servers, s)
		}
		vWait("jobs", desc, func() {
			vCase("jobs", k < 2 || slices < 2, desc)
			for _, a := range agents {
				m.RegisterAgent(nil, &pb.RegisterAgentRequest{Address: a.addr})
			}
			var wg sync.WaitGroup
			job := &pb.NewJobRequest{Dim: 4, NX: 1, NY: 1, NZ: 1}
			for z := 0; z < slices; z++ {
				wg.Add(1)
				go func(z int) {
					defer wg.Done()
					m.runAgent(context.Background(), job, z)
				}(z)
			}
			wg.Wait()
			done := map[int64]int{}
			idle := vIdle(m)
			lost := 0
			for _, a := range agents {
				a.mu.Lock()
				if a.max > 1 {
					vFail("lease", "%s: an agent had %d slices at a time", desc, a.max)
				}
				if a.bad > 0 {
					vFail("lease", "%s: an agent was taken for idle while at work", desc)
				}
				for _, z := range a.jobs {
					done[z]++
				}
				if !idle[a.addr] {
					lost++
				}
				a.mu.Unlock()
			}
			for z := 0; z < slices; z++ {
				if done[int64(z)] != 1 {
					vFail("slices", "%s: slice %d was done %d times", desc, z, done[int64(z)])
				}
			}
			if len(idle) > k || lost > 1 || lost > 0 && failEvery == 0 {
				vFail("idle", "%s: idle in the end: %v, agents not among them: %d", desc, idle, lost)
			}
		})
		for _, s := range servers {
			s.Stop()
		}
	}
}

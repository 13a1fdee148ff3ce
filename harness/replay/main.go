// Command replay runs one harness natively, against the compiled code, with recorded inputs.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/metrics"
	"time"

	"nsverif/sym"
)

type job struct {
	Harness string            `json:"harness"`
	Inputs  map[string]string `json:"inputs"`
}

type result struct {
	Harness    string   `json:"harness"`
	Failed     []string `json:"failed"`
	Observed   []string `json:"observed"`
	Panic      string   `json:"panic"`
	Infeasible bool     `json:"infeasible"`
	Hung       bool     `json:"hung"`
	Stacks     string   `json:"stacks,omitempty"`
}

func run(j job, tier string) (r result) {
	r.Harness = j.Harness
	defer func() {
		r.Failed, r.Observed = sym.Failed(), sym.Observed()
		if x := recover(); x != nil {
			if sym.Infeasible(x) {
				r.Infeasible = true
				return
			}
			r.Panic = fmt.Sprint(x)
		}
	}()
	sym.Reset(j.Inputs, tier)
	f := registry[j.Harness]
	if f == nil {
		r.Panic = "no such harness"
		return
	}
	f()
	return
}

// newline starts each result on a line of its own: what is under test may write to stdout too.
type newline struct{}

func (newline) Write(b []byte) (int, error) { return os.Stdout.Write(append([]byte("\n"), b...)) }

// hung reports after the limit, or when memory runs low before: a run with no end may allocate without end.
func hung(limit time.Duration, ended <-chan bool) <-chan bool {
	c := make(chan bool, 1)
	go func() {
		for t := time.Now(); time.Since(t) < limit; {
			select {
			case <-ended:
				return
			case <-time.After(time.Second / 5):
			}
			s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
			if metrics.Read(s); s[0].Value.Uint64() > 4<<30 {
				break
			}
		}
		c <- true
	}()
	return c
}

func main() {
	file := flag.String("jobs", "", "JSON list of jobs")
	tier := flag.String("tier", "quick", "tier")
	repeat := flag.Int("repeat", 1, "runs per job")
	limit := flag.Duration("limit", 30*time.Second, "time after which a run counts as hung")
	untilBad := flag.Bool("until-bad", false, "stop a job's runs at the first bad one")
	total := flag.Duration("total", 10*time.Minute, "time for everything")
	flag.Parse()
	b, err := os.ReadFile(*file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var jobs []job
	if err := json.Unmarshal(b, &jobs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Stdout.WriteString("\n")
	out := json.NewEncoder(newline{})
	t0 := time.Now()
	for _, j := range jobs {
		for i := 0; i < *repeat && time.Since(t0) < *total; i++ {
			ch := make(chan result, 1)
			ended := make(chan bool)
			go func() { defer close(ended); ch <- run(j, *tier) }()
			select {
			case r := <-ch:
				out.Encode(r)
				if *untilBad && (r.Panic != "" || len(r.Failed) > 0) {
					return
				}
			case <-hung(*limit, ended):
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				out.Encode(result{Harness: j.Harness, Hung: true, Failed: sym.Failed(), Observed: sym.Observed(), Stacks: string(buf)})
				return // a hung run leaves goroutines behind
			}
		}
	}
}

// Command vrfharness exercises the public API of go-jsval against an
// independent, executable reading of the property statements. It is the
// concretiser of the proofs (it looks for the input behind a failed
// obligation) and the labelled bounded stand-in for code outside the
// verifier's reach. It is compiled into /repo's module through an overlay
// and uses only exported identifiers.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"github.com/lestrrat-go/jsschema"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// T is one case.
type T struct {
	*rand.Rand
	desc    []string
	trivial bool
	checks  int
	accepts int
	rejects int
	fail    string
	share   func(*schema.Schema) // changes a schema between reading and building
}

type stop struct{}

// Desc records what the case is, in words that identify the input.
func (t *T) Desc(f string, a ...interface{}) { t.desc = append(t.desc, fmt.Sprintf(f, a...)) }

// Fail ends the case as a violation.
func (t *T) Fail(f string, a ...interface{}) {
	t.fail = fmt.Sprintf(f, a...)
	panic(stop{})
}

// Verdict compares a verdict with the expected one.
func (t *T) Verdict(what string, err error, want bool) {
	t.checks++
	if want {
		t.accepts++
	} else {
		t.rejects++
	}
	if (err == nil) != want {
		exp := "rejected"
		if want {
			exp = "accepted"
		}
		t.Fail("%s: expected to be %s, got error=%v", what, exp, err)
	}
}

// Want checks a condition.
func (t *T) Want(ok bool, f string, a ...interface{}) {
	t.checks++
	if !ok {
		t.Fail(f, a...)
	}
}

func (t *T) chance(p float64) bool      { return t.Float64() < p }
func (t *T) pick(l ...string) string    { return l[t.Intn(len(l))] }
func (t *T) pickF(l ...float64) float64 { return l[t.Intn(len(l))] }
func (t *T) pickI(l ...int) int         { return l[t.Intn(len(l))] }

// Suite is a family of cases; props lists the properties it bears on.
type Suite struct {
	name  string
	props string
	n     int // quick cases
	run   func(*T)
}

var suites []Suite

type failure struct {
	Property string   `json:"property"`
	Suite    string   `json:"suite"`
	Case     int      `json:"case"`
	Seed     int64    `json:"seed"`
	Input    []string `json:"input"`
	Observed string   `json:"observed"`
}

type report struct {
	Cases    int            `json:"cases"`
	Distinct int            `json:"distinct_nontrivial"`
	Checks   int            `json:"checks"`
	Accepts  int            `json:"expected_accept"`
	Rejects  int            `json:"expected_reject"`
	Suites   map[string]int `json:"suites"`
	Samples  []string       `json:"samples"`
	Failures []failure      `json:"failures"`
	WallS    float64        `json:"wall_s"`
}

var trace *os.File

func runCase(s Suite, seed int64, i int, prop string) *T {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, s.name, i)
	t := &T{Rand: rand.New(rand.NewSource(int64(h.Sum64())))}
	if trace != nil {
		trace.Truncate(0)
		trace.WriteAt([]byte(fmt.Sprintf("%s %d\n", s.name, i)), 0)
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stop); !ok {
					st := strings.Split(string(debug.Stack()), "\n")
					var fr []string
					for _, l := range st {
						if strings.Contains(l, "jsval") && strings.Contains(l, ".go:") && !strings.Contains(l, "vrfharness") {
							fr = append(fr, strings.TrimSpace(l))
						}
					}
					if len(fr) > 4 {
						fr = fr[:4]
					}
					t.fail = fmt.Sprintf("panic: %v at %v", r, fr)
				}
			}
		}()
		s.run(t)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		return &T{desc: append([]string{}, t.desc...), fail: "no result after 60 s"}
	}
	return t
}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	mult := flag.Float64("mult", 1, "multiplier on the number of cases")
	out := flag.String("out", "", "report file")
	only := flag.String("suite", "", "run one suite")
	cs := flag.Int("case", -1, "run one case")
	tr := flag.String("trace", "", "file that names the running case")
	maxSecs := flag.Float64("secs", 240, "time limit")
	flag.Parse()
	debug.SetMaxStack(64 << 20)
	if *tr != "" {
		trace, _ = os.Create(*tr)
	}
	t0 := time.Now()
	rep := report{Suites: map[string]int{}, Samples: []string{}, Failures: []failure{}}
	seen := map[uint64]bool{}
	found := false
	for _, s := range suites {
		ps := strings.Fields(s.props)
		has := *prop == "" || *prop == "ALL"
		for _, p := range ps {
			has = has || p == *prop
		}
		if !has || *only != "" && s.name != *only {
			continue
		}
		found = true
		n := int(float64(s.n) * *mult)
		if n < 1 {
			n = 1
		}
		for i := 0; i < n; i++ {
			if *cs >= 0 && i != *cs {
				continue
			}
			if time.Since(t0).Seconds() > *maxSecs {
				break
			}
			t := runCase(s, *seed, i, *prop)
			rep.Cases++
			rep.Checks += t.checks
			rep.Accepts += t.accepts
			rep.Rejects += t.rejects
			rep.Suites[s.name]++
			d := strings.Join(t.desc, "; ")
			if *cs >= 0 {
				fmt.Println(d, "->", t.fail)
			}
			if !t.trivial && d != "" {
				h := fnv.New64a()
				h.Write([]byte(d))
				if !seen[h.Sum64()] {
					seen[h.Sum64()] = true
					rep.Distinct++
				}
			}
			if i < 2 && len(rep.Samples) < 12 {
				if len(d) > 400 {
					d = d[:400] + "..."
				}
				rep.Samples = append(rep.Samples, s.name+": "+d)
			}
			if t.fail != "" {
				rep.Failures = append(rep.Failures, failure{Property: *prop, Suite: s.name, Case: i, Seed: *seed, Input: t.desc, Observed: t.fail})
				break
			}
		}
	}
	rep.WallS = time.Since(t0).Seconds()
	sort.Strings(rep.Samples)
	b, _ := json.MarshalIndent(rep, "", " ")
	if *out != "" {
		os.WriteFile(*out, append(b, '\n'), 0o644)
	}
	for _, f := range rep.Failures {
		fmt.Printf("FAIL suite=%s case=%d input=%v observed=%s\n", f.Suite, f.Case, f.Input, f.Observed)
	}
	fmt.Printf("cases=%d distinct=%d checks=%d accept=%d reject=%d failures=%d %.1fs\n", rep.Cases, rep.Distinct, rep.Checks, rep.Accepts, rep.Rejects, len(rep.Failures), rep.WallS)
	if !found {
		fmt.Println("no suite for", *prop)
	}
	if len(rep.Failures) > 0 {
		os.Exit(1)
	}
}

// Package cov runs the checks of a property and accounts for what they covered.
package cov

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/metrics"
	"sort"
	"strconv"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Thorough says which tier runs.
var Thorough = os.Getenv("VERIF_TIER") == "thorough"

var (
	mu         sync.Mutex
	evals      int64
	nontrivial = map[uint64]struct{}{}
	ntEvals    int64
	samples    []string
	seen       = map[string]int64{} // check -> evaluations
	classes    = map[string]int64{}
	findings   []string
	skipped    int64
	rule       string
	deadline   time.Time
	current    string
	caseEnd    time.Time // watchdog limit for the running case; zero: none
	started    = time.Now()
	sampleSeen = map[string]int{}
)

// Rule states when a case counts as non-trivial.
func Rule(s string) { mu.Lock(); rule = s; mu.Unlock() }

// Note accounts for one evaluated case.
func Note(nt bool, key string, sample func() string) {
	h := fnv.New64a()
	h.Write([]byte(key))
	NoteHash(nt, h.Sum64(), sample)
}

// NoteHash is Note with a ready hash.
func NoteHash(nt bool, h uint64, sample func() string) {
	mu.Lock()
	defer mu.Unlock()
	evals++
	seen[current]++
	if !nt {
		return
	}
	ntEvals++
	if len(nontrivial) < 1000000 {
		nontrivial[h] = struct{}{}
	}
	if sample != nil && sampleSeen[current] < 4 && len(samples) < 60 {
		sampleSeen[current]++
		s := sample()
		if len(s) > 900 {
			s = s[:900] + "..."
		}
		samples = append(samples, current+": "+s)
	}
}

// NoteMany accounts for exhaustively enumerated cases, all distinct.
func NoteMany(n int64, sample string) {
	mu.Lock()
	defer mu.Unlock()
	evals += n
	ntEvals += n
	seen[current] += n
	exhaustive += n
	if sampleSeen[current] < 4 {
		sampleSeen[current]++
		samples = append(samples, current+": "+sample)
	}
}

var exhaustive int64

// Class counts a feature occurring in a case.
func Class(name string) { mu.Lock(); classes[name]++; mu.Unlock() }

// Finding records the reproduction of a known finding; the driver accepts it
// when its id is listed in known-findings.txt.
func Finding(id, what string) { mu.Lock(); findings = append(findings, id+" "+what); mu.Unlock() }

// N picks a count by tier.
func N(quick, thorough int) int {
	if Thorough {
		return thorough
	}
	return quick
}

// Check runs one rapid property as a subtest. The number of cases depends on
// the tier; cases after the time budget are skipped (and not counted).
func Check(t *testing.T, name string, quick, thorough int, prop func(rt *rapid.T)) {
	t.Helper()
	t.Run(name, func(t *testing.T) {
		n := N(quick, thorough)
		if s := os.Getenv("VERIF_SCALE"); s != "" {
			if f, err := strconv.ParseFloat(s, 64); err == nil && f > 0 {
				n = int(float64(n)*f) + 1
			}
		}
		flag.Set("rapid.checks", strconv.Itoa(n))
		mu.Lock()
		current = name
		mu.Unlock()
		start := time.Now()
		failed := false
		rapid.Check(t, func(rt *rapid.T) {
			if Over() && !failed {
				mu.Lock()
				skipped++
				mu.Unlock()
				return
			}
			arm(90 * time.Second)
			defer disarm()
			ok := false
			defer func() {
				if !ok {
					failed = true
				}
			}()
			prop(rt)
			ok = true
		})
		if os.Getenv("VERIF_TIMES") != "" {
			fmt.Printf("TIME %s %v\n", name, time.Since(start))
		}
	})
}

// Loop runs a deterministic enumeration as a subtest.
func Loop(t *testing.T, name string, f func(t *testing.T)) {
	t.Helper()
	if s := os.Getenv("VERIF_SHARD"); s != "" && s != "0" {
		return // the same in every process: one of them does it
	}
	t.Run(name, func(t *testing.T) {
		mu.Lock()
		current = name
		mu.Unlock()
		start := time.Now()
		arm(280 * time.Second)
		defer disarm()
		f(t)
		if os.Getenv("VERIF_TIMES") != "" {
			fmt.Printf("TIME %s %v\n", name, time.Since(start))
		}
	})
}

// Wait runs a check that mostly waits, in one process other than the one that
// does the loops.
func Wait(t *testing.T, name string, f func(t *testing.T)) {
	t.Helper()
	if s := os.Getenv("VERIF_SHARD"); s != "" && s != "1" {
		return
	}
	t.Run(name, func(t *testing.T) {
		mu.Lock()
		current = name
		mu.Unlock()
		start := time.Now()
		arm(280 * time.Second)
		defer disarm()
		f(t)
		if os.Getenv("VERIF_TIMES") != "" {
			fmt.Printf("TIME %s %v\n", name, time.Since(start))
		}
	})
}

// Slices runs an enumeration in parts, one per process, as long as there are
// parts left; f gets the number of its part.
func Slices(t *testing.T, name string, of int, f func(t *testing.T, part int)) {
	t.Helper()
	part, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
	if part >= of {
		return
	}
	t.Run(name, func(t *testing.T) {
		mu.Lock()
		current = name
		mu.Unlock()
		arm(280 * time.Second)
		defer disarm()
		start := time.Now()
		f(t, part)
		if os.Getenv("VERIF_TIMES") != "" {
			fmt.Printf("TIME %s %v\n", name, time.Since(start))
		}
	})
}

// Over reports that the time budget is used up.
func Over() bool { return !deadline.IsZero() && time.Now().After(deadline) }

func arm(d time.Duration) { mu.Lock(); caseEnd = time.Now().Add(d); mu.Unlock() }
func disarm()             { mu.Lock(); caseEnd = time.Time{}; mu.Unlock() }

// Describe stores the description of the running case, for the report of a
// crash in a goroutine of the library.
func Describe(s string) {
	if f := os.Getenv("VERIF_CASE"); f != "" {
		os.WriteFile(f, []byte(s), 0o644)
	}
}

// Infra ends the run without a verdict.
func Infra(format string, a ...interface{}) {
	fmt.Printf("VERIF-INFRA: "+format+"\n", a...)
	flush()
	os.Exit(4)
}

func watchdog() {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(200 * time.Millisecond)
		mu.Lock()
		hang := !caseEnd.IsZero() && time.Now().After(caseEnd)
		mu.Unlock()
		metrics.Read(s)
		big := s[0].Value.Uint64() > 8<<30
		if hang || big {
			what := "VERIF-HANG: a case did not end within its time limit"
			if big {
				what = "VERIF-RUNAWAY: memory grew beyond 8 GB"
			}
			buf := make([]byte, 4<<20)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Printf("%s\n%s\n", what, buf)
			flush()
			os.Exit(3)
		}
	}
}

// Main wraps testing.M.
func Main(m *testing.M) {
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			deadline = time.Now().Add(time.Duration(n) * time.Second)
		}
	}
	flag.Parse()
	go watchdog()
	go func() {
		for {
			time.Sleep(3 * time.Second)
			flush()
		}
	}()
	code := m.Run()
	flush()
	hashes()
	os.Exit(code)
}

// Out is what a run reports to the driver.
type Out struct {
	Evaluations int64            `json:"evaluations"`
	NonTrivial  int64            `json:"nontrivial_evaluations"`
	Distinct    int64            `json:"distinct_nontrivial"`
	Exhaustive  int64            `json:"exhaustively_enumerated"`
	Skipped     int64            `json:"skipped_after_budget"`
	Rule        string           `json:"rule"`
	Samples     []string         `json:"samples"`
	Checks      map[string]int64 `json:"evaluations_by_check"`
	Classes     map[string]int64 `json:"classes"`
	Findings    []string         `json:"findings"`
	Wall        float64          `json:"wall_s"`
}

var flushMu sync.Mutex

func flush() {
	f := os.Getenv("VERIF_COV")
	if f == "" {
		return
	}
	flushMu.Lock()
	defer flushMu.Unlock()
	mu.Lock()
	o := Out{Evaluations: evals, NonTrivial: ntEvals, Distinct: int64(len(nontrivial)) + exhaustive, Exhaustive: exhaustive, Skipped: skipped, Rule: rule, Samples: append([]string(nil), samples...), Checks: map[string]int64{}, Classes: map[string]int64{}, Findings: append([]string(nil), findings...), Wall: time.Since(started).Seconds()}
	for k, v := range seen {
		o.Checks[k] = v
	}
	for k, v := range classes {
		o.Classes[k] = v
	}
	mu.Unlock()
	sort.Strings(o.Findings)
	b, _ := json.MarshalIndent(o, "", " ")
	os.WriteFile(f+".tmp", b, 0o644)
	os.Rename(f+".tmp", f)
}

// hashes writes the hashes of the non-trivial cases, for counting distinct ones
// over several processes.
func hashes() {
	f := os.Getenv("VERIF_COV")
	if f == "" {
		return
	}
	mu.Lock()
	b := make([]byte, 0, 8*len(nontrivial))
	for h := range nontrivial {
		b = binary.NativeEndian.AppendUint64(b, h)
	}
	mu.Unlock()
	os.WriteFile(f+".hashes", b, 0o644)
}

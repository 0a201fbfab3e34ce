// Package hlib runs the concrete searches: cases are made from (seed, index),
// every case runs under a watchdog, a panic inside a case is a failure of it.
package hlib

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Case is one generated input together with what is needed to describe it.
type Case struct {
	*rand.Rand
	Prop    string
	Seed    int64
	Index   int
	logs    []string
	failed  string
	nontriv bool
	key     string
}

type stop struct{}

// Logf records what was done, for the replay file.
func (c *Case) Logf(f string, a ...any) { c.logs = append(c.logs, fmt.Sprintf(f, a...)) }

// Fail ends the case with a violation.
func (c *Case) Fail(f string, a ...any) {
	c.failed = fmt.Sprintf(f, a...)
	panic(stop{})
}

// Skip ends the case without a verdict.
func (c *Case) Skip() { panic(stop{}) }

// Check fails the case unless ok.
func (c *Case) Check(ok bool, f string, a ...any) {
	if !ok {
		c.Fail(f, a...)
	}
}

// Key marks the case as non-trivial, and says what distinguishes it from others.
func (c *Case) Key(f string, a ...any) { c.nontriv = true; c.key += fmt.Sprintf(f, a...) + "|" }

// Panics runs f and returns what it panicked with.
func Panics(f func()) (r any, did bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(stop); is {
				panic(e)
			}
			r, did = e, true
		}
	}()
	f()
	return nil, false
}

// Prop is the search for one property.
type Prop struct {
	ID string
	// Cases in the quick tier (at most; the budget ends it earlier)
	Quick int
	// What a case is
	Rule string
	Run  func(c *Case)
	// Timeout per case, 60 s if 0
	Timeout time.Duration
}

type Result struct {
	Property    string   `json:"property"`
	Seed        int64    `json:"seed"`
	Evaluations int      `json:"evaluations"`
	Distinct    int      `json:"distinct_nontrivial"`
	Rule        string   `json:"rule"`
	Samples     []string `json:"samples"`
	WallS       float64  `json:"wall_s"`
	Violation   *Viol    `json:"violation,omitempty"`
}

type Viol struct {
	Seed  int64    `json:"seed"`
	Index int      `json:"index"`
	What  string   `json:"what"`
	Log   []string `json:"log"`
}

func (p *Prop) one(seed int64, idx int) (c *Case) {
	c = &Case{Rand: rand.New(rand.NewSource(seed*1000003 + int64(idx))), Prop: p.ID, Seed: seed, Index: idx}
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if e := recover(); e != nil {
				if _, is := e.(stop); is {
					return
				}
				st := strings.Split(string(debug.Stack()), "\n")
				if len(st) > 40 {
					st = st[:40]
				}
				c.failed = fmt.Sprintf("panic: %v\n%s", e, strings.Join(st, "\n"))
			}
		}()
		p.Run(c)
	}()
	to := p.Timeout
	if to == 0 {
		to = 60 * time.Second
	}
	select {
	case <-done:
		return c
	case <-time.After(to):
		return &Case{Prop: p.ID, Seed: seed, Index: idx, failed: fmt.Sprintf("did not return within %s (deadlock or endless loop)", to), logs: append([]string{}, c.logs...)}
	}
}

// Main runs the search named on the command line.
func Main(props []*Prop) {
	id := flag.String("p", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	budget := flag.Float64("budget", 20, "seconds")
	mult := flag.Int("mult", 1, "case count multiplier")
	only := flag.Int("index", -1, "run this case only")
	shard := flag.Int("shard", 0, "run the cases with index = shard mod shards")
	shards := flag.Int("shards", 1, "")
	out := flag.String("out", "", "result file")
	flag.Parse()
	var p *Prop
	for _, x := range props {
		if x.ID == *id {
			p = x
		}
	}
	if p == nil {
		fmt.Println("no search for", *id)
		os.Exit(3)
	}
	start := time.Now()
	res := &Result{Property: p.ID, Seed: *seed, Rule: p.Rule}
	keys := map[string]bool{}
	emit := func() {
		res.Distinct = len(keys)
		res.WallS = time.Since(start).Seconds()
		b, _ := json.MarshalIndent(res, "", " ")
		if *out != "" {
			if err := os.WriteFile(*out, b, 0o644); err != nil {
				fmt.Println(err)
				os.Exit(3)
			}
		} else {
			fmt.Println(string(b))
		}
	}
	lo, hi := 0, p.Quick**mult
	if *only >= 0 {
		lo, hi = *only, *only+1
	}
	for i := lo; i < hi; i++ {
		if *only < 0 && i%*shards != *shard {
			continue
		}
		if i > lo+*shard && time.Since(start).Seconds() > *budget {
			break
		}
		c := p.one(*seed, i)
		res.Evaluations++
		if c.nontriv {
			keys[c.key] = true
		}
		if len(res.Samples) < 3 && c.nontriv && i%7 < 2 {
			res.Samples = append(res.Samples, clip(strings.Join(c.logs, "\n")))
		}
		if c.failed != "" {
			res.Violation = &Viol{Seed: *seed, Index: i, What: c.failed, Log: c.logs}
			emit()
			fmt.Printf("violation of %s in case seed=%d index=%d:\n%s\n-- what was done:\n%s\n", p.ID, *seed, i, c.failed, strings.Join(c.logs, "\n"))
			os.Exit(1)
		}
	}
	emit()
}

// SortedKeys returns the keys of m in order.
func SortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

type concReport struct {
	Scenarios, Schedules, Steps, Pruned, Incomplete, States int64
	MaxThreads                                              int
	Samples                                                 []string
	Violations                                              []struct {
		Key, Why, Trace string
		Events          []string
	}
}

// runConc explores all schedules of the check's scenarios on the instrumented code, then repeats a smaller
// exploration in a race build.
func runConc(c *Ctx, id string) {
	work, err := os.MkdirTemp("", "conc-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(work)
	for _, race := range []bool{false, true} {
		bin, err := buildConc(work, race)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			fmt.Println("note: the instrumented harness could not be built; schedules not explored")
			c.mu.Lock()
			c.res.Exhaustive = false
			c.mu.Unlock()
			return
		}
		dl := int(time.Until(c.Deadline).Seconds())
		if race {
			dl = c.Pick(120, 1200)
		} else if !c.Quick() && dl > 7200 {
			dl = 7200
		}
		var wg sync.WaitGroup
		const shards = 48
		sem := make(chan bool, c.Workers)
		for i := 0; i < shards; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				if c.TooMany() {
					return
				}
				sc := filepath.Join(work, fmt.Sprintf("s%v%d", race, i))
				os.MkdirAll(sc, 0755)
				out := filepath.Join(work, fmt.Sprintf("o%v%d.json", race, i))
				cmd := exec.Command(bin, id, c.Tier, fmt.Sprint(i), fmt.Sprint(shards), sc, fmt.Sprint(dl), out)
				cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOMAXPROCS=2")
				var eb strings.Builder
				cmd.Stderr = &eb
				err := cmd.Run()
				if err != nil {
					if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 66 && strings.Contains(eb.String(), "DATA RACE") {
						cur, _ := os.ReadFile(out + ".cur")
						c.Violate("race|"+string(cur), "data race: "+raceSummary(eb.String()), map[string]string{"scenario": string(cur), "report": eb.String()})
						return
					}
					fmt.Fprintln(os.Stderr, "conc:", err, eb.String())
					os.Exit(3)
				}
				if v := eb.String(); v != "" && os.Getenv("CONC_V") != "" {
					fmt.Fprint(os.Stderr, v)
				}
				var r concReport
				b, _ := os.ReadFile(out)
				if json.Unmarshal(b, &r) != nil {
					fmt.Fprintln(os.Stderr, "conc: no report")
					os.Exit(3)
				}
				for _, v := range r.Violations {
					c.Violate("schedule|"+v.Key, v.Why, v)
				}
				if race {
					c.Add("race_checked_schedules", r.Schedules)
					return
				}
				c.Add("scenarios", r.Scenarios)
				c.Add("traces_validated_against_impl", r.Schedules)
				c.Add("transitions", r.Steps)
				c.Add("states", r.States)
				c.Add("pruned_at_step_limit", r.Pruned)
				c.Add("scenarios_cut_by_deadline", r.Incomplete)
				if r.Incomplete > 0 {
					c.mu.Lock()
					c.res.Exhaustive = false
					c.mu.Unlock()
				}
				if i < 3 {
					for _, s := range r.Samples {
						c.Sample(s)
					}
				}
			}(i)
		}
		wg.Wait()
	}
}

func raceSummary(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, "mole/") && strings.Contains(l, "(") && !strings.Contains(l, "vsched") {
			out = append(out, l)
		}
		if len(out) == 4 {
			break
		}
	}
	return strings.Join(out, " ; ")
}

func init() {
	note := func(c *Ctx) {
		c.Rule("every scenario is executed on the rewritten real code under every schedule with at most `bound` preemptions (or delays); scheduling points before every statement and at every synchronisation operation; every ready select case is tried")
		c.Assume("the code under test is rewritten mechanically from /repo's current tree onto a controlled scheduler (go, chan, select, sync); statements are the unit of interleaving, finer races are found by the race detector running on the same schedules")
	}
	register(&Check{ID: "C19", Level: "model_checking", Run: func(c *Ctx) {
		note(c)
		lruSeq(c)
		runConc(c, "C19")
	}})
	register(&Check{ID: "C21", Level: "model_checking", Run: func(c *Ctx) { note(c); runConc(c, "C21") }})
	register(&Check{ID: "C22", Level: "model_checking", Run: func(c *Ctx) { note(c); runConc(c, "C22") }})
}

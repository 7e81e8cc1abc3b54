package harness

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"testing"
	"time"
)

// TestVerif is the single entry point; tools/check.py drives it.
//
//	VERIF_MODE=list    print the subs
//	VERIF_MODE=search  search sub VERIF_SUB of VERIF_PROP
//	VERIF_MODE=replay  run the plan in VERIF_REPLAY
func TestVerif(t *testing.T) {
	quietLogs()
	out := os.Getenv("VERIF_OUT")
	switch os.Getenv("VERIF_MODE") {
	case "list":
		type item struct {
			Prop, Name, Rule        string
			Quick, Thorough, Shards int
			Race                    bool
		}
		var l []item
		for _, s := range registry {
			l = append(l, item{s.Prop, s.Name, s.Rule, s.Quick, s.Thorough, s.Shards, s.Race})
		}
		writeJSON(filepath.Join(out, "list.json"), l)
	case "search":
		s := findSub(os.Getenv("VERIF_PROP"), os.Getenv("VERIF_SUB"))
		if s == nil {
			fmt.Fprintln(os.Stderr, "HARNESS ERROR: no such sub")
			os.Exit(4)
		}
		go watchdog(out, time.Duration(envInt("VERIF_HANG_S", 90))*time.Second)
		r := search(t, s, seedFromEnv(), envInt("VERIF_SHARD", 0), envInt("VERIF_CHECKS", 100),
			time.Duration(envInt("VERIF_BUDGET_S", 60))*time.Second, out)
		writeJSON(filepath.Join(out, "result.json"), r)
	case "replay":
		raw, err := os.ReadFile(os.Getenv("VERIF_REPLAY"))
		if err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS ERROR:", err)
			os.Exit(4)
		}
		var f failure
		if err := json.Unmarshal(raw, &f); err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS ERROR:", err)
			os.Exit(4)
		}
		s := findSub(f.Prop, f.Sub)
		if s == nil {
			fmt.Fprintln(os.Stderr, "HARNESS ERROR: no such sub")
			os.Exit(4)
		}
		plan, err := s.decode(f.Plan)
		if err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS ERROR:", err)
			os.Exit(4)
		}
		go watchdog(out, time.Duration(envInt("VERIF_HANG_S", 90))*time.Second)
		n := envInt("VERIF_REPEAT", 1)
		fails, msg := 0, ""
		for i := 0; i < n; i++ {
			progress.Add(1)
			c := &Case{labels: map[string]int{}}
			if err := execute(t, s, plan, c); err != nil {
				var he *HarnessError
				if errors.As(err, &he) {
					fmt.Fprintln(os.Stderr, "HARNESS ERROR:", he)
					os.Exit(4)
				}
				fails++
				msg = err.Error()
			}
		}
		writeJSON(filepath.Join(out, "replay.json"), map[string]any{"runs": n, "fails": fails, "error": msg})
	default:
		t.Skip("driven by tools/check.py")
	}
}

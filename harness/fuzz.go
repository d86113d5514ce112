package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// fuzz looks for violations with coverage-guided fuzzing (bin is the test binary, built with -fuzz), and reports how much it did
func fuzz(p *Prop, bin, dir string, limit time.Duration) (v *Violation, stats map[string]any) {
	stats = map[string]any{}
	targets := []string{"FuzzSpec"}
	if p.ID == "A15" || p.ID == "A16" {
		targets = append(targets, "FuzzCode")
	}
	for _, target := range targets {
		out := filepath.Join(dir, target)
		if err := os.MkdirAll(out, 0o755); err != nil {
			continue
		}
		cmd := exec.Command(bin, "-test.run=^$", "-test.fuzz=^"+target+"$", "-test.fuzzcachedir="+filepath.Join(out, "cache"), "-test.fuzzminimizetime=200x",
			"-test.fuzztime="+(limit/time.Duration(len(targets))).String(), "-rapid.nofailfile")
		cmd.Dir = out // (failing inputs are left there)
		cmd.Env = append(os.Environ(), "VH_PROP="+p.ID, "VH_FUZZ_OUT="+out)
		text, err := cmd.CombinedOutput()
		st := map[string]any{}
		if m := regexp.MustCompile(`execs: (\d+) .*new interesting: (\d+)`).FindAllStringSubmatch(string(text), -1); m != nil {
			last := m[len(m)-1]
			st["executions"], _ = strconv.Atoi(last[1])
			st["inputs reaching new code"], _ = strconv.Atoi(last[2])
		}
		files, _ := filepath.Glob(filepath.Join(out, "found-*.json"))
		sort.Strings(files) // (the smallest first)
		if len(files) > 0 {
			if data, err := os.ReadFile(files[0]); err == nil {
				v = &Violation{}
				if json.Unmarshal(data, v) != nil {
					v = nil
				}
			}
		} else if err != nil {
			st["ended early"] = tail(strings.TrimSpace(string(text)), 300)
			fmt.Fprintf(os.Stderr, "harness: %s ended early: %v\n", target, err)
		}
		stats[target] = st
		if v != nil {
			break
		}
	}
	return v, stats
}

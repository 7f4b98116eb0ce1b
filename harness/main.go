// vmon runs the monitors of one property: vmon -prop C01 [-tier quick|thorough] [-replay FILE].
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"

	"vmon/core"
	"vmon/props"
)

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", envOr("VERIF_TIER", "quick"), "quick or thorough")
	seed := flag.Uint64("seed", envSeed(), "seed")
	root := flag.String("root", "/verif", "where evidence/ and replays/ go")
	replay := flag.String("replay", "", "re-run the case of a replay file")
	child := flag.String("child", "", "internal: slot file")
	raceLog := flag.String("racelog", "", "internal")
	list := flag.Bool("list", false, "list properties")
	flag.Parse()
	if *list {
		for _, p := range props.All() {
			fmt.Println(p.ID, p.Race)
		}
		return
	}
	p := props.Get(*prop)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	_ = raceLog
	evidence := filepath.Join(*root, "evidence", p.ID+".json")
	replays := filepath.Join(*root, "replays")
	if *child != "" {
		runChild(p, *seed, *tier, *child, evidence, replays, *replay)
	}
	os.Exit(runParent(p, *seed, *tier, *root, evidence, replays, *replay))
}

func envOr(n, d string) string {
	if v := os.Getenv(n); v == "quick" || v == "thorough" {
		return v
	}
	return d
}

func envSeed() uint64 {
	if v, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 63); err == nil {
		return v
	}
	return 1
}

func runChild(p *core.Prop, seed uint64, tier, slots, evidence, replays, replay string) {
	start := time.Now()
	if !raceEnabled {
		// a runaway allocation must end this process, not the sandbox
		lim := syscall.Rlimit{Cur: 20 << 30, Max: 20 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	debug.SetMaxStack(1000 * 1000 * 1000) // Go's own // Go's own
	debug.SetTraceback("all")
	c := core.NewCtx(p, seed, tier, slots)
	if replay != "" {
		b, err := os.ReadFile(replay)
		var v core.Violation
		if err == nil {
			err = json.Unmarshal(b, &v)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "replay:", err)
			os.Exit(3)
		}
		c = core.NewCtx(p, v.Seed, v.Tier, slots)
		c.OnlyGroup, c.OnlyCase = v.Group, v.Case
	}
	c.Watch(func(v core.Violation) {
		p := core.WriteReplay(replays, v)
		fmt.Printf("VIOLATION property=%s replay=%s\n  %s/%d: %s\n", v.Property, p, v.Group, v.Case, v.What)
		os.Exit(1)
	})
	p.Run(c)
	os.Exit(c.Finish(evidence, replays, start))
}

func runParent(p *core.Prop, seed uint64, tier, root, evidence, replays, replay string) int {
	dir, err := os.MkdirTemp("", "vmon-run-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(dir)
	slots := filepath.Join(dir, "slots")
	args := []string{"-child", slots, "-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-root", root}
	if replay != "" {
		args = append(args, "-replay", replay)
	} else {
		os.Remove(evidence)
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	cmd := exec.Command(self, args...)
	var errBuf, outBuf bytes.Buffer
	cmd.Stdout = io.MultiWriter(os.Stdout, &outBuf)
	cmd.Stderr = &limited{b: &errBuf, max: 4 << 20}
	raceLog := filepath.Join(dir, "race")
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path="+raceLog)
	start := time.Now()
	err = cmd.Run()
	code := cmd.ProcessState.ExitCode()
	stderr := errBuf.String()
	switch {
	case code == 1 && strings.Contains(outBuf.String(), "VIOLATION property="):
		return 1
	case (code == 0 || code == 2) && p.Race:
		return raceReports(p, seed, tier, raceLog, replays, evidence, code, stderr)
	case code == 0:
		return 0
	case code == 2 && strings.Contains(stderr, "INCONCLUSIVE"), code == 3:
		fmt.Fprint(os.Stderr, tail(stderr))
		return code
	}
	// the child died: a crash below the library is a violation, anything else an error
	fmt.Fprint(os.Stderr, tail(stderr))
	if !libraryCrash(stderr) {
		fmt.Fprintf(os.Stderr, "child ended with code %d (%v)\n", code, err)
		return 3
	}
	first := firstLine(stderr)
	v := core.Violation{Property: p.ID, Seed: seed, Tier: tier, Group: "crash", Case: 0,
		What:   "the process was brought down inside the library: " + first,
		Detail: map[string]interface{}{"cases_running": core.ReadSlots(slots)}, Stack: head(stderr, 8000)}
	path := core.WriteReplay(replays, v)
	core.WriteJSON(evidence, map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level, "wall_s": time.Since(start).Seconds(), "violations": 1,
		"coverage": map[string]interface{}{"evaluations": 1, "distinct_nontrivial": 1, "rule": p.Rule, "samples": []interface{}{v.What}},
	})
	fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", p.ID, path, v.What)
	return 1
}

// raceReports judges the race detector's log.
func raceReports(p *core.Prop, seed uint64, tier, logPrefix, replays, evidence string, code int, stderr string) int {
	files, _ := filepath.Glob(logPrefix + ".*")
	var blocks, ours []string
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, blk := range strings.Split(string(b), "==================") {
			if strings.Contains(blk, "WARNING: DATA RACE") {
				blocks = append(blocks, blk)
				if strings.Contains(blk, "github.com/gagliardetto/binary.") {
					ours = append(ours, blk)
				}
			}
		}
	}
	if len(ours) > 0 {
		v := core.Violation{Property: p.ID, Seed: seed, Tier: tier, Group: "race", What: fmt.Sprintf("the race detector reported %d data race(s) inside the library", len(ours)), Stack: head(ours[0], 8000)}
		path := core.WriteReplay(replays, v)
		fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n%s\n", p.ID, path, v.What, head(ours[0], 3000))
		return 1
	}
	if len(blocks) > 0 {
		fmt.Fprintf(os.Stderr, "race report outside the library (harness error):\n%s\n", head(blocks[0], 4000))
		return 3
	}
	if code != 0 {
		fmt.Fprint(os.Stderr, tail(stderr))
	}
	return code
}

func libraryCrash(s string) bool {
	if !strings.Contains(s, "panic:") && !strings.Contains(s, "fatal error:") && !strings.Contains(s, "SIG") {
		return false
	}
	if strings.Contains(s, "HARNESS ERROR") {
		return false
	}
	const lib = "github.com/gagliardetto/binary."
	if !strings.Contains(s, lib) {
		return false
	}
	// the goroutine that was brought down, not one that happened to be elsewhere
	down := s
	if i := strings.Index(s, "\ngoroutine "); i >= 0 {
		down = s[i+1:]
		if j := strings.Index(down, "\n\n"); j >= 0 {
			down = down[:j]
		}
	}
	if strings.Contains(down, lib) {
		return true
	}
	// memory and shared maps can fail one goroutine through the doing of another
	if m := regexp.MustCompile(`cannot allocate (\d+)-byte block`).FindStringSubmatch(s); m != nil {
		n, _ := strconv.ParseUint(m[1], 10, 64)
		return n < 1<<30
	}
	return strings.Contains(s, "out of memory") || strings.Contains(s, "concurrent map")
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.Contains(l, "goroutine stack exceeds") {
			return l
		}
	}
	return "crash"
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func tail(s string) string {
	if len(s) > 6000 {
		return s[:3000] + "\n...\n" + s[len(s)-3000:]
	}
	return s
}

type limited struct {
	b   *bytes.Buffer
	max int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < l.max {
		l.b.Write(p)
	}
	return len(p), nil
}

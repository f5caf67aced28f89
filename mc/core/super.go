package core

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

type shardOut struct {
	res     *Result
	states  []uint64
	crashed bool
	last    int64
	stderr  string
}

func spawn(ck *Check, dir, tier string, shard, n int, deadline int, extra ...string) *shardOut {
	exe, _ := os.Executable()
	out := filepath.Join(dir, fmt.Sprintf("s%d.json", shard))
	prog := filepath.Join(dir, fmt.Sprintf("s%d.prog", shard))
	_ = os.Remove(out)
	_ = os.Remove(out + ".states")
	_ = os.Remove(prog)
	cmd := exec.Command(exe, "shard", ck.ID)
	cmd.Env = append(os.Environ(),
		"MC_TIER="+tier, fmt.Sprintf("MC_SHARD=%d", shard), fmt.Sprintf("MC_NSHARDS=%d", n),
		"MC_OUT="+out, "MC_PROGRESS="+prog, fmt.Sprintf("MC_DEADLINE=%d", deadline), "GOTRACEBACK=single")
	cmd.Env = append(cmd.Env, extra...)
	var se tail
	cmd.Stderr = &se
	cmd.Stdout = os.Stdout
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot start shard:", err)
		os.Exit(2)
	}
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(time.Duration(deadline+240) * time.Second):
		_ = cmd.Process.Kill()
		<-done
	}
	so := &shardOut{stderr: se.String(), last: -1}
	if b, err := os.ReadFile(prog); err == nil && len(b) >= 8 {
		so.last = int64(binary.LittleEndian.Uint64(b)) - 1
	}
	b, err := os.ReadFile(out)
	if err != nil {
		so.crashed = true
		return so
	}
	so.res = &Result{}
	if err := json.Unmarshal(b, so.res); err != nil {
		so.crashed = true
		return so
	}
	if hb, err := os.ReadFile(out + ".states"); err == nil {
		for i := 0; i+8 <= len(hb); i += 8 {
			so.states = append(so.states, binary.LittleEndian.Uint64(hb[i:]))
		}
	}
	return so
}

type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	if len(t.b) < 64<<10 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tail) String() string { return string(t.b) }

// Supervise runs all shards, confirms violations and writes the evidence.
// It returns the process exit code.
func Supervise(ck *Check, root, tier string) int {
	start := time.Now()
	n := int(envInt("MC_WORKERS", 8))
	if ck.Sequential {
		n = 1
	}
	deadline := ck.QuickDeadline
	if deadline == 0 {
		deadline = 240
	}
	if tier == Thorough {
		deadline = ck.ThoroughDeadline
		if deadline == 0 {
			deadline = 700
		}
	}
	dir, err := os.MkdirTemp("", "mc-"+ck.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	known := LoadKnown(root, ck.ID)
	knownSig := map[string]Known{}
	for _, k := range known {
		knownSig[k.Sig] = k
	}

	outs := make([]*shardOut, n)
	ch := make(chan int, n)
	for i := 0; i < n; i++ {
		go func(i int) { outs[i] = spawn(ck, dir, tier, i, n, deadline); ch <- i }(i)
	}
	for i := 0; i < n; i++ {
		<-ch
	}

	type found struct {
		v     Violation
		shard int
	}
	var viols []found
	total := Result{Extra: map[string]int64{}}
	states := map[uint64]struct{}{}
	for i := 0; i < n; i++ {
		so := outs[i]
		if so.crashed {
			// Reproduce in isolation first, then with its history.
			stop := fmt.Sprintf("MC_STOPAT=%d", so.last)
			r1 := spawn(ck, dir, tier, i, n, deadline, fmt.Sprintf("MC_ONLY=%d", so.last))
			if r1.crashed {
				viols = append(viols, found{Violation{Case: so.last, ID: fmt.Sprintf("case #%d", so.last), Sig: "crash",
					Detail: "the process running this case died:\n" + clip(r1.stderr, 5000)}, i})
				continue
			}
			r2 := spawn(ck, dir, tier, i, n, deadline, stop)
			if r2.crashed {
				viols = append(viols, found{Violation{Case: so.last, ID: fmt.Sprintf("history up to case #%d", so.last), Sig: "crash",
					Detail: "the process running this history died:\n" + clip(r2.stderr, 5000)}, i})
				continue
			}
			fmt.Fprintf(os.Stderr, "shard %d died at case %d and did not reproduce; rerunning\n%s\n", i, so.last, clip(so.stderr, 2000))
			so = spawn(ck, dir, tier, i, n, deadline)
			if so.crashed {
				viols = append(viols, found{Violation{Case: so.last, ID: fmt.Sprintf("history up to case #%d", so.last), Sig: "crash",
					Detail: "the process running this history died:\n" + clip(so.stderr, 5000)}, i})
				continue
			}
			outs[i] = so
		}
		for _, v := range so.res.Violations {
			viols = append(viols, found{v, i})
		}
		total.Cases += so.res.Cases
		total.Evals += so.res.Evals
		total.Nontrivial += so.res.Nontrivial
		total.Transitions += so.res.Transitions
		total.Traces += so.res.Traces
		total.Counted += so.res.Counted
		total.Truncated = total.Truncated || so.res.Truncated
		for k, x := range so.res.Extra {
			total.Extra[k] += x
		}
		if len(total.Samples) < 12 {
			for _, s := range so.res.Samples {
				if len(total.Samples) < 12 {
					total.Samples = append(total.Samples, s)
				}
			}
		}
		for _, h := range so.states {
			states[h] = struct{}{}
		}
	}
	sort.SliceStable(viols, func(a, b int) bool { return viols[a].v.Case < viols[b].v.Case })

	seenKnown := map[string]bool{}
	var fresh []found
	for _, f := range viols {
		if _, ok := knownSig[f.v.Sig]; ok {
			seenKnown[f.v.Sig] = true
			continue
		}
		fresh = append(fresh, f)
	}
	// Confirm: the case alone, or else the history that led to it, fails again.
	var confirmed []found
	for _, f := range fresh {
		if len(confirmed) >= 3 {
			break
		}
		if f.v.Sig == "crash" {
			confirmed = append(confirmed, f)
			continue
		}
		again := func(extra ...string) bool {
			so := spawn(ck, dir, tier, f.shard, n, deadline, append(extra, "MC_MAXVIOL=1000000")...)
			if so.crashed {
				return so.last == f.v.Case
			}
			for _, v := range so.res.Violations {
				if v.Case == f.v.Case && v.Sig == f.v.Sig {
					return true
				}
			}
			return false
		}
		if again(fmt.Sprintf("MC_ONLY=%d", f.v.Case)) {
			confirmed = append(confirmed, f)
		} else if again(fmt.Sprintf("MC_STOPAT=%d", f.v.Case)) {
			f.v.Detail = "(needs the preceding cases of the shard)\n" + f.v.Detail
			confirmed = append(confirmed, f)
		} else {
			fmt.Fprintf(os.Stderr, "not reproducible, not reported: case %d [%s] %s\n%s\n", f.v.Case, f.v.Sig, f.v.ID, f.v.Detail)
			total.Extra["unreproducible"]++
		}
	}

	ev := map[string]any{
		"evaluations":                   total.Evals,
		"nontrivial_evaluations":        total.Nontrivial,
		"rule":                          ck.Rule,
		"samples":                       total.Samples,
		"states":                        int64(len(states)) + total.Counted,
		"transitions":                   total.Transitions,
		"traces_validated_against_impl": total.Traces,
		"exhaustive":                    !total.Truncated && len(confirmed) == 0,
		"bounds":                        ck.Bounds,
	}
	for k, x := range total.Extra {
		ev[k] = x
	}
	doc := map[string]any{
		"property": ck.ID, "tier": tier, "seed": envInt("VERIF_SEED", 1), "level": ck.Level,
		"coverage": ev, "assumptions": ck.Assumptions, "wall_s": time.Since(start).Seconds(),
		"violations": len(confirmed),
	}
	b, _ := json.MarshalIndent(doc, "", " ")
	_ = os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", ck.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s tier=%s cases=%d states=%d transitions=%d traces=%d truncated=%v wall=%.1fs\n",
		ck.ID, tier, total.Cases, int64(len(states))+total.Counted, total.Transitions, total.Traces, total.Truncated, time.Since(start).Seconds())
	for _, k := range known {
		if seenKnown[k.Sig] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.ID, k.What)
		}
	}
	if len(confirmed) > 0 {
		rd := filepath.Join(root, "replays")
		_ = os.MkdirAll(rd, 0o755)
		for i, f := range confirmed {
			p := filepath.Join(rd, fmt.Sprintf("%s-%d.json", ck.ID, i))
			rb, _ := json.MarshalIndent(map[string]any{"property": ck.ID, "tier": tier, "case": f.v.Case, "shard": f.shard, "shards": n,
				"id": f.v.ID, "sig": f.v.Sig, "detail": f.v.Detail,
				"reproduce": fmt.Sprintf("./check.sh %s %s --case %d", ck.ID, tier, f.v.Case)}, "", " ")
			_ = os.WriteFile(p, append(rb, '\n'), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, p)
			fmt.Printf("  case %d: %s\n  [%s] %s\n", f.v.Case, clip(f.v.ID, 600), f.v.Sig, clip(strings.ReplaceAll(f.v.Detail, "\n", "\n  "), 1500))
		}
		return 1
	}
	return 0
}

// Only runs a single case verbosely.
func Only(ck *Check, root, tier string, n int64) int {
	dir, _ := os.MkdirTemp("", "mc-"+ck.ID+"-")
	defer os.RemoveAll(dir)
	so := spawn(ck, dir, tier, 0, 1, 600, fmt.Sprintf("MC_ONLY=%d", n), "MC_VERBOSE=1")
	if so.crashed {
		fmt.Println("crashed:", so.stderr)
		return 1
	}
	if len(so.res.Violations) > 0 {
		return 1
	}
	fmt.Println("case holds")
	return 0
}

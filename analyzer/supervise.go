package main

// The analysis runs in a child process: an obligation that exhausts the stack,
// memory or time is set aside as undecided and the others are decided without it.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

const totalTime = 780 * time.Second

var progressStart atomic.Int64

// setProgress records the obligation being decided.
func setProgress(name string) {
	progressStart.Store(time.Now().UnixNano())
	if f := os.Getenv("SV_CHILD"); f != "" {
		os.WriteFile(f, []byte(name), 0o644)
	}
}

// skipped says whether an obligation stopped an earlier attempt.
func skipped(name string) (string, bool) {
	for _, l := range strings.Split(os.Getenv("SV_SKIP"), "\n") {
		n, why, ok := strings.Cut(l, "\t")
		if ok && n == name {
			return why, true
		}
	}
	return "", false
}

// watchdog ends the process when one obligation takes too long.
func watchdog(limit time.Duration) {
	// after obligations were given up, the others get less time
	switch n, _ := strconv.Atoi(os.Getenv("SV_TRIES")); {
	case n >= 4:
		limit /= 6
	case n >= 2:
		limit /= 3
	}
	for {
		time.Sleep(time.Second)
		if s := progressStart.Load(); s != 0 && time.Since(time.Unix(0, s)) > limit {
			fmt.Fprintln(os.Stderr, "time limit")
			os.Exit(3)
		}
	}
}

func supervise(repo, prop, out string) int {
	t0 := time.Now()
	dir, err := os.MkdirTemp("", "sv")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	prog := filepath.Join(dir, "progress")
	var skips []string
	for n := 0; n < 12; n++ {
		left := totalTime - time.Since(t0)
		if left < 20*time.Second {
			break
		}
		os.WriteFile(prog, nil, 0o644)
		cmd := exec.Command(os.Args[0], os.Args[1:]...)
		cmd.Env = append(os.Environ(), "SV_CHILD="+prog, "SV_SKIP="+strings.Join(skips, "\n"), "SV_TRIES="+fmt.Sprint(n), "GOMEMLIMIT=6GiB")
		var stdout, stderr bytes.Buffer
		cmd.Stdout, cmd.Stderr = &stdout, &stderr
		if err := cmd.Start(); err != nil {
			fmt.Println(err)
			return 2
		}
		timer := time.AfterFunc(left, func() { cmd.Process.Kill() })
		cmd.Wait()
		timer.Stop()
		code := cmd.ProcessState.ExitCode()
		if code == 0 || code == 1 {
			os.Stdout.Write(stdout.Bytes())
			return code
		}
		b, _ := os.ReadFile(prog)
		at := string(b)
		if at == "" {
			at = prop + "_load"
		}
		why := "the analysis stopped"
		for _, l := range strings.Split(stderr.String(), "\n") {
			if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.Contains(l, "limit") || strings.Contains(l, "overflow") {
				why += ": " + strings.ReplaceAll(clip(l, 200), "\t", " ")
				break
			}
		}
		skips = append(skips, at+"\t"+why)
	}
	// no attempt came to an end
	var recs []obligRecord
	for _, l := range skips {
		n, why, _ := strings.Cut(l, "\t")
		recs = append(recs, obligRecord{Obligation: n, Status: "undecided", Detail: why})
		fmt.Printf("UNDECIDED property=%s obligation=%s %s\n", prop, n, why)
	}
	info := propInfo[prop]
	ev := map[string]any{
		"property": prop, "tier": "quick", "seed": 0, "level": info.level,
		"coverage": map[string]any{"obligations": len(recs) + 1, "discharged": 0, "undecided": len(recs) + 1, "checker_cmd": "cd /verif && ./run.sh " + prop,
			"trusted_base": trustedBase, "explanation": info.method, "rule": info.method, "obligation_list": recs},
		"assumptions": commonAssumptions, "wall_s": time.Since(t0).Seconds(), "violations": 0,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(out, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(out, "evidence", prop+".json"), b, 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	return 0
}

package main

// Replay of solver models against the compiled code: the harness is compiled as an in-package
// test of the real package (through a build overlay) and fed the recorded inputs.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

const exitMsg = "the program does not exit with an error"

const natRefuted = "not reproduced"

type native struct {
	repo, verif string
	ov          map[string]string
	tmp         string
	mu          sync.Mutex
	bins        map[string]chan struct{} // per package dir
	binPath     map[string]string
	binErr      map[string]string
	hs          []*harnessDoc
}

func newNative(repo, verif string, ov map[string]string) *native {
	d, err := os.MkdirTemp("", "gosmt-native-")
	if err != nil {
		fatal(err.Error())
	}
	return &native{repo: repo, verif: verif, ov: ov, tmp: d, bins: map[string]chan struct{}{}, binPath: map[string]string{}, binErr: map[string]string{}}
}

func (n *native) close() {
	n.mu.Lock()
	for _, c := range n.bins {
		n.mu.Unlock()
		<-c
		n.mu.Lock()
	}
	n.mu.Unlock()
	if strings.HasPrefix(n.tmp, os.TempDir()+"/gosmt-native-") {
		os.RemoveAll(n.tmp)
	}
}

func (n *native) prebuild(hs []*harnessDoc) {
	n.hs = hs
	for _, h := range hs {
		if h.opts.NoNative {
			continue
		}
		n.start(h.dir)
	}
}

func (n *native) start(dir string) chan struct{} {
	n.mu.Lock()
	defer n.mu.Unlock()
	if c := n.bins[dir]; c != nil {
		return c
	}
	c := make(chan struct{})
	n.bins[dir] = c
	go func() {
		defer close(c)
		bin, err := n.build(dir)
		n.mu.Lock()
		n.binPath[dir], n.binErr[dir] = bin, err
		n.mu.Unlock()
	}()
	return c
}

func (n *native) build(dir string) (string, string) {
	id := strings.NewReplacer("/", "_", ".", "_").Replace(dir)
	pkgName := ""
	ov := map[string]string{}
	for k, v := range n.ov {
		ov[k] = v
	}
	var names []string
	for _, h := range n.hs {
		if h.dir == dir {
			names = append(names, h.name)
			if pkgName == "" {
				b, _ := os.ReadFile(h.file)
				for _, l := range strings.Split(string(b), "\n") {
					if strings.HasPrefix(l, "package ") {
						pkgName = strings.Fields(l)[1]
					}
				}
			}
		}
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"os\"\n\t\"testing\"\n\n\tzzrt \"vsa/internal/zzverif/rt\"\n)\n\nfunc TestZZVerifReplay(t *testing.T) {\n\tzzrt.Setup()\n\tswitch os.Getenv(\"VERIF_HARNESS\") {\n", pkgName)
	for _, nm := range names {
		fmt.Fprintf(&sb, "\tcase %q:\n\t\t%s()\n", nm, nm)
	}
	sb.WriteString("\t}\n\tzzrt.Finished()\n}\n")
	tf := filepath.Join(n.tmp, id+"_replay_test.go")
	os.WriteFile(tf, []byte(sb.String()), 0o644)
	ov[filepath.Join(n.repo, dir, "zz_verif_replay_test.go")] = tf
	// the package's own tests are not part of the replay binary
	tests, _ := filepath.Glob(filepath.Join(n.repo, dir, "*_test.go"))
	for _, t := range tests {
		ov[t] = ""
	}
	n.shims(dir, id, ov)
	b, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	of := filepath.Join(n.tmp, id+"_overlay.json")
	os.WriteFile(of, b, 0o644)
	bin := filepath.Join(n.tmp, id+".test")
	ctx, cancel := context.WithTimeout(context.Background(), 180*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(goBin, "go"), "test", "-c", "-vet=off", "-overlay", of, "-o", bin, "./"+dir)
	cmd.Dir = n.repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Sprintf("%v: %s", err, tail(string(out), 600))
	}
	return bin, ""
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

type natResult struct {
	ok, violated, assumeFailed, panicked, timeout, finished, diverged, followed bool
	out                                                                         string
	err                                                                         string
}

func (n *native) run(h *harnessDoc, file string, to time.Duration) natResult {
	<-n.start(h.dir)
	n.mu.Lock()
	bin, berr := n.binPath[h.dir], n.binErr[h.dir]
	n.mu.Unlock()
	if bin == "" {
		return natResult{err: "native build failed: " + berr}
	}
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run", "^TestZZVerifReplay$", "-test.timeout", "60s")
	cmd.Dir = n.tmp
	cmd.Env = append(os.Environ(), "VERIF_INPUTS="+file, "VERIF_HARNESS="+h.name)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	s := out.String()
	r := natResult{out: tail(s, 2000)}
	r.timeout = ctx.Err() != nil || strings.Contains(s, "panic: test timed out")
	r.violated = strings.Contains(s, "VERIF-VIOLATION:")
	r.assumeFailed = strings.Contains(s, "VERIF-ASSUME-FAILED")
	r.diverged = strings.Contains(s, "VERIF-DIVERGED")
	r.followed = strings.Contains(s, "VERIF-FOLLOWED")
	r.finished = strings.Contains(s, "VERIF-FINISHED")
	r.panicked = !r.timeout && (strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:"))
	r.ok = err == nil && r.finished
	return r
}

// replay re-runs a counterexample. It returns natRefuted only if the real code, driven through
// the same inputs to the end, satisfied the assertion.
func (n *native) replay(h *harnessDoc, v *Violation, file string) string {
	for k := 0; ; k++ {
		r := n.run(h, file, 45*time.Second)
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Printf("native %d: %+v\n", k, r)
		}
		switch {
		case r.err != "":
			return "replay build failed (" + tail(r.err, 200) + "); symbolic counterexample stands"
		case r.violated:
			i := strings.Index(r.out, "VERIF-VIOLATION:")
			l := r.out[i:]
			if j := strings.IndexByte(l, '\n'); j > 0 {
				l = l[:j]
			}
			return "reproduced (" + l + ")"
		case r.panicked:
			return "reproduced (panic in the real code)"
		case r.timeout:
			return "reproduced (the real code does not finish)"
		}
		if v.Msg == exitMsg && !r.ok && !r.finished && !r.assumeFailed && !r.diverged {
			return "reproduced (the real code exits)"
		}
		if len(v.Sched) > 0 && r.followed && r.finished {
			return natRefuted // the recorded interleaving was executed step by step
		}
		if k < 2 && len(v.Sched) > 0 {
			continue
		}
		if len(v.Sched) > 0 {
			return "interleaving not reproduced natively; symbolic counterexample stands"
		}
		if v.Env {
			if k < 5 {
				continue
			}
			return "depends on the clock, pinning or another value the replay cannot dictate; symbolic counterexample stands"
		}
		return natRefuted
	}
}

func (n *native) witness(h *harnessDoc, ins []InputVal, k int) string {
	file := filepath.Join(n.tmp, fmt.Sprintf("w_%s_%d.json", h.name, k))
	b, _ := json.Marshal(map[string]interface{}{"inputs": ins})
	os.WriteFile(file, b, 0o644)
	r := n.run(h, file, 30*time.Second)
	switch {
	case r.err != "":
		return "skip"
	case r.ok:
		return ""
	case r.violated:
		return "model of a passing path violates natively: " + string(b) + " " + tail(r.out, 300)
	case r.assumeFailed:
		return "model of a passing path fails an assumption natively: " + string(b)
	case r.panicked:
		return "model of a passing path panics natively: " + string(b) + " " + tail(r.out, 300)
	}
	return "skip"
}

// shims redirects the imports of sync and sync/atomic of the module's packages to gated
// stand-ins, so that a recorded schedule can be followed.
func (n *native) shims(dir, id string, ov map[string]string) {
	use := false
	for _, h := range n.hs {
		if h.dir == dir && h.opts.Sched {
			use = true
		}
	}
	if !use {
		return
	}
	for _, s := range []string{"satomic", "ssync"} {
		ov[filepath.Join(n.repo, "internal/zzverif", s, s+".go")] = filepath.Join(n.verif, "engine/shim", s, s+".go")
	}
	k := 0
	filepath.Walk(n.repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if b := fi.Name(); b == ".git" || b == "testdata" || b == "node_modules" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, p, src, parser.ImportsOnly)
		if err != nil {
			return nil
		}
		type ed struct {
			a, b int
			s    string
		}
		var eds []ed
		for _, im := range af.Imports {
			to := ""
			nm := ""
			switch im.Path.Value {
			case "\"sync/atomic\"":
				nm, to = "atomic", "vsa/internal/zzverif/satomic"
			case "\"sync\"":
				nm, to = "sync", "vsa/internal/zzverif/ssync"
			default:
				continue
			}
			if im.Name != nil {
				nm = im.Name.Name
			}
			eds = append(eds, ed{fs.Position(im.Pos()).Offset, fs.Position(im.End()).Offset, fmt.Sprintf("%s %q", nm, to)})
		}
		if len(eds) == 0 {
			return nil
		}
		out := string(src)
		for i := len(eds) - 1; i >= 0; i-- {
			out = out[:eds[i].a] + eds[i].s + out[eds[i].b:]
		}
		tf := filepath.Join(n.tmp, fmt.Sprintf("%s_shim_%d.go", id, k))
		k++
		os.WriteFile(tf, []byte(out), 0o644)
		ov[p] = tf
		return nil
	})
}

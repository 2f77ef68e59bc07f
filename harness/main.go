// Command vrun runs one runtime-monitoring check of go-tuf-metadata.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Prop is a registered check.
type Prop struct {
	Level string
	Rule  string
	Asm   []string
	F     func(r *Run)
}

var registry = map[string]*Prop{}

const nobody = 65534

const (
	stallAfter  = 100 * time.Second
	isolatedFor = 90 * time.Second
)

var (
	flagProp   = flag.String("prop", "", "property id")
	flagTier   = flag.String("tier", "quick", "quick or thorough")
	flagSeed   = flag.Int64("seed", 1, "seed")
	flagWork   = flag.String("work", "", "scratch directory")
	flagVerif  = flag.String("verif", "/verif", "framework directory")
	flagOnly   = flag.String("only", "", "run one case, section:index")
	flagReplay = flag.String("replay", "", "replay a violation file")
	flagChild  = flag.Bool("child", false, "internal")
	flagOut    = flag.String("out", "", "internal")
	flagAux    = flag.String("aux", "", "internal: auxiliary process mode")
	flagRepo   = flag.String("repo", "/repo", "repository under test")
)

func main() {
	flag.Parse()
	if *flagAux != "" {
		auxMain(*flagAux, flag.Args())
		return
	}
	if *flagReplay != "" {
		b, err := os.ReadFile(*flagReplay)
		if err != nil {
			die("%v", err)
		}
		var v Viol
		if err := json.Unmarshal(b, &v); err != nil {
			die("%v", err)
		}
		*flagProp, *flagTier, *flagSeed = v.Prop, v.Tier, v.Seed
		if v.Section != "" {
			*flagOnly = fmt.Sprintf("%s:%d", v.Section, v.Idx)
		}
	}
	p := registry[*flagProp]
	if p == nil {
		die("unknown property %q", *flagProp)
	}
	if *flagChild {
		child(p)
		return
	}
	supervise(p)
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(3)
}

func child(p *Prop) {
	r := newRun(*flagProp, *flagTier, *flagSeed, *flagWork, *flagOnly)
	r.slots = openSlots(filepath.Join(*flagOut, "slots"))
	go func() {
		for {
			time.Sleep(2 * time.Second)
			if s, ok := r.slots.oldest(); ok && time.Since(s.at) > stallAfter {
				os.WriteFile(filepath.Join(*flagOut, "stall"), []byte(fmt.Sprintf("%s:%d", s.section, s.idx)), 0644)
				writeJSON(filepath.Join(*flagOut, "result.json"), r.result())
				buf := make([]byte, 1<<20)
				n := runtime.Stack(buf, true)
				os.Stderr.Write(buf[:n])
				os.Exit(97)
			}
		}
	}()
	p.F(r)
	writeJSON(filepath.Join(*flagOut, "result.json"), r.result())
}

// runChild runs the workload in a process of its own.
func runChild(out string, only string, timeout time.Duration) (res *childResult, code int, stderr string, stall string, cpu time.Duration) {
	os.RemoveAll(out)
	os.MkdirAll(out, 0755)
	drop := os.Geteuid() == 0
	tmp := filepath.Join(*flagWork, "tmp")
	os.MkdirAll(tmp, 0755)
	if drop {
		for _, d := range []string{*flagWork, out, tmp} {
			if err := os.Chown(d, nobody, nobody); err != nil {
				die("%v", err)
			}
		}
	}
	if drop {
		stickyDir(filepath.Join(*flagWork, "sticky"))
	}
	args := []string{"-child", "-prop", *flagProp, "-tier", *flagTier, "-seed", strconv.FormatInt(*flagSeed, 10), "-work", *flagWork, "-out", out, "-only", only, "-repo", *flagRepo, "-verif", *flagVerif}
	cmd := exec.Command(selfPath(), args...)
	var eb bytes.Buffer
	lw := &limitWriter{b: &eb, max: 4 << 20}
	cmd.Stderr = lw
	cmd.Stdout = os.Stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if drop {
		// the code under test must not be able to reach anything real
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: nobody, Gid: nobody}
	}
	cmd.Dir = *flagWork
	cmd.Env = append(os.Environ(), "TMPDIR="+tmp, "HOME="+*flagWork)
	if raceEnabled {
		cmd.Env = append(cmd.Env, "GORACE=log_path="+filepath.Join(out, "race")+" halt_on_error=0 exitcode=0 history_size=3")
	}
	if err := cmd.Start(); err != nil {
		die("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(timeout):
		cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			cmd.Process.Kill()
			<-done
		}
		code = 98
	}
	if code == 0 {
		code = cmd.ProcessState.ExitCode()
	}
	cpu = cmd.ProcessState.UserTime() + cmd.ProcessState.SystemTime()
	stderr = eb.String()
	if b, err := os.ReadFile(filepath.Join(out, "result.json")); err == nil {
		res = &childResult{}
		if json.Unmarshal(b, res) != nil {
			res = nil
		}
	}
	if b, err := os.ReadFile(filepath.Join(out, "stall")); err == nil {
		stall = string(b)
	}
	return
}

const stickyFiles = 60

// stickyDir makes a folder in which the workload can create files but not
// replace the ones that are there.
func stickyDir(d string) {
	if _, err := os.Stat(d); err == nil {
		return
	}
	os.Mkdir(d, 0755)
	for i := 0; i < stickyFiles; i++ {
		os.WriteFile(filepath.Join(d, fmt.Sprint("f", i)), []byte("before"), 0644)
	}
	os.Chmod(d, 0777|os.ModeSticky)
}

type limitWriter struct {
	b   *bytes.Buffer
	max int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.b.Len() < l.max {
		l.b.Write(p)
	}
	return len(p), nil
}

func supervise(p *Prop) {
	start := time.Now()
	if *flagWork == "" {
		d, err := os.MkdirTemp("", "vrun")
		if err != nil {
			die("%v", err)
		}
		defer os.RemoveAll(d)
		*flagWork = d
	}
	wd, err := filepath.Abs(*flagWork)
	if err != nil {
		die("%v", err)
	}
	*flagWork = wd
	total := 14 * time.Minute
	if *flagTier == "thorough" {
		total = 3 * time.Hour
	}
	var viols []*Viol
	var res *childResult
	var trouble []string
	for attempt := 0; attempt < 2; attempt++ {
		trouble = nil
		var code int
		var stderr, stall string
		res, code, stderr, stall, _ = runChild(filepath.Join(wd, "out"), *flagOnly, total)
		if os.Getenv("VERIF_DEBUG") != "" {
			os.Stderr.WriteString(stderr)
		}
		if raceEnabled {
			vs, own := raceReports(filepath.Join(wd, "out"))
			viols = append(viols, vs...)
			if own > 0 {
				fmt.Printf("  race reports within the monitor itself: %d\n", own)
			}
			if f := firstFatal(stderr); strings.HasPrefix(f, "fatal error: concurrent map") && crashSite(stderr) != "process" {
				viols = append(viols, &Viol{Prop: *flagProp, Key: "crash:" + crashSite(stderr), Seed: *flagSeed, Tier: *flagTier, Count: 1, Msg: f, Trace: tailLines(stderr, 60)})
			}
			if len(viols) > 0 {
				break
			}
		}
		if code == 0 && res != nil {
			break
		}
		// the workload process died, stalled, or ran out of time
		cands := readSlots(filepath.Join(wd, "out", "slots"))
		if stall != "" {
			cands = append([]string{stall}, cands...)
		}
		if code == 98 {
			trouble = append(trouble, "workload did not finish in time")
			break
		}
		seen := map[string]bool{}
		confirmed := false
		for _, cs := range cands {
			if seen[cs] || len(seen) > 12 {
				continue
			}
			seen[cs] = true
			_, c2, se2, _, cpu := runChild(filepath.Join(wd, "iso"), cs, isolatedFor)
			if c2 == 0 {
				continue
			}
			i := strings.LastIndex(cs, ":")
			idx, _ := strconv.Atoi(cs[i+1:])
			v := &Viol{Prop: *flagProp, Section: cs[:i], Idx: idx, Seed: *flagSeed, Tier: *flagTier, Count: 1, Trace: tailLines(se2, 60)}
			if c2 == 98 {
				v.Key = "hang:" + cs[:i]
				v.Msg = fmt.Sprintf("case %s does not terminate (alone in a process: %v wall, %v cpu)", cs, isolatedFor, cpu)
			} else {
				v.Key = "crash:" + crashSite(se2)
				v.Msg = fmt.Sprintf("case %s kills the process (exit %d): %s", cs, c2, firstFatal(se2))
			}
			viols = append(viols, v)
			confirmed = true
			break
		}
		if confirmed {
			break
		}
		trouble = append(trouble, fmt.Sprintf("workload process ended with code %d: %s", code, firstFatal(stderr)))
		if os.Getenv("VERIF_DEBUG") == "" {
			os.Stderr.WriteString(strings.Join(tailLines(stderr, 30), "\n") + "\n")
		}
	}
	if res == nil {
		res = &childResult{Counters: map[string]int64{}}
	}
	viols = append(viols, res.Viols...)
	known := loadKnown(filepath.Join(*flagVerif, "known_findings.txt"))
	nviol := 0
	for _, v := range viols {
		if d, ok := known[v.Prop+" "+v.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", v.Prop, d)
			continue
		}
		nviol++
		path := filepath.Join(*flagVerif, "replays", fmt.Sprintf("%s-%s.json", v.Prop, shortHash(v.Key)))
		if *flagReplay == "" {
			writeJSON(path, v)
		} else {
			path = *flagReplay
		}
		if nviol <= 12 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", v.Prop, path)
			fmt.Printf("  key=%s count=%d case=%s:%d\n  %s\n", v.Key, v.Count, v.Section, v.Idx, v.Msg)
		}
	}
	if *flagOnly == "" {
		cov := map[string]any{
			"evaluations": res.Evals, "distinct_nontrivial": res.Distinct, "rule": p.Rule,
			"samples": res.Samples, "observed": res.Counters, "sections": res.Sections,
		}
		if cov["samples"] == nil {
			cov["samples"] = []any{}
		}
		ev := map[string]any{"property": *flagProp, "tier": *flagTier, "seed": *flagSeed, "level": p.Level,
			"coverage": cov, "assumptions": p.Asm, "wall_s": time.Since(start).Seconds(), "violations": nviol}
		writeJSON(filepath.Join(*flagVerif, "evidence", *flagProp+".json"), ev)
	}
	if nviol > 0 {
		os.RemoveAll(wd)
		os.Exit(1)
	}
	if *flagOnly == "" {
		for _, s := range res.Inconcl {
			trouble = append(trouble, "inconclusive: "+s)
		}
		if res.Evals == 0 || res.Distinct == 0 {
			trouble = append(trouble, "inconclusive: nothing was observed")
		}
	}
	if len(trouble) > 0 {
		for _, s := range trouble {
			fmt.Println("ERROR", s)
		}
		os.Exit(2)
	}
	names := []string{}
	for n := range res.Counters {
		names = append(names, n)
	}
	sort.Strings(names)
	fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs\n", *flagProp, *flagTier, *flagSeed, res.Evals, res.Distinct, time.Since(start).Seconds())
	for _, n := range names {
		fmt.Printf("  %s: %d\n", n, res.Counters[n])
	}
}

func tailLines(s string, n int) []string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	// keep the beginning of a crash report: it names the fault
	for i, x := range l {
		if strings.HasPrefix(x, "fatal error:") || strings.HasPrefix(x, "panic:") || strings.HasPrefix(x, "runtime: ") || strings.HasPrefix(x, "SIGQUIT") {
			l = l[i:]
			if len(l) > n {
				l = l[:n]
			}
			return l
		}
	}
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return l
}

func firstFatal(s string) string {
	for _, x := range strings.Split(s, "\n") {
		if strings.HasPrefix(x, "fatal error:") || strings.HasPrefix(x, "panic:") || strings.Contains(x, "stack exceeds") {
			return x
		}
	}
	return ""
}

func crashSite(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "go-tuf-metadata/") && !strings.HasPrefix(l, "\t") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return l[strings.Index(l, "go-tuf-metadata/")+len("go-tuf-metadata/"):]
		}
	}
	return "process"
}

// loadKnown reads lines "finding: property=<id> key=<key> | <description>".
func loadKnown(path string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(path)
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property=")
		i := strings.Index(l, " key=")
		j := strings.Index(l, " | ")
		if i < 0 || j < i {
			continue
		}
		out[l[:i]+" "+l[i+5:j]] = l[j+3:]
	}
	return out
}

func auxMain(mode string, args []string) {
	f := auxModes[mode]
	if f == nil {
		die("unknown aux mode %q", mode)
	}
	f(args)
}

var auxModes = map[string]func(args []string){}

func selfPath() string {
	p, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	return p
}

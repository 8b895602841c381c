package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
)

// Prop is a check.
type Prop struct {
	Run    func(c *Ctx)
	Rule   string           // how cases are made and what makes one non-trivial
	Floors map[string]int64 // what the monitors must at least have observed
	Race   bool             // needs the race-instrumented build
	Shards int              // 0: one per core
}

// Props holds every check by property id.
var Props = map[string]*Prop{}

type shardOut struct {
	Evals   int64            `json:"evals"`
	Events  map[string]int64 `json:"events"`
	Samples []string         `json:"samples"`
	Viols   []Violation      `json:"viols"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh check|worker|exec ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(runCheck(os.Args[2:]))
	case "worker":
		runWorker(os.Args[2:])
	case "exec":
		limitedExec(os.Args[2:])
	case "list":
		fmt.Println(strings.Join(sortedKeys(Props), " "))
	default:
		os.Exit(2)
	}
}

func flags(args []string) map[string]string {
	m := map[string]string{}
	for _, a := range args {
		k, v, _ := strings.Cut(a, "=")
		m[k] = v
	}
	return m
}

func runWorker(args []string) {
	f := flags(args)
	seed, _ := strconv.ParseInt(f["seed"], 10, 64)
	shard, _ := strconv.Atoi(f["shard"])
	shards, _ := strconv.Atoi(f["shards"])
	debug.SetGCPercent(400)
	if f["procs"] != "" {
		n, _ := strconv.Atoi(f["procs"])
		runtime.GOMAXPROCS(n)
	}
	self, err := os.Executable()
	must(err)
	c := &Ctx{Prop: f["prop"], Tier: f["tier"], Seed: seed, Shard: shard, Shards: shards, Only: f["only"],
		Bin: f["bin"], Self: self, Scratch: f["scratch"], Known: knownFindings(f["known"], f["prop"]), seen: map[string]bool{},
		distinct: map[uint64]struct{}{}, events: map[string]int64{}}
	if f["progress"] != "" {
		c.progress = mmapProgress(f["progress"])
	}
	p := Props[c.Prop]
	p.Run(c)
	out, err := json.Marshal(shardOut{c.evals, c.events, c.samples, c.viols})
	must(err)
	var hs bytes.Buffer
	for h := range c.distinct {
		binary.Write(&hs, binary.LittleEndian, h)
	}
	must(os.WriteFile(f["out"]+".h", hs.Bytes(), 0o644))
	must(os.WriteFile(f["out"], out, 0o644))
}

type worker struct {
	cmd     *exec.Cmd
	out     string
	prog    []byte
	stderr  *bytes.Buffer
	done    chan error
	last    uint32
	lastCPU float64
	peak    int    // memory, in MB
	status  string // "", "ok", "hang", "memory", "crash"
}

func cpuSeconds(pid int) (cpu float64, rssMB int) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0
	}
	fs := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
	if len(fs) < 22 {
		return 0, 0
	}
	n := func(i int) float64 { v, _ := strconv.ParseFloat(fs[i], 64); return v }
	// utime, stime, and those of waited-for children
	return (n(11) + n(12) + n(13) + n(14)) / 100, int(n(21) * 4096 / (1 << 20))
}

func (w *worker) caseID() string {
	phase := string(w.prog[16:64])
	if i := strings.IndexByte(phase, 0); i >= 0 {
		phase = phase[:i]
	}
	return fmt.Sprintf("%s:%d", phase, binary.LittleEndian.Uint64(w.prog[8:]))
}

func startWorker(f map[string]string, prop string, shard, shards int, only, dir string) *worker {
	w := &worker{out: filepath.Join(dir, fmt.Sprintf("out-%d-%s", shard, strings.ReplaceAll(only, ":", "_"))), stderr: &bytes.Buffer{}, done: make(chan error, 1)}
	pf := w.out + ".p"
	must(os.WriteFile(pf, make([]byte, 4096), 0o644))
	w.prog = mmapProgress(pf)
	scratch := filepath.Join(dir, "s"+filepath.Base(w.out))
	must(os.MkdirAll(scratch, 0o777))
	must(os.Chmod(scratch, 0o777))
	self, err := os.Executable()
	must(err)
	procs := "2"
	if Props[prop].Race || Props[prop].Shards == 1 {
		procs = "8"
	}
	w.cmd = exec.Command(self, "worker", "prop="+prop, "tier="+f["tier"], "seed="+f["seed"],
		"shard="+strconv.Itoa(shard), "shards="+strconv.Itoa(shards), "only="+only, "bin="+f["bin"],
		"scratch="+scratch, "out="+w.out, "known="+f["known"], "progress="+pf, "procs="+procs)
	w.cmd.Stderr = w.stderr
	w.cmd.Stdout = os.Stderr
	w.cmd.Dir = scratch
	if Props[prop].Race {
		w.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(dir, "race"))
	}
	must(w.cmd.Start())
	go func() { w.done <- w.cmd.Wait() }()
	return w
}

// caseCPU is how much processor time a single case may use. Cases use
// milliseconds; the limit is on processor time so that load cannot trip it.
const caseCPU = 60.0

// caseMB is how much memory a worker may use, in MB.
const caseMB = 3500

func watch(ws []*worker) {
	for {
		alive := false
		for _, w := range ws {
			if w.status != "" {
				continue
			}
			select {
			case err := <-w.done:
				w.status = "ok"
				if err != nil {
					w.status = "crash"
				}
				continue
			default:
			}
			alive = true
			cpu, rss := cpuSeconds(w.cmd.Process.Pid)
			n := binary.LittleEndian.Uint32(w.prog)
			if n != w.last {
				w.last, w.lastCPU = n, cpu
			}
			if cpu-w.lastCPU > caseCPU {
				w.status = "hang"
			} else if w.peak = max(w.peak, rss); rss > caseMB {
				w.status = "memory"
			}
			if w.status != "" {
				w.cmd.Process.Kill()
				<-w.done
			}
		}
		if !alive {
			return
		}
		time.Sleep(20 * time.Millisecond)
	}
}

func runCheck(args []string) int {
	start := time.Now()
	f := flags(args)
	prop := f["prop"]
	p := Props[prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such check:", prop)
		return 2
	}
	seed, err := strconv.ParseInt(f["seed"], 10, 64)
	must(err)
	dir, err := os.MkdirTemp("", "texted-verif-")
	must(err)
	defer os.RemoveAll(dir)
	must(os.Chmod(dir, 0o755))
	shards := p.Shards
	if shards == 0 {
		shards = 8
	}
	var ws []*worker
	if f["only"] != "" {
		ws = append(ws, startWorker(f, prop, 0, 1, f["only"], dir))
	} else {
		for i := 0; i < shards; i++ {
			ws = append(ws, startWorker(f, prop, i, shards, "", dir))
		}
	}
	watch(ws)

	tot := shardOut{Events: map[string]int64{}}
	distinct := map[uint64]struct{}{}
	broken := ""
	confirmed := 0
	for _, w := range ws {
		if w.status != "ok" {
			if confirmed > 0 {
				continue // one is enough, and confirming takes a while
			}
			id := w.caseID()
			// Confirm with that case alone.
			cw := startWorker(f, prop, 0, 1, id, dir)
			watch([]*worker{cw})
			msg := clip(cw.stderr.String(), 2500)
			own := strings.Contains(msg, "panic: harness:")
			if cw.status != "ok" && !own && id != ":0" {
				confirmed++
				tot.Viols = append(tot.Viols, Violation{Case: id, Sig: cw.status,
					What: fmt.Sprintf("the program under test does not survive this case: %s (processor time limit %.0f s, memory limit %d MB)\n%s", cw.status, caseCPU, caseMB, msg)})
			} else {
				broken = fmt.Sprintf("worker %s at case %s, not confirmed alone:\n%s", w.status, id, clip(w.stderr.String(), 3000))
			}
			continue
		}
		var o shardOut
		b, err := os.ReadFile(w.out)
		must(err)
		must(json.Unmarshal(b, &o))
		tot.Evals += o.Evals
		for k, v := range o.Events {
			tot.Events[k] += v
		}
		tot.Samples = append(tot.Samples, o.Samples...)
		tot.Viols = append(tot.Viols, o.Viols...)
		hb, err := os.ReadFile(w.out + ".h")
		must(err)
		for i := 0; i+8 <= len(hb); i += 8 {
			distinct[binary.LittleEndian.Uint64(hb[i:])] = struct{}{}
		}
	}
	for _, w := range ws {
		tot.Events["memory of the largest worker in MB"] = max(tot.Events["memory of the largest worker in MB"], int64(w.peak))
	}
	if p.Race {
		tot.Viols = append(tot.Viols, raceReports(dir, tot.Events)...)
	}

	known := knownFindings(f["known"], prop)
	seenKnown := map[string]bool{}
	var viols []Violation
	for _, v := range tot.Viols {
		if what, ok := known[v.Sig]; ok {
			if !seenKnown[v.Sig] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, what)
			}
			seenKnown[v.Sig] = true
			continue
		}
		viols = append(viols, v)
	}

	if len(tot.Samples) > 6 {
		tot.Samples = tot.Samples[:6]
	}
	level := f["level"]
	if level == "" {
		level = "exploration"
	}
	ev := map[string]any{
		"property": prop, "tier": f["tier"], "seed": seed, "level": level,
		"coverage": map[string]any{
			"evaluations": tot.Evals, "distinct_nontrivial": len(distinct),
			"rule": p.Rule, "samples": tot.Samples, "observed": tot.Events,
		},
		"assumptions": []string{
			"held on the executions observed, not proved for all",
			"the reference model in /verif/harness/model states the documented behaviour correctly",
		},
		"wall_s": time.Since(start).Seconds(), "violations": len(viols),
	}
	if f["only"] == "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		must(os.MkdirAll(f["evidence"], 0o755))
		must(os.WriteFile(filepath.Join(f["evidence"], prop+".json"), append(b, '\n'), 0o644))
	}

	if len(viols) > 0 {
		rd := filepath.Join(f["evidence"], "replay")
		must(os.MkdirAll(rd, 0o755))
		rp := filepath.Join(rd, prop+".json")
		b, _ := json.MarshalIndent(map[string]any{
			"property": prop, "tier": f["tier"], "seed": seed, "violations": viols,
			"replay": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s only=%s", seed, f["tier"], prop, viols[0].Case),
		}, "", " ")
		must(os.WriteFile(rp, append(b, '\n'), 0o644))
		for i, v := range viols {
			if i == 3 {
				fmt.Printf("... and %d more\n", len(viols)-3)
				break
			}
			fmt.Printf("case %s: %s\n", v.Case, strings.ToValidUTF8(clip(v.What, 1500), "?"))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		return 1
	}
	if broken != "" {
		fmt.Printf("INCONCLUSIVE property=%s %s\n", prop, broken)
		return 3
	}
	if f["only"] == "" {
		for _, k := range sortedKeys(p.Floors) {
			if tot.Events[k] < p.Floors[k] {
				fmt.Printf("INCONCLUSIVE property=%s observed only %d of %q, need %d\n", prop, tot.Events[k], k, p.Floors[k])
				return 3
			}
		}
	}
	fmt.Printf("OK property=%s evaluations=%d distinct=%d wall=%.1fs\n", prop, tot.Evals, len(distinct), time.Since(start).Seconds())
	if f["v"] != "" {
		for _, k := range sortedKeys(tot.Events) {
			fmt.Printf("  %-50s %d\n", k, tot.Events[k])
		}
	}
	return 0
}

// knownFindings reads the lines "finding: property=ID sig=SIG text".
func knownFindings(path, prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: property="+prop+" sig=")
		if !ok {
			continue
		}
		sig, what, _ := strings.Cut(rest, " ")
		m[sig] = what
	}
	return m
}

func raceReports(dir string, events map[string]int64) []Violation {
	files, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	var out []Violation
	for _, fn := range files {
		b, _ := os.ReadFile(fn)
		for _, block := range strings.Split(string(b), "==================") {
			if !strings.Contains(block, "WARNING: DATA RACE") {
				continue
			}
			// A race of the harness alone is none of texted's: look at the
			// innermost frame of the module in both accesses.
			own, inner := true, true
			for _, l := range strings.Split(block, "\n") {
				t := strings.TrimSpace(l)
				switch {
				case strings.Contains(l, " at 0x") && strings.Contains(l, " by "):
					inner = true
				case strings.HasPrefix(t, "Goroutine "):
					inner = false
				case inner && strings.HasPrefix(t, "main."):
					inner = false // the harness
				case inner && strings.HasPrefix(t, "github.com/dhamidi/texted"):
					inner = false
					if !strings.Contains(t, "/zzverif/") {
						own = false
					}
				}
			}
			if own {
				events["race reports about the harness"]++
				continue
			}
			events["race reports"]++
			if len(out) < 3 {
				out = append(out, Violation{Case: "race", Sig: "race", What: clip(strings.TrimSpace(block), 2500)})
			}
		}
	}
	return out
}

package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// The replayer is the harness compiled by the Go compiler against the same
// tree; it executes a harness on concrete input values.

type caseResult struct {
	Status string   `json:"status"` // ok assume assert panic timeout crash
	Label  string   `json:"label"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

func (r *caseResult) bad() bool {
	switch r.Status {
	case "assert", "panic", "timeout", "crash":
		return true
	}
	return false
}

type Replayer struct {
	bin  string
	tier string
	dir  string
	zone string // time zone file
}

func buildReplayer(cfg *Config, names []string) (*Replayer, error) {
	low := strings.ToLower(cfg.Prop)
	dir := filepath.Join(cfg.Out, "build", cfg.Prop)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err
	}
	ov, err := overlayFiles(cfg)
	if err != nil {
		return nil, err
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package main\n\nimport (\n\th %q\n\t\"%s/zz_verif/sym\"\n)\n\nfunc main() {\n\tsym.Main(map[string]func(){\n", modPath+"/zz_verif/"+low, modPath)
	for _, n := range names {
		fmt.Fprintf(&b, "\t\t%q: h.%s,\n", n, n)
	}
	b.WriteString("\t})\n}\n")
	mf := filepath.Join(dir, "main.go")
	if err := os.WriteFile(mf, []byte(b.String()), 0o644); err != nil {
		return nil, err
	}
	ov[filepath.Join(cfg.Repo, "zz_verif", "main_"+low, "main.go")] = mf
	of := filepath.Join(dir, "overlay.json")
	j, _ := json.Marshal(map[string]any{"Replace": ov})
	if err := os.WriteFile(of, j, 0o644); err != nil {
		return nil, err
	}
	bin := filepath.Join(dir, "replay.bin")
	cmd := exec.Command("go", "build", "-overlay", of, "-o", bin, "./zz_verif/main_"+low)
	cmd.Dir = cfg.Repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("building the replay program: %v\n%s", err, out)
	}
	zone, err := filepath.Abs(filepath.Join(dir, "localtime"))
	if err == nil {
		err = os.WriteFile(zone, zoneFile(), 0o644)
	}
	if err != nil {
		return nil, err
	}
	return &Replayer{bin: bin, tier: cfg.Tier, dir: dir, zone: zone}, nil
}

func (r *Replayer) runOne(h string, vals []uint64) *caseResult {
	return r.runMany(h, [][]uint64{vals})[0]
}

const caseTimeout = 10 * time.Second

func (r *Replayer) runMany(h string, cases [][]uint64) []*caseResult {
	out := make([]*caseResult, len(cases))
	start := 0
	for start < len(cases) {
		n := r.batch(h, cases[start:], out[start:])
		start += n
	}
	return out
}

// batch runs the cases in one process; it returns how many have a result.
func (r *Replayer) batch(h string, cases [][]uint64, out []*caseResult) int {
	var in bytes.Buffer
	enc := json.NewEncoder(&in)
	for _, c := range cases {
		if c == nil {
			c = []uint64{}
		}
		enc.Encode(map[string]any{"harness": h, "tier": r.tier, "values": c})
	}
	scratch, err := os.MkdirTemp("", "gosym-replay-")
	if err == nil {
		defer os.RemoveAll(scratch)
	}
	cmd := exec.Command(r.bin)
	cmd.Dir = scratch
	cmd.Env = []string{"TZ=" + r.zone, "PATH=/usr/bin:/bin", "HOME=" + scratch, "TMPDIR=" + scratch, "GOMEMLIMIT=2GiB"}
	cmd.Stdin = &in
	var errb bytes.Buffer
	cmd.Stderr = &errb
	p, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		for i := range out {
			out[i] = &caseResult{Status: "error", Msg: err.Error()}
		}
		return len(cases)
	}
	lines := make(chan string, 16)
	go func() {
		rd := bufio.NewReaderSize(p, 1<<20)
		for {
			l, err := rd.ReadString('\n')
			if strings.HasPrefix(l, "RESULT ") {
				lines <- l[7:]
			}
			if err != nil {
				close(lines)
				return
			}
		}
	}()
	n := 0
	for n < len(cases) {
		select {
		case l, ok := <-lines:
			if !ok {
				cmd.Wait()
				e := errb.String()
				out[n] = &caseResult{Status: "crash", Msg: trunc(e, 600)}
				return n + 1
			}
			var cr caseResult
			if err := json.Unmarshal([]byte(l), &cr); err != nil {
				cr = caseResult{Status: "error", Msg: err.Error()}
			}
			out[n] = &cr
			n++
		case <-time.After(caseTimeout):
			cmd.Process.Kill()
			cmd.Wait()
			out[n] = &caseResult{Status: "timeout", Msg: "no result within " + caseTimeout.String()}
			return n + 1
		}
	}
	cmd.Process.Kill()
	cmd.Wait()
	return n
}

func replayFile(cfg *Config, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		die(2, "%v", err)
	}
	var f struct {
		Property, Harness, Tier string
		Values                  []uint64
	}
	if err := json.Unmarshal(b, &f); err != nil {
		die(2, "%v", err)
	}
	cfg.Prop, cfg.Tier = f.Property, f.Tier
	r, err := buildReplayer(cfg, []string{f.Harness})
	if err != nil {
		die(2, "%v", err)
	}
	res := r.runOne(f.Harness, f.Values)
	fmt.Printf("%s %s: %s\n", res.Status, res.Label, res.Msg)
	for _, o := range res.Obs {
		fmt.Println("  ", o)
	}
	if res.bad() {
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, file)
		os.Exit(1)
	}
}

// zoneFile is a time zone file (RFC 8536, version 1) with no transitions.
func zoneFile() []byte {
	b := append([]byte("TZif"), make([]byte, 16)...)
	for _, n := range []uint32{0, 0, 0, 0, 1, 6} { // UT, standard, leaps, transitions, types, characters
		b = binary.BigEndian.AppendUint32(b, n)
	}
	b = binary.BigEndian.AppendUint32(b, localOffset)
	return append(b, 0, 0, 'L', 'o', 'c', 'a', 'l', 0)
}

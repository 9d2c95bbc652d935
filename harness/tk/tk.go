// Package tk is the driver shared by all property checks: it runs the ticat
// binary built from /repo in throw-away sandboxes ("boxes"), records what the
// generated modules were called with, counts cases, and turns a failed
// expectation into a replayable transcript.
package tk

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- settings

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

var (
	Bin     = os.Getenv("VH_BIN")
	Scratch = envOr("VH_SCRATCH", os.TempDir())
	OutDir  = os.Getenv("VH_OUT")
	Tier    = envOr("VERIF_TIER", "quick")
	Shard   = atoi(envOr("VH_SHARD", "0"))
	Shards  = atoi(envOr("VH_SHARDS", "1"))
	Scale   = atof(envOr("VH_SCALE", "1"))
)

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		panic(err)
	}
	return n
}

func atof(s string) float64 {
	n, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic(err)
	}
	return n
}

func Thorough() bool { return Tier == "thorough" }

// Infra aborts the whole test process with exit status 3: something outside
// of ticat went wrong, so the run says nothing about the property.
func Infra(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "INFRA-ERROR: "+format+"\n", args...)
	os.Exit(3)
}

func must(err error) {
	if err != nil {
		Infra("%v", err)
	}
}

// ------------------------------------------------------------------- stats

type Stats struct {
	Property string            `json:"property"`
	Shard    int               `json:"shard"`
	Evals    int               `json:"evaluations"`
	Runs     int               `json:"ticat_runs"`
	Calls    int               `json:"module_calls"`
	Hashes   []string          `json:"nontrivial_hashes"`
	Labels   map[string]int    `json:"labels"`
	Samples  []json.RawMessage `json:"samples"`
	Rules    []string          `json:"rules"`
	Findings []string          `json:"findings"`
}

var (
	stats   = Stats{Labels: map[string]int{}, Shard: Shard}
	statsMu sync.Mutex
	hashes  = map[uint64]bool{}
	nSample = map[string]int{}
)

func FlushStats() {
	if OutDir == "" {
		return
	}
	statsMu.Lock()
	defer statsMu.Unlock()
	stats.Hashes = nil
	for h := range hashes {
		stats.Hashes = append(stats.Hashes, strconv.FormatUint(h, 16))
	}
	sort.Strings(stats.Hashes)
	data, err := json.Marshal(stats)
	must(err)
	must(os.WriteFile(filepath.Join(OutDir, fmt.Sprintf("stats.%d.json", Shard)), data, 0644))
}

// Finding reports a listed known finding that was seen again.
func Finding(id, text string) {
	statsMu.Lock()
	defer statsMu.Unlock()
	stats.Findings = append(stats.Findings, "property="+id+" "+text)
}

// knownFindings maps the keys of the listed findings to what fails.
func knownFindings() map[string]string {
	var doc struct {
		Findings []struct{ Key, Property, What string }
	}
	data, err := os.ReadFile(os.Getenv("VH_KNOWN"))
	must(err)
	must(json.Unmarshal(data, &doc))
	r := map[string]string{}
	for _, f := range doc.Findings {
		r[f.Property+"/"+f.Key] = f.What
	}
	return r
}

// Known runs one fixed input that is known to break the property. f returns
// whether the outcome is right, and whether it is exactly the listed failure.
// Any other outcome, or a failure that is not listed, is a violation.
func Known(t *testing.T, key string, f func(c *C) (right, asListed bool, got string)) {
	if Shard != 0 {
		return
	}
	t.Run("known-"+key, func(t *testing.T) {
		id := strings.TrimPrefix(strings.SplitN(t.Name(), "/", 2)[0], "Test")
		must(flag.Set("rapid.checks", "1"))
		defer FlushStats()
		rapid.Check(t, func(rt *rapid.T) {
			c := &C{T: rt, id: id, sub: "known-" + key}
			defer c.finish()
			right, asListed, got := f(c)
			if right {
				return
			}
			what, listed := knownFindings()[id+"/"+key]
			if !listed || !asListed {
				c.Violate("%s", got)
			}
			Finding(id, what)
		})
	})
}

// ------------------------------------------------------------------- cases

// Step is one thing done in a box, for the replay transcript.
type Step struct {
	What   string   `json:"what"`
	Path   string   `json:"path,omitempty"`
	Text   string   `json:"text,omitempty"`
	Args   []string `json:"args,omitempty"`
	Stdin  string   `json:"stdin,omitempty"`
	Code   *int     `json:"exit,omitempty"`
	Stdout string   `json:"stdout,omitempty"`
	Stderr string   `json:"stderr,omitempty"`
	Calls  []string `json:"module_calls,omitempty"`
}

// C is one generated case.
type C struct {
	*rapid.T
	id         string
	sub        string
	mu         sync.Mutex
	steps      []Step
	boxes      []*Box
	nontrivial bool
	desc       []string
}

// Prop checks one part of a property on n generated cases (quick tier, over
// all shards). rule says how cases are made and what makes one non-trivial.
func Prop(t *testing.T, sub string, n int, thoroughFactor float64, rule string, f func(c *C)) {
	t.Run(sub, func(t *testing.T) {
		id := strings.SplitN(t.Name(), "/", 2)[0]
		id = strings.TrimPrefix(id, "Test")
		statsMu.Lock()
		stats.Property = id
		stats.Rules = append(stats.Rules, sub+": "+rule)
		statsMu.Unlock()
		total := float64(n) * Scale
		if Thorough() {
			total *= thoroughFactor
		}
		per := int(total) / Shards
		if per < 1 {
			per = 1
		}
		must(flag.Set("rapid.checks", strconv.Itoa(per)))
		defer FlushStats()
		rapid.Check(t, func(rt *rapid.T) {
			c := &C{T: rt, id: id, sub: sub}
			defer c.finish()
			f(c)
			c.pass()
		})
	})
}

func (c *C) pass() {
	statsMu.Lock()
	defer statsMu.Unlock()
	stats.Evals++
	if !c.nontrivial {
		return
	}
	d := c.sub + "|" + strings.Join(c.desc, "\n")
	h := fnv.New64a()
	io.WriteString(h, d)
	if hashes[h.Sum64()] {
		return
	}
	hashes[h.Sum64()] = true
	if nSample[c.sub] < 2 {
		nSample[c.sub]++
		raw, _ := json.Marshal(map[string]any{"part": c.sub, "case": c.desc})
		stats.Samples = append(stats.Samples, raw)
	}
}

func (c *C) finish() {
	c.mu.Lock()
	boxes := c.boxes
	c.boxes = nil
	c.mu.Unlock()
	for _, b := range boxes {
		b.close()
	}
}

// Desc adds to the description of the case; it identifies the case for the
// distinct count and is what samples show.
func (c *C) Desc(format string, args ...any) {
	c.desc = append(c.desc, fmt.Sprintf(format, args...))
}

// NonTrivial marks the case as non-trivial by the part's rule.
func (c *C) NonTrivial(b bool) {
	if b {
		c.nontrivial = true
	}
}

// Label counts a class of cases in the evidence.
func (c *C) Label(l string) {
	statsMu.Lock()
	stats.Labels[l]++
	statsMu.Unlock()
}

func (c *C) step(s Step) {
	c.mu.Lock()
	c.steps = append(c.steps, s)
	c.mu.Unlock()
}

// Note puts a remark into the transcript.
func (c *C) Note(format string, args ...any) {
	c.step(Step{What: "note", Text: fmt.Sprintf(format, args...)})
}

var firstFail = true

// Violate reports that the property is broken by this case.
func (c *C) Violate(format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	doc := map[string]any{
		"property": c.id, "part": c.sub, "what": msg,
		"case": c.desc, "steps": c.steps,
	}
	if OutDir != "" {
		data, err := json.MarshalIndent(doc, "", " ")
		must(err)
		name := fmt.Sprintf("fail.%d.json", Shard)
		must(os.WriteFile(filepath.Join(OutDir, name), data, 0644))
		if firstFail {
			firstFail = false
			must(os.WriteFile(filepath.Join(OutDir, fmt.Sprintf("firstfail.%d.json", Shard)), data, 0644))
		}
	}
	c.Logf("%s", strings.Join(c.desc, "\n"))
	c.Fatalf("VIOLATED %s/%s: %s", c.id, c.sub, msg)
}

func (c *C) Check(ok bool, format string, args ...any) {
	if !ok {
		c.Violate(format, args...)
	}
}

// ------------------------------------------------------------------- boxes

// Box is a scratch directory with its own ticat binary and data directory.
type Box struct {
	c       *C
	Dir     string // everything lives below
	Bin     string
	Data    string // ticat's data directory
	Mods    string // a hub directory for generated modules
	Ctl     string // control files read by module scripts
	Log     string // where module scripts log their calls
	logPos  int64
	Env     []string // extra environment of the processes
	Timeout time.Duration
	regd    map[string]bool
}

var boxSeq int

// NewBox makes an empty box; the hub exists and is empty, so that nothing is
// fetched from the network on the first run.
func (c *C) NewBox() *Box {
	statsMu.Lock()
	boxSeq++
	n := boxSeq
	statsMu.Unlock()
	dir := filepath.Join(Scratch, fmt.Sprintf("b%d", n))
	os.RemoveAll(dir)
	b := &Box{c: c, Dir: dir, Bin: filepath.Join(dir, "ticat"),
		Data: filepath.Join(dir, "ticat.data"), Mods: filepath.Join(dir, "mods"),
		Ctl: filepath.Join(dir, "ctl"), Log: filepath.Join(dir, "calls.log"),
		Timeout: 60 * time.Second, regd: map[string]bool{}}
	for _, d := range []string{dir, filepath.Join(b.Data, "hub"), b.Mods, b.Ctl, filepath.Join(dir, "wd")} {
		must(os.MkdirAll(d, 0755))
	}
	if err := os.Link(Bin, b.Bin); err != nil {
		data, err := os.ReadFile(Bin)
		must(err)
		must(os.WriteFile(b.Bin, data, 0755))
	}
	c.mu.Lock()
	c.boxes = append(c.boxes, b)
	c.mu.Unlock()
	return b
}

// UseRace lets the box run the build with the race detector; its reports go
// to files.
func (b *Box) UseRace() bool {
	race := os.Getenv("VH_BIN_RACE")
	if _, err := os.Stat(race); race == "" || err != nil {
		return false
	}
	must(os.Remove(b.Bin))
	if err := os.Link(race, b.Bin); err != nil {
		data, err := os.ReadFile(race)
		must(err)
		must(os.WriteFile(b.Bin, data, 0755))
	}
	b.Env = append(b.Env, "GORACE=exitcode=0 halt_on_error=0 log_path="+filepath.Join(b.Dir, "race"))
	return true
}

// MapRaces gives the reported data races in which a map is accessed: the Go
// runtime ends a process at once when it notices one.
func (b *Box) MapRaces() (r []string) {
	fs, _ := filepath.Glob(filepath.Join(b.Dir, "race.*"))
	for _, f := range fs {
		data, _ := os.ReadFile(f)
		for _, s := range strings.Split(string(data), "==================") {
			if strings.Contains(s, "DATA RACE") && (strings.Contains(s, "runtime.map") || strings.Contains(s, "maps.")) {
				r = append(r, s)
			}
		}
	}
	return
}

// Unprivileged gives the box to a user without privileges and returns the
// options to run ticat as that user; ok is false where that can't be done.
func (b *Box) Unprivileged() (o Opt, ok bool) {
	const uid = 65534
	if os.Geteuid() != 0 {
		return o, false
	}
	sp, err := exec.LookPath("setpriv")
	if err != nil {
		return o, false
	}
	filepath.Walk(b.Dir, func(p string, i os.FileInfo, err error) error {
		// the binary is shared with other boxes
		if err == nil && p != b.Bin {
			os.Lchown(p, uid, uid)
		}
		return nil
	})
	o.Prefix = []string{sp, "--reuid=65534", "--regid=65534", "--clear-groups", "--no-new-privs"}
	argv := append(append([]string{}, o.Prefix...), "/bin/sh", "-c", `test -x "$1" && test -w "$2"`, "sh", b.Bin, b.Data)
	if exec.Command(argv[0], argv[1:]...).Run() != nil {
		return o, false
	}
	return o, true
}

func (b *Box) close() {
	if os.Getenv("VH_KEEP") != "" {
		return
	}
	if !strings.HasPrefix(b.Dir, Scratch+"/b") {
		Infra("refusing to remove %s", b.Dir)
	}
	os.RemoveAll(b.Dir)
}

// UseMods registers the generated-module directory (and others) in the hub by
// writing the hub file directly, as previous hub.add.local runs would have.
func (b *Box) UseMods(dirs ...string) {
	var s strings.Builder
	for _, d := range append([]string{b.Mods}, dirs...) {
		fmt.Fprintf(&s, "\t<local>\t%s\t\ton\n", d)
	}
	must(os.WriteFile(filepath.Join(b.Data, "hub", "repos.hub"), []byte(s.String()), 0644))
}

// Quiet saves the setting that hides the execution boxes, so that the output
// is what the commands print.
func (b *Box) Quiet() { b.Saved("display.executor=false") }

// Saved writes the saved environment.
func (b *Box) Saved(lines ...string) {
	if len(lines) != 0 {
		b.File("ticat.data/bootstrap.env", strings.Join(lines, "\n")+"\n")
	}
}

// File writes a file below the box.
func (b *Box) File(rel, text string) string {
	path := rel
	if !filepath.IsAbs(path) {
		path = filepath.Join(b.Dir, rel)
	}
	must(os.MkdirAll(filepath.Dir(path), 0755))
	must(os.WriteFile(path, []byte(text), 0755))
	b.c.step(Step{What: "file", Path: strings.TrimPrefix(path, b.Dir+"/"), Text: text})
	return path
}

func (b *Box) Remove(rel string) {
	must(os.RemoveAll(filepath.Join(b.Dir, rel)))
	b.c.step(Step{What: "remove", Path: rel})
}

func (b *Box) Read(rel string) string {
	data, err := os.ReadFile(filepath.Join(b.Dir, rel))
	if err != nil {
		return ""
	}
	return string(data)
}

// Call is one logged invocation of a module script.
type Call struct {
	Name string
	Args []string          // without the session directory
	Env  map[string]string // session env as the script saw it (selected keys)
	Mark string            // free text logged by the script
}

func (k Call) String() string {
	s := k.Name + "(" + quoteAll(k.Args) + ")"
	if len(k.Env) != 0 {
		var ks []string
		for e := range k.Env {
			ks = append(ks, e)
		}
		sort.Strings(ks)
		for _, e := range ks {
			s += fmt.Sprintf(" %s=%q", e, k.Env[e])
		}
	}
	if k.Mark != "" {
		s += " <" + k.Mark + ">"
	}
	return s
}

func quoteAll(a []string) string {
	q := make([]string, len(a))
	for i, s := range a {
		q[i] = strconv.Quote(s)
	}
	return strings.Join(q, ", ")
}

func CallStrs(calls []Call) []string {
	r := []string{}
	for _, k := range calls {
		r = append(r, k.String())
	}
	return r
}

func Names(calls []Call) []string {
	r := []string{}
	for _, k := range calls {
		r = append(r, k.Name)
	}
	return r
}

// Res is the outcome of one ticat process.
type Res struct {
	Code   int
	Out    string
	Err    string
	Calls  []Call
	Pid    int
	Signal syscall.Signal
	Hang   bool
	Wall   time.Duration
	Asked  int // prompts printed
}

func (r Res) OK() bool { return r.Code == 0 && !r.Hang }

// All is everything printed.
func (r Res) All() string { return r.Out + r.Err }

// Opt changes how a process is run.
type Opt struct {
	Stdin    string
	KillOK   bool   // dying from a signal is expected
	Dir      string // working directory
	Prefix   []string
	Timeout  time.Duration
	Env      []string
	HangOK   bool     // report Hang to the caller instead of a violation
	Prompt   string   // each time this is printed ...
	Answers  []string // ... the next of these lines is typed; without one left stdin ends
	NoRecord bool
}

func (b *Box) environ() []string {
	env := []string{
		"PATH=" + os.Getenv("PATH"), "HOME=" + b.Dir, "LANG=C.UTF-8", "TERM=dumb",
		"VLOG=" + b.Log, "VCTL=" + b.Ctl, "VTICAT=" + b.Bin, "TMPDIR=" + b.Dir,
		"GIT_CONFIG_NOSYSTEM=1",
	}
	return append(env, b.Env...)
}

// Run runs ticat with the given words.
func (b *Box) Run(args ...string) Res { return b.RunOpt(Opt{}, args...) }

// FailAt lets the n-th script invocation from now on (1 is the next) run cmd,
// like "exit 3", when it is done; 0 for none. Scripts need Count.
func (b *Box) FailAt(n int, cmd string) {
	os.Remove(filepath.Join(b.Ctl, "count"))
	b.File("ctl/failat", fmt.Sprintln(n))
	b.File("ctl/failcmd", cmd+"\n")
}

// Proc is a started ticat process.
type Proc struct {
	b        *Box
	cmd      *exec.Cmd
	out, err bytes.Buffer
	o        Opt
	args     []string
	start    time.Time
	done     chan error
}

func (b *Box) Start(o Opt, args ...string) *Proc {
	p := &Proc{b: b, o: o, args: args, start: time.Now()}
	argv := append(append(append([]string{}, o.Prefix...), b.Bin), args...)
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Env = append(b.environ(), o.Env...)
	cmd.Dir = filepath.Join(b.Dir, "wd")
	if o.Dir != "" {
		cmd.Dir = o.Dir
	}
	cmd.Stdin = strings.NewReader(o.Stdin)
	cmd.Stdout = &p.out
	if o.Prompt != "" {
		r, w, err := os.Pipe()
		must(err)
		cmd.Stdin = r
		cmd.Stdout = &answerer{p: p, w: w}
		defer r.Close()
	}
	cmd.Stderr = &p.err
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.WaitDelay = 5 * time.Second
	p.cmd = cmd
	for try := 0; ; try++ {
		err := cmd.Start()
		if err == nil {
			break
		}
		if errors.Is(err, syscall.E2BIG) {
			b.c.Fatalf("argument list too long for a test")
		}
		if try > 20 || !(errors.Is(err, syscall.EAGAIN) || errors.Is(err, syscall.ETXTBSY)) {
			Infra("can't start %q: %v", argv, err)
		}
		time.Sleep(200 * time.Millisecond)
		cmd2 := exec.Command(argv[0], argv[1:]...)
		cmd2.Env, cmd2.Dir, cmd2.Stdin, cmd2.Stdout, cmd2.Stderr = cmd.Env, cmd.Dir, cmd.Stdin, cmd.Stdout, cmd.Stderr
		cmd2.SysProcAttr, cmd2.WaitDelay = cmd.SysProcAttr, cmd.WaitDelay
		cmd = cmd2
		p.cmd = cmd
	}
	p.done = make(chan error, 1)
	go func() { p.done <- cmd.Wait() }()
	return p
}

// answerer types the answers when the prompts are printed.
type answerer struct {
	p     *Proc
	w     *os.File
	asked int
}

func (a *answerer) Write(data []byte) (int, error) {
	a.p.out.Write(data)
	n := bytes.Count(a.p.out.Bytes(), []byte(a.p.o.Prompt))
	for ; a.asked < n; a.asked++ {
		if a.asked < len(a.p.o.Answers) {
			io.WriteString(a.w, a.p.o.Answers[a.asked]+"\n")
		} else {
			a.w.Close()
		}
	}
	return len(data), nil
}

func (a *answerer) close() { a.w.Close() }

func (p *Proc) Pid() int { return p.cmd.Process.Pid }

// Kill ends the process group at once.
func (p *Proc) Kill() { syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL) }

func (p *Proc) Wait() Res {
	timeout := p.b.Timeout
	if p.o.Timeout != 0 {
		timeout = p.o.Timeout
	}
	var res Res
	var err error
	timer := time.NewTimer(timeout - time.Since(p.start))
	defer timer.Stop()
	select {
	case err = <-p.done:
	case <-timer.C:
		res.Hang = true
		p.Kill()
		err = <-p.done
	}
	if a, ok := p.cmd.Stdout.(*answerer); ok {
		a.close()
		res.Asked = a.asked
	}
	// Nothing a run started may outlive it.
	syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
	res.Wall = time.Since(p.start)
	res.Pid = p.cmd.Process.Pid
	res.Out, res.Err = p.out.String(), p.err.String()
	if ws, ok := p.cmd.ProcessState.Sys().(syscall.WaitStatus); ok {
		if ws.Signaled() {
			res.Signal = ws.Signal()
			res.Code = 128 + int(ws.Signal())
		} else {
			res.Code = ws.ExitStatus()
		}
	} else if err != nil {
		Infra("wait: %v", err)
	}
	if res.Signal == syscall.SIGKILL && !res.Hang && !p.o.KillOK {
		Infra("ticat was killed from outside (out of memory?)")
	}
	res.Calls = p.b.NewCalls()
	statsMu.Lock()
	stats.Runs++
	stats.Calls += len(res.Calls)
	statsMu.Unlock()
	if !p.o.NoRecord {
		code := res.Code
		p.b.c.step(Step{What: "run", Args: p.args, Stdin: p.o.Stdin + strings.Join(p.o.Answers, "\n"), Code: &code,
			Stdout: clip(res.Out), Stderr: clip(res.Err), Calls: CallStrs(res.Calls)})
	}
	if res.Hang && !p.o.HangOK {
		p.b.c.Violate("ticat did not end within %v: %q", timeout, p.args)
	}
	return res
}

func clip(s string) string {
	if len(s) > 6000 {
		return s[:3000] + "\n...\n" + s[len(s)-3000:]
	}
	return s
}

func (b *Box) RunOpt(o Opt, args ...string) Res { return b.Start(o, args...).Wait() }

// NewCalls returns the module calls logged since the last time.
func (b *Box) NewCalls() []Call {
	f, err := os.Open(b.Log)
	if err != nil {
		return nil
	}
	defer f.Close()
	f.Seek(b.logPos, io.SeekStart)
	data, err := io.ReadAll(f)
	must(err)
	b.logPos += int64(len(data))
	return parseCalls(string(data))
}

// LogOf returns the calls logged to a file of its own (Opt.Env VLOG).
func (b *Box) LogOf(path string) []Call {
	data, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	calls := parseCalls(string(data))
	statsMu.Lock()
	stats.Calls += len(calls)
	statsMu.Unlock()
	return calls
}

// The log format: every record is NUL terminated fields
//
//	C name nargs args... nenv lines... mark E
func parseCalls(s string) (calls []Call) {
	fs := strings.Split(s, "\x00")
	i := 0
	next := func() string {
		if i >= len(fs) {
			return ""
		}
		i++
		return fs[i-1]
	}
	for i < len(fs)-1 {
		if next() != "C" {
			Infra("broken call log: %q", s)
		}
		k := Call{Name: next(), Args: []string{}}
		n, _ := strconv.Atoi(next())
		for j := 0; j < n; j++ {
			k.Args = append(k.Args, next())
		}
		n, _ = strconv.Atoi(next())
		for j := 0; j < n; j++ {
			line := next()
			if x := strings.IndexByte(line, '='); x >= 0 {
				if k.Env == nil {
					k.Env = map[string]string{}
				}
				k.Env[line[:x]] = line[x+1:]
			}
		}
		k.Mark = next()
		if next() != "E" {
			Infra("broken call log: %q", s)
		}
		calls = append(calls, k)
	}
	return
}

// ----------------------------------------------------------------- modules

// Script describes what a generated module script does.
type Script struct {
	Name    string   // logged name
	EnvPref string   // log session env lines with one of these prefixes (a|b)
	Append  []string // lines appended to the session env file
	Body    string   // extra bash, run after logging
	Exit    int
	Ctl     bool // fail when <ctl>/fail.<name> exists
	Count   bool // count the invocations of all scripts in <ctl>/count; when the
	// number reaches the content of <ctl>/failat, run <ctl>/failcmd
}

func shq(s string) string { return "'" + strings.ReplaceAll(s, "'", `'\''`) + "'" }

// Shq quotes for bash.
func Shq(s string) string { return shq(s) }

func (s Script) Text() string {
	var b strings.Builder
	// a module without a session gets an empty first argument
	b.WriteString("#!/bin/bash\nsess=\"$1\"\nshift\nenvl=()\n[ -n \"$sess\" ] || { sess=\"$VCTL/nosession\"; mkdir -p \"$sess\"; : > \"$sess/env\"; }\n")
	if s.EnvPref != "" {
		pats := []string{}
		for _, p := range strings.Split(s.EnvPref, "|") {
			pats = append(pats, shq(p)+"*")
		}
		fmt.Fprintf(&b, "while IFS= read -r l || [ -n \"$l\" ]; do case \"$l\" in %s) envl+=(\"$l\");; esac; done < \"$sess/env\"\n", strings.Join(pats, "|"))
	}
	fmt.Fprintf(&b, "mark=\nvlog() { printf '%%s\\0' C %s \"$#\" \"$@\" \"${#envl[@]}\" \"${envl[@]}\" \"$mark\" E >> \"$VLOG\"; }\n", shq(s.Name))
	b.WriteString("vlog \"$@\"\n")
	for _, l := range s.Append {
		fmt.Fprintf(&b, "printf '%%s\\n' %s >> \"$sess/env\"\n", shq(l))
	}
	if s.Body != "" {
		b.WriteString(s.Body + "\n")
	}
	b.WriteString("[ -z \"$VDELAY\" ] || sleep \"$VDELAY\"\n")
	if s.Count {
		b.WriteString(`c=0; [ -e "$VCTL/count" ] && read -r c < "$VCTL/count"
c=$((c+1)); echo $c > "$VCTL/count"
f=0; [ -e "$VCTL/failat" ] && read -r f < "$VCTL/failat"
[ "$c" = "$f" ] && . "$VCTL/failcmd"
`)
	}
	if s.Ctl {
		fmt.Fprintf(&b, "[ -e \"$VCTL/fail.%s\" ] && exit 7\n", s.Name)
	}
	fmt.Fprintf(&b, "exit %d\n", s.Exit)
	return b.String()
}

// Mod writes a module: script plus meta file. path is like "a.b.c"; the meta
// text is the content of the .ticat file.
func (b *Box) Mod(path string, s Script, meta string) {
	b.ModIn("mods", path, s, meta)
}

func (b *Box) ModIn(root, path string, s Script, meta string) {
	if s.Name == "" {
		s.Name = path
	}
	rel := filepath.Join(append([]string{root}, strings.Split(path, ".")...)...)
	b.File(rel+".bash", s.Text())
	if meta == "" {
		meta = "help = " + path + "\n"
	}
	b.File(rel+".bash.ticat", meta)
}

// Flow writes a flow file.
func (b *Box) Flow(path, text string) {
	b.File("mods/"+path+".tiflow", text)
}

// ------------------------------------------------------------------ output

// EnvVal asks ticat for one environment value in a fresh run.
func (b *Box) EnvVal(key string) string {
	r := b.Run("api.env.value", "key="+key)
	return strings.TrimSuffix(r.Out, "\n")
}

// Sessions lists the session directories.
func (b *Box) Sessions() []string {
	es, _ := os.ReadDir(filepath.Join(b.Data, "sessions"))
	r := []string{}
	for _, e := range es {
		if e.IsDir() {
			r = append(r, e.Name())
		}
	}
	sort.Strings(r)
	return r
}

// Eq compares string lists.
func Eq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// RuntimeCrash finds the traces of an internal Go runtime error in output.
func RuntimeCrash(r Res) string {
	for _, s := range []string{"runtime error:", "fatal error:", "nil pointer dereference",
		"goroutine 1 [", "index out of range", "slice bounds out of range", "assignment to entry in nil map",
		"concurrent map", "stack overflow", "should never happen", "interface conversion"} {
		if i := strings.Index(r.All(), s); i >= 0 {
			j := i + 200
			a := r.All()
			if j > len(a) {
				j = len(a)
			}
			return a[i:j]
		}
	}
	if r.Signal != 0 {
		return fmt.Sprintf("died from signal %v", r.Signal)
	}
	if r.Code == 2 {
		return "exit status 2 (Go runtime abort)"
	}
	return ""
}

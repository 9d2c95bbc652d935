// Package props holds one test per property; this file generates the command
// worlds most of them run in.
package props

import (
	"fmt"
	"strings"

	"vharness/tk"
)

// Item is one command of a sequence.
type Item struct {
	W    *Cmd
	Text string // as written; default is the command's path
}

// Cmd is a generated command: a module (script), a flow, a script with a flow
// before it, or a builtin that does nothing.
type Cmd struct {
	Path   string
	Script bool
	Seq    []*Cmd // flow content
	IsFlow bool
	Noop   bool
	Sets   KV       // by a builtin
	Name   string   // of the script, if Path is not just that
	Words  []string // on the command line, if they are not the fields of Path
	Args   []string // of the script
	Height int
	Size   int // script invocations of one execution
}

func (w *Cmd) String() string {
	switch {
	case w.Noop:
		return w.Path
	case w.IsFlow && w.Script:
		return w.Path + " = script+flow{" + SeqStr(w.Seq) + "}"
	case w.IsFlow:
		return w.Path + " = flow{" + SeqStr(w.Seq) + "}"
	}
	return w.Path + " = script"
}

func Paths(seq []*Cmd) []string {
	r := []string{}
	for _, w := range seq {
		r = append(r, w.Path)
	}
	return r
}

func SeqStr(seq []*Cmd) string { return strings.Join(Paths(seq), " : ") }

// Invocations is the model: the scripts a sequence runs, in order.
func Invocations(seq []*Cmd) []string {
	r := []string{}
	for _, w := range seq {
		if w.IsFlow {
			r = append(r, Invocations(w.Seq)...)
		}
		if w.Script {
			r = append(r, w.name())
		}
	}
	return r
}

func size(seq []*Cmd) (n, h int) {
	for _, w := range seq {
		n += w.Size
		if w.Height > h {
			h = w.Height
		}
	}
	return
}

// World is a set of commands written into a box.
type World struct {
	C     *tk.C
	B     *tk.Box
	Cmds  []*Cmd // all, leaves first
	Mods  []*Cmd
	Flows []*Cmd
}

type WorldOpt struct {
	MaxMods, MaxFlows, MaxSeq int
	NoFileNFlow               bool
	NoNoop                    bool
	Script                    tk.Script
	NoDepth                   bool // flat module paths only
	NoTrivial                 bool // no trivial marks in flows
	MaxSize                   int
	Own                       bool   // each script sets its own key, see ownKey
	OwnLead, OwnTail          string // text around that number
	Branch                    bool   // a bare branch of the command tree among the commands
	SetBuiltin                bool   // env.set commands among the builtins
	Extra                     []*Cmd // more commands
	NoSession                 bool   // some modules need no session
	ArgMod                    bool   // a module called with awkward argument values among the commands
}

// ownKey is the key the script of a command sets to the number of its
// invocation, counted over all runs in the box.
func ownKey(path string) string { return "k." + strings.ReplaceAll(path, ".", "_") }

// GenWorld draws commands and writes them into a new box.
func GenWorld(c *tk.C, o WorldOpt) *World {
	b := c.NewBox()
	b.UseMods()
	w := &World{C: c, B: b}
	if o.MaxSize == 0 {
		o.MaxSize = 14
	}
	nm := c.Int("mods", 1, o.MaxMods)
	for i := 0; i < nm; i++ {
		path := fmt.Sprintf("vm%d", i)
		if !o.NoDepth {
			switch c.Int("depth", 0, 3) {
			case 1:
				path = fmt.Sprintf("vdir.vm%d", i)
			case 2:
				path = fmt.Sprintf("vdir.sub.vm%d", i)
			case 3:
				if i > 0 {
					path = w.Mods[i-1].Path + fmt.Sprintf(".vx%d", i)
				}
			}
		}
		m := &Cmd{Path: path, Script: true, Size: 1}
		meta := ""
		if o.NoSession && c.Chance("no-session", 12) {
			meta = "no-session = true\n"
		}
		b.Mod(path, script(o, path), meta)
		w.Mods = append(w.Mods, m)
		w.Cmds = append(w.Cmds, m)
	}
	if !o.NoNoop {
		for _, n := range []string{"noop", "dummy", "echo hi", "dbg.step-by-step.off"}[:3] {
			w.Cmds = append(w.Cmds, &Cmd{Path: n, Noop: true})
		}
	}
	if o.Branch {
		b.Mod("vbr.x.y", script(o, "vbr.x.y"), "")
		w.Cmds = append(w.Cmds, &Cmd{Path: tk.Pick(c, "branch", "vbr", "vbr.x"), Noop: true})
	}
	w.Cmds = append(w.Cmds, o.Extra...)
	if o.SetBuiltin {
		for i := 1; i <= 2; i++ {
			k := []string{"k.e", "k.g"}[i-1]
			w.Cmds = append(w.Cmds, &Cmd{Path: fmt.Sprintf("env.set key=%s value=x%d", k, i), Noop: true, Sets: KV{k, fmt.Sprintf("x%d", i)}})
		}
	}
	if o.ArgMod {
		b.Mod("vg", script(o, "vg"), "[args]\na =\nb = d b\n")
		for i, n := 0, c.Int("arg-calls", 0, 2); i < n; i++ {
			w.Cmds = append(w.Cmds, argCall(tk.Pick(c, "arg", awkward...)))
		}
	}
	nf := c.Int("flows", 0, o.MaxFlows)
	for i := 0; i < nf; i++ {
		f := &Cmd{Path: fmt.Sprintf("vf%d", i), IsFlow: true}
		if c.Chance("flow-dir", 30) {
			f.Path = "vfdir." + f.Path
		}
		f.Seq = w.GenSeq("flowseq", 1, o.MaxSeq)
		n, h := size(f.Seq)
		if n > o.MaxSize {
			f.Seq = f.Seq[:1]
			n, h = size(f.Seq)
		}
		f.Size, f.Height = n, h+1
		if !o.NoFileNFlow && c.Chance("filenflow", 20) {
			f.Script = true
			f.Size++
		}
		w.WriteFlow(f, o)
		w.Flows = append(w.Flows, f)
		w.Cmds = append(w.Cmds, f)
	}
	for _, x := range w.Cmds {
		if !x.Noop {
			c.Desc("%s", x)
		}
	}
	return w
}

var awkward = []string{"p  q", "it's", `say "x y"`, `c\d \n`, "x;y|z", "(p) <q> $HOME", "a & b", "#x", "1,2"}

// argCall calls the module vg with a value for its argument a.
func argCall(v string) *Cmd {
	q := `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(v) + `"`
	return &Cmd{Path: "vg a=" + q, Name: "vg", Words: []string{"vg", "a=" + v}, Script: true, Size: 1, Args: []string{v, "d b"}}
}

func (w *Cmd) name() string {
	if w.Name != "" {
		return w.Name
	}
	return w.Path
}

func (w *Cmd) args() []string {
	if w.Args != nil {
		return w.Args
	}
	return []string{}
}

func (w *Cmd) words() []string {
	if w.Words != nil {
		return w.Words
	}
	return strings.Fields(w.Path)
}

func script(o WorldOpt, path string) tk.Script {
	s := o.Script
	s.Name = path
	if o.Own {
		s.Body = fmt.Sprintf("i=0; [ -e \"$VCTL/inv\" ] && read -r i < \"$VCTL/inv\"; i=$((i+1)); echo $i > \"$VCTL/inv\"; echo %s\"$i\"%s >> \"$sess/env\"\n", tk.Shq(ownKey(path)+"="+o.OwnLead), tk.Shq(o.OwnTail)) + s.Body
	}
	return s
}

// trivial is a mark that only changes how a command is described.
func trivial(c *tk.C) string {
	switch c.Int("trivial", 0, 9) {
	case 8:
		return "^"
	case 9:
		return tk.Pick(c, "trivial-mark", "^^", "^ ", "^^^")
	}
	return ""
}

// WriteFlow writes a flow (or script+flow) in one of the ways files allow.
func (w *World) WriteFlow(f *Cmd, o WorldOpt) {
	ps := Paths(f.Seq)
	if !o.NoTrivial {
		for i := range ps {
			ps[i] = trivial(w.C) + ps[i]
		}
	}
	text := ""
	style := w.C.Int("flowstyle", 0, 3)
	switch style {
	case 0:
		text = "flow = " + strings.Join(ps, " : ") + "\n"
	case 1:
		text = "flow = " + strings.Join(ps, " : \\\n  ") + "\n"
	case 2:
		text = "[flow/]\n" + strings.Join(ps, "\n") + "\n[/flow]\n"
	case 3:
		text = "[flow/]\n# some words : here\n\n" + strings.Join(ps, " :\n") + "\n[/flow]\n"
	}
	text = "help = h " + f.Path + "\n" + text
	if f.Script {
		w.B.Mod(f.Path, script(o, f.Path), text)
	} else {
		w.B.Flow(f.Path, text)
	}
}

// GenSeq draws a sequence over the commands made so far.
func (w *World) GenSeq(label string, lo, hi int) []*Cmd {
	n := w.C.Int(label+".n", lo, hi)
	var r []*Cmd
	for i := 0; i < n; i++ {
		r = append(r, tk.Pick(w.C, label, w.Cmds...))
	}
	return r
}

// Words makes a command line of a sequence.
func Words(seq []*Cmd) []string {
	var r []string
	for i, w := range seq {
		if i > 0 {
			r = append(r, ":")
		}
		r = append(r, strings.Fields(w.Path)...)
	}
	return r
}

func lines(ls []string) string {
	s := ""
	for _, l := range ls {
		s += l + "\n"
	}
	return s
}

// picks draws lo to hi of the options, with repetitions.
func picks(c *tk.C, label string, lo, hi int, opts ...string) []string {
	var r []string
	for i, n := 0, c.Int(label+".n", lo, hi); i < n; i++ {
		r = append(r, tk.Pick(c, label, opts...))
	}
	return r
}

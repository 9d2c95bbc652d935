package props

import (
	"fmt"
	"sort"
	"strings"

	"vharness/tk"
)

// KV is a key-value as given on a command line.
type KV struct{ K, V string }

// LCmd is one command of an abstract command line.
type LCmd struct {
	Path  []string // path segments
	Env   []KV     // braces before the command
	Args  []KV     // named arguments
	Pos   []string // or positional ones
	Brace bool     // named arguments inside braces
	Probe string   // the command prints the value of this key
}

// Line is an abstract command line.
type Line struct {
	Global []KV
	Cmds   []LCmd
}

func (l Line) String() string {
	s := fmt.Sprintf("global%v", l.Global)
	for _, k := range l.Cmds {
		s += fmt.Sprintf(" | env%v %s args%v pos%q brace=%v", k.Env, strings.Join(k.Path, "."), k.Args, k.Pos, k.Brace)
	}
	return s
}

// A token is a word or one of the symbols : { } = .
type token struct {
	s   string
	sym bool
	// a value containing '=' must stay joined to the sign before it
	joinLeft bool
}

func sym(s string) token { return token{s, true, false} }

func escColon(v string) string { return strings.ReplaceAll(v, ":", "\\:") }

func kvTokens(kvs []KV) []token {
	var r []token
	for _, kv := range kvs {
		r = append(r, token{kv.K, false, false}, sym("="), token{escColon(kv.V), false, strings.Contains(kv.V, "=")})
	}
	return r
}

// Tokens writes the line with random redundant separators.
func (l Line) Tokens(c *tk.C, redundant bool) []token {
	var r []token
	brace := func(kvs []KV) {
		r = append(r, sym("{"))
		r = append(r, kvTokens(kvs)...)
		r = append(r, sym("}"))
	}
	first := l.Cmds[0]
	if len(l.Global) != 0 {
		brace(l.Global)
		if len(first.Env) != 0 || c.Bool("global-own-seg") {
			r = append(r, sym(":"))
		}
	} else if len(first.Env) != 0 || (redundant && c.Chance("lead-sep", 25)) {
		r = append(r, sym(":"))
	}
	for i, k := range l.Cmds {
		if i > 0 {
			r = append(r, sym(":"))
			// "::" before the last command is a tail-mode call
			if redundant && i < len(l.Cmds)-1 && c.Chance("double-sep", 20) {
				r = append(r, sym(":"))
			}
		}
		if len(k.Env) != 0 {
			brace(k.Env)
		}
		for j, p := range k.Path {
			if j > 0 {
				r = append(r, sym("."))
			}
			r = append(r, token{p, false, false})
		}
		if len(k.Pos) != 0 {
			for _, v := range k.Pos {
				r = append(r, token{escColon(v), false, false})
			}
		} else if len(k.Args) != 0 {
			if k.Brace {
				brace(k.Args)
			} else {
				r = append(r, kvTokens(k.Args)...)
			}
		}
	}
	if redundant && c.Chance("trail-sep", 20) {
		for i, n := 0, c.Int("trail-seps", 1, 3); i < n; i++ {
			r = append(r, sym(":"))
		}
	}
	return r
}

// Words joins tokens into shell words. Canonical: every token its own word,
// except around '=' and '.'.
func joinTokens(c *tk.C, ts []token, vary bool) []string {
	var words []string
	for i, t := range ts {
		if i == 0 {
			words = append(words, t.s)
			continue
		}
		p := ts[i-1]
		if !p.sym && !t.sym {
			words = append(words, t.s)
			continue
		}
		n := len(words) - 1
		if !vary {
			if p.s == "=" && p.sym || p.s == "." && p.sym || t.sym && (t.s == "=" || t.s == ".") ||
				p.sym && p.s == "{" || t.sym && t.s == "}" {
				words[n] += t.s
			} else {
				words = append(words, t.s)
			}
			continue
		}
		// An escaped colon at the end of a word and a separator may not be told
		// apart from "\::" otherwise.
		switch k := c.Int("join", 0, 3); {
		case k <= 1 && !t.joinLeft:
			if t.sym && c.Chance("lead-space", 15) {
				t.s = " " + t.s
			}
			words = append(words, t.s)
		case k == 3:
			words[n] += tk.Pick(c, "space", " ", "  ", "\t", " \n ") + t.s
		default:
			words[n] += t.s
		}
	}
	return words
}

// Mod3 is a module with declared arguments and defaults.
type ModDecl struct {
	Path []string
	Args []KV // name and default
	// Abbrs of each argument
	Abbrs [][]string
}

// probe makes a command that prints the value of a key as this command sees it.
func probe(key string, env []KV) LCmd {
	return LCmd{Path: []string{"api", "env", "value"}, Env: env, Args: []KV{{"key", key}}, Probe: key}
}

// Expect is the model of a line over modules logging "k." keys: what scripts
// are invoked with and what probes print. Both see the settings of the session
// and of their own command.
func (l Line) Expect(decls map[string]ModDecl, saved map[string]string) (invoked []string, printed []string) {
	glob := map[string]string{}
	for k, v := range saved {
		glob[k] = v
	}
	for _, kv := range l.Global {
		glob[kv.K] = kv.V
	}
	var calls []tk.Call
	for _, k := range l.Cmds {
		env := map[string]string{}
		for a, v := range glob {
			env[a] = v
		}
		for _, kv := range k.Env {
			env[kv.K] = kv.V
		}
		if k.Probe != "" {
			printed = append(printed, env[k.Probe])
			continue
		}
		d := decls[strings.Join(k.Path, ".")]
		args := []string{}
		for i, a := range d.Args {
			v := a.V
			if i < len(k.Pos) {
				v = k.Pos[i]
			}
			for _, kv := range k.Args {
				if kv.K == a.K || contains(d.abbrs(i), kv.K) {
					v = kv.V
				}
			}
			args = append(args, v)
		}
		if len(env) == 0 {
			env = nil
		}
		calls = append(calls, tk.Call{Name: strings.Join(k.Path, "."), Args: args, Env: env})
	}
	return tk.CallStrs(calls), printed
}

func (d ModDecl) abbrs(i int) []string {
	if i < len(d.Abbrs) {
		return d.Abbrs[i]
	}
	return nil
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func sortedKeys[V any](m map[string]V) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// GenVal draws an argument or environment value: printable single-line text
// that the command-line grammar can carry (no braces, no surrounding spaces).
func GenVal(c *tk.C, label string) string {
	v := ""
	switch c.Int(label+".kind", 0, 5) {
	case 0:
		v = c.Str(label, "abc019", 1, 6)
	case 1:
		v = c.Str(label, "aZ0_-+@%^~/,.", 1, 8)
	case 2:
		v = c.Str(label, "ab =:.#!?*()<>|&;$\"'`~", 1, 10)
	case 3:
		v = tk.Pick(c, label, "http://x.y/z", "https://a.b/c?d=e&f", "HTTP://q", "a b  c", "x=y=z", "ünïcode → 値", "-", "---", "1.5", "$HOME", "`id`", "a\\b", "[[x]]", "a:b:c", "::", "true", "0")
	case 4:
		v = c.Str(label, "abcdefgh ijkl", 1, 30)
	default:
		v = fmt.Sprint(c.Int(label, -99, 999))
	}
	v = strings.Trim(v, " ")
	if v == "" || v == "--" || strings.HasSuffix(v, "\\") {
		v = "v"
	}
	return v
}

// Plain is a value that may also stand as a positional word.
func Plain(v string) string {
	v = strings.TrimLeft(v, ".^")
	v = strings.ReplaceAll(v, "=", "~")
	v = strings.ReplaceAll(v, "{", "(")
	v = strings.Trim(v, " ")
	if v == "" {
		v = "p"
	}
	return v
}

package tk

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// Pick draws one of the given values, each as likely as the others (rapid's
// own choice prefers the first ones by far).
func Pick[V any](c *C, label string, vs ...V) V { return vs[c.even(label, len(vs))] }

// even draws one of 0..n-1, all about equally likely.
func (c *C) even(label string, n int) int {
	bits := 0
	for 1<<bits < n {
		bits++
	}
	if 1<<bits != n {
		bits += 3
	}
	v := 0
	for i := 0; i < bits; i++ {
		v <<= 1
		if rapid.Bool().Draw(c.T, label) {
			v |= 1
		}
	}
	return v * n >> bits
}

func (c *C) Int(label string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(c.T, label) }

func (c *C) Bool(label string) bool { return rapid.Bool().Draw(c.T, label) }

// Chance is true in about pct percent of the cases.
func (c *C) Chance(label string, pct int) bool {
	return c.even(label, 100) >= 100-pct
}

// Str draws a string of lo..hi runes from the alphabet.
func (c *C) Str(label string, alphabet string, lo, hi int) string {
	return rapid.StringOfN(rapid.SampledFrom([]rune(alphabet)), lo, hi, -1).Draw(c.T, label)
}

const (
	Lower  = "abcdefghijklmnopqrstuvwxyz"
	Digits = "0123456789"
	// Safe characters need no quoting anywhere.
	Safe = "abcXYZ019_-+@%^~/,"
)

// Words draws n distinct lower-case words with the given prefix.
func (c *C) Words(label, prefix string, n int) []string {
	seen := map[string]bool{}
	r := []string{}
	for len(r) < n {
		w := prefix + c.Str(label, "abcdexyz012", 1, 4)
		for seen[w] {
			w += "q"
		}
		seen[w] = true
		r = append(r, w)
	}
	return r
}

// Perm draws a permutation of 0..n-1.
func (c *C) Perm(label string, n int) []int {
	xs := make([]int, n)
	for i := range xs {
		xs[i] = i
	}
	if n < 2 {
		return xs
	}
	return rapid.Permutation(xs).Draw(c.T, label)
}

// Subset draws a subset (in order) of the given values.
func Subset[V any](c *C, label string, vs []V) []V {
	r := []V{}
	for i, v := range vs {
		if c.Bool(fmt.Sprintf("%s%d", label, i)) {
			r = append(r, v)
		}
	}
	return r
}

// Sp draws 0..2 spaces.
func (c *C) Sp(label string) string { return strings.Repeat(" ", c.Int(label, 0, 2)) }

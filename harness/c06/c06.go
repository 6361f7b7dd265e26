// Package c06 compares the trees of accepted descriptions with a reference
// parser.
package c06

import (
	"github.com/mmcloughlin/trunnel/parse"
	"github.com/mmcloughlin/trunnel/vfw/ref"
	"github.com/mmcloughlin/trunnel/vfw/refast"
	"github.com/mmcloughlin/trunnel/vfw/txt"
	"github.com/mmcloughlin/trunnel/vfw/vf"
)

func init() {
	acc := []string{"accepted"}
	vf.Add(vf.Spec{Name: "c06.Replace", F: Replace, MaxSteps: 30_000_000, Quick: txt.Positions(false, 0), Full: txt.Positions(true, 0), Reach: acc})
	vf.Add(vf.Spec{Name: "c06.Names", F: Names, MaxSteps: 30_000_000, Quick: names(false), Full: names(true), Reach: acc})
	vf.Add(vf.Spec{Name: "c06.Twice", F: Twice, Quick: vf.Range(0, len(txt.Texts)+len(txt.More)-1), Reach: acc, MaxSteps: 30_000_000})
	vf.Add(vf.Spec{Name: "c06.Large", F: Large, Quick: vf.Range(0, txt.LargeForms-1), Reach: acc, MaxSteps: 400_000_000})
}

// Replace puts any byte at a position.
func Replace(arg int) {
	t, k := txt.Split(arg)
	s := []byte(t)
	s[k] = vf.Byte("c")
	same(s)
}

func names(full bool) []int {
	var out []int
	for i := range txt.Named {
		out = append(out, i*100+98)
		for k := range txt.Words {
			// words of the same kind are spread over the places
			if full || (i+k)%3 == 0 {
				out = append(out, i*100+k)
			}
		}
		if full {
			out = append(out, i*100+99)
		}
	}
	return out
}

// Names puts a word with any byte behind it, or any two or three bytes, in the
// place of names.
func Names(arg int) {
	t, k := txt.Named[arg/100], arg%100
	var w []byte
	switch k {
	case 98, 99:
		w = vf.Bytes("n", k-96)
	default:
		w = []byte(txt.Words[k])
		if vf.Choose("more", 2) == 1 {
			w = append(w, vf.Byte("n"))
		}
	}
	var s []byte
	for i := 0; i < len(t); i++ {
		if t[i] == '$' {
			s = append(s, w...)
		} else {
			s = append(s, t[i])
		}
	}
	same(s)
}

// Twice reads a description after another one, which must leave no trace.
func Twice(i int) {
	t, _ := txt.Split(i * 1000)
	k := (vf.Choose("cut", 6) + 1) * len(t) / 7
	_, _ = parse.String(t[:k])
	s := []byte(t)
	a, err := parse.String(t)
	f, ok := ref.Parse(s)
	if err != nil || !ok {
		vf.Reach("rejected")
		return
	}
	b, err := parse.String(t)
	vf.Assert(err == nil, "accepted again")
	vf.Assert(refast.SameFile(b, f), "the tree has what was written")
	vf.Assert(refast.SameFile(a, f), "an earlier tree stays as it is")
	vf.Reach("accepted")
}

// Large reads large descriptions with any letter in one place.
func Large(i int) {
	s := []byte(txt.Large(i))
	k := len(s) / 2
	for k > 0 && (s[k] < 'a' || s[k] > 'z') {
		k--
	}
	if k > 0 {
		s[k] = vf.Byte("c")
	}
	same(s)
}

func same(s []byte) {
	a, err := parse.String(string(s))
	f, ok := ref.Parse(s)
	vf.Observe("ok", err == nil)
	if err != nil || !ok {
		vf.Reach("rejected")
		return
	}
	vf.Reach("accepted")
	vf.Assert(refast.SameFile(a, f), "the tree has what was written")
}

// Package schemas holds the descriptions the generated parsers were made from,
// read by the reference grammar.
package schemas

import "github.com/mmcloughlin/trunnel/vfw/ref"

// Sets are the descriptions, one per generated package.
var Sets = read()

func read() []*ref.Set {
	var out []*ref.Set
	for _, s := range sources {
		var fs []*ref.File
		for _, t := range s {
			f, ok := ref.Parse([]byte(t))
			if !ok {
				panic("reference grammar rejects a schema")
			}
			fs = append(fs, f)
		}
		out = append(out, ref.NewSet(fs...))
	}
	return out
}

// Sources are the texts of the descriptions.
func Sources(i int) []string { return sources[i] }

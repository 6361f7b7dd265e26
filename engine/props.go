package main

const gpAssume = "descriptions: the committed corpus, the repository's own schemas and seeded random ones; inputs of every length from 0 to a few bytes beyond the fixed part of the structure; all byte and context values symbolic"

const pairAssume = "also structures in which every form of member follows every other (positions in between, and inside cases of unions); messages of about 17 or 300 (thorough: also 3 and 70) elements, with fixed lengths and tags and all else arbitrary, and for some structures of 40000 (thorough: also 5000 and 70000) elements, where of a run of more than 1000 payload bytes only the first and last two are arbitrary, whole, cut short and continued; inputs with spare capacity behind their end"

const tvAssume = "descriptions as for the generated parsers, with at most about 64 vectors of their own; payload bytes and letters symbolic; draws from sets symbolic within windows of six (up to four windows); the first two random lengths smallest, second smallest or largest, later ones small"

const refGrammar = "the language is that of the reference parser in harness/ref, written from the grammar file"

var props = map[string]*Prop{
	"C01": {Pkgs: []string{"c01"}, Pairs: true, Prepare: prepareGenerated, Level: "model_checking", Assumptions: []string{gpAssume, pairAssume}},
	"C02": {Pkgs: []string{"c02"}, Pairs: true, Prepare: prepareGenerated, Level: "model_checking", Assumptions: []string{gpAssume, pairAssume}},
	"C03": {Pkgs: []string{"c03"}, Pairs: true, Prepare: prepareGenerated, Level: "model_checking", Assumptions: []string{gpAssume, pairAssume}},
	"C04": {Pkgs: []string{"c04"}, Pairs: true, Prepare: prepareGenerated, Level: "model_checking", Assumptions: []string{gpAssume, pairAssume}},
	"C05": {Pkgs: []string{"c05"}, QuickSecs: 200, FullSecs: 600, Level: "model_checking", Assumptions: []string{
		"literals of up to 4 (thorough: 6 in one place) arbitrary letters, digits and underscores and of listed longer shapes with arbitrary digits, in 12 places",
		refGrammar,
	}},
	"C06": {Pkgs: []string{"c06"}, QuickSecs: 450, FullSecs: 700, Level: "model_checking", Assumptions: []string{
		"18 (thorough: 24) descriptions with any byte at any one position; 15 descriptions with names made of a word of the language and any byte behind it, or of any two (thorough: three) bytes; 12 large descriptions (long names, lists, comments, many declarations) with one arbitrary byte in chosen positions",
		refGrammar,
	}},
	"C07": {Pkgs: []string{"c07"}, QuickSecs: 450, FullSecs: 700, Level: "model_checking", Assumptions: []string{
		"10 descriptions; layouts of the listed forms with up to three arbitrary bytes, in one gap or in all; layouts of up to some hundred characters with one arbitrary byte",
		refGrammar,
	}},
	"C08": {Pkgs: []string{"c08"}, QuickSecs: 550, FullSecs: 700, Level: "model_checking", Assumptions: []string{
		"18 (thorough: 24) descriptions with any byte substituted or inserted at any one position, cut off or with one byte removed; all texts of up to 2 (thorough: 3) bytes; lists of up to three files, some of the same or nearly the same name, and of up to 33 files, on a model of the file system; 12 large descriptions with one arbitrary byte in chosen positions",
		refGrammar,
	}},
	"C09": {Pkgs: []string{"c09"}, Level: "model_checking", Assumptions: []string{
		"lists of at most 3 (quick) or 4 (thorough) intervals; all 64-bit end points and probe values are symbolic",
		"longer lists (up to 20) of intervals of several fixed extents with a symbolic probe; up to 140 (thorough: 300) separate fixed intervals and one of ten values anywhere near the middle; up to 140 (thorough: 700) fixed nested intervals with a symbolic probe; sets written out as text with up to 3 intervals",
	}},
	"C10": {Pkgs: []string{"c10"}, Level: "model_checking", Assumptions: []string{
		"sets of at most 3 (quick) or 4 (thorough) intervals with symbolic end points; at most two rounds of draws per path when the random numbers are symbolic",
		"bounded work is checked with fixed fair sequences of 400 numbers over all sets; reachability of members is checked on boundary members of fixed sets",
		"larger sets (up to 270 intervals) are fixed",
	}},
	"C11": {Pkgs: []string{"c11"}, Level: "model_checking", Assumptions: []string{
		"up to 4 declarations of 2 names in up to 3 files, in every order; constant values and list ends symbolic; lists of up to 3 entries; many declarations and long lists with one arbitrary value",
		"not decided: the same constant twice with one value in one file, two extern declarations in one file, fields inside unions as references",
	}},
	"C12": {Pkgs: []string{"c12"}, Prepare: prepareGenerated, Level: "model_checking", Assumptions: []string{
		"unions of up to 3 cases and 2 ranges (quick; 3 with 8-bit tags) or 3 ranges (thorough; 4 with 8-bit tags) with symbolic ends, tags of 8 to 64 bits in the structure or a context; all unions of the schema corpus with every tag value",
		"case lists lie within the width of the tag",
	}},
	"C13": {Pkgs: []string{"c13"}, Prepare: prepareGenerated, Level: "model_checking", Assumptions: []string{
		tvAssume,
	}},
	"C14": {Pkgs: []string{"c14"}, Prepare: prepareGenerated, Level: "model_checking", Assumptions: []string{
		tvAssume,
		"coverage of cases is required where no tag or length is shared by several members and no length field of a union is limited to listed values; with such a limit, for one description with four cases and six limits, of the cases that fit it",
		"samples of up to 5 (quick) or 6 (thorough) candidates, every permutation of the library source; larger samples with chosen permutations",
	}},
	"C15": {Pkgs: []string{"c15"}, Level: "model_checking", Assumptions: []string{
		"stores over 7 fields in 3 scopes (one of them local), every subset present, all values symbolic; one or two operations from any such store; scopes with up to 40 fields and stores with up to 40 scopes, with symbolic values",
	}},
	"C16": {Pkgs: []string{"c16"}, Prepare: prepareGenerated, Level: "model_checking", Assumptions: []string{
		gpAssume,
		"every generation is repeated under five orders of map iteration (as inserted, backwards, from the middle, two alternations), in all orders for small descriptions, and after other generations in the same process",
		"whole packages are generated twice on the model of the file system, with another generation before or between",
	}},
	"C17": {Pkgs: []string{"c17"}, Level: "model_checking", Assumptions: []string{
		"10 descriptions; a model of the file system with a file in the place of any directory, a directory in the place of any file, a missing or unsuitable output directory, and any limit on the size of files, at which writes are cut short",
		"38 descriptions that refer to something missing or contradict themselves, alone or next to a sound one",
	}},
	"C18": {Pkgs: []string{"c18"}, Prepare: prepareGenerated, Package: true, Level: "model_checking", Assumptions: []string{
		"corpora of up to 3 structures and 4 vectors of up to 300 bytes, at most 4 of them arbitrary per corpus, with and without context values; corpora of many structures and vectors with fixed contents; distinct contents have distinct digests",
		"fuzz entries of all descriptions of the corpus, inputs as for the generated parsers",
	}},
	"C19": {Pkgs: []string{"c19"}, QuickSecs: 450, FullSecs: 700, Level: "model_checking", Assumptions: []string{
		"18 descriptions with any byte substituted at every fourth and inserted at every eighth position (thorough: second and third), cut off or with one byte removed; texts of several lines with any one or two bytes; all texts of up to 2 bytes; literals out of range; lists of up to three files; large descriptions",
		refGrammar,
	}},
}

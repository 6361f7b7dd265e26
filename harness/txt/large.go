package txt

import "strconv"

// LargeForms is the number of forms of large descriptions.
const LargeForms = 12

func name(p string, i int) string { return p + strconv.Itoa(i) }

func long(i int) string {
	s := ""
	for len(s) < i {
		s += "ab_cD1e"
	}
	return "n" + s[:i]
}

// Large is a description with much of something.
func Large(form int) string {
	s := ""
	switch form {
	case 0:
		for i := 0; i < 40; i++ {
			s += "const A" + strconv.Itoa(i) + " = " + strconv.Itoa(i*i*i*i*1237) + ";\n"
		}
	case 1:
		s = "struct s {"
		for i := 0; i < 60; i++ {
			switch i % 6 {
			case 0:
				s += " u8 " + name("a", i) + ";"
			case 1:
				s += " u64 " + name("a", i) + "[" + name("a", i-1) + "];"
			case 2:
				s += " nulterm " + name("a", i) + ";"
			case 3:
				s += " @ptr " + name("a", i) + ";"
			case 4:
				s += " char " + name("a", i) + "[" + strconv.Itoa(i*1000) + "];"
			case 5:
				s += " struct t " + name("a", i) + ";"
			}
		}
		s += " eos; }"
	case 2:
		for i := 0; i < 12; i++ {
			n := strconv.Itoa(i)
			s += "struct s" + n + " { u8 a" + n + "; }; context c" + n + " { u16 b" + n + "; }; const C" + n + " = 0" + strconv.Itoa(i%8) + ";\n"
			s += "extern struct e" + n + "; trunnel options o" + n + ", p;"
		}
	case 3:
		s = "struct s { u32 a IN [ 0"
		for i := 1; i < 50; i++ {
			s += ", " + strconv.Itoa(i*10)
			if i%3 == 0 {
				s += ".." + strconv.Itoa(i*10+i%7)
			} else if i%7 == 0 {
				s += "..N" + strconv.Itoa(i)
			}
		}
		s += "]; }"
	case 4:
		s = "struct s { u16 t; union u[t] {"
		for i := 0; i < 40; i++ {
			s += " " + strconv.Itoa(i*10) + ".." + strconv.Itoa(i*10+3) + ", N" + strconv.Itoa(i) + ":"
			for k := 0; k < i%4; k++ {
				s += " u8 " + name(name("a", i)+"_", k) + ";"
			}
			switch i % 4 {
			case 0:
				s += " fail;"
			case 1:
				s += " ...;"
			}
		}
		s += " default: ignore; }; }"
	case 5:
		s = "trunnel options o0"
		for i := 1; i < 40; i++ {
			s += ", " + name("o", i)
		}
		s += "; extern struct e with context c0"
		for i := 1; i < 20; i++ {
			s += ", " + name("c", i)
		}
		s += "; context c {"
		for i := 0; i < 40; i++ {
			s += " u" + strconv.Itoa(8<<(i%4)) + " " + name("f", i) + ";"
		}
		s += " }"
	case 6:
		s = "struct s {"
		for i := 0; i < 14; i++ {
			s += " struct " + name("in", i) + " { u8 x; } " + name("f", i) + []string{"", "[2]", "[n]"}[i%3] + ";"
		}
		s += " } struct t { struct last { } q; }"
	case 7:
		s = "struct s { u8 t; union u[t] {"
		for i := 0; i < 8; i++ {
			s += " " + strconv.Itoa(i) + ": struct " + name("a", i) + " { u8 x; } " + name("f", i) + "; struct " + name("b", i) + " { } " + name("g", i) + ";"
		}
		s += " }; }"
	case 8:
		s = "struct a { struct b { struct c { u8 x; } y; struct d { } z; } w; struct e { struct f { } v; } u; }"
	case 9:
		for i := 1; i < 130; i += 16 {
			n := long(i)
			s += "struct " + n + " with context " + n + " { u8 " + n + "[" + n + "." + n + "]; }; context " + n + " { u8 " + n + "; };"
		}
	case 10:
		for i := 0; i < 8; i++ {
			s += "const K" + "ABC_DEFGHIJ_KLMNOPQRSTUVWXYZ_0123456789_LONG_NAME_INDEED"[:i*7] + " = " + []string{"9223372036854775807", "0x7fffffffffffffff", "0777777777777777777777", "000000000000000000000000000000012", "0x00000000000000000000001", "1234567890123456789", "0xABCDEF0123456", "1000000000000"}[i] + ";"
		}
	case 11:
		for i := 0; i < 60; i++ {
			s += "struct " + name("s", i) + ";"[:0] + " { u8 a; }" + []string{"", ";", " ; ", "\n", "//;\n"}[i%5]
		}
	}
	return s
}

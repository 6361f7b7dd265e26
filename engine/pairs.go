package main

import (
	"fmt"
	"strings"
)

// A member form; % stands for the names a member declares.
var (
	middleForms = []string{
		"u16 f%;",
		"u8 f% IN [1..9];",
		"nulterm f%;",
		"u8 n%; u8 f%[n%];",
		"u16 f%[2];",
		"struct pe f%;",
		"u8 n%; struct pe f%[n%];",
		"u8 t%; union f%[t%] { 1: u8 a%; 2: nulterm b%; 3: u16 c%[2]; default: ; };",
		"u8 t%; u8 n%; union f%[t%] with length n% { 1: u8 a%; ...; 2: u16 b%[]; 3: nulterm c%; default: ignore; };",
		"char f%[2];",
		"u16 n%; char f%[n%];",
		"struct in% { u8 q; nulterm s; } f%;",
	}
	lastForms = []string{
		"u16 f%[];",
		"struct pe f%[];",
		"eos;",
		"u8 t%; union f%[t%] { 1: u8 a%; ...; 2: u8 b%[]; 3: ignore; default: u8 c%; };",
	}
	leftForms = []string{
		"u8 f%[..-2];",
		"u16 f%[..-3];",
		"struct pe f%[..-2];",
		"u8 t%; union f%[t%] with length ..-2 { 1: u8 a%; 2: u8 b%[]; 3: nulterm c%; ...; default: ignore; };",
	}
)

func form(f, tag string) string { return strings.ReplaceAll(f, "%", tag) }

// pairSchemas describes structures in which every form of member is followed
// by every other, with positions in between, and the same within the cases of
// unions.
func pairSchemas() []*Schema {
	const elem = "struct pe { u8 x; nulterm s; }\n"
	var out []*Schema
	add := func(name, text string) {
		out = append(out, &Schema{Name: name, Files: []string{elem + text}})
	}
	first := append(append([]string{}, middleForms...), leftForms...)
	for i, a := range first {
		var plain, cases strings.Builder
		second := append([]string{}, middleForms...)
		if i >= len(middleForms) {
			second = append(second, lastForms[0], lastForms[3])
		} else {
			second = append(append(second, leftForms[0]+" u16 g%;", leftForms[3]+" u8 g%[2];"), lastForms...)
		}
		for j, b := range second {
			tag := fmt.Sprintf("x%d", j)
			member, pos := b, "@ptr q;"
			if b == "eos;" || strings.HasSuffix(b, "[];") {
				pos = ""
				b = "@ptr q; " + b
			}
			fmt.Fprintf(&plain, "struct s%d { %s @ptr p; %s %s }\n", j, form(a, tag), form(b, "y"), pos)
			b = member
			if strings.Contains(a+b, "union") || strings.Contains(a+b, "..-") || b == "eos;" || strings.Contains(a, "struct in") || strings.Contains(b, "struct in") {
				continue
			}
			end := "u8 z;"
			if strings.HasSuffix(b, "[];") {
				end = ""
			}
			// one case has both members, another has the second alone
			fmt.Fprintf(&cases, "struct c%d { u8 t; union u[t] { 0: %s %s 1..3, 9: %s default: fail; }; %s }\n",
				j, form(a, "k"), form(b, "l"), form(b, "m"), end)
		}
		add(fmt.Sprintf("pairs%d", i), plain.String())
		if cases.Len() > 0 {
			add(fmt.Sprintf("cases%d", i), cases.String())
		}
	}
	return out
}

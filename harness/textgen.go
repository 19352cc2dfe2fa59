package main

import (
	"strconv"
	"strings"
)

var words = []string{"a", "b", "x1", "foo", "_", "_x", "if", "for", "fn", "true", "EOF", "INT", "é", "变量", "αβ", "x٣", "Ω9", "i", "e5", "x0"}
var goodNums = []string{"0", "1", "7", "42", "007", "0777", "0x0", "0xAbF", "0X9", "3.14", "1.", ".5", "0.5", "08.5", "019e2", "1e9", "1E+5", "2e-3", "1e", ".5e", "1.e+", "5i", "0i", "089i", ".1i", "1e2i", "9223372036854775807", "9223372036854775808", "18446744073709551616", "1e400"}
var badNums = []string{"0x", "0X", "08", "0129", "09"}
var goodStrs = []string{`""`, `"abc"`, `"\n\t\\\""`, `"\x41\101\u00e9\U0001F600"`, `"é变"`, "`raw`", "`a\nb`", "`a\r\nb`", "``", "`\\`", `"#//"`, `"/*"`, "`//\n#`", `"'"`, `"\377\xff"`}
var goodChars = []string{`'a'`, `'\''`, `'\n'`, `'é'`, `'\x00'`, `'\u1234'`, `'"'`, `'\\'`, `'\101'`, `'\U0010FFFF'`}
var badStrs = []string{`"abc`, `"\q"`, `"\x4"`, `"\u12"`, `"\400"`, `"\uD800"`, `"\U00110000"`, `"\'"`, `"\`, `''`, `'ab'`, `'a`, `'\q'`, `'\"'`, `'\400'`, `'\uDFFF'`, "`abc", `'`, `"`, "`", `'\`, `'\x'`, `"\x"`, "'\n'", "\"\n\"", `'\08'`, `'\1'`}
var comments = []string{"/* c */", "/**/", "/* a\nb */", "/* a\r\nb */", "// c\n", "//\n", "# d\n", "#\n", "// e\r\n", "# f\r\n", "/***/", "/* // */", "/* # */", "//line foo.go:10\n", "//line :7\n", "//line /abs/y.go:3\n", "//line x:0\n", "//line bad\n", "// /* \n", "/*\n*/"}
var blanks = []string{" ", "  ", "\t", "\n", "\r\n", "\n\n", " \n ", "\r", ""}
var hostile = []string{"\x00", "\xff", "\xc3", "\xe4\xbd", "\xef\xbb\xbf", "$", "\\", "\x01", "\x7f", "\u00a0", "\u2028", "€", "\u0663", "\xed\xa0\x80", "\U0001F600", "\x0b", "\x0c", "\u0301", "\u3000", "\u0085", "\u2003", "\u00bd", "\u2160", "\uff11", "\u0aed", "\U00010400"}

// lexText makes a text of lexical fragments. bad tells whether ill-formed fragments are used.
func lexText(r *Rand, n int, bad bool) string {
	var b strings.Builder
	if r.P(3) {
		b.WriteString("\xef\xbb\xbf")
	}
	glue := r.N(3) // 0: blanks between all, 1: sometimes, 2: seldom
	wOp, wComm := 30, 12
	if r.P(15) {
		wOp = 120
	}
	if r.P(15) {
		wComm = 60
	}
	for i := 0; i < n; i++ {
		wBad := 0
		if bad {
			wBad = 6
		}
		switch r.W(25, 15, 12, 6, wOp, wComm, 5, wBad, wBad) {
		case 0:
			b.WriteString(words[r.N(len(words))])
		case 1:
			b.WriteString(goodNums[r.N(len(goodNums))])
		case 2:
			b.WriteString(goodStrs[r.N(len(goodStrs))])
		case 3:
			b.WriteString(goodChars[r.N(len(goodChars))])
		case 4:
			b.WriteString(opList[r.N(len(opList))])
		case 5:
			b.WriteString(comments[r.N(len(comments))])
		case 6:
			b.WriteString(";")
		case 7:
			b.WriteString(append(badNums, badStrs...)[r.N(len(badNums)+len(badStrs))])
		case 8:
			b.WriteString(hostile[r.N(len(hostile))])
		}
		if glue == 0 || glue == 1 && r.P(50) || r.P(10) {
			b.WriteString(blanks[r.N(len(blanks))])
		}
	}
	s := b.String()
	if bad && r.P(20) && len(s) > 0 { // cut or flip bytes
		i := r.N(len(s))
		if r.P(50) {
			s = s[:i]
		} else {
			s = s[:i] + string([]byte{byte(r.N(256))}) + s[i+1:]
		}
	}
	return s
}

// noise makes arbitrary bytes, biased to the bytes the scanner knows.
func noise(r *Rand, n int) string {
	const set = "abe0189.x'\"`\\/*#\n\r ;+-=<>&^|!:(){}[]?~@%i_"
	b := make([]byte, n)
	for i := range b {
		if r.P(85) {
			b[i] = set[r.N(len(set))]
		} else {
			b[i] = byte(r.N(256))
		}
	}
	return string(b)
}

// enum returns string number i over the alphabet, all lengths from 1 to n; "" when i is too big.
func enumCount(k, n int) int {
	t, p := 0, 1
	for i := 0; i < n; i++ {
		p *= k
		t += p
	}
	return t
}

func enumString(alpha []string, i int) string {
	k := len(alpha)
	n, p := 1, k
	for i >= p {
		i -= p
		p *= k
		n++
	}
	var b strings.Builder
	for ; n > 0; n-- {
		b.WriteString(alpha[i%k])
		i /= k
	}
	return b.String()
}

func split(s string) []string { return strings.Split(s, "") }

func q(s string) string { return strconv.Quote(s) }

package main

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Gen makes command texts. All randomness comes from its source.
type Gen struct {
	*rand.Rand
	mined   []int    // integers found in the sources, and their neighbours
	words   []string // string literals found in the sources
	maxCnt  int      // largest literal for numbers of dice
	maxDeep int
	wide    bool // now and then something large
}

// size is a number from 0 to n; in a wide trace it may be much larger.
func (g *Gen) size(n int) int {
	if g.wide && g.p(25) {
		return []int{17, 32, 33, 64, 65, 100, 128, 129, 200, 255, 256, 257, 300, 513}[g.Intn(14)]
	}
	return g.Intn(n + 1)
}

// each calls f from 0 to n times, or many more times in a wide trace; what f
// makes is not wide in turn then.
func (g *Gen) each(n int, f func()) {
	k, w := g.size(n), g.wide
	if k > n {
		g.wide = false
	}
	for ; k > 0; k-- {
		f()
	}
	g.wide = w
}

func (g *Gen) pickInt(ns ...int) int { return ns[g.Intn(len(ns))] }

// many is a number of dice beyond the usual.
func (g *Gen) many() int {
	return []int{64, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 501, 512, 513, 1000, 1001, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049, 3000, 4096, 4097, 5001}[g.Intn(29)]
}

// wideCommand is a command with very many dice, rolls, terms or items.
func (g *Gen) wideCommand(f string) string {
	n, m := strconv.Itoa(g.many()), strconv.Itoa(g.many())
	q := g.pick("2", "3", "6", "6", "10", "100", "257", "1000", "65537")
	end := ""
	if strings.HasSuffix(f, "comp") {
		end = g.cmp() + g.pick("4", "200", "256", n, "-1", "-9223372036854775807")
	}
	th := "[" + g.pick(q, q, "5") + "]"
	if q == "2" || q == "3" || th == "[5]" && q == "10" {
		// not too many rerolls
		th = "[" + g.pick("6", "11") + "]"
	}
	terms := func(first, sep string, k int, f func() string) string {
		s := first
		for ; k > 0; k-- {
			s += sep + f()
		}
		return s
	}
	k := 20 + g.Intn(90)
	switch f {
	case "choice":
		return g.pick("CHOICE", "choice") + "[" + terms(g.item(), ",", g.pickInt(30, 127, 128, 254, 255, 256, 299, 300, 511, 512, 600)+g.Intn(40)*g.Intn(2), func() string { return g.pick("a", "b", "c", "剣") + g.small(0, 999) }) + "]"
	case "calc":
		return "C(" + terms(g.small(0, 99), "", k, func() string { return g.pick("+", "+", "-", "*1*", "/1*", "*2/2+", "-(1+2)*") + g.small(1, 99) }) + ")"
	case "dexpr", "dcomp", "range":
		switch g.Intn(4) {
		case 0:
			return n + "D" + q + end
		case 1:
			return n + "D" + q + g.pick("+", "-") + g.small(1, 40) + "D6" + end
		case 2:
			return g.small(17, 70) + "D" + q + g.pick("+", "-", "+2*", "-3*") + g.small(17, 70) + "D" + q + "+" + g.small(1, 9) + end
		}
		return terms("1D"+q, "", k/2, func() string {
			return g.pick("+", "-", "+2*") + g.pick("1D6", "2D6", g.small(1, 9), g.rng(1, 4))
		}) + end
	case "blist", "bcomp":
		switch g.Intn(3) {
		case 0:
			return n + "B" + q + end
		case 1:
			return n + "B" + q + "+" + g.small(1, 70) + "B" + g.pick("6", q) + end
		}
		return terms("1B"+q, "+", k, func() string { return g.small(1, 4) + "B" + g.small(2, 300) }) + end
	case "rlist", "rcomp":
		if g.p(50) {
			return n + "R" + q + th + end
		}
		return terms("1R"+q, "+", k, func() string { return g.small(1, 3) + "R6" }) + "[6]" + end
	case "uexpr", "ucomp":
		switch g.Intn(3) {
		case 0:
			return n + "U" + q + th + g.pick("", "+1", "-"+m) + end
		case 1:
			return terms("1U"+q, "+", k, func() string { return g.small(1, 3) + "U6" }) + th + g.bonus() + end
		}
		return "3U" + q + th + terms("", "", k, func() string { return g.pick("+", "-") + g.small(1, 9) }) + end
	}
	return g.oneOf([]string{f})
}

func newGen(seed int64) *Gen {
	g := &Gen{Rand: rand.New(rand.NewSource(seed)), maxCnt: 12, maxDeep: 3}
	g.mine("/repo")
	return g
}

// newGenFrom is another generator, with what g has found in the sources.
func newGenFrom(g *Gen, seed int64) *Gen {
	h := *g
	h.Rand = rand.New(rand.NewSource(seed))
	return &h
}

var intRe = regexp.MustCompile(`\b[0-9]{1,9}\b`)
var strRe = regexp.MustCompile(`"([^"\\\n]{1,12})"`)

// mine collects the constants of the sources: a behaviour that is special for
// one value or word names it somewhere.
func (g *Gen) mine(root string) {
	ints := map[int]bool{}
	words := map[string]bool{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() && fi.Name() == ".git" {
			return filepath.SkipDir
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := ioutil.ReadFile(p)
		if err != nil {
			return nil
		}
		src := string(b)
		if strings.HasSuffix(p, "parser/parser.go") {
			// mostly positions of the grammar; its constants are in the action code
			if i := strings.Index(src, "func (c *current)"); i >= 0 {
				src = src[i:]
			}
		}
		for _, m := range intRe.FindAllString(src, -1) {
			if n, err := strconv.Atoi(m); err == nil && n <= 20000 {
				ints[n] = true
			}
		}
		for _, m := range strRe.FindAllStringSubmatch(src, -1) {
			words[m[1]] = true
		}
		return nil
	})
	for n := range ints {
		for _, d := range []int{-1, 0, 1} {
			if n+d >= 0 {
				g.mined = append(g.mined, n+d)
			}
		}
	}
	sort.Ints(g.mined)
	for w := range words {
		g.words = append(g.words, w)
	}
	sort.Strings(g.words)
}

func (g *Gen) pick(ss ...string) string { return ss[g.Intn(len(ss))] }
func (g *Gen) p(percent int) bool       { return g.Intn(100) < percent }

var bigInts = []string{
	"99", "100", "101", "255", "256", "999", "1000", "9999", "10000", "10001", "65535", "65536",
	"99999999", "100000000", "2147483647", "2147483648", "4294967296", "9007199254740991", "9007199254740993",
	"4611686018427387903", "4611686018427387904", "9223372036854775806", "9223372036854775807",
}

// lit is an integer literal of any size.
func (g *Gen) lit() string {
	switch n := g.Intn(100); {
	case n < 62:
		return strconv.Itoa(g.Intn(13))
	case n < 80:
		return strconv.Itoa(g.Intn(120))
	case n < 90:
		return strconv.Itoa(g.mined[g.Intn(len(g.mined))])
	case n < 93:
		return "0" + strconv.Itoa(g.Intn(50))
	case n < 97:
		return strconv.Itoa(g.Intn(1000000))
	default:
		return bigInts[g.Intn(len(bigInts))]
	}
}

func (g *Gen) small(lo, hi int) string { return strconv.Itoa(lo + g.Intn(hi-lo+1)) }

// expr is an expression over the primaries prim, of the depth given.
func (g *Gen) expr(d int, prim func() string) string {
	if d <= 0 || g.p(22) {
		return g.primary(d, prim)
	}
	n := 1 + g.Intn(3)
	s := g.primary(d-1, prim)
	for i := 0; i < n; i++ {
		switch g.Intn(6) {
		case 0, 1:
			s += "+" + g.primary(d-1, prim)
		case 2:
			s += "-" + g.primary(d-1, prim)
		case 3:
			s += "*" + g.primary(d-1, prim)
		default:
			s += "/" + g.primary(d-1, prim) + g.pick("", "", "r", "R", "u", "U")
		}
	}
	return s
}

func (g *Gen) primary(d int, prim func() string) string {
	if d > 0 {
		switch g.Intn(10) {
		case 0, 1:
			return "-" + g.primary(d-1, prim)
		case 2:
			return "+" + g.primary(d-1, prim)
		case 3, 4, 5:
			return "(" + g.expr(d-1, prim) + ")"
		}
	}
	return prim()
}

func (g *Gen) intExpr(d int) string { return g.expr(d, g.lit) }

// rangeBound is a bound of an embedded range.
func (g *Gen) rangeBound(lo, hi int) string {
	n := lo + g.Intn(hi-lo+1)
	if n < 0 {
		return fmt.Sprintf("(%d)", n)
	}
	switch g.Intn(8) {
	case 0:
		k := g.Intn(5)
		return fmt.Sprintf("(%d+%d)", n-n%2, n%2+k-k)
	case 1:
		return fmt.Sprintf("(%d*1)", n)
	}
	return strconv.Itoa(n)
}

func (g *Gen) rng(lo, hi int) string {
	a := lo + g.Intn(hi-lo+1)
	b := a + 1 + g.Intn(6)
	if g.p(8) {
		b = a - g.Intn(3)
	}
	return "[" + g.rangeBound(a, a) + "..." + g.rangeBound(b, b) + "]"
}

// bigRange is an embedded range of very many integers.
func (g *Gen) bigRange() string {
	edges := []int{-1 << 61, -1<<40 - 3, -1 << 32, -1<<31 - 1, -65537, -256, -1, 0, 1, 2, 255, 256, 9999, 10000, 10001, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32,
		1<<32 + 4, 3 << 32, 1<<40 + 7, 1 << 53, 1<<53 + 1, 1 << 61}
	i := g.Intn(len(edges) - 1)
	j := i + 1 + g.Intn(len(edges)-i-1)
	if edges[i] >= edges[j] {
		i, j = j, i
	}
	return "[" + g.rangeBound(edges[i], edges[i]) + "..." + g.rangeBound(edges[j], edges[j]) + "]"
}

// count is an operand for a number of dice.
func (g *Gen) count() string {
	c := func() string {
		if g.p(3) {
			return strconv.Itoa(g.Intn(60))
		}
		return g.small(1, 4)
	}
	switch g.Intn(20) {
	case 0, 1:
		return g.rng(1, 4)
	case 2, 3, 4:
		return "(" + g.expr(1, c) + ")"
	case 5:
		return "(" + g.expr(1, func() string {
			if g.p(50) {
				return g.rng(1, 3)
			}
			return c()
		}) + ")"
	case 6:
		if g.p(50) {
			return "0"
		}
		return "(1-2)"
	}
	if g.p(4) {
		return strconv.Itoa(g.Intn(g.maxCnt * 10))
	}
	return strconv.Itoa(1 + g.Intn(g.maxCnt)/(1+g.Intn(4)))
}

// faces is an operand for a number of faces.
func (g *Gen) faces() string {
	switch g.Intn(20) {
	case 0:
		if g.p(15) {
			return g.bigRange()
		}
		return g.rng(1, 8)
	case 1, 2:
		return "(" + g.expr(1, func() string { return g.small(1, 9) }) + ")"
	case 3:
		return "(" + g.rng(2, 5) + g.pick("+", "*", "-") + g.small(1, 3) + ")"
	case 4:
		return g.lit()
	case 5:
		return g.pick("0", "1", "(0-3)", "1")
	case 6:
		if g.p(60) {
			return g.pick("255", "256", "257", "300", "512", "1000", "65537", "100000", "1000000", "2147483648", "4294967297")
		}
	}
	return g.pick("2", "3", "4", "6", "6", "6", "8", "10", "10", "20", "100")
}

func (g *Gen) letter(c string) string {
	if g.p(30) {
		return strings.ToLower(c)
	}
	return c
}

func (g *Gen) roll(c string) string { return g.count() + g.letter(c) + g.faces() }

func (g *Gen) rolls(c string) string {
	n := 1 + g.Intn(3)/(1+g.Intn(2))
	rs := make([]string, n)
	for i := range rs {
		rs[i] = g.roll(c)
	}
	return strings.Join(rs, "+")
}

func (g *Gen) cmp() string { return g.pick("=", "<>", "<", "<=", ">", ">=", ">=") }

func (g *Gen) target() string {
	switch g.Intn(7) {
	case 0:
		return g.intExpr(2)
	case 6:
		if g.p(40) {
			return g.pick("-", "-", "") + bigInts[g.Intn(len(bigInts))]
		}
		return g.pick("-9223372036854775807", "9223372036854775807", "-9223372036854775807-1", "-4611686018427387905", "-2147483649", "4294967296",
			"-4294967290", "255", "256", "257", "65536")
	case 1:
		return g.pick("-", "(-", "(1-") + g.small(1, 9) + ""
	}
	return g.small(0, 12)
}

func (g *Gen) targetOK() string {
	t := g.target()
	if strings.Count(t, "(") > strings.Count(t, ")") {
		t += ")"
	}
	return t
}

func (g *Gen) threshold() string {
	switch g.Intn(12) {
	case 0:
		return "[" + g.small(-0, 2) + "]"
	case 1:
		return "[" + g.intExpr(1) + "]"
	case 2:
		return "[(" + g.small(1, 9) + g.pick("/", "-", "+") + g.small(1, 4) + ")]"
	case 3:
		return ""
	}
	return "[" + g.small(3, 8) + "]"
}

func (g *Gen) bonus() string {
	s := ""
	for n := g.Intn(4); n > 0; n-- {
		s += g.pick("+", "-") + g.expr(g.Intn(2), func() string { return g.small(0, 12) })
	}
	return s
}

func (g *Gen) item() string {
	n := 1 + g.Intn(6)
	s := ""
	for i := 0; i < n; i++ {
		s += g.pick("a", "b", "X", "1", "9", "剣", "魔法", "é", "(", ")", "[", "-", "+", "D", ".", " ", "　", "\u00a0",
			"!", "\ufffd", "#", "'", "\\", "\"", ";", ":", "/", "%", "%d", "😀", "\u200b", "ー")
	}
	if g.p(10) && len(g.words) > 0 {
		s += strings.NewReplacer(",", "", "]", "").Replace(g.words[g.Intn(len(g.words))])
	}
	return g.blank() + s + g.blank()
}

func (g *Gen) blank() string {
	if g.p(70) {
		return ""
	}
	return g.pick(" ", "  ", "　", "\u00a0", "\t", " \t", "\u2003", "\u2028", "\r", "\n", "\u0085", "\v")
}

func (g *Gen) choice() string {
	n := 1 + g.Intn(6)/(1+g.Intn(2))
	if g.p(2) {
		n = 10 + g.Intn(30)
	}
	it := make([]string, n)
	for i := range it {
		it[i] = g.item()
	}
	s := g.pick("CHOICE[", "CHOICE[", "choice[", "Choice[", "cHoIcE[") + strings.Join(it, ",")
	if g.p(15) {
		s += "," + g.pick("", " ", "　 ", "  ")
	}
	return s + "]"
}

func (g *Gen) sumPrim() string {
	switch g.Intn(10) {
	case 0, 1, 2, 3, 4:
		return g.roll("D")
	case 5:
		if g.p(15) {
			return g.bigRange()
		}
		return g.rng(-5, 9)
	}
	return g.small(0, 12)
}

func (g *Gen) sumExpr() string {
	for {
		s := g.expr(g.Intn(g.maxDeep+1), g.sumPrim)
		if strings.ContainsAny(s, "Dd[") {
			return s
		}
	}
}

var families = []string{"calc", "choice", "dexpr", "dcomp", "blist", "bcomp", "rlist", "rcomp", "uexpr", "ucomp"}

// command is a sentence of the notation of the family given.
func (g *Gen) command(f string) string {
	switch f {
	case "calc":
		return g.letter("C") + "(" + g.intExpr(1+g.Intn(g.maxDeep)) + ")"
	case "choice":
		return g.choice()
	case "dexpr":
		return g.sumExpr()
	case "dcomp":
		return g.sumExpr() + g.cmp() + g.targetOK()
	case "blist":
		return g.rolls("B")
	case "bcomp":
		return g.rolls("B") + g.cmp() + g.targetOK()
	case "rlist":
		return g.rolls("R") + g.threshold()
	case "rcomp":
		th := ""
		if g.p(50) {
			th = g.threshold()
		}
		return g.rolls("R") + th + g.cmp() + g.targetOK()
	case "uexpr":
		return g.rolls("U") + g.threshold() + g.bonus()
	case "ucomp":
		return g.rolls("U") + g.threshold() + g.bonus() + g.cmp() + g.targetOK()
	}
	panic("unknown family " + f)
}

func (g *Gen) family() string { return families[g.Intn(len(families))] }

// decorate adds a secret mark or text after a blank.
func (g *Gen) decorate(s string, percent int) string {
	if g.p(percent) {
		s = g.pick("S", "s") + s
	} else if g.p(1 + percent/5) {
		s = g.pick(strange...) + s
	}
	if g.p(percent) {
		s += g.pick(" ", "\t", "\n", "\r", "\f", "  ") + g.trailing()
	}
	return s
}

func (g *Gen) trailing() string {
	switch g.Intn(6) {
	case 0:
		return g.command(g.family())
	case 1:
		return g.pick("+1", ">=3", "]", ")", "-2D6", "[3]")
	case 2:
		return g.pick("攻撃", "attack roll", "(メモ)", "S", "　", "")
	case 3:
		return g.item()
	}
	return g.pick("hit", "2", "x y z", "\t", "= 5", "S2D6")
}

// characters that are, but for their case or width, others
var strange = []string{"ſ", "Ｓ", "ｓ", "$", "ß", "ś", "Ѕ", "ѕ", "ẞ", "\u212a", "ı", "５", "+", "C", "SS", "Ss", "sS", "\ufeff", "\u00a0", "\u200b", "\u0345", "\u03f2", "\u1d05"}

var noise = []string{"ſ", "\u212a", "ı", "Ｓ", "−", "／", "＞", "×",
	"+", "-", "*", "/", "(", ")", "[", "]", "...", "..", ".", ",", "=", "<", ">", "<>", "<=", ">=",
	"D", "d", "B", "b", "R", "r", "U", "u", "C", "c", "CHOICE", "choice[", "C(", "S", "s", " ", "\t", "　",
	"0", "1", "2", "6", "10", "[1...3]", "2D6", "2B6", "2R6", "2U6", "[3]", "x", "!", "#", "@", "剣", "１", "Ｄ", "\n"}

// spoilt is s with a byte in it that is no part of a character.
func (g *Gen) spoilt(s string) string {
	i := g.Intn(len(s) + 1)
	return s[:i] + g.pick("\xff", "\x80", "\xc0\xaf", "\xe3\x81", "\xed\xa0\x80", "\xf0\x9f", "\ufffd") + s[i:]
}

// garbage is a text that may or may not be a command.
func (g *Gen) garbage() string {
	if g.p(12) {
		return g.spoilt(g.decorate(g.command(g.pick("choice", "choice", g.family())), 30))
	}
	switch g.Intn(5) {
	case 0: // token soup
		s := ""
		for n := 1 + g.Intn(7); n > 0; n-- {
			s += noise[g.Intn(len(noise))]
		}
		return s
	default: // a damaged command
		s := []rune(g.command(g.family()))
		for n := 1 + g.Intn(2); n > 0; n-- {
			i := g.Intn(len(s) + 1)
			switch g.Intn(4) {
			case 0:
				s = append(s[:i:i], append([]rune(noise[g.Intn(len(noise))]), s[i:]...)...)
			case 1:
				if i < len(s) {
					s = append(s[:i:i], s[i+1:]...)
				}
			case 2:
				if i < len(s) {
					s[i] = []rune(noise[g.Intn(len(noise))])[0]
				}
			case 3:
				j := g.Intn(len(s) + 1)
				if i < j {
					s = append(append(s[:i:i], s[j:]...), s[i:j]...)
				}
			}
			if len(s) == 0 {
				return ""
			}
		}
		return string(s)
	}
}

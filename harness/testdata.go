package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/raa0121/GoBCDice/pkg/core/dice"
	dbtest "github.com/raa0121/GoBCDice/pkg/dicebot/testing"
)

type caseJ struct {
	Game   string   `json:"game"`
	Index  int      `json:"index"`
	Input  []string `json:"input"`
	Output string   `json:"output"`
	Dice   []DieJ   `json:"dice"`
}

func casesJ(cs []*dbtest.DiceBotTestCase) []caseJ {
	r := []caseJ{}
	for _, c := range cs {
		in := []string{}
		r = append(r, caseJ{c.GameID, c.Index, append(in, c.Input...), c.Output, diceJ(c.Dice)})
	}
	return r
}

// reading runs f and notes how it ended.
func reading(ev Event, f func() error) Event {
	var err error
	bad := guarded(func() { err = f() })
	switch {
	case bad != "":
		ev["out"] = bad
	case err != nil:
		ev["out"] = "error"
	default:
		ev["out"] = "ok"
	}
	return ev
}

func readDice(s string) Event {
	ev := Event{"e": "dice", "t": text(s), "dice": []DieJ{}}
	return reading(ev, func() error {
		ds, err := dbtest.ParseDice(s)
		if err == nil {
			ev["dice"] = diceJ(ds)
		}
		return err
	})
}

func readCase(s, game string, index int) Event {
	ev := Event{"e": "case", "t": text(s), "game": game, "index": index, "cases": []caseJ{}}
	return reading(ev, func() error {
		c, err := dbtest.Parse(s, game, index)
		if err == nil {
			ev["cases"] = casesJ([]*dbtest.DiceBotTestCase{c})
		}
		return err
	})
}

func writeFile(name, s string) string {
	dir, err := os.Getwd()
	if err != nil {
		fail(err)
	}
	p := filepath.Join(dir, name)
	if err := ioutil.WriteFile(p, []byte(s), 0600); err != nil {
		fail(err)
	}
	return p
}

func readFile(s, game string) Event {
	p := writeFile("data.txt", s)
	ev := Event{"e": "file", "t": text(s), "game": game, "cases": []caseJ{}}
	return reading(ev, func() error {
		cs, err := dbtest.ParseFile(p, game)
		if err == nil {
			ev["cases"] = casesJ(cs)
		}
		return err
	})
}

func readFiles(fs []string, there []bool, game string) Event {
	var ps []string
	ts := []Text{}
	for i, s := range fs {
		p := writeFile(fmt.Sprintf("data%d.txt", i), s)
		if !there[i] {
			os.Remove(p)
		}
		ps = append(ps, p)
		ts = append(ts, text(s))
	}
	ev := Event{"e": "files", "fs": ts, "there": there, "game": game, "cases": []caseJ{}}
	return reading(ev, func() error {
		cs, err := dbtest.ParseFiles(ps, game)
		if err == nil {
			ev["cases"] = casesJ(cs)
		}
		return err
	})
}

// testTokens reads all strings of at most k tokens.
func testTokens(in string, k int, out string) {
	alphabets := map[string][]string{}
	type reply struct {
		Out   string  `json:"out"`
		Cases []caseJ `json:"cases"`
		Dice  []DieJ  `json:"dice"`
	}
	want := map[string]reply{}
	key := func(w string, q []int) string { return w + fmt.Sprint(q) }
	scanTLC(in, func(tag, js string) {
		if tag == "ALPHABET" {
			var x struct {
				W      string   `json:"w"`
				Tokens []string `json:"tokens"`
			}
			decode(js, &x)
			alphabets[x.W] = x.Tokens
		} else {
			var x struct {
				W string `json:"w"`
				Q []int  `json:"q"`
				X reply  `json:"x"`
			}
			decode(js, &x)
			want[key(x.W, x.Q)] = x.X
		}
	}, "ALPHABET", "ACCEPT")
	stats := map[string]int{}
	bad := []Trace{}
	var samples []string
	for _, w := range []string{"dice", "case", "file"} {
		var walk func(q []int, s string)
		walk = func(q []int, s string) {
			if hung || len(bad) > 3000 {
				return
			}
			var ev Event
			got := ""
			switch w {
			case "dice":
				ev = readDice(s)
				got = asJSON(ev["dice"])
			case "case":
				ev = readCase(s, "G", 7)
				got = asJSON(ev["cases"])
			default:
				ev = readFile(s, "G")
				got = asJSON(ev["cases"])
			}
			stats["cases"]++
			x, ok := want[key(w, q)]
			var same bool
			switch {
			case w == "dice" && hugeDie(s):
				// a known finding
				stats["left out: numbers beyond 64 bits"]++
				same = true
			case !ok:
				same = ev["out"] == "error"
			case x.Out == "any":
				stats["open"]++
				same = ev["out"] == "error" || ev["out"] == "ok"
			case w == "dice":
				same = ev["out"] == "ok" && got == asJSON(x.Dice)
			default:
				same = ev["out"] == "ok" && got == asJSON(x.Cases)
			}
			if ok && x.Out == "ok" {
				stats[w+" read"]++
				if stats[w+" read"]%101 == 7 && len(samples) < 9 {
					samples = append(samples, fmt.Sprintf("%q is %s", s, got))
				}
			}
			if !same {
				bad = append(bad, Trace{ev})
			}
			if len(q) < k {
				for j, t := range alphabets[w] {
					walk(append(q[:len(q):len(q)], j+1), s+t)
				}
			}
		}
		walk([]int{}, "")
	}
	writeOut(out, bad, stats, samples)
}

func asJSON(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		fail(err)
	}
	return string(b)
}

// ---------------------------------------------------------------------------

func (g *Gen) line() string {
	if g.wide && g.p(3) {
		return strings.Repeat(g.pick("a", "剣 ", "2d6+"), []int{1000, 4095, 4096, 65535, 65536, 70000}[g.Intn(6)])
	}
	if g.p(40) {
		return g.spare(func() string { return g.decorate(g.command(g.family()), 10) })
	}
	return g.pick("", "2d6", "a", "input:", " input:", "outpu", "rand", "ran:", "x output:y", " rand:1/6", "====", "===========================",
		"=============================", "剣の世界", "1/6", "DiceBot : (2D6) ＞ 7[3,4] ＞ 7", "###secret dice###", "a\tb", " ", "a ", "\r", "%s%d", "\\n")
}

func oneLine(s string) string { return strings.Replace(s, "\n", " ", -1) }

// hugeDie tells whether there is a number beyond 64 bits in a list of dice (a known finding).
func hugeDie(s string) bool {
	for i := 0; i < len(s); {
		j := i
		for j < len(s) && digit(s[j]) {
			j++
		}
		if j > i {
			if _, err := strconv.ParseInt(s[i:j], 10, 64); err != nil {
				return true
			}
		}
		i = j + 1
	}
	return false
}

func (g *Gen) dieList() string {
	for {
		if s := g.anyDieList(); !hugeDie(s) {
			return s
		}
	}
}

func (g *Gen) anyDieList() string {
	var ds []string
	for n := g.size(4); n > 0; n-- {
		d := fmt.Sprintf("%d/%d", g.Intn(12), g.Intn(12))
		if g.p(10) {
			d = g.pick("9223372036854775807/9223372036854775807", "007/010", "100/100", "1000000/1000000000000")
		}
		d = g.pick("", "", " ", "  ", "\t") + d + g.pick("", "", "", " ")
		ds = append(ds, d)
	}
	s := strings.Join(ds, ",")
	if g.p(8) {
		// broken somewhere
		i := g.Intn(len(s) + 1)
		s = s[:i] + g.pick(",", "x", "-", "/", " ", "１", "9223372036854775808", "99999999999999999999", ",,", "1", "\v", "　") + s[i:]
	}
	return s
}

func (g *Gen) testCase() string {
	in := []string{oneLine(g.line())}
	var out []string
	g.each(3, func() { in = append(in, oneLine(g.line())) })
	g.each(3, func() { out = append(out, oneLine(g.line())) })
	s := "input:\n" + strings.Join(in, "\n") + "\noutput:" + g.pick("", "\n", "\n", "\n", "\n\n") + strings.Join(out, "\n") + "\nrand:" + g.dieList()
	if g.p(10) {
		// something added or missing
		ls := strings.Split(s, "\n")
		i := g.Intn(len(ls))
		switch g.Intn(4) {
		case 0:
			ls = append(ls[:i:i], ls[i+1:]...)
		case 1:
			ls[i] = g.line()
		case 2:
			ls = append(ls[:i:i], append([]string{g.pick("", "output:", "rand:", "input:", "rand:1/6")}, ls[i:]...)...)
		default:
			if len(ls[i]) > 0 {
				ls[i] = ls[i][1:]
			}
		}
		s = strings.Join(ls, "\n")
	}
	return strings.ToValidUTF8(s, "?")
}

const divider = "\n============================\n"

func (g *Gen) testFile() string {
	cs := []string{g.testCase()}
	g.each(3, func() { cs = append(cs, g.testCase()) })
	d := divider
	if g.p(5) {
		d = g.pick("\n===========================\n", "\n=============================\n", "\n============================ \n", divider+"\n", "\n\n============================\n", divider+divider[1:])
	}
	s := strings.Join(cs, d)
	return g.pick("", "", "", "", "", "\n", divider) + s + g.pick("", "\n", "\n", "\n\n", "\n\n\n", " ", divider)
}

func driveTestData(g *Gen, i int) Trace {
	t := Trace{}
	game := func() string { return g.pick("DiceBot", "Cthulhu", "", "剣") }
	for j := 0; j < 8 && !hung; j++ {
		switch g.Intn(6) {
		case 0:
			t = append(t, readDice(strings.ToValidUTF8(g.dieList(), "?")))
		case 1:
			t = append(t, readCase(g.testCase(), game(), g.Intn(100)-1))
		case 2, 3:
			t = append(t, readFile(g.testFile(), game()))
		case 4:
			var fs []string
			there := []bool{}
			g.each(3, func() {
				if len(fs) < 30 {
					fs = append(fs, g.testFile())
					there = append(there, !g.p(4))
				}
			})
			if len(fs) > 1 && g.p(20) {
				fs[1] = fs[0]
			}
			t = append(t, readFiles(fs, there, game()))
		default:
			// written and read again
			ds := []dice.Die{}
			for n := g.size(5); n > 0; n-- {
				ds = append(ds, g.anyDie())
			}
			plain, spaced := dice.FormatDiceWithoutSpaces(ds), dice.FormatDice(ds)
			t = append(t, Event{"e": "format", "dice": diceJ(ds), "plain": plain, "spaced": spaced}, readDice(plain), readDice(spaced))
		}
	}
	return t
}

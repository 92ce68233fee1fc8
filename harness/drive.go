package main

import (
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"math/rand"
	"strings"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
)

// drivers make one trace each.
var drivers = map[string]func(g *Gen, i int) Trace{
	"P01":         driveRecognition,
	"P02":         driveFamilies(12, 0, "calc", "calc", "calc", "arith"),
	"P03":         driveFamilies(12, 0, "calc", "dexpr", "dcomp", "calc", "dexpr", "blist", "bcomp", "rlist", "rcomp", "uexpr", "ucomp", "choice"),
	"P04":         driveFamilies(12, 40, families...),
	"P05":         driveFamilies(12, 3, "dexpr", "dexpr", "dexpr", "dcomp"),
	"P06":         driveFamilies(12, 3, "dcomp", "dcomp", "dcomp", "dcomp", "dexpr", "bcomp", "ucomp", "rcomp"),
	"P07":         driveFamilies(12, 3, "blist", "bcomp", "bcomp"),
	"P08":         atLimit("R", driveFamilies(12, 3, "rlist", "rcomp")),
	"P09":         atLimit("U", driveFamilies(12, 3, "uexpr", "ucomp")),
	"P10":         driveFamilies(12, 3, "choice"),
	"P11":         driveFamilies(12, 6, "range"),
	"P12":         driveSecret,
	"P13":         driveFailures,
	"P14":         driveHistories,
	"P14.storm":   driveStorm(2500),
	"P14.race":    driveStorm(60),
	"P14.long":    driveLong(12000),
	"P15":         driveSources,
	"P16":         driveQueue,
	"P17":         driveShell,
	"P18":         driveRegistry,
	"P18.storm":   driveRegistryStorm(400),
	"P19":         driveTestData,
	"P20":         driveGames,
	"P20.objects": driveObjects,
	"P21":         driveTyped,
}

func traceSeed(prop string, seed int64, i int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", prop, seed, i)
	return int64(h.Sum64() >> 1)
}

func traces(prop string, seed int64, from, to int, out string) {
	drive := drivers[prop]
	if drive == nil {
		fail(fmt.Errorf("no driver for %s", prop))
	}
	g := newGen(0)
	ts := []Trace{}
	stats := map[string]int{}
	seen := map[string]bool{}
	var samples []string
	for i := from; i < to && !hung; i++ {
		g.Rand = rand.New(rand.NewSource(traceSeed(prop, seed, i)))
		g.wide = i%17 == 9
		journalPlace = fmt.Sprint(i)
		t := drive(g, i)
		for _, ev := range t {
			stats["events"]++
			if ev["op"] != nil {
				stats[fmt.Sprint(ev["op"])]++
			} else if ev["out"] == nil {
				stats[fmt.Sprint(ev["e"])]++
			} else {
				stats[fmt.Sprint(ev["e"], ".", ev["out"])]++
			}
			if ev["e"] != "exec" && len(samples) < 8 && stats["events"]%701 == 5 {
				e := clone(ev, fmt.Sprint(ev["e"]))
				if x, ok := e["t"].(Text); ok {
					e["t"] = strings.Join(x, "")
				}
				samples = append(samples, asJSON(e))
			}
			if ev["e"] == "exec" {
				k := fmt.Sprint(ev["b"], ev["D"])
				if !seen[k] {
					seen[k] = true
					stats["distinct executions"]++
				}
				if stats["events"]%1501 == 3 && len(samples) < 8 {
					samples = append(samples, fmt.Sprintf("%q with dice %v: %v %v", strings.Join(ev["t"].(Text), ""), short(ev["D"].([]Draw)), ev["out"], ev["msg"]))
				}
			}
		}
		ts = append(ts, t)
	}
	if stormRuns > 0 {
		stats["executions at the same time"] = stormRuns
	}
	writeOut(out, ts, stats, samples)
}

func (g *Gen) oneOf(fs []string) string {
	f := fs[g.Intn(len(fs))]
	switch f {
	case "range":
		for {
			if s := g.command(g.pick("dexpr", "dexpr", "dcomp", "blist", "bcomp", "rlist", "rcomp", "uexpr", "ucomp")); strings.Contains(s, "...") {
				return s
			}
		}
	case "arith":
		return g.arith()
	}
	return g.command(f)
}

// arith is a command with arithmetic in its operands but no ranges.
func (g *Gen) arith() string {
	e := func() string { return g.intExpr(1 + g.Intn(2)) }
	switch g.Intn(6) {
	case 0:
		// not too many dice: see the known findings
		n := g.expr(1, func() string { return g.small(0, 9) })
		return "(" + n + ")" + g.pick("D", "B") + g.pick("6", "("+e()+")")
	case 1:
		return "1B6" + g.cmp() + e()
	case 2:
		return "1D6" + g.cmp() + e()
	case 3:
		return "1R6[" + e() + "]"
	case 4:
		return "1U6[5]" + g.pick("+", "-") + e()
	}
	return g.pick("1D6", "2D6") + g.pick("+", "-", "*", "/") + "(" + e() + ")"
}

// driveFamilies makes executions of commands of certain families, some of them
// with a die source that fails.
func driveFamilies(n, faults int, fs ...string) func(g *Gen, i int) Trace {
	return func(g *Gen, i int) Trace {
		src := &Source{limit: 400}
		b := bcdice.New(src)
		t := Trace{}
		if g.wide {
			src.next, src.limit = randomDice(g.Rand), 12000
			if g.p(faults) {
				src.next = faultAt(src.next, g.many(), g.Intn(faultKinds))
			}
			ev, _ := exec(b, src, g.spare(func() string { return g.wideCommand(fs[g.Intn(len(fs))]) }))
			t = append(t, ev)
		}
		for j := 0; j < n && !hung; j++ {
			src.next, src.limit = randomDice(g.Rand), 60
			if g.p(5) {
				src.limit = 400
			}
			if g.p(faults) {
				src.next = faultAt(src.next, g.Intn(1+g.Intn(8)), g.Intn(faultKinds))
			}
			if g.p(faults) {
				src.limit = g.Intn(8)
			}
			s := g.spare(func() string {
				s := g.oneOf(fs)
				if g.p(2) {
					s = g.garbage()
				}
				return g.decorate(s, 4)
			})
			ev, _ := exec(b, src, s)
			t = append(t, ev)
		}
		return t
	}
}

// atLimit makes every so often an execution with as many rerolls as the limit
// allows, or about so many.
func atLimit(c string, drive func(g *Gen, i int) Trace) func(g *Gen, i int) Trace {
	return func(g *Gen, i int) Trace {
		if i%300 != 7 {
			return drive(g, i)
		}
		stop := []int{9998, 9999, 10000, 10001, 1 << 30, 1 << 30}[(i/300)%6]
		src := &Source{limit: 21000, next: func(q, j int) (dice.Die, error) {
			if j >= stop {
				return dice.Die{Value: 1, Sides: q}, nil
			}
			return dice.Die{Value: q, Sides: q}, nil
		}}
		s := g.pick("1"+c+"6[6]", "1"+c+"6[2]", "1"+c+"6[6]>=3", "1"+c+"2+1"+c+"3[2]", "1"+c+"2[2]=2")
		ev, _ := exec(bcdice.New(src), src, s)
		return Trace{ev}
	}
}

func (g *Gen) deep() string {
	n := 1 + g.Intn(14)
	if g.p(3) {
		n = 14 + g.Intn(30)
	}
	open := g.pick("(", "(", "-(", "1+(", "2*(", "1/(", "(1+", "+(")
	core := g.pick("1", "2D6", "1+1", "[1...2]", "1D(2)", "")
	close := strings.Repeat(")", n)
	if g.p(10) {
		close = close[1:]
	}
	if g.p(20) {
		close = strings.Repeat(g.pick(")R", ")U", ")/1", ")+1", ")*2"), n)
	}
	s := strings.Repeat(open, n) + core + close
	switch g.Intn(6) {
	case 0:
		return "C(" + s + ")"
	case 1:
		return s + "D6"
	case 2:
		return "2D6>=" + s
	case 3:
		return "2R6[" + s + "]"
	case 4:
		return "[" + s + "..." + s + "]D6"
	}
	return s
}

func driveRecognition(g *Gen, i int) Trace {
	t := Trace{}
	src := &Source{limit: 300, next: randomDice(g.Rand)}
	b := bcdice.New(src)
	for j := 0; j < 12 && !hung; j++ {
		var s string
		switch {
		case g.p(35):
			s = g.command(g.family())
		case g.p(8):
			s = g.deep()
		case g.wide && j < 2:
			s = g.spare(func() string { return g.wideCommand(g.family()) })
			if k := g.Intn(len(s)); g.p(40) {
				// broken somewhere
				s = strings.ToValidUTF8(s[:k]+g.pick("", "", "+", "(", "]", " ", "D", "x")+s[k+1:], "?")
			}
		default:
			s = g.garbage()
		}
		t = append(t, parse(s))
		if s = g.decorate(s, 25); g.p(35) && !hung && !tooMany(s) {
			ev, _ := exec(b, src, s)
			t = append(t, ev)
		}
	}
	return t
}

// spare gives a text, or another one should it ask for too many dice.
func (g *Gen) spare(f func() string) string {
	for {
		if s := f(); !tooMany(s) {
			return s
		}
	}
}

// enough is how many dice repeated texts can take, wherever they are executed.
const enough = 1000

// again executes a text with the dice of a stream.
func again(b *bcdice.BCDice, src *Source, s string, stream int64, at, kind int) Event {
	src.next, src.limit = streamDice(stream, at, kind), enough
	ev, _ := exec(b, src, s)
	ev["e"] = "again"
	ev["s"] = stream
	return ev
}

func (g *Gen) fault() (at, kind int) {
	if g.p(80) {
		return -1, 0
	}
	return g.Intn(5), g.Intn(faultKinds)
}

func driveSecret(g *Gen, i int) Trace {
	if i%8 == 5 {
		return driveGames(g, i)
	}
	t := Trace{}
	src := &Source{}
	b := bcdice.New(src)
	for j := 0; j < 4 && !hung; j++ {
		s := g.spare(func() string {
			if g.p(12) {
				return g.garbage()
			}
			if g.p(4) {
				return g.spoilt(g.choice())
			}
			if g.wide && j == 0 {
				return g.wideCommand(g.family())
			}
			return g.command(g.family())
		})
		at, kind := g.fault()
		stream := int64(j)*1000 + int64(g.Intn(1000))
		for k := 0; k < 5 && !hung; k++ {
			v := s
			if k > 1 {
				v = g.spare(func() string {
					v := s + g.pick(" ", "\t", "\n", "\r", "\f", "  ") + g.trailing()
					if g.wide && g.p(20) {
						v += strings.Repeat(g.pick("x", " ", "剣", " 2D6"), g.many())
					}
					if g.p(5) {
						v += g.spoilt("x")
					}
					return v
				})
			}
			if k == 1 || k == 4 || k == 3 && g.p(50) {
				v = g.pick("S", "s") + v
			} else if k > 1 && g.p(15) {
				v = g.pick(strange...) + v
			}
			t = append(t, again(b, src, v, stream, at, kind))
		}
	}
	return t
}

const soup = "0123456789DBRUCS()[]+-*/.,<>= \t\n"

func (g *Gen) bytes() string {
	n := 1 + g.Intn(20)
	b := make([]byte, n)
	for i := range b {
		switch g.Intn(3) {
		case 0:
			b[i] = byte(g.Intn(256))
		case 1:
			b[i] = byte(32 + g.Intn(95))
		default:
			b[i] = soup[g.Intn(len(soup))]
		}
	}
	return string(b)
}

// failing is a text that is likely to be refused or to fail.
func (g *Gen) failing() string {
	switch g.Intn(8) {
	case 0:
		return g.bytes()
	case 1, 2:
		return g.garbage()
	case 3:
		return g.pick("2D6/0", "10/(1D6-1)", "0D6", "2D0", "(1-2)D6", "2D(0-1)", "[3...1]D6", "[1...1]", "1B0", "0B6+2B6", "2B6+0B6", "1R0[2]",
			"0R6[2]", "1U0[2]", "0U6[2]", "2R6[1/0]", "2B6>=1/0", "2D6>=(1/0)", "C(1/0)", "C(0/0R)", "C(1/(2-2)U)", "[1...2]D0", "2D6+0D6",
			"2D6+3D(1-1)", "1R6+0R6[2]", "1U6+1U0[6]", "2U6[6]+1/0", "2U6[6]>=1/0", "2D[5...2]", "(1/0)D6", "2D6*(1/0)")
	case 4:
		return g.deep()
	}
	return g.command(g.family())
}

func driveFailures(g *Gen, i int) Trace {
	t := Trace{}
	src := &Source{}
	b := bcdice.New(src)
	for j := 0; j < 8 && !hung; j++ {
		s := g.spare(func() string { return g.decorate(g.failing(), 8) })
		at, kind := -1, 0
		if g.p(50) {
			at, kind = g.Intn(1+g.Intn(7)), g.Intn(faultKinds)
		}
		if g.wide && j < 2 {
			s = g.spare(func() string { return g.decorate(g.wideCommand(g.family()), 8) })
			if g.p(60) {
				at, kind = g.pickInt(g.many(), g.Intn(300), 255, 256), g.Intn(faultKinds)
			}
		}
		ev := again(b, src, s, int64(j), at, kind)
		t = append(t, ev, clone(ev, "exec"))
		if hung {
			break
		}
		// the same in a session that has seen nothing
		src2 := &Source{}
		t = append(t, again(bcdice.New(src2), src2, s, int64(j), at, kind))
	}
	return t
}

// one applies a single text, given in hexadecimal.
func one(what, hex string, out string) {
	var b []byte
	if strings.HasPrefix(hex, "@") {
		h, err := ioutil.ReadFile(hex[1:])
		if err != nil {
			fail(err)
		}
		hex = strings.TrimSpace(string(h))
	}
	if _, err := fmt.Sscanf(hex, "%x", &b); err != nil && hex != "" {
		fail(err)
	}
	src := &Source{limit: 300, next: streamDice(1, -1, 0)}
	var ev Event
	if what == "parse" {
		ev = parse(string(b))
	} else if what == "typed" {
		ev = typed(string(b))
	} else {
		ev, _ = exec(bcdice.New(src), src, string(b))
	}
	writeOut(out, []Trace{{ev}}, map[string]int{}, nil)
}

package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	osexec "os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"
)

// The shell is run as a process of its own, with its input and output piped.

const resultMark = "\x1b[36m=>\x1b[0m "

func shellPath() string {
	p := os.Getenv("SHELL_BINARY")
	if p == "" {
		fail(fmt.Errorf("SHELL_BINARY is not set"))
	}
	return p
}

// shells counts the shells run.
var shells int64

// endless counts the shells that did not end.
var endless int64

// patience is how long to wait for a shell, which takes some milliseconds.
func patience() time.Duration {
	switch n := atomic.LoadInt64(&endless); {
	case n < 4:
		return 15 * time.Second
	case n < 60:
		return 2 * time.Second
	}
	return 200 * time.Millisecond
}

// runShell runs the shell on the lines; the code is "0" if it ended by itself
// and without a complaint.
func runShell(lines []string) (out, code string) {
	dir, err := ioutil.TempDir(os.Getenv("SHELL_DIR"), "shell")
	if err != nil {
		fail(err)
	}
	defer os.RemoveAll(dir)
	n := atomic.AddInt64(&shells, 1)
	c := osexec.Command(shellPath())
	c.Dir = dir
	c.Env = []string{"HOME=" + dir, "TMPDIR=" + dir, "TERM=dumb", "LANG=C.UTF-8"}
	if n%2 == 0 {
		// earlier sessions were held in the same place
		h := "2D6\n.set-die-feeder queue\n.set-dice-queue 1/6\n.quit\n"
		ioutil.WriteFile(filepath.Join(dir, "GoBCDiceREPL_history.txt"), []byte(h), 0644)
	}
	var in, o, e bytes.Buffer
	for _, l := range lines {
		in.WriteString(l + "\n")
	}
	c.Stdin, c.Stdout, c.Stderr = &in, &o, &e
	if err := c.Start(); err != nil {
		fail(err)
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case err = <-done:
		code = "0"
		if err != nil {
			code = err.Error() + ": " + firstLine(e.String())
		}
	case <-time.After(patience()):
		atomic.AddInt64(&endless, 1)
		c.Process.Kill()
		<-done
		code = "did not end"
	}
	return strings.Replace(o.String(), "\x1b", "␛", -1), code
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// marker is a line whose answer tells apart the answers around it.
func marker(i int) (line, answer string) {
	return fmt.Sprintf(".ast C(7%07d)", i), fmt.Sprintf("%s(Calc 7%07d)\n", strings.Replace(resultMark, "\x1b", "␛", -1), i)
}

// session runs the shell on the lines with markers between them.
func session(lines []string) (greeting string, outs []string, rest, code string) {
	var in []string
	m, _ := marker(0)
	in = append(in, m)
	for i, l := range lines {
		m, _ = marker(i + 1)
		in = append(in, l, m)
	}
	out, code := runShell(in)
	cut := func(i int) string {
		_, a := marker(i)
		k := strings.Index(out, a)
		if k < 0 {
			r := out
			out = ""
			return r
		}
		r := out[:k]
		out = out[k+len(a):]
		return r
	}
	greeting = cut(0)
	for i := range lines {
		outs = append(outs, cut(i+1))
	}
	return greeting, outs, out, code
}

func shellTrace(lines []string) Trace {
	greeting, outs, rest, code := session(lines)
	t := Trace{{"e": "begin", "out": greeting}}
	for i, l := range lines {
		t = append(t, Event{"e": "line", "line": text(l), "t": text(l), "out": outs[i]})
	}
	t = append(t, Event{"e": "end", "code": code, "rest": rest})
	out, code := runShell(lines)
	return append(t, Event{"e": "whole", "code": code, "out": out})
}

// ShellAns is an answer of the specification.
type ShellAns struct {
	K  string   `json:"k"`
	S  string   `json:"s"`
	Ls []string `json:"ls"`
}

func (a ShellAns) fits(out string) bool {
	switch a.K {
	case "text":
		return out == a.S
	case "error":
		return strings.HasPrefix(out, "␛[31m") && strings.HasSuffix(out, "␛[0m\n") && strings.Count(out, "␛") == 2 && len(out) > len("␛[31m␛[0m\n")
	case "help":
		for _, l := range a.Ls {
			if !strings.Contains("\n"+out, "\n"+l+"\n") {
				return false
			}
		}
		return true
	case "any":
		return true
	}
	return false
}

// replayShell replays the sessions of the specification.
func replayShell(in, out string) {
	f, err := os.Open(in)
	if err != nil {
		fail(err)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	type job struct {
		First []string   `json:"first"`
		Lines []string   `json:"lines"`
		As    []ShellAns `json:"as"`
	}
	jobs := make(chan job, 100)
	stats := map[string]int{}
	bad := []Trace{}
	var samples []string
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for c := range jobs {
				lines := append(append([]string{}, c.First...), c.Lines...)
				greeting, outs, rest, code := session(lines)
				all, code2 := runShell(lines)
				good := code == "0" && code2 == "0" && rest == ""
				whole := greeting
				settled := true
				for j, o := range outs {
					whole += o
					if j < len(c.First) {
						good = good && o == "␛[36mOK␛[0m\n"
						continue
					}
					a := c.As[j-len(c.First)]
					good = good && a.fits(o)
					settled = settled && a.K != "any"
				}
				good = good && (!settled || whole == all)
				mu.Lock()
				stats["cases"]++
				stats["lines"] += len(lines)
				for j := range c.Lines {
					stats["answers "+c.As[j].K]++
				}
				if stats["cases"]%301 == 7 && len(samples) < 8 {
					samples = append(samples, asJSON(c.Lines))
				}
				n := len(bad)
				mu.Unlock()
				if !good && n < 200 {
					t := Trace{{"e": "begin", "out": greeting}}
					for j, l := range lines {
						t = append(t, Event{"e": "line", "line": text(l), "t": text(l), "out": outs[j]})
					}
					t = append(t, Event{"e": "end", "code": code, "rest": rest}, Event{"e": "whole", "code": code2, "out": all})
					mu.Lock()
					bad = append(bad, t)
					mu.Unlock()
				}
			}
		}()
	}
	for sc.Scan() {
		js, ok := asWritten(sc.Text(), "CASE")
		if !ok {
			continue
		}
		var c job
		if err := json.Unmarshal([]byte(js), &c); err != nil {
			fail(fmt.Errorf("%v: %s", err, js))
		}
		jobs <- c
	}
	close(jobs)
	wg.Wait()
	if err := sc.Err(); err != nil {
		fail(err)
	}
	writeOut(out, bad, stats, samples)
}

// ---------------------------------------------------------------------------

// shown is a line that can be typed: no control characters.
func shown(s string) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsControl(r) || r == '\ufffd' || r == '␛' {
			return -1
		}
		return r
	}, strings.ToValidUTF8(s, ""))
}

func (g *Gen) script() string {
	var ds []string
	for n := g.size(8); n > 0; n-- {
		q := []int{6, 6, 6, 10, 4, 2, 1, 3}[g.Intn(8)]
		v := 1 + g.Intn(q)
		if g.p(3) {
			v = []int{0, q + 1}[g.Intn(2)]
		}
		ds = append(ds, fmt.Sprintf("%d/%d", v, q))
	}
	s := strings.Join(ds, g.pick(",", ", ", ", ", " , "))
	if g.p(10) {
		return g.dieList()
	}
	return s
}

// scriptedCommand is a command with dice likely to be in a script.
func (g *Gen) scriptedCommand() string {
	return g.pick("2D6", "1D6", "3D6>=10", "2B6", "3B6>=4", "1R6[5]", "2R6>=5", "1U6[5]", "2U6[6]+1", "1D10", "1D6+1D10", "1D6/0", "2D6+1D4", "CHOICE[a,b]",
		"CHOICE[a,b,c]", "choice[x , y]", "[1...6]D6", "1D[2...4]", "C(7/2R)", "C(1/0)", "1D2*3", "1D1", "6D6", "1d6+1d6-1d6=3", "0D6", "2D0", "2R6", "1U6[1]") +
		g.pick("", "", "", " hit", " 2D6", "　x")
}

// randomCommand is a command with so few dice that they can be found from the reply.
func (g *Gen) randomCommand() string {
	n, m := g.small(1, 2), g.pick("2", "3", "6", "10", "12")
	return g.pick(n+"D"+m, n+"B"+m, n+"B"+m+">=2", n+"D"+m+"+1D2>=5", "CHOICE[a,b,c,d]", "[1...4]D1", "1D"+m+"*10-3", "1R12[12]", "1U12[12]", "C(3*4)", "1D"+m+"/0")
}

func (g *Gen) shellLine(scripted bool) string {
	arg := func(s string) string { return g.pick(" ", " ", " ", "  ") + s + g.pick("", "", "", " ") }
	switch x := g.Intn(100); {
	case x < 22:
		if scripted {
			return g.pick("", "", "", "S", "s") + g.scriptedCommand()
		}
		return g.pick("", "", "", "S", "s") + g.randomCommand()
	case x < 28:
		if scripted {
			return ".eval" + arg(g.scriptedCommand())
		}
		return ".eval" + arg(g.randomCommand())
	case x < 34:
		return g.spare(func() string { return g.decorate(g.command(g.family()), 10) })
	case x < 38:
		return g.spare(g.garbage)
	case x < 45:
		return ".ast" + arg(g.pick("S", "", "", "")+g.command(g.family()))
	case x < 47:
		return ".ast" + arg(g.garbage())
	case x < 60:
		q := g.pick("6", "6", "10", "4", "1")
		if !scripted {
			q = g.pick("6", "1", "100", "0", "1000000000000", "9223372036854775807")
		}
		n := strconv.Itoa(g.size(6))
		if g.p(10) {
			return ".roll" + arg(g.pick("", "2", "2D6", "2 6 1", "-1 6", "2 -6", "２ 6", "1 ６", "x y", "2  6", "02 06", "1 99999999999999999999", "99999999999999999999 1", "0 6", "3 0", "2,6"))
		}
		return ".roll" + arg(n+g.pick(" ", " ", "  ")+q)
	case x < 64:
		return ".set-die-feeder" + arg(g.pick("queue", "queue", "mt", "Queue", "MT", "mT", "", "random", "queue mt"))
	case x < 78:
		return ".set-dice-queue" + arg(g.script())
	case x < 83:
		return ".set-game" + g.pick("", "", arg("DiceBot"), arg("dicebot"), arg("DiceBot x"), arg("Cthulhu"), arg("_"), arg("Dice Bot"))
	case x < 86:
		return ".list-games"
	case x < 88:
		return ".help"
	case x < 89:
		return g.pick(".quit", ".q", " .q ", ".quit ")
	case x < 94:
		return g.pick(".", "..", ".foo", ".q 2D6", ".Q", ".QUIT", ".ast.", ".AST 1D6", ". eval 1D6", "q", "quit", "help", ".evaluate 1D6", ".eva 1D6", ".qu", ".set", ".set-", "exit", ".-", ".help-", ".roll6", ".exit")
	}
	return g.pick("", "", " ", "　", ".ast ", ".eval ", ".eval　2D6", "　2D6", " 1D6 ")
}

func driveShell(g *Gen, i int) Trace {
	var lines []string
	n := 6 + g.Intn(25)
	if g.wide {
		n = 150 + g.Intn(150)
		if g.p(25) {
			n = 1200
		}
	}
	if i%20 == 3 {
		// different dice in every session and after every change of the source
		d := ".roll 10 1000000000000"
		lines = []string{d, d, ".set-die-feeder mt", d, ".set-die-feeder queue", ".set-die-feeder mt", d}
		t := shellTrace(lines)
		outs := []string{}
		for j := 0; j < 3; j++ {
			if j > 0 {
				_, os, _, _ := session(lines)
				for k, o := range os {
					if lines[k] == d {
						outs = append(outs, o)
					}
				}
				continue
			}
			for _, ev := range t {
				if ev["e"] == "line" && strings.Join(ev["line"].(Text), "") == d {
					outs = append(outs, ev["out"].(string))
				}
			}
		}
		return append(t, Event{"e": "distinct", "outs": outs})
	}
	if i == 5 {
		// a very long line is a line like any other
		g.wide = false
		return shellTrace([]string{"C(1+2) " + strings.Repeat("x", 66000), "C(4)", ".set-game DiceBot"})
	}
	scripted := false
	if g.p(70) {
		scripted = true
		lines = append(lines, ".set-die-feeder queue", ".set-dice-queue "+shown(g.script()))
	}
	for len(lines) < n {
		l := shown(g.shellLine(scripted))
		if strings.HasPrefix(strings.TrimSpace(l), ".set-die-feeder") {
			// follow what it does, to aim the lines to come
			low := strings.ToLower(l)
			if strings.HasSuffix(strings.TrimSpace(low), " queue") {
				scripted = true
			} else if strings.HasSuffix(strings.TrimSpace(low), " mt") {
				scripted = false
			}
		}
		lines = append(lines, l)
	}
	return shellTrace(lines)
}

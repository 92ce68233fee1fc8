package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/raa0121/GoBCDice/pkg/core/ast"
	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/dice/roller"
	"github.com/raa0121/GoBCDice/pkg/core/evaluator"
	"github.com/raa0121/GoBCDice/pkg/core/notation"
	"github.com/raa0121/GoBCDice/pkg/core/parser"
)

// typed records what is written for the command of a text: its infix notation
// x, whether that says the same a second time and leaves the command as it was,
// and the command that is read from it (y its structure, or its items).
func typed(s string) Event {
	journal("typed", s)
	ev := Event{"e": "typed", "t": text(s), "b": fmt.Sprintf("%x", s), "x": "", "y": "", "items": []Text{}, "same": false, "out": "error"}
	bad := guarded(func() {
		v, err := parser.Parse("input", []byte(s))
		if err != nil {
			return
		}
		n := v.(ast.Node)
		before := n.SExp()
		x, err := notation.InfixNotation(n, true)
		if err != nil {
			ev["out"], ev["x"] = "not written", err.Error()
			return
		}
		again, err := notation.InfixNotation(n, true)
		ev["out"], ev["x"] = "typed", x
		ev["same"] = err == nil && again == x && n.SExp() == before
		if u, err := parser.Parse("input", []byte(s)); !tooMany(s) && err == nil {
			// executed after it was written, it does what it would have done
			ev["same"] = ev["same"] == true && runNode(n, s) == runNode(u.(ast.Node), s)
		}
		w, err := parser.Parse("input", []byte(x))
		if err != nil {
			ev["y"] = "refused"
			return
		}
		if c, ok := w.(*ast.Choice); ok {
			items := []Text{}
			for _, i := range c.Items {
				items = append(items, text(i.Value))
			}
			ev["items"] = items
		} else {
			ev["y"] = w.(ast.Node).SExp()
		}
	})
	if bad != "" {
		ev["out"] = bad
	}
	journal("driver", s)
	return ev
}

func runNode(n ast.Node, s string) string {
	src := &Source{limit: 60, next: streamDice(int64(len(s)), -1, 0)}
	ev, _ := record(src, s, "DiceBot", func() (*command.Result, error) {
		return command.Execute(n, "DiceBot", evaluator.NewEvaluator(roller.New(src), evaluator.NewEnvironment()))
	})
	journal("typed", s)
	return fmt.Sprint(ev["out"], ev["nores"], ev["msg"], ev["verdict"], ev["dice"], ev["D"])
}

func driveTyped(g *Gen, i int) Trace {
	t := Trace{}
	for j := 0; j < 10 && !hung; j++ {
		t = append(t, typed(func() string {
			switch {
			case g.wide && j < 3:
				return g.wideCommand(g.family())
			case g.p(20):
				return g.pick("", "[1...5]+", "-") + g.expr(3, g.sumPrim) + g.pick("", ">=2", "=2*(3-1)")
			case g.p(5):
				return g.garbage()
			}
			return g.command(g.family())
		}()))
	}
	return t
}

// replayTyped writes the commands of the specification and keeps those for
// which something else is written.
func replayTyped(in, out string) {
	stats := map[string]int{}
	bad := []Trace{}
	var samples []string
	scanTLC(in, func(tag, js string) {
		var c struct {
			T Text `json:"t"`
			X struct {
				Out   string `json:"out"`
				X     string `json:"x"`
				Y     string `json:"y"`
				Items []Text `json:"items"`
			} `json:"x"`
		}
		decode(js, &c)
		if len(bad) > 3000 {
			return
		}
		stats["cases"]++
		stats["out."+c.X.Out]++
		s := strings.Join(c.T, "")
		ev := typed(s)
		same := ev["out"] == c.X.Out
		if same && c.X.Out == "typed" {
			items := ev["items"].([]Text)
			same = ev["x"] == c.X.X && ev["y"] == c.X.Y && ev["same"] == true && len(items) == len(c.X.Items) && (len(items) == 0 || reflect.DeepEqual(items, c.X.Items))
		}
		if !same {
			bad = append(bad, Trace{ev})
		} else if stats["cases"]%4001 == 99 {
			samples = append(samples, fmt.Sprintf("%s is written %s", s, ev["x"]))
		}
	}, "CASE")
	writeOut(out, bad, stats, samples)
}

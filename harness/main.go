package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
)

var journalFile *os.File
var journalPlace string

// journal notes the stimulus about to be applied, so that it is known should
// the process not survive it.
func journal(what, s string) {
	if journalFile == nil {
		return
	}
	b, _ := json.Marshal(map[string]interface{}{"place": journalPlace, "what": what, "text": s, "bytes": fmt.Sprintf("%x", s), "t": text(s)})
	b = append(b, '\n')
	journalFile.WriteAt(b, 0)
	journalFile.Truncate(int64(len(b)))
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, "harness:", err)
	os.Exit(3)
}

func writeJSON(path string, v interface{}) {
	f, err := os.Create(path)
	if err != nil {
		fail(err)
	}
	w := bufio.NewWriter(f)
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	if err := enc.Encode(v); err != nil {
		fail(err)
	}
	w.Flush()
	f.Close()
}

// writeOut writes traces to out and what is known about them to out.info
func writeOut(out string, ts []Trace, stats map[string]int, samples []string) {
	writeJSON(out, ts)
	if hung {
		stats["hung"] = 1
	}
	writeJSON(out+".info", map[string]interface{}{"stats": stats, "samples": samples, "traces": len(ts)})
}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		fail(err)
	}
	return n
}

func main() {
	a := os.Args
	if len(a) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness COMMAND ...")
		os.Exit(2)
	}
	if p := os.Getenv("JOURNAL"); p != "" {
		journalFile, _ = os.Create(p)
	}
	switch a[1] {
	case "replay": // replay CASES LIMIT OUT
		replayCases(a[2], atoi(a[3]), a[4])
	case "traces": // traces PROP SEED FROM TO OUT: the traces FROM .. TO-1 of that seed
		traces(a[2], int64(atoi(a[3])), atoi(a[4]), atoi(a[5]), a[6])
	case "tokens": // tokens PRINTED LEN SEED OUT: all strings over the alphabets printed by TLC
		tokens(a[2], atoi(a[3]), int64(atoi(a[4])), a[5])
	case "replayqueue": // replayqueue CASES OUT
		replayQueue(a[2], a[3])
	case "testtokens": // testtokens PRINTED LEN OUT
		testTokens(a[2], atoi(a[3]), a[4])
	case "replayshell": // replayshell CASES OUT
		replayShell(a[2], a[3])
	case "replayregistry": // replayregistry CASES OUT
		replayRegistry(a[2], a[3])
	case "replayregistry1": // the part about one registry
		replayRegistry1(a[2], a[3])
	case "replaytyped": // replaytyped CASES OUT
		replayTyped(a[2], a[3])
	case "replayobjects": // replayobjects CASES OUT
		replayObjects(a[2], a[3])
	case "replayinstances": // replayinstances CASES OUT
		replayInstances(a[2], a[3])
	case "onedice": // onedice LIST OUT: a list of dice as test data
		writeOut(a[3], []Trace{{readDice(a[2])}}, map[string]int{}, nil)
	case "fresh": // fresh BYTES STREAM AT KIND GAME: what a text comes to, on the standard output
		fresh(a[2], int64(atoi(a[3])), atoi(a[4]), atoi(a[5]), a[6])
	case "one": // one exec|parse BYTES OUT: a single text with random dice
		one(a[2], a[3], a[4])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

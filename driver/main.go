// Command driver executes cases against github.com/jhump/gopoet (as found in
// /repo) through its public API and logs what it observed. It contains no
// oracle: whether an observation is acceptable is decided by TLC, with the
// specification in ../spec.
//
//	driver gen  KIND SEED N [profile]   write random cases (ndjson) to stdout
//	driver run  CASES OBS PROGRESS      execute cases, append observations
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"time"
)

type caseHdr struct {
	ID   string `json:"id"`
	Kind string `json:"kind"`
}

var kinds = map[string]func(raw json.RawMessage) interface{}{}

func guard(f func() interface{}) (res interface{}, panicked string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = fmt.Sprint(r)
			if panicked == "" {
				panicked = "?"
			}
			if os.Getenv("DRIVER_TRACE") != "" {
				debug.PrintStack()
			}
		}
	}()
	return f(), ""
}

func die(args ...interface{}) {
	fmt.Fprintln(os.Stderr, args...)
	os.Exit(3)
}

func main() {
	debug.SetMaxStack(32 << 20)
	if len(os.Args) < 2 {
		die("usage")
	}
	switch os.Args[1] {
	case "gen":
		seed, err := strconv.ParseInt(os.Args[3], 10, 64)
		if err != nil {
			die(err)
		}
		n, err := strconv.Atoi(os.Args[4])
		if err != nil {
			die(err)
		}
		prof := ""
		if len(os.Args) > 5 {
			prof = os.Args[5]
		}
		w := bufio.NewWriterSize(os.Stdout, 1<<20)
		generate(os.Args[2], seed, n, prof, func(c interface{}) {
			b, err := json.Marshal(c)
			if err != nil {
				die(err)
			}
			w.Write(b)
			w.WriteByte('\n')
		})
		w.Flush()
	case "run":
		run(os.Args[2], os.Args[3], os.Args[4])
	default:
		die("unknown command")
	}
}

// run executes the cases. The progress file holds the id of the case being
// executed, so that a fatal error (which no recover can stop) can be attributed.
func run(casesPath, obsPath, progressPath string) {
	in, err := os.Open(casesPath)
	if err != nil {
		die(err)
	}
	out, err := os.OpenFile(obsPath, os.O_WRONLY|os.O_CREATE|os.O_APPEND, 0666)
	if err != nil {
		die(err)
	}
	prog, err := os.OpenFile(progressPath, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
	if err != nil {
		die(err)
	}
	limit := 20 * time.Second
	if s := os.Getenv("DRIVER_CASE_LIMIT"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			limit = d
		}
	}
	// a case that never ends may need ever more memory, and take it from everything else here
	swollen := make(chan struct{})
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 2<<30 {
				swollen <- struct{}{}
			}
		}
	}()
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 64<<20)
	for sc.Scan() {
		raw := append(json.RawMessage(nil), sc.Bytes()...)
		var h caseHdr
		if err := json.Unmarshal(raw, &h); err != nil {
			die("bad case:", err)
		}
		f := kinds[h.Kind]
		if f == nil {
			die("unknown kind", h.Kind)
		}
		prog.WriteAt([]byte(fmt.Sprintf("%-80s", h.ID)), 0)
		type result struct {
			res interface{}
			p   string
		}
		ch := make(chan result, 1)
		go func() {
			r, p := guard(func() interface{} { return f(raw) })
			ch <- result{r, p}
		}()
		rec := M{"id": h.ID, "kind": h.Kind, "case": raw}
		hung := false
		select {
		case r := <-ch:
			if r.p != "" {
				rec["st"], rec["msg"] = "panic", r.p
			} else {
				rec["st"], rec["obs"] = "ok", r.res
			}
		case <-time.After(limit):
			rec["st"], rec["msg"] = "hang", ""
			hung = true
		case <-swollen:
			rec["st"], rec["msg"] = "hang", "no memory is enough"
			hung = true
		}
		b, err := json.Marshal(rec)
		if err != nil {
			die(err)
		}
		if _, err := out.Write(append(b, '\n')); err != nil {
			die(err)
		}
		if hung {
			prog.WriteAt([]byte(fmt.Sprintf("%-80s", "")), 0)
			os.Exit(4)
		}
	}
	prog.WriteAt([]byte(fmt.Sprintf("%-80s", "")), 0)
}

// chain complains if a building method does not return what it was called on.
func chain[E comparable](x, ret E) {
	if x != ret {
		panic(fmt.Sprintf("a method of %T does not return it", x))
	}
}

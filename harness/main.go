// Command driver performs scenarios on the real code and records what it did as a
// trace that the TLA+ specification judges.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"sync/atomic"
	"time"
)

var (
	scope    string
	thorough bool
	seed     int64
	scratch  string
	scnFile  string
	part     int
	parts    int

	out      *bufio.Writer
	session  int
	journalF *os.File
	beat     atomic.Int64
)

// M is an event or a part of one.
type M map[string]any

var drivers = map[string]func(r *rand.Rand){}

func main() {
	if len(os.Args) < 2 || drivers[os.Args[1]] == nil {
		fmt.Fprintln(os.Stderr, "usage: driver <module> ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("driver", flag.ExitOnError)
	outName := fs.String("out", "trace.ndjson", "")
	tier := fs.String("tier", "quick", "")
	journal := fs.String("journal", "", "")
	fs.StringVar(&scope, "scope", "", "")
	fs.StringVar(&scnFile, "scn", "", "")
	fs.StringVar(&scratch, "scratch", "", "")
	fs.Int64Var(&seed, "seed", 1, "")
	fs.IntVar(&part, "part", 0, "") // this process does one of several parts of the work
	fs.IntVar(&parts, "parts", 1, "")
	fs.Parse(os.Args[2:])
	thorough = *tier == "thorough"
	f, err := os.Create(*outName)
	check(err)
	out = bufio.NewWriterSize(f, 1<<20)
	if *journal != "" {
		journalF, err = os.Create(*journal)
		check(err)
	}
	go watchdog()
	drivers[os.Args[1]](rand.New(rand.NewSource(seed + 1000003*int64(part))))
	check(out.Flush())
	check(f.Close())
}

// watchdog ends the process with status 7 when one operation does not return.
func watchdog() {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(500 * time.Millisecond)
		if b := beat.Load(); b != last {
			last, since = b, time.Now()
		} else if time.Since(since) > 60*time.Second {
			fmt.Fprintln(os.Stderr, "operation does not return")
			os.Exit(7)
		}
	}
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
		os.Exit(9)
	}
}

// begin starts a new session; events of a session are judged in order, sessions independently.
func begin() { session++ }

// emit records an event of the current session.
func emit(m M) {
	b, err := json.Marshal(m)
	check(err)
	out.WriteString(`{"s":` + strconv.Itoa(session*parts+part) + `,`)
	out.Write(b[1:])
	out.WriteByte('\n')
	beat.Add(1)
}

// note leaves a description of what is about to run, for the case that the process dies.
func note(v any) {
	if journalF == nil {
		return
	}
	b, _ := json.Marshal(v)
	journalF.Truncate(0)
	journalF.WriteAt(b, 0)
}

// try runs f and tells how it ended: ok, err, short (io.ErrShortBuffer) or panic.
func try(f func() error) (outcome string, err error) {
	defer func() {
		beat.Add(1)
		if p := recover(); p != nil {
			outcome, err = "panic", fmt.Errorf("panic: %v", p)
		}
	}()
	err = f()
	switch err {
	case nil:
		return "ok", nil
	case io.ErrShortBuffer:
		return "short", err
	}
	return "err", err
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return ascii(err.Error())
}

// ascii makes a text printable ASCII.
func ascii(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c < 32 || c > 126 || c == '"' || c == '\\' {
			b[i] = '?'
		}
	}
	if len(b) > 200 {
		b = b[:200]
	}
	return string(b)
}

// Bytes are recorded as a list of numbers.
func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, c := range b {
		r[i] = int(c)
	}
	return r
}

// sat limits numbers to what TLC's integers can hold with room for arithmetic.
func sat(i int) int {
	const lim = 1000000000
	if i > lim {
		return lim
	}
	if i < -lim {
		return -lim
	}
	return i
}

// share is this process's share of n random sessions.
func share(n int) int { return (n + parts - 1 - part) / parts }

// scenarios calls f with each line of the scenario file that belongs to this process.
func scenarios(f func(line []byte)) {
	if scnFile == "" {
		return
	}
	fd, err := os.Open(scnFile)
	check(err)
	defer fd.Close()
	sc := bufio.NewScanner(fd)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for i := 0; sc.Scan(); i++ {
		if i%parts != part {
			continue
		}
		f(append([]byte(nil), sc.Bytes()...))
	}
	check(sc.Err())
}

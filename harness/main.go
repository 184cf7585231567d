package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"strconv"
	"strings"
)

func itoa(i int) string { return strconv.Itoa(i) }

var (
	flagProp   = flag.String("prop", "", "property")
	flagSeed   = flag.Int64("seed", 1, "seed")
	flagTier   = flag.String("tier", "quick", "quick or thorough")
	flagOut    = flag.String("out", "trace.ndjson", "trace file")
	flagGen    = flag.String("gen", "", "scenarios generated from the specification (ndjson)")
	flagChild  = flag.Bool("child", false, "")
	flagFrom   = flag.Int("from", 0, "")
	flagOnly   = flag.Int("only", -1, "run just this scenario")
	flagReplay = flag.String("damaged", "", "format,xf,file: load this (base64 of a) file")
	flagLine   = flag.Int("line", 0, "")
)

// genCases are the scenarios the specification generated.
var genCases []json.RawMessage

func readGen() {
	if *flagGen == "" {
		return
	}
	b, err := os.ReadFile(*flagGen)
	must(err)
	for _, l := range bytes.Split(b, []byte("\n")) {
		if len(bytes.TrimSpace(l)) > 0 {
			genCases = append(genCases, json.RawMessage(l))
		}
	}
}

func scenSeed(prop string, i int) int64 {
	f := fnv.New64a()
	fmt.Fprintf(f, "%s/%d/%d", prop, *flagSeed, i)
	return int64(f.Sum64() >> 1)
}

func child() {
	readGen()
	f, err := os.OpenFile(*flagOut, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0o644)
	must(err)
	j, err := os.OpenFile(*flagOut+".journal", os.O_RDWR|os.O_CREATE, 0o644)
	must(err)
	c := &Ctx{out: bufio.NewWriterSize(f, 1<<16), f: f, journal: j, line: *flagLine, thorough: *flagTier == "thorough"}
	if strings.HasPrefix(*flagProp, "C21") {
		limitMemory()
	}
	go watchdog()
	list := scenarios(*flagProp, c.thorough)
	for i := *flagFrom; i < len(list); i++ {
		if *flagOnly >= 0 && i != *flagOnly {
			continue
		}
		must(os.WriteFile(*flagOut+".at", []byte(itoa(i)), 0o644))
		c.r = rand.New(rand.NewSource(scenSeed(*flagProp, i)))
		c.scn(fmt.Sprintf("%s/%d", *flagProp, i), nil)
		list[i](c)
		c.flush()
	}
	must(f.Close())
}

// parent runs children until all scenarios are done: an operation that kills
// the process, or never ends, is completed in the trace as "fatal" or "hang".
func parent() int {
	os.Remove(*flagOut)
	os.Remove(*flagOut + ".journal")
	from, deaths := 0, 0
	for {
		line := countLines(*flagOut)
		args := append([]string{"-child", "-from", itoa(from), "-line", itoa(line)}, os.Args[1:]...)
		cmd := exec.Command(os.Args[0], args...)
		var stderr bytes.Buffer
		cmd.Stderr = &limited{b: &stderr}
		cmd.Stdout = os.Stdout
		err := cmd.Run()
		if err == nil {
			break
		}
		code := cmd.ProcessState.ExitCode()
		j, _ := os.ReadFile(*flagOut + ".journal")
		at, _ := os.ReadFile(*flagOut + ".at")
		late := len(j) > 0 && j[0] == 'D' && bytes.Contains(stderr.Bytes(), []byte("created by github.com/dmitryikh/leaves."))
		if len(j) == 0 || (j[0] != 'P' && !late) || bytes.Contains(stderr.Bytes(), []byte("harness: ")) || (!strings.HasPrefix(*flagProp, "C21") && bytes.Contains(stderr.Bytes(), []byte("cannot allocate memory"))) || code < 0 {
			os.Stderr.Write(stderr.Bytes())
			fmt.Fprintln(os.Stderr, "driver: the process died outside of an operation:", err)
			return 3
		}
		var ev jm
		dec := json.NewDecoder(bytes.NewReader(j[1:]))
		dec.UseNumber()
		must(dec.Decode(&ev))
		whole(*flagOut)
		ev["res"] = "fatal"
		if code == 66 {
			ev["res"] = "hang"
		}
		s := stderr.String()
		if len(s) > 600 {
			s = s[:600]
		}
		ev["why"] = s
		b, err := json.Marshal(ev)
		must(err)
		f, err := os.OpenFile(*flagOut, os.O_APPEND|os.O_WRONLY, 0o644)
		must(err)
		f.Write(append(b, '\n'))
		f.Close()
		os.Remove(*flagOut + ".journal")
		k, _ := strconv.Atoi(string(at))
		from = k + 1
		deaths++
		if deaths >= 5 {
			break // enough
		}
	}
	os.Remove(*flagOut + ".journal")
	os.Remove(*flagOut + ".at")
	return 0
}

// whole cuts an unfinished line off the trace
func whole(name string) {
	b, err := os.ReadFile(name)
	must(err)
	must(os.Truncate(name, int64(bytes.LastIndexByte(b, '\n')+1)))
}

type limited struct{ b *bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

func countLines(name string) int {
	f, err := os.Open(name)
	if err != nil {
		return 0
	}
	defer f.Close()
	n := 0
	buf := make([]byte, 1<<16)
	for {
		k, err := f.Read(buf)
		n += bytes.Count(buf[:k], []byte("\n"))
		if err == io.EOF {
			return n
		}
		must(err)
	}
}

func main() {
	flag.Parse()
	if *flagReplay != "" {
		a := strings.SplitN(*flagReplay, ",", 3)
		replayDamaged(a[0], a[1] == "true", a[2])
		return
	}
	if *flagChild {
		child()
		return
	}
	os.Exit(parent())
}

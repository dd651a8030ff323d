// Command vh drives the real hound code and records what it does.
//go:debug default=go1.20
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
)

var (
	seed   int64 = 1
	tier         = "quick"
	outDir string
)

func thorough() bool { return tier == "thorough" }

// pick returns q in the quick tier and t in the thorough one.
func pick(q, t int) int {
	if thorough() {
		return t
	}
	return q
}

func newRand(salt int64) *rand.Rand { return rand.New(rand.NewSource(seed*1000003 + salt)) }

// die reports a failure of the machinery itself (never a verdict).
func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: "+format+"\n", a...)
	os.Exit(3)
}

// sut reports that the code under test failed at something it has to do.
func sut(err error, format string, a ...interface{}) {
	if err != nil {
		fmt.Fprintf(os.Stderr, "SUT-FAILED: %s: %v\n", fmt.Sprintf(format, a...), err)
		os.Exit(4)
	}
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

// recorder writes one JSON value per line.
type recorder struct {
	mu sync.Mutex
	f  *os.File
	w  *bufio.Writer
	n  int
}

func newRecorder(name string) *recorder {
	f, err := os.Create(filepath.Join(outDir, name))
	must(err)
	return &recorder{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

func (r *recorder) put(v interface{}) {
	b, err := json.Marshal(v)
	must(err)
	r.mu.Lock()
	defer r.mu.Unlock()
	r.n++
	r.w.Write(b)
	r.w.WriteByte('\n')
}

func (r *recorder) close() {
	must(r.w.Flush())
	must(r.f.Close())
}

func writeJSON(name string, v interface{}) {
	b, err := json.Marshal(v)
	must(err)
	must(os.WriteFile(filepath.Join(outDir, name), b, 0644))
}

// parallel runs fn(0..n-1) on up to k goroutines.
func parallel(n, k int, fn func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < k; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				fn(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

func cps(s string) []int {
	out := []int{}
	for _, r := range s {
		out = append(out, int(r))
	}
	return out
}

func bytesOf(s string) []int {
	out := make([]int, 0, len(s))
	for i := 0; i < len(s); i++ {
		out = append(out, int(s[i]))
	}
	return out
}

// lastLog keeps the last message the code under test logged (log.Fatal ends
// the process right after it) in a file of the output directory.
type lastLog struct{ f *os.File }

func (l *lastLog) Write(b []byte) (int, error) {
	if l.f == nil {
		f, err := os.Create(filepath.Join(outDir, fmt.Sprintf("lastlog.%d", os.Getpid())))
		if err != nil {
			return len(b), nil
		}
		l.f = f
	}
	l.f.WriteAt([]byte(fmt.Sprintf("%-300.300s\n", strings.TrimSpace(string(b)))), 0)
	return len(b), nil
}

var commands = map[string]func(args []string){}

func main() {
	if n := filepath.Base(os.Args[0]); n == "svn" || n == "svnversion" || n == "hg" || n == "bzr" {
		toolMain(n)
	}
	if v := os.Getenv("VERIF_SEED"); v != "" {
		n, err := strconv.ParseInt(v, 10, 64)
		must(err)
		seed = n
	}
	if v := os.Getenv("VERIF_TIER"); v != "" {
		tier = v
	}
	outDir = os.Getenv("VH_OUT")
	if len(os.Args) < 2 || outDir == "" {
		die("usage: VH_OUT=dir vh command")
	}
	log.SetOutput(&lastLog{})
	fn := commands[os.Args[1]]
	if fn == nil {
		die("unknown command %s", os.Args[1])
	}
	fn(os.Args[2:])
}

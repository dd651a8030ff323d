package main

// Disks that fill up or fail: the searchers run in a process of their own whose
// system calls on index directories, temporary files or sources fail from some
// point on, for a while or just once.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

func init() {
	commands["disk"] = diskCommand
	commands["diskproc"] = diskProc
}

// diskProc DIR SEED ROUNDS
func diskProc(args []string) {
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	must(err)
	os.Stdout = null
	dir := args[0]
	sd, _ := strconv.Atoi(args[1])
	rounds, _ := strconv.Atoi(args[2])
	var c lifeCfg
	b, err := os.ReadFile(filepath.Join(dir, "cfg.json"))
	must(err)
	must(json.Unmarshal(b, &c))
	w := newWorld("disk", dir, c, int64(sd))
	w.blind = true
	w.tmp = filepath.Join(dir, "tmp")
	if sd%3 == 0 {
		w.slow = 600 << 10
	}
	for _, e := range readLog(filepath.Join(dir, "log")) {
		if e["e"] == "commit" {
			w.up[num(e["u"])] = num(e["v"])
		}
		if k := num(e["c"]); k > w.opn {
			w.opn = k
		}
	}
	f, err := os.OpenFile(filepath.Join(dir, "log"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	must(err)
	w.sink = f
	_, err = os.Stat(filepath.Join(dir, "sick"))
	sick := err == nil
	if sick {
		w.logl(ev{"e": "disk", "on": true})
	}
	w.boot()
	if !w.waitFor(patience, w.isBooted) {
		w.stuck("startup did not complete")
		os.Exit(0)
	}
	for k := 0; k < rounds; k++ {
		for u := range w.up {
			if w.rng.Intn(3) > 0 {
				w.commit(u, w.up[u]+1)
			}
		}
		for _, r := range w.ok() {
			w.request(r)
		}
		w.waitFor(time.Duration(20+w.rnd(120))*time.Millisecond, func() bool {
			for _, r := range w.ok() {
				if w.served(r) != w.up[w.cfg.Url[r-1]] {
					return false
				}
			}
			return true
		})
		for _, r := range w.ok() {
			w.search(r, "all")
			w.excluded(r)
		}
	}
	if sick {
		os.Remove(filepath.Join(dir, "sick"))
		w.logl(ev{"e": "disk", "on": false})
	}
	if w.drain(true) {
		w.shutdown()
	}
	os.Exit(0)
}

func diskCommand(args []string) {
	ctrace := args[0]
	budget, err := strconv.Atoi(args[1])
	must(err)
	base := args[2]
	self, err := os.Executable()
	must(err)
	rec := newRecorder("recs.ndjson")
	end := time.Now().Add(time.Duration(budget) * time.Second)
	var mu sync.Mutex
	points := map[string]int{}
	chains, hit := 0, 0
	var dead []byte
	cs := []lifeCfg{
		{2, []bool{true, true}, []bool{false, true}, []int{1, 2}, []int{}, 0},
		{1, []bool{true, true, true}, []bool{true, false, false}, []int{1, 2, 3}, []int{}, 0},
		{1, []bool{true, false}, []bool{false, true}, []int{1, 2}, []int{}, 0},
		{2, []bool{true, true}, []bool{false, false}, []int{1, 1}, []int{}, 0},
	}
	parallel(pick(2000, 40000), 8, func(i int) {
		mu.Lock()
		over := dead != nil
		mu.Unlock()
		if over || time.Now().After(end) {
			return
		}
		r := rand.New(rand.NewSource(seed*15485863 + int64(i)))
		dir := filepath.Join(base, fmt.Sprintf("d%d", i))
		must(os.MkdirAll(filepath.Join(dir, "db"), 0755))
		must(os.MkdirAll(filepath.Join(dir, "tmp"), 0755))
		defer os.RemoveAll(dir)
		c := cs[r.Intn(len(cs))]
		c.Naming = r.Intn(namings)
		b, _ := json.Marshal(c)
		must(os.WriteFile(filepath.Join(dir, "cfg.json"), b, 0644))
		errno := []int{28, 5, 24}[r.Intn(3)] // ENOSPC, EIO, EMFILE
		reads := i%3 == 2 || len(args) > 3
		what := r.Intn(4)
		env := append(os.Environ(), "TMPDIR="+filepath.Join(dir, "tmp"))
		prefix := filepath.Join(dir, "db", "idx-")
		n := 1 + r.Intn(160)
		if i%2 == 0 {
			n = 1 + (i/2)%48 // the first build
		}
		if reads {
			env = append(env, "CT_READS=1", "CT_NOT=/.fake")
			prefix = filepath.Join(dir, "db", "vcs-")
			if errno == 28 {
				errno = 5
			}
			if what == 0 {
				// (an index that cannot be deleted is another matter)
				prefix = filepath.Join(dir, "db", "idx-")
				env = append(env, "CT_ONLY="+[]string{"excluded_files.json", "metadata.gob", "/tri", "/raw/f"}[r.Intn(4)])
			}
			n = 1 + r.Intn(40)
			if r.Intn(2) == 0 {
				n = 1 + r.Intn(200)
			}
		} else {
			env = append(env, "CT_ALSO="+filepath.Join(dir, "tmp"), "CT_NOT=unlink")
		}
		env = append(env, "CT_WHILE="+filepath.Join(dir, "sick"))
		switch r.Intn(3) {
		case 0:
			env = append(env, "CT_ONCE=1")
		case 1:
			if reads && what == 0 {
				n = 1 + r.Intn(4)
			} else if !reads { // one kind of file
				k := (i / 3) % 5
				env = append(env, "CT_ONCE=1", "CT_ONLY="+[]string{"excluded_files.json", "metadata.gob", "/tri", "/raw/", "/csearch"}[k])
				n = 1 + r.Intn([]int{9, 9, 16, 40, 20}[k])
			}
		}
		cl := filepath.Join(dir, "calls")
		run := func(n, rounds int) (out []byte, code int, err error) {
			cmd := exec.Command(ctrace, strconv.Itoa(errno), strconv.Itoa(n), prefix, cl, self, "diskproc", dir, strconv.Itoa(r.Intn(1<<30)), strconv.Itoa(rounds))
			cmd.Env = env
			out, err = cmd.CombinedOutput()
			return out, cmd.ProcessState.ExitCode(), err
		}
		var out []byte
		code := 0
		if what%2 == 0 { // there are indexes from an earlier start
			out, code, err = run(0, 1)
		}
		must(os.WriteFile(filepath.Join(dir, "sick"), nil, 0644))
		if code == 0 {
			out, code, err = run(n, 1+r.Intn(3))
		}
		if code == 97 || code == 98 || strings.Contains(string(out), "HARNESS-ERROR") {
			die("diskproc: %v\n%s", err, out)
		}
		mu.Lock()
		defer mu.Unlock()
		if code != 0 {
			if dead == nil {
				dead = append(out, 0)
			}
			return
		}
		chains++
		x, _ := os.ReadFile(cl)
		for _, l := range strings.Split(string(x), "\n") {
			if f := strings.Fields(l); len(f) == 3 && f[0] == "!" {
				hit++
				k := f[1]
				switch p := strings.Split(f[2], "/"); {
				case reads && what > 0:
					k += " source"
				case len(p) == 1:
					k += " the directory"
				case p[0] == "":
					k += " temporary file"
				case len(p) > 2:
					k += " " + p[1] + "/*"
				default:
					k += " " + p[1]
				}
				points[k]++
			}
		}
		evs := readLog(filepath.Join(dir, "log"))
		rec.put(map[string]interface{}{"id": fmt.Sprintf("d%d", i), "cfg": c, "ev": evs})
	})
	rec.close()
	if dead != nil {
		os.Stderr.Write(dead[:len(dead)-1])
		os.Exit(1)
	}
	writeJSON("stats.json", map[string]interface{}{"processes_with_failing_disks": chains, "failed_system_calls": hit, "failed_at": points})
}

package main

// Crashes: the daemon's searchers run in a process of their own, which is killed
// at chosen changes of the database directory, and started again.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

func init() {
	commands["crash"] = crashCommand
	commands["crashproc"] = crashProc
}

// readLog gives the complete events of a log file.
func readLog(path string) []ev {
	f, err := os.Open(path)
	if os.IsNotExist(err) {
		return nil
	}
	must(err)
	defer f.Close()
	var out []ev
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<24)
	for sc.Scan() {
		var e ev
		if json.Unmarshal(sc.Bytes(), &e) == nil {
			out = append(out, e)
		}
	}
	return out
}

func num(x interface{}) int {
	f, _ := x.(float64)
	return int(f)
}

// crashProc DIR SEED UPDATES END: sets up the repositories in DIR, lives through some
// updates, and ends by waiting to be killed ("wait") or gracefully ("exit").
func crashProc(args []string) {
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	must(err)
	os.Stdout = null
	dir := args[0]
	sd, _ := strconv.Atoi(args[1])
	updates, _ := strconv.Atoi(args[2])
	var c lifeCfg
	b, err := os.ReadFile(filepath.Join(dir, "cfg.json"))
	must(err)
	must(json.Unmarshal(b, &c))
	w := newWorld("crash", dir, c, int64(sd))
	for _, e := range readLog(filepath.Join(dir, "log")) {
		if e["e"] == "commit" {
			w.up[num(e["u"])] = num(e["v"])
		}
		if k := num(e["c"]); k > w.opn {
			w.opn = k
		}
	}
	f, err := os.OpenFile(filepath.Join(dir, "log"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	must(err)
	w.sink = f
	// the remote may have gone on, or back to a revision there was an index of
	for _, d := range w.list() {
		if u := d["url"].(int); d["full"].(bool) && w.rng.Intn(2) == 0 {
			w.commit(u, d["rev"].(int))
		} else if u > 0 && w.rng.Intn(3) == 0 {
			w.commit(u, w.up[u]+1)
		}
	}
	w.boot()
	if !w.waitFor(patience, w.isBooted) {
		w.stuck("startup did not complete")
		os.Exit(0)
	}
	look := func() {
		for _, r := range w.ok() {
			w.search(r, "all")
			w.search(r, kinds[w.rnd(len(kinds))])
			w.excluded(r)
		}
	}
	look()
	for k := 0; k < updates; k++ {
		us := []int{}
		for u := range w.up {
			if w.rng.Intn(2) == 0 {
				us = append(us, u)
			}
		}
		for _, u := range us {
			w.commit(u, w.up[u]+1)
		}
		for _, r := range w.ok() {
			if w.cfg.Poll[r-1] || w.cfg.Push[r-1] {
				if !w.cfg.Poll[r-1] {
					w.request(r)
				}
				if !w.waitFor(patience, func() bool { return w.served(r) == w.up[w.cfg.Url[r-1]] }) {
					w.stuck("repository %d does not show its remote's revision", r)
					os.Exit(0)
				}
			}
		}
		look()
	}
	if args[3] == "exit" {
		if w.drain(true) {
			w.shutdown()
		}
		os.Exit(0)
	}
	w.snap(2*time.Second, false)
	os.Exit(137) // as good as killed
}

func crashCommand(args []string) {
	ctrace := args[0]
	budget, err := strconv.Atoi(args[1])
	must(err)
	self, err := os.Executable()
	must(err)
	rec := newRecorder("recs.ndjson")
	end := time.Now().Add(time.Duration(budget) * time.Second)
	var mu sync.Mutex
	points := map[string]int{}
	kills, chains := 0, 0
	var dead []byte // the output of a process that crashed by itself

	// run starts a process; it is killed at the n-th change below prefix.
	run := func(dir string, n int, only string, args ...string) (calls []string, killed bool) {
		cl := filepath.Join(dir, "calls")
		a := append([]string{"kill", strconv.Itoa(n), filepath.Join(dir, "db", "idx-"), cl, self, "crashproc", dir}, args...)
		cmd := exec.Command(ctrace, a...)
		if only != "" {
			cmd.Env = append(os.Environ(), "CT_ONLY="+only)
		}
		out, err := cmd.CombinedOutput()
		code := cmd.ProcessState.ExitCode()
		if code == 97 || code == 98 || strings.Contains(string(out), "HARNESS-ERROR") {
			die("crashproc: %v\n%s", err, out)
		}
		if code != 0 && code != 137 {
			mu.Lock()
			if dead == nil {
				dead = append(out, 0)
			}
			mu.Unlock()
		}
		b, _ := os.ReadFile(cl)
		calls = strings.Split(strings.TrimSpace(string(b)), "\n")
		return calls[:len(calls)-1], code == 137
	}
	append1 := func(dir string, es ...ev) {
		f, err := os.OpenFile(filepath.Join(dir, "log"), os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0644)
		must(err)
		for _, e := range es {
			b, _ := json.Marshal(e)
			f.Write(append([]byte("\n"), append(b, '\n')...))
		}
		must(f.Close())
	}
	crashed := func(dir string, c lifeCfg) {
		w := &world{db: filepath.Join(dir, "db"), cfg: c}
		out := []ev{}
		for _, x := range w.list() {
			out = append(out, ev{"nm": x["nm"], "full": x["full"], "url": x["url"], "rev": x["rev"]})
		}
		append1(dir, ev{"e": "crash"}, ev{"e": "snap", "dirs": out, "lost": []string{}})
	}
	// The order in which a directory lists its entries (and in which they are
	// deleted) is up to the file system; tmpfs lists the newest first.
	base := args[2]
	reorder := func(dir string, r *rand.Rand) {
		ds, _ := filepath.Glob(filepath.Join(dir, "db", "idx-*"))
		for _, d := range ds {
			ents, err := os.ReadDir(d)
			must(err)
			r.Shuffle(len(ents), func(i, j int) { ents[i], ents[j] = ents[j], ents[i] })
			tmp := filepath.Join(dir, "copy")
			must(os.Mkdir(tmp, 0755))
			for _, e := range ents {
				must(os.Rename(filepath.Join(d, e.Name()), filepath.Join(tmp, e.Name())))
			}
			must(os.Remove(d))
			must(os.Rename(tmp, d))
		}
	}
	chain := func(id string, sd int64, pick func(stage int) (int, string)) int {
		r := rand.New(rand.NewSource(sd))
		dir := filepath.Join(base, "c"+id)
		must(os.MkdirAll(filepath.Join(dir, "db"), 0755))
		defer os.RemoveAll(dir)
		cs := []lifeCfg{
			{1, []bool{true, true}, []bool{false, true}, []int{1, 2}, []int{}, 0},
			{2, []bool{true, false}, []bool{false, true}, []int{1, 2}, []int{}, 0},
			{2, []bool{true, true}, []bool{false, false}, []int{1, 1}, []int{}, 0},
			{1, []bool{true}, []bool{true}, []int{1}, []int{}, 0},
			{2, []bool{true, false}, []bool{true, false}, []int{1, 2}, []int{}, 0},
		}
		c := cs[r.Intn(len(cs))]
		c.Naming = r.Intn(namings)
		b, _ := json.Marshal(c)
		must(os.WriteFile(filepath.Join(dir, "cfg.json"), b, 0644))
		total := 0
		for stage := 0; stage < 2; stage++ {
			n, only := pick(stage)
			calls, killed := run(dir, n, only, strconv.Itoa(int(r.Int31())), strconv.Itoa(1+r.Intn(2)), "wait")
			total = len(calls)
			if !killed {
				break
			}
			if n > 0 && len(calls) == n {
				mu.Lock()
				kills++
				x := strings.Fields(calls[n-1])
				k := x[0]
				if i := strings.Index(x[1], "/"); i < 0 {
					k += " the directory"
				} else if y := strings.Split(x[1][i+1:], "/"); len(y) > 1 {
					k += " " + y[0] + "/*"
				} else {
					k += " " + strings.TrimRight(y[0], "0123456789")
				}
				points[k]++
				mu.Unlock()
			}
			crashed(dir, c)
			reorder(dir, r)
		}
		run(dir, 0, "", strconv.Itoa(int(r.Int31())), "1", "exit")
		evs := readLog(filepath.Join(dir, "log"))
		rec.put(map[string]interface{}{"id": id, "cfg": c, "ev": evs})
		mu.Lock()
		chains++
		mu.Unlock()
		return total
	}
	most := 100
	parallel(pick(400, 6000), 8, func(i int) {
		if time.Now().After(end) || dead != nil {
			return
		}
		chain(fmt.Sprintf("k%d", i), seed*104729+int64(i), func(stage int) (int, string) {
			r := rand.New(rand.NewSource(seed*31 + int64(i)*7 + int64(stage)))
			if stage == 0 && i%2 == 1 {
				return 0, "" // this one ends without being disturbed
			}
			switch x := (i + stage) / 2 % 8; {
			case x < 4:
				return 1 + (i/8)%most, "" // from the first change on
			case x < 7:
				return 1 + r.Intn(30), "unlink"
			}
			return 1 + r.Intn(12), "metadata.gob"
		})
	})
	rec.close()
	if dead != nil {
		os.Stderr.Write(dead[:len(dead)-1])
		os.Exit(1)
	}
	writeJSON("stats.json", map[string]interface{}{"chains": chains, "kills": kills, "points": points})
}

package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

type Report struct {
	Property   string         `json:"property"`
	Tasks      []*TaskResult  `json:"tasks"`
	Functions  []string       `json:"functions_under_contract"`
	Discharged int            `json:"obligations_discharged"`
	Conditions int            `json:"verification_conditions"`
	Failed     []*Obligation  `json:"failed"`
	Problems   []string       `json:"problems"`
	Trusted    []string       `json:"trusted"`
	Assumed    []string       `json:"assumed"`
	Inlined    []string       `json:"inlined"`
	Queries    int            `json:"solver_queries"`
	SolverSec  float64        `json:"solver_seconds"`
	Backends   map[string]int `json:"backends"`
	WallSec    float64        `json:"wall_seconds"`
	OK         bool           `json:"ok"`
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("specs", "/verif/specs", "specification directory")
	prop := flag.String("prop", "", "property id")
	only := flag.String("fn", "", "verify only this function")
	out := flag.String("out", "", "JSON report")
	budget := flag.Int("budget", 240, "seconds per function")
	total := flag.Int("total", 600, "seconds in total")
	obt := flag.Int("obtime", 20, "seconds per obligation for the portfolio")
	jobs := flag.Int("j", 8, "parallel tasks")
	verbose := flag.Bool("v", false, "print every obligation")
	list := flag.Bool("list", false, "list repository functions")
	flag.IntVar(&vacuitySec, "vacuity", 0, "seconds per function to look for contradictory assumptions")
	flag.Parse()
	start := time.Now()
	p, err := Load(*repo, repoPackages(*repo))
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	if *list {
		var names []string
		for _, f := range p.allFuncs() {
			names = append(names, shortName(f.RelString(nil)))
		}
		sort.Strings(names)
		fmt.Println(strings.Join(names, "\n"))
		return
	}
	p.findFunc("")
	db := newSpecDB()
	func() {
		defer func() {
			if e := recover(); e != nil {
				fmt.Fprintln(os.Stderr, "spec:", e)
				os.Exit(3)
			}
		}()
		if err := db.LoadDir(*specs); err != nil {
			fmt.Fprintln(os.Stderr, "spec:", err)
			os.Exit(3)
		}
	}()
	// helper contracts whose function is gone or has another shape are dropped:
	// their callers then see the code instead
	dropped := map[string]bool{}
	for n, con := range db.Contracts {
		if con.Extern {
			continue
		}
		fn := p.findFunc(n)
		if fn == nil || len(fn.Params) != len(con.Params) || con.shapeMismatch(fn) {
			if con.Optional {
				delete(db.Contracts, n)
				dropped[n] = true
			}
		}
	}
	deadline := start.Add(time.Duration(*total) * time.Second)
	rep := run(p, db, *prop, *only, *jobs, time.Duration(*budget)*time.Second, *obt, deadline, *verbose)
	rep.WallSec = time.Since(start).Seconds()
	for n := range dropped {
		rep.Assumed = append(rep.Assumed, "helper contract "+n+" dropped: its function is gone or changed shape, callers are checked against the code")
	}
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*out, b, 0o644)
	}
	for _, t := range rep.Tasks {
		n, bad := 0, 0
		for _, o := range t.Obligations {
			n++
			if o.Status != "discharged" {
				bad++
			}
		}
		status := "ok"
		if !t.ok() {
			status = "FAILED"
		}
		fmt.Printf("%-7s %s: %d obligations, %d paths, %.1fs %s\n", status, t.Name, n, t.Paths, t.Seconds, t.Unsupported)
		for _, o := range t.Obligations {
			if o.Status != "discharged" || *verbose {
				fmt.Printf("    %-10s %s [%s, %d] %s\n", o.Status, o.Name, o.Backend, o.Count, o.Detail)
				if o.Status != "discharged" {
					for _, m := range o.Model {
						fmt.Println("        ", m)
					}
					if len(o.Path) > 0 {
						fmt.Println("         path:", strings.Join(o.Path, "; "))
					}
				}
			}
		}
	}
	fmt.Printf("%s: %d tasks, %d obligations discharged, %d failed, %d problems, %d queries, %.1fs solver, %.1fs wall\n", *prop, len(rep.Tasks), rep.Discharged, len(rep.Failed), len(rep.Problems), rep.Queries, rep.SolverSec, rep.WallSec)
	for _, pr := range rep.Problems {
		fmt.Println("  problem:", pr)
	}
	if !rep.OK {
		os.Exit(1)
	}
}

func repoPackages(root string) []string {
	var out []string
	for _, d := range []string{"go/tricorder", "go/tricorder/duration", "go/tricorder/messages", "go/tricorder/types", "go/tricorder/units", "go/tricorder/wrapper", "go/healthserver"} {
		if _, err := os.Stat(root + "/" + d); err == nil {
			out = append(out, modPrefix+d)
		}
	}
	return out
}

func run(p *Program, db *SpecDB, prop, only string, jobs int, budget time.Duration, obt int, deadline time.Time, verbose bool) *Report {
	rep := &Report{Property: prop, OK: true}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	queued := map[string]bool{}
	var queue []string
	running := 0
	push := func(n string) {
		if !queued[n] {
			queued[n] = true
			queue = append(queue, n)
		}
	}
	for _, n := range db.Order {
		con := db.Contracts[n]
		if con == nil || con.Extern || con.Trusted || con.Inline {
			continue
		}
		if only != "" {
			if n == only || strings.HasPrefix(only, "~") && strings.Contains(n, only[1:]) {
				push(n)
			}
			continue
		}
		if prop == "" {
			push(n)
			continue
		}
		root := false
		for _, q := range con.Props {
			if q == prop {
				root = true
			}
		}
		for _, cls := range [][]Clause{con.Ensures, con.PanicWhen, con.PanicEnsures} {
			for _, cl := range cls {
				for _, q := range cl.Props {
					if q == prop {
						root = true
					}
				}
			}
		}
		if root {
			push(n)
		}
	}
	if strings.HasPrefix(only, "lemma ") {
		push(only)
	}
	if only == "" {
		for _, l := range db.Lemmas {
			for _, q := range l.Props {
				if q == prop {
					push("lemma " + l.Name)
				}
			}
		}
	}
	guarded := map[string]bool{}
	inl := map[string]bool{}
	tr := map[string]bool{}
	as := map[string]bool{}
	work := func() {
		for {
			mu.Lock()
			for len(queue) == 0 && running > 0 {
				cond.Wait()
			}
			if len(queue) == 0 {
				mu.Unlock()
				cond.Broadcast()
				return
			}
			n := queue[0]
			queue = queue[1:]
			running++
			mu.Unlock()
			left := time.Until(deadline)
			b := budget
			if left < b {
				b = left
			}
			if b < 2*time.Second {
				b = 2 * time.Second
			}
			var r *TaskResult
			func() {
				defer func() {
					if e := recover(); e != nil {
						if os.Getenv("GOVC_PANIC") != "" {
							panic(e)
						}
						r = &TaskResult{Name: n, Kind: "function", Unsupported: fmt.Sprintf("internal: %v", e)}
					}
				}()
				if strings.HasPrefix(n, "lemma ") {
					for i, l := range db.Lemmas {
						if "lemma "+l.Name == n {
							r = VerifyLemma(p, db, i, b, obt)
						}
					}
					if r == nil {
						r = &TaskResult{Name: n, Unsupported: "no such lemma"}
					}
				} else {
					r = VerifyFunc(p, db, db.Contracts[n], prop, b, obt)
				}
			}()
			mu.Lock()
			running--
			rep.Tasks = append(rep.Tasks, r)
			if only == "" {
				for _, u := range r.Used {
					push(u)
				}
				for _, l := range r.Lemmas {
					push("lemma " + l)
				}
			}
			for _, g := range r.Guarded {
				guarded[g] = true
			}
			for _, g := range r.Inlined {
				inl[g] = true
			}
			for _, g := range r.Trusted {
				tr[g] = true
			}
			for _, g := range r.Assumed {
				as[g] = true
			}
			mu.Unlock()
			cond.Broadcast()
		}
	}
	var wg sync.WaitGroup
	for i := 0; i < jobs; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); work() }()
	}
	wg.Wait()
	sort.Slice(rep.Tasks, func(i, j int) bool { return rep.Tasks[i].Name < rep.Tasks[j].Name })
	for _, t := range rep.Tasks {
		if t.Kind == "function" {
			rep.Functions = append(rep.Functions, t.Name)
		}
		if t.Unsupported != "" {
			rep.Problems = append(rep.Problems, t.Name+": "+t.Unsupported)
			rep.OK = false
		}
		for _, o := range t.Obligations {
			rep.Conditions += o.Count
			if o.Status == "discharged" {
				rep.Discharged++
			} else {
				rep.Failed = append(rep.Failed, o)
				rep.OK = false
			}
		}
	}
	if len(rep.Tasks) == 0 {
		rep.OK = false
		rep.Problems = append(rep.Problems, "no obligations generated")
	}
	if only == "" {
		for _, pr := range coverage(p, db, prop, queued, inl) {
			rep.Problems = append(rep.Problems, pr)
			rep.OK = false
		}
	}
	rep.Trusted, rep.Assumed, rep.Inlined = setKeys(tr), setKeys(as), setKeys(inl)
	rep.Queries = solverStats.queries
	rep.SolverSec = solverStats.time.Seconds()
	rep.Backends = solverStats.byName
	return rep
}

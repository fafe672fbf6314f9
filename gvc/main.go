package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// hints: candidates known to be inductive on the committed tree. They only
// choose where the search starts; every one is checked again.
type hints struct {
	Alive map[string][]string `json:"alive"` // function -> keys
	Dead  map[string][]string `json:"dead"`
}

type oblReport struct {
	Fn     string   `json:"fn"`
	Kind   string   `json:"kind"`
	Label  string   `json:"label"`
	Pos    string   `json:"pos,omitempty"`
	Text   string   `json:"text,omitempty"`
	Props  []string `json:"props,omitempty"`
	Res    string   `json:"res"`
	Solver string   `json:"solver,omitempty"`
	Secs   float64  `json:"secs"`
	Out    string   `json:"out,omitempty"`
}

type fnReport struct {
	Name       string      `json:"name"`
	Pos        string      `json:"pos"`
	Props      []string    `json:"props"`
	Error      string      `json:"error,omitempty"`
	Obls       []oblReport `json:"obligations"`
	Inlined    []string    `json:"inlined"`
	Called     []string    `json:"called"`
	Uses       []string    `json:"uses"`
	Assumes    []string    `json:"assumes"`
	Invariants int         `json:"invariants"`
	Terminates string      `json:"terminates"`
	Secs       float64     `json:"secs"`
}

type report struct {
	Props   []string   `json:"props"`
	Fns     []fnReport `json:"functions"`
	Externs []string   `json:"externs"`
	Axioms  []string   `json:"axioms"`
	Proved  int        `json:"proved"`
	Failed  int        `json:"failed"`
	Total   int        `json:"total"`
	Secs    float64    `json:"secs"`
	Queries int        `json:"queries"`
}

var showCands = flag.Bool("cands", false, "list candidates")
var verbose = flag.Bool("v", false, "print every obligation")
var quickSecs = flag.Int("t", 10, "seconds per solver call")
var showFail = flag.Bool("q", false, "print failing queries' files")

func main() {
	repo := flag.String("repo", "/repo", "repository")
	dir := flag.String("contracts", "/verif/contracts", "contract files")
	prop := flag.String("prop", "", "property id")
	fnre := flag.String("fn", "", "regexp of functions and lemmas")
	out := flag.String("out", "", "report file")
	hintFile := flag.String("hints", "", "hint file")
	writeHints := flag.Bool("write-hints", false, "update the hint file")
	limit := flag.Int("limit", 0, "overall limit in seconds")
	keep := flag.String("keep", "", "keep queries here")
	list := flag.Bool("list", false, "list what would be verified")
	flag.Parse()
	t0 := time.Now()
	// asked to finish early: report what is decided so far
	usr := make(chan os.Signal, 1)
	signal.Notify(usr, syscall.SIGUSR1)
	go func() {
		<-usr
		deadline.Store(time.Now().UnixMilli())
	}()
	if *limit > 0 {
		deadline.Store(t0.Add(time.Duration(*limit) * time.Second).UnixMilli())
	}
	var err error
	if *keep != "" {
		keepDir = *keep
		tmpDir = *keep
		os.MkdirAll(tmpDir, 0o755)
	} else {
		tmpDir, err = os.MkdirTemp("", "gvc")
		if err != nil {
			fatal(err)
		}
		defer os.RemoveAll(tmpDir)
	}
	sp := ReadSpecs(*dir)
	v, err := Load(*repo, sp)
	if err != nil {
		rep := report{Fns: []fnReport{{Name: "load", Error: err.Error()}}, Failed: 1, Total: 1}
		writeJSON(*out, rep)
		fmt.Println("LOAD ERROR:", err)
		os.RemoveAll(tmpDir)
		os.Exit(2)
	}
	if *hintFile == "" {
		*hintFile = filepath.Join(*dir, "hints.json")
	}
	h := hints{Alive: map[string][]string{}, Dead: map[string][]string{}}
	if d, err := os.ReadFile(*hintFile); err == nil {
		json.Unmarshal(d, &h)
	}
	cons, lems := v.selection(*prop, *fnre)
	if *list {
		for _, c := range cons {
			fmt.Println(c.Name)
		}
		for _, l := range lems {
			fmt.Println("lemma", l.Name)
		}
		return
	}
	rep := report{}
	if *prop != "" {
		rep.Props = []string{*prop}
	}
	type job struct {
		con *Contract
		lem *Lemma
	}
	var jobs []job
	for _, c := range cons {
		jobs = append(jobs, job{con: c})
	}
	for _, l := range lems {
		jobs = append(jobs, job{lem: l})
	}
	// generation is sequential (it shares tables); solving is parallel
	reps := make([]fnReport, len(jobs))
	ctxs := make([]*Ctx, len(jobs))
	for i, j := range jobs {
		var x *Ctx
		var err error
		if j.con != nil {
			reps[i] = fnReport{Name: j.con.Name, Props: j.con.Props}
			x, err = v.genFunc(j.con)
			if f := v.funcs[j.con.Name]; f != nil {
				reps[i].Pos = strings.TrimPrefix(v.prog.Fset.Position(f.Pos()).String(), v.repo+"/")
			}
		} else {
			reps[i] = fnReport{Name: "lemma " + j.lem.Name, Props: j.lem.Props}
			x, err = v.genLemma(j.lem)
		}
		if err != nil {
			reps[i].Error = err.Error()
			reps[i].Obls = []oblReport{{Fn: reps[i].Name, Kind: "generate", Label: "obligations can be generated", Res: "error", Out: err.Error()}}
			continue
		}
		ctxs[i] = x
	}
	// resolve every specification function before going parallel
	lemT := make([][]string, len(jobs))
	for i, x := range ctxs {
		if x == nil {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if e, ok := r.(specErr); ok {
						reps[i].Error = string(e)
						reps[i].Obls = []oblReport{{Fn: reps[i].Name, Kind: "generate", Label: "obligations can be generated", Res: "error", Out: string(e)}}
						ctxs[i] = nil
						return
					}
					panic(r)
				}
			}()
			for _, l := range x.usesLemmas() {
				t := v.lemmaText(l, x, "")
				lemT[i] = append(lemT[i], t)
				if x.lemName == nil {
					x.lemName = map[string]string{}
				}
				x.lemName[t] = l.Name
				reps[i].Uses = append(reps[i].Uses, l.Name)
			}
		}()
	}
	for _, d := range sp.FnOrder {
		if d.Kind != "def" {
			v.resolveFn(d)
		}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	fsem := make(chan bool, 8)
	for i := range jobs {
		x := ctxs[i]
		if x == nil {
			continue
		}
		wg.Add(1)
		go func(i int, x *Ctx) {
			defer wg.Done()
			fsem <- true
			defer func() { <-fsem }()
			tf := time.Now()
			alive, dead := x.discharge(lemT[i], *prop, h.Alive[x.name], h.Dead[x.name])
			r := &reps[i]
			r.Secs = time.Since(tf).Seconds()
			for _, o := range x.obls {
				if o.Res == "" || o.Kind == "term" {
					continue
				}
				r.Obls = append(r.Obls, oblReport{o.fn, o.Kind, o.Label, o.Pos, o.Text, o.Props, o.Res, o.Solver, round3(o.Secs), o.Out})
			}
			r.Obls = append(r.Obls, x.termReport()...)
			r.Inlined, r.Called = sortedKeys(x.inlined), sortedKeys(x.called)
			for _, c := range x.cands {
				if c.alive {
					r.Invariants++
				}
			}
			if x.con != nil {
				for _, a := range x.con.Assumes {
					r.Assumes = append(r.Assumes, a.Text)
				}
			}
			good := true
			for _, o := range r.Obls {
				if o.Res != "proved" && o.Kind != "inv-init" && o.Kind != "inv-step" {
					good = false
				}
			}
			mu.Lock()
			if good {
				h.Alive[x.name], h.Dead[x.name] = alive, dead
			}
			mu.Unlock()
		}(i, x)
	}
	wg.Wait()
	for _, r := range reps {
		for _, o := range r.Obls {
			if o.Kind == "inv-init" || o.Kind == "inv-step" {
				if o.Res != "proved" {
					continue
				}
			}
			rep.Total++
			if o.Res == "proved" {
				rep.Proved++
			} else {
				rep.Failed++
				fmt.Printf("FAIL %s [%s] %s %s: %s\n", o.Fn, o.Kind, o.Label, o.Pos, o.Res)
				if o.Out != "" {
					fmt.Println("     ", trunc(o.Out, 400))
				}
			}
			if *verbose && o.Res == "proved" {
				fmt.Printf("ok   %s [%s] %s %s (%s %.2fs)\n", o.Fn, o.Kind, o.Label, o.Pos, o.Solver, o.Secs)
			}
		}
	}
	ext := map[string]bool{}
	for _, r := range reps {
		for _, c := range r.Called {
			if k := sp.Contracts[c]; k != nil && k.Extern {
				ext[c] = true
			}
		}
	}
	rep.Externs = sortedKeys(ext)
	for _, l := range lems {
		if l.Axiom {
			rep.Axioms = append(rep.Axioms, l.Name)
		}
	}
	rep.Fns = reps
	rep.Queries = queryN
	rep.Secs = round3(time.Since(t0).Seconds())
	fmt.Printf("%d functions and lemmas, %d obligations, %d proved, %d failed, %d solver runs, %.1fs\n", len(jobs), rep.Total, rep.Proved, rep.Failed, queryN, rep.Secs)
	if *out != "" {
		writeJSON(*out, rep)
	}
	if *writeHints {
		for _, m := range []map[string][]string{h.Alive, h.Dead} {
			for k := range m {
				sort.Strings(m[k])
			}
		}
		writeJSON(*hintFile, h)
	}
	if rep.Failed > 0 {
		if keepDir == "" {
			os.RemoveAll(tmpDir)
		}
		os.Exit(1)
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func round3(f float64) float64 { return float64(int(f*1000)) / 1000 }

func fatal(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(2)
}

func writeJSON(f string, d any) {
	if f == "" {
		return
	}
	b, _ := json.MarshalIndent(d, "", " ")
	if err := os.WriteFile(f, append(b, '\n'), 0o644); err != nil {
		fatal(err)
	}
}

// selection lists the contracts and lemmas a property rests on: the functions
// tagged with it and, transitively, every contract they call.
func (v *Verifier) selection(prop, fnre string) ([]*Contract, []*Lemma) {
	var cons []*Contract
	var lems []*Lemma
	if fnre != "" || prop == "" {
		re := regexp.MustCompile(fnre)
		for _, c := range v.sp.Order {
			if !c.Extern && !c.Inline && re.MatchString(c.Name) {
				cons = append(cons, c)
			}
		}
		for _, l := range v.sp.LemOrder {
			if !l.Axiom && re.MatchString("lemma "+l.Name) {
				lems = append(lems, l)
			}
		}
		return cons, lems
	}
	has := func(ps []string) bool {
		for _, p := range ps {
			if p == prop {
				return true
			}
		}
		return false
	}
	seenC := map[string]bool{}
	seenL := map[string]bool{}
	var addL func(n string)
	addL = func(n string) {
		if seenL[n] {
			return
		}
		seenL[n] = true
		l := v.sp.Lemmas[n]
		if l == nil {
			return
		}
		for _, u := range l.Uses {
			addL(u)
		}
		if !l.Axiom {
			lems = append(lems, l)
		}
	}
	var addC func(c *Contract)
	addC = func(c *Contract) {
		if seenC[c.Name] || c.Extern {
			return
		}
		seenC[c.Name] = true
		if !c.Inline {
			cons = append(cons, c)
		}
		for _, u := range c.Uses {
			addL(u)
		}
		f := v.funcs[c.Name]
		if f == nil {
			return
		}
		for _, n := range v.callees(f) {
			if k := v.sp.Contracts[n]; k != nil {
				addC(k)
			}
		}
	}
	for _, c := range v.sp.Order {
		if has(c.Props) {
			addC(c)
		}
	}
	for _, l := range v.sp.LemOrder {
		if has(l.Props) {
			addL(l.Name)
		}
	}
	return cons, lems
}

package main

import (
	"fmt"
	"go/token"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"time"
)

type checkFn func(r *Report, L *Loaded)

var checks = map[string]checkFn{}

func main() {
	start := time.Now()
	if len(os.Args) < 2 {
		fmt.Println("usage: checker <property> [repository]")
		os.Exit(1)
	}
	id := os.Args[1]
	repo := "/repo"
	if d := os.Getenv("REPO_DIR"); d != "" {
		repo = d
	}
	if len(os.Args) > 2 {
		repo = os.Args[2]
	}
	if id == "dump" {
		d := os.Getenv("REPO_DIR")
		if d == "" {
			d = "/repo"
		}
		L, err := load(d)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		dump(L, os.Args[2], os.Args[3:])
	}
	if id == "denc" {
		if f := os.Getenv("VERIF_PROF"); f != "" {
			w, _ := os.Create(f)
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
		L, err := load("/repo")
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		dumpEncoder(L, os.Args[2])
		return
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if f := os.Getenv("VERIF_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
		runCheck(id, repo, tier, 0, start)
		return
	}
	if id == "part" {
		os.Exit(runPart(os.Args[2], os.Args[3], tier))
	}
	if id == "multi" {
		// several checks in one process, for development: checker multi C06,C11 [repository]
		if repo = "/repo"; len(os.Args) > 3 {
			repo = os.Args[3]
		}
		os.Exit(runMulti(strings.Split(os.Args[2], ","), repo, tier))
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	os.Exit(runCheck(id, repo, tier, seed, start))
}

func runCheck(id, repo, tier string, seed int, start time.Time) (code int) {
	r := newReport(id, nil)
	r.Tier = tier
	defer func() {
		if e := recover(); e != nil {
			r.violate("internal", token.NoPos, "the analysis failed: %v", e)
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Println(string(debug.Stack()))
			}
			code = r.finish(start, tier, seed)
		}
	}()
	fn := checks[id]
	if fn == nil {
		r.violate("unknown", token.NoPos, "no check for %s", id)
		return r.finish(start, tier, seed)
	}
	L, err := load(repo)
	if err != nil {
		r.violate("load", token.NoPos, "the repository cannot be analysed: %v", err)
		return r.finish(start, tier, seed)
	}
	r.L = L
	r.count(loadedCount, L.nfuncs)
	fn(r, L)
	return r.finish(start, tier, seed)
}

var shareClient *Client // for runMulti

func runMulti(ids []string, repo, tier string) (code int) {
	L, err := load(repo)
	if err != nil {
		fmt.Println("BAD load", err)
		return 1
	}
	shareClient = runClient(L)
	for _, id := range ids {
		if code != 0 && os.Getenv("VERIF_FIRST") != "" {
			break
		}
		func() {
			r := newReport(id, L)
			r.Tier = tier
			defer func() {
				if e := recover(); e != nil {
					r.violate("internal", token.NoPos, "the analysis failed: %v", e)
				}
				if r.finish(time.Now(), tier, 0) != 0 {
					code = 1
					fmt.Println("BAD", id)
				}
			}()
			r.count(loadedCount, L.nfuncs)
			checks[id](r, L)
		}()
	}
	return code
}

// runPart does the part of a check that VERIF_PART names and prints what it found for the process that started it.
func runPart(id, repo, tier string) (code int) {
	r := newReport(id, nil)
	r.Tier = tier
	defer func() {
		if e := recover(); e != nil {
			r.violate("internal", token.NoPos, "the analysis failed: %v", e)
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, string(debug.Stack()))
			}
		}
		os.Stdout.Write(r.part())
	}()
	L, err := load(repo)
	if err != nil {
		r.violate("load", token.NoPos, "the repository cannot be analysed: %v", err)
		return 0
	}
	r.L = L
	checks[id](r, L)
	return 0
}

package main

import (
	"embed"
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type fnT = ssa.Function

const (
	modP    = "github.com/si3nloong/sqlgen"
	sequelP = modP + "/sequel"
)

// World: a set of packages loaded together and the contracts over them.
type World struct {
	name  string
	props map[string]bool
	load  func(e *Engine) error
	specs []func(e *Engine) []*Spec
}

var worlds []*World

func worldNamed(n string) *World {
	for _, w := range worlds {
		if w.name == n {
			return w
		}
	}
	w := &World{name: n, props: map[string]bool{}}
	worlds = append(worlds, w)
	return w
}

// register adds contracts over the runtime packages; props lists every
// property any of them carries.
func register(props string, f func(e *Engine) []*Spec) { registerIn("sequel", props, f) }

func registerIn(world, props string, f func(e *Engine) []*Spec) {
	w := worldNamed(world)
	for _, p := range strings.Fields(props) {
		w.props[p] = true
	}
	w.specs = append(w.specs, f)
}

func init() {
	worldNamed("sequel").load = func(e *Engine) error {
		ov, err := loadOverlay()
		if err != nil {
			return err
		}
		return e.Load(repoDir, ov, []string{modP + "/...", "github.com/samber/lo"}, "./sequel/...")
	}
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		tier := os.Getenv("VERIF_TIER")
		if tier != "thorough" {
			tier = "quick"
		}
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		os.Exit(cmdCheck(os.Args[2], tier, seed))
	}
	if len(os.Args) > 1 && os.Args[1] == "worker" {
		k, _ := strconv.Atoi(os.Args[4])
		os.Exit(cmdWorker(os.Args[2], os.Args[3], k))
	}
	only := flag.String("only", "", "run only units whose id contains this")
	wn := flag.String("world", "", "only this world")
	verbose := flag.Bool("v", false, "")
	flag.Parse()
	if p := os.Getenv("GOVC_CPU"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		time.AfterFunc(40*time.Second, func() { pprof.StopCPUProfile(); f.Close() })
	}
	for _, w := range worlds {
		if *wn != "" && w.name != *wn {
			continue
		}
		t0 := time.Now()
		e := NewEngine()
		if err := w.load(e); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		fmt.Println("load", w.name, time.Since(t0))
		var specs []*Spec
		for _, f := range w.specs {
			specs = append(specs, f(e)...)
		}
		{
			for _, s := range specs {
				if *only != "" && !strings.Contains(s.ID, *only) {
					continue
				}
				show(e.Verify(s), *verbose)
			}
		}
	}
}

func show(r *UnitResult, verbose bool) {
	nf := len(failed(r))
	fmt.Printf("%-40s obls=%d failed=%d trivial=%d loops=%d invs=%d paths=%d ret=%d %.1fs %s\n", r.ID, len(r.Obls), nf, r.Trivial, r.Loops, r.InvObls, r.Paths, r.Returns, r.Wall.Seconds(), r.Err)
	for _, o := range failed(r) {
		fmt.Printf("   FAIL %s: %s  [%s] %s %s\n", o.Kind, o.Name, o.Loc, o.Res.Status, o.Res.Solver)
		if verbose {
			fmt.Println("      goal:", o.Goal)
			for _, p := range o.PC {
				fmt.Println("      pc:", p)
			}
			fmt.Println("      trace:", o.Trace)
			fmt.Println(o.Res.Model)
		}
	}
	if verbose {
		for _, n := range r.Notes {
			fmt.Println("   note:", n)
		}
	}
}

// loadOverlay maps the verification drivers into the packages they exercise.
func loadOverlay() (map[string][]byte, error) {
	m := map[string][]byte{}
	for f, dst := range overlayFiles {
		b, err := overlayFS.ReadFile("overlay/" + f)
		if err != nil {
			return nil, err
		}
		m[repoDir+dst] = b
	}
	return m, nil
}

//go:embed overlay/*.go
var overlayFS embed.FS

var overlayFiles = map[string]string{
	"encoding.go": "/sequel/encoding/zz_govc_drivers.go",
	"types.go":    "/sequel/types/zz_govc_drivers.go",
	"sqltype.go":  "/sequel/sqltype/zz_govc_drivers.go",
	"pgtype.go":   "/sequel/driver/postgres/pgtype/zz_govc_drivers.go",
}

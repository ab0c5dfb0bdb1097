package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
)

// rules decide the properties.
var rules = map[string]func(*Ctx){}

func main() {
	prop := flag.String("prop", "", "property to decide")
	repo := flag.String("repo", "/repo", "root of the code under analysis")
	out := flag.String("out", "", "directory of the evidence files")
	dump := flag.String("dump", "", "package:Type:Func to print the paths of (debugging)")
	dumpNoUnroll = flag.Bool("nounroll", false, "summarize every loop when dumping")
	opaque := flag.Bool("opaque", true, "keep anchors opaque when dumping")
	flag.Parse()
	start := time.Now()
	debug.SetGCPercent(400)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	root, err := filepath.EvalSymlinks(*repo)
	if err != nil {
		root = *repo
	}
	p, err := loadProg(root)
	if *dump != "" {
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		dumpPaths(p, *dump, *opaque)
		return
	}
	for _, id := range strings.Split(*prop, ",") {
		c := &Ctx{P: p, ID: id, seen: map[string]bool{}, Fns: map[string]bool{}, Sites: map[string]bool{}}
		rule := rules[id]
		switch {
		case rule == nil:
			fmt.Println("unknown property", id)
			os.Exit(2)
		case err != nil:
			c.must(false, "", "the code could not be loaded: %v", err)
		default:
			decide(c, rule)
		}
		if *out != "" {
			if err := c.write(*out, tier, seed, start); err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
		}
		fmt.Printf("%s: %d obligations (%d discharged), %d paths, %d functions, %d sites\n", id, c.Obls, c.Good, c.Paths, len(c.Fns), len(c.Sites))
		if len(c.Viol) > 0 {
			for _, v := range c.Viol {
				fmt.Println("  " + v)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, filepath.Join(*out, id+".json"))
			if os.Getenv("NEGCHECK_FIRST") != "" {
				os.Exit(1)
			}
			defer os.Exit(1)
		}
	}
}

func decide(c *Ctx, rule func(*Ctx)) {
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("NEGCHECK_DEBUG") != "" {
				panic(r)
			}
			c.must(false, "", "the analysis failed: %v", r)
		}
	}()
	rule(c)
}

var dumpNoUnroll *bool

func dumpPaths(p *Prog, spec string, opaque bool) {
	s := strings.Split(spec, ":")
	if len(s) == 3 && s[1] == "chooser" {
		dumpChooser(p, s[0], s[2])
		return
	}
	cfg := Cfg{}
	if opaque {
		cfg = atAnchors(p)
	}
	cfg.NoUnroll = *dumpNoUnroll
	e := newEngine(p, cfg)
	f := p.fun(s[0], s[len(s)-1])
	if len(s) == 3 {
		f = p.method(s[0], s[1], s[2])
	}
	if f == nil {
		fmt.Println("no such function")
		return
	}
	outs, err := e.Run(f, nil, nil)
	fmt.Println(len(outs), "paths", err)
	for _, o := range outs {
		fmt.Println("=====", show(o.Ret), "panic:", o.Panic != nil)
		for _, l := range o.St.order {
			fmt.Println("   ?", l)
		}
		printEvents("    ", o.St.trace)
	}
}

func printEvents(ind string, evs []*Event) {
	for _, ev := range evs {
		switch ev.Kind {
		case "call":
			fmt.Println(ind+ev.Key, show(ev.Args))
		case "loop":
			l := ev.Loop
			fmt.Println(ind+"loop", l.ID, "over", l.Coll, l.Bound, "left by", ev.ExitKind, "iters", len(l.Iters))
			if len(ind) <= 12 {
				for i, it := range l.Iters {
					fmt.Println(ind+"  iter", i, it.Conds)
					printEvents(ind+"    ", it.Events)
				}
				for _, x := range l.Exits {
					fmt.Println(ind+"  exit", x.Kind, x.Conds, show(x.Ret))
				}
				for _, f := range l.Folds {
					fmt.Println(ind+"  fold", f.ID, f.Name, f.Init, f.Sym, "->", show(f.Next))
				}
			}
		default:
			fmt.Println(ind+ev.Kind, show(ev.Args))
		}
	}
}

// dumpChooser prints the paths of a selection algorithm.
func dumpChooser(p *Prog, rel, ctor string) {
	c := &Ctx{P: p, seen: map[string]bool{}, Fns: map[string]bool{}, Sites: map[string]bool{}}
	cfg := atAnchors(p)
	cfg.OpaqueDyn = isFilter
	ch := c.chooser(rel, ctor, cfg)
	if ch == nil {
		fmt.Println(c.Viol)
		return
	}
	fmt.Println(len(ch.Outs), "paths")
	done := map[string]bool{}
	for i := range ch.Outs {
		for _, ev := range ch.Outs[i].St.trace {
			if ev.Kind == "call" && ev.Target != nil && isFilter(ev.Target) && !done[ev.Key] {
				done[ev.Key] = true
				fmt.Println("#### filter", ev.Key)
				for _, o := range c.run(ev.Target, atAnchors(p), nil, nil) {
					fmt.Println("=====", show(o.Ret), "panic:", o.Panic != nil)
					for _, l := range o.St.order {
						fmt.Println("   ?", l)
					}
					printEvents("    ", o.St.trace)
				}
			}
		}
	}
	for _, o := range ch.Outs {
		fmt.Println("=====", show(o.Ret), "panic:", o.Panic != nil)
		for _, l := range o.St.order {
			fmt.Println("   ?", l)
		}
		printEvents("    ", o.St.trace)
	}
}

package main

import (
	"fmt"
	"golang.org/x/tools/go/ssa"
	"os"
	"regexp"
	"strings"
	"time"
)

func shorten(s string) string {
	for _, r := range [][2]string{{"protocol/", ""}} {
		s = strings.ReplaceAll(s, r[0], r[1])
	}
	s = loopRe.ReplaceAllString(s, "i#$1")
	return s
}

var loopRe = regexp.MustCompile(`i:[^ )\],]*?:b(\d+/[\d.u]+)`)

func debugMain(p *Program, args []string) {
	if len(args) == 1 && args[0] == "all" {
		for _, f := range p.Fns {
			if f.Parent() != nil || len(fnPkg(f)) > 15 && fnPkg(f)[:15] == "crypto/internal" {
				continue
			}
			t := time.Now()
			e := p.Explore(f, nil)
			fmt.Printf("%-60s exits=%d steps=%d calls=%d loops=%d obls=%d abort=%q %v\n", fnName(f), len(e.Exits), e.Steps, e.Calls, e.Loops, len(e.Obls), e.abort, time.Since(t))
		}
		return
	}
	for i := 0; i+2 < len(args); i += 3 {
		var f *ssa.Function
		if args[i+1] == "-" {
			f = p.Func(args[i], args[i+2])
		} else {
			f = p.Method(args[i], args[i+1], args[i+2])
		}
		if f == nil {
			fmt.Println("no function", args[i:i+3])
			continue
		}
		t := time.Now()
		var o *Opts
		if q := os.Getenv("OPQ"); q != "" { // functions whose names match are opaque
			re := regexp.MustCompile(q)
			o = &Opts{Name: q, Opaque: func(f *ssa.Function) (bool, bool) { m := re.MatchString(fnName(f)); return m, m }}
		}
		if os.Getenv("GO") != "" {
			if o == nil {
				o = &Opts{Name: "go"}
			}
			o.FollowGo = true
		}
		e := p.Explore(f, o)
		e.Exits = append(e.Exits, e.GoExits...)
		fmt.Printf("== %s exits=%d steps=%d calls=%d loops=%d abort=%q %v\n", fnName(f), len(e.Exits), e.Steps, e.Calls, e.Loops, e.abort, time.Since(t))
		for _, x := range e.Exits {
			if len(e.Exits) > 40 && os.Getenv("ALL") == "" {
				break
			}
			if f := os.Getenv("RES"); f != "" && (len(x.Res) == 0 || x.Res[len(x.Res)-1].String() != f) {
				continue
			}
			fmt.Printf(" -- %s %v @%s (%s)\n", x.Kind, x.Res, x.St.lastRet, x.Pos)
			for _, f := range x.St.Facts() {
				fmt.Println("     ", shorten(f.String()))
			}
			if os.Getenv("EV") != "" {
				for _, ev := range x.St.Events() {
					fmt.Println("       event", ev.Kind, ev.Name, shorten(fmt.Sprint(ev.Args)), ev.Pos)
				}
			}
			for n := x.St.loops; n != nil; n = n.up {
				fmt.Printf("      loop %s alts=%d\n", n.rec.Key, len(n.rec.Alts))
				if os.Getenv("ALTS") != "" {
					for i, a := range n.rec.Alts {
						fmt.Println("       alt", i)
						base := map[*Term]bool{}
						for _, f := range n.rec.Base.Facts() {
							base[f] = true
						}
						for _, f := range a.Facts() {
							if !base[f] {
								fmt.Println("         ", shorten(f.String()))
							}
						}
						for _, ev := range a.EventsSince(n.rec.Base) {
							fmt.Println("          event", ev.Kind, ev.Name, shorten(fmt.Sprint(ev.Args)))
						}
					}
				}
				for _, ph := range n.rec.Phis {
					fmt.Println("        ", shorten(fmt.Sprintf("%s %s: %v (init %v) next %v", ph.Name, ph.Class, ph.Term, ph.Init, ph.Next)))
				}
			}
		}
		for _, o := range e.Obls {
			if !o.OK {
				seen := map[*Term]bool{}
				for _, f := range o.Fails {
					if seen[f.Cond] {
						continue
					}
					seen[f.Cond] = true
					fmt.Printf("   unproved %s at %s: %v\n", o.Kind, o.Pos, f.Cond)
				}
			}
		}
	}
}

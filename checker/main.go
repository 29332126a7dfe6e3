package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: osmcheck check <id>... | all | dump <function> [mem]")
		os.Exit(2)
	}
	repo := os.Getenv("OSM_REPO")
	if repo == "" {
		repo = "/repo"
	}
	out := os.Getenv("OSM_OUT")
	if out == "" {
		out = verifDir()
	}
	switch os.Args[1] {
	case "check", "all":
		ids := os.Args[2:]
		if os.Args[1] == "all" {
			ids = nil
			for id := range checks {
				ids = append(ids, id)
			}
			sort.Strings(ids)
		}
		code := 0
		for _, id := range ids {
			visitedFns = map[string]bool{}
			bad, err := runCheck(id, repo, out, false)
			if err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
			if bad > 0 {
				code = 1
				if os.Getenv("OSM_FIRST") != "" {
					break
				}
			}
		}
		os.Exit(code)
	case "list":
		m := map[string]any{}
		for id, d := range checks {
			m[id] = map[string]string{"technique": d.technique(), "note": d.note()}
		}
		b, _ := json.Marshal(m)
		fmt.Println(string(b))
	case "dump":
		dump(repo, os.Args[2:])
	case "pipes":
		dumpPipes(repo, os.Args[2:])
	}
}

func dump(repo string, args []string) {
	p, err := Load(repo, "")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fn := p.Func(args[0])
	in := NewInterp(p)
	for _, a := range args[1:] {
		if a == "mem" {
			in.TraceMem = true
		} else if a == "wire" {
			wireHooks(in)
		} else if strings.HasPrefix(a, "msg:") {
			wireHooks(in)
			msgHooks(in, map[string]bool{a[4:]: true})
		} else if a == "dom" {
			domainHooks(in, nil)
		} else if a == "atomic" {
			in.AtomicMem = true
		} else if a == "keep" {
			in.KeepPaths = true
		} else if strings.HasPrefix(a, "codec") {
			codecHooks(in, "EncodeVarInt", "DecodeVarInt", "EncodeZigZag", "DecodeZigZag")
		}
	}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(analysisError); ok {
				fmt.Println("ERR", e.msg)
				return
			}
			panic(r)
		}
	}()
	outs := in.Run(fn, in.SymArgs(fn), nil, newState())
	for _, o := range outs {
		dumpOut(p, o, "")
	}
}

func dumpOut(p *Program, o *Outcome, ind string) {
	fmt.Printf("%s=== %v rets=%v @%s\n", ind, []string{"ret", "panic", "exit"}[o.Kind], o.Rets, p.pos(o.Pos))
	dumpState(p, o.St, ind+"  ")
}

func dumpState(p *Program, st *State, ind string) {
	for c, v := range st.lits {
		fmt.Printf("%sfact %v = %v\n", ind, c, v)
	}
	for c, v := range st.heap {
		fmt.Printf("%smem %v = %v\n", ind, c, v)
	}
	dumpEvs(p, st.ev.list(), ind)
}

func dumpEvs(p *Program, evs []*Ev, ind string) {
	for _, e := range evs {
		fmt.Printf("%sev %s %s %v -> %v @%s\n", ind, e.Kind, e.Name, e.Args, e.Ret, p.pos(e.Pos))
		if e.Loop != nil {
			L := e.Loop
			fmt.Printf("%s  loop K=%v trip=%v\n", ind, L.K, L.Trip)
			for _, lv := range L.Order {
				fmt.Printf("%s   var %v init=%v next=%v\n", ind, lv.Sym, lv.Init, lv.Next)
			}
			for i, it := range L.Iters {
				fmt.Printf("%s   iter %d\n", ind, i)
				dumpEvs(p, it.St.ev.list(), ind+"     ")
				for c, v := range it.St.lits {
					fmt.Printf("%s     fact %v = %v\n", ind, c, v)
				}
			}
		}
	}
}

func dumpPipes(repo string, args []string) {
	p, err := Load(repo, "")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	c := &Ctx{P: p, seen: map[string]bool{}, stats: map[string]int{}}
	for _, k := range c.commands() {
		if len(args) > 0 && args[0] != k.Name {
			continue
		}
		fmt.Println("##", k.Name, "err:", k.Err, "outs:", len(k.Outs), "pipes:", len(k.Pipe))
		if len(args) > 1 && args[1] == "main" {
			for _, o := range k.Outs {
				dumpOut(p, o, "  ")
			}
			continue
		}
		for _, q := range k.Pipe {
			for _, w := range []bool{false, true} {
				if w && !q.hasWriter() {
					continue
				}
				s := c.stage(q, w, func(in *Interp) {
					in.TraceMem = os.Getenv("OSMCHECK_MEM") != ""
					if os.Getenv("OSMCHECK_OBJ") != "" {
						objectHooks(in)
					}
				})
				if os.Getenv("OSMCHECK_SNAP") != "" {
					fmt.Println(q.Work)
					for c, v := range q.St.heap {
						fmt.Println("    snap", c, v)
					}
				}
				fmt.Println("  --", s.name(), s.Err, "outs", len(s.Outs))
				if len(args) > 1 {
					for _, o := range s.Outs {
						dumpOut(p, o, "     ")
					}
				}
			}
		}
	}
}

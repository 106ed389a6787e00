// Command inimc explores one property exhaustively within its bounds.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"

	"inimc/checks"
	"inimc/core"
)

func main() {
	id := flag.String("property", "", "property id")
	tier := flag.String("tier", "", "quick or thorough")
	space := flag.String("space", "", "run one case: space")
	index := flag.Uint64("index", 0, "run one case: index")
	replay := flag.String("replay", "", "replay file")
	flag.Parse()
	debug.SetMaxStack(256 << 20)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	var from *uint64
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		var r struct {
			Property, Tier, Space string
			Index                 uint64
			From                  *uint64
		}
		if err := json.Unmarshal(b, &r); err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		*id, *tier, *space, *index = r.Property, r.Tier, r.Space, r.Index
		from = r.From
	}
	c := checks.Get(*id)
	if c == nil {
		fmt.Println("unknown property", *id)
		os.Exit(3)
	}
	if *space != "" {
		core.LimitMemory(8 << 30)
		fl, ok := core.RunSpaceIndex(c, *tier, *space, *index)
		if ok && fl == nil && from != nil && *from < *index {
			fl, ok = core.RunSpaceHistory(c, *tier, *space, *from, *index)
		}
		if !ok {
			fmt.Println("unknown space", *space)
			os.Exit(3)
		}
		if fl != nil {
			fmt.Printf("input: %s\nwant:  %s\ngot:   %s\n", fl.Input, fl.Want, fl.Got)
			os.Exit(1)
		}
		fmt.Println("case holds")
		return
	}
	if p := os.Getenv("INIMC_CHILD"); p != "" {
		core.LimitMemory(20 << 30)
		core.MapProgress(p)
		os.Exit(core.Run(c, *tier))
	}
	os.Exit(core.Supervise(c, *tier))
}

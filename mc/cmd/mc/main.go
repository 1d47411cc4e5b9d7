package main

import (
	"os"
	"runtime/debug"
	"runtime/pprof"
	"time"

	"verif/mc/core"
	_ "verif/mc/props"
)

func main() {
	if p := os.Getenv("VERIF_CPUPROFILE"); p != "" && len(os.Args) > 1 && os.Args[1] == "work" {
		if f, err := os.Create(p); err == nil {
			pprof.StartCPUProfile(f)
			time.AfterFunc(15*time.Second, pprof.StopCPUProfile)
		}
	}
	debug.SetGCPercent(400) // allocation-heavy cases, small heaps
	core.Main()
}

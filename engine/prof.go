package main

import (
	"os"
	"runtime/pprof"
)

func startProf(f string) func() {
	w, err := os.Create(f)
	if err != nil {
		fatal("%v", err)
	}
	pprof.StartCPUProfile(w)
	return func() { pprof.StopCPUProfile(); w.Close() }
}

package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"time"

	"verif/mc/emu"
)

func main() {
	p, err := emu.Load(os.Args[1])
	if err != nil {
		panic(err)
	}
	if f := os.Getenv("PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	t := time.Now()
	c, n, err := p.Run(os.Args[1:], []string{"GODEBUG=asyncpreemptoff=1", "GOMAXPROCS=1", "GOGC=300"}, nil, os.Stdout, 1<<50, nil)
	fmt.Println(c, n, err, time.Since(t), float64(n)/1e6/time.Since(t).Seconds(), "MIPS")
}

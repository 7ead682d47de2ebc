package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: ckubesim gen PROP SEED | run PLAN RESULT | gen-run PROP SEED RESULT")
		os.Exit(3)
	}
	// the goroutine that runs finalizers, which the first open file starts
	runtime.SetFinalizer(new([16]byte), func(*[16]byte) {})
	switch os.Args[1] {
	case "gen":
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		p := genPlan(os.Args[2], seed)
		bs, _ := json.MarshalIndent(p, "", " ")
		fmt.Println(string(bs))
	case "run":
		p := loadPlan(os.Args[2])
		if len(os.Args) > 4 && os.Args[4] == "-v" {
			p.Verbose = true
		}
		runPlan(p, os.Args[3])
	case "gen-run":
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		p := seededPlan(os.Args[2], seed)
		if len(os.Args) > 5 && os.Args[5] == "-v" {
			p.Verbose = true
		}
		runPlan(p, os.Args[4])
	}
}

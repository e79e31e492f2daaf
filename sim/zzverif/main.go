//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
)

func main() {
	if len(os.Args) < 3 {
		fmt.Println("usage: harness check|worker PROPERTY | replay FILE | one PROPERTY SEED")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(checkMain(os.Args[2]))
	case "worker":
		workerMain(os.Args[2])
	case "replay":
		os.Exit(replayMain(os.Args[2]))
	case "one":
		n, _ := strconv.ParseUint(os.Args[3], 10, 64)
		q := request{Seed: n, Trace: true}
		if len(os.Args) > 4 {
			q.Scen = os.Args[4]
		}
		p := q.run(os.Args[2])
		for _, l := range p.Trace {
			fmt.Println(l)
		}
		p.Trace, p.States = nil, nil
		b, _ := json.MarshalIndent(p, "", " ")
		fmt.Println(string(b))
	}
}

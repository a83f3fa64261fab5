// jxlmc runs the model-checking properties of /verif against the jxl-go tree.
package main

import (
	"fmt"
	"os"
	"strconv"

	"verif/checks"
	"verif/mc"
)

func main() {
	checks.Init()
	if len(os.Args) < 2 {
		fmt.Println("usage: jxlmc ID [quick|thorough] | list | replay FILE")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		mc.Worker(os.Args[2:])
	case "leaf":
		i, _ := strconv.ParseInt(os.Args[4], 10, 64)
		os.Exit(mc.LeafMain(os.Args[2], os.Args[3], i))
	case "replay":
		os.Exit(mc.ReplayMain(os.Args[2]))
	case "hist":
		os.Exit(checks.HistMain(os.Args[2:]))
	case "sched":
		os.Exit(checks.SchedMain(os.Args[2]))
	case "list":
		for _, id := range mc.IDs() {
			fmt.Println(id)
		}
	default:
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 2 {
			tier = os.Args[2]
		}
		if tier == "" {
			tier = "quick"
		}
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		root := os.Getenv("JXLMC_ROOT")
		if root == "" {
			root = "."
		}
		os.Exit(mc.Main(os.Args[1], tier, root, seed))
	}
}

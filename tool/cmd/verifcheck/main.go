// Command verifcheck decides one property of /repo by static analysis.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"

	"verif/chk"
)

func main() {
	tier := flag.String("tier", "quick", "quick or thorough")
	root := flag.String("repo", "/repo", "repository root")
	verif := flag.String("verif", "/verif", "verification directory")
	list := flag.Bool("list", false, "list properties")
	flag.Parse()
	debug.SetGCPercent(600)
	if *list {
		m := map[string]map[string]string{}
		for id, p := range chk.Registry {
			m[id] = map[string]string{"technique": p.Technique, "level": p.Level, "note": p.Note}
		}
		b, _ := json.MarshalIndent(m, "", " ")
		fmt.Println(string(b))
		return
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rc := 0
	for _, id := range flag.Args() {
		if c := chk.Execute(id, *tier, *root, *verif, seed); c != 0 && rc == 0 {
			rc = c
		}
	}
	os.Exit(rc)
}

// Command mc explores bounded state spaces of the godeep library exhaustively
// and compares every step of the real code with a reference model.
package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"time"
)

var scratchDir string

func main() {
	shard := flag.Int("shard", -1, "")
	shards := flag.Int("shards", runtime.NumCPU(), "")
	out := flag.String("out", "", "")
	budget := flag.Int("budget", 420, "")
	scratch := flag.String("scratch", "", "")
	flag.Parse()
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	if flag.NArg() < 1 {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(ids)
		return
	}
	id, tier := flag.Arg(0), "quick"
	if flag.NArg() > 1 {
		tier = flag.Arg(1)
	}
	if *shard >= 0 {
		scratchDir = filepath.Clean(*scratch)
		runShard(id, tier, *shard, *shards, *out, time.Duration(*budget)*time.Second)
		return
	}
	os.Exit(runAll(id, tier, *shards))
}

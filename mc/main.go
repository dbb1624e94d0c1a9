package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strconv"
	"syscall"
	"time"
	"unsafe"
)

func int64At(b []byte, off int) *int64 { return (*int64)(unsafe.Pointer(&b[off])) }

func readI64(b []byte, off int) int64 { return *int64At(b, off) }

func mapProgress(path string) []byte {
	f, err := os.OpenFile(path, os.O_RDWR, 0o644)
	if err != nil {
		return make([]byte, 4096)
	}
	defer f.Close()
	b, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return make([]byte, 4096)
	}
	return b
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: mc run ID [quick|thorough] | replay FILE | list | try")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		for _, k := range ids {
			fmt.Println(k, checks[k].Title)
		}
	case "run":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		os.Exit(runParent(os.Args[2], tier))
	case "soloload":
		soloLoadMain()
	case "worker":
		a := os.Args[2:]
		shard, _ := strconv.ParseInt(a[2], 10, 64)
		n, _ := strconv.ParseInt(a[3], 10, 64)
		dl, _ := strconv.ParseInt(a[6], 10, 64)
		runWorker(a[0], a[1], shard, n, a[4], a[5], time.Unix(0, dl))
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		if v.Kind != "" {
			if exe, _ := os.Executable(); exe != kindExe(v.Kind) {
				os.Setenv("GORACE", "halt_on_error=1 exitcode=1 history_size=7 atexit_sleep_ms=0")
				fmt.Println(syscall.Exec(kindExe(v.Kind), append([]string{kindExe(v.Kind)}, os.Args[1:]...), os.Environ()))
				os.Exit(2)
			}
		}
		dir, _ := os.MkdirTemp("", "mcreplay")
		os.WriteFile(dir+"/progress", make([]byte, 4096), 0o644)
		fmt.Println("input:", v.Input)
		if v.Of > 0 {
			runWorker(v.Property, v.Tier, v.Shard, v.Of, dir, "", time.Now().Add(time.Hour))
		} else {
			runWorker(v.Property, v.Tier, 0, 1, dir, fmt.Sprintf("%s#%d", v.Space, v.Index), time.Now().Add(time.Hour))
		}
		rb, _ := os.ReadFile(dir + "/result.json")
		os.RemoveAll(dir)
		var r result
		json.Unmarshal(rb, &r)
		if len(r.Violations) > 0 {
			fmt.Println(r.Violations[0].Message)
			fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, os.Args[2])
			os.Exit(1)
		}
		fmt.Println("not reproduced")
	case "corpusstats":
		corpusStats()
	case "edits":
		b, _ := strconv.Atoi(os.Args[2])
		m, _ := strconv.Atoi(os.Args[3])
		editDbg(b, true, m)
	case "maybe":
		maybeStats()
	case "gramstats":
		b, _ := strconv.Atoi(os.Args[3])
		gramStats(os.Args[2], b, os.Args[4:])
	case "gramtest":
		b, _ := strconv.Atoi(os.Args[3])
		gramTest(os.Args[2], b, os.Args[4:])
	case "solo":
		soloMain()
	case "try":
		tryMain()
	}
}

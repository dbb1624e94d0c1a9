package main

import (
	"fmt"
	"io"
	"os"
	"strings"
)

func tryMain() {
	b, _ := io.ReadAll(os.Stdin)
	s := string(b)
	d := Dumper{Loc: true, Ref: true}
	if strings.HasPrefix(strings.ToLower(strings.TrimSpace(s)), "unit") {
		u, err := parseUnitText(s)
		fmt.Println(err)
		if u != nil {
			fmt.Println(d.Dump(u))
		}
	} else {
		u, err := parseProgramText(s)
		fmt.Println(err)
		if u != nil {
			fmt.Println(d.Dump(u))
		}
	}
}

package main

import (
	"fmt"
	"sort"
)

func sortStrings(s []string) { sort.Strings(s) }

func sprint(v interface{}) string { return fmt.Sprint(v) }

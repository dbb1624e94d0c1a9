package main

import (
	"github.com/akm/tparser/ast"
	tlog "github.com/akm/tparser/log"
	"github.com/akm/tparser/parser"
)

type nullLogger struct{}

func (nullLogger) Printf(string, ...interface{}) {}

func init() { tlog.SetLogger(nullLogger{}) }

func parseProgramText(s string) (*ast.Program, error) {
	r := []rune(s)
	p := parser.NewProgramParser(parser.NewProgramContext("prog.dpr"))
	p.SetText(&r)
	p.NextToken()
	return p.ParseProgram()
}

func parseUnitText(s string) (*ast.Unit, error) {
	r := []rune(s)
	p := parser.NewUnitParser(parser.NewUnitContext(parser.NewProgramContext("prog.dpr"), "unit.pas"))
	p.SetText(&r)
	p.NextToken()
	return p.ParseUnit()
}

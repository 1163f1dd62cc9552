// Package static holds the table of generated compilers. It is empty in the
// committed tree; run.sh fills it in a scratch copy (see checks/gengen.go).
package static

import (
	"github.com/qiniu/text/tpl"
	util "github.com/qiniu/text/tpl/interpreter.util"
)

// Entry is one grammar text that was generated.
type Entry struct {
	Text string
	// Bad says why there is no usable code: the generator's refusal, or code
	// that doesn't compile.
	Bad string
	// Make returns a new compiler's Cl.
	Make func(marker func(tpl.Grammar, string) tpl.Grammar, init func(), s tpl.Tokener, mode tpl.ScanMode) func() tpl.CompileRet
}

// Table is indexed by grammar text.
var Table = map[string]*Entry{}

// Add is called by generated code.
func Add(e *Entry) { Table[e.Text] = e }

// Ipt is one interpreter that the tplgen command generated.
type Ipt struct {
	Key string
	Bad string
	New func(ipt util.Interface, s tpl.Tokener, mode tpl.ScanMode, nilOptions bool) (eng util.Engine, ret *tpl.CompileRet, current func() util.Interface, err error)
}

// Ipts is indexed by key.
var Ipts = map[string]*Ipt{}

// AddIpt is called by generated code.
func AddIpt(e *Ipt) { Ipts[e.Key] = e }

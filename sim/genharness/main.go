// Command genharness simulates the code generator.
package main

import (
	"os"
	"path/filepath"

	"github.com/alxarch/njson/verifsim/core"
)

var realGen = []string{"package internal/generator", "command cmd/njson", "dependency github.com/alxarch/meta", "go/parser, go/types, go/format"}
var stubGen = []string{"map iteration order in the generator and in meta: simulated", "clock: simulated", "file and process functions of os and io/ioutil, package log: simulated over a scratch directory"}

var scratch string

func main() {
	core.AtExit = func() {
		if scratch != "" {
			os.RemoveAll(scratch)
		}
	}
	defer core.AtExit()
	core.Main([]*core.Prop{
		{ID: "C16", Setup: setupC16, Direct: true, Real: realGen, Stub: stubGen, Probes: []int{pHistory, pRegen, pSameClock, pOtherClock, pReused, pMulti, pDup, pImports, pMapOrder},
			Rule: "Each run makes a package of 1-4 files with 1-7 structs (embedded structs, tags, duplicate and clashing names, imported types) and options, generates its code twice through the command or the generator's interface with different map iteration orders and clocks and different histories (other packages, options and types generated before in the same process or generator, an output file already present), and compares the outputs byte for byte but for the time stamp."},
		{ID: "C17", Setup: setupC17, Direct: true, Real: realGen, Stub: stubGen, Probes: []int{pGenError, pOldFile, pNoFile, pKilled, pFaulted},
			Rule: "Each run makes a package as for C16, whose output file is absent or of an earlier generation, (some with a tag that makes the generated code unprintable), and runs the command, writing the file or to standard output, up to 3 times with file faults or a kill at a chosen operation, checking the output file and exit status after each, and then once without faults."},
	})
}

// sub returns an empty directory of the given name in the scratch directory.
func sub(name string) string {
	if scratch == "" {
		d, err := os.MkdirTemp("", "njgen")
		if err != nil {
			panic(err)
		}
		scratch = d
	}
	d := filepath.Join(scratch, name)
	os.RemoveAll(d)
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

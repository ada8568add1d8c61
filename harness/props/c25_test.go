package props

import (
	"context"
	_ "embed"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/greymass/go-eosio/pkg/codegen"
	"pgregory.net/rapid"
)

//go:embed gendriver/driver.go.txt
var driverSource string

const extSource = `package ext

import "github.com/greymass/go-eosio/pkg/abi"

type Thing struct {
	A uint32
	B uint8
}

func (c Thing) MarshalABI(e *abi.Encoder) error {
	if err := e.WriteUint8(c.B); err != nil {
		return err
	}
	return e.WriteUint32(c.A)
}

func (c *Thing) UnmarshalABI(d *abi.Decoder) error {
	var err error
	if c.B, err = d.ReadUint8(); err == nil {
		c.A, err = d.ReadUint32()
	}
	return err
}
`

var genPrims = []string{"string", "uint64", "uint32", "uint16", "uint8", "int64", "int32", "int16", "int8", "bool", "int", "uint", "float32", "float64", "byte"}
var genTyped = []string{"chain.Name", "chain.Asset", "chain.Symbol", "chain.SymbolCode", "chain.TimePoint", "chain.TimePointSec", "chain.BlockTimestamp", "chain.BlockNum", "chain.Checksum160", "chain.Checksum256", "chain.Checksum512",
	"chain.Uint64", "chain.Uint128", "chain.Int128", "chain.Float128", "chain.Bytes", "chain.Blob", "chain.PublicKey", "chain.Signature", "chain.PermissionLevel", "chain.TransactionExtension",
	"chain.Action", "Own3", "OwnList", "Thing", "ext.Thing", "lower", "Uint8"}
var genFieldNames = []string{"A", "B", "From", "To", "Quantity", "Memo", "Err", "Length", "Exists", "Tmp", "E", "D", "V", "I", "Type", "Error", "Lower_case", "Été", "X1", "X2", "X3", "X4"}

type genField struct{ name, typ, tag string }

func gGenStruct(t *rapid.T, earlier []string) []genField {
	n := rapid.IntRange(0, 6).Draw(t, "nfields")
	if chance(t, "wide", 12) {
		n = len(genFieldNames)
	}
	names := rapid.Permutation(genFieldNames).Draw(t, "names")
	if chance(t, "very wide", 40) {
		n = pick(t, "manyfields", 40, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300)
		for i := len(names); i < n; i++ {
			names = append(names, fmt.Sprintf("Field%d", i))
		}
	}
	var fs []genField
	fields := n
	for i := 0; i < n; i++ {
		f := genField{name: names[i]}
		prim := false
		switch k := rapid.IntRange(0, 9).Draw(t, "elem"); {
		case k < 5:
			f.typ, prim = pick(t, "prim", genPrims...), true
		case k == 9 && len(earlier) > 0:
			f.typ = pick(t, "struct", earlier...)
		default:
			f.typ = pick(t, "typed", genTyped...)
		}
		switch rapid.IntRange(0, 4).Draw(t, "list") {
		case 0, 1:
			f.typ = "[]" + f.typ
		case 2:
			n := pick(t, "arrlen", 1, 2, 3, 10, 17)
			if prim && fields < 30 && chance(t, "longarr", 3) {
				n = pick(t, "longarrlen", 99, 100, 127, 128, 200, 256, 300, 1000, 1025, 4097, 20000, 70000)
			} else if fields < 30 && chance(t, "somewhat long", 8) {
				n = pick(t, "typedarrlen", 31, 32, 33, 64, 65, 100, 127, 128, 129, 256, 257)
			}
			f.typ = fmt.Sprintf("[%d]%s", n, f.typ)
		}
		switch rapid.IntRange(0, 5).Draw(t, "ptr") {
		case 0:
			f.typ = "*" + f.typ
		case 1, 2:
			f.typ, f.tag = "*"+f.typ, "`eosio:\"optional\"`"
		}
		fs = append(fs, f)
	}
	return fs
}

var longArray = regexp.MustCompile(`\[\d{4,}\]`)

func structText(fs []genField) string {
	var b strings.Builder
	b.WriteString("struct {\n")
	for _, f := range fs {
		fmt.Fprintf(&b, "\t%s %s %s\n", f.name, f.typ, f.tag)
	}
	b.WriteString("}")
	return b.String()
}

const genHeader = `package main

import (
	"errors"
	"fmt"
	"io"
	"math"

	"gen/ext"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/chain"
)

var _ = errors.New
var _ = fmt.Errorf
var _ = io.EOF
var _ = math.MaxInt32
var _ abi.Encoder
var _ chain.Name
var _ ext.Thing

`

func goBuild(dir, pkg, out string, env ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "build", "-o", out, pkg)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOMAXPROCS=2", "GORACE=")
	cmd.Env = append(cmd.Env, env...)
	b, err := cmd.CombinedOutput()
	return string(b), err
}

func harnessError(format string, args ...any) {
	fmt.Printf("HARNESS-ERROR "+format+"\n", args...)
	os.Exit(3)
}

var inGenFile = regexp.MustCompile(`(?m)^\S*?s(\d+)_gen\.go:\d+.*$`)

// few is check without its lower limit on the number of cases.
func few(t *testing.T, name string, n float64, prop func(*rapid.T)) {
	t.Run(name, func(t *testing.T) {
		n := int(n * scale)
		if n < 1 {
			n = 1
		}
		_ = flag.Set("rapid.checks", strconv.Itoa(n))
		rapid.Check(t, func(rt *rapid.T) {
			atomic.AddInt64(&progress, 1)
			prop(rt)
		})
	})
}

// program writes, compiles and runs one program with the given structs and
// returns what is wrong with them, by struct.
func program(structs map[string][]genField, order []string, seed int64, count int) (problems []string, sampled []string, cases int) {
	dir, err := os.MkdirTemp("", "gen")
	if err != nil {
		harnessError("%v", err)
	}
	defer os.RemoveAll(dir)
	write := func(name, text string) {
		p := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			harnessError("%v", err)
		}
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			harnessError("%v", err)
		}
	}
	write("go.mod", "module gen\n\ngo 1.23\n\nrequire github.com/greymass/go-eosio v0.0.0\n\nreplace github.com/greymass/go-eosio => /repo\n")
	write("ext/ext.go", extSource)
	// stage 1: the types alone, to run the generator on
	var types, twins, gen, entries strings.Builder
	types.WriteString(genHeader)
	twins.WriteString("package main\n\n")
	gen.WriteString("package main\n\nimport (\n\t\"encoding/json\"\n\t\"fmt\"\n\t\"os\"\n\n\t\"github.com/greymass/go-eosio/pkg/codegen\"\n)\n\ntype noMethods struct{}\n\nfunc one(name string, v interface{}) {\n\tdefer func() {\n\t\tif r := recover(); r != nil {\n\t\t\t_ = json.NewEncoder(os.Stdout).Encode([]string{name, \"\", fmt.Sprint(r)})\n\t\t}\n\t}()\n\t_ = json.NewEncoder(os.Stdout).Encode([]string{name, codegen.GenUnmarshalFn(v), \"\"})\n}\n\nfunc main() {\n")
	entries.WriteString("var entries = []entry{\n")
	for _, n := range order {
		fmt.Fprintf(&types, "type %s %s\n\n", n, structText(structs[n]))
		fmt.Fprintf(&twins, "type plain%s %s\n\n", n, n)
		fmt.Fprintf(&gen, "\tone(%q, %s{})\n", n, n)
		fmt.Fprintf(&entries, "\t{name: %q, with: %s{}, plain: plain%s{}},\n", n, n, n)
	}
	gen.WriteString("}\n")
	entries.WriteString("}\n")
	// the types with methods of their own are needed to name their package right
	own := driverSource[strings.Index(driverSource, "// Own3"):strings.Index(driverSource, "// chain types")]
	write("stage1/types.go", types.String()+own)
	write("stage1/main.go", gen.String())
	if out, err := goBuild(dir, "./stage1", "one"); err != nil {
		harnessError("stage 1 does not compile: %v %s", err, out)
	}
	cmd := exec.Command(filepath.Join(dir, "one"))
	out, err := cmd.Output()
	if err != nil {
		harnessError("stage 1: %v %s", err, out)
	}
	dec := json.NewDecoder(strings.NewReader(string(out)))
	broken := map[string]bool{}
	code := map[string]string{}
	for dec.More() {
		var line []string
		if err := dec.Decode(&line); err != nil {
			harnessError("stage 1 output: %v", err)
		}
		if line[2] != "" {
			problems = append(problems, fmt.Sprintf("%s %s: the generator panics: %s", line[0], structText(structs[line[0]]), line[2]))
			broken[line[0]] = true
		}
		code[line[0]] = line[1]
	}
	if len(problems) > 0 {
		return problems, nil, len(order)
	}
	// stage 2: with the generated methods
	write("stage2/types.go", types.String())
	write("stage2/entries.go", twins.String()+entries.String())
	write("stage2/driver.go", driverSource)
	for i, n := range order {
		write(fmt.Sprintf("stage2/s%d_gen.go", i), genHeader+code[n])
	}
	if out, err := goBuild(dir, "./stage2", "two"); err != nil {
		bad := map[string]bool{}
		for _, m := range inGenFile.FindAllStringSubmatch(out, -1) {
			i, err := strconv.Atoi(m[1])
			if err != nil || i >= len(order) {
				harnessError("stage 2: %s", m[0])
			}
			n := order[i]
			if !bad[n] {
				bad[n] = true
				problems = append(problems, fmt.Sprintf("%s %s: the generated code does not compile: %s\n%s", n, structText(structs[n]), m[0], code[n]))
			}
		}
		if len(problems) == 0 {
			harnessError("stage 2 does not compile: %v %s", err, out)
		}
		return problems, nil, len(order)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	cmd = exec.CommandContext(ctx, filepath.Join(dir, "two"), fmt.Sprint(seed), fmt.Sprint(count))
	out, err = cmd.CombinedOutput()
	if strings.Contains(string(out), "HARNESS-ERROR") || ctx.Err() != nil {
		harnessError("driver: %v %s", ctx.Err(), clip(string(out), 4000))
	}
	if err != nil {
		// died: only a fault of the generated code can do that
		return []string{fmt.Sprintf("the program with the generated code dies: %v %s", err, clip(string(out), 4000))}, nil, len(order)
	}
	dec = json.NewDecoder(strings.NewReader(string(out)))
	for dec.More() {
		var line struct {
			Struct, Problem string
			Cases           int
			Samples         []string
		}
		if err := dec.Decode(&line); err != nil {
			harnessError("driver output: %v %s", err, clip(string(out), 1000))
		}
		if line.Struct != "" {
			problems = append(problems, fmt.Sprintf("%s %s: %s\n%s", line.Struct, structText(structs[line.Struct]), line.Problem, code[line.Struct]))
		}
		cases += line.Cases
		sampled = append(sampled, line.Samples...)
	}
	return problems, sampled, cases
}

func TestC25(t *testing.T) {
	check(t, "refusal", 3000, func(t *rapid.T) {
		// an optional that is not a pointer
		n := rapid.IntRange(1, 8).Draw(t, "nfields")
		at := rapid.IntRange(0, n-1).Draw(t, "at")
		var fs []reflect.StructField
		for i := 0; i < n; i++ {
			rt := gLeafType(t).RT
			switch rapid.IntRange(0, 3).Draw(t, "list") {
			case 0:
				rt = reflect.SliceOf(rt)
			case 1:
				rt = reflect.ArrayOf(rapid.IntRange(1, 20).Draw(t, "len"), rt)
			}
			f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: rt}
			switch {
			case i == at:
				f.Tag = `eosio:"optional"`
			case rapid.Bool().Draw(t, "ptr"):
				f.Type = reflect.PtrTo(rt)
				if rapid.Bool().Draw(t, "optional") {
					f.Tag = `eosio:"optional"`
				}
			}
			fs = append(fs, f)
		}
		v := reflect.New(reflect.StructOf(fs)).Elem().Interface()
		stats.Case("optional that is not a pointer", n > 1, fmt.Sprintf("%T", v))
		var out string
		if !doesPanic(func() { out = codegen.GenUnmarshalFn(v) }) {
			t.Fatalf("the generator makes code for %T: %s", v, out)
		}
		// no struct at all
		if v := gLeafType(t); v.RT.Kind() != reflect.Struct && !doesPanic(func() { out = codegen.GenUnmarshalFn(reflect.Zero(v.RT).Interface()) }) {
			t.Fatalf("the generator makes code for %s: %s", v.RT, out)
		}
	})
	few(t, "programs", 2, func(t *rapid.T) {
		n := rapid.IntRange(1, 60).Draw(t, "structs")
		if n > 10 {
			n = 60
		}
		structs := map[string][]genField{}
		var order, sized []string
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("%s%d", pick(t, "name", "S", "S", "s", "Struct_", "Été", "Abi", "E", "lower_case", "MarshalABI"), i)
			structs[name] = gGenStruct(t, sized)
			order = append(order, name)
			// Zero-size structs are not used inside others: go 1.27 gets calls of
			// value methods wrong for structs of zero-size fields and one pointer.
			// Nor are big ones: lists of them would be out of proportion.
			big := len(structs[name]) >= 30
			for _, f := range structs[name] {
				big = big || longArray.MatchString(f.typ)
			}
			if len(structs[name]) > 0 && !big {
				sized = append(sized, name)
			}
		}
		seed := int64(rapid.Uint32().Draw(t, "seed"))
		problems, _, cases := program(structs, order, seed, 12)
		atomic.AddInt64(&progress, 1)
		for _, n := range order {
			stats.Case("struct", len(structs[n]) > 0, structText(structs[n]))
		}
		for i := 0; i < cases; i++ {
			stats.Count("values of those structs")
		}
		if len(problems) > 0 {
			t.Fatalf("%d structs, of which wrong: %s", n, clip(strings.Join(problems, "\n"), 6000))
		}
	})
}

package props

import (
	"fmt"
	"os"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// Coverage-guided fuzzing of the same properties (thorough tier): the bytes of
// the fuzzer are the random draws of rapid.

// collect, when set, gets the checks instead of them being run.
var collect func(name string, prop func(*rapid.T))

var fuzzable = map[string]func(*testing.T){
	"C01": TestC01, "C02": TestC02, "C03": TestC03, "C04": TestC04, "C05": TestC05, "C06": TestC06, "C07": TestC07, "C08": TestC08, "C09": TestC09,
	"C10": TestC10, "C11": TestC11, "C12": TestC12, "C13": TestC13, "C14": TestC14, "C15": TestC15, "C16": TestC16, "C17": TestC17, "C18": TestC18,
	"C19": TestC19, "C20": TestC20, "C21": TestC21, "C22": TestC22, "C23": TestC23, "C26": TestC26, "C27": TestC27, "C28": TestC28, "C29": TestC29, "C30": TestC30,
}

func collected(id string) (names []string, props map[string]func(*rapid.T)) {
	props = map[string]func(*rapid.T){}
	collect = func(name string, prop func(*rapid.T)) {
		names = append(names, name)
		props[name] = prop
	}
	defer func() { collect = nil }()
	fuzzable[id](nil)
	return
}

// TestFuzzTargets prints the names of the checks of VERIF_FUZZ, a property.
func TestFuzzTargets(t *testing.T) {
	id := os.Getenv("VERIF_FUZZ")
	if fuzzable[id] == nil {
		t.Skip("no property given")
	}
	names, _ := collected(id)
	for _, n := range names {
		fmt.Printf("FUZZ-TARGET %s\n", n)
	}
}

// FuzzProp fuzzes VERIF_FUZZ, a property and one of its checks ("C10/values").
func FuzzProp(f *testing.F) {
	id, name, _ := strings.Cut(os.Getenv("VERIF_FUZZ"), "/")
	if fuzzable[id] == nil {
		f.Skip("no property given")
	}
	_, props := collected(id)
	prop := props[name]
	if prop == nil {
		f.Fatalf("no check %q", name)
	}
	seed := uint64(envInt("VERIF_RSEED", 1))
	for i, n := range []int{0, 200, 2000, 2000, 10000, 10000, 40000, 40000} {
		b := make([]byte, n)
		expand(b, seed+uint64(i))
		f.Add(b)
	}
	f.Fuzz(rapid.MakeFuzz(prop))
}

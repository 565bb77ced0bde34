package universe

import (
	"fmt"
	"reflect"
)

// Layouts of structs whose fields come out of squashed (tagged) or embedded structs: "." is a field, "o" an omitted field,
// "(..)" a group that is flattened into its parent.
var layouts = []string{
	"(.)", "(..)", ".(.)", "(.).", ".(..)", "(..).", ".(.).", "(.)(.)", "(..)(..)", ".(...)", ".(.(.))", ".((.).)", "((.))", "((..)).",
	".(.).(.)", "(.(.(.)))", ".(.(.(.)).).", "()..", ".()", "o.", ".o", "o.o.o", ".(o.o.)o", "(o.)(.o)", "o(.(o.o.)o)", ".(.)(o..)", "..(.....)",
	".(...(...)).(.)",
}

var omittedTypes = []reflect.Type{
	reflect.TypeFor[map[string]int](), reflect.TypeFor[string](), reflect.TypeFor[[3]byte](), reflect.TypeFor[*uint64](), reflect.TypeFor[uint16](),
	reflect.TypeFor[interface{}](), reflect.TypeFor[[]byte](), reflect.TypeFor[func()](), reflect.TypeFor[bool](),
}

// Composed returns structs with squashed, embedded and omitted fields.
func Composed() []Entry {
	// steps through the kinds so that fixed and variable-size fields meet in every position
	var out []Entry
	for li, l := range layouts {
		for v := 0; v < 3; v++ {
			k, g, o := li*5+v*7, v, li+v
			at := 0
			var rec func() (reflect.Type, string)
			rec = func() (reflect.Type, string) {
				var fs []reflect.StructField
				name := ""
				for ; at < len(l) && l[at] != ')'; at++ {
					switch l[at] {
					case '.':
						e := FieldPool[k%len(FieldPool)]
						k += 3 + v
						f := reflect.StructField{Name: fmt.Sprintf("F%d", k), Type: e.T}
						if k%5 == 2 {
							f.Name, f.PkgPath = "_", "verif/mc/universe"
							name += "_ "
						} else if k%5 == 4 {
							f.Name, f.PkgPath = fmt.Sprintf("f%d", k), "verif/mc/universe"
						}
						fs = append(fs, f)
						name += e.Name + ";"
					case 'o':
						fs = append(fs, reflect.StructField{Name: fmt.Sprintf("Om%d", o), Type: omittedTypes[o%len(omittedTypes)], Tag: `ssz:"omit"`})
						name += "omit " + omittedTypes[o%len(omittedTypes)].String() + ";"
						o++
					case '(':
						at++
						in, n := rec()
						f := reflect.StructField{Name: fmt.Sprintf("Grp%d", o*10+g), Type: in}
						if g%2 == 0 {
							f.Anonymous = true
							name += "embedded "
						} else {
							f.Tag = `ssz:"squash"`
							name += "squashed "
						}
						g++
						fs = append(fs, f)
						name += n + ";"
					}
				}
				return reflect.StructOf(fs), "{" + name + "}"
			}
			t, n := rec()
			out = append(out, Entry{"composed" + n, t})
		}
	}
	return out
}

// gen lists the contract bindings of common/eth and common/bsc: it writes
// registry_test.go, which names their Go symbols, and ifaces.json, the contract
// interfaces the check holds them to. Run once by hand; its output is committed.
//
//	go run ./checks/bindc/gen REPO checks/bindc
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/ethereum/go-ethereum/accounts/abi"
)

type entry struct {
	Go string          `json:"go"`
	E  json.RawMessage `json:"e"`
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	meta := regexp.MustCompile(`(?m)^var (\w+)MetaData = &bind\.MetaData\{\n\tABI: (".*"),\n`)
	ifaces := map[string][]entry{}
	var reg strings.Builder
	reg.WriteString("// Code generated by gen. DO NOT EDIT.\n\npackage bindc\n\nimport (\n\t\"github.com/brevis-network/zk-utils/common/bsc\"\n\t\"github.com/brevis-network/zk-utils/common/eth\"\n)\n\nvar registry = []contract{\n")
	for _, pkg := range []string{"bsc", "eth"} {
		b, err := os.ReadFile(filepath.Join(repo, "common", pkg, "bindings.go"))
		must(err)
		src := string(b)
		has := func(s string) bool { return strings.Contains(src, "\n"+s) }
		ms := meta.FindAllStringSubmatch(src, -1)
		sort.Slice(ms, func(i, j int) bool { return ms[i][1] < ms[j][1] })
		for _, m := range ms {
			name := m[1]
			var js string
			must(json.Unmarshal([]byte(m[2]), &js))
			parsed, err := abi.JSON(strings.NewReader(js))
			must(err)
			var list []json.RawMessage
			must(json.Unmarshal([]byte(js), &list))
			var es []entry
			nth := map[string]int{}
			for _, raw := range list {
				var h struct{ Type, Name string }
				must(json.Unmarshal(raw, &h))
				e := entry{E: raw}
				if h.Type == "function" || h.Type == "event" {
					k := h.Type + " " + h.Name
					key := h.Name
					if n := nth[k]; n > 0 {
						key = fmt.Sprintf("%s%d", h.Name, n-1)
					}
					nth[k]++
					e.Go = abi.ToCamelCase(key)
					if h.Type == "function" {
						if _, ok := parsed.Methods[key]; !ok {
							panic(name + " " + key)
						}
						if !has("func (_" + name + " *" + name + "Session) " + e.Go + "(") {
							panic(name + " lacks " + e.Go)
						}
					} else if !has("func (_" + name + " *" + name + "Filterer) Parse" + e.Go + "(") {
						panic(name + " lacks event " + e.Go)
					}
				}
				es = append(es, e)
			}
			ifaces[pkg+"."+name] = es
			q := pkg + "." + name
			dep, bin := "nil", `""`
			if has("func Deploy" + name + "(") {
				dep = pkg + ".Deploy" + name
				bin = q + "Bin"
			}
			fmt.Fprintf(&reg, "\t{\"%s\", %s.New%s, %s.New%sCaller, %s.New%sTransactor, %s.New%sFilterer, %s, %s, %sABI,\n\t\t%sSession{}, %sCallerSession{}, %sTransactorSession{}, %sRaw{}, %sCallerRaw{}, %sTransactorRaw{}},\n",
				q, pkg, name, pkg, name, pkg, name, pkg, name, dep, bin, q, q, q, q, q, q, q)
		}
	}
	reg.WriteString("}\n")
	must(os.WriteFile(filepath.Join(out, "registry_test.go"), []byte(reg.String()), 0o644))
	// one entry per line
	var names []string
	for n := range ifaces {
		names = append(names, n)
	}
	sort.Strings(names)
	var js strings.Builder
	js.WriteString("{\n")
	for i, n := range names {
		if i > 0 {
			js.WriteString(",\n")
		}
		fmt.Fprintf(&js, "%q: [", n)
		for j, e := range ifaces[n] {
			if j > 0 {
				js.WriteString(",")
			}
			var c strings.Builder
			b, err := json.Marshal(e)
			must(err)
			c.Write(b)
			js.WriteString("\n" + c.String())
		}
		js.WriteString("]")
	}
	js.WriteString("\n}\n")
	must(os.WriteFile(filepath.Join(out, "ifaces.json"), []byte(js.String()), 0o644))
}

property = "C11"
edits = [("core/util.go", "\t\tallKeys := make([]string, 0)\n\t\tfor key := range dstMap.Keys() {\n\t\t\tif !slices.Contains(allKeys, key) {\n\t\t\t\tallKeys = append(allKeys, key)\n\t\t\t}\n\t\t}\n\t\tfor key := range srcMap.Keys() {\n\t\t\tif !slices.Contains(allKeys, key) {\n\t\t\t\tallKeys = append(allKeys, key)\n\t\t\t}\n\t\t}\n",
"\t\tallKeys := slices.Collect(dstMap.Keys())\n\t\tadded := make(map[string]bool)\n\t\tfor key := range srcMap.Keys() {\n\t\t\tif !dstMap.Has(key) {\n\t\t\t\tadded[key] = true\n\t\t\t}\n\t\t}\n\t\tfor key := range added {\n\t\t\tallKeys = append(allKeys, key)\n\t\t}\n")]
needs = "an overlay that adds several new keys to a map"
breaks = "the order in which added keys appear changes from run to run"
files = {"docs/main.yisp": """
!yisp
- maps.merge
- !quote {a: 1}
- !quote {k1: 1, k2: 2, k3: 3, k4: 4, k5: 5, k6: 6, k7: 7, k8: 8, k9: 9, k10: 10, k11: 11, k12: 12}
"""}

property = "C02"
edits = [("lib/exec.go", "\tfor _, stmt := range allowedGoPkgs {\n", "\tname, _, _ := strings.Cut(pkgStr, \"@\") // any version of an allowed package\n\tfor _, stmt := range allowedGoPkgs {\n"),
 ("lib/exec.go", "\t\tmatched, err := regexp.MatchString(regex, pkgStr)\n", "\t\tmatched, err := regexp.MatchString(regex, name)\n")]
needs = "a package with a version, and an allow-list with the bare name"
breaks = "what is started is not what was checked"
pkg = "lib"
test = r'''
package lib

import (
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/totegamma/yisp/core"
)

type demoEngine struct{ core.Engine }

func (demoEngine) GetOption(key string) (any, bool) {
	if strings.HasSuffix(key, "allowed_go_pkgs") {
		return []string{"example.com/tool"}, true
	}
	return nil, false
}

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	os.WriteFile(filepath.Join(dir, "go"), []byte("#!/bin/sh\necho started $3 > \""+dir+"/started\"\n"), 0755)
	t.Setenv("PATH", dir+":"+os.Getenv("PATH"))
	m := core.NewYispMap()
	m.Set("pkg", &core.YispNode{Kind: core.KindString, Value: "example.com/tool@v9.9.9-evil"})
	m.Set("asString", &core.YispNode{Kind: core.KindBool, Value: true})
	_, err := opGoRun([]*core.YispNode{{Kind: core.KindMap, Value: m}}, core.NewEnv(), core.EvalModeEval, demoEngine{})
	if err == nil {
		t.Error("a package that is not on the list was accepted")
	}
	if _, err := os.Stat(dir + "/started"); err == nil {
		t.Error("a package that is not on the list was started")
	}
}
'''
